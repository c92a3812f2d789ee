// Drives S2AProxy: a scripted S2A, a scripted token source, an independent
// reader of the messages it makes. Script:
//   reset ROLE FLAGS APP TARGET MIN MAX SUITES TARGETS LOCALS TM AVAIL DEF ADDR
//       ROLE c|s; FLAGS bit 0: no logger, 1: no options; APP, TARGET, ADDR hex or -
//       SUITES 0,1,2 or -; TARGETS, LOCALS, AVAIL: ids s:HEX,h:HEX,u:HEX or -
//       TM 1: a token source is registered; DEF 1: it has a default token
//   avail AVAIL DEF       what the token source has from now on; DEF may also be
//       2N+0|1: tokens are longer by N bytes
//   s2a null|empty|p:ID:N bytes from the peer -> message to the S2A
//   peer KEY=VALUE...     response of the S2A -> bytes for the peer. Keys:
//       st=CODE|-  lid=ID|-  of=p:ID:N  bc=N  res=0|1  state=0|1  ver= su= isq= osq=
//       ik=p:ID:N ok=p:ID:N  rlid=ID|- pid=ID|-  app=HEX lfp=HEX pfp=HEX rsm=0|1 cid=N
//       ord=0|1 (status last | first)  cut=N (N bytes cut off the end)
//       flip=BIT|-1  unk=0|1 (unknown fields added)
//   peernull, peerempty
//   fp        create a frame protector and find out what it does
//   ctx       read the context
//   tickets   create a frame protector and receive a ticket
#include "ref.h"
#include "wire.h"
#include <set>
#include "s2a_proxy.h"
#include "src/record_protocol/s2a_ticket_sender.h"
using s2a::aead_crypter::Iovec;
using s2a::s2a_options::S2AOptions;
using s2a::s2a_proxy::S2AProxy;
typedef S2AOptions::Identity Id;
static std::string IdStr(const Id& i) {
  const char* k = "?";
  switch (i.GetIdentityType()) {
    case S2AOptions::IdentityType::NONE: k = "n"; break;
    case S2AOptions::IdentityType::SPIFFE_ID: k = "s"; break;
    case S2AOptions::IdentityType::HOSTNAME: k = "h"; break;
    case S2AOptions::IdentityType::UID: k = "u"; break;
    default: break;
  }
  return std::string(k) + ":" + Hex(i.GetIdentityString());
}
static std::vector<std::string> Split(const std::string& s, char c) {
  std::vector<std::string> o;
  if (s == "-") return o;
  std::stringstream ss(s);
  std::string w;
  while (std::getline(ss, w, c)) o.push_back(w);
  return o;
}
static std::string StrList(const std::vector<std::string>& v) {
  std::string o = "[";
  for (auto& x : v) { if (o.size() > 1) o += ','; o += Json::quote(x); }
  return o + "]";
}
static Bytes Pat(const std::string& t) {
  unsigned long long id = 0, n = 0;
  sscanf(t.c_str(), "p:%llu:%llu", &id, &n);
  return Pattern(id, n);
}
static Bytes KeyPat(const std::string& t) {   // a traffic secret
  unsigned long long id = 0, n = 0;
  sscanf(t.c_str(), "p:%llu:%llu", &id, &n);
  Bytes b = Pattern(id + told::Salt(), n);
  told::Secret("key", b);
  return b;
}
static std::string S(const Bytes& b) { return std::string(b.begin(), b.end()); }
struct Source { std::set<std::string> avail; bool def = false; int asked = 0; size_t pad = 0; } g_src;
// tokens are any bytes: they end in a zero byte and more
static std::string TokEnd() {
  std::string s = "#" + Hex(Pattern(991 + told::Salt(), 9));
  told::Secret("token", s);
  return std::string(g_src.pad, '.') + s + std::string("\0z", 2);
}
static std::string TokHead() {
  std::string s = Hex(Pattern(992 + told::Salt(), 5));
  told::Secret("token", s);
  return s;
}
struct Manager : s2a::token_manager::AccessTokenManagerInterface {
  absl::StatusOr<std::string> GetDefaultToken() override {
    g_src.asked++;
    if (g_src.def) return TokHead() + "t~default" + TokEnd();
    return absl::Status(absl::StatusCode::kNotFound, "no default token");
  }
  absl::StatusOr<std::string> GetToken(const Id& i) override {
    g_src.asked++;
    std::string s = IdStr(i);
    if (g_src.avail.count(s)) return TokHead() + "t~" + s + TokEnd();
    return absl::Status(absl::StatusCode::kNotFound, "no token");
  }
  std::string DebugName() const override { return "scripted"; }
};
struct Sent { bool called = false; uint64_t cid = 0; std::string id, url; std::vector<std::string> tickets; } g_sent;
extern "C" s2a::s2a_ticket_sender::WaitOnTicketSender
__wrap__ZN3s2a17s2a_ticket_sender16SendTicketsToS2AERNS0_19TicketSenderOptionsE(s2a::s2a_ticket_sender::TicketSenderOptions& o) {
  g_sent.called = true;
  g_sent.cid = o.connection_id;
  g_sent.id = IdStr(o.local_identity);
  g_sent.url = o.handshaker_service_url;
  g_sent.tickets.clear();
  if (o.tickets) for (auto& t : *o.tickets) g_sent.tickets.push_back(Hex(*t));
  return nullptr;
}
struct Sess { int suite; std::string ik, ok; uint64_t is, os; };
int main(int argc, char** argv) {
  Driver d(argc, argv);
  std::unique_ptr<S2AProxy> p;
  std::vector<Sess> seen;
  Toks t;
  while (d.next(&t)) {
    Json j;
    std::string op = t[0];
    if (op == "reset") {
      p.reset();
      seen.clear();
      auto o = std::make_unique<S2AOptions>();
      int fl = atoi(t[2].c_str());
      auto ver = [](const std::string& s) { int v = atoi(s.c_str()); return v == 0 ? S2AOptions::TlsVersion::TLS1_2 : v == 1 ? S2AOptions::TlsVersion::TLS1_3 : static_cast<S2AOptions::TlsVersion>(v); };
      o->set_min_tls_version(ver(t[5]));
      o->set_max_tls_version(ver(t[6]));
      std::string sj = "[";
      for (auto& s : Split(t[7], ',')) {
        int v = atoi(s.c_str());
        o->add_supported_ciphersuite(v == 0 ? S2AOptions::Ciphersuite::AES_128_GCM_SHA256 : v == 1 ? S2AOptions::Ciphersuite::AES_256_GCM_SHA384
            : v == 2 ? S2AOptions::Ciphersuite::CHACHA20_POLY1305_SHA256 : static_cast<S2AOptions::Ciphersuite>(v));
        if (sj.size() > 1) sj += ',';
        sj += std::to_string(v);
      }
      for (auto& s : Split(t[8], ',')) {
        std::string x = UnhexS(s.substr(2));
        if (s[0] == 's') o->add_target_spiffe_id(x); else if (s[0] == 'h') o->add_target_hostname(x); else o->add_target_uid(x);
      }
      for (auto& s : Split(t[9], ',')) {
        std::string x = UnhexS(s.substr(2));
        if (s[0] == 's') o->add_local_spiffe_id(x); else if (s[0] == 'h') o->add_local_hostname(x); else o->add_local_uid(x);
      }
      std::string addr = UnhexS(t[13]);
      o->set_s2a_address(addr);
      g_src = Source();
      for (auto& s : Split(t[11], ',')) g_src.avail.insert(s);
      g_src.def = atoi(t[12].c_str()) & 1;
      g_src.pad = atoi(t[12].c_str()) / 2;
      S2AProxy::S2AProxyOptions po;
      if (!(fl & 1)) po.logger = [](const std::string& m) { told::Say(m); };
      po.is_client = t[1] == "c";
      po.application_protocol = UnhexS(t[3]);
      po.target_hostname = UnhexS(t[4]);
      if (!(fl & 2)) po.options = std::move(o);
      if (t[10] == "1") po.token_manager = std::make_unique<Manager>();
      p = S2AProxy::Create(po);
      j.str("op", op).str("role", t[1]).num("flags", fl).str("app", Hex(UnhexS(t[3]))).str("target", Hex(UnhexS(t[4]))).num("min", atoi(t[5].c_str())).num("max", atoi(t[6].c_str()))
          .raw("suites", sj + "]").raw("tgts", StrList(Split(t[8], ','))).raw("locs", StrList(Split(t[9], ','))).boolean("tm", t[10] == "1").raw("avail", StrList(Split(t[11], ',')))
          .boolean("def", g_src.def).boolean("addr", !addr.empty()).str("url", Hex(addr)).boolean("ok", p != nullptr);
    } else if (!p) {
      j.str("op", "none");
    } else if (op == "avail") {
      g_src.avail.clear();
      for (auto& s : Split(t[1], ',')) g_src.avail.insert(s);
      g_src.def = atoi(t[2].c_str()) & 1;
      size_t pad = atoi(t[2].c_str()) / 2;
      if (pad) g_src.pad = pad;
      j.str("op", op).raw("avail", StrList(Split(t[1], ','))).boolean("def", g_src.def);
    } else if (op == "s2a") {
      std::unique_ptr<S2AProxy::Buffer> in;
      Bytes b;
      if (t[1] != "null") {
        if (t[1] != "empty") b = Pat(t[1]);
        in = std::make_unique<S2AProxy::Buffer>(b.begin(), b.end());
      }
      mem::g_lib = 1;
      auto r = p->GetBytesForS2A(std::move(in));
      mem::g_lib = 0;
      told::Say(std::string(r.status.message()));
      bool ok = r.status.ok();
      bool wf = !ok || r.buffer != nullptr, start = false;
      std::vector<std::string> kinds, apps, tgts, locs, auth, atok;
      std::string suites = "[", tname, inb;
      uint64_t mn = 0, mx = 0;
      if (ok && r.buffer) {
        std::vector<wire::Field> fs, g;
        wf = wire::Parse(std::string(r.buffer->begin(), r.buffer->end()), &fs);
        for (auto& f : fs) {
          if (f.wt != 2) { wf = false; continue; }
          g.clear();
          if (f.num == 1 || f.num == 2 || f.num == 3) {
            kinds.push_back(f.num == 1 ? "client" : f.num == 2 ? "server" : "next");
            wf = wf && wire::Parse(f.b, &g);
            for (auto& x : g) {
              if (f.num == 3) { if (x.num == 1 && x.wt == 2) inb += x.b; else wf = false; continue; }
              if (x.num == 1 && x.wt == 2) apps.push_back(Hex(x.b));
              else if (x.num == 2 && x.wt == 0) mn = x.v;
              else if (x.num == 3 && x.wt == 0) mx = x.v;
              else if (x.num == 4) {
                std::string pk = x.b;
                size_t q = 0;
                uint64_t v = x.v;
                if (x.wt == 0) { if (suites.size() > 1) suites += ','; suites += std::to_string((int)v); }
                else while (q < pk.size() && wire::Varint(pk, &q, &v)) { if (suites.size() > 1) suites += ','; suites += std::to_string((int)v); }
              }
              else if (f.num == 1 && x.num == 5 && x.wt == 2) tgts.push_back(wire::IdOf(x.b, &wf));
              else if (f.num == 1 && x.num == 6 && x.wt == 2) locs.push_back(wire::IdOf(x.b, &wf));
              else if (f.num == 1 && x.num == 7 && x.wt == 2) tname = Hex(x.b);
              else if (f.num == 2 && x.num == 5 && x.wt == 2) locs.push_back(wire::IdOf(x.b, &wf));
              else if (f.num == 2 && x.num == 6 && x.wt == 2) inb = x.b;
              else wf = false;
            }
          } else if (f.num == 5) {
            wf = wf && wire::Parse(f.b, &g);
            std::string id = "n:", tok;
            for (auto& x : g) {
              if (x.num == 1 && x.wt == 2) { id = wire::IdOf(x.b, &wf); if (id == "n:") wf = false; }
              else if (x.num == 2 && x.wt == 2) tok = x.b;
              else wf = false;
            }
            auth.push_back(id);
            std::string te = TokEnd(), th = TokHead();
            if (tok.size() >= th.size() + te.size() && tok.compare(tok.size() - te.size(), te.size(), te) == 0 && tok.compare(0, th.size(), th) == 0)
              tok = tok.substr(th.size(), tok.size() - th.size() - te.size());
            else tok = "!" + Hex(tok);
            atok.push_back(tok);
          } else { kinds.push_back("other"); wf = false; }
        }
      }
      j.str("op", op).num("ilen", b.size()).str("idig", Dig(b)).boolean("ok", ok).boolean("wf", wf).raw("kinds", StrList(kinds)).raw("apps", StrList(apps)).num("min", mn > 99 ? 99 : mn)
          .num("max", mx > 99 ? 99 : mx).raw("suites", suites + "]").raw("tgts", StrList(tgts)).raw("locs", StrList(locs)).str("tname", tname).num("blen", inb.size()).str("bdig", Dig(inb))
          .raw("auth", StrList(auth)).raw("atok", StrList(atok)).boolean("nobuf", r.buffer == nullptr).num("asked", g_src.asked).boolean("fin", p->IsHandshakeFinished());
      g_src.asked = 0;
    } else if (op == "peernull" || op == "peerempty") {
      auto r = p->GetBytesForPeer(op == "peernull" ? nullptr : std::make_unique<S2AProxy::Buffer>());
      told::Say(std::string(r.status.message()));
      j.str("op", "peernone").boolean("ok", r.status.ok()).boolean("nobuf", r.buffer == nullptr || r.buffer->empty()).boolean("fin", p->IsHandshakeFinished());
    } else if (op == "peer") {
      std::map<std::string, std::string> k = {{"st", "0"}, {"lid", "-"}, {"of", "p:0:0"}, {"bc", "0"}, {"res", "0"}, {"state", "1"}, {"ver", "1"}, {"su", "0"}, {"isq", "0"}, {"osq", "0"},
          {"ik", "p:1:32"}, {"ok", "p:2:32"}, {"rlid", "s:61"}, {"pid", "-"}, {"app", "-"}, {"lfp", "-"}, {"pfp", "-"}, {"rsm", "0"}, {"cid", "0"}, {"ord", "0"}, {"cut", "0"}, {"flip", "-1"}, {"unk", "0"}};
      for (size_t i = 1; i < t.size(); i++) { size_t e = t[i].find('='); k[t[i].substr(0, e)] = t[i].substr(e + 1); }
      auto N = [&](const char* x) { return strtoull(k[x].c_str(), nullptr, 10); };
      std::vector<std::pair<std::string, std::string>> parts;   // name, encoding
      auto add = [&](const char* name, uint32_t num, const std::string& b, bool always) { std::string o; wire::PutBytes(&o, num, b, always); if (!o.empty()) parts.push_back({name, o}); };
      Bytes frames = Pat(k["of"]), ik = KeyPat(k["ik"]), ok = KeyPat(k["ok"]);
      std::string st;
      if (k["st"] != "-") { wire::PutInt(&st, 1, N("st")); if (N("st")) wire::PutBytes(&st, 2, "details"); if (k["ord"] == "1") add("st", 5, st, true); }
      if (k["lid"] != "-") add("lid", 1, wire::IdMsg(k["lid"]), true);
      add("of", 2, S(frames), false);
      { std::string o; wire::PutInt(&o, 3, (uint32_t)N("bc")); if (!o.empty()) parts.push_back({"bc", o}); }
      if (k["res"] == "1") {
        std::string r, s;
        wire::PutBytes(&r, 1, UnhexS(k["app"]));
        if (k["state"] == "1") {
          wire::PutInt(&s, 1, N("ver")); wire::PutInt(&s, 2, N("su")); wire::PutInt(&s, 3, N("isq")); wire::PutInt(&s, 4, N("osq"));
          wire::PutBytes(&s, 5, S(ik)); wire::PutBytes(&s, 6, S(ok)); wire::PutBytes(&s, 7, S(Pattern(77, 12))); wire::PutBytes(&s, 8, S(Pattern(78, 12)));
          wire::PutInt(&s, 9, N("cid")); wire::PutInt(&s, 10, N("rsm"));
          if (k["unk"] == "1") wire::PutInt(&s, 99, 12345);
          wire::PutBytes(&r, 2, s, true);
        }
        if (k["pid"] != "-") wire::PutBytes(&r, 4, wire::IdMsg(k["pid"]), true);
        if (k["rlid"] != "-") wire::PutBytes(&r, 5, wire::IdMsg(k["rlid"]), true);
        wire::PutBytes(&r, 6, UnhexS(k["lfp"]));
        wire::PutBytes(&r, 7, UnhexS(k["pfp"]));
        if (k["unk"] == "1") wire::PutBytes(&r, 51, "unknown");
        add("res", 4, r, true);
      }
      if (k["unk"] == "1") add("unk", 88, "unknown", true);
      if (k["st"] != "-" && k["ord"] == "0") add("st", 5, st, true);
      std::string msg;
      for (auto& x : parts) msg += x.second;
      size_t cut = std::min<size_t>(N("cut"), msg.size());
      msg.resize(msg.size() - cut);
      // which fields are still there
      std::set<std::string> has;
      size_t at = 0;
      bool malformed = false;
      for (auto& x : parts) {
        if (at + x.second.size() <= msg.size()) has.insert(x.first);
        else if (at < msg.size()) malformed = true;
        at += x.second.size();
      }
      long flip = atol(k["flip"].c_str());
      bool amb = false;
      if (flip >= 0 && !msg.empty()) { msg[flip / 8 % msg.size()] ^= 1 << (flip % 8); amb = true; }
      bool none = msg.empty();
      auto buf = std::make_unique<S2AProxy::Buffer>(msg.begin(), msg.end());
      buf->shrink_to_fit();
      bool before = p->IsHandshakeFinished();
      mem::g_lib = 1;
      auto r = p->GetBytesForPeer(std::move(buf));
      mem::g_lib = 0;
      told::Say(std::string(r.status.message()));
      bool rok = r.status.ok();
      Bytes got;
      if (r.buffer) got = Bytes(r.buffer->begin(), r.buffer->end());
      if (has.count("res")) seen.push_back({(int)N("su"), k["ik"], k["ok"], N("isq"), N("osq")});
      if (!has.count("of")) frames.clear();
      j.str("op", "peer").boolean("bad", malformed || none).boolean("amb", amb).boolean("hasst", has.count("st")).str("code", std::to_string((uint32_t)N("st"))).boolean("haslid", has.count("lid")).str("lid", k["lid"])
          .boolean("hasres", has.count("res")).boolean("hasstate", k["state"] == "1").num("ver", atoi(k["ver"].c_str())).num("su", atoi(k["su"].c_str())).raw("isq", Limbs(N("isq"))).raw("osq", Limbs(N("osq")))
          .str("ik", k["ik"]).str("ok_", k["ok"]).num("ikl", ik.size()).num("okl", ok.size()).boolean("hasrlid", k["rlid"] != "-").str("rlid", k["rlid"]).str("pid", k["pid"] == "-" ? "n:" : k["pid"])
          .str("app", Hex(UnhexS(k["app"]))).str("lfp", Hex(UnhexS(k["lfp"]))).str("pfp", Hex(UnhexS(k["pfp"]))).boolean("rsm", k["rsm"] == "1").str("cid", std::to_string(N("cid")))
          .num("flen", frames.size()).str("fdig", Dig(frames)).str("bc", has.count("bc") ? std::to_string((uint32_t)N("bc")) : "0")
          .boolean("rok", rok).boolean("nobuf", r.buffer == nullptr).num("blen", got.size()).str("bdig", Dig(got)).str("rbc", std::to_string(r.bytes_consumed)).boolean("was", before)
          .boolean("fin", p->IsHandshakeFinished());
    } else if (op == "fp") {
      mem::g_lib = 1;
      auto r = p->CreateFrameProtector();
      mem::g_lib = 0;
      told::Say(std::string(r.status().message()));
      bool ok = r.ok() && *r != nullptr;
      std::string outf = "[]", inf = "[";
      bool found = false, roundok = true;
      if (ok) {
        Bytes msg = Pattern(5, 20);
        std::vector<Iovec> v = {{msg.data(), msg.size()}};
        auto pr = (*r)->Protect(v);
        told::Say(std::string(pr.status.message()));
        Bytes got;
        if (pr.status.ok()) for (auto& x : pr.bytes) { got.insert(got.end(), (uint8_t*)x.iov_base, (uint8_t*)x.iov_base + x.iov_len); delete[] (uint8_t*)x.iov_base; }
        else roundok = false;
        std::set<std::string> done;
        for (auto& a : seen) for (auto& b : seen) {
          std::vector<std::pair<std::string, uint64_t>> keys = {{b.ok, b.os}, {b.ok, b.is}, {b.ik, b.is}, {b.ik, b.os}, {b.ok, 0}, {b.ik, 0}, {b.ok, b.os & 0xffffffffu}, {b.ok, b.os + 1}};
          for (auto& ks : keys) {
            if (a.suite < 0 || a.suite > 2 || KeyPat(ks.first).size() != ref::HashLen(a.suite)) continue;
            std::string tag = std::to_string(a.suite) + "/" + ks.first + "/" + std::to_string(ks.second);
            if (!done.insert(tag).second) continue;
            ref::Direction dir;
            dir.Init(a.suite, KeyPat(ks.first));
            Bytes inner;
            if (!found && dir.OpenRecord(0, ks.second, got, &inner)) {
              Bytes want = msg;
              want.push_back(23);
              if (inner != want) roundok = false;
              found = true;
              outf = "[" + std::to_string(a.suite) + "," + Json::quote(ks.first) + "," + Limbs(ks.second) + "]";
            }
          }
        }
        done.clear();
        for (auto& a : seen) {
          std::string tag = std::to_string(a.suite) + "/" + a.ik + "/" + std::to_string(a.is);
          if (!done.insert(tag).second || a.suite < 0 || a.suite > 2 || KeyPat(a.ik).size() != ref::HashLen(a.suite)) continue;
          auto r2 = p->CreateFrameProtector();
          if (!r2.ok() || *r2 == nullptr) { roundok = false; continue; }
          ref::Direction dir;
          dir.Init(a.suite, KeyPat(a.ik));
          Bytes rec = dir.Record(0, a.is, msg, 23, 0);
          std::vector<Iovec> rv = {{rec.data(), rec.size()}};
          auto ur = (*r2)->Unprotect(rv);
        told::Say(std::string(ur.status.message()));
          Bytes back;
          for (auto& x : ur.bytes) { back.insert(back.end(), (uint8_t*)x.iov_base, (uint8_t*)x.iov_base + x.iov_len); delete[] (uint8_t*)x.iov_base; }
          if (ur.status.ok()) {
            if (back != msg) roundok = false;
            if (inf.size() > 1) inf += ',';
            inf += "[" + std::to_string(a.suite) + "," + Json::quote(a.ik) + "," + Limbs(a.is) + "]";
          }
        }
      }
      j.str("op", op).boolean("ok", ok).boolean("found", found).raw("outf", outf).raw("inf", inf + "]").boolean("roundok", roundok).boolean("fin", p->IsHandshakeFinished());
    } else if (op == "tickets") {
      g_sent = Sent();
      auto r = p->CreateFrameProtector();
      bool ok = r.ok() && *r != nullptr;
      bool acc = false;
      if (ok) for (auto& a : seen) {
        if (a.suite < 0 || a.suite > 2 || KeyPat(a.ik).size() != ref::HashLen(a.suite)) continue;
        auto r2 = p->CreateFrameProtector();
        if (!r2.ok() || *r2 == nullptr) continue;
        ref::Direction dir;
        dir.Init(a.suite, KeyPat(a.ik));
        Bytes tk = {4, 0, 0, 3, 7, 8, 9};
        Bytes b = dir.Record(0, a.is, tk, 22, 0), c = dir.Record(0, a.is + 1, Pattern(5, 5), 23, 0);
        b.insert(b.end(), c.begin(), c.end());
        std::vector<Iovec> rv = {{b.data(), b.size()}};
        auto ur = (*r2)->Unprotect(rv);
        told::Say(std::string(ur.status.message()));
        for (auto& x : ur.bytes) delete[] (uint8_t*)x.iov_base;
        if (ur.status.ok()) acc = true;
      }
      j.str("op", op).boolean("ok", ok).boolean("called", g_sent.called && acc).str("cid", std::to_string(g_sent.cid)).str("id", g_sent.id).str("url", Hex(g_sent.url)).raw("tk", StrList(g_sent.tickets)).boolean("fin", p->IsHandshakeFinished());
    } else if (op == "ctx") {
      mem::g_lib = 1;
      auto r = p->GetS2AContext();
      mem::g_lib = 0;
      if (r.index() == 0) told::Say(std::string(absl::get<0>(r).message()));
      bool ok = r.index() == 1 && absl::get<1>(r) != nullptr;
      j.str("op", op).boolean("ok", ok);
      if (ok) {
        auto& c = *absl::get<1>(r);
        j.str("app", Hex(c.ApplicationProtocol())).num("ver", c.TlsVersion() == S2AOptions::TlsVersion::TLS1_2 ? 0 : c.TlsVersion() == S2AOptions::TlsVersion::TLS1_3 ? 1 : 99)
            .num("su", (int)c.Ciphersuite()).str("pid", IdStr(c.PeerIdentity())).str("rlid", IdStr(c.LocalIdentity())).str("pfp", Hex(c.PeerCertFingerprint())).str("lfp", Hex(c.LocalCertFingerprint()))
            .boolean("rsm", c.IsHandshakeResumed());
      }
      j.boolean("fin", p->IsHandshakeFinished());
    } else {
      j.str("op", "none");
    }
    d.emit(j);
  }
}
