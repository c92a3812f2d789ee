// Two ends: a client and a server application, each with its own S2AProxy and
// its own S2A (scripted: a toy handshake of three flights), connected by a
// network that cuts the stream anywhere and may interfere. Several sessions at
// a time. Script (I: session 0..3, SIDE: c|s):
//   reset
//   new I CSUITES SSUITES CID SIDS TARGETS TICKETS LAZY
//       CSUITES, SSUITES: 0,1,2 or -; CID: number of the client's identity or -1;
//       SIDS, TARGETS: numbers or -; TICKETS: how many the server's S2A sends;
//       LAZY 1: the S2As take only whole flights
//   hs I SIDE N       the application offers N bytes at most to its proxy
//   fp I SIDE         create the frame protector
//   ctx I SIDE        read the context
//   drop I SIDE       destroy the proxy
//   send I SIDE N CUT protect N bytes, put them into the network
//   recv I SIDE K CUT take K records at most out of the network, unprotect
//   net I SIDE flip R BIT | dup R | del R | swap R | from R J | reflect R
//                     change what is on the way to SIDE (R: which record)
//   spoil I SIDE      change the next handshake bytes on the way to SIDE
// Identity number k is of kind k mod 3 (SPIFFE, hostname, uid), "id-k".
#include "ref.h"
#include "wire.h"
#include <deque>
#include <set>
#include "s2a_proxy.h"
#include "src/record_protocol/s2a_ticket_sender.h"
using s2a::aead_crypter::Iovec;
using s2a::s2a_options::S2AOptions;
using s2a::s2a_proxy::S2AProxy;
typedef S2AOptions::Identity Id;
static const size_t CH = 64, SF = 90, CF = 41;
static std::string IdText(int k) { return k < 0 ? "n:" : std::string(1, "shu"[k % 3]) + ":" + Hex("id-" + std::to_string(k)); }
static int IdNum(const Id& i) {
  if (i.GetIdentityType() == S2AOptions::IdentityType::NONE) return -1;
  const char* k = i.GetIdentityType() == S2AOptions::IdentityType::SPIFFE_ID ? "s:" : i.GetIdentityType() == S2AOptions::IdentityType::HOSTNAME ? "h:" : "u:";
  for (int n = 0; n < 100; n++) if (IdText(n) == k + Hex(i.GetIdentityString())) return n;
  return -2;
}
static int NumOf(const std::string& t) {
  if (t == "n:") return -1;
  for (int n = 0; n < 100; n++) if (IdText(n) == t) return n;
  return -2;
}
static std::vector<int> Nums(const std::string& s) {
  std::vector<int> o;
  if (s == "-") return o;
  std::stringstream ss(s);
  std::string w;
  while (std::getline(ss, w, ',')) o.push_back(atoi(w.c_str()));
  return o;
}
static std::string List(const std::vector<int>& v) {
  std::string o = "[";
  for (int x : v) { if (o.size() > 1) o += ','; o += std::to_string(x); }
  return o + "]";
}
// byte x of what an application sends in its direction
static void Fill(uint64_t id, uint64_t from, Bytes* b) {
  uint64_t z = 0;
  for (size_t i = 0; i < b->size(); i++) {
    uint64_t x = from + i;
    if (i == 0 || x % 8 == 0) {
      z = (id * 0x9E3779B97F4A7C15ull) ^ (x / 8 + told::Salt()) * 0xD1B54A32D192ED03ull;
      z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; z ^= z >> 31;
    }
    (*b)[i] = (uint8_t)(z >> 8 * (x % 8)) | 1;
  }
}
struct Sent { int calls = 0; uint64_t cid = 0; int id = -3; std::vector<std::string> tickets; } g_sent;
extern "C" s2a::s2a_ticket_sender::WaitOnTicketSender
__wrap__ZN3s2a17s2a_ticket_sender16SendTicketsToS2AERNS0_19TicketSenderOptionsE(s2a::s2a_ticket_sender::TicketSenderOptions& o) {
  g_sent.calls++;
  g_sent.cid = o.connection_id;
  g_sent.id = IdNum(o.local_identity);
  if (o.tickets) for (auto& t : *o.tickets) g_sent.tickets.push_back(*t);
  return nullptr;
}
static std::string TicketMsg(int i, int j) {
  return std::string("\x04\0\0\x14", 4) + std::string(10, (char)(100 + j)) + std::string(10, (char)(50 + i));
}
struct Session;
// The S2A of one side.
struct Stub {
  Session* se;
  bool client;
  std::vector<int> suites, targets, locals;   // as it was told
  Bytes in;
  bool started = false, told_ok = true;
};
struct Side {
  std::unique_ptr<S2AProxy> p;
  std::unique_ptr<s2a::frame_protector::S2AFrameProtector> f;
  Stub s2a;
  Bytes hb;                       // handshake bytes on the way to this side
  std::deque<Bytes> recs;         // records on the way to this side
  bool spoiled = false;
  bool stopped = false, stopped_bad = false;           // the application uses the proxy no more
  bool broken = false;            // nor does it read on
  uint64_t sent = 0, got = 0;
};
struct Session {
  int i = 0;
  uint64_t id = 0;
  int su = -1, sid = -1, cid = -1, tix = 0;
  bool lazy = false;
  uint64_t cq = 0, sq = 0;        // first sequence numbers
  size_t fl = 1;                  // flights so many times as long
  Side c, s;
  Bytes cs, sc;                   // traffic secrets
  Side& side(const std::string& x) { return x == "c" ? c : s; }
};
// connections of different S2As may have the same number
static uint64_t ConnId(const Session& se, bool client) { return ((se.id - 1) / 2 * 2 + (client ? 0 : 1)) * 0x100000001ull; }
static Bytes Flight(Session& se, size_t n, const std::string& head, int tag) {
  Bytes b = Pattern(se.id * 16 + tag, n);
  memcpy(b.data(), head.data(), std::min(n, head.size()));
  return b;
}
static std::string Msg(const std::vector<std::pair<int, std::string>>& f) {
  std::string o;
  for (auto& x : f) wire::PutBytes(&o, x.first, x.second);
  return o;
}
// What the S2A of a side answers to in; eaten: how much of the peer's bytes it took.
struct Answer { std::string msg; Bytes out; std::vector<Bytes> recs; size_t eaten = 0; bool err = false; };
static Answer React(Session& se, Side& sd, bool start, const Bytes& in) {
  Stub& st = sd.s2a;
  Answer a;
  const size_t CH = ::CH * se.fl, SF = ::SF * se.fl, CF = ::CF * se.fl;
  size_t goal = st.client ? SF : st.in.size() < CH ? CH : CH + CF;
  size_t room = goal - std::min(goal, st.in.size());
  a.eaten = se.lazy && in.size() < room ? 0 : std::min(in.size(), room);
  if (st.client && start) a.eaten = 0;
  size_t was = st.in.size();
  st.in.insert(st.in.end(), in.begin(), in.begin() + a.eaten);
  std::string local, result;
  auto done = [&](int lid, int pid) {
    std::string s, r;
    wire::PutInt(&s, 1, 1); wire::PutInt(&s, 2, se.su); wire::PutInt(&s, 3, st.client ? se.sq : se.cq); wire::PutInt(&s, 4, st.client ? se.cq : se.sq + se.tix);
    const Bytes &ik = st.client ? se.sc : se.cs, &ok = st.client ? se.cs : se.sc;
    wire::PutBytes(&s, 5, std::string(ik.begin(), ik.end())); wire::PutBytes(&s, 6, std::string(ok.begin(), ok.end()));
    wire::PutInt(&s, 9, ConnId(se, st.client));
    wire::PutInt(&s, 10, se.id % 2);
    wire::PutBytes(&r, 1, "proto-" + std::to_string(se.i));
    wire::PutBytes(&r, 2, s, true);
    wire::PutBytes(&r, 4, wire::IdMsg(IdText(pid)), true);
    wire::PutBytes(&r, 5, wire::IdMsg(IdText(lid)), true);
    result = r;
    local = IdText(lid);
  };
  int cid = se.cid < 0 ? 99 : se.cid;
  if (sd.spoiled && a.eaten) { a.err = true; sd.spoiled = false; }
  else if (st.client) {
    if (start) a.out = Flight(se, CH, "CH", 1);
    else if (st.in.size() == SF && was < SF) {
      if (st.in != Flight(se, SF, "SF", 2)) a.err = true;
      else {
        if (!st.targets.empty() && std::find(st.targets.begin(), st.targets.end(), se.sid) == st.targets.end()) a.err = true;
        else { a.out = Flight(se, CF, "CF", 3); done(cid, se.sid); }
      }
    }
  } else if (was < CH && st.in.size() == CH) {
    if (st.in != Flight(se, CH, "CH", 1)) a.err = true;
    else {   // what the client's S2A was told travels in its hello
      se.su = -1;
      for (int x : se.c.s2a.suites) if (se.su < 0 && std::find(st.suites.begin(), st.suites.end(), x) != st.suites.end()) se.su = x;
      se.sid = st.locals.empty() ? 98 : *std::min_element(st.locals.begin(), st.locals.end());
      if (se.su < 0) a.err = true;
      else {
        a.out = Flight(se, SF, "SF", 2);
        local = IdText(se.sid);
        se.cs = Pattern(se.id * 4 + 1 + told::Salt(), ref::HashLen(se.su));
        se.sc = Pattern(se.id * 4 + 2 + told::Salt(), ref::HashLen(se.su));
        told::Secret("key", se.cs); told::Secret("key", se.sc);
      }
    }
  } else if (st.in.size() == CH + CF && was < CH + CF) {
    if (Bytes(st.in.begin() + CH, st.in.end()) != Flight(se, CF, "CF", 3)) a.err = true;
    else {
      done(se.sid, cid);
      ref::Direction d;
      d.Init(se.su, se.sc);
      for (int j = 0; j < se.tix; j++) {
        std::string m = TicketMsg(se.i, j + 1);
        a.recs.push_back(d.Record(0, se.sq + j, Bytes(m.begin(), m.end()), 22, 0));
      }
    }
  }
  std::string status;
  if (a.err) { wire::PutInt(&status, 1, 3); wire::PutBytes(&status, 2, "refused"); a.out.clear(); }
  Bytes out = a.out;
  for (auto& r : a.recs) out.insert(out.end(), r.begin(), r.end());
  std::string m;
  if (!local.empty() && !a.err) wire::PutBytes(&m, 1, wire::IdMsg(local), true);
  wire::PutBytes(&m, 2, std::string(out.begin(), out.end()));
  wire::PutInt(&m, 3, a.err ? 0 : a.eaten);
  if (!result.empty() && !a.err) wire::PutBytes(&m, 4, result, true);
  wire::PutBytes(&m, 5, status, true);
  a.msg = m;
  return a;
}
// reads the message of the proxy; kind and the peer's bytes in it
static std::string Read(Stub* st, const std::string& b, Bytes* in, bool* wf) {
  std::vector<wire::Field> fs, g;
  *wf = wire::Parse(b, &fs);
  std::string kind = "none";
  for (auto& f : fs) {
    if (f.wt != 2) { *wf = false; continue; }
    g.clear();
    if (f.num < 1 || f.num > 3) { if (f.num != 5) *wf = false; continue; }
    if (kind != "none") *wf = false;
    kind = f.num == 1 ? "client" : f.num == 2 ? "server" : "next";
    *wf = *wf && wire::Parse(f.b, &g);
    std::string by;
    if (f.num != 3) { st->suites.clear(); st->targets.clear(); st->locals.clear(); }
    for (auto& x : g) {
      if (f.num == 3) { if (x.num == 1 && x.wt == 2) by = x.b; else *wf = false; continue; }
      if (x.num == 4) {
        size_t q = 0;
        uint64_t v = x.v;
        if (x.wt == 0) st->suites.push_back((int)v);
        else while (q < x.b.size() && wire::Varint(x.b, &q, &v)) st->suites.push_back((int)v);
      }
      else if (f.num == 1 && x.num == 5) st->targets.push_back(NumOf(wire::IdOf(x.b, wf)));
      else if (x.num == 6 && f.num == 1) st->locals.push_back(NumOf(wire::IdOf(x.b, wf)));
      else if (x.num == 5 && f.num == 2) st->locals.push_back(NumOf(wire::IdOf(x.b, wf)));
      else if (x.num == 6 && f.num == 2) by = x.b;
    }
    *in = Bytes(by.begin(), by.end());
  }
  return kind;
}
static std::vector<std::unique_ptr<Exact>> g_keep;
static std::vector<Iovec> Cut(const Bytes& b, uint64_t seed) {
  g_keep.clear();
  std::vector<size_t> cuts;
  Rng r(seed);
  if (seed) { size_t k = r.below(6); for (size_t i = 0; i < k; i++) cuts.push_back(r.below(b.size() + 1)); std::sort(cuts.begin(), cuts.end()); }
  cuts.push_back(b.size());
  std::vector<Iovec> v;
  size_t at = 0;
  for (size_t c : cuts) {
    g_keep.push_back(std::make_unique<Exact>(Bytes(b.begin() + at, b.begin() + c)));
    v.push_back({g_keep.back()->p.get(), c - at});
    at = c;
  }
  return v;
}
int main(int argc, char** argv) {
  Driver d(argc, argv);
  std::map<int, std::unique_ptr<Session>> all;
  uint64_t made = 0;
  Toks t;
  while (d.next(&t)) {
    Json j;
    std::string op = t[0];
    auto I = [&](size_t k) { return k < t.size() ? atoi(t[k].c_str()) : 0; };
    auto U = [&](size_t k) { return k < t.size() ? strtoull(t[k].c_str(), nullptr, 10) : 0ull; };
    g_sent = Sent();
    if (op == "reset") {
      all.clear();
      made = 0;
      j.str("op", op);
      d.emit(j);
      continue;
    }
    if (op == "new") {
      auto& se = all[I(1)];
      se = std::make_unique<Session>();
      se->i = I(1); se->id = ++made; se->cid = I(4); se->tix = I(7); se->lazy = I(8); se->cq = U(9); se->sq = U(10); se->fl = std::max(1, I(11));
      bool ok = true;
      for (bool client : {true, false}) {
        auto o = std::make_unique<S2AOptions>();
        o->set_min_tls_version(S2AOptions::TlsVersion::TLS1_3);
        o->set_max_tls_version(S2AOptions::TlsVersion::TLS1_3);
        for (int v : Nums(t[client ? 2 : 3])) o->add_supported_ciphersuite(v == 0 ? S2AOptions::Ciphersuite::AES_128_GCM_SHA256 : v == 1 ? S2AOptions::Ciphersuite::AES_256_GCM_SHA384
            : S2AOptions::Ciphersuite::CHACHA20_POLY1305_SHA256);
        auto add = [&](int n, bool local) {
          std::string x = "id-" + std::to_string(n);
          if (n % 3 == 0) { if (local) o->add_local_spiffe_id(x); else o->add_target_spiffe_id(x); }
          else if (n % 3 == 1) { if (local) o->add_local_hostname(x); else o->add_target_hostname(x); }
          else { if (local) o->add_local_uid(x); else o->add_target_uid(x); }
        };
        if (client) { if (se->cid >= 0) add(se->cid, true); for (int n : Nums(t[6])) add(n, false); }
        else for (int n : Nums(t[5])) add(n, true);
        o->set_s2a_address("s2a:" + std::to_string(se->i));
        S2AProxy::S2AProxyOptions po;
        po.logger = [](const std::string& m) { told::Say(m); };
        po.is_client = client;
        po.application_protocol = "proto-" + std::to_string(se->i);
        po.target_hostname = client ? "host-" + std::to_string(se->i) : "";
        po.options = std::move(o);
        Side& sd = client ? se->c : se->s;
        sd.s2a.client = client;
        sd.p = S2AProxy::Create(po);
        ok = ok && sd.p != nullptr;
      }
      j.str("op", op).num("i", se->i).raw("cs", List(Nums(t[2]))).raw("ss", List(Nums(t[3]))).num("cid", se->cid).raw("sids", List(Nums(t[5]))).raw("tgts", List(Nums(t[6])))
          .num("tix", se->tix).boolean("lazy", se->lazy).raw("cq", Limbs(se->cq)).raw("sq", Limbs(se->sq)).num("fl", se->fl).boolean("ok", ok);
      d.emit(j);
      continue;
    }
    if (!all.count(I(1)) || !all[I(1)]) { d.emit(Json().str("op", "none")); continue; }
    Session& se = *all[I(1)];
    bool client = t[2] == "c";
    Side &me = client ? se.c : se.s, &peer = client ? se.s : se.c;
    j.str("op", op).num("i", se.i).str("side", t[2]);
    if (op == "hs") {
      if (!me.p || me.stopped || peer.stopped_bad) { d.emit(Json().str("op", "none")); continue; }
      Bytes all_in = me.hb, off, saw;
      for (auto& r : me.recs) all_in.insert(all_in.end(), r.begin(), r.end());
      off = Bytes(all_in.begin(), all_in.begin() + std::min<size_t>(all_in.size(), U(3)));
      bool was = me.p->IsHandshakeFinished();
      mem::g_lib = 1;
      auto a = me.p->GetBytesForS2A(off.empty() && U(3) == 0 ? nullptr : std::make_unique<S2AProxy::Buffer>(off.begin(), off.end()));
      mem::g_lib = 0;
      told::Say(std::string(a.status.message()));
      bool ok1 = a.status.ok() && a.buffer != nullptr, wf = true, ok2 = false, outok = true;
      std::string kind = "no";
      size_t rbc = 0, outn = 0;
      Answer an;
      if (ok1) {
        kind = Read(&me.s2a, std::string(a.buffer->begin(), a.buffer->end()), &saw, &wf);
        an = React(se, me, kind == "client" || kind == "server", saw);
        mem::g_lib = 1;
        auto b = me.p->GetBytesForPeer(std::make_unique<S2AProxy::Buffer>(an.msg.begin(), an.msg.end()));
        mem::g_lib = 0;
        told::Say(std::string(b.status.message()));
        ok2 = b.status.ok();
        if (ok2) {
          rbc = b.bytes_consumed;
          Bytes out, want = an.out;
          for (auto& r : an.recs) want.insert(want.end(), r.begin(), r.end());
          if (b.buffer) out = Bytes(b.buffer->begin(), b.buffer->end());
          outn = out.size();
          outok = out == want;
          // the application: consumed bytes are gone, the answer goes to the peer
          me.hb.erase(me.hb.begin(), me.hb.begin() + std::min(rbc, me.hb.size()));
          peer.hb.insert(peer.hb.end(), an.out.begin(), an.out.end());
          for (auto& r : an.recs) peer.recs.push_back(r);
        }
      }
      if (ok1 && !ok2) me.stopped_bad = true;
      if (me.stopped_bad || me.p->IsHandshakeFinished()) me.stopped = true;
      j.num("n", off.size()).boolean("ok1", ok1).str("kind", kind).boolean("wf", wf).boolean("saw", saw == off).boolean("ok2", ok2).num("rbc", rbc > 99999999 ? 99999999 : rbc).num("outn", outn)
          .boolean("outok", outok).boolean("was", was).boolean("fin", me.p->IsHandshakeFinished());
    } else if (op == "fp") {
      if (!me.p || me.f) { d.emit(Json().str("op", "none")); continue; }
      mem::g_lib = 1;
      auto r = me.p->CreateFrameProtector();
      mem::g_lib = 0;
      told::Say(std::string(r.status().message()));
      bool ok = r.ok() && *r != nullptr;
      if (ok) me.f = std::move(*r);
      j.boolean("ok", ok);
    } else if (op == "ctx") {
      if (!me.p) { d.emit(Json().str("op", "none")); continue; }
      auto r = me.p->GetS2AContext();
      bool ok = r.index() == 1 && absl::get<1>(r) != nullptr;
      if (r.index() == 0) told::Say(std::string(absl::get<0>(r).message()));
      j.boolean("ok", ok);
      if (ok) {
        auto& c = *absl::get<1>(r);
        j.num("su", (int)c.Ciphersuite()).num("pid", IdNum(c.PeerIdentity())).num("lid", IdNum(c.LocalIdentity())).boolean("app", c.ApplicationProtocol() == "proto-" + std::to_string(se.i))
            .boolean("rsm", c.IsHandshakeResumed() == (se.id % 2 == 1)).boolean("ver", c.TlsVersion() == S2AOptions::TlsVersion::TLS1_3);
      }
    } else if (op == "drop") {
      me.p.reset();
    } else if (op == "send") {
      if (!me.f) { d.emit(Json().str("op", "none")); continue; }
      Bytes b(U(3));
      Fill(se.id * 2 + client, me.sent, &b);
      told::Secret("data", b);
      auto v = Cut(b, U(4));
      mem::g_lib = 1;
      auto r = me.f->Protect(v);
      mem::g_lib = 0;
      told::Say(std::string(r.status.message()));
      bool ok = r.status.ok();
      Bytes out;
      for (auto& x : r.bytes) { out.insert(out.end(), (uint8_t*)x.iov_base, (uint8_t*)x.iov_base + x.iov_len); delete[] (uint8_t*)x.iov_base; }
      std::vector<int> ls;
      size_t at = 0;
      while (ok && at + 5 <= out.size()) {
        size_t n = 5 + (out[at + 3] << 8 | out[at + 4]);
        if (at + n > out.size()) break;
        peer.recs.push_back(Bytes(out.begin() + at, out.begin() + at + n));
        ls.push_back((int)n - 22);
        at += n;
      }
      me.sent += b.size();
      j.num("n", b.size()).boolean("ok", ok).raw("recs", List(ls)).num("rest", ok ? out.size() - at : 0);
    } else if (op == "recv") {
      size_t k = std::min<size_t>(U(3), me.recs.size());
      if (!me.f || k == 0 || !me.hb.empty() || me.broken) { d.emit(Json().str("op", "none")); continue; }
      Bytes in, data;
      for (size_t x = 0; x < k; x++) { in.insert(in.end(), me.recs.front().begin(), me.recs.front().end()); me.recs.pop_front(); }
      auto v = Cut(in, U(4));
      mem::g_lib = 1;
      auto r = me.f->Unprotect(v);
      mem::g_lib = 0;
      told::Say(std::string(r.status.message()));
      bool ok = r.status.ok();
      for (auto& x : r.bytes) { data.insert(data.end(), (uint8_t*)x.iov_base, (uint8_t*)x.iov_base + x.iov_len); delete[] (uint8_t*)x.iov_base; }
      Bytes want(data.size());
      Fill(se.id * 2 + !client, me.got, &want);
      bool eq = want == data;
      if (ok) me.got += data.size(); else me.broken = true;
      std::vector<int> handed;
      for (auto& x : g_sent.tickets) {
        int n = -1;
        for (int q = 1; q <= se.tix; q++) if (x == TicketMsg(se.i, q)) n = q;
        handed.push_back(n);
      }
      j.num("k", k).boolean("ok", ok).num("dlen", data.size()).boolean("eq", eq).num("calls", g_sent.calls).raw("handed", List(handed))
          .boolean("hcid", g_sent.cid == ConnId(se, client)).num("hid", g_sent.id);
    } else if (op == "net") {
      std::string act = t[3];
      size_t r = U(4);
      bool done = r < me.recs.size();
      if (act == "flip" && done) {
        Bytes& b = me.recs[r];
        size_t bit = U(5) % (b.size() * 8);
        if (bit / 8 == 3 || bit / 8 == 4) bit += 16;   // the length stays
        b[bit / 8 % b.size()] ^= 1 << (bit % 8);
      } else if (act == "dup" && done) { Bytes b = me.recs[r]; me.recs.insert(me.recs.begin() + r, b); }
      else if (act == "del" && done) me.recs.erase(me.recs.begin() + r);
      else if (act == "swap") { done = r + 1 < me.recs.size(); if (done) std::swap(me.recs[r], me.recs[r + 1]); }
      else if (act == "from" || act == "reflect") {   // a copy of another's record r goes first
        std::deque<Bytes>* o = &peer.recs;
        if (act == "from") o = all.count(I(5)) && all[I(5)] && I(5) != se.i ? &all[I(5)]->side(t[2]).recs : nullptr;
        done = o && r < o->size();
        if (done) { Bytes b = (*o)[r]; me.recs.push_front(b); }
      } else if (!done) {}
      else done = false;
      j.str("act", act).num("r", r).num("j", act == "from" ? I(5) : 0).boolean("done", done);
    } else if (op == "spoil") {
      me.spoiled = true;
    } else {
      j = Json().str("op", "none");
    }
    d.emit(j);
  }
}
