// Drives the value types: options and identities, conversions, the environment
// token manager, serialized contexts, resumption ticket requests.
//   reset
//   new S | copy S D | drop S | min S V | max S V | addr S HEX | suite S N | local S ID | target S ID
//   ident A B | conv ID | convver V | convsuite V
//   setenv HEX|-|unset  (- is the empty string)
//   build K | get K ID|default | drop K | kill K
//   ctx APP VER SU PID LID PFP LFP RSM
//   deser ORD CUT UNK BADID APP VER SU PID LID PFP LFP RSM
//   raw HEX               bytes given to the context parser
//   ticket CID ID T,T,... (T: p:ID:N) | ticket CID ID none | ticket CID ID null
#include "wire.h"
#include <set>
#include "absl/hash/hash.h"
#include "access_token_manager_factory.h"
#include "s2a_context.h"
#include "s2a_options.h"
#include "src/handshaker/s2a_util.h"
#include "src/proto/upb-generated/proto/s2a.upb.h"
#include "src/record_protocol/s2a_ticket_sender.h"
#include "upb/upb.hpp"
using s2a::s2a_options::S2AOptions;
typedef S2AOptions::Identity Id;
typedef S2AOptions::TlsVersion Ver;
typedef S2AOptions::Ciphersuite Suite;
static std::string Kind(const Id& i) {
  switch (i.GetIdentityType()) {
    case S2AOptions::IdentityType::NONE: return "n";
    case S2AOptions::IdentityType::SPIFFE_ID: return "s";
    case S2AOptions::IdentityType::HOSTNAME: return "h";
    case S2AOptions::IdentityType::UID: return "u";
    default: return "?";
  }
}
static std::string IdStr(const Id& i) { return Kind(i) + ":" + Hex(i.GetIdentityString()); }
static Id MkId(const std::string& s) {
  std::string x = s.size() > 2 ? UnhexS(s.substr(2)) : "";
  if (s[0] == 's') return Id::FromSpiffeId(x);
  if (s[0] == 'h') return Id::FromHostname(x);
  if (s[0] == 'u') return Id::FromUid(x);
  return Id::GetEmptyIdentity();
}
static Ver MkVer(const std::string& s) { int v = atoi(s.c_str()); return v == 0 ? Ver::TLS1_2 : v == 1 ? Ver::TLS1_3 : static_cast<Ver>(v); }
static int VerNum(Ver v) { return v == Ver::TLS1_2 ? 0 : v == Ver::TLS1_3 ? 1 : (int)v; }
static Suite MkSuite(const std::string& s) {
  int v = atoi(s.c_str());
  return v == 0 ? Suite::AES_128_GCM_SHA256 : v == 1 ? Suite::AES_256_GCM_SHA384 : v == 2 ? Suite::CHACHA20_POLY1305_SHA256 : static_cast<Suite>(v);
}
static int SuiteNum(Suite s) {
  return s == Suite::AES_128_GCM_SHA256 ? 0 : s == Suite::AES_256_GCM_SHA384 ? 1 : s == Suite::CHACHA20_POLY1305_SHA256 ? 2 : (int)s;
}
static std::string List(std::vector<std::string> v) {
  std::string o = "[";
  for (auto& x : v) { if (o.size() > 1) o += ','; o += Json::quote(x); }
  return o + "]";
}
static std::string Opts(const S2AOptions& o) {
  Json j;
  std::vector<std::string> l, t;
  for (auto& x : o.local_identities()) l.push_back(IdStr(x));
  for (auto& x : o.target_identities()) t.push_back(IdStr(x));
  std::string s = "[";
  for (auto x : o.supported_ciphersuites()) { if (s.size() > 1) s += ','; s += std::to_string(SuiteNum(x)); }
  j.num("min", VerNum(o.min_tls_version())).num("max", VerNum(o.max_tls_version())).str("addr", Hex(o.s2a_address())).raw("suites", s + "]").raw("locals", List(l)).raw("targets", List(t));
  return j.done();
}
static void Ctx(Json* j, const char* pre, const s2a::s2a_context::S2AContext& c) {
  Json k;
  k.str("app", Hex(c.ApplicationProtocol())).num("ver", VerNum(c.TlsVersion())).num("su", SuiteNum(c.Ciphersuite())).str("pid", IdStr(c.PeerIdentity())).str("lid", IdStr(c.LocalIdentity()))
      .str("pfp", Hex(c.PeerCertFingerprint())).str("lfp", Hex(c.LocalCertFingerprint())).boolean("rsm", c.IsHandshakeResumed());
  j->raw(pre, k.done());
}
static Bytes Pat(const std::string& t) {
  unsigned long long id = 0, n = 0;
  sscanf(t.c_str(), "p:%llu:%llu", &id, &n);
  return Pattern(id, n);
}
int main(int argc, char** argv) {
  Driver d(argc, argv);
  Toks t;
  std::map<int, std::unique_ptr<S2AOptions>> o;
  std::map<int, std::unique_ptr<s2a::token_manager::AccessTokenManagerInterface>> m;
  static const char* kVar = "S2A_ACCESS_TOKEN";
  while (d.next(&t)) {
    Json j;
    std::string op = t[0];
    auto I = [&](size_t i) { return atoi(t[i].c_str()); };
    bool opts = false;
    j.str("op", op);
    if (op == "reset") {
      o.clear(); m.clear(); unsetenv(kVar);
    } else if (op == "new") { o[I(1)] = std::make_unique<S2AOptions>(); j.num("s", I(1)); opts = true; }
    else if (op == "copy") { if (o[I(1)]) { auto x = o[I(1)]->Copy(); o[I(2)] = std::move(x); } j.num("s", I(1)).num("d", I(2)); opts = true; }
    else if (op == "drop") { o.erase(I(1)); j.num("s", I(1)); opts = true; }
    else if (op == "min") { o[I(1)]->set_min_tls_version(MkVer(t[2])); j.num("s", I(1)).num("v", I(2)); opts = true; }
    else if (op == "max") { o[I(1)]->set_max_tls_version(MkVer(t[2])); j.num("s", I(1)).num("v", I(2)); opts = true; }
    else if (op == "addr") { o[I(1)]->set_s2a_address(UnhexS(t[2])); j.num("s", I(1)).str("v", Hex(UnhexS(t[2]))); opts = true; }
    else if (op == "suite") { o[I(1)]->add_supported_ciphersuite(MkSuite(t[2])); j.num("s", I(1)).num("v", I(2)); opts = true; }
    else if (op == "local" || op == "target") {
      std::string x = t[2].size() > 2 ? UnhexS(t[2].substr(2)) : "";
      auto& q = *o[I(1)];
      if (op == "local") { if (t[2][0] == 's') q.add_local_spiffe_id(x); else if (t[2][0] == 'h') q.add_local_hostname(x); else q.add_local_uid(x); }
      else { if (t[2][0] == 's') q.add_target_spiffe_id(x); else if (t[2][0] == 'h') q.add_target_hostname(x); else q.add_target_uid(x); }
      j.num("s", I(1)).str("v", t[2]); opts = true;
    } else if (op == "ident") {
      Id a = MkId(t[1]), b = MkId(t[2]);
      Id c(a);
      Id e = Id::FromUid("other");
      e = a;
      { Id tmp = MkId(t[1]); c = tmp; }
      absl::flat_hash_set<Id> set;
      set.insert(a);
      j.str("a", t[1]).str("b", t[2]).str("ra", IdStr(a)).str("rb", IdStr(b)).boolean("eq", a == b).boolean("qe", b == a).boolean("hash", absl::Hash<Id>()(a) == absl::Hash<Id>()(b))
          .boolean("in", set.contains(b)).str("copy", IdStr(c)).str("assigned", IdStr(e)).boolean("copyeq", a == c && c == a && e == a && a == a)
          .str("cstr", Kind(a) + ":" + Hex(std::string(a.GetIdentityCString(), a.GetIdentityString().size()))).boolean("term", a.GetIdentityCString()[a.GetIdentityString().size()] == 0);
    } else if (op == "conv") {
      upb::Arena arena;
      const Id cid = MkId(t[1]);
      auto r = s2a::s2a_util::ConvertIdentityToProto(arena.ptr(), cid);
      bool ok = r.index() == 1;
      auto n = s2a::s2a_util::ConvertIdentityToProto(nullptr, cid);
      std::string wirehas = "-";
      if (ok && absl::get<1>(r)) {
        const s2a_proto_Identity* p = absl::get<1>(r);
        wirehas = s2a_proto_Identity_has_spiffe_id(p) ? "s" : s2a_proto_Identity_has_hostname(p) ? "h" : s2a_proto_Identity_has_uid(p) ? "u" : "n";
      } else if (ok) wirehas = "n";
      j.str("a", t[1]).boolean("ok", ok).str("has", wirehas).str("r", ok ? IdStr(s2a::s2a_util::ConvertFromProtoToIdentity(absl::get<1>(r))) : "?").boolean("nullok", n.index() == 1)
          .str("none", IdStr(s2a::s2a_util::ConvertFromProtoToIdentity(nullptr)));
    } else if (op == "convver") {
      auto r = s2a::s2a_util::ConvertTlsVersionToProto(MkVer(t[1]));
      auto q = s2a::s2a_util::ConvertFromProtoToTlsVersion(static_cast<s2a_proto_TLSVersion>(I(1)));
      j.num("v", I(1)).boolean("ok", r.index() == 1).num("r", r.index() == 1 ? (int)absl::get<1>(r) : -1).boolean("ok2", q.index() == 1).num("r2", q.index() == 1 ? VerNum(absl::get<1>(q)) : -1);
    } else if (op == "convsuite") {
      auto r = s2a::s2a_util::ConvertCiphersuiteToProto(MkSuite(t[1]));
      auto q = s2a::s2a_util::ConvertFromProtoToCiphersuite(static_cast<s2a_proto_Ciphersuite>(I(1)));
      j.num("v", I(1)).boolean("ok", r.index() == 1).num("r", r.index() == 1 ? (int)absl::get<1>(r) : -1).boolean("ok2", q.index() == 1).num("r2", q.index() == 1 ? SuiteNum(absl::get<1>(q)) : -1);
    } else if (op == "setenv") {
      if (t[1] == "unset") unsetenv(kVar); else { setenv(kVar, UnhexS(t[1]).c_str(), 1); if (UnhexS(t[1]) != kVar) told::Secret("token", UnhexS(t[1])); }
      j.str("v", t[1] == "unset" ? "unset" : "=" + Hex(UnhexS(t[1])));
    } else if (op == "build") {
      auto r = s2a::token_manager::BuildAccessTokenManager();
      told::Say(std::string(r.status().message()));
      bool ok = r.ok() && *r != nullptr;
      if (ok) m[I(1)] = std::move(*r);
      j.num("s", I(1)).boolean("ok", ok);
    } else if (op == "kill") { m.erase(I(1)); j.num("s", I(1)); }
    else if (op == "get") {
      auto& x = m[I(1)];
      j.num("s", I(1)).str("id", t[2]);
      if (!x) j.str("r", "?").boolean("nf", false);
      else {
        auto r = t[2] == "default" ? x->GetDefaultToken() : x->GetToken(MkId(t[2]));
        told::Say(std::string(r.status().message()) + " " + x->DebugName());
        j.str("r", r.ok() ? "=" + Hex(*r) : "unset").boolean("nf", r.status().code() == absl::StatusCode::kNotFound);
      }
    } else if (op == "ctx") {
      s2a::s2a_context::S2AContext c(UnhexS(t[1]), MkVer(t[2]), MkSuite(t[3]), MkId(t[4]), MkId(t[5]), UnhexS(t[6]), UnhexS(t[7]), t[8] == "1");
      Ctx(&j, "c", c);
      Json w;
      w.str("app", Hex(UnhexS(t[1]))).num("ver", I(2)).num("su", I(3)).str("pid", t[4]).str("lid", t[5]).str("pfp", Hex(UnhexS(t[6]))).str("lfp", Hex(UnhexS(t[7]))).boolean("rsm", t[8] == "1");
      j.raw("want", w.done());
      auto s = c.GetSerializedContext();
      bool ok = s.index() == 1 && absl::get<1>(s) != nullptr;
      bool wf = true, dok = false;
      Json k;
      std::string app, pfp, lfp, pid = "n:", lid = "n:";
      uint64_t ver = 0, su = 0, rsm = 0;
      if (ok) {
        Bytes b(absl::get<1>(s)->begin(), absl::get<1>(s)->end());
        std::vector<wire::Field> fs;
        wf = wire::Parse(std::string(b.begin(), b.end()), &fs);
        std::set<uint32_t> nums;
        for (auto& f : fs) {
          if (!nums.insert(f.num).second) wf = false;
          if (f.num == 1 && f.wt == 2) app = f.b;
          else if (f.num == 2 && f.wt == 0) ver = f.v;
          else if (f.num == 3 && f.wt == 0) su = f.v;
          else if (f.num == 4 && f.wt == 2) pid = wire::IdOf(f.b, &wf);
          else if (f.num == 5 && f.wt == 2) lid = wire::IdOf(f.b, &wf);
          else if (f.num == 6 && f.wt == 2) pfp = f.b;
          else if (f.num == 7 && f.wt == 2) lfp = f.b;
          else if (f.num == 8 && f.wt == 0) rsm = f.v;
          else wf = false;
        }
        Exact e(b);
        auto r = s2a::s2a_context::GetS2AContextFromSerializedContext((const char*)e.p.get(), e.n);
        dok = r.ok() && *r != nullptr;
        memset(e.p.get(), 0xEE, e.n);
        if (dok) Ctx(&j, "d", **r);
      }
      k.str("app", Hex(app)).num("ver", ver > 99 ? 99 : ver).num("su", su > 99 ? 99 : su).str("pid", pid).str("lid", lid).str("pfp", Hex(pfp)).str("lfp", Hex(lfp)).boolean("rsm", rsm != 0);
      j.boolean("ok", ok).boolean("wf", wf).boolean("dok", dok).raw("w", k.done());
    } else if (op == "deser") {
      // ORD CUT UNK BADID APP VER SU PID LID PFP LFP RSM
      std::vector<std::pair<std::string, std::string>> parts;
      std::string x;
      auto fin = [&](const char* n) { if (!x.empty()) parts.push_back({n, x}); x.clear(); };
      wire::PutBytes(&x, 1, UnhexS(t[5])); fin("app");
      wire::PutInt(&x, 2, (uint32_t)I(6)); fin("ver");
      wire::PutInt(&x, 3, (uint32_t)I(7)); fin("su");
      if (t[8] != "-") { std::string b = wire::IdMsg(t[8]); if (t[4] == "1") b = "\x0a\x05x"; wire::PutBytes(&x, 4, b, true); fin("pid"); }
      if (t[9] != "-") { wire::PutBytes(&x, 5, wire::IdMsg(t[9]), true); fin("lid"); }
      wire::PutBytes(&x, 6, UnhexS(t[10])); fin("pfp");
      wire::PutBytes(&x, 7, UnhexS(t[11])); fin("lfp");
      wire::PutInt(&x, 8, t[12] == "1"); fin("rsm");
      if (t[3] == "1") { wire::PutBytes(&x, 99, "unknown"); fin("unk"); }
      if (I(1)) { Rng r(I(1)); for (size_t i = parts.size(); i > 1; i--) std::swap(parts[i - 1], parts[r.below(i)]); }
      std::string msg;
      for (auto& p : parts) msg += p.second;
      msg.resize(msg.size() - std::min<size_t>(msg.size(), I(2)));
      std::set<std::string> has;
      bool bad = false;
      size_t at = 0;
      for (auto& p : parts) {
        if (at + p.second.size() <= msg.size()) has.insert(p.first);
        else if (at < msg.size()) bad = true;
        at += p.second.size();
      }
      if (has.count("pid") && t[4] == "1") bad = true;
      Exact e(Bytes(msg.begin(), msg.end()));
      auto r = s2a::s2a_context::GetS2AContextFromSerializedContext((const char*)e.p.get(), e.n);
      bool ok = r.ok() && *r != nullptr;
      memset(e.p.get(), 0xEE, e.n);
      auto H = [&](const char* n) { return has.count(n) > 0; };
      Json w;
      w.str("app", H("app") ? Hex(UnhexS(t[5])) : "").num("ver", H("ver") ? I(6) : 0).num("su", H("su") ? I(7) : 0).str("pid", H("pid") ? t[8] : "n:").str("lid", H("lid") ? t[9] : "n:")
          .str("pfp", H("pfp") ? Hex(UnhexS(t[10])) : "").str("lfp", H("lfp") ? Hex(UnhexS(t[11])) : "").boolean("rsm", H("rsm") && t[12] == "1");
      j.boolean("bad", bad).raw("want", w.done()).boolean("ok", ok);
      if (ok) Ctx(&j, "d", **r);
    } else if (op == "raw") {
      Bytes b = Unhex(t[1]);
      Exact e(b);
      std::vector<wire::Field> fs;
      wire::Odd() = false;
      bool wf = wire::Parse(std::string(b.begin(), b.end()), &fs) || wire::Odd();
      auto r = s2a::s2a_context::GetS2AContextFromSerializedContext((const char*)e.p.get(), e.n);
      j.boolean("wf", wf).boolean("ok", r.ok());
    } else if (op == "ticket") {
      uint64_t cid = strtoull(t[1].c_str(), nullptr, 10);
      std::unique_ptr<std::vector<std::unique_ptr<std::string>>> tk;
      std::vector<std::string> in, out;
      if (t[3] != "null") {
        tk = std::make_unique<std::vector<std::unique_ptr<std::string>>>();
        if (t[3] != "none") {
          std::stringstream ss(t[3]);
          std::string w;
          while (std::getline(ss, w, ',')) { Bytes b = Pat(w); in.push_back(Dig(b)); tk->push_back(std::make_unique<std::string>(b.begin(), b.end())); }
        }
      }
      const Id tid = MkId(t[2]);
      upb::Arena arena;
      s2a_proto_SessionReq* req = s2a_proto_SessionReq_new(arena.ptr());
      bool ok = s2a::s2a_ticket_sender::PrepareResumptionTicketReq(cid, tid, tk, arena.ptr(), req);
      bool wf = true, kept = true;
      if (tk) { size_t i = 0; if (tk->size() != in.size()) kept = false; else for (auto& x : *tk) if (!x || Dig(*x) != in[i++]) kept = false; }
      std::string id = "n:", kinds;
      uint64_t rc = 0;
      size_t len = 0;
      if (ok) {
        char* s = s2a_proto_SessionReq_serialize(req, arena.ptr(), &len);
        std::vector<wire::Field> fs, g;
        wf = s && wire::Parse(std::string(s, len), &fs);
        for (auto& f : fs) {
          kinds += std::to_string(f.num) + ".";
          if (f.num != 4 || f.wt != 2) { wf = false; continue; }
          wf = wf && wire::Parse(f.b, &g);
          for (auto& x : g) {
            if (x.num == 1 && x.wt == 2) out.push_back(Dig(x.b));
            else if (x.num == 2 && x.wt == 0) rc = x.v;
            else if (x.num == 3 && x.wt == 2) id = wire::IdOf(x.b, &wf);
            else wf = false;
          }
        }
      }
      j.boolean("null", t[3] == "null").str("cid", std::to_string(cid)).str("id", t[2]).raw("tk", List(in)).boolean("ok", ok).boolean("wf", wf).boolean("kept", kept).str("kinds", kinds).str("rcid", std::to_string(rc)).str("rid", id).raw("rtk", List(out));
    } else j.boolean("unknown", true);
    if (opts) {
      std::string s = "[";
      for (auto& x : o) if (x.second) { if (s.size() > 1) s += ','; Json q; q.num("s", x.first).raw("o", Opts(*x.second)); s += q.done(); }
      j.raw("all", s + "]");
    }
    d.emit(j);
  }
}
