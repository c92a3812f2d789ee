// Several threads on one or several objects. Script:
//   reset crypter|fp SUITE INSEQ OUTSEQ SECRETID
//   reset proxy ROLE NLOCALS TM
//   reset tok VALUEHEX|unset
//   add ... (as reset)     one more object; its operations are written K@OPERATION, K = 1, 2, ..
//   par MODE PLAN SEED THREAD THREAD...    THREAD: operations joined by ';'
// Operations
//   crypter: a:N Protect application data, h:N handshake, k UpdateOutboundKey,
//            U:REC Unprotect
//   fp:      P:N Protect, p:N into one buffer, U:REC+REC.. Unprotect, u:REC one buffer
//   proxy:   s:N GetBytesForS2A (N = 0: no bytes), r:f:N response with N bytes of frames,
//            r:r:N response with a result, r:e bad response, f IsHandshakeFinished
//   tok:     g token for an identity, d default token, b build another manager and ask it
// REC: app.N  ku.1  tk.N (a complete ticket)  bad.N (does not authenticate)
#include "ref.h"
#include "vp_sched.h"
#include "wire.h"
#include "access_token_manager_factory.h"
#include "s2a_frame_protector.h"
#include "s2a_proxy.h"
#include "src/record_protocol/s2a_crypter.h"
using s2a::aead_crypter::Iovec;
using s2a::frame_protector::S2AFrameProtector;
using s2a::record_protocol::S2ACrypter;
using s2a::s2a_options::S2AOptions;
using s2a::s2a_proxy::S2AProxy;
typedef S2AOptions::Identity Id;
static std::vector<std::string> Split(const std::string& s, char c) {
  std::vector<std::string> o;
  std::stringstream ss(s);
  std::string w;
  while (std::getline(ss, w, c)) o.push_back(w);
  return o;
}
// hand-overs of tickets: tickets in each, by connection
static std::map<uint64_t, std::vector<std::vector<std::string>>> g_handed;
static std::atomic_flag g_handed_mu = ATOMIC_FLAG_INIT;   // no scheduling point
static s2a::s2a_ticket_sender::WaitOnTicketSender Sender(s2a::s2a_ticket_sender::TicketSenderOptions& o) {
  sched::Point();
  std::vector<std::string> v;
  if (o.tickets) for (auto& t : *o.tickets) v.push_back(Dig(*t));
  while (g_handed_mu.test_and_set(std::memory_order_acquire)) {}
  g_handed[o.connection_id].push_back(v);
  g_handed_mu.clear(std::memory_order_release);
  return nullptr;
}
extern "C" s2a::s2a_ticket_sender::WaitOnTicketSender
__wrap__ZN3s2a17s2a_ticket_sender16SendTicketsToS2AERNS0_19TicketSenderOptionsE(s2a::s2a_ticket_sender::TicketSenderOptions& o) { return Sender(o); }
struct Manager : s2a::token_manager::AccessTokenManagerInterface {
  absl::StatusOr<std::string> GetDefaultToken() override { sched::Point(); return std::string("default"); }
  absl::StatusOr<std::string> GetToken(const Id& i) override { sched::Point(); return "t~" + i.GetIdentityString(); }
  std::string DebugName() const override { return "m"; }
};
static void Log(const std::string&) { sched::Point(); }
struct Op {
  int t, i, c = 0;
  std::string kind, arg;
  // prepared
  Bytes in;
  std::vector<Bytes> recs;
  std::vector<std::string> kinds, tickets;
  Bytes want;
  // result
  bool ok = false;
  std::string code;
  Bytes out;
  size_t w = 0;
  sched::Timed tm{0, 0};
};
static std::string StrList(const std::vector<std::string>& v) {
  std::string o = "[";
  for (auto& x : v) { if (o.size() > 1) o += ','; o += Json::quote(x); }
  return o + "]";
}
struct Obj {
  std::unique_ptr<S2ACrypter> c;
  std::unique_ptr<S2AFrameProtector> f;
  std::unique_ptr<S2AProxy> p;
  std::unique_ptr<s2a::token_manager::AccessTokenManagerInterface> m;
  ref::Direction in, out;
  size_t pe = 0, epochs = 0;
  uint64_t ps = 0, ostart = 0, nsent = 0;
};
int main(int argc, char** argv) {
  Driver d(argc, argv);
  fault::g_point = &sched::Point;
  std::vector<std::unique_ptr<Obj>> objs;
  int serial = 0;
  Toks t;
  while (d.next(&t)) {
    Json j;
    j.str("op", t[0]);
    if (t[0] == "reset" || t[0] == "add") {
      if (t[0] == "reset") { objs.clear(); g_handed.clear(); }
      objs.push_back(std::make_unique<Obj>());
      Obj& b = *objs.back();
      auto &c = b.c; auto &f = b.f; auto &p = b.p; auto &m = b.m;
      uint64_t cid = 5 + objs.size() - 1;
      std::string kind = t[1];
      j.str("kind", kind);
      bool ok = false;
      if (kind == "crypter" || kind == "fp") {
        int suite = atoi(t[2].c_str());
        uint64_t is = strtoull(t[3].c_str(), 0, 10), os = strtoull(t[4].c_str(), 0, 10), sid = strtoull(t[5].c_str(), 0, 10);
        S2AOptions::Ciphersuite cs = suite == 0 ? S2AOptions::Ciphersuite::AES_128_GCM_SHA256 : suite == 1 ? S2AOptions::Ciphersuite::AES_256_GCM_SHA384 : S2AOptions::Ciphersuite::CHACHA20_POLY1305_SHA256;
        size_t hl = suite == 1 ? 48 : 32;
        Bytes isec = Pattern(sid * 2 + 1, hl), osec = Pattern(sid * 2 + 2, hl);
        if (kind == "crypter") {
          auto r = S2ACrypter::Create(S2AOptions::TlsVersion::TLS1_3, cs, cid, "u:1", Id::FromUid("1"), isec, osec, is, os, &Sender, nullptr, nullptr, &Log);
          if (r.index() == 1) c = std::move(absl::get<1>(r));
          ok = c != nullptr;
        } else {
          S2AFrameProtector::S2AFrameProtectorOptions o = {S2AOptions::TlsVersion::TLS1_3, cs, isec, osec, is, os, "u:1", Id::FromUid("1"), cid, nullptr, nullptr,
              [](size_t n) { sched::Point(); return Iovec{new uint8_t[n], n}; }, [](Iovec v) { sched::Point(); delete[] (uint8_t*)v.iov_base; }, &Log};
          auto r = S2AFrameProtector::Create(o);
          if (r.ok()) f = std::move(*r);
          ok = f != nullptr;
        }
        b.in.Init(suite, isec); b.out.Init(suite, osec);
        b.ps = is; b.ostart = os;
        uint64_t left = 0 - os;   // numbers left; 0 means 2^64
        j.num("left", (os == 0 || left > 1000000) ? 1000000 : (long long)left);
      } else if (kind == "proxy") {
        bool client = t[2] == "c";
        auto o = std::make_unique<S2AOptions>();
        o->set_s2a_address("u:1");
        o->add_supported_ciphersuite(S2AOptions::Ciphersuite::AES_128_GCM_SHA256);
        int n = atoi(t[3].c_str());
        for (int i = 0; i < n; i++) o->add_local_hostname("id" + std::to_string(i));
        S2AProxy::S2AProxyOptions po = {&Log, client, "grpc", "", std::move(o), nullptr, nullptr, nullptr};
        if (t[4] == "1") po.token_manager = absl::make_unique<Manager>();
        p = S2AProxy::Create(po);
        ok = p != nullptr;
        j.boolean("client", client).num("ntok", t[4] == "1" ? (n ? n : 1) : 0);
      } else {
        if (t[2] == "unset") unsetenv("S2A_ACCESS_TOKEN"); else setenv("S2A_ACCESS_TOKEN", UnhexS(t[2]).c_str(), 1);
        auto r = s2a::token_manager::BuildAccessTokenManager();
        if (r.ok()) m = std::move(*r);
        ok = m != nullptr;
        j.str("v", t[2] == "unset" ? "unset" : "=" + Hex(UnhexS(t[2])));
      }
      j.boolean("ok", ok);
      d.emit(j);
      continue;
    }
    // par
    std::vector<std::vector<Op>> ops;
    for (size_t th = 4; th < t.size(); th++) {
      ops.push_back({});
      for (std::string w : Split(t[th], ';')) {
        Op o;
        if (w.find('@') != std::string::npos) { o.c = atoi(w.c_str()); w = w.substr(w.find('@') + 1); }
        Obj& b = *objs.at(o.c);
        o.t = th - 4; o.i = ops.back().size();
        auto q = Split(w, ':');
        o.kind = q[0];
        if (q.size() > 1) o.arg = q[1];
        size_t n = q.size() > 1 ? strtoul(q.back().c_str(), 0, 10) : 0;
        if (o.kind == "a" || o.kind == "h" || o.kind == "P" || o.kind == "p") {
          o.in = Pattern(++serial * 7919, n);
          for (auto& x : o.in) if (x == 0) x = 1;
        } else if (o.kind == "U" || o.kind == "u") {
          for (auto& r : Split(o.arg, '+')) {
            auto z = Split(r, '.');
            size_t k = z.size() > 1 ? strtoul(z[1].c_str(), 0, 10) : 0;
            Bytes content = Pattern(++serial * 104729, k);
            int type = 22;
            if (z[0] == "app" || z[0] == "bad") { type = 23; if (z[0] == "app") o.want.insert(o.want.end(), content.begin(), content.end()); }
            else if (z[0] == "ku") content = {24, 0, 0, 1, 0};
            else {
              Bytes h = {4, (uint8_t)(k >> 16), (uint8_t)(k >> 8), (uint8_t)k};
              content.insert(content.begin(), h.begin(), h.end());
              o.tickets.push_back(Dig(content));
            }
            o.kinds.push_back(z[0]);
            Bytes rec = b.in.Record(b.pe, b.ps++, content, type, 0);
            if (z[0] == "ku") { b.pe++; b.ps = 0; }
            if (z[0] == "bad") rec[6] ^= 1;
            o.recs.push_back(rec);
          }
        } else if (o.kind == "s") {
          o.in = Pattern(++serial * 31337, n);
        } else if (o.kind == "r") {
          // a response of the S2A
          std::string msg, st, res, state;
          o.want = Pattern(++serial * 271, o.arg == "f" || o.arg == "r" ? n : 3);
          wire::PutBytes(&msg, 2, std::string(o.want.begin(), o.want.end()));
          if (o.arg == "r") {
            wire::PutInt(&state, 1, 1);
            wire::PutBytes(&state, 5, std::string(32, 'k'));
            wire::PutBytes(&state, 6, std::string(32, 'K'));
            wire::PutBytes(&res, 2, state, true);
            wire::PutBytes(&res, 5, wire::IdMsg("h:" + Hex(std::string("id0"))), true);
            wire::PutBytes(&msg, 4, res, true);
          }
          if (o.arg == "e") wire::PutInt(&st, 1, 3);
          wire::PutBytes(&msg, 5, st, true);
          o.in = Bytes(msg.begin(), msg.end());
        }
        ops.back().push_back(o);
      }
    }
    std::vector<std::function<void()>> bodies;
    for (auto& v : ops) {
      bodies.push_back([&]() {
        for (auto& o : v) {
          Obj& b = *objs[o.c];
          auto &c = b.c; auto &f = b.f; auto &p = b.p; auto &m = b.m;
          sched::Point();
          if (c) {
            if (o.kind == "k") {
              o.tm.inv = sched::Stamp();
              o.ok = c->UpdateOutboundKey().ok();
              o.tm.res = sched::Stamp();
            } else if (o.kind == "U") {
              for (auto& r : o.recs) {
                std::vector<uint8_t> buf(r.size());
                o.tm.inv = o.tm.inv ? o.tm.inv : sched::Stamp();
                auto s = c->Unprotect({r.data(), 5}, {{r.data() + 5, r.size() - 5}}, {buf.data(), buf.size()});
                o.tm.res = sched::Stamp();
                o.ok = s.GetCode() == S2ACrypter::S2ACrypterStatusCode::OK;
                if (!o.ok) break;
                o.out.insert(o.out.end(), buf.begin(), buf.begin() + std::min(buf.size(), s.GetBytesWritten()));
              }
            } else {
              o.out.resize(o.in.size() + 22);
              o.tm.inv = sched::Stamp();
              auto s = c->Protect(o.kind == "a" ? S2ACrypter::RecordType::APPLICATION_DATA : S2ACrypter::RecordType::HANDSHAKE, {{o.in.data(), o.in.size()}}, {o.out.data(), o.out.size()});
              o.tm.res = sched::Stamp();
              o.ok = s.GetCode() == S2ACrypter::S2ACrypterStatusCode::OK && s.GetBytesWritten() == o.out.size();
            }
          } else if (f) {
            if (o.kind == "P") {
              o.tm.inv = sched::Stamp();
              auto r = f->Protect(std::vector<Iovec>{{o.in.data(), o.in.size()}});
              o.tm.res = sched::Stamp();
              o.ok = r.status.ok();
              for (auto& x : r.bytes) { o.out.insert(o.out.end(), (uint8_t*)x.iov_base, (uint8_t*)x.iov_base + x.iov_len); delete[] (uint8_t*)x.iov_base; }
            } else if (o.kind == "p") {
              o.out.resize(f->NumberBytesToProtect(o.in.size()));
              Iovec v = {o.out.data(), o.out.size()};
              o.tm.inv = sched::Stamp();
              o.ok = f->Protect({{o.in.data(), o.in.size()}}, v).ok();
              o.tm.res = sched::Stamp();
              if (o.ok) o.out.resize(std::min(o.out.size(), v.iov_len));
            } else {
              Bytes all;
              for (auto& r : o.recs) all.insert(all.end(), r.begin(), r.end());
              if (o.kind == "U") {
                o.tm.inv = sched::Stamp();
                auto r = f->Unprotect(std::vector<Iovec>{{all.data(), all.size()}});
                o.tm.res = sched::Stamp();
                o.ok = r.status.ok();
                for (auto& x : r.bytes) { o.out.insert(o.out.end(), (uint8_t*)x.iov_base, (uint8_t*)x.iov_base + x.iov_len); delete[] (uint8_t*)x.iov_base; }
              } else {
                o.out.resize(all.size());
                Iovec v = {o.out.data(), o.out.size()};
                o.tm.inv = sched::Stamp();
                o.ok = f->Unprotect({{all.data(), all.size()}}, v).ok();
                o.tm.res = sched::Stamp();
                o.out.resize(o.ok ? std::min(o.out.size(), v.iov_len) : 0);
              }
            }
          } else if (p) {
            if (o.kind == "f") {
              o.tm.inv = sched::Stamp();
              o.ok = p->IsHandshakeFinished();
              o.tm.res = sched::Stamp();
            } else {
              std::unique_ptr<std::vector<char>> b;
              if (!o.in.empty()) b = absl::make_unique<std::vector<char>>(o.in.begin(), o.in.end());
              o.tm.inv = sched::Stamp();
              auto r = o.kind == "s" ? p->GetBytesForS2A(std::move(b)) : p->GetBytesForPeer(std::move(b));
              o.tm.res = sched::Stamp();
              o.ok = r.status.ok();
              if (r.buffer) o.out = Bytes(r.buffer->begin(), r.buffer->end());
            }
          } else if (m) {
            o.tm.inv = sched::Stamp();
            absl::StatusOr<std::string> r = std::string();
            if (o.kind == "g") r = m->GetToken(Id::FromHostname("x"));
            else if (o.kind == "d") r = m->GetDefaultToken();
            else { auto n = s2a::token_manager::BuildAccessTokenManager(); r = n.ok() && *n ? (*n)->GetDefaultToken() : absl::StatusOr<std::string>(n.status()); }
            o.tm.res = sched::Stamp();
            o.ok = r.ok();
            o.code = r.ok() ? "=" + Hex(*r) : "unset";
          }
        }
      });
    }
    sched::Run(t[1], t[2], strtoull(t[3].c_str(), 0, 10), bodies);
    // what came of it
    for (auto& b : objs) b->nsent += 2;
    for (auto& v : ops) for (auto& o : v) { if (o.kind == "k" && o.ok) objs[o.c]->epochs++; objs[o.c]->nsent += 1 + o.in.size() / 16384; }
    std::string oj = "[";
    for (auto& v : ops) for (auto& o : v) {
      Json q;
      Obj& b = *objs[o.c];
      auto &c = b.c; auto &f = b.f; auto &p = b.p; auto &out = b.out;
      q.num("c", o.c + 1).num("t", o.t).num("i", o.i).str("k", o.kind).num("inv", o.tm.inv).num("res", o.tm.res).boolean("ok", o.ok);
      if (c || f) {
        std::string rj = "[";
        Bytes all;
        bool left = false;
        size_t need = 0;
        if (o.kind == "a" || o.kind == "h" || o.kind == "P" || o.kind == "p") {
          need = o.in.empty() ? 1 : (o.in.size() + 16383) / 16384;
          size_t at = 0;
          while (o.ok && at + 22 <= o.out.size()) {
            size_t n = 5 + ((o.out[at + 3] << 8) | o.out[at + 4]);
            if (at + n > o.out.size()) break;
            Bytes rec(o.out.begin() + at, o.out.begin() + at + n), inner;
            bool found = false;
            for (size_t e = 0; e <= b.epochs && !found; e++)
              for (uint64_t x = 0; x < b.nsent && !found; x++)
                if (out.OpenRecord(e, (e ? 0 : b.ostart) + x, rec, &inner)) {
                  found = true;
                  if (rj.size() > 1) rj += ',';
                  rj += "[" + std::to_string(e) + "," + std::to_string(x) + "]";
                }
            if (!found) { left = true; break; }
            int type = o.kind == "h" ? 22 : 23;
            if (inner.empty() || inner.back() != type) left = true;
            else all.insert(all.end(), inner.begin(), inner.end() - 1);
            at += n;
          }
          if (o.ok && at != o.out.size()) left = true;
          q.boolean("same", all == o.in);
        } else {
          q.boolean("same", o.out == o.want).boolean("empty", o.out.empty());
        }
        q.num("need", need).raw("recs", rj + "]").boolean("left", left).raw("kinds", StrList(o.kinds)).raw("tk", StrList(o.tickets));
      } else if (p) {
        std::string what;
        size_t ntok = 0;
        bool same = o.kind != "r" || !o.ok || o.out == o.want;
        if (o.kind == "s" && o.ok) {
          std::vector<wire::Field> fs, g;
          if (!wire::Parse(std::string(o.out.begin(), o.out.end()), &fs)) what = "malformed";
          Bytes inb;
          for (auto& x : fs) {
            g.clear();
            if (x.num == 5) { ntok++; continue; }
            what += x.num == 1 ? "client" : x.num == 2 ? "server" : x.num == 3 ? "next" : "other";
            wire::Parse(x.b, &g);
            for (auto& y : g) if ((x.num == 2 && y.num == 6) || (x.num == 3 && y.num == 1)) inb = Bytes(y.b.begin(), y.b.end());
          }
          same = inb == o.in;
        }
        q.str("what", what).num("ntok", ntok).boolean("same", same).num("n", o.in.size()).str("arg", o.arg);
      } else q.str("v", o.code);
      if (oj.size() > 1) oj += ',';
      oj += q.done();
    }
    std::string hj = "[";
    bool stray = false;
    for (size_t k = 0; k < objs.size(); k++) {
      if (k) hj += ',';
      hj += '[';
      bool first = true;
      for (auto& x : g_handed[5 + k]) { if (!first) hj += ','; first = false; hj += StrList(x); }
      hj += ']';
    }
    // (a hand-over under another connection's number)
    for (auto& x : g_handed) if (x.first < 5 || x.first >= 5 + objs.size()) stray = true;
    g_handed.clear();
    j.str("mode", t[1]).raw("ops", oj + "]").raw("handed", hj + "]").boolean("stray", stray).num("points", sched::g_points.load());
    d.emit(j);
  }
}
