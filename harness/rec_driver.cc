// Drives S2ACrypter against an independent TLS 1.3 record layer peer. Script:
//   reset SUITE VERSION INLEN OUTLEN INSEQ OUTSEQ CONNID URLHEX IDKIND IDHEX FLAGS SECRETID FAULT
//       SUITE 0..2 (other: cast), VERSION 2 = TLS 1.2, 3 = TLS 1.3, FLAGS: bit 0 null logger,
//       bit 1 null ticket sender
//   send TYPE CONTENT CUTSEED CAPDELTA FAULT     Protect, TYPE app|alert|hs|bad
//   update FAULT                                 UpdateOutboundKey
//   overhead
//   recv TYPE CONTENT PAD MUT POS CUTSEED CAPDELTA FAULT
//       the peer makes its next record and it is delivered. TYPE: number or -1.
//   hold TYPE CONTENT PAD        the peer makes its next record, kept in the list
//   deliver IDX MUT POS CUTSEED CAPDELTA FAULT   record IDX (from the end: -1) of the list
//   forge E SEQ TYPE CONTENT PAD MUT POS CUTSEED CAPDELTA FAULT
//   ku FLAG                      a KeyUpdate record from the peer, who changes keys after it
//   burst N COMMAND              the command N times
//   pupdate                      the peer changes to its next sending key
//   pskip                        the peer skips a sequence number
// CONTENT: p:ID:LEN or r:RUNS.
#include "ref.h"
#include "src/record_protocol/s2a_crypter.h"
using s2a::aead_crypter::Iovec;
using s2a::record_protocol::S2ACrypter;
using s2a::s2a_options::S2AOptions;
static const uint8_t kFill = 0xA5;
static std::vector<std::string> g_tix;
static int g_waits = 0, g_mode = 0;
static bool Wait() { g_waits++; return g_mode != 2; }
struct Factory : s2a::s2a_channel::S2AChannelFactoryInterface {
  void WaitForChannelReady() override {}
  absl::StatusOr<std::unique_ptr<s2a::s2a_channel::S2AChannelInterface>> Build(S2AChannelOptionsInterface*) override { return absl::UnimplementedError(""); }
};
static Factory* g_factory;   // the one given to the connection
static s2a::s2a_channel::S2AChannelFactoryInterface::S2AChannelOptionsInterface* g_copts;
static s2a::s2a_ticket_sender::WaitOnTicketSender Sender(s2a::s2a_ticket_sender::TicketSenderOptions& o) {
  Json j;
  j.str("url", Hex(o.handshaker_service_url)).raw("conn", Limbs(o.connection_id))
      .num("idk", (int)o.local_identity.GetIdentityType()).str("id", Hex(o.local_identity.GetIdentityString()));
  std::string t = "[";
  if (o.tickets != nullptr)
    for (auto& x : *o.tickets) { if (t.size() > 1) t += ','; t += Runs((const uint8_t*)x->data(), x->size()); }
  j.raw("tickets", t + "]").boolean("chan", o.channel_factory.get() == g_factory && o.channel_options.get() == g_copts);
  g_tix.push_back(j.done());
  return g_mode == 1 ? nullptr : &Wait;
}
static const char* CodeName(S2ACrypter::S2ACrypterStatusCode c) {
  typedef S2ACrypter::S2ACrypterStatusCode C;
  return c == C::OK ? "ok" : c == C::ALERT_CLOSE_NOTIFY ? "close" : c == C::ALERT_OTHER ? "alert" : "error";
}
struct Cut {
  std::vector<std::unique_ptr<Exact>> bufs;
  std::vector<Iovec> v;
  Cut(const Bytes& b, uint64_t seed) {
    std::vector<size_t> cuts;
    Rng r(seed);
    if (seed == 999) { for (size_t i = 1; i < b.size(); i++) cuts.push_back(i); }
    else if (seed > 0) {
      size_t k = 1 + r.below(5);
      for (size_t i = 0; i < k; i++) cuts.push_back(r.below(b.size() + 1));
      // some cuts at the interesting places
      if (r.below(2) && b.size() >= 17) cuts.push_back(b.size() - 16 + r.below(3) - 1);
      for (size_t i = 0; i < cuts.size(); i++) for (size_t k2 = i + 1; k2 < cuts.size(); k2++) if (cuts[k2] < cuts[i]) std::swap(cuts[i], cuts[k2]);
    }
    cuts.push_back(b.size());
    size_t at = 0;
    for (size_t c : cuts) {
      bufs.push_back(std::make_unique<Exact>(Bytes(b.begin() + at, b.begin() + c)));
      v.push_back({bufs.back()->p.get(), c - at});
      at = c;
    }
    if (seed > 0 && seed != 999 && r.below(4) == 0) v.insert(v.begin() + r.below(v.size() + 1), Iovec{nullptr, 0});
    if (seed == 0 && b.empty()) v.clear();
  }
};
// the content of records of these types is the application's only
static bool Hidden(int type) { return type > 0 && type != 21 && type != 22; }
static Bytes Content(const std::string& t, bool data = false) {
  if (t[0] == 'r') return ParseRuns(t.substr(2));
  unsigned long long id = 0, n = 0;
  sscanf(t.c_str(), "p:%llu:%llu", &id, &n);
  Bytes b = Pattern(data ? id + told::Salt() : id, n);
  for (auto& x : b) if (x == 0 || x == kFill) x = 0x5c;
  told::Secret("data", b);
  return b;
}
struct Rec {
  Bytes bytes;
  size_t e;
  uint64_t s;
  int type;
  Bytes content;
  size_t pad;
};
int main(int argc, char** argv) {
  Driver d(argc, argv);
  std::unique_ptr<S2ACrypter> c;
  ref::Direction in, out;
  size_t pe = 0;           // peer's sending generation
  uint64_t ps = 0;         // peer's next sequence number
  size_t oe = 0;           // outbound updates asked for
  uint64_t ostart = 0;     // first outbound sequence number
  uint64_t lastfound = 0;  // last sequence number seen
  uint64_t attempts = 0;
  int suite = 0;
  std::vector<Rec> wire;
  Toks t;
  auto N = [&](size_t i) { return strtoull(t[i].c_str(), nullptr, 10); };
  auto I = [&](size_t i) { return atoi(t[i].c_str()); };
  auto keys = [&](ref::Direction* dir, size_t e) {   // the secrets of generation e and before
    size_t k = dir->keys.size();
    dir->Reach(e);
    for (; k < dir->keys.size(); k++) { told::Secret("key", dir->secrets[k]); told::Secret("key", dir->keys[k]); told::Secret("key", dir->ivs[k]); }
  };
  auto tixjson = [&]() { std::string s = "["; for (auto& x : g_tix) { if (s.size() > 1) s += ','; s += x; } g_tix.clear(); return s + "]"; };
  auto make = [&](size_t e, uint64_t s, int type, const Bytes& content, size_t pad) {
    Rec r;
    r.e = e; r.s = s; r.type = type; r.content = content; r.pad = pad;
    if (type == 22 && content.size() < 3000) told::Secret("ticket", content);
    r.bytes = in.Record(e, s, content, type, pad);
    return r;
  };
  // deliver record r: tokens from index k: MUT POS CUTSEED CAPDELTA FAULT
  auto deliver = [&](const Rec& r, size_t k, Json* j) {
    std::string mut = t[k];
    size_t pos = N(k + 1);
    uint64_t cutseed = N(k + 2);
    long capd = atol(t[k + 3].c_str());
    int f = I(k + 4);
    Bytes hdr(r.bytes.begin(), r.bytes.begin() + 5), pl(r.bytes.begin() + 5, r.bytes.end());
    auto setlen = [&]() { hdr[3] = pl.size() >> 8; hdr[4] = pl.size() & 255; };
    bool hnull = false;
    if (mut == "body" && !pl.empty()) pl[pos / 8 % pl.size()] ^= 1 << (pos % 8);
    else if (mut == "tag") pl[pl.size() - 1 - (pos / 8) % 16] ^= 1 << (pos % 8);
    else if (mut == "hdr") hdr[pos / 8 % 5] ^= 1 << (pos % 8);
    else if (mut == "trunc") { pl.resize(pl.size() - std::min(pl.size(), pos)); setlen(); }
    else if (mut == "truncraw") pl.resize(pl.size() - std::min(pl.size(), pos));
    else if (mut == "ext") { Bytes x = Pattern(pos, pos % 40 + 1); pl.insert(pl.end(), x.begin(), x.end()); setlen(); }
    else if (mut == "extraw") { Bytes x = Pattern(pos, pos % 40 + 1); pl.insert(pl.end(), x.begin(), x.end()); }
    else if (mut == "hshort") hdr.resize(pos % 5);
    else if (mut == "hlong") hdr.insert(hdr.end(), 1, 0);
    else if (mut == "hnull") hnull = true;
    else if (mut == "rand") { pl = Pattern(pos, pl.size()); }
    else if (mut == "swap16" && pl.size() >= 32) std::swap_ranges(pl.begin(), pl.begin() + 16, pl.end() - 16);
    Bytes now = hdr;
    now.insert(now.end(), pl.begin(), pl.end());
    bool mutated = hnull || hdr.size() != 5 || now != r.bytes;
    Exact h(hdr);
    Cut cut(pl, cutseed);
    long need = (long)pl.size() - 16;
    long cap = capd == 99 ? (long)pl.size() : need + capd;
    if (cap < 0) cap = 0;
    Exact o(cap, kFill);
    fault::Arm(f);
    auto st = c->Unprotect({hnull ? nullptr : h.p.get(), hnull ? 0 : hdr.size()}, cut.v, {o.p.get(), (size_t)cap});
    int calls = fault::Disarm();
    bool ok = st.GetCode() == S2ACrypter::S2ACrypterStatusCode::OK;
    told::Say(st.GetErrorMessage());
    size_t w = st.GetBytesWritten();
    int dirty = 0;
    for (long i = 0; i < cap; i++) if (o.p[i] != 0 && o.p[i] != kFill) dirty++;
    std::string hj = "[";
    if (!hnull) for (auto b : hdr) { if (hj.size() > 1) hj += ','; hj += std::to_string(b); }
    // the content type is the last non-zero byte of the inner plaintext
    Bytes full = r.content;
    if (r.type >= 0) full.push_back((uint8_t)r.type);
    full.insert(full.end(), r.pad, 0);
    size_t inner = full.size(), at = full.size();
    while (at > 0 && full[at - 1] == 0) at--;
    int rt = at > 0 ? full[at - 1] : -1;
    Bytes rc(full.begin(), full.begin() + (at > 0 ? at - 1 : 0));
    j->raw("hdr", hj + "]").num("plen", pl.size()).num("cap", cap).boolean("mut", mutated).num("re", r.e).raw("rs", Limbs(r.s))
        .num("rt", rt).num("clen", rc.size()).str("cdig", Dig(rc)).num("inner", inner)
        .raw("runs", (rt == 21 || rt == 22) ? Runs(rc) : "[]")
        .boolean("ok", ok).str("code", CodeName(st.GetCode())).num("w", w <= 0x3fffffff ? (long long)w : -2)
        .str("dig", Dig(o.p.get(), w <= (size_t)cap ? w : 0)).num("dirty", dirty).raw("tix", tixjson())
        .boolean("fired", fault::Fired()).boolean("hm", fault::FiredInDerivation()).num("calls", calls);
  };
  auto one = [&](Json* event) {
    Json& j = *event;
    std::string op = t[0];
    if (op == "reset") {
      j.str("op", "reset");
      c.reset();
      wire.clear();
      g_tix.clear();
      suite = I(1);
      int ver = I(2);
      size_t il = N(3), ol = N(4);
      uint64_t is = N(5), os = N(6), conn = N(7);
      std::string url = UnhexS(t[8]), id = UnhexS(t[10]);
      int idk = I(9), flags = I(11), f = I(13);
      uint64_t sid = N(12);
      Bytes isec = Pattern(sid * 2 + 1 + told::Salt(), il), osec = Pattern(sid * 2 + 2 + told::Salt(), ol);
      told::Secret("key", isec);
      told::Secret("key", osec);
      S2AOptions::Identity ident = idk == 1 ? S2AOptions::Identity::FromSpiffeId(id) : idk == 2 ? S2AOptions::Identity::FromHostname(id)
          : idk == 3 ? S2AOptions::Identity::FromUid(id) : S2AOptions::Identity::GetEmptyIdentity();
      S2AOptions::Ciphersuite cs = suite == 0 ? S2AOptions::Ciphersuite::AES_128_GCM_SHA256 : suite == 1 ? S2AOptions::Ciphersuite::AES_256_GCM_SHA384
          : suite == 2 ? S2AOptions::Ciphersuite::CHACHA20_POLY1305_SHA256 : static_cast<S2AOptions::Ciphersuite>(suite);
      S2AOptions::TlsVersion tv = ver == 3 ? S2AOptions::TlsVersion::TLS1_3 : ver == 2 ? S2AOptions::TlsVersion::TLS1_2 : static_cast<S2AOptions::TlsVersion>(ver + 40);
      std::function<void(const std::string&)> logger = [](const std::string& m) { told::Say(m); };
      if (flags & 1) logger = nullptr;
      g_mode = sid % 4;
      g_waits = 0;
      g_factory = new Factory;
      g_copts = new s2a::s2a_channel::S2AChannelFactoryInterface::S2AChannelOptionsInterface;
      fault::Arm(f);
      auto r = S2ACrypter::Create(tv, cs, conn, url, ident, isec, osec, is, os, (flags & 2) ? nullptr : &Sender, std::unique_ptr<Factory>(g_factory),
          std::unique_ptr<s2a::s2a_channel::S2AChannelFactoryInterface::S2AChannelOptionsInterface>(g_copts), logger);
      fault::Disarm();
      bool ok = r.index() == 1;
      if (ok) c = std::move(absl::get<1>(r)); else told::Say(std::string(absl::get<0>(r).message()));
      if (suite >= 0 && suite <= 2) { in.Init(suite, isec); out.Init(suite, osec); if (il && ol) { keys(&in, 1); keys(&out, 1); } }
      pe = 0; ps = is; oe = 0; ostart = os; lastfound = os; attempts = 0;
      j.num("suite", suite).num("ver", ver).num("il", il).num("ol", ol).raw("is", Limbs(is)).raw("os", Limbs(os)).raw("conn", Limbs(conn))
          .str("url", Hex(url)).num("idk", (int)ident.GetIdentityType()).str("id", Hex(ident.GetIdentityString())).num("flags", flags).boolean("fired", fault::Fired())
          .boolean("ok", ok && c != nullptr);
    } else if (!c) {
      j.str("op", "none");
    } else if (op == "end") {
      int before = g_waits;
      c.reset();
      j.str("op", op).num("before", before).num("waits", g_waits).boolean("waitable", g_mode != 1).raw("tix", tixjson());
    } else if (op == "overhead") {
      j.str("op", op).num("n", c->RecordOverhead());
    } else if (op == "update") {
      fault::Arm(I(1));
      auto s = c->UpdateOutboundKey();
      fault::Disarm();
      told::Say(std::string(s.message()));
      keys(&out, oe + 1);
      if (s.ok()) { oe++; lastfound = 0; attempts = 0; }
      j.str("op", op).boolean("ok", s.ok()).boolean("fired", fault::Fired()).raw("tix", tixjson());
    } else if (op == "send") {
      Bytes content = Content(t[2], t[1] == "app");
      long cap = (long)content.size() + 22 + atol(t[4].c_str());
      if (cap < 0) cap = 0;
      S2ACrypter::RecordType rt = t[1] == "app" ? S2ACrypter::RecordType::APPLICATION_DATA : t[1] == "alert" ? S2ACrypter::RecordType::ALERT
          : t[1] == "hs" ? S2ACrypter::RecordType::HANDSHAKE : static_cast<S2ACrypter::RecordType>(9);
      int want = t[1] == "app" ? 23 : t[1] == "alert" ? 21 : t[1] == "hs" ? 22 : -1;
      Cut cut(content, N(3));
      Exact o(cap, kFill);
      fault::Arm(I(5));
      auto st = c->Protect(rt, cut.v, {o.p.get(), (size_t)cap});
      int calls = fault::Disarm();
      attempts++;
      told::Say(st.GetErrorMessage());
      bool ok = st.GetCode() == S2ACrypter::S2ACrypterStatusCode::OK;
      size_t w = st.GetBytesWritten();
      bool tail = true;
      for (long i = w; i < cap; i++) if (o.p[i] != kFill) tail = false;
      Bytes b = o.bytes();
      size_t n = ok ? std::min((size_t)cap, w) : 0;
      if (!ok && cap >= 22) n = std::min((size_t)cap, (size_t)5 + ((b[3] << 8) | b[4]));
      Bytes rec(b.begin(), b.begin() + n);
      bool found = false;
      size_t fe = 0; uint64_t fs = 0; Bytes inner;
      if (n >= 22) {
        for (size_t de = 0; de <= oe + 1 && !found; de++) {
          size_t e = de <= oe ? oe - de : oe + 1;
          std::vector<uint64_t> cand;
          uint64_t base = e == oe ? lastfound : 0;
          cand.push_back(base + 1);
          for (int x = 0; x <= 6; x++) { cand.push_back(base + x); cand.push_back(base - x); }
          for (uint64_t x = 0; x <= std::min<uint64_t>(attempts + 2, 40); x++) cand.push_back((e == 0 ? ostart : 0) + x);
          for (int x = 0; x < 3; x++) cand.push_back(x);
          for (uint64_t s : cand) {
            if (out.OpenRecord(e, s, rec, &inner)) { found = true; fe = e; fs = s; break; }
          }
        }
      }
      int it = -1; size_t pad = 0, cl = 0;
      if (found) {
        size_t i = inner.size();
        while (i > 0 && inner[i - 1] == 0) i--;
        pad = inner.size() - i;
        it = i > 0 ? inner[i - 1] : -1;
        cl = i > 0 ? i - 1 : 0;
        if (fe == oe) lastfound = fs;
      }
      bool hdr = n >= 5 && rec[0] == 0x17 && rec[1] == 3 && rec[2] == 3 && (size_t)((rec[3] << 8) | rec[4]) == n - 5;
      j.str("op", op).num("type", want).num("clen", content.size()).str("cdig", Dig(content)).num("cap", cap).boolean("ok", ok)
          .str("code", CodeName(st.GetCode())).num("w", w <= 0x3fffffff ? (long long)w : -2).boolean("tail", tail).boolean("found", found)
          .num("fe", fe).raw("fs", Limbs(fs)).num("it", it).num("pad", pad).str("idig", found ? Dig(inner.data(), cl) : "").boolean("hdr", hdr)
          .boolean("fired", fault::Fired()).num("calls", calls).raw("tix", tixjson());
    } else if (op == "recv" || op == "hold") {
      Rec r = make(pe, ps, I(1), Content(t[2], Hidden(I(1))), N(3));
      ps++;
      wire.push_back(r);
      if (op == "hold") { j.str("op", op); }
      else { j.str("op", "recv"); deliver(r, 4, &j); }
    } else if (op == "deliver") {
      if (wire.empty()) { j.str("op", "hold"); }
      else {
        long k = atol(t[1].c_str());
        size_t ix = k < 0 ? (wire.size() >= (size_t)-k ? wire.size() + k : 0) : std::min((size_t)k, wire.size() - 1);
        j.str("op", "recv");
        deliver(wire[ix], 2, &j);
      }
    } else if (op == "forge") {
      Rec r = make(N(1), N(2), I(3), Content(t[4], Hidden(I(3))), N(5));
      j.str("op", "recv");
      deliver(r, 6, &j);
    } else if (op == "ku") {
      Rec r = make(pe, ps, 22, ParseRuns("24x1,0x2,1x1," + t[1] + "x1"), 0);
      t = {"ku", "none", "0", "0", "99", "-1"};
      j.str("op", "recv");
      deliver(r, 1, &j);
      pe++; ps = 0;
      keys(&in, pe + 1);
    } else if (op == "pupdate") {
      pe++; ps = 0;
      keys(&in, pe + 1);
      j.str("op", "hold");
    } else if (op == "pskip") {
      ps++;
      j.str("op", "hold");
    } else {
      j.str("op", "hold");
    }
  };
  while (d.next(&t)) {
    Json j;
    if (t[0] == "burst") {
      size_t n = N(1), k = 0;
      t.erase(t.begin(), t.begin() + 2);
      Toks command = t;
      Burst b;
      bool more = n > 0;
      for (; more; k++) {
        Json x;
        t = command;
        one(&x);
        wire.clear();
        more = b.Add(x, k + 1 >= n);
      }
      j = b.Event();
    } else {
      one(&j);
    }
    d.emit(j);
  }
}
