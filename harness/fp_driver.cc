// Drives S2AFrameProtector with a recording allocator against an independent
// TLS 1.3 peer. Script:
//   reset SUITE VERSION INLEN OUTLEN INSEQ OUTSEQ FLAGS SECRETID
//       FLAGS bit 0: no allocator, 1: no destroy, 2: no logger, 3: empty address
//   protect LEN CUTSEED FAULT            message of LEN bytes, buffer from the allocator
//   protect1 LEN CUTSEED CAPDELTA FAULT  into one caller buffer of needed + CAPDELTA
//   unprotect LIST CUTSEED TRIM FAULT    LIST: T/CONTENT/PAD/MUT/POS+..., or '-'
//       TRIM > 0: that many bytes cut off the end; < 0: that many bytes appended
//   unprotect1 LIST CUTSEED TRIM CAPDELTA FAULT
//   sizes N
// MUT: none body tag hdr skip (not delivered) dup (delivered twice)
#include "ref.h"
#include <map>
#include "s2a_frame_protector.h"
using s2a::aead_crypter::Iovec;
using s2a::frame_protector::S2AFrameProtector;
using s2a::s2a_options::S2AOptions;
struct Heap {
  std::map<void*, size_t> live;     // allocated, not destroyed
  std::map<void*, size_t> dead;     // destroyed in this call; memory kept until Clear
  int n_alloc = 0, dbl = 0, foreign = 0;
  bool watching = false;
  Iovec Alloc(size_t n) {
    uint8_t* p = new uint8_t[n];
    memset(p, 0xA5, n);
    live[p] = n;
    n_alloc++;
    return {p, n};
  }
  void Destroy(Iovec v) {
    if (live.count(v.iov_base)) { dead[v.iov_base] = live[v.iov_base]; live.erase(v.iov_base); }
    else if (dead.count(v.iov_base)) dbl++;
    else foreign++;
  }
  void Clear() {
    for (auto& x : live) delete[] (uint8_t*)x.first;
    for (auto& x : dead) delete[] (uint8_t*)x.first;
    live.clear(); dead.clear();
    n_alloc = dbl = foreign = 0;
  }
};
static Heap g_heap;
struct Cut {
  std::vector<std::unique_ptr<Exact>> bufs;
  std::vector<Iovec> v;
  Bytes orig;
  Cut(const Bytes& b, uint64_t seed) : orig(b) {
    std::vector<size_t> cuts;
    Rng r(seed);
    if (seed == 1 || seed == 2) { for (size_t i = 1; i < b.size() && (seed == 2 || i < 400); i++) cuts.push_back(i); }
    else if (seed == 3) { for (size_t i = 0; i < b.size(); i++) { cuts.push_back(i); if (i % 4) cuts.push_back(i); if (i % 50 == 7) cuts.insert(cuts.end(), 40, i); } }
    else if (seed > 1) {
      size_t k = 1 + r.below(6);
      for (size_t i = 0; i < k; i++) cuts.push_back(r.below(b.size() + 1));
      if (r.below(2)) for (size_t i = 1; i < 7 && i <= b.size(); i += 1 + r.below(3)) cuts.push_back(i);
      if (r.below(2)) cuts.push_back(std::min<size_t>(b.size(), 16384 + r.below(50) - 25));
      std::sort(cuts.begin(), cuts.end());
    }
    cuts.push_back(b.size());
    size_t at = 0;
    for (size_t c : cuts) {
      bufs.push_back(std::make_unique<Exact>(Bytes(b.begin() + at, b.begin() + c)));
      v.push_back({bufs.back()->p.get(), c - at});
      at = c;
    }
    if (seed > 1 && r.below(3) == 0) v.insert(v.begin() + r.below(v.size() + 1), Iovec{nullptr, 0});
    if (seed > 1 && r.below(4) == 0) v.push_back(Iovec{nullptr, 0});
    if (seed == 0 && b.empty()) v.clear();
  }
  bool Modified() {
    size_t at = 0;
    for (auto& x : bufs) { if (x->n && memcmp(x->p.get(), orig.data() + at, x->n)) return true; at += x->n; }
    return false;
  }
};
static Bytes Content(const std::string& t, bool data) {
  if (t[0] == 'r') return ParseRuns(t.substr(2));
  unsigned long long id = 0, n = 0;
  sscanf(t.c_str(), "p:%llu:%llu", &id, &n);
  Bytes b = Pattern(data ? id + told::Salt() : id, n);
  told::Secret("data", b);
  return b;
}
static std::vector<std::string> Split(const std::string& s, char c) {
  std::vector<std::string> o;
  std::stringstream ss(s);
  std::string w;
  while (std::getline(ss, w, c)) o.push_back(w);
  return o;
}
struct Rec { Bytes bytes; size_t e; uint64_t s; Bytes inner; };
int main(int argc, char** argv) {
  Driver d(argc, argv);
  std::unique_ptr<S2AFrameProtector> f;
  ref::Direction in, out;
  size_t pe = 0; uint64_t ps = 0, ostart = 0, lastfound = 0, sent = 0, slack = 0;
  std::string url;
  S2AOptions::Identity ident = S2AOptions::Identity::GetEmptyIdentity();
  Toks t;
  std::map<Bytes, Rec> known;   // records the peer really made
  auto N = [&](size_t i) { return strtoull(t[i].c_str(), nullptr, 10); };
  auto I = [&](size_t i) { return atoi(t[i].c_str()); };
  auto owners = [&](Json* j, const std::vector<Iovec>& ret) {
    int retdead = 0, foreign = g_heap.foreign;
    std::map<void*, size_t> left = g_heap.live;
    for (auto& v : ret) {
      if (g_heap.dead.count(v.iov_base)) retdead++;
      else if (!left.count(v.iov_base)) foreign++;
      else left.erase(v.iov_base);
    }
    j->num("leaked", left.size()).num("double", g_heap.dbl).num("retdead", retdead).num("foreign", foreign).num("nret", ret.size()).num("nalloc", g_heap.n_alloc);
  };
  auto one = [&](Json* event) {
    Json& j = *event;
    std::string op = t[0];
    g_heap.Clear();
    if (op == "reset") {
      f.reset();
      known.clear();
      int suite = I(1), ver = I(2);
      size_t il = N(3), ol = N(4);
      uint64_t is = N(5), os = N(6), sid = N(8);
      int fl = I(7);
      Bytes isec = Pattern(sid * 2 + 1 + told::Salt(), il), osec = Pattern(sid * 2 + 2 + told::Salt(), ol);
      told::Secret("key", isec);
      told::Secret("key", osec);
      url = (fl & 8) ? "" : "u:1";
      S2AOptions::Ciphersuite cs = suite == 0 ? S2AOptions::Ciphersuite::AES_128_GCM_SHA256 : suite == 1 ? S2AOptions::Ciphersuite::AES_256_GCM_SHA384
          : suite == 2 ? S2AOptions::Ciphersuite::CHACHA20_POLY1305_SHA256 : static_cast<S2AOptions::Ciphersuite>(suite);
      S2AOptions::TlsVersion tv = ver == 3 ? S2AOptions::TlsVersion::TLS1_3 : S2AOptions::TlsVersion::TLS1_2;
      std::function<Iovec(size_t)> al = [](size_t n) { return g_heap.Alloc(n); };
      std::function<void(Iovec)> de = [](Iovec v) { g_heap.Destroy(v); };
      std::function<void(const std::string&)> lg = [](const std::string& m) { told::Say(m); };
      if (fl & 1) al = nullptr;
      if (fl & 2) de = nullptr;
      if (fl & 4) lg = nullptr;
      S2AFrameProtector::S2AFrameProtectorOptions o = {tv, cs, isec, osec, is, os, url, ident, 17, nullptr, nullptr, al, de, lg};
      auto r = S2AFrameProtector::Create(o);
      told::Say(std::string(r.status().message()));
      bool ok = r.ok() && *r != nullptr;
      if (ok) f = std::move(*r);
      if (suite >= 0 && suite <= 2) {
        in.Init(suite, isec); out.Init(suite, osec);
        if (il && ol) for (auto* x : {&in, &out}) { x->Reach(1); for (int k = 0; k < 2; k++) { told::Secret("key", x->secrets[k]); told::Secret("key", x->keys[k]); told::Secret("key", x->ivs[k]); } }
      }
      pe = 0; ps = is; ostart = os; lastfound = os; sent = 0; slack = 0;
      j.str("op", "reset").num("suite", suite).num("ver", ver).num("il", il).num("ol", ol).raw("is", Limbs(is)).raw("os", Limbs(os))
          .str("url", Hex(url)).num("flags", fl & 7).boolean("ok", ok);
    } else if (!f) {
      j.str("op", "none");
    } else if (op == "sizes") {
      size_t n = N(1);
      Bytes b(n <= 100000 ? n : 0);
      std::vector<Iovec> v = {{b.data(), b.size() / 2}, {b.data() + b.size() / 2, b.size() - b.size() / 2}};
      j.str("op", op).num("n", n).num("max", f->MaxRecordSize()).num("np", f->NumberBytesToProtect(n)).num("nu", f->NumberBytesToUnprotect(n));
      j.num("npv", n <= 100000 ? f->NumberBytesToProtect(v) : f->NumberBytesToProtect(n)).num("nuv", n <= 100000 ? f->NumberBytesToUnprotect(v) : f->NumberBytesToUnprotect(n));
    } else if (op == "protect" || op == "protect1") {
      bool single = op == "protect1";
      Bytes msg = Pattern(N(1) * 31 + N(2) + told::Salt(), N(1));
      told::Secret("data", msg);
      for (auto& x : msg) if (x == 0) x = 1;
      Cut cut(msg, N(2));
      size_t nrec = msg.empty() ? 1 : (msg.size() + 16383) / 16384;
      long need = msg.size() + nrec * 22;
      long cap = single ? std::max(0L, need + atol(t[3].c_str())) : 0;
      Exact o(cap, 0xA5);
      std::vector<Iovec> ret;
      bool ok;
      Bytes got;
      fault::Arm(I(single ? 4 : 3));
      bool tail = true;
      if (single) {
        Iovec v = {o.p.get(), (size_t)cap};
        auto s = f->Protect(cut.v, v);
        fault::Disarm();
        ok = s.ok();
        told::Say(std::string(s.message()));
        if (ok) {
          got = Bytes(o.p.get(), o.p.get() + std::min<long>(cap, need));
          for (long i = need; i < cap; i++) if (o.p[i] != 0xA5) tail = false;
        }
      } else {
        auto r = f->Protect(cut.v);
        fault::Disarm();
        ok = r.status.ok();
        told::Say(std::string(r.status.message()));
        ret = r.bytes;
        for (auto& v : ret) if (g_heap.live.count(v.iov_base)) got.insert(got.end(), (uint8_t*)v.iov_base, (uint8_t*)v.iov_base + std::min(v.iov_len, g_heap.live[v.iov_base]));
      }
      if (!ok) slack += nrec;
      // take the records apart
      std::string rj = "[";
      Bytes all;
      size_t at = 0;
      while (at + 5 <= got.size()) {
        size_t n = 5 + ((got[at + 3] << 8) | got[at + 4]);
        if (got[at] != 0x17 || got[at + 1] != 3 || got[at + 2] != 3 || at + n > got.size()) break;
        Bytes rec(got.begin() + at, got.begin() + at + n), inner;
        bool found = false;
        uint64_t fs = 0;
        std::vector<uint64_t> cand;
        for (uint64_t x = 0; x <= 8 + slack; x++) { cand.push_back(lastfound + x); cand.push_back(lastfound - x); }
        for (uint64_t x = 0; x < std::min<uint64_t>(sent + 3, 60); x++) cand.push_back(ostart + x);
        for (uint64_t s : cand) if (out.OpenRecord(0, s, rec, &inner)) { found = true; fs = s; break; }
        int it = -1; size_t pad = 0, cl = 0;
        if (found) {
          size_t i = inner.size();
          while (i > 0 && inner[i - 1] == 0) i--;
          pad = inner.size() - i;
          it = i > 0 ? inner[i - 1] : -1;
          cl = i > 0 ? i - 1 : 0;
          all.insert(all.end(), inner.begin(), inner.begin() + cl);
          lastfound = fs;
          slack = 0;
        }
        Json q;
        q.boolean("found", found).num("fe", 0).raw("fs", Limbs(fs)).num("it", it).num("pad", pad).num("n", cl);
        if (rj.size() > 1) rj += ',';
        rj += q.done();
        at += n;
        sent++;
      }
      j.str("op", "protect").boolean("single", single).num("clen", msg.size()).str("cdig", Dig(msg)).num("cap", cap).boolean("ok", ok).raw("recs", rj + "]")
          .num("left", got.size() - at).num("total", got.size()).str("idig", Dig(all)).boolean("tail", tail).boolean("fired", fault::Fired()).boolean("inmod", cut.Modified());
      owners(&j, ret);
    } else if (op == "unprotect" || op == "unprotect1") {
      bool single = op == "unprotect1";
      Bytes stream;
      if (t[1] != "-") for (auto& item : Split(t[1], '+')) {
        auto p = Split(item, '/');
        int type = atoi(p[0].c_str());
        Bytes content = Content(p[1], type > 0 && type != 21 && type != 22);
        size_t pad = strtoull(p[2].c_str(), nullptr, 10), pos = strtoull(p[4].c_str(), nullptr, 10);
        if (p[3] == "ku") { pe++; ps = 0; continue; }
        Rec r;
        r.e = pe; r.s = ps++;
        r.bytes = in.Record(r.e, r.s, content, type, pad);
        r.inner = content;
        if (type >= 0) r.inner.push_back((uint8_t)type);
        r.inner.insert(r.inner.end(), pad, 0);
        known[r.bytes] = r;
        if (p[3] == "skip") continue;
        Bytes b = r.bytes;
        if (p[3] == "body") b[5 + pos / 8 % (b.size() - 5)] ^= 1 << (pos % 8);
        else if (p[3] == "tag") b[b.size() - 1 - (pos / 8) % 16] ^= 1 << (pos % 8);
        else if (p[3] == "hdr") b[pos / 8 % 5] ^= 1 << (pos % 8);
        else if (p[3] == "dup") stream.insert(stream.end(), b.begin(), b.end());
        else if (p[3] == "rand") { b = Pattern(pos, pos % 90); }
        else if (p[3] == "raw") { b = content; }
        stream.insert(stream.end(), b.begin(), b.end());
      }
      long trim = atol(t[3].c_str());
      if (trim > 0) stream.resize(stream.size() - std::min<size_t>(stream.size(), trim));
      if (trim < 0) { Bytes x = Pattern(7, -trim); for (size_t i = 0; i < x.size() && i < 5; i++) x[i] = (uint8_t[]){0x17, 3, 3, 0x40, 0}[i]; stream.insert(stream.end(), x.begin(), x.end()); }
      // what is in the stream
      std::string rj = "[";
      size_t at = 0;
      bool badhdr = false;
      Bytes expect;
      while (at < stream.size()) {
        static const uint8_t H[3] = {0x17, 3, 3};
        for (size_t i = 0; i < 3 && at + i < stream.size(); i++) if (stream[at + i] != H[i]) badhdr = true;
        if (badhdr || at + 5 > stream.size()) break;
        size_t n = 5 + ((stream[at + 3] << 8) | stream[at + 4]);
        if (at + n > stream.size()) break;
        Bytes rec(stream.begin() + at, stream.begin() + at + n);
        auto it = known.find(rec);
        Json q;
        std::string hj;
        for (int i = 0; i < 5; i++) { if (i) hj += ','; hj += std::to_string(rec[i]); }
        q.raw("hdr", "[" + hj + "]").num("plen", n - 5).num("cap", n - 5).boolean("mut", it == known.end());
        int rt = -1;
        Bytes rc;
        if (it != known.end()) {
          Bytes full = it->second.inner;
          size_t e = full.size();
          while (e > 0 && full[e - 1] == 0) e--;
          rt = e > 0 ? full[e - 1] : -1;
          rc = Bytes(full.begin(), full.begin() + (e > 0 ? e - 1 : 0));
          q.num("re", it->second.e).raw("rs", Limbs(it->second.s));
          if (rt == 23) expect.insert(expect.end(), rc.begin(), rc.end());
        } else {
          q.num("re", 0).raw("rs", "[0,0,0,0]");
        }
        q.num("rt", rt).num("clen", rc.size()).raw("runs", (rt == 21 || rt == 22) ? Runs(rc) : "[]").boolean("fired", false).boolean("hm", false);
        if (rj.size() > 1) rj += ',';
        rj += q.done();
        at += n;
      }
      Cut cut(stream, N(2));
      std::vector<Iovec> ret;
      bool ok, toolong = false;
      Bytes got;
      size_t rlen = 0;
      int dirty = 0;
      if (single) {
        long need = stream.size() < 22 ? 0 : stream.size() - 5;
        long cap = std::max(0L, need + atol(t[4].c_str()));
        Exact o(cap, 0xA5);
        Iovec v = {o.p.get(), (size_t)cap};
        fault::Arm(I(5));
        auto s = f->Unprotect(cut.v, v);
        fault::Disarm();
        ok = s.ok();
        told::Say(std::string(s.message()));
        rlen = v.iov_len;
        for (long i = 0; i < cap; i++) if (o.p[i] != 0 && o.p[i] != 0xA5) dirty++;
        if (v.iov_base != o.p.get() || v.iov_len > (size_t)cap) toolong = true;
        else if (ok) got = Bytes(o.p.get(), o.p.get() + v.iov_len);
      } else {
        fault::Arm(I(4));
        auto r = f->Unprotect(cut.v);
        fault::Disarm();
        ok = r.status.ok();
        told::Say(std::string(r.status.message()));
        ret = r.bytes;
        for (auto& v : ret) {
          if (!g_heap.live.count(v.iov_base)) continue;
          if (v.iov_len > g_heap.live[v.iov_base]) { toolong = true; continue; }
          got.insert(got.end(), (uint8_t*)v.iov_base, (uint8_t*)v.iov_base + v.iov_len);
        }
      }
      j.str("op", "unprotect").boolean("single", single).num("total", stream.size()).raw("recs", rj + "]").num("left", stream.size() - at).boolean("badhdr", badhdr)
          .boolean("ok", ok).boolean("toolong", toolong).num("dlen", got.size()).str("ddig", Dig(got)).num("xlen", expect.size()).str("xdig", Dig(expect))
          .num("rlen", rlen).num("dirty", dirty).boolean("fired", fault::Fired()).boolean("inmod", cut.Modified());
      owners(&j, ret);
    } else {
      j.str("op", "none");
    }
  };
  while (d.next(&t)) {
    Json j;
    if (t[0] == "burst") {
      size_t n = N(1), k = 0;
      t.erase(t.begin(), t.begin() + 2);
      Toks command = t;
      Burst b;
      bool more = n > 0;
      for (; more; k++) {
        Json x;
        t = command;
        one(&x);
        known.clear();
        more = b.Add(x, k + 1 >= n);
      }
      j = b.Event();
    } else {
      one(&j);
    }
    d.emit(j);
  }
  g_heap.Clear();
}
