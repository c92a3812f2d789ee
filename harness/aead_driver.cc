// Drives the AEAD crypters. Script:
//   reset SUITE KEYLEN KEYID FAULT
//   enc NONCELEN NONCEID AADSEGS PTSEGS ID CAP FAULT
//   dec NONCELEN NONCEID AADSEGS CTSEGS ID CAP MUT POS FAULT
//   sizes N
// SEGS: comma list of lengths, "n" = null component of non-zero length, "z" =
// null component of zero length, "-" = no components. FAULT: -1 or the index of the crypto library call
// that fails. dec: the ciphertext is the reference one of the right total
// length for (nonce, aad, plaintext ID), then MUT: none, ct, tag, aad, nonce
// (bit flips at POS).
#include "ref.h"
#include "src/crypto/s2a_aead_crypter.h"
using namespace s2a::aead_crypter;
static const uint8_t kFill = 0xA5;
struct Segs {
  std::vector<std::unique_ptr<Exact>> bufs;
  std::vector<Iovec> v;
  Bytes all;
  bool null = false;
};
static std::vector<std::string> Split(const std::string& t) {
  std::vector<std::string> r;
  if (t == "-") return r;
  std::stringstream ss(t);
  std::string w;
  while (std::getline(ss, w, ',')) r.push_back(w);
  return r;
}
static size_t Total(const std::string& t) {
  size_t n = 0;
  for (auto& w : Split(t)) n += w == "n" ? 3 : w == "z" ? 0 : strtoul(w.c_str(), nullptr, 10);
  return n;
}
// bytes never 0 or kFill, so that leaked bytes are recognisable
static Bytes Clean(uint64_t id, size_t n) {
  Bytes b = Pattern(id, n);
  for (auto& x : b) if (x == 0 || x == kFill) x = 0x5c;
  return b;
}
static void Cut(const std::string& t, const Bytes& data, Segs* s) {
  size_t at = 0;
  for (auto& w : Split(t)) {
    if (w == "n") { s->v.push_back({nullptr, 3}); s->null = true; at += 3; continue; }
    if (w == "z") { s->v.push_back({nullptr, 0}); continue; }
    size_t n = strtoul(w.c_str(), nullptr, 10);
    Bytes part(data.begin() + at, data.begin() + at + n);
    at += n;
    s->bufs.push_back(std::make_unique<Exact>(part));
    s->v.push_back({s->bufs.back()->p.get(), n});
    s->all.insert(s->all.end(), part.begin(), part.end());
  }
}
int main(int argc, char** argv) {
  Driver d(argc, argv);
  std::unique_ptr<S2AAeadCrypter> c;
  int suite = 0;
  Bytes key;
  Toks t;
  while (d.next(&t)) {
    Json j;
    j.str("op", t[0]);
    if (t[0] == "reset") {
      suite = atoi(t[1].c_str());
      size_t kl = strtoul(t[2].c_str(), nullptr, 10);
      key = Pattern(strtoull(t[3].c_str(), nullptr, 10) + told::Salt(), kl);
      told::Secret("key", key);
      int f = atoi(t[4].c_str());
      fault::Arm(f);
      absl::variant<absl::Status, std::unique_ptr<S2AAeadCrypter>> r;
      if (suite == ref::CHACHA) r = CreateChachaPolyAeadCrypter(key); else r = CreateAesGcmAeadCrypter(key);
      int calls = fault::Disarm();
      c.reset();
      bool ok = r.index() == 1;
      if (ok) c = std::move(absl::get<1>(r)); else told::Say(std::string(absl::get<0>(r).message()));
      j.num("suite", suite).num("keylen", kl).boolean("ok", ok && c != nullptr).boolean("fired", fault::Fired()).num("calls", calls);
      if (c) j.num("kl", c->KeyLength()).num("nl", c->NonceLength()).num("tl", c->TagLength());
    } else if (t[0] == "sizes") {
      size_t n = strtoull(t[1].c_str(), nullptr, 10);
      j.num("n", n);
      if (c) j.num("mp", c->MaxPlaintextLength(n)).num("mc", c->MaxCiphertextAndTagLength(n)).boolean("have", true);
      else j.num("mp", 0).num("mc", 0).boolean("have", false);
    } else if (t[0] == "enc" || t[0] == "dec") {
      bool enc = t[0] == "enc";
      size_t nl = strtoul(t[1].c_str(), nullptr, 10);
      uint64_t nid = strtoull(t[2].c_str(), nullptr, 10), id = strtoull(t[5].c_str(), nullptr, 10);
      size_t cap = strtoul(t[6].c_str(), nullptr, 10);
      std::string mut = enc ? "none" : t[7];
      size_t pos = enc ? 0 : strtoul(t[8].c_str(), nullptr, 10);
      int f = atoi(t[enc ? 7 : 9].c_str());
      size_t aadn = Total(t[3]), inn = Total(t[4]);
      Bytes nonce12 = Pattern(nid, 12), nonce = nonce12;
      nonce.resize(nl, 0x77);
      Bytes aad = Pattern(id + 1000003, aadn);
      size_t ptn = enc ? inn : (inn >= 16 ? inn - 16 : 0);
      Bytes pt = Clean(id + told::Salt(), ptn), refct;
      told::Secret("data", pt);
      if (c) refct = ref::Seal(suite, key, nonce12, aad, pt);
      Segs a, in;
      Bytes ct = refct, useaad = aad;
      ct.resize(enc ? ct.size() : inn, 0x11);
      if (mut == "ct" && ptn) ct[pos % ptn] ^= 1 << (pos % 8);
      if (mut == "tag" && ct.size() >= 16) ct[ptn + pos % 16] ^= 1 << (pos % 8);
      if (mut == "aad" && aadn) useaad[pos % aadn] ^= 1 << (pos % 8);
      if (mut == "nonce" && nl) nonce[pos % nl] ^= 1 << (pos % 8);
      Cut(t[3], useaad, &a);
      Cut(t[4], enc ? pt : ct, &in);
      Exact out(cap, kFill);
      bool ok = false;
      size_t written = 0;
      int calls = 0;
      if (c) {
        fault::Arm(f);
        auto r = enc ? c->Encrypt(nonce, a.v, in.v, {out.p.get(), cap}) : c->Decrypt(nonce, a.v, in.v, {out.p.get(), cap});
        calls = fault::Disarm();
        ok = r.GetStatus().ok();
        told::Say(std::string(r.GetStatus().message()));
        written = r.GetBytesWritten();
      }
      Bytes o = out.bytes();
      size_t w = written < cap ? written : cap;
      bool tail = true;
      for (size_t i = w; i < cap; i++) if (o[i] != kFill) tail = false;
      int leak = 0;
      if (!enc && !ok && c && ptn) {
        Bytes ks = ref::KeyStream(suite, key, [&] { Bytes n = nonce; n.resize(12, 0); return n; }(), ptn);
        for (size_t i = 0; i < ptn && i < cap; i++)
          if (o[i] != 0 && o[i] != kFill && (o[i] == (uint8_t)(ks[i] ^ ct[i]) || o[i] == pt[i])) leak++;
      }
      bool changed = false;  // inputs must not be modified
      { Bytes now; for (auto& b : in.bufs) { Bytes x = b->bytes(); now.insert(now.end(), x.begin(), x.end()); } changed = now != in.all;
        Bytes na; for (auto& b : a.bufs) { Bytes x = b->bytes(); na.insert(na.end(), x.begin(), x.end()); } changed = changed || na != a.all; }
      bool mutated = (mut == "ct" && ptn) || (mut == "tag" && ct.size() >= 16) || (mut == "aad" && aadn) || (mut == "nonce" && nl);
      j.boolean("have", c != nullptr).num("nl", nl).boolean("null", a.null || in.null).num("in", inn).num("cap", cap)
          .boolean("mut", mutated).boolean("ok", ok).num("w", written <= 0x3fffffff ? (long long)written : -2)
          .str("dig", Dig(o.data(), w)).str("ref", enc ? Dig(refct) : Dig(pt)).boolean("tail", tail).num("leak", leak)
          .boolean("changed", changed).boolean("fired", fault::Fired()).num("calls", calls);
    }
    d.emit(j);
  }
}
