// Independent reference: HKDF-Expand (RFC 5869) from one-shot HMAC, TLS 1.3 key
// schedule (RFC 8446, 7.1-7.3), one-shot AEAD on contiguous buffers.
#ifndef HARNESS_REF_H_
#define HARNESS_REF_H_
#include <openssl/evp.h>
#include <openssl/hmac.h>
#ifdef OPENSSL_IS_BORINGSSL
#include <openssl/aead.h>
#endif
#include "common.h"
namespace ref {
enum Suite { AES128 = 0, AES256 = 1, CHACHA = 2 };
inline size_t HashLen(int suite) { return suite == AES256 ? 48 : 32; }
inline size_t KeyLen(int suite) { return suite == AES128 ? 16 : 32; }
inline const EVP_MD* Md(size_t hl) { return hl == 48 ? EVP_sha384() : EVP_sha256(); }

inline Bytes Hmac(size_t hl, const Bytes& key, const Bytes& data) {
  Bytes o(hl);
  unsigned n = 0;
  static const uint8_t z = 0;
  HMAC(Md(hl), key.empty() ? &z : key.data(), key.size(), data.empty() ? &z : data.data(), data.size(), o.data(), &n);
  return o;
}
// T(i) = HMAC(prk, T(i-1) | info | i)
inline Bytes Expand(size_t hl, const Bytes& prk, const Bytes& info, size_t len) {
  Bytes out, t;
  for (int i = 1; out.size() < len; i++) {
    Bytes d = t;
    d.insert(d.end(), info.begin(), info.end());
    d.push_back((uint8_t)i);
    t = Hmac(hl, prk, d);
    out.insert(out.end(), t.begin(), t.end());
  }
  out.resize(len);
  return out;
}
inline Bytes ExpandLabel(size_t hl, const Bytes& secret, const std::string& label, size_t len) {
  std::string full = "tls13 " + label;
  Bytes info = {(uint8_t)(len >> 8), (uint8_t)len, (uint8_t)full.size()};
  info.insert(info.end(), full.begin(), full.end());
  info.push_back(0);
  return Expand(hl, secret, info, len);
}
// AEAD on contiguous buffers. Seal appends the 16 byte tag.
inline Bytes Seal(int suite, const Bytes& key, const Bytes& nonce, const Bytes& aad, const Bytes& pt) {
  Bytes out(pt.size() + 16);
  static uint8_t z;
#ifdef OPENSSL_IS_BORINGSSL
  const EVP_AEAD* a = suite == AES128 ? EVP_aead_aes_128_gcm() : suite == AES256 ? EVP_aead_aes_256_gcm() : EVP_aead_chacha20_poly1305();
  EVP_AEAD_CTX* c = EVP_AEAD_CTX_new(a, key.data(), key.size(), 16);
  size_t n = 0;
  if (!c || !EVP_AEAD_CTX_seal(c, out.data(), &n, out.size(), nonce.data(), nonce.size(), pt.empty() ? &z : pt.data(), pt.size(), aad.empty() ? &z : aad.data(), aad.size())) abort();
  EVP_AEAD_CTX_free(c);
#else
  const EVP_CIPHER* ci = suite == AES128 ? EVP_aes_128_gcm() : suite == AES256 ? EVP_aes_256_gcm() : EVP_chacha20_poly1305();
  EVP_CIPHER_CTX* c = EVP_CIPHER_CTX_new();
  int n = 0, m = 0;
  bool ok = EVP_EncryptInit_ex(c, ci, nullptr, key.data(), nonce.data()) &&
            (aad.empty() || EVP_EncryptUpdate(c, nullptr, &n, aad.data(), aad.size())) &&
            (pt.empty() || EVP_EncryptUpdate(c, out.data(), &m, pt.data(), pt.size())) &&
            EVP_EncryptFinal_ex(c, &z, &n) && EVP_CIPHER_CTX_ctrl(c, EVP_CTRL_AEAD_GET_TAG, 16, out.data() + pt.size());
  EVP_CIPHER_CTX_free(c);
  if (!ok) abort();
#endif
  return out;
}
// Open via Seal: encryption is XOR with a key stream, so open needs no second
// primitive: recover the plaintext with the key stream, then compare the tag.
inline Bytes KeyStream(int suite, const Bytes& key, const Bytes& nonce, size_t n) {
  Bytes s = Seal(suite, key, nonce, Bytes(), Bytes(n, 0));
  s.resize(n);
  return s;
}
inline bool Open(int suite, const Bytes& key, const Bytes& nonce, const Bytes& aad, const Bytes& ct, Bytes* pt) {
  if (ct.size() < 16) return false;
  size_t n = ct.size() - 16;
  Bytes p = KeyStream(suite, key, nonce, n);
  for (size_t i = 0; i < n; i++) p[i] ^= ct[i];
  if (Seal(suite, key, nonce, aad, p) != ct) return false;
  *pt = p;
  return true;
}
// One direction of a TLS 1.3 connection: key generations of a traffic secret.
struct Direction {
  int suite = 0;
  std::vector<Bytes> secrets, keys, ivs;
  void Init(int s, const Bytes& secret) {
    suite = s;
    secrets = {secret};
    keys.clear(); ivs.clear();
  }
  void Reach(size_t e) {
    size_t hl = HashLen(suite);
    while (secrets.size() <= e) secrets.push_back(ExpandLabel(hl, secrets.back(), "traffic upd", hl));
    while (keys.size() <= e) {
      size_t i = keys.size();
      keys.push_back(ExpandLabel(hl, secrets[i], "key", KeyLen(suite)));
      ivs.push_back(ExpandLabel(hl, secrets[i], "iv", 12));
    }
  }
  Bytes Nonce(size_t e, uint64_t seq) {
    Reach(e);
    Bytes n = ivs[e];
    for (int i = 0; i < 8; i++) n[4 + i] ^= (uint8_t)(seq >> (56 - 8 * i));
    return n;
  }
  // A record: content, inner type, zeros of padding; type < 0: no type byte.
  Bytes Record(size_t e, uint64_t seq, const Bytes& content, int type, size_t padding) {
    Bytes inner = content;
    if (type >= 0) inner.push_back((uint8_t)type);
    inner.insert(inner.end(), padding, 0);
    size_t len = inner.size() + 16;
    Bytes hdr = {0x17, 0x03, 0x03, (uint8_t)(len >> 8), (uint8_t)len};
    Bytes n = Nonce(e, seq);
    Bytes body = Seal(suite, keys[e], n, hdr, inner);
    hdr.insert(hdr.end(), body.begin(), body.end());
    return hdr;
  }
  bool OpenRecord(size_t e, uint64_t seq, const Bytes& rec, Bytes* inner) {
    if (rec.size() < 5 + 16) return false;
    Bytes n = Nonce(e, seq);
    return Open(suite, keys[e], n, Bytes(rec.begin(), rec.begin() + 5), Bytes(rec.begin() + 5, rec.end()), inner);
  }
};
}  // namespace ref
#endif
