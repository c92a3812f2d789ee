// Drives HkdfDeriveSecret. Script:
//   reset
//   hash SUITE NULL       CiphersuiteToHashFunction; NULL 1: no place for the result
//   derive HASH PRKLEN PRKID INFOLEN INFOID OUTLEN ALIAS FAULT
// HASH: 0 SHA-256, 1 SHA-384, other: cast to the enum. ALIAS: 0 separate
// output, 1 output is the prk vector itself, 2 output is the info vector.
#include "ref.h"
#include "src/crypto/hkdf.h"
#include "src/record_protocol/s2a_crypter_util.h"
int main(int argc, char** argv) {
  Driver d(argc, argv);
  Toks t;
  while (d.next(&t)) {
    Json j;
    j.str("op", t[0]);
    if (t[0] == "derive") {
      int h = atoi(t[1].c_str());
      size_t pl = strtoul(t[2].c_str(), 0, 10), il = strtoul(t[4].c_str(), 0, 10), ol = strtoul(t[6].c_str(), 0, 10);
      Bytes prk = Pattern(strtoull(t[3].c_str(), 0, 10) + told::Salt(), pl), info = Pattern(strtoull(t[5].c_str(), 0, 10), il);
      int alias = atoi(t[7].c_str()), f = atoi(t[8].c_str());
      if (alias == 1) ol = pl;
      if (alias == 2) ol = il;
      size_t hl = h == 1 ? 48 : 32;
      Bytes want;
      if (ol <= 255 * hl) want = ref::Expand(hl, prk, info, ol);
      told::Secret("key", prk);
      told::Secret("key", want);
      Bytes sep(ol, 0x33), p0 = prk, i0 = info;
      Bytes& out = alias == 1 ? prk : alias == 2 ? info : sep;
      fault::Arm(f);
      absl::Status s = s2a::hkdf::HkdfDeriveSecret(static_cast<s2a::hkdf::HashFunction>(h), prk, info, out);
      int calls = fault::Disarm();
      told::Say(std::string(s.message()));
      bool inputs = (alias == 1 || prk == p0) && (alias == 2 || info == i0);
      j.num("h", h).num("pl", pl).num("il", il).num("ol", ol).num("alias", alias).boolean("ok", s.ok()).num("n", out.size())
          .str("dig", Dig(out)).str("ref", Dig(want)).boolean("inputs", inputs).boolean("fired", fault::Fired()).num("calls", calls);
    }
    if (t[0] == "hash") {
      typedef s2a::s2a_options::S2AOptions::Ciphersuite C;
      int v = atoi(t[1].c_str());
      C c = v == 0 ? C::AES_128_GCM_SHA256 : v == 1 ? C::AES_256_GCM_SHA384 : v == 2 ? C::CHACHA20_POLY1305_SHA256 : static_cast<C>(v);
      s2a::hkdf::HashFunction h = static_cast<s2a::hkdf::HashFunction>(77);
      absl::Status s = s2a::CiphersuiteToHashFunction(c, t[2] == "1" ? nullptr : &h);
      told::Say(std::string(s.message()));
      j.num("v", v).boolean("null", t[2] == "1").boolean("ok", s.ok())
          .num("h", h == s2a::hkdf::HashFunction::SHA256_hash_function ? 256 : h == s2a::hkdf::HashFunction::SHA384_hash_function ? 384 : 0);
    }
    d.emit(j);
  }
}
