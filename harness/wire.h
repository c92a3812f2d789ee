// A small protocol buffer wire format reader and writer, independent of the
// library the code under test uses.
#ifndef HARNESS_WIRE_H_
#define HARNESS_WIRE_H_
#include "common.h"
namespace wire {
struct Field { uint32_t num; int wt; uint64_t v; std::string b; };
inline void PutVarint(std::string* o, uint64_t v) {
  while (v >= 0x80) { o->push_back((char)(v | 0x80)); v >>= 7; }
  o->push_back((char)v);
}
inline void PutInt(std::string* o, uint32_t num, uint64_t v, bool always = false) {
  if (v == 0 && !always) return;
  PutVarint(o, num << 3);
  PutVarint(o, v);
}
inline void PutBytes(std::string* o, uint32_t num, const std::string& b, bool always = false) {
  if (b.empty() && !always) return;
  PutVarint(o, num << 3 | 2);
  PutVarint(o, b.size());
  o->append(b);
}
inline bool Varint(const std::string& s, size_t* p, uint64_t* v) {
  *v = 0;
  for (int i = 0; i < 10; i++) {
    if (*p >= s.size()) return false;
    uint8_t c = s[(*p)++];
    *v |= (uint64_t)(c & 0x7f) << (7 * i);
    if (!(c & 0x80)) return true;
  }
  return false;
}
// set when a parse stopped at a group or an invalid field number
inline bool& Odd() { static bool odd; return odd; }
inline bool Parse(const std::string& s, std::vector<Field>* out) {
  size_t p = 0;
  while (p < s.size()) {
    uint64_t tag, v;
    if (!Varint(s, &p, &tag)) return false;
    Field f{(uint32_t)(tag >> 3), (int)(tag & 7), 0, ""};
    if (f.num == 0) { Odd() = true; return false; }
    if (f.wt == 0) { if (!Varint(s, &p, &f.v)) return false; }
    else if (f.wt == 1) { if (s.size() - p < 8) return false; memcpy(&f.v, &s[p], 8); p += 8; }
    else if (f.wt == 5) { if (s.size() - p < 4) return false; uint32_t x; memcpy(&x, &s[p], 4); f.v = x; p += 4; }
    else if (f.wt == 2) { if (!Varint(s, &p, &v) || v > s.size() - p) return false; f.b = s.substr(p, v); p += v; }
    else { Odd() = true; return false; }
    out->push_back(f);
  }
  return true;
}
// "s:HEX" spiffe id, "h:HEX" hostname, "u:HEX" uid, "n:" no identity.
inline std::string IdMsg(const std::string& id) {
  std::string o, txt = id.size() > 2 ? UnhexS(id.substr(2)) : "";
  if (id[0] == 's') PutBytes(&o, 1, txt, true);
  if (id[0] == 'h') PutBytes(&o, 2, txt, true);
  if (id[0] == 'u') PutBytes(&o, 4, txt, true);
  return o;
}
inline std::string IdOf(const std::string& msg, bool* wf) {
  std::vector<Field> fs;
  if (!Parse(msg, &fs)) { *wf = false; return "n:"; }
  std::string r = "n:";
  for (auto& f : fs) {
    if (f.wt != 2 || (f.num != 1 && f.num != 2 && f.num != 4)) { *wf = false; continue; }
    if (r != "n:") *wf = false;
    r = std::string(f.num == 1 ? "s" : f.num == 2 ? "h" : "u") + ":" + Hex(f.b);
  }
  return r;
}
}  // namespace wire
#endif
