// Shared by all drivers: script reading, event writing, byte patterns.
// A driver reads a script (one operation per line, space separated tokens) and
// writes exactly one event (one JSON object per line) per script line, flushed,
// so that after a crash the operation in progress is known.
#ifndef HARNESS_COMMON_H_
#define HARNESS_COMMON_H_
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <sstream>
#include <string>
#include <vector>

typedef std::vector<uint8_t> Bytes;

struct Json {
  std::string s;
  bool first = true;
  Json() : s("{") {}
  void key(const char* k) {
    if (!first) s += ',';
    first = false;
    s += '"'; s += k; s += "\":";
  }
  static std::string quote(const std::string& v) {
    std::string o = "\"";
    char b[8];
    for (unsigned char c : v) {
      if (c == '"' || c == '\\') { o += '\\'; o += c; }
      else if (c < 0x20 || c >= 0x7f) { snprintf(b, sizeof b, "\\u%04x", c); o += b; }
      else o += c;
    }
    return o + "\"";
  }
  Json& str(const char* k, const std::string& v) { key(k); s += quote(v); return *this; }
  Json& num(const char* k, long long v) { key(k); s += std::to_string(v); return *this; }
  Json& boolean(const char* k, bool v) { key(k); s += v ? "true" : "false"; return *this; }
  Json& raw(const char* k, const std::string& v) { key(k); s += v; return *this; }
  std::string done() const { return s + "}"; }
};

// Canonical run-length form of bytes: [[byte,count],...].
inline std::string Runs(const uint8_t* p, size_t n) {
  std::string o = "[";
  size_t i = 0;
  while (i < n) {
    size_t j = i;
    while (j < n && p[j] == p[i]) j++;
    if (o.size() > 1) o += ',';
    o += "[" + std::to_string(p[i]) + "," + std::to_string(j - i) + "]";
    i = j;
  }
  return o + "]";
}
inline std::string Runs(const Bytes& b) { return Runs(b.data(), b.size()); }

inline std::string Hex(const uint8_t* p, size_t n) {
  static const char* d = "0123456789abcdef";
  std::string o;
  for (size_t i = 0; i < n; i++) { o += d[p[i] >> 4]; o += d[p[i] & 15]; }
  return o;
}
inline std::string Hex(const Bytes& b) { return Hex(b.data(), b.size()); }
inline std::string Hex(const std::string& b) { return Hex((const uint8_t*)b.data(), b.size()); }
inline Bytes Unhex(const std::string& h) {
  Bytes o;
  if (h == "-") return o;
  for (size_t i = 0; i + 1 < h.size(); i += 2) o.push_back((uint8_t)strtol(h.substr(i, 2).c_str(), nullptr, 16));
  return o;
}
inline std::string UnhexS(const std::string& h) { Bytes b = Unhex(h); return std::string(b.begin(), b.end()); }

// "4x1,0x2,170x3" -> bytes; "-" is the empty string.
// BYTExCOUNT,... ; sIDxCOUNT: COUNT secret bytes (none is zero)
namespace told { inline uint64_t& Salt(); }
inline Bytes Pattern(uint64_t id, size_t n);
inline Bytes ParseRuns(const std::string& t) {
  Bytes o;
  if (t == "-") return o;
  std::stringstream ss(t);
  std::string it;
  while (std::getline(ss, it, ',')) {
    unsigned b = 0, n = 1;
    if (it[0] == 's') {
      sscanf(it.c_str(), "s%ux%u", &b, &n);
      for (auto x : Pattern(b + 77000 + told::Salt(), n)) o.push_back(x ? x : 1);
      continue;
    }
    if (sscanf(it.c_str(), "%ux%u", &b, &n) < 1) continue;
    o.insert(o.end(), n, (uint8_t)b);
  }
  return o;
}

// 64-bit FNV-1a, in hex: an identity for byte strings.
inline std::string Dig(const uint8_t* p, size_t n) {
  uint64_t h = 1469598103934665603ull, g = 88172645463325252ull;
  for (size_t i = 0; i < n; i++) {
    h = (h ^ p[i]) * 1099511628211ull;
    g = (g + p[i]) * 6364136223846793005ull + 1442695040888963407ull;
  }
  char b[48];
  snprintf(b, sizeof b, "%zu:%016llx%08llx", n, (unsigned long long)h, (unsigned long long)(g >> 32));
  return b;
}
inline std::string Dig(const Bytes& b) { return Dig(b.data(), b.size()); }
inline std::string Dig(const std::string& b) { return Dig((const uint8_t*)b.data(), b.size()); }

// Deterministic pseudo-random bytes.
struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) {}
  uint64_t next() {
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  size_t below(size_t n) { return n ? next() % n : 0; }
};
inline Bytes Pattern(uint64_t id, size_t n) {
  Rng r(id);
  Bytes o(n);
  for (size_t i = 0; i < n; i++) o[i] = (uint8_t)r.next();
  return o;
}

// 64-bit number as four 16-bit limbs, most significant first.
inline std::string Limbs(uint64_t v) {
  char b[64];
  snprintf(b, sizeof b, "[%u,%u,%u,%u]", (unsigned)(v >> 48), (unsigned)(v >> 32) & 0xffff,
           (unsigned)(v >> 16) & 0xffff, (unsigned)v & 0xffff);
  return b;
}

// Fault injection (fault.cc): the k-th wrapped crypto library call (from 0)
// after Arm(k) fails. Disarm() returns the number of calls seen since Arm.
namespace fault {
void Arm(int k);
int Disarm();
bool Fired();
extern void (*g_point)();  // if set, called at every wrapped call
void Clear();              // empties the library's error queue
bool FiredInDerivation();  // an HMAC call was made at or before the failing call
}
// What the library says (log lines, error messages), and the secrets that must
// not be in it. A message tells a secret when eight bytes in a row of it (not
// too uniform) are in the message as they are, escaped, in hexadecimal, as
// numbers or in base64.
namespace told {
inline uint64_t& Salt() { static uint64_t s = 0; return s; }   // changes every secret
inline bool& Recording() { static bool b = false; return b; }
inline bool& InTwin() { static bool b = false; return b; }
inline std::string& Transcript() { static std::string s; return s; }
struct Sec { std::string cls; Bytes b; };
inline std::vector<Sec>& Secrets() { static std::vector<Sec> s; return s; }
inline std::map<std::string, int>& Found() { static std::map<std::string, int> f; return f; }
inline void Forget() { Secrets().clear(); }
inline void Secret(const char* cls, const Bytes& b) {
  if (b.size() < 8 || Recording()) return;
  auto& v = Secrets();
  if (v.size() >= 200) v.erase(v.begin(), v.begin() + 100);
  v.push_back({cls, b});
}
inline void Secret(const char* cls, const std::string& s) { Secret(cls, Bytes(s.begin(), s.end())); }
inline void Views(const std::string& m, std::vector<std::string>* out) {
  out->push_back(m);
  std::string u;   // escapes undone
  for (size_t i = 0; i < m.size(); i++) {
    if (m[i] != '\\' || i + 1 >= m.size()) { u += m[i]; continue; }
    char c = m[i + 1];
    if (c >= '0' && c <= '7') { int v = 0; size_t k = i + 1; while (k < m.size() && k < i + 4 && m[k] >= '0' && m[k] <= '7') v = v * 8 + (m[k++] - '0'); u += (char)v; i = k - 1; }
    else if (c == 'x') { int v = 0; size_t k = i + 2; while (k < m.size() && k < i + 4 && isxdigit((unsigned char)m[k])) v = v * 16 + (int)strtol(std::string(1, m[k++]).c_str(), nullptr, 16); u += (char)v; i = k - 1; }
    else { u += c == 'n' ? '\n' : c == 'r' ? '\r' : c == 't' ? '\t' : c; i++; }
  }
  out->push_back(u);
  // runs of hexadecimal digits, both alignments; and all digits, separators left out
  std::string all, dec;
  for (size_t i = 0; i < m.size();) {
    size_t k = i;
    while (k < m.size() && isxdigit((unsigned char)m[k])) k++;
    std::string run = m.substr(i, k - i);
    for (size_t a = 0; a < 2 && run.size() >= 16 + a; a++) out->push_back(UnhexS(run.substr(a)));
    if (run.size() == 2 || run.size() == 1) all += (char)strtol(run.c_str(), nullptr, 16);
    if (!run.empty() && run.size() <= 3 && run.find_first_not_of("0123456789") == std::string::npos && atoi(run.c_str()) < 256) dec += (char)atoi(run.c_str());
    i = k == i ? i + 1 : k;
  }
  out->push_back(all);
  out->push_back(dec);
  // base64, both alphabets, all alignments
  auto b64 = [](char c) { return c >= 'A' && c <= 'Z' ? c - 'A' : c >= 'a' && c <= 'z' ? c - 'a' + 26 : c >= '0' && c <= '9' ? c - '0' + 52 : c == '+' || c == '-' ? 62 : c == '/' || c == '_' ? 63 : -1; };
  for (size_t i = 0; i < m.size();) {
    size_t k = i;
    while (k < m.size() && b64(m[k]) >= 0) k++;
    for (size_t a = 0; a < 4 && k - i >= 12 + a; a++) {
      std::string o;
      for (size_t x = i + a; x + 4 <= k; x += 4) {
        unsigned v = b64(m[x]) << 18 | b64(m[x + 1]) << 12 | b64(m[x + 2]) << 6 | b64(m[x + 3]);
        o += (char)(v >> 16); o += (char)(v >> 8); o += (char)v;
      }
      out->push_back(o);
    }
    i = k == i ? i + 1 : k;
  }
}
inline void Say(const std::string& m) {
  if (Recording()) { if (InTwin() && Transcript().size() < 10000000) Transcript() += m + "\n"; return; }
  if (m.size() < 8) return;
  std::vector<std::string> vs;
  Views(m, &vs);
  std::map<std::string, bool> win;
  for (auto& v : vs) for (size_t i = 0; i + 8 <= v.size(); i++) {
    std::string w = v.substr(i, 8);
    unsigned distinct = 0;
    for (size_t a = 0; a < 8; a++) if (w.find(w[a]) == a) distinct++;
    if (distinct >= 5) win[w] = true;
  }
  for (auto& s : Secrets()) for (size_t i = 0; i + 8 <= s.b.size() && i < 20000; i++)
    if (win.count(std::string((const char*)&s.b[i], 8))) { Found()[s.cls]++; break; }
}
}  // namespace told

// Bytes the library holds (fault.cc): allocated between fault::Arm and Disarm
// (or inside a Lib scope) since Start.
namespace mem {
void Start();
long Held();
long Total();
extern thread_local int g_lib;
}
struct Lib { Lib() { mem::g_lib++; } ~Lib() { mem::g_lib--; } };

typedef std::vector<std::string> Toks;
// Besides the operations of the driver a script may end a segment with
//   loop N      the whole segment again, N times      (event: memory after each)
//   cycle K N   its last K operations again, N times  (memory the library holds)
//   twin        the segment twice more, and once with other secrets: what was said
// "burst N COMMAND": the command N times. Reported as one event: the first
// event, the number of events after it that are the same except that the
// sequence number (or the key generation) is the next one, and the first event
// that is not (dev: there is one).
struct Burst {
  std::string first, shape, dev;
  std::vector<long long> at;   // generation and sequence number, for each record
  size_t n = 0;
  bool started = false;
  static std::string Shape(const std::string& j, std::vector<long long>* at) {
    std::string o;
    o.reserve(j.size());
    size_t i = 0;
    auto is = [&](const char* k) { size_t l = strlen(k); return j.compare(i, l, k) == 0 ? l : (size_t)0; };
    while (i < j.size()) {
      size_t l = 0;
      if (j[i] != '"') { o += j[i++]; continue; }
      if ((l = is("\"fs\":[")) || (l = is("\"rs\":["))) {
        unsigned long long v = 0;
        i += l;
        while (j[i] != ']') { unsigned long long x = 0; while (isdigit((unsigned char)j[i])) x = x * 10 + (j[i++] - '0'); v = v << 16 | x; if (j[i] == ',') i++; }
        at->push_back((long long)v);
      } else if ((l = is("\"fe\":")) || (l = is("\"re\":"))) {
        i += l;
        at->push_back(atoll(j.c_str() + i));
        while (isdigit((unsigned char)j[i])) i++;
      } else if ((l = is("\"calls\":"))) {
        i += l;
        while (isdigit((unsigned char)j[i])) i++;
      } else o += j[i++];
    }
    return o;
  }
  bool Add(const Json& j, bool last) {   // whether to go on
    std::vector<long long> a;
    std::string f = j.done(), s = Shape(f, &a);
    if (!started) { started = true; first = f; shape = s; at = a; return f.find("\"ok\":true") != std::string::npos && !last; }
    bool same = s == shape && a.size() == at.size(), seq = same, gen = same;
    for (size_t i = 0; same && i + 1 < a.size(); i += 2) {
      if (a[i] != at[i] || a[i + 1] - at[i + 1] != (long long)a.size() / 2 || (uint64_t)a[i + 1] < (uint64_t)at[i + 1]) seq = false;
      if (a[i] != at[i] + 1 || (a[i + 1] != at[i + 1] && a[i + 1] != 0)) gen = false;
    }
    if (!seq && !gen) { dev = f; return false; }
    at = a;
    n++;
    return !last;
  }
  Json Event() const {
    Json j;
    j.str("op", "burst").raw("first", first).num("n", n).boolean("dev", !dev.empty()).raw("last", dev.empty() ? first : dev);
    return j;
  }
};
struct Driver {
  FILE* out = stdout;
  std::ifstream in;
  std::vector<std::string> seg, said;
  std::vector<long> levels;
  std::string what;       // loop, cycle, twin or empty
  size_t from = 0, idx = 0;
  int left = 0;
  Driver(int argc, char** argv) {
    if (argc < 3) { fprintf(stderr, "usage: driver SCRIPT OUT\n"); exit(2); }
    in.open(argv[1]);
    out = fopen(argv[2], "a");
    if (!in || !out) { fprintf(stderr, "cannot open\n"); exit(2); }
  }
  void parse(const std::string& line, Toks* t) {
    t->clear();
    std::stringstream ss(line);
    std::string w;
    while (ss >> w) t->push_back(w);
  }
  void put(const Json& j) {
    fputs((j.done() + "\n").c_str(), out);
    fflush(out);
  }
  void pass() {   // before a pass
    idx = from;
    fault::Clear();
    if (what == "twin") { told::Transcript().clear(); told::Salt() = left == 1 ? 0x5eedf00d : 0; }
  }
  bool next(Toks* t) {
    if (!what.empty() && idx == seg.size()) {
      t->clear();
      if (what == "twin") said.push_back(told::Transcript());
      else { fault::Clear(); levels.push_back(what == "loop" ? mem::Total() : mem::Held()); }
      if (--left > 0) pass();
      else {
        Json j;
        if (what == "twin") {
          j.str("op", "twin").boolean("det", said[0] == said[1]).boolean("same", said[0] == said[2]).num("n", said[0].size());
        } else {
          std::string l = "[";
          for (long x : levels) { if (l.size() > 1) l += ','; l += std::to_string(x); }
          j.str("op", "loop").str("kind", what).raw("levels", l + "]");
        }
        what.clear();
        told::Recording() = false;
        told::Salt() = 0;
        put(j);
      }
    }
    if (!what.empty()) { parse(seg[idx++], t); return true; }
    std::string line;
    if (!std::getline(in, line)) return false;
    parse(line, t);
    if ((*t)[0] == "loop" || (*t)[0] == "cycle" || (*t)[0] == "twin") {
      what = (*t)[0];
      left = what == "loop" ? atoi((*t)[1].c_str()) : what == "cycle" ? atoi((*t)[2].c_str()) : 3;
      from = what == "cycle" ? seg.size() - std::min<size_t>(seg.size(), atoi((*t)[1].c_str())) : 0;
      if (seg.empty() || left < 1) { what.clear(); put(Json().str("op", "loop").str("kind", "none").raw("levels", "[]")); return next(t); }
      levels.clear(); said.clear();
      levels.reserve(left + 1);
      told::Recording() = true;
      told::InTwin() = what == "twin";
      if (what == "cycle") mem::Start();
      pass();
      parse(seg[idx++], t);
      return true;
    }
    if ((*t)[0] == "reset") { seg.clear(); told::Forget(); }
    seg.push_back(line);
    return true;
  }
  void emit(const Json& j) {
    if (!what.empty()) return;
    if (told::Found().empty()) { put(j); return; }
    Json k = j;
    std::string s = "[";
    for (auto& x : told::Found()) { if (s.size() > 1) s += ','; s += Json::quote(x.first); }
    told::Found().clear();
    put(k.raw("told", s + "]"));
  }
};

// Heap buffer of the exact size, so that the address sanitizer sees any
// access outside.
struct Exact {
  std::unique_ptr<uint8_t[]> p;
  size_t n;
  explicit Exact(const Bytes& b) : p(new uint8_t[b.size()]), n(b.size()) { if (n) memcpy(p.get(), b.data(), n); }
  Exact(size_t len, uint8_t fill) : p(new uint8_t[len]), n(len) { if (n) memset(p.get(), fill, n); }
  Bytes bytes() const { return Bytes(p.get(), p.get() + n); }
};

#endif
