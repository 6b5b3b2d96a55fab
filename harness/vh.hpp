// Harness runtime: deterministic case generation, event counting, violation
// recording.  Every case is a pure function of (seed, harness mode, index).
#pragma once
#include <cinttypes>
#include <climits>
#include <cmath>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <unordered_set>
#include <vector>

namespace vh {
using Bytes = std::vector<uint8_t>;

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed) : s(seed) {}
  uint64_t u64() {
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  uint32_t u32() { return (uint32_t)(u64() >> 32); }
  uint32_t below(uint32_t n) { return n ? (uint32_t)(((u64() >> 32) * (uint64_t)n) >> 32) : 0; }
  int64_t range(int64_t lo, int64_t hi) { return lo + (int64_t)(u64() % (uint64_t)(hi - lo + 1)); }
  bool chance(uint32_t num, uint32_t den) { return below(den) < num; }
  double unit() { return (double)(u64() >> 11) * (1.0 / 9007199254740992.0); }
  double uniform(double a, double b) { return a + (b - a) * unit(); }
  // n random bits with a bias towards boundary patterns
  uint64_t bits(int n) {
    if (n <= 0) return 0;
    uint64_t m = n >= 64 ? ~0ull : ((1ull << n) - 1);
    switch (below(10)) {
      case 0: return 0;
      case 1: return m;
      case 2: return 1ull << (n - 1);
      case 3: return m >> 1;
      case 4: return below(4) & m;
      case 5: return (m - below(4)) & m;
      case 6: return (1ull << below((uint32_t)n)) & m;
      default: return u64() & m;
    }
  }
  template <class T> const T &pick(const std::vector<T> &v) { return v[below((uint32_t)v.size())]; }
  double dbl() {  // hostile double
    switch (below(14)) {
      case 0: return 0.0;
      case 1: return -0.0;
      case 2: return NAN;
      case 3: return INFINITY;
      case 4: return -INFINITY;
      case 5: return 1e300 * (below(2) ? 1 : -1);
      case 6: return uniform(-1e10, 1e10);
      case 7: return uniform(-1e5, 1e5);
      case 8: return (double)(int32_t)bits(32);
      case 9: return (double)(int64_t)bits(64);
      case 10: { uint64_t b = u64(); double d; memcpy(&d, &b, 8); return d; }
      case 11: return uniform(-1, 1) * 1e-300;
      default: return uniform(-400, 400);
    }
  }
  float flt() { double d = dbl(); return (float)d; }
  Bytes bytes(size_t n) { Bytes b(n); for (auto &x : b) x = (uint8_t)u64(); return b; }
};

// ---- run-wide state (one harness process = one shard)
void ev(const char *name, uint64_t n = 1);       // count a monitored event
void evs(const std::string &name, uint64_t n = 1);
void distinct(uint64_t h);                        // a distinct observed behaviour
void distinct(const void *p, size_t n);
void nontrivial();                                // this case exercised the property
void sample(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
void violate(const std::string &key, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
bool violated();                                  // in the current case
void digest(const void *p, size_t n);             // contributes to the per-case output digest
template <class T> void digest_v(const T &v) { digest(&v, sizeof v); }
int fill(Rng &r);                                 // initial contents of memory handed to the code
int fill(int base);
void forked();                                    // in a child process: record nothing here
void die();                                       // before ending this process by hand
bool paired();                                    // one of two cases running together or compared
const std::string &mode();
bool thorough();
bool verbose();
uint64_t seed();
uint64_t fnv(const void *p, size_t n, uint64_t h = 1469598103934665603ull);
std::string hex(const uint8_t *p, size_t n, size_t max = 64);
inline std::string hex(const Bytes &b, size_t max = 64) { return hex(b.data(), b.size(), max); }
std::string fmt(const char *f, ...) __attribute__((format(printf, 1, 2)));
std::string repo();                               // path of the tree under test
Bytes slurp(const std::string &path);
// deterministic scan of seed corpora in the repository (test data files)
std::vector<std::string> list_files(const std::string &dir, const std::string &suffix);

#define VH_CHECK(cond, key, ...) do { if (!(cond)) vh::violate(key, __VA_ARGS__); } while (0)

// ---- byte building
struct W {
  Bytes b;
  void u8(uint32_t v) { b.push_back((uint8_t)v); }
  void u16(uint32_t v) { u8(v); u8(v >> 8); }
  void u32(uint32_t v) { u16(v); u16(v >> 16); }
  void u64(uint64_t v) { u32((uint32_t)v); u32((uint32_t)(v >> 32)); }
  void f32(float f) { uint32_t v; memcpy(&v, &f, 4); u32(v); }
  void f64(double f) { uint64_t v; memcpy(&v, &f, 8); u64(v); }
  void raw(const Bytes &x) { b.insert(b.end(), x.begin(), x.end()); }
};
inline uint16_t rd16(const uint8_t *p) { return (uint16_t)(p[0] | p[1] << 8); }
inline uint32_t rd32(const uint8_t *p) { return (uint32_t)p[0] | (uint32_t)p[1] << 8 | (uint32_t)p[2] << 16 | (uint32_t)p[3] << 24; }
inline uint64_t rd64(const uint8_t *p) { return (uint64_t)rd32(p) | (uint64_t)rd32(p + 4) << 32; }
inline float rdf(const uint8_t *p) { uint32_t v = rd32(p); float f; memcpy(&f, &v, 4); return f; }
inline double rdd(const uint8_t *p) { uint64_t v = rd64(p); double f; memcpy(&f, &v, 8); return f; }

// MSB-first bit strings (RTCM)
struct BitW {
  Bytes b; size_t n = 0;
  void put(uint64_t v, int len) {
    for (int i = len - 1; i >= 0; i--) {
      if (n / 8 >= b.size()) b.push_back(0);
      if (v >> i & 1) b[n / 8] |= (uint8_t)(0x80 >> (n % 8));
      n++;
    }
  }
  void puts(int64_t v, int len) { put((uint64_t)v, len); }
};
struct BitR {
  const uint8_t *p; size_t nbits; size_t pos = 0; bool over = false;
  BitR(const uint8_t *p_, size_t nbytes) : p(p_), nbits(nbytes * 8) {}
  uint64_t get(int len) {
    uint64_t v = 0;
    for (int i = 0; i < len; i++) {
      unsigned bit = 0;
      if (pos < nbits) bit = (p[pos / 8] >> (7 - pos % 8)) & 1; else over = true;
      pos++; v = v << 1 | bit;
    }
    return v;
  }
  int64_t gets(int len) { uint64_t v = get(len); if (len < 64 && len > 0 && (v >> (len - 1) & 1)) v |= ~0ull << len; return (int64_t)v; }
  int64_t getsm(int len) { uint64_t s = get(1); int64_t m = (int64_t)get(len - 1); return s ? -m : m; }
};

uint32_t crc24q_ref(const uint8_t *p, size_t n, uint32_t crc = 0);
uint16_t crc16_ccitt_ref(const uint8_t *p, size_t n, uint16_t crc = 0);
uint32_t crc32_nov_ref(const uint8_t *p, size_t n);

struct SbpFrame { uint16_t type, sender; Bytes payload; };
// Strict split of a byte stream that must consist of valid SBP frames only.
// Returns false (and sets err) when it does not.
bool sbp_split(const Bytes &in, std::vector<SbpFrame> &out, std::string &err);
Bytes sbp_frame(uint16_t type, uint16_t sender, const Bytes &payload);
Bytes rtcm_frame(const Bytes &payload);

// A reader delivering a byte string in scripted chunk sizes.
struct Feed {
  Bytes data; size_t pos = 0; uint64_t calls = 0;
  int mode = 0; Rng rng{0};
  // mode 0: as much as asked; 1: one byte at a time; 2: random sizes; 3: fixed k
  uint32_t k = 1;
  size_t next(size_t want) {
    calls++;
    size_t left = data.size() - pos;
    if (want > left) want = left;
    size_t n = want;
    if (want) {
      if (mode == 1) n = 1;
      else if (mode == 2) n = 1 + rng.below((uint32_t)want);
      else if (mode == 3 && n > k) n = k;
    }
    return n;
  }
};
inline int32_t feed_read(uint8_t *buf, uint32_t want, void *ctx) {
  Feed *f = (Feed *)ctx;
  size_t n = f->next(want);
  if (n) memcpy(buf, f->data.data() + f->pos, n);
  f->pos += n;
  return (int32_t)n;
}
}  // namespace vh

// supplied by each harness
void vh_setup();
void vh_case(vh::Rng &r, uint64_t index);
