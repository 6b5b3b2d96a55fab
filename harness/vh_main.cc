#include "vh.hpp"
#include <algorithm>
#include <condition_variable>
#include <dirent.h>
#include <malloc.h>
#include <mutex>
#include <thread>
#include <fcntl.h>
#include <sys/mman.h>
#include <unistd.h>

extern "C" void __sanitizer_set_death_callback(void (*cb)(void)) __attribute__((weak));

#ifdef VH_FLAVOR_tsan
// The destination of librtcm's log is one for the whole process, by its
// interface; librtcm never logs.  Converters register themselves there.
extern "C" const char *__tsan_default_suppressions() { return "race:rtcm_init_logging\n"; }
#endif

namespace {
struct Progress { volatile uint64_t cur, done, beat; };
Progress *g_prog;
FILE *g_out;
// two cases taking turns: the other one runs until it hands over or ends
struct Baton { std::mutex m; std::condition_variable cv; int turn = 0; bool done[2] = {false, false}; uint64_t switches = 0; };
struct State {
  std::map<std::string, uint64_t> ev;
  std::unordered_set<uint64_t> distinct, cases_seen;
  uint64_t case_hash = 0, nontrivial = 0, cases = 0, digest = 0;
  std::vector<std::string> samples;
  bool nt = false, viol = false, mute = false;
  unsigned nviol = 0;
  std::string mode, keys;
  uint32_t salt = 0; Baton *baton = nullptr; bool free_run = false; int me = 0; vh::Rng yr{0}; uint64_t emitted = 0;
};
State g_main;
thread_local State *S = &g_main;
uint64_t g_seed;
bool g_thorough, g_verbose;
std::string g_repo = "/repo";
bool g_want_digest;
void yield_point() {
  if (S->free_run) { if (S->yr.chance(1, 16)) std::this_thread::yield(); return; }
  Baton *b = S->baton;
  if (!b || !S->yr.chance(1, 4)) return;
  std::unique_lock<std::mutex> l(b->m);
  int o = 1 - S->me;
  if (b->done[o]) return;
  b->turn = o; b->switches++; b->cv.notify_all();
  b->cv.wait(l, [&] { return b->turn == S->me || b->done[o]; });
}
std::string esc(const std::string &s) {
  std::string o;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += (char)c; }
    else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
    else o += (char)c;
  }
  return o;
}
void dump_stats() {
  S = &g_main;
  static bool done;
  if (done || !g_out) return;
  done = true;
  fprintf(g_out, "{\"t\":\"stats\",\"cases\":%" PRIu64 ",\"nontrivial\":%" PRIu64 ",\"events\":{", S->cases, S->nontrivial);
  bool first = true;
  for (auto &e : S->ev) { fprintf(g_out, "%s\"%s\":%" PRIu64, first ? "" : ",", esc(e.first).c_str(), e.second); first = false; }
  fprintf(g_out, "},\"distinct\":[");
  first = true;
  size_t k = 0;
  for (auto h : S->distinct) { if (k++ >= 200000) break; fprintf(g_out, "%s\"%" PRIx64 "\"", first ? "" : ",", h); first = false; }
  fprintf(g_out, "],\"casehashes\":[");
  first = true;
  k = 0;
  for (auto h : S->cases_seen) { if (k++ >= 400000) break; fprintf(g_out, "%s\"%" PRIx64 "\"", first ? "" : ",", h); first = false; }
  fprintf(g_out, "],\"samples\":[");
  for (size_t i = 0; i < S->samples.size(); i++) fprintf(g_out, "%s\"%s\"", i ? "," : "", esc(S->samples[i]).c_str());
  fprintf(g_out, "]}\n");
  fflush(g_out);
}
}  // namespace

namespace vh {
void ev(const char *n, uint64_t c) { S->ev[n] += c; yield_point(); }
void evs(const std::string &n, uint64_t c) { S->ev[n] += c; yield_point(); }
void distinct(uint64_t h) { S->case_hash = (S->case_hash ^ h) * 0x9E3779B97F4A7C15ull; S->case_hash ^= S->case_hash >> 29; if (S->distinct.size() < 200000) S->distinct.insert(h); }
uint64_t fnv(const void *p, size_t n, uint64_t h) { const uint8_t *b = (const uint8_t *)p; for (size_t i = 0; i < n; i++) { h ^= b[i]; h *= 1099511628211ull; } return h; }
void distinct(const void *p, size_t n) { distinct(fnv(p, n)); }
void nontrivial() { S->nt = true; }
std::string fmt(const char *f, ...) { char b[4096]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap); return b; }
void sample(const char *f, ...) {
  if (S->samples.size() >= 5) return;
  char b[1024]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap);
  S->samples.push_back(b);
}
void violate(const std::string &key, const char *f, ...) {
  char b[4096]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap);
  S->viol = true;
  if (S->mute) { S->keys += key + ";"; return; }
  if (!g_out) return;
  if (S->nviol++ > 8) return;
  fprintf(g_out, "{\"t\":\"viol\",\"case\":%" PRIu64 ",\"key\":\"%s\",\"msg\":\"%s\"}\n", (uint64_t)g_prog->cur, esc(key).c_str(), esc(b).c_str());
  fflush(g_out);
  if (g_verbose) fprintf(stderr, "violation case %" PRIu64 " key=%s: %s\n", (uint64_t)g_prog->cur, key.c_str(), b);
}
bool violated() { return S->viol; }
void digest(const void *p, size_t n) { S->digest = fnv(p, n, S->digest); S->emitted++; yield_point(); }
int fill(Rng &r) { return (int)((r.below(256) + S->salt) & 255); }
void forked() { g_out = nullptr; S->mute = true; }
void die() { dump_stats(); if (g_out) fflush(g_out); }
bool paired() { return S->mute; }
int fill(int base) { return (int)((base + S->salt) & 255); }
const std::string &mode() { return S->mode; }
bool thorough() { return g_thorough; }
bool verbose() { return g_verbose; }
uint64_t seed() { return g_seed; }
std::string repo() { return g_repo; }
std::string hex(const uint8_t *p, size_t n, size_t max) {
  std::string s; char b[4];
  for (size_t i = 0; i < n && i < max; i++) { snprintf(b, sizeof b, "%02x", p[i]); s += b; }
  if (n > max) s += "...";
  return s;
}
Bytes slurp(const std::string &path) {
  Bytes b; FILE *f = fopen(path.c_str(), "rb");
  if (!f) return b;
  uint8_t buf[65536]; size_t n;
  while ((n = fread(buf, 1, sizeof buf, f)) > 0) b.insert(b.end(), buf, buf + n);
  fclose(f);
  return b;
}
std::vector<std::string> list_files(const std::string &dir, const std::string &suffix) {
  std::vector<std::string> v;
  if (DIR *d = opendir(dir.c_str())) {
    while (dirent *e = readdir(d)) {
      std::string n = e->d_name;
      if (n.size() >= suffix.size() && n.compare(n.size() - suffix.size(), suffix.size(), suffix) == 0) v.push_back(dir + "/" + n);
    }
    closedir(d);
  }
  std::sort(v.begin(), v.end());
  return v;
}
uint32_t crc24q_ref(const uint8_t *p, size_t n, uint32_t crc) {
  for (size_t i = 0; i < n; i++) {
    crc ^= (uint32_t)p[i] << 16;
    for (int k = 0; k < 8; k++) { crc <<= 1; if (crc & 0x1000000) crc ^= 0x1864CFB; }
  }
  return crc & 0xFFFFFF;
}
uint16_t crc16_ccitt_ref(const uint8_t *p, size_t n, uint16_t crc) {
  for (size_t i = 0; i < n; i++) {
    crc = (uint16_t)(crc ^ (p[i] << 8));
    for (int k = 0; k < 8; k++) crc = (uint16_t)((crc & 0x8000) ? (crc << 1) ^ 0x1021 : crc << 1);
  }
  return crc;
}
uint32_t crc32_nov_ref(const uint8_t *p, size_t n) {
  uint32_t crc = 0;
  for (size_t i = 0; i < n; i++) {
    crc ^= p[i];
    for (int k = 0; k < 8; k++) crc = (crc & 1) ? (crc >> 1) ^ 0xEDB88320u : crc >> 1;
  }
  return crc;
}
bool sbp_split(const Bytes &in, std::vector<SbpFrame> &out, std::string &err) {
  size_t i = 0;
  while (i < in.size()) {
    if (in[i] != 0x55) { err = fmt("byte %zu is 0x%02x, not a preamble", i, in[i]); return false; }
    if (i + 6 > in.size()) { err = "truncated header"; return false; }
    size_t len = in[i + 5];
    if (i + 8 + len > in.size()) { err = "truncated frame"; return false; }
    uint16_t crc = crc16_ccitt_ref(&in[i + 1], 5 + len);
    if (crc != rd16(&in[i + 6 + len])) { err = "bad checksum"; return false; }
    SbpFrame f; f.type = rd16(&in[i + 1]); f.sender = rd16(&in[i + 3]);
    f.payload.assign(in.begin() + (long)i + 6, in.begin() + (long)(i + 6 + len));
    out.push_back(f);
    i += 8 + len;
  }
  return true;
}
Bytes sbp_frame(uint16_t type, uint16_t sender, const Bytes &payload) {
  W w; w.u8(0x55); w.u16(type); w.u16(sender); w.u8((uint32_t)payload.size()); w.raw(payload);
  w.u16(crc16_ccitt_ref(&w.b[1], w.b.size() - 1));
  return w.b;
}
Bytes rtcm_frame(const Bytes &p) {
  Bytes b; b.push_back(0xD3); b.push_back((uint8_t)((p.size() >> 8) & 3)); b.push_back((uint8_t)p.size());
  b.insert(b.end(), p.begin(), p.end());
  uint32_t c = crc24q_ref(b.data(), b.size());
  b.push_back((uint8_t)(c >> 16)); b.push_back((uint8_t)(c >> 8)); b.push_back((uint8_t)c);
  return b;
}
}  // namespace vh

namespace {
void fresh_case(State &s) { s.nt = s.viol = false; s.nviol = 0; s.case_hash = 0; s.digest = 1469598103934665603ull; s.keys.clear(); s.emitted = 0; }
struct Sub { std::string mode; uint64_t seed; };
void run_sub(State &s, const Sub &b, uint64_t idx) {
  S = &s; fresh_case(s); s.mode = b.mode; s.mute = true;
  vh::Rng r(b.seed); r.u64(); vh_case(r, idx);
}
// "pair:modeA,modeB,...": two cases alone and then together must give the same outputs
void pair_case(vh::Rng &r, uint64_t idx, const std::vector<std::string> &modes) {
  Sub sub[2]; uint32_t salt[4]; State st[2];
  for (auto &x : sub) { x.mode = r.pick(modes); x.seed = r.u64(); }
  for (auto &x : salt) x = r.below(256);
  bool same = r.chance(1, 8); if (same) sub[1] = sub[0];
#ifdef VH_FLAVOR_tsan
  bool free_run = true;
#else
  bool free_run = r.chance(1, 8);
#endif
  uint64_t yseed = r.u64(); uint64_t alone[2], emitted[2], n[2]; std::string keys[2];
  auto perturb = [](uint32_t salt) {
#if defined(VH_FLAVOR_zero) || defined(VH_FLAVOR_pattern)
    mallopt(M_PERTURB, (int)(1 + salt % 255));
#else
    (void)salt;
#endif
  };
  for (int i = 0; i < 2; i++) { State t; t.salt = salt[i]; perturb(salt[i]); run_sub(t, sub[i], idx); S = &g_main; alone[i] = t.digest; keys[i] = t.keys; emitted[i] = t.emitted; n[i] = t.nt; }
  Baton bt;
  auto body = [&](int i) {
    State &s = st[i]; s.me = i; s.salt = salt[2 + i]; s.free_run = free_run; s.baton = free_run ? nullptr : &bt; s.yr = vh::Rng(yseed + (uint64_t)i);
    if (!free_run) { std::unique_lock<std::mutex> l(bt.m); bt.cv.wait(l, [&] { return bt.turn == i || bt.done[1 - i]; }); }
    run_sub(s, sub[i], idx);
    if (!free_run) { std::unique_lock<std::mutex> l(bt.m); bt.done[i] = true; bt.turn = 1 - i; bt.cv.notify_all(); }
  };
  perturb(salt[2]);
  std::thread a(body, 0), b(body, 1); a.join(); b.join(); S = &g_main;
  for (int i = 0; i < 2; i++) {
    if (st[i].digest != alone[i] || st[i].keys != keys[i]) {
      State t; t.salt = salt[2 + i]; perturb(t.salt); run_sub(t, sub[i], idx); S = &g_main;
      bool mem = t.digest != alone[i];
      vh::violate(mem ? "memory-dependent" : "interference", "%s case seed %" PRIu64 " %s (other: %s seed %" PRIu64 ", %s): %" PRIu64 " outputs alone, %" PRIu64 " now; findings '%.200s' against '%.200s'", sub[i].mode.c_str(), sub[i].seed,
                  mem ? "gives other output with other initial memory contents" : "gives other output than alone", sub[1 - i].mode.c_str(), sub[1 - i].seed, free_run ? "in parallel" : "taking turns", emitted[i], st[i].emitted, st[i].keys.c_str(), keys[i].c_str());
    }
    for (auto &e : st[i].ev) S->ev[e.first] += e.second;
    S->digest = vh::fnv(&st[i].digest, 8, S->digest);
    for (auto h : st[i].distinct) if (S->distinct.size() < 200000) S->distinct.insert(h);
    S->case_hash = vh::fnv(&st[i].digest, 8, S->case_hash);
    S->ev["outputs-compared"] += emitted[i];
  }
  S->ev[free_run ? "parallel-pair" : "interleaved-pair"]++; S->ev["switches"] += bt.switches; if (same) S->ev["same-input-twice"]++;
  if (n[0] && n[1] && (free_run || bt.switches > 1)) S->nt = true;
}
}  // namespace

int main(int argc, char **argv) {
  uint64_t start = 0, end = 1;
  std::string out = "/dev/null", prog, dig;
  g_seed = 1;
  S->mode = "default";
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto val = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
    if (a == "--seed") g_seed = strtoull(val().c_str(), 0, 10);
    else if (a == "--start") start = strtoull(val().c_str(), 0, 10);
    else if (a == "--end") end = strtoull(val().c_str(), 0, 10);
    else if (a == "--out") out = val();
    else if (a == "--progress") prog = val();
    else if (a == "--digest") { dig = val(); g_want_digest = true; }
    else if (a == "--mode") S->mode = val();
    else if (a == "--repo") g_repo = val();
    else if (a == "--thorough") g_thorough = true;
    else if (a == "--verbose") g_verbose = true;
    else { fprintf(stderr, "bad argument %s\n", a.c_str()); return 2; }
  }
  g_out = fopen(out.c_str(), "w");
  if (!g_out) return 2;
  static Progress local;
  g_prog = &local;
  if (!prog.empty()) {
    int fd = open(prog.c_str(), O_RDWR | O_CREAT, 0600);
    if (fd < 0 || ftruncate(fd, sizeof(Progress)) != 0) return 2;
    g_prog = (Progress *)mmap(nullptr, sizeof(Progress), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    if (g_prog == MAP_FAILED) return 2;
  }
  FILE *fd = dig.empty() ? nullptr : fopen(dig.c_str(), "w");
  if (__sanitizer_set_death_callback) __sanitizer_set_death_callback(dump_stats);
  g_prog->cur = start;
  std::vector<std::string> pair;
  if (S->mode.compare(0, 5, "pair:") == 0) {
    std::string m = S->mode.substr(5) + ",";
    for (size_t p = 0, q; (q = m.find(',', p)) != std::string::npos; p = q + 1) pair.push_back(m.substr(p, q - p));
  }
  vh_setup();
  uint64_t mh = vh::fnv(S->mode.data(), S->mode.size());
  for (uint64_t i = start; i < end; i++) {
    g_prog->cur = i;
    g_prog->beat = g_prog->beat + 1;
    fresh_case(*S);
    vh::Rng r(g_seed * 0x9E3779B97F4A7C15ull ^ mh ^ (i * 0xD1342543DE82EF95ull + 0x632BE59BD9B4E019ull));
    r.u64();
    if (pair.empty()) vh_case(r, i); else pair_case(r, i, pair);
    S->cases++;
    if (S->nt) { S->nontrivial++; if (S->case_hash && S->cases_seen.size() < 400000) S->cases_seen.insert(S->case_hash); }
    if (fd) fprintf(fd, "%" PRIu64 " %016" PRIx64 "\n", i, S->digest);
  }
  g_prog->done = 1;
  if (fd) fclose(fd);
  dump_stats();
  fclose(g_out);
  return 0;
}
