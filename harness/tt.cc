// The shared time truth (C44): sequential model and concurrent histories
#include "vh.hpp"
#include <algorithm>
#include <atomic>
#include <thread>
extern "C" {
#include <gnss-converters/rtcm3_sbp.h>
#include <gnss-converters/time_truth.h>
#include <swiftnav/gnss_time.h>
#include <swiftnav/logging.h>
}
using namespace vh;

// called by the stand-in of gpsdifftime, between the read and the exchange
static thread_local uint64_t t_delay = 0;
extern "C" void shim_delay(void) {
  if (!t_delay) return;
  t_delay = t_delay * 6364136223846793005ull + 1442695040888963407ull;
  uint32_t k = (uint32_t)(t_delay >> 33);
  if (k % 3 == 0) std::this_thread::yield();
  else if (k % 3 == 1) for (volatile uint32_t i = 0; i < k % 400; i = i + 1) {}
}

namespace {
const double WEEK_S = 604800;
// the stored time of week is a single precision number
const double EPS = 0.0626;
double secs(const gps_time_t &t) { return (double)t.wn * WEEK_S + t.tow; }
bool ok_time(const gps_time_t &t) { return std::isfinite(t.tow) && t.tow >= 0 && t.tow < WEEK_S && t.wn >= 0; }
time_truth_t *fresh(Rng &r) { auto *p = (time_truth_t *)aligned_alloc(alignof(time_truth_t) < 16 ? 16 : alignof(time_truth_t), (sizeof(time_truth_t) + 15) / 16 * 16); memset((void *)p, (int)r.below(256), sizeof *p); time_truth_init(p); return p; }
enum time_truth_source src_of(Rng &r) { return r.pick(std::vector<enum time_truth_source>{TIME_TRUTH_EPH_GPS, TIME_TRUTH_EPH_GAL, TIME_TRUTH_EPH_BDS}); }

void case_seq(Rng &r) {
  time_truth_t *tt = fresh(r); bool solved = false; gps_time_t cur; memset(&cur, 0, sizeof cur); int64_t wk = r.range(1876, 3000); double now = r.uniform(0, WEEK_S); int n = 2 + (int)r.below(60);
  auto look = [&](const char *when, bool expect_same) {
    enum time_truth_state s = (enum time_truth_state)77; gps_time_t t; memset(&t, 0x55, sizeof t); time_truth_get(tt, r.chance(1, 6) ? nullptr : &s, r.chance(1, 6) ? nullptr : &t); time_truth_get(tt, &s, &t); ev("read");
    VH_CHECK(s == (solved ? TIME_TRUTH_SOLVED : TIME_TRUTH_UNKNOWN), "state", "%s: state %d, expected %s", when, (int)s, solved ? "solved" : "unknown");
    VH_CHECK(solved ? ok_time(t) : !gps_time_valid(&t), "read-valid", "%s: state %d with time %d/%f", when, (int)s, t.wn, t.tow);
    if (expect_same && solved) VH_CHECK(t.wn == cur.wn && t.tow == cur.tow, "changed", "%s: time changed from %d/%.6f to %d/%.6f", when, cur.wn, cur.tow, t.wn, t.tow);
    return t;
  };
  look("start", true);
  for (int i = 0; i < n && !violated(); i++) {
    gps_time_t t; enum time_truth_source src = src_of(r); bool healthy = true, known_src = true; t.wn = (s16)wk; t.tow = now;
    switch (r.below(16)) {
      case 0: t.tow = r.dbl(); break;
      case 1: t.tow = r.pick(std::vector<double>{WEEK_S, WEEK_S + 1, -1, -0.001, NAN, INFINITY, -INFINITY, 1e18}); break;
      case 2: t.wn = (s16)r.pick(std::vector<int>{-1, -2, -32768, 0, 1, 1023, 1024, 1355, 1356, 1875}); break;
      case 3: t.wn = (s16)r.range(0, 1875); break;
      case 4: t.tow = r.pick(std::vector<double>{604799.999, 604799.9999999, 604799.97, 604799.95, 604799, 0, 0.001}); break;
      case 5: t.tow = r.uniform(WEEK_S - 0.2, WEEK_S - 1e-9); break;
      case 6: { double d = r.pick(std::vector<double>{-WEEK_S / 2, -1000, -1, -0.5, -0.0625}); t.tow += d; if (t.tow < 0) { t.tow += WEEK_S; t.wn--; } break; }
      case 7: t.wn = (s16)(wk - r.range(1, 5)); break;
      case 8: if (solved) t = cur; break;
      case 9: if (r.chance(1, 8)) t.wn = 32767; break;
      case 10: src = (enum time_truth_source)3; known_src = false; break;
      default: break;
    }
    bool r1, any = false;
    if (r.chance(1, 3) && t.wn >= 0 && known_src) {
      static const sbp_msg_type_t other[] = {SbpMsgObs, SbpMsgEphemerisGlo, SbpMsgGpsTime, SbpMsgUtcTime, SbpMsgPosLlh, SbpMsgBasePosEcef, SbpMsgLog, SbpMsgSsrOrbitClock, SbpMsgHeartbeat};
      sbp_msg_t m; memset(&m, 0, sizeof m); sbp_msg_type_t ty = SbpMsgEphemerisGps; t.tow = ok_time(t) ? std::floor(t.tow) : t.tow; uint8_t h = r.chance(1, 3) ? (uint8_t)(r.chance(1, 2) ? 1u << r.below(8) : 1 + r.below(255)) : 0;
      auto set = [&](sbp_ephemeris_common_content_t &c) { double w = t.tow; c.toe.tow = ok_time(t) ? (u32)w : (u32)(604800u + r.below(1000000)); c.toe.wn = (u16)t.wn; c.health_bits = h; c.valid = 1; c.fit_interval = 14400; c.sid.sat = (u8)(1 + r.below(30)); t.tow = c.toe.tow; };
      switch (r.below(6)) {
        case 0: ty = SbpMsgEphemerisGal; set(m.ephemeris_gal.common); any = true; break;
        case 1: ty = SbpMsgEphemerisBds; set(m.ephemeris_bds.common); any = true; break;
        case 2: ty = other[r.below(sizeof other / sizeof *other)]; for (size_t q = 0; q < 60; q++) ((uint8_t *)&m)[q] = (uint8_t)r.u64(); if (ty == SbpMsgEphemerisGlo) set(m.ephemeris_glo.common); if (ty == SbpMsgEphemerisGlo && h == 0) h = 1; known_src = false; break;
        default: set(m.ephemeris_gps.common); break;
      }
      if (h) healthy = false;
      r1 = time_truth_update_from_sbp(tt, ty, &m); ev(healthy ? "sbp-ephemeris" : "sbp-unusable");
    } else r1 = time_truth_update(tt, src, t);
    ev("update");
    bool valid = ok_time(t) && t.wn >= 1876 && healthy && known_src; double d = solved ? secs(t) - secs(cur) : 1e9;
    if (!valid) { VH_CHECK(!r1, "accepted-invalid", "time %d/%f from source %d (healthy %d) accepted", t.wn, t.tow, (int)src, healthy); ev("refused-invalid"); }
    else if (any) { }
    else if (d > EPS) { VH_CHECK(r1, "refused-later", "time %d/%f refused although later than %d/%f", t.wn, t.tow, cur.wn, cur.tow); ev(solved ? "accepted-later" : "accepted-first"); }
    else if (d < -EPS || (t.wn == cur.wn && t.tow == cur.tow)) { VH_CHECK(!r1, "accepted-earlier", "time %d/%f accepted after %d/%f", t.wn, t.tow, cur.wn, cur.tow); ev("refused-earlier"); }
    if (violated()) break;
    if (r1) {
      bool was = solved; gps_time_t old = cur; solved = true; cur = t; gps_time_t g = look("after an accepted time", false);
      VH_CHECK(std::fabs(secs(g) - secs(t)) <= EPS, "value", "time %d/%f accepted but %d/%f reported", t.wn, t.tow, g.wn, g.tow); if (was) VH_CHECK(secs(g) >= secs(old), "backwards", "time went from %d/%.6f to %d/%.6f", old.wn, old.tow, g.wn, g.tow); cur = g; nontrivial(); distinct(&cur, sizeof(s16)); uint64_t key = (uint64_t)(secs(g) * 1000); distinct(&key, 8);
    } else look("after a refused time", true);
    now += r.pick(std::vector<double>{0.05, 0.1, 1, 16, 720, 7200, 86400}) * (r.chance(1, 2) ? 1 : r.unit()); if (now >= WEEK_S) { now -= WEEK_S; wk++; }
  }
  free(tt);
}

// concurrent histories
struct Op { uint64_t b, e; int kind; bool res; int64_t v; enum time_truth_state s; s16 wn; double tow; };  // kind 0 update 1 read
std::atomic<uint64_t> g_clock;
void case_conc(Rng &r) {
  time_truth_t *tt = fresh(r); int nt = 2 + (int)r.below(5), per = 10 + (int)r.below(120); std::vector<std::vector<Op>> log((size_t)nt); std::vector<uint64_t> seeds; for (int i = 0; i < nt; i++) seeds.push_back(r.u64());
  // supplied times: value v means week 1900 + v / 4096 and a time of week that repeats v: a torn value has none
  uint32_t space = r.pick(std::vector<uint32_t>{8, 64, 1000, 30000}); bool march = r.chance(1, 2); std::atomic<int> gate{0}; g_clock.store(0); bool rtcm = r.chance(1, 8);
  auto make = [](int64_t v) { gps_time_t t; t.wn = (s16)(1900 + v / 64); t.tow = (double)((v % 64) * 9000 + v % 64 * 64 + (v / 64) % 64) * 1.0; return t; };
  auto unmake = [&](s16 wn, double tow) -> int64_t { int64_t lo = ((int64_t)wn - 1900) * 64; for (int64_t k = 0; k < 64; k++) { if (lo + k < 0) continue; gps_time_t t = make(lo + k); if (t.wn == wn && t.tow == tow) return lo + k; } return -1; };
  auto work = [&](int id) {
    Rng q(seeds[(size_t)id]); t_delay = q.u64() | 1; auto &L = log[(size_t)id]; L.reserve((size_t)per); gate.fetch_add(1); while (gate.load() < nt) {} int64_t base = 0;
    rtcm3_sbp_state *st = nullptr; if (rtcm && id == 0) { st = (rtcm3_sbp_state *)malloc(sizeof *st); memset((void *)st, 0, sizeof *st); rtcm2sbp_init(st, tt, nullptr, nullptr, nullptr); }
    for (int i = 0; i < per; i++) {
      Op o; memset((void *)&o, 0, sizeof o); if (st) { uint8_t none[64]; Bytes p = {0x3e, 0xe0, 0x00, 0x00}; Bytes f = rtcm_frame(p); memcpy(none, f.data(), f.size()); rtcm2sbp_decode_frame(none, (uint32_t)f.size(), st); }
      if (q.chance(1, 2)) { o.kind = 0; base = march ? (int64_t)((uint64_t)i * space / (uint64_t)per) + (int64_t)q.below(1 + space / 16) : (int64_t)q.below(space); o.v = base; gps_time_t t = make(o.v); enum time_truth_source s = src_of(q); o.b = g_clock.fetch_add(1, std::memory_order_relaxed);
        if (q.chance(1, 4)) { sbp_msg_t m; memset(&m, 0, sizeof m); m.ephemeris_gps.common.toe.wn = (u16)t.wn; m.ephemeris_gps.common.toe.tow = (u32)t.tow; m.ephemeris_gps.common.valid = 1; o.res = time_truth_update_from_sbp(tt, SbpMsgEphemerisGps, &m); } else o.res = time_truth_update(tt, s, t);
        o.e = g_clock.fetch_add(1, std::memory_order_relaxed);
      } else { o.kind = 1; gps_time_t t; t.wn = 0; t.tow = 0; o.b = g_clock.fetch_add(1, std::memory_order_relaxed); time_truth_get(tt, &o.s, &t); o.e = g_clock.fetch_add(1, std::memory_order_relaxed); o.wn = t.wn; o.tow = t.tow; }
      L.push_back(o); if (q.chance(1, 8)) std::this_thread::yield();
    }
    if (st) free(st);
    t_delay = 0;
  };
  std::vector<std::thread> th; for (int i = 0; i < nt; i++) th.emplace_back(work, i); for (auto &t : th) t.join();
  // the monitor: the history must be one of a register that only moves forward
  std::vector<Op> all; for (auto &l : log) all.insert(all.end(), l.begin(), l.end());
  std::set<int64_t> accepted; std::map<int64_t, Op> acc; int64_t best = -1; uint64_t overlaps = 0;
  for (auto &o : all) { if (o.kind) { if (o.s == TIME_TRUTH_SOLVED) { o.v = unmake(o.wn, o.tow); VH_CHECK(o.v >= 0, "torn", "time %d/%f was never supplied", o.wn, o.tow); } else { o.v = -1; gps_time_t t; t.wn = o.wn; t.tow = o.tow; VH_CHECK(!gps_time_valid(&t), "torn", "state unknown with time %d/%f", o.wn, o.tow); } } else { best = std::max(best, o.v); if (o.res) { VH_CHECK(accepted.insert(o.v).second, "accepted-twice", "time %lld was accepted twice", (long long)o.v); acc[o.v] = o; } } }
  if (!violated()) {
    enum time_truth_state s; gps_time_t t; time_truth_get(tt, &s, &t); int64_t fin = s == TIME_TRUTH_SOLVED ? unmake(t.wn, t.tow) : -1; VH_CHECK(fin == best, "final", "the latest time supplied is %lld, at the end it is %lld", (long long)best, (long long)fin);
    std::sort(all.begin(), all.end(), [](const Op &a, const Op &b) { return a.b < b.b; });
    // completed operations fix a lower bound on the register for whatever starts later
    std::vector<std::pair<uint64_t, int64_t>> ends; for (auto &o : all) ends.push_back({o.e, (o.kind || !o.res) ? (o.kind ? o.v : o.v) : o.v}); std::sort(ends.begin(), ends.end()); size_t k = 0; int64_t low = -1;
    for (auto &o : all) {
      while (k < ends.size() && ends[k].first < o.b) low = std::max(low, ends[k++].second);  // whatever was supplied or read before is reached
      if (k < ends.size()) overlaps += 1;
      if (o.kind) { VH_CHECK(o.v >= low, "stale", "a read gave %lld after %lld was known", (long long)o.v, (long long)low); if (o.v >= 0) { auto a = acc.find(o.v); VH_CHECK(a != acc.end() && a->second.b < o.e, "unsupplied", "a read gave %lld which nobody had had accepted", (long long)o.v); } }
      else if (o.res) VH_CHECK(o.v > low, "accepted-earlier", "time %lld accepted after %lld", (long long)o.v, (long long)low);
    }
    for (auto &o : all) if (!o.kind && !o.res) { bool why = false; for (auto &a : acc) if (a.first >= o.v && a.second.b < o.e) why = true; VH_CHECK(why, "refused-later", "time %lld refused though nothing as late was accepted", (long long)o.v); }
  }
  uint64_t cont = 0; for (size_t i = 0; i + 1 < all.size(); i++) if (all[i + 1].b < all[i].e) cont++;
  ev("operation", all.size()); ev("overlapping-operations", cont); (void)overlaps; ev("accepted", accepted.size()); if (rtcm) ev("rtcm-decoder-thread"); ev("history"); if (cont) nontrivial();
  uint64_t h = 0; for (auto &o : all) h = fnv(&o.kind, 4, h ^ (uint64_t)o.v * 2 ^ (uint64_t)o.res); distinct(h);
  free(tt);
}
void nolog(int, const char *, ...) {}
}  // namespace

void vh_setup() { logging_set_implementation(nolog, nullptr); }
void vh_case(Rng &r, uint64_t) {
  if (mode() == "seq") case_seq(r);
  else if (mode() == "conc") case_conc(r);
  else { fprintf(stderr, "mode?\n"); exit(3); }
}
