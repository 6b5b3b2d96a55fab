// rtcm3_sbp: RTCM3 -> SBP conversion, driven through its public interface and
// compared message by message with a reference model that is computed from
// the generated field values (never from the code under test).
#include "vh.hpp"
#include <algorithm>
#include <deque>
#include <memory>
extern "C" {
#include <gnss-converters/options.h>
#include <gnss-converters/rtcm3_sbp.h>
#include <gnss-converters/time_truth.h>
#include <libsbp/sbp.h>
#include <libsbp/v4/sbp_msg.h>
#include <rtcm3/msm_utils.h>
#include "rtcm3_utils.h"
}
using namespace vh;

namespace {
typedef long double ld;
const double C0 = 299792458.0;
const int64_t WEEK = 604800000, DAY = 86400000;

struct Ev { uint16_t sender; sbp_msg_type_t type; sbp_msg_t msg; };
struct Item { uint16_t sender; int type; sbp_msg_t msg; std::vector<sbp_packed_obs_content_t> obs; };
struct ExpObs { int code, sat; ld P; bool hasL, half; ld L; bool hasD; ld D; ld cn0; bool hascn0; int lock; };
struct Exp {
  uint16_t sender; int type; const char *kind;
  std::function<void(const sbp_msg_t &)> chk;
  int wn = 0; uint32_t tow = 0; std::vector<ExpObs> obs;  // for observation epochs
};
struct Log { int level; std::string text; uint16_t sender; };

struct Ctx {
  Rng &r;
  rtcm3_sbp_state *st; time_truth_t *tt;
  std::vector<Ev> out; std::vector<double> inv;
  std::vector<Exp> exp; std::vector<double> expinv; std::vector<Log> explog;
  Feed feed;
  // model state
  bool truth = false;      // time comes from time_truth
  bool solved = false; int64_t rover = 0; int leap = 0; bool hasinvcb = true;
  int64_t last_gps = -1, last_glo = -1, last_msm = -1, last_1230 = -1;
  bool msmwarn = false, codewarn[3] = {};
  int fcn[64]; // 0..13 or 255
  std::vector<ExpObs> buf; int64_t buf_t = 0; uint16_t buf_sender = 0; bool buf_msm = false;
  struct SsrSat { uint32_t id, iode; int32_t o[6], c[3]; };
  struct Cache { bool orb = false, clk = false; uint32_t epoch = 0, iod = 0, ui = 0; std::vector<SsrSat> s; } cache[8];
  bool skip = false;       // the reference is undecided from here on
  Bytes stream; bool streaming = false;
  bool obs_time = false;   // time follows the observations sent
  explicit Ctx(Rng &r_) : r(r_) {}
};

void cb(uint16_t sender, sbp_msg_type_t type, const sbp_msg_t *msg, void *ctx) {
  Ctx *c = (Ctx *)ctx;
  if (c->out.size() > 20000) { violate("flood", "more than 20000 messages"); return; }
  Ev e; e.sender = sender; e.type = type; memcpy(&e.msg, msg, sizeof *msg); c->out.push_back(e);
  // everything emitted must be encodable, and its bytes are the digest
  uint8_t b[512]; uint8_t n = 0; 
  s8 rc = sbp_message_encode(b, 255, &n, type, msg);
  VH_CHECK(rc == SBP_OK, "sbp.unencodable", "message type %u: rc %d", type, rc);
  digest_v(sender); digest_v(type); digest(b, n); ev("sbp-emitted");
}
void cb_inv(double d, void *ctx) { Ctx *c = (Ctx *)ctx; c->inv.push_back(d); digest_v(d); }
int rd_feed(uint8_t *buf, size_t n, void *ctx) { Ctx *c = (Ctx *)ctx; return feed_read(buf, (uint32_t)n, &c->feed); }

int leap_at(int64_t t) {  // GPS-UTC around the times used here
  static const struct { int y, m; } L[] = {{1981, 7}, {1982, 7}, {1983, 7}, {1985, 7}, {1988, 1}, {1990, 1}, {1991, 1}, {1992, 7}, {1993, 7}, {1994, 7}, {1996, 1}, {1997, 7}, {1999, 1}, {2006, 1}, {2009, 1}, {2012, 7}, {2015, 7}, {2017, 1}};
  static int64_t at[18]; static bool made = false;
  if (!made) { for (int i = 0; i < 18; i++) { int64_t d = 0; for (int y = 1980; y < L[i].y; y++) d += 365 + (y % 4 == 0); if (L[i].m == 7) d += L[i].y % 4 == 0 ? 182 : 181; at[i] = (d - 5) * DAY + (i + 1) * 1000; } made = true; }
  int n = 0; while (n < 18 && t >= at[n]) n++;
  return n;
}
gps_time_t gt(int64_t ms) { gps_time_t t; t.wn = (s16)(ms / WEEK); t.tow = (double)(ms % WEEK) / 1000.0; return t; }
uint16_t snd(uint32_t stn) { return (uint16_t)(stn | 0xF080u); }
// thresholds: decided only when the outcome cannot hinge on rounding
bool exact8(int64_t a) { return a % 125 == 0; }

// ------------------------------------------------------------ comparing
std::vector<Item> group(Ctx &c) {
  std::vector<Item> v;
  for (size_t i = 0; i < c.out.size(); i++) {
    const Ev &e = c.out[i];
    Item it; it.sender = e.sender; it.type = e.type; memcpy(&it.msg, &e.msg, sizeof e.msg);
    if (e.type == SbpMsgObs) {
      int tot = e.msg.obs.header.n_obs >> 4, idx = e.msg.obs.header.n_obs & 15;
      VH_CHECK(idx == 0, "obs.sequence", "an epoch starts with part %d of %d", idx, tot);
      VH_CHECK(tot >= 1, "obs.sequence", "total of 0 parts");
      for (int k = 0; k < tot; k++) {
        if (i + (size_t)k >= c.out.size()) { violate("obs.sequence", "epoch ends after part %d of %d", k, tot); break; }
        const Ev &f = c.out[i + (size_t)k];
        if (f.type != SbpMsgObs || f.msg.obs.header.n_obs != (uint8_t)(tot << 4 | k)) { violate("obs.sequence", "part %d of %d is type %u n_obs %02x", k, tot, f.type, f.type == SbpMsgObs ? f.msg.obs.header.n_obs : 0); break; }
        VH_CHECK(f.sender == e.sender && f.msg.obs.header.t.tow == e.msg.obs.header.t.tow && f.msg.obs.header.t.wn == e.msg.obs.header.t.wn && f.msg.obs.header.t.ns_residual == 0, "obs.mixed-header", "part %d of %d: time %u/%u vs %u/%u sender %x", k, tot, f.msg.obs.header.t.wn, f.msg.obs.header.t.tow, e.msg.obs.header.t.wn, e.msg.obs.header.t.tow, f.sender);
        VH_CHECK(f.msg.obs.n_obs <= SBP_MSG_OBS_OBS_MAX, "obs.count", "%u observations in one message", f.msg.obs.n_obs);
        for (int j = 0; j < f.msg.obs.n_obs && j < SBP_MSG_OBS_OBS_MAX; j++) it.obs.push_back(f.msg.obs.obs[j]);
      }
      i += (size_t)(tot ? tot - 1 : 0);
      if (it.obs.empty()) continue;
    }
    v.push_back(std::move(it));
  }
  return v;
}
std::string text_of(const sbp_msg_t &m) { return std::string(m.log.text.data, m.log.text.encoded_len); }
bool known_warning(const std::string &t) {
  return t.rfind("MSM1-3 Messages", 0) == 0 || t.rfind("Unsupported code received", 0) == 0 || t.rfind("Too many RTCM", 0) == 0 || t.rfind("RTCM MSM sequence", 0) == 0;
}
void cmp_obs(const Item &a, const Exp &e) {
  VH_CHECK(a.msg.obs.header.t.wn == e.wn && a.msg.obs.header.t.tow == e.tow, "obs.time", "epoch tagged %u/%u, expected %d/%u", a.msg.obs.header.t.wn, a.msg.obs.header.t.tow, e.wn, e.tow);
  VH_CHECK(a.sender == e.sender, "obs.sender", "sender %04x expected %04x", a.sender, e.sender);
  auto key = [](int code, int sat) { return code * 1000 + sat; };
  std::vector<sbp_packed_obs_content_t> x = a.obs; std::vector<ExpObs> y = e.obs;
  std::stable_sort(x.begin(), x.end(), [&](const sbp_packed_obs_content_t &p, const sbp_packed_obs_content_t &q) { return key(p.sid.code, p.sid.sat) < key(q.sid.code, q.sid.sat); });
  std::stable_sort(y.begin(), y.end(), [&](const ExpObs &p, const ExpObs &q) { return key(p.code, p.sat) < key(q.code, q.sat); });
  size_t i = 0, j = 0; bool sets = true;
  while (i < x.size() || j < y.size()) {
    int kx = i < x.size() ? key(x[i].sid.code, x[i].sid.sat) : INT_MAX, ky = j < y.size() ? key(y[j].code, y[j].sat) : INT_MAX;
    if (kx < ky) { violate("obs.invented", "observation of code %d sat %d was not received in this epoch (%zu expected, %zu sent)", x[i].sid.code, x[i].sid.sat, y.size(), x.size()); i++; sets = false; }
    else if (ky < kx) { violate("obs.lost", "observation of code %d sat %d is missing (%zu expected, %zu sent)", y[j].code, y[j].sat, y.size(), x.size()); j++; sets = false; }
    else { i++; j++; }
    if (!sets && i + j > 4) break;
  }
  if (!sets) return;
  for (i = 0; i < x.size(); i++) {
    const sbp_packed_obs_content_t &o = x[i]; const ExpObs &w = y[i];
    VH_CHECK(fabsl((ld)o.P - w.P * 50) <= 0.5L + 2e-3L, "obs.P", "code %d sat %d P %.3f m expected %.5f m", w.code, w.sat, o.P / 50.0, (double)w.P);
    int fl = 1 | (w.hasL ? 2 : 0) | (w.hasL && w.half ? 4 : 0) | (w.hasD ? 8 : 0);
    VH_CHECK(o.flags == fl, "obs.flags", "code %d sat %d flags %02x expected %02x", w.code, w.sat, o.flags, fl);
    if (w.hasL) VH_CHECK(fabsl((ld)o.L.i * 256 + o.L.f - w.L * 256) <= 0.5L + 4e-3L, "obs.L", "code %d sat %d L %d+%u/256 expected %.6f", w.code, w.sat, o.L.i, o.L.f, (double)w.L);
    else VH_CHECK(o.L.i == 0 && o.L.f == 0, "obs.L-invalid", "code %d sat %d L %d without phase", w.code, w.sat, o.L.i);
    if (w.hasD) VH_CHECK(fabsl((ld)o.D.i * 256 + o.D.f - w.D * 256) <= 0.5L + 4e-3L, "obs.D", "code %d sat %d D %d+%u/256 expected %.6f", w.code, w.sat, o.D.i, o.D.f, (double)w.D);
    else VH_CHECK(o.D.i == 0 && o.D.f == 0, "obs.D-invalid", "code %d sat %d D %d without Doppler", w.code, w.sat, o.D.i);
    ld cn = w.hascn0 ? (w.cn0 * 4 > 255 ? 255 : w.cn0 * 4) : 0;
    VH_CHECK(fabsl(o.cn0 - cn) <= 0.5L + 1e-6L, "obs.cn0", "code %d sat %d cn0 %u expected %.3f", w.code, w.sat, o.cn0, (double)cn);
    VH_CHECK(o.lock == w.lock, "obs.lock", "code %d sat %d lock %u expected %d", w.code, w.sat, o.lock, w.lock);
    ev("observation-compared");
  }
}
void compare(Ctx &c) {
  std::vector<Item> got; std::vector<Log> logs;
  for (auto &it : group(c)) {
    if (it.type == SbpMsgLog && !(it.msg.log.level == 6 && text_of(it.msg).rfind("RTCM: ", 0) == 0)) {
      if (known_warning(text_of(it.msg))) logs.push_back({it.msg.log.level, text_of(it.msg), it.sender});
      else ev("other-log");
      continue;
    }
    got.push_back(std::move(it));
  }
  c.out.clear();
  for (size_t i = 0; i < got.size() || i < c.exp.size(); i++) {
    if (i >= got.size()) { violate(fmt("missing.%s", c.exp[i].kind), "expected %s (sender %04x) was not sent (%zu of %zu)", c.exp[i].kind, c.exp[i].sender, got.size(), c.exp.size()); break; }
    if (i >= c.exp.size()) { violate(fmt("unexpected.%d", got[i].type), "message type %d sender %04x was not expected%s", got[i].type, got[i].sender, got[i].type == SbpMsgObs ? fmt(" (%zu observations, time %u)", got[i].obs.size(), got[i].msg.obs.header.t.tow).c_str() : ""); break; }
    const Exp &e = c.exp[i]; const Item &g = got[i];
    if (e.type != g.type) { violate(fmt("order.%s", e.kind), "expected %s, got message type %d", e.kind, g.type); break; }
    if (e.type == SbpMsgObs) { cmp_obs(g, e); ev("epoch-compared"); evs(fmt("epoch-parts-%zu", (g.obs.size() + 13) / 14)); }
    else {
      VH_CHECK(e.sender == g.sender, fmt("sender.%s", e.kind), "%s from sender %04x expected %04x", e.kind, g.sender, e.sender);
      e.chk(g.msg); evs(std::string("compared-") + e.kind);
    }
    if (violated()) break;
  }
  c.exp.clear();
  for (size_t i = 0; !violated() && (i < logs.size() || i < c.explog.size()); i++) {
    if (i >= logs.size()) { violate("diag.missing", "diagnostic \"%s\" was not sent", c.explog[i].text.c_str()); break; }
    if (i >= c.explog.size()) { violate("diag.unexpected", "diagnostic \"%s\" was not expected", logs[i].text.c_str()); break; }
    VH_CHECK(logs[i].text.substr(0, c.explog[i].text.size()) == c.explog[i].text, "diag.text", "diagnostic \"%s\" expected \"%s\"", logs[i].text.c_str(), c.explog[i].text.c_str());
    VH_CHECK(logs[i].level == c.explog[i].level && logs[i].sender == c.explog[i].sender, "diag.header", "diagnostic level %d sender %04x expected %d %04x", logs[i].level, logs[i].sender, c.explog[i].level, c.explog[i].sender);
    evs("diagnostic-compared");
  }
  c.explog.clear();
  VH_CHECK(c.inv.size() == c.expinv.size() || violated(), "age-alarm.count", "%zu stale base alarms, expected %zu", c.inv.size(), c.expinv.size());
  for (size_t i = 0; i < c.inv.size() && i < c.expinv.size(); i++) { VH_CHECK(fabs(c.inv[i] - c.expinv[i]) < 1e-6, "age-alarm.value", "age %.6f expected %.6f", c.inv[i], c.expinv[i]); ev("age-alarm"); }
  c.inv.clear(); c.expinv.clear();
}
// hand one payload to the converter
void give(Ctx &c, const Bytes &p) {
  distinct(p.data(), p.size());
  if (c.streaming) { Bytes f = rtcm_frame(p); c.stream.insert(c.stream.end(), f.begin(), f.end()); return; }
  if (c.r.chance(1, 4)) {
    Bytes f = rtcm_frame(p); uint8_t *h = (uint8_t *)malloc(f.size()); memcpy(h, f.data(), f.size());
    if (c.r.chance(1, 2)) rtcm2sbp_decode_frame(h, (uint32_t)f.size(), c.st);
    else { c.feed.data = f; c.feed.pos = 0; c.feed.mode = 0; while (rtcm2sbp_process(c.st, rd_feed) > 0) {} }
    free(h);
  } else {
    uint8_t *h = (uint8_t *)malloc(p.size() ? p.size() : 1); if (!p.empty()) memcpy(h, p.data(), p.size());
    rtcm2sbp_decode_payload(h, (uint32_t)p.size(), c.st); free(h);
  }
}
void settle(Ctx &c) { if (!c.streaming && !c.skip) compare(c); }

// ------------------------------------------------------------ model: epochs
void flush(Ctx &c) {
  // an epoch without observations is sent, too, and carries its time
  if (c.obs_time && c.buf_t > 0 && c.buf_t % WEEK) { c.rover = c.buf_t; c.leap = leap_at(c.rover); }
  if (c.buf.empty()) { c.buf_t = 0; return; }
  Exp e; e.sender = c.buf_sender; e.type = SbpMsgObs; e.kind = "observations"; e.wn = (int)(c.buf_t / WEEK); e.tow = (uint32_t)(c.buf_t % WEEK); e.obs.swap(c.buf);
  c.exp.push_back(std::move(e)); c.buf.clear(); c.buf_t = 0;
}
void warn(Ctx &c, int level, const char *t, uint32_t stn) { c.explog.push_back({level, t, snd(stn)}); }
void code_warn(Ctx &c, int k) {
  static const char *T[] = {"Unsupported code received from base: Unknown or Unrecognized Code", "Unsupported code received from base: GLONASS L1P", "Unsupported code received from base: GLONASS L2P"};
  if (!c.codewarn[k]) { c.codewarn[k] = true; warn(c, 4, T[k], 0); }
}
int64_t near_week(Ctx &c, int64_t tow) {
  int64_t t = c.rover / WEEK * WEEK + tow, d = t - c.rover;
  if (std::llabs(std::llabs(d) - WEEK / 2) < 2) c.skip = true;
  if (d > WEEK / 2) t -= WEEK; else if (d < -WEEK / 2) t += WEEK;
  return t;
}
int64_t near_day(Ctx &c, int64_t tod) {
  int64_t t = c.rover / DAY * DAY + tod - 3 * 3600000 + c.leap * 1000;
  while (t - c.rover > DAY / 2) t -= DAY;
  while (c.rover - t > DAY / 2) t += DAY;
  if (std::llabs(std::llabs(t - c.rover) - DAY / 2) < 2) c.skip = true;
  return t;
}
void age(Ctx &c, int64_t t) {
  if (!c.hasinvcb) return;
  int64_t d = c.rover - t;
  if (d == 10000 && !(exact8(c.rover) && exact8(t))) { c.skip = true; return; }
  if (d >= 10000) c.expinv.push_back((double)d / 1000.0);
}
bool msm_active(Ctx &c, int64_t t) {
  if (c.last_msm < 0) return false;
  int64_t d = t - c.last_msm;
  if (d == 5000 && !(exact8(t) && exact8(c.last_msm))) c.skip = true;
  return d < 5000;
}
// GLONASS epochs far from both the coarse time and the last epoch are refused
int glo_plausible(Ctx &c, int64_t t) {
  auto one = [&](int64_t ref) { int64_t d = std::llabs(t - ref); return d <= 11000 ? 1 : d > 100000 ? 0 : -1; };
  int a = one(c.rover), b = c.last_gps >= 0 ? one(c.last_gps) : 0;
  if (a == 1 || b == 1) return 1;
  if (a == 0 && b == 0) return 0;
  return -1;
}
int lock_ind(double s) {  // DF402-style indicator
  double ms = s * 1000.0; if (ms < 32) return 0;
  int i = 0; double v = 32; while (i < 14 && ms >= v * 2 - 1e-9) { v *= 2; i++; }
  return i + 1 > 15 ? 15 : i + 1;
}

// ------------------------------------------------------------ legacy
uint32_t lock_lo(uint32_t i) {
  if (i < 24) return i; if (i < 48) return 2 * i - 24; if (i < 72) return 4 * i - 120; if (i < 96) return 8 * i - 408; if (i < 120) return 16 * i - 1176; if (i < 127) return 32 * i - 3096; return 937;
}
double prunit(bool glo) { return glo ? 599584.916 : 299792.458; }
double leg_freq(bool glo, int f, int fcn) { if (!glo) return f == 0 ? 1575.42e6 : 1227.60e6; return f == 0 ? 1602e6 + (fcn - 7) * 562500.0 : 1246e6 + (fcn - 7) * 437500.0; }
bool p_fits(ld P) { return P * 50 > -0.4L && P * 50 < 4294967295.0L; }
bool p_edge(ld P) { return fabsl(P * 50 + 0.5L) < 0.2L || fabsl(P * 50 - 4294967295.5L) < 0.7L; }

struct LegOpt { int num; uint32_t stn; int64_t tow; int sync; };
void do_legacy(Ctx &c, const LegOpt &o) {
  Rng &r = c.r; bool glo = o.num > 1008, l2 = o.num == 1004 || o.num == 1012;
  int nsat = r.chance(1, 6) ? (int)r.below(32) : (int)r.below(12);
  BitW w; w.put((uint64_t)o.num, 12); w.put(o.stn, 12); w.put((uint64_t)o.tow, glo ? 27 : 30); w.put((uint64_t)o.sync, 1); w.put((uint64_t)nsat, 5); w.put(r.bits(1), 1); w.put(r.bits(3), 3);
  std::vector<ExpObs> obs; std::vector<int> warns; // parallel: -1 or warn kind before obs
  struct Step { bool add; ExpObs o; int warn; }; std::vector<Step> steps;
  std::set<int> used;
  for (int i = 0; i < nsat; i++) {
    uint32_t sv; do { sv = r.chance(7, 8) ? 1 + r.below(glo ? 24 : 32) : (uint32_t)r.bits(6); } while (!used.insert((int)sv).second);
    uint32_t c1 = r.chance(1, 5), fcn = r.chance(9, 10) ? r.below(14) : (uint32_t)r.bits(5), pr = (uint32_t)r.bits(glo ? 25 : 24);
    if (pr == 0x80000) pr++;
    int32_t pp1 = (int32_t)((int64_t)(r.bits(20) << 44) >> 44), pp2 = (int32_t)((int64_t)(r.bits(20) << 44) >> 44), dp = (int32_t)((int64_t)(r.bits(14) << 50) >> 50);
    uint32_t lk1 = (uint32_t)r.bits(7), lk2 = (uint32_t)r.bits(7), amb = r.chance(3, 4) ? 60 + r.below(40) : (uint32_t)r.bits(glo ? 7 : 8), cn1 = (uint32_t)r.bits(8), cn2 = (uint32_t)r.bits(8), c2 = r.chance(3, 4) ? 0 : (uint32_t)r.bits(2);
    w.put(sv, 6); w.put(c1, 1); if (glo) w.put(fcn, 5); w.put(pr, glo ? 25 : 24); w.puts(pp1, 20); w.put(lk1, 7); w.put(amb, glo ? 7 : 8); w.put(cn1, 8);
    if (l2) { w.put(c2, 2); w.puts(dp, 14); w.puts(pp2, 20); w.put(lk2, 7); w.put(cn2, 8); }
    ld P1 = pr * 0.02L + amb * (ld)prunit(glo); bool fok = !glo || fcn <= 20;
    for (int f = 0; f < (l2 ? 2 : 1); f++) {
      bool v = (f == 0 ? pp1 != -524288 : (dp != -8192 && pp2 != -524288)) && fok;
      if (!v) continue;
      Step s; s.add = true; s.warn = -1; ExpObs &e = s.o;
      ld P = f == 0 ? P1 : P1 + 0.02L * dp; e.sat = (int)sv;
      if (!glo) {
        if (sv >= 1 && sv <= 32) e.code = f == 0 ? (c1 ? CODE_GPS_L1P : CODE_GPS_L1CA) : (c2 ? CODE_GPS_L2P : CODE_GPS_L2CM);
        else if (sv >= 40 && sv <= 58 && f == 0) { e.code = CODE_SBAS_L1CA; e.sat = (int)sv + 80; }
        else s.add = false;
      } else {
        if (sv >= 1 && sv <= 24) { e.code = f == 0 ? CODE_GLO_L1OF : CODE_GLO_L2OF; uint32_t cc = f == 0 ? c1 : c2; if (cc) s.warn = 1 + f; }
        else s.add = false;
      }
      if (s.add && constellation_mask[glo ? CONSTELLATION_GLO : e.code == CODE_SBAS_L1CA ? CONSTELLATION_SBAS : CONSTELLATION_GPS]) { s.add = false; ev("legacy-disabled"); }
      e.hasL = true; e.half = true; e.L = (P1 + 0.0005L * (f == 0 ? pp1 : pp2)) * (ld)leg_freq(glo, f, (int)fcn) / C0;
      if (glo) { e.L += ((int)fcn - 7) * (ld)sbp_glo_phase_bias[f]; P += ((int)fcn - 7) * (ld)sbp_glo_code_bias[f]; }
      e.hasD = false; e.D = 0; uint32_t cn = f == 0 ? cn1 : cn2; e.hascn0 = cn != 0; e.cn0 = cn * 0.25L; e.lock = lock_ind(lock_lo(f == 0 ? lk1 : lk2));
      if (s.add) { P += (ld)sbp_signal_biases[e.code]; e.P = P; if (p_edge(P)) c.skip = true; if (!p_fits(P)) { s.add = false; } }
      if (s.add || s.warn >= 0) steps.push_back(s);
    }
  }
  give(c, w.b);
  if (!c.solved) { ev("dropped-time-unknown"); settle(c); return; }
  // model
  int64_t maxt = glo ? DAY : WEEK;
  if (o.tow >= maxt) { settle(c); return; }
  int64_t t;
  if (glo) {
    t = near_day(c, o.tow); int p = glo_plausible(c, t);
    if (p < 0) c.skip = true;
    if (p == 0) { ev("glo-implausible-refused"); settle(c); return; }
  } else { t = near_week(c, o.tow); age(c, t); }
  if (msm_active(c, t)) { ev("legacy-muted-by-msm"); settle(c); return; }
  int64_t &last = glo ? c.last_glo : c.last_gps;
  if (last >= 0 && t <= last) { ev("legacy-not-newer"); settle(c); return; }
  last = t;
  if (!c.buf.empty() && (c.buf_t != t || c.buf_sender != snd(o.stn))) { if (c.buf_t != t && c.buf_t % WEEK == t % WEEK) ev("epoch-flushed-same-time-of-week"); flush(c); ev("epoch-flushed-by-next"); }
  c.buf_t = t; c.buf_sender = snd(o.stn); c.buf_msm = false;
  bool full = false;
  for (auto &s : steps) {
    if (c.buf.size() >= MAX_OBS_PER_EPOCH) { full = true; break; }
    if (s.warn >= 0) code_warn(c, s.warn);
    if (s.add) c.buf.push_back(s.o);
  }
  if (full) { warn(c, 3, "Too many RTCM observations received!", 0); settle(c); return; }
  evs(glo ? "legacy-glo" : "legacy-gps");
  if (!o.sync) flush(c);
  settle(c);
}

// ------------------------------------------------------------ MSM
uint32_t lock10_ms(uint32_t i) { if (i > 704) i = 704; uint32_t v = 0; for (uint32_t k = 0; k < i; k++) v += k < 64 ? 1 : 1u << ((k - 64) / 32 + 1); return v; }
struct Sig { int code; double f; bool sup; };
// RTCM 10403 tables of signal ids (1-based)
Sig sig_of(int cons, int id) {
  const double E1 = 1575.42e6, L2 = 1227.60e6, E5 = 1176.45e6, E6 = 1278.75e6, E5B = 1207.14e6, E5AB = 1191.795e6, B1 = 1561.098e6, B3 = 1268.52e6;
  switch (cons) {
    case 0: switch (id) { case 2: return {CODE_GPS_L1CA, E1, 1}; case 3: case 4: return {CODE_GPS_L1P, E1, 1}; case 9: case 10: return {CODE_GPS_L2P, L2, 1}; case 15: return {CODE_GPS_L2CM, L2, 1}; case 16: return {CODE_GPS_L2CL, L2, 1}; case 17: return {CODE_GPS_L2CX, L2, 1}; case 22: return {CODE_GPS_L5I, E5, 1}; case 23: return {CODE_GPS_L5Q, E5, 1}; case 24: return {CODE_GPS_L5X, E5, 1}; case 30: return {CODE_GPS_L1CI, E1, 1}; case 31: return {CODE_GPS_L1CQ, E1, 1}; case 32: return {CODE_GPS_L1CX, E1, 1}; } break;
    case 1: switch (id) { case 2: return {CODE_GLO_L1OF, 1, 1}; case 3: return {CODE_GLO_L1P, 1, 0}; case 8: return {CODE_GLO_L2OF, 2, 1}; case 9: return {CODE_GLO_L2P, 2, 0}; } break;
    case 2: switch (id) { case 2: return {CODE_GAL_E1C, E1, 1}; case 4: return {CODE_GAL_E1B, E1, 1}; case 5: return {CODE_GAL_E1X, E1, 1}; case 8: return {CODE_GAL_E6C, E6, 1}; case 10: return {CODE_GAL_E6B, E6, 1}; case 11: return {CODE_GAL_E6X, E6, 1}; case 14: return {CODE_GAL_E7I, E5B, 1}; case 15: return {CODE_GAL_E7Q, E5B, 1}; case 16: return {CODE_GAL_E7X, E5B, 1}; case 18: return {CODE_GAL_E8I, E5AB, 1}; case 19: return {CODE_GAL_E8Q, E5AB, 1}; case 20: return {CODE_GAL_E8X, E5AB, 1}; case 22: return {CODE_GAL_E5I, E5, 1}; case 23: return {CODE_GAL_E5Q, E5, 1}; case 24: return {CODE_GAL_E5X, E5, 1}; } break;
    case 3: switch (id) { case 2: return {CODE_SBAS_L1CA, E1, 1}; case 22: return {CODE_SBAS_L5I, E5, 1}; case 23: return {CODE_SBAS_L5Q, E5, 1}; case 24: return {CODE_SBAS_L5X, E5, 1}; } break;
    case 4: switch (id) { case 2: return {CODE_QZS_L1CA, E1, 1}; case 15: return {CODE_QZS_L2CM, L2, 1}; case 16: return {CODE_QZS_L2CL, L2, 1}; case 17: return {CODE_QZS_L2CX, L2, 1}; case 22: return {CODE_QZS_L5I, E5, 1}; case 23: return {CODE_QZS_L5Q, E5, 1}; case 24: return {CODE_QZS_L5X, E5, 1}; case 30: return {CODE_QZS_L1CI, E1, 1}; case 31: return {CODE_QZS_L1CQ, E1, 1}; case 32: return {CODE_QZS_L1CX, E1, 1}; } break;
    case 5: switch (id) { case 2: return {CODE_BDS2_B1, B1, 1}; case 8: return {CODE_BDS3_B3I, B3, 0}; case 9: return {CODE_BDS3_B3Q, B3, 0}; case 10: return {CODE_BDS3_B3X, B3, 0}; case 14: return {CODE_BDS2_B2, E5B, 1}; case 22: return {CODE_BDS3_B5I, E5, 1}; case 23: return {CODE_BDS3_B5Q, E5, 1}; case 24: return {CODE_BDS3_B5X, E5, 1}; case 25: return {CODE_BDS3_B7I, E5B, 0}; case 30: return {CODE_BDS3_B1CI, E1, 0}; case 31: return {CODE_BDS3_B1CQ, E1, 0}; case 32: return {CODE_BDS3_B1CX, E1, 0}; } break;
  }
  return {-1, 0, 0};
}
const int MSM_BASE[] = {1070, 1080, 1090, 1100, 1110, 1120};
const int MSM_CONS[] = {CONSTELLATION_GPS, CONSTELLATION_GLO, CONSTELLATION_GAL, CONSTELLATION_SBAS, CONSTELLATION_QZS, CONSTELLATION_BDS};
const int MSM_SATS[] = {32, 28, 36, 19, 10, 64}, MSM_FIRST[] = {1, 1, 1, 120, 193, 1};
std::vector<int> sig_ids(int cons) { std::vector<int> v; for (int i = 1; i <= 32; i++) if (sig_of(cons, i).code >= 0) v.push_back(i); return v; }

struct MsmOpt { int cons, type; uint32_t stn; int64_t tow; int mult; int maxsat, maxsig; };
void do_msm(Ctx &c, const MsmOpt &o) {
  Rng &r = c.r; bool glo = o.cons == 1, bds = o.cons == 5, e = o.type == 5 || o.type == 7, x = o.type >= 6; int num = MSM_BASE[o.cons] + o.type;
  bool sm[64] = {}, gm[32] = {}; std::vector<int> sats, sigs;
  int ns = 1 + (int)r.below((uint32_t)o.maxsat), ng = 1 + (int)r.below((uint32_t)o.maxsig); if (r.chance(1, 25)) ns = 0;
  while (ns * ng > 64) ns--;
  static thread_local std::vector<int> IDS[6]; if (IDS[o.cons].empty()) IDS[o.cons] = sig_ids(o.cons);
  int cnt = 0; if (ns > 60) ns = 60;
  while (cnt < ns) { int s = r.chance(15, 16) ? (int)r.below((uint32_t)MSM_SATS[o.cons]) : (int)r.below(64); if (ns > MSM_SATS[o.cons] - 2) s = (int)r.below(64); if (!sm[s]) { sm[s] = true; cnt++; } }
  cnt = 0; if (ng > (int)IDS[o.cons].size()) ng = (int)IDS[o.cons].size();
  while (cnt < ng) { int g = r.chance(15, 16) ? r.pick(IDS[o.cons]) - 1 : (int)r.below(32); if (!gm[g]) { gm[g] = true; cnt++; } }
  for (int i = 0; i < 64; i++) if (sm[i]) sats.push_back(i);
  for (int i = 0; i < 32; i++) if (gm[i]) sigs.push_back(i);
  std::vector<bool> cm; std::vector<std::pair<int, int>> cells; bool dense = r.chance(1, 2);
  for (int i = 0; i < ns; i++) for (int j = 0; j < ng; j++) { bool b = dense || r.chance(2, 3); cm.push_back(b); if (b) cells.push_back({i, j}); }
  BitW w; w.put((uint64_t)num, 12); w.put(o.stn, 12); if (glo) { w.put(r.bits(3), 3); w.put((uint64_t)o.tow, 27); } else w.put((uint64_t)o.tow, 30);
  w.put((uint64_t)o.mult, 1); w.put(r.bits(3), 3); w.put(r.bits(7), 7); w.put(r.bits(2), 2); w.put(r.bits(2), 2); w.put(r.bits(1), 1); w.put(r.bits(3), 3);
  for (bool b : sm) w.put(b, 1); for (bool b : gm) w.put(b, 1); for (bool b : cm) w.put(b, 1);
  std::vector<uint32_t> ims, info, mod, lock, cnr; std::vector<int> hca; std::vector<int64_t> rate, pr, cp, dop; size_t nc = cells.size();
  auto sgn = [&](int n) { return (int64_t)(r.bits(n) << (64 - n)) >> (64 - n); };
  for (int i = 0; i < ns; i++) { ims.push_back(r.chance(1, 12) ? 255 : r.chance(1, 5) ? (uint32_t)r.bits(8) : 60 + r.below(40)); w.put(ims.back(), 8); }
  for (int i = 0; i < ns && e; i++) { info.push_back(r.chance(1, 6) ? (uint32_t)r.bits(4) : r.below(14)); w.put(info.back(), 4); }
  for (int i = 0; i < ns; i++) { mod.push_back((uint32_t)r.bits(10)); w.put(mod.back(), 10); }
  for (int i = 0; i < ns && e; i++) { rate.push_back(r.chance(1, 2) ? r.range(-900, 900) : sgn(14)); w.puts(rate.back(), 14); }
  int prn = x ? 20 : 15, cpn = x ? 24 : 22;
  for (size_t i = 0; i < nc; i++) { pr.push_back(sgn(prn)); w.puts(pr[i], prn); }
  for (size_t i = 0; i < nc; i++) { cp.push_back(sgn(cpn)); w.puts(cp[i], cpn); }
  for (size_t i = 0; i < nc; i++) { lock.push_back((uint32_t)r.bits(x ? 10 : 4)); if (x && r.chance(1, 2)) lock.back() = r.below(706); w.put(lock[i], x ? 10 : 4); }
  for (size_t i = 0; i < nc; i++) { hca.push_back((int)r.bits(1)); w.put((uint64_t)hca[i], 1); }
  for (size_t i = 0; i < nc; i++) { cnr.push_back((uint32_t)r.bits(x ? 10 : 6)); w.put(cnr[i], x ? 10 : 6); }
  for (size_t i = 0; i < nc && e; i++) { dop.push_back(sgn(15)); w.puts(dop[i], 15); }
  if (w.b.size() > 1023) { return; }
  give(c, w.b);
  evs(fmt("msm-%d", num));
  if (!c.solved) { ev("dropped-time-unknown"); settle(c); return; }
  [&] {
    if (o.cons == 3 || o.cons == 4) return;  // suppressed by design
    int64_t tow = o.tow, t;
    if (bds && tow >= (1 << 30) - 14000) tow = WEEK - ((1 << 30) - tow);
    if (tow >= (glo ? DAY : WEEK)) return;
    if (glo) {
      t = near_day(c, tow); int p = glo_plausible(c, t);
      if (p < 0) c.skip = true;
      if (p == 0) { ev("glo-implausible-refused"); return; }
    } else { if (bds) tow = (tow + 14000) % WEEK; t = near_week(c, tow); age(c, t); }
    if (c.last_gps < 0 && t % WEEK == 0) { ev("first-tow-zero-ignored"); return; }
    if (!msm_active(c, t) && !c.buf.empty() && c.buf_msm) ev("unfinished-msm-after-pause");
    if (!msm_active(c, t) && !c.buf.empty() && !c.buf_msm) { c.buf.clear(); ev("legacy-buffer-dropped-by-msm"); }
    c.last_gps = c.last_glo = c.last_msm = t;
    if (!c.buf.empty() && (c.buf_t != t || c.buf_sender != snd(o.stn))) { if (c.buf_t != t && c.buf_t % WEEK == t % WEEK) ev("epoch-flushed-same-time-of-week"); warn(c, 4, "RTCM MSM sequence not properly finished, sending incomplete message", 0); flush(c); ev("epoch-flushed-by-next"); }
    c.buf_t = t; c.buf_sender = snd(o.stn); c.buf_msm = true;
    for (size_t i = 0; i < nc; i++) {
      size_t s = (size_t)cells[i].first; Sig g = sig_of(o.cons, sigs[(size_t)cells[i].second] + 1);
      if (g.code < 0) { code_warn(c, 0); continue; }
      if (sats[s] >= MSM_SATS[o.cons] || constellation_mask[MSM_CONS[o.cons]] || !g.sup) continue;
      if (ims[s] == 255 || pr[i] == -(1ll << (prn - 1))) continue;
      if (c.buf.size() >= MAX_OBS_PER_EPOCH) { warn(c, 3, "Too many RTCM observations received!", 0); ev("epoch-full"); break; }
      ExpObs q; q.code = g.code; q.sat = MSM_FIRST[o.cons] + sats[s];
      int fcn = 255; double f = g.f; bool fok = true; ld cb = 0, pb = 0;
      if (glo) {
        if (e) fcn = info[s] <= 13 ? (int)info[s] : 255; else fcn = c.fcn[q.sat];
        if (fcn > 13) fok = false;
        else { f = g.f == 1 ? 1602e6 + (fcn - 7) * 562500.0 : 1246e6 + (fcn - 7) * 437500.0; int k = g.f == 1 ? 0 : 1; cb = (fcn - 7) * (ld)sbp_glo_code_bias[k]; pb = (fcn - 7) * (ld)sbp_glo_phase_bias[k]; }
      }
      ld rr = ims[s] + mod[s] / 1024.0L;
      q.P = (rr + ldexpl((ld)pr[i], x ? -29 : -24)) * C0 / 1000 + (ld)sbp_signal_biases[g.code] + cb;
      if (p_edge(q.P)) c.skip = true;
      if (!p_fits(q.P)) { ev("pseudorange-unrepresentable"); continue; }
      q.hasL = cp[i] != -(1ll << (cpn - 1)) && fok; q.half = !hca[i]; q.L = (rr + ldexpl((ld)cp[i], x ? -31 : -29)) * f / 1000 + pb;
      q.hasD = false; q.D = 0;
      if (e && rate[s] != -8192 && dop[i] != -16384 && fok) { q.D = -((ld)rate[s] + 0.0001L * dop[i]) * f / C0; q.hasD = fabsl(q.D) < 32767; if (fabsl(fabsl(q.D) - 32767) < 1e-6L) c.skip = true; }
      q.hascn0 = cnr[i] != 0; q.cn0 = x ? cnr[i] / 16.0L : (ld)cnr[i];
      q.lock = lock_ind(x ? lock10_ms(lock[i]) / 1000.0 : (lock[i] ? 0.016 * (double)(1u << lock[i]) : 0));
      if (fabsl(q.L) > 2147483646.0L) { c.skip = true; }
      c.buf.push_back(q);
    }
  }();
  if (!o.mult) flush(c);
  settle(c);
}
#include "r2s2.inc"
#ifdef VH_CLI
#include "r2s_cli.inc"
#endif
}  // namespace


void vh_setup() {
  if (mode().find("hostile") != std::string::npos) for (const char *d : {"/c/rtcm3tosbp/test/data", "/c/gnss_converters/test/data"}) for (const char *s : {".rtcm", ".rtcm3", ".bin", ".RTCM3"}) for (auto &f : list_files(repo() + d, s)) { Bytes b = slurp(f); if (b.size() > 400000) b.resize(400000); if (!b.empty()) SEEDS.push_back(b); }
}
void vh_case(Rng &r, uint64_t) {
  const std::string &m = mode();
  //                        leg msm eph sta txt ssr rov wrp ndf ign m13 fcn
  if (m == "hostile") case_hostile(r);
  else if (m == "frame") { if (r.chance(1, 8)) case_model(r, {10, 10, 10, 10, 4, 10, 0, 4, 2, 4, 2, 0}, false, false, true); else case_frame(r); }
  else if (m == "seq") case_model(r, {r.chance(1, 2) ? 10 : 0, r.chance(3, 4) ? 20 : 0, 1, 1, 1, 1, 1, 0, 0, 1, 1, 1}, false, false, r.chance(1, 4));
  else if (m == "values") case_model(r, {r.chance(1, 2) ? 20 : 0, r.chance(3, 4) ? 20 : 1, 2, 0, 0, 0, 1, 0, 0, 0, 0, 3}, false, true, false);
  else if (m == "time") case_model(r, {10, 10, 0, 0, 0, 2, 8, 0, 0, 0, 0, 0}, true, false, false);
  else if (m == "eph") case_model(r, {0, 0, 20, 0, 0, 0, 4, 0, 0, 0, 0, 0}, true, false, false);
  else if (m == "mix") case_model(r, {12, 8, 0, 0, 0, 0, 2, 0, 0, 1, 1, 0}, false, false, false);
  else if (m == "station") case_model(r, {1, 1, 0, 24, 0, 0, 6, 0, 0, 1, 0, 0}, false, false, false);
  else if (m == "text") case_model(r, {1, 1, 0, 1, 24, 0, 1, 0, 0, 1, 1, 0}, false, false, r.chance(1, 4));
  else if (m == "ssr") case_model(r, {1, 1, 0, 0, 0, 24, 4, 0, 0, 0, 0, 0}, r.chance(1, 2), false, false);
  else if (m == "diag") case_model(r, {8, 12, 0, 1, 1, 0, 1, 0, 0, 1, 6, 1}, false, false, r.chance(1, 4));
  else if (m == "wrap") case_model(r, {1, 1, 0, 1, 1, 0, 1, 12, 12, 1, 0, 0}, false, false, r.chance(1, 4));
  else if (m == "msmutil") case_msmutil(r);
#ifdef VH_CLI
  else if (m == "cli" || m == "files") case_cli(r);
#endif
  else { fprintf(stderr, "mode?\n"); exit(3); }
}
