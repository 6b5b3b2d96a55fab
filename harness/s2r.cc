// sbp_rtcm3 / sbp_conv: SBP -> RTCM3.  Frames are taken apart bit by bit from
// the RTCM 10403 layout and compared with the SBP values that went in, and the
// frames go through the RTCM3 -> SBP converter for the round trip.
#define vh_setup r2s_vh_setup
#define vh_case r2s_vh_case
#include "r2s.cc"
#undef vh_setup
#undef vh_case
extern "C" {
#include <gnss-converters-extra/sbp_conv.h>
#include <gnss-converters-extra/sbp_rtcm3.h>
#include <rtcm3/decode.h>
#include <rtcm3/eph_decode.h>
#include <swiftnav/bitstream.h>
}

namespace {
enum { T_OBS, T_BASE, T_BIAS, T_OSR, T_OC, T_PB, T_CB, T_GC, T_GD, T_ST, T_GPS, T_GLO, T_BDS, T_GAL, T_LOG, T_N };
typedef void (*CbFn)(u16, u8, const u8[], rtcm3_out_state *);
const CbFn CBS[T_N] = {sbp2rtcm_sbp_obs_cb, sbp2rtcm_base_pos_ecef_cb, sbp2rtcm_glo_biases_cb, sbp2rtcm_sbp_osr_cb, sbp2rtcm_sbp_ssr_orbit_clock_cb, sbp2rtcm_sbp_ssr_phase_biases_cb, sbp2rtcm_sbp_ssr_code_biases_cb, sbp2rtcm_sbp_ssr_gridded_correction_cb, sbp2rtcm_sbp_ssr_grid_definition_cb, sbp2rtcm_sbp_ssr_stec_correction_cb, sbp2rtcm_sbp_gps_eph_cb, sbp2rtcm_sbp_glo_eph_cb, sbp2rtcm_sbp_bds_eph_cb, sbp2rtcm_sbp_gal_eph_cb, sbp2rtcm_sbp_log_cb};
const uint16_t TYPES[T_N] = {0x004A, 0x0048, 0x0075, 0x0640, 0x05DD, 0x05E6, 0x05E1, 0x05F0, 0x05F5, 0x05EB, 0x008A, 0x008C, 0x0089, 0x008D, 0x0401};
uint16_t type_id(int t) { return t == T_GLO ? 0x008B : TYPES[t]; }

struct Out { std::vector<Bytes> frames; bool flood = false; };
uint32_t num_of(const Bytes &f) { return f.size() >= 5 ? (uint32_t)f[3] << 4 | f[4] >> 4 : 0; }
template <class M, class F> bool accepts(const Bytes &p, F f) {
  uint8_t *h = (uint8_t *)malloc(p.size()); memcpy(h, p.data(), p.size()); M *m = (M *)malloc(sizeof(M)); memset((void *)m, 0x5a, sizeof(M));
  swiftnav_bitstream_t b; swiftnav_bitstream_init(&b, h, (uint32_t)p.size() * 8); rtcm3_rc rc = f(&b, m); free(h); free(m); return rc == RC_OK;
}
bool decoder_accepts(const Bytes &p) {
  uint32_t n = (uint32_t)p[0] << 4 | p[1] >> 4;
  switch (n) {
    case 1004: return accepts<rtcm_obs_message>(p, rtcm3_decode_1004_bitstream);
    case 1012: return accepts<rtcm_obs_message>(p, rtcm3_decode_1012_bitstream);
    case 1006: return accepts<rtcm_msg_1006>(p, rtcm3_decode_1006_bitstream);
    case 1008: return accepts<rtcm_msg_1008>(p, rtcm3_decode_1008_bitstream);
    case 1019: return accepts<rtcm_msg_eph>(p, rtcm3_decode_gps_eph_bitstream);
    case 1020: return accepts<rtcm_msg_eph>(p, rtcm3_decode_glo_eph_bitstream);
    case 1029: return accepts<rtcm_msg_1029>(p, rtcm3_decode_1029_bitstream);
    case 1033: return accepts<rtcm_msg_1033>(p, rtcm3_decode_1033_bitstream);
    case 1042: return accepts<rtcm_msg_eph>(p, rtcm3_decode_bds_eph_bitstream);
    case 1045: return accepts<rtcm_msg_eph>(p, rtcm3_decode_gal_eph_fnav_bitstream);
    case 1046: return accepts<rtcm_msg_eph>(p, rtcm3_decode_gal_eph_inav_bitstream);
    case 1230: return accepts<rtcm_msg_1230>(p, rtcm3_decode_1230_bitstream);
    case 4062: return accepts<rtcm_msg_swift_proprietary>(p, rtcm3_decode_4062_bitstream);
    case 1074: case 1084: case 1094: case 1104: case 1114: case 1124: return accepts<rtcm_msm_message>(p, rtcm3_decode_msm4_bitstream);
    case 1075: case 1085: case 1095: case 1105: case 1115: case 1125: return accepts<rtcm_msm_message>(p, rtcm3_decode_msm5_bitstream);
    default: return false;
  }
}
void check_frame(const Bytes &f) {
  VH_CHECK(f.size() >= 8, "frame.size", "%zu bytes", f.size());
  if (f.size() < 8) return;
  size_t len = (size_t)(f[1] & 3) << 8 | f[2];
  VH_CHECK(f[0] == 0xD3 && (f[1] & 0xFC) == 0, "frame.header", "header %02x %02x", f[0], f[1]);
  VH_CHECK(len + 6 == f.size(), "frame.length", "length field %zu in a frame of %zu bytes", len, f.size());
  if (len + 6 != f.size()) return;
  uint32_t crc = crc24q_ref(f.data(), f.size() - 3), got = (uint32_t)f[f.size() - 3] << 16 | (uint32_t)f[f.size() - 2] << 8 | f[f.size() - 1];
  VH_CHECK(crc == got, "frame.crc", "CRC %06x expected %06x in a frame of %zu bytes", got, crc, f.size());
  if (len < 2) return;
  Bytes p(f.begin() + 3, f.end() - 3);
  bool geo = num_of(f) == 1042 && ((p[1] & 15) << 2 | p[2] >> 6) < 6;  // BeiDou geostationary satellites: sent, not decoded
  VH_CHECK(geo || decoder_accepts(p), "frame.refused", "the decoder refuses message %u of %zu bytes", num_of(f), len);
  ev("frame-checked"); evs(fmt("rtcm-%u", num_of(f)));
}
s32 out_cb(u8 *b, u16 n, void *ctx) {
  Out *o = (Out *)ctx; if (o->frames.size() > 5000) { if (!o->flood) violate("flood", "more than 5000 frames"); o->flood = true; return n; }
  o->frames.emplace_back(b, b + n); digest(b, n); distinct(b, n); check_frame(o->frames.back()); return n;
}
struct Conv {
  rtcm3_out_state *st; Out out;
  explicit Conv(Rng &r) { st = (rtcm3_out_state *)malloc(sizeof *st); int fb = fill(r); memset((void *)st, fb, sizeof *st); sbp2rtcm_init(st, out_cb, &out); }
  ~Conv() { free(st); }
  void give(int t, uint16_t sender, const Bytes &p) {
    uint8_t *h = (uint8_t *)malloc(p.size() ? p.size() : 1); if (!p.empty()) memcpy(h, p.data(), p.size());
    CBS[t](sender, (u8)p.size(), h, st); free(h); ev("sbp-in");
  }
};

// ------------------------------------------------------------ observations
struct SObs { int code, sat; uint32_t P; int32_t Li; int Lf; int Di, Df, cn0, lock, flags; };
enum { F_CODE = 1, F_PHASE = 2, F_HALF = 4, F_DOP = 8, F_RAIM = 0x80 };
Bytes obs_msg(int64_t t, int32_t nsr, int nobs, const std::vector<SObs> &v) {
  W w; w.u32((uint32_t)(t % WEEK)); w.u32((uint32_t)nsr); w.u16((uint32_t)(t / WEEK)); w.u8((uint32_t)nobs);
  for (auto &o : v) { w.u32(o.P); w.u32((uint32_t)o.Li); w.u8((uint32_t)o.Lf); w.u16((uint32_t)(uint16_t)o.Di); w.u8((uint32_t)o.Df); w.u8((uint32_t)o.cn0); w.u8((uint32_t)o.lock); w.u8((uint32_t)o.flags); w.u8((uint32_t)o.sat); w.u8((uint32_t)o.code); }
  return w.b;
}
std::vector<Bytes> obs_msgs(Rng &r, int64_t t, const std::vector<SObs> &v) {
  size_t per = r.chance(2, 3) ? 14 : 1 + r.below(14); while ((v.size() + per - 1) / per > 15) per++;
  size_t tot = v.empty() ? 1 : (v.size() + per - 1) / per; std::vector<Bytes> m; int32_t ns = r.chance(1, 2) ? 0 : (int32_t)r.range(-400000, 400000);
  for (size_t k = 0; k < tot; k++) m.push_back(obs_msg(t, ns, (int)(tot << 4 | k), std::vector<SObs>(v.begin() + (long)(k * per), v.begin() + (long)std::min(v.size(), (k + 1) * per))));
  return m;
}
int cons_of(int code) { for (int c = 0; c < 6; c++) for (int id = 1; id <= 32; id++) if (sig_of(c, id).code == code) return c; return -1; }
Sig sig_code(int code) { for (int c = 0; c < 6; c++) for (int id = 1; id <= 32; id++) { Sig s = sig_of(c, id); if (s.code == code) return s; } return {-1, 0, 0}; }
double freq_of(int code, int fcn) { Sig s = sig_code(code); if (s.f == 1) return 1602e6 + (fcn - 7) * 562500.0; if (s.f == 2) return 1246e6 + (fcn - 7) * 437500.0; return s.f; }
bool known_sat(int cons, int sat) { return cons >= 0 && sat >= MSM_FIRST[cons] && sat < MSM_FIRST[cons] + MSM_SATS[cons]; }

struct Cfg { int mode; /* 4, 5 or 0 legacy */ bool leap; int leaps; int fcn[64]; };
Cfg configure(Rng &r, Conv &c, int mode, int64_t t) {
  Cfg g; g.mode = mode; g.leap = !r.chance(1, 12); g.leaps = leap_at(t);
  if (mode == 4 || r.chance(1, 2) || mode == 0) sbp2rtcm_set_rtcm_out_mode(mode == 4 ? MSM4 : mode == 5 ? MSM5 : r.chance(1, 2) ? MSM_UNKNOWN : MSM1, c.st);
  if (g.leap) sbp2rtcm_set_leap_second((s8)g.leaps, c.st);
  for (auto &f : g.fcn) f = 255;
  for (int s = 1; s <= 28; s++) if (r.chance(7, 8)) {
    int f = r.chance(15, 16) ? 1 + (int)r.below(14) : (int)r.bits(8); sbp_gnss_signal_t sid; sid.sat = (u8)s; sid.code = CODE_GLO_L1OF; sbp2rtcm_set_glo_fcn(sid, (u8)f, c.st); g.fcn[s] = f >= 1 && f <= 14 ? f - 1 : 255;
  }
  return g;
}
// flags describing what must survive
struct XObs { SObs o; bool tightP = true, tightL = true, tightD = true, dup = false, early = false; };
bool band2(int c) { return c == CODE_GPS_L2CM || c == CODE_GPS_L2P || c == CODE_GLO_L2OF || c == CODE_GLO_L2P; }
bool c_of_glo(int c) { return c == CODE_GLO_L1OF || c == CODE_GLO_L2OF; }
bool band1(int c) { return c == CODE_GPS_L1CA || c == CODE_GPS_L1P || c == CODE_GLO_L1OF || c == CODE_GLO_L1P; }
std::vector<XObs> gen_epoch(Rng &r, const Cfg &g, bool wild) {
  std::vector<XObs> v; int nc = 0; bool big = r.chance(1, 8); static const int PC[] = {0, 1, 2, 5, 0, 1, 2, 5, 4, 3};
  std::set<int> cs; bool full = r.chance(1, 40); int want = full ? 6 : 1 + (int)r.below(g.mode ? 4 : 2); for (int i = 0; i < want; i++) cs.insert(PC[r.below(10)]);
  if (!g.mode) { if (r.chance(3, 4)) cs.insert((int)r.below(2)); }
  for (int cons : cs) {
    std::vector<int> codes; std::set<int> cset; auto ids = sig_ids(cons); int ng = 1 + (int)r.below(big ? 8 : 4); if (full) ng = 3;
    if (!g.mode && cons < 2 && r.chance(7, 8)) { if (cons == 0) { cset.insert(r.chance(2, 3) ? CODE_GPS_L1CA : CODE_GPS_L1P); if (r.chance(3, 4)) cset.insert(r.chance(1, 2) ? CODE_GPS_L2CM : CODE_GPS_L2P); } else { cset.insert(CODE_GLO_L1OF); if (r.chance(3, 4)) cset.insert(CODE_GLO_L2OF); } }
    else for (int i = 0; i < ng; i++) cset.insert(sig_of(cons, r.pick(ids)).code);
    codes.assign(cset.begin(), cset.end()); size_t lim = wild && r.chance(1, 4) ? 100 : 64;
    int ns = full ? 64 : 1 + (int)r.below(big ? 40 : 10); if (ns > MSM_SATS[cons]) ns = MSM_SATS[cons]; while ((size_t)ns * codes.size() > lim) ns--; if (!g.mode && ns > 31) ns = 31;
    std::set<int> sats; while ((int)sats.size() < ns) sats.insert(MSM_FIRST[cons] + (int)r.below((uint32_t)MSM_SATS[cons]));
    std::vector<int> order(sats.begin(), sats.end()); if (r.chance(1, 2)) for (size_t i = order.size(); i > 1; i--) std::swap(order[i - 1], order[r.below((uint32_t)i)]);
    for (int sat : order) {
      double R = r.chance(9, 10) ? r.uniform(19e6, 27e6) : r.chance(1, 2) ? r.uniform(0, 40e6) : r.chance(1, 8) ? r.uniform(0, 600) : r.uniform(0, 85.8e6), rate = r.chance(9, 10) ? r.uniform(-850, 850) : r.uniform(-8100, 8100);
      bool outP = wild && r.chance(1, 12), outL = r.chance(1, 8), outD = wild && r.chance(1, 12);
      double maxP = -1e18, minP = 1e18, maxD = -1e18, minD = 1e18; size_t first = v.size();
      for (int code : codes) {
        if ((!full && r.chance(1, 6)) || nc >= 210) continue;
        SObs o; o.code = code; o.sat = sat; int fcn = cons == 1 ? g.fcn[sat] : 255; double f = freq_of(code, fcn == 255 ? 7 : fcn);
        double P = R + r.uniform(-60, 60); if (outP) P += r.uniform(-1500, 1500); if (P < 0) P = 0; if (P > 85.89e6) P = 85.89e6; o.P = (uint32_t)std::llround(P * 50);
        double Lm = o.P / 50.0 + r.uniform(-850, 850); if (outL) Lm += r.uniform(-4000, 4000); if (r.chance(1, 40)) Lm = r.uniform(-1e8, 1e8);
        int64_t L = std::llround(Lm / C0 * f * 256); if (o.P < 40000 && r.chance(1, 2)) L = r.range(-800, 800); o.Li = (int32_t)(L >> 8); o.Lf = (int)(L & 255);
        double D = -(rate + r.uniform(-0.5, 0.5) + (outD ? r.uniform(-20, 20) : 0)) * f / C0; if (r.chance(1, 60)) D = (double)(int16_t)r.bits(16); int64_t d = std::llround(D * 256); if (d > 32767 * 256 + 255) d = 32767 * 256 + 255; if (d < -32768 * 256) d = -32768 * 256; o.Di = (int)(d >> 8); o.Df = (int)(d & 255);
        o.cn0 = r.chance(1, 12) ? (int)r.bits(8) : 80 + (int)r.below(140); o.lock = (int)r.below(16);
        o.flags = F_CODE | (r.chance(7, 8) ? F_PHASE : 0) | (r.chance(7, 8) ? F_HALF : 0) | (r.chance(7, 8) ? F_DOP : 0); if (r.chance(1, 20)) o.flags |= F_RAIM; if (r.chance(1, 20)) o.flags &= ~F_CODE; if (r.chance(1, 20)) o.flags |= 0x10;
        XObs x; x.o = o; v.push_back(x); nc++;
        if ((o.flags & F_CODE) && !(o.flags & F_RAIM)) { maxP = std::max(maxP, o.P / 50.0); minP = std::min(minP, o.P / 50.0); if (o.flags & F_DOP) { double m = -(o.Di + o.Df / 256.0) * C0 / f; maxD = std::max(maxD, m); minD = std::min(minD, m); } }
      }
      for (size_t i = first; i < v.size(); i++) {
        SObs &o = v[i].o; int fcn = cons == 1 ? g.fcn[sat] : 255; double f = freq_of(o.code, fcn == 255 ? 7 : fcn), Lm = (o.Li + o.Lf / 256.0) * C0 / f;
        v[i].tightP = maxP - minP <= 140 && maxP < 254.9 * C0 / 1000; v[i].tightL = v[i].tightP && std::fabs(Lm - maxP) < 1000 && std::fabs(Lm - minP) < 1000; v[i].tightD = maxD - minD <= 1.05 && maxD < 8180 && minD > -8180;
      }
    }
  }
  if (!v.empty() && v.size() < 210 && wild && r.chance(1, 10)) { XObs x = v[r.below((uint32_t)v.size())]; x.o.P += (uint32_t)r.below(100); v.push_back(x); for (auto &y : v) if (y.o.code == x.o.code && y.o.sat == x.o.sat) y.dup = true; }
  if (v.size() > 210) v.resize(210);
  if (g.mode || r.chance(1, 20)) { if (r.chance(1, 3)) for (size_t i = v.size(); i > 1; i--) std::swap(v[i - 1], v[r.below((uint32_t)i)]); }
  else std::stable_sort(v.begin(), v.end(), [](const XObs &a, const XObs &b) { return band2(a.o.code) < band2(b.o.code); });
  // legacy messages: the second frequency of a satellite follows the first one
  for (size_t i = 0; i < v.size(); i++) if (band2(v[i].o.code)) { bool l1 = false; for (size_t j = 0; j < i; j++) l1 |= band1(v[j].o.code) && (v[j].o.flags & F_CODE) && !(v[j].o.flags & F_RAIM) && v[j].o.sat == v[i].o.sat && cons_of(v[j].o.code) == cons_of(v[i].o.code); v[i].early = !l1; }
  return v;
}
bool sent(const XObs &x) { return (x.o.flags & F_CODE) && !(x.o.flags & F_RAIM); }

struct Cell { int cons, sat, id, ims, mod, info, lock, hca, cnr; int64_t rate, pr, cp, dop; };
struct Msm { int num, cons, type; uint32_t stn; int64_t tod, dow; int mult; std::vector<Cell> cells; int nsat, nsig; bool ok = false; };
Msm parse_msm(const Bytes &f) {
  Msm m; BitR b(f.data() + 3, f.size() - 6); m.num = (int)b.get(12); m.cons = (m.num - 1070) / 10; m.type = m.num % 10; m.stn = (uint32_t)b.get(12);
  if (m.cons == 1) { m.dow = (int64_t)b.get(3); m.tod = (int64_t)b.get(27); } else { m.dow = 0; m.tod = (int64_t)b.get(30); }
  m.mult = (int)b.get(1); b.get(3 + 7 + 2 + 2 + 1 + 3);
  std::vector<int> sats, sigs; for (int i = 0; i < 64; i++) if (b.get(1)) sats.push_back(i); for (int i = 1; i <= 32; i++) if (b.get(1)) sigs.push_back(i);
  m.nsat = (int)sats.size(); m.nsig = (int)sigs.size(); if (sats.size() * sigs.size() > 64) { violate("msm.cells", "%d: %zu satellites by %zu signals", m.num, sats.size(), sigs.size()); return m; }
  std::vector<size_t> cs; for (size_t i = 0; i < sats.size(); i++) for (size_t j = 0; j < sigs.size(); j++) if (b.get(1)) { Cell c; memset(&c, 0, sizeof c); c.cons = m.cons; c.sat = MSM_FIRST[m.cons] + sats[i]; c.id = sigs[j]; cs.push_back(i); m.cells.push_back(c); }
  bool e = m.type == 5; std::vector<int> ims, info, mod; std::vector<int64_t> rate;
  for (size_t i = 0; i < sats.size(); i++) ims.push_back((int)b.get(8)); for (size_t i = 0; i < sats.size(); i++) info.push_back(e ? (int)b.get(4) : 15); for (size_t i = 0; i < sats.size(); i++) mod.push_back((int)b.get(10)); for (size_t i = 0; i < sats.size(); i++) rate.push_back(e ? b.gets(14) : -8192);
  size_t n = m.cells.size();
  for (size_t i = 0; i < n; i++) { Cell &c = m.cells[i]; c.ims = ims[cs[i]]; c.mod = mod[cs[i]]; c.info = info[cs[i]]; c.rate = rate[cs[i]]; c.pr = b.gets(15); }
  for (size_t i = 0; i < n; i++) m.cells[i].cp = b.gets(22); for (size_t i = 0; i < n; i++) m.cells[i].lock = (int)b.get(4); for (size_t i = 0; i < n; i++) m.cells[i].hca = (int)b.get(1); for (size_t i = 0; i < n; i++) m.cells[i].cnr = (int)b.get(6); for (size_t i = 0; i < n; i++) m.cells[i].dop = e ? b.gets(15) : -16384;
  VH_CHECK(!b.over && (b.pos + 7) / 8 == f.size() - 6, "msm.size", "%d: %zu bits of content in %zu bytes", m.num, b.pos, f.size() - 6); m.ok = !b.over; return m;
}
int64_t glo_week_ms(const Cfg &g, int64_t t) { return ((t % WEEK + 3 * 3600000 - g.leaps * 1000) % WEEK + WEEK) % WEEK; }
bool is_obs(uint32_t n) { return n == 1004 || n == 1012 || (n >= 1071 && n <= 1127); }
// check the frames of one epoch against what went in
void check_msm(Rng &, const Cfg &g, int64_t t, uint16_t sender, const std::vector<XObs> &v, const std::vector<Bytes> &frames, bool complete) {
  std::map<std::pair<int, int>, const XObs *> src; std::map<int, std::set<int>> csat, csig; std::set<std::pair<int, int>> got;
  for (auto &x : v) if (sent(x)) { int c = cons_of(x.o.code); if (!src.count({x.o.code, x.o.sat})) src[{x.o.code, x.o.sat}] = &x; if (known_sat(c, x.o.sat)) { csat[c].insert(x.o.sat); csig[c].insert(x.o.code); } }
  std::set<int> seen; size_t nobs = 0; for (auto &f : frames) if (is_obs(num_of(f))) nobs++;
  size_t k = 0;
  for (auto &f : frames) {
    if (!is_obs(num_of(f))) continue;
    k++; uint32_t n = num_of(f); VH_CHECK(n >= 1074 && n <= 1125 && (int)n % 10 == g.mode, "obs.mode", "message %u in MSM%d mode", n, g.mode); if (n < 1074 || n > 1125) continue;
    Msm m = parse_msm(f); if (!m.ok) return;
    VH_CHECK(seen.insert(m.cons).second, "obs.repeated-constellation", "message %u sent twice for an epoch", n);
    VH_CHECK(m.mult == (k < nobs), "obs.multiple-flag", "message %u, %zu of %zu: multiple message bit %d", n, k, nobs, m.mult);
    VH_CHECK(m.stn == (sender & 0xFFFu), "obs.station", "station %u from sender %04x", m.stn, sender);
    int64_t tow = t % WEEK; if (m.cons == 5) tow = ((t - 14000) % WEEK + WEEK) % WEEK;
    if (m.cons == 1) { int64_t w = glo_week_ms(g, t); VH_CHECK(m.tod == w % DAY && m.dow == w / DAY, "obs.time", "GLONASS time %lld day %lld expected %lld %lld", (long long)m.tod, (long long)m.dow, (long long)(w % DAY), (long long)(w / DAY)); }
    else VH_CHECK(m.tod == tow, "obs.time", "message %u: time %lld expected %lld", n, (long long)m.tod, (long long)tow);
    VH_CHECK(!m.cells.empty(), "obs.empty", "message %u without a signal", n);
    for (auto &c : m.cells) {
      Sig s = sig_of(m.cons, c.id); auto it = s.code < 0 ? src.end() : src.find({s.code, c.sat});
      VH_CHECK(it != src.end(), "obs.invented", "message %u: signal id %d satellite %d was not in the epoch", n, c.id, c.sat); if (it == src.end()) continue;
      const XObs &x = *it->second; const SObs &o = x.o; if (!got.insert({s.code, c.sat}).second) { continue; }
      ev("cell-checked"); if (x.dup) continue;
      int fcn = m.cons == 1 ? g.fcn[c.sat] : 255; bool fok = m.cons != 1 || fcn != 255; double f = freq_of(s.code, fcn == 255 ? 7 : fcn);
      ld rough = c.ims + c.mod / 1024.0L; bool hasP = c.ims != 255 && c.pr != -16384;
      if (hasP) { ld P = (rough + ldexpl((ld)c.pr, -24)) * C0 / 1000; VH_CHECK(fabsl(P - o.P * 0.02L) <= C0 / 1000 * ldexpl(1, -25) + 1e-5L, "obs.P", "code %d sat %d: pseudorange %.5f expected %.2f", o.code, o.sat, (double)P, o.P / 50.0); }
      else VH_CHECK(!x.tightP, "obs.P-missing", "code %d sat %d: no pseudorange (%.2f)", o.code, o.sat, o.P / 50.0);
      bool hasL = c.ims != 255 && c.cp != -2097152;
      if (hasL) {
        VH_CHECK((o.flags & F_PHASE), "obs.L-invented", "code %d sat %d: phase without a valid phase", o.code, o.sat);
        if (fok) { ld L = (rough + ldexpl((ld)c.cp, -29)) * f / 1000; VH_CHECK(fabsl(L - (o.Li + o.Lf / 256.0L)) <= ldexpl(1, -30) * f / 1000 + 1e-6L, "obs.L", "code %d sat %d: phase %.5f expected %.5f", o.code, o.sat, (double)L, o.Li + o.Lf / 256.0); }
        VH_CHECK(c.hca == !(o.flags & F_HALF), "obs.half-cycle", "code %d sat %d: half cycle indicator %d, flags %02x", o.code, o.sat, c.hca, o.flags);
      } else VH_CHECK(!(o.flags & F_PHASE) || !fok || !x.tightL, "obs.L-missing", "code %d sat %d: phase not sent", o.code, o.sat);
      if (m.type == 5) {
        bool hasD = c.rate != -8192 && c.dop != -16384;
        if (hasD) { VH_CHECK((o.flags & F_DOP), "obs.D-invented", "code %d sat %d: Doppler without a valid Doppler", o.code, o.sat); if (fok) { ld D = (ld)c.rate + 0.0001L * c.dop, w = -(o.Di + o.Df / 256.0L) * C0 / f; VH_CHECK(fabsl(D - w) <= 0.00005L + 1e-7L, "obs.D", "code %d sat %d: range rate %.5f expected %.5f", o.code, o.sat, (double)D, (double)w); } }
        else VH_CHECK(!(o.flags & F_DOP) || !fok || !x.tightD, "obs.D-missing", "code %d sat %d: Doppler not sent", o.code, o.sat);
        if (m.cons == 1) VH_CHECK(c.info == (fok ? fcn : 15) || (!fok && c.info > 13), "obs.fcn", "sat %d: frequency channel %d expected %d", o.sat, c.info, fok ? fcn : 15);
      }
      if (o.cn0 <= 252) VH_CHECK(std::fabs(c.cnr - o.cn0 / 4.0) <= 0.5001, "obs.cn0", "code %d sat %d: C/N0 %d expected %.2f", o.code, o.sat, c.cnr, o.cn0 / 4.0);
      VH_CHECK(c.lock == o.lock, "obs.lock", "code %d sat %d: lock %d expected %d", o.code, o.sat, c.lock, o.lock);
    }
  }
  if (!complete) return;
  for (auto &p : src) {
    int c = cons_of(p.first.first); Sig s = sig_code(p.first.first); if (!known_sat(c, p.first.second) || !s.sup) continue;
    if (c == 1 && !g.leap) { VH_CHECK(!got.count(p.first), "obs.time-unknown", "GLONASS observation without leap second"); continue; }
    if (csat[c].size() * csig[c].size() > 64) { ev("constellation-too-large"); continue; }
    VH_CHECK(got.count(p.first), "obs.lost", "code %d sat %d was not sent (%zu by %zu)", p.first.first, p.first.second, csat[c].size(), csig[c].size());
  }
}
struct LegSat { int sv, fcn; int c1, c2; ld P1, L1m, P2, L2m; bool hasP1, hasL1, hasP2, hasL2; int cn1, cn2; };
void check_legacy(const Cfg &g, int64_t t, uint16_t sender, const std::vector<XObs> &v, const std::vector<Bytes> &frames, bool complete) {
  std::map<std::pair<int, int>, const XObs *> src; std::map<int, int> l1; for (auto &x : v) if (sent(x)) { src[{x.o.code, x.o.sat}] = &x; if (x.o.code == CODE_GPS_L1CA || x.o.code == CODE_GPS_L1P) l1[x.o.sat]++; if (x.o.code == CODE_GLO_L1OF || x.o.code == CODE_GLO_L1P) l1[1000 + x.o.sat]++; }
  auto find = [&](int a, int sat) -> const XObs * { auto it = src.find({a, sat}); return it == src.end() ? nullptr : it->second; };
  size_t nobs = 0, k = 0; for (auto &f : frames) nobs += is_obs(num_of(f)); std::set<uint32_t> seen; std::set<int> have, have2;
  for (auto &f : frames) {
    uint32_t n = num_of(f); if (!is_obs(n)) continue; k++;
    VH_CHECK(n == 1004 || n == 1012, "obs.mode", "message %u in legacy mode", n); if (n > 1012) continue; bool glo = n == 1012;
    VH_CHECK(seen.insert(n).second, "obs.repeated-constellation", "message %u sent twice for an epoch", n);
    BitR b(f.data() + 3, f.size() - 6); b.get(12); uint32_t stn = (uint32_t)b.get(12); int64_t tow = (int64_t)b.get(glo ? 27 : 30); int sync = (int)b.get(1), ns = (int)b.get(5); b.get(4);
    VH_CHECK(stn == (sender & 0xFFFu), "obs.station", "station %u from sender %04x", stn, sender);
    VH_CHECK(sync == (k < nobs), "obs.multiple-flag", "message %u, %zu of %zu: synchronous bit %d", n, k, nobs, sync);
    int64_t want = glo ? glo_week_ms(g, t) % DAY : t % WEEK; VH_CHECK(tow == want, "obs.time", "message %u: time %lld expected %lld", n, (long long)tow, (long long)want);
    for (int i = 0; i < ns; i++) {
      int sv = (int)b.get(6), c1 = (int)b.get(1), fcn = glo ? (int)b.get(5) : 0; ld pr = b.get(glo ? 25 : 24) * 0.02L; int64_t d1 = b.gets(20); b.get(7); ld P1 = pr + (ld)b.get(glo ? 7 : 8) * prunit(glo); int cn1 = (int)b.get(8), c2 = (int)b.get(2); int64_t pd = b.gets(14), d2 = b.gets(20); b.get(7); int cn2 = (int)b.get(8);
      const XObs *x = find(glo ? (c1 ? CODE_GLO_L1P : CODE_GLO_L1OF) : (c1 ? CODE_GPS_L1P : CODE_GPS_L1CA), sv); if (!x && glo) x = find(CODE_GLO_L1P, sv);  // GLONASS P: see known findings
      const XObs *alt = glo ? nullptr : find(c1 ? CODE_GPS_L1CA : CODE_GPS_L1P, sv);
      if (!x) { if (alt) violate("obs.code-indicator", "sat %d: code indicator %d", sv, c1); else violate("obs.invented", "message %u: satellite %d was not in the epoch", n, sv); continue; }
      have.insert(glo ? 1000 + sv : sv); if (l1[glo ? 1000 + sv : sv] > 1 || x->dup) { ev("ambiguous-satellite"); continue; }
      ev("satellite-checked"); const SObs &o = x->o; double f1 = freq_of(o.code, fcn);
      if (glo) VH_CHECK(fcn == g.fcn[sv], "obs.fcn", "sat %d: frequency channel %d expected %d", sv, fcn, g.fcn[sv]);
      have.insert(glo ? 1000 + sv : sv);
      bool inrange = o.P < (glo ? 76.1e6 : 76.7e6) * 50.0; 
      if (!inrange) { ev("pseudorange-beyond-legacy"); continue; }
      VH_CHECK(fabsl(P1 - o.P * 0.02L) <= 0.0101L, "obs.P", "sat %d: pseudorange %.3f expected %.3f", sv, (double)P1, o.P * 0.02);
      auto phase = [&](const SObs &q, ld Lm, double f, const char *w) { ld d = Lm * f / C0 - (q.Li + q.Lf / 256.0L), m = remainderl(d, 1500); VH_CHECK(fabsl(m) <= 0.00026L * f / C0, "obs.L", "sat %d %s: phase %.5f expected %.5f modulo 1500 cycles", sv, w, (double)(Lm * f / C0), q.Li + q.Lf / 256.0); };
      bool ph1 = (o.flags & F_PHASE) && (o.flags & F_HALF);
      if (d1 != -524288) { VH_CHECK((o.flags & F_PHASE), "obs.L-invented", "sat %d: L1 phase without a valid phase", sv); if (ph1) phase(o, P1 + d1 * 0.0005L, f1, "L1"); }
      else VH_CHECK(!ph1, "obs.L-missing", "sat %d: L1 phase not sent", sv);
      VH_CHECK(std::abs(cn1 - o.cn0) <= 1, "obs.cn0", "sat %d: C/N0 %.2f expected %.2f", sv, cn1 / 4.0, o.cn0 / 4.0);
      const XObs *y = find(glo ? (c2 ? CODE_GLO_L2P : CODE_GLO_L2OF) : (c2 ? CODE_GPS_L2P : CODE_GPS_L2CM), sv), *ya = find(glo ? (c2 ? CODE_GLO_L2OF : CODE_GLO_L2P) : (c2 ? CODE_GPS_L2CM : CODE_GPS_L2P), sv);
      if ((y && y->early) || (ya && ya->early)) { ev("l2-before-l1"); continue; }
      if (y && ya) { ev("ambiguous-satellite"); continue; }
      if (!y && ya) { if (pd != -8192 && !glo) violate("obs.code-indicator", "sat %d: L2 code indicator %d", sv, c2); if (!glo) continue; y = ya; }
      if (!y) { VH_CHECK(pd == -8192 && d2 == -524288, "obs.invented", "sat %d: L2 pseudorange difference %lld without an L2 observation", sv, (long long)pd); continue; }
      if (y->dup || y->early) continue;
      const SObs &q = y->o; double f2 = freq_of(q.code, fcn); ev("l2-checked");
      if (pd != -8192) VH_CHECK(fabsl(P1 + pd * 0.02L - q.P * 0.02L) <= 0.0201L, "obs.P", "sat %d: L2 pseudorange %.3f expected %.3f", sv, (double)(P1 + pd * 0.02L), q.P * 0.02);
      else VH_CHECK(std::fabs((double)q.P - (double)o.P) > 8185, "obs.P-missing", "sat %d: L2 pseudorange not sent", sv);
      bool ph2 = (q.flags & F_PHASE) && (q.flags & F_HALF);
      if (d2 != -524288) { VH_CHECK((q.flags & F_PHASE), "obs.L-invented", "sat %d: L2 phase without a valid phase", sv); if (ph2) phase(q, P1 + d2 * 0.0005L, f2, "L2"); }
      else VH_CHECK(!ph2 || pd == -8192, "obs.L-missing", "sat %d: L2 phase not sent", sv);
      VH_CHECK(std::abs(cn2 - q.cn0) <= 1, "obs.cn0", "sat %d L2: C/N0 %.2f expected %.2f", sv, cn2 / 4.0, q.cn0 / 4.0);
      if (pd != -8192) have2.insert(glo ? 1000 + sv : sv);
    }
    VH_CHECK(!b.over && (b.pos + 7) / 8 == f.size() - 6, "legacy.size", "%u: %zu bits of content in %zu bytes", n, b.pos, f.size() - 6);
  }
  if (!complete) return;
  size_t ng = 0, nr = 0; for (auto &p : l1) (p.first > 1000 ? nr : ng) += (size_t)p.second;
  for (auto &x : v) if (sent(x)) {
    bool gps = x.o.code == CODE_GPS_L1CA || x.o.code == CODE_GPS_L1P, glo = x.o.code == CODE_GLO_L1OF; if (!gps && !glo) continue; if (!(x.o.flags & F_PHASE) || !(x.o.flags & F_HALF)) continue; if ((gps ? ng : nr) > 31) { ev("more-than-31-satellites"); continue; } if (x.o.P >= 76.7e6 * 50) continue;
    if (glo && (!g.leap || g.fcn[x.o.sat] == 255)) continue;
    VH_CHECK(have.count(glo ? 1000 + x.o.sat : x.o.sat), "obs.lost", "code %d sat %d was not sent (P %.2f)", x.o.code, x.o.sat, x.o.P / 50.0);
  }
}
// through the RTCM3 -> SBP converter
struct Back {
  Ctx c; bool came = false; explicit Back(Rng &r, const Cfg &g, int64_t t) : c(r) {
    c.st = (rtcm3_sbp_state *)malloc(sizeof *c.st); memset((void *)c.st, fill(r), sizeof *c.st); c.tt = (time_truth_t *)aligned_alloc(16, 16); time_truth_init(c.tt);
    if (!paired()) { for (int i = 0; i < CONSTELLATION_COUNT; i++) constellation_mask[i] = false; for (int i = 0; i < CODE_COUNT; i++) sbp_signal_biases[i] = 0; for (int i = 0; i < 2; i++) sbp_glo_code_bias[i] = sbp_glo_phase_bias[i] = 0; }
    rtcm2sbp_init(c.st, c.tt, cb, nullptr, &c); when(t);
    for (int s = 1; s <= 28; s++) if (g.fcn[s] != 255) { sbp_v4_gnss_signal_t sid; sid.sat = (u8)s; sid.code = CODE_GLO_L1OF; rtcm2sbp_set_glo_fcn(sid, (u8)(g.fcn[s] + 1), c.st); }
  }
  ~Back() { free(c.st); free(c.tt); }
  void when(int64_t t) { c.st->use_time_from_input_obs = true; c.st->time_from_input_data = gt(t); }
  void feed(const Bytes &f) { size_t n = f.size() - 6; uint8_t *h = (uint8_t *)malloc(n); memcpy(h, f.data() + 3, n); rtcm2sbp_decode_payload(h, (uint32_t)n, c.st); free(h); }
};
void check_back(const Cfg &g, Back &b, int64_t t, uint16_t sender, const std::vector<XObs> &v, bool firsttow0, bool legacy) {
  std::map<std::pair<int, int>, const XObs *> src; std::map<int, std::set<int>> csat, csig; std::map<int, int> l1, l2;
  for (auto &x : v) if (sent(x)) { int c = cons_of(x.o.code); src[{x.o.code, x.o.sat}] = &x; if (known_sat(c, x.o.sat)) { csat[c].insert(x.o.sat); csig[c].insert(x.o.code); } if (x.o.code == CODE_GPS_L1CA || x.o.code == CODE_GPS_L1P) l1[x.o.sat]++; if (x.o.code == CODE_GPS_L2CM || x.o.code == CODE_GPS_L2P) l2[x.o.sat]++; if (x.o.code == CODE_GLO_L1OF || x.o.code == CODE_GLO_L1P) l1[1000 + x.o.sat]++; if (x.o.code == CODE_GLO_L2OF || x.o.code == CODE_GLO_L2P) l2[1000 + x.o.sat]++; }
  std::vector<Item> items = group(b.c); b.c.out.clear(); if (violated()) return;
  int nl1[2] = {0, 0}; for (auto &p : l1) nl1[p.first > 1000] += p.second;
  std::set<std::pair<int, int>> got; int n = 0;
  for (auto &it : items) {
    if (it.type != SbpMsgObs) { VH_CHECK(it.type == SbpMsgLog, "back.type", "message type %d from observations", it.type); continue; }
    n++; VH_CHECK(it.msg.obs.header.t.wn == t / WEEK && it.msg.obs.header.t.tow == t % WEEK, "back.time", "epoch %u/%u came back as %u/%u", (unsigned)(t / WEEK), (unsigned)(t % WEEK), it.msg.obs.header.t.wn, it.msg.obs.header.t.tow);
    VH_CHECK(it.sender == snd(sender & 0xFFF), "back.sender", "sender %04x from station %u", it.sender, sender & 0xFFF);
    for (auto &o : it.obs) {
      auto f = src.find({o.sid.code, o.sid.sat}); if (f == src.end() && legacy && (o.sid.code == CODE_GLO_L1OF || o.sid.code == CODE_GLO_L2OF)) { f = src.find({o.sid.code == CODE_GLO_L1OF ? CODE_GLO_L1P : CODE_GLO_L2P, o.sid.sat}); if (f != src.end()) { violate("back.glo-p-code", "GLONASS P code observation came back as C/A"); continue; } }
      VH_CHECK(f != src.end(), "back.invented", "code %d sat %d was not in the epoch", o.sid.code, o.sid.sat); if (f == src.end()) continue;
      if (legacy && f->second->o.code != o.sid.code) continue;
      int k2 = c_of_glo(o.sid.code) ? 1000 + o.sid.sat : o.sid.sat; if (legacy && (l1[k2] > 1 || l2[k2] > 1)) { got.insert(f->first); continue; }
      VH_CHECK(got.insert(f->first).second, "back.repeated", "code %d sat %d twice", o.sid.code, o.sid.sat);
      const XObs &x = *f->second; if (x.dup) continue; int c = cons_of(o.sid.code); int key = c == 1 ? 1000 + o.sid.sat : o.sid.sat; if (legacy && (l1[key] > 1 || l2[key] > 1)) continue;
      const SObs &s = x.o; if (legacy && s.P > 76.1e6 * 50) continue; double fr = freq_of(s.code, c == 1 && g.fcn[s.sat] != 255 ? g.fcn[s.sat] : 7);
      ev("round-trip-compared");
      VH_CHECK(std::llabs((int64_t)o.P - s.P) <= (legacy ? 2 : 1), "back.P", "code %d sat %d: P %.2f came back as %.2f", s.code, s.sat, s.P / 50.0, o.P / 50.0);
      int64_t L0 = (int64_t)s.Li * 256 + s.Lf, L1 = (int64_t)o.L.i * 256 + o.L.f;
      if (o.flags & 2) { VH_CHECK(s.flags & F_PHASE, "back.L-invented", "code %d sat %d: phase without a valid phase", s.code, s.sat); ld d = (ld)(L1 - L0) / 256; if (legacy) d = remainderl(d, 1500); VH_CHECK(fabsl(d) <= (legacy ? 0.00026L * fr / C0 : ldexpl(1, -30) * fr / 1000) + 0.503L / 256, "back.L", "code %d sat %d: L %.4f came back as %.4f", s.code, s.sat, (double)L0 / 256, (double)L1 / 256); VH_CHECK(!(o.flags & 4) || (s.flags & F_HALF), "back.half-cycle", "code %d sat %d: half cycle became known", s.code, s.sat); }
      else VH_CHECK(!(s.flags & F_PHASE) || !x.tightL || (c == 1 && g.fcn[s.sat] == 255), "back.L-lost", "code %d sat %d: phase lost", s.code, s.sat);
      if ((o.flags & 2) && (s.flags & F_HALF)) VH_CHECK(o.flags & 4, "back.half-cycle", "code %d sat %d: half cycle became unknown", s.code, s.sat);
      int64_t D0 = (int64_t)s.Di * 256 + s.Df, D1 = (int64_t)o.D.i * 256 + o.D.f;
      if (o.flags & 8) { VH_CHECK(s.flags & F_DOP, "back.D-invented", "code %d sat %d: Doppler without a valid Doppler", s.code, s.sat); VH_CHECK(std::llabs(D0 - D1) <= 1, "back.D", "code %d sat %d: D %.4f came back as %.4f", s.code, s.sat, (double)D0 / 256, (double)D1 / 256); }
      else VH_CHECK(!(s.flags & F_DOP) || !x.tightD || g.mode != 5 || std::fabs(D0 / 256.0) > 32760 || (c == 1 && g.fcn[s.sat] == 255), "back.D-lost", "code %d sat %d: Doppler lost", s.code, s.sat);
      if (s.cn0 <= 252) VH_CHECK(std::abs((int)o.cn0 - s.cn0) <= (legacy ? 1 : 2), "back.cn0", "code %d sat %d: C/N0 %.2f came back as %.2f", s.code, s.sat, s.cn0 / 4.0, o.cn0 / 4.0);
      if (!legacy) VH_CHECK(o.lock == s.lock, "back.lock", "code %d sat %d: lock %d came back as %d", s.code, s.sat, s.lock, o.lock);
    }
  }
  VH_CHECK(n <= 1, "back.epochs", "one epoch came back as %d", n);
  if (firsttow0 && !b.came && !n) return; b.came |= n > 0;
  for (auto &p : src) {
    const XObs &x = *p.second; int code = x.o.code, c = cons_of(code), sat = x.o.sat; Sig s = sig_code(code); if (!known_sat(c, sat) || !s.sup || c == 3 || c == 4) continue; if (c == 1 && !g.leap) continue;
    if (legacy) {
      bool L1g = code == CODE_GPS_L1CA || code == CODE_GPS_L1P, L2g = code == CODE_GPS_L2CM || code == CODE_GPS_L2P, L1r = code == CODE_GLO_L1OF, L2r = code == CODE_GLO_L2OF; if (!L1g && !L2g && !L1r && !L2r) continue; int key = c == 1 ? 1000 + sat : sat;
      if (!(x.o.flags & F_PHASE) || !(x.o.flags & F_HALF) || l1[key] != 1 || l2[key] > 1 || x.o.P > 76.1e6 * 50 || (c == 1 && g.fcn[sat] == 255) || (c == 1 && sat > 24) || nl1[c] > 31) continue;
      if ((L2g || L2r) && x.early) continue; if (L2g || L2r) { const XObs *a = nullptr; for (int q : {(int)CODE_GPS_L1CA, (int)CODE_GPS_L1P, (int)CODE_GLO_L1OF}) if (src.count({q, sat}) && cons_of(q) == c) a = src[{q, sat}]; if (!a || !(a->o.flags & F_PHASE) || !(a->o.flags & F_HALF) || a->o.P > 76.1e6 * 50 || std::fabs((double)a->o.P - (double)x.o.P) > 8185) continue; }
    } else if (csat[c].size() * csig[c].size() > 64 || !x.tightP) continue;
    VH_CHECK(got.count(p.first), "back.lost", "code %d sat %d did not come back", code, sat);
  }
}
int64_t tod_of(const Bytes &f, const Cfg &g) {  // GPS time of day of an observation message
  uint32_t num = num_of(f); BitR b(f.data() + 3, f.size() - 6); b.get(24);
  if (num == 1012 || (num > 1080 && num < 1090)) { if (num > 1070) b.get(3); return (((int64_t)b.get(27) - 3 * 3600000 + g.leaps * 1000) % DAY + DAY) % DAY; }
  int64_t T = (int64_t)b.get(30); if (num > 1120) T = (T + 14000) % WEEK; return T % DAY;
}
void case_obs(Rng &r) {
  int64_t t = pick_rover(r, r.chance(1, 3)); int mode = r.chance(1, 2) ? 5 : r.chance(1, 2) ? 4 : 0; Conv c(r); Cfg g = configure(r, c, mode, t); Back b(r, g, t); uint16_t sender = (uint16_t)r.bits(16);
  int n = 1 + (int)r.below(5); bool wild = r.chance(1, 3); 
  for (int e = 0; e < n && !violated(); e++) {
    auto x = gen_epoch(r, g, wild); std::vector<SObs> v; for (auto &y : x) v.push_back(y.o);
    int64_t early = -1; std::vector<XObs> ye; if (r.chance(1, 6)) {  // an earlier epoch whose last part was lost
      auto y = gen_epoch(r, g, wild); std::vector<SObs> u; for (auto &q : y) u.push_back(q.o); auto ps = obs_msgs(r, t, u);
      if (ps.size() > 1) { c.out.frames.clear(); ps.pop_back(); for (auto &p : ps) c.give(T_OBS, sender, p); early = t; ye = y; size_t k = 0; for (auto &p : ps) k += (p.size() - 11) / 17; ye.resize(std::min(k, ye.size())); t += r.pick(std::vector<int>{100, 200, 1000, 1000, 5000}); ev("incomplete-epoch-before"); }
    }
    auto ms = obs_msgs(r, t, v); c.out.frames.clear();
    for (auto &m : ms) { if (r.chance(1, 10)) c.give(T_LOG, (uint16_t)(r.chance(1, 2) ? sender : r.bits(16)), r.bytes(2 + r.below(40))); c.give(T_OBS, sender, m); }
    std::vector<Bytes> fr; for (auto &f : c.out.frames) if (is_obs(num_of(f)) && (early < 0 || tod_of(f, g) != early % DAY)) fr.push_back(f);
    if (mode) check_msm(r, g, t, sender, x, fr, true); else check_legacy(g, t, sender, x, fr, true);
    if (violated()) return;
    if (early >= 0 && early % DAY != t % DAY) {  // whatever is sent of the earlier one is right
      std::vector<Bytes> fe; for (auto &f : c.out.frames) if (is_obs(num_of(f)) && tod_of(f, g) == early % DAY) fe.push_back(f);
      if (mode) check_msm(r, g, early, sender, ye, fe, false); else check_legacy(g, early, sender, ye, fe, false);
      if (violated()) return; if (!fe.empty()) ev("incomplete-epoch-checked");
    }
    b.when(t); for (auto &f : fr) b.feed(f);
    if (g.leaps == leap_at(t)) check_back(g, b, t, sender, x, t % WEEK == 0, !mode);
    if (!fr.empty()) { nontrivial(); ev("epoch"); if (v.size() == 210) ev("epoch-of-210"); evs(fmt("epoch-messages-%zu", fr.size())); }
    t += r.pick(std::vector<int>{100, 200, 1000, 1000, 5000}); if (r.chance(1, 12) && e == 0) sender = (uint16_t)r.bits(16);
  }
}
// observation messages lost, repeated, late and from several senders
void case_hist(Rng &r) {
  int64_t t = pick_rover(r, r.chance(1, 3)); int mode = r.chance(1, 2) ? 5 : r.chance(1, 2) ? 4 : 0; Conv c(r); Cfg g = configure(r, c, mode, t);
  struct Ep { int64_t t; uint16_t id; std::vector<XObs> x; std::vector<Bytes> m; std::vector<size_t> from; std::vector<size_t> pos; };
  struct El { size_t e, k; };
  std::vector<uint16_t> ids; ids.push_back((uint16_t)r.bits(16)); while (ids.size() < 3) { uint16_t q = r.chance(1, 3) ? (uint16_t)(ids[0] ^ 0x1000) : (uint16_t)r.bits(16); bool in = false; for (uint16_t w : ids) in |= w == q; if (!in) ids.push_back(q); }
  std::vector<Ep> ep; int n = 2 + (int)r.below(5);
  for (int e = 0; e < n; e++) {
    Ep p; p.t = t; p.id = e && r.chance(2, 3) ? ep.back().id : r.pick(ids); p.x = gen_epoch(r, g, r.chance(1, 3)); if (p.x.size() > 60) p.x.resize(60);
    for (auto &x : p.x) x.dup = false; std::map<std::pair<int, int>, int> cnt; for (auto &x : p.x) cnt[{x.o.code, x.o.sat}]++; for (auto &x : p.x) x.dup = cnt[{x.o.code, x.o.sat}] > 1;
    std::vector<SObs> v; for (auto &y : p.x) v.push_back(y.o);
    size_t per = 1 + r.below(14); while ((v.size() + per - 1) / per > 15) per++; size_t tot = v.empty() ? 1 : (v.size() + per - 1) / per; int32_t ns = (int32_t)r.range(-400000, 400000);
    for (size_t k = 0; k < tot; k++) { p.from.push_back(k * per); p.m.push_back(obs_msg(t, ns, (int)(tot << 4 | k), std::vector<SObs>(v.begin() + (long)(k * per), v.begin() + (long)std::min(v.size(), (k + 1) * per)))); } p.from.push_back(v.size());
    ep.push_back(p); t += r.pick(std::vector<int>{100, 200, 1000, 1000, 5000, 30000});
  }
  std::vector<El> s; for (size_t e = 0; e < ep.size(); e++) for (size_t k = 0; k < ep[e].m.size(); k++) s.push_back({e, k});
  for (int i = (int)r.below(5); i > 0 && s.size() > 1; i--) {
    size_t a = r.below((uint32_t)s.size()), b = r.chance(1, 2) ? std::min(s.size() - 1, a + 1 + r.below(3)) : r.below((uint32_t)s.size()); El x = s[a];
    switch (r.below(5)) {
      case 0: s.erase(s.begin() + (long)a); break;
      case 1: s.insert(s.begin() + (long)b, x); break;
      case 2: std::swap(s[a], s[b]); break;
      case 3: s.erase(s.begin() + (long)a); s.insert(s.begin() + (long)std::min(b, s.size()), x); break;
      default: { size_t e = x.e; std::vector<El> rest, all; for (auto &q : s) (q.e == e ? all : rest).push_back(q); size_t at = r.below((uint32_t)rest.size() + 1); rest.insert(rest.begin() + (long)at, all.begin(), all.end()); s = rest; }  // a whole epoch at another place
    }
  }
  for (size_t i = 0; i < s.size(); i++) ep[s[i].e].pos.push_back(i);
  std::vector<std::set<size_t>> given(ep.size()); std::vector<std::pair<size_t, Bytes>> log; bool flushed = false;
  for (size_t i = 0; i < s.size() && !violated(); i++) {
    if (r.chance(1, 12)) c.give(T_LOG, r.pick(ids), r.bytes(2 + r.below(40)));
    Ep &me = ep[s[i].e]; given[s[i].e].insert(s[i].k); c.out.frames.clear(); c.give(T_OBS, me.id, me.m[s[i].k]);
    std::vector<Bytes> set; int sets = 0;
    for (auto &f : c.out.frames) {
      uint32_t num = num_of(f); if (!is_obs(num)) continue; log.push_back({i, f}); set.push_back(f);
      BitR b(f.data() + 3, f.size() - 6); b.get(24); if (num == 1012 || (num > 1080 && num < 1090)) { if (num > 1070) b.get(3); b.get(27); } else b.get(30);
      if (b.get(1)) continue;
      // one set: all of it from one epoch
      size_t e = 0; while (e < ep.size() && ep[e].t % DAY != tod_of(set[0], g)) e++;
      VH_CHECK(e < ep.size(), "hist.time", "a set of time of day %lld was never given", (long long)tod_of(set[0], g)); if (e == ep.size()) return;
      std::vector<XObs> v; for (size_t k : given[e]) for (size_t j = ep[e].from[k]; j < ep[e].from[k + 1]; j++) { v.push_back(ep[e].x[j]); if (band2(v.back().o.code)) v.back().early = true; }
      if (mode) check_msm(r, g, ep[e].t, ep[e].id, v, set, false); else check_legacy(g, ep[e].t, ep[e].id, v, set, false);
      if (violated()) return; ev("history-set"); sets++; if (e != s[i].e) { ev("history-flush"); flushed = true; if (ep[e].id != me.id) ev("history-flush-sender"); } set.clear();
    }
    VH_CHECK(set.empty(), "set.unfinished", "the last message of a set announces more");
    if (sets > 1) ev("history-two-sets");
    // an epoch whose last part came, or that another epoch or sender ends, is sent as far as it was given
    auto judge = [&](size_t e, size_t end) {
      Ep &q = ep[e]; std::vector<size_t> pos; for (size_t j : q.pos) if (j <= end) pos.push_back(j);
      bool ok = true, lost = pos.size() != q.m.size(); for (size_t k = 1; k < pos.size(); k++) ok &= s[pos[k]].k > s[pos[k - 1]].k;
      bool past = false; for (size_t j = pos[0]; j < end && ok; j++) if (s[j].e != e) { ok &= ep[s[j].e].id == q.id && ep[s[j].e].t < q.t; past |= ok; }
      for (size_t j = pos[0]; j-- > 0 && ok && ep[s[j].e].id == q.id;) ok &= ep[s[j].e].t < q.t;
      if (!ok) { ev("history-broken"); return; }
      std::vector<Bytes> fr; for (auto &l : log) if (l.first >= pos[0] && tod_of(l.second, g) == q.t % DAY) fr.push_back(l.second);
      std::vector<XObs> x; for (size_t j : pos) { size_t k = s[j].k; x.insert(x.end(), q.x.begin() + (long)q.from[k], q.x.begin() + (long)q.from[k + 1]); }
      if (past || lost) for (auto &y : x) if (band2(y.o.code)) y.early = true;
      if (mode) check_msm(r, g, q.t, q.id, x, fr, true); else check_legacy(g, q.t, q.id, x, fr, true);
      if (past) ev("history-past-in-epoch");
      if (!fr.empty()) { ev(lost ? s[end].k + 1 == q.m.size() ? "history-epoch-with-loss" : "history-epoch-ended-by-next" : "history-epoch"); if (flushed) nontrivial(); }
    };
    if (s[i].k == me.m.size() - 1) judge(s[i].e, i);
    if (i && s[i - 1].e != s[i].e && s[i - 1].k != ep[s[i - 1].e].m.size() - 1 && (ep[s[i - 1].e].id != me.id || ep[s[i - 1].e].t < me.t)) judge(s[i - 1].e, i - 1);
    if (violated()) return;
  }
}
// C61
void case_frames(Rng &r) {
  int64_t t = pick_rover(r, true); int mode = r.chance(1, 2) ? 5 : r.chance(1, 2) ? 4 : 0; Conv c(r); Cfg g = configure(r, c, mode, t); if (r.chance(1, 2)) sbp2rtcm_set_rcv_ant_descriptors("ANTENNA", "RECEIVER", c.st);
  struct Sender { uint16_t id; }; std::vector<uint16_t> ids; for (int i = 0; i < 3; i++) ids.push_back((uint16_t)r.bits(16)); ids[1] = (uint16_t)(ids[0] ^ 0x10); ids[2] = (uint16_t)(ids[0] ^ (1 + r.below(0xFFFE)));
  int n = 2 + (int)r.below(10); size_t seen = 0; bool open = false; std::set<std::pair<uint32_t, int64_t>> sets;
  std::vector<XObs> last; uint16_t lastid = ids[0]; int64_t lastt = t; bool clean = true; 
  // frames produced by one call form complete sets
  auto scan = [&] {
    int64_t tm = -1; uint32_t st = 0; std::set<uint32_t> nums; open = false;
    for (; seen < c.out.frames.size(); seen++) {
      const Bytes &f = c.out.frames[seen]; uint32_t num = num_of(f); if (!is_obs(num)) { VH_CHECK(!open, "set.interrupted", "message %u inside a set of observation messages", num); continue; }
      BitR b(f.data() + 3, f.size() - 6); b.get(12); uint32_t stn = (uint32_t)b.get(12); int64_t T; int mult; bool glo = num == 1012 || (num > 1080 && num < 1090);
      if (glo) { int64_t dow = num > 1070 ? (int64_t)b.get(3) : -1; T = (int64_t)b.get(27); mult = (int)b.get(1); (void)dow; T = ((T - 3 * 3600000 + g.leaps * 1000) % DAY + DAY) % DAY; } else { T = (int64_t)b.get(30); mult = (int)b.get(1); if (num > 1120) T = (T + 14000) % WEEK; T %= DAY; }
      if (open) { VH_CHECK(T == tm && stn == st, "set.mixed", "message %u of time %lld station %u in the set of time %lld station %u", num, (long long)T, stn, (long long)tm, st); VH_CHECK(!nums.count(num), "set.repeated", "message %u twice in a set", num); }
      else { nums.clear(); tm = T; st = stn; }
      nums.insert(num); open = mult; if (!mult) ev("observation-set");
    }
    VH_CHECK(!open, "set.unfinished", "the last message of a set announces more");
    return;
  };
  auto count_sets = [&](size_t from) { int k = 0; for (size_t i = from; i < c.out.frames.size(); i++) if (is_obs(num_of(c.out.frames[i]))) k++; return k; };
  for (int e = 0; e < n && !violated(); e++) {
    auto x = gen_epoch(r, g, true); std::vector<SObs> v; for (auto &y : x) v.push_back(y.o); auto ms = obs_msgs(r, t, v); uint16_t id = r.chance(5, 6) ? lastid : ids[r.below(3)];
    uint32_t how = r.below(10); bool ok = clean || true; size_t from = c.out.frames.size(); size_t drop = how == 0 ? r.below((uint32_t)ms.size()) : SIZE_MAX, twice = how == 1 ? r.below((uint32_t)ms.size()) : SIZE_MAX; if (how == 2 && ms.size() > 1) { std::swap(ms[0], ms[ms.size() - 1]); ok = false; }
    if (drop != SIZE_MAX || twice != SIZE_MAX) ok = false;
    if (how == 3) for (auto &m : ms) if (m.size() > 11 && r.chance(1, 3)) { m.resize(r.below((uint32_t)m.size())); ok = false; }
    for (size_t i = 0; i < ms.size() && !violated(); i++) {
      if (i == drop) continue;
      if (r.chance(1, 5)) { int k = 1 + (int)r.below(T_N - 1); Bytes p = r.bytes(r.below(256)); if (r.chance(1, 3)) p.resize(std::min<size_t>(p.size(), r.below(30))); c.give(k, r.chance(1, 2) ? id : ids[r.below(3)], p); scan(); }
      if (how == 4 && r.chance(1, 4)) { SObs o = v.empty() ? SObs{0, 1, 1000000000, 0, 0, 0, 0, 100, 3, 15} : v[0]; int64_t back = t - (int64_t)r.range(1, 3000); if (back > 0) { c.give(T_OBS, id, obs_msg(back, 0, 0x10, {o})); ok = false; scan(); } }
      size_t before = c.out.frames.size(); (void)before; c.give(T_OBS, id, ms[i]); scan(); if (i == twice) { c.give(T_OBS, id, ms[i]); scan(); }
    }
    if (violated()) return;
    if (ok) {
      // the frames of this epoch and station since its first message: one set
      int sets_here = 0; bool in = false;
      for (size_t i = from; i < c.out.frames.size(); i++) {
        const Bytes &f = c.out.frames[i]; uint32_t num = num_of(f); if (!is_obs(num)) continue; BitR b(f.data() + 3, f.size() - 6); b.get(12); uint32_t stn = (uint32_t)b.get(12); int64_t T; int mult; bool glo = num == 1012 || (num > 1080 && num < 1090);
        if (glo) { if (num > 1070) b.get(3); T = (int64_t)b.get(27); mult = (int)b.get(1); T = ((T - 3 * 3600000 + g.leaps * 1000) % DAY + DAY) % DAY; } else { T = (int64_t)b.get(30); mult = (int)b.get(1); if (num > 1120) T = (T + 14000) % WEEK; T %= DAY; }
        if (T != t % DAY || stn != (id & 0xFFFu)) continue; if (!in) sets_here++; in = mult;
      }
      VH_CHECK(sets_here <= 1, "set.epoch-split", "one complete epoch made %d sets of observation messages", sets_here); if (count_sets(from)) { nontrivial(); ev("complete-epoch"); }
      if (sets_here) evs("sets-per-epoch-1");
    } else ev("broken-epoch");
    lastid = id; t += r.pick(std::vector<int>{100, 200, 1000, 1000, 5000}); if (r.chance(1, 15)) t += r.range(1, 20) * 1000;
  }
  (void)last; (void)lastt; (void)sets;
}
#include "s2r2.inc"
#ifdef VH_S2R_CLI
}  // namespace
#include "cli.hpp"
extern "C" int cli_sbp2rtcm_main(int, char **);
namespace {
void sbp_wire(Bytes &s, uint16_t type, uint16_t sender, const Bytes &p) {
  W w; w.u8(0x55); w.u16(type); w.u16(sender); w.u8((uint32_t)p.size()); w.raw(p); w.u16(crc16_ccitt_ref(w.b.data() + 1, w.b.size() - 1)); s.insert(s.end(), w.b.begin(), w.b.end());
}
void case_cli(Rng &r) {
  if (r.chance(1, 24)) { std::vector<std::string> a = {"-h"}; CliRun o = run_cli("sbp2rtcm", cli_sbp2rtcm_main, a, r.bytes(40), r); if (!violated()) expect_help("sbp2rtcm", a, o); return; }
  // what the library makes of the same messages, with the leap second of today
  int64_t t = pick_rover(r, true); Conv c(r); sbp2rtcm_set_leap_second(18, c.st); Cfg g; g.mode = 5; g.leap = true; g.leaps = 18; for (auto &f : g.fcn) f = 255;
  Bytes s; int n = 2 + (int)r.below(30);
  for (int i = 0; i < n; i++) {
    uint16_t sender = (uint16_t)(r.chance(3, 4) ? 0x1234 : r.bits(16)); std::vector<std::pair<int, Bytes>> ms;
    if (r.chance(1, 2)) { auto x = gen_epoch(r, g, true); std::vector<SObs> v; for (auto &y : x) v.push_back(y.o); for (auto &m : obs_msgs(r, t, v)) ms.push_back({T_OBS, m}); t += r.pick(std::vector<int>{100, 1000, 1000, 5000}); }
    else { int k = (int)r.below(T_N); ms.push_back({k, some_message(r, k, t, g)}); if (r.chance(1, 8)) ms.back().second = r.bytes(r.below(256)); }
    for (auto &m : ms) {
      if (m.second.size() > 255) continue;
      if (r.chance(1, 8)) { Bytes x = r.bytes(r.below(20)); for (auto &y : x) if (y == 0x55) y = 0; s.insert(s.end(), x.begin(), x.end()); }
      if (r.chance(1, 12)) sbp_wire(s, (uint16_t)r.pick(std::vector<int>{0xFFFF, 0x0102, 0x020A, 0x0209}), sender, r.bytes(r.below(60)));  // not converted
      size_t at = s.size(); sbp_wire(s, type_id(m.first), sender, m.second);
      if (r.chance(1, 20)) { s[at + 6 + r.below((uint32_t)m.second.size() + 2)] ^= (uint8_t)(1 + r.below(255)); ev("damaged-message"); continue; }
      c.give(m.first, sender, m.second);
    }
  }
  // damaged payloads may hold anything, also the start of a message: only the
  // checksum tells, and the framing is libsbp's
  Bytes want; for (auto &f : c.out.frames) want.insert(want.end(), f.begin(), f.end());
  CliRun o = run_cli("sbp2rtcm", cli_sbp2rtcm_main, {}, s, r); if (violated()) return;
  expect_success("sbp2rtcm", {}, o, s.size());
  size_t i = 0; while (i < want.size() && i < o.out.size() && want[i] == o.out[i]) i++;
  VH_CHECK(o.out == want, "conversion.bytes", "sbp2rtcm: %zu bytes instead of %zu, the first difference is at %zu", o.out.size(), want.size(), i);
  ev("bytes-compared", want.size()); digest(o.out.data(), o.out.size()); if (!want.empty()) nontrivial(); sample("sbp2rtcm: %zu bytes in, %zu frames out", s.size(), c.out.frames.size());
}
#endif
}  // namespace

void vh_setup() {}
void vh_case(Rng &r, uint64_t) {
  const std::string &m = mode();
  if (m == "obs") case_obs(r);
  else if (m == "hist") case_hist(r);
  else if (m == "frames") case_frames(r);
  else if (m == "eph") case_eph(r);
  else if (m == "conv") case_conv(r);
#ifdef VH_S2R_CLI
  else if (m == "cli" || m == "files") case_cli(r);
#endif
  else if (m == "hostile") case_s_hostile(r);
  else { fprintf(stderr, "mode?\n"); exit(3); }
}
