// Included by ubx.cc: the models of the converter's messages.
// ------------------------------------------------------------ C40
struct AzE { uint8_t sat, code, az; int8_t el; };
struct MsE { uint8_t sat, code, cn0; };
uint8_t ref_code(int g, int s) {
  static const struct { int g, s, code; } T[] = {
      {0, 0, CODE_GPS_L1CA}, {0, 3, CODE_GPS_L2CL}, {0, 4, CODE_GPS_L2CM}, {1, 0, CODE_SBAS_L1CA}, {2, 0, CODE_GAL_E1C}, {2, 1, CODE_GAL_E1B}, {2, 5, CODE_GAL_E7I}, {2, 6, CODE_GAL_E7Q}, {3, 0, CODE_BDS2_B1}, {3, 1, CODE_BDS2_B1}, {3, 2, CODE_BDS2_B2}, {3, 3, CODE_BDS2_B2}, {5, 0, CODE_QZS_L1CA}, {5, 4, CODE_QZS_L2CM}, {5, 5, CODE_QZS_L2CL}, {6, 0, CODE_GLO_L1OF}, {6, 2, CODE_GLO_L2OF}};
  for (auto &t : T) if (t.g == g && t.s == s) return (uint8_t)t.code;
  return (uint8_t)CODE_INVALID;
}
uint8_t ref_sat(int g, int s) { return g == 5 && s >= 1 && s <= 10 ? (uint8_t)(192 + s) : (uint8_t)s; }
uint8_t ref_cn0(int c) { return c > 0x3F ? 0xFF : (uint8_t)(4 * c); }
int32_t sat32(int64_t v) { return v > INT32_MAX ? INT32_MAX : v < INT32_MIN ? INT32_MIN : (int32_t)v; }
uint16_t sat16u(uint64_t v) { return v > 65535 ? 65535 : (uint16_t)v; }

struct ObsM { double P, L; float D; uint8_t g, sat, sig, cno, trk; uint16_t lock; };
ObsM gen_obs(Rng &r) {
  ObsM m; m.P = r.uniform(1.9e7, 4.2e7); m.L = r.uniform(-2e9, 2e9); m.D = (float)r.uniform(-6000, 6000);
  switch (r.below(24)) {
    case 0: m.P = 0; break;
    case 1: m.P = NAN; break;
    case 2: m.P = -r.uniform(1, 1e8); break;
    case 3: m.P = r.uniform(8.589934600e7, 1e9); break;
    case 4: m.P = r.uniform(8.58e7, 8.589934580e7); break;
    case 5: m.P = INFINITY; break;
    default: break;
  }
  switch (r.below(24)) {
    case 0: m.L = 0; break;
    case 1: m.L = NAN; break;
    case 2: m.L = r.chance(1, 2) ? 2.2e9 : -2.2e9; break;
    case 3: m.L = floor(m.L) + (255.6 / 256); break;
    case 4: m.L = 1e300; break;
    case 5: m.L = floor(m.L); break;
    case 6: m.L = (r.chance(1, 2) ? 1 : -1) * r.uniform(2.0e9, 2.14748e9); break;
    default: break;
  }
  switch (r.below(24)) {
    case 0: m.D = 0; break;
    case 1: m.D = NAN; break;
    case 2: m.D = r.chance(1, 2) ? 33000.f : -33000.f; break;
    case 3: m.D = floorf(m.D) + (float)(255.6 / 256); break;
    case 4: m.D = -INFINITY; break;
    case 5: m.D = (float)((r.chance(1, 2) ? 1 : -1) * r.uniform(31000, 32700)); break;
    default: break;
  }
  static const int SG[][2] = {{0, 0}, {0, 3}, {0, 4}, {1, 0}, {2, 0}, {2, 1}, {2, 5}, {2, 6}, {3, 0}, {3, 1}, {3, 2}, {3, 3}, {5, 0}, {5, 4}, {5, 5}, {6, 0}, {6, 2}};
  if (r.chance(9, 10)) { int k = (int)r.below(17); m.g = (uint8_t)SG[k][0]; m.sig = (uint8_t)SG[k][1]; } else { m.g = (uint8_t)r.below(9); m.sig = (uint8_t)r.below(9); }
  m.sat = (uint8_t)(r.chance(7, 8) ? (m.g == 5 ? 1 + r.below(10) : m.g == 1 ? 120 + r.below(19) : 1 + r.below(36)) : r.bits(8));
  m.cno = (uint8_t)(r.chance(1, 6) ? r.bits(8) : r.below(64)); m.trk = (uint8_t)(r.chance(2, 3) ? r.below(16) : r.bits(8));
  m.lock = (uint16_t)(r.chance(1, 2) ? r.bits(16) : r.below(64501));
  return m;
}
void put_rawx(Ctx &c, double tow, uint16_t wn, int leap, int status, const std::vector<ObsM> &v) {
  W w; w.f64(tow); w.u16(wn); w.u8((uint32_t)leap); w.u8((uint32_t)v.size()); w.u8((uint32_t)status); w.u8(1); w.u16(c.r.u32());
  for (auto &m : v) { w.f64(m.P); w.f64(m.L); w.f32(m.D); w.u8(m.g); w.u8(m.sat); w.u8(m.sig); w.u8(c.r.u32()); w.u16(m.lock); w.u8(m.cno); w.u8(c.r.u32()); w.u8(c.r.u32()); w.u8(c.r.u32()); w.u8(m.trk); w.u8(c.r.u32()); }
  c.put(2, 0x15, w.b);
}
void check_obs_time(const sbp_v4_gps_time_t &t, double tow, uint16_t wn) {
  VH_CHECK(t.tow < 604800000u, "obs.tow-range", "time of week %u", t.tow);
  VH_CHECK(t.ns_residual >= -500000 && t.ns_residual <= 500000, "obs.ns-range", "ns residual %d", t.ns_residual);
  int dw = wn == 0 ? 0 : (int16_t)(t.wn - wn);
  if (wn == 0) VH_CHECK(t.wn == 65535, "obs.unknown-week", "week %u", t.wn);
  else VH_CHECK(dw == 0 || dw == 1, "obs.week", "week %u received %u", t.wn, wn);
  long double got = (long double)dw * 604800000000000.0L + (long double)t.tow * 1e6L + t.ns_residual, want = (long double)tow * 1e9L, d = got - want;
  if (wn == 0 && d < -3e14L) d += 604800000000000.0L;
  VH_CHECK(d > -3 && d < 3, "obs.time", "time off by %Lg ns (tow %.9f)", d, tow);
}
void check_obs(const sbp_packed_obs_content_t &o, const ObsM &m, int i) {
  bool pok = m.P >= 0 && m.P * 50 < 4294967296.0, lok = m.L >= -2147483648.0 && m.L < 2147483647.0, dok = m.D >= -32768.f && m.D < 32767.f;
  uint8_t flags = (uint8_t)((m.trk & 7) | 8); if (!pok) flags &= (uint8_t)~1; if (!lok) flags &= (uint8_t)~6; if (!dok) flags &= (uint8_t)~8;
  VH_CHECK(o.flags == flags, "obs.flags", "observation %d flags %02x expected %02x", i, o.flags, flags);
  if (pok) VH_CHECK(fabs((double)o.P - m.P * 50) <= 1.0001, "obs.P", "observation %d P %u expected %.3f", i, o.P, m.P * 50); else VH_CHECK(o.P == 0, "obs.P-invalid", "observation %d P %u", i, o.P);
  if (lok) VH_CHECK(fabsl((long double)o.L.i + o.L.f / 256.0L - (long double)m.L) <= 0.502 / 256, "obs.L", "observation %d L %d+%u/256 expected %.6f", i, o.L.i, o.L.f, m.L); else VH_CHECK(o.L.i == 0 && o.L.f == 0, "obs.L-invalid", "observation %d L %d", i, o.L.i);
  if (dok) VH_CHECK(fabs(o.D.i + o.D.f / 256.0 - (double)m.D) <= 0.502 / 256, "obs.D", "observation %d D %d+%u/256 expected %.6f", i, o.D.i, o.D.f, (double)m.D); else VH_CHECK(o.D.i == 0 && o.D.f == 0, "obs.D-invalid", "observation %d D %d", i, o.D.i);
  VH_CHECK(o.cn0 == ref_cn0(m.cno), "obs.cn0", "observation %d cn0 %u from %u", i, o.cn0, m.cno);
  uint8_t lk = encode_lock_time((double)m.lock / 1000); VH_CHECK(o.lock == lk, "obs.lock", "observation %d lock %u expected %u", i, o.lock, lk);
  VH_CHECK(o.sid.sat == ref_sat(m.g, m.sat), "obs.sat", "observation %d sat %u from %u/%u", i, o.sid.sat, m.g, m.sat);
  VH_CHECK(o.sid.code == ref_code(m.g, m.sig), "obs.code", "observation %d code %u from %u/%u", i, o.sid.code, m.g, m.sig);
  ev("observation-compared");
}
void expect_rawx(Ctx &c, double tow, uint16_t wn, const std::vector<ObsM> &v) {
  if (!(tow >= 0 && tow < 604800)) { ev("rawx-time-refused"); return; }
  size_t n = std::min(v.size(), (size_t)210), parts = n ? (n + 13) / 14 : 1;
  for (size_t p = 0; p < parts; p++) {
    std::vector<ObsM> part(v.begin() + (long)std::min(n, p * 14), v.begin() + (long)std::min(n, p * 14 + 14));
    c.expect(SbpMsgObs, "obs", [=](const Ev &e) {
      const sbp_msg_obs_t &o = e.msg.obs;
      VH_CHECK(o.header.n_obs == (parts << 4 | p), "obs.sequence", "part counter %02x expected %zu/%zu", o.header.n_obs, parts, p);
      check_obs_time(o.header.t, tow, wn);
      VH_CHECK(o.n_obs == part.size(), "obs.count", "%u observations expected %zu", o.n_obs, part.size());
      for (size_t i = 0; i < part.size() && i < o.n_obs; i++) check_obs(o.obs[i], part[i], (int)(p * 14 + i));
    });
  }
}
double gen_tow(Rng &r) {
  switch (r.below(16)) {
    case 0: return r.chance(1, 2) ? r.uniform(604799.99, 604800) : 604799.9999999 - 1e-4 * r.below(5);
    case 1: return r.chance(1, 2) ? -r.uniform(0.001, 1e6) : 604800 + r.uniform(0, 1e6);
    case 2: return r.chance(1, 2) ? (double)NAN : r.dbl();
    case 3: return (double)r.below(604800);
    case 4: return r.below(604800) + 0.0005 * (1 + 2 * r.below(5));
    case 5: return r.below(6048000) / 10.0;
    case 6: return 0;
    default: return r.uniform(0, 604800);
  }
}
struct Pvt { uint8_t nsats = 0, flags = 0, fix = 0; };
struct Att { int32_t roll = 0, pitch = 0; float ra = 0, pa = 0; uint8_t flags = 0; };
uint8_t pvt_flags(uint8_t fix, uint8_t fl) {
  uint8_t f = 0;
  if (fix == 1) f = 5;
  else if (fix == 2 || fix == 3 || fix == 4) {
    if (!(fl & 2)) f = 1; else switch (fl & 0xC0) { case 0: f = 2; break; case 0x40: f = 3; break; case 0x80: f = 4; break; default: f = 0; }
  }
  if (fix == 1 || fix == 4) f |= 8;
  return f;
}
uint32_t gen_acc(Rng &r) { return r.chance(1, 2) ? r.below(70000) : (uint32_t)r.bits(32); }
// the solution messages; the IMU and ephemeris cases use them as well
struct Sol {
  Ctx &c; Pvt pvt; Att att; bool hnr; uint32_t last_tow = 0xFFFFFFFF; std::vector<AzE> az; std::vector<MsE> ms;
  Sol(Ctx &c_, bool h) : c(c_), hnr(h) { if (h) ubx_set_hnr_flag(c.st, true); c.hnr = h; }
  void llh(uint32_t tow, int32_t lon, int32_t lat, int32_t hgt, uint32_t ha, uint32_t va) {
    Pvt p = pvt;
    c.expect(SbpMsgPosLlh, "pos-llh", [=](const Ev &e) {
      const sbp_msg_pos_llh_t &m = e.msg.pos_llh;
      VH_CHECK(m.tow == tow, "llh.tow", "tow %u expected %u", m.tow, tow);
      VH_CHECK(fabs(m.lat - lat * 1e-7) < 1e-12 && fabs(m.lon - lon * 1e-7) < 1e-12, "llh.position", "%.10f %.10f expected %d %d", m.lat, m.lon, lat, lon);
      VH_CHECK(fabs(m.height - hgt * 1e-3) < 1e-8, "llh.height", "height %.6f expected %d mm", m.height, hgt);
      VH_CHECK(m.h_accuracy == sat16u(ha) && m.v_accuracy == sat16u(va), "llh.accuracy", "accuracy %u %u expected %u %u", m.h_accuracy, m.v_accuracy, ha, va);
      VH_CHECK(m.n_sats == p.nsats, "llh.sats", "%u satellites expected %u", m.n_sats, p.nsats);
      VH_CHECK(m.flags == p.flags, "llh.flags", "flags %02x expected %02x", m.flags, p.flags);
    });
  }
  void orient(uint32_t tow, int32_t yaw, float ya) {
    Att a = att;
    c.expect(SbpMsgOrientEuler, "orient-euler", [=](const Ev &e) {
      const sbp_msg_orient_euler_t &m = e.msg.orient_euler;
      VH_CHECK(m.tow == tow, "orient.tow", "tow %u expected %u", m.tow, tow);
      VH_CHECK(m.roll == sat32((int64_t)a.roll * 10) && m.pitch == sat32((int64_t)a.pitch * 10) && m.yaw == sat32((int64_t)yaw * 10), "orient.angles", "%d %d %d expected 10x %d %d %d", m.roll, m.pitch, m.yaw, a.roll, a.pitch, yaw);
      auto close = [](float x, float y) { return fabs(x - y) <= 1e-6 * fabs(y); };
      VH_CHECK(close(m.roll_accuracy, a.ra) && close(m.pitch_accuracy, a.pa) && close(m.yaw_accuracy, ya), "orient.accuracy", "%g %g %g expected %g %g %g", m.roll_accuracy, m.pitch_accuracy, m.yaw_accuracy, a.ra, a.pa, ya);
      VH_CHECK(m.flags == a.flags, "orient.flags", "flags %02x expected %02x", m.flags, a.flags);
    });
  }
  void nav_pvt(uint32_t tow) {
    Rng &r = c.r; W w; w.u32(tow); for (int i = 0; i < 8; i++) w.u8(r.u32()); w.u32(r.u32()); w.u32(r.u32());
    uint8_t fix = (uint8_t)(r.chance(7, 8) ? r.below(6) : r.bits(8)), fl = (uint8_t)r.bits(8), ns = (uint8_t)r.bits(8);
    int32_t lon = (int32_t)r.bits(32), lat = (int32_t)r.bits(32), h = (int32_t)r.bits(32); uint32_t ha = gen_acc(r), va = gen_acc(r);
    w.u8(fix); w.u8(fl); w.u8(r.u32()); w.u8(ns); w.u32((uint32_t)lon); w.u32((uint32_t)lat); w.u32((uint32_t)h); w.u32(r.u32()); w.u32(ha); w.u32(va); while (w.b.size() < 92) w.u8(r.u32());
    c.put(1, 7, w.b); pvt.nsats = ns; pvt.flags = pvt_flags(fix, fl); pvt.fix = fix; last_tow = tow;
    if (!hnr) llh(tow, lon, lat, h, ha, va);
  }
  void hnr_pvt(uint32_t tow) {
    Rng &r = c.r; W w; w.u32(tow); for (int i = 0; i < 8; i++) w.u8(r.u32()); w.u32(r.u32()); w.u8(r.u32()); w.u8(r.u32()); w.u16(r.u32());
    int32_t lon = (int32_t)r.bits(32), lat = (int32_t)r.bits(32), h = (int32_t)r.bits(32), hv = (int32_t)r.bits(32); uint32_t ha = gen_acc(r), va = gen_acc(r), hd = gen_acc(r);
    w.u32((uint32_t)lon); w.u32((uint32_t)lat); w.u32((uint32_t)h); w.u32(r.u32()); w.u32(r.u32()); w.u32(r.u32()); w.u32(r.u32()); w.u32((uint32_t)hv); w.u32(ha); w.u32(va); w.u32(r.u32()); w.u32(hd); w.u32(r.u32());
    c.put(0x28, 0, w.b); last_tow = tow;
    if (hnr) { llh(tow, lon, lat, h, ha, va); orient(tow, hv, (float)(hd * 1e-5)); }
  }
  void nav_att(uint32_t tow) {
    Rng &r = c.r; W w; w.u32(tow); w.u32(r.u32()); int32_t ro = (int32_t)r.bits(32), pi = (int32_t)r.bits(32), he = (int32_t)r.bits(32); uint32_t a = gen_acc(r), b = gen_acc(r), d = gen_acc(r);
    w.u32((uint32_t)ro); w.u32((uint32_t)pi); w.u32((uint32_t)he); w.u32(a); w.u32(b); w.u32(d); c.put(1, 5, w.b);
    att.roll = ro; att.pitch = pi; att.ra = (float)(a * 1e-5); att.pa = (float)(b * 1e-5); att.flags = pvt.fix == 1 || pvt.fix == 4;
    if (!hnr) orient(tow, he, (float)(d * 1e-5));
  }
  void velecef(uint32_t tow) {
    Rng &r = c.r; int32_t v[3]; for (auto &x : v) x = (int32_t)r.bits(32); uint32_t a = gen_acc(r); W w; w.u32(tow); for (auto x : v) w.u32((uint32_t)x); w.u32(a); c.put(1, 0x11, w.b);
    Pvt p = pvt; int32_t x = v[0], y = v[1], z = v[2];
    c.expect(SbpMsgVelEcef, "vel-ecef", [=](const Ev &e) {
      const sbp_msg_vel_ecef_t &m = e.msg.vel_ecef; VH_CHECK(m.tow == tow, "vel.tow", "tow %u expected %u", m.tow, tow);
      VH_CHECK(m.x == sat32((int64_t)x * 10) && m.y == sat32((int64_t)y * 10) && m.z == sat32((int64_t)z * 10), "vel.velocity", "%d %d %d expected 10x %d %d %d", m.x, m.y, m.z, x, y, z);
#ifdef VH_CLI
      if (m.accuracy == sat16u(a)) return;  // the unit is judged by another check
#endif
      if (m.accuracy != sat16u((uint64_t)a * 10)) violate(m.accuracy == sat16u(a) ? "vel.accuracy-unit" : "vel.accuracy", "accuracy %u mm/s from %u cm/s", m.accuracy, a);
      VH_CHECK(m.n_sats == p.nsats, "vel.sats", "%u satellites expected %u", m.n_sats, p.nsats);
      VH_CHECK(m.flags == ((p.fix > 0 ? 5 : 0) | 8), "vel.flags", "flags %02x with fix %u", m.flags, p.fix);
    });
  }
  void nav_sat() {
    Rng &r = c.r; int n = (int)(r.chance(1, 8) ? r.below(256) : r.chance(1, 6) ? r.pick(std::vector<int>{0, 1, 62, 63, 64, 84, 85, 86, 99, 100, 101, 126}) : r.below(70));
    W w; w.u32(r.u32()); w.u8(1); w.u8((uint32_t)n); w.u16(r.u32());
    for (int i = 0; i < n; i++) {
      uint8_t g = (uint8_t)r.below(8), s = (uint8_t)(r.chance(7, 8) ? 1 + r.below(g == 5 ? 10 : 36) : r.bits(8)), cn = (uint8_t)r.bits(8); int8_t el = (int8_t)r.range(-90, 90); int16_t a = (int16_t)r.range(0, 360);
      w.u8(g); w.u8(s); w.u8(cn); w.u8((uint8_t)el); w.u16((uint16_t)a); w.u16(r.u32()); w.u32(r.u32());
      if (i < 100) { az.push_back({ref_sat(g, s), ref_code(g, 0), 0, el}); az.back().az = (uint8_t)(a / 2); if (a & 1) az.back().az |= 0; azim.push_back(a); ms.push_back({ref_sat(g, s), ref_code(g, 0), ref_cn0(cn)}); }
    }
    c.put(1, 0x35, w.b);
  }
  std::vector<int> azim;
  void mon_hw() {
    Rng &r = c.r; Bytes pl = r.bytes(r.chance(1, 4) ? 240 + r.below(16) : r.below(200)); c.put(0x0A, 9, pl); Bytes m = ubx_msg(0x0A, 9, pl);
    if (m.size() > 253) return;
    c.expect(SbpMsgFwd, "fwd", [=](const Ev &e) { const sbp_msg_fwd_t &f = e.msg.fwd; VH_CHECK(f.source == 0 && f.protocol == 1, "fwd.kind", "source %u protocol %u", f.source, f.protocol); VH_CHECK(f.n_fwd_payload == m.size() && memcmp(f.fwd_payload, m.data(), m.size()) == 0, "fwd.content", "%u bytes forwarded of %zu", f.n_fwd_payload, m.size()); });
  }
  // messages that end before their fields do: nothing is said, nothing is remembered
  void cut_short() {
    static const struct { int cls, id, n; } K[] = {{1, 7, 92}, {0x28, 0, 72}, {1, 5, 32}, {1, 0x11, 20}, {1, 0x35, 0}, {2, 0x15, 0}};
    auto &k = K[c.r.below(6)]; Bytes b = c.r.bytes((size_t)k.n);
    if (k.id == 0x35) { int n = 1 + (int)c.r.below(60); b = c.r.bytes(8 + 12 * (size_t)n); b[5] = (uint8_t)n; }
    if (k.id == 0x15) { int n = 1 + (int)c.r.below(40); W w; w.f64(100); w.u16(2000); w.u8(18); w.u8((uint32_t)n); w.u32(c.r.u32()); for (int i = 0; i < n * 32; i++) w.u8(0); b = w.b; }
    b.resize(c.r.chance(1, 3) ? b.size() - 1 : c.r.below((uint32_t)b.size())); c.put(k.cls, k.id, b); ev("cut-short-ignored");
  }
  void other() { int cls, id; do { cls = (int)c.r.bits(8); id = (int)c.r.bits(8); } while (cls == 1 || cls == 2 || cls == 0x0A || cls == 0x10 || cls == 0x28); c.put(cls, id, c.r.bytes(c.r.below(64))); }
  // the satellite lists have their own messages: compare them joined together
  void finish() {
    if (c.streaming) { run_stream(c); c.streaming = false; }
    std::vector<Ev> rest; size_t ia = 0, im = 0;
    for (auto &e : c.out) {
      if (e.type == SbpMsgSvAzEl) {
        const sbp_msg_sv_az_el_t &m = e.msg.sv_az_el; VH_CHECK(e.sender == c.sender, "sender", "sender %u", e.sender); VH_CHECK(m.n_azel > 0, "azel.empty", "empty satellite list");
        for (int i = 0; i < m.n_azel; i++, ia++) {
          if (ia >= az.size()) { violate("azel.invented", "entry %zu of %zu", ia, az.size()); break; }
          int d = ((m.azel[i].az * 2 - azim[ia]) % 360 + 540) % 360 - 180; VH_CHECK(m.azel[i].az < 180 && d >= -1 && d <= 1, "azel.azimuth", "azimuth %u from %d degrees", m.azel[i].az, azim[ia]);
          VH_CHECK(m.azel[i].el == az[ia].el && m.azel[i].sid.sat == az[ia].sat && m.azel[i].sid.code == az[ia].code, "azel.entry", "entry %zu: sat %u code %u el %d expected %u %u %d", ia, m.azel[i].sid.sat, m.azel[i].sid.code, m.azel[i].el, az[ia].sat, az[ia].code, az[ia].el); ev("azel-compared");
        }
      } else if (e.type == SbpMsgMeasurementState) {
        const sbp_msg_measurement_state_t &m = e.msg.measurement_state; VH_CHECK(e.sender == c.sender, "sender", "sender %u", e.sender); VH_CHECK(m.n_states > 0, "state.empty", "empty state list");
        for (int i = 0; i < m.n_states; i++, im++) {
          if (im >= ms.size()) { violate("state.invented", "entry %zu of %zu", im, ms.size()); break; }
          VH_CHECK(m.states[i].cn0 == ms[im].cn0 && m.states[i].mesid.sat == ms[im].sat && m.states[i].mesid.code == ms[im].code, "state.entry", "entry %zu: sat %u code %u cn0 %u expected %u %u %u", im, m.states[i].mesid.sat, m.states[i].mesid.code, m.states[i].cn0, ms[im].sat, ms[im].code, ms[im].cn0); ev("state-compared");
        }
      } else rest.push_back(e);
    }
    VH_CHECK(ia == az.size(), "azel.lost", "%zu of %zu azimuths sent", ia, az.size()); VH_CHECK(im == ms.size(), "state.lost", "%zu of %zu states sent", im, ms.size());
    c.out.swap(rest); c.finish();
  }
};
void case_obs(Rng &r) {
  Ctx c(r); Sol s(c, r.chance(1, 3)); int n = 2 + (int)r.below(16);
  for (int i = 0; i < n; i++) {
    uint32_t tow = r.chance(3, 4) ? r.below(604800000) : (uint32_t)r.bits(32);
    switch (r.below(10)) {
      case 0: case 1: case 2: {
        size_t k = r.chance(1, 8) ? r.below(256) : r.chance(1, 4) ? r.pick(std::vector<size_t>{0, 1, 13, 14, 15, 28, 29, 42, 56, 112, 126}) : r.below(40); if (c.streaming && k > 127) k = 127;
        std::vector<ObsM> v; while (v.size() < k) v.push_back(gen_obs(r));
        double t = gen_tow(r); uint16_t wn = (uint16_t)(r.chance(1, 8) ? 0 : r.chance(1, 8) ? r.bits(16) : 1900 + r.below(600)); put_rawx(c, t, wn, 18, (int)r.below(4), v); expect_rawx(c, t, wn, v); break; }
      case 3: case 4: s.nav_pvt(tow); break;
      case 5: s.hnr_pvt(tow); break;
      case 6: s.nav_att(tow); break;
      case 7: s.velecef(tow); break;
      case 8: s.nav_sat(); break;
      default: if (r.chance(1, 3)) s.mon_hw(); else if (r.chance(1, 2)) s.cut_short(); else s.other();
    }
  }
  s.finish();
}

// ------------------------------------------------------------ C41
#define SAME(f, want) do { auto g_ = m.f; decltype(g_) w_ = (decltype(g_))(want); VH_CHECK(memcmp(&g_, &w_, sizeof g_) == 0, fmt("%s.%s", what, #f), "%s differs: %.17g expected %.17g", #f, (double)g_, (double)w_); ev("field-compared"); } while (0)
template <class M> void cmp_common(const M &m, const ephemeris_t &e, const char *what) {
  SAME(common.toe.tow, llround(e.toe.tow)); SAME(common.toe.wn, e.toe.wn); SAME(common.valid, e.valid); SAME(common.health_bits, e.health_bits); SAME(common.sid.sat, e.sid.sat); SAME(common.sid.code, e.sid.code); SAME(common.fit_interval, e.fit_interval); SAME(common.ura, e.ura);
}
template <class M> void cmp_kepler(const M &m, const ephemeris_t &e, const char *what) {
  const ephemeris_kepler_t &k = e.data.kepler; cmp_common(m, e, what);
  SAME(c_rs, (float)k.crs); SAME(c_rc, (float)k.crc); SAME(c_uc, (float)k.cuc); SAME(c_us, (float)k.cus); SAME(c_ic, (float)k.cic); SAME(c_is, (float)k.cis);
  SAME(dn, k.dn); SAME(m0, k.m0); SAME(ecc, k.ecc); SAME(sqrta, k.sqrta); SAME(omega0, k.omega0); SAME(omegadot, k.omegadot); SAME(w, k.w); SAME(inc, k.inc); SAME(inc_dot, k.inc_dot);
  SAME(af0, k.af0); SAME(af1, k.af1); SAME(af2, k.af2); SAME(toc.tow, llround(k.toc.tow)); SAME(toc.wn, k.toc.wn); SAME(iode, k.iode); SAME(iodc, k.iodc);
}
typedef std::vector<uint32_t> Words;
void put_sfrbx(Ctx &c, int g, int sat, int freq, const Words &w, int nw = -1) {
  W p; p.u8((uint32_t)g); p.u8((uint32_t)sat); p.u8(c.r.u32()); p.u8((uint32_t)freq); p.u8((uint32_t)(nw < 0 ? (int)w.size() : nw)); p.u8(c.r.u32()); p.u8(2); p.u8(c.r.u32()); for (auto x : w) p.u32(x); c.put(2, 0x13, p.b);
}
struct GpsSat { Words sf[3]; bool have[3] = {}; Words set[3]; int next = 0; };
Words gps_word(Rng &r, int sf, uint8_t iode, uint32_t tow6) {
  Words w(10); for (auto &x : w) x = (uint32_t)r.bits(30); w[0] = (w[0] & ~(0xFFu << 22)) | 0x8Bu << 22; w[1] = (w[1] & ~(7u << 8) & ~(0x1FFFFu << 13)) | (uint32_t)(sf + 1) << 8 | tow6 << 13;
  auto put8 = [&](int k) { w[(size_t)k] = (w[(size_t)k] & ~(0xFFu << 22)) | (uint32_t)iode << 22; };
  if (sf == 0) put8(7); else if (sf == 1) put8(2); else put8(9);
  return w;
}
struct EphModel {
  Ctx &c; Sol &s; Rng &r; std::map<int, GpsSat> gps; bool leap_known = false; utc_params_t utc;
  struct Bds { Words sf[3]; bool have[3] = {}; }; std::map<int, Bds> bds;
  struct Gal { Words pg[5]; bool have[5] = {}; }; std::map<int, Gal> gal;
  struct Glo { Words st[5]; bool have[5] = {}; uint32_t super = 0; }; std::map<int, Glo> glo;
  EphModel(Ctx &c_, Sol &s_) : c(c_), s(s_), r(c_.r) { memset(&utc, 0, sizeof utc); }
  void in_gps(int prn, const Words &w, int nw) {
    put_sfrbx(c, 0, prn, 0, w, nw);
    if (prn < 1 || prn > 32 || nw != 10 || (int)w.size() < 10 || ((w[0] >> 22) & 0xFF) != 0x8B) return;
    int sf = (int)((w[1] >> 8) & 7) - 1; if (sf < 0 || sf > 2) return;
    GpsSat &g = gps[prn]; g.sf[sf] = w; g.have[sf] = true; if (!(g.have[0] && g.have[1] && g.have[2])) return;
    uint8_t a = (uint8_t)(g.sf[0][7] >> 22), b = (uint8_t)(g.sf[1][2] >> 22), d = (uint8_t)(g.sf[2][9] >> 22);
    if (a != b || b != d) { for (int i = 0; i < 3; i++) g.have[i] = i == sf; ev("gps-mixed-issue"); return; }
    uint32_t t6 = (g.sf[0][1] >> 13) & 0x1FFFF; int32_t tow; if (t6 == 0) tow = 604794; else if (t6 < 100800) tow = ((int32_t)t6 - 1) * 6; else { g.have[0] = false; ev("gps-impossible-time"); return; }
    u32 f[3][8]; for (int i = 0; i < 3; i++) for (size_t k = 0; k < 8; k++) f[i][k] = g.sf[i][k + 2];
    ephemeris_t e; memset(&e, 0, sizeof e); e.sid.sat = (u16)prn; e.sid.code = CODE_GPS_L1CA; decode_ephemeris((const u32(*)[8])f, &e, tow);
    g.have[0] = g.have[1] = g.have[2] = false; if (!e.valid) { ev("gps-invalid"); return; }
    ev("gps-ephemeris");
    c.expect(SbpMsgEphemerisGps, "eph-gps", [=](const Ev &v) { const sbp_msg_ephemeris_gps_t &m = v.msg.ephemeris_gps; const char *what = "gps"; cmp_kepler(m, e, what); SAME(tgd, e.data.kepler.tgd.gps_s[0]); });
  }
  void in_bds(int prn, const Words &w, int nw) {
    put_sfrbx(c, 3, prn, 0, w, nw);
    if (prn < 1 || prn > 64 || nw != 10 || (int)w.size() < 10) return;
    if (GNSS_D2(prn)) { ev("bds-geo"); return; }
    int sf = (int)((w[0] >> 12) & 7) - 1; if (sf < 0 || sf > 2) return;
    Bds &b = bds[prn]; b.sf[sf] = w; b.have[sf] = true; if (!(b.have[0] && b.have[1] && b.have[2])) return;
    uint32_t sow[3]; for (int i = 0; i < 3; i++) { sow[i] = ((b.sf[i][0] >> 4) & 0xFF) << 12 | ((b.sf[i][1] >> 18) & 0xFFF); if (sow[i] >= 604800) { b.have[i] = false; ev("bds-impossible-time"); return; } }
    if (sow[1] != sow[0] + 6 || sow[2] != sow[1] + 6) { ev("bds-out-of-sequence"); return; }
    u32 f[3][10]; for (int i = 0; i < 3; i++) for (size_t k = 0; k < 10; k++) f[i][k] = b.sf[i][k];
    ephemeris_t e; memset(&e, 0, sizeof e); gnss_signal_t sid = {(u16)prn, CODE_BDS2_B1}; decode_bds_d1_ephemeris((const u32(*)[10])f, sid, &e); add_secs(&e.toe, 14); add_secs(&e.data.kepler.toc, 14); e.fit_interval = BDS_FIT_INTERVAL_SECONDS; e.valid = 1;
    b.have[0] = b.have[1] = b.have[2] = false; ev("bds-ephemeris");
    c.expect(SbpMsgEphemerisBds, "eph-bds", [=](const Ev &v) { const sbp_msg_ephemeris_bds_t &m = v.msg.ephemeris_bds; const char *what = "bds"; cmp_kepler(m, e, what); SAME(tgd1, e.data.kepler.tgd.bds_s[0]); SAME(tgd2, e.data.kepler.tgd.bds_s[1]); });
  }
  static bool GNSS_D2(int prn) { return prn <= 5 || (prn >= 59 && prn <= 61); }
  void in_gal(int prn, const Words &w, int nw) {
    put_sfrbx(c, 2, prn, 0, w, nw);
    if (prn < 1 || prn > 36 || nw < 8 || (int)w.size() < 8) return;
    if (w[0] >> 30 & 3 || !(w[4] >> 31)) return;
    int t = (int)((w[0] >> 24) & 0x3F); if (t < 1 || t > 5) return;
    Gal &g = gal[prn]; g.pg[t - 1] = w; g.have[t - 1] = true;
    auto iod = [&](int i) { return (g.pg[i][0] >> 14) & 0x3FF; };
    if (t != 5) for (int i = 0; i < 4; i++) if (g.have[i] && iod(i) != iod(t - 1)) { g.have[i] = false; ev("gal-old-page-dropped"); }
    for (int i = 0; i < 5; i++) if (!g.have[i]) return;
    u8 p[5][GAL_INAV_CONTENT_BYTE]; memset(p, 0, sizeof p);
    for (int i = 0; i < 5; i++) {
      BitW b; for (int k = 2; k < 114; k++) b.put(g.pg[i][(size_t)k / 32] >> (31 - k % 32) & 1, 1);
      b.put((g.pg[i][4] >> 14) & 0xFFFF, 16); memcpy(p[i], b.b.data(), 16);
    }
    ephemeris_t e; memset(&e, 0, sizeof e); if (!decode_gal_ephemeris_safe((const u8(*)[GAL_INAV_CONTENT_BYTE])p, &e)) { ev("gal-refused"); return; }
    e.sid.code = CODE_GAL_E1B; for (bool &x : g.have) x = false; ev("gal-ephemeris");
    c.expect(SbpMsgEphemerisGal, "eph-gal", [=](const Ev &v) { const sbp_msg_ephemeris_gal_t &m = v.msg.ephemeris_gal; const char *what = "gal"; cmp_kepler(m, e, what); SAME(bgd_e1e5a, e.data.kepler.tgd.gal_s[0]); SAME(bgd_e1e5b, e.data.kepler.tgd.gal_s[1]); SAME(source, 0); VH_CHECK(m.common.sid.sat == prn, "gal.sat", "satellite %u for %d", m.common.sid.sat, prn); });
  }
  void in_glo(int prn, int freq, const Words &w, int nw) {
    put_sfrbx(c, 6, prn, freq, w, nw);
    if (prn < 1 || prn > 28 || nw != 4 || (int)w.size() < 4 || w[0] >> 31) return;
    int n = (int)((w[0] >> 27) & 15); if (n < 1 || n > 5) return;
    Glo &g = glo[prn]; if (g.super != w[3] >> 16) { for (bool &x : g.have) { if (x) ev("glo-old-string-dropped"); x = false; } g.super = w[3] >> 16; }
    g.st[n - 1] = w; g.have[n - 1] = true; for (bool x : g.have) if (!x) return;
    if (!leap_known) { ev("glo-leap-unknown"); return; }
    glo_string_t p[5]; memset(p, 0, sizeof p);
    for (int i = 0; i < 5; i++) for (int b = 1; b <= 85; b++) { int k = 85 - b; if (g.st[i][(size_t)k / 32] >> (31 - k % 32) & 1) p[i].word[(b - 1) / 32] |= 1u << ((b - 1) % 32); }
    gnss_signal_t sid = {(u16)prn, CODE_GLO_L1OF}; ephemeris_t e; memset(&e, 0, sizeof e); bool ok = decode_glo_ephemeris(p, sid, &utc, &e); for (bool &x : g.have) x = false;
    if (!ok) { ev("glo-refused"); return; }
    e.data.glo.fcn = (u16)(freq + 1); ev("glo-ephemeris");
    c.expect(SbpMsgEphemerisGlo, "eph-glo", [=](const Ev &v) {
      const sbp_msg_ephemeris_glo_t &m = v.msg.ephemeris_glo; const char *what = "glo"; cmp_common(m, e, what); const ephemeris_glo_t &k = e.data.glo;
      SAME(gamma, (float)k.gamma); SAME(tau, (float)k.tau); SAME(d_tau, (float)k.d_tau); SAME(fcn, k.fcn); SAME(iod, k.iod);
      for (int i = 0; i < 3; i++) { SAME(pos[i], k.pos[i]); SAME(vel[i], k.vel[i]); SAME(acc[i], (float)k.acc[i]); }
    });
  }
  void in_sbas(int prn, const Words &w, int nw) {
    put_sfrbx(c, 1, prn, 0, w, nw); if (prn < 120 || prn > 138 || (nw != 8 && nw != 9) || (int)w.size() < nw) return;
    if (s.last_tow >= 604800000u) { ev("sbas-time-unknown"); return; }
    uint8_t pre = (uint8_t)(w[0] >> 24); if (pre != 0x53 && pre != 0x9A && pre != 0xC6) return;
    auto bit = [&](int k) { return w[(size_t)k / 32] >> (31 - k % 32) & 1; }; uint32_t crc = 0, got = 0;
    for (int k = 0; k < 226; k++) { uint32_t top = (crc >> 23 & 1) ^ bit(k); crc = (crc << 1) & 0xFFFFFF; if (top) crc ^= 0x864CFB; }
    for (int k = 226; k < 250; k++) got = got << 1 | bit(k);
    if (got != crc) { ev("sbas-bad-crc"); return; }
    uint32_t tow = (s.last_tow + 604800000u - 1120u) % 604800000u; BitW b; for (int k = 14; k < 226; k++) b.put(bit(k), 1); b.b.resize(27); Bytes d = b.b; uint8_t mt = (uint8_t)((w[0] >> 18) & 0x3F); ev("sbas-message");
    c.expect(SbpMsgSbasRaw, "sbas", [=](const Ev &v) {
      const sbp_msg_sbas_raw_t &m = v.msg.sbas_raw; VH_CHECK(m.sid.sat == prn && m.sid.code == CODE_SBAS_L1CA, "sbas.sid", "sat %u code %u", m.sid.sat, m.sid.code); VH_CHECK(m.tow == tow, "sbas.tow", "tow %u expected %u", m.tow, tow);
      VH_CHECK(m.message_type == mt, "sbas.type", "type %u expected %u", m.message_type, mt); VH_CHECK(memcmp(m.data, d.data(), 26) == 0 && (m.data[26] & 0xF0) == (d[26] & 0xF0), "sbas.data", "payload differs");
    });
  }
  // generators
  void rawx_leap() { bool k = r.chance(5, 6); int leap = r.chance(3, 4) ? 18 : (int)r.below(40); uint16_t wn = (uint16_t)(2000 + r.below(400)); double t = r.below(604800); put_rawx(c, t, wn, leap, k ? 1 | (int)r.below(4) << 1 : (int)r.below(4) << 1, {}); expect_rawx(c, t, wn, {}); leap_known = k; if (k) { utc.dt_ls = (s8)leap; utc.dt_lsf = (s8)leap; utc.tot.wn = (s16)wn; utc.t_lse.wn = (s16)wn; } }
};
Words sbas_words(Rng &r, bool good) {
  Words w(9); for (auto &x : w) x = (uint32_t)r.bits(32); static const uint8_t P[] = {0x53, 0x9A, 0xC6}; w[0] = (w[0] & 0xFFFFFF) | (uint32_t)(r.chance(15, 16) ? P[r.below(3)] : (uint8_t)r.u32()) << 24;
  if (good) {
    auto bit = [&](int k) { return w[(size_t)k / 32] >> (31 - k % 32) & 1; }; uint32_t crc = 0; for (int k = 0; k < 226; k++) { uint32_t top = (crc >> 23 & 1) ^ bit(k); crc = (crc << 1) & 0xFFFFFF; if (top) crc ^= 0x864CFB; }
    for (int k = 226; k < 250; k++) { uint32_t m = 1u << (31 - k % 32); if (crc >> (249 - k) & 1) w[(size_t)k / 32] |= m; else w[(size_t)k / 32] &= ~m; }
  }
  return w;
}
void case_eph(Rng &r) {
  Ctx c(r); Sol s(c, r.chance(1, 4)); EphModel m(c, s); int n = 10 + (int)r.below(60); int sys = (int)r.below(6);
  struct Src { int g, prn, freq, step; uint8_t iod8; uint16_t iod10; uint32_t tow; uint16_t super; bool shuffle = false; }; std::vector<Src> v;
  int k = 1 + (int)r.below(4);
  if (r.chance(1, 12)) {  // the first and the last satellite of every constellation side by side
    static const int B[][2] = {{0, 1}, {0, 32}, {2, 1}, {2, 36}, {3, 6}, {3, 63}, {6, 1}, {6, 28}}; k = 0; n = 120 + (int)r.below(120);
    for (auto &b : B) if (r.chance(7, 8)) v.push_back({b[0], b[1], (int)r.below(14), 0, (uint8_t)r.u32(), (uint16_t)r.below(1024), r.below(100700) * 6, (uint16_t)r.u32()});
    if (v.empty()) k = 1;
  }
  for (int i = 0; i < k; i++) {
    static const int G[] = {0, 2, 3, 6, 1}; int g = sys < 5 ? G[sys] : G[r.below(5)];
    int prn = g == 0 ? 1 + (int)r.below(32) : g == 2 ? 1 + (int)r.below(36) : g == 3 ? (r.chance(7, 8) ? 6 + (int)r.below(53) : 1 + (int)r.below(64)) : g == 6 ? 1 + (int)r.below(28) : 120 + (int)r.below(19);
    if (r.chance(1, 30)) prn = (int)r.bits(8);
    if (r.chance(1, 30)) prn = r.chance(1, 4) ? 0 : r.chance(1, 4) ? 255 : g == 0 ? 33 : g == 2 ? 37 : g == 3 ? (r.chance(1, 2) ? 64 : 65) : g == 6 ? 29 : r.chance(1, 2) ? 119 : 139; else
    if (r.chance(1, 6)) prn = g == 0 ? (r.chance(1, 2) ? 1 : 32) : g == 2 ? (r.chance(1, 2) ? 1 : 36) : g == 3 ? (r.chance(1, 2) ? 6 : 63) : g == 6 ? (r.chance(1, 2) ? 1 : 28) : (r.chance(1, 2) ? 120 : 138);
    v.push_back({g, prn, (int)r.below(14), 0, (uint8_t)r.u32(), (uint16_t)r.below(1024), r.below(100700) * 6, (uint16_t)r.u32()});
  }
  for (Src &q : v) { q.shuffle = r.chance(1, 4); if (r.chance(1, 8)) q.tow = 0; if (r.chance(1, 8)) q.iod8 = 0; if (r.chance(1, 8)) q.iod10 = 0; if (r.chance(1, 8)) q.super = 0; }
  if (r.chance(2, 3)) m.rawx_leap();
  if (r.chance(1, 2)) s.nav_pvt(r.below(604800000));
  for (int i = 0; i < n; i++) {
    if (r.chance(1, 25)) { m.rawx_leap(); continue; }
    if (r.chance(1, 16)) { uint32_t tow = r.chance(1, 4) ? r.below(1300) : r.chance(1, 8) ? (uint32_t)r.bits(32) : r.below(604800000); if (r.chance(1, 2)) s.nav_pvt(tow); else s.hnr_pvt(tow); continue; }
    Src &q = v[r.below((uint32_t)v.size())]; int nw = -1;
    if (r.chance(1, 12)) { q.iod8 = (uint8_t)r.u32(); q.iod10 = (uint16_t)r.below(1024); q.super = (uint16_t)r.u32(); }
    if (r.chance(1, 20)) q.step += 1 + (int)r.below(3);
    if (q.g == 0) {
      if (q.shuffle) q.step = (int)r.below(3);
      int sf = q.step % 3; bool retry = r.chance(1, 40); uint32_t t6 = retry ? 100800 + r.below(30272) : r.chance(1, 20) ? 0 : r.chance(1, 20) ? 100799 + r.below(3) : q.tow / 6 % 100800; Words w = gps_word(r, sf, q.iod8, t6);
      if (r.chance(1, 40)) w[0] ^= 1u << (22 + r.below(8)); if (r.chance(1, 30)) w[1] = (w[1] & ~(7u << 8)) | r.below(8) << 8; if (r.chance(1, 60)) { w.resize(r.below(11)); nw = (int)w.size(); } if (!retry) q.tow += 6, q.step++;  // otherwise the same subframe comes again
      m.in_gps(q.prn, w, nw < 0 ? 10 : nw);
    } else if (q.g == 3) {
      if (q.shuffle) { q.step = (int)r.below(3); if (r.chance(1, 20)) q.tow = r.chance(1, 3) ? 0 : r.chance(1, 3) ? 604780 + r.below(40) : r.chance(1, 6) ? r.below(1u << 20) : r.below(604700); }  // any order, the same subframe more than once
      int sf = q.step % 3; Words w(10); for (auto &x : w) x = (uint32_t)r.bits(30); uint32_t sow = q.shuffle ? q.tow + 6 * (uint32_t)sf + (r.chance(1, 20) ? 1 : 0) : q.tow; bool retry = r.chance(1, 20); if (retry) sow = 604800 + r.below((1u << 20) - 604800); else if (r.chance(1, 30)) sow = r.below(1u << 20); if (!q.shuffle && r.chance(1, 10) && sf == 0) { q.tow = r.below(100700) * 6; if (!retry) sow = q.tow; }
      w[0] = (w[0] & ~(7u << 12) & ~(0xFFu << 4)) | (uint32_t)(r.chance(1, 30) ? (int)r.below(8) : sf + 1) << 12 | (sow >> 12 & 0xFF) << 4; w[1] = (w[1] & ~(0xFFFu << 18)) | (sow & 0xFFF) << 18; if (!retry && !q.shuffle) q.tow += 6, q.step++;
      if (r.chance(1, 60)) { w.resize(r.below(11)); nw = (int)w.size(); } m.in_bds(q.prn, w, nw < 0 ? 10 : nw);
    } else if (q.g == 2) {
      int t = q.step % 5 + 1; Words w(r.chance(1, 2) ? 8 : 9); for (auto &x : w) x = (uint32_t)r.bits(32); if (r.chance(1, 8)) t = 1 + (int)r.below(12);
      w[0] = (w[0] & 0x00FFFFFF) | (uint32_t)t << 24; if (t <= 4) w[0] = (w[0] & ~(0x3FFu << 14)) | (uint32_t)q.iod10 << 14; w[4] |= 1u << 31;
      if (t == 4) { w[0] = (w[0] & ~(0x3Fu << 8)) | (uint32_t)(q.prn & 63) << 8; }
      if (r.chance(1, 40)) w[4] &= 0x7FFFFFFF; if (r.chance(1, 40)) w[0] |= 1u << (30 + r.below(2)); if (r.chance(1, 60)) { w.resize(r.below(8)); nw = (int)w.size(); } q.step++;
      m.in_gal(q.prn, w, nw < 0 ? (int)w.size() : nw);
    } else if (q.g == 6) {
      int t = q.step % 5 + 1; Words w(4); for (auto &x : w) x = (uint32_t)r.bits(32); if (r.chance(1, 8)) t = (int)r.below(16);
      w[0] = (w[0] & 0x07FFFFFF) | (uint32_t)t << 27; w[3] = (uint32_t)q.super << 16 | r.below(6); if (t == 1 && r.chance(7, 8)) { uint32_t tk = r.below(24) << 7 | r.below(60) << 1 | r.below(2); // string bits 65..76: hours, minutes, half minutes
        for (int b = 65; b <= 76; b++) { int kk = 85 - b; uint32_t msk = 1u << (31 - kk % 32); if (tk >> (b - 65) & 1) w[(size_t)kk / 32] |= msk; else w[(size_t)kk / 32] &= ~msk; } }
      if (r.chance(1, 40)) w[0] |= 1u << 31; if (r.chance(1, 60)) { w.resize(r.below(6)); nw = (int)w.size(); } q.step++; m.in_glo(q.prn, q.freq, w, nw < 0 ? 4 : nw);
    } else { Words w = sbas_words(r, r.chance(7, 8)); w.resize(r.chance(1, 2) ? 8 : 9); if (r.chance(1, 40)) { w.resize(r.below(9)); } m.in_sbas(q.prn, w, (int)w.size()); }
  }
  s.finish();
}

// ------------------------------------------------------------ C42
void case_imu(Rng &r) {
  Ctx c(r); Sol s(c, r.chance(1, 6)); int n = 4 + (int)r.below(40);
  int64_t now = r.chance(1, 8) ? 604800000 - (int64_t)r.below(20000) : r.chance(1, 8) ? 4294967296 - (int64_t)r.below(8000) : 200 + (int64_t)r.below(2000000000); uint32_t tag24 = (uint32_t)r.bits(24);
  int64_t run = -1; uint32_t last = 0; int64_t nraw = 0; bool temp_set = false; double temp = 0; bool imu_time = false;
  int64_t orun = -1; uint32_t olast = 0; uint32_t tin[4]; int32_t tout[4]; bool thave[4] = {};
  uint32_t cnt[4]; for (auto &x : cnt) x = r.below(1u << 20);
  bool wk_set = false; bool obs_known = false; int64_t obs_ns_wn = 0; double obs_tow = 0; uint16_t wn = (uint16_t)(2000 + r.below(400)); double gtow0 = r.chance(1, 6) ? 604800 - r.uniform(0, 20) : r.uniform(0, 604000); int64_t base = now; int16_t kept[6] = {};
  (void)kept;
  for (int i = 0; i < n; i++) {
    now += r.chance(1, 12) ? 900 + (int64_t)r.below(300) : r.chance(1, 30) ? 1000 + (int64_t)r.below(5000) : (int64_t)r.below(200);
    if ((uint32_t)now < 60) now += 60;  // a sample 50 ms before the counter started has no time
    double gt = gtow0 + (double)(now - base) * 1e-3; int64_t gw = wn; while (gt >= 604800) { gt -= 604800; gw++; }
    switch (r.below(9)) {
      case 0: case 1: case 2: case 3: {  // ESF-RAW
        W w; uint32_t msss = (uint32_t)now; w.u32(msss); int sets = (int)(r.chance(1, 10) ? r.below(18) : r.below(11)); std::vector<std::pair<uint32_t, uint32_t>> it; uint32_t tg = tag24;
        static const int AX[] = {5, 13, 14, 16, 17, 18};
        for (int k = 0; k < sets; k++) {
          int ord[6] = {0, 1, 2, 3, 4, 5}; for (int q = 5; q > 0; q--) std::swap(ord[q], ord[r.below((uint32_t)q + 1)]);
          for (int q = 0; q < 6; q++) {
            if (r.chance(1, 300)) continue;
            uint32_t v = r.chance(1, 3) ? (uint32_t)r.bits(24) : r.chance(1, 2) ? (uint32_t)(r.range(-40000, 40000)) & 0xFFFFFF : (uint32_t)(r.range(-500000, 500000)) & 0xFFFFFF;
            it.push_back({(uint32_t)AX[ord[q]] << 24 | v, tg}); if (r.chance(1, 400)) it.push_back(it.back());
          }
          if (r.chance(1, 2)) it.push_back({12u << 24 | (r.chance(1, 2) ? (uint32_t)r.range(-5000, 10000) & 0xFFFFFF : (uint32_t)r.bits(24)), tg});
          if (r.chance(1, 20)) it.push_back({(r.chance(1, 2) ? 200u : 7u) << 24 | (uint32_t)r.bits(24), tg});
          tg = (tg + 200 + r.below(100)) & 0xFFFFFF;
        }
        if (it.size() > 128) it.resize(128);
        for (auto &x : it) { w.u32(x.first); w.u32(x.second); } c.put(0x10, 3, w.b); tag24 = (tag24 + 2560) & 0xFFFFFF;
        // model
        bool got[6] = {}; int16_t val[6] = {}; 
        for (auto &x : it) {
          int type = (int)(x.first >> 24); int32_t v = (int32_t)(x.first << 8) >> 8; if (type == 12) { temp_set = true; temp = v * 0.01; continue; }
          int a = -1; for (int q = 0; q < 6; q++) if (AX[q] == type) a = q; if (a < 0) continue;
          if (run != -1 && (uint32_t)(msss - last) > 1000) { run = -1; ev("imu-gap"); break; }
          if (run == -1) run = msss; else run += (uint32_t)(msss - last); last = msss; imu_time = true;
          if (got[a]) { ev("imu-lost-sample"); break; }
          got[a] = true; double f = a < 3 ? v * 0.064 * 0.5 * 2 * (1.0) : v * ldexp(1, -10) / (4.0 * 9.80665 / 32768.0); if (a < 3) f = v * ldexp(1, -12) / (125.0 / 32768.0);
          double cl = f > 32767 ? 32767 : f < -32768 ? -32768 : f; val[a] = (int16_t)lround(cl);
          bool all = true; for (bool b : got) all = all && b; if (!all) continue;
          for (bool &b : got) b = false;
          if (nraw % 20 == 0) {
            bool ts = temp_set; double T = temp;
            c.expect(SbpMsgImuAux, "imu-aux", [=](const Ev &e) {
              const sbp_msg_imu_aux_t &m = e.msg.imu_aux; VH_CHECK(m.imu_type == 0 && m.imu_conf == 0x41, "aux.config", "type %u configuration %02x", m.imu_type, m.imu_conf);
              double t = (T - 23) * 512; if (t > 32767) t = 32767; if (t < -32767) t = -32767;
              if (!ts) VH_CHECK(m.temp == -32768, "aux.temp-unknown", "temperature %d", m.temp); else VH_CHECK(fabs(m.temp - t) <= 1.001 && m.temp != -32768, "aux.temp", "temperature %d expected %.2f", m.temp, t);
            });
          }
          nraw++;
          double diff = ((x.second - it[0].second) & 0xFFFFFF) * 0.0390625; double ms = fmod((double)run + diff - 50.0, (double)WEEK); int64_t u256 = (int64_t)(ms * 256);
          int16_t vv[6]; memcpy(vv, val, sizeof vv); int16_t g0 = vv[2], g1 = vv[1], g2 = vv[0], a0 = vv[3], a1 = vv[4], a2 = vv[5];
          c.expect(SbpMsgImuRaw, "imu-raw", [=](const Ev &e) {
            const sbp_msg_imu_raw_t &m = e.msg.imu_raw; VH_CHECK((m.tow >> 30) == 1, "imu.reference", "time reference %u", m.tow >> 30);
            int64_t t = (int64_t)(m.tow & 0x3FFFFFFF); VH_CHECK(t < WEEK, "imu.tow-range", "time %" PRId64, t); int64_t d = t * 256 + m.tow_f - u256; if (d > WEEK * 128) d -= WEEK * 256; if (d < -WEEK * 128) d += WEEK * 256;
            VH_CHECK(d >= -1 && d <= 1, "imu.time", "time %" PRId64 "+%u/256 off by %" PRId64 "/256 ms", t, m.tow_f, d);
            auto near = [](int a_, int b_) { return abs(a_ - b_) <= 1; };
            VH_CHECK(near(m.gyr_x, g0) && near(m.gyr_y, g1) && near(m.gyr_z, g2), "imu.gyro", "%d %d %d expected %d %d %d", m.gyr_x, m.gyr_y, m.gyr_z, g0, g1, g2);
            VH_CHECK(near(m.acc_x, a0) && near(m.acc_y, a1) && near(m.acc_z, a2), "imu.acc", "%d %d %d expected %d %d %d", m.acc_x, m.acc_y, m.acc_z, a0, a1, a2);
          });
          ev("imu-sample");
        }
        break; }
      case 4: case 5: {  // ESF-MEAS
        static const int TY[] = {6, 7, 8, 9, 10, 11}; bool single = i % 2 == 0 && r.chance(1, 4); bool cal = r.chance(9, 10); int k = 1 + (int)r.below(5); W w; w.u32(r.u32()); std::vector<uint32_t> d;
        static const int SRC[] = {2, 3, 1, 0, 0};
        for (int q = 0; q < k; q++) {
          int t = TY[r.below(6)]; if (t == 10) t = single ? 10 : 9; 
          if (t == 11) d.push_back(11u << 24 | (uint32_t)(r.range(-60000, 60000) & 0xFFFFFF) | 0); else { int sx = SRC[t - 6]; cnt[sx] += r.chance(1, 20) ? r.below(100000) : r.below(300); if (cnt[sx] > 0x7FFFFF) cnt[sx] = 0x7FFFFF; d.push_back((uint32_t)t << 24 | (r.chance(1, 4) ? 1u << 23 : 0) | cnt[sx]); }
          if (r.chance(1, 12)) d.push_back(5u << 24 | (uint32_t)r.bits(24));
          if (r.chance(1, 20)) d.back() |= r.below(4) << 30;
        }
        if (r.chance(1, 20)) d.clear();
        w.u16((uint32_t)d.size() << 11 | (cal ? 8u : 0u) | r.below(8)); w.u16(r.u32()); for (auto x : d) w.u32(x); uint32_t tag = (uint32_t)now; if (cal) w.u32(tag);
        if (r.chance(1, 16)) { Bytes b = w.b; b.resize(r.chance(1, 2) ? b.size() - 1 : r.below((uint32_t)b.size())); if (r.chance(1, 4)) c.put(1, 3, r.bytes(r.below(16))); else c.put(0x10, 2, b); ev("cut-short-ignored"); }
        c.put(0x10, 2, w.b);
        if (!cal) { ev("odo-uncalibrated"); break; }
        for (auto x : d) {
          int t = (int)(x >> 24 & 0x3F); if (t < 6 || t > 11) continue;
          if (orun != -1 && (orun > (int64_t)tag || (int64_t)tag - orun > 1000)) { orun = -1; ev("odo-gap"); break; }
          if (orun == -1) orun = tag; else orun += (uint32_t)(tag - olast); olast = tag;
          int64_t ms = orun % WEEK; 
          if (t == 11) {
            int32_t vel = (int32_t)(x << 8) >> 8; uint8_t fl = (uint8_t)(2 | 3 << 3 | (x >> 23 & 1) << 5);
            c.expect(SbpMsgOdometry, "odometry", [=](const Ev &e) { const sbp_msg_odometry_t &m = e.msg.odometry; int64_t dd = (int64_t)m.tow - ms; VH_CHECK(dd >= -1 && dd <= 1, "odo.time", "time %u expected %" PRId64, m.tow, ms); VH_CHECK(m.velocity == vel, "odo.velocity", "velocity %d expected %d", m.velocity, vel); VH_CHECK(m.flags == fl, "odo.flags", "flags %02x expected %02x", m.flags, fl); });
          } else {
            int sx = SRC[t - 6]; uint32_t tc = x & 0x7FFFFF; if (!thave[sx]) { thave[sx] = true; tout[sx] = (int32_t)tc; } else { int32_t inc = (int32_t)(tc - tin[sx]); tout[sx] += (x >> 23 & 1) ? -inc : inc; } tin[sx] = tc; int32_t want = tout[sx];
            c.expect(SbpMsgWheeltick, "wheeltick", [=](const Ev &e) { const sbp_msg_wheeltick_t &m = e.msg.wheeltick; int64_t dd = (int64_t)m.time - ms * 1000; VH_CHECK(dd >= -1 && dd <= 1, "wheel.time", "time %" PRIu64 " expected %" PRId64 " ms", m.time, ms); VH_CHECK(m.flags == 2, "wheel.flags", "flags %u", m.flags); VH_CHECK(m.source == sx, "wheel.source", "source %u expected %d", m.source, sx); VH_CHECK(m.ticks == want, "wheel.ticks", "ticks %d expected %d", m.ticks, want); });
          }
          ev("odo-sample");
        }
        break; }
      case 6: {  // RAWX
        std::vector<ObsM> v; int k = (int)r.below(3); while ((int)v.size() < k) v.push_back(gen_obs(r)); bool now0 = r.chance(1, 10); uint16_t w16 = (uint16_t)(now0 ? 0 : gw); double t = r.chance(1, 12) ? -1.0 : gt;
        put_rawx(c, t, w16, 18, 1, v); expect_rawx(c, t, w16, v); if (k && w16 && t >= 0 && wk_set) { obs_known = true; obs_ns_wn = gw; obs_tow = gt; } break; }
      case 7: {  // NAV-STATUS
        uint8_t fix = (uint8_t)(r.chance(3, 4) ? 3 + r.below(2) : r.below(6)), fl = (uint8_t)(r.chance(3, 4) ? 0xD | r.bits(8) : r.bits(8)); uint32_t itow = (uint32_t)(gt * 1000) % 604800000u; uint32_t msss = (uint32_t)now;
        W w; w.u32(itow); w.u8(fix); w.u8(fl); w.u16(r.u32()); w.u32(r.u32()); w.u32(msss); c.put(1, 3, w.b);
        bool tg = (fl & 0xC) == 0xC; if (tg) wk_set = true; bool ok = (fix == 3 || fix == 4) && (fl & 1) && tg && obs_known && imu_time; if (!ok) break;
        int64_t gms = obs_ns_wn * WEEK + itow; double dd = (double)itow * 1e-3 - obs_tow; if (dd > 302400) gms -= WEEK; if (dd < -302400) gms += WEEK; int64_t off = gms - (run != -1 ? run + (int32_t)(msss - last) : (int64_t)msss); bool rolled = now > 0xFFFFFFFF; s.last_tow = itow;
        c.expect(SbpMsgGnssTimeOffset, "time-offset", [=](const Ev &e) { const sbp_msg_gnss_time_offset_t &m = e.msg.gnss_time_offset; int64_t got = (int64_t)m.weeks * WEEK + m.milliseconds; int64_t df = got - off; if (rolled) df = ((df % WEEK) + WEEK + WEEK / 2) % WEEK - WEEK / 2; if (rolled) ev("offset-after-rollover"); VH_CHECK(df == 0, "offset.value", "%d weeks %d ms expected %" PRId64 " ms", m.weeks, m.milliseconds, off); VH_CHECK(m.microseconds == 0 && m.flags == 0, "offset.flags", "microseconds %d flags %u", m.microseconds, m.flags); ev("time-offset"); });
        break; }
      default: if (r.chance(1, 2)) s.nav_att((uint32_t)r.below(604800000)); else s.other();
    }
  }
  s.finish();
}

// ------------------------------------------------------------ C28: the codec
#define BY(f) put_mem(b, &m.f, sizeof m.f)
void put_mem(Bytes &b, const void *p, size_t n) { const uint8_t *q = (const uint8_t *)p; b.insert(b.end(), q, q + n); }
Bytes ser(const ubx_hnr_pvt &m) { Bytes b; BY(i_tow); BY(year); BY(month); BY(day); BY(hour); BY(min); BY(sec); BY(valid); BY(nano); BY(fix_type); BY(flags); BY(reserved1); BY(lon); BY(lat); BY(height); BY(height_mean_sea_level); BY(ground_speed); BY(speed); BY(heading_of_motion); BY(heading_vehicle); BY(horizontal_accuracy); BY(vertical_accuracy); BY(speed_acc); BY(heading_acc); BY(reserved2); return b; }
Bytes ser(const ubx_rxm_rawx &m) {
  Bytes b; BY(rcv_tow); BY(rcv_wn); BY(leap_second); BY(num_meas); BY(rec_status); BY(version); BY(reserved1);
  for (int i = 0; i < m.num_meas; i++) { BY(pseudorange_m[i]); BY(carrier_phase_cycles[i]); BY(doppler_hz[i]); BY(gnss_id[i]); BY(sat_id[i]); BY(sig_id[i]); BY(freq_id[i]); BY(lock_time[i]); BY(cno_dbhz[i]); BY(pr_std_m[i]); BY(cp_std_cycles[i]); BY(doppler_std_hz[i]); BY(track_state[i]); BY(reserved2[i]); }
  return b;
}
Bytes ser(const ubx_mga_gps_eph &m) { Bytes b; BY(msg_type); BY(version); BY(sat_id); BY(reserved1); BY(fit_interval); BY(ura_index); BY(sat_health); BY(tgd); BY(iodc); BY(toc); BY(reserved2); BY(af2); BY(af1); BY(af0); BY(crs); BY(delta_N); BY(m0); BY(cuc); BY(cus); BY(e); BY(sqrt_A); BY(toe); BY(cic); BY(omega0); BY(cis); BY(crc); BY(i0); BY(omega); BY(omega_dot); BY(i_dot); BY(reserved3); return b; }
Bytes ser(const ubx_nav_att &m) { Bytes b; BY(i_tow); BY(version); BY(reserved); BY(roll); BY(pitch); BY(heading); BY(acc_roll); BY(acc_pitch); BY(acc_heading); return b; }
Bytes ser(const ubx_nav_clock &m) { Bytes b; BY(i_tow); BY(clk_bias); BY(clk_drift); BY(time_acc); BY(freq_acc); return b; }
Bytes ser(const ubx_nav_pvt &m) { Bytes b; BY(i_tow); BY(year); BY(month); BY(day); BY(hour); BY(min); BY(sec); BY(valid); BY(time_acc); BY(nano); BY(fix_type); BY(flags); BY(flags2); BY(num_sats); BY(lon); BY(lat); BY(height); BY(height_mean_sea_level); BY(horizontal_accuracy); BY(vertical_accuracy); BY(vel_north); BY(vel_east); BY(vel_down); BY(ground_speed); BY(heading_of_motion); BY(speed_acc); BY(heading_acc); BY(PDOP); BY(flags3); BY(reserved1); BY(heading_vehicle); BY(magnetic_declination); BY(magnetic_declination_accuracy); return b; }
Bytes ser(const ubx_nav_velecef &m) { Bytes b; BY(i_tow); BY(ecefVX); BY(ecefVY); BY(ecefVZ); BY(speed_acc); return b; }
Bytes ser(const ubx_nav_sat &m) { Bytes b; BY(i_tow); BY(version); BY(num_svs); BY(reserved1); for (int i = 0; i < m.num_svs && i < NAV_DATA_MAX_COUNT; i++) { BY(data[i].gnss_id); BY(data[i].sv_id); BY(data[i].cno); BY(data[i].elev); BY(data[i].azim); BY(data[i].pr_res); BY(data[i].flags); } return b; }
Bytes ser(const ubx_nav_status &m) { Bytes b; BY(i_tow); BY(fix_type); BY(status_flags); BY(fix_status); BY(status_flags_ext); BY(ttff_ms); BY(msss); return b; }
Bytes ser(const ubx_rxm_sfrbx &m) { Bytes b; BY(gnss_id); BY(sat_id); BY(reserved1); BY(freq_id); BY(num_words); BY(channel); BY(version); BY(reserved2); for (int i = 0; i < m.num_words; i++) BY(data_words[i]); return b; }
Bytes ser(const ubx_esf_ins &m) { Bytes b; BY(bitfield0); BY(reserved1); BY(i_tow); BY(x_ang_rate); BY(y_ang_rate); BY(z_ang_rate); BY(x_accel); BY(y_accel); BY(z_accel); return b; }
Bytes ser(const ubx_esf_meas &m) { Bytes b; BY(time_tag); BY(flags); BY(id); for (int i = 0; i < (m.flags >> 11 & 31); i++) BY(data[i]); if (m.flags & 8) BY(calib_tag); return b; }
Bytes ser(const ubx_esf_raw &m) { Bytes b; BY(msss); for (int i = 0; i < (m.length - 4) / 8; i++) { BY(data[i]); BY(sensor_time_tag[i]); } return b; }

template <class M, class Dec, class Enc> void codec_one(Rng &r, const char *name, int cls, int id, Bytes pl, Dec dec, Enc enc) {
  Bytes f = ubx_msg(cls, id, pl); M *m = (M *)malloc(sizeof(M)); memset(m, 0x5A, sizeof(M));
  auto run = [&](const Bytes &x, M *o) { uint8_t *p = (uint8_t *)malloc(x.size() ? x.size() : 1); memcpy(p, x.data(), x.size()); swiftnav_bytestream_t bs; swiftnav_bytestream_init(&bs, p, (uint32_t)x.size()); ubx_rc rc = dec(&bs, o); free(p); return rc; };
  ubx_rc rc = run(f, m); VH_CHECK(rc == RC_OK, fmt("%s.refused", name), "whole message refused: %d", rc);
  if (rc == RC_OK) {
    VH_CHECK(m->class_id == cls && m->msg_id == id && m->length == (uint16_t)pl.size(), fmt("%s.header", name), "header %02x %02x %u", m->class_id, m->msg_id, m->length);
    Bytes s = ser(*m); VH_CHECK(s == pl, fmt("%s.fields", name), "decoded fields differ: %s expected %s", hex(s).c_str(), hex(pl).c_str());
    // encode and compare with the original bytes
    uint8_t *o = (uint8_t *)malloc(f.size()); memset(o, 0xEE, f.size()); uint16_t n = enc(m, o);
    VH_CHECK(n == (uint16_t)f.size(), fmt("%s.encoded-length", name), "%u bytes expected %zu", n, f.size()); VH_CHECK(memcmp(o, f.data(), std::min<size_t>(n, f.size())) == 0, fmt("%s.encoded", name), "encoded %s", hex(o, std::min<size_t>(n, f.size())).c_str()); free(o);
    nontrivial(); evs(std::string("decoded-") + name); distinct(f.data(), f.size());
  }
  // cut short: an error, whatever the length field says
  Bytes t = f; t.resize(r.below((uint32_t)f.size())); rc = run(t, m); VH_CHECK(rc != RC_OK, fmt("%s.truncated", name), "accepted with %zu of %zu bytes", t.size(), f.size()); ev("truncation-refused");
  // other kinds are refused
  Bytes u = f; if (r.chance(1, 2)) u[0] ^= (uint8_t)(1 + r.below(255)); else u[1] ^= (uint8_t)(1 + r.below(255)); rc = run(u, m); VH_CHECK(rc == RC_MESSAGE_TYPE_MISMATCH, fmt("%s.kind", name), "class %02x id %02x gives %d", u[0], u[1], rc);
  free(m);
}
Bytes rnd_fixed(Rng &r, size_t n) { W w; while (w.b.size() < n) w.u8((uint32_t)r.bits(8)); return w.b; }
void case_codec(Rng &r) {
  switch (r.below(14)) {
    case 0: codec_one<ubx_hnr_pvt>(r, "hnr-pvt", 0x28, 0, rnd_fixed(r, 72), ubx_decode_hnr_pvt_bytestream, ubx_encode_hnr_pvt); break;
    case 1: { int n = (int)(r.chance(1, 8) ? r.below(256) : r.below(40)); Bytes p = rnd_fixed(r, 16 + 32 * (size_t)n); p[11] = (uint8_t)n; codec_one<ubx_rxm_rawx>(r, "rxm-rawx", 2, 0x15, p, ubx_decode_rxm_rawx_bytestream, ubx_encode_rawx); break; }
    case 2: codec_one<ubx_nav_att>(r, "nav-att", 1, 5, rnd_fixed(r, 32), ubx_decode_nav_att_bytestream, ubx_encode_nav_att); break;
    case 3: codec_one<ubx_nav_clock>(r, "nav-clock", 1, 0x22, rnd_fixed(r, 20), ubx_decode_nav_clock_bytestream, ubx_encode_nav_clock); break;
    case 4: codec_one<ubx_nav_pvt>(r, "nav-pvt", 1, 7, rnd_fixed(r, 92), ubx_decode_nav_pvt_bytestream, ubx_encode_nav_pvt); break;
    case 5: codec_one<ubx_nav_velecef>(r, "nav-velecef", 1, 0x11, rnd_fixed(r, 20), ubx_decode_nav_velecef_bytestream, ubx_encode_nav_velecef); break;
    case 6: { int n = (int)r.below(101); Bytes p = rnd_fixed(r, 8 + 12 * (size_t)n); p[5] = (uint8_t)n; codec_one<ubx_nav_sat>(r, "nav-sat", 1, 0x35, p, ubx_decode_nav_sat_bytestream, ubx_encode_nav_sat); break; }
    case 7: codec_one<ubx_nav_status>(r, "nav-status", 1, 3, rnd_fixed(r, 16), ubx_decode_nav_status_bytestream, ubx_encode_nav_status); break;
    case 8: codec_one<ubx_mga_gps_eph>(r, "mga-gps-eph", 0x13, 0, rnd_fixed(r, 68), ubx_decode_mga_gps_eph_bytestream, ubx_encode_mga_gps_eph); break;
    case 9: { int n = (int)r.below(11); Bytes p = rnd_fixed(r, 8 + 4 * (size_t)n); p[4] = (uint8_t)n; codec_one<ubx_rxm_sfrbx>(r, "rxm-sfrbx", 2, 0x13, p, ubx_decode_rxm_sfrbx_bytestream, ubx_encode_rxm_sfrbx);
      if (r.chance(1, 3)) { p[4] = (uint8_t)(11 + r.below(245)); p.resize(8 + 4 * (size_t)p[4], 1); Bytes f = ubx_msg(2, 0x13, p); ubx_rxm_sfrbx m; swiftnav_bytestream_t bs; swiftnav_bytestream_init(&bs, f.data(), (uint32_t)f.size()); VH_CHECK(ubx_decode_rxm_sfrbx_bytestream(&bs, &m) == RC_INVALID_MESSAGE, "rxm-sfrbx.words", "%u words accepted", p[4]); }
      break; }
    case 10: codec_one<ubx_esf_ins>(r, "esf-ins", 0x10, 0x15, rnd_fixed(r, 36), ubx_decode_esf_ins_bytestream, ubx_encode_esf_ins); break;
    case 11: { Bytes h = rnd_fixed(r, 8); int n = h[5] >> 3; bool cal = h[4] & 8; Bytes t = rnd_fixed(r, 4 * (size_t)n + (cal ? 4 : 0)); h.insert(h.end(), t.begin(), t.end()); codec_one<ubx_esf_meas>(r, "esf-meas", 0x10, 2, h, ubx_decode_esf_meas_bytestream, ubx_encode_esf_meas); break; }
    case 12: { int n = (int)(r.chance(1, 4) ? 126 + r.below(3) : r.below(60)); codec_one<ubx_esf_raw>(r, "esf-raw", 0x10, 3, rnd_fixed(r, 4 + 8 * (size_t)n), ubx_decode_esf_raw_bytestream, ubx_encode_esf_raw);
      if (r.chance(1, 4)) { Bytes f = ubx_msg(0x10, 3, rnd_fixed(r, 4 + 8 * (129 + (size_t)r.below(200)))); std::unique_ptr<ubx_esf_raw> m(new ubx_esf_raw); swiftnav_bytestream_t bs; swiftnav_bytestream_init(&bs, f.data(), (uint32_t)f.size()); VH_CHECK(ubx_decode_esf_raw_bytestream(&bs, m.get()) == RC_INVALID_MESSAGE, "esf-raw.count", "too many samples accepted"); }
      break; }
    default: {  // checksum
      Bytes b = rnd_fixed(r, r.below(300)); uint8_t *p = (uint8_t *)malloc(b.size() + 1); if (!b.empty()) memcpy(p, b.data(), b.size()); uint8_t ck[2] = {0xAA, 0x55}; ubx_checksum(p, b.size(), ck); free(p); uint32_t a = 0, s = 0; for (uint8_t x : b) { a += x; s += a; }
      VH_CHECK(ck[0] == (uint8_t)a && ck[1] == (uint8_t)s, "checksum", "%02x %02x expected %02x %02x", ck[0], ck[1], a & 255, s & 255); nontrivial(); ev("checksum-compared"); distinct(b.data(), b.size()); }
  }
}

// ------------------------------------------------ C07: exact size buffers
template <class M, class Dec> void host_one(Rng &r, int cls, int id, const Bytes &pl, Dec dec) {
  Bytes f = ubx_msg(cls, id, pl); if (r.chance(1, 2)) f.resize(r.below((uint32_t)f.size() + 1)); if (r.chance(1, 3) && f.size() >= 4) { f[2] = (uint8_t)r.bits(8); f[3] = (uint8_t)r.bits(8); }
  int k = (int)r.below(4); for (int i = 0; i < k && f.size() > 2; i++) f[2 + r.below((uint32_t)f.size() - 2)] = (uint8_t)r.bits(8);
  uint8_t *p = (uint8_t *)malloc(f.size() ? f.size() : 1); memcpy(p, f.data(), f.size()); M *m = (M *)malloc(sizeof(M)); swiftnav_bytestream_t bs; swiftnav_bytestream_init(&bs, p, (uint32_t)f.size());
  ubx_rc rc = dec(&bs, m); VH_CHECK(bs.offset <= f.size(), "ubx.read-beyond", "read position %u of %zu", (unsigned)bs.offset, f.size()); digest_v(rc); ev(rc == RC_OK ? "ubx-accepted" : "ubx-refused"); free(m); free(p); if (f.size() >= 8) nontrivial(); distinct(f.data(), f.size());
}
void case_codechost(Rng &r) {
  for (int i = 0; i < 8; i++) switch (r.below(13)) {
    case 0: host_one<ubx_hnr_pvt>(r, 0x28, 0, rnd_fixed(r, 72), ubx_decode_hnr_pvt_bytestream); break;
    case 1: host_one<ubx_rxm_rawx>(r, 2, 0x15, rnd_rawx(r, false), ubx_decode_rxm_rawx_bytestream); break;
    case 2: host_one<ubx_nav_att>(r, 1, 5, rnd_fixed(r, 32), ubx_decode_nav_att_bytestream); break;
    case 3: host_one<ubx_nav_clock>(r, 1, 0x22, rnd_fixed(r, 20), ubx_decode_nav_clock_bytestream); break;
    case 4: host_one<ubx_nav_pvt>(r, 1, 7, rnd_fixed(r, 92), ubx_decode_nav_pvt_bytestream); break;
    case 5: host_one<ubx_nav_velecef>(r, 1, 0x11, rnd_fixed(r, 20), ubx_decode_nav_velecef_bytestream); break;
    case 6: { int n = (int)r.below(256); Bytes p = rnd_fixed(r, 8 + 12 * (size_t)n); p[5] = (uint8_t)(r.chance(1, 2) ? n : (int)r.bits(8)); host_one<ubx_nav_sat>(r, 1, 0x35, p, ubx_decode_nav_sat_bytestream); break; }
    case 7: host_one<ubx_nav_status>(r, 1, 3, rnd_fixed(r, 16), ubx_decode_nav_status_bytestream); break;
    case 8: host_one<ubx_mga_gps_eph>(r, 0x13, 0, rnd_fixed(r, 68), ubx_decode_mga_gps_eph_bytestream); break;
    case 9: host_one<ubx_rxm_sfrbx>(r, 2, 0x13, rnd_sfrbx(r), ubx_decode_rxm_sfrbx_bytestream); break;
    case 10: host_one<ubx_esf_ins>(r, 0x10, 0x15, rnd_fixed(r, 36), ubx_decode_esf_ins_bytestream); break;
    case 11: host_one<ubx_esf_meas>(r, 0x10, 2, rnd_meas(r), ubx_decode_esf_meas_bytestream); break;
    default: host_one<ubx_esf_raw>(r, 0x10, 3, rnd_raw(r), ubx_decode_esf_raw_bytestream);
  }
}
