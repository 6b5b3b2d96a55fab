// r2s.cc continued: ephemerides, station, text, SSR, wrappers, case drivers.
void expect(Ctx &c, uint16_t sender, int type, const char *kind, std::function<void(const sbp_msg_t &)> f) {
  Exp e; e.sender = sender; e.type = type; e.kind = kind; e.chk = std::move(f); c.exp.push_back(std::move(e));
}
struct FV { const char *n; double got; ld want; };
void fcheck(const char *kind, const std::vector<FV> &v) {
  for (auto &f : v) {
    ld tol = fabsl(f.want) * 3e-7L;  // float fields; doubles are checked tighter below
    VH_CHECK(fabsl((ld)f.got - f.want) <= tol, fmt("%s.%s", kind, f.n), "%s %s = %.12g expected %.12Lg", kind, f.n, f.got, f.want);
    ev("parameter-compared");
  }
}
void dcheck(const char *kind, const std::vector<FV> &v) {
  for (auto &f : v) {
    VH_CHECK(fabsl((ld)f.got - f.want) <= fabsl(f.want) * 1e-14L, fmt("%s.%s", kind, f.n), "%s %s = %.17g expected %.17Lg", kind, f.n, f.got, f.want);
    ev("parameter-compared");
  }
}
const ld PIL = 3.14159265358979323846264338327950288L;
ld p2(int n) { return ldexpl(1.0L, n); }
ld ura_gps(int u) { static const double T[] = {2, 2.8, 4, 5.7, 8, 11.3, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 6144}; return T[u]; }
ld ura_bds(int u) { static const double T[] = {2, 2.8, 4, 5.7, 8, 11.3, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192}; return T[u]; }
ld ft_glo(int u) { static const double T[] = {1, 2, 2.5, 4, 5, 7, 10, 12, 14, 16, 32, 64, 128, 256, 512, 6144}; return T[u]; }
ld sisa(int s) { return s < 50 ? s * 0.01L : s < 75 ? 0.5L + (s - 50) * 0.02L : s < 100 ? 1 + (s - 75) * 0.04L : s <= 125 ? 2 + (s - 100) * 0.16L : -1; }
uint32_t fit_gps(int flag, int iodc) {
  if (!flag) return 4 * 3600; int h = 6;
  if (iodc >= 240 && iodc <= 247) h = 8; else if ((iodc >= 248 && iodc <= 255) || iodc == 496) h = 14; else if ((iodc >= 497 && iodc <= 503) || iodc >= 1021) h = 26;
  else if (iodc >= 504 && iodc <= 510) h = 50; else if (iodc == 511 || (iodc >= 752 && iodc <= 756)) h = 74; else if (iodc == 757) h = 98;
  return (uint32_t)h * 3600;
}
struct Kep { int64_t crs, crc, cuc, cus, cic, cis, dn, m0, ecc, sqrta, o0, od, w, inc, idot, af0, af1, af2; };
template <class M> void kep_check(const char *kind, const M &m, const Kep &k, int crx, int cux, int a0, int a1, int a2) {
  fcheck(kind, {{"c_rs", m.c_rs, k.crs * p2(crx)}, {"c_rc", m.c_rc, k.crc * p2(crx)}, {"c_uc", m.c_uc, k.cuc * p2(cux)}, {"c_us", m.c_us, k.cus * p2(cux)}, {"c_ic", m.c_ic, k.cic * p2(cux)}, {"c_is", m.c_is, k.cis * p2(cux)}, {"af0", m.af0, k.af0 * p2(a0)}, {"af1", m.af1, k.af1 * p2(a1)}, {"af2", m.af2, k.af2 * p2(a2)}});
  dcheck(kind, {{"dn", m.dn, k.dn * p2(-43) * PIL}, {"m0", m.m0, k.m0 * p2(-31) * PIL}, {"ecc", m.ecc, k.ecc * p2(-33)}, {"sqrta", m.sqrta, k.sqrta * p2(-19)}, {"omega0", m.omega0, k.o0 * p2(-31) * PIL}, {"omegadot", m.omegadot, k.od * p2(-43) * PIL}, {"w", m.w, k.w * p2(-31) * PIL}, {"inc", m.inc, k.inc * p2(-31) * PIL}, {"inc_dot", m.inc_dot, k.idot * p2(-43) * PIL}});
}
void com_check(const char *kind, const sbp_ephemeris_common_content_t &m, int sat, int code, ld ura, uint32_t fit, int valid, int health, int64_t toe_s, const sbp_gps_time_sec_t *toc, int64_t toc_s) {
  VH_CHECK(m.sid.sat == sat && m.sid.code == code, fmt("%s.sid", kind), "%s sid %u/%u expected %d/%d", kind, m.sid.sat, m.sid.code, sat, code);
  VH_CHECK((int64_t)m.toe.wn * 604800 + m.toe.tow == toe_s && m.toe.tow < 604800, fmt("%s.toe", kind), "%s toe %u/%u expected %lld/%lld", kind, m.toe.wn, m.toe.tow, (long long)(toe_s / 604800), (long long)(toe_s % 604800));
  if (toc) VH_CHECK((int64_t)toc->wn * 604800 + toc->tow == toc_s && toc->tow < 604800, fmt("%s.toc", kind), "%s toc %u/%u expected %lld/%lld", kind, toc->wn, toc->tow, (long long)(toc_s / 604800), (long long)(toc_s % 604800));
  fcheck(kind, {{"ura", m.ura, ura}});
  VH_CHECK(m.fit_interval == fit, fmt("%s.fit", kind), "%s fit interval %u expected %u", kind, m.fit_interval, fit);
  VH_CHECK(m.valid == valid, fmt("%s.valid", kind), "%s valid %u expected %d", kind, m.valid, valid);
  VH_CHECK(m.health_bits == health, fmt("%s.health", kind), "%s health %u expected %d", kind, m.health_bits, health);
}
void do_eph(Ctx &c) {
  Rng &r = c.r; BitW w;
  auto U = [&](int n) { uint64_t v = r.bits(n); w.put(v, n); return (int64_t)v; };
  auto S = [&](int n) { uint64_t v = r.bits(n); w.put(v, n); return (int64_t)(v << (64 - n)) >> (64 - n); };
  auto SM = [&](int n) { uint64_t v = r.bits(n); w.put(v, n); int64_t m = (int64_t)(v & ((1ull << (n - 1)) - 1)); return v >> (n - 1) ? -m : m; };
  auto P = [&](uint64_t v, int n) { w.put(v, n); return (int64_t)v; };
  auto week_of = [&](int64_t tow_s) -> int64_t { int64_t t = near_week(c, tow_s * 1000); return t / 1000; };
  switch (r.below(6)) {
    case 0: {  // 1019
      Kep k; P(1019, 12); int sat = (int)U(6); int64_t wn = U(10); int ura = (int)U(4); U(2); k.idot = S(14); int iode = (int)U(8);
      int64_t toc = r.chance(15, 16) ? r.range(0, 37799) : U(0) + (int64_t)r.bits(16); P((uint64_t)toc, 16); k.af2 = S(8); k.af1 = S(16); k.af0 = S(22);
      int iodc = (int)(r.chance(1, 2) ? (uint64_t)iode | r.bits(2) << 8 : r.bits(10)); if (r.chance(1, 5)) iodc = r.pick(std::vector<int>{239, 240, 247, 248, 255, 256, 495, 496, 497, 503, 504, 510, 511, 512, 751, 752, 756, 757, 758, 1020, 1021, 1023}); P((uint64_t)iodc, 10);
      k.crs = S(16); k.dn = S(16); k.m0 = S(32); k.cuc = S(16); k.ecc = U(32); k.cus = S(16); k.sqrta = U(32);
      int64_t toe = r.chance(15, 16) ? (r.chance(1, 3) ? (toc + r.range(-2, 2) + 37800) % 37800 : r.range(0, 37799)) : (int64_t)r.bits(16); P((uint64_t)toe, 16); k.cic = S(16); k.o0 = S(32); k.cis = S(16); k.inc = S(32); k.crc = S(16); k.w = S(32); k.od = S(24); int64_t tgd = S(8); int health = (int)U(6); U(1); int fit = (int)U(1);
      give(c, w.b);
      if (toe >= 37800 || toc >= 37800) { ev("eph-bad-time"); break; }
      int64_t toe_s, toc_s; if (c.solved) { toe_s = week_of(toe * 16); toc_s = week_of(toc * 16); } else { int64_t W = wn; while (W < 1876) W += 1024; toe_s = W * 604800 + toe * 16; toc_s = W * 604800 + toc * 16; }
      expect(c, 0xF080, SbpMsgEphemerisGps, "gps-ephemeris", [=](const sbp_msg_t &q) { const auto &m = q.ephemeris_gps; com_check("gps-eph", m.common, sat, CODE_GPS_L1CA, ura_gps(ura), fit_gps(fit, iodc), (iodc & 255) == iode, health, toe_s, &m.toc, toc_s); kep_check("gps-eph", m, k, -5, -29, -31, -43, -55); fcheck("gps-eph", {{"tgd", m.tgd, tgd * p2(-31)}}); VH_CHECK(m.iode == iode && m.iodc == iodc, "gps-eph.iod", "iode %u iodc %u expected %d %d", m.iode, m.iodc, iode, iodc); });
      break;
    }
    case 1: {  // 1044
      if (!c.solved) return; Kep k; P(1044, 12); int sat = (int)P(1 + r.below(10), 4);
      int64_t toe = r.range(0, 37799), toe_s = week_of(toe * 16); if (toe_s / 604800 < 1876) { return; } int64_t wk = toe_s / 604800;
      int64_t toc = r.range(0, 37799); P((uint64_t)toc, 16); k.af2 = S(8); k.af1 = S(16); k.af0 = S(22); int iode = (int)U(8); k.crs = S(16); k.dn = S(16); k.m0 = S(32); k.cuc = S(16); k.ecc = U(32); k.cus = S(16); k.sqrta = U(32); P((uint64_t)toe, 16); k.cic = S(16); k.o0 = S(32); k.cis = S(16); k.inc = S(32); k.crc = S(16); k.w = S(32); k.od = S(24); k.idot = S(14); U(2); P((uint64_t)(wk % 1024), 10); int ura = (int)U(4), health = (int)U(6); int64_t tgd = S(8);
      int iodc = (int)(r.chance(1, 2) ? (uint64_t)iode | r.bits(2) << 8 : r.bits(10)); P((uint64_t)iodc, 10); int fit = (int)U(1);
      if (wk - 1876 >= 1024) return;
      give(c, w.b);
      expect(c, 0xF080, SbpMsgEphemerisQzss, "qzss-ephemeris", [=](const sbp_msg_t &q) { const auto &m = q.ephemeris_qzss; com_check("qzs-eph", m.common, sat + 192, CODE_QZS_L1CA, ura_gps(ura), fit_gps(fit, iodc), (iodc & 255) == iode, health, toe_s, &m.toc, wk * 604800 + toc * 16); kep_check("qzs-eph", m, k, -5, -29, -31, -43, -55); fcheck("qzs-eph", {{"tgd", m.tgd, tgd * p2(-31)}}); VH_CHECK(m.iode == iode && m.iodc == iodc, "qzs-eph.iod", "iod"); });
      break;
    }
    case 2: case 3: {  // 1045 / 1046
      bool inav = r.chance(1, 2); Kep k; P(inav ? 1046 : 1045, 12); int sat = (int)U(6); int64_t wn = P(852 + r.bits(10), 12); int iod = (int)U(10); int ura = (int)U(8); k.idot = S(14);
      int64_t toc = r.chance(15, 16) ? r.range(0, 10079) : (int64_t)r.bits(14); P((uint64_t)toc, 14); k.af2 = S(6); k.af1 = S(21); k.af0 = S(31); k.crs = S(16); k.dn = S(16); k.m0 = S(32); k.cuc = S(16); k.ecc = U(32); k.cus = S(16); k.sqrta = U(32);
      int64_t toe = r.chance(15, 16) ? (r.chance(1, 3) ? (toc + r.range(-2, 2) + 10080) % 10080 : r.range(0, 10079)) : (int64_t)r.bits(14); P((uint64_t)toe, 14); k.cic = S(16); k.o0 = S(32); k.cis = S(16); k.inc = S(32); k.crc = S(16); k.w = S(32); k.od = S(24); int64_t b1 = S(10), b2 = 0; int health;
      if (inav) { b2 = S(10); health = (int)U(6); U(2); } else { health = (int)U(3); U(7); }
      give(c, w.b);
      if (toe >= 10080 || toc >= 10080) { ev("eph-bad-time"); break; }
      int64_t toe_s, toc_s; if (c.solved) { toe_s = week_of(toe * 60); toc_s = week_of(toc * 60); } else { toe_s = (wn + 1024) * 604800 + toe * 60; toc_s = (wn + 1024) * 604800 + toc * 60; }
      expect(c, 0xF080, SbpMsgEphemerisGal, "galileo-ephemeris", [=](const sbp_msg_t &q) { const auto &m = q.ephemeris_gal; com_check("gal-eph", m.common, sat, CODE_GAL_E1B, sisa(ura), 4 * 3600, 1, health, toe_s, &m.toc, toc_s); kep_check("gal-eph", m, k, -5, -29, -34, -46, -59); dcheck("gal-eph", {{"af0", m.af0, k.af0 * p2(-34)}, {"af1", m.af1, k.af1 * p2(-46)}}); fcheck("gal-eph", {{"bgd_e1e5a", m.bgd_e1e5a, b1 * p2(-32)}, {"bgd_e1e5b", m.bgd_e1e5b, b2 * p2(-32)}}); VH_CHECK(m.iode == iod && m.iodc == iod, "gal-eph.iod", "iode %u iodc %u expected %d", m.iode, m.iodc, iod); VH_CHECK(m.source == (inav ? 0 : 1), "gal-eph.source", "source %u inav %d", m.source, inav); });
      break;
    }
    case 4: {  // 1042
      Kep k; int64_t wk = c.solved ? 0 : r.chance(1, 5) ? 1876 : r.chance(1, 5) ? r.range(9000, 9547) : r.range(1876, 2600), toe = r.range(0, 75599), toc = r.chance(1, 2) ? toe : r.range(0, 75599), toe_s, toc_s;
      if (c.solved) { int64_t g = near_week(c, (toe * 8 + 14) % 604800 * 1000) / 1000; wk = (g - 14) / 604800; }
      toe_s = wk * 604800 + toe * 8 + 14; toc_s = wk * 604800 + toc * 8 + 14; if (toe_s / 604800 < 1876 || toc_s / 604800 < 1876) return;
      P(1042, 12); int sat = (int)P(6 + r.below(58), 6); P((uint64_t)(wk - 1356), 13); int ura = (int)U(4); k.idot = S(14); int iode = (int)U(5); P((uint64_t)toc, 17); k.af2 = S(11); k.af1 = S(22); k.af0 = S(24); int iodc = (int)U(5); k.crs = S(18); k.dn = S(16); k.m0 = S(32); k.cuc = S(18); k.ecc = U(32); k.cus = S(18); k.sqrta = U(32); P((uint64_t)toe, 17); k.cic = S(18); k.o0 = S(32); k.cis = S(18); k.inc = S(32); k.crc = S(18); k.w = S(32); k.od = S(24); int64_t t1 = S(10), t2 = S(10); int health = (int)U(1);
      give(c, w.b);
      expect(c, 0xF080, SbpMsgEphemerisBds, "beidou-ephemeris", [=](const sbp_msg_t &q) { const auto &m = q.ephemeris_bds; com_check("bds-eph", m.common, sat, CODE_BDS2_B1, ura_bds(ura), 3 * 3600, 1, health, toe_s, &m.toc, toc_s); kep_check("bds-eph", m, k, -6, -31, -33, -50, -66); dcheck("bds-eph", {{"af0", m.af0, k.af0 * p2(-33)}}); fcheck("bds-eph", {{"tgd1", m.tgd1, t1 * 1e-10L}, {"tgd2", m.tgd2, t2 * 1e-10L}}); VH_CHECK(m.iode == iode && m.iodc == iodc, "bds-eph.iod", "iode %u iodc %u expected %d %d", m.iode, m.iodc, iode, iodc); });
      break;
    }
    default: {  // 1020
      P(1020, 12); int sat = (int)P(r.chance(15, 16) ? 1 + r.below(28) : r.bits(6), 6), fcn = (int)P(r.chance(7, 8) ? r.below(14) : r.bits(5), 5); U(1); U(1); int p1 = (int)U(2); U(12); int h = (int)U(1); U(1); int tb = (int)P(r.chance(15, 16) ? r.range(0, 95) : r.range(97, 127), 7);
      int64_t v[3], x[3], a[3]; for (int i = 0; i < 3; i++) { v[i] = SM(24); x[i] = SM(27); a[i] = SM(5); }
      U(1); int64_t gam = SM(11); U(2); h |= (int)U(1); int64_t tau = SM(22), dt = SM(5); U(5); U(1); int ft = (int)U(4); U(11); U(2); int add = (int)U(1); U(11); U(32); U(5); U(22); int l5 = (int)U(1); U(7); if (add) h |= l5;
      give(c, w.b);
      if (!c.solved || tb > 96 || sat == 0) { ev("glo-eph-refused"); break; }
      int64_t toe = near_day(c, tb * 900000ll) / 1000;
      if (sat <= 28) c.fcn[sat] = fcn <= 13 ? fcn : 255;
      int fit = p1 == 1 ? 40 : p1 == 2 ? 55 : 70;
      std::vector<int64_t> vv(v, v + 3), xx(x, x + 3), aa(a, a + 3);
      expect(c, 0xF080, SbpMsgEphemerisGlo, "glonass-ephemeris", [=](const sbp_msg_t &q) {
        const auto &m = q.ephemeris_glo; com_check("glo-eph", m.common, sat, CODE_GLO_L1OF, ft_glo(ft), (uint32_t)fit * 60, 1, h, toe, nullptr, 0);
        for (int i = 0; i < 3; i++) { dcheck("glo-eph", {{"pos", m.pos[i], xx[(size_t)i] * p2(-11) * 1000}, {"vel", m.vel[i], vv[(size_t)i] * p2(-20) * 1000}}); fcheck("glo-eph", {{"acc", m.acc[i], aa[(size_t)i] * p2(-30) * 1000}}); }
        fcheck("glo-eph", {{"gamma", m.gamma, gam * p2(-40)}, {"tau", m.tau, tau * p2(-30)}, {"d_tau", m.d_tau, dt * p2(-30)}});
        VH_CHECK(m.fcn == fcn + 1 && m.iod == ((tb * 900) & 127), "glo-eph.fcn-iod", "fcn %u iod %u expected %d %d", m.fcn, m.iod, fcn + 1, (tb * 900) & 127);
      });
    }
  }
  settle(c);
}

// ------------------------------------------------------------ station
struct RcvName { const char *n; double l1ca, l1p, l2ca, l2p; int mask; };
const RcvName RCV[] = {
  {"Geo++ GNSMART (GLO=ASH)", -14.7, 0, 0, -16.2, 9}, {"Geo++ GNSMART (GLO=HEM)", -0.3, 0, 0, 3.5, 9}, {"Geo++ GNSMART (GLO=JAV)", -1.5, 0, 0, -8.1, 9}, {"Geo++ GNSMART (GLO=JPS)", -3.7, 0, 0, 0.7, 9},
  {"Geo++ GNSMART (GLO=LEI)", -70.7, 0, 0, -66.3, 9}, {"Geo++ GNSMART (GLO=NOV)", -70.7, 0, 0, -66.3, 9}, {"Geo++ GNSMART (GLO=NAV)", 0.4, 0, 0, 2.1, 9}, {"Geo++ GNSMART (GLO=NVR)", 116.7, 0, 0, 187, 9}, {"Geo++ GNSMART (GLO=SEP)", 0, 0, 0, 0, 9},
  {"Geo++ GNSMART (GLO=SOK)", -70.7, 0, 0, -66.3, 9}, {"Geo++ GNSMART (GLO=TPS)", -2.56, 0, 0, 3.74, 9}, {"Geo++ GNSMART (GLO=TRM)", 18.8, 0, 0, 23.2, 9},
  {"TRIMBLE", 19.06, 19.06, 19.06, 19.06, 15}, {"ASHTECH", 19.06, 19.06, 19.06, 19.06, 15}, {"LEICA", -71.94, -71.94, -71.94, -71.94, 15}, {"NOV", -71.94, -71.94, -71.94, -71.94, 15}, {"GEOMAX", -71.94, -71.94, -71.94, -71.94, 15},
  {"SEPT", 0, 0, 0, 0, 15}, {"TPS", 0, 0, 0, 0, 9}, {"JAVAD", -1.5, 0, 0, -8.1, 9}, {"NAVCOM", 0.4, 0, 0, 2.1, 9}, {"HEMI", -0.2, 0, 0, 3.4, 9}};
void bias_exp(Ctx &c, uint32_t stn, int mask, const int b[4]) {
  int v[4] = {b[0], b[1], b[2], b[3]};
  std::vector<int> vv(v, v + 4);
  expect(c, snd(stn), SbpMsgGloBiases, "glonass-biases", [=](const sbp_msg_t &q) { const auto &m = q.glo_biases; VH_CHECK(m.mask == mask, "bias.mask", "mask %u expected %d", m.mask, mask); VH_CHECK(m.l1ca_bias == vv[0] && m.l1p_bias == vv[1] && m.l2ca_bias == vv[2] && m.l2p_bias == vv[3], "bias.value", "biases %d %d %d %d expected %d %d %d %d", m.l1ca_bias, m.l1p_bias, m.l2ca_bias, m.l2p_bias, vv[0], vv[1], vv[2], vv[3]); });
}
void do_station(Ctx &c, uint32_t stn) {
  Rng &r = c.r; BitW w; int kind = (int)r.below(6);
  if (kind < 2) {  // 1005 / 1006
    bool h = r.chance(1, 2); int64_t x[3]; w.put(h ? 1006 : 1005, 12); w.put(stn, 12); w.put(r.bits(6), 6); w.put(r.bits(4), 4);
    for (int i = 0; i < 3; i++) { uint64_t v = r.bits(38); x[i] = (int64_t)(v << 26) >> 26; w.put(v, 38); if (i == 0) w.put(r.bits(2), 2); if (i == 1) w.put(r.bits(2), 2); }
    if (h) w.put(r.bits(16), 16);
    give(c, w.b); int64_t X = x[0], Y = x[1], Z = x[2];
    expect(c, snd(stn), SbpMsgBasePosEcef, "base-position", [=](const sbp_msg_t &q) { const auto &m = q.base_pos_ecef; VH_CHECK(fabsl(m.x - X * 0.0001L) < 1e-8L && fabsl(m.y - Y * 0.0001L) < 1e-8L && fabsl(m.z - Z * 0.0001L) < 1e-8L, "base.pos", "%.5f %.5f %.5f expected %.5f %.5f %.5f", m.x, m.y, m.z, X * 1e-4, Y * 1e-4, Z * 1e-4); });
  } else if (kind < 4) {  // 1230
    int ind = r.chance(1, 4), mask = (int)r.bits(4), b[4] = {0, 0, 0, 0}; w.put(1230, 12); w.put(stn, 12); w.put((uint64_t)ind, 1); w.put(r.bits(3), 3); w.put((uint64_t)mask, 4);
    // the raw 16 bit pattern -32768 means 'invalid' in the standard and is left out
    for (int i = 0; i < 4; i++) if (mask & (8 >> i)) { do b[i] = (int16_t)r.bits(16); while (b[i] == -32768); w.puts(b[i], 16); }
    give(c, w.b);
    if (c.solved) { if (ind) b[0] = b[1] = b[2] = b[3] = 0; bias_exp(c, stn, mask, b); c.last_1230 = c.rover; }
  } else {  // 1033
    std::string rcv; int b[4] = {0, 0, 0, 0}, mask = 0; bool known = r.chance(4, 5);
    if (known) {
      const RcvName &n = RCV[r.below((uint32_t)(sizeof RCV / sizeof RCV[0]))]; rcv = n.n; size_t room = 31 - rcv.size();
      std::string pre(r.below((uint32_t)room + 1), 'x'); room -= pre.size(); rcv = pre + rcv + std::string(r.below((uint32_t)room + 1), ' ');
      mask = n.mask; b[0] = (int)std::lrint(n.l1ca * 50); b[1] = (int)std::lrint(n.l1p * 50); b[2] = (int)std::lrint(n.l2ca * 50); b[3] = (int)std::lrint(n.l2p * 50);
    } else { size_t n = r.below(32); for (size_t i = 0; i < n; i++) rcv += (char)('a' + r.below(26)); }
    auto str = [&](const std::string &s) { w.put(s.size(), 8); for (char ch : s) w.put((uint8_t)ch, 8); };
    auto rs = [&] { std::string s; size_t n = r.below(12); for (size_t i = 0; i < n; i++) s += (char)('A' + r.below(26)); return s; };
    w.put(1033, 12); w.put(stn, 12); str(rs()); w.put(r.bits(8), 8); str(rs()); str(rcv); str(rs()); str(rs());
    // another string may name a receiver too: only the descriptor counts
    give(c, w.b);
    if (c.solved) {
      int64_t d = c.rover - c.last_1230; if (c.last_1230 >= 0 && d == 120000 && !(exact8(c.rover) && exact8(c.last_1230))) c.skip = true;
      if (c.last_1230 < 0 || d > 120000) { bias_exp(c, stn, mask, b); ev(known ? "1033-known" : "1033-unknown"); } else ev("1033-muted-by-1230");
    }
  }
  settle(c);
}
void do_text(Ctx &c, uint32_t stn) {
  Rng &r = c.r; std::string t; size_t limit = r.chance(1, 3) ? r.below(256) : r.chance(1, 2) ? 240 + r.below(16) : r.below(64); int chars = 0; int style = (int)r.below(4);
  for (;;) {
    uint32_t cp = style == 0 ? 32 + r.below(95) : style == 1 ? (r.chance(1, 2) ? 0x80 + r.below(0x780) : 32 + r.below(95)) : style == 2 ? (r.chance(1, 2) ? 0x800 + r.below(0xD000) : 0x10000 + r.below(0x100000)) : 1 + r.below(0x7FF);
    std::string s; if (cp < 0x80) s = std::string(1, (char)cp); else if (cp < 0x800) { s += (char)(0xC0 | cp >> 6); s += (char)(0x80 | (cp & 63)); } else if (cp < 0x10000) { s += (char)(0xE0 | cp >> 12); s += (char)(0x80 | (cp >> 6 & 63)); s += (char)(0x80 | (cp & 63)); } else { s += (char)(0xF0 | cp >> 18); s += (char)(0x80 | (cp >> 12 & 63)); s += (char)(0x80 | (cp >> 6 & 63)); s += (char)(0x80 | (cp & 63)); }
    if (t.size() + s.size() > limit || chars >= 127) break; t += s; chars++;
  }
  BitW w; w.put(1029, 12); w.put(stn, 12); w.put(r.bits(16), 16); w.put(r.bits(17), 17); w.put((uint64_t)chars, 7); w.put(t.size(), 8); for (char ch : t) w.put((uint8_t)ch, 8);
  give(c, w.b);
  std::string want = "RTCM: "; size_t n = t.size(); const size_t room = 254 - want.size();
  if (n > room) { n = room; while (n > 0 && ((uint8_t)t[n] & 0xC0) == 0x80) n--; ev("text-truncated"); }
  want += t.substr(0, n);
  expect(c, snd(stn), SbpMsgLog, "text-log", [=](const sbp_msg_t &q) { std::string g = text_of(q); VH_CHECK(q.log.level == 6, "text.level", "level %u", q.log.level); VH_CHECK(g == want, "text.bytes", "log of %zu bytes differs from the %zu expected (text %zu bytes)", g.size(), want.size(), t.size()); });
  settle(c);
}
void do_msm13(Ctx &c, uint32_t stn) {
  Rng &r = c.r; int num = MSM_BASE[r.below(6)] + 1 + (int)r.below(3), mult = r.chance(1, 2);
  BitW w; w.put((uint64_t)num, 12); w.put(stn, 12); w.put(r.bits(30), 30); w.put((uint64_t)mult, 1); size_t n = 20 + r.below(60); for (size_t i = 0; i < n; i++) w.put(r.bits(8), 8);
  give(c, w.b);
  if (!c.msmwarn) { c.msmwarn = true; warn(c, 4, "MSM1-3 Messages currently not supported", stn); }
  if (!mult) flush(c);
  settle(c);
}
void do_ignored(Ctx &c, uint32_t stn) {
  static const int N[] = {1001, 1003, 1007, 1008, 1009, 1011, 1013, 1021, 1025, 1030, 1034, 1061, 1067, 1231, 1250, 1264, 1271, 2000, 4001, 4095, 0, 5, 999};
  BitW w; w.put((uint64_t)N[c.r.below(sizeof N / sizeof N[0])], 12); w.put(stn, 12); size_t n = c.r.below(80); for (size_t i = 0; i < n; i++) w.put(c.r.bits(8), 8);
  give(c, w.b); ev("ignored-message"); settle(c);
}
void do_wrapped(Ctx &c) {  // 4062
  Rng &r = c.r; sbp_msg_t m; memset(&m, 0, sizeof m); int type; uint16_t sender = (uint16_t)r.bits(16);
  switch (r.below(4)) {
    case 0: type = SbpMsgBasePosEcef; m.base_pos_ecef.x = r.uniform(-1e7, 1e7); m.base_pos_ecef.y = r.uniform(-1e7, 1e7); m.base_pos_ecef.z = r.uniform(-1e7, 1e7); break;
    case 1: type = SbpMsgGloBiases; m.glo_biases.mask = (u8)r.bits(8); m.glo_biases.l1ca_bias = (s16)r.bits(16); m.glo_biases.l2p_bias = (s16)r.bits(16); break;
    case 2: type = SbpMsgSsrOrbitClock; m.ssr_orbit_clock.time.tow = r.u32(); m.ssr_orbit_clock.iod = r.u32(); m.ssr_orbit_clock.c2 = (s32)r.u32(); m.ssr_orbit_clock.radial = (s32)r.u32(); break;
    default: type = SbpMsgEphemerisGlo; for (auto &x : m.ephemeris_glo.pos) x = r.uniform(-1e8, 1e8); m.ephemeris_glo.fcn = (u8)r.bits(8); m.ephemeris_glo.common.toe.tow = r.u32(); break;
  }
  uint8_t b[256], n = 0; sbp_message_encode(b, 255, &n, (sbp_msg_type_t)type, &m);
  BitW w; w.put(4062, 12); w.put(0, 4); w.put((uint64_t)type, 16); w.put(sender, 16); w.put(n, 8); for (int i = 0; i < n; i++) w.put(b[i], 8);
  give(c, w.b); Bytes want(b, b + n); int ty = type;
  expect(c, sender, type, "wrapped-sbp", [=](const sbp_msg_t &q) { uint8_t g[256], k = 0; sbp_message_encode(g, 255, &k, (sbp_msg_type_t)ty, &q); VH_CHECK(Bytes(g, g + k) == want, "wrapped.bytes", "wrapped SBP message type %d changed", ty); });
  settle(c);
}
void do_ndf(Ctx &c, uint32_t stn) {  // 4075 with SBAS frames
  Rng &r = c.r; BitW w; int nf = (int)r.below(5); w.put(4075, 12); w.put(stn, 12); w.put(0, 2); w.put((uint64_t)nf, 6);
  for (int i = 0; i < nf; i++) {
    int sys = r.chance(3, 4) ? 3 : (int)r.below(8), num = r.chance(3, 4) ? (int)r.below(19) : (int)r.bits(6); uint32_t epoch = (uint32_t)r.bits(30);
    BitW f; static const int PRE[] = {0x53, 0x9A, 0xC6}; bool badpre = r.chance(1, 8), badcrc = r.chance(1, 8), badlen = r.chance(1, 10); f.put(badpre ? 0x8B : (uint64_t)PRE[r.below(3)], 8); int mt = (int)r.bits(6); f.put((uint64_t)mt, 6); BitW d; for (int k = 0; k < 212; k += 4) { uint64_t v = r.below(16); f.put(v, 4); d.put(v, 4); }
    // CRC over 226 bits, bit by bit
    uint32_t crc = 0; for (int k = 0; k < 226; k++) { int bit = f.b[(size_t)k / 8] >> (7 - k % 8) & 1; int top = (int)(crc >> 23 & 1); crc = (crc << 1) & 0xFFFFFF; if (top ^ bit) crc ^= 0x864CFB; }
    if (badcrc) crc ^= 1u << r.below(24);
    f.put(crc, 24); f.put(0, 6); int bits = badlen ? (r.chance(1, 2) ? 224 - (int)r.below(40) : 289 + (int)r.below(40)) : r.chance(1, 3) ? 256 : r.chance(1, 2) ? 250 : 250 + (int)r.below(39); if (!badlen && bits % 32) ev("sbas-frame-not-whole-words"); while ((int)f.n < bits) f.put(0, 1); 
    w.put((uint64_t)sys, 4); w.put((uint64_t)num, 6); w.put(r.bits(4), 4); w.put(r.bits(5), 5); w.put(epoch, 30); w.put(r.bits(1), 1); w.put((uint64_t)bits, 12); for (int k = 0; k < bits; k++) w.put((uint64_t)(f.b[(size_t)k / 8] >> (7 - k % 8) & 1), 1);
    if (sys != 3 || num > 18 || badpre || badcrc || badlen) { ev("sbas-frame-refused"); continue; }
    d.put(0, 4); Bytes data = d.b; data.resize(27);
    expect(c, snd(stn), SbpMsgSbasRaw, "sbas-raw", [=](const sbp_msg_t &q) { const auto &m = q.sbas_raw; VH_CHECK(m.sid.sat == num + 120 && m.sid.code == CODE_SBAS_L1CA && m.tow == epoch && m.message_type == mt, "sbas.header", "sat %u tow %u type %u expected %d %u %d", m.sid.sat, m.tow, m.message_type, num + 120, epoch, mt); VH_CHECK(memcmp(m.data, data.data(), 27) == 0, "sbas.data", "data differs: %s want %s", hex(m.data, 27).c_str(), hex(data).c_str()); });
  }
  give(c, w.b); settle(c);
}

// ------------------------------------------------------------ SSR
struct SsrC { int base, phase, cons, code; };
const SsrC SSRC[] = {{1057, 1265, CONSTELLATION_GPS, CODE_GPS_L1CA}, {1063, 1266, CONSTELLATION_GLO, CODE_GLO_L1OF}, {1240, 1267, CONSTELLATION_GAL, CODE_GAL_E1B}, {1246, 1268, CONSTELLATION_QZS, CODE_QZS_L1CA}, {1258, 1270, CONSTELLATION_BDS, CODE_BDS2_B1}, {0, 1269, CONSTELLATION_SBAS, CODE_SBAS_L1CA}};
void do_ssr(Ctx &c) {
  Rng &r = c.r; int ci = (int)r.below(r.chance(1, 8) ? 6 : 5); const SsrC &N = SSRC[ci]; int kind = N.base ? (r.chance(1, 2) ? (int)r.below(2) : (int)r.below(5)) : 4;  // 0 orbit 1 clock 2 code 3 combined 4 phase
  bool glo = N.cons == CONSTELLATION_GLO, bds = N.cons == CONSTELLATION_BDS; Ctx::Cache &K = c.cache[ci];
  uint32_t ui = (uint32_t)r.bits(4), iod = (uint32_t)r.bits(4), epoch;
  int64_t near = c.rover / 1000 + r.range(-30, 30); int64_t tow = glo ? ((near + 10800 - c.leap) % 86400 + 86400) % 86400 : ((near - (bds ? 14 : 0)) % 604800 + 604800) % 604800;
  if (r.chance(1, 6)) tow = r.range(0, glo ? 86399 : 604799);
  if (r.chance(1, 24) && !bds) tow = glo ? 86401 + r.below(1000) : 604800 + (int64_t)r.below(1000);
  epoch = (uint32_t)tow;
  bool pair = (kind == 0 && K.clk) || (kind == 1 && K.orb);
  if (pair && r.chance(3, 4)) { epoch = K.epoch; iod = K.iod; if (r.chance(1, 6)) { if (r.chance(1, 2)) epoch = glo ? (epoch + 1) % 86400 : (epoch + 1) % 604800; else iod ^= 1u << r.below(4); } }
  int idb = glo ? 5 : N.cons == CONSTELLATION_QZS ? 4 : 6; size_t ns = r.chance(1, 10) ? r.below(64) : r.below(10);
  int num = kind == 4 ? N.phase : N.base + kind;
  BitW w; w.put((uint64_t)num, 12); w.put(epoch, glo ? 17 : 20); w.put(ui, 4); w.put(r.bits(1), 1); if (kind == 0 || kind == 3) w.put(r.bits(1), 1); w.put(iod, 4); w.put(r.bits(16), 16); w.put(r.bits(4), 4);
  int disp = (int)r.bits(1), mw = (int)r.bits(1); if (kind == 4) { w.put((uint64_t)disp, 1); w.put((uint64_t)mw, 1); }
  size_t cntpos = w.n; w.put(ns, 6);
  struct Sat { uint32_t id = 0, iode = 0; int32_t o[6] = {}, c[3] = {}; std::vector<std::pair<int, int>> cb; uint32_t yaw = 0; int yr = 0; struct Ph { int sig, in, wl, dc, b; }; std::vector<Ph> pb; }; std::vector<Sat> ss;
  auto S = [&](int n) { uint64_t v = r.bits(n); w.put(v, n); return (int32_t)((int64_t)(v << (64 - n)) >> (64 - n)); };
  std::vector<uint32_t> pool; if (pair) for (auto &s : K.s) pool.push_back(s.id);
  if (pool.size() > 1 && r.chance(1, 2)) for (size_t i = pool.size() - 1; i > 0; i--) std::swap(pool[i], pool[r.below((uint32_t)i + 1)]);
  if (pair && r.chance(1, 2)) { ns = pool.size(); }
  std::set<uint32_t> used;
  for (size_t i = 0; i < ns; i++) {
    size_t mark = w.n; Sat s; s.id = i < pool.size() && r.chance(9, 10) ? pool[i] : (uint32_t)r.bits(idb); if (kind < 2 && !used.insert(s.id).second) { continue; } w.put(s.id, idb);
    if (kind == 0 || kind == 3) { static const int WD[6] = {22, 20, 20, 21, 19, 19}; if (bds) w.put(r.bits(10), 10); int ib = N.cons == CONSTELLATION_GAL ? 10 : 8; s.iode = (uint32_t)r.bits(ib); w.put(s.iode, ib); for (int k = 0; k < 6; k++) s.o[k] = S(WD[k]); }
    if (kind == 1 || kind == 3) { s.c[0] = S(22); s.c[1] = S(21); s.c[2] = S(27); }
    if (kind == 2) { int n = (int)(r.chance(1, 8) ? r.bits(5) : r.below(6)); w.put((uint64_t)n, 5); for (int k = 0; k < n; k++) { int sg = (int)r.bits(5); w.put((uint64_t)sg, 5); int v = S(14); s.cb.push_back({sg, v}); } }
    if (kind == 4) { int n = (int)(r.chance(1, 8) ? r.bits(5) : r.below(6)); w.put((uint64_t)n, 5); s.yaw = (uint32_t)r.bits(9); w.put(s.yaw, 9); s.yr = S(8); for (int k = 0; k < n; k++) { Sat::Ph p; p.sig = (int)r.bits(5); p.in = (int)r.bits(1); p.wl = (int)r.bits(2); p.dc = (int)r.bits(4); w.put((uint64_t)p.sig, 5); w.put((uint64_t)p.in, 1); w.put((uint64_t)p.wl, 2); w.put((uint64_t)p.dc, 4); p.b = S(20); s.pb.push_back(p); } }
    if (w.n > 1023 * 8) { w.n = mark; w.b.resize((mark + 7) / 8); if (mark % 8) w.b.back() &= (uint8_t)(0xFF << (8 - mark % 8)); break; }
    ss.push_back(s);
  }
  for (int i = 0; i < 6; i++) { size_t p = cntpos + (size_t)i; uint8_t bit = (uint8_t)(0x80 >> (p % 8)); if (ss.size() >> (5 - i) & 1) w.b[p / 8] |= bit; else w.b[p / 8] &= (uint8_t)~bit; }
  give(c, w.b);
  if (!c.solved) { ev("dropped-time-unknown"); settle(c); return; }
  // the correction time is resolved when the SBP messages are made
  auto when = [&](uint32_t ep) -> int64_t { if (ep >= (glo ? 86400u : 604800u)) return -1; if (glo) return near_day(c, ep * 1000ll); return near_week(c, (ep + (bds ? 14 : 0)) % 604800 * 1000ll); };
  int code = N.code;
  auto orbclk = [&](int64_t t, uint32_t ui_, uint32_t iod_, uint32_t id, uint32_t iode, const int32_t *o, const int32_t *k) {
    std::vector<int32_t> v(o, o + 6); v.insert(v.end(), k, k + 3);
    expect(c, 0, SbpMsgSsrOrbitClock, "ssr-orbit-clock", [=](const sbp_msg_t &q) { const auto &m = q.ssr_orbit_clock;
      VH_CHECK((int64_t)m.time.wn * 604800 + m.time.tow == (t + 500) / 1000, "ssr.time", "time %u/%u expected %lld", m.time.wn, m.time.tow, (long long)t); VH_CHECK(m.sid.sat == id && m.sid.code == code, "ssr.sid", "sid %u/%u expected %u/%d", m.sid.sat, m.sid.code, id, code);
      VH_CHECK(m.update_interval == ui_ && m.iod_ssr == iod_ && m.iod == iode, "ssr.iod", "interval %u iod_ssr %u iod %u expected %u %u %u", m.update_interval, m.iod_ssr, m.iod, ui_, iod_, iode);
      int32_t g[9] = {m.radial, m.along, m.cross, m.dot_radial, m.dot_along, m.dot_cross, m.c0, m.c1, m.c2}; for (size_t i = 0; i < 9; i++) VH_CHECK(g[i] == v[i], "ssr.value", "correction %zu is %d expected %d", i, g[i], v[i]); });
  };
  if (kind == 0 || kind == 1) {
    bool match = (kind == 0 ? K.clk : K.orb) && K.epoch == epoch && K.iod == iod;
    if (match) {
      // interval: that of the orbit message
      uint32_t oui = kind == 0 ? ui : K.ui; std::vector<Ctx::SsrSat> orb, clk; std::vector<Ctx::SsrSat> mine; for (auto &s : ss) { Ctx::SsrSat t; t.id = s.id; t.iode = s.iode; memcpy(t.o, s.o, sizeof t.o); memcpy(t.c, s.c, sizeof t.c); mine.push_back(t); }
      orb = kind == 0 ? mine : K.s; clk = kind == 0 ? K.s : mine; int64_t t = clk.empty() ? 0 : when(epoch);
      if (t >= 0) for (auto &k : clk) for (auto &o : orb) if (o.id == k.id) { orbclk(t, oui, iod, k.id, o.iode, o.o, k.c); break; }
      K.clk = K.orb = false; ev("orbit-clock-combined");
    } else {
      if (K.clk || K.orb) ev("orbit-clock-replaced");
      K.orb = kind == 0; K.clk = kind == 1; K.epoch = epoch; K.iod = iod; K.ui = ui; K.s.clear(); for (auto &s : ss) { Ctx::SsrSat t; t.id = s.id; t.iode = s.iode; memcpy(t.o, s.o, sizeof t.o); memcpy(t.c, s.c, sizeof t.c); K.s.push_back(t); }
    }
  } else {
    int64_t t = ss.empty() ? -1 : when(epoch);
    if (t >= 0) for (auto &s : ss) {
      uint32_t id = s.id;
      if (kind == 3) orbclk(t, ui, iod, s.id, s.iode, s.o, s.c);
      else if (kind == 2) { auto cb = s.cb; expect(c, 0, SbpMsgSsrCodeBiases, "ssr-code-bias", [=](const sbp_msg_t &q) { const auto &m = q.ssr_code_biases; VH_CHECK((int64_t)m.time.wn * 604800 + m.time.tow == (t + 500) / 1000, "ssr.time", "time"); VH_CHECK(m.sid.sat == id && m.sid.code == code && m.update_interval == ui && m.iod_ssr == iod, "ssr.code-header", "header"); VH_CHECK(m.n_biases == cb.size(), "ssr.code-count", "%u biases expected %zu", m.n_biases, cb.size()); for (size_t i = 0; i < cb.size() && i < m.n_biases; i++) VH_CHECK(m.biases[i].code == cb[i].first && m.biases[i].value == cb[i].second, "ssr.code-bias", "bias %zu: %u %d expected %d %d", i, m.biases[i].code, m.biases[i].value, cb[i].first, cb[i].second); }); }
      else {
        size_t done = 0; do {
          size_t n = s.pb.size() - done; if (n > SBP_MSG_SSR_PHASE_BIASES_BIASES_MAX) n = SBP_MSG_SSR_PHASE_BIASES_BIASES_MAX;
          std::vector<Sat::Ph> pb(s.pb.begin() + (long)done, s.pb.begin() + (long)(done + n)); uint32_t yaw = s.yaw; int yr = s.yr;
          expect(c, 0, SbpMsgSsrPhaseBiases, "ssr-phase-bias", [=](const sbp_msg_t &q) { const auto &m = q.ssr_phase_biases; VH_CHECK((int64_t)m.time.wn * 604800 + m.time.tow == (t + 500) / 1000, "ssr.time", "time"); VH_CHECK(m.sid.sat == id && m.sid.code == code && m.update_interval == ui && m.iod_ssr == iod && m.dispersive_bias == disp && m.mw_consistency == mw && m.yaw == yaw && m.yaw_rate == yr, "ssr.phase-header", "header"); VH_CHECK(m.n_biases == pb.size(), "ssr.phase-count", "%u biases expected %zu", m.n_biases, pb.size()); for (size_t i = 0; i < pb.size() && i < m.n_biases; i++) VH_CHECK(m.biases[i].code == pb[i].sig && m.biases[i].integer_indicator == pb[i].in && m.biases[i].widelane_integer_indicator == pb[i].wl && m.biases[i].discontinuity_counter == pb[i].dc && m.biases[i].bias == pb[i].b, "ssr.phase-bias", "bias %zu", i); });
          done += n;
        } while (done < s.pb.size());
        if (s.pb.size() > 30) ev("phase-bias-split");
      }
    }
  }
  settle(c);
}

// ------------------------------------------------------------ drivers
int64_t pick_rover(Rng &r, bool timey) {
  int64_t wn = timey && r.chance(1, 6) ? r.range(1880, 1929) : r.range(1931, 2600), t;
  switch (r.below(timey ? 6 : 12)) {
    case 0: t = r.range(0, 20000); break;
    case 1: t = WEEK - 1 - r.range(0, 20000); break;
    case 2: t = DAY * r.range(0, 6) + r.range(0, 40000); break;
    case 3: t = DAY * r.range(0, 6) + 75600000 + 18000 + r.range(-20000, 20000); break;  // GLO midnight
    default: t = r.range(0, WEEK - 1);
  }
  t = t / 125 * 125; if (t < 0) t = 0; if (t >= WEEK) t = WEEK - 125;
  return wn * WEEK + t;
}
void set_rover(Ctx &c, int64_t t) {
  if (!c.truth) { c.st->use_time_from_input_obs = true; c.st->time_from_input_data = gt(t); c.rover = t; c.solved = true; }
  else {
    t = t / 250 * 250; bool ok = time_truth_update(c.tt, c.r.chance(1, 2) ? TIME_TRUTH_EPH_GPS : TIME_TRUTH_EPH_GAL, gt(t));
    bool want = !c.solved || t > c.rover;
    VH_CHECK(ok == want, "truth.update", "update accepted %d expected %d", ok, want);
    if (want) { c.rover = t; c.solved = true; }
  }
  c.leap = leap_at(c.rover);
}
struct Weights { int legacy, msm, eph, sta, text, ssr, rover, wrap, ndf, ignored, msm13, setfcn; };
uint32_t wrap_bds(Rng &r, int64_t tow) { if (tow < 14000 && false) return (uint32_t)r.bits(1); return (uint32_t)tow; }
void case_model(Rng &r, const Weights &W, bool timey, bool values, bool stream) {
  Ctx c(r); c.st = (rtcm3_sbp_state *)malloc(sizeof *c.st); memset((void *)c.st, fill(r), sizeof *c.st); c.tt = (time_truth_t *)aligned_alloc(16, 16); time_truth_init(c.tt);
  for (auto &f : c.fcn) f = 255;
  if (!paired()) {  // settings of the whole process
    for (int i = 0; i < CONSTELLATION_COUNT; i++) constellation_mask[i] = r.chance(1, 40);
    for (int i = 0; i < CODE_COUNT; i++) sbp_signal_biases[i] = values && r.chance(1, 4) ? (float)r.range(-640, 640) / 32.0f : 0;
    for (int i = 0; i < 2; i++) { sbp_glo_code_bias[i] = values && r.chance(1, 4) ? (float)r.range(-64, 64) / 64.0f : 0; sbp_glo_phase_bias[i] = values && r.chance(1, 4) ? (float)r.range(-64, 64) / 64.0f : 0; }
  }
  c.hasinvcb = r.chance(3, 4); c.truth = r.chance(1, 3);
  rtcm2sbp_init(c.st, c.tt, cb, c.hasinvcb ? cb_inv : nullptr, &c);
  int64_t T = pick_rover(r, timey); uint32_t stn = (uint32_t)r.bits(12);
  if (!c.truth || r.chance(2, 3)) set_rover(c, T + (timey ? r.range(-8, 8) * 1000 : 0));
  if (stream) c.streaming = true;
  int tot = 0; const int *wp = &W.legacy; for (int i = 0; i < 12; i++) tot += wp[i];
  int n = 6 + (int)r.below(30); bool big = values ? r.chance(1, 10) : r.chance(1, 6); int64_t step = (int64_t)r.pick(std::vector<int>{100, 200, 1000, 1000, 1000, 5000, 30000});
  for (int i = 0; i < n && !violated() && !c.skip; i++) {
    int k = (int)r.below((uint32_t)tot), what = 0; while (k >= wp[what]) k -= wp[what++];
    if (c.truth && !c.solved && (what == 0 || what == 1) && r.chance(1, 2)) { if (!c.streaming) set_rover(c, T); }
    if (what == 0 || what == 1) {  // observations: move the epoch
      uint32_t z = r.below(100);
      if (z < (big ? 88u : 60u)) {} else if (z < 92) T += step; else if (z < 94) T += r.range(1, 12) * 1000; else if (z < 95) T += 4875 + 125 * r.range(0, 2); else if (z < 96) T -= r.range(1, 4) * 1000; else if (z < 97) T += r.range(1, 999); else if (timey) { int64_t d = r.pick(std::vector<int64_t>{3600000, -3600000, DAY, -DAY, 2 * DAY, -2 * DAY, 3 * DAY, -3 * DAY, 11000, -11000, 9900, 10100}); T = c.solved ? c.rover + d : T + d; }
      if (r.chance(1, 25)) stn = (uint32_t)r.bits(12);
      if (!c.streaming && !values && r.chance(1, 60) && T < 3000 * WEEK) { T += WEEK * (r.chance(2, 3) ? 1 : r.range(1, 5)); set_rover(c, T); }
      if (!c.streaming && timey && T < 1930 * WEEK + 18000 && r.chance(1, 12)) { T = 1930 * WEEK + r.range(0, 48000) * 12500; set_rover(c, T); ev("leap-second-inserted"); }
      if (!c.streaming && r.chance(1, timey ? 4u : 12u)) set_rover(c, T + (timey ? r.range(-11, 11) * 1000 : r.range(-2, 2) * 1000));
      if (c.streaming && !c.truth) {}
      int64_t glo_tod = ((T + 3 * 3600000 - c.leap * 1000) % DAY + DAY) % DAY;
      if (what == 0) {
        int num = r.pick(std::vector<int>{1002, 1004, 1004, 1010, 1012, 1012}); bool glo = num > 1008; int64_t tow = glo ? glo_tod : T % WEEK;
        if (timey && r.chance(1, 30)) tow = (glo ? DAY : WEEK) + (int64_t)r.below(5);
        do_legacy(c, {num, stn, tow, r.chance(2, 3)});
      } else {
        int cons = r.chance(1, 30) ? 3 + (int)r.below(2) : r.pick(std::vector<int>{0, 0, 1, 2, 5}); int64_t tow = cons == 1 ? glo_tod : cons == 5 ? ((T - 14000) % WEEK + WEEK) % WEEK : T % WEEK;
        if (cons == 5 && T % WEEK < 14000 && r.chance(1, 2)) tow = (1 << 30) - (14000 - T % WEEK);
        if (timey && r.chance(1, 30)) tow = (cons == 1 ? DAY : WEEK) + (int64_t)r.below(5);
        do_msm(c, {cons, 4 + (int)r.below(4), stn, tow, r.chance(big ? 11 : 3, big ? 12 : 4), big ? 30 : values ? 8 : 12, big ? 6 : 4});
      }
    } else if (what == 2) do_eph(c); else if (what == 3) do_station(c, (uint32_t)r.bits(12)); else if (what == 4) do_text(c, (uint32_t)r.bits(12));
    else if (what == 5) do_ssr(c);
    else if (what == 6) { if (!c.streaming) set_rover(c, T + r.range(-130, 130) * (r.chance(1, 3) ? 1000 : 100) / 125 * 125); }
    else if (what == 7) do_wrapped(c); else if (what == 8) do_ndf(c, (uint32_t)r.bits(12)); else if (what == 9) do_ignored(c, (uint32_t)r.bits(12)); else if (what == 10) do_msm13(c, (uint32_t)r.bits(12));
    else if (!c.streaming) { sbp_v4_gnss_signal_t s; s.sat = (u8)(r.chance(7, 8) ? 1 + r.below(28) : r.bits(8)); s.code = CODE_GLO_L1OF; u8 f = (u8)(r.chance(7, 8) ? r.below(15) : r.bits(8)); rtcm2sbp_set_glo_fcn(s, f, c.st); if (s.sat >= 1 && s.sat <= 28) c.fcn[s.sat] = f >= 1 && f <= 14 ? f - 1 : 255; ev("fcn-set"); }
  }
  if (c.streaming && !c.skip) {
    c.feed.data = c.stream; if (r.chance(1, 2)) c.feed.data.insert(c.feed.data.end(), 1100, 0); c.feed.pos = 0; c.feed.mode = (int)r.below(4); c.feed.rng = Rng(r.u64()); c.feed.k = 1 + r.below(200);
    while (rtcm2sbp_process(c.st, rd_feed) > 0) {}
    compare(c);
  }
  if (c.skip) ev("case-ends-undecided"); else nontrivial();
  free(c.st); free(c.tt);
}
// C10: frames, garbage, corruption, truncation, nesting; stateless payloads
void case_frame(Rng &r) {
  Ctx c(r); c.st = (rtcm3_sbp_state *)malloc(sizeof *c.st); memset((void *)c.st, fill(r), sizeof *c.st); c.tt = (time_truth_t *)aligned_alloc(16, 16); time_truth_init(c.tt);
  if (!paired()) for (auto &f : constellation_mask) f = false;
  rtcm2sbp_init(c.st, c.tt, cb, cb_inv, &c); set_rover(c, pick_rover(r, false)); c.streaming = true;
  Bytes S; std::map<size_t, std::pair<size_t, size_t>> at;  // offset -> range of expectations
  std::vector<Exp> all; std::set<size_t> quiet;
  int n = 1 + (int)r.below(r.chance(1, 6) ? 60 : 14);
  auto frame = [&](Bytes &out, std::vector<Exp> &e) {
    c.stream.clear(); c.exp.clear();
    switch (r.below(4)) { case 0: do_station(c, (uint32_t)r.bits(12)); break; case 1: do_text(c, (uint32_t)r.bits(12)); break; case 2: do_wrapped(c); break; default: {
      if (r.chance(1, 3)) { Bytes p = r.bytes(1 + r.below(r.chance(1, 4) ? 1023 : 40)); p[0] = 0xFA; if (p.size() > 1) p[1] = (uint8_t)(0x10 | (p[1] & 15)); c.stream = rtcm_frame(p); ev("big-ignored-frame"); }  // 4001, any length
      else do_station(c, (uint32_t)r.bits(12)); } }
    out = c.stream; e.swap(c.exp); c.exp.clear(); c.last_1230 = -1;
  };
  // 1033 after 1230 depends on history: keep it out by making the reference time unset each time
  for (int i = 0; i < n; i++) {
    Bytes f; std::vector<Exp> e; frame(f, e);
    bool bias = false; for (auto &x : e) if (x.type == SbpMsgGloBiases) bias = true;
    if (bias) { i--; if (r.chance(1, 50)) break; continue; }
    int how = (int)r.below(10);
    auto add = [&](const Bytes &b) { size_t o = S.size(); at[o] = {all.size(), all.size() + e.size()}; for (auto &x : e) all.push_back(x); S.insert(S.end(), b.begin(), b.end()); };
    if (how < 5) add(f);
    else if (how == 5) { f[r.below((uint32_t)f.size())] ^= (uint8_t)(1u << r.below(8)); S.insert(S.end(), f.begin(), f.end()); ev("corrupted-frame"); }
    else if (how == 6) { f.resize(r.below((uint32_t)f.size())); S.insert(S.end(), f.begin(), f.end()); ev("truncated-frame"); }
    else if (how == 7) { Bytes g = r.bytes(r.below(40)); if (r.chance(1, 2)) for (auto &x : g) if (r.chance(1, 4)) x = 0xD3; S.insert(S.end(), g.begin(), g.end()); add(f); ev("garbage"); }
    else if (how == 8) {  // a valid frame inside a frame with a broken CRC
      size_t pre = r.below(20); Bytes body = r.bytes(pre); for (auto &x : body) if (x == 0xD3) x = 0; size_t off = S.size() + 3 + pre; Bytes outer = body; outer.insert(outer.end(), f.begin(), f.end()); size_t post = r.below(20); for (size_t k = 0; k < post; k++) outer.push_back((uint8_t)r.below(0xD3)); if (outer.size() > 1023) continue;
      Bytes o = rtcm_frame(outer); o[o.size() - 1 - r.below(3)] ^= (uint8_t)(1 + r.below(255)); at[off] = {all.size(), all.size() + e.size()}; for (auto &x : e) all.push_back(x); S.insert(S.end(), o.begin(), o.end()); ev("frame-inside-broken-frame");
    } else { for (int z = (int)r.below(4); z >= 0; z--) { S.push_back(0xD3); if (r.chance(1, 2)) { S.push_back(0); if (r.chance(1, 2)) S.push_back(0); } } add(f); ev("false-preamble"); }
  }
  if (r.chance(1, 2)) S.insert(S.end(), 1100, 0); else ev("stream-ends-in-frame");
  // the reference scan
  c.exp.clear(); size_t i = 0, found = 0; bool odd = false;
  while (i + 6 < S.size()) {
    if (S[i] != 0xD3) { i++; continue; }
    size_t len = (size_t)(S[i + 1] & 3) << 8 | S[i + 2];
    if (len == 0) { i++; continue; }
    if (i + 6 + len > S.size()) break;
    uint32_t crc = crc24q_ref(S.data() + i, 3 + len); if (((uint32_t)S[i + 3 + len] << 16 | (uint32_t)S[i + 4 + len] << 8 | S[i + 5 + len]) != crc) { i++; continue; }
    if (!at.count(i)) { odd = true; break; }
    found++; for (size_t k = at[i].first; k < at[i].second; k++) c.exp.push_back(all[k]);
    i += 6 + len;
  }
  if (!odd) {
    c.feed.data = S; c.feed.pos = 0; c.feed.mode = (int)r.below(4); c.feed.rng = Rng(r.u64()); c.feed.k = 1 + r.below(r.chance(1, 2) ? 12 : 3000);
    while (rtcm2sbp_process(c.st, rd_feed) > 0) {}
    VH_CHECK(c.feed.pos == S.size(), "frame.unread", "%zu of %zu bytes read", c.feed.pos, S.size());
    compare(c); ev("valid-frame", found); if (found) nontrivial(); distinct(S.data(), S.size());
  }
  free(c.st); free(c.tt);
}
// C01: anything
std::vector<Bytes> SEEDS;
Bytes hostile_payload(Rng &r) {
  static const int NUMS[] = {1001, 1002, 1003, 1004, 1005, 1006, 1007, 1008, 1010, 1012, 1019, 1020, 1029, 1033, 1042, 1044, 1045, 1046, 1230, 4062, 4075, 1057, 1058, 1059, 1060, 1063, 1064, 1065, 1066, 1240, 1241, 1242, 1243, 1246, 1247, 1248, 1249, 1258, 1259, 1260, 1261, 1265, 1266, 1267, 1268, 1269, 1270, 1071, 1082, 1093, 1103, 1111, 1121, 1104, 1117};
  Bytes p = r.bytes(r.chance(1, 4) ? r.below(1024) : r.below(200)); int dens = (int)r.below(4); if (dens == 0) for (auto &x : p) x &= (uint8_t)r.u64(); if (dens == 1) for (auto &x : p) x |= (uint8_t)r.u64();
  int num = r.chance(1, 2) ? MSM_BASE[r.below(6)] + 4 + (int)r.below(4) : NUMS[r.below(sizeof NUMS / sizeof NUMS[0])]; if (r.chance(1, 20)) num = (int)r.bits(12);
  if (p.size() >= 2) { p[0] = (uint8_t)(num >> 4); p[1] = (uint8_t)((num & 15) << 4 | (p[1] & 15)); }
  if (num >= 1070 && num < 1130 && p.size() > 30) {  // plausible time and masks
    auto setb = [&](size_t pos, int len, uint64_t v) { for (int i = 0; i < len; i++) { size_t q = pos + (size_t)i; if (q / 8 >= p.size()) return; uint8_t bit = (uint8_t)(0x80 >> (q % 8)); if (v >> (len - 1 - i) & 1) p[q / 8] |= bit; else p[q / 8] &= (uint8_t)~bit; } };
    if (r.chance(3, 4)) setb(24, 30, (uint64_t)r.range(0, 604799999)); if (r.chance(3, 4)) setb(73, 64, r.chance(1, 2) ? r.u64() & r.u64() & r.u64() & r.u64() : 1ull << r.below(64)); if (r.chance(3, 4)) setb(137, 32, 1u << r.below(32) | (r.chance(1, 2) ? 1u << r.below(32) : 0));
  }
  if (num >= 1002 && num <= 1012 && p.size() > 8 && r.chance(3, 4)) { p[3] = (uint8_t)(r.below(0x90)); }
  return p;
}
void case_hostile(Rng &r) {
  Ctx c(r); c.st = (rtcm3_sbp_state *)malloc(sizeof *c.st); memset((void *)c.st, fill(0), sizeof *c.st); c.tt = (time_truth_t *)aligned_alloc(16, 16); time_truth_init(c.tt);
  if (!paired()) { for (int i = 0; i < CONSTELLATION_COUNT; i++) constellation_mask[i] = r.chance(1, 40); for (int i = 0; i < CODE_COUNT; i++) sbp_signal_biases[i] = 0; }
  c.truth = r.chance(1, 2); rtcm2sbp_init(c.st, c.tt, cb, r.chance(1, 2) ? cb_inv : nullptr, &c);
  auto anyrover = [&] { int64_t wn = r.chance(1, 3) ? r.range(0, 3000) : r.chance(1, 8) ? 32767 : r.range(1876, 2500); gps_time_t t; t.wn = (s16)wn; t.tow = r.chance(1, 2) ? r.uniform(0, 604799.99) : r.pick(std::vector<double>{0, 604799.999, 86400, 302400, 604799}); if (c.truth) { time_truth_update(c.tt, TIME_TRUTH_EPH_GPS, t); } else { c.st->use_time_from_input_obs = true; c.st->time_from_input_data = t; } };
  if (!c.truth || r.chance(2, 3)) anyrover();
  int n = 1 + (int)r.below(12); Bytes S; bool stream = r.chance(1, 2);
  for (int i = 0; i < n; i++) {
    Bytes p = hostile_payload(r);
    if (r.chance(1, 3)) { Ctx d(r); d.st = c.st; d.streaming = true; d.solved = r.chance(3, 4); d.rover = 2200 * WEEK + (int64_t)r.below(604800000); d.leap = 18; int64_t T = d.rover; uint32_t k = r.below(7); if (k == 0) do_eph(d); else if (k == 1) do_ssr(d); else if (k == 2) do_station(d, (uint32_t)r.bits(12)); else if (k == 3) do_text(d, 5); else if (k == 4) do_legacy(d, {r.pick(std::vector<int>{1002, 1004, 1010, 1012}), 7, T % DAY, r.chance(1, 2)}); else if (k == 5) do_msm(d, {(int)r.below(6), 4 + (int)r.below(4), 7, T % DAY, r.chance(1, 2), 30, 6}); else do_ndf(d, 3); if (d.stream.size() > 6) p.assign(d.stream.begin() + 3, d.stream.end() - 3);
      for (int m = (int)r.below(4); m > 0 && !p.empty(); m--) { if (r.chance(1, 2)) p[r.below((uint32_t)p.size())] ^= (uint8_t)(1u << r.below(8)); else if (r.chance(1, 2)) p.resize(r.below((uint32_t)p.size() + 1)); else p[r.below((uint32_t)p.size())] = (uint8_t)r.bits(8); } }
    if (stream) { Bytes f = rtcm_frame(p); if (r.chance(1, 12)) f[r.below((uint32_t)f.size())] ^= 1; S.insert(S.end(), f.begin(), f.end()); if (r.chance(1, 8)) { Bytes g = r.bytes(r.below(30)); S.insert(S.end(), g.begin(), g.end()); } }
    else {
      uint8_t *h = (uint8_t *)malloc(p.size() ? p.size() : 1); if (!p.empty()) memcpy(h, p.data(), p.size());
      if (r.chance(1, 6)) {  // whole frames, or frames announced as shorter than they are
        Bytes f = rtcm_frame(p); f.resize(3 + p.size()); uint32_t n = (uint32_t)f.size(); if (r.chance(1, 3)) n = r.below(n); else if (r.chance(1, 4)) n = (uint32_t)p.size();
        uint8_t *g = (uint8_t *)malloc(f.size()); memcpy(g, f.data(), f.size()); rtcm2sbp_decode_frame(g, n, c.st); free(g);
        if (n < 3) { uint8_t *q = (uint8_t *)malloc(n ? n : 1); memset(q, 0xD3, n ? n : 1); rtcm2sbp_decode_frame(q, n, c.st); free(q); }
      } else rtcm2sbp_decode_payload(h, (uint32_t)p.size(), c.st);
      free(h); if (r.chance(1, 6)) anyrover();
    }
    distinct(p.data(), p.size());
  }
  if (stream) {
    if (!SEEDS.empty() && r.chance(1, 6)) { const Bytes &b = SEEDS[r.below((uint32_t)SEEDS.size())]; size_t o = r.below((uint32_t)b.size()), l = r.below(6000); if (l > b.size() - o) l = b.size() - o; S.insert(S.end(), b.begin() + (long)o, b.begin() + (long)(o + l)); ev("recorded-stream"); }
    c.feed.data = S; c.feed.pos = 0; c.feed.mode = (int)r.below(4); c.feed.rng = Rng(r.u64()); c.feed.k = 1 + r.below(100);
    while (rtcm2sbp_process(c.st, rd_feed) > 0) {}
  }
  if (!c.out.empty()) nontrivial();
  std::vector<Item> g = group(c); (void)g;
  free(c.st); free(c.tt);
}
// C26: the MSM helpers of gnss_converters
void case_msmutil(Rng &r) {
  rtcm_msm_header h; memset(&h, 0, sizeof h); int cons = (int)r.below(6); h.msg_num = (uint16_t)(MSM_BASE[cons] + 1 + r.below(7));
  bool gm[32]; int ng = 0, ns = 0, nc = 0; int d = 1 + (int)r.below(31); for (int i = 0; i < 32; i++) { gm[i] = r.chance((uint32_t)d, 32); h.signal_mask[i] = gm[i]; ng += gm[i]; }
  bool sm[64]; d = 1 + (int)r.below(31); for (int i = 0; i < 64; i++) { sm[i] = r.chance((uint32_t)d, 32) && (ns + 1) * ng <= 64; h.satellite_mask[i] = sm[i]; ns += sm[i]; }
  for (int i = 0; i < ns * ng; i++) { h.cell_mask[i] = r.chance(1, 2); nc += h.cell_mask[i]; }
  VH_CHECK(msm_get_num_signals(&h) == ng && msm_get_num_satellites(&h) == ns && msm_get_num_cells(&h) == nc, "util.counts", "counts %d %d %d expected %d %d %d", msm_get_num_satellites(&h), msm_get_num_signals(&h), msm_get_num_cells(&h), ns, ng, nc);
  int k = 0;
  for (int i = 0; i < 32; i++) if (gm[i]) {
    Sig s = sig_of(cons, i + 1); int code = msm_signal_to_code(&h, (u8)k); VH_CHECK(code == (s.code < 0 ? CODE_INVALID : s.code), "util.code", "%d signal id %d: code %d expected %d", h.msg_num, i + 1, code, s.code);
    for (int t = 0; t < 2; t++) { int fcn = r.chance(3, 4) ? (int)r.below(14) : 255; double f = -1; bool ok = msm_signal_frequency(&h, (u8)k, (u8)fcn, &f), want = s.code >= 0 && (cons != 1 || fcn != 255); double wf = cons == 1 ? (s.f == 1 ? 1602e6 + (fcn - 7) * 562500.0 : 1246e6 + (fcn - 7) * 437500.0) : s.f; VH_CHECK(ok == want, "util.freq-valid", "%d signal id %d fcn %d", h.msg_num, i + 1, fcn); if (ok && want) VH_CHECK(fabs(f - wf) < 1, "util.freq", "%d signal id %d fcn %d: %.0f expected %.0f", h.msg_num, i + 1, fcn, f, wf); }
    k++; ev("signal-mapped");
  }
  k = 0; for (int i = 0; i < 64; i++) if (sm[i]) { int want = i < MSM_SATS[cons] ? MSM_FIRST[cons] + i : 0; int got = msm_sat_to_prn(&h, (u8)k); VH_CHECK(want ? got == want : got == PRN_INVALID, "util.prn", "%d satellite bit %d: prn %d expected %d", h.msg_num, i, got, want); k++; ev("satellite-mapped"); }
  // GLONASS channels: from the satellite information, else from the table of the receiver, else none
  { u8 map[256]; for (auto &x : map) x = 255; for (int i = 1; i <= 28; i++) map[i] = r.chance(3, 4) ? (u8)r.below(14) : r.chance(1, 2) ? 255 : (u8)(14 + r.below(200));
    k = 0; for (int i = 0; i < 64; i++) if (sm[i]) {
      int info = r.chance(1, 2) ? 255 : (int)r.below(14), prn = i < MSM_SATS[cons] ? MSM_FIRST[cons] + i : 0; bool table = r.chance(3, 4); u8 got = 77; bool ok = msm_get_glo_fcn(&h, (u8)k, (u8)info, table ? map : nullptr, &got); int want = info != 255 ? info : table ? map[prn] : 255; bool wok = cons == 1 && want <= 13;
      VH_CHECK(ok == wok && (!ok || got == want), "util.fcn", "%d satellite bit %d: information %d, table %d: %d channel %u", h.msg_num, i, info, table ? map[prn] : -1, ok, got); if (wok) ev(info != 255 ? "channel-from-message" : "channel-from-table"); k++; } }
  // building a header: every bit set belongs to what was added, as long as the cells fit
  const rtcm_constellation_t RC[] = {RTCM_CONSTELLATION_GPS, RTCM_CONSTELLATION_GLO, RTCM_CONSTELLATION_GAL, RTCM_CONSTELLATION_SBAS, RTCM_CONSTELLATION_QZS, RTCM_CONSTELLATION_BDS};
  { int ty = 1 + (int)r.below(7); const msm_enum MT[] = {MSM_UNKNOWN, MSM1, MSM2, MSM3, MSM4, MSM5, MSM6, MSM7}; VH_CHECK(to_msm_msg_num(RC[cons], MT[ty]) == MSM_BASE[cons] + ty && to_msm_msg_num(RC[cons], MSM_UNKNOWN) == 0, "util.number", "constellation %d MSM%d: %u", cons, ty, to_msm_msg_num(RC[cons], MT[ty])); }
  auto id_of = [&](int code) { for (int i = 1; i <= 32; i++) if (sig_of(cons, i).code == code) return i - 1; return 32; };
  rtcm_msm_header b; memset(&b, 0, sizeof b); b.msg_num = h.msg_num; std::vector<int> ids = sig_ids(cons); struct A { int code, prn, sat, sig; }; std::vector<A> added; int adds = 1 + (int)r.below(90), most = 1 + (int)r.below((uint32_t)ids.size()), pool = 1 + (int)r.below((uint32_t)MSM_SATS[cons]);
  for (int i = 0; i < adds; i++) {
    A x; x.code = r.chance(1, 20) ? (int)CODE_INVALID : r.chance(1, 20) ? (int)r.below(CODE_COUNT) : sig_of(cons, ids[r.below((uint32_t)most)]).code; x.prn = r.chance(1, 20) ? (int)r.bits(8) : MSM_FIRST[cons] + (int)r.below((uint32_t)pool); x.sig = x.code == (int)CODE_INVALID ? 32 : id_of(x.code); x.sat = x.prn - MSM_FIRST[cons];
    rtcm_msm_header was = b; bool known = x.sig < 32 && x.sat >= 0 && x.sat < MSM_SATS[cons]; bool ok = msm_add_to_header(&b, (code_t)x.code, (u8)x.prn);
    int s0 = msm_get_num_satellites(&was), g0 = msm_get_num_signals(&was); bool fits = known && (s0 + !was.satellite_mask[x.sat]) * (g0 + !was.signal_mask[x.sig]) <= 64;
    VH_CHECK(ok == fits, "util.add", "%d code %d prn %d to %d satellites and %d signals: %d", b.msg_num, x.code, x.prn, s0, g0, ok);
    for (int q = 0; q < 64; q++) VH_CHECK(b.satellite_mask[q] == (was.satellite_mask[q] || (ok && q == x.sat)) || (known && !ok && q == x.sat), "util.add-satellite", "%d prn %d: bit %d", b.msg_num, x.prn, q);
    for (int q = 0; q < 32; q++) VH_CHECK(b.signal_mask[q] == (was.signal_mask[q] || (ok && q == x.sig)), "util.add-signal", "%d code %d: bit %d", b.msg_num, x.code, q);
    VH_CHECK(msm_get_num_cells(&b) == 0 && msm_get_num_satellites(&b) * msm_get_num_signals(&b) <= 64, "util.add-cells", "%d satellites, %d signals", msm_get_num_satellites(&b), msm_get_num_signals(&b));
    ev(ok ? "added-to-header" : known ? "header-full" : "unknown-to-header"); if (r.chance(1, 2)) added.push_back(x);
  }
  int bg = msm_get_num_signals(&b); bool want[64] = {};
  for (auto &x : added) {
    bool in = x.sig < 32 && x.sat >= 0 && x.sat < MSM_SATS[cons] && b.satellite_mask[x.sat] && b.signal_mask[x.sig]; int sr = 0, gr = 0; if (in) { for (int q = 0; q < x.sat; q++) sr += b.satellite_mask[q]; for (int q = 0; q < x.sig; q++) gr += b.signal_mask[q]; VH_CHECK(prn_to_msm_sat_index(&b, (u8)x.prn) == sr && code_to_msm_signal_index(&b, (code_t)x.code) == gr, "util.rank", "%d prn %d code %d", b.msg_num, x.prn, x.code); }
    bool fresh = in && !want[sr * bg + gr], ok = msm_add_to_cell_mask(&b, (code_t)x.code, (u8)x.prn); if (fresh) want[sr * bg + gr] = true;
    VH_CHECK(ok == fresh && memcmp(want, b.cell_mask, sizeof want) == 0, "util.cell", "%d prn %d code %d: %d", b.msg_num, x.prn, x.code, ok); if (ok) ev("cell-added");
  }
  if (ng && ns) nontrivial(); distinct(&h, sizeof h);
}
