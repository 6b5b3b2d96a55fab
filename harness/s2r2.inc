// s2r.cc continued: ephemerides, station data, buffered conversion, hostile input.
struct Fld { const char *name; int n; char kind; /* u unsigned, s signed, m sign-magnitude, - not compared */ int64_t v; };
void frame_check(const char *what, const Bytes &f, const std::vector<Fld> &v) {
  BitR b(f.data() + 3, f.size() - 6);
  for (auto &x : v) {
    int64_t g = x.kind == 'm' ? b.getsm(x.n) : x.kind == 's' ? b.gets(x.n) : (int64_t)b.get(x.n);
    if (x.kind == '-') continue;
    VH_CHECK(g == x.v, fmt("%s.%s", what, x.name), "%s: field %s is %lld expected %lld", what, x.name, (long long)g, (long long)x.v); ev("field-checked");
  }
  VH_CHECK(!b.over && (b.pos + 7) / 8 == f.size() - 6, fmt("%s.size", what), "%s: %zu bits in %zu bytes", what, b.pos, f.size() - 6);
}
int64_t rs(Rng &r, int n) { return (int64_t)(r.bits(n) << (64 - n)) >> (64 - n); }
int64_t rm(Rng &r, int n) { int64_t m = (int64_t)r.bits(n - 1); return r.chance(1, 2) ? -m : m; }
// a value for a field: mostly representable, sometimes beyond its range
struct Spoil {
  Rng &r; int at, i = 0; bool bad = false;
  double operator()(int64_t k, double unit, int n, char kind) {
    if (i++ != at) return (double)k * unit;
    bad = true; if (kind == 'a' || r.chance(1, 5)) return r.pick(std::vector<double>{NAN, INFINITY, -INFINITY, 1e30, -1e30});
    double lim = std::ldexp(1.0, kind == 'u' ? n : n - 1);
    if (r.chance(1, 3)) return (kind == 'u' ? (r.chance(1, 2) ? lim : -1) : kind == 'm' ? (r.chance(1, 2) ? lim : -lim) : n > 22 || r.chance(1, 2) ? lim : -lim - 1) * unit;  // the first that does not fit
    double x = lim * (1 + r.unit() * (r.chance(1, 2) ? 0.01 : 300)) + 1;
    if (kind == 'u') return r.chance(1, 2) ? -(1 + x / 7) * unit : x * unit;
    return (r.chance(1, 2) ? -x : x) * unit;
  }
};
struct KepF { int crn, cxn, a0n, a1n, a2n; int crx, cux, a0x, a1x, a2x; bool a0d, a1d; };
Kep gen_kep(Rng &r, const KepF &f) {
  Kep k; k.crs = rs(r, f.crn); k.crc = rs(r, f.crn); k.cuc = rs(r, f.cxn); k.cus = rs(r, f.cxn); k.cic = rs(r, f.cxn); k.cis = rs(r, f.cxn); k.dn = rs(r, 16); k.m0 = rs(r, 32); k.ecc = (int64_t)r.bits(32); k.sqrta = (int64_t)r.bits(32); k.o0 = rs(r, 32); k.od = rs(r, 24); k.w = rs(r, 32); k.inc = rs(r, 32); k.idot = rs(r, 14); k.af0 = rs(r, f.a0n); k.af1 = rs(r, f.a1n); k.af2 = rs(r, f.a2n); return k;
}
void put_kep(W &w, const Kep &k, const KepF &f, Spoil &sp) {
  double cr = std::ldexp(1, f.crx), cu = std::ldexp(1, f.cux), sc = std::ldexp(M_PI, -31), sd = std::ldexp(M_PI, -43);
  w.f32((float)sp(k.crs, cr, f.crn, 's')); w.f32((float)sp(k.crc, cr, f.crn, 's')); w.f32((float)sp(k.cuc, cu, f.cxn, 's')); w.f32((float)sp(k.cus, cu, f.cxn, 's')); w.f32((float)sp(k.cic, cu, f.cxn, 's')); w.f32((float)sp(k.cis, cu, f.cxn, 's'));
  w.f64(sp(k.dn, sd, 16, 's')); w.f64(sp(k.m0, sc, 32, 'a')); w.f64(sp(k.ecc, std::ldexp(1, -33), 32, 'u')); w.f64(sp(k.sqrta, std::ldexp(1, -19), 32, 'u')); w.f64(sp(k.o0, sc, 32, 'a')); w.f64(sp(k.od, sd, 24, 's')); w.f64(sp(k.w, sc, 32, 'a')); w.f64(sp(k.inc, sc, 32, 'a')); w.f64(sp(k.idot, sd, 14, 's'));
  double a0 = sp(k.af0, std::ldexp(1, f.a0x), f.a0n, 's'), a1 = sp(k.af1, std::ldexp(1, f.a1x), f.a1n, 's'), a2 = sp(k.af2, std::ldexp(1, f.a2x), f.a2n, 's');
  if (f.a0d) w.f64(a0); else w.f32((float)a0); if (f.a1d) w.f64(a1); else w.f32((float)a1); w.f32((float)a2);
}
void put_common(W &w, int sat, int code, int64_t toe, ld ura, uint32_t fit, int health) { w.u8((uint32_t)sat); w.u8((uint32_t)code); w.u32((uint32_t)(toe % 604800)); w.u16((uint32_t)(toe / 604800)); w.f32((float)ura); w.u32(fit); w.u8(1); w.u8((uint32_t)health); }
// an accuracy that no index stands for: sent as "no prediction"
ld none(Rng &r, bool last, ld v) { return last && r.chance(2, 3) ? (ld)r.pick(std::vector<double>{NAN, -1, -0.5, 1e5, 1e9, INFINITY}) : v; }
Item *only(std::vector<Item> &v, int type, const char *what) {
  std::vector<Item> q; for (auto &i : v) if (i.type != SbpMsgLog) q.push_back(i); v.swap(q);
  VH_CHECK(v.size() == 1 && v[0].type == type, fmt("back.%s-count", what), "%s came back as %zu messages%s", what, v.size(), v.size() ? fmt(", type %d", v[0].type).c_str() : ""); return v.size() == 1 && v[0].type == type ? &v[0] : nullptr;
}
void case_eph(Rng &r) {
  int64_t wk = r.range(1878, 2700), t0 = wk * WEEK + r.range(0, WEEK - 1); Conv c(r); Cfg g = configure(r, c, 5, t0); g.leap = true; g.leaps = leap_at(t0); sbp2rtcm_set_leap_second((s8)g.leaps, c.st);
  std::string ant, rcv; bool desc = false; double height = 0; int64_t hk = 0; Back bk(r, g, t0);
  int n = 1 + (int)r.below(6);
  for (int e = 0; e < n && !violated(); e++) {
    uint16_t sender = (uint16_t)r.bits(16); uint32_t stn = sender & 0xFFFu; c.out.frames.clear(); bk.c.out.clear(); W w; std::vector<Fld> fl; int64_t toe = 0; Spoil sp{r, r.chance(1, 5) ? (int)r.below(24) : -1}; bool refuse = false; int badwhat = r.chance(1, 12) ? (int)r.below(3) : -1; size_t at = 2; const uint32_t beyond = 604800u + (r.chance(1, 2) ? 0 : r.below(100));
    auto trip = [&](int64_t t) { bk.when(t); for (auto &f : c.out.frames) bk.feed(f); return group(bk.c); };
    auto single = [&](uint32_t num, const char *what) {
      if (refuse || sp.bad) { VH_CHECK(c.out.frames.empty(), fmt("%s.unrepresentable-sent", what), "%s with a value that does not fit was sent", what); ev("unrepresentable-refused"); return false; }
      VH_CHECK(c.out.frames.size() == 1 && num_of(c.out.frames[0]) == num, fmt("%s.count", what), "%s made %zu frames", what, c.out.frames.size()); if (violated()) return false; frame_check(what, c.out.frames[0], fl); nontrivial(); return !violated();
    };
    switch (r.below(9)) {
      case 0: {
        KepF f{16, 16, 22, 16, 8, -5, -29, -31, -43, -55, false, false}; Kep k = gen_kep(r, f); int sat = 1 + (int)r.below(32), ura = (int)r.below(16), health = (int)r.bits(6), iode = (int)r.bits(8), iodc = (int)(r.chance(1, 2) ? (uint64_t)iode | r.bits(2) << 8 : r.bits(10)), fit = (int)r.below(2), code = r.chance(3, 4) ? CODE_GPS_L1CA : CODE_GPS_L2CM; int64_t toek = r.range(0, 37799), tock = r.chance(1, 2) ? toek : r.range(0, 37799), tgd = rs(r, 8); toe = wk * 604800 + toek * 16;
        int64_t tt = toe; int sat2 = sat; if (badwhat == 0) { sat2 = r.pick(std::vector<int>{0, 33, 64, 255}); refuse = true; } if (badwhat == 1) { code = CODE_GLO_L1OF; refuse = true; }
        put_common(w, sat2, code, tt, none(r, ura == 15, ura_gps(ura)), fit_gps(fit, iodc), health); w.f32((float)sp(tgd, std::ldexp(1, -31), 8, 's')); put_kep(w, k, f, sp); w.u32((uint32_t)(tock * 16)); w.u16((uint32_t)wk); w.u8((uint32_t)iode); w.u16((uint32_t)iodc);
        if (badwhat == 2) { if (r.chance(1, 2)) at = w.b.size() - 9; for (int i = 0; i < 4; i++) w.b[at + (size_t)i] = (uint8_t)(beyond >> (8 * i)); refuse = true; }
        c.give(T_GPS, sender, w.b);
        fl = {{"type", 12, 'u', 1019}, {"sat", 6, 'u', sat}, {"week", 10, 'u', wk % 1024}, {"ura", 4, 'u', ura}, {"code-l2", 2, '-', 0}, {"idot", 14, 's', k.idot}, {"iode", 8, 'u', iode}, {"toc", 16, 'u', tock}, {"af2", 8, 's', k.af2}, {"af1", 16, 's', k.af1}, {"af0", 22, 's', k.af0}, {"iodc", 10, 'u', iodc}, {"crs", 16, 's', k.crs}, {"dn", 16, 's', k.dn}, {"m0", 32, 's', k.m0}, {"cuc", 16, 's', k.cuc}, {"ecc", 32, 'u', k.ecc}, {"cus", 16, 's', k.cus}, {"sqrta", 32, 'u', k.sqrta}, {"toe", 16, 'u', toek}, {"cic", 16, 's', k.cic}, {"omega0", 32, 's', k.o0}, {"cis", 16, 's', k.cis}, {"inc", 32, 's', k.inc}, {"crc", 16, 's', k.crc}, {"w", 32, 's', k.w}, {"omegadot", 24, 's', k.od}, {"tgd", 8, 's', tgd}, {"health", 6, 'u', health}, {"l2p", 1, '-', 0}, {"fit", 1, 'u', fit}};
        if (!single(1019, "gps-eph")) break;
        auto v = trip(toe * 1000 + r.range(-80000, 80000) * 1000); Item *q = only(v, SbpMsgEphemerisGps, "gps-eph"); if (!q) break; const auto &m = q->msg.ephemeris_gps; bool near = std::llabs(toek - tock) < 12000;
        com_check("back.gps-eph", m.common, sat, CODE_GPS_L1CA, ura_gps(ura), fit_gps(fit, iodc), (iodc & 255) == iode, health, toe, near ? &m.toc : nullptr, wk * 604800 + tock * 16); kep_check("back.gps-eph", m, k, -5, -29, -31, -43, -55); fcheck("back.gps-eph", {{"tgd", m.tgd, tgd * p2(-31)}}); VH_CHECK(m.iode == iode && m.iodc == iodc, "back.gps-eph.iod", "iode %u iodc %u expected %d %d", m.iode, m.iodc, iode, iodc); evs("eph-round-trip-gps");
        break;
      }
      case 1: {
        KepF f{18, 18, 24, 22, 11, -6, -31, -33, -50, -66, true, false}; Kep k = gen_kep(r, f); int sat = 6 + (int)r.below(58), ura = (int)r.below(16), health = (int)r.below(2), iode = (int)r.bits(5), iodc = (int)r.bits(5), code = CODE_BDS2_B1; int64_t toek = r.range(0, 75599), tock = r.chance(1, 2) ? toek : r.range(0, 75599), t1 = rs(r, 10), t2 = rs(r, 10); toe = wk * 604800 + toek * 8 + 14; int64_t toc = wk * 604800 + tock * 8 + 14;
        if (r.chance(1, 8)) { toek = 75600 - 1 - (int64_t)r.below(2); tock = toek; toe = wk * 604800 + toek * 8 + 14; toc = toe; }  // first seconds of the GPS week
        int sat2 = sat; if (badwhat == 0) { sat2 = r.pick(std::vector<int>{0, 64, 128, 255}); refuse = true; } if (badwhat == 1) { code = CODE_GPS_L1CA; refuse = true; }
        put_common(w, sat2, code, toe, none(r, ura == 15, ura_bds(ura)), 3 * 3600, health); w.f32((float)sp(t1, 1e-10, 10, 's')); w.f32((float)sp(t2, 1e-10, 10, 's')); put_kep(w, k, f, sp); w.u32((uint32_t)(toc % 604800)); w.u16((uint32_t)(toc / 604800)); w.u8((uint32_t)iode); w.u16((uint32_t)iodc);
        if (badwhat == 2) { const Bytes kept = w.b; if (r.chance(1, 2)) at = w.b.size() - 9; for (int i = 0; i < 4; i++) w.b[at + (size_t)i] = (uint8_t)(beyond >> (8 * i));  if (r.chance(1, 3)) { w.b = kept; size_t q = r.chance(1, 2) ? 6 : w.b.size() - 5; uint32_t old = r.below(1356); w.b[q] = (uint8_t)old; w.b[q + 1] = (uint8_t)(old >> 8); } refuse = true; }
        c.give(T_BDS, sender, w.b);
        fl = {{"type", 12, 'u', 1042}, {"sat", 6, 'u', sat}, {"week", 13, 'u', wk - 1356}, {"ura", 4, 'u', ura}, {"idot", 14, 's', k.idot}, {"aode", 5, 'u', iode}, {"toc", 17, 'u', tock}, {"af2", 11, 's', k.af2}, {"af1", 22, 's', k.af1}, {"af0", 24, 's', k.af0}, {"aodc", 5, 'u', iodc}, {"crs", 18, 's', k.crs}, {"dn", 16, 's', k.dn}, {"m0", 32, 's', k.m0}, {"cuc", 18, 's', k.cuc}, {"ecc", 32, 'u', k.ecc}, {"cus", 18, 's', k.cus}, {"sqrta", 32, 'u', k.sqrta}, {"toe", 17, 'u', toek}, {"cic", 18, 's', k.cic}, {"omega0", 32, 's', k.o0}, {"cis", 18, 's', k.cis}, {"inc", 32, 's', k.inc}, {"crc", 18, 's', k.crc}, {"w", 32, 's', k.w}, {"omegadot", 24, 's', k.od}, {"tgd1", 10, 's', t1}, {"tgd2", 10, 's', t2}, {"health", 1, 'u', health}};
        if (!single(1042, "bds-eph")) break;
        auto v = trip(toe * 1000 + r.range(-80000, 80000) * 1000); Item *q = only(v, SbpMsgEphemerisBds, "bds-eph"); if (!q) break; const auto &m = q->msg.ephemeris_bds;
        com_check("back.bds-eph", m.common, sat, CODE_BDS2_B1, ura_bds(ura), 3 * 3600, 1, health, toe, &m.toc, toc); kep_check("back.bds-eph", m, k, -6, -31, -33, -50, -66); fcheck("back.bds-eph", {{"tgd1", m.tgd1, t1 * 1e-10L}, {"tgd2", m.tgd2, t2 * 1e-10L}}); VH_CHECK(m.iode == iode && m.iodc == iodc, "back.bds-eph.iod", "iode %u iodc %u expected %d %d", m.iode, m.iodc, iode, iodc); evs("eph-round-trip-bds");
        break;
      }
      case 2: case 3: {
        int64_t wk0 = wk; if (r.chance(1, 3)) wk = r.range(1878, 5119); struct Restore { int64_t &w, v; ~Restore() { w = v; } } restore{wk, wk0};
        bool inav = r.chance(1, 2); KepF f{16, 16, 31, 21, 6, -5, -29, -34, -46, -59, true, true}; Kep k = gen_kep(r, f); int sat = 1 + (int)r.below(36), ura = r.chance(1, 16) ? 255 : (int)r.below(126), health = (int)r.bits(inav ? 6 : 3), iod = (int)r.bits(10), code = r.chance(3, 4) ? CODE_GAL_E1B : CODE_GAL_E7I; int64_t toek = r.range(0, 10079), tock = r.chance(1, 2) ? toek : r.range(0, 10079), b1 = rs(r, 10), b2 = rs(r, 10); toe = wk * 604800 + toek * 60;
        int sat2 = sat, source = inav ? 0 : 1; if (badwhat == 0) { sat2 = r.pick(std::vector<int>{0, 37, 64, 255}); refuse = true; } if (badwhat == 1) { if (r.chance(1, 2)) source = 2 + (int)r.below(254); else code = CODE_GPS_L1CA; refuse = true; }
        put_common(w, sat2, code, toe, none(r, ura == 255, sisa(ura)), 4 * 3600, health); w.f32((float)sp(b1, std::ldexp(1, -32), 10, 's')); w.f32((float)sp(b2, std::ldexp(1, -32), 10, 's')); put_kep(w, k, f, sp); w.u32((uint32_t)(tock * 60)); w.u16((uint32_t)wk); w.u16((uint32_t)iod); w.u16((uint32_t)iod); w.u8((uint32_t)source);
        if (badwhat == 2) { if (r.chance(1, 2)) at = w.b.size() - 11; if (at > 2 || r.chance(1, 2)) for (int i = 0; i < 4; i++) w.b[at + (size_t)i] = (uint8_t)(beyond >> (8 * i)); else { w.b[6] = 0xFF; w.b[7] = 3; } refuse = true; }
        c.give(T_GAL, sender, w.b);
        fl = {{"type", 12, 'u', inav ? 1046 : 1045}, {"sat", 6, 'u', sat}, {"week", 12, 'u', wk - 1024}, {"iod", 10, 'u', iod}, {"sisa", 8, 'u', ura}, {"idot", 14, 's', k.idot}, {"toc", 14, 'u', tock}, {"af2", 6, 's', k.af2}, {"af1", 21, 's', k.af1}, {"af0", 31, 's', k.af0}, {"crs", 16, 's', k.crs}, {"dn", 16, 's', k.dn}, {"m0", 32, 's', k.m0}, {"cuc", 16, 's', k.cuc}, {"ecc", 32, 'u', k.ecc}, {"cus", 16, 's', k.cus}, {"sqrta", 32, 'u', k.sqrta}, {"toe", 14, 'u', toek}, {"cic", 16, 's', k.cic}, {"omega0", 32, 's', k.o0}, {"cis", 16, 's', k.cis}, {"inc", 32, 's', k.inc}, {"crc", 16, 's', k.crc}, {"w", 32, 's', k.w}, {"omegadot", 24, 's', k.od}, {"bgd-e5a", 10, 's', b1}};
        if (inav) { fl.push_back({"bgd-e5b", 10, 's', b2}); fl.push_back({"health", 6, 'u', health}); fl.push_back({"reserved", 2, '-', 0}); } else { fl.push_back({"health", 3, 'u', health}); fl.push_back({"reserved", 7, '-', 0}); }
        if (!single(inav ? 1046 : 1045, "gal-eph")) break;
        auto v = trip(toe * 1000 + r.range(-80000, 80000) * 1000); Item *q = only(v, SbpMsgEphemerisGal, "gal-eph"); if (!q) break; const auto &m = q->msg.ephemeris_gal;
        com_check("back.gal-eph", m.common, sat, CODE_GAL_E1B, sisa(ura), 4 * 3600, 1, health, toe, std::llabs(toek - tock) < 3000 ? &m.toc : nullptr, wk * 604800 + tock * 60); kep_check("back.gal-eph", m, k, -5, -29, -34, -46, -59); fcheck("back.gal-eph", {{"bgd_e1e5a", m.bgd_e1e5a, b1 * p2(-32)}}); if (inav) fcheck("back.gal-eph", {{"bgd_e1e5b", m.bgd_e1e5b, b2 * p2(-32)}}); VH_CHECK(m.iode == iod && m.iodc == iod && m.source == (inav ? 0 : 1), "back.gal-eph.iod", "iode %u iodc %u source %u expected %d", m.iode, m.iodc, m.source, iod); evs(inav ? "eph-round-trip-inav" : "eph-round-trip-fnav");
        break;
      }
      case 4: {
        int sat = 1 + (int)r.below(28), fcn = (int)r.below(14), ft = (int)r.below(16), h = (int)r.below(2), fitm = r.pick(std::vector<int>{40, 55, 70}), code = CODE_GLO_L1OF; int64_t v[3], x[3], a[3], gam = rm(r, 11), tau = rm(r, 22), dt = rm(r, 5); for (int i = 0; i < 3; i++) { v[i] = rm(r, 24); x[i] = rm(r, 27); a[i] = rm(r, 5); }
        toe = wk * 604800 + (int64_t)r.below(672) * 900 + g.leaps; int tb = (int)((toe - g.leaps + 3 * 3600) % 86400 / 900), sat2 = sat; int64_t tw = toe;
        if (badwhat == 0) { sat2 = r.pick(std::vector<int>{0, 29, 64, 255}); refuse = true; } if (badwhat == 1) { code = CODE_GPS_L1CA; refuse = true; }
        put_common(w, sat2, code, tw, none(r, ft == 15, ft_glo(ft)), (uint32_t)fitm * 60, h);
        w.f32((float)sp(gam, std::ldexp(1, -40), 11, 'm')); w.f32((float)sp(tau, std::ldexp(1, -30), 22, 'm')); w.f32((float)sp(dt, std::ldexp(1, -30), 5, 'm'));
        for (int i = 0; i < 3; i++) w.f64(sp(x[i], std::ldexp(1000, -11), 27, 'm')); for (int i = 0; i < 3; i++) w.f64(sp(v[i], std::ldexp(1000, -20), 24, 'm')); for (int i = 0; i < 3; i++) w.f32((float)sp(a[i], std::ldexp(1000, -30), 5, 'm'));
        w.u8((uint32_t)fcn + 1); w.u8((uint32_t)((tb * 900) & 127)); if (badwhat == 2) { for (int i = 0; i < 4; i++) w.b[at + (size_t)i] = (uint8_t)(beyond >> (8 * i)); refuse = true; }
        c.give(T_GLO, sender, w.b);
        fl = {{"type", 12, 'u', 1020}, {"sat", 6, 'u', sat}, {"fcn", 5, 'u', fcn}, {"almanac", 2, '-', 0}, {"p1", 2, 'u', fitm == 40 ? 1 : fitm == 55 ? 2 : 0}, {"tk", 12, '-', 0}, {"health", 1, 'u', h}, {"p2", 1, '-', 0}, {"tb", 7, 'u', tb}};
        if (fitm == 70) fl[4].kind = '-';
        for (int i = 0; i < 3; i++) { fl.push_back({"vel", 24, 'm', v[i]}); fl.push_back({"pos", 27, 'm', x[i]}); fl.push_back({"acc", 5, 'm', a[i]}); }
        std::vector<Fld> rest = {{"p3", 1, '-', 0}, {"gamma", 11, 'm', gam}, {"p", 2, '-', 0}, {"ln", 1, '-', 0}, {"tau", 22, 'm', tau}, {"dtau", 5, 'm', dt}, {"en", 5, '-', 0}, {"p4", 1, '-', 0}, {"ft", 4, 'u', ft}, {"nt", 11, '-', 0}, {"m", 2, '-', 0}, {"add", 1, '-', 0}, {"na", 11, '-', 0}, {"tauc", 32, '-', 0}, {"n4", 5, '-', 0}, {"taugps", 22, '-', 0}, {"ln5", 1, '-', 0}, {"reserved", 7, '-', 0}}; fl.insert(fl.end(), rest.begin(), rest.end());
        if (!single(1020, "glo-eph")) break;
        int64_t back_t = toe * 1000 + r.range(-36000, 36000) * 1000; auto vv = trip(back_t); Item *q = only(vv, SbpMsgEphemerisGlo, "glo-eph"); if (!q) break; const auto &m = q->msg.ephemeris_glo;
        if (leap_at(toe * 1000) == g.leaps && leap_at(back_t) == g.leaps) com_check("back.glo-eph", m.common, sat, CODE_GLO_L1OF, ft_glo(ft), (uint32_t)fitm * 60, 1, h, toe, nullptr, 0);
        for (int i = 0; i < 3; i++) { dcheck("back.glo-eph", {{"pos", m.pos[i], x[i] * p2(-11) * 1000}, {"vel", m.vel[i], v[i] * p2(-20) * 1000}}); fcheck("back.glo-eph", {{"acc", m.acc[i], a[i] * p2(-30) * 1000}}); }
        fcheck("back.glo-eph", {{"gamma", m.gamma, gam * p2(-40)}, {"tau", m.tau, tau * p2(-30)}, {"d_tau", m.d_tau, dt * p2(-30)}}); VH_CHECK(m.fcn == fcn + 1 && m.iod == ((tb * 900) & 127), "back.glo-eph.fcn", "fcn %u iod %u expected %d", m.fcn, m.iod, fcn + 1); evs("eph-round-trip-glo");
        bk.c.fcn[sat] = fcn;
        break;
      }
      case 5: {  // base position and station descriptors
        if (r.chance(1, 2)) { size_t la = r.below(32), lr = r.below(32); ant.clear(); rcv.clear(); for (size_t i = 0; i < la; i++) ant += (char)('A' + r.below(26)); for (size_t i = 0; i < lr; i++) rcv += (char)('a' + r.below(26)); sbp2rtcm_set_rcv_ant_descriptors(ant.c_str(), rcv.c_str(), c.st); desc = true; }
        if (r.chance(1, 2)) { int64_t k = (int64_t)r.bits(16); if (k > 65535) k = 65535; double hgt = (double)k / 10000.0; if (r.chance(1, 6)) { double bad = r.pick(std::vector<double>{-0.001, -5, 6.5537, 100, NAN, INFINITY}); VH_CHECK(!sbp2rtcm_set_ant_height(bad, c.st), "base.height-accepted", "antenna height %g accepted", bad); } else { bool ok = sbp2rtcm_set_ant_height(hgt, c.st); VH_CHECK(ok, "base.height-refused", "antenna height %g refused", hgt); if (ok) { height = hgt; hk = k; desc = true; } } }
        (void)height; int64_t x[3]; for (auto &q : x) q = rs(r, 38); Spoil s3{r, r.chance(1, 5) ? (int)r.below(3) : -1}; for (int i = 0; i < 3; i++) w.f64(s3(x[i], 1e-4, 38, 's')); sp.bad = s3.bad; for (auto &q : x) if (q == -(1ll << 37)) sp.at = -99;  // the most negative value may be refused
        c.give(T_BASE, sender, w.b);
        if (sp.bad) { VH_CHECK(c.out.frames.empty(), "base.unrepresentable-sent", "base position beyond the RTCM range was sent"); ev("unrepresentable-refused"); break; }
        if (sp.at == -99) break;
        size_t want = desc ? 3 : 1; VH_CHECK(c.out.frames.size() == want, "base.count", "base position made %zu frames expected %zu", c.out.frames.size(), want); if (violated()) break; nontrivial();
        std::set<uint32_t> nums; for (auto &f : c.out.frames) {
          uint32_t num = num_of(f); VH_CHECK(nums.insert(num).second, "base.repeated", "message %u twice", num);
          auto str = [&](std::vector<Fld> &v, const std::string &s) { v.push_back({"length", 8, 'u', (int64_t)s.size()}); for (char ch : s) v.push_back({"text", 8, 'u', (uint8_t)ch}); };
          std::vector<Fld> v = {{"type", 12, 'u', (int64_t)num}, {"station", 12, 'u', stn}};
          if (num == 1006) { std::vector<Fld> q = {{"itrf", 6, '-', 0}, {"ind", 4, '-', 0}, {"x", 38, 's', x[0]}, {"osc", 2, '-', 0}, {"y", 38, 's', x[1]}, {"qc", 2, '-', 0}, {"z", 38, 's', x[2]}, {"height", 16, 'u', hk}}; v.insert(v.end(), q.begin(), q.end()); frame_check("base", f, v); }
          else if (num == 1008) { str(v, ant); v.push_back({"setup", 8, 'u', 0}); str(v, ""); frame_check("antenna", f, v); }
          else if (num == 1033) { str(v, ant); v.push_back({"setup", 8, 'u', 0}); str(v, ""); str(v, rcv); str(v, ""); str(v, ""); frame_check("receiver", f, v); }
          else violate("base.type", "message %u from a base position", num);
        }
        VH_CHECK(nums.count(1006), "base.missing", "no 1006"); auto v = trip(t0); int nb = 0; for (auto &i : v) if (i.type == SbpMsgBasePosEcef) { nb++; VH_CHECK(fabsl(i.msg.base_pos_ecef.x - x[0] * 1e-4L) < 1e-8L && fabsl(i.msg.base_pos_ecef.y - x[1] * 1e-4L) < 1e-8L && fabsl(i.msg.base_pos_ecef.z - x[2] * 1e-4L) < 1e-8L && i.sender == snd(stn), "back.base", "base position came back as %.4f %.4f %.4f sender %04x", i.msg.base_pos_ecef.x, i.msg.base_pos_ecef.y, i.msg.base_pos_ecef.z, i.sender); } VH_CHECK(nb == 1, "back.base-count", "base position came back %d times", nb); evs("base-round-trip");
        break;
      }
      case 6: {  // GLONASS biases
        int mask = (int)r.bits(4), b[4]; for (auto &q : b) do q = (int16_t)r.bits(16); while (q == -32768); w.u8((uint32_t)mask); for (int q : b) w.u16((uint32_t)(uint16_t)q); c.give(T_BIAS, sender, w.b); sp.bad = refuse = false;
        fl = {{"type", 12, 'u', 1230}, {"station", 12, 'u', stn}, {"indicator", 1, 'u', 0}, {"reserved", 3, '-', 0}, {"mask", 4, 'u', mask}}; static const char *BN[4] = {"l1ca", "l1p", "l2ca", "l2p"}; for (int i = 0; i < 4; i++) if (mask & (8 >> i)) fl.push_back({BN[i], 16, 's', b[i]}); else b[i] = 0;
        if (!fl.empty() && c.out.frames.size() == 1) { BitR q(c.out.frames[0].data() + 3, c.out.frames[0].size() - 6); q.get(24); fl[2].v = (int64_t)q.get(1); }  // indicator checked by the round trip
        if (!single(1230, "bias")) break;
        auto v = trip(t0); Item *q = only(v, SbpMsgGloBiases, "bias"); if (!q) break; const auto &m = q->msg.glo_biases; VH_CHECK(m.mask == mask && q->sender == snd(stn), "back.bias-mask", "mask %u expected %d", m.mask, mask); VH_CHECK(m.l1ca_bias == b[0] && m.l1p_bias == b[1] && m.l2ca_bias == b[2] && m.l2p_bias == b[3], "back.bias", "biases %d %d %d %d expected %d %d %d %d", m.l1ca_bias, m.l1p_bias, m.l2ca_bias, m.l2p_bias, b[0], b[1], b[2], b[3]); evs("bias-round-trip");
        break;
      }
      case 7: {  // tunnelled messages
        int t = T_OSR + (int)r.below(T_ST - T_OSR + 1); Bytes p = r.bytes(r.chance(1, 6) ? 255 - r.below(3) : r.below(256)); c.give(t, sender, p); sp.bad = refuse = false; fl = {{"type", 12, 'u', 4062}, {"reserved", 4, '-', 0}, {"sbp-type", 16, 'u', TYPES[t]}, {"sender", 16, 'u', sender}, {"length", 8, 'u', (int64_t)p.size()}}; for (uint8_t q : p) fl.push_back({"data", 8, 'u', q}); if (single(4062, "tunnel")) evs(fmt("tunnel-%04x", TYPES[t])); break;
      }
      default: {  // log
        size_t len = r.chance(1, 6) ? 255 - r.below(3) : r.below(256); Bytes p; p.push_back((uint8_t)r.below(8)); while (p.size() < len) p.push_back((uint8_t)(32 + r.below(95))); c.give(T_LOG, sender, p); sp.bad = refuse = false; if (p.size() < 2) { VH_CHECK(c.out.frames.empty(), "text.count", "empty log was sent"); break; }
        fl = {{"type", 12, 'u', 1029}, {"station", 12, 'u', stn}, {"mjd", 16, '-', 0}, {"sec", 17, '-', 0}, {"chars", 7, '-', 0}, {"units", 8, 'u', (int64_t)p.size() - 1}}; for (size_t i = 1; i < p.size(); i++) fl.push_back({"text", 8, 'u', p[i]}); if (!single(1029, "text")) break;
        bk.when(t0); for (auto &f : c.out.frames) bk.feed(f); int nl = 0; for (auto &i : group(bk.c)) if (i.type == SbpMsgLog) { std::string s = text_of(i.msg); if (s.rfind("RTCM: ", 0)) continue; nl++; std::string want = "RTCM: " + std::string(p.begin() + 1, p.end()); if (want.size() > 254) want.resize(254); VH_CHECK(s == want && i.sender == snd(stn), "back.text", "log of %zu bytes came back as %zu", p.size() - 1, s.size()); } VH_CHECK(nl == 1, "back.text-count", "log came back %d times", nl); evs("log-round-trip");
      }
    }
  }
}

// any SBP message of the converted types
Bytes some_message(Rng &r, int t, int64_t tm, const Cfg &g) {
  if (t == T_OBS) { auto x = gen_epoch(r, g, true); std::vector<SObs> v; for (auto &y : x) v.push_back(y.o); if (v.size() > 14) v.resize(14); return obs_msg(tm, 0, 0x10, v); }
  static const int LEN[T_N] = {0, 24, 9, -1, -1, -1, -1, -1, -1, -1, 139, 92, 147, 153, -1}; int n = LEN[t] < 0 ? (int)r.below(256) : LEN[t]; Bytes b = r.bytes((size_t)n);
  if (t == T_BASE) { W w; for (int i = 0; i < 3; i++) w.f64(r.uniform(-7e6, 7e6)); return w.b; }
  if (t >= T_GPS && t <= T_GAL) { std::fill(b.begin(), b.end(), 0); b[0] = (uint8_t)(1 + r.below(28)); b[1] = (uint8_t)(t == T_GPS ? CODE_GPS_L1CA : t == T_GLO ? CODE_GLO_L1OF : t == T_BDS ? CODE_BDS2_B1 : CODE_GAL_E1B); uint32_t s = r.below(6000) * 60; memcpy(&b[2], &s, 4); b[6] = 0x60; b[7] = 8; if (t != T_GLO) { b[b.size() - (t == T_GPS ? 9 : t == T_BDS ? 9 : 11) + 4] = 0x60; } }
  return b;
}
void case_conv(Rng &r) {
  int64_t t = pick_rover(r, true); sbp_conv_t cv = sbp_conv_new(); if (!cv) { violate("conv.new", "no converter"); return; }
  Conv c(r); sbp2rtcm_set_leap_second(18, c.st); sbp2rtcm_set_rcv_ant_descriptors("NULL                ", "SWFT", c.st); Cfg g; g.mode = 5; g.leap = true; g.leaps = 18; for (auto &f : g.fcn) f = 255;
  bool keep = r.chance(3, 4); bool starve = !keep && r.chance(3, 4); Bytes want, got; size_t taken = 0; int n = 3 + (int)r.below(starve || r.chance(1, 4) ? 160 : 40); int style = (int)r.below(5); size_t fixedw = 1 + r.below(4096); std::vector<Bytes> frames; size_t level_at_drop = 0; (void)level_at_drop;
  auto call = [&](uint16_t sender, uint16_t type, const Bytes &p, size_t wl) {
    uint8_t *in = (uint8_t *)malloc(p.size() ? p.size() : 1), *o = (uint8_t *)malloc(wl ? wl : 1); if (!p.empty()) memcpy(in, p.data(), p.size()); size_t k = sbp_conv(cv, sender, type, in, p.size(), o, wl);
    VH_CHECK(k <= wl, "conv.overrun", "%zu bytes returned for a buffer of %zu", k, wl); if (k <= wl) { got.insert(got.end(), o, o + k); taken += k; } free(in); free(o); ev("conv-call"); return k;
  };
  auto width = [&]() -> size_t { switch (style) { case 0: return 4096 + r.below(8192); case 1: return 1 + r.below(64); case 2: return fixedw; case 3: return 65536 + r.below(r.chance(1, 2) ? 64 : 140000); default: return r.chance(1, 4) ? 0 : r.below(2000); } };
  for (int i = 0; i < n && !violated(); i++) {
    uint16_t sender = (uint16_t)(r.chance(3, 4) ? 0x1234 : r.bits(16)), type; std::vector<std::pair<int, Bytes>> ms;
    if (r.chance(1, 2)) { auto x = gen_epoch(r, g, true); std::vector<SObs> v; for (auto &y : x) v.push_back(y.o); for (auto &m : obs_msgs(r, t, v)) ms.push_back({T_OBS, m}); t += r.pick(std::vector<int>{100, 1000, 1000, 5000}); }
    else { int k = (int)r.below(T_N); if (k == T_BIAS) k = T_OSR; ms.push_back({k, some_message(r, k, t, g)}); if (r.chance(1, 8)) ms.back().second = r.bytes(r.below(256)); }
    for (auto &m : ms) {
      size_t before = c.out.frames.size(); c.give(m.first, sender, m.second); size_t add = 0; for (size_t q = before; q < c.out.frames.size(); q++) add += c.out.frames[q].size();
      if (keep) while (want.size() - got.size() + add > 8000 && got.size() < want.size() && !violated()) { size_t k = call(0, (uint16_t)r.pick(std::vector<int>{0xFFFF, 0, 0x4B}), Bytes(), 256 + r.below(2000)); VH_CHECK(k > 0, "conv.stuck", "nothing returned with %zu bytes unread", want.size() - got.size()); }
      size_t wl = starve ? r.below(r.chance(1, 40) ? 3000 : 6) : width(); type = type_id(m.first); size_t had = got.size(), k = call(sender, type, m.second, wl); for (size_t q = before; q < c.out.frames.size(); q++) { want.insert(want.end(), c.out.frames[q].begin(), c.out.frames[q].end()); frames.push_back(c.out.frames[q]); }
      if (keep && !violated()) VH_CHECK(k == std::min(wl, want.size() - had), "conv.short", "%zu bytes returned of %zu pending for a buffer of %zu", k, want.size() - had, wl);
    }
  }
  for (int i = 0; i < 2000 && !violated(); i++) { size_t wl = 1 + r.below(2000); size_t k = call(0, 0xFFFF, Bytes(), wl); if (k < wl) break; }
  sbp_conv_delete(cv); if (violated()) return;
  if (keep) {
    size_t i = 0; while (i < want.size() && i < got.size() && want[i] == got[i]) i++;
    VH_CHECK(i == want.size() && i == got.size(), "conv.bytes", "%zu bytes instead of %zu, the first difference is at %zu", got.size(), want.size(), i); ev("stream-compared"); ev("bytes-compared", want.size());
  } else {  // more output than anybody read: only whole frames may be missing
    size_t p = 0, q = 0; while (p < got.size()) { if (p + 6 > got.size()) { violate("conv.torn-frame", "%zu bytes at the end of the output", got.size() - p); break; } size_t len = ((size_t)(got[p + 1] & 3) << 8 | got[p + 2]) + 6; if (p + len > got.size()) { violate("conv.torn-frame", "frame of %zu bytes with %zu left", len, got.size() - p); break; } Bytes f(got.begin() + (long)p, got.begin() + (long)(p + len)); while (q < frames.size() && frames[q] != f) q++; if (q >= frames.size()) { violate("conv.invented-frame", "a frame of %zu bytes at %zu of the output was not produced by the input", len, p); break; } q++; p += len; }
    ev(got.size() == want.size() ? "overflow-none" : "overflow-dropped-whole-frames");
  }
  if (!frames.empty()) nontrivial();
}
// C05
void s_mutate(Rng &r, Bytes &p) {
  int n = 1 + (int)r.below(6);
  for (int i = 0; i < n; i++) switch (r.below(6)) {
    case 0: if (!p.empty()) p[r.below((uint32_t)p.size())] ^= (uint8_t)(1u << r.below(8)); break;
    case 1: if (!p.empty()) p[r.below((uint32_t)p.size())] = (uint8_t)r.bits(8); break;
    case 2: p.resize(r.below((uint32_t)p.size() + 1)); break;
    case 3: { Bytes x = r.bytes(r.below(40)); p.insert(p.end(), x.begin(), x.end()); break; }
    case 4: if (p.size() >= 8) { double d = r.dbl(); memcpy(&p[r.below((uint32_t)p.size() - 7)], &d, 8); } break;
    default: if (p.size() >= 4) { float f = r.flt(); memcpy(&p[r.below((uint32_t)p.size() - 3)], &f, 4); }
  }
  if (p.size() > 255) p.resize(255);
}
void case_s_hostile(Rng &r) {
  int64_t t = r.chance(1, 8) ? (int64_t)r.below(65536) * WEEK + r.range(0, WEEK - 1) : pick_rover(r, true); Conv c(r); Cfg g = configure(r, c, (int)r.below(3) ? 5 : r.chance(1, 2) ? 4 : 0, t); sbp_conv_t cv = r.chance(1, 3) ? sbp_conv_new() : nullptr; int n = 1 + (int)r.below(60);
  for (int i = 0; i < n; i++) {
    if (r.chance(1, 15)) switch (r.below(6)) {
      case 0: sbp2rtcm_set_leap_second((s8)r.bits(8), c.st); break;
      case 1: sbp2rtcm_set_rtcm_out_mode((msm_enum)r.below(10), c.st); break;
      case 2: { sbp_gnss_signal_t sid; sid.sat = (u8)r.bits(8); sid.code = (u8)r.bits(8); sbp2rtcm_set_glo_fcn(sid, (u8)r.bits(8), c.st); break; }
      case 3: sbp2rtcm_set_ant_height(r.dbl(), c.st); break;
      default: { std::string a, b; size_t la = r.below(300), lb = r.below(300); while (a.size() < la) a += (char)(1 + r.below(255)); while (b.size() < lb) b += (char)(1 + r.below(255)); sbp2rtcm_set_rcv_ant_descriptors(a.c_str(), b.c_str(), c.st); }
    }
    int k = r.chance(1, 2) ? (int)T_OBS : (int)r.below(T_N); Bytes p = r.chance(1, 6) ? r.bytes(r.below(256)) : some_message(r, k, t, g); if (k == T_OBS && p.size() >= 11 && r.chance(1, 2)) p[10] = (uint8_t)r.bits(8); if (r.chance(1, 2)) s_mutate(r, p); if (p.size() > 255) p.resize(255);
    uint16_t sender = (uint16_t)(r.chance(3, 4) ? 7 : r.bits(16)); size_t before = c.out.frames.size(); c.give(k, sender, p);
    if (cv) { size_t wl = r.below(3000); uint8_t *in = (uint8_t *)malloc(p.size() ? p.size() : 1), *o = (uint8_t *)malloc(wl ? wl : 1); if (!p.empty()) memcpy(in, p.data(), p.size()); size_t q = sbp_conv(cv, sender, r.chance(1, 20) ? (uint16_t)r.bits(16) : type_id(k), in, p.size(), o, wl); VH_CHECK(q <= wl, "conv.overrun", "%zu bytes for a buffer of %zu", q, wl); if (q <= wl) digest(o, q); free(in); free(o); }
    if (c.out.frames.size() > before) nontrivial(); if (r.chance(1, 5)) t += (int64_t)r.below(3000); c.out.frames.clear();
  }
  if (cv) sbp_conv_delete(cv);
}
