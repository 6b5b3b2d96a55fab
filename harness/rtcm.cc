// librtcm: bit fields (C25), legacy observations (C20), MSM (C21),
// ephemerides (C22), station/text/bias/wrapper messages (C23), SSR (C24),
// numbering (C26), logging (C27), buffer discipline (C07).
// The bit layouts below are written out from RTCM 10403 independently of the
// code under test.
#include "vh.hpp"
#include <array>
#include <memory>
extern "C" {
#include <rtcm3/bits.h>
#include <rtcm3/constants.h>
#include <rtcm3/decode.h>
#include <rtcm3/encode.h>
#include <rtcm3/eph_decode.h>
#include <rtcm3/eph_encode.h>
#include <rtcm3/messages.h>
#include <rtcm3/msm_utils.h>
#include <rtcm3/ssr_decode.h>
#include <rtcm3/sta_decode.h>
#define LIBRTCM_LOG_INTERNAL
#include <rtcm3/logging.h>
rtcm3_rc rtcm_get_sign_magnitude_bitstream(swiftnav_bitstream_t *buff, uint8_t len, s32 *out);
}
using namespace vh;

namespace {
const double CLIGHT = 299792458.0;
typedef std::function<rtcm3_rc(swiftnav_bitstream_t *)> DecF;

// exact-size heap copy: a read past the payload is an ASan report
struct Heap {
  uint8_t *p; size_t n;
  Heap(const Bytes &b) : p((uint8_t *)malloc(b.size() ? b.size() : 1)), n(b.size()) { if (n) memcpy(p, b.data(), n); }
  Heap(size_t k, Rng &r) : p((uint8_t *)malloc(k ? k : 1)), n(k) { for (size_t i = 0; i < k; i++) p[i] = (uint8_t)r.u64(); }
  ~Heap() { free(p); }
  Heap(const Heap &) = delete;
};
template <class M> std::unique_ptr<M> dirty(Rng &r) {
  std::unique_ptr<M> m((M *)::operator new(sizeof(M)));
  memset((void *)m.get(), 0, sizeof(M));
  (void)r;
  return m;
}
rtcm3_rc run_dec(const Bytes &b, size_t nbits, const DecF &f) {
  Heap h(b); swiftnav_bitstream_t bs; swiftnav_bitstream_init(&bs, h.p, (uint32_t)nbits);
  return f(&bs);
}
bool close_to(double a, double b, double tol) { return std::isfinite(a) && std::isfinite(b) && fabs(a - b) <= tol; }

// ---------------------------------------------------------------- C25
void case_bits(Rng &r) {
  size_t n = 1 + r.below(20); Bytes init = r.bytes(n);
  uint32_t nb = (uint32_t)n * 8;
  auto getm = [&](const Bytes &b, uint32_t pos, uint32_t len) { uint64_t v = 0; for (uint32_t i = 0; i < len; i++) v = v << 1 | (b[(pos + i) / 8] >> (7 - (pos + i) % 8) & 1); return v; };
  for (int k = 0; k < 12; k++) {
    uint32_t wmax = k < 6 ? 32 : 64; if (wmax > nb) wmax = nb;
    uint32_t len = 1 + r.below(wmax), pos = r.below(nb - len + 1);
    if (r.chance(1, 4)) pos = nb - len;
    uint64_t v = r.bits(64); uint64_t mask = len == 64 ? ~0ull : (1ull << len) - 1;
    Heap h(init); Bytes want = init;
    int64_t sv = (int64_t)v; if (len < 64) { sv = (int64_t)((v & mask) ^ (1ull << (len - 1))) - (int64_t)(1ull << (len - 1)); }
    uint64_t field = v & mask; int kind = (int)r.below(k < 6 ? 3 : 2);
    if (kind == 2 && len < 2) kind = 0;
    int64_t smv = 0;
    if (k < 6) {
      if (kind == 0) rtcm_setbitu(h.p, pos, len, (uint32_t)v);
      else if (kind == 1) rtcm_setbits(h.p, pos, len, (int32_t)(uint32_t)v);
      else {
        uint64_t mag = v & ((1ull << (len - 1)) - 1); bool neg = r.chance(1, 2) && mag;
        smv = neg ? -(int64_t)mag : (int64_t)mag;
        rtcm_set_sign_magnitude_bit(h.p, pos, (uint8_t)len, smv);
        field = ((uint64_t)neg << (len - 1)) | mag;
      }
    } else if (kind == 0) rtcm_setbitul(h.p, pos, len, v);
    else rtcm_setbitsl(h.p, pos, len, (int64_t)v);
    for (uint32_t i = 0; i < len; i++) {
      uint8_t bit = (uint8_t)(0x80 >> ((pos + i) % 8));
      if (field >> (len - 1 - i) & 1) want[(pos + i) / 8] |= bit; else want[(pos + i) / 8] &= (uint8_t)~bit;
    }
    VH_CHECK(memcmp(h.p, want.data(), n) == 0, "bits.write", "kind %d pos %u len %u value %llx: got %s want %s", kind, pos, len, (unsigned long long)v, hex(h.p, n).c_str(), hex(want).c_str());
    if (k < 6) {
      VH_CHECK(rtcm_getbitu(h.p, pos, (uint8_t)len) == field, "bits.getbitu", "pos %u len %u", pos, len);
      if (kind == 2) VH_CHECK(rtcm_get_sign_magnitude_bit(h.p, pos, (uint8_t)len) == smv, "bits.getsm", "pos %u len %u want %lld", pos, len, (long long)smv);
      else VH_CHECK(rtcm_getbits(h.p, pos, (uint8_t)len) == (int32_t)sv, "bits.getbits", "pos %u len %u want %lld got %d", pos, len, (long long)sv, rtcm_getbits(h.p, pos, (uint8_t)len));
    } else {
      VH_CHECK(rtcm_getbitul(h.p, pos, (uint8_t)len) == field, "bits.getbitul", "pos %u len %u", pos, len);
      VH_CHECK(rtcm_getbitsl(h.p, pos, (uint8_t)len) == sv, "bits.getbitsl", "pos %u len %u want %lld", pos, len, (long long)sv);
    }
    ev("field-write-read");
  }
  // widths no write supports
  {
    Heap h(init); uint32_t pos = r.below(nb); bool wide = r.chance(1, 2); uint64_t v = r.bits(64);
    uint32_t a = wide ? 33 + r.below(60) : 0, b = wide ? 65 + r.below(60) : 0;
    // the buffer is not that wide: nothing may be stored, so nothing is out of bounds
    rtcm_setbitu(h.p, pos, a, (uint32_t)v); rtcm_setbitul(h.p, pos, b, v); rtcm_setbits(h.p, pos, a, (int32_t)(uint32_t)v); rtcm_setbitsl(h.p, pos, b, (int64_t)v);
    VH_CHECK(memcmp(h.p, init.data(), n) == 0, "bits.width", "writes of %u and %u bits at %u: got %s want %s", a, b, pos, hex(h.p, n).c_str(), hex(init).c_str());
    VH_CHECK(rtcm_getbitu(h.p, pos, 0) == 0 && rtcm_getbitul(h.p, pos, 0) == 0, "bits.width", "a field of no bits has a value");
    ev(wide ? "too-wide-write" : "empty-write");
  }
  // sign-magnitude stream reader: a script of reads over the buffer
  {
    Heap h(init); swiftnav_bitstream_t bs; uint32_t lim = r.below(nb + 1); swiftnav_bitstream_init(&bs, h.p, lim);
    uint32_t pos = 0;
    for (int k = 0; k < 10; k++) {
      uint8_t len = (uint8_t)(2 + r.below(31)); s32 out = 12345;
      rtcm3_rc rc = rtcm_get_sign_magnitude_bitstream(&bs, len, &out);
      if (pos + len <= lim) {
        int64_t mag = (int64_t)getm(init, pos + 1, len - 1u), want = getm(init, pos, 1) ? -mag : mag;
        VH_CHECK(rc == RC_OK && out == want, "bits.smstream", "rc %d len %u pos %u got %d want %lld", rc, len, pos, out, (long long)want);
        VH_CHECK(bs.offset == pos + len, "bits.smstream-advance", "offset %u want %u", bs.offset, pos + len);
        pos += len; ev("sign-magnitude-stream-read");
      } else {
        VH_CHECK(rc != RC_OK, "bits.smstream-end", "read past the end accepted: pos %u len %u limit %u", pos, len, lim);
        ev("sign-magnitude-stream-refused"); break;
      }
    }
  }
  nontrivial(); distinct(init.data(), n);
}

// ---------------------------------------------------------------- C20
uint32_t lock_lo(uint32_t i) {  // Table 3.4-2
  if (i < 24) return i;
  if (i < 48) return 2 * i - 24;
  if (i < 72) return 4 * i - 120;
  if (i < 96) return 8 * i - 408;
  if (i < 120) return 16 * i - 1176;
  if (i < 127) return 32 * i - 3096;
  return 937;
}
struct Leg { int num; bool glo, ext, l2; };
const Leg LEG[] = {{1001, 0, 0, 0}, {1002, 0, 1, 0}, {1003, 0, 0, 1}, {1004, 0, 1, 1}, {1010, 1, 1, 0}, {1012, 1, 1, 1}};
DecF leg_dec(int num, rtcm_obs_message *m) {
  switch (num) {
    case 1001: return [m](swiftnav_bitstream_t *b) { return rtcm3_decode_1001_bitstream(b, m); };
    case 1002: return [m](swiftnav_bitstream_t *b) { return rtcm3_decode_1002_bitstream(b, m); };
    case 1003: return [m](swiftnav_bitstream_t *b) { return rtcm3_decode_1003_bitstream(b, m); };
    case 1004: return [m](swiftnav_bitstream_t *b) { return rtcm3_decode_1004_bitstream(b, m); };
    case 1010: return [m](swiftnav_bitstream_t *b) { return rtcm3_decode_1010_bitstream(b, m); };
    default: return [m](swiftnav_bitstream_t *b) { return rtcm3_decode_1012_bitstream(b, m); };
  }
}
uint16_t leg_enc(int num, const rtcm_obs_message *m, uint8_t *b) {
  switch (num) {
    case 1001: return rtcm3_encode_1001(m, b);
    case 1002: return rtcm3_encode_1002(m, b);
    case 1003: return rtcm3_encode_1003(m, b);
    case 1004: return rtcm3_encode_1004(m, b);
    case 1010: return rtcm3_encode_1010(m, b);
    default: return rtcm3_encode_1012(m, b);
  }
}
int leg_hdr_bits(const Leg &L) { return L.glo ? 61 : 64; }
int leg_sat_bits(const Leg &L) {
  int n = 6 + (L.glo ? 1 + 5 + 25 : 1 + 24) + 20 + 7;
  if (L.ext) n += (L.glo ? 7 : 8) + 8;
  if (L.l2) n += 2 + 14 + 20 + 7 + (L.ext ? 8 : 0);
  return n;
}
double prunit(const Leg &L) { return L.glo ? 599584.916 : 299792.458; }
double leg_freq(const Leg &L, int f, int fcn) {
  if (!L.glo) return f == 0 ? 1575.42e6 : 1227.60e6;
  return f == 0 ? 1602e6 + (fcn - 7) * 562500.0 : 1246e6 + (fcn - 7) * 437500.0;
}
void case_legacy_decode(Rng &r) {
  const Leg &L = LEG[r.below(6)];
  struct S { uint32_t sv, code1, fcn, pr, lock1, amb, cnr1, code2, lock2, cnr2; int32_t ppr1, dpr, ppr2; };
  int nsat = (int)r.bits(5); uint32_t stn = (uint32_t)r.bits(12), tow = (uint32_t)r.bits(L.glo ? 27 : 30);
  uint32_t maxtow = L.glo ? 86399999u : 604799999u;
  if (r.chance(4, 5)) tow = r.chance(1, 6) ? maxtow - r.below(3) : (uint32_t)r.range(0, maxtow); else if (r.chance(1, 3)) tow = maxtow + 1;
  uint32_t sync = (uint32_t)r.bits(1), div = (uint32_t)r.bits(1), smo = (uint32_t)r.bits(3);
  BitW w; w.put((uint64_t)L.num, 12); w.put(stn, 12); w.put(tow, L.glo ? 27 : 30); w.put(sync, 1); w.put((uint64_t)nsat, 5); w.put(div, 1); w.put(smo, 3);
  std::vector<S> ss;
  for (int i = 0; i < nsat; i++) {
    S s{}; s.sv = (uint32_t)r.bits(6); s.code1 = (uint32_t)r.bits(1); s.fcn = (uint32_t)r.bits(5);
    if (r.chance(3, 4)) s.fcn = r.below(21);
    s.pr = (uint32_t)r.bits(L.glo ? 25 : 24); if (r.chance(1, 12)) s.pr = 0x80000;
    s.ppr1 = (int32_t)BitR((const uint8_t *)"\0\0\0\0", 4).gets(1); s.ppr1 = (int32_t)((int64_t)(r.bits(20) << 44) >> 44);
    s.lock1 = (uint32_t)r.bits(7); s.amb = (uint32_t)r.bits(L.glo ? 7 : 8); s.cnr1 = (uint32_t)r.bits(8);
    s.code2 = (uint32_t)r.bits(2); s.dpr = (int32_t)((int64_t)(r.bits(14) << 50) >> 50); s.ppr2 = (int32_t)((int64_t)(r.bits(20) << 44) >> 44);
    s.lock2 = (uint32_t)r.bits(7); s.cnr2 = (uint32_t)r.bits(8);
    w.put(s.sv, 6); w.put(s.code1, 1); if (L.glo) w.put(s.fcn, 5); w.put(s.pr, L.glo ? 25 : 24); w.puts(s.ppr1, 20); w.put(s.lock1, 7);
    if (L.ext) { w.put(s.amb, L.glo ? 7 : 8); w.put(s.cnr1, 8); }
    if (L.l2) { w.put(s.code2, 2); w.puts(s.dpr, 14); w.puts(s.ppr2, 20); w.put(s.lock2, 7); if (L.ext) w.put(s.cnr2, 8); }
    ss.push_back(s);
  }
  if ((size_t)(leg_hdr_bits(L) + nsat * leg_sat_bits(L)) != w.n) { violate("harness.layout", "bits"); return; }
  auto m = dirty<rtcm_obs_message>(r); auto dec = leg_dec(L.num, m.get());
  size_t nb = w.n; bool trunc = r.chance(1, 8); Bytes b = w.b;
  if (trunc) { nb = r.below((uint32_t)nb); b.resize((nb + 7) / 8); }
  rtcm3_rc rc = run_dec(b, nb, dec);
  if (trunc) { VH_CHECK(rc != RC_OK, "legacy.truncated", "%d: %zu of %zu bits accepted", L.num, nb, w.n); ev("truncated-refused"); return; }
  if (tow > maxtow) { VH_CHECK(rc == RC_INVALID_MESSAGE, "legacy.tow", "%d: tow %u accepted rc %d", L.num, tow, rc); ev("bad-tow-refused"); return; }
  VH_CHECK(rc == RC_OK, "legacy.refused", "%d refused rc %d", L.num, rc); if (rc != RC_OK) return;
  const rtcm_obs_header &h = m->header;
  VH_CHECK(h.msg_num == L.num && h.stn_id == stn && h.tow_ms == tow && h.sync == sync && h.n_sat == nsat && h.div_free == div && h.smooth == smo, "legacy.header", "%d header", L.num);
  for (int i = 0; i < nsat; i++) {
    const S &s = ss[(size_t)i]; const rtcm_sat_data &d = m->sats[i]; const rtcm_freq_data &f1 = d.obs[0], &f2 = d.obs[1];
    VH_CHECK(d.svId == s.sv && (!L.glo || d.fcn == s.fcn) && f1.code == s.code1, "legacy.sat", "%d sat %d id/fcn/code", L.num, i);
    double pr1 = s.pr * 0.02 + (L.ext ? s.amb * prunit(L) : 0.0);
    bool vpr1 = s.pr != 0x80000 || f1.flags.fields.valid_pr /* the one pattern the library treats specially */, fcn_ok = !L.glo || s.fcn <= 20, vcp1 = s.ppr1 != -524288 && fcn_ok;
    VH_CHECK(f1.flags.fields.valid_pr == vpr1, "legacy.l1-pr-valid", "%d sat %d field %x valid %d", L.num, i, s.pr, f1.flags.fields.valid_pr);
    if (vpr1) VH_CHECK(close_to(f1.pseudorange, pr1, 1e-4), "legacy.l1-pr", "%d sat %d %.4f want %.4f", L.num, i, f1.pseudorange, pr1);
    VH_CHECK(f1.flags.fields.valid_cp == vcp1 && f1.flags.fields.valid_lock == vcp1, "legacy.l1-cp-valid", "%d sat %d", L.num, i);
    if (vcp1 && vpr1) { double cp = (pr1 + 0.0005 * s.ppr1) * leg_freq(L, 0, (int)s.fcn) / CLIGHT; VH_CHECK(close_to(f1.carrier_phase, cp, 1e-3), "legacy.l1-cp", "%d sat %d %.5f want %.5f", L.num, i, f1.carrier_phase, cp); }
    VH_CHECK(f1.lock == lock_lo(s.lock1), "legacy.l1-lock", "%d sat %d ind %u -> %g", L.num, i, s.lock1, f1.lock);
    if (L.ext) {
      VH_CHECK(f1.flags.fields.valid_cnr == (s.cnr1 != 0), "legacy.l1-cnr-valid", "%d", L.num);
      if (s.cnr1) VH_CHECK(f1.cnr == s.cnr1 * 0.25, "legacy.l1-cnr", "%d %g", L.num, f1.cnr);
    }
    if (L.l2) {
      bool vpr2 = s.dpr != -8192, vcp2 = s.ppr2 != -524288 && fcn_ok;
      VH_CHECK(f2.code == s.code2, "legacy.l2-code", "%d", L.num);
      VH_CHECK(f2.flags.fields.valid_pr == vpr2, "legacy.l2-pr-valid", "%d sat %d", L.num, i);
      if (vpr2) VH_CHECK(close_to(f2.pseudorange, pr1 + 0.02 * s.dpr, 1e-4), "legacy.l2-pr", "%d sat %d", L.num, i);
      VH_CHECK(f2.flags.fields.valid_cp == vcp2 && f2.flags.fields.valid_lock == vcp2, "legacy.l2-cp-valid", "%d sat %d fcn %u", L.num, i, s.fcn);
      if (vcp2) { double cp = (pr1 + 0.0005 * s.ppr2) * leg_freq(L, 1, (int)s.fcn) / CLIGHT; VH_CHECK(close_to(f2.carrier_phase, cp, 1e-3), "legacy.l2-cp", "%d sat %d %.5f want %.5f", L.num, i, f2.carrier_phase, cp); }
      VH_CHECK(f2.lock == lock_lo(s.lock2), "legacy.l2-lock", "%d", L.num);
      if (L.ext) {
        VH_CHECK(f2.flags.fields.valid_cnr == (s.cnr2 != 0), "legacy.l2-cnr-valid", "%d", L.num);
        if (s.cnr2) VH_CHECK(f2.cnr == s.cnr2 * 0.25, "legacy.l2-cnr", "%d", L.num);
      }
    }
    ev("legacy-sat-decoded");
  }
  evs(fmt("legacy-decoded-%d", L.num)); if (nsat) nontrivial(); distinct(w.b.data(), w.b.size());
  // another decoder must refuse it
  const Leg &O = LEG[r.below(6)];
  if (O.num != L.num) { auto m2 = dirty<rtcm_obs_message>(r); rtcm3_rc rc2 = run_dec(w.b, w.n, leg_dec(O.num, m2.get())); VH_CHECK(rc2 != RC_OK, "legacy.mismatch", "%d decoder accepted %d", O.num, L.num); }
}
void case_legacy_roundtrip(Rng &r) {
  const Leg &L = LEG[r.below(6)];
  auto m = dirty<rtcm_obs_message>(r); rtcm_obs_header &h = m->header;
  h.msg_num = (uint16_t)L.num; h.stn_id = (uint16_t)r.bits(12); uint32_t maxtow = L.glo ? 86399999u : 604799999u;
  h.tow_ms = r.chance(1, 8) ? maxtow - r.below(2) : (uint32_t)r.range(0, maxtow);
  h.sync = (uint8_t)r.bits(1); h.div_free = (uint8_t)r.bits(1); h.smooth = (uint8_t)r.bits(3);
  h.n_sat = (uint8_t)(r.chance(1, 10) ? 31 + r.below(2) : r.below(33));
  bool allv = r.chance(1, 3);
  std::vector<int> kept;
  for (int i = 0; i < h.n_sat; i++) {
    rtcm_sat_data &s = m->sats[i]; s.svId = (uint8_t)r.range(1, 63); s.fcn = (uint8_t)r.below(L.glo ? 21 : 1);
    double pr = r.uniform(0, prunit(L) * (L.glo ? 127.9 : 255.9)); if (r.chance(1, 10)) pr = prunit(L) * r.below(L.glo ? 127 : 255) + r.uniform(0, 0.05);
    if (r.chance(1, 10)) pr = prunit(L) * (1 + r.below(100)) - r.uniform(0, 0.05);
    bool far = L.ext && r.chance(1, 25); if (far) pr = r.chance(1, 4) ? -r.uniform(1, 1e6) : prunit(L) * (L.glo ? 128 : 256) + r.uniform(1, 1e8);
    for (int f = 0; f < 2; f++) {
      rtcm_freq_data &o = s.obs[f]; bool v = allv || r.chance(5, 6);
      o.flags.fields.valid_pr = allv || r.chance(5, 6); o.flags.fields.valid_cp = v;
      o.pseudorange = f == 0 ? pr : pr + r.uniform(-100, 100);
      if (f == 1 && r.chance(1, 12)) o.pseudorange = pr + r.uniform(-400, 400);
      double div = r.uniform(-250, 250); if (r.chance(1, 4)) div = r.uniform(-5000, 5000); if (r.chance(1, 6)) div = (r.chance(1, 2) ? 1 : -1) * (262.144 + r.uniform(-0.002, 0.002));
      if (r.chance(1, 20)) div = r.uniform(-1, 1) * 1e7;
      o.carrier_phase = (pr + div) * leg_freq(L, f, s.fcn) / CLIGHT;
      o.flags.fields.valid_lock = o.flags.fields.valid_cp;
      o.lock = r.chance(1, 4) ? lock_lo(r.below(128)) + (r.chance(1, 2) ? 0 : 0.99) : r.uniform(0, r.chance(1, 2) ? 1000 : 1e6);
      o.flags.fields.valid_cnr = r.chance(5, 6); o.cnr = o.flags.fields.valid_cnr ? 0.25 * (double)r.range(1, 255) + r.uniform(-0.12, 0.12) : r.uniform(0, 60);
      if (o.cnr > 63.75) o.cnr = 63.75;
    }
    bool v1 = s.obs[0].flags.fields.valid_pr && s.obs[0].flags.fields.valid_cp;
    bool v2 = s.obs[1].flags.fields.valid_pr && s.obs[1].flags.fields.valid_cp;
    if (far && v1) { ev("legacy-out-of-range"); continue; }
    if (L.num == 1003 ? v1 && v2 : v1) kept.push_back(i);
  }
  if (kept.size() > 31) { kept.resize(31); ev("legacy-32-sats"); }
  size_t bits = (size_t)(leg_hdr_bits(L) + (int)kept.size() * leg_sat_bits(L));
  Heap out((bits + 7) / 8, r);
  uint16_t n = leg_enc(L.num, m.get(), out.p);
  VH_CHECK(n == out.n, "legacy.length", "%d: %u bytes reported, %zu expected", L.num, n, out.n); if (n != out.n) return;
  Bytes b(out.p, out.p + n);
  // the header as the standard lays it out
  BitR br(b.data(), b.size());
  VH_CHECK(br.get(12) == (uint64_t)L.num && br.get(12) == h.stn_id && br.get(L.glo ? 27 : 30) == h.tow_ms && br.get(1) == h.sync && br.get(5) == kept.size() && br.get(1) == h.div_free && br.get(3) == h.smooth, "legacy.enc-header", "%d", L.num);
  for (int i : kept) {  // raw fields
    const rtcm_sat_data &s = m->sats[i]; const rtcm_freq_data &a = s.obs[0], &c = s.obs[1];
    VH_CHECK(br.get(6) == s.svId, "legacy.enc-sv", "%d", L.num); br.get(1); if (L.glo) VH_CHECK(br.get(5) == s.fcn, "legacy.enc-fcn", "%d", L.num);
    uint64_t prf = br.get(L.glo ? 25 : 24); int64_t ppr = br.gets(20); uint64_t lk = br.get(7);
    double res = a.pseudorange - prf * 0.02, amb = std::round(res / prunit(L));
    VH_CHECK(fabs(res - amb * prunit(L)) <= 0.0101, "legacy.enc-pr", "%d sat %d pr %.4f field %llu", L.num, i, a.pseudorange, (unsigned long long)prf);
    VH_CHECK(a.lock >= lock_lo((uint32_t)lk) && (lk == 127 || a.lock < lock_lo((uint32_t)lk + 1)), "legacy.enc-lock", "%d lock %g ind %llu", L.num, a.lock, (unsigned long long)lk);
    VH_CHECK(ppr > -524288, "legacy.enc-cp-lost", "%d sat %d valid phase encoded as invalid", L.num, i);
    if (L.ext) {
      uint64_t af = br.get(L.glo ? 7 : 8), cf = br.get(8);
      VH_CHECK((double)af == amb || prf == 0x80000, "legacy.enc-amb", "%d sat %d amb %llu want %g", L.num, i, (unsigned long long)af, amb);
      VH_CHECK(cf == (a.flags.fields.valid_cnr ? (uint64_t)std::round(a.cnr * 4) : 0), "legacy.enc-cnr", "%d cnr %g valid %d field %llu", L.num, a.cnr, a.flags.fields.valid_cnr, (unsigned long long)cf);
    }
    if (L.l2) {
      br.get(2); br.gets(14); br.gets(20); lk = br.get(7);
      VH_CHECK(c.flags.fields.valid_lock ? (c.lock >= lock_lo((uint32_t)lk) && (lk == 127 || c.lock < lock_lo((uint32_t)lk + 1))) : lk == 0, "legacy.enc-lock2", "%d lock %g ind %llu", L.num, c.lock, (unsigned long long)lk);
      if (L.ext) { uint64_t cf = br.get(8); VH_CHECK(cf == (c.flags.fields.valid_cnr ? (uint64_t)std::round(c.cnr * 4) : 0), "legacy.enc-cnr2", "%d", L.num); }
    }
  }
  auto d = dirty<rtcm_obs_message>(r);
  rtcm3_rc rc = run_dec(b, b.size() * 8, leg_dec(L.num, d.get()));
  VH_CHECK(rc == RC_OK, "legacy.rt-refused", "%d rc %d", L.num, rc); if (rc != RC_OK) return;
  VH_CHECK(d->header.n_sat == kept.size() && d->header.tow_ms == h.tow_ms && d->header.stn_id == h.stn_id && d->header.sync == h.sync, "legacy.rt-header", "%d: %d sats want %zu", L.num, d->header.n_sat, kept.size());
  for (size_t k = 0; k < kept.size() && k < d->header.n_sat; k++) {
    const rtcm_sat_data &s = m->sats[kept[k]], &t = d->sats[k];
    VH_CHECK(t.svId == s.svId && (!L.glo || t.fcn == s.fcn), "legacy.rt-sat", "%d", L.num);
    double off = s.obs[0].pseudorange - t.obs[0].pseudorange; double amb = L.ext ? 0 : std::round(off / prunit(L)) * prunit(L);
    for (int f = 0; f < (L.l2 ? 2 : 1); f++) {
      const rtcm_freq_data &o = s.obs[f], &q = t.obs[f]; double lam = CLIGHT / leg_freq(L, f, s.fcn);
      double dpr = s.obs[1].pseudorange - s.obs[0].pseudorange;
      bool fits = f == 0 || fabs(dpr) < 163.79, nofit = f == 1 && fabs(dpr) > 163.85;
      // the L1 value that collides with the standard's "invalid" pattern cannot be told apart
      bool collide = f == 0 && fabs(std::fmod(o.pseudorange, prunit(L)) - 0x80000 * 0.02) < 0.011;
      if (!collide && fits) VH_CHECK(q.flags.fields.valid_pr == o.flags.fields.valid_pr, "legacy.rt-pr-valid", "%d f%d", L.num, f);
      if (nofit) VH_CHECK(!q.flags.fields.valid_pr, "legacy.rt-pr-range", "%d L2-L1 %.3f m decodes as %.3f", L.num, dpr, q.pseudorange - t.obs[0].pseudorange);
      if (q.flags.fields.valid_pr && o.flags.fields.valid_pr && fits) VH_CHECK(close_to(q.pseudorange + amb, o.pseudorange, 0.0101 + 0.02 * f), "legacy.rt-pr", "%d f%d %.4f want %.4f", L.num, f, q.pseudorange + amb, o.pseudorange);
      VH_CHECK(q.flags.fields.valid_cp == o.flags.fields.valid_cp, "legacy.rt-cp-valid", "%d f%d cp-pr %.6f m", L.num, f, o.carrier_phase * lam - s.obs[0].pseudorange);
      if (q.flags.fields.valid_cp && o.flags.fields.valid_cp && !collide) {
        double e = q.carrier_phase + amb / lam - o.carrier_phase, roll = std::round(e / 1500) * 1500;
        VH_CHECK(fabs(e - roll) * lam <= 0.00026 + 1e-6, "legacy.rt-cp", "%d f%d %.5f want %.5f", L.num, f, q.carrier_phase, o.carrier_phase);
        double div = o.carrier_phase * lam - s.obs[0].pseudorange;
        if (fabs(div) < 262.1) VH_CHECK(roll == 0, "legacy.rt-cp-roll", "%d f%d rolled over although %.3f m fits", L.num, f, div);
      }
      if (L.ext) {
        VH_CHECK(q.flags.fields.valid_cnr == o.flags.fields.valid_cnr, "legacy.rt-cnr-valid", "%d f%d", L.num, f);
        if (o.flags.fields.valid_cnr) VH_CHECK(close_to(q.cnr, o.cnr, 0.1251), "legacy.rt-cnr", "%d f%d %g want %g", L.num, f, q.cnr, o.cnr);
      }
      ev("legacy-signal-roundtrip");
    }
  }
  if (!kept.empty()) nontrivial(); distinct(b.data(), b.size());
}

// ---------------------------------------------------------------- C21
double lock4(uint32_t i) { return i == 0 ? 0.0 : 0.016 * (double)(1u << i); }
uint32_t lock10_ms(uint32_t i) {
  if (i > 704) i = 704;
  uint32_t v = 0;
  for (uint32_t k = 0; k < i; k++) v += k < 64 ? 1 : 1u << ((k - 64) / 32 + 1);
  return v;
}
rtcm3_rc msm_dec(int type, swiftnav_bitstream_t *b, rtcm_msm_message *m) {
  switch (type) {
    case 4: return rtcm3_decode_msm4_bitstream(b, m);
    case 5: return rtcm3_decode_msm5_bitstream(b, m);
    case 6: return rtcm3_decode_msm6_bitstream(b, m);
    default: return rtcm3_decode_msm7_bitstream(b, m);
  }
}
const int MSM_BASE[] = {1070, 1080, 1090, 1100, 1110, 1120};  // GPS GLO GAL SBAS QZS BDS
struct Masks { std::vector<int> sats, sigs, cells; bool sm[64] = {}, gm[32] = {}; std::vector<bool> cm; };
Masks rand_masks(Rng &r, bool legal) {
  Masks k; int ns, ng;
  do {
    ns = (int)r.below(legal ? (r.chance(1, 8) ? 65 : 20) : 65); ng = (int)r.below(legal ? (r.chance(1, 8) ? 33 : 6) : 33);
    if (r.chance(1, 10)) { ng = 1; ns = (int)r.range(30, 64); }
    if (r.chance(1, 10)) { static const int P[][2] = {{64, 1}, {32, 2}, {16, 4}, {8, 8}, {2, 32}, {4, 16}}; const int *p = P[r.below(6)]; ns = p[0]; ng = p[1]; }
  } while (legal && ns * ng > 64);
  while ((int)k.sats.size() < ns) { int s = (int)r.below(64); if (!k.sm[s]) { k.sm[s] = true; k.sats.push_back(s); } }
  while ((int)k.sigs.size() < ng) { int s = (int)r.below(32); if (!k.gm[s]) { k.gm[s] = true; k.sigs.push_back(s); } }
  k.sats.clear(); k.sigs.clear();
  for (int i = 0; i < 64; i++) if (k.sm[i]) k.sats.push_back(i);
  for (int i = 0; i < 32; i++) if (k.gm[i]) k.sigs.push_back(i);
  int dens = (int)r.below(4);
  for (int i = 0; i < ns * ng; i++) { bool c = dens == 0 || r.chance((uint32_t)dens, 4); k.cm.push_back(c); if (c) k.cells.push_back(i); }
  return k;
}
void case_msm_decode(Rng &r) {
  int c = (int)r.below(6), type = 4 + (int)r.below(4), num = MSM_BASE[c] + type; bool glo = c == 1, bds = c == 5;
  bool legal = !r.chance(1, 12); Masks k = rand_masks(r, legal);
  bool toobig = k.sats.size() * k.sigs.size() > 64;
  uint32_t stn = (uint32_t)r.bits(12), dow = (uint32_t)r.bits(3), mult = (uint32_t)r.bits(1), iods = (uint32_t)r.bits(3), resv = (uint32_t)r.bits(7), steer = (uint32_t)r.bits(2), ext = (uint32_t)r.bits(2), div = (uint32_t)r.bits(1), smo = (uint32_t)r.bits(3);
  uint32_t maxtow = glo ? 86399999u : 604799999u, tow = (uint32_t)r.bits(glo ? 27 : 30);
  if (r.chance(5, 6)) tow = r.chance(1, 6) ? maxtow - r.below(3) : (uint32_t)r.range(0, maxtow);
  if (bds && r.chance(1, 6)) tow = (1u << 30) - (uint32_t)r.range(1, 14000);
  if (bds && r.chance(1, 10)) tow = (1u << 30) - (uint32_t)r.range(14001, 14010);
  int64_t wtow = tow; if (bds && tow >= (1u << 30) - 14000u) wtow = 604800000ll - ((1ll << 30) - (int64_t)tow);
  BitW w; w.put((uint64_t)num, 12); w.put(stn, 12); if (glo) { w.put(dow, 3); w.put(tow, 27); } else w.put(tow, 30);
  w.put(mult, 1); w.put(iods, 3); w.put(resv, 7); w.put(steer, 2); w.put(ext, 2); w.put(div, 1); w.put(smo, 3);
  for (int i = 0; i < 64; i++) w.put(k.sm[i], 1);
  for (int i = 0; i < 32; i++) w.put(k.gm[i], 1);
  for (bool x : k.cm) w.put(x, 1);
  size_t ns = k.sats.size(), nc = k.cells.size(); bool e = type == 5 || type == 7, x = type >= 6;
  std::vector<uint32_t> ims, info, mod, lock, cnr; std::vector<int> hca; std::vector<int64_t> rate, pr, cp, dop;
  for (size_t i = 0; i < ns; i++) { ims.push_back(r.chance(1, 6) ? 255 : (uint32_t)r.bits(8)); w.put(ims[i], 8); }
  for (size_t i = 0; i < ns && e; i++) { info.push_back((uint32_t)r.bits(4)); w.put(info[i], 4); }
  for (size_t i = 0; i < ns; i++) { mod.push_back((uint32_t)r.bits(10)); w.put(mod[i], 10); }
  auto sgn = [&](int n) { return (int64_t)(r.bits(n) << (64 - n)) >> (64 - n); };
  for (size_t i = 0; i < ns && e; i++) { rate.push_back(sgn(14)); w.puts(rate[i], 14); }
  int prn = x ? 20 : 15, cpn = x ? 24 : 22;
  for (size_t i = 0; i < nc; i++) { pr.push_back(sgn(prn)); w.puts(pr[i], prn); }
  for (size_t i = 0; i < nc; i++) { cp.push_back(sgn(cpn)); w.puts(cp[i], cpn); }
  for (size_t i = 0; i < nc; i++) { lock.push_back((uint32_t)r.bits(x ? 10 : 4)); if (x && r.chance(1, 2)) lock.back() = r.below(706); w.put(lock[i], x ? 10 : 4); }
  for (size_t i = 0; i < nc; i++) { hca.push_back((int)r.bits(1)); w.put((uint64_t)hca[i], 1); }
  for (size_t i = 0; i < nc; i++) { cnr.push_back((uint32_t)r.bits(x ? 10 : 6)); w.put(cnr[i], x ? 10 : 6); }
  for (size_t i = 0; i < nc && e; i++) { dop.push_back(sgn(15)); w.puts(dop[i], 15); }
  auto m = dirty<rtcm_msm_message>(r); size_t nb = w.n; Bytes b = w.b;
  bool trunc = r.chance(1, 8); if (trunc) { nb = r.below((uint32_t)nb); b.resize((nb + 7) / 8); }
  rtcm3_rc rc = run_dec(b, nb, [&](swiftnav_bitstream_t *s) { return msm_dec(type, s, m.get()); });
  if (trunc) { VH_CHECK(rc != RC_OK, "msm.truncated", "%d: %zu of %zu bits accepted", num, nb, w.n); ev("truncated-refused"); return; }
  if (toobig) { VH_CHECK(rc == RC_INVALID_MESSAGE, "msm.cells", "%d: %zu x %zu cells accepted rc %d", num, ns, k.sigs.size(), rc); ev("msm-too-many-cells-refused"); return; }
  if (wtow > maxtow) { VH_CHECK(rc == RC_INVALID_MESSAGE, "msm.tow", "%d tow %u rc %d", num, tow, rc); ev("bad-tow-refused"); return; }
  VH_CHECK(rc == RC_OK, "msm.refused", "%d rc %d (%zu sats %zu sigs)", num, rc, ns, k.sigs.size()); if (rc != RC_OK) return;
  const rtcm_msm_header &h = m->header;
  VH_CHECK(h.msg_num == num && h.stn_id == stn && h.tow_ms == (uint32_t)wtow && h.multiple == mult && h.iods == iods && h.reserved == resv && h.steering == steer && h.ext_clock == ext && h.div_free == div && h.smooth == smo, "msm.header", "%d header: tow %u want %lld", num, h.tow_ms, (long long)wtow);
  for (int i = 0; i < 64; i++) VH_CHECK(h.satellite_mask[i] == k.sm[i], "msm.satmask", "%d bit %d", num, i);
  for (int i = 0; i < 32; i++) VH_CHECK(h.signal_mask[i] == k.gm[i], "msm.sigmask", "%d bit %d", num, i);
  for (size_t i = 0; i < k.cm.size(); i++) VH_CHECK(h.cell_mask[i] == k.cm[i], "msm.cellmask", "%d bit %zu", num, i);
  for (size_t i = 0; i < ns; i++) {
    double rr = ims[i] == 255 ? 255.0 : ims[i] + mod[i] / 1024.0;
    if (ims[i] != 255) VH_CHECK(m->sats[i].rough_range_ms == rr, "msm.rough", "%d sat %zu of %zu: %.6f want %.6f", num, i, ns, m->sats[i].rough_range_ms, rr);
    if (e && rate[i] != -8192) VH_CHECK(m->sats[i].rough_range_rate_m_s == (double)rate[i], "msm.rough-rate", "%d sat %zu", num, i);
    if (e) VH_CHECK(m->sats[i].glo_fcn == info[i], "msm.info", "%d sat %zu info %u got %u", num, i, info[i], m->sats[i].glo_fcn);
    else if (glo) VH_CHECK(m->sats[i].glo_fcn == MSM_GLO_FCN_UNKNOWN, "msm.fcn-unknown", "%d", num);
  }
  for (size_t i = 0; i < nc; i++) {
    size_t s = (size_t)k.cells[i] / k.sigs.size(); const rtcm_msm_signal_data &q = m->signals[i];
    bool vr = ims[s] != 255, vpr = vr && pr[i] != -(1ll << (prn - 1)), vcp = vr && cp[i] != -(1ll << (cpn - 1)), vd = e && rate[s] != -8192 && dop[i] != -16384;
    double rr = ims[s] + mod[s] / 1024.0;
    VH_CHECK(q.flags.fields.valid_pr == vpr && q.flags.fields.valid_cp == vcp && q.flags.fields.valid_dop == vd && q.flags.fields.valid_cnr == (cnr[i] != 0) && q.flags.fields.valid_lock == 1, "msm.validity", "%d cell %zu flags %x (pr %d cp %d dop %d cnr %u)", num, i, q.flags.data, vpr, vcp, vd, cnr[i]);
    if (vpr) VH_CHECK(close_to(q.pseudorange_ms, rr + ldexp((double)pr[i], x ? -29 : -24), 1e-12), "msm.pr", "%d cell %zu", num, i);
    if (vcp) VH_CHECK(close_to(q.carrier_phase_ms, rr + ldexp((double)cp[i], x ? -31 : -29), 1e-12), "msm.cp", "%d cell %zu", num, i);
    if (vd) VH_CHECK(close_to(q.range_rate_m_s, (double)rate[s] + 0.0001 * (double)dop[i], 1e-9), "msm.dop", "%d cell %zu", num, i);
    if (cnr[i]) VH_CHECK(q.cnr == (x ? cnr[i] / 16.0 : (double)cnr[i]), "msm.cnr", "%d cell %zu %g", num, i, q.cnr);
    double lk = x ? lock10_ms(lock[i]) / 1000.0 : lock4(lock[i]);
    VH_CHECK(close_to(q.lock_time_s, lk, 1e-9), "msm.lock", "%d cell %zu ind %u: %g want %g", num, i, lock[i], q.lock_time_s, lk);
    VH_CHECK(q.hca_indicator == (hca[i] != 0), "msm.hca", "%d cell %zu", num, i);
    ev("msm-signal-decoded");
  }
  evs(fmt("msm-decoded-%d", num)); if (ns > 32) ev("msm-over-32-sats"); if (nc) nontrivial(); distinct(w.b.data(), w.b.size());
  int other = 4 + (int)r.below(4);
  if (other != type) { rtcm3_rc rc2 = run_dec(w.b, w.n, [&](swiftnav_bitstream_t *s) { return msm_dec(other, s, m.get()); }); VH_CHECK(rc2 == RC_MESSAGE_TYPE_MISMATCH, "msm.mismatch", "MSM%d decoder on %d: %d", other, num, rc2); }
}
void case_msm_roundtrip(Rng &r) {
  int c = (int)r.below(6), type = 4 + (int)r.below(2), num = MSM_BASE[c] + type; bool glo = c == 1;
  bool legal = !r.chance(1, 16); Masks k = rand_masks(r, legal); bool toobig = k.sats.size() * k.sigs.size() > 64;
  auto m = dirty<rtcm_msm_message>(r); rtcm_msm_header &h = m->header;
  h.msg_num = (uint16_t)num; h.stn_id = (uint16_t)r.bits(12); h.tow_ms = r.chance(1, 8) ? 604799999u - r.below(2) : (uint32_t)r.range(0, 604799999);
  if (r.chance(1, 8)) h.tow_ms = 86400000u * r.below(7) + r.below(2);
  h.multiple = (uint8_t)r.bits(1); h.iods = (uint8_t)r.bits(3); h.reserved = (uint8_t)r.bits(7); h.steering = (uint8_t)r.bits(2); h.ext_clock = (uint8_t)r.bits(2); h.div_free = (uint8_t)r.bits(1); h.smooth = (uint8_t)r.bits(3);
  for (int i = 0; i < 64; i++) h.satellite_mask[i] = k.sm[i];
  for (int i = 0; i < 32; i++) h.signal_mask[i] = k.gm[i];
  for (size_t i = 0; i < k.cm.size() && i < 64; i++) h.cell_mask[i] = k.cm[i];
  size_t ns = k.sats.size(), nc = k.cells.size(), ng = k.sigs.size();
  if (toobig) {
    Heap out(1, r); uint16_t n = type == 4 ? rtcm3_encode_msm4(m.get(), out.p) : rtcm3_encode_msm5(m.get(), out.p);
    VH_CHECK(n == 0, "msm.enc-cells", "%d: %zu x %zu cells encoded to %u bytes", num, ns, ng, n); ev("msm-too-many-cells-refused"); return;
  }
  for (size_t i = 0; i < ns; i++) {
    double rr = r.uniform(0, 254.9); switch (r.below(8)) { case 0: rr = (double)r.below(255) + r.below(1024) / 1024.0; break; case 1: rr = (double)r.range(1, 254) - r.uniform(0, 0.001); break; case 2: rr = r.below(255); break; default: break; }
    m->sats[i].rough_range_ms = rr; m->sats[i].rough_range_rate_m_s = r.chance(1, 4) ? (double)r.range(-8190, 8190) : r.uniform(-8190, 8190); m->sats[i].glo_fcn = (uint8_t)r.bits(4);
  }
  for (size_t i = 0; i < nc; i++) {
    rtcm_msm_signal_data &q = m->signals[i]; size_t s = (size_t)k.cells[i] / ng; double rr = m->sats[s].rough_range_ms;
    q.flags.fields.valid_pr = r.chance(7, 8); q.flags.fields.valid_cp = r.chance(7, 8); q.flags.fields.valid_cnr = r.chance(7, 8); q.flags.fields.valid_lock = r.chance(7, 8); q.flags.fields.valid_dop = r.chance(7, 8);
    q.pseudorange_ms = rr + r.uniform(-1, 1) * ldexp(0.45, -10); q.carrier_phase_ms = rr + r.uniform(-1, 1) * ldexp(0.85, -8);
    if (r.chance(1, 10)) q.pseudorange_ms = rr + r.uniform(-1, 1) * ldexp(4.0, -10);
    if (r.chance(1, 10)) q.carrier_phase_ms = rr + r.uniform(-1, 1) * ldexp(4.0, -8);
    q.range_rate_m_s = m->sats[s].rough_range_rate_m_s + r.uniform(-0.6, 0.6); if (r.chance(1, 10)) q.range_rate_m_s += r.uniform(-4, 4);
    q.cnr = r.chance(1, 4) ? (double)r.range(1, 63) : r.uniform(0.6, 63.75); q.hca_indicator = r.chance(1, 2);
    q.lock_time_s = r.chance(1, 3) ? lock4(r.below(16)) : r.chance(1, 3) ? std::nextafter(lock4(1 + r.below(15)), 0.0) : r.uniform(0, r.chance(1, 2) ? 1 : 1000);
  }
  size_t bits = 169 + k.cm.size() + ns * (type == 5 ? 36 : 18) + nc * (type == 5 ? 63 : 48);
  Heap out((bits + 7) / 8, r);
  uint16_t n = type == 4 ? rtcm3_encode_msm4(m.get(), out.p) : rtcm3_encode_msm5(m.get(), out.p);
  VH_CHECK(n == out.n, "msm.length", "%d: %u bytes, %zu expected", num, n, out.n); if (n != out.n) return;
  Bytes b(out.p, out.p + n); BitR br(b.data(), b.size());
  VH_CHECK(br.get(12) == (uint64_t)num && br.get(12) == h.stn_id, "msm.enc-header", "%d", num);
  if (glo) { VH_CHECK(br.get(3) == h.tow_ms / 86400000u, "msm.enc-dow", "%d tow %u", num, h.tow_ms); VH_CHECK(br.get(27) == h.tow_ms % 86400000u, "msm.enc-tod", "%d", num); }
  else VH_CHECK(br.get(30) == h.tow_ms, "msm.enc-tow", "%d", num);
  VH_CHECK(br.get(1) == h.multiple && br.get(3) == h.iods && br.get(7) == h.reserved && br.get(2) == h.steering && br.get(2) == h.ext_clock && br.get(1) == h.div_free && br.get(3) == h.smooth, "msm.enc-header", "%d", num);
  auto d = dirty<rtcm_msm_message>(r);
  rtcm3_rc rc = run_dec(b, b.size() * 8, [&](swiftnav_bitstream_t *s) { return msm_dec(type, s, d.get()); });
  VH_CHECK(rc == RC_OK, "msm.rt-refused", "%d rc %d", num, rc); if (rc != RC_OK) return;
  VH_CHECK(d->header.stn_id == h.stn_id && d->header.tow_ms == (glo ? h.tow_ms % 86400000u : h.tow_ms) && d->header.multiple == h.multiple && d->header.iods == h.iods, "msm.rt-header", "%d", num);
  VH_CHECK(memcmp(d->header.satellite_mask, h.satellite_mask, 64) == 0 && memcmp(d->header.signal_mask, h.signal_mask, 32) == 0 && memcmp(d->header.cell_mask, h.cell_mask, k.cm.size()) == 0, "msm.rt-masks", "%d", num);
  for (size_t i = 0; i < ns; i++) {
    VH_CHECK(close_to(d->sats[i].rough_range_ms, m->sats[i].rough_range_ms, 0.5 / 1024 + 1e-9) || m->sats[i].rough_range_ms > 254.999, "msm.rt-rough", "%d sat %zu of %zu: %.7f want %.7f", num, i, ns, d->sats[i].rough_range_ms, m->sats[i].rough_range_ms);
    if (type == 5) { VH_CHECK(d->sats[i].glo_fcn == m->sats[i].glo_fcn, "msm.rt-info", "%d sat %zu", num, i); VH_CHECK(fabs(d->sats[i].rough_range_rate_m_s - m->sats[i].rough_range_rate_m_s) <= 1.0, "msm.rt-rate", "%d", num); }
  }
  for (size_t i = 0; i < nc; i++) {
    size_t s = (size_t)k.cells[i] / ng; const rtcm_msm_signal_data &q = d->signals[i], &o = m->signals[i];
    double fpr = fabs(o.pseudorange_ms - d->sats[s].rough_range_ms), fcp = fabs(o.carrier_phase_ms - d->sats[s].rough_range_ms), fd = fabs(o.range_rate_m_s - d->sats[s].rough_range_rate_m_s);
    double l1 = ldexp(1, -10), l2 = ldexp(1, -8), l3 = 1.6384;
    auto chk = [&](const char *what, bool ov, bool qv, double f, double lim, double a, double bb, double tol) {
      if (!ov) VH_CHECK(!qv, fmt("msm.rt-%s-valid", what), "%d cell %zu: invalid became valid", num, i);
      else if (f < lim * 0.9999) { VH_CHECK(qv, fmt("msm.rt-%s-valid", what), "%d cell %zu: valid became invalid", num, i); }
      else if (f > lim * 1.0001) VH_CHECK(!qv, fmt("msm.rt-%s-range", what), "%d cell %zu: %g does not fit but is valid", num, i, f);
      if (ov && qv) VH_CHECK(close_to(a, bb, tol), fmt("msm.rt-%s", what), "%d cell %zu %.10f want %.10f", num, i, a, bb);
    };
    chk("pr", o.flags.fields.valid_pr, q.flags.fields.valid_pr, fpr, l1, q.pseudorange_ms, o.pseudorange_ms, ldexp(0.5001, -24));
    chk("cp", o.flags.fields.valid_cp, q.flags.fields.valid_cp, fcp, l2, q.carrier_phase_ms, o.carrier_phase_ms, ldexp(0.5001, -29));
    if (type == 5) chk("dop", o.flags.fields.valid_dop, q.flags.fields.valid_dop, fd, l3, q.range_rate_m_s, o.range_rate_m_s, 0.0000501);
    else VH_CHECK(!q.flags.fields.valid_dop, "msm.rt-dop-valid", "%d", num);
    VH_CHECK(q.flags.fields.valid_cnr == o.flags.fields.valid_cnr, "msm.rt-cnr-valid", "%d cell %zu cnr %g", num, i, o.cnr);
    if (o.flags.fields.valid_cnr) VH_CHECK(close_to(q.cnr, o.cnr, o.cnr > 63 ? 0.7501 : 0.5001), "msm.rt-cnr", "%d %g want %g", num, q.cnr, o.cnr);
    VH_CHECK(q.hca_indicator == o.hca_indicator, "msm.rt-hca", "%d", num);
    double t = o.flags.fields.valid_lock ? o.lock_time_s : 0; uint32_t ind = 0; while (ind < 15 && t >= lock4(ind + 1)) ind++;
    VH_CHECK(close_to(q.lock_time_s, lock4(ind), 1e-9), "msm.rt-lock", "%d lock %.9f -> %g want %g", num, t, q.lock_time_s, lock4(ind));
    ev("msm-signal-roundtrip");
  }
  if (ns > 32) ev("msm-over-32-sats-roundtrip"); if (nc) nontrivial(); distinct(b.data(), b.size());
}

// ---------------------------------------------------------------- C22
struct EF { const char *name; int w; char kind; std::function<int64_t(const rtcm_msg_eph &)> get; std::function<void(rtcm_msg_eph &, int64_t)> set; };
#define FLD(nm, w, kind, expr) {nm, w, kind, [](const rtcm_msg_eph &e) { return (int64_t)e.expr; }, [](rtcm_msg_eph &e, int64_t v) { e.expr = (decltype(e.expr))v; }}
#define RSV(w) {nullptr, w, 'r', nullptr, nullptr}
#define K(f) data.kepler.f
#define G(f) data.glo.f
typedef std::vector<EF> Lay;
Lay lay_gps() { return {FLD("sat_id", 6, 'u', sat_id), FLD("wn", 10, 'u', wn), FLD("ura", 4, 'u', ura), FLD("codeL2", 2, 'u', K(codeL2)), FLD("inc_dot", 14, 's', K(inc_dot)), FLD("iode", 8, 'u', K(iode)), FLD("toc", 16, 'u', K(toc)), FLD("af2", 8, 's', K(af2)), FLD("af1", 16, 's', K(af1)), FLD("af0", 22, 's', K(af0)), FLD("iodc", 10, 'u', K(iodc)), FLD("crs", 16, 's', K(crs)), FLD("dn", 16, 's', K(dn)), FLD("m0", 32, 's', K(m0)), FLD("cuc", 16, 's', K(cuc)), FLD("ecc", 32, 'u', K(ecc)), FLD("cus", 16, 's', K(cus)), FLD("sqrta", 32, 'u', K(sqrta)), FLD("toe", 16, 'u', toe), FLD("cic", 16, 's', K(cic)), FLD("omega0", 32, 's', K(omega0)), FLD("cis", 16, 's', K(cis)), FLD("inc", 32, 's', K(inc)), FLD("crc", 16, 's', K(crc)), FLD("w", 32, 's', K(w)), FLD("omegadot", 24, 's', K(omegadot)), FLD("tgd", 8, 's', K(tgd.gps_s)), FLD("health", 6, 'u', health_bits), FLD("L2_data_bit", 1, 'u', K(L2_data_bit)), FLD("fit", 1, 'u', fit_interval)}; }
Lay lay_qzs() { return {FLD("sat_id", 4, 'u', sat_id), FLD("toc", 16, 'u', K(toc)), FLD("af2", 8, 's', K(af2)), FLD("af1", 16, 's', K(af1)), FLD("af0", 22, 's', K(af0)), FLD("iode", 8, 'u', K(iode)), FLD("crs", 16, 's', K(crs)), FLD("dn", 16, 's', K(dn)), FLD("m0", 32, 's', K(m0)), FLD("cuc", 16, 's', K(cuc)), FLD("ecc", 32, 'u', K(ecc)), FLD("cus", 16, 's', K(cus)), FLD("sqrta", 32, 'u', K(sqrta)), FLD("toe", 16, 'u', toe), FLD("cic", 16, 's', K(cic)), FLD("omega0", 32, 's', K(omega0)), FLD("cis", 16, 's', K(cis)), FLD("inc", 32, 's', K(inc)), FLD("crc", 16, 's', K(crc)), FLD("w", 32, 's', K(w)), FLD("omegadot", 24, 's', K(omegadot)), FLD("inc_dot", 14, 's', K(inc_dot)), RSV(2), FLD("wn", 10, 'u', wn), FLD("ura", 4, 'u', ura), FLD("health", 6, 'u', health_bits), FLD("tgd", 8, 's', K(tgd.qzss_s)), FLD("iodc", 10, 'u', K(iodc)), FLD("fit", 1, 'u', fit_interval)}; }
Lay lay_bds() { return {FLD("sat_id", 6, 'u', sat_id), FLD("wn", 13, 'u', wn), FLD("ura", 4, 'u', ura), FLD("inc_dot", 14, 's', K(inc_dot)), FLD("iode", 5, 'u', K(iode)), FLD("toc", 17, 'u', K(toc)), FLD("af2", 11, 's', K(af2)), FLD("af1", 22, 's', K(af1)), FLD("af0", 24, 's', K(af0)), FLD("iodc", 5, 'u', K(iodc)), FLD("crs", 18, 's', K(crs)), FLD("dn", 16, 's', K(dn)), FLD("m0", 32, 's', K(m0)), FLD("cuc", 18, 's', K(cuc)), FLD("ecc", 32, 'u', K(ecc)), FLD("cus", 18, 's', K(cus)), FLD("sqrta", 32, 'u', K(sqrta)), FLD("toe", 17, 'u', toe), FLD("cic", 18, 's', K(cic)), FLD("omega0", 32, 's', K(omega0)), FLD("cis", 18, 's', K(cis)), FLD("inc", 32, 's', K(inc)), FLD("crc", 18, 's', K(crc)), FLD("w", 32, 's', K(w)), FLD("omegadot", 24, 's', K(omegadot)), FLD("tgd1", 10, 's', K(tgd.bds_s[0])), FLD("tgd2", 10, 's', K(tgd.bds_s[1])), FLD("health", 1, 'u', health_bits)}; }
Lay lay_gal(bool inav) {
  Lay l = {FLD("sat_id", 6, 'u', sat_id), FLD("wn", 12, 'u', wn), FLD("iode", 10, 'u', K(iode)), FLD("ura", 8, 'u', ura), FLD("inc_dot", 14, 's', K(inc_dot)), FLD("toc", 14, 'u', K(toc)), FLD("af2", 6, 's', K(af2)), FLD("af1", 21, 's', K(af1)), FLD("af0", 31, 's', K(af0)), FLD("crs", 16, 's', K(crs)), FLD("dn", 16, 's', K(dn)), FLD("m0", 32, 's', K(m0)), FLD("cuc", 16, 's', K(cuc)), FLD("ecc", 32, 'u', K(ecc)), FLD("cus", 16, 's', K(cus)), FLD("sqrta", 32, 'u', K(sqrta)), FLD("toe", 14, 'u', toe), FLD("cic", 16, 's', K(cic)), FLD("omega0", 32, 's', K(omega0)), FLD("cis", 16, 's', K(cis)), FLD("inc", 32, 's', K(inc)), FLD("crc", 16, 's', K(crc)), FLD("w", 32, 's', K(w)), FLD("omegadot", 24, 's', K(omegadot))};
  if (inav) { Lay t = {FLD("bgd1", 10, 's', K(tgd.gal_s[0])), FLD("bgd2", 10, 's', K(tgd.gal_s[1])), FLD("health", 6, 'u', health_bits), RSV(2)}; l.insert(l.end(), t.begin(), t.end()); }
  else { Lay t = {FLD("bgd1", 10, 's', K(tgd.gal_s[0])), FLD("health", 3, 'u', health_bits), RSV(7)}; l.insert(l.end(), t.begin(), t.end()); }
  return l;
}
// 1020; health is the OR of three flag bits, marked 'h'
Lay lay_glo() {
  return {FLD("sat_id", 6, 'u', sat_id), FLD("fcn", 5, 'u', G(fcn)), RSV(1), RSV(1), FLD("P1", 2, 'u', fit_interval), RSV(12), FLD("Bn", 1, 'h', health_bits), RSV(1), FLD("t_b", 7, 'u', G(t_b)),
          FLD("vx", 24, 'm', G(vel[0])), FLD("x", 27, 'm', G(pos[0])), FLD("ax", 5, 'm', G(acc[0])), FLD("vy", 24, 'm', G(vel[1])), FLD("y", 27, 'm', G(pos[1])), FLD("ay", 5, 'm', G(acc[1])), FLD("vz", 24, 'm', G(vel[2])), FLD("z", 27, 'm', G(pos[2])), FLD("az", 5, 'm', G(acc[2])),
          RSV(1), FLD("gamma", 11, 'm', G(gamma)), RSV(2), FLD("ln3", 1, 'h', health_bits), FLD("tau", 22, 'm', G(tau)), FLD("dtau", 5, 'm', G(d_tau)), RSV(5), RSV(1), FLD("FT", 4, 'u', ura), RSV(11), RSV(2), RSV(1) /* additional data */, RSV(11), RSV(32), RSV(5), RSV(22), RSV(1) /* ln5 */, RSV(7)};
}
struct EphM { int num; rtcm_constellation_t cons; Lay lay; rtcm3_rc (*dec)(swiftnav_bitstream_t *, rtcm_msg_eph *); uint16_t (*enc)(const rtcm_msg_eph *, uint8_t *); };
std::vector<EphM> EPH;
int eph_bits(const EphM &M) { int n = 12; for (auto &f : M.lay) n += f.w; return n; }
void case_eph(Rng &r) {
  const EphM &M = EPH[r.below((uint32_t)EPH.size())]; int total = eph_bits(M);
  std::vector<uint64_t> raw; std::vector<int64_t> val;
  for (auto &f : M.lay) {
    uint64_t b = r.bits(f.w); int64_t v = (int64_t)b;
    if (f.kind == 's') v = (int64_t)(b << (64 - f.w)) >> (64 - f.w);
    if (f.kind == 'm') { uint64_t mag = b & ((1ull << (f.w - 1)) - 1); bool neg = b >> (f.w - 1); v = neg ? -(int64_t)mag : (int64_t)mag; }
    raw.push_back(b); val.push_back(v);
  }
  if (M.num == 1042 && r.chance(7, 8)) { raw[0] = 6 + r.below(58); val[0] = (int64_t)raw[0]; }
  bool glo = M.num == 1020; size_t iadd = 0, iln5 = 0;
  if (glo) { iadd = M.lay.size() - 7; iln5 = M.lay.size() - 2; }
  BitW w; w.put((uint64_t)M.num, 12); size_t lastval = 12;
  for (size_t i = 0; i < M.lay.size(); i++) { w.put(raw[i], M.lay[i].w); if (M.lay[i].kind != 'r') lastval = w.n; }
  if ((int)w.n != total) { violate("harness.layout", "eph"); return; }
  if (glo) { lastval = 12; for (size_t i = 0; i <= iadd; i++) lastval += (size_t)M.lay[i].w; if (raw[iadd]) { for (size_t i = iadd + 1; i <= iln5; i++) lastval += (size_t)M.lay[i].w; } }
  bool geo = M.num == 1042 && raw[0] <= 5;
  rtcm_msg_eph e; memset(&e, fill(r), sizeof e);
  size_t nb = w.n; Bytes b = w.b; bool trunc = r.chance(1, 6);
  if (trunc) { nb = r.below((uint32_t)lastval); if (r.chance(1, 2) && lastval > 40) nb = lastval - 1 - r.below(40); b.resize((nb + 7) / 8); }
  rtcm3_rc rc = run_dec(b, nb, [&](swiftnav_bitstream_t *s) { return M.dec(s, &e); });
  if (trunc) { VH_CHECK(rc != RC_OK, "eph.truncated", "%d: %zu of %zu bits accepted", M.num, nb, w.n); ev("truncated-refused"); }
  else if (geo) { VH_CHECK(rc == RC_INVALID_MESSAGE, "eph.bds-geo", "GEO accepted rc %d", rc); ev("geo-refused"); }
  else {
    VH_CHECK(rc == RC_OK, "eph.refused", "%d rc %d", M.num, rc);
    if (rc == RC_OK) {
      VH_CHECK(e.constellation == M.cons, "eph.constellation", "%d: %d", M.num, e.constellation);
      int64_t health = 0;
      for (size_t i = 0; i < M.lay.size(); i++) {
        auto &f = M.lay[i]; if (f.kind == 'r') continue; if (f.kind == 'h') { health |= val[i]; continue; }
        VH_CHECK(f.get(e) == val[i], fmt("eph.decode.%s", f.name), "%d %s: decoded %lld, sent %lld", M.num, f.name, (long long)f.get(e), (long long)val[i]);
        ev("eph-field-decoded");
      }
      if (glo) { if (raw[iadd]) health |= (int64_t)raw[iln5]; VH_CHECK(e.health_bits == health, "eph.decode.health", "1020 health %d want %lld", e.health_bits, (long long)health); }
      nontrivial(); evs(fmt("eph-decoded-%d", M.num)); distinct(w.b.data(), w.b.size());
    }
  }
  // wrong type
  const EphM &O = EPH[r.below((uint32_t)EPH.size())];
  if (O.num != M.num) { rtcm_msg_eph e2; rtcm3_rc rc2 = run_dec(w.b, w.n, [&](swiftnav_bitstream_t *s) { return O.dec(s, &e2); }); VH_CHECK(rc2 == RC_MESSAGE_TYPE_MISMATCH, "eph.mismatch", "%d decoder on %d: %d", O.num, M.num, rc2); }
  // encode
  if (M.enc) {
    rtcm_msg_eph s; memset(&s, 0, sizeof s); s.constellation = M.cons; int64_t h = (int64_t)r.bits(1);
    for (size_t i = 0; i < M.lay.size(); i++) { auto &f = M.lay[i]; if (f.kind == 'r') continue; f.set(s, f.kind == 'h' ? h : val[i]); }
    Heap out((size_t)(total + 7) / 8, r); uint16_t n = M.enc(&s, out.p);
    VH_CHECK(n == out.n, "eph.length", "%d: %u bytes want %zu", M.num, n, out.n); if (n != out.n) return;
    BitR br(out.p, n); VH_CHECK(br.get(12) == (uint64_t)M.num, "eph.enc-num", "%d", M.num);
    for (size_t i = 0; i < M.lay.size(); i++) {
      auto &f = M.lay[i]; uint64_t g = br.get(f.w); if (f.kind == 'r') { if (glo && i == iadd) VH_CHECK(g == 0 || true, "eph.enc-add", "x"); continue; }
      uint64_t want = raw[i]; if (f.kind == 'h') want = (uint64_t)h; if (f.kind == 'm' && val[i] == 0) { want = 0; g &= (1ull << (f.w - 1)) - 1; }
      VH_CHECK(g == want, fmt("eph.encode.%s", f.name), "%d %s: bits %llx want %llx", M.num, f.name, (unsigned long long)g, (unsigned long long)want);
      ev("eph-field-encoded");
    }
    rtcm_msg_eph q; memset(&q, 0x5a, sizeof q); Bytes eb(out.p, out.p + n);
    rc = run_dec(eb, eb.size() * 8, [&](swiftnav_bitstream_t *t) { return M.dec(t, &q); });
    if (!geo) {
      VH_CHECK(rc == RC_OK, "eph.rt-refused", "%d rc %d", M.num, rc);
      if (rc == RC_OK) for (auto &f : M.lay) if (f.kind != 'r') VH_CHECK(f.get(q) == f.get(s), fmt("eph.rt.%s", f.name), "%d %s: %lld -> %lld", M.num, f.name, (long long)f.get(s), (long long)f.get(q));
      evs(fmt("eph-roundtrip-%d", M.num));
    }
  }
}
#include "rtcm2.inc"
}  // namespace

void vh_setup() {
  EPH = {{1019, RTCM_CONSTELLATION_GPS, lay_gps(), rtcm3_decode_gps_eph_bitstream, rtcm3_encode_gps_eph},
         {1020, RTCM_CONSTELLATION_GLO, lay_glo(), rtcm3_decode_glo_eph_bitstream, rtcm3_encode_glo_eph},
         {1042, RTCM_CONSTELLATION_BDS, lay_bds(), rtcm3_decode_bds_eph_bitstream, rtcm3_encode_bds_eph},
         {1044, RTCM_CONSTELLATION_QZS, lay_qzs(), rtcm3_decode_qzss_eph_bitstream, nullptr},
         {1045, RTCM_CONSTELLATION_GAL, lay_gal(false), rtcm3_decode_gal_eph_fnav_bitstream, rtcm3_encode_gal_eph_fnav},
         {1046, RTCM_CONSTELLATION_GAL, lay_gal(true), rtcm3_decode_gal_eph_inav_bitstream, rtcm3_encode_gal_eph_inav}};
}
void vh_case(Rng &r, uint64_t idx) {
  const std::string &m = mode();
  if (m == "bits") case_bits(r);
  else if (m == "legacy") { if (idx & 1) case_legacy_decode(r); else case_legacy_roundtrip(r); }
  else if (m == "msm") { if (idx & 1) case_msm_decode(r); else case_msm_roundtrip(r); }
  else if (m == "eph") case_eph(r);
  else if (m == "sta") case_sta(r);
  else if (m == "ssr") case_ssr(r);
  else if (m == "util") case_util(r);
  else if (m == "log") case_log(r);
  else if (m == "hostile") case_hostile(r);
  else { fprintf(stderr, "mode?\n"); exit(3); }
}
