// NovAtel: framing (C13), field decoding (C70), conversion to SBP (C71),
// robustness (C04).
#include "vh.hpp"
#include <unistd.h>
#include "parser/novatel.h"
#include "parser/crc_checker.h"
#include "parser/parser.h"
#include "parser/read_little_endian.h"
extern "C" {
#include <swiftnav/signal.h>
#include <swiftnav/geoid_model.h>
#include <swiftnav/constants.h>
#include <swiftnav/gnss_time.h>
}
using namespace vh;
using namespace Novatel;
typedef int (*rw_ptr)(uint8_t *, uint32_t, void *);
extern "C" int nov2sbp_main(int, char **, const char *, rw_ptr, rw_ptr, void *);

namespace {
struct Hdr { bool is_short; uint16_t id, week; int32_t ms; uint16_t seq; uint8_t mtype, port, idle, tstat; uint32_t rxs; uint16_t resv, sw; };
Hdr rand_hdr(Rng &r, uint16_t id) {
  Hdr h{}; h.is_short = r.chance(1, 3); h.id = id; h.week = (uint16_t)r.bits(16); h.ms = (int32_t)r.bits(32);
  if (r.chance(3, 4)) { h.week = (uint16_t)r.range(1, 4000); h.ms = (int32_t)r.range(0, 604799999); }
  h.seq = (uint16_t)r.bits(16); h.mtype = (uint8_t)r.bits(8); h.port = (uint8_t)r.bits(8); h.idle = (uint8_t)r.bits(8);
  h.tstat = (uint8_t)r.bits(8); h.rxs = (uint32_t)r.bits(32); h.resv = (uint16_t)r.bits(16); h.sw = (uint16_t)r.bits(16);
  return h;
}
Bytes mkframe(const Hdr &h, const Bytes &body) {
  W w; w.u8(0xAA); w.u8(0x44);
  if (h.is_short && body.size() <= 255) {
    w.u8(0x13); w.u8((uint32_t)body.size()); w.u16(h.id); w.u16(h.week); w.u32((uint32_t)h.ms);
  } else {
    w.u8(0x12); w.u8(28); w.u16(h.id); w.u8(h.mtype); w.u8(h.port); w.u16((uint32_t)body.size()); w.u16(h.seq); w.u8(h.idle);
    w.u8(h.tstat); w.u16(h.week); w.u32((uint32_t)h.ms); w.u32(h.rxs); w.u16(h.resv); w.u16(h.sw);
  }
  w.raw(body); w.u32(crc32_nov_ref(w.b.data(), w.b.size()));
  return w.b;
}
int body_size(uint16_t id) {
  switch (id) { case 42: return 72; case 99: return 44; case 7: return 224; case 723: return 144; case 263: return 40; case 1462: return 40; default: return -1; }
}
const uint16_t IDS[] = {7, 42, 99, 140, 263, 723, 1462};

// --- reference frame scanner
struct Seen { uint16_t id, week; int32_t ms; size_t off, blen; bool is_short; };
std::vector<Seen> scan(const Bytes &b) {
  std::vector<Seen> out;
  size_t i = 0;
  while (i < b.size()) {
    size_t left = b.size() - i;
    if (left >= 32 && b[i] == 0xAA && b[i + 1] == 0x44 && b[i + 2] == 0x12 && b[i + 3] == 28) {
      size_t len = rd16(&b[i + 8]);
      if (28 + len + 4 <= left && 32 + len <= 4096 && crc32_nov_ref(&b[i], 28 + len) == rd32(&b[i + 28 + len])) {
        out.push_back({rd16(&b[i + 4]), rd16(&b[i + 14]), (int32_t)rd32(&b[i + 16]), i + 28, len, false});
        i += 32 + len; continue;
      }
    } else if (left >= 16 && b[i] == 0xAA && b[i + 1] == 0x44 && b[i + 2] == 0x13) {
      size_t len = b[i + 3];
      if (16 + len <= left && crc32_nov_ref(&b[i], 12 + len) == rd32(&b[i + 12 + len])) {
        out.push_back({rd16(&b[i + 4]), rd16(&b[i + 6]), (int32_t)rd32(&b[i + 8]), i + 12, len, true});
        i += 16 + len; continue;
      }
    }
    i++;
  }
  return out;
}
bool deliverable(const Seen &s, const Bytes &b) {
  if (s.id == 140) {
    if (s.blen < 4) return false;
    uint64_t n = rd32(&b[s.off]);
    return s.blen == 4 + 24 * n;
  }
  int k = body_size(s.id);
  return k >= 0 && (size_t)k == s.blen;
}
thread_local Bytes g_in;
struct Got { uint16_t id, week, len; int32_t ms; uint64_t fp; };
thread_local std::vector<Got> g_got;
// fingerprint of decoded contents that the model can recompute from raw bytes
uint64_t mix(uint64_t h, uint64_t v) { return fnv(&v, 8, h); }
const uint64_t H0 = 1469598103934665603ull;
uint64_t bitsof(double d) { uint64_t v; memcpy(&v, &d, 8); return v; }
uint64_t bitsof(float d) { uint32_t v; memcpy(&v, &d, 4); return v; }

struct FieldErr { std::string name; };
// full comparison of a decoded message with its raw body; returns "" or field name
std::string cmp_msg(uint16_t id, const void *data, const uint8_t *p) {
#define C(F, V) do { if (bitsof64(m->F) != bitsof64(V)) return #F; } while (0)
  auto bitsof64 = [](auto v) -> uint64_t { uint64_t o = 0; memcpy(&o, &v, sizeof v); return o; };
  size_t i = 0;
  auto u8_ = [&]() { return p[i++]; };
  auto u16_ = [&]() { i += 2; return rd16(p + i - 2); };
  auto u32_ = [&]() { i += 4; return rd32(p + i - 4); };
  auto s32_ = [&]() { i += 4; return (int32_t)rd32(p + i - 4); };
  auto f_ = [&]() { i += 4; return rdf(p + i - 4); };
  auto d_ = [&]() { i += 8; return rdd(p + i - 8); };
  switch (id) {
    case 42: { auto *m = (const Message::BESTPOS_t *)data;
      C(sol_stat, u32_()); C(pos_type, u32_()); C(lat, d_()); C(lon, d_()); C(hgt, d_()); C(undulation, f_()); C(datum_id, u32_());
      C(lat_stddev, f_()); C(lon_stddev, f_()); C(hgt_stddev, f_());
      for (int k = 0; k < 4; k++) if ((uint8_t)m->stn_id[k] != u8_()) return "stn_id";
      C(diff_age, f_()); C(sol_age, f_()); C(num_sv_tracked, u8_()); C(num_sv_in_soln, u8_()); C(num_sv_in_soln_L1, u8_()); C(num_sv_in_soln_multi, u8_());
      C(reserved, u8_()); C(ext_sol_stat, u8_()); C(galileo_beidou_mask, u8_()); C(gps_glonass_mask, u8_()); break; }
    case 99: { auto *m = (const Message::BESTVEL_t *)data;
      C(sol_stat, u32_()); C(vel_type, u32_()); C(latency, f_()); C(diff_age, f_()); C(hor_speed, d_()); C(trk_gnd, d_()); C(vert_speed, d_()); C(reserved, f_()); break; }
    case 7: { auto *m = (const Message::GPSEPHEM_t *)data;
      C(prn, u32_()); C(tow, d_()); C(health, u32_()); C(iode1, u32_()); C(iode2, u32_()); C(week, u32_()); C(z_week, u32_()); C(toe, d_()); C(A, d_());
      C(delta_N, d_()); C(M0, d_()); C(ecc, d_()); C(omega, d_()); C(cuc, d_()); C(cus, d_()); C(crc, d_()); C(crs, d_()); C(cic, d_()); C(cis, d_());
      C(I0, d_()); C(I_dot, d_()); C(omega0, d_()); C(omega_dot, d_()); C(iodc, u32_()); C(toc, d_()); C(tgd, d_()); C(af0, d_()); C(af1, d_()); C(af2, d_());
      C(AS, u32_()); C(N, d_()); C(URA, d_()); break; }
    case 723: { auto *m = (const Message::GLOEPHEMERIS_t *)data;
      C(sloto, u16_()); C(freqo, u16_()); C(sat_type, u8_()); C(reserved_1, u8_()); C(e_week, u16_()); C(e_time, u32_()); C(t_offset, u32_()); C(Nt, u16_());
      C(reserved_2, u16_()); C(issue, u32_()); C(health, u32_()); C(pos_x, d_()); C(pos_y, d_()); C(pos_z, d_()); C(vel_x, d_()); C(vel_y, d_()); C(vel_z, d_());
      C(LS_acc_x, d_()); C(LS_acc_y, d_()); C(LS_acc_z, d_()); C(tau_n, d_()); C(delta_tau_n, d_()); C(gamma, d_()); C(Tk, u32_()); C(P, u32_()); C(Ft, u32_());
      C(age, u32_()); C(flags, u32_()); break; }
    case 263: { auto *m = (const Message::INSATT_t *)data;
      C(gnss_week, u32_()); C(tow, d_()); C(roll, d_()); C(pitch, d_()); C(azimuth, d_()); C(status, u32_()); break; }
    case 1462: { auto *m = (const Message::RAWIMUSX_t *)data;
      C(imu_info, u8_()); C(imu_type, u8_()); C(gnss_week, u16_()); C(gnss_week_seconds, d_()); C(imu_status, u32_());
      C(z_accel, s32_());
      { int64_t e = -(int64_t)s32_(); if ((int64_t)m->y_accel != e && e != 2147483648ll) return "y_accel"; }
      C(x_accel, s32_()); C(z_gyro, s32_());
      { int64_t e = -(int64_t)s32_(); if ((int64_t)m->y_gyro != e && e != 2147483648ll) return "y_gyro"; }
      C(x_gyro, s32_()); break; }
    case 140: { auto *m = (const Message::RANGECMP_t *)data;
      uint32_t n = u32_();
      if (m->n_records != (n > 63 ? 63 : n)) return "n_records";
      for (size_t k = 0; k < m->n_records; k++) {
        const uint8_t *q = p + 4 + 24 * k; const auto &c = m->records[k];
        auto bits = [&](int off, int len) { uint64_t v = 0; for (int b = 0; b < len; b++) v |= (uint64_t)((q[(off + b) / 8] >> ((off + b) % 8)) & 1) << b; return v; };
        if (c.tracking_status != bits(0, 32)) return "tracking_status";
        int32_t dop = (int32_t)((uint32_t)bits(32, 28) << 4) >> 4;
        if (c.doppler != dop) return "doppler";
        if (c.pseudorange != bits(60, 36)) return "pseudorange";
        if (c.ADR != (int32_t)(uint32_t)bits(96, 32)) return "ADR";
        if (c.stddev_psr != bits(128, 4)) return "stddev_psr";
        if (c.stddev_adr != bits(132, 4)) return "stddev_adr";
        if (c.prn_slot != bits(136, 8)) return "prn_slot";
        if (c.lock_time != bits(144, 21)) return "lock_time";
        if (c.CN0 != bits(165, 5)) return "CN0";
        if (c.glo_freq_no != bits(170, 6)) return "glo_freq_no";
        if (c.reserved != bits(176, 16)) return "reserved";
      }
      break; }
  }
  return "";
#undef C
}
thread_local std::vector<Seen> g_expect;
thread_local size_t g_idx;
void on_msg(const BinaryHeader *h, const void *data) {
  ev("delivered");
  if (g_idx >= g_expect.size()) {
    violate("extra-message", "message id %u delivered although no further valid frame exists in the input", h->message_id);
    g_idx++;
    return;
  }
  const Seen &s = g_expect[g_idx++];
  if (h->message_id != s.id || h->week != s.week || h->ms != s.ms || h->message_len != s.blen) {
    violate("wrong-message", "delivery %zu: id %u week %u ms %d len %u, expected id %u week %u ms %d len %zu at offset %zu", g_idx - 1,
            h->message_id, h->week, h->ms, h->message_len, s.id, s.week, s.ms, s.blen, s.off);
    return;
  }
  if (!s.is_short) {
    const auto *rh = (const BinaryHeaderRegular *)h; const uint8_t *q = &g_in[s.off - 28];
    if (rh->message_type != q[6] || rh->port_addr != q[7] || rh->sequence != rd16(q + 10) || rh->idle_time != q[12] || rh->time_status != q[13] ||
        rh->rx_status != rd32(q + 20) || rh->reserved != rd16(q + 24) || rh->rx_software_version != rd16(q + 26))
      violate("header-field", "regular header fields differ from the frame at %zu", s.off - 28);
  }
  std::string f = cmp_msg(s.id, data, &g_in[s.off]);
  if (!f.empty()) violate("field-" + f, "id %u: decoded %s differs from frame bytes %s", s.id, f.c_str(), hex(&g_in[s.off], s.blen, 80).c_str());
  evs(fmt("decoded-%u", s.id));
  distinct(&g_in[s.off], s.blen);
}
int neg_after_eof(uint8_t *b, uint32_t n, void *c) { return feed_read(b, n, c); }

Bytes rand_body(Rng &r, uint16_t id, bool sane);
void put_d(Rng &r, W &w, bool sane, double lo, double hi) { w.f64(sane ? r.uniform(lo, hi) : r.dbl()); }
Bytes rand_body(Rng &r, uint16_t id, bool sane) {
  W w;
  switch (id) {
    case 42: {
      static const uint32_t pt[] = {0, 1, 2, 4, 5, 8, 16, 17, 18, 19, 32, 33, 34, 48, 49, 50, 51, 52, 53, 54, 55, 56, 68, 69, 70, 77, 80, 99};
      w.u32(sane ? r.below(20) : (uint32_t)r.bits(32)); w.u32(sane || r.chance(1, 2) ? pt[r.below(28)] : (uint32_t)r.bits(32));
      put_d(r, w, sane, -90, 90); put_d(r, w, sane, -180, 180); put_d(r, w, sane, -500, 10000); w.f32(sane ? (float)r.uniform(-50, 50) : r.flt()); w.u32((uint32_t)r.bits(32));
      for (int i = 0; i < 3; i++) w.f32(sane ? (float)(r.chance(1, 4) ? r.uniform(0, 200) : r.uniform(0, 10)) : r.flt());
      w.raw(r.bytes(4)); w.f32(r.flt()); w.f32(r.flt()); w.raw(r.bytes(8)); break; }
    case 99:
      w.u32((uint32_t)r.bits(32)); w.u32((uint32_t)r.bits(32)); w.f32(r.flt()); w.f32(r.flt());
      put_d(r, w, sane, 0, 300); put_d(r, w, sane, 0, 360); put_d(r, w, sane, -50, 50); w.f32(r.flt()); break;
    case 7:
      w.u32(sane ? 1 + r.below(32) : (uint32_t)r.bits(32)); put_d(r, w, sane, 0, 604800); w.u32(sane ? r.below(64) : (uint32_t)r.bits(32));
      w.u32(sane ? r.below(256) : (uint32_t)r.bits(32)); w.u32(sane ? r.below(256) : (uint32_t)r.bits(32));
      w.u32(sane ? (uint32_t)r.range(1, 4000) : (uint32_t)r.bits(32)); w.u32((uint32_t)r.bits(32));
      put_d(r, w, sane, 0, 604799); put_d(r, w, sane, 2.6e7, 2.66e7);
      for (int i = 0; i < 14; i++) put_d(r, w, sane, -3, 3);
      w.u32(sane ? r.below(1024) : (uint32_t)r.bits(32)); put_d(r, w, sane, 0, 604799);
      for (int i = 0; i < 4; i++) put_d(r, w, sane, -1e-4, 1e-4);
      w.u32((uint32_t)r.bits(32)); w.f64(r.dbl()); put_d(r, w, sane, 0, 100); break;
    case 723: {
      w.raw(r.bytes(28)); for (int i = 0; i < 12; i++) put_d(r, w, sane, -3e7, 3e7); w.raw(r.bytes(20)); break; }
    case 263:
      w.u32((uint32_t)r.range(1, 4000)); put_d(r, w, sane, 0, 604800); put_d(r, w, sane, -180, 180); put_d(r, w, sane, -90, 90); put_d(r, w, sane, 0, 360);
      w.u32(r.chance(1, 2) ? 3 : r.chance(1, 2) ? r.below(13) : (uint32_t)r.bits(32)); break;
    case 1462: {
      static const uint8_t ty[] = {0, 1, 4, 5, 8, 11, 12, 13, 16, 20, 26, 27, 28, 31, 32, 33, 41, 52, 56, 58, 61, 62};
      w.u8(sane ? 0 : (uint32_t)r.bits(8)); w.u8(r.chance(9, 10) ? ty[r.below(22)] : (uint32_t)r.bits(8)); w.u16((uint32_t)r.bits(16)); put_d(r, w, sane, 0, 604800);
      w.u32((uint32_t)r.bits(32));
      for (int i = 0; i < 6; i++) w.u32(sane ? (uint32_t)(int32_t)(r.range(-2000000, 2000000) >> r.below(16)) : (uint32_t)r.bits(32));
      break; }
    case 140: {
      uint32_t n = r.chance(1, 12) ? 0 : r.chance(1, 10) ? (r.chance(1, 3) ? 64 : 64 + r.below(60)) : 1 + r.below(r.chance(1, 2) ? 12 : 63);
      w.u32(n);
      for (uint32_t k = 0; k < n; k++) {
        uint8_t q[24] = {0};
        auto put = [&](int off, int len, uint64_t v) { for (int b = 0; b < len; b++) if (v >> b & 1) q[(off + b) / 8] |= (uint8_t)(1 << ((off + b) % 8)); };
        uint32_t st = (uint32_t)r.bits(32);
        if (r.chance(4, 5)) {
          static const uint8_t sys_sig[][2] = {{0, 0}, {0, 5}, {1, 0}, {1, 1}, {0, 9}, {0, 17}, {1, 2}, {2, 0}, {3, 2}, {4, 0}, {5, 0}};
          auto &ss = sys_sig[r.below(r.chance(3, 4) ? 4 : 11)];
          st = (st & ~0x03E70000u) | (uint32_t)ss[0] << 16 | (uint32_t)ss[1] << 21;
        }
        put(0, 32, st);
        put(32, 28, r.chance(3, 4) ? (uint64_t)r.range(-1500000, 1500000) : r.bits(28));
        put(60, 36, r.chance(3, 4) ? (uint64_t)r.range(2300000000ll, 3500000000ll) : r.bits(36));
        put(96, 32, r.bits(32)); put(128, 4, r.bits(4)); put(132, 4, r.bits(4));
        put(136, 8, r.chance(3, 4) ? 1 + r.below(32) : r.bits(8)); put(144, 21, r.bits(21)); put(165, 5, r.bits(5)); put(170, 6, r.bits(6)); put(176, 16, r.bits(16));
        w.b.insert(w.b.end(), q, q + 24);
      }
      break; }
    default: w.raw(r.bytes(r.below(r.chance(1, 6) ? 1500 : 200)));
  }
  return w.b;
}

void case_frame(Rng &r, bool fields) {
  Bytes in;
  int nf = fields ? 1 + (int)r.below(4) : 1 + (int)r.below(14);
  for (int i = 0; i < nf; i++) {
    if (!fields && r.chance(1, 4)) {
      Bytes g = r.bytes(r.below(r.chance(1, 8) ? 5000 : 60));
      if (r.chance(1, 2)) for (auto &x : g) if (r.chance(1, 4)) { static const uint8_t t[] = {0xAA, 0x44, 0x12, 0x13, 28}; x = t[r.below(5)]; }
      in.insert(in.end(), g.begin(), g.end());
    }
    uint16_t id = r.chance(fields ? 19 : 4, fields ? 20 : 5) ? IDS[r.below(7)] : (uint16_t)r.bits(16);
    Bytes body = rand_body(r, id, r.chance(1, 2));
    bool known = body_size(id) >= 0 || id == 140;
    if (!fields && !known && r.chance(1, 2)) {  // an unknown message enclosing a complete known frame
      uint16_t kid = IDS[r.below(7)];
      Bytes inner = mkframe(rand_hdr(r, kid), rand_body(r, kid, true));
      Bytes o = r.bytes(r.below(9)); o.insert(o.end(), inner.begin(), inner.end()); body = o;
    }
    if (!fields && r.chance(1, 20)) { body = r.bytes(4060 + r.below(12)); if (known) id = 4; }  // around the buffer limit
    if (!fields && known && r.chance(1, 10)) {  // consistent frame, body length wrong for its type
      if (r.chance(1, 2) && !body.empty()) body.resize(r.below((uint32_t)body.size())); else body.resize(body.size() + 1 + r.below(30));
      if (body.size() > 4000) body.resize(300);
    }
    bool overlap = !fields && body.size() >= 4 && body.size() < 4000 && r.chance(1, 12); bool oshort = r.chance(1, 2); Bytes rest;
    if (overlap) {  // the end of the message looks like the start of another one, which would enclose the next
      uint16_t kid = IDS[r.below(7)]; Bytes inner = mkframe(rand_hdr(r, kid), rand_body(r, kid, true)); if (oshort && inner.size() > 240) { kid = 99; inner = mkframe(rand_hdr(r, kid), rand_body(r, kid, true)); }
      size_t h = oshort ? 12 : 28, room = oshort ? 255 : 600; Bytes c = r.bytes(r.below(5)); c.insert(c.end(), inner.begin(), inner.end()); if (c.size() > room) c.resize(room);
      uint8_t t[4] = {0xAA, 0x44, (uint8_t)(oshort ? 0x13 : 0x12), (uint8_t)(oshort ? c.size() : 28)}; memcpy(body.data() + body.size() - 4, t, 4);
      rest = r.bytes(h - 8); if (!oshort) { rest[0] = (uint8_t)c.size(); rest[1] = (uint8_t)(c.size() >> 8); } rest.insert(rest.end(), c.begin(), c.end());
    }
    Bytes f = mkframe(rand_hdr(r, id), body);
    if (overlap) {
      Bytes b(f.end() - 8, f.end()); b.insert(b.end(), rest.begin(), rest.end()); uint32_t c = crc32_nov_ref(b.data(), b.size()); for (int k = 0; k < 4; k++) b.push_back((uint8_t)(c >> 8 * k));
      f.insert(f.end(), b.begin() + 8, b.end()); ev("overlapping-frame");
    } else if (!fields) switch (r.below(16)) {
      case 0: f[r.below((uint32_t)f.size())] ^= (uint8_t)(1 << r.below(8)); break;  // corruption
      case 1: f.resize(r.below((uint32_t)f.size())); break;                          // truncation
      case 2: f.insert(f.begin() + r.below((uint32_t)f.size()), (uint8_t)r.u32()); break;
      case 3: if (f[2] == 0x12) f[8] = f[9] = 0xFF; break;                            // claims a length that can never fit
      case 4: if (f[2] == 0x12) { f[3] = (uint8_t)(r.chance(1, 2) ? 24 + r.below(12) : r.u32()); uint32_t c = crc32_nov_ref(f.data(), f.size() - 4); for (int k = 0; k < 4; k++) f[f.size() - 4 + k] = (uint8_t)(c >> 8 * k); ev("other-header-length"); } break;
      default: break;
    }
    in.insert(in.end(), f.begin(), f.end());
  }
  g_in = in;
  std::vector<Seen> all = scan(in);
  g_expect.clear();
  for (auto &s : all) if (deliverable(s, in)) g_expect.push_back(s);
  g_idx = 0;
  Feed fd; fd.data = in; fd.mode = (int)r.below(4); fd.k = 1 + r.below(100); fd.rng = Rng(r.u64());
  Message::CallbackArray cbs = {{{Message::GPSEPHEM, on_msg}, {Message::BESTPOS, on_msg}, {Message::BESTVEL, on_msg}, {Message::RANGECMP, on_msg},
                                 {Message::INSATT, on_msg}, {Message::GLOEPHEMERIS, on_msg}, {Message::RAWIMUSX, on_msg}}};
  Parser p{neg_after_eof, nullptr, cbs, &fd};
  p.process();
  ev("valid-frames", all.size());
  evs(fmt("chunk-mode-%d", fd.mode));
  if (g_idx < g_expect.size())
    violate("lost-message", "%zu of %zu valid messages delivered (chunk mode %d k %u, %zu bytes); first lost: id %u at offset %zu", g_idx, g_expect.size(), fd.mode,
            fd.k, in.size(), g_expect[g_idx].id, g_expect[g_idx].off);
  if (fd.pos != in.size()) violate("input-not-consumed", "parser stopped after %zu of %zu bytes", fd.pos, in.size());
  if (!g_expect.empty()) nontrivial();
  if (!fields) { uint64_t h = 7; for (auto &s : g_expect) h = mix(h, s.off << 20 ^ s.id); h = mix(h, (uint64_t)fd.mode); if (!g_expect.empty()) distinct(h); }
  sample("%zu input bytes, chunk mode %d: %zu checksum-valid frames, %zu deliverable, %zu delivered", in.size(), fd.mode, all.size(), g_expect.size(), g_idx);
  digest_v(g_idx);
}

// ---- little-endian / CRC primitives against references
void case_prim(Rng &r) {
  Bytes b = r.bytes(1 + r.below(300));
  uint32_t c = CrcChecker::get_crc(b.data(), (uint32_t)b.size());
  VH_CHECK(c == crc32_nov_ref(b.data(), b.size()), "crc32", "CRC %08x, reference %08x over %s", c, crc32_nov_ref(b.data(), b.size()), hex(b).c_str());
  Bytes z = r.bytes(24);
  const uint8_t *p = z.data() + r.below(9);
  VH_CHECK(Util::read_le_uint16(p) == rd16(p), "le16", "%s", hex(p, 2).c_str());
  VH_CHECK(Util::read_le_uint32(p) == rd32(p), "le32", "%s", hex(p, 4).c_str());
  VH_CHECK(Util::read_le_int32(p) == (int32_t)rd32(p), "les32", "%s", hex(p, 4).c_str());
  VH_CHECK(bitsof(Util::read_le_double(p)) == rd64(p), "led", "%s", hex(p, 8).c_str());
  VH_CHECK(bitsof(Util::read_le_float(p)) == rd32(p), "lef", "%s", hex(p, 4).c_str());
  size_t n = r.below(65), off = r.below(60);
  uint64_t e = 0;
  for (size_t i = 0; i < n; i++) e |= (uint64_t)((p[(off + i) / 8] >> ((off + i) % 8)) & 1) << i;
  VH_CHECK(Util::read_le_bits64(p, off, n) == e, "bits64", "off %zu n %zu of %s", off, n, hex(p, 16).c_str());
  if (n <= 32) VH_CHECK(Util::read_le_bits32(p, off, n) == e, "bits32", "off %zu n %zu", off, n);
  if (n <= 16) VH_CHECK(Util::read_le_bits16(p, off, n) == e, "bits16", "off %zu n %zu", off, n);
  if (n <= 8) VH_CHECK(Util::read_le_bits8(p, off, n) == e, "bits8", "off %zu n %zu", off, n);
  nontrivial(); distinct(b.data(), b.size()); ev("primitive-reads", 7);
  sample("CRC-32 of %zu bytes = %08x; %zu-bit field at bit %zu", b.size(), c, n, off);
}

// ---- SBP conversion
thread_local Bytes g_out;
int wr(uint8_t *b, uint32_t n, void *) { g_out.insert(g_out.end(), b, b + n); return (int)n; }
#ifdef VH_CLI
void cli_convert(const Bytes &in, uint64_t s);
#endif
void convert(const Bytes &in, int mode, uint32_t k, uint64_t s) {
#ifdef VH_CLI
  (void)mode; (void)k; cli_convert(in, s); return;
#endif
  static char a0[] = "nov2sbp"; char *av[] = {a0, nullptr};
  optind = 1;
  Feed fd; fd.data = in; fd.mode = mode; fd.k = k; fd.rng = Rng(s);
  nov2sbp_main(1, av, "", feed_read, wr, &fd);
}
// brings the converter's remembered state to known values
const uint16_t PRO_WEEK = 65000; const int32_t PRO_MS = 987654;
Bytes prologue() {
  Hdr h{}; h.id = 42; h.week = PRO_WEEK; h.ms = PRO_MS; Rng r(5);
  Bytes pos(72, 0); Bytes a = mkframe(h, pos);
  h.id = 1462; h.week = 0; h.ms = 0; Bytes imu(40, 0); imu[1] = 5; Bytes b = mkframe(h, imu);
  a.insert(a.end(), b.begin(), b.end());
  return a;
}

struct ExpSbp { uint16_t type; std::function<std::string(const Bytes &)> chk; std::string what; };
bool near_(double got, double want, double tol) { return std::isnan(want) ? true : std::fabs(got - want) <= tol; }
double sat(double v, double lo, double hi) { return v < lo ? lo : v > hi ? hi : v; }
bool feq(double want, float got) { if (std::isnan(want)) return std::isnan(got); return (float)want == got || std::fabs((double)got - want) <= std::fabs(want) * 1.2e-7; }
bool deq(double want, double got) { if (std::isnan(want)) return std::isnan(got); return want == got || std::fabs(got - want) <= std::fabs(want) * 4e-16; }

struct ImuScale { double rate, gyro, acc; bool has_rate, has_g, has_a; };
const double G0 = 9.806, D2Rr = M_PI / 180.0;
ImuScale imu(uint8_t t, double rate) {
  ImuScale s{0, 0, 0, true, true, true};
  switch (t) {
    case 11: case 5: case 27: case 20: case 28: return {100, ldexp(1, -33), 0.3048 * ldexp(1, -27), true, true, true};
    case 12: return {100, ldexp(1, -33), 0.3048 * ldexp(1, -26), true, true, true};
    case 58: return {100, ldexp(1, -33), ldexp(1, -29), true, true, true};
    case 1: case 4: return {100, 0, 0, true, false, false};
    case 32: case 56: return {125, D2Rr * ldexp(1, -21), ldexp(1, -22), true, true, true};
    case 41: return {125, D2Rr * 0.008 / 65536.0 / rate, 0.200 / 65536.0 / rate * 1e-3 * G0, true, true, true};
    case 62: return {200, D2Rr * 0.008 / 65536.0 / rate, 0.200 / 65536.0 / rate * 1e-3 * G0, true, true, true};
    case 61: return {200, D2Rr * 0.0151515 / 65536.0 / 200, 0.400 / 65536.0 / 200 * 1e-3 * G0, true, true, true};
    case 26: return {200, 1e-9, 2e-8, true, true, true};
    case 13: return {200, D2Rr / 3600 * 0.1 / 256, 0.05 * ldexp(1, -15), true, true, true};
    case 8: return {200, ldexp(1, -19), ldexp(1, -14), true, true, true};
    case 33: return {200, 0.1 / (3600.0 * 256.0), 0.05 * ldexp(1, -15), true, true, true};
    case 31: return {200, D2Rr * 720 * ldexp(1, -31), 200 * ldexp(1, -31), true, true, true};
    default: s.has_rate = s.has_g = s.has_a = false; return s;
  }
}
int pos_mode(uint32_t t) {
  switch (t) {
    case 0: return 0; case 16: return 1; case 17: return 2; case 18: return 6; case 34: return 3; case 48: case 49: case 50: return 4;
    case 53: return 1 | 8; case 52: return 6 | 8; case 54: return 2 | 8; case 55: return 3 | 8; case 56: return 4 | 8; default: return 1;
  }
}
struct Model {
  uint16_t t_wn = PRO_WEEK; uint32_t t_tow = (uint32_t)PRO_MS;
  uint32_t f_tow = (uint32_t)PRO_MS; int f_flags = 0;
  uint16_t i_wn = 0; uint32_t i_tow = 0; uint16_t a_wn = 0; uint32_t a_tow = 0;
  std::vector<ExpSbp> out;
  static std::string E(bool c, const char *w, double got, double want) { return c ? "" : fmt("%s is %.10g, expected %.10g", w, got, want); }
#define EX(c, w, g, e) do { std::string s_ = E(c, w, (double)(g), (double)(e)); if (!s_.empty()) return s_; } while (0)
  void time(uint16_t wn, uint32_t tow) {
    if (t_wn != wn || t_tow != tow)
      out.push_back({0x0102, [=](const Bytes &p) -> std::string {
        EX(p.size() == 11, "length", p.size(), 11); EX(rd16(&p[0]) == wn, "week", rd16(&p[0]), wn); EX(rd32(&p[2]) == tow, "tow", rd32(&p[2]), tow);
        EX(rd32(&p[6]) == 0, "ns", rd32(&p[6]), 0); EX(p[10] == 1, "flags", p[10], 1); return ""; }, "GPS time"});
    t_wn = wn; t_tow = tow;
  }
  void msg(const Seen &s, const uint8_t *b) {
    uint32_t tow = (uint32_t)s.ms; uint16_t wn = s.week;
    switch (s.id) {
      case 42: {
        time(wn, tow);
        double lat = rdd(b + 8), lon = rdd(b + 16), hgt = rdd(b + 24); float sla = rdf(b + 40), slo = rdf(b + 44), sh = rdf(b + 48);
        int fl = pos_mode(rd32(b + 4)); uint8_t ns = b[65];
        out.push_back({0x020A, [=](const Bytes &p) -> std::string {
          EX(p.size() == 34, "length", p.size(), 34); EX(rd32(&p[0]) == tow, "tow", rd32(&p[0]), tow);
          EX(deq(lat, rdd(&p[4])), "lat", rdd(&p[4]), lat); EX(deq(lon, rdd(&p[12])), "lon", rdd(&p[12]), lon);
          double want = hgt + get_geoid_offset(lat * D2R, lon * D2R);
          EX(std::isnan(want) ? std::isnan(rdd(&p[20])) : want == rdd(&p[20]) || std::fabs(rdd(&p[20]) - want) <= 1e-9 * std::fabs(want), "height", rdd(&p[20]), want);
          double ha = std::fmax((double)sla, (double)slo) * 1000, va = (double)sh * 1000;
          EX(near_(rd16(&p[28]), sat(ha, 0, 65535), 0.6 + 1e-3), "h_accuracy", rd16(&p[28]), ha); EX(near_(rd16(&p[30]), sat(va, 0, 65535), 0.6 + 1e-3), "v_accuracy", rd16(&p[30]), va);
          EX(p[32] == ns, "n_sats", p[32], ns); EX(p[33] == fl, "flags", p[33], fl); return ""; }, "position"});
        f_tow = tow; f_flags = fl; break; }
      case 99: {
        time(wn, tow);
        double hs = rdd(b + 16), tr = rdd(b + 24), vs = rdd(b + 32); int fl = f_tow == tow ? f_flags : 0;
        out.push_back({0x020E, [=](const Bytes &p) -> std::string {
          EX(p.size() == 22, "length", p.size(), 22); EX(rd32(&p[0]) == tow, "tow", rd32(&p[0]), tow);
          double n = sat(1000 * hs * cos(tr * D2Rr), INT32_MIN, INT32_MAX), e = sat(1000 * hs * sin(tr * D2Rr), INT32_MIN, INT32_MAX), d = sat(-1000 * vs, INT32_MIN, INT32_MAX);
          double tol = std::fabs(tr) > 1e6 ? 1e300 : 0.51 + 1e-6 * std::fabs(hs);
          EX(near_((int32_t)rd32(&p[4]), n, tol), "north", (int32_t)rd32(&p[4]), n); EX(near_((int32_t)rd32(&p[8]), e, tol), "east", (int32_t)rd32(&p[8]), e);
          EX(near_((int32_t)rd32(&p[12]), d, 1.01), "down", (int32_t)rd32(&p[12]), d);
          EX(p[21] == fl, "flags", p[21], fl); return ""; }, "velocity"});
        break; }
      case 7: {
        uint32_t prn = rd32(b), week = rd32(b + 24); double toe = rdd(b + 32), toc = rdd(b + 164);
        bool ok = prn <= 255 && week <= 65535 && toe >= 0 && toe <= 4294967295.0 && toc >= 0 && toc <= 4294967295.0;
        if (!ok) break;
        Bytes raw(b, b + 224);
        out.push_back({0x008A, [=](const Bytes &p) -> std::string {
          const uint8_t *q = raw.data();
          EX(p.size() == 139, "length", p.size(), 139);
          EX(p[0] == prn, "sat", p[0], prn); EX(p[1] == 0, "code", p[1], 0); EX(rd32(&p[2]) == (uint32_t)toe, "toe", rd32(&p[2]), toe); EX(rd16(&p[6]) == week, "toe week", rd16(&p[6]), week);
          double ura = sqrt(rdd(q + 216)); EX(feq(ura, rdf(&p[8])), "ura", rdf(&p[8]), ura); EX(rd32(&p[12]) == 14400, "fit", rd32(&p[12]), 14400);
          EX(p[16] == 1, "valid", p[16], 1); EX(p[17] == q[12], "health", p[17], q[12]);
          size_t o = 18;
          struct { const char *n; int off; } F[7] = {{"tgd", 172}, {"c_rs", 104}, {"c_rc", 96}, {"c_uc", 80}, {"c_us", 88}, {"c_ic", 112}, {"c_is", 120}};
          for (auto &f : F) { EX(feq(rdd(q + f.off), rdf(&p[o])), f.n, rdf(&p[o]), rdd(q + f.off)); o += 4; }
          return ""; }, "GPS ephemeris"});
        // doubles are checked by ephem_rest (offsets computed sequentially)
        auto base = out.back().chk;
        out.back().chk = [=](const Bytes &p) -> std::string { std::string s1 = base(p); if (!s1.empty()) return s1; return ephem_rest(raw.data(), p); };
        break; }
      case 263: {
        double ro = rdd(b + 12), pi = rdd(b + 20), az = rdd(b + 28); uint32_t st = rd32(b + 36);
        out.push_back({0x0221, [=](const Bytes &p) -> std::string {
          EX(p.size() == 29, "length", p.size(), 29); EX(rd32(&p[0]) == tow, "tow", rd32(&p[0]), tow);
          double v[3] = {ro, pi, az}; const char *n[3] = {"roll", "pitch", "yaw"};
          for (int i = 0; i < 3; i++) { double w = sat(v[i] * 1e6, INT32_MIN, INT32_MAX); int32_t g = (int32_t)rd32(&p[4 + 4 * i]); EX(near_(g, w, 0.51), n[i], g, w); }
          EX(p[28] == (st == 3), "flags", p[28], st == 3); return ""; }, "orientation"});
        break; }
      case 1462: {
        double rate = 0; bool have = false;
        if (i_wn != 0 && wn != 0 && i_tow != 0 && tow != 0) {
          if (tow > i_tow && wn == i_wn) { rate = 1000.0 / (tow - i_tow); have = true; }
          else if (tow < i_tow && wn == i_wn + 1) { rate = 1000.0 / (uint32_t)(604800000u - i_tow + tow); have = true; }
        }
        uint8_t ty = b[1];
        bool bad = (b[0] & 3) != 0;
        if (!have) { ImuScale s0 = imu(ty, 1); rate = s0.rate; have = s0.has_rate; }
        ImuScale sc = imu(ty, rate);
        int32_t az = (int32_t)rd32(b + 16), ay = (int32_t)rd32(b + 20), ax = (int32_t)rd32(b + 24), gz = (int32_t)rd32(b + 28), gy = (int32_t)rd32(b + 32), gx = (int32_t)rd32(b + 36);
        if (have && !bad && sc.has_g) {
          double k = sc.gyro * rate * 180 / M_PI;
          double v[3] = {gx * k, gy * k, gz * k};
          out.push_back({0x0222, [=](const Bytes &p) -> std::string {
            EX(p.size() == 17, "length", p.size(), 17); EX(rd32(&p[0]) == tow, "tow", rd32(&p[0]), tow);
            for (int i = 0; i < 3; i++) { double w = sat(v[i] * 1e6, INT32_MIN, INT32_MAX); int32_t g = (int32_t)rd32(&p[4 + 4 * i]); EX(near_(g, w, 1.01 + std::fabs(w) * 1e-9), "rate", g, w); }
            EX(p[16] == 1, "flags", p[16], 1); return ""; }, fmt("angular rate (IMU type %u)", ty)});
        }
        if (have && !bad && sc.has_g && sc.has_a) {
          double kg = sc.gyro * rate * 180 / M_PI * 32768 / 125, ka = sc.acc * rate * 32768 / (8 * G0);
          double v[6] = {ax * ka, ay * ka, az * ka, gx * kg, gy * kg, gz * kg};
          out.push_back({0x0900, [=](const Bytes &p) -> std::string {
            EX(p.size() == 17, "length", p.size(), 17); EX(rd32(&p[0]) == tow, "tow", rd32(&p[0]), tow); EX(p[4] == 0, "tow_f", p[4], 0);
            for (int i = 0; i < 6; i++) { double w = sat(v[i], -32768, 32767); int16_t g = (int16_t)rd16(&p[5 + 2 * i]); EX(near_(g, w, 1.01), i < 3 ? "accel" : "gyro", g, w); }
            return ""; }, fmt("raw IMU (IMU type %u)", ty)});
        }
        bool hold = false;
        if (a_wn != 0 && wn != 0 && a_tow != 0 && tow != 0) hold = (int64_t)wn * 604800000ll + tow - ((int64_t)a_wn * 604800000ll + a_tow) < 1000;
        if (!hold) {
          out.push_back({0x0901, [=](const Bytes &p) -> std::string { EX(p.size() == 4, "length", p.size(), 4); EX(p[0] == 1, "type", p[0], 1); EX(p[3] == 0x42, "conf", p[3], 0x42); return ""; }, "IMU aux"});
          a_wn = wn; a_tow = tow;
        }
        i_wn = wn; i_tow = tow; break; }
      case 140: {
        uint32_t n = rd32(b); if (n > 63) n = 63;
        uint32_t total = n == 0 ? 1 : (n + 13) / 14;
        bool time_ok = s.ms >= 0 && s.ms < 604800000;
        for (uint32_t c = 0; c < total; c++) {
          struct O { double P, L, D, cn0, lock; uint8_t fl, sat, code; };
          std::vector<O> ob;
          for (uint32_t k = c * 14; k < n && k < (c + 1) * 14; k++) {
            const uint8_t *q = b + 4 + 24 * k;
            auto bits = [&](int off, int len) { uint64_t v = 0; for (int z = 0; z < len; z++) v |= (uint64_t)((q[(off + z) / 8] >> ((off + z) % 8)) & 1) << z; return v; };
            uint32_t st = (uint32_t)bits(0, 32), sys = st >> 16 & 7, sig = st >> 21 & 31;
            O o; o.sat = (uint8_t)bits(136, 8);
            int code = sys == 0 && sig == 0 ? 0 : sys == 0 && sig == 5 ? 6 : sys == 1 && sig == 0 ? 3 : sys == 1 && sig == 1 ? 4 : -1;
            if (code < 0) continue;
            bool gps = sys == 0;
            if (gps ? (o.sat < 1 || o.sat > 32) : (o.sat < 1 || o.sat > 28)) continue;
            o.code = (uint8_t)code;
            o.P = (double)bits(60, 36) / 128 * 50; o.L = -(double)(int32_t)(uint32_t)bits(96, 32); o.D = (double)((int32_t)((uint32_t)bits(32, 28) << 4) >> 4);
            if (std::round(o.P) > 4294967295.0 || std::floor(o.D / 256) < -32768 || std::floor(o.D / 256) > 32767) continue;
            o.fl = (uint8_t)((st & 0x1000 ? 1 | 8 : 0) | (st & 0xC00 ? 2 : 0) | (st & 0x10000000 ? 4 : 0));
            o.cn0 = st & 0x1000 ? (bits(165, 5) + 20.0) * 4 : 0;
            o.lock = (double)bits(144, 21) / 32;
            ob.push_back(o);
          }
          ev("obs-expected", ob.size());
          out.push_back({0x004A, [=](const Bytes &p) -> std::string {
            EX(p.size() == 11 + 17 * ob.size(), "length", p.size(), 11 + 17 * ob.size());
            EX(p[10] == (total << 4 | c), "n_obs", p[10], total << 4 | c);
            if (n && time_ok) { EX(rd32(&p[0]) == tow, "tow", rd32(&p[0]), tow); EX(std::abs((int32_t)rd32(&p[4])) <= 1, "ns", (int32_t)rd32(&p[4]), 0); EX(rd16(&p[8]) == wn, "week", rd16(&p[8]), wn); }
            for (size_t k = 0; k < ob.size(); k++) {
              const uint8_t *q = &p[11 + 17 * k]; const O &o = ob[k];
              EX(near_(rd32(q), o.P, 0.5001), "P", rd32(q), o.P);
              double L = (int32_t)rd32(q + 4) * 256.0 + q[8]; EX(L == o.L, "L", L, o.L);
              double D = (int16_t)rd16(q + 9) * 256.0 + q[11]; EX(D == o.D, "D", D, o.D);
              EX(q[12] == o.cn0, "cn0", q[12], o.cn0);
              // lock indicator: largest i with lock >= 2^(i+4) ms
              int li = 0; for (int i2 = 1; i2 < 15 + 1; i2++) if (o.lock * 1000 >= (double)(1u << (i2 + 4))) li = i2;
              EX(q[13] == li, "lock", q[13], li);
              EX(q[14] == o.fl, "flags", q[14], o.fl); EX(q[15] == o.sat, "sat", q[15], o.sat); EX(q[16] == o.code, "code", q[16], o.code);
            }
            return ""; }, "observations"});
        }
        break; }
      default: break;
    }
  }
  static std::string ephem_rest(const uint8_t *q, const Bytes &p) {
    // NovAtel layout: prn u32, tow d, health,iode1,iode2,week,z_week u32, toe d @32, A @40, dN 48, M0 56, ecc 64, omega 72,
    // cuc 80, cus 88, crc 96, crs 104, cic 112, cis 120, I0 128, Idot 136, omega0 144, omegadot 152, iodc u32 160, toc 164, tgd 172, af0 180, af1 188, af2 196
    struct { const char *n; int off; bool sq; } D[9] = {{"dn", 48, 0}, {"m0", 56, 0}, {"ecc", 64, 0}, {"sqrta", 40, 1}, {"omega0", 144, 0}, {"omegadot", 152, 0}, {"w", 72, 0}, {"inc", 128, 0}, {"inc_dot", 136, 0}};
    size_t o = 18 + 28;
    for (auto &f : D) { double w = rdd(q + f.off); if (f.sq) w = sqrt(w); EX(deq(w, rdd(&p[o])), f.n, rdd(&p[o]), w); o += 8; }
    struct { const char *n; int off; } F[3] = {{"af0", 180}, {"af1", 188}, {"af2", 196}};
    for (auto &f : F) { EX(feq(rdd(q + f.off), rdf(&p[o])), f.n, rdf(&p[o]), rdd(q + f.off)); o += 4; }
    EX(rd32(&p[o]) == (uint32_t)rdd(q + 164), "toc", rd32(&p[o]), rdd(q + 164)); EX(rd16(&p[o + 4]) == rd32(q + 24), "toc week", rd16(&p[o + 4]), rd32(q + 24)); o += 6;
    EX(p[o] == q[16], "iode", p[o], q[16]); EX(rd16(&p[o + 1]) == rd16(q + 160), "iodc", rd16(&p[o + 1]), rd16(q + 160));
    return "";
  }
};

Bytes gen_stream(Rng &r, bool hostile, Bytes in) {
  int nf = 1 + (int)r.below(hostile ? 12 : 16);
  uint16_t week = (uint16_t)r.range(1, 4000); int64_t ms = r.range(0, 604799999);
  if (r.chance(1, 5)) ms = 604800000 - r.range(1, 30) * 10;
  static const uint16_t ids[] = {7, 42, 99, 140, 263, 1462};
  bool imu_run = r.chance(1, 3);
  uint8_t imu_ty = 0;
  for (int i = 0; i < nf; i++) {
    uint16_t id = imu_run && r.chance(3, 4) ? 1462 : ids[r.below(6)];
    if (hostile && r.chance(1, 10)) id = r.chance(1, 3) ? 723 : (uint16_t)r.bits(16);
    bool sane = hostile ? r.chance(1, 4) : r.chance(9, 10);
    Bytes body = rand_body(r, id, sane);
    if (id == 1462 && imu_run) { if (!imu_ty) imu_ty = body[1]; if (!hostile || r.chance(3, 4)) body[1] = imu_ty; }
    if (hostile && r.chance(1, 8)) body = r.bytes(r.below(400));
    Hdr h = rand_hdr(r, id);
    if (!hostile || r.chance(2, 3)) {
      h.week = week; h.ms = (int32_t)ms;
      switch (r.below(5)) { case 0: break; case 1: ms += 5; break; case 2: ms += 10; break; case 3: ms += 1000; break; default: ms += r.below(3000); }
      if (r.chance(1, 25)) week += (uint16_t)r.range(1, 2);  // a gap of whole weeks
      if (ms >= 604800000) { ms -= 604800000; week++; }
    }
    Bytes f = mkframe(h, body);
    if (hostile && r.chance(1, 10)) f[r.below((uint32_t)f.size())] ^= (uint8_t)r.u32();
    in.insert(in.end(), f.begin(), f.end());
  }
  return in;
}
// C80: what was converted before does not matter
void case_again(Rng &r) {
  Bytes x = gen_stream(r, r.chance(1, 4), Bytes()), y; uint64_t s = r.u64(); int cm = (int)r.below(4); uint32_t k = 1 + r.below(100);
  if (x.empty()) return;
  if (r.chance(1, 2)) y = gen_stream(r, r.chance(1, 4), Bytes()); else { y = x; if (r.chance(1, 2)) y.resize(r.below((uint32_t)y.size())); }
  Bytes o[3]; const Bytes *in[3] = {&x, &y, &x};
  for (int i = 0; i < 3; i++) { g_out.clear(); convert(*in[i], cm, k, s); o[i] = g_out; digest(g_out.data(), g_out.size()); }
  // the first conversion of this process may itself follow others
  size_t d = 0; while (d < o[0].size() && d < o[2].size() && o[0][d] == o[2][d]) d++;
  VH_CHECK(o[0] == o[2], "history", "the same input gave %zu bytes, then %zu after another conversion of %zu bytes; first difference at %zu", o[0].size(), o[2].size(), y.size(), d);
  ev("conversion-repeated"); ev("bytes-compared", o[0].size()); if (!o[0].empty() && !o[1].empty()) { nontrivial(); distinct(o[0].data(), o[0].size()); }
}
void case_sbp(Rng &r, bool hostile) {
  Bytes in = prologue();
  size_t skip = in.size();
  in = gen_stream(r, hostile, in);
  g_out.clear();
  int cm = (int)r.below(4); uint32_t k = 1 + r.below(100);
  convert(in, cm, k, r.u64());
  ev("conversions");
  std::vector<SbpFrame> fr; std::string err;
  if (!sbp_split(g_out, fr, err)) { violate("malformed-output", "output is not a sequence of valid SBP frames: %s", err.c_str()); return; }
  for (auto &f : fr) VH_CHECK(f.sender == 5000, "sender", "sender %u", f.sender);
  digest(g_out.data(), g_out.size());
  ev("sbp-frames", fr.size());
  Model m;
  auto seen = scan(in);
  for (auto &s : seen) if (s.off > skip && deliverable(s, in)) m.msg(s, &in[s.off]);
  // the prologue's own output ends with its IMU AUX message
  size_t p = 0;
  while (p < fr.size() && fr[p].type != 0x0901) p++;
  p++;
  if (hostile) { nontrivial(); distinct(g_out.data(), g_out.size()); sample("%zu bytes in, %zu SBP frames out", in.size(), fr.size()); return; }
  size_t e = 0;
  for (; e < m.out.size(); e++, p++) {
    if (p >= fr.size()) { violate("missing-output", "SBP %s (0x%04x) missing after %zu messages", m.out[e].what.c_str(), m.out[e].type, e); return; }
    if (fr[p].type != m.out[e].type) { violate("wrong-output", "SBP message %zu is 0x%04x, expected %s (0x%04x)", e, fr[p].type, m.out[e].what.c_str(), m.out[e].type); return; }
    std::string s = m.out[e].chk(fr[p].payload);
    evs("checked-" + m.out[e].what.substr(0, m.out[e].what.find(" (")));
    if (!s.empty()) { violate("value-" + m.out[e].what.substr(0, m.out[e].what.find(" (")), "%s: %s", m.out[e].what.c_str(), s.c_str()); return; }
    distinct(fr[p].payload.data(), fr[p].payload.size());
  }
  if (p != fr.size()) violate("extra-output", "unexpected SBP message 0x%04x", fr[p].type);
  if (e) nontrivial();
  sample("%zu NovAtel frames -> %zu SBP messages checked against the model (chunk mode %d)", seen.size() - 2, e, cm);
}
#ifdef VH_CLI
}  // namespace
#include "cli.hpp"
int cli_nov2sbp_main(int, char **);
namespace {
void cli_convert(const Bytes &in, uint64_t s) {
  Rng r(s); CliRun o = run_cli("nov2sbp", cli_nov2sbp_main, {}, in, r); if (violated()) return;
  expect_success("nov2sbp", {}, o, in.size()); g_out = o.out;
}
void case_cli(Rng &r) {
  if (r.chance(1, 24)) { std::vector<std::string> a = {"-h"}; CliRun o = run_cli("nov2sbp", cli_nov2sbp_main, a, r.bytes(40), r); if (!violated()) expect_help("nov2sbp", a, o); return; }
  case_sbp(r, false);
}
#endif
}  // namespace

void vh_setup() { freopen("/dev/null", "w", stdout); }
void vh_case(Rng &r, uint64_t idx) {
  if (mode() == "frame") case_frame(r, false);
  else if (mode() == "fields") { if (idx % 8 == 0) case_prim(r); else case_frame(r, true); }
  else if (mode() == "sbp") case_sbp(r, false);
  else if (mode() == "again") case_again(r);
#ifdef VH_CLI
  else if (mode() == "cli" || mode() == "files") case_cli(r);
#endif
  else case_sbp(r, true);
}
