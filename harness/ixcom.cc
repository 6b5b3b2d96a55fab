// IXCOM: libixcom codec and the IXCOM -> SBP converter, compared with
// reference models computed from the generated field values.
#include "vh.hpp"
#include <algorithm>
extern "C" {
#include <gnss-converters/ixcom_sbp.h>
#include <ixcom/decode.h>
#include <ixcom/encode.h>
#include <libsbp/sbp.h>
#include <libsbp/v4/sbp_msg.h>
}
using namespace vh;

namespace {
struct Ev { uint16_t sender; sbp_msg_type_t type; sbp_msg_t msg; };
struct Ctx { Rng &r; ixcom_sbp_state *st; Feed feed; std::vector<Ev> out; std::vector<int> rets; uint16_t sender = DEFAULT_IXCOM_SENDER_ID; std::vector<size_t> mark;
  explicit Ctx(Rng &r_); ~Ctx() { free(st); } };
void cb(uint16_t sender, sbp_msg_type_t type, const sbp_msg_t *msg, void *ctx) {
  Ctx *c = (Ctx *)ctx;
  if (c->out.size() > 50000) { violate("flood", "more than 50000 messages"); return; }
  uint8_t b[512]; uint8_t n = 0; s8 rc = sbp_message_encode(b, 255, &n, type, msg);
  VH_CHECK(rc == SBP_OK, "sbp.unencodable", "message type %u: rc %d", type, rc);
  digest_v(sender); digest_v(type); digest(b, n); ev("sbp-emitted");
  Ev e; e.sender = sender; e.type = type; memcpy(&e.msg, msg, sizeof *msg); c->out.push_back(e);
}
int rd(uint8_t *buf, size_t n, void *ctx) { return feed_read(buf, (uint32_t)n, &((Ctx *)ctx)->feed); }
Ctx::Ctx(Rng &r_) : r(r_) {
  st = (ixcom_sbp_state *)malloc(sizeof *st); memset(st, fill(0xA5), sizeof *st); ixcom_sbp_init(st, cb, this);
  if (r.chance(1, 3)) { sender = (uint16_t)r.u32(); ixcom_set_sender_id(st, sender); }
}
#ifdef VH_CLI
std::vector<std::string> g_args; void cli_run(Ctx &c, const Bytes &s);
#endif
// the whole stream, possibly in several parts with an end of input in between
void run(Ctx &c, const Bytes &s) {
#ifdef VH_CLI
  cli_run(c, s); return;
#endif
  size_t parts = c.r.chance(1, 3) ? 1 + c.r.below(4) : 1, at = 0;
  for (size_t p = 0; p < parts; p++) {
    size_t end = p + 1 == parts ? s.size() : at + c.r.below((uint32_t)(s.size() - at) + 1);
    c.feed.data = Bytes(s.begin() + (long)at, s.begin() + (long)end); c.feed.pos = 0; c.feed.rng = Rng(c.r.u64()); c.feed.mode = (int)c.r.below(4); c.feed.k = 1 + c.r.below(64); at = end;
    for (;;) {
      int ret = ixcom_sbp_process(c.st, rd);
      if (ret <= 0) { VH_CHECK(ret == 0, "end-of-stream", "process returned %d at the end", ret); break; }
      c.rets.push_back(ret); c.mark.push_back(c.out.size());
      if (c.rets.size() > s.size() / 20 + 2) { violate("frames.duplicated", "%zu frames from %zu bytes", c.rets.size(), s.size()); return; }
    }
    VH_CHECK(c.feed.pos == c.feed.data.size(), "stream.unread", "stopped %zu bytes before the end", c.feed.data.size() - c.feed.pos);
    if (parts > 1) ev("input-resumed");
  }
}
Bytes frame(int id, int counter, int trigger, int week, uint32_t sec, uint32_t usec, const Bytes &body, uint32_t status, int len = -1) {
  W w; w.u8(0x7E); w.u8((uint32_t)id); w.u8((uint32_t)counter); w.u8((uint32_t)trigger); w.u16(len >= 0 ? (uint32_t)len : (uint32_t)(20 + body.size())); w.u16((uint32_t)week); w.u32(sec); w.u32(usec); w.raw(body); w.u16(status); w.u16(crc16_ccitt_ref(w.b.data(), w.b.size())); return w.b;
}
Bytes rnd_body(Rng &r, int &id) {
  W w;
  if (r.chance(1, 2)) { id = 0; for (int i = 0; i < 6; i++) w.f32(r.chance(1, 2) ? (float)r.uniform(-50, 50) : r.flt()); return w.b; }
  id = 0x16; w.f32(r.chance(1, 2) ? (float)r.uniform(-100, 100) : r.flt()); w.u32((uint32_t)r.bits(32)); return w.b;
}
Bytes rnd_frame(Rng &r) {
  int id; Bytes b = rnd_body(r, id); return frame(id, (int)r.bits(8), (int)r.bits(8), (int)r.bits(16), r.chance(1, 2) ? r.below(604800) : (uint32_t)r.bits(32), r.chance(1, 2) ? r.below(1000000) : (uint32_t)r.bits(32), b, (uint32_t)r.bits(16));
}
std::vector<Bytes> SEEDS;

// -------------------------------------------------------------- C03: hostile
void case_hostile(Rng &r) {
  Ctx c(r); Bytes s;
  if (!SEEDS.empty() && r.chance(1, 6)) {
    s = r.pick(SEEDS); if (s.size() > 20000) { size_t o = r.below((uint32_t)(s.size() - 20000)); s = Bytes(s.begin() + (long)o, s.begin() + (long)o + 20000); }
    uint32_t k = r.below(40); for (uint32_t i = 0; i < k && !s.empty(); i++) s[r.below((uint32_t)s.size())] = (uint8_t)r.u32();
  } else {
    int n = 1 + (int)r.below(30);
    for (int i = 0; i < n; i++) {
      Bytes f;
      switch (r.below(6)) {
        case 0: f = r.bytes(r.below(100)); break;
        case 1: { f = frame((int)(r.chance(1, 2) ? (r.chance(1, 2) ? 0 : 0x16) : r.bits(8)), 0, 0, 0, r.u32(), r.u32(), r.bytes(r.chance(1, 6) ? r.below(4200) : r.below(60)), 0); break; }
        default: f = rnd_frame(r);
      }
      if (r.chance(1, 8) && f.size() > 6) { uint32_t l = (uint32_t)r.bits(16); f[4] = (uint8_t)l; f[5] = (uint8_t)(l >> 8); }
      if (r.chance(1, 8) && !f.empty()) f[r.below((uint32_t)f.size())] ^= (uint8_t)(1u << r.below(8));
      if (r.chance(1, 12)) f.resize(r.below((uint32_t)f.size() + 1));
      if (r.chance(1, 12)) s.insert(s.end(), 1 + r.below(5), 0x7E);
      s.insert(s.end(), f.begin(), f.end());
    }
  }
  run(c, s); if (!c.out.empty()) nontrivial(); ev("frames-accepted", c.rets.size()); distinct(s.data(), s.size());
}

// ----------------------------------------------------- C12 and C43: messages
int64_t near_(double x, double tol, int64_t got) { return std::fabs((double)got - x) <= tol; }
bool imu_ok(float v, double scale, int16_t got) {  // value / scale, nearest, within the range of the field
  if (std::isnan(v)) return got == 0;
  double x = (double)v / scale; if (x <= -32768) return got == -32768; if (x >= 32767) return got == 32767 || (x < 32767.6 && got == 32767);
  // single precision on the way: allow the neighbouring value close to a half
  return std::fabs((double)got - x) <= 0.5 + std::fabs(x) * 1e-6 + 1e-6;
}
bool speed_ok(float v, int32_t got) {
  if (std::isnan(v)) return got == 0;
  double x = (double)v * 1000; if (x <= -2147483648.0) return got == INT32_MIN; if (x >= 2147483647.0) return got >= 2147483520;  // largest float below 2^31
  return std::fabs((double)got - x) <= 1.0 + std::fabs(x) * 1.3e-7;
}
struct RefFrame { size_t pos, len; };
std::vector<RefFrame> scan(const Bytes &s) {
  std::vector<RefFrame> v; size_t p = 0;
  while (p < s.size()) {
    if (s[p] != 0x7E) { p++; continue; }
    if (s.size() - p < 16) break;
    size_t len = rd16(&s[p + 4]); if (len < 20 || len >= 4096) { p += 16; ev("impossible-length"); continue; }
    if (s.size() - p < len) break;
    v.push_back({p, len}); p += len;
  }
  return v;
}
void check_output(Ctx &c, const Bytes &s) {
  auto ref = scan(s);
  VH_CHECK(c.rets.size() == ref.size(), c.rets.size() < ref.size() ? "frame.lost" : "frame.invented", "%zu frames handed on, %zu in the stream", c.rets.size(), ref.size());
  size_t o = 0; uint32_t imus = 0;
  for (size_t i = 0; i < ref.size() && i < c.rets.size(); i++) {
    const uint8_t *m = &s[ref[i].pos]; size_t len = ref[i].len;
    if ((size_t)c.rets[i] != len) { violate("frame.length", "frame %zu has %d bytes, expected %zu", i, c.rets[i], len); return; }
    bool good = crc16_ccitt_ref(m, len - 2) == rd16(m + len - 2);
    int kind = m[1] == 0 && len == 44 && good ? 1 : m[1] == 0x16 && len == 28 && good ? 2 : 0;
    uint32_t sec = rd32(m + 8), usec = rd32(m + 12), tow = sec * 1000u + usec / 1000;
    size_t need = kind == 1 ? (imus % 100 == 0 ? 2 : 1) : kind == 2 ? 2 : 0;
    if (c.mark[i] - o != need) { violate(kind == 1 ? "imu.messages" : kind == 2 ? "wheel.messages" : "frame.ignored-kind", "frame %zu of %zu bytes, id %02x, checksum %s: %zu messages, expected %zu", i, len, m[1], good ? "right" : "wrong", c.mark[i] - o, need); return; }
    for (size_t k = o; k < c.mark[i]; k++) VH_CHECK(c.out[k].sender == c.sender, "sender", "sender %u expected %u", c.out[k].sender, c.sender);
    if (kind == 1) {
      const Ev &e = c.out[o]; if (e.type != SbpMsgImuRaw) { violate("imu.type", "type %u", e.type); return; }
      const sbp_msg_imu_raw_t &x = e.msg.imu_raw;
      VH_CHECK(x.tow == tow && x.tow_f == (usec % 1000) * 256 / 1000, "imu.time", "tow %u.%u for %u s %u us", x.tow, x.tow_f, sec, usec);
      float f[6]; for (int k = 0; k < 6; k++) f[k] = rdf(m + 16 + 4 * k); const int16_t g[6] = {x.acc_x, x.acc_y, x.acc_z, x.gyr_x, x.gyr_y, x.gyr_z};
      for (int k = 0; k < 6; k++) { double sc = k < 3 ? 4.0 * 9.80665 / 32768 : 125.0 / 32768 * M_PI / 180; VH_CHECK(imu_ok(f[k], sc, g[k]), k < 3 ? "imu.acceleration" : "imu.rate", "axis %d: %d for %.9g (%.6f)", k % 3, g[k], (double)f[k], (double)f[k] / sc); ev("imu-axis-compared"); if (std::isnan(f[k])) ev("nan-axis"); if (std::fabs(f[k] / sc) > 32767) ev("saturated-axis"); }
      if (imus % 100 == 0) { const Ev &a = c.out[o + 1]; VH_CHECK(a.type == SbpMsgImuAux && a.msg.imu_aux.imu_type == 255 && a.msg.imu_aux.temp == 0 && a.msg.imu_aux.imu_conf == 0x41, "imu.aux", "type %u: imu %u temp %d conf %02x", a.type, a.msg.imu_aux.imu_type, a.msg.imu_aux.temp, a.msg.imu_aux.imu_conf); ev("imu-aux-compared"); }
      imus++; distinct(g, sizeof g); nontrivial();
    } else if (kind == 2) {
      const Ev &e = c.out[o], &t = c.out[o + 1]; if (e.type != SbpMsgOdometry || t.type != SbpMsgWheeltick) { violate("wheel.type", "types %u %u", e.type, t.type); return; }
      const sbp_msg_odometry_t &x = e.msg.odometry; const sbp_msg_wheeltick_t &y = t.msg.wheeltick; float v = rdf(m + 16);
      VH_CHECK(x.tow == tow, "wheel.time", "tow %u for %u s %u us", x.tow, sec, usec); VH_CHECK(speed_ok(v, x.velocity), "wheel.speed", "%d for %.9g m/s", x.velocity, (double)v); VH_CHECK(x.flags == 1, "wheel.flags", "%u", x.flags);
      VH_CHECK(y.time == (uint64_t)sec * 1000000 + usec, "wheel.tick-time", "%" PRIu64 " for %u s %u us", (uint64_t)y.time, sec, usec); VH_CHECK(y.flags == 1 && y.source == 0, "wheel.tick-flags", "flags %u source %u", y.flags, y.source); VH_CHECK(y.ticks == (int32_t)rd32(m + 20), "wheel.ticks", "%d expected %d", y.ticks, (int32_t)rd32(m + 20));
      ev("wheel-compared"); distinct(m + 8, 16); nontrivial();
    } else ev(good ? "other-kind-ignored" : "damaged-ignored");
    o = c.mark[i];
  }
  VH_CHECK(c.out.size() == (c.mark.empty() ? 0 : c.mark.back()), "frame.extra", "%zu messages outside frames", c.out.size() - (c.mark.empty() ? 0 : c.mark.back()));
  ev("frames-expected", ref.size());
}
void case_conv(Rng &r) {  // whole frames of every content
  Ctx c(r); Bytes s; bool imus = r.chance(1, 24); int n = imus ? 260 + (int)r.below(500) : r.chance(1, 8) ? 90 + (int)r.below(260) : 1 + (int)r.below(20);
  for (int i = 0; i < n; i++) { Bytes f = rnd_frame(r); while (imus && f[1]) f = rnd_frame(r); if (r.chance(1, imus ? 200 : 20)) f[r.below((uint32_t)f.size() - 6) + 6] ^= (uint8_t)(1u << r.below(8)); s.insert(s.end(), f.begin(), f.end()); }
  run(c, s); check_output(c, s);
}
void case_frame(Rng &r) {
  Ctx c(r); Bytes s; int n = 2 + (int)r.below(14);
  for (int i = 0; i < n; i++) {
    Bytes f; int id = r.chance(1, 2) ? 0 : 0x16;
    switch (r.below(12)) {
      case 0: f = r.bytes(r.below(60)); break;
      case 1: f = Bytes(1 + r.below(20), 0x7E); break;
      case 2: { uint32_t l = r.pick(std::vector<uint32_t>{0, 1, 15, 16, 17, 18, 19, 4096, 4097, 8192, 65535, 32768}); f = rnd_frame(r); f[4] = (uint8_t)l; f[5] = (uint8_t)(l >> 8); break; }
      case 3: f = frame(r.chance(1, 2) ? id : 0x40, 1, 0, 2000, r.u32(), 5, r.bytes(4075 - r.below(2)), 0); break;
      case 4: { Bytes in = rnd_frame(r), b = r.bytes(r.below(30)); b.insert(b.end(), in.begin(), in.end()); f = frame(0x03, 1, 0, 2000, 1, 5, b, 0); break; }
      case 5: { f = frame((int)r.bits(8), 1, 0, 2000, 1, 5, r.bytes(r.chance(1, 2) ? 0 : r.below(40)), 0); break; }  // right kind, wrong size
      case 6: { Bytes b = r.bytes(100 + r.below(3900)); for (auto &x : b) if (r.chance(1, 10)) x = 0x7E; f = frame(0x05, 1, 0, 2000, 1, 5, b, 0); break; }
      default: f = rnd_frame(r);
    }
    if (r.chance(1, 7) && !f.empty()) f[r.below((uint32_t)f.size())] ^= (uint8_t)(1 + r.below(255));
    if (r.chance(1, 12) && !f.empty()) f.resize(r.below((uint32_t)f.size()));
    s.insert(s.end(), f.begin(), f.end());
  }
  run(c, s); check_output(c, s);
}

#ifdef VH_CLI
}  // namespace
#include "cli.hpp"
extern "C" int cli_ixcom2sbp_main(int, char **);
extern "C" {
#include <libsbp/v4/sbp_msg.h>
}
namespace {
void cli_run(Ctx &c, const Bytes &s) {
  Rng &r = c.r; std::vector<std::string> a;
  if (c.sender != DEFAULT_IXCOM_SENDER_ID || r.chance(1, 4)) { if (r.chance(1, 6)) a = with_value(r, "-s", "--sender_id", sender_text(r, (uint16_t)r.bits(16))); auto b = with_value(r, "-s", "--sender_id", sender_text(r, c.sender)); a.insert(a.end(), b.begin(), b.end()); }
  CliRun o = run_cli("ixcom2sbp", cli_ixcom2sbp_main, a, s, r); if (violated()) return;
  expect_success("ixcom2sbp", a, o, s.size());
  std::vector<SbpFrame> fr; std::string err; if (!sbp_split(o.out, fr, err)) { violate("malformed-output", "ixcom2sbp%s: %s", join(a).c_str(), err.c_str()); return; }
  for (auto &f : fr) { Ev e; e.sender = f.sender; e.type = (sbp_msg_type_t)f.type; memset((void *)&e.msg, 0, sizeof e.msg); uint8_t n = 0; s8 rc = sbp_message_decode(f.payload.data(), (uint8_t)f.payload.size(), &n, e.type, &e.msg); VH_CHECK(rc == SBP_OK, "malformed-output", "type %u: %d", f.type, rc); c.out.push_back(e); }
  digest(o.out.data(), o.out.size());
  // the model says which frame each message belongs to
  uint32_t imus = 0; size_t at = 0;
  for (auto &q : scan(s)) { const uint8_t *m = &s[q.pos]; bool good = crc16_ccitt_ref(m, q.len - 2) == rd16(m + q.len - 2); if (m[1] == 0 && q.len == 44 && good) at += imus++ % 100 == 0 ? 2 : 1; else if (m[1] == 0x16 && q.len == 28 && good) at += 2; c.rets.push_back((int)q.len); c.mark.push_back(std::min(at, c.out.size())); }
  VH_CHECK(at <= c.out.size(), "frame.lost", "%zu messages instead of %zu from %zu bytes", c.out.size(), at, s.size());
  sample("ixcom2sbp%s: %zu bytes in, %zu messages out", join(a).c_str(), s.size(), c.out.size());
}
void case_cli(Rng &r) {
  if (r.chance(1, 20)) { std::vector<std::string> a = {r.chance(1, 2) ? "-h" : "--help"}; CliRun o = run_cli("ixcom2sbp", cli_ixcom2sbp_main, a, rnd_frame(r), r); if (!violated()) expect_help("ixcom2sbp", a, o); return; }
  if (r.chance(1, 5)) { auto a = with_value(r, "-s", "--sender_id", bad_sender(r)); Bytes s; for (int i = 0; i < 5; i++) { Bytes f = rnd_frame(r); s.insert(s.end(), f.begin(), f.end()); } CliRun o = run_cli("ixcom2sbp", cli_ixcom2sbp_main, a, s, r); if (!violated()) { expect_refusal("ixcom2sbp", a, o); nontrivial(); distinct(fnv(join(a).data(), join(a).size())); } return; }
  if (r.chance(1, 2)) case_conv(r); else case_frame(r);
}
#endif
// ------------------------------------------------------------ C28: the codec
void case_codec(Rng &r) {
  int id; Bytes b = rnd_body(r, id); for (size_t i = 0; i + 3 < b.size(); i += 4) if (r.chance(1, 2)) for (int k = 0; k < 4; k++) b[i + (size_t)k] = (uint8_t)r.u32();
  Bytes f = frame(id, (int)r.bits(8), (int)r.bits(8), (int)r.bits(16), r.u32(), r.u32(), b, (uint32_t)r.bits(16));
  uint8_t *p = (uint8_t *)malloc(f.size()); memcpy(p, f.data(), f.size()); uint8_t *o = (uint8_t *)malloc(f.size()); memset(o, 0xEE, f.size());
  XCOMmsg_IMURAW mi; XCOMmsg_WHEELDATA mw; memset(&mi, 0x5A, sizeof mi); memset(&mw, 0x5A, sizeof mw);
  XCOMHeader h; memset(&h, 0x5A, sizeof h); VH_CHECK(ixcom_decode_header(p, &h) == IXCOM_RC_OK && memcmp(&h, p, 16) == 0, "ixcom.header", "%s", hex(f).c_str());
  XCOMFooter ft; memset(&ft, 0x5A, sizeof ft); VH_CHECK(ixcom_decode_footer(p + f.size() - 4, &ft) == IXCOM_RC_OK && ft.global_status.value == rd16(p + f.size() - 4) && ft.crc16 == rd16(p + f.size() - 2), "ixcom.footer", "%s", hex(f).c_str());
  VH_CHECK(ixcom_checksum(p, f.size() - 2) == crc16_ccitt_ref(p, f.size() - 2), "ixcom.checksum", "%s", hex(f).c_str());
  if (id == 0) {
    VH_CHECK(ixcom_decode_imuraw(p, &mi) == IXCOM_RC_OK, "imuraw.refused", "%s", hex(f).c_str());
    for (int k = 0; k < 3; k++) { VH_CHECK(memcmp((uint8_t *)&mi + offsetof(XCOMmsg_IMURAW, acc) + 4 * k, p + 16 + 4 * k, 4) == 0 && memcmp((uint8_t *)&mi + offsetof(XCOMmsg_IMURAW, omg) + 4 * k, p + 28 + 4 * k, 4) == 0, "imuraw.fields", "axis %d", k); }
    VH_CHECK(memcmp(&mi.header, p, 16) == 0 && mi.footer.global_status.value == rd16(p + 40) && mi.footer.crc16 == rd16(p + 42), "imuraw.frame", "header or footer");
    size_t n = ixcom_encode_imuraw(&mi, o); VH_CHECK(n == f.size() && memcmp(o, p, f.size()) == 0, "imuraw.encoded", "%zu bytes %s", n, hex(o, f.size()).c_str());
  } else {
    VH_CHECK(ixcom_decode_wheeldata(p, &mw) == IXCOM_RC_OK, "wheeldata.refused", "%s", hex(f).c_str());
    VH_CHECK(memcmp((uint8_t *)&mw + offsetof(XCOMmsg_WHEELDATA, speed), p + 16, 4) == 0 && mw.ticks == (int32_t)rd32(p + 20), "wheeldata.fields", "%s", hex(f).c_str());
    VH_CHECK(memcmp(&mw.header, p, 16) == 0 && mw.footer.global_status.value == rd16(p + 24) && mw.footer.crc16 == rd16(p + 26), "wheeldata.frame", "header or footer");
    size_t n = ixcom_encode_wheeldata(&mw, o); VH_CHECK(n == f.size() && memcmp(o, p, f.size()) == 0, "wheeldata.encoded", "%zu bytes %s", n, hex(o, f.size()).c_str());
  }
  nontrivial(); evs(id ? "decoded-wheeldata" : "decoded-imuraw"); distinct(f.data(), f.size());
  // any single damaged byte, another kind, another length
  auto dec = [&](void) { return id == 0 ? ixcom_decode_imuraw(p, &mi) : ixcom_decode_wheeldata(p, &mw); };
  size_t at = r.below((uint32_t)f.size()); p[at] ^= (uint8_t)(1u << r.below(8)); VH_CHECK(dec() == IXCOM_RC_INVALID_MESSAGE, "ixcom.damage-accepted", "byte %zu", at); memcpy(p, f.data(), f.size()); ev("damage-refused");
  uint32_t l = (uint32_t)r.bits(16); if (l != f.size()) { p[4] = (uint8_t)l; p[5] = (uint8_t)(l >> 8); uint16_t k = crc16_ccitt_ref(p, f.size() - 2); p[f.size() - 2] = (uint8_t)k; p[f.size() - 1] = (uint8_t)(k >> 8); VH_CHECK(dec() == IXCOM_RC_INVALID_MESSAGE, "ixcom.length-accepted", "announced length %u", l); memcpy(p, f.data(), f.size()); ev("length-refused"); }
  { p[1] = (uint8_t)(p[1] ^ (1 + r.below(255))); uint16_t k = crc16_ccitt_ref(p, f.size() - 2); p[f.size() - 2] = (uint8_t)k; p[f.size() - 1] = (uint8_t)(k >> 8); VH_CHECK(dec() == IXCOM_RC_INVALID_MESSAGE, "ixcom.kind-accepted", "id %02x", p[1]); ev("kind-refused"); }
  free(p); free(o);
}
}  // namespace

void vh_setup() {
  if (mode().find("hostile") != std::string::npos) for (auto &f : list_files(repo() + "/c/ixcom2sbp/test/data", ".bin")) { Bytes b = slurp(f); if (!b.empty()) SEEDS.push_back(b); }
}
void vh_case(Rng &r, uint64_t idx) {
  (void)idx; const std::string &m = mode();
  if (m == "frame") case_frame(r);
  else if (m == "conv") case_conv(r);
  else if (m == "codec") case_codec(r);
#ifdef VH_CLI
  else if (m == "cli" || m == "files") case_cli(r);
#endif
  else case_hostile(r);
}
