// UBX: libubx codec and the UBX -> SBP converter, compared with reference
// models computed from the generated field values.
#include "vh.hpp"
#include <algorithm>
#include <memory>
extern "C" {
#include <gnss-converters/ubx_sbp.h>
#include <libsbp/sbp.h>
#include <libsbp/v4/sbp_msg.h>
#include <swiftnav/ephemeris.h>
#include <swiftnav/nav_meas.h>
#include <ubx/decode.h>
#include <ubx/encode.h>
void ubx_setbitul(uint8_t *buff, uint32_t pos, uint32_t len, uint64_t data);
void ubx_setbitsl(uint8_t *buff, uint32_t pos, uint32_t len, int64_t data);
}
using namespace vh;

namespace {
const int64_t WEEK = 604800000;
struct Ev { uint16_t sender; sbp_msg_type_t type; sbp_msg_t msg; Bytes enc; };
typedef std::function<void(const Ev &)> Chk;
struct Exp { int type; const char *kind; Chk chk; };

Bytes ubx_msg(int cls, int id, const Bytes &pl) {  // class .. payload
  W w; w.u8(cls); w.u8(id); w.u16((uint32_t)pl.size()); w.raw(pl); return w.b;
}
Bytes ubx_frame(const Bytes &m) {
  Bytes f = {0xB5, 0x62}; f.insert(f.end(), m.begin(), m.end());
  uint8_t a = 0, b = 0; for (uint8_t x : m) { a = (uint8_t)(a + x); b = (uint8_t)(b + a); }
  f.push_back(a); f.push_back(b); return f;
}

struct Ctx {
  Rng &r; ubx_sbp_state *st; Feed feed; std::vector<Ev> out; std::vector<Exp> exp; Bytes stream; bool streaming;
  std::vector<int> rets; uint16_t sender = DEFAULT_UBX_SENDER_ID; bool hnr = false;
  explicit Ctx(Rng &r_);
  ~Ctx() { free(st); }
  void put(int cls, int id, const Bytes &pl) {
    Bytes m = ubx_msg(cls, id, pl);
    if (streaming) { Bytes f = ubx_frame(m); stream.insert(stream.end(), f.begin(), f.end()); return; }
    uint8_t *p = (uint8_t *)malloc(m.size()); memcpy(p, m.data(), m.size());
    swiftnav_bytestream_t bs; swiftnav_bytestream_init(&bs, p, (uint32_t)m.size());
    ubx_handle_frame(&bs, st); free(p);
  }
  void expect(int type, const char *kind, Chk c) { exp.push_back({type, kind, std::move(c)}); }
  void finish();
};
void cb(uint16_t sender, sbp_msg_type_t type, const sbp_msg_t *msg, void *ctx) {
  Ctx *c = (Ctx *)ctx;
  if (c->out.size() > 50000) { violate("flood", "more than 50000 messages"); return; }
  uint8_t b[512]; uint8_t n = 0;
  s8 rc = sbp_message_encode(b, 255, &n, type, msg);
  VH_CHECK(rc == SBP_OK, "sbp.unencodable", "message type %u: rc %d", type, rc);
  digest_v(sender); digest_v(type); digest(b, n); ev("sbp-emitted");
  Ev e; e.sender = sender; e.type = type; memcpy(&e.msg, msg, sizeof *msg); e.enc.assign(b, b + n); c->out.push_back(std::move(e));
}
int rd(uint8_t *buf, size_t n, void *ctx) { return feed_read(buf, (uint32_t)n, &((Ctx *)ctx)->feed); }
Ctx::Ctx(Rng &r_) : r(r_) {
  st = (ubx_sbp_state *)malloc(sizeof *st); memset(st, fill(0xA5), sizeof *st);
  ubx_sbp_init(st, cb, this);
  streaming = r.chance(1, 2);
#ifdef VH_CLI
  streaming = true;
#endif
  if (r.chance(1, 3)) { sender = (uint16_t)r.u32(); ubx_set_sender_id(st, sender); }
}
#ifdef VH_CLI
int cli_run(Ctx &c);
#endif
int run_stream(Ctx &c) {
#ifdef VH_CLI
  return cli_run(c);
#endif
  int n = 0; c.feed.data = c.stream; c.feed.pos = 0; c.feed.rng = Rng(c.r.u64()); c.feed.mode = (int)c.r.below(4); c.feed.k = 1 + c.r.below(64);
  for (;;) {
    int ret = ubx_sbp_process(c.st, rd);
    if (ret <= 0) { VH_CHECK(ret == -1 || ret == 0, "end-of-stream", "process returned %d at the end", ret); break; }
    c.rets.push_back(ret); n++;
    if ((size_t)n > c.stream.size() / 8 + 2) { violate("frames.duplicated", "%d frames from %zu bytes", n, c.stream.size()); break; }
  }
  VH_CHECK(c.feed.pos == c.feed.data.size(), "stream.unread", "stopped %zu bytes before the end", c.feed.data.size() - c.feed.pos);
  return n;
}
void Ctx::finish() {
  if (streaming) run_stream(*this);
  size_t n = std::max(out.size(), exp.size());
  for (size_t i = 0; i < n; i++) {
    if (i >= out.size()) { violate(fmt("lost.%s", exp[i].kind), "expected %s (%d) as message %zu, nothing more was sent", exp[i].kind, exp[i].type, i); break; }
    if (i >= exp.size()) { violate(fmt("invented.%d", (int)out[i].type), "message %zu of type %u was not expected", i, out[i].type); break; }
    if ((int)out[i].type != exp[i].type) { violate(fmt("order.%s", exp[i].kind), "message %zu is type %u, expected %s (%d)", i, out[i].type, exp[i].kind, exp[i].type); break; }
    VH_CHECK(out[i].sender == sender, "sender", "sender %u expected %u", out[i].sender, sender);
    exp[i].chk(out[i]); ev("message-compared"); distinct(out[i].enc.data(), out[i].enc.size());
  }
  if (!exp.empty()) nontrivial();
}
std::vector<Bytes> SEEDS;

// ------------------------------------------------------------ message payloads
Bytes rnd_rawx(Rng &r, bool sane) {
  W w; w.f64(sane ? r.uniform(0, 604799.9) : r.dbl()); w.u16(sane ? 2000 + r.below(500) : (uint32_t)r.bits(16)); w.u8((uint32_t)r.bits(8)); int n = (int)(r.chance(1, 8) ? r.below(256) : r.below(40)); w.u8((uint32_t)n); w.u8((uint32_t)r.bits(8)); w.u8(1); w.u16(0);
  for (int i = 0; i < n; i++) { w.f64(r.chance(1, 2) ? r.uniform(1.9e7, 2.6e7) : r.dbl()); w.f64(r.chance(1, 2) ? r.uniform(-2e9, 2e9) : r.dbl()); w.f32(r.chance(1, 2) ? (float)r.uniform(-6000, 6000) : r.flt()); w.u8(r.below(8)); w.u8((uint32_t)r.bits(8)); w.u8(r.below(8)); w.u8((uint32_t)r.bits(8)); w.u16((uint32_t)r.bits(16)); for (int k = 0; k < 6; k++) w.u8((uint32_t)r.bits(8)); }
  return w.b;
}
Bytes rnd_raw(Rng &r) {
  W w; w.u32((uint32_t)r.bits(32)); int n = (int)(r.chance(1, 6) ? r.below(140) : r.below(30)); static const int T[] = {5, 13, 14, 16, 17, 18, 12, 0, 31, 255};
  for (int i = 0; i < n; i++) { w.u32((uint32_t)T[r.chance(1, 8) ? r.below(10) : (uint32_t)(i % 6)] << 24 | (uint32_t)r.bits(24)); w.u32((uint32_t)r.bits(r.chance(1, 8) ? 32 : 24)); }
  return w.b;
}
Bytes rnd_meas(Rng &r) {
  W w; int n = (int)r.below(32); w.u32((uint32_t)r.bits(32)); w.u16((uint32_t)n << 11 | (r.chance(7, 8) ? 8 : 0) | r.below(8)); w.u16(0);
  for (int i = 0; i < n; i++) w.u32((5 + r.below(8)) << 24 | (uint32_t)r.bits(24));
  w.u32((uint32_t)r.bits(32)); return w.b;
}
Bytes rnd_sfrbx(Rng &r) {
  W w; int g = (int)r.below(8); w.u8((uint32_t)g); w.u8(r.chance(3, 4) ? 1 + r.below(64) : (uint32_t)r.bits(8)); w.u8(0); w.u8(r.below(16));
  static const int NW[] = {10, 8, 9, 10, 0, 10, 4, 3}; int n = r.chance(7, 8) ? NW[g] : (int)r.bits(8); w.u8((uint32_t)n); w.u8(0); w.u8(2); w.u8(0);
  for (int i = 0; i < n && i < 60; i++) {
    uint32_t x = (uint32_t)r.bits(32);
    if (g == 0 && i == 0) x = (x & ~(0xFFu << 22)) | 0x8Bu << 22;
    if (g == 0 && i == 1) x = (x & ~(7u << 8)) | (1 + r.below(3)) << 8;
    if (g == 3 && i == 0) x = (x & ~(7u << 12)) | (1 + r.below(3)) << 12;
    if (g == 2 && i == 0) x = (x & 0x00FFFFFFu) | (1 + r.below(5)) << 24;
    if (g == 2 && i == 4) x |= 0x80000000u;
    if (g == 6 && i == 0) x = (x & 0x07FFFFFFu) | r.below(6) << 27;
    w.u32(x);
  }
  return w.b;
}
Bytes rnd_payload(Rng &r, int &cls, int &id) {
  switch (r.below(13)) {
    case 0: cls = 2; id = 0x15; return rnd_rawx(r, r.chance(1, 2));
    case 1: cls = 0x10; id = 3; return rnd_raw(r);
    case 2: cls = 0x10; id = 2; return rnd_meas(r);
    case 3: case 4: case 5: cls = 2; id = 0x13; return rnd_sfrbx(r);
    case 6: cls = 1; id = 7; break;
    case 7: cls = 1; id = 5; break;
    case 8: cls = 1; id = 0x11; break;
    case 9: cls = 0x28; id = 0; break;
    case 10: { cls = 1; id = 0x35; W w; w.u32((uint32_t)r.bits(32)); w.u8(1); int n = (int)(r.chance(1, 8) ? r.below(256) : r.below(70)); w.u8((uint32_t)n); w.u16(0); for (int i = 0; i < n; i++) { w.u8(r.below(8)); for (int k = 0; k < 11; k++) w.u8((uint32_t)r.bits(8)); } return w.b; }
    case 11: cls = 1; id = 3; { W w; w.u32(r.below(604800000)); w.u8(3); w.u8((uint32_t)r.bits(8) | 0xD); w.u16(0); w.u32((uint32_t)r.bits(32)); w.u32((uint32_t)r.bits(32)); return w.b; }
    default: cls = r.chance(1, 2) ? 0x0A : (int)r.bits(8); id = r.chance(1, 2) ? 9 : (int)r.bits(8); return r.bytes(r.below(300));
  }
  W w; size_t n = id == 7 ? 92 : id == 5 ? 32 : id == 0x11 ? 20 : 72; if (cls == 0x28) n = 72;
  while (w.b.size() < n) w.u32((uint32_t)r.bits(32));
  return w.b;
}
void case_hostile(Rng &r) {
  Ctx c(r); c.streaming = true; if (r.chance(1, 3)) ubx_set_hnr_flag(c.st, true);
  if (!SEEDS.empty() && r.chance(1, 6)) {
    c.stream = SEEDS[r.below((uint32_t)SEEDS.size())]; if (c.stream.size() > 20000) { size_t o = r.below((uint32_t)(c.stream.size() - 20000)); c.stream = Bytes(c.stream.begin() + (long)o, c.stream.begin() + (long)o + 20000); }
    uint32_t k = r.below(40); for (uint32_t i = 0; i < k && !c.stream.empty(); i++) c.stream[r.below((uint32_t)c.stream.size())] = (uint8_t)r.u32();
  } else {
    int n = 1 + (int)r.below(30); int sat = r.chance(1, 2) ? 1 + (int)r.below(30) : 0; int cls, id;
    for (int i = 0; i < n; i++) {
      Bytes pl = rnd_payload(r, cls, id);
      if (sat && cls == 2 && id == 0x13 && pl.size() > 2) pl[1] = (uint8_t)sat;
      if (r.chance(1, 6) && !pl.empty()) pl.resize(r.below((uint32_t)pl.size() + 1));
      if (r.chance(1, 10)) pl.resize(pl.size() + r.below(4080), (uint8_t)r.u32());
      Bytes m = ubx_msg(cls, id, pl); if (r.chance(1, 20)) { uint32_t l = (uint32_t)r.bits(16); m[2] = (uint8_t)l; m[3] = (uint8_t)(l >> 8); }
      Bytes f = ubx_frame(m); if (r.chance(1, 12)) f[r.below((uint32_t)f.size())] ^= (uint8_t)(1u << r.below(8)); if (r.chance(1, 12)) f.resize(r.below((uint32_t)f.size()));
      if (r.chance(1, 8)) { Bytes g = r.bytes(r.below(40)); c.stream.insert(c.stream.end(), g.begin(), g.end()); if (r.chance(1, 4)) c.stream.insert(c.stream.end(), 1 + r.below(5), 0xB5); }
      c.stream.insert(c.stream.end(), f.begin(), f.end());
    }
  }
  run_stream(c); if (!c.out.empty()) nontrivial(); ev("frames-accepted", c.rets.size()); distinct(c.stream.data(), c.stream.size());
  // and frames handed over directly, ending where their memory ends
  for (int i = 0; i < 4; i++) {
    int cls, id; Bytes pl = rnd_payload(r, cls, id); Bytes m = ubx_msg(cls, id, pl);
    if (r.chance(1, 2)) m.resize(r.below((uint32_t)m.size() + 1));
    uint8_t *p = (uint8_t *)malloc(m.size() ? m.size() : 1); memcpy(p, m.data(), m.size()); swiftnav_bytestream_t bs; swiftnav_bytestream_init(&bs, p, (uint32_t)m.size());
    ubx_handle_frame(&bs, c.st); free(p); ev("frame-handed-over");
  }
}

// ------------------------------------------------------------------ framing
void case_frame(Rng &r) {
  Ctx c(r); c.streaming = true; int n = 2 + (int)r.below(14); uint32_t serial = r.u32();
  for (int i = 0; i < n; i++) {
    Bytes f;
    switch (r.below(12)) {
      case 0: { f = r.bytes(r.below(60)); break; }
      case 1: { f = Bytes(1 + r.below(6), 0xB5); if (r.chance(1, 2)) f.push_back(0x62); break; }
      case 2: { int cls, id; f = ubx_frame(ubx_msg(0x7F, 1, Bytes())); (void)cls; (void)id; break; }  // empty payload
      case 3: { // over long or boundary length announced
        uint32_t l = r.pick(std::vector<uint32_t>{4088, 4089, 4090, 4091, 4092, 4096, 65535, 32768}); W w; w.u8(0xB5); w.u8(0x62); w.u8(1); w.u8(5); w.u16(l);
        if (l <= 4090) { W p; p.u32(serial++); while (p.b.size() < l) p.u8(r.u32()); f = ubx_frame(ubx_msg(1, 5, p.b)); } else { f = w.b; Bytes g = r.bytes(r.below(30)); f.insert(f.end(), g.begin(), g.end()); }
        break; }
      case 4: { // a frame inside the payload of another
        Bytes in = ubx_frame(ubx_msg(0x0A, 9, r.bytes(8 + r.below(20)))); Bytes pl = r.bytes(r.below(30)); pl.insert(pl.end(), in.begin(), in.end()); f = ubx_frame(ubx_msg(0x0A, 9, pl)); if (r.chance(1, 2)) f[f.size() - 1 - r.below(2)] ^= (uint8_t)(1 + r.below(255)); break; }
      case 5: { W p; p.u32(serial++); size_t l = 32 + r.below(4058); while (p.b.size() < l) p.u8(r.u32()); f = ubx_frame(ubx_msg(1, 5, p.b)); break; }
      default: { W p; p.u32(serial++); size_t l = 4 + r.below(248); while (p.b.size() < l) p.u8(r.chance(1, 10) ? 0xB5 : r.u32()); f = ubx_frame(ubx_msg(0x0A, 9, p.b)); }
    }
    if (r.chance(1, 7) && !f.empty()) f[r.below((uint32_t)f.size())] ^= (uint8_t)(1 + r.below(255));
    if (r.chance(1, 12) && !f.empty()) f.resize(r.below((uint32_t)f.size()));
    c.stream.insert(c.stream.end(), f.begin(), f.end());
  }
  // reference scan
  const Bytes &s = c.stream; size_t p = 0; std::vector<std::pair<size_t, size_t>> ref; uint64_t bad = 0;
  for (;;) {
    if (p >= s.size()) break;
    if (s[p++] != 0xB5) continue;
    while (p < s.size() && s[p] == 0xB5) p++;
    if (p >= s.size()) break;
    if (s[p++] != 0x62) continue;
    if (s.size() - p < 4) break;
    size_t len = (size_t)(s[p + 2] | s[p + 3] << 8);
    if (len > 4090) { p += 4; bad++; continue; }
    if (s.size() - p < len + 6) break;
    uint8_t a = 0, b = 0; for (size_t i = 0; i < len + 4; i++) { a = (uint8_t)(a + s[p + i]); b = (uint8_t)(b + a); }
    if (s[p + len + 4] == a && s[p + len + 5] == b) ref.push_back({p, len + 4}); else bad++;
    p += len + 6;
  }
  run_stream(c);
  if (!ref.empty()) nontrivial();
  ev("frames-expected", ref.size()); ev("frames-damaged", bad);
  VH_CHECK(c.rets.size() == ref.size(), c.rets.size() < ref.size() ? "frame.lost" : "frame.invented", "%zu frames handed on, %zu in the stream of %zu bytes", c.rets.size(), ref.size(), s.size());
  size_t o = 0;
  for (size_t i = 0; i < ref.size() && i < c.rets.size(); i++) {
    if ((size_t)c.rets[i] != ref[i].second) { violate("frame.length", "frame %zu has %d bytes, expected %zu", i, c.rets[i], ref[i].second); break; }
    const uint8_t *m = s.data() + ref[i].first; size_t len = ref[i].second;
    bool fwd = m[0] == 0x0A && m[1] == 9 && len <= 253, att = m[0] == 1 && m[1] == 5 && len >= 36, other = (m[0] == 0x0A && m[1] == 9) || m[0] == 0x7F;
    if (!fwd && !att && !other) break;  // a chance frame of some other kind
    if (!fwd && !att) continue;
    if (o >= c.out.size()) { violate("frame.unseen", "frame %zu produced nothing", i); break; }
    const Ev &e = c.out[o++];
    if (fwd) VH_CHECK(e.type == SbpMsgFwd && e.msg.fwd.n_fwd_payload == len && memcmp(e.msg.fwd.fwd_payload, m, len) == 0 && e.msg.fwd.protocol == 1, "frame.content", "forwarded frame %zu differs", i);
    else VH_CHECK(e.type == SbpMsgOrientEuler && e.msg.orient_euler.tow == rd32(m + 4), "frame.content", "attitude frame %zu differs", i);
    ev("frame-content-compared");
  }
  distinct(s.data(), s.size());
}
#include "ubx2.inc"
#ifdef VH_CLI
}  // namespace
#include "cli.hpp"
extern "C" int cli_ubx2sbp_main(int, char **);
namespace {
int cli_run(Ctx &c) {
  Rng &r = c.r; std::vector<std::string> a;
  if (c.sender != DEFAULT_UBX_SENDER_ID || r.chance(1, 4)) { if (r.chance(1, 6)) a = with_value(r, "-s", "--sender_id", sender_text(r, (uint16_t)r.bits(16))); auto b = with_value(r, "-s", "--sender_id", sender_text(r, c.sender)); a.insert(a.end(), b.begin(), b.end()); }
  if (c.hnr) a.insert(r.chance(1, 2) ? a.begin() : a.end(), "--hnr");
  CliRun o = run_cli("ubx2sbp", cli_ubx2sbp_main, a, c.stream, r); if (violated()) return 0;
  expect_success("ubx2sbp", a, o, c.stream.size()); if (c.hnr) ev("hnr-option");
  std::vector<SbpFrame> fr; std::string err; if (!sbp_split(o.out, fr, err)) { violate("malformed-output", "ubx2sbp%s: %s", join(a).c_str(), err.c_str()); return 0; }
  for (auto &f : fr) { Ev e; e.sender = f.sender; e.type = (sbp_msg_type_t)f.type; memset((void *)&e.msg, 0, sizeof e.msg); uint8_t n = 0; s8 rc = sbp_message_decode(f.payload.data(), (uint8_t)f.payload.size(), &n, e.type, &e.msg); VH_CHECK(rc == SBP_OK, "malformed-output", "type %u: %d", f.type, rc); e.enc = f.payload; c.out.push_back(std::move(e)); }
  digest(o.out.data(), o.out.size()); sample("ubx2sbp%s: %zu bytes in, %zu messages out", join(a).c_str(), c.stream.size(), c.out.size());
  return (int)fr.size();
}
void case_cli(Rng &r) {
  if (r.chance(1, 20)) { std::vector<std::string> a = {"-h"}; if (r.chance(1, 2)) a.insert(a.begin(), "--hnr"); CliRun o = run_cli("ubx2sbp", cli_ubx2sbp_main, a, r.bytes(40), r); if (!violated()) expect_help("ubx2sbp", a, o); return; }
  if (r.chance(1, 5)) { auto a = with_value(r, "-s", "--sender_id", bad_sender(r)); if (r.chance(1, 4)) a.push_back("--hnr"); Bytes s; for (int i = 0; i < 5; i++) { Bytes f = ubx_frame(ubx_msg(0x0A, 9, r.bytes(20))); s.insert(s.end(), f.begin(), f.end()); } CliRun o = run_cli("ubx2sbp", cli_ubx2sbp_main, a, s, r); if (!violated()) { expect_refusal("ubx2sbp", a, o); nontrivial(); distinct(fnv(join(a).data(), join(a).size())); } return; }
  switch (r.below(4)) { case 0: case_eph(r); break; case 1: case_imu(r); break; default: case_obs(r); }
}
#endif
}  // namespace

void vh_setup() {
  if (mode().find("hostile") != std::string::npos) for (auto &f : list_files(repo() + "/c/ubx2sbp/test/data", ".ubx")) { Bytes b = slurp(f); if (b.size() > 400000) b.resize(400000); if (!b.empty()) SEEDS.push_back(b); }
}
void vh_case(Rng &r, uint64_t idx) {
  (void)idx; const std::string &m = mode();
  if (m == "frame") case_frame(r);
  else if (m == "obs") case_obs(r);
  else if (m == "eph") case_eph(r);
  else if (m == "imu") case_imu(r);
  else if (m == "codec") case_codec(r);
  else if (m == "codechost") case_codechost(r);
#ifdef VH_CLI
  else if (m == "cli" || m == "files") case_cli(r);
#endif
  else case_hostile(r);
}
