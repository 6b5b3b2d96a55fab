// The rtcm3tosbp program, judged by the same model as the converter.
}
#include "cli.hpp"
extern "C" int cli_rtcm3tosbp_main(int, char **);
namespace {
int rtcm_entry(int argc, char **argv) {
  for (auto &m : constellation_mask) m = false;
  for (auto &b : sbp_signal_biases) b = 0;
  for (int i = 0; i < 2; i++) sbp_glo_code_bias[i] = sbp_glo_phase_bias[i] = 0;
  verbosity_level = VERB_NORMAL;
  return cli_rtcm3tosbp_main(argc, argv);
}
const char *PROG = "rtcm3tosbp";
int64_t now_ms() { return ((int64_t)time(nullptr) - 315964800 + 18) * 1000; }
std::string opt(Rng &r, const char *o, const std::string &v, std::vector<std::string> &a) {  // the forms getopt takes
  switch (r.below(3)) { case 0: a.push_back(std::string(o) + v); break; case 1: a.push_back(std::string(o) + "=" + v); break; default: a.push_back(o); a.push_back(v); }
  return v;
}
// dates at the ends of months and years, in leap years and not
bool leap_year(int y) { return (y % 4 == 0 && y % 100) || y % 400 == 0; }
int days_in(int y, int m) { static const int DM[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31}; return DM[m - 1] + (m == 2 && leap_year(y)); }
void edge_month(Rng &r, int &y, int &m) {
  y = r.chance(1, 2) ? (int)r.range(1981, 2090) : r.pick(std::vector<int>{1980, 1984, 1999, 2000, 2004, 2020, 2096, 2099, 2100, 2104, 2200, 2300, 2400, 2500, 2600});
  m = r.chance(1, 2) ? 2 : 1 + (int)r.below(12);
}
int64_t edge_date(Rng &r) {
  int y, m; edge_month(r, y, m); int d = r.chance(2, 3) ? days_in(y, m) : r.chance(1, 2) ? 1 : 28; if (y == 1980 && m == 1 && d < 6) d = 6;
  struct tm g; memset((void *)&g, 0, sizeof g); g.tm_year = y - 1900; g.tm_mon = m - 1; g.tm_mday = d; g.tm_hour = r.pick(std::vector<int>{0, 1, 12, 23});
  return ((int64_t)timegm(&g) - 315964800) * 1000;
}
std::vector<std::vector<std::string>> time_opts(Rng &r, int kind, int64_t t) {
  std::vector<std::string> a;
  if (kind == 1) opt(r, "-w", fmt(r.chance(1, 2) ? "%d:%d" : "%d:%d.0", (int)(t / WEEK), (int)(t % WEEK / 1000)), a);
  else if (kind == 2) { time_t u = (time_t)(t / 1000 + 315964800); struct tm g; gmtime_r(&u, &g); opt(r, "-d", fmt(r.chance(1, 2) ? "%d:%d:%d:%d" : "%04d:%02d:%02d:%02d", g.tm_year + 1900, g.tm_mon + 1, g.tm_mday, g.tm_hour), a); }
  else a.push_back("-s");
  return {a};
}
void case_refuse(Rng &r) {
  std::vector<std::string> a, v; Rng q(r.u64()); Bytes in;
  if (r.chance(1, 3)) a.push_back(r.pick(std::vector<std::string>{"-G", "-R", "-E", "-C", "-J", "-S", "-v"}));
  int64_t t = pick_rover(r, false) / 1000 * 1000; bool timed = false;
  switch (r.below(8)) {
    case 0: opt(r, "-b", r.pick(std::vector<std::string>{fmt("%d:1.5", CODE_COUNT), fmt("%d:1.5", CODE_COUNT + (int)r.below(100000)), "-1:2", fmt("%d:3", -(int)r.below(100000) - 1), "12:", "L1CA:2", "12", "12:x", "12:1,x:2", fmt("3:1,%d:1", CODE_COUNT), "3:1,-2:1", "12:nan", "12:inf"}), a); break;
    case 1: { int c; do c = (int)r.range(-5, CODE_COUNT + 5); while (c == CODE_GLO_L1OF || c == CODE_GLO_L2OF); opt(r, r.chance(1, 2) ? "-c" : "-l", r.pick(std::vector<std::string>{fmt("%d:1", c), fmt("3:1,%d:1", c), "3:", "3:x", "GLO:1", "3", "4:nan"}), a); break; }
    case 2: timed = true; opt(r, "-w", r.pick(std::vector<std::string>{fmt("%d:604801", (int)r.range(1900, 2600)), "-1:0", fmt("%d:%d", -(int)r.below(30000) - 1, (int)r.below(604800)), fmt("%d:-1", (int)r.range(0, 2600)), "2000:nan", "2000:1e9", "2000", "2000:", "week:1", ":5", fmt("%d:5", 65536 + (int)r.range(1900, 2600)), fmt("%d:5", 32768 + (int)r.below(32000)), fmt("%d:100", -65536 + (int)r.range(1900, 2600))}), a); break;
    case 3: case 6: case 7: {
      timed = true; int y = (int)r.range(1981, 2090), m = 1 + (int)r.below(12), d = 1 + (int)r.below(28), h = (int)r.below(24);
      switch (r.below(9)) {
        case 0: m = r.pick(std::vector<int>{0, 13, -1, 14, 99, 255, 257, -12}); break;
        case 1: d = r.pick(std::vector<int>{0, 32, -1, 40, 365, 256}); break;
        case 2: h = r.pick(std::vector<int>{24, -1, 25, 48, 100, 3600}); break;
        case 3: y = r.pick(std::vector<int>{1979, 1970, 1900, 0, -1, 20, 99, 3000, 9999, 67556}); break;
        case 4: case 7: case 8: edge_month(r, y, m); d = days_in(y, m) + 1; break;
        case 5: y = 1980; m = 1; d = 1 + (int)r.below(5); break;
        default: opt(r, "-d", r.pick(std::vector<std::string>{"2020", "2020:1", "2020:1:1", "2020-01-01:00", "today", "2020:1:1:x", "::::"}), a); m = 0;
      }
      if (a.empty() || a.back().find(':') == std::string::npos) opt(r, "-d", fmt("%d:%d:%d:%d", y, m, d, h), a);
      break; }
    case 4: timed = true; a.push_back("-o"); break;  // needs a time
    default: timed = true; a.push_back("-o"); opt(r, "-b", "12:1", a);
  }
  if (!timed && r.chance(1, 2)) for (auto &x : time_opts(r, 1, t)) a.insert(r.chance(1, 2) ? a.begin() : a.end(), x.begin(), x.end());
  // something that would be converted
  { Ctx c(r); c.st = nullptr; c.tt = nullptr; for (auto &f : c.fcn) f = 255; c.streaming = true; for (int i = 0; i < 6; i++) { do_text(c, 1); do_station(c, 1); } in = c.stream; }
  CliRun o = run_cli(PROG, rtcm_entry, a, in, r); if (violated()) return;
  expect_refusal(PROG, a, o); distinct(fnv(join(a).data(), join(a).size())); nontrivial();
  sample("%s%s: refused", PROG, join(a).c_str());
}
void case_cli(Rng &r) {
  for (auto &m : constellation_mask) m = false;
  for (auto &b : sbp_signal_biases) b = 0;
  for (int i = 0; i < 2; i++) sbp_glo_code_bias[i] = sbp_glo_phase_bias[i] = 0;
  if (r.chance(1, 24)) { std::vector<std::string> a = {"-h"}; if (r.chance(1, 2)) a.insert(a.begin(), "-G"); CliRun o = run_cli(PROG, rtcm_entry, a, r.bytes(50), r); if (!violated()) expect_help(PROG, a, o); return; }
  if (r.chance(1, 24)) {
    int64_t t = now_ms(); CliRun o = run_cli(PROG, rtcm_entry, {"-t"}, r.bytes(50), r); if (violated()) return;
    int wn = -1; double tow = -1; std::string s(o.out.begin(), o.out.end());
    VH_CHECK(o.rc == 0 && sscanf(s.c_str(), "%d:%lf", &wn, &tow) == 2 && std::fabs(wn * 604800.0 + tow - (double)t / 1000) < 5 + (double)(now_ms() - t) / 1000, "now", "-t gives status %d '%s', it is week %d second %d", o.rc, s.c_str(), (int)(t / WEEK), (int)(t % WEEK / 1000)); ev("time-shown"); return;
  }
  if (r.chance(1, 4)) { case_refuse(r); return; }
  Ctx c(r); c.st = nullptr; c.tt = nullptr; for (auto &f : c.fcn) f = 255; c.streaming = true; c.hasinvcb = false;
  std::vector<std::vector<std::string>> g; std::string flags;
  static const struct { char o; int c; } CF[] = {{'G', CONSTELLATION_GPS}, {'R', CONSTELLATION_GLO}, {'E', CONSTELLATION_GAL}, {'C', CONSTELLATION_BDS}, {'J', CONSTELLATION_QZS}, {'S', CONSTELLATION_SBAS}};
  if (r.chance(1, 2)) for (auto &f : CF) if (r.chance(1, 4)) { flags += f.o; constellation_mask[f.c] = true; }
  if (r.chance(1, 8)) flags += std::string(1 + r.below(4), 'v');
  auto bias = [&](const char *o, int n, const std::function<void(int, float)> &set, const std::vector<int> &codes) {
    std::vector<std::string> a; std::string v; for (int i = 0; i < n; i++) { int k = r.pick(codes); float b = (float)r.range(-640, 640) / 32.0f; set(k, b); v += fmt("%s%d:%.5f", v.empty() ? "" : ",", k, (double)b); if (r.chance(1, 4)) { a.clear(); opt(r, o, v, a); g.push_back(a); v.clear(); } }
    if (!v.empty()) { a.clear(); opt(r, o, v, a); g.push_back(a); }
  };
  if (r.chance(1, 3)) { std::vector<int> codes; for (int i = 0; i < CODE_COUNT; i++) codes.push_back(i); if (r.chance(1, 2)) codes = {CODE_GPS_L1CA, CODE_GPS_L2CM, CODE_GLO_L1OF, CODE_GLO_L2OF, CODE_GAL_E1B, CODE_BDS2_B1, CODE_GPS_L1P, CODE_GPS_L2P, CODE_GAL_E7I, CODE_COUNT - 1, 0}; std::map<int, float> last; bias("-b", 1 + (int)r.below(5), [&](int k, float b) { last[k] = b; }, codes); if (g.size() <= 1) for (auto &x : last) sbp_signal_biases[x.first] = x.second; else { bool twice = false; for (auto &y : g) for (auto &z : g) if (&y != &z) twice = true; (void)twice; for (auto &x : last) sbp_signal_biases[x.first] = x.second; } }
  std::vector<std::vector<std::string>> order = g; g.clear();  // later values for a code count: keep these in order
  for (int p = 0; p < 2; p++) if (r.chance(1, 4)) { float *b = p ? sbp_glo_phase_bias : sbp_glo_code_bias; bias(p ? "-l" : "-c", 1 + (int)r.below(3), [&](int k, float v) { b[k == CODE_GLO_L1OF ? 0 : 1] = v; }, {CODE_GLO_L1OF, CODE_GLO_L2OF}); }
  order.insert(order.end(), g.begin(), g.end());
  int64_t T; int kind = r.chance(1, 6) ? 0 : r.chance(1, 2) ? 1 : r.chance(2, 3) ? 2 : 3;
  T = kind == 3 ? now_ms() : pick_rover(r, false) / 1000 * 1000; bool edge = kind == 2 && r.chance(3, 4); if (edge) T = edge_date(r);
  if (kind == 1 && r.chance(1, 6)) { edge = true; T = (int64_t)(r.chance(1, 2) ? r.range(0, 1880) : r.range(2600, 32000)) * WEEK + r.range(0, WEEK / 1000 - 1) * 1000; }
  if (kind) {
    int64_t ref = T; if (kind == 2) { ref = T / 3600000 * 3600000; }
    c.rover = kind == 2 ? ref + leap_at(ref) * 1000 : ref; c.solved = true; c.truth = true; c.leap = leap_at(c.rover);
    if (r.chance(1, 3)) { c.obs_time = true; flags += "o"; }
    if (c.rover < 1876 * WEEK && !c.obs_time) c.solved = false;  // older than the program: not believed, except with -o
    for (auto &x : time_opts(r, kind, ref)) order.insert(order.begin() + r.below((uint32_t)order.size() + 1), x);
    if (kind == 2 && r.chance(1, 2)) T = c.rover + r.range(0, 3) * 1000;
    else if (kind == 1 && r.chance(1, 4)) T += r.range(-3 * DAY, 3 * DAY) / 1000 * 1000;  // far from the time given
  }
  std::vector<std::vector<std::string>> fl; while (!flags.empty()) { size_t k = r.chance(1, 2) ? 1 : 1 + r.below((uint32_t)flags.size()); fl.push_back({"-" + flags.substr(0, k)}); flags = flags.substr(k); }
  for (auto &x : fl) order.insert(order.begin() + r.below((uint32_t)order.size() + 1), x);
  std::vector<std::string> a; for (auto &x : order) a.insert(a.end(), x.begin(), x.end());
  // the input
  uint32_t stn = (uint32_t)r.bits(12); int n = 4 + (int)r.below(24); bool big = r.chance(1, 10); int64_t step = (int64_t)r.pick(std::vector<int>{100, 200, 1000, 1000, 5000});
  if (c.obs_time && r.chance(1, 3)) step = r.pick(std::vector<int64_t>{3600000, DAY / 2 - 60000, DAY, 2 * DAY});
  std::vector<int> kinds = {0, 0, 0, 1, 1, 1, 1, 1, 2, 3, 4, 5}; bool noglo = step > 5000 || edge;
  for (int i = 0; i < n && !violated() && !c.skip; i++) {
    int what = r.pick(kinds);
    if (what < 2) {
      uint32_t z = r.below(100); if (z < (big ? 88u : 60u)) {} else T += step;
      int64_t glo_tod = ((T + 3 * 3600000 - (c.solved ? c.leap : 18) * 1000) % DAY + DAY) % DAY;
      if (what == 0) { int num = noglo ? (r.chance(1, 2) ? 1002 : 1004) : r.pick(std::vector<int>{1002, 1004, 1004, 1010, 1012, 1012}); do_legacy(c, {num, stn, num > 1008 ? glo_tod : T % WEEK, r.chance(2, 3)}); }
      else { int cons = r.pick(std::vector<int>{0, 0, noglo ? 0 : 1, 2, 5}); int64_t tow = cons == 1 ? glo_tod : cons == 5 ? ((T - 14000) % WEEK + WEEK) % WEEK : T % WEEK; do_msm(c, {cons, 4 + (int)r.below(4), stn, tow, r.chance(big ? 11 : 3, big ? 12 : 4), big ? 30 : 8, big ? 6 : 4}); }
    } else if (what == 2) do_station(c, stn); else if (what == 3) do_text(c, stn); else if (what == 4) do_ignored(c, stn); else do_wrapped(c);
  }
  Bytes in = c.stream; if (r.chance(1, 4)) { Bytes x = r.bytes(r.below(30)); for (auto &y : x) if (y == 0xD3) y = 0; in.insert(in.begin(), x.begin(), x.end()); }
  CliRun o = run_cli(PROG, rtcm_entry, a, in, r); if (violated()) return;
  VH_CHECK(o.rc == 0, "status", "%s%s ends with status %d: %s", PROG, join(a).c_str(), o.rc, o.err.substr(0, 200).c_str());
  VH_CHECK(o.unread == 0, "input.unread", "%s%s: %zu of %zu bytes of input not taken", PROG, join(a).c_str(), o.unread, in.size());
  std::vector<SbpFrame> fr; std::string err; if (!sbp_split(o.out, fr, err)) { violate("malformed-output", "%s%s: %s", PROG, join(a).c_str(), err.c_str()); return; }
  for (auto &f : fr) { Ev e; e.sender = f.sender; e.type = (sbp_msg_type_t)f.type; uint8_t nr = 0; memset((void *)&e.msg, 0, sizeof e.msg); s8 rc = sbp_message_decode(f.payload.data(), (uint8_t)f.payload.size(), &nr, e.type, &e.msg); VH_CHECK(rc == SBP_OK, "malformed-output", "message type %u of %zu bytes: %d", f.type, f.payload.size(), rc); c.out.push_back(e); }
  if (c.skip) { ev("case-ends-undecided"); return; }
  ev("conversion-compared"); evs(fmt("time-option-%d%s", kind, c.obs_time ? "o" : "")); for (auto &f : CF) if (constellation_mask[f.c]) evs(fmt("disabled-%c", f.o));
  size_t msgs = c.out.size();
  compare(c); digest(o.out.data(), kind == 3 ? 0 : o.out.size()); nontrivial(); if (violated()) violate("command", "%s%s", PROG, join(a).c_str());
  sample("%s%s: %zu bytes in, %zu messages out", PROG, join(a).c_str(), in.size(), msgs);
}
