// SBP -> NMEA: sentence form, content and schedule (C06, C50, C51, C52)
#include "vh.hpp"
extern "C" {
#include <gnss-converters/nmea.h>
#include <gnss-converters/sbp_nmea.h>
#include <swiftnav/geoid_model.h>
#include <swiftnav/gnss_time.h>
#include <swiftnav/signal.h>
}
using namespace vh;
namespace {
enum { GGA, RMC, VTG, HDT, GLL, ZDA, GSA, GST, GSV, PUBX, THS, NT };
const char *const NAME[NT] = {"GGA", "RMC", "VTG", "HDT", "GLL", "ZDA", "GSA", "GST", "GSV", "PUBX", "THS"};
const int NF[NT] = {15, 13, 10, 3, 8, 7, 18, 9, 0, 21, 3};
const bool FUSEDOK[NT] = {true, true, true, false, true, true, false, true, false, true, true};
enum Grp { gGP, gGL, gGA, gGB, gNONE };
const double KN = 1.9438444924406, PI = M_PI;

struct Sent { int type; std::string talker, raw; std::vector<std::string> f; };

Grp group_of(uint8_t sat, uint8_t code) {
  gnss_signal_t s; memset(&s, 0, sizeof s); s.sat = sat; s.code = (code_t)code;
  switch (sid_to_constellation(s)) {
    case CONSTELLATION_GPS: case CONSTELLATION_SBAS: case CONSTELLATION_QZS: return gGP;
    case CONSTELLATION_GLO: return gGL; case CONSTELLATION_GAL: return gGA; case CONSTELLATION_BDS: return gGB;
    default: return gNONE;
  }
}
int nmea_id(uint8_t sat, uint8_t code) {
  gnss_signal_t s; memset(&s, 0, sizeof s); s.sat = sat; s.code = (code_t)code;
  switch (sid_to_constellation(s)) {
    case CONSTELLATION_GPS: return sat; case CONSTELLATION_SBAS: return sat - 87; case CONSTELLATION_GLO: return sat + 64;
    case CONSTELLATION_GAL: return sat + 300; case CONSTELLATION_BDS: return sat + 400; case CONSTELLATION_QZS: return sat; default: return -1;
  }
}
const char *const TALK[4] = {"GP", "GL", "GA", "GB"};

struct ObsSeq { uint16_t wn = 0; uint32_t tow = 0; unsigned total = 0, count = 0; bool any = false; std::vector<std::pair<uint8_t, uint8_t>> sids; bool complete() const { return any && count + 1 == total; } };
struct Model {
  sbp2nmea_mode_t req = SBP2NMEA_MODE_GNSS; bool fused = false; bool wagon = false;
  sbp_msg_t m[SBP2NMEA_SBP_CNT]; bool have[SBP2NMEA_SBP_CNT] = {false};
  sbp_msg_measurement_state_t prevmeas; // the one before the last
  ObsSeq obs; int rate[NT] = {0}; double freq = 10; uint16_t base = 0; float cogthr = 0.1f, updthr = 0.1f;
  double lastcog = 0; bool lastcog_known = true;
  Model() { memset(m, 0, sizeof m); memset(&prevmeas, 0, sizeof prevmeas); }
  const sbp_msg_t &get(int base_id) const {  // the solution the sentences describe
    static const int to[4][2] = {{SBP2NMEA_SBP_GPS_TIME, SBP2NMEA_SBP_GPS_TIME_GNSS}, {SBP2NMEA_SBP_UTC_TIME, SBP2NMEA_SBP_UTC_TIME_GNSS}, {SBP2NMEA_SBP_POS_LLH_COV, SBP2NMEA_SBP_POS_LLH_COV_GNSS}, {SBP2NMEA_SBP_VEL_NED, SBP2NMEA_SBP_VEL_NED_GNSS}};
    for (auto &t : to) if (t[0] == base_id) return m[t[fused ? 0 : 1]];
    return m[base_id];
  }
};
struct Ctx {
  sbp2nmea_t *st = nullptr; Model md; std::vector<Sent> out; bool inrange = false, content = false, sched = false;
  std::map<std::pair<int, uint32_t>, uint32_t> emitted;  // (type, epoch) -> call number
  std::vector<std::pair<uint32_t, int>> log;             // (call, type)
  std::map<int, uint64_t> count; uint32_t call = 0; int lasttype = -1; bool everemitted[NT] = {false};
  std::vector<Sent> callout;
  ~Ctx() { free(st); }
};

// --------------------------------------------------------------- C50: form
bool numeric(const std::string &s, int dec) {  // dec<0: any number of decimals
  size_t i = 0; if (i < s.size() && s[i] == '-') i++;
  size_t d = i; while (i < s.size() && isdigit((unsigned char)s[i])) i++;
  if (i == d) return false;
  if (i == s.size()) return dec <= 0;
  if (s[i++] != '.') return false;
  size_t e = i; while (i < s.size() && isdigit((unsigned char)s[i])) i++;
  return i == s.size() && i > e && (dec < 0 || (size_t)dec == i - e);
}
double num(const std::string &s) { return strtod(s.c_str(), nullptr); }
#define BAD(key, ...) do { violate(key, __VA_ARGS__); return; } while (0)
bool optnum(const Sent &s, size_t i, const char *what, double lo, double hi, bool inrange) {
  const std::string &f = s.f[i]; if (f.empty()) return true;
  if (!numeric(f, -1)) { violate(std::string("form.number-") + NAME[s.type], "%s \"%s\" in %s", what, f.c_str(), s.raw.c_str()); return false; }
  double v = num(f);
  if (inrange && !(v >= lo && v <= hi)) { violate(std::string("form.range-") + NAME[s.type], "%s %s in %s", what, f.c_str(), s.raw.c_str()); return false; }
  return true;
}
bool oneof(const Sent &s, size_t i, const char *set, bool optional) {
  const std::string &f = s.f[i]; if (f.empty() && optional) return true;
  if (f.size() == 1 && strchr(set, f[0])) return true;
  violate(std::string("form.letter-") + NAME[s.type], "field %zu \"%s\" not one of %s in %s", i, f.c_str(), set, s.raw.c_str()); return false;
}
bool timef(const Sent &s, size_t i, bool inrange) {
  const std::string &f = s.f[i]; if (f.empty()) return true;
  if (!numeric(f, 2) || f[0] == '-' || (inrange && f.size() != 9)) { violate(std::string("form.time-") + NAME[s.type], "\"%s\" in %s", f.c_str(), s.raw.c_str()); return false; }
  if (inrange) { int h = atoi(f.substr(0, 2).c_str()), m = atoi(f.substr(2, 2).c_str()); double x = num(f.substr(4)); if (h > 23 || m > 59 || x >= 61) { violate(std::string("form.time-") + NAME[s.type], "\"%s\"", f.c_str()); return false; } }
  return true;
}
bool llf(const Sent &s, size_t i) {  // four fields: either all empty or a legal position
  const std::string &a = s.f[i], &b = s.f[i + 1], &c = s.f[i + 2], &d = s.f[i + 3];
  if (a.empty() && b.empty() && c.empty() && d.empty()) return true;
  bool ok = numeric(a, 7) && numeric(c, 7) && a.size() == 12 && c.size() == 13 && (b == "N" || b == "S") && (d == "E" || d == "W");
  if (ok) { double am = num(a.substr(2)), cm = num(c.substr(3)); int ad = atoi(a.substr(0, 2).c_str()), cd = atoi(c.substr(0, 3).c_str()); ok = am >= 0 && am < 60 && cm >= 0 && cm < 60 && ad + am / 60 <= 90.0 && cd + cm / 60 <= 180.0; }
  if (!ok) violate(std::string("form.position-") + NAME[s.type], "%s,%s,%s,%s in %s", a.c_str(), b.c_str(), c.c_str(), d.c_str(), s.raw.c_str());
  return ok;
}
bool parse(const char *msg, Sent &s) {
  s.raw = msg; size_t n = s.raw.size();
  if (n < 6 || s.raw[0] != '$') { violate("form.start", "%s", s.raw.c_str()); return false; }
  if (s.raw.compare(n - 2, 2, "\r\n") != 0) { violate("form.end", "%s", s.raw.c_str()); return false; }
  std::string shown = s.raw.substr(0, n - 2); s.raw = shown;
  if (n < 9 || msg[n - 5] != '*') { violate("form.checksum-mark", "%s", shown.c_str()); return false; }
  uint8_t x = 0;
  for (size_t i = 1; i < n - 5; i++) { uint8_t ch = (uint8_t)msg[i]; if (ch < 0x20 || ch > 0x7e || ch == '$' || ch == '*' || ch == '!' || ch == '\\' || ch == '^' || ch == '~') { violate("form.character", "byte %02x in %s", ch, shown.c_str()); return false; } x ^= ch; }
  char cs[3]; snprintf(cs, sizeof cs, "%02X", x);
  if (msg[n - 4] != cs[0] || msg[n - 3] != cs[1]) { violate("form.checksum", "expected %s in %s", cs, shown.c_str()); return false; }
  std::string body = shown.substr(1, n - 6); size_t p = 0;
  for (;;) { size_t q = body.find(',', p); s.f.push_back(body.substr(p, q == std::string::npos ? q : q - p)); if (q == std::string::npos) break; p = q + 1; }
  s.type = -1;
  if (s.f[0] == "PUBX") { s.type = PUBX; if (s.f.size() < 2 || s.f[1] != "00") { violate("form.pubx-id", "%s", shown.c_str()); return false; } }
  else if (s.f[0].size() == 5) { s.talker = s.f[0].substr(0, 2); for (int t = 0; t < NT; t++) if (s.f[0].substr(2) == NAME[t]) s.type = t; }
  if (s.type < 0) { violate("form.type", "%s", shown.c_str()); return false; }
  if (s.type != PUBX && s.talker != "GP" && s.talker != "GN" && s.talker != "GL" && s.talker != "GA" && s.talker != "GB") { violate("form.talker", "%s", shown.c_str()); return false; }
  size_t want = (size_t)NF[s.type];
  if (s.type == GSV ? (s.f.size() < 4 || s.f.size() > 20 || s.f.size() % 4 != 0) : s.f.size() != want) { violate(std::string("form.fields-") + NAME[s.type], "%zu fields in %s", s.f.size(), shown.c_str()); return false; }
  return true;
}
bool form(const Sent &s, bool in) {
  auto &f = s.f; const double B = 1e12;
  switch (s.type) {
    case GGA: return timef(s, 1, in) && llf(s, 2) && oneof(s, 6, "0123456", false) && optnum(s, 7, "satellites", 0, 255, true) && optnum(s, 8, "hdop", 0, 655.4, true) && optnum(s, 9, "altitude", -B, B, true) && oneof(s, 10, "M", false) && optnum(s, 11, "geoid", -200, 200, true) && oneof(s, 12, "M", false) && optnum(s, 13, "age", 0, 6553.5, true) && optnum(s, 14, "station", 0, 1023, true);
    case RMC: return timef(s, 1, in) && oneof(s, 2, "AV", false) && llf(s, 3) && optnum(s, 7, "speed", 0, B, true) && optnum(s, 8, "course", 0, 359.95, true) && optnum(s, 9, "date", 10100, 311299, in) && (!in || f[9].empty() || f[9].size() == 6) && oneof(s, 12, "ADENRF", false);
    case VTG: return optnum(s, 1, "course", 0, 359.95, true) && oneof(s, 2, "T", false) && oneof(s, 4, "M", false) && optnum(s, 5, "knots", 0, B, true) && oneof(s, 6, "N", false) && optnum(s, 7, "km/h", 0, B, true) && oneof(s, 8, "K", false) && oneof(s, 9, "ADEN", false);
    case HDT: return optnum(s, 1, "heading", 0, 359.995, in) && oneof(s, 2, "T", false);
    case GLL: return llf(s, 1) && timef(s, 5, in) && oneof(s, 6, "AV", false) && oneof(s, 7, "ADEN", false);
    case ZDA: return timef(s, 1, in) && optnum(s, 2, "day", 1, 31, in) && optnum(s, 3, "month", 1, 12, in) && optnum(s, 4, "year", 1980, 65535, in);
    case GSA: { bool ok = oneof(s, 1, "A", false) && oneof(s, 2, "13", false); for (size_t i = 3; ok && i < 15; i++) ok = optnum(s, i, "satellite", 1, 500, in); for (size_t i = 15; ok && i < 18; i++) ok = optnum(s, i, "dop", 0, 655.4, true); return ok; }
    case GST: { bool ok = timef(s, 1, in); for (size_t i = 2; ok && i < 9; i++) ok = optnum(s, i, "error", i == 5 ? -180 : 0, i == 5 ? 180 : 2e19, true); return ok; }
    case GSV: { bool ok = numeric(f[1], 0) && numeric(f[2], 0) && numeric(f[3], 0); for (size_t i = 4; ok && i < f.size(); i += 4) ok = !f[i].empty() && optnum(s, i, "satellite", 1, 500, in) && optnum(s, i + 1, "elevation", -90, 90, in) && optnum(s, i + 2, "azimuth", 0, 359, in) && optnum(s, i + 3, "snr", 0, 99, in);
      if (!ok && !violated()) violate("form.number-GSV", "%s", s.raw.c_str()); return ok; }
    case PUBX: { bool ok = timef(s, 2, in) && llf(s, 3) && optnum(s, 7, "altitude", -B, B, true); const std::string &n = f[8]; if (ok && n != "NF" && n != "DR" && n != "G3" && n != "D3") { violate("form.letter-PUBX", "status %s", n.c_str()); ok = false; }
      return ok && optnum(s, 9, "hacc", 0, B * B, true) && optnum(s, 10, "vacc", 0, B * B, true) && optnum(s, 11, "sog", 0, B, true) && optnum(s, 12, "cog", 0, 359.95, true) && optnum(s, 13, "vvel", -B, B, true) && optnum(s, 14, "age", 0, 6553.5, true) && optnum(s, 15, "hdop", 0, 655.4, true) && optnum(s, 16, "vdop", 0, 655.4, true) && optnum(s, 17, "tdop", 0, 655.4, true) && optnum(s, 18, "satellites", 0, 255, true) && oneof(s, 19, "0", false) && oneof(s, 20, "01", false); }
    case THS: return optnum(s, 1, "heading", 0, 359.995, true) && oneof(s, 2, "AEMSV", false);
    default: return false;
  }
}

// ------------------------------------------------------------ C51: content
struct Civ { int h, m, s, cs, d, mo, y; };
Civ rounded(const sbp_msg_utc_time_t &u) {
  Civ c{u.hours, u.minutes, u.seconds, (int)((u.ns + 5000000ull) / 10000000ull), u.day, u.month, u.year};
  if (c.cs < 100) return c;
  c.cs -= 100; if (++c.s < 60) return c; c.s = 0; if (++c.m < 60) return c; c.m = 0; if (++c.h < 24) return c; c.h = 0;
  static const int dm[12] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31}; bool leap = (c.y % 4 == 0 && c.y % 100 != 0) || c.y % 400 == 0;
  int n = dm[(c.mo - 1) % 12] + (c.mo == 2 && leap); if (++c.d > n) { c.d = 1; if (++c.mo > 12) { c.mo = 1; c.y++; } } return c;
}
bool close(const std::string &f, double want, double half) { return numeric(f, -1) && std::fabs(num(f) - want) <= half + 1e-9 * std::fabs(want) + 1e-9; }
#define EQ(cond, field) do { if (!(cond)) { violate(std::string("content.") + field + "-" + NAME[s.type], "%s%s", s.raw.c_str(), note.c_str()); return; } evs("field-compared"); } while (0)
void check_content(Ctx &c, const Sent &s) {
  Model &M = c.md; auto &f = s.f;
  const auto &pos = M.get(SBP2NMEA_SBP_POS_LLH_COV).pos_llh_cov; const auto &vel = M.get(SBP2NMEA_SBP_VEL_NED).vel_ned; const auto &utc = M.get(SBP2NMEA_SBP_UTC_TIME).utc_time;
  const auto &dops = M.m[SBP2NMEA_SBP_DOPS].dops; const auto &agec = M.m[SBP2NMEA_SBP_AGE_CORR].age_corrections; const auto &meta = M.m[SBP2NMEA_SBP_SOLN_META].soln_meta;
  int mode = pos.flags & 7; bool fix = mode != 0;
  std::string note = fmt("  [pos %.10f %.10f %.3f flags %02x sats %u; utc %04u-%02u-%02u %02u:%02u:%02u +%u ns flags %02x tow %u; vel %d %d %d flags %02x]", pos.lat, pos.lon, pos.height, pos.flags, pos.n_sats, utc.year, utc.month, utc.day, utc.hours, utc.minutes, utc.seconds, utc.ns, utc.flags, utc.tow, vel.n, vel.e, vel.d, vel.flags);
  auto okt = [&](const std::string &t) { if (utc.flags == 0) return t.empty(); Civ r = rounded(utc); return t == fmt("%02d%02d%02d.%02d", r.h, r.m, r.s, r.cs); };
  auto okll = [&](size_t i) {
    if (!fix) return f[i].empty() && f[i + 1].empty() && f[i + 2].empty() && f[i + 3].empty();
    if (f[i].size() != 12 || f[i + 2].size() != 13) return false;
    double la = atoi(f[i].substr(0, 2).c_str()) + num(f[i].substr(2)) / 60, lo = atoi(f[i + 2].substr(0, 3).c_str()) + num(f[i + 2].substr(3)) / 60;
    bool ok = std::fabs(la - std::fabs(pos.lat)) <= 6e-9 && std::fabs(lo - std::fabs(pos.lon)) <= 6e-9;
    if (std::fabs(pos.lat) > 1e-8) ok = ok && f[i + 1] == (pos.lat < 0 ? "S" : "N");
    if (std::fabs(pos.lon) > 1e-8) ok = ok && f[i + 3] == (pos.lon < 0 ? "W" : "E");
    return ok; };
  auto modech = [&]() { return mode == 0 ? "N" : mode == 1 ? "A" : mode == 5 ? "E" : "D"; };
  double age = M.fused ? meta.age_corrections : agec.age, hdop = M.fused ? meta.hdop : dops.hdop;
  double sog = std::sqrt((double)vel.n * vel.n + (double)vel.e * vel.e) / 1000; bool vok = (vel.flags & 7) != 0;
  auto course = [&](const std::string &t, bool equal_ok) {
    // updates of the remembered course happen whenever a course is produced
    double upd = (double)M.updthr; if (std::fabs(sog - upd) < 1e-6 * (1 + upd) && sog != 0) M.lastcog_known = false;
    else if (sog >= upd) { M.lastcog = std::atan2((double)vel.e, (double)vel.n) * 180 / PI; if (M.lastcog < 0) M.lastcog += 360; M.lastcog_known = true; }
    if (!vok) return t.empty();
    double thr = (double)M.cogthr; if (std::fabs(sog - thr) < 1e-6 * (1 + thr) && !(sog == 0 && thr == 0 && equal_ok)) return true;
    if (sog < thr) return t.empty();
    if (!numeric(t, 1)) return false; if (!M.lastcog_known) return true;
    double d = std::fmod(std::fabs(num(t) - M.lastcog), 360.0); return std::min(d, 360 - d) <= 0.05 + 1e-6; };
  double want[4];
  switch (s.type) {
    case GGA: {
      EQ(okt(f[1]), "time"); EQ(okll(2), "position"); static const int Q[] = {0, 1, 2, 5, 4, 6, 2}; EQ(atoi(f[6].c_str()) == Q[mode], "quality");
      if (!fix) { EQ(f[7].empty() && f[8].empty() && f[9].empty() && f[11].empty() && f[13].empty() && f[14].empty(), "empty"); break; }
      EQ(atoi(f[7].c_str()) == pos.n_sats, "satellites"); if (mode == 5) EQ(f[8].empty(), "hdop"); else EQ(close(f[8], hdop * 0.01, 0.0501), "hdop");
      double g = (double)get_geoid_offset(pos.lat * D2R, pos.lon * D2R); EQ(close(f[11], g, 0.0051), "geoid"); EQ(close(f[9], pos.height - g, 0.0051), "altitude");
      if (mode >= 2 && mode <= 4) { EQ(close(f[13], age * 0.1, 0.0501), "age"); EQ(f[14].size() == 4 && atoi(f[14].c_str()) == (M.base & 0x3FF), "station"); } else EQ(f[13].empty() && f[14].empty(), "age");
      break; }
    case RMC: {
      EQ(okt(f[1]), "time"); EQ(f[2] == (fix ? "A" : "V"), "status"); EQ(okll(3), "position"); EQ(vok ? close(f[7], sog * KN, 0.0051) : f[7].empty(), "speed"); EQ(course(f[8], true), "course");
      if (utc.flags == 0) EQ(f[9].empty(), "date"); else { Civ r = rounded(utc); EQ(f[9] == fmt("%02d%02d%02d", r.d, r.mo, r.y % 100), "date"); }
      EQ(f[10].empty() && f[11].empty() && f[12] == modech(), "mode"); break; }
    case VTG: EQ(course(f[1], true), "course"); EQ(vok ? close(f[5], sog * KN, 0.0051) && close(f[7], sog * 3.6, 0.0051) : f[5].empty() && f[7].empty(), "speed"); EQ(f[3].empty(), "magnetic"); EQ(f[9] == modech(), "mode"); break;
    case HDT: { const auto &h = M.m[SBP2NMEA_SBP_HDG].baseline_heading; if ((h.flags & 7) != 4) { EQ(f[1].empty(), "heading"); break; } double w = (double)h.heading / 1000; if (!numeric(f[1], 2)) { EQ(false, "heading"); } double d = std::fmod(std::fabs(num(f[1]) - w), 360.0); EQ(std::min(d, 360 - d) <= 0.0051, "heading"); break; }
    case GLL: EQ(okll(1), "position"); EQ(okt(f[5]), "time"); EQ(f[6] == (fix ? "A" : "V"), "status"); EQ(f[7] == modech(), "mode"); break;
    case ZDA: { EQ(okt(f[1]), "time"); if (utc.flags == 0) { EQ(f[2].empty() && f[3].empty() && f[4].empty(), "date"); } else { Civ r = rounded(utc); EQ(f[2] == fmt("%02d", r.d) && f[3] == fmt("%02d", r.mo) && f[4] == fmt("%d", r.y), "date"); } EQ(f[5].empty() && f[6].empty(), "zone"); break; }
    case GST: {
      EQ(okt(f[1]), "time"); EQ(f[2].empty(), "rms"); std::set<Grp> gs; for (auto &x : M.obs.sids) { Grp g = group_of(x.first, x.second); if (g != gNONE) gs.insert(g); }
      bool empty = f[3].empty();
      if (!fix) { EQ(empty, "empty"); break; }
      if (M.obs.complete() || M.obs.sids.empty()) { EQ(empty == gs.empty(), "empty"); if (!empty) EQ(s.talker == (gs.size() > 1 ? "GN" : TALK[*gs.begin()]), "talker"); }
      if (empty) { for (size_t i = 3; i < 9; i++) EQ(f[i].empty(), "empty"); break; }
      double nn = (double)pos.cov_n_n, ee = (double)pos.cov_e_e, dd = (double)pos.cov_d_d, ne = (double)pos.cov_n_e, tr = nn + ee, df = std::sqrt((nn - ee) * (nn - ee) / 4 + ne * ne), l1 = tr / 2 + df, l2 = std::max(0.0, tr / 2 - df);
      EQ(close(f[6], std::sqrt(nn), 1e-6 + 1e-6 * std::sqrt(nn)) && close(f[7], std::sqrt(ee), 1e-6 + 1e-6 * std::sqrt(ee)) && close(f[8], std::sqrt(dd), 1e-6 + 1e-6 * std::sqrt(dd)), "sigma");
      // the determinant is computed in single precision
      double tl = std::max(std::sqrt(df * df + 3e-7 * tr * tr) - df, df - std::sqrt(std::max(0.0, df * df - 3e-7 * tr * tr)));
      auto axis = [&](const std::string &t, double l) { double v = num(t); return std::fabs(v - std::sqrt(l)) <= 2e-6 || std::fabs(v * v - l) <= 2e-5 * tr + tl + 4e-6 * v; };
      EQ(axis(f[3], l1) && axis(f[4], l2), "axes");
      if (df > 0.02 * tr) { double o = 0.5 * std::atan2(2 * ne, nn - ee) * 180 / PI, d = std::fmod(std::fabs(num(f[5]) - o), 180.0); EQ(std::min(d, 180 - d) <= 0.0501 + 0.05, "orientation"); }
      break; }
    case PUBX: {
      EQ(okt(f[2]), "time"); EQ(okll(3), "position"); EQ(fix ? close(f[7], pos.height, 0.0051) : f[7].empty(), "altitude"); EQ(f[8] == (mode == 0 ? "NF" : mode == 5 ? "DR" : mode >= 2 && mode <= 4 ? "D3" : "G3"), "status");
      if (fix) { double h = std::sqrt((double)pos.cov_n_n + (double)pos.cov_e_e), v = std::sqrt((double)pos.cov_d_d); EQ(close(f[9], h, 0.0501 + 1e-6 * h) && close(f[10], v, 0.0501 + 1e-6 * v), "accuracy"); } else EQ(f[9].empty() && f[10].empty(), "accuracy");
      EQ(vok ? close(f[11], sog * 3.6, 0.0051) : f[11].empty(), "speed"); EQ(course(f[12], false), "course"); EQ(vok ? close(f[13], vel.d / 1000.0, 0.0051 + std::fabs((double)vel.d) * 1e-10) : f[13].empty(), "vertical");
      EQ(mode >= 2 && mode <= 4 ? close(f[14], age * 0.1, 0.0501) : f[14].empty(), "age");
      want[0] = hdop; want[1] = M.fused ? meta.vdop : dops.vdop; want[2] = dops.tdop;
      if (!fix || mode == 5) EQ(f[15].empty() && f[16].empty() && f[17].empty(), "dop"); else { EQ(close(f[15], want[0] * 0.01, 0.0501) && close(f[16], want[1] * 0.01, 0.0501), "dop"); EQ(M.fused ? f[17].empty() : close(f[17], want[2] * 0.01, 0.0501), "tdop"); }
      EQ(atoi(f[18].c_str()) == pos.n_sats, "satellites"); EQ(f[20] == (mode == 5 ? "1" : "0"), "dr"); break; }
    case THS: { const auto &o = M.m[SBP2NMEA_SBP_ORIENT_EULER].orient_euler; if (!fix || (o.flags & 7) == 0) { EQ(f[1].empty() && f[2] == "V", "heading"); break; } EQ(numeric(f[1], 2), "heading"); double w = o.yaw / 1e6, d = std::fmod(std::fabs(num(f[1]) - w), 360.0); EQ(std::min(d, 360 - d) <= 0.0051, "heading"); EQ(f[2] == (mode == 5 ? "E" : "A"), "mode"); break; }
    default: break;
  }
}
// groups of sentences emitted by one call
void check_gsa(Ctx &c, const std::vector<const Sent *> &v) {
  Model &M = c.md; const auto &dops = M.m[SBP2NMEA_SBP_DOPS].dops; std::map<Grp, std::set<int>> want, got; std::string note;
  for (auto &x : M.obs.sids) { Grp g = group_of(x.first, x.second); if (g != gNONE) want[g].insert(nmea_id(x.first, x.second)); }
  for (auto *p : v) {
    const Sent &s = *p; bool fix = (dops.flags & 7) != 0; EQ(s.f[2] == (fix ? "3" : "1"), "mode");
    if (fix) EQ(close(s.f[15], dops.pdop * 0.01, 0.0501) && close(s.f[16], dops.hdop * 0.01, 0.0501) && close(s.f[17], dops.vdop * 0.01, 0.0501), "dop"); else EQ(s.f[15].empty() && s.f[16].empty() && s.f[17].empty(), "dop");
    EQ(s.talker == (want.size() > 1 ? "GN" : want.empty() ? "GP" : TALK[want.begin()->first]), "talker");
    int last = 0; Grp g = gNONE; bool hole = false;
    for (size_t i = 3; i < 15; i++) { if (s.f[i].empty()) { hole = true; continue; } EQ(!hole, "hole"); int id = atoi(s.f[i].c_str()); EQ(id > last, "order"); last = id; Grp h = gNONE; for (auto &w : want) if (w.second.count(id)) h = w.first; EQ(h != gNONE, "satellite"); EQ(g == gNONE || g == h, "group"); g = h; got[h].insert(id); }
    EQ(g != gNONE || want.empty(), "empty");
  }
  const Sent &s = *v[0]; EQ(v.size() == std::max<size_t>(1, want.size()), "sentences");
  for (auto &w : want) EQ(got[w.first].size() == std::min<size_t>(12, w.second.size()), "missing");
  ev("gsa-groups", v.size());
}
void check_gsv(Ctx &c, const std::vector<const Sent *> &v) {
  Model &M = c.md; const auto &az = M.m[SBP2NMEA_SBP_SV_AZ_EL].sv_az_el; const auto &ms = M.m[SBP2NMEA_SBP_MEASUREMENT_STATE].measurement_state; std::string note;
  std::map<Grp, std::vector<int>> want; for (unsigned i = 0; i < az.n_azel; i++) { Grp g = group_of(az.azel[i].sid.sat, az.azel[i].sid.code); if (g != gNONE) want[g].push_back((int)i); }
  if (want.empty()) { const Sent &s = *v[0]; EQ(v.size() == 1 && s.talker == "GP" && s.f.size() == 4 && s.f[1] == "1" && s.f[2] == "1" && atoi(s.f[3].c_str()) == 0, "empty"); return; }
  std::map<Grp, std::set<int>> used; std::map<Grp, unsigned> seq;
  for (auto *p : v) {
    const Sent &s = *p; Grp g = gNONE; for (int k = 0; k < 4; k++) if (s.talker == TALK[k]) g = (Grp)k;
    EQ(g != gNONE && want.count(g), "talker"); size_t n = want[g].size();
    EQ((size_t)atoi(s.f[1].c_str()) == (n + 3) / 4, "total"); EQ((unsigned)atoi(s.f[2].c_str()) == ++seq[g], "number"); EQ((size_t)atoi(s.f[3].c_str()) == n, "in-view");
    for (size_t i = 4; i < s.f.size(); i += 4) {
      int id = atoi(s.f[i].c_str()), at = -1;
      for (int k : want[g]) { auto &a = az.azel[k]; if (used[g].count(k) || nmea_id(a.sid.sat, a.sid.code) != id) continue; if (atoi(s.f[i + 1].c_str()) != a.el || atoi(s.f[i + 2].c_str()) != 2 * a.az) continue; at = k; break; }
      note = fmt(" [satellite %d]", id); EQ(at >= 0, "azel"); used[g].insert(at); auto &a = az.azel[at];
      bool any = false, ok = false; for (unsigned k = 0; k < ms.n_states; k++) { auto &m = ms.states[k]; if (nmea_id(m.mesid.sat, m.mesid.code) == id) { any = true; ok = atoi(s.f[i + 3].c_str()) == (int)std::floor(m.cn0 / 4.0 + 0.5); break; } }
      (void)a; EQ(any ? ok && !s.f[i + 3].empty() : s.f[i + 3].empty(), "snr"); note.clear();
    }
  }
  const Sent &s = *v[0]; for (auto &w : want) EQ(used[w.first].size() == w.second.size(), "missing");
  ev("gsv-sentences", v.size());
}
// ------------------------------------------------------------ C52: schedule
bool on_grid(Ctx &c, int t, uint32_t tow) {
  int r = c.md.rate[t]; if (r <= 0) return false; double P = 1000.0 / c.md.freq; uint64_t k = (uint64_t)std::floor((tow + 0.5) / P + 1e-9); return k % (unsigned)r == 0;
}
uint32_t epoch_of(Ctx &c, int t) { return (c.md.fused && FUSEDOK[t]) ? c.md.m[SBP2NMEA_SBP_UTC_TIME].utc_time.tow : c.md.m[SBP2NMEA_SBP_UTC_TIME_GNSS].utc_time.tow; }
// the messages of an epoch a sentence of the GNSS solution waits for
std::vector<int> parts(int t) {
  switch (t) {
    case GGA: case RMC: case VTG: case GLL: case GSA: case GST: case PUBX: return {SBP2NMEA_SBP_POS_LLH_COV_GNSS, SBP2NMEA_SBP_GPS_TIME_GNSS, SBP2NMEA_SBP_VEL_NED_GNSS, SBP2NMEA_SBP_DOPS, SBP2NMEA_SBP_AGE_CORR};
    case HDT: return {SBP2NMEA_SBP_HDG};
    case THS: return {SBP2NMEA_SBP_ORIENT_EULER, SBP2NMEA_SBP_POS_LLH_COV_GNSS};
    default: return {};
  }
}
uint32_t part_tow(const Model &M, int id) {
  switch (id) {
    case SBP2NMEA_SBP_DOPS: return M.m[id].dops.tow; case SBP2NMEA_SBP_AGE_CORR: return M.m[id].age_corrections.tow; case SBP2NMEA_SBP_HDG: return M.m[id].baseline_heading.tow; case SBP2NMEA_SBP_ORIENT_EULER: return M.m[id].orient_euler.tow;
    case SBP2NMEA_SBP_VEL_NED_GNSS: return M.m[id].vel_ned.tow; case SBP2NMEA_SBP_GPS_TIME_GNSS: return M.m[id].gps_time.tow; default: return M.m[id].pos_llh_cov.tow;
  }
}
int64_t obs_behind(const Model &M) { return ((int64_t)M.m[SBP2NMEA_SBP_GPS_TIME_GNSS].gps_time.wn - M.obs.wn) * 604800000 + (int64_t)M.m[SBP2NMEA_SBP_GPS_TIME_GNSS].gps_time.tow - M.obs.tow; }
void check_sched(Ctx &c, int t) {
  uint32_t tow = epoch_of(c, t); Model &M = c.md;
  if (M.rate[t] == 0) { violate("sched.disabled", "%s emitted at tow %u although its rate is 0", NAME[t], tow); return; }
  if (M.req == SBP2NMEA_MODE_FUSED && !FUSEDOK[t]) { violate("sched.not-fused", "%s emitted in fused mode", NAME[t]); return; }
  if (!on_grid(c, t, tow)) { violate("sched.rate", "%s emitted at tow %u with rate %d at %g Hz", NAME[t], tow, M.rate[t], M.freq); return; }
  auto k = std::make_pair(t, tow);
  if (c.emitted.count(k)) { violate("sched.twice", "%s emitted twice for tow %u", NAME[t], tow); return; }
  c.emitted[k] = c.call;
  if (!(M.fused && FUSEDOK[t])) {  // every component it shows belongs to this epoch
    for (int id : parts(t)) { uint32_t x = part_tow(M, id); if (x != tow) { violate("sched.mixed", "%s at tow %u uses component %d of tow %u", NAME[t], tow, id, x); return; } }
    if (t == GSA) { if (!M.obs.complete()) { violate("sched.partial-obs", "GSA at tow %u from an incomplete observation sequence (%u of %u)", tow, M.obs.count + 1, M.obs.total); return; }
      if (obs_behind(M) > 0) { violate("sched.old-obs", "GSA at tow %u from observations of %u %u", tow, M.obs.wn, M.obs.tow); return; } }
  } else if (!M.wagon) { violate("sched.open-wagon", "%s at tow %u before the group was complete", NAME[t], tow); return; }
  ev("emissions-checked");
}

void on_sentence(char *msg, void *p) {
  Ctx &c = *(Ctx *)p; Sent s; digest(msg, strlen(msg));
  if (!parse(msg, s)) return; ev("sentences"); evs(std::string("sentence-") + NAME[s.type]);
  form(s, c.inrange); c.callout.push_back(s);
}
void after_call(Ctx &c) {
  c.call++; std::vector<Sent> v; v.swap(c.callout); int last = -1;
  for (size_t i = 0; i < v.size() && !violated();) {
    size_t j = i; while (j < v.size() && v[j].type == v[i].type) j++;
    int t = v[i].type;
    if (c.sched) {
      VH_CHECK(t > last, "sched.order", "%s after %s in one call", NAME[t], last >= 0 ? NAME[last] : "?"); last = t;
      if (t != GSA && t != GSV) for (size_t k = i; k < j; k++) check_sched(c, t); else check_sched(c, t);
      c.everemitted[t] = true;
    }
    if (c.content && !violated()) {
      std::vector<const Sent *> g; for (size_t k = i; k < j; k++) g.push_back(&v[k]);
      if (t == GSA) check_gsa(c, g); else if (t == GSV) check_gsv(c, g); else for (auto *x : g) check_content(c, *x);
      for (auto *x : g) distinct(x->raw.data(), x->raw.size());
    }
    c.count[t]++; i = j; nontrivial();
  }
}
bool bad_meas(const sbp_msg_measurement_state_t &m) { for (unsigned i = 0; i < m.n_states; i++) if (group_of(1, m.states[i].mesid.code) == gGL && m.states[i].mesid.sat > 28) return true; return false; }
void feed(Ctx &c, const sbp_msg_t &m, int id) {
  Model &M = c.md; int to = id;
  if (M.req == SBP2NMEA_MODE_GNSS) { if (id == SBP2NMEA_SBP_GPS_TIME) to = SBP2NMEA_SBP_GPS_TIME_GNSS; if (id == SBP2NMEA_SBP_UTC_TIME) to = SBP2NMEA_SBP_UTC_TIME_GNSS; if (id == SBP2NMEA_SBP_POS_LLH_COV) to = SBP2NMEA_SBP_POS_LLH_COV_GNSS; if (id == SBP2NMEA_SBP_VEL_NED) to = SBP2NMEA_SBP_VEL_NED_GNSS; }
  if (id == SBP2NMEA_SBP_GROUP_META && M.req == SBP2NMEA_MODE_BEST) M.fused = true;
  if (M.fused && id == SBP2NMEA_SBP_GROUP_META) M.wagon = false; if (M.fused && id == SBP2NMEA_SBP_SOLN_META) M.wagon = true;
  if (!(id == SBP2NMEA_SBP_MEASUREMENT_STATE && bad_meas(m.measurement_state))) { M.m[to] = m; M.have[to] = true; }
  // exact-size copy so that any over-read is seen
  sbp_msg_t *h = (sbp_msg_t *)malloc(sizeof *h); memcpy(h, &m, sizeof *h);
  sbp2nmea(c.st, h, (sbp2nmea_sbp_id_t)id); free(h); after_call(c);
}
void feed_obs(Ctx &c, const sbp_msg_obs_t &o) {
  ObsSeq &s = c.md.obs; unsigned total = o.header.n_obs >> 4, count = o.header.n_obs & 15;
  if (count == 0) { s.any = true; s.sids.clear(); s.count = 0; s.total = total; s.wn = o.header.t.wn; s.tow = o.header.t.tow; }
  else if (s.any && count == s.count + 1 && s.wn == o.header.t.wn && s.tow == o.header.t.tow) { s.count = count; }
  else { count = 99; }
  if (count != 99) for (unsigned i = 0; i < o.n_obs; i++) s.sids.push_back({o.obs[i].sid.sat, o.obs[i].sid.code});
  sbp_msg_obs_t *h = (sbp_msg_obs_t *)malloc(sizeof *h); memcpy(h, &o, sizeof *h); sbp2nmea_obs(c.st, h); free(h); after_call(c);
}
void start(Ctx &c, Rng &r, sbp2nmea_mode_t mode, double freq) {
  c.st = (sbp2nmea_t *)malloc(sizeof *c.st); memset(c.st, fill(r), sizeof *c.st);
  sbp2nmea_init(c.st, mode, on_sentence, &c); c.md.req = mode; c.md.fused = mode == SBP2NMEA_MODE_FUSED;
  sbp2nmea_soln_freq_set(c.st, (float)freq); c.md.freq = freq;
}
void set_rate(Ctx &c, int t, int rate) { sbp2nmea_rate_set(c.st, rate, (sbp2nmea_nmea_id_t)t); c.md.rate[t] = rate; }

// --------------------------------------------------------------- generators
sbp_v4_gnss_signal_t rnd_sid(Rng &r) {
  static const std::vector<int> gps{CODE_GPS_L1CA, CODE_GPS_L2CM, CODE_GPS_L2P, CODE_GPS_L5Q}, glo{CODE_GLO_L1OF, CODE_GLO_L2OF}, gal{CODE_GAL_E1B, CODE_GAL_E7I, CODE_GAL_E5I}, bds{CODE_BDS2_B1, CODE_BDS2_B2, CODE_BDS3_B5I}, qzs{CODE_QZS_L1CA, CODE_QZS_L2CM};
  sbp_v4_gnss_signal_t s; memset(&s, 0, sizeof s); uint32_t k = r.below(16);
  if (k < 5) { s.sat = (uint8_t)(1 + r.below(32)); s.code = (uint8_t)r.pick(gps); } else if (k < 8) { s.sat = (uint8_t)(1 + r.below(28)); s.code = (uint8_t)r.pick(glo); } else if (k < 11) { s.sat = (uint8_t)(1 + r.below(36)); s.code = (uint8_t)r.pick(gal); }
  else if (k < 13) { s.sat = (uint8_t)(1 + r.below(63)); s.code = (uint8_t)r.pick(bds); } else if (k < 14) { s.sat = (uint8_t)(193 + r.below(8)); s.code = (uint8_t)r.pick(qzs); } else if (k < 15) { s.sat = (uint8_t)(120 + r.below(19)); s.code = CODE_SBAS_L1CA; }
  else { s.sat = (uint8_t)(1 + r.below(12)); s.code = CODE_GPS_L1CA; }
  return s;
}
struct Epoch { uint16_t wn; uint32_t tow; };
double edge_deg(Rng &r, int lim) {
  switch (r.below(11)) { case 0: return 0; case 10: return (r.chance(1, 2) ? 1 : -1) * r.uniform(1e-7, 2e-3); case 1: return (r.chance(1, 2) ? 1 : -1) * lim; case 2: return (r.chance(1, 2) ? 1 : -1) * ((int)r.below((uint32_t)lim) + 0.9999999996); case 3: return (r.chance(1, 2) ? 1 : -1) * ((int)r.below((uint32_t)lim) + r.below(60) / 60.0 + 59.999999949 / 3600 * 1e-0); case 4: return r.uniform(-1e-8, 1e-8); case 5: return (double)r.range(-lim, lim); case 6: return (r.chance(1, 2) ? 1 : -1) * (lim - r.uniform(0, 2e-8)); default: return r.uniform(-lim, lim); }
}
float rnd_var(Rng &r) { switch (r.below(6)) { case 0: return 0; case 1: return (float)std::pow(10, r.uniform(-8, -3)); case 2: return (float)std::pow(10, r.uniform(1, 6)); default: return (float)std::pow(10, r.uniform(-4, 2)); } }
sbp_msg_t g_utc(Rng &r, Epoch e, bool flags_ok) {
  sbp_msg_t m; memset(&m, 0, sizeof m); auto &u = m.utc_time; u.tow = e.tow; u.flags = (uint8_t)(flags_ok ? (r.chance(1, 12) ? 0 : 1 + r.below(2) + 8 * r.below(2)) : 0);
  u.year = (uint16_t)(r.chance(1, 6) ? r.pick(std::vector<int>{1999, 2000, 2020, 2024, 2096, 2099, 2100, 2400}) : 1980 + r.below(140)); u.month = (uint8_t)(1 + r.below(12)); u.day = (uint8_t)(1 + r.below(days_in_month(u.year, u.month)));
  if (r.chance(1, 4)) u.day = days_in_month(u.year, u.month); if (r.chance(1, 8)) { u.month = 2; u.day = days_in_month(u.year, 2); } if (r.chance(1, 8)) { u.month = 12; u.day = 31; }
  u.hours = (uint8_t)(r.chance(1, 4) ? 23 : r.below(24)); u.minutes = (uint8_t)(r.chance(1, 4) ? 59 : r.below(60)); u.seconds = (uint8_t)(r.chance(1, 4) ? 59 : r.below(60)); u.ns = r.chance(1, 4) ? 994000000 + r.below(6000000) : r.chance(1, 5) ? r.below(100) * 10000000 : r.below(1000000000);
  if (r.chance(1, 40)) { u.hours = 23; u.minutes = 59; u.seconds = 60; u.ns = r.below(990000000); }
  if (r.chance(1, 16)) { u.day = days_in_month(u.year, u.month); u.hours = 23; u.minutes = u.seconds = 59; u.ns = 994000000 + r.below(6000000); }  // the last moment of a month
  if (u.ns % 10000000 > 4999990 && u.ns % 10000000 < 5000010) u.ns = u.ns / 10000000 * 10000000;
  return m;
}
sbp_msg_t g_pos(Rng &r, Epoch e) {
  sbp_msg_t m; memset(&m, 0, sizeof m); auto &p = m.pos_llh_cov; p.tow = e.tow; p.lat = edge_deg(r, 90); p.lon = edge_deg(r, 180); p.height = r.chance(1, 6) ? r.uniform(-500, 60000) : r.uniform(-100, 3000);
  p.cov_n_n = rnd_var(r); p.cov_e_e = r.chance(1, 4) ? p.cov_n_n : rnd_var(r); p.cov_d_d = rnd_var(r); double q = std::sqrt((double)p.cov_n_n * (double)p.cov_e_e); p.cov_n_e = (float)(q * (r.chance(1, 4) ? (r.chance(1, 2) ? 1.0 : -1.0) : r.chance(1, 5) ? 0 : r.uniform(-1, 1)));
  p.n_sats = (uint8_t)r.below(64); p.flags = (uint8_t)(r.below(7) | (r.below(4) << 3)); if (r.chance(1, 8)) p.flags &= 0xF8; return m;
}
sbp_msg_t g_vel(Rng &r, Epoch e) {
  sbp_msg_t m; memset(&m, 0, sizeof m); auto &v = m.vel_ned; v.tow = e.tow;
  switch (r.below(8)) { case 0: break; case 1: v.n = (int)r.range(-200, 200); v.e = (int)r.range(-200, 200); break; case 2: v.n = (int)r.range(1000, 50000); v.e = -(int)r.range(0, 120); break; case 3: v.n = -(int)r.range(0, 100000); break; case 4: v.n = (int)r.range(-500000, 500000); v.e = (int)r.range(-500000, 500000); break; default: v.n = (int)r.range(-30000, 30000); v.e = (int)r.range(-30000, 30000); }
  v.d = (int)r.range(-20000, 20000); v.flags = (uint8_t)(r.chance(1, 6) ? 0 : 1 + r.below(4)); if (r.chance(1, 4)) v.flags |= 8; return m;
}
sbp_msg_t g_dops(Rng &r, Epoch e) { sbp_msg_t m; memset(&m, 0, sizeof m); auto &d = m.dops; d.tow = e.tow; auto v = [&] { return (uint16_t)(r.chance(1, 10) ? r.bits(16) : r.below(1500)); }; d.gdop = v(); d.pdop = v(); d.tdop = v(); d.hdop = v(); d.vdop = v(); d.flags = (uint8_t)(r.chance(1, 6) ? 0x80 * r.below(2) : (1 + r.below(6)) | 0x80 * r.below(2)); return m; }
sbp_msg_t g_age(Rng &r, Epoch e) { sbp_msg_t m; memset(&m, 0, sizeof m); m.age_corrections.tow = e.tow; m.age_corrections.age = (uint16_t)(r.chance(1, 8) ? r.below(65535) : r.below(300)); return m; }
sbp_msg_t g_gps(Rng &r, Epoch e) { sbp_msg_t m; memset(&m, 0, sizeof m); m.gps_time.tow = e.tow; m.gps_time.wn = e.wn; m.gps_time.ns_residual = (int)r.range(-500000, 500000); m.gps_time.flags = 1; return m; }
sbp_msg_t g_hdg(Rng &r, Epoch e) { sbp_msg_t m; memset(&m, 0, sizeof m); m.baseline_heading.tow = e.tow; m.baseline_heading.heading = r.chance(1, 4) ? 359980 + r.below(20) : r.chance(1, 8) ? 0 : r.below(360000); m.baseline_heading.n_sats = (uint8_t)r.below(40); m.baseline_heading.flags = (uint8_t)(r.chance(1, 4) ? r.below(5) : 4); return m; }
sbp_msg_t g_euler(Rng &r, Epoch e) { sbp_msg_t m; memset(&m, 0, sizeof m); auto &o = m.orient_euler; o.tow = e.tow; o.yaw = r.chance(1, 5) ? (int)r.range(-12000, 12000) : r.chance(1, 6) ? (int)((r.chance(1, 2) ? 1 : -1) * (180000000 - (int)r.below(3))) : (int)r.range(-180000000, 180000000); o.roll = (int)r.range(-180000000, 180000000); o.pitch = (int)r.range(-90000000, 90000000); o.flags = (uint8_t)(r.chance(1, 5) ? 0 : 1); return m; }
sbp_msg_t g_azel(Rng &r, int maxn) {
  sbp_msg_t m; memset(&m, 0, sizeof m); auto &a = m.sv_az_el; int cap = (int)(sizeof a.azel / sizeof a.azel[0]); int n = r.chance(1, 8) ? 0 : r.chance(1, 10) ? std::min(cap, maxn) : (int)r.below((uint32_t)std::min(cap, maxn)); std::set<int> seen;
  for (int i = 0; i < n; i++) { auto s = rnd_sid(r); int id = nmea_id(s.sat, s.code); if (!seen.insert(id).second) continue; auto &x = a.azel[a.n_azel++]; x.sid = s; x.az = (uint8_t)r.below(180); x.el = (int8_t)r.range(r.chance(1, 10) ? -90 : -5, 90); }
  return m;
}
sbp_msg_t g_meas(Rng &r, const sbp_msg_sv_az_el_t *az) {
  sbp_msg_t m; memset(&m, 0, sizeof m); auto &a = m.measurement_state; int cap = (int)(sizeof a.states / sizeof a.states[0]); int n = (int)r.below((uint32_t)cap + 1);
  for (int i = 0; i < n; i++) { auto &x = a.states[a.n_states++]; x.mesid = az && az->n_azel && r.chance(3, 4) ? az->azel[r.below(az->n_azel)].sid : rnd_sid(r); x.cn0 = (uint8_t)r.bits(8); }
  if (r.chance(1, 12) && a.n_states) { auto &x = a.states[r.below(a.n_states)]; x.mesid.code = CODE_GLO_L1OF; x.mesid.sat = (uint8_t)(93 + r.below(14)); }
  return m;
}
sbp_msg_t g_meta(Rng &r, Epoch e) { sbp_msg_t m; memset(&m, 0, sizeof m); auto &s = m.soln_meta; s.tow = e.tow; s.pdop = (uint16_t)r.below(2000); s.hdop = (uint16_t)(r.chance(1, 10) ? r.bits(16) : r.below(2000)); s.vdop = (uint16_t)r.below(2000); s.age_corrections = (uint16_t)r.below(3000); return m; }
std::vector<sbp_msg_obs_t> g_obs(Rng &r, Epoch e, bool many) {
  int total = many ? 15 : 1 + (int)r.below(4); std::vector<sbp_msg_obs_t> v; int mono = r.chance(1, 4) ? (int)r.below(4) : -1;
  bool none = r.chance(1, 12);
  for (int i = 0; i < total; i++) { sbp_msg_obs_t o; memset(&o, 0, sizeof o); o.header.t.tow = e.tow; o.header.t.wn = e.wn; o.header.n_obs = (uint8_t)(total << 4 | i); int n = none ? 0 : many ? 14 : (int)r.below(15); for (int k = 0; k < n; k++) { auto &x = o.obs[o.n_obs]; x.sid = rnd_sid(r); if (mono >= 0 && group_of(x.sid.sat, x.sid.code) != mono) continue; x.flags = (uint8_t)r.bits(8); o.n_obs++; } v.push_back(o); }
  return v;
}
// ------------------------------------------------------------ workloads
struct Item { int id; sbp_msg_t m; sbp_msg_obs_t o; };
void config(Ctx &c, Rng &r, bool all_on) {
  for (int t = 0; t < NT; t++) set_rate(c, t, all_on ? 1 : r.pick(std::vector<int>{0, 1, 1, 1, 1, 2, 3, 5, 10}));
  if (r.chance(1, 2)) { c.md.base = (uint16_t)r.bits(16); sbp2nmea_base_id_set(c.st, c.md.base); }
  if (r.chance(1, 3)) { c.md.cogthr = r.pick(std::vector<float>{0.f, 0.05f, 0.5f, 2.f}); sbp2nmea_cog_threshold_set(c.st, c.md.cogthr); }
  if (r.chance(1, 3)) { c.md.updthr = r.pick(std::vector<float>{0.f, 0.05f, 1.f, 5.f}); sbp2nmea_cog_stationary_threshold_set(c.st, (double)c.md.updthr); }
}
// one epoch's messages in a legal order
void epoch_items(Ctx &c, Rng &r, Epoch e, int flavour, std::vector<Item> &v) {
  // flavour 0: legacy ids (GNSS mode), 1: GNSS ids, 2: GNSS ids + fused group, 3: fused group only
  auto add = [&](int id, const sbp_msg_t &m) { Item i; memset(&i, 0, sizeof i); i.id = id; i.m = m; v.push_back(i); };
  std::vector<Item> gn, fu; std::vector<Item> obs;
  auto push = [&](std::vector<Item> &w, int id, const sbp_msg_t &m) { Item i; memset(&i, 0, sizeof i); i.id = id; i.m = m; w.push_back(i); };
  bool legacy = flavour == 0;
  sbp_msg_t az = g_azel(r, r.chance(1, 3) ? 96 : 20);
  if (flavour != 3) {
    push(gn, legacy ? SBP2NMEA_SBP_UTC_TIME : SBP2NMEA_SBP_UTC_TIME_GNSS, g_utc(r, e, true)); push(gn, legacy ? SBP2NMEA_SBP_POS_LLH_COV : SBP2NMEA_SBP_POS_LLH_COV_GNSS, g_pos(r, e)); push(gn, legacy ? SBP2NMEA_SBP_VEL_NED : SBP2NMEA_SBP_VEL_NED_GNSS, g_vel(r, e)); push(gn, legacy ? SBP2NMEA_SBP_GPS_TIME : SBP2NMEA_SBP_GPS_TIME_GNSS, g_gps(r, e));
    push(gn, SBP2NMEA_SBP_DOPS, g_dops(r, e)); push(gn, SBP2NMEA_SBP_AGE_CORR, g_age(r, e)); push(gn, SBP2NMEA_SBP_HDG, g_hdg(r, e));
    if (flavour != 2) push(gn, SBP2NMEA_SBP_ORIENT_EULER, g_euler(r, e));
  }
  if (r.chance(1, 2)) push(gn, SBP2NMEA_SBP_SV_AZ_EL, az);
  if (r.chance(1, 2)) push(gn, SBP2NMEA_SBP_MEASUREMENT_STATE, g_meas(r, &az.sv_az_el));
  for (size_t i = gn.size(); i > 1; i--) std::swap(gn[i - 1], gn[r.below((uint32_t)i)]);
  for (auto &o : g_obs(r, e, r.chance(1, 40))) { Item i; memset(&i, 0, sizeof i); i.id = -1; i.o = o; obs.push_back(i); }
  if (flavour >= 2) {
    push(fu, SBP2NMEA_SBP_UTC_TIME, g_utc(r, e, true)); push(fu, SBP2NMEA_SBP_POS_LLH_COV, g_pos(r, e)); push(fu, SBP2NMEA_SBP_VEL_NED, g_vel(r, e)); push(fu, SBP2NMEA_SBP_GPS_TIME, g_gps(r, e)); push(fu, SBP2NMEA_SBP_ORIENT_EULER, g_euler(r, e));
    for (size_t i = fu.size(); i > 1; i--) std::swap(fu[i - 1], fu[r.below((uint32_t)i)]);
    sbp_msg_t gm; memset(&gm, 0, sizeof gm); Item i; memset(&i, 0, sizeof i); i.id = SBP2NMEA_SBP_GROUP_META; fu.insert(fu.begin(), i); push(fu, SBP2NMEA_SBP_SOLN_META, g_meta(r, e));
  }
  (void)add; (void)c;
  // interleave the three streams keeping the order inside each
  size_t a = 0, b = 0, d = 0; bool block = r.chance(1, 2);
  while (a < gn.size() || b < fu.size() || d < obs.size()) {
    uint32_t k = block ? (a < gn.size() ? 0 : b < fu.size() ? 1 : 2) : r.below(3); if (block && d < obs.size() && r.chance(1, 6)) k = 2;
    if (k == 0 && a < gn.size()) v.push_back(gn[a++]); else if (k == 1 && b < fu.size()) v.push_back(fu[b++]); else if (k == 2 && d < obs.size()) v.push_back(obs[d++]);
  }
}
void play(Ctx &c, const Item &i) { if (i.id < 0) feed_obs(c, i.o); else feed(c, i.m, i.id); }
void case_regular(Rng &r, bool content) {  // every epoch arrives completely
  static const std::vector<double> F{1, 2, 4, 5, 10, 20, 10, 10, 0.5, 0.1, 3, 6, 15, 30};
  Ctx c; c.inrange = true; c.content = content; c.sched = true; double freq = content ? 10 : r.pick(F); int flavour = (int)r.below(4);
  sbp2nmea_mode_t mode = flavour == 0 ? SBP2NMEA_MODE_GNSS : flavour == 1 ? (r.chance(1, 2) ? SBP2NMEA_MODE_GNSS : SBP2NMEA_MODE_BEST) : flavour == 2 ? SBP2NMEA_MODE_BEST : SBP2NMEA_MODE_FUSED;
  start(c, r, mode, freq); config(c, r, content && r.chance(1, 2)); double P = 1000 / freq; bool whole = std::fabs(P - std::round(P)) < 1e-9;
  uint64_t k = (uint64_t)(r.chance(1, 6) ? 604800000.0 / P - r.below(10) : 1 + r.below((uint32_t)(604000000.0 / P))); uint16_t wn = (uint16_t)(1900 + r.below(500)); uint32_t per_week = (uint32_t)std::llround(604800000.0 / P);
  uint32_t jit = whole && r.chance(1, 3) ? r.below((uint32_t)std::max(1.0, P * 0.49 - 1)) : 0; int n = content ? 2 + (int)r.below(6) : 4 + (int)r.below(22);
  for (int i = 0; i < n && !violated(); i++, k += r.chance(1, 12) ? 1 + r.below(4) : 1) {
    if (k >= per_week) { k -= per_week; wn++; }
    if (r.chance(1, 12) && !content) set_rate(c, (int)r.below(NT), r.pick(std::vector<int>{0, 1, 2, 5}));
    Epoch e{wn, (uint32_t)std::llround((double)k * P) + jit}; if (e.tow >= 604800000) continue;
    std::vector<Item> v; epoch_items(c, r, e, flavour, v); bool was[NT]; memcpy(was, c.everemitted, sizeof was);
    for (auto &x : v) { if (violated()) return; play(c, x); }
    if (violated()) return;
    for (int t = 0; t < NT; t++) {  // liveness
      bool due = on_grid(c, t, e.tow); if (mode == SBP2NMEA_MODE_FUSED && !FUSEDOK[t]) due = false; if (e.tow == 0 && !was[t]) continue;
      bool got = c.emitted.count({t, e.tow}) != 0;
      if (due && !got) { violate("sched.missing", "%s not emitted at tow %u (rate %d, %g Hz, flavour %d)", NAME[t], e.tow, c.md.rate[t], freq, flavour); return; }
      if (due) ev("due-and-emitted"); else ev("not-due");
    }
    ev("epochs"); uint32_t z[4] = {(uint32_t)flavour, (uint32_t)v.size(), (uint32_t)(freq * 10), jit != 0}; distinct(z, sizeof z);
  }
}
void case_lossy(Rng &r) {  // messages lost and repeated; epochs still in order (GNSS solution)
  Ctx c; c.inrange = true; c.sched = true; c.content = true; double freq = r.pick(std::vector<double>{1, 5, 10}); int flavour = (int)r.below(2);
  start(c, r, flavour == 0 ? SBP2NMEA_MODE_GNSS : SBP2NMEA_MODE_BEST, freq); config(c, r, false); double P = 1000 / freq; uint64_t k = 1 + r.below((uint32_t)(600000000.0 / P)); uint16_t wn = 2000;
  int n = 4 + (int)r.below(20); std::vector<Item> held;
  for (int i = 0; i < n && !violated(); i++, k++) {
    Epoch e{wn, (uint32_t)std::llround((double)k * P)}; std::vector<Item> v; epoch_items(c, r, e, flavour, v);
    // observations of the next epoch may overtake, and some of this epoch's may be lost
    std::vector<Item> w;
    for (auto &x : v) { uint32_t q = r.below(14); if (q == 0) { ev("lost"); continue; } if (q == 1 && x.id >= 0) { w.push_back(x); ev("repeated"); } if (q == 2 && x.id < 0) { held.push_back(x); ev("late"); continue; } w.push_back(x); }
    for (auto &x : held) if (r.chance(1, 2)) w.insert(w.begin() + (long)r.below((uint32_t)w.size() + 1), x);
    if (r.chance(1, 2)) held.clear();
    if (r.chance(1, 4)) {  // the tail of the sequence is lost and the tail of another epoch's sequence arrives
      int last = -1; for (size_t q = 0; q < w.size(); q++) if (w[q].id < 0) last = (int)q;
      if (last >= 0) { Item x = w[(size_t)last]; unsigned cnt = x.o.header.n_obs & 15; if (cnt > 0 && r.chance(1, 2)) { x.o.header.t.tow += 7 * (uint32_t)P + 1; x.o.header.n_obs = (uint8_t)((cnt + 1) << 4 | cnt); w[(size_t)last] = x; } else { x.o.header.t.tow += 7 * (uint32_t)P + 1; cnt++; x.o.header.n_obs = (uint8_t)((cnt + 1) << 4 | cnt); if (cnt < 15) w.insert(w.begin() + last + 1, x); } ev("foreign-tail"); }
    }
    for (auto &x : w) { if (violated()) return; play(c, x); }
    if (violated()) return;
    const Model &M = c.md; uint32_t tow = M.m[SBP2NMEA_SBP_UTC_TIME_GNSS].utc_time.tow;
    for (int t = 0; t < NT; t++) {  // what arrived is enough for these, whatever was lost
      bool whole = M.have[SBP2NMEA_SBP_UTC_TIME_GNSS]; for (int id : parts(t)) whole = whole && M.have[id] && part_tow(M, id) == tow;
      if (t == GSA) whole = whole && M.obs.complete() && obs_behind(M) <= 0;
      if (!whole) { ev("parts-missing"); continue; } if (!on_grid(c, t, tow)) continue;
      if (!c.emitted.count({t, tow})) { violate("sched.missing", "%s not emitted at tow %u although all it shows has arrived (rate %d, %g Hz)", NAME[t], tow, c.md.rate[t], freq); return; }
      ev("due-and-emitted");
    }
    ev("epochs");
  }
}
void fill(Rng &r, void *p, size_t n) { uint8_t *b = (uint8_t *)p; int k = (int)r.below(3); for (size_t i = 0; i < n; i++) b[i] = k == 0 ? (uint8_t)r.u64() : k == 1 ? (uint8_t)r.bits(8) : r.chance(1, 8) ? (uint8_t)r.u64() : 0; }
void case_hostile(Rng &r) {
  Ctx c; double fr = r.chance(1, 4) ? r.dbl() : r.pick(std::vector<double>{10, 1, 1000, 0.001, 5000, 1e-9, 0, -1});
  start(c, r, (sbp2nmea_mode_t)r.below(3), fr); if (r.chance(1, 10)) { free(c.st); c.st = (sbp2nmea_t *)malloc(sizeof *c.st); sbp2nmea_init(c.st, SBP2NMEA_MODE_GNSS, on_sentence, &c); }
  for (int t = 0; t < NT; t++) sbp2nmea_rate_set(c.st, r.chance(1, 6) ? (int)r.bits(32) : r.pick(std::vector<int>{0, 1, 1, 1, 2, 1000000, -1}), (sbp2nmea_nmea_id_t)t);
  if (r.chance(1, 4)) sbp2nmea_cog_threshold_set(c.st, r.flt()); if (r.chance(1, 4)) sbp2nmea_cog_stationary_threshold_set(c.st, r.dbl()); sbp2nmea_base_id_set(c.st, (uint16_t)r.bits(16));
  int n = 10 + (int)r.below(120); uint32_t tow = r.bits(32) & 0x3FFFFFFF; bool steady = r.chance(3, 4);
  for (int i = 0; i < n; i++) {
    if (r.chance(1, 16)) tow = (uint32_t)r.bits(32); Epoch e{(uint16_t)r.bits(16), tow}; if (steady) e.wn = 2000;
    if (r.chance(1, 6)) { sbp_msg_obs_t o; memset(&o, 0, sizeof o); if (r.chance(1, 2)) { auto v = g_obs(r, e, r.chance(1, 6)); for (auto &x : v) { if (r.chance(1, 20)) x.header.n_obs = (uint8_t)r.bits(8); sbp2nmea_obs(c.st, &x); c.callout.clear(); } } else { fill(r, &o, sizeof o); o.n_obs %= (uint8_t)(sizeof o.obs / sizeof o.obs[0] + 1); if (r.chance(1, 2)) o.header.t.tow = tow; sbp2nmea_obs(c.st, &o); } ev("obs-messages"); c.callout.clear(); continue; }
    int id = (int)r.below(16); sbp_msg_t m; memset(&m, 0, sizeof m);
    switch (id) {
      case SBP2NMEA_SBP_GPS_TIME: case SBP2NMEA_SBP_GPS_TIME_GNSS: m = g_gps(r, e); if (r.chance(1, 4)) m.gps_time.wn = (uint16_t)r.bits(16); break;
      case SBP2NMEA_SBP_UTC_TIME: case SBP2NMEA_SBP_UTC_TIME_GNSS: m = g_utc(r, e, true); if (r.chance(1, 3)) { fill(r, &m.utc_time, sizeof m.utc_time); m.utc_time.tow = tow; } break;
      case SBP2NMEA_SBP_POS_LLH_COV: case SBP2NMEA_SBP_POS_LLH_COV_GNSS: { m = g_pos(r, e); auto &p = m.pos_llh_cov; if (r.chance(1, 3)) { fill(r, &p, sizeof p); p.tow = tow; } else if (r.chance(1, 2)) { if (r.chance(1, 3)) p.lat = r.dbl(); if (r.chance(1, 3)) p.lon = r.dbl(); if (r.chance(1, 3)) p.height = r.dbl(); if (r.chance(1, 3)) p.cov_n_n = r.flt(); if (r.chance(1, 3)) p.cov_n_e = r.flt(); if (r.chance(1, 3)) p.cov_e_e = r.flt(); if (r.chance(1, 3)) p.cov_d_d = r.flt(); p.flags = (uint8_t)r.bits(8); } break; }
      case SBP2NMEA_SBP_VEL_NED: case SBP2NMEA_SBP_VEL_NED_GNSS: m = g_vel(r, e); if (r.chance(1, 3)) { fill(r, &m.vel_ned, sizeof m.vel_ned); m.vel_ned.tow = tow; } else if (r.chance(1, 4)) { m.vel_ned.n = (int)r.bits(32); m.vel_ned.e = (int)r.bits(32); m.vel_ned.d = (int)r.bits(32); } break;
      case SBP2NMEA_SBP_DOPS: m = g_dops(r, e); if (r.chance(1, 3)) { fill(r, &m.dops, sizeof m.dops); m.dops.tow = tow; } break;
      case SBP2NMEA_SBP_AGE_CORR: m = g_age(r, e); m.age_corrections.age = (uint16_t)r.bits(16); break;
      case SBP2NMEA_SBP_HDG: m = g_hdg(r, e); if (r.chance(1, 3)) { fill(r, &m.baseline_heading, sizeof m.baseline_heading); m.baseline_heading.tow = tow; } break;
      case SBP2NMEA_SBP_SV_AZ_EL: m = g_azel(r, 96); if (r.chance(1, 3)) { fill(r, &m.sv_az_el, sizeof m.sv_az_el); m.sv_az_el.n_azel %= (uint8_t)(sizeof m.sv_az_el.azel / sizeof m.sv_az_el.azel[0] + 1); } break;
      case SBP2NMEA_SBP_MEASUREMENT_STATE: m = g_meas(r, nullptr); if (r.chance(1, 3)) { fill(r, &m.measurement_state, sizeof m.measurement_state); m.measurement_state.n_states %= (uint8_t)(sizeof m.measurement_state.states / sizeof m.measurement_state.states[0] + 1); } break;
      case SBP2NMEA_SBP_SOLN_META: m = g_meta(r, e); if (r.chance(1, 3)) { fill(r, &m.soln_meta, sizeof m.soln_meta); } m.soln_meta.tow = tow; m.soln_meta.n_sol_in %= 30; break;
      case SBP2NMEA_SBP_ORIENT_EULER: m = g_euler(r, e); if (r.chance(1, 3)) { fill(r, &m.orient_euler, sizeof m.orient_euler); m.orient_euler.tow = tow; } break;
      default: break;
    }
    sbp_msg_t *h = (sbp_msg_t *)malloc(sizeof *h); memcpy(h, &m, sizeof *h); sbp2nmea(c.st, h, (sbp2nmea_sbp_id_t)id); free(h); ev("messages"); if (!c.callout.empty()) nontrivial(); for (auto &s : c.callout) distinct(s.raw.data(), s.raw.size()); c.callout.clear();
    if (r.chance(1, 30)) tow += 100;
  }
}
}  // namespace
void vh_setup() {}
void vh_case(Rng &r, uint64_t idx) {
  (void)idx; const std::string &m = mode();
  if (m == "content") case_regular(r, true);
  else if (m == "sched") { if (r.chance(1, 3)) case_lossy(r); else case_regular(r, false); }
  else if (m == "form") { if (r.chance(1, 3)) case_hostile(r); else if (r.chance(1, 4)) case_lossy(r); else case_regular(r, true); }
  else case_hostile(r);
}
