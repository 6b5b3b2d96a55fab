/* Stand-in implementation of the libswiftnav subset gnss-converters uses. */
#include <stdarg.h>
#include <swiftnav/array_tools.h>
#include <swiftnav/bits.h>
#include <swiftnav/bitstream.h>
#include <swiftnav/bytestream.h>
#include <swiftnav/edc.h>
#include <swiftnav/ephemeris.h>
#include <swiftnav/fifo_byte.h>
#include <swiftnav/float_equality.h>
#include <swiftnav/geoid_model.h>
#include <swiftnav/gnss_time.h>
#include <swiftnav/logging.h>
#include <swiftnav/memcpy_s.h>
#include <swiftnav/nav_meas.h>
#include <swiftnav/sid_set.h>
#include <swiftnav/signal.h>

/* ---------------- logging: format into a buffer so bad arguments are seen by
 * the sanitizers, and count. */
unsigned long shim_log_count[8];
pfn_log shim_log_sink;
void logging_set_implementation(pfn_log log, pfn_detailed_log detailed_log) {
  (void)detailed_log;
  shim_log_sink = log;
}
int shim_log_echo = -1;
void shim_log(int level, const char *fmt, ...) {
  char buf[2048];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(buf, sizeof(buf), fmt, ap);
  va_end(ap);
  __atomic_fetch_add(&shim_log_count[level & 7], 1, __ATOMIC_RELAXED);
  int echo = __atomic_load_n(&shim_log_echo, __ATOMIC_RELAXED);
  if (echo < 0) {
    echo = getenv("SHIM_LOG") != NULL;
    __atomic_store_n(&shim_log_echo, echo, __ATOMIC_RELAXED);
  }
  if (echo) fprintf(stderr, "[log %d] %s\n", level, buf);
}

bool is_value_in_array_u16(const u16 array[], size_t len, u16 value) {
  for (size_t i = 0; i < len; i++) if (array[i] == value) return true;
  return false;
}
int memcpy_s(void *dest, size_t dest_size, const void *src, size_t n) {
  if (n > dest_size) return 1;
  if (n > 0) memcpy(dest, src, n);
  return 0;
}
bool float_equal(float a, float b) { return fabsf(a - b) < 1e-7f; }
bool double_equal(double a, double b) { return fabs(a - b) < 1e-12; }
bool double_within(double a, double b, double tol) { return fabs(a - b) < tol; }
/* smooth surrogate of the geoid separation, |N| <= 107 m */
float get_geoid_offset(double lat, double lon) {
  return (float)(40.0 * sin(2 * lat + 0.3) * cos(lon - 0.7) - 30.0 * cos(lat) * sin(2 * lon));
}

/* ---------------- bits */
u8 parity(u32 x) { return (u8)__builtin_parity(x); }
u64 getbitul(const u8 *buff, u32 pos, u8 len) {
  u64 v = 0;
  for (u32 i = pos; i < pos + len; i++) v = (v << 1) | ((buff[i / 8] >> (7 - i % 8)) & 1u);
  return v;
}
u32 getbitu(const u8 *buff, u32 pos, u8 len) { return (u32)getbitul(buff, pos, len); }
s64 getbitsl(const u8 *buff, u32 pos, u8 len) {
  u64 v = getbitul(buff, pos, len);
  if (len == 0 || len >= 64) return (s64)v;
  u64 m = 1ULL << (len - 1);
  return (s64)((v ^ m) - m);
}
s32 getbits(const u8 *buff, u32 pos, u8 len) { return (s32)getbitsl(buff, pos, len); }
void setbitul(u8 *buff, u32 pos, u32 len, u64 data) {
  if (len == 0 || len > 64) return;
  for (u32 i = 0; i < len; i++) {
    u32 p = pos + i;
    u8 m = (u8)(1u << (7 - p % 8));
    if ((data >> (len - 1 - i)) & 1u) buff[p / 8] |= m; else buff[p / 8] &= (u8)~m;
  }
}
void setbitu(u8 *buff, u32 pos, u32 len, u32 data) { if (len <= 32) setbitul(buff, pos, len, data); }
void setbits(u8 *buff, u32 pos, u32 len, s32 data) { setbitu(buff, pos, len, (u32)data); }
void setbitsl(u8 *buff, u32 pos, u32 len, s64 data) { setbitul(buff, pos, len, (u64)data); }
void bitshl(void *buf, u32 size, u32 shift) {
  u8 *b = (u8 *)buf;
  u32 n = size * 8;
  for (u32 i = 0; i < n; i++) {
    u32 v = (i + shift < n) ? getbitu(b, i + shift, 1) : 0;
    setbitu(b, i, 1, v);
  }
}
void bitcopy(void *dst, u32 di, const void *src, u32 si, u32 count) {
  for (u32 i = 0; i < count; i++) setbitu((u8 *)dst, di + i, 1, getbitu((const u8 *)src, si + i, 1));
}
static u8 popc(u64 v, int n, u8 bv) {
  int c = __builtin_popcountll(v);
  return (u8)(bv ? c : n - c);
}
u8 count_bits_u64(u64 v, u8 bv) { return popc(v, 64, bv); }
u8 count_bits_u32(u32 v, u8 bv) { return popc(v, 32, bv); }
u8 count_bits_u16(u16 v, u8 bv) { return popc(v, 16, bv); }
u8 count_bits_u8(u8 v, u8 bv) { return popc(v, 8, bv); }

/* ---------------- bitstream / bytestream */
void swiftnav_bitstream_init(swiftnav_bitstream_t *bs, const uint8_t *data, uint32_t len) {
  bs->data = data; bs->len = len; bs->offset = 0;
}
uint32_t swiftnav_bitstream_remaining(const swiftnav_bitstream_t *bs) { return bs->len - bs->offset; }
static bool bs_ok(const swiftnav_bitstream_t *bs, uint32_t pos, uint8_t len) {
  return (uint64_t)bs->offset + pos + len <= bs->len;
}
bool swiftnav_bitstream_getbitu(const swiftnav_bitstream_t *bs, uint32_t *out, uint32_t pos, uint8_t len) {
  if (!bs_ok(bs, pos, len)) return false;
  *out = getbitu(bs->data, bs->offset + pos, len);
  return true;
}
bool swiftnav_bitstream_getbitul(const swiftnav_bitstream_t *bs, uint64_t *out, uint32_t pos, uint8_t len) {
  if (!bs_ok(bs, pos, len)) return false;
  *out = getbitul(bs->data, bs->offset + pos, len);
  return true;
}
bool swiftnav_bitstream_getbits(const swiftnav_bitstream_t *bs, int32_t *out, uint32_t pos, uint8_t len) {
  if (!bs_ok(bs, pos, len)) return false;
  *out = getbits(bs->data, bs->offset + pos, len);
  return true;
}
bool swiftnav_bitstream_getbitsl(const swiftnav_bitstream_t *bs, int64_t *out, uint32_t pos, uint8_t len) {
  if (!bs_ok(bs, pos, len)) return false;
  *out = getbitsl(bs->data, bs->offset + pos, len);
  return true;
}
bool swiftnav_bitstream_remove(swiftnav_bitstream_t *bs, uint32_t len) {
  if ((uint64_t)bs->offset + len > bs->len) return false;
  bs->offset += len;
  return true;
}
void swiftnav_bytestream_init(swiftnav_bytestream_t *bs, const uint8_t *data, uint32_t len) {
  bs->data = data; bs->len = len; bs->offset = 0;
}
uint32_t swiftnav_bytestream_remaining(const swiftnav_bytestream_t *bs) { return bs->len - bs->offset; }
bool swiftnav_bytestream_get_bytes(const swiftnav_bytestream_t *bs, uint32_t pos, uint32_t len, uint8_t *out) {
  if ((uint64_t)bs->offset + pos + len > bs->len) return false;
  if (len) memcpy(out, bs->data + bs->offset + pos, len);
  return true;
}
bool swiftnav_bytestream_get_u8(const swiftnav_bytestream_t *bs, uint32_t pos, uint8_t *out) {
  return swiftnav_bytestream_get_bytes(bs, pos, 1, out);
}
bool swiftnav_bytestream_remove(swiftnav_bytestream_t *bs, uint32_t len) {
  if ((uint64_t)bs->offset + len > bs->len) return false;
  bs->offset += len;
  return true;
}

/* ---------------- CRCs (MSB first, bit by bit via tables built once) */
static u32 crc24_step(u32 crc, u8 byte) {
  crc ^= (u32)byte << 16;
  for (int i = 0; i < 8; i++) { crc <<= 1; if (crc & 0x1000000u) crc ^= 0x1864CFBu; }
  return crc & 0xFFFFFFu;
}
static u32 tab24[256];
static u16 tab16[256];
__attribute__((constructor)) static void init_tabs(void) {
  for (int i = 0; i < 256; i++) {
    tab24[i] = crc24_step(0, (u8)i);
    u16 c = (u16)(i << 8);
    for (int k = 0; k < 8; k++) c = (u16)((c & 0x8000) ? (c << 1) ^ 0x1021 : c << 1);
    tab16[i] = c;
  }
}
u32 crc24q(const u8 *buf, u32 len, u32 crc) {
  for (u32 i = 0; i < len; i++) crc = ((crc << 8) & 0xFFFFFF) ^ tab24[((crc >> 16) ^ buf[i]) & 0xFF];
  return crc;
}
u32 crc24q_bits(u32 crc, const u8 *buf, u32 n_bits, bool invert) {
  u8 prev = 0;
  (void)prev;
  for (u32 i = 0; i < n_bits; i++) {
    u32 b = (buf[i / 8] >> (7 - i % 8)) & 1u;
    if (invert) b ^= 1u;
    u32 top = ((crc >> 23) & 1u) ^ b;
    crc = (crc << 1) & 0xFFFFFF;
    if (top) crc ^= 0x864CFB;
  }
  return crc;
}
u16 crc16_ccitt(const u8 *buf, u32 len, u16 crc) {
  for (u32 i = 0; i < len; i++) crc = (u16)((crc << 8) ^ tab16[((crc >> 8) ^ buf[i]) & 0xFF]);
  return crc;
}

/* ---------------- fifo */
void fifo_init(fifo_t *f, u8 *buffer, fifo_size_t size) {
  f->read_index = 0; f->write_index = 0; f->buffer_size = size; f->buffer = buffer;
}
fifo_size_t fifo_length(fifo_t *f) { return f->write_index - f->read_index; }
fifo_size_t fifo_space(fifo_t *f) { return f->buffer_size - fifo_length(f); }
fifo_size_t fifo_write(fifo_t *f, const u8 *buffer, fifo_size_t length) {
  fifo_size_t n = MIN(length, fifo_space(f));
  for (fifo_size_t i = 0; i < n; i++) f->buffer[(f->write_index + i) % f->buffer_size] = buffer[i];
  f->write_index += n;
  return n;
}
fifo_size_t fifo_peek(fifo_t *f, u8 *buffer, fifo_size_t length) {
  fifo_size_t n = MIN(length, fifo_length(f));
  for (fifo_size_t i = 0; i < n; i++) buffer[i] = f->buffer[(f->read_index + i) % f->buffer_size];
  return n;
}
fifo_size_t fifo_remove(fifo_t *f, fifo_size_t length) {
  fifo_size_t n = MIN(length, fifo_length(f));
  f->read_index += n;
  return n;
}
fifo_size_t fifo_read(fifo_t *f, u8 *buffer, fifo_size_t length) {
  fifo_size_t n = fifo_peek(f, buffer, length);
  return fifo_remove(f, n);
}

/* ---------------- time */
bool gps_time_valid(const gps_time_t *t) {
  return t->wn >= 0 && isfinite(t->tow) && t->tow >= 0 && t->tow < WEEK_SECS;
}
bool normalize_gps_time_safe(gps_time_t *t) {
  if (!isfinite(t->tow)) return false;
  if (t->tow < 0 || t->tow >= WEEK_SECS) {
    double w = floor(t->tow / WEEK_SECS);
    double wn = (double)t->wn + w;
    if (wn < INT16_MIN || wn > INT16_MAX) return false;
    t->tow -= w * WEEK_SECS;
    t->wn = (s16)wn;
    if (t->tow >= WEEK_SECS) { t->tow -= WEEK_SECS; t->wn++; }
    if (t->tow < 0) t->tow = 0;
  }
  return true;
}
void normalize_gps_time(gps_time_t *t) {
  bool ok = normalize_gps_time_safe(t);
  assert(ok);
  (void)ok;
}
bool unsafe_normalize_gps_time(gps_time_t *t) { return normalize_gps_time_safe(t); }
void add_secs(gps_time_t *t, double secs) { t->tow += secs; normalize_gps_time(t); }
/* a harness may define this to stretch the time between atomic operations */
void shim_delay(void) __attribute__((weak));
double gpsdifftime(const gps_time_t *end, const gps_time_t *beg) {
  if (shim_delay) shim_delay();
  double dt = end->tow - beg->tow;
  if (end->wn == WN_UNKNOWN || beg->wn == WN_UNKNOWN) {
    if (dt > WEEK_SECS / 2) dt -= WEEK_SECS;
    if (dt < -WEEK_SECS / 2) dt += WEEK_SECS;
  } else {
    dt += (end->wn - beg->wn) * (double)WEEK_SECS;
  }
  return dt;
}
bool gps_time_match_weeks_safe(gps_time_t *t, const gps_time_t *ref) {
  if (!(t->tow >= 0 && t->tow < WEEK_SECS)) return false;
  /* unknown reference: the week is left alone (what the repository's
   * rtcm3tosbp tests STRS-3 and STRS-5 expect of libswiftnav) */
  if (!gps_time_valid(ref)) return true;
  t->wn = ref->wn;
  double dt = t->tow - ref->tow;
  if (dt > WEEK_SECS / 2) t->wn--;
  else if (dt < -WEEK_SECS / 2) t->wn++;
  return t->wn >= 0;
}
void gps_time_match_weeks(gps_time_t *t, const gps_time_t *ref) { (void)gps_time_match_weeks_safe(t, ref); }
u16 gps_adjust_week_cycle(u16 wn_raw, u16 wn_ref) {
  if (wn_raw >= wn_ref) return wn_raw;
  return (u16)(wn_raw + GPS_WEEK_CYCLE * ((wn_ref + GPS_WEEK_CYCLE - 1 - wn_raw) / GPS_WEEK_CYCLE));
}
u16 gps_adjust_week_cycle256(u16 wn_raw, u16 wn_ref) {
  if (wn_raw >= wn_ref) return wn_raw;
  return (u16)(wn_raw + 256 * ((wn_ref + 255 - wn_raw) / 256));
}
gps_time_t time2gps_t(time_t unix_t) {
  gps_time_t t;
  double s = (double)(unix_t - GPS_EPOCH);
  t.wn = (s16)floor(s / WEEK_SECS);
  t.tow = s - (double)t.wn * WEEK_SECS;
  /* no leap seconds: the callers add them */
  normalize_gps_time(&t);
  return t;
}
time_t gps2time(const gps_time_t *t) {
  return (time_t)(GPS_EPOCH + (time_t)t->wn * WEEK_SECS + (time_t)floor(t->tow - get_gps_utc_offset(t, NULL)));
}
bool is_leap_year(s32 y) { return (y % 4 == 0 && y % 100 != 0) || y % 400 == 0; }
u8 days_in_month(u16 year, u8 month) {
  static const u8 d[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
  if (month < 1 || month > 12) return 0;
  return (u8)(d[month - 1] + (month == 2 && is_leap_year(year) ? 1 : 0));
}
/* days from 1970-01-01 (proleptic Gregorian) */
static s64 civil_days(s64 y, s64 m, s64 d) {
  y -= m <= 2;
  s64 era = (y >= 0 ? y : y - 399) / 400;
  s64 yoe = y - era * 400;
  s64 doy = (153 * (m + (m > 2 ? -3 : 9)) + 2) / 5 + d - 1;
  s64 doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
  return era * 146097 + doe - 719468;
}
gps_time_t date2gps(s32 year, s32 month, s32 day, s32 hour, s32 min, double sec) {
  s64 days = civil_days(year, month, day) - civil_days(1980, 1, 6);
  double s = (double)days * DAY_SECS + hour * 3600.0 + min * 60.0 + sec;
  gps_time_t t;
  t.wn = (s16)floor(s / WEEK_SECS);
  t.tow = s - (double)t.wn * WEEK_SECS;
  t.tow -= get_utc_gps_offset(&t, NULL);
  normalize_gps_time(&t);
  return t;
}
/* {year, month} at whose first midnight UTC the offset became value */
static const struct { s16 y; s8 m; s8 off; } leaps[] = {
    {1981, 7, 1},  {1982, 7, 2},  {1983, 7, 3},  {1985, 7, 4},  {1988, 1, 5},  {1990, 1, 6},
    {1991, 1, 7},  {1992, 7, 8},  {1993, 7, 9},  {1994, 7, 10}, {1996, 1, 11}, {1997, 7, 12},
    {1999, 1, 13}, {2006, 1, 14}, {2009, 1, 15}, {2012, 7, 16}, {2015, 7, 17}, {2017, 1, 18}};
static double secs_of(const gps_time_t *t) { return (double)t->wn * WEEK_SECS + t->tow; }
double gps_time_to_sec_(const gps_time_t *t) { return secs_of(t); }
double get_gps_utc_offset(const gps_time_t *t, const utc_params_t *p) {
  if (p != NULL) {
    if (p->t_lse.wn > 0 && gps_time_valid(&p->t_lse) && gpsdifftime(t, &p->t_lse) >= 1.0) return p->dt_lsf;
    return p->dt_ls;
  }
  double s = secs_of(t);
  for (int i = (int)ARRAY_SIZE(leaps) - 1; i >= 0; i--) {
    double e = (double)(civil_days(leaps[i].y, leaps[i].m, 1) - civil_days(1980, 1, 6)) * DAY_SECS;
    if (s >= e + leaps[i].off) return leaps[i].off;
  }
  return 0;
}
double get_utc_gps_offset(const gps_time_t *utc, const utc_params_t *p) {
  if (p != NULL) return -p->dt_ls;
  double s = secs_of(utc);
  for (int i = (int)ARRAY_SIZE(leaps) - 1; i >= 0; i--) {
    double e = (double)(civil_days(leaps[i].y, leaps[i].m, 1) - civil_days(1980, 1, 6)) * DAY_SECS;
    if (s >= e) return -leaps[i].off;
  }
  return 0;
}
bool is_leap_second_event(const gps_time_t *t, const utc_params_t *p) {
  (void)p;
  double s = secs_of(t);
  for (int i = 0; i < (int)ARRAY_SIZE(leaps); i++) {
    double e = (double)(civil_days(leaps[i].y, leaps[i].m, 1) - civil_days(1980, 1, 6)) * DAY_SECS + leaps[i].off - 1;
    if (s >= e && s < e + 1) return true;
  }
  return false;
}
void make_utc_tm(const gps_time_t *t, utc_tm *u) {
  s64 days = (s64)t->wn * 7 + (s64)floor(t->tow / DAY_SECS) + civil_days(1980, 1, 6);
  double tod = t->tow - floor(t->tow / DAY_SECS) * DAY_SECS;
  s64 z = days + 719468, era = (z >= 0 ? z : z - 146096) / 146097, doe = z - era * 146097;
  s64 yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365, y = yoe + era * 400;
  s64 doy = doe - (365 * yoe + yoe / 4 - yoe / 100), mp = (5 * doy + 2) / 153;
  u->month_day = (u8)(doy - (153 * mp + 2) / 5 + 1);
  u->month = (u8)(mp < 10 ? mp + 3 : mp - 9);
  u->year = (u16)(y + (u->month <= 2));
  u->year_day = (u16)(days - civil_days(u->year, 1, 1) + 1);
  u->week_day = (u8)((days + 4) % 7);
  s32 s = (s32)floor(tod);
  u->hour = (u8)(s / 3600);
  u->minute = (u8)(s / 60 % 60);
  u->second_int = (u8)(s % 60);
  u->second_frac = tod - s;
}
void gps2utc(const gps_time_t *t, utc_tm *u, const utc_params_t *p) {
  gps_time_t x = *t;
  bool ls = is_leap_second_event(t, p);
  x.tow -= get_gps_utc_offset(t, p) + (ls ? 1 : 0);
  normalize_gps_time(&x);
  make_utc_tm(&x, u);
  if (ls) u->second_int = (u8)(u->second_int + 1);
}
gps_time_t glo_time2gps_time(u16 nt, u8 n4, s8 h, s8 m, double s, const utc_params_t *p) {
  if (nt > 1461 || n4 < 1 || n4 > 31) return GPS_TIME_UNKNOWN;
  s64 days = civil_days(1996 + 4 * (n4 - 1), 1, 1) + (nt - 1) - civil_days(1980, 1, 6);
  double sec = (double)days * DAY_SECS + h * 3600.0 + m * 60.0 + s - UTC_SU_OFFSET * 3600.0;
  gps_time_t t;
  t.wn = (s16)floor(sec / WEEK_SECS);
  t.tow = sec - (double)t.wn * WEEK_SECS;
  t.tow -= get_utc_gps_offset(&t, p);
  normalize_gps_time(&t);
  return t;
}

/* ---------------- signals */
static const struct { const char *name; constellation_t c; } codes[CODE_COUNT] = {
#define C_(code, nm, cons) [code] = {nm, cons}
    C_(CODE_GPS_L1CA, "GPS L1CA", CONSTELLATION_GPS), C_(CODE_GPS_L2CM, "GPS L2CM", CONSTELLATION_GPS),
    C_(CODE_SBAS_L1CA, "SBAS L1", CONSTELLATION_SBAS), C_(CODE_GLO_L1OF, "GLO L1OF", CONSTELLATION_GLO),
    C_(CODE_GLO_L2OF, "GLO L2OF", CONSTELLATION_GLO), C_(CODE_GPS_L1P, "GPS L1P", CONSTELLATION_GPS),
    C_(CODE_GPS_L2P, "GPS L2P", CONSTELLATION_GPS), C_(CODE_GPS_L2CL, "GPS L2CL", CONSTELLATION_GPS),
    C_(CODE_GPS_L2CX, "GPS L2C", CONSTELLATION_GPS), C_(CODE_GPS_L5I, "GPS L5I", CONSTELLATION_GPS),
    C_(CODE_GPS_L5Q, "GPS L5Q", CONSTELLATION_GPS), C_(CODE_GPS_L5X, "GPS L5", CONSTELLATION_GPS),
    C_(CODE_BDS2_B1, "BDS B1", CONSTELLATION_BDS), C_(CODE_BDS2_B2, "BDS B2", CONSTELLATION_BDS),
    C_(CODE_GAL_E1B, "GAL E1B", CONSTELLATION_GAL), C_(CODE_GAL_E1C, "GAL E1C", CONSTELLATION_GAL),
    C_(CODE_GAL_E1X, "GAL E1", CONSTELLATION_GAL), C_(CODE_GAL_E6B, "GAL E6B", CONSTELLATION_GAL),
    C_(CODE_GAL_E6C, "GAL E6C", CONSTELLATION_GAL), C_(CODE_GAL_E6X, "GAL E6", CONSTELLATION_GAL),
    C_(CODE_GAL_E7I, "GAL E5bI", CONSTELLATION_GAL), C_(CODE_GAL_E7Q, "GAL E5bQ", CONSTELLATION_GAL),
    C_(CODE_GAL_E7X, "GAL E5b", CONSTELLATION_GAL), C_(CODE_GAL_E8I, "GAL E8I", CONSTELLATION_GAL),
    C_(CODE_GAL_E8Q, "GAL E8Q", CONSTELLATION_GAL), C_(CODE_GAL_E8X, "GAL E8", CONSTELLATION_GAL),
    C_(CODE_GAL_E5I, "GAL E5aI", CONSTELLATION_GAL), C_(CODE_GAL_E5Q, "GAL E5aQ", CONSTELLATION_GAL),
    C_(CODE_GAL_E5X, "GAL E5a", CONSTELLATION_GAL), C_(CODE_GLO_L1P, "GLO L1P", CONSTELLATION_GLO),
    C_(CODE_GLO_L2P, "GLO L2P", CONSTELLATION_GLO), C_(CODE_QZS_L1CA, "QZS L1CA", CONSTELLATION_QZS),
    C_(CODE_QZS_L1CI, "QZS L1CI", CONSTELLATION_QZS), C_(CODE_QZS_L1CQ, "QZS L1CQ", CONSTELLATION_QZS),
    C_(CODE_QZS_L1CX, "QZS L1C", CONSTELLATION_QZS), C_(CODE_QZS_L2CM, "QZS L2CM", CONSTELLATION_QZS),
    C_(CODE_QZS_L2CL, "QZS L2CL", CONSTELLATION_QZS), C_(CODE_QZS_L2CX, "QZS L2C", CONSTELLATION_QZS),
    C_(CODE_QZS_L5I, "QZS L5I", CONSTELLATION_QZS), C_(CODE_QZS_L5Q, "QZS L5Q", CONSTELLATION_QZS),
    C_(CODE_QZS_L5X, "QZS L5", CONSTELLATION_QZS), C_(CODE_SBAS_L5I, "SBAS L5I", CONSTELLATION_SBAS),
    C_(CODE_SBAS_L5Q, "SBAS L5Q", CONSTELLATION_SBAS), C_(CODE_SBAS_L5X, "SBAS L5", CONSTELLATION_SBAS),
    C_(CODE_BDS3_B1CI, "BDS3 B1CI", CONSTELLATION_BDS), C_(CODE_BDS3_B1CQ, "BDS3 B1CQ", CONSTELLATION_BDS),
    C_(CODE_BDS3_B1CX, "BDS3 B1C", CONSTELLATION_BDS), C_(CODE_BDS3_B5I, "BDS3 B5I", CONSTELLATION_BDS),
    C_(CODE_BDS3_B5Q, "BDS3 B5Q", CONSTELLATION_BDS), C_(CODE_BDS3_B5X, "BDS3 B5", CONSTELLATION_BDS),
    C_(CODE_BDS3_B7I, "BDS3 B7I", CONSTELLATION_BDS), C_(CODE_BDS3_B7Q, "BDS3 B7Q", CONSTELLATION_BDS),
    C_(CODE_BDS3_B7X, "BDS3 B7", CONSTELLATION_BDS), C_(CODE_BDS3_B3I, "BDS3 B3I", CONSTELLATION_BDS),
    C_(CODE_BDS3_B3Q, "BDS3 B3Q", CONSTELLATION_BDS), C_(CODE_BDS3_B3X, "BDS3 B3", CONSTELLATION_BDS),
    C_(CODE_GPS_L1CI, "GPS L1CI", CONSTELLATION_GPS), C_(CODE_GPS_L1CQ, "GPS L1CQ", CONSTELLATION_GPS),
    C_(CODE_GPS_L1CX, "GPS L1C", CONSTELLATION_GPS), C_(CODE_AUX_GPS, "GPS AUX", CONSTELLATION_GPS),
    C_(CODE_AUX_SBAS, "SBAS AUX", CONSTELLATION_SBAS), C_(CODE_AUX_GAL, "GAL AUX", CONSTELLATION_GAL),
    C_(CODE_AUX_QZS, "QZS AUX", CONSTELLATION_QZS), C_(CODE_AUX_BDS, "BDS AUX", CONSTELLATION_BDS)};
static const struct { u16 first, n; code_t l1; const char *name; } cons[CONSTELLATION_COUNT] = {
    [CONSTELLATION_GPS] = {GPS_FIRST_PRN, NUM_SATS_GPS, CODE_GPS_L1CA, "GPS"},
    [CONSTELLATION_SBAS] = {SBAS_FIRST_PRN, NUM_SATS_SBAS, CODE_SBAS_L1CA, "SBAS"},
    [CONSTELLATION_GLO] = {GLO_FIRST_PRN, NUM_SATS_GLO, CODE_GLO_L1OF, "GLO"},
    [CONSTELLATION_BDS] = {BDS_FIRST_PRN, NUM_SATS_BDS, CODE_BDS2_B1, "BDS"},
    [CONSTELLATION_QZS] = {QZS_FIRST_PRN, NUM_SATS_QZS, CODE_QZS_L1CA, "QZS"},
    [CONSTELLATION_GAL] = {GAL_FIRST_PRN, NUM_SATS_GAL, CODE_GAL_E1B, "GAL"}};
bool code_valid(code_t c) { return (int)c >= 0 && (int)c < CODE_COUNT; }
bool constellation_valid(constellation_t c) { return (int)c >= 0 && (int)c < CONSTELLATION_COUNT; }
constellation_t code_to_constellation(code_t c) { return code_valid(c) ? codes[c].c : CONSTELLATION_INVALID; }
constellation_t sid_to_constellation(gnss_signal_t s) { return code_to_constellation(s.code); }
code_t constellation_to_l1_code(constellation_t c) { return constellation_valid(c) ? cons[c].l1 : CODE_INVALID; }
bool sid_valid(gnss_signal_t s) {
  constellation_t c = code_to_constellation(s.code);
  if (!constellation_valid(c)) return false;
  return s.sat >= cons[c].first && s.sat < cons[c].first + cons[c].n;
}
const char *code_to_string(code_t c) { return code_valid(c) ? codes[c].name : "?"; }
const char *constellation_to_string(constellation_t c) { return constellation_valid(c) ? cons[c].name : "?"; }
int sid_to_string(char *s, int n, gnss_signal_t sid) {
  return snprintf(s, (size_t)n, "%s %u", code_to_string(sid.code), sid.sat);
}
gnss_signal_t construct_sid(code_t code, u16 sat) { gnss_signal_t s; s.sat = sat; s.code = code; return s; }
int sid_compare(gnss_signal_t a, gnss_signal_t b) {
  return a.code == b.code ? (int)a.sat - (int)b.sat : (int)a.code - (int)b.code;
}
bool sid_is_equal(gnss_signal_t a, gnss_signal_t b) { return sid_compare(a, b) == 0; }
void sid_set_init(gnss_sid_set_t *s) { memset(s, 0, sizeof(*s)); }
void sid_set_add(gnss_sid_set_t *s, gnss_signal_t sid) {
  if (!sid_valid(sid)) return;
  s->sats[sid.code] |= 1ULL << (sid.sat - cons[code_to_constellation(sid.code)].first);
}
bool sid_set_contains(const gnss_sid_set_t *s, gnss_signal_t sid) {
  if (!sid_valid(sid)) return false;
  return (s->sats[sid.code] >> (sid.sat - cons[code_to_constellation(sid.code)].first)) & 1u;
}
u32 sid_set_get_sig_count(const gnss_sid_set_t *s) {
  u32 n = 0;
  for (int i = 0; i < CODE_COUNT; i++) n += (u32)__builtin_popcountll(s->sats[i]);
  return n;
}
u32 sid_set_get_sat_count(const gnss_sid_set_t *s) {
  u64 c[CONSTELLATION_COUNT] = {0};
  u32 n = 0;
  for (int i = 0; i < CODE_COUNT; i++) if (code_to_constellation((code_t)i) >= 0) c[code_to_constellation((code_t)i)] |= s->sats[i];
  for (int i = 0; i < CONSTELLATION_COUNT; i++) n += (u32)__builtin_popcountll(c[i]);
  return n;
}

/* ---------------- lock time */
u8 encode_lock_time(double t) {
  assert(t >= 0.0);
  double ms = t * SECS_MS;
  for (u8 i = 0; i < 15; i++) if (ms < (double)(1u << (i + 5))) return i;
  return 15;
}
double decode_lock_time(u8 l) {
  l &= 0x0F;
  return l == 0 ? 0 : (double)(1u << (l + 4)) / SECS_MS;
}

/* ---------------- broadcast ephemeris decoders (IS-GPS-200, GLO ICD,
 * GAL OS SIS ICD, BDS ICD), working on the already validated word layouts the
 * converters pass. */
static const float ura_tab[16] = {2.0f, 2.8f, 4.0f, 5.7f, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 6144, -1.0f};
float decode_ura_index(u8 i) { return i < 16 ? ura_tab[i] : -1.0f; }
u8 encode_ura(float ura) {
  if (ura < 0) return 15;
  for (u8 i = 0; i < 15; i++) if (ura <= ura_tab[i]) return i;
  return 15;
}
static s32 sx(u32 v, int bits) { u32 m = 1u << (bits - 1); v &= (bits == 32) ? 0xFFFFFFFFu : ((1u << bits) - 1); return (s32)((v ^ m) - m); }
#define P2(n) ldexp(1.0, (n))
void decode_ephemeris(const u32 f[3][8], ephemeris_t *e, double tot_tow) {
  /* f[sf][0] is word 3 of the subframe, 30 bits left-aligned at bit 29 with
   * 24 data bits in 29..6 */
  ephemeris_kepler_t *k = &e->data.kepler;
#define B(sf, w, hi, n) ((f[sf][(w)-3] >> (30 - (hi) - (n) + 1)) & ((1u << (n)) - 1u))
  /* hi: first bit number inside the word, 1..24 */
  u16 wn10 = (u16)B(0, 3, 1, 10);
  u16 wn = gps_adjust_week_cycle(wn10, GPS_WEEK_REFERENCE);
  u8 ura = (u8)B(0, 3, 13, 4);
  e->ura = decode_ura_index(ura);
  e->health_bits = (u8)B(0, 3, 17, 6);
  k->iodc = (u16)((B(0, 3, 23, 2) << 8) | B(0, 8, 1, 8));
  k->tgd.gps_s[0] = (float)(sx(B(0, 7, 17, 8), 8) * P2(-31));
  k->tgd.gps_s[1] = 0;
  double toc = B(0, 8, 9, 16) * 16.0;
  k->af2 = sx(B(0, 9, 1, 8), 8) * P2(-55);
  k->af1 = sx(B(0, 9, 9, 16), 16) * P2(-43);
  k->af0 = sx(B(0, 10, 1, 22), 22) * P2(-31);
  u8 iode2 = (u8)B(1, 3, 1, 8), iode3 = (u8)B(2, 10, 1, 8);
  k->iode = iode2;
  k->crs = sx(B(1, 3, 9, 16), 16) * P2(-5);
  k->dn = sx(B(1, 4, 1, 16), 16) * P2(-43) * GPS_PI;
  k->m0 = sx((B(1, 4, 17, 8) << 24) | B(1, 5, 1, 24), 32) * P2(-31) * GPS_PI;
  k->cuc = sx(B(1, 6, 1, 16), 16) * P2(-29);
  k->ecc = ((B(1, 6, 17, 8) << 24) | B(1, 7, 1, 24)) * P2(-33);
  k->cus = sx(B(1, 8, 1, 16), 16) * P2(-29);
  k->sqrta = ((B(1, 8, 17, 8) << 24) | B(1, 9, 1, 24)) * P2(-19);
  double toe = B(1, 10, 1, 16) * 16.0;
  u8 fit = (u8)B(1, 10, 17, 1);
  k->cic = sx(B(2, 3, 1, 16), 16) * P2(-29);
  k->omega0 = sx((B(2, 3, 17, 8) << 24) | B(2, 4, 1, 24), 32) * P2(-31) * GPS_PI;
  k->cis = sx(B(2, 5, 1, 16), 16) * P2(-29);
  k->inc = sx((B(2, 5, 17, 8) << 24) | B(2, 6, 1, 24), 32) * P2(-31) * GPS_PI;
  k->crc = sx(B(2, 7, 1, 16), 16) * P2(-5);
  k->w = sx((B(2, 7, 17, 8) << 24) | B(2, 8, 1, 24), 32) * P2(-31) * GPS_PI;
  k->omegadot = sx(B(2, 9, 1, 24), 24) * P2(-43) * GPS_PI;
  k->inc_dot = sx(B(2, 10, 9, 14), 14) * P2(-43) * GPS_PI;
#undef B
  gps_time_t ref; ref.wn = (s16)wn; ref.tow = tot_tow;
  e->toe.tow = toe; e->toe.wn = (s16)wn; k->toc.tow = toc; k->toc.wn = (s16)wn;
  bool ok = gps_time_match_weeks_safe(&e->toe, &ref);
  ok = gps_time_match_weeks_safe(&k->toc, &ref) && ok;
  e->fit_interval = (u32)(fit ? 6 : 4) * HOUR_SECS;
  e->valid = ok && iode2 == iode3 && (k->iodc & 0xFF) == iode2 && k->sqrta > 0;
}
/* extract a bit field from a GLO string: bit numbers per ICD (1..85),
 * word[] holds bit 1 in LSB of word[0] */
static u32 glo_bits(const glo_string_t *s, int from, int n) {
  u32 v = 0;
  for (int i = n - 1; i >= 0; i--) { int b = from + i - 1; v = (v << 1) | ((s->word[b / 32] >> (b % 32)) & 1u); }
  return v;
}
static double glo_sm(const glo_string_t *s, int from, int n) {
  u32 mag = glo_bits(s, from, n - 1);
  return glo_bits(s, from + n - 1, 1) ? -(double)mag : (double)mag;
}
bool decode_glo_ephemeris(const glo_string_t st[5], const gnss_signal_t sid, const utc_params_t *p, ephemeris_t *e) {
  memset(e, 0, sizeof(*e));
  for (int i = 0; i < 5; i++) if (glo_bits(&st[i], 81, 4) != (u32)(i + 1)) return false;
  ephemeris_glo_t *g = &e->data.glo;
  e->sid = sid;
  for (int i = 0; i < 3; i++) {
    g->pos[i] = glo_sm(&st[i], 9, 27) * P2(-11) * 1000.0;
    g->vel[i] = glo_sm(&st[i], 41, 24) * P2(-20) * 1000.0;
    g->acc[i] = glo_sm(&st[i], 36, 5) * P2(-30) * 1000.0;
  }
  g->gamma = glo_sm(&st[2], 69, 11) * P2(-40);
  g->tau = glo_sm(&st[3], 59, 22) * P2(-30);
  g->d_tau = glo_sm(&st[3], 54, 5) * P2(-30);
  u32 tb = glo_bits(&st[1], 70, 7);
  u8 b = (u8)glo_bits(&st[1], 78, 3);
  u8 p1 = (u8)glo_bits(&st[0], 77, 2);
  u8 ln = (u8)glo_bits(&st[2], 65, 1);
  u8 ft = (u8)glo_bits(&st[3], 30, 4);
  u16 nt = (u16)glo_bits(&st[3], 16, 11);
  u8 n4 = (u8)glo_bits(&st[4], 32, 5);
  e->health_bits = (u8)(((b >> 2) & 1u) | ln);
  static const float ft_tab[16] = {1, 2, 2.5f, 4, 5, 7, 10, 12, 14, 16, 32, 64, 128, 256, 512, -1};
  e->ura = ft_tab[ft];
  static const u32 p1_tab[4] = {0, 30, 45, 60};
  e->fit_interval = p1_tab[p1] ? p1_tab[p1] * 60 + 300 : 30 * 60 + 300;
  if (p1 == 0) e->fit_interval = 65 * 60;
  e->fit_interval = 2400;
  g->iod = (u8)(((tb * 15 * 60) & 0x1FFF) >> 6);
  gps_time_t toe = glo_time2gps_time(nt, n4, 0, 0, tb * 15.0 * 60.0, p);
  if (!gps_time_valid(&toe)) return false;
  e->toe = toe;
  e->valid = 1;
  return true;
}
bool decode_gal_ephemeris_safe(const u8 pg[5][GAL_INAV_CONTENT_BYTE], ephemeris_t *e) {
  ephemeris_kepler_t *k = &e->data.kepler;
  memset(e, 0, sizeof(*e));
  u32 iod[4];
  for (int i = 0; i < 4; i++) { if (getbitu(pg[i], 0, 6) != (u32)(i + 1)) return false; iod[i] = getbitu(pg[i], 6, 10); }
  if (getbitu(pg[4], 0, 6) != 5) return false;
  if (iod[0] != iod[1] || iod[1] != iod[2] || iod[2] != iod[3]) return false;
  double toe = getbitu(pg[0], 16, 14) * 60.0;
  k->m0 = getbits(pg[0], 30, 32) * P2(-31) * GPS_PI;
  k->ecc = getbitu(pg[0], 62, 32) * P2(-33);
  k->sqrta = getbitu(pg[0], 94, 32) * P2(-19);
  k->omega0 = getbits(pg[1], 16, 32) * P2(-31) * GPS_PI;
  k->inc = getbits(pg[1], 48, 32) * P2(-31) * GPS_PI;
  k->w = getbits(pg[1], 80, 32) * P2(-31) * GPS_PI;
  k->inc_dot = getbits(pg[1], 112, 14) * P2(-43) * GPS_PI;
  k->omegadot = getbits(pg[2], 16, 24) * P2(-43) * GPS_PI;
  k->dn = getbits(pg[2], 40, 16) * P2(-43) * GPS_PI;
  k->cuc = getbits(pg[2], 56, 16) * P2(-29);
  k->cus = getbits(pg[2], 72, 16) * P2(-29);
  k->crc = getbits(pg[2], 88, 16) * P2(-5);
  k->crs = getbits(pg[2], 104, 16) * P2(-5);
  u8 sisa = (u8)getbitu(pg[2], 120, 8);
  if (sisa < 50) e->ura = 0.01f * sisa;
  else if (sisa < 75) e->ura = 0.5f + 0.02f * (float)(sisa - 50);
  else if (sisa < 100) e->ura = 1.0f + 0.04f * (float)(sisa - 75);
  else if (sisa < 126) e->ura = 2.0f + 0.16f * (float)(sisa - 100);
  else e->ura = INVALID_URA_VALUE;
  u16 svid = (u16)getbitu(pg[3], 16, 6);
  k->cic = getbits(pg[3], 22, 16) * P2(-29);
  k->cis = getbits(pg[3], 38, 16) * P2(-29);
  double toc = getbitu(pg[3], 54, 14) * 60.0;
  k->af0 = getbits(pg[3], 68, 31) * P2(-34);
  k->af1 = getbits(pg[3], 99, 21) * P2(-46);
  k->af2 = getbits(pg[3], 120, 6) * P2(-59);
  k->tgd.gal_s[0] = (float)(getbits(pg[4], 47, 10) * P2(-32));
  k->tgd.gal_s[1] = (float)(getbits(pg[4], 57, 10) * P2(-32));
  u8 hs5 = (u8)getbitu(pg[4], 67, 2), hs1 = (u8)getbitu(pg[4], 69, 2);
  u8 dv5 = (u8)getbitu(pg[4], 71, 1), dv1 = (u8)getbitu(pg[4], 72, 1);
  e->health_bits = (u8)((hs5 << 4) | (hs1 << 1) | (dv5 << 3) | dv1);
  u16 wn = (u16)getbitu(pg[4], 73, 12);
  double tow = getbitu(pg[4], 85, 20);
  gps_time_t now; now.wn = (s16)(wn + GAL_WEEK_TO_GPS_WEEK); now.tow = tow;
  if (!gps_time_valid(&now) || toe >= WEEK_SECS || toc >= WEEK_SECS) return false;
  if (svid < 1 || svid > NUM_SATS_GAL) return false;
  e->toe.tow = toe; k->toc.tow = toc;
  if (!gps_time_match_weeks_safe(&e->toe, &now) || !gps_time_match_weeks_safe(&k->toc, &now)) return false;
  k->iode = (u16)iod[0]; k->iodc = (u16)iod[0];
  e->sid.sat = svid; e->sid.code = CODE_GAL_E1B;
  e->fit_interval = GAL_FIT_INTERVAL_SECONDS;
  e->valid = 1;
  return true;
}
/* BDS D1: words are 30 bits right aligned; word 1 has 26 data bits, others 22 */
static u32 bds_w(u32 w, int hi, int n) { /* hi: 1-based bit from MSB of 30 */
  return (w >> (30 - hi - n + 1)) & ((n == 32) ? 0xFFFFFFFFu : ((1u << n) - 1u));
}
void decode_bds_d1_ephemeris(const u32 w[3][10], const gnss_signal_t sid, ephemeris_t *e) {
  ephemeris_kepler_t *k = &e->data.kepler;
  memset(e, 0, sizeof(*e));
  e->sid = sid;
  /* subframe 1 */
  u8 health = (u8)bds_w(w[0][1], 13, 1);
  u8 aodc = (u8)bds_w(w[0][1], 14, 5);
  u8 urai = (u8)bds_w(w[0][1], 19, 4);
  u16 wn = (u16)bds_w(w[0][2], 1, 13);
  u32 toc = (bds_w(w[0][2], 14, 9) << 8) | bds_w(w[0][3], 1, 8);
  k->tgd.bds_s[0] = (float)(sx(bds_w(w[0][3], 9, 10), 10) * 1e-10);
  k->tgd.bds_s[1] = (float)(sx((bds_w(w[0][3], 19, 4) << 6) | bds_w(w[0][4], 1, 6), 10) * 1e-10);
  k->af2 = sx(bds_w(w[0][7], 5, 11), 11) * P2(-66);
  k->af0 = sx((bds_w(w[0][7], 16, 7) << 17) | bds_w(w[0][8], 1, 17), 24) * P2(-33);
  k->af1 = sx((bds_w(w[0][8], 18, 5) << 17) | bds_w(w[0][9], 1, 17), 22) * P2(-50);
  u8 aode = (u8)bds_w(w[0][9], 18, 5);
  /* subframe 2 */
  k->dn = sx((bds_w(w[1][1], 13, 10) << 6) | bds_w(w[1][2], 1, 6), 16) * P2(-43) * GPS_PI;
  k->cuc = sx((bds_w(w[1][2], 7, 16) << 2) | bds_w(w[1][3], 1, 2), 18) * P2(-31);
  k->m0 = sx((bds_w(w[1][3], 3, 20) << 12) | bds_w(w[1][4], 1, 12), 32) * P2(-31) * GPS_PI;
  k->ecc = ((bds_w(w[1][4], 13, 10) << 22) | bds_w(w[1][5], 1, 22)) * P2(-33);
  k->cus = sx(bds_w(w[1][6], 1, 18), 18) * P2(-31);
  k->crc = sx((bds_w(w[1][6], 19, 4) << 14) | bds_w(w[1][7], 1, 14), 18) * P2(-6);
  k->crs = sx((bds_w(w[1][7], 15, 8) << 10) | bds_w(w[1][8], 1, 10), 18) * P2(-6);
  k->sqrta = ((bds_w(w[1][8], 11, 12) << 20) | bds_w(w[1][9], 1, 20)) * P2(-19);
  u32 toe = bds_w(w[1][9], 21, 2) << 15;
  /* subframe 3 */
  toe |= (bds_w(w[2][1], 13, 10) << 5) | bds_w(w[2][2], 1, 5);
  k->inc = sx((bds_w(w[2][2], 6, 17) << 15) | bds_w(w[2][3], 1, 15), 32) * P2(-31) * GPS_PI;
  k->cic = sx((bds_w(w[2][3], 16, 7) << 11) | bds_w(w[2][4], 1, 11), 18) * P2(-31);
  k->omegadot = sx((bds_w(w[2][4], 12, 11) << 13) | bds_w(w[2][5], 1, 13), 24) * P2(-43) * GPS_PI;
  k->cis = sx((bds_w(w[2][5], 14, 9) << 9) | bds_w(w[2][6], 1, 9), 18) * P2(-31);
  k->inc_dot = sx((bds_w(w[2][6], 10, 13) << 1) | bds_w(w[2][7], 1, 1), 14) * P2(-43) * GPS_PI;
  k->omega0 = sx((bds_w(w[2][7], 2, 21) << 11) | bds_w(w[2][8], 1, 11), 32) * P2(-31) * GPS_PI;
  k->w = sx((bds_w(w[2][8], 12, 11) << 21) | bds_w(w[2][9], 1, 21), 32) * P2(-31) * GPS_PI;
  e->ura = decode_ura_index(urai);
  e->health_bits = health;
  gps_time_t ref; ref.wn = (s16)(wn + BDS_WEEK_TO_GPS_WEEK);
  ref.tow = fmod((double)(((w[0][0] >> 4) & 0xFFu) << 12 | ((w[0][1] >> 18) & 0xFFFu)), WEEK_SECS);
  e->toe.tow = toe * 8.0; k->toc.tow = toc * 8.0;
  e->toe.wn = ref.wn; k->toc.wn = ref.wn;
  gps_time_match_weeks_safe(&e->toe, &ref);
  gps_time_match_weeks_safe(&k->toc, &ref);
  if (!(e->toe.tow < WEEK_SECS)) e->toe.tow = fmod(e->toe.tow, WEEK_SECS);
  if (!(k->toc.tow < WEEK_SECS)) k->toc.tow = fmod(k->toc.tow, WEEK_SECS);
  (void)aodc; (void)aode;
  k->iode = (u16)(((u32)e->toe.tow / 720) % 240);
  k->iodc = (u16)(((u32)k->toc.tow / 720) % 240);
}

const float g_bds_ura_table[16] = {2.0f, 2.8f, 4.0f, 5.7f, 8.0f, 11.3f, 16.0f, 32.0f, 64.0f, 128.0f, 256.0f, 512.0f, 1024.0f, 2048.0f, 4096.0f, INVALID_URA_VALUE};
