#ifndef LIBSWIFTNAV_TIME_H
#define LIBSWIFTNAV_TIME_H
#include <swiftnav/common.h>
#include <swiftnav/constants.h>
#include <time.h>
#ifdef __cplusplus
extern "C" {
#endif
#define GPS_EPOCH 315964800
#define GPS_WEEK_CYCLE 1024
#define WN_UNKNOWN -1
#define TOW_UNKNOWN -1
#define GPS_TIME_UNKNOWN ((gps_time_t){TOW_UNKNOWN, WN_UNKNOWN})
#define JIFFY 1e-8
#define UTC_SU_OFFSET 3
#define GLO_EPOCH_YEAR 1996
#define GLO_TK_LEN_BITS 12
#define BDS_WEEK_TO_GPS_WEEK 1356
#define BDS_SECOND_TO_GPS_SECOND 14
#define GAL_WEEK_TO_GPS_WEEK 1024
#define GPS_MINUS_UTC_SECS 18
#define GPS_WEEK_REFERENCE 1876
#define GLO_LEAP_NEG 0
typedef struct {
  double tow;
  s16 wn;
} gps_time_t;
typedef struct {
  gps_time_t tot;
  gps_time_t t_lse;
  double a0;
  double a1;
  double a2;
  s8 dt_ls;
  s8 dt_lsf;
} utc_params_t;
typedef struct {
  u16 year;
  u16 year_day;
  u8 month;
  u8 month_day;
  u8 week_day;
  u8 hour;
  u8 minute;
  u8 second_int;
  double second_frac;
} utc_tm;
bool gps_time_valid(const gps_time_t *t);
bool unsafe_normalize_gps_time(gps_time_t *t);
bool normalize_gps_time_safe(gps_time_t *t);
void normalize_gps_time(gps_time_t *t);
void add_secs(gps_time_t *t, double secs);
double gpsdifftime(const gps_time_t *end, const gps_time_t *beginning);
void gps_time_match_weeks(gps_time_t *t, const gps_time_t *ref);
bool gps_time_match_weeks_safe(gps_time_t *t, const gps_time_t *ref);
u16 gps_adjust_week_cycle(u16 wn_raw, u16 wn_ref);
u16 gps_adjust_week_cycle256(u16 wn_raw, u16 wn_ref);
gps_time_t time2gps_t(time_t t);
time_t gps2time(const gps_time_t *t);
double get_gps_utc_offset(const gps_time_t *t, const utc_params_t *p);
double get_utc_gps_offset(const gps_time_t *utc_time, const utc_params_t *p);
bool is_leap_second_event(const gps_time_t *t, const utc_params_t *p);
bool is_leap_year(s32 year);
u8 days_in_month(u16 year, u8 month);
gps_time_t date2gps(s32 year, s32 month, s32 day, s32 hour, s32 min, double sec);
void gps2utc(const gps_time_t *t, utc_tm *u, const utc_params_t *p);
void make_utc_tm(const gps_time_t *t, utc_tm *u);
gps_time_t glo_time2gps_time(u16 nt, u8 n4, s8 h, s8 m, double s, const utc_params_t *p);
double gps_time_to_sec_(const gps_time_t *t);
#ifdef __cplusplus
}
#endif
#endif
