#ifndef LIBSWIFTNAV_EPHEMERIS_H
#define LIBSWIFTNAV_EPHEMERIS_H
#include <swiftnav/gnss_time.h>
#include <swiftnav/signal.h>
#ifdef __cplusplus
extern "C" {
#endif
extern const float g_bds_ura_table[16];
#define EPH_SOURCE_GAL_INAV 0
#define EPH_SOURCE_GAL_FNAV 1
#define INVALID_GPS_URA_INDEX 15
#define INVALID_URA_VALUE -1
#define BDS_FIT_INTERVAL_SECONDS (3 * HOUR_SECS)
#define GAL_FIT_INTERVAL_SECONDS (4 * HOUR_SECS)
#define GLO_NAV_STR_BITS 85
#define GLO_NAV_STR_WORDS 3
#define GAL_INAV_CONTENT_BYTE ((128 + 8 - 1) / 8)
#define GPS_LNAV_MSG_URA_MAX 15
typedef struct {
  union {
    float gps_s[2];
    float qzss_s[1];
    float bds_s[2];
    float gal_s[2];
  } tgd;
  double crc, crs, cuc, cus, cic, cis;
  double dn, m0, ecc, sqrta, omega0, omegadot, w, inc, inc_dot;
  double af0, af1, af2;
  gps_time_t toc;
  u16 iodc;
  u16 iode;
} ephemeris_kepler_t;
typedef struct {
  double pos[3], vel[3], acc[3];
  double a_gf0, a_gf1;
} ephemeris_xyz_t;
typedef struct {
  double gamma, tau, d_tau;
  double pos[3], vel[3], acc[3];
  u16 fcn;
  u8 iod;
} ephemeris_glo_t;
typedef struct {
  gnss_signal_t sid;
  gps_time_t toe;
  float ura;
  u32 fit_interval;
  u8 valid;
  u8 health_bits;
  union {
    ephemeris_kepler_t kepler;
    ephemeris_xyz_t xyz;
    ephemeris_glo_t glo;
  } data;
} ephemeris_t;
typedef struct {
  u32 word[GLO_NAV_STR_WORDS];
} glo_string_t;
void decode_ephemeris(const u32 frame_words[3][8], ephemeris_t *e, double tot_tow);
bool decode_glo_ephemeris(const glo_string_t strings[5], const gnss_signal_t sid, const utc_params_t *utc_params, ephemeris_t *e);
bool decode_gal_ephemeris_safe(const u8 page[5][GAL_INAV_CONTENT_BYTE], ephemeris_t *eph);
void decode_bds_d1_ephemeris(const u32 words[3][10], const gnss_signal_t sid, ephemeris_t *e);
float decode_ura_index(u8 index);
u8 encode_ura(float ura);
#ifdef __cplusplus
}
#endif
#endif
