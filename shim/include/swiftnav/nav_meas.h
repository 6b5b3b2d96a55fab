#ifndef LIBSWIFTNAV_NAV_MEAS_H
#define LIBSWIFTNAV_NAV_MEAS_H
#include <swiftnav/gnss_time.h>
#include <swiftnav/signal.h>
#ifdef __cplusplus
extern "C" {
#endif
typedef u16 nav_meas_flags_t;
#define NAV_MEAS_FLAG_CODE_VALID ((nav_meas_flags_t)(1 << 0))
#define NAV_MEAS_FLAG_PHASE_VALID ((nav_meas_flags_t)(1 << 1))
#define NAV_MEAS_FLAG_MEAS_DOPPLER_VALID ((nav_meas_flags_t)(1 << 2))
#define NAV_MEAS_FLAG_HALF_CYCLE_KNOWN ((nav_meas_flags_t)(1 << 3))
#define NAV_MEAS_FLAG_CN0_VALID ((nav_meas_flags_t)(1 << 4))
#define NAV_MEAS_FLAG_RAIM_EXCLUSION ((nav_meas_flags_t)(1 << 6))
u8 encode_lock_time(double nm_lock_time);
double decode_lock_time(u8 sbp_lock_time);
#ifdef __cplusplus
}
#endif
#endif
