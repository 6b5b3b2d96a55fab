/* Stand-in for libswiftnav (empty submodule in this sandbox). */
#ifndef LIBSWIFTNAV_COMMON_H
#define LIBSWIFTNAV_COMMON_H
#include <assert.h>
#include <inttypes.h>
#include <stdbool.h>
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include <swiftnav/macros.h>
#ifndef COMMON_INT_TYPES
#define COMMON_INT_TYPES
typedef int8_t s8;
typedef int16_t s16;
typedef int32_t s32;
typedef int64_t s64;
typedef uint8_t u8;
typedef uint16_t u16;
typedef uint32_t u32;
typedef uint64_t u64;
#endif
#ifndef FLOAT_EQUALITY_EPS
#define FLOAT_EQUALITY_EPS 1e-12
#endif
#include <swiftnav/logging.h>
#define ABS(x) ((x) < 0 ? -(x) : (x))
#define MIN(x, y) (((x) < (y)) ? (x) : (y))
#define MAX(x, y) (((x) > (y)) ? (x) : (y))
#define CLAMP_DIFF(a, b) (MAX((a), (b)) - (b))
#define SIGN(x) ((x) > 0 ? 1 : ((x) < 0 ? -1 : 0))
#endif
