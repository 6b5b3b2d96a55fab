#ifndef LIBSWIFTNAV_ARRAY_TOOLS_H
#define LIBSWIFTNAV_ARRAY_TOOLS_H
#include <swiftnav/common.h>
#ifdef __cplusplus
extern "C" {
#endif
bool is_value_in_array_u16(const u16 array[], size_t len, u16 value);
#ifdef __cplusplus
}
#endif
#endif
