#ifndef LIBSWIFTNAV_MEMCPY_S_H
#define LIBSWIFTNAV_MEMCPY_S_H
#include <assert.h>
#include <string.h>
#ifdef __cplusplus
extern "C" {
#endif
int memcpy_s(void *dest, size_t dest_size, const void *src, size_t n);
#ifdef __cplusplus
}
#endif
#define MEMCPY_S(dest, dest_size, src, n) \
  do { int memcpy_s_ret_ = memcpy_s((dest), (dest_size), (src), (n)); assert(memcpy_s_ret_ == 0); (void)memcpy_s_ret_; } while (0)
#endif
