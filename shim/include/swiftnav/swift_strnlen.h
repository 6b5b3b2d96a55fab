#ifndef LIBSWIFTNAV_STRNLEN_H
#define LIBSWIFTNAV_STRNLEN_H
#include <stddef.h>
static inline size_t swift_strnlen(const char *s, size_t maxlen) {
  size_t n = 0;
  while (n < maxlen && s[n]) n++;
  return n;
}
#endif
