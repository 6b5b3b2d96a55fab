#ifndef SHIM_SBP_RT_H
#define SHIM_SBP_RT_H
#include <libsbp/sbp.h>
#include <string.h>
typedef struct { u8 *buf; size_t len; size_t off; } cur_t;
static inline __attribute__((unused)) bool w_raw(cur_t *c, const void *p, size_t n) {
  if (c->off + n > c->len) return false;
  memcpy(c->buf + c->off, p, n); c->off += n; return true;
}
static inline __attribute__((unused)) bool r_raw(cur_t *c, void *p, size_t n) {
  if (c->off + n > c->len) return false;
  memcpy(p, c->buf + c->off, n); c->off += n; return true;
}
#define PRIM_(t) \
  static inline __attribute__((unused)) bool w_##t(cur_t *c, t v) { return w_raw(c, &v, sizeof v); } \
  static inline __attribute__((unused)) bool r_##t(cur_t *c, t *v) { return r_raw(c, v, sizeof *v); }
PRIM_(u8) PRIM_(s8) PRIM_(u16) PRIM_(s16) PRIM_(u32) PRIM_(s32) PRIM_(u64) PRIM_(s64) PRIM_(float) PRIM_(double)
#endif
