#ifndef LIBSWIFTNAV_BITSTREAM_H
#define LIBSWIFTNAV_BITSTREAM_H
#include <swiftnav/common.h>
#ifdef __cplusplus
extern "C" {
#endif
/* len and offset are in bits */
typedef struct {
  const uint8_t *data;
  uint32_t len;
  uint32_t offset;
} swiftnav_bitstream_t;
void swiftnav_bitstream_init(swiftnav_bitstream_t *bs, const uint8_t *data, uint32_t len_bits);
bool swiftnav_bitstream_getbitu(const swiftnav_bitstream_t *bs, uint32_t *out, uint32_t pos, uint8_t len);
bool swiftnav_bitstream_getbitul(const swiftnav_bitstream_t *bs, uint64_t *out, uint32_t pos, uint8_t len);
bool swiftnav_bitstream_getbits(const swiftnav_bitstream_t *bs, int32_t *out, uint32_t pos, uint8_t len);
bool swiftnav_bitstream_getbitsl(const swiftnav_bitstream_t *bs, int64_t *out, uint32_t pos, uint8_t len);
bool swiftnav_bitstream_remove(swiftnav_bitstream_t *bs, uint32_t len);
uint32_t swiftnav_bitstream_remaining(const swiftnav_bitstream_t *bs);
#ifdef __cplusplus
}
#endif
#endif
