#ifndef LIBSWIFTNAV_BYTESTREAM_H
#define LIBSWIFTNAV_BYTESTREAM_H
#include <swiftnav/common.h>
#ifdef __cplusplus
extern "C" {
#endif
typedef struct {
  const uint8_t *data;
  uint32_t len;
  uint32_t offset;
} swiftnav_bytestream_t;
void swiftnav_bytestream_init(swiftnav_bytestream_t *bs, const uint8_t *data, uint32_t len);
uint32_t swiftnav_bytestream_remaining(const swiftnav_bytestream_t *bs);
bool swiftnav_bytestream_get_bytes(const swiftnav_bytestream_t *bs, uint32_t pos, uint32_t len, uint8_t *out);
bool swiftnav_bytestream_get_u8(const swiftnav_bytestream_t *bs, uint32_t pos, uint8_t *out);
bool swiftnav_bytestream_remove(swiftnav_bytestream_t *bs, uint32_t len);
#ifdef __cplusplus
}
#endif
#endif
