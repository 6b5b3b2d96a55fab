#ifndef LIBSWIFTNAV_BITS_H
#define LIBSWIFTNAV_BITS_H
#include <swiftnav/common.h>
#ifdef __cplusplus
extern "C" {
#endif
u8 parity(u32 x);
u32 getbitu(const u8 *buff, u32 pos, u8 len);
u64 getbitul(const u8 *buff, u32 pos, u8 len);
s32 getbits(const u8 *buff, u32 pos, u8 len);
s64 getbitsl(const u8 *buff, u32 pos, u8 len);
void setbitu(u8 *buff, u32 pos, u32 len, u32 data);
void setbitul(u8 *buff, u32 pos, u32 len, u64 data);
void setbits(u8 *buff, u32 pos, u32 len, s32 data);
void setbitsl(u8 *buff, u32 pos, u32 len, s64 data);
void bitshl(void *buf, u32 size, u32 shift);
void bitcopy(void *dst, u32 dst_index, const void *src, u32 src_index, u32 count);
u8 count_bits_u64(u64 v, u8 bv);
u8 count_bits_u32(u32 v, u8 bv);
u8 count_bits_u16(u16 v, u8 bv);
u8 count_bits_u8(u8 v, u8 bv);
#ifdef __cplusplus
}
#endif
#endif
