#ifndef LIBSWIFTNAV_MACROS_H
#define LIBSWIFTNAV_MACROS_H
#ifndef ARRAY_SIZE
#define ARRAY_SIZE(x) (sizeof(x) / sizeof((x)[0]))
#endif
#define SWIFT_ATTR_PACKED __attribute__((packed))
#define SWIFT_ATTR_FORMAT(fmt, args) __attribute__((format(printf, fmt, args)))
#define SWIFT_ATTR_WEAK __attribute__((weak))
#define SWIFT_ATTR_FALLTHROUGH __attribute__((fallthrough))
#ifdef __cplusplus
#define SWIFT_BEGIN_EXTERN_C extern "C" {
#define SWIFT_END_EXTERN_C }
#else
#define SWIFT_BEGIN_EXTERN_C
#define SWIFT_END_EXTERN_C
#endif
#define SWIFT_BZERO(x) memset(&(x), 0, sizeof(x))
#endif
