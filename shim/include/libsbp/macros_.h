#ifndef SHIM_SBP_MACROS_H
#define SHIM_SBP_MACROS_H
#define SBP_ORIENT_EULER_INS_NAVIGATION_MODE_MASK (0x7u)
#define SBP_ORIENT_EULER_INS_NAVIGATION_MODE_GET(flags) ((u8)((flags) & 0x7u))
#define SBP_ORIENT_EULER_INS_NAVIGATION_MODE_INVALID (0)
#define SBP_ORIENT_EULER_INS_NAVIGATION_MODE_VALID (1)
#endif
