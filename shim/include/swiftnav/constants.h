#ifndef LIBSWIFTNAV_CONSTANTS_H
#define LIBSWIFTNAV_CONSTANTS_H
#include <math.h>
#ifndef M_PI
#define M_PI 3.14159265358979323846
#endif
#define R2D (180.0 / M_PI)
#define D2R (M_PI / 180.0)
#define GPS_C 299792458.0
#define GPS_PI 3.1415926535898
#define GPS_OMEGAE_DOT 7.2921151467e-5
#define GPS_GM 3.986005e14
#define GPS_C_NO_VAC (GPS_C / 1.0002926)
#define GPS_CA_CHIPPING_RATE 1.023e6
#define MINUTE_SECS 60
#define HOUR_MINUTES 60
#define HOUR_SECS (MINUTE_SECS * HOUR_MINUTES)
#define DAY_HOURS 24
#define DAY_SECS (DAY_HOURS * HOUR_SECS)
#define WEEK_DAYS 7
#define WEEK_SECS (WEEK_DAYS * DAY_SECS)
#define WEEK_MS (WEEK_SECS * SECS_MS)
#define YEAR_DAYS 365
#define LEAP_YEAR_DAYS (YEAR_DAYS + 1)
#define YEAR_MONTHS 12
#define SECS_MS 1000
#define SECS_US 1000000
#define SECS_NS 1000000000
#define MS_NS 1000000
#define MINUTE_MS (MINUTE_SECS * SECS_MS)
#define HOUR_MS (HOUR_SECS * SECS_MS)
#define DAY_MS (DAY_SECS * SECS_MS)
#define WEEK_DAYS 7
#define M2KM 0.001
#define KM2M 1000.0
#define M2MM 1000.0
#define CM2M 0.01
#define FREQ_L1 1575.42e6
#define KB (1024)
#ifndef C_1_2P2
#define C_1_2P2 (1 / 4.0)
#endif
#ifndef C_1_2P4
#define C_1_2P4 (1 / 16.0)
#endif
#ifndef C_1_2P5
#define C_1_2P5 (1 / 32.0)
#endif
#ifndef C_1_2P6
#define C_1_2P6 (1 / 64.0)
#endif
#ifndef C_1_2P8
#define C_1_2P8 (1 / 256.0)
#endif
#ifndef C_1_2P9
#define C_1_2P9 (1 / 512.0)
#endif
#ifndef C_1_2P10
#define C_1_2P10 (1 / 1024.0)
#endif
#ifndef C_1_2P11
#define C_1_2P11 (1 / 2048.0)
#endif
#ifndef C_1_2P14
#define C_1_2P14 (1 / 16384.0)
#endif
#ifndef C_1_2P15
#define C_1_2P15 (1 / 32768.0)
#endif
#ifndef C_1_2P16
#define C_1_2P16 (1 / 65536.0)
#endif
#ifndef C_1_2P17
#define C_1_2P17 (1 / 131072.0)
#endif
#ifndef C_1_2P18
#define C_1_2P18 (1 / 262144.0)
#endif
#ifndef C_1_2P19
#define C_1_2P19 (1 / 524288.0)
#endif
#ifndef C_1_2P20
#define C_1_2P20 (1 / 1048576.0)
#endif
#ifndef C_1_2P21
#define C_1_2P21 (1 / 2097152.0)
#endif
#ifndef C_1_2P23
#define C_1_2P23 (1 / 8388608.0)
#endif
#ifndef C_1_2P24
#define C_1_2P24 (1 / 16777216.0)
#endif
#ifndef C_1_2P26
#define C_1_2P26 (1 / 67108864.0)
#endif
#ifndef C_1_2P27
#define C_1_2P27 (1 / 134217728.0)
#endif
#ifndef C_1_2P28
#define C_1_2P28 (1 / 268435456.0)
#endif
#ifndef C_1_2P29
#define C_1_2P29 (1 / 536870912.0)
#endif
#ifndef C_1_2P30
#define C_1_2P30 (1 / 1073741824.0)
#endif
#ifndef C_1_2P31
#define C_1_2P31 (1 / 2147483648.0)
#endif
#ifndef C_1_2P32
#define C_1_2P32 (1 / 4294967296.0)
#endif
#ifndef C_1_2P33
#define C_1_2P33 (1 / 8589934592.0)
#endif
#ifndef C_1_2P34
#define C_1_2P34 (1 / 17179869184.0)
#endif
#ifndef C_1_2P35
#define C_1_2P35 (1 / 34359738368.0)
#endif
#ifndef C_1_2P38
#define C_1_2P38 (1 / 274877906944.0)
#endif
#ifndef C_1_2P39
#define C_1_2P39 (1 / 549755813888.0)
#endif
#ifndef C_1_2P40
#define C_1_2P40 (1 / 1099511627776.0)
#endif
#ifndef C_1_2P43
#define C_1_2P43 (1 / 8796093022208.0)
#endif
#ifndef C_1_2P44
#define C_1_2P44 (1 / 17592186044416.0)
#endif
#ifndef C_1_2P46
#define C_1_2P46 (1 / 70368744177664.0)
#endif
#ifndef C_1_2P48
#define C_1_2P48 (1 / 281474976710656.0)
#endif
#ifndef C_1_2P49
#define C_1_2P49 (1 / 562949953421312.0)
#endif
#ifndef C_1_2P50
#define C_1_2P50 (1 / 1125899906842624.0)
#endif
#ifndef C_1_2P51
#define C_1_2P51 (1 / 2251799813685248.0)
#endif
#ifndef C_1_2P55
#define C_1_2P55 (1 / 36028797018963968.0)
#endif
#ifndef C_1_2P59
#define C_1_2P59 (1 / 576460752303423488.0)
#endif
#ifndef C_1_2P66
#define C_1_2P66 (1 / 73786976294838206464.0)
#endif
#endif
