#ifndef LIBSWIFTNAV_GNSS_CAPABILITIES_H
#define LIBSWIFTNAV_GNSS_CAPABILITIES_H
#include <swiftnav/common.h>
/* BDS satellites transmitting D2 (GEO): 1-5 and 59-61 */
#define GNSS_CAPB_BDS_D2NAV (0x1FULL | (0x7ULL << 58))
#endif
