#define VH_S2R_CLI
#include "s2r.cc"
