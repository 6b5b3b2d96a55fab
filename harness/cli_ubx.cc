#define VH_CLI
#include "ubx.cc"
