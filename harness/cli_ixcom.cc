#define VH_CLI
#include "ixcom.cc"
