#define VH_CLI
#include "r2s.cc"
