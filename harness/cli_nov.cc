#define VH_CLI
#include "nov.cc"
