#ifndef LIBSWIFTNAV_FLOAT_EQUALITY_H
#define LIBSWIFTNAV_FLOAT_EQUALITY_H
#include <stdbool.h>
#ifdef __cplusplus
extern "C" {
#endif
bool float_equal(float a, float b);
bool double_equal(double a, double b);
bool double_within(double a, double b, double tol);
#ifdef __cplusplus
}
#endif
#endif
