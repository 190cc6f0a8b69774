#include "cest/cmath.hpp"
extern "C" {
int h_floor(double v) { return cest::floor(v); }
int h_ceil(double v) { return cest::ceil(v); }
double h_abs(double v) { return cest::abs(v); }
double h_fabs(double v) { return cest::fabs(v); }
double h_pow(double b, int n) { return cest::pow(b, n); }
double h_atan2(double y, double x) { return cest::atan2(y, x); }
double h_cos(double x) { return cest::cos(x); }
double h_cosh(double x) { return cest::cosh(x); }
double h_log(double x) { return cest::log(x); }
void h_sinh(double x, double *r) { r[0] = cest::sinh(x); r[1] = cest::sinh(-x); }
void h_atan(double x, double *r) { r[0] = cest::atan(x); r[1] = cest::atan(-x); }
}
