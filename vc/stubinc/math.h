#ifndef STUB_MATH
#define STUB_MATH
double fabs(double x); double floor(double x); double sqrt(double x); double round(double x);
float fabsf(float x); float floorf(float x);
#endif
