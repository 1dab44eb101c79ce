// primitives without the library
#ifndef VERIF_PROBE_STD_H
#define VERIF_PROBE_STD_H
#ifndef PROBE_STDLIB_LATE
#include <stddef.h>
#include <stdint.h>
#include <array>
#include <vector>
#include <functional>
#include <string>
#include <cerrno>
#include <cmath>
#include <algorithm>
#include <numeric>
#include <limits>
#endif
// size of the sections that grow with the thresholds of the code
#ifndef VP_N
#define VP_N 6
#endif
#ifndef PROBE_PRINT
#define THEORETICA_NO_PRINT
#endif
#ifndef PROBE_X86
#define THEORETICA_DISABLE_X86
#endif
#if defined(THEORETICA_FLOAT_PREC)
typedef float vp_real;
#elif defined(THEORETICA_LONG_DOUBLE_PREC)
typedef long double vp_real;
#else
typedef double vp_real;
#endif
extern "C" {
vp_real IN(int) __attribute__((const));                 // arbitrary real input
unsigned long INU(int) __attribute__((const));         // arbitrary 64-bit input
vp_real UF1(vp_real) __attribute__((const));             // arbitrary real functions
vp_real UF2(vp_real) __attribute__((const));
vp_real UF3(vp_real) __attribute__((const));
vp_real UFA(vp_real, vp_real) __attribute__((const));
vp_real UFB(vp_real, vp_real) __attribute__((const));
vp_real UFC(vp_real, vp_real, vp_real) __attribute__((const));
vp_real UFD(vp_real, vp_real, vp_real) __attribute__((const));
vp_real UFE(vp_real, vp_real, vp_real) __attribute__((const));
unsigned long UI1(unsigned long) __attribute__((const));
void EQ(const char*, vp_real, vp_real) __attribute__((nomerge));
void EQI(const char*, unsigned long, unsigned long) __attribute__((nomerge));
void ISNAN(const char*, vp_real) __attribute__((nomerge));
void FIN(const char*, vp_real) __attribute__((nomerge));
void NEAR(const char*, vp_real, vp_real, vp_real) __attribute__((nomerge));   // |value - reference| <= tolerance over the box
vp_real REF_exp(vp_real) __attribute__((const));
vp_real REF_expm1(vp_real) __attribute__((const));
vp_real REF_sin(vp_real) __attribute__((const));
vp_real REF_cos(vp_real) __attribute__((const));
vp_real REF_ln(vp_real) __attribute__((const));
vp_real REF_log2(vp_real) __attribute__((const));
vp_real REF_log10(vp_real) __attribute__((const));
vp_real REF_sqrt(vp_real) __attribute__((const));
vp_real REF_cbrt(vp_real) __attribute__((const));
vp_real REF_atan(vp_real) __attribute__((const));
vp_real REF_asin(vp_real) __attribute__((const));
vp_real REF_acos(vp_real) __attribute__((const));
vp_real REF_sinh(vp_real) __attribute__((const));
vp_real REF_tanh(vp_real) __attribute__((const));
vp_real REF_lngamma(vp_real) __attribute__((const));
void UNREACH(const char*) __attribute__((nomerge));
}
#endif
