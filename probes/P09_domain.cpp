#define PROBE_X86
#include "probe.h"
// every section: in the domain no error is reported and the value is the function, outside errno is set and the result is NaN (or the documented infinity)
#define BAD(L, C, E, R) { if(C) { errno = 0; const real r_ = (E); ISNAN(L " nan", r_); EQI(L " errno", errno, R); } }
#define BADI(L, C, E, V, R) { if(C) { errno = 0; const real r_ = (E); EQI(L " infinite", r_ == (V), 1); EQI(L " errno", errno, R); } }
#define GOOD(L, C, E) { if(C) { errno = 0; const real r_ = (E); EQI(L " not reported", errno, 0); EQI(L " not NaN", r_ == r_, 1); } }
// --- sqrt | src/core/real_analysis.h | square root of negative numbers | noopaque=all
{ const real x = IN(0); BAD("sqrt", x < 0, th::sqrt(x), EDOM) GOOD("sqrt", x >= 0, th::sqrt(x)) }
// --- logs | src/core/real_analysis.h | logarithms of zero and of negative numbers | noopaque=all
{ const real x = IN(0);
BAD("ln", x < 0, th::ln(x), EDOM) BADI("ln 0", x == 0, th::ln(x), -inf(), ERANGE) GOOD("ln", x > 0, th::ln(x))
BAD("log2", x < 0, th::log2(x), EDOM) BADI("log2 0", x == 0, th::log2(x), -inf(), ERANGE) GOOD("log2", x > 0, th::log2(x))
BAD("log10", x < 0, th::log10(x), EDOM) BADI("log10 0", x == 0, th::log10(x), -inf(), ERANGE) GOOD("log10", x > 0, th::log10(x)) }
// --- logs_portable | src/core/real_analysis.h | logarithms of zero and of negative numbers, portable implementation | noopaque=ln,log10 def=THEORETICA_DISABLE_X86
{ const real x = IN(0); BAD("ln", x < 0, th::ln(x), EDOM) BADI("ln 0", x == 0, th::ln(x), -inf(), ERANGE) BAD("log10", x < 0, th::log10(x), EDOM) BADI("log10 0", x == 0, th::log10(x), -inf(), ERANGE) }
// --- inverse_trig | src/core/real_analysis.h | arc sine and arc cosine outside of [-1, 1] | noopaque=asin,acos
{ const real x = IN(0); BAD("asin above", x > 1, th::asin(x), EDOM) BAD("asin below", x < -1, th::asin(x), EDOM) GOOD("asin", x > -1 && x < 1, th::asin(x)) BAD("acos above", x > 1, th::acos(x), EDOM) BAD("acos below", x < -1, th::acos(x), EDOM) GOOD("acos", x > -1 && x < 1 && x != 0, th::acos(x)) }
// --- trig_poles | src/core/real_analysis.h | poles of the tangent and of the cotangent | noopaque=all
{ const real x = IN(0); const real s = th::sin(x), c = th::cos(x); BAD("tan", c == 0, th::tan(x), ERANGE) GOOD("tan", c > 1E-10 || c < -1E-10, th::tan(x)) BAD("cot", s == 0, th::cot(x), ERANGE) GOOD("cot", s > 1E-10 || s < -1E-10, th::cot(x)) }
// --- hyperbolic | src/core/real_analysis.h | domains of the inverse hyperbolic functions
{ const real x = IN(0); BAD("acosh", x < 1, th::acosh(x), EDOM) GOOD("acosh", x >= 1, th::acosh(x)) BAD("atanh above", x > 1, th::atanh(x), EDOM) BAD("atanh below", x < -1, th::atanh(x), EDOM) GOOD("atanh", x > -1 && x < 1, th::atanh(x)) GOOD("asinh", 1, th::asinh(x)) BAD("coth", x == 0, th::coth(x), ERANGE) GOOD("sinh", 1, th::sinh(x)) GOOD("cosh", 1, th::cosh(x)) GOOD("tanh", 1, th::tanh(x)) GOOD("sigmoid", 1, th::sigmoid(x)) GOOD("sinc", 1, th::sinc(x)) GOOD("heaviside", 1, th::heaviside(x)) }
// --- root | src/core/real_analysis.h | roots of even order of negative numbers and of order zero
{ const real x = IN(0); BAD("root 0", 1, th::root(x, 0), EDOM) BAD("root 2", x < 0, th::root(x, 2), EDOM) BAD("root 4", x < 0, th::root(x, 4), EDOM) BAD("root -2", x < 0, th::root(x, -2), EDOM) BAD("root 10", x < 0, th::root(x, 10), EDOM) GOOD("root 1", 1, th::root(x, 1)) GOOD("root 2", x >= 0, th::root(x, 2)) GOOD("root 3", 1, th::root(x, 3)) }
// --- atan2 | src/core/real_analysis.h | angle of the null vector | noopaque=atan2
{ const real x = IN(0), y = IN(1); BAD("atan2", x == 0 && y == 0, th::atan2(y, x), EDOM) GOOD("atan2", x != 0 || y != 0, th::atan2(y, x)) }
// --- powf | src/core/real_analysis.h | powers of zero | noopaque=powf
{ const real a = IN(0), x = IN(1); BADI("powf", a < 0, th::powf(0, a), inf(), ERANGE) GOOD("powf 0", a >= 0, th::powf(0, a)) GOOD("powf", x > 0, th::powf(x, a)) }
// --- integers | src/core/real_analysis.h | combinatorial functions and integer logarithms outside of their domain
{ errno = 0; EQI("binomial value", th::binomial_coeff(3, 5), 0); EQI("binomial errno", errno, EDOM); errno = 0; th::binomial_coeff(5, 5); EQI("binomial equal", errno, 0); errno = 0; EQI("ilog2 value", th::ilog2<uint64_t>(0), 0); EQI("ilog2 errno", errno, ERANGE); errno = 0; th::ilog2<uint64_t>(1); EQI("ilog2 one", errno, 0); errno = 0; th::pad2<uint64_t>((uint64_t(1) << 63) + 1); EQI("pad2 errno", errno, ERANGE); errno = 0; th::pad2<uint64_t>(uint64_t(1) << 63); EQI("pad2 largest", errno, 0);
errno = 0; ISNAN("gamma value", special::gamma(0u)); EQI("gamma errno", errno, EDOM); errno = 0; ISNAN("half gamma value", special::half_gamma(0)); EQI("half gamma errno", errno, EDOM); errno = 0; special::gamma(5u); special::half_gamma(5); EQI("gamma not reported", errno, 0); errno = 0; EQI("gamma pole", special::gamma(real(-3)) == inf(), 1); EQI("gamma pole errno", errno, EDOM); errno = 0; EQI("gamma zero", special::gamma(real(0)) == inf(), 1); EQI("gamma zero errno", errno, EDOM); errno = 0; ISNAN("lngamma", special::lngamma(-0.5)); EQI("lngamma errno", errno, EDOM); errno = 0; ISNAN("lngamma 2", special::lngamma(-2.5)); EQI("lngamma 2 errno", errno, EDOM); }
// --- portable | src/core/real_analysis.h | domain errors of the portable square root | noopaque=sqrt def=THEORETICA_DISABLE_X86
{ const real x = IN(0); BAD("sqrt", x < 0, th::sqrt(x), EDOM) }
