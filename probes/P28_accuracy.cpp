// P28: accuracy of the elementary and special functions over intervals of their domain (real-number semantics)
#include "probe.h"
using namespace theoretica;
// --- exp | src/core/real_analysis.h exp | relative error of the exponential | noopaque=exp box=0:0:1-;0:1:2-;0:2:3-;0:3:4-;0:7:8-;0:10:11-;0:31:32-;0:100:101-;0:709:709.5 range=-0:709
const real x = IN(0);
NEAR("exp", th::exp(x) * REF_exp(-x), 1, 1e-12);
// --- exp_negative | src/core/real_analysis.h exp | relative error of the exponential of negative numbers | noopaque=exp box=0:-1+:0;0:-2+:-1;0:-3+:-2;0:-17+:-16;0:-200+:-199 range=-700:0
const real x = IN(0);
NEAR("exp", th::exp(x) * REF_exp(-x), 1, 1e-12);
// --- expm1_small | src/core/real_analysis.h expm1 | absolute error of exp(x) - 1 for small x | noopaque=exp box=0:-0.001:0.001
const real x = IN(0);
NEAR("expm1", th::expm1(x), REF_expm1(x), 1e-16);
// --- expm1 | src/core/real_analysis.h expm1 | absolute error of exp(x) - 1 | noopaque=exp box=0:-1+:0;0:0:1-;0:2:3-;0:-6+:-5 range=-20:3
const real x = IN(0);
NEAR("expm1", th::expm1(x), REF_expm1(x), 1e-10);
// --- atan | src/core/real_analysis.h atan | absolute error of the arctangent | noopaque=atan box=0:-1:1;0:1+:2;0:2:10;0:10:1e6;0:-2:-1-;0:-100:-2 range=-1e6:1e6
const real x = IN(0);
NEAR("atan", th::atan(x), REF_atan(x), 2e-8);
// --- sin | src/core/real_analysis.h sin | absolute error of the sine | noopaque=sin,cos,tan box=0:-6.28:6.28;0:6.2:7;0:6:30;0:-30:-6;0:99:120 range=-120:120
const real x = IN(0);
NEAR("sin", th::sin(x), REF_sin(x), 1e-12);
// --- cos | src/core/real_analysis.h cos | absolute error of the cosine | noopaque=sin,cos,tan box=0:-6.28:6.28;0:6.2:7;0:6:30;0:-30:-6;0:99:120 range=-120:120
const real x = IN(0);
NEAR("cos", th::cos(x), REF_cos(x), 1e-12);
// --- tan | src/core/real_analysis.h tan | relative error of the tangent | noopaque=sin,cos,tan box=0:0:0.7;0:0.8:1.5;0:1.6:2.3;0:2.4:3.1;0:3.2:3.9;0:-0.7:-0.01;0:-1.5:-0.8;0:7.1:7.8
const real x = IN(0);
NEAR("tan", th::tan(x) * REF_cos(x), REF_sin(x), 1e-11);
// --- log2 | src/core/real_analysis.h log2 | absolute error of the binary logarithm | noopaque=log2,ln,log10 box=0:1:1.99;0:2+:3.99;0:4+:7.9;0:1100:2000;0:0.51:0.99;0:0.001:0.00195 range=0.001:2000
const real x = IN(0);
NEAR("log2", th::log2(x), REF_log2(x), 1e-7);
// --- logarithms | src/core/real_analysis.h ln, log10 | absolute error of the natural and decimal logarithms | noopaque=log2,ln,log10 box=0:1:1.99;0:2.01:3.99;0:300:500;0:0.51:0.99;0:0.02:0.03 range=0.001:2000
const real x = IN(0);
NEAR("ln", th::ln(x), REF_ln(x), 1e-8); NEAR("log10", th::log10(x), REF_log10(x), 1e-8);
// --- sqrt | src/core/real_analysis.h sqrt | relative error of the square root | noopaque=sqrt def=THEORETICA_OPTIMIZATION_NEWTON_ITER=14 box=0:1.001:2;0:2:4;0:4:16;0:100:200;0:10000:20000;0:0.5:0.99;0:0.01:0.02;0:0.0001:0.0002 range=0.0001:20000
const real x = IN(0);
NEAR("sqrt", th::sqrt(x), REF_sqrt(x), 1e-8 * REF_sqrt(x));
// --- cbrt | src/core/real_analysis.h cbrt | relative error of the cubic root | noopaque=cbrt def=THEORETICA_OPTIMIZATION_NEWTON_ITER=20 box=0:1.01:2;0:2:8;0:8:30;0:1000:2000;0:0.5:0.99;0:0.01:0.02;0:-2:-1.01;0:-30:-20;0:-0.9:-0.5 range=0.01:2000
const real x = IN(0);
NEAR("cbrt", th::cbrt(x), REF_cbrt(x), 1e-8 * REF_cbrt(x) * REF_cbrt(x));
// --- root4 | src/core/real_analysis.h root | relative error of the fourth root | noopaque=sqrt,cbrt def=THEORETICA_OPTIMIZATION_NEWTON_ITER=20 box=0:1.01:2;0:2:8;0:8:16;0:0.5:0.99
const real x = IN(0);
NEAR("root 4", th::root(x, 4), REF_sqrt(REF_sqrt(x)), 1e-7); NEAR("root -4", th::root(x, -4) * REF_sqrt(REF_sqrt(x)), 1, 1e-7);
// --- root5 | src/core/real_analysis.h root | error of the fifth root | noopaque=sqrt,cbrt def=THEORETICA_OPTIMIZATION_NEWTON_ITER=24 box=0:1.01:2;0:2:8;0:8:16;0:0.5:0.99
const real x = IN(0);
NEAR("root 5", th::root(x, 5), REF_exp(REF_ln(x) / 5), 1e-7); NEAR("root 5 odd", th::root(-x, 5), -REF_exp(REF_ln(x) / 5), 1e-7);
// --- hyperbolic | src/core/real_analysis.h sinh, cosh, tanh, coth | hyperbolic functions | noopaque=exp box=0:0.01:1-;0:1:2-;0:3:4-;0:-1+:-0.01;0:-2+:-1;0:-4+:-3 range=-4:4
const real x = IN(0), s = REF_sinh(x), e = REF_exp(x);
NEAR("sinh", th::sinh(x), s, 1e-11); NEAR("cosh", th::cosh(x), (e + 1 / e) / 2, 1e-11); NEAR("tanh", th::tanh(x), REF_tanh(x), 1e-11); NEAR("coth", th::coth(x) * REF_tanh(x), 1, 1e-10); NEAR("sigmoid", th::sigmoid(x), 1 / (1 + 1 / e), 1e-11);
// --- hyperbolic_wide | src/core/real_analysis.h sinh, cosh, tanh, coth | hyperbolic functions of large arguments | noopaque=exp box=0:5:6-;0:9:10-;0:15:16-;0:-6+:-5;0:-10+:-9;0:-16+:-15 range=-20:20
const real x = IN(0), e = REF_exp(x);
NEAR("tanh", th::tanh(x), REF_tanh(x), 1e-11); NEAR("coth", th::coth(x) * REF_tanh(x), 1, 1e-10); NEAR("sinh", th::sinh(x) / REF_sinh(x), 1, 1e-11); NEAR("cosh", 2 * th::cosh(x) / (e + 1 / e), 1, 1e-11); NEAR("sigmoid", th::sigmoid(x), 1 / (1 + 1 / e), 1e-11);
// --- hyperbolic_inverse | src/core/real_analysis.h asinh, atanh | inverse hyperbolic functions | box=0:-0.9:-0.5;0:-0.5:0.5;0:0.5:0.95 range=-0.95:0.95
const real x = IN(0);
NEAR("sinh of asinh", REF_sinh(th::asinh(x)), x, 1e-11); NEAR("tanh of atanh", REF_tanh(th::atanh(x)), x, 1e-11); NEAR("atanh odd", th::atanh(-x), -th::atanh(x), 1e-12);
// --- acosh | src/core/real_analysis.h acosh | inverse hyperbolic cosine | box=0:1.01:2;0:2:10;0:10:1000 range=1.01:1000
const real x = IN(0), e = REF_exp(th::acosh(x));
NEAR("cosh of acosh", (e + 1 / e) / 2, x, 1e-9); NEAR("branch", th::acosh(x), REF_ln(x) + 0.35, 0.36);
// --- arc | src/core/real_analysis.h asin, acos | inverse trigonometric functions | noopaque=asin,acos,atan box=0:-0.99:-0.9;0:-0.9:-0.7072;0:-0.707:-0.01;0:0.01:0.707;0:0.7072:0.9;0:0.9:0.99
const real x = IN(0);
NEAR("asin", th::asin(x), REF_asin(x), 2e-8); NEAR("acos", th::acos(x), REF_acos(x), 2e-8);
// --- atan2 | src/core/real_analysis.h atan2 | direction of points of the unit circle | noopaque=atan,atan2 box=0:-3.1:-2.4;0:-2.3:-1.6;0:-1.5:-0.8;0:-0.7:0.7;0:0.8:1.5;0:1.6:2.3;0:2.4:3.1
const real t = IN(0);
NEAR("angle", th::atan2(REF_sin(t), REF_cos(t)), t, 2e-8); NEAR("any radius", th::atan2(17 * REF_sin(t), 17 * REF_cos(t)), t, 2e-8);
// --- lngamma | src/core/special.h lngamma | logarithm of the Gamma function | box=0:0.01:0.1;0:0.1:1;0:1:3;0:3:10;0:10:100;0:100:1000 range=0.01:1000
const real x = IN(0);
NEAR("lngamma", special::lngamma(x), REF_lngamma(x), 1e-9);
// --- gamma | src/core/special.h gamma | relative error of the Gamma function | box=0:0.1:0.9;0:1.1:1.9;0:2.05:2.95;0:7.1:7.9;0:20.1:20.9
const real x = IN(0);
NEAR("gamma", special::gamma(x) * REF_exp(-REF_lngamma(x)), 1, 1e-8);
// --- gamma_negative | src/core/special.h gamma | Gamma function of negative numbers by reflection | box=0:-0.95:-0.05;0:-1.95:-1.05;0:-2.95:-2.05;0:-3.95:-3.05;0:-6.9:-6.1
const real x = IN(0);
NEAR("gamma", special::gamma(x) * REF_sin(3.14159265358979323846 * x) * REF_exp(REF_lngamma(1 - x)), 3.14159265358979323846, 1e-7);
// --- beta | src/core/special.h beta, pi | Beta and Pi functions | box=0:0.1:1;0:1:3;0:3:10 range=0.1:10
const real x = IN(0);
NEAR("beta 2", special::beta(x, 2) * x * (x + 1), 1, 1e-8); NEAR("beta 1", special::beta(1, x) * x, 1, 1e-8); NEAR("beta 1/2", special::beta(x, 0.5), special::beta(0.5, x), 1e-8);
// --- pi | src/core/special.h pi | Pi function | box=0:0.1:0.9;0:1.1:1.9;0:3.1:3.9
const real x = IN(0);
NEAR("pi", special::pi(x) * REF_exp(-REF_lngamma(x + 1)), 1, 1e-8);
// --- powf | src/core/real_analysis.h powf | real powers | noopaque=powf,exp box=0:1.1:1.6;0:2.8:3.7
const real x = IN(0);
NEAR("square", th::powf(x, 2), x * x, 1e-10); NEAR("root", th::powf(x, 0.5), REF_sqrt(x), 1e-10); NEAR("inverse", th::powf(x, -1) * x, 1, 1e-10);
// --- grow_roots | src/core/real_analysis.h root | error of roots of any order | n=7 grow=24 noopaque=sqrt,cbrt def=THEORETICA_OPTIMIZATION_NEWTON_ITER=24 box=0:1.01:1.03
{ const real x = IN(0), r = REF_exp(REF_ln(x) / VP_N); NEAR("root", th::root(x, VP_N), r, 1e-7); NEAR("inverse root", th::root(x, -VP_N) * r, 1, 1e-7); if(VP_N % 2) NEAR("odd root", th::root(-x, VP_N), -r, 1e-7); }
