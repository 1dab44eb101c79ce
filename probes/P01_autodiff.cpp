#include "probe.h"
using namespace autodiff;
// f, f', f'' given as expressions in x, and the domain where f is differentiable
#define D1(F, DF, DOM) { const real x = IN(0); errno = 0; dual r = F(dual(IN(0), IN(1))); const int e = errno; \
	const int dom = (DOM); if(dom == 1) { EQI(#F " not reported", e, 0); EQ(#F " value", r.Re(), F(x)); EQ(#F " derivative", r.Dual(), (DF) * IN(1)); } \
	else if(dom == 0) { EQI(#F " reported", e != 0, 1); ISNAN(#F " value", r.Re()); ISNAN(#F " derivative", r.Dual()); } }
#define D2(F, DF, DDF, DOM) { const real x = IN(0); errno = 0; dual2 r = F(dual2(IN(0), IN(1), IN(2))); const int e = errno; \
	const int dom = (DOM); if(dom == 1) { EQI(#F " not reported", e, 0); EQ(#F " value", r.Re(), F(x)); EQ(#F " first derivative", r.Dual1(), (DF) * IN(1)); \
	EQ(#F " second derivative", r.Dual2(), (DDF) * IN(1) * IN(1) + (DF) * IN(2)); } \
	else if(dom == 0) { EQI(#F " reported", e != 0, 1); ISNAN(#F " value", r.Re()); ISNAN(#F " first derivative", r.Dual1()); ISNAN(#F " second derivative", r.Dual2()); } }
#define DM(F, DF, DOM) { const real x = IN(0); errno = 0; vec<real, 2> u; u[0] = IN(1); u[1] = IN(2); \
	multidual<2> r = F(multidual<2>(IN(0), u)); int e = errno; \
	const int dom = (DOM); if(dom == 1) { EQI(#F " not reported", e, 0); EQ(#F " value", r.Re(), F(x)); EQ(#F " partial 0", r.Dual()[0], (DF) * IN(1)); EQ(#F " partial 1", r.Dual()[1], (DF) * IN(2)); } \
	else if(dom == 0) { EQI(#F " reported", e != 0, 1); ISNAN(#F " value", r.Re()); ISNAN(#F " partial 0", r.Dual()[0]); ISNAN(#F " partial 1", r.Dual()[1]); } \
	errno = 0; vec<real> w(3); w[0] = IN(1); w[1] = IN(2); w[2] = IN(3); multidual<0> q = F(multidual<0>(IN(0), w)); e = errno; EQI(#F " dynamic size", q.Dual().size(), 3); \
	const int dom2 = (DOM); if(dom2 == 1) { EQI(#F " not reported (dynamic)", e, 0); EQ(#F " value (dynamic)", q.Re(), F(x)); EQ(#F " partial 0 (dynamic)", q.Dual()[0], (DF) * IN(1)); EQ(#F " partial 2 (dynamic)", q.Dual()[2], (DF) * IN(3)); } \
	else if(dom2 == 0) { EQI(#F " reported (dynamic)", e != 0, 1); ISNAN(#F " value (dynamic)", q.Re()); for(int i = 0; i < 3; i++) ISNAN(#F " partial (dynamic)", q.Dual()[i]); } }
static inline void nans(const dual& r) { ISNAN("by zero re", r.Re()); ISNAN("by zero dual", r.Dual()); }
static inline void nans(const dual2& r) { ISNAN("by zero re", r.Re()); ISNAN("by zero d1", r.Dual1()); ISNAN("by zero d2", r.Dual2()); }
static inline void nans(const multidual<2>& r) { ISNAN("by zero re", r.Re()); ISNAN("by zero dual", r.Dual()[0]); ISNAN("by zero dual", r.Dual()[1]); }
#define OK(L, D) const_errno = errno; if((D) == 0) { EQI(L " by zero reported", const_errno != 0, 1); nans(r); } else if(EQI(L " not reported", const_errno, 0), true)
#define COT(X) { const real c = th::sin(IN(0)); errno = 0; auto r = th::cot(X); if(c == 0) EQI("cot reported", errno != 0, 1); if(c > 0.001 || c < -0.001) EQI("cot not reported", errno, 0); }
static inline real sq(real x) { return x * x; }
#define LN10C ((real) 2.30258509299404568401799145468436421)
#define LN2C  ((real) 0.69314718055994530941723212145817657)
// --- dual_arith | src/autodiff/dual.h | arithmetic of first order dual numbers
int const_errno = 0;
const real a = IN(0), b = IN(1), c = IN(2), d = IN(3), k = IN(4);
dual x(a, b), y(c, d), r;
r = x + y; EQ("+ re", r.Re(), a + c); EQ("+ dual", r.Dual(), b + d);
r = x - y; EQ("- re", r.Re(), a - c); EQ("- dual", r.Dual(), b - d);
r = x * y; EQ("* re", r.Re(), a * c); EQ("* dual", r.Dual(), a * d + b * c);
errno = 0; r = x / y; OK("/", c) { EQ("/ re", r.Re(), a / c); EQ("/ dual", r.Dual(), (b * c - a * d) / (c * c)); }
r = x + k; EQ("+k re", r.Re(), a + k); EQ("+k dual", r.Dual(), b);
r = x - k; EQ("-k re", r.Re(), a - k); EQ("-k dual", r.Dual(), b);
r = x * k; EQ("*k re", r.Re(), a * k); EQ("*k dual", r.Dual(), b * k);
errno = 0; r = x / k; OK("/k", k) { EQ("/k re", r.Re(), a / k); EQ("/k dual", r.Dual(), b / k); }
r = k + x; EQ("k+ re", r.Re(), a + k); EQ("k+ dual", r.Dual(), b);
r = k - x; EQ("k- re", r.Re(), k - a); EQ("k- dual", r.Dual(), -b);
r = k * x; EQ("k* re", r.Re(), a * k); EQ("k* dual", r.Dual(), b * k);
errno = 0; r = k / x; OK("k/", a) { EQ("k/ re", r.Re(), k / a); EQ("k/ dual", r.Dual(), -k * b / (a * a)); }
r = -x; EQ("neg re", r.Re(), -a); EQ("neg dual", r.Dual(), -b);
r = +x; EQ("pos re", r.Re(), a); EQ("pos dual", r.Dual(), b);
r = x.conjugate(); EQ("conj re", r.Re(), a); EQ("conj dual", r.Dual(), -b);
errno = 0; r = x.inverse(); OK("inverse", a) { EQ("inverse re", r.Re(), 1 / a); EQ("inverse dual", r.Dual(), -b / (a * a)); }
// --- dual_assign | src/autodiff/dual.h | compound assignment of first order dual numbers
int const_errno = 0;
const real a = IN(0), b = IN(1), c = IN(2), d = IN(3), k = IN(4);
dual x(a, b), y(c, d), r;
r = x; r += y; EQ("+= re", r.Re(), a + c); EQ("+= dual", r.Dual(), b + d);
r = x; r -= y; EQ("-= re", r.Re(), a - c); EQ("-= dual", r.Dual(), b - d);
r = x; r *= y; EQ("*= re", r.Re(), a * c); EQ("*= dual", r.Dual(), a * d + b * c);
r = x; r *= r; EQ("self *= re", r.Re(), a * a); EQ("self *= dual", r.Dual(), 2 * a * b);
errno = 0; r = x; r /= y; OK("/=", c) { EQ("/= re", r.Re(), a / c); EQ("/= dual", r.Dual(), (b * c - a * d) / (c * c)); }
errno = 0; r = x; r /= r; OK("self /=", a) { EQ("self /= re", r.Re(), 1); EQ("self /= dual", r.Dual(), 0); }
r = x; r += k; EQ("+=k re", r.Re(), a + k); EQ("+=k dual", r.Dual(), b);
r = x; r -= k; EQ("-=k re", r.Re(), a - k); EQ("-=k dual", r.Dual(), b);
r = x; r *= k; EQ("*=k re", r.Re(), a * k); EQ("*=k dual", r.Dual(), b * k);
errno = 0; r = x; r /= k; OK("/=k", k) { EQ("/=k re", r.Re(), a / k); EQ("/=k dual", r.Dual(), b / k); }
EQI("==", x == y, a == c && b == d);
EQ("vec re", x.to_vec()[0], a); EQ("vec dual", x.to_vec()[1], b);
mat2 M = x.to_mat() * y.to_mat(); mat2 N = (x * y).to_mat();
EQ("mat 00", M(0, 0), N(0, 0)); EQ("mat 01", M(0, 1), N(0, 1)); EQ("mat 10", M(1, 0), N(1, 0)); EQ("mat 11", M(1, 1), N(1, 1));
// --- dual_poly | src/autodiff/dual_functions.h | polynomial functions of a dual number
D1(square, 2 * x, true); D1(cube, 3 * x * x, true);
for(int n = 1; n < 7; n++) { real x = IN(0); dual r = th::pow(dual(x, IN(1)), n); real p = 1; for(int i = 0; i < n - 1; i++) p *= x;
	EQ("pow value", r.Re(), p * x); EQ("pow derivative", r.Dual(), n * p * IN(1)); }
{ errno = 0; dual r = th::pow(dual(IN(0), IN(1)), 0); EQI("pow 0 not reported", errno, 0); EQ("pow 0 value", r.Re(), 1); EQ("pow 0 derivative", r.Dual(), 0); }
for(int n = 1; n < 4; n++) { real x = IN(0); errno = 0; dual r = th::pow(dual(x, IN(1)), -n); if(x != 0) EQI("pow not reported (negative)", errno, 0); real p = 1; for(int i = 0; i < n; i++) p *= x;
	if(x != 0) { EQ("pow value (negative)", r.Re(), 1 / p); EQ("pow derivative (negative)", r.Dual(), -n / (p * x) * IN(1)); } }
// --- dual_trig | src/autodiff/dual_functions.h | trigonometric functions of a dual number
D1(th::sin, th::cos(x), true); D1(th::cos, -th::sin(x), true); D1(th::tan, 1 / sq(th::cos(x)), th::cos(x) != 0); D1(th::cot, -1 / sq(th::sin(x)), e == 0 ? 1 : th::sin(x) == 0 ? 0 : 2); COT(dual(IN(0), IN(1)));
// --- dual_atrig | src/autodiff/dual_functions.h | inverse trigonometric functions of a dual number
D1(th::asin, 1 / th::sqrt(1 - x * x), x > -1 && x < 1); D1(th::acos, -1 / th::sqrt(1 - x * x), x > -1 && x < 1); D1(th::atan, 1 / (1 + x * x), true);
// --- dual_exp | src/autodiff/dual_functions.h | exponential, logarithms, roots of a dual number
D1(th::exp, th::exp(x), true); D1(th::ln, 1 / x, x > 0); D1(th::log2, 1 / (x * LN2C), x > 0); D1(th::log10, 1 / (x * LN10C), x > 0);
D1(th::sinh, (th::exp(x) + 1 / th::exp(x)) / 2, true); D1(th::cosh, (th::exp(x) - 1 / th::exp(x)) / 2, true);
D1(th::tanh, 4 / sq(th::exp(x) + 1 / th::exp(x)), true); D1(th::abs, (x > 0) ? 1.0 : (x < 0 ? -1.0 : 0.0), true);
// --- dual_convert | src/autodiff/dual.h | construction, conversion and access of first order dual numbers
const real a = IN(0), b = IN(1);
#define T2(L, A, B) EQ(L " re", r.Re(), A); EQ(L " dual", r.Dual(), B)
{ dual r; T2("default", 0, 0); } { dual r(a); T2("real", a, 0); } { vec2 v; v[0] = a; v[1] = b; dual r(v); T2("vec", a, b); dual q(7, 8); q = v; r = q; T2("= vec", a, b); q = dual(7, 8); q.from_vec(v); r = q; T2("from vec", a, b); }
{ dual r(7, 8); r = a; T2("= real", a, 0); } { dual r(7, 8); r = std::array<real, 2>{{a, b}}; T2("= array", a, b); }
{ dual r(7, 8); r.Re() = a; r.Dual() = b; T2("reference", a, b); const dual c = r; EQ("const re", c.Re(), a); EQ("const dual", c.Dual(), b); EQ("friend re", Re(c), a); EQ("friend dual", Dual(c), b); Re(r) = b; Dual(r) = a; T2("friend reference", b, a); }
{ dual r = th::conjugate(dual(a, b)); T2("conjugate", a, -b); EQ("mat 00", dual(a, b).to_mat()(0, 0), a); EQ("mat 01", dual(a, b).to_mat()(0, 1), b); EQ("mat 10", dual(a, b).to_mat()(1, 0), 0); EQ("mat 11", dual(a, b).to_mat()(1, 1), a); }
// --- dual_sqrt | src/autodiff/dual_functions.h | square root of dual numbers | noopaque=sqrt def=PROBE_X86
D1(th::sqrt, 1 / (2 * th::sqrt(x)), x > 0);
// --- dual2_convert | src/autodiff/dual2.h | construction, conversion and access of second order dual numbers
const real a = IN(0), b = IN(1), c = IN(2);
#define T3(L, A, B, C) EQ(L " re", r.Re(), A); EQ(L " d1", r.Dual1(), B); EQ(L " d2", r.Dual2(), C)
{ dual2 r; T3("default", 0, 0, 0); } { dual2 r(a); T3("real", a, 0, 0); } { dual2 r(a, b); T3("two", a, b, 0); }
{ vec3 v; v[0] = a; v[1] = b; v[2] = c; dual2 r(v); T3("vec", a, b, c); dual2 q(7, 8, 9); q = v; r = q; T3("= vec", a, b, c); q = dual2(7, 8, 9); q.from_vec(v); r = q; T3("from vec", a, b, c); }
{ dual2 r(7, 8, 9); r = a; T3("= real", a, 0, 0); } { dual2 r(7, 8, 9); r = std::array<real, 3>{{a, b, c}}; T3("= array", a, b, c); }
{ dual2 r = dual2(a, b, c).conjugate(); T3("conjugate", a, -b, -c); r = th::conjugate(dual2(a, b, c)); T3("conjugate function", a, -b, -c); }
// --- dual2_sqrt | src/autodiff/dual2_functions.h | square root of dual2 numbers | noopaque=sqrt def=PROBE_X86
D2(th::sqrt, 1 / (2 * th::sqrt(x)), -1 / (4 * x * th::sqrt(x)), x > 0);
// --- multidual_convert | src/autodiff/multidual.h | construction and access of multivariate dual numbers
vec<real, 2> u; u[0] = IN(1); u[1] = IN(2); const real a = IN(0);
#define TM(L, A, B, C) EQ(L " re", r.Re(), A); EQ(L " d0", r.Dual()[0], B); EQ(L " d1", r.Dual()[1], C)
{ multidual<2> r; TM("default", 0, 0, 0); } { multidual<2> r(a); TM("real", a, 0, 0); } { multidual<2> r(7, u); r = a; TM("= real", a, 0, 0); }
{ multidual<2> r; r.Re() = a; r.Dual() = u; TM("reference", a, u[0], u[1]); EQI("size", r.size(), 2); const multidual<2> c = r; EQ("const re", c.Re(), a); EQ("const dual", c.Dual()[1], u[1]); r = th::conjugate(c); TM("conjugate", a, -u[0], -u[1]); r = +c; TM("identity", a, u[0], u[1]); }
{ multidual<0> r; r.resize(3); EQI("resized", r.size(), 3); EQ("resized re", r.Re(), 0); for(int i = 0; i < 3; i++) EQ("resized dual", r.Dual()[i], 0); }
// --- dual2_arith | src/autodiff/dual2.h | arithmetic of second order dual numbers
int const_errno = 0;
const real a = IN(0), b = IN(1), c = IN(2), p = IN(3), q = IN(4), s = IN(5), k = IN(6);
dual2 x(a, b, c), y(p, q, s), r;
#define T3(L, A, B, C) EQ(L " re", r.Re(), A); EQ(L " d1", r.Dual1(), B); EQ(L " d2", r.Dual2(), C)
r = x + y; T3("+", a + p, b + q, c + s);
r = x - y; T3("-", a - p, b - q, c - s);
r = x * y; T3("*", a * p, a * q + b * p, a * s + 2 * b * q + c * p);
errno = 0; r = x / y; OK("/", p) { T3("/", a / p, (b * p - a * q) / (p * p), c / p - 2 * b * q / (p * p) + a * (2 * q * q / (p * p * p) - s / (p * p))); }
r = x + k; T3("+k", a + k, b, c); r = x - k; T3("-k", a - k, b, c); r = x * k; T3("*k", a * k, b * k, c * k);
errno = 0; r = x / k; OK("/k", k) { T3("/k", a / k, b / k, c / k); }
r = k + x; T3("k+", a + k, b, c); r = k - x; T3("k-", k - a, -b, -c); r = k * x; T3("k*", a * k, b * k, c * k);
errno = 0; r = k / x; OK("k/", a) { T3("k/", k / a, -k * b / (a * a), k * (2 * b * b / (a * a * a) - c / (a * a))); }
r = -x; T3("neg", -a, -b, -c); r = +x; T3("pos", a, b, c);
errno = 0; r = x.inverse(); OK("inverse", a) { T3("inverse", 1 / a, -b / (a * a), 2 * b * b / (a * a * a) - c / (a * a)); }
// --- dual2_assign | src/autodiff/dual2.h | compound assignment of second order dual numbers
int const_errno = 0;
const real a = IN(0), b = IN(1), c = IN(2), p = IN(3), q = IN(4), s = IN(5), k = IN(6);
dual2 x(a, b, c), y(p, q, s), r;
#define T3(L, A, B, C) EQ(L " re", r.Re(), A); EQ(L " d1", r.Dual1(), B); EQ(L " d2", r.Dual2(), C)
r = x; r += y; T3("+=", a + p, b + q, c + s);
r = x; r -= y; T3("-=", a - p, b - q, c - s);
r = x; r *= y; T3("*=", a * p, a * q + b * p, a * s + 2 * b * q + c * p);
r = x; r *= r; T3("self *=", a * a, 2 * a * b, 2 * a * c + 2 * b * b);
errno = 0; r = x; r /= y; OK("/=", p) { T3("/=", a / p, (b * p - a * q) / (p * p), c / p - 2 * b * q / (p * p) + a * (2 * q * q / (p * p * p) - s / (p * p))); }
errno = 0; r = x; r /= r; OK("self /=", a) { T3("self /=", 1, 0, 0); }
r = x; r += k; T3("+=k", a + k, b, c); r = x; r -= k; T3("-=k", a - k, b, c); r = x; r *= k; T3("*=k", a * k, b * k, c * k);
errno = 0; r = x; r /= k; OK("/=k", k) { T3("/=k", a / k, b / k, c / k); }
EQI("==", x == y, a == p && b == q && c == s);
EQ("vec0", x.to_vec()[0], a); EQ("vec1", x.to_vec()[1], b); EQ("vec2", x.to_vec()[2], c);
// --- dual2_poly | src/autodiff/dual2_functions.h | polynomial functions of a second order dual number
D2(square, 2 * x, 2.0, true); D2(cube, 3 * x * x, 6 * x, true);
{ errno = 0; dual2 r = th::pow(dual2(IN(0), IN(1), IN(2)), 0); EQI("pow 0 not reported", errno, 0); EQ("pow 0 value", r.Re(), 1); EQ("pow 0 d1", r.Dual1(), 0); EQ("pow 0 d2", r.Dual2(), 0);
  r = th::pow(dual2(IN(0), IN(1), IN(2)), 1); EQI("pow 1 not reported", errno, 0); EQ("pow 1 value", r.Re(), IN(0)); EQ("pow 1 d1", r.Dual1(), IN(1)); EQ("pow 1 d2", r.Dual2(), IN(2)); }
for(int n = 1; n < 4; n++) { real x = IN(0); errno = 0; dual2 r = th::pow(dual2(x, IN(1), IN(2)), -n); if(x != 0) EQI("pow not reported (negative)", errno, 0); real p = 1; for(int i = 0; i < n; i++) p *= x;
	if(x != 0) { EQ("pow value (negative)", r.Re(), 1 / p); EQ("pow d1 (negative)", r.Dual1(), -n / (p * x) * IN(1)); EQ("pow d2 (negative)", r.Dual2(), n * (n + 1) / (p * x * x) * IN(1) * IN(1) - n / (p * x) * IN(2)); } }
for(int n = 2; n < 7; n++) { real x = IN(0); dual2 r = th::pow(dual2(x, IN(1), IN(2)), n); real p = 1; for(int i = 0; i < n - 2; i++) p *= x;
	EQ("pow value", r.Re(), p * x * x); EQ("pow d1", r.Dual1(), n * p * x * IN(1)); EQ("pow d2", r.Dual2(), n * (n - 1) * p * IN(1) * IN(1) + n * p * x * IN(2)); }
// --- dual2_trig | src/autodiff/dual2_functions.h | trigonometric functions of a second order dual number
D2(th::sin, th::cos(x), -th::sin(x), true); D2(th::cos, -th::sin(x), -th::cos(x), true);
D2(th::tan, 1 / sq(th::cos(x)), 2 * th::sin(x) / (sq(th::cos(x)) * th::cos(x)), th::cos(x) != 0);
D2(th::cot, -1 / sq(th::sin(x)), 2 * th::cos(x) / (sq(th::sin(x)) * th::sin(x)), e == 0 ? 1 : th::sin(x) == 0 ? 0 : 2); COT(dual2(IN(0), IN(1), IN(2)));
// --- dual2_atrig | src/autodiff/dual2_functions.h | inverse trigonometric functions of a second order dual number
D2(th::asin, 1 / th::sqrt(1 - x * x), x / (th::sqrt(1 - x * x) * (1 - x * x)), x > -1 && x < 1);
D2(th::acos, -1 / th::sqrt(1 - x * x), -x / (th::sqrt(1 - x * x) * (1 - x * x)), x > -1 && x < 1);
D2(th::atan, 1 / (1 + x * x), -2 * x / sq(1 + x * x), true);
// --- dual2_exp | src/autodiff/dual2_functions.h | exponential, logarithms, roots of a second order dual number
D2(th::exp, th::exp(x), th::exp(x), true); D2(th::ln, 1 / x, -1 / (x * x), x > 0);
D2(th::log2, 1 / (x * LN2C), -1 / (x * x * LN2C), x > 0); D2(th::log10, 1 / (x * LN10C), -1 / (x * x * LN10C), x > 0);
 D2(th::abs, (x > 0) ? 1.0 : (x < 0 ? -1.0 : 0.0), 0.0, true);
// --- multidual_arith | src/autodiff/multidual.h | arithmetic of multivariate dual numbers
int const_errno = 0;
vec<real, 2> u, w; u[0] = IN(1); u[1] = IN(2); w[0] = IN(4); w[1] = IN(5);
const real a = IN(0), c = IN(3), k = IN(6); multidual<2> x(a, u), y(c, w), r;
#define T3(L, A, E) { EQ(L " re", r.Re(), A); for(int i = 0; i < 2; i++) EQ(L " dual", r.Dual()[i], E); }
r = x + y; T3("+", a + c, u[i] + w[i]); r = x - y; T3("-", a - c, u[i] - w[i]); r = x * y; T3("*", a * c, u[i] * c + a * w[i]);
errno = 0; r = x / y; OK("/", c) { T3("/", a / c, (u[i] * c - a * w[i]) / (c * c)); }
r = x + k; T3("+k", a + k, u[i]); r = x - k; T3("-k", a - k, u[i]); r = x * k; T3("*k", a * k, u[i] * k);
errno = 0; r = x / k; OK("/k", k) T3("/k", a / k, u[i] / k);
r = k + x; T3("k+", a + k, u[i]); r = k - x; T3("k-", k - a, -u[i]); r = k * x; T3("k*", a * k, u[i] * k);
errno = 0; r = k / x; OK("k/", a) T3("k/", k / a, -k * u[i] / (a * a));
r = -x; T3("neg", -a, -u[i]);
errno = 0; r = x.inverse(); OK("inverse", a) T3("inverse", 1 / a, -u[i] / (a * a));
r = x.conjugate(); T3("conj", a, -u[i]);
// --- multidual_assign | src/autodiff/multidual.h | compound assignment of multivariate dual numbers
int const_errno = 0;
vec<real, 2> u, w; u[0] = IN(1); u[1] = IN(2); w[0] = IN(4); w[1] = IN(5);
const real a = IN(0), c = IN(3), k = IN(6); multidual<2> x(a, u), y(c, w), r;
#define T3(L, A, E) { EQ(L " re", r.Re(), A); for(int i = 0; i < 2; i++) EQ(L " dual", r.Dual()[i], E); }
r = x; r += y; T3("+=", a + c, u[i] + w[i]); r = x; r -= y; T3("-=", a - c, u[i] - w[i]); r = x; r *= y; T3("*=", a * c, u[i] * c + a * w[i]);
r = x; r *= r; T3("self *=", a * a, 2 * u[i] * a);
errno = 0; r = x; r /= y; OK("/=", c) T3("/=", a / c, (u[i] * c - a * w[i]) / (c * c));
errno = 0; r = x; r /= r; OK("self /=", a) T3("self /=", 1, 0);
r = x; r += k; T3("+=k", a + k, u[i]); r = x; r -= k; T3("-=k", a - k, u[i]); r = x; r *= k; T3("*=k", a * k, u[i] * k);
errno = 0; r = x; r /= k; if(k == 0 || k > 0.001 || k < -0.001) { OK("/=k", k) T3("/=k", a / k, u[i] / k); }
EQI("==", x == y, a == c && u[0] == w[0] && u[1] == w[1]);
// --- multidual_poly | src/autodiff/multidual_functions.h | polynomial functions of multivariate dual numbers
DM(square, 2 * x, true); DM(cube, 3 * x * x, true);
{ errno = 0; vec<real, 2> u; u[0] = IN(1); u[1] = IN(2); multidual<2> r = th::pow(multidual<2>(IN(0), u), 0); EQI("pow 0 not reported", errno, 0); EQ("pow 0 value", r.Re(), 1); EQ("pow 0 d0", r.Dual()[0], 0); EQ("pow 0 d1", r.Dual()[1], 0); }
for(int n = 1; n < 6; n++) { real x = IN(0); vec<real, 2> u; u[0] = IN(1); u[1] = IN(2); multidual<2> r = th::pow(multidual<2>(x, u), n); real p = 1; for(int i = 0; i < n - 1; i++) p *= x;
	EQ("pow value", r.Re(), p * x); EQ("pow d0", r.Dual()[0], n * p * IN(1)); EQ("pow d1", r.Dual()[1], n * p * IN(2)); }
// --- multidual_trig | src/autodiff/multidual_functions.h | trigonometric functions of multivariate dual numbers
DM(th::sin, th::cos(x), true); DM(th::cos, -th::sin(x), true); DM(th::tan, 1 / sq(th::cos(x)), th::cos(x) != 0); DM(th::cot, -1 / sq(th::sin(x)), e == 0 ? 1 : th::sin(x) == 0 ? 0 : 2); COT(multidual<2>(IN(0), vec<real, 2>(2, IN(1))));
// --- multidual_atrig | src/autodiff/multidual_functions.h | inverse trigonometric functions of multivariate dual numbers
DM(th::asin, 1 / th::sqrt(1 - x * x), x > -1 && x < 1); DM(th::acos, -1 / th::sqrt(1 - x * x), x > -1 && x < 1); DM(th::atan, 1 / (1 + x * x), true);
// --- multidual_exp | src/autodiff/multidual_functions.h | exponential functions of multivariate dual numbers
DM(th::exp, th::exp(x), true); DM(th::ln, 1 / x, x > 0); DM(th::log2, 1 / (x * LN2C), x > 0); DM(th::log10, 1 / (x * LN10C), x > 0);
// --- multidual_sqrt | src/autodiff/multidual_functions.h | square root of multidual numbers | noopaque=sqrt def=PROBE_X86
DM(th::sqrt, 1 / (2 * th::sqrt(x)), x > 0);
// --- multidual_hyp | src/autodiff/multidual_functions.h | hyperbolic functions of multivariate dual numbers
DM(th::sinh, (th::exp(x) + 1 / th::exp(x)) / 2, true); DM(th::cosh, (th::exp(x) - 1 / th::exp(x)) / 2, true);
DM(th::tanh, 4 / sq(th::exp(x) + 1 / th::exp(x)), true); DM(th::abs, (x > 0) ? 1.0 : (x < 0 ? -1.0 : 0.0), true);
// --- ops_univariate | src/autodiff/autodiff.h | deriv and deriv2 of a composite function
auto f = [](auto x) { return th::sin(x * x) * th::exp(x) + 3.0 / x - x; };
const real x = IN(0); if(x != 0) {
real S = th::sin(x * x), C = th::cos(x * x), E_ = th::exp(x);
real d1 = 2 * x * C * E_ + S * E_ - 3 / (x * x) - 1;
real d2 = (2 * C - 4 * x * x * S) * E_ + 4 * x * C * E_ + S * E_ + 6 / (x * x * x);
EQ("deriv", autodiff::deriv([&](dual z) { return f(z); }, x), d1);
EQ("deriv functional", autodiff::deriv([&](dual z) { return f(z); })(x), d1);
EQ("deriv2", autodiff::deriv2([&](dual2 z) { return f(z); }, x), d2);
EQ("deriv2 functional", autodiff::deriv2([&](dual2 z) { return f(z); })(x), d2); }
// --- gradient_static | src/autodiff/autodiff.h | gradient of a scalar field (static size)
struct L { static dreal3 f(dvec3 v) { return v[0] * v[0] * v[1] + th::sin(v[2]) * v[0] - v[1] / v[2]; } };
vec<real, 3> x; for(int i = 0; i < 3; i++) x[i] = IN(i);
errno = 0; auto g = autodiff::gradient(L::f, x); EQI("gradient reported", errno != 0, IN(2) == 0); if(IN(2) != 0) {
EQI("size", g.size(), 3); EQ("g0", g[0], 2 * IN(0) * IN(1) + th::sin(IN(2))); EQ("g1", g[1], IN(0) * IN(0) - 1 / IN(2)); EQ("g2", g[2], th::cos(IN(2)) * IN(0) + IN(1) / (IN(2) * IN(2))); }
errno = 0; auto h = autodiff::gradient(L::f)(x); EQI("gradient reported", errno != 0, IN(2) == 0); if(IN(2) != 0) {
EQ("functional g0", h[0], 2 * IN(0) * IN(1) + th::sin(IN(2))); EQ("functional g1", h[1], IN(0) * IN(0) - 1 / IN(2)); EQ("functional g2", h[2], th::cos(IN(2)) * IN(0) + IN(1) / (IN(2) * IN(2))); }
// --- gradient_dynamic | src/autodiff/autodiff.h | gradient of a scalar field (dynamic size)
struct L { static dreal f(dvec v) { return v[0] * v[0] * v[1] + th::sin(v[2]) * v[0]; } };
vec<real> x(3); for(int i = 0; i < 3; i++) x[i] = IN(i);
auto g = autodiff::gradient(L::f, x);
EQI("size", g.size(), 3); EQ("g0", g[0], 2 * IN(0) * IN(1) + th::sin(IN(2))); EQ("g1", g[1], IN(0) * IN(0)); EQ("g2", g[2], th::cos(IN(2)) * IN(0));
// --- jacobian_static | src/autodiff/autodiff.h | jacobian of a vector field (static, rectangular)
struct L { static vec<multidual<3>, 2> f(vec<multidual<3>, 3> v) { vec<multidual<3>, 2> r; r[0] = v[0] * v[1] + v[2]; r[1] = th::exp(v[0]) * v[2]; return r; } };
vec<real, 3> x; for(int i = 0; i < 3; i++) x[i] = IN(i);
auto J = autodiff::jacobian<3, 2>(L::f, x);
EQI("rows", J.rows(), 2); EQI("cols", J.cols(), 3);
EQ("00", J(0, 0), IN(1)); EQ("01", J(0, 1), IN(0)); EQ("02", J(0, 2), 1); EQ("10", J(1, 0), th::exp(IN(0)) * IN(2)); EQ("11", J(1, 1), 0); EQ("12", J(1, 2), th::exp(IN(0)));
auto K = autodiff::jacobian<3, 2>(L::f)(x);
EQ("functional 00", K(0, 0), IN(1)); EQ("functional 01", K(0, 1), IN(0)); EQ("functional 10", K(1, 0), th::exp(IN(0)) * IN(2)); EQ("functional 12", K(1, 2), th::exp(IN(0)));
// --- jacobian_dynamic | src/autodiff/autodiff.h | jacobian of a vector field (dynamic, rectangular)
struct L { static vec<multidual<>> f(vec<multidual<>> v) { vec<multidual<>> r(2); r[0] = v[0] * v[1] + v[2]; r[1] = th::exp(v[0]) * v[2]; return r; } };
vec<real> x(3); for(int i = 0; i < 3; i++) x[i] = IN(i);
auto J = autodiff::jacobian<0, 0>(L::f, x);
EQI("rows", J.rows(), 2); EQI("cols", J.cols(), 3);
EQ("00", J(0, 0), IN(1)); EQ("01", J(0, 1), IN(0)); EQ("02", J(0, 2), 1); EQ("10", J(1, 0), th::exp(IN(0)) * IN(2)); EQ("11", J(1, 1), 0); EQ("12", J(1, 2), th::exp(IN(0)));
// --- curl_static | src/autodiff/autodiff.h | curl of a vector field
struct L { static dvec3 f(dvec3 v) { dvec3 r; r[0] = v[1] * v[2]; r[1] = v[0] * v[0] * v[2]; r[2] = th::sin(v[0]) * v[1]; return r; } };
vec<real, 3> x; for(int i = 0; i < 3; i++) x[i] = IN(i);
const real X = IN(0), Y = IN(1), Z = IN(2);
auto c = autodiff::curl<3>(L::f, x); EQ("c0", c[0], th::sin(X) - X * X); EQ("c1", c[1], Y - th::cos(X) * Y); EQ("c2", c[2], 2 * X * Z - Z);
auto d = autodiff::curl<3>(L::f)(x); EQ("functional c0", d[0], th::sin(X) - X * X); EQ("functional c1", d[1], Y - th::cos(X) * Y); EQ("functional c2", d[2], 2 * X * Z - Z);
// --- laplacian | src/autodiff/autodiff.h | laplacian of a scalar field
struct L { static dual2 f(vec<dual2, 3> v) { return v[0] * v[0] * v[1] + th::sin(v[2]) * v[0] + v[1] * v[1] * v[1]; } static dual2 g(vec<dual2> v) { return v[0] * v[0] * v[1] + th::sin(v[2]) * v[0] + v[1] * v[1] * v[1]; } };
vec<real, 3> x; vec<real> y(3); for(int i = 0; i < 3; i++) x[i] = y[i] = IN(i);
EQ("static", autodiff::laplacian<3>(L::f, x), 2 * IN(1) - th::sin(IN(2)) * IN(0) + 6 * IN(1));
EQ("dynamic", autodiff::laplacian<0>(L::g, y), 2 * IN(1) - th::sin(IN(2)) * IN(0) + 6 * IN(1));
EQ("functional", autodiff::laplacian<3>(L::f)(x), 2 * IN(1) - th::sin(IN(2)) * IN(0) + 6 * IN(1));
// --- directional | src/autodiff/autodiff.h | directional derivative: the vector v (v . grad f)
struct L { static dreal3 f(dvec3 v) { return v[0] * v[0] * v[1] + th::sin(v[2]) * v[0]; } };
vec<real, 3> x, v; for(int i = 0; i < 3; i++) { x[i] = IN(i); v[i] = IN(3 + i); }
real s = IN(3) * (2 * IN(0) * IN(1) + th::sin(IN(2))) + IN(4) * IN(0) * IN(0) + IN(5) * th::cos(IN(2)) * IN(0);
auto r = autodiff::directional_derivative<3>(L::f, x, v);
for(int i = 0; i < 3; i++) EQ("component", r[i], v[i] * s);
// --- multidual_extract | src/autodiff/multidual.h | argument construction and extraction
vec<real, 2> x; x[0] = IN(0); x[1] = IN(1); auto a = multidual<2>::make_argument(x);
for(int i = 0; i < 2; i++) { EQ("arg re", a[i].Re(), IN(i)); for(int j = 0; j < 2; j++) EQ("arg dual", a[i].Dual()[j], i == j ? 1 : 0); }
vec<multidual<2>, 2> f; f[0] = a[0] * a[1]; f[1] = a[0] * a[0]; auto re = multidual<2>::extract_real(f); auto J = multidual<2>::extract_dual(f);
EQ("re0", re[0], IN(0) * IN(1)); EQ("re1", re[1], IN(0) * IN(0)); EQ("J00", J(0, 0), IN(1)); EQ("J01", J(0, 1), IN(0)); EQ("J10", J(1, 0), 2 * IN(0)); EQ("J11", J(1, 1), 0);
vec<real, 2> X; mat<real, 2, 2> K; multidual<2>::extract(f, X, K);
EQ("extract re0", X[0], IN(0) * IN(1)); EQ("extract J01", K(0, 1), IN(0)); EQ("extract J10", K(1, 0), 2 * IN(0));
// --- multidual_extract_dyn | src/autodiff/multidual.h | argument construction and extraction (dynamic)
vec<real> x(2); x[0] = IN(0); x[1] = IN(1); auto a = multidual<0>::make_argument(x);
for(int i = 0; i < 2; i++) { EQ("arg re", a[i].Re(), IN(i)); for(int j = 0; j < 2; j++) EQ("arg dual", a[i].Dual()[j], i == j ? 1 : 0); }
vec<multidual<0>> f(2); f[0] = a[0] * a[1]; f[1] = a[0] * a[0]; auto re = multidual<0>::extract_real(f); auto J = multidual<0>::extract_dual(f);
EQI("size", re.size(), 2);
EQ("re0", re[0], IN(0) * IN(1)); EQ("re1", re[1], IN(0) * IN(0)); EQ("J00", J(0, 0), IN(1)); EQ("J01", J(0, 1), IN(0)); EQ("J10", J(1, 0), 2 * IN(0)); EQ("J11", J(1, 1), 0);
// --- divergence | src/autodiff/autodiff.h | sum of the partial derivatives of a scalar field
struct L { static dreal3 f(dvec3 v) { return v[0] * v[0] * v[1] + th::sin(v[2]) * v[0]; } static dreal g(dvec v) { return v[0] * v[0] * v[1] + th::sin(v[2]) * v[0]; } };
vec<real, 3> x; vec<real> y(3); for(int i = 0; i < 3; i++) x[i] = y[i] = IN(i);
const real s = 2 * IN(0) * IN(1) + th::sin(IN(2)) + IN(0) * IN(0) + th::cos(IN(2)) * IN(0);
EQ("static", autodiff::divergence(L::f, x), s); EQ("functional", autodiff::divergence(L::f)(x), s); EQ("dynamic", autodiff::divergence(L::g, y), s); EQ("dynamic functional", autodiff::divergence(L::g)(y), s);
// --- sturm_liouville | src/autodiff/autodiff.h | Poisson bracket with the Hamiltonian
struct L { static multidual<4> f(vec<multidual<4>, 4> v) { return v[0] * v[0] * v[2] + v[1] * v[3]; } static multidual<4> H(vec<multidual<4>, 4> v) { return v[2] * v[2] / 2 + v[3] * v[3] + v[0] * v[1]; }
  static dreal f2(dvec v) { return v[0] * v[0] * v[1]; } static dreal H2(dvec v) { return v[1] * v[1] + th::cos(v[0]); } };
vec<real, 4> x; for(int i = 0; i < 4; i++) x[i] = IN(i); const real q1 = IN(0), q2 = IN(1), p1 = IN(2), p2 = IN(3);
EQ("static", autodiff::sturm_liouville<4>(L::f, L::H, x), 2 * q1 * p1 * p1 + p2 * 2 * p2 - q1 * q1 * q2 - q2 * q1);
vec<real> y(2); y[0] = IN(0); y[1] = IN(1); EQ("dynamic", autodiff::sturm_liouville<0>(L::f2, L::H2, y), 2 * IN(0) * IN(1) * 2 * IN(1) + IN(0) * IN(0) * th::sin(IN(0)));
// --- curl_dynamic | src/autodiff/autodiff.h | curl of dynamic fields, reported unless three-dimensional
struct L { static dvec f(dvec v) { dvec r(3); r[0] = v[1] * v[2]; r[1] = v[0] * v[0] * v[2]; r[2] = th::sin(v[0]) * v[1]; return r; } };
vec<real> x(3); for(int i = 0; i < 3; i++) x[i] = IN(i); const real X = IN(0), Y = IN(1), Z = IN(2);
auto c = autodiff::curl<0>(L::f, x); EQI("size", c.size(), 3); EQ("c0", c[0], th::sin(X) - X * X); EQ("c1", c[1], Y - th::cos(X) * Y); EQ("c2", c[2], 2 * X * Z - Z);
vec<real> y(2); y[0] = IN(0); y[1] = IN(1); errno = 0; auto d = autodiff::curl<0>(L::f, y); EQI("reported", errno != 0, 1); EQI("error size", d.size(), 2); ISNAN("error 0", d[0]); ISNAN("error 1", d[1]);
vec<real> z(4); for(int i = 0; i < 4; i++) z[i] = IN(i); errno = 0; auto e = autodiff::curl<0>(L::f, z); EQI("reported 4", errno != 0, 1); EQI("error size 4", e.size(), 4); for(int i = 0; i < 4; i++) ISNAN("error 4", e[i]);
// --- directional_functional | src/autodiff/autodiff.h | directional derivative as a function, and of dynamic fields
struct L { static dreal3 f(dvec3 v) { return v[0] * v[0] * v[1] + th::sin(v[2]) * v[0]; } static dreal g(dvec v) { return v[0] * v[0] * v[1]; } };
vec<real, 3> x, v; for(int i = 0; i < 3; i++) { x[i] = IN(i); v[i] = IN(3 + i); }
real s = IN(3) * (2 * IN(0) * IN(1) + th::sin(IN(2))) + IN(4) * IN(0) * IN(0) + IN(5) * th::cos(IN(2)) * IN(0);
auto r = autodiff::directional_derivative<3>(L::f, v)(x); for(int i = 0; i < 3; i++) EQ("component", r[i], v[i] * s);
vec<real> y(2), w(2); y[0] = IN(0); y[1] = IN(1); w[0] = IN(3); w[1] = IN(4); auto q = autodiff::directional_derivative<0>(L::g, y, w); EQI("size", q.size(), 2);
for(int i = 0; i < 2; i++) EQ("dynamic component", q[i], w[i] * (w[0] * 2 * IN(0) * IN(1) + w[1] * IN(0) * IN(0)));
