#include "la.h"
static inline real pol(unsigned n, real x) { real s = 0, p = 1; for(unsigned i = 0; i < n; i++) { s += IN(10 + i) * p; p *= x; } return s; }
static inline real prim(unsigned n, real x) { real s = 0, p = x; for(unsigned i = 0; i < n; i++) { s += IN(10 + i) * p / (i + 1); p *= x; } return s; }
static inline real dpol(unsigned n, real x) { real s = 0, p = 1; for(unsigned i = 1; i < n; i++) { s += i * IN(10 + i) * p; p *= x; } return s; }
static inline real d2pol(unsigned n, real x) { real s = 0, p = 1; for(unsigned i = 2; i < n; i++) { s += i * (i - 1) * IN(10 + i) * p; p *= x; } return s; }
static real p1(real x) { return pol(1, x); }
static real p2(real x) { return pol(2, x); }
static real p3(real x) { return pol(3, x); }
static real p4(real x) { return pol(4, x); }
static real p5(real x) { return pol(5, x); }
static real p6(real x) { return pol(6, x); }
static real p7(real x) { return pol(7, x); }
#define X IN(0)
#define H IN(1)
#define DA IN(2)
#define DB IN(3)
// --- deriv_formula | src/calculus/deriv.h | finite difference formulas on an arbitrary function
{ const real x = X, h = H; EQ("central", deriv_central(UF1, x, h) * 2 * h, UF1(x + h) - UF1(x - h)); EQ("forward", deriv_forward(UF1, x, h) * h, UF1(x + h) - UF1(x)); EQ("backward", deriv_backward(UF1, x, h) * h, UF1(x) - UF1(x - h)); EQ("second", deriv2(UF1, x, h) * h * h, UF1(x + h) - 2 * UF1(x) + UF1(x - h)); }
// --- deriv_exact | src/calculus/deriv.h | finite differences are exact up to the order of the method
{ const real x = X, h = H; EQ("forward", deriv_forward(p2, x, h), dpol(2, x)); EQ("backward", deriv_backward(p2, x, h), dpol(2, x)); EQ("central", deriv_central(p3, x, h), dpol(3, x)); EQ("ridders2", deriv_ridders2(p5, x, h), dpol(5, x)); EQ("default", deriv(p5, x, h), dpol(5, x)); EQ("second", deriv2(p4, x, h), d2pol(4, x));
EQ("ridders 1", deriv_ridders(p3, x, h, 1), dpol(3, x)); EQ("ridders 2", deriv_ridders(p5, x, h, 2), dpol(5, x)); EQ("ridders 3", deriv_ridders(p7, x, h, 3), dpol(7, x)); EQ("ridders default", deriv_ridders(p7, x), dpol(7, x)); EQ("central default", deriv_central(p3, x), dpol(3, x)); EQ("ridders2 default", deriv_ridders2(p5, x), dpol(5, x)); EQ("default step", deriv(p5, x), dpol(5, x)); EQ("forward default", deriv_forward(p2, x), dpol(2, x)); EQ("backward default", deriv_backward(p2, x), dpol(2, x)); }
// --- deriv_zero_degree | src/calculus/deriv.h | an extrapolation of degree zero is reported
{ errno = 0; ISNAN("nan", deriv_ridders(p3, X, H, 0)); REPORTED("degree"); }
// --- quad_formula | src/calculus/integral.h | composite quadrature formulas on an arbitrary function
{ const real a = DA, b = DB, d = b - a; EQ("midpoint 1", integral_midpoint(UF1, a, b, 1), d * UF1((a + b) / 2)); EQ("midpoint 3", integral_midpoint(UF1, a, b, 3), d / 3 * (UF1(a + d / 6) + UF1(a + d / 2) + UF1(a + 5 * d / 6)));
EQ("trapezoid 1", integral_trapezoid(UF1, a, b, 1), d / 2 * (UF1(a) + UF1(b))); EQ("trapezoid 4", integral_trapezoid(UF1, a, b, 4), d / 4 * (UF1(a) / 2 + UF1(a + d / 4) + UF1(a + d / 2) + UF1(a + 3 * d / 4) + UF1(b) / 2)); EQ("trapezoid 2", integral_trapezoid(UF1, a, b, 2), d / 2 * (UF1(a) / 2 + UF1(a + d / 2) + UF1(b) / 2));
EQ("simpson 2", integral_simpson(UF1, a, b, 2), d / 6 * (UF1(a) + 4 * UF1((a + b) / 2) + UF1(b))); EQ("simpson 4", integral_simpson(UF1, a, b, 4), d / 12 * (UF1(a) + 4 * UF1(a + d / 4) + 2 * UF1(a + d / 2) + 4 * UF1(a + 3 * d / 4) + UF1(b)));
EQ("romberg 1", integral_romberg(UF1, a, b, 1), d / 2 * (UF1(a) + UF1(b))); EQ("romberg 2", integral_romberg(UF1, a, b, 2), d / 6 * (UF1(a) + 4 * UF1(a + d / 2) + UF1(b))); }
// --- quad_exact | src/calculus/integral.h | composite quadrature is exact up to the degree of the method
{ const real a = DA, b = DB;
#define QX(N) EQ("midpoint " #N, integral_midpoint(p2, a, b, N), prim(2, b) - prim(2, a)); EQ("trapezoid " #N, integral_trapezoid(p2, a, b, N), prim(2, b) - prim(2, a)); EQ("simpson " #N, integral_simpson(p4, a, b, N), prim(4, b) - prim(4, a));
QX(1) QX(2) QX(3) QX(4) QX(5) QX(7) QX(10)
EQ("midpoint default", integral_midpoint(p2, a, b), prim(2, b) - prim(2, a)); EQ("trapezoid default", integral_trapezoid(p2, a, b), prim(2, b) - prim(2, a)); EQ("simpson default", integral_simpson(p4, a, b), prim(4, b) - prim(4, a));
EQ("romberg 1", integral_romberg(p2, a, b, 1), prim(2, b) - prim(2, a)); EQ("romberg 2", integral_romberg(p4, a, b, 2), prim(4, b) - prim(4, a)); EQ("romberg 3", integral_romberg(p6, a, b, 3), prim(6, b) - prim(6, a)); EQ("romberg 4", integral_romberg(p6, a, b, 4), prim(6, b) - prim(6, a)); EQ("romberg 5", integral_romberg(p7, a, b, 5), prim(7, b) - prim(7, a)); }
// --- quad_reverse | src/calculus/integral.h | swapping the extremes changes the sign, an empty interval has null integral
{ const real a = DA, b = DB; EQ("midpoint", integral_midpoint(UF1, a, b, 4), -integral_midpoint(UF1, b, a, 4)); EQ("trapezoid", integral_trapezoid(UF1, a, b, 5), -integral_trapezoid(UF1, b, a, 5)); EQ("simpson", integral_simpson(UF1, a, b, 4), -integral_simpson(UF1, b, a, 4)); EQ("romberg", integral_romberg(UF1, a, b, 4), -integral_romberg(UF1, b, a, 4)); EQ("legendre", integral_legendre(p4, a, b, 4), -integral_legendre(p4, b, a, 4)); EQ("null midpoint", integral_midpoint(UF1, a, a, 4), 0); EQ("null trapezoid", integral_trapezoid(UF1, a, a, 4), 0); EQ("null simpson", integral_simpson(UF1, a, a, 4), 0); EQ("null romberg", integral_romberg(UF1, a, a, 4), 0); }
// --- quad_zero | src/calculus/integral.h | zero steps or iterations are reported
{ errno = 0; ISNAN("midpoint", integral_midpoint(UF1, DA, DB, 0)); REPORTED("midpoint"); errno = 0; ISNAN("trapezoid", integral_trapezoid(UF1, DA, DB, 0)); REPORTED("trapezoid"); errno = 0; ISNAN("simpson", integral_simpson(UF1, DA, DB, 0)); REPORTED("simpson"); errno = 0; ISNAN("romberg", integral_romberg(UF1, DA, DB, 0)); REPORTED("romberg"); }
// --- gauss_formula | src/calculus/integral.h | Gaussian quadrature sums weighted values at the nodes
{ std::vector<real> x = {IN(20), IN(21), IN(22)}, w = {IN(30), IN(31), IN(32)}, s = {IN(40), IN(41)}; real xa[3] = {IN(20), IN(21), IN(22)}, wa[3] = {IN(30), IN(31), IN(32)}; real g = 0, l = 0, v = 0; const real a = DA, b = DB; for(int i = 0; i < 3; i++) { g += w[i] * UF1(x[i]); v += w[i] * UF1(x[i]) * UF2(x[i]); l += w[i] * UF1((a + b) / 2 + (b - a) / 2 * x[i]) * (b - a) / 2; }
EQ("vectors", integral_gauss(UF1, x, w), g); EQ("arrays", integral_gauss(UF1, xa, wa, 3), g); EQ("inverse weight", integral_gauss(UF1, xa, wa, 3, UF2), v); EQ("legendre", integral_legendre(UF1, a, b, x, w), l); EQ("legendre arrays", integral_legendre(UF1, a, b, xa, wa, 3), l); EQ("empty", integral_gauss(UF1, std::vector<real>(), std::vector<real>()), 0);
errno = 0; ISNAN("mismatch", integral_gauss(UF1, x, s)); REPORTED("mismatch"); errno = 0; ISNAN("legendre mismatch", integral_legendre(UF1, a, b, x, s)); REPORTED("legendre mismatch"); errno = 0; ISNAN("legendre mismatch short", integral_legendre(UF1, a, b, s, x)); REPORTED("legendre mismatch short"); }
// --- gauss_nodes | src/calculus/integral.h | Gaussian quadrature with computed weights
{ std::vector<real> x = {IN(20), IN(21)}; const real a = DA, b = DB; const auto w = legendre_weights(x), v = laguerre_weights(x), h = hermite_weights(x); EQ("legendre", integral_legendre(p3, a, b, x), integral_legendre(p3, a, b, x, w)); EQ("laguerre", integral_laguerre(p3, x), integral_gauss(p3, x, v)); EQ("hermite", integral_hermite(p3, x), integral_gauss(p3, x, h));
real s = 0; for(int i = 0; i < 2; i++) s += v[i] * (th::exp(-a) * p3(x[i] + a) - th::exp(-b) * p3(x[i] + b)); EQ("laguerre interval", integral_laguerre(p3, a, b, x), s); }
// --- gauss_tables | src/calculus/integral.h | tabulated Gaussian quadrature uses the table of its order
{ const real a = DA, b = DB;
#define GT(N) EQ("legendre " #N, integral_legendre(UF1, a, b, N), integral_legendre(UF1, a, b, tables::legendre_roots_##N, tables::legendre_weights_##N, N)); EQ("laguerre " #N, integral_laguerre(UF1, N), integral_gauss(UF1, tables::laguerre_roots_##N, tables::laguerre_weights_##N, N)); EQ("hermite " #N, integral_hermite(UF1, N), integral_gauss(UF1, tables::hermite_roots_##N, tables::hermite_weights_##N, N));
GT(2) GT(4) GT(8) GT(16) EQ("legendre default", integral_legendre(UF1, a, b), integral_legendre(UF1, a, b, 16)); EQ("laguerre default", integral_laguerre(UF1), integral_laguerre(UF1, 16)); EQ("hermite default", integral_hermite(UF1), integral_hermite(UF1, 16)); errno = 0; ISNAN("laguerre order", integral_laguerre(UF1, 5)); REPORTED("laguerre order"); errno = 0; ISNAN("hermite order", integral_hermite(UF1, 3)); REPORTED("hermite order"); }
// --- romberg_tol | src/calculus/integral.h | adaptive Romberg integration is exact on cubic polynomials | unroll=100 prune=1
{ const real a = DA, b = DB; EQ("cubic", integral_romberg_tol(p4, a, b, 1e-8), prim(4, b) - prim(4, a)); }
// --- integral_best | src/calculus/integral.h | the default integration is exact on linear functions | unroll=100 prune=1
{ EQ("default", integral([](real x) -> real { return IN(0) + IN(1) * x; }, 0, 2), 2 * IN(0) + 2 * IN(1)); }
// --- integral_tol | src/calculus/integral.h | integration to a tolerance is exact on linear functions | unroll=100 prune=1
{ EQ("tolerance", integral([](real x) -> real { return IN(0) + IN(1) * x; }, 0, 2, 1E-6), 2 * IN(0) + 2 * IN(1)); }
// --- inf_riemann | src/calculus/integral.h | integration up to infinity adds unit steps until they are negligible | prune=1 unroll=100
{ errno = 0; EQ("compact", integral_inf_riemann([](real x) -> real { return x < 2 ? 2 - x : 0; }, 0), 2); EQI("quiet", errno, 0); }
// --- inf_riemann_div | src/calculus/integral.h | divergent integrals up to infinity are reported | prune=1 unroll=100
{ errno = 0; ISNAN("divergent", integral_inf_riemann([](real) -> real { return 1; }, 0, 1, 1E-8, 4)); EQI("divergent reported", errno, ERANGE); }
// --- grow_quadrature | src/calculus/integral.h | composite rules are exact on polynomials for any number of steps | n=6 grow=20002
{ const real B = VP_N + VP_N % 2, D = VP_N; auto c = [](real x) { return IN(0) + x * (IN(1) + x * (IN(2) + x * IN(3))); }; auto l = [](real x) { return IN(0) + x * IN(1); }; const real C = B * (IN(0) + B * (IN(1) / 2 + B * (IN(2) / 3 + B * IN(3) / 4))), L = D * (IN(0) + D * IN(1) / 2);
EQ("Simpson", integral_simpson(c, 0, B, VP_N), C); EQ("Simpson reversed", integral_simpson(c, B, 0, VP_N), -C); EQ("trapezoid", integral_trapezoid(l, 0, D, VP_N), L); EQ("midpoint", integral_midpoint(l, 0, D, VP_N), L); }
// --- grow_romberg | src/calculus/integral.h | Romberg's method with any number of iterations is exact to twice that degree | n=5 grow=10
{ auto c = [](real x) { real y = IN(0), p = x; for(int i = 1; i < 2 * VP_N; i++) { if(i > 2 * VP_N - 3) y += IN(i) * p; p *= x; } return y; }; real r = 2 * IN(0), p = 2; for(int i = 1; i < 2 * VP_N; i++) { p *= 2; if(i > 2 * VP_N - 3) r += IN(i) * p / (i + 1); } EQ("Romberg", integral_romberg(c, 0, 2, VP_N), r); }
// --- grow_ridders | src/calculus/deriv.h deriv_ridders | Ridders' method of any degree is exact to twice that degree | n=5 grow=12
{ auto c = [](real x) { real y = IN(0), p = x; for(int i = 1; i <= 2 * VP_N; i++) { if(i == 1 || i > 2 * VP_N - 2) y += IN(i) * p; p *= x; } return y; }; real r = 0, p = 1; const real x = real(1) / 2; for(int i = 1; i <= 2 * VP_N; i++) { if(i == 1 || i > 2 * VP_N - 2) r += IN(i) * i * p; p *= x; } EQ("Ridders", deriv_ridders(c, x, 1, VP_N), r); }
// --- grow_gauss | src/calculus/integral.h integral_gauss, integral_legendre | weighted sums over any number of nodes | n=6 grow=300
{ real x[VP_N], w[VP_N]; real s = 0, t = 0; for(int i = 0; i < VP_N; i++) { x[i] = i + IN(0); w[i] = 2 * i + 1; s += w[i]; t += w[i] * i; } auto f = [](real y) { return IN(1) * y; }; EQ("Gauss", integral_gauss(f, x, w, VP_N), IN(1) * (s * IN(0) + t)); const std::vector<real> xv(x, x + VP_N), wv(w, w + VP_N); EQ("vectors", integral_gauss(f, xv, wv), IN(1) * (s * IN(0) + t)); EQ("weight", integral_gauss(f, x, w, VP_N, [](real) { return IN(2); }), IN(2) * IN(1) * (s * IN(0) + t)); EQ("Legendre", integral_legendre(f, -2, 6, x, w, VP_N), 4 * IN(1) * (4 * (s * IN(0) + t) + 2 * s)); }
