// P29: numerical methods reach the answer within tolerance on families of problems with a known solution
#include "la.h"
static real fq(real x) { return x * x - IN(0); }
static real dq(real x) { return 2 * x; }
static real ddq(real x) { return 2; }
static real fc(real x) { return x * x * x - IN(0); }
static real dc(real x) { return 3 * x * x; }
static real ddc(real x) { return 6 * x; }
static real fe(real x) { return REF_exp(x) - IN(0); }
static real de(real x) { return REF_exp(x); }
static real fh(real x) { return IN(0) / x - 2; }
static dual dualq(dual x) { return x * x - IN(0); }
static dual2 dual2c(dual2 x) { return x * x * x - IN(0); }
static real bump(real x) { return -(x - IN(0)) * (x - IN(0)); }
static real bowl(real x) { return (x - IN(0)) * (x - IN(0)) / 2; }
static real dbowl(real x) { return x - IN(0); }
static real dbump(real x) { return 2 * (IN(0) - x); }
static real mtwo(real x) { return -2; }
static real done(real x) { return 1; }
static real cosx(real x) { return REF_cos(x); }
static real expx(real x) { return REF_exp(x); }
static real sinx(real x) { return REF_sin(x); }
static real cosa(real x) { return REF_cos(IN(0) * x); }
static real expa(real x) { return REF_exp(-IN(0) * x); }
typedef multidual<2> D;
typedef vec<real, 2> V2;
static D quad(vec<D, 2> v) { return (v[0] - IN(0)) * (v[0] - IN(0)) + 2.0 * (v[1] + IN(0)) * (v[1] + IN(0)); }
static D hill(vec<D, 2> v) { return -((v[0] - IN(0)) * (v[0] - IN(0)) + 2.0 * (v[1] + IN(0)) * (v[1] + IN(0))); }
static vec<D, 2> curves(vec<D, 2> v) { vec<D, 2> w; w[0] = v[0] * v[0] - IN(0); w[1] = v[0] * v[1] - 1.0; return w; }
#define A IN(0)
// --- newton | src/optimization/roots.h root_newton | square roots by Newton's method | box=0:1.1:2;0:2:4;0:0.3:0.9
NEAR("Newton", root_newton(fq, dq, 1.0, 1e-6, 12), REF_sqrt(A), 1e-6); NEAR("dual", root_newton(dualq, 1.0, 1e-6, 12), REF_sqrt(A), 1e-6);
// --- newton_exp | src/optimization/roots.h root_newton | logarithms by Newton's method | box=0:0.5:0.9;0:1.1:2;0:2:4
NEAR("Newton", root_newton(fe, de, 0.5, 1e-6, 14), REF_ln(A), 1e-6);
// --- halley | src/optimization/roots.h root_halley | cubic roots by Halley's method | gaps=1 deg=4 box=0:1.1:2;0:2:4;0:0.3:0.9
NEAR("Halley", root_halley(fc, dc, ddc, 1.0, 1e-6, 10), REF_cbrt(A), 1e-6);
// --- halley_dual | src/optimization/roots.h root_halley | cubic roots by Halley's method with automatic differentiation | gaps=1 deg=4 box=0:1.4:1.5;0:3:3.1;0:0.6:0.65
NEAR("dual", root_halley(dual2c, 1.0, 1e-4, 6), REF_cbrt(A), 1e-6);
// --- chebyshev | src/optimization/roots.h root_chebyshev | cubic roots by Chebyshev's method | gaps=1 deg=4 box=0:1.1:2;0:2:2.5;0:0.5:0.9
NEAR("Chebyshev", root_chebyshev(fc, dc, ddc, 1.0, 1e-4, 8), REF_cbrt(A), 1e-6);
// --- chebyshev_dual | src/optimization/roots.h root_chebyshev | cubic roots by Chebyshev's method with automatic differentiation | gaps=1 deg=4 box=0:1.4:1.5;0:2:2.1;0:0.6:0.65
NEAR("dual", root_chebyshev(dual2c, 1.0, 1e-4, 8), REF_cbrt(A), 1e-6);
// --- steffensen | src/optimization/roots.h root_steffensen | square roots by Steffensen's method | gaps=1 deg=4 box=0:1.4:2;0:2.5:3
NEAR("Steffensen", root_steffensen(fq, 1.5, 1e-2, 6), REF_sqrt(A), 1e-3);
// --- ostrowski | src/optimization/roots.h root_ostrowski, root_jarrat | square roots by Ostrowski's and Jarrat's methods | gaps=1 deg=4 box=0:1.1:2;0:3:3.2;0:0.3:0.9
NEAR("Ostrowski", root_ostrowski(fq, dq, 1.0, 1e-2, 5), REF_sqrt(A), 1e-5); NEAR("Jarrat", root_jarrat(fq, dq, 1.0, 1e-2, 5), REF_sqrt(A), 1e-5);
// --- bisect | src/optimization/roots.h root_bisect | bisection stays within its tolerance | gaps=1 deg=4 box=0:0.1:1;0:1:2;0:5:7
NEAR("increasing", root_bisect(fq, 0.0, 3.0, 0.1), REF_sqrt(A), 0.2); NEAR("decreasing", root_bisect(fh, 0.01, 7.0, 0.3), A / 2, 0.6);
// --- itp | src/optimization/roots.h root_itp | the ITP method stays within its tolerance | gaps=1 deg=4 box=0:0.3:1;0:1:4;0:4:8.5
NEAR("increasing", root_itp(fq, 0.0, 3.0, 0.05), REF_sqrt(A), 0.05);
// --- golden | src/optimization/extrema.h | golden section search stays within its tolerance | def=THEORETICA_OPTIMIZATION_TOL=0.1,THEORETICA_OPTIMIZATION_GOLDENSECTION_ITER=12 gaps=1 deg=4 box=0:-0.9:0;0:0:1;0:1:1.9
NEAR("maximum", maximize_goldensection(bump, -1.0, 2.0), A, 0.05); NEAR("minimum", minimize_goldensection(bowl, -1.0, 2.0), A, 0.05);
// --- extrema | src/optimization/extrema.h | extrema from the derivatives | def=THEORETICA_OPTIMIZATION_TOL=0.1,THEORETICA_OPTIMIZATION_NEWTON_ITER=6,THEORETICA_OPTIMIZATION_BISECTION_ITER=7 gaps=1 deg=4 box=0:-0.9:-0.7;0:0.6:0.8;0:1.3:1.45
NEAR("Newton maximum", maximize_newton(bump, dbump, mtwo, 7), A, 0.05); NEAR("Newton minimum", minimize_newton(bowl, dbowl, done, 7), A, 0.05); NEAR("bisection maximum", maximize_bisection(bump, dbump, -1.0, 2.0), A, 0.2); NEAR("bisection minimum", minimize_bisection(bowl, dbowl, -1.0, 2.0), A, 0.2);
// --- quadrature | src/calculus/integral.h | composite rules on a smooth function | box=0:0.1:1;0:1:3;0:-2:-0.1
const real s = REF_sin(A);
NEAR("midpoint", integral_midpoint(cosx, 0, A, 20), s, 0.004); NEAR("trapezoid", integral_trapezoid(cosx, 0, A, 20), s, 0.008); NEAR("Simpson", integral_simpson(cosx, 0, A, 20), s, 1e-5);
// --- romberg | src/calculus/integral.h integral_romberg | Romberg's method on a smooth function | box=0:0.1:1;0:1:2;0:-2:-0.1
NEAR("Romberg", integral_romberg(cosx, 0, A, 5), REF_sin(A), 1e-9);
// --- romberg_tol | src/calculus/integral.h integral_romberg_tol, integral | Romberg's method to a tolerance | unroll=100 deg=4 box=0:0.5:0.5001;0:1.5:1.5001;0:-1.0001:-1
NEAR("tolerance", integral_romberg_tol(cosx, 0, A, 1e-3), REF_sin(A), 1e-3); NEAR("default", integral(cosx, 0, A, 1e-3), REF_sin(A), 1e-3);
// --- legendre | src/calculus/integral.h integral_legendre | Gauss-Legendre quadrature on smooth functions | box=0:0.1:1;0:1:4;0:-3:-0.1
NEAR("cosine", integral_legendre(cosx, 0, A, 16), REF_sin(A), 1e-10); NEAR("exponential", integral_legendre(expx, 0, A, 16), REF_exp(A) - 1, 1e-10); NEAR("cosine 8", integral_legendre(cosx, 0, A, 8), REF_sin(A), 1e-6);
// --- laguerre | src/calculus/integral.h integral_laguerre, integral_hermite | quadratures on infinite intervals | box=0:0:0.25;0:0.25:0.5
NEAR("Laguerre", integral_laguerre(cosa, 16), 1 / (1 + A * A), 1e-6); NEAR("Hermite", integral_hermite(cosa, 16), 1.7724538509055160 * REF_exp(-A * A / 4), 1e-9);
// --- riemann | src/calculus/integral.h integral_inf_riemann | integral up to infinity by steps | unroll=100 deg=4 box=0:2.5:2.5001;0:3:3.0001
NEAR("infinite", integral_inf_riemann(expa, 0, 1, 1e-3, 10), 1 / A, 2e-3);
// --- derivatives | src/calculus/deriv.h | finite differences of a smooth function | box=0:-3:0;0:0:3
const real c = REF_cos(A);
NEAR("central", deriv_central(sinx, A, 1.0 / 128), c, 2e-5); NEAR("forward", deriv_forward(sinx, A, 1.0 / 128), c, 5e-3); NEAR("backward", deriv_backward(sinx, A, 1.0 / 128), c, 5e-3); NEAR("ridders2", deriv_ridders2(sinx, A, 1.0 / 128), c, 1e-9); NEAR("ridders", deriv_ridders(sinx, A), c, 1e-11); NEAR("ridders 4", deriv_ridders(sinx, A, 1.0 / 16, 4), c, 1e-10); NEAR("default", deriv(sinx, A, 1.0 / 128), c, 1e-9); NEAR("second", deriv2(sinx, A, 1.0 / 128), -REF_sin(A), 1e-5);
// --- pvalue | src/statistics/statistics.h pvalue_chi_squared | tail of the chi-squared distribution | box=0:0.5:2;0:2:8;0:8:30
const real x = A, e = REF_exp(-x / 2);
NEAR("2", stats::pvalue_chi_squared(x, 2), e, 1e-9); NEAR("4", stats::pvalue_chi_squared(x, 4), e * (1 + x / 2), 1e-9); NEAR("6", stats::pvalue_chi_squared(x, 6), e * (1 + x / 2 + x * x / 8), 1e-9);
// --- ode | src/calculus/ode.h | exponential growth | box=0:-1:0;0:0:1
{ auto f = [](real t, const vec<real, 1>& y) { return vec<real, 1>({A * y[0]}); }; vec<real, 1> y0 = {1}; const real e = REF_exp(A);
#define LAST(s) ((s).x[(s).x.size() - 1][0])
NEAR("Euler", LAST(ode::solve_euler(f, y0, 0, 1, 0.125)), e, 0.16); NEAR("midpoint", LAST(ode::solve_midpoint(f, y0, 0, 1, 0.125)), e, 7e-3); NEAR("Heun", LAST(ode::solve_heun(f, y0, 0, 1, 0.125)), e, 7e-3); NEAR("RK2", LAST(ode::solve_rk2(f, y0, 0, 1, 0.125)), e, 7e-3); NEAR("RK4", LAST(ode::solve_rk4(f, y0, 0, 1, 0.125)), e, 6e-6); NEAR("k38", LAST(ode::solve_k38(f, y0, 0, 1, 0.125)), e, 6e-6); }
// --- eigen | src/algebra/algebra.h eigenvalue_power, eigenvalue_inverse, eigenvalue_rayleigh | eigenvalues of a family of symmetric matrices | gaps=1 deg=5 box=0:0.5:1
{ mat<real, 2, 2> M; M(0, 0) = 4; M(0, 1) = M(1, 0) = A; M(1, 1) = 1; const vec<real, 2> v = {1, 0.5}, w = {-0.25, 1}; const real r = REF_sqrt(9 + 4 * A * A); vec<real, 2> u = v;
NEAR("power", algebra::eigenvalue_power(M, v, 1e-3, 12), (5 + r) / 2, 1e-3); NEAR("power pair", algebra::eigenpair_power(M, v, u, 1e-3, 12), (5 + r) / 2, 1e-3); NEAR("power vector", (4 - (5 + r) / 2) * u[0] + A * u[1], 0, 3e-3); NEAR("inverse", algebra::eigenvalue_inverse(M, w, 1e-3, 12), (5 - r) / 2, 1e-3); }
// --- eigen_rayleigh | src/algebra/algebra.h eigenvalue_rayleigh | Rayleigh quotient iteration on a family of symmetric matrices | gaps=1 deg=5 box=0:0.9:1
{ mat<real, 2, 2> M; M(0, 0) = 4; M(0, 1) = M(1, 0) = A; M(1, 1) = 1; const vec<real, 2> v = {1, 0.5}; const real r = REF_sqrt(9 + 4 * A * A);
NEAR("Rayleigh", algebra::eigenvalue_rayleigh(M, real(5), v, 0.05, 6), (5 + r) / 2, 1e-3); }
// --- gradient | src/optimization/multi_extrema.h | gradient descent on a quadratic bowl | gaps=1 deg=4 box=0:0.5:1;0:-1:-0.5
{ const V2 x = multi_minimize_grad<2>(quad, V2({0, 0}), -0.2, 1e-2, 30), y = multi_maximize_grad<2>(hill, V2({0, 0}), -0.2, 1e-2, 30); NEAR("minimum x", x[0], A, 6e-3); NEAR("minimum y", x[1], -A, 6e-3); NEAR("maximum x", y[0], A, 6e-3); NEAR("maximum y", y[1], -A, 6e-3); }
// --- multiroot | src/optimization/multi_roots.h multiroot_newton | Newton's method on a system of two equations | gaps=1 deg=4 box=0:1.1:1.5;0:0.6:0.9
{ const V2 x = multiroot_newton<2>(curves, V2({1, 1}), 1e-3, 6); NEAR("x", x[0], REF_sqrt(A), 1e-6); NEAR("y", x[1] * REF_sqrt(A), 1, 1e-6); }
// --- interpolation | src/interpolation/polynomial.h | interpolation of a smooth function over the whole interval | opaque=cos box=0:0:0.5;0:0.5:1.5;0:1.5:3
{ const polynomial<real> g = interpolate_grid(sinx, 0, 3, 6), c = interpolate_chebyshev(sinx, 0, 3, 6); NEAR("grid", g(A), REF_sin(A), 2e-3); NEAR("Chebyshev", c(A), REF_sin(A), 2e-3); }
// --- splines | src/interpolation/splines.h cubic_splines | natural splines of a smooth function over the whole interval | box=0:0.1:0.7;0:0.9:1.5;0:1.7:2.3;0:2.5:3.1
{ std::vector<real> X(5), Y(5); for(unsigned i = 0; i < 5; i++) { X[i] = 0.8 * i; Y[i] = REF_sin(0.8 * i); } const std::vector<spline_node> n = cubic_splines(X, Y); const spline s(X, Y); const real t = A; const unsigned k = t < 0.8 ? 0 : t < 1.6 ? 1 : t < 2.4 ? 2 : 3; NEAR("value", s(t), REF_sin(t), 0.05); NEAR("derivative", s.deriv(t), REF_cos(t), 0.2); NEAR("node", n[k](t), REF_sin(t), 0.05); }
// --- oscillator | src/calculus/ode.h | harmonic oscillator of any frequency | deg=5 box=0:0.5:1;0:1:2
{ auto f = [](real t, const vec<real, 2>& y) { return vec<real, 2>({y[1], -A * A * y[0]}); }; vec<real, 2> y0 = {1, 0};
auto r = ode::solve_rk4(f, y0, 0, 1, 0.125); auto k = ode::solve_k38(f, y0, 0, 1, 0.125);
NEAR("RK4 x", r.x[r.x.size() - 1][0], REF_cos(A), 1e-4); NEAR("RK4 v", r.x[r.x.size() - 1][1], -A * REF_sin(A), 2e-4); NEAR("3/8 x", k.x[k.x.size() - 1][0], REF_cos(A), 1e-4); NEAR("end", r.t[r.t.size() - 1], 1, 1e-9); }
