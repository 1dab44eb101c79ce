#include "la.h"
typedef polynomial<real> P;
typedef vec<real, 2> V2;
#define X IN(0)
#define TOL 0.001
static inline real ab(real x) { return x >= 0 ? x : -x; }
// one iteration allowed: either the start satisfies the tolerance and one step of the method is taken, or the failure is reported
#define STEP1(L, CALL, F, S) { errno = 0; const real r = (CALL); const real f = (F); if(ab(f) > TOL) { const real y = (S), fy = UF1(y); if(ab(fy) > TOL || fy > 0.0 || fy < 0.0) { ISNAN(L " not converged", r); EQI(L " reported", errno, ERANGE); } } else { EQ(L " step", r, S); EQI(L " quiet", errno, 0); } }
#define FX UF1(X)
#define DX UF2(X)
#define HX UF3(X)
// a bracketing method is watched through the function it is given: the last points where the function had either sign bound a root
static real lo_, hi_, pt_[8]; static unsigned np_;
static inline real watch_up(real x) { const real y = x == 0 ? -1 : x == 1 ? 3 : UF1(x); if(np_ < 8) pt_[np_] = x; np_++; if(y > 0) hi_ = x; else if(y < 0) lo_ = x; else lo_ = hi_ = x; return y; }
static inline real watch_dn(real x) { const real y = x == 0 ? 3 : x == 1 ? -1 : UF1(x); if(np_ < 8) pt_[np_] = x; np_++; if(y > 0) lo_ = x; else if(y < 0) hi_ = x; else lo_ = hi_ = x; return y; }
#define WATCH(L, W, CALL) { np_ = 0; errno = 0; const real r = (CALL); if(errno == 0) EQI(L " bracketed", r == lo_ || r == hi_ || r == (lo_ + hi_) / 2, 1); else ISNAN(L " reported", r); }
// --- newton | src/optimization/roots.h | Newton's iteration and its reporting
{ if(UF2(X) > 0.01) STEP1("newton", root_newton(UF1, UF2, X, TOL, 1), FX, X - FX / DX) }
// --- halley | src/optimization/roots.h | Halley's iteration and its reporting
{ if(2 * DX * DX - FX * HX > 0.01) STEP1("halley", root_halley(UF1, UF2, UF3, X, TOL, 1), FX, X - 2 * FX * DX / (2 * DX * DX - FX * HX)) }
// --- chebyshev | src/optimization/roots.h | Chebyshev's iteration and its reporting
{ if(DX > 0.01) STEP1("chebyshev", root_chebyshev(UF1, UF2, UF3, X, TOL, 1), FX, X - FX / DX - FX * FX * HX / (2 * DX * DX * DX)) }
// --- steffensen | src/optimization/roots.h | Steffensen's iteration and its reporting
{ const real g = UF1(X + FX) - FX; if((FX > 0.0001 || FX < -0.0001) && g > 0.00001) STEP1("steffensen", root_steffensen(UF1, X, TOL, 1), FX, X - FX * FX / g) }
// --- ostrowski | src/optimization/roots.h | Ostrowski's iteration and its reporting
{ const real u = FX / DX, fu = UF1(X - u); if(DX > 0.01 && FX - 2 * fu > 0.00001) STEP1("ostrowski", root_ostrowski(UF1, UF2, X, TOL, 1), FX, X - u - fu / DX * FX / (FX - 2 * fu)) }
// --- jarrat | src/optimization/roots.h | Jarrat's iteration and its reporting
{ const real u = FX / DX, du = UF2(X - 2 * u / 3); if(DX > 0.01 && DX - 3 * du > 0.01) STEP1("jarrat", root_jarrat(UF1, UF2, X, TOL, 1), FX, X - u / 2 + FX / (DX - 3 * du)) }
// --- linear | src/optimization/roots.h | linear equations are solved by one step of every derivative based method
{ const real a = IN(1), b = IN(2); static real s[2]; if(a > 0.5 && b > 0.5 && b < 2 && a < 2) { auto f = [](real x) { return IN(1) * x - IN(2); }; errno = 0;
#define LIN(L, E) { const real r = (E); if(r == r) EQ(L, r * a, b); }
EQ("newton", a * root_newton<real(*)(real)>(f, [](real) { return IN(1); }, 0.0, TOL, 3), b); EQ("halley", a * root_halley<real(*)(real)>(f, [](real) { return IN(1); }, [](real) { return real(0); }, 0.0, TOL, 3), b); EQ("chebyshev", a * root_chebyshev<real(*)(real)>(f, [](real) { return IN(1); }, [](real) { return real(0); }, 0.0, TOL, 3), b); EQ("steffensen", a * root_steffensen<real(*)(real)>(f, 0.0, TOL, 3), b); EQ("jarrat", a * root_jarrat<real(*)(real)>(f, [](real) { return IN(1); }, 0.0, TOL, 3), b); EQ("ostrowski", a * root_ostrowski<real(*)(real)>(f, [](real) { return IN(1); }, 0.0, TOL, 3), b); EQI("quiet", errno, 0); } }
// --- linear_dual | src/optimization/roots.h | automatic differentiation overloads solve linear equations
{ const real a = IN(1), b = IN(2); if(a > 0.5 && b > 0.5) { errno = 0; EQ("newton", a * root_newton([](dual x) -> dual { return x * IN(1) - IN(2); }, 0.0, TOL, 3), b); EQ("halley", a * root_halley([](dual2 x) -> dual2 { return x * IN(1) - IN(2); }, 0.0, TOL, 3), b); EQ("chebyshev", a * root_chebyshev([](dual2 x) -> dual2 { return x * IN(1) - IN(2); }, 0.0, TOL, 3), b); EQI("quiet", errno, 0); } }
// --- newton_dual | src/optimization/roots.h | automatic differentiation overloads take the step of the method
{ const real a = IN(1), b = IN(2), x = IN(3), f = a * x * x - b, d = 2 * a * x, h = 2 * a; if(d > 0.01) { errno = 0; const real r = root_newton([](dual x) -> dual { return x * x * IN(1) - IN(2); }, x, TOL, 0); if(f > TOL) { ISNAN("newton", r); EQI("newton reported", errno, ERANGE); } } if(f > 0 && f < TOL && d > 0.01) { EQ("newton step", root_newton([](dual x) -> dual { return x * x * IN(1) - IN(2); }, x, TOL, 1), x - f / d); EQ("chebyshev step", root_chebyshev([](dual2 x) -> dual2 { return x * x * IN(1) - IN(2); }, x, TOL, 1), x - f / d - f * f * h / (2 * d * d * d)); if(2 * d * d - f * h > 0.001) EQ("halley step", root_halley([](dual2 x) -> dual2 { return x * x * IN(1) - IN(2); }, x, TOL, 1), x - 2 * f * d / (2 * d * d - f * h)); } }
// --- exact | src/optimization/roots.h | a guess that is an exact root is returned unchanged
{ const real x = X; errno = 0; static real c; 
#define EXA(L, E) { errno = 0; const real r = (E); EQ(L, r, x); EQI(L " quiet", errno, 0); }
typedef real (*RF)(real); RF f = [](real y) { return (y - X) * (y - X); }, d = [](real y) { return 2 * (y - X); }, h = [](real) { return real(2); }; EXA("newton", root_newton<RF>(f, d, x)) EXA("halley", root_halley<RF>(f, d, h, x)) EXA("steffensen", root_steffensen<RF>(f, x)) EXA("chebyshev", root_chebyshev<RF>(f, d, h, x)) EXA("ostrowski", root_ostrowski<RF>(f, d, x)) EXA("jarrat", root_jarrat<RF>(f, d, x)) EXA("newton dual", root_newton([](dual y) -> dual { return (y - X) * (y - X); }, x)) EXA("halley dual", root_halley([](dual2 y) -> dual2 { return (y - X) * (y - X); }, x)) EXA("chebyshev dual", root_chebyshev([](dual2 y) -> dual2 { return (y - X) * (y - X); }, x)) }
// --- cnewton | src/optimization/roots.h | Newton's iteration on complex functions | prune=1
{ typedef cplx (*CF)(cplx); const real a = IN(2), b = IN(3); if(a > 0.5 && b > 0.5 && a < 2 && b < 2) { const cplx g(0, 0); errno = 0; CF f = [](cplx z) { return z - cplx(IN(2), IN(3)); }, d = [](cplx) { return cplx(1, 0); }; const cplx r = root_newton<real, CF>(f, d, g, TOL, 3); EQ("re", r.Re(), a); EQ("im", r.Im(), b); EQI("quiet", errno, 0); CF k = [](cplx) { return cplx(1, 1); }; errno = 0; const cplx e = root_newton<real, CF>(k, d, g, TOL, 2); ISNAN("not converged", e.Re()); EQI("reported", errno, ERANGE); } }
// --- bisect | src/optimization/roots.h | bisection returns a point of the bracket in which the sign changes
{ const real fa = UF1(0), fb = UF1(1), m = UF1(0.5), lo = m * fa > 0 ? 0.5 : 0, hi = m * fa > 0 ? 1 : 0.5, q = UF1((lo + hi) / 2), l2 = q * UF1(lo) > 0 ? (lo + hi) / 2 : lo, h2 = q * UF1(lo) > 0 ? hi : (lo + hi) / 2; if(fa > 0.1 && fb < -0.1 && (m > 0.1 || m < -0.1) && (q > 0.1 || q < -0.1)) { errno = 0; const real r = root_bisect(UF1, 0, 1, 0.3), s = root_bisect(UF1, 0, 1, 0.2), t = root_bisect(UF1, 0, 1, 0.6); if(r < lo) UNREACH("below"); if(r > hi) UNREACH("above"); if(s < l2) UNREACH("below twice"); if(s > h2) UNREACH("above twice"); if(t < 0) UNREACH("below coarse"); if(t > 1) UNREACH("above coarse"); } }
// --- bisect_small | src/optimization/roots.h | an interval already within the tolerance contains the result
{ const real a = IN(0); if(UF1(a) > 0.1 && UF1(a + 1) < -0.1) { const real r = root_bisect(UF1, a, a + 1, 2.0); if(r < a) UNREACH("below"); if(r > a + 1) UNREACH("above"); } }
// --- bisect_domain | src/optimization/roots.h | invalid brackets of bisection are reported | prune=1
{ const real a = IN(0), b = IN(1); if(a > b) { errno = 0; ISNAN("reversed", root_bisect(UF1, a, b, 0.1, 3)); EQI("reversed reported", errno, EINVAL); } if(UF1(0) > 0 && UF1(1) > 0) { errno = 0; ISNAN("same sign", root_bisect(UF1, 0, 1, 0.4, 1)); EQI("same sign reported", errno, EINVAL); } if(UF1(0) < 0 && UF1(1) < 0) { errno = 0; ISNAN("same negative sign", root_bisect(UF1, 0, 1, 0.4, 1)); EQI("same negative sign reported", errno, EINVAL); } }
// --- bisect_limit | src/optimization/roots.h | non-convergence of bisection is reported | prune=1
{ const real a = IN(0); if(a > 0.1 && a < 0.2) { errno = 0; ISNAN("not converged", root_bisect([](real x) { return x - IN(0); }, 0, 1, 0.001, 3)); EQI("not converged reported", errno, ERANGE); errno = 0; const real r = root_bisect([](real x) { return x - IN(0); }, 0, 1, 0.1, 8); EQI("converged", errno, 0); if(r < a - 0.25) UNREACH("below"); if(r > a + 0.25) UNREACH("above"); } }
// --- itp_domain | src/optimization/roots.h | invalid brackets of the ITP method are reported | prune=1
{ const real a = IN(0), b = IN(1); if(a > b) { errno = 0; ISNAN("reversed", root_itp([](real x) { return x; }, a, b, 0.1)); EQI("reversed reported", errno, EINVAL); } }
// --- intervals | src/optimization/roots.h | candidate intervals are exactly the sub-intervals where the sign changes | prune=1
{ const auto n = find_root_intervals(UF1, 0, 1, 2); const real a = UF1(0), b = UF1(0.5), c = UF1(1); if(a > 0.1 && b > 0.1 && c < -0.1) { EQI("second", n.size(), 1); } if(a > 0.1 && b < -0.1 && c < -0.1) { EQI("first", n.size(), 1); } if(a > 0.1 && b < -0.1 && c > 0.1) EQI("both", n.size(), 2); if(a > 0.1 && b > 0.1 && c > 0.1) EQI("none", n.size(), 0); }
// --- roots_edge | src/optimization/roots.h | roots on the edges of the sub-intervals are found exactly once
{ const auto r = roots([](real x) { return x - 1; }, 0, 2, 1e-8, 4); EQI("middle", r.size(), 1); if(r.size() == 1) EQ("middle value", r[0], 1); const auto l = roots([](real x) { return x; }, 0, 2, 1e-8, 4); EQI("left", l.size(), 1); if(l.size() == 1) EQ("left value", l[0], 0); const auto e = roots([](real x) { return x - 2; }, 0, 2, 1e-8, 4); EQI("right", e.size(), 1); if(e.size() == 1) EQ("right value", e[0], 2); const auto two = roots([](real x) { return x * (x - 2); }, 0, 2, 1e-8, 4); EQI("both ends", two.size(), 2); errno = 0; const auto z = roots(UF1, 0, 2, 1e-8, 0); EQI("no steps", errno, ERANGE); ISNAN("no steps nan", z[0]); }
// --- poly_roots | src/optimization/roots.h | roots of polynomials and constants | prune=1
{ errno = 0; const auto c = roots(P({IN(0)})); EQI("constant reported", errno, EINVAL); ISNAN("constant", c[0]); errno = 0; const auto e = roots(P()); EQI("empty reported", errno, EINVAL); ISNAN("empty", e[0]); }
// --- golden | src/optimization/extrema.h | golden section search rejects reversed intervals
{ const real a = IN(0), b = IN(1); if(a > b) { errno = 0; ISNAN("reversed max", maximize_goldensection(UF1, a, b)); EQI("reversed max reported", errno, EINVAL); errno = 0; ISNAN("reversed min", minimize_goldensection(UF1, a, b)); EQI("reversed min reported", errno, EINVAL); } }
// --- extrema_newton | src/optimization/extrema.h | Newton extrema are stationary points of the right curvature
{ typedef real (*RF)(real); const real a = IN(1), b = IN(2); RF f = [](real x) { return IN(1) * x * x / 2 - IN(2) * x; }, d = [](real x) { return IN(1) * x - IN(2); }, h = [](real) { return IN(1); }; if(b > 0.5 && b < 2) { if(a > 0.5 && a < 2) { errno = 0; EQ("minimum", a * minimize_newton<RF>(f, d, h, 0.0), b); EQI("quiet", errno, 0); ISNAN("not a maximum", maximize_newton<RF>(f, d, h, 0.0)); EQI("reported", errno, ERANGE); } if(a < -0.5 && a > -2) { errno = 0; EQ("maximum", a * maximize_newton<RF>(f, d, h, 0.0), b); EQI("quiet maximum", errno, 0); ISNAN("not a minimum", minimize_newton<RF>(f, d, h, 0.0)); EQI("reported minimum", errno, ERANGE); } } }
// --- multi_grad | src/optimization/multi_extrema.h | gradient descent and ascent reach the extremum of a quadratic form in one exact step | prune=1
{ typedef multidual<2> D; const real a = IN(0), b = IN(1); const V2 g = {IN(2), IN(3)}; if(g[0] - a > 0.5 && g[1] - b > 0.5 && g[0] - a < 2 && g[1] - b < 2) { errno = 0; const V2 r = multi_minimize_grad<2>([](vec<D, 2> v) -> D { return (v[0] - IN(0)) * (v[0] - IN(0)) + (v[1] - IN(1)) * (v[1] - IN(1)); }, g, -0.5, 0.001, 4); EQ("minimum x", r[0], a); EQ("minimum y", r[1], b); const V2 s = multi_maximize_grad<2>([](vec<D, 2> v) -> D { return -(v[0] - IN(0)) * (v[0] - IN(0)) - (v[1] - IN(1)) * (v[1] - IN(1)); }, g, -0.5, 0.001, 4); EQ("maximum x", s[0], a); EQ("maximum y", s[1], b); EQI("quiet", errno, 0); const V2 n = multi_minimize_grad<2>([](vec<D, 2> v) -> D { return v[0] * 2.0; }, g, -0.5, 0.001, 1); ISNAN("minimum not converged", n[0]); ISNAN("minimum not converged", n[1]); EQI("minimum reported", errno, ERANGE); errno = 0; const V2 m = multi_maximize_grad<2>([](vec<D, 2> v) -> D { return v[0] * 2.0; }, g, -0.5, 0.001, 1); ISNAN("maximum not converged", m[0]); EQI("maximum reported", errno, ERANGE); } const real c = IN(4); if(c >= 0) { errno = 0; const V2 n = multi_minimize_grad<2>([](vec<D, 2> v) -> D { return v[0] * 2.0; }, g, c, 0.001, 1); ISNAN("positive rate", n[0]); EQI("positive rate reported", errno, EINVAL); errno = 0; const V2 m = multi_maximize_grad<2>([](vec<D, 2> v) -> D { return v[0] * 2.0; }, g, c, 0.001, 1); ISNAN("positive rate maximum", m[0]); EQI("positive rate maximum reported", errno, EINVAL); } }
// --- multi_roots | src/optimization/multi_roots.h | Newton's method solves linear systems in one step and reports failures | prune=1
{ typedef multidual<2> D; const real a = IN(0), b = IN(1), c = IN(2), d = IN(3), p = IN(4), q = IN(5), det = a * d - b * c; if(a > 0.5 && a < 2 && d > 0.5 && d < 2 && p > 0.5 && q > 0.5) { errno = 0; const V2 r = multiroot_newton<2>([](vec<D, 2> v) -> vec<D, 2> { vec<D, 2> w; w[0] = v[0] * IN(0) + v[1] * IN(1) - IN(4); w[1] = v[1] * IN(3) - IN(5); return w; }, V2(0.0), 0.001, 3); EQ("first", a * r[0] + b * r[1], p); EQ("second", d * r[1], q); const V2 n = multiroot_newton<2>([](vec<D, 2> v) -> vec<D, 2> { vec<D, 2> w; w[0] = v[0] * v[0] + 1.0; w[1] = v[1] + 1.0; return w; }, V2(2.0), 0.001, 1); ISNAN("not converged", n[0]); ISNAN("not converged", n[1]); EQI("reported", errno, ERANGE); } }
// --- golden_lin | src/optimization/extrema.h | golden section search on monotone functions | prune=1
{ errno = 0; const real m = minimize_goldensection([=](real x) { return x; }, 0, 1), M = maximize_goldensection([=](real x) { return x; }, 0, 1); EQI("quiet", errno, 0); if(m > 0.001) UNREACH("minimum at the lower extreme"); if(m < 0) UNREACH("minimum inside"); if(M < 0.999) UNREACH("maximum at the upper extreme"); if(M > 1) UNREACH("maximum inside"); const real q = minimize_goldensection([=](real x) { return (x - 0.3) * (x - 0.3); }, 0, 1), Q = maximize_goldensection([=](real x) { return -(x - 0.3) * (x - 0.3); }, 0, 1); if(q < 0.29 || q > 0.31) UNREACH("interior minimum"); if(Q < 0.29 || Q > 0.31) UNREACH("interior maximum"); }
// --- extrema_bisect | src/optimization/extrema.h | bisection extrema have the right curvature | prune=1
{ typedef real (*RF)(real); const real a = IN(1); RF f = [](real x) { return IN(1) * x * x; }, d = [](real x) { return 2 * IN(1) * x; }; if(a > 0.5 && a < 1) { errno = 0; ISNAN("not a maximum", maximize_bisection<RF>(f, d, -1, 2)); EQI("reported", errno, ERANGE); } if(a < -0.5 && a > -1) { errno = 0; ISNAN("not a minimum", minimize_bisection<RF>(f, d, -1, 2)); EQI("reported minimum", errno, ERANGE); } }
// --- itp_watch | src/optimization/roots.h | the ITP method returns a point of the last bracket in which the sign changes | prune=1 fold=log2
{ WATCH("increasing", 1, root_itp(watch_up, 0, 1, 0.26)) EQ("first point", pt_[2], 0.45); }
// --- itp_watch_dn | src/optimization/roots.h | the ITP method on decreasing functions | prune=1 fold=log2
{ WATCH("decreasing", 1, root_itp(watch_dn, 0, 1, 0.25)) EQ("first point", pt_[2], 0.55); }
// --- golden_step | src/optimization/extrema.h | one step of golden section search keeps the side of the extremum | def=THEORETICA_OPTIMIZATION_TOL=0.9
{ const real x3 = 1 - 1 / PHI, x4 = 1 / PHI, f3 = UF1(x3), f4 = UF1(x4); errno = 0; const real m = minimize_goldensection(UF1, 0, 1), M = maximize_goldensection(UF1, 0, 1); EQI("quiet", errno, 0); if(f3 < f4) { EQ("minimum on the left", m, x4 / 2); EQI("maximum on the right", ab(M - (x3 + 1) / 2) < 1E-9, 1); } if(f3 > f4) { EQI("minimum on the right", ab(m - (x3 + 1) / 2) < 1E-9, 1); EQ("maximum on the left", M, x4 / 2); } }
// --- golden_limit | src/optimization/extrema.h | golden section search reports when its iterations are exhausted | def=THEORETICA_OPTIMIZATION_GOLDENSECTION_ITER=1
{ errno = 0; ISNAN("minimum", minimize_goldensection(UF1, 0, 1)); EQI("minimum reported", errno, ERANGE); errno = 0; ISNAN("maximum", maximize_goldensection(UF1, 0, 1)); EQI("maximum reported", errno, ERANGE); }
// --- interval_values | src/optimization/roots.h | candidate intervals have the extremes of the sub-intervals | prune=1
{ const auto n = find_root_intervals(UF1, 0, 1, 2); const real a = UF1(0), b = UF1(0.5), c = UF1(1); if(a > 0.1 && b > 0.1 && c < -0.1 && n.size() == 1) { EQ("second lower", n[0][0], 0.5); EQ("second upper", n[0][1], 1); } if(a > 0.1 && b < -0.1 && c < -0.1 && n.size() == 1) { EQ("first lower", n[0][0], 0); EQ("first upper", n[0][1], 0.5); } if(a > 0.1 && b < -0.1 && c > 0.1 && n.size() == 2) { EQ("both lower", n[1][0], 0.5); EQ("both upper", n[1][1], 1); EQ("both first upper", n[0][1], 0.5); } }
// --- roots_values | src/optimization/roots.h | every sign change yields a root of its own sub-interval
{ const auto r = roots([](real x) { return (x - 1) * (x - 3); }, 0, 4, 1e-8, 4); EQI("two roots", r.size(), 2); if(r.size() == 2) { EQ("first", r[0], 1); EQ("second", r[1], 3); } const auto q = roots([](real x) { return (x - 0.5) * (x - 3.5); }, 0, 4, 1e-8, 4); EQI("two inner roots", q.size(), 2); if(q.size() == 2) { EQI("first inner", q[0] > 0.4999 && q[0] < 0.5001, 1); EQI("second inner", q[1] > 3.4999 && q[1] < 3.5001, 1); } }
// --- roots_poly | src/optimization/roots.h | roots of polynomials inside the bound
{ const auto p = roots(P({-1., 0., 1.})); EQI("number of roots of x^2 - 1", p.size(), 2); if(p.size() == 2) { EQI("lower root", p[0] > -1.0001 && p[0] < -0.9999, 1); EQI("higher root", p[1] > 0.9999 && p[1] < 1.0001, 1); } }
// --- limits | src/optimization/roots.h | a method which converges within its iterations is not reported
{ typedef real (*RF)(real); RF f = [](real x) { return x - X; }, d = [](real) { return real(1); }, h = [](real) { return real(0); }; const real x = X; if(x > 0.5) {
#define LIM(L, E) { errno = 0; const real r = (E); EQ(L, r, x); EQI(L " quiet", errno, 0); }
LIM("newton", root_newton<RF>(f, d, 0, TOL, 1)) LIM("halley", root_halley<RF>(f, d, h, 0, TOL, 1)) LIM("chebyshev", root_chebyshev<RF>(f, d, h, 0, TOL, 1)) LIM("ostrowski", root_ostrowski<RF>(f, d, 0, TOL, 1)) LIM("jarrat", root_jarrat<RF>(f, d, 0, TOL, 1)) LIM("newton dual", root_newton([](dual y) -> dual { return y - X; }, 0, TOL, 1)) LIM("halley dual", root_halley([](dual2 y) -> dual2 { return y - X; }, 0, TOL, 1)) LIM("chebyshev dual", root_chebyshev([](dual2 y) -> dual2 { return y - X; }, 0, TOL, 1)) } }
// --- lingrad | src/optimization/multi_extrema.h | gradient descent with line search moves along the gradient in the direction of the extremum | def=THEORETICA_OPTIMIZATION_TOL=0.9
{ typedef multidual<2> D; const V2 g = {IN(2), IN(3)}; const real x4 = -1 + 1 / PHI; typedef D (*F)(vec<D, 2>); F f = [](vec<D, 2> v) -> D { return v[0] * 1.0; };
#define STEP(L, S, R) { errno = 0; const V2 r = (R); EQI(L " x", S (r[0] - g[0]) > -0.692 && S (r[0] - g[0]) < -0.69, 1); EQ(L " y", r[1], g[1]); EQI(L " quiet", errno, 0); }
STEP("minimum", +, multi_minimize_lingrad<2>(f, g, 3, 3)) STEP("maximum", -, multi_maximize_lingrad<2>(f, g, 3, 3)) STEP("default minimum", +, multi_minimize<2>(f, g, 3)) STEP("default maximum", -, multi_maximize<2>(f, g, 3)) STEP("minimum at the limit", +, multi_minimize_lingrad<2>(f, g, 3, 1)) STEP("maximum at the limit", -, multi_maximize_lingrad<2>(f, g, 3, 1)) }
// --- lingrad_limit | src/optimization/multi_extrema.h | gradient methods report when their iterations are exhausted | def=THEORETICA_OPTIMIZATION_TOL=0.9 prune=1
{ typedef multidual<2> D; typedef D (*F)(vec<D, 2>); F f = [](vec<D, 2> v) -> D { return v[0] * 2.0; }; const V2 g = {IN(2), IN(3)}; errno = 0; const V2 r = multi_minimize_lingrad<2>(f, g, 0.001, 1); ISNAN("minimum", r[0]); ISNAN("minimum", r[1]); EQI("minimum reported", errno, ERANGE); errno = 0; const V2 s = multi_maximize_lingrad<2>(f, g, 0.001, 1); ISNAN("maximum", s[0]); ISNAN("maximum", s[1]); EQI("maximum reported", errno, ERANGE); }
// --- grad_limit | src/optimization/multi_extrema.h | gradient methods which converge within their iterations are not reported | prune=1
{ typedef multidual<2> D; typedef D (*F)(vec<D, 2>); F f = [](vec<D, 2> v) -> D { return v[0] * 0.25; }; const V2 g = {IN(2), IN(3)}; errno = 0; const V2 r = multi_minimize_grad<2>(f, g, -0.5, 0.5, 1); EQ("minimum", r[0], g[0] - 0.125); EQ("minimum", r[1], g[1]); EQI("minimum quiet", errno, 0); errno = 0; const V2 s = multi_maximize_grad<2>(f, g, -0.5, 0.5, 1); EQ("maximum", s[0], g[0] + 0.125); EQ("maximum", s[1], g[1]); EQI("maximum quiet", errno, 0); }
// --- multi_limit | src/optimization/multi_roots.h | Newton's method for systems converges within its iterations without being reported | prune=1
{ typedef multidual<2> D; errno = 0; const V2 r = multiroot_newton<2>([](vec<D, 2> v) -> vec<D, 2> { vec<D, 2> w; w[0] = v[0] - IN(4); w[1] = v[1] - IN(5); return w; }, V2(0.0), 0.001, 2); if(IN(4) > 1 && IN(5) > 1) { EQ("x", r[0], IN(4)); EQ("y", r[1], IN(5)); EQI("quiet", errno, 0); } }
// --- tie | src/optimization/roots.h | the iteration stops when the value equals the tolerance
{ typedef real (*RF)(real); const RF f = [](real x) { return x == X ? real(0.25) : real(-0.25) - (x - X); }, d = [](real) { return real(1); }, h = [](real) { return real(0.5); };
#define TIE(L, C1, C2) { errno = 0; const real r = C1; EQI(L " quiet", errno, 0); EQ(L, r, C2); }
TIE("newton", root_newton<RF>(f, d, X, 0.25, 9), X - real(0.25)) TIE("halley", root_halley<RF>(f, d, h, X, 0.25, 9), root_halley<RF>(f, d, h, X, 1.0, 9)) TIE("chebyshev", root_chebyshev<RF>(f, d, h, X, 0.25, 9), root_chebyshev<RF>(f, d, h, X, 1.0, 9)) TIE("ostrowski", root_ostrowski<RF>(f, d, X, 0.25, 9), root_ostrowski<RF>(f, d, X, 1.0, 9)) TIE("jarrat", root_jarrat<RF>(f, [](real x) { return x == X ? real(1) : real(2); }, X, 0.25, 9), root_jarrat<RF>(f, [](real x) { return x == X ? real(1) : real(2); }, X, 1.0, 9)) TIE("steffensen", root_steffensen<RF>(f, X, 0.25, 9), root_steffensen<RF>(f, X, 1.0, 9)) }
// --- default_guess | src/optimization/multi_extrema.h | iterations without a guess start at zero
{ typedef real (*RF)(real); const RF f = [](real x) { return x == 0 ? real(0) : real(1); }, d = [](real) { return real(1); }; errno = 0; EQ("newton", root_newton<RF>(f, d), 0); EQ("halley", root_halley<RF>(f, d, d), 0); EQ("chebyshev", root_chebyshev<RF>(f, d, d), 0); EQ("steffensen", root_steffensen<RF>(f), 0); EQ("ostrowski", root_ostrowski<RF>(f, d), 0); EQ("jarrat", root_jarrat<RF>(f, d), 0); EQI("quiet", errno, 0);
typedef multidual<2> D; typedef D (*F)(vec<D, 2>); F c = [](vec<D, 2> v) -> D { return v[0] * 0.0 + real(2); }; for(unsigned i = 0; i < 2; i++) { EQ("minimum", multi_minimize_grad<2>(c)[i], 0); EQ("maximum", multi_maximize_grad<2>(c)[i], 0); EQ("line minimum", multi_minimize_lingrad<2>(c)[i], 0); EQ("line maximum", multi_maximize_lingrad<2>(c)[i], 0); EQ("default minimum", multi_minimize<2>(c)[i], 0); EQ("default maximum", multi_maximize<2>(c)[i], 0); } }
// --- grow_intervals | src/optimization/roots.h find_root_intervals | the sign change is found among any number of sub-intervals | n=8 grow=300
{ for(unsigned k : {0u, VP_N / 2u, VP_N - 1u}) { static real r; r = 2 + (k + real(0.5)) / VP_N; typedef real (*RF)(real); const RF f = [](real x) { return x - r; }; const auto v = find_root_intervals<RF>(f, 2, 3, VP_N); EQI("number", v.size(), 1); if(v.size() == 1) { EQ("lower", v[0][0] * VP_N, 2 * VP_N + k); EQ("upper", v[0][1] * VP_N, 2 * VP_N + k + 1); } } }
