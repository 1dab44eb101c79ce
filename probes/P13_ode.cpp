#include "la.h"
typedef vec<real, 2> V2;
typedef vec<real> VD;
// an arbitrary system of two equations: every stage must use exactly its own time and state
static V2 F(real t, const V2& x) { return V2({UFC(t, x[0], x[1]), UFD(t, x[0], x[1])}); }
static VD FD(real t, const VD& x) { VD r(2); r[0] = UFC(t, x[0], x[1]); r[1] = UFD(t, x[0], x[1]); return r; }
static real F1(real t, const real& x) { return UFA(t, x); }
#define T IN(0)
#define H IN(1)
// quadrature order: x' = polynomial in t
template<unsigned N> static real FT(real t, const real& x) { real s = 0, p = 1; for(unsigned i = 0; i < N; i++) { s += IN(20 + i) * p; p *= t; } return s; }
static inline real prim(unsigned n, real x) { real s = 0, p = x; for(unsigned i = 0; i < n; i++) { s += IN(20 + i) * p / (i + 1); p *= x; } return s; }
// linear order: x' = a x + b t + c, for which the Taylor coefficients of the flow are known
static real FL(real t, const real& x) { return IN(10) * x; }
template<typename S> static inline V2 ref(S s) { return s; }
// --- stages | src/calculus/ode.h | every stage is evaluated at the time and state of the method, for an arbitrary system
{ const real t = T, h = H; const V2 x = {IN(2), IN(3)};
{ const V2 r = ode::step_euler(F, x, t, h), k = F(t, x); for(int i = 0; i < 2; i++) EQ("euler", r[i], x[i] + h * k[i]); }
{ const V2 r = ode::step_midpoint(F, x, t, h), k1 = F(t, x), k2 = F(t + h / 2, V2({x[0] + h / 2 * k1[0], x[1] + h / 2 * k1[1]})); const V2 q = ode::step_rk2(F, x, t, h); for(int i = 0; i < 2; i++) { EQ("midpoint", r[i], x[i] + h * k2[i]); EQ("rk2", q[i], x[i] + h * k2[i]); } }
{ const V2 r = ode::step_heun(F, x, t, h), k1 = F(t, x), k2 = F(t + h, V2({x[0] + h * k1[0], x[1] + h * k1[1]})); for(int i = 0; i < 2; i++) EQ("heun", r[i], x[i] + h / 2 * (k1[i] + k2[i])); }
{ const V2 r = ode::step_rk4(F, x, t, h), k1 = F(t, x), k2 = F(t + h / 2, V2({x[0] + h / 2 * k1[0], x[1] + h / 2 * k1[1]})), k3 = F(t + h / 2, V2({x[0] + h / 2 * k2[0], x[1] + h / 2 * k2[1]})), k4 = F(t + h, V2({x[0] + h * k3[0], x[1] + h * k3[1]})); for(int i = 0; i < 2; i++) EQ("rk4", r[i], x[i] + h / 6 * (k1[i] + 2 * k2[i] + 2 * k3[i] + k4[i])); }
{ const V2 r = ode::step_k38(F, x, t, h), k1 = F(t, x), k2 = F(t + h / 3, V2({x[0] + h / 3 * k1[0], x[1] + h / 3 * k1[1]})), k3 = F(t + 2 * h / 3, V2({x[0] + h * (k2[0] - k1[0] / 3), x[1] + h * (k2[1] - k1[1] / 3)})), k4 = F(t + h, V2({x[0] + h * (k1[0] - k2[0] + k3[0]), x[1] + h * (k1[1] - k2[1] + k3[1])})); for(int i = 0; i < 2; i++) EQ("k38", r[i], x[i] + h / 8 * (k1[i] + 3 * k2[i] + 3 * k3[i] + k4[i])); } }
// --- dynamic | src/calculus/ode.h | dynamically sized and scalar states give the same step
{ const real t = T, h = H; const V2 x = {IN(2), IN(3)}; VD y(2); y[0] = IN(2); y[1] = IN(3);
#define DY(S) { const V2 r = ode::step_##S(F, x, t, h); const VD q = ode::step_##S(FD, y, t, h); EQI(#S " size", q.size(), 2); for(int i = 0; i < 2; i++) EQ(#S, q[i], r[i]); }
DY(euler) DY(midpoint) DY(heun) DY(rk2) DY(rk4) DY(k38) }
// --- scalar | src/calculus/ode.h | scalar equations
{ const real t = T, h = H, x = IN(2), k1 = UFA(t, x); EQ("euler", ode::step_euler(F1, x, t, h), x + h * k1); const real m = UFA(t + h / 2, x + h / 2 * k1); EQ("midpoint", ode::step_midpoint(F1, x, t, h), x + h * m); EQ("rk2", ode::step_rk2(F1, x, t, h), x + h * m); EQ("heun", ode::step_heun(F1, x, t, h), x + h / 2 * (k1 + UFA(t + h, x + h * k1))); const real k3 = UFA(t + h / 2, x + h / 2 * m), k4 = UFA(t + h, x + h * k3); EQ("rk4", ode::step_rk4(F1, x, t, h), x + h / 6 * (k1 + 2 * m + 2 * k3 + k4)); }
// --- quadrature | src/calculus/ode.h | steps integrate polynomials in time exactly up to the order of the method
{ const real t = T, h = H, x = IN(2); EQ("euler", ode::step_euler(FT<1>, x, t, h), x + prim(1, t + h) - prim(1, t)); EQ("midpoint", ode::step_midpoint(FT<2>, x, t, h), x + prim(2, t + h) - prim(2, t)); EQ("heun", ode::step_heun(FT<2>, x, t, h), x + prim(2, t + h) - prim(2, t)); EQ("rk2", ode::step_rk2(FT<2>, x, t, h), x + prim(2, t + h) - prim(2, t)); EQ("rk4", ode::step_rk4(FT<4>, x, t, h), x + prim(4, t + h) - prim(4, t)); EQ("k38", ode::step_k38(FT<4>, x, t, h), x + prim(4, t + h) - prim(4, t));
EQ("adams2", ode::step_adams2(FT<2>, IN(3), t - h, x, t, h), x + prim(2, t + h) - prim(2, t)); EQ("adams3", ode::step_adams3(FT<3>, IN(3), t - 2 * h, IN(4), t - h, x, t, h), x + prim(3, t + h) - prim(3, t)); }
// --- linear | src/calculus/ode.h | steps reproduce the Taylor series of the exponential up to the order of the method
{ const real t = T, h = H, x = IN(2), z = h * IN(10), o2 = x * (1 + z + z * z / 2), o4 = x * (1 + z + z * z / 2 + z * z * z / 6 + z * z * z * z / 24); EQ("euler", ode::step_euler(FL, x, t, h), x * (1 + z)); EQ("midpoint", ode::step_midpoint(FL, x, t, h), o2); EQ("heun", ode::step_heun(FL, x, t, h), o2); EQ("rk2", ode::step_rk2(FL, x, t, h), o2); EQ("rk4", ode::step_rk4(FL, x, t, h), o4); EQ("k38", ode::step_k38(FL, x, t, h), o4); }
// --- multistep | src/calculus/ode.h | multistep methods combine the past derivatives
{ const real h = H; const V2 x0 = {IN(2), IN(3)}, x1 = {IN(4), IN(5)}, x2 = {IN(6), IN(7)}; const real t0 = IN(8), t1 = IN(9), t2 = IN(10); const V2 f0 = F(t0, x0), f1 = F(t1, x1), f2 = F(t2, x2); const V2 a = ode::step_adams2(F, x0, t0, x1, t1, h), b = ode::step_adams3(F, x0, t0, x1, t1, x2, t2, h); for(int i = 0; i < 2; i++) { EQ("adams2", a[i], x1[i] + h * (1.5 * f1[i] - 0.5 * f0[i])); EQ("adams3 times 12", 12 * b[i], 12 * x2[i] + h * (23 * f2[i] - 16 * f1[i] + 5 * f0[i])); } }
// --- solve | src/calculus/ode.h | solvers iterate their own stepper from the initial condition over the whole interval
{ const real t = IN(0); const V2 x = {IN(2), IN(3)};
#define SV(S) { const auto s = ode::solve_##S(F, x, 0, 0.5, 0.25); EQI(#S " steps", s.t.size(), 3); EQI(#S " states", s.x.size(), 3); if(s.t.size() == 3 && s.x.size() == 3) { EQ(#S " t0", s.t[0], 0); EQ(#S " t1", s.t[1], 0.25); EQ(#S " t2", s.t[2], 0.5); const V2 a = ode::step_##S(F, x, 0, 0.25), b = ode::step_##S(F, a, 0.25, 0.25); for(int i = 0; i < 2; i++) { EQ(#S " x0", s.x[0][i], x[i]); EQ(#S " x1", s.x[1][i], a[i]); EQ(#S " x2", s.x[2][i], b[i]); } } }
SV(euler) SV(midpoint) SV(heun) SV(rk2) SV(rk4) SV(k38) }
// --- partial | src/calculus/ode.h | a shorter last step lands on the end of the interval
{ const V2 x = {IN(2), IN(3)}; const auto s = ode::solve_rk4(F, x, 1, 1.75, 0.5); EQI("steps", s.t.size(), 3); EQI("states", s.x.size(), 3); if(s.t.size() == 3 && s.x.size() == 3) { EQ("t0", s.t[0], 1); EQ("t1", s.t[1], 1.5); EQ("t2", s.t[2], 1.75); const V2 a = ode::step_rk4(F, x, 1, 0.5), b = ode::step_rk4(F, a, 1.5, 0.25); for(int i = 0; i < 2; i++) { EQ("x0", s.x[0][i], x[i]); EQ("x1", s.x[1][i], a[i]); EQ("x2", s.x[2][i], b[i]); } } const auto e = ode::solve_rk4(F, x, 1, 1, 0.5); EQI("empty interval", e.t.size(), 1); EQ("kept", e.x[0][0], IN(2)); const auto o = ode::solve_rk4(F, x, 1, 1.25, 0.5); EQI("single", o.t.size(), 2); if(o.t.size() == 2) EQ("single end", o.t[1], 1.25); }
// --- solve_scalar | src/calculus/ode.h | solvers of scalar and dynamically sized equations
{ const real x = IN(2); const auto s = ode::solve_euler(F1, x, 0, 0.5, 0.25); EQI("steps", s.x.size(), 3); if(s.x.size() == 3) { const real a = ode::step_euler(F1, x, 0, 0.25); EQ("x1", s.x[1], a); EQ("x2", s.x[2], ode::step_euler(F1, a, 0.25, 0.25)); } VD y(2); y[0] = IN(3); y[1] = IN(4); const auto d = ode::solve_rk2(FD, y, 0, 0.5, 0.25); EQI("dynamic steps", d.x.size(), 3); if(d.x.size() == 3) { const VD a = ode::step_rk2(FD, y, 0, 0.25), b = ode::step_rk2(FD, a, 0.25, 0.25); EQI("dynamic size", d.x[2].size(), 2); if(d.x[2].size() == 2) { EQ("dynamic x0", d.x[2][0], b[0]); EQ("dynamic x1", d.x[2][1], b[1]); } } }
// --- domain | src/calculus/ode.h | reversed intervals and non-positive steps are reported
{ const V2 x = {IN(2), IN(3)}; VD y(2); y[0] = IN(3); y[1] = IN(4); const real z = IN(5);
#define DM(L, E) { errno = 0; const auto s = (E); EQI(L " reported", errno, EINVAL); ISNAN(L, s.t[0]); EQI(L " states", s.x.size(), 1); }
DM("reversed", ode::solve_rk4(F, x, 1, 0.5, 0.25)) DM("zero step", ode::solve_rk4(F, x, 0, 0.5, 0)) DM("negative step", ode::solve_rk4(F, x, 0, 0.5, -0.25)) DM("reversed dynamic", ode::solve_euler(FD, y, 1, 0.5, 0.25)) DM("reversed scalar", ode::solve_heun(F1, z, 1, 0.5, 0.25)) }
// --- grow_steps | src/calculus/ode.h | solutions over any number of steps | n=40 grow=1100
{ auto f = [](real t, const vec<real, 1>& x) { return vec<real, 1>({IN(1) + 2 * t * IN(2)}); }; const vec<real, 1> x0 = {IN(0)}; const real end_ = VP_N + real(0.5);
#define GROW(L, S) { const auto s = ode::S(f, x0, 0, end_, 1); EQI(L " size", s.t.size(), VP_N + 2); EQI(L " states", s.x.size(), VP_N + 2); for(unsigned i : {0u, 1u, VP_N / 2u, VP_N - 1u, VP_N + 0u}) { EQ(L " time", s.t[i], i); EQ(L " state", s.x[i][0], IN(0) + i * IN(1) + real(i) * i * IN(2)); } EQ(L " end", s.t[VP_N + 1], end_); EQ(L " final", s.x[VP_N + 1][0], IN(0) + end_ * IN(1) + end_ * end_ * IN(2)); }
GROW("RK4", solve_rk4) GROW("3/8", solve_k38) GROW("Heun", solve_heun) GROW("midpoint", solve_midpoint) GROW("RK2", solve_rk2) }
// --- intervals | src/calculus/ode.h solve_fixstep | the last step ends at the end of the interval, wherever it lies
{ auto f = [](real t, const vec<real, 1>& x) { return vec<real, 1>({IN(1) + 2 * t * IN(2)}); }; const vec<real, 1> x0 = {IN(0)};
#define INTERVAL(a, b, h, n) { const auto s = ode::solve_rk4(f, x0, a, b, h); EQI(#a " " #b " " #h " size", s.t.size(), n); if(s.t.size() == n) { EQ(#a " " #b " " #h " start", s.t[0], a); EQ(#a " " #b " " #h " end", s.t[n - 1], b); EQ(#a " " #b " " #h " state", s.x[n - 1][0], IN(0) + ((b) - (a)) * IN(1) + ((b) * (b) - (a) * (a)) * IN(2)); EQ(#a " " #b " " #h " step", s.t[1], n == 2 ? (b) : (a) + (h)); } }
INTERVAL(-2., -1., 0.375, 4) INTERVAL(-1., 1., 0.75, 4) INTERVAL(-1., 0., 0.375, 4) INTERVAL(0., 1., 0.375, 4) INTERVAL(1., 2., 0.375, 4) INTERVAL(-3., -1., 0.5, 5) INTERVAL(100., 101., 0.75, 3) INTERVAL(-100., -99., 0.75, 3) INTERVAL(0., 0.25, 0.5, 2) INTERVAL(-0.5, -0.25, 0.5, 2) INTERVAL(2., 4., 2., 2) INTERVAL(-4., 4., 3., 4) INTERVAL(0., 1000., 300., 5) INTERVAL(-0.75, 0.5, 0.5, 4) INTERVAL(5., 5.5, 0.125, 5) INTERVAL(-5., 5.5, 2.5, 6) }
