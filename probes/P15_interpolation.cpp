#include "la.h"
typedef polynomial<real> P;
typedef vec<real, 3> V3;
#define X0 IN(0)
#define D1 IN(1)
#define D2 IN(2)
#define D3 IN(3)
#define Y(i) IN(10 + (i))
#define NODES const real x0 = X0, x1 = x0 + D1, x2 = x1 + D2, x3 = x2 + D3; const real x[4] = {x0, x1, x2, x3};
#define SORTED if(D1 > 0.01 && D2 > 0.01 && D3 > 0.01)
static inline V3 v3(int b) { return V3({IN(b), IN(b + 1), IN(b + 2)}); }
#define SPLINE_CHECK(s, n) EQI("pieces", s.size(), n); if(s.size() == n) { for(unsigned i = 0; i < n; i++) { EQ("left", s[i](x[i]), Y(i)); EQ("right", s[i](x[i + 1]), Y(i + 1)); EQ("knot", s[i].x, x[i]); if(i + 1 < n) { EQ("slope", s[i].deriv(x[i + 1]), s[i + 1].deriv(x[i + 1])); EQ("curvature", 2 * s[i].c + 6 * s[i].d * (x[i + 1] - x[i]), 2 * s[i + 1].c); } } EQ("natural start", s[0].c, 0); EQ("natural end", 2 * s[n - 1].c + 6 * s[n - 1].d * (x[n] - x[n - 1]), 0); }
// --- lagrange | src/interpolation/polynomial.h | the interpolating polynomial passes through every point | prune=1
{ NODES SORTED { const P a = lagrange_polynomial(std::vector<vec2>({{x0, Y(0)}})), b = lagrange_polynomial(std::vector<vec2>({{x0, Y(0)}, {x1, Y(1)}})), c = lagrange_polynomial(std::vector<vec2>({{x0, Y(0)}, {x1, Y(1)}, {x2, Y(2)}})), d = lagrange_polynomial(std::vector<vec2>({{x2, Y(2)}, {x0, Y(0)}, {x1, Y(1)}})); EQ("one", a(x0), Y(0)); EQI("one degree", a.size(), 1); EQ("two", b(x0), Y(0)); EQ("two end", b(x1), Y(1)); EQI("two degree", b.size(), 2); for(int i = 0; i < 3; i++) { EQ("three", c(x[i]), Y(i)); EQ("unordered", d(x[i]), Y(i)); } EQI("three degree", c.size(), 3); } }
// --- lagrange4 | src/interpolation/polynomial.h | the interpolating polynomial of four points passes through every point | prune=1
{ NODES SORTED { const P c = lagrange_polynomial(std::vector<vec2>({{x0, Y(0)}, {x1, Y(1)}, {x2, Y(2)}, {x3, Y(3)}})); for(int i = 0; i < 4; i++) EQ("four", c(x[i]), Y(i)); EQI("degree", c.size(), 4); } }
// --- lagrange_domain | src/interpolation/polynomial.h | repeated nodes and empty sets are reported | prune=1
{ const real a = IN(0); errno = 0; ISNAN("empty", lagrange_polynomial(std::vector<vec2>())(a)); EQI("empty reported", errno, EINVAL); errno = 0; ISNAN("adjacent", lagrange_polynomial(std::vector<vec2>({{a, Y(0)}, {a, Y(1)}}))(IN(5))); EQI("adjacent reported", errno, EINVAL); errno = 0; ISNAN("distant", lagrange_polynomial(std::vector<vec2>({{a, Y(0)}, {a + 1, Y(1)}, {a, Y(2)}}))(IN(5))); EQI("distant reported", errno, EINVAL); errno = 0; ISNAN("last", lagrange_polynomial(std::vector<vec2>({{a + 2, Y(0)}, {a + 1, Y(1)}, {a + 1, Y(2)}}))(IN(5))); EQI("last reported", errno, EINVAL); errno = 0; lagrange_polynomial(std::vector<vec2>({{a + 2, Y(0)}, {a + 1, Y(0)}, {a + 3, Y(0)}})); EQI("distinct", errno, 0); }
// --- grid | src/interpolation/polynomial.h | interpolation on a grid reproduces the function at the nodes and low degree polynomials everywhere | prune=1
{ const real a = X0, d = D1, b = a + d, t = IN(4); if(d > 0.01) { const P p = interpolate_grid(UF1, a, b, 3), q = interpolate_grid(UF1, a, b, 1), z = interpolate_grid(UF1, a, b, 0); for(int i = 0; i < 4; i++) EQ("nodes", p(a + d * i / 3), UF1(a + d * i / 3)); EQ("linear", q(a), UF1(a)); EQ("linear end", q(b), UF1(b)); EQ("constant", z(t), UF1(a)); EQ("exact", interpolate_grid([](real x) { return IN(20) + x * (IN(21) + x * IN(22)); }, a, b, 2)(t), IN(20) + t * (IN(21) + t * IN(22))); } }
// --- chebyshev_nodes | src/interpolation/polynomial.h | Chebyshev nodes are the images of the roots of the Chebyshev polynomial
{ const real a = X0, b = D1; const auto n = chebyshev_nodes(a, b, 3); EQI("size", n.size(), 3); for(unsigned i = 0; i < 3 && i < n.size(); i++) EQ("node", n[i], (a + b) / 2 + (b - a) / 2 * th::cos(real(2 * i + 1) / 6 * PI)); const auto e = chebyshev_nodes(a, b, 0); EQI("empty", e.size(), 0); const auto o = chebyshev_nodes<vec<real>>(a, b, 2); EQI("vec", o.size(), 2); for(unsigned i = 0; i < 2 && i < o.size(); i++) EQ("vec node", o[i], (a + b) / 2 + (b - a) / 2 * th::cos(real(2 * i + 1) / 4 * PI)); }
// --- lerp | src/interpolation/splines.h | linear interpolation, its inverse and remapping
{ const real a = IN(0), b = IN(1), t = IN(2), c = IN(3), d = IN(4); EQ("lerp", th::lerp(a, b, t), a + (b - a) * t); EQ("start", th::lerp(a, b, 0), a); EQ("end", th::lerp(a, b, 1), b); if(b - a > 0.01) { EQ("inverse", invlerp(a, b, th::lerp(a, b, t)), t); EQ("inverse left", th::lerp(a, b, invlerp(a, b, t)), t); EQ("remap start", remap(a, b, c, d, a), c); EQ("remap end", remap(a, b, c, d, b), d); EQ("remap", remap(a, b, c, d, t) * (b - a), c * (b - t) + d * (t - a)); } const V3 p = v3(5), q = v3(8); const V3 l = th::lerp(p, q, t); for(int i = 0; i < 3; i++) EQ("vector", l[i], p[i] + t * (q[i] - p[i])); }
// --- vec_invlerp | src/interpolation/splines.h | inverse interpolation of vectors with equal components
{ const real a = IN(0), b = IN(1), t = IN(2); if(b - a > 0.01) { const vec<real, 2> p = {a, a}, q = {b, b}, o = {IN(3), IN(4)}, u = {IN(5), IN(6)}; EQ("inverse", invlerp(p, q, t), invlerp(a, b, t)); const vec<real, 2> r = remap(p, q, o, u, t); for(int i = 0; i < 2; i++) EQ("remap", r[i], remap(a, b, o[i], u[i], t)); } }
// --- nlerp | src/interpolation/splines.h | normalised interpolation has unit length and the direction of the interpolation
{ const V3 p = v3(5), q = v3(8); const real t = IN(2); const V3 l = th::lerp(p, q, t); const real n = th::sqrt(l[0] * l[0] + l[1] * l[1] + l[2] * l[2]); if(n > 0.01) { const V3 r = nlerp(p, q, t); for(int i = 0; i < 3; i++) EQ("direction", r[i] * n, l[i]); } }
// --- slerp | src/interpolation/splines.h | spherical interpolation
{ const V3 p = v3(5), q = v3(8); const real t = IN(2), n = p.norm(), m = q.norm(), o = th::acos((p[0] * q[0] + p[1] * q[1] + p[2] * q[2]) / (n * m)), s = th::sin(o); if(n > 0.01 && m > 0.01 && s > 0.01) { const V3 r = slerp(p, q, t), a = slerp(p, q, 0), b = slerp(p, q, 1); for(int i = 0; i < 3; i++) { EQ("formula", r[i] * s, p[i] * th::sin((1 - t) * o) + q[i] * th::sin(t * o)); EQ("start", a[i], p[i]); EQ("end", b[i], q[i]); } } }
// --- slerp_domain | src/interpolation/splines.h | spherical interpolation of null vectors is reported
{ const V3 p = v3(5), z = {0, 0, 0}; errno = 0; const V3 r = slerp(p, z, IN(2)); EQI("second", errno != 0, 1); ISNAN("second nan", r[0]); errno = 0; const V3 s = slerp(z, p, IN(2)); EQI("first", errno != 0, 1); ISNAN("first nan", s[2]); }
// --- smoothstep | src/interpolation/splines.h | smooth steps clamp, interpolate the extremes and have null slope there
{ const real a = IN(0), b = IN(1), x = IN(2), u = (x - a) / (b - a); if(b - a > 0.01) { if(u < 0) { EQ("below", smoothstep(a, b, x), 0); EQ("below er", smootherstep(a, b, x), 0); } if(u > 1) { EQ("above", smoothstep(a, b, x), 1); EQ("above er", smootherstep(a, b, x), 1); } if(u > 0 && u < 1) { EQ("cubic", smoothstep(a, b, x), 3 * u * u - 2 * u * u * u); EQ("quintic", smootherstep(a, b, x), 6 * u * u * u * u * u - 15 * u * u * u * u + 10 * u * u * u); } EQ("start", smoothstep(a, b, a), 0); EQ("end", smoothstep(a, b, b), 1); EQ("start er", smootherstep(a, b, a), 0); EQ("end er", smootherstep(a, b, b), 1); } errno = 0; ISNAN("degenerate", smoothstep(a, a, x)); EQI("reported", errno, ERANGE); errno = 0; ISNAN("degenerate er", smootherstep(a, a, x)); EQI("reported er", errno, ERANGE); }
// --- bezier | src/interpolation/splines.h | Bezier curves are the Bernstein combination of their control points
{ const real t = IN(2), s = 1 - t; const V3 a = v3(5), b = v3(8), c = v3(11), d = v3(14); const V3 q = quadratic_bezier(a, b, c, t), k = cubic_bezier(a, b, c, d, t); for(int i = 0; i < 3; i++) { EQ("quadratic", q[i], s * s * a[i] + 2 * s * t * b[i] + t * t * c[i]); EQ("cubic", k[i], s * s * s * a[i] + 3 * s * s * t * b[i] + 3 * s * t * t * c[i] + t * t * t * d[i]); }
if(t > 0 && t < 1) { const std::vector<V3> p2 = {a, b}, p3 = {a, b, c}, p4 = {a, b, c, d}, p5 = {a, b, c, d, a}; const V3 l = bezier(p2, t), m = bezier(p3, t), n = bezier(p4, t), o = bezier(p5, t); for(int i = 0; i < 3; i++) { EQ("general 2", l[i], s * a[i] + t * b[i]); EQ("general 3", m[i], q[i]); EQ("general 4", n[i], k[i]); EQ("general 5", o[i], s * s * s * s * a[i] + 4 * s * s * s * t * b[i] + 6 * s * s * t * t * c[i] + 4 * s * t * t * t * d[i] + t * t * t * t * a[i]); EQ("points kept", p4[0][i], a[i]); } } }
// --- bezier_domain | src/interpolation/splines.h | parameters outside the unit interval and single points are reported
{ const std::vector<V3> p = {v3(5), v3(8)}, o = {v3(5)}, e; const real t = IN(2); errno = 0; ISNAN("single", bezier(o, t)[0]); EQI("single reported", errno, EINVAL); errno = 0; ISNAN("empty", bezier(e, t)[1]); EQI("empty reported", errno, EINVAL); if(t < 0 || t > 1) { errno = 0; ISNAN("outside", bezier(p, t)[2]); EQI("outside reported", errno, EINVAL); } errno = 0; const V3 a = bezier(p, 0), b = bezier(p, 1); EQI("extremes", errno, 0); EQ("start", a[0], IN(5)); EQ("end", b[0], IN(8)); }
// --- splines1 | src/interpolation/splines.h | a natural cubic spline of two points
{ NODES SORTED { const auto s = cubic_splines(std::vector<vec2>({{x0, Y(0)}, {x1, Y(1)}})); SPLINE_CHECK(s, 1) const auto r = cubic_splines(std::vector<real>({x0, x1}), std::vector<real>({Y(0), Y(1)})); SPLINE_CHECK(r, 1) } }
// --- splines2 | src/interpolation/splines.h | a natural cubic spline of three points interpolates with continuous slope and curvature
{ NODES SORTED { const auto s = cubic_splines(std::vector<vec2>({{x0, Y(0)}, {x1, Y(1)}, {x2, Y(2)}})); SPLINE_CHECK(s, 2) const auto r = cubic_splines(std::vector<real>({x0, x1, x2}), std::vector<real>({Y(0), Y(1), Y(2)})); SPLINE_CHECK(r, 2) } }
// --- splines3 | src/interpolation/splines.h | a natural cubic spline of four points interpolates with continuous slope and curvature
{ NODES SORTED { const auto s = cubic_splines(std::vector<vec2>({{x0, Y(0)}, {x1, Y(1)}, {x2, Y(2)}, {x3, Y(3)}})); SPLINE_CHECK(s, 3) } }
// --- splines3_sets | src/interpolation/splines.h | a natural cubic spline of separate coordinate sets
{ NODES SORTED { const vec<real> X = {x0, x1, x2, x3}, Z = {Y(0), Y(1), Y(2), Y(3)}; const auto s = cubic_splines(X, Z); SPLINE_CHECK(s, 3) } }
// --- spline_eval | src/interpolation/splines.h | a spline evaluates the piece containing the argument
{ NODES SORTED { const std::vector<vec2> p = {{x0, Y(0)}, {x1, Y(1)}, {x2, Y(2)}, {x3, Y(3)}}; const spline s(p); const auto n = cubic_splines(p); const real t = IN(4); for(int i = 0; i < 3; i++) if(t > x[i] && t < x[i + 1]) { EQ("piece", s(t), n[i](t)); EQ("slope", s.deriv(t), n[i].deriv(t)); } if(t < x[0]) { EQ("before", s(t), n[0](t)); EQ("before slope", s.deriv(t), n[0].deriv(t)); } if(t > x[3]) { EQ("after", s(t), n[2](t)); EQ("after slope", s.deriv(t), n[2].deriv(t)); } for(int i = 0; i < 4; i++) EQ("nodes", s(x[i]), Y(i)); } }
// --- spline_node | src/interpolation/splines.h | a node evaluates its cubic and derivative
{ const spline_node n(IN(0), IN(1), IN(2), IN(3), IN(4)); const real t = IN(5), h = t - IN(0); EQ("value", n(t), IN(1) + IN(2) * h + IN(3) * h * h + IN(4) * h * h * h); EQ("slope", n.deriv(t), IN(2) + 2 * IN(3) * h + 3 * IN(4) * h * h); const spline_node z; EQ("default", z(t), 0); }
// --- spline_domain | src/interpolation/splines.h | too few points or sets of different sizes are reported
{ errno = 0; const auto a = cubic_splines(std::vector<vec2>({{IN(0), IN(1)}})); EQI("single reported", errno, EINVAL); ISNAN("single", a[0](IN(2))); errno = 0; const auto e = cubic_splines(std::vector<vec2>()); EQI("empty reported", errno, EINVAL); ISNAN("empty", e[0](IN(2))); errno = 0; const auto b = cubic_splines(std::vector<real>({IN(0)}), std::vector<real>({IN(1)})); EQI("sets reported", errno, EINVAL); ISNAN("sets", b[0](IN(2))); errno = 0; const auto c = cubic_splines(std::vector<real>({IN(0), IN(1), IN(2)}), std::vector<real>({IN(1), IN(3)})); EQI("mismatch reported", errno, EINVAL); ISNAN("mismatch", c[0](IN(2))); const spline s(std::vector<vec2>({{IN(0), IN(1)}})); ISNAN("spline", s(IN(3))); ISNAN("spline slope", s.deriv(IN(3))); }
// --- grow_lagrange | src/interpolation/polynomial.h | the interpolant of any number of points passes through them | n=6 grow=14
{ const unsigned N = VP_N; std::vector<vec2> p(N); for(unsigned i = 0; i < N; i++) p[i] = vec2({real(i), IN(i)}); const polynomial<real> q = lagrange_polynomial(p); for(unsigned i = 0; i < N; i++) EQ("point", q(real(i)), IN(i)); }
// --- grow_splines | src/interpolation/splines.h | splines of any number of points pass through them | n=8 grow=70
{ const unsigned N = VP_N; std::vector<real> gx(N), gy(N); for(unsigned i = 0; i < N; i++) { gx[i] = i; gy[i] = IN(i); } const spline s(gx, gy); const std::vector<spline_node> n = cubic_splines(gx, gy); EQI("pieces", n.size(), N - 1); for(unsigned i = 0; i + 1 < N; i++) if(i < 3 || i + 5 > N) { EQ("left", n[i](real(i)), IN(i)); EQ("right", n[i](real(i + 1)), IN(i + 1)); EQ("spline", s(real(i)), IN(i)); if(i) { EQ("slope", n[i - 1].deriv(real(i)), n[i].deriv(real(i))); EQ("curvature", n[i - 1].c + 3 * n[i - 1].d, n[i].c); } } }
// --- grow_nodes | src/interpolation/polynomial.h | the nodes of any order | n=6 grow=24
{ const real a = 1, b = 3; static real xs[64]; static unsigned m; m = 0; EQI("points of a grid", (interpolate_grid([](real x) { if(m < 64) xs[m] = x; m++; return real(0); }, a, b, VP_N), m), VP_N + 1); for(unsigned i = 0; i <= VP_N; i++) EQ("grid", xs[i] * VP_N, a * (VP_N - i) + b * i);
m = 0; EQI("points of Chebyshev", (interpolate_chebyshev([](real x) { if(m < 64) xs[m] = x; m++; return real(0); }, a, b, VP_N), m), VP_N + 1); const auto n = chebyshev_nodes(a, b, VP_N + 1); EQI("number of nodes", n.size(), VP_N + 1); for(unsigned i = 0; i <= VP_N; i++) { const real c = th::cos(real(2 * i + 1) / real(2 * VP_N + 2) * PI); EQ("sampled", xs[i] * 2, a + b + (b - a) * c); EQ("node", n[i] * 2, a + b + (b - a) * c); } }
