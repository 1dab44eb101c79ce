#include "la.h"
typedef polynomial<real> P;
static inline P mkp(unsigned n, int base) { std::vector<real> c(n); for(unsigned i = 0; i < n; i++) c[i] = IN(base + i); return P(c); }
static inline real co(int base, unsigned n, unsigned i) { return i < n ? IN(base + i) : 0; }
static inline real pe(int base, unsigned n, real x) { real s = 0, p = 1; for(unsigned i = 0; i < n; i++) { s += IN(base + i) * p; p *= x; } return s; }
#define A0 0
#define B0 100
template<unsigned N, unsigned K> static inline void arith() { const P a = mkp(N, A0), b = mkp(K, B0); const unsigned M = N > K ? N : K; 
	const P s = a + b, d = a - b; EQI("sum size", s.size(), M); EQI("difference size", d.size(), M); if(s.size() == M && d.size() == M) for(unsigned i = 0; i < M; i++) { EQ("sum", s[i], co(A0, N, i) + co(B0, K, i)); EQ("difference", d[i], co(A0, N, i) - co(B0, K, i)); }
	P u = a; u += b; P w = a; w -= b; for(unsigned i = 0; i < M && i < u.size(); i++) EQ("sum assign", u[i], co(A0, N, i) + co(B0, K, i)); for(unsigned i = 0; i < M && i < w.size(); i++) EQ("difference assign", w[i], co(A0, N, i) - co(B0, K, i)); EQI("sum assign size", u.size(), M); EQI("difference assign size", w.size(), M);
	const P m = a * b; P mm = a; mm *= b; const unsigned L = N && K ? N + K - 1 : 0; EQI("product size", m.size(), L); EQI("product assign size", mm.size(), L);
	for(unsigned i = 0; i < L && i < m.size(); i++) { real c = 0; for(unsigned j = 0; j <= i; j++) c += co(A0, N, j) * co(B0, K, i - j); EQ("product", m[i], c); if(i < mm.size()) EQ("product assign", mm[i], c); } }
// --- arith_eq | src/polynomial/polynomial.h | ring operations on polynomials of the same size
{ arith<1, 1>(); arith<3, 3>(); }
// --- arith_long | src/polynomial/polynomial.h | ring operations with a longer left operand
{ arith<3, 1>(); arith<4, 2>(); }
// --- arith_short | src/polynomial/polynomial.h | ring operations with a shorter left operand
{ arith<1, 3>(); arith<2, 4>(); }
// --- arith_empty | src/polynomial/polynomial.h | ring operations with empty polynomials
{ arith<0, 0>(); arith<0, 2>(); arith<2, 0>(); }
// --- alias | src/polynomial/polynomial.h | compound assignment of a polynomial to itself
{ P a = mkp(3, A0); a += a; for(unsigned i = 0; i < 3; i++) EQ("double", a[i], 2 * IN(i)); P b = mkp(2, A0); b *= b; EQI("square size", b.size(), 3); EQ("square 0", b[0], IN(0) * IN(0)); EQ("square 1", b[1], 2 * IN(0) * IN(1)); EQ("square 2", b[2], IN(1) * IN(1)); P c = mkp(2, A0); c -= c; EQ("null 0", c[0], 0); EQ("null 1", c[1], 0); }
// --- eval | src/polynomial/polynomial.h | evaluation
{ const real x = IN(50); EQ("empty", P().eval(x), 0); EQ("constant", P(IN(7)).eval(x), IN(7)); EQ("0", mkp(1, A0)(x), pe(A0, 1, x)); EQ("1", mkp(2, A0)(x), pe(A0, 2, x)); EQ("4", mkp(5, A0).eval(x), pe(A0, 5, x)); EQ("7", mkp(8, A0)(x), pe(A0, 8, x)); const cplx z(IN(51), IN(52)); const cplx r = mkp(3, A0).eval(z), q = z * z * IN(2) + z * IN(1) + cplx(IN(0), 0); EQ("complex re", r.Re(), q.Re()); EQ("complex im", r.Im(), q.Im()); }
// --- scalar | src/polynomial/polynomial.h | products, quotients and sums with scalars
{ const real s = IN(60); const P a = mkp(3, A0); const P m = a * s, l = s * a, p = s + a, d = s - a; P ms = a; ms *= s; for(unsigned i = 0; i < 3; i++) { EQ("scale", m[i], s * IN(i)); EQ("scale left", l[i], s * IN(i)); EQ("scale assign", ms[i], s * IN(i)); EQ("add left", p[i], IN(i) + (i ? 0 : s)); EQ("sub left", d[i], (i ? 0 : s) - IN(i)); }
if(s > 0.001 || s < -0.001) { const P q = a / s; P qs = a; qs /= s; for(unsigned i = 0; i < 3; i++) { EQ("quotient", q[i] * s, IN(i)); EQ("quotient assign", qs[i] * s, IN(i)); } } }
// --- scalar_zero | src/polynomial/polynomial.h | division by a null scalar is reported
{ const P a = mkp(2, A0); errno = 0; const P q = a / 0.0; EQI("reported", errno, ERANGE); ISNAN("nan", q(IN(5))); P b = a; errno = 0; b /= 0.0; EQI("assign reported", errno, ERANGE); ISNAN("assign nan", b(IN(5))); errno = 0; const P r = a / P({0.0}); EQI("polynomial reported", errno, ERANGE); ISNAN("polynomial nan", r(IN(5))); errno = 0; const P e = a / P(); EQI("empty reported", errno, ERANGE); ISNAN("empty nan", e(IN(5))); }
// --- division | src/polynomial/polynomial.h | Euclidean division
{ const real x = IN(50), a = IN(0), b = IN(1), c = IN(2), d = IN(3); errno = 0;
{ const P q = P({a, 5, 1}) / P({2, 1}); EQ("monic by linear", q(x), x + 3); }
{ const P q = P({a, 5, 4}) / P({3, 2}); EQ("by linear", q(x), 2 * x - 0.5); }
{ const P q = P({8, 6, 2}) / P({4}); EQ("by constant", 4 * q(x), 8 + 6 * x + 2 * x * x); }
{ const P q = P({a, 3, 6, 3}) / P({0, 0, 1}); EQ("by monomial", q(x), 6 + 3 * x); }
{ const P q = P({a, 9, 7, 3, 1}) / P({1, 1, 1}); EQ("quartic", q(x), x * x + 2 * x + 4); }
{ const P q = P({a, 9, 7, 3, 1, 0}) / P({1, 1, 1, 0, 0}); EQ("padded", q(x), x * x + 2 * x + 4); }
{ const P q = P({a, 3, 0, 0, 1}) / P({1, 0, 1}); EQ("gaps", q(x), x * x - 1); }
{ const P q = P({8}) / P({2}); EQ("constants", q(x), 4); }
{ const P q = P({a, 2}) / P({c, 2, 1}); EQ("lower degree", q(x), 0); }
{ const P q = P() / P({c, 1}); EQ("empty", q(x), 0); }
{ P q = P({a, 5, 1}); q /= P({2, 1}); EQ("assign", q(x), x + 3); }
EQI("not reported", errno, 0); }
// --- order | src/polynomial/polynomial.h | degree and trimming
{ EQI("quadratic", P({1, 2, 3}).find_order(), 2); EQI("trailing", P({1, 2, 0, 0}).find_order(), 1); EQI("gap", P({0, 0, 3}).find_order(), 2); EQI("constant", P({5}).find_order(), 0); EQI("null", P({0, 0}).find_order(), 0); EQI("empty", P().find_order(), 0); P a = {1, 2, 0, 0}; a.trim(); EQI("trim", a.size(), 2); EQ("kept", a[1], 2); P b = {0, 0}; b.trim(); EQI("trim null", b.size(), 0); P c = {0, 0, 7}; c.trim(); EQI("trim nothing", c.size(), 3); P d; d.trim(); EQI("trim empty", d.size(), 0); const real x = IN(0); if(x > 0.5) { EQI("generic", P({x, 0, x, 0}).find_order(), 2); } }
// --- equality | src/polynomial/polynomial.h | comparison ignores trailing null coefficients
{ const real a = IN(0), b = IN(1); const P p = {a, b}; EQI("reflexive", p == p, 1); EQI("padded", p == P({a, b, 0}), 1); EQI("padded left", P({a, b, 0}) == p, 1); EQI("empty", P() == P({0, 0}), 1); EQI("longer", p == P({a, b, 1}), 0); EQI("longer left", P({a, b, 1}) == p, 0); EQI("value", p == P({a, b + 1}), 0); EQI("value 0", p == P({a - 1, b}), 0); EQI("empty differs", P() == P({1}), 0); }
// --- quadratic | src/polynomial/polynomial.h | roots of quadratic polynomials
{ const real p = IN(0), q = IN(1), D = p * p / 4 - q;
if((q > 0.001 || q < -0.001) && p < 1 && p > -1 && (D > 0.001 || D < -0.001)) { const auto r = P({q, p, 1}).quadratic_roots(); const cplx s = r[0] + r[1], m = r[0] * r[1]; EQ("sum re", s.Re(), -p); EQ("sum im", s.Im(), 0); EQ("product re", m.Re(), q); EQ("product im", m.Im(), 0); }
const auto r0 = P({0, p, 1}).quadratic_roots(); EQ("null root", r0[1].Re(), 0); EQ("other root", r0[0].Re(), -p); EQ("null root im", r0[1].Im(), 0); EQ("other root im", r0[0].Im(), 0); }
// --- quadratic_large | src/polynomial/polynomial.h | roots of quadratic polynomials with a large linear term
{ const real p = IN(0), q = IN(1), D = 0.25 - (q / p) / p;
if(p > 1.5 && q > 0.001 && D > 0.001) { const auto r = P({q, p, 1}).quadratic_roots(); if(r[0].sqr_norm() > 0.001) { EQ("sum re", r[0].Re() + r[1].Re(), -p); EQ("sum im", r[0].Im() + r[1].Im(), 0); EQ("product re", r[0].Re() * r[1].Re(), q); EQ("im", r[0].Im(), 0); } } }
// --- quadratic_domain | src/polynomial/polynomial.h | quadratic roots of polynomials of another degree are reported
{ errno = 0; const auto r = P({1, 2}).quadratic_roots(); EQI("linear", errno, EDOM); ISNAN("nan", r[0].Re()); errno = 0; const auto s = P({1, 2, 3, 4}).quadratic_roots(); EQI("cubic", errno, EDOM); ISNAN("nan 1", s[1].Re()); errno = 0; P({1, 2, 3, 0}).quadratic_roots(); EQI("padded", errno, 0); errno = 0; P({4, 2, 2}).quadratic_roots(); EQI("quadratic", errno, 0); }
// --- build | src/polynomial/polynomial.h | construction from roots and monomials
{ const real a = IN(0), b = IN(1), c = IN(2), x = IN(3); EQ("roots", P::from_roots({a, b, c})(x), (x - a) * (x - b) * (x - c)); EQ("no roots", P::from_roots({})(x), 1); EQ("one root", P::from_roots({a})(x), x - a); EQ("monomial", P::monomial(a, 4)(x), a * x * x * x * x); EQ("monomial 0", P::monomial(a, 0)(x), a); EQI("monomial size", P::monomial(a, 4).size(), 5); }
// --- calculus | src/calculus/deriv.h | derivatives and integrals of polynomials
{ const real x = IN(50), y = IN(51); const P p = mkp(5, A0); const P d = deriv(p), I = integral(p); EQI("derivative size", d.size(), 4); EQI("integral size", I.size(), 6); for(unsigned i = 0; i < 4 && i < d.size(); i++) EQ("derivative", d[i], (i + 1) * IN(i + 1)); for(unsigned i = 0; i < 5 && i + 1 < I.size(); i++) EQ("integral", I[i + 1] * (i + 1), IN(i)); EQ("constant", I[0], 0);
EQ("derivative at a point", deriv(p, x), IN(1) + 2 * IN(2) * x + 3 * IN(3) * x * x + 4 * IN(4) * x * x * x); EQ("definite", integral(p, x, y), I(y) - I(x)); EQ("definite formula", integral(p, 0, y), IN(0) * y + IN(1) * y * y / 2 + IN(2) * y * y * y / 3 + IN(3) * y * y * y * y / 4 + IN(4) * y * y * y * y * y / 5); EQ("reversed", integral(p, y, x), -integral(p, x, y)); EQ("inverse", deriv(integral(p))(x), p(x)); EQ("empty at point", deriv(P(), x), 0); EQ("constant at point", deriv(P({IN(0)}), x), 0); EQ("constant derivative", deriv(P({IN(0)}))(x), 0); EQ("empty definite", integral(P(), x, y), 0); EQ("empty integral", integral(P())(x), 0); }
// --- taylor | src/calculus/taylor.h | Taylor expansions match value and derivatives at the center
{ const real x0 = IN(0), a = IN(1), b = IN(2); const P l = taylor::expand_linear([=](dual x) { return x * x * a + x * b; }, x0), q = taylor::expand_quadratic([=](dual2 x) { return x * x * x * a + x * b; }, x0); EQ("value", l(x0), a * x0 * x0 + b * x0); EQ("slope", deriv(l, x0), 2 * a * x0 + b); EQ("value 2", q(x0), a * x0 * x0 * x0 + b * x0); EQ("slope 2", deriv(q, x0), 3 * a * x0 * x0 + b); EQ("curvature", deriv(deriv(q), x0), 6 * a * x0); EQI("degree", l.size(), 2); EQI("degree 2", q.size(), 3); }
// --- legendre | src/polynomial/orthogonal.h | Legendre polynomials satisfy their differential equation and normalisation
{ const real x = IN(0);
#define LEG(n) { const P p = legendre_polynomial(n), d = deriv(p), e = deriv(d); EQI("size " #n, p.size(), n + 1); EQ("equation " #n, (1 - x * x) * e(x) - 2 * x * d(x) + n * (n + 1) * p(x), 0); EQ("at one " #n, p(1), 1); real s = 0; for(unsigned i = 0; i < p.size(); i++) for(unsigned j = 0; j < p.size(); j++) if((i + j) % 2 == 0) s += p[i] * p[j] * 2 / (i + j + 1); EQ("norm " #n, s * (2 * n + 1), 2); const real N = legendre_polyn_normalization(n); EQ("normalisation " #n, N * N * s, 1); }
LEG(0) LEG(1) LEG(2) LEG(3) LEG(4) LEG(5) LEG(6) }
// --- laguerre | src/polynomial/orthogonal.h | Laguerre polynomials satisfy their differential equation and normalisation
{ const real x = IN(0);
#define LAG(n) { const P p = laguerre_polynomial(n), d = deriv(p), e = deriv(d); EQI("size " #n, p.size(), n + 1); EQ("equation " #n, x * e(x) + (1 - x) * d(x) + n * p(x), 0); EQ("at zero " #n, p(0), 1); }
LAG(0) LAG(1) LAG(2) LAG(3) LAG(4) LAG(5) LAG(6) }
// --- general_laguerre | src/polynomial/orthogonal.h | generalised Laguerre polynomials satisfy their differential equation and normalisation
{ const real x = IN(0), al = IN(1);
#define GLAG(n) { const P p = general_laguerre_polynomial(al, n), d = deriv(p), e = deriv(d); EQI("size " #n, p.size(), n + 1); EQ("equation " #n, x * e(x) + (al + 1 - x) * d(x) + n * p(x), 0); real s = 1; for(int i = 1; i <= n; i++) s *= (al + i) / i; EQ("at zero " #n, p(0), s); }
GLAG(0) GLAG(1) GLAG(2) GLAG(3) GLAG(4) EQ("reduces", general_laguerre_polynomial(0, 3)(x), laguerre_polynomial(3)(x)); }
// --- hermite | src/polynomial/orthogonal.h | Hermite polynomials satisfy their differential equation and normalisation
{ const real x = IN(0); real f = 1;
#define HER(n) { const P p = hermite_polynomial(n), d = deriv(p), e = deriv(d); EQI("size " #n, p.size(), n + 1); EQ("equation " #n, e(x) - 2 * x * d(x) + 2 * n * p(x), 0); EQ("leading " #n, p[n], 1 << n); if(n) f *= n; const real N = hermite_polyn_normalization(n); EQ("normalisation " #n, N * N * (1 << n) * f * th::sqrt(PI), 1); }
HER(0) HER(1) HER(2) HER(3) HER(4) HER(5) HER(6) }
// --- chebyshev | src/polynomial/orthogonal.h | Chebyshev polynomials satisfy their trigonometric definition
{ const real t = IN(0), x = th::cos(t), s = th::sin(t);
#define CHE(n) { const P p = chebyshev1_polynomial(n), q = chebyshev2_polynomial(n); EQI("size " #n, p.size(), n + 1); real c = 1, d = 0; for(int i = 0; i < n; i++) { const real e = c * x - d * s; d = c * s + d * x; c = e; } EQ("first kind " #n, p(x), c); EQ("second kind " #n, q(x) * s, c * s + d * x); }
CHE(0) CHE(1) CHE(2) CHE(3) CHE(4) CHE(5) CHE(6) CHE(7) }
// --- assoc_legendre | src/polynomial/orthogonal.h | associated Legendre polynomials
{ const real x = IN(0);
#define AL(l, m) { const real y = assoc_legendre_polynomial(l, m)(x), z = assoc_legendre_polynomial(l, -m)(x); P d = legendre_polynomial(l); for(int i = 0; i < m; i++) d = deriv(d); real r = (m % 2 ? -1 : 1) * d(x); for(int i = 0; i < m / 2; i++) r *= 1 - x * x; real f = 1; for(int i = l - m + 1; i <= l + m; i++) f *= i; if(x > -1 && x < 1) { if(m % 2) r *= th::sqrt(1 - x * x); EQ("value " #l " " #m, y, r); EQ("negative " #l " " #m, z * f * (m % 2 ? -1 : 1), y); } }
AL(0, 0) AL(1, 0) AL(1, 1) AL(2, 1) AL(2, 2) AL(3, 2) AL(3, 1)
#define ALE(l, m) { EQ("even " #l " " #m, assoc_legendre_polynomial_even(l, m)(x), assoc_legendre_polynomial(l, m)(x)); EQ("even negative " #l " " #m, assoc_legendre_polynomial_even(l, -m)(x), assoc_legendre_polynomial(l, -m)(x)); }
ALE(1, 0) ALE(2, 2) ALE(3, 2) ALE(4, 4) errno = 0; const P b = assoc_legendre_polynomial_even(3, 1); EQI("odd reported", errno, EDOM); ISNAN("odd nan", b(x)); }
// --- weights | src/polynomial/orthogonal.h | quadrature weights follow the formula of the roots
{ std::vector<real> r = {IN(0), IN(1), IN(2)}; const auto w = legendre_weights(r); const P d = deriv(legendre_polynomial(3)); EQI("legendre size", w.size(), 3); const auto v = laguerre_weights(r); const P L = laguerre_polynomial(4); EQI("laguerre size", v.size(), 3); const auto h = hermite_weights(r); const P H = hermite_polynomial(2); EQI("hermite size", h.size(), 3);
for(unsigned i = 0; i < 3; i++) { const real x = r[i]; if(d(x) != 0 && x * x != 1) EQ("legendre", w[i] * (1 - x * x) * d(x) * d(x), 2); if(L(x) != 0) EQ("laguerre", v[i] * 16 * L(x) * L(x), x); if(H(x) != 0) EQ("hermite", h[i] * 9 * H(x) * H(x), 4 * 6 * th::sqrt(PI)); } EQI("hermite empty", hermite_weights({}).size(), 0); EQI("legendre empty", legendre_weights({}).size(), 0); EQI("laguerre empty", laguerre_weights({}).size(), 0); }
// --- order_small | src/polynomial/polynomial.h | small leading coefficients are kept, null ones are not
{ const real x = IN(0); if(x > 1E-14) { EQI("order", P({1, 0, x}).find_order(), 2); EQI("negative order", P({1, 0, -x}).find_order(), 2); P a = {1, 0, x, 0}; a.trim(); EQI("trim", a.size(), 3); P b = {1, -x}; b.trim(); EQI("negative trim", b.size(), 2); EQI("below", P({1, 1, 1E-17}).find_order(), 1); } }
// --- legendre_roots | src/polynomial/orthogonal.h | the computed roots annihilate the Legendre polynomial and are distinct | prune=1
{ EQI("none", legendre_roots(0).size(), 0); const auto r1 = legendre_roots(1), r2 = legendre_roots(2), r3 = legendre_roots(3); EQI("one", r1.size(), 1); EQ("odd", r1[0], 0); EQI("two", r2.size(), 2); EQI("three", r3.size(), 3); const P p = legendre_polynomial(2), q = legendre_polynomial(3); for(unsigned i = 0; i < 2; i++) { const real y = p(r2[i]); EQI("P2 = 0", y < 1E-8 && y > -1E-8, 1); } for(unsigned i = 0; i < 3; i++) { const real y = q(r3[i]); EQI("P3 = 0", y < 1E-8 && y > -1E-8, 1); } EQI("ascending 2", r2[0] < r2[1], 1); EQI("ascending 3", r3[0] < r3[1] && r3[1] < r3[2], 1); }
// --- container | src/polynomial/polynomial.h | element access and iteration
{ P p = {IN(0), IN(1), IN(2)}; EQ("at", p.at(1), IN(1)); EQ("at end", p.at(2), IN(2)); unsigned n = 0; for(auto& c : p) { EQ("iterate", c, IN(n)); n++; } EQI("iterated", n, 3); n = 0; for(auto it = p.cbegin(); it != p.cend(); ++it) { EQ("cbegin", *it, IN(n)); n++; } EQI("cbegins", n, 3); p.at(0) = IN(5); EQ("write", p[0], IN(5)); EQ("evaluates", p(0), IN(5)); }
// --- division_padded | src/polynomial/polynomial.h | zero-padded dividends and divisors divide like trimmed ones
{ const real x = IN(50), a = IN(0), b = IN(1), c = IN(2); errno = 0; const P p({a, 5, 4, 1}), q = p / P({2, 1});
#define PAD(L, D, E) { const P u = (D) / (E); EQ(L " quotient", u(x), q(x)); }
PAD("divisor one", p, P({2, 1, 0})) PAD("divisor two", p, P({2, 1, 0, 0})) PAD("divisor three", p, P({2, 1, 0, 0, 0})) PAD("divisor longer than the dividend", p, P({2, 1, 0, 0, 0, 0, 0})) PAD("dividend one", P({a, 5, 4, 1, 0}), P({2, 1})) PAD("dividend three", P({a, 5, 4, 1, 0, 0, 0}), P({2, 1})) PAD("both", P({a, 5, 4, 1, 0, 0}), P({2, 1, 0, 0})) EQI("quiet", errno, 0); const P z({1, 1}); const P w = z / P({a, 3, 1, 0}); EQ("larger divisor", w(x), 0); errno = 0; const P n = p / P({0, 0, 0}); ISNAN("padded null divisor", n.get(0)); REPORTED("padded null divisor"); }
// --- grow_polynomials | src/polynomial/polynomial.h | polynomials of any degree | n=9 grow=300
{ const unsigned N = VP_N; std::vector<real> a(N + 1), b(N + 1); for(unsigned i = 0; i <= N; i++) { a[i] = IN(i); b[i] = real((3 * i) % 5) - 1; } b[N] = 2; const polynomial<real> p(a), q(b), s = p + q, d = p - q, m = p * q, k = p * real(3), dp = deriv(p), ip = integral(p); real v = 0, w = 0; for(unsigned i = N + 1; i > 0; i--) { v = v * 2 + IN(i - 1); w = -w + IN(i - 1); } EQ("value", p(real(2)), v); EQ("evaluate", p.eval(real(-1)), w); EQI("degree", q.find_order(), N); EQI("product size", m.size(), 2 * N + 1); EQI("derivative size", dp.size(), N);
for(unsigned i : {0u, 1u, VP_N / 2u, VP_N - 1u, VP_N + 0u}) { EQ("+", s[i], IN(i) + b[i]); EQ("-", d[i], IN(i) - b[i]); EQ("* k", k[i], 3 * IN(i)); EQ("integral", ip[i + 1] * (i + 1), IN(i)); if(i < N) EQ("derivative", dp[i], IN(i + 1) * (i + 1)); real c = 0, e = 0; for(unsigned j = 0; j <= i; j++) c += IN(j) * b[i - j]; for(unsigned j = i; j <= N; j++) e += IN(j) * b[N + i - j]; EQ("product low", m[i], c); EQ("product high", m[N + i], e); } }
// --- grow_families | src/polynomial/orthogonal.h | orthogonal polynomials of any degree satisfy their recurrence | n=6 grow=40
{ const unsigned N = VP_N; const real x = real(1) / 2; auto P = legendre_polynomial(N), P1 = legendre_polynomial(N - 1), P2 = legendre_polynomial(N - 2); auto H = hermite_polynomial(N), H1 = hermite_polynomial(N - 1), H2 = hermite_polynomial(N - 2); auto T = chebyshev1_polynomial(N), T1 = chebyshev1_polynomial(N - 1), T2 = chebyshev1_polynomial(N - 2); auto U = chebyshev2_polynomial(N), U1 = chebyshev2_polynomial(N - 1), U2 = chebyshev2_polynomial(N - 2); EQ("Hermite", H(x), 2 * x * H1(x) - 2 * (N - 1) * H2(x)); EQ("Chebyshev", T(x), 2 * x * T1(x) - T2(x)); EQ("Chebyshev second", U(x), 2 * x * U1(x) - U2(x)); EQ("Hermite size", H.size(), N + 1); EQI("Chebyshev degree", T.find_order(), N); EQI("Legendre degree", P.find_order(), N); }
