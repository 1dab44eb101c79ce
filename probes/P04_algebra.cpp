#include "la.h"
#define A0 0
#define B0 1000
#define K0 IN(5000)
#define K1 IN(5001)
#define BIGK (K0 >= MACH_EPSILON || K0 <= -MACH_EPSILON)
template<typename V> static inline void vecops(V a, V b, const unsigned n) {
	EQV("a + b", a + b, n, V_(A0, i) + V_(B0, i));
	EQV("a - b", a - b, n, V_(A0, i) - V_(B0, i));
	EQV("-a", -a, n, -V_(A0, i));
	EQV("+a", +a, n, V_(A0, i));
	EQV("a * k", a * K0, n, V_(A0, i) * K0);
	EQV("k * a", K0 * a, n, V_(A0, i) * K0);
	if(K0 != 0) EQV("a / k", a / K0, n, V_(A0, i) / K0);
	EQ("a * b", a * b, ddot(A0, B0, n));
	EQ("dot member", a.dot(b), ddot(A0, B0, n));
	EQ("algebra::dot", algebra::dot(a, b), ddot(A0, B0, n));
	EQ("sqr_norm", a.sqr_norm(), ddot(A0, A0, n));
	EQ("norm", a.norm(), th::sqrt(ddot(A0, A0, n)));
	V r = a; r += b; EQV("a += b", r, n, V_(A0, i) + V_(B0, i));
	r = a; r -= b; EQV("a -= b", r, n, V_(A0, i) - V_(B0, i));
	r = a; r *= K0; EQV("a *= k", r, n, V_(A0, i) * K0);
	errno = 0; r = a; r /= K0; if(BIGK) EQI("division not reported", errno, 0); if(BIGK) EQV("a /= k", r, n, V_(A0, i) / K0);
	r = a; r += r; EQV("a += a", r, n, 2 * V_(A0, i));
	r = a; r -= r; EQV("a -= a", r, n, 0);
	r = a; V& q = algebra::vec_sum(r, b); EQV("vec_sum in place", r, n, V_(A0, i) + V_(B0, i)); EQI("vec_sum returns its target", &q == &r, 1);
	r = a; algebra::vec_diff(r, b); EQV("vec_diff in place", r, n, V_(A0, i) - V_(B0, i));
	r = a; algebra::vec_scalmul(K0, r); EQV("vec_scalmul in place", r, n, V_(A0, i) * K0);
	r = b; algebra::vec_scalmul(r, K0, a); EQV("vec_scalmul", r, n, V_(A0, i) * K0);
	r = b; algebra::vec_copy(r, a); EQV("vec_copy", r, n, V_(A0, i));
	r = b; algebra::vec_zeroes(r); EQV("vec_zeroes", r, n, 0);
	r = a; algebra::vec_sum(r, r, b); EQV("vec_sum aliased", r, n, V_(A0, i) + V_(B0, i));
	EQI("a == a", a == a, 1); EQI("a != a", a != a, 0);
	bool same = true; for(unsigned i = 0; i < n; i++) same = same && V_(A0, i) == V_(B0, i);
	EQI("a == b", a == b, same); EQI("a != b", a != b, !same);
	for(unsigned i = 0; i < n; i++) { EQ("get", a.get(i), V_(A0, i)); EQ("at", a.at(i), V_(A0, i)); r = a; r.set(i, K0); for(unsigned j = 0; j < n; j++) EQ("set", r[j], i == j ? K0 : V_(A0, j)); }
	unsigned c = 0; for(auto x : a) { EQ("iterate", x, V_(A0, c)); c++; } EQI("iterate all", c, n);
	r = a; c = 0; for(auto& x : r) { x = V_(B0, c); c++; } EQV("write through the iterator", r, n, V_(B0, i));
	const V ca = a; c = 0; for(auto it = ca.begin(); it != ca.end(); ++it) { EQ("const iterate", *it, V_(A0, c)); c++; } EQI("const iterate all", c, n);
	errno = 0; V u = a.normalized(); if(th::sqrt(ddot(A0, A0, n)) >= MACH_EPSILON) { EQI("normalized not reported", errno, 0); for(unsigned i = 0; i < n; i++) EQ("normalized", u[i] * th::sqrt(ddot(A0, A0, n)), V_(A0, i)); }
	r = a; errno = 0; r.normalize(); if(th::sqrt(ddot(A0, A0, n)) >= MACH_EPSILON) { EQI("normalize not reported", errno, 0); for(unsigned i = 0; i < n; i++) EQ("normalize", r[i] * th::sqrt(ddot(A0, A0, n)), V_(A0, i)); }
}
template<typename M> static inline void matops(M a, M b, const unsigned n, const unsigned k) {
	EQI("size", a.size(), n * k);
	EQM("A + B", a + b, n, k, M_(A0, i, j) + M_(B0, i, j));
	EQM("A - B", a - b, n, k, M_(A0, i, j) - M_(B0, i, j));
	EQM("A * s", a * K0, n, k, M_(A0, i, j) * K0);
	EQM("s * A", K0 * a, n, k, M_(A0, i, j) * K0);
	errno = 0; { M r = a / K0; if(BIGK) EQI("division not reported", errno, 0); if(BIGK) EQM("A / s", r, n, k, M_(A0, i, j) / K0); }
	M r = a; r += b; EQM("A += B", r, n, k, M_(A0, i, j) + M_(B0, i, j));
	r = a; r -= b; EQM("A -= B", r, n, k, M_(A0, i, j) - M_(B0, i, j));
	r = a; r *= K0; EQM("A *= s", r, n, k, M_(A0, i, j) * K0);
	errno = 0; r = a; r /= K0; if(BIGK) EQI("division not reported", errno, 0); if(BIGK) EQM("A /= s", r, n, k, M_(A0, i, j) / K0);
	r = a; r += r; EQM("A += A", r, n, k, 2 * M_(A0, i, j));
	r = a; r -= r; EQM("A -= A", r, n, k, 0);
	r = a; M& q = algebra::mat_sum(r, b); EQM("mat_sum in place", r, n, k, M_(A0, i, j) + M_(B0, i, j)); EQI("mat_sum returns its target", &q == &r, 1);
	r = a; algebra::mat_diff(r, b); EQM("mat_diff in place", r, n, k, M_(A0, i, j) - M_(B0, i, j));
	r = a; algebra::mat_scalmul(K0, r); EQM("mat_scalmul in place", r, n, k, M_(A0, i, j) * K0);
	r = b; algebra::mat_scalmul(r, K0, a); EQM("mat_scalmul", r, n, k, M_(A0, i, j) * K0);
	r = a; algebra::mat_lincomb(K0, r, K1, b); EQM("mat_lincomb in place", r, n, k, K0 * M_(A0, i, j) + K1 * M_(B0, i, j));
	r = a; M& q2 = algebra::mat_lincomb(r, K0, a, K1, b); EQM("mat_lincomb", r, n, k, K0 * M_(A0, i, j) + K1 * M_(B0, i, j)); EQI("mat_lincomb returns its target", &q2 == &r, 1);
	r = b; algebra::mat_copy(r, a); EQM("mat_copy", r, n, k, M_(A0, i, j));
	r = b; algebra::mat_zeroes(r); EQM("mat_zeroes", r, n, k, 0);
	r = b; algebra::make_identity(r); EQM("make_identity", r, n, k, i == j ? 1 : 0);
	r = b; r.make_zeroes(); EQM("make_zeroes", r, n, k, 0);
	r = a; algebra::mat_shift_diagonal(r, K0); EQM("mat_shift_diagonal", r, n, k, i == j ? M_(A0, i, j) + K0 : M_(A0, i, j));
	real t = 0, p = 1; for(unsigned i = 0; i < n && i < k; i++) { t += M_(A0, i, i); p *= M_(A0, i, i); }
	EQ("trace", algebra::trace(a), t); EQ("diagonal_product", algebra::diagonal_product(a), p);
	if(n >= 2) { r = a; algebra::mat_swap_rows(r, 0, n - 1); EQM("mat_swap_rows", r, n, k, i == 0 ? M_(A0, n - 1, j) : i == n - 1 ? M_(A0, 0, j) : M_(A0, i, j)); }
	if(k >= 2) { r = a; algebra::mat_swap_cols(r, k - 1, 0); EQM("mat_swap_cols", r, n, k, j == 0 ? M_(A0, i, k - 1) : j == k - 1 ? M_(A0, i, 0) : M_(A0, i, j)); }
	for(unsigned i = 0; i < n; i++) for(unsigned j = 0; j < k; j++) { EQ("at", a.at(i, j), M_(A0, i, j)); EQ("get", a.get(i, j), M_(A0, i, j)); }
	r = a; r(n - 1, 0) = K0; EQM("element write", r, n, k, (i == n - 1 && j == 0) ? K0 : M_(A0, i, j));
	unsigned c = 0; for(auto x : a) { EQ("iterate", x, M_(A0, c / k, c % k)); c++; } EQI("iterate all", c, n * k);
	const M ca = a; c = 0; for(auto it = ca.begin(); it != ca.end(); ++it) { EQ("const iterate", *it, M_(A0, c / k, c % k)); c++; } EQI("const iterate all", c, n * k);
	EQI("A == A (up to tolerance)", a == a, 1); EQI("A != A", a != a, 0);
	for(unsigned i = 0; i < n; i++) for(unsigned j = 0; j < k; j++) { M x, y; algebra::mat_copy(x, a); algebra::mat_copy(y, a); x(i, j) = K0; y(i, j) = K1; const bool close = !(th::abs(K0 - K1) > 10 * MACH_EPSILON); EQI("A == B", x == y, close); EQI("A != B", x != y, !close); EQI("mat_equals", algebra::mat_equals(x, y, 0.5), !(th::abs(K0 - K1) > 0.5)); }
}
template<typename M> static inline void sqops(M a, M b, const unsigned n) {
	EQM("A * B", a * b, n, n, mprod(A0, i, B0, j, n));
	EQM("A.mul(B)", a.mul(b), n, n, mprod(A0, i, B0, j, n));
	M r = a; r *= b; EQM("A *= B", r, n, n, mprod(A0, i, B0, j, n));
	r = a; r *= r; EQM("A *= A", r, n, n, mprod(A0, i, A0, j, n));
	r = a; r.transpose(); EQM("transpose in place", r, n, n, M_(A0, j, i));
	EQM("transpose", algebra::transpose(a), n, n, M_(A0, j, i));
	r = b; algebra::transpose(r, a); EQM("transpose into", r, n, n, M_(A0, j, i));
	EQM("mat_transpose_mul", algebra::mat_transpose_mul(a, b), n, n, mtprod(A0, i, B0, j, n));
	EQM("mat_mul_transpose", algebra::mat_mul_transpose(a, b), n, n, mprodt(A0, i, B0, j, n));
	EQM("algebra::mat_mul", algebra::mat_mul(a, b), n, n, mprod(A0, i, B0, j, n));
	EQI("is_square", algebra::is_square(a), 1);
	const real tol = 1E-8; bool sgn = true; const bool off = th::abs(K0) > tol;
	for(unsigned i = 0; i < n; i++) for(unsigned j = 0; j < n; j++) {
		M x = a; for(unsigned p = 0; p < n; p++) for(unsigned q = 0; q < n; q++) x(p, q) = p == q ? real(p + 1) : real(0); x(i, j) = K0;
		EQI("is_lower_triangular", algebra::is_lower_triangular(x, tol), !(j > i && off)); EQI("is_upper_triangular", algebra::is_upper_triangular(x, tol), !(j < i && off)); EQI("is_diagonal", algebra::is_diagonal(x, tol), !(i != j && off)); EQI("is_symmetric", algebra::is_symmetric(x, tol), !(i != j && off));
		x(j, i) = K0; EQI("is_symmetric (symmetric)", algebra::is_symmetric(x, tol), 1); }
}
// --- vec_static1 | src/algebra/vec.h | operations of one-dimensional fixed-size vectors
{ typedef vec<real, 1> V; vecops(mks<V>(A0), mks<V>(B0), 1u); }
// --- vec_static2 | src/algebra/vec.h | operations of fixed-size vectors of 2 elements
{ typedef vec<real, 2> V; vecops(mks<V>(A0), mks<V>(B0), 2u); }
// --- vec_static3 | src/algebra/vec.h | operations of fixed-size vectors of 3 elements
{ typedef vec<real, 3> V; vecops(mks<V>(A0), mks<V>(B0), 3u); }
// --- vec_static5 | src/algebra/vec.h | operations of fixed-size vectors of 5 elements
{ typedef vec<real, 5> V; vecops(mks<V>(A0), mks<V>(B0), 5u); }
// --- vec_dyn0 | src/algebra/vec.h | operations of empty dynamic vectors
vec<real> a, b;
EQI("size", a.size(), 0); EQI("sum size", (a + b).size(), 0); EQI("difference size", (a - b).size(), 0); EQI("scaled size", (a * K0).size(), 0);
EQ("dot", a * b, 0); EQ("sqr_norm", a.sqr_norm(), 0); EQI("a == b", a == b, 1);
a -= b; EQI("size -=", a.size(), 0); a *= K0; EQI("size *=", a.size(), 0);
a = mkd(3, A0); vec<real> z; z += a; EQV("empty += a", z, 3u, V_(A0, i));
vec<real> e = {}; EQI("empty list", e.size(), 0);
unsigned c = 0; for(auto x : e) c++; EQI("iterate", c, 0);
// --- vec_dyn1 | src/algebra/vec.h | operations of dynamic vectors of 1 element
vecops(mkd(1, A0), mkd(1, B0), 1u);
// --- vec_dyn3 | src/algebra/vec.h | operations of dynamic vectors of 3 elements
vecops(mkd(3, A0), mkd(3, B0), 3u);
// --- vec_dyn5 | src/algebra/vec.h | operations of dynamic vectors of 5 elements
vecops(mkd(5, A0), mkd(5, B0), 5u);
// --- vec_long | src/algebra/vec.h | sums, products and norms of long vectors
{ typedef vec<real, 11> V; V a = mks<V>(A0), b = mks<V>(B0);
EQV("a + b", a + b, 11u, V_(A0, i) + V_(B0, i)); EQV("a - b", a - b, 11u, V_(A0, i) - V_(B0, i)); EQV("a * k", a * K0, 11u, V_(A0, i) * K0); EQ("dot", a * b, ddot(A0, B0, 11)); EQ("sqr_norm", a.sqr_norm(), ddot(A0, A0, 11));
V r = a; r += b; EQV("a += b", r, 11u, V_(A0, i) + V_(B0, i)); r = a; r -= b; EQV("a -= b", r, 11u, V_(A0, i) - V_(B0, i)); r = a; r *= K0; EQV("a *= k", r, 11u, V_(A0, i) * K0); }
{ typedef vec<real> V; V a = mkd(19, A0), b = mkd(19, B0);
EQV("dynamic a + b", a + b, 19u, V_(A0, i) + V_(B0, i)); EQV("dynamic a - b", a - b, 19u, V_(A0, i) - V_(B0, i)); EQV("dynamic a * k", a * K0, 19u, V_(A0, i) * K0); EQ("dynamic dot", a * b, ddot(A0, B0, 19)); EQ("dynamic sqr_norm", a.sqr_norm(), ddot(A0, A0, 19));
V r = a; r += b; EQV("dynamic a += b", r, 19u, V_(A0, i) + V_(B0, i)); r = a; r -= b; EQV("dynamic a -= b", r, 19u, V_(A0, i) - V_(B0, i)); r = a; r *= K0; EQV("dynamic a *= k", r, 19u, V_(A0, i) * K0); }
// --- vec_construct | src/algebra/vec.h | construction, conversion, resizing and appending of vectors
{ vec<real, 3> v; EQV("default", v, 3u, 0); vec<real, 3> w(K0); EQV("constant", w, 3u, K0); vec<real, 3> u(3u, K0); EQV("sized constant", u, 3u, K0);
vec<real, 3> l = {K0, K1, IN(0)}; EQ("list 0", l[0], K0); EQ("list 1", l[1], K1); EQ("list 2", l[2], IN(0));
vec<real> d(mks<vec<real, 3>>(A0)); EQV("dynamic from static", d, 3u, V_(A0, i)); vec<real, 3> s(d); EQV("static from dynamic", s, 3u, V_(A0, i));
d = vec<real>(7); EQV("dynamic sized", d, 7u, 0); d = vec<real>(4u, K0); EQV("dynamic constant", d, 4u, K0);
d = mks<vec<real, 5>>(A0); EQV("dynamic = static", d, 5u, V_(A0, i)); s = mkd(3, B0); EQV("static = dynamic", s, 3u, V_(B0, i));
d.resize(3); EQV("shrink", d, 3u, V_(A0, i)); d.resize(5); EQV("grow", d, 5u, i < 3 ? V_(A0, i) : 0);
vec<real> e = {K0, K1}; e.push(IN(0)); EQI("push size", e.size(), 3); EQ("push 0", e[0], K0); EQ("push 1", e[1], K1); EQ("push 2", e[2], IN(0)); const real t = IN(1); e.push(t); EQI("push const size", e.size(), 4); EQ("push const", e[3], IN(1));
vec<real> m = make_vec(K0, K1, IN(0)); EQI("make_vec size", m.size(), 3); EQ("make_vec 0", m[0], K0); EQ("make_vec 1", m[1], K1); EQ("make_vec 2", m[2], IN(0));
vec<real, 4> b = vec<real, 4>::euclidean_base(2); EQV("euclidean_base", b, 4u, i == 2 ? 1 : 0); vec<real> bd = vec<real>::euclidean_base(3, 5); EQV("dynamic euclidean_base", bd, 5u, i == 3 ? 1 : 0);
EQI("argument", vec<real, 4>::size_argument, 4); }
// --- vec_mixed | src/algebra/vec.h | operations between static and dynamic vectors
{ vec<real, 3> s = mks<vec<real, 3>>(A0); vec<real> d = mkd(3, B0);
EQ("s * d", s * d, ddot(A0, B0, 3)); EQ("d * s", d * s, ddot(A0, B0, 3)); EQV("d + s", d + s, 3u, V_(A0, i) + V_(B0, i)); EQV("d - s", d - s, 3u, V_(B0, i) - V_(A0, i));
vec<real, 3> r = s; r += d; EQV("s += d", r, 3u, V_(A0, i) + V_(B0, i)); r = s; r -= d; EQV("s -= d", r, 3u, V_(A0, i) - V_(B0, i));
vec<real> q = d; q += s; EQV("d += s", q, 3u, V_(A0, i) + V_(B0, i)); q = d; q -= s; EQV("d -= s", q, 3u, V_(B0, i) - V_(A0, i));
bool same = V_(A0, 0) == V_(B0, 0) && V_(A0, 1) == V_(B0, 1) && V_(A0, 2) == V_(B0, 2); EQI("s == d", s == d, same); EQI("d == s", d == s, same);
EQV("algebra::cross", algebra::cross(s, d), 3u, (i == 0 ? V_(A0, 1) * V_(B0, 2) - V_(A0, 2) * V_(B0, 1) : i == 1 ? V_(A0, 2) * V_(B0, 0) - V_(A0, 0) * V_(B0, 2) : V_(A0, 0) * V_(B0, 1) - V_(A0, 1) * V_(B0, 0))); }
// --- vec_cross | src/algebra/algebra.h | cross product
#define CR(i) (i == 0 ? V_(A0, 1) * V_(B0, 2) - V_(A0, 2) * V_(B0, 1) : i == 1 ? V_(A0, 2) * V_(B0, 0) - V_(A0, 0) * V_(B0, 2) : V_(A0, 0) * V_(B0, 1) - V_(A0, 1) * V_(B0, 0))
{ vec3 a = mks<vec3>(A0), b = mks<vec3>(B0); EQV("static", a.cross(b), 3u, CR(i)); EQV("algebra::cross", algebra::cross(a, b), 3u, CR(i)); EQV("static with dynamic", a.cross(mkd(3, B0)), 3u, CR(i));
EQV("dynamic", mkd(3, A0).cross(mkd(3, B0)), 3u, CR(i)); EQV("dynamic with static", mkd(3, A0).cross(b), 3u, CR(i)); }
// --- vec_complex | src/algebra/algebra.h | complex vectors
{ typedef vec<cplx, 3> V; V a, b; a = mkcv(a, A0); b = mkcv(b, B0);
cplx d = a * b; real re = 0, im = 0, nn = 0; for(int i = 0; i < 3; i++) { re += V_(A0, 2*i) * V_(B0, 2*i) + V_(A0, 2*i+1) * V_(B0, 2*i+1); im += V_(A0, 2*i+1) * V_(B0, 2*i) - V_(A0, 2*i) * V_(B0, 2*i+1); nn += V_(A0, 2*i) * V_(A0, 2*i) + V_(A0, 2*i+1) * V_(A0, 2*i+1); }
EQ("inner re", d.Re(), re); EQ("inner im", d.Im(), im); cplx n = a.sqr_norm(); EQ("sqr_norm re", n.Re(), nn); EQ("sqr_norm im", n.Im(), 0);
V s = a + b; for(int i = 0; i < 3; i++) { EQ("sum re", s[i].Re(), V_(A0, 2*i) + V_(B0, 2*i)); EQ("sum im", s[i].Im(), V_(A0, 2*i+1) + V_(B0, 2*i+1)); }
s = a * cplx(K0, K1); for(int i = 0; i < 3; i++) { EQ("scaled re", s[i].Re(), V_(A0, 2*i) * K0 - V_(A0, 2*i+1) * K1); EQ("scaled im", s[i].Im(), V_(A0, 2*i) * K1 + V_(A0, 2*i+1) * K0); }
s = -a; for(int i = 0; i < 3; i++) { EQ("negated re", s[i].Re(), -V_(A0, 2*i)); EQ("negated im", s[i].Im(), -V_(A0, 2*i+1)); } }
// --- mat_static22 | src/algebra/mat.h | operations of fixed-size 2x2 matrices | also=THEORETICA_ROW_FIRST
{ typedef mat<real, 2, 2> M; matops(mkms<M>(A0), mkms<M>(B0), 2u, 2u); sqops(mkms<M>(A0), mkms<M>(B0), 2u); }
// --- mat_static33 | src/algebra/mat.h | operations of fixed-size 3x3 matrices
{ typedef mat<real, 3, 3> M; matops(mkms<M>(A0), mkms<M>(B0), 3u, 3u); sqops(mkms<M>(A0), mkms<M>(B0), 3u); }
// --- mat_static11 | src/algebra/mat.h | operations of fixed-size 1x1 matrices
{ typedef mat<real, 1, 1> M; matops(mkms<M>(A0), mkms<M>(B0), 1u, 1u); sqops(mkms<M>(A0), mkms<M>(B0), 1u); }
// --- mat_static23 | src/algebra/mat.h | operations of fixed-size 2x3 matrices | also=THEORETICA_ROW_FIRST
{ typedef mat<real, 2, 3> M; matops(mkms<M>(A0), mkms<M>(B0), 2u, 3u); }
// --- mat_static32 | src/algebra/mat.h | operations of fixed-size 3x2 matrices | also=THEORETICA_ROW_FIRST
{ typedef mat<real, 3, 2> M; matops(mkms<M>(A0), mkms<M>(B0), 3u, 2u); }
// --- mat_dyn33 | src/algebra/mat.h | operations of dynamic 3x3 matrices | also=THEORETICA_ROW_FIRST
matops(mkdm(3, 3, A0), mkdm(3, 3, B0), 3u, 3u); sqops(mkdm(3, 3, A0), mkdm(3, 3, B0), 3u);
// --- mat_dyn23 | src/algebra/mat.h | operations of dynamic 2x3 matrices | also=THEORETICA_ROW_FIRST
matops(mkdm(2, 3, A0), mkdm(2, 3, B0), 2u, 3u);
// --- mat_dyn32 | src/algebra/mat.h | operations of dynamic 3x2 matrices | also=THEORETICA_ROW_FIRST
matops(mkdm(3, 2, A0), mkdm(3, 2, B0), 3u, 2u);
// --- mat_dyn14 | src/algebra/mat.h | operations of dynamic 1x4 matrices
matops(mkdm(1, 4, A0), mkdm(1, 4, B0), 1u, 4u);
// --- mat_dyn41 | src/algebra/mat.h | operations of dynamic 4x1 matrices
matops(mkdm(4, 1, A0), mkdm(4, 1, B0), 4u, 1u);
// --- mat_rect_static | src/algebra/mat.h | products of fixed-size rectangular matrices and vectors | also=THEORETICA_ROW_FIRST
{ mat<real, 2, 3> a = mkms<mat<real, 2, 3>>(A0); mat<real, 3, 4> b = mkms<mat<real, 3, 4>>(B0); vec<real, 3> v = mks<vec<real, 3>>(B0); vec<real, 2> w = mks<vec<real, 2>>(B0);
EQM("A * B", a * b, 2u, 4u, mprod(A0, i, B0, j, 3)); EQM("A.mul(B)", a.mul(b), 2u, 4u, mprod(A0, i, B0, j, 3));
mat<real, 2, 4> r; algebra::mat_mul(r, a, b); EQM("mat_mul", r, 2u, 4u, mprod(A0, i, B0, j, 3));
EQV("A * v", a * v, 2u, mrow(A0, i, B0, 3)); EQV("A.transform(v)", a.transform(v), 2u, mrow(A0, i, B0, 3));
vec<real, 2> q; algebra::transform(q, a, v); EQV("transform into", q, 2u, mrow(A0, i, B0, 3));
EQV("v * A", w * a, 3u, V_(B0, 0) * M_(A0, 0, i) + V_(B0, 1) * M_(A0, 1, i));
mat<real, 3, 2> t = algebra::transpose<mat<real, 2, 3>, mat<real, 3, 2>>(a); EQM("transpose", t, 3u, 2u, M_(A0, j, i)); mat<real, 3, 2> t2; algebra::transpose(t2, a); EQM("transpose into", t2, 3u, 2u, M_(A0, j, i)); }
// --- mat_rect_dyn | src/algebra/mat.h | products of dynamic rectangular matrices and vectors | also=THEORETICA_ROW_FIRST
{ mat<real> a = mkdm(2, 3, A0), b = mkdm(3, 4, B0); vec<real> v = mkd(3, B0), w = mkd(2, B0);
EQM("A * B", a * b, 2u, 4u, mprod(A0, i, B0, j, 3)); EQM("A.mul(B)", a.mul(b), 2u, 4u, mprod(A0, i, B0, j, 3)); EQM("algebra::mat_mul", algebra::mat_mul(a, b), 2u, 4u, mprod(A0, i, B0, j, 3));
EQV("A * v", a * v, 2u, mrow(A0, i, B0, 3)); EQV("A.transform(v)", a.transform(v), 2u, mrow(A0, i, B0, 3)); EQV("algebra::transform", algebra::transform(a, v), 2u, mrow(A0, i, B0, 3));
vec<real> q = v; algebra::apply_transform(a, q); EQV("apply_transform", q, 2u, mrow(A0, i, B0, 3));
vec<real> q2(2); algebra::transform(q2, a, v); EQV("transform into", q2, 2u, mrow(A0, i, B0, 3));
EQV("v * A", w * a, 3u, V_(B0, 0) * M_(A0, 0, i) + V_(B0, 1) * M_(A0, 1, i));
EQM("transpose", algebra::transpose(a), 3u, 2u, M_(A0, j, i));
mat<real> r = a; r *= b; EQM("A *= B", r, 2u, 4u, mprod(A0, i, B0, j, 3));
EQM("mat_transpose_mul", algebra::mat_transpose_mul(mkdm(3, 2, A0), b), 2u, 4u, mtprod(A0, i, B0, j, 3));
EQM("mat_mul_transpose", algebra::mat_mul_transpose(a, mkdm(4, 3, B0)), 2u, 4u, mprodt(A0, i, B0, j, 3)); }
// --- mat_mixed | src/algebra/mat.h | operations between static and dynamic matrices and vectors | also=THEORETICA_ROW_FIRST
{ mat<real, 2, 3> s = mkms<mat<real, 2, 3>>(A0); mat<real> d = mkdm(2, 3, B0);
EQM("S + D", s + d, 2u, 3u, M_(A0, i, j) + M_(B0, i, j)); EQM("D + S", d + s, 2u, 3u, M_(A0, i, j) + M_(B0, i, j)); EQM("S - D", s - d, 2u, 3u, M_(A0, i, j) - M_(B0, i, j)); EQM("D - S", d - s, 2u, 3u, M_(B0, i, j) - M_(A0, i, j));
mat<real, 2, 3> r = s; r += d; EQM("S += D", r, 2u, 3u, M_(A0, i, j) + M_(B0, i, j)); r = s; r -= d; EQM("S -= D", r, 2u, 3u, M_(A0, i, j) - M_(B0, i, j));
mat<real> q = d; q += s; EQM("D += S", q, 2u, 3u, M_(A0, i, j) + M_(B0, i, j)); q = d; q -= s; EQM("D -= S", q, 2u, 3u, M_(B0, i, j) - M_(A0, i, j));
EQM("S * D", s * mkdm(3, 4, B0), 2u, 4u, mprod(A0, i, B0, j, 3)); EQM("S.mul(D)", s.mul(mkdm(3, 4, B0)), 2u, 4u, mprod(A0, i, B0, j, 3));
q = s; EQM("D = S", q, 2u, 3u, M_(A0, i, j)); r = d; EQM("S = D", r, 2u, 3u, M_(B0, i, j)); mat<real, 2, 3> c(d); EQM("S from D", c, 2u, 3u, M_(B0, i, j)); mat<real> e(s); EQM("D from S", e, 2u, 3u, M_(A0, i, j));
EQV("D * static vector", mkdm(2, 3, A0) * (mks<vec3>(B0)), 2u, mrow(A0, i, B0, 3)); EQV("S transform dynamic vector", s.transform(mkd(3, B0)), 2u, mrow(A0, i, B0, 3)); }
// --- mat_construct | src/algebra/mat.h | construction, conversion and resizing of matrices | also=THEORETICA_ROW_FIRST
{ mat<real, 2, 3> z; EQM("default", z, 2u, 3u, 0); mat<real, 2, 3> g(K0); EQM("diagonal", g, 2u, 3u, i == j ? K0 : 0); mat<real, 3, 2> g2(K0, 3, 2); EQM("sized diagonal", g2, 3u, 2u, i == j ? K0 : 0);
mat<real, 2, 3> l = {{IN(0), IN(1), IN(2)}, {IN(20), IN(21), IN(22)}}; EQM("list", l, 2u, 3u, M_(0, i, j));
mat<real> d = {{IN(0), IN(1), IN(2)}, {IN(20), IN(21), IN(22)}}; EQM("dynamic list", d, 2u, 3u, M_(0, i, j));
mat<real> e(3u, 2u); EQM("dynamic sized", e, 3u, 2u, 0); mat<real> f(K0, 3u, 2u); EQM("dynamic diagonal", f, 3u, 2u, i == j ? K0 : 0);
d.resize(3, 3); EQM("grow", d, 3u, 3u, i < 2 ? M_(0, i, j) : 0); d.resize(1, 2); EQM("shrink", d, 1u, 2u, M_(0, i, j)); d.resize(2, 4); EQM("grow again", d, 2u, 4u, (i == 0 && j < 2) ? M_(0, i, j) : 0);
d.resize(2, 4); EQM("same size", d, 2u, 4u, (i == 0 && j < 2) ? M_(0, i, j) : 0); mat<real> h; EQI("empty rows", h.rows(), 0); EQI("empty cols", h.cols(), 0); EQI("empty size", h.size(), 0); h = e; EQM("assign to empty", h, 3u, 2u, 0); }
// --- mat_complex | src/algebra/algebra.h | complex matrices and Hermitian conjugation
{ typedef mat<cplx, 3, 3> M; M a; a = mkcm(a, A0); const M c = a;
M h = algebra::hermitian(c); for(int i = 0; i < 3; i++) for(int j = 0; j < 3; j++) { EQ("hermitian re", h(i, j).Re(), IN(20 * j + 2 * i)); EQ("hermitian im", h(i, j).Im(), -IN(20 * j + 2 * i + 1)); }
M g = c; algebra::make_hermitian(g); for(int i = 0; i < 3; i++) for(int j = 0; j < 3; j++) { EQ("make_hermitian re", g(i, j).Re(), IN(20 * j + 2 * i)); EQ("make_hermitian im", g(i, j).Im(), -IN(20 * j + 2 * i + 1)); }
M k; algebra::hermitian(k, c); for(int i = 0; i < 3; i++) for(int j = 0; j < 3; j++) { EQ("hermitian into re", k(i, j).Re(), IN(20 * j + 2 * i)); EQ("hermitian into im", k(i, j).Im(), -IN(20 * j + 2 * i + 1)); }
M p = c * h; for(int i = 0; i < 3; i++) for(int j = 0; j < 3; j++) { real re = 0, im = 0; for(int l = 0; l < 3; l++) { const real x = IN(20*i+2*l), y = IN(20*i+2*l+1), u = IN(20*j+2*l), v = IN(20*j+2*l+1); re += x*u + y*v; im += y*u - x*v; } EQ("A A* re", p(i, j).Re(), re); EQ("A A* im", p(i, j).Im(), im); }
M s = c * cplx(K0, K1); for(int i = 0; i < 3; i++) for(int j = 0; j < 3; j++) { EQ("scaled re", s(i, j).Re(), IN(20*i+2*j) * K0 - IN(20*i+2*j+1) * K1); EQ("scaled im", s(i, j).Im(), IN(20*i+2*j) * K1 + IN(20*i+2*j+1) * K0); } }
// --- mat_large | src/algebra/mat.h | products of larger matrices
{ mat<real> a = mkdm(5, 7, A0), b = mkdm(7, 6, B0); EQM("A * B", a * b, 5u, 6u, mprod(A0, i, B0, j, 7)); EQV("A * v", a * mkd(7, B0), 5u, mrow(A0, i, B0, 7)); EQM("transpose", algebra::transpose(a), 7u, 5u, M_(A0, j, i)); EQM("A + A", a + mkdm(5, 7, B0), 5u, 7u, M_(A0, i, j) + M_(B0, i, j)); }
// --- mat_large_static | src/algebra/mat.h | products of larger fixed-size matrices
{ mat<real, 6, 5> a = mkms<mat<real, 6, 5>>(A0); mat<real, 5, 7> b = mkms<mat<real, 5, 7>>(B0); EQM("static A * B", a * b, 6u, 7u, mprod(A0, i, B0, j, 5)); EQM("static A * k", a * K0, 6u, 5u, M_(A0, i, j) * K0); }
// --- mat_density | src/algebra/algebra.h | density and sparsity
for(int i = 0; i < 2; i++) for(int j = 0; j < 3; j++) { mat<real, 2, 3> m; m(0, 1) = 4; m(1, 2) = -3; m(i, j) = K0; real n = 0; for(int p = 0; p < 2; p++) for(int q = 0; q < 3; q++) n += (p == i && q == j) ? (th::abs(K0) > 1E-12 ? 1 : 0) : ((p == 0 && q == 1) || (p == 1 && q == 2)) ? 1 : 0;
	EQ("density", algebra::density(m), n / 6); EQ("sparsity", algebra::sparsity(m), 1 - n / 6); }
// --- mat_iterators | src/algebra/mat.h | iterators visit every element once, row by row, and know their position
{ mat<real, 2, 3> m = mkms<mat<real, 2, 3>>(A0); unsigned n = 0; for(auto it = m.begin(); it != m.end(); ++it, ++n) { EQI("row", it.row_index(), n / 3); EQI("column", it.col_index(), n % 3); EQ("element", *it, M_(A0, n / 3, n % 3)); } EQI("elements", n, 6); mat_iterator<mat<real, 2, 3>> f(m); EQ("first by default", *f, M_(A0, 0, 0)); EQI("begins there", f == m.begin(), 1); EQI("not the end", f == m.end(), 0);
mat_iterator<mat<real, 2, 3>> g(m, 1); EQ("row only", *g, M_(A0, 1, 0)); *g = K0; EQ("writes", m(1, 0), K0); mat<real> d = mkdm(3, 2, A0); n = 0; for(auto& x : d) { EQ("dynamic", x, M_(A0, n / 2, n % 2)); n++; } EQI("dynamic elements", n, 6); const mat<real> c = d; n = 0; for(const auto& x : c) { EQ("constant", x, M_(A0, n / 2, n % 2)); n++; } EQI("constant elements", n, 6); }
// --- vec_iterators | src/algebra/vec.h | iterators visit every element of a vector once, in order, and know their position
{ vec<real, 3> v = mks<vec<real, 3>>(A0); unsigned n = 0; for(auto it = v.begin(); it != v.end(); ++it, ++n) { EQI("index", it.index(), n); EQ("element", *it, V_(A0, n)); } EQI("elements", n, 3); vec<real> d = mkd(4, A0); n = 0; for(auto& x : d) { EQ("dynamic", x, V_(A0, n)); x = K0; n++; } EQI("dynamic elements", n, 4); EQV("written", d, 4u, K0); const vec<real> c = mkd(2, A0); n = 0; for(auto it = c.begin(); it != c.end(); ++it) { EQ("constant", *it, V_(A0, n)); n++; } EQI("constant elements", n, 2); }
// --- mat_overloads | src/algebra/mat.h | products of dynamic matrices with other vector and matrix types
{ mat<real> a = mkdm(2, 3, A0); std::vector<real> sv = {V_(B0, 0), V_(B0, 1), V_(B0, 2)}; mat<real, 3, 3> s = mkms<mat<real, 3, 3>>(B0), t = mkms<mat<real, 3, 3>>(A0); EQM("D.mul(S)", mat<real>(mkdm(3, 3, A0)).mul(s), 3u, 3u, mprod(A0, i, B0, j, 3)); EQM("D * S", mkdm(3, 3, A0) * s, 3u, 3u, mprod(A0, i, B0, j, 3)); const vec<real> w = a.transform(mkd(3, B0)); EQV("D.transform(v)", w, 2u, mrow(A0, i, B0, 3)); const vec<real> g = a.transform<vec<real>>(mkd(3, B0)); EQV("generic transform", g, 2u, mrow(A0, i, B0, 3)); }
// --- hermitian_rect | src/algebra/algebra.h | Hermitian conjugates of rectangular matrices
{ mat<cplx> a = mkcm(mat<cplx>(2, 3), A0); mat<cplx> h(3, 2); errno = 0; algebra::hermitian(h, a); EQI("accepted", errno, 0); for(int i = 0; i < 3; i++) for(int j = 0; j < 2; j++) { EQ("re", h(i, j).Re(), IN(20 * j + 2 * i)); EQ("im", h(i, j).Im(), -IN(20 * j + 2 * i + 1)); } }
// --- grow_vectors | src/algebra/algebra.h, src/algebra/vec.h | vector operations of any size | n=40 grow=1100
{ const unsigned N = VP_N; vec<real> x(N), y(N), w(N), z(N); real d = 0, q = 0; for(unsigned i = 0; i < N; i++) { x[i] = IN(i); y[i] = real(i % 5 + 1) / 4; d += IN(i) * (real(i % 5 + 1) / 4); q += y[i] * y[i]; }
EQ("dot", algebra::dot(x, y), d); EQ("product", x * y, d); EQ("squared norm", algebra::sqr_norm(y), q); EQ("sum operator", (x + y)[N - 1], IN(N - 1) + y[N - 1]); algebra::vec_sum(w, x, y); algebra::vec_diff(z, x, y); const vec<real> s = x + y, t = x - y, u = x * real(3), v = x / real(2); vec<real> a = x, b = x, c = x, e = x; a += y; b -= y; c *= real(3); algebra::vec_copy(e, y); vec<real> g = x, h(N); algebra::vec_scalmul(real(5), g); algebra::vec_scalmul(h, real(5), x); vec<real> o = x; algebra::vec_zeroes(o); const vec<real> m = -x;
for(unsigned i : {0u, 1u, VP_N / 2u, VP_N - 2u, VP_N - 1u}) { const real k = real(i % 5 + 1) / 4; EQ("sum", w[i], IN(i) + k); EQ("difference", z[i], IN(i) - k); EQ("+", s[i], IN(i) + k); EQ("-", t[i], IN(i) - k); EQ("* k", u[i], 3 * IN(i)); EQ("/ k", v[i], IN(i) / 2); EQ("+=", a[i], IN(i) + k); EQ("-=", b[i], IN(i) - k); EQ("*=", c[i], 3 * IN(i)); EQ("copy", e[i], k); EQ("scaled", g[i], 5 * IN(i)); EQ("scaled into", h[i], 5 * IN(i)); EQ("zeroes", o[i], 0); EQ("opposite", m[i], -IN(i)); } EQI("equal", x == x, 1); vec<real> n = y; n[N - 1] += 1; EQI("last differs", n == y, 0); EQI("differs", n != y, 1); }
// --- grow_matrices | src/algebra/algebra.h, src/algebra/mat.h | matrix operations of any size | n=12 grow=66 unroll=100
{ const unsigned N = VP_N; mat<real> A(N, N), B(N, N); vec<real> x(N); for(unsigned i = 0; i < N; i++) { x[i] = real(i % 4) - 1; for(unsigned j = 0; j < N; j++) { A(i, j) = IN(i * 64 + j); B(i, j) = real((3 * i + 5 * j) % 7) - 3; } }
const mat<real> P = algebra::mat_mul(A, B), Q = algebra::mat_transpose_mul(A, B), R = algebra::mat_mul_transpose(A, B), T = algebra::transpose(A), S = A + B, D = A - B, K = A * real(2), O = A * B; mat<real> U = A, W = A, Z = A, I(N, N), L = A; algebra::make_transposed(U); algebra::mat_swap_rows(W, 0, N - 1); algebra::mat_swap_cols(Z, 1, N - 1); algebra::make_identity(I); algebra::mat_shift_diagonal(L, real(2)); const vec<real> v = algebra::transform(A, x), u = A * x; real tr = 0, nz = 0; for(unsigned i = 0; i < N; i++) { tr += IN(i * 65); for(unsigned j = 0; j < N; j++) nz += B(i, j) != 0; } EQ("trace", algebra::trace(A), tr); EQ("density", algebra::density(B), nz / (N * N)); mat<real> C = I; EQI("identity symmetric", algebra::is_symmetric(I), 1); EQI("identity diagonal", algebra::is_diagonal(I), 1); C(0, N - 1) = 3; EQI("symmetric", algebra::is_symmetric(C), 0); EQI("diagonal", algebra::is_diagonal(C), 0); EQI("lower", algebra::is_lower_triangular(C), 0); EQI("upper", algebra::is_upper_triangular(C), 1); EQI("equal", C == I, 0);
mat<real> E(N, N), F(N, N), G(N, N); algebra::mat_sum(E, A, B); algebra::mat_diff(F, A, B); algebra::mat_lincomb(G, real(2), A, real(-1), B);
for(unsigned i : {0u, VP_N / 2u, VP_N - 1u}) { real s = 0; for(unsigned k = 0; k < N; k++) s += IN(i * 64 + k) * x[k]; EQ("transform", v[i], s); EQ("A v", u[i], s); for(unsigned j : {0u, VP_N - 2u, VP_N - 1u}) { real p = 0, q = 0, r = 0; for(unsigned k = 0; k < N; k++) { p += IN(i * 64 + k) * B(k, j); q += IN(k * 64 + i) * B(k, j); r += IN(i * 64 + k) * B(j, k); }
EQ("product", P(i, j), p); EQ("A B", O(i, j), p); EQ("transposed product", Q(i, j), q); EQ("product transposed", R(i, j), r); EQ("transpose", T(i, j), IN(j * 64 + i)); EQ("transposed", U(i, j), IN(j * 64 + i)); EQ("sum", S(i, j), IN(i * 64 + j) + B(i, j)); EQ("difference", D(i, j), IN(i * 64 + j) - B(i, j)); EQ("scaled", K(i, j), 2 * IN(i * 64 + j)); EQ("rows", W(i, j), IN((i == 0 ? N - 1 : i == N - 1 ? 0 : i) * 64 + j)); EQ("cols", Z(i, j), IN(i * 64 + (j == 1 ? N - 1 : j == N - 1 ? 1 : j))); EQ("identity", I(i, j), i == j); EQ("shifted", L(i, j), IN(i * 64 + j) + (i == j ? 2 : 0)); EQ("sum into", E(i, j), IN(i * 64 + j) + B(i, j)); EQ("difference into", F(i, j), IN(i * 64 + j) - B(i, j)); EQ("combination", G(i, j), 2 * IN(i * 64 + j) - B(i, j)); } } }
