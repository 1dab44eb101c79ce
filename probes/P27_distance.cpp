#include "la.h"
#define A0 0
#define B0 1000
static inline real ab(real x) { return x < 0 ? -x : x; }
static inline real mx(real x, real y) { return x > y ? x : y; }
template<typename V> static inline void norms(const V& v, const unsigned n) {
	real s1 = 0, s2 = 0, s3 = 0, m = 0; for(unsigned i = 0; i < n; i++) { s1 += ab(V_(A0, i)); s2 += V_(A0, i) * V_(A0, i); s3 += ab(V_(A0, i)) * V_(A0, i) * V_(A0, i); m = mx(m, ab(V_(A0, i))); }
	EQ("l1", algebra::l1_norm(v), s1); EQ("linf", algebra::linf_norm(v), m); EQ("lp 1", algebra::lp_norm(v, 1), s1);
	const real e = algebra::l2_norm(v); EQ("l2 squared", e * e, s2); EQI("l2 sign", e >= 0, 1); const real f = algebra::lp_norm(v, 2); EQ("lp 2", f * f, s2); const real c = algebra::lp_norm(v, 3); EQ("lp 3", c * c * c, s3);
	const real g = algebra::norm(v); EQ("norm squared", g * g, s2); EQ("sqr_norm", algebra::sqr_norm(v), s2); }
template<typename V> static inline void dists(const V& v, const V& w, const unsigned n) {
	real s1 = 0, s2 = 0, s3 = 0, m = 0; for(unsigned i = 0; i < n; i++) { const real d = V_(A0, i) - V_(B0, i); s1 += ab(d); s2 += d * d; s3 += ab(d) * d * d; m = mx(m, ab(d)); }
	EQ("manhattan", algebra::manhattan_distance(v, w), s1); EQ("chebyshev", algebra::chebyshev_distance(v, w), m); EQ("minkowski 1", algebra::minkowski_distance(v, w, 1), s1);
	real e = algebra::euclidean_distance(v, w); EQ("euclidean", e * e, s2); e = algebra::distance(v, w); EQ("distance", e * e, s2); e = algebra::minkowski_distance(v, w, 2); EQ("minkowski 2", e * e, s2); e = algebra::minkowski_distance(v, w, 3); EQ("minkowski 3", e * e * e, s3);
	EQ("symmetric", algebra::euclidean_distance(w, v), algebra::euclidean_distance(v, w)); EQ("manhattan symmetric", algebra::manhattan_distance(w, v), algebra::manhattan_distance(v, w)); EQ("chebyshev symmetric", algebra::chebyshev_distance(w, v), algebra::chebyshev_distance(v, w));
	EQ("null self distance", algebra::euclidean_distance(v, v), 0); EQ("null manhattan", algebra::manhattan_distance(v, v), 0); EQ("null chebyshev", algebra::chebyshev_distance(v, v), 0); }
#define MISD(L, X) { errno = 0; ISNAN(L, X); REPORTED(L); }
// --- norms | src/algebra/distance.h | norms of vectors
{ norms(mks<vec2>(A0), 2); norms(mkd(2, A0), 2); }
// --- norms3 | src/algebra/distance.h | norms of three-dimensional vectors
{ norms(mks<vec3>(A0), 3); norms(mkd(3, A0), 3); }
// --- norms1 | src/algebra/distance.h | norms of vectors with one element and of empty vectors
{ norms(mkd(1, A0), 1); vec<real> e; EQ("l1 empty", algebra::l1_norm(e), 0); EQ("l2 empty", algebra::l2_norm(e), 0); EQ("linf empty", algebra::linf_norm(e), 0); EQ("lp empty", algebra::lp_norm(e, 2), 0); }
// --- dists | src/algebra/distance.h | distances between vectors
{ dists(mks<vec2>(A0), mks<vec2>(B0), 2); }
// --- dists_dyn | src/algebra/distance.h | distances between dynamic vectors
{ dists(mkd(2, A0), mkd(2, B0), 2); }
// --- dists1 | src/algebra/distance.h | distances between scalars and one-dimensional vectors
{ dists(mkd(1, A0), mkd(1, B0), 1); const real a = IN(0), b = IN(1); EQ("euclidean", algebra::euclidean_distance(a, b), ab(a - b)); EQ("distance", algebra::distance(a, b), ab(a - b)); EQ("minkowski 1", algebra::minkowski_distance(a, b, 1), ab(a - b)); real e = algebra::minkowski_distance(a, b, 2); EQ("minkowski 2", e * e, (a - b) * (a - b)); EQI("minkowski sign", e >= 0, 1); }
// --- canberra | src/algebra/distance.h | Canberra distance
{ const real a = V_(A0, 0), c = V_(B0, 0); real s = 0; if(ab(a) + ab(c) > 0) s += ab(a - c) / (ab(a) + ab(c)); EQ("dynamic", algebra::canberra_distance(mkd(1, A0), mkd(1, B0)), s); vec2 v = {a, -3.0}, w = {c, 5.0}; EQ("canberra", algebra::canberra_distance(v, w), s + 1); v = {0.0, a}; w = {0.0, c}; EQ("null pair", algebra::canberra_distance(v, w), s); vec2 z = {0, 0}; EQ("null vectors", algebra::canberra_distance(z, z), 0); }
// --- cosine | src/algebra/distance.h | cosine distance
{ const real a = V_(A0, 0), b = V_(A0, 1), c = V_(B0, 0), d = V_(B0, 1); const real n = (a * a + b * b) * (c * c + d * d); if(n > 0) { const real e = 1 - algebra::cosine_distance(mks<vec2>(A0), mks<vec2>(B0)); EQ("cosine", e * th::sqrt(n), a * c + b * d); const real f = algebra::cosine_distance(mkd(2, A0), mkd(2, B0)); EQ("dynamic", f, 1 - e); } if(a * a + b * b > 0) EQ("parallel", algebra::cosine_distance(mks<vec2>(A0), mks<vec2>(A0)), 0); }
// --- counting | src/algebra/distance.h | Hamming and discrete distances count the differing elements
{ const real a = V_(A0, 0), b = V_(A0, 1), c = V_(B0, 0), d = V_(B0, 1), t = IN(5000); const unsigned n = (ab(a - c) > t) + (ab(b - d) > t); EQ("hamming", algebra::hamming_distance(mks<vec2>(A0), mks<vec2>(B0), t), n); EQ("discrete", algebra::discrete_distance(mks<vec2>(A0), mks<vec2>(B0), t), n ? 1 : 0); EQ("dynamic hamming", algebra::hamming_distance(mkd(2, A0), mkd(2, B0), t), n); EQ("dynamic discrete", algebra::discrete_distance(mkd(2, A0), mkd(2, B0), t), n ? 1 : 0);
EQ("self hamming", algebra::hamming_distance(mkd(2, A0), mkd(2, A0)), 0); EQ("self discrete", algebra::discrete_distance(mkd(2, A0), mkd(2, A0)), 0); }
// --- complex | src/algebra/distance.h | distances and norms of complex vectors
{ typedef vec<cplx, 2> V; V v = mkcv(V(), A0), w = mkcv(V(), B0); real s = 0; for(int i = 0; i < 4; i++) s += (V_(A0, i) - V_(B0, i)) * (V_(A0, i) - V_(B0, i)); cplx d = algebra::distance(v, w); if(s > 1E-9) EQ("hermitian", d.Re() * d.Re(), s); EQ("hermitian im", d.Im(), 0); EQI("sign", d.Re() >= 0, 1); cplx h = algebra::hermitian_distance(v, w); if(s > 1E-9) EQ("hermitian_distance", h.Re() * h.Re(), s);
cplx e = algebra::distance(v[0], w[0]); EQ("scalar", e.Re() * e.Re(), (V_(A0, 0) - V_(B0, 0)) * (V_(A0, 0) - V_(B0, 0)) + (V_(A0, 1) - V_(B0, 1)) * (V_(A0, 1) - V_(B0, 1))); EQ("scalar im", e.Im(), 0);
real l = algebra::linf_norm(v), n0 = V_(A0, 0) * V_(A0, 0) + V_(A0, 1) * V_(A0, 1), n1 = V_(A0, 2) * V_(A0, 2) + V_(A0, 3) * V_(A0, 3); EQ("complex linf", l * l, mx(n0, n1)); }
// --- mismatch | src/algebra/distance.h | distances of vectors of different sizes are reported and are NaN
{ const vec<real> v = mkd(3, A0), w = mkd(2, B0); MISD("euclidean", algebra::euclidean_distance(v, w)) MISD("euclidean short", algebra::euclidean_distance(w, v)) MISD("distance", algebra::distance(v, w)) MISD("minkowski", algebra::minkowski_distance(v, w, 2)) MISD("manhattan", algebra::manhattan_distance(v, w)) MISD("chebyshev", algebra::chebyshev_distance(v, w)) MISD("discrete", algebra::discrete_distance(v, w)) MISD("canberra", algebra::canberra_distance(v, w)) MISD("cosine", algebra::cosine_distance(v, w)) MISD("hamming", algebra::hamming_distance(v, w)) MISD("manhattan short", algebra::manhattan_distance(w, v)) MISD("minkowski short", algebra::minkowski_distance(w, v, 2)) MISD("chebyshev short", algebra::chebyshev_distance(w, v)) MISD("discrete short", algebra::discrete_distance(w, v)) MISD("canberra short", algebra::canberra_distance(w, v)) MISD("cosine short", algebra::cosine_distance(w, v)) MISD("hamming short", algebra::hamming_distance(w, v)) }
// --- grow_norms | src/algebra/distance.h | norms and distances of any size | n=40 grow=1100
{ const unsigned N = VP_N; vec<real> x(N), y(N); real l1 = 0, l2 = 0, d1 = 0, d2 = 0, h = 0; for(unsigned i = 0; i < N; i++) { x[i] = (i % 2 ? -1 : 1) * real(i % 5 + 1); y[i] = real((3 * i) % 7); l1 += i % 5 + 1; l2 += x[i] * x[i]; const real e = x[i] > y[i] ? x[i] - y[i] : y[i] - x[i]; d1 += e; d2 += e * e; h += e != 0; } x[N - 1] = 100; y[N - 1] = -50; { const unsigned i = N - 1; const real o = (i % 2 ? -1 : 1) * real(i % 5 + 1), q = real((3 * i) % 7), e = o > q ? o - q : q - o; l1 += 100 - real(i % 5 + 1); l2 += 10000 - o * o; d1 += 150 - e; d2 += 22500 - e * e; h += e == 0; }
using namespace th::algebra; EQ("l1", l1_norm(x), l1); EQ("l2", l2_norm(x), th::sqrt(l2)); EQ("linf", linf_norm(x), 100); EQ("manhattan", manhattan_distance(x, y), d1); EQ("chebyshev", chebyshev_distance(x, y), 150); EQ("euclidean", euclidean_distance(x, y), th::sqrt(d2)); EQ("hamming", hamming_distance(x, y), h); EQ("discrete", discrete_distance(x, y), 1); EQ("discrete same", discrete_distance(x, x), 0); }
// --- grow_orders | src/algebra/distance.h lp_norm, minkowski_distance | norms and distances of any order | n=7 grow=40 opaque=root
{ const unsigned p = VP_N; const vec<real> v = mkd(2, A0), w = mkd(2, B0); real s = 0, d = 0, e = 1; for(unsigned k = 0; k < p; k++) e *= ab(IN(0) - IN(1)); for(unsigned i = 0; i < 2; i++) { real x = 1, y = 1; for(unsigned k = 0; k < p; k++) { x *= ab(v[i]); y *= ab(v[i] - w[i]); } s += x; d += y; } EQ("norm", algebra::lp_norm(v, p), root(s, p)); EQ("distance", algebra::minkowski_distance(v, w, p), root(d, p)); EQ("scalar distance", algebra::minkowski_distance(IN(0), IN(1), p), root(e, p)); }
