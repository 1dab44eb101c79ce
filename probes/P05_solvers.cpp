#include "la.h"
#define A0 0
#define B0 1000
// the decomposition multiplied back, computed on the returned factors
template<typename M> static inline real mulel(const M& l, const M& u, unsigned i, unsigned j, unsigned n) { real s = 0; for(unsigned k = 0; k < n; k++) s += l(i, k) * u(k, j); return s; }
template<typename M> static inline real mulelt(const M& l, const M& u, unsigned i, unsigned j, unsigned n) { real s = 0; for(unsigned k = 0; k < n; k++) s += l(i, k) * u(j, k); return s; }
template<typename M, typename V> static inline real rowdot(const M& a, const V& x, unsigned i, unsigned n) { real s = 0; for(unsigned k = 0; k < n; k++) s += a(i, k) * x[k]; return s; }
template<typename M> static inline void lu(M a, const unsigned n) {
	M L = a, U = a; errno = 0; algebra::decompose_lu(a, L, U);
	if(!errno) for(unsigned i = 0; i < n; i++) for(unsigned j = 0; j < n; j++) { EQ("L U = A", mulel(L, U, i, j, n), M_(A0, i, j)); if(j > i) EQ("L is lower triangular", L(i, j), 0); if(i == j) EQ("L has unit diagonal", L(i, j), 1); if(j < i) EQ("U is upper triangular", U(i, j), 0); }
	M P = a; errno = 0; algebra::decompose_lu_inplace(P);
	if(!errno) for(unsigned i = 0; i < n; i++) for(unsigned j = 0; j < n; j++) { real s = 0; for(unsigned k = 0; k <= i && k <= j; k++) s += (k == i ? 1 : P(i, k)) * P(k, j); EQ("in-place LU multiplies back", s, M_(A0, i, j)); }
}
template<typename M> static inline void det(M a, const unsigned n) {
	errno = 0; const real d = algebra::det(a);
	if(!errno) { real e = 0;
		if(n == 1) e = M_(A0, 0, 0);
		if(n == 2) e = M_(A0, 0, 0) * M_(A0, 1, 1) - M_(A0, 0, 1) * M_(A0, 1, 0);
		if(n == 3) e = M_(A0, 0, 0) * (M_(A0, 1, 1) * M_(A0, 2, 2) - M_(A0, 1, 2) * M_(A0, 2, 1)) - M_(A0, 0, 1) * (M_(A0, 1, 0) * M_(A0, 2, 2) - M_(A0, 1, 2) * M_(A0, 2, 0)) + M_(A0, 0, 2) * (M_(A0, 1, 0) * M_(A0, 2, 1) - M_(A0, 1, 1) * M_(A0, 2, 0));
		EQ("determinant", d, e); }
}
template<typename M, typename V> static inline void solves(M a, V b, const unsigned n) {
	errno = 0; V x = algebra::solve(a, b); if(!errno) { EQI("solution size", x.size(), n); for(unsigned i = 0; i < n; i++) EQ("A x = b", rowdot(a, x, i, n), V_(B0, i)); }
	errno = 0; x = algebra::solve_lu(a, b); if(!errno) for(unsigned i = 0; i < n; i++) EQ("solve_lu", rowdot(a, x, i, n), V_(B0, i));
	M L = a, U = a; errno = 0; algebra::decompose_lu(a, L, U); if(!errno) { x = algebra::solve_lu(L, U, b); if(!errno) for(unsigned i = 0; i < n; i++) EQ("solve_lu with factors", rowdot(a, x, i, n), V_(B0, i)); }
	M P = a; errno = 0; algebra::decompose_lu_inplace(P); if(!errno) { x = b; algebra::solve_lu_inplace(P, x); if(!errno) for(unsigned i = 0; i < n; i++) EQ("solve_lu_inplace", rowdot(a, x, i, n), V_(B0, i)); }
}
template<typename M, typename V> static inline void tri(M a, V b, const unsigned n) {
	M l = a, u = a; for(unsigned i = 0; i < n; i++) for(unsigned j = 0; j < n; j++) { if(j > i) l(i, j) = 0; if(j < i) u(i, j) = 0; }
	errno = 0; V x = algebra::solve_triangular_lower(l, b); if(!errno) { EQI("size", x.size(), n); for(unsigned i = 0; i < n; i++) EQ("lower", rowdot(l, x, i, n), V_(B0, i)); }
	errno = 0; x = algebra::solve_triangular_upper(u, b); if(!errno) { EQI("size", x.size(), n); for(unsigned i = 0; i < n; i++) EQ("upper", rowdot(u, x, i, n), V_(B0, i)); }
	M w = u; for(unsigned i = 0; i < n; i++) for(unsigned j = i + 1; j < n; j++) w(i, j) = 1 + i + j;
	errno = 0; const V y = algebra::solve_triangular(l, b); if(!errno) for(unsigned i = 0; i < n; i++) EQ("solve_triangular (lower)", rowdot(l, y, i, n), V_(B0, i));
	errno = 0; const V z = algebra::solve_triangular(w, b); if(!errno) for(unsigned i = 0; i < n; i++) EQ("solve_triangular (upper)", rowdot(w, z, i, n), V_(B0, i));
}
template<typename M> static inline void inv(M a, const unsigned n) {
	errno = 0; M r = algebra::inverse(a); if(!errno) for(unsigned i = 0; i < n; i++) for(unsigned j = 0; j < n; j++) { EQ("A inverse(A) = 1", mulel(a, r, i, j, n), i == j ? 1 : 0); EQ("inverse(A) A = 1", mulel(r, a, i, j, n), i == j ? 1 : 0); }
	errno = 0; r = a; r.invert(); if(!errno) for(unsigned i = 0; i < n; i++) for(unsigned j = 0; j < n; j++) EQ("A invert = 1", mulel(a, r, i, j, n), i == j ? 1 : 0);
	errno = 0; M q = a; algebra::inverse(q, a); if(!errno) for(unsigned i = 0; i < n; i++) for(unsigned j = 0; j < n; j++) EQ("A inverse(dest) = 1", mulel(a, q, i, j, n), i == j ? 1 : 0);
}
template<typename M, typename V> static inline void chol(M a, V b, const unsigned n) {
	for(unsigned i = 0; i < n; i++) for(unsigned j = 0; j < i; j++) a(i, j) = M_(A0, j, i);
	errno = 0; M L = algebra::decompose_cholesky(a);
	if(!errno) for(unsigned i = 0; i < n; i++) for(unsigned j = 0; j < n; j++) { EQ("L L^T = A", mulelt(L, L, i, j, n), i < j ? M_(A0, i, j) : M_(A0, j, i)); if(j > i) EQ("L is lower triangular", L(i, j), 0); }
	errno = 0; M P = a; algebra::decompose_cholesky_inplace(P);
	if(!errno) for(unsigned i = 0; i < n; i++) for(unsigned j = 0; j < n; j++) { EQ("in-place L L^T = A", mulelt(P, P, i, j, n), i < j ? M_(A0, i, j) : M_(A0, j, i)); if(j > i) EQ("in-place L is lower triangular", P(i, j), 0); }
}
template<typename M, typename V> static inline void cholsolve(M a, V b, const unsigned n) {
	M l = a; for(unsigned i = 0; i < n; i++) for(unsigned j = i + 1; j < n; j++) l(i, j) = 0;
	errno = 0; V x = algebra::solve_cholesky(l, b);
	if(!errno) for(unsigned i = 0; i < n; i++) { real s = 0; for(unsigned k = 0; k < n; k++) s += mulelt(l, l, i, k, n) * x[k]; EQ("L L^T x = b", s, V_(B0, i)); }
}
#define RUNS(N) typedef mat<real, N, N> M; typedef vec<real, N> V; const M a = mkms<M>(A0); const V b = mks<V>(B0);
#define RUND(N) const mat<real> a = mkdm(N, N, A0); const vec<real> b = mkd(N, B0);
#define NOT_REPORTED(L) EQI(L " not reported", errno, 0)
#define BIG(x) ((x) >= 1E-6 || (x) <= -1E-6)
template<typename M, typename V> static inline void regular(const M& a, const V& b) {
	errno = 0; M L = a, U = a; algebra::decompose_lu(a, L, U); NOT_REPORTED("decompose_lu"); errno = 0; M P = a; algebra::decompose_lu_inplace(P); NOT_REPORTED("decompose_lu_inplace");
	errno = 0; algebra::det(a); NOT_REPORTED("det"); errno = 0; V x = algebra::solve(a, b); NOT_REPORTED("solve"); errno = 0; x = algebra::solve_lu(a, b); NOT_REPORTED("solve_lu"); errno = 0; x = algebra::solve_lu(L, U, b); NOT_REPORTED("solve_lu with factors"); errno = 0; x = b; algebra::solve_lu_inplace(P, x); NOT_REPORTED("solve_lu_inplace");
}
template<typename M, typename V> static inline void reginv(const M& a, const V& b) {
	errno = 0; M r = algebra::inverse(a); NOT_REPORTED("inverse"); errno = 0; r = a; r.invert(); NOT_REPORTED("invert"); errno = 0; algebra::inverse(r, a); NOT_REPORTED("inverse (dest)");
}
template<typename M, typename V> static inline void regtri(M a, const V& b, const unsigned n) {
	M l = a, u = a; bool ok = true; for(unsigned i = 0; i < n; i++) { for(unsigned j = 0; j < n; j++) { if(j > i) l(i, j) = 0; if(j < i) u(i, j) = 0; } ok = ok && BIG(a(i, i)); }
	if(ok) { errno = 0; algebra::solve_triangular_lower(l, b); NOT_REPORTED("solve_triangular_lower"); errno = 0; algebra::solve_triangular_upper(u, b); NOT_REPORTED("solve_triangular_upper"); errno = 0; algebra::solve_triangular(l, b); NOT_REPORTED("solve_triangular (lower)"); errno = 0; algebra::solve_cholesky(l, b); NOT_REPORTED("solve_cholesky"); for(unsigned i = 0; i < n; i++) for(unsigned j = i + 1; j < n; j++) u(i, j) = 1 + i + j; errno = 0; algebra::solve_triangular(u, b); NOT_REPORTED("solve_triangular (upper)"); }
}
#define EIGQ(label, expr, lo, hi) errno = 0; l = expr; EQI(label " converges", errno, 0); EQI(label, l > lo && l < hi, 1);
#define EIGV(label, expr, lo, hi, v0, v1) EIGQ(label, expr, lo, hi) EQI(label " vector", v[0] * (v0) + v[1] * (v1) > 0.999 || v[0] * (v0) + v[1] * (v1) < -0.999, 1); EQI(label " normalized", v[0] * v[0] + v[1] * v[1] > 0.999 && v[0] * v[0] + v[1] * v[1] < 1.001, 1);
#define EIGN(label, expr) errno = 0; ISNAN(label, expr); EQI(label " reported", errno, ERANGE);
// --- lu2 | src/algebra/algebra.h | LU decomposition of 2x2 matrices
{ RUNS(2) lu(a, 2u); } { RUND(2) lu(a, 2u); }
// --- lu3 | src/algebra/algebra.h | LU decomposition of 3x3 matrices
{ RUNS(3) lu(a, 3u); }
// --- lu3d | src/algebra/algebra.h | LU decomposition of dynamic 3x3 matrices
{ RUND(3) lu(a, 3u); }
// --- lu4 | src/algebra/algebra.h | LU decomposition of 4x4 matrices
{ RUNS(4) lu(a, 4u); }
// --- lu1 | src/algebra/algebra.h | LU decomposition and determinant of 1x1 matrices
{ RUNS(1) lu(a, 1u); det(a, 1u); solves(a, b, 1u); tri(a, b, 1u); inv(a, 1u); chol(a, b, 1u); cholsolve(a, b, 1u); } { RUND(1) lu(a, 1u); det(a, 1u); solves(a, b, 1u); tri(a, b, 1u); inv(a, 1u); chol(a, b, 1u); cholsolve(a, b, 1u); }
// --- det2 | src/algebra/algebra.h | determinant of 2x2 and 3x3 matrices
{ RUNS(2) det(a, 2u); } { RUND(2) det(a, 2u); }
// --- det3 | src/algebra/algebra.h | determinant of 3x3 matrices
{ RUNS(3) det(a, 3u); } { RUND(3) det(a, 3u); }
// --- solve2 | src/algebra/algebra.h | linear systems of 2 equations
{ RUNS(2) solves(a, b, 2u); } { RUND(2) solves(a, b, 2u); }
// --- solve3 | src/algebra/algebra.h | linear systems of 3 equations
{ RUNS(3) solves(a, b, 3u); }
// --- solve3d | src/algebra/algebra.h | dynamic linear systems of 3 equations
{ RUND(3) solves(a, b, 3u); }
// --- solve4 | src/algebra/algebra.h | linear systems of 4 equations
{ RUNS(4) solves(a, b, 4u); }
// --- tri2 | src/algebra/algebra.h | triangular systems of 2 equations
{ RUNS(2) tri(a, b, 2u); } { RUND(2) tri(a, b, 2u); }
// --- tri3 | src/algebra/algebra.h | triangular systems of 3 equations
{ RUNS(3) tri(a, b, 3u); }
// --- tri4 | src/algebra/algebra.h | dynamic triangular systems of 4 equations
{ RUND(4) tri(a, b, 4u); }
// --- inv2 | src/algebra/algebra.h | inverse of 2x2 matrices, null pivots included
{ RUNS(2) inv(a, 2u); } { RUND(2) inv(a, 2u); }
// --- inv3 | src/algebra/algebra.h | inverse of 3x3 matrices, null pivots included
{ RUNS(3) errno = 0; M r = algebra::inverse(a); if(!errno) for(unsigned i = 0; i < 3; i++) for(unsigned j = 0; j < 3; j++) EQ("A inverse(A) = 1", mulel(a, r, i, j, 3), i == j ? 1 : 0); }
// --- inv3d | src/algebra/algebra.h | inverse of dynamic 3x3 matrices, null pivots included
{ RUND(3) errno = 0; mat<real> r = algebra::inverse(a); if(!errno) for(unsigned i = 0; i < 3; i++) for(unsigned j = 0; j < 3; j++) EQ("A inverse(A) = 1", mulel(a, r, i, j, 3), i == j ? 1 : 0); }
// --- inv_null_pivots | src/algebra/algebra.h | inverse of matrices which need a row exchange
{ mat<real, 3, 3> a = mkms<mat<real, 3, 3>>(A0); a(0, 0) = 0; errno = 0; mat<real, 3, 3> r = algebra::inverse(a); if(!errno) for(unsigned i = 0; i < 3; i++) for(unsigned j = 0; j < 3; j++) EQ("A inverse(A) = 1 (a00 = 0)", mulel(a, r, i, j, 3), i == j ? 1 : 0);
a = mkms<mat<real, 3, 3>>(A0); a(0, 0) = 1; a(0, 1) = 2; a(1, 0) = 2; a(1, 1) = 4; errno = 0; r = algebra::inverse(a); if(!errno) for(unsigned i = 0; i < 3; i++) for(unsigned j = 0; j < 3; j++) EQ("A inverse(A) = 1 (null minor)", mulel(a, r, i, j, 3), i == j ? 1 : 0);
mat<real, 2, 2> s = {{IN(0), IN(1)}, {2 * IN(0), 2 * IN(1)}}; errno = 0; if(IN(0) != 0) { algebra::inverse(s); REPORTED("singular matrix"); } }
// --- chol2 | src/algebra/algebra.h | Cholesky decomposition of 2x2 matrices
{ RUNS(2) chol(a, b, 2u); }
// --- chol2d | src/algebra/algebra.h | Cholesky decomposition of dynamic 2x2 matrices
{ RUND(2) chol(a, b, 2u); }
// --- chol3 | src/algebra/algebra.h | Cholesky decomposition of 3x3 matrices
{ RUNS(3) chol(a, b, 3u); }
// --- chol4 | src/algebra/algebra.h | Cholesky decomposition of 4x4 matrices
{ RUNS(4) chol(a, b, 4u); }
// --- cholsolve | src/algebra/algebra.h | linear systems from a Cholesky factor
{ RUNS(2) cholsolve(a, b, 2u); } { RUND(3) cholsolve(a, b, 3u); } { RUNS(4) cholsolve(a, b, 4u); }
// --- lu_complex | src/algebra/algebra.h | LU decomposition, inverse and solution for complex matrices
{ typedef mat<cplx, 2, 2> M; M a; a = mkcm(a, A0); M L, U; errno = 0; algebra::decompose_lu(a, L, U); if(!errno) for(int i = 0; i < 2; i++) for(int j = 0; j < 2; j++) { cplx s = L(i, 0) * U(0, j) + L(i, 1) * U(1, j); EQ("L U = A re", s.Re(), IN(20*i+2*j)); EQ("L U = A im", s.Im(), IN(20*i+2*j+1)); } }
// --- solve_complex | src/algebra/algebra.h | linear systems with complex coefficients
{ typedef mat<cplx, 2, 2> M; M a; a = mkcm(a, A0); vec<cplx, 2> b; b = mkcv(b, B0); errno = 0; vec<cplx, 2> x = algebra::solve(a, b); if(!errno) for(int i = 0; i < 2; i++) { cplx s = a(i, 0) * x[0] + a(i, 1) * x[1]; EQ("A x = b re", s.Re(), IN(B0+2*i)); EQ("A x = b im", s.Im(), IN(B0+2*i+1)); } }
// --- inv_complex | src/algebra/algebra.h | inverse of complex matrices
{ typedef mat<cplx, 2, 2> M; M a; a = mkcm(a, A0); errno = 0; M r = algebra::inverse(a); if(!errno) for(int i = 0; i < 2; i++) for(int j = 0; j < 2; j++) { cplx s = a(i, 0) * r(0, j) + a(i, 1) * r(1, j); EQ("A inverse(A) re", s.Re(), i == j ? 1 : 0); EQ("A inverse(A) im", s.Im(), 0); } }
// --- rayleigh | src/algebra/algebra.h | Rayleigh quotient
{ RUNS(3) errno = 0; real q = algebra::rayleigh_quotient(a, b); if(!errno) { real num = 0; for(unsigned i = 0; i < 3; i++) num += V_(B0, i) * rowdot(a, b, i, 3); EQ("x.Ax / x.x", q * ddot(B0, B0, 3), num); } }
// --- rank_two | src/algebra/algebra.h | singular systems are reported, never solved
{ mat<real, 2, 2> s = {{IN(0), IN(1)}, {2 * IN(0), 2 * IN(1)}}; vec<real, 2> b = mks<vec<real, 2>>(B0); errno = 0; vec<real, 2> x = algebra::solve(s, b); REPORTED("singular system"); NANV("singular system", x);
errno = 0; real d = algebra::det(s); if(!errno) EQ("singular determinant", d, 0); 
mat<real, 2, 2> z; errno = 0; x = algebra::solve(z, b); REPORTED("null matrix"); NANV("null matrix", x); errno = 0; algebra::inverse(z); REPORTED("inverse of the null matrix"); 
mat<real, 2, 2> p = {{real(0), IN(0)}, {IN(1), real(0)}}; errno = 0; d = algebra::det(p); if(!errno) EQ("antidiagonal determinant", d, -IN(0) * IN(1)); errno = 0; x = algebra::solve(p, b); if(!errno) { EQ("antidiagonal 0", IN(0) * x[1], V_(B0, 0)); EQ("antidiagonal 1", IN(1) * x[0], V_(B0, 1)); } }
// --- regular2 | src/algebra/algebra.h | regular 2x2 systems are not reported as singular
{ RUNS(2) if(BIG(a(0, 0)) && BIG(a(1, 1) - a(1, 0) / a(0, 0) * a(0, 1))) { regular(a, b); reginv(a, b); } regtri(a, b, 2u); } { RUND(2) if(BIG(a(0, 0)) && BIG(a(1, 1) - a(1, 0) / a(0, 0) * a(0, 1))) { regular(a, b); reginv(a, b); } regtri(a, b, 2u); }
// --- regular3 | src/algebra/algebra.h | regular 3x3 systems are not reported as singular
{ RUNS(3) const real p = a(1, 1) - a(1, 0) / a(0, 0) * a(0, 1), q = a(1, 2) - a(1, 0) / a(0, 0) * a(0, 2), r = a(2, 1) - a(2, 0) / a(0, 0) * a(0, 1), t = a(2, 2) - a(2, 0) / a(0, 0) * a(0, 2); if(BIG(a(0, 0)) && BIG(p) && BIG(t - r / p * q)) regular(a, b); }
// --- regular_tri3 | src/algebra/algebra.h | regular triangular systems of 3 equations are not reported as singular
{ RUNS(3) regtri(a, b, 3u); }
// --- regular_spd | src/algebra/algebra.h | positive definite matrices are not rejected by the Cholesky decomposition
{ RUNS(2) M c = a; c(1, 0) = c(0, 1); if(c(0, 0) >= 1E-6 && c(1, 1) - c(0, 1) * c(0, 1) / c(0, 0) >= 1E-6) { errno = 0; algebra::decompose_cholesky(c); NOT_REPORTED("decompose_cholesky"); errno = 0; algebra::decompose_cholesky_inplace(c); NOT_REPORTED("decompose_cholesky_inplace"); } }
// --- regular_rayleigh | src/algebra/algebra.h | the Rayleigh quotient of a non-null vector is not reported
{ RUNS(2) if(ddot(B0, B0, 2) >= 1E-6) { errno = 0; algebra::rayleigh_quotient(a, b); NOT_REPORTED("rayleigh_quotient"); } }
// --- regular_complex | src/algebra/algebra.h | regular complex systems are not reported
{ typedef mat<cplx, 2, 2> M; M a; a = mkcm(a, A0); vec<cplx, 2> b; b = mkcv(b, B0); if(a(0, 0).sqr_norm() >= 1E-6) { const cplx p = a(1, 1) - a(1, 0) / a(0, 0) * a(0, 1); if(p.sqr_norm() >= 1E-6) { errno = 0; M L, U; algebra::decompose_lu(a, L, U); NOT_REPORTED("decompose_lu"); errno = 0; algebra::solve(a, b); NOT_REPORTED("solve"); } } }
// --- eig_power | src/algebra/algebra.h | the power method finds the dominant eigenvalue | prune=1
{ real l; mat2 A = {{3, 0}, {0, 1}}; vec2 x = {1, 1}, v; EIGQ("power", algebra::eigenvalue_power(A, x, 0.01, 20), 2.99, 3.01) EIGV("power pair", algebra::eigenpair_power(A, x, v, 0.01, 20), 2.99, 3.01, 1, 0)
mat<real> D = {{0, 2}, {2, 3}}; vec<real> y = {1, 0}; EIGQ("dynamic", algebra::eigenvalue_power(D, y, 0.01, 20), 3.99, 4.01) mat2 N = {{-3, 0}, {0, 1}}; EIGQ("negative", algebra::eigenvalue_power(N, x, 0.01, 20), -3.01, -2.99) EIGV("negative pair", algebra::eigenpair_power(N, x, v, 0.01, 20), -3.01, -2.99, 1, 0)
EIGN("limit", algebra::eigenvalue_power(A, x, 0.01, 1)) EIGN("limit pair", algebra::eigenpair_power(A, x, v, 0.01, 1)) mat2 R = {{0, -1}, {1, 0}}; EIGN("no real eigenvalue", algebra::eigenvalue_power(R, vec2({1, 0}), 0.01, 6)) EIGN("no real eigenpair", algebra::eigenpair_power(R, vec2({1, 0}), v, 0.01, 6)) }
// --- eig_inverse | src/algebra/algebra.h | inverse iteration finds the smallest eigenvalue | prune=1
{ real l; mat2 A = {{4, 0}, {0, 1}}; vec2 x = {1, 1}, v; EIGQ("inverse", algebra::eigenvalue_inverse(A, x, 0.01, 20), 0.99, 1.01) EIGV("inverse pair", algebra::eigenpair_inverse(A, x, v, 0.01, 20), 0.99, 1.01, 0, 1)
mat<real> D = {{0, 2}, {2, 3}}; mat2 E = {{3, 2}, {2, 0}}; vec<real> y = {1, 0}; EIGQ("symmetric", algebra::eigenvalue_inverse(E, x, 0.01, 20), -1.01, -0.99)
EIGN("limit", algebra::eigenvalue_inverse(A, x, 0.01, 1)) EIGN("limit pair", algebra::eigenpair_inverse(A, x, v, 0.01, 1)) }
// --- eig_rayleigh | src/algebra/algebra.h | Rayleigh iteration finds an eigenpair | prune=1
{ real l; mat2 A = {{4, 0}, {0, 1}}; vec2 x = {1, 2}, v; EIGV("rayleigh", algebra::eigenpair_rayleigh(A, 0.5, x, v, 0.01, 20), 0.99, 1.01, 0, 1)
EIGV("rayleigh other", algebra::eigenpair_rayleigh(A, 4.5, x, v, 0.01, 20), 3.99, 4.01, 1, 0) EIGN("limit", algebra::eigenpair_rayleigh(A, 0.5, x, v, 0.0001, 1)) }
// --- eig_vector | src/algebra/algebra.h | inverse iteration with a shift finds the eigenvector of the nearest eigenvalue | prune=1
{ real l = 0; mat2 A = {{4, 0}, {0, 1}}; vec2 x = {1, 2}, v; errno = 0; v = algebra::eigenvector_inverse(A, 0.9, x, 0.01, 20); EQI("quiet", errno, 0); EQI("nearest", v[1] * v[1] > 0.999 && v[0] * v[0] < 0.001, 1); errno = 0; v = algebra::eigenvector_inverse(A, 3.5, x, 0.01, 20); EQI("other quiet", errno, 0); EQI("other", v[0] * v[0] > 0.999 && v[1] * v[1] < 0.001, 1); errno = 0; v = algebra::eigenvector_inverse(A, 0.5, x, 0.0001, 1); NANV("limit", v); EQI("limit reported", errno, ERANGE);
EIGQ("rayleigh", algebra::eigenvalue_rayleigh(A, 0.5, x, 0.01, 20), 0.99, 1.01) EIGQ("rayleigh other", algebra::eigenvalue_rayleigh(A, 4.5, x, 0.01, 20), 3.99, 4.01) EIGN("rayleigh limit", algebra::eigenvalue_rayleigh(A, 0.5, x, 0.0001, 1)) }
// --- lu_singular | src/algebra/algebra.h | a null last pivot
{ const real a = IN(0), b = IN(1); if(a >= 0.001) { mat2 A = {{a, b}, {2 * a, 2 * b}}, L, U; errno = 0; algebra::decompose_lu(A, L, U); EQI("quiet", errno, 0); EQ("L00", L(0, 0), 1); EQ("L01", L(0, 1), 0); EQ("L10", L(1, 0), 2); EQ("L11", L(1, 1), 1); EQ("U11", U(1, 1), 0); EQ("U01", U(0, 1), b); } }
// --- eig_limits | src/algebra/algebra.h | eigenvalue iterations use all the iterations they are allowed and no more | prune=1
{ real l; mat2 A = {{3, 0}, {0, 1}}, C = {{4, 0}, {0, 1}}; vec2 x = {1, 1}, y = {1, 2}, v; EIGQ("power 4", algebra::eigenvalue_power(A, x, 0.01, 4), 2.99, 3.01) EIGN("power 3", algebra::eigenvalue_power(A, x, 0.01, 3)) EIGQ("power pair 4", algebra::eigenpair_power(A, x, v, 0.01, 4), 2.99, 3.01) EIGN("power pair 3", algebra::eigenpair_power(A, x, v, 0.01, 3)) EIGQ("inverse 4", algebra::eigenvalue_inverse(C, x, 0.01, 4), 0.99, 1.01) EIGN("inverse 3", algebra::eigenvalue_inverse(C, x, 0.01, 3)) EIGQ("inverse pair 4", algebra::eigenpair_inverse(C, x, v, 0.01, 4), 0.99, 1.01) EIGN("inverse pair 3", algebra::eigenpair_inverse(C, x, v, 0.01, 3)) EIGQ("rayleigh 2", algebra::eigenvalue_rayleigh(C, 0.5, y, 0.01, 2), 0.99, 1.01) EIGN("rayleigh 1", algebra::eigenvalue_rayleigh(C, 0.5, y, 0.01, 1)) EIGQ("rayleigh pair 2", algebra::eigenpair_rayleigh(C, 0.5, y, v, 0.01, 2), 0.99, 1.01) EIGN("rayleigh pair 1", algebra::eigenpair_rayleigh(C, 0.5, y, v, 0.01, 1)) }
// --- eig_zero | src/algebra/algebra.h | no iteration at all is no convergence | prune=1
{ mat2 A = {{2, 0}, {0, 2}}; vec2 x = {1, 0}, v; EIGN("power", algebra::eigenvalue_power(A, x, 0.01, 0)) EIGN("power pair", algebra::eigenpair_power(A, x, v, 0.01, 0)) EIGN("inverse", algebra::eigenvalue_inverse(A, x, 0.01, 0)) EIGN("inverse pair", algebra::eigenpair_inverse(A, x, v, 0.01, 0)) EIGN("rayleigh", algebra::eigenvalue_rayleigh(A, 1, x, 0.01, 0)) EIGN("rayleigh pair", algebra::eigenpair_rayleigh(A, 1, x, v, 0.01, 0)) errno = 0; v = algebra::eigenvector_inverse(A, 1, x, 0.01, 0); REPORTED("vector"); NANV("vector", v); real l; EIGQ("one power", algebra::eigenvalue_power(A, x, 0.01, 1), 1.99, 2.01) EIGQ("one inverse", algebra::eigenvalue_inverse(A, x, 0.01, 2), 1.99, 2.01) }
// --- grow_lu | src/algebra/algebra.h | decompositions and solvers of any size | n=12 grow=66 prune=1 unroll=100
{ const unsigned N = VP_N; mat<real> L(N, N), U(N, N), A(N, N); for(unsigned i = 0; i < N; i++) for(unsigned j = 0; j < N; j++) { L(i, j) = i == j ? 1 : i > j ? ((i + 2 * j) % 3 ? 1 : -1) : 0; U(i, j) = i == j ? real(i % 2 + 1) : i < j ? ((2 * i + j) % 3 ? 1 : -1) : 0; }
for(unsigned i = 0; i < N; i++) for(unsigned j = 0; j < N; j++) { real s = 0; for(unsigned k = 0; k < N; k++) s += L(i, k) * U(k, j); A(i, j) = s; } vec<real> b(N); for(unsigned i = 0; i < N; i++) b[i] = IN(i);
const vec<real> x = algebra::solve(A, b), y = algebra::solve_lu(A, b), z = algebra::solve_lu(L, U, b), l = algebra::solve_triangular_lower(L, b), u = algebra::solve_triangular_upper(U, b), t = algebra::solve_triangular(U, b); mat<real> P(N, N), Q(N, N), C = A; algebra::decompose_lu(A, P, Q); algebra::decompose_lu_inplace(C); real dt = 1; for(unsigned i = 0; i < N; i++) dt *= U(i, i); EQ("determinant", algebra::det(A), dt); EQ("diagonal product", algebra::diagonal_product(A), [&] { real p = 1; for(unsigned i = 0; i < N; i++) p *= A(i, i); return p; }());
for(unsigned i = 0; i < N; i += i % 2 ? 2 : 1) { real a = 0, c = 0, d = 0, e = 0, f = 0, g = 0; for(unsigned k = 0; k < N; k++) { a += A(i, k) * x[k]; c += A(i, k) * y[k]; d += A(i, k) * z[k]; e += L(i, k) * l[k]; f += U(i, k) * u[k]; g += U(i, k) * t[k]; } EQ("solve", a, IN(i)); EQ("LU solve", c, IN(i)); EQ("factors", d, IN(i)); EQ("lower", e, IN(i)); EQ("upper", f, IN(i)); EQ("triangular", g, IN(i)); for(unsigned j : {0u, VP_N / 2u, VP_N - 1u}) { EQ("L", P(i, j), L(i, j)); EQ("U", Q(i, j), U(i, j)); EQ("in place", C(i, j), i > j ? L(i, j) : U(i, j)); } } }
// --- grow_inverse | src/algebra/algebra.h inverse, invert | inverses of any size | n=12 grow=66 prune=1 unroll=100
{ const unsigned N = VP_N; mat<real> A(N, N), B(N, N); for(unsigned i = 0; i < N; i++) for(unsigned j = 0; j < N; j++) { A(i, j) = i == j ? 2 : i > j ? ((i + 2 * j) % 3 ? 1 : -1) : 0; B(i, j) = i == j ? 2 : i < j ? ((i + 2 * j) % 3 ? 1 : -1) : 0; } const mat<real> X = algebra::inverse(A), Y = algebra::inverse(B); mat<real> Z = A; algebra::invert(Z);
for(unsigned i = 0; i < N; i++) for(unsigned j : {0u, 1u, VP_N / 2u, VP_N - 1u}) { real s = 0, t = 0, u = 0; for(unsigned k = 0; k < N; k++) { s += A(i, k) * X(k, j); t += B(i, k) * Y(k, j); u += A(i, k) * Z(k, j); } EQ("lower", s, i == j); EQ("upper", t, i == j); EQ("in place", u, i == j); } }
// --- grow_cholesky | src/algebra/algebra.h decompose_cholesky, solve_cholesky | Cholesky factors of any size | n=12 grow=66 prune=1 unroll=100 fold=sqrt
{ const unsigned N = VP_N; mat<real> L(N, N), A(N, N); for(unsigned i = 0; i < N; i++) for(unsigned j = 0; j < N; j++) L(i, j) = i == j ? real(i % 2 + 1) : i > j ? ((i + 2 * j) % 3 ? 1 : -1) : 0; vec<real> b(N); for(unsigned i = 0; i < N; i++) { b[i] = IN(i); for(unsigned j = 0; j < N; j++) { real s = 0; for(unsigned k = 0; k < N; k++) s += L(i, k) * L(j, k); A(i, j) = s; } }
const mat<real> R = algebra::decompose_cholesky(A); mat<real> S = A; algebra::decompose_cholesky_inplace(S); const vec<real> x = algebra::solve_cholesky(L, b); for(unsigned i = 0; i < N; i++) { real s = 0; for(unsigned k = 0; k < N; k++) s += A(i, k) * x[k]; EQ("solve", s, IN(i)); for(unsigned j = 0; j < N; j++) if(j == 0 || j == i || j == i / 2 || j == N - 1 || j + 1 == i) { EQ("factor", R(i, j), L(i, j)); EQ("in place", S(i, j), L(i, j)); } } }
