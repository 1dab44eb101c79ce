#include "la.h"
#define A0 0
#define B0 1000
#define K0 IN(5000)
#define BADV(L, X) { errno = 0; const auto r_ = X; REPORTED(L); NANV(L " error value", r_); }
#define BADM(L, X) { errno = 0; const auto r_ = X; REPORTED(L); NANM(L " error value", r_); }
#define BADR(L, X) { errno = 0; const real r_ = X; REPORTED(L); ISNAN(L " error value", r_); }
#define DOV(L, T, X) { auto T = T##0; errno = 0; X; REPORTED(L); NANV(L " error value", T); }
#define DOM(L, T, X) { auto T = T##0; errno = 0; X; REPORTED(L); NANM(L " error value", T); }
// --- vec_mismatch | src/algebra/vec.h | operations of vectors of different sizes are reported and return NaN
{ const vec<real> a0 = mkd(3, A0), b = mkd(2, B0), c = mkd(4, B0), e; const auto& a = a0;
BADV("+ shorter", a + b); BADV("+ longer", a + c); BADV("- shorter", a - b); BADV("- longer", a - c); BADR("dot shorter", a * b); BADR("dot longer", a * c); BADR("algebra::dot", algebra::dot(c, a)); BADV("+ empty", a + e); BADR("dot empty", a * e);
DOV("+= shorter", a, a += b); DOV("+= longer", a, a += c); DOV("-= shorter", a, a -= b); DOV("-= longer", a, a -= c); DOV("+= empty", a, a += e);
DOV("vec_sum", a, algebra::vec_sum(a, b)); DOV("vec_diff", a, algebra::vec_diff(a, c)); DOV("vec_sum3 result", a, algebra::vec_sum(a, b, b)); DOV("vec_sum3 operands", a, algebra::vec_sum(a, a, b)); DOV("vec_diff3", a, algebra::vec_diff(a, a, c)); DOV("vec_diff3 result", a, algebra::vec_diff(a, c, c)); DOV("vec_scalmul", a, algebra::vec_scalmul(a, K0, b)); DOV("vec_scalmul longer", a, algebra::vec_scalmul(a, K0, c));
EQI("== different sizes", a == b, 0); EQI("!= different sizes", a != c, 1); }
// --- vec_mismatch_static | src/algebra/vec.h | operations of a static and a dynamic vector of different sizes are reported
{ const vec<real, 3> a0 = mks<vec<real, 3>>(A0); const auto& a = a0; const vec<real> b = mkd(2, B0), c = mkd(4, B0);
BADR("dot shorter", a * b); BADR("dot longer", a * c); DOV("+= shorter", a, a += b); DOV("+= longer", a, a += c); DOV("-= shorter", a, a -= b); DOV("-= longer", a, a -= c); DOV("= shorter", a, a = b); DOV("= longer", a, a = c);
errno = 0; vec<real, 3> f(b); REPORTED("construct shorter"); NANV("construct shorter", f); errno = 0; vec<real, 3> g(c); REPORTED("construct longer"); NANV("construct longer", g);
errno = 0; vec<real, 3> l = {K0, K0}; REPORTED("short list"); NANV("short list", l); errno = 0; vec<real, 3> m = {K0, K0, K0, K0}; REPORTED("long list"); NANV("long list", m);
EQI("== different sizes", a == b, 0); EQI("!= different sizes", a != c, 1);
errno = 0; a.resize(4); REPORTED("resize"); errno = 0; a.resize(3); EQI("resize to the same size", errno, 0);
BADV("euclidean_base", (vec<real, 3>::euclidean_base(3))); BADV("euclidean_base size", (vec<real, 3>::euclidean_base(4, 7))); BADV("dynamic euclidean_base", vec<real>::euclidean_base(5, 5)); }
// --- cross_mismatch | src/algebra/algebra.h | cross products are defined in three dimensions only
{ const vec<real> a = mkd(3, A0), b = mkd(2, B0), c = mkd(4, B0); BADV("dynamic x short", a.cross(b)); BADV("dynamic x long", a.cross(c)); BADV("short x dynamic", b.cross(a)); BADV("long x dynamic", c.cross(a)); BADV("algebra::cross short", algebra::cross(b, a)); BADV("algebra::cross long", algebra::cross(a, c)); BADV("static x long", mks<vec3>(A0).cross(c)); }
// --- normalize_null | src/algebra/algebra.h | the null vector has no direction
{ vec<real> z(3); BADV("normalized", z.normalized()); errno = 0; z.normalize(); REPORTED("normalize"); NANV("normalize", z); vec<real, 2> s; BADV("static normalized", s.normalized()); vec<real> e; errno = 0; e.normalized(); REPORTED("empty"); vec<real, 2> d = mks<vec<real, 2>>(A0); errno = 0; d /= 0; REPORTED("/= 0"); NANV("/= 0", d); vec<real> q = mkd(2, A0); errno = 0; q /= 0; REPORTED("dynamic /= 0"); NANV("dynamic /= 0", q); }
// --- mat_mismatch_rows | src/algebra/mat.h | sums of matrices with a different number of rows are reported and return NaN
{ const mat<real> a0 = mkdm(2, 3, A0), b = mkdm(3, 3, B0); const auto& a = a0;
BADM("A + B", a + b); BADM("A - B", a - b); DOM("A += B", a, a += b); DOM("A -= B", a, a -= b); DOM("mat_sum", a, algebra::mat_sum(a, b)); DOM("mat_diff", a, algebra::mat_diff(a, b)); DOM("mat_lincomb", a, algebra::mat_lincomb(K0, a, K0, b)); DOM("mat_lincomb operands", a, algebra::mat_lincomb(a, K0, a, K0, b)); DOM("mat_lincomb result", a, algebra::mat_lincomb(a, K0, b, K0, b)); DOM("mat_sum operands", a, algebra::mat_sum(a, a, b)); DOM("mat_sum result", a, algebra::mat_sum(a, b, b)); DOM("mat_diff operands", a, algebra::mat_diff(a, b, a)); DOM("mat_diff result", a, algebra::mat_diff(a, b, b)); DOM("mat_scalmul", a, algebra::mat_scalmul(a, K0, b)); EQI("A == B", a == b, 0); }
// --- mat_mismatch_cols | src/algebra/mat.h | sums of matrices with a different number of columns are reported and return NaN
{ const mat<real> a0 = mkdm(2, 3, A0), b = mkdm(2, 4, B0); const auto& a = a0;
BADM("A + B", a + b); BADM("A - B", a - b); DOM("A += B", a, a += b); DOM("A -= B", a, a -= b); DOM("mat_sum", a, algebra::mat_sum(a, b)); DOM("mat_diff", a, algebra::mat_diff(a, b)); DOM("mat_lincomb", a, algebra::mat_lincomb(K0, a, K0, b)); DOM("mat_lincomb operands", a, algebra::mat_lincomb(a, K0, a, K0, b)); DOM("mat_lincomb result", a, algebra::mat_lincomb(a, K0, b, K0, b)); DOM("mat_sum operands", a, algebra::mat_sum(a, a, b)); DOM("mat_sum result", a, algebra::mat_sum(a, b, b)); DOM("mat_diff operands", a, algebra::mat_diff(a, b, a)); DOM("mat_diff result", a, algebra::mat_diff(a, b, b)); DOM("mat_scalmul", a, algebra::mat_scalmul(a, K0, b)); EQI("A == B", a == b, 0); }
// --- mat_mismatch_shorter | src/algebra/mat.h | sums of matrices with fewer rows or columns are reported
{ const mat<real> a0 = mkdm(3, 3, A0), b = mkdm(2, 3, B0), c = mkdm(3, 2, B0); const auto& a = a0;
BADM("A + B", a + b); BADM("A - C", a - c); DOM("A += B", a, a += b); DOM("A -= C", a, a -= c); DOM("mat_scalmul rows", a, algebra::mat_scalmul(a, K0, b)); DOM("mat_scalmul cols", a, algebra::mat_scalmul(a, K0, c)); EQI("A == B", a == b, 0); EQI("A == C", a == c, 0); }
// --- mat_product_mismatch | src/algebra/mat.h | products of matrices and vectors of incompatible shapes are reported and return NaN
{ const mat<real> a0 = mkdm(2, 3, A0), b = mkdm(2, 3, B0), c = mkdm(4, 2, B0); const auto& a = a0; const vec<real> v = mkd(2, B0), w = mkd(4, B0);
BADM("A * B", a * b); BADM("A.mul(B)", a.mul(b)); BADM("A * C", a * c); BADM("mat_mul", algebra::mat_mul(a, b)); BADM("mat_transpose_mul", algebra::mat_transpose_mul(a, c)); BADM("mat_mul_transpose", algebra::mat_mul_transpose(a, c));
BADV("A * short", a * v); BADV("A * long", a * w); BADV("transform short", a.transform(v)); BADV("transform long", a.transform(w)); BADV("algebra::transform", algebra::transform(a, w)); BADV("algebra::transform short", algebra::transform(a, v)); BADV("v * A", w * a); BADV("long v * A", mkd(3, B0) * a);
vec<real> r0 = mkd(5, B0); { vec<real> r = r0; errno = 0; algebra::transform(r, a, mkd(3, B0)); REPORTED("transform result"); NANV("transform result", r); } { vec<real> r = w; errno = 0; algebra::apply_transform(a, r); REPORTED("apply_transform"); NANV("apply_transform", r); }
{ mat<real> r(3, 3); errno = 0; algebra::mat_mul(r, a, mkdm(3, 3, B0)); REPORTED("mat_mul result rows"); NANM("mat_mul result rows", r); } { mat<real> r(2, 2); errno = 0; algebra::mat_mul(r, a, mkdm(3, 3, B0)); REPORTED("mat_mul result cols"); NANM("mat_mul result cols", r); } { mat<real> r(2, 3); errno = 0; algebra::mat_mul(r, a, b); REPORTED("mat_mul operands"); NANM("mat_mul operands", r); } }
// --- mat_transpose_mismatch | src/algebra/algebra.h | transposition into a matrix of another shape is reported
{ const mat<real> a0 = mkdm(2, 3, A0); const auto& a = a0; { mat<real> r(2, 3); errno = 0; algebra::transpose(r, a); REPORTED("transpose"); NANM("transpose", r); } { mat<real> r(3, 3); errno = 0; algebra::transpose(r, a); REPORTED("transpose cols"); NANM("transpose cols", r); } { mat<real> r(2, 2); errno = 0; algebra::transpose(r, a); REPORTED("transpose rows"); NANM("transpose rows", r); }
DOM("transpose in place", a, a.transpose()); DOM("make_transposed", a, algebra::make_transposed(a)); }
// --- mat_index_mismatch | src/algebra/algebra.h | row and column indices out of range are reported
{ const mat<real> a0 = mkdm(2, 3, A0); const auto& a = a0; DOM("swap rows 1", a, algebra::mat_swap_rows(a, 2, 0)); DOM("swap rows 2", a, algebra::mat_swap_rows(a, 1, 2)); DOM("swap cols 1", a, algebra::mat_swap_cols(a, 3, 0)); DOM("swap cols 2", a, algebra::mat_swap_cols(a, 0, 3)); DOM("swap cols far", a, algebra::mat_swap_cols(a, 0, 100)); }
// --- mat_static_mismatch | src/algebra/mat.h | fixed-size matrices report operands and lists of another shape
{ const mat<real, 2, 3> a0 = mkms<mat<real, 2, 3>>(A0); const auto& a = a0; const mat<real> b = mkdm(3, 3, B0), c = mkdm(2, 2, B0), d = mkdm(2, 4, B0);
BADM("S + D rows", a + b); BADM("S - D cols", a - c); DOM("S += D", a, a += b); DOM("S -= D", a, a -= c); DOM("S = D rows", a, a = b); DOM("S = D cols", a, a = c); DOM("S = D wide", a, a = d); BADM("S * D", a * c); BADM("S.mul(D)", a.mul(d)); BADV("S transform", a.transform(mkd(2, B0))); BADV("S transform long", a.transform(mkd(4, B0)));
errno = 0; mat<real, 2, 3> e(b); REPORTED("S from D"); NANM("S from D", e); errno = 0; mat<real, 2, 2> l = {{K0, K0}}; REPORTED("short list"); NANM("short list", l); errno = 0; mat<real, 2, 2> m = {{K0, K0}, {K0, K0}, {K0, K0}}; REPORTED("long list"); NANM("long list", m); errno = 0; mat<real, 2, 2> n = {{K0, K0}, {K0, K0, K0}}; REPORTED("ragged list"); NANM("ragged list", n);
errno = 0; mat<real> o = {{K0, K0}, {K0, K0, K0}}; REPORTED("dynamic ragged list"); NANM("dynamic ragged list", o); errno = 0; a.resize(3, 3); REPORTED("resize rows"); errno = 0; a.resize(2, 2); REPORTED("resize cols"); errno = 0; a.resize(2, 3); EQI("resize to the same shape", errno, 0);
DOM("/= 0", a, a /= 0); BADM("/ 0", a / 0); { mat<real> q = b; errno = 0; q /= 0; REPORTED("dynamic /= 0"); NANM("dynamic /= 0", q); } BADM("dynamic / 0", b / 0); }
// --- solver_mismatch | src/algebra/algebra.h | decompositions and solvers report non-square matrices and right-hand sides of another size
{ const mat<real> r = mkdm(2, 3, A0), t = mkdm(3, 2, A0), s0 = mkdm(3, 3, A0); const auto& s = s0; const vec<real> b2 = mkd(2, B0), b3 = mkd(3, B0), b4 = mkd(4, B0);
{ mat<real> L, U; errno = 0; algebra::decompose_lu(r, L, U); REPORTED("LU"); NANM("LU L", L); NANM("LU U", U); } { mat<real> q = r; errno = 0; algebra::decompose_lu_inplace(q); REPORTED("in-place LU"); NANM("in-place LU", q); }
BADM("Cholesky", algebra::decompose_cholesky(r)); { mat<real> q = t; errno = 0; algebra::decompose_cholesky_inplace(q); REPORTED("in-place Cholesky"); NANM("in-place Cholesky", q); }
BADV("lower non-square", algebra::solve_triangular_lower(r, b2)); BADV("upper non-square", algebra::solve_triangular_upper(r, b2)); BADV("lower size", algebra::solve_triangular_lower(s, b2)); BADV("upper size", algebra::solve_triangular_upper(s, b2)); BADV("lower longer", algebra::solve_triangular_lower(s, b4)); BADV("upper longer", algebra::solve_triangular_upper(s, b4)); BADV("triangular non-square", algebra::solve_triangular(r, b2));
BADV("Cholesky solve non-square", algebra::solve_cholesky(r, b2)); BADV("Cholesky solve size", algebra::solve_cholesky(s, b2)); BADV("Cholesky solve longer", algebra::solve_cholesky(s, b4)); }
// --- solver_mismatch_lu | src/algebra/algebra.h | linear solvers report non-square matrices and right-hand sides of another size
{ const mat<real> r = mkdm(2, 3, A0), t = mkdm(3, 2, A0), s = mkdm(2, 2, A0); const vec<real> b2 = mkd(2, B0), b3 = mkd(3, B0);
BADV("solve wide", algebra::solve(r, b2)); BADV("solve tall", algebra::solve(t, b3)); BADV("solve longer", algebra::solve(s, b3)); BADV("solve shorter", algebra::solve(s, mkd(1, B0))); BADV("factors wide", algebra::solve_lu(r, s, b2)); BADV("factors tall", algebra::solve_lu(s, t, b2)); BADV("factors size", algebra::solve_lu(s, mkdm(3, 3, A0), b2)); BADV("factors vector", algebra::solve_lu(s, s, b3)); { vec<real> x = b3; errno = 0; algebra::solve_lu_inplace(s, x); REPORTED("in-place"); NANV("in-place", x); } { vec<real> x = b2; errno = 0; algebra::solve_lu_inplace(r, x); REPORTED("in-place wide"); NANV("in-place wide", x); } }
// --- inverse_mismatch | src/algebra/algebra.h | inversion reports non-square matrices and destinations of another shape
{ const mat<real> r0 = mkdm(2, 3, A0), s = mkdm(2, 2, A0); const auto& r = r0; BADM("inverse", algebra::inverse(r)); DOM("invert", r, r.invert()); { mat<real> d(3, 2); errno = 0; algebra::inverse(d, s); REPORTED("destination rows"); NANM("destination rows", d); } { mat<real> d(2, 3); errno = 0; algebra::inverse(d, s); REPORTED("destination cols"); NANM("destination cols", d); } BADR("det", algebra::det(r)); BADR("det tall", algebra::det(mkdm(3, 2, A0))); }
// --- eigen_mismatch | src/algebra/algebra.h | eigensolvers report non-square matrices and vectors of another size
{ const mat<real> r = mkdm(2, 3, A0), s = mkdm(2, 2, A0); const vec<real> b2 = mkd(2, B0), b3 = mkd(3, B0); vec<real> v(2);
BADR("power non-square", algebra::eigenvalue_power(r, b3, 1E-8, 3u)); BADR("power size", algebra::eigenvalue_power(s, b3, 1E-8, 3u)); BADR("pair power non-square", algebra::eigenpair_power(r, b3, v, 1E-8, 3u)); BADR("pair power size", algebra::eigenpair_power(s, b3, v, 1E-8, 3u)); { vec<real> w(3); BADR("pair power vector", algebra::eigenpair_power(s, b2, w, 1E-8, 3u)); }
BADR("inverse non-square", algebra::eigenvalue_inverse(r, b2, 1E-8, 3u)); BADR("inverse size", algebra::eigenvalue_inverse(s, b3, 1E-8, 3u)); BADR("pair inverse non-square", algebra::eigenpair_inverse(r, b2, v, 1E-8, 3u)); BADR("pair inverse size", algebra::eigenpair_inverse(s, b3, v, 1E-8, 3u)); BADV("vector inverse non-square", algebra::eigenvector_inverse(r, K0, b2, 1E-8, 3u)); BADV("vector inverse size", algebra::eigenvector_inverse(s, K0, b3, 1E-8, 3u)); BADR("Rayleigh non-square", algebra::eigenvalue_rayleigh(r, K0, b2, 1E-8, 3u)); BADR("Rayleigh size", algebra::eigenvalue_rayleigh(s, K0, b3, 1E-8, 3u)); BADR("pair Rayleigh non-square", algebra::eigenpair_rayleigh(r, K0, b2, v, 1E-8, 3u)); BADR("pair Rayleigh size", algebra::eigenpair_rayleigh(s, K0, b3, v, 1E-8, 3u)); BADR("Rayleigh quotient null", algebra::rayleigh_quotient(s, vec<real>(2))); }
// --- hermitian_mismatch | src/algebra/algebra.h | Hermitian conjugation into a matrix of another shape is reported
{ const mat<real> a = mkdm(2, 3, A0); { mat<real> r(2, 3); errno = 0; algebra::hermitian(r, a); REPORTED("hermitian"); NANM("hermitian", r); } { mat<real> r(3, 3); errno = 0; algebra::hermitian(r, a); REPORTED("columns"); NANM("columns", r); } { mat<real> r(2, 2); errno = 0; algebra::hermitian(r, a); REPORTED("rows"); NANM("rows", r); } }
// --- mixed_product_mismatch | src/algebra/mat.h | products of static and dynamic operands of incompatible shapes are reported
{ const mat<real, 2, 3> s = mkms<mat<real, 2, 3>>(A0); const mat<real> d = mkdm(2, 3, A0); const vec<real> v = mkd(3, B0), w = mkd(1, B0); BADV("dynamic vector * S", (v * d)); errno = 0; { const vec<real, 3> r = v * s; REPORTED("long vector * S"); NANV("long vector * S", r); } errno = 0; { const vec<real, 3> r = w * s; REPORTED("short vector * S"); NANV("short vector * S", r); }
BADM("S * D", s * d); BADM("S.mul(D)", s.mul(d)); BADV("S * short", s.transform(w)); BADM("D * S", d * (mkms<mat<real, 2, 3>>(A0))); BADV("D.transform short", d.transform(w)); BADV("D.transform generic", d.transform<vec<real>>(w)); BADV("D * static vector", d * (mks<vec<real, 2>>(B0))); }
