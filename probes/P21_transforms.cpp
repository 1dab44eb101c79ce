#include "la.h"
#define A0 0
#define B0 1000
#define T0 IN(5000)
template<typename M> static inline void orth(const M& m, const unsigned n) {
	for(unsigned i = 0; i < n; i++) for(unsigned j = 0; j < n; j++) { real s = 0; for(unsigned k = 0; k < n; k++) s += m(i, k) * m(j, k); EQ("R R^T = 1", s, i == j ? 1 : 0); }
	EQ("det R = 1", m(0, 0) * (m(1, 1) * m(2, 2) - m(1, 2) * m(2, 1)) - m(0, 1) * (m(1, 0) * m(2, 2) - m(1, 2) * m(2, 0)) + m(0, 2) * (m(1, 0) * m(2, 1) - m(1, 1) * m(2, 0)), 1);
}
template<typename M> static inline void pad(const M& m, const unsigned n, const unsigned N) { for(unsigned i = 0; i < N; i++) for(unsigned j = 0; j < N; j++) if(i >= n || j >= n) EQ("padded with the identity", m(i, j), i == j ? 1 : 0); }
template<typename M> static inline void rotx(const M& m) { const real c = th::cos(T0), s = th::sin(T0); EQ("x 00", m(0, 0), 1); EQ("x 01", m(0, 1), 0); EQ("x 02", m(0, 2), 0); EQ("x 10", m(1, 0), 0); EQ("x 11", m(1, 1), c); EQ("x 12", m(1, 2), -s); EQ("x 20", m(2, 0), 0); EQ("x 21", m(2, 1), s); EQ("x 22", m(2, 2), c); }
template<typename M> static inline void roty(const M& m) { const real c = th::cos(T0), s = th::sin(T0); EQ("y 00", m(0, 0), c); EQ("y 01", m(0, 1), 0); EQ("y 02", m(0, 2), s); EQ("y 10", m(1, 0), 0); EQ("y 11", m(1, 1), 1); EQ("y 12", m(1, 2), 0); EQ("y 20", m(2, 0), -s); EQ("y 21", m(2, 1), 0); EQ("y 22", m(2, 2), c); }
template<typename M> static inline void rotz(const M& m) { const real c = th::cos(T0), s = th::sin(T0); EQ("z 00", m(0, 0), c); EQ("z 01", m(0, 1), -s); EQ("z 02", m(0, 2), 0); EQ("z 10", m(1, 0), s); EQ("z 11", m(1, 1), c); EQ("z 12", m(1, 2), 0); EQ("z 20", m(2, 0), 0); EQ("z 21", m(2, 1), 0); EQ("z 22", m(2, 2), 1); }
#define SHAPE(L, X) { errno = 0; const mat<real> r_ = X; REPORTED(L); NANM(L, r_); }
// --- rot2d | src/algebra/transform.h | rotations of the plane
{ const real c = th::cos(T0), s = th::sin(T0); mat2 m = algebra::rotation_2d<mat2>(T0); EQM("rotation", m, 2u, 2u, (i == j ? c : i == 0 ? -s : s)); EQM("R R^T", m * algebra::transpose(m), 2u, 2u, (i == j ? 1 : 0));
mat<real> d = algebra::rotation_2d<mat<real>>(T0, 2, 2); EQM("dynamic rotation", d, 2u, 2u, (i == j ? c : i == 0 ? -s : s)); mat4 p = algebra::rotation_2d<mat4>(T0); EQM("padded rotation", p, 4u, 4u, (i < 2 && j < 2) ? (i == j ? c : i == 0 ? -s : s) : (i == j ? 1 : 0));
errno = 0; mat<real> e = algebra::rotation_2d<mat<real>>(T0, 1, 2); REPORTED("too few rows"); errno = 0; e = algebra::rotation_2d<mat<real>>(T0, 2, 1); REPORTED("too few columns"); }
// --- rot3x | src/algebra/transform.h | rotation around the x axis
{ mat3 m = algebra::rotation_3d_xaxis<mat3>(T0); rotx(m); orth(m, 3u); mat4 p = algebra::rotation_3d_xaxis<mat4>(T0); rotx(p); pad(p, 3u, 4u); mat<real> d = algebra::rotation_3d_xaxis<mat<real>>(T0, 3, 3); rotx(d); errno = 0; mat<real> e = algebra::rotation_3d_xaxis<mat<real>>(T0, 2, 3); REPORTED("too few rows"); errno = 0; e = algebra::rotation_3d_xaxis<mat<real>>(T0, 3, 2); REPORTED("too few columns"); }
// --- rot3y | src/algebra/transform.h | rotation around the y axis
{ mat3 m = algebra::rotation_3d_yaxis<mat3>(T0); roty(m); orth(m, 3u); mat4 p = algebra::rotation_3d_yaxis<mat4>(T0); roty(p); pad(p, 3u, 4u); mat<real> d = algebra::rotation_3d_yaxis<mat<real>>(T0, 3, 3); roty(d); errno = 0; mat<real> e = algebra::rotation_3d_yaxis<mat<real>>(T0, 2, 3); REPORTED("too few rows"); errno = 0; e = algebra::rotation_3d_yaxis<mat<real>>(T0, 3, 2); REPORTED("too few columns"); }
// --- rot3z | src/algebra/transform.h | rotation around the z axis
{ mat3 m = algebra::rotation_3d_zaxis<mat3>(T0); rotz(m); orth(m, 3u); mat4 p = algebra::rotation_3d_zaxis<mat4>(T0); rotz(p); pad(p, 3u, 4u); mat<real> d = algebra::rotation_3d_zaxis<mat<real>>(T0, 3, 3); rotz(d); errno = 0; mat<real> e = algebra::rotation_3d_zaxis<mat<real>>(T0, 2, 3); REPORTED("too few rows"); errno = 0; e = algebra::rotation_3d_zaxis<mat<real>>(T0, 3, 2); REPORTED("too few columns"); }
// --- rot3 | src/algebra/transform.h | rotation around an arbitrary unit axis
{ const real p = IN(0), q = IN(1), den = p * p + q * q + 1; vec3 a = {2 * p / den, 2 * q / den, (p * p + q * q - 1) / den}; // every unit vector but the north pole
mat3 m = algebra::rotation_3d<mat3>(T0, a); for(unsigned i = 0; i < 3; i++) { real s = 0; for(unsigned k = 0; k < 3; k++) s += m(i, k) * a[k]; EQ("axis is fixed", s, a[i]); } EQ("trace", m(0, 0) + m(1, 1) + m(2, 2), 1 + 2 * th::cos(T0));
EQ("antisymmetric part x", m(2, 1) - m(1, 2), 2 * th::sin(T0) * a[0]); EQ("antisymmetric part y", m(0, 2) - m(2, 0), 2 * th::sin(T0) * a[1]); EQ("antisymmetric part z", m(1, 0) - m(0, 1), 2 * th::sin(T0) * a[2]); orth(m, 3u);
mat4 w = algebra::rotation_3d<mat4>(T0, a); pad(w, 3u, 4u); for(unsigned i = 0; i < 3; i++) for(unsigned j = 0; j < 3; j++) EQ("same rotation in four dimensions", w(i, j), m(i, j)); mat<real> d = algebra::rotation_3d<mat<real>>(T0, a, 3, 3); for(unsigned i = 0; i < 3; i++) for(unsigned j = 0; j < 3; j++) EQ("same dynamic rotation", d(i, j), m(i, j)); }
// --- rot3_axes | src/algebra/transform.h | rotations around the coordinate axes agree with the general rotation
{ vec3 x = {1, 0, 0}, y = {0, 1, 0}, z = {0, 0, 1}; rotx(algebra::rotation_3d<mat3>(T0, x)); roty(algebra::rotation_3d<mat3>(T0, y)); rotz(algebra::rotation_3d<mat3>(T0, z)); errno = 0; algebra::rotation_3d<mat3>(T0, mks<vec2>(0)); REPORTED("two-dimensional axis"); errno = 0; algebra::rotation_3d<mat<real>>(T0, x, 2, 3); REPORTED("too few rows"); errno = 0; algebra::rotation_3d<mat<real>>(T0, x, 3, 2); REPORTED("too few columns"); }
// --- translation | src/algebra/transform.h | translations in homogeneous coordinates
{ vec3 v = mks<vec3>(A0); mat4 m = algebra::translation<mat4>(v); EQM("translation", m, 4u, 4u, (j == 3 && i < 3) ? V_(A0, i) : (i == j ? 1 : 0)); vec4 p = {IN(1000), IN(1001), IN(1002), 1}; vec4 q = m * p; EQV("translated point", q, 4u, i < 3 ? V_(A0, i) + V_(B0, i) : 1); mat<real> d = algebra::translation<mat<real>>(v, 4, 4); EQM("dynamic translation", d, 4u, 4u, (j == 3 && i < 3) ? V_(A0, i) : (i == j ? 1 : 0)); errno = 0; algebra::translation<mat3>(v); REPORTED("wrong size"); errno = 0; algebra::translation<mat4>(mks<vec2>(0)); REPORTED("short vector"); errno = 0; algebra::translation<mat<real>>(v); REPORTED("empty matrix"); }
// --- identity | src/algebra/transform.h | identity, diagonal, symplectic and Hilbert matrices
{ EQM("identity", algebra::identity<mat3>(), 3u, 3u, i == j ? 1 : 0); EQM("dynamic identity", algebra::identity<mat<real>>(2, 3), 2u, 3u, i == j ? 1 : 0); vec3 v = mks<vec3>(A0);
{ mat3 r = algebra::diagonal<mat3>(v); EQM("diagonal", r, 3u, 3u, i == j ? V_(A0, i) : 0); mat<real> d = algebra::diagonal<mat<real>>(v, 3, 3); EQM("dynamic diagonal", d, 3u, 3u, i == j ? V_(A0, i) : 0); mat3 e = mkms<mat3>(B0); algebra::diagonal(e, v); EQM("diagonal into", e, 3u, 3u, i == j ? V_(A0, i) : 0); errno = 0; algebra::diagonal<mat4>(v); REPORTED("diagonal size"); }
mat4 s = algebra::symplectic<mat4>(); EQM("symplectic", s, 4u, 4u, (j == i + 2) ? 1 : (i == j + 2) ? -1 : 0); mat<real> sd = algebra::symplectic<mat<real>>(2, 2); EQM("dynamic symplectic", sd, 2u, 2u, (j == i + 1) ? 1 : (i == j + 1) ? -1 : 0); errno = 0; algebra::symplectic<mat3>(); REPORTED("odd symplectic"); errno = 0; algebra::symplectic<mat<real>>(2, 4); REPORTED("rectangular symplectic"); errno = 0; algebra::symplectic<mat<real>>(3, 3); REPORTED("odd dynamic symplectic");
EQM("hilbert", algebra::hilbert<mat3>(), 3u, 3u, 1.0L / (i + j + 1)); EQM("dynamic hilbert", algebra::hilbert<mat<real>>(4), 4u, 4u, 1.0 / (i + j + 1)); }
// --- perspective | src/algebra/transform.h | perspective projections map the corners of the frustum to the corners of the clip cube
{ const real l = IN(0), r = IN(1), b = IN(2), t = IN(3), n = IN(4), f = IN(5); if(l != r && b != t && n != f && n != 0 && f != 0) { mat4 m = algebra::perspective<mat4>(l, r, b, t, n, f);
vec4 p = m * vec4({l, b, -n, 1.0}); EQ("near corner x", p[0], -p[3]); EQ("near corner y", p[1], -p[3]); EQ("near corner z", p[2], -p[3]); EQ("near corner w", p[3], n); p = m * vec4({r, t, -n, 1.0}); EQ("opposite corner x", p[0], p[3]); EQ("opposite corner y", p[1], p[3]); p = m * vec4({r * f / n, t * f / n, -f, 1.0}); EQ("far corner x", p[0], p[3]); EQ("far corner y", p[1], p[3]); EQ("far corner z", p[2], p[3]); EQ("far corner w", p[3], f);
mat<real> d = algebra::perspective<mat<real>>(l, r, b, t, n, f, 4, 4); for(int i = 0; i < 4; i++) for(int j = 0; j < 4; j++) EQ("dynamic", d(i, j), m(i, j)); } errno = 0; algebra::perspective<mat3>(l, r, b, t, n, f); REPORTED("too small"); }
// --- ortho | src/algebra/transform.h | orthographic projections map the corners of the view volume to the corners of the clip cube
{ const real l = IN(0), r = IN(1), b = IN(2), t = IN(3), n = IN(4), f = IN(5); if(l != r && b != t && n != f) { mat4 m = algebra::ortho<mat4>(l, r, b, t, n, f);
vec4 p = m * vec4({l, b, -n, 1.0}); EQ("near corner x", p[0], -1); EQ("near corner y", p[1], -1); EQ("near corner z", p[2], -1); EQ("near corner w", p[3], 1); p = m * vec4({r, t, -f, 1.0}); EQ("far corner x", p[0], 1); EQ("far corner y", p[1], 1); EQ("far corner z", p[2], 1); EQ("far corner w", p[3], 1); 
mat<real> d = algebra::ortho<mat<real>>(l, r, b, t, n, f, 4, 4); for(int i = 0; i < 4; i++) for(int j = 0; j < 4; j++) EQ("dynamic", d(i, j), m(i, j)); } errno = 0; algebra::ortho<mat3>(l, r, b, t, n, f); REPORTED("too small"); }
// --- perspective_fov | src/algebra/transform.h | perspective projections from the field of view
{ const real a = IN(0), w = IN(1), n = IN(2), f = IN(3); const real h = th::tan(radians(a / 2)); if(h != 0 && w != 0 && n != 0 && f != n) { mat4 m = algebra::perspective_fov<mat4>(a, w, n, f); EQ("height", m(1, 1) * h, 1); EQ("width", m(0, 0) * h * w, 1); EQ("depth", m(2, 2), -(f + n) / (f - n)); EQ("depth offset", m(2, 3), -2 * f * n / (f - n)); EQ("centred x", m(0, 2), 0); EQ("centred y", m(1, 2), 0);
mat<real> d = algebra::perspective_fov<mat<real>>(a, w, n, f, 4, 4); for(int i = 0; i < 4; i++) for(int j = 0; j < 4; j++) EQ("dynamic", d(i, j), m(i, j)); } }
// --- look_at | src/algebra/transform.h | camera matrices
{ vec3 c = mks<vec3>(A0), t = mks<vec3>(B0), u = {0, 1, 0}; errno = 0; mat4 m = algebra::look_at<mat4>(c, t, u); if(!errno) { vec4 p = m * vec4({IN(0), IN(1), IN(2), 1.0}); for(int i = 0; i < 3; i++) EQ("camera goes to the origin", p[i], 0); p = m * vec4({IN(1000), IN(1001), IN(1002), 1.0}); EQ("target on the z axis (x)", p[0], 0); EQ("target on the z axis (y)", p[1], 0); EQ("target in front", p[2] * p[2], th::square(IN(1000) - IN(0)) + th::square(IN(1001) - IN(1)) + th::square(IN(1002) - IN(2))); EQ("w", p[3], 1); EQ("up has no x component", m(0, 1), 0); for(int i = 0; i < 4; i++) EQ("last row", m(3, i), i == 3 ? 1 : 0);
for(int i = 0; i < 3; i++) for(int j = 0; j <= i; j++) EQ("orthonormal axes", m(i, 0) * m(j, 0) + m(i, 1) * m(j, 1) + m(i, 2) * m(j, 2), i == j ? 1 : 0); } }
// --- look_at_front | src/algebra/transform.h | camera matrices look along the negative z axis
{ vec3 c = {0, 0, 0}, t = {0, 0, -3}, u = {0, 1, 0}; mat4 m = algebra::look_at<mat4>(c, t, u); EQM("default camera", m, 4u, 4u, i == j ? 1 : 0); vec3 c2 = {2, 0, 0}, t2 = {5, 0, 0}; m = algebra::look_at<mat4>(c2, t2, u); EQ("x 0", m(0, 2), 1); EQ("z 0", m(2, 0), -1); EQ("y 1", m(1, 1), 1); EQ("translation z", m(2, 3), 2); }
// --- inversion | src/algebra/transform.h | inversion with respect to a sphere
{ vec3 p = mks<vec3>(A0), c = mks<vec3>(B0); const real r = IN(5001); real d2 = 0; for(int i = 0; i < 3; i++) d2 += th::square(V_(A0, i) - V_(B0, i)); if(d2 > 0) { vec3 q = algebra::sphere_inversion(p, c, r); for(int i = 0; i < 3; i++) EQ("inverted", (q[i] - V_(B0, i)) * d2, (V_(A0, i) - V_(B0, i)) * r * r); } }
// --- rect_pad | src/algebra/transform.h | rotations in rectangular matrices are padded with the identity
{ const real c = th::cos(T0), s = th::sin(T0); EQM("wide", algebra::rotation_2d<mat<real>>(T0, 2, 3), 2u, 3u, j > 1 ? 0 : (i == j ? c : i == 0 ? -s : s)); EQM("tall", algebra::rotation_2d<mat<real>>(T0, 3, 2), 3u, 2u, i > 1 ? 0 : (i == j ? c : i == 0 ? -s : s)); EQM("wide static", (algebra::rotation_2d<mat<real, 2, 3>>(T0)), 2u, 3u, j > 1 ? 0 : (i == j ? c : i == 0 ? -s : s)); EQM("square", algebra::rotation_2d<mat<real>>(T0, 3, 3), 3u, 3u, i > 1 || j > 1 ? i == j : (i == j ? c : i == 0 ? -s : s)); }
// --- rect_pad3 | src/algebra/transform.h | rotations of space in larger matrices are padded with the identity
{ const mat<real> x = algebra::rotation_3d_xaxis<mat<real>>(T0, 4, 4), y = algebra::rotation_3d_yaxis<mat<real>>(T0, 4, 4), z = algebra::rotation_3d_zaxis<mat<real>>(T0, 4, 4), x4 = algebra::rotation_3d_xaxis<mat<real>>(T0, 3, 4), y4 = algebra::rotation_3d_yaxis<mat<real>>(T0, 3, 4), z4 = algebra::rotation_3d_zaxis<mat<real>>(T0, 3, 4), x5 = algebra::rotation_3d_xaxis<mat<real>>(T0, 4, 3), y5 = algebra::rotation_3d_yaxis<mat<real>>(T0, 4, 3), z5 = algebra::rotation_3d_zaxis<mat<real>>(T0, 4, 3);
rotx(x); roty(y); rotz(z); pad(x, 3u, 4u); pad(y, 3u, 4u); pad(z, 3u, 4u); rotx(x4); roty(y4); rotz(z4); rotx(x5); roty(y5); rotz(z5); for(unsigned i = 0; i < 3; i++) { EQ("wide x", x4(i, 3), 0); EQ("wide y", y4(i, 3), 0); EQ("wide z", z4(i, 3), 0); EQ("tall x", x5(3, i), 0); EQ("tall y", y5(3, i), 0); EQ("tall z", z5(3, i), 0); } }
// --- shape_errors | src/algebra/transform.h | transformations which do not fit in the requested matrix are reported
{ vec3 v = mks<vec3>(A0); SHAPE("perspective rows", algebra::perspective<mat<real>>(-1, 1, -1, 1, 1, 2, 3, 4)) SHAPE("perspective cols", algebra::perspective<mat<real>>(-1, 1, -1, 1, 1, 2, 4, 3)) SHAPE("fov rows", algebra::perspective_fov<mat<real>>(90, 1, 1, 2, 3, 4)) SHAPE("fov cols", algebra::perspective_fov<mat<real>>(90, 1, 1, 2, 4, 3)) SHAPE("ortho rows", algebra::ortho<mat<real>>(-1, 1, -1, 1, 1, 2, 3, 4)) SHAPE("ortho cols", algebra::ortho<mat<real>>(-1, 1, -1, 1, 1, 2, 4, 3))
SHAPE("diagonal rows", algebra::diagonal<mat<real>>(v, 2, 3)) SHAPE("diagonal cols", algebra::diagonal<mat<real>>(v, 3, 2)) SHAPE("diagonal large", algebra::diagonal<mat<real>>(v, 4, 4)) SHAPE("diagonal unsized", algebra::diagonal<mat<real>>(v)) SHAPE("diagonal without columns", algebra::diagonal<mat<real>>(v, 3)) SHAPE("translation small", algebra::translation<mat<real>>(v, 3, 3)) SHAPE("translation large", algebra::translation<mat<real>>(v, 5, 5)) SHAPE("rotation unsized", algebra::rotation_2d<mat<real>>(T0)) SHAPE("rotation without columns", algebra::rotation_2d<mat<real>>(T0, 2)) SHAPE("x unsized", algebra::rotation_3d_xaxis<mat<real>>(T0)) SHAPE("y unsized", algebra::rotation_3d_yaxis<mat<real>>(T0, 3)) SHAPE("z unsized", algebra::rotation_3d_zaxis<mat<real>>(T0, 0, 3)) SHAPE("perspective unsized", algebra::perspective<mat<real>>(-1, 1, -1, 1, 1, 2)) SHAPE("ortho unsized", algebra::ortho<mat<real>>(-1, 1, -1, 1, 1, 2)) SHAPE("fov unsized", algebra::perspective_fov<mat<real>>(90, 1, 1, 2))
errno = 0; EQM("empty identity", algebra::identity<mat<real>>(), 0u, 0u, 0); EQM("identity without columns", algebra::identity<mat<real>>(3), 0u, 0u, 0); EQM("empty hilbert", algebra::hilbert<mat<real>>(), 0u, 0u, 0); EQI("quiet", errno, 0); EQM("rectangular identity", algebra::identity<mat<real>>(3, 2), 3u, 2u, i == j ? 1 : 0); EQM("static identity", (algebra::identity<mat<real, 2, 3>>()), 2u, 3u, i == j ? 1 : 0); }
// --- dynamic_shapes | src/algebra/transform.h | dynamic matrices have the requested shape
{ const real a = IN(0), b = IN(1); if(a > 0.5 && b > 0.5) { const mat<real> p = algebra::perspective<mat<real>>(-a, a, -b, b, 1, 2, 4, 4), o = algebra::ortho<mat<real>>(-a, a, -b, b, 1, 2, 4, 4); const mat4 q = algebra::perspective<mat4>(-a, a, -b, b, 1, 2), r = algebra::ortho<mat4>(-a, a, -b, b, 1, 2); EQM("perspective", p, 4u, 4u, q(i, j)); EQM("ortho", o, 4u, 4u, r(i, j)); const mat<real> t = algebra::translation<mat<real>>(vec2({a, b}), 3, 3); EQM("translation", t, 3u, 3u, j == 2 && i < 2 ? (i ? b : a) : (i == j ? 1 : 0)); } }
// --- grow_special | src/algebra/transform.h | special matrices of any size | n=24 grow=100
{ typedef mat<real> D; const unsigned N = VP_N + VP_N % 2, H = N / 2; const D h = algebra::hilbert<D>(VP_N), s = algebra::symplectic<D>(N, N), e = algebra::identity<D>(VP_N, VP_N); const unsigned q[] = {0, 1, VP_N / 2, VP_N - 2, VP_N - 1}; for(unsigned i : q) for(unsigned j : q) { EQ("Hilbert", h(i, j) * (i + j + 1), 1); EQ("identity", e(i, j), i == j ? 1 : 0); } const unsigned p[] = {0, 1, H - 1, H, H + 1, N - 1}; for(unsigned i : p) for(unsigned j : p) EQ("symplectic", s(i, j), j == i + H ? 1 : i == j + H ? -1 : 0); }
