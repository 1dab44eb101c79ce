#include "la.h"
typedef quat<real> Q; typedef phasor<real> P;
#define EPS MACH_EPSILON
#define OK_ EQI("not reported for a non-null divisor", errno, 0)
#define NANC(L, Z) { const cplx z_ = (Z); ISNAN(L " re", z_.Re()); ISNAN(L " im", z_.Im()); }
#define NANP(L, Z) { const P z_ = (Z); ISNAN(L " modulus", z_.modulus); ISNAN(L " phase", z_.phase); }
static inline real ab(real x) { return x < 0 ? -x : x; }
#define EQC(L, Z, R, I) { const cplx z_ = (Z); EQ(L " re", z_.Re(), R); EQ(L " im", z_.Im(), I); }
#define EQQ(L, Z, A, B, C, D) { const Q z_ = (Z); EQ(L " re", z_.Re(), A); EQ(L " i", z_.Im1(), B); EQ(L " j", z_.Im2(), C); EQ(L " k", z_.Im3(), D); }
#define CX const real a = IN(0), b = IN(1), c = IN(2), d = IN(3), k = IN(4); const cplx z(a, b), w(c, d); const real n = a * a + b * b, m = c * c + d * d; cplx r; (void) n; (void) m;
#define QX const real a = IN(0), b = IN(1), c = IN(2), d = IN(3), e = IN(4), f = IN(5), g = IN(6), h = IN(7), k = IN(8); const Q z(a, b, c, d), w(e, f, g, h); Q r;
#define PX const real a = IN(0), b = IN(1), c = IN(2), d = IN(3), k = IN(4); const P z(a, b), w(c, d); P r;
static inline real sh(real x) { return (th::exp(x) - th::exp(-x)) / 2; }
static inline real ch(real x) { return (th::exp(x) + th::exp(-x)) / 2; }
// --- complex_arith | src/complex/complex.h | arithmetic of complex numbers
{ CX EQC("+", z + w, a + c, b + d); EQC("-", z - w, a - c, b - d); EQC("*", z * w, a * c - b * d, a * d + b * c); EQC("neg", -z, -a, -b); EQC("pos", +z, a, b); EQC("+k", z + k, a + k, b); EQC("-k", z - k, a - k, b); EQC("*k", z * k, a * k, b * k); EQC("k+", k + z, a + k, b); EQC("k-", k - z, k - a, -b); EQC("k*", k * z, a * k, b * k);
errno = 0; r = z / w; if(m >= EPS) { OK_; EQC("/", r, (a * c + b * d) / m, (b * c - a * d) / m); } errno = 0; r = z / k; if(ab(k) >= EPS) { OK_; EQC("/k", r, a / k, b / k); } errno = 0; r = k / z; if(n >= EPS) { OK_; EQC("k/", r, k * a / n, -k * b / n); }
EQC("conjugate", z.conjugate(), a, -b); EQ("sqr_norm", z.sqr_norm(), n); EQ("norm", z.norm() * z.norm(), n); EQI("norm sign", z.norm() >= 0, 1); errno = 0; r = z.inverse(); if(n >= EPS) { OK_; EQC("inverse", r, a / n, -b / n); } }
// --- complex_assign | src/complex/complex.h | compound assignment of complex numbers agrees with the operators
{ CX r = z; r += w; EQC("+=", r, a + c, b + d); r = z; r -= w; EQC("-=", r, a - c, b - d); r = z; r *= w; EQC("*=", r, a * c - b * d, a * d + b * c); r = z; r += k; EQC("+=k", r, a + k, b); r = z; r -= k; EQC("-=k", r, a - k, b); r = z; r *= k; EQC("*=k", r, a * k, b * k);
errno = 0; r = z; r /= w; if(m >= EPS) { OK_; EQC("/=", r, (a * c + b * d) / m, (b * c - a * d) / m); } errno = 0; r = z; r /= k; if(ab(k) >= EPS) { OK_; EQC("/=k", r, a / k, b / k); }
r = z; r += r; EQC("self +=", r, 2 * a, 2 * b); r = z; r -= r; EQC("self -=", r, 0, 0); r = z; r *= r; EQC("self *=", r, a * a - b * b, 2 * a * b); errno = 0; r = z; r /= r; if(n >= EPS) { OK_; EQC("self /=", r, 1, 0); } errno = 0; r = z; r.invert(); if(n >= EPS) { OK_; EQC("invert", r, a / n, -b / n); }
EQI("==", z == w, a == c && b == d); EQI("!=", z != w, !(a == c && b == d)); r.Re() = k; r.Im() = a; EQC("set parts", r, k, a); EQ("Re", Re(z), a); EQ("Im", Im(z), b); std::array<real, 2> v = {c, d}; r = v; EQC("from array", r, c, d); EQC("i", cplx::i(), 0, 1); EQC("rotor", cplx::rotor(k), th::cos(k), th::sin(k)); EQC("zero", cplx(), 0, 0); EQC("real", cplx(a), a, 0); }
// --- complex_errors | src/complex/complex.h | division of complex numbers by zero is reported
{ CX const cplx o(0, 0); errno = 0; r = z / o; REPORTED("z / 0"); ISNAN("z / 0 re", r.Re()); ISNAN("z / 0 im", r.Im()); errno = 0; r = z; r /= o; REPORTED("z /= 0"); NANC("z /= 0", r); errno = 0; r = z / 0.0; REPORTED("z / real 0"); ISNAN("real 0 re", r.Re()); ISNAN("real 0 im", r.Im()); errno = 0; r = z; r /= 0.0; REPORTED("z /= real 0"); NANC("assigned", r); errno = 0; r = k / o; REPORTED("k / 0"); NANC("k / 0", r); errno = 0; r = o.inverse(); REPORTED("inverse"); NANC("inverse", r); errno = 0; r = o; r.invert(); REPORTED("invert"); NANC("invert", r); errno = 0; r = th::inverse(o); REPORTED("inverse function"); NANC("inverse function", r);  if(m >= 1E-6) { errno = 0; r = z / w; EQI("no error", errno, 0); } if(k >= 1E-6) { errno = 0; r = z / k; EQI("no error for scalar", errno, 0); } }
// --- complex_arg | src/complex/complex.h | the argument and modulus represent the complex number
{ CX if(ab(a) >= EPS && ab(b) >= EPS) { const real t = z.arg(), p = z.norm(); EQ("modulus cos arg", p * th::cos(t), a); EQ("modulus sin arg", p * th::sin(t), b); } if(a > 0) EQ("arg of positive", cplx(a, 0).arg(), 0); if(a < 0) EQ("arg of negative", cplx(a, 0).arg(), PI); if(b > EPS) EQ("arg of imaginary", cplx(0, b).arg(), PI / 2); if(b < -EPS) EQ("arg of negative imaginary", cplx(0, b).arg(), -PI / 2); } 
// --- complex_functions | src/complex/complex_analysis.h | elementary functions of complex numbers
{ CX EQC("identity", th::identity(z), a, b); EQC("conjugate", th::conjugate(z), a, -b); EQC("square", th::square(z), a * a - b * b, 2 * a * b); EQC("cube", th::cube(z), a * a * a - 3 * a * b * b, 3 * a * a * b - b * b * b); errno = 0; r = th::inverse(z); if(n >= EPS) { OK_; EQC("inverse", r, a / n, -b / n); } EQC("exp", th::exp(z), th::exp(a) * th::cos(b), th::exp(a) * th::sin(b)); EQ("abs", th::abs(z) * th::abs(z), n);
EQC("sin", th::sin(z), th::sin(a) * ch(b), th::cos(a) * sh(b)); EQC("cos", th::cos(z), th::cos(a) * ch(b), -th::sin(a) * sh(b)); for(int p = 1; p < 6; p++) { cplx q = 1; for(int i = 0; i < p; i++) q = q * z; EQC("pow", th::pow(z, p), q.Re(), q.Im()); }
const cplx dn = th::exp(cplx(-2 * b, 2 * a)) + cplx(1, 0); errno = 0; r = th::tan(z); if(dn.sqr_norm() >= EPS) { OK_; cplx s = r * th::cos(cplx(2 * a, 2 * b)) + r; const cplx u = th::sin(cplx(2 * a, 2 * b)); EQC("tan (1 + cos 2z) = sin 2z", s, u.Re(), u.Im()); } }
// --- complex_sqrt | src/complex/complex_analysis.h | the square root of a complex number squares back to it
{ CX if(ab(a) >= EPS || ab(b) >= EPS) { r = th::sqrt(z); EQ("square re", r.Re() * r.Re() - r.Im() * r.Im(), a); EQI("principal", r.Re() >= 0, 1); EQ("square im", 4 * r.Re() * r.Re() * r.Im() * r.Im(), b * b); if(b > 0) EQI("sign of im", r.Im() >= 0, 1); if(b < 0) EQI("sign of im", r.Im() <= 0, 1); } if(a > EPS) { EQC("positive real", th::sqrt(cplx(a, 0)), th::sqrt(a), 0); EQC("negative real", th::sqrt(cplx(-a, 0)), 0, th::sqrt(a)); r = th::sqrt(cplx(0, a)); EQC("imaginary", r * r, 0, a); r = th::sqrt(cplx(0, -a)); EQC("negative imaginary", r * r, 0, -a); } }
// --- complex_ln | src/complex/complex_analysis.h | the complex logarithm inverts the exponential
{ CX if(ab(a) >= EPS && ab(b) >= EPS) { EQC("exp(ln z)", th::exp(th::ln(z)), a, b); } if(a > EPS) { EQC("ln of positive", th::ln(cplx(a, 0)), th::ln(a), 0); EQC("ln of negative", th::ln(cplx(-a, 0)), th::ln(a), PI); } }
// --- complex_asin | src/complex/complex_analysis.h | arcsine of complex numbers | opaque=atan2
{ CX const cplx u = cplx(0, 1) * z + th::sqrt(cplx(1, 0) - th::square(z)); if(ab(u.a) >= EPS && ab(u.b) >= EPS) { r = th::asin(z); const cplx e = th::exp(r * cplx(0, 1)); EQC("exp(i asin z)", e, u.a, u.b); } }
// --- complex_acos | src/complex/complex_analysis.h | arccosine of complex numbers | opaque=atan2
{ CX const cplx u = z + th::sqrt(th::square(z) - cplx(1, 0)); if(ab(u.a) >= EPS && ab(u.b) >= EPS) { r = th::acos(z); const cplx e = th::exp(r * cplx(0, 1)); EQC("exp(i acos z)", e, u.a, u.b); } }
// --- complex_atan | src/complex/complex_analysis.h | arctangent of complex numbers | opaque=atan2
{ CX const cplx u = (cplx(0, 1) - z) / (cplx(0, 1) + z); if(a * a + (b + 1) * (b + 1) >= EPS && ab(u.a) >= EPS && ab(u.b) >= EPS) { r = th::atan(z); const cplx e = th::exp(r * cplx(0, 2)); EQC("exp(2 i atan z)", e, u.a, u.b); } }
// --- quat_arith | src/complex/quat.h | arithmetic of quaternions
{ QX const real n = z.sqr_norm(), m = w.sqr_norm(); EQQ("+", z + w, a + e, b + f, c + g, d + h); EQQ("-", z - w, a - e, b - f, c - g, d - h); EQQ("*", z * w, a * e - b * f - c * g - d * h, a * f + b * e + c * h - d * g, a * g - b * h + c * e + d * f, a * h + b * g - c * f + d * e); EQQ("neg", -z, -a, -b, -c, -d); EQQ("pos", +z, a, b, c, d); EQQ("+k", z + k, a + k, b, c, d); EQQ("-k", z - k, a - k, b, c, d); EQQ("*k", z * k, a * k, b * k, c * k, d * k); EQQ("k+", k + z, a + k, b, c, d); EQQ("k-", k - z, k - a, -b, -c, -d); EQQ("k*", k * z, a * k, b * k, c * k, d * k); EQ("sqr_norm", n, a * a + b * b + c * c + d * d); EQ("norm", z.norm() * z.norm(), n); EQQ("conjugate", z.conjugate(), a, -b, -c, -d);
errno = 0; r = z / k; if(ab(k) >= EPS) { OK_; EQQ("/k", r, a / k, b / k, c / k, d / k); } errno = 0; r = z.inverse(); if(n >= EPS) { OK_; EQQ("inverse", r, a / n, -b / n, -c / n, -d / n); EQQ("z inverse z", z * r, 1, 0, 0, 0); EQQ("inverse z z", r * z, 1, 0, 0, 0); } errno = 0; r = z / w; if(m >= EPS) { OK_; EQQ("(z / w) w", r * w, a, b, c, d); } errno = 0; r = k / z; if(n >= EPS) { OK_; EQQ("(k / z) z", r * z, k, 0, 0, 0); } EQQ("associative", (z * w) * Q(k, a, e, f), (z * (w * Q(k, a, e, f))).a, (z * (w * Q(k, a, e, f))).b, (z * (w * Q(k, a, e, f))).c, (z * (w * Q(k, a, e, f))).d); EQ("multiplicative norm", (z * w).sqr_norm(), n * m); EQ("Re", Re(z), a); EQ("Im1", Im1(z), b); EQ("Im2", Im2(z), c); EQ("Im3", Im3(z), d); EQQ("zero", Q(), 0, 0, 0, 0); EQQ("real", Q(a), a, 0, 0, 0); std::array<real, 4> v = {e, f, g, h}; r = v; EQQ("from array", r, e, f, g, h); }
// --- quat_assign | src/complex/quat.h | compound assignment of quaternions agrees with the operators
{ QX const real n = z.sqr_norm(), m = w.sqr_norm(); r = z; r += w; EQQ("+=", r, a + e, b + f, c + g, d + h); r = z; r -= w; EQQ("-=", r, a - e, b - f, c - g, d - h); r = z; r *= w; { const Q p = z * w; EQQ("*=", r, p.a, p.b, p.c, p.d); } r = z; r *= k; EQQ("*=k", r, a * k, b * k, c * k, d * k); errno = 0; r = z; r /= k; if(ab(k) >= EPS) { OK_; EQQ("/=k", r, a / k, b / k, c / k, d / k); } errno = 0; r = z; r /= w; if(m >= EPS) { OK_; EQQ("(z /= w) w", r * w, a, b, c, d); } r = z; r *= r; { const Q p = z * z; EQQ("self *=", r, p.a, p.b, p.c, p.d); } r = z; r += r; EQQ("self +=", r, 2 * a, 2 * b, 2 * c, 2 * d); errno = 0; r = z; r /= r; if(n >= EPS) { OK_; EQQ("self /=", r, 1, 0, 0, 0); } errno = 0; r = z; r.invert(); if(n >= EPS) { OK_; EQQ("invert", r, a / n, -b / n, -c / n, -d / n); } 
const Q o; errno = 0; r = z / o; REPORTED("z / 0"); ISNAN("z / 0", r.a); errno = 0; r = z / 0.0; REPORTED("z / real 0"); ISNAN("z / real 0", r.a); errno = 0; r = z; r /= 0.0; REPORTED("z /= real 0"); ISNAN("z /= real 0", r.a); errno = 0; r = o.inverse(); REPORTED("inverse"); ISNAN("inverse", r.a); errno = 0; r = o; r.invert(); REPORTED("invert"); ISNAN("invert", r.a); errno = 0; r = k / o; REPORTED("k / 0"); }
// --- quat_rotation | src/complex/quat.h | rotations by quaternions are the rotations of three-dimensional space
{ const real p = IN(0), q = IN(1), den = p * p + q * q + 1; vec3 u = {2 * p / den, 2 * q / den, (p * p + q * q - 1) / den}; vec3 v = mks<vec3>(10); const real t = IN(20), s = th::sin(t / 2), c = th::cos(t / 2); vec3 r = Q::rotate(v, t, u); const real dt = u[0] * v[0] + u[1] * v[1] + u[2] * v[2]; const vec3 x = {u[1] * v[2] - u[2] * v[1], u[2] * v[0] - u[0] * v[2], u[0] * v[1] - u[1] * v[0]}; const real C = c * c - s * s, S = 2 * s * c;
for(int i = 0; i < 3; i++) EQ("Rodrigues formula", r[i], v[i] * C + x[i] * S + u[i] * dt * (1 - C)); Q z = Q::rotation(t, u); EQQ("rotation", z, c, u[0] * s, u[1] * s, u[2] * s); vec3 y = z.transform(v); for(int i = 0; i < 3; i++) EQ("transform", y[i], v[i] * C + x[i] * S + u[i] * dt * (1 - C)); 
vec<real> dv = mkd(3, 10), du(3); for(int i = 0; i < 3; i++) du[i] = u[i]; vec<real> dr = Q::rotate(dv, t, du); for(int i = 0; i < 3; i++) EQ("dynamic rotate", dr[i], r[i]); errno = 0; vec2 sv = mks<vec2>(0); z.transform(mkd(2, 0)); REPORTED("short vector"); errno = 0; Q::rotate(mkd(2, 0), t, du); REPORTED("short rotated vector"); errno = 0; Q::rotate(dv, t, mkd(2, 0)); REPORTED("short axis"); errno = 0; Q::rotation(t, mkd(4, 0)); REPORTED("long axis"); }
// --- phasor_arith | src/complex/phasor.h | arithmetic of phasors
{ PX r = z * w; EQ("* modulus", r.modulus, a * c); EQ("* phase", r.phase, b + d); errno = 0; r = z / w; if(ab(c) >= EPS) { OK_; EQ("/ modulus", r.modulus, a / c); EQ("/ phase", r.phase, b - d); } EQ("Re", z.Re(), a * th::cos(b)); EQ("Im", z.Im(), a * th::sin(b)); EQ("Re function", Re(z), a * th::cos(b)); EQ("Im function", Im(z), a * th::sin(b)); r = z.conjugate(); EQ("conjugate Re", r.Re(), a * th::cos(b)); EQ("conjugate Im", r.Im(), -a * th::sin(b)); EQ("sqr_norm", z.sqr_norm(), a * a); EQ("norm", z.norm(), a); EQ("arg", z.arg(), b); errno = 0; r = z.inverse(); if(ab(a) >= EPS) { OK_; EQ("inverse modulus", r.modulus, 1 / a); EQ("inverse phase", r.phase, -b); } EQC("to_complex", z.to_complex(), a * th::cos(b), a * th::sin(b)); EQ("from positive", P(ab(a)).modulus, ab(a)); EQ("from real", P(a).Re(), a); EQ("from real im", P(a).Im(), 0); r = P::rotor(k); EQ("rotor modulus", r.modulus, 1); EQ("rotor phase", r.phase, k); EQ("i Re", P::i().Re(), 0); EQ("i Im", P::i().Im(), 1); r = k * z; EQ("k* modulus", r.modulus, ab(k) * a); EQ("k* Re", r.Re(), k * a * th::cos(b)); EQ("k* Im", r.Im(), k * a * th::sin(b)); EQI("==", z == w, a == c && b == d); EQI("!=", z != w, !(a == c && b == d)); const P o; EQ("zero", o.modulus, 0); EQ("zero phase", o.phase, 0); }
// --- phasor_assign | src/complex/phasor.h | compound assignment of phasors agrees with the operators
{ PX r = z; r *= w; EQ("*= modulus", r.modulus, a * c); EQ("*= phase", r.phase, b + d); errno = 0; r = z; r /= w; if(ab(c) >= EPS) { OK_; EQ("/= modulus", r.modulus, a / c); EQ("/= phase", r.phase, b - d); } r = z; r *= r; EQ("self *= modulus", r.modulus, a * a); EQ("self *= phase", r.phase, 2 * b); errno = 0; r = z; r /= r; if(ab(a) >= EPS) { OK_; EQ("self /= modulus", r.modulus, 1); EQ("self /= phase", r.phase, 0); } errno = 0; r = z; r.invert(); if(ab(a) >= EPS) { OK_; EQ("invert modulus", r.modulus, 1 / a); EQ("invert phase", r.phase, -b); }
const P o; errno = 0; r = z / o; REPORTED("z / 0"); NANP("z / 0", r); errno = 0; r = z; r /= o; REPORTED("z /= 0"); NANP("z /= 0", r); errno = 0; r = o.inverse(); REPORTED("inverse"); NANP("inverse", r); errno = 0; r = o; r.invert(); REPORTED("invert"); NANP("invert", r); }
// --- phasor_sum | src/complex/phasor.h | sums of phasors have the real and imaginary part of the sum
{ PX const cplx s = z.to_complex() + w.to_complex(); if(ab(b - d) >= EPS && ab(s.a) >= EPS && ab(s.b) >= EPS) { r = z + w; EQ("+ Re", r.Re(), s.a); EQ("+ Im", r.Im(), s.b); r = z; r += w; EQ("+= Re", r.Re(), s.a); EQ("+= Im", r.Im(), s.b); EQI("+ norm", r.norm() >= 0, 1); } }
// --- phasor_diff | src/complex/phasor.h | differences of phasors have the real and imaginary part of the difference
{ PX const cplx s = z.to_complex() - w.to_complex(); if(ab(b - d) >= EPS && ab(s.a) >= EPS && ab(s.b) >= EPS) { r = z - w; EQ("- Re", r.Re(), s.a); EQ("- Im", r.Im(), s.b); r = z; r -= w; EQ("-= Re", r.Re(), s.a); EQ("-= Im", r.Im(), s.b); EQI("- norm", r.norm() >= 0, 1); } }
// --- phasor_same | src/complex/phasor.h | sums of phasors with the same phase
{ PX const P v(c, b); r = z + v; EQ("same phase + Re", r.Re(), (a + c) * th::cos(b)); EQ("same phase + Im", r.Im(), (a + c) * th::sin(b)); r = z; r += v; EQ("same phase += Re", r.Re(), (a + c) * th::cos(b)); EQ("same phase += Im", r.Im(), (a + c) * th::sin(b)); }
// --- phasor_same_diff | src/complex/phasor.h | differences of phasors with the same phase
{ PX const P v(c, b); if(a >= c) { r = z - v; EQ("same phase - Re", r.Re(), (a - c) * th::cos(b)); EQ("same phase - Im", r.Im(), (a - c) * th::sin(b)); r = z; r -= v; EQ("same phase -= Re", r.Re(), (a - c) * th::cos(b)); EQ("same phase -= Im", r.Im(), (a - c) * th::sin(b)); } }
// --- phasor_diff_norm | src/complex/phasor.h | the norm of a difference of phasors with the same phase is not negative
{ PX const P v(c, b); r = z - v; EQI("norm of a difference", r.norm() >= 0, 1); r = z; r -= v; EQI("norm of a difference (assignment)", r.norm() >= 0, 1); }
// --- phasor_mixed | src/complex/phasor.h | phasors combined with complex and real numbers
{ PX const cplx q(c, d); if(ab(c) >= EPS && ab(d) >= EPS) { r = z * q; const cplx x = z.to_complex() * q; EQ("modulus squared", r.modulus * r.modulus, a * a * (c * c + d * d)); r = P(q); EQ("from complex Re", r.Re(), c); EQ("from complex Im", r.Im(), d); r = q * z; EQ("modulus squared (left)", r.modulus * r.modulus, a * a * (c * c + d * d)); EQ("phase (left)", r.phase, b + q.arg()); r = z * q; EQ("phase", r.phase, b + q.arg()); } errno = 0; r = k / z; if(ab(a) >= EPS) { OK_; EQ("k/ modulus", r.modulus, ab(k) / a); EQ("k/ phase of a positive number", (ab(k) / z).phase, -b); if(k < 0) EQ("k/ phase of a negative number", r.phase, PI - b); }  r = k / P(); REPORTED("k / 0"); NANP("k / 0", r); std::array<real, 2> v = {c, d}; r = v; EQ("from array modulus", r.modulus, c); EQ("from array phase", r.phase, d); }
// --- complex_parts | src/complex/complex.h | parts of complex numbers through references, conversion to a real number
{ CX r = z; Re(r) = c; Im(r) = d; EQC("parts set through functions", r, c, d); const cplx y(z); EQC("copy", y, a, b); r = w; r = z; EQC("assign", r, a, b); errno = 0; const real x = (real) cplx(a, 0); EQ("conversion to a real number", x, a); EQI("conversion not reported", errno, 0); errno = 0; if(ab(b) >= EPS) { const real u = (real) cplx(a, b); ISNAN("conversion with an imaginary part", u); } }
// --- phasor_convert | src/complex/phasor.h | copies and conversions of phasors
{ PX const P y(z); EQ("copy modulus", y.modulus, a); EQ("copy phase", y.phase, b); r = w; r = z; EQ("assign modulus", r.modulus, a); EQ("assign phase", r.phase, b); P t = z; const cplx q = t; EQC("to complex number", q, a * th::cos(b), a * th::sin(b)); if(k < 0) { EQ("negative number modulus", P(k).modulus, -k); EQ("negative number phase", P(k).phase, PI); } if(k >= 0) { EQ("number modulus", P(k).modulus, k); EQ("number phase", P(k).phase, 0); } }
// --- phasor_real | src/complex/phasor.h | real numbers combined with phasors have the parts of the sum and difference | opaque=atan2
{ PX const real x = a * th::cos(b), y = a * th::sin(b); if(ab(y) >= EPS) { if(ab(k + x) >= EPS && ab(b - (k < 0 ? PI : 0)) >= EPS) { r = k + z; EQ("k+ Re", r.Re(), k + x); EQ("k+ Im", r.Im(), y); } } }
// --- phasor_real_diff | src/complex/phasor.h | real numbers minus phasors | opaque=atan2
{ PX const real x = a * th::cos(b), y = a * th::sin(b); if(k >= 0 && ab(y) >= EPS && ab(k - x) >= EPS && ab(b + PI) >= EPS) { r = k - z; EQ("k- Re", r.Re(), k - x); EQ("k- Im", r.Im(), -y); } }
// --- phasor_real_diff2 | src/complex/phasor.h | negative numbers minus phasors | opaque=atan2
{ PX const real x = a * th::cos(b), y = a * th::sin(b); if(k < 0 && ab(y) >= EPS && ab(k - x) >= EPS && ab(b) >= EPS) { r = k - z; EQ("k- Re", r.Re(), k - x); EQ("k- Im", r.Im(), -y); } }
