#include "probe.h"
static inline real ab(real x) { return x < 0 ? -x : x; }
template<typename T> static inline T prod(T x, unsigned n) { T p = 1; for(unsigned i = 0; i < n; i++) p = p * x; return p; }
static inline uint64_t bino(unsigned n, unsigned m) { unsigned __int128 r = 1; for(unsigned i = 1; i <= m; i++) r = r * (n - m + i) / i; return (uint64_t) r; }
// --- basic | src/core/real_analysis.h | powers, sign, extrema and clamping of real numbers
{ const real x = IN(0), y = IN(1), z = IN(2); EQ("identity", th::identity(x), x); EQ("conjugate", th::conjugate(x), x); EQ("square", th::square(x), x * x); EQ("cube", th::cube(x), x * x * x); EQ("abs", th::abs(x), x < 0 ? -x : x); EQI("abs sign", th::abs(x) >= 0, 1); EQ("sgn", th::sgn(x), x > 0 ? 1 : x < 0 ? -1 : 0); EQ("sgn abs", th::sgn(x) * th::abs(x), x);
EQ("max", th::max(x, y), x > y ? x : y); EQ("min", th::min(x, y), x < y ? x : y); EQ("max sym", th::max(y, x), th::max(x, y)); EQ("min sym", th::min(y, x), th::min(x, y)); EQ("max min", th::max(x, y) + th::min(x, y), x + y);
if(y <= z) { const real c = th::clamp(x, y, z); EQ("clamp", c, x < y ? y : x > z ? z : x); EQI("clamp lower", c >= y, 1); EQI("clamp upper", c <= z, 1); } EQ("conjugate float", th::conjugate((float) 2), 2); }
// --- integers | src/core/real_analysis.h | generic extrema, clamping and deltas on integers
{ const long i = INU(0), j = INU(1), k = INU(2); EQI("max", th::max(i, j), i > j ? i : j); EQI("min", th::min(i, j), i > j ? j : i); EQI("clamp", th::clamp(i, j, k), i > k ? k : (i < j ? j : i)); EQI("delta", th::kronecker_delta(i, j), i == j); EQI("delta equal", th::kronecker_delta(i, i), 1); }
// --- branchless | src/core/real_analysis.h | branchless extrema agree with the definition | def=THEORETICA_BRANCHLESS
{ const real x = IN(0), y = IN(1); EQ("max", th::max(x, y), x > y ? x : y); EQ("min", th::min(x, y), x < y ? x : y); }
// --- step | src/core/real_analysis.h | step functions
{ const real x = IN(0); EQ("positive", x > 1E-15 ? th::heaviside(x) : 1, 1); EQ("negative", x < -1E-15 ? th::heaviside(x) : 0, 0); EQ("zero", th::heaviside(0), 0.5); }
// --- floor | src/core/real_analysis.h | integer and fractional parts
{ const real x = IN(0); if(x > -2147483647.0 && x < 2147483647.0) { const int n = th::floor(x); EQI("lower", n <= x, 1); EQI("upper", x < real(n) + 1, 1); const real f = th::fract(x); EQ("fract", f, x - n); EQI("fract lower", f >= 0, 1); EQI("fract upper", f < 1, 1); } EQI("floor 1.6", th::floor(1.6), 1); EQI("floor -0.3", (unsigned long)(long) th::floor(-0.3), (unsigned long) -1L); EQI("floor -2", (unsigned long)(long) th::floor(-2.0), (unsigned long) -2L); EQI("floor 7", th::floor(7), 7); EQ("fract 2.5", th::fract(2.5), 0.5); }
// --- pow | src/core/real_analysis.h | integer powers
{ const real x = IN(0);
#define PW(n) EQ("pow " #n, th::pow(x, n), prod(x, n)); EQ("ipow " #n, th::ipow(x, n), prod(x, n)); if(x != 0) EQ("pow -" #n, th::pow(x, -n) * prod(x, n), 1);
PW(1) PW(2) PW(3) PW(4) PW(5) PW(6) PW(7) PW(8) PW(9) PW(10) PW(11) PW(12) PW(13) PW(14) PW(15) PW(16) PW(17) PW(18) PW(19) PW(23) PW(24) PW(31) PW(32) PW(33) PW(47) PW(48) PW(63) PW(64) PW(65) PW(100)
EQ("pow 0", th::pow(x, 0), 1); EQ("ipow 0", th::ipow(x, 0), 1); EQ("ipow neutral", th::ipow(x, 0, real(7)), 7); EQ("ipow 1 neutral", th::ipow(x, 1, real(7)), x); EQ("ipow 5 neutral", th::ipow(x, 5, real(7)), prod(x, 5)); EQ("pow 0 0", th::pow(0.0, 0), 1); }
// --- pow_types | src/core/real_analysis.h | integer powers of integers and complex numbers
{ const uint64_t n = INU(0);
#define PI_(k) EQI("ipow " #k, th::ipow<uint64_t>(n, k), prod<uint64_t>(n, k));
PI_(0) PI_(1) PI_(2) PI_(3) PI_(4) PI_(5) PI_(6) PI_(7) PI_(8) PI_(9) PI_(13) PI_(20) PI_(31)
const complex<real> z(IN(0), IN(1)); complex<real> p(1, 0);
#define PC_(k) { const complex<real> r = th::pow(z, k); complex<real> q(1, 0); for(int i = 0; i < k; i++) q = complex<real>(q.a * z.a - q.b * z.b, q.a * z.b + q.b * z.a); EQ("re " #k, r.a, q.a); EQ("im " #k, r.b, q.b); }
PC_(1) PC_(2) PC_(3) PC_(4) PC_(5) PC_(6) PC_(7) PC_(11) PC_(12) }
// --- combinatorics | src/core/real_analysis.h | factorials and binomial coefficients
{ uint64_t f = 1, d0 = 1, d1 = 1;
for(unsigned n = 0; n <= 20; n++) { if(n) f *= n; EQI("fact", th::fact(n), f); }
for(unsigned n = 0; n <= 29; n++) { uint64_t d = 1; for(unsigned k = n; k > 1; k -= 2) d *= k; EQI("double fact", th::double_fact(n), d); }
for(unsigned n = 0; n <= 12; n++) for(unsigned m = 0; m <= n; m++) EQI("binomial", th::binomial_coeff(n, m), bino(n, m));
#define BN(n, m) EQI("binomial " #n " " #m, th::binomial_coeff(n, m), bino(n, m));
BN(30, 15) BN(40, 20) BN(50, 25) BN(60, 30) BN(61, 2) BN(61, 59) BN(62, 31) BN(100, 3) BN(100, 97) BN(1000, 999)
EQI("catalan 0", th::catalan(0), 1); EQI("catalan 1", th::catalan(1), 1); EQI("catalan 5", th::catalan(5), 42); EQI("catalan 10", th::catalan(10), 16796); EQI("catalan 20", th::catalan(20), 6564120420UL); EQI("catalan 30", th::catalan(30), 3814986502092304UL);
const real x = IN(0); EQ("falling", th::falling_fact(x, 4), x * (x - 1) * (x - 2) * (x - 3)); EQ("falling 0", th::falling_fact(x, 0), 1); EQ("falling 1", th::falling_fact(x, 1), x); EQ("rising", th::rising_fact(x, 4), x * (x + 1) * (x + 2) * (x + 3)); EQ("rising 0", th::rising_fact(x, 0), 1); EQ("rising 1", th::rising_fact(x, 1), x);
const uint64_t k = INU(0); EQI("falling int", th::falling_fact(k, 3), k * (k - 1) * (k - 2)); EQI("rising int", th::rising_fact(k, 3), k * (k + 1) * (k + 2)); }
// --- angles | src/core/real_analysis.h | conversion of angles
{ const real x = IN(0); EQ("radians", th::radians(x) * 180, x * PI); EQ("degrees", th::degrees(x) * PI, x * 180); EQ("inverse", th::degrees(th::radians(x)), x); }
// --- hyperbolic | src/core/real_analysis.h | hyperbolic functions
{ const real x = IN(0), e = th::exp(x); EQ("sinh", 2 * th::sinh(x), e - 1 / e); EQ("cosh", 2 * th::cosh(x), e + 1 / e); EQ("tanh", th::tanh(x) * th::cosh(x), th::sinh(x)); if(x > 0) EQ("coth", th::coth(x) * th::tanh(x), 1); if(x < 0) EQ("coth neg", th::coth(x) * th::tanh(x), 1); EQ("identity", th::square(th::cosh(x)) - th::square(th::sinh(x)), 1); EQ("sigmoid", th::sigmoid(x) * (1 + e), e); EQ("sigmoid symmetry", th::sigmoid(x) + th::sigmoid(-x), 1); if(ab(x) > 0.01) EQ("expm1", th::expm1(x), e - 1); EQ("sinc 0", th::sinc(0), 1); if(ab(x) > 1E-10) EQ("sinc", th::sinc(x) * PI * x, th::sin(PI * x)); }
// --- inverse_hyperbolic | src/core/real_analysis.h | inverse hyperbolic functions undo the hyperbolic ones
{ const real x = IN(0); EQ("asinh", th::sinh(th::asinh(x)), x); if(x > 1) EQ("acosh", th::cosh(th::acosh(x)), x); if(x > -1 && x < 1) EQ("atanh", th::tanh(th::atanh(x)), x); }
// --- inverse_trig | src/core/real_analysis.h | inverse trigonometric functions reduce to the arc tangent | noopaque=asin,acos
{ const real x = IN(0); if(x > -1 && x < 1) { EQ("sin asin", th::sin(th::asin(x)), x); if(x > 0 || x < 0) EQ("cos acos", th::cos(th::acos(x)), x); if(x > 0) EQ("acos asin", th::sin(th::acos(x)), th::cos(th::asin(x))); } }
// --- atan2 | src/core/real_analysis.h | two-argument arc tangent selects the quadrant of the point
{ const real y = IN(0), x = IN(1); if(x != 0 || y != 0) { const real a = th::atan2(y, x), r = th::sqrt(x * x + y * y); EQ("cosine", r * th::cos(a), x); EQ("sine", r * th::sin(a), y); } EQ("pos y", th::atan2(3, 0), PI / 2); EQ("neg y", th::atan2(-3, 0), -PI / 2); EQ("pos x", th::atan2(0, 2), th::atan(0)); EQ("neg x", th::atan2(0, -2), th::atan(0) + PI); }
// --- logarithms | src/core/real_analysis.h | logarithms in different bases agree | noopaque=ln,log10
{ const real x = IN(0); if(x > 0) { EQ("ln", th::ln(x), th::log2(x) * LN2); EQ("log10", th::log10(x) * LN10, th::log2(x) * LN2); } }
// --- roots | src/core/real_analysis.h | roots of small order
{ const real x = IN(0); EQ("root 1", th::root(x, 1), x); if(x >= 0) EQ("root 2", th::root(x, 2) * th::root(x, 2), x); const real c = th::root(x, 3); EQ("root 3", c * c * c, x); if(x > 0) { EQ("root -2", th::root(x, -2) * th::sqrt(x), 1); } if(x != 0) { EQ("root -1", th::root(x, -1) * x, 1); const real d = th::root(x, -3); EQ("root -3", d * d * d * x, 1); } }
// --- powf | src/core/real_analysis.h | real powers | noopaque=powf
{ const real x = IN(0), a = IN(1); if(x > 0) { EQ("powf", th::powf(x, a), th::exp(a * th::ln(x))); EQ("inverse", th::powf(x, a) * th::powf(x, -a), 1); EQ("square", th::powf(x, 2), x * x); } if(a > 0) EQ("null base", th::powf(0, a), 0); EQ("null exponent", x > 0 ? th::powf(x, 0) : 1, 1); EQ("zero to zero", th::powf(0, 0), 1); }
// --- trig | src/core/real_analysis.h | trigonometric functions are the architectural ones on the default platform | noopaque=all def=PROBE_X86
{ const real x = IN(0); EQ("pythagoras", th::square(th::sin(x)) + th::square(th::cos(x)), 1); EQ("sin odd", th::sin(-x), -th::sin(x)); EQ("cos even", th::cos(-x), th::cos(x)); if(ab(th::cos(x)) > 0.001) EQ("tan", th::tan(x) * th::cos(x), th::sin(x)); if(ab(th::sin(x)) > 0.001) EQ("cot", th::cot(x) * th::sin(x), th::cos(x)); const real y = IN(1); EQ("abs", th::abs(y), y < 0 ? -y : y); if(y >= 0) { const real r = th::sqrt(y); EQ("sqrt", r * r, y); EQI("sqrt sign", r >= 0, 1); } if(y > 0) { EQ("ln log2", th::ln(y), th::log2(y) * LN2); EQ("log10", th::log10(y) * LN10, th::ln(y)); } }
// --- iroots | src/core/real_analysis.h | integer roots and logarithms at the boundaries of their ranges
{
#define IS(n) { const uint64_t r = th::isqrt<uint64_t>(n); EQI("isqrt lower", (unsigned __int128) r * r <= (n), 1); EQI("isqrt upper", (unsigned __int128)(r + 1) * (r + 1) > (n), 1); const uint64_t c = th::icbrt<uint64_t>(n); EQI("icbrt lower", (unsigned __int128) c * c * c <= (n), 1); EQI("icbrt upper", (unsigned __int128)(c + 1) * (c + 1) * (c + 1) > (n), 1); }
IS(0UL) IS(1UL) IS(2UL) IS(3UL) IS(4UL) IS(7UL) IS(8UL) IS(9UL) IS(26UL) IS(27UL) IS(63UL) IS(64UL) IS(99UL) IS(100UL) IS(4294967295UL) IS(4294967296UL) IS(18446744073709551615UL) IS(18446744065119617025UL) IS(18446744065119617024UL)
for(int k = 0; k < 64; k++) { const uint64_t p = uint64_t(1) << k; EQI("ilog2", th::ilog2<uint64_t>(p), k); EQI("pad2", th::pad2<uint64_t>(p), p); if(k > 1) { EQI("ilog2 below", th::ilog2<uint64_t>(p - 1), k - 1); EQI("pad2 below", th::pad2<uint64_t>(p - 1), p); } if(k > 1 && k < 63) EQI("pad2 above", th::pad2<uint64_t>(p + 1), 2 * p); }
for(int k = 0; k < 32; k++) { const uint32_t p = uint32_t(1) << k; EQI("ilog2 32", th::ilog2<uint32_t>(p), k); EQI("pad2 32", th::pad2<uint32_t>(p), p); } }
// --- bits | src/core/bit_op.h | bit operations
{ const uint64_t a = INU(0), b = INU(1); uint64_t l, h; mul_uint128(a, b, l, h); EQI("product low", l, a * b); EQI("mum", mix_mum(a, b), h ^ l);
const uint64_t al = (uint32_t) a, ah = a >> 32, bl = (uint32_t) b, bh = b >> 32, c = ((al * bl >> 32) + (uint32_t)(al * bh) + (uint32_t)(ah * bl)) >> 32; EQI("product high words", h, ah * bh + (al * bh >> 32) + (ah * bl >> 32) + c);
EQI("rotate 0", bit_rotate(a, 0u), a); EQI("rotate 64", bit_rotate(a, 64u), a); EQI("rotate 1", bit_rotate(a, 1u), (a << 1) | (a >> 63)); EQI("rotate 17", bit_rotate(a, 17u), (a << 17) | (a >> 47)); EQI("rotate 63", bit_rotate(a, 63u), (a << 63) | (a >> 1)); const uint32_t s = (uint32_t) a; EQI("rotate 32", bit_rotate(s, 5u), (uint32_t)((s << 5) | (s >> 27))); }
// --- bit_reverse | src/core/bit_op.h | bit reversal permutation
{
#define BR(N, m) { vec<real> v(N); for(unsigned i = 0; i < N; i++) v[i] = IN(i); swap_bit_reverse(v, m); for(unsigned i = 0; i < N; i++) { unsigned j = 0; for(unsigned k = 0; k < m; k++) j |= ((i >> k) & 1) << (m - 1 - k); EQ("reverse " #N, v[i], IN(i < (1u << m) ? j : i)); } }
BR(1, 0) BR(2, 1) BR(4, 2) BR(8, 3) BR(16, 4) BR(5, 2) vec<real> w(3); w[0] = 1; w[1] = 2; w[2] = 3; errno = 0; swap_bit_reverse(w, 2); EQI("too short reported", errno, EINVAL); EQ("unchanged", w[2], 3); EQ("unchanged 1", w[1], 2); }
// --- ratio | src/core/ratio.h | ratios follow the arithmetic of fractions
{ const real a = IN(0), b = IN(1), c = IN(2), d = IN(3); ratio<real> p(a, b), q(c, d); if(b != 0 && d != 0) { EQ("add", (p + q).eval(), a / b + c / d); EQ("sub", (p - q).eval(), a / b - c / d); EQ("mul", (p * q).eval(), a / b * c / d); if(c != 0) EQ("div", (p / q).eval(), a / b / (c / d)); EQ("scale", (p * c).eval(), a / b * c); EQ("shrink", (p / d).eval(), a / b / d); EQ("eval", p.eval(), a / b); EQ("eval_as", p.template eval_as<real>(), a / b); } ratio<long, real> z(1, 2.0); EQ("mixed", z.eval(), 0.5); }
// --- gamma | src/core/special.h | Gamma function of integers and half integers
{ real f = 1; for(unsigned n = 1; n <= 30; n++) { if(n > 1) f *= n - 1; EQ("gamma", special::gamma(n), f); } for(unsigned n = 1; n <= 15; n++) EQ("gamma recurrence", special::half_gamma(2 * n + 2), special::half_gamma(2 * n) * n); for(unsigned n = 1; n <= 31; n += 2) EQ("half recurrence", special::half_gamma(n + 2), special::half_gamma(n) * n / 2); EQ("half", special::half_gamma(1), th::sqrt(PI)); EQ("half square", special::half_gamma(1) * special::half_gamma(1), PI); EQ("beta symmetric", special::beta(2.5, 3.25), special::beta(3.25, 2.5)); }
// --- grow_integers | src/core/real_analysis.h | integer powers, factorials and binomial coefficients of any size | n=9 grow=60
{ const int N = VP_N; real p = 1; for(int i = 0; i < N; i++) p *= IN(0); EQ("power", th::pow(IN(0), N), p); if(IN(0) > 0.5) EQ("negative power", th::pow(IN(0), -N) * p, 1); EQ("power of two", th::pow(real(-2), N), [&] { real q = 1; for(int i = 0; i < N; i++) q *= -2; return q; }()); real f = 1, h = 1; for(int i = 1; i <= N; i++) f *= i; if(N <= 20) EQ("factorial", fact<real>(N), f); for(int i = N; i > 1; i -= 2) h *= i; if(N <= 28) EQ("double factorial", double_fact<real>(N), h); if(N < 28) { uint64_t b = 1; for(int i = 1; i <= N / 2; i++) b = b * (N - N / 2 + i) / i; EQI("binomial", (uint64_t) binomial_coeff<uint64_t>(N, N / 2), b); EQI("binomial ends", (uint64_t) binomial_coeff<uint64_t>(N, N), 1); EQI("binomial one", (uint64_t) binomial_coeff<uint64_t>(N, N - 1), N); } }
