#include "la.h"
#define A INU(0)
#define B INU(1)
#define C INU(2)
#define D INU(3)
static inline uint64_t rl(uint64_t x, int k) { return (x << k) | (x >> (64 - k)); }
static inline uint64_t sm(uint64_t x) { x += 0x9e3779b97f4a7c15ULL; x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ULL; x = (x ^ (x >> 27)) * 0x94d049bb133111ebULL; return x ^ (x >> 31); }
struct xo { uint64_t s[4]; uint64_t next() { const uint64_t r = rl(s[0] + s[3], 23) + s[0], t = s[1] << 17; s[2] ^= s[0]; s[3] ^= s[1]; s[1] ^= s[2]; s[0] ^= s[3]; s[2] ^= t; s[3] = rl(s[3], 45); return r; } };
static inline uint64_t hi(uint64_t a, uint64_t b) { const uint64_t M = 0xffffffff, p = (a & M) * (b & M), q = (a & M) * (b >> 32), r = (a >> 32) * (b & M); return (a >> 32) * (b >> 32) + (q >> 32) + (r >> 32) + (((p >> 32) + (q & M) + (r & M)) >> 32); }
static inline uint64_t mum(uint64_t a, uint64_t b) { return (a * b) ^ hi(a, b); }
static inline uint64_t midsq(uint64_t s) { return (hi(s, s) << 32) | ((s * s) >> 32); }
// --- splitmix | src/pseudorandom/pseudorandom.h | SplitMix64 equals the reference generator
{ std::vector<uint64_t> p; EQI("free function", randgen_splitmix64(A), sm(A)); EQI("wrapper", randgen_splitmix64(A, p), sm(A)); PRNG g = PRNG::splitmix64(A | 1); EQI("first", g(), sm(A | 1)); EQI("second", g(), sm(sm(A | 1))); EQI("last", g.last(), sm(sm(A | 1))); PRNG z = PRNG::splitmix64(0); EQI("null seed", z(), sm(1)); }
// --- xoshiro | src/pseudorandom/pseudorandom.h | Xoshiro256++ equals the reference generator
{ uint64_t a = A, b = B, c = C, d = D; xo r = {{A, B, C, D}}; EQI("output", randgen_xoshiro(a, b, c, d), r.next()); EQI("state 0", a, r.s[0]); EQI("state 1", b, r.s[1]); EQI("state 2", c, r.s[2]); EQI("state 3", d, r.s[3]); EQI("second output", randgen_xoshiro(a, b, c, d), r.next()); EQI("second state 0", a, r.s[0]); EQI("second state 1", b, r.s[1]); EQI("second state 2", c, r.s[2]); EQI("second state 3", d, r.s[3]); }
// --- xoshiro_prng | src/pseudorandom/prng.h | the Xoshiro generator object is seeded with SplitMix64 and advances its state
{ std::vector<uint64_t> s = {A, B, C, D}; xo r = {{A, B, C, D}}; PRNG g = PRNG::xoshiro(s); const uint64_t r0 = r.next(), r1 = r.next(), r2 = r.next(); EQI("first", g(), r0); EQI("second", g(), r1); uint64_t w; g >> w; EQI("third", w, r2); EQI("last", g.last(), r2); EQI("arguments kept", s[0], A); EQI("arguments kept 3", s[3], D); PRNG h = PRNG::xoshiro(s); h.discard(2); EQI("discard", h.next(), r2); PRNG k = h; EQI("copy", k(), r.next()); const auto p = k.get_param(); for(unsigned i = 0; i < 4; i++) EQI("state", p[i], r.s[i]); }
// --- xoshiro_seed | src/pseudorandom/prng.h | seeding, default construction and re-seeding give the same sequence
{ const uint64_t s = A | 1; const uint64_t n1 = sm(s), n2 = sm(n1), n3 = sm(n2), n4 = sm(n3); xo r = {{n1, n2, n3, n4}}; const uint64_t r0 = r.next(), r1 = r.next(); PRNG g(s), h = PRNG::xoshiro(s); EQI("construct", g(), r0); EQI("construct second", g(), r1); EQI("factory", h(), r0); g.seed(s); EQI("re-seeded", g(), r0); EQI("re-seeded second", g(), r1); PRNG z(0), o(1); EQI("null seed", z(), o()); }
// --- wyrand | src/pseudorandom/pseudorandom.h | Wyrand equals the reference generator
{ uint64_t s = A; EQI("output", randgen_wyrand(s, B, C), mum((A + B) ^ C, A + B)); EQI("state", s, A + B); EQI("second", randgen_wyrand(s, B, C), mum((A + B + B) ^ C, A + B + B)); if(A && C) { PRNG g = PRNG::wyrand(A, B, C); EQI("object", g(), mum((A + B) ^ C, A + B)); EQI("object second", g(), mum((A + B + B) ^ C, A + B + B)); g.seed(A); EQI("re-seeded", g(), mum((A + B) ^ C, A + B)); PRNG z = PRNG::wyrand(A, B, 0); EQI("null mask", z(), mum((A + B) ^ sm(A), A + B)); } }
// --- middlesquare | src/pseudorandom/pseudorandom.h | middle-square returns the middle bits of the squared, shifted seed
{ EQI("output", randgen_middlesquare(A, B), midsq(A + B)); EQI("default offset", randgen_middlesquare(A), midsq(A + 765872292751861ULL)); if(A && B) { PRNG g = PRNG::middlesquare(A, B); EQI("object", g(), midsq(A + B)); EQI("object second", g(), midsq(midsq(A + B) + B)); g.seed(C); EQI("re-seeded", g(), midsq(C + B)); } }
// --- congruential | src/pseudorandom/pseudorandom.h | the linear congruential recurrence
{ const uint64_t m = D | 1; EQI("output", randgen_congruential(A, B, C, m), (B * A + C) % m); EQI("default", randgen_congruential(A), (48271 * A) % 2147483647ULL); PRNG g = PRNG::linear_congruential(A | 1); EQI("object", g(), (48271 * (A | 1)) % 2147483647ULL); g.seed(B); EQI("re-seeded", g(), (48271 * B) % 2147483647ULL); }
// --- congruential_domain | src/pseudorandom/pseudorandom.h | invalid parameters of the congruential generator are reported
{ std::vector<uint64_t> s = {B, C, D}; errno = 0; const uint64_t r = randgen_congruential(A, s); if(D == 0 || B > D || C > D) { EQI("value", r, 0); REPORTED("invalid"); } else { EQI("quiet", errno, 0); EQI("output", r, (B * A + C) % D); } }
// --- state_size | src/pseudorandom/pseudorandom.h | states of the wrong size are reported and not accessed
{ std::vector<uint64_t> e, s1 = {A}, s2 = {A, B}, s5 = {A, B, C, D, 1};
#define BAD(L, E) errno = 0; EQI(L, E, 0); REPORTED(L)
BAD("congruential empty", randgen_congruential(A, e)); BAD("congruential", randgen_congruential(A, s2)); BAD("xoshiro empty", randgen_xoshiro(A, e)); BAD("xoshiro 5", randgen_xoshiro(A, s5)); BAD("xoshiro 2", randgen_xoshiro(A, s2)); BAD("wyrand empty", randgen_wyrand(A, e)); BAD("wyrand 2", randgen_wyrand(A, s2)); BAD("wyrand 5", randgen_wyrand(A, s5)); BAD("middlesquare empty", randgen_middlesquare(A, e)); BAD("middlesquare 2", randgen_middlesquare(A, s2)); EQI("state kept", s5[0], A); EQI("state kept last", s5[4], 1); }
// --- object | src/pseudorandom/prng.h | generator objects apply the chosen function to their own state only
{ PRNG g([](uint64_t x, std::vector<uint64_t>& p) -> uint64_t { p[0] += 3; return UI1(x) + p[0]; }, A, {B, C}); const uint64_t r0 = UI1(A) + B + 3, r1 = UI1(r0) + B + 6; PRNG h = g; EQI("seed", g.last(), A); EQI("first", g(), r0); EQI("second", g.next(), r1); EQI("copy unaffected", h(), r0); g.set_param(0, D); EQI("parameter", g(), UI1(r1) + D + 3); EQI("other parameter", g.get_param()[1], C); g.set_param({A, B}); g.seed(C); EQI("new parameters", g(), UI1(C) + A + 3); g.set_function(randgen_splitmix64); g.seed(C); EQI("new function", g(), sm(C)); EQI("getter", g.get_function() == (pseudorandom_function) randgen_splitmix64, 1); }
// --- shuffle | src/pseudorandom/prng.h | shuffling permutes the elements
{ typedef vec<real, 3> V; PRNG g([](uint64_t x, std::vector<uint64_t>&) -> uint64_t { return UI1(x); }, A); V v = {IN(0), IN(1), IN(2)}; shuffle(v, g, 1); const uint64_t i = UI1(A) % 3, j = UI1(UI1(A)) % 3; const real x[3] = {IN(0), IN(1), IN(2)}; for(unsigned k = 0; k < 3; k++) { EQ("exchange", v[k], k == i ? x[j] : k == j ? x[i] : x[k]); } EQI("two draws", g.last(), UI1(UI1(A))); }
// --- shuffle_sum | src/pseudorandom/prng.h | shuffling keeps the multiset of the elements
{ typedef vec<real, 2> V; PRNG g([](uint64_t x, std::vector<uint64_t>&) -> uint64_t { return UI1(x); }, A); V v = {IN(0), IN(1)}; shuffle(v, g); EQ("sum", v[0] + v[1], IN(0) + IN(1)); EQ("product", v[0] * v[1], IN(0) * IN(1)); V w = {IN(0), IN(1)}; shuffle(w, g, 3); EQ("sum of three", w[0] + w[1], IN(0) + IN(1)); EQ("product of three", w[0] * w[1], IN(0) * IN(1)); errno = 0; vec<real> e; shuffle(e, g); EQI("empty", errno, EINVAL); EQI("empty size", e.size(), 0); vec<real> o = mkd(1, 0); errno = 0; shuffle(o, g); EQ("single", o[0], IN(0)); EQI("single quiet", errno, 0); }
// --- multiplication | src/core/bit_op.h mul_uint128, mix_mum | the product of two words that Wyrand mixes
{ const uint64_t a = INU(0), b = INU(1); uint64_t l, h; mul_uint128(a, b, l, h); EQI("product low", l, a * b); EQI("mum", mix_mum(a, b), h ^ l);
const uint64_t al = (uint32_t) a, ah = a >> 32, bl = (uint32_t) b, bh = b >> 32, c = ((al * bl >> 32) + (uint32_t)(al * bh) + (uint32_t)(ah * bl)) >> 32; EQI("product high words", h, ah * bh + (al * bh >> 32) + (ah * bl >> 32) + c); }
// --- grow_shuffle | src/pseudorandom/prng.h shuffle | exchanges may reach any pair of a set of any size | n=9 grow=300
{ const unsigned N = VP_N; std::vector<real> v(N), w(N), z(N); for(unsigned i = 0; i < N; i++) v[i] = w[i] = z[i] = IN(i); struct S { static uint64_t last(uint64_t, std::vector<uint64_t>& s) { s[0] = 1 - s[0]; return s[0] ? VP_N - 1 : 1; } static uint64_t over(uint64_t, std::vector<uint64_t>& s) { s[0] = 1 - s[0]; return s[0] ? 2 * VP_N : 3 * VP_N - 1; } }; PRNG g(S::last, 0, {0}), h(S::last, 0, {1}), o(S::over, 0, {0}); shuffle(v, g, 1); EQ("first", v[1], IN(N - 1)); EQ("second", v[N - 1], IN(1)); EQ("unmoved", v[0], IN(0)); shuffle(w, h, 1); EQ("first reversed", w[1], IN(N - 1)); EQ("second reversed", w[N - 1], IN(1)); shuffle(z, o, 1); EQ("reduced first", z[0], IN(N - 1)); EQ("reduced second", z[N - 1], IN(0)); }
// --- grow_discard | src/pseudorandom/prng.h discard, shuffle | any number of draws are discarded and any number of exchanges are made | n=9 grow=1100
{ PRNG g([](uint64_t x, std::vector<uint64_t>&) -> uint64_t { return x + 1; }, A); g.discard(VP_N); EQI("discard", g.last(), A + VP_N); std::vector<real> v = {IN(0), IN(1), IN(2)}; PRNG h([](uint64_t x, std::vector<uint64_t>&) -> uint64_t { return x + 1; }, 0); shuffle(v, h, VP_N); EQI("exchanges", h.last(), 2 * VP_N); }
