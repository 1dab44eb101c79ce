#include "la.h"
typedef vec<real, 2> V2;
#define A INU(0)
static uint64_t gen(uint64_t x, std::vector<uint64_t>&) { return UI1(x); }
#define G PRNG g(gen, A)
#define ONE(L, E, F) { G; errno = 0; EQ(L, E, F); EQI(L " one draw", g.last(), N1); EQI(L " quiet", errno, 0); }
#define SAME(L, C, E) { PRNG h(gen, A); pdf_sampler s = C; PRNG g(gen, A); EQ(L, s(), E); }
#define N1 UI1(A)
#define N2 UI1(N1)
#define N3 UI1(N2)
#define N4 UI1(N3)
static inline real U(uint64_t n) { return (n % STATISTICS_RAND_PREC) / (real) STATISTICS_RAND_PREC; }
static inline real fr(real x) { return th::fract(x); }
// --- uniform | src/pseudorandom/sampling.h | uniform samples are an affine image of one draw and lie in the interval
{ const real a = IN(0), b = IN(1); G; const real r = rand_uniform(a, b, g); EQ("value", r, a + (b - a) * U(N1)); EQI("one draw", g.last(), N1); PRNG h(gen, A); const real s = rand_uniform(0, 1, h); if(s < 0) UNREACH("unit below"); if(s > 1) UNREACH("unit above"); PRNG k(gen, A); const real w = rand_uniform(-1, 1, k); if(w < -1) UNREACH("symmetric below"); if(w > 1) UNREACH("symmetric above"); PRNG q(gen, A); EQ("precision", rand_uniform(a, b, q, 1000), a + (b - a) * ((N1 % 1000) / 1000.0)); errno = 0; ISNAN("null precision", rand_uniform(a, b, q, 0)); REPORTED("null precision"); }
// --- discrete | src/pseudorandom/sampling.h | coin tosses and dice rolls cover exactly their faces
{ G; EQ("coin", rand_cointoss(g), N1 % 2 == 0 ? 1 : -1); EQ("dice", rand_diceroll(6, g), (real)(N2 % 6 + 1)); EQ("coin wrapper", rand_cointoss({}, g), N3 % 2 == 0 ? 1 : -1); const std::vector<real> f = {20}; EQ("dice wrapper", rand_diceroll(f, g), (real)(N4 % 20 + 1)); errno = 0; ISNAN("no faces", rand_diceroll(0, g)); REPORTED("no faces"); const std::vector<real> n = {-IN(0)}, e, two = {6, 6}; if(IN(0) > 0) { errno = 0; ISNAN("negative faces", rand_diceroll(n, g)); REPORTED("negative faces"); } errno = 0; ISNAN("no parameter", rand_diceroll(e, g)); REPORTED("no parameter"); errno = 0; ISNAN("two parameters", rand_diceroll(two, g)); REPORTED("two parameters"); }
// --- dice_range | src/pseudorandom/sampling.h | dice rolls lie between one and the number of faces
{ G; const real r = rand_diceroll(6, g); if(r < 1) UNREACH("below"); if(r > 6) UNREACH("above"); const real c = rand_cointoss(g); EQ("unit", c * c, 1); }
// --- inverse | src/pseudorandom/sampling.h | inverse transform samplers apply the inverse distribution function
{ const real p = IN(0), q = IN(1);
#define ONE(L, E, F) { G; errno = 0; EQ(L, E, F); EQI(L " one draw", g.last(), N1); EQI(L " quiet", errno, 0); }
if(p > 0.1) { ONE("exponential", rand_exponential(p, g), -ln(1 - U(N1)) / p) ONE("exponential wrapper", rand_exponential({p}, g), -ln(1 - U(N1)) / p) }
ONE("rayleigh", rand_rayleigh(p, g), p * th::sqrt(-2 * ln(1 - U(N1)))) ONE("rayleigh wrapper", rand_rayleigh({p}, g), p * th::sqrt(-2 * ln(1 - U(N1)))) }
// --- inverse2 | src/pseudorandom/sampling.h | inverse transform samplers apply the inverse distribution function
{ const real p = IN(0), q = IN(1);
ONE("cauchy", rand_cauchy(p, q, g), q * th::tan(PI * (U(N1) - 0.5)) + p) ONE("cauchy wrapper", rand_cauchy({p, q}, g), q * th::tan(PI * (U(N1) - 0.5)) + p)
if(q > 0.1) { ONE("pareto", rand_pareto(p, q, g), p / th::powf(1 - U(N1), 1 / q)) ONE("pareto wrapper", rand_pareto({p, q}, g), p / th::powf(1 - U(N1), 1 / q)) } }
// --- laplace | src/pseudorandom/sampling.h | Laplace samples are an exponential with a random sign
{ const real p = IN(0), q = IN(1); { G; EQ("laplace", rand_laplace(p, q, g), p - q * (N2 % 2 == 0 ? 1 : -1) * ln(1 - U(N1))); EQI("two draws", g.last(), N2); } { G; EQ("wrapper", rand_laplace({p, q}, g), p - q * (N2 % 2 == 0 ? 1 : -1) * ln(1 - U(N1))); } }
// --- gaussian | src/pseudorandom/sampling.h | Gaussian samplers follow their transform and depend only on their own generator | prune=1
{ const real m = IN(0), s = IN(1); const real x = 2 * U(N1) - 1, y = 2 * U(N2) - 1, w = x * x + y * y; if(w > 0.01 && w < 1) { G; const real r = rand_gaussian_polar(m, s, g); EQ("polar", r, m + s * x * th::sqrt(-2 * ln(w) / w)); PRNG h(gen, A); EQ("same generator, same sample", rand_gaussian_polar(m, s, h), r); PRNG k(gen, A); EQ("default", rand_gaussian(m, s, k), r); PRNG l(gen, A); EQ("wrapper", rand_gaussian({m, s}, l), r); } }
// --- boxmuller | src/pseudorandom/sampling.h | Box-Muller samples follow their transform and depend only on their own generator
{ const real m = IN(0), s = IN(1); { G; errno = 0; const real r = rand_gaussian_boxmuller(m, s, g); EQ("value", (r - m) * (r - m), s * s * -2 * ln(1 - U(N1)) * th::cos(TAU * U(N2)) * th::cos(TAU * U(N2))); PRNG h(gen, A); EQ("same generator, same sample", rand_gaussian_boxmuller(m, s, h), r); EQI("quiet", errno, 0); } }
// --- clt | src/pseudorandom/sampling.h | central limit samplers are normalised sums of uniform samples
{ const real m = IN(0), s = IN(1); { G; uint64_t n = A; real t = 0; for(int i = 0; i < 12; i++) { n = UI1(n); t += 2 * U(n) - 1; } EQ("twelve", rand_gaussian_clt(m, s, g), m + t * s / 2); } { G; EQ("three", rand_gaussian_clt(m, s, g, 3), m + (2 * (U(N1) + U(N2) + U(N3)) - 3) * s); } }
// --- theta | src/pseudorandom/sampling.h | parameter vectors of the wrong size are reported
{ G; const std::vector<real> e, t1 = {IN(0)}, t2 = {IN(0), IN(1)}, t3 = {IN(0), IN(1), IN(2)};
#define BAD(L, E) errno = 0; ISNAN(L, E); REPORTED(L);
BAD("uniform", rand_uniform(e, g)) BAD("uniform 1", rand_uniform(t1, g)) BAD("uniform 3", rand_uniform(t3, g)) BAD("gaussian", rand_gaussian(e, g)) BAD("gaussian 1", rand_gaussian(t1, g)) BAD("gaussian 3", rand_gaussian(t3, g)) BAD("exponential", rand_exponential(e, g)) BAD("exponential 2", rand_exponential(t2, g)) BAD("rayleigh", rand_rayleigh(e, g)) BAD("rayleigh 2", rand_rayleigh(t2, g)) BAD("cauchy", rand_cauchy(e, g)) BAD("cauchy 1", rand_cauchy(t1, g)) BAD("cauchy 3", rand_cauchy(t3, g)) BAD("laplace", rand_laplace(e, g)) BAD("laplace 1", rand_laplace(t1, g)) BAD("pareto", rand_pareto(e, g)) BAD("pareto 1", rand_pareto(t1, g)) BAD("pareto 3", rand_pareto(t3, g)) EQI("no draws", g.last(), A); BAD("null rate", rand_exponential(0, g)) }
// --- sampler | src/pseudorandom/sampling.h | sampler objects draw from their generator with their parameters
{ const real a = IN(0), b = IN(1); G; pdf_sampler s = pdf_sampler::uniform(a, b, g); EQ("next", s.next(), a + (b - a) * U(N1)); EQ("call", s(), a + (b - a) * U(N2)); real x; s >> x; EQ("stream", x, a + (b - a) * U(N3)); EQI("shared generator", g.last(), N3); PRNG h(gen, A); pdf_sampler t = pdf_sampler::uniform(a, b, h); V2 v; t.fill(v); EQ("fill 0", v[0], a + (b - a) * U(N1)); EQ("fill 1", v[1], a + (b - a) * U(N2)); vec<real, 3> w; w[2] = IN(5); PRNG k(gen, A); pdf_sampler q = pdf_sampler::uniform(a, b, k); q.fill(w, 2); EQ("fill first 0", w[0], a + (b - a) * U(N1)); EQ("fill first 1", w[1], a + (b - a) * U(N2)); EQ("rest kept", w[2], IN(5)); }
// --- sampler_kinds | src/pseudorandom/sampling.h | each factory selects the sampler of its name with the parameters in order
{ const real a = IN(0), b = IN(1);
#define KIND(L, S, E) { PRNG g(gen, A), h(gen, A); EQ(L, pdf_sampler::S(), E); }
#define SAME(L, C, E) { PRNG h(gen, A); pdf_sampler s = C; PRNG g(gen, A); EQ(L, s(), E); }
if(b > 0.1) { SAME("cauchy", pdf_sampler::cauchy(a, b, h), rand_cauchy(a, b, g)) SAME("laplace", pdf_sampler::laplace(a, b, h), rand_laplace(a, b, g)) SAME("rayleigh", pdf_sampler::rayleigh(b, h), rand_rayleigh(b, g)) SAME("exponential", pdf_sampler::exponential(b, h), rand_exponential(b, g)) SAME("pareto", pdf_sampler::pareto(a, b, h), rand_pareto(a, b, g)) } }
// --- gauss_sampler | src/pseudorandom/sampling.h | the Gaussian factory selects the Gaussian sampler | prune=1
{ const real a = IN(0), b = IN(1); const real x = 2 * U(N1) - 1, y = 2 * U(N2) - 1, w = x * x + y * y; if(w > 0.01 && w < 1) SAME("gaussian", pdf_sampler::gaussian(a, b, h), rand_gaussian(a, b, g)) }
// --- metropolis | src/pseudorandom/sampling.h | one Metropolis step accepts by the ratio of the densities
{ const real x0 = IN(0), a = IN(1), b = IN(2); G; PRNG h(gen, INU(1)); pdf_sampler s = pdf_sampler::uniform(a, b, g); const real st = x0 + a + (b - a) * U(N1), u = U(UI1(INU(1))); const real r = metropolis([](real x) { return UF1(x); }, s, x0, h, 1); EQ("step", r, u * UF1(x0) <= UF1(st) ? st : x0); EQ("no steps", metropolis([](real x) { return UF1(x); }, s, x0, h, 0), x0); PRNG k(gen, A); pdf_sampler t = pdf_sampler::uniform(a, b, k); EQ("shared", metropolis([](real x) { return UF1(x); }, t, x0, 1), U(N2) * UF1(x0) <= UF1(st) ? st : x0); }
// --- trycatch | src/pseudorandom/sampling.h | accepted samples lie below the density
{ const real a = IN(0), b = IN(1), c = IN(2), d = IN(3); const vec<real> th0(1, IN(4)); G; const real x1 = a + (b - a) * U(N1), y1 = c + (d - c) * U(N2), x2 = a + (b - a) * U(N3), y2 = c + (d - c) * U(N4); stat_function f = [](real x, const vec<real>& t) { return UFA(x, t[0]); }; errno = 0; const real r = rand_trycatch(f, th0, a, b, c, d, g, 3); if(y1 < UFA(x1, IN(4))) { EQ("accepted", r, x1); EQI("quiet", errno, 0); } if(y1 > UFA(x1, IN(4)) && y2 < UFA(x2, IN(4))) EQ("second", r, x2); }
// --- reject | src/pseudorandom/sampling.h | rejection sampling accepts by the ratio of the densities and reports exhaustion
{ const vec<real> th0(1, IN(4)); G; stat_function f = [](real x, const vec<real>& t) { return UFA(x, t[0]); }; errno = 0; const real r = rand_rejectsamp(f, th0, UF1, UF2, g, 2); const real x1 = UF2(U(N1)), x2 = UF2(U(N3)); const bool a1 = U(N2) * UF1(x1) < UFA(x1, IN(4)), a2 = U(N4) * UF1(x2) < UFA(x2, IN(4)); if(a1) { EQ("first", r, x1); EQI("quiet", errno, 0); } else if(a2) EQ("second", r, x2); else { ISNAN("exhausted", r); EQI("exhausted reported", errno, ERANGE); } }
// --- weyl | src/pseudorandom/quasirandom.h | Weyl sequences are the fractional parts of multiples
{ const real a = IN(0); if(a > 0 && a < 2 && IN(1) < 9) { EQ("default", qrand_weyl(5), fr(5 * INVPHI)); EQ("weyl", qrand_weyl(3, a), fr(3 * a)); EQ("recurrence start", qrand_weyl_recurr(0, a), fr(a)); if(IN(1) > 0.1) EQ("recurrence", qrand_weyl_recurr(IN(1), a), fr(IN(1) + a)); const auto m = qrand_weyl_multi<3>(4, a); EQ("multi 0", m[0], fr(4 * a)); EQ("multi 1", m[1], fr(4 * a * a)); EQ("multi 2", m[2], fr(4 * a * a * a)); const auto w = qrand_weyl2(7, a); EQ("weyl2 0", w[0], fr(7 * a)); EQ("weyl2 1", w[1], fr(7 * a * a)); } }
// --- crude | src/pseudorandom/montecarlo.h | crude Monte Carlo is the scaled mean of the function on its samples
{ const real a = IN(0), b = IN(1); G; auto X = [=](uint64_t n) { return a + (b - a) * U(n); }; EQ("mean", integral_crude(UF1, a, b, g, 3), (b - a) * (UF1(X(N1)) + UF1(X(N2)) + UF1(X(N3))) / 3); { G; EQ("constant", integral_crude([](real) { return IN(2); }, a, b, g, 5), IN(2) * (b - a)); } { G; vec<V2, 2> e; e[0] = {IN(3), IN(4)}; e[1] = {IN(5), IN(6)}; EQ("box", integral_crude<2>([](vec<real, 2>) { return IN(2); }, e, g, 3), IN(2) * (IN(4) - IN(3)) * (IN(6) - IN(5))); PRNG h(gen, A); EQ("box sample", integral_crude<2>([](vec<real, 2> v) { return UFA(v[0], v[1]); }, e, h, 1), UFA(IN(3) + (IN(4) - IN(3)) * U(N1), IN(5) + (IN(6) - IN(5)) * U(N2)) * (IN(4) - IN(3)) * (IN(6) - IN(5))); } }
// --- quasi | src/pseudorandom/montecarlo.h | quasi Monte Carlo is the scaled mean over the Weyl sequence
{ const real a = IN(0), b = IN(1); auto X = [=](int n) { return a + (b - a) * fr(n * INVPHI); }; EQ("mean", integral_quasi_crude(UF1, a, b, 3), (b - a) * (UF1(X(0)) + UF1(X(1)) + UF1(X(2))) / 3); vec<V2, 2> e; e[0] = {IN(3), IN(4)}; e[1] = {IN(5), IN(6)}; const V2 al = {IN(7), IN(8)}; if(al[0] > 0 && al[1] > 0 && al[0] < 2 && al[1] < 2) EQ("box", integral_quasi_crude<2>([](vec<real, 2> v) { return UFA(v[0], v[1]); }, e, 2, al), (UFA(IN(3) + (IN(4) - IN(3)) * fr(0), IN(5) + (IN(6) - IN(5)) * fr(0)) + UFA(IN(3) + (IN(4) - IN(3)) * fr(IN(7)), IN(5) + (IN(6) - IN(5)) * fr(IN(8)))) / 2 * (IN(4) - IN(3)) * (IN(6) - IN(5))); EQ("box powers", integral_quasi_crude<2>([](vec<real, 2> v) { return UFA(v[0], v[1]); }, e, 2, 0.3), (UFA(IN(3) + (IN(4) - IN(3)) * fr(0), IN(5) + (IN(6) - IN(5)) * fr(0)) + UFA(IN(3) + (IN(4) - IN(3)) * fr(0.3), IN(5) + (IN(6) - IN(5)) * fr(0.3 * 0.3))) / 2 * (IN(4) - IN(3)) * (IN(6) - IN(5))); }
// --- hom | src/pseudorandom/montecarlo.h | hit-or-miss counts the points below the function
{ const real a = IN(0), b = IN(1), c = IN(2), d = IN(3); const real x = a + (b - a) * U(N1), y = c + (d - c) * U(N2); { G; EQ("general", integral_hom(UF1, a, b, c, d, g, 1), (b - a) * (UF1(x) >= y ? d : c)); } { G; const real z = d * U(N2); EQ("positive", integral_hom(UF1, a, b, d, g, 1), UF1(x) > z ? (b - a) * d : 0); } { G; const real f = IN(4), z = f * U(N3); EQ("plane", integral_hom_2d(UFA, a, b, c, d, f, g, 1), UFA(x, y) > z ? (b - a) * (d - c) * f : 0); } }
// --- quasi_hom | src/pseudorandom/montecarlo.h | quasi hit-or-miss counts the points below the function
{ const real a = IN(0), b = IN(1), c = IN(2), d = IN(3); const auto w = qrand_weyl2(1), o = qrand_weyl2(0); const real x = a + (b - a) * w[0], x0 = a + (b - a) * o[0]; EQ("general", integral_quasi_hom(UF1, a, b, c, d, 2), (b - a) * ((UF1(x) >= c + (d - c) * w[1] ? d : c) + (UF1(x0) >= c + (d - c) * o[1] ? d : c)) / 2); EQ("positive", integral_quasi_hom(UF1, a, b, d, 2u), (b - a) * ((UF1(x) > d * w[1] ? d : 0) + (UF1(x0) > d * o[1] ? d : 0)) / 2); }
// --- impsamp | src/pseudorandom/montecarlo.h | importance sampling is the mean of the ratio on transformed samples
{ const real z1 = UF3(U(N1)), z2 = UF3(U(N2)); G; EQ("mean", integral_impsamp(UF1, UF2, UF3, g, 2), (UF1(z1) / UF2(z1) + UF1(z2) / UF2(z2)) / 2); const real q1 = UF3(fr(INVPHI)), q2 = UF3(fr(2 * INVPHI)); EQ("quasi", integral_quasi_impsamp(UF1, UF2, UF3, 2), (UF1(q1) / UF2(q1) + UF1(q2) / UF2(q2)) / 2); }
// --- sample_mc | src/pseudorandom/montecarlo.h | Monte Carlo samples evaluate the function on one draw of every variable
{ G; std::vector<pdf_sampler> rv; rv.push_back(pdf_sampler::uniform(0, 1, g)); rv.push_back(pdf_sampler::uniform(0, 2, g)); const auto s = sample_mc<vec<real>>([](const vec<real>& v) { return UFA(v[0], v[1]); }, rv, 2); EQI("size", s.size(), 2); EQ("first", s[0], UFA(U(N1), 2 * U(N2))); EQ("second", s[1], UFA(U(N3), 2 * U(N4))); }
// --- grow_draws | src/pseudorandom/sampling.h, src/pseudorandom/montecarlo.h | walks, means and fills over any number of draws | n=6 grow=300
{ const auto cnt = +[](uint64_t x, std::vector<uint64_t>&) { return x + 1; }; const real P = STATISTICS_RAND_PREC, T = VP_N * (VP_N + real(1)) / 2 / P; const real a = IN(0), c = IN(1);
{ PRNG g(cnt, 0), h(cnt, 0); pdf_sampler s = pdf_sampler::uniform(0, c, g); EQ("walk", metropolis([](real) { return 0; }, s, a, h, VP_N), a + c * T); EQI("steps", g.last(), VP_N); EQI("decisions", h.last(), VP_N); }
{ PRNG g(cnt, 0); EQ("crude", integral_crude([](real x) { return x; }, 0, c, g, VP_N) * VP_N, c * c * T); EQI("crude draws", g.last(), VP_N); }
{ PRNG g(cnt, 0); EQ("importance", integral_impsamp([=](real x) { return c * x; }, [](real) { return 1; }, [](real x) { return x; }, g, VP_N) * VP_N, c * T); EQI("importance draws", g.last(), VP_N); }
{ PRNG g(cnt, 0); pdf_sampler s = pdf_sampler::uniform(0, c, g); vec<real> v(VP_N + 1); v[VP_N] = a; s.fill(v, VP_N); real t = 0; for(unsigned i = 0; i < VP_N; i++) t += v[i]; EQ("fill", t, c * T); EQ("fill last", v[VP_N - 1] * P, c * VP_N); EQ("fill rest", v[VP_N], a); }
{ PRNG g(cnt, 0); std::vector<pdf_sampler> rv; rv.push_back(pdf_sampler::uniform(0, 1, g)); const auto v = sample_mc<vec<real>>([=](const vec<real>& x) { return c * x[0]; }, rv, VP_N); EQI("sample size", v.size(), VP_N); real t = 0; for(unsigned i = 0; i < VP_N && i < v.size(); i++) t += v[i]; EQ("sample", t, c * T); }
{ PRNG g(cnt, 0); EQI("dice", (int) rand_diceroll(VP_N + 1, g), 2 % (VP_N + 1)); PRNG h(cnt, VP_N - 2); EQI("dice last", (int) rand_diceroll(VP_N, h), VP_N); PRNG k(cnt, VP_N - 1); EQI("dice first", (int) rand_diceroll(VP_N, k), 1); }
{ PRNG g(cnt, 0), h(cnt, 0); EQ("centre", rand_gaussian_clt(a, 0, g, VP_N), a); const real d = rand_gaussian_clt(0, 1, h, VP_N), e = 2 * T - VP_N; EQ("central limit", d * VP_N, e * th::sqrt(real(3 * VP_N))); EQI("central limit draws", g.last(), VP_N); }
{ real t = 0; for(unsigned i = 0; i < VP_N; i++) t += qrand_weyl(i, real(0.25)); EQ("quasi", integral_quasi_crude([](real x) { return 1; }, 0, c, VP_N), c); EQ("weyl", qrand_weyl(VP_N, real(0.25)) * 4, VP_N % 4); } }
// --- grow_hits | src/pseudorandom/montecarlo.h | hit-or-miss counts over any number of points | n=6 grow=300
{ const auto cnt = +[](uint64_t x, std::vector<uint64_t>&) { return x + 1; }; static real t, u; t = (VP_N + real(0.5)) / STATISTICS_RAND_PREC; u = real(0.5); const real b = IN(0); const auto below = [](real) { return t; }; const auto half = [](real) { return u; };
{ PRNG g(cnt, 0), h(cnt, 0); EQ("positive", integral_hom(below, 0, b, 1, g, VP_N) * VP_N, b * (VP_N / 2)); EQ("general", integral_hom(below, 0, b, 0, 1, h, VP_N) * VP_N, b * (VP_N / 2)); EQI("draws", g.last(), 2 * VP_N); EQI("general draws", h.last(), 2 * VP_N); PRNG k(cnt, 0); EQ("plane", integral_hom_2d([](real, real) { return t; }, 0, b, 0, 2, 1, k, VP_N) * VP_N, 2 * b * (VP_N / 3)); EQI("plane draws", k.last(), 3 * VP_N); }
{ unsigned c = 0; for(unsigned i = 0; i < VP_N; i++) { const auto w = qrand_weyl2(i); if(w[1] < u) c++; } EQ("quasi", integral_quasi_hom(half, 0, b, 1, (unsigned) VP_N) * VP_N, b * c); EQ("quasi general", integral_quasi_hom(half, 0, b, 0, 1, (unsigned) VP_N) * VP_N, b * c); } }
