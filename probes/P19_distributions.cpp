// Probability distributions: every density equals its formula, is null outside its support
// and rejects parameter vectors of the wrong size.
#include "probe.h"
#include "la.h"
#include "statistics/distributions.h"
using namespace th;
namespace ds = th::distribution;
typedef vec<real> D;
inline real sq(real x) { return x * x; }
inline real gau(real x, real m, real s) { return th::exp(-sq(x - m) / (2 * s * s)) / (s * th::sqrt(2 * PI)); }
#define BADT(l, f, ...) { errno = 0; ISNAN(l, f(x, D{__VA_ARGS__})); REPORTED(l); }
#define BADE(l, f) { const D e; errno = 0; ISNAN(l, f(x, e)); REPORTED(l); }
// --- gaussian | src/statistics/distributions.h | Gaussian density
{ const real x = IN(0), m = IN(1), s = IN(2); if(s > 0) { EQ("value", ds::gaussian(x, m, s), gau(x, m, s)); EQ("vector", ds::gaussian(x, D{m, s}), gau(x, m, s)); EQ("symmetric", ds::gaussian(m + x, m, s), ds::gaussian(m - x, m, s)); } }
// --- bernoulli | src/statistics/distributions.h | Bernoulli probabilities sum to one
{ const real p = IN(0); EQ("failure", ds::bernoulli(0u, p), 1 - p); EQ("success", ds::bernoulli(1u, p), p); EQ("outside", ds::bernoulli(2u, p), 0); EQ("far outside", ds::bernoulli(7u, p), 0); EQ("vector success", ds::bernoulli(1.0, D{p}), p); EQ("vector failure", ds::bernoulli(0.0, D{p}), 1 - p); }
// --- poisson | src/statistics/distributions.h | Poisson probabilities
{ const real l = IN(0); const real e = th::exp(-l); EQ("0", ds::poisson(0u, l), e); EQ("1", ds::poisson(1u, l), e * l); EQ("2", ds::poisson(2u, l), e * l * l / 2); EQ("4", ds::poisson(4u, l), e * l * l * l * l / 24); EQ("vector", ds::poisson(3.0, D{l}), e * l * l * l / 6); if(l > 0.1) EQ("22 over 21", ds::poisson(22u, l) * 22, ds::poisson(21u, l) * l); EQ("21 over 20", ds::poisson(21u, l) * 21, ds::poisson(20u, l) * l); }
// --- binomial | src/statistics/distributions.h | binomial probabilities
{ const real p = IN(0), q = 1 - p; EQ("0 of 3", ds::binomial(0u, 3u, p), q * q * q); EQ("1 of 3", ds::binomial(1u, 3u, p), 3 * p * q * q); EQ("2 of 3", ds::binomial(2u, 3u, p), 3 * p * p * q); EQ("3 of 3", ds::binomial(3u, 3u, p), p * p * p); EQ("2 of 5", ds::binomial(2u, 5u, p), 10 * p * p * q * q * q); EQ("total", ds::binomial(0u, 2u, p) + ds::binomial(1u, 2u, p) + ds::binomial(2u, 2u, p), 1); EQ("none of none", ds::binomial(0u, 0u, p), 1); EQ("vector", ds::binomial(1.0, D{3, p}), 3 * p * q * q); }
// --- multinomial | src/statistics/distributions.h | multinomial probabilities
{ const real p = IN(0), q = IN(1), r = IN(2); EQ("three", ds::multinomial({1, 2, 1}, 4, 3, {p, q, r}), 12 * p * q * q * r); EQ("two", ds::multinomial({2, 1}, 3, 2, {p, q}), 3 * p * p * q); EQ("one", ds::multinomial({2}, 2, 1, {p}), p * p); errno = 0; ISNAN("sizes", ds::multinomial({1, 2}, 3, 2, {p, q, r})); REPORTED("sizes"); errno = 0; ISNAN("dimension", ds::multinomial({1, 2}, 3, 3, {p, q})); REPORTED("dimension"); }
// --- chi_squared | src/statistics/distributions.h | chi-squared density
{ const real x = IN(0); if(x > 0) { const real e = th::exp(-x / 2), s = th::sqrt(x); EQ("1", ds::chi_squared(x, 1u) * s * th::sqrt(2 * PI), e); EQ("2", ds::chi_squared(x, 2u), e / 2); EQ("3", ds::chi_squared(x, 3u) * th::sqrt(2 * PI), e * s); EQ("4", ds::chi_squared(x, 4u), x * e / 4); EQ("5", ds::chi_squared(x, 5u) * 3 * th::sqrt(2 * PI), e * s * x); EQ("vector", ds::chi_squared(x, D{4}), x * e / 4); } if(x < 0) { EQ("negative", ds::chi_squared(x, 3u), 0); EQ("negative even", ds::chi_squared(x, 4u), 0); EQ("negative given", ds::chi_squared(x, 4u, 1.0), 0); } }
// --- chi_squared_given | src/statistics/distributions.h | chi-squared density with a precomputed normalisation
{ const real x = IN(0), h = IN(1); if(x > 0 && h > 0) { const real e = th::exp(-x / 2), s = th::sqrt(x); EQ("1", ds::chi_squared(x, 1u, h) * s * th::sqrt(2.0) * h, e); EQ("2", ds::chi_squared(x, 2u, h) * 2 * h, e); EQ("3", ds::chi_squared(x, 3u, h) * th::sqrt(8.0) * h, e * s); EQ("4", ds::chi_squared(x, 4u, h) * 4 * h, x * e); } }
// --- chi_squared_domain | src/statistics/distributions.h | null degrees of freedom are reported
{ const real x = IN(0); if(x > 1) { errno = 0; ISNAN("null", ds::chi_squared(x, 0u)); REPORTED("null"); } }
// --- gamma | src/statistics/distributions.h | gamma density | opaque=powf,_ZN10theoretica7special5gammaEd
{ const real x = IN(0), a = IN(1), b = IN(2); if(x > 0 && a > 0 && b > 0) { const real v = th::powf(b, a) * th::powf(x, a - 1) * th::exp(-b * x) / special::gamma(a); EQ("value", ds::gamma(x, a, b), v); EQ("vector", ds::gamma(x, D{a, b}), v); } }
// --- beta | src/statistics/distributions.h | beta density | opaque=powf,_ZN10theoretica7special7lngammaEd
{ const real x = IN(0), a = IN(1), b = IN(2); if(x > 0 && x < 1 && a > 0 && b > 0) { const real v = th::powf(x, a - 1) * th::powf(1 - x, b - 1) / th::exp(special::lngamma(a) + special::lngamma(b) - special::lngamma(a + b)); EQ("value", ds::beta(x, a, b), v); EQ("vector", ds::beta(x, D{a, b}), v); } }
// --- student | src/statistics/distributions.h | Student's density
{ const real x = IN(0); const real a2 = 1 + x * x / 2, a3 = 1 + x * x / 3, a4 = 1 + x * x / 4; EQ("1", ds::student(x, 1u) * PI * (1 + x * x), 1); EQ("2", ds::student(x, 2u) * 2 * th::sqrt(2.0) * a2 * th::sqrt(a2), 1); EQ("3", ds::student(x, 3u) * PI * th::sqrt(3.0) * a3 * a3, 2); EQ("4", ds::student(x, 4u) * a4 * a4 * th::sqrt(a4) * 8, 3); EQ("vector", ds::student(x, D{1}) * PI * (1 + x * x), 1); }
// --- log_normal | src/statistics/distributions.h | log-normal density
{ const real x = IN(0), m = IN(1), s = IN(2); if(x > 0 && s > 0) { EQ("value", ds::log_normal(x, m, s) * x, gau(th::ln(x), m, s)); EQ("vector", ds::log_normal(x, D{m, s}) * x, gau(th::ln(x), m, s)); } if(x <= 0) { EQ("outside", ds::log_normal(x, m, s), 0); EQ("outside vector", ds::log_normal(x, D{m, s}), 0); } }
// --- exponential | src/statistics/distributions.h | exponential density
{ const real x = IN(0), l = IN(1); if(x >= 0) { EQ("value", ds::exponential(x, l), l * th::exp(-l * x)); EQ("vector", ds::exponential(x, D{l}), l * th::exp(-l * x)); } if(x < 0) { EQ("outside", ds::exponential(x, l), 0); EQ("outside vector", ds::exponential(x, D{l}), 0); } }
// --- rayleigh | src/statistics/distributions.h | Rayleigh density
{ const real x = IN(0), s = IN(1); if(s > 0.1) { if(x >= 0) { EQ("value", ds::rayleigh(x, s), x / (s * s) * th::exp(-x * x / (2 * s * s))); EQ("vector", ds::rayleigh(x, D{s}), x / (s * s) * th::exp(-x * x / (2 * s * s))); } if(x < 0) EQ("outside", ds::rayleigh(x, s), 0); } if(s < 0 && x > 1) { errno = 0; ISNAN("scale", ds::rayleigh(x, s)); REPORTED("scale"); } }
// --- cauchy | src/statistics/distributions.h | Cauchy and Breit-Wigner densities
{ const real x = IN(0), m = IN(1), a = IN(2); if(a > 0) { EQ("value", ds::cauchy(x, m, a) * PI * (a * a + sq(x - m)), a); EQ("vector", ds::cauchy(x, D{m, a}) * PI * (a * a + sq(x - m)), a); EQ("Breit-Wigner", ds::breit_wigner(x, m, 2 * a) * PI * (a * a + sq(x - m)), a); EQ("Breit-Wigner vector", ds::breit_wigner(x, D{m, 2 * a}) * PI * (a * a + sq(x - m)), a); } }
// --- maxwell | src/statistics/distributions.h | Maxwell-Boltzmann density
{ const real x = IN(0), a = IN(1); if(a > 0.1) { const real v = th::sqrt(2 / PI) * x * x * th::exp(-x * x / (2 * a * a)) / (a * a * a); if(x >= 0) { EQ("value", ds::maxwell(x, a), v); EQ("vector", ds::maxwell(x, D{a}), v); } if(x < 0) EQ("outside", ds::maxwell(x, a), 0); } }
// --- laplace | src/statistics/distributions.h | Laplace density
{ const real x = IN(0), m = IN(1), b = IN(2); if(b > 0) { if(x >= m) { EQ("above", ds::laplace(x, m, b), th::exp((m - x) / b) / (2 * b)); EQ("above vector", ds::laplace(x, D{m, b}), th::exp((m - x) / b) / (2 * b)); } if(x < m) { EQ("below", ds::laplace(x, m, b), th::exp((x - m) / b) / (2 * b)); EQ("below vector", ds::laplace(x, D{m, b}), th::exp((x - m) / b) / (2 * b)); } } }
// --- pareto | src/statistics/distributions.h | Pareto density | opaque=powf
{ const real x = IN(0), m = IN(1), a = IN(2); if(m > 0 && a > 0) { if(x >= m) { EQ("value", ds::pareto(x, m, a) * th::powf(x, a + 1), a * th::powf(m, a)); EQ("vector", ds::pareto(x, D{m, a}) * th::powf(x, a + 1), a * th::powf(m, a)); } if(x < m) { EQ("outside", ds::pareto(x, m, a), 0); EQ("outside vector", ds::pareto(x, D{m, a}), 0); } } if(a <= 0) { errno = 0; ISNAN("shape", ds::pareto(x, m, a)); REPORTED("shape"); } }
// --- erlang | src/statistics/distributions.h | Erlang density
{ const real x = IN(0), l = IN(1); if(x >= 0) { const real e = th::exp(-l * x); EQ("1", ds::erlang(x, 1u, l), l * e); EQ("2", ds::erlang(x, 2u, l), l * l * x * e); EQ("4", ds::erlang(x, 4u, l), l * l * l * l * x * x * x * e / 6); EQ("vector", ds::erlang(x, D{3, l}), l * l * l * x * x * e / 2); EQ("23 over 22", ds::erlang(x, 23u, l) * 22, ds::erlang(x, 22u, l) * l * x); } if(x < 0) EQ("outside", ds::erlang(x, 2u, l), 0); errno = 0; ISNAN("null", ds::erlang(x, 0u, l)); REPORTED("null"); }
// --- sizes1 | src/statistics/distributions.h | parameter vectors of the wrong size are reported
{ const real x = IN(0), a = IN(1), b = IN(2), c = IN(3); BADT("bernoulli", ds::bernoulli, a, b) BADT("poisson", ds::poisson, a, b) BADT("chi squared", ds::chi_squared, a, b) BADT("student", ds::student, a, b) BADT("exponential", ds::exponential, a, b) BADT("rayleigh", ds::rayleigh, a, b) BADT("maxwell", ds::maxwell, a, b) BADE("bernoulli empty", ds::bernoulli) BADE("poisson empty", ds::poisson) BADE("chi squared empty", ds::chi_squared) BADE("student empty", ds::student) BADE("exponential empty", ds::exponential) BADE("rayleigh empty", ds::rayleigh) BADE("maxwell empty", ds::maxwell) }
// --- sizes2 | src/statistics/distributions.h | parameter vectors of the wrong size are reported
{ const real x = IN(0), a = IN(1), b = IN(2), c = IN(3); BADT("gaussian", ds::gaussian, a) BADT("binomial", ds::binomial, a) BADT("gamma", ds::gamma, a) BADT("beta", ds::beta, a) BADT("log-normal", ds::log_normal, a) BADT("cauchy", ds::cauchy, a) BADT("breit-wigner", ds::breit_wigner, a) BADT("laplace", ds::laplace, a) BADT("pareto", ds::pareto, a) BADT("erlang", ds::erlang, a) BADT("gaussian 3", ds::gaussian, a, b, c) BADT("binomial 3", ds::binomial, a, b, c) BADT("gamma 3", ds::gamma, a, b, c) BADT("beta 3", ds::beta, a, b, c) BADT("log-normal 3", ds::log_normal, a, b, c) BADT("cauchy 3", ds::cauchy, a, b, c) BADT("breit-wigner 3", ds::breit_wigner, a, b, c) BADT("laplace 3", ds::laplace, a, b, c) BADT("pareto 3", ds::pareto, a, b, c) BADT("erlang 3", ds::erlang, a, b, c) }
// --- likelihood | src/statistics/distributions.h | likelihoods multiply and log-likelihoods add the density of every value
{ const stat_function f = [](real x, const vec<real>& t) -> real { return UFA(x, t[0]); }; const D X = {IN(0), IN(1), IN(2)}, t = {IN(3)}; const real p = UFA(IN(0), IN(3)), q = UFA(IN(1), IN(3)), r = UFA(IN(2), IN(3)); EQ("product", stats::likelihood(X, t, f), p * q * r); if(p > 0 && q > 0 && r > 0) EQ("sum of logarithms", stats::log_likelihood(X, t, f), th::ln(p) + th::ln(q) + th::ln(r)); const D e; EQ("empty", stats::likelihood(e, t, f), 1); EQ("empty logarithm", stats::log_likelihood(e, t, f), 0); }
// --- grow_counts | src/statistics/distributions.h | probabilities of counts of any size | n=8 grow=40 noopaque=all opaque=exp
{ const real p = IN(0), l = IN(1); const unsigned N = VP_N; auto pw = [](real x, unsigned n) { real r = 1; for(unsigned i = 0; i < n; i++) r *= x; return r; }; real f = 1; for(unsigned i = 2; i <= N; i++) f *= i; EQ("binomial all", ds::binomial(N, N, p), pw(p, N)); EQ("binomial none", ds::binomial(0u, N, p), pw(1 - p, N)); EQ("binomial one", ds::binomial(1u, N, p), N * p * pw(1 - p, N - 1)); EQ("binomial all but two", ds::binomial(N - 2, N, p), real(N * (N - 1) / 2) * pw(p, N - 2) * (1 - p) * (1 - p)); if(N <= 20) EQ("Poisson", ds::poisson(N, l) * f, th::exp(-l) * pw(l, N)); }
// --- grow_freedom | src/statistics/distributions.h | densities of any number of degrees of freedom satisfy their recurrence | n=6 grow=64
{ const real x = IN(0); const unsigned N = VP_N; if(x > 0.1) { EQ("chi squared next", ds::chi_squared(x, N + 1) * (N - 1), ds::chi_squared(x, N - 1) * x); const real h = special::half_gamma(N + 2); EQ("precomputed", ds::chi_squared(x, N + 2, h), ds::chi_squared(x, N + 2)); const real k = special::half_gamma(N + 1); EQ("precomputed next", ds::chi_squared(x, N + 1, k), ds::chi_squared(x, N + 1)); EQ("Erlang", ds::erlang(x, N + 1, 2) * N, ds::erlang(x, N, 2) * 2 * x); } }
// --- grow_student | src/statistics/distributions.h student | Student's density of any number of degrees of freedom | n=6 grow=64
{ const real x = IN(0); const unsigned N = VP_N; real p = 1; const real s = th::sqrt(1 + x * x / N); for(unsigned i = 0; i <= N; i++) p *= s; EQ("Student", ds::student(x, N) * p * th::sqrt(real(N)) * SQRTPI / (special::half_gamma(N + 1) / special::half_gamma(N)), 1); EQ("mode", ds::student(0, N) * th::sqrt(real(N)) * SQRTPI / (special::half_gamma(N + 1) / special::half_gamma(N)), 1); }
