#include "la.h"
typedef vec<real, 2> V2;
typedef vec<real, 3> V3;
typedef vec<real, 4> V4;
#define DA mkd(4, 0)
#define DB mkd(4, 10)
#define a0 IN(0)
#define a1 IN(1)
#define a2 IN(2)
#define a3 IN(3)
#define b0 IN(10)
#define b1 IN(11)
#define b2 IN(12)
#define b3 IN(13)
#define c0 IN(20)
#define c1 IN(21)
#define c2 IN(22)
#define c3 IN(23)
#define MU ((a0 + a1 + a2 + a3) / 4)
#define MV ((b0 + b1 + b2 + b3) / 4)
static inline real sq(real x) { return x * x; }
#define TSS (sq(a0 - MU) + sq(a1 - MU) + sq(a2 - MU) + sq(a3 - MU))
#define TSV (sq(b0 - MV) + sq(b1 - MV) + sq(b2 - MV) + sq(b3 - MV))
#define CXY ((a0 - MU) * (b0 - MV) + (a1 - MU) * (b1 - MV) + (a2 - MU) * (b2 - MV) + (a3 - MU) * (b3 - MV))
#define BAD(L, E) errno = 0; ISNAN(L, E); REPORTED(L);
#define SX (a0 + a1 + a2 + a3)
#define SY (b0 + b1 + b2 + b3)
#define SXX (a0 * a0 + a1 * a1 + a2 * a2 + a3 * a3)
#define SXY (a0 * b0 + a1 * b1 + a2 * b2 + a3 * b3)
#define DEL (4 * SXX - SX * SX)
// --- sums | src/core/dataset.h | sums and products over datasets
{ const auto X = DA, Y = DB, Z = mkd(4, 20); EQ("sum", th::sum(X), SX); EQ("pairwise", sum_pairwise(X), SX); EQ("compensated", sum_compensated(X), SX); EQ("pairwise base", sum_pairwise(X, 0, 0, 1), SX); EQ("pairwise range", sum_pairwise(X, 1, 3), a1 + a2); EQ("squares", sum_squares(X), SXX); EQ("product", product(X), a0 * a1 * a2 * a3); EQ("product sum", product_sum(X, Y), SXY); EQ("product sum 3", product_sum(X, Y, Z), a0 * b0 * c0 + a1 * b1 * c1 + a2 * b2 * c2 + a3 * b3 * c3); EQ("product squares", product_sum_squares(X, Y), sq(a0 * b0) + sq(a1 * b1) + sq(a2 * b2) + sq(a3 * b3)); const V4 S = mkv(V4(), 10); EQ("mixed containers", product_sum(X, S), SXY); std::vector<real> W = {a0, a1, a2}; EQ("std", th::sum(W), a0 + a1 + a2); EQ("empty", th::sum(vec<real>()), 0); EQ("empty pairwise", sum_pairwise(vec<real>()), 0); EQ("empty compensated", sum_compensated(vec<real>()), 0); }
// --- sums_long | src/core/dataset.h | pairwise summation covers long datasets exactly once
{ vec<real> X(135); real s = 0; for(unsigned i = 0; i < 135; i++) { X[i] = IN(i); s += IN(i); } EQ("sum", sum_pairwise(X), s); EQ("compensated odd", sum_pairwise(mkd(7, 0), 0, 0, 2), IN(0) + IN(1) + IN(2) + IN(3) + IN(4) + IN(5) + IN(6)); }
// --- sums_complex | src/core/dataset.h | sums over complex datasets
{ const auto X = mkcv(vec<cplx>(3), 0), Y = mkcv(vec<cplx>(3), 10); const cplx s = th::sum(X), p = product(X), q = product_sum(X, Y), z = sum_squares(X); EQ("sum re", s.Re(), IN(0) + IN(2) + IN(4)); EQ("sum im", s.Im(), IN(1) + IN(3) + IN(5)); const cplx e = X[0] * X[1] * X[2]; EQ("product re", p.Re(), e.Re()); EQ("product im", p.Im(), e.Im()); const cplx f = X[0] * Y[0] + X[1] * Y[1] + X[2] * Y[2]; EQ("product sum re", q.Re(), f.Re()); EQ("product sum im", q.Im(), f.Im()); const cplx h = X[0] * X[0] + X[1] * X[1] + X[2] * X[2]; EQ("squares re", z.Re(), h.Re()); EQ("squares im", z.Im(), h.Im()); const cplx n = th::sum(vec<cplx>()); EQ("empty", n.Re(), 0); }
// --- sums_domain | src/core/dataset.h | empty and mismatched datasets are reported
{ const vec<real> e, X = DA, s = mkd(2, 0); BAD("product", product(e)) BAD("product sum", product_sum(e, e)) BAD("product sum sizes", product_sum(X, s)) BAD("product sum sizes reversed", product_sum(s, X)) BAD("product squares", product_sum_squares(X, s)) BAD("product squares empty", product_sum_squares(e, e)) BAD("product sum 3", product_sum(X, X, s)) BAD("product sum 3 second", product_sum(X, s, X)) BAD("product sum 3 empty", product_sum(e, e, e)) BAD("quotient", quotient_sum(X, s)) BAD("quotient empty", quotient_sum(e, e)) BAD("squares", sum_squares(e)) BAD("max", th::max(e)) BAD("min", th::min(e)) BAD("mean", arithmetic_mean(e)) BAD("harmonic", harmonic_mean(e)) BAD("quadratic", quadratic_mean(e)) BAD("weighted", weighted_mean(X, s)) }
// --- quotient | src/core/dataset.h | quotient sums and null divisors
{ const V2 X = {a0, a1}, Y = {b0, b1}; if(b0 > 0.1 && b1 < -0.1) { errno = 0; EQ("value", quotient_sum(X, Y), a0 / b0 + a1 / b1); EQI("quiet", errno, 0); } if(b0 == 0) { BAD("first", quotient_sum(X, Y)) } if(b0 > 0.1 && b1 == 0) { BAD("second", quotient_sum(X, Y)) } }
// --- means | src/core/dataset.h | the means equal their definitions
{ const auto X = DA, Y = DB; errno = 0; EQ("arithmetic", arithmetic_mean(X), MU); EQ("stats", stats::mean(X), MU); if(b0 + b1 + b2 + b3 > 0.1) EQ("weighted", weighted_mean(X, Y), SXY / SY); EQ("quadratic", quadratic_mean(X), th::sqrt(SXX / 4)); EQI("quiet", errno, 0); }
// --- means2 | src/core/dataset.h | harmonic and geometric mean
{ const V3 X = {a0, a1, a2}; if(a0 > 0.1 && a1 > 0.1 && a2 > 0.1) { errno = 0; EQ("harmonic", harmonic_mean(X), 3 / (1 / a0 + 1 / a1 + 1 / a2)); EQ("geometric", geometric_mean(X), th::root(a0 * a1 * a2, 3)); EQI("quiet", errno, 0); } if(a1 == 0 && a0 > 0) { BAD("null value", harmonic_mean(X)) } }
// --- extremes | src/core/dataset.h | minimum, maximum and range
{ const V3 X = {a0, a1, a2}; const real M = th::max(X), m = th::min(X); if(M < a0 || M < a1 || M < a2) UNREACH("maximum"); if(m > a0 || m > a1 || m > a2) UNREACH("minimum"); if(M != a0 && M != a1 && M != a2) UNREACH("maximum is an element"); if(m != a0 && m != a1 && m != a2) UNREACH("minimum is an element"); EQ("range", stats::range(X), M - m); EQ("semidispersion", stats::semidispersion(X), (M - m) / 2); }
// --- maps | src/core/dataset.h | element-wise application and concatenation
{ vec<real> X = mkd(3, 0); const vec<real> K = X; EQV("map", th::map(UF1, K), 3, UF1(IN(i))) vec<real> D(3); EQV("map into", th::map(UF1, K, D), 3, UF1(IN(i))) EQV("destination", D, 3, UF1(IN(i))) EQV("apply", th::apply(UF1, X), 3, UF1(IN(i))) EQV("applied", X, 3, UF1(IN(i))) const std::vector<real> t = {a0, a1}; EQV("convert", (th::map<vec<real>>(UF1, t)), 2, UF1(IN(i))) EQV("concatenate", concatenate(K, mkd(2, 10)), 5, i < 3 ? IN(i) : IN(i + 7)) EQV("concatenate empty", concatenate(vec<real>(), mkd(2, 10)), 2, IN(i + 10)) vec<real> s(2); errno = 0; th::map(UF1, K, s); EQI("size kept", s.size(), 2); ISNAN("mismatch", s[0]); ISNAN("mismatch", s[1]); REPORTED("mismatch"); std::vector<real> w(4); errno = 0; th::map(UF1, t, w); EQI("std size kept", w.size(), 4); ISNAN("std mismatch", w[3]); REPORTED("std mismatch"); }
// --- spread | src/statistics/statistics.h | variance, standard deviation and covariance equal their definitions
{ const auto X = DA, Y = DB; errno = 0; EQ("tss", stats::total_sum_squares(X), TSS); EQ("variance", stats::variance(X), TSS / 3); EQ("population variance", stats::variance(X, 0), TSS / 4); EQ("stdev", stats::stdev(X), th::sqrt(TSS / 3)); EQ("population stdev", stats::stdev(X, 0), th::sqrt(TSS / 4)); EQ("stdom", stats::stdom(X), th::sqrt(TSS / 12)); real m, v; stats::moments2(X, m, v); EQ("moments mean", m, MU); EQ("moments variance", v, TSS / 3); stats::moments2(X, m, v, 0); EQ("moments population", v, TSS / 4); EQ("covariance", stats::covariance(X, Y), CXY / 3); EQ("population covariance", stats::covariance(X, Y, 0), CXY / 4); EQ("covariance of itself", stats::covariance(X, X), TSS / 3); EQI("quiet", errno, 0); const V4 S = mkv(V4(), 0); EQ("static", stats::variance(S), TSS / 3); EQ("mixed covariance", stats::covariance(S, Y), CXY / 3); }
// --- spread_domain | src/statistics/statistics.h | datasets without degrees of freedom are reported
{ const vec<real> e, o = mkd(1, 0), X = DA; BAD("tss", stats::total_sum_squares(e)) BAD("variance empty", stats::variance(e)) BAD("variance one", stats::variance(o)) BAD("variance constraints", stats::variance(X, 4)) BAD("stdev", stats::stdev(o)) BAD("stdom", stats::stdom(o)) BAD("covariance", stats::covariance(o, o)) BAD("covariance sizes", stats::covariance(X, o)) BAD("covariance constraints", stats::covariance(X, X, 4)) real m, v; errno = 0; stats::moments2(o, m, v); ISNAN("moments mean", m); ISNAN("moments variance", v); REPORTED("moments"); BAD("autocorrelation", stats::autocorrelation(X, 5)) BAD("autocorrelation empty", stats::autocorrelation(e, 0)) errno = 0; stats::absolute_deviation(e); REPORTED("absolute deviation"); BAD("chi square", stats::chi_square(X, o, X)) BAD("chi square sigma", stats::chi_square(X, X, o)) BAD("chi square linear", stats::chi_square_linear(X, o, X, 0, 1)) BAD("chi square linear sigma", stats::chi_square_linear(X, X, o, 0, 1)) BAD("propagate product", stats::propagate_product(X, o)) BAD("propagate sum", stats::propagate_sum(e)) BAD("skewness", stats::skewness(o)) BAD("kurtosis", stats::kurtosis(o)) EQ("one population variance", stats::variance(o, 0), 0); }
// --- moments | src/statistics/statistics.h | skewness, kurtosis and standardisation
{ const V3 X = {a0, a1, a2}; const real m = (a0 + a1 + a2) / 3, v = (sq(a0 - m) + sq(a1 - m) + sq(a2 - m)) / 2; if(v > 0.1) { const real s = th::sqrt(v); EQ("skewness", stats::skewness(X) * 3 * v * s, (a0 - m) * sq(a0 - m) + (a1 - m) * sq(a1 - m) + (a2 - m) * sq(a2 - m)); EQ("kurtosis", (stats::kurtosis(X) + 3) * 3 * v * v, sq(sq(a0 - m)) + sq(sq(a1 - m)) + sq(sq(a2 - m))); const std::vector<real> D = {a0, a1, a2}; const auto z = stats::normalize_z_score(D); EQ("z 0", z[0] * s, a0 - m); EQ("z 2", z[2] * s, a2 - m); } EQ("score", stats::z_score(IN(5), IN(6), 4), (IN(5) - IN(6)) / 4); }
// --- correlation | src/statistics/statistics.h | correlation and autocorrelation
{ const auto X = DA, Y = DB; if(TSS > 0.1 && TSV > 0.1) { const real r = stats::correlation_coefficient(X, Y); EQ("squared", r * r * TSS * TSV, CXY * CXY); const real c[4] = {a0 - MU, a1 - MU, a2 - MU, a3 - MU}; EQ("lag 0", stats::autocorrelation(X, 0), 1); EQ("lag 1", stats::autocorrelation(X) * TSS, c[0] * c[1] + c[1] * c[2] + c[2] * c[3]); EQ("lag 2", stats::autocorrelation(X, 2) * TSS, c[0] * c[2] + c[1] * c[3]); EQ("lag 3", stats::autocorrelation(X, 3) * TSS, c[0] * c[3]); } }
// --- deviation | src/statistics/statistics.h | absolute deviation and relative error
{ const V2 X = {a0, a1}; const real m = (a0 + a1) / 2; EQ("absolute", stats::absolute_deviation(X), a0 > a1 ? a0 - m : m - a0); if(m > 0.1) EQ("relative", stats::standard_relative_error(X), th::sqrt((sq(a0 - m) + sq(a1 - m)) / 2) / m); if(m < -0.1) EQ("relative negative", stats::standard_relative_error(X), -th::sqrt((sq(a0 - m) + sq(a1 - m)) / 2) / m); if(a0 == -a1) { BAD("null mean", stats::standard_relative_error(X)) } }
// --- propagation | src/statistics/statistics.h | propagation of errors over sums and products
{ const V2 S = {a0, a1}, M = {b0, b1}; EQ("sum", stats::propagate_sum(S), th::sqrt(a0 * a0 + a1 * a1)); if(b0 > 0.1 && b1 > 0.1) EQ("product", stats::propagate_product(S, M), th::sqrt(sq(a0 / b0) + sq(a1 / b1))); if(b0 > 0.1 && b1 == 0) { BAD("null", stats::propagate_product(S, M)) } }
// --- chi_square | src/statistics/statistics.h | chi-squared sums
{ const V2 O = {a0, a1}, E = {b0, b1}, S = {c0, c1}; if(c0 > 0.1 && c1 < -0.1) { errno = 0; EQ("chi square", stats::chi_square(O, E, S), sq((a0 - b0) / c0) + sq((a1 - b1) / c1)); EQ("linear", stats::chi_square_linear(O, E, S, IN(30), IN(31)), sq((b0 - IN(30) - IN(31) * a0) / c0) + sq((b1 - IN(30) - IN(31) * a1) / c1)); EQI("quiet", errno, 0); } if(c1 == 0 && c0 > 0.1) { BAD("null sigma", stats::chi_square(O, E, S)) BAD("null sigma linear", stats::chi_square_linear(O, E, S, 0, 1)) } BAD("no degrees", stats::reduced_chi_square_linear(O, E, S, 0, 1)) const V3 o = {a0, a1, a2}, e = {b0, b1, b2}, s = {1, 2, 4}; EQ("reduced", stats::reduced_chi_square_linear(o, e, s, IN(30), IN(31)), sq(b0 - IN(30) - IN(31) * a0) + sq((b1 - IN(30) - IN(31) * a1) / 2) + sq((b2 - IN(30) - IN(31) * a2) / 4)); }
// --- ols | src/statistics/regression.h | ordinary least squares solves the normal equations
{ const auto X = DA, Y = DB; if(DEL > 0.1) { errno = 0; real A, B; regression::ols_linear(X, Y, A, B); EQ("first normal equation", 4 * A + SX * B, SY); EQ("second normal equation", SX * A + SXX * B, SXY); EQI("quiet", errno, 0); EQ("intercept", regression::ols_linear_intercept(X, Y), A); EQ("slope", regression::ols_linear_slope(X, Y), B); real C, D, sA, sB; regression::ols_linear(X, Y, c0, C, D, sA, sB); EQ("same intercept", C, A); EQ("same slope", D, B); EQ("intercept error", sA * sA * DEL, c0 * c0 * SXX); EQ("slope error", sB * sB * DEL, c0 * c0 * 4); mat2 cm; regression::ols_linear(X, Y, c0, C, D, cm); EQ("covariance intercept", C, A); EQ("covariance slope", D, B); EQ("covariance 00", cm(0, 0) * DEL, c0 * c0 * SXX); EQ("covariance 11", cm(1, 1) * DEL, c0 * c0 * 4); EQ("covariance 01", cm(0, 1) * DEL, -c0 * c0 * SX); EQ("covariance 10", cm(1, 0) * DEL, -c0 * c0 * SX); } }
// --- ols_errors | src/statistics/regression.h | errors of ordinary least squares
{ const V3 X = {a0, a1, a2}, Y = {b0, b1, b2}; const real D = 3 * (a0 * a0 + a1 * a1 + a2 * a2) - sq(a0 + a1 + a2); if(D > 0.1) { const real s = regression::ols_linear_sigma_A(X, Y, c0), t = regression::ols_linear_sigma_B(X, Y, c0); EQ("intercept error", s * s * D, c0 * c0 * (a0 * a0 + a1 * a1 + a2 * a2)); EQ("slope error", t * t * D, 3 * c0 * c0); } const real e = regression::ols_linear_error(X, Y, IN(30), IN(31)); EQ("residual", e * e, sq(b0 - IN(30) - IN(31) * a0) + sq(b1 - IN(30) - IN(31) * a1) + sq(b2 - IN(30) - IN(31) * a2)); const V2 p = {a0, a1}, q = {b0, b1}; BAD("no degrees", regression::ols_linear_error(p, q, 0, 1)) const vec<real> e1 = mkd(1, 0); BAD("one point", regression::ols_linear_error(e1, e1, 0, 1)) }
// --- ols_exact | src/statistics/regression.h | points on a line are fitted exactly
{ const real A = IN(30), B = IN(31); vec<real> X = DA, Y = DA; for(unsigned i = 0; i < 4; i++) Y[i] = A + B * X[i]; if(DEL > 0.1) { regression::linear_model m(X, Y); EQ("intercept", m.A, A); EQ("slope", m.B, B); EQ("error", m.err, 0); EQI("ndf", m.ndf, 2); ISNAN("sigma A", m.sigma_A); ISNAN("chi squared", m.chi_squared); EQ("evaluate", m(IN(40)), A + B * IN(40)); } }
// --- ols_domain | src/statistics/regression.h | degenerate and mismatched datasets are reported with NaN outputs
{ const vec<real> X = DA, s = mkd(2, 0), e; vec<real> c(3); for(unsigned i = 0; i < 3; i++) c[i] = a0;
#define NAN2(L, E) { real A = 1, B = 1; errno = 0; E; ISNAN(L, A); ISNAN(L, B); REPORTED(L); }
#define NAN4(L, E) { real A = 1, B = 1, C = 1, D = 1; errno = 0; E; ISNAN(L, A); ISNAN(L, B); ISNAN(L, C); ISNAN(L, D); REPORTED(L); }
#define NANM3(L, E) { real A = 1, B = 1; mat2 M; errno = 0; E; ISNAN(L, A); ISNAN(L, B); ISNAN(L, M(0, 0)); ISNAN(L, M(1, 1)); REPORTED(L); }
NAN2("sizes", regression::ols_linear(X, s, A, B)) NAN2("equal abscissae", regression::ols_linear(c, mkd(3, 10), A, B)) NAN4("sizes with errors", regression::ols_linear(X, s, 1.0, A, B, C, D)) NAN4("equal abscissae with errors", regression::ols_linear(c, mkd(3, 10), 1.0, A, B, C, D)) NANM3("sizes with covariance", regression::ols_linear(X, s, 1.0, A, B, M)) NANM3("equal abscissae with covariance", regression::ols_linear(c, mkd(3, 10), 1.0, A, B, M)) NANM3("weighted sizes", regression::wls_linear(X, X, s, A, B, M)) NANM3("weighted sizes y", regression::wls_linear(X, s, X, A, B, M)) NANM3("both errors sizes", regression::wls_linear(X, s, 1.0, 1.0, A, B, M)) NANM3("both errors, constant", regression::wls_linear(X, c, 1.0, 1.0, A, B, M)) BAD("intercept", regression::ols_linear_intercept(X, s)) BAD("slope", regression::ols_linear_slope(X, s)) BAD("weighted intercept", regression::wls_linear_intercept(X, s, X)) BAD("weighted slope", regression::wls_linear_slope(X, X, s)) BAD("error", regression::ols_linear_error(X, s, 0, 1)) NAN2("origin sizes", regression::ols_linear_orig(X, s, 1.0, A, B)) NAN2("origin weights", regression::wls_linear_orig(X, X, s, A, B)) { vec<real> z(3, 0.0); NAN2("origin null", regression::ols_linear_orig(z, mkd(3, 0), 1.0, A, B)) } regression::linear_model d; ISNAN("default A", d.A); ISNAN("default sigma", d.sigma_B); ISNAN("default err", d.err); EQI("default ndf", d.ndf, 0); { errno = 0; regression::linear_model m(s, mkd(2, 10)); ISNAN("two points", m.A); ISNAN("two points error", m.err); REPORTED("two points"); } { errno = 0; regression::linear_model m(X, s); ISNAN("model sizes", m.B); ISNAN("model sizes sigma", m.sigma_A); REPORTED("model sizes"); } }
// --- wls | src/statistics/regression.h | weighted least squares solves the weighted normal equations
{ const V3 X = {a0, a1, a2}, Y = {b0, b1, b2}, W = {c0, c1, c2}; const real w = c0 + c1 + c2, x = a0 * c0 + a1 * c1 + a2 * c2, y = b0 * c0 + b1 * c1 + b2 * c2, xx = a0 * a0 * c0 + a1 * a1 * c1 + a2 * a2 * c2, xy = a0 * b0 * c0 + a1 * b1 * c1 + a2 * b2 * c2, D = w * xx - x * x; if(D > 0.1) { real A, B; mat2 m; errno = 0; regression::wls_linear(X, Y, W, A, B, m); EQ("first normal equation", w * A + x * B, y); EQ("second normal equation", x * A + xx * B, xy); EQ("covariance 00", m(0, 0) * D, xx); EQ("covariance 11", m(1, 1) * D, w); EQ("covariance 01", m(0, 1) * D, -x); EQ("covariance 10", m(1, 0) * D, -x); EQI("quiet", errno, 0); EQ("intercept", regression::wls_linear_intercept(X, Y, W), A); EQ("slope", regression::wls_linear_slope(X, Y, W), B); } }
// --- wls_both | src/statistics/regression.h | regression with errors on both axes satisfies its quadratic equation and passes through the means
{ const V2 X = {a0, a1}, Y = {b0, b1}; const real p = IN(30), q = IN(31), mx = (a0 + a1) / 2, my = (b0 + b1) / 2, dx = (a0 * a0 + a1 * a1) / 2 - mx * mx, dy = (b0 * b0 + b1 * b1) / 2 - my * my, dxy = (a0 * b0 + a1 * b1) / 2 - mx * my; if(p > 0.5 && dxy > 0.5 && p * p * dxy > 0.1) { real A, B; mat2 m; regression::wls_linear(X, Y, p, q, A, B, m); EQ("means", A + B * mx, my); EQ("quadratic", p * p * dxy * B * B - (p * p * dy - q * q * dx) * B - q * q * dxy, 0); ISNAN("no covariance", m(0, 0)); } }
// --- origin | src/statistics/regression.h | regression through the origin minimises the residuals
{ const V3 X = {a0, a1, a2}, Y = {b0, b1, b2}, W = {c0, c1, c2}; if(a0 > 0.5) { real B, s; errno = 0; regression::ols_linear_orig(X, Y, IN(30), B, s); const real xx = a0 * a0 + a1 * a1 + a2 * a2; EQ("slope", B * xx, a0 * b0 + a1 * b1 + a2 * b2); EQ("error", s * s * xx, IN(30) * IN(30)); EQI("quiet", errno, 0); } const real w = a0 * a0 * c0 + a1 * a1 * c1 + a2 * a2 * c2; if(w > 0.5) { real B, s; regression::wls_linear_orig(X, Y, W, B, s); EQ("weighted slope", B * w, a0 * b0 * c0 + a1 * b1 * c1 + a2 * b2 * c2); EQ("weighted error", s * s * w, 1); } }
// --- model | src/statistics/regression.h | the linear model stores the coefficients, errors and chi-squared of the fit | opaque=_ZN10theoretica5stats18pvalue_chi_squaredEdj
{ const V3 X = {a0, a1, a2}, Y = {b0, b1, b2}; const real D = 3 * (a0 * a0 + a1 * a1 + a2 * a2) - sq(a0 + a1 + a2), S = 0.5; if(D > 0.1) { regression::linear_model m(X, Y, S); real A, B; mat2 M; regression::ols_linear(X, Y, S, A, B, M); EQ("A", m.A, A); EQ("B", m.B, B); EQ("sigma A", m.sigma_A * m.sigma_A, M(0, 0)); EQ("sigma B", m.sigma_B * m.sigma_B, M(1, 1)); EQ("covariance", m.covar_mat(0, 1), M(0, 1)); EQI("ndf", m.ndf, 1); EQ("chi squared", m.chi_squared * S * S, sq(b0 - A - B * a0) + sq(b1 - A - B * a1) + sq(b2 - A - B * a2)); } }
// --- model_weights | src/statistics/regression.h | the linear model with a dataset of errors is the weighted fit | opaque=_ZN10theoretica5stats18pvalue_chi_squaredEdj
{ const V3 X = {a0, a1, a2}, Y = {b0, b1, b2}, S = {2, 1, 0.5}, W = {0.25, 1, 4}; const real x = a0 / 4 + a1 + 4 * a2, D = 5.25 * (a0 * a0 / 4 + a1 * a1 + 4 * a2 * a2) - x * x; if(D > 0.1) { regression::linear_model m(X, Y, S); real A, B; mat2 M; regression::wls_linear(X, Y, W, A, B, M); EQ("A", m.A, A); EQ("B", m.B, B); EQ("sigma A", m.sigma_A * m.sigma_A, M(0, 0)); EQ("sigma B", m.sigma_B * m.sigma_B, M(1, 1)); EQI("ndf", m.ndf, 1); EQ("chi squared", m.chi_squared, sq((b0 - A - B * a0) / 2) + sq(b1 - A - B * a1) + sq((b2 - A - B * a2) * 2)); } }
// --- histogram_insert | src/statistics/histogram.h | inserted values are counted once in the bin which contains them, others are ignored
{ const real x = IN(0); histogram h(4, 0, 2); h.insert(x); const auto b = h.bins(); EQI("bins", b.size(), 4); if(x < 0 || x > 2) { EQI("outside", h.number(), 0); EQI("outside bins", b[0] + b[1] + b[2] + b[3], 0); EQ("mean kept", h.mean(), 0); } else { EQI("number", h.number(), 1); EQ("mean", h.mean(), x); EQ("tss", h.tss(), 0); EQ("max", h.max(), x); EQ("min", h.min(), x); } if(x > 0 && x < 0.5) { EQI("first", b[0], 1); EQI("others", b[1] + b[2] + b[3], 0); } if(x > 0.5 && x < 1) { EQI("second", b[1], 1); EQI("not second", b[0] + b[2] + b[3], 0); } if(x > 1.5 && x < 1.9) { EQI("last", b[3], 1); EQI("not last", b[0] + b[1] + b[2], 0); } if(x == 2) EQI("upper extreme", b[3], 1); }
// --- histogram_stats | src/statistics/histogram.h | running statistics of inserted values equal those of the dataset
{ const real x = IN(0), y = IN(1), z = IN(2); if(x > 0 && x < 1 && y > 0 && y < 1 && z > 0 && z < 1) { histogram h(1, -1, 2); h.insert(x); h.insert(y); h.insert(z); const real m = (x + y + z) / 3, t = sq(x - m) + sq(y - m) + sq(z - m); EQI("number", h.number(), 3); EQI("bin", h[0], 3); EQ("mean", stats::mean(h), m); EQ("tss", stats::tss(h), t); EQ("variance", stats::variance(h), t / 2); EQ("stdev", stats::stdev(h), th::sqrt(t / 2)); } }
// --- histogram_range | src/statistics/histogram.h | running extremes of inserted values equal those of the dataset
{ const real x = IN(0), y = IN(1); if(x > 0 && x < 1 && y > 0 && y < 1) { histogram h(1, -1, 2); h.insert(x); EQ("one min", th::min(h), x); EQ("one max", th::max(h), x); h.insert(y); EQI("number", h.number(), 2); if(x < y) { EQ("min", th::min(h), x); EQ("max", th::max(h), y); } if(y < x) { EQ("min reversed", th::min(h), y); EQ("max reversed", th::max(h), x); } } }
// --- histogram_data | src/statistics/histogram.h | histograms of datasets count every value
{ const real x = IN(0); if(x > 0.5 && x < 3.5) { const vec<real> D = {1 - 1 * 1.0, x, 4}; histogram h(D, 2); EQI("number", h.number(), 3); const auto b = h.bins(); EQI("bins", b.size(), 2); EQI("total", b[0] + b[1], 3); EQ("mean", h.mean(), (x + 4) / 3); EQ("tss", h.tss(), stats::total_sum_squares(D)); EQ("min", h.min(), 0); EQ("max", h.max(), 4); if(x < 1.5) EQI("lower", b[0], 2); if(x > 2.5) EQI("upper", b[1], 2); EQ("step", h(3.9), b[1]); EQ("outside", h(4.5), 0); EQ("below", h(-0.5), 0); } }
// --- histogram_default | src/statistics/histogram.h | histograms of datasets use the square root of the number of values as number of bins
{ const vec<real> D = {1, 2, 3, 4}; histogram h(D); EQI("bins", h.bins().size(), 2); EQI("number", h.number(), 4); }
// --- histogram_none | src/statistics/histogram.h | histograms without bins or values
{ histogram h(0, 0, 1); h.insert(0.5); EQI("no bins", h.number(), 0); EQ("no bins value", h(0.5), 0); histogram g(3, 0, 1); g.insert(nan()); EQI("nan", g.number(), 0); EQ("nan value", g(nan()), 0); errno = 0; ISNAN("variance", stats::variance(g)); REPORTED("variance"); }
// --- errorprop | src/statistics/errorprop.h | propagated errors are the quadratic form of the gradient
{ typedef multidual<2> M; const V2 x = {a0, a1}, d = {b0, b1}; const auto f = [](vec<M, 2> v) -> M { return v[0] * v[0] * v[1]; }; const real gx = 2 * a0 * a1, gy = a0 * a0; const real e = stats::error_propagation<2>(f, x, d); EQ("independent", e * e, sq(gx * b0) + sq(gy * b1)); mat2 c; c(0, 0) = c0; c(0, 1) = c1; c(1, 0) = c1; c(1, 1) = c2; const real q = gx * gx * c0 + 2 * gx * gy * c1 + gy * gy * c2; if(q > 0) { const real s = stats::error_propagation<2, mat2>(f, x, c); EQ("correlated", s * s, q); } }
// --- covar | src/statistics/errorprop.h | covariance matrices hold the pairwise covariances
{ std::vector<vec<real>> v = {mkd(3, 0), mkd(3, 10)}; const auto c = stats::covar_mat<>(v); EQI("rows", c.rows(), 2); EQ("00", c(0, 0), stats::variance(v[0])); EQ("11", c(1, 1), stats::variance(v[1])); EQ("01", c(0, 1), stats::covariance(v[0], v[1])); EQ("10", c(1, 0), stats::covariance(v[0], v[1])); }
// --- model_error | src/statistics/regression.h | the linear model reports the residual error of the fit | opaque=_ZN10theoretica5stats18pvalue_chi_squaredEdj
{ const V3 X = {a0, a1, a2}, Y = {b0, b1, b2}, S = {2, 1, 0.5}; const real x = a0 / 4 + a1 + 4 * a2, D = 5.25 * (a0 * a0 / 4 + a1 * a1 + 4 * a2 * a2) - x * x, E = 3 * (a0 * a0 + a1 * a1 + a2 * a2) - sq(a0 + a1 + a2); if(D > 0.1) { regression::linear_model m(X, Y, S); EQ("weighted", m.err, regression::ols_linear_error(X, Y, m.A, m.B)); EQ("prediction", m(IN(90)), m.A + m.B * IN(90)); } if(E > 0.1) { regression::linear_model n(X, Y), o(X, Y, real(0.5)); real A, B; regression::ols_linear(X, Y, A, B); EQ("A", n.A, A); EQ("B", n.B, B); EQ("error", n.err, regression::ols_linear_error(X, Y, A, B)); ISNAN("no sigma A", n.sigma_A); ISNAN("no sigma B", n.sigma_B); ISNAN("no chi squared", n.chi_squared); ISNAN("no p-value", n.p_value); EQI("ndf", n.ndf, 1); EQ("constant error", o.err, regression::ols_linear_error(X, Y, A, B)); } }
// --- histogram_one | src/statistics/histogram.h | the variance of a single value is reported
{ histogram h(1, -1, 2); h.insert(0.5); EQI("number", h.number(), 1); errno = 0; ISNAN("variance", stats::variance(h)); REPORTED("variance"); errno = 0; ISNAN("stdev", stats::stdev(h)); REPORTED("stdev"); h.insert(1); errno = 0; EQ("two", stats::variance(h), 0.125); EQI("two quiet", errno, 0); EQ("mean", h.mean(), 0.75); }
// --- pvalue1 | src/statistics/statistics.h | right-tailed p-values for one degree of freedom | prune=1
{ const real a = stats::pvalue_chi_squared(1.0, 1); EQI("1 of 1", a > 0.3163 && a < 0.3183, 1); errno = 0; ISNAN("no freedom", stats::pvalue_chi_squared(1, 0)); REPORTED("no freedom"); }
// --- pvalue2 | src/statistics/statistics.h | right-tailed p-values for two degrees of freedom | prune=1
{ const real b = stats::pvalue_chi_squared(2.0, 2), e = stats::pvalue_chi_squared(0, 2); EQI("2 of 2", b > 0.3678 && b < 0.3680, 1); EQI("0 of 2", e > 0.9999 && e < 1.0001, 1); }
// --- pvalue_many | src/statistics/statistics.h | right-tailed p-values for many degrees of freedom | prune=1 unroll=100
{ const real c = stats::pvalue_chi_squared(250, 200), d = stats::pvalue_chi_squared(6.0, 5); EQI("250 of 200", c > 0.005 && c < 0.015, 1); EQI("6 of 5", d > 0.306 && d < 0.3067, 1); }
// --- errorprop_data | src/statistics/errorprop.h | errors propagated from datasets use their means and covariances
{ typedef multidual<2> M; const auto f = [](vec<M, 2> v) -> M { return v[0] * v[0] + v[1] * 3.0; }; std::vector<vec<real, 2>> v = {{a0, a1}, {b0, b1}}; const real m = (a0 + a1) / 2, cx = sq(a0 - a1) / 2, cy = sq(b0 - b1) / 2, cxy = (a0 - a1) * (b0 - b1) / 2, q = 4 * m * m * cx + 12 * m * cxy + 9 * cy; if(q > 0) { const real e = stats::error_propagation<2>(f, v); EQ("propagated", e * e, q); } }
// --- pvalue_gauss | src/statistics/statistics.h | right-tailed p-values for a large number of degrees of freedom, around the mean | prune=1 unroll=100
{ const real p = stats::pvalue_chi_squared(300, 280), q = stats::pvalue_chi_squared(260, 280); EQI("300 of 280", p > 0.19 && p < 0.2, 1); EQI("260 of 280", q > 0.79 && q < 0.81, 1); EQI("symmetric", p + q > 0.9999 && p + q < 1.0001, 1); }
// --- pvalue_tail | src/statistics/statistics.h | right-tailed p-values for a large number of degrees of freedom, far from the mean | prune=1 unroll=100
{ const real p = stats::pvalue_chi_squared(360, 280); EQI("360 of 280", p > 0.0002 && p < 0.0006, 1); }
// --- pvalue_low | src/statistics/statistics.h | right-tailed p-values for a large number of degrees of freedom, well below the mean | prune=1 unroll=100
{ const real q = stats::pvalue_chi_squared(200, 280); EQI("200 of 280", q > 0.9994 && q < 0.9998, 1); }
// --- grow_sums | src/core/dataset.h, src/statistics/statistics.h | sums, products and moments of any number of data | n=40 grow=1100
{ const unsigned N = VP_N; vec<real> X(N), Y(N), Z(N); real s = 0, q = 0, m = 0, p = 1, r = 0, w = 0; for(unsigned i = 0; i < N; i++) { X[i] = IN(i); Y[i] = real(i % 5 + 1); Z[i] = i % 3 ? 1 : 2; s += IN(i); q += Y[i] * Y[i]; m += IN(i) * Y[i]; r += IN(i) / (i % 5 + 1); w += Y[i]; if(i < 20) p *= Z[i]; else Z[i] = 1; }
EQ("sum", th::sum(X), s); EQ("pairwise", sum_pairwise(X), s); EQ("compensated", sum_compensated(X), s); EQ("squares", sum_squares(Y), q); EQ("product sum", product_sum(X, Y), m); EQ("quotient sum", quotient_sum(X, Y), r); EQ("product", product(Z), p); EQ("mean", stats::mean(X) * N, s); EQ("arithmetic", arithmetic_mean(X) * N, s); EQ("weighted", weighted_mean(X, Y) * w, m); real u = 0; for(unsigned i = 0; i < N; i++) u += (Y[i] * N - w) * (Y[i] * N - w); EQ("variance", stats::variance(Y) * (real(N) * N * (N - 1)), u); EQ("total sum of squares", stats::total_sum_squares(Y) * (real(N) * N), u); real c = 0; for(unsigned i = 0; i < N; i++) c += IN(i) * (Y[i] * N - w); EQ("covariance", stats::covariance(X, Y) * (real(N) * (N - 1)), c); vec<real> M = Y; M[N - 1] = 50; EQ("max", th::max(M), 50); M[N - 1] = -50; EQ("min", th::min(M), -50); const auto C = concatenate(X, Y); EQI("concatenated size", C.size(), 2 * N); EQ("concatenated first", C[N - 1], IN(N - 1)); EQ("concatenated second", C[2 * N - 1], Y[N - 1]); vec<real> F = X; th::apply([](real t) { return 2 * t; }, F); for(unsigned i : {0u, 1u, VP_N / 2u, VP_N - 2u, VP_N - 1u}) EQ("apply", F[i], 2 * IN(i)); }
// --- grow_regression | src/statistics/regression.h | linear fits of any number of points | n=40 grow=1100
{ const unsigned N = VP_N; vec<real> X(N), Y(N); real sx = 0, sxx = 0, sy = 0, sxy = 0; for(unsigned i = 0; i < N; i++) { X[i] = i; Y[i] = IN(i); sx += i; sxx += real(i) * i; sy += IN(i); sxy += IN(i) * i; } real A, B; regression::ols_linear(X, Y, A, B); EQ("first normal equation", N * A + sx * B, sy); EQ("second normal equation", sx * A + sxx * B, sxy); EQ("intercept", regression::ols_linear_intercept(X, Y), A); EQ("slope", regression::ols_linear_slope(X, Y), B); }
// --- grow_histogram | src/statistics/histogram.h | histograms of any number of data and bins | n=9 grow=300 prune=1
{ const unsigned N = VP_N; histogram h(N, real(0), real(N)); real s = 0, q = 0; for(unsigned i = 0; i < N; i++) { const real x = real((i * 5) % N) + real(0.25); h.insert(x); s += x; q += x * x; } EQI("number", h.number(), N); EQ("mean", h.mean() * N, s); EQ("tss", h.tss() * N, q * N - s * s); unsigned k = 0; for(unsigned i = 0; i < N; i++) k += h[i]; EQI("counts", k, N); vec<real> X(N); for(unsigned i = 0; i < N; i++) X[i] = real(i) + real(0.5); histogram g(X, N); for(unsigned i = 0; i < N; i++) EQI("bin", g[i], 1); }
// --- constraints | src/statistics/statistics.h | the number of constraints is subtracted from the size of the dataset | prune=1
{ const auto X = DA, Y = DB; const unsigned c = (unsigned) (INU(0) & 7); if(c < 4) { errno = 0; const real k = 4 - c; EQ("variance", stats::variance(X, c) * k, TSS); EQ("covariance", stats::covariance(X, Y, c) * k, stats::covariance(X, Y, 0) * 4); EQ("stdev", stats::stdev(X, c), th::sqrt(stats::variance(X, c))); real m, v; stats::moments2(X, m, v, c); EQ("moments", v * k, TSS); EQI("quiet", errno, 0); } else { BAD("variance", stats::variance(X, c)) BAD("covariance", stats::covariance(X, Y, c)) BAD("stdev", stats::stdev(X, c)) } }
// --- grow_lag | src/statistics/statistics.h autocorrelation | autocorrelation at any lag | n=5 grow=300
{ const real c = IN(0); if(c > 0.1) { vec<real> x(VP_N + 2), y(2 * VP_N + 2); for(unsigned i = 0; i < VP_N + 2; i++) x[i] = 0; for(unsigned i = 0; i < 2 * VP_N + 2; i++) y[i] = 0; x[0] = x[VP_N] = c; x[1] = x[VP_N + 1] = -c; y[1] = y[VP_N] = y[VP_N + 1] = c; y[0] = -c; y[2 * VP_N] = -2 * c; EQ("lag", stats::autocorrelation(x, VP_N) * 2, 1); EQ("beyond", stats::autocorrelation(x, VP_N + 1) * 4, -1); EQ("none", stats::autocorrelation(x, 0), 1); EQ("middle", stats::autocorrelation(y, VP_N) * 8, -2); errno = 0; ISNAN("too far", stats::autocorrelation(x, VP_N + 3)); REPORTED("too far"); } }
