// Element-wise evaluation: each element is the function of the element at the same index
#include "la.h"
#define ELEM(F) { const auto r = parallel::F(v); EQI(#F " size", r.size(), 3); if(r.size() == 3) for(unsigned i = 0; i < 3; i++) EQ(#F, r[i], th::F(v[i])); } { const auto r = parallel::F(d); EQI(#F " dynamic size", r.size(), 3); if(r.size() == 3) for(unsigned i = 0; i < 3; i++) EQ(#F " dynamic", r[i], th::F(d[i])); } { const auto r = parallel::F(e); EQI(#F " empty", r.size(), 0); }
#define CELEM(F) { const auto r = parallel::F(c); EQI(#F " size", r.size(), 2); if(r.size() == 2) for(unsigned i = 0; i < 2; i++) { const cplx y = th::F(c[i]); EQ(#F " real", r[i].a, y.a); EQ(#F " imaginary", r[i].b, y.b); } }
#define OPS const vec<real, 3> v = mks<vec<real, 3>>(0); const vec<real> d = mkd(3, 10); const vec<real> e;
// --- powers | src/algebra/parallel.h | powers and roots
{ OPS ELEM(square) ELEM(cube) ELEM(abs) ELEM(sqrt) ELEM(cbrt) }
// --- exponentials | src/algebra/parallel.h | exponential and logarithms
{ OPS ELEM(exp) ELEM(ln) ELEM(log2) ELEM(log10) }
// --- trigonometric | src/algebra/parallel.h | trigonometric functions
{ OPS ELEM(sin) ELEM(cos) ELEM(tan) ELEM(cot) }
// --- inverse | src/algebra/parallel.h | inverse trigonometric functions
{ OPS ELEM(asin) ELEM(acos) ELEM(atan) }
// --- hyperbolic | src/algebra/parallel.h | hyperbolic functions
{ OPS ELEM(sinh) ELEM(cosh) ELEM(tanh) ELEM(coth) }
// --- parameters | src/algebra/parallel.h | functions with a parameter and arbitrary functions
{ OPS const real p = IN(40); EQV("apply", parallel::apply_function(UF1, v), 3, UF1(v[i])); EQV("apply dynamic", parallel::apply_function(UF1, d), 3, UF1(d[i])); EQV("apply object", parallel::apply_function([p](real x) { return UFA(p, x); }, d), 3, UFA(p, d[i])); EQV("pow", parallel::pow(v, 3), 3, v[i] * v[i] * v[i]); EQV("pow dynamic", parallel::pow(d, 3), 3, th::pow(d[i], 3)); EQV("pow zero", parallel::pow(d, 0), 3, 1);
EQV("powf", parallel::powf(v, p), 3, th::powf(v[i], p)); EQV("powf dynamic", parallel::powf(d, p), 3, th::powf(d[i], p)); }
// --- inputs | src/algebra/parallel.h | the operand is left as it was
{ vec<real> d = mkd(3, 10); parallel::exp(d); parallel::apply_function(UF1, d); for(unsigned i = 0; i < 3; i++) EQ("unchanged", d[i], IN(10 + i)); std::vector<real> s = {IN(1), IN(2)}; const auto r = parallel::sin(s); EQI("standard vector", r.size(), 2); EQ("standard vector 0", r[0], th::sin(IN(1))); EQ("standard vector 1", r[1], th::sin(IN(2))); }
// --- complex | src/algebra/parallel.h | complex elements
{ const vec<cplx, 2> c = mkcv(vec<cplx, 2>(), 20); CELEM(square) CELEM(cube) CELEM(exp) CELEM(sin) CELEM(cos) }
// --- dual | src/algebra/parallel.h | automatic differentiation elements
{ vec<dual, 2> c; for(unsigned i = 0; i < 2; i++) c[i] = dual(IN(2 * i), IN(2 * i + 1)); const auto r = parallel::exp(c), s = parallel::square(c); for(unsigned i = 0; i < 2; i++) { EQ("exp value", r[i].Re(), th::exp(IN(2 * i))); EQ("exp derivative", r[i].Dual(), IN(2 * i + 1) * th::exp(IN(2 * i))); EQ("square derivative", s[i].Dual(), 2 * IN(2 * i) * IN(2 * i + 1)); } }
// --- grow_parallel | src/algebra/parallel.h | element-wise evaluation of any size | n=40 grow=1100
{ const unsigned N = VP_N; vec<real> v(N); for(unsigned i = 0; i < N; i++) v[i] = IN(i); const auto a = parallel::apply_function([](real x) { return UF1(x); }, v), s = parallel::square(v), c = parallel::cube(v), p = parallel::pow(v, 4); EQI("size", a.size(), N); for(unsigned i : {0u, 1u, VP_N / 2u, VP_N - 2u, VP_N - 1u}) { const real x = IN(i); EQ("apply", a[i], UF1(x)); EQ("square", s[i], x * x); EQ("cube", c[i], x * x * x); EQ("pow", p[i], x * x * x * x); }
#define EACH(L, F) { const auto r = parallel::F(v); EQI(L " size", r.size(), N); for(unsigned i : {0u, 1u, VP_N / 2u, VP_N - 1u}) EQ(L, r[i], th::F(IN(i))); }
EACH("exp", exp) EACH("sin", sin) EACH("cos", cos) EACH("tan", tan) EACH("atan", atan) EACH("ln", ln) EACH("sqrt", sqrt) EACH("abs", abs) }
