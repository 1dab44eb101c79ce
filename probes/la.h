// generic operands for the linear algebra probes
#ifndef VERIF_LA_H
#define VERIF_LA_H
#include "probe.h"
typedef complex<real> cplx;
template<typename V> static inline V mkv(V v, int base) { for(unsigned i = 0; i < v.size(); i++) v[i] = IN(base + i); return v; }
template<typename M> static inline M mkm(M m, int base) { for(unsigned i = 0; i < m.rows(); i++) for(unsigned j = 0; j < m.cols(); j++) m(i, j) = IN(base + 20 * i + j); return m; }
template<typename V> static inline V mkcv(V v, int base) { for(unsigned i = 0; i < v.size(); i++) v[i] = cplx(IN(base + 2 * i), IN(base + 2 * i + 1)); return v; }
template<typename M> static inline M mkcm(M m, int base) { for(unsigned i = 0; i < m.rows(); i++) for(unsigned j = 0; j < m.cols(); j++) m(i, j) = cplx(IN(base + 20 * i + 2 * j), IN(base + 20 * i + 2 * j + 1)); return m; }
template<typename V> static inline V mks(int base) { V v; return mkv(v, base); }
template<typename M> static inline M mkms(int base) { M m; return mkm(m, base); }
static inline vec<real> mkd(unsigned n, int base) { return mkv(vec<real>(n), base); }
static inline mat<real> mkdm(unsigned n, unsigned k, int base) { return mkm(mat<real>(n, k), base); }
// element formulas over plain inputs
#define V_(base, i) IN((base) + (i))
#define M_(base, i, j) IN((base) + 20 * (i) + (j))
#define EQV(L, R, N, F) { const auto r_ = (R); EQI(L " size", r_.size(), N); if(r_.size() == (N)) for(unsigned i = 0; i < (N); i++) EQ(L, r_[i], F); }
#define EQM(L, R, N, K, F) { const auto r_ = (R); EQI(L " rows", r_.rows(), N); EQI(L " cols", r_.cols(), K); \
	if(r_.rows() == (N) && r_.cols() == (K)) for(unsigned i = 0; i < (N); i++) for(unsigned j = 0; j < (K); j++) EQ(L, r_(i, j), F); }
#define NANV(L, R) { for(unsigned i = 0; i < (R).size(); i++) ISNAN(L, (R)[i]); }
#define NANM(L, R) { for(unsigned i = 0; i < (R).rows() && i < (R).cols(); i++) ISNAN(L, (R)(i, i)); }
#define REPORTED(L) EQI(L " reported", errno != 0, 1)
static inline real ddot(int a, int b, unsigned n) { real s = 0; for(unsigned i = 0; i < n; i++) s += V_(a, i) * V_(b, i); return s; }
static inline real mrow(int a, unsigned i, int v, unsigned k) { real s = 0; for(unsigned j = 0; j < k; j++) s += M_(a, i, j) * V_(v, j); return s; }
static inline real mprod(int a, unsigned i, int b, unsigned j, unsigned k) { real s = 0; for(unsigned l = 0; l < k; l++) s += M_(a, i, l) * M_(b, l, j); return s; }
static inline real mtprod(int a, unsigned i, int b, unsigned j, unsigned k) { real s = 0; for(unsigned l = 0; l < k; l++) s += M_(a, l, i) * M_(b, l, j); return s; }
static inline real mprodt(int a, unsigned i, int b, unsigned j, unsigned k) { real s = 0; for(unsigned l = 0; l < k; l++) s += M_(a, i, l) * M_(b, j, l); return s; }
#endif
