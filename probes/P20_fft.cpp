// The fast Fourier transform equals the discrete Fourier transform, its inverse undoes it,
// sizes which are not a power of two are reported.
#include "la.h"
#include "signal/fft.h"
template<unsigned N> inline cplx dft(int k, int off, real sign) { cplx s(0, 0); for(unsigned n = 0; n < N; n++) { const real c = th::cos(sign * 2 * PI * ((k * n) % N) / N), d = th::sin(sign * 2 * PI * ((k * n) % N) / N), a = IN(off + 2 * n), b = IN(off + 2 * n + 1); s.Re() += a * c - b * d; s.Im() += a * d + b * c; } return s; }
template<unsigned N, typename V> inline V data(V v, int off) { for(unsigned n = 0; n < N; n++) v[n] = cplx(IN(off + 2 * n), IN(off + 2 * n + 1)); return v; }
#define DFT(L, V, N, off, sign, sc) EQI(L " size", (V).size(), N); { const cplx r_[] = {dft<N>(0, off, sign), dft<N>(1 % N, off, sign), dft<N>(2 % N, off, sign), dft<N>(3 % N, off, sign), dft<N>(4 % N, off, sign), dft<N>(5 % N, off, sign), dft<N>(6 % N, off, sign), dft<N>(7 % N, off, sign)}; for(unsigned q_ = 0; q_ < N; q_++) { EQ(L " re", (V)[q_].Re() * (sc), r_[q_].Re()); EQ(L " im", (V)[q_].Im() * (sc), r_[q_].Im()); } }
#define BADV(L, E) { errno = 0; const auto r_ = (E); REPORTED(L); for(unsigned i = 0; i < r_.size(); i++) { if(i == 0) ISNAN(L " first", r_[0].Re()); if(i == r_.size() - 1) ISNAN(L " last", r_[r_.size() - 1].Re()); } }
// --- one | src/signal/fft.h | the transform of a single point is the point
{ const auto x = data<1>(cvec(1), 0); const auto k = signal::fft(x); DFT("dft", k, 1, 0, -1, 1) const auto y = signal::ifft(x); DFT("inverse", y, 1, 0, 1, 1) }
// --- two | src/signal/fft.h | transforms of two points
{ const auto x = data<2>(cvec(2), 0); const auto k = signal::fft(x); DFT("dft", k, 2, 0, -1, 1) const auto y = signal::ifft(x); DFT("inverse", y, 2, 0, 1, 2) }
// --- four | src/signal/fft.h | transforms of four points
{ const auto x = data<4>(cvec(4), 0); const auto k = signal::fft(x); DFT("dft", k, 4, 0, -1, 1) const auto y = signal::ifft(x); DFT("inverse", y, 4, 0, 1, 4) const auto z = signal::fft(x, true); DFT("inverse flag", z, 4, 0, 1, 4) }
// --- eight | src/signal/fft.h | transforms of eight points
{ const auto x = data<8>(cvec(8), 0); const auto k = signal::fft(x); DFT("dft", k, 8, 0, -1, 1) }
// --- sixteen | src/signal/fft.h | transforms of sixteen points
{ const auto x = data<16>(cvec(16), 0); const auto k = signal::fft(x); const cplx a = dft<16>(0, 0, -1), b = dft<16>(1, 0, -1), c = dft<16>(5, 0, -1), d = dft<16>(10, 0, -1), e = dft<16>(15, 0, -1); EQ("0 re", k[0].Re(), a.Re()); EQ("0 im", k[0].Im(), a.Im()); EQ("1 re", k[1].Re(), b.Re()); EQ("1 im", k[1].Im(), b.Im()); EQ("5 re", k[5].Re(), c.Re()); EQ("5 im", k[5].Im(), c.Im()); EQ("10 re", k[10].Re(), d.Re()); EQ("10 im", k[10].Im(), d.Im()); EQ("15 re", k[15].Re(), e.Re()); EQ("15 im", k[15].Im(), e.Im()); }
// --- eight_inverse | src/signal/fft.h | inverse transforms of eight points
{ const auto x = data<8>(cvec(8), 0); const auto y = signal::ifft(x); DFT("inverse", y, 8, 0, 1, 8) }
// --- roundtrip | src/signal/fft.h | the inverse transform undoes the transform
{ const auto x = data<4>(cvec(4), 0); const auto y = signal::ifft(signal::fft(x)), z = signal::fft(signal::ifft(x)); for(unsigned i = 0; i < 4; i++) { EQ("inverse re", y[i].Re(), IN(2 * i)); EQ("inverse im", y[i].Im(), IN(2 * i + 1)); EQ("direct re", z[i].Re(), IN(2 * i)); EQ("direct im", z[i].Im(), IN(2 * i + 1)); EQ("argument re", x[i].Re(), IN(2 * i)); } }
// --- fixed | src/signal/fft.h | statically sized transforms
{ const auto x = data<4>(vec<cplx, 4>(), 0); const auto k = signal::fft<vec<cplx, 4>>(x); DFT("dft", k, 4, 0, -1, 1) const auto y = signal::ifft<vec<cplx, 4>>(x); DFT("inverse", y, 4, 0, 1, 4) }
// --- parseval | src/signal/fft.h | the transform keeps the energy and maps the first element to the sum
{ const auto x = data<4>(cvec(4), 0); const auto k = signal::fft(x); real e = 0, f = 0; for(unsigned i = 0; i < 4; i++) { e += IN(2 * i) * IN(2 * i) + IN(2 * i + 1) * IN(2 * i + 1); f += k[i].Re() * k[i].Re() + k[i].Im() * k[i].Im(); } EQ("energy", f, 4 * e); EQ("sum re", k[0].Re(), IN(0) + IN(2) + IN(4) + IN(6)); }
// --- sizes | src/signal/fft.h | sizes which are not a power of two are reported
{ const auto a = data<3>(cvec(3), 0), b = data<5>(cvec(5), 0), c = data<6>(cvec(6), 0), d = data<7>(cvec(7), 0), e = cvec(0); BADV("three", signal::fft(a)) BADV("five", signal::fft(b)) BADV("six", signal::fft(c)) BADV("seven", signal::fft(d)) BADV("none", signal::fft(e)) BADV("inverse three", signal::ifft(a)) BADV("inverse six", signal::ifft(c)) }
// --- reverse | src/core/bit_op.h | bit reversal permutes the elements by reversing their index
{ auto x = data<8>(cvec(8), 0); swap_bit_reverse(x, 3); const int p[8] = {0, 4, 2, 6, 1, 5, 3, 7}; for(unsigned i = 0; i < 8; i++) EQ("element", x[i].Re(), IN(2 * p[i])); auto y = data<3>(cvec(3), 0); errno = 0; swap_bit_reverse(y, 2); REPORTED("size"); for(unsigned i = 0; i < 3; i++) EQ("kept", y[i].Re(), IN(2 * i)); }
// --- grow_fft | src/signal/fft.h | transforms of constants, units and alternating signs of any size | n=32 pow2=1 grow=1100 fold=sin,cos
{ unsigned N = 1; while(N < VP_N) N *= 2; cvec c(N), u(N), a(N); for(unsigned i = 0; i < N; i++) { c[i] = cplx(IN(0), IN(1)); u[i] = i ? cplx(0, 0) : cplx(IN(0), IN(1)); a[i] = i % 2 ? cplx(-IN(0), -IN(1)) : cplx(IN(0), IN(1)); } const cvec C = signal::fft(c), U = signal::fft(u), A = signal::fft(a), D = signal::ifft(c), V = signal::ifft(u), B = signal::ifft(a);
for(unsigned i : {0u, 1u, N / 4, N / 2, N / 2 + 1, N - 1}) { const real k = i == 0 ? 1 : 0, l = i == N / 2 ? 1 : 0; EQ("constant re", C[i].Re(), k * N * IN(0)); EQ("constant im", C[i].Im(), k * N * IN(1)); EQ("unit re", U[i].Re(), IN(0)); EQ("unit im", U[i].Im(), IN(1)); EQ("alternating re", A[i].Re(), l * N * IN(0)); EQ("inverse constant", D[i].Re(), k * IN(0)); EQ("inverse unit", V[i].Im() * N, IN(1)); EQ("inverse alternating", B[i].Im(), l * IN(1)); } }
// --- grow_units | src/signal/fft.h | transforms of unit vectors of any size are the powers of a root of unity | n=32 pow2=1 grow=300 box=0:1:2 noopaque=all
{ unsigned N = 1; while(N < VP_N) N *= 2; for(unsigned m : {1u, 3u, N - 1}) { cvec u(N); for(unsigned i = 0; i < N; i++) u[i] = i == m ? cplx(IN(0), 0) : cplx(0, 0); const cvec U = signal::fft(u), V = signal::ifft(u); for(unsigned i : {1u, 2u, N / 4 + 1, N / 2 - 1, N / 2 + 1, N - 1}) { const real t = 2 * PI * ((m * i) % N) / N; NEAR("re", U[i].Re(), IN(0) * REF_cos(t), 1e-9); NEAR("im", U[i].Im(), -IN(0) * REF_sin(t), 1e-9); NEAR("inverse re", V[i].Re() * N, IN(0) * REF_cos(t), 1e-9); NEAR("inverse im", V[i].Im() * N, IN(0) * REF_sin(t), 1e-9); } } }
// --- grow_reverse | src/core/bit_op.h swap_bit_reverse | the permutation by reversed index at any size | n=64 pow2=1 grow=2100
{ unsigned N = 1, m = 0; while(N < VP_N) { N *= 2; m++; } vec<real> x(N); for(unsigned i = 0; i < N; i++) x[i] = i; x[1] = IN(0); swap_bit_reverse(x, m); for(unsigned i : {0u, 1u, 3u, N / 8 + 1, N / 4, N / 2, N / 2 + 1, N / 2 + N / 4 - 1, N - 2, N - 1}) { unsigned j = 0; for(unsigned k = 0; k < m; k++) if(i & (1u << k)) j += N >> (k + 1); EQ("element", x[i], j == 1 ? IN(0) : real(j)); } }
