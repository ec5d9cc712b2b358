#ifndef VERIF_KISS_FFTR_H_
#define VERIF_KISS_FFTR_H_
#include "kissfft/kiss_fft.h"

typedef verif_fft::Plan* kiss_fftr_cfg;

inline kiss_fftr_cfg kiss_fftr_alloc(int nfft, int inverse, void*, size_t*) {
  ++verif_fft::allocations;
  if (verif_fft::fail_in > 0 && --verif_fft::fail_in == 0) return nullptr;
  if (nfft <= 0 || nfft % 2) return nullptr;  // real transforms have an even size
  auto* p = new verif_fft::Plan;
  p->n = nfft;
  p->inverse = inverse != 0;
  p->root.resize(nfft);
  for (int k = 0; k < nfft; ++k) {
    const double a = (inverse ? 2 : -2) * M_PI * k / nfft;
    p->root[k] = {std::cos(a), std::sin(a)};
  }
  return p;
}

inline void kiss_fftr_free(kiss_fftr_cfg c) { delete c; }

inline void kiss_fftr(kiss_fftr_cfg c, const kiss_fft_scalar* in, kiss_fft_cpx* out) {
  std::vector<std::complex<double>> x(in, in + c->n), y(c->n);
  c->Run(x.data(), y.data(), c->n, 1);
  for (int k = 0; k <= c->n / 2; ++k) out[k] = {y[k].real(), y[k].imag()};
}

inline void kiss_fftri(kiss_fftr_cfg c, const kiss_fft_cpx* in, kiss_fft_scalar* out) {
  std::vector<std::complex<double>> x(c->n), y(c->n);
  for (int k = 0; k <= c->n / 2; ++k) x[k] = {in[k].r, in[k].i};
  x[0] = {in[0].r, 0};
  x[c->n / 2] = {in[c->n / 2].r, 0};
  for (int k = c->n / 2 + 1; k < c->n; ++k) x[k] = std::conj(x[c->n - k]);
  c->Run(x.data(), y.data(), c->n, 1);
  for (int k = 0; k < c->n; ++k) out[k] = y[k].real();
}
#endif
