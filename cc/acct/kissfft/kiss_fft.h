// Stand-in for the parts of KISS FFT that cc/accounting uses, in doubles: an
// unnormalised mixed-radix transform.  Every buffer has exactly the size that the
// caller asked for, so that a caller that writes or reads past it is reported by
// AddressSanitizer, and allocations fail when the simulation says so.
#ifndef VERIF_KISS_FFT_H_
#define VERIF_KISS_FFT_H_
#include <cmath>
#include <complex>
#include <cstddef>
#include <vector>

typedef double kiss_fft_scalar;
struct kiss_fft_cpx { kiss_fft_scalar r, i; };

namespace verif_fft {
inline long fail_in = 0;  // the n-th allocation from now fails
inline long allocations = 0;
inline long first_size = 0;

struct Plan {
  int n = 0;
  bool inverse = false;
  std::vector<std::complex<double>> root;

  void Run(const std::complex<double>* in, std::complex<double>* out, int len, int stride) const {
    if (len == 1) {
      *out = *in;
      return;
    }
    int p = 2;
    while (len % p) ++p;
    const int m = len / p;
    for (int q = 0; q < p; ++q) Run(in + static_cast<long>(q) * stride, out + q * m, m, stride * p);
    std::vector<std::complex<double>> t(p);
    for (int k = 0; k < m; ++k) {
      for (int q = 0; q < p; ++q) t[q] = out[q * m + k];
      for (int j = 0; j < p; ++j) {
        std::complex<double> s = t[0];
        const long o = k + static_cast<long>(j) * m;
        for (int q = 1; q < p; ++q) s += t[q] * root[(o * q % len) * (n / len)];
        out[j * m + k] = s;
      }
    }
  }
};
}  // namespace verif_fft

inline int kiss_fft_next_fast_size(int n) {
  for (;; ++n) {
    int m = n;
    for (int p : {2, 3, 5}) {
      while (m > 1 && m % p == 0) m /= p;
    }
    if (m <= 1) return n;
  }
}
#endif
