"""Reference noise scales and thresholds."""
import math

from scipy import optimize
from scipy import stats


def true_sigma(l0, linf, eps, delta):
  """Smallest standard deviation of the analytic Gaussian mechanism."""
  if eps < 1e-6 or delta < 1e-14:
    return None  # lost in rounding, here and in the library
  s = math.sqrt(l0) * linf

  def excess(log_sigma):
    sigma = s * math.exp(log_sigma)
    a, b = s / (2 * sigma), eps * sigma / s
    v = stats.norm.logcdf(-a - b) + eps
    return stats.norm.cdf(a - b) - (math.exp(v) if v < 700 else math.inf) - delta

  lo, hi = -60.0, 60.0
  if excess(lo) <= 0 or excess(hi) >= 0:
    return None
  return s * math.exp(optimize.brentq(excess, lo, hi, xtol=1e-10))


def least_threshold(kind, l0, linf, eps, noise_delta, thr_delta):
  """Smallest threshold that hides a partition of one privacy unit."""
  p = -math.expm1(math.log1p(-thr_delta) / l0)
  if kind == 'g':
    sigma = true_sigma(l0, linf, eps, noise_delta)
    if sigma is None or p >= .5:
      return None
    return linf + sigma * stats.norm.isf(p)
  b = l0 * linf / eps
  if p >= .5:
    return None
  return linf - b * math.log(2 * p)
