"""Calibrated noise judged by the true divergence of the mechanism."""
import math

import numpy as np
from scipy import signal

from sim import acref


def sampled(base, eps, q):
  """Hockey stick divergence of the Poisson subsampled mechanism, record removed."""
  if q == 1:
    return acref.truth(base, eps)
  return q * acref.truth(base, math.log1p(math.expm1(eps) / q))


def _phi(x):
  return np.array([acref.phi(float(v)) for v in x])


def _cells(cdf, low, high, h):
  """Masses of the loss in the cells (kh - h, kh], those beyond the range included."""
  lo, hi = math.floor(low / h), math.ceil(high / h)
  grid = np.arange(lo, hi + 1) * h
  c = np.concatenate([[0.0], cdf(grid)])
  return lo, np.maximum(np.diff(c), 0.0), max(0.0, 1 - c[-1])


def _laplace_cdf(b, s):
  def cdf(l):
    top = s / b
    inner = .5 * np.exp((np.minimum(l, top) - top) / 2)
    return np.where(l >= top * (1 - 1e-12), 1.0, np.where(l < -top, 0.0, inner))
  return cdf, -s / b, s / b


def _gauss_cdfs(sigma, s, q):
  """The loss distributions for a removed and an added record."""
  def point(l):
    with np.errstate(divide='ignore', invalid='ignore'):
      a = np.expm1(l) / q
      x = np.where(a > -1, sigma**2 / s * np.log1p(np.maximum(a, -1)) + s / 2, -np.inf)
    return x

  def removed(l):
    x = point(l)
    return (1 - q) * _phi(x / sigma) + q * _phi((x - s) / sigma)

  def added(l):
    return 1 - _phi(point(-l) / sigma)

  def loss(x):
    e = (s * x - s * s / 2) / sigma**2
    return np.logaddexp(math.log(q) + e, math.log1p(-q) if q < 1 else -np.inf)

  top, bottom = float(loss(9.5 * sigma + s)), float(loss(-9.5 * sigma))
  return [(removed, bottom, top), (added, -top, -bottom)]


def _bracket(cdf, low, high, n, eps, h):
  lo, mass, rest = _cells(cdf, low, high, h)
  out = mass
  for _ in range(n - 1):
    out = signal.fftconvolve(out, mass)
  out = np.maximum(out, 0)
  up = (np.arange(len(out)) + n * lo) * h
  res = []
  for loss in (up - n * h, up):
    on = loss > eps
    res.append(float(np.sum(-np.expm1(eps - loss[on]) * out[on])))
  return res[0], res[1] + n * rest


def bracket(kind, noise, s, n, q, eps):
  """Lower and upper bounds of the true divergence of n queries at eps."""
  if kind == 'dlaplace' and n == 1:
    d = sampled((kind, noise, s), eps, q)
    return d, d
  if kind == 'dlaplace':
    pairs = acref._dlaplace(noise, s)
    low, mass = -s, np.zeros(2 * s + 1)
    for p, r in pairs:
      mass[min(2 * s, max(0, round(math.log(p / r) / noise) + s))] += p
    out = mass
    for _ in range(n - 1):
      out = np.convolve(out, mass)
    loss = (np.arange(len(out)) + n * low) * noise
    on = loss > eps * (1 + 1e-13)
    d = float(np.sum(-np.expm1(eps - loss[on]) * out[on]))
    return d, d
  if kind == 'gauss' and q == 1:
    d = acref.truth(('gauss', noise, s * math.sqrt(n)), eps)
    return d, d
  if kind in ('laplace', 'gauss') and n == 1:
    d = sampled((kind, noise, s), eps, q)
    return d, d
  h = eps / n / 300
  cdfs = [_laplace_cdf(noise, s)] if kind == 'laplace' else _gauss_cdfs(noise, s, q)
  h = max(h, max(hi - lo for _, lo, hi in cdfs) / 60000)
  res = [_bracket(*c, n, eps, h) for c in cdfs]
  return max(r[0] for r in res), max(r[1] for r in res)
