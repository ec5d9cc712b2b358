"""Reference for cc/accounting: true divergences of mechanisms, direct composition."""
import math

import numpy as np


def phi(x):
  return .5 * math.erfc(-x / math.sqrt(2))


def _hockey(pairs, eps):
  """Sum of (p - e^eps q)+ over pairs of masses."""
  e = math.exp(eps)
  return math.fsum(max(0.0, p - e * q) for p, q in pairs)


def _dlaplace(a, s):
  z = (1 - math.exp(-a)) / (1 + math.exp(-a))
  n = int(math.ceil(45 / a)) + s + 1
  return [(z * math.exp(-a * abs(x)), z * math.exp(-a * abs(x - s))) for x in range(-n, n + 1)]


def _dgauss(sigma, s, bound):
  b = bound if bound > 0 else int(math.ceil(11.6 * sigma))
  w = {x: math.exp(-.5 * x * x / sigma**2) for x in range(-b, b + 1)}
  t = math.fsum(w.values())
  return [(w[x] / t, w.get(x - s, 0.0) / t) for x in w]


def truth(base, eps):
  """The true hockey stick divergence of a mechanism."""
  kind, a = base[0], base[1:]
  if kind == 'identity':
    return max(0.0, -math.expm1(eps))
  if kind == 'laplace':
    top = a[1] / a[0]
    if eps >= top:
      return 0.0
    if eps <= -top:
      return -math.expm1(eps)
    return -math.expm1((eps - top) / 2)
  if kind == 'gauss':
    m = a[1] / a[0]
    return phi(m / 2 - eps / m) - math.exp(eps) * phi(-m / 2 - eps / m)
  if kind == 'dlaplace':
    return _hockey(_dlaplace(a[0], a[1]), eps)
  if kind == 'dgauss':
    return _hockey(_dgauss(a[0], a[1], a[2]), eps)
  if kind == 'rr':
    p, k = a
    hi, lo = 1 - p + p / k, p / k
    return _hockey([(hi, lo), (lo, hi), (lo * (k - 2), lo * (k - 2))], eps)
  if kind == 'params':
    e, d = a
    up = (1 - d) / (1 + math.exp(-e))
    dn = (1 - d) / (1 + math.exp(e))
    return d + _hockey([(up, dn), (dn, up)], eps)
  if kind == 'pmf':
    lower, upper = dict(a[0]), dict(a[1])
    return _hockey([(p, lower.get(o, 0.0)) for o, p in upper.items()], eps)
  raise AssertionError(kind)


def cut(base):
  """The mass the construction may move to infinity or drop."""
  if base[0] == 'gauss':
    return 2 * math.exp(base[3])
  if base[0] == 'pmf':
    return len(base[2]) * math.exp(base[3])
  return 0.0


class Dist:
  """A discrete privacy loss distribution, composed by direct sums."""

  def __init__(self, h, pess, inf, low, mass, slack=0.0):
    self.h, self.pess, self.inf, self.low, self.mass, self.slack = (
        h, pess, inf, low, mass, slack)

  @classmethod
  def of(cls, rep):
    pmf = rep['pmf']
    if not pmf:
      return cls(rep['h'], rep['pess'], rep['inf'], 0, np.zeros(1))
    low, high = pmf[0][0], pmf[-1][0]
    m = np.zeros(high - low + 1)
    for k, p in pmf:
      m[k - low] = p
    return cls(rep['h'], rep['pess'], rep['inf'], low, m)

  def compose(self, o, tail=0.0):
    return Dist(self.h, self.pess, self.inf + o.inf - self.inf * o.inf, self.low + o.low,
                np.convolve(self.mass, o.mass), self.slack + o.slack + tail)

  def power(self, n, tail=0.0):
    out, sq, k = None, self, n
    while k:
      if k & 1:
        out = sq if out is None else out.compose(sq)
      k >>= 1
      if k:
        sq = sq.compose(sq)
    # A truncated tail may also wrap round into the window, once.
    return Dist(self.h, self.pess, out.inf, out.low, out.mass, n * self.slack + 2 * tail)

  def delta(self, eps):
    loss = (np.arange(len(self.mass)) + self.low) * self.h
    on = loss > eps
    return self.inf + float(np.sum(-np.expm1(eps - loss[on]) * self.mass[on]))
