"""Simulated randomness for the clustering library.

`numpy.random.normal` and `scipy.stats.dlaplace.rvs` are replaced, once per
process and before the clustering package is imported, by dispatchers.  While a
`Source` is active they hand out draws decided by the run's case; a draw knows
when it is added to a value, which makes every release visible: the exact value
the noise went on, the noise's parameter and the released sum.
"""
import os
import sys
import types

import numpy as np
from scipy import stats

from sim import inject

REPO = os.environ.get('VERIF_REPO', '/repo')
_real_normal = np.random.normal
_real_rvs = stats.dlaplace.rvs
ACTIVE = None


class RngFailure(Exception):
  """The random source failed."""


KINDS = [RngFailure] + [inject.mixed(RngFailure, k) for k in inject.COMPONENT]


class Reused(Exception):
  """The same noise draw was added to two values."""


class NoiseArr(np.ndarray):
  """A vector of noise; adding it to a value is a release."""

  def __array_finalize__(self, obj):
    self.draw = getattr(obj, 'draw', None)

  def __array_ufunc__(self, ufunc, method, *inputs, out=None, **kwargs):
    plain = [np.asarray(x) if isinstance(x, NoiseArr) else x for x in inputs]
    noise = [x for x in inputs if isinstance(x, NoiseArr) and x.draw is not None]
    outs = None
    if out is not None:
      outs = tuple(o.view(np.ndarray) if isinstance(o, NoiseArr) else o for o in out)
    if (ufunc is np.add and method == '__call__' and len(noise) == 1 and len(inputs) == 2
        and np.shape(inputs[0]) == np.shape(inputs[1])):
      other = plain[0] if inputs[1] is noise[0] else plain[1]
      value = noise[0].draw.release(np.array(other, dtype=float))
      if outs:
        np.copyto(outs[0], value)
        return outs[0]
      return value
    if outs:
      kwargs['out'] = outs
    return getattr(ufunc, method)(*plain, **kwargs)


class NoiseInt(int):
  """An integer noise; adding it to a value is a release."""

  def __new__(cls, v, draw):
    o = int.__new__(cls, v)
    o.draw = draw
    return o

  def __add__(self, other):
    return self.draw.release(int(other))

  __radd__ = __add__

  # numpy scalars must not add us up behind our back
  __array_ufunc__ = None


class Draw:

  def __init__(self, source, kind, param, size, value):
    self.source, self.kind, self.param = source, kind, param
    self.size, self.value = size, value
    self.base = None
    self.released = None
    self.index = len(source.draws)

  def release(self, base):
    if self.base is not None:
      raise Reused(f'draw {self.index} ({self.kind}, parameter {self.param}) was added to '
                   f'{self.base} and to {base}')
    self.base = base.copy() if isinstance(base, np.ndarray) else base
    forced = self.source.forced_value(self)
    if forced is not None:
      value = forced
    elif self.kind == 'count':
      value = int(base) + int(self.value)
    else:
      value = base + self.value
    self.released = value.copy() if isinstance(value, np.ndarray) else value
    self.source.releases.append(self)
    return value.copy() if isinstance(value, np.ndarray) else value

  def signature(self):
    return (self.kind, None if self.param is None else float(self.param), self.size)


class Source:
  """The random source of one simulated execution.

  `counts`: function (index among counts, parameter) -> integer noise.
  `decide`: function (draw, value noise is added to) -> what is released, or None.
  `forced`: the draws of an earlier execution whose releases must come out again.
  `fail_at`: global draw indices at which drawing raises.
  """

  def __init__(self, seed, counts=None, forced=None, fail_at=(), cov=None,
               decide=None):
    self.rs = np.random.RandomState(seed)
    self.counts = counts
    self.forced = forced
    self.decide = decide
    self.fail_at = set(fail_at)
    self.draws = []
    self.releases = []
    self.ncount = 0
    self.attempts = 0
    self.failed = 0
    self.diverged = None
    self.cov = cov

  def forced_value(self, draw):
    if self.decide is not None:
      return self.decide(draw, draw.base)
    if self.forced is None or draw.index >= len(self.forced):
      return None
    other = self.forced[draw.index]
    if other.signature() != draw.signature() or other.released is None:
      self.diverged = self.diverged or draw.index
      return None
    return other.released

  def _attempt(self):
    k = self.attempts
    self.attempts += 1
    if k in self.fail_at:
      self.failed += 1
      raise KINDS[(k * 5 + self.failed) % len(KINDS)](f'draw {k} failed')

  def normal(self, loc=0.0, scale=1.0, size=None):
    self._attempt()
    x = np.asarray(self.rs.standard_normal(size), dtype=float) * scale
    shape = tuple(np.shape(x))
    d = Draw(self, 'normal', scale, shape, x)
    self.draws.append(d)
    if not (np.isscalar(loc) and loc == 0):
      return d.release(np.array(np.broadcast_to(loc, shape), dtype=float))
    if x.ndim == 1:
      o = x.view(NoiseArr)
      o.draw = d
      return o
    return x

  def rvs(self, a, loc=0, size=None, random_state=None):
    self._attempt()
    k = self.ncount
    self.ncount += 1
    if self.counts is not None:
      v = self.counts(k, a)
    else:
      u = self.rs.random_sample(2)
      g = lambda t: int(np.floor(np.log(max(t, 1e-300)) / -a))
      v = g(u[0]) - g(u[1])
    d = Draw(self, 'count', a, None, int(v))
    self.draws.append(d)
    if not (np.isscalar(loc) and loc == 0):
      return d.release(int(loc))
    o = NoiseInt(int(v), d)
    return o

  def __enter__(self):
    global ACTIVE
    if ACTIVE is not None:
      raise RuntimeError('nested simulated random sources')
    ACTIVE = self
    return self

  def __exit__(self, *exc):
    global ACTIVE
    ACTIVE = None
    if self.cov is not None and self.failed:
      self.cov.fault('random source failed', self.failed)
    return False

  def signatures(self):
    return [d.signature() for d in self.draws]


def _normal(loc=0.0, scale=1.0, size=None):
  if ACTIVE is None:
    return _real_normal(loc, scale, size)
  return ACTIVE.normal(loc, scale, size)


def _rvs(*args, **kw):
  if ACTIVE is None:
    return _real_rvs(*args, **kw)
  return ACTIVE.rvs(*args, **kw)


class KMeans:
  """Stand-in for sklearn: a deterministic function of the weighted points."""
  seen = []

  def __init__(self, n_clusters=8, init='k-means++', **unused):
    self.n_clusters = n_clusters

  def fit(self, points, sample_weight=None, **unused):
    p, w = np.array(points, dtype=float), np.array(sample_weight, dtype=float)
    KMeans.seen.append((self.n_clusters, p, w))
    groups = np.array_split(np.lexsort(p.T[::-1]), self.n_clusters)
    self.cluster_centers_ = np.array(
        [np.average(p[g], axis=0, weights=np.abs(w[g]) + 1e-9) for g in groups])
    return self


def install():
  np.random.normal = _normal
  stats.dlaplace.rvs = _rvs
  if 'sklearn' not in sys.modules:
    sk = types.ModuleType('sklearn')
    skc = types.ModuleType('sklearn.cluster')
    skc.KMeans = KMeans
    sk.cluster = skc
    sys.modules['sklearn'] = sk
    sys.modules['sklearn.cluster'] = skc
  else:
    sys.modules['sklearn.cluster'].KMeans = KMeans


install()
