"""Reference for confidence intervals of counts, sums and means."""
import functools
import math

from scipy import stats

from checks import x03
from sim.core import Violation


@functools.lru_cache(None)
def _sigma(l2, eps, delta):
  """The least Gaussian deviation."""
  lo, hi = 1e-12 * l2, l2
  while x03.gauss_delta(l2, eps, hi) > delta:
    hi *= 2
  for _ in range(200):
    m = (lo + hi) / 2
    if x03.gauss_delta(l2, eps, m) > delta:
      lo = m
    else:
      hi = m
  return hi


def half(c, gauss, alpha):
  """Half width of the interval of a recorded noise call: least and most."""
  eps, l0, linf = float(c['eps']), float(c['l0']), float(c['linf'])
  if gauss:
    s = _sigma(math.sqrt(l0) * linf, eps, float(c['delta']))
    z = s * stats.norm.isf(alpha / 2)
    return z * (1 - 1e-7), z * 1.0101
  z = -l0 * linf / eps * math.log(alpha)
  return z * (1 - 1e-7), z * (1 + 1e-7)


def _mean(s, n, zs, zn, mid):
  num = s - zs, s + zs
  den = max(1.0, n - zn), max(1.0, n + zn)
  lo = num[0] / (den[1] if num[0] >= 0 else den[0])
  hi = num[1] / (den[0] if num[1] >= 0 else den[1])
  return lo + mid, hi + mid


def check(what, typ, lower, upper, calls, gauss, alpha, got):
  """The interval is the one the noised values and the parameters imply."""
  lo, hi = map(float, got)
  if not lo <= hi:
    raise Violation('interval', f'{what}: [{lo!r}, {hi!r}] at alpha {alpha}')
  sides = -math.inf, math.inf
  if typ == 'count' or typ != 'mean' and lower >= 0:
    sides = 0.0, math.inf
  elif typ != 'mean' and upper <= 0:
    sides = -math.inf, 0.0
  if typ == 'mean':
    sides = lower, upper
  if lo < sides[0] or hi > sides[1]:
    raise Violation('interval', f'{what}: [{lo!r}, {hi!r}] at alpha {alpha} leaves {sides}')

  def clip(x):
    return min(max(x, sides[0]), sides[1])
  if typ != 'mean':
    c, = calls
    x = float(c['out'])
    least, most = half(c, gauss, alpha)
    tol = (abs(x) + most) * 1e-12 + (1.0 if c['m'] == 'i' else 0) + 1e-300
    want = [clip(x - most - tol), clip(x - least + tol), clip(x + least - tol),
            clip(x + most + tol)]
    if not (want[0] <= lo <= want[1] and want[2] <= hi <= want[3]):
      raise Violation('interval', f'{what}: [{lo!r}, {hi!r}] at alpha {alpha}, the noised '
                      f'value {x!r} implies [{clip(x - least)!r}, {clip(x + least)!r}]')
    return
  n, = [c for c in calls if c['m'] == 'i']
  s, = [c for c in calls if c['m'] == 'f']
  mean(what, lower, upper, float(n['out']), float(s['out']),
       lambda a: half(n, gauss, a), lambda a: half(s, gauss, a), alpha, (lo, hi))


def mean(what, lower, upper, count, total, half_count, half_sum, alpha, got, slack=1.0):
  """Any split of alpha over count and sum will do; equal shares bound the width."""
  lo, hi = got
  mid = lower + (upper - lower) / 2

  def clip(x):
    return min(max(x, lower), upper)

  def ref(an, which, more):
    ad = (alpha - an) / (1 - an)
    a, b = _mean(total, count, half_sum(an)[which], half_count(ad)[which] + more, mid)
    return clip(a), clip(b)
  tol = 1e-3 * (hi - lo) + 1e-9 * (upper - lower)
  shares = [k / 1000 for k in range(1, 1000)] + [10.0 ** -k for k in range(4, 12)] + [
      1 - 10.0 ** -k for k in range(4, 12)]
  for t in shares:
    a, b = ref(alpha * t, 0, -slack / 2)
    if lo <= a + tol and b - tol <= hi:
      break
  else:
    raise Violation('interval', f'{what}: [{lo!r}, {hi!r}] at alpha {alpha} holds no interval '
                    f'that count {count!r} and sum {total!r} imply (even shares give '
                    f'{ref(alpha / 2, 0, 0)})')
  a, b = ref(alpha / 2, 1, slack)
  if hi - lo > (b - a) * 1.001 + tol:
    raise Violation('interval', f'{what}: [{lo!r}, {hi!r}] at alpha {alpha} is wider than '
                    f'[{a!r}, {b!r}], which even shares give')


def truth(typ, lower, upper, data):
  """The statistic of the clamped entries (None if there is none)."""
  vals = []
  for c in data:
    if typ == 'count':
      vals += [1] * c['n']
    elif not math.isnan(float(c['v'])):
      vals += [min(max(float(c['v']), lower), upper)] * c['n']
  if typ == 'mean':
    return math.fsum(vals) / len(vals) if vals else None
  return math.fsum(vals)


def coverage(what, total, cis, alpha):
  slack = 1e-9 * (1 + abs(total))
  miss = sum(not float(c[0]) - slack <= total <= float(c[1]) + slack for c in cis)
  if stats.binom.sf(miss - 1, len(cis), alpha) < 1e-10:
    raise Violation('coverage', f'{what}: {miss} of {len(cis)} intervals miss {total!r}')
