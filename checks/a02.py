"""A02: C++ calibration searches stop, keep the budget and do not hide failures."""
import math

import numpy as np

from sim import acref
from sim import acsim
from sim.core import Violation

ID = 'A02'
RULE = ('a run is a handful of searches: for the solution of a simulated monotone function '
        'whose evaluation fails at a chosen call, or for the noise of a mechanism, or for '
        'the composition of a budget; answers are compared with the known solution and the '
        'true divergence; non-trivial if a search answered')
REAL = ['cc/accounting', 'cc/base']
STUB = ['the function being inverted (a simulated step function with failing calls)',
        'absl::flat_hash_map (iteration order decided by the seed)',
        'KISS FFT (a transform of our own)', 'absl logging']
ASSUMPTIONS = ['finite lower bound; an infinite upper bound only with a guess and a solution; '
               'a positive guess inside the range', 'epsilon from 1e-12 to 20 and delta down to '
               '1e-14']
RUNS = {'quick': 5000, 'thorough': 600000}
BUDGET = {'quick': 60, 'thorough': 1200}
SHRINK_LISTS = ('items',)
RUN_LIMIT_S = 200
STATE_MEASURE = '(kind of search, direction, discrete, guess side, outcome)'
PROBES = ('inverse', 'inverse-discrete', 'increasing', 'infinite-upper', 'not-found',
          'failed-evaluation', 'below-float-spacing', 'guess-low', 'guess-high', 'calib-gauss',
          'calib-laplace', 'calib-dlaplace', 'calib-dgauss', 'calib-refused', 'advanced',
          'advanced-none', 'smallest', 'smallest-none', 'smallest-coarse')

prepare = acsim.prepare


def _inverse(rng):
  discrete = rng.random() < .3
  scale = rng.choice([1.0, 1.0, 10.0, 1e3, 1e6, 1e10, 1e13] if not discrete else
                     [10, 100, 10**4, 10**8])
  lo = rng.choice([0, 0, 1, -scale, scale / 3])
  hi = lo + scale * rng.choice([1, 1, 2, .5])
  inf = rng.random() < .25
  n = rng.choice([1, 1, 2, 4, 9])
  us = sorted(rng.choice([rng.random(), rng.random(), 0.0, 1.0, 1e-6, -.2, 1.2]) for _ in range(n))
  xs = [lo + (hi - lo) * u for u in us]
  if discrete:
    lo, hi, xs = int(lo), int(hi) + 1, [int(x) for x in xs]
  inc = rng.random() < .5
  xs = sorted(set(xs))
  # values from the first step on; the value before it comes first
  ys = sorted(rng.sample(range(-20, 20), len(xs) + 1), reverse=not inc)
  value = rng.choice(ys) + rng.choice([0, 0, .5, -.5])
  guess = None
  if inf or rng.random() < .5:
    x = rng.choice(xs)
    guess = rng.choice([max(x, 0) * rng.choice([.5, .9, 1, 1.1, 2]), lo + (hi - lo) * rng.random(),
                        1e-3 * scale])
    guess = max(guess, lo, 1e-9 * scale)
    if discrete:
      guess = max(1, int(guess))
    if not inf:
      guess = min(guess, hi)
    if guess <= lo or guess <= 0:
      guess = None
  if inf and guess is None:
    inf = False
  return {'k': 'inv', 'lo': lo, 'hi': 'inf' if inf else hi, 'guess': guess, 'inc': inc,
          'discrete': discrete, 'tol': rng.choice([1e-7, 1e-7, 1e-3, 1e-9, .5, 1e-12]),
          'value': value, 'xs': xs, 'ys': ys, 'fail': rng.choice([0, 0, 0, 1, 2, 3, 5, 9, 20])}


def generate(rng, tier):
  items = []
  for _ in range(rng.randint(2, 8)):
    r = rng.random()
    if r < .6:
      items.append(_inverse(rng))
    elif r < .8:
      kind = rng.choice(['gauss', 'gauss', 'laplace', 'dlaplace', 'dgauss'])
      s = rng.choice([1, 1, 2, 5, 20]) if kind[0] == 'd' else 1
      if kind == 'gauss':
        e = float('%.4g' % 10 ** rng.uniform(-12 if rng.random() < .3 else -3, 1.3))
        d = rng.choice([0, -.1, 1.5]) if rng.random() < .05 else float(
            '%.3g' % 10 ** rng.uniform(-14, -.5))
      else:
        e = float('%.4g' % 10 ** rng.uniform(-1, 1.3))
        d = rng.choice([0, 1.5]) if rng.random() < .05 else float('%.3g' % 10 ** rng.uniform(-10, -.5))
        if kind == 'dgauss':
          s = min(s, 5)
        e = max(e, .3)
      if rng.random() < .03:
        e = -e
      items.append({'k': 'calib', 'kind': kind, 'eps': e, 'delta': d, 's': s})
    elif r < .985 or tier == 'quick' and rng.random() < .7:
      items.append({'k': 'adv', 'eps': float('%.3g' % 10 ** rng.uniform(-3, 1)),
                    'delta': rng.choice([0, 0, 1e-9, 1e-6, 1e-4, .01]),
                    'n': rng.choice([1, 2, 3, 5, 10, 30, 61]),
                    'total': float('%.3g' % 10 ** rng.uniform(-9, -.1))})
    else:
      kind = rng.choice(['laplace', 'laplace', 'gauss'])
      q = rng.choice([1, 1, 2, 3])
      e = rng.choice([.3, 1, 2, 6, 10]) if kind == 'laplace' and q == 1 else rng.choice([.3, .5, 1])
      d = rng.choice([1e-6, 1e-4, 1e-3, .01, .1])
      up = -1 if kind == 'laplace' else rng.choice([-1, 4 * math.sqrt(2 * q * math.log(1.5 / d)) / e])
      items.append({'k': 'smallest', 'kind': kind, 'eps': e, 'delta': d, 'q': q,
                    's': rng.choice([1, 1, 2]), 'up': up, 'tol': rng.choice([1e-3, 1e-2])})
  return {'items': items, 'order': rng.choice([0, rng.randrange(1, 1 << 30)])}


def _line(it):
  if it['k'] == 'inv':
    steps = [(-1e300, it['ys'][0])] + list(zip(it['xs'], it['ys'][1:]))
    g = '-' if it['guess'] is None else repr(it['guess'])
    return (f"inv {it['lo']!r} {it['hi'] if it['hi'] == 'inf' else repr(it['hi'])} {g} "
            f"{it['tol']!r} {int(it['discrete'])} {int(it['inc'])} {it['value']!r} {it['fail']} " +
            ','.join(f'{x!r}:{y!r}' for x, y in steps))
  if it['k'] == 'calib':
    return f"calib {it['kind']} {it['eps']!r} {it['delta']!r} {it['s']}"
  if it['k'] == 'adv':
    return f"adv {it['eps']!r} {it['delta']!r} {it['n']} {it['total']!r}"
  return (f"smallest {it['kind']} {it['eps']!r} {it['delta']!r} {it['q']} {it['s']} {it['up']!r} "
          f"{it['tol']!r}")


def execute(case, cov):
  lines = [f"order {case['order']}"] + [_line(it) for it in case['items']]
  out, dead = acsim.run(lines, 100)
  for it, line, rep in zip(case['items'], lines[1:], out[1:]):
    cov.step()
    globals()['_check_' + it['k']](it, line, rep, cov)
  if dead:
    kind = ('no-progress' if (dead.how, dead.n) in (('exit', 9), ('signal', 14)) else 'crash')
    raise Violation(kind, f'{lines[dead.done]!r}: the process ended ({dead})')
  cov.trace(len(out), [repr(r.get('v', r.get('err'))) for r in out])


def _check_inv(it, line, rep, cov):
  lo, hi = it['lo'], math.inf if it['hi'] == 'inf' else it['hi']
  v, inc = it['value'], it['inc']
  cov.probe('inverse-discrete' if it['discrete'] else 'inverse')
  if inc:
    cov.probe('increasing')
  if hi == math.inf:
    cov.probe('infinite-upper')

  def f(x):
    y = it['ys'][0]
    for a, b in zip(it['xs'], it['ys'][1:]):
      if x >= a:
        y = b
    return y

  if it['fail'] and rep['calls'] >= it['fail']:
    cov.probe('failed-evaluation')
    cov.fault('failed evaluation')
    if rep.get('err') != 8:
      raise Violation('failure-hidden', f'{line!r}: evaluation {it["fail"]} failed, but the '
                      f'search gives {rep}')
    if rep['calls'] != it['fail']:
      raise Violation('failure-hidden', f'{line!r} evaluated on after a failure')
    return
  none = (f(lo) if inc else f(hi)) > v if (inc or hi != math.inf) else False
  if not inc and hi == math.inf and it['ys'][-1] > v:
    if 'err' not in rep and rep['v'] != 'inf' and f(float(rep['v'])) > v:
      raise Violation('unsound', f'{line!r} gives {rep}')
    return
  cov.state((inc, it['discrete'], none, it['guess'] is None or it['guess'] < it['xs'][0]))
  if none:
    cov.probe('not-found')
    if rep.get('err') != 5:
      raise Violation('found', f'{line!r}: no point of the range is allowed, but it gives {rep}')
    return
  if 'v' not in rep:
    raise Violation('not-found', f'{line!r}: points are allowed, but it gives {rep}')
  x = float(rep['v'])
  cov.nontrivial = True
  if it['guess'] is not None:
    cov.probe('guess-low' if it['guess'] < x else 'guess-high')
  if not lo <= x <= hi and not (inc and hi == math.inf):
    raise Violation('range', f'{line!r} gives {x!r}')
  if f(x) > v:
    raise Violation('unsound', f'{line!r} gives {x!r}, whose value is {f(x)}')
  if inc and hi == math.inf and it['ys'][-1] <= v:
    return  # every large point is allowed
  if math.isinf(x):
    raise Violation('range', f'{line!r} gives {x!r}')
  # the bound itself is never evaluated on that side
  tol = 1 if it['discrete'] else it['tol']
  spacing = 2 * math.ulp(x)
  if spacing > tol:
    cov.probe('below-float-spacing')
  step = max(tol * (1 + 1e-9), spacing)
  y = x + step if inc else x - step
  if (y < hi if inc else y > lo) and f(y) <= v:
    raise Violation('not-tight', f'{line!r} gives {x!r}, but {y!r} is allowed too')


def _check_calib(it, line, rep, cov):
  e, d, kind, s = it['eps'], it['delta'], it['kind'], it['s']
  cov.probe('calib-' + kind)
  bad = e < 0 or not 0 <= d <= 1 or (d == 0 and kind in ('gauss', 'dgauss'))
  if bad:
    cov.probe('calib-refused')
    if rep.get('err') != 3:
      raise Violation('accepted', f'{line!r} gives {rep}')
    return
  if 'v' not in rep:
    raise Violation('refused', f'{line!r} gives {rep}')
  a = float(rep['v'])
  cov.nontrivial = True
  base = {'gauss': ['gauss', a, s, -50], 'laplace': ['laplace', a, s],
          'dlaplace': ['dlaplace', a, s], 'dgauss': ['dgauss', a, s, 0]}[kind]
  got = acref.truth(base, e)
  if kind in ('gauss', 'dgauss'):
    if not got <= d * (1 + 1e-6) + 4e-16 * (1 + math.exp(e) * 1e-3):
      raise Violation('budget', f'{line!r} gives {a!r}, whose delta is {got!r}')
    less = a - max(2.1e-7, 4 * math.ulp(a))
    if less > 0:
      base[1] = less
      if acref.truth(base, e) < d * (1 - 1e-6) - 1e-15:
        raise Violation('not-tight', f'{line!r} gives {a!r}, but {less!r} has delta '
                        f'{acref.truth(base, e)!r}')
  else:
    if got > 1e-12:
      raise Violation('budget', f'{line!r} gives {a!r}, whose delta is {got!r}')
    if acref.truth(base, e * (1 - 1e-6)) <= 0:
      raise Violation('not-tight', f'{line!r} gives {a!r}: more noise than needed')


def _rr_delta(eps, k, want):
  """Hockey stick divergence of k binary randomised responses, in logarithms."""
  lp, lq = -math.log1p(math.exp(-eps)), -math.log1p(math.exp(eps))
  t = 0.0
  for i in range(k + 1):
    loss = (k - 2 * i) * eps
    if loss > want:
      c = math.lgamma(k + 1) - math.lgamma(i + 1) - math.lgamma(k - i + 1)
      t += math.exp(c + (k - i) * lp + i * lq) * -math.expm1(want - loss)
  return t


def _check_adv(it, line, rep, cov):
  e, d, k, total = it['eps'], it['delta'], it['n'], it['total']
  cov.probe('advanced')

  def delta(i):
    return 1 - (1 - d)**k * (1 - _rr_delta(e, k, e * (k - 2 * i)))

  slack = 1e-9 * total + 1e-13
  if 'v' not in rep:
    cov.probe('advanced-none')
    if rep.get('err') != 5 or delta(0) < total - slack:
      raise Violation('not-found', f'{line!r} gives {rep}, but epsilon {e * k!r} is possible with '
                      f'delta {delta(0)!r}')
    return
  cov.nontrivial = True
  got = float(rep['v'])
  i = round((k - got / e) / 2)
  if abs(got - e * (k - 2 * i)) > 1e-9 * e * k or not 0 <= i <= k // 2:
    raise Violation('budget', f'{line!r} gives {got!r}')
  if delta(i) > total + slack:
    raise Violation('budget', f'{line!r} gives {got!r}, whose delta is {delta(i)!r}')
  if i < k // 2 and delta(i + 1) < total - slack:
    raise Violation('not-tight', f'{line!r} gives {got!r}, but {e * (k - 2 * i - 2)!r} has delta '
                    f'{delta(i + 1)!r}')


def _composed(kind, a, s, q, eps, est):
  """Bounds of the true delta of q compositions."""
  if kind == 'gauss':
    return acref.truth(['gauss', a, s * math.sqrt(q), -50], eps)
  if q == 1:
    return acref.truth([kind, a, s], eps)
  # the losses of one Laplace release on a coarse grid
  h = 2 * s / a / 4000
  lo = -2000
  edge = np.arange(lo, 2001) * h
  sf = np.array([_laplace_sf(a, s, x) for x in edge])
  up = np.concatenate([sf[:-1] - sf[1:], [sf[-1]]])   # mass in (edge_k, edge_k+1]
  m = np.zeros(len(edge))
  if est == 'o':
    m[:] = up
    m[0] += 1 - sf[0]
  else:
    m[1:] = up[:-1]
    m[-1] += up[-1]
    m[0] += 1 - sf[0]
  d = acref.Dist(h, est == 'p', 0.0, lo, m).power(q)
  return d.delta(eps)


def _laplace_sf(a, s, x):
  """P(loss > x) of a Laplace release."""
  top = s / a
  if x >= top:
    return 0.0
  if x < -top:
    return 1.0
  # loss > x iff noise < (s - x a) / 2
  y = (s - x * a) / 2
  return 1 - .5 * math.exp(-y / a) if y >= 0 else .5 * math.exp(y / a)


def _check_smallest(it, line, rep, cov):
  e, d, q, s, kind = it['eps'], it['delta'], it['q'], it['s'], it['kind']
  cov.probe('smallest')
  if e * 1.0 >= 6:
    cov.probe('smallest-coarse')
  top = it['up'] if it['up'] > 0 else 2 * q * s / e
  h = 5e-5
  if 'v' not in rep:
    cov.probe('smallest-none')
    if rep.get('err') != 5 or _composed(kind, top, s, q, e - q * h * 1.01, 'p') + .03 * d < d * (1 - 1e-6):
      raise Violation('not-found', f'{line!r} gives {rep}, but {top} would do')
    return
  cov.nontrivial = True
  a = float(rep['v'])
  got = _composed(kind, a, s, q, e, 'o')
  if got > d * (1 + 1e-9) + 1e-12:
    raise Violation('budget', f'{line!r} gives {a!r}, whose delta is at least {got!r}')
  less = a - 1.01 * it['tol']
  if less > 0:
    low = _composed(kind, less, s, q, e - q * h * 1.01, 'p')
    if low + .03 * d < d * (1 - 1e-6) - 1e-12:
      raise Violation('not-tight', f'{line!r} gives {a!r}, but {less!r} has delta at most {low!r}')
