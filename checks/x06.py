"""X06: C++ noise follows the law of its parameters and hides the input's bits."""
import math

from sim import ccsim
from sim.core import Violation
from checks import x03

ID = 'X06'
RULE = ('a mechanism built from the parameters (also cloned, or serialised and restored) '
        'noised one value up to thousands of times on simulated entropy; the sample, the '
        'grid it lies on, and the reported distribution were checked')
REAL = ['cc/algorithms/numerical-mechanisms.{h,cc}', 'cc/algorithms/distributions.{h,cc}',
        'cc/algorithms/rand.{h,cc}', 'cc/algorithms/internal/gaussian-stddev-calculator',
        'cc/algorithms/util.{h,cc}', 'third_party/cephes']
STUB = ['RAND_bytes (seeded words)', 'absl::Mutex (simulated)', 'absl logging']
ASSUMPTIONS = ['the statistic thresholds are those of a false alarm in 1e10',
               'integer noise stays inside int64']
RUNS = {'quick': 6000, 'thorough': 400000}
BUDGET = {'quick': 75, 'thorough': 1500}
DOUBLE_EVERY = 40
STATE_MEASURE = 'distinct (mechanism, parameters, value)'
PROBES = ['laplace', 'gauss', 'min', 'integer', 'double', 'refused', 'serialised', 'cloned',
          'coarse-grid', 'large-value', 'many', 'stddev', 'tiny-epsilon', 'large-epsilon',
          'l0-linf', 'one-norm', 'tail']

prepare = ccsim.prepare
PS = ['1e-300', '1e-12', '0.001', '0.25', '0.5', '0.75', '0.999', '0.9999999']
LEVELS = ['0.001', '0.5', '0.95', '0.999999']


def generate(rng, tier):
  kind = rng.choice(['laplace', 'laplace', 'gauss', 'gauss', 'min'])
  kv = {}
  if kind == 'gauss' and rng.random() < .12:
    kv['stddev'] = rng.choice([1e-8, 1e-3, .5, 1, 17.3, 1e6, 1e12])
  else:
    kv['eps'] = rng.choice([1e-9, 1e-4, .01, .1, .5, 1, math.log(3), 2, 5, 20, 60, 300,
                            rng.uniform(.01, 5)])
    if kind != 'laplace':
      kv['delta'] = rng.choice([1e-12, 1e-9, 1e-5, .01, .3, .7, .99])
    if kind != 'min' and rng.random() < .4:
      kv['l1' if kind == 'laplace' else 'l2'] = rng.choice([1e-9, .5, 1, 3, 1000, 1e13])
    else:
      kv['l0'] = rng.choice([1, 1, 2, 5, 100, .5])
      kv['linf'] = rng.choice([1, 1, 2, .25, 1e-6, 1000, 1e9])
  integer = rng.random() < .4
  if integer:
    x = rng.choice([0, 1, -7, 12345, -(1 << 40), 1 << 52, rng.getrandbits(50)])
  else:
    x = rng.choice([0.0, 1.0, -3.25, .1, 1 / 3, -1e6 / 7, 1e-9, math.pi * 1e9,
                    rng.uniform(-100, 100)])
  bad = None
  if rng.random() < .05:
    bad = rng.choice([k for k in kv if kind != 'min' or k != 'delta'])
    kv[bad] = rng.choice(['0', '-1', 'nan', 'inf', '-inf', '-0.0', '1e-320' if bad == 'eps'
                          else '0'])
    if kv[bad] == '1e-320' and kind != 'laplace':
      kv[bad] = '0'
    if bad in ('delta',):
      kv[bad] = rng.choice(['-1', '-1e-9', 'nan', '1.5', 'inf'])
    if bad == 'stddev':
      kv[bad] = rng.choice(['-1', 'nan', 'inf'])
    elif kind == 'gauss' and rng.random() < .2:
      bad = 'stddev'
      kv = {'eps': 1.0, 'delta': 1e-5, 'l2': 1.0, 'stddev': 2.0}   # both ways at once
  case = {'kind': kind, 'kv': kv, 'int': integer, 'x': x, 'n': rng.choice([60, 1500, 1500, 8000]),
          'seed': rng.randrange(1, 1 << 40), 'how': rng.choice(['', '', 'ser=1', 'clone=1'])}
  if bad:
    case['bad'] = bad
  if kv.get('stddev') and case['how'] == 'ser=1':
    case['how'] = ''
  return case


def _f(x):
  return float(x)


def _next_power(x):
  return 2.0 ** math.ceil(math.log2(x)) if x > 0 else 0.0


def _phi(z):
  return .5 * math.erfc(-z / math.sqrt(2))


class Law:
  """The distribution that the parameters prescribe."""

  def __init__(self, laplace, scale):
    self.laplace, self.scale = laplace, scale

  def cdf(self, x):
    z = x / self.scale
    if not self.laplace:
      return _phi(z)
    if z > 0:
      return 1 - .5 * math.exp(-min(z, 750))
    return .5 * math.exp(max(z, -750))


def execute(case, cov):
  kv, kind, n = case['kv'], case['kind'], case['n']
  x = case['x']
  what = f'{kind} noise with {kv} on {x!r}{" (integer)" if case["int"] else ""} {case["how"]}'
  build = f'rand-noise noise={kind} ' + ' '.join(f'{k}={v}' if isinstance(v, str) else f'{k}={v!r}' for k, v in kv.items())
  common = f' x={x!r} int={int(case["int"])} {case["how"]}'
  if 'l1' in kv or 'l2' in kv:
    cov.probe('one-norm')
  elif 'l0' in kv:
    cov.probe('l0-linf')
  # Ask for the reported distribution at points of the law itself.
  head, dead = ccsim.run([f'entropy seed={case["seed"]}', build + common + ' n=0'], 30)
  if dead:
    raise Violation('crash', f'{what}: the process ended ({dead})')
  if case.get('bad'):
    cov.trace(head[1])
    cov.fault('invalid parameter')
    cov.nontrivial = True
    if 'err' not in head[1]:
      raise Violation('accepted', f'{what}: a mechanism with an impossible {case["bad"]} '
                      f'was built, of variance {head[1]["var"]}')
    cov.probe('refused')
    return
  if 'err' in head[1]:
    cov.probe('refused')
    if _plain(kv):
      raise Violation('refused', f'{what}: {head[1]["err"]}')
    return
  laplace = bool(head[1]['laplace'])
  var = _f(head[1]['var'])
  if laplace:
    l1 = kv.get('l1') or kv['l0'] * kv['linf']
    b = l1 / kv['eps']
    if not math.isclose(var, 2 * b * b, rel_tol=1e-9):
      raise Violation('variance', f'{what}: reported {var!r}, the law has {2 * b * b!r}')
    law = Law(True, b)
    grid = _next_power(b / 2 ** 40)
    drawn = Law(True, (l1 + grid) / kv['eps'])
  else:
    sigma = math.sqrt(var)
    if 'stddev' in kv:
      cov.probe('stddev')
      if not math.isclose(sigma, kv['stddev'], rel_tol=1e-9):
        raise Violation('variance', f'{what}: reported a deviation of {sigma!r}')
    else:
      l2 = kv.get('l2') or math.sqrt(kv['l0']) * kv['linf']
      d = x03.gauss_delta(l2, kv['eps'], sigma)
      if d > kv['delta'] * (1 + 1e-6) + 1e-15:
        raise Violation('scale', f'{what}: sigma {sigma!r} costs delta {d!r}')
      lo = x03.gauss_delta(l2, kv['eps'], sigma * .99)
      if lo < kv['delta'] * (1 - 1e-9) and sigma > 1e-3 * l2:
        raise Violation('scale', f'{what}: sigma {sigma!r} is more than 1% too large')
    law = drawn = Law(False, sigma)
    grid = _next_power(2 * sigma / 2 ** 57)
  if kind == 'min':
    cov.probe('min')
    s_l1 = kv['l0'] * kv['linf']
    lap = 2 * (s_l1 / kv['eps']) ** 2
    if var > lap * (1 + 1e-9):
      raise Violation('variance', f'{what}: {var!r} was chosen, Laplace has {lap!r}')
  cov.probe('laplace' if laplace else 'gauss')
  pts = [law.scale * z for z in (-30, -3, -1, -.1, 0, .1, 1, 3, 30)]
  lines = [f'entropy seed={case["seed"]}',
           build + common + f' n={n} at={",".join(map(repr, pts))} ps={",".join(PS)} '
           f'levels={",".join(LEVELS)}']
  out, dead = ccsim.run(lines, 60)
  if dead:
    raise Violation('crash', f'{what}: the process ended ({dead})')
  rep = out[1]
  vals = rep['v'] if case['int'] else [_f(v) for v in rep['v']]
  cov.trace(vals[:50], rep['cdf'], rep['q'], rep['ci'])
  cov.step(n)
  cov.state((kind, sorted(kv.items()), x))
  cov.probe('integer' if case['int'] else 'double')
  if case['how']:
    cov.probe('serialised' if case['how'] == 'ser=1' else 'cloned')
  if kv.get('eps', 1) < 1e-3:
    cov.probe('tiny-epsilon')
  if kv.get('eps', 1) > 50:
    cov.probe('large-epsilon')
  # Reported distribution.
  for p, got in zip(pts, rep['cdf']):
    if abs(_f(got) - law.cdf(p)) > 1e-12:
      raise Violation('cdf', f'{what}: P(noise <= {p!r}) is reported as {got!r}, the law '
                      f'has {law.cdf(p)!r}')
  for p, got in zip(PS, rep['q']):
    back = law.cdf(_f(got))
    if abs(back - float(p)) > 1e-7 * min(float(p), 1 - float(p)) + 1e-15:
      raise Violation('quantile', f'{what}: the {p} quantile is reported as {got!r}, where '
                      f'the law has {back!r}')
  for level, ci in zip(LEVELS, rep['ci']):
    if ci is None:
      raise Violation('interval', f'{what}: no interval for {level}')
    lo, hi, conf = map(_f, ci)
    inside = law.cdf(hi - x) - law.cdf(lo - x)
    slack = 1e-3 * (1 - float(level)) * float(level) + 1e-9
    if law.scale > 1e-9 * abs(x) and abs(inside - float(level)) > slack + 1e-3 * min(
        1, abs(x) * 1e-13 / law.scale):
      raise Violation('interval', f'{what}: [{lo!r}, {hi!r}] holds {inside!r} of the noise, '
                      f'not {level}')
    if conf != float(level):
      raise Violation('interval', f'{what}: level {conf!r} reported for {level}')
  # The sample.
  if case['int']:
    noise = [v - x for v in vals]
    limit = 2.0 ** 62
    if drawn.scale * 60 > limit:
      return
    step = max(grid, 1.0)
    ident = int(step)
    if ident > 1:
      cov.probe('coarse-grid')
      bad = [v for v in vals if v % ident]
      if bad:
        raise Violation('grid', f'{what}: {bad[0]} is off the grid of {ident}')
      noise = [v - _round_to(x, ident) for v in vals]
  else:
    base = x
    step = grid
    big = abs(x) > 2.0 ** 52 * grid
    if big:
      cov.probe('large-value')
    ratio = x / grid
    if abs(ratio) < 2.0 ** 62:
      base = math.floor(ratio + .5) * grid
    for v in vals:
      if math.isfinite(v) and grid > 5e-324 and v / grid != math.floor(v / grid):
        raise Violation('grid', f'{what}: {v!r} is off the grid of {grid!r}; it still '
                        f'carries low bits of the input')
    noise = [v - base for v in vals]
    step = max(grid, 2.0 ** -50 * abs(x))
  cov.nontrivial = True
  if n >= 1000:
    cov.probe('many')
  if case['int'] and step == 1.0:
    _sample(what, sorted(noise), drawn, grid, .5)
  else:
    _sample(what, sorted(noise), drawn, step, 0.0)
  if max(map(abs, noise)) > 6 * drawn.scale:
    cov.probe('tail')
  if step < drawn.scale * 1e-6:
    if len(set(noise)) < len(noise) - 2 - len(noise) ** 2 * 1e-6:
      raise Violation('repeated', f'{what}: {len(set(noise))} values in {len(noise)} draws')
  if drawn.scale > step:
    u = [drawn.cdf(v) - .5 for v in noise]
    m = len(u)
    r = sum(a * c for a, c in zip(u, u[1:])) * 12 / math.sqrt(m)
    if m > 50 and abs(r) > 7.5 + 3 * math.sqrt(m) * (step / drawn.scale) ** 2:
      raise Violation('dependent', f'{what}: neighbouring draws correlate ({r:.1f} deviations)')


def _round_to(x, ident):
  q, r = divmod(x, ident)
  return q * ident + (ident if 2 * r >= ident else 0)


def _plain(kv):
  """Parameters that every mechanism must accept."""
  return kv.get('eps', 1) >= 1e-4 and kv.get('delta', 1e-9) < 1


def _sample(what, noise, law, step, half):
  """Kolmogorov-Smirnov, allowing for a grid of `step` and rounding by `half`."""
  n = len(noise)
  worst, where = 0.0, None
  i = 0
  while i < n:
    j = i
    while j < n and noise[j] == noise[i]:
      j += 1
    v = noise[i]
    below = i / n - law.cdf(v - half + step)       # too many strictly below v
    above = law.cdf(v + half - step) - j / n       # too few up to v
    for d in (below, above):
      if d > worst:
        worst, where = d, v
    i = j
  if worst * math.sqrt(n) > 3.6:
    raise Violation('law', f'{what}: {n} draws differ from the law at {where!r} by {worst:.4f}')
