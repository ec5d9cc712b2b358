"""G06: Go noise follows the law of its parameters and hides the input's bits."""
import math

from sim import gosim
from sim.core import Violation
from checks import x03
from checks import x06

ID = 'G06'
RULE = ('the noise mechanism noised one value up to thousands of times on a simulated random '
        'source that answers short; the sample, its grid, the intervals and the thresholds '
        'were checked against the law of the parameters')
REAL = ['go/noise', 'go/rand', 'go/checks']
STUB = ['crypto/rand.Reader (seeded bytes)', 'sync (simulated)', 'gonum distuv']
ASSUMPTIONS = ['the statistic thresholds are those of a false alarm in 1e10',
               'integer noise stays inside int64']
RUNS = {'quick': 3000, 'thorough': 250000}
BUDGET = {'quick': 75, 'thorough': 1500}
DOUBLE_EVERY = 40
STATE_MEASURE = 'distinct (mechanism, parameters, value)'
PROBES = ['laplace', 'gauss', 'integer', 'double', 'refused', 'coarse-grid', 'large-value',
          'many', 'tail', 'tiny-epsilon', 'large-epsilon', 'threshold', 'delta', 'interval',
          'integer-grid']

prepare = gosim.prepare


def generate(rng, tier):
  g = rng.random() < .5
  case = {'noise': 'g' if g else 'l',
          'eps': rng.choice([1e-5, 1e-4, .01, .1, .5, 1, math.log(3), 2, 5, 20, 60, 300,
                             rng.uniform(.01, 5), rng.uniform(.01, 5)]),
          'delta': rng.choice([1e-12, 1e-9, 1e-5, .01, .3, .7, .99]) if g else 0.0,
          'l0': rng.choice([1, 1, 2, 5, 100, 12345]),
          'seed': rng.randrange(1, 1 << 40),
          'n': rng.choice([60, 1500, 1500, 5000]),
          'int': rng.random() < .4}
  if case['int']:
    case['linf'] = rng.choice([1, 1, 2, 10, 1000, 1 << 30, 1 << 38,
                               1 << (rng.randrange(44, 58) if g else 45),
                               1 << (rng.randrange(53, 58) if g else 38)])
    case['x'] = rng.choice([0, 1, -7, 12345, -(1 << 40), 1 << 52, -(1 << 58) + 1,
                            rng.getrandbits(50), -rng.getrandbits(56)])
  else:
    case['linf'] = rng.choice([1.0, 1.0, 2.0, .25, 1e-6, 1000.0, 1e9, 1e15])
    case['x'] = rng.choice([0.0, 1.0, -3.25, .1, 1 / 3, -1e6 / 7, 1e-9, math.pi * 1e9,
                            rng.uniform(-100, 100), rng.uniform(-1e15, 1e15)])
  case['alphas'] = [rng.choice([1e-9, 1e-3, .05, .5, .9, .999]) for _ in range(3)]
  case['thr'] = [rng.choice([1e-11, 1e-8, 1e-5, .01, .3, .6, .95, .999]) for _ in range(3)]
  case['inv'] = [rng.choice([-40, -3, -1, -.2, 0, .3, 1, 2, 5, 12, 24]) for _ in range(3)]
  case['reads'] = [{'n': rng.choice([1, 2, 3, 7, 8, 100, 4095, 0, 0])}
                   for _ in range(rng.choice([0, 0, 5, 60]))]
  if rng.random() < .08:
    k = rng.choice(['eps', 'l0', 'linf', 'delta', 'alpha', 'thr'])
    case['bad'] = k
    case['n'] = 3
    if k == 'eps':
      case[k] = rng.choice(['0', '-1', 'NaN', '+Inf', '-Inf', '1e-16', '-0'])
    elif k == 'l0':
      case[k] = rng.choice([0, -1, -(1 << 62)])
    elif k == 'linf':
      case[k] = rng.choice([0, -1, -5]) if case['int'] else rng.choice(
          ['0', '-1', 'NaN', '+Inf', '-Inf', '-0'])
    elif k == 'delta':
      case[k] = rng.choice(['-1', '-1e-300', '1', '1.5', 'NaN', '+Inf', '0'] if g else
                           ['1e-300', '.5', '-1', 'NaN', '+Inf', '1'])
    elif k == 'alpha':
      case['alphas'] = [rng.choice(['0', '1', '-.5', '1.5', 'NaN', '+Inf'])]
    else:
      case['thr'] = [rng.choice(['0', '1', '-1', '2', 'NaN', '+Inf',
                                 repr(1.0 - case['delta'] / 2) if case['delta'] else '-0'])]
  return case


def _s(x):
  return x if isinstance(x, str) else repr(x)


def execute(case, cov):
  laplace = case['noise'] == 'l'
  x, n, l0 = case['x'], case['n'], case['l0']
  what = (f'{"Laplace" if laplace else "Gaussian"} noise eps={case["eps"]} '
          f'delta={case["delta"]} l0={l0} linf={case["linf"]} on {x!r}'
          f'{" (integer)" if case["int"] else ""}')
  bad = case.get('bad')
  if not bad:
    eps, linf, delta = case['eps'], float(case['linf']), case['delta']
    l1 = l0 * linf
    inv = [linf + c * l1 / eps for c in case['inv']]
  else:
    inv = [1.0]
  req = {'cmd': 'law', 'noise': case['noise'], 'int': case['int'], 'x': _s(x), 'l0': l0,
         'linf': _s(case['linf']), 'eps': _s(case['eps']), 'delta': _s(case['delta']),
         'n': n, 'seed': case['seed'], 'alphas': [_s(a) for a in case['alphas']],
         'thr': [_s(t) for t in case['thr']], 'inv': [_s(t) for t in inv],
         'reads': case['reads']}
  try:
    rep = gosim.call(req, 60)
  except gosim.Crash as e:
    raise Violation('crash', f'{what}: {e}')
  for key in ('panic', 'exit', 'stuck'):
    if rep.get(key):
      raise Violation(key, f'{what}: {rep[key]}')
  for k, c in (rep.get('faults') or {}).items():
    cov.fault(k, c)
  errs = rep['errs']
  cov.trace(rep['vals'][:50], rep['ci'], rep['thr'], rep['inv'], sorted(errs.items()),
            rep.get('sigma'))
  cov.step(n + len(inv) + len(case['thr']) + len(case['alphas']))
  if bad:
    cov.fault('invalid parameter')
    cov.nontrivial = True
    where = {'alpha': ['ci0'], 'thr': ['thr0']}.get(bad, ['noise', 'ci0', 'thr0', 'inv0'])
    if not (laplace and case['int'] and bad == 'l0'):
      cov.probe('refused')
    for w in where:
      if w not in errs:
        raise Violation('accepted', f'{what}: {w} works with an invalid {bad} '
                        f'({case["alphas"] if bad == "alpha" else case["thr"]})')
    return
  cov.state((laplace, case['eps'], delta, l0, linf, x))
  thr = [t for t in case['thr'] if t + delta < 1]
  for k, t in enumerate(case['thr']):
    if (f'thr{k}' in errs) != (t + delta >= 1):
      raise Violation('threshold', f'{what}: threshold for {t}: {errs.get(f"thr{k}")}')
    errs.pop(f'thr{k}', None)
  if errs:
    raise Violation('refused', f'{what}: {errs}')
  if laplace:
    b = l1 / eps
    law = x06.Law(True, b)
    grid = x06._next_power(b / 2 ** 40)
    drawn = x06.Law(True, (l1 + grid) / eps)
  else:
    sigma = float(rep['sigma'])
    l2 = math.sqrt(l0) * linf
    d = x03.gauss_delta(l2, eps, sigma)
    if d > delta * (1 + 1e-6) + 1e-15:
      raise Violation('scale', f'{what}: sigma {sigma!r} costs delta {d!r}')
    lo = x03.gauss_delta(l2, eps, sigma * .99)
    if lo < delta * (1 - 1e-9) and delta > 1e-11:
      raise Violation('scale', f'{what}: sigma {sigma!r} is more than 1% too large')
    law = drawn = x06.Law(False, sigma)
    grid = x06._next_power(2 * sigma / 2 ** 57)
  cov.probe('laplace' if laplace else 'gauss')
  cov.probe('integer' if case['int'] else 'double')
  if eps < 1e-3:
    cov.probe('tiny-epsilon')
  if eps > 50:
    cov.probe('large-epsilon')
  # Noise wider than its support is not asked of int64.
  fits = not case['int'] or drawn.scale * (60 if laplace else 12) < 2.0 ** 62 - abs(x)
  # Intervals.
  for a, (lo, hi) in zip(case['alphas'], rep['ci']):
    if not fits:
      break
    cov.probe('interval')
    lo, hi = float(lo), float(hi)
    if case['int']:
      wide = 1.5 + math.ulp(float(abs(x)) + max(abs(hi), abs(lo)))
      hi, lo = float(int(hi) - x), float(int(lo) - x)
      inside = law.cdf(hi + .5) - law.cdf(lo - .5)
      if inside < (1 - a) - 1e-9 * (1 - a) - 1e-15 - a * 1e-6:
        raise Violation('interval', f'{what}: x + [{lo!r}, {hi!r}] holds {inside!r} of the '
                        f'noise, less than {1 - a!r}')
      inner = law.cdf(hi - wide) - law.cdf(lo + wide)
      if inner > (1 - a) + 1e-9:
        raise Violation('interval', f'{what}: x + [{lo!r}, {hi!r}] holds {inner!r} of the '
                        f'noise even when narrowed, more than {1 - a!r}')
    elif law.scale > 1e-9 * abs(x):
      out = law.cdf(lo - x) + 1 - law.cdf(hi - x)
      if abs(out - a) > 1e-6 * a + 1e-12 + 1e-3 * min(1, abs(x) * 1e-13 / law.scale):
        raise Violation('interval', f'{what}: [{lo!r}, {hi!r}] misses {out!r} of the '
                        f'noise, not {a!r}')
  # Thresholds: none of the l0 partitions of one unit may survive too often.
  for t, got in zip(case['thr'], rep['thr']):
    if t + delta >= 1:
      continue
    cov.probe('threshold')
    k = float(got)
    up = _survive(law, k - linf, l0)
    if up > t * (1 + 1e-6) + (0 if laplace else 3e-16 * l0):
      raise Violation('threshold', f'{what}: with threshold {k!r} a unit shows up with '
                      f'probability {up!r}, more than {t!r}')
    near = 1e-3 * abs(k - linf) + 1e-3 * law.scale
    if laplace or t > 1e-9 and t / l0 > 1e-11:
      if _survive(law, k - near - linf, l0) < t * (1 - 1e-9):
        raise Violation('threshold', f'{what}: threshold {k!r} for {t!r} is not the smallest')
  for t, got in zip(inv, rep['inv']):
    cov.probe('delta')
    want = _survive(law, t - linf, l0)
    got = float(got)
    if abs(got - want) > 1e-6 * want + (1e-14 if laplace else 3e-16) * l0 + 1e-15 + 1e-11 * (
        want > .5):
      raise Violation('delta', f'{what}: threshold {t!r} is said to cost {got!r}, it costs '
                      f'{want!r}')
  vals = [int(v) for v in rep['vals']] if case['int'] else [float(v) for v in rep['vals']]
  if len(vals) != n:
    raise Violation('refused', f'{what}: {len(vals)} of {n} values')
  _check(what, case, x, vals, drawn, grid, fits, cov)


def _survive(law, k, l0):
  """P(at least one of l0 noises is at least k)."""
  if law.laplace:
    z = k / law.scale
    p = .5 * math.exp(-min(z, 740)) if z > 0 else 1 - .5 * math.exp(max(z, -740))
  else:
    p = .5 * math.erfc(k / law.scale / math.sqrt(2))
  if p >= 1:
    return 1.0
  return -math.expm1(l0 * math.log1p(-p))


def _check(what, case, x, vals, drawn, grid, fits, cov):
  if case['int']:
    if not fits:
      return
    step = max(grid, 1.0)
    ident = int(step)
    base = x
    if ident > 1:
      cov.probe('coarse-grid')
      bad = [v for v in vals if v % ident]
      if bad:
        raise Violation('grid', f'{what}: {bad[0]} is off the grid of {ident}')
      base = x06._round_to(x, ident)
    else:
      cov.probe('integer-grid')
  else:
    base, step = x, grid
    if abs(x) > 2.0 ** 52 * grid:
      cov.probe('large-value')
    ratio = x / grid
    if abs(ratio) < 2.0 ** 62:
      base = math.floor(ratio + .5) * grid
    for v in vals:
      if math.isfinite(v) and grid > 5e-324 and v / grid != math.floor(v / grid):
        raise Violation('grid', f'{what}: {v!r} is off the grid of {grid!r}; it still '
                        f'carries low bits of the input')
    step = max(grid, 2.0 ** -50 * abs(x))
  noise = [v - base for v in vals]
  n = len(noise)
  cov.nontrivial = True
  if n >= 1000:
    cov.probe('many')
  half = .5 if case['int'] and step == 1.0 else 0.0
  x06._sample(what, sorted(noise), drawn, grid if half else step, half)
  if max(map(abs, noise)) > 6 * drawn.scale:
    cov.probe('tail')
  if step < drawn.scale * 1e-6:
    if len(set(noise)) < n - 2 - n ** 2 * 1e-6:
      raise Violation('repeated', f'{what}: {len(set(noise))} values in {n} draws')
  if drawn.scale > step:
    u = [drawn.cdf(v) - .5 for v in noise]
    r = sum(a * c for a, c in zip(u, u[1:])) * 12 / math.sqrt(n)
    if n > 50 and abs(r) > 7.5 + 3 * math.sqrt(n) * (step / drawn.scale) ** 2:
      raise Violation('dependent', f'{what}: neighbouring draws correlate ({r:.1f} deviations)')
