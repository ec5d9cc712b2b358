"""J04: Java noise follows the law of its parameters and hides the input's bits."""
import math

from scipy import stats

from sim import intervals
from sim import jvagg
from sim import jvsim
from sim.core import Violation
from checks import x03
from checks import x06

ID = 'J04'
RULE = ('a mechanism noised one value up to thousands of times on simulated entropy: the '
        'sample, the grid it lies on, its intervals, quantiles and scale were checked; or a '
        'statistic was released with an interval hundreds of times; or its entropy failed')
REAL = ['java/main/com/google/privacy/differentialprivacy (LaplaceNoise, GaussianNoise, '
        'DiscreteLaplaceNoise, SamplingUtil, SecureNoiseMath, DpPreconditions; Count, '
        'BoundedSum, LongBoundedSum, BoundedMean for their intervals)', 'java.util.Random']
STUB = ['SecureRandom (simulated provider, seeded words and failures)',
        'commons-math3 (error function, normal distribution)',
        'the protocol buffer runtime, AutoValue']
ASSUMPTIONS = ['the statistic thresholds are those of a false alarm in 1e10',
               'integer noise stays inside 64 bits']
RUNS = {'quick': 4000, 'thorough': 300000}
BUDGET = {'quick': 60, 'thorough': 1500}
DOUBLE_EVERY = 40
STATE_MEASURE = 'distinct (mechanism, parameters, value)'
PROBES = ['l', 'g', 'd', 'integer', 'double', 'refused', 'invalid', 'coarse-grid',
          'large-value', 'many', 'rho', 'norm', 'tiny-epsilon', 'large-epsilon', 'tail',
          'entropy-failed', 'interval', 'quantile', 'coverage', 'asked-interval',
          'bad-alpha', 'bad-rank']

prepare = jvsim.prepare
RANKS = ['1e-12', '0.001', '0.25', '0.5', '0.75', '0.999', '0.9999999']
ALPHAS = ['1e-10', '0.001', '0.05', '0.5', '0.9']
BAD = ['0', '-1', 'nan', '1', '2']


def generate(rng, tier):
  if rng.random() < .08:
    return _generate_cover(rng)
  if rng.random() < .2:
    return _generate_interval(rng)
  mech = rng.choice('lllggggd')
  integer = mech == 'd' or rng.random() < .45
  api = 'noise'
  if rng.random() < .35:
    api = {'l': 'l1', 'd': 'l1', 'g': rng.choice(['rho', 'rho', 'l2'])}[mech]
    if api == 'l2' and integer:
      api = 'noise'
  eps = rng.choice([1e-9, 1e-4, .01, .1, .5, 1, math.log(3), 2, 5, 20, 60, 300,
                    rng.uniform(.01, 5)])
  delta = rng.choice([1e-12, 1e-9, 1e-5, .01, .3, .7, .99]) if mech == 'g' else 0.0
  q = {'mech': mech, 'int': integer, 'api': api, 'eps': repr(float(eps)),
       'delta': repr(delta), 'l0': rng.choice([1, 1, 2, 5, 100, 2**20])}
  norms = [1, 1, 2, 3, 1000, 10**9, 10**13] if integer else [
      1e-9, .25, .5, 1, 1, 3, 1000, 1e9, 1e-200, 1e200]
  n = rng.choice(norms)
  q['linf'] = q['norm'] = str(n)
  if api != 'noise':
    q['l0'] = 1
  q['rho'] = repr(rng.choice([1e-9, .001, .1, .5, 1.0, 7.0, 1000.0]))
  if integer:
    q['x'] = str(rng.choice([0, 1, -7, 12345, -(1 << 40), 1 << 52, rng.getrandbits(50)]))
  else:
    q['x'] = repr(rng.choice([0.0, 1.0, -3.25, .1, 1 / 3, -1e6 / 7, 1e-9, math.pi * 1e9,
                              rng.uniform(-100, 100)]))
  case = {'q': q, 'n': rng.choice([60, 400, 1000, 3000]), 'at': rng.choice([0, 0, 1, -3.5]),
          'seed': rng.randrange(1, 1 << 40)}
  r = rng.random()
  if r < .08:
    case['bad'] = rng.choice(['eps', 'delta', 'l0', 'linf'])
    if api != 'noise':
      case['bad'] = rng.choice(['norm', 'rho'] if api == 'rho' else ['norm', 'eps', 'delta'])
    case['to'] = {
        'eps': ['0', '-1', 'nan', 'inf', '1e-17', '-0.5'],
        'rho': ['0', '-1', 'nan', 'inf', '1e-17'],
        'delta': ['0', '1', '-1e-9', 'nan', '1.5'] if mech == 'g' else ['0.1', '-1', 'nan'],
        'l0': ['0', '-1', '-2147483648'],
        'linf': ['0', '-1'] if integer else ['0', '-1', 'nan', 'inf', '-inf'],
        'norm': ['0', '-1'] if integer and api != 'rho' else ['0', '-1', 'nan', 'inf']}[
            case['bad']]
    case['to'] = rng.choice(case['to'])
    case['n'] = 2
  elif r < .14:
    case['fails'] = rng.randrange(0, 40)
    case['n'] = 2 if mech == 'd' else 20
  elif r < .18 and mech != 'd' and api == 'noise':
    case['wrong'] = rng.choice([['alphas', a] for a in BAD] + [['ranks', a] for a in BAD])
    case['n'] = 0
  return case


def _generate_cover(rng):
  typ = rng.choice(['count', 'sumi', 'sumf', 'mean'])
  o = jvagg.opt(rng, typ, discrete=False)
  return {'cover': typ, 'opt': o, 'data': [jvagg.value(rng, typ, o) for _ in range(
      rng.choice([0, 1, 5, 30]))], 'alpha': rng.choice(['.1', '.3', '.5']),
          'seed': rng.randrange(1, 1 << 40)}


def _ask(case, q, **more):
  op = dict({'op': 'law', 'alphas': [], 'ranks': [], 'at': '0', 'zs': [],
             'seed': case['seed'], 'n': case['n']}, **q)
  op.update(more)
  reps, faults = jvagg.run([op])
  return reps[0], faults


def _law(case, q, what):
  """The prescribed distribution, the one drawn from, and the grid."""
  eps, norm = float(q['eps']), float(q['linf'])
  if q['mech'] != 'g':
    l1 = norm * q['l0']
    law = x06.Law(True, l1 / eps)
    grid = x06._next_power(l1 / eps / 2 ** 40)
    return law, x06.Law(True, (l1 + grid) / eps), grid
  rep, _ = _ask(case, q, n=0)
  if 'sigma' not in rep:
    return None, None, rep['errs']
  sigma = float(rep['sigma'])
  l2 = norm * math.sqrt(q['l0'])
  if q['api'] == 'rho':
    want = l2 / math.sqrt(2 * float(q['rho']))
    if not math.isclose(sigma, want, rel_tol=1e-9):
      raise Violation('scale', f'{what}: sigma {sigma!r}, rho asks for {want!r}')
  else:
    d, delta = x03.gauss_delta(l2, eps, sigma), float(q['delta'])
    if not d <= delta * (1 + 1e-6) + 1e-15:
      raise Violation('scale', f'{what}: sigma {sigma!r} costs delta {d!r}')
    lo = x03.gauss_delta(l2, eps, sigma * .99)
    if lo < delta * (1 - 1e-6) - 1e-15 and sigma > 1e-3 * l2:
      raise Violation('scale', f'{what}: sigma {sigma!r} is more than 1% too large')
  law = x06.Law(False, sigma)
  return law, law, x06._next_power(2 * sigma / 2 ** 57)


def _quantile(law, p):
  """Of the upper half."""
  z = -math.log(2 * p) if law.laplace else stats.norm.isf(p)
  return law.scale * z


def execute(case, cov):
  if 'cover' in case:
    return _cover(case, cov)
  if 'asked' in case:
    return _interval(case, cov)
  q, n = case['q'], case['n']
  what = f'{q} on {q["x"]}'
  cov.probe(q['mech'])
  cov.probe('integer' if q['int'] else 'double')
  if q['api'] != 'noise':
    cov.probe('rho' if q['api'] == 'rho' else 'norm')
  cov.state(tuple(sorted((k, str(v)) for k, v in q.items())))
  if 'bad' in case:
    return _invalid(case, cov)
  if 'fails' in case:
    return _fails(case, cov)
  eps = float(q['eps'])
  if eps < 1e-3:
    cov.probe('tiny-epsilon')
  if eps > 50:
    cov.probe('large-epsilon')
  law, drawn, grid = _law(case, q, what)
  if law is None:
    cov.probe('refused')
    if 1e-4 < eps < 100 and 1e-100 < float(q['linf']) < 1e100:
      raise Violation('refused', f'{what}: {grid}')
    return
  intervals = q['mech'] != 'd' and q['api'] != 'rho'
  more = {}
  if intervals:
    at = case['at'] * law.scale
    more = {'alphas': ALPHAS, 'ranks': RANKS, 'at': repr(at)}
    if 'wrong' in case:
      more[case['wrong'][0]] = [case['wrong'][1]]
  rep, _ = _ask(case, q, **more)
  errs = rep['errs']
  cov.trace(rep['vals'][:50], rep['ci'], rep['q'], sorted(errs))
  cov.step(n)
  if 'wrong' in case:
    cov.fault('invalid level')
    cov.probe('bad-alpha' if case['wrong'][0] == 'alphas' else 'bad-rank')
    cov.nontrivial = True
    if ('ci0' if case['wrong'][0] == 'alphas' else 'q0') not in errs:
      raise Violation('accepted', f'{what}: {case["wrong"]} gave {rep["ci"]} {rep["q"]}')
    return
  if errs:
    cov.probe('refused')
    fine = 1e-6 < law.scale < 1e12 and (q['mech'] != 'd' or 1 / law.scale > 1e-15)
    if fine and 1e-4 < eps < 100 or any(not k.startswith('noise') for k in errs):
      raise Violation('refused', f'{what}: {errs}')
    return
  if intervals:
    _reported(q, law, rep, at, what, cov)
  _sampled(case, q, law, drawn, grid, rep, what, cov)


def _invalid(case, cov):
  q = dict(case['q'])
  q[case['bad']] = case['to']
  integer_double = q['mech'] == 'd' and not q['int']
  ask = q['mech'] != 'd' and q['api'] == 'noise'
  rep, _ = _ask(case, q, alphas=['.05'] if ask else [], ranks=['.3'] if ask else [])
  cov.fault('invalid parameter')
  cov.probe('invalid')
  cov.trace(sorted(rep.get('errs', {})))
  cov.nontrivial = True
  if rep.get('vals'):
    raise Violation('accepted', f'{q}: an impossible {case["bad"]} gave {rep["vals"]}')
  if ask and (rep['ci'][0] or rep['q'][0]) and not integer_double:
    raise Violation('accepted', f'{q}: an impossible {case["bad"]} gave the interval '
                    f'{rep["ci"]} and the quantile {rep["q"]}')


def _fails(case, cov):
  """A value is either noised or refused, never released without entropy."""
  q = case['q']
  clean, _ = _ask(case, q)
  if clean['errs'] or case['fails'] >= clean.get('draws', 0):
    return
  rep, faults = _ask(case, q, faults={str(case['fails']): 'entropy-fails'})
  cov.trace(rep['vals'], sorted(rep['errs']))
  if not faults:
    return
  cov.fault('entropy-fails')
  cov.probe('entropy-failed')
  cov.nontrivial = True
  if 'noise' not in rep['errs']:
    raise Violation('released-without-entropy', f'{q}: {rep["vals"]} after entropy failed')
  if rep['vals'] != clean['vals'][:len(rep['vals'])]:
    raise Violation('released-without-entropy', f'{q}: {rep["vals"]} before entropy failed, '
                    f'{clean["vals"][:len(rep["vals"])]} otherwise')


def _reported(q, law, rep, at, what, cov):
  cov.probe('interval')
  cov.probe('quantile')
  x = float(q['x'])
  for a, ci in zip(ALPHAS, rep['ci']):
    want = _quantile(law, float(a) / 2)
    tol = 1e-6 * want + 4 * math.ulp(x) + (.5 if q['int'] else 0) + 4 * math.ulp(want)
    lo, hi = float(ci[0]), float(ci[1])
    if q['int'] and want > 2 ** 62:
      continue
    if not abs(lo - (x - want)) <= tol or not abs(hi - (x + want)) <= tol:
      raise Violation('interval', f'{what}: [{lo!r}, {hi!r}] at {a}, the law has '
                      f'[{x - want!r}, {x + want!r}]')
  for p, got in zip(RANKS, rep['q']):
    p = float(p)
    want = at - _quantile(law, p) if p < .5 else at + _quantile(law, 1 - p)
    tol = (1e-6 if p > 1e-9 else 1e-3) * abs(want - at) + 4 * math.ulp(at) + 1e-12 * law.scale
    if not abs(float(got) - want) <= tol:
      raise Violation('quantile', f'{what}: the {p} quantile around {at!r} is reported as '
                      f'{got}, the law has {want!r}')


def _sampled(case, q, law, drawn, grid, rep, what, cov):
  n = case['n']
  if q['mech'] == 'd':
    return _discrete(q, law, rep, what, cov)
  if q['int']:
    x = int(q['x'])
    vals = [int(v) for v in rep['vals']]
    if drawn.scale * 60 > 2.0 ** 62:
      return
    noise = [v - x for v in vals]
    step = max(grid, 1.0)
    ident = int(step)
    if ident > 1:
      cov.probe('coarse-grid')
      bad = [v for v in vals if v % ident]
      if bad:
        raise Violation('grid', f'{what}: {bad[0]} is off the grid of {ident}')
      noise = [v - x06._round_to(x, ident) for v in vals]
  else:
    x = float(q['x'])
    vals = [float(v) for v in rep['vals']]
    base = x
    if abs(x) > 2.0 ** 52 * grid:
      cov.probe('large-value')
    ratio = x / grid if grid > 5e-324 else math.inf
    if abs(ratio) < 2.0 ** 54:
      base = math.floor(ratio + .5) * grid
    for v in vals:
      if not math.isfinite(v):
        if drawn.scale < 1e290:
          raise Violation('law', f'{what}: {v}')
        return
      if grid > 1e-300 and v / grid != math.floor(v / grid):
        raise Violation('grid', f'{what}: {v!r} is off the grid of {grid!r}; it still '
                        f'carries low bits of the input')
    noise = [v - base for v in vals]
    step = max(grid, 2.0 ** -50 * abs(x))
  cov.nontrivial = True
  if n >= 1000:
    cov.probe('many')
  half = .5 if q['int'] and step == 1.0 else 0.0
  x06._sample(what, sorted(noise), drawn, grid if half else step, half)
  if max(map(abs, noise), default=0) > 6 * drawn.scale:
    cov.probe('tail')
  if not q['int'] and step < drawn.scale * 1e-6:
    if len(set(noise)) < len(noise) - 2 - len(noise) ** 2 * 1e-6:
      raise Violation('repeated', f'{what}: {len(set(noise))} values in {len(noise)} draws')
  if drawn.scale > step:
    u = [drawn.cdf(v) - .5 for v in noise]
    m = len(u)
    r = sum(a * c for a, c in zip(u, u[1:])) * 12 / math.sqrt(m)
    if m > 50 and abs(r) > 7.5 + 3 * math.sqrt(m) * (step / drawn.scale) ** 2:
      raise Violation('dependent', f'{what}: neighbouring draws correlate '
                      f'({r:.1f} deviations)')


def _discrete(q, law, rep, what, cov):
  """P(k) is proportional to exp(-|k| / scale)."""
  noise = sorted(int(v) - int(q['x']) for v in rep['vals'])
  if law.scale * 60 > 2.0 ** 62:
    return
  cov.nontrivial = True
  t = math.exp(-1 / law.scale)

  def cdf(k):
    if k >= 0:
      return 1 - math.exp(-(k + 1) / law.scale) / (1 + t)
    return math.exp(k / law.scale) / (1 + t)
  n = len(noise)
  i, worst, where = 0, 0.0, None
  while i < n:
    j = i
    while j < n and noise[j] == noise[i]:
      j += 1
    for d in (abs(i / n - cdf(noise[i] - 1)), abs(j / n - cdf(noise[i]))):
      if d > worst:
        worst, where = d, noise[i]
    i = j
  if n >= 1000:
    cov.probe('many')
  if worst * math.sqrt(n) > 3.6:
    raise Violation('law', f'{what}: {n} draws differ from the law at {where} by {worst:.4f}')


def _cover(case, cov):
  """An interval holds the statistic as often as it says."""
  typ, o = case['cover'], case['opt']
  n = 250
  ops = []
  for k in range(n):
    ops.append({'op': 'new', 'id': k, 'type': typ, 'opt': o})
    ops += [jvagg.add(k, c) for c in case['data']]
    ops.append({'op': 'res', 'id': k, 'noise': {'mode': 'real'}, 'seed': case['seed'] + k})
    ops.append({'op': 'ci', 'id': k, 'arg': case['alpha'], 'noise': {'mode': 'real'}})
    ops.append({'op': 'free', 'id': k})
  reps, _ = jvagg.run(ops, 120)
  cis = [r for op, r in zip(ops, reps) if op['op'] == 'ci']
  outs = [r for op, r in zip(ops, reps) if op['op'] == 'res']
  cov.step(len(ops))
  cov.trace([r.get('val') for r in cis[:20]])
  bad = [r['err'] for r in cis + outs if r.get('err')]
  what = f'{typ} {o} of {len(case["data"])} entries, alpha {case["alpha"]}'
  if bad:
    if typ in ('sumi', 'sumf') and float(o['lo']) == float(o['hi']) == 0:
      return
    raise Violation('refused', f'{what}: {bad[0]}')
  total = intervals.truth(typ, float(o.get('lo', 0)), float(o.get('hi', 0)), case['data'])
  if total is None or abs(total) > 2 ** 53 and typ == 'sumi':
    return
  cov.probe('coverage')
  cov.nontrivial = True
  cov.state((typ, str(o), total))
  intervals.coverage(what, total, [r['val'] for r in cis], float(case['alpha']))


def _generate_interval(rng):
  typ = rng.choice(['count', 'sumi', 'sumf', 'mean', 'mean'])
  o = jvagg.opt(rng, typ, discrete=False)
  if typ in ('sumi', 'sumf') and rng.random() < .3:
    lo = rng.choice([-9, -5, -1])
    o['lo'], o['hi'] = (str(lo), str(rng.choice([0, lo + 1]))) if typ == 'sumi' else (
        repr(lo - .5), repr(rng.choice([0.0, -.25])))
  vals = [rng.choice([0, 1, -1, 3, -8, 20, -50, 1000, -3000, 10**6, 10**9,
                      rng.uniform(-30, 30), rng.uniform(0, 300)]) for _ in range(2)]
  if typ in ('count', 'sumi'):
    vals = [round(v) for v in vals]
  return {'asked': typ, 'opt': o, 'mode': rng.choice(['abs', 'add']),
          'data': [jvagg.value(rng, typ, o) for _ in range(rng.choice([0, 1, 3, 12]))],
          'noise': [str(v) for v in vals],
          'alphas': [rng.choice(['1e-9', '1e-3', '.05', '.05', '.5', '.9', '.999'])
                     for _ in range(rng.choice([1, 2, 3]))]}


def _interval(case, cov):
  """The interval is the one the released values imply."""
  typ, o = case['asked'], case['opt']
  noise = {'mode': case['mode'], 'vals': case['noise']}
  ops = [{'op': 'new', 'id': 0, 'type': typ, 'opt': o}]
  ops += [jvagg.add(0, c) for c in case['data']]
  at = len(ops)
  ops.append({'op': 'res', 'id': 0, 'noise': noise})
  ops += [{'op': 'ci', 'id': 0, 'arg': a, 'noise': noise} for a in case['alphas'] * 2]
  reps, _ = jvagg.run(ops)
  cov.step(len(ops))
  cov.trace([(r.get('val'), r.get('err')) for r in reps])
  what = f'{typ} {o} of {len(case["data"])} entries'
  bad = [r for r in reps if r.get('err')]
  if bad:
    raise Violation('refused', f'{what}: {bad[0]}')
  calls = [c for c in reps[at]['calls'] if c['m'] in 'if']
  n = len(case['alphas'])
  cov.nontrivial = True
  cov.probe('asked-interval')
  cov.state((typ, str(sorted(o.items())), str([c['out'] for c in calls])))
  for a, r, s in zip(case['alphas'], reps[at + 1:], reps[at + 1 + n:]):
    if r['val'] != s['val']:
      raise Violation('repeated', f'{what}: alpha {a} gives {r} and then {s}')
    intervals.check(what, typ, float(o.get('lo', 0)), float(o.get('hi', 0)), calls,
                    o['noise'] == 'g', float(a), r['val'])
