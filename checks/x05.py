"""X05: C++ partition selection reveals a user with at most (epsilon, delta)."""
import math

from sim import ccsim
from checks import x03
from sim.core import Violation

ID = 'X05'
RULE = ('a selection strategy was built, its keep probabilities around every threshold '
        'were compared with what one more user may change, and decisions on simulated '
        'entropy were compared with them')
REAL = ['cc/algorithms/partition-selection.h', 'cc/algorithms/numerical-mechanisms.*',
        'cc/algorithms/distributions.*', 'cc/algorithms/rand.*', 'third_party/cephes']
STUB = ['entropy (simulated, seeded)', 'absl logging']
ASSUMPTIONS = ['whole numbers of users', 'floating-point error of 1e-9 relative is not '
               'counted', 'frequencies are compared at six standard deviations']
RUNS = {'quick': 12000, 'thorough': 600000}
BUDGET = {'quick': 75, 'thorough': 1200}
STATE_MEASURE = 'distinct (strategy, parameters)'
KINDS = ['magic', 'laplace', 'gauss']
PROBES = KINDS + ['refused', 'pre-threshold', 'many-partitions', 'huge-partitions',
                  'large-delta', 'always', 'never', 'decided', 'noised', 'first-crossover',
                  'second-crossover', 'tight', 'tiny-epsilon']

prepare = ccsim.prepare
BAD = [('eps', '0'), ('eps', '-1'), ('eps', 'nan'), ('eps', 'inf'), ('eps', None),
       ('delta', '-0.1'), ('delta', '1.1'), ('delta', 'nan'), ('delta', None),
       ('l0', '0'), ('l0', '-3'), ('l0', None), ('pre', '0'), ('pre', '-1')]


def generate(rng, tier):
  kind = rng.choice(KINDS)
  eps = rng.choice([rng.choice([.1, .5, 1.0, math.log(3), 2.0, 5.0, 20.0]),
                    10 ** rng.uniform(-5, 1.7), rng.uniform(.01, 3)])
  delta = rng.choice([rng.choice([1e-5, 1e-9, .1, .4, .6, .9, .99]),
                      10 ** rng.uniform(-15, -.01), 10 ** rng.uniform(-8, -1)])
  l0 = rng.choice([1, 1, 2, 3, 5, 10, 100, 5000])
  if rng.random() < .04:
    l0 = rng.choice([(1 << 31) + 1, (1 << 32) + 1, (1 << 32) + 7])
  if kind == 'gauss':
    eps, delta = max(eps, 1e-3), min(max(delta, 1e-14), .9)
  case = {'kind': kind, 'eps': eps, 'delta': delta, 'l0': l0,
          'seed': rng.randrange(1, 1 << 40), 'pick': rng.random(),
          'far': [rng.randrange(1, 10 ** rng.randint(1, 7)) for _ in range(4)]}
  if rng.random() < .4:
    case['pre'] = rng.choice([1, 2, 3, 10, 1000])
  if rng.random() < .08:
    case['bad'] = rng.choice(BAD)
  return case


def _new(case, **bad):
  kv = {'eps': repr(case['eps']), 'delta': repr(case['delta']), 'l0': case['l0']}
  if 'pre' in case:
    kv['pre'] = case['pre']
  kv.update(bad)
  return f'ps-new s {case["kind"]} ' + ' '.join(
      f'{k}={v}' for k, v in kv.items() if v is not None)


def _run(lines):
  out, dead = ccsim.run(lines)
  if dead:
    raise Violation('crash', f'the process ended ({dead}) at {lines[dead.done]!r}')
  return out


def _f(x):
  return float(x)


def execute(case, cov):
  kind, eps, delta, l0 = case['kind'], case['eps'], case['delta'], case['l0']
  pre = case.get('pre', 1)
  cov.step()
  if 'bad' in case:
    k, v = case['bad']
    rep = _run([_new(case, **{k: v})])[0]
    cov.trace(rep)
    if 'err' not in rep:
      raise Violation('accepted', f'{_new(case, **{k: v})!r} was built: {rep}')
    cov.probe('refused')
    cov.state(('bad', kind, k, v))
    cov.nontrivial = True
    return
  rep = _run([_new(case)])[0]
  if 'err' in rep:
    if kind == 'gauss' or l0 > 1 << 30:
      cov.probe('build-failed')
      return
    raise Violation('refused', f'{_new(case)!r} failed: {rep["err"]}')
  what = (f'{kind} selection with epsilon {eps!r}, delta {delta!r}, {l0} partitions, '
          f'pre-threshold {pre}')
  if (rep['eps'], rep['delta'], rep['l0']) != (eps, delta, l0):
    raise Violation('parameters', f'{what} reports ({rep["eps"]}, {rep["delta"]}, '
                    f'{rep["l0"]})')
  marks = [pre] + [_f(rep[k]) for k in ('t', 'c1', 'c2') if k in rep]
  counts = set(range(0, 30)) | set(case['far'])
  for m in marks:
    if math.isfinite(m) and abs(m) < 1e15:
      counts |= set(range(int(m) - 6, int(m) + 7))
  for f in case['far']:
    counts |= {f, f + 1}
  counts = sorted(n for n in counts if n >= 0)
  pairs = [(a, b) for a, b in zip(counts, counts[1:]) if b == a + 1]
  ps = [_f(x) for x in _run([_new(case), 'ps-p s ' + ' '.join(map(str, counts))])[1]['p']]
  p = dict(zip(counts, ps))
  cov.trace(rep, ps)
  cov.probe(kind)
  cov.state((kind, eps, delta, l0, pre))
  if 'pre' in case and pre > 1:
    cov.probe('pre-threshold')
  if l0 > 1:
    cov.probe('many-partitions')
  if l0 > 1 << 30:
    cov.probe('huge-partitions')
  if delta > .5:
    cov.probe('large-delta')
  if eps < 1e-3:
    cov.probe('tiny-epsilon')
  if len(marks) == 3:
    cov.probe('first-crossover')
    cov.probe('second-crossover')
  for n in counts:
    if not -1e-12 <= p[n] <= 1 + 1e-12:
      raise Violation('probability', f'{what}: {n} users are kept with probability {p[n]}')
    if n < pre and p[n] != 0:
      raise Violation('pre-threshold', f'{what}: {n} users are kept with {p[n]}')
  d1 = -math.expm1(math.log1p(-delta) / l0)      # per partition
  e1 = eps / l0
  grow = math.exp(e1) if e1 < 700 else math.inf
  if kind == 'gauss':
    _gauss(case, what, p, pre, cov)
  else:
    for a, b in pairs:
      lim = grow * p[a] + d1
      if p[b] > lim * (1 + 1e-9) + 1e-15 * (1 + grow):
        raise Violation('delta', f'{what}: {a} users are kept with {p[a]!r} and {b} with '
                        f'{p[b]!r}; at most {lim!r} is allowed')
      lim = grow * (1 - p[b]) + d1
      if 1 - p[a] > lim * (1 + 1e-9) + 1e-12 + 1e-15 * grow:
        raise Violation('delta', f'{what}: {a} users are dropped with {1 - p[a]!r} and {b} '
                        f'with {1 - p[b]!r}; at most {lim!r} is allowed')
  for a, b in zip(counts, counts[1:]):
    if p[b] < p[a] - 1e-9:
      raise Violation('monotone', f'{what}: {a} users are kept with {p[a]}, {b} with {p[b]}')
  if kind != 'gauss' and p.get(pre, 0) > .99 * d1:
    cov.probe('tight')
  # Decisions on simulated entropy.
  some = [n for n in counts if .02 < p[n] < .98]
  n = some[int(case['pick'] * len(some))] if some else counts[int(case['pick'] * len(counts))]
  total = 300
  lines = [f'entropy seed={case["seed"]}', _new(case)] + [f'ps-keep s {n}'] * total
  noised = kind != 'magic'
  if noised:
    lines += [f'ps-noise s {n}'] * total
  out = _run(lines)
  kept = sum(r['keep'] for r in out[2:2 + total])
  cov.trace(kept)
  _frequency(what, n, kept, total, p[n], 'kept')
  if p[n] == 0:
    cov.probe('never')
  elif p[n] == 1:
    cov.probe('always')
  else:
    cov.probe('decided')
  if noised:
    vals = [r['v'] for r in out[2 + total:]]
    good = [_f(v) for v in vals if v is not None]
    _frequency(what, n, len(good), total, p[n], 'released')
    t = _f(rep['t'])
    if good and min(good) <= t - 1e-9 * (1 + abs(t)):
      raise Violation('threshold', f'{what}: {min(good)} was released under the '
                      f'threshold {t}')
    if good:
      cov.probe('noised')
      if len(set(good)) < len(good) // 2:
        raise Violation('threshold', f'{what}: the values released repeat: {good[:9]}')
  cov.nontrivial = True


def _frequency(what, n, kept, total, p, word):
  p = min(max(p, 0.0), 1.0)
  dev = 6 * math.sqrt(total * p * (1 - p)) + (12 if 0 < p < 1 else 0)
  if abs(kept - total * p) > dev:
    raise Violation('decision', f'{what}: {n} users were {word} {kept} times in {total}, '
                    f'their probability is {p}')


def _inverse_phi(q):
  lo, hi = -39.0, 39.0
  for _ in range(200):
    m = (lo + hi) / 2
    if .5 * math.erfc(-m / math.sqrt(2)) < q:
      lo = m
    else:
      hi = m
  return lo


def _gauss(case, what, p, pre, cov):
  """The noise scale is read off two probabilities; its delta and that of one
  user being kept must fit in delta together."""
  eps, delta, l0 = case['eps'], case['delta'], case['l0']
  one = p[pre]
  reveal = -math.expm1(l0 * math.log1p(-one)) if one < 1 else 1.0
  mid = [n for n in sorted(p) if n >= pre and 1e-6 < p[n] < 1 - 1e-6 and n + 1 in p and
         p[n + 1] < 1 - 1e-6 and p[n + 1] > 1e-6]
  slack = 1e-13 + 3e-16 * l0  # probabilities are read as one minus a distribution function
  if reveal > delta * (1 + 1e-9) + slack:
    raise Violation('delta', f'{what}: one user is revealed with probability {reveal!r}')
  if not mid:
    return
  n = mid[len(mid) // 2]
  step = _inverse_phi(p[n + 1]) - _inverse_phi(p[n])
  if step <= 1e-6:
    return
  sigma = 1 / step
  noise = x03.gauss_delta(math.sqrt(l0), eps, sigma * (1 + 1e-6))
  if noise + reveal > delta * (1 + 1e-4) + slack:
    raise Violation('delta', f'{what}: noise of {sigma} costs delta {noise!r}, one user is '
                    f'revealed with {reveal!r}')
  if noise + reveal > .9 * delta:
    cov.probe('tight')
