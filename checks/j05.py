"""J05: Java partition selection and approximate bounds stay within their budget."""
import math

from scipy import stats

from sim import dpref
from sim import jvagg
from sim import jvsim
from sim.core import Violation

ID = 'J05'
RULE = ('the keep probabilities of neighbouring partitions were measured from chosen or '
        'seeded uniform draws, or approximate bounds were computed under a chosen noise or '
        'hundreds of times under seeded noise and compared with the histogram of the data')
REAL = ['java/main/com/google/privacy/differentialprivacy (PreAggSelectPartition, '
        'ApproximateBounds, Count, GaussianNoise, LaplaceNoise, DpPreconditions)']
STUB = ['SecureRandom (simulated provider)', 'commons-math3', 'the protocol buffer runtime, '
        'AutoValue']
ASSUMPTIONS = ['the statistic thresholds are those of a false alarm in 1e10',
               'a privacy unit adds one id to a partition and at most maxContributions '
               'entries to the bounds']
RUNS = {'quick': 4000, 'thorough': 200000}
BUDGET = {'quick': 60, 'thorough': 1200}
DOUBLE_EVERY = 40
STATE_MEASURE = 'distinct (mode, options, data)'
PROBES = ['optimal', 'gauss', 'hard', 'fixed', 'law', 'pre-threshold', 'tiny-epsilon',
          'invalid-options', 'certain', 'never', 'bounds', 'no-bounds', 'independent',
          'sharded', 'empty-bins', 'negative', 'clipped']
SEEDS = 300

prepare = jvsim.prepare
BINS = {'INTEGER': (32, True, 1.0), 'POSITIVE_INTEGER': (32, False, 1.0),
        'DOUBLE': (2046, True, 2.0 ** -1022)}


def generate(rng, tier):
  mode = rng.choice(['opt'] * 6 + ['gauss'] * 2 + ['hard', 'bad'] + ['fixed'] * 3 + ['law'] * 2)
  case = {'mode': mode, 'seed': rng.randrange(1, 1 << 40)}
  eps = rng.choice([.1, .5, 1.0, math.log(3), 2, 5, .01, 1e-3, 20.0, rng.uniform(.05, 3)])
  o = {'eps': repr(float(eps)), 'delta': repr(rng.choice(
      [1e-5, 1e-10, .01, .3, 1e-3, .9, rng.uniform(.001, .5)])),
       'l0': rng.choice([1, 1, 2, 3]), 'pre': rng.choice([1, 1, 1, 2, 5, 30])}
  if mode == 'opt':
    if rng.random() < .3:
      o['eps'] = rng.choice(['1e-15', '1e-9', '1e-6', '1e-12', '40.0', '700.0', '1e-14',
                             '1e-8'])
    if rng.random() < .15:
      o['delta'] = rng.choice(['1e-300', '1e-17', '0.999999'])
    case['n'] = rng.choice([0, 1, 1, 2, 3, 7, rng.randint(0, 60), rng.randint(0, 3000),
                            2**40, -3])
    if rng.random() < .5:
      case['n'] = max(0, o['pre'] + rng.randint(-2, 3))
    elif float(o['eps']) > 1e-4 and rng.random() < .6:
      t = 1 + math.log(1 / float(o['delta'])) * o['l0'] / float(o['eps'])
      case['n'] = max(0, int(t * rng.uniform(.5, 1.3)) + rng.randint(-1, 2))
  elif mode == 'gauss':
    o['eps'] = repr(rng.choice([.3, 1.0, 2.0, 5.0, 12.0]))
    o['delta'] = repr(rng.choice([.02, .3, .5, .9, .1]))
    o['l0'] = rng.choice([4, 4, 5, 6, 8, 12])
    case['n'] = rng.choice([0, 1, 1, 1, 2, 3, 5, 10]) + o['pre'] - 1
    if rng.random() < .15:
      case['n'] = rng.randint(0, o['pre'])
  elif mode == 'hard':
    o['eps'] = repr(rng.choice([.1, .5, 1.0, 2.0, 5.0, 20.0]))
    o['l0'] = rng.choice([1, 2, 3, 5, 9])
    del o['pre']
  elif mode == 'bad':
    if rng.random() < .5:
      k = rng.choice(['eps', 'delta', 'l0', 'pre'])
      o[k] = {'eps': rng.choice(['0.0', '-1.0', 'nan', 'inf', '1e-16']),
              'delta': rng.choice(['0.0', '1.0', '-0.1', 'nan', '2.0', 'inf']),
              'l0': rng.choice([0, -1, -2**31]), 'pre': rng.choice([0, -1, -2**31])}[k]
    else:
      o = {'eps': '1.0', 'mc': 1, 'input': 'INTEGER'}
      k = rng.choice(['eps', 'mc'])
      o[k] = {'eps': rng.choice(['0.0', '-1.0', 'nan', 'inf', '1e-16']),
              'mc': rng.choice([0, -1, -2**31])}[k]
  else:
    o = {'eps': repr(rng.choice([.1, .5, 1.0, math.log(3), 3.0])),
         'mc': rng.choice([1, 1, 2, 5]), 'input': rng.choice(
             ['INTEGER', 'POSITIVE_INTEGER', 'INTEGER', 'DOUBLE'])}
    if mode == 'law':
      o['input'] = rng.choice(['INTEGER', 'POSITIVE_INTEGER'])
      case['offset'] = [rng.choice([-2.0, -1.0, -.5, 0.0, 0.0, .5, 1.0, 3.0])
                        for _ in range(rng.choice([1, 1, 2]))]
      case['where'] = rng.sample([0.5, 1.5, 3.0, 100.0, -0.5, -3.0, -70.0, 2.0**20], 2)
    else:
      case['data'] = [_entry(rng) for _ in range(rng.choice([0, 1, 2, 3, 6]))]
      case['u'] = repr(rng.choice([.5, .5, .5, .1, .9, .01, .99, rng.random(), rng.random(),
                                   1 - 1e-13, 1 - 10.0 ** -rng.uniform(8, 12), 1e-12]))
      case['shard'] = rng.choice([0, 0, rng.randint(1, 5)])
  case['opt'] = o
  return case


def _entry(rng):
  k = rng.randint(-3, 33) if rng.random() < .8 else rng.randint(-1023, 1023)
  v = 2.0 ** k * rng.choice([1, 1, 1.5, 1 + 2 ** -52, 1 - 2 ** -53])
  v = rng.choice([v, v, v, -v, -v, 0.0, -0.0, math.inf, -math.inf, math.nan, 5e-324, -5e-324,
                  1.7e308, -1.7e308])
  return {'v': repr(v), 'n': rng.choice([1, 3, 20, 60, 150, 400, 1000])}


def execute(case, cov):
  {'opt': _optimal, 'gauss': _gauss, 'hard': _hard, 'bad': _bad, 'fixed': _fixed,
   'law': _law}[case['mode']](case, cov)
  cov.state((case['mode'], str(sorted(case['opt'].items())), case.get('n'),
             str(case.get('data')), case.get('u'), str(case.get('offset'))))


# ------------------------------------------------------------------ selection
def _kept(o, n, unifs):
  """Which of the uniform draws keep a partition of n ids."""
  ops = []
  for k, u in enumerate(unifs):
    ops.append({'op': 'new', 'id': k, 'type': 'sel', 'opt': o})
    if n:
      ops.append({'op': 'add', 'id': k, 'v': '', 'n': n})
    ops.append({'op': 'res', 'id': k, 'unif': [repr(u)], 'seed': 7})
  reps, _ = jvagg.run(ops)
  if any(r.get('err') for r in reps):
    return None
  return [r['val'] == ['true'] for op, r in zip(ops, reps) if op['op'] == 'res']


def _probability(o, n):
  """Keep probability, from the outcomes under chosen uniform draws."""
  grid = [0.0] + [2.0 ** -k for k in range(53, 0, -3)] + [1 - 2.0 ** -53]
  for _ in range(14):
    kept = _kept(o, n, grid)
    if kept is None:
      return None
    if not kept[0]:
      return 0.0
    if all(kept):
      return 1.0
    k = kept.index(False)
    if any(kept[k:]):
      raise Violation('selection-not-private', f'{o}: the uniform draws {grid} keep {n} '
                      f'ids as {kept}')
    lo, hi = grid[k - 1], grid[k]
    if hi - lo <= max(lo * 1e-13, 2.0 ** -53):
      break
    grid = sorted({lo + (hi - lo) * j / 16 for j in range(17)})
  return lo


def _reference(o, n):
  """The optimal keep probability of n ids."""
  l0 = o['l0']
  e, d = float(o['eps']) / l0, float(o['delta']) / l0
  p = 0.0
  for _ in range(n - (o.get('pre', 1) - 1)):
    q = min(math.exp(e) * p + d, 1 - math.exp(-e) * (1 - p - d), 1.0)
    if q == p:
      break
    p = q
  return p


def _optimal(case, cov):
  o, n = case['opt'], case['n']
  cov.probe('optimal')
  eps, delta, l0, pre = float(o['eps']), float(o['delta']), o['l0'], o['pre']
  if eps < 1e-5:
    cov.probe('tiny-epsilon')
  p, q = _probability(o, n), _probability(o, n + 1)
  cov.trace(p, q)
  cov.step(100)
  if p is None or q is None:
    if eps >= 1e-9 and n >= 0:
      raise Violation('selection-refused', f'{o} over {n} ids was refused')
    return
  cov.nontrivial = True
  cov.fault('neighbour-dataset')
  cov.probe('certain' if p == 1 else 'never' if p == 0 else 'optimal')
  e = eps / l0
  d = -math.expm1(math.log1p(-delta) / l0)
  grow = math.exp(min(e, 700))
  for a, b, top in ((q, p, q), (1 - p, 1 - q, 1), (p, q, q), (1 - q, 1 - p, 1)):
    b = max(b, 2.0 ** -53)   # probabilities saturate at 1
    # The probabilities were measured with a relative error of 1e-13.
    slack = 1e-9 * (d + a) + 1e-12 * (e < 1e-3) + (3e-13 * top + 4e-16) * (1 + grow)
    if a > grow * b + d + slack:
      raise Violation('selection-not-private',
                      f'{o}: kept with probability {p} over {n} ids and {q} over '
                      f'{n + 1}: more than epsilon {e} delta {d} per partition')
  for k, pk in ((n, p), (n + 1, q)):
    if k < pre and pk > 0:
      raise Violation('pre-threshold-ignored', f'{o}: {k} ids were kept with probability {pk}')
    if k >= pre and k < 10000 and e > 1e-4:
      best = _reference(o, k)
      if pk < best * .99 - 1e-9:
        raise Violation('selection-not-optimal', f'{o}: {k} ids are kept with probability '
                        f'{pk}, {best} is possible')
  if n + 1 >= pre > 1:
    cov.probe('pre-threshold')


def _gauss(case, cov):
  o, n = case['opt'], case['n']
  cov.probe('gauss')
  ops = []
  for k in range(SEEDS):
    ops.append({'op': 'new', 'id': k, 'type': 'sel', 'opt': o})
    if n:
      ops.append({'op': 'add', 'id': k, 'v': '', 'n': n})
    ops.append({'op': 'res', 'id': k, 'seed': case['seed'] + k})
  reps, _ = jvagg.run(ops, 120)
  bad = [r['err'] for r in reps if r.get('err')]
  if bad:
    raise Violation('selection-refused', f'{o} over {n} ids: {bad[0]}')
  kept = sum(r.get('val') == ['true'] for op, r in zip(ops, reps) if op['op'] == 'res')
  cov.trace(kept)
  cov.step(len(ops))
  cov.fault('random-source-seeds', SEEDS)
  cov.nontrivial = True
  eps, delta, l0 = float(o['eps']), float(o['delta']), o['l0']
  text = f'{o}: {kept} of {SEEDS} partitions of {n} ids were kept, '
  if n < o['pre']:
    cov.probe('pre-threshold')
    if kept:
      raise Violation('pre-threshold-ignored', text + 'below the pre-threshold')
    return
  m = n - (o['pre'] - 1)
  sigma = dpref.true_sigma(l0, 1.0, eps, delta / 2)
  t = dpref.least_threshold('g', l0, 1.0, eps, delta / 2, delta / 2)
  if sigma is None or t is None:
    return
  ps = []
  for s in (sigma, sigma * 1.003):
    for thr in (t - .003 * abs(t - 1) - 1e-9, t + .003 * abs(t - 1) + 1e-9):
      ps += [stats.norm.sf((thr - m) / s), stats.norm.sf((math.ceil(thr) - .5 - m) / s)]
  law_high = stats.binom.sf(kept - 1, SEEDS, max(ps)) >= 1e-10
  if m == 1:
    most = -math.expm1(math.log1p(-delta) / l0)
    if stats.binom.sf(kept - 1, SEEDS, most) < 1e-10:
      raise Violation('selection-not-private', text + f'with probability at most {most}',
                      sig='rounded-noise' if law_high else None)
  if not law_high:
    raise Violation('selection-not-private', text + f'probabilities are {ps}')
  if stats.binom.cdf(kept, SEEDS, min(ps)) < 1e-10:
    raise Violation('selection-not-optimal', text + f'probabilities are {ps}')


def _hard(case, cov):
  o = case['opt']
  cov.probe('hard')
  rep = jvagg.run([dict({'op': 'hard'}, **{k: str(o[k]) for k in ('eps', 'delta', 'l0')})])[0][0]
  if rep.get('err'):
    raise Violation('selection-refused', f'hard threshold of {o}: {rep["err"]}')
  t = int(rep['val'][0])
  cov.trace(t)
  cov.nontrivial = True
  at, below = _reference(o, t), _reference(o, t - 1)
  if at < 1 - 1e-7 or below > 1 - 1e-15 and _reference(o, t - 2) >= 1:
    raise Violation('wrong-hard-threshold', f'{o}: {t} ids are kept with probability {at}, '
                    f'{t - 1} with {below}')


def _bad(case, cov):
  """Options that make no sense never lead to an answer."""
  o = case['opt']
  typ = 'approx' if 'input' in o else 'sel'
  ops = [{'op': 'new', 'id': 0, 'type': typ, 'opt': o}]
  if typ == 'sel':
    ops.append({'op': 'add', 'id': 0, 'v': '', 'n': 100000})
  else:
    ops.append({'op': 'add', 'id': 0, 'v': '5.0', 'n': 1000})
  ops.append({'op': 'res', 'id': 0, 'seed': case['seed']})
  reps, _ = jvagg.run(ops)
  cov.fault('invalid option')
  cov.probe('invalid-options')
  cov.nontrivial = True
  cov.trace([bool(r.get('err')) for r in reps])
  if not reps[-1].get('err'):
    raise Violation('invalid-options-accepted', f'{typ} with {o} answered {reps[-1]}')


# --------------------------------------------------------------------- bounds
def _bin(kind, v):
  """The bin of a value: (side, index), or None."""
  count, signed, scale = BINS[kind]
  if math.isnan(v):
    return None
  if v < 0 and not signed:
    return 1, 0
  side = -1 if v < 0 else 1
  v = abs(v)
  k = 0
  edge = scale
  while k < count - 1 and v > edge:
    k += 1
    edge *= 2
  return side, k


def _edges(kind, side, k):
  scale = BINS[kind][2]
  hi = math.ldexp(scale, k)
  lo = 0.0 if k == 0 else math.ldexp(scale, k - 1)
  return (lo, hi) if side > 0 else (-hi, -lo)


def _thresholds(o):
  """Of the failure probabilities that are tried."""
  count, signed, _ = BINS[o['input']]
  bins = count * (2 if signed else 1)
  b = o['mc'] / float(o['eps'])
  f, out = 1e-9, []
  while f <= 1e-6:
    out.append(-b * math.log(2 * -math.expm1(math.log1p(-f) / bins)))
    f *= 2
  return out


def _fixed(case, cov):
  o = case['opt']
  kind = o['input']
  data = case['data']
  cov.probe('fixed')
  ops = [{'op': 'new', 'id': 0, 'type': 'approx', 'opt': o}]
  cut = len(data) * case['shard'] // 6
  if case['shard']:
    cov.probe('sharded')
    ops.append({'op': 'new', 'id': 1, 'type': 'approx', 'opt': o})
    ops += [jvagg.add(1, c) for c in data[:cut]]
    ops.append({'op': 'enc', 'id': 1, 'slot': 0})
    ops.append({'op': 'merge', 'id': 0, 'slot': 0})
  ops += [jvagg.add(0, c) for c in data[cut:]]
  ops.append({'op': 'res', 'id': 0, 'always': case['u']})
  reps, _ = jvagg.run(ops)
  rep = reps[-1]
  for op, r in zip(ops[:-1], reps):
    if r.get('err'):
      raise Violation('input-refused', f'{op}: {r["err"]}')
  cov.trace(rep.get('val'), bool(rep.get('err')))
  cov.fault('chosen noise')
  cov.step(len(ops))
  counts = {}
  for c in data:
    v = float(c['v'])
    b = _bin(kind, v)
    if b:
      counts[b] = counts.get(b, 0) + c['n']
      if b[0] < 0:
        cov.probe('negative')
      if b[1] == BINS[kind][0] - 1 or v < 0 < b[0]:
        cov.probe('clipped')
  u = math.floor(float(case['u']) * 2 ** 53) / 2 ** 53
  scale = o['mc'] / float(o['eps'])
  z = scale * math.log(2 * u) if u < .5 else -scale * math.log(2 * (1 - u))
  want = None
  for t in _thresholds(o):
    if any(abs(c + z - t) < 1e-6 * (1 + abs(t)) for c in list(counts.values()) + [0]):
      return
    hit = [_edges(kind, *b) for b, c in counts.items() if c + z >= t]
    if z >= t:  # every empty bin
      count, signed, _ = BINS[kind]
      hit += [_edges(kind, s, k) for s in ((1, -1) if signed else (1,))
              for k in (0, count - 1) if (s, k) not in counts]
      cov.probe('empty-bins')
    if hit:
      want = min(e[0] for e in hit), max(e[1] for e in hit)
      break
  cov.nontrivial = True
  what = f'bounds {o} of {data} under noise {z!r}'
  if want is None:
    cov.probe('no-bounds')
    if not rep.get('err'):
      raise Violation('wrong-bounds', f'{what}: {rep["val"]} although no bin reaches a threshold')
    return
  cov.probe('bounds')
  if rep.get('err'):
    raise Violation('wrong-bounds', f'{what}: {rep["err"]} instead of {want}')
  got = tuple(float(v) for v in rep['val'])
  if got != want:
    raise Violation('wrong-bounds', f'{what}: {got} instead of {want}')


def _law(case, cov):
  """How often bins around the threshold are found says how noisy they are."""
  o = case['opt']
  kind = o['input']
  cov.probe('law')
  t = _thresholds(o)[-1]
  scale = o['mc'] / float(o['eps'])
  data = []
  for v, off in zip(case['where'], case['offset']):
    n = max(0, round(t + off * scale))
    data.append((_bin(kind, v), v, n))
  if len({b for b, _, _ in data}) != len(data):
    return
  ops = []
  for k in range(SEEDS):
    ops.append({'op': 'new', 'id': k, 'type': 'approx', 'opt': o})
    ops += [{'op': 'add', 'id': k, 'v': repr(v), 'n': n} for _, v, n in data]
    ops.append({'op': 'res', 'id': k, 'seed': case['seed'] + 1000 * k})
    ops.append({'op': 'free', 'id': k})
  reps, _ = jvagg.run(ops, 120)
  rel = [r for op, r in zip(ops, reps) if op['op'] == 'res']
  cov.step(len(ops))
  cov.fault('random-source-seeds', SEEDS)
  cov.nontrivial = True
  cov.trace([r.get('val') for r in rel[:30]])

  def found(n):
    z = (t - n) / scale
    return .5 * math.exp(-z) if z > 0 else 1 - .5 * math.exp(z)
  ok = sum(not r.get('err') for r in rel)
  what = f'bounds {o} of {[(v, n) for _, v, n in data]}'
  p = 1.0
  for _, _, n in data:
    p *= 1 - found(n)
  p = 1 - p
  for side in (stats.binom.sf(ok - 1, SEEDS, p + 2e-6), stats.binom.cdf(ok, SEEDS, p)):
    if side < 1e-10:
      raise Violation('noise-law', f'{what}: found {ok} times of {SEEDS}, the law has '
                      f'probability {p}')
  if len(data) == 2:
    # Both bins are found if the result spans both.
    cov.probe('independent')
    es = [_edges(kind, *b) for b, _, _ in data]
    span = min(e[0] for e in es), max(e[1] for e in es)
    both = sum(not r.get('err') and tuple(map(float, r['val'])) == span for r in rel)
    # (A higher threshold that one bin passes alone ends the search earlier.)
    p2 = found(data[0][2]) * found(data[1][2])
    if stats.binom.sf(both - 1, SEEDS, min(1, p2 + 1e-5)) < 1e-10:
      raise Violation('noise-law', f'{what}: both bins found {both} times of {SEEDS}, the '
                      f'law has at most {p2}')
