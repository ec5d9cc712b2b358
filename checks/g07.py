"""G07: Go confidence intervals cover and come from the released values alone."""
from sim import goagg
from sim import gosim
from sim import intervals
from sim.core import Violation

ID = 'G07'
RULE = ('an aggregator made of merged and restored parts released under chosen noised values '
        'and was asked for intervals, or hundreds of equal ones released under seeded noise '
        'and their intervals were held against the statistic')
REAL = ['go/dpagg (Count, BoundedSumInt64, BoundedSumFloat64, BoundedMean)', 'go/noise',
        'go/rand', 'go/checks']
STUB = ['noise.Noise of the planned releases', 'crypto/rand.Reader (seeded bytes)',
        'sync (simulated)', 'gonum distuv']
ASSUMPTIONS = ['the statistic threshold is that of a false alarm in 1e10']
RUNS = {'quick': 4000, 'thorough': 250000}
BUDGET = {'quick': 50, 'thorough': 1200}
DOUBLE_EVERY = 40
SHRINK_LISTS = ['data', 'alphas', 'noise']
STATE_MEASURE = 'distinct (type, options, noised values)'
PROBES = ['count', 'sumi', 'sumf', 'mean', 'laplace', 'gauss', 'coverage', 'early',
          'bad-alpha', 'repeated', 'merged', 'restored', 'one-sided', 'dead', 'few']

prepare = gosim.prepare
TYPES = ['count', 'sumi', 'sumf', 'mean', 'mean']


def generate(rng, tier):
  typ = rng.choice(TYPES)
  o = goagg.opt(rng, typ)
  if typ in ('sumi', 'sumf') and rng.random() < .3:
    lo = rng.choice([-9, -5, -1])
    o['lo'], o['hi'] = (str(lo), str(rng.choice([0, lo + 1]))) if typ == 'sumi' else (
        repr(lo - .5), repr(rng.choice([0.0, -.25])))
  case = {'type': typ, 'opt': o, 'data': [goagg.value(rng, typ, o) for _ in range(
      rng.choice([0, 1, 3, 12, 40]))], 'seed': rng.randrange(1, 1 << 40)}
  if rng.random() < .12:
    case['cover'] = rng.choice(['.1', '.3', '.5'])
    return case
  case['noise'] = [str(rng.choice([0, 1, -1, 3, -8, 20, -50, 1000, -3000, 10**6, 10**9,
                                   rng.uniform(-30, 30), rng.uniform(0, 300)]))
                   for _ in range(2)]
  if typ in ('count', 'sumi'):
    case['noise'] = [str(round(float(v))) for v in case['noise']]
  case['mode'] = rng.choice(['abs', 'add'])
  case['alphas'] = [rng.choice(['1e-9', '1e-3', '.05', '.05', '.5', '.9', '.999'])
                    for _ in range(rng.choice([1, 2, 3]))]
  case['how'] = rng.choice(['plain', 'plain', 'merge', 'restore', 'early', 'bad', 'dead'])
  case['bad'] = rng.choice(['0', '1', '-.5', '1.5', 'NaN', '+Inf', '-Inf'])
  return case


def execute(case, cov):
  typ, o = case['type'], case['opt']
  gauss = o['noise'] == 'g'
  cov.probe(typ)
  cov.probe('gauss' if gauss else 'laplace')
  lower, upper = float(o['lo']), float(o['hi'])
  what = f'{typ} {o} of {len(case["data"])} entries'
  if 'cover' in case:
    return _cover(case, what, cov)
  ops = [{'op': 'new', 'id': 0, 'type': typ, 'opt': o}]
  half = len(case['data']) // 2 if case['how'] == 'merge' else len(case['data'])
  adds = [dict(c, op='add', id=0) for c in case['data'][:half]]
  ops += adds
  if case['how'] == 'merge':
    ops.append({'op': 'new', 'id': 1, 'type': typ, 'opt': o})
    ops += [dict(c, op='add', id=1) for c in case['data'][half:]]
    ops.append({'op': 'merge', 'id': 0, 'other': 1})
    cov.probe('merged')
  ident = 0
  if case['how'] in ('restore', 'dead'):
    ops += [{'op': 'enc', 'id': 0, 'slot': 0}, {'op': 'dec', 'id': 2, 'type': typ, 'slot': 0}]
    ident = 2
    cov.probe('restored')
  early = None
  if case['how'] == 'early':
    early = len(ops)
    ops.append({'op': 'ci', 'id': ident, 'arg': '.05'})
  at = len(ops)
  ops.append({'op': 'res', 'id': ident, 'noise': {'mode': case['mode'],
                                                  'vals': case['noise']}})
  for _ in range(2):
    ops += [{'op': 'ci', 'id': ident, 'arg': a} for a in case['alphas']]
  if case['how'] == 'bad':
    ops.append({'op': 'ci', 'id': ident, 'arg': case['bad']})
  if case['how'] == 'dead':  # the object that was handed over
    ops.append({'op': 'ci', 'id': 0, 'arg': '.05'})
  reps = goagg.run(ops)
  cov.step(len(ops))
  cov.trace([(r.get('val'), r.get('err')) for r in reps])
  for op, r in zip(ops, reps):
    if r.get('panic') or r.get('exit'):
      raise Violation('panic', f'{what}: {op}: {r}')
  if early is not None:
    cov.probe('early')
    if not reps[early].get('err'):
      raise Violation('accepted', f'{what}: an interval before the release: {reps[early]}')
  if reps[at].get('err'):
    raise Violation('refused', f'{what}: {reps[at]}')
  calls = [c for c in reps[at]['calls'] if c['m'] in 'if']
  n = len(case['alphas'])
  first, again = reps[at + 1:at + 1 + n], reps[at + 1 + n:at + 1 + 2 * n]
  cov.nontrivial = True
  cov.state((typ, str(sorted(o.items())), str([c['out'] for c in calls])))
  for a, r, s in zip(case['alphas'], first, again):
    if r.get('err'):
      raise Violation('refused', f'{what}: alpha {a}: {r}')
    if r.get('calls') or r['val'] != s['val']:
      raise Violation('repeated', f'{what}: alpha {a} gives {r} and then {s}')
    cov.probe('repeated')
    if typ != 'mean' and (lower >= 0 or upper <= 0):
      cov.probe('one-sided')
    if typ == 'mean' and float([c for c in calls if c['m'] == 'i'][0]['out']) < 10:
      cov.probe('few')
    intervals.check(what, typ, lower, upper, calls, gauss, float(a), r['val'])
  if case['how'] == 'bad':
    cov.probe('bad-alpha')
    cov.fault('invalid level')
    if not reps[-1].get('err'):
      raise Violation('accepted', f'{what}: alpha {case["bad"]}: {reps[-1]}')
  if case['how'] == 'dead':
    cov.probe('dead')
    if not reps[-1].get('err'):
      raise Violation('accepted', f'{what}: an interval after the hand-over: {reps[-1]}')


def _cover(case, what, cov):
  typ, o, n = case['type'], case['opt'], 250
  alpha = float(case['cover'])
  ops = []
  for k in range(n):
    ops.append({'op': 'new', 'id': k, 'type': typ, 'opt': o})
    ops += [dict(c, op='add', id=k) for c in case['data']]
    ops.append({'op': 'res', 'id': k, 'noise': {'mode': 'real'}, 'seed': case['seed'] + k})
    ops.append({'op': 'ci', 'id': k, 'arg': case['cover']})
    ops.append({'op': 'free', 'id': k})
  reps = goagg.run(ops, 120)
  cis = [r for op, r in zip(ops, reps) if op['op'] == 'ci']
  cov.step(len(ops))
  cov.trace([r.get('val') for r in cis[:20]])
  bad = [r for r in reps if r.get('err') or r.get('panic')]
  if bad:
    raise Violation('refused', f'{what}: {bad[0]}')
  total = intervals.truth(typ, float(o['lo']), float(o['hi']), case['data'])
  if total is None or abs(total) > 2 ** 53:
    return
  cov.probe('coverage')
  cov.nontrivial = True
  cov.state((typ, str(sorted(o.items())), total))
  intervals.coverage(f'{what}, alpha {alpha}', total, [r['val'] for r in cis], alpha)
