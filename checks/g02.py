"""G02: a Go aggregator releases at most once and is dead after hand-over."""
import json

from sim import goagg
from sim import gosim
from sim.core import Violation

ID = 'G02'
RULE = ('an operation was attempted on an aggregator that had been released, '
        'merged away or serialised, or the noise mechanism failed')
REAL = ['go/dpagg', 'go/checks', 'go/noise (argument checks, thresholds, intervals)',
        'go/rand', 'encoding/gob']
STUB = ['noise.Noise of the aggregators (planned outcomes and failures, recorded '
        'calls)', 'crypto/rand.Reader (simulated)', 'glog',
        "gonum's normal distribution"]
ASSUMPTIONS = ['confidence intervals after a release are post-processing and allowed']
RUNS = {'quick': 50000, 'thorough': 1500000}
BUDGET = {'quick': 150, 'thorough': 2400}
SHRINK_LISTS = ('ops',)
STATE_MEASURE = 'distinct (type, model state, operation, outcome) sequences'
PROBES = ['dead-add', 'dead-merge', 'dead-release', 'dead-encode', 'noise-error',
          'noise-panic', 'release-after-failure', 'dead-other', 're-encode',
          'interval', 'ranks', 'many-ranks', 'tree-retry', 'twin'] + goagg.TYPES

prepare = gosim.prepare


def _tree_data(o):
  """Adds that give every node of a small tree its own count."""
  leaves = o['b'] ** o['h']
  lo, hi = float(o['lo']), float(o['hi'])
  return [{'v': repr(lo + (hi - lo) * (k + .5) / leaves), 'n': 1 << k}
          for k in range(leaves)]


def generate(rng, tier):
  typ = rng.choice(goagg.TYPES)
  o = goagg.opt(rng, typ)
  case = {'type': typ, 'opt': o}
  if typ == 'quant':
    o['h'], o['b'] = rng.choice([(1, 2), (1, 4), (2, 2), (3, 2), (2, 3)])
  many = typ == 'quant' and rng.random() < .12
  if many:   # the same questions again after many nodes were noised
    o['h'], o['b'] = rng.choice([(4, 16), (6, 5), (3, 30), (10, 2)])
    ops = [{'op': 'new', 'id': 1, 'type': typ, 'opt': o}]
    ops += [{'op': 'add', 'id': 1, **goagg.value(rng, typ, o)} for _ in range(12)]
    mode = rng.choice(['abs', 'add'])
    ranks = [repr(rng.random()) for _ in range(rng.choice([8, 24, 48]))]
    for r in ranks + rng.sample(ranks, 6):
      ops.append({'op': 'res', 'id': 1, 'arg': r, 'noise': {
          'mode': mode, 'vals': [repr(rng.random() * 30 - 3) for _ in range(7)]}})
    return dict(case, ops=ops, other=[goagg.value(rng, typ, o)['v'] if op['op'] == 'add'
                                      else None for op in ops])
  n = rng.choice([1, 1, 2, 3])
  ops = []
  ids = list(range(1, n + 1))
  for i in ids:
    ops.append({'op': 'new', 'id': i, 'type': typ, 'opt': o})
    if typ == 'quant' and rng.random() < .7:
      for c in _tree_data(o):
        ops.append({'op': 'add', 'id': i, **c})
    else:
      for _ in range(rng.randint(0, 4)):
        ops.append({'op': 'add', 'id': i, **goagg.value(rng, typ, o)})
  slots = []
  nxt = 100
  for _ in range(rng.randint(2, 16 if tier == 'thorough' else 10)):
    i = rng.choice(ids)
    a = rng.choice(['res'] * 5 + ['add'] * 3 + ['merge'] * 3 + ['enc'] * 2 + ['ci'] +
                   ['dec'])
    if a == 'add':
      ops.append({'op': 'add', 'id': i, **goagg.value(rng, typ, o)})
    elif a == 'merge' and len(ids) > 1:
      j = rng.choice([x for x in ids if x != i])
      ops.append({'op': 'merge', 'id': i, 'other': j})
    elif a == 'enc':
      nxt += 1
      slots.append(nxt)
      ops.append({'op': 'enc', 'id': i, 'slot': nxt})
    elif a == 'dec' and slots:
      nxt += 1
      ops.append({'op': 'dec', 'id': nxt, 'type': typ, 'slot': rng.choice(slots)})
      ids.append(nxt)
    elif a == 'ci' and typ in ('count', 'sumi', 'sumf'):
      ops.append({'op': 'ci', 'id': i, 'arg': '0.1'})
    elif a == 'res':
      r = goagg.release(rng, typ, o, rng.randint(0, 12))
      r['id'] = i
      r['noise'] = {'mode': 'abs', 'vals': goagg.noise_vals(rng, typ)}
      if typ == 'sel':
        r['unif'] = [repr(rng.choice([0.0001, 0.5, 0.999])) for _ in range(4)]
      elif typ == 'quant' and rng.random() < .5:
        r['noise']['mode'] = 'add'
        r['noise']['vals'] = ['0.25']
      if rng.random() < .4:
        at = rng.randrange(3 if typ != 'quant' else 2 * o['b'])
        r['noise']['fail'] = {str(at): rng.choice(['err', 'err', 'panic'])}
      ops.append(r)
  case['ops'] = ops
  # a second data set of the same shape
  other = []
  for op in ops:
    if op['op'] == 'add' and typ not in ('count', 'sel'):
      c = goagg.value(rng, typ, o)
      other.append(c['v'])
    elif op['op'] == 'add':
      other.append(op['n'] + rng.choice([1, 7]))
    else:
      other.append(None)
  case['other'] = other
  return case


def execute(case, cov):
  typ = case['type']
  ops = case['ops']
  cov.probe(typ)
  cov.step(len(ops))
  # Drop operations on objects whose restore failed or never happened.
  reps = goagg.run(_valid(ops))
  ops = _valid(ops)
  state = {}
  rankvals = {}
  drawn = {}
  seen = []
  failed_before = set()
  stats = goagg.STATS.get(typ, 1)
  slots = {}
  for k, (op, r) in enumerate(zip(ops, reps)):
    i = op['id']
    a = op['op']
    err = r.get('err')
    calls = r.get('calls') or []
    # (a constructor validates its options by noising a placeholder 0)
    real = [x for x in (r.get('real') or [])
            if x['Method'].startswith('AddNoise') and float(x['Args'][0]) != 0]
    cov.trace(a, i, bool(err), r.get('panic'), r.get('val'), len(calls))
    where = f'operation {k} {json.dumps(op)} on a {state.get(i)} {typ}'
    if r.get('panic') and r['panic'] != 'noise':
      raise Violation('panic', f'{where} panicked: {r["panic"]}')
    if a == 'new':
      if err:
        raise Violation('legal-operation-failed', f'{where}: {err}')
      state[i] = 'alive'
      continue
    if a == 'dec':
      if err:
        raise Violation('legal-operation-failed', f'{where}: {err}')
      state[i] = 'alive'
      rankvals.pop(i, None)
      drawn.pop(i, None)
      continue
    st = state[i]
    seen.append((st, a, bool(err)))
    if a == 'ci':
      cov.probe('interval')
      if calls or real:
        raise Violation('noise-outside-release', f'{where} drew noise')
      continue
    legal = st == 'alive'
    if a == 'enc' and st == 'serialized':
      legal = True
      cov.probe('re-encode')
    if a == 'merge' and state[op['other']] != 'alive':
      legal = False
      cov.probe('dead-other')
    if a == 'res' and typ == 'quant' and st == 'released':
      legal = True
    if not legal:
      cov.nontrivial = True
      cov.fault('operation-on-dead')
      cov.probe({'add': 'dead-add', 'merge': 'dead-merge', 'res': 'dead-release',
                 'enc': 'dead-encode'}[a])
      if i in failed_before:
        cov.probe('release-after-failure')
      if not err:
        raise Violation('dead-object-used', f'{where} returned no error '
                        f'(reply {r.get("val")})')
      if calls or real or r.get('unif') or r.get('panic'):
        raise Violation('noise-outside-release',
                        f'{where} was refused but drew noise: {calls or real}')
      if r.get('len'):
        raise Violation('revealed', f'{where} was refused but returned data')
      continue
    if a in ('add', 'merge', 'enc'):
      if calls or real or r.get('unif'):
        raise Violation('noise-outside-release', f'{where} drew noise')
      if err:
        raise Violation('legal-operation-failed', f'{where}: {err}')
      if a == 'merge':
        state[op['other']] = 'merged'
      elif a == 'enc':
        state[i] = 'serialized'
      continue
    # a release
    failing = [c for c in calls if c.get('err')]
    for c in failing:
      cov.fault('noise-' + c['err'])
      cov.probe('noise-error' if c['err'] == 'err' else 'noise-panic')
      cov.nontrivial = True
    if failing:
      failed_before.add(i)
      if not err and not r.get('panic'):
        raise Violation('failure-swallowed', f'{where}: the noise mechanism failed '
                        f'but the release returned {r.get("val")}')
    elif err:
      raise Violation('legal-operation-failed', f'{where}: {err}')
    if typ == 'quant':
      cov.probe('ranks')
      if i in failed_before and not failing:
        cov.probe('tree-retry')
      book = drawn.setdefault(i, [])
      book += [c['x'] for c in calls if not c.get('err')]
      nodes = sum(case['opt']['b'] ** l for l in range(1, case['opt']['h'] + 1))
      if len(book) > nodes:
        raise Violation('node-noised-twice', f'{where}: {len(book)} noise draws for a '
                        f'tree of {nodes} nodes')
      counts = [x for x in book if float(x) != 0]
      if len(set(counts)) != len(counts) and _unique(ops[:k], i, case['opt']):
        raise Violation('node-noised-twice', f'{where}: a node was noised twice: {book}')
      if not err and not r.get('panic'):
        memo = rankvals.setdefault(i, {})
        if op['arg'] in memo and memo[op['arg']] != r['val']:
          raise Violation('second-release', f'{where}: rank {op["arg"]} gave '
                          f'{memo[op["arg"]]} and then {r["val"]}')
        if len(memo) > 30:
          cov.probe('many-ranks')
        if op['arg'] in memo and calls:
          raise Violation('node-noised-twice', f'{where}: a repeated rank drew noise')
        memo[op['arg']] = r['val']
    elif typ == 'sel':
      if len(real) > 1 or (not real and r.get('unif', 0) > 1):
        raise Violation('second-release', f'{where} drew randomness more than once')
    elif len(calls) > stats:
      raise Violation('second-release', f'{where} called the noise mechanism '
                      f'{len(calls)} times for {stats} statistics')
    state[i] = 'released'
  cov.state((typ, tuple(seen)))
  _twin(case, ops, reps, cov)


def _valid(ops):
  have = set()
  slots = set()
  dead = set()
  out = []
  st = {}
  for op in ops:
    i = op['id']
    if op['op'] == 'new':
      st[i] = 'alive'
      out.append(op)
      continue
    if op['op'] == 'dec':
      if op['slot'] not in slots:
        continue
      st[i] = 'alive'
      out.append(op)
      continue
    if i not in st or (op['op'] == 'merge' and op['other'] not in st):
      continue
    if op['op'] == 'enc' and st[i] in ('alive', 'serialized'):
      slots.add(op['slot'])
      st[i] = 'serialized'
    elif op['op'] == 'merge' and st[i] == 'alive' and st[op['other']] == 'alive':
      st[op['other']] = 'merged'
    elif op['op'] == 'res' and st[i] == 'alive':
      st[i] = 'released'
    out.append(op)
  return out


def _unique(ops, i, o):
  """True if the object holds exactly one tree data set (all counts differ)."""
  if o['b'] ** o['h'] > 64:
    return False
  adds = [x for x in ops if x['op'] == 'add' and x['id'] == i]
  want = _tree_data(o)
  return (not any(x['op'] == 'merge' and x['id'] == i for x in ops) and
          [(x['v'], x['n']) for x in adds] == [(x['v'], x['n']) for x in want])


def _twin(case, ops, reps, cov):
  """Releases and errors may depend on noised values only."""
  typ = case['type']
  if typ == 'sel' or any(op.get('how') == 'pre' for op in ops):
    return  # pre-thresholds depend on the exact count by design
  if any(op['op'] == 'res' and op['noise']['mode'] != 'abs' for op in ops):
    return
  cov.probe('twin')
  index = {id(op): v for op, v in zip(case['ops'], case['other'])}
  twin = []
  for op in ops:
    v = index.get(id(op))
    if op['op'] == 'add' and v is not None:
      op = dict(op, n=v) if typ == 'count' else dict(op, v=v)
    twin.append(op)
  again = goagg.run(twin)
  for k, (op, a, b) in enumerate(zip(ops, reps, again)):
    if op['op'] == 'enc':
      continue
    for key in ('err', 'panic', 'val', 'unif'):
      if a.get(key) != b.get(key):
        raise Violation('depends-on-raw-data', f'operation {k} {json.dumps(op)} gave '
                        f'{key} {a.get(key)} and {b.get(key)} on two data sets '
                        'although every noised value was the same')
    if len(a.get('calls') or []) != len(b.get('calls') or []):
      raise Violation('depends-on-raw-data', f'operation {k} made a different number '
                      'of noise calls on another data set')
