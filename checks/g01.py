"""G01: sharded Go aggregation releases what a single aggregator would."""
from sim import goagg
from sim import gosim
from sim.core import Violation

ID = 'G01'
RULE = ('the input went through at least one merge or one serialisation before '
        'the release, or an incompatible merge was attempted')
REAL = ['go/dpagg', 'go/checks', 'go/noise (argument checks, thresholds, intervals)',
        'go/rand', 'encoding/gob']
STUB = ['noise.Noise of the aggregators (planned outcomes, recorded calls)',
        'crypto/rand.Reader (simulated)', 'glog', "gonum's normal distribution"]
ASSUMPTIONS = ['float inputs are exact in binary, so their sums do not depend on order']
RUNS = {'quick': 40000, 'thorough': 1500000}
BUDGET = {'quick': 150, 'thorough': 2400}
SHRINK_LISTS = ('ops',)
STATE_MEASURE = 'distinct (type, sequence of operation kinds)'
PROBES = ['merge', 'serialise', 'serialise-retry', 'lost-worker', 'refused-merge',
          'chain', 'interval', 'worker-replay', 'empty-shard', 'late-restore',
          'wrong-receiver'] + goagg.TYPES

prepare = gosim.prepare


def generate(rng, tier):
  typ = rng.choice(goagg.TYPES)
  o = goagg.opt(rng, typ)
  ops = []
  ids = iter(range(1, 10000))
  slots = iter(range(1, 10000))
  live = {}        # id -> number of contributions since its last checkpoint
  stored = []      # slots whose content is owed to the result
  content = {}     # id or ('s', slot) -> contributions not yet released

  def new(option=None):
    i = next(ids)
    ops.append({'op': 'new', 'id': i, 'type': typ, 'opt': option or o})
    return i

  def fresh():
    i = new()
    live[i] = True
    content[i] = []
    return i

  fresh()
  foreign = None
  budget = rng.randint(3, 40 if tier == 'thorough' else 22)
  while budget > 0:
    budget -= 1
    a = rng.choice(['add'] * 6 + ['new'] * 2 + ['enc'] * 3 + ['dec'] * 3 +
                   ['merge'] * 3 + ['crash', 'junk', 'incompatible', 'retry'])
    if a == 'new' and len(live) < 5:
      fresh()
    elif a == 'add' and live:
      i = rng.choice(sorted(live))
      c = goagg.value(rng, typ, o)
      content[i].append(c)
      ops.append({'op': 'add', 'id': i, **c})
    elif a == 'enc' and live:
      i = rng.choice(sorted(live))
      s = next(slots)
      ops.append({'op': 'enc', 'id': i, 'slot': s})
      copies = [s]
      while rng.random() < .35:  # the acknowledgement was lost: serialise again
        s = next(slots)
        ops.append({'op': 'enc', 'id': i, 'slot': s})
        copies.append(s)
      stored.append((copies, content.pop(i)))
      del live[i]
    elif a == 'dec' and stored:
      copies, held = stored.pop(rng.randrange(len(stored)))
      if rng.random() < .3:  # a worker restores it, adds junk and is lost
        j = next(ids)
        ops.append({'op': 'dec', 'id': j, 'type': typ, 'slot': rng.choice(copies)})
        ops.append({'op': 'add', 'id': j, **goagg.value(rng, typ, o)})
        if rng.random() < .5:
          ops.append({'op': 'enc', 'id': j, 'slot': 0})
        ops.append({'op': 'free', 'id': j, 'tag': 'lost'})
      if rng.random() < .25 and live:
        # restore into an object that was used for something else before
        j = new(goagg.different(rng, typ, o) if rng.random() < .5 else None)
        for _ in range(rng.randint(0, 2)):
          ops.append({'op': 'add', 'id': j, **goagg.value(rng, typ, o)})
        ops.append({'op': 'dec', 'id': j, 'slot': rng.choice(copies), 'tag': 'over'})
      else:
        j = next(ids)
        ops.append({'op': 'dec', 'id': j, 'type': typ, 'slot': rng.choice(copies)})
      live[j] = True
      content[j] = held
    elif a == 'merge' and len(live) > 1:
      i, j = rng.sample(sorted(live), 2)
      ops.append({'op': 'merge', 'id': i, 'other': j})
      content[i] += content.pop(j)
      del live[j]
    elif a == 'crash' and live:
      # everything the shard holds is lost; its input is replayed elsewhere
      i = rng.choice(sorted(live))
      ops.append({'op': 'free', 'id': i, 'tag': 'crash'})
      held = content.pop(i)
      del live[i]
      j = fresh()
      for c in held:
        ops.append({'op': 'add', 'id': j, **c})
        content[j].append(c)
    elif a == 'incompatible' and live:
      i = rng.choice(sorted(live))
      if foreign is None:
        fo = goagg.different(rng, typ, o)
        foreign = (new(fo), fo, [])
        for _ in range(rng.randint(0, 3)):
          c = goagg.value(rng, typ, fo)
          ops.append({'op': 'add', 'id': foreign[0], **c})
          foreign[2].append(c)
      pair = (i, foreign[0]) if rng.random() < .5 else (foreign[0], i)
      ops.append({'op': 'merge', 'id': pair[0], 'other': pair[1], 'refuse': True})
  while stored:
    copies, held = stored.pop()
    j = next(ids)
    ops.append({'op': 'dec', 'id': j, 'type': typ, 'slot': rng.choice(copies)})
    live[j] = True
    content[j] = held
  rest = sorted(live)
  rng.shuffle(rest)
  if not rest:
    rest = [fresh()]
  while len(rest) > 1:
    k = rng.randrange(len(rest) - 1)
    i, j = rest[k], rest.pop(k + 1)
    if rng.random() < .5:
      i, j = j, i
    rest[k] = i
    ops.append({'op': 'merge', 'id': i, 'other': j})
    content[i] += content.pop(j)
  total = sum(c['n'] for c in content[rest[0]]) if typ in ('count', 'sel') else 0
  tails = [[rest[0], o, content[rest[0]], _tail(rng, typ, o, total)]]
  if foreign is not None:
    ftotal = sum(c['n'] for c in foreign[2]) if typ in ('count', 'sel') else 0
    tails.append([foreign[0], foreign[1], foreign[2],
                  _tail(rng, typ, foreign[1], ftotal)])
    rng.shuffle(tails)
  return {'type': typ, 'opt': o, 'ops': ops, 'tails': tails}


def _tail(rng, typ, o, total):
  tail = []
  if typ == 'sel' and rng.random() < .3 and float(o['delta']) > 1e-4:
    tail.append({'op': 'hard'})
  r = goagg.release(rng, typ, o, total)
  if rng.random() < .25 and typ != 'sel':
    # the real mechanism; only what it is asked for is compared
    r['noise'] = {'mode': 'real'}
    r['seed'] = rng.randrange(1, 1 << 40)
  tail.append(r)
  if typ == 'quant':
    for _ in range(rng.randint(0, 3)):
      tail.append(dict(r, arg=str(rng.choice([0.1, 0.5, 0.99]))))
  if typ in ('count', 'sumi', 'sumf') and r['noise']['mode'] != 'real' and rng.random() < .4:
    tail.append({'op': 'ci', 'arg': str(rng.choice([0.05, 0.5]))})
  return tail


def _model(case):
  """Contributions of every object at the end (the harness's own bookkeeping)."""
  at, slots = {}, {}
  for op in case['ops']:
    i = op['id']
    if op['op'] == 'new':
      at[i] = []
    elif op['op'] == 'add':
      at[i].append({'v': op['v'], 'n': op['n']})
    elif op['op'] == 'merge' and not op.get('refuse'):
      at[i] = at[i] + at.pop(op['other'])
    elif op['op'] == 'enc':
      slots[op['slot']] = list(at[i])
    elif op['op'] == 'dec':
      at[i] = list(slots[op['slot']])
    elif op['op'] == 'free':
      del at[i]
  return at


def execute(case, cov):
  typ = case['type']
  at = _model(case)
  ops = list(case['ops'])
  spans = []
  for i, o, _, tail in case['tails']:
    spans.append((len(ops), len(ops) + len(tail)))
    ops += [dict(t, id=i) for t in tail]
  reps = goagg.run(ops)
  n = len(case['ops'])
  encs = {}
  kinds = []
  restored = set()
  for k, (op, r) in enumerate(zip(case['ops'], reps)):
    kinds.append(op['op'])
    if r.get('panic'):
      raise Violation('panic', f'operation {k} {op} panicked: {r["panic"]}')
    if op.get('refuse'):
      cov.probe('refused-merge')
      cov.fault('incompatible-merge')
      if not r.get('err'):
        raise Violation('incompatible-merge-accepted',
                        f'operation {k} merged aggregators with different options')
      continue
    if r.get('err'):
      raise Violation('legal-operation-failed',
                      f'operation {k} {op} failed: {r["err"]}')
    if op['op'] == 'enc':
      encs[op['id']] = encs.get(op['id'], 0) + 1
      cov.probe('serialise')
      if encs[op['id']] > 1:
        cov.probe('serialise-retry')
        cov.fault('lost-acknowledgement')
      if op['id'] in restored:
        cov.probe('chain')
    elif op['op'] == 'dec':
      restored.add(op['id'])
      if op.get('tag') == 'over':
        cov.probe('wrong-receiver')
      if k > 0 and case['ops'][k - 1]['op'] != 'enc':
        cov.probe('late-restore')
    elif op['op'] == 'merge':
      cov.probe('merge')
      cov.nontrivial = True
    elif op['op'] == 'free':
      cov.probe('lost-worker' if op.get('tag') == 'lost' else 'worker-replay')
      cov.fault('worker-lost')
  if encs:
    cov.nontrivial = True
  cov.probe(typ)
  cov.step(len(ops))
  cov.state((typ, tuple(kinds)))
  for (i, o, _, tail), (lo, hi) in zip(case['tails'], spans):
    if not at.get(i):
      cov.probe('empty-shard')
    ref = goagg.reference(typ, o, at[i], tail)
    for t, got, want in zip(tail, reps[lo:hi], ref):
      cov.trace(t['op'], got.get('val'), got.get('calls'), got.get('err'))
      if t['op'] == 'ci':
        cov.probe('interval')
      diff = goagg.same_release(got, want)
      if diff:
        raise Violation('release-differs',
                        f'{typ} with options {o}: the sharded aggregation differs '
                        f'from one aggregator over the same input: {diff}')
