"""X01: C++ summaries merged in any order equal one aggregation."""
from sim import ccgen
from sim.core import Violation

ID = 'X01'
RULE = ('entries were spread over several simulated nodes, moved between them as '
        'serialized summaries with crashes, late and repeated deliveries, and every '
        'node was compared with one aggregator that was given the same entries')
REAL = ['cc/algorithms (count, sum, mean, variance, standard deviation, quantiles, '
        'quantile tree, approximate bounds, order statistics)', 'cc/base', 'cc/proto',
        'third_party/cephes']
STUB = ['noise values (planned by the simulator and recorded)', 'the network and the '
        'checkpoint store between nodes', 'absl logging']
ASSUMPTIONS = ['entries are dyadic and small enough for exact sums']
RUNS = {'quick': 20000, 'thorough': 1500000}
BUDGET = {'quick': 90, 'thorough': 1500}
SHRINK_LISTS = ('ops',)
STATE_MEASURE = 'distinct (algorithm, type, history shape)'
PROBES = (['kind-' + k for k in ccgen.KINDS] +
          ['tree', 'merged', 'crashed', 'restored', 'repeated', 'stale', 'empty-summary',
           'approx', 'merged-into-merged', 'self'])

prepare = ccgen.prepare


def generate(rng, tier):
  tree = rng.random() < .15
  c = ccgen.config(rng)
  if tree:
    c = {'kind': 'tree', 't': rng.choice('ild'),
         'kv': {'lower': rng.choice([-4, 0, 3]), 'upper': 0,
                'height': rng.randint(1, 5), 'branch': rng.randint(2, 17)}}
    c['kv']['upper'] = c['kv']['lower'] + rng.choice([1, 3, 8, 1000])
  nodes = rng.randint(1, 4)
  ops = []
  slots = 0
  for _ in range(rng.randint(3, 18)):
    r = rng.random()
    if r < .4:
      ops.append(['add', rng.randrange(nodes), ccgen.entries(rng, c, rng.choice([1, 2, 3, 5, 9]))])
    elif r < .65 or not slots:
      ops.append(['ser', rng.randrange(nodes), slots])
      slots += 1
    elif r < .92:
      s = slots - 1 if rng.random() < .5 else rng.randrange(slots)
      ops.append(['merge', rng.randrange(nodes), s])
    else:
      ops.append(['crash', rng.randrange(nodes)])
      if rng.random() < .7:
        ops.append(['merge', ops[-1][1], rng.randrange(slots)])
  return {'cfg': c, 'nodes': nodes, 'ops': ops, 'plan': ccgen.plan(rng),
          'mix': rng.randrange(1 << 30), 'level': rng.choice([.5, .9, .95])}


def _program(case):
  """The commands, and for each node the entries it stands for at the end."""
  c = case['cfg']
  tree = c['kind'] == 'tree'
  pre = 'qt-' if tree else ''
  kv = ' '.join(f'{k}={v}' for k, v in c['kv'].items())
  new = (lambda n: f'qt-new {n} {c["t"]} {kv}') if tree else (lambda n: ccgen.new(c, n))
  lines, held, slots, seen = [], [[] for _ in range(case['nodes'])], {}, {}
  into = [0] * case['nodes']
  notes = []
  lines += [new(f'n{i}') for i in range(case['nodes'])]
  for op in case['ops']:
    if op[0] == 'add':
      lines.append(ccgen.add(f'n{op[1]}', op[2], pre + 'add'))
      held[op[1]] = held[op[1]] + op[2]
    elif op[0] == 'ser':
      lines.append(f'{pre}ser n{op[1]} s{op[2]}')
      slots[op[2]] = (held[op[1]], op[1], len(lines))
      if not held[op[1]]:
        notes.append('empty-summary')
    elif op[0] == 'merge' and op[2] in slots:
      lines.append(f'{pre}merge n{op[1]} s{op[2]}')
      got, src, at = slots[op[2]]
      held[op[1]] = held[op[1]] + got
      notes.append('merged')
      if seen.get((op[1], op[2])):
        notes.append('repeated')
      seen[op[1], op[2]] = True
      if src == op[1]:
        notes.append('self')
      if into[src]:
        notes.append('merged-into-merged')
      if at + 3 < len(lines):
        notes.append('stale')
      into[op[1]] += 1
    elif op[0] == 'crash':
      lines.append(new(f'n{op[1]}'))
      held[op[1]] = []
      notes.append('crashed')
      into[op[1]] = 0
  return lines, held, notes, new, pre


def execute(case, cov):
  import random
  c = case['cfg']
  lines, held, notes, new, pre = _program(case)
  tree = pre == 'qt-'
  head = len(lines)
  mix = random.Random(case['mix'])
  for i, h in enumerate(held):
    h = list(h)
    mix.shuffle(h)
    lines.append(new(f'r{i}'))
    lines.append(ccgen.add(f'r{i}', h, pre + 'add'))
    for n in (f'n{i}', f'r{i}'):
      lines.append(ccgen.planned(case['plan']))
      if tree:
        lines.append(f'qt-priv {n} p{n} eps=1 l0=2')
        for q in (0, .3, .5, .8, 1):
          lines.append(f'qt-q {n} p{n} {q}')
      else:
        lines.append(f'result {n} {case["level"]}')
  out, dead = ccgen.run(lines)
  if dead:
    raise Violation('crash', f'the process ended ({dead}) at {lines[dead.done]!r}')
  for line, rep in zip(lines[:head], out):
    if 'err' in rep:
      if line.startswith(('new', 'qt-new')):
        cov.probe('refused')
        return
      raise Violation('refused', f'{line!r} failed: {rep["err"]}')
    if 'noparse' in rep:
      raise Violation('bytes', f'{line!r}: the serialized summary does not parse')
    if ccgen.noises(rep):
      raise Violation('noise', f'{line!r} drew noise')
  per = 16 if tree else 6
  for i, h in enumerate(held):
    part = out[head + per * i:head + per * (i + 1)]
    a = part[2:2 + (per - 2) // 2]
    b = part[2 + (per - 2) // 2:]
    a, b = [ccgen.seen(r) for r in a], [ccgen.seen(r) for r in b]
    if a != b:
      raise Violation('merge', f'node {i} of {c["kind"]} over {c["t"]} gives {a} where one '
                      f'aggregator given the same {len(h)} entries gives {b}')
  cov.probe('tree' if tree else 'kind-' + c['kind'])
  for n in notes:
    cov.probe(n)
  if 'crashed' in notes:
    cov.fault('node crash', notes.count('crashed'))
    if 'merged' in notes:
      cov.probe('restored')
  for f, n in (('stale delivery', 'stale'), ('duplicate delivery', 'repeated')):
    if n in notes:
      cov.fault(f, notes.count(n))
  if c.get('approx'):
    cov.probe('approx')
  shape = ''.join(o[0][0] + str(o[1]) for o in case['ops'])
  cov.state((c['kind'], c['t'], shape))
  cov.trace(shape, [ccgen.seen(r) for r in out])
  for _ in case['ops']:
    cov.step()
  if 'merged' in notes:
    cov.nontrivial = True
