"""J01: Java summaries merged in any order equal one aggregation."""
from sim import jvagg
from sim import jvsim
from sim.core import Violation

ID = 'J01'
RULE = ('entries were spread over several simulated workers that hand over serialized '
        'summaries with crashes, late and repeated deliveries, and every worker was '
        'compared with one aggregator that was given the same entries')
REAL = ['java/main/com/google/privacy/differentialprivacy (Count, BoundedSum, '
        'LongBoundedSum, BoundedMean, BoundedVariance, BoundedQuantiles, '
        'ApproximateBounds, PreAggSelectPartition)', 'proto/*.proto']
STUB = ['Noise of the aggregators (planned outcomes, recorded calls)', 'SecureRandom '
        '(simulated provider)', 'the network and the store between workers',
        'the protocol buffer runtime, AutoValue, commons-math3']
ASSUMPTIONS = ['entries are exact in binary, so that sums are exact']
RUNS = {'quick': 20000, 'thorough': 1500000}
BUDGET = {'quick': 60, 'thorough': 1500}
SHRINK_LISTS = ('ops',)
STATE_MEASURE = 'distinct (type, options, history shape)'
PROBES = (['type-' + t for t in jvagg.TYPES] +
          ['merged', 'crashed', 'repeated', 'stale', 'empty-summary', 'self',
           'merged-into-merged', 'interval', 'collection', 'large-collection'])

prepare = jvsim.prepare


def generate(rng, tier):
  typ = rng.choice(jvagg.TYPES)
  o = jvagg.opt(rng, typ)
  n = rng.randint(1, 4)
  ops, slots = [], 0
  for _ in range(rng.randint(3, 18)):
    r = rng.random()
    if r < .4:
      ops.append(['add', rng.randrange(n), [jvagg.value(rng, typ, o) for _ in
                                            range(rng.choice([1, 2, 3, 6]))]])
      if rng.random() < .3:
        ops[-1][0] = 'adds'
        if rng.random() < .3:
          ops[-1][2] += [jvagg.value(rng, typ, o) for _ in range(rng.choice([0, 20, 70, 150, 300]))]
    elif r < .62 or not slots:
      ops.append(['ship', rng.randrange(n), slots])
      slots += 1
    elif r < .92:
      s = slots - 1 if rng.random() < .5 else rng.randrange(slots)
      ops.append(['merge', rng.randrange(n), s])
    else:
      ops.append(['crash', rng.randrange(n)])
      if rng.random() < .7:
        ops.append(['merge', ops[-1][1], rng.randrange(slots)])
  res = [jvagg.release(rng, typ, o) for _ in range(3 if typ == 'quant' else 1)]
  return {'type': typ, 'opt': o, 'n': n, 'ops': ops, 'res': res,
          'alpha': rng.choice(['.05', '.5']), 'mix': rng.randrange(1 << 30)}


def execute(case, cov):
  import random
  typ, o = case['type'], case['opt']
  prog, notes = [], []
  held = [[] for _ in range(case['n'])]
  at = list(range(case['n']))          # the object of each worker
  fresh = case['n']
  into, seen, slots = [0] * case['n'], set(), {}
  new = lambda i: {'op': 'new', 'id': i, 'type': typ, 'opt': o}
  prog += [new(i) for i in at]
  for op in case['ops']:
    w = op[1]
    if op[0] == 'add':
      prog += [jvagg.add(at[w], c) for c in op[2]]
      held[w] = held[w] + op[2]
    elif op[0] == 'adds':
      prog.append(jvagg.adds(at[w], op[2]))
      held[w] = held[w] + op[2]
      notes.append('large-collection' if len(op[2]) > 32 else 'collection')
    elif op[0] == 'ship':
      prog.append({'op': 'enc', 'id': at[w], 'slot': op[2]})
      slots[op[2]] = (held[w], w, len(prog))
      if not held[w]:
        notes.append('empty-summary')
      if into[w]:
        notes.append('merged-into-merged')
    elif op[0] == 'merge' and op[2] in slots:
      prog.append({'op': 'merge', 'id': at[w], 'slot': op[2]})
      got, src, when = slots[op[2]]
      held[w] = held[w] + got
      notes.append('merged')
      if (w, op[2]) in seen:
        notes.append('repeated')
      seen.add((w, op[2]))
      if src == w:
        notes.append('self')
      if when + 3 < len(prog):
        notes.append('stale')
      into[w] += 1
    elif op[0] == 'crash':
      notes.append('crashed')
    if op[0] in ('ship', 'crash'):     # a summary ends its aggregator's life
      at[w], fresh = fresh, fresh + 1
      prog.append(new(at[w]))
      held[w], into[w] = [], 0
  head = len(prog)
  mix = random.Random(case['mix'])
  marks = []
  for w, h in enumerate(held):
    ref = fresh + w
    prog.append(new(ref))
    prog += [jvagg.add(ref, c) for c in jvagg.spread(mix, h)]
    ends = []
    for ident in (at[w], ref):
      ends.append(len(prog))
      prog += [dict(r, id=ident) for r in case['res']]
      if typ in ('count', 'sumi', 'sumf') and o.get('noise') != 'd':
        prog.append({'op': 'ci', 'id': ident, 'arg': case['alpha']})
    marks.append((ends, len(prog) - ends[1]))
  reps, _ = jvagg.run(prog)
  for op, r in zip(prog[:head], reps):
    if 'err' in r:
      raise Violation('refused', f'{typ} {o}: {op} failed: {r["err"]}')
    if r.get('calls') and (op['op'] != 'new' or typ != 'var'):
      raise Violation('noise', f'{typ} {o}: {op} drew noise')
  for w, ((i, j), k) in enumerate(marks):
    a, b = reps[i:i + k], reps[j:j + k]
    if a != b:
      raise Violation('merge', f'worker {w} of {typ} {o} gives {a} where one aggregator '
                      f'given the same {len(held[w])} entries gives {b}')
    for r in a:
      if 'err' in r and typ != 'approx':
        raise Violation('refused', f'{typ} {o}: a release failed: {r["err"]}')
    if k > len(case['res']):
      cov.probe('interval')
  cov.probe('type-' + typ)
  for x in notes:
    cov.probe(x)
  for fault, x in (('worker crash', 'crashed'), ('stale delivery', 'stale'),
                   ('duplicate delivery', 'repeated')):
    if x in notes:
      cov.fault(fault, notes.count(x))
  shape = ''.join(x[0][0] + str(x[1]) for x in case['ops'])
  cov.state((typ, sorted(o.items()), shape))
  cov.trace(shape, reps[head:])
  cov.step(len(prog))
  if 'merged' in notes:
    cov.nontrivial = True
