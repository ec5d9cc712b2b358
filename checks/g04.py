"""G04: damaged or partial Go checkpoints are rejected, not misread."""
import json

from sim import goagg
from sim import gosim
from sim.core import Violation

ID = 'G04'
RULE = ('at least one damaged or foreign checkpoint was offered, or a worker crashed '
        'and recovered from disk')
REAL = ['go/dpagg', 'go/checks', 'go/noise (argument checks)', 'encoding/gob']
STUB = ['disk (checkpoint generations with torn and lost writes)',
        'noise.Noise of the aggregators (planned outcomes, recorded calls)',
        'crypto/rand.Reader (simulated)', 'glog', "gonum's normal distribution"]
ASSUMPTIONS = ['damage is truncation, loss or mix-up of whole checkpoints; bit flips '
               'are left to the storage layer']
RUNS = {'quick': 12000, 'thorough': 400000}
BUDGET = {'quick': 150, 'thorough': 2400}
SHRINK_LISTS = ('ops',)
STATE_MEASURE = 'distinct (type, sequence of operations and outcomes)'
PROBES = ['all-cuts', 'cut', 'empty', 'foreign', 'dead-receiver', 'fresh-receiver',
          'intact-over-used', 'crash', 'torn-write', 'lost-write', 'fallback',
          'empty-checkpoint'] + goagg.TYPES

prepare = gosim.prepare


def _fill(rng, ops, i, typ, o, hi=4):
  for _ in range(rng.randint(0, hi)):
    ops.append({'op': 'add', 'id': i, **goagg.value(rng, typ, o)})


def _attempts(rng, typ, o, big):
  """Checkpoints of one aggregator offered, damaged, to other receivers."""
  ops = []
  ops.append({'op': 'new', 'id': 1, 'type': typ, 'opt': o})
  _fill(rng, ops, 1, typ, o)
  ops.append({'op': 'enc', 'id': 1, 'slot': 1})
  # checkpoints of other types
  foreign = {}
  for k in range(rng.randint(1, 3)):
    ft = rng.choice([t for t in goagg.TYPES if t != typ])
    fo = goagg.opt(rng, ft)
    if rng.random() < .6:  # as alike as possible
      for key in ('eps', 'delta', 'l0', 'mc', 'noise'):
        fo[key] = o[key]
      if ft == 'sel' and float(fo['delta']) == 0:
        fo['delta'] = '0.001'
      if typ == 'sel' and fo['noise'] != 'g':
        fo['delta'] = '0'
      if ft in goagg.FLOATS and typ in goagg.FLOATS:
        fo['lo'], fo['hi'] = o['lo'], o['hi']
    ops.append({'op': 'new', 'id': 20 + k, 'type': ft, 'opt': fo})
    _fill(rng, ops, 20 + k, ft, fo)
    ops.append({'op': 'enc', 'id': 20 + k, 'slot': 20 + k})
    foreign[20 + k] = ft
  # receivers
  receivers = []
  nxt = 40
  for _ in range(rng.randint(1, 3)):
    nxt += 1
    kind = rng.choice(['alive', 'alive', 'fresh', 'dead', 'other-options'])
    if kind == 'fresh':
      receivers.append(nxt)
      continue
    ro = goagg.different(rng, typ, o) if kind == 'other-options' else o
    ops.append({'op': 'new', 'id': nxt, 'type': typ, 'opt': ro})
    _fill(rng, ops, nxt, typ, ro)
    if kind == 'dead':
      if rng.random() < .5:
        ops.append({'op': 'enc', 'id': nxt, 'slot': 99})
      else:
        ops.append(dict(goagg.release(rng, typ, ro, 3), id=nxt, how=''))
    receivers.append(nxt)
  for r in receivers:
    for _ in range(rng.randint(1, 4)):
      a = rng.choice(['cuts', 'cut', 'cut', 'empty', 'foreign', 'foreign'])
      if a == 'cuts':
        ops.append({'op': 'cuts', 'id': r, 'type': typ, 'slot': 1, 'bad': True})
      elif a == 'foreign' and foreign:
        s = rng.choice(sorted(foreign))
        ops.append({'op': 'dec', 'id': r, 'type': typ, 'slot': s, 'bad': 'foreign',
                    'from': foreign[s]})
      else:
        ops.append({'op': 'dec', 'id': r, 'type': typ, 'slot': 1,
                    'cut': 0 if a == 'empty' else rng.randint(1, 400) / 401,
                    'bad': 'empty' if a == 'empty' else 'cut'})
    if rng.random() < .6:
      ops.append({'op': 'dec', 'id': r, 'type': typ, 'slot': 1})
      if rng.random() < .5:
        _fill(rng, ops, r, typ, o, 2)
  return ops, receivers


def _recovery(rng, typ, o, big):
  """A worker that checkpoints to a failing disk, crashes and recovers."""
  ops = [{'op': 'new', 'id': 1, 'type': typ, 'opt': o}]
  cur = 1
  gens = []   # (slot, intact), oldest first
  slot = 0
  ident = 1
  for _ in range(rng.randint(2, 7 if not big else 14)):
    _fill(rng, ops, cur, typ, o, 3)
    slot += 1
    ops.append({'op': 'enc', 'id': cur, 'slot': slot})
    what = rng.choice(['ok', 'ok', 'ok', 'torn', 'lost'])
    if not gens:
      what = 'ok'
    if what == 'ok':
      gens.append((slot, None))
    elif what == 'torn':
      gens.append((slot, rng.choice([0, rng.randint(1, 400) / 401,
                                     rng.randint(1, 400) / 401])))
    crash = what != 'ok' or rng.random() < .4
    ident += 1
    if not crash:
      # serialising hands the aggregation over: the worker goes on with a copy
      ops.append({'op': 'dec', 'id': ident, 'type': typ, 'slot': slot})
      cur = ident
      continue
    ops.append({'op': 'free', 'id': cur, 'what': what})
    # the new process may reuse one receiver for all generations it tries
    reuse = rng.random() < .5
    if rng.random() < .5:
      ops.append({'op': 'new', 'id': ident, 'type': typ, 'opt': o})
      reuse = True
    while gens:
      s, cut = gens[-1]
      if cut is None:
        ops.append({'op': 'dec', 'id': ident, 'type': typ, 'slot': s})
        break
      ops.append({'op': 'dec', 'id': ident, 'type': typ, 'slot': s, 'cut': cut,
                  'bad': 'torn'})
      gens.pop()
      if not reuse:
        ident += 1
    cur = ident
  return ops, [cur]


def generate(rng, tier):
  typ = rng.choice(goagg.TYPES)
  o = goagg.opt(rng, typ)
  big = tier == 'thorough'
  mode = rng.choice(['attempts', 'attempts', 'recovery'])
  ops, last = (_attempts if mode == 'attempts' else _recovery)(rng, typ, o, big)
  rel = goagg.release(rng, typ, o, rng.randint(0, 12))
  return {'type': typ, 'opt': o, 'mode': mode, 'ops': ops, 'release': rel}


def execute(case, cov):
  typ = case['type']
  at, opts, state, slots, types = {}, {}, {}, {}, {}
  send, kept = [], []
  for op in case['ops']:
    i, a = op['id'], op['op']
    if a in ('add', 'enc', 'res', 'free') and i not in at:
      continue
    if a in ('dec', 'cuts') and op['slot'] not in slots:
      continue
    if a == 'new':
      at[i], opts[i], state[i], types[i] = [], op['opt'], 'alive', op['type']
    elif a == 'add':
      if state[i] != 'alive':
        continue
      at[i] = at[i] + [{'v': op['v'], 'n': op['n']}]
    elif a == 'enc':
      if state[i] != 'alive':
        continue
      slots[op['slot']] = (list(at[i]), opts[i])
      state[i] = 'dead'
    elif a == 'res':
      if state[i] != 'alive':
        continue
      state[i] = 'dead'
    elif a == 'free':
      del at[i], state[i]
    kept.append(op)
    q = dict(op)
    if 'cut' in q:
      q['cut'] = None  # fixed below, once lengths are known
    send.append(q)
    if a == 'dec' and not op.get('bad'):
      at[i], opts[i] = list(slots[op['slot']][0]), slots[op['slot']][1]
      state[i] = 'alive'
  # lengths of the checkpoints
  if any('cut' in q for q in send):
    probe = goagg.run([{k: v for k, v in q.items() if k != 'cut'} for q in send
                       if q['op'] in ('new', 'add', 'enc', 'res') or
                       q['op'] == 'dec' and not q.get('bad')])
    it = iter(probe)
    lens = {}
    for q in send:
      if q['op'] in ('new', 'add', 'enc', 'res') or q['op'] == 'dec' and not q.get('bad'):
        r = next(it)
        if q['op'] == 'enc':
          lens[q['slot']] = r.get('len', 0)
    for q, op in zip(send, kept):
      if 'cut' in q:
        n = lens[q['slot']]
        q['cut'] = min(n - 1, int(op['cut'] * n)) if n else 0
  tails = []
  for i in sorted(at):
    if i >= 20 and i < 40 or (i == 1 and case['mode'] == 'attempts'):
      continue
    rel = dict(case['release'], id=i)
    tails.append((i, len(send)))
    send.append(rel)
  reps = goagg.run(send)
  cov.probe(typ)
  cov.step(len(send))
  seen = []
  for k, (op, q, r) in enumerate(zip(kept, send, reps)):
    a = op['op']
    cov.trace(a, bool(r.get('err')), r.get('panic'), r.get('oks'), r.get('len'))
    seen.append((a, op.get('bad'), bool(r.get('err'))))
    if r.get('panic'):
      raise Violation('panic', f'operation {k} {json.dumps(q)} panicked: {r["panic"]}')
    if a == 'cuts':
      cov.probe('all-cuts')
      cov.fault('truncated-checkpoint', r.get('len', 0))
      cov.nontrivial = True
      if r.get('pans'):
        raise Violation('panic', f'restoring a truncated {typ} panicked: {r["pans"][0]}')
      if r.get('oks'):
        raise Violation('damaged-checkpoint-accepted',
                        f'a {typ} checkpoint of {r["len"]} bytes cut to '
                        f'{r["oks"]} bytes was restored without error')
      continue
    if op.get('bad'):
      cov.nontrivial = True
      cov.fault({'cut': 'truncated-checkpoint', 'empty': 'empty-checkpoint',
                 'foreign': 'foreign-checkpoint', 'torn': 'torn-write'}[op['bad']])
      cov.probe({'cut': 'cut', 'empty': 'empty', 'foreign': 'foreign',
                 'torn': 'torn-write'}[op['bad']])
      if op['bad'] == 'torn':
        cov.probe('fallback')
      if not r.get('err'):
        what = (f'a checkpoint of a {op["from"]}' if op['bad'] == 'foreign' else
                f'a checkpoint cut to {q["cut"]} bytes')
        raise Violation('foreign-checkpoint-accepted' if op['bad'] == 'foreign' else
                        'damaged-checkpoint-accepted',
                        f'operation {k}: a {typ} restored {what} without error')
      continue
    if r.get('err') and a != 'res':
      raise Violation('legal-operation-failed',
                      f'operation {k} {json.dumps(q)} failed: {r["err"]}')
    if a == 'free':
      cov.fault('crash')
      cov.probe('crash')
      cov.nontrivial = True
      if op.get('what') == 'lost':
        cov.fault('lost-write')
        cov.probe('lost-write')
  cov.state((typ, tuple(seen)))
  for i, at_k in tails:
    got = reps[at_k]
    cov.trace(got.get('val'), got.get('calls'), bool(got.get('err')))
    if got.get('panic'):
      raise Violation('panic', f'releasing {typ} {i} panicked: {got["panic"]}')
    bads = [op for op in kept if op['id'] == i and op.get('bad')]
    if state[i] == 'dead' and not (typ == 'quant' and got.get('val') and
                                   not got.get('err')):
      if bads:
        cov.probe('dead-receiver')
      if not got.get('err'):
        raise Violation('receiver-changed', f'{typ} {i} was dead, and released '
                        f'{got.get("val")} after refused restores')
      continue
    if state[i] == 'dead':
      continue  # a released quantile tree may answer again
    if not at[i]:
      cov.probe('empty-checkpoint')
    ref = goagg.reference(typ, opts[i], at[i], [case['release']])[0]
    diff = goagg.same_release(got, ref)
    if diff:
      raise Violation('receiver-changed' if bads else 'wrong-recovery',
                      f'{typ} {i} with options {opts[i]}: {diff}')
    if bads and any(op['op'] == 'dec' and not op.get('bad') and op['id'] == i
                    for op in kept):
      cov.probe('intact-over-used')
  for op in kept:
    if op['op'] in ('dec', 'cuts') and op.get('bad') and not any(
        x['op'] == 'new' and x['id'] == op['id'] for x in kept):
      cov.probe('fresh-receiver')
