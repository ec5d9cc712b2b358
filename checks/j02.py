"""J02: A Java aggregator releases once; refused and failed steps leave no trace."""
from sim import goagg
from sim import jvagg
from sim import jvsim
from sim.core import Violation

ID = 'J02'
RULE = ('an aggregator went through adds, merges of good, damaged and foreign summaries, '
        'hand-overs, releases, intervals and failures of its noise or entropy; each step '
        'was held against the life of an aggregator, and each release against a fresh '
        'aggregator of the entries it should stand for')
REAL = ['java/main/com/google/privacy/differentialprivacy (all aggregators, partition '
        'selection, checks; in a part of the runs the noise as well)', 'proto/*.proto']
STUB = ['Noise of the aggregators (planned outcomes and failures, recorded calls) except '
        'in real-noise runs', 'SecureRandom (simulated provider)',
        'summaries in transit (damaged by the simulator)',
        'the protocol buffer runtime, AutoValue, commons-math3']
ASSUMPTIONS = ['a damaged summary that is accepted may stand for other entries: nothing '
               'is claimed about that aggregator afterwards',
               'summaries of approximate bounds carry their bins only']
RUNS = {'quick': 16000, 'thorough': 1200000}
BUDGET = {'quick': 75, 'thorough': 1500}
SHRINK_LISTS = ('ops',)
STATE_MEASURE = 'distinct (type, options, history shape)'
MUTS = ['cut', 'drop', 'swap', 'flip', 'tail', 'hex', 'foreign', 'type']
PROBES = (['type-' + t for t in jvagg.TYPES] + ['mut-' + m for m in MUTS] +
          ['released', 'refused-again', 'refused-dead', 'merge-refused', 'merge-accepted',
           'noise-failed', 'entropy-failed', 'real-noise', 'ci', 'ci-early', 'asked-again',
           'bad-argument', 'released-after-refusal', 'thresholded', 'enc-twice'])

prepare = jvsim.prepare


def _good(rng, typ, o, raw):
  op = jvagg.release(rng, typ, o)
  if raw or typ in ('sel', 'approx'):
    op.pop('noise', None)
    op['seed'] = rng.randrange(1, 1 << 40)
  return op


def generate(rng, tier):
  typ = rng.choice(jvagg.TYPES)
  raw = typ not in ('sel', 'approx') and rng.random() < .2
  o = jvagg.opt(rng, typ)
  few = lambda: [jvagg.value(rng, typ, o) for _ in range(rng.choice([0, 1, 2, 5]))]
  ops = []
  for _ in range(rng.randint(3, 14)):
    r = rng.random()
    if r < .3:
      ops.append(['add', few()])
    elif r < .42:
      ops.append(['res', _good(rng, typ, o, raw)])
    elif r < .47:
      op = _good(rng, typ, o, raw)
      if raw or typ in ('sel', 'approx'):
        op['faults'] = {str(rng.choice([0, 0, 1, 2, 5])): 'entropy-fails'}
        op.pop('unif', None)
        op.pop('always', None)
      elif 'noise' in op:
        op['noise'] = dict(op['noise'], fail={str(rng.choice([0, 0, 1, 2])): 1})
      ops.append(['res', op])
    elif r < .51:
      op = _good(rng, typ, o, raw)
      if typ == 'quant':
        op['arg'] = rng.choice(['-0.5', '1.5', 'nan', '-1e-300'])
      elif typ == 'count':
        op.update(how='thr', arg=rng.choice(['0', '1', '-1', 'nan', '2']))
      ops.append(['res', op])
    elif r < .62 and typ not in ('var', 'approx', 'sel'):
      ops.append(['ci', rng.choice(['.05', '.5', '.95', '0', '1', 'nan']) if
                  rng.random() < .3 else '.1', rng.choice(['.5', '0', '.9'])])
    elif r < .68:
      ops.append(['enc'])
    elif r < .74:
      ops.append(['merge', few()])
    else:
      m = rng.choice(MUTS)
      d = {'with': jvagg.different(rng, typ, o)}
      if m == 'cut':
        d['cut'] = repr(rng.choice([rng.random(), rng.random(), 0.0, .99]))
      elif m == 'drop':
        d['drop'] = rng.randrange(12)
      elif m == 'swap':
        d['swap'] = rng.randrange(12)
      elif m == 'flip':
        d['flip'] = rng.randrange(1 << 12)
      elif m == 'tail':
        d['tail'] = rng.choice(['ff', '00', '0a05', '12ffffffff7f', 'ffffffffffffffffffff01',
                                '08'])
      elif m == 'hex':
        d['hex'] = rng.choice(['', 'ff', '0a', '0a00', '0801', '0a020801', '7f7f7f7f'])
      elif m == 'type':
        t = rng.choice([t for t in jvagg.TYPES if t != typ])
        d['type'] = t
        d['with'] = jvagg.opt(rng, t)
      ops.append(['damaged', few() if m != 'type' else [], m, d])
  ops.append(['res', _good(rng, typ, o, raw)])
  if typ == 'quant' and rng.random() < .12:   # the same questions after many nodes
    ranks = [repr(rng.random()) for _ in range(rng.choice([8, 24, 48]))]
    ops += [['res', dict(_good(rng, typ, o, raw), arg=r)]
            for r in ranks + rng.sample(ranks, 6)]
  return {'type': typ, 'opt': o, 'raw': raw, 'ops': ops}


def _program(case):
  typ, o = case['type'], case['opt']
  if case['raw']:
    o = dict(o, raw='1')
  prog = [{'op': 'new', 'id': 0, 'type': typ, 'opt': o}]
  todo = [None]

  def do(op, what=None):
    prog.append(op)
    todo.append(what)

  for i, op in enumerate(case['ops'], 1):
    if op[0] == 'add':
      for c in op[1]:
        do(jvagg.add(0, c), ['add', c])
    elif op[0] == 'res':
      do(dict(op[1], id=0), op)
    elif op[0] == 'ci':
      do({'op': 'ci', 'id': 0, 'arg': op[1], 'rank': op[2]}, op)
    elif op[0] == 'enc':
      do({'op': 'enc', 'id': 0, 'slot': i}, op)
    else:
      m = op[2] if op[0] == 'damaged' else ''
      d = op[3] if m else {}
      merge = {'op': 'merge', 'id': 0, 'slot': i}
      t, oo = d.get('type', typ), d['with'] if m in ('foreign', 'type') else case['opt']
      do({'op': 'new', 'id': i, 'type': t, 'opt': oo})
      for c in op[1]:
        do(jvagg.add(i, c))
      do({'op': 'enc', 'id': i, 'slot': i})
      if m == 'swap':
        do({'op': 'new', 'id': i + 1000, 'type': typ, 'opt': d['with']})
        do({'op': 'enc', 'id': i + 1000, 'slot': i + 1000})
        merge['with'] = i + 1000
      for k in ('cut', 'drop', 'swap', 'flip', 'tail', 'hex'):
        if k in d:
          merge[k] = d[k]
      do(merge, op)
  return prog, todo


def _bad_argument(typ, op):
  if typ == 'quant':
    return not 0 <= float(op['arg']) <= 1
  return op.get('how') == 'thr' and not 0 < float(op['arg']) < 1


def _fails(case, op):
  return bool(op.get('faults') or (op.get('noise') or {}).get('fail'))


def execute(case, cov):
  typ, o = case['type'], case['opt']
  prog, todo = _program(case)
  reps, faults = jvagg.run(prog)
  for k, n in faults.items():
    cov.fault(k, n)
    cov.probe('entropy-failed' if k.startswith('entropy') else 'noise-failed')
  cov.probe('type-' + typ)
  if case['raw']:
    cov.probe('real-noise')
  cov.step(len(prog))
  cov.state((typ, sorted(o.items()), ''.join(x[0][:2] for x in case['ops'])))
  cov.trace(reps)
  if 'err' in reps[0]:
    raise Violation('refused', f'{typ} {o}: {reps[0]["err"]}')
  # open: entries may come and go; sent: handed over; done: released.
  # maybe: an attempt with an invalid argument may have ended the open phase.
  phase, held, want, outs = 'open', [], [], {'0', '0.0', '-0.0'}
  asked, calls, refused, failed = {}, 0, False, False
  nodes = sum(o['b'] ** k for k in range(1, o['h'] + 1)) if typ == 'quant' else 0
  can_fail = typ == 'approx'
  for op, rep, what in zip(prog, reps, todo):
    if what is None:
      continue
    ok = 'err' not in rep
    noise = [c for c in rep.get('calls', ()) if c['m'] in ('i', 'f') and 'out' in c]
    text = f'{typ} {o}: {op}'
    calls += len(noise)
    outs |= {str(c.get('out')) for c in noise}
    if typ == 'quant' and calls > nodes:
      raise Violation('noised-again', f'{text}: {calls} noise draws for {nodes} nodes')
    if what[0] != 'res' and noise and not (what[0] == 'ci' and typ == 'quant'):
      raise Violation('noise', f'{text} drew noise: {noise}')
    if what[0] in ('add', 'merge', 'enc', 'damaged') and phase == 'maybe':
      if what[0] != 'damaged' or ok:
        phase = 'open' if ok else 'done'
    if what[0] == 'add':
      if ok != (phase == 'open'):
        raise Violation('phase', f'{text} when {phase}: {rep}')
      if ok:
        held = held if held is None else held + [what[1]]
        asked = {}
      else:
        cov.probe('refused-dead')
    elif what[0] == 'enc':
      if ok != (phase in ('open', 'sent')):
        raise Violation('phase', f'{text} when {phase}: {rep}')
      if phase == 'sent':
        cov.probe('enc-twice')
      if phase == 'open':
        phase = 'sent'
    elif what[0] == 'merge':
      if ok != (phase == 'open'):
        raise Violation('phase', f'{text} of a good summary when {phase}: {rep}')
      if ok:
        held = held if held is None else held + what[1]
    elif what[0] == 'damaged':
      cov.probe('mut-' + what[2])
      cov.fault('summary damaged: ' + what[2])
      if ok and phase in ('sent', 'done'):
        raise Violation('phase', f'{text} when {phase}: {rep}')
      if ok:
        if what[2] == 'foreign':
          raise Violation('foreign', f'{text}: a summary made with {what[3]["with"]} was '
                          'merged')
        cov.probe('merge-accepted')
        held = None
      else:
        cov.probe('merge-refused')
        refused = True
    elif what[0] == 'ci':
      a = float(what[1])
      if phase == 'maybe':
        if ok:
          phase = 'done'
        continue
      good = phase == 'done' and 0 < a < 1 and o['noise'] != 'd'
      if phase != 'done':
        cov.probe('ci-early')
      if ok != good and (ok or not failed):
        raise Violation('phase', f'{text} when {phase}: {rep}')
      if ok:
        cov.probe('ci')
        for c in rep.get('calls', ()):
          if c['m'] in ('ci', 'cf') and str(c['x']) not in outs:
            raise Violation('unnoised', f'{text} starts from {c["x"]}; released were '
                            f'{sorted(outs)}')
        key = ('ci', what[1], what[2] if typ == 'quant' else '')
        if key in asked and asked[key] != rep['val']:
          raise Violation('noised-again', f'{text} gave {asked[key]}, now {rep["val"]}')
        asked[key] = rep['val']
    else:
      op1 = what[1]
      if op1.get('how') == 'thr':
        cov.probe('thresholded')
      if phase == 'sent' or phase == 'done' and typ != 'quant':
        if ok or noise:
          raise Violation('released-again', f'{text} when {phase} gives {rep}')
        cov.probe('refused-again')
        continue
      if _bad_argument(typ, op1):
        cov.probe('bad-argument')
        if ok:
          raise Violation('accepted', f'{text} gives {rep}')
        if phase == 'open':
          phase = 'done' if noise else 'maybe'
        continue
      if phase == 'maybe' and not ok and not noise and not _fails(case, op1):
        phase = 'done'
        continue
      again = phase == 'done'
      failed = failed or not ok
      phase = 'done'
      if typ == 'quant':
        key = ('q', op1['arg'])
        if key in asked and ok:
          cov.probe('asked-again')
          if asked[key] != rep['val'] or noise:
            raise Violation('noised-again', f'{text} gave {asked[key]}, now {rep}')
        if ok:
          asked[key] = rep['val']
      if not ok and not _fails(case, op1) and not can_fail:
        raise Violation('release-failed', f'{text}: {rep["err"]}')
      if not again:
        cov.probe('released')
        if refused and ok:
          cov.probe('released-after-refusal')
        if held is not None:
          want.append((op1, list(held), rep))
  refs = []
  for k, (op, h, _) in enumerate(want):
    oo = dict(o, raw='1') if case['raw'] else o
    refs.append({'op': 'new', 'id': 'r', 'type': typ, 'opt': oo})
    refs += [jvagg.add('r', c) for c in h]
    refs.append(dict(op, id='r'))
  if not refs:
    return
  ref, _ = jvagg.run(refs)
  ends = [r for op, r in zip(refs, ref) if op['op'] == 'res']
  for (op, h, rep), r in zip(want, ends):
    cov.nontrivial = True
    if rep != r:
      raise Violation('trace', f'{typ} {o}: {op} gives {rep}; a fresh aggregator of its '
                      f'{len(h)} entries gives {r}')

