"""C03: the event builder is a faithful log and hands out stable snapshots."""
import copy

from dp_accounting import dp_event_builder

from sim import events as ev
from sim import inject
from sim.core import Violation

ID = 'C03'
RULE = ('a run is a random interleaving of compose, build, rejected and '
        'interrupted calls on two builders; non-trivial if a snapshot was taken, '
        'the builder was used further and a call failed')
REAL = ['dp_event', 'dp_event_builder']
STUB = []
ASSUMPTIONS = ['an interrupted call may or may not have taken effect, each '
               'possibility is followed']
RUNS = {'quick': 6000, 'thorough': 200000}
DOUBLE_EVERY = 32
SHRINK_LISTS = ('ops',)
STATE_MEASURE = '(length of log, snapshots held, last two operations)'
PROBES = ('build_after_reject', 'snapshot_reused', 'merged', 'interrupted_compose',
          'interrupted_build', 'nested_self', 'rebuild_unchanged', 'empty_build')

VOCAB = [['G', 1.0], ['G', 1.0], ['G', 2], ['L', 0.5], ['NP'], ['US'],
         ['P', 0.1, ['G', 1.0]], ['RR', 0.5, 3], ['T', 1.0, [2, 3]],
         ['C', [['G', 1.0], ['L', 0.5]]], ['C', [['G', 1.0]]], ['C', []],
         ['R', ['G', 1.0], 2.0, 1], ['M', 1.0, [0.0, 1.0], [0.5, 0.5]],
         ['W', 10, 3, ['G', 1.0]], ['WR', 10, 3, ['G', 1.0]], ['NO'], ['NO']]
BAD_COUNTS = [0, -1, -7, 1.5, 2.0, 'x', None, [1]]


def _event(rng):
  e = rng.choice(VOCAB)
  while rng.random() < 0.3:
    e = ['S', e, rng.randint(1, 4)]
  if rng.random() < 0.1:
    e = ['C', [e, rng.choice(VOCAB)]]
  return e


def generate(rng, tier):
  ops = []
  fail = rng.choice([0.1, 0.3])
  for _ in range(rng.randint(3, 18)):
    b = rng.choice([0, 0, 0, 1])
    r = rng.random()
    if r < fail:
      k = rng.choice(['badtype', 'badcount', 'badcount', 'icompose', 'ibuild'])
      if k == 'badtype':
        ops.append({'op': k, 'b': b, 'v': rng.choice(['str', 'none', 'class', 'tuple'])})
      elif k == 'badcount':
        ops.append({'op': k, 'b': b, 'ev': _event(rng), 'n': rng.choice(BAD_COUNTS)})
      elif k == 'icompose':
        ops.append({'op': k, 'b': b, 'ev': _event(rng), 'n': rng.choice([1, 2, 3]),
                    'fault': inject.random_spec(rng)})
      else:
        ops.append({'op': k, 'b': b, 'fault': inject.random_spec(rng)})
    elif r < fail + 0.3:
      ops.append({'op': 'build', 'b': b})
    elif r < fail + 0.35 and ops:
      ops.append({'op': 'badself', 'b': b, 'n': rng.choice([0, -2, 1.5])})
    else:
      ops.append({'op': 'compose', 'b': b, 'ev': _event(rng),
                  'n': rng.choice([1, 1, 1, 2, 5])})
  return {'ops': ops}


def append(log, e, n):
  """The model: a run-length log of (key, count)."""
  while e[0] == 'S':
    n *= e[2]
    e = e[1]
  if e[0] == 'NO':
    return log
  k = ev.key(ev.build(e))
  if log and log[-1][0] == k:
    return log[:-1] + ((k, log[-1][1] + n),)
  return log + ((k, n),)


def flat_log(log):
  """Denotation of a model log: fully flattened run-length sequence."""
  out = []

  def emit(k, n):
    # k is a key tuple; compositions are flattened, repetition unrolled
    if k[0] == 'NoOp':
      return
    if k[0] == 'Composed':
      for _ in range(n):
        for x in k[1][1:]:
          emit(x, 1)
      return
    if k[0] == 'SelfComposed':
      emit(k[1], int(k[2]) * n)
      return
    if out and out[-1][0] == k:
      out[-1][1] += n
    else:
      out.append([k, n])

  for k, n in log:
    emit(k, n)
  return tuple((k, n) for k, n in out)


def execute(case, cov):
  builders = [dp_event_builder.DpEventBuilder() for _ in range(2)]
  possible = [{()}, {()}]   # logs the builder may denote
  snaps = []                # (event, deep copy, key)
  failed = False

  def check_build(i, b, built):
    if not isinstance(built, ev.dp_event.DpEvent):
      raise Violation('not-an-event', f'op {i}: build returned {built!r}')
    got = flat_log([(ev.key(built), 1)])
    if got not in {flat_log(l) for l in possible[b]}:
      raise Violation('wrong-log', f'op {i}: build denotes {got}, composed were '
                      f'{[flat_log(l) for l in possible[b]]}')

  for i, op in enumerate(case['ops']):
    b = op['b']
    bld = builders[b]
    cov.step()
    if op['op'] == 'compose':
      bld.compose(ev.build(op['ev']), op['n'])
      if op['ev'][0] == 'S' and op['n'] > 1:
        cov.probe('nested_self')
      old = possible[b]
      possible[b] = {append(l, op['ev'], op['n']) for l in old}
      if {len(l) for l in old} == {len(l) for l in possible[b]} and op['ev'][0] != 'NO':
        cov.probe('merged')
      if any(s[3] == b for s in snaps):
        cov.probe('snapshot_reused')
        if failed:
          cov.nontrivial = True
    elif op['op'] == 'build':
      built = bld.build()
      check_build(i, b, built)
      if () in possible[b]:
        cov.probe('empty_build')
      if failed:
        cov.probe('build_after_reject')
      snaps.append((built, copy.deepcopy(built), ev.key(built), b))
    elif op['op'] in ('badtype', 'badcount', 'badself'):
      n = op.get('n', 1)
      if op['op'] == 'badtype':
        arg = {'str': 'x', 'none': None, 'class': ev.dp_event.NoOpDpEvent,
               'tuple': (ev.dp_event.GaussianDpEvent(1.0), 1)}[op['v']]
      elif op['op'] == 'badself':
        arg, n = ev.dp_event.SelfComposedDpEvent(ev.dp_event.GaussianDpEvent(1.0), n), 1
      else:
        arg = ev.build(op['ev'])
      before = bld.build()
      before_key = ev.key(before)
      check_build(i, b, before)
      try:
        bld.compose(arg, n)
        raised = False
      except (TypeError, ValueError):
        raised = True
      if not raised:
        raise Violation('not-rejected', f'op {i}: compose({arg!r}, {n!r}) was accepted')
      cov.fault('rejected_' + op['op'])
      failed = True
      after = bld.build()
      if ev.key(after) != before_key or after != before:
        raise Violation('reject-changed', f'op {i}: a rejected call changed the log '
                        f'from {before} to {after}')
      cov.probe('rebuild_unchanged')
    elif op['op'] == 'icompose':
      e = ev.build(op['ev'])
      dup = copy.deepcopy(bld)
      outcome, _, fired = inject.run_with_fault(
          op['fault'], lambda: bld.compose(e, op['n']),
          lambda: dup.compose(ev.build(op['ev']), op['n']))
      new = {append(l, op['ev'], op['n']) for l in possible[b]}
      if outcome == 'raised':
        cov.fault('interrupt_compose')
        cov.probe('interrupted_compose')
        failed = True
        possible[b] = possible[b] | new
        if len(possible[b]) > 64:
          break
      else:
        possible[b] = new
    elif op['op'] == 'ibuild':
      dup = copy.deepcopy(bld)
      outcome, built, fired = inject.run_with_fault(
          op['fault'], bld.build, dup.build)
      if outcome == 'raised':
        cov.fault('interrupt_build')
        cov.probe('interrupted_build')
        failed = True
      else:
        check_build(i, b, built)
    # nobody's log moved, no snapshot changed
    for j, other in enumerate(builders):
      check_build(i, j, other.build() if (i + j) % 3 == 0 or op['op'] != 'compose'
                  else copy.deepcopy(other).build())
    for built, dup, k, _ in snaps:
      if ev.key(built) != k or built != dup:
        raise Violation('snapshot-changed', f'op {i}: an event handed out earlier '
                        f'changed from {dup} to {built}')
    cov.state((min(map(len, possible[b])), len(snaps), op['op'],
               case['ops'][i - 1]['op'] if i else ''))
    cov.trace(i, op['op'], sorted(map(repr, possible[b])))
