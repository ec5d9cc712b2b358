"""X02: C++ results are released once; failed merges and resets leave no trace."""
from sim import ccgen
from sim.core import Violation

ID = 'X02'
RULE = ('an aggregation went through adds, releases, repeated releases, resets, '
        'intervals and damaged merges, and each release was compared with a fresh '
        'aggregation of the entries it should stand for')
REAL = ['cc/algorithms', 'cc/base', 'cc/proto', 'third_party/cephes']
STUB = ['noise values (planned by the simulator and recorded)',
        'summaries in transit (damaged by the simulator)', 'absl logging']
ASSUMPTIONS = ['a damaged summary that is accepted may stand for other entries: nothing '
               'is claimed about that aggregation until it is reset']
RUNS = {'quick': 14000, 'thorough': 1200000}
BUDGET = {'quick': 90, 'thorough': 1500}
SHRINK_LISTS = ('ops',)
STATE_MEASURE = 'distinct (algorithm, type, history shape)'
MUTS = ['flip', 'cut', 'empty', 'join', 'drop', 'short', 'bounds', 'foreign']
PROBES = (['kind-' + k for k in ccgen.KINDS] + ['mut-' + m for m in MUTS] +
          ['tree', 'approx', 'released', 'refused-again', 'reset', 'merge-failed',
           'merge-accepted', 'unreadable', 'of-range', 'ci', 'release-failed',
           'tree-again'])

prepare = ccgen.prepare


def _tree(rng):
  """A history over one quantile tree and privatised versions of it."""
  lo = rng.choice([-4, 0, 3])
  c = {'kind': 'tree', 't': rng.choice('ild'),
       'kv': {'lower': lo, 'upper': lo + rng.choice([1, 3, 8, 1000]),
              'height': rng.randint(1, 5), 'branch': rng.randint(2, 17)}}
  ops = []
  for _ in range(rng.randint(1, 4)):
    ops.append(['add', ccgen.entries(rng, c, rng.choice([1, 3, 9]))])
  for _ in range(rng.randint(1, 3)):
    asks = [[rng.choice(['q', 'q', 'ci']), rng.choice([0, .1, .25, .5, .75, .9, 1])]
            for _ in range(rng.randint(2, 6))]
    ops.append(['private', asks])
    r = rng.random()
    if r < .3:
      ops.append(['reset'])
    elif r < .6:
      ops.append(['add', ccgen.entries(rng, c, 3)])
    elif r < .8:
      ops.append(['damaged', ccgen.entries(rng, c, 3),
                  rng.choice(['height', 'branch', 'bounds'])])
  return {'cfg': c, 'ops': ops, 'plan': ccgen.plan(rng, 400), 'noise':
          rng.choice(['laplace', 'gauss'])}


def generate(rng, tier):
  if rng.random() < .15:
    return _tree(rng)
  c = ccgen.config(rng)
  ops = []
  for _ in range(rng.randint(3, 16)):
    r = rng.random()
    if r < .3:
      ops.append(['add', ccgen.entries(rng, c, rng.choice([1, 2, 3, 5, 9]))])
    elif r < .55:
      ops.append(['result', rng.choice(['', .5, .9, .95])])
    elif r < .65:
      ops.append(['reset'])
    elif r < .7:
      ops.append(['ci', rng.choice([.5, .9])])
    elif r < .76:
      ops.append(['results', ccgen.entries(rng, c, rng.choice([1, 3, 6]))])
    elif r < .8:
      ops.append(['merge', ccgen.entries(rng, c, rng.choice([0, 2, 5]))])
    else:
      ops.append(['damaged', ccgen.entries(rng, c, rng.choice([0, 2, 5])),
                  rng.choice(MUTS), rng.randrange(1 << 12), rng.randrange(16)])
  ops.append(['result', .9])
  return {'cfg': c, 'ops': ops, 'plan': ccgen.plan(rng)}


def execute(case, cov):
  c = case['cfg']
  for op in case['ops']:
    cov.step()
  cov.probe('tree' if c['kind'] == 'tree' else 'kind-' + c['kind'])
  if c.get('approx'):
    cov.probe('approx')
  shape = ''.join(o[0][:2] for o in case['ops'])
  cov.state((c['kind'], c['t'], shape))
  (_run_tree if c['kind'] == 'tree' else _run)(case, cov)


def _run(case, cov):
  c = case['cfg']
  plan = ccgen.planned(case['plan'])
  lines, todo = [], []

  def do(line, what=None):
    lines.append(line)
    todo.append(what)

  do(ccgen.new(c, 'a'), 'new')
  for i, op in enumerate(case['ops']):
    if op[0] == 'add':
      do(ccgen.add('a', op[1]), op)
    elif op[0] == 'result':
      do(plan)
      do(f'result a {op[1]}'.strip(), op)
    elif op[0] == 'results':
      do(plan)
      do(ccgen.add('a', op[1], 'results'), op)
    elif op[0] == 'reset':
      do('reset a', op)
    elif op[0] == 'ci':
      do(f'ci a {op[1]}', op)
    elif op[0] in ('merge', 'damaged'):
      do(ccgen.new(c, f'b{i}'))
      do(ccgen.add(f'b{i}', op[1]))
      do(f'ser b{i} s{i}')
      if op[0] == 'damaged':
        do(f'ser a t{i}')
        do(f'mut s{i} {op[2]} at={op[3]} bit={op[3] % 8} num={op[4]} field={op[3]} '
           f'with=t{i}')
      do(f'merge a s{i}', op)
  out, dead = ccgen.run(lines)

  # What the aggregation should hold; None: nothing is known (until the reset).
  held, done, want = [], False, []
  for line, rep, op in zip(lines, out, todo):
    if op is None:
      continue
    if op == 'new':
      if 'err' in rep:
        return
      continue
    if op[0] == 'add':
      held = None if held is None else held + op[1]
    elif op[0] == 'reset':
      held, done = [], False
      cov.probe('reset')
    elif op[0] == 'ci':
      cov.probe('ci')
      if ccgen.noises(rep):
        raise Violation('ci-noise', f'{line!r} drew noise')
    elif op[0] in ('result', 'results'):
      if op[0] == 'results':
        held, done = list(op[1]), False
        cov.probe('of-range')
      if done:
        cov.probe('refused-again')
        if rep.get('code') != 3 or 'el' in rep:
          raise Violation('released-again', f'{line!r} after a release returned {rep}')
        if ccgen.noises(rep):
          raise Violation('released-again', f'{line!r} was refused but drew noise')
      else:
        done = True
        cov.probe('released')
        if 'err' in rep:
          cov.probe('release-failed')
        if held is not None:
          want.append((line, op, list(held), rep))
    elif op[0] == 'merge':
      if 'err' in rep or 'noparse' in rep:
        if held is not None:
          raise Violation('merge', f'{line!r} of a good summary failed: {rep}')
      held = None if held is None else held + op[1]
    else:
      cov.probe('mut-' + op[2])
      cov.fault('summary damaged: ' + op[2])
      if 'noparse' in rep:
        cov.probe('unreadable')
      elif 'err' in rep:
        cov.probe('merge-failed')
      else:
        cov.probe('merge-accepted')
        held = None
  if dead:
    line = lines[dead.done]
    if held is not None:
      raise Violation('crash', f'the process ended ({dead}) at {line!r}')
    return
  refs = []
  for line, op, h, _ in want:
    refs += [ccgen.new(c, 'r'), ccgen.add('r', h), plan,
             f'result r {op[1]}'.strip() if op[0] == 'result' else 'result r']
  ref, dead = ccgen.run(refs)
  if dead:
    raise Violation('crash', f'the process ended ({dead}) at {refs[dead.done]!r}')
  cov.trace(len(want), [ccgen.seen(r) for r in out])
  for (line, op, h, rep), r in zip(want, ref[3::4]):
    a, b = ccgen.seen(rep), ccgen.seen(r)
    if a != b:
      raise Violation('state', f'{c["kind"]} over {c["t"]}: {line!r} gives {a}; a fresh '
                      f'aggregation of its {len(h)} entries gives {b}')
    cov.nontrivial = True


def _run_tree(case, cov):
  c = case['cfg']
  kv = ' '.join(f'{k}={v}' for k, v in c['kv'].items())
  plan = ccgen.planned(case['plan'])
  lines = [f'qt-new a {c["t"]} {kv}']
  asked, held, bad = [], [], []
  for i, op in enumerate(case['ops']):
    if op[0] == 'add':
      lines.append(ccgen.add('a', op[1], 'qt-add'))
      held = held + op[1]
    elif op[0] == 'reset':
      lines.append('qt-reset a')
      held = []
      cov.probe('reset')
    elif op[0] == 'damaged':
      k2 = dict(c['kv'])
      if op[2] == 'bounds':
        k2['upper'] += 1
      else:
        k2[op[2]] += 1
      lines.append(f'qt-new b {c["t"]} ' + ' '.join(f'{k}={v}' for k, v in k2.items()))
      lines.append(ccgen.add('b', op[1], 'qt-add'))
      lines.append('qt-ser b s')
      bad.append(len(lines))
      lines.append('qt-merge a s')
      cov.fault('foreign tree')
    else:
      lines.append(f'qt-priv a p{i} eps=1 l0=1 delta={0 if case["noise"] == "laplace" else .01} '
                   f'noise={case["noise"]}')
      for what, q in op[1]:
        lines.append(plan)   # each question on its own if nothing were remembered
        asked.append((len(lines), what, q, i, list(held)))
        lines.append(f'qt-{what} a p{i} {q}' + (' .9' if what == 'ci' else ''))
  out, dead = ccgen.run(lines)
  if dead:
    raise Violation('crash', f'the process ended ({dead}) at {lines[dead.done]!r}')
  for n in bad:
    if 'err' not in out[n]:
      raise Violation('foreign', f'a tree of other parameters was merged: {lines}')
    cov.probe('merge-failed')
  # Each node's count is noised once per privatised version: the same question
  # gets the same answer, and the nodes' inputs never repeat within a version
  # beyond the nodes there are.
  first = {}
  for n, what, q, i, h in asked:
    rep = {k: v for k, v in out[n].items() if k not in ('ev', 'op')}
    key = (i, what, q)
    if what == 'q':   # what an interval may depend on is judged below
      for k in [k for k in first if k[:2] == (i, 'ci')]:
        del first[k]
    if key in first:
      cov.probe('tree-again')
      if first[key] != rep:
        raise Violation('re-noised', f'{lines[n]!r} gave {first[key]} and then {rep}')
      if ccgen.noises(out[n]):
        raise Violation('re-noised', f'{lines[n]!r} drew noise when asked again')
    first[key] = rep
  # Whatever was asked before, an answer is the one a version asked only this
  # question gives when its nodes are noised alike: with constant noise the
  # order of the questions cannot show.
  refs, at = [], []
  for n, what, q, i, h in asked:
    ask = f'qt-{what} r p {q}' + (' .9' if what == 'ci' else '')
    refs += [f'qt-new r {c["t"]} {kv}', ccgen.add('r', h, 'qt-add'),
             f'qt-priv r p eps=1 l0=1 delta={0 if case["noise"] == "laplace" else .01} '
             f'noise={case["noise"]}', 'plan', ask]
    at.append(len(refs) - 1)
  quiet = [l if not l.startswith('plan') else 'plan' for l in lines]
  out, dead = ccgen.run(quiet)
  ref, dead2 = ccgen.run(refs)
  if dead or dead2:
    raise Violation('crash', f'the process ended ({dead} {dead2})')
  cov.trace([ccgen.seen(r) for r in out])
  known = None
  for k, ((n, what, q, i, h), m) in enumerate(zip(asked, at)):
    a = {k: v for k, v in out[n].items() if k not in ('ev', 'op')}
    b = {k: v for k, v in ref[m].items() if k not in ('ev', 'op')}
    cov.nontrivial = True
    if a == b:
      continue
    text = (f'{lines[n]!r} gives {a} after other questions and {b} when asked alone, with '
            f'no noise added')
    if what == 'ci':
      # Alone, an interval reads zero for every count; what it may depend on
      # is the quantile questions asked before it.
      before = [f'qt-q r p {o[2]}' for o in asked[:k] if o[3] == i and o[1] == 'q']
      only, dead = ccgen.run(refs[m - 4:m] + before + [refs[m]])
      if dead:
        raise Violation('crash', f'the process ended ({dead})')
      if before and a == {k: v for k, v in only[-1].items() if k not in ('ev', 'op')}:
        known = known or Violation('order', text, sig='interval-of-counts-not-noised')
        continue
    raise Violation('order', text)
  if known:
    raise known
