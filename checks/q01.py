"""Q01: every SQL aggregate releases the statistic of its group's entries, once."""
import math

from sim import pgsim
from sim.core import Violation

ID = 'Q01'
RULE = ('a run is one simulated database session: queries with one aggregate each, hashed, '
        'sorted or as window functions, whose calls the executor interleaves, cancels and '
        'aborts; every result is compared with the same statistic taken straight from the '
        'library on the same entropy; non-trivial if a group of two or more entries was '
        'released')
REAL = ['cc/postgres', 'cc/algorithms', 'cc/base', 'third_party/cephes', 'protobuf']
STUB = ['the database server: headers, executor, memory contexts, errors as long jumps '
        '(cc/pg); the installation script is read by sim/pgsim.py', 'OpenSSL RAND_bytes '
        '(entropy of the seed)', 'absl logging']
ASSUMPTIONS = ['64-bit server that passes 8-byte values in the datum', 'parameters are '
               'literals, the same for all rows of a query, as the documentation demands']
RUNS = {'quick': 4000, 'thorough': 300000}
BUDGET = {'quick': 60, 'thorough': 1200}
SHRINK_LISTS = ('queries',)
STATE_MEASURE = '(aggregate, column type, parameters, plan, outcomes)'
NAMES = ['count', 'sum', 'sum_with_bounds', 'avg', 'avg_with_bounds', 'var', 'var_with_bounds',
         'stddev', 'stddev_with_bounds', 'ntile']
PROBES = (NAMES + ['col-' + t for t in 'dlisp'] +
          ['hashed', 'sorted', 'window', 'frame', 'outside', 'default-epsilon', 'null-entry',
           'null-group', 'no-rows', 'null-parameter', 'bad-parameter', 'cancelled',
           'library-error', 'int-result', 'double-result', 'out-of-range', 'interleaved',
           'cast'])

prepare = pgsim.prepare
LN3 = math.log(3)


def _query(rng):
  name = rng.choice(NAMES)
  col = rng.choice('dddllisp' if name == 'count' else 'dddllis')
  bounds = name.endswith('bounds') or name == 'ntile'
  scale = rng.choice([1, 10, 10, 100, 1e4])
  if col == 'l' and rng.random() < .15:
    scale = 9e18
  lo = rng.choice([0, 0, -scale, -1, scale / 2])
  hi = lo + scale * rng.choice([1, 1, 2, .3])
  if rng.random() < .03:
    lo, hi = hi, lo
  if rng.random() < .04:
    lo, hi = rng.choice([('-inf', 1.0), ('nan', 2.0), (0.0, 1e300), (-1e300, 0.0), (5.0, 5.0),
                         (1e19, 4e19)])
  params = []
  if name == 'ntile':
    params.append(rng.choice([.5, .5, 0, 1, .1, .9, round(rng.random(), 3)] +
                             ([-.1, 1.5, 'nan'] if rng.random() < .1 else [])))
  if bounds:
    params += [lo, hi]
  if rng.random() < .7:
    params.append(rng.choice(([LN3, 1, 10, .1, 30] if name == 'ntile' else [LN3, 1, 10, .1, 1e3, 1e6, 1e6]) +
                             ([0, -1, 'inf', 'nan', 1e-300] if rng.random() < .2 else [])))
  params = [float(p) if not isinstance(p, str) else p for p in params]
  nullparam = rng.randrange(len(params)) if params and rng.random() < .04 else None
  groups = rng.choice([1, 1, 2, 3, 5])
  n = rng.choice([0, 1, 2, 3, 5, 9, 20])
  if not bounds and name != 'count' and rng.random() < .6:
    n = rng.choice([30, 60, 120])
    groups = rng.choice([1, 1, 2])

  def value():
    r = rng.random()
    if r < .12:
      return None
    if col == 'p':
      return ''
    x = rng.choice([rng.uniform(-1, 2) * scale, scale * rng.random(), lo, hi, 0])
    if isinstance(x, str):
      x = 0
    if r < .15 and col == 'd':
      return rng.choice(['nan', 'inf', '-inf', 1e300])
    if col == 'd':
      return float(x) if not isinstance(x, str) else x
    top = {'l': 2**63 - 1, 'i': 2**31 - 1, 's': 2**15 - 1}[col]
    if r < .17:
      x = rng.choice([top, -top - 1])
    return int(max(-top - 1, min(top, int(x))))

  only_null = rng.random() < .06
  rows = [[rng.randrange(groups), None if only_null else value()] for _ in range(n)]
  plan = rng.choice(['hashed', 'hashed', 'sorted', 'sorted', 'window', 'frame', 'outside']
                    if rng.random() < .4 else ['hashed', 'sorted'])
  if plan in ('window', 'frame'):
    rows = rows[:12]
  return {'name': name, 'col': col, 'params': params, 'nullparam': nullparam, 'rows': rows,
          'plan': plan,
          'grouped': rng.random() < .8, 'cancel': rng.choice([None] * 9 + [rng.randrange(1, 20)]),
          'turn': rng.randrange(1 << 20)}


def generate(rng, tier):
  qs = [_query(rng) for _ in range(rng.choice([1, 1, 2, 3, 4]))]
  return {'seed': rng.randrange(1, 1 << 40), 'queries': qs, 'cursors': rng.random() < .5}


def _arg(v, t):
  if v is None:
    return 'n'
  if t == 'a':
    return v
  return f'{t}:{v if isinstance(v, str) else repr(float(v)) if t == "d" else int(v)}'


class Query:

  def __init__(self, i, q, script):
    self.i, self.q = i, q
    eps_at = {'count': 0, 'sum': 0, 'avg': 0, 'var': 0, 'stddev': 0, 'ntile': 3}.get(q['name'], 2)
    ps = q['params']
    self.kind = q['name'].split('_')[0]
    self.bounds = q['name'].endswith('bounds') or q['name'] == 'ntile'
    self.eps = ps[eps_at] if len(ps) > eps_at else LN3
    self.default_eps = len(ps) <= eps_at
    self.pct = ps[0] if q['name'] == 'ntile' else 0
    self.lo, self.hi = ps[eps_at - 2:eps_at] if self.bounds else (0, 0)
    types = (q['col'],) + ('d',) * len(ps)
    got = script.resolve('anon_' + q['name'], types)
    if got is None:
      raise Violation('no-function', f'anon_{q["name"]}{types} cannot be created or called')
    self.accum, self.strict, self.extract, self.ret, self.types = got
    want = 'l' if self.kind == 'count' or (self.kind in ('sum', 'ntile') and q['col'] != 'd') else 'd'
    if self.ret != want:
      raise Violation('result-type', f'anon_{q["name"]}{types} returns {self.ret}')
    self.ops = self._plan()

  def _args(self, v):
    first = self.types[0]
    if v is None:
      a = 'n'
    elif first == 'a':  # any type, passed as it is
      a = 'p' if self.q['col'] == 'p' else _arg(v, self.q['col'])
    else:
      a = _arg(v, first)
    rest = [_arg(None if k == self.q['nullparam'] else p, 'd')
            for k, p in enumerate(self.q['params'])]
    return ' '.join([a] + rest)

  def _plan(self):
    """The calls of the executor: (what, state, entry or None, line)."""
    q, ops, i = self.q, [], self.i
    kind = {'window': 2, 'frame': 2}.get(q['plan'], 1)
    ret = 'double' if self.ret == 'd' else 'int'

    def accum(state, v, k=kind):
      if self.strict and (v is None or q['nullparam'] is not None):
        return  # the server itself leaves the row out
      ops.append(('accum', state, v, f'accum {state} {self.accum} {k} {state} {self._args(v)}'))

    def extract(state, k=kind):
      ops.append(('extract', state, None, f'extract {state} {self.extract} {k} {state} {ret}'))

    def done(state):
      ops.append(('done', state, None, f'reset {state}'))
      ops.append(('done', state, None, f'forget {state}'))

    rows = [(g if q['grouped'] else 0, v) for g, v in q['rows']]
    groups = sorted({g for g, _ in rows}) or ([] if q['grouped'] else [0])
    name = lambda g: f'q{i}.g{g}'
    if q['plan'] == 'outside':
      for n, (g, v) in enumerate(rows):
        accum(name(g), v, 0 if n == len(rows) // 2 and q['turn'] % 2 else 1)
      for g in groups:
        extract(name(g), 0)
    elif q['plan'] == 'hashed':
      for g, v in rows:
        accum(name(g), v)
      for g in groups:
        extract(name(g))
      for g in groups:
        done(name(g))
    elif q['plan'] == 'sorted':
      for g in groups:
        for h, v in rows:
          if h == g:
            accum(name(g), v)
        extract(name(g))
        done(name(g))
    elif q['plan'] == 'window':  # from the start of the partition to the current row
      for g in groups:
        for h, v in rows:
          if h == g:
            accum(name(g), v)
            extract(name(g))
        done(name(g))
    else:  # a frame of two rows: the server starts again for each row
      for g in groups:
        before = None
        for n, v in enumerate([v for h, v in rows if h == g]):
          state = f'{name(g)}.{n}'
          if n:
            accum(state, before)
          accum(state, v)
          extract(state)
          done(state)
          before = v
    if q['cancel'] is not None:
      ops = ops[:q['cancel']]
    return ops

  def make(self, name):
    return (f'omake {name} {self.kind} {self.eps!r} {int(self.bounds)} {self.lo!r} {self.hi!r} '
            f'{self.pct!r}').replace("'", '')


def _round(v):
  t = int(v)
  if abs(v - t) >= .5:
    t += 1 if v > 0 else -1
  return t


def execute(case, cov):
  script = pgsim.Script()
  qs = [Query(i, q, script) for i, q in enumerate(case['queries'])]
  # whose turn it is: open cursors interleave, otherwise one query after the other
  sched, left = [], [len(q.ops) for q in qs]
  at = [0] * len(qs)
  mix = case['seed']
  while any(a < n for a, n in zip(at, left)):
    ready = [i for i in range(len(qs)) if at[i] < left[i]]
    mix = (mix * 6364136223846793005 + 1442695040888963407) % (1 << 64)
    i = ready[(mix >> 33) % len(ready)] if case['cursors'] else ready[0]
    if case['cursors'] and len(ready) > 1:
      cov.probe('interleaved')
    sched.append((i, qs[i].ops[at[i]]))
    at[i] += 1
  cov.schedule(tuple(i for i, _ in sched))

  made, dead = pgsim.run([q.make(f'p{i}') for i, q in enumerate(qs)], 60)
  if dead:
    raise RuntimeError(f'harness: the library died while building: {dead}')
  refused = ['error' in r for r in made]

  lines = [f"seed {case['seed']}"] + [op[3] for _, op in sched]
  out, dead = pgsim.run(lines, 60)
  if dead:
    raise Violation('crash', f'the server died ({dead}) in {lines[dead.done]!r} of '
                    f'{qs[sched[dead.done - 1][0]].q["plan"]} query')
  real = out[1:]

  # The same statistics, straight from the library on the same entropy.
  olines, where = [f"seed {case['seed']}"], {}
  full = {}      # state -> non-null entries so far
  known = set()  # states with an algorithm
  released = set()
  for n, ((i, (what, st, v, _)), rep) in enumerate(zip(sched, real)):
    if refused[i] or qs[i].q['nullparam'] is not None or 'skipped' in rep or what == 'done':
      continue
    if what == 'accum':
      full.setdefault(st, [])
      if st not in known:
        known.add(st)
        olines.append(qs[i].make(st))
      if v is not None:
        full[st].append(v)
        x = '1' if qs[i].kind == 'count' else v if isinstance(v, str) else repr(float(v))
        olines.append(f'oadd {st} {x}')
    elif st in known and st not in released and ('v' in rep or rep.get('info') or full[st]):
      if 'error' in rep:
        continue
      released.add(st)
      where[n] = len(olines)
      olines.append(f'ores {st}')
  want, dead = pgsim.run(olines, 60)
  if dead:
    raise RuntimeError(f'harness: the library died: {dead} {olines[dead.done]}')

  seen_error = set()
  null_rows = {}
  for n, ((i, (what, st, v, line)), rep) in enumerate(zip(sched, real)):
    q, plan = qs[i], qs[i].q['plan']
    tell = f'anon_{q.q["name"]} ({plan}) of {q.q["col"]}, {q.q["params"]}'
    cov.step()
    if 'missing' in rep:
      raise Violation('no-function', f'{tell}: the library has no function {rep["missing"]}')
    if 'skipped' in rep or what == 'done':
      continue
    if n == 0 or i not in null_rows:
      null_rows[i] = 0
      _cover(q, cov)
    bad = refused[i] or q.q['nullparam'] is not None
    outside = line.split(' ')[3] == '0'
    if 'error' in rep:
      seen_error.add(i)
      if bad:
        cov.probe('null-parameter' if q.q['nullparam'] is not None else 'bad-parameter')
      if outside:
        cov.probe('outside')
        cov.fault('call outside an aggregate')
      w = want[where[n]] if n in where else {}
      if bad or outside or plan in ('window', 'frame') or _big(q, st, full):
        continue
      raise Violation('error', f'{tell}: {what} failed with {rep["error"]!r} {w}')
    if outside:
      raise Violation('outside', f'{tell}: {what} outside an aggregate was answered: {rep}')
    if what == 'accum':
      if bad and v is not None:
        raise Violation('bad-parameter', f'{tell}: an entry was accepted with '
                        f'{"a NULL parameter" if not refused[i] else "parameters the library refuses"}')
      if v is None:
        cov.probe('null-entry')
      continue
    # results
    if bad:
      if 'v' in rep:
        raise Violation('bad-parameter', f'{tell}: {rep}')
      continue
    if st not in known:
      cov.probe('no-rows')
      if 'v' in rep:
        raise Violation('no-rows', f'{tell}: a result without rows: {rep}')
      continue
    if n not in where:
      if 'v' in rep:
        raise Violation('released-twice', f'{tell}: group {st} gave a second result {rep}')
      continue
    w = want[where[n]]
    k = len([1 for x in full[st]])
    cov.state((q.q['name'], q.q['col'], len(q.q['params']), plan, 'v' in rep))
    if not full[st]:
      cov.probe('null-group')
    if 'error' in w:
      cov.probe('library-error')
      if 'v' in rep:
        raise Violation('error-hidden', f'{tell}: the library refuses ({w["error"]}), but the '
                        f'group {st} gives {rep}')
      continue
    x = float(w['v'])
    if q.ret == 'd':
      ok = 'v' in rep and (float(rep['v']) == x or x != x and float(rep['v']) != float(rep['v']))
      cov.probe('double-result')
      show = x
    else:
      cov.probe('int-result')
      if x != x:
        continue
      r = _round(x) if abs(x) < 1e300 else int(math.copysign(2**70, x))
      show = max(-2**63, min(2**63 - 1, r))
      if show != r:
        cov.probe('out-of-range')
        ok = 'v' not in rep or rep['v'] == show
      else:
        ok = rep.get('v') == show
    if not ok:
      raise Violation('wrong-result', f'{tell}: group {st} of {len(full[st])} entries gives '
                      f'{rep}, the library gives {show!r} for its entries {full[st][:6]}')
    if len(full[st]) >= 2:
      cov.nontrivial = True
  for i, q in enumerate(qs):
    if q.q['cancel'] is not None and len(q.ops) == q.q['cancel'] and i not in seen_error:
      cov.probe('cancelled')
      cov.fault('query cancelled')
  cov.trace(len(real), [repr(r) for r in real if 'v' in r][-3:])


def _big(q, st, full):
  """A sum or quantile of these entries may lie beyond a bigint."""
  m = max([abs(float(v)) for v in full.get(st, []) if v != ''] +
          [abs(float(b)) for b in (q.lo, q.hi)] + [0])
  return q.ret == 'l' and q.kind != 'count' and not m * max(1, len(full.get(st, []))) < 2**60


def _cover(q, cov):
  cov.probe(q.q['name'])
  cov.probe('col-' + q.q['col'])
  if q.q['plan'] != 'outside':
    cov.probe(q.q['plan'])
  if q.default_eps:
    cov.probe('default-epsilon')
  if q.types[0] not in (q.q['col'], 'a'):
    cov.probe('cast')
