"""A01: C++ privacy loss ledgers add up to what was spent, however they were built."""
import math

from sim import acref
from sim import acsim
from sim.core import Violation

ID = 'A01'
RULE = ('a run builds mechanisms, spends them in the ledgers of several simulated '
        'workers with repeated spends, hand-overs as bytes, refused spends, crashes, '
        'failing allocations and restarts from the stored bytes, then compares every '
        'answer with a direct composition of what each ledger holds; non-trivial if a '
        'ledger that holds two or more spends answered')
REAL = ['cc/accounting', 'cc/base']
STUB = ['absl::flat_hash_map (iteration order decided by the seed)',
        'KISS FFT (a transform of our own, whose allocations fail on demand)',
        'absl logging', 'the store of ledgers (bytes kept by the simulator)']
ASSUMPTIONS = ['privacy losses below 100; compositions of at most some hundred '
               'distributions and at most 20000 discrete losses']
RUNS = {'quick': 5000, 'thorough': 400000}
BUDGET = {'quick': 70, 'thorough': 1500}
SHRINK_LISTS = ('ops',)
STATE_MEASURE = 'distinct (estimate, mechanisms, history shape)'
KINDS = ['rr', 'pmf', 'params', 'laplace', 'gauss', 'dlaplace', 'dgauss', 'identity']
PROBES = (['kind-' + k for k in KINDS] +
          ['optimistic', 'pow', 'pow-narrow', 'merge', 'refused', 'stored', 'restored', 'crash',
           'alloc-failed', 'delta', 'eps', 'eps-infinite', 'composed-delta', 'all-infinite',
           'truncated', 'optimistic-not-stored'])

prepare = acsim.prepare
TOL = 1e-11
OTHER = ['pmf', [[0, .5], [1, .5]], [[0, .5], [2, .3], [1, .2]], -50]  # never fits


def _base(rng, h):
  kind = rng.choice(KINDS if rng.random() < .9 else ['pmf', 'laplace'])
  if kind == 'identity':
    return [kind]
  if kind == 'rr':
    return [kind, rng.choice([.02, .1, .3, .5, .7, .9, .99]), rng.choice([2, 2, 3, 5, 50])]
  if kind == 'params':
    return [kind, rng.choice([0, .1, .5, 1, 1.7, 3, round(rng.uniform(.01, 4), 4)]),
            rng.choice([0, 1e-9, 1e-5, .01, .3, 1])]
  if kind == 'laplace':
    # losses on the grid, beside it and anywhere
    k = rng.randint(1, max(1, int(4 / h)))
    s = rng.choice([1, 2, .5, 3])
    return [kind, rng.choice([s / (k * h), s / (k * h), rng.choice([1, 2, 5, 10]),
                              round(s / rng.uniform(.05, 5), 4)]), s]
  if kind == 'gauss':
    return [kind, round(rng.choice([.7, 1, 2, 5, rng.uniform(.6, 8)]), 3),
            rng.choice([1, 1, .5, 2]), rng.choice([-50, -50, -20, -10, -5])]
  if kind == 'dlaplace':
    s = rng.choice([1, 1, 2, 3, 7])
    return [kind, round(rng.choice([h, 2 * h, .1, .5, rng.uniform(.05, 3)]), 4), s]
  if kind == 'dgauss':
    s = rng.choice([1, 1, 2, 3])
    sg = round(rng.choice([1, 2, rng.uniform(1, 6)]), 3)
    return [kind, sg, s, rng.choice([0, 0, 0, s, 2 * s + 1, 10])]
  n = rng.choice([1, 2, 2, 3, 5, 9])

  def pmf():
    o = rng.sample(range(n + 2), n)
    w = [rng.choice([1, 1, 2, 7, .01, 1e-6, 1e-12]) for _ in o]
    return [[k, x / sum(w)] for k, x in zip(o, w)]

  return [kind, pmf(), pmf(), rng.choice([-50, -50, -20, -5])]


TAILS = ['', '', 0, 1e-15, 1e-10, 1e-6, 1e-4, 1e-3, .02, .2]


def generate(rng, tier):
  h = rng.choice([.02, .05, .1, .1, .25, 1])
  bases = [_base(rng, h) for _ in range(rng.randint(1, 4))]
  workers = rng.randint(1, 4)
  ops = []
  for _ in range(rng.randint(4, 22)):
    r, w = rng.random(), rng.randrange(workers)
    if r < .3:
      ops.append(['spend', w, rng.randrange(len(bases)), rng.choice(TAILS)])
    elif r < .42:
      ops.append(['pow', w, rng.choice([1, 1, 2, 2, 3, 5, 8, 17, 40]), rng.choice(TAILS)])
    elif r < .5:
      ops.append(['merge', w, rng.randrange(workers), rng.choice(TAILS)])
    elif r < .58:
      ops.append(['store', w])
    elif r < .63:
      ops.append(['crash'])
    elif r < .68:
      ops.append(['failalloc', w, rng.randrange(len(bases)), rng.choice([1, 2])])
    elif r < .74:
      ops.append(['refused', w, rng.choice(['h', 'e']), rng.random() < .5])
    elif r < .84:
      ops.append(['eps', w, rng.choice([0, 1e-12, 1e-9, 1e-6, 1e-3, .1, .5, 1])])
    elif r < .9:
      ops.append(['cross', w, rng.randrange(workers), round(rng.uniform(-2, 6), 3)])
    else:
      ops.append(['delta', w, [round(rng.choice([0, rng.uniform(-3, 8), rng.uniform(-.5, .5)]), 4)
                               for _ in range(2)]])
  return {'h': h, 'pess': rng.random() < .75, 'bases': bases, 'workers': workers, 'ops': ops,
          'order': rng.choice([0, rng.randrange(1, 1 << 30)])}


def _pmf_arg(m):
  return ','.join(f'{k}:{p!r}' for k, p in m)


def make(name, base, est, h):
  if base[0] == 'pmf':
    args = f'{_pmf_arg(base[1])} {_pmf_arg(base[2])} {base[3]}'
  else:
    args = ' '.join(repr(x) for x in base[1:])
  return f'mk {name} {base[0]} {est} {h!r} {args}'.strip()


def _num(v):
  return float(v) if isinstance(v, str) else v


class Ledgers:
  """Emits one process's program and remembers what each ledger should hold."""

  def __init__(self, case, cov):
    self.case, self.cov = case, cov
    self.h = case['h']
    self.est = 'p' if case['pess'] else 'o'
    self.base = []       # Dist or None when the mechanism was refused
    self.durable = {}    # worker -> (hex, Dist, number of spends)
    self.boot()

  def boot(self):
    self.lines, self.checks = [], []
    self.held = {}
    self.do(f"order {self.case['order']}")
    for i, b in enumerate(self.case['bases']):
      # identity and params have no estimate type of their own
      self.do(make(f'b{i}', b, self.est, self.h))
      self.do(f'pmf b{i}')
    self.do(make('xh', OTHER, self.est, self.h * 2))
    self.do(make('xe', OTHER, 'o' if self.est == 'p' else 'p', self.h))

  def do(self, line, check=None):
    self.lines.append(line)
    self.checks.append(check)

  def run(self, dies=False):
    out, dead = acsim.run(self.lines, 40)
    for line, rep, check in zip(self.lines, out, self.checks):
      if check is not None:
        check(line, rep)
    if dead and not (dies and dead.done >= len(self.lines) - dies):
      raise Violation('crash', f'the process ended ({dead}) at {self.lines[dead.done][:200]!r} '
                      f'after {[l[:80] for l in self.lines[:dead.done] if not l.startswith("pmf")][-8:]}')
    return out, dead


def _near(got, want, slack, pess, what, line):
  got = _num(got)
  lo, hi = (want, want + slack) if pess else (want - slack, want)
  if not lo - TOL <= got <= hi + TOL:  # NaN fails too
    raise Violation('delta', f'{what}: {line!r} gives {got!r}; direct composition gives '
                    f'[{lo!r}, {hi!r}]')


def execute(case, cov):
  pess, h = case['pess'], case['h']
  L = Ledgers(case, cov)
  if not pess:
    cov.probe('optimistic')
  for b in case['bases']:
    cov.probe('kind-' + b[0])
  cov.state((pess, tuple(sorted(b[0] for b in case['bases'])),
             ''.join(o[0][0] for o in case['ops'])))

  # The mechanisms themselves: between the truth and the truth one interval away.
  grid = [-30.0, -1.5, -.3, 0.0, .05, .4, 1.0, 2.2, 5.0]
  for i, b in enumerate(case['bases']):
    for e in grid:
      L.do(f'delta b{i} {e}')
  out, _ = L.run()
  dists, at = [], 0
  for i, b in enumerate(case['bases']):
    mk, dump = out[1 + 2 * i], out[2 + 2 * i]
    if 'err' in mk:
      if not (b[0] == 'dgauss' and b[3] and 2 * b[3] < b[2]):
        raise Violation('refused', f'mechanism {b} was refused: {mk}')
      dists.append(None)
      continue
    dists.append(acref.Dist.of(dump))
    own = bool(dump['pess'])
    step = h * (1 + 1e-9) + 1e-12
    for k, e in enumerate(grid):
      got = _num(out[2 * len(case['bases']) + 3 + i * len(grid) + k]['v'])
      t = [acref.truth(b, e), acref.truth(b, e - step), acref.truth(b, e + step)]
      lo, hi = (t[0], t[1] + acref.cut(b)) if own else (t[2] - acref.cut(b), t[0])
      if not lo - 1e-10 <= got <= hi + 1e-10:
        raise Violation('mechanism', f'{b} at interval {h}, {"pess" if own else "opt"}imistic: '
                        f'delta({e}) = {got!r} outside [{lo!r}, {hi!r}]')
    # and the direct evaluation of its own masses
    for k, e in enumerate(grid):
      got = out[2 * len(case['bases']) + 3 + i * len(grid) + k]['v']
      _near(got, dists[i].delta(e), 0.0, own, f'mechanism {b}', f'delta {e}')
    if dists[i].inf > 1 - 1e-12:
      cov.probe('all-infinite')

  usable = [i for i, d in enumerate(dists) if d is not None and bool(d.pess) == pess]
  L.boot()
  seen = []

  def settle(w):
    """Queries that every change is followed by."""
    d = L.held.get(w)
    if d is None:
      return
    for e in (-40.0, 0.0, .7):
      L.do(f'delta w{w} {e}', lambda line, rep, d=d[0], n=d[1], e=e: answered(line, rep, d, n, e))

  def answered(line, rep, d, n, e):
    _near(rep['v'], d.delta(e), d.slack, pess, f'ledger of {n} spends', line)
    seen.append(rep['v'])
    cov.probe('delta')
    if n > 1:
      cov.nontrivial = True

  def fine(line, rep):
    if 'ok' not in rep:
      raise Violation('refused', f'{line[:200]!r} was refused: {rep}')

  def refused(line, rep):
    cov.probe('refused')
    if 'err' not in rep:
      raise Violation('accepted', f'{line!r} mixes intervals or estimates and gives {rep}')

  def epsilon(line, rep, w, target):
    d, n = L.held[w]
    # judged by the ledger's own deltas around the answer
    e = _num(rep['v'])
    cov.probe('eps')
    def delta_range(x):
      v = d.delta(x)
      return (v - TOL, v + d.slack + TOL) if pess else (v - d.slack - TOL, v + TOL)
    if math.isnan(e) or e < 0:
      raise Violation('epsilon', f'{line!r} gives {e!r}')
    if e == math.inf:
      cov.probe('eps-infinite')
      if d.inf + (d.slack if pess else 0) + TOL < target:
        raise Violation('epsilon', f'{line!r} gives infinity; the infinite mass is {d.inf!r}')
      return
    if delta_range(e + 1e-9)[0] > target * (1 + 1e-9):
      raise Violation('epsilon', f'{line!r} gives {e!r}, but delta there is {d.delta(e)!r}')
    if e > 0 and delta_range(max(0.0, e - 1e-6 * (1 + e)))[1] < target * (1 - 1e-9):
      raise Violation('epsilon', f'{line!r} gives {e!r}, but delta just below is '
                      f'{d.delta(e - 1e-6 * (1 + e))!r}')

  def restart():
    """A new process: only stored ledgers survive."""
    L.run()
    reboot()

  def reboot():
    L.boot()
    for w, (hx, d, n) in sorted(L.durable.items()):
      cov.probe('restored')
      L.do(f'deser w{w} {hx}', fine)
      L.held[w] = (d, n)
      settle(w)

  for op in case['ops']:
    cov.step()
    kind, w = op[0], op[1] if len(op) > 1 else None
    if kind == 'spend':
      if op[2] not in usable:
        continue
      i, tail = op[2], op[3]
      d = dists[i]
      if w in L.held:
        old, n = L.held[w]
        if len(old.mass) * len(d.mass) > 4e6:
          continue
        L.do(f'compose w{w} b{i} {tail}'.strip(), fine)
        t = 1e-15 if tail == '' else tail
        L.held[w] = (old.compose(d, t), n + 1)
        if t > 1e-9:
          cov.probe('truncated')
      else:
        L.do(make(f'w{w}', case['bases'][i], L.est, h), fine)
        L.held[w] = (d, 1)
      settle(w)
    elif kind == 'pow' and w in L.held:
      old, n = L.held[w]
      times, tail = op[2], op[3]
      if len(old.mass) * times > 20000 or len(old.mass) ** 2 * times ** 2 > 4e7 or n * times > 400:
        continue
      cov.probe('pow')
      t = 1e-15 if tail == '' else tail
      if not pess:
        t = 0.0
      if times <= 2 and t > 1e-5:
        cov.probe('pow-narrow')
      L.do(f'pow w{w} {times} {tail}'.strip(), fine)
      L.held[w] = (old.power(times, t), n * times)
      settle(w)
    elif kind == 'merge' and w in L.held and op[2] in L.held:
      (a, n), (b, m) = L.held[w], L.held[op[2]]
      if len(a.mass) * len(b.mass) > 4e6 or n + m > 400:
        continue
      cov.probe('merge')
      t = 1e-15 if op[3] == '' else op[3]
      L.do(f'compose w{w} w{op[2]} {op[3]}'.strip(), fine)
      L.held[w] = (a.compose(b, t), n + m)
      settle(w)
      if op[2] != w:
        settle(op[2])
    elif kind == 'store' and w in L.held:
      d, n = L.held[w]

      def stored(line, rep, w=w, d=d, n=n):
        if not pess:
          cov.probe('optimistic-not-stored')
          if 'err' not in rep:
            raise Violation('accepted', f'{line!r}: an optimistic ledger was stored: a reader '
                            'would take it for a pessimistic one')
          return
        if 'hex' not in rep:
          raise Violation('refused', f'{line!r} gives {rep}')
        cov.probe('stored')
        L.durable[w] = (rep['hex'], d, n)

      L.do(f'ser w{w}', stored)
      settle(w)
    elif kind == 'crash':
      cov.fault('crash')
      cov.probe('crash')
      restart()
    elif kind == 'failalloc' and w in L.held and op[2] in usable:
      d, n = L.held[w]
      b = dists[op[2]]
      if len(d.mass) * len(b.mass) > 4e6:
        continue
      cov.fault('allocation fails')
      L.do(f'failalloc {op[3]}')
      L.do(f'compose w{w} b{op[2]}')
      L.do(f'delta w{w} 0.3')
      out, dead = L.run(dies=2)
      cov.probe('alloc-failed')
      if not dead:
        made = 'ok' in out[-2]
        want = d.compose(b, 1e-15) if made else d
        _near(out[-1]['v'], want.delta(.3), want.slack, pess, 'after a failed allocation',
              L.lines[-1])
      reboot()
    elif kind == 'refused' and w in L.held:
      x = 'xh' if op[2] == 'h' else 'xe'
      if op[3]:
        L.do(f'compose w{w} {x}', refused)
      else:
        L.do(f'deltac w{w} {x} 0.5', refused)
      settle(w)
    elif kind == 'eps' and w in L.held:
      d = L.held[w]
      L.do(f'eps w{w} {op[2]!r}',
           lambda line, rep, d=d, t=op[2]: _eps(epsilon, L, line, rep, d, t))
    elif kind == 'cross' and w in L.held and op[2] in L.held:
      (a, n), (b, m) = L.held[w], L.held[op[2]]
      if len(a.mass) * len(b.mass) > 4e6:
        continue
      both = a.compose(b)

      def crossed(line, rep, both=both, e=op[3], n=n + m):
        cov.probe('composed-delta')
        if 'v' not in rep:
          raise Violation('refused', f'{line!r} gives {rep}')
        _near(rep['v'], both.delta(e), both.slack, pess, f'composition of {n} spends', line)

      L.do(f'deltac w{w} w{op[2]} {op[3]!r}', crossed)
      settle(w)
    elif kind == 'delta' and w in L.held:
      d, n = L.held[w]
      for e in op[2]:
        L.do(f'delta w{w} {e!r}', lambda line, rep, d=d, n=n, e=e: answered(line, rep, d, n, e))
  L.run()
  cov.trace(len(seen), [repr(v) for v in seen])


def _eps(check, L, line, rep, held, target):
  old = L.held
  L.held = {-1: held}
  try:
    check(line, rep, -1, target)
  finally:
    L.held = old
