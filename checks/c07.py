"""C07: mechanism calibration never returns an over-budget parameter."""
import math

import dp_accounting
from dp_accounting import mechanism_calibration as mc
from dp_accounting.rdp import rdp_privacy_accountant

from sim import inject
from sim.core import Violation

ID = 'C07'
RULE = ('a run is a calibration against a simulated accountant and event factory, first '
        'with failures at chosen calls, then without; non-trivial if a calibration '
        'evaluated at least four parameters and a fault or an adversarial curve was met')
REAL = ['dp_accounting.mechanism_calibration', 'scipy brentq',
        'RdpAccountant (in the runs of kind real)']
STUB = ['accountant and event factory (simulated epsilon curves with injected failures)']
ASSUMPTIONS = ['epsilon is never NaN', 'for optimality: the curve crosses the target at one '
               'point and the tolerance is above the spacing of floating point numbers',
               'the tolerance of a discrete search is at least 1']
RUNS = {'quick': 20000, 'thorough': 600000}
RUN_LIMIT_S = 60
HANG_IS_VIOLATION = True
STATE_MEASURE = '(curve, discrete, bracket kind, fault, outcome, evaluations/8)'
PROBES = ('explicit', 'reversed', 'guess', 'default_bracket', 'discrete', 'raised_no_bracket',
          'raised_value_error', 'returned', 'factory_failed',
          'event_failed', 'compose_failed', 'epsilon_failed', 'stale_accountant',
          'nonempty_ledger', 'noisy', 'infinite_epsilon', 'interrupted_line', 'real',
          'optimal_checked', 'many_evaluations')


class Failure(Exception):
  pass


class FailureValue(ValueError):
  """A failure of a type calibration handles itself."""


class Runaway(BaseException):
  pass


ERRS = {'Failure': Failure, 'ValueError': FailureValue, 'KeyboardInterrupt': KeyboardInterrupt,
        'MemoryError': MemoryError, 'Unsupported':
        lambda m: dp_accounting.UnsupportedEventError(m)}


def generate(rng, tier):
  if rng.random() < 0.01:
    return {'kind': 'real', 'target': round(10 ** rng.uniform(-0.5, 1), 3),
            'discrete': rng.random() < 0.4, 'steps': rng.choice([1, 10, 100]),
            'delta': rng.choice([1e-5, 1e-3])}
  discrete = rng.random() < 0.3
  scale = rng.choice([1.0, 1.0, 100.0, 1e5] if not discrete else [5, 50, 10**4])
  curve = rng.choice(['step', 'steep', 'power', 'linear', 'sqrt', 'stairs', 'inf',
                      'plateau', 'cubic', 'noisy', 'bumpy', 'constant', 'flaky', 'huge'])
  lo = rng.choice([0, 0, 0, scale / 7, -scale])
  hi = lo + scale * rng.choice([1, 2, 0.5])
  x0 = lo + (hi - lo) * rng.choice([rng.random(), rng.random(), 0.001, 0.999])
  if discrete:
    lo, hi = int(lo), int(hi) + 1
    x0 = math.floor(x0) + rng.choice([0.5, 0.5, 0.25, 0.75])
  br = rng.choice(['explicit', 'explicit', 'reversed', 'guess', 'guess', 'default'])
  if rng.random() < 0.04 and not discrete:
    lo, hi, x0, br = 0, rng.choice([1e13, 1e20, 1e26]), rng.choice([1e-2, 1.0, 1e-5]), 'explicit'
  inc = rng.random() < 0.5
  faults = []
  if rng.random() < 0.5:
    faults.append({'at': rng.choice([0, 0, 1, 2, 3, 5, 8, 13, 30]),
                   'what': rng.choice(['factory', 'event', 'compose', 'epsilon', 'stale',
                                       'nonempty']),
                   'exc': rng.choice(list(ERRS))})
  return {'kind': 'sim', 'curve': curve, 'discrete': discrete, 'lo': lo, 'hi': hi, 'x0': x0,
          'inc': inc, 'bracket': br,
          'guess': rng.choice([0.5, 0.01, 1.5]) * (hi - lo) if not discrete else
          max(1, int((hi - lo) * rng.choice([0.5, 0.1, 1.5]))),
          'target': rng.choice([1.0, 0.0, 0.5, 10.0]), 'width': scale * rng.choice([0.05, 0.3, 1]),
          'tol': rng.choice([None, None, 1e-3, 1e-6, 0.05, 0.7, 2.0]),
          'salt': rng.randint(0, 10**6), 'faults': faults,
          'line': inject.random_spec(rng) if rng.random() < 0.25 else None}


MONO = ('step', 'steep', 'power', 'linear', 'sqrt', 'stairs', 'inf', 'cubic', 'huge')


def epsilon_of(c, x, k):
  """The simulated accountant's epsilon at parameter x (k-th evaluation)."""
  t, w = c['target'], c['width']
  d = (x - c['x0']) * (1 if c['inc'] else -1)   # > 0: over budget
  kind = c['curve']
  if kind == 'step':
    return t + 1 if d > 0 else max(0, t - 0.5) if t else -0.5
  if kind == 'huge':
    return t + 1e300 if d > 0 else t - 1e-6
  if kind == 'inf':
    return math.inf if d > 0 else t - 0.25
  if kind == 'steep':
    return t + math.tanh(1e4 * d / w)
  if kind == 'power':
    return t + math.expm1(max(-30, min(30, d / w)))
  if kind == 'linear':
    return t + d / w
  if kind == 'sqrt':
    return t + math.copysign(math.sqrt(abs(d / w)), d)
  if kind == 'cubic':
    return t + (d / w) ** 3 + 1e-3 * d / w
  if kind == 'stairs':
    s = math.floor(d / w)
    return t + s + 0.5
  if kind == 'plateau':
    return t if abs(d) < w else t + (d - math.copysign(w, d)) / w
  if kind == 'constant':
    return t + (c['salt'] % 3 - 1)
  h = math.sin(1e4 * math.sin(x * 12.9898 / w + c['salt'] % 97))
  if kind == 'bumpy':
    return t + math.tanh(d / w) + 0.8 * h
  g = math.sin(1e4 * math.sin(k * 78.233 + c['salt'] % 89))
  if kind == 'noisy':
    return t + math.tanh(d / w) + 0.5 * g
  return t + (1 if g > 0 else -1) * (1 + abs(h))   # flaky: sign changes at every call


class Event(dp_accounting.NoOpDpEvent):
  """Stands for the mechanism at one parameter."""


class Sim:

  def __init__(self, c, cov, faults):
    self.c, self.cov = c, cov
    self.faults = {(f['what'], f['at']): f for f in faults}
    self.calls = {}
    self.log = []      # (param, epsilon, accountant id)
    self.events = {}
    self.raised = None
    self.accts = []
    self.n = 0
    self.fired = False
    self.must_raise = False

  def hit(self, what):
    k = self.calls.get(what, 0)
    self.calls[what] = k + 1
    if k > 4000:
      raise Runaway()
    f = self.faults.get((what, k))
    if f is None:
      return False
    self.fired = True
    self.cov.fault(f'{what}: {f["exc"]}' if what not in ('stale', 'nonempty') else what)
    if what in ('stale', 'nonempty'):
      return True
    self.cov.probe(what + '_failed')
    self.raised = ERRS[f['exc']]('simulated')
    raise self.raised

  def make_event(self, x):
    self.hit('event')
    if self.c['discrete'] and (not isinstance(x, int) or isinstance(x, bool)):
      raise Violation('not-discrete', f'the event factory was given {x!r}')
    e = dp_accounting.GaussianDpEvent(float(len(self.events)))
    self.events[id(e)] = (e, x)
    return e

  def make_accountant(self):
    self.hit('factory')
    if self.accts and self.hit('stale'):
      used = [a for a in self.accts if a.event is not None]
      if used:
        self.cov.probe('stale_accountant')
        self.must_raise = True
        return used[-1]
    a = Acct(self)
    if self.hit('nonempty'):
      self.cov.probe('nonempty_ledger')
      self.must_raise = True
      a.dirty = True
    self.accts.append(a)
    return a


class Acct:
  """Simulated accountant."""

  def __init__(self, sim):
    self.sim = sim
    self.event = None
    self.dirty = False

  @property
  def ledger(self):
    if self.dirty:
      return dp_accounting.LaplaceDpEvent(1.0)
    return dp_accounting.NoOpDpEvent() if self.event is None else self.event

  def supports(self, event):
    return True

  def compose(self, event, count=1):
    if self.event is not None or self.dirty:
      raise Violation('accountant-reused', 'an evaluation composed into an accountant that '
                      'was not empty')
    if count != 1 or id(event) not in self.sim.events:
      raise Violation('wrong-event', f'composed {event} {count} times')
    self.sim.hit('compose')
    self.event = event
    return self

  def get_epsilon(self, target_delta):
    if target_delta != 1e-5:
      raise Violation('wrong-delta', f'epsilon was asked for delta {target_delta}')
    if self.event is None:
      raise Violation('not-composed', 'epsilon of an empty accountant was used')
    self.sim.hit('epsilon')
    x = self.sim.events[id(self.event)][1]
    e = epsilon_of(self.sim.c, x, self.sim.n)
    self.sim.n += 1
    self.sim.log.append((x, e))
    if e == math.inf:
      self.sim.cov.probe('infinite_epsilon')
    return e


def bracket_of(c):
  lo, hi = c['lo'], c['hi']
  if c['bracket'] == 'explicit':
    return mc.ExplicitBracketInterval(lo, hi)
  if c['bracket'] == 'reversed':
    return mc.ExplicitBracketInterval(hi, lo)
  if c['bracket'] == 'guess':
    return mc.LowerEndpointAndGuess(lo, lo + c['guess'])
  return None


def chain(e):
  seen = []
  while e is not None and e not in seen:
    seen.append(e)
    e = e.__cause__ or e.__context__
  return seen


def check_return(c, sim, got, where):
  if c['discrete']:
    if not isinstance(got, int) or isinstance(got, bool):
      raise Violation('not-discrete', f'{where}: returned {got!r}')
  elif not isinstance(got, float) and not isinstance(got, int):
    raise Violation('not-a-number', f'{where}: returned {got!r}')
  mine = [e for x, e in sim.log if x == got]
  if not mine:
    raise Violation('not-evaluated', f'{where}: returned {got!r}, never evaluated')
  # a flaky accountant may have judged the same parameter differently before
  if not min(mine) <= c['target']:
    raise Violation('over-budget', f'{where}: returned {got!r}, whose epsilon was '
                    f'{mine}; target {c["target"]}')


def execute_real(c, cov):
  cov.probe('real')
  orders = [1.5, 2, 4, 8, 16, 32, 64]
  accts = []

  def acct():
    a = rdp_privacy_accountant.RdpAccountant(orders)
    accts.append(a)
    return a

  if c['discrete']:
    make = lambda n: dp_accounting.SelfComposedDpEvent(dp_accounting.GaussianDpEvent(20.0), n)
    br = mc.LowerEndpointAndGuess(1, 10)
  else:
    make = lambda s: dp_accounting.SelfComposedDpEvent(
        dp_accounting.GaussianDpEvent(s), c['steps'])
    br = mc.LowerEndpointAndGuess(0.1, 1.0)

  def eps(x):
    return rdp_privacy_accountant.RdpAccountant(orders).compose(make(x)).get_epsilon(c['delta'])

  try:
    got = mc.calibrate_dp_mechanism(acct, make, c['target'], c['delta'], br, c['discrete'])
  except mc.NoBracketIntervalFoundError:
    if (eps(1) if c['discrete'] else eps(1e6)) <= c['target']:
      raise Violation('no-bracket', 'a bracket exists')
    return
  cov.trace(got)
  if eps(got) > c['target']:
    raise Violation('over-budget', f'{got} has epsilon {eps(got)} > {c["target"]}')
  nxt = got + 2 if c['discrete'] else got - 2e-6
  if eps(nxt) <= c['target']:
    raise Violation('not-optimal', f'{got}: {nxt} is also within {c["target"]}')
  if len(set(map(id, accts))) != len(accts) or any(
      isinstance(a.ledger, dp_accounting.ComposedDpEvent) for a in accts):
    raise Violation('accountant-reused', 'an accountant was composed into twice')
  cov.step(len(accts))


def execute(case, cov):
  c = case
  if c['kind'] == 'real':
    return execute_real(c, cov)
  cov.probe({'default': 'default_bracket'}.get(c['bracket'], c['bracket']))
  if c['discrete']:
    cov.probe('discrete')
  if c['curve'] in ('noisy', 'flaky'):
    cov.probe('noisy')

  def call(sim):
    try:
      return mc.calibrate_dp_mechanism(
          sim.make_accountant, sim.make_event, c['target'], 1e-5, bracket_of(c),
          c['discrete'], c['tol'])
    except Runaway:
      raise Violation('too-many-evaluations', f'more than 4000, last at '
                      f'{sim.log[-3:]}') from None

  disturbed = c['curve'] not in MONO
  if c['faults']:
    sim = Sim(c, cov, c['faults'])
    try:
      got = call(sim)
      if sim.raised is not None or sim.must_raise:
        raise Violation('failure-swallowed', f'{sim.raised or "a used accountant"} did not '
                        f'surface; returned {got}')
      check_return(c, sim, got, 'with faults')
    except Violation:
      raise
    except BaseException as e:  # pylint: disable=broad-except
      if sim.raised is not None:
        if sim.raised not in chain(e):
          raise Violation('failure-changed', f'{sim.raised!r} surfaced as {e!r}') from e
        if not isinstance(sim.raised, ValueError) and e is not sim.raised:
          raise Violation('failure-changed', f'{sim.raised!r} surfaced as {e!r}') from e
      elif sim.must_raise:
        if not any(isinstance(x, mc.NonEmptyAccountantError) for x in chain(e)):
          raise Violation('failure-changed', f'a used accountant surfaced as {e!r}') from e
      elif not isinstance(e, (ValueError, mc.NoBracketIntervalFoundError, RecursionError)):
        raise
    disturbed |= sim.fired
  if c['line'] is not None:
    dry, sim = Sim(c, cov, []), Sim(c, cov, [])
    outcome, val, fired = inject.run_with_fault(c['line'], lambda: call(sim), lambda: call(dry))
    if fired:
      disturbed = True
      cov.fault(c['line']['exc'])
      cov.probe('interrupted_line')
      if outcome == 'ok':
        raise Violation('failure-swallowed', f'an injected failure at {fired} vanished')
    if isinstance(val, Violation):
      raise val

  sim = Sim(c, cov, [])
  error = None
  got = None
  try:
    got = call(sim)
  except (ValueError, mc.NoBracketIntervalFoundError, RecursionError) as e:
    error = e
  cov.trace(repr(got), type(error).__name__, [repr(x) for x in sim.log])
  cov.step(len(sim.log))
  if len(sim.log) > 60:
    cov.probe('many_evaluations')
  if error is None:
    cov.probe('returned')
    check_return(c, sim, got, 'without faults')
  else:
    cov.probe('raised_no_bracket' if isinstance(error, mc.NoBracketIntervalFoundError)
              else 'raised_value_error')
  # optimality
  tol = c['tol'] if c['tol'] is not None else (1.0 if c['discrete'] else 1e-6)
  if c['discrete']:
    tol = max(1.0, tol)
  lo, hi = c['lo'], c['hi']
  if c['bracket'] == 'default':
    lo, hi = 0, math.inf
  elif c['bracket'] == 'guess':
    hi = math.inf
  x0 = c['x0']
  if c['curve'] in ('stairs',):
    x0 = None  # its crossing is computed below
  if c['curve'] in MONO and tol > 1e-9 * abs(c['x0'] or 1):
    inside = lo < c['x0'] < hi - (0 if hi == math.inf else 0)
    if c['discrete']:
      inside = inside and round(lo) < c['x0'] and (hi == math.inf or c['x0'] < round(hi))
    ends = [lo] if hi == math.inf else [lo, hi]
    vals = [epsilon_of(c, round(x) if c['discrete'] else x, 0) - c['target'] for x in ends]
    if hi == math.inf:
      start = c['lo'] + c['guess'] if c['bracket'] == 'guess' else 1
      low = c['lo'] if c['bracket'] == 'guess' else 0
      reach = c['x0'] < low + (start - low) * 2.0 ** 28
      sign = inside and reach and vals[0] != 0
    else:
      sign = inside and vals[0] * vals[1] < 0
    if sign:
      if error is not None:
        raise Violation('gave-up', f'epsilon is monotone and crosses {c["target"]} at '
                        f'{c["x0"]} but calibration raised {error!r}')
      cov.probe('optimal_checked')
      if c['discrete']:
        best = math.floor(c['x0']) if c['inc'] else math.ceil(c['x0'])
      else:
        best = c['x0']
      if c['curve'] == 'stairs' and not c['discrete']:
        best = c['x0']
      slack = tol * (1 + 1e-6) + 1e-11 * (abs(best) + abs(lo))
      if c['curve'] in ('linear', 'power', 'sqrt', 'cubic', 'steep'):
        slack += 1e-9 * c['width']   # where rounding makes the gap exactly zero
      if abs(got - best) > slack:
        raise Violation('not-optimal', f'returned {got!r}; the optimum is {best!r}, '
                        f'tolerance {tol}')
  cov.state((c['curve'], c['discrete'], c['bracket'], sorted(f['what'] for f in c['faults']),
             error is None, len(sim.log) // 8))
  cov.nontrivial = len(sim.log) >= 4 and disturbed
