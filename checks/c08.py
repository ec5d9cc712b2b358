"""C08: monotone parameter search returns only verified points and stops."""
import copy
import math

from dp_accounting.pld import accountant as pld_search
from dp_accounting.pld import common
from dp_accounting.pld import privacy_loss_mechanism as mech

from sim import acref
from sim import calib
from sim import inject
from sim.core import Violation

ID = 'C08'
RULE = ('a run is one search over a simulated monotone function with known solution, '
        'first with a failure at a chosen evaluation or line, then retried with the same '
        'objects; non-trivial if the search evaluated at least three points and a failure '
        'was delivered')
REAL = ['pld.common.inverse_monotone_function', 'pld.accountant.get_smallest_parameter',
        'pld.accountant.advanced_composition_*', 'pld.accountant.get_smallest_*_noise',
        '*PrivacyLoss.from_privacy_guarantee, with the distributions they search over']
STUB = ['the function being inverted (a simulated curve with a known solution)',
        'the privacy loss distribution constructor for get_smallest_parameter']
ASSUMPTIONS = ['finite lower bound; an infinite upper bound only with a guess and a '
               'solution; a positive guess inside the range; functions never return NaN']
RUNS = {'quick': 60000, 'thorough': 600000}
RUN_LIMIT_S = 20
HANG_IS_VIOLATION = True
STATE_MEASURE = '(curve, direction, discrete, guess side, outcome, evaluations/8)'
PROBES = ('none_returned', 'plateau_hit', 'infinite_upper', 'guess_low', 'guess_high',
          'discrete', 'failed_evaluation', 'interrupted_line', 'smallest_parameter',
          'advanced', 'below_float_spacing', 'calibrated_noise', 'calibrated_mechanism',
          'neighbouring_budget')


class Failure(Exception):
  pass


FAILURES = {k: inject.mixed(Failure, k) for k in inject.COMPONENT}
FAILURES['Exception'] = Failure


class Runaway(BaseException):
  pass


def gen_calib(rng):
  """A calibration of one of the real mechanisms."""
  via = rng.choice(['noise', 'noise', 'mechanism'])
  kind = rng.choice(['laplace', 'dlaplace', 'gauss', 'dgauss'])
  if via == 'noise' and kind == 'dgauss':
    kind = rng.choice(['gauss', 'sgauss', 'dlaplace', 'dlaplace'])
  eps = round(10 ** rng.uniform(-1.5, .9), 6)
  delta = rng.choice([1e-9, 1e-6, 1e-4, 1e-2, .2])
  if kind in ('laplace', 'dlaplace') and (via == 'mechanism' or rng.random() < .2):
    delta = 0
  n, s = rng.choice([1, 1, 2, 3, 6, 10]), rng.choice([1, 2, 3, 5])
  q = rng.choice([1, .05, .3, .9])
  if via == 'mechanism':
    n = 1
  elif kind != 'sgauss':
    q = 1
  else:
    # these distributions get large, and slow, for little noise
    eps, delta = round(10 ** rng.uniform(-.6, .1), 6), rng.choice([1e-6, 1e-4, 1e-3])
    n, s, q = rng.choice([1, 1, 2]), rng.choice([1, 2]), rng.choice([.05, .3, .9])
  if kind == 'dgauss':
    # as the noise becomes small it stops being monotone
    eps, delta, q = min(eps, 1.5), min(delta, 1e-4), rng.choice([1, 1, .3, .9])
    # the sums over its support are slow
    eps = max(eps, .2)
    s = min(s, 2)
  if kind in ('laplace', 'gauss') and rng.random() < .3:
    s = rng.choice([.5, 3.75])
  # a second calibration, for a budget or mechanism that hardly differs
  then = rng.choice([None, None, {'eps': eps * (1 - 10 ** -rng.randint(2, 5))},
                     {'delta': delta * .9}, {'s': s + 1}, {'add': rng.random() < .5},
                     {'n': n + 1} if via == 'noise' else {'q': q * .95}])
  if kind == 'sgauss' and rng.random() < .7:
    then = None
  return {'kind': 'calib', 'then': then, 'via': via, 'mech': kind, 'eps': eps, 'delta': delta, 'n': n,
          's': s, 'q': q, 'add': rng.random() < .4,
          'line': inject.random_spec(rng) if kind != 'sgauss' and rng.random() < .7 else None}


def generate(rng, tier):
  if rng.random() < 0.015:
    return gen_calib(rng)
  if rng.random() < 0.06:
    n = rng.choice([1, 2, 5, 20, 60])
    return {'kind': 'advanced', 'eps': round(10 ** rng.uniform(-2, 1), 4),
            'delta': rng.choice([1e-3, 1e-5, 0.05]), 'n': n,
            'each': rng.choice([0, 1e-8, 1e-6, 1e-4, 0.01])}
  discrete = rng.random() < 0.3
  scale = rng.choice([1.0, 1.0, 10.0, 1e3, 1e6, 1e10, 1e13] if not discrete else
                     [10, 100, 10**4, 10**9])
  lo = rng.choice([0, 0, 1, -scale, scale / 3])
  hi = lo + scale * rng.choice([1, 1, 2, 0.5])
  inf_hi = rng.random() < 0.25
  u = rng.choice([rng.random(), rng.random(), 0.0, 1.0, 1e-6, -0.2, 1.2])
  t = lo + (hi - lo) * u
  if discrete:
    lo, hi, t = int(lo), int(hi) + 1, int(t) + rng.choice([0, 0, 0.5])
  inc = rng.random() < 0.5
  guess = None
  if inf_hi or rng.random() < 0.5:
    g = rng.choice([max(t, 0) * rng.choice([0.5, 0.9, 1.0, 1.1, 2]),
                    lo + (hi - lo) * rng.random(), 1e-3 * scale])
    g = max(g, lo, 1e-9 * scale)
    guess = max(1, int(g)) if discrete else g
  if inf_hi:
    hi = 'inf'
    t = max(t, lo)
  elif guess is not None:
    guess = min(guess, hi)
    if guess <= 0:
      guess = None
  return {'kind': rng.choice(['inverse', 'inverse', 'inverse', 'smallest']),
          'lo': lo, 'hi': hi, 'T': t, 'inc': inc, 'discrete': discrete, 'guess': guess,
          'closed': rng.random() < 0.7,
          'curve': rng.choice(['step', 'linear', 'cubic', 'plateau', 'inf', 'stairs']),
          'value': rng.choice([1.0, 0.0, 0.25, -3.0]),
          'width': scale * rng.choice([0.01, 0.3]),
          'tol': rng.choice([1e-7, 1e-7, 1e-3, 1e-9, 0.5, 1e-12]),
          'n': rng.choice([1, 3, 17]),
          'fail_at': rng.choice([-1, 0, 0, 1, 2, 3, 5, 9, 20]),
          'exc': rng.choice(list(FAILURES)),
          'line': inject.random_spec(rng) if rng.random() < 0.3 else None,
          'retries': rng.choice([1, 2])}


class Curve:
  """A monotone function whose solution set is known, with failure injection."""

  def __init__(self, c, cov):
    self.c = c
    self.points = []
    self.fail_at = -1
    self.cov = cov
    self.cap = 10000

  def feasible(self, x):
    t = self.c['T']
    if self.c['inc']:
      return x <= t if self.c['closed'] else x < t
    return x >= t if self.c['closed'] else x > t

  def value(self, x):
    c, t, v, w = self.c, self.c['T'], self.c['value'], self.c['width']
    # signed distance into the infeasible side
    d = (x - t) if c['inc'] else (t - x)
    if not self.feasible(x):
      if c['curve'] == 'inf':
        return math.inf
      if c['curve'] == 'step':
        return v + 1
      if c['curve'] == 'stairs':
        return v + 1 + math.floor(d / w)
      return max(v + (d / w) ** (3 if c['curve'] == 'cubic' else 1),
                 math.nextafter(v, math.inf))
    if c['curve'] == 'plateau':
      if -d <= w:
        self.cov.probe('plateau_hit')
        return v
      return v + (d + w) / w
    if c['curve'] in ('linear', 'cubic'):
      return v + (d / w) ** (3 if c['curve'] == 'cubic' else 1)
    if c['curve'] == 'inf':
      return v
    if c['curve'] == 'stairs':
      return v - math.floor(-d / w)
    return v - 1

  def __call__(self, x):
    k = len(self.points)
    self.points.append(x)
    if k == self.fail_at:
      raise self.err
    if k > self.cap:
      raise Runaway()
    return self.value(x)


class FakePld:

  def __init__(self, curve, x, n, eps, times=None):
    self.args = (curve, x, n, eps)
    self.times = times

  def self_compose(self, num_times, *unused):
    c, x, n, eps = self.args
    return FakePld(c, x, n, eps, num_times * (self.times or 1))

  def get_delta_for_epsilon(self, epsilon):
    c, x, n, eps = self.args
    if (self.times or 1) != n or epsilon != eps:
      raise Violation('wrong-query', f'asked for delta({epsilon}) after {self.times} '
                      f'compositions, expected {eps} after {n}')
    return c(x)


def execute_adv(c, cov):
  """The search for a per-query epsilon from advanced composition."""
  cov.probe('advanced')
  total = common.DifferentialPrivacyParameters(c['eps'], c['delta'])

  def f(e):
    return pld_search.advanced_composition(
        common.DifferentialPrivacyParameters(e, c['each']), c['n'], c['delta'])

  def search():
    return pld_search.get_smallest_epsilon_from_advanced_composition(
        total, c['n'], c['each'])

  got = search()
  cov.step()
  cov.trace(got)
  lo = c['eps'] / c['n']
  impossible = 1 - (1 - c['each'])**c['n'] > c['delta'] or f(lo) is None
  none = impossible or f(lo) > c['eps']
  if (got is None) != none:
    raise Violation('wrong-none', f'returned {got}, epsilon at the lower end is {f(lo)}')
  if got is None:
    cov.probe('none_returned')
    return
  if f(got) > c['eps']:
    raise Violation('not-feasible', f'returned {got!r}, which composes to {f(got)!r}')
  if got + 3e-7 <= c['eps'] and f(got + 3e-7) <= c['eps']:
    raise Violation('not-optimal', f'returned {got!r}, but {got + 3e-7!r} is still allowed')


MECHANISMS = {'laplace': mech.LaplacePrivacyLoss, 'dlaplace': mech.DiscreteLaplacePrivacyLoss,
              'gauss': mech.GaussianPrivacyLoss, 'dgauss': mech.DiscreteGaussianPrivacyLoss}


def calibrate(c):
  """The noise (a scale, growing with privacy, but for discrete Laplace) and the mechanism."""
  pp = common.DifferentialPrivacyParameters(c['eps'], c['delta'])
  kind, n, s = c['mech'], c['n'], c['s']
  if c['via'] == 'noise':
    if kind == 'laplace':
      return pld_search.get_smallest_laplace_noise(pp, n, s), None
    if kind == 'dlaplace':
      return pld_search.get_smallest_discrete_laplace_noise(pp, n, s), None
    if kind == 'gauss':
      return pld_search.get_smallest_gaussian_noise(pp, n, s), None
    return pld_search.get_smallest_subsampled_gaussian_noise(pp, n, s, c['q']), None
  pl = MECHANISMS[kind].from_privacy_guarantee(
      pp, sensitivity=s, sampling_prob=c['q'],
      adjacency_type=mech.AdjacencyType.ADD if c['add'] else mech.AdjacencyType.REMOVE)
  if kind in ('laplace', 'dlaplace'):
    return pl.parameter, pl
  if kind == 'gauss':
    return pl.standard_deviation, pl
  # its parameter shows in the ratios of neighbouring masses
  at = [float(pl.noise_cdf(x)) for x in (-1, 0, 1)]
  return math.sqrt(.5 / math.log((at[1] - at[0]) / (at[2] - at[1]))), pl


def execute_calib(case, cov):
  judge_calib(case, cov)
  if case['then'] is not None:
    cov.probe('neighbouring_budget')
    judge_calib(dict(case, **dict(case['then'], line=None)), cov)


def judge_calib(c, cov):
  """The noise found for a mechanism keeps the budget and is hardly more than needed."""
  cov.probe('calibrated_noise' if c['via'] == 'noise' else 'calibrated_mechanism')
  eps, delta, s, n, q = c['eps'], c['delta'], c['s'], c['n'], c['q']
  kind = {'sgauss': 'gauss'}.get(c['mech'], c['mech'])
  if c['line'] is not None:
    outcome, val, fired = inject.run_with_fault(c['line'], lambda: calibrate(c),
                                                lambda: calibrate(c))
    if fired:
      cov.fault(c['line']['exc'])
      cov.probe('interrupted_line')
      cov.nontrivial = True
      if outcome == 'ok':
        raise Violation('failure-swallowed', f'an injected failure at {fired} vanished')
    elif outcome == 'raised':
      raise val
  got, pl = calibrate(c)
  cov.step()
  cov.trace(got)
  cov.state((c['via'], c['mech'], n, s, q, delta > 0))

  def true(noise):
    if kind == 'dgauss':
      d = calib.sampled(('dgauss', noise, s, 0), eps, q)
      return d, d
    return calib.bracket(kind, noise, s, n, q, eps)

  if not (got > 0 and math.isfinite(got)):
    raise Violation('not-feasible', f'the noise found is {got!r}')
  if got > 1e6 or kind in ('dgauss',) and got > 400 or kind == 'dlaplace' and got < 1e-4:
    return
  low, _ = true(got)
  slack = 1e-13 if kind != 'dgauss' else 1e-11
  if low > delta * (1 + 1e-6) + slack:
    raise Violation('not-feasible', f'with noise {got!r} the mechanism has delta {low!r} at '
                    f'epsilon {eps}, more than {delta}')
  if kind == 'dlaplace':
    less = 1 / max(1 / got * .998 - 3e-7, 1e-9)
  else:
    less = got * .998 - 3e-7
  if kind != 'dgauss' and less > 0 and true(less)[1] <= delta:
    raise Violation('not-optimal', f'found noise {got!r}, though {less!r} is enough')
  if kind == 'dgauss' and true(got * .99)[1] < delta * (1 - 1e-6) - slack:
    raise Violation('not-optimal', f'found noise {got!r}, though {got * .99!r} is enough')
  if pl is None:
    return
  told = pl.get_delta_for_epsilon(eps)
  # an added record is never worse off
  if told > delta * (1 + 1e-6) + slack:
    raise Violation('not-feasible', f'the mechanism says delta is {told!r}, not {delta}')
  if not c['add'] and told < low * (1 - 1e-6) - 1e-11:
    raise Violation('wrong-mechanism', f'the mechanism says delta is {told!r}, it is {low!r}')
  if pl.sampling_prob != q or pl.sensitivity != s:
    raise Violation('wrong-mechanism', f'asked for sensitivity {s} and sampling {q}, got '
                    f'{pl.sensitivity} and {pl.sampling_prob}')


def execute(case, cov):
  c = case
  if c['kind'] == 'calib':
    return execute_calib(c, cov)
  if c['kind'] == 'advanced':
    return execute_adv(c, cov)
  lo, hi = c['lo'], math.inf if c['hi'] == 'inf' else c['hi']
  curve = Curve(c, cov)
  # the distribution search has no direction or discreteness of its own
  smallest = c['kind'] == 'smallest' and not c['inc']
  value = c['value']
  if smallest:
    value = abs(value) / 4
    c = dict(c, value=value)
    curve.c = c
  sp = common.BinarySearchParameters(lo, hi, c['guess'], c['tol'], c['discrete'])
  sp_ref = copy.copy(sp)
  if smallest:
    cov.probe('smallest_parameter')
    pp = common.DifferentialPrivacyParameters(0.7, value)

    def search():
      return pld_search.get_smallest_parameter(
          pp, c['n'], lambda x: FakePld(curve, x, c['n'], 0.7), sp)
  else:

    def search():
      return common.inverse_monotone_function(curve, value, sp, c['inc'])

  tol = 1 if c['discrete'] else c['tol']
  if hi == math.inf:
    cov.probe('infinite_upper')
  if c['guess'] is not None:
    cov.probe('guess_low' if c['guess'] < c['T'] else 'guess_high')
  if c['discrete']:
    cov.probe('discrete')
  # expected answer
  if c['inc']:
    none = not curve.feasible(lo)
    best = min(c['T'], hi)
  else:
    none = hi != math.inf and not curve.feasible(hi)
    best = max(c['T'], lo)
  if c['discrete'] and not none:
    best = (math.floor(best) if c['inc'] else math.ceil(best))
    if not curve.feasible(best):
      best += -1 if c['inc'] else 1
  spacing = 4 * math.ulp(max(abs(best), abs(lo), abs(c['T'])))
  if spacing > tol:
    cov.probe('below_float_spacing')
  limit = 0
  top = hi if hi != math.inf else max(4 * max(best, 1), 4 * (c['guess'] or 1))
  limit = 2 * math.log2(max(2, (top - lo) / max(tol, math.ulp(1e-9)))) + 30
  if c['guess'] is not None:
    limit += 2 * math.log2(max(2, top / c['guess']))
  curve.cap = int(limit)

  failed = False
  for attempt in range(c['retries']):
    if c['fail_at'] >= 0:
      curve.points = []
      curve.fail_at = c['fail_at']
      curve.err = FAILURES[c['exc']](f'attempt {attempt}')
      try:
        search()
        hit = len(curve.points) > c['fail_at']
        if hit:
          raise Violation('failure-swallowed', f'evaluation {c["fail_at"]} failed but the '
                          'search returned')
      except Failure as e:
        cov.fault('failed evaluation')
        cov.probe('failed_evaluation')
        failed = True
        if e is not curve.err:
          raise Violation('failure-changed', 'another failure was raised') from e
      except Runaway:
        raise Violation('too-many-evaluations', f'more than {curve.cap}') from None
      curve.fail_at = -1
    if c['line'] is not None:
      curve.points = []

      def quiet():
        curve.points = []
        try:
          return search()
        except Runaway:
          raise Violation('too-many-evaluations', f'more than {curve.cap}') from None

      outcome, val, fired = inject.run_with_fault(c['line'], quiet, quiet)
      if fired:
        cov.fault(c['line']['exc'])
        cov.probe('interrupted_line')
        failed = True
        if outcome == 'ok':
          raise Violation('failure-swallowed', f'an injected failure at {fired} vanished')
      elif outcome == 'raised':
        raise val
  curve.points = []
  try:
    got = search()
  except Runaway:
    raise Violation('too-many-evaluations', f'more than {curve.cap} evaluations, last at '
                    f'{curve.points[-4:]}') from None
  cov.step(len(curve.points))
  cov.trace(got, curve.points)
  if sp != sp_ref:
    raise Violation('parameters-changed', f'{sp_ref} became {sp}')
  for x in curve.points:
    if not lo <= x <= hi:
      raise Violation('outside-range', f'evaluated at {x}, range [{lo}, {hi}]')
    if c['discrete'] and x != int(x):
      raise Violation('not-discrete', f'evaluated at {x}')
  if (got is None) != none:
    raise Violation('wrong-none', f'returned {got}; the solution is '
                    f'{"none" if none else best} in [{lo}, {hi}]')
  if got is None:
    cov.probe('none_returned')
  else:
    if not curve.value(got) <= value:
      raise Violation('not-feasible', f'returned {got!r} where the function is '
                      f'{curve.value(got)!r} > {value}')
    if c['discrete'] and got != int(got):
      raise Violation('not-discrete', f'returned {got}')
    if abs(got - best) > max(tol * (1 + 1e-9), spacing):
      raise Violation('not-optimal', f'returned {got!r}, the extreme solution is {best!r}, '
                      f'tolerance {tol}')
  cov.state((c['curve'], c['inc'], c['discrete'], c['guess'] is None or c['guess'] < c['T'],
             got is None, len(curve.points) // 8))
  cov.nontrivial = failed and len(curve.points) >= 3
