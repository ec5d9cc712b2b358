"""C05: privacy loss distributions are immutable values, composed lawfully."""
import copy
import json
import math

import numpy as np
from dp_accounting.pld import common
from dp_accounting.pld import privacy_loss_distribution as pl

from sim import inject
from sim.core import Violation

ID = 'C05'
RULE = ('a run is a program of constructors, compose, self_compose, queries, refused '
        'operations and interrupted operations over a growing pool of distributions; '
        'non-trivial if it composed at least twice and an operation was interrupted '
        'or refused')
REAL = ['pld.privacy_loss_distribution', 'pld.pld_pmf', 'pld.common']
STUB = []
ASSUMPTIONS = ['numpy.convolve computes convolutions to ~1e-13',
               'the grid of each base distribution is what its constructor declares']
RUNS = {'quick': 1500, 'thorough': 60000}
SHRINK_LISTS = ('ops',)
STATE_MEASURE = '(factors, representation size class, symmetric, estimate, truncated)'
PROBES = ('dense_base', 'sparse_to_dense', 'asymmetric_mixed', 'truncated_compose',
          'truncated_self', 'infinity_mass', 'all_infinite', 'interrupted', 'refused_n',
          'refused_interval', 'refused_estimate', 'unsorted_refused', 'optimistic',
          'factory', 'composed_query', 'epsilon_infinite', 'epsilon_positive',
          'self_compose_one')
CELLS = 6000


# ----------------------------------------------------------------- generation
def gen_pmf(rng):
  shape = rng.choice(['one', 'few', 'few', 'few', 'some', 'wide', 'wide'])
  n = {'one': 1, 'few': rng.randint(2, 6), 'some': rng.randint(20, 60),
       'wide': rng.randint(1002, 1150)}[shape]
  step = rng.choice([1, 1, 1, 3]) if shape in ('few', 'some') else 1
  lo = rng.randint(-n * step, max(1, n * step // 4)) if n > 1 else rng.randint(-3, 6)
  if shape == 'wide':
    lo = -rng.randint(400, 600)
  inf = rng.choice([0, 0, 0, 1e-6, 0.01, 0.2, 0.5])
  if n == 1 and rng.random() < 0.08:
    inf = 1.0
  return {'lo': lo, 'n': n, 'step': step, 'inf': inf, 'seed': rng.randint(0, 10**6),
          'peak': rng.choice([0.0, 0.0, 2.0, 8.0])}


def gen_base(rng, iv):
  r = rng.random()
  if r < 0.6:
    d = {'kind': 'pmf', 'remove': gen_pmf(rng), 'add': None,
         'pess': rng.random() < 0.85}
    if rng.random() < 0.35:
      d['add'] = gen_pmf(rng)
    return d
  if r < 0.68:
    return {'kind': 'identity'}
  if r < 0.82:
    return {'kind': 'params', 'k': rng.randint(0, 30),
            'delta': rng.choice([0, 0, 1e-5, 0.1, 0.5, 1.0])}
  which = rng.choice(['laplace', 'gaussian', 'dlaplace', 'dgaussian', 'rr', 'two',
                      'rr', 'two', 'laplace', 'mixture' if iv == 0.02 else 'gaussian'])
  return {'kind': 'factory', 'which': which,
          'p': rng.choice([1.0, 2.0, 4.0]), 'q': rng.choice([1.0, 1.0, 0.3]),
          'pess': rng.random() < 0.85, 'dots': rng.random() < 0.7}


def trunc(rng):
  return rng.choice([0, 0, 1e-15, 1e-15, 1e-9, 1e-4, 1e-2, 0.1])


def generate(rng, tier):
  iv = rng.choice([0.005, 0.01, 0.02])
  ops = []
  for _ in range(rng.randint(2, 4)):
    ops.append({'op': 'base', 'base': gen_base(rng, iv)})
  for _ in range(rng.randint(5, 14)):
    r = rng.random()
    a, b = round(rng.random(), 3), round(rng.random(), 3)
    if r < 0.30:
      ops.append({'op': 'compose', 'a': a, 'b': b, 't': trunc(rng)})
    elif r < 0.48:
      ops.append({'op': 'self', 'a': a, 'n': rng.choice([1, 2, 2, 3, 4, 5, 7, 12]),
                  't': trunc(rng)})
    elif r < 0.60:
      ops.append({'op': 'query', 'a': a, 'eps': round(rng.uniform(-3, 6), 3),
                  'log_delta': round(rng.uniform(-8, 0), 3)})
    elif r < 0.68:
      ops.append({'op': 'qcomp', 'a': a, 'b': b, 'k': rng.randint(-100, 200)})
    elif r < 0.84:
      ops.append({'op': 'fault', 'what': rng.choice(['compose', 'self', 'query', 'qcomp', 'eps']),
                  'a': a, 'b': b, 'n': rng.choice([1, 2, 3, 5]), 't': trunc(rng),
                  'fault': inject.random_spec(rng)})
    elif r < 0.92:
      ops.append({'op': 'refuse', 'how': rng.choice(['n', 'interval', 'estimate', 'unsorted']),
                  'a': a, 'n': rng.choice([0, -1, -5])})
    else:
      ops.append({'op': 'base', 'base': gen_base(rng, iv)})
    if rng.random() < 0.15:
      # the same call again, but for the truncation
      same = [o for o in ops if o['op'] in ('self', 'compose')]
      if same:
        o = dict(rng.choice(same))
        o['t'] = trunc(rng)
        ops.append(o)
  return {'iv': iv, 'ops': ops}


# ---------------------------------------------------------------------- model
def make_pmf(spec):
  rs = np.random.RandomState(spec['seed'])
  w = rs.random_sample(spec['n']) ** 2 + 1e-3
  if spec['peak']:
    x = np.linspace(-1, 1, spec['n'])
    w = w * np.exp(-spec['peak'] * x * x)
  w = w / w.sum() * (1 - spec['inf'])
  return {spec['lo'] + i * spec['step']: float(v) for i, v in enumerate(w)}


class Dist:
  """Exact discrete distribution on integers plus mass at infinity."""

  def __init__(self, lo, p, inf):
    self.lo, self.p, self.inf = lo, p, inf

  @classmethod
  def of(cls, pmf, inf):
    lo, hi = min(pmf), max(pmf)
    p = np.zeros(hi - lo + 1)
    for k, v in pmf.items():
      p[k - lo] += v
    return cls(lo, p, inf)

  def conv(self, o):
    return Dist(self.lo + o.lo, np.convolve(self.p, o.p),
                self.inf + o.inf - self.inf * o.inf)

  def delta(self, eps, iv):
    if eps == math.inf:
      return self.inf
    losses = (self.lo + np.arange(len(self.p))) * iv
    m = losses > eps
    return float(self.inf + np.dot(-np.expm1(eps - losses[m]), self.p[m]))


class Val:
  """A pool entry: real object, exact model per direction, error budget."""

  def __init__(self, real, rem, add, pess, slack, factors, canon):
    self.real = real
    self.rem, self.add = rem, add        # Dist or None for factory factors
    self.pess = pess
    self.slack = slack
    self.factors = factors               # sorted list of base keys
    self.canon = canon                   # canonical PLD (factory factors)
    self.print = None

  def cells(self):
    return self.ncell

  def delta(self, eps, iv):
    if self.rem is None:
      return float(self.canon.get_delta_for_epsilon(eps))
    d = self.rem.delta(eps, iv)
    return max(d, self.add.delta(eps, iv)) if self.add is not None else d


def build_base(b, iv, cov):
  """-> (real, rem, add, pess, cells)."""
  if b['kind'] == 'identity':
    one = Dist(0, np.ones(1), 0.0)
    return pl.identity(iv), one, None, True, 1
  if b['kind'] == 'params':
    # epsilon half way inside a cell, so the rounding direction is unambiguous
    k = b['k']
    e = (k + 0.5) * iv
    d = b['delta']
    real = pl.from_privacy_parameters(common.DifferentialPrivacyParameters(e, d), iv)
    if d == 1.0:
      cov.probe('all_infinite')
    rem = Dist.of({k + 1: (1 - d) / (1 + math.exp(-e)), -k: (1 - d) / (1 + math.exp(e))}, d)
    return real, rem, None, True, 2 * k + 2
  if b['kind'] == 'pmf':
    pmf = make_pmf(b['remove'])
    keep = dict(pmf)
    add = make_pmf(b['add']) if b['add'] else None
    keep_add = dict(add) if add else None
    if add:
      real = pl.PrivacyLossDistribution.create_from_rounded_probability(
          pmf, b['remove']['inf'], iv, b['pess'], add, b['add']['inf'], symmetric=False)
    else:
      real = pl.PrivacyLossDistribution.create_from_rounded_probability(
          pmf, b['remove']['inf'], iv, b['pess'])
    if pmf != keep or add != keep_add:
      raise Violation('argument-changed', 'a constructor changed its mapping argument')
    if b['remove']['n'] > 1000:
      cov.probe('dense_base')
    if b['remove']['inf'] == 1.0:
      cov.probe('all_infinite')
    if not b['pess']:
      cov.probe('optimistic')
    rem = Dist.of(pmf, b['remove']['inf'])
    addm = Dist.of(add, b['add']['inf']) if add else None
    return real, rem, addm, b['pess'], max(len(rem.p), len(addm.p) if add else 0)
  cov.probe('factory')
  kw = {'pessimistic_estimate': b['pess'], 'value_discretization_interval': iv}
  dots = dict(kw, use_connect_dots=b['dots'] and b['pess'])
  p, q = b['p'], b['q']
  w = b['which']
  pess = b['pess']
  if w == 'laplace':
    real = pl.from_laplace_mechanism(p, sampling_prob=q, **dots)
  elif w == 'gaussian':
    real = pl.from_gaussian_mechanism(p, sampling_prob=q, **dots)
  elif w == 'dlaplace':
    real = pl.from_discrete_laplace_mechanism(1 / p, sampling_prob=q, **dots)
  elif w == 'dgaussian':
    real = pl.from_discrete_gaussian_mechanism(p, sampling_prob=q, **dots)
  elif w == 'rr':
    real = pl.from_randomized_response(1 / (1 + p), 4, **kw)
  elif w == 'mixture':
    real = pl.from_mixture_gaussian_mechanism(
        4.0, [0.0, 1.0, 2.0], [0.5, 0.25, 0.25], **dots)
  else:
    lower = {0: math.log(0.5), 1: math.log(0.3), 2: math.log(0.2)}
    upper = {0: math.log(0.3), 1: math.log(0.3), 2: math.log(0.3), 3: math.log(0.1)}
    real = pl.from_two_probability_mass_functions(
        lower, upper, symmetric=q == 1.0, **kw)
  return real, None, None, pess, 1200


EPS_LIST = [-600.0, -5.0, -1.0, -0.3, 0.0, 0.105, 0.5, 1.0, 2.0, 4.0, 9.0, math.inf]


def fingerprint(real):
  return ([float(real.get_delta_for_epsilon(e)) for e in EPS_LIST],
          real.get_epsilon_for_delta(1e-4), real.get_epsilon_for_delta(0.3))


def same_print(a, b):
  fa = list(a[0]) + list(a[1:])
  fb = list(b[0]) + list(b[1:])
  return all(x == y or abs(x - y) <= 1e-11 * max(1, abs(x)) for x, y in zip(fa, fb))


def check_value(v, iv, where, cov):
  """Law checks of a freshly produced value against the model."""
  tol = 1e-9
  hi, lo = v.slack, (0.0 if v.pess else v.slack)
  got = v.print[0]
  for e, g in zip(EPS_LIST, got):
    w = v.delta(e, iv)
    if not (w - tol - lo <= g <= w + tol + hi):
      side = 'below' if g < w else 'above'
      raise Violation(f'delta-{side}', f'{where}: delta({e}) is {g!r}, direct convolution of '
                      f'{v.factors} gives {w!r} (declared truncation {v.slack:g})')
  for e, g, s in zip(EPS_LIST, got, v.real.get_delta_for_epsilon(list(EPS_LIST))):
    if abs(s - g) > 1e-9:
      raise Violation('scalar-vector', f'{where}: delta({e}) is {g!r} asked alone and '
                      f'{s!r} asked in a list')
  if not (1 - lo - tol <= got[0] <= 1 + hi + tol):
    raise Violation('mass', f'{where}: total mass {got[0]!r}')
  for x, y in zip(got, got[1:]):
    if y > x + tol:
      raise Violation('not-monotone', f'{where}: delta increases in epsilon: {got}')
  if got[-1] > 0:
    cov.probe('infinity_mass')
  for d in (1e-6, 1e-4, 0.01, 0.3):
    e = v.real.get_epsilon_for_delta(d)
    check_eps(v, iv, d, e, where, cov)


def check_eps(v, iv, d, e, where, cov):
  tol = 1e-9
  lo = 0.0 if v.pess else v.slack
  if not e >= 0:
    raise Violation('epsilon-invalid', f'{where}: epsilon({d}) is {e!r}')
  if e == math.inf:
    cov.probe('epsilon_infinite')
    inf = float(v.real.get_delta_for_epsilon(math.inf))
    if inf < d - tol:
      raise Violation('epsilon-above', f'{where}: epsilon({d}) is infinite, the '
                      f'infinity mass is only {inf!r}')
    return
  at = float(v.real.get_delta_for_epsilon(e))
  if at > d + tol:
    raise Violation('inconsistent', f'{where}: epsilon({d}) is {e!r} but delta there is {at!r}')
  if v.delta(e, iv) > d + tol + lo:
    raise Violation('epsilon-below', f'{where}: epsilon({d}) is {e!r}; the direct '
                    f'convolution has delta {v.delta(e, iv)!r} there')
  if e > 2e-6 and d > float(v.real.get_delta_for_epsilon(math.inf)) + 1e-7:
    cov.probe('epsilon_positive')
    at = float(v.real.get_delta_for_epsilon(e - 2e-6))
    if at < d - tol:
      raise Violation('inconsistent', f'{where}: epsilon({d}) is {e!r} but already '
                      f'{e - 2e-6!r} has delta {at!r}')
    if v.delta(e - 2e-6, iv) < d - tol - v.slack:
      raise Violation('epsilon-above', f'{where}: epsilon({d}) is {e!r}; the direct '
                      f'convolution needs less (declared truncation {v.slack:g})')


def declared(v, n, t):
  """Mass a self-composition may move; small ones are exact up to the truncation once."""
  return t if v.ncell ** n <= 1000 else 2 * t


def execute(case, cov):
  iv = case['iv']
  pool = []
  bases = {}
  made = {}
  composed = 0
  disturbed = False

  def canon_of(factors):
    """Fresh composition of factory factors in canonical order, no truncation."""
    acc = None
    for k in sorted(factors):
      if k not in made:
        made[k] = build_base(bases[k], iv, cov)[0]
      real = copy.deepcopy(made[k])
      acc = real if acc is None else acc.compose(real, 0)
    return acc

  def admit(v, where):
    v.print = fingerprint(v.real)
    check_value(v, iv, where, cov)
    if len(pool) < 9:
      pool.append(v)
    cov.trace(where, v.print)
    cov.state((len(v.factors), v.ncell > 1000, v.add is not None, v.pess, v.slack > 1e-12))

  def pick(x, pess=None):
    c = [v for v in pool if pess is None or v.pess == pess]
    return c[min(int(x * len(c)), len(c) - 1)] if c else None

  def verify_pool(where, subset=None):
    for i, v in enumerate(pool):
      now = fingerprint(v.real)
      if not same_print(now, v.print):
        raise Violation('operand-changed', f'{where}: the distribution of {v.factors} '
                        f'now answers {now}, before {v.print}')

  def combine(va, vb, t):
    slack = va.slack + vb.slack + t
    factors = sorted(va.factors + vb.factors)
    if va.rem is not None and vb.rem is not None:
      rem = va.rem.conv(vb.rem)
      add = None
      if va.add is not None or vb.add is not None:
        add = (va.add or va.rem).conv(vb.add or vb.rem)
        if (va.add is None) != (vb.add is None):
          cov.probe('asymmetric_mixed')
      canon = None
    else:
      rem = add = None
      canon = canon_of(factors)
    return rem, add, slack, factors, canon

  for i, op in enumerate(case['ops']):
    where = f'op {i} ({op["op"]})'
    cov.step()
    if op['op'] == 'base':
      key = json.dumps(op['base'], sort_keys=True)
      bases[key] = op['base']
      real, rem, add, pess, cells = build_base(op['base'], iv, cov)
      v = Val(real, rem, add, pess, 0.0, [key], real if rem is None else None)
      if rem is None:
        v.canon = build_base(op['base'], iv, cov)[0]
      v.ncell = cells
      admit(v, where)
      continue
    if not pool:
      continue
    va = pick(op['a'])
    if op['op'] == 'compose':
      vb = pick(op['b'], va.pess)
      if va.ncell + vb.ncell > CELLS or len(va.factors) + len(vb.factors) > 24:
        continue
      rem, add, slack, factors, canon = combine(va, vb, op['t'])
      real = va.real.compose(vb.real, op['t'])
      v = Val(real, rem, add, va.pess, slack, factors, canon)
      v.ncell = va.ncell + vb.ncell
      composed += 1
      if op['t'] > 1e-10:
        cov.probe('truncated_compose')
      admit(v, where)
    elif op['op'] == 'self':
      n = op['n']
      if va.ncell * n > CELLS or len(va.factors) * n > 24:
        continue
      rem = add = None
      factors = sorted(va.factors * n)
      canon = None
      if va.rem is not None:
        rem, add = va.rem, va.add
        for _ in range(n - 1):
          rem = rem.conv(va.rem)
          add = add.conv(va.add) if add is not None else None
      else:
        canon = canon_of(factors)
      real = va.real.self_compose(n, op['t'])
      v = Val(real, rem, add, va.pess, n * va.slack + declared(va, n, op['t']), factors, canon)
      v.ncell = va.ncell * n
      composed += n > 1
      if n == 1:
        cov.probe('self_compose_one')
      if op['t'] > 1e-10 and n > 1:
        cov.probe('truncated_self')
      if va.ncell < 1000 < v.ncell:
        cov.probe('sparse_to_dense')
      admit(v, where)
    elif op['op'] == 'query':
      e = op['eps']
      g, w = float(va.real.get_delta_for_epsilon(e)), va.delta(e, iv)
      if not w - 1e-9 - (0 if va.pess else va.slack) <= g <= w + 1e-9 + va.slack:
        raise Violation('delta-below' if g < w else 'delta-above',
                        f'{where}: delta({e}) is {g!r}, direct convolution {w!r}')
      es = sorted([e, e / 2, 0.0, e + 1])
      args = np.array(es)
      gs = va.real.get_delta_for_epsilon(args)
      if args.tolist() != es:
        raise Violation('argument-changed', f'{where}: the list of epsilons was changed')
      for x, y in zip(es, gs):
        if abs(float(va.real.get_delta_for_epsilon(x)) - y) > 1e-9:
          raise Violation('scalar-vector', f'{where}: delta({x}) differs in a list')
      d = 10 ** op['log_delta']
      check_eps(va, iv, d, va.real.get_epsilon_for_delta(d), where, cov)
    elif op['op'] == 'qcomp':
      vb = pick(op['b'], va.pess)
      if va.ncell + vb.ncell > CELLS or len(va.factors) + len(vb.factors) > 24:
        continue
      # between two grid points, so that rounding cannot move a loss across
      e = (op['k'] + 0.5) * iv
      rem, add, slack, factors, canon = combine(va, vb, 0)
      ref = Val(None, rem, add, va.pess, slack, factors, canon)
      g, w = float(va.real.get_delta_for_epsilon_for_composed_pld(vb.real, e)), ref.delta(e, iv)
      cov.probe('composed_query')
      if not w - 1e-9 - (0 if va.pess else slack) <= g <= w + 1e-9 + slack:
        raise Violation('composed-delta', f'{where}: delta({e}) of the composition asked '
                        f'without composing is {g!r}, direct convolution {w!r}')
    elif op['op'] == 'fault':
      vb = pick(op['b'], va.pess)
      if va.ncell + vb.ncell > CELLS or va.ncell * op['n'] > CELLS:
        continue

      def work(x, y):
        if op['what'] == 'compose':
          return x.compose(y, op['t'])
        if op['what'] == 'self':
          return x.self_compose(op['n'], op['t'])
        if op['what'] == 'query':
          return x.get_delta_for_epsilon(list(EPS_LIST))
        if op['what'] == 'eps':
          return x.get_epsilon_for_delta(1e-3)
        return x.get_delta_for_epsilon_for_composed_pld(y, 0.5 * iv)

      da, db = copy.deepcopy(va.real), copy.deepcopy(vb.real)
      outcome, val, fired = inject.run_with_fault(
          op['fault'], lambda: work(va.real, vb.real), lambda: work(da, db))
      if fired:
        cov.fault(f'{op["fault"]["exc"]} in {op["what"]}')
        cov.probe('interrupted')
        disturbed = True
        if outcome == 'ok':
          raise Violation('failure-swallowed', f'{where}: an injected failure at {fired} vanished')
      elif outcome == 'raised':
        raise val
      # the same call made again answers as if nothing had happened
      again, ref = work(va.real, vb.real), work(copy.deepcopy(va.real), copy.deepcopy(vb.real))
      if op['what'] in ('compose', 'self'):
        again, ref = fingerprint(again), fingerprint(ref)
        if not same_print(again, ref):
          raise Violation('retry-differs', f'{where}: retry gives {again}, a copy gives {ref}')
      elif not np.allclose(again, ref, rtol=1e-11, atol=1e-14):
        raise Violation('retry-differs', f'{where}: retry gives {again}, a copy gives {ref}')
    elif op['op'] == 'refuse':
      disturbed = True
      how = op['how']
      cov.fault('refused ' + how)
      try:
        if how == 'n':
          cov.probe('refused_n')
          va.real.self_compose(op['n'])
        elif how == 'interval':
          cov.probe('refused_interval')
          va.real.compose(pl.identity(iv * 2))
        elif how == 'estimate':
          cov.probe('refused_estimate')
          va.real.compose(pl.PrivacyLossDistribution.create_from_rounded_probability(
              {0: 1.0}, 0, iv, not va.pess))
        else:
          cov.probe('unsorted_refused')
          va.real.get_delta_for_epsilon([1.0, 0.0])
      except ValueError:
        pass
      else:
        raise Violation('not-refused', f'{where}: {how} was accepted')
    if op['op'] != 'query' or i % 3 == 0:
      verify_pool(where)
  verify_pool('at the end')
  cov.nontrivial = composed >= 2 and disturbed
