"""C10: private clustering spends at most the privacy budget it was given."""
import collections
import math

import numpy as np
from scipy import stats

from sim import dpnoise
from sim import inject
from sim import lshgen  # pylint: disable=unused-import
from sim.core import Violation
from clustering import clustering_algorithm
from clustering import clustering_params

ID = 'C10'
RULE = ('a run clusters a dataset and then the dataset without one point, under one '
        'simulated random source and with equal releases, and computes the exact privacy '
        'loss of the draws in between; non-trivial if the point took part in at least one '
        'count and one average')
REAL = ['clustering.privacy_calculator', 'clustering.lsh_tree', 'clustering.lsh',
        'clustering.central_privacy_utils', 'clustering.clustering_algorithm',
        'clustering.clustering_params', 'clustering.default_clustering_params',
        'dp_accounting.mechanism_calibration', 'dp_accounting.pld']
STUB = ['numpy.random.normal, scipy.stats.dlaplace.rvs (simulated random source)',
        'sklearn KMeans (deterministic function of the coreset; sklearn is not installed)']
ASSUMPTIONS = ['coordinates are finite', 'dlaplace.rvs(a) has mass proportional to '
               'exp(-a|x|), normal(scale) is Gaussian', 'neighbours differ in one point']
RUNS = {'quick': 90, 'thorough': 3000}
BUDGET = {'quick': 120, 'thorough': 3000}
DOUBLE_EVERY = 40
SHRINK_LISTS = ('before',)
STATE_MEASURE = '(depth, default tree, epsilon class, multipliers, norm class, draws touched)'
PROBES = ('default_tree', 'full_depth', 'outside_radius', 'at_radius', 'early_leaf', 'history',
          'interrupted_before', 'multipliers', 'tight', 'rng_failed_before')


def gen_conf(rng, tier):
  eps = rng.choice([0.05, 0.1, 0.2, 0.2, 0.3, 0.3, 0.5] + rng.choice([[], [], [1.0, 2.0]]))
  return {'eps': eps, 'delta': rng.choice([1e-2, 1e-3, 1e-5, 1e-6, 0.3]),
          'depth': rng.choice([0, 1, 2, 3, 5, 8, 20]), 'default': rng.random() < 0.3,
          'node': rng.choice([1, 1, 2]), 'branch': rng.choice([2, 2, 4]),
          # (Gaussian, Laplace) multipliers
          'mult': rng.choice([None, None, [1.0, 1.0], [1.0, 4.0], [0.5, 20.0], [3.0, 2.0],
                              [1.0, 20.0], [20.0, 1.0]]),
          'k': rng.choice([1, 2, 3])}


def generate(rng, tier):
  case = {'conf': gen_conf(rng, tier), 'before': [], 'dim': rng.choice([1, 2, 3, 8]),
          'radius': rng.choice([1.0, 1.0, 0.01, 25.0]), 'n': rng.choice([1, 1, 2, 3, 5]),
          'norm': rng.choice([1.0, 1.0, 1.0000001, 1.5, 40.0, 1e8, 0.7]),
          'seed': rng.randint(0, 10**6), 'leaf': rng.choice([None, None, None, 1, 2, 3]),
          'first': rng.choice([None, None, 1, 0, -60, 3])}
  if rng.random() < 0.35:
    conf = dict(case['conf'])
    conf.update(rng.choice([{'eps': conf['eps'] * 2}, {'depth': 0, 'default': False},
                            {'delta': min(0.9, conf['delta'] * 10)}, {'mult': [5.0, 20.0]},
                            {'eps': 0.05}]))
    case['before'].append({'conf': conf, 'fault': None})
  if rng.random() < 0.3:
    case['before'].append({'conf': case['conf'], 'rng_fail': rng.randint(0, 6)}
                          if rng.random() < 0.4 else
                          {'conf': case['conf'], 'frac': round(rng.random(), 4),
                           'exc': rng.choice(list(inject.EXCS))})
  return case


def dataset(case):
  rs = np.random.RandomState(case['seed'])
  x = rs.standard_normal((case['n'], case['dim'])) + 1e-9
  x /= np.linalg.norm(x, axis=1, keepdims=True)
  scale = np.concatenate([[case['norm']], rs.uniform(0, 1.2, case['n'] - 1)])
  return x * scale[:, None] * case['radius']


class Refused(Exception):
  """The pipeline refused its parameters before drawing anything."""


def cluster(case, conf, x, src):
  tree = None
  if not conf['default']:
    tree = clustering_params.TreeParam(conf['branch'], conf['node'], conf['depth'])
  mult = None
  if conf['mult']:
    mult = clustering_params.PrivacyCalculatorMultiplier(*conf['mult'])
  with src:
    try:
      return clustering_algorithm.private_lsh_clustering(
          conf['k'], clustering_params.Data(x, case['radius']),
          clustering_params.DifferentialPrivacyParam(conf['eps'], conf['delta']),
          tree_param=tree, multipliers=mult)
    except ValueError as e:
      if src.attempts or isinstance(e, dpnoise.RngFailure):
        raise
      # the calibrated budget met the target to the last bits and its validation
      # computes a delta a rounding error above it: fails safe
      raise Refused() from e


def growing(leaf, first=None):
  """Release decisions that let the tree grow where there are points."""
  def decide(draw, base):
    if draw.kind != 'count':
      return None
    if first is not None and draw.source.ncount <= 1:
      return first      # the first count, of all points, comes out low
    if base <= 0:
      return -5
    # nodes with points look heavy; from count `leaf` on they stop branching
    if leaf is not None and draw.source.ncount > 2 * leaf:
      return 1
    return 1000
  return decide


def laplace_losses(a, shift):
  """Loss distribution of discrete Laplace noise a, added to values `shift` apart."""
  s = abs(int(shift))
  q = math.exp(-a)
  norm = (1 - q) / (1 + q)  # P(0)
  out = collections.Counter()
  # X <= 0: loss a*s; X >= s: -a*s; in between a*(s-2x)
  out[s] += 1 / (1 + q)
  out[-s] += math.exp(-a * s) / (1 + q)
  for x in range(1, s):
    out[s - 2 * x] += norm * math.exp(-a * x)
  return out


def delta_of(eps, counts, mus):
  """Exact delta(eps) of the composition; counts: [(a, shift)], mus: d/sigma."""
  groups = collections.Counter(counts)
  losses = {0.0: 1.0}
  for (a, shift), n in groups.items():
    one = laplace_losses(a, shift)
    p = {0: 1.0}
    for _ in range(n):
      q = collections.defaultdict(float)
      for i, u in p.items():
        for j, v in one.items():
          q[i + j] += u * v
      p = q
    new = collections.defaultdict(float)
    for l, u in losses.items():
      for i, v in p.items():
        new[l + a * i] += u * v
    losses = new
  mu = math.sqrt(sum(m * m for m in mus))
  total = 0.0
  for l, p in losses.items():
    e = eps - l
    if mu == math.inf:
      total += p
    elif mu > 0:
      d = (stats.norm.cdf(mu / 2 - e / mu)
           - math.exp(min(700, e + stats.norm.logcdf(-mu / 2 - e / mu))))
      total += p * max(d, 0.0)
    else:
      total += p * max(0.0, -math.expm1(e))
  return total


def shifts(src1, src2):
  """(count shifts, average shifts) between two executions with equal releases."""
  counts, mus, gaps = [], [], []
  d1, d2 = src1.draws, src2.draws
  if [d.signature() for d in d1] != [d.signature() for d in d2]:
    raise Violation('unbounded-loss', 'the draws made with and without one point differ '
                    'although all releases agree')
  for i, (p, q) in enumerate(zip(d1, d2)):
    if (p.base is None) != (q.base is None):
      raise Violation('unbounded-loss', f'draw {i} is released on one dataset only')
    if p.base is None:
      continue
    if p.kind == 'count':
      if p.base != q.base:
        counts.append((float(p.param), abs(int(p.base) - int(q.base))))
    else:
      d = float(np.linalg.norm(np.asarray(p.base) - np.asarray(q.base)))
      # rounding of the two sums
      scale = float(np.max(np.abs(p.base), initial=0) + np.max(np.abs(q.base), initial=0))
      if d > 1e-12 * scale:
        gaps.append(d)
        mus.append(d / float(p.param) if p.param > 0 else math.inf)
  return counts, mus, gaps


def execute(case, cov):
  conf = case['conf']
  x = dataset(case)
  # process history: other budgets, interrupted or failed attempts
  for b in case['before']:
    def attempt(src):
      return cluster(case, b['conf'], x, src)
    try:
      if 'rng_fail' in b:
        cov.probe('rng_failed_before')
        attempt(dpnoise.Source(case['seed'], decide=growing(case['leaf'], case['first']),
                               fail_at=[b['rng_fail']], cov=cov))
      elif 'frac' in b:
        cov.probe('interrupted_before')
        t = inject._Tracer(at=int(b['frac'] * 4000), exc=inject.EXCS[b['exc']])  # pylint: disable=protected-access
        t.run(lambda: attempt(dpnoise.Source(case['seed'], decide=growing(case['leaf'], case['first']))))
        if t.fired:
          cov.fault('exception at a line of the pipeline')
      else:
        cov.probe('history')
        attempt(dpnoise.Source(case['seed'], decide=growing(case['leaf'], case['first'])))
    except (dpnoise.RngFailure, KeyboardInterrupt, MemoryError, inject.InjectedError):
      pass
    except Refused:
      cov.probe('refused_by_rounding')
  s1 = dpnoise.Source(case['seed'], decide=growing(case['leaf'], case['first']), cov=cov)
  try:
    try:
      cluster(case, conf, x, s1)
    except Refused:
      # nothing was released
      cov.probe('refused_by_rounding')
      cov.trace('refused')
      return
    s2 = dpnoise.Source(case['seed'], forced=s1.draws, cov=cov)
    cluster(case, conf, x[1:], s2)
  except dpnoise.Reused as e:
    raise Violation('noise-reused', str(e)) from e
  cov.step(len(s1.draws))
  cov.fault('controlled draws', len(s1.draws) + len(s2.draws))
  counts, mus, gaps = shifts(s1, s2)
  depth = 20 if conf['default'] else conf['depth']
  levels = sum(1 for a, s in counts)
  got = delta_of(conf['eps'], counts, mus)
  cov.trace(s1.signatures(), counts, mus, got)
  if got > conf['delta'] * (1 + 1e-6) + 1e-12:
    raise Violation(
        'over-budget', f'budget ({conf["eps"]}, {conf["delta"]}) but the draws made lose '
        f'delta({conf["eps"]}) = {got:.6g} about one point: counts (parameter, shift) '
        f'{dict(collections.Counter(counts))}, averages shift/sigma {mus}, shifts {gaps}, '
        f'radius {case["radius"]}, depth {depth}')
  if not mus:
    cov.probe('no_average')
  if levels == depth + 1:
    cov.probe('full_depth')
  else:
    cov.probe('early_leaf')
  if conf['default']:
    cov.probe('default_tree')
  if conf['mult']:
    cov.probe('multipliers')
  if case['norm'] > 1.01:
    cov.probe('outside_radius')
  elif case['norm'] >= 1:
    cov.probe('at_radius')
  if got > 0.5 * conf['delta']:
    cov.probe('tight')
  cov.state((depth, conf['default'], conf['eps'], tuple(conf['mult'] or ()), case['norm'], levels,
             len(mus)))
  cov.nontrivial = bool(counts) and bool(mus)
