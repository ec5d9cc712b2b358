"""C09: private clustering sees the data only through its noisy releases."""
import numpy as np

from sim import dpnoise
from sim import lshgen
from sim.core import Violation
from clustering import clustering_algorithm
from clustering import clustering_params
from clustering import lsh_tree

ID = 'C09'
RULE = ('a run executes the pipeline on one dataset, then on another one with the same '
        'random bits except that every noise comes out such that the same values are '
        'released, and compares everything; non-trivial if the datasets differ and at '
        'least one split and one average were released')
REAL = ['clustering.lsh_tree', 'clustering.lsh', 'clustering.central_privacy_utils',
        'clustering.clustering_algorithm', 'clustering.clustering_params',
        'clustering.privacy_calculator and dp_accounting (runs of kind full)']
STUB = ['numpy.random.normal, scipy.stats.dlaplace.rvs (simulated random source)',
        'sklearn KMeans (deterministic function of the coreset; sklearn is not installed)']
ASSUMPTIONS = ['coordinates are finite', 'noise is drawn with numpy.random.normal and '
               'scipy.stats.dlaplace and added to the value it protects']
RUNS = {'quick': 6000, 'thorough': 200000}
STATE_MEASURE = '(levels, leaves, relation of the datasets, noise mode, entry point)'
PROBES = ('empty_first', 'empty_second', 'neighbour', 'unrelated', 'full_depth', 'one_leaf',
          'full_pipeline', 'default_tree', 'outside_radius', 'tree_only', 'negative_count',
          'reused_count', 'raised')
BUDGETS = ((1.0, 1e-5), (0.3, 1e-3))


def generate(rng, tier):
  d1 = lshgen.random_data(rng, tier)
  rel = rng.choice(['drop', 'drop', 'add', 'replace', 'move', 'other', 'other', 'empty'])
  t = lshgen.random_tree_param(rng)
  kind = 'full' if rng.random() < 0.004 else rng.choice(['coreset', 'coreset', 'coreset', 'tree'])
  return {'d1': d1, 'rel': rel, 'd2': dict(lshgen.random_data(rng, tier), dim=d1['dim'],
                                           radius=d1['radius']),
          'pick': round(rng.random(), 4), 't': t, 'nz': lshgen.random_noise(rng), 'kind': kind,
          'bits': rng.randint(0, 10**6), 'given_count': rng.random() < 0.4,
          'k': rng.choice([1, 2, 5]), 'budget': rng.randint(0, len(BUDGETS) - 1),
          'default_tree': rng.random() < 0.5}


def second(case, x):
  rel = case['rel']
  i = min(int(case['pick'] * len(x)), len(x) - 1)
  if rel == 'empty':
    return x[:0]
  if rel == 'drop' and len(x):
    return np.delete(x, i, axis=0)
  other = lshgen.points(case['d2'])
  if rel == 'add' and len(other):
    return np.concatenate([x, other[:1]])
  if rel == 'replace' and len(x) and len(other):
    y = x.copy()
    y[i] = other[0]
    return y
  if rel == 'move' and len(x):
    y = x.copy()
    y[i] = -y[i] * 0.5
    return y
  return other


def play(case, x, src, cov):
  """One execution; everything an observer may see."""
  d, t = case['d1'], case['t']
  data = clustering_params.Data(x, d['radius'])
  keep = x.copy()
  dpnoise.KMeans.seen = []
  out = {}
  try:
    with src:
      if case['kind'] == 'full':
        cov.probe('full_pipeline')
        eps, delta = BUDGETS[case['budget']]
        tp = None if case['default_tree'] else lshgen.tree_param(t)
        if tp is None:
          cov.probe('default_tree')
        res = clustering_algorithm.private_lsh_clustering(
            case['k'], data, clustering_params.DifferentialPrivacyParam(eps, delta), tree_param=tp)
        out['centers'] = res.centers.tolist()
        out['coreset'] = [(k, p.tolist(), w.tolist()) for k, p, w in dpnoise.KMeans.seen]
      else:
        cp = lshgen.coreset_param(t, d['radius'], case['nz']['std'], case['nz']['lap'])
        count = None
        if case['given_count']:
          cov.probe('reused_count')
          from clustering import central_privacy_utils  # pylint: disable=g-import-not-at-top
          count = central_privacy_utils.get_private_count(len(x), cp.pcalc.count_privacy_param)
        clipped = clustering_params.Data(data.clip_by_radius(), d['radius'])
        if case['kind'] == 'coreset':
          cs = clustering_algorithm.get_private_coreset(clipped, cp, count)
          out['points'] = cs.datapoints.tolist()
          out['weights'] = [float(w) for w in cs.weights]
        else:
          cov.probe('tree_only')
          root = lsh_tree.root_node(clipped, cp, count)
          tree = lsh_tree.LshTree(root)
          out['tree'] = {int(k): [(n.hash_prefix, int(n.private_count)) for n in v]
                         for k, v in tree.tree.items()}
          out['repr'] = repr(tree.tree)
          out['leaves'] = [(n.hash_prefix, int(n.private_count), n.get_private_average().tolist())
                           for n in tree.leaves]
  except dpnoise.Reused as e:
    raise Violation('noise-reused', str(e)) from e
  except ValueError as e:
    out['raised'] = f'{type(e).__name__}'
    cov.probe('raised')
  if x.tobytes() != keep.tobytes():
    raise Violation('input-changed', 'the dataset was changed in place')
  return out


def execute(case, cov):
  x1 = lshgen.points(case['d1'])
  x2 = second(case, x1)
  if len(x1) == 0:
    cov.probe('empty_first')
  if len(x2) == 0:
    cov.probe('empty_second')
  if case['d1']['shape'] in ('outside', 'huge'):
    cov.probe('outside_radius')
  cov.probe('neighbour' if abs(len(x1) - len(x2)) <= 1 and case['rel'] not in ('other', 'empty')
            else 'unrelated')
  nz, t = case['nz'], case['t']
  counts = lshgen.count_noise(nz, t)
  s1 = dpnoise.Source(case['bits'], counts, cov=cov)
  a = play(case, x1, s1, cov)
  s2 = dpnoise.Source(case['bits'], lshgen.count_noise(nz, t), forced=s1.draws, cov=cov)
  b = play(case, x2, s2, cov)
  cov.step(len(s1.draws))
  cov.fault('controlled draws', len(s1.draws) + len(s2.draws))
  cov.trace(a, s1.signatures())
  # every draw that is a release in one execution is one in the other
  for i, (p, q) in enumerate(zip(s1.draws, s2.draws)):
    if p.signature() != q.signature():
      raise Violation('draws-depend-on-data', f'draw {i} is {p.signature()} on one dataset '
                      f'and {q.signature()} on the other although all releases agree')
    if (p.released is None) != (q.released is None):
      raise Violation('draws-depend-on-data', f'draw {i} is a release on one dataset only')
  if len(s1.draws) != len(s2.draws):
    raise Violation('draws-depend-on-data', f'{len(s1.draws)} draws on one dataset, '
                    f'{len(s2.draws)} on the other although all releases agree')
  if repr(a) != repr(b):
    for k in sorted(set(a) | set(b)):
      if repr(a.get(k)) != repr(b.get(k)):
        raise Violation('output-depends-on-data', f'{k} differs although all releases agree: '
                        f'{str(a.get(k))[:400]} against {str(b.get(k))[:400]}')
  kinds = [d.kind for d in s1.releases]
  ncount, navg = kinds.count('count'), kinds.count('normal')
  if any(d.kind == 'count' and d.released is not None and d.released < 0 for d in s1.draws):
    cov.probe('negative_count')
  if navg == 1:
    cov.probe('one_leaf')
  if ncount > 2 * t['depth'] > 0:
    cov.probe('full_depth')
  cov.state((ncount // 2, navg, case['rel'], nz['mode'], case['kind']))
  cov.nontrivial = (x1.shape != x2.shape or not np.array_equal(x1, x2)) and ncount >= 2 and navg >= 1
