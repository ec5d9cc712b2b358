"""C12: the private tree partitions the data and branches by the released counts only."""
import collections

import numpy as np

from sim import dpnoise
from sim import inject
from sim import lshgen
from sim.core import Violation
from clustering import clustering_params
from clustering import lsh
from clustering import lsh_tree

ID = 'C12'
RULE = ('a run builds a tree under simulated noise and simulated projection vectors, first '
        'with a failure, then without, and reconciles the tree with the points, the signs of '
        'the projections and the draws made; non-trivial if the tree has at least two levels '
        'and a child was dropped or a failure was delivered')
REAL = ['clustering.lsh_tree', 'clustering.lsh', 'clustering.central_privacy_utils',
        'clustering.clustering_params']
STUB = ['numpy.random.normal, scipy.stats.dlaplace.rvs (simulated random source)',
        'privacy calculator (fixed noise parameters)']
ASSUMPTIONS = ['coordinates are finite', 'points whose projection is zero up to rounding may '
               'lie on either side']
RUNS = {'quick': 10000, 'thorough': 400000}
STATE_MEASURE = '(levels, leaves class, dropped class, noise mode, depth reached)'
PROBES = ('dropped', 'all_children_dropped', 'max_depth', 'zero_projection', 'duplicates',
          'failed_build', 'empty_child_kept', 'depth_zero', 'root_refused', 'vectors_drawn',
          'interrupted')


def generate(rng, tier):
  d = lshgen.random_data(rng, tier)
  case = {'data': d, 't': lshgen.random_tree_param(rng), 'nz': lshgen.random_noise(rng),
          'root': rng.choice([None, None, None, 1, 7, 10**6, 0, -4]),
          'vectors': rng.choice(['draw', 'draw', 'axis', 'grid', 'zero']),
          'bits': rng.randint(0, 10**6), 'grid': rng.random() < 0.3, 'fail': None}
  r = rng.random()
  if r < 0.25:
    case['fail'] = {'rng': rng.choice([0, 1, 2, 3, 5, 8, 13])}
  elif r < 0.45:
    case['fail'] = {'frac': round(rng.random(), 4), 'exc': rng.choice(list(inject.EXCS))}
  if case['nz']['mode'] in ('up', 'wild') and case['t']['depth'] > 5:
    case['t']['depth'] = 5
  return case


def rows(a):
  return collections.Counter(map(bytes, np.ascontiguousarray(a, dtype=float)))


def check_tree(case, tree, root, src, first, cov):
  t = root.coreset_param.tree_param
  levels = tree.tree
  if sorted(levels) != list(range(len(levels))):
    raise Violation('levels', f'tree has the levels {sorted(levels)}')
  if len(levels) - 1 > t.max_depth:
    raise Violation('too-deep', f'{len(levels) - 1} levels below the root, at most '
                    f'{t.max_depth} allowed')
  if list(map(id, levels[0])) != [id(root)]:
    raise Violation('levels', 'level 0 is not the root')
  vec = root.sim_hash.projection_vectors
  drawn = collections.Counter()
  released = collections.defaultdict(list)
  for d in src.releases[first:]:
    if d.kind == 'count':
      drawn[int(d.base)] += 1
      released[int(d.base)].append(int(d.released))
  side = {}   # hash character -> sign, fixed for the tree
  dropped = 0
  leaves = []
  pending = []
  for l in sorted(levels):
    prefixes = [n.hash_prefix for n in levels[l]]
    if len(set(prefixes)) != len(prefixes):
      raise Violation('prefix-twice', f'level {l} has the prefixes {prefixes}')
    below = collections.defaultdict(dict)
    for n in levels.get(l + 1, ()):
      below[n.hash_prefix[:-1]][n.hash_prefix[-1:]] = n
      if len(n.hash_prefix) != l + 1 or n.hash_prefix[:-1] not in prefixes:
        raise Violation('orphan', f'node {n.hash_prefix!r} of level {l + 1} has no parent among '
                        f'{prefixes}')
    for n in levels[l]:
      kids = below.get(n.hash_prefix, {})
      c = int(n.private_count)
      if l > 0 and c < t.min_num_points_in_node:
        raise Violation('light-node', f'node {n.hash_prefix!r} with count {c} kept, threshold '
                        f'{t.min_num_points_in_node}')
      splits = c >= t.min_num_points_in_branching_node and l < t.max_depth
      if kids and not splits:
        raise Violation('split-light-node', f'node {n.hash_prefix!r} with count {c} was split, '
                        f'threshold {t.min_num_points_in_branching_node}, level {l} of '
                        f'{t.max_depth}')
      if not kids:
        leaves.append(n)
      if not splits:
        continue
      x = np.asarray(n.nonprivate_points, dtype=float)
      proj = x @ vec[l] if len(x) else np.zeros(0)
      tiny = np.abs(proj) <= 1e-12 * (np.abs(x) @ np.abs(vec[l]) if len(x) else 0)
      if tiny.any():
        cov.probe('zero_projection')
      pos, neg, free = rows(x[~tiny & (proj > 0)]), rows(x[~tiny & (proj < 0)]), rows(x[tiny])
      got = {}
      for ch, kid in kids.items():
        have = rows(kid.nonprivate_points)
        sure = have - free
        if have - pos - neg - free:
          raise Violation('foreign-points', f'node {kid.hash_prefix!r} has points its parent '
                          'does not have')
        for sign, mine in (('+', pos), ('-', neg)):
          if sure and not sure - mine:
            if side.setdefault(ch, sign) != sign:
              raise Violation('hash-side', f'{ch!r} stands for both sides of projections')
            if mine - have:
              raise Violation('lost-points', f'node {kid.hash_prefix!r} misses '
                              f'{sum((mine - have).values())} points of its side')
            break
        else:
          if sure:
            raise Violation('mixed-sides', f'node {kid.hash_prefix!r} has points of both sides')
        got[ch] = have
        size, count = len(kid.nonprivate_points), int(kid.private_count)
        if not size:
          cov.probe('empty_child_kept')
        if count not in released[size]:
          raise Violation('count-not-released', f'node {kid.hash_prefix!r} of {size} points shows '
                          f'the count {count}, released for that size: {released[size]}')
        released[size].remove(count)
      if len(set(side.values())) < len(side):
        raise Violation('hash-side', f'hash characters stand for {side}')
      if len(kids) > 2:
        raise Violation('too-many-children', f'node {n.hash_prefix!r} has {len(kids)} children')
      rest = pos + neg + free
      for have in got.values():
        if have - rest:
          raise Violation('shared-points', 'a point lies under two children')
        rest = rest - have
      # what is in no kept child belongs to children dropped for their count
      missing = 2 - len(kids)
      if missing == 0 and rest:
        raise Violation('lost-points', f'both children of {n.hash_prefix!r} are kept but '
                        f'{sum(rest.values())} of its points are in neither')
      if missing:
        dropped += missing
        cov.probe('dropped', missing)
        total = sum(rest.values())
        light = lambda s: [v for v in released[s] if v < t.min_num_points_in_node]
        if missing == 1:
          if not light(total):
            raise Violation('dropped-heavy', f'a child of {n.hash_prefix!r} with {total} points is '
                            f'gone; counts released for that size: {released[total]}, threshold '
                            f'{t.min_num_points_in_node}')
          released[total].remove(light(total)[0])
          one = set(kids)
          if rest and one and side.get(next(iter(one))) == '+' and (rest & pos):
            raise Violation('lost-points', 'points of the kept side were dropped')
        else:
          cov.probe('all_children_dropped')
          # the points of projection zero go to one side or are split
          a, f = sum(pos.values()), sum(free.values())
          pending.append((n.hash_prefix, [(a + k, total - a - k) for k in sorted(
              range(f + 1), key=lambda k: min(k, f - k))]))
  # draws of nodes all of whose children were dropped
  have = collections.Counter()
  for size, values in released.items():
    have[size] = sum(1 for v in values if v < t.min_num_points_in_node)
  pending.sort(key=lambda q: len(q[1]))
  budget = [20000]

  def match(i):
    budget[0] -= 1
    if i == len(pending) or budget[0] <= 0:
      return True
    for u, v in pending[i][1]:
      have[u] -= 1
      have[v] -= 1
      if have[u] >= 0 and have[v] >= 0 and match(i + 1):
        return True
      have[u] += 1
      have[v] += 1
    return False

  if not match(0):
    raise Violation('dropped-heavy', f'all children of {pending} are gone; counts released for '
                    f'their sizes and not exposed: {dict(released)}, threshold '
                    f'{t.min_num_points_in_node}')
  undrawn = sum(len(v) for v in released.values()) - 2 * len(pending)
  if undrawn:
    raise Violation('extra-draws', f'{undrawn} counts were drawn for no node of the tree: '
                    f'{dict(released)}')
  have = [id(n) for n in tree.leaves]
  if sorted(have) != sorted(map(id, leaves)):
    raise Violation('leaves', f'leaves are {[n.hash_prefix for n in tree.leaves]}, nodes without '
                    f'children are {[n.hash_prefix for n in leaves]}')
  if not dropped:
    total = sum((rows(n.nonprivate_points) for n in tree.leaves), collections.Counter())
    if total != rows(root.nonprivate_points):
      raise Violation('lost-points', 'the leaves do not hold the points of the root')
  return dropped


def build(case, x, src, vec):
  """Root (fresh) and its tree."""
  cp = lshgen.coreset_param(case['t'], case['data']['radius'], case['nz']['std'],
                            case['nz']['lap'])
  data = clustering_params.Data(x, case['data']['radius'])
  with src:
    if vec is None:
      root = lsh_tree.root_node(data, cp, case['root'])
    else:
      root = lsh_tree.LshTreeNode('', data.datapoints, cp,
                                  lsh.SimHash(data.dim, cp.tree_param.max_depth, vec),
                                  case['root'])
    own = 1 if case['root'] is None else 0
    return root, lsh_tree.LshTree(root), own


def execute(case, cov):
  d, t = case['data'], case['t']
  x = lshgen.points(d)
  if case['grid'] and len(x):
    x = np.round(x / d['radius'] * 2) * d['radius'] / 4
  if len(x) and len(rows(x)) < len(x):
    cov.probe('duplicates')
  vec = None
  rs = np.random.RandomState(case['bits'] + 5)
  if case['vectors'] != 'draw':
    vec = rs.standard_normal((t['depth'], d['dim']))
    if case['vectors'] == 'axis' and t['depth']:
      vec = np.zeros((t['depth'], d['dim']))
      vec[np.arange(t['depth']), rs.randint(0, d['dim'], t['depth'])] = rs.choice(
          [-1, 1], t['depth'])
    elif case['vectors'] == 'grid':
      vec = rs.randint(-1, 2, size=(t['depth'], d['dim'])).astype(float)
    elif case['vectors'] == 'zero':
      vec[::2] = 0
  else:
    cov.probe('vectors_drawn')
  keep = x.copy()
  failed = False
  if case['fail']:
    f = case['fail']
    src = dpnoise.Source(case['bits'], lshgen.count_noise(case['nz'], t),
                         fail_at=[f['rng']] if 'rng' in f else (), cov=cov)
    tracer = None
    try:
      if 'frac' in f:
        tracer = inject._Tracer(at=int(f['frac'] ** 2 * 600), exc=inject.EXCS[f['exc']])  # pylint: disable=protected-access
        tracer.run(lambda: build(case, x, src, vec))
      else:
        build(case, x, src, vec)
      if src.failed:
        raise Violation('failure-swallowed', 'a tree was built although a draw failed')
    except (dpnoise.RngFailure, KeyboardInterrupt, MemoryError, inject.InjectedError):
      failed = True
      cov.probe('failed_build')
      if tracer is not None:
        cov.probe('interrupted')
        cov.fault('exception at a line')
    except ValueError:
      pass
  src = dpnoise.Source(case['bits'], lshgen.count_noise(case['nz'], t), cov=cov)
  try:
    root, tree, own = build(case, x, src, vec)
  except ValueError:
    c = case['root']
    if c is None:
      rel = [int(r.released) for r in src.releases if r.kind == 'count']
      c = rel[0] if rel else None
    if c is None or c >= 1:
      raise
    cov.probe('root_refused')
    cov.trace('refused', c)
    return
  except dpnoise.Reused as e:
    raise Violation('noise-reused', str(e)) from e
  if int(root.private_count) < 1:
    raise Violation('light-root', f'a tree was built on a root of count {root.private_count}')
  if x.tobytes() != keep.tobytes() or rows(root.nonprivate_points) != rows(x):
    raise Violation('input-changed', 'the points of the root are not the dataset')
  dropped = check_tree(case, tree, root, src, own, cov)
  n = sum(len(v) for v in tree.tree.values())
  cov.step(n)
  cov.fault('controlled draws', len(src.draws))
  depth = len(tree.tree) - 1
  if depth == t['depth']:
    cov.probe('max_depth')
  if t['depth'] == 0:
    cov.probe('depth_zero')
  cov.trace([(l, [(m.hash_prefix, int(m.private_count), len(m.nonprivate_points)) for m in v])
             for l, v in sorted(tree.tree.items())])
  cov.state((depth, min(len(tree.leaves), 40), min(dropped, 20), case['nz']['mode'], t['depth']))
  cov.nontrivial = depth >= 1 and (dropped > 0 or failed)
