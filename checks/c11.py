"""C11: each private clustering quantity is drawn once; failures expose nothing raw."""
import numpy as np

from sim import dpnoise
from sim import inject
from sim import lshgen
from sim.core import Violation
from clustering import clustering_algorithm
from clustering import clustering_params
from clustering import default_clustering_params
from clustering import lsh_tree

ID = 'C11'
RULE = ('a run is a program of reads, tree operations and coreset constructions over a '
        'growing pool of nodes, in which the random source fails at chosen draws and '
        'exceptions strike chosen lines; non-trivial if a value was read at least twice '
        'and an operation failed')
REAL = ['clustering.lsh_tree', 'clustering.lsh', 'clustering.central_privacy_utils',
        'clustering.clustering_algorithm.get_private_coreset', 'clustering.clustering_params',
        'clustering.default_clustering_params']
STUB = ['numpy.random.normal, scipy.stats.dlaplace.rvs (simulated random source)',
        'privacy calculator (fixed noise parameters)']
ASSUMPTIONS = ['coordinates are finite', 'callers do not modify returned arrays']
RUNS = {'quick': 16000, 'thorough': 300000}
SHRINK_LISTS = ('ops',)
STATE_MEASURE = '(operation, fault, outcome, value known before, node level)'
PROBES = ('rng_failed', 'interrupted', 'read_again', 'average_after_failure',
          'count_after_failure', 'tree', 'coreset', 'coreset_failed', 'given_count',
          'negative_count', 'zero_count', 'empty_node', 'children', 'default_param')


def generate(rng, tier):
  ops = []
  for _ in range(rng.randint(3, 14)):
    what = rng.choice(['count', 'count', 'average', 'average', 'average', 'average', 'children', 'tree',
                       'coreset', 'root', 'leaves', 'default', 'node'])
    op = {'op': what, 'a': rng.choice([0.0, 0.0, 0.5, round(rng.random(), 3)])}
    r = rng.random()
    if r < 0.3:
      op['rng_fail'] = rng.choice([0, 0, 1, 2, 3, 5, 9])
    elif r < 0.5:
      op['fault'] = inject.random_spec(rng)
    if what in ('root', 'coreset', 'node'):
      op['given'] = rng.choice([None, None, 1, 40, -3, 0, 1000])
    ops.append(op)
  ops.insert(0, {'op': 'root', 'a': 0, 'given': rng.choice([None, None, 40, 1])})
  for _ in range(rng.randint(1, 4)):  # read again, sometimes after other operations
    o = dict(rng.choice(ops))
    o.pop('fault', None)
    o.pop('rng_fail', None)
    ops.insert(rng.randint(ops.index(o) + 1 if o in ops else 1, len(ops)), o)
  d = lshgen.random_data(rng, tier)
  d['n'] = min(d['n'], 60)
  return {'data': d, 't': lshgen.random_tree_param(rng), 'std': rng.choice([0.1, 1.0, 50.0]),
          'lap': rng.choice([0.05, 1.0]), 'seed': rng.randint(0, 10**6),
          'neg': rng.choice([0, 0.2, 0.5]), 'zero': rng.choice([0, 0, 0.2, 0.6]), 'ops': ops}


class World:
  """The simulated process: live nodes and what was seen of each."""

  def __init__(self, case, cov):
    self.cov = cov
    t = dict(case['t'], depth=min(case['t']['depth'], 4))
    d = case['data']
    self.cp = lshgen.coreset_param(t, d['radius'], case['std'], case['lap'])
    x = lshgen.points(d)
    self.data = clustering_params.Data(
        clustering_params.Data(x, d['radius']).clip_by_radius(), d['radius'])
    signs = np.random.RandomState(case['seed'] + 1)
    # every count draw has a noise of its own, so a value names its draw
    def counts(k, a):
      return (1000 * (k + 1)) * (-1 if signs.random_sample() < case['neg'] else 1)
    zeros = np.random.RandomState(case['seed'] + 2)
    def decide(d, base):   # some noised counts come out as zero
      return 0 if d.kind == 'count' and zeros.random_sample() < case.get('zero', 0) else None
    self.src = dpnoise.Source(case['seed'], counts=counts, cov=cov, decide=decide)
    self.nodes = []   # [node, given count or None]
    self.count = {}   # id(node) -> first count seen
    self.avg = {}     # id(node) -> bytes of the first average seen
    self.owner = {}   # draw index -> id(node)
    self.reread = 0
    self.failed = 0
    # no node exists without a draw having been attempted for it

  def add(self, node, given=None):
    if not any(n is node for n, _ in self.nodes):
      self.nodes.append((node, given))

  def pick(self, frac):
    if not self.nodes:
      return None
    return self.nodes[min(int(frac * len(self.nodes)), len(self.nodes) - 1)][0]

  def claim(self, node, draw, what):
    o = self.owner.setdefault((what, draw.index), id(node))
    if o != id(node):
      raise Violation('noise-shared', f'two nodes expose the {what} of one draw')

  def check_count(self, node, given):
    v = node.private_count
    if v is None:
      return
    v = int(v)
    if id(node) in self.count:
      if self.count[id(node)] != v:
        raise Violation('count-changed', f'a node {node.hash_prefix!r} showed the count '
                        f'{self.count[id(node)]} and then {v}')
      return
    n = len(node.nonprivate_points)
    if given is not None:
      if v != given:
        raise Violation('given-count-lost', f'node made with count {given} shows {v}')
    else:
      ds = [d for d in self.src.releases if d.kind == 'count' and int(d.released) == v]
      if not ds:
        raise Violation('raw-count', f'a node of {n} points shows the count {v}, which no '
                        'noise draw released')
      if not any(int(d.base) == n for d in ds):
        raise Violation('wrong-count', f'a node of {n} points shows the count {v}, the noise '
                        f'of which went on {[d.base for d in ds]}')
      ds = [d for d in ds if int(d.base) == n]
      mine = [d for d in ds if self.owner.get(('count', d.index), id(node)) == id(node)]
      self.claim(node, (mine or ds)[0], 'count')
    if v == 0:
      self.cov.probe('zero_count')
    if v < 0:
      self.cov.probe('negative_count')
    if n == 0:
      self.cov.probe('empty_node')
    self.count[id(node)] = v

  def check_avg(self, node, v):
    if v is None:
      return
    v = np.asarray(v, dtype=float)
    key = v.tobytes()
    if id(node) in self.avg:
      if self.avg[id(node)] != key:
        raise Violation('average-changed', f'the average of node {node.hash_prefix!r} was read '
                        'twice with different results')
      return
    c = self.count.get(id(node), node.private_count)
    total = np.sum(node.nonprivate_points, axis=0)
    for d in self.src.releases:
      if d.kind == 'normal' and np.shape(d.released) == v.shape and np.allclose(
          np.asarray(d.released) / c, v, rtol=1e-12, atol=0):
        if not np.allclose(d.base, total, rtol=1e-9, atol=1e-9 * (1 + np.max(
            np.abs(node.nonprivate_points), initial=0)) * (1 + len(node.nonprivate_points))):
          raise Violation('wrong-average', 'the noise of an average went on another sum')
        self.claim(node, d, 'average')
        break
    else:
      raise Violation('raw-average', f'node {node.hash_prefix!r} shows the average {v.tolist()}, '
                      'which no noise draw released')
    self.avg[id(node)] = key

  def check(self):
    for node, given in self.nodes:
      self.check_count(node, given)
      self.check_avg(node, node.private_average)


def one(w, op):
  """Performs an operation; returns values exposed by it."""
  what = op['op']
  if what == 'root':
    node = lsh_tree.root_node(w.data, w.cp, op['given'])
    w.add(node, op['given'])
    return ('node', node)
  if what == 'node':
    base = w.pick(op['a'])
    if base is None:
      return None
    pts = base.nonprivate_points[: len(base.nonprivate_points) // 2]
    node = lsh_tree.LshTreeNode('', pts, w.cp, base.sim_hash, op['given'])
    w.add(node, op['given'])
    return ('node', node)
  if what == 'coreset':
    return ('coreset', clustering_algorithm.get_private_coreset(w.data, w.cp, op['given']))
  if what == 'default':
    return ('default', default_clustering_params.default_tree_param(
        2, w.data, w.cp.pcalc, 3))
  node = w.pick(op['a'])
  if node is None:
    return None
  if what == 'count':
    return ('count', node, node.get_private_count())
  if what == 'average':
    return ('average', node, node.get_private_average())
  if what == 'children':
    kids = node.children()
    for k in kids:
      w.add(k)
    return ('children', node)
  if what == 'tree':
    tree = lsh_tree.LshTree(node)
    w.cov.probe('tree')
    for level in tree.tree.values():
      for n in level:
        if n is not node:
          w.add(n)
    return ('tree', tree)
  if what == 'leaves':
    return ('repr', repr(node), [n.private_count for n in
                                 lsh_tree.LshTree.filter_branching_nodes([node])])
  raise AssertionError(what)


def check_coreset(w, op, first, out):
  """A coreset shows released values of draws of its own only."""
  rel = w.src.releases[first:]
  counts = {int(d.released): d for d in rel if d.kind == 'count'}
  sums = [np.asarray(d.released) for d in rel if d.kind == 'normal']
  used = set()
  if len(out.weights) != len(sums):
    raise Violation('coreset', f'{len(out.weights)} coreset points from {len(sums)} draws')
  root_ok = {1, max(1, op['given'] or 0)}
  for p, c in zip(out.datapoints, out.weights):
    c = int(c)
    if c not in counts and c not in root_ok:
      raise Violation('raw-count', f'coreset weight {c} was not released by a draw of its own')
    for i, s in enumerate(sums):
      v = s / c
      n = np.linalg.norm(v)
      if n > w.data.radius:
        v = v * (w.data.radius / n)
      if i not in used and np.allclose(v, p, rtol=1e-9, atol=1e-300):
        used.add(i)
        break
    else:
      raise Violation('raw-average', f'coreset point {np.asarray(p).tolist()} of weight {c} '
                      'is not a released sum over its weight, clipped')


def execute(case, cov):
  w = World(case, cov)
  src = w.src
  for op in case['ops']:
    what = op['op']
    node = None if what in ('root', 'coreset', 'default') else w.pick(op['a'])
    illegal = node is not None and (
        (what in ('average', 'tree') and node.private_count is not None and node.private_count < 1)
        or (what == 'children' and len(node.hash_prefix) >= w.cp.tree_param.max_depth))
    if node is not None and what == 'tree' and node.hash_prefix:
      continue  # LshTree takes roots
    known = node is not None and ((what == 'count' and id(node) in w.count) or
                                  (what == 'average' and id(node) in w.avg))
    first, draws = len(src.releases), len(src.draws)
    failed0 = src.failed
    fired = None
    out = None
    err = None
    try:
      with src:
        if 'rng_fail' in op:
          src.fail_at = {src.attempts + op['rng_fail']}
        if 'fault' in op:
          # the number of lines is not known beforehand: strike within the first 400
          at = int(op['fault']['frac'] ** 2 * (60 if what in ('count', 'average') else 400))
          t = inject._Tracer(at=at, exc=inject.EXCS[op['fault']['exc']])  # pylint: disable=protected-access
          try:
            out = t.run(lambda op=op: one(w, op))
          finally:
            fired = t.fired
        else:
          out = one(w, op)
    except dpnoise.Reused as e:
      raise Violation('noise-reused', str(e)) from e
    except dpnoise.RngFailure as e:
      err = e
    except (KeyboardInterrupt, MemoryError, inject.InjectedError) as e:
      if fired is None:
        raise
      err = e
    except ValueError as e:
      coreset_of_nothing = what == 'coreset'
      if not illegal and not coreset_of_nothing:
        raise
      err = e
    src.fail_at = set()
    rng_failed = src.failed > failed0
    if rng_failed:
      w.failed += 1
      cov.probe('rng_failed')
      if err is None:
        raise Violation('failure-swallowed', f'{what} succeeded although drawing its '
                        'randomness failed')
    if fired:
      w.failed += 1
      cov.probe('interrupted')
      cov.fault('exception at a line')
    if err is None and out is not None:
      if known:
        w.reread += 1
        cov.probe('read_again')
        if len(src.draws) != draws:
          raise Violation('redrawn', f'reading a known {what} drew noise again')
      if out[0] == 'count':
        w.check_count(out[1], dict((id(n), g) for n, g in w.nodes)[id(out[1])])
        if int(out[2]) != w.count[id(out[1])]:
          raise Violation('count-changed', f'read {out[2]}, known {w.count[id(out[1])]}')
        if w.failed:
          cov.probe('count_after_failure')
      elif out[0] == 'average':
        if illegal:
          raise Violation('illegal-average', 'an average over a count below 1 was returned')
        w.check_avg(out[1], out[2])
        if w.failed:
          cov.probe('average_after_failure')
      elif out[0] == 'coreset':
        cov.probe('coreset')
        check_coreset(w, op, first, out[1])
      elif out[0] == 'node' and op['given'] is not None:
        cov.probe('given_count')
        if any(d.kind == 'count' for d in src.draws[draws:]):
          raise Violation('redrawn', 'a count was drawn for a node that was given its count')
      elif out[0] == 'children':
        cov.probe('children')
      elif out[0] == 'default':
        cov.probe('default_param')
        rel = [int(d.released) for d in src.releases[first:] if d.kind == 'count']
        if [int(out[1][1])] != rel:
          raise Violation('raw-count', f'default parameters return the count {out[1][1]}, '
                          f'released were {rel}')
    elif what == 'coreset':
      cov.probe('coreset_failed')
    w.check()
    cov.step()
    cov.trace(what, type(err).__name__, len(src.draws), len(src.releases),
              [(n.hash_prefix, n.private_count) for n, _ in w.nodes],
              None if out is None or out[0] != 'average' else np.asarray(out[2]).tolist())
    cov.state((what, 'rng' if rng_failed else 'line' if fired else '', err is None, known,
               None if node is None else len(node.hash_prefix)))
  cov.fault('controlled draws', len(src.draws))
  cov.nontrivial = w.reread > 0 and w.failed > 0
