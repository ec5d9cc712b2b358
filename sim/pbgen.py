"""Programs, plans and references of the Privacy on Beam checks."""
import math

from sim import pbsim
from sim.core import Violation

INTS = ['int', 'int8', 'int16', 'int32', 'int64']
UINTS = ['uint', 'uint8', 'uint16', 'uint32', 'uint64']
FLOATS = ['float32', 'float64']
NUMERIC = INTS + UINTS + FLOATS
KEYED = ['SumPerKey', 'MeanPerKey', 'VariancePerKey', 'VarianceStatisticsPerKey',
         'QuantilesPerKey', 'DistinctPerKey']
OPS = ['Count', 'DistinctPrivacyID', 'SelectPartitions'] + KEYED
PLAIN = {'ctx': False, 'err': False, 'emit': False}
TREE = 4  # default height of quantile trees


def shape(rng):
  return {k: rng.random() < .5 for k in ('ctx', 'err', 'emit')}


def value(rng, typ):
  """Exact in binary; so are sums and squares of a few."""
  if typ in UINTS:
    return rng.choice([0, 1, 2, 3, 5, rng.randint(0, 12)])
  if typ in FLOATS:
    return rng.choice([0.0, rng.randint(-48, 48) / 8, rng.randint(-48, 48) / 8, 1.5, -7.0])
  if typ in INTS:
    return rng.choice([0, 1, -1, rng.randint(-9, 12), rng.randint(-9, 12)])
  return rng.randint(0, 5)


def records(rng, typ, units, keys, most):
  out = []
  for u in range(units):
    for _ in range(rng.choice([0, 1, 1, 2, rng.randint(0, most)])):
      out.append({'u': u, 'k': rng.randrange(keys), 'v': value(rng, typ)})
  rng.shuffle(out)
  return out


def aggregate(rng, prog, op, keys, big=False):
  a = {'op': op, 'via': 'kv', 'noise': rng.choice(['l', 'l', 'g', 'g', '']), 'eps': 0.0,
       'del': 0.0, 'peps': 0.0, 'pdel': 0.0, 'pub': None,
       'l0': rng.choice([1, 2, 2, 3, 4, 5]), 'linf': rng.choice([1, 1, 2, 3]),
       'lo': 0.0, 'hi': 4.0, 'maxv': rng.choice([1, 2, 3]), 'neg': rng.random() < .3,
       'ranks': [0.5]}
  if op in ('Count', 'DistinctPrivacyID'):
    a['via'] = rng.choice(['k', 'dropv', '2x1'])
  elif op == 'SelectPartitions':
    a['via'] = rng.choice(['kv', 'k', 'dropv', '2x1'])
  lo = rng.choice([0.0, 0.0, -4.0, -2.5, 1.0, -8.0])
  a['lo'], a['hi'] = lo, lo + rng.choice([1.0, 2.0, 4.0, 8.0, 16.0])
  if op == 'SumPerKey' and rng.random() < .1:
    a['lo'] = a['hi'] = rng.choice([1.0, 2.0])
  if op == 'SumPerKey' and prog['val'] not in FLOATS:
    # bounds are truncated to integers, which must not leave (0, 0)
    if int(a['lo']) == 0 == int(a['hi']):
      a['hi'] = a['lo'] + 4.0
  if op == 'QuantilesPerKey':
    a['ranks'] = [rng.choice([0.0, .25, .5, .75, .9, 1.0]) for _ in range(rng.choice([1, 1, 3]))]
  if op != 'SelectPartitions' and rng.random() < .5:
    ks = [k for k in range(keys + 2) if rng.random() < .6] or [0]
    if prog['key'] == 'bool':
      ks = [k for k in ks if k < 2] or [1]
    rng.shuffle(ks)
    a['pub'] = {'kind': rng.choice(['slice', 'array', 'pcol']), 'keys': ks}
  # budget: dyadic, so that shares add up exactly
  if op != 'SelectPartitions':
    a['eps'] = rng.choice([0.5, 1.0, 2.0, 0.25])
    if a['noise'] == 'g':
      a['del'] = rng.choice([2.0**-10, 2.0**-7, 2.0**-4])
  if a['pub'] is None:
    a['pdel'] = rng.choice([2.0**-10, 2.0**-6, 2.0**-3])
    if op != 'DistinctPrivacyID':
      a['peps'] = rng.choice([0.5, 1.0, 4.0, 16.0])
  return a


def program(rng, op=None, units=8, keys=4, most=6, naggs=1, val=None):
  p = {'id': rng.choice(['string', 'string', 'int', 'int64', 'uint8', 'int32', 'struct',
                         'float64']),
       'key': rng.choice(['string', 'string', 'int', 'int64', 'uint8', 'struct', 'bool',
                          'float64', 'int16', 'uint32']),
       'made': rng.choice(['kv', 'kv', 'U', 'N', 'Sub.ID']),
       'pre': None, 'shape': shape(rng), 'stage': None, 'last': shape(rng), 'aggs': [],
       'threads': False, 'tseed': 0, 'tprob': 0}
  ops = [op or rng.choice(OPS) for _ in range(naggs)]
  if val:
    p['val'] = val
  elif all(o in ('DistinctPerKey', 'Count', 'DistinctPrivacyID', 'SelectPartitions')
           for o in ops):
    p['val'] = rng.choice(['string', 'struct', 'bool'] + NUMERIC)
  else:
    p['val'] = rng.choice(NUMERIC + ['float64', 'int', 'int64'])
  if p['key'] == 'bool':
    keys = min(keys, 2)
  if rng.random() < .3:
    p['pre'] = shape(rng)
  if rng.random() < .3:
    what = rng.choice(['id', 'dup', 'drop'])
    p['stage'] = dict(shape(rng), what=what)
    if what != 'id':
      p['stage']['emit'] = True
  if rng.random() < .3:  # text around all strings
    p['around'] = [rng.choice(['', 'p' * 40, 'long/' * 60, '\x00', 'ключ ', '"\\', ' ']),
                   rng.choice(['', 's' * 40, '/long' * 60, '\x00', '%s', '\n', ' '])]
  p['recs'] = records(rng, p['val'], units, keys, most)
  p['aggs'] = [aggregate(rng, p, o, keys) for o in ops]
  p['nkeys'] = keys
  budget(rng, p)
  return p


def budget(rng, p, pre=None):
  """A specification with exactly the budget the aggregations ask for."""
  aggs = p['aggs']
  private = any(a['pub'] is None for a in aggs)
  if pre is None:
    pre = rng.choice([0, 0, 0, 1, 2, 3])
  p['spec'] = {'aeps': math.fsum(a['eps'] for a in aggs),
               'adel': math.fsum(a['del'] for a in aggs),
               'peps': math.fsum(a['peps'] for a in aggs),
               'pdel': math.fsum(a['pdel'] for a in aggs),
               'pre': pre if private else 0, 'test': 0}
  if len(aggs) == 1 and rng.random() < .4:  # the entire budget
    p['whole'] = True


def wire(p):
  """The program as the simulator reads it."""
  q = {k: v for k, v in p.items() if k not in ('nkeys', 'whole')}
  if p.get('whole'):
    q['aggs'] = [dict(a, eps=0.0, peps=0.0, pdel=0.0, **{'del': 0.0}) for a in p['aggs']]
  return q


def plan(rng, direct=None, **kw):
  if direct is None:
    direct = rng.random() < .25
  p = {'seed': rng.randrange(1, 1 << 40), 'direct': direct, 'bundle': rng.choice([1, 2, 3, 8, 100]),
       'workers': rng.choice([1, 1, 2, 3]), 'prob': rng.choice([1 << 18, 1 << 21, 1 << 23]),
       'lift': rng.choice([0, 500, 1000]), 'empty': rng.choice([0, 100, 300]), 'faults': [],
       'noise': 'zero', 'unif': 0.0, 'sample': rng.randrange(1, 1 << 40), 'probe': []}
  if not direct:
    for _ in range(rng.choice([0, 0, 1, 2, 5])):
      p['faults'].append({'at': rng.randrange(0, 60), 'kind': rng.choice(['crash', 'dup']),
                          'off': rng.randrange(4)})
  p.update(kw)
  return p


def run(progs, seed=1, timeout=120):
  """progs: [(program, [plan])].  Replies: [[run]]."""
  req = {'seed': seed, 'progs': [dict(wire(p), plans=pl) for p, pl in progs]}
  try:
    rep = pbsim.call(req, timeout=timeout)
  except pbsim.Crash as e:
    raise Violation('crash', f'the pipeline brought the process down: {e}')
  if 'harness' in rep:
    raise RuntimeError(rep['harness'])
  return rep['runs']


def note(cov, r):
  """Coverage of one run."""
  for k, n in (r.get('faults') or {}).items():
    cov.fault(k, n)
  cov.step(r.get('attempts') or 0)
  cov.trace(r.get('hash'), r.get('outs'))


def sound(r, p):
  """The pipeline was built and ran."""
  for k in ('specerr', 'fatal', 'panic', 'err', 'dead'):
    if r.get(k):
      raise Violation('pipeline-failed', f'{k}: {r[k]} with {wire(p)}')


def data(p, a):
  """Contributions (unit, key, value) that reach an aggregation."""
  out = []
  for c in p['recs']:
    k = c['k'] % 2 if p['key'] == 'bool' else c['k']
    v = c['v']
    if p['val'] == 'bool':
      v = v % 2
    n = 1
    if p['stage'] and a['via'] != 'k':
      w = p['stage']['what']
      if w == 'dup':
        n = 2
      if w == 'drop' and p['val'] in NUMERIC and v < 0:
        n = 0
    out += [(c['u'], k, v)] * n
  return out


def extracts(r, i, sel=None):
  """Records of an aggregation by key: {key: {node: record}}."""
  out = {}
  for x in r.get('dp') or []:
    if not x['path'].startswith(f'/a{i}/'):
      continue
    if sel is not None and ('pbeam.SelectPartitions' in x['path']) != sel:
      continue
    d = out.setdefault(x['key'], {})
    if x['node'] in d:
      raise Violation('released-twice', f"{x['path']} released {x['key']} twice")
    d[x['node']] = x
  return out


def split(op, x):
  """(selection calls, aggregation calls) of a record."""
  calls = [dict(c, a=[float(v) for v in c['a']], out=float(c['out'])) for c in x['calls'] or []]
  if 'pbeam.SelectPartitions' in x['path']:
    return calls, []
  if op != 'DistinctPrivacyID' and any(c['m'] == 'Threshold' for c in calls[:2]):
    return calls[:2], calls[2:]
  return [], calls


def keep(n, eps, delta, l0, pre):
  """Optimal keep probability by its defining recurrence."""
  e, d = eps / l0, delta / l0
  n -= max(pre, 1) - 1
  p = 0.0
  for _ in range(max(0, n)):
    p = min(math.exp(e) * p + d, 1 - math.exp(-e) * (1 - p - d), 1.0)
  return p


def key_text(r, k):
  return r['keys'][str(k)]


def released(r, i, op):
  """Released values by key; every key at most once."""
  out = {}
  for k, v in r['outs'][i]:
    if op == 'SelectPartitions':
      k, v = v, ''
    if k in out:
      raise Violation('released-twice', f'{op} released {k} twice: {r["outs"][i]}')
    out[k] = v
  return out
