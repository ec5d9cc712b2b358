"""P04: pbeam results do not depend on how the runner executes the pipeline, and are right."""
import math

from sim import pbgen
from sim import pbsim
from sim.core import Violation

ID = 'P04'
RULE = ('one pipeline ran under several schedules (bundles, workers, combiner lifting, '
        'crashes, direct runner) with equal noise, and the results were compared with '
        'each other and, where no contribution is dropped, with a reference')
REAL = ['privacy-on-beam/pbeam', 'privacy-on-beam/internal', 'go/dpagg', 'go/checks',
        'go/noise (thresholds, argument checks)', 'go/rand']
STUB = ['the Beam SDK and its runner (simulated: bundles, workers, crashes, combiner '
        'lifting, serialisation)', 'noise.Noise and uniform draws (planned outcomes)',
        'math/rand of pbeam (decided by content)', 'glog', 'protobuf']
ASSUMPTIONS = ['the selection of contributions is decided by content, so that runs are '
               'comparable', 'values are exact in binary and sums stay within their type']
RUNS = {'quick': 20000, 'thorough': 600000}
BUDGET = {'quick': 150, 'thorough': 2400}
SHRINK_LISTS = ('recs', 'aggs', 'faults', 'plans')
STATE_MEASURE = 'distinct (operation, types, options, shape of the data, results)'
BIG = ('int', 'int64', 'uint', 'uint64')
PROBES = ['direct', 'big-integers', 'crash', 'lifted', 'bounding', 'reference', 'test-mode-1',
          'test-mode-2', 'public', 'private', 'empty-partition', 'drop-key', 'stage',
          'struct-path', 'several-aggregations', 'other-types', 'quantile-rank'
          ] + pbgen.OPS

prepare = pbsim.prepare


def generate(rng, tier):
  wide = rng.random() < .7     # nothing is dropped
  keys = rng.choice([1, 2, 3, 5])
  p = pbgen.program(rng, units=rng.choice([1, 3, 6, 12]), keys=keys,
                    most=rng.choice([2, 4, 6]), naggs=rng.choice([1, 1, 1, 2]))
  if rng.random() < .3 and p['recs']:   # a unit with many contributions to a partition
    c = rng.choice(p['recs'])
    for _ in range(rng.randint(2, 6)):
      p['recs'].insert(rng.randint(0, len(p['recs'])),
                       dict(c, v=pbgen.value(rng, p['val'])))
  test = rng.choice([0, 0, 0, 0, 1, 2])
  n = {}
  for c in p['recs']:
    n[c['u'], c['k']] = n.get((c['u'], c['k']), 0) + 1
  most = 2 * max(n.values(), default=1)
  for a in p['aggs']:
    if wide:
      a['l0'] = rng.choice([p['nkeys'], p['nkeys'], p['nkeys'] + 2])
      a['linf'] = most + rng.choice([0, 1])
      if rng.random() < .5:
        a['maxv'] = most + 1
    if a['op'] != 'SelectPartitions' and a['op'] == 'Count' and a['pub'] is None and (
        p['key'] == p['val'] and rng.random() < .5):
      a['via'] = 'dropk'
  if wide and p['val'] in ('int8', 'uint8'):
    for c in p['recs']:
      c['v'] = max(-7, min(7, c['v']))
  if wide and p['val'] in BIG and all(a['op'] == 'SumPerKey' for a in p['aggs']) and (
      rng.random() < .6):
    # integers a float64 cannot hold
    signed = p['val'][0] == 'i'
    for c in p['recs']:
      c['v'] = rng.choice([2**53, 2**53, 1, 3, 2**54 + 4, 1 - 2**53 if signed else 7])
    for a in p['aggs']:
      a['lo'] = float(rng.choice([0, -2**58, -2**55]) if signed else 0)
      a['hi'] = float(rng.choice([2**58, 2**55, 2**53]))
  pbgen.budget(rng, p)
  p['spec']['test'] = test
  plans = [pbgen.plan(rng, direct=False), pbgen.plan(rng, direct=rng.random() < .6),
           pbgen.plan(rng)][:rng.choice([2, 2, 3])]
  common = {'noise': 'zero' if wide or rng.random() < .3 else 'hash',
            'unif': rng.choice([0.0, 0.0, -1.0]), 'sample': rng.randrange(1, 1 << 40)}
  return {'prog': p, 'wide': wide, 'plans': [dict(x, **common) for x in plans]}


def _clamp(x, a):
  return min(max(x, a['lo']), a['hi'])


def _key(p, a, k, v):
  return v if a['via'] == 'dropk' else k


def _reference(p, a, mode):
  """{key: value(s)} or None when it is not determined."""
  op = a['op']
  rows = pbgen.data(p, a)
  by = {}
  for u, k, v in rows:
    by.setdefault(k, {}).setdefault(u, []).append(v)
  if a['pub']:
    by = {k: by.get(k, {}) for k in set(a['pub']['keys'])}
  out = {}
  for k, us in by.items():
    vs = [v for l in us.values() for v in l]
    if op == 'Count':
      out[k] = sum(len(l) if mode == 2 else min(len(l), a['maxv']) for l in us.values())
    elif op == 'DistinctPrivacyID':
      out[k] = len(us)
    elif op == 'SelectPartitions':
      out[k] = ''
    elif op == 'DistinctPerKey':
      out[k] = len(set(vs))
    elif op == 'SumPerKey':
      whole = p['val'] not in pbgen.FLOATS
      sums = [sum(map(int, l)) if whole else math.fsum(l) for l in us.values()]
      if p['val'] not in BIG and whole and any(abs(x) > 120 for x in sums):
        return None
      if whole and sum(map(abs, sums)) >= 2**62:
        return None
      lo, hi = a['lo'], a['hi']
      if p['val'] not in pbgen.FLOATS:
        lo, hi = int(lo), int(hi)
      out[k] = (sum if whole else math.fsum)(
          sums if mode == 2 else [min(max(x, lo), hi) for x in sums])
      if lo >= 0:
        out[k] = max(0 if whole else 0.0, out[k])
    elif op == 'QuantilesPerKey':
      out[k] = [_clamp(v, a) for v in vs]
    else:
      mid = a['lo'] + (a['hi'] - a['lo']) / 2
      if not (mode == 2):
        vs = [_clamp(v, a) for v in vs]
      n = len(vs)
      mean = mid + math.fsum(v - mid for v in vs) / n if n else mid
      var = (math.fsum((v - mid) ** 2 for v in vs) / n - (mean - mid) ** 2) if n else 0.0
      out[k] = {'MeanPerKey': [mean], 'VariancePerKey': [var],
                'VarianceStatisticsPerKey': [float(n), mean, var]}[op]
  return out


def _quantiles(where, k, a, vs, got, cov):
  xs = [float(x) for x in got.strip('[]').split()]
  if len(xs) != len(a['ranks']):
    raise Violation('wrong-result', f'{where}: {k} has {got} for ranks {a["ranks"]}')
  w = (a['hi'] - a['lo']) / 16**pbgen.TREE * 1.01
  for r, x in zip(a['ranks'], xs):
    if not a['lo'] <= x <= a['hi']:
      raise Violation('wrong-result', f'{where}: {k} has quantile {x} at rank {r}')
    if not vs:
      continue
    cov.probe('quantile-rank')
    r = min(max(r, .005), .995)
    below = sum(v < x - w for v in vs)
    upto = sum(v <= x + w for v in vs)
    if not below <= r * len(vs) + 1e-6 or not upto >= r * len(vs) - 1e-6:
      raise Violation('wrong-result', f'{where}: {k} has quantile {x} at rank {r} of '
                      f'{sorted(vs)}')


def _compare(where, p, a, r, got, cov, mode, unif):
  want = _reference(p, a, mode)
  if want is None:
    return
  op = a['op']
  cov.probe('reference')
  names = {pbgen.key_text(r, k): k for k in want}
  pre = max(p['spec']['pre'], 1)
  units = {}
  for u, k, _ in pbgen.data(p, a):
    units.setdefault(k, set()).add(u)
  if a['pub'] or mode:
    few = set()
    if op == 'DistinctPrivacyID' and not a['pub']:
      # whether the additional threshold applies in test mode is not documented
      few = {t for t, k in names.items() if len(units[k]) < pre}
    if set(got) | few != set(names):
      raise Violation('wrong-partitions', f'{where}: released {sorted(got)}, the reference '
                      f'has {sorted(names)}')
  else:
    more = set(got) - set(names)
    if more:
      raise Violation('wrong-partitions', f'{where}: made up {sorted(more)}')
    if a['l0'] <= 3 and op != 'DistinctPrivacyID' and unif == 0.0:
      sure = {t for t, k in names.items() if len(units.get(k, ())) >= pre}
      if set(got) != sure:
        raise Violation('wrong-partitions', f'{where}: released {sorted(got)}, with the '
                        f'smallest draws the selection keeps {sorted(sure)}')
  for t in sorted(got):
    k = names[t]
    if op == 'SelectPartitions':
      continue
    if op == 'QuantilesPerKey':
      _quantiles(where, t, a, want[k], got[t], cov)
      continue
    if isinstance(want[k], int):
      if abs(want[k]) >= 2**53:
        cov.probe('big-integers')
      if int(got[t]) != want[k]:
        raise Violation('wrong-result', f'{where}: {t} is {got[t]}, the data has {want[k]} '
                        f'({[c for c in pbgen.data(p, a) if c[1] == k]})')
      continue
    w = want[k] if isinstance(want[k], list) else [want[k]]
    g = [float(x) for x in got[t].split()]
    for x, y in zip(w, g):
      if len(w) != len(g) or not abs(x - y) <= 1e-9 * max(1, abs(x)):
        raise Violation('wrong-result', f'{where}: {t} is {got[t]}, the data has {w} '
                        f'({[c for c in pbgen.data(p, a) if c[1] == k]})')


def execute(case, cov):
  p, plans = case['prog'], case['plans']
  if not plans:
    return
  (rs,) = pbgen.run([(p, plans)])
  mode = p['spec']['test']
  for r, x in zip(rs, plans):
    pbgen.sound(r, p)
    pbgen.note(cov, r)
    if x['direct']:
      cov.probe('direct')
    f = r['faults'] or {}
    if f.get('bundle-crash', 0):
      cov.probe('crash')
    if f.get('lifted', 0) or x['lift']:
      cov.probe('lifted')
    if f.get('contributions-dropped', 0) > 0:
      cov.probe('bounding')
  cov.nontrivial = True
  if mode:
    cov.probe(f'test-mode-{mode}')
  if len(p['aggs']) > 1:
    cov.probe('several-aggregations')
  if p['stage']:
    cov.probe('stage')
  if p['made'] != 'kv':
    cov.probe('struct-path')
  if p['key'] != p['val']:
    cov.probe('other-types')
  for i, a in enumerate(p['aggs']):
    op = a['op']
    cov.probe(op)
    cov.probe('public' if a['pub'] else 'private')
    if a['via'] == 'dropk':
      cov.probe('drop-key')
    where = f'{op} {a} with {p["spec"]}, {p["key"]} {p["val"]}'
    got = [pbgen.released(r, i, op) for r in rs]
    for j, g in enumerate(got[1:], 1):
      if g != got[0]:
        diff = {k: (got[0].get(k), g.get(k)) for k in set(g) | set(got[0])
                if g.get(k) != got[0].get(k)}
        raise Violation('depends-on-schedule',
                        f'{where}: schedules 0 and {j} give {diff}')
    if a['pub']:
      have = {c[1] for c in pbgen.data(p, a)}
      if any(k not in have for k in a['pub']['keys']):
        cov.probe('empty-partition')
    cov.state((op, p['id'], p['key'], p['val'], a['l0'], a['linf'], bool(a['pub']), mode,
               len(p['recs']), tuple(sorted(got[0].items()))))
    if a['via'] != 'dropk' and (case['wide'] and plans[0]['noise'] == 'zero' or mode == 2):
      _compare(where, p, a, rs[0], got[0], cov, mode, plans[0]['unif'])
