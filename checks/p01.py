"""P01: pbeam releases depend on one privacy unit only as far as the noise covers."""
import math

from sim import pbgen
from sim import pbsim
from sim.core import Violation

ID = 'P01'
RULE = ('a pipeline ran over two datasets that differ in one privacy unit, with equal '
        'noise and selection outcomes')
REAL = ['privacy-on-beam/pbeam', 'privacy-on-beam/internal', 'go/dpagg', 'go/checks',
        'go/noise (thresholds, argument checks)', 'go/rand']
STUB = ['the Beam SDK and its runner (simulated: bundles, workers, crashes, combiner '
        'lifting, serialisation)', 'noise.Noise and uniform draws (planned outcomes, '
        'recorded calls)', 'math/rand of pbeam (decided by content)', 'glog', 'protobuf']
ASSUMPTIONS = ['the runner materialises every collection before it is consumed',
               'the order in which contributions of a unit are sampled is independent '
               'of other units (documented at randBool)',
               'partition keys are public or selected privately']
RUNS = {'quick': 14000, 'thorough': 400000}
BUDGET = {'quick': 150, 'thorough': 2400}
SHRINK_LISTS = ('recs', 'aggs', 'faults')
STATE_MEASURE = 'distinct (operation, options, shape of both datasets, outcome)'
PROBES = ['public-slice', 'public-array', 'public-pcol', 'private-optimal',
          'private-gauss', 'empty-partition', 'bounded', 'laplace', 'gauss', 'direct',
          'several-aggregations', 'pre-threshold', 'stage', 'struct-path',
          'whole-partition-owned'] + pbgen.OPS

prepare = pbsim.prepare
TINY = 1e-9


def generate(rng, tier):
  p = pbgen.program(rng, units=rng.choice([2, 4, 8, 14]), keys=rng.choice([1, 3, 5]),
                    naggs=rng.choice([1, 1, 1, 2, 3]))
  # the unit that is removed contributes a lot, and dominates some keys
  u = rng.choice([0, 1, 50])
  for _ in range(rng.choice([1, 3, 8, 16])):
    v = pbgen.value(rng, p['val'])
    if p['val'] in pbgen.NUMERIC and rng.random() < .4:
      v = rng.choice([100, 7, 100])
    p['recs'].insert(rng.randint(0, len(p['recs'])),
                     {'u': u, 'k': rng.randrange(p['nkeys'] + 1 if p['key'] != 'bool' else 2),
                      'v': v})
  for a in p['aggs']:
    if a['pub'] is None and rng.random() < .6 and a['op'] != 'DistinctPrivacyID':
      a['peps'], a['pdel'] = 16.0, .25   # keeps more of the small partitions
  pbgen.budget(rng, p)
  # concurrent construction of several aggregations
  if len(p['aggs']) > 1 and rng.random() < .3:
    p['threads'], p['tseed'], p['tprob'] = True, rng.randrange(1, 1 << 40), 1 << 21
  return {'prog': p, 'unit': u, 'plans': [
      pbgen.plan(rng, noise='abs', sample=7) for _ in range(2)],
      'sample': rng.randrange(1, 1 << 40)}


def _matched(e, f):
  """Pairs of records of one key in two runs, by what the release comes from."""
  if set(e) == set(f):
    return [(e[n], f[n]) for n in sorted(e)]
  more, less = (e, f) if len(e) > len(f) else (f, e)
  out = []
  for n in sorted(set(more) | set(less)):
    if n in more and n in less:
      out.append((e[n], f[n]))
  only = [n for n in sorted(more) if n not in less]
  for n in only:
    if not less:
      out.append((e.get(n), f.get(n)))
    else:
      x = less[sorted(less)[0]]
      out.append((more[n], x) if more is e else (x, more[n]))
  return out


def _check(i, p, a, rd, re, cov):
  op = a['op']
  kind = 'g' if a['noise'] == 'g' else 'l'
  where = f'{op} {a} with {p["spec"]}'
  outs = [pbgen.released(r, i, op) for r in (rd, re)]
  private = a['pub'] is None
  sel = [pbgen.extracts(r, i, True) for r in (rd, re)]
  agg = [pbgen.extracts(r, i, False) for r in (rd, re)]
  if op == 'SelectPartitions':
    sel, agg = [{k: v for k, v in x.items()} for x in sel], [{}, {}]
  # statistics
  changes = {}   # position -> list of changes over all keys
  params = {}
  schanges, sparams = [], []
  for k in sorted(set(agg[0]) | set(agg[1])):
    for x, y in _matched(agg[0].get(k, {}), agg[1].get(k, {})):
      sx, cx = pbgen.split(op, x) if x else ([], None)
      sy, cy = pbgen.split(op, y) if y else ([], None)
      for s, o in ((sx, sy),):
        if s or o:
          schanges.append((k, s, o))
      if cx is None or cy is None:
        if p['spec']['pre'] > 1 or not private:
          continue
        cov.probe('whole-partition-owned')
        z = cx if cx is not None else cy
        cx = [dict(c, a=[0.0] + c['a'][1:]) if c['m'] != 'Threshold' else c for c in z]
        cy = z
        if op == 'QuantilesPerKey':
          continue
      elif not cx or not cy:
        continue   # dropped by the selection in one of them
      px = [(c['recv'], c['m'], c['a'][c['m'] != 'Threshold':]) for c in cx]
      py = [(c['recv'], c['m'], c['a'][c['m'] != 'Threshold':]) for c in cy]
      if px != py:
        raise Violation('parameters-depend-on-data',
                        f'{where}: the noise of {k} is drawn with {px} for a dataset '
                        f'and with {py} for its neighbour')
      j = 0
      for c, d in zip(cx, cy):
        if c['m'] == 'Threshold':
          if c['recv'] != ('gaussian' if kind == 'g' else 'laplace'):
            raise Violation('wrong-mechanism', f'{where}: {c}')
          if c['a'][2] > a['eps'] * (1 + TINY) or c['a'][3] > a['del'] * (1 + TINY) or (
              c['a'][4] > a['pdel'] * (1 + TINY)):
            raise Violation('budget-exceeded', f'{where}: {c}')
          continue
        if c['recv'] != ('gaussian' if kind == 'g' else 'laplace'):
          raise Violation('wrong-mechanism', f'{where}: {c}')
        pos = 0 if op == 'QuantilesPerKey' else j
        j += 1
        changes.setdefault(pos, []).append(abs(c['a'][0] - d['a'][0]))
        q = tuple(c['a'][1:])
        if params.setdefault(pos, q) != q:
          raise Violation('parameters-depend-on-data',
                          f'{where}: noise is drawn with {params[pos]} and {q}')
  for pos, ds in changes.items():
    l0, linf = params[pos][0], params[pos][1]
    if kind == 'g':
      got, most = math.sqrt(math.fsum(d * d for d in ds)), math.sqrt(l0) * linf
    else:
      got, most = math.fsum(ds), l0 * linf
    if got > most * (1 + TINY) + 1e-9:
      raise Violation('sensitivity-too-small',
                      f'{where}: removing one unit changes statistic {pos} of the '
                      f'partitions by {[d for d in ds if d]}, the mechanism is told '
                      f'l0={l0} linf={linf}')
  if changes:
    es = math.fsum(q[2] for q in params.values())
    dl = math.fsum(q[3] for q in params.values())
    if es > a['eps'] * (1 + TINY) or dl > a['del'] * (1 + TINY):
      raise Violation('budget-exceeded',
                      f'{where}: the noise uses epsilon {es} and delta {dl}')
    cov.probe('gauss' if kind == 'g' else 'laplace')
  # private selection
  for k in sorted(set(sel[0]) | set(sel[1])):
    for x, y in _matched(sel[0].get(k, {}), sel[1].get(k, {})):
      schanges.append((k, pbgen.split(op, x)[0] if x else [],
                       pbgen.split(op, y)[0] if y else []))
  if schanges and a['l0'] > 3:
    cov.probe('private-gauss')
    tot = 0
    for k, s, t in schanges:
      xs = []
      for calls in (s, t):
        adds = [c for c in calls if c['m'] != 'Threshold']
        thr = [c for c in calls if c['m'] == 'Threshold']
        if not calls:
          xs.append(None)
          continue
        if len(adds) != 1 or len(thr) != 1:
          raise Violation('selection-not-private', f'{where}: {k} is selected by {calls}')
        c, h = adds[0]['a'], thr[0]['a']
        if c[3] > a['peps'] * (1 + TINY) or c[4] + h[4] > a['pdel'] * (1 + TINY) or (
            h[2:4] != c[3:5] or h[:2] != c[1:3]):
          raise Violation('budget-exceeded', f'{where}: {k} is selected by {calls}')
        if c[1] < a['l0'] or c[2] < 1:
          raise Violation('sensitivity-too-small', f'{where}: {k} is selected by {calls}')
        xs.append(c[0])
      if None not in xs:
        d = abs(xs[0] - xs[1])
        if d > 1:
          raise Violation('sensitivity-too-small',
                          f'{where}: one unit changes the unit count of {k} by {d}')
        tot += d != 0
      else:
        x = xs[0] if xs[1] is None else xs[1]
        if x is not None and x > 1:
          raise Violation('sensitivity-too-small',
                          f'{where}: {k} is selected with count {x}, without one unit '
                          'it is below the smallest count')
        tot += x is not None
    if tot > a['l0']:
      raise Violation('sensitivity-too-small',
                      f'{where}: one unit changes the unit counts of {tot} partitions')
  elif private and op != 'DistinctPrivacyID':
    # the outcomes of many planned uniform draws tell how many units were counted
    cov.probe('private-optimal')
    tot = 0
    recs = [sel, agg][op not in ('SelectPartitions', 'DistinctPerKey')]
    ks = set(recs[0]) | set(recs[1])
    for k in sorted(ks):
      n = []
      for r in (recs[0], recs[1]):
        x = next(iter(r.get(k, {}).values()), None)
        n.append(None if x is None or not x.get('probe') else x['probe'].count('1'))
      x, y = (v or 0 for v in n)
      if abs(x - y) > 1:
        raise Violation('sensitivity-too-small',
                        f'{where}: one unit changes the units counted for {k} by at '
                        f'least {abs(x - y)}')
      tot += x != y
    if tot > a['l0']:
      raise Violation('sensitivity-too-small',
                      f'{where}: one unit changes the unit counts of {tot} partitions')
  # releases, given equal noise outcomes
  names = set(outs[0]) | set(outs[1])
  if not private:
    for k in sorted(names):
      if outs[0].get(k) != outs[1].get(k):
        raise Violation('value-not-noised',
                        f'{where}: with equal noise outcomes {k} is {outs[0].get(k)} for '
                        f'a dataset and {outs[1].get(k)} for its neighbour')
    return
  for k in sorted(set(outs[0]) & set(outs[1])):
    if outs[0][k] != outs[1][k]:
      raise Violation('value-not-noised',
                      f'{where}: with equal noise outcomes {k} is {outs[0][k]} for a '
                      f'dataset and {outs[1][k]} for its neighbour')
  if a['l0'] > 3 or op == 'DistinctPrivacyID':
    both = agg if op not in ('SelectPartitions', 'DistinctPerKey') else sel
    for k in sorted(set(both[0]) & set(both[1])):
      if (k in outs[0]) != (k in outs[1]):
        raise Violation('selection-not-private',
                        f'{where}: with equal noise outcomes {k} is released for only '
                        'one of two neighbours')


def execute(case, cov):
  p = case['prog']
  u = case['unit']
  q = dict(p, recs=[c for c in p['recs'] if c['u'] != u])
  private = [a for a in p['aggs'] if a['pub'] is None and a['op'] != 'DistinctPrivacyID'
             and a['l0'] <= 3]
  probe = []
  if private and len(p['aggs']) == 1:
    a = private[0]
    ps = [pbgen.keep(n, a['peps'], a['pdel'], a['l0'], p['spec']['pre']) for n in range(0, 40)]
    ps = sorted(set(ps))
    probe = [(x + y) / 2 for x, y in zip(ps, ps[1:]) if y - x > 1e-12]
  plans = [dict(x, sample=case['sample'], probe=probe) for x in case['plans']]
  (rd,), (re,) = pbgen.run([(p, plans[:1]), (q, plans[1:])])
  for r, w in ((rd, p), (re, q)):
    pbgen.sound(r, w)
    pbgen.note(cov, r)
  cov.nontrivial = True
  cov.fault('neighbour-dataset')
  if plans[0]['direct'] or plans[1]['direct']:
    cov.probe('direct')
  if len(p['aggs']) > 1:
    cov.probe('several-aggregations')
  if p['stage']:
    cov.probe('stage')
  if p['made'] != 'kv':
    cov.probe('struct-path')
  if p['spec']['pre'] > 1:
    cov.probe('pre-threshold')
  if (rd['faults'] or {}).get('contributions-dropped', 0) > 0:
    cov.probe('bounded')
  for i, a in enumerate(p['aggs']):
    cov.probe(a['op'])
    if a['pub']:
      cov.probe('public-' + a['pub']['kind'])
      have = {c[1] for c in pbgen.data(p, a)}
      if any(k not in have for k in a['pub']['keys']):
        cov.probe('empty-partition')
    _check(i, p, a, rd, re, cov)
    cov.state((a['op'], a['noise'], a['l0'], a['linf'], a['lo'], a['hi'], bool(a['pub']),
               len(p['recs']), len(q['recs']), tuple(map(tuple, rd['outs'][i]))))
