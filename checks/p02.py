"""P02: pbeam releases exactly the partitions that were named or privately selected."""
import math

from sim import dpref
from sim import pbgen
from sim import pbsim
from sim.core import Violation

ID = 'P02'
RULE = ('a pipeline ran and the set of partitions it released was compared with the '
        'named partitions or with the reference selection')
REAL = ['privacy-on-beam/pbeam', 'privacy-on-beam/internal', 'go/dpagg', 'go/checks',
        'go/noise (thresholds, argument checks)', 'go/rand']
STUB = ['the Beam SDK and its runner (simulated: bundles, workers, crashes, combiner '
        'lifting, serialisation)', 'noise.Noise and uniform draws (planned outcomes, '
        'recorded calls)', 'math/rand of pbeam (decided by content)', 'glog', 'protobuf']
ASSUMPTIONS = ['no unit contributes to more partitions than the configured number',
               'the order in which a runner processes contributions is independent of '
               'other units']
RUNS = {'quick': 12000, 'thorough': 350000}
BUDGET = {'quick': 150, 'thorough': 2400}
SHRINK_LISTS = ('recs', 'aggs', 'faults')
STATE_MEASURE = 'distinct (operation, options, units per partition, released partitions)'
PROBES = ['public-slice', 'public-array', 'public-pcol', 'public-duplicate',
          'empty-partition', 'private-partition-dropped', 'optimal', 'optimal-kept',
          'optimal-dropped', 'gauss', 'gauss-kept', 'gauss-dropped', 'count-kept',
          'count-dropped', 'pre-threshold-dropped', 'direct'] + pbgen.OPS

prepare = pbsim.prepare


def generate(rng, tier):
  keys = rng.choice([1, 2, 3, 3, 5])
  p = pbgen.program(rng, units=rng.choice([1, 4, 8, 20]), keys=keys,
                    most=rng.choice([2, 6]), naggs=rng.choice([1, 1, 2]))
  least = p['nkeys']
  if rng.random() < .3:   # one popular partition
    for u in range(rng.randint(5, 60)):
      p['recs'].append({'u': 20 + u, 'k': 0, 'v': pbgen.value(rng, p['val'])})
  if p['stage'] and p['stage']['what'] == 'drop' and rng.random() < .5:
    p['stage'] = None
  for a in p['aggs']:
    a['l0'] = rng.choice([x for x in (1, 2, 3, 3, 4, 5, 7) if x >= least])
    if a['pub']:
      if rng.random() < .3:
        a['pub']['keys'] += [rng.choice(a['pub']['keys'])]
    elif a['op'] != 'DistinctPrivacyID' and rng.random() < .5:
      a['peps'], a['pdel'] = 16.0, .25
    if a['op'] == 'DistinctPrivacyID' and rng.random() < .5:
      a['eps'] = 8.0
  pbgen.budget(rng, p, pre=rng.choice([0, 0, 1, 2, 3, 5]))
  return {'prog': p, 'plan': pbgen.plan(
      rng, noise=rng.choice(['hash', 'hash', 'zero', 'abs']),
      unif=rng.choice([-1.0, -1.0, 0.0, .5, 1e-3, .999]))}


def _threshold(kind, a, linf, eps, delta, thr):
  return dpref.least_threshold(kind, a['l0'], linf, eps, delta, thr)


def _decide(where, k, kept, out, t, linf):
  """A noised count against the reference threshold."""
  if t is None or not math.isfinite(t):
    return
  slack = .02 * abs(t - linf) + 1e-9 * abs(t)
  if kept and out < t - slack:
    raise Violation('selected-below-threshold',
                    f'{where}: {k} was released with noised count {out}, below {t}')
  if not kept and out > t + slack + 2.5:
    raise Violation('dropped-above-threshold',
                    f'{where}: {k} was dropped with noised count {out}, above {t}')


def execute(case, cov):
  p, plan = case['prog'], dict(case['plan'])
  pre = max(p['spec']['pre'], 1)
  probe = set()
  for a in p['aggs']:
    if a['pub'] is None and a['op'] != 'DistinctPrivacyID' and a['l0'] <= 3:
      ns = {}
      for u, k, _ in pbgen.data(p, a):
        ns.setdefault(k, set()).add(u)
      for n in {len(s) for s in ns.values()}:
        for m in (n - 1, n, n + 1):
          x = pbgen.keep(m, a['peps'], a['pdel'], a['l0'], p['spec']['pre'])
          probe |= {x * (1 - 1e-7), min(x * (1 + 1e-7), 1 - 2.0**-53)}
  plan['probe'] = sorted(probe)
  ((r,),) = pbgen.run([(p, [plan])])
  pbgen.sound(r, p)
  pbgen.note(cov, r)
  cov.nontrivial = True
  if plan['direct']:
    cov.probe('direct')
  for i, a in enumerate(p['aggs']):
    _check(i, p, a, r, plan, pre, cov)


def _check(i, p, a, r, plan, pre, cov):
  op = a['op']
  cov.probe(op)
  where = f'{op} {a} with {p["spec"]}'
  got = pbgen.released(r, i, op)
  units = {}
  for u, k, _ in pbgen.data(p, a):
    units.setdefault(pbgen.key_text(r, k), set()).add(u)
  cov.state((op, a['l0'], bool(a['pub']), a['peps'], a['pdel'], pre,
             tuple(sorted((k, len(s)) for k, s in units.items())), tuple(sorted(got))))
  if a['pub']:
    cov.probe('public-' + a['pub']['kind'])
    want = {pbgen.key_text(r, k) for k in a['pub']['keys']}
    if len(set(a['pub']['keys'])) < len(a['pub']['keys']):
      cov.probe('public-duplicate')
    if want - set(units):
      cov.probe('empty-partition')
    if set(units) - want:
      cov.probe('private-partition-dropped')
    if set(got) != want:
      raise Violation('public-partitions-differ',
                      f'{where}: released {sorted(got)} for the public partitions '
                      f'{sorted(want)}')
    return
  extra = set(got) - set(units)
  if extra:
    raise Violation('partition-made-up', f'{where}: released {sorted(extra)}, the data '
                    f'has {sorted(units)}')
  small = [k for k in got if len(units[k]) < pre]
  if small:
    raise Violation('pre-threshold-ignored',
                    f'{where}: released {small} with fewer than {pre} units')
  recs = pbgen.extracts(r, i, op in ('SelectPartitions', 'DistinctPerKey'))
  for k, s in sorted(units.items()):
    n = len(s)
    kept = k in got
    x = next(iter(recs.get(k, {}).values()), None)
    if n < pre:
      cov.probe('pre-threshold-dropped')
      continue
    if x is None:
      raise Violation('selection-not-private',
                      f'{where}: {k} with {n} units was {"kept" if kept else "dropped"} '
                      'without randomness')
    if op == 'DistinctPrivacyID':
      sel = pbgen.split(op, x)[1]
    else:
      sel = pbgen.split(op, x)[0]
    if op == 'DistinctPrivacyID' or a['l0'] > 3:
      adds = [c for c in sel if c['m'] != 'Threshold']
      thr = [c for c in sel if c['m'] == 'Threshold']
      if len(adds) != 1 or len(thr) != 1:
        raise Violation('selection-not-private', f'{where}: {k} is selected by {sel}')
      c = adds[0]['a']
      m = n if op == 'DistinctPrivacyID' else n - (pre - 1)
      if c[0] != m:
        raise Violation('wrong-count', f'{where}: {k} with {n} units is selected by {sel}')
      out = adds[0]['out']
      if op == 'DistinctPrivacyID':
        kind = 'g' if a['noise'] == 'g' else 'l'
        t = _threshold(kind, a, 1, a['eps'], a['del'], a['pdel'])
        if t is not None:
          t += pre - 1
        cov.probe('count-kept' if kept else 'count-dropped')
      else:
        kind = 'g'
        t = _threshold('g', a, 1, a['peps'], a['pdel'] / 2, a['pdel'] / 2)
        cov.probe('gauss')
        cov.probe('gauss-kept' if kept else 'gauss-dropped')
      _decide(where, k, kept, out, t, 1)
      continue
    cov.probe('optimal')
    cov.probe('optimal-kept' if kept else 'optimal-dropped')
    if len(x['u'] or []) != 1:
      raise Violation('selection-not-private',
                      f'{where}: {k} is selected with draws {x["u"]}')
    q = pbgen.keep(n, a['peps'], a['pdel'], a['l0'], p['spec']['pre'])
    for v, d in [(x['u'][0], kept)] + [
        (v, c == '1') for v, c in zip(plan['probe'], x['probe'])]:
      if abs(v - q) <= 1e-9 * q + 1e-15:
        continue
      if d != (v < q):
        raise Violation('wrong-keep-probability',
                        f'{where}: {k} with {n} units was {"kept" if d else "dropped"} for '
                        f'the draw {v}, its keep probability is {q}')
