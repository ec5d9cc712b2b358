"""J03: Every Java release is bounded, noised once per statistic, within budget."""
import math

from sim import dpref
from sim import jvagg
from sim import jvsim
from sim.core import Violation
from checks import g05
from checks import x07

ID = 'J03'
RULE = ('two datasets that differ in one privacy unit were released under the same '
        'noised values, and the inputs, parameters and results were compared with each '
        'other and with the statistic of the clamped entries')
REAL = ['java/main/com/google/privacy/differentialprivacy (Count, BoundedSum, '
        'LongBoundedSum, BoundedMean, BoundedVariance, BoundedQuantiles, DpPreconditions, '
        'argument checks and quantiles of the noise)', 'proto/*.proto']
STUB = ['Noise of the aggregators (planned outcomes, recorded calls) except in the real '
        'runs of each case', 'SecureRandom (simulated provider)',
        'the protocol buffer runtime, AutoValue, commons-math3']
ASSUMPTIONS = ['a privacy unit gives at most the configured number of contributions '
               'to at most the configured number of partitions',
               'noise outcomes are finite', 'float bounds are zero or between 1e-100 and 1e120',
               'quantile trees have at most 2^30 nodes', 'sums of longs stay inside 64 bits']
RUNS = {'quick': 30000, 'thorough': 1200000}
BUDGET = {'quick': 75, 'thorough': 1800}
SHRINK_LISTS = ('data', 'unit')
STATE_MEASURE = 'distinct (type, options, shape of the two datasets, outcome)'
TYPES = ['count', 'sumi', 'sumf', 'mean', 'var', 'quant']
STATS = {'count': 1, 'sumi': 1, 'sumf': 1, 'mean': 2, 'var': 3}
PROBES = ['refused-options', 'invalid-options', 'extreme-options', 'extreme-noise',
          'nan-unit', 'clamped-unit', 'no-effect-unit', 'thresholded', 'sharded',
          'dropped-below-threshold', 'real-mechanism', 'ranks', 'follow-path',
          'near-threshold', 'quiet', 'interval', 'release-refused', 'discrete', 'collection'] + TYPES
TINY = g05.TINY

prepare = jvsim.prepare


def valid(typ, o):
  """Whether options satisfy the documented requirements."""
  eps, delta = float(o['eps']), float(o['delta'])
  if not (eps > 0 and math.isfinite(eps)) or o['l0'] < 1:
    return False
  if math.isnan(delta) or not 0 <= delta < 1 or (o['noise'] == 'g') != (delta > 0):
    return False
  if o.get('mc', 1) < 1:
    return False
  if typ == 'count':
    return True
  lo, hi = float(o['lo']), float(o['hi'])
  if not (math.isfinite(lo) and math.isfinite(hi) and lo <= hi):
    return False
  if typ not in ('sumi', 'sumf') and lo == hi:
    return False
  return typ != 'quant' or o['h'] >= 1 and o['b'] >= 2


def _extreme(rng, typ, o):
  o = dict(o)
  for _ in range(rng.randint(1, 3)):
    k = rng.choice(['eps', 'delta', 'l0', 'mc', 'bounds', 'bounds', 'l0', 'invalid'])
    if k == 'eps':
      o['eps'] = rng.choice(['1e-15', '8e-16', '1e-6', '40', '700', '5e-324'])
    elif k == 'delta' and o['noise'] == 'g':
      o['delta'] = rng.choice(['1e-300', '1e-12', '0.999', '1e-9'])
    elif k == 'l0':
      o['l0'] = rng.choice([100, 2**24, 2**30, 2**30 + 1, 2**31 - 1, 7, 536870913,
                            1431655766, 858993460])
    elif k == 'mc' and 'mc' in o:
      o['mc'] = rng.choice([100, 2**20, 2**31 - 1])
    elif k == 'bounds' and typ == 'sumi':
      lo, hi = rng.choice([(-2**63, 0), (-2**63 + 1, 2**63 - 1), (0, 2**40), (0, 2**62),
                           (-2**40, 5), (2**39, 2**41), (7, 7), (-5, -5), (-2**53, 1),
                           (2**63 - 1, 2**63 - 1), (-2**63, 5), (-2**63, -2**40)])
      o['lo'], o['hi'] = str(lo), str(hi)
    elif k == 'bounds' and typ in jvagg.FLOATS:
      lo, hi = rng.choice([(-1e120, 1e120), (1e15, 1e15 + 2), (-1e-9, 1e9),
                           (0.1, 0.3), (-0.7, -0.1), (3, 3 + 1e-9), (0, 1e-100),
                           (-1e120, 0), (1e100, 1e101), (-10, 0.9999999), (0.1, 100.3)])
      o['lo'], o['hi'] = repr(float(lo)), repr(float(hi))
    elif k == 'invalid' and rng.random() < .5:
      w = rng.choice(['eps', 'delta', 'l0', 'mc', 'bounds', 'bounds', 'tree'])
      if w == 'eps':
        o['eps'] = rng.choice(['0', '-1', 'nan', 'inf', '-inf'])
      elif w == 'delta':
        o['delta'] = rng.choice(['-0.1', 'nan', '0' if o['noise'] == 'g' else '0.1', '1',
                                 '1.5', 'inf'])
      elif w == 'l0':
        o['l0'] = rng.choice([0, -1, -2**31])
      elif w == 'mc' and 'mc' in o:
        o['mc'] = rng.choice([0, -1, -2**31])
      elif w == 'tree' and typ == 'quant':
        o['h'], o['b'] = rng.choice([(-1, 4), (3, 1), (3, -2), (0, 4), (2, 0)])
      elif typ == 'sumi':
        o['lo'], o['hi'] = '5', '3'
      elif typ in jvagg.FLOATS:
        o['lo'], o['hi'] = rng.choice([('5', '3'), ('nan', '1'), ('1', 'nan'),
                                       ('-inf', '3'), ('2', 'inf'), ('-inf', 'inf')])
  return o


def generate(rng, tier):
  typ = rng.choice(TYPES)
  o = jvagg.opt(rng, typ)
  if rng.random() < .5:
    o = _extreme(rng, typ, o)
  if typ == 'quant' and o['h'] > 0 and o['b'] > 1 and rng.random() < .3:
    o['h'], o['b'] = rng.choice([(10, 2), (1, 2), (1, 7), (4, 16), (20, 2), (3, 50)])
  case = {'type': typ, 'opt': o}
  case['data'] = [g05._value(rng, typ, o) for _ in range(rng.choice([0, 1, 2, 4, 8, 20]))]
  u = g05._value(rng, typ, o)
  same = rng.random() < .5
  case['unit'] = [dict(u if same else g05._value(rng, typ, o), n=1)
                  for _ in range(rng.randint(1, max(1, min(o.get('mc', 1), 3))))]
  case['at'] = [rng.random() for _ in case['unit']]
  case['noise'] = g05._noise(rng, typ)
  case['bulk'] = rng.random() < .25
  if case['bulk'] and rng.random() < .3:
    case['data'] += [g05._value(rng, typ, o) for _ in range(rng.choice([40, 130]))]
  case['shard'] = rng.choice([0, 0, rng.randint(1, 5)])
  case['alpha'] = rng.choice(['.05', '.5', '.001'])
  if typ == 'quant':
    case['follow'] = rng.random() < .6
    case['ranks'] = [rng.choice([0.0, .25, .5, .75, 1.0, rng.random()])
                     for _ in range(rng.choice([1, 1, 2, 4]))]
  elif typ == 'count' and rng.random() < .6:
    case['thr'] = rng.choice(['1e-5', '0.01', '0.3', '1e-10', '0.6', '1e-17', '1e-14'])
    case['near'] = rng.choice([None, -3.0, -1.5, -1.0, -.6, -.3, 0.0, .2, .4, 2.0,
                               -.01, -.1])
  case['seed'] = rng.randrange(1, 1 << 40)
  return case


def _norms(a, b):
  return g05._norms(a, b, 1)


def _big(typ, ds):
  """Sums of longs that leave 64 bits say nothing."""
  return typ == 'sumi' and abs(ds) >= 2**63


def execute(case, cov):
  typ, o = case['type'], case['opt']
  data, unit = case['data'], case['unit']
  both = list(data)
  for u, at in zip(unit, case['at']):
    both.insert(int(at * (len(both) + 1)), u)
  ok = valid(typ, o)
  new = {'op': 'new', 'id': 0, 'type': typ, 'opt': o}
  rep = jvagg.run([new])[0][0]
  if rep.get('err'):
    cov.probe('refused-options' if ok else 'invalid-options')
    if not ok:
      cov.fault('invalid option')
      cov.nontrivial = True
    cov.state((typ, 'refused', tuple(sorted(o.items()))))
    return
  if not ok:
    raise Violation('invalid-options-accepted', f'a {typ} accepted {o}')
  vals, mode = case['noise'], 'abs'
  if typ == 'quant' and case.get('follow'):
    vals, led = g05._follow(o, unit, vals)
    if led:
      cov.probe('follow-path')
  if case.get('thr') and case.get('near') is not None:
    t = dpref.least_threshold('g' if o['noise'] == 'g' else 'l', o['l0'], 1.0,
                              float(o['eps']), float(o['delta']), float(case['thr']))
    if t is not None and math.isfinite(t):
      vals = [repr(t + case['near'] * max(1.0, abs(t - 1) * .05))]
      cov.probe('near-threshold')
  tails = [{'op': 'res', 'noise': {'mode': mode, 'vals': vals}}]
  if typ == 'quant':
    tails = [dict(tails[0], arg=repr(r)) for r in case['ranks']]
    if len(tails) > 1:
      cov.probe('ranks')
  elif case.get('thr'):
    tails[0].update(how='thr', arg=case['thr'])
  if case.get('bulk'):
    cov.probe('collection')
  ask = typ != 'var' and o['noise'] != 'd'
  ops, marks = [], {}
  for ident, ds in ((0, data), (1, both), (2, both), (3, both)):
    ops.append(dict(new, id=ident))
    k = case['shard'] if ident else 0
    if k:
      cut = len(ds) * k // 6
      ops.append(dict(new, id=10 + ident))
      ops += [jvagg.add(10 + ident, c) for c in ds[:cut]]
      ops.append({'op': 'enc', 'id': 10 + ident, 'slot': ident})
      ops.append({'op': 'merge', 'id': ident, 'slot': ident})
      ds = ds[cut:]
    ops += [jvagg.adds(ident, ds)] if case.get('bulk') else [jvagg.add(ident, c) for c in ds]
    marks[ident] = []
    for t in tails:
      marks[ident].append(len(ops))
      t = dict(t, id=ident)
      if ident == 2:
        t['noise'] = {'mode': 'real'}
        t['seed'] = case['seed']
      elif ident == 3:
        t['noise'] = {'mode': 'add', 'vals': ['0']}
        t.pop('how', None)
      ops.append(t)
    if ask and ident < 2:
      marks[ident].append(len(ops))
      ops.append({'op': 'ci', 'id': ident, 'arg': case['alpha'], 'rank': '.5'})
  reps, _ = jvagg.run(ops)
  cov.step(len(ops))
  cov.probe(typ)
  for op, r in zip(ops, reps):
    if r.get('err') and op['op'] not in ('res', 'ci'):
      raise Violation('input-refused', f'{op} with {o}: {r["err"]}')
  cov.nontrivial = True
  cov.fault('neighbour-dataset')
  if case['shard']:
    cov.probe('sharded')
  if o['noise'] == 'd':
    cov.probe('discrete')
  if o['l0'] > 1000 or float(o['eps']) < 1e-5 or o.get('mc', 1) > 1000:
    cov.probe('extreme-options')
  if any(abs(float(v)) > 1e17 for v in vals):
    cov.probe('extreme-noise')
    cov.fault('extreme-noise-outcome')
  if typ in jvagg.FLOATS:
    us = [float(u['v']) for u in unit]
    if any(math.isnan(v) for v in us):
      cov.probe('nan-unit')
      cov.fault('nan-input')
    if any(v < float(o['lo']) or v > float(o['hi']) for v in us):
      cov.probe('clamped-unit')
      cov.fault('out-of-bounds-input')
  ra, rb, rr, rq = ([reps[k] for k in marks[i]] for i in (0, 1, 2, 3))
  cis = []
  if ask:
    cis = [ra.pop(), rb.pop()]
  kind = 'g' if o['noise'] == 'g' else 'l'
  calls = lambda rs: [c for r in rs for c in r.get('calls') or [] if c['m'] in ('i', 'f')]
  ca, cb = calls(ra), calls(rb)
  cov.trace([r.get('val') for r in ra], [(c['x'], c.get('out')) for c in cb],
            [bool(r.get('err')) for r in rr])
  if any(bool(r.get('err')) for r in ra + rb):
    if len({bool(r.get('err')) for r in ra + rb}) > 1 and len(ra) == 1:
      raise Violation('error-depends-on-data', f'{typ} {o}: {ra} and {rb}')
    cov.probe('release-refused')
    if not (case.get('thr') and o['noise'] == 'd') and not (
        typ in ('sumi', 'sumf') and float(o['lo']) == float(o['hi']) == 0) and float(
            o['eps']) < 700 and (float(o['delta']) > 1e-12 or kind == 'l'):
      raise Violation('release-failed', f'{typ} {o}: {[r.get("err") for r in ra + rb]}')
    return
  if len(ca) != len(cb):
    raise Violation('calls-depend-on-data',
                    f'{typ}: {len(ca)} noise calls for a dataset, {len(cb)} for its '
                    'neighbour under the same outcomes')
  if typ in STATS and len(cb) != STATS[typ]:
    raise Violation('not-once-per-statistic',
                    f'{typ}: {len(cb)} noise calls for {STATS[typ]} statistics')
  if [r.get('val') for r in ra] != [r.get('val') for r in rb]:
    raise Violation('value-not-noised',
                    f'{typ} {o}: the noised statistics agree, the releases '
                    f'{[r.get("val") for r in ra]} and {[r.get("val") for r in rb]} do not')
  if cis and typ != 'quant':
    cov.probe('interval')
    if cis[0] != cis[1]:
      raise Violation('interval-not-noised', f'{typ} {o}: intervals {cis[0]} and {cis[1]} '
                      'for the same noised values')
  for c in ca + cb:
    if not (int(c['l0']) > 0 and 0 < float(c['linf']) < math.inf):
      raise Violation('sensitivity-too-small', f'{typ} {o}: {c}')
  g05._check_sensitivity(typ, kind, o, ca, cb)
  if [c['x'] for c in ca] == [c['x'] for c in cb]:
    cov.probe('no-effect-unit')
  for cs, ds in ((ca, data), (cb, both)):
    if typ == 'quant':
      g05._check_nodes(o, ds, cs, case)
    else:
      g05._check_statistics(typ, o, ds, cs)
  for r in rb:
    g05._check_value(typ, o, case, cb, r['val'])
  if case.get('thr'):
    _threshold(case, o, kind, cb[0], rb[0], cov)
  _real(case, o, typ, kind, rr, cb, cov)
  if typ == 'quant':
    _quiet(case, o, both, rq, cov)
  cov.state((typ, kind, o['l0'], o.get('mc'), o.get('lo'), o.get('hi'), o['eps'], len(data),
             tuple(u['v'] for u in unit), bool(case.get('thr')),
             tuple(str(r['val']) for r in rb)))


def _threshold(case, o, kind, c, rep, cov):
  cov.probe('thresholded')
  t = dpref.least_threshold(kind, o['l0'], 1.0, float(o['eps']), float(o['delta']),
                            float(case['thr']))
  if t is None or not math.isfinite(t):
    return
  out = int(c['out'])
  slack = .02 * abs(t - 1) + 1e-9 * abs(t)
  # The noise was rounded: it may have been half lower.
  if out - .5 < t - slack:
    cov.probe('dropped-below-threshold')
    if rep['val'] != ['nil']:
      text = (f'count {o} thresholded with delta {case["thr"]} released {out}, below {t} '
              f'before or after the noise was rounded')
      raise Violation('threshold-too-low', text,
                      sig='rounded-noise' if out >= t - slack else None)


def _may_refuse(typ, o, kind):
  """Real noise that is too large or too small for its mechanism is refused."""
  if float(o['eps']) >= 700 or kind == 'g' and float(o['delta']) < 1e-12:
    return True
  top = max(abs(int(o['lo'])), abs(int(o['hi']))) if typ == 'sumi' else 1
  return o['noise'] == 'd' and float(o['eps']) / (o['l0'] * max(1, top)) < 1e-15


def _real(case, o, typ, kind, rr, cb, cov):
  """The real mechanism is called the same way."""
  for r in rr:
    if r.get('err'):
      if _may_refuse(typ, o, kind):
        return
      raise Violation('release-failed', f'{typ} {o} with real noise: {r["err"]}')
  cov.probe('real-mechanism')
  real = [c for r in rr for c in r.get('calls') or [] if c['m'] in ('i', 'f')]
  if typ in STATS and len(real) != len(cb):
    raise Violation('not-once-per-statistic', f'{typ}: {len(real)} calls of the real '
                    f'mechanism instead of {len(cb)}')
  keys = ['m', 'l0', 'linf', 'eps', 'delta'] + (['x'] if typ in STATS else [])
  for i, c in enumerate(real):
    d = cb[i] if typ in STATS else cb[0]
    if any(c[k] != d[k] for k in keys):
      raise Violation('wrong-statistic', f'{typ}: the real mechanism gets {c}, the '
                      f'simulated one {d}')


def _quiet(case, o, ds, reps, cov):
  """Without noise a quantile is one of the clamped entries, up to a leaf."""
  lo, hi = float(o['lo']), float(o['hi'])
  vals = sorted(g05.clamp(float(c['v']), lo, hi) for c in ds if not math.isnan(float(c['v'])))
  if not vals or not hi - lo > 1e-14 * max(abs(lo), abs(hi)):
    return
  cov.probe('quiet')
  width = 2 * (hi - lo) / o['b'] ** o['h'] * (1 + 1e-6) + 1e-9 * (hi - lo)
  for q, r in zip(case['ranks'], reps):
    if r.get('err'):
      raise Violation('release-failed', f'quant {o} without noise: {r["err"]}')
    x07._rank(f'quant {o} of {vals[:30]}', vals, min(max(q, .005), .995),
              float(r['val'][0]), width, 0.0, .0075 * o['b'] * o['h'] * len(vals) + 1e-9, q)
