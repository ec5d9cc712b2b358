"""G05: every Go release is bounded, noised once per statistic, within budget."""
import math
import statistics

from scipy import stats

from sim import dpref
from sim import goagg
from sim import gosim
from sim.core import Violation

ID = 'G05'
RULE = ('two datasets that differ in one privacy unit were released under the same '
        'noise, or the noise that was really drawn was measured')
REAL = ['go/dpagg', 'go/checks', 'go/noise (argument checks, thresholds; the '
        'samplers in scale and selection runs)', 'go/rand']
STUB = ['noise.Noise of the aggregators (planned outcomes, recorded calls) except in '
        'scale, real and selection runs', 'crypto/rand.Reader (simulated)', 'glog',
        "gonum's normal distribution"]
ASSUMPTIONS = ['a privacy unit gives at most the configured number of contributions '
               'to at most the configured number of partitions',
               'noise outcomes are finite', 'float bounds are zero or between 1e-100 and 1e120',
               'quantile trees have at most 2^40 leaves']
RUNS = {'quick': 30000, 'thorough': 700000}
BUDGET = {'quick': 150, 'thorough': 2400}
SHRINK_LISTS = ('data', 'unit', 'history')
STATE_MEASURE = 'distinct (type, options, shape of the two datasets, outcome)'
PROBES = ['refused-options', 'invalid-options', 'extreme-options', 'extreme-noise',
          'nan-unit', 'clamped-unit', 'no-effect-unit', 'history', 'thresholded',
          'dropped-below-threshold', 'real-mechanism', 'scale', 'scale-refused',
          'select-optimal', 'select-gauss', 'pre-threshold', 'ranks',
          'follow-path', 'near-threshold'] + goagg.TYPES

prepare = gosim.prepare

TINY = 1e-9
SCALE_SEEDS = 200


# ------------------------------------------------------------------ options
def lenient(typ, o):
  """Infinite bounds pass with the default noise: inner sums bound what they add."""
  return o['noise'] == 'd' and typ in goagg.FLOATS and typ != 'quant' and not (
      math.isfinite(float(o['lo'])) and math.isfinite(float(o['hi'])))


def valid(typ, o):
  """Whether options satisfy the documented requirements."""
  eps, delta = float(o['eps']), float(o['delta'])
  if not (eps > 0 and math.isfinite(eps)):
    return False
  if math.isnan(delta) or not 0 <= delta < 1:
    return False
  if o['l0'] < 1:
    return False
  if typ == 'sel':
    return delta > 0 and o['pre'] >= 0
  if (o['noise'] == 'g') != (delta > 0):
    return False
  if typ in ('mean', 'var', 'std', 'quant') and o['mc'] < 1:
    return False
  if typ == 'count':
    return True
  lo, hi = float(o['lo']), float(o['hi'])
  if math.isnan(lo) or math.isnan(hi) or lo > hi:
    return False
  if (math.isinf(lo) or math.isinf(hi)) and not lenient(typ, o):
    return False
  if lo == 0 and hi == 0:
    return False
  if typ not in ('sumi', 'sumf') and lo == hi:
    return False
  if typ == 'quant' and (o['h'] < 0 or o['b'] < 0 or o['b'] == 1):
    return False
  return True


def _extreme(rng, typ, o):
  """Changes some options to large, tiny or invalid ones."""
  o = dict(o)
  for _ in range(rng.randint(1, 3)):
    k = rng.choice(['eps', 'delta', 'l0', 'mc', 'bounds', 'bounds', 'l0', 'pre',
                    'invalid'])
    if k == 'eps':
      o['eps'] = rng.choice(['1e-15', '9e-16', '1e-6', '40', '700', '5e-324'])
    elif k == 'delta' and (o['noise'] == 'g' or typ == 'sel'):
      o['delta'] = rng.choice(['1e-300', '1e-12', '0.999', '1e-9'])
    elif k == 'l0':
      o['l0'] = rng.choice([100, 2**24, 2**31, 2**40, 2**62, 2**62 + 1, 2**63 - 1, 7])
    elif k == 'mc':
      o['mc'] = rng.choice([100, 2**20, 2**31, 2**62, 2**63 - 1])
    elif k == 'bounds' and typ == 'sumi':
      lo, hi = rng.choice([(-2**63, 0), (-2**63 + 1, 2**63 - 1), (0, 2**40), (0, 2**62),
                           (-2**40, 5), (2**39, 2**41), (7, 7), (-5, -5), (-2**53, 1),
                           (2**63 - 1, 2**63 - 1)])
      o['lo'], o['hi'] = str(lo), str(hi)
    elif k == 'bounds' and typ in goagg.FLOATS:
      lo, hi = rng.choice([(-1e120, 1e120), (1e15, 1e15 + 2), (-1e-9, 1e9),
                           (0.1, 0.3), (-0.7, -0.1), (3, 3 + 1e-9), (0, 1e-100),
                           (-1e120, 0), (1e100, 1e101), (-10, 0.9999999), (0.1, 100.3)])
      o['lo'], o['hi'] = repr(float(lo)), repr(float(hi))
    elif k == 'pre' and typ == 'sel':
      o['pre'] = rng.choice([10, 1000, 2**40])
    elif k == 'invalid' and rng.random() < .5:
      w = rng.choice(['eps', 'delta', 'l0', 'mc', 'bounds', 'bounds', 'tree', 'pre'])
      if w == 'eps':
        o['eps'] = rng.choice(['0', '-1', 'NaN', 'Inf', '-Inf'])
      elif w == 'delta':
        bad = ['-0.1', 'NaN', '0' if o['noise'] == 'g' else '0.1']
        if typ not in ('mean', 'var', 'std'):  # these split it before it is checked
          bad += ['1', '1.5']
        o['delta'] = rng.choice(bad)
      elif w == 'l0':
        o['l0'] = rng.choice([0, -1, -2**63])
      elif w == 'mc':
        o['mc'] = rng.choice([0, -1, -2**63])
      elif w == 'tree':
        o['h'], o['b'] = rng.choice([(-1, 4), (3, 1), (3, -2), (-5, -5)])
      elif w == 'pre':
        o['pre'] = rng.choice([-1, -2**63])
      elif typ == 'sumi':
        o['lo'], o['hi'] = rng.choice([('5', '3'), ('0', '0')])
      elif typ in goagg.FLOATS:
        o['lo'], o['hi'] = rng.choice([('5', '3'), ('0', '0'), ('NaN', '1'), ('1', 'NaN'),
                                       ('-Inf', '3'), ('2', 'Inf'), ('4', '4'),
                                       ('-Inf', 'Inf')])
  return o


def _value(rng, typ, o):
  if typ in ('count', 'sel'):
    return {'v': '', 'n': rng.choice([1, 1, 2, 5, 100])}
  if typ == 'sumi':
    lo, hi = int(o['lo']), int(o['hi'])
    pick = [lo, hi, 0, 10**12, -10**12, 2**63 - 1, -2**63, lo - 1, hi + 1]
    if lo < hi:
      pick += [rng.randint(lo, hi)] * 3
    return {'v': str(max(-2**63, min(2**63 - 1, rng.choice(pick)))), 'n': 1}
  lo, hi = float(o['lo']), float(o['hi'])
  span = hi - lo
  if not math.isfinite(span):
    lo, hi, span = -1.0, 1.0, 2.0
  v = rng.choice([lo, hi, lo + span * rng.random(), lo + span * rng.randint(0, 16) / 16,
                  math.nextafter(hi, lo), math.nextafter(lo, hi), lo - 1, hi + 1,
                  math.nextafter(hi, math.inf), math.inf, -math.inf, math.nan, 0.0,
                  1.7e308, -1.7e308, 5e-324, -0.0, (lo + hi) / 2, 0.5])
  return {'v': repr(v), 'n': 1}


def _noise(rng, typ):
  big = rng.random() < .25
  n = rng.choice([1, 2, 3, 5, 8, 16])
  vals = []
  for _ in range(n):
    if big and rng.random() < .6:
      vals.append(rng.choice(['1e300', '-1e300', '1e18', '-1e18', '9.3e18', '1e-300',
                              '5e-324', '-1e150', '1e150']))
    else:
      vals.append(repr(rng.choice([0.0, 0.0, 1.0, -1.0, 10.0, 3.0,
                                   rng.uniform(-30, 60), rng.uniform(0, 8)])))
  return vals


def generate(rng, tier):
  typ = rng.choice(goagg.TYPES)
  mode = rng.choice(['agg'] * 12 + ['scale'])
  if typ == 'sel':
    mode = 'sel'
  elif mode == 'scale' and typ not in ('count', 'sumi', 'sumf'):
    typ = rng.choice(['count', 'sumi', 'sumf'])
  o = goagg.opt(rng, typ)
  if rng.random() < .5:
    o = _extreme(rng, typ, o)
  if typ == 'quant' and o['h'] > 0 and o['b'] > 1 and rng.random() < .3:
    o['h'], o['b'] = rng.choice([(10, 2), (1, 2), (1, 7), (4, 16), (20, 2), (3, 50)])
  case = {'mode': mode, 'type': typ, 'opt': o}
  if mode == 'sel':
    case['n'] = rng.choice([0, 1, 1, 2, 3, rng.randint(0, 60), rng.randint(0, 3000),
                            2**40, -3])
    if rng.random() < .5:
      case['n'] = max(0, o['pre'] + rng.randint(-2, 3))
    case['seed'] = rng.randrange(1, 1 << 40)
    return case
  if mode == 'scale':
    case['seed'] = rng.randrange(1, 1 << 40)
    case['data'] = [_value(rng, typ, o)] if rng.random() < .5 else []
    return case
  case['data'] = [_value(rng, typ, o) for _ in range(rng.choice([0, 1, 2, 4, 8, 20]))]
  mc = max(1, min(o['mc'], 3)) if typ in ('mean', 'var', 'std', 'quant') else 1
  u = _value(rng, typ, o)
  same = rng.random() < .5
  case['unit'] = [dict(u if same else _value(rng, typ, o), n=1)
                  for _ in range(rng.randint(1, mc))]
  case['at'] = [rng.random() for _ in case['unit']]
  case['noise'] = _noise(rng, typ)
  if typ == 'quant':
    case['follow'] = rng.random() < .6
    case['ranks'] = [rng.choice([0.0, .25, .5, .75, 1.0, rng.random()])
                     for _ in range(rng.choice([1, 1, 2, 4]))]
  elif typ in ('count', 'sumi', 'sumf') and rng.random() < .4:
    case['thr'] = rng.choice(['1e-5', '0.01', '0.3', '1e-10', '0.6', '1e-17', '1e-14'])
    case['near'] = rng.choice([None, -3.0, -1.5, -1.0, -.6, -.3, 0.0, .2, .4, 2.0,
                               -.01, -.1])
  elif typ == 'var' and rng.random() < .5:
    case['full'] = True
  case['history'] = []
  for _ in range(rng.choice([0, 0, 0, 1, 2])):
    ht = rng.choice(goagg.TYPES)
    ho = goagg.opt(rng, ht)
    case['history'].append({'type': ht, 'opt': ho,
                            'add': [goagg.value(rng, ht, ho) for _ in range(2)],
                            'res': goagg.release(rng, ht, ho, 2)})
  case['seed'] = rng.randrange(1, 1 << 40)
  return case


# ---------------------------------------------------------------- reference
def clamp(v, lo, hi):
  return min(max(v, lo), hi)


def statistic(typ, o, data):
  """Reference: (name, exact value, tolerance) of each statistic."""
  if typ == 'count':
    return {'count': (sum(c['n'] for c in data), 0)}
  if typ == 'sumi':
    lo, hi = int(o['lo']), int(o['hi'])
    return {'sum': (sum(clamp(int(c['v']), lo, hi) for c in data), 0)}
  lo, hi = float(o['lo']), float(o['hi'])
  vals = [clamp(float(c['v']), lo, hi) for c in data if not math.isnan(float(c['v']))]
  top = max(abs(lo), abs(hi))
  slack = 1e-12 * (len(vals) + 1) ** 2
  if typ == 'sumf':
    return {'sum': (math.fsum(vals), top * slack)}
  mid = lo + (hi - lo) / 2
  out = {'count': (len(vals), 0),
         'sum': (math.fsum(v - mid for v in vals), top * slack)}
  if typ in ('var', 'std'):
    out['sq'] = (math.fsum((v - mid) ** 2 for v in vals), top * top * slack)
  return out


def _num(c, k):
  return int(c[k]) if c['m'] == 'i' else float(c[k])


def _norms(a, b, l0_cfg):
  """Per-unit change of one vector of statistics over l0_cfg partitions."""
  ds = []
  for x, y in zip(a, b):
    dx = _num(y, 'x') - _num(x, 'x')
    if x['m'] == 'i':  # 64-bit arithmetic
      dx = (dx + 2**63) % 2**64 - 2**63
      ds.append(abs(float(dx)))
    else:
      noise = 4e-16 * 64 * (abs(_num(x, 'x')) + abs(_num(y, 'x')) +
                            abs(_num(x, 'linf')))
      ds.append(max(0.0, abs(dx) - noise))
  return ds


# -------------------------------------------------------------------- checks
def _check_sensitivity(typ, kind, o, ca, cb):
  eps_sum = delta_sum = 0.0
  groups = [list(range(len(ca)))] if typ == 'quant' else [[i] for i in range(len(ca))]
  for g in groups:
    ds = _norms([ca[i] for i in g], [cb[i] for i in g], o['l0'])
    for i in g:
      for k in ('m', 'l0', 'linf', 'eps', 'delta'):
        if ca[i][k] != cb[i][k]:
          raise Violation('parameters-depend-on-data',
                          f'{typ}: {k} is {ca[i][k]} for one dataset and {cb[i][k]} '
                          'for its neighbour')
    c = ca[g[0]]
    if any(ca[i][k] != c[k] for i in g for k in ('l0', 'linf', 'eps', 'delta')):
      raise Violation('sensitivity-too-small',
                      f'{typ}: nodes of one tree get different parameters')
    l0, linf = float(c['l0']), float(c['linf'])
    if kind == 'g':
      change = math.sqrt(float(o['l0'])) * math.sqrt(math.fsum((d / linf) ** 2 for d in ds))
      bound = math.sqrt(l0)
    else:
      change, bound = float(o['l0']) * math.fsum(d / linf for d in ds), l0
    if change > bound * (1 + TINY):
      raise Violation('sensitivity-too-small',
                      f'{typ} {o}: one unit changes the statistics by {ds} in each of '
                      f'{o["l0"]} partitions, the mechanism is told l0={c["l0"]} '
                      f'linf={c["linf"]} ({"l2" if kind == "g" else "l1"})')
    eps_sum += float(c['eps'])
    delta_sum += float(c['delta'])
  if eps_sum > float(o['eps']) * (1 + TINY) or (
      delta_sum > float(o['delta']) * (1 + TINY)):
    raise Violation('budget-exceeded',
                    f'{typ}: the statistics use epsilon {eps_sum} and delta {delta_sum} '
                    f'of {o["eps"]} and {o["delta"]}')


def _close(x, want, tol):
  return x == want or abs(x - want) <= tol or (math.isnan(x) and math.isnan(want))


def _check_statistics(typ, o, data, calls):
  want = statistic(typ, o, data)
  ints = [c for c in calls if c['m'] == 'i']
  floats = [c for c in calls if c['m'] == 'f']
  if typ in ('count', 'sumi'):
    name = 'count' if typ == 'count' else 'sum'
    x = (int(ints[0]['x']) - want[name][0]) % 2**64 if ints else None
    if x != 0:
      raise Violation('wrong-statistic', f'{typ}: {calls} instead of {want}')
    return
  if 'count' in want and [int(c['x']) for c in ints] != [want['count'][0]]:
    raise Violation('wrong-statistic', f'{typ}: {calls} instead of {want}')
  names = [n for n in ('sum', 'sq') if n in want]
  if len(floats) != len(names):
    raise Violation('wrong-statistic', f'{typ}: {calls} instead of {want}')
  orders = [floats, floats[::-1]]
  if not any(all(_close(float(c['x']), want[n][0], want[n][1])
                 for n, c in zip(names, cs)) for cs in orders):
    raise Violation('wrong-statistic', f'{typ} {o}: {calls} instead of {want}')


def _check_value(typ, o, case, calls, val):
  """The released value, recomputed from the noised statistics alone."""
  outs_i = [int(c['out']) for c in calls if c['m'] == 'i']
  outs_f = [float(c['out']) for c in calls if c['m'] == 'f']
  if typ in ('count', 'sumi', 'sumf'):
    out = outs_f[0] if typ == 'sumf' else outs_i[0]
    if val == ['nil'] and case.get('thr'):
      return
    if (float(val[0]) if typ == 'sumf' else int(val[0])) != out:
      raise Violation('value-not-noised', f'{typ} released {val}, the mechanism gave {out}')
    return
  lo, hi = float(o['lo']), float(o['hi'])
  if typ == 'quant':
    v = float(val[0])
    slack = 1e-12 * (abs(lo) + abs(hi))
    if not lo - slack <= v <= hi + slack:
      raise Violation('out-of-bounds', f'quant released {v} outside [{lo}, {hi}]')
    return
  mid = lo + (hi - lo) / 2
  n = max(1.0, float(outs_i[0]))

  def mean(s):
    return clamp(s / n + mid, lo, hi), (abs(s / n) + abs(mid) + abs(hi) + abs(lo)) * TINY

  def var(s, q):
    a, b = q / n, s / n
    try:
      b = b * b
    except OverflowError:
      b = math.inf
    top = (hi - lo) * (hi - lo) / 4
    return clamp(a - b, 0.0, top), (abs(a) + b + top) * TINY

  got = [float(v) for v in val]
  for cand in ([outs_f] if typ == 'mean' else [outs_f, outs_f[::-1]]):
    if typ == 'mean':
      want = [mean(cand[0])]
    else:
      v, tol = var(*cand)
      if case.get('full'):
        want = [(float(outs_i[0]), 0.0), mean(cand[0]), (v, tol)]
      elif typ == 'std':
        if tol == math.inf or math.isnan(v):
          want = [(math.sqrt(v), math.inf)]
        else:
          low, high = math.sqrt(max(0, v - tol)), math.sqrt(v + tol)
          want = [(math.sqrt(v), max(high - math.sqrt(v), math.sqrt(v) - low))]
      else:
        want = [(v, tol)]
    if len(got) == len(want) and all(_close(g, w, t) for g, (w, t) in zip(got, want)):
      break
  else:
    raise Violation('value-not-noised',
                    f'{typ} {o} released {got}, the noised statistics {calls} give {want}')
  slack = 1e-12 * (abs(lo) + abs(hi))
  v = got[-1]
  top = {'mean': hi, 'var': (hi - lo) ** 2 / 4, 'std': (hi - lo) / 2}[typ]
  bottom = lo if typ == 'mean' else 0.0
  if not bottom - (slack if typ == 'mean' else 0) <= v <= top * (1 + (
      1e-12 if top > 0 else -1e-12)) + (slack if typ == 'mean' else 0):
    raise Violation('out-of-bounds', f'{typ} released {v} outside [{bottom}, {top}]')
  if case.get('full') and not lo - slack <= got[1] <= hi + slack:
    raise Violation('out-of-bounds', f'mean {got[1]} outside [{lo}, {hi}]')


def _check_nodes(o, data, calls, case):
  """The counts of the root's children."""
  h, b = o['h'] or 4, o['b'] or 16
  lo, hi = float(o['lo']), float(o['hi'])
  vals = sorted(clamp(float(c['v']), lo, hi) for c in data if not math.isnan(float(c['v'])))
  top = [float(c['x']) for c in calls[:b]]
  if math.fsum(top) != len(vals):
    raise Violation('wrong-statistic', f'quant {o}: {len(vals)} values make nodes {top}')
  if hi - lo < 1e-200 or not math.isfinite(hi - lo):
    return
  tol = 1e-9 * (hi - lo) + 1e-14 * (abs(lo) + abs(hi))
  total = 0.0
  for k in range(b - 1):
    total += top[k]
    edge = lo + (hi - lo) * ((k + 1) / b)
    least = sum(v < edge - tol for v in vals)
    most = sum(v < edge + tol for v in vals)
    if not least <= total <= most:
      raise Violation('wrong-statistic',
                      f'quant {o}: {total} values below {edge} instead of {least}..{most} '
                      f'({vals[:20]})')


def _follow(o, unit, vals):
  """Noise outcomes that lead every rank towards the unit's first value."""
  h, b = o['h'] or 4, o['b'] or 16
  lo, hi = float(o['lo']), float(o['hi'])
  v = float(unit[0]['v'])
  if math.isnan(v):
    return vals, False
  if h * b > 4000:
    return vals, False
  share = clamp((clamp(v, lo, hi) - lo) / (hi - lo), 0.0, 1.0) if hi > lo else 0.0
  leaf = min(b**h - 1, int(share * b**h))
  out = []
  for level in range(1, h + 1):
    child = (leaf // b**(h - level)) % b
    out += ['100' if k == child else '0' for k in range(b)]
  return out, True


def _agg(case, cov):
  typ, o = case['type'], case['opt']
  data, unit = case['data'], case['unit']
  both = list(data)
  for u, at in zip(unit, case['at']):
    both.insert(int(at * (len(both) + 1)), u)
  ops = []
  for k, hst in enumerate(case['history']):
    ops.append({'op': 'new', 'id': 10 + k, 'type': hst['type'], 'opt': hst['opt']})
    ops += [{'op': 'add', 'id': 10 + k, **c} for c in hst['add']]
    ops.append(dict(hst['res'], id=10 + k))
  skip = len(ops)
  vals = case['noise']
  if typ == 'quant' and case.get('follow') and valid(typ, o):
    vals, ok = _follow(o, unit, vals)
    if ok:
      cov.probe('follow-path')
  if case.get('thr') and case.get('near') is not None and valid(typ, o):
    linf = 1.0 if typ == 'count' else float(max(abs(float(o['lo'])), abs(float(o['hi']))))
    t = dpref.least_threshold('g' if o['noise'] == 'g' else 'l', o['l0'], linf,
                        float(o['eps']), float(o['delta']), float(case['thr']))
    if t is not None and math.isfinite(t):
      vals = [repr(t + case['near'] * max(1.0, abs(t - linf) * .05))]
      cov.probe('near-threshold')
  res = {'op': 'res', 'noise': {'mode': 'abs', 'vals': vals}}
  tails = []
  if typ == 'quant':
    tails = [dict(res, arg=repr(r)) for r in case['ranks']]
    if len(tails) > 1:
      cov.probe('ranks')
  else:
    if case.get('thr'):
      res.update(how='thr', arg=case['thr'])
    if case.get('full'):
      res['how'] = 'full'
    tails = [res]
  marks = {}
  for ident, ds in ((0, data), (1, both), (2, both)):
    ops.append({'op': 'new', 'id': ident, 'type': typ, 'opt': o})
    marks[ident] = [len(ops) - 1]
  probe = goagg.run(ops[:])
  news = probe[skip:]
  if any(r.get('panic') for r in news):
    raise Violation('panic', f'constructing a {typ} with {o} panicked: {news}')
  if any(r.get('err') for r in news):
    if valid(typ, o):
      cov.probe('refused-options')
    cov.probe('invalid-options')
    cov.state((typ, 'refused', tuple(sorted(o.items()))))
    return
  if not valid(typ, o):
    raise Violation('invalid-options-accepted', f'a {typ} accepted {o}')
  for ident, ds in ((0, data), (1, both), (2, both)):
    marks[ident] = []
    ops += [{'op': 'add', 'id': ident, 'v': c['v'], 'n': c['n']} for c in ds]
    for t in tails:
      marks[ident].append(len(ops))
      t = dict(t, id=ident)
      if ident == 2:
        t['noise'] = {'mode': 'real'}
        t['seed'] = case['seed']
      ops.append(t)
  reps = goagg.run(ops)
  cov.step(len(ops))
  cov.probe(typ)
  for k, r in enumerate(reps):
    if r.get('panic'):
      raise Violation('panic', f'{ops[k]} with {o} panicked: {r["panic"]}')
    if r.get('err') and k >= skip and ops[k]['op'] == 'add':
      raise Violation('input-refused', f'{ops[k]} with {o}: {r["err"]}')
  cov.nontrivial = True
  cov.fault('neighbour-dataset')
  if case['history']:
    cov.probe('history')
    cov.fault('earlier-release', len(case['history']))
  if o['l0'] > 1000 or float(o['eps']) < 1e-5 or o['mc'] > 1000:
    cov.probe('extreme-options')
  if any(abs(float(v)) > 1e17 for v in vals):
    cov.probe('extreme-noise')
    cov.fault('extreme-noise-outcome')
  if typ in goagg.FLOATS:
    us = [float(u['v']) for u in unit]
    if any(math.isnan(v) for v in us):
      cov.probe('nan-unit')
      cov.fault('nan-input')
    if any(v < float(o['lo']) or v > float(o['hi']) for v in us):
      cov.probe('clamped-unit')
      cov.fault('out-of-bounds-input')
  ra, rb, rr = ([reps[k] for k in marks[i]] for i in (0, 1, 2))
  kind = 'g' if (rb[0].get('kind') or 'l')[0] == 'g' else 'l'
  if kind != ('g' if o['noise'] == 'g' else 'l') or len(set(rb[0].get('kind') or 'l')) > 1:
    raise Violation('wrong-mechanism', f'{typ} with noise {o["noise"]} uses {rb[0]["kind"]}')
  ca = [c for r in ra for c in r.get('calls') or []]
  cb = [c for r in rb for c in r.get('calls') or []]
  cov.trace([r.get('val') for r in ra], [(c['x'], c['out']) for c in cb],
            [bool(r.get('err')) for r in rr])
  if any(bool(r.get('err')) for r in ra + rb):
    if len({bool(r.get('err')) for r in ra + rb}) > 1 and len(ra) == 1:
      raise Violation('error-depends-on-data', f'{typ} {o}: {ra} and {rb}')
    if not case.get('thr'):  # a threshold may be impossible for the parameters
      raise Violation('release-failed', f'{typ} {o}: {[r.get("err") for r in ra + rb]}')
    return
  if len(ca) != len(cb):
    raise Violation('calls-depend-on-data',
                    f'{typ}: {len(ca)} noise calls for a dataset, {len(cb)} for its '
                    'neighbour under the same outcomes')
  if typ in goagg.STATS and len(cb) != goagg.STATS[typ]:
    raise Violation('not-once-per-statistic',
                    f'{typ}: {len(cb)} noise calls for {goagg.STATS[typ]} statistics')
  if [r.get('val') for r in ra] != [r.get('val') for r in rb]:
    raise Violation('value-not-noised',
                    f'{typ} {o}: the noised statistics agree, the releases '
                    f'{[r.get("val") for r in ra]} and {[r.get("val") for r in rb]} do not')
  _check_sensitivity(typ, kind, o, ca, cb)
  if [c['x'] for c in ca] == [c['x'] for c in cb]:
    cov.probe('no-effect-unit')
  loose = lenient(typ, o)
  for calls, ds in ((ca, data), (cb, both)) if not loose else ():
    if typ == 'quant':
      _check_nodes(o, ds, calls, case)
    else:
      _check_statistics(typ, o, ds, calls)
  for r in rb if not loose else ():
    _check_value(typ, o, case, cb, r['val'])
  if case.get('thr'):
    cov.probe('thresholded')
    c = cb[0]
    t = dpref.least_threshold(kind, o['l0'], float(c['linf']), float(o['eps']),
                        float(o['delta']), float(case['thr']))
    if t is not None and math.isfinite(t):
      out = _num(c, 'out')
      if c['m'] == 'i':
        out -= .5   # the noise was rounded: it may have been that much lower
      if out < t - .02 * abs(t - float(c['linf'])) - 1e-9 * abs(t):
        cov.probe('dropped-below-threshold')
        if rb[0]['val'] != ['nil']:
          raise Violation('threshold-too-low',
                          f'{typ} {o} thresholded with delta {case["thr"]} released '
                          f'{out}, below {t}')
  # the real mechanism is called the same way
  for r in rr:
    if r.get('err'):
      raise Violation('release-failed', f'{typ} {o} with real noise: {r["err"]}')
  real = [x for r in rr for x in r.get('real') or []
          if x['Method'].startswith('AddNoise')]
  cov.probe('real-mechanism')
  if typ in goagg.STATS and len(real) != len(cb):
    raise Violation('not-once-per-statistic',
                    f'{typ}: {len(real)} calls of the real mechanism instead of {len(cb)}')
  for i, x in enumerate(real):
    c = cb[i] if typ in goagg.STATS else cb[0]
    m = 'f' if 'Float' in x['Method'] else 'i'
    got = [float(v) for v in x['Args']]
    want = [float(c['x']), float(c['l0']), float(c['linf']), float(c['eps']),
            float(c['delta'])]
    if typ == 'quant':
      got, want = got[1:], want[1:]
    if m != c['m'] or not all(goagg.num_eq(a, b) for a, b in zip(got, want)):
      raise Violation('wrong-statistic',
                      f'{typ}: the real mechanism gets {x}, the simulated one {c}')
    if (x['Recv'] == 'gaussian') != (kind == 'g'):
      raise Violation('wrong-mechanism', f'{typ} with noise {o["noise"]} calls {x}')
  cov.state((typ, kind, o['l0'], o['mc'], o['lo'], o['hi'], o['eps'], len(data),
             tuple(u['v'] for u in unit), bool(case.get('thr')),
             tuple(str(r['val']) for r in rb)))


def _scale(case, cov):
  """The noise really drawn is as wide as the parameters require."""
  typ, o = case['type'], case['opt']
  cov.probe(typ)
  ops = []
  for k in range(SCALE_SEEDS):
    ops.append({'op': 'new', 'id': k, 'type': typ, 'opt': o})
  reps = goagg.run(ops[:1])
  if reps[0].get('panic'):
    raise Violation('panic', f'constructing a {typ} with {o} panicked')
  if reps[0].get('err'):
    cov.probe('scale-refused')
    cov.state((typ, 'scale-refused', tuple(sorted(o.items()))))
    return
  if not valid(typ, o):
    raise Violation('invalid-options-accepted', f'a {typ} accepted {o}')
  for k in range(SCALE_SEEDS):
    ops += [{'op': 'add', 'id': k, 'v': c['v'], 'n': c['n']} for c in case['data']]
    ops.append({'op': 'res', 'id': k, 'seed': case['seed'] + k,
                'noise': {'mode': 'real'}})
  reps = goagg.run(ops, timeout=120)
  outs = []
  for op, r in zip(ops, reps):
    if r.get('panic'):
      raise Violation('panic', f'{op} with {o} panicked: {r["panic"]}')
    if op['op'] == 'res':
      if r.get('err'):
        raise Violation('release-failed', f'{typ} {o}: {r["err"]}')
      outs.append(float(r['val'][0]) if typ == 'sumf' else int(r['val'][0]))
  cov.step(len(ops))
  x = next(iter(statistic(typ, o, case['data']).values()))[0]
  if typ == 'count':
    linf = 1.0
  else:
    linf = max(abs(float(o['lo'])), abs(float(o['hi'])))
  l0, eps = float(o['l0']), float(o['eps'])
  if o['noise'] == 'g':
    scale = dpref.true_sigma(l0, linf, eps, float(o['delta']))
    scale = 0 if scale is None else scale * .6745
  else:
    scale = l0 * linf / eps * math.log(2)
  noise = statistics.median(abs(v - x) for v in outs)
  cov.trace(noise)
  cov.nontrivial = True
  cov.fault('random-source-seeds', SCALE_SEEDS)
  cov.probe('scale')
  cov.state((typ, 'scale', tuple(sorted(o.items()))))
  if typ != 'sumf':
    if scale < 8 or scale > 2.0**100:  # such noise wraps around
      return
    scale = min(scale, 2.0**61)
  if noise < scale / 2:
    raise Violation('noise-too-small',
                    f'{typ} {o}: the median of {SCALE_SEEDS} noises is {noise}, the '
                    f'parameters require {scale}')


def _kept(o, n, unifs):
  """Which of the uniform draws keep a partition of n ids."""
  ops = []
  for k, u in enumerate(unifs):
    ops.append({'op': 'new', 'id': k, 'type': 'sel', 'opt': o})
    if n:
      ops.append({'op': 'add', 'id': k, 'v': '', 'n': n})
    ops.append({'op': 'res', 'id': k, 'unif': [repr(u)], 'seed': 7})
  reps = goagg.run(ops)
  for op, r in zip(ops, reps):
    if r.get('panic'):
      raise Violation('panic', f'selection {o} over {n} ids panicked: {r["panic"]}')
    if r.get('err'):
      return None
  return [r['val'] == ['true'] for op, r in zip(ops, reps) if op['op'] == 'res']


def _probability(o, n):
  """Keep probability, from the outcomes under chosen uniform draws."""
  grid = [0.0] + [2.0 ** -k for k in range(60, 0, -3)] + [math.nextafter(1.0, 0)]
  for _ in range(14):
    kept = _kept(o, n, grid)
    if kept is None:
      return None
    if not kept[0]:
      return 0.0
    if all(kept):
      return 1.0
    k = kept.index(False)
    lo, hi = grid[k - 1], grid[k]
    if hi - lo <= lo * 1e-13:
      break
    grid = sorted({lo + (hi - lo) * j / 16 for j in range(17)})
  return lo


def _sel(case, cov):
  o, n = case['opt'], case['n']
  cov.probe('sel')
  rep = goagg.run([{'op': 'new', 'id': 0, 'type': 'sel', 'opt': o}])[0]
  if rep.get('panic'):
    raise Violation('panic', f'constructing a selection with {o} panicked')
  if rep.get('err'):
    cov.probe('refused-options' if valid('sel', o) else 'invalid-options')
    cov.state(('sel', 'refused', tuple(sorted(o.items()))))
    return
  if not valid('sel', o):
    raise Violation('invalid-options-accepted', f'a selection accepted {o}')
  eps, delta, l0 = float(o['eps']), float(o['delta']), o['l0']
  pre = max(o['pre'], 1)
  cov.nontrivial = True
  cov.fault('neighbour-dataset')
  if l0 <= 3:
    cov.probe('select-optimal')
    p, q = _probability(o, n), _probability(o, n + 1)
    cov.trace(p, q)
    cov.step(100)
    cov.state(('sel', tuple(sorted(o.items())), n))
    if p is None or q is None:
      return  # refused: nothing is released
    e = eps / l0
    d = -math.expm1(math.log1p(-delta) / l0)
    grow = math.exp(min(e, 700))
    for a, b, top in ((q, p, q), (1 - p, 1 - q, 1), (p, q, q), (1 - q, 1 - p, 1)):
      b = max(b, 2.0 ** -53)   # probabilities saturate at 1
      # The probabilities were measured with a relative error of 1e-13.
      slack = 1e-9 * (d + a) + 1e-12 * (e < 1e-3) + (3e-13 * top + 1e-15) * (1 + grow)
      if a > grow * b + d + slack:
        raise Violation('selection-not-private',
                        f'{o}: kept with probability {p} over {n} ids and {q} over '
                        f'{n + 1}: more than epsilon {e} delta {d} per partition')
    for k, pk in ((n, p), (n + 1, q)):
      if k < pre and pk > 0:
        raise Violation('pre-threshold-ignored',
                        f'{o}: {k} ids were kept with probability {pk}')
    if n + 1 >= pre:
      cov.probe('pre-threshold')
    return
  cov.probe('select-gauss')
  ops = []
  for k in range(SCALE_SEEDS):
    ops.append({'op': 'new', 'id': k, 'type': 'sel', 'opt': o})
    m = pre if k else n          # a partition that just survives, many times
    if k == 1:
      m = n + 1
    if m:
      ops.append({'op': 'add', 'id': k, 'v': '', 'n': m})
    ops.append({'op': 'res', 'id': k, 'seed': case['seed'] + k})
  reps = goagg.run(ops, timeout=120)
  rel = [r for op, r in zip(ops, reps) if op['op'] == 'res']
  for r in reps:
    if r.get('panic'):
      raise Violation('panic', f'selection {o} panicked: {r["panic"]}')
  if any(r.get('err') for r in rel):
    return
  cov.step(len(ops))
  xs = {}
  for k, r in enumerate(rel):
    m = (n if k == 0 else n + 1 if k == 1 else pre)
    if m < pre and r['val'] == ['true']:
      raise Violation('pre-threshold-ignored', f'{o}: a partition of {m} ids was kept')
    adds = [x for x in r.get('real') or [] if x['Method'].startswith('AddNoise')]
    used = [x for x in adds if float(x['Args'][0]) != 0]
    if m < pre:
      continue
    if len(used) != 1 or len(adds) > 2:
      raise Violation('not-once-per-statistic', f'{o} over {m} ids: {r.get("real")}')
    a = [float(v) for v in used[0]['Args']]
    thr = [x for x in r['real'] if x['Method'] == 'Threshold']
    if len(thr) != 1:
      raise Violation('not-once-per-statistic', f'{o} over {m} ids: {r.get("real")}')
    t = [float(v) for v in thr[0]['Args']]
    if m == pre and a[0] > a[2] * (1 + TINY):
      raise Violation('selection-not-private',
                      f'{o}: the smallest partition counts {a[0]}, more than one unit')
    if a[1] < l0 * (1 - TINY) or a[2] < 1 or t[0] < l0 * (1 - TINY) or t[1] < 1:
      raise Violation('sensitivity-too-small', f'{o}: {used[0]} {thr[0]}')
    if max(a[3], t[2]) > eps * (1 + TINY) or a[4] + t[4] > delta * (1 + TINY) or (
        t[3] > a[4] * (1 + TINY)) or t[2] > a[3] * (1 + TINY):
      raise Violation('budget-exceeded', f'{o}: {used[0]} {thr[0]}')
    xs[k] = a[0]
  if 0 in xs and 1 in xs and n < 2**50 and abs(xs[1] - xs[0]) > 1 + TINY:
    raise Violation('sensitivity-too-small', f'{o}: one id changes the count from '
                    f'{xs[0]} to {xs[1]}')
  kept = sum(r['val'] == ['true'] for r in rel[2:])
  cov.fault('random-source-seeds', SCALE_SEEDS)
  cov.trace(kept)
  cov.state(('sel', tuple(sorted(o.items())), n))
  d = -math.expm1(math.log1p(-delta) / l0)
  if stats.binom.sf(kept - 1, SCALE_SEEDS - 2, d) < 1e-12:
    raise Violation('selection-not-private',
                    f'{o}: partitions of {pre} ids were kept {kept} times of '
                    f'{SCALE_SEEDS - 2}, with probability at most {d}')


def execute(case, cov):
  {'agg': _agg, 'scale': _scale, 'sel': _sel}[case['mode']](case, cov)
