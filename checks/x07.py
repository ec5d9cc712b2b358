"""X07: C++ results are the statistics of the entries when the noise is zero."""
import math
from fractions import Fraction as F

from scipy import stats

from sim import ccgen
from sim import intervals
from sim.core import Violation

ID = 'X07'
RULE = ('entries were added in pieces, alone and in runs of equal ones, some through merged '
        'summaries, and the release under planned noise was compared with the statistic of '
        'the clamped entries computed by a reference')
REAL = ['cc/algorithms', 'cc/base', 'cc/proto', 'third_party/cephes']
STUB = ['noise values (planned by the simulator)', 'absl logging']
ASSUMPTIONS = ['entries are small enough for nearly exact sums',
               'quantiles and order statistics are compared up to the resolution and the '
               'documented slack of their search']
RUNS = {'quick': 20000, 'thorough': 2000000}
BUDGET = {'quick': 75, 'thorough': 1500}
SHRINK_LISTS = ('parts', 'plan')
STATE_MEASURE = 'distinct (algorithm, type, parameters, number of entries)'
PROBES = (['kind-' + k for k in ccgen.KINDS] +
          ['auto', 'no-bounds', 'empty', 'merged', 'clamped', 'nan', 'noised', 'report',
           'outside', 'interval', 'mean-interval', 'many'])

prepare = ccgen.prepare


def generate(rng, tier):
  c = ccgen.config(rng)
  kv = c['kv']
  if c.get('approx'):
    kv['ab_bins'] = kv.get('ab_bins', rng.choice([2, 3, 5, 8]))
    kv.setdefault('ab_scale', 1)
    kv.setdefault('ab_base', 2)
    if c['kind'] != 'approx':
      kv.setdefault('ab_eps', kv['eps'] / 2)
    kv['ab_threshold'] = rng.choice([.5, 1.5, 2.5, 7.5])
  if c['kind'] in ccgen.ORDER:
    kv['eps'] = rng.choice([.5, 3, 60, 1000])
  parts = []
  for _ in range(rng.choice([0, 1, 1, 2, 3])):
    how = rng.choice(['add', 'add', 'add', 'merge'])
    parts.append([how, ccgen.entries(rng, c, rng.choice([1, 2, 5, 9, 40]))])
  # Noise only where the result is an easy function of the noised values.
  noisy = c['kind'] in ('count', 'sum', 'mean') and not c.get('approx') and rng.random() < .4
  plan = ([rng.randint(-12, 12) / (1 if c['t'] != 'd' else 4) for _ in range(2)]
          if noisy else [])
  if plan and c['kind'] == 'mean' and rng.random() < .6:
    plan = [rng.choice([300, 5000, 10**6]), rng.choice([-1, 1]) * rng.choice([20, 800, 2**20])]
  return {'cfg': c, 'parts': parts, 'plan': plan, 'level': rng.choice([.5, .9, .95])}


def _round(x):
  return int(math.copysign(math.floor(abs(x) + .5), x))


def _f(x):
  return float(x)


class Bins:
  """The logarithmic histogram of the automatic bounds."""

  def __init__(self, kv, whole):
    self.edges = [F(kv['ab_scale']) * F(kv['ab_base']) ** i for i in range(kv['ab_bins'])]
    self.pos = [0] * len(self.edges)
    self.neg = [0] * len(self.edges)

  def index(self, x):
    for i, e in enumerate(self.edges):
      if abs(x) <= e:
        return i
    return len(self.edges) - 1

  def add(self, x):
    (self.pos if x >= 0 else self.neg)[self.index(x)] += 1

  def bounds(self, t):
    n = len(self.edges)
    left = lambda i: self.edges[i - 1] if i else F(0)
    lows = [-self.edges[i] for i in range(n - 1, -1, -1) if self.neg[i] >= t]
    lows += [left(i) for i in range(n) if self.pos[i] >= t]
    highs = [self.edges[i] for i in range(n - 1, -1, -1) if self.pos[i] >= t]
    highs += [-left(i) for i in range(n) if self.neg[i] >= t]
    return (lows[0], highs[0]) if lows and highs else None


def _near(a, b, rel=1e-9, scale=1.0):
  return abs(a - b) <= rel * (abs(a) + abs(b) + scale)


def execute(case, cov):
  c = case['cfg']
  kind, kv, t = c['kind'], c['kv'], c['t']
  lines = [ccgen.new(c, 'a')]
  vals = []
  for k, (how, part) in enumerate(case['parts']):
    if how == 'merge':
      lines += [ccgen.new(c, f'b{k}'), ccgen.add(f'b{k}', part), f'ser b{k} s{k}',
                f'merge a s{k}']
      cov.probe('merged')
    else:
      lines.append(ccgen.add('a', part))
    vals += part
  lines += [ccgen.planned(case['plan']), f'result a {case["level"]}']
  out, dead = ccgen.run(lines)
  if dead:
    raise Violation('crash', f'the process ended ({dead}) at {lines[dead.done]!r}')
  if any('err' in r for r in out[:-1]):
    raise Violation('refused', f'{lines}: {[r for r in out if "err" in r][0]}')
  rep = out[-1]
  cov.trace(rep)
  cov.step(len(vals))
  cov.state((kind, t, sorted(kv.items()), len(vals)))
  cov.probe('kind-' + kind)
  what = f'{kind} over {t}, {kv}, of {vals}'
  if any(v == 'nan' for v in vals):
    cov.probe('nan')
  n_all = len(vals)
  vals = [v for v in vals if v != 'nan']
  n = len(vals)
  if not n:
    cov.probe('empty')
  if n > 30:
    cov.probe('many')
  cov.nontrivial = True
  noise = ccgen.noises(rep)
  if case['plan'] and noise:
    cov.probe('noised')
  d = [float(x) for x in case['plan']] + [0.0] * 4
  ints = t != 'd'
  big = F(10) ** 400
  xs = [big if v == 'inf' else -big if v == '-inf' else F(v) for v in vals]
  lo = hi = None
  if 'lower' in kv:
    lo, hi = F(kv['lower']), F(kv['upper'])
  if c.get('approx'):
    cov.probe('auto')
    bins = Bins(kv, ints)
    for x in xs:
      bins.add(x)
    found = bins.bounds(kv['ab_threshold'])
    if found is None:
      cov.probe('no-bounds')
      if 'err' not in rep:
        raise Violation('bounds', f'{what}: no bin reaches the threshold and the result is '
                        f'{rep["el"]}')
      return
    lo, hi = found
    if kind == 'approx':
      if 'err' in rep or [_f(e['v']) for e in rep['el']] != [float(lo), float(hi)]:
        raise Violation('bounds', f'{what}: {rep.get("el", rep.get("err"))}, not '
                        f'{[float(lo), float(hi)]}')
      return
    if kind == 'sum':
      lo, hi = min(lo, -hi), max(hi, -lo)
    if lo == hi:
      return
  if 'err' in rep:
    raise Violation('refused', f'{what}: {rep["err"]}')
  if c.get('approx'):
    _report(what, rep, bins, lo, hi, n, cov)
  el = rep['el']
  v = [_f(e['v']) for e in el]
  if kind == 'count':
    _same(what, v[0], n_all + _round(d[0]), 0)
    _interval(what, rep, el, case['level'], out[0], kv, cov)
    return
  cs = [min(max(x, lo), hi) for x in xs]
  if cs != xs:
    cov.probe('clamped')
  size = float(max(abs(lo), abs(hi)))
  if kind == 'sum':
    want = sum(cs) + (_round(d[0]) if ints else F(d[0]))
    _same(what, v[0], want, size * (n + 1))
    if not c.get('approx'):
      _interval(what, rep, el, case['level'], out[0], kv, cov)
    return
  mid = (lo + hi) / 2
  if kind == 'mean':
    count, total = _mean(what, v[0], cs, lo, hi, noise, d, c, size)
    _mean_interval(what, out, rep, el, case['level'], count, total, float(lo), float(hi), cov)
  elif kind in ('var', 'std'):
    m = max(1, n)
    # The sums are taken about the midpoint of the clamped values' ranges.
    mean = sum(cs) / m if n else F(0)
    var = (sum(x * x for x in cs) / m - mean * mean) if n else F(0)
    var = min(max(var, F(0)), (hi - lo) ** 2 / 4)
    if n <= 1:   # a count of one or less stands for no data
      return _empty(what, v[0], lo, hi, kind)
    if kind == 'var':
      _same(what, v[0], var, size ** 2 * 4, 1e-9)
    else:
      if abs(v[0] ** 2 - float(var)) > 1e-8 * (size ** 2 * 4 + 1):
        raise Violation('statistic', f'{what}: {v[0]!r}, not {math.sqrt(var)!r}')
  elif kind == 'quant':
    qs = [float(q) for q in str(kv['q']).split(',')]
    if len(v) != len(qs):
      raise Violation('statistic', f'{what}: {len(v)} results')
    # Height 4 and branching factor 16 by default.
    # An entry may be filed one leaf off.
    width = 2 * float(hi - lo) / 16 ** 4 * (1 + 1e-6)
    for q, got in zip(qs, v):
      _rank(what, sorted(map(float, cs)), min(max(q, .005), .995), got, width,
            0.0, .035 * n, q)
  else:
    _order(what, kind, kv, sorted(map(float, cs)), v[0], float(lo), float(hi), ints)


def _same(what, got, want, size, rel=1e-10):
  if abs(got - float(want)) > rel * (abs(float(want)) + size) + 1e-12:
    raise Violation('statistic', f'{what}: {got!r}, not {float(want)!r}')


def _mean(what, got, cs, lo, hi, noise, d, c, size):
  n = len(cs)
  mid = (lo + hi) / 2
  # The count is noised first where its input is the count.
  ins = [_f(e['in']) for e in noise][-2:]
  outs = [_f(e['out']) for e in noise][-2:]
  if len(ins) < 2:
    raise Violation('statistic', f'{what}: {len(ins)} values noised')
  norm = float(sum(cs) - n * mid)
  options = []
  for k in (0, 1):
    if abs(ins[k] - n) < 1e-9 and abs(ins[1 - k] - norm) <= 1e-9 * (size * (n + 1) + 1):
      options.append((outs[k], outs[1 - k]))
  if not options:
    raise Violation('statistic', f'{what}: the values noised are {ins}, not the count {n} '
                    f'and the sum about the midpoint {norm!r}')
  for count, total in options:
    want = min(max(total / max(count, 1.0) + float(mid), float(lo)), float(hi))
    if abs(got - want) <= 1e-9 * (size + abs(want) + 1):
      return count, total
  else:
    raise Violation('statistic', f'{what}: {got!r} from count {options[0][0]} and '
                    f'normalised sum {options[0][1]}, not {want!r}')


def _empty(what, got, lo, hi, kind):
  """The spread of nothing: only the range is promised."""
  top = float((hi - lo) ** 2 / 4)
  top = math.sqrt(top) if kind == 'std' else top
  if not -1e-9 <= got <= top * (1 + 1e-9):
    raise Violation('range', f'{what}: {got!r} is not in [0, {top}]')


def _rank(what, cs, q, got, width, slack, ranks, q0):
  """`got` is a q-quantile of cs, up to `width` and `ranks` ranks."""
  n = len(cs)
  if not n:
    return
  below = sum(x < got - width for x in cs)
  upto = sum(x <= got + width for x in cs)
  if below > q * n + ranks + 1e-9 or upto < q * n - ranks - 1e-9:
    raise Violation('statistic', f'{what}: {got!r} as the {q0} quantile has {below} entries '
                    f'below and {n - upto} above')


def _order(what, kind, kv, cs, got, lo, hi, ints):
  n = len(cs)
  if not lo - 1e-9 <= got <= hi + 1e-9:
    raise Violation('range', f'{what}: {got!r} is outside its bounds')
  if kv['eps'] / (kv.get('l0', 1) * kv.get('linf', 1)) < 50 or not n:
    return
  p = {'max': 1.0, 'min': 0.0, 'median': .5}.get(kind, kv.get('p'))
  width = .02 * (hi - lo) + (1 if ints else 0)
  _rank(what, cs, p, got, width, 0.0, 1 + max(.14 * n, 2) if p in (0, 1, 0.0, 1.0) else
        .02 * n + 1, p)


def _interval(what, rep, el, level, made, kv, cov):
  """Count and sum: the interval of the noise of the mechanism built."""
  if 'ci' not in el[0] or kv.get('noise') == 'gauss':
    return
  builds = [e for r in (made, rep) for e in r.get('ev', ()) if e['e'] == 'build']
  if not builds:
    return
  b = math.sqrt(_f(builds[-1]['var']) / 2)
  want = -b * math.log(1 - level)
  lo, hi, conf = map(_f, el[0]['ci'])
  cov.probe('interval')
  # Around zero or around the result, but of this width.
  if not _near(hi - lo, 2 * want, 1e-6) or conf != level:
    raise Violation('interval', f'{what}: [{lo}, {hi}] at {conf}, the noise needs '
                    f'+-{want}')


def _mean_interval(what, out, rep, el, level, count, total, lo, hi, cov):
  builds = {e['m']: e for r in out for e in r.get('ev', ()) if e['e'] == 'build'}
  noise = ccgen.noises(rep)[-2:]
  if 'ci' not in el[0] or any(e['m'] not in builds for e in noise):
    return
  if _f(noise[0]['out']) != count:
    noise = noise[::-1]
  halves = [_half(b['kind'], _f(b['var'])) for b in (builds[e['m']] for e in noise)]
  a, b, conf = map(_f, el[0]['ci'])
  if conf != level or not lo <= a <= b <= hi:
    raise Violation('interval', f'{what}: [{a}, {b}] at {conf}')
  cov.probe('mean-interval')
  intervals.mean(what, lo, hi, max(count, 1.0), total, halves[0], halves[1], 1 - level, (a, b),
                 0.0)


def _half(kind, var):
  def f(alpha):
    if kind == 'laplace':
      z = -math.sqrt(var / 2) * math.log(alpha)
    else:
      z = math.sqrt(var) * stats.norm.isf(alpha / 2)
    return z * (1 - 1e-6), z * (1 + 1e-6)
  return f


def _report(what, rep, bins, lo, hi, n, cov):
  text = rep.get('report')
  if not text:
    return
  words = text.replace('{', ' ').replace('}', ' ').split()
  nums = {}
  key = None
  for w in words:
    if w.endswith(':'):
      if w not in ('float_value:', 'int_value:'):
        key = w[:-1]
    elif w in ('lower_bound', 'upper_bound'):
      key = w
    elif w != 'bounding_report':
      nums[key] = float(w)
  cov.probe('report')
  if nums.get('lower_bound', 0) != float(lo) or nums.get('upper_bound', 0) != float(hi):
    raise Violation('report', f'{what}: {text}; the bounds are {float(lo)}, {float(hi)}')
  if nums.get('num_inputs', n) != n:
    raise Violation('report', f'{what}: {text}; there are {n} entries')
  left = lambda i: bins.edges[i - 1] if i else F(0)
  out = sum(k for i, k in enumerate(bins.pos) if left(i) >= hi or bins.edges[i] <= lo)
  out += sum(k for i, k in enumerate(bins.neg) if -left(i) <= lo or -bins.edges[i] >= hi)
  if out:
    cov.probe('outside')
  if 'num_outside' in nums and nums['num_outside'] != out:
    raise Violation('report', f'{what}: {text}; {out} entries are outside')
