"""Shared parts of the Go aggregation checks: options, inputs, references."""
import math

from sim import gosim
from sim.core import Violation

TYPES = ['count', 'sumi', 'sumf', 'mean', 'var', 'std', 'quant', 'sel']
FLOATS = ('sumf', 'mean', 'var', 'std', 'quant')
STATS = {'count': 1, 'sumi': 1, 'sumf': 1, 'mean': 2, 'var': 3, 'std': 3}


def opt(rng, typ, tame=True):
  """Options that the constructor accepts."""
  noise = rng.choice(['l', 'l', 'd', 'g', 'g'])
  o = {'eps': str(rng.choice([0.1, 0.5, 1.0, 1.1, 2.0, math.log(3)])),
       'delta': str(rng.choice([1e-5, 1e-3, 0.01, 0.25])) if noise == 'g' else '0',
       'l0': rng.choice([1, 1, 2, 3, 5]), 'mc': rng.choice([1, 1, 2, 3]),
       'lo': '0', 'hi': '0', 'h': 0, 'b': 0, 'pre': 0, 'noise': noise}
  if typ == 'sumi':
    lo = rng.choice([0, 0, -3, -10, 2, -7])
    hi = lo + rng.choice([1, 4, 10, 25, 1000])
    o['lo'], o['hi'] = str(lo), str(hi)
  elif typ in FLOATS:
    lo = rng.choice([0.0, 0.0, -1.0, -4.5, 2.0, -10.0, -8.0])
    hi = lo + rng.choice([1.0, 2.0, 8.0, 10.0, 64.0])
    if lo == 0 and hi == 0:
      hi = 1.0
    o['lo'], o['hi'] = str(lo), str(hi)
  if typ == 'quant':
    o['h'] = rng.choice([1, 2, 2, 3])
    o['b'] = rng.choice([2, 2, 3, 4, 5])
    if rng.random() < .1:
      o['h'] = o['b'] = 0
  if typ == 'sel':
    o['noise'] = 'l'
    o['delta'] = str(rng.choice([1e-5, 1e-3, 0.05, 0.4]))
    o['pre'] = rng.choice([0, 0, 1, 2, 3, 5])
  return o


def different(rng, typ, o):
  """The same options with one parameter changed so that merging is illegal."""
  c = dict(o)
  keys = ['eps', 'l0']
  if typ in ('mean', 'var', 'std', 'quant'):
    keys += ['mc']
  if typ in FLOATS or typ == 'sumi':
    keys += ['lo', 'hi', 'lo', 'hi']
  if typ == 'quant':
    keys += ['h', 'b']
  if typ == 'sel':
    keys += ['pre', 'delta', 'pre']
  else:
    keys += ['noise', 'delta']
  while True:
    k = rng.choice(keys)
    if k == 'eps':
      c['eps'] = str(float(o['eps']) * rng.choice([0.5, 2, 1.25]))
    elif k == 'delta':
      if o['noise'] != 'g' and typ != 'sel':
        continue
      c['delta'] = str(float(o['delta']) * 0.5)
    elif k in ('l0', 'mc'):
      c[k] = o[k] + rng.choice([1, 2])
    elif k == 'lo':
      if typ == 'sumi':
        c['lo'] = str(int(o['lo']) - rng.choice([1, 2]))
      else:
        c['lo'] = str(float(o['lo']) - rng.choice([1.0, 0.5]))
    elif k == 'hi':
      if typ == 'sumi':
        c['hi'] = str(int(o['hi']) + rng.choice([1, 2]))
      else:
        c['hi'] = str(float(o['hi']) + rng.choice([1.0, 0.5]))
    elif k == 'noise':
      if o['noise'] == 'g':
        c['noise'], c['delta'] = 'l', '0'
      else:
        c['noise'], c['delta'] = 'g', '0.001'
    elif k == 'h':
      c['h'] = (o['h'] or 4) + 1 if (o['h'] or 4) < 4 else 2
    elif k == 'b':
      c['b'] = (o['b'] or 16) + 1
    elif k == 'pre':
      c['pre'] = max(o['pre'], 1) + 1
    return c


def value(rng, typ, o):
  """One contribution: values exact in binary so that sums are exact."""
  if typ in ('count', 'sel'):
    return {'v': '', 'n': rng.choice([1, 1, 1, 2, 3, 10])}
  if typ == 'sumi':
    lo, hi = int(o['lo']), int(o['hi'])
    v = rng.choice([lo, hi, rng.randint(lo, hi), rng.randint(lo, hi),
                    lo - 5, hi + 7, 10**12, -10**12, 0])
    return {'v': str(v), 'n': 1}
  lo, hi = float(o['lo']), float(o['hi'])
  inside = lo + (hi - lo) * rng.randint(0, 16) / 16
  v = rng.choice([lo, hi, inside, inside, inside, lo - 3, hi + 5, math.inf,
                  -math.inf, math.nan, 0.0])
  return {'v': repr(v), 'n': rng.choice([1, 1, 1, 2])}


def noise_vals(rng, typ):
  n = rng.choice([1, 3, 7])
  if typ == 'quant':
    n = rng.choice([1, 5, 11])
  pool = [0, 0, 1, -1, 2, -3, 10, -10, 50]
  return [str(rng.choice(pool) if rng.random() < .6 else rng.randint(-40, 40) / 4)
          for _ in range(n)]


def keep_probability(n, o):
  """Optimal keep probability by its defining recurrence (Desfontaines et al.)."""
  eps = float(o['eps']) / o['l0']
  delta = float(o['delta']) / o['l0']
  n -= max(o['pre'], 1) - 1
  p = 0.0
  for _ in range(max(0, min(n, 5000))):
    p = min(math.exp(eps) * p + delta, 1 - math.exp(-eps) * (1 - p - delta), 1.0)
  return p


def release(rng, typ, o, total):
  """A release operation (without an id)."""
  op = {'op': 'res', 'noise': {'mode': 'add', 'vals': noise_vals(rng, typ)}}
  if typ in ('count', 'sumi', 'sumf') and rng.random() < .35:
    op['how'] = 'thr'
    op['arg'] = str(rng.choice([1e-5, 0.01, 0.3]))
    if typ == 'count' and rng.random() < .5:
      op['how'] = 'pre'
      op['arg2'] = str(rng.choice([0, 1, 2, total, total + 1, max(0, total - 1)]))
  if typ == 'var' and rng.random() < .5:
    op['how'] = 'full'
  if typ == 'quant':
    op['arg'] = str(rng.choice([0.0, 0.25, 0.5, 0.75, 0.9, 1.0]))
  if typ == 'sel':
    op['seed'] = rng.randrange(1, 1 << 40)
    if o['l0'] <= 3:
      p = keep_probability(total, o)
      op['unif'] = [repr(p * rng.choice([1 - 1e-6, 1 + 1e-6, .5]) if rng.random() < .8
                         else rng.random())]
  return op


def run(ops, timeout=60):
  try:
    return gosim.call({'cmd': 'agg', 'ops': ops}, timeout=timeout)['reps']
  except gosim.Crash as e:
    raise Violation('crash', f'the library brought the process down: {e}')


def num_eq(a, b):
  if a == b:
    return True
  try:
    x, y = float(a), float(b)
  except ValueError:
    return False
  return x == y or (math.isnan(x) and math.isnan(y))


def same_call(a, b):
  return (a['m'] == b['m'] and a['l0'] == b['l0'] and
          all(num_eq(a[k], b[k]) for k in ('x', 'linf', 'eps', 'delta')) and
          num_eq(a.get('out') or 'nan', b.get('out') or 'nan') and
          a.get('err') == b.get('err'))


def same_release(got, ref):
  """None, or what differs between two release replies."""
  if bool(got.get('err')) != bool(ref.get('err')) or got.get('panic') != ref.get('panic'):
    return f"error {got.get('err')!r} {got.get('panic')!r} instead of {ref.get('err')!r}"
  if got.get('kind') != ref.get('kind'):
    return f"noise kind {got.get('kind')} instead of {ref.get('kind')}"
  ca, cb = got.get('calls') or [], ref.get('calls') or []
  if len(ca) != len(cb):
    return f'{len(ca)} noise calls instead of {len(cb)}'
  for i, (a, b) in enumerate(zip(ca, cb)):
    if not same_call(a, b):
      return f'noise call {i} is {a} instead of {b}'
  ra, rb = got.get('real') or [], ref.get('real') or []
  if [(x['Recv'], x['Method'], x['Args']) for x in ra] != [
      (x['Recv'], x['Method'], x['Args']) for x in rb]:
    return f'noise mechanism called with {ra} instead of {rb}'
  va, vb = got.get('val') or [], ref.get('val') or []
  if len(va) != len(vb) or not all(num_eq(a, b) for a, b in zip(va, vb)):
    return f'result {va} instead of {vb}'
  if got.get('unif') != ref.get('unif'):
    return f"{got.get('unif')} uniform draws instead of {ref.get('unif')}"
  return None


def reference(typ, o, ledger, tail):
  """Replies of `tail` (ids are overwritten) on one unsharded aggregator."""
  ops = [{'op': 'new', 'id': 0, 'type': typ, 'opt': o}]
  for c in ledger:
    ops.append({'op': 'add', 'id': 0, 'v': c['v'], 'n': c['n']})
  n = len(ops)
  for t in tail:
    ops.append(dict(t, id=0))
  reps = run(ops)
  for r in reps[:n]:
    if r.get('err') or r.get('panic'):
      raise Violation('legal-operation-failed',
                      f'an unsharded {typ} refused its input: {r}')
  return reps[n:]
