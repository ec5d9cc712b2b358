"""Shared parts of the Java aggregation checks: options, inputs, programs."""
import math

from sim import goagg
from sim import jvsim

TYPES = ['count', 'sumi', 'sumf', 'mean', 'var', 'quant', 'approx', 'sel']
FLOATS = ('sumf', 'mean', 'var', 'quant')
INPUTS = ['INTEGER', 'POSITIVE_INTEGER', 'DOUBLE']
KEYS = {'count': ['eps', 'delta', 'l0', 'noise'],
        'sumi': ['eps', 'delta', 'l0', 'noise', 'lo', 'hi'],
        'sumf': ['eps', 'delta', 'l0', 'noise', 'lo', 'hi'],
        'mean': ['eps', 'delta', 'l0', 'noise', 'lo', 'hi', 'mc'],
        'var': ['eps', 'delta', 'l0', 'noise', 'lo', 'hi', 'mc'],
        'quant': ['eps', 'delta', 'l0', 'noise', 'lo', 'hi', 'mc', 'h', 'b'],
        'approx': ['eps', 'mc', 'input'],
        'sel': ['eps', 'delta', 'l0', 'pre']}


def opt(rng, typ, discrete=True):
  """Options that the builder accepts."""
  if typ == 'approx':
    return {'eps': str(rng.choice([.1, .5, 1.0, 1.1, math.log(3)])),
            'mc': rng.choice([1, 1, 2, 5]), 'input': rng.choice(INPUTS[:2] * 3 + INPUTS)}
  o = goagg.opt(rng, typ)
  if typ == 'sel':
    o['pre'] = max(o['pre'], 1)
    o['l0'] = rng.choice([1, 1, 2, 3, 5])
  elif o['noise'] == 'd' and (typ not in ('count', 'sumi') or not discrete):
    o['noise'] = 'l'
  if typ == 'quant' and not o['h']:
    o['h'], o['b'] = 4, 16
  return {k: o[k] for k in KEYS[typ]}


def different(rng, typ, o):
  """The same options with one parameter changed so that merging is illegal."""
  if typ == 'approx':
    return dict(o, input=rng.choice([t for t in INPUTS if t != o['input']]))
  full = dict({'mc': 1, 'lo': '0', 'hi': '1', 'h': 2, 'b': 2, 'pre': 1, 'noise': 'l'}, **o)
  while True:
    c = goagg.different(rng, typ, full)
    c = {k: c[k] for k in KEYS[typ]}
    if c != o:
      return c


def value(rng, typ, o):
  if typ == 'approx':
    v = rng.choice([0.0, 1.0, -1.0, 3.0, 2.0 ** rng.randint(-40, 40), 1e9, -5.0, .3,
                    -2.0 ** rng.randint(-40, 40), math.inf, -math.inf, math.nan, 5e-324,
                    1.7e308, -1e200])
    return {'v': repr(v), 'n': rng.choice([1, 1, 40, 120])}
  return goagg.value(rng, typ, o)


def _text(v):
  return v if isinstance(v, str) else repr(v)


def java(op):
  """The operation as the driver reads it."""
  op = dict(op)
  if 'opt' in op:
    op['opt'] = {k: _text(v) for k, v in op['opt'].items()}
  for k in ('n', 'seed', 'id', 'slot', 'with', 'drop', 'swap', 'flip'):
    if k in op:
      op[k] = str(op[k])
  return op


def add(ident, c):
  return {'op': 'add', 'id': ident, 'v': c['v'], 'n': c['n']}


def adds(ident, cs):
  """The same contributions in one collection."""
  return {'op': 'adds', 'id': ident, 'vs': [c['v'] for c in cs for _ in range(c['n'])]}


def _val(v):
  return str(v).lower() if isinstance(v, bool) else str(v)


def run(ops, timeout=60, seed=1):
  reps, faults = jvsim.run([java(o) for o in ops], seed, timeout)
  for r in reps:
    if 'val' in r:
      r['val'] = [_val(v) for v in r['val']]
  return reps, faults


def release(rng, typ, o, noise=True):
  """A release operation (without an id)."""
  op = {'op': 'res'}
  if typ in ('approx', 'sel'):
    op['seed'] = rng.randrange(1, 1 << 40)
    if typ == 'sel' and o['l0'] <= 3:
      op['unif'] = [repr(rng.choice([rng.random(), 0.0, .5, 1e-6, .999999]))]
    if typ == 'approx' and rng.random() < .7:
      op['always'] = repr(rng.choice([.5, .5, .9, .1]))
    return op
  if noise:
    op['noise'] = {'mode': 'add', 'vals': goagg.noise_vals(rng, typ)}
  if typ == 'count' and o['noise'] in 'lg' and rng.random() < .35:
    op['how'] = 'thr'
    op['arg'] = str(rng.choice([1e-5, .01, .3]))
  if typ == 'quant':
    op['arg'] = str(rng.choice([0.0, .25, .5, .75, .9, 1.0]))
  return op


def spread(rng, cs):
  """The same contributions split and in another order."""
  flat = []
  for c in cs:
    n = c['n']
    while n > 1 and rng.random() < .5:
      k = rng.randint(1, n - 1)
      flat.append(dict(c, n=k))
      n -= k
    flat.append(dict(c, n=n))
  rng.shuffle(flat)
  return flat
