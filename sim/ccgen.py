"""Configurations, entries and noise plans for the C++ simulations."""
from sim import ccsim

KINDS = ['count', 'sum', 'mean', 'var', 'std', 'quant', 'approx', 'max', 'min',
         'median', 'percentile']
ORDER = ('max', 'min', 'median', 'percentile')


def config(rng, kinds=None, gauss=True):
  """One algorithm and its parameters, as the words of a `new` command."""
  kind = rng.choice(kinds or KINDS)
  t = rng.choice(['i', 'l', 'd', 'd'])
  kv = {'eps': rng.choice([.1, .5, 1, 1.0986122886681098, 3])}
  c = {'kind': kind, 't': t, 'kv': kv}
  if rng.random() < .7:
    kv['l0'] = rng.choice([1, 2, 3, 5, 5, 2, 3, 1, 1, rng.choice([
        1 << 30, (1 << 31) - 1, 715827883, 1000000007])])
  if rng.random() < .7:
    kv['linf'] = rng.choice([1, 1, 2, 3])
  bounded = kind != 'count' and kind != 'approx'
  if bounded:
    if t == 'd':
      lo = rng.choice([-8, -1.5, -1, 0, 0, .25, 3, -1024])
      kv['lower'] = lo
      kv['upper'] = lo + rng.choice([.5, 1, 1.5, 3, 8, 1024])
    else:
      lo = rng.choice([-7, -2, -1, 0, 0, 1, 3, -100])
      kv['lower'] = lo
      kv['upper'] = lo + rng.choice([1, 1, 2, 3, 5, 8, 101])
  can = kind in ('sum', 'mean', 'var', 'std') and rng.random() < .4
  if can or kind == 'approx':
    for k in ('lower', 'upper'):
      kv.pop(k, None)
    c['approx'] = True
    if kind == 'approx' or rng.random() < .6:
      if kind != 'approx':
        kv['ab_eps'] = kv['eps'] * rng.choice([.25, .5])
      kv['ab_bins'] = rng.choice([2, 3, 5, 8])
      kv['ab_scale'] = rng.choice([.25, 1, 2]) if t == 'd' else rng.choice([1, 2])
      kv['ab_base'] = rng.choice([2, 2, 4])
      if rng.random() < .7:
        kv['ab_threshold'] = rng.choice([.5, 1.5, 2.5])
    elif t == 'd':   # two thousand bins otherwise
      c['t'] = rng.choice(['i', 'l'])
  if kind == 'quant':
    kv['q'] = ','.join(str(x) for x in rng.sample([0, .1, .25, .5, .75, .9, 1],
                                                  rng.randint(1, 4)))
  if kind == 'percentile':
    kv['p'] = rng.choice([0, .1, .25, .5, .9, 1])
  if (gauss and kind in ('count', 'sum', 'mean', 'quant') and not c.get('approx') and
      rng.random() < .35):
    kv['noise'] = 'gauss'
    kv['delta'] = rng.choice([1e-9, 1e-5, .01])
  return c


def new(c, name, **more):
  kv = dict(c['kv'], **more)
  return f'new {name} {c["kind"]} {c["t"]} ' + ' '.join(f'{k}={v}' for k, v in kv.items())


def entry(rng, c):
  if c['t'] == 'd':
    if rng.random() < .04:
      return 'nan'
    if c['kind'] in ('sum', 'mean', 'var', 'std', 'quant') and not c.get('approx') and (
        rng.random() < .03):
      return rng.choice(['inf', '-inf'])
  kv = c['kv']
  lo, hi = kv.get('lower', -20), kv.get('upper', 20)
  r = rng.random()
  if r < .25:
    return rng.choice([lo, hi])
  if r < .35:
    return rng.choice([lo - 1, hi + 1, hi + 1000, lo - 1000, 0, 0])
  if c['t'] == 'd':
    return lo + (hi - lo) * rng.randrange(0, 65) / 64
  return rng.randint(int(lo), int(hi))


def entries(rng, c, n):
  r = rng.random()
  if r < .25:   # few distinct values, so that bins fill up
    pool = [entry(rng, c) for _ in range(2)]
    return [rng.choice(pool) for _ in range(n)]
  return [entry(rng, c) for _ in range(n)]


def plan(rng, n=60):
  """Dyadic noise, mostly small."""
  r = rng.random()
  if r < .2:
    return []
  size = rng.choice([1, 1, 4, 32])
  return [rng.randint(-8, 8) * size / 8 if rng.random() < .8 else 0 for _ in range(n)]


def whole(rng, n=60):
  return [rng.randint(-3, 3) for _ in range(n)]


def add(name, vals, op='add'):
  return f'{op} {name} ' + ' '.join(str(v) for v in vals)


def planned(vals, answers=False):
  return 'plan ' + ' '.join(repr(v) if isinstance(v, float) else str(v) for v in vals) + (
      ' answers=1' if answers else '')


def noises(rep):
  return [e for e in rep.get('ev', ()) if e['e'] == 'noise']


def seen(rep):
  """The observable part of a reply, mechanisms numbered from zero."""
  r = {k: v for k, v in rep.items() if k not in ('ev', 'op')}
  ids = {}
  ev = []
  for e in rep.get('ev', ()):
    e = dict(e)
    if 'm' in e:
      e['m'] = ids.setdefault(e['m'], len(ids))
    ev.append(e)
  return r, ev


run = ccsim.run
prepare = ccsim.prepare
