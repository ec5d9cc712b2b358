"""P03: pbeam never grants more than the budget and refuses invalid parameters."""
import copy
import math

from sim import pbgen
from sim import pbsim
from sim.core import Violation

ID = 'P03'
RULE = ('a pipeline was constructed whose aggregations share one privacy budget, or '
        'carry one invalid parameter, and the refusals were compared with the reference')
REAL = ['privacy-on-beam/pbeam', 'privacy-on-beam/internal', 'go/dpagg', 'go/checks',
        'go/noise']
STUB = ['the Beam SDK (simulated graph construction)', 'goroutine scheduling while '
        'aggregations are added concurrently', 'glog (ends the simulated process)',
        'protobuf']
ASSUMPTIONS = ['shares that add up to the budget within a relative error of 1e-12 fit; '
               'shares that exceed it by at least 1e-6 do not']
RUNS = {'quick': 60000, 'thorough': 2000000}
BUDGET = {'quick': 120, 'thorough': 1800}
SHRINK_LISTS = ('aggs',)
STATE_MEASURE = 'distinct (mode, operations, requests, point of refusal)'
MODES = ['exact', 'under', 'over', 'entire', 'entire-late', 'after-entire', 'invalid',
         'spec']
PROBES = MODES + ['threads', 'switched', 'two-collections', 'aggregation-over',
                  'selection-over', 'delta-over', 'refused', 'granted'] + pbgen.OPS

prepare = pbsim.prepare


def _shares(rng, total, n):
  w = [rng.choice([1, 1, 1, 2, 3, 5]) for _ in range(n)]
  return [total * x / sum(w) for x in w]


def generate(rng, tier):
  mode = rng.choice(MODES + ['exact', 'over', 'over', 'invalid'])
  n = 1 if mode in ('entire', 'spec') else rng.choice([1, 2, 3, 3, 4, 6])
  if mode in ('entire-late', 'after-entire'):
    n = max(n, 2)
  if mode == 'invalid':
    n = rng.choice([1, 1, 2])
  p = pbgen.program(rng, units=2, keys=2, most=1, naggs=n)
  p.pop('whole', None)
  p['recs'] = p['recs'][:2]
  p['two'] = rng.random() < .3
  s = p['spec']
  s['aeps'], s['adel'] = rng.choice([.1, .7, 1.0, math.log(3), 3.0]), 0.0
  s['peps'], s['pdel'] = 0.0, 0.0
  aggs = p['aggs']
  for keys, total in ((('eps', 'aeps'), s['aeps']),
                      (('del', 'adel'), rng.choice([1e-10, 1e-5, .003])),
                      (('peps', 'peps'), rng.choice([.1, 1.1, 2.0])),
                      (('pdel', 'pdel'), rng.choice([1e-10, 1e-5, .003]))):
    users = [a for a in aggs if a[keys[0]]]
    for a, x in zip(users, _shares(rng, total, len(users))):
      a[keys[0]] = x
    s[keys[1]] = total if users or keys[0] == 'eps' else 0.0
  s['pre'] = rng.choice([0, 0, 2]) if s['pdel'] else 0
  if rng.random() < .2 and not s['pdel']:
    s['pdel'] = 1e-6   # unused
    s['peps'] = .5
  p['threads'] = n > 1 and mode != 'invalid' and rng.random() < .4
  p['tseed'] = rng.randrange(1, 1 << 40)
  p['tprob'] = rng.choice([1 << 20, 1 << 22, 1 << 23])
  case = {'mode': mode, 'prog': p}
  if mode == 'under':
    for f in ('aeps', 'adel', 'peps', 'pdel'):
      s[f] *= rng.choice([1, 1.5])
  elif mode == 'over':
    opts = [(b, x) for b, x in (('aeps', 'eps'), ('adel', 'del'), ('peps', 'peps'),
                                ('pdel', 'pdel')) if any(a[x] for a in aggs)]
    b, x = rng.choice(opts)
    case['over'] = x
    how = rng.random()
    if how < .5:
      s[b] *= 1 - rng.choice([1e-6, 1e-5, .01, .3])
    else:
      a = rng.choice([a for a in aggs if a[x]])
      a[x] *= rng.choice([1.5, 2, 10])
  elif mode in ('entire', 'entire-late', 'after-entire'):
    i = 0 if mode != 'entire-late' else rng.randrange(1, n)
    if mode == 'entire':
      a = aggs[0]
      s['aeps'] = a['eps'] or 1.0
    a = aggs[i]
    a['eps'] = a['del'] = a['peps'] = a['pdel'] = 0.0
  elif mode == 'invalid':
    case['bad'] = _spoil(rng, p, n - 1)
  elif mode == 'spec':
    s['aeps'], s['adel'], s['peps'], s['pdel'], s['pre'] = 1.0, .1, 1.0, .1, 0
    case['bad'] = rng.choice([
        ('aeps', '-1'), ('aeps', 'nan'), ('aeps', 'inf'), ('adel', '-1e-9'), ('adel', '1'),
        ('adel', 'nan'), ('adel', '1.5'), ('peps', '-1'), ('peps', 'nan'), ('peps', 'inf'),
        ('pdel', '-1e-9'), ('pdel', '1'), ('pdel', 'nan'), ('pdel', '0'), ('zero', ''),
        ('pre', '-1'), ('pre', 'nobudget'), ('ok', '')])
    f, v = case['bad']
    if f == 'zero':
      s['aeps'] = s['peps'] = 0.0
    elif f == 'pre':
      s['pre'] = -1 if v == '-1' else 2
      if v == 'nobudget':
        s['peps'] = s['pdel'] = 0.0
    elif f != 'ok':
      s['set'] = {f: v}
  return case


def _spoil(rng, p, i):
  """Makes one parameter of aggregation i invalid; the budget stays sufficient."""
  a, s = p['aggs'][i], p['spec']
  op, g = a['op'], a['noise'] == 'g'
  bounds = op in ('SumPerKey', 'MeanPerKey', 'VariancePerKey', 'VarianceStatisticsPerKey',
                  'QuantilesPerKey')
  strict = bounds and op != 'SumPerKey'
  opts = [('l0', 0), ('l0', -3)]
  if op != 'SelectPartitions':
    opts += ([('eps', '0')] if g else []) + [('eps', '-0.5'), ('eps', 'nan')]
    opts += [('del', 0), ('del', '-1e-12'), ('del', 'nan')] if g else [
        ('del', 1e-12), ('del', '-1e-12'), ('del', 'nan')]
    opts += [('pub', x) for x in ('othertype', 'otherarray', 'otherpcol', 'map', 'invalid')]
    if a['pub']:
      opts += [('pdel', 1e-12)] * 2
      if op != 'DistinctPrivacyID':
        opts += [('peps', .01)] * 2
  if a['pub'] is None:
    opts += [('pdel', '-1e-12'), ('pdel', 'nan')]
    if op != 'DistinctPrivacyID':
      opts += [('peps', '-0.1'), ('peps', 'nan'), ('peps', 0.0), ('pdel', 0.0)]
  if strict or op == 'DistinctPerKey':
    opts += [('linf', 0), ('linf', -1)] * 2
  if op == 'Count':
    opts += [('maxv', 0), ('maxv', -2)] * 2
  if bounds:
    opts += [('swap', 0), ('lo', 'nan'), ('hi', 'nan'), ('lo', '-inf'), ('hi', 'inf'),
             ('val', 'string'), ('val', 'bool'), ('val', 'struct')]
  if strict:
    opts += [('same', 0)] * 2
  if op == 'QuantilesPerKey':
    opts += [('rank', '-0.1'), ('rank', '1.01'), ('rank', 'inf'), ('noranks', 0)]
  if op in pbgen.KEYED:
    opts += [('via', 'k')]
  f, v = rng.choice(opts)
  a['set'] = {}
  if f == 'pub':
    a['pub'] = {'kind': v, 'keys': [0]}
    a['peps'] = a['pdel'] = 0.0
    if v == 'otherpcol' and p['key'] == 'int8':
      v = a['pub']['kind'] = 'map'
  elif f == 'swap':
    a['lo'], a['hi'] = a['hi'] + 1, a['lo']
  elif f == 'same':
    a['hi'] = a['lo']
  elif f == 'noranks':
    a['ranks'] = []
  elif f == 'val':
    if any(b['op'] in pbgen.KEYED and b is not a for b in p['aggs']):
      f, v = 'l0', 0
      a['l0'] = 0
    else:
      p['val'] = v
      for r in p['recs']:
        r['v'] = 1
  elif isinstance(v, str) and f != 'via':
    a['set'][f] = v
  else:
    a[f] = v
  if f == 'del' and v == 1e-12:
    s['adel'] += 1e-11
  if f in ('pdel', 'peps') and a['pub']:
    s['pdel'] += 1e-3
    s['peps'] += 1.0
  return [f, v]


class _Budget:
  def __init__(self, eps, delta):
    self.left, self.used = [eps, delta], False

  def ask(self, e, d):
    """True: must be granted.  False: must be refused.  None: either."""
    if e == 0 and d == 0:
      if self.used:
        return False
      e, d = self.left
    verdict = True
    for i, x in enumerate((e, d)):
      have = self.left[i]
      if x > have * (1 + 1e-12):
        verdict = False if x > have * (1 + 9e-7) else None
        if verdict is None:
          return None
    if verdict:
      self.left = [max(0.0, self.left[0] - e), max(0.0, self.left[1] - d)]
      self.used = True
    return verdict


def _granted(p):
  """Number of aggregations a sequential construction grants; None: unclear."""
  s = p['spec']
  agg, sel = _Budget(s['aeps'], s['adel']), _Budget(s['peps'], s['pdel'])
  for i, a in enumerate(p['aggs']):
    oks = []
    if a['op'] != 'SelectPartitions':
      e, d = a['eps'], a['del']
      if e == d == 0 and not agg.used:
        # the entire budget has to suit the noise
        if (agg.left[1] > 0) != (a['noise'] == 'g') or agg.left[0] == 0:
          return i
      oks.append(agg.ask(e, d))
    if a['pub'] is None:
      e = 0.0 if a['op'] == 'DistinctPrivacyID' else a['peps']
      if e == 0 and a['pdel'] == 0 and not sel.used:
        if sel.left[1] == 0 or sel.left[0] == 0 and a['op'] != 'DistinctPrivacyID':
          return i
      oks.append(sel.ask(e, a['pdel']))
    if False in oks:
      return i
    if None in oks:
      return None
  return len(p['aggs'])


def execute(case, cov):
  p, mode = copy.deepcopy(case['prog']), case['mode']
  ((r,),) = pbgen.run([(p, [])])
  n = len(p['aggs'])
  cov.nontrivial = True
  cov.probe(mode)
  for a in p['aggs']:
    cov.probe(a['op'])
  cov.step(n)
  # (a collection of another type may also be refused by a panic of the SDK)
  refused = bool(r['fatal'] or r['specerr'] or r['panic'])
  cov.fault('over-budget' if mode == 'over' else 'invalid' if mode in ('invalid', 'spec')
            else 'request')
  cov.trace(r['built'], refused, r['tsw'])
  cov.state((mode, tuple((a['op'], a['eps'], a['del'], a['peps'], a['pdel'], bool(a['pub']))
                         for a in p['aggs']), r['built'], refused, r['tsw']))
  cov.probe('refused' if refused else 'granted')
  if p.get('two'):
    cov.probe('two-collections')
  where = f'{pbgen.wire(p)["aggs"]} with {p["spec"]}'
  if mode == 'spec':
    if r['panic']:
      raise Violation('construction-crash', f'{r["panic"]} with {where}')
    good = case['bad'][0] == 'ok'
    if good and (r['specerr']):
      raise Violation('valid-refused', f'{r["specerr"]} with {where}')
    if not good and not r['specerr']:
      raise Violation('invalid-accepted', f'a specification with {case["bad"]}: {where}')
    return
  if r['specerr']:
    raise Violation('valid-refused', f'{r["specerr"]} with {where}')
  if r['panic'] and mode != 'invalid':
    raise Violation('construction-crash', f'{r["panic"]} with {where}')
  if mode == 'invalid':
    if r['built'] != n - 1 or not refused:
      raise Violation('invalid-accepted' if r['built'] == n else 'valid-refused',
                      f'{r["built"]} of {n} aggregations were built although the last '
                      f'has invalid {case["bad"]} ({r["fatal"]}): {where}')
    return
  if mode == 'over':
    cov.probe({'eps': 'aggregation-over', 'del': 'delta-over', 'peps': 'selection-over',
               'pdel': 'selection-over'}[case['over']])
  want = _granted(p)
  if p['threads']:
    cov.probe('threads')
    if r['tsw']:
      cov.probe('switched')
      cov.fault('thread-switch', r['tsw'])
    if mode in ('after-entire', 'entire-late'):
      # in some order one of them has to be refused, if they share a budget
      one = [a for a in p['aggs'] if a['eps'] == a['del'] == a['peps'] == a['pdel'] == 0][:1]
      rest = [a for a in p['aggs'] if a not in one]
      share = any((x['op'] != 'SelectPartitions' and y['op'] != 'SelectPartitions') or
                  (x['pub'] is None and y['pub'] is None) for x in one for y in rest)
      if share and not refused:
        raise Violation('budget-exceeded', f'entire budget and more were granted: {where}')
      return
    if want is None:
      return
    if want == n and mode in ('exact', 'under') and refused:
      raise Violation('budget-refused', f'{r["fatal"]}: {where}')
    if want < n and not refused:
      raise Violation('budget-exceeded', f'all aggregations were granted: {where}')
    return
  if want is None:
    return
  if r['built'] > want:
    raise Violation('budget-exceeded', f'{r["built"]} aggregations were granted, the budget '
                    f'is enough for {want}: {where}')
  if r['built'] < want:
    raise Violation('budget-refused', f'only {r["built"]} aggregations were granted, the '
                    f'budget is enough for {want} ({r["fatal"]}): {where}')
