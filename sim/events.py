"""Random DpEvent trees as JSON, their construction and their meaning."""
import json
import math

import attr
from dp_accounting import dp_event
from dp_accounting import privacy_accountant
from dp_accounting.pld import pld_privacy_accountant
from dp_accounting.rdp import rdp_privacy_accountant

NR = privacy_accountant.NeighboringRelation
RELS = {'AOR': NR.ADD_OR_REMOVE_ONE, 'REP': NR.REPLACE_ONE,
        'SPE': NR.REPLACE_SPECIAL}

ORDER_GRIDS = [
    [1.5, 2, 3, 4.5, 8, 16, 32],
    [1.1, 1.3, 2.0, 2.5, 5, 9, 17],
    [2, 3, 4, 5, 6, 7, 8, 12, 20],
    [1.25, 4, 33],
    [1.0, 1.5, 3, 10],   # order 1 is allowed (Kullback-Leibler divergence)
]


class UserEvent(dp_event.DpEvent):
  """A user-defined event no accountant knows."""


def build(j):
  """JSON -> DpEvent."""
  t = j[0]
  if t == 'G':
    return dp_event.GaussianDpEvent(j[1])
  if t == 'L':
    return dp_event.LaplaceDpEvent(j[1])
  if t == 'NO':
    return dp_event.NoOpDpEvent()
  if t == 'NP':
    return dp_event.NonPrivateDpEvent()
  if t == 'US':
    return dp_event.UnsupportedDpEvent()
  if t == 'USER':
    return UserEvent()
  if t == 'RR':
    return dp_event.RandomizedResponseDpEvent(j[1], j[2])
  if t == 'P':
    return dp_event.PoissonSampledDpEvent(j[1], build(j[2]))
  if t == 'W':
    return dp_event.SampledWithoutReplacementDpEvent(j[1], j[2], build(j[3]))
  if t == 'WR':
    return dp_event.SampledWithReplacementDpEvent(j[1], j[2], build(j[3]))
  if t == 'T':
    return dp_event.SingleEpochTreeAggregationDpEvent(
        j[1], list(j[2]) if isinstance(j[2], list) else j[2])
  if t == 'R':
    return dp_event.RepeatAndSelectDpEvent(
        build(j[1]), j[2], math.inf if j[3] == 'inf' else j[3])
  if t == 'M':
    return dp_event.MixtureOfGaussiansDpEvent(j[1], list(j[2]), list(j[3]))
  if t == 'C':
    return dp_event.ComposedDpEvent([build(x) for x in j[1]])
  if t == 'S':
    return dp_event.SelfComposedDpEvent(build(j[1]), j[2])
  raise ValueError(f'unknown event {j}')


def flatten(j, count=1):
  """Leaves of an event with their counts: list of (leaf JSON, count)."""
  t = j[0]
  if t == 'NO':
    return []
  if t == 'C':
    out = []
    for x in j[1]:
      out += flatten(x, count)
    return out
  if t == 'S':
    return flatten(j[1], count * j[2])
  return [(j, count)]


def flatten_event(e, count=1):
  """Leaves of a DpEvent with their counts: list of (DpEvent, count)."""
  if isinstance(e, dp_event.NoOpDpEvent):
    return []
  if isinstance(e, dp_event.ComposedDpEvent):
    out = []
    for x in e.events:
      out += flatten_event(x, count)
    return out
  if isinstance(e, dp_event.SelfComposedDpEvent):
    return flatten_event(e.event, count * e.count)
  return [(e, count)]


def key(v):
  """A hashable, equality-respecting name of an event (1 and 1.0 agree)."""
  if isinstance(v, dp_event.DpEvent):
    name = type(v).__name__.replace('DpEvent', '')
    if not attr.has(type(v)):
      return (name,)
    return (name,) + tuple(key(getattr(v, f.name)) for f in attr.fields(type(v)))
  if isinstance(v, (list, tuple)):
    return ('seq',) + tuple(key(x) for x in v)
  if isinstance(v, (int, float)):
    return float(v)
  return repr(v)


def multiset(pairs):
  """Leaves with summed counts, keyed by `key`."""
  out = {}
  for leaf, n in pairs:
    k = key(leaf)
    out[k] = out.get(k, 0) + n
  return out


def effective_sigma(j):
  """Noise multiplier equivalent to a (nested) composition of Gaussians."""
  return sum(n * float(l[1]) ** -2 for l, n in flatten(j)) ** -0.5


def canonical(leaf):
  """An equivalent leaf without nesting or integer parameters."""
  t = leaf[0]
  if t == 'G' or t == 'L':
    return [t, float(leaf[1])]
  if t == 'P' and leaf[2][0] in ('C', 'S', 'G'):
    if all(l[0] == 'G' and float(l[1]) > 0 for l, _ in flatten(leaf[2])):
      return ['P', leaf[1], ['G', effective_sigma(leaf[2])]]
  if t == 'W' and all(l[0] == 'G' and float(l[1]) > 0
                      for l, _ in flatten(leaf[3])):
    return ['W', leaf[1], leaf[2], ['G', effective_sigma(leaf[3])]]
  if t == 'R':
    inner = [x for l, n in flatten(leaf[1]) for x in [['S', canonical(l), n]]]
    return ['R', ['C', inner], leaf[2], leaf[3]]
  return leaf


# ------------------------------------------------------------- generation
def _sigma(rng):
  r = rng.random()
  if r < 0.2:
    return rng.choice([1, 2, 3, 5])  # integer parameters are legal
  return round(rng.choice([0.5, 1.0, 2.0, 4.0, 10.0]) * (0.8 + 0.4 * rng.random()), 3)


def _gauss_nest(rng, depth=2):
  r = rng.random()
  if depth == 0 or r < 0.5:
    return ['G', _sigma(rng)]
  if r < 0.75:
    return ['C', [_gauss_nest(rng, depth - 1) for _ in range(rng.randint(1, 3))]]
  return ['S', _gauss_nest(rng, depth - 1), rng.randint(1, 4)]


def leaf(rng, kind, rel, depth=2):
  """A leaf event supported by the accountant kind under relation rel."""
  opts = ['G', 'G', 'L', 'L', 'NP0']
  if kind != 'pld':
    opts += ['R']
    if rel in ('AOR', 'SPE'):
      opts += ['P', 'P']
    if rel == 'REP':
      opts += ['W', 'W']
    if rel == 'SPE':
      opts += ['T', 'T']
    if rel in ('REP', 'SPE') and kind == 'rdp':
      opts += ['RR']
  else:
    opts += ['M'] if rng.random() < 0.4 else []
    if rel in ('AOR', 'SPE'):
      opts += ['P', 'P', 'PL']
    if rel in ('REP', 'SPE'):
      opts += ['RR', 'RR']
  t = rng.choice(opts)
  if t == 'NP0':
    t = rng.choice(['NO', 'NO', 'NP', 'G']) if rng.random() < 0.5 else 'G'
  if t == 'G':
    return ['G', _sigma(rng)]
  if t == 'L':
    return ['L', _sigma(rng)]
  if t == 'RR':
    top = 1.0 if kind != 'pld' else 0.95  # PLD refuses the no-loss value 1
    return ['RR', rng.choice([0.2, 0.5, 0.9, top, round(rng.uniform(.1, .99), 3)]),
            rng.randint(1, 6)]
  if t == 'P':
    q = rng.choice([0.0, 0.01, 0.1, 0.3, 1.0, round(rng.random(), 3)])
    return ['P', q, _gauss_nest(rng) if kind != 'pld' else ['G', _sigma(rng)]]
  if t == 'PL':
    return ['P', rng.choice([0.01, 0.2, 0.7]), ['L', _sigma(rng)]]
  if t == 'W':
    n = rng.choice([10, 100, 1000])
    return ['W', n, rng.randint(1, n), _gauss_nest(rng)]
  if t == 'T':
    return ['T', _sigma(rng), rng.choice(
        [rng.randint(1, 40), [rng.randint(1, 20) for _ in range(rng.randint(1, 3))]])]
  if t == 'R':
    inner = tree(rng, kind, rel, depth - 1) if depth > 0 else ['G', _sigma(rng)]
    return ['R', inner, rng.choice([1, 1.5, 3.0, 10, 50.5]),
            rng.choice([0, 0.5, 1, 2.0, 'inf'])]
  if t == 'M':
    # A mixture with all its mass on one sensitivity can fail to build (the
    # truncation search starts at the root); keep some mass at zero.
    k = rng.randint(2, 3)
    w = [rng.randint(1, 5) for _ in range(k)]
    probs = [x / sum(w) for x in w]
    return ['M', round(rng.uniform(0.7, 4), 2),
            [0.0] + [round(rng.choice([1.0, rng.uniform(0.1, 2)]), 2)
                     for _ in range(k - 1)], probs]
  return [t]


def tree(rng, kind, rel, depth=2):
  """A supported event tree."""
  r = rng.random()
  if depth <= 0 or r < 0.55:
    return leaf(rng, kind, rel, depth)
  if r < 0.8:
    return ['C', [tree(rng, kind, rel, depth - 1)
                  for _ in range(rng.randint(0 if rng.random() < .1 else 1, 3))]]
  return ['S', tree(rng, kind, rel, depth - 1), rng.randint(1, 4)]


def related(rng, j):
  """A copy of a supported event that differs from it in one parameter.

  Events that agree in all parameters but one are what a memo with an
  incomplete key, or a comparison of too few fields, confuses.
  """
  j = json.loads(json.dumps(j))
  slots = []

  def walk(x):
    t = x[0]
    if t in ('G', 'L'):
      slots.append((x, 1, lambda: _sigma(rng)))
    elif t == 'P':
      slots.append((x, 1, lambda: rng.choice([0.01, 0.05, 0.2, 0.5, 0.9, 1.0])))
      slots.append((x, 1, lambda: rng.choice([0.02, 0.4, 0.7])))
      walk(x[2])
    elif t == 'W':
      slots.append((x, 2, lambda: rng.randint(1, x[1])))
      walk(x[3])
    elif t == 'RR':
      slots.append((x, 1, lambda: round(rng.uniform(.1, .95), 3)))
      slots.append((x, 2, lambda: rng.randint(1, 6)))
    elif t == 'T':
      slots.append((x, 1, lambda: _sigma(rng)))
      slots.append((x, 2, lambda: rng.randint(1, 40)))
    elif t == 'M':
      slots.append((x, 1, lambda: round(rng.uniform(0.7, 4), 2)))
    elif t == 'R':
      slots.append((x, 2, lambda: rng.choice([1, 2.5, 4, 20])))
      slots.append((x, 3, lambda: rng.choice([0, 0.5, 1, 3.0, 'inf'])))
      walk(x[1])
    elif t == 'S':
      slots.append((x, 2, lambda: rng.randint(1, 5)))
      walk(x[1])
    elif t == 'C':
      for y in x[1]:
        walk(y)

  walk(j)
  if slots:
    x, i, new = rng.choice(slots)
    x[i] = new()
  return j


def unsupported(rng, kind, rel, depth=2):
  """A tree that contains something the accountant must refuse."""
  bad = [['US'], ['USER'], ['WR', 10, 2, ['G', 1.0]]]
  if kind != 'pld':
    bad += [['M', 1.0, [1.0], [1.0]]]
    if rel == 'REP':
      bad += [['P', 0.1, ['G', 1.0]], ['T', 1.0, 3]]
    if rel in ('AOR', 'SPE'):
      bad += [['W', 10, 2, ['G', 1.0]], ['P', 0.1, ['L', 1.0]],
              ['P', 0.1, ['C', [['G', 1.0], ['L', 1.0]]]]]
    if rel == 'AOR':
      bad += [['RR', 0.5, 2], ['T', 1.0, 3]]
    bad += [['R', ['US'], 2.0, 1]]
  else:
    bad += [['T', 1.0, 3], ['R', ['G', 1.0], 2.0, 1]]
    if rel == 'REP':
      bad += [['P', 0.1, ['G', 1.0]]]
    else:
      bad += [['P', 0.1, ['C', [['G', 1.0]]]]]
    if rel == 'AOR':
      bad += [['RR', 0.5, 2]]
  b = rng.choice(bad)
  for _ in range(rng.randint(0, depth)):
    if rng.random() < 0.5:
      sibs = [tree(rng, kind, rel, 1) for _ in range(rng.randint(0, 2))]
      sibs.insert(rng.randint(0, len(sibs)), b)
      b = ['C', sibs]
    else:
      b = ['S', b, rng.randint(1, 3)]
    if kind != 'pld' and rng.random() < 0.15:
      b = ['R', b, 2.0, 1]
  return b


def late_failure(rng, kind, rel, depth=2):
  """A tree the accountant accepts up front but that fails while composing."""
  if kind != 'pld':
    bad = [['L', 0.0], ['L', -1.0], ['G', -1.0], ['R', ['G', 1.0], 0.5, 1],
           ['R', ['G', 1.0], 2.0, -1.0], ['R', ['L', 0.0], 2.0, 1],
           ['R', ['C', [['G', 1.0], ['L', 0.0]]], 2.0, 1],
           ['R', ['R', ['L', 0.0], 2.0, 1], 2.0, 1]]
    if rel == 'SPE':
      bad += [['T', -1.0, 3], ['T', 1.0, []], ['T', 1.0, [3, -1]]]
    if rel in ('SPE', 'REP'):
      bad += [['RR', 1.5, 2], ['RR', 0.5, 0]]
    if rel == 'REP':
      bad += [['W', 10, 20, ['G', 1.0]]]
  else:
    bad = [['L', -1.0], ['G', -1.0], ['M', 1.0, [1.0, 2.0], [0.5]],
           ['M', -1.0, [1.0], [1.0]]]
    if rel in ('SPE', 'REP'):
      bad += [['RR', 1.5, 2], ['RR', 0.5, 0]]
    if rel in ('AOR', 'SPE'):
      bad += [['P', 1.5, ['G', 1.0]], ['P', -0.5, ['L', 1.0]]]
  b = rng.choice(bad)
  for _ in range(rng.randint(0, depth)):
    if rng.random() < 0.6:
      sibs = [tree(rng, kind, rel, 1) for _ in range(rng.randint(0, 2))]
      sibs.insert(rng.randint(0, len(sibs)), b)
      b = ['C', sibs]
    else:
      b = ['S', b, rng.randint(1, 3)]
    if kind != 'pld' and rng.random() < 0.15:
      b = ['R', b, 2.0, 1]
  return b


# ------------------------------------------------------------- accountants
def random_config(rng, kinds=('rdp', 'rdp', 'pld')):
  kind = rng.choice(kinds)
  # 'gen' is the vocabulary of events; 'rdp1' omits those undefined at order 1.
  cfg = {'kind': kind, 'gen': kind, 'rel': rng.choice(['AOR', 'AOR', 'REP', 'SPE'])}
  if kind != 'pld':
    cfg['orders'] = rng.choice(ORDER_GRIDS)
    if 1.0 in cfg['orders']:
      cfg['gen'] = 'rdp1'
  else:
    cfg['interval'] = rng.choice([1e-2, 2e-2, 5e-2])
  return cfg


def make(cfg):
  rel = RELS[cfg['rel']]
  if cfg['kind'] == 'rdp':
    return rdp_privacy_accountant.RdpAccountant(cfg['orders'], rel)
  return pld_privacy_accountant.PLDAccountant(rel, cfg['interval'])


_RDP_MEMO = {}


def leaf_rdp(cfg, leaf_json):
  """RDP of one leaf alone, from a fresh accountant."""
  key = repr((cfg['rel'], cfg['orders'], leaf_json))
  if key not in _RDP_MEMO:
    if len(_RDP_MEMO) > 20000:
      _RDP_MEMO.clear()
    _RDP_MEMO[key] = make(cfg).compose(build(leaf_json)).rdp
  return _RDP_MEMO[key]
