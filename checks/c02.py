"""C02: reported loss depends only on which operations completed."""
import math
import random

import numpy as np

from sim import events as ev
from sim.core import Violation

ID = 'C02'
RULE = ('a run is one multiset of events and several random histories of it '
        '(order, batching, grouping, no-ops, interleaved queries, replay of the '
        'ledger) played into fresh accountants; non-trivial if the multiset has '
        'at least two events and the histories differ')
REAL = ['dp_event', 'dp_event_builder', 'RdpAccountant', 'PLDAccountant',
        'privacy_loss_distribution', 'pld_pmf', 'common']
STUB = []
ASSUMPTIONS = [
    'a Gaussian batch is discretised once per composition, so for PLD reports '
    'histories that batch Gaussians differently may differ in epsilon by one '
    'discretisation interval per Gaussian composition']
RUNS = {'quick': 900, 'thorough': 40000}
SHRINK_LISTS = ('leaves',)
STATE_MEASURE = '(accountant, relation, kinds of leaves, shape of the history)'
PROBES = ('regrouped', 'split_counts', 'ledger_replay', 'interleaved_query',
          'gaussian_rebatched', 'infinite', 'repeat_and_select', 'nested_sampled')

DELTAS = (1e-2, 1e-5)
EPSILONS = (0.0, 0.3, 1.5)


def generate(rng, tier):
  cfg = ev.random_config(rng)
  kind, rel = cfg['gen'], cfg['rel']
  leaves = []
  for _ in range(rng.randint(1, 5)):
    e = ev.tree(rng, kind, rel, 1) if rng.random() < .4 else ev.leaf(rng, kind, rel)
    for l, n in ev.flatten(e, rng.choice([1, 1, 2, 3])):
      if l[0] == 'NP' and rng.random() < 0.7:
        continue
      leaves.append([l, n])
  leaves = leaves[:8]
  if leaves and rng.random() < 0.5:  # near-twins of leaves already there
    for _ in range(rng.randint(1, 2)):
      l, n = rng.choice(leaves)
      leaves.insert(rng.randint(0, len(leaves)),
                    [ev.related(rng, l), n if rng.random() < .7 else rng.randint(1, 3)])
  return {'cfg': cfg, 'leaves': leaves,
          'hists': [rng.randint(0, 10**9) for _ in range(2)],
          'keep_batches': rng.random() < 0.5,
          'probe': ev.unsupported(rng, kind, rel)}


def report(acct, cfg):
  out = {}
  for d in DELTAS:
    out['eps', d] = float(acct.get_epsilon(d))
  for e in EPSILONS:
    out['delta', e] = float(acct.get_delta(e))
  if cfg['kind'] == 'rdp':
    out['rdp'] = [float(x) for x in acct.rdp]
    out['eps', 0.0] = float(acct.get_epsilon(0.0))
  return out


def near(a, b, rel=1e-7, ab=1e-9):
  if math.isnan(a) or math.isnan(b):
    return False
  if math.isinf(a) or math.isinf(b):
    return a == b
  return abs(a - b) <= rel * max(abs(a), abs(b)) + ab


def history(seed, leaves, keep):
  """A random history (list of ops) of the multiset of leaves.

  Returns ops and the number of Gaussian compositions it makes.
  """
  rng = random.Random(seed)
  atoms = []
  info = {'split': False, 'grouped': False}
  for l, n in leaves:
    parts = [n]
    if n > 1 and rng.random() < 0.6 and not (keep and l[0] == 'G'):
      k = rng.randint(1, n - 1)
      parts = [k, n - k]
      if rng.random() < 0.3:
        parts = [1] * n
      info['split'] = True
    atoms += [(l, p) for p in parts]
  rng.shuffle(atoms)

  def atom(l, p):
    """One event denoting p times l, plus an outer count."""
    if p == 1:
      return l, 1
    divs = [d for d in range(1, p + 1) if p % d == 0]
    d = rng.choice(divs)
    e = l
    rest = p // d
    if rest > 1:
      if rng.random() < 0.25 and not (keep and l[0] == 'G'):
        e = ['C', [l] * rest]
      else:
        e = ['S', l, rest]
    return e, d

  ops = []
  i = 0
  while i < len(atoms):
    k = rng.choice([1, 1, 2, 3])
    group = atoms[i:i + k]
    i += len(group)
    if len(group) == 1:
      e, n = atom(*group[0])
    else:
      info['grouped'] = True
      members = []
      for l, p in group:
        e1, n1 = atom(l, p)
        members.append(['S', e1, n1] if n1 > 1 or rng.random() < .2 else e1)
        if rng.random() < 0.15:
          members.append(['NO'])
      e, n = ['C', members], 1
    if rng.random() < 0.15:
      e = ['C', [e]]
    if n > 1 and rng.random() < 0.3:
      e, n = ['S', e, n], 1
    ops.append(['compose', e, n])
    if rng.random() < 0.15:
      ops.append(['compose', ['NO'], rng.randint(1, 3)])
    while rng.random() < 0.35:
      ops.append([rng.choice(['eps', 'delta', 'supports', 'unsupports', 'ledger',
                              'rdp', 'opt'])])
  return ops, info


def gauss_ops(ops):
  """Number of times a PLD accountant discretises a Gaussian in these ops."""

  def count(e):
    if e[0] == 'G':
      return 1
    if e[0] == 'C':
      return sum(count(x) for x in e[1])
    if e[0] == 'S':
      return count(e[1])
    return 0

  return sum(count(op[1]) for op in ops if op[0] == 'compose')


def execute(case, cov):
  cfg, leaves = case['cfg'], case['leaves']
  rdp = cfg['kind'] == 'rdp'
  # Reference: every distinct leaf composed once, in the given order.
  ref_acct = ev.make(cfg)
  for l, n in leaves:
    ref_acct.compose(ev.build(l), n)
  ref = report(ref_acct, cfg)
  want_multi = ev.multiset([(ev.build(l), n) for l, n in leaves])
  n_ref = sum(1 for l, _ in leaves if l[0] == 'G')
  if rdp:
    total = np.zeros(len(cfg['orders']))
    for l, n in leaves:
      total = total + n * ev.leaf_rdp(cfg, ev.canonical(l))
    for o, a, b in zip(cfg['orders'], ref['rdp'], total):
      if not near(a, float(b)):
        raise Violation('not-additive', f'RDP at order {o} is {a}, the events alone sum to {b}')
  if ref['eps', DELTAS[0]] == math.inf:
    cov.probe('infinite')
  for l, _ in leaves:
    if l[0] == 'R':
      cov.probe('repeat_and_select')
    if l[0] in ('P', 'W') and l[-1][0] in ('C', 'S'):
      cov.probe('nested_sampled')

  def compare(rep, what, slack):
    for k in ref:
      if k == 'rdp':
        for o, a, b in zip(cfg['orders'], rep[k], ref[k]):
          if not near(a, b):
            raise Violation('history-dependent', f'{what}: RDP at order {o} is {a}, '
                            f'the reference history has {b}')
      elif slack and k[0] == 'eps':
        if not (near(rep[k], ref[k]) or abs(rep[k] - ref[k]) <= slack):
          raise Violation('history-dependent', f'{what}: {k} is {rep[k]}, the '
                          f'reference history has {ref[k]} (slack {slack})')
      elif slack:
        pass
      elif not near(rep[k], ref[k], 1e-6):
        raise Violation('history-dependent', f'{what}: {k} is {rep[k]}, the '
                        f'reference history has {ref[k]}')

  for h, seed in enumerate(case['hists']):
    ops, info = history(seed, leaves, case['keep_batches'])
    acct = ev.make(cfg)
    n_g = gauss_ops(ops)
    slack = 0.0
    if not rdp and not case['keep_batches'] and (n_g or n_ref):
      slack = (n_g + n_ref) * cfg['interval'] + 1e-9
      cov.probe('gaussian_rebatched')
    last = report(acct, cfg)
    for op in ops:
      cov.step()
      if op[0] == 'compose':
        acct.compose(ev.build(op[1]), op[2])
        now = report(acct, cfg)
        for k in last:
          if k == 'rdp':
            if any(not (x >= y or near(x, y, 1e-12)) for x, y in zip(now[k], last[k])):
              raise Violation('not-monotone', f'history {h}: {op} lowered the RDP '
                              f'from {last[k]} to {now[k]}')
          elif not (now[k] >= last[k] or near(now[k], last[k])):
            raise Violation('not-monotone', f'history {h}: {op} lowered {k} from '
                            f'{last[k]} to {now[k]}')
        last = now
        continue
      cov.probe('interleaved_query')
      if op[0] == 'eps':
        acct.get_epsilon(0.01)
      elif op[0] == 'delta':
        acct.get_delta(0.2)
      elif op[0] == 'ledger':
        acct.ledger  # pylint: disable=pointless-statement
      elif op[0] == 'supports':
        for l, _ in leaves:
          if acct.supports(ev.build(l)) is not True:
            raise Violation('supports', f'history {h}: {l} is no longer supported')
      elif op[0] == 'unsupports':
        if acct.supports(ev.build(case['probe'])) is not False:
          raise Violation('supports', f'history {h}: {case["probe"]} is said to be supported')
      elif op[0] == 'rdp' and rdp:
        # what a caller does to a returned array must not matter either
        x = acct.rdp
        x += 1.0
        y = acct.orders
        y += 1
      elif op[0] == 'opt' and rdp:
        acct.get_epsilon_and_optimal_order(1e-4)
        acct.get_delta_and_optimal_order(0.5)
      if repr(report(acct, cfg)) != repr(last):
        raise Violation('query-changes-report', f'history {h}: {op} changed the report')
    compare(last, f'history {h} {ops}', slack)
    got = ev.multiset(ev.flatten_event(acct.ledger))
    if got != want_multi:
      raise Violation('ledger-wrong', f'history {h}: the ledger holds {got}, '
                      f'{want_multi} was composed')
    # restart: replay the ledger into a fresh accountant
    again = ev.make(cfg)
    again.compose(acct.ledger)
    cov.probe('ledger_replay')
    compare(report(again, cfg), f'replay of the ledger of history {h}',
            (len(leaves) * 4 + n_ref) * cfg['interval'] if not rdp and (n_g or n_ref)
            else 0.0)
    if info['grouped']:
      cov.probe('regrouped')
    if info['split']:
      cov.probe('split_counts')
    if len(leaves) > 1:
      cov.nontrivial = True
    cov.state((cfg['kind'], cfg['rel'], tuple(sorted(l[0] for l, _ in leaves)),
               tuple(op[0] + (op[1][0] if len(op) > 1 else '') for op in ops)))
    cov.trace(h, sorted((str(k), v) for k, v in last.items()))
