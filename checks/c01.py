"""C01: a failed or interrupted composition never erases spent privacy loss."""
import copy
import math

import numpy as np

from sim import events as ev
from sim import inject
from sim.core import Violation

ID = 'C01'
RULE = ('a run is a random history of compose calls and queries on one RDP or '
        'PLD accountant, with refused calls, calls that fail half way and '
        'exceptions injected at a chosen line of the real code; non-trivial if '
        'at least one call failed after a composition had completed and a later '
        'one completed')
REAL = ['dp_event', 'dp_event_builder', 'privacy_accountant', 'RdpAccountant',
        'PLDAccountant', 'privacy_loss_distribution', 'pld_pmf', 'common']
STUB = []
ASSUMPTIONS = ['faults surface as Python exceptions at line boundaries of '
               'repository code; epsilon is compared with relative tolerance 1e-7']
RUNS = {'quick': 1200, 'thorough': 60000}
SHRINK_LISTS = ('ops',)
STATE_MEASURE = ('(accountant, relation, kinds of completed leaves, kind of the '
                 'failed call, line hit)')
PROBES = ('refused_type', 'refused_count', 'refused_unsupported', 'late_failure',
          'interrupt_fired', 'interrupt_in_repeat_and_select', 'after_failure_compose',
          'interrupted_query')

DELTAS = (1e-3, 1e-6)
EPSILONS = (0.0, 0.5, 2.0)
BAD_COUNTS = [0, -1, 1.5, 'x', None]


def generate(rng, tier):
  cfg = ev.random_config(rng)
  kind, rel = cfg['gen'], cfg['rel']
  ops = []
  rate = rng.choice([0.25, 0.4, 0.6])
  sticky = rng.choice([0.1, 0.3, 0.6])
  used = []

  def tree():
    """An event; often (almost) the one composed before."""
    if used and rng.random() < sticky:
      e = used[-1] if rng.random() < 0.7 else ev.related(rng, rng.choice(used))
    else:
      e = ev.tree(rng, kind, rel)
    used.append(e)
    return e
  for _ in range(rng.randint(3, 9)):
    r = rng.random()
    if r > rate:
      ops.append({'op': 'compose', 'ev': tree(),
                  'n': rng.choice([1, 1, 1, 2, 3, 7])})
    else:
      f = rng.random()
      if f < 0.12:
        ops.append({'op': 'badtype', 'v': rng.choice(['str', 'int', 'none', 'list', 'class'])})
      elif f < 0.26:
        ops.append({'op': 'badcount', 'ev': tree(),
                    'n': rng.choice(BAD_COUNTS)})
      elif f < 0.42:
        ops.append({'op': 'unsupported', 'ev': ev.unsupported(rng, kind, rel),
                    'n': rng.choice([1, 1, 3])})
      elif f < 0.62:
        ops.append({'op': 'late', 'ev': ev.late_failure(rng, kind, rel),
                    'n': rng.choice([1, 1, 2])})
      elif f < 0.94:
        e = tree()
        if kind != 'pld' and rng.random() < 0.3:
          e = ['C', [e, ['R', ev.tree(rng, kind, rel, 1), 3.0, 1]]]
        ops.append({'op': 'interrupt', 'ev': e, 'n': rng.choice([1, 1, 2, 5]),
                    'fault': inject.random_spec(rng)})
      else:
        ops.append({'op': 'iquery', 'fault': inject.random_spec(rng)})
  ops.append({'op': 'compose', 'ev': ev.leaf(rng, kind, rel), 'n': 1})
  return {'cfg': cfg, 'ops': ops}


def report(acct, cfg):
  out = {}
  for d in DELTAS:
    out['eps', d] = acct.get_epsilon(d)
  for e in EPSILONS:
    out['delta', e] = acct.get_delta(e)
  if cfg['kind'] == 'rdp':
    out['rdp'] = tuple(acct.rdp.tolist())
  return out


def lower(value, bound):
  """value is below bound by more than rounding (or is not a number)."""
  value, bound = float(value), float(bound)
  if math.isnan(value):
    return True
  if math.isinf(bound):
    return value != bound
  return value < bound - 1e-7 * abs(bound) - 1e-10


def below(acct_report, bound_report):
  for k in bound_report:
    if k == 'rdp':
      for i, (a, b) in enumerate(zip(acct_report[k], bound_report[k])):
        if lower(a, b):
          return f'RDP at order index {i} is {a}, completed work has {b}'
    elif lower(acct_report[k], bound_report[k]):
      return f'{k} is {acct_report[k]}, completed work has {bound_report[k]}'
  return None


def execute(case, cov):
  cfg = case['cfg']
  acct = ev.make(cfg)
  shadow = ev.make(cfg)
  rdp_sum = np.zeros(len(cfg.get('orders', [])))
  completed = []   # (leaf repr of the built event, count)
  failed = False
  any_before = False

  def check(where):
    rep = report(acct, cfg)
    bad = below(rep, report(shadow, cfg))
    if bad:
      raise Violation('loss-erased', f'{where}: {bad}')
    if cfg['kind'] == 'rdp':
      for i, (a, b) in enumerate(zip(rep['rdp'], rdp_sum)):
        if lower(a, b):
          raise Violation('loss-erased', f'{where}: RDP at order '
                          f'{cfg["orders"][i]} is {a}, completed work sums to {b}')
    led = ev.multiset(ev.flatten_event(acct.ledger))
    for k, n in ev.multiset(completed).items():
      if led.get(k, 0) < n:
        raise Violation('ledger-lost', f'{where}: ledger has {led.get(k, 0)} of {k}, '
                        f'{n} were composed')
    cov.trace(where, sorted((str(k), v) for k, v in rep.items()), sorted(map(repr, led.items())))
    return rep

  for i, op in enumerate(case['ops']):
    where = f'op {i} ({op["op"]})'
    cov.step()
    kinds = ','.join(sorted({ev.key(k)[0] for k, _ in completed}))
    if op['op'] == 'compose':
      e = ev.build(op['ev'])
      out = acct.compose(e, op['n'])
      if out is not acct:
        raise Violation('compose-result', f'{where}: compose did not return the accountant')
      shadow.compose(ev.build(op['ev']), op['n'])
      completed += ev.flatten_event(e, op['n'])
      if cfg['kind'] == 'rdp':
        for l, n in ev.flatten(op['ev'], op['n']):
          rdp_sum = rdp_sum + n * ev.leaf_rdp(cfg, ev.canonical(l))
      check(where)
      if failed and any_before:
        cov.probe('after_failure_compose')
        cov.nontrivial = True
      continue
    any_before = any_before or bool(completed)
    if op['op'] in ('badtype', 'badcount', 'unsupported'):
      before, led0 = report(acct, cfg), acct.ledger
      led0_copy = copy.deepcopy(led0)
      n = op.get('n', 1)
      if op['op'] == 'badtype':
        arg = {'str': 'GaussianDpEvent', 'int': 3, 'none': None, 'list': [],
               'class': ev.dp_event.GaussianDpEvent}[op['v']]
      else:
        arg = ev.build(op['ev'])
      try:
        acct.compose(arg, n)
        raised = None
      except Exception as exc:  # pylint: disable=broad-except
        raised = exc
      if raised is None:
        if op['op'] == 'badcount' and not ev.flatten(op['ev']):
          completed += []  # NoOp composed a nonsense number of times
          continue
        raise Violation('not-refused', f'{where}: {arg!r} x {n!r} was accepted')
      cov.fault({'badtype': 'refused_type', 'badcount': 'refused_count',
                 'unsupported': 'refused_unsupported'}[op['op']])
      cov.probe({'badtype': 'refused_type', 'badcount': 'refused_count',
                 'unsupported': 'refused_unsupported'}[op['op']])
      after, led1 = report(acct, cfg), acct.ledger
      if repr(after) != repr(before):
        raise Violation('refused-changed-loss',
                        f'{where}: {raised!r} but the report went from {before} to {after}')
      if led1 != led0_copy:
        raise Violation('refused-changed-ledger',
                        f'{where}: {raised!r} but the ledger went from {led0_copy} to {led1}')
      failed = True
      cov.state((cfg['kind'], cfg['rel'], kinds, op['op'], op.get('v') or n))
      check(where)
    elif op['op'] == 'late':
      e = ev.build(op['ev'])
      try:
        acct.compose(e, op['n'])
      except Exception as exc:  # pylint: disable=broad-except
        cov.fault('late_failure')
        cov.probe('late_failure')
        failed = True
        cov.state((cfg['kind'], cfg['rel'], kinds, 'late', type(exc).__name__))
      check(where)
    elif op['op'] == 'interrupt':
      e = ev.build(op['ev'])
      dup = copy.deepcopy(acct)
      outcome, value, fired = inject.run_with_fault(
          op['fault'], lambda: acct.compose(e, op['n']),
          lambda: dup.compose(ev.build(op['ev']), op['n']))
      if outcome == 'raised':
        if fired:
          cov.fault('interrupt:' + op['fault']['exc'])
          cov.probe('interrupt_fired')
          if 'repeat_and_select' in fired[1] or "'R'" in repr(op['ev']):
            cov.probe('interrupt_in_repeat_and_select')
          cov.state((cfg['kind'], cfg['rel'], kinds, fired))
        failed = True
      else:
        shadow.compose(ev.build(op['ev']), op['n'])
        completed += ev.flatten_event(e, op['n'])
        if cfg['kind'] == 'rdp':
          for l, n in ev.flatten(op['ev'], op['n']):
            rdp_sum = rdp_sum + n * ev.leaf_rdp(cfg, ev.canonical(l))
      check(where + f' fired={fired}')
    elif op['op'] == 'iquery':
      dup = copy.deepcopy(acct)

      def query(a):
        a.supports(ev.dp_event.GaussianDpEvent(1.0))
        a.get_epsilon(1e-5)
        a.get_delta(1.0)
        return a.ledger

      before = report(acct, cfg)
      outcome, value, fired = inject.run_with_fault(
          op['fault'], lambda: query(acct), lambda: query(dup))
      if fired:
        cov.fault('query_interrupt:' + op['fault']['exc'])
        cov.probe('interrupted_query')
      if repr(report(acct, cfg)) != repr(before):
        raise Violation('query-changed-loss',
                        f'{where}: an interrupted query changed the report')
      check(where)
