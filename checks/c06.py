"""C06: accounting objects used from concurrent threads do not interfere."""
import gc
import os
import pickle
import signal

import dp_accounting
import numpy as np
from dp_accounting import dp_event
from dp_accounting import dp_event_builder
from dp_accounting import mechanism_calibration as mc
from dp_accounting.pld import accountant as pld_search
from dp_accounting.pld import common
from dp_accounting.pld import pld_pmf
from dp_accounting.pld import privacy_loss_distribution as pl
from dp_accounting.rdp import rdp_privacy_accountant

from sim import events as ev
from sim import inject
from sim import sched
from sim.core import Violation

ID = 'C06'
RULE = ('a run executes 2 to 4 programs in threads of one fresh process under a simulated '
        'schedule and each program alone in a fresh process of its own; non-trivial if the '
        'schedules switched at least five times between unfinished threads')
REAL = ['dp_accounting (accountants, builder, calibration, events, privacy loss distributions)',
        'Python threads, switched at every source line or byte code of the repository']
STUB = ['the thread scheduler']
ASSUMPTIONS = ['threads switch between byte codes of the repository, not inside numpy or scipy']
RUNS = {'quick': 900, 'thorough': 40000}
BUDGET = {'quick': 150, 'thorough': 3000}
SHRINK_LISTS = ('duels', 'segments', 'programs')
STATE_MEASURE = '(programs, shared objects, granularity, faults)'
PROBES = ('accountants', 'builders', 'calibration', 'distributions', 'events', 'search',
          'shared_accountant', 'shared_pld', 'opcode', 'thread_failed',
          'stalled_thread', 'same_program', 'four_threads', 'duel_acct', 'duel_builder',
          'duel_pld', 'duel_dense', 'duel_twins')
DOUBLE_EVERY = 40


# ------------------------------------------------------------------ programs
def gen_acct(rng):
  cfg = ev.random_config(rng)
  ops = []
  for _ in range(rng.randint(1, 4)):
    r = rng.random()
    if r < 0.6:
      ops.append(['compose', ev.tree(rng, cfg['gen'], cfg['rel'], 1), rng.choice([1, 1, 2, 3])])
    elif r < 0.7:
      ops.append(['refused', ev.unsupported(rng, cfg['gen'], cfg['rel'], 1)])
    else:
      ops.append(rng.choice([['eps', 1e-5], ['delta', 1.0], ['ledger']]))
  return {'kind': 'acct', 'cfg': cfg, 'ops': ops + [['eps', rng.choice([1e-5, 1e-3])],
                                                    ['delta', rng.choice([0.5, 2.0])], ['ledger']]}


def gen_pld_spec(rng):
  return [rng.choice(['gauss', 'gauss', 'laplace', 'dlaplace', 'dgauss', 'rr', 'params', 'pgauss']),
          round(rng.uniform(0.8, 3), 2), rng.random() < 0.8]


def gen_pld(rng):
  return {'kind': 'pld', 'a': gen_pld_spec(rng), 'b': gen_pld_spec(rng),
          'n': rng.choice([2, 3, 7]), 'd': rng.choice([1e-3, 1e-5])}


def gen_program(rng, shared):
  r = rng.random()
  if shared and r < 0.45:
    return {'kind': 'shared', 'ops': [[rng.randint(0, 9), rng.choice(['eps', 'delta', 'deltas', 'ledger',
            'compose', 'self', 'supports', 'rdp']), rng.choice([1e-5, 1e-2, 0.3])]
            for _ in range(rng.randint(1, 5))]}
  if r < 0.6:
    return gen_acct(rng)
  if r < 0.75:
    return gen_pld(rng)
  if r < 0.85:
    return {'kind': 'builder', 'evs': [[ev.tree(rng, 'rdp', 'AOR', 2), rng.choice([1, 1, 2])]
                                       for _ in range(rng.randint(1, 8))]}
  if r < 0.9:
    return {'kind': 'calib', 'target': round(rng.uniform(0.5, 4), 2), 'steps': rng.choice([1, 10]),
            'discrete': rng.random() < 0.4, 'pld': rng.random() < 0.2}
  if r < 0.96:
    return {'kind': 'events', 'ev': ev.tree(rng, 'rdp', 'SPE', 3)}
  return {'kind': 'search', 'eps': round(rng.uniform(0.3, 2), 2), 'n': rng.choice([1, 3])}


def gen_small(rng):
  return rng.choice([['G', round(rng.uniform(1, 9), 2)], ['G', 2.0],
                     ['L', round(rng.uniform(1, 9), 2)],
                     ['P', 0.1, ['G', round(rng.uniform(1, 4), 2)]]])


def gen_duel(rng):
  """Short programs on the same or twin objects, preempted at a few chosen places."""
  n = rng.choice([2, 2, 2, 3])
  what = rng.choice(['acct', 'builder', 'pld', 'dense', 'twins', 'acct', 'dense'])
  shared = []
  if what == 'acct':
    shared = [{'acct': rng.choice([{'kind': 'rdp', 'gen': 'rdp', 'orders': [1.5, 2, 4, 8, 16], 'rel': 'AOR'},
                                   {'kind': 'pld', 'gen': 'pld', 'interval': 0.05, 'rel': 'AOR'}]),
               'evs': [gen_small(rng) for _ in range(rng.randint(2, 5))]}]
    queries = ['ledger', 'ledger', 'eps', 'delta', 'deltas', 'supports', 'rdp']
  elif what == 'builder':
    shared = [{'builder': [[gen_small(rng), rng.choice([1, 1, 2, 3])]
                           for _ in range(rng.randint(2, 6))]}]
    queries = ['build']
  elif what == 'pld':
    shared = [{'pld': gen_pld_spec(rng), 'n': rng.choice([1, 4])} for _ in range(rng.randint(1, 2))]
    queries = ['eps', 'delta', 'deltas', 'compose', 'self']
  elif what == 'dense':
    # grids of equal size at different places, too large to be kept sparsely
    size = rng.choice([1200, 2000])
    shared = [{'dense': [rng.randint(-size, 100), size, rng.randint(0, 99), round(rng.uniform(0, 0.02), 3)]}
              for _ in range(rng.randint(1, 3))]
    queries = ['eps', 'delta', 'deltas', 'deltas', 'compose', 'self']
  if what == 'twins':
    maker = rng.choice([gen_acct, gen_pld])
    p = maker(rng)
    if p['kind'] == 'acct':
      p['ops'] = p['ops'][:2] + p['ops'][-1:]
    programs = [p] + [p if rng.random() < 0.5 else maker(rng) for _ in range(n - 1)]
  else:
    same = rng.random() < 0.5
    q = rng.choice(queries)
    programs = [{'kind': 'shared', 'ops': [[rng.randint(0, 9), q if same else rng.choice(queries),
                                            rng.choice([1e-5, 1e-2, 0.3])]
                                           for _ in range(rng.choice([1, 1, 2]))]} for _ in range(n)]
  opcodes = rng.random() < 0.3
  duels = []
  for _ in range(10):
    t = rng.randint(0, n - 1)
    d = [[t, round(rng.random(), 4)]]
    for _ in range(rng.choice([0, 1, 1, 2, 3])):
      t = (t + rng.randint(1, n - 1)) % n
      d.append([t, rng.choice([9.0, round(rng.random(), 4), 0.02])])
    duels.append(d)
  return {'shared': shared, 'programs': programs, 'duels': duels, 'opcodes': opcodes,
          'fault': None, 'style': 'duel', 'what': what}


def generate(rng, tier):
  if rng.random() < 0.5:
    return gen_duel(rng)
  shared = []
  if rng.random() < 0.6:
    for _ in range(rng.randint(1, 2)):
      if rng.random() < 0.5:
        shared.append({'pld': gen_pld_spec(rng), 'n': rng.choice([1, 4])})
      else:
        a = gen_acct(rng)
        shared.append({'acct': a['cfg'], 'evs': [o[1] for o in a['ops'] if o[0] == 'compose']})
  n = rng.choice([2, 2, 2, 3, 4])
  programs = [gen_program(rng, shared) for _ in range(n)]
  if rng.random() < 0.25:
    programs[1] = programs[0]
  opcodes = rng.random() < 0.25
  style = rng.choice(['fine', 'fine', 'coarse', 'mixed', 'stall'])
  segments = []
  for _ in range(rng.choice([60, 200, 500])):
    k = {'fine': lambda: rng.choice([1, 1, 2, 3, 5]), 'coarse': lambda: rng.choice([20, 100, 300]),
         'stall': lambda: rng.choice([1, 2, 10, 50])}.get(
             style, lambda: rng.choice([1, 2, 5, 30, 200, 1000]))()
    if style == 'stall' and rng.random() < 0.9:
      t = rng.randint(1, n - 1)
    else:
      t = rng.randint(0, n - 1)
    segments.append([t, k * (6 if opcodes else 1)])
  if rng.random() < 0.7 and style != 'stall':
    # bring the threads to different places before the fine interleaving
    segments = [[t, rng.randint(1, rng.choice([5, 40, 200, 2000]))] for t in range(n)] + segments
  fault = None
  if rng.random() < 0.3:
    fault = {'t': rng.randint(0, n - 1), 'at': int(10 ** rng.uniform(0, 3.5)),
             'exc': rng.choice(list(inject.EXCS))}
  return {'shared': shared, 'programs': programs, 'segments': segments, 'opcodes': opcodes,
          'fault': fault, 'style': style}


# ----------------------------------------------------------------- execution
def num(x):
  return float(x).hex()


def make_pld(s):
  kind, p, pess = s
  kw = dict(value_discretization_interval=0.05, pessimistic_estimate=pess)
  if kind == 'gauss':
    return pl.from_gaussian_mechanism(p, **kw)
  if kind == 'pgauss':
    return pl.from_gaussian_mechanism(p, sampling_prob=0.3, **kw)
  if kind == 'laplace':
    return pl.from_laplace_mechanism(p, **kw)
  if kind == 'dlaplace':
    return pl.from_discrete_laplace_mechanism(1 / p, **kw)
  if kind == 'dgauss':
    return pl.from_discrete_gaussian_mechanism(p, **kw)
  if kind == 'rr':
    return pl.from_randomized_response(0.5 / p, 3, **kw)
  return pl.from_privacy_parameters(
      common.DifferentialPrivacyParameters(p / 2, 0.01), value_discretization_interval=0.05)


def show_pld(p, d):
  return [num(p.get_epsilon_for_delta(d)), num(p.get_delta_for_epsilon(0.5)),
          [num(x) for x in p.get_delta_for_epsilon([-1.0, 0.0, 0.3, 1.0])]]


def make_shared(case):
  out = []
  for s in case['shared']:
    if 'pld' in s:
      p = make_pld(s['pld'])
      out.append(p.self_compose(s['n']) if s['n'] > 1 else p)
    elif 'dense' in s:
      lower, size, seed, inf = s['dense']
      q = np.random.RandomState(seed).dirichlet(np.ones(size)) * (1 - inf)
      out.append(pl.PrivacyLossDistribution(pld_pmf.DensePLDPmf(1e-3, lower, q, inf, True)))
    elif 'builder' in s:
      b = dp_event_builder.DpEventBuilder()
      for e, n in s['builder']:
        b.compose(ev.build(e), n)
      out.append(b)
    else:
      a = ev.make(s['acct'])
      for e in s['evs']:
        a.compose(ev.build(e))
      out.append(a)
  return out


def on_shared(obj, what, x):
  if isinstance(obj, dp_event_builder.DpEventBuilder):
    return repr(obj.build())
  if isinstance(obj, dp_accounting.PrivacyAccountant):
    if what in ('eps', 'compose', 'self'):
      return num(obj.get_epsilon(x))
    if what in ('delta', 'deltas'):
      return num(obj.get_delta(1 + x))
    if what == 'supports':
      return obj.supports(dp_event.GaussianDpEvent(1.0))
    if what == 'rdp' and isinstance(obj, rdp_privacy_accountant.RdpAccountant):
      return [num(v) for v in obj.rdp]
    return repr(obj.ledger)
  if what == 'delta':
    return num(obj.get_delta_for_epsilon(x))
  if what == 'deltas':
    return [num(v) for v in obj.get_delta_for_epsilon([x, 1 + x, 2 + x])]
  if what == 'compose':
    return show_pld(obj.compose(obj), 1e-3)
  if what == 'self':
    return show_pld(obj.self_compose(3), 1e-3)
  if what == 'rdp':
    return num(obj.get_delta_for_epsilon_for_composed_pld(obj, 0.5)) if hasattr(
        obj, 'get_delta_for_epsilon_for_composed_pld') else None
  return num(obj.get_epsilon_for_delta(x))


def run_program(p, shared):
  """Runs one program; everything it can observe."""
  out = []
  k = p['kind']
  if k == 'acct':
    acct = ev.make(p['cfg'])
    for o in p['ops']:
      if o[0] == 'compose':
        acct.compose(ev.build(o[1]), o[2])
      elif o[0] == 'refused':
        try:
          acct.compose(ev.build(o[1]))
          out.append('accepted')
        except Exception as e:  # pylint: disable=broad-except
          out.append((type(e).__name__, str(e)))
      elif o[0] == 'eps':
        out.append(num(acct.get_epsilon(o[1])))
      elif o[0] == 'delta':
        out.append(num(acct.get_delta(o[1])))
      else:
        out.append(repr(acct.ledger))
    if p['cfg']['kind'] == 'rdp':
      out.append([num(v) for v in acct.rdp])
  elif k == 'pld':
    a, b = make_pld(p['a']), make_pld(p['b'])
    out.append(show_pld(a, p['d']))
    out.append(show_pld(a.self_compose(p['n']), p['d']))
    if p['a'][2] == p['b'][2] or p['b'][0] == 'params':
      try:
        out.append(show_pld(a.compose(b), p['d']))
      except ValueError as e:
        out.append(str(e))
    out.append(show_pld(a, p['d']))
  elif k == 'builder':
    b = dp_event_builder.DpEventBuilder()
    for e, n in p['evs']:
      b.compose(ev.build(e), n)
      out.append(repr(b.build()))
  elif k == 'calib':
    if p['pld']:
      make = lambda: dp_accounting.pld.PLDAccountant(value_discretization_interval=0.05)
    else:
      make = lambda: rdp_privacy_accountant.RdpAccountant([1.5, 2, 4, 8, 16, 32])
    if p['discrete']:
      event = lambda n: dp_event.SelfComposedDpEvent(dp_event.GaussianDpEvent(8.0), n)
      br = mc.LowerEndpointAndGuess(1, 5)
    else:
      event = lambda s: dp_event.SelfComposedDpEvent(dp_event.GaussianDpEvent(s), p['steps'])
      br = mc.LowerEndpointAndGuess(0.5, 2)
    try:
      out.append(num(mc.calibrate_dp_mechanism(make, event, p['target'], 1e-5, br,
                                               discrete=p['discrete'], tol=1e-3)))
    except mc.NoBracketIntervalFoundError as e:
      out.append(type(e).__name__)
  elif k == 'events':
    e = ev.build(p['ev'])
    t = e.to_named_tuple()
    out.append(repr(t))
    back = dp_event.DpEvent.from_named_tuple(t)
    out.append(repr(back))
    out.append(back == e)
  elif k == 'search':
    pp = common.DifferentialPrivacyParameters(p['eps'], 1e-4)
    out.append(num(pld_search.get_smallest_laplace_noise(pp, p['n'], 1.0)))
    out.append(num(pld_search.get_smallest_gaussian_noise(pp, p['n'], 1.0)))
  elif k == 'shared':
    for i, what, x in p['ops']:
      out.append(on_shared(shared[i % len(shared)], what, x))
  return out


def in_fresh_process(fn, limit=120):
  """fn() in a forked process; its value."""
  r, w = os.pipe()
  pid = os.fork()
  if pid == 0:
    try:
      os.close(r)
      try:
        data = pickle.dumps(('ok', fn()))
      except BaseException as e:  # pylint: disable=broad-except
        import traceback  # pylint: disable=g-import-not-at-top
        data = pickle.dumps(('error', traceback.format_exc()[-3000:], type(e).__name__))
      with os.fdopen(w, 'wb') as f:
        f.write(data)
    finally:
      os._exit(0)
  os.close(w)
  try:
    with os.fdopen(r, 'rb') as f:
      data = f.read()
  except BaseException:
    os.kill(pid, signal.SIGKILL)
    os.waitpid(pid, 0)
    raise
  os.waitpid(pid, 0)
  if not data:
    raise RuntimeError('a forked process died')
  return pickle.loads(data)


def alone(case, i):
  try:
    return ('ok', run_program(case['programs'][i], make_shared(case)))
  except Exception as e:  # pylint: disable=broad-except
    return ('raised', type(e).__name__, str(e)[:300])


def counted(case, i):
  """The events of program i when it runs alone under the scheduler."""
  shared = make_shared(case)
  s = sched.Scheduler(opcodes=case['opcodes'])
  s.spawn(lambda: run_program(case['programs'][i], shared))
  s.run([])
  return s.threads[0].events


def together(case, segments=None):
  shared = make_shared(case)
  s = sched.Scheduler(opcodes=case['opcodes'])
  f = case['fault']
  for i, p in enumerate(case['programs']):
    fault = None
    if f and f['t'] == i:
      fault = (f['at'] * (6 if case['opcodes'] else 1), inject.EXCS[f['exc']])
    s.spawn(lambda p=p: run_program(p, shared), fault)
  segments = [x for x in (case['segments'] if segments is None else segments)]
  results = s.run(segments)
  faulted = [t.fired for t in s.threads]
  # the thread that failed tries again on objects of its own
  again = None
  for i, hit in enumerate(faulted):
    if hit is not None:
      try:
        again = ('ok', run_program(case['programs'][i], shared))
      except Exception as e:  # pylint: disable=broad-except
        again = ('raised', type(e).__name__, str(e)[:300])
  return results, faulted, again, s.switches, s.blocked, sum(t.events for t in s.threads)


def compare(case, cov, results, faulted, again, forked, wants):
  """Every thread observed what it observes alone."""
  for i, p in enumerate(case['programs']):
    key = repr(p)
    if key not in wants:
      wants[key] = forked(lambda i=i: alone(case, i))
    want = wants[key]
    got = results[i]
    if faulted[i] is not None:
      cov.probe('thread_failed')
      cov.fault(f'exception in a thread: {case["fault"]["exc"]}')
      got = again
    if got != want:
      raise Violation('interference', f'thread {i} ({p["kind"]}'
                      f'{", retried after its failure" if faulted[i] else ""}) got '
                      f'{str(got)[:600]}, alone it gets {str(want)[:600]}')
    if want[0] == 'raised' and p['kind'] in ('shared', 'builder', 'calib'):
      raise RuntimeError(f'program {p} fails alone: {want}')


def execute(case, cov):
  n = len(case['programs'])
  if any(p['kind'] == 'shared' for p in case['programs']) and not case['shared']:
    return
  if not sched._CODE:  # pylint: disable=protected-access
    sched.repo_code()
    gc.collect()
    gc.freeze()   # forked processes share these objects
  def forked(fn):
    value = in_fresh_process(fn)
    if value[0] != 'ok':
      raise RuntimeError(f'a simulated process failed: {value[1]}')
    return value[1]

  runs = []
  if case['style'] == 'duel':
    counts = {}
    def count(i):
      key = repr(case['programs'][i])
      if key not in counts:
        counts[key] = forked(lambda: counted(case, i))
      return counts[key]
    for d in case['duels']:
      segments = [[t % n, max(1, int(f * count(t % n)))] for t, f in d]
      runs.append(forked(lambda s=segments: together(case, s)))
  else:
    runs.append(forked(lambda: together(case)))
  wants = {}
  for results, faulted, again, switches, blocked, nevents in runs:
    compare(case, cov, results, faulted, again, forked, wants)
    cov.fault('preemption', len(switches))
    cov.step(nevents)
    cov.schedule(tuple(switches))
    cov.trace(results, switches, faulted, again)
  kinds = [p['kind'] for p in case['programs']]
  for k, name in (('acct', 'accountants'), ('builder', 'builders'), ('calib', 'calibration'),
                  ('pld', 'distributions'), ('events', 'events'), ('search', 'search')):
    if k in kinds:
      cov.probe(name)
  if 'shared' in kinds:
    cov.probe('shared_pld' if any('pld' in s for s in case['shared']) else 'shared_accountant')
  if case['opcodes']:
    cov.probe('opcode')
  if n == 4:
    cov.probe('four_threads')
  if case['style'] == 'stall':
    cov.probe('stalled_thread')
    cov.fault('stalled thread')
  if n > 1 and case['programs'][0] == case['programs'][1]:
    cov.probe('same_program')
  if case['style'] == 'duel':
    cov.probe('duel_' + case['what'])
  cov.state((tuple(sorted(kinds)), len(case['shared']), case['opcodes'], bool(case['fault']),
             case.get('what')))
  cov.nontrivial = sum(1 for r in runs for _, w in r[3] if w is not None) >= 5
