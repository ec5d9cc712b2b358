"""Deterministic-simulation driver shared by all Python checks.

One seed (VERIF_SEED), one check and one run index decide everything that
happens in a run: `generate` draws the workload, the schedule and the fault
plan as one JSON value from a PRNG seeded with them, `execute` plays that value
against the real code.  A run never draws from any other source.
"""
import argparse
import collections
import copy
import hashlib
import importlib
import json
import multiprocessing
import os
import random
import signal
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# Where replays and evidence go (overridden only when trying planted changes).
OUT = os.environ.get('VERIF_OUT', HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')
WORKERS = 8

try:  # keep the real code's log output out of the check's output
  from absl import logging as _absl_logging
  _absl_logging.set_verbosity(_absl_logging.FATAL)
  import warnings
  import logging as _logging
  _logging.disable(_logging.CRITICAL)
  warnings.simplefilter('ignore')
except ImportError:
  pass


class Violation(Exception):
  """The property is broken.  `kind` names the violation class."""

  def __init__(self, kind, msg, sig=None):
    super().__init__(f'{kind}: {msg}')
    self.kind = kind
    self.msg = msg
    self.sig = sig or kind


class RunTimeout(Exception):
  pass


class Cov:
  """What one run (or one worker) did: faults, probes, states, trace digest."""

  def __init__(self):
    self.faults = collections.Counter()
    self.probes = collections.Counter()
    self.states = set()
    self.steps = 0
    self.sim_time = 0.0
    self.schedules = set()
    self.nontrivial = False
    self._trace = hashlib.sha256()
    self.log = None  # list of strings when replaying verbosely

  def fault(self, kind, n=1):
    self.faults[kind] += n

  def probe(self, name, n=1):
    self.probes[name] += n

  def step(self, n=1):
    self.steps += n

  def state(self, value):
    self.states.add(hashlib.blake2b(repr(value).encode(), digest_size=8).digest())

  def schedule(self, value):
    self.schedules.add(hashlib.blake2b(repr(value).encode(), digest_size=8).digest())

  def trace(self, *items):
    """Appends to the run's event log (only its digest is kept)."""
    text = repr(items)
    self._trace.update(text.encode())
    if self.log is not None:
      self.log.append(text)

  def digest(self):
    return self._trace.hexdigest()


def case_digest(case):
  return hashlib.blake2b(
      json.dumps(case, sort_keys=True, default=str).encode(),
      digest_size=8).digest()


def from_repo(exc):
  """True if the exception passed through (or was raised in) /repo code."""
  tb = exc.__traceback__
  while tb is not None:
    if tb.tb_frame.f_code.co_filename.startswith(REPO + '/'):
      return True
    tb = tb.tb_next
  return False


def load(check_id):
  return importlib.import_module('checks.' + check_id.lower())


def gen_case(check, seed, index, tier):
  rng = random.Random(f'{seed}/{check.ID}/{index}')
  return json.loads(json.dumps(check.generate(rng, tier)))


def run_case(check, case, cov, limit=None):
  """Executes one case.  Returns None or a Violation; harness errors raise."""
  limit = limit or getattr(check, 'RUN_LIMIT_S', 300)

  def on_alarm(signum, frame):
    raise RunTimeout(f'run exceeded {limit}s')

  old = signal.signal(signal.SIGALRM, on_alarm)
  signal.setitimer(signal.ITIMER_REAL, limit)
  try:
    check.execute(copy.deepcopy(case), cov)
    return None
  except Violation as v:
    return v
  except RunTimeout as e:
    if getattr(check, 'HANG_IS_VIOLATION', False) and from_repo(e):
      text = ''.join(traceback.format_tb(e.__traceback__)[-2:])
      return Violation('no-progress', f'an operation still runs after {limit}s:\n{text}')
    raise RuntimeError(f'harness: {e}') from e
  except (Exception, KeyboardInterrupt) as e:  # pylint: disable=broad-except
    if from_repo(e):
      text = ''.join(traceback.format_exception(e)[-4:])
      return Violation(f'unexpected-exception-{type(e).__name__}',
                       f'a legal operation raised {type(e).__name__}: {e}\n{text}')
    raise
  finally:
    signal.setitimer(signal.ITIMER_REAL, 0)
    signal.signal(signal.SIGALRM, old)


# ---------------------------------------------------------------------------
# Minimisation
# ---------------------------------------------------------------------------
def shrink_candidates(case, list_keys):
  """Yields smaller variants of a JSON case (generic: lists, then numbers)."""
  paths = []

  def walk(node, path):
    if isinstance(node, dict):
      for k in node:
        if isinstance(node[k], list) and k in list_keys:
          paths.append(path + [k])
        walk(node[k], path + [k])
    elif isinstance(node, list):
      for i, v in enumerate(node):
        walk(v, path + [i])

  walk(case, [])

  def get(root, path):
    for p in path:
      root = root[p]
    return root

  for path in paths:
    n = len(get(case, path))
    size = n
    while size >= 1:
      for start in range(0, n, size):
        c = copy.deepcopy(case)
        del get(c, path)[start:start + size]
        yield c
      size //= 2
  # simplify integers towards small values
  nums = []

  def walk2(node, path):
    if isinstance(node, dict):
      for k in node:
        walk2(node[k], path + [k])
    elif isinstance(node, list):
      for i, v in enumerate(node):
        walk2(v, path + [i])
    elif isinstance(node, int) and not isinstance(node, bool) and abs(node) > 1:
      nums.append(path)

  walk2(case, [])
  for path in nums[:200]:
    v = get(case, path)
    for w in (0, 1, v // 2):
      if w != v:
        c = copy.deepcopy(case)
        get(c, path[:-1])[path[-1]] = w
        yield c


def minimise(check, case, kind, budget_s):
  """Greedy: keep any smaller case that fails with the same violation kind."""
  t0 = time.monotonic()
  tried = 0
  keys = getattr(check, 'SHRINK_LISTS', ('ops', 'faults'))
  improved = True
  while improved and time.monotonic() - t0 < budget_s:
    improved = False
    gens = []
    if hasattr(check, 'shrink'):
      gens.append(check.shrink(case))
    gens.append(shrink_candidates(case, keys))
    for gen in gens:
      for cand in gen:
        if time.monotonic() - t0 > budget_s:
          break
        cand = json.loads(json.dumps(cand))
        if len(json.dumps(cand)) > len(json.dumps(case)) or cand == case:
          continue
        tried += 1
        try:
          v = run_case(check, cand, Cov(), limit=min(
              30, getattr(check, 'RUN_LIMIT_S', 300)))
        except Exception:  # pylint: disable=broad-except
          continue  # not a valid case for the harness
        if v is not None and v.kind == kind:
          case = cand
          improved = True
          break
      if improved:
        break
  return case, tried


# ---------------------------------------------------------------------------
# Known findings
# ---------------------------------------------------------------------------
def known_findings(check_id):
  out = []
  path = os.path.join(HERE, 'known_findings.txt')
  if os.path.exists(path):
    for line in open(path):
      line = line.strip()
      if line.startswith('finding:'):
        fields = dict(x.split('=', 1) for x in line.split('::')[0].split()[1:])
        if fields.get('property') == check_id:
          out.append((fields['sig'], line.split('::', 1)[1].strip()))
  return out


# ---------------------------------------------------------------------------
# Batch
# ---------------------------------------------------------------------------
def _worker(check_id, seed, tier, w, nworkers, runs, deadline, conn, double_every):
  try:
    check = load(check_id)
    total = Cov()
    done = 0
    distinct = set()
    nontrivial = set()
    samples = []
    doubled = 0
    violation = None
    known = {}
    findings = dict(known_findings(check_id))
    t0 = time.monotonic()
    for i in range(w, runs, nworkers):
      if time.monotonic() > deadline:
        break
      case = gen_case(check, seed, i, tier)
      cov = Cov()
      v = run_case(check, case, cov)
      done += 1
      d = case_digest(case)
      distinct.add(d)
      if cov.nontrivial:
        nontrivial.add(d)
        if len(samples) < 1:
          samples.append({'index': i, 'case': case})
      total.faults.update(cov.faults)
      total.probes.update(cov.probes)
      total.states |= cov.states
      total.schedules |= cov.schedules
      total.steps += cov.steps
      total.sim_time += cov.sim_time
      if v is None and double_every and i % double_every == 0:
        cov2 = Cov()
        v2 = run_case(check, case, cov2)
        doubled += 1
        if v2 is None and cov2.digest() != cov.digest():
          v2 = Violation('rerun-differs',
                         'running the same case again in the same process gave '
                         'a different event log (state leaks between runs)')
        v = v2
      if v is not None:
        if v.sig in findings:
          known[v.sig] = findings[v.sig]
          continue
        violation = {'index': i, 'kind': v.kind, 'msg': v.msg, 'case': case,
                     'worker': w}
        break
    conn.send({
        'ok': True, 'done': done, 'distinct': distinct,
        'nontrivial': nontrivial, 'samples': samples, 'doubled': doubled,
        'faults': dict(total.faults), 'probes': dict(total.probes),
        'states': total.states, 'schedules': total.schedules,
        'steps': total.steps, 'sim_time': total.sim_time,
        'violation': violation, 'known': known, 'cpu_s': time.monotonic() - t0})
  except BaseException as e:  # pylint: disable=broad-except
    conn.send({'ok': False, 'error': traceback.format_exc()})
  finally:
    conn.close()


def run_batch(check, seed, tier, runs, budget_s, workers, double_every):
  ctx = multiprocessing.get_context('fork')
  deadline = time.monotonic() + budget_s
  procs = []
  for w in range(workers):
    r, s = ctx.Pipe(False)
    p = ctx.Process(target=_worker, args=(
        check.ID, seed, tier, w, workers, runs, deadline, s, double_every))
    p.start()
    s.close()
    procs.append((p, r))
  results = []
  for p, r in procs:
    try:
      results.append(r.recv())
    except EOFError:
      results.append({'ok': False, 'error': f'worker died, exit {p.exitcode}'})
    p.join()
  return results


def validate_replay(path, check_id):
  env = dict(os.environ)
  p = subprocess.run(
      [sys.executable, os.path.join(HERE, 'run.py'), check_id, '--replay', path,
       '--quiet'], env=env, capture_output=True, text=True, timeout=600,
      check=False)
  return p.returncode


def write_replay(check, seed, tier, v, case, prefix=None):
  os.makedirs(os.path.join(OUT, 'replays'), exist_ok=True)
  tag = hashlib.blake2b(
      json.dumps([case, prefix, v['kind']], sort_keys=True).encode(),
      digest_size=5).hexdigest()
  path = os.path.join(OUT, 'replays', f'{check.ID}-{seed}-{v["index"]}-{tag}.json')
  with open(path, 'w') as f:
    json.dump({'property': check.ID, 'seed': seed, 'tier': tier,
               'index': v['index'], 'kind': v['kind'], 'message': v['msg'],
               'case': case, 'prefix': prefix or []}, f, indent=1)
  return path


def replay(check, path, quiet=False):
  data = json.load(open(path))
  for i in data.get('prefix', []):
    run_case(check, gen_case(check, data['seed'], i, data['tier']), Cov())
  cov = Cov()
  cov.log = []
  v = run_case(check, data['case'], cov)
  if v is None and data['kind'] == 'rerun-differs':
    cov2 = Cov()
    v = run_case(check, data['case'], cov2)
    if v is None and cov2.digest() != cov.digest():
      v = Violation('rerun-differs', 'the second run has a different event log')
  if not quiet:
    print(json.dumps(data['case'], indent=1))
    for line in cov.log:
      print('  event', line[:300])
  if v is None:
    print(f'replay of {path}: property held')
    return 0
  print(f'replay of {path}: {v.kind}: {v.msg}')
  print(f'VIOLATION property={check.ID} replay={path}')
  return 1 if v.kind == data['kind'] or not quiet else 3


def main(argv):
  ap = argparse.ArgumentParser()
  ap.add_argument('id')
  ap.add_argument('--replay')
  ap.add_argument('--quiet', action='store_true')
  ap.add_argument('--runs', type=int)
  ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
  ap.add_argument('--workers', type=int, default=WORKERS)
  ap.add_argument('--index', type=int)
  ap.add_argument('--digests', action='store_true',
                  help='print the event-log digest of every run')
  args = ap.parse_args(argv)
  seed = int(os.environ.get('VERIF_SEED', '1'))
  tier = 'thorough' if args.tier == 'thorough' else 'quick'
  t0 = time.monotonic()
  try:
    check = load(args.id)
  except Exception as e:  # pylint: disable=broad-except
    traceback.print_exc()
    print(f'ERROR: harness could not load: {e}')
    return 2
  if hasattr(check, 'prepare'):
    try:
      check.prepare()
    except Exception as e:  # pylint: disable=broad-except
      print(f'ERROR: harness could not build: {e}')
      return 2
  if args.replay:
    return replay(check, args.replay, args.quiet)
  print(f'{check.ID}: seed={seed} tier={tier}')
  if args.index is not None:
    cov = Cov()
    cov.log = []
    case = gen_case(check, seed, args.index, tier)
    print(json.dumps(case))
    v = run_case(check, case, cov)
    for line in cov.log:
      print('  event', line[:300])
    print(v, dict(cov.faults), dict(cov.probes))
    return 1 if v else 0
  runs = args.runs or check.RUNS[tier]
  if args.digests:
    for i in range(runs):
      cov = Cov()
      v = run_case(check, gen_case(check, seed, i, tier), cov)
      print(i, cov.digest(), v.kind if v else '-')
    return 0
  budget = getattr(check, 'BUDGET', {}).get(tier, 420 if tier == 'quick' else 3000)
  double_every = getattr(check, 'DOUBLE_EVERY', 16)
  results = run_batch(check, seed, tier, runs, budget, args.workers, double_every)
  wall_batch = time.monotonic() - t0
  bad = [r for r in results if not r['ok']]
  good = [r for r in results if r['ok']]
  viols = sorted((r['violation'] for r in good if r['violation']),
                 key=lambda v: v['index'])
  faults = collections.Counter()
  probes = collections.Counter()
  states, schedules, distinct, nontrivial = set(), set(), set(), set()
  samples = []
  known = {}
  done = steps = doubled = 0
  sim_time = 0.0
  for r in good:
    faults.update(r['faults'])
    probes.update(r['probes'])
    states |= r['states']
    schedules |= r['schedules']
    distinct |= r['distinct']
    nontrivial |= r['nontrivial']
    samples += r['samples']
    done += r['done']
    steps += r['steps']
    doubled += r['doubled']
    sim_time += r['sim_time']
    known.update(r['known'])
  exit_code = 0
  replay_path = None
  if viols:
    v = viols[0]
    case = v['case']
    tried = 0
    minimised, tried = minimise(check, case, v['kind'], 40)
    replay_path = None
    for cand in ([minimised, case] if minimised != case else [case]):
      path = write_replay(check, seed, tier, v, cand)
      if validate_replay(path, check.ID) == 1:
        replay_path = path
        break
      os.remove(path)
    if replay_path is None:
      # The failure needs state left behind by earlier runs of the process.
      mine = list(range(v['worker'], v['index'], args.workers))
      for k in (1, 4, 16, len(mine)):
        path = write_replay(check, seed, tier, v, case, prefix=mine[-k:])
        if validate_replay(path, check.ID) == 1:
          replay_path = path
          break
        os.remove(path)
    print(f'violation kind={v["kind"]} index={v["index"]} '
          f'(minimised with {tried} candidate runs)')
    print(v['msg'])
    if replay_path is None:
      print('ERROR: the violation did not reproduce in a fresh process')
      exit_code = 2
    else:
      exit_code = 1
  elif bad:
    exit_code = 2
  elif done == 0:
    print('ERROR: no run completed')
    exit_code = 2
  for r in bad:
    print('ERROR (harness):', r['error'])
  missing = [p for p in getattr(check, 'PROBES', ()) if not probes.get(p)]
  if missing:
    print('note: probes never hit:', ', '.join(missing))
  wall = time.monotonic() - t0
  evidence = {
      'property': check.ID, 'tier': tier, 'seed': seed,
      'level': getattr(check, 'LEVEL', 'exploration'),
      'coverage': {
          'evaluations': done,
          'distinct_nontrivial': len(nontrivial),
          'rule': check.RULE,
          'samples': samples[:3],
          'runs_planned': runs,
          'distinct_cases': len(distinct),
          'runs_per_hour': int(done / max(wall_batch, 1e-9) * 3600),
          'workload_steps': steps,
          'simulated_time': (f'{sim_time:.0f} simulated ticks' if sim_time else
                             'no clock in this surface; time is the step count'),
          'faults_injected': dict(sorted(faults.items())),
          'probes': dict(sorted(probes.items())),
          'probes_never_hit': missing,
          'distinct_states': len(states),
          'distinct_schedules': len(schedules),
          'state_measure': getattr(check, 'STATE_MEASURE', ''),
          'determinism_reruns': doubled,
          'real_components': check.REAL,
          'stub_components': check.STUB,
      },
      'assumptions': check.ASSUMPTIONS,
      'wall_s': round(wall, 2),
      'violations': 1 if exit_code == 1 else 0,
  }
  os.makedirs(os.path.join(OUT, 'evidence'), exist_ok=True)
  with open(os.path.join(OUT, 'evidence', check.ID + '.json'), 'w') as f:
    json.dump(evidence, f, indent=1)
  print(f'{check.ID}: {done}/{runs} runs, {len(nontrivial)} distinct non-trivial, '
        f'{steps} steps, {sum(faults.values())} faults, {len(states)} states, '
        f'{len(schedules)} schedules, {doubled} reruns, {wall:.1f}s')
  for sig, text in sorted(known.items()):
    print(f'KNOWN-FINDING: property={check.ID} {text}')
  if exit_code == 1:
    print(f'VIOLATION property={check.ID} replay={replay_path}')
  return exit_code
