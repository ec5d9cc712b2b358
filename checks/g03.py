"""G03: Go noise consumes secure random bits once each and fails closed."""
from sim import gosim
from sim.core import Violation

ID = 'G03'
RULE = ('at least two callers drew and at least one switch happened between '
        'them, or a read of the random source was short, slow, scribbled or failed')
REAL = ['go/rand (every statement a scheduling point)',
        'go/noise (every statement a scheduling point)', 'go/checks',
        'bufio of the Go standard library (instrumented copy)']
STUB = ['sync (simulated locks under the seeded scheduler)',
        'crypto/rand.Reader (simulated source)', 'glog (Fatal ends the simulated '
        'process)', "gonum's normal distribution (closed forms)"]
ASSUMPTIONS = [
    'statements of go/rand, go/noise and bufio are atomic; between any two of them '
    'any caller may run',
    'log.Fatal ends the process']
RUNS = {'quick': 20000, 'thorough': 600000}
BUDGET = {'quick': 150, 'thorough': 2400}
RUN_LIMIT_S = 120
SHRINK_LISTS = ('tasks', 'ops', 'reads', 'preempt')
STATE_MEASURE = ('distinct (order in which the draws completed, source bytes '
                 'delivered, faults met); schedules: distinct switch sequences')
PROBES = ['exact', 'noise', 'dead', 'stopped', 'contended', 'slow-switch',
          'refill-of-bits', 'partial-failure']

prepare = gosim.prepare

EXACT = ['u64', 'u8', 'bool', 'sign', 'i63n', 'uniform']
NOISE = ['lapf', 'lapi', 'gauf', 'gaui', 'normal', 'geo']


def _op(rng, kinds):
  k = rng.choice(kinds)
  op = {'op': k}
  if k == 'i63n':
    op['n'] = 1 << 40
  elif k in ('lapf', 'lapi', 'gauf', 'gaui'):
    op.update(
        x=str(rng.choice([0, 1, -5, 1000])), l0=rng.choice([1, 1, 3]),
        linf=str(rng.choice([1, 1, 5])), eps=str(rng.choice([0.01, 0.5, 1.0, 3.0])),
        delta='0' if k.startswith('lap') else str(rng.choice([1e-5, 1e-2])))
  return op


def _reads(rng, failing):
  out = []
  for _ in range(rng.randint(0, 14)):
    r = {'n': rng.choice([1, 1, 2, 3, 5, 7, 8, 9, 13, 16, 64, 0])}
    if rng.random() < .3:
      r['y'] = rng.randint(1, 4)
    if rng.random() < .4:
      r['s'] = True
    if rng.random() < .08:
      r['err'] = 'zero'
    out.append(r)
  if failing:
    at = rng.randrange(len(out) + 1)
    out.insert(at, {'n': rng.choice([0, 1, 3, 7]),
                    'err': rng.choice(['fail', 'temp', 'eof', 'failpart']),
                    's': rng.random() < .5, 'y': rng.choice([0, 0, 2])})
  return out


def generate(rng, tier):
  mode = rng.choice(['exact', 'exact', 'exact', 'noise', 'dead', 'failing',
                     'failing'])
  big = tier == 'thorough'
  ntasks = rng.choice([1, 2, 2, 3, 3, 4] + ([6] if big else []))
  case = {'mode': mode, 'tail_n': rng.choice([1, 3, 8, 16, 64, 64, 200, 0]
                                             if rng.random() < .15 else
                                             [1, 3, 8, 16, 64, 64, 200])}
  if mode == 'noise':
    kinds = rng.sample(NOISE, rng.randint(1, 3))
    if rng.random() < .4:
      kinds += rng.sample(EXACT, 2)
    nops = lambda: rng.randint(1, 3)
    case['streams'] = rng.choice([1, 2, 2, 4])
    case['tail_n'] = rng.choice([7, 64, 1000, 0])
  elif mode == 'dead':
    kinds = rng.choice([EXACT, NOISE, ['bool'], ['u8', 'bool'], ['lapf'], ['gaui'],
                        ['bool', 'sign', 'lapi'], ['u64'], ['uniform', 'normal']])
    nops = lambda: rng.randint(1, 12)
    case['dead_after'] = rng.choice([1, 2, 5, 8, 9, 12, 17, 24, 60, 200, 700])
    case['streams'] = (64 if set(kinds) <= set(EXACT) and kinds is not EXACT
                       else 2)
    if rng.random() < .3:
      case['streams'] = 1
      nops = lambda: rng.randint(20, 60)
  else:
    kinds = rng.choice([EXACT, EXACT, ['bool', 'sign'], ['u8', 'bool'],
                        ['u64', 'bool'], ['u64', 'u8'], ['uniform', 'bool', 'i63n']])
    hi = 20 if kinds[0] == 'bool' else 6
    nops = lambda: rng.randint(1, hi)
    case['streams'] = 64
  case['tasks'] = [{'ops': [_op(rng, kinds) for _ in range(nops())]}
                   for _ in range(ntasks)]
  case['reads'] = _reads(rng, mode == 'failing')
  total = sum(len(t['ops']) for t in case['tasks'])
  per = 60 if mode != 'noise' else 3000
  if rng.random() < .5:
    case['preempt'] = sorted(
        [rng.randint(1, max(2, total * per)) if rng.random() < .6 else
         rng.randint(1, 120), rng.randrange(ntasks)]
        for _ in range(rng.randint(0, 8)))
    case['prob'] = 0
    case['seed'] = 0
  else:
    case['preempt'] = []
    case['prob'] = int((1 << 24) * rng.choice([.01, .05, .2, .5]))
    case['seed'] = rng.getrandbits(48) | 1
  return case


def execute(case, cov):
  req = {'cmd': 'rand', 'tasks': [t['ops'] for t in case['tasks']],
         'reads': case['reads'], 'preempt': case['preempt'],
         'seed': case['seed'], 'prob': case['prob'],
         'dead_after': case.get('dead_after', 0), 'streams': case['streams'],
         'tail_n': case['tail_n'], 'limit': 3000000}
  try:
    rep = gosim.call(req, timeout=60)
  except gosim.Crash as e:
    raise Violation('crash', f'the library brought the process down: {e}')
  cov.step(rep['steps'])
  for k, n in rep['faults'].items():
    cov.fault(k, n)
  cov.fault('preemption', rep['switches'])
  cov.probe('noise' if case['mode'] == 'noise' else 'exact')
  cov.schedule(rep['sched'])
  cov.state((rep['order'], rep['delivered'], sorted(rep['faults'])))
  cov.trace(rep['order'], rep['delivered'], rep['sched'], rep['exits'],
            rep.get('traced_bits'), rep.get('violation'))
  failed = any(k.startswith('source-') and k != 'source-zero' for k in rep['faults'])
  if rep['switches'] > 1:
    cov.probe('contended')
  if rep['faults'].get('slow-read') and rep['switches'] > 1:
    cov.probe('slow-switch')
  if case.get('dead_after'):
    cov.probe('dead')
  if rep['faults'].get('source-failpart'):
    cov.probe('partial-failure')
  if any(sum(o['op'] in ('bool', 'sign') for o in t['ops']) > 8
         for t in case['tasks']):
    cov.probe('refill-of-bits')
  if (len(case['tasks']) > 1 and rep['switches']) or rep['faults']:
    cov.nontrivial = True
  if rep.get('violation'):
    raise Violation(rep['violation'][0], rep['violation'][1])
  if rep['exits']:
    cov.probe('stopped')
    if not failed:
      raise Violation('needless-stop', 'the process stopped although the source '
                      f'never failed: {rep["exits"]}')
  elif not failed:
    total = sum(len(t['ops']) for t in case['tasks'])
    if rep['done'] != total:
      raise Violation('lost-draw', f'{rep["done"]} of {total} draws were answered '
                      'although the source never failed')
