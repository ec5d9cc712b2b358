"""X04: the C++ random source hands out each word once and fails closed."""
from sim import ccsim
from sim.core import Violation

ID = 'X04'
RULE = ('callers drew from SecureURBG, alone or as threads switched at memory accesses, '
        'locks and inside RAND_bytes, across buffer refreshes, some of which failed')
REAL = ['cc/algorithms/rand.h', 'cc/algorithms/rand.cc',
        'the random draws of cc/algorithms/distributions.cc']
STUB = ['RAND_bytes (delivers tagged words; fails on command)', 'threads (simulated: '
        'switched at every load, store, lock and inside RAND_bytes)',
        'absl::Mutex (simulated)', 'absl logging']
ASSUMPTIONS = ['threads are sequentially consistent', 'the buffer is filled by RAND_bytes']
RUNS = {'quick': 12000, 'thorough': 1500000}
BUDGET = {'quick': 75, 'thorough': 1500}
SHRINK_LISTS = ('plan',)
STATE_MEASURE = 'distinct (threads, offset to the refresh, switch points)'
PROBES = ['single', 'threads', 'switched', 'refreshed', 'failed', 'failed-partly',
          'uniform', 'uniform-words', 'across-refresh', 'two-refreshes', 'geometric',
          'aborted', 'first-use']

prepare = ccsim.prepare
WORDS = 8192   # a guess at the words in one buffer; only aims the search


def generate(rng, tier):
  case = {'mode': rng.choice(['threads', 'threads', 'threads', 'single', 'words'])}
  case['seed'] = rng.randrange(1, 1 << 40)
  if case['mode'] == 'words':
    # Planned words, so that every branch of UniformDouble is taken.
    words = []
    for _ in range(rng.randint(1, 12)):
      lead = rng.choice([0, 0, 1, 3, 10, 11, 12, 13, 20, 63])
      w = rng.getrandbits(64) >> lead
      words.append(rng.choice([w, w, w & ~((1 << 52) - 1), w | ((1 << 52) - 1), 0, 1]))
    case['words'] = [str(w) for w in words] + [str((1 << 63) | rng.getrandbits(63))]
    return case
  case['lead'] = rng.choice([0, WORDS - rng.randint(0, 12), rng.randint(0, 2 * WORDS),
                             2 * WORDS - rng.randint(0, 12)])
  case['threads'] = rng.randint(2, 4) if case['mode'] == 'threads' else 1
  case['draws'] = rng.choice([1, 2, 4, 8])
  case['what'] = rng.choice(['draw', 'draw', 'draw', 'uniform'])
  case['first'] = rng.randrange(4)
  hi = rng.choice([20, 60, 200])
  case['plan'] = [[s, rng.randrange(4)] for s in
                  sorted(rng.sample(range(hi), rng.randint(0, min(hi, 12))))]
  if rng.random() < .35:
    case['fail'] = rng.choice([0, 1, 1, 2])
    case['code'] = rng.choice([0, 0, -1])
    case['fill'] = rng.choice(['none', 'half', 'all'])
  return case




def execute(case, cov):
  if case['mode'] == 'words':
    return _words(case, cov)
  ent = f'entropy seed={case["seed"]} tagged=1'
  if 'fail' in case:
    ent += f' fail={case["fail"]} code={case["code"]} fill={case["fill"]}'
  plan = ','.join(f'{s}:{t}' for s, t in case['plan'])
  lines = [ent]
  if case['lead']:
    lines.append(f'rand-draw n={case["lead"]} quiet=1')
  else:
    cov.probe('first-use')
  lines.append(f'rand-threads n={case["threads"]} draws={case["draws"]} '
               f'what={case["what"]} first={case["first"] % case["threads"]} plan={plan}')
  tail = case['draws'] if case['what'] == 'draw' else 0
  lines.append(f'rand-draw n={tail}')
  out, dead = ccsim.run(lines, 20)
  cov.trace(out, str(dead))
  reads = [e for r in out for e in r.get('ev', ()) if e['e'] == 'entropy']
  failed = [e for e in reads if e['fail']]
  if failed:
    raise Violation('failed-open', f'RAND_bytes failed (returned {case["code"]}) and the '
                    f'callers went on')
  if dead:
    if dead.how != 'signal' or dead.n != 6 or 'fail' not in case:
      raise Violation('crash', f'the process ended ({dead}) at {lines[dead.done]!r}')
    cov.fault('RAND_bytes failed')
    cov.probe('failed')
    if case['fill'] != 'none':
      cov.probe('failed-partly')
    cov.probe('aborted')
    cov.nontrivial = True
    return
  rep = out[-2]
  if rep['deadlock']:
    raise Violation('deadlock', f'{case["threads"]} threads block each other for good')
  cov.step(rep['steps'])
  cov.schedule((case['threads'], case['lead'], case['plan']))
  cov.state((case['threads'], case['lead'], case['draws'], rep['switches'], len(reads)))
  cov.probe('threads' if case['threads'] > 1 else 'single')
  if rep['switches']:
    cov.probe('switched')
    cov.nontrivial = case['threads'] > 1
  if reads:
    cov.probe('refreshed')
  if len(reads) > 1:
    cov.probe('two-refreshes')
  if case['what'] == 'uniform':
    cov.probe('uniform')
    vals = [v for t in rep['t'] for v in t]
    if len(vals) != case['threads'] * case['draws']:
      raise Violation('lost', f'{len(vals)} of {case["threads"] * case["draws"]} answers')
    if not all(0 <= v < 1 for v in vals):
      raise Violation('uniform', f'outside [0, 1): {vals}')
    if len(set(vals)) != len(vals):
      raise Violation('repeated', f'a uniform value was handed out twice: {vals}')
    cov.nontrivial = True
    return
  got = [w for t in rep['t'] for w in t] + out[-1]['w']
  if len(got) != case['threads'] * case['draws'] + tail:
    raise Violation('lost', f'{len(got)} answers for {case["threads"] * case["draws"]}')
  if None in got:
    raise Violation('foreign', f'a word that RAND_bytes never delivered: {rep["t"]}')
  if any(w[1] < 0 for w in got):
    raise Violation('failed-open', f'words of a failed RAND_bytes were handed out')
  if len({tuple(w) for w in got}) != len(got):
    raise Violation('repeated', f'a word was handed out twice: {rep["t"]}, then '
                    f'{out[-1]["w"]}')
  if len({w[0] for w in got}) > 1:
    cov.probe('across-refresh')
  cov.nontrivial = True


def expected(words):
  """UniformDouble by its definition: 52 random bits, and an exponent with
  P(e) = 2^-e from the leading zeros of fresh bits."""
  it = iter(int(w) for w in words)
  w = next(it)
  frac = w & ((1 << 52) - 1)
  top = w >> 52
  if top:
    e = 12 - top.bit_length() + 1
  else:
    # Twelve zeros so far; go on counting with new words.
    e = 12
    res, r = 1, 0
    while r == 0 and res < 1023:
      r = next(it)
      res += 64 - r.bit_length()
    e += res
  if e >= 1023:
    return frac * 2.0 ** -1074
  return (1 + frac / 2.0 ** 52) * 2.0 ** -e


def _words(case, cov):
  words = case['words']
  lines = [f'entropy seed={case["seed"]} words={",".join(words)}', 'rand-uniform n=1']
  out, dead = ccsim.run(lines, 20)
  if dead:
    raise Violation('crash', f'the process ended ({dead}) on the words {words}')
  v = out[1]['u'][0]
  v = float(v)
  want = expected(words + ['1'] * 40)
  cov.trace(v)
  cov.probe('uniform-words')
  if int(words[0]) >> 52 == 0:
    cov.probe('geometric')
  cov.state(('w', [64 - int(w).bit_length() for w in words[:3]]))
  cov.step()
  cov.nontrivial = True
  if v != want:
    raise Violation('uniform', f'the words {words} give {v!r}, which should be {want!r}')
