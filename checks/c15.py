"""C15: every sample of an audited mechanism is computed from its own noise, within its budget."""
import itertools
import random

import numpy as np

from sim import auditorium
from sim.core import Violation

auditorium.install()
from dp_auditorium.configs import mechanism_config as mc  # pylint: disable=g-import-not-at-top
from dp_auditorium.mechanisms import mean
from dp_auditorium.mechanisms import noisy_max
from dp_auditorium.mechanisms import sparse_vector_technique as svt

ID = 'C15'
RULE = ('a run asks one mechanism object for several batches of samples on varying datasets, '
        'under a simulated random generator with adversarial noise (ties, extremes, constants) '
        'and failing draws; non-trivial if a batch of several samples was produced')
REAL = ['dp_auditorium.mechanisms.sparse_vector_technique, noisy_max, mean',
        'dp_auditorium.configs.mechanism_config']
STUB = ['the random generator handed to the mechanism']
ASSUMPTIONS = ['datasets are finite one-dimensional arrays']
RUNS = {'quick': 12000, 'thorough': 500000}
STATE_MEASURE = '(mechanism, budget, queries, samples, noise mode, answers given)'
PROBES = ('budget_spent', 'budget_spent_early', 'tie', 'draw_failed', 'after_failure',
          'nothing_answered', 'zero_budget', 'empty_data', 'one_query')
A, B, N = (mc.DataValues.SVT_ABOVE_THRESHOLD, mc.DataValues.SVT_BELOW_THRESHOLD,
           mc.DataValues.SVT_NO_RESPONSE)
SVTS = ('SVT1', 'SVT2', 'SVT3', 'SVT4', 'SVT5', 'SVT6')
MODES = ('laplace', 'laplace', 'grid', 'grid', 'const', 'extreme', 'zero')


class DrawFailed(Exception):
  pass


class Rng:
  """Stands in for numpy.random.Generator; records every draw."""

  def __init__(self, bits):
    self.py = random.Random(f'c15/{bits}')
    self.mode = 'zero'
    self.draws = []
    self.fail_at = None

  def _draw(self, kind, loc, scale, size):
    if self.fail_at is not None:
      if self.fail_at == 0:
        self.fail_at = None
        raise DrawFailed(kind)
      self.fail_at -= 1
    if size is None:
      size = np.broadcast(np.asarray(loc), np.asarray(scale)).shape
    size = (size,) if isinstance(size, int) else tuple(size)
    n = int(np.prod(size)) if size else 1
    r, m = self.py, self.mode
    if m == 'laplace':
      z = [r.choice([-1, 1]) * r.expovariate(1) for _ in range(n)]
    elif m == 'grid':
      z = [r.choice([-2, -1, 0, 1, 2]) for _ in range(n)]
    elif m == 'const':
      z = [r.choice([-1, 0.5])] * n
    elif m == 'extreme':
      z = [r.choice([-1e9, 1e9, 1e-300, 0.0]) for _ in range(n)]
    else:
      z = [0.0] * n
    z = np.array(z, dtype=float).reshape(size)
    out = np.asarray(loc) + np.asarray(scale) * z
    self.draws.append((kind, loc, scale, z, out.copy()))
    return out if size else float(out)

  def laplace(self, loc=0.0, scale=1.0, size=None):
    return self._draw('laplace', loc, scale, size)

  def gumbel(self, loc=0.0, scale=1.0, size=None):
    return self._draw('gumbel', loc, scale, size)

  def normal(self, loc=0.0, scale=1.0, size=None):
    return self._draw('normal', loc, scale, size)


def generate(rng, tier):
  kind = rng.choice(SVTS + SVTS + ('max', 'max', 'mean', 'mean'))
  case = {'kind': kind, 'eps': rng.choice([0.1, 0.5, 1, 1.0, 2.5, 1000]),
          'bits': rng.randint(0, 10**6), 'lo': rng.choice([0.0, -1.0, 0.1]),
          'span': rng.choice([1.0, 0.5, 4.0]), 'ops': []}
  if kind in SVTS:
    case.update(query=rng.choice(['SUM', 'REVEAL_RECORDS']), q=rng.choice([1, 1, 2, 3, 5, 9]),
                c=rng.choice([0, 1, 1, 2, 2, 3, 9]),
                t=rng.choice([0.0, 0.5, 1.0, -1.0, 3.0]))
  elif kind == 'max':
    case.update(k=rng.choice([1, 2, 3, 6]))
  else:
    case.update(delta=rng.choice([0.0, 0.0, 1e-5, 0.1]), m=rng.random() < 0.5,
                s=rng.random() < 0.5)
  for _ in range(rng.choice([1, 2, 3, 5])):
    n = rng.choice([2, 2, 3, 5, 9] if case.get('query') == 'REVEAL_RECORDS' else
                   [0, 1, 1, 2, 3, 7] if kind != 'mean' else [1, 2, 3, 7])
    if kind == 'max':
      data = [rng.randrange(case['k'] + 1) for _ in range(n)]
    else:
      data = [round(rng.uniform(-2, 4), 2) for _ in range(n)]
    case['ops'].append({'data': data, 'n': rng.choice([1, 2, 3, 8]), 'mode': rng.choice(MODES),
                        'fail': rng.choice([None] * 5 + [0, 1])})
  return case


def svt_scales(kind, c, sens, eps):
  """(query noise scale or None, threshold noise scale), from the documentation."""
  return {'SVT1': (4 * c * sens / eps, 2 * sens / eps),
          'SVT2': (4 * c * sens / eps, 2 * sens * c / eps),
          'SVT3': (2 * c * sens / eps, 2 * sens / eps),
          'SVT4': (4 * sens / (3 * eps), 4 * sens / eps),
          'SVT5': (None, 2 * sens / eps),
          'SVT6': (2 * sens / eps, 2 * sens / eps)}[kind]


def close(a, b):
  return abs(a - b) <= 1e-9 * max(abs(a), abs(b), 1e-300)


def svt_model(kind, c, queries, thresholds):
  """Reference: runs each sample on its own, query by query."""
  out = []
  for row, t in zip(queries, thresholds):
    answers, used = [], 0
    for v in row:
      if used >= c:
        answers.append(N)
        continue
      if v >= t:
        used += 1
        answers.append(v if kind == 'SVT3' else A)
      else:
        answers.append(B)
    out.append(answers)
  return out


def equal(x, y):
  if isinstance(x, mc.DataValues) or isinstance(y, mc.DataValues):
    return x is y
  return close(float(x), float(y))


def near(queries, thresholds):
  """True if a comparison is decided by rounding (sums in another order)."""
  q, t = np.asarray(queries, float), np.asarray(thresholds, float).reshape(-1, 1)
  d = np.abs(q - t)
  return bool(((d > 0) & (d <= 1e-9 * np.maximum(np.abs(q), np.abs(t)))).any())


def judge_svt(case, op, rng, out, cov):
  n, q, c, kind = op['n'], case['q'], case['c'], case['kind']
  hi = case['lo'] + case['span']
  sens = hi - case['lo']
  clipped = np.clip(np.array(op['data'], dtype=float), case['lo'], hi)
  if case['query'] == 'SUM':
    base = [float(np.sum(clipped))] * q
  else:
    base = [float(clipped[-1])] * (q - 1) + [float(clipped[-2])]
  out = np.asarray(out, dtype=object)
  if out.shape != (n, q):
    raise Violation('shape', f'{n} samples of {q} queries, got shape {out.shape}')
  answered = 0
  for row in out:
    above = [i for i, v in enumerate(row) if v is A or not isinstance(v, mc.DataValues)]
    answered = max(answered, len(above))
    if len(above) > c:
      raise Violation('budget', f'{len(above)} queries answered above the threshold, budget {c}: '
                      f'{row}')
    end = above[c - 1] + 1 if c and len(above) == c else (0 if c == 0 else q)
    if any(v is N for v in row[:end]) or any(v is not N for v in row[end:]):
      raise Violation('no-response', f'budget {c}, answers {row}')
    if c and len(above) == c:
      cov.probe('budget_spent_early' if end < q else 'budget_spent')
  if c == 0:
    cov.probe('zero_budget')
  if not answered:
    cov.probe('nothing_answered')
  want_q, want_t = svt_scales(kind, c, sens, case['eps'])
  t_draws = [d for d in rng.draws if d[3].shape == (n, 1) and close(float(np.max(d[2])), want_t)]
  q_draws = [d for d in rng.draws if want_q is not None and d[3].shape == (n, q)
             and close(float(np.max(d[2])), want_q)]
  wanted = 1 if want_q is None else 2
  if len(rng.draws) != wanted or not t_draws or (want_q is not None and not q_draws):
    if sorted(d[3].size for d in rng.draws) == sorted([n] + ([n * q] if wanted == 2 else [])):
      raise Violation('noise-scale', f'{kind} budget {c} sensitivity {sens} epsilon {case["eps"]} '
                      f'drew scales {[d[2] for d in rng.draws]}, documented: queries {want_q}, '
                      f'threshold {want_t}')
    total = sum(d[3].size for d in rng.draws)
    if total < n + (n * q if wanted == 2 else 0):
      raise Violation('noise-shared', f'{n} samples of {q} queries used {total} noise values')
    return answered
  pairs = []
  for t in t_draws:
    for d in ([None] if want_q is None else q_draws):
      if d is not t:
        pairs.append((t, d))
  fits = False
  for t, d in pairs:
    th = case['t'] + t[4][:, 0]
    qs = np.array([base] * n, dtype=float) + (0 if d is None else d[4])
    model = svt_model(kind, c, qs, th)
    if near(qs, th) or all(equal(a, b) for x, y in zip(model, out) for a, b in zip(x, y)):
      fits = True
      break
    if (qs == th.reshape(-1, 1)).any():
      cov.probe('tie')
  if not fits:
    raise Violation('wrong-answers', f'{kind} on {op["data"]} answered {out.tolist()}, its noise '
                    f'gives {model}')
  return answered


def judge_max(case, op, rng, out, cov):
  n, k = op['n'], case['k']
  out = np.asarray(out)
  if out.shape != (n,):
    raise Violation('shape', f'{n} samples, got shape {out.shape}')
  if any(not 0 <= v < k for v in out):
    raise Violation('range', f'answers {out}, elements 0..{k - 1}')
  total = sum(d[3].size for d in rng.draws)
  if total < n * k:
    raise Violation('noise-shared', f'{n} samples of {k} elements used {total} noise values')
  if len(rng.draws) != 1 or rng.draws[0][3].shape != (n, k):
    return 0
  d = rng.draws[0]
  if d[0] != 'gumbel' or not close(float(np.max(d[2])), 2 / case['eps']):
    raise Violation('noise-scale', f'{d[0]} noise of scale {d[2]}, documented Gumbel 2/epsilon')
  counts = [op['data'].count(i) for i in range(k)]
  noisy = np.array(counts, dtype=float) + d[4]
  for i in range(n):
    best = noisy[i].max()
    if noisy[i][out[i]] < best - 1e-9 * max(1.0, abs(best)):
      raise Violation('wrong-answers', f'sample {i} is element {out[i]}, noisy counts {noisy[i]}')
    if (noisy[i] == best).sum() > 1:
      cov.probe('tie')
  return len(set(out.tolist()))


def judge_mean(case, op, rng, out, cov):
  n = op['n']
  out = np.asarray(out, dtype=float)
  if out.shape != (n, 1):
    raise Violation('shape', f'{n} samples, got shape {out.shape}')
  hi = case['lo'] + case['span']
  split = 0.5 if case['m'] or case['s'] else 1.0
  total = float(np.sum(np.clip(op['data'], case['lo'], hi)))
  size = len(op['data'])
  need = 2 * n if case['m'] or case['s'] else n
  if sum(d[3].size for d in rng.draws) < need:
    raise Violation('noise-shared', f'{n} samples used {[d[3].size for d in rng.draws]} values')
  last = rng.draws[-1]
  if len(rng.draws) > 2 or any(d[3].shape != (n, 1) for d in rng.draws):
    return 0
  counts = np.full((n, 1), float(size))
  if case['m'] or case['s']:
    first = rng.draws[0]
    if first[0] != 'laplace' or not close(float(np.max(first[2])), 1 / split / case['eps']):
      raise Violation('noise-scale', f'the count is noised with {first[0]} of scale {first[2]}')
    counts = size + first[4]
  factor = 1.0 if case['delta'] == 0 else np.sqrt(2 * np.log(1.25 / case['delta']))
  if last[0] != ('laplace' if case['delta'] == 0 else 'normal'):
    raise Violation('noise-kind', f'{last[0]} noise for delta {case["delta"]}')
  with np.errstate(all='ignore'):
    scale = factor * case['span'] / split / case['eps'] / (counts if case['s'] else size)
    scale = np.maximum(1e-12, scale)
    if not np.allclose(np.broadcast_to(last[2], (n, 1)), scale, rtol=1e-9, equal_nan=True):
      raise Violation('noise-scale', f'noise scales {last[2]}, expected {scale}')
    want = total / (counts if case['m'] else size) + last[4]
  if not np.allclose(out, want, rtol=1e-9, atol=1e-12, equal_nan=True):
    raise Violation('wrong-answers', f'samples {out.tolist()}, noise gives {want.tolist()}')
  return n


def execute(case, cov):
  rng = Rng(case['bits'])
  hi = case['lo'] + case['span']
  if case['kind'] in SVTS:
    config = mc.SVTMechanismConfig(
        epsilon=case['eps'], max_value=hi, min_value=case['lo'],
        query_type=mc.QueryType['QUERY_TYPE_' + case['query']], num_queries=case['q'],
        threshold=case['t'], max_answered_queries=case['c'])
    mech, judge = getattr(svt, case['kind'])(config, rng), judge_svt
    if case['q'] == 1:
      cov.probe('one_query')
  elif case['kind'] == 'max':
    config = mc.NoisyMaxMechanismConfig(epsilon=case['eps'], num_elements=case['k'])
    mech, judge = noisy_max.NoisyMaxMechanism(config, rng), judge_max
  else:
    config = mc.MeanMechanismConfig(
        epsilon=case['eps'], delta=case['delta'],
        use_noised_counts_for_calculating_mean=case['m'],
        use_noised_counts_for_calculating_noise_scale=case['s'], max_value=hi,
        min_value=case['lo'])
    mech, judge = mean.MeanMechanism(config, rng), judge_mean
  outs = []
  failed = False
  seen = answered = 0
  for op in case['ops']:
    data = np.array(op['data'], dtype=int if case['kind'] == 'max' else float)
    keep = data.tobytes()
    rng.mode, rng.draws, rng.fail_at = op['mode'], [], op['fail']
    cov.step()
    if not len(data):
      cov.probe('empty_data')
    try:
      with np.errstate(all='ignore'):
        out = mech(data, op['n'])
    except DrawFailed:
      cov.probe('draw_failed')
      cov.fault('draw failed')
      failed = True
      continue
    if op['fail'] is not None and rng.fail_at is None:
      raise Violation('failure-swallowed', 'samples were returned although a draw failed')
    cov.fault('controlled draws', sum(d[3].size for d in rng.draws))
    if data.tobytes() != keep:
      raise Violation('input-changed', f'the dataset became {data}')
    answered += judge(case, op, rng, out, cov)
    seen = max(seen, op['n'])
    if failed:
      cov.probe('after_failure')
    outs.append((out, np.asarray(out, dtype=object).tolist()))
    cov.trace(repr(outs[-1][1]))
  for out, image in outs:
    if np.asarray(out, dtype=object).tolist() != image and repr(image).find('nan') < 0:
      raise Violation('result-changed', 'samples changed after a later batch')
  cov.state((case['kind'], case.get('c'), case.get('q'), seen, answered,
             tuple(sorted({o['mode'] for o in case['ops']}))))
  cov.nontrivial = seen > 1
