"""C13: an audit run reports exactly what its trials found, whatever fails on the way."""
import random

import numpy as np
import scipy.special

from sim import auditorium
from sim import inject
from sim.core import Violation

auditorium.install()
from dp_auditorium import privacy_test_runner  # pylint: disable=g-import-not-at-top
from dp_auditorium.configs import mechanism_config
from dp_auditorium.configs import privacy_property
from dp_auditorium.configs import privacy_test_runner_config as prc
from dp_auditorium.configs import property_tester_config
from dp_auditorium.mechanisms import mean
from dp_auditorium.testers import histogram_tester
from dp_auditorium.testers import mmd_tester

ID = 'C13'
RULE = ('a run drives one runner through several audits (some nested inside a call of another), '
        'with components that fail at chosen calls and exceptions at chosen lines, recording '
        'every call; non-trivial if at least two audits ran and a failure was delivered or an '
        'audit stopped early')
REAL = ['dp_auditorium.privacy_test_runner', 'dp_auditorium.configs',
        'dp_auditorium.testers.histogram_tester, mmd_tester, mechanisms.mean (some runs)']
STUB = ['dataset generator, mechanism and tester (recording, scripted, failing; real ones '
        'wrapped in some runs)', 'TensorFlow, etils (not installed, not exercised)']
ASSUMPTIONS = ['estimates are numbers (not NaN)']
RUNS = {'quick': 12000, 'thorough': 500000}
STATE_MEASURE = '(post-processing, shape class, trials, outcome, failing component, nesting)'
PROBES = ('rejected_first', 'rejected_later', 'limit', 'zero_trials', 'component_failed',
          'interrupted', 'nested', 'real_tester', 'later_run_after_failure', 'infinite',
          'asymmetric', 'one-object')

POST = {'none': prc.PostProcessing.NONE, 'tanh': prc.PostProcessing.TANH,
        'cheb': prc.PostProcessing.CHEBYSHEV_POLYNOMIALS_D5}
COMPONENTS = ('generator', 'mechanism', 'estimate', 'reject', 'property')
EXCS = {'ValueError': ValueError, 'RuntimeError': RuntimeError, 'KeyError': KeyError,
        'StopIteration': StopIteration, 'KeyboardInterrupt': KeyboardInterrupt,
        'MemoryError': MemoryError, 'InjectedError': inject.InjectedError,
        'TimeoutError': TimeoutError, 'IndexError': IndexError,
        'ZeroDivisionError': ZeroDivisionError, 'OverflowError': OverflowError,
        'FloatingPointError': FloatingPointError, 'TypeError': TypeError, 'OSError': OSError,
        'AttributeError': AttributeError, 'AssertionError': AssertionError,
        'NotImplementedError': NotImplementedError}


def value(rng):
  return rng.choice([0.0, -0.0, -1.0, 1.0, 0.5, -0.25, 'inf', '-inf', 1e-300, 1e300, 3, 0,
                     round(rng.uniform(-2, 2), 3), round(rng.uniform(-2, 2), 3)])


def audit(rng, depth=0):
  n = 8
  a = {'values': [[value(rng), value(rng)] for _ in range(n)],
       'reject': rng.choice(['threshold', 'threshold', 'script']),
       'threshold': round(rng.uniform(-1, 2.2), 2),
       'script': [int(rng.random() < 0.25) for _ in range(n)],
       'truth': rng.choice(['bool', 'int', 'numpy']),
       'float': rng.choice(['float', 'numpy']),
       'name': rng.choice(['m', '', 'mechanism 2', 'ü']),
       'fail': None, 'line': None, 'nested': None}
  r = rng.random()
  if r < 0.35:
    a['fail'] = {'at': rng.choice(COMPONENTS), 'call': rng.choice([0, 0, 1, 1, 2, 3, 4, 7]),
                 'exc': rng.choice(list(EXCS))}
  elif r < 0.45:
    a['line'] = {'frac': round(rng.random(), 4), 'exc': rng.choice(list(inject.EXCS))}
  if depth < 2 and rng.random() < 0.15:
    a['nested'] = {'at': rng.choice(COMPONENTS[:4]), 'call': rng.choice([0, 1, 2, 3]),
                   'audit': audit(rng, depth + 1)}
  return a


def generate(rng, tier):
  post = rng.choice(list(POST))
  return {'post': post,
          'shape': rng.choice(['flat', 'column'] if post == 'cheb' else
                              ['flat', 'column', 'wide']),
          'samples': rng.choice([1, 2, 3, 5, 17]),
          'trials': rng.choice([0, 1, 1, 2, 3, 3, 5, 8]),
          'fp': rng.choice([0.1, 0.5, 1e-6, 0.0, 1]),
          'kind': rng.choice(list(prc.PropertyTester)).name,
          'real': rng.random() < 0.1, 'bits': rng.randint(0, 10**6),
          'audits': [audit(rng) for _ in range(rng.choice([1, 2, 2, 3, 4]))]}


def num(v):
  return float(v) if isinstance(v, str) else v


class Audit:
  """What one audit saw."""

  def __init__(self, spec, index):
    self.spec = spec
    self.index = index
    self.calls = dict.fromkeys(COMPONENTS, 0)
    self.fed = []          # values given to the generator
    self.trials = []       # per generator answer: {data, drawn, estimates, rejects}
    self.raised = None     # exception a component raised on purpose
    self.property = None


class World:
  """The recording components, shared by all audits of the run."""

  def __init__(self, case, cov):
    self.case = case
    self.cov = cov
    self.rng = random.Random(f'c13/{case["bits"]}')
    self.stack = []
    self.count = 0
    self.runner = None
    self.done = []
    self.planned = []      # failures raised by components, of any audit
    self.real = None
    if case['real']:
      dp = privacy_property.ApproximateDp(epsilon=0.5, delta=0.01)
      rs = np.random.default_rng(case['bits'])
      if case['bits'] % 2:
        tester = histogram_tester.HistogramTester(
            property_tester_config.HistogramPropertyTesterConfig(
                test_discrete_mechanism=False, histogram_size=8, min_value=-3.0,
                max_value=3.0, approximate_dp=dp))
      else:
        tester = mmd_tester.MMDPropertyTester(property_tester_config.MMDPropertyTesterConfig(
            kernel=property_tester_config.Kernel.KERNEL_RBF, bandwidth=1.0,
            approximate_dp=dp))
      mech = mean.MeanMechanism(mechanism_config.MeanMechanismConfig(
          epsilon=0.5, delta=0.0, use_noised_counts_for_calculating_mean=False,
          use_noised_counts_for_calculating_noise_scale=False, max_value=1.0,
          min_value=0.0), rs)
      self.real = (tester, mech)

  def enter(self, name):
    a = self.stack[-1]
    k = a.calls[name]
    a.calls[name] += 1
    f = a.spec['fail']
    if f and f['at'] == name and f['call'] == k:
      a.raised = EXCS[f['exc']](f'planned failure of {name} in call {k}')
      self.cov.fault(f'{name} raises {f["exc"]}')
      self.planned.append(a.raised)
      raise a.raised
    n = a.spec['nested']
    if n and n['at'] == name and n['call'] == k:
      self.cov.probe('nested')
      depth = len(self.stack)
      try:
        run_audit(self, n['audit'])
      finally:
        del self.stack[depth:]
    return a, k

  # -- the components ------------------------------------------------------
  def generator(self, last):
    a, k = self.enter('generator')
    a.fed.append(last)
    self.count += 1
    n = 2 + self.count % 3
    d1 = np.full(n, 10.0 * self.count)
    d2 = np.full(n + 1, 10.0 * self.count + 1)
    if self.real:
      d1, d2 = np.array([0.0] * n), np.array([0.0] * n + [1.0])
    if self.case['bits'] % 7 == 3:   # datasets without a difference, as one object
      d2 = d1
      self.cov.probe('one-object')
    a.trials.append({'data': (d1, d2), 'drawn': ([], []), 'est': {}, 'rejects': []})
    return (d1, d2) if self.case['bits'] % 3 else [d1, d2]

  def mechanism(self, dataset, num_samples):
    a, k = self.enter('mechanism')
    if num_samples != self.case['samples']:
      raise Violation('sample-count', f'asked for {num_samples} samples, configured '
                      f'{self.case["samples"]}')
    if not a.trials:
      raise Violation('foreign-dataset', 'the mechanism ran before any dataset existed')
    t = a.trials[-1]
    side = [i for i in (0, 1) if dataset is t['data'][i]]
    if len(side) == 2:
      side = [int(len(t['drawn'][1]) < len(t['drawn'][0]))]
    if not side:
      raise Violation('foreign-dataset', 'the mechanism ran on a dataset that is not one of '
                      'the two of the current trial')
    if self.real:
      s = self.real[1](dataset, num_samples)
    else:
      shape = {'flat': (num_samples,), 'column': (num_samples, 1),
               'wide': (num_samples, 3)}[self.case['shape']]
      s = np.array([self.rng.uniform(-4, 4) for _ in range(int(np.prod(shape)))]).reshape(shape)
    t['drawn'][side[0]].append(s.copy())
    return s

  def estimate(self, samples1, samples2, failure_probability):
    a, k = self.enter('estimate')
    if failure_probability != self.case['fp']:
      raise Violation('failure-probability', f'estimate got {failure_probability}, configured '
                      f'{self.case["fp"]}')
    t = a.trials[-1]
    sides = [self.which(t, s) for s in (samples1, samples2)]
    if sides not in ([0, 1], [1, 0]):
      raise Violation('wrong-samples', 'an estimate was computed from samples that are not the '
                      f'post-processed samples of the two datasets of its trial ({sides})')
    if self.real:
      v = self.real[0].estimate_lower_bound(samples1, samples2, failure_probability or 1e-3)
      if v != v:
        v = -1.0
    else:
      v = num(a.spec['values'][(len(a.trials) - 1) % 8][sides[0]])
    if a.spec['float'] == 'numpy':
      v = np.float64(v)
    t['est'].setdefault(sides[0], []).append(v)
    return v

  def which(self, t, s):
    post = self.case['post']
    for side in (0, 1):
      for d in t['drawn'][side]:
        want = d
        if post != 'none':
          want = np.tanh(d)
        if post == 'cheb':
          flat = want.reshape(len(d))
          want = np.stack([scipy.special.eval_chebyt(i, flat) for i in range(6)], axis=1)
        if np.shape(s) == want.shape and np.allclose(s, want, rtol=1e-9, atol=1e-12):
          return side
    return None

  def reject(self, bound):
    a, k = self.enter('reject')
    t = a.trials[-1]
    if self.real:
      yes = bool(self.real[0].reject_property(bound))
    elif a.spec['reject'] == 'threshold':
      yes = bound > a.spec['threshold']
    else:
      yes = bool(a.spec['script'][(len(a.trials) - 1) % 8])
    t['rejects'].append((bound, bool(yes)))
    return {'bool': bool, 'int': int, 'numpy': np.bool_}[a.spec['truth']](yes)

  def prop(self):
    a, k = self.enter('property')
    a.property = privacy_property.PrivacyProperty(
        pure_dp=privacy_property.PureDp(epsilon=1.0 + a.index))
    return a.property


class Generator:

  def __init__(self, w):
    self._w = w

  def __call__(self, divergence):
    return self._w.generator(divergence)


class Tester:

  def __init__(self, w):
    self._w = w

  @property
  def privacy_property(self):
    return self._w.prop()

  def estimate_lower_bound(self, samples1, samples2, failure_probability):
    return self._w.estimate(samples1, samples2, failure_probability)

  def reject_property(self, lower_bound):
    return self._w.reject(lower_bound)


def same(a, b):
  return type(b) is not bool and a == b


def check_feed(a):
  """The generator is told None first, then each previous result once."""
  for i, v in enumerate(a.fed):
    if i == 0:
      if v is not None:
        raise Violation('feedback', f'the generator was told {v!r} before the first trial')
      continue
    prev = a.trials[i - 1]['est']
    if not prev.get(0) or not prev.get(1):
      raise Violation('one-direction', f'trial {i - 1} was estimated in {len(prev)} direction(s)')
    want = {max(x, y) for x in prev[0] for y in prev[1]}
    if v is None or v not in want:
      raise Violation('feedback', f'before trial {i} the generator was told {v!r}, the result of '
                      f'the previous trial is {want}')


def check_result(w, a, r):
  case = w.case
  limit = case['trials']
  n = len(a.trials)
  if n > limit:
    raise Violation('too-many-trials', f'{n} trials, at most {limit} configured')
  outcome = []
  for i, t in enumerate(a.trials):
    if not t['est'].get(0) or not t['est'].get(1):
      raise Violation('one-direction', f'trial {i} was estimated in {len(t["est"])} direction(s)')
    if not t['rejects']:
      raise Violation('not-judged', f'the estimate of trial {i} was never put to the tester')
    outcome.append(({max(x, y) for x in t['est'][0] for y in t['est'][1]},
                    t['rejects'][-1][1]))
    if t['est'][0][-1] != t['est'][1][-1]:
      w.cov.probe('asymmetric')
    for bound, _ in t['rejects']:
      if bound not in outcome[-1][0]:
        raise Violation('wrong-estimate-judged', f'trial {i} has the estimates {t["est"]}, the '
                        f'tester was asked about {bound}')
    if outcome[-1][1] and i != n - 1:
      raise Violation('continued-after-rejection', f'trial {i} was rejected, {n} were inspected')
  found = bool(outcome) and outcome[-1][1]
  if not found and n != limit:
    raise Violation('stopped-early', f'{n} of {limit} trials inspected and none rejected')
  got = list(r.lower_bound_divergence_estimates)
  if len(got) != n or any(g not in o[0] for g, o in zip(got, outcome)):
    raise Violation('estimates', f'the result lists {got}, the trials gave '
                    f'{[sorted(o[0]) for o in outcome]}')
  want = (prc.TerminationReason.FOUND_PRIVACY_VIOLATION if found
          else prc.TerminationReason.TRIAL_LIMIT_REACHED)
  if r.termination_reason != want:
    raise Violation('verdict', f'termination reason {r.termination_reason}, last trial '
                    f'{"rejected" if found else "not rejected"}')
  if (r.found_privacy_violation is not None) != found:
    raise Violation('verdict', f'found_privacy_violation={r.found_privacy_violation}, last trial '
                    f'{"rejected" if found else "not rejected"}')
  if found and r.found_privacy_violation.failure_probability != case['fp']:
    raise Violation('verdict', f'failure probability {r.found_privacy_violation}')
  if r.num_inspected_trials != n:
    raise Violation('inspected', f'{r.num_inspected_trials} reported, {n} inspected')
  if (r.mechanism_name != a.spec['name'] or r.max_num_trials != limit
      or r.property_tester != prc.PropertyTester[case['kind']]
      or r.privacy_property != a.property):
    raise Violation('preamble', f'the result describes {r}')
  if not n:
    w.cov.probe('zero_trials')
  else:
    w.cov.probe('rejected_first' if found and n == 1 else 'rejected_later' if found else 'limit')
  if any(abs(g) == float('inf') for g in got):
    w.cov.probe('infinite')


def freeze(r):
  return repr((r.mechanism_name, r.property_tester, r.privacy_property, r.max_num_trials,
               list(r.lower_bound_divergence_estimates), r.termination_reason,
               r.found_privacy_violation, r.num_inspected_trials))


def run_audit(w, spec):
  a = Audit(spec, len(w.done) + len(w.stack))
  w.stack.append(a)
  depth = len(w.stack)
  call = lambda: w.runner.test_privacy(w.mechanism, spec['name'])
  tracer = None
  result = None
  try:
    if spec['line'] and depth == 1:
      tracer = inject._Tracer(at=int(spec['line']['frac'] * 12 * (w.case['trials'] + 1)),  # pylint: disable=protected-access
                              exc=inject.EXCS[spec['line']['exc']])
      result = tracer.run(call)
    else:
      result = call()
  except Violation:
    raise
  except BaseException as e:  # pylint: disable=broad-except
    del w.stack[depth - 1:]
    check_feed(a)
    root = e
    while root is not None and not any(root is p for p in w.planned):
      root = root.__cause__ or root.__context__
    if a.raised is not None and root is None:
      raise Violation('failure-swallowed', f'{a.raised!r} was raised by a component, the audit '
                      f'went on and raised {e!r}') from e
    if root is not None:
      w.cov.probe('component_failed')
    elif tracer is not None and tracer.fired:
      w.cov.probe('interrupted')
      w.cov.fault('exception at a line')
    else:
      raise
    w.done.append((a, None, None))
    if depth > 1:
      raise
    w.cov.trace('raised', type(e).__name__)
    return
  del w.stack[depth - 1:]
  if a.raised is not None:
    raise Violation('failure-swallowed', f'{a.raised!r} was raised by a component, the audit '
                    'returned a result')
  check_feed(a)
  if result is None:
    raise Violation('no-result', 'the audit returned nothing')
  check_result(w, a, result)
  if any(x[1] is None for x in w.done):
    w.cov.probe('later_run_after_failure')
  w.done.append((a, result, freeze(result)))
  w.cov.trace('result', freeze(result))


def execute(case, cov):
  w = World(case, cov)
  config = prc.PrivacyTestRunnerConfig(
      property_tester=prc.PropertyTester[case['kind']], max_num_trials=case['trials'],
      failure_probability=case['fp'], num_samples=case['samples'],
      post_processing=POST[case['post']])
  if case['real']:
    cov.probe('real_tester')
    config.num_samples = case['samples'] = max(8, case['samples'])
    if case['shape'] == 'wide':
      case['shape'] = 'column'
  keep = repr(config)
  w.runner = privacy_test_runner.PrivacyTestRunner(config, Generator(w), Tester(w))
  for spec in case['audits']:
    w.stack.clear()
    run_audit(w, spec)
    cov.step(sum(w.done[-1][0].calls.values()) if w.done else 0)
  for a, r, image in w.done:
    if r is not None and freeze(r) != image:
      raise Violation('result-changed', f'a returned result changed later: {image} became '
                      f'{freeze(r)}')
  if repr(config) != keep:
    raise Violation('config-changed', f'{keep} became {config!r}')
  failed = sum(1 for x in w.done if x[1] is None)
  early = sum(1 for x in w.done if x[1] is not None and x[1].found_privacy_violation)
  cov.state((case['post'], case['shape'], case['trials'], failed, early, len(w.done),
             tuple(sorted({(x[0].spec['fail'] or {}).get('at', '') for x in w.done}))))
  cov.nontrivial = len(w.done) >= 2 and (failed or early) > 0
