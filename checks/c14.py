"""C14: the optimiser-driven dataset generators complete every trial once."""
import numpy as np

from sim import auditorium
from sim import inject
from sim.core import Violation

auditorium.install()
from dp_auditorium.configs import dataset_generator_config as dgc  # pylint: disable=g-import-not-at-top
from dp_auditorium.generators import classification_dataset_generator
from dp_auditorium.generators import pipeline_dp_vizier_dataset_generator
from dp_auditorium.generators import vizier_dataset_generator

ID = 'C14'
RULE = ('a run drives one or two generators (and their replacements after a crash) against a '
        'simulated optimiser service whose requests fail before or after taking effect or answer '
        'with nothing; non-trivial if at least three trials were asked for and a fault was '
        'delivered or a zero or negative result reported')
REAL = ['dp_auditorium.generators.vizier_dataset_generator, classification_dataset_generator, '
        'pipeline_dp_vizier_dataset_generator', 'dp_auditorium.configs.dataset_generator_config']
STUB = ['vizier.service.clients and pyvizier (simulated study service: the active trial of a '
        'client is suggested again until completed, completing a completed trial is refused)']
ASSUMPTIONS = ['a failing completion request has no effect on the service',
               'results are numbers (not NaN)']
RUNS = {'quick': 16000, 'thorough': 600000}
STATE_MEASURE = '(generator class, sizes, trials completed, faults delivered, crashes)'
PROBES = ('zero_result', 'negative_result', 'infinite_result', 'complete_failed',
          'suggest_failed', 'suggest_answer_lost', 'no_suggestion', 'parameters_failed',
          'subclass_failed', 'crash_restart', 'none_repeated', 'retry_same_result',
          'create_failed', 'int_parameters', 'interrupted')
KINDS = ('scalar', 'scalar', 'custom', 'custom', 'classification', 'pipeline')


class Boom(Exception):
  """The subclass failed to build datasets."""


class Custom(vizier_dataset_generator.VizierDatasetGenerator):
  """A user's own generator; building the datasets may fail."""
  fail = False

  def get_neighboring_datasets_from_vizier_params(self, vizier_params):
    if type(self).fail:
      type(self).fail = False
      raise Boom('building the datasets failed')
    half = len(vizier_params) // 2
    return list(vizier_params[:half]) + list(vizier_params[half + 1:]), list(vizier_params)


def generate(rng, tier):
  kind = rng.choice(KINDS)
  case = {'kind': kind, 'n': rng.choice([1, 1, 2, 3, 5, 11, 12]), 'd': rng.choice([1, 2, 3]),
          'int': kind in ('scalar', 'custom') and rng.random() < 0.3,
          'lo': rng.choice([0.0, -1.0, 0.1, -5.5, 13.7]), 'span': rng.choice([1.0, 2.2, 10.0]),
          'bits': rng.randint(0, 10**6), 'two': rng.random() < 0.25, 'ops': []}
  quiet = rng.random() < 0.15
  for _ in range(rng.choice([2, 4, 8, 8, 14])):
    op = {'g': int(case['two'] and rng.random() < 0.5), 'op': 'call',
          'v': rng.choice(['none', 'retry', 'new', 'new', 'new', 'new', 'new', 'new']),
          'value': rng.choice([0.0, 0, -0.0, -1.5, -1, 'inf', '-inf', 1e-320, True,
                               round(rng.uniform(-3, 3), 3), round(rng.uniform(-3, 3), 3),
                               round(rng.uniform(0, 3), 3), round(rng.uniform(0, 3), 3)]),
          'type': rng.choice(['float', 'float', 'numpy']), 'fault': None}
    r = rng.random()
    if r < 0.05:
      op['op'] = 'restart'
      op['fault'] = rng.choice([None, None, 'create'])
    elif not quiet and r < 0.45:
      op['fault'] = rng.choice(['complete', 'suggest', 'suggest', 'suggest-after', 'empty', 'none',
                                'parameters', 'parameters', 'custom', 'custom', 'line'])
      op['frac'] = round(rng.random(), 4)
      op['exc'] = rng.choice(list(inject.EXCS))
      op['n'] = rng.choice([1, 1, 1, 2])
    case['ops'].append(op)
  return case


class Client:
  """One generator with what its user knows."""

  def __init__(self, case, index, service):
    self.case = case
    self.index = index
    self.service = service
    self.gen = None
    self.delivered = None     # trial whose datasets the caller last got from this generator
    self.reported = True      # ... and whether its result reached the optimiser
    self.last = None          # the result given with the last failed call
    self.unsure = False

  @property
  def study(self):
    return self.service.studies.get(f'owner/study{self.index}')

  def create(self):
    c = self.case
    name = f'study{self.index}'
    hi = c['lo'] + c['span']
    if c['kind'] == 'classification':
      self.gen = classification_dataset_generator.ClassificationDatasetGenerator(
          dgc.ClassificationDatasetGeneratorConfig(
              study_name=name, study_owner='owner', min_value=c['lo'], max_value=hi,
              search_algorithm='RANDOM_SEARCH', metric_name='divergence', sample_dim=c['d'],
              num_samples=c['n'], num_classes=3))
    else:
      config = dgc.VizierDatasetGeneratorConfig(
          study_name=name, study_owner='owner', num_vizier_parameters=c['n'],
          data_type=dgc.DataType.DATA_TYPE_INT32 if c['int'] else dgc.DataType.DATA_TYPE_FLOAT,
          min_value=c['lo'], max_value=hi, search_algorithm='RANDOM_SEARCH',
          metric_name='divergence')
      if c['kind'] == 'pipeline':
        m = pipeline_dp_vizier_dataset_generator
        self.gen = m.PipelineDpDatasetGenerator(
            config, m.PipelineDpDatasetGeneratorConfig(max_num_privacy_ids=c['n'],
                                                       max_num_partitions=c['d']))
      elif c['kind'] == 'custom':
        self.gen = Custom(config)
      else:
        self.gen = vizier_dataset_generator.VizierScalarDataAddRemoveGenerator(config)
    self.delivered = None
    self.reported = True
    self.last = None
    self.unsure = False
    s = self.study['config']
    if len(s.metric_information) != 1 or s.metric_information[0].name != 'divergence' or (
        s.metric_information[0].goal != auditorium.ObjectiveMetricGoal.MAXIMIZE):
      raise Violation('study', 'the study does not maximise the configured metric')
    size = {'classification': c['n'] * (c['d'] + 1), 'pipeline': c['n'] * c['d']}.get(
        c['kind'], c['n'])
    params = s.search_space.root.params
    if len(params) != size or len({q[0] for q in params}) != size:
      raise Violation('study', f'the study has the parameters {params}, expected {size} of them')


def shown(data):
  if isinstance(data, tuple):
    return tuple(np.asarray(x).tolist() for x in data)
  return [tuple(x) if isinstance(x, (tuple, list)) else float(x) for x in data]


def neighbours(case, params, values, pair):
  """Checks the datasets against the trial; returns True if the record fields are swapped."""
  d1, d2 = pair
  flat = [float(values[q[0]]) for q in params]
  if case['kind'] == 'classification':
    n, d = case['n'], case['d']
    floats = [float(values[q[0]]) for q in params if q[1] == 'float']
    ints = [float(values[q[0]]) for q in params if q[1] == 'int']
    big = (np.array(floats).reshape(n, d), np.array(ints))
    for got, want, what in ((d1, big, 'first'), (d2, (big[0][:-1], big[1][:-1]), 'second')):
      if (np.shape(got[0]) != want[0].shape or np.shape(got[1]) != want[1].shape
          or not np.array_equal(got[0], want[0]) or not np.array_equal(got[1], want[1])):
        raise Violation('datasets', f'the {what} dataset is {shown(got)}, the trial gives '
                        f'{shown(want)}')
  elif case['kind'] == 'pipeline':
    ids, parts = case['n'], case['d']
    rec = {}
    want2 = []
    for i in range(ids):
      for j in range(parts):
        want2.append((j, i, flat[i * parts + j]))
    want1 = [r for r in want2 if r[1] != ids - 1]
    key = lambda rows: sorted((float(a), float(b), float(v)) for a, b, v in rows)
    swap = lambda rows: [(b, a, v) for a, b, v in rows]
    if key(d1) == key(want1) and key(d2) == key(want2):
      return False
    if key(swap(d1)) == key(want1) and key(swap(d2)) == key(want2):
      return True
    raise Violation('datasets', f'the datasets are {d1} and {d2}, the trial gives {want1} and '
                    f'{want2}')
  else:
    small = flat[:-1] if case['kind'] == 'scalar' else (
        flat[:len(flat) // 2] + flat[len(flat) // 2 + 1:])
    if shown(d1) != small or shown(d2) != flat:
      raise Violation('datasets', f'the datasets are {shown(d1)} and {shown(d2)}, the trial gives '
                      f'{small} and {flat}')
  return False


def call(case, service, c, v, cov, tracer=None):
  """One call of the generator, judged.  Returns (ok, swapped)."""
  mark = len(service.log)
  err = pair = None
  try:
    pair = tracer.run(lambda: c.gen(v)) if tracer else c.gen(v)
  except BaseException as e:  # pylint: disable=broad-except
    err = e
  log = service.log[mark:]
  key = f'owner/study{c.index}'
  trials = {t.uid: t for t in c.study['trials']}
  seen_new = False
  for entry in log:
    if entry[1] != key:
      raise Violation('foreign-study', f'request {entry[0]} on {entry[1]}, the generator has {key}')
    if entry[0] == 'suggest':
      if v is not None and c.delivered is not None and not c.reported:
        raise Violation('suggest-before-report', f'a suggestion was asked for before the result '
                        f'{v!r} of trial {c.delivered} was reported')
      seen_new = True
      continue
    _, _, uid, status, m = entry
    if status != 'ACTIVE':
      raise Violation('reported-twice', f'trial {uid} was reported again, with '
                      f'{getattr(m, "metrics", None)}')
    if v is None:
      raise Violation('reported-nothing', f'trial {uid} was reported though no result was given')
    if uid != c.delivered:
      raise Violation('misattributed', f'the result {v!r} was reported for trial {uid}, the '
                      f'datasets it belongs to come from trial {c.delivered}')
    if getattr(m, 'metrics', None) != {'divergence': float(v)}:
      raise Violation('wrong-result', f'trial {uid} was reported with '
                      f'{getattr(m, "metrics", None)}, its result is {v!r}')
    c.reported = True
  if err is not None:
    return err, False
  if v is not None and not c.reported:
    raise Violation('result-lost', f'the result {v!r} of trial {c.delivered} was never reported')
  if not isinstance(pair, (tuple, list)) or len(pair) != 2:
    raise Violation('datasets', f'the generator returned {pair!r}')
  active = [t for t in trials.values() if t.status == 'ACTIVE']
  if len(active) != 1:
    raise Violation('no-trial', f'datasets were returned while {len(active)} trials are open')
  t = active[0]
  swapped = neighbours(case, c.study['config'].search_space.root.params, t.values, pair)
  if c.delivered != t.uid:
    c.delivered, c.reported = t.uid, False
  cov.trace('datasets', t.uid, shown(pair[0]), shown(pair[1]))
  return None, swapped


def execute(case, cov):
  service = auditorium.reset(case['bits'])
  Custom.fail = False
  clients = [Client(case, i, service) for i in range(2 if case['two'] else 1)]
  for c in clients:
    c.create()
  if case['int']:
    cov.probe('int_parameters')
  swapped = special = faults = crashes = 0
  for op in case['ops']:
    c = clients[op['g'] % len(clients)]
    cov.step()
    if op['op'] == 'restart':
      crashes += 1
      cov.probe('crash_restart')
      cov.fault('crash')
      old = c.gen
      if op['fault'] == 'create':
        service.faults['create'] = ['before']
        try:
          c.create()
        except auditorium.ServiceError:
          cov.probe('create_failed')
          cov.fault('create failed')
        else:
          raise Violation('failure-swallowed', 'the study could not be created, no error')
      del old
      c.create()
      continue
    value = float(op['value']) if isinstance(op['value'], str) else op['value']
    if op['type'] == 'numpy':
      value = np.float64(value)
    if op['v'] == 'none':
      v = None
    elif op['v'] == 'retry' and c.last is not None:
      v = c.last
    else:
      v = value
    if c.unsure:
      v = None           # the interrupted call may have been about to return
    if c.delivered is None and v is not None and crashes:
      v = None           # after a crash the user has no result yet
    tracer = None
    service.faults = {}
    f = op['fault']
    if f in ('complete', 'parameters'):
      service.faults[f] = ['before'] * op['n']
    elif f in ('suggest', 'empty', 'none', 'suggest-after'):
      service.faults['suggest'] = [{'suggest': 'before', 'suggest-after': 'after'}.get(f, f)] * op['n']
    elif f == 'custom':
      Custom.fail = True
    elif f == 'line':
      # not while a completion is being sent: an interruption just after it
      # took effect is the lost-answer case the statement leaves open
      if v is None or c.reported:
        tracer = inject._Tracer(at=int(op['frac'] * 40), exc=inject.EXCS[op['exc']])  # pylint: disable=protected-access
    fired = len(service.fired)
    if v is not None and c.delivered is not None and not c.reported:
      special += v <= 0
      cov.probe('zero_result', int(v == 0))
      cov.probe('negative_result', int(v < 0))
      cov.probe('infinite_result', int(abs(v) == float('inf')))
    if v is None and c.delivered is not None:
      cov.probe('none_repeated')
    if v is not None and c.last is not None and v is c.last:
      cov.probe('retry_same_result')
    err, sw = call(case, service, c, v, cov, tracer)
    swapped += sw
    got = service.fired[fired:]
    boom = f == 'custom' and case['kind'] == 'custom' and not Custom.fail
    Custom.fail = False
    cut = tracer is not None and tracer.fired
    if cut:
      cov.probe('interrupted')
      cov.fault('exception at a line')
    for k, how in got:
      faults += 1
      cov.fault(f'{k} {how}')
      cov.probe({'complete': 'complete_failed', 'parameters': 'parameters_failed'}.get(
          k, {'before': 'suggest_failed', 'after': 'suggest_answer_lost'}.get(
              how, 'no_suggestion')))
    if boom:
      faults += 1
      cov.probe('subclass_failed')
      cov.fault('subclass raises')
    service.faults = {}
    if err is not None:
      if not (got or boom or cut):
        raise err
      cov.trace('raised', type(err).__name__)
      c.last = v if v is not None else c.last
      c.unsure = c.unsure or bool(cut)
    else:
      if got or boom:
        raise Violation('failure-swallowed', f'{got or "subclass failure"}: the generator '
                        'returned datasets all the same')
      c.last = None
      c.unsure = False
  # faults have stopped: progress
  done = 0
  for c in clients:
    if c.last is not None and c.delivered is not None and not c.reported and not c.unsure:
      err, sw = call(case, service, c, c.last, cov)
      if err is not None:
        raise err
    for v in (None, 0.0, -2.0, 1.25, 0):
      err, sw = call(case, service, c, v, cov)
      swapped += sw
      if err is not None:
        raise err
    done += sum(t.status == 'COMPLETED' for t in c.study['trials'])
    open_ = [t.uid for t in c.study['trials'] if t.status != 'COMPLETED']
    if open_ != [c.delivered]:
      raise Violation('open-trials', f'trials {open_} are open, the last datasets come from '
                      f'{c.delivered}')
  cov.state((case['kind'], case['n'], case['d'], min(done, 20), min(faults, 10), crashes))
  cov.nontrivial = done >= 3 and (faults > 0 or special > 0)
  if swapped:
    raise Violation('pipeline-record-order', 'records are (privacy id, partition id, value), '
                    'documented and consumed as (partition id, privacy id, value): the two '
                    'datasets differ in a partition, not in a privacy id')
