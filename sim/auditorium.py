"""Makes the audit library importable offline and simulates the optimiser service.

The audit library needs Vizier, TensorFlow, etils and typing_extensions, none of
which is installed.  `install()` registers stand-ins for the modules at its edge
(the optimiser client and type helpers) and leaves everything inside it real.
The stand-in of the optimiser is a simulated remote service: one durable study
store, requests that may fail before or after taking effect, empty answers.
"""
import enum
import os
import random
import sys
import types
import typing

REPO = os.environ.get('VERIF_REPO', '/repo')
ROOT = REPO + '/python/dp_auditorium/dp_auditorium'


class ServiceError(Exception):
  """A request to the optimiser service failed."""


class Service:
  """The durable study store plus its fault plan."""

  def __init__(self, seed=0):
    self.studies = {}
    self.rng = random.Random(f'vizier/{seed}')
    self.log = []            # (request, study, detail)
    self.calls = 0
    self.faults = {}         # request kind -> list of pending faults
    self.fired = []

  def request(self, kind):
    """Returns None, or the fault to apply to this request."""
    self.calls += 1
    q = self.faults.get(kind)
    if q:
      f = q.pop(0)
      if f:
        self.fired.append((kind, f))
      return f
    return None

  def pending(self):
    return any(any(q) for q in self.faults.values())


SERVICE = Service()


class _Root:

  def __init__(self):
    self.params = []

  def add_float_param(self, name, min_value, max_value, **kw):
    self.params.append((name, 'float', float(min_value), float(max_value)))
    return self

  def add_int_param(self, name, min_value, max_value, **kw):
    self.params.append((name, 'int', int(min_value), int(max_value)))
    return self


class _Space:

  def __init__(self):
    self.root = _Root()


class ProblemStatement:

  def __init__(self, search_space=None, metric_information=(), metadata=None):
    self.search_space = search_space or _Space()
    self.metric_information = list(metric_information)
    self.metadata = metadata or {}


class StudyConfig(ProblemStatement):

  def __init__(self, search_space=None, metric_information=(), metadata=None,
               algorithm=None):
    super().__init__(search_space, metric_information, metadata)
    self.algorithm = algorithm

  @classmethod
  def from_problem(cls, problem, algorithm=None):
    return cls(problem.search_space, problem.metric_information, problem.metadata,
               algorithm)


class ObjectiveMetricGoal(enum.Enum):
  MAXIMIZE = 'MAXIMIZE'
  MINIMIZE = 'MINIMIZE'


class MetricInformation:

  def __init__(self, name='', goal=None, **kw):
    self.name = name
    self.goal = goal


class Measurement:

  def __init__(self, metrics=None, elapsed_secs=0.0, steps=0):
    self.metrics = {k: float(v) for k, v in dict(metrics or {}).items()}


class _Stored:

  def __init__(self, uid, values):
    self.uid = uid
    self.values = values
    self.status = 'ACTIVE'
    self.final = None


class Trial:
  """Client handle of a stored trial (any number may exist per trial)."""

  def __init__(self, service, stored, study):
    self._service = service
    self._stored = stored
    self._study = study

  @property
  def id(self):
    return self._stored.uid

  @property
  def parameters(self):
    if self._service.request('parameters'):
      raise ServiceError('parameters')
    return dict(self._stored.values)

  def complete(self, measurement=None, *, infeasible_reason=None):
    f = self._service.request('complete')
    if f:
      raise ServiceError('complete')
    self._service.log.append(('complete', self._study.key, self._stored.uid,
                              self._stored.status, measurement))
    if self._stored.status != 'ACTIVE':
      raise ServiceError(f'trial {self._stored.uid} is {self._stored.status}, not ACTIVE')
    self._stored.status = 'COMPLETED'
    self._stored.final = measurement
    return measurement


class Study:

  def __init__(self, service, key):
    self._service = service
    self.key = key

  @classmethod
  def from_study_config(cls, config, *, owner, study_id):
    if SERVICE.request('create'):
      raise ServiceError('create')
    key = f'{owner}/{study_id}'
    SERVICE.studies.setdefault(key, {'config': config, 'trials': []})
    return cls(SERVICE, key)

  def _store(self):
    return self._service.studies[self.key]

  def suggest(self, *, count=None, client_id='default_client_id'):
    f = self._service.request('suggest')
    if f == 'before':
      raise ServiceError('suggest')
    if f == 'empty':
      self._service.log.append(('suggest', self.key, 'empty'))
      return []
    if f == 'none':
      self._service.log.append(('suggest', self.key, 'none'))
      return [None]
    store = self._store()
    active = [t for t in store['trials'] if t.status == 'ACTIVE']
    if not active:
      values = {}
      for name, kind, lo, hi in store['config'].search_space.root.params:
        r = self._service.rng
        v = lo + (hi - lo) * r.choice([0.0, 1.0, r.random(), r.random(), r.random()])
        values[name] = int(round(v)) if kind == 'int' else min(max(v, lo), hi)
      names = list(values)
      self._service.rng.shuffle(names)    # mappings carry no order
      t = _Stored(len(store['trials']) + 1, {n: values[n] for n in names})
      store['trials'].append(t)
      active = [t]
    self._service.log.append(('suggest', self.key, active[0].uid))
    if f == 'after':
      raise ServiceError('suggest: answer lost')
    return [Trial(self._service, active[0], self)]

  def get_trial(self, uid):
    for t in self._store()['trials']:
      if t.uid == uid:
        return Trial(self._service, t, self)
    raise ServiceError('no such trial')

  def trials(self, *unused):
    return [Trial(self._service, t, self) for t in self._store()['trials']]


def _module(name, **attrs):
  m = types.ModuleType(name)
  for k, v in attrs.items():
    setattr(m, k, v)
  sys.modules[name] = m
  if '.' in name:
    parent, leaf = name.rsplit('.', 1)
    setattr(sys.modules[parent], leaf, m)
  return m


def install():
  """Registers the stand-ins.  Idempotent."""
  if 'dp_auditorium' in sys.modules:
    return
  try:
    import typing_extensions  # pylint: disable=unused-import,g-import-not-at-top
  except ImportError:
    m = types.ModuleType('typing_extensions')
    for k in dir(typing):
      if not k.startswith('__'):
        setattr(m, k, getattr(typing, k))
    sys.modules['typing_extensions'] = m
  for name in ('etils', 'vizier', 'vizier.service'):
    _module(name, __path__=[])

  class _Any:

    def __class_getitem__(cls, item):
      return cls

  _module('etils.array_types', IntArray=_Any, FloatArray=_Any)
  _module('vizier.service.clients', Study=Study, Trial=Trial)
  _module('vizier.service.pyvizier', ProblemStatement=ProblemStatement,
          StudyConfig=StudyConfig, ObjectiveMetricGoal=ObjectiveMetricGoal,
          MetricInformation=MetricInformation, Measurement=Measurement, Algorithm=str)
  # the packages themselves, without their __init__ (they import every tester,
  # hence TensorFlow); each submodule is the real file
  for sub in ('', '.configs', '.generators', '.mechanisms', '.testers'):
    _module('dp_auditorium' + sub, __path__=[ROOT + sub.replace('.', '/')])


def reset(seed):
  """A new, empty optimiser service."""
  global SERVICE
  SERVICE = Service(seed)
  return SERVICE
