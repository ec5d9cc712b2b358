"""Fault injection inside real code: raise an exception at a chosen line.

`sys.settrace` delivers a line event before every source line executed in a
file under the repository; the injector counts them and raises the chosen
exception at the chosen one, which is where a signal handler (Ctrl-C), an
allocation failure or a failing callee would surface.  No hook is needed in
the code under test and the event sequence is a pure function of the run.
"""
import os
import sys

REPO = os.environ.get('VERIF_REPO', '/repo') + '/'


class InjectedError(Exception):
  """An injected, otherwise impossible, failure."""


EXCS = {
    'KeyboardInterrupt': KeyboardInterrupt,
    'MemoryError': MemoryError,
    'InjectedError': InjectedError,
}


def mixed(base, name):
  """A class for failures of components: `base` and the builtin `name` at once."""
  import builtins  # pylint: disable=g-import-not-at-top
  return type(f'{base.__name__}_{name}', (base, getattr(builtins, name)), {})


# what a failing component (callback, random source, store) may raise
COMPONENT = ('ValueError', 'OverflowError', 'ZeroDivisionError', 'FloatingPointError', 'KeyError',
             'IndexError', 'TypeError', 'AttributeError', 'RuntimeError', 'NotImplementedError',
             'OSError', 'TimeoutError', 'AssertionError', 'StopIteration', 'LookupError',
             'ArithmeticError')


class _Tracer:

  def __init__(self, at=None, exc=None, cap=400000):
    self.events = []
    self.n = 0
    self.at = at
    self.exc = exc
    self.fired = None
    self.cap = cap

  def _global(self, frame, event, arg):
    if not frame.f_code.co_filename.startswith(REPO):
      return None
    # NOTE: generator expressions/comprehensions inside repo files included.
    return self._local

  def _local(self, frame, event, arg):
    if event == 'line':
      i = self.n
      self.n += 1
      if self.at is None:
        if i < self.cap:
          self.events.append((frame.f_code.co_filename, frame.f_lineno))
      elif i == self.at and self.fired is None:
        self.fired = (frame.f_code.co_filename[len(REPO):],
                      frame.f_code.co_name, frame.f_lineno)
        raise self.exc('injected')
    return self._local

  def run(self, fn):
    old = sys.gettrace()
    sys.settrace(self._global)
    try:
      return fn()
    finally:
      sys.settrace(old)


def count_lines(fn):
  """Runs fn (on throw-away objects) and returns its line events."""
  t = _Tracer()
  try:
    t.run(fn)
  except Exception:  # pylint: disable=broad-except
    pass
  return t.events


def pick(events, spec):
  """Index of the line event at which to fire, from a fault spec."""
  if not events:
    return 0
  if spec['mode'] == 'time':
    return min(int(spec['frac'] * len(events)), len(events) - 1)
  if spec['mode'] == 'tail':  # among the last few lines executed
    k = min(len(events), 12)
    return len(events) - 1 - min(int(spec['frac'] * k), k - 1)
  distinct = list(dict.fromkeys(events))
  if spec['mode'] == 'file':  # a file first, so that short ones are not missed
    files = list(dict.fromkeys(f for f, _ in distinct))
    x = spec['frac'] * len(files)
    f = files[min(int(x), len(files) - 1)]
    own = [e for e in distinct if e[0] == f]
    line = own[min(int((x - int(x)) * len(own)), len(own) - 1)]
    occ = [i for i, e in enumerate(events) if e == line]
    return occ[min(int(spec.get('occ', 0) * len(occ)), len(occ) - 1)]
  line = distinct[min(int(spec['frac'] * len(distinct)), len(distinct) - 1)]
  occ = [i for i, e in enumerate(events) if e == line]
  return occ[min(int(spec.get('occ', 0) * len(occ)), len(occ) - 1)]


def random_spec(rng):
  return {
      'mode': rng.choice(['line', 'line', 'file', 'file', 'time', 'tail']),
      'frac': round(rng.random(), 4),
      'occ': rng.choice([0, 0, round(rng.random(), 3), 0.999]),
      'exc': rng.choice(list(EXCS)),
  }


def run_with_fault(spec, fn, dry_fn):
  """Runs fn with the fault of `spec`; dry_fn is the same work on a copy.

  Returns (outcome, value, fired): outcome 'ok' or 'raised'.
  """
  events = count_lines(dry_fn)
  if not events:
    return 'ok', fn(), None
  t = _Tracer(at=pick(events, spec), exc=EXCS[spec['exc']])
  try:
    value = t.run(fn)
    return 'ok', value, t.fired
  except BaseException as e:  # pylint: disable=broad-except
    if t.fired is None and not isinstance(e, Exception):
      raise
    return 'raised', e, t.fired
