"""Deterministic scheduler of real threads.

Monitoring events (PEP 669) park a thread before each source line, or each byte
code, it is about to execute in a file of the repository.  Exactly one
thread runs at a time; which one, and for how many events, is a list of
segments fixed by the run's case.  A park is a point where the interpreter
could switch threads, so a schedule is one real interleaving, replayed exactly.
"""
import gc
import sys
import threading
import types

from sim import inject

REPO = inject.REPO


TOOL = 4
_CODE = []


def repo_code():
  """All code objects of the functions of the repository that are loaded."""
  if _CODE:
    return _CODE
  seen, todo = set(), []
  for o in gc.get_objects():
    if isinstance(o, types.FunctionType):
      todo.append(o.__code__)
  while todo:
    c = todo.pop()
    if c in seen or not c.co_filename.startswith(REPO):
      continue
    seen.add(c)
    todo += [k for k in c.co_consts if isinstance(k, types.CodeType)]
  _CODE.extend(sorted(seen, key=lambda c: (c.co_filename, c.co_firstlineno, c.co_name)))
  return _CODE


class Thread:

  def __init__(self, name, fn, fault=None):
    self.name, self.fn = name, fn
    self.fault = fault      # (event index, exception type) or None
    self.sem = threading.Semaphore(0)
    self.events = 0
    self.budget = 0
    self.done = False
    self.stuck = False
    self.fired = None
    self.result = None
    self.where = None


class Scheduler:
  """Runs threads by segments [thread index, events]; then to completion."""

  def __init__(self, opcodes=False, patience=20.0):
    self.threads = []
    self.back = threading.Semaphore(0)
    self.opcodes = opcodes
    self.patience = patience
    self.switches = []       # (thread index, location it stopped at)
    self.blocked = 0
    self.local = threading.local()

  def spawn(self, fn, fault=None):
    t = Thread(len(self.threads), fn, fault)
    self.threads.append(t)

  # ------------------------------------------------------------ in a thread
  def _event(self, code, place):
    """Called before every line (or byte code) of the repository."""
    t = getattr(self.local, 'thread', None)
    if t is None:
      return
    t.events += 1
    if t.fault is not None and t.fired is None and t.events > t.fault[0]:
      t.fired = (code.co_name, place)
      raise t.fault[1]('injected')
    t.budget -= 1
    if t.budget <= 0:
      t.where = (code.co_name, place)
      self._park(t)

  def _instrument(self):
    m = sys.monitoring
    m.use_tool_id(TOOL, 'sim.sched')
    kind = m.events.INSTRUCTION if self.opcodes else m.events.LINE
    m.register_callback(TOOL, kind, self._event)
    for c in repo_code():
      m.set_local_events(TOOL, c, kind)

  def _park(self, t):
    self.back.release()
    t.sem.acquire()

  def _body(self, t):
    t.sem.acquire()
    self.local.thread = t
    try:
      t.result = ('ok', t.fn())
    except BaseException as e:  # pylint: disable=broad-except
      t.result = ('raised', type(e).__name__, str(e)[:300])
    finally:
      self.local.thread = None
      t.done = True
      t.where = None
      self.back.release()

  # ----------------------------------------------------------- the scheduler
  def _give(self, t, n):
    """Lets t run n events (or to its end); False if it blocked on another."""
    t.budget = n
    if not t.stuck:
      t.sem.release()
    else:
      t.stuck = False
    if not self.back.acquire(timeout=self.patience):
      t.stuck = True      # waits for a lock another thread holds
      self.blocked += 1
      return False
    return True

  def run(self, segments):
    self._instrument()
    real = [threading.Thread(target=self._body, args=(t,), daemon=True) for t in self.threads]
    for r in real:
      r.start()
    last = None
    for i, n in segments:
      t = self.threads[i % len(self.threads)]
      if t.done:
        continue
      self._give(t, n)
      if last is not None and last != t.name:
        self.switches.append((t.name, t.where))
      last = t.name
    spins = 0
    while not all(t.done for t in self.threads):
      for t in self.threads:
        if not t.done:
          self._give(t, 1000000)
      spins += 1
      if spins > 50:
        raise RuntimeError('threads do not end')
    for r in real:
      r.join()
    return [t.result for t in self.threads]
