"""Builds the Go simulation binary from the current tree and talks to it."""
import atexit
import json
import os
import select
import shutil
import subprocess
import tempfile

from sim import core

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MODULE = 'github.com/google/differential-privacy/go/v3'


class BuildError(RuntimeError):
  pass


def _env(scratch):
  env = dict(os.environ)
  env.update(GOFLAGS='-mod=mod', GOPROXY='off', GOSUMDB='off', GOTOOLCHAIN='local',
             GOWORK='off', CGO_ENABLED='0', GO111MODULE='on', GONOSUMDB='*',
             GOTELEMETRY='off')
  env.setdefault('HOME', '/root')
  cache = os.environ.get('VERIF_GOCACHE')
  if cache is None:
    cache = os.path.join(HERE, '.gocache')
    try:
      os.makedirs(cache, exist_ok=True)
      if not os.access(cache, os.W_OK):
        raise OSError
    except OSError:
      cache = os.path.join(scratch, 'gocache')
  env['GOCACHE'] = cache
  env['GOPATH'] = os.path.join(scratch, 'gopath')
  return env


def _sub(path):
  text = open(path).read().replace('MODULE/', MODULE + '/')
  open(path, 'w').write(text)


def stage(scratch):
  """Copies /repo/go and the simulator's parts; builds the instrumenter."""
  root = os.path.join(scratch, 'go')
  os.makedirs(root)
  for pkg in ('checks', 'dpagg', 'noise', 'rand'):
    src = os.path.join(core.REPO, 'go', pkg)
    dst = os.path.join(root, pkg)
    os.makedirs(dst)
    for name in sorted(os.listdir(src)):
      if name.endswith('.go') and not name.endswith('_test.go'):
        shutil.copy(os.path.join(src, name), dst)
  shutil.copytree(os.path.join(HERE, 'go', 'zsim'), os.path.join(root, 'zsim'))
  for dirpath, _, names in os.walk(os.path.join(root, 'zsim')):
    for name in names:
      _sub(os.path.join(dirpath, name))
  env = _env(scratch)

  def run(cmd, cwd):
    p = subprocess.run(cmd, cwd=cwd, env=env, capture_output=True, text=True,
                       check=False)
    if p.returncode:
      raise BuildError(f'{" ".join(cmd)}:\n{p.stdout[-2000:]}{p.stderr[-4000:]}')
    return p.stdout

  goroot = run(['go', 'env', 'GOROOT'], scratch).strip()
  sb = os.path.join(root, 'zsim', 'sbufio')
  os.makedirs(sb)
  for name in ('bufio.go', 'scan.go'):
    shutil.copy(os.path.join(goroot, 'src', 'bufio', name), sb)
  with open(os.path.join(root, 'go.mod'), 'w') as f:
    f.write(f'module {MODULE}\n\ngo 1.22\n')
  instr = os.path.join(scratch, 'instr')
  shutil.copytree(os.path.join(HERE, 'go', 'instr'), instr)
  with open(os.path.join(instr, 'go.mod'), 'w') as f:
    f.write('module instr\n\ngo 1.22\n')
  run(['go', 'build', '-o', 'instr', '.'], instr)
  return root, env, run


def build(scratch):
  """Builds the simulator of the Go library from the current tree."""
  root, _, run = stage(scratch)
  run([os.path.join(scratch, 'instr', 'instr'), root, MODULE], root)
  out = os.path.join(scratch, 'dpsim')
  run(['go', 'build', '-o', out, './zsim/cmd'], root)
  return out


class Crash(RuntimeError):
  pass


class Simulator:
  """One simulator binary: built once, one process per worker."""

  def __init__(self):
    self.binary = None
    self.owner = None
    self.proc = None

  def prepare(self, builder, prefix):
    """Called once before the workers are forked."""
    if self.binary is not None:
      return
    scratch = tempfile.mkdtemp(prefix=prefix)
    self.owner = (os.getpid(), scratch)

    def cleanup():
      if self.owner and self.owner[0] == os.getpid():
        shutil.rmtree(self.owner[1], ignore_errors=True)

    atexit.register(cleanup)
    keep = os.environ.get('VERIF_GOBIN_' + prefix.strip('-').upper())
    if keep:  # development only: reuse a binary
      self.binary = keep
      return
    self.binary = builder(scratch)

  def start(self):
    if self.proc is not None and self.proc[0] == os.getpid() and self.proc[1].poll() is None:
      return self.proc[1]
    env = dict(os.environ, GOMAXPROCS='2', GODEBUG='randautoseed=0')
    p = subprocess.Popen([self.binary], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                         stderr=subprocess.PIPE, env=env)
    self.proc = (os.getpid(), p)
    return p

  def kill(self):
    if self.proc is not None and self.proc[0] == os.getpid():
      self.proc[1].kill()
      self.proc[1].wait()
    self.proc = None

  def call(self, req, timeout=120):
    """Sends one program; returns the reply.  Crash if the process dies or hangs."""
    p = self.start()
    try:
      p.stdin.write(json.dumps(req).encode() + b'\n')
      p.stdin.flush()
      ready, _, _ = select.select([p.stdout], [], [], timeout)
      if not ready:
        self.kill()
        raise Crash(f'no answer within {timeout}s')
      line = p.stdout.readline()
    except BaseException:
      self.kill()
      raise
    if not line:
      err = p.stderr.read().decode(errors='replace')[-1500:]
      self.kill()
      raise Crash(f'the process died: {err}')
    rep = json.loads(line)
    if 'harness' in rep:
      raise RuntimeError('harness: ' + rep['harness'])
    return rep


_sim = Simulator()


def prepare():
  _sim.prepare(build, 'dpsim-')


def call(req, timeout=120):
  prepare()
  return _sim.call(req, timeout)
