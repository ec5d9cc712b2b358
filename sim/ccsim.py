"""Builds the C++ simulation binary from the current tree and talks to it."""
import json
import os
import re
import select
import shutil
import subprocess
import time
from concurrent.futures import ThreadPoolExecutor

from sim import core
from sim import gosim

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OPT = ['-O1', '-std=c++17', '-w', '-include', 'standins/compat.h']
# The parts of rand.{h,cc} that are replaced in the staged copy only.
LOCKS = re.compile(r'\babsl::(Mutex|MutexLock|WriterMutexLock|ReaderMutexLock|'
                   r'ReleasableMutexLock)\b')
STD_LOCKS = re.compile(r'\bstd::(mutex|shared_mutex|recursive_mutex)\b')
HEAVY = ('d_mean', 'd_var', 'd_sum', 'd_quant')


def _run(cmd, cwd):
  p = subprocess.run(cmd, cwd=cwd, capture_output=True, text=True, check=False)
  if p.returncode:
    raise gosim.BuildError(f'{" ".join(cmd)}:\n{p.stdout[-1500:]}{p.stderr[-4000:]}')
  return p.stdout


def _copy(src, dst):
  for dirpath, dirs, names in os.walk(src):
    dirs[:] = [d for d in dirs if d != 'testing']
    for name in names:
      if name.endswith(('.h', '.cc')) and not re.search(
          r'(_test|_benchmark|-testing|_benchmark_test)\.(h|cc)$', name):
        to = os.path.join(dst, os.path.relpath(dirpath, src))
        os.makedirs(to, exist_ok=True)
        shutil.copy(os.path.join(dirpath, name), to)


def stage(scratch, seams=True):
  """Copies cc/ and proto/, compiles the protos, puts the seams into rand.*."""
  root = os.path.join(scratch, 'cc')
  os.makedirs(root)
  for d in ('algorithms', 'base', 'proto'):
    _copy(os.path.join(core.REPO, 'cc', d), os.path.join(root, d))
  _copy(os.path.join(core.REPO, 'third_party', 'cephes'),
        os.path.join(root, 'third_party', 'cephes'))
  protos = []
  for name in sorted(os.listdir(os.path.join(core.REPO, 'proto'))):
    if name.endswith('.proto'):
      shutil.copy(os.path.join(core.REPO, 'proto', name), os.path.join(root, 'proto'))
      protos.append('proto/' + name)
  _run(['protoc', '-I', '.', '--cpp_out=.'] + protos, root)
  for name in ('rand.h', 'rand.cc') if seams else ():
    p = os.path.join(root, 'algorithms', name)
    text = open(p).read()
    text = STD_LOCKS.sub('::simmx::Mutex', LOCKS.sub(r'::simmx::\1', text))
    open(p, 'w').write('#include "simmx.h"\n' + text)
  shutil.copytree(os.path.join(HERE, 'cc', 'driver'), os.path.join(root, 'driver'))
  shutil.copytree(os.path.join(HERE, 'cc', 'standins'), os.path.join(root, 'standins'))
  return root


def compile_all(root, sources, out, extra=(), link=()):
  """Compiles the sources in parallel and links them."""
  inc = ['-I', 'standins', '-I', '.', '-I', 'driver']
  libs = _run(['pkg-config', '--libs', 'absl_base', 'absl_status', 'absl_statusor',
               'absl_strings', 'absl_str_format', 'absl_random_random',
               'absl_random_distributions', 'absl_synchronization', 'absl_cord',
               'absl_time', 'absl_flat_hash_map', 'protobuf'], root).split()

  def one(src):
    obj = src.rsplit('.', 1)[0].replace('/', '_') + '.o'
    if src == 'algorithms/rand.cc' and not link:
      cmd = ['clang++', '-fsanitize-coverage=func,trace-pc-guard,trace-loads,trace-stores']
    else:
      cmd = ['g++']
    _run(cmd + OPT + inc + list(extra) + ['-c', src, '-o', obj], root)
    return obj

  with ThreadPoolExecutor(max(2, os.cpu_count() or 2)) as ex:
    objs = list(ex.map(one, sources))
  _run(['g++', '-o', out] + objs + libs + list(link), root)


def build(scratch):
  root = stage(scratch)
  src = []
  for d in ('driver', 'algorithms', 'algorithms/internal', 'proto',
            'third_party/cephes'):
    names = [n for n in os.listdir(os.path.join(root, d)) if n.endswith('.cc')]
    src += [f'{d}/{n}' for n in names]
  heavy = lambda s: (not any(h in s for h in HEAVY), s)  # long compilations first
  out = os.path.join(scratch, 'ccsim')
  compile_all(root, sorted(src, key=heavy), out)
  shutil.rmtree(root, ignore_errors=True)
  return out


class Dead(RuntimeError):
  """The simulated process ended by itself: a failed CHECK, a crash or a hang."""

  def __init__(self, how, n, done):
    super().__init__(f'{how} {n}')
    self.how, self.n, self.done = how, n, done


class Simulator(gosim.Simulator):

  def run(self, lines, seconds=60):
    """Runs one program; returns (replies, None or a Dead)."""
    p = self.start()
    text = f'{len(lines)} {seconds}\n' + ''.join(l + '\n' for l in lines)
    out, buf = [], b''
    try:
      p.stdin.write(text.encode())
      p.stdin.flush()
      fd = p.stdout.fileno()
      limit = time.monotonic() + seconds + 60
      while True:
        ready, _, _ = select.select([fd], [], [], max(0, limit - time.monotonic()))
        if not ready:
          raise RuntimeError('harness: the simulator does not answer')
        chunk = os.read(fd, 1 << 20)
        if not chunk:
          raise RuntimeError('harness: the simulator died')
        buf += chunk
        *full, buf = buf.split(b'\n')
        for line in full:
          rep = json.loads(line)
          if 'harness' in rep:
            raise RuntimeError('harness: ' + rep['harness'])
          if 'end' in rep:
            if rep['end'] == 'exit' and rep['n'] == 0:
              return out, None
            if rep['end'] == 'exit' and rep['n'] == 3:
              raise RuntimeError('harness: bad program')
            return out, Dead(rep['end'], rep['n'], len(out))
          out.append(rep)
    except BaseException:
      self.kill()
      raise

  def start(self):
    if self.proc is not None and self.proc[0] == os.getpid() and self.proc[1].poll() is None:
      return self.proc[1]
    p = subprocess.Popen([self.binary], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                         stderr=subprocess.DEVNULL, bufsize=0)
    self.proc = (os.getpid(), p)
    return p


_sim = Simulator()


def prepare():
  _sim.prepare(build, 'ccsim-')


def run(lines, seconds=60):
  prepare()
  return _sim.run(lines, seconds)
