"""Builds the simulator of cc/accounting from the current tree and talks to it."""
import os
import shutil
from concurrent.futures import ThreadPoolExecutor

from sim import ccsim
from sim import core


def build(scratch):
  root = os.path.join(scratch, 'acct')
  os.makedirs(root)
  for d in ('accounting', 'base'):
    ccsim._copy(os.path.join(core.REPO, 'cc', d), os.path.join(root, d))
  for name in ('accounting/example.cc', 'accounting/common/test_util.cc',
               'accounting/common/test_util.h'):
    if os.path.exists(os.path.join(root, name)):
      os.unlink(os.path.join(root, name))
  proto = 'proto/accounting/privacy-loss-distribution.proto'
  os.makedirs(os.path.join(root, os.path.dirname(proto)))
  shutil.copy(os.path.join(core.REPO, proto), os.path.join(root, proto))
  ccsim._run(['protoc', '-I', '.', '--cpp_out=.', proto], root)
  shutil.copytree(os.path.join(ccsim.HERE, 'cc', 'acct'), os.path.join(root, 'acct'))
  shutil.copytree(os.path.join(ccsim.HERE, 'cc', 'standins'), os.path.join(root, 'standins'))
  src = ['acct/main.cc', proto[:-5] + 'pb.cc']
  for d in ('accounting', 'accounting/common'):
    src += [f'{d}/{n}' for n in sorted(os.listdir(os.path.join(root, d))) if n.endswith('.cc')]
  libs = ccsim._run(['pkg-config', '--libs', 'absl_base', 'absl_status', 'absl_statusor',
                     'absl_strings', 'absl_str_format', 'protobuf'],
                    root).split()
  san = ['-fsanitize=address', '-D_GLIBCXX_ASSERTIONS']
  inc = ['-I', 'acct', '-I', 'standins', '-I', '.']

  def one(s):
    obj = s.rsplit('.', 1)[0].replace('/', '_') + '.o'
    ccsim._run(['g++'] + ccsim.OPT + san + inc + ['-c', s, '-o', obj], root)
    return obj

  with ThreadPoolExecutor(max(2, os.cpu_count() or 2)) as ex:
    objs = list(ex.map(one, src))
  out = os.path.join(scratch, 'acsim')
  ccsim._run(['g++'] + san + ['-o', out] + objs + libs, root)
  shutil.rmtree(root, ignore_errors=True)
  return out


_sim = ccsim.Simulator()


def prepare():
  _sim.prepare(build, 'acsim-')


def run(lines, seconds=60):
  prepare()
  return _sim.run(lines, seconds)
