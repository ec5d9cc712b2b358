"""Builds the Privacy on Beam simulator: the real pbeam and Go library on a
simulated Beam runner (go/beam)."""
import os
import shutil

from sim import core
from sim import gosim

PB = 'github.com/google/differential-privacy/privacy-on-beam/v3'
BEAM = 'github.com/apache/beam/sdks/v2'
PROTO = 'google.golang.org/protobuf'

_sim = gosim.Simulator()


def build(scratch):
  here = gosim.HERE
  root, env, run = gosim.stage(scratch)
  pb = os.path.join(scratch, 'pb')
  for pkg in ('pbeam', 'internal/kv', 'internal/generated', 'internal/testoption'):
    src = os.path.join(core.REPO, 'privacy-on-beam', pkg)
    dst = os.path.join(pb, pkg)
    os.makedirs(dst)
    for name in sorted(os.listdir(src)):
      if name.endswith('.go') and not name.endswith('_test.go'):
        shutil.copy(os.path.join(src, name), dst)
  cmd = os.path.join(pb, 'pbeam', 'zsimcmd')
  shutil.copytree(os.path.join(here, 'go', 'pbsim'), cmd)
  beam = os.path.join(scratch, 'beam')
  shutil.copytree(os.path.join(here, 'go', 'beam'), os.path.join(beam, 'go'))
  proto = os.path.join(scratch, 'protobuf')
  shutil.copytree(os.path.join(here, 'go', 'protobuf'), proto)
  deps = {gosim.MODULE: root, BEAM: beam, PROTO: proto}

  def mod(path, name, needs):
    text = f'module {name}\n\ngo 1.22\n\n'
    for n in needs:
      text += f'require {n} v{"3" if n.endswith("/v3") else "2" if n.endswith("/v2") else "1"}.0.0\n'
      text += f'replace {n} => {deps[n]}\n'
    with open(os.path.join(path, 'go.mod'), 'w') as f:
      f.write(text)

  mod(proto, PROTO, [])
  mod(beam, BEAM, [gosim.MODULE])
  mod(pb, PB, list(deps))
  run([os.path.join(scratch, 'instr', 'instr'), root, gosim.MODULE, pb], root)
  out = os.path.join(scratch, 'pbsim')
  run(['go', 'build', '-o', out, './pbeam/zsimcmd'], pb)
  return out


def prepare():
  _sim.prepare(build, 'pbsim-')


def call(req, timeout=120):
  prepare()
  return _sim.call(req, timeout)


Crash = gosim.Crash
