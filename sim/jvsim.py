"""Builds the simulator of the Java library from the current tree and talks to it."""
import os
import shutil
import subprocess

from sim import core
from sim import gosim
from sim import javaproto
from sim.core import Violation

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
JARS = ['/usr/share/java/guava.jar', '/usr/share/java/jsr305.jar',
        '/usr/share/java/error_prone_annotations.jar']
PACKAGE = os.path.join('java', 'main', 'com', 'google', 'privacy', 'differentialprivacy')


def _java(root):
  return sorted(os.path.join(d, n) for d, _, names in os.walk(root) for n in names
                if n.endswith('.java'))


def build(scratch):
  """Compiles the library, stand-ins for what it needs, and the driver; returns a launcher."""

  def javac(out, *args):
    cmd = ['javac', '-J-XX:+UseSerialGC', '-encoding', 'UTF-8', '-nowarn', '-d', out, *args]
    p = subprocess.run(cmd, cwd=scratch, capture_output=True, text=True, check=False)
    if p.returncode:
      raise gosim.BuildError(f'javac:\n{p.stdout[-1500:]}{p.stderr[-4000:]}')

  gen, out, proc = (os.path.join(scratch, d) for d in ('gen', 'classes', 'processor'))
  for d in (gen, out, proc):
    os.makedirs(d)
  javaproto.generate(os.path.join(core.REPO, 'proto'), gen)
  javac(proc, *_java(os.path.join(HERE, 'java', 'processor')))
  cp = ':'.join(JARS)
  javac(out, '-proc:none', '-cp', cp, *_java(os.path.join(HERE, 'java', 'standins')),
        *_java(gen))
  lib = os.path.join(core.REPO, PACKAGE)
  src = [os.path.join(lib, n) for n in sorted(os.listdir(lib)) if n.endswith('.java')]
  javac(out, '-cp', cp + ':' + out, '-processorpath', proc, '-processor', 'Values', *src,
        *_java(os.path.join(HERE, 'java', 'driver')))
  shutil.rmtree(gen)
  launcher = os.path.join(scratch, 'jvsim')
  with open(launcher, 'w') as f:
    f.write('#!/bin/sh\nexec java -XX:+UseSerialGC -XX:TieredStopAtLevel=1 -Xshare:auto '
            f'-Xmx1g -Xss4m -cp {out}:{cp} com.google.privacy.differentialprivacy.Main\n')
  os.chmod(launcher, 0o755)
  return launcher


_sim = gosim.Simulator()


def prepare():
  _sim.prepare(build, 'jvsim-')


def run(ops, seed=1, timeout=60):
  """Runs one program; returns (replies, injected faults)."""
  prepare()
  try:
    rep = _sim.call({'seed': str(seed), 'ops': ops}, timeout)
  except gosim.Crash as e:
    raise Violation('hang', f'the library did not come back or ended the process: {e}')
  return rep['reps'], rep['faults']
