#!/usr/bin/env python3
"""Entry point of every Python check: run.py <ID> [--replay FILE] [--runs N] ...

Re-executes itself under the interpreter the repository is tested with, with
every process-level source of nondeterminism pinned (hash seed, BLAS threads,
byte-code cache), then hands over to sim.core.
"""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
PY = '/opt/venv/bin/python'

ENV = {
    'PYTHONPATH': ':'.join([
        HERE, REPO + '/python/dp_accounting', REPO + '/learning',
        REPO + '/python/dp_auditorium']),
    'PYTHONDONTWRITEBYTECODE': '1',
    'PYTHONPYCACHEPREFIX': '/nonexistent-pycache',
    'PYTHONHASHSEED': os.environ.get('VERIF_HASHSEED', '0'),
    'OMP_NUM_THREADS': '1',
    'OPENBLAS_NUM_THREADS': '1',
    'MKL_NUM_THREADS': '1',
    'VERIF_CHILD': '1',
}

if os.environ.get('VERIF_CHILD') != '1':
  env = dict(os.environ)
  env.update(ENV)
  py = PY if os.path.exists(PY) else sys.executable
  os.execve(py, [py, '-X', 'faulthandler', os.path.abspath(__file__)] + sys.argv[1:], env)

sys.path.insert(0, HERE)
from sim import core  # pylint: disable=g-import-not-at-top

if __name__ == '__main__':
  sys.exit(core.main(sys.argv[1:]))
