"""Builds the simulated database server around cc/postgres and talks to it."""
import os
import re
import shutil

from sim import ccsim
from sim import core


def build(scratch):
  root = ccsim.stage(scratch, seams=False)
  ccsim._copy(os.path.join(core.REPO, 'cc', 'postgres'), os.path.join(root, 'postgres'))
  shutil.copytree(os.path.join(ccsim.HERE, 'cc', 'pg'), os.path.join(root, 'pg'))
  src = []
  for d in ('pg', 'postgres', 'algorithms', 'algorithms/internal', 'proto', 'third_party/cephes'):
    src += [f'{d}/{n}' for n in os.listdir(os.path.join(root, d)) if n.endswith('.cc')]
  heavy = lambda s: (not s.startswith(('pg/', 'postgres/')), s)
  out = os.path.join(scratch, 'pgsim')
  san = ['-fsanitize=address', '-D_GLIBCXX_ASSERTIONS']
  # the server's own headers are on the path of its extensions only
  ccsim.compile_all(root, sorted(src, key=heavy), out, san + ['-I', 'pg', '-I', 'postgres'],
                    san + ['-rdynamic', '-ldl'])
  shutil.rmtree(root, ignore_errors=True)
  return out


_sim = ccsim.Simulator()


def prepare():
  _sim.prepare(build, 'pgsim-')


def run(lines, seconds=60):
  prepare()
  return _sim.run(lines, seconds)


TYPES = {'double precision': 'd', 'float8': 'd', 'bigint': 'l', 'int8': 'l', 'integer': 'i',
         'int': 'i', 'int4': 'i', 'smallint': 's', 'int2': 's', 'anyelement': 'a',
         'internal': 'internal'}


def _types(args):
  out = []
  for a in args.split(','):
    a = ' '.join(a.lower().split())
    if not a:
      continue
    t = next((t for t in sorted(TYPES, key=len, reverse=True)
              if a == t or a.endswith(' ' + t)), None)
    out.append(TYPES[t] if t else a)
  return tuple(out)


class Script:
  """What the installation script of the extension creates."""

  def __init__(self):
    d = os.path.join(core.REPO, 'cc', 'postgres')
    text = ''
    for n in sorted(os.listdir(d)):
      if n.endswith('.sql'):
        text += open(os.path.join(d, n)).read() + '\n'
    text = re.sub(r'/\*.*?\*/', '', text, flags=re.S)
    text = re.sub(r'--.*', '', text)
    text = re.sub(r'^\\.*', '', text, flags=re.M)
    self.functions, self.aggregates = {}, {}
    for st in text.split(';'):
      st = ' '.join(st.split())
      m = re.match(r"CREATE (?:OR REPLACE )?FUNCTION (\w+) ?\((.*?)\) RETURNS (.+?) AS "
                   r"'([^']*)' ?, ?'(\w+)'(.*)$", st, re.I)
      if m:
        key = (m[1].lower(), _types(m[2]))
        self.functions[key] = (TYPES.get(m[3].lower(), m[3]), m[5],
                               bool(re.search(r'\bSTRICT\b|RETURNS NULL ON NULL', m[6], re.I)))
        continue
      m = re.match(r'CREATE (?:OR REPLACE )?AGGREGATE (\w+) ?\((.*?)\) ?\((.*)\)$', st, re.I)
      if m:
        opts = {k.strip().upper(): v.strip() for k, v in
                (o.split('=') for o in m[3].split(',') if '=' in o)}
        self.aggregates[(m[1].lower(), _types(m[2]))] = opts

  def resolve(self, name, args):
    """(transition symbol, strict, final symbol, type of the result, types) as the server would."""
    best = None
    for (n, types), opts in self.aggregates.items():
      if n != name or len(types) != len(args):
        continue
      cost = 0
      for a, t in zip(args, types):
        if a == t:
          continue
        if t == 'a':
          cost += 1
        elif (a, t) in (('s', 'i'), ('s', 'l'), ('i', 'l'), ('s', 'd'), ('i', 'd'), ('l', 'd')):
          cost += 10
        else:
          break
      else:
        if best is None or cost < best[0]:
          best = (cost, types, opts)
    if best is None:
      return None
    _, types, opts = best
    sf = self.functions.get((opts.get('SFUNC', '').lower(), ('internal',) + types))
    ff = self.functions.get((opts.get('FINALFUNC', '').lower(), ('internal',)))
    if sf is None or ff is None or opts.get('STYPE') != 'internal':
      return None
    return sf[1], sf[2], ff[1], ff[0], types
