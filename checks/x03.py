"""X03: C++ algorithms add noise that covers what one user can change."""
import math

from sim import ccgen
from sim.core import Violation

ID = 'X03'
RULE = ('two data sets that differ by one user went through one algorithm, the second '
        'answered with the noised values of the first, and the inputs, mechanisms and '
        'results were compared')
REAL = ['cc/algorithms (count, sum, mean, variance, standard deviation, quantiles, '
        'quantile tree, approximate bounds, order statistics, mechanism builders)',
        'cc/base', 'cc/proto', 'third_party/cephes']
STUB = ['noise values (planned by the simulator, then replayed as answers)',
        'absl logging']
ASSUMPTIONS = ['a user adds at most max_contributions_per_partition entries to one '
               'partition', 'integer sums stay inside the type']
RUNS = {'quick': 20000, 'thorough': 1200000}
BUDGET = {'quick': 90, 'thorough': 1500}
SHRINK_LISTS = ('base', 'user', 'plan')
STATE_MEASURE = 'distinct (algorithm, type, parameters)'
PROBES = (['kind-' + k for k in ccgen.KINDS] +
          ['approx', 'gauss', 'laplace', 'no-result', 'sharded', 'empty-base',
           'full-change', 'many-mechanisms', 'interval', 'clamped'])

prepare = ccgen.prepare


def generate(rng, tier):
  c = ccgen.config(rng)
  kv = c['kv']
  linf = kv.get('linf', 1)
  base = ccgen.entries(rng, c, rng.choice([0, 1, 2, 5, 9, 30]))
  r = rng.random()
  if r < .3 and 'lower' in kv:     # the largest change
    user = [kv[rng.choice(['lower', 'upper'])]] * linf
  else:
    user = ccgen.entries(rng, c, rng.randint(1, linf))
  return {'cfg': c, 'base': base, 'user': user, 'sharded': rng.random() < .3,
          'plan': ccgen.plan(rng, 400), 'level': rng.choice([.5, .9, .95])}


def _lines(c, name, vals, sharded):
  if not sharded:
    return [ccgen.new(c, name), ccgen.add(name, vals)]
  h = len(vals) // 2
  return [ccgen.new(c, name), ccgen.add(name, vals[:h]), ccgen.new(c, name + 'x'),
          ccgen.add(name + 'x', vals[h:]), f'ser {name}x s', f'merge {name} s']


def gauss_delta(sens, eps, sigma):
  """The exact delta of Gaussian noise."""
  if sigma == 0:
    return 1.0
  phi = lambda x: .5 * math.erfc(-x / math.sqrt(2))
  a = sens / (2 * sigma)
  b = eps * sigma / sens
  lo = phi(-a - b)
  return phi(a - b) - (math.exp(eps + math.log(lo)) if lo > 0 else 0.0)


def _number(x):
  return float(x) if isinstance(x, str) else x


def bounds_of(c):
  """The range of the results, where the algorithm promises one."""
  kv, kind = c['kv'], c['kind']
  if 'lower' not in kv:
    return None
  lo, hi = kv['lower'], kv['upper']
  if kind in ('mean', 'quant') or kind in ccgen.ORDER:
    return lo, hi
  if kind == 'var':
    return 0, (hi - lo) ** 2 / 4
  if kind == 'std':
    return 0, (hi - lo) / 2
  return None


def _noise_of(builds, calls):
  return [(builds[e['m']], e) for e in calls]


def execute(case, cov):
  c, level = case['cfg'], case['level']
  kind, kv = c['kind'], c['kv']
  prog = _lines(c, 'a', case['base'], False) + [
      ccgen.planned(case['plan']), f'result a {level}']
  one, dead = ccgen.run(prog)
  if dead:
    raise Violation('crash', f'the process ended ({dead}) at {prog[dead.done]!r}')
  cov.probe('kind-' + kind)
  if 'err' in one[0]:
    cov.probe('refused')
    return
  answers = [e['out'] for e in ccgen.noises(one[-1])]
  prog = _lines(c, 'b', case['base'] + case['user'], case['sharded']) + [
      ccgen.planned(answers, True), f'result b {level}']
  two, dead = ccgen.run(prog)
  if dead:
    raise Violation('crash', f'the process ended ({dead}) at {prog[dead.done]!r}')
  (ra, ea), (rb, eb) = ccgen.seen(one[-1]), ccgen.seen(two[-1])
  cov.step(len(ea) + len(eb))
  cov.trace(one, two)
  cov.state((kind, c['t'], sorted(kv)))
  if 'err' in ra:
    cov.probe('no-result')
  if c.get('approx'):
    cov.probe('approx')
  if case['sharded']:
    cov.probe('sharded')
  if not case['base']:
    cov.probe('empty-base')
  what = f'{kind} over {c["t"]}, {kv}, entries {case["base"]} and then {case["user"]}'

  # 1. The result is a function of the noised values alone.
  if ra != rb:
    raise Violation('unnoised', f'{what}: the same noised values give {ra} and {rb}')
  na, nb = [e for e in ea if e['e'] == 'noise'], [e for e in eb if e['e'] == 'noise']
  shape = lambda ev: [(e['e'], e['m'], e.get('k'), e.get('eps'), e.get('linf')) for e in ev]
  if shape(ea) != shape(eb):
    raise Violation('unnoised', f'{what}: with the same noised values the mechanisms '
                    f'used are {shape(ea)} and {shape(eb)}')
  if 'el' in ra and not na and kind not in ccgen.ORDER:
    raise Violation('unnoised', f'{what}: a result with no noise')

  # 2. What the user changes is what each mechanism was told.
  builds = {}
  for rep in one:
    for e in rep.get('ev', ()):
      if e['e'] == 'build':
        builds[e['m']] = e
  raw_a, raw_b = ccgen.noises(one[-1]), ccgen.noises(two[-1])
  moved = {}
  for x, y in zip(raw_a, raw_b):
    moved.setdefault(x['m'], []).append(abs(_number(x['in']) - _number(y['in'])))
  parts = kv.get('l0', 1)
  spent_eps = spent_delta = 0.0
  for m, diffs in moved.items():
    b = builds[m]
    l0, linf = b.get('l0', 1), b.get('linf', 1)
    eps, delta = b['eps'], b.get('delta', 0) or 0
    slack = 1e-9 * (linf + 1)
    cov.probe(b['kind'])
    if max(diffs) > linf + slack:
      raise Violation('sensitivity', f'{what}: one user moves an input by {max(diffs)}; '
                      f'the mechanism was told {linf}')
    if b['kind'] == 'laplace':
      got, told = sum(diffs), linf * l0 / parts
      sens = l0 * linf
      if b['var'] < 2 * (sens / eps) ** 2 * (1 - 1e-6):
        raise Violation('scale', f'{what}: Laplace variance {b["var"]} for sensitivity '
                        f'{sens} and epsilon {eps}')
    else:
      got, told = math.sqrt(sum(d * d for d in diffs)), linf * math.sqrt(l0 / parts)
      sens = math.sqrt(l0) * linf
      real = gauss_delta(sens, eps, math.sqrt(b['var']))
      if real > delta * (1 + 1e-6) + 1e-14:
        raise Violation('scale', f'{what}: Gaussian variance {b["var"]} gives delta {real} '
                        f'where {delta} is allowed')
    if got > told + slack * len(diffs):
      raise Violation('sensitivity', f'{what}: one user moves the inputs by {got} in all; '
                      f'the mechanism was told {told}')
    if linf and got > .99 * told:
      cov.probe('full-change')
    spent_eps += eps
    spent_delta += delta
  if len(moved) > 1:
    cov.probe('many-mechanisms')

  # 3. The budget.
  eps, delta = one[0]['eps'], one[0]['delta']
  if not eps <= kv['eps'] * (1 + 1e-9) or not delta <= kv.get('delta', 0) * (1 + 1e-9):
    raise Violation('budget', f'{what}: built for ({eps}, {delta})')
  if spent_eps > kv['eps'] * (1 + 1e-9) or spent_delta > kv.get('delta', 0) * (1 + 1e-9):
    raise Violation('budget', f'{what}: the mechanisms used ({spent_eps}, {spent_delta})')

  # 4. The promised range.
  lim = bounds_of(c)
  if lim and 'el' in ra:
    for e in ra['el']:
      v = _number(e['v'])
      slack = 1e-9 * (abs(lim[0]) + abs(lim[1]))
      if not lim[0] - slack <= v <= lim[1] + slack:
        raise Violation('range', f'{what}: {v} is outside {lim}')
      if v in lim:
        cov.probe('clamped')
  if any('ci' in e for e in ra.get('el', ())):
    cov.probe('interval')
  cov.nontrivial = bool(na)
