"""C04: privacy accounting survives crash and restart from a persisted ledger."""
import collections
import copy
import json
import math
import pickle
import zlib

import attr
from dp_accounting import dp_event
from dp_accounting import dp_event_builder

from sim import events as ev
from sim import inject
from sim.core import Violation

ID = 'C04'
RULE = ('a run is a process that composes, checkpoints its ledger to a simulated '
        'disk, is interrupted or crashes, recovers and goes on; non-trivial if at '
        'least one crash hit after a checkpoint and work went on after recovery')
REAL = ['DpEvent.to_named_tuple/from_named_tuple', 'dp_event_builder',
        'RdpAccountant', 'PLDAccountant', 'pickle/copy protocol of all of them']
STUB = ['disk (buffered appends, sync, torn tail, bit flips)', 'record framing '
        'and the re-encoding of named tuples (the caller\'s responsibility)']
ASSUMPTIONS = ['records are framed with a checksum by the caller; damage inside a '
               'record is modelled at the level of named-tuple fields']
RUNS = {'quick': 1600, 'thorough': 50000}
SHRINK_LISTS = ('ops',)
STATE_MEASURE = '(accountant, checkpoints, crash kind, leaves recovered)'
PROBES = ('crash_recovered', 'torn_tail', 'lost_tail', 'bytes_names', 'interrupted_save',
          'damaged_refused', 'pickled', 'deepcopied', 'recovered_to_empty',
          'custom_event', 'work_after_recovery')


@attr.s(frozen=True, slots=True, auto_attribs=True)
class CustomDpEvent(dp_event.DpEvent):
  """A user's event with every kind of field the conversion supports."""
  event: dp_event.DpEvent
  by_name: dict
  items: tuple
  label: str
  raw: bytes
  weight: float


def build(j):
  """JSON -> DpEvent, including the custom type."""
  if j[0] == 'X':
    return CustomDpEvent(
        build(j[1]), {k: build(v) for k, v in j[2]},
        tuple(build(x) for x in j[3]), j[4], j[4].encode(), j[5])
  if j[0] == 'C':
    return dp_event.ComposedDpEvent([build(x) for x in j[1]])
  if j[0] == 'S':
    return dp_event.SelfComposedDpEvent(build(j[1]), j[2])
  return ev.build(j)


def any_event(rng, depth=3):
  r = rng.random()
  if depth and r < 0.25:
    return ['C', [any_event(rng, depth - 1) for _ in range(rng.randint(0, 3))]]
  if depth and r < 0.4:
    return ['S', any_event(rng, depth - 1), rng.randint(1, 5)]
  if depth and r < 0.5:
    return ['X', any_event(rng, depth - 1),
            [[f'k{i}', any_event(rng, depth - 1)] for i in range(rng.randint(0, 2))],
            [any_event(rng, depth - 1) for _ in range(rng.randint(0, 2))],
            rng.choice(['', 'a', 'label', "it's", 'x y']), round(rng.random(), 6)]
  if r < 0.6:
    return rng.choice([['US'], ['WR', 10, 3, ['G', 1.0]],
                       ['P', 0.25, ['C', [['L', 1.0], ['G', 2]]]]])
  rel = rng.choice(['AOR', 'REP', 'SPE'])
  return ev.tree(rng, rng.choice(['rdp', 'pld']), rel, 1)


def generate(rng, tier):
  cfg = ev.random_config(rng, kinds=('rdp', 'rdp', 'rdp', 'pld'))
  ops = []
  for _ in range(rng.randint(4, 14)):
    r = rng.random()
    if r < 0.36:
      ops.append({'op': 'compose', 'ev': ev.tree(rng, cfg['gen'], cfg['rel'], 2),
                  'n': rng.choice([1, 1, 2, 4])})
    elif r < 0.56:
      ops.append({'op': 'save', 'enc': rng.choice(['str', 'bytes']),
                  'shuffle': rng.randint(0, 99), 'sync': rng.random() < 0.7})
    elif r < 0.62:
      ops.append({'op': 'isave', 'fault': inject.random_spec(rng)})
    elif r < 0.80:
      ops.append({'op': 'crash', 'keep': round(rng.random(), 3),
                  'flip': rng.random() < 0.3, 'at': round(rng.random(), 3),
                  'inside': inject.random_spec(rng) if rng.random() < .5 else None,
                  'ev': ev.tree(rng, cfg['gen'], cfg['rel'], 2)})
    elif r < 0.86:
      ops.append({'op': 'clone', 'how': rng.choice(['pickle', 'deepcopy']),
                  'go_on_with': rng.choice(['copy', 'original']),
                  'ev': ev.tree(rng, cfg['gen'], cfg['rel'], 1)})
    elif r < 0.92:
      ops.append({'op': 'roundtrip', 'ev': any_event(rng), 'enc': rng.choice(['str', 'bytes']),
                  'shuffle': rng.randint(0, 99)})
    else:
      ops.append({'op': 'damage', 'ev': any_event(rng, 2),
                  'how': rng.choice(['drop', 'extra', 'rename', 'class', 'module',
                                     'noclass']),
                  'at': round(rng.random(), 3)})
  ops.append({'op': 'compose', 'ev': ev.leaf(rng, cfg['gen'], cfg['rel']), 'n': 1})
  ops.append({'op': 'save', 'enc': 'bytes', 'shuffle': 1, 'sync': True})
  ops.append({'op': 'crash', 'keep': 0.5, 'flip': False, 'at': 0.0, 'inside': None,
              'ev': ['NO']})
  return {'cfg': cfg, 'ops': ops}


# ------------------------------------------------------- the store's encoding
def encode(v):
  """Named-tuple tree -> JSON-able structure (what a caller's store keeps)."""
  if hasattr(v, '_fields'):
    return {'t': 'nt', 'f': list(v._fields), 'v': [encode(x) for x in v]}
  if isinstance(v, bytes):
    return {'t': 'b', 'v': v.hex()}
  if isinstance(v, list):
    return {'t': 'l', 'v': [encode(x) for x in v]}
  if isinstance(v, tuple):
    return {'t': 'u', 'v': [encode(x) for x in v]}
  if isinstance(v, dict):
    return {'t': 'd', 'k': list(v), 'v': [encode(x) for x in v.values()]}
  if isinstance(v, float) and math.isinf(v):
    return {'t': 'inf', 's': 1 if v > 0 else -1}
  if isinstance(v, (bool, int, float, str)) or v is None:
    return {'t': 's', 'v': v}
  raise Violation('not-plain', f'{type(v).__name__} {v!r} inside a named tuple')


def decode(s, enc, shuffle):
  t = s['t']
  if t == 'nt':
    pairs = list(zip(s['f'], s['v']))
    k = shuffle % max(len(pairs), 1)
    pairs = pairs[k:] + pairs[:k]
    names = [p[0] for p in pairs]
    vals = [decode(p[1], enc, shuffle) for p in pairs]
    if enc == 'bytes':
      vals = [x.encode() if n in ('module_name', 'class_name') and isinstance(x, str)
              else x for n, x in zip(names, vals)]
    return collections.namedtuple('Stored', names)(*vals)
  if t == 'b':
    return bytes.fromhex(s['v'])
  if t == 'l':
    return [decode(x, enc, shuffle) for x in s['v']]
  if t == 'u':
    return tuple(decode(x, enc, shuffle) for x in s['v'])
  if t == 'd':
    return {k: decode(x, enc, shuffle) for k, x in zip(s['k'], s['v'])}
  if t == 'inf':
    return math.inf * s['s']
  return s['v']


class Disk:
  """Append-only file: buffered bytes are lost or torn by a crash."""

  def __init__(self):
    self.durable = b''
    self.pending = b''

  def append(self, payload):
    rec = len(payload).to_bytes(4, 'big') + zlib.crc32(payload).to_bytes(4, 'big') + payload
    self.pending += rec

  def sync(self):
    self.durable += self.pending
    self.pending = b''

  def crash(self, keep, flip, at, cov):
    tail = self.pending[:int(len(self.pending) * keep)]
    if self.pending:
      cov.fault('torn_tail' if tail else 'lost_tail')
      cov.probe('torn_tail' if tail else 'lost_tail')
    if tail and flip:
      i = min(int(at * len(tail)), len(tail) - 1)
      tail = tail[:i] + bytes([tail[i] ^ (1 << (i % 8))]) + tail[i + 1:]
      cov.fault('bit_flip_in_tail')
    self.durable += tail
    self.pending = b''

  def recover(self):
    """Payloads of the intact records; truncates the damaged tail."""
    out, i, data = [], 0, self.durable
    while i + 8 <= len(data):
      n = int.from_bytes(data[i:i + 4], 'big')
      crc = int.from_bytes(data[i + 4:i + 8], 'big')
      payload = data[i + 8:i + 8 + n]
      if len(payload) < n or zlib.crc32(payload) != crc:
        break
      out.append(payload)
      i += 8 + n
    self.durable = data[:i]
    return out


def report(acct, cfg):
  out = [float(acct.get_epsilon(1e-4)), float(acct.get_delta(0.5))]
  if cfg['kind'] == 'rdp':
    out += acct.rdp.tolist()
  return out


def execute(case, cov):
  cfg = case['cfg']
  acct = ev.make(cfg)
  disk = Disk()
  saved = []          # (event deep copy, encoding) in append order
  synced = 0
  crashed = False
  crashed_after_save = False

  def roundtrip(event, enc, shuffle, where):
    ref = copy.deepcopy(event)
    nt = event.to_named_tuple()
    blob = json.dumps(encode(nt)).encode()
    back = dp_event.DpEvent.from_named_tuple(decode(json.loads(blob), enc, shuffle))
    if event != ref:
      raise Violation('conversion-mutates', f'{where}: converting changed {ref} to {event}')
    same = ev.key(back) == ev.key(ref) and back == ref and type(back) is type(ref)
    if not same:
      raise Violation('roundtrip', f'{where}: {ref} came back as {back}')
    if enc == 'bytes':
      cov.probe('bytes_names')
    return blob

  for i, op in enumerate(case['ops']):
    where = f'op {i} ({op["op"]})'
    cov.step()
    if op['op'] == 'compose':
      acct.compose(build(op['ev']), op['n'])
      if crashed:
        cov.probe('work_after_recovery')
        if crashed_after_save:
          cov.nontrivial = True
    elif op['op'] == 'save':
      ledger = acct.ledger
      blob = roundtrip(ledger, op['enc'], op['shuffle'], where)
      disk.append(json.dumps([op['enc'], op['shuffle']]).encode() + b'\n' + blob)
      saved.append((copy.deepcopy(ledger), report(acct, cfg)))
      if op['sync']:
        disk.sync()
        synced = len(saved)
    elif op['op'] == 'isave':
      ledger = acct.ledger
      before = copy.deepcopy(ledger)
      outcome, _, fired = inject.run_with_fault(
          op['fault'], ledger.to_named_tuple, copy.deepcopy(ledger).to_named_tuple)
      if fired:
        cov.fault('interrupted_save')
        cov.probe('interrupted_save')
      if ledger != before or acct.ledger != before:
        raise Violation('conversion-mutates', f'{where}: an interrupted conversion changed the ledger')
      outcome, _, fired = inject.run_with_fault(
          dict(op['fault'], frac=1 - op['fault']['frac']),
          lambda nt=before.to_named_tuple(): dp_event.DpEvent.from_named_tuple(nt),
          lambda nt=before.to_named_tuple(): dp_event.DpEvent.from_named_tuple(nt))
      if fired and outcome == 'ok':
        raise Violation('failure-swallowed', f'{where}: a failed restore returned an event')
    elif op['op'] == 'crash':
      if op['inside'] is not None:
        dup = copy.deepcopy(acct)
        _, _, fired = inject.run_with_fault(
            op['inside'], lambda: acct.compose(build(op['ev'])),
            lambda: dup.compose(build(op['ev'])))
        if fired:
          cov.fault('crash_inside_compose')
      cov.fault('crash')
      disk.crash(op['keep'], op['flip'], op['at'], cov)
      records = disk.recover()
      if len(records) < synced:
        raise RuntimeError('harness: the simulated disk lost a synced record')
      del saved[len(records):]
      synced = len(saved)
      acct = ev.make(cfg)
      crashed = True
      if not records:
        cov.probe('recovered_to_empty')
        continue
      crashed_after_save = True
      head, blob = records[-1].split(b'\n', 1)
      enc, shuffle = json.loads(head)
      event = dp_event.DpEvent.from_named_tuple(decode(json.loads(blob), enc, shuffle))
      want, want_report = saved[-1]
      if event != want or ev.key(event) != ev.key(want):
        raise Violation('recovered-different', f'{where}: recovered {event}, '
                        f'the checkpoint held {want}')
      acct.compose(event)
      twin = ev.make(cfg).compose(copy.deepcopy(want))
      got, ref = report(acct, cfg), report(twin, cfg)
      if repr(got) != repr(ref):
        raise Violation('recovered-loss', f'{where}: recovered accountant reports {got}, '
                        f'the checkpointed events {ref}')
      led = ev.multiset(ev.flatten_event(want))
      n_g = sum(1 for k in led if k[0] == 'Gaussian')
      slack = 40 * cfg['interval'] if cfg['kind'] == 'pld' and n_g else 0.0
      if not (got[0] >= want_report[0] * (1 - 1e-7) - 1e-9 - slack):
        raise Violation('recovered-less', f'{where}: epsilon {got[0]} after recovery, '
                        f'{want_report[0]} when the checkpoint was taken')
      cov.probe('crash_recovered')
      cov.state((cfg['kind'], len(saved), bool(op['inside']), op['flip'],
                 tuple(sorted(k[0] for k in led))))
    elif op['op'] == 'clone':
      if op['how'] == 'pickle':
        other = pickle.loads(pickle.dumps(acct))
        cov.probe('pickled')
      else:
        other = copy.deepcopy(acct)
        cov.probe('deepcopied')
      before, led = report(acct, cfg), copy.deepcopy(acct.ledger)
      if repr(report(other, cfg)) != repr(before) or other.ledger != led:
        raise Violation('clone-differs', f'{where}: the copy reports {report(other, cfg)} '
                        f'with ledger {other.ledger}, the original {before} with {led}')
      other.compose(build(op['ev']), 2)
      if repr(report(acct, cfg)) != repr(before) or acct.ledger != led:
        raise Violation('clone-shares', f'{where}: composing into a copy changed the original')
      mid, mid_led = report(other, cfg), copy.deepcopy(other.ledger)
      acct2 = pickle.loads(pickle.dumps(acct))
      acct2.compose(build(op['ev']), 2)
      if repr(report(acct2, cfg)) != repr(mid) or acct2.ledger != mid_led:
        raise Violation('clone-differs', f'{where}: copies composed alike report differently')
      acct.compose(build(op['ev']), 1)
      if repr(report(other, cfg)) != repr(mid) or other.ledger != mid_led:
        raise Violation('clone-shares', f'{where}: composing into the original changed a copy')
      bld = dp_event_builder.DpEventBuilder()
      bld.compose(build(op['ev']), 2)
      bld2 = pickle.loads(pickle.dumps(bld)) if op['how'] == 'pickle' else copy.deepcopy(bld)
      first = copy.deepcopy(bld.build())
      bld2.compose(dp_event.NonPrivateDpEvent())
      if bld.build() != first:
        raise Violation('clone-shares', f'{where}: composing into a copied builder changed the original')
      if op['go_on_with'] == 'copy':
        acct = other
    elif op['op'] == 'roundtrip':
      e = build(op['ev'])
      if 'X' in json.dumps(op['ev']):
        cov.probe('custom_event')
      roundtrip(e, op['enc'], op['shuffle'], where)
      if pickle.loads(pickle.dumps(e)) != e or copy.deepcopy(e) != e:
        raise Violation('roundtrip', f'{where}: {e} does not survive pickle or deepcopy')
    elif op['op'] == 'damage':
      s = encode(build(op['ev']).to_named_tuple())
      nodes = []

      def walk(x):
        if x['t'] == 'nt':
          nodes.append(x)
        if isinstance(x.get('v'), list):
          for y in x['v']:
            walk(y)

      walk(s)
      node = nodes[min(int(op['at'] * len(nodes)), len(nodes) - 1)]
      how = op['how']
      if how == 'drop':
        if len(node['f']) < 3:
          continue  # no field to lose
        node['f'].pop()
        node['v'].pop()
      elif how == 'extra':
        node['f'].append('stray_field')
        node['v'].append({'t': 's', 'v': 1})
      elif how == 'rename':
        if len(node['f']) < 3:
          continue
        node['f'][-1] = 'x' + node['f'][-1]
      else:
        k = node['f'].index('module_name' if how == 'module' else 'class_name')
        if how == 'noclass':
          node['f'].pop(k)
          node['v'].pop(k)
        else:
          node['v'][k] = {'t': 's', 'v': node['v'][k]['v'] + 'Xx'}
      try:
        back = dp_event.DpEvent.from_named_tuple(decode(s, 'str', 0))
      except Exception:  # pylint: disable=broad-except
        cov.fault('damaged_' + how)
        cov.probe('damaged_refused')
        continue
      flat = repr(back)
      if how == 'noclass' and 'Stored(' in flat:
        continue  # the nested record stayed visibly raw
      raise Violation('damage-accepted', f'{where}: a record with a damaged field ({how}) '
                      f'was restored as {back}')
    cov.trace(i, op['op'], report(acct, cfg), repr(acct.ledger))
