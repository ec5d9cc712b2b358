"""Writes Java classes for the repository's .proto files (stand-in for protoc's)."""
import os
import re

TOKEN = re.compile(r'//[^\n]*|/\*.*?\*/|"[^"]*"|[\w.]+|[{}=;<>,\[\]()-]|\S', re.S)
SCALAR = {'int32': 'int', 'sint32': 'int', 'uint32': 'int', 'int64': 'long', 'uint64': 'long',
          'sint64': 'long', 'double': 'double', 'float': 'float', 'bool': 'bool',
          'string': 'string', 'bytes': 'bytes', 'google.protobuf.Any': 'bytes'}
JAVA = {'int': ('int', 'Integer', '0'), 'long': ('long', 'Long', '0L'),
        'double': ('double', 'Double', '0.0'), 'float': ('float', 'Float', '0f'),
        'bool': ('boolean', 'Boolean', 'false'), 'string': ('String', 'String', '""'),
        'bytes': ('byte[]', 'byte[]', 'new byte[0]')}


class _Parser:

  def __init__(self, text):
    self.t = [x for x in TOKEN.findall(text) if not x.startswith(('//', '/*'))]
    self.i = 0

  def next(self):
    self.i += 1
    return self.t[self.i - 1]

  def until(self, end=';'):
    out = []
    while self.t[self.i] != end:
      out.append(self.next())
    self.i += 1
    return out

  def body(self):
    """Messages, enums and fields up to a closing brace or the end."""
    b = {'msgs': {}, 'enums': {}, 'fields': [], 'package': None, 'options': {}}
    oneofs = 0
    inside = None
    while self.i < len(self.t):
      w = self.next()
      if w == '}':
        if inside is None:
          return b
        inside = None
      elif w == 'message':
        name = self.next()
        self.next()
        b['msgs'][name] = self.body()
      elif w == 'enum':
        name = self.next()
        self.next()
        vals = []
        while True:
          v = self.next()
          if v == '}':
            break
          rest = self.until()
          if v not in ('reserved', 'option') and rest[0] == '=':
            vals.append((v, int(''.join(rest[1:3]) if rest[1] == '-' else rest[1], 0)))
        b['enums'][name] = vals
      elif w == 'oneof':
        self.next()
        self.next()
        inside = oneofs
        oneofs += 1
      elif w == 'option':
        s = self.until()
        b['options'][s[0]] = s[-1].strip('"')
      elif w in ('syntax', 'import', 'package', 'reserved', 'extensions'):
        s = self.until()
        if w == 'package':
          b['package'] = s[0]
      elif w == ';':
        pass
      else:
        s = [w] + self.until()
        kind = 'o'
        if s[0] in ('optional', 'repeated', 'required'):
          kind = 'r' if s[0] == 'repeated' else 'o'
          s = s[1:]
        key = None
        if s[0] == 'map':
          kind, key = 'm', s[2]
          s = [s[4]] + s[6:]
        b['fields'].append({'kind': kind, 'key': key, 'type': s[0], 'name': s[1],
                            'num': int(s[3]), 'oneof': -1 if inside is None else inside})
    return b


def _camel(name):
  return ''.join(p[:1].upper() + p[1:] for p in re.split(r'[_-]', name))


def _outer(path, tree):
  name = _camel(os.path.basename(path)[:-len('.proto')])
  def names(t):
    for m, s in t['msgs'].items():
      yield m
      yield from names(s)
    yield from t['enums']
  return name + 'OuterClass' if name in set(names(tree)) else name


def _names(tree, scope, java, out):
  for e in tree['enums']:
    out[scope + e] = ('enum', java + '.' + e, tree['enums'][e])
  for m, sub in tree['msgs'].items():
    out[scope + m] = ('msg', java + '.' + m, None)
    _names(sub, scope + m + '.', java + '.' + m, out)


def _resolve(t, scope, known):
  if t in SCALAR:
    return SCALAR[t], None
  t = t.removeprefix('differential_privacy.')
  parts = scope.split('.') if scope else []
  while True:
    full = '.'.join(parts + [t])
    if full in known:
      return known[full][0], known[full]
    if not parts:
      raise ValueError('unknown type ' + t)
    parts.pop()


def _message(name, tree, scope, java, known, out):
  me = java + '.' + name
  inner = (scope + '.' if scope else '') + name
  rows, get, build = [], [], []
  for f in tree['fields']:
    kind, ref = _resolve(f['type'], inner, known)
    n, c = f['num'], _camel(f['name'])
    make = enum = 'null'
    if kind == 'msg':
      t = box = ref[1]
      default, make = f'{t}.getDefaultInstance()', f'() -> new {t}()'
    elif kind == 'enum':
      t = box = ref[1]
      default, enum = f'{t}.{ref[2][0][0]}', f'i -> {t}.forNumber(i)'
    else:
      t, box, default = JAVA[kind]
    key = SCALAR[f['key']] if f['key'] else None
    rows.append(f'new Field({n}, \'{f["kind"]}\', "{kind}", {make}, {enum}, '
                f'{chr(34) + key + chr(34) if key else "null"}, {f["oneof"]})')
    if f['kind'] == 'o':
      get.append(f'public {t} get{c}() {{ return ({box}) get({n}, {default}); }}')
      get.append(f'public boolean has{c}() {{ return f.containsKey({n}); }}')
      build.append(f'public Builder set{c}({t} v) {{ m.put({n}, v); return this; }}')
      if kind == 'msg':
        build.append(f'public Builder set{c}({t}.Builder v) {{ return set{c}(v.build()); }}')
      build.append(f'public {t} get{c}() {{ return m.get{c}(); }}')
      build.append(f'public boolean has{c}() {{ return m.has{c}(); }}')
    elif f['kind'] == 'r':
      get.append(f'public java.util.List<{box}> get{c}List() {{ return '
                 f'java.util.Collections.unmodifiableList(this.<{box}>list({n})); }}')
      get.append(f'public int get{c}Count() {{ return list({n}).size(); }}')
      get.append(f'public {t} get{c}(int i) {{ return this.<{box}>list({n}).get(i); }}')
      build.append(f'public Builder add{c}({t} v) {{ m.mutable({n}).add(v); return this; }}')
      build.append(f'public Builder addAll{c}(Iterable<? extends {box}> v) {{ '
                   f'for ({box} x : v) {{ m.mutable({n}).add(x); }} return this; }}'
                   if kind == 'msg' else
                   f'public Builder addAll{c}(Iterable<? extends {box}> v) {{ '
                   f'java.util.List<Object> l = m.mutable({n}); for ({box} x : v) {{ l.add(x); }} '
                   'return this; }')
      build.append(f'public int get{c}Count() {{ return m.get{c}Count(); }}')
    else:
      kt, kbox, _ = JAVA[key]
      get.append(f'public java.util.Map<{kbox}, {box}> get{c}Map() {{ return '
                 f'java.util.Collections.unmodifiableMap(this.<{kbox}, {box}>map({n})); }}')
      get.append(f'public java.util.Map<{kbox}, {box}> get{c}() {{ return get{c}Map(); }}')
      get.append(f'public int get{c}Count() {{ return map({n}).size(); }}')
      get.append(f'public boolean contains{c}({kt} k) {{ return map({n}).containsKey(k); }}')
      get.append(f'public {t} get{c}OrDefault({kt} k, {t} d) {{ {box} v = '
                 f'this.<{kbox}, {box}>map({n}).get(k); return v == null ? d : v; }}')
      get.append(f'public {t} get{c}OrThrow({kt} k) {{ {box} v = '
                 f'this.<{kbox}, {box}>map({n}).get(k); if (v == null) throw new '
                 'IllegalArgumentException(); return v; }')
      build.append(f'public Builder put{c}({kt} k, {t} v) {{ m.mutableMap({n}).put(k, v); '
                   'return this; }')
      build.append(f'public Builder putAll{c}(java.util.Map<{kbox}, {box}> v) {{ '
                   f'm.mutableMap({n}).putAll(v); return this; }}')
    build.append(f'public Builder clear{c}() {{ m.f.remove({n}); return this; }}')
  out.append(f'public static final class {name} extends com.google.protobuf.SimMessage {{')
  out.append('private static final Field[] F = {' + ', '.join(rows) + '};')
  out.append(f'private static final {me} NONE = new {me}();')
  out.append('@Override protected Field[] fields() { return F; }')
  out.append(f'public static {me} getDefaultInstance() {{ return NONE; }}')
  out.append('public static Builder newBuilder() { return new Builder(); }')
  out.append(f'public static Builder newBuilder({me} o) {{ Builder b = new Builder(); '
             'b.m.copy(o); return b; }')
  out.append('public Builder toBuilder() { return newBuilder(this); }')
  out.append(f'public static {me} parseFrom(byte[] b) throws '
             f'com.google.protobuf.InvalidProtocolBufferException {{ {me} m = new {me}(); '
             'm.mergeBytes(b); return m; }')
  out.append(f'public static {me} parseFrom(byte[] b, com.google.protobuf.'
             'ExtensionRegistryLite r) throws com.google.protobuf.'
             'InvalidProtocolBufferException { return parseFrom(b); }')
  out += get
  out.append(f'public static final class Builder {{ private {me} m = new {me}();')
  out.append(f'public {me} build() {{ {me} r = new {me}(); r.copy(m); return r; }}')
  out.append(f'public {me} buildPartial() {{ return build(); }}')
  out.append(f'public Builder mergeFrom({me} o) {{ m.copy(o); return this; }}')
  out.append('public Builder mergeFrom(byte[] b) throws com.google.protobuf.'
             'InvalidProtocolBufferException { m.mergeBytes(b); return this; }')
  out += build
  out.append('}')
  _rest(tree, inner, me, known, out)
  out.append('}')


def _rest(tree, scope, java, known, out):
  for e, vals in tree['enums'].items():
    out.append(f'public enum {e} implements com.google.protobuf.SimMessage.Numbered {{ ' +
               ', '.join(f'{v}({n})' for v, n in vals) + ';')
    out.append(f'private final int n; {e}(int n) {{ this.n = n; }}')
    out.append('@Override public int getNumber() { return n; }')
    out.append(f'public static {e} forNumber(int n) {{ for ({e} x : values()) {{ '
               'if (x.n == n) return x; } return null; }}')
  for m, sub in tree['msgs'].items():
    _message(m, sub, scope, java, known, out)


def generate(src, dst):
  """Writes the outer classes of every .proto in src below dst."""
  trees, known = [], {}
  for name in sorted(os.listdir(src)):
    if name.endswith('.proto'):
      tree = _Parser(open(os.path.join(src, name)).read()).body()
      pkg = tree['options'].get('java_package') or tree['package']
      outer = tree['options'].get('java_outer_classname') or _outer(name, tree)
      trees.append((tree, pkg, outer))
      _names(tree, '', pkg + '.' + outer, known)
  made = []
  for tree, pkg, outer in trees:
    out = [f'package {pkg};', '@SuppressWarnings("unchecked")',
           f'public final class {outer} {{', f'private {outer}() {{}}']
    _rest(tree, '', pkg + '.' + outer, known, out)
    out.append('}')
    path = os.path.join(dst, *pkg.split('.'))
    os.makedirs(path, exist_ok=True)
    path = os.path.join(path, outer + '.java')
    open(path, 'w').write('\n'.join(out) + '\n')
    made.append(path)
  return made
