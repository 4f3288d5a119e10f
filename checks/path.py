"""P01: data slice paths (py/koladata/ext/storage/data_slice_path.py)."""

import base64
import itertools
import re

from mc import core

ENV = {}

NAMES = ('a', 'x1', '_', 'get_keys', 'get_values', 'get_attr', 'class', 'é', 'ﬁ', '变量',
         '', ' ', '1', 'a.b', '.', '.a', 'a.', '[:]', 'a[:]', "'", '"', '")', "a'b", 'get_keys()',
         '.get_keys()', '.get_attr("YQ==")', 'a-b', 'a b', 'a\n', '\\', '\x00', '🙂', 'YQ==', '[', ']', '(', '?>~~')


def setup():
  core.setup_imports()
  from mc import memfs
  from mc import minikd
  memfs.install_pools()
  ENV['kd'] = minikd.install()
  from koladata.ext.storage import data_slice_path as dsp
  ENV['dsp'] = dsp
  return dsp


# -- independent reading of the grammar ----------------------------------------
def b64(s):
  """The attribute name for a base64 text, or None."""
  from mc import minikd
  try:
    return minikd._b64d(s).decode('utf-8')
  except ValueError:
    return None


def ref_parse(s):
  """[action description] or None."""
  i, out = 0, []
  while i < len(s):
    if s.startswith('[:]', i):
      out.append(('explode',))
      i += 3
    elif s.startswith('.get_keys()', i):
      out.append(('keys',))
      i += len('.get_keys()')
    elif s.startswith('.get_values()', i):
      out.append(('values',))
      i += len('.get_values()')
    elif s.startswith('.get_attr(', i):
      i += len('.get_attr(')
      if i >= len(s) or s[i] not in '\'"':
        return None
      q = s[i]
      j = s.find(q, i + 1)
      if j < 0 or s[j:j + 2] != q + ')':
        return None
      n = b64(s[i + 1:j])
      if n is None:
        return None
      out.append(('attr', n))
      i = j + 2
    elif s[i] == '.':
      j = i + 1
      while j < len(s) and s[i + 1:j + 1].isidentifier():
        j += 1
      if j == i + 1:
        return None
      out.append(('attr', s[i + 1:j]))
      i = j
    else:
      return None
  return out


def describe(path):
  dsp = ENV['dsp']
  out = []
  for a in path.actions:
    if isinstance(a, dsp.GetAttr):
      out.append(('attr', a.attr_name))
    else:
      out.append(({dsp.DictGetKeys: 'keys', dsp.DictGetValues: 'values',
                   dsp.ListExplode: 'explode'}[type(a)],))
  return out


def make(desc):
  dsp = ENV['dsp']
  out = []
  for d in desc:
    if d[0] == 'attr':
      out.append(dsp.GetAttr(d[1]))
    else:
      out.append({'keys': dsp.DictGetKeys, 'values': dsp.DictGetValues, 'explode': dsp.ListExplode}[d[0]]())
  return out


PLAIN = [('keys',), ('values',), ('explode',)]


def roundtrip(ctx, desc):
  dsp = ENV['dsp']
  Pth = dsp.DataSlicePath
  p = Pth.from_actions(make(desc))
  s = p.to_string()
  ctx.transitions += 1
  back = Pth.parse_from_string(s)
  if back != p or hash(back) != hash(p) or describe(back) != list(desc):
    ctx.violation('roundtrip', f'path {desc} prints as {s!r}, which reads back as {describe(back)}', {'path': desc})
  if str(p) != s or p.depth != len(desc):
    ctx.violation('str', f'path {desc}: str {str(p)!r}, to_string {s!r}, depth {p.depth}', {'path': desc})
  # the documented syntax, with double quotes and with single quotes
  for q in '"\'':
    t = ''.join({'keys': '.get_keys()', 'values': '.get_values()', 'explode': '[:]'}.get(d[0]) or
                f'.get_attr({q}{base64.b64encode(d[1].encode()).decode()}{q})' for d in desc)
    if Pth.parse_from_string(t) != p:
      ctx.violation('quoted', f'{t!r} does not read as {desc}', {'path': desc})
  # every way of building the same path
  for i in range(len(desc) + 1):
    c = Pth.from_actions(make(desc[:i])).concat(Pth.parse_from_string(Pth.from_actions(make(desc[i:])).to_string()))
    if c != p or hash(c) != hash(p) or c.to_string() != s or c.depth != len(desc):
      ctx.violation('concat', f'{desc}: concatenation at {i} gives {describe(c)}', {'path': desc, 'at': i})
  e = Pth.from_actions([])
  for a in make(desc):
    before = describe(e)
    f = e.extended_with_action(a)
    if describe(e) != before or f.depth != len(before) + 1:
      ctx.violation('extend', f'{desc}: extending changed the original path', {'path': desc})
    e = f
  if e != p:
    ctx.violation('extend', f'{desc}: extending step by step gives {describe(e)}', {'path': desc})


def p01_round(ctx, job):
  firsts, alpha, n = job
  for f in firsts:
    for rest in itertools.product(alpha, repeat=n - 1):
      roundtrip(ctx, (f,) + rest)
      ctx.states += 1


TOKENS = ('.', 'a', 'é', '1', '[:]', '[', ']', ':', '.get_keys()', '.get_values()', '.get_attr("', ".get_attr('",
          '")', "')", 'YQ==', 'Zm', 'wg', '=', '"', "'", '()', ' ', '.get_keys', 'get_attr(')


def p01_strings(ctx, job):
  first, n = job
  Pth = ENV['dsp'].DataSlicePath
  for rest in itertools.product(TOKENS, repeat=n - len(first)):
    s = ''.join(first + rest)
    want = ref_parse(s)
    ctx.transitions += 1
    try:
      got = Pth.parse_from_string(s)
    except ValueError as e:
      ctx.outcome('refused')
      if want is not None:
        ctx.violation('refused', f'{s!r} is a valid path {want} but is refused: {e}', {'s': s})
      continue
    except Exception as e:
      ctx.violation('raises', f'{s!r}: {core.exc_text(e)}', {'s': s})
      continue
    ctx.outcome('parsed')
    d = describe(got)
    if want is None:
      ctx.violation('accepted', f'{s!r} is not a valid path but reads as {d}', {'s': s})
    elif d != want:
      ctx.violation('misread', f'{s!r} reads as {d}, expected {want}', {'s': s})
    else:
      again = Pth.parse_from_string(got.to_string())
      if again != got:
        ctx.violation('canonical', f'{s!r} prints as {got.to_string()!r}, which reads as {describe(again)}', {'s': s})


# -- paths of a schema ---------------------------------------------------------
def schemas(depth):
  """Type terms: 'p' | ('list', t) | ('dict', k, t) | ('ent', ((name, t), ...))."""
  if depth == 0:
    return ['p']
  sub = schemas(depth - 1)
  out = ['p']
  for t in sub:
    out.append(('list', t))
    out.append(('dict', 'p', t))
    out.append(('ent', (('a', t),)))
    out.append(('ent', (('a', 'p'), ('b.c', t))))
    if t != 'p' and t[0] == 'ent':
      out.append(('dict', t, 'p'))
  out.append(('ent', ()))
  return out


def build(t):
  """-> (value slice, schema) with data present along every branch."""
  kd = ENV['kd']
  if t == 'p':
    return kd.item(1), kd.INT32
  if t[0] == 'list':
    v, _ = build(t[1])
    r = kd.list([v])
  elif t[0] == 'dict':
    k, _ = build(t[1])
    v, _ = build(t[2])
    r = kd.dict(kd.slice([k]), kd.slice([v])) if t[1] != 'p' else kd.dict({1: v})
  else:
    r = kd.new(**{n: build(x)[0] for n, x in t[1]})
  return r, r.get_schema()


def kids(t):
  """[(action desc, subterm)] in the documented order."""
  if t == 'p':
    return []
  if t[0] == 'list':
    return [(('explode',), t[1])]
  if t[0] == 'dict':
    return [(('keys',), t[1]), (('values',), t[2])]
  return [(('attr', n), x) for n, x in sorted(t[1])]


def ref_paths(t, max_depth):
  """Breadth first: (path, subterm)."""
  level, out, d = [((), t)], [], 0
  while level and (max_depth < 0 or d <= max_depth):
    out += level
    level = [(p + (a,), x) for p, y in level for a, x in kids(y)]
    d += 1
  return out


REC = {
    # start, state -> [(action, state)]; the state 0 is the root
    'self': [[(('attr', 'a'), 1), (('attr', 'next'), 0)], []],
    'tree': [[(('attr', 'get_keys'), 1), (('attr', 'kids'), 2)], [], [(('explode',), 0)]],
    'dict': [[(('attr', 'm'), 1)], [(('keys',), 2), (('values',), 0)], []],
}


def rec_value(name):
  kd = ENV['kd']
  if name == 'self':
    r = kd.new(a=1)
    return r.updated(kd.attrs(r, next=r))
  if name == 'tree':
    r = kd.new(get_keys=1)
    return r.updated(kd.attrs(r, kids=kd.list([r])))
  r = kd.new()
  return r.updated(kd.attrs(r, m=kd.dict({1: r})))


def p01_rec(ctx, depth):
  kd, dsp = ENV['kd'], ENV['dsp']
  gen = dsp.generate_data_slice_paths_for_arbitrary_data_slice_with_schema
  for name, g in REC.items():
    v = rec_value(name)
    for md in range(depth + 1):
      level, want = [((), 0)], []
      for _ in range(md + 1):
        want += [p for p, _ in level]
        level = [(p + (a,), y) for p, x in level for a, y in g[x]]
      got = [tuple(describe(p)) for p in itertools.islice(gen(v.get_schema(), max_depth=md), len(want) + 3)]
      ctx.transitions += 1
      if got != want:
        ctx.violation('generate', f'recursive schema {name}, max_depth {md}: {len(got)} paths, expected {len(want)}', {'t': name, 'd': md})
    it = gen(v.get_schema(), max_depth=-1)
    for p, w in zip(it, want):
      ctx.states += 1
      if tuple(describe(p)) != w:
        ctx.violation('generate', f'recursive schema {name}: endless generation gives {describe(p)} for {w}', {'t': name})
        break
      r = p.evaluate(v)
      if r.get_size() < 1:
        ctx.violation('evaluate', f'{name} {w}: evaluates to nothing', {'t': name})


def p01_schema(ctx, terms):
  kd, dsp = ENV['kd'], ENV['dsp']
  gen = dsp.generate_data_slice_paths_for_arbitrary_data_slice_with_schema
  for t in terms:
    v, sc = build(t)
    full = ref_paths(t, -1)
    depth = max(len(p) for p, _ in full)
    for md in list(range(-1, depth + 2)):
      want = [p for p, _ in ref_paths(t, md)]
      got = [tuple(describe(p)) for p in itertools.islice(gen(sc, max_depth=md), len(want) + 3)]
      ctx.transitions += 1
      if got != want:
        ctx.violation('generate', f'schema {t}, max_depth {md}: paths {got}, expected {want}', {'t': repr(t), 'd': md})
    valid = dict(full)
    acts = PLAIN + [('attr', n) for n in ('a', 'b.c', 'zz', '')]
    for p, x in full:
      ctx.states += 1
      path = dsp.DataSlicePath.from_actions(make(p))
      r = path.evaluate(v)
      cur, okv = sc, v
      for act in path.actions:
        nxt = act.get_subschema(cur)
        bag = act.get_subschema_bag(cur)
        # the minimal bag is enough to take that step, and no more
        again = act.get_subschema(cur.with_bag(bag))
        if again.no_bag() != nxt.no_bag():
          ctx.violation('bag', f'{t} {p}: the minimal bag leads to another schema', {'t': repr(t), 'p': p})
        cur = nxt
      if r.get_schema().no_bag() != cur.no_bag():
        ctx.violation('subschema', f'{t} {p}: schema of the value differs from the schema of the path', {'t': repr(t), 'p': p})
      if r.get_size() < 1:
        ctx.violation('evaluate', f'{t} {p}: evaluates to nothing', {'t': repr(t), 'p': p})
      for a in acts:
        act = make([a])[0]
        ctx.transitions += 1
        try:
          act.get_subschema(cur)
          ok = True
        except dsp.IncompatibleSchemaError:
          ok = False
        if ok != (p + (a,) in valid):
          ctx.violation('applicable', f'{t} {p}: {a} {"accepted" if ok else "refused"}', {'t': repr(t), 'p': p, 'a': a})


def run_p01(ctx):
  setup()
  attrs = [('attr', n) for n in NAMES]
  full = PLAIN + attrs
  small = PLAIN + [('attr', n) for n in ('a', 'get_keys', '', '[:]', "'", '.get_attr("YQ==")', 'é')]
  roundtrip(ctx, ())
  core.parallel(ctx, p01_round, [((a,), full, n) for n in (1, 2, 3) for a in full])
  core.parallel(ctx, p01_round, [((a,), small, n) for n in ((4,) if ctx.quick else (4, 5)) for a in small])
  N = 4 if ctx.quick else 5
  p01_strings(ctx, ((), 0))
  core.parallel(ctx, p01_strings, [((t,), n) for n in range(1, 4) for t in TOKENS])
  core.parallel(ctx, p01_strings, [((t, u), n) for n in range(4, N + 1) for t in TOKENS for u in TOKENS])
  terms = schemas(3)
  ctx.note(schemas=len(terms), tokens=len(TOKENS), max_tokens=N, attr_names=len(NAMES))
  core.parallel(ctx, p01_schema, [terms[i::16] for i in range(16)])
  p01_rec(ctx, 7 if ctx.quick else 12)
  ctx.traces = ctx.transitions
  ctx.sample([repr(d) for d in full[:8]])
  ctx.assumptions = ['kd API modelled by mc/minikd; base64 text handling as documented for kd.strings']
