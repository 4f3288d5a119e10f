"""S09-S11: composite managers, views and the in-memory manager."""

import itertools

from mc import core
from mc import memfs
from checks import dsm
from checks.dsm import (ENV, apply_ref, canon, do_update, hist_of, light, new_process,
                        open_dsm, ref_paths, refused, shallow, start, updates, well_typed)


# -- S09: composition ------------------------------------------------------------
def everything(m):
  return m.get_data_slice(populate_including_descendants=[ENV['P']('')])


def step(ms, refs, i, name):
  """Applies one update to component i; False when it is not applicable."""
  U = ENV['U']
  u = U[name](refs[i])
  if u is None:
    return False
  try:
    r = apply_ref(refs[i], u)
  except ValueError:
    return False
  if not well_typed(r):
    return False
  do_update(ms[i], u)
  refs[i] = r
  return True


def compose(ctx, store, ms, refs, where):
  """One composition of the managers ms, and everything one can do to it."""
  kd, P = ENV['kd'], ENV['P']
  comp = ENV['comp'].CompositeInitialDataManager
  full = [everything(m) for m in ms]
  want = full[0].enriched(*[d.get_bag() for d in full[1:]])
  if not well_typed(want):
    ctx.add('ill_typed')
    return
  ctx.states += 1
  before = {p: c for p, c in store.files.items()}
  fs = ENV['Fs'](store)
  cm = comp.create_new(managers=list(ms))
  dirs = [m.get_persistence_directory() for m in ms]
  d = cm.get_description()
  pos = [d.find(x) for x in dirs]
  if -1 in pos or (len(set(dirs)) == len(dirs) and pos != sorted(pos)):
    ctx.violation('description', f'{where}: the description {d!r} does not list {dirs}', where)
  # components move on between the composition and its first use
  late = ('', 'late', kd.item('later'))
  do_update(ms[0], late)
  do_update(ms[-1], ('', 'x', kd.item(b'later')))
  m = ENV['dsm'].DataSliceManager.create_new('/s/C', fs=fs, initial_data_manager=cm)
  what = f'{where}: the composition'
  if not light(ctx, m, want, 'compose', what, where, depth=3):
    return
  # every path alone, also with its descendants, in memory and in a fresh process
  new_process()
  f = open_dsm(store, '/s/C')
  for p in ref_paths(want, 3):
    ctx.transitions += 1
    for x, name in ((m, 'composition'), (f, 'reopened composition'))[where.get('n', 0) > 2:]:
      g = x.get_data_slice_at(p, with_all_descendants=True)
      if canon(g) != canon(p.evaluate(want)):
        ctx.violation('compose-deep', f'{where}: {name}: {p} with descendants is {canon(g)}; expected {canon(p.evaluate(want))}', where)
        return
  if not light(ctx, f, want, 'compose', what + ', reopened', where, depth=3):
    return
  # updates on top; components are not touched
  u = ('', 'x', kd.item('on top'))
  up = apply_ref(want, u)
  if ctx.quick and where.get('n', 0) > 2:
    ctx.traces += 1
    return
  b0 = f.branch('/s/CB')
  do_update(f, u)
  if not light(ctx, f, up, 'compose-update', what + ' after an update', where, depth=2):
    return
  new_process()
  g = open_dsm(store, '/s/C')
  for x, e, t in ((g, up, 'reopened after an update'), (open_dsm(store, '/s/C', at_revision_history_index=0), want, 'opened at revision 0'),
                  (b0, want, 'branched before the update'), (g.branch(revision_history_index=0), want, 'branched at revision 0'),
                  (g.get_readonly_copy(), up, 'read-only copy')):
    if not light(ctx, x, e, 'compose-update', f'{what}, {t}', where, depth=2):
      return
  for i, (mm, e) in enumerate(zip(ms, full)):
    new_process()
    o = open_dsm(store, dirs[i])
    for x, t in ((mm, 'live'), (o, 'reopened')):
      r = everything(x)
      e2 = e
      if i == 0:
        e2 = apply_ref(e2, late)
      if i == len(ms) - 1:
        e2 = apply_ref(e2, ('', 'x', kd.item(b'later')))
      if dirs.count(dirs[i]) == 1 and canon(r) != canon(e2):
        ctx.violation('component', f'{where}: component {i} ({t}) is {canon(r)} after the composition was updated; expected {canon(e2)}', where)
        return
  # copies serve the same
  if not light(ctx, ENV['dsm'].DataSliceManager.create_new('/s/C2', fs=ENV['Fs'](store), initial_data_manager=cm.copy()), want,
               'compose-copy', what + ' of a copy', where, depth=2):
    return
  gone = [p for p, c in before.items() if store.files.get(p) != c]
  if gone:
    ctx.violation('component', f'{where}: files of the components were changed: {gone}', where)
  ctx.traces += 1
  ctx.outcome(len(ref_paths(want, 3)))


def s09_branches(ctx, job):
  """Components are branches of one managed slice (they share their root)."""
  base, parts, kind = job
  store, m, ref = start()
  ms, refs = [m], [ref]
  for n in base:
    if not step(ms, refs, 0, n):
      return
  ref = refs[0]
  ms, refs = [], []
  for j, part in enumerate(parts):
    ms.append(m.branch(f'/s/P{j}'))
    refs.append(ref)
    for n in part:
      if not step(ms, refs, j, n):
        return
  where = {'base': list(base), 'parts': [list(p) for p in parts], 'kind': kind, 'n': len(base) + sum(map(len, parts))}
  if kind == 'readonly':
    new_process()
    ms2 = [open_dsm(store, f'/s/P{j}') for j in range(len(parts))]
    ms = ms2
  elif kind == 'nested':
    inner = ENV['comp'].CompositeInitialDataManager.create_new(managers=ms[1:])
    x = ENV['dsm'].DataSliceManager.create_new('/s/I', fs=ENV['Fs'](store), initial_data_manager=inner)
    ms = [ms[0], x]
  elif kind == 'with-parent':
    ms = ms + [m]
  compose(ctx, store, ms, None, where)


def s09_glue(ctx, job):
  """Components have roots of their own; one more managed slice refers to them."""
  a, b, alias = job
  kd = ENV['kd']
  store, m0, r0 = start()
  fs = ENV['Fs'](store)
  ms = [m0] + [ENV['dsm'].DataSliceManager.create_new(f'/s/P{j}', fs=fs) for j in (1, 2)]
  refs = [r0, ms[1].get_data_slice(), ms[2].get_data_slice()]
  for j, part in ((1, a), (2, b)):
    for n in part:
      if not step(ms, refs, j, n):
        return
  g = r0.with_attrs(left=refs[1].no_bag(), right=refs[2].no_bag())
  do_update(ms[0], ('', 'left', g.left))
  do_update(ms[0], ('', 'right', g.right))
  if alias:
    if not alias(ms, refs):
      return
  for order in ((0, 1, 2), (0, 2, 1)):
    s2 = store.copy()
    new_process()
    ms2 = [open_dsm(s2, d) for d in [('/s/A', '/s/P1', '/s/P2')[i] for i in order]]
    compose(ctx, s2, ms2, None, {'glue': [list(a), list(b)], 'order': order, 'n': len(a) + len(b)})


def run_s09(ctx):
  dsm.setup()
  from koladata.ext.storage import composite_initial_data_manager as comp
  ENV['comp'] = comp
  ENV['U'] = updates()
  names = sorted(ENV['U'])
  jobs = []
  one = [()] + [(n,) for n in names]
  bases = [(), ('q=list',), ('x=ent',), ('q=list', 'm=dict'), ('q=list', 'alias=q0'), ('q=list', 'q.d=lists'), ('tree',), ('m=dict',)]
  apart = ('ids', 'empty', 'meta', 'odd name', 'll', 'mk=dict', 'tree', 'tree.next.v=', 'tree.next.next=', 'q=list2', 'x.child.b=none')
  for base in bases[:5] if ctx.quick else bases:
    part = [p for p in one if not (ctx.quick and base and p and p[0] in apart)]
    for p in part:
      for q in part:
        jobs.append((s09_branches, (base, (p, q), 'plain')))
        if len(p) + len(q) <= 2 and base in bases[1:3]:
          jobs.append((s09_branches, (base, (p, q), 'with-parent')))
          jobs.append((s09_branches, (base, (p, q, ()), 'nested')))
  few = [(n,) for n in ('x=int', 'x=str', 'x=none', 'q.t=', 'q.t=int', 'q.d=lists', 'alias=q0', 'q.self=q', 'x=ent', 'x.a=5')]
  for p, q, r in itertools.product(few, repeat=3):
    jobs.append((s09_branches, (('q=list',), (p, q, r), 'plain')))
  two = [p + q for p in few for q in few if p != q]
  if not ctx.quick:
    few2 = [(n,) for n in names]
  else:
    few2 = few
  for p in two:
    for q in few2:
      for base in (('q=list',),):
        jobs.append((s09_branches, (base, (p, q), 'plain')))
        jobs.append((s09_branches, (base, (q, p), 'plain')))
  if not ctx.quick:
    for p, q in itertools.product(two, two):
      jobs.append((s09_branches, (('q=list',), (p, q), 'plain')))
  rootable = [p for p in one if not p or '.' not in p[0]]
  for p, q in itertools.product(rootable, rootable):
    jobs.append((s09_glue, (p, q, None)))
  jobs.sort(key=lambda j: core.digest((j[0].__name__, j[1])))
  jobs = [jobs[i::128] for i in range(128)]
  core.parallel(ctx, lambda c, js: [f(c, j) for f, j in js], jobs)
  if not ctx.extra.get('ill_typed'):
    raise core.HarnessError('no ill-typed combination seen')
  try:
    comp.CompositeInitialDataManager.create_new(managers=[])
    ctx.violation('empty', 'a composition of nothing was accepted', None)
  except ValueError:
    pass
  ctx.assumptions = ["kd API modelled by mc/minikd, validated on the repository's storage tests",
                     'compositions that are ill-typed in plain Koda (an attribute with two types on the same item) are excluded']


# -- S10: views ----------------------------------------------------------------
# Value terms: int | str | None | ('L', [..]) | ('D', [(k, v)..]) | ('E', {attr: value})
# with a type term beside: 'i' | 's' | ('L', t) | ('D', kt, vt) | ('E', {attr: t}, name)
GONE = object()


def tree(ds):
  """Reads a slice into nested python, entities with their identity."""
  mk, b = ENV['minikd'], ds._bag

  def read(v, s):
    if v is None:
      return None
    if not isinstance(s, mk.ItemId):
      return v
    if mk._is_list_schema(s, b):
      return ['L', [read(x, b._attr(s, '__items__')) for x in b._l.get(v, ())]]
    if mk._is_dict_schema(s, b):
      return ['D', [(read(k, b._attr(s, '__keys__')), read(x, b._attr(s, '__values__')))
                    for k, x in b._d.get(v, {}).items() if x is not mk.REMOVED]]
    return ['E', v, {a: read(mk._val(b._attr(v, a)), e) for a, e in sorted(b._a.get(s, {}).items())
                     if not a.startswith('__') and e is not mk.REMOVED}]
  return read(ds._v, ds._s)


def ref_filter(x, acts, mask):
  """What filtering leaves of x; mask yields one decision per item, in order."""
  if not acts:
    return x if next(mask) else GONE
  a, rest = acts[0], acts[1:]
  n = type(a).__name__
  if n == 'GetAttr':
    sub = ref_filter(x[2][a.attr_name] if x is not None else None, rest, mask)
    if sub is GONE:
      return GONE
    return x if x is None else ['E', x[1], {**x[2], a.attr_name: sub}]
  if n == 'ListExplode':
    items = [ref_filter(y, rest, mask) for y in (x[1] if x is not None else ())]
    items = [y for y in items if y is not GONE]
    return ['L', items] if items else GONE
  pairs = []
  for k, v in (x[1] if x is not None else ()):
    sub = ref_filter(k if n == 'DictGetKeys' else v, rest, mask)
    if sub is not GONE:
      pairs.append((sub, v) if n == 'DictGetKeys' else (k, sub))
  return ['D', pairs] if pairs else GONE


def norm(x):
  """Lists and dicts by content (their identity may change), dicts unordered."""
  if not isinstance(x, list):
    return repr(x)
  if x[0] == 'L':
    return ('L',) + tuple(norm(y) for y in x[1])
  if x[0] == 'D':
    return ('D',) + tuple(sorted((norm(k), norm(v)) for k, v in x[1]))
  return ('E', repr(x[1])) + tuple((a, norm(v)) for a, v in x[2].items())


def any_missing_kept(x, acts, mask):
  """True if a missing item is selected inside a list or dict (see below)."""
  if not acts:
    return next(mask) and x is None
  a, rest = acts[0], acts[1:]
  n = type(a).__name__
  if n == 'GetAttr':
    r = any_missing_kept(x[2][a.attr_name] if x is not None else None, rest, mask)
    return r and x is None
  items = () if x is None else x[1]
  if n != 'ListExplode':
    items = [k if n == 'DictGetKeys' else v for k, v in items]
  return any([any_missing_kept(y, rest, mask) for y in items])


def leaves(x, acts):
  if not acts:
    return 1
  a, rest = acts[0], acts[1:]
  n = type(a).__name__
  if n == 'GetAttr':
    return leaves(x[2][a.attr_name] if x is not None else None, rest)
  items = () if x is None else x[1]
  if n != 'ListExplode':
    items = [k if n == 'DictGetKeys' else v for k, v in items]
  return sum(leaves(y, rest) for y in items)


def samples():
  """name -> a function that builds the value of the attribute `r`."""
  kd = ENV['kd']
  E = kd.named_schema('E')
  F = kd.named_schema('F')

  def e(**kw):
    return E.new(**kw)

  return {
      'list': lambda: kd.list([1, 2, 3]),
      'list1': lambda: kd.list([1]),
      'list missing': lambda: kd.list([1, None, 3]),
      'empty': lambda: kd.list([], item_schema=kd.INT32),
      'list of lists': lambda: kd.list([kd.list([1, 2]), kd.list([3])]),
      'list of lists with empty': lambda: kd.list([kd.list([1, 2]), kd.list([], item_schema=kd.INT32), kd.list([3])]),
      'list of lists with missing': lambda: kd.list([kd.list([1, 2]), None, kd.list([3])]),
      'list3': lambda: kd.list([kd.list([kd.list([1, 2]), kd.list([3])]), kd.list([kd.list([4])])]),
      'entities': lambda: kd.list([e(t=kd.item(1), u=kd.item('a')), e(t=kd.item(2), u=kd.item('b')), e(t=kd.item(None, schema=kd.INT32), u=kd.item('c'))]),
      'entities with lists': lambda: kd.list([e(l=kd.list([1, 2]), n=kd.item(1)), e(l=kd.list([3]), n=kd.item(2))]),
      'entities with dicts': lambda: kd.list([e(m=kd.dict({'a': 1, 'b': 2})), e(m=kd.dict({'c': 3}))]),
      'entity': lambda: e(t=kd.item(1), c=F.new(v=kd.item(2))),
      'entity with list of entities': lambda: e(q=kd.list([F.new(v=kd.item(1)), F.new(v=kd.item(2))]), o=kd.item('other')),
      'nested entities': lambda: kd.list([e(q=kd.list([F.new(v=kd.item(1)), F.new(v=kd.item(2))])), e(q=kd.list([F.new(v=kd.item(3))]))]),
      'dict': lambda: kd.dict({'a': 1, 'b': 2, 'c': 3}),
      'dict of lists': lambda: kd.dict({'a': kd.list([1, 2]), 'b': kd.list([3])}),
      'dict of entities': lambda: kd.dict({'a': e(t=kd.item(1)), 'b': e(t=kd.item(2))}),
      'dict of dicts': lambda: kd.dict({1: kd.dict({'a': 1, 'b': 2}), 2: kd.dict({'c': 3})}),
      'entity keys': lambda: kd.dict(kd.slice([e(t=kd.item(1)), e(t=kd.item(2)), e(t=kd.item(3))]), kd.slice([10, 20, 30])),
      'list of dicts': lambda: kd.list([kd.dict({'a': 1, 'b': 2}), kd.dict({'c': 3})]),
      'item': lambda: kd.item(5),
      'missing item': lambda: kd.item(None, schema=kd.INT32),
      'dict with missing': lambda: kd.list([kd.dict({'a': 1}), None, kd.dict({'b': 2, 'c': 3})]),
  }


def world(name):
  """A managed slice with the sample at `r` and a bystander that shares it."""
  kd = ENV['kd']
  store, m, ref = start()
  ups = [('', 'before', kd.list([kd.item('b0'), kd.item('b1')])), ('', 'r', samples()[name]())]
  for u in ups:
    do_update(m, u)
    ref = apply_ref(ref, u)
  return store, m, ref


def mask_slice(ds, bits):
  """A MASK slice of the shape of ds with the given flat bits."""
  kd, mk = ENV['kd'], ENV['minikd']
  it = iter(bits)
  return ds.no_bag()._mapv(lambda _: mk.MASK_PRESENT if next(it) else None, mk.DType('MASK'), None)


def prefix_slices(m, path):
  """The slices at the ancestors of path, whose masks can be expanded."""
  dsp = ENV['dsp']
  full = m.get_data_slice_at(path)
  out = [(full, None)]
  seen = {full._nd}
  for i in range(len(path.actions) - 1, -1, -1):
    p = dsp.DataSlicePath(path.actions[:i])
    d = m.get_data_slice_at(p)
    if d._nd not in seen:
      seen.add(d._nd)
      out.append((d, p))
  return out


def s10_filter(ctx, job):
  name, path_i = job
  kd, mk = ENV['kd'], ENV['minikd']
  View = ENV['view'].DataSliceManagerView
  store0, m, ref = world(name)
  paths = [p for p in m.generate_paths(max_depth=6) if p.actions and p.actions[0].attr_name == 'r']
  if path_i >= len(paths):
    return
  path = paths[path_i]
  x0 = tree(everything(m).r)
  n = leaves(x0, path.actions[1:])
  others = canon(everything(m).before)
  for pd, pp in prefix_slices(m, path):
    cnt = len(list(mk._flat(pd._v, pd._nd)))
    for bits in itertools.product((0, 1), repeat=cnt):
      for form in ('mask', 'function', 'select') if pp is None else ('mask',):
        where = {'data': name, 'path': str(path), 'mask': bits, 'mask_dims': pd._nd, 'form': form}
        what = f'{name}: filter {path} by {bits} ({form}, {pd._nd} dims)'
        s = store0.copy()
        new_process()
        mm = open_dsm(s)
        v = View(mm, path)
        mask = mask_slice(pd, bits)
        flat = list(x is not None for x in mk._flat(mask.expand_to(v.get_data_slice())._v, v.get_data_slice()._nd))
        ctx.transitions += 1
        if any_missing_kept(x0, path.actions[1:], iter(flat)) and not all(flat):
          # Keeping a missing item: whether its container counts as empty is
          # not specified.
          ctx.add('unspecified')
          continue
        hist = hist_of(mm)
        want = ref_filter(x0, path.actions[1:], iter(flat))
        if want is GONE:
          want = None
        if all(flat):
          want = x0
        r = v
        if form == 'mask':
          v.filter(mask, description='why')
        elif form == 'function':
          v.filter(lambda w: mask if w == v else None)
        else:
          r = v.select(mask, description='why')
          if hist_of(mm) != hist or norm(tree(everything(mm).r)) != norm(x0):
            ctx.violation('select', f'{what}: select() changed the slice itself', where)
            return
        g = r.get_manager()
        if r.get_path_from_root() != path or (form != 'select') != (g is mm):
          ctx.violation('select', f'{what}: gives a view at {r.get_path_from_root()}', where)
        new_process()
        for x, t in ((g, 'live'), (open_dsm(s, g.get_persistence_directory()), 'reopened')):
          a = everything(x)
          if norm(tree(a.r)) != norm(want):
            ctx.violation('filter', f'{what}, {t}: leaves {norm(tree(a.r))}; expected {norm(want)} of {norm(x0)}', where)
            return
          if canon(a.before) != others or canon(a.r.get_schema()) != canon(ref.r.get_schema()):
            ctx.violation('filter-other', f'{what}, {t}: changes something else', where)
            return
        h = hist_of(g)
        if form != 'select':
          new = [] if all(flat) else [('update', 'why' if form == 'mask' else f'Filtered items at path "{path}"', '', 'r')]
          if h != hist + new:
            ctx.violation('filter-history', f'{what}: the history is {h[len(hist):]}, expected {new}', where)
            return
        # what was there before is still in the history
        if not all(flat) and form == 'mask':
          new_process()
          o = open_dsm(s, at_revision_history_index=len(hist) - 1)
          if norm(tree(everything(o).r)) != norm(x0):
            ctx.violation('filter-travel', f'{what}: the previous revision changed', where)
            return
        ctx.states += 1
        ctx.outcome((len(flat), sum(flat), want is None))
  # the root cannot be filtered; masks of wrong shape are refused cleanly
  if path_i == 0:
    v = View(m, ENV['P'](''))
    if refused(lambda: v.filter(kd.present)) is None:
      ctx.violation('root', f'{name}: filtering the root was accepted', {'data': name})


def s10_nav(ctx, job):
  """Navigation agrees with the paths of the schema, at all times."""
  names = job
  kd, P, dsp = ENV['kd'], ENV['P'], ENV['dsp']
  View = ENV['view'].DataSliceManagerView
  U = ENV['U']
  store, m, ref = start()
  views = {}
  refs = [ref]
  hist = [('create', None)]
  how = itertools.cycle(('update', 'setattr', 'setattr+why'))
  for i, n in enumerate(names):
    u = U[n](ref)
    at, h = View(m, P(u[0])), next(how)
    if h == 'update' or not u[1].isidentifier():
      at.update(u[1], u[2], 'why')
      h = 'update'
    elif h == 'setattr':
      setattr(at, u[1], u[2])
    else:
      setattr(at, u[1], (u[2], 'why'))
    hist.append(('update', None if h == 'setattr' else 'why', P(u[0]).to_string(), u[1]))
    ref = apply_ref(ref, u)
    refs.append(ref)
    for p in ref_paths(ref, 3):
      views.setdefault(p, View(m, p))
  where = {'history': list(names)}
  got = hist_of(m)
  if [g[2:] for g in got[1:]] != [w[2:] for w in hist[1:]] or any(w[1] and g[1] != w[1] for g, w in zip(got[1:], hist[1:])):
    ctx.violation('update', f'{names}: updates through views give the history {got}; expected {hist}', where)
    return
  if not light(ctx, m, ref, 'update', f'{names}: updates through views', where, depth=3):
    return
  ctx.states += 1
  depth = 4
  want = ref_paths(ref, depth)
  sch = dict(want)

  def kids(p):
    return [q for q in want if q.actions[:-1] == p.actions and len(q.actions) == len(p.actions) + 1]

  rv = View(m)
  for p, v in views.items():
    ctx.transitions += 1
    ok = p in want

    def bad(text):
      ctx.violation('view', f'{names}: view of {p}: {text}', where)

    if bool(v.is_view_valid()) != ok or v.get_path_from_root() != p or v.get_manager() is not m:
      bad(f'validity {v.is_view_valid()}, path {v.get_path_from_root()}')
      return
    if v.get_root() != rv or (hash(v.get_root()) != hash(rv)):
      bad('get_root() is not the root')
    n = len(p.actions)
    for up in range(-1, n + 2):
      q = dsp.DataSlicePath(p.actions[:n - up]) if 0 <= up <= n else None
      e = None
      try:
        g = v.get_ancestor(up).get_path_from_root()
      except ValueError as ex:
        g, e = None, ex
      exp = None if q is None or (q not in want and up != 0) else q
      if g != exp:
        bad(f'get_ancestor({up}) is {g} ({e}); expected {exp}')
      if up in (1, 2):
        f = v.get_parent if up == 1 else v.get_grandparent
        try:
          g = f().get_path_from_root()
        except ValueError:
          g = None
        if g != exp:
          bad(f'{f.__name__}() is {g}; expected {exp}')
    if ok and (v != View(m, p) or hash(v) != hash(View(m, p)) or not v == View(m, p)):
      bad('is not equal to another view of the same path')
    names_ = v.__all__
    if not ok:
      for f in (v.get_schema, v.get_data_slice, v.get, v.get_children, v.get_list_items, v.get_dict_keys, v.get_dict_values,
                lambda: v.get_attr('x'), lambda: v.x, lambda: v[:], lambda: v.update('x', kd.item(1)), v.branch,
                lambda: v.filter(kd.present), lambda: v.select(kd.present), lambda: setattr(v, 'x', kd.item(1))):
        before = store.key()
        if not isinstance(refused(f), ValueError) or store.key() != before:
          bad('an operation on an invalid view was not refused cleanly')
          return
      if 'get_schema' in names_ or 'get_manager' not in names_:
        bad(f'offers {names_}')
      continue
    e = p.evaluate(ref)
    if canon(v.get_schema()) != canon(e.get_schema()):
      bad('get_schema() differs')
    for f in (v.get, v.get_data_slice):
      if shallow(f()) != shallow(e):
        bad(f'{f.__name__}() is {shallow(f())}; expected {shallow(e)}')
      if canon(f(populate_including_descendants=[v])) != canon(e):
        bad(f'{f.__name__}(populate_including_descendants=[self]) differs')
      for c in kids(p)[:3]:
        r = f(populate=[View(m, c)])
        if shallow(c.actions[-1].evaluate(r)) != shallow(c.evaluate(ref)):
          bad(f'{f.__name__}(populate=[{c}]) does not have it')
    if n >= 3:
      continue
    got = [c.get_path_from_root() for c in v.get_children()]
    if got != kids(p):
      bad(f'get_children() are {list(map(str, got))}; expected {list(map(str, kids(p)))}')
    for md in (0, 1, 2):
      exp = [q for q in want if q.actions[:n] == p.actions and n < len(q.actions) <= n + md]
      got = [c.get_path_from_root() for c in v.find_descendants(lambda w: True, max_delta_depth=md)]
      if n + md <= depth and (sorted(map(str, got)) != sorted(map(str, exp)) or [len(g.actions) for g in got] != sorted(len(g.actions) for g in got)):
        bad(f'find_descendants(max_delta_depth={md}) gives {list(map(str, got))}; expected {list(map(str, exp))}')
      for rx, pred in (('x', lambda s: 'x' in s), (r'\]$', lambda s: s.endswith(']')), ('^' + '.q', lambda s: len(s) > 1 and s[1] == 'q')):
        if n + md <= depth:
          g2 = [c.get_path_from_root().to_string() for c in v.grep_descendants(rx, max_delta_depth=md)]
          if g2 != [s for s in map(str, got) if pred(s)]:
            bad(f'grep_descendants({rx!r}, max_delta_depth={md}) gives {g2}')
      even = [c.get_path_from_root() for c in v.find_descendants(lambda w: len(w.get_path_from_root().to_string()) % 2 == 0, max_delta_depth=md)]
      if even != [g for g in got if len(g.to_string()) % 2 == 0]:
        bad('find_descendants ignores the predicate')
    # every single step, valid or not
    steps = [(dsp.ListExplode(), v.get_list_items), (dsp.ListExplode(), lambda: v[:]), (dsp.DictGetKeys(), v.get_dict_keys),
             (dsp.DictGetValues(), v.get_dict_values)]
    for a in ('x', 'q', 't', 'a.b [:]', 'nope', 'title'):
      steps.append((dsp.GetAttr(a), lambda a=a: v.get_attr(a)))
      if a.isidentifier():
        steps.append((dsp.GetAttr(a), lambda a=a: getattr(v, a)))
    for act, f in steps:
      q = p.extended_with_action(act)
      try:
        g = f().get_path_from_root()
      except ValueError:
        g = None
      if g != (q if q in want else None):
        bad(f'the step {act} leads to {g}')
    s = e.get_schema()
    for a, have in (('update', s.is_entity_schema()), ('get_list_items', s.is_list_schema()), ('get_dict_keys', s.is_dict_schema()),
                    ('filter', n > 0), ('select', n > 0), ('get_schema', True), ('get_parent', n > 0), ('get_grandparent', n > 1)):
      if bool(have) != (a in names_):
        bad(f'__all__ {"offers" if a in names_ else "lacks"} {a}')
    if s.is_entity_schema():
      offered = {q.actions[-1].attr_name for q in kids(p)} & {'x', 'q', 't', 'a.b [:]', 'id', 'title', 'score', 'm'}
      if {a for a in offered if a.isidentifier()} - set(names_) or 'a.b [:]' in names_:
        bad(f'__all__ is {names_}')
    for k in (0, slice(0, 1), slice(None, None, 2), slice(1, None), slice(None, 3), 'x'):
      if refused(lambda: v[k]) is None:
        bad(f'[{k}] was accepted')
    for a in ('__foo__', '_x', 'get_keys'):
      if not isinstance(refused(lambda: getattr(v, a)), (AttributeError, ValueError)):
        bad(f'.{a} was accepted')
  # branches of views
  for p in list(want)[:4]:
    v = View(m, p)
    b = v.branch(description='bd')
    if b.get_path_from_root() != p or b.get_manager() is m or b == v or hist_of(b.get_manager())[0][1] != 'bd':
      ctx.violation('branch', f'{names}: branch of the view of {p} is a view of {b.get_path_from_root()}', where)
    b.get_root().update('zz', kd.item(1))
    if m.exists(P('.zz')) or not b.get_manager().exists(P('.zz')):
      ctx.violation('branch', f'{names}: updating a branch of the view of {p} changed the original', where)
    if not light(ctx, m, ref, 'branch', f'{names}: after a branch was updated', where, depth=2):
      return
  ctx.traces += 1
  ctx.outcome((len(names), len(views)))


def run_s10(ctx):
  dsm.setup()
  from koladata.ext.storage import data_slice_manager_view as view
  ENV['view'] = view
  ENV['U'] = updates()
  jobs = [(s10_filter, (n, i)) for n in samples() for i in range(8)]
  for n in range(0, 3 if ctx.quick else 4):
    for s in dsm.seqs(ENV['U'], n):
      jobs.append((s10_nav, s))
  if ctx.quick:
    over = ('x=int', 'x=str', 'x=ent', 'x.a=5', 'q=list', 'q.t=', 'odd name', 'tree', 'm=dict')
    ENV['U'] = {k: v for k, v in ENV['U'].items() if k in over}
    jobs += [(s10_nav, s) for s in dsm.seqs(ENV['U'], 3)]
    ENV['U'] = updates()
  jobs.sort(key=lambda j: core.digest((j[0].__name__, j[1])))
  jobs = [jobs[i::128] for i in range(128)]
  core.parallel(ctx, lambda c, js: [f(c, j) for f, j in js], jobs)
  ctx.note(data=len(samples()))
  ctx.assumptions = ["kd API modelled by mc/minikd, validated on the repository's storage tests"]


# -- S11: the in-memory manager ---------------------------------------------------
def s11_job(ctx, names):
  kd, P = ENV['kd'], ENV['P']
  U = ENV['U']
  ENV['minikd'].reset_ids()
  m = ENV['mem'].SimpleInMemoryDataSliceManager()
  ref = everything(m)
  where = {'history': list(names)}
  if ref_paths(ref, 3).keys() != {P('')}:
    ctx.violation('new', 'a new manager is not empty', None)
  for n in names:
    u = U[n](ref)
    nref = apply_ref(ref, u)
    seen = everything(m)
    c = canon(seen)
    do_update(m, u)
    if canon(seen) != c:
      ctx.violation('mutated', f'{names}: an update changed a slice that was read before', where)
      return
    ref = nref
  ctx.states += 1
  deep = len(names) < 3 or not ctx.quick
  if not light(ctx, m, ref, 'serve', f'{names}', where, depth=3):
    return
  known = ref_paths(ref, 4)
  for p in ref_paths(ref, 3 if deep else 1):
    ctx.transitions += 1
    if canon(m.get_data_slice_at(p, with_all_descendants=True)) != canon(p.evaluate(ref)):
      ctx.violation('serve', f'{names}: {p} with descendants differs', where)
      return
    if canon(m.get_schema_at(p)) != canon(p.evaluate(ref).get_schema()):
      ctx.violation('serve', f'{names}: schema at {p} differs', where)
      return
    for a in (ENV['dsp'].GetAttr('nope'), ENV['dsp'].ListExplode(), ENV['dsp'].DictGetKeys(), ENV['dsp'].DictGetValues()):
      q = p.extended_with_action(a)
      if q in known:
        continue
      if m.exists(q) or any(not isinstance(refused(f), ValueError) for f in (
          lambda: m.get_data_slice(populate=[q]), lambda: m.get_data_slice(populate_including_descendants=[q]),
          lambda: m.get_data_slice_at(q))):
        ctx.violation('invalid', f'{names}: {q} was accepted', where)
        return
  for u in dsm.bad_updates(ref)[:10 if deep else 3]:
    if refused(lambda: do_update(m, u)) is None:
      ctx.violation('accepted', f'{names}: update at {u[0]!r} of {u[1]} with {u[2]} was accepted', where)
      return
    if canon(everything(m)) != canon(ref):
      ctx.violation('refused-trace', f'{names}: a refused update at {u[0]!r} of {u[1]} left a trace', where)
      return
  if m.is_read_only:
    ctx.violation('read-only', 'a new manager is read-only', where)
  m.set_read_only()
  if not m.is_read_only or refused(lambda: do_update(m, ('', 'z', kd.item(1)))) is None:
    ctx.violation('read-only', f'{names}: an update of a read-only manager was accepted', where)
  light(ctx, m, ref, 'read-only', f'{names}: read-only', where, depth=1)
  ctx.traces += 1
  ctx.outcome(len(ref_paths(ref, 4)))


def run_s11(ctx):
  dsm.setup()
  from koladata.ext.storage import simple_in_memory_data_slice_manager as mem
  ENV['mem'] = mem
  ENV['U'] = updates()
  jobs = [s for n in range(0, 4 if ctx.quick else 5) for s in dsm.seqs(ENV['U'], n)]
  jobs.sort(key=core.digest)
  jobs = [jobs[i::128] for i in range(128)]
  core.parallel(ctx, lambda c, js: [s11_job(c, j) for j in js], jobs)
  ctx.note(max_updates=3 if ctx.quick else 4)
  ctx.assumptions = ["kd API modelled by mc/minikd, validated on the repository's storage tests"]
