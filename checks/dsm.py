"""S05-S08: DataSliceManager on the modelled file system and kd model.

Oracle: vanilla Koda semantics on the same values.  The reference slice is
`ref.updated(kd.attrs(path.evaluate(ref), name=value, overwrite_schema=True))`,
i.e. an ordinary, fully loaded DataSlice.
"""

import itertools
import os

from mc import core
from mc import memfs
from mc import sched

ENV = {}


def setup():
  if ENV:
    return ENV
  core.setup_imports()
  from mc import minikd
  memfs.install_pools()
  kd = minikd.install()
  memfs.install_uuids()
  from koladata.ext.storage import bare_root_initial_data_manager as bare
  from koladata.ext.storage import data_slice_manager as dsm
  from koladata.ext.storage import data_slice_path as dsp
  from koladata.ext.storage import global_cache_lib
  ENV.update(kd=kd, minikd=minikd, dsm=dsm, dsp=dsp, bare=bare,
             cachelib=global_cache_lib, Fs=memfs.make_fs_class())
  ENV['P'] = dsp.DataSlicePath.parse_from_string
  return ENV


def new_process():
  ENV['cachelib'].get_global_cache().clear()
  memfs.LazyPool.instances.clear()


# -- the alphabet of updates ---------------------------------------------------
def updates():
  """name -> fn(ref, at) -> (path, attr, value) or None when not applicable."""
  kd, P = ENV['kd'], ENV['P']

  def has(ref, path):
    try:
      return P(path).evaluate(ref)
    except Exception:
      return None

  def is_entity(ref, path):
    d = has(ref, path)
    return d is not None and d.get_schema().is_entity_schema()

  def at(path, attr, make):
    def f(ref):
      if path and not is_entity(ref, path):
        return None
      v = make(ref)
      return None if v is None else (path, attr, v)
    return f

  Q = kd.named_schema('Q')
  D = kd.named_schema('D', title=kd.STRING)
  N = kd.named_schema('N', v=kd.INT32, next=kd.named_schema('N'))

  def q_list(ref, base=0):
    return kd.list([Q.new(id=kd.item(f'q{base}')), Q.new(id=kd.item(f'q{base+1}'))])

  def per_q(vals, schema=None):
    """A value for .q[:] (two items)."""
    return lambda ref: kd.slice(vals, schema=schema) if has(ref, '.q[:]') is not None else None

  def docs(ref):
    if has(ref, '.q[:]') is None:
      return None
    return kd.slice([
        kd.list([D.new(title=kd.item('t0')), D.new(title=kd.item(None, schema=kd.STRING))]),
        kd.list([], item_schema=D),
    ])

  def first_q(ref):
    q = has(ref, '.q[:]')
    return None if q is None else q.S[0]

  def all_q(ref):
    return has(ref, '.q[:]')

  def dict_of_q(ref):
    q = has(ref, '.q[:]')
    e = Q.new(id=kd.item('qd')) if q is None else q.S[1]
    return kd.dict({'k': e, 'l': Q.new(id=kd.item('ql'))})

  def tree(ref):
    leaf = N.new(v=kd.item(1))
    return N.new(v=kd.item(0), next=leaf)

  def cyc(ref):
    t = has(ref, '.tree')
    return t  # .tree.next.next := .tree

  meta_schema = kd.with_metadata(kd.named_schema('M', a=kd.INT32), note=kd.item('hello'))

  return {
      'x=int': at('', 'x', lambda r: kd.item(1)),
      'x=str': at('', 'x', lambda r: kd.item('s')),
      'x=none': at('', 'x', lambda r: kd.item(None, schema=kd.INT32)),
      'x=ent': at('', 'x', lambda r: kd.new(a=kd.item(1), child=kd.new(b=kd.item(2), schema='C'), schema='E')),
      'x.a=5': at('.x', 'a', lambda r: kd.item(5)),
      'x.child.b=none': at('.x.child', 'b', lambda r: kd.item(None, schema=kd.INT32)),
      'q=list': at('', 'q', q_list),
      'q=list2': at('', 'q', lambda r: q_list(r, 5)),
      'q.d=lists': at('.q[:]', 'd', docs),
      'q.d.s=': at('.q[:].d[:]', 'score', lambda r: kd.slice([[1.0, None], []], schema=kd.FLOAT32)),
      'q.t=': at('.q[:]', 't', per_q(['a', None])),
      'q.t=int': at('.q[:]', 't', per_q([None, 7], None)),
      'q.id=': at('.q[:]', 'id', per_q([None, 'new'])),
      'alias=q0': at('', 'alias', first_q),
      'alias.t=': at('.alias', 't', lambda r: kd.item('via alias')),
      'q.self=q': at('.q[:]', 'self', all_q),
      'm=dict': at('', 'm', dict_of_q),
      'm.v.t=': at('.m.get_values()', 't', lambda r: kd.slice(['mv0', 'mv1'])),
      'mk=dict': at('', 'mk', lambda r: None if first_q(r) is None else kd.dict({first_q(r): kd.item(1)})),
      'tree': at('', 'tree', tree),
      'tree.next.v=': at('.tree.next', 'v', lambda r: kd.item(9)),
      'tree.next.next=': at('.tree.next', 'next', cyc),
      'ids': at('', 'ids', lambda r: None if all_q(r) is None else all_q(r).get_itemid().implode()),
      'empty': at('', 'empty', lambda r: kd.list([], item_schema=Q)),
      'meta': at('', 'meta', lambda r: meta_schema.new(a=kd.item(3))),
      'odd name': at('', 'a.b [:]', lambda r: kd.item(4)),
      'll': at('', 'll', lambda r: kd.list([kd.list([1, 2]), kd.list([3])])),
  }


def apply_ref(ref, upd):
  kd = ENV['kd']
  path, attr, value = upd
  try:
    value = value.extract()
  except ValueError:
    pass
  return ref.updated(kd.attrs(ENV['P'](path).evaluate(ref), **{attr: value}, overwrite_schema=True))


def well_typed(ref):
  """Every reachable value has the type its schema says.

  Overwriting an attribute's schema through one alias leaves values of the old
  type on the other items in vanilla Koda too; such a slice is ill-formed, and
  the managed slice is allowed (and documented) to drop those values.
  """
  mk, b = ENV['minikd'], ref._bag
  seen, work = set(), [(v, ref._s) for v in mk._flat(ref._v, ref._nd)]
  while work:
    v, s = work.pop()
    if v is None or (v, s) in seen:
      continue
    seen.add((v, s))
    if not isinstance(s, mk.ItemId):
      if isinstance(v, mk.V) and s.name not in ('OBJECT', 'SCHEMA') and v.dtype != s.name:
        return False
      if isinstance(v, mk.ItemId) and s.name not in ('OBJECT', 'SCHEMA', 'ITEMID'):
        return False
      continue
    if not isinstance(v, mk.ItemId):
      return False
    if mk._is_list_schema(s, b):
      if v.kind != 'list':
        return False
      work += [(x, b._attr(s, '__items__')) for x in b._l.get(v, ())]
    elif mk._is_dict_schema(s, b):
      if v.kind != 'dict':
        return False
      for k, x in b._d.get(v, {}).items():
        if x is not mk.REMOVED:
          work += [(k, b._attr(s, '__keys__')), (x, b._attr(s, '__values__'))]
    else:
      if v.kind in ('list', 'dict'):
        return False
      for a, e in b._a.get(s, {}).items():
        if not a.startswith('__') and e is not mk.REMOVED:
          work.append((mk._val(b._attr(v, a)), e))
  return True


def do_update(m, upd, **kw):
  m.update(at_path=ENV['P'](upd[0]), attr_name=upd[1], attr_value=upd[2], **kw)


# -- observation -----------------------------------------------------------------
def canon(ds):
  return ENV['minikd'].canon(ds)


def shallow(ds):
  return (ds._v, ds._nd, ds._s)


def ref_paths(ref, depth):
  """The paths of the reference's schema, by our own traversal."""
  mk, b = ENV['minikd'], ref._bag
  dsp = ENV['dsp']
  out = [((), ref._s)]
  level = [((), ref._s)]
  for _ in range(depth):
    nxt = []
    for p, s in level:
      if not isinstance(s, mk.ItemId):
        continue
      attrs = b._a.get(s, {})
      if mk._is_list_schema(s, b):
        nxt.append((p + (dsp.ListExplode(),), attrs['__items__']))
      elif mk._is_dict_schema(s, b):
        nxt.append((p + (dsp.DictGetKeys(),), attrs['__keys__']))
        nxt.append((p + (dsp.DictGetValues(),), attrs['__values__']))
      else:
        for a, c in sorted(attrs.items()):
          if not a.startswith('__') and c is not mk.REMOVED:
            nxt.append((p + (dsp.GetAttr(a),), c))
    out += nxt
    level = nxt
  return {dsp.DataSlicePath.from_actions(list(p)): s for p, s in out}


def stale(part, ref):
  """A fact in the partially loaded data that the full data contradicts."""
  mk = ENV['minikd']
  b, r = part._bag, ref._bag
  for i, attrs in b._a.items():
    for a, v in attrs.items():
      w = r._attr(i, a)
      if mk._val(w) != mk._val(v) and not (w is mk._NOTHING and mk._val(v) is None):
        return f'{i}.{a} = {v}, but it is {w}'
  for i, items in b._l.items():
    if r._l.get(i) != items:
      return f'list {i} = {items}, but it is {r._l.get(i)}'
  for i, d in b._d.items():
    w = r._d.get(i, {})
    for k, v in d.items():
      if w.get(k) != v:
        return f'dict {i}[{k}] = {v}, but it is {w.get(k)}'
  return None


def check_state(ctx, m, ref, where, *, pairs=True, depth=4):
  """The manager m serves exactly the data of ref, however it is asked."""
  P = ENV['P']
  what = f'after {where["history"]}'

  def bad(key, text):
    if where.get('flip_back') and key in ('at-deep', 'at', 'populate', 'stale', 'compatible'):
      key = 'schema-flip-back'
    ctx.violation(key, f'{what}: {text}', where)

  want = ref_paths(ref, depth)
  got = list(m.generate_paths(max_depth=depth))
  if len(set(got)) != len(got) or set(got) != set(want):
    bad('paths', f'generate_paths gives {sorted(map(str, got))}; the schema has {sorted(map(str, want))}')
    return False
  if canon(m.get_schema()) != canon(ref.get_schema()):
    bad('schema', f'get_schema() is {canon(m.get_schema())}; expected {canon(ref.get_schema())}')
    return False
  root = m.get_data_slice()
  if shallow(root)[:2] != shallow(ref)[:2]:
    bad('root', f'get_data_slice() is {shallow(root)}, expected {shallow(ref)}')
  if stale(root, ref):
    bad('stale', f'get_data_slice() contains {stale(root, ref)}')
  single = {}
  for p in want:
    ctx.transitions += 2
    e = p.evaluate(ref)
    if not m.exists(p):
      bad('exists', f'exists({p}) is False')
    d = m.get_data_slice_at(p)
    if shallow(d) != shallow(e):
      bad('at', f'get_data_slice_at({p}) is {shallow(d)}; expected {shallow(e)}')
      return False
    d = m.get_data_slice_at(p, with_all_descendants=True)
    if canon(d) != canon(e):
      bad('at-deep', f'get_data_slice_at({p}, with_all_descendants=True) is {canon(d)}; expected {canon(e)}')
      return False
    if stale(d, ref):
      bad('stale', f'get_data_slice_at({p}, True) contains {stale(d, ref)}')
    r = m.get_data_slice(populate={p})
    single[p] = r
    if stale(r, ref):
      bad('stale', f'get_data_slice(populate={{{p}}}) contains {stale(r, ref)}')
      return False
  # paths that do not exist are refused
  for p in list(want)[:6]:
    for a in (ENV['dsp'].GetAttr('nope'), ENV['dsp'].ListExplode(), ENV['dsp'].DictGetKeys(), ENV['dsp'].DictGetValues()):
      q = p.extended_with_action(a)
      if q in want or len(q.actions) > depth:
        continue
      if m.exists(q):
        bad('exists', f'exists({q}) is True')
      for kw in (dict(populate=[q]), dict(populate_including_descendants=[q])):
        try:
          m.get_data_slice(**kw)
        except ValueError:
          pass
        else:
          bad('invalid', f'get_data_slice({kw}) accepted a path that does not exist')
  if not pairs:
    return True
  ps = [p for p in want if len(p.actions) <= 3]
  for p, q in itertools.combinations(ps, 2):
    ctx.transitions += 2
    r = m.get_data_slice(populate=[p, q])
    for x in (p, q):
      if shallow(x.evaluate(r)) != shallow(x.evaluate(ref)):
        bad('populate', f'get_data_slice(populate={{{p}, {q}}}) has {shallow(x.evaluate(r))} at {x}; expected {shallow(x.evaluate(ref))}')
        return False
    if stale(r, ref):
      bad('stale', f'get_data_slice(populate={{{p}, {q}}}) contains {stale(r, ref)}')
      return False
    # loads are compatible with each other
    u = single[p].updated(single[q].get_bag())
    for x in (p, q):
      if shallow(x.evaluate(u)) != shallow(x.evaluate(ref)):
        bad('compatible', f'get_data_slice({{{p}}}).updated(get_data_slice({{{q}}}).get_bag()) has {shallow(x.evaluate(u))} at {x}; expected {shallow(x.evaluate(ref))}')
        return False
    if canon(u) != canon(r):
      bad('compatible', f'get_data_slice({{{p}}}).updated(get_data_slice({{{q}}}).get_bag()) differs from get_data_slice({{{p}, {q}}}): {canon(u)} / {canon(r)}')
      return False
    for a, c in ((p, q), (q, p)):
      if len(a.actions) > 2:
        continue
      ctx.transitions += 1
      r = m.get_data_slice(populate=[c], populate_including_descendants=[a])
      if shallow(c.evaluate(r)) != shallow(c.evaluate(ref)) or canon(a.evaluate(r)) != canon(a.evaluate(ref)):
        bad('populate', f'get_data_slice(populate={{{c}}}, populate_including_descendants={{{a}}}) differs: {canon(a.evaluate(r))} vs {canon(a.evaluate(ref))}; at {c}: {shallow(c.evaluate(r))}')
        return False
  return True


def open_dsm(store, d='/s/A', **kw):
  return ENV['dsm'].DataSliceManager.create_from_dir(d, fs=ENV['Fs'](store), **kw)


def start():
  """A new managed slice, its store and its reference."""
  ENV['minikd'].reset_ids()
  new_process()
  store = memfs.Store(dirs={'/s'})
  m = ENV['dsm'].DataSliceManager.create_new('/s/A', fs=ENV['Fs'](store))
  return store, m, m.get_data_slice()


def flip_back(names, U):
  """An attribute's type went A, B, A, the last time not on all of its items.

  Known finding schema-flip-back: what the items not touched by the third
  update had before the second one comes back.
  """
  ref, log = ENV['kd'].new(), []
  mk = ENV['minikd']
  for n in names:
    u = U[n](ref)
    at = ENV['P'](u[0]).evaluate(ref)
    log.append((at._s, u[1], u[2]._s, set(mk._flat(at._v, at._nd))))
    ref = apply_ref(ref, u)
  for a, b, c in itertools.combinations(log, 3):
    if a[:2] == b[:2] == c[:2] and a[2] == c[2] != b[2] and b[3] - c[3]:
      return True
  return False


def run_seq(ctx, names, U):
  """All of one update sequence on a live manager; returns None if disabled."""
  store, m, ref = start()
  refs = [ref]
  for i, n in enumerate(names):
    u = U[n](ref)
    if u is None:
      return None
    nref = apply_ref(ref, u)
    do_update(m, u, description=f'r{i}')
    ref = nref
    refs.append(ref)
  return store, m, refs


# -- S05 ---------------------------------------------------------------------
def s05_job(ctx, job):
  names, heavy = job
  U = ENV['U']
  r = run_seq(ctx, names, U)
  if r is None:
    return
  store, m, refs = r
  ctx.states += 1
  where = {'history': list(names)}
  if len(names) > 4 and flip_back(names, U):
    where['flip_back'] = True
  ok = check_state(ctx, m, refs[-1], where, pairs=heavy, depth=4 if heavy else 3)
  if not ok:
    return
  new_process()
  f = open_dsm(store)
  check_state(ctx, f, refs[-1], {**where, 'reopened': True}, pairs=False, depth=3)
  ctx.traces += 1
  ctx.outcome(len(ref_paths(refs[-1], 4)))


def seqs(U, n):
  """All update sequences of exactly n updates whose prefixes are applicable
  (decided on the reference only)."""
  kd = ENV['kd']
  out = []

  def rec(prefix, ref):
    if len(prefix) == n:
      out.append(prefix)
      return
    for name in U:
      u = U[name](ref)
      if u is None:
        continue
      try:
        nref = apply_ref(ref, u)
      except ValueError:  # not a valid update here (shapes differ)
        continue
      if well_typed(nref):
        rec(prefix + (name,), nref)

  rec((), kd.new())
  return out


FLIP_BACK = ('q=list', 'm=dict', 'q.t=', 'q.t=int', 'm.v.t=')


def run_s05(ctx):
  setup()
  ENV['U'] = updates()
  jobs = []
  for n in range(0, 5):
    for s in seqs(ENV['U'], n):
      if n == 4 and ctx.quick and not (s[0] in ('q=list',) and s[1] in ('alias=q0', 'q.self=q', 'm=dict', 'q.d=lists')):
        continue
      jobs.append((s, n <= 3))
  if not ctx.quick:
    for s in seqs(ENV['U'], 5):
      if s[0] == 'q=list' and s[1] in ('alias=q0', 'm=dict'):
        jobs.append((s, False))
  else:
    jobs.append((FLIP_BACK, False))
  jobs.sort(key=lambda j: core.digest(j[0]))
  jobs = [jobs[i::256] for i in range(256)]
  core.parallel(ctx, lambda c, js: [s05_job(c, j) for j in js], jobs)
  ctx.note(max_updates=4 if ctx.quick else 5)
  ctx.sample([list(j[0]) for j in jobs[0][:4]])
  ctx.assumptions = ["kd API modelled by mc/minikd, validated on the repository's storage tests"]


# -- S06: history --------------------------------------------------------------
HIST = ('x=int', 'x=str', 'x=ent', 'x.a=5', 'q=list', 'q.t=', 'q.t=int',
        'alias=q0', 'alias.t=', 'm=dict', 'm.v.t=', 'tree', 'meta', 'x=none')


def light(ctx, m, ref, key, what, where, depth=3):
  """m serves exactly ref: schema, paths, every path, and everything at once."""
  def bad(text):
    ctx.violation(key, f'{what}: {text}', where)
    return False

  ctx.transitions += 1
  want = ref_paths(ref, depth)
  got = set(m.generate_paths(max_depth=depth))
  if got != set(want):
    return bad(f'paths {sorted(map(str, got))}; expected {sorted(map(str, want))}')
  if canon(m.get_schema()) != canon(ref.get_schema()):
    return bad(f'schema {canon(m.get_schema())}; expected {canon(ref.get_schema())}')
  for p in want:
    d, e = m.get_data_slice_at(p), p.evaluate(ref)
    if shallow(d) != shallow(e):
      return bad(f'{p} is {shallow(d)}; expected {shallow(e)}')
  root = ENV['P']('')
  d = m.get_data_slice(populate_including_descendants=[root])
  if canon(d) != canon(ref):
    return bad(f'everything is {canon(d)}; expected {canon(ref)}')
  return True


def same(m, ref):
  class Probe:
    transitions = 0
    failed = None

    def violation(self, key, what, where):
      self.failed = what

  p = Probe()
  try:
    light(p, m, ref, '', '', None, depth=2)
  except Exception as e:  # pylint: disable=broad-except
    p.failed = f'{type(e).__name__}: {e}'
  return p.failed


def refused(f):
  try:
    f()
  except memfs.Crash:
    raise
  except Exception as e:
    return e
  return None


def hist_of(m):
  out = []
  for r in m.get_revision_history():
    t = type(r).__name__
    if t == 'CreationMetadata':
      out.append(('create', r.description))
    elif t == 'AttributeUpdateMetadata':
      out.append(('update', r.description, r.at_path, r.attr_name))
    elif t == 'BranchMetadata':
      out.append(('branch', r.description, r.parent_persistence_directory, r.parent_revision_history_index))
    else:
      out.append((t,))
  return out


def moved(store, a, b):
  return memfs.Store(
      {(b + p[len(a):] if p.startswith(a + '/') else p): c for p, c in store.files.items()},
      {(b + p[len(a):] if p == a or p.startswith(a + '/') else p) for p in store.dirs} | {'/', b[:b.rindex('/')] or '/'})


def bad_updates(ref):
  """Updates that must be refused without a trace: (path, attr, value)."""
  kd = ENV['kd']
  out = [
      ('.nope', 'a', kd.item(1)),
      ('[:]', 'a', kd.item(1)),
      ('', 'o', kd.obj(a=kd.item(1))),
      ('', 'o', kd.list([kd.obj(a=kd.item(1))])),
      ('', 's', kd.INT32),
      ('', 's', kd.new(s=kd.INT32)),
      ('', 'shape', kd.slice([1, 2])),
  ]
  for p, s in ref_paths(ref, 2).items():
    if not (isinstance(s, ENV['minikd'].ItemId) and ENV['P'](str(p)).evaluate(ref).get_schema().is_entity_schema()):
      out.append((str(p), 'a', kd.item(1)))
  return out[:10]


def s06_job(ctx, names):
  kd, P = ENV['kd'], ENV['P']
  U = ENV['U']
  r = run_seq(ctx, names, U)
  if r is None:
    return
  store, m, refs = r
  n = len(names)
  ctx.states += 1
  where = {'history': list(names)}
  # The history says what happened.
  want = [('create', None)]
  ref = refs[0]
  for i, nm in enumerate(names):
    u = U[nm](refs[i])
    want.append(('update', f'r{i}', P(u[0]).to_string(), u[1]))
  got = hist_of(m)
  got[0] = ('create', None) if got[0][0] == 'create' else got[0]
  if got != want:
    ctx.violation('history', f'after {names} the history is {got}; expected {want}', where)
    return
  new_process()
  f = open_dsm(store)
  if hist_of(f) != hist_of(m):
    ctx.violation('history', f'after {names} a reopened manager has the history {hist_of(f)}, not {hist_of(m)}', where)

  # Time travel.
  pristine = store.copy()
  for k in (-1, n + 1):
    new_process()
    if refused(lambda: open_dsm(store, at_revision_history_index=k)) is None:
      ctx.violation('range', f'{names}: at_revision_history_index={k} was accepted', where)
  nxt = ('', 'z', kd.item(77))
  for k in range(n + 1):
    new_process()
    other = store.copy()  # a refused update may use up the live manager's turn
    o = open_dsm(other, at_revision_history_index=k)
    if not light(ctx, o, refs[k], 'travel', f'{names} opened at revision {k}', where):
      return
    if hist_of(o) != hist_of(m)[:k + 1]:
      ctx.violation('history', f'{names}: opened at revision {k} it has the history {hist_of(o)}', where)
    if k < n:
      if refused(lambda: do_update(o, nxt)) is None:
        ctx.violation('overwrite', f'{names}: a manager opened at revision {k} of {n} overwrote a later revision', where)
        return
      if not light(ctx, o, refs[k], 'travel', f'{names} opened at revision {k}, after a refused update', where):
        return
      new_process()
      o = open_dsm(other)
      if not light(ctx, o, refs[-1], 'travel', f'{names}: reopened after a refused update of revision {k}', where):
        return
      do_update(o, nxt)
      if not light(ctx, o, apply_ref(refs[-1], nxt), 'travel', f'{names}: updated after a refused update of revision {k}', where, depth=2):
        return
  if not light(ctx, m, refs[-1], 'live', f'{names}: live manager', where):
    return

  # Read-only managers.
  ro = open_dsm(store, read_only=True)
  cp = m.get_readonly_copy()
  for what, x in (('read_only=True', ro), ('get_readonly_copy()', cp)):
    before = store.key()
    if not x.is_read_only or refused(lambda: do_update(x, nxt)) is None or store.key() != before:
      ctx.violation('read-only', f'{names}: an update through {what} was not refused cleanly', where)
  # Updates that are refused leave no trace (on what anyone reads).
  for u in bad_updates(refs[-1]):
    e = refused(lambda: do_update(m, u))
    if e is None:
      ctx.violation('accepted', f'{names}: update at {u[0]!r} of {u[1]} with {u[2]} was accepted', where)
      return
    if store.key() != before:
      ctx.violation('refused-trace', f'{names}: the refused update at {u[0]!r} of {u[1]} with {u[2]} changed the directory', where)
      return

  # Branches.
  for k in (-n - 2, n + 1):
    if refused(lambda: m.branch('/s/R', revision_history_index=k)) is None:
      ctx.violation('range', f'{names}: branch at revision {k} was accepted', where)
  memfs.Uuids.collide = 2
  dirs = set()
  for j, k in enumerate([*range(n + 1), *range(-n - 1, 0)]):
    auto = j % 2 == 0
    b = m.branch(None if auto else f'/s/B{j}', revision_history_index=k, description=f'b{j}')
    d = b.get_persistence_directory()
    if d in dirs or (not auto and d != f'/s/B{j}'):
      ctx.violation('branch-dir', f'{names}: the branch got the directory {d}', where)
      return
    dirs.add(d)
    base = refs[k]
    wh = f'{names}: branch {j} at revision {k} ({"auto" if auto else "given"} dir)'
    if hist_of(b) != [('branch', f'b{j}', '/s/A', k % (n + 1))]:
      ctx.violation('history', f'{wh} has the history {hist_of(b)}', where)
    if not light(ctx, b, base, 'branch', wh, where, depth=2):
      return
    snap = base
    for v in (1, 2):
      u = ('', 'x', kd.item(f'branch{j}.{v}'))
      do_update(b, u)
      snap = apply_ref(snap, u)
    if not light(ctx, b, snap, 'branch', f'{wh}, after updates of the branch', where, depth=2):
      return
    if k >= 0 and k == n // 2:
      # a branch of the branch, at its revisions
      for kk, e in ((0, base), (2, snap), (-1, snap)):
        bb = b.branch(revision_history_index=kk)
        if not light(ctx, bb, e, 'branch', f'{wh}: branch of the branch at {kk}', where, depth=2):
          return
        do_update(bb, nxt)
        new_process()
        if not light(ctx, open_dsm(store, bb.get_persistence_directory()), apply_ref(e, nxt), 'branch',
                     f'{wh}: updated branch of the branch at {kk}', where, depth=2):
          return
    new_process()
    if not light(ctx, open_dsm(store, d), snap, 'branch', f'{wh}, reopened', where, depth=2):
      return
    if not light(ctx, open_dsm(store, d, at_revision_history_index=0), base, 'branch', f'{wh}, reopened at 0', where, depth=2):
      return
  memfs.Uuids.collide = 0
  if not light(ctx, m, refs[-1], 'branch', f'{names}: the parent after its branches were updated', where):
    return
  new_process()
  if not light(ctx, open_dsm(store), refs[-1], 'branch', f'{names}: the reopened parent after its branches were updated', where):
    return
  # The parent goes on; branches, read-only copies and old revisions do not see it.
  late = m.branch('/s/L')
  u = ('', 'x', kd.item('parent goes on'))
  do_update(m, u)
  end = apply_ref(refs[-1], u)
  for what, x, e in (('parent', m, end), ('branch', late, refs[-1]), ('read-only copy', cp, refs[-1]), ('read-only manager', ro, refs[-1])):
    if not light(ctx, x, e, 'independent', f'{names}: the {what} after an update of the parent', where, depth=2):
      return
  new_process()
  for d, kw, e in (('/s/A', {}, end), ('/s/L', {}, refs[-1]), ('/s/A', {'at_revision_history_index': n}, refs[-1])):
    if not light(ctx, open_dsm(store, d, **kw), e, 'independent', f'{names}: reopened {d} {kw} after an update of the parent', where, depth=2):
      return
  m.set_read_only()
  before = store.key()
  if refused(lambda: do_update(m, nxt)) is None or store.key() != before:
    ctx.violation('read-only', f'{names}: an update after set_read_only() was not refused', where)
  # The directory is hermetic.
  new_process()
  mv = moved(pristine, '/s/A', '/t/u/M')
  x = open_dsm(mv, '/t/u/M')
  if not light(ctx, x, refs[-1], 'moved', f'{names}: after moving the directory', where):
    return
  do_update(x, nxt)
  if not light(ctx, x, apply_ref(refs[-1], nxt), 'moved', f'{names}: updated after moving the directory', where):
    return
  ctx.traces += 1
  ctx.outcome((n, len(dirs), len(store.files)))


def s06_long(ctx, n):
  """A long history: every revision stays reachable, in order."""
  kd = ENV['kd']
  store, m, ref = start()
  refs = [ref]
  for i in range(n):
    u = ('', f'a{i % 3}', kd.item(i if i % 5 else f's{i}'))
    do_update(m, u)
    refs.append(apply_ref(refs[-1], u))
  for k in range(n + 1):
    new_process()
    o = open_dsm(store, at_revision_history_index=k)
    ctx.states += 1
    if not light(ctx, o, refs[k], 'long', f'{n} updates, opened at revision {k}', {'n': n, 'k': k}, depth=1):
      return
  new_process()
  light(ctx, open_dsm(store), refs[-1], 'long', f'{n} updates, reopened', {'n': n}, depth=1)
  new_process()
  b = open_dsm(store).branch(revision_history_index=n // 2)
  light(ctx, b, refs[n // 2], 'long', f'{n} updates, branch at {n // 2}', {'n': n}, depth=1)


def run_s06(ctx):
  setup()
  ENV['U'] = {k: v for k, v in updates().items() if k in HIST}
  jobs = []
  for n in range(0, 4 if ctx.quick else 5):
    jobs += [(s, None) for s in seqs(ENV['U'], n)]
  jobs.sort(key=lambda j: core.digest(j))
  jobs = [jobs[i::128] for i in range(128)]
  jobs += [[(None, n)] for n in ((12, 105) if ctx.quick else (12, 105, 160))]
  core.parallel(ctx, lambda c, js: [s06_long(c, n) if s is None else s06_job(c, s) for s, n in js], jobs)
  ctx.note(max_updates=3 if ctx.quick else 4)
  ctx.sample([list(j[0]) for j in jobs[0][:4]])
  ctx.assumptions = ["kd API modelled by mc/minikd, validated on the repository's storage tests"]


# -- S07: crashes and faults ------------------------------------------------------
def s07_world(prefix, U):
  """(store, fs, manager, refs) after the fault-free prefix."""
  ENV['minikd'].reset_ids()
  new_process()
  memfs.Uuids.counter = 0
  store = memfs.Store(dirs={'/s'})
  fs = ENV['Fs'](store)
  m = ENV['dsm'].DataSliceManager.create_new('/s/A', fs=fs)
  refs = [m.get_data_slice()]
  for i, n in enumerate(prefix):
    u = U[n](refs[-1])
    do_update(m, u, description=f'r{i}')
    refs.append(apply_ref(refs[-1], u))
  return store, fs, m, refs


def s07_job(ctx, job):
  prefix, op, order, nested = job
  memfs.LazyPool.order = order
  kd = ENV['kd']
  U = ENV['U']
  D = ENV['dsm'].DataSliceManager
  where0 = {'history': [*prefix, op], 'order': order}
  extra = ('', 'z', kd.item(77))

  def prepare():
    if op == 'new':
      ENV['minikd'].reset_ids()
      new_process()
      store = memfs.Store(dirs={'/s'})
      return store, ENV['Fs'](store), None, [None]
    store, fs, m, refs = s07_world(prefix, U)
    fs.arm()
    if op in U:
      upd[:] = [U[op](refs[-1])]
    return store, fs, m, refs

  upd = []

  def perform(fs, m, refs):
    if op == 'new':
      return D.create_new('/s/A', fs=fs)
    if op == 'branch':
      return m.branch(revision_history_index=len(refs) // 2)
    if op == 'branch-dir':
      return m.branch('/s/B')
    do_update(m, upd[0], description='last')
    return m

  store, fs, m, refs = prepare()
  r = perform(fs, m, refs)
  steps = list(fs.log)
  ctx.states += 1
  if op == 'new':
    target, allowed = '/s/A', [None]
    after = r.get_data_slice()
  elif op in ('branch', 'branch-dir'):
    target, allowed = r.get_persistence_directory(), [None]
    after = refs[len(refs) // 2] if op == 'branch' else refs[-1]
  else:
    target, allowed = '/s/A', [refs[-1]]
    after = apply_ref(refs[-1], upd[0])

  def found(st, d):
    new_process()
    try:
      return open_dsm(st, d), None
    except Exception as e:  # pylint: disable=broad-except
      return None, f'{type(e).__name__}: {e}'

  def state_of(st, d, options):
    """The index of the option that a fresh process finds in d, or a text."""
    x, err = found(st, d)
    if x is None:
      return (options.index(None), None) if None in options else (f'cannot be opened ({err})', None)
    why = []
    for i, o in enumerate(options):
      if o is not None:
        w = same(x, o)
        if w is None:
          return i, x
        why.append(w)
    return '; '.join(why)[:1500], x

  om = state_of(store.copy(), target, [after])
  if om[0] != 0:
    ctx.violation('durability', f'{where0}: after {op} returned, a fresh process finds in {target}: {om[0]}', where0)
    return

  def others(st, what):
    if target == '/s/A':
      return
    s, _ = state_of(st, '/s/A', [refs[-1]])
    if s != 0:
      ctx.violation('crash-parent', f'{where0}, {what}: the parent now shows: {s}', where0)

  for k, (name, path) in enumerate(steps):
    kinds = ['crash', 'fail']
    if name == 'write':
      kinds += ['crash-torn', 'fail-torn']
    if name in ('rename', 'write', 'open_w', 'make_dirs', 'remove'):
      kinds += ['fail-after']
    for kind in kinds:
      store, fs, m, refs = prepare()
      fs.arm(k, kind)
      what = f'{kind} at step {k} ({name} {path}) of {op}'
      ctx.transitions += 1
      raised = None
      got = None
      try:
        got = perform(fs, m, refs)
      except (memfs.Crash, Exception) as e:  # pylint: disable=broad-except
        raised = e
      if not fs.faulted:
        raise core.HarnessError(f'fault not reached: {where0} {what}')
      options = [*allowed, after]
      if raised is None:
        # The failure was tolerated, so the operation must have happened.
        d = got.get_persistence_directory()
        fs.arm()
        for x in (got, found(store.copy(), d)[0]):
          w = 'nothing' if x is None else same(x, after)
          if w is not None:
            ctx.violation('tolerated', f'{where0}, {what}, which reported success: {w}', where0)
        others(store.copy(), what)
        continue
      if kind == 'fail' and allowed[0] is not None:
        options = allowed
      elif kind == 'fail-torn' and allowed[0] is not None:
        options = allowed
      s, x = state_of(store.copy(), target, options)
      if not isinstance(s, int):
        ctx.violation('crash' if kind.startswith('crash') else 'failed',
                      f'{where0} ({order}), {what}: a fresh process finds in {target}: {s}', where0)
        continue
      others(store.copy(), what)
      ctx.outcome((op, kind, s))
      cur = options[s]
      # A fresh process goes on.
      st = store.copy()
      new_process()
      if cur is not None:
        x = open_dsm(st, target)
        do_update(x, extra)
        e = apply_ref(cur, extra)
        for y in (x, found(st, target)[0]):
          w = same(y, e)
          if w is not None:
            ctx.violation('recovery', f'{where0}, {what}, then an update by a fresh process: {w}', where0)
            break
        w = same(open_dsm(st, target, at_revision_history_index=len(x.get_revision_history()) - 2), cur)
        if w is not None:
          ctx.violation('recovery', f'{where0}, {what}, then an update by a fresh process; the previous revision: {w}', where0)
        if nested and kind in ('crash', 'crash-torn'):
          probe = store.copy()
          new_process()
          f2 = ENV['Fs'](probe)
          m2 = D.create_from_dir(target, fs=f2)
          f2.arm()
          do_update(m2, extra)
          for k2 in range(len(f2.log)):
            s3 = store.copy()
            new_process()
            f3 = ENV['Fs'](s3)
            m3 = D.create_from_dir(target, fs=f3)
            f3.arm(k2, 'crash-torn' if f2.log[k2][0] == 'write' else 'crash')
            try:
              do_update(m3, extra)
            except (memfs.Crash, Exception):  # pylint: disable=broad-except
              pass
            ctx.transitions += 1
            w, _ = state_of(s3, target, [cur, e])
            if not isinstance(w, int):
              ctx.violation('second-crash', f'{where0}, {what}, then an update that crashed at step {k2}: {w}', where0)
      elif op == 'branch':
        # The name it had taken stays unusable at worst; branching still works.
        p = open_dsm(st)
        b = p.branch(revision_history_index=len(refs) // 2)
        w = same(b, after) or same(found(st, b.get_persistence_directory())[0], after)
        if w is not None:
          ctx.violation('recovery', f'{where0}, {what}, then another branch: {w}', where0)
      if kind.startswith('crash'):
        continue
      # The living manager.
      memfs.drain_all()
      fs.arm()
      if m is None:
        continue
      for again in (False, True):
        w = same(m, refs[-1])
        if w is not None:
          ctx.violation('failed-live', f'{where0}, {what}{" (cache dropped)" if again else ""}: the live manager: {w}', where0)
          break
        new_process()
      if kind == 'fail-after' or m is None:
        # It may be unable to go on, but it cannot lose what is committed.
        try:
          do_update(m, extra)
          now = [apply_ref(refs[-1], extra)]
          if s == len(options) - 1 and target == '/s/A':
            now = []  # the committed update would be lost
        except Exception:  # pylint: disable=broad-except
          now = [cur] if target == '/s/A' else [refs[-1]]
        w = state_of(store.copy(), '/s/A', now) if now else ('a committed update was overwritten', None)
        if not isinstance(w[0], int):
          ctx.violation('retry', f'{where0}, {what}, then another update by the same manager: {w[0]}', where0)
        continue
      if op in ('branch', 'branch-dir'):
        if op == 'branch':
          b = perform(fs, m, refs)
          w = same(b, after) or same(found(store.copy(), b.get_persistence_directory())[0], after)
          if w is not None:
            ctx.violation('retry', f'{where0}, {what}, then the same branch again: {w}', where0)
        continue
      # nothing was committed: the same call can be repeated, in memory and on disk
      try:
        perform(fs, m, refs)
      except Exception as ex:  # pylint: disable=broad-except
        ctx.violation('retry', f'{where0}, {what}: repeating the call raises {type(ex).__name__}: {ex}', where0)
        continue
      for y in (m, found(store.copy(), target)[0]):
        w = same(y, after)
        if w is not None:
          ctx.violation('retry', f'{where0}, {what}, then the same call again: {w}', where0)
          break
  ctx.traces += 1


def run_s07(ctx):
  setup()
  ENV['U'] = updates()
  jobs = [((), 'new', 'fifo', False)]
  pre = [(), ('x=ent',), ('q=list',), ('q=list', 'q.t='), ('q=list', 'alias=q0')]
  ups = {'x=int', 'x=ent', 'x.a=5', 'q=list', 'q.t=', 'alias.t=', 'q.d=lists', 'm=dict', 'tree'}
  if not ctx.quick:
    pre += [p for p in seqs({k: v for k, v in ENV['U'].items() if k in HIST}, 2) if p not in pre]
    ups = set(ENV['U'])
  for p in pre:
    if p:
      jobs += [(p, 'branch', 'fifo', False), (p, 'branch-dir', 'lifo', False)]
    for s in seqs_from(p, ups):
      for order in ('fifo', 'lifo') if ctx.quick is False else ('fifo',):
        jobs.append((p, s, order, len(p) <= 1 and s in ('x=int', 'q.t=')))
  jobs.append((('x=int',) * 9, 'x=int', 'fifo', False))
  core.parallel(ctx, s07_job, jobs)
  ctx.note(histories=len(jobs))
  ctx.sample([[*j[0], j[1]] for j in jobs[:5]])
  ctx.assumptions = [
      'rename without overwrite is atomic and writes reach the store in program order',
      "kd API modelled by mc/minikd, validated on the repository's storage tests"]


def seqs_from(prefix, ups):
  U = ENV['U']
  ref = ENV['kd'].new()
  for n in prefix:
    ref = apply_ref(ref, U[n](ref))
  out = []
  for n in sorted(ups):
    u = U[n](ref)
    if u is None:
      continue
    try:
      if well_typed(apply_ref(ref, u)):
        out.append(n)
    except ValueError:
      pass
  return out


# -- S08: concurrent processes -----------------------------------------------------
def s08_scenarios():
  kd = ENV['kd']
  ux = ('', 'x', kd.item(1))
  uy = ('', 'y', kd.item('s'))
  ux2 = ('', 'x', kd.item('other'))
  uz = ('', 'z', kd.item(3))
  W = lambda *us, pre=True: ('writer', pre, us)
  return [
      ('two writers', [W(ux), W(uy)]),
      ('two writers, same attribute', [W(ux), W(ux2)]),
      ('writers open late', [W(ux, pre=False), W(uy, pre=False)]),
      ('writer twice vs writer', [W(ux, uz), W(uy, pre=False)]),
      ('writer and reader', [W(ux, ux2), ('reader',)]),
      ('writer and read-only copy', [W(ux), ('copy',)]),
      ('writer and brancher', [W(ux), ('brancher', None, -1)]),
      ('two branchers', [('brancher', None, 0), ('brancher', None, -1)]),
      ('two branchers, one directory', [('brancher', '/s/B', 0), ('brancher', '/s/B', -1)]),
      ('two creators', [('creator',), ('creator',)]),
  ]


def s08_job(ctx, job):
  i, bound, shard = job
  name, procs = s08_scenarios()[i]
  memfs.LazyPool.order = 'fifo'
  D, Fs = ENV['dsm'].DataSliceManager, ENV['Fs']
  kd = ENV['kd']

  # Interleavings matter at every operation (reads of whole files excepted in
  # the quick tier: they find the same bytes once the file has its name).
  def visible(op, path):
    return not ctx.quick or op != 'open_r'

  def make():
    ENV['minikd'].reset_ids()
    new_process()
    memfs.Uuids.counter = 0
    memfs.Uuids.collide = 0
    store = memfs.Store(dirs={'/s'})
    refs = []
    if name != 'two creators':
      m = D.create_new('/s/A', fs=Fs(store))
      refs.append(m.get_data_slice())
      u = ('', 'w', kd.item('w'))
      do_update(m, u)
      refs.append(apply_ref(refs[-1], u))
      if 'branchers' in name:
        memfs.Uuids.collide = 4
    bodies, logs = [], []
    for p in procs:
      log = []
      logs.append(log)
      fs = Fs(store, schedule=visible)
      if p[0] == 'writer':
        m0 = D.create_from_dir('/s/A', fs=Fs(store)) if p[1] else None
        if m0 is not None:
          fs.schedule = None
          m0 = D.create_from_dir('/s/A', fs=fs)
          fs.schedule = visible

        def body(p=p, fs=fs, log=log, m=m0):
          if m is None:
            m = D.create_from_dir('/s/A', fs=fs)
          log.append(('m', m, fs, len(m.get_revision_history())))
          for u in p[2]:
            try:
              do_update(m, u, description=f'{u[1]}={u[2]._v}')
            except Exception as e:  # pylint: disable=broad-except
              log.append(('fail', u, e))
              return
            log.append(('ok', u))
      elif p[0] == 'reader':

        def body(fs=fs, log=log):
          for _ in range(2):
            m = D.create_from_dir('/s/A', fs=fs)
            log.append(('saw', m, fs))
      elif p[0] == 'copy':
        fs.schedule = None
        m0 = D.create_from_dir('/s/A', fs=fs)
        fs.schedule = visible

        def body(fs=fs, log=log, m=m0):
          log.append(('saw', m.get_readonly_copy(), fs))
      elif p[0] == 'brancher':
        fs.schedule = None
        m0 = D.create_from_dir('/s/A', fs=fs)
        fs.schedule = visible

        def body(p=p, fs=fs, log=log, m=m0):
          try:
            b = m.branch(p[1], revision_history_index=p[2])
          except Exception as e:  # pylint: disable=broad-except
            log.append(('fail', None, e))
            return
          log.append(('branch', b, fs, p[2]))
      else:
        def body(fs=fs, log=log):
          try:
            m = D.create_new('/s/A', fs=fs)
          except Exception as e:  # pylint: disable=broad-except
            log.append(('fail', None, e))
            return
          log.append(('created', m, fs))
      bodies.append(body)
    return bodies, (store, logs, refs)

  def check(run, env):
    store, logs, refs = env
    ctx.transitions += 1
    where = {'scenario': name, 'choices': run.choices}

    def bad(key, text):
      ctx.violation(key, f'{name} (schedule {run.choices}): {text}', where)

    if run.deadlock:
      bad('deadlock', 'deadlock')
      return
    for i, r in enumerate(run.results):
      if r[0] == 'exc':
        bad('raise', f'{procs[i]} raised {type(r[1]).__name__}: {r[1]}')
        return
    for l in logs:
      for e in l:
        if e[0] != 'ok' and e[0] != 'fail':
          e[2].schedule = None
    new_process()
    if name == 'two creators':
      made = [e[1] for l in logs for e in l if e[0] == 'created']
      if len(made) > 1:
        bad('creators', 'both create_new calls on one directory succeeded')
      elif made:
        w = same(open_dsm(store), made[0].get_data_slice())
        if w:
          bad('creators', f'the created directory shows {w}')
      ctx.outcome((name, len(made)))
      return
    # the committed history: base, then the successful updates in some order
    try:
      m = open_dsm(store)
    except Exception as e:  # pylint: disable=broad-except
      bad('final', f'the directory cannot be opened: {type(e).__name__}: {e}')
      return
    oks = [e[1] for l in logs for e in l if e[0] == 'ok']
    by = {f'{u[1]}={u[2]._v}': u for u in oks}
    hist = [r.description for r in m.get_revision_history()][2:]
    if sorted(hist) != sorted(by):
      bad('lost-update', f'the updates {sorted(by)} succeeded, but the history has {hist}')
      return
    states = list(refs)
    for h in hist:
      states.append(apply_ref(states[-1], by[h]))
    w = same(m, states[-1])
    if w:
      bad('final', f'the successful updates are {hist}, but a fresh process finds {w}')
      return
    for k in range(len(states) - 1):
      w = same(open_dsm(store, at_revision_history_index=k), states[k])
      if w:
        bad('final', f'revision {k} of {hist}: {w}')
        return
    for i, l in enumerate(logs):
      mine = [f'{e[1][1]}={e[1][2]._v}' for e in l if e[0] == 'ok']
      if [h for h in hist if h in mine] != mine:
        bad('order', f'{mine} by one writer appear as {hist}')
      seen = 0
      for e in l:
        if e[0] == 'saw':
          n = len(e[1].get_revision_history())
          if n > len(states) or n < seen:
            bad('reader', f'a reader saw {n} revisions, after {seen}; there are {len(states)}')
            return
          seen = n
          w = same(e[1], states[n - 1])
          if w:
            bad('reader', f'a reader of revision {n - 1}: {w}')
            return
        if e[0] == 'branch':
          b = e[1]
          want = refs[e[3]]
          for y in (b, None):
            if y is None:
              new_process()
              y = open_dsm(store, b.get_persistence_directory())
            w = same(y, want)
            if w:
              bad('branch', f'the branch {b.get_persistence_directory()} at {e[3]}: {w}')
              return
        if e[0] == 'm':
          # The writer, winner or loser, shows what it read plus what it wrote.
          k = e[3]
          want = states[k - 1]
          for u in [x[1] for x in l if x[0] == 'ok']:
            want = apply_ref(want, u)
          w = same(e[1], want)
          if w:
            bad('writer', f'a writer that opened revision {k - 1} and wrote {mine} shows {w}')
            return
    bs = [e[1].get_persistence_directory() for l in logs for e in l if e[0] == 'branch']
    if len(set(bs)) != len(bs):
      bad('branch-dir', f'two branches share a directory: {bs}')
    fails = [(i, e) for i, l in enumerate(logs) for e in l if e[0] == 'fail']
    for i, e in fails:
      if procs[i][0] == 'brancher' and procs[i][1] is None:
        bad('branch', f'a branch into its own directory failed: {type(e[2]).__name__}: {e[2]}')
    if not fails and len([p for p in procs if p[0] == 'writer']) > 1 and all(p[1] for p in procs):
      bad('both', 'two writers with the same start both succeeded')
    # A loser cannot write on top of what it has not seen; others go on.
    late = ('', 'late', kd.item(1))
    for i, e in fails:
      if procs[i][0] != 'writer':
        continue
      x = logs[i][0][1]
      behind = len(x.get_revision_history()) < len(states)
      st = store.copy()
      x_fs = logs[i][0][2]
      keep, x_fs.store = x_fs.store, st
      done = refused(lambda: do_update(x, late)) is None
      x_fs.store = keep
      if done and behind:
        bad('loser', 'a writer that had not seen a committed update could write over it')
      new_process()
      w = same(open_dsm(st), apply_ref(states[-1], late) if done else states[-1])
      if w:
        bad('loser', f'after another try by the loser: {w}')
      new_process()
    y = open_dsm(store)
    do_update(y, late)
    new_process()
    w = same(open_dsm(store), apply_ref(states[-1], late))
    if w:
      bad('retry', f'after an update by a fresh process: {w}')
    ctx.outcome((name, tuple(hist), len(fails), len(bs)))

  runs, points, complete = sched.explore(
      make, check, bound=bound, in_scope=lambda f: False, granularity='locks', shard=shard)
  ctx.states += points
  ctx.traces += runs
  if shard[0] == 0:
    ctx.sample(f'{name}: bound {bound}, 1/{shard[1]} of the schedules: {runs}')


def run_s08(ctx):
  setup()
  only = os.environ.get('S08_ONLY')
  jobs = []
  for i, (name, procs) in enumerate(s08_scenarios()):
    if only and only not in name:
      continue
    writers = all(p[0] in ('writer', 'copy') for p in procs) and len(procs[0][2]) == 1
    bound = (2 if writers else 1) if ctx.quick else (3 if writers else 2)
    jobs += [(i, bound, (k, 16)) for k in range(16)]
  core.parallel(ctx, s08_job, jobs)
  ctx.note(scenarios=len(jobs) // 16, bounds='preemptions at file-system operations: 2 for two writers, 1 otherwise' if ctx.quick else '3 for two writers, 2 otherwise')
  ctx.assumptions = [
      'every file-system operation is atomic; rename without overwrite fails if the target exists (documented requirement)',
  ]
