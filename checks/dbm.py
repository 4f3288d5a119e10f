"""S01-S04: DataBagManager on a modelled file system.

The real data_bag_manager.py runs on mc/minikd (a model of the kd API, validated
by the repository's own storage tests) and mc/memfs (a file system whose every
operation can crash, fail or be interleaved).
"""

import itertools
import weakref

from mc import core
from mc import memfs
from mc import sched

ENV = {}


def setup():
  if ENV:
    return ENV
  core.setup_imports()
  from mc import minikd
  memfs.install_pools()
  kd = minikd.install()
  memfs.install_uuids()
  from google.protobuf import any_pb2
  from google.protobuf import wrappers_pb2
  from koladata.ext.storage import data_bag_manager as dbm
  from koladata.ext.storage import global_cache_lib
  ENV.update(kd=kd, minikd=minikd, dbm=dbm, cachelib=global_cache_lib,
             any_pb2=any_pb2, wrappers=wrappers_pb2, Fs=memfs.make_fs_class())
  ent = kd.new(x=kd.item(0))
  ENV['ent'] = ent
  for i in range(12):
    bag_for(i)
  return ENV


_BAGS = {}


def bag_for(val):
  """A bag with the shared attribute x=val and a private attribute."""
  if val not in _BAGS:
    kd, ent = ENV['kd'], ENV['ent']
    _BAGS[val] = kd.attrs(ent, x=kd.item(val), **{f'own{val}': kd.item(val)})
  return _BAGS[val]


def bag_value(bag, names):
  """What is readable in a bag: the shared attr and all private ones."""
  ent = ENV['ent'].no_bag().with_bag(bag)
  out = []
  for a in names:
    v = bag._attr(ent._v, a)
    out.append(None if v is ENV['minikd']._NOTHING else (v.val if hasattr(v, 'val') else repr(v)))
  return tuple(out)


def any_md(tok):
  if tok is None:
    return None
  a = ENV['any_pb2'].Any()
  a.Pack(ENV['wrappers'].StringValue(value=tok))
  return a


def read_md(a):
  if a is None:
    return None
  w = ENV['wrappers'].StringValue()
  if not a.Unpack(w):
    return 'BAD'
  return w.value


# model of a manager: tuple of (name, deps, val, md) in the order of addition
def closure(model, names, dependents=False):
  deps = {n: set(d) for n, d, _, _ in model}
  todo = set(names)
  if dependents:
    changed = True
    while changed:
      changed = False
      for n, d in deps.items():
        if n not in todo and d & todo:
          todo.add(n)
          changed = True
  out = set()
  while todo:
    n = todo.pop()
    if n in out:
      continue
    out.add(n)
    todo |= deps[n]
  return out


def sub_model(model, names):
  return tuple(e for e in model if e[0] in names)


def merged(model):
  """Values readable in the union of the model's bags, in order."""
  x = None
  owns = set()
  for _, _, v, _ in model:
    x = v
    owns.add(v)
  return (x, frozenset(owns))


VALS = range(12)


def read_bag(bag):
  t = bag_value(bag, ['x'] + [f'own{v}' for v in VALS])
  return (t[0], frozenset(v for v, o in zip(VALS, t[1:]) if o == v))


def expected(model):
  names = frozenset(e[0] for e in model)
  return dict(
      names=names,
      order=tuple(e[0] for e in model),
      md={e[0]: e[3] for e in model},
      closure={e[0]: frozenset(closure(model, {e[0]})) for e in model},
      content={e[0]: (e[2], frozenset([e[2]])) for e in model},
      all=merged(model),
  )


def observe(m):
  names = frozenset(m.get_available_bag_names())
  loaded = {n: m.load_bags([n]) for n in names}
  return dict(
      names=names,
      order=tuple(m.canonical_topological_sorting(names)),
      md={n: read_md(a) for n, a in m.get_custom_metadata(names).items()},
      closure={n: frozenset(l) for n, l in loaded.items()},
      content={n: read_bag(l[n]) for n, l in loaded.items()},
      all=read_bag(m.get_minimal_bag(names)),
  )


def new_process():
  """Forgets everything that does not survive a process."""
  ENV['cachelib'].get_global_cache().clear()
  memfs.LazyPool.instances.clear()


def to_add(entries):
  return [
      ENV['dbm'].BagToAdd(n, bag_for(v), tuple(d), custom_metadata=any_md(md))
      for n, d, v, md in entries
  ]


_FS = weakref.WeakKeyDictionary()


def fs_of(m):
  """The file-system view the manager was created with."""
  return _FS[m]


def created(m, fs):
  _FS[m] = fs
  return m


def open_dir(store, d, **kw):
  fs = ENV['Fs'](store, **kw)
  return created(ENV['dbm'].DataBagManager.create_from_dir(d, fs=fs), fs)


def new_dir(store, d, **kw):
  fs = ENV['Fs'](store, **kw)
  return created(ENV['dbm'].DataBagManager.create_new(d, fs=fs), fs)


def reopened(store, d):
  """The state a fresh process finds: a model-like observation or 'none'."""
  new_process()
  try:
    m = open_dir(store, d)
  except Exception as e:
    return None, f'{type(e).__name__}: {e}'
  return m, None


# -- S01 ---------------------------------------------------------------------
class World:
  """The processes' managers, their models, and the store."""

  def __init__(self):
    self.store = memfs.Store(dirs={'/s'})
    self.model = {}      # dir -> model
    self.man = {}        # dir -> live manager
    self.n = 0           # fresh names/values
    self.fs = ENV['Fs'](self.store)


def op_targets(op, w):
  """(the directory the op writes, the states it may be found in after a crash
  before completion, the state after)."""
  kind = op
  if kind == 'new':
    return '/s/A', [None], ()
  if kind in ('add1', 'add2', 'add0'):
    before = w.model['/s/A']
    return '/s/A', [before], before + tuple(new_entries(w, kind, before))
  if kind == 'addB':
    before = w.model['/s/B']
    return '/s/B', [before], before + tuple(new_entries(w, 'add1', before))
  if kind == 'branch':
    return '/s/B', [None], sub_model(w.model['/s/A'], closure(w.model['/s/A'], last_names(w)))
  if kind == 'extract':
    return '/s/B', [None, ()], sub_model(w.model['/s/A'], closure(w.model['/s/A'], last_names(w)))
  raise AssertionError(op)


def last_names(w):
  return {w.model['/s/A'][-1][0]} if w.model['/s/A'] else set()


def new_entries(w, kind, before):
  k = w.n
  prev = (before[-1][0],) if before else ()
  # names sort opposite to the order of addition
  name = lambda i: f'{chr(ord("z") - i)}bag'
  if kind == 'add0':
    return []
  if kind == 'add1':
    return [(name(k), prev, k, f'md{k}' if k % 2 else None)]
  return [(name(k), prev, k, None), (name(k + 1), (name(k),), k + 1, f'md{k+1}')]


def enabled(op, w):
  if op == 'new':
    return '/s/A' not in w.model
  if '/s/A' not in w.model:
    return False
  if op in ('branch', 'extract'):
    return '/s/B' not in w.model
  if op == 'addB':
    return '/s/B' in w.model
  return True


def perform(op, w):
  """Runs op in the (single) process of the world."""
  fs = w.fs
  D = ENV['dbm'].DataBagManager
  if op == 'new':
    w.man['/s/A'] = D.create_new('/s/A', fs=fs)
    return
  if op in ('add0', 'add1', 'add2', 'addB'):
    d = '/s/B' if op == 'addB' else '/s/A'
    m = w.man[d]
    m.add_bags(to_add(new_entries(w, 'add1' if op == 'addB' else op, w.model[d])))
    return
  m = w.man['/s/A']
  f = m.create_branch if op == 'branch' else m.extract_bags
  f(sorted(last_names(w)), output_dir='/s/B', fs=fs)
  w.man['/s/B'] = D.create_from_dir('/s/B', fs=fs)


def commit(op, w, target, after):
  w.model[target] = after
  if op in ('add1', 'addB'):
    w.n += 1
  elif op == 'add2':
    w.n += 2


def run_history(hist):
  w = World()
  new_process()
  for op in hist:
    if op == 'reopen':
      new_process()
      w.fs = ENV['Fs'](w.store)
      for d in w.man:
        w.man[d] = ENV['dbm'].DataBagManager.create_from_dir(d, fs=w.fs)
      continue
    target, _, after = op_targets(op, w)
    perform(op, w)
    commit(op, w, target, after)
  return w


def matches(state, obs_m):
  """obs_m: (manager|None, err)."""
  m, err = obs_m
  if state is None:
    return m is None
  if m is None:
    return False
  try:
    return observe(m) == expected(state)
  except (Exception, memfs.Crash) as e:
    return False


def describe(obs_m):
  m, err = obs_m
  if m is None:
    return f'cannot be opened ({err})'
  try:
    o = observe(m)
    return f'order={o["order"]} content={o["content"]} md={o["md"]} closure={o["closure"]}'
  except Exception as e:
    return f'names={sorted(m.get_available_bag_names())}, reading raises {type(e).__name__}: {e}'


OPS = ('add1', 'add2', 'branch', 'extract', 'addB', 'reopen')


def histories(n):
  """All enabled histories (starting with new) of at most n further ops."""
  out = []

  def rec(h, has_b, k):
    out.append(h)
    if k == 0:
      return
    for op in OPS:
      if op in ('branch', 'extract') and has_b:
        continue
      if op == 'addB' and not has_b:
        continue
      if op == 'reopen' and h[-1] == 'reopen':
        continue
      rec(h + (op,), has_b or op in ('branch', 'extract'), k - 1)

  rec(('new',), False, n)
  return out


def s01_job(ctx, job):
  hist, order, nested = job
  memfs.LazyPool.order = order
  prefix, op = hist[:-1], hist[-1]
  if op == 'reopen':
    return
  # A fault-free run: the op's steps, and durability right at return.
  w = run_history(prefix)
  target, befores, after = op_targets(op, w)
  fs = w.fs.arm()
  perform(op, w)
  steps = list(fs.log)
  ctx.states += 1
  durable = w.store.copy()      # tasks nobody waited for never happen
  om = reopened(durable, target)
  if not matches(after, om):
    ctx.violation('durability', f'history {hist} ({order} worker order): after {op} returned, a fresh process finds {target} '
                  f'{describe(om)}; expected {after}', {'history': hist, 'order': order})
  w_others = {d: m for d, m in w.model.items() if d != target}

  def check_after(label, store, allowed, what):
    ctx.transitions += 1
    om = reopened(store, target)
    if not any(matches(s, om) for s in allowed):
      ctx.violation(label, f'history {hist} ({order} worker order), {what}: a fresh process finds {target} {describe(om)}; '
                    f'allowed: {allowed}', {'history': hist, 'order': order, 'what': what})
      return None
    for d, model in w_others.items():
      if not matches(model, reopened(store, d)):
        ctx.violation(label + '-other', f'history {hist}, {what}: directory {d} changed: {describe(reopened(store, d))}; expected {model}',
                      {'history': hist, 'what': what})
    ctx.outcome((op, label, om[0] is None, [s == after for s in allowed]))
    return om[0]

  def recover(store, what):
    """A fresh process can go on working with whatever state it found."""
    m, err = reopened(store, target)
    if m is None:
      return
    cur = next((s for s in befores + [after] if s is not None and matches(s, (m, None))), None)
    if cur is None:
      return
    ent = [('rbag', (cur[-1][0],) if cur else (), 9, 'rmd')]
    if nested:
      probe = store.copy()
      m2, _ = reopened(probe, target)
      f2 = fs_of(m2).arm()
      m2.add_bags(to_add(ent))
      for k in range(len(f2.log)):
        for kind in ('crash', 'crash-torn'):
          s2 = store.copy()
          m3, _ = reopened(s2, target)
          fs_of(m3).arm(k, kind)
          try:
            m3.add_bags(to_add(ent))
          except (memfs.Crash, Exception):
            pass
          ctx.transitions += 1
          om = reopened(s2, target)
          if not any(matches(s, om) for s in (cur, cur + tuple(ent))):
            ctx.violation('second-crash', f'history {hist}, {what}, then an add that crashed at step {k}: {describe(om)}',
                          {'history': hist, 'what': what, 'k': k})
    m.add_bags(to_add(ent))
    if not matches(cur + tuple(ent), (m, None)):
      ctx.violation('recovery', f'history {hist}, {what}: adding after recovery gives {describe((m, None))}', {'history': hist, 'what': what})
    om = reopened(store, target)
    if not matches(cur + tuple(ent), om):
      ctx.violation('recovery', f'history {hist}, {what}: adding after recovery then reopening gives {describe(om)}', {'history': hist, 'what': what})

  for k, (name, path) in enumerate(steps):
    kinds = ['crash', 'fail']
    if name == 'write':
      kinds += ['crash-torn', 'fail-torn']
    if name in ('rename', 'write', 'open_w', 'make_dirs', 'remove'):
      kinds += ['fail-after']
    for kind in kinds:
      w = run_history(prefix)
      live = dict(w.man)
      fs = w.fs.arm(k, kind)
      what = f'{kind} at step {k} ({name} {path}) of {op}'
      try:
        perform(op, w)
        raised = None
      except memfs.Crash as e:
        raised = e
      except Exception as e:
        raised = e
      if not fs.faulted:
        raise core.HarnessError(f'fault not reached: {hist} {what}')
      if kind.startswith('crash'):
        check_after('crash', w.store.copy(), befores + [after], what)
        recover(w.store.copy(), what)
        continue
      # The op failed (or tolerated the failure) in a living process.
      if raised is None:
        store = w.store.copy()
        check_after('tolerated', store, [after], what + ', which reported success')
        continue
      allowed = befores + ([after] if kind == 'fail-after' else [])
      if op in ('branch', 'extract') or (op == 'new' and k == len(steps) - 1):
        # A failure after the commit point may leave the new directory behind.
        allowed = befores + [after]
      check_after('failed', w.store.copy(), allowed, what)
      # the living managers still show the state before
      memfs.drain_all()
      fs.arm()
      for d, m in live.items():
        o = (m, None)
        if not matches(w.model[d], o):
          ctx.violation('failed-live', f'history {hist}, {what}: the live manager of {d} now shows {describe(o)}; expected {w.model[d]}',
                        {'history': hist, 'what': what})
        new_process()
        if not matches(w.model[d], o):
          ctx.violation('failed-live', f'history {hist}, {what}: the live manager of {d} (cache dropped) now shows {describe(o)}; expected {w.model[d]}',
                        {'history': hist, 'what': what})
      if kind != 'fail-after' and op.startswith('add'):
        # nothing was committed: the same call can be repeated
        try:
          perform(op, w)
        except Exception as e:
          ctx.violation('retry', f'history {hist}, {what}: repeating the call raises {type(e).__name__}: {e}', {'history': hist, 'what': what})
          continue
        if not matches(after, (w.man[target], None)):
          ctx.violation('retry', f'history {hist}, {what}: after repeating the call the manager shows {describe((w.man[target], None))}; expected {after}',
                        {'history': hist, 'what': what})
        om = reopened(w.store.copy(), target)
        if not matches(after, om):
          ctx.violation('retry', f'history {hist}, {what}: after repeating the call a fresh process finds {describe(om)}; expected {after}',
                        {'history': hist, 'what': what})
  ctx.traces += 1


def s01_long(ctx, n):
  """Many updates in one directory: each is durable, none shadows a later one."""
  new_process()
  store = memfs.Store(dirs={'/s'})
  m = new_dir(store, '/s/A')
  model = ()
  for i in range(n):
    e = (f'b{i}', (model[-1][0],) if model and i % 3 else (), i % 12, f'md{i}' if i % 2 else None)
    if i % 4 == 1:
      m, err = reopened(store, '/s/A')
      if m is None:
        ctx.violation('long', f'after {i} updates the directory cannot be opened: {err}', {'n': i})
        return
    if i % 5 == 2:
      # a crashed attempt first
      st = store
      mm, _ = reopened(st, '/s/A')
      fs_of(mm).arm(4, 'crash-torn')
      try:
        mm.add_bags(to_add([e]))
      except memfs.Crash:
        pass
    m.add_bags(to_add([e]))
    model += (e,)
    om = reopened(store, '/s/A')
    want = expected(model)
    ctx.transitions += 1
    if om[0] is None or om[0].canonical_topological_sorting(om[0].get_available_bag_names()) != list(want['order']):
      ctx.violation('long', f'after {i + 1} updates a fresh process finds {describe(om)}', {'n': i})
      return
  if not matches(model, reopened(store, '/s/A')):
    ctx.violation('long', f'after {n} updates the content is wrong', {'n': n})


def s01_any(ctx, job):
  if isinstance(job, int):
    s01_long(ctx, job)
  else:
    s01_job(ctx, job)


def run_s01(ctx):
  setup()
  n = 4 if ctx.quick else 5
  jobs = []
  for h in histories(n):
    jobs.append((h, 'fifo', len(h) <= (2 if ctx.quick else 3)))
    if any(o in ('add2', 'extract') for o in h[-1:]):
      jobs.append((h, 'lifo', False))
  jobs.sort(key=lambda j: -len(j[0]))
  core.parallel(ctx, s01_any, [104 if ctx.quick else 1010] + jobs)
  ctx.note(histories=len(jobs), max_history=n + 1)
  ctx.sample([list(j[0]) for j in jobs[:3]])
  ctx.assumptions = [
      'rename without overwrite is atomic and writes reach the store in program order (the code documents the first; the fs interface has no sync)',
      'kd API modelled by mc/minikd, validated on the repository\'s storage tests']


# -- S02 ---------------------------------------------------------------------
def s02_scenarios(quick):
  base = (('m0', (), 0, None),)
  A = [('a', ('m0',), 1, 'ma')]
  A2 = [('a1', (), 2, None), ('a2', ('a1', 'm0'), 3, None)]
  B = [('b', ('m0',), 4, None)]
  same = [('a', ('m0',), 5, 'mb')]
  W = lambda *adds, pre=True: ('writer', pre, adds)
  R = lambda: ('reader',)
  sc = [
      ('two writers', base, [W(A), W(B)]),
      ('two writers, same name', base, [W(A), W(same)]),
      ('writers open late', base, [W(A, pre=False), W(B, pre=False)]),
      ('one opens late', base, [W(A2), W(B, pre=False)]),
      ('writer twice vs writer', base, [W(A, A2), W(B)]),
      ('writer and reader', base, [W(A2, B), R()]),
      ('two creators', None, [('creator',), ('creator',)]),
      ('branch while writing', base, [W(A, B), ('brancher', 'branch')]),
      ('extract while writing', base, [W(A), ('brancher', 'extract')]),
      ('two branchers, one target', base, [('brancher', 'branch'), ('brancher', 'branch')]),
      ('two writers, one reader', base, [W(A), W(B), R()]),
      ('three writers', base, [W(A), W(B), W(same)]),
  ]
  return sc


def s02_job(ctx, job):
  (name, base, procs), order, bound = job
  memfs.LazyPool.order = order
  D = ENV['dbm'].DataBagManager

  def make():
    new_process()
    store = memfs.Store(dirs={'/s'})
    if base is not None:
      new_dir(store, '/s/A').add_bags(to_add(base))
    # No cache: the processes are separate.
    bodies, logs = [], []
    for p in procs:
      log = []
      logs.append(log)
      fs = ENV['Fs'](store, schedule=True)
      if p[0] == 'writer':
        m0 = None
        if p[1]:
          fs.schedule = False
          m0 = D.create_from_dir('/s/A', fs=fs)
          fs.schedule = True
          m0.bag_cache = None

        def body(p=p, fs=fs, log=log, m=m0):
          if m is None:
            m = D.create_from_dir('/s/A', fs=fs)
            m.bag_cache = None
          log.append(('m', m, fs))
          for entries in p[2]:
            try:
              m.add_bags(to_add(entries))
            except Exception as e:
              log.append(('fail', entries, e))
              return
            log.append(('ok', entries))
      elif p[0] == 'reader':

        def body(fs=fs, log=log):
          for _ in range(2):
            m = D.create_from_dir('/s/A', fs=fs)
            m.bag_cache = None
            log.append(('saw', observe(m)))
      elif p[0] == 'creator':

        def body(fs=fs, log=log):
          try:
            m = D.create_new('/s/A', fs=fs)
          except Exception as e:
            log.append(('fail', (), e))
            return
          log.append(('m', m))
          log.append(('ok', ()))
      else:
        def body(p=p, fs=fs, log=log):
          m = D.create_from_dir('/s/A', fs=fs)
          m.bag_cache = None
          names = m.get_available_bag_names()
          model = m.canonical_topological_sorting(names)
          f = m.create_branch if p[1] == 'branch' else m.extract_bags
          try:
            f(names, output_dir='/s/B', fs=fs)
          except Exception as e:
            log.append(('fail', tuple(model), e))
            return
          log.append(('branched', tuple(model)))
      bodies.append(body)
    return bodies, (store, logs)

  # every state the directory may legally be in: base + some writers' adds
  def models(logs):
    return logs

  def check(run, env):
    store, logs = env
    ctx.transitions += 1
    where = {'scenario': name, 'choices': run.choices, 'order': order}
    if run.deadlock:
      ctx.violation('deadlock', f'{name}: deadlock', where)
    for i, r in enumerate(run.results):
      if r[0] == 'exc':
        ctx.violation('raise', f'{name}: {procs[i]} raised {r[1]!r} (schedule {run.choices})', where)
        return
    oks = [(i, e[1]) for i, l in enumerate(logs) for e in l if e[0] == 'ok']
    if name == 'two creators':
      m, err = reopened(store, '/s/A')
      if len(oks) == 0 or len(oks) > 1 or not matches((), (m, err)):
        ctx.violation('creators', f'two create_new on one directory: {len(oks)} succeeded, state {describe((m, err))}', where)
      return
    # Final state: base, then exactly the successful adds, in an order that
    # respects each writer's own order.
    m, err = reopened(store, '/s/A')
    if m is None:
      ctx.violation('final', f'{name}: the directory cannot be opened: {err}', where)
      return
    got = observe(m)
    entries = {}
    for _, es in oks:
      for e in es:
        if e[0] in entries:
          ctx.violation('dup', f'{name}: two writers both succeeded in adding bag {e[0]!r}', where)
          return
        entries[e[0]] = e
    base_names = {e[0] for e in base}
    want_names = base_names | set(entries)
    if got['names'] != want_names:
      ctx.violation('lost-update', f'{name}: successful adds {sorted(entries)}, but the directory holds {sorted(got["names"])} '
                    f'(schedule {run.choices})', where)
      return
    by = {**{e[0]: e for e in base}, **entries}
    model = tuple(by[n] for n in got['order'])
    if expected(model) != got:
      ctx.violation('final', f'{name}: final state {got}; expected {expected(model)}', where)
    for i, l in enumerate(logs):
      mine = [e[0] for _, es in [(x[0], x[1]) for x in l if x[0] == 'ok'] for e in es]
      pos = [got['order'].index(n) for n in mine]
      if pos != sorted(pos):
        ctx.violation('order', f'{name}: writer order {mine} not kept: {got["order"]}', where)
    # A reader, or a branch, saw a prefix of the final sequence, at a commit.
    commits = {tuple(e[0] for e in base)}
    seq = list(got['order'])
    bounds = []
    for _, es in oks:
      bounds.append(max(seq.index(e[0]) for e in es) + 1)
    commits |= {tuple(seq[:b]) for b in bounds}
    for i, l in enumerate(logs):
      for e in l:
        if e[0] == 'saw':
          o = e[1]
          if o['order'] not in commits or o != expected(tuple(by[n] for n in o['order'])):
            ctx.violation('reader', f'{name}: a reader saw {o["order"]} {o["content"]}; committed states are {sorted(commits)} (schedule {run.choices})', where)
        if e[0] == 'branched':
          if e[1] not in commits:
            ctx.violation('reader', f'{name}: a branch of {e[1]}; committed states are {sorted(commits)}', where)
          mb = reopened(store, '/s/B')
          if not matches(tuple(by[n] for n in e[1]), mb):
            ctx.violation('branch', f'{name}: the branch of {e[1]} shows {describe(mb)}', where)
    saw = [e[1]['order'] for l in logs for e in l if e[0] == 'saw']
    if len(saw) == 2 and len(saw[1]) < len(saw[0]):
      ctx.violation('reader-back', f'{name}: a reader saw {saw[0]} and then {saw[1]}', where)
    fails = [(i, e) for i, l in enumerate(logs) for e in l if e[0] == 'fail']
    for i, e in fails:
      if procs[i][0] != 'writer':
        continue
      # The loser keeps its old state, stays unable to write, and a fresh
      # instance can write.
      m = logs[i][0][1]
      logs[i][0][2].schedule = False
      o = observe(m)
      if o['order'] not in commits:
        ctx.violation('loser', f'{name}: after its failed write the manager shows {o["order"]}', where)
      before = store.key()
      try:
        m.add_bags(to_add([('late', (), 8, None)]))
      except Exception:
        # it never damages what is committed
        if not matches(model, reopened(store, '/s/A')):
          ctx.violation('loser', f'{name}: a second failed write changed the directory: {describe(reopened(store, "/s/A"))}', where)
      else:
        ctx.violation('loser', f'{name}: a manager whose write was refused could write later without seeing the other update', where)
    if fails and any(procs[i][0] == 'writer' for i, _ in fails):
      m, _ = reopened(store, '/s/A')
      m.add_bags(to_add([('again', ('m0',), 8, None)]))
      want = model + (('again', ('m0',), 8, None),)
      if not matches(want, reopened(store, '/s/A')):
        ctx.violation('retry', f'{name}: retry by a fresh instance gives {describe(reopened(store, "/s/A"))}', where)
    # Progress: somebody wins.
    if any(p[0] == 'writer' for p in procs) and not oks:
      ctx.violation('nobody', f'{name}: no writer succeeded', where)
    ctx.outcome((name, got['order'], len(oks), tuple(sorted(i for i, _ in fails))))

  runs, points, complete = sched.explore(
      make, check, bound=bound, in_scope=lambda f: False, granularity='locks')
  ctx.states += points
  ctx.traces += runs
  ctx.extra[f'schedules[{name}/{order}]'] = runs


def run_s02(ctx):
  setup()
  jobs = []
  for sc in s02_scenarios(ctx.quick):
    three = len(sc[2]) > 2
    bound = (2 if three else 3) if ctx.quick else (3 if three else 4)
    jobs.append((sc, 'fifo', bound))
    if sc[0] in ('one opens late',):
      jobs.append((sc, 'lifo', bound))
  core.parallel(ctx, s02_job, jobs)
  ctx.note(bounds='preemptions at file-system operations: ' + str({j[0][0]: j[2] for j in jobs}))
  ctx.assumptions = ['every file-system operation is atomic; rename without overwrite fails if the target exists (documented requirement)']


# -- S03 ---------------------------------------------------------------------
def groupings(n):
  for cut in itertools.product([0, 1], repeat=n - 1):
    g, cur = [], [0]
    for i, c in enumerate(cut, 1):
      if c:
        g.append(cur)
        cur = []
      cur.append(i)
    g.append(cur)
    yield g


def s03_job(ctx, job):
  n, dag, group, full = job
  D, Fs = ENV['dbm'].DataBagManager, ENV['Fs']
  new_process()
  memfs.LazyPool.order = 'lifo' if (dag + len(group)) % 2 else 'fifo'
  names = [f'{chr(ord("p") - (i * 5) % 7)}n' for i in range(n)]
  pairs = [(i, j) for i in range(n) for j in range(i)]
  deps = {i: [] for i in range(n)}
  for b, (i, j) in enumerate(pairs):
    if dag >> b & 1:
      deps[i].append(names[j])
  model = tuple((names[i], tuple(deps[i]), i, f'md{i}' if i % 2 == 0 else None) for i in range(n))
  where = {'names': names, 'deps': deps, 'groups': group}
  store = memfs.Store(dirs={'/s'})
  m = new_dir(store, '/s/A')
  done = ()
  for g in group:
    es = [model[i] for i in g]
    # Refused requests leave no trace, and do not spoil the manager.
    bad = [
        [es[0], es[0]],
        [('q', ('unknown',), 9, None)],
        [('q', ('q',), 9, None)],
        [('q', ('r',), 9, None), ('r', (), 10, None)],
        [('q', (), 9, None), ('r', ('unknown',), 10, None)],
    ]
    if done:
      bad += [[(done[0][0], (), 9, None)], [('q', (), 9, None), (done[-1][0], (), 9, None)]]
    for b in bad:
      before = store.key()
      try:
        m.add_bags(to_add(b))
      except Exception:
        pass
      else:
        ctx.violation('accepted', f'add_bags({b}) after {done} was accepted', where)
      memfs.drain_all()
      if store.key() != before:
        ctx.violation('refused-trace', f'a refused add_bags({b}) changed the directory', where)
      ctx.transitions += 1
    m.add_bags(to_add(es))
    done += tuple(es)
    if not matches(done, (m, None)):
      ctx.violation('state', f'after adding {done}: {describe((m, None))}', where)
      return
  fresh, err = reopened(store, '/s/A')
  if not matches(model, (fresh, err)):
    ctx.violation('state', f'reopened: {describe((fresh, err))}; expected {model}', where)
    return
  # The directory is hermetic: it can be moved.
  moved = memfs.Store({p.replace('/s/A/', '/t/M/'): c for p, c in store.files.items()}, {'/t', '/t/M'})
  if not matches(model, reopened(moved, '/t/M')):
    ctx.violation('moved', f'{model}: after moving the directory: {describe(reopened(moved, "/t/M"))}', where)
  subsets = [s for k in range(n + 1) for s in itertools.combinations(names, k)]
  out_no = 0
  for who, man in (('live', m), ('fresh', fresh)):
    for s in subsets:
      for wd in (False, True):
        ctx.transitions += 1
        c = closure(model, s, wd)
        arg = [list, tuple, set, frozenset][len(s) % 4](s)
        if who == 'fresh':
          new_process()
        got = man.load_bags(arg, with_all_dependents=wd)
        if set(got) != c or any(read_bag(b) != (dict((e[0], e[2]) for e in model)[k], frozenset([dict((e[0], e[2]) for e in model)[k]])) for k, b in got.items()):
          ctx.violation('load', f'{model}: load_bags({s}, with_all_dependents={wd}) returned {sorted(got)} (or wrong data); expected {sorted(c)}', where)
        mb = read_bag(man.get_minimal_bag(arg, with_all_dependents=wd))
        if mb != merged(sub_model(model, c)):
          ctx.violation('minimal', f'{model}: get_minimal_bag({s}, {wd}) has {mb}; expected {merged(sub_model(model, c))}', where)
        if who == 'fresh' or not full:
          continue
        for f in ('branch', 'extract'):
          out_no += 1
          out = f'/s/out{out_no}'
          st = store.copy()
          fs_of(man).store = st
          (man.create_branch if f == 'branch' else man.extract_bags)(
              arg, with_all_dependents=wd, output_dir=out, fs=Fs(st))
          sub = sub_model(model, c)
          om = reopened(st, out)
          if not matches(sub, om):
            ctx.violation(f, f'{model}: {f} of {s} (with_all_dependents={wd}) shows {describe(om)}; expected {sub}', where)
            continue
          # Independence in both directions, and branches of the result.
          o2 = om[0]
          o2.add_bags(to_add([('zz', (sub[-1][0],) if sub else (), 9, 'zmd')]))
          man2 = open_dir(st, '/s/A')
          man2.add_bags(to_add([('yy', (), 10, None)]))
          sub2 = sub + (('zz', (sub[-1][0],) if sub else (), 9, 'zmd'),)
          if not matches(sub2, reopened(st, out)) or not matches(model + (('yy', (), 10, None),), reopened(st, '/s/A')):
            ctx.violation(f + '-independent', f'{model}: after adding to the {f} of {s} and to the original: '
                          f'{describe(reopened(st, out))} / {describe(reopened(st, "/s/A"))}', where)
          o3, _ = reopened(st, out)
          if f == 'branch' or len(s) == n:
            for g in ('branch', 'extract'):
              (o3.create_branch if g == 'branch' else o3.extract_bags)(
                  [e[0] for e in sub2], output_dir=out + g, fs=Fs(st))
              if not matches(sub2, reopened(st, out + g)):
                ctx.violation(f + '-' + g, f'{model}: {g} of the {f} of {s} shows {describe(reopened(st, out + g))}; expected {sub2}', where)
          if f == 'extract':
            # An extract does not depend on the original directory.
            st2 = memfs.Store({p: c_ for p, c_ in st.files.items() if not p.startswith('/s/A/')}, st.dirs)
            if not matches(sub2, reopened(st2, out)):
              ctx.violation('extract-standalone', f'{model}: the extract of {s} is not readable without the original: {describe(reopened(st2, out))}', where)
  man = m
  fs_of(man).store = store
  # Unknown names and unusable targets are refused without a trace.
  for f in ('load_bags', 'get_minimal_bag', 'create_branch', 'extract_bags', 'get_custom_metadata'):
    for arg in (['nope'], [names[0], 'nope']):
      before = store.key()
      kw = dict(output_dir='/s/refused', fs=Fs(store)) if f in ('create_branch', 'extract_bags') else {}
      try:
        getattr(man, f)(arg, **kw)
      except Exception:
        pass
      else:
        ctx.violation('unknown', f'{f}({arg}) with an unknown name was accepted', where)
      if store.key() != before:
        ctx.violation('unknown-trace', f'{f}({arg}) with an unknown name changed the file system', where)
      ctx.transitions += 1
  for f in ('create_branch', 'extract_bags'):
    for st0 in (dict(files={'/s/out/x': b'1'}, dirs={'/s', '/s/out'}),):
      st = memfs.Store({**store.files, **st0['files']}, store.dirs | st0['dirs'])
      before = st.key()
      fs_of(man).store = st
      try:
        getattr(man, f)(names, output_dir='/s/out', fs=Fs(st))
      except Exception:
        pass
      else:
        ctx.violation('nonempty', f'{f} into a non-empty directory was accepted', where)
      if st.key() != before:
        ctx.violation('nonempty', f'{f} into a non-empty directory changed it', where)
      st = memfs.Store(store.files, store.dirs | {'/s/out'})
      fs_of(man).store = st
      getattr(man, f)(names, output_dir='/s/out', fs=Fs(st))
      if not matches(model, reopened(st, '/s/out')):
        ctx.violation('empty-dir', f'{f} into an existing empty directory gives {describe(reopened(st, "/s/out"))}', where)
      # ... and onto an existing manager
      try:
        getattr(man, f)(names, output_dir='/s/A', fs=Fs(st))
      except Exception:
        pass
      else:
        ctx.violation('nonempty', f'{f} into the manager\'s own directory was accepted', where)
      if not matches(model, reopened(st, '/s/A')):
        ctx.violation('nonempty', f'{f} into the own directory damaged it', where)
  for mk in (lambda: D.create_new('/s/A', fs=Fs(store)),):
    before = store.key()
    try:
      mk()
    except Exception:
      pass
    else:
      ctx.violation('nonempty', 'create_new on a populated directory was accepted', where)
    if store.key() != before:
      ctx.violation('nonempty', 'create_new on a populated directory changed it', where)
  ctx.states += 1
  ctx.traces += 1
  ctx.outcome((dag, len(group)))


def run_s03(ctx):
  setup()
  jobs = []
  for n in (1, 2, 3):
    for dag in range(1 << (n * (n - 1) // 2)):
      for g in groupings(n):
        jobs.append((n, dag, g, True))
  for dag in range(64):
    for g in ([[[0, 1, 2, 3]]] if ctx.quick else list(groupings(4))):
      jobs.append((4, dag, g, True))
  if not ctx.quick:
    for dag in range(1 << 10):
      jobs.append((5, dag, [[0, 1], [2, 3, 4]], False))
  core.parallel(ctx, s03_job, jobs)
  ctx.note(dags=len(jobs), max_bags=4 if ctx.quick else 5)
  ctx.sample([{'n': j[0], 'dag': j[1], 'groups': j[2]} for j in jobs[5:8]])


# -- S04 ---------------------------------------------------------------------
S04_OPS = ('addA', 'addB', 'same', 'failA', 'lose', 'load', 'loadB', 'clear', 'tiny', 'zero',
           'big', 'reopen', 'branch', 'swap')


def s04_run(ctx, ops, size):
  D, Fs = ENV['dbm'].DataBagManager, ENV['Fs']
  cache = ENV['cachelib'].get_global_cache()
  cache.clear()
  cache.set_max_total_bytes_of_entries_in_cache(size)
  store = memfs.Store(dirs={'/s'})
  man = {d: new_dir(store, d) for d in ('/s/A', '/s/B')}
  model = {'/s/A': (), '/s/B': ()}
  cnt = {'/s/A': 0, '/s/B': 0}
  nb = 0
  for pos, op in enumerate(ops):
    if op in ('addA', 'addB', 'same'):
      for d in {'addA': ['/s/A'], 'addB': ['/s/B'], 'same': ['/s/A', '/s/B']}[op]:
        i = cnt[d]
        cnt[d] += 1
        e = (f'bag{i}', (), (i if d == '/s/A' else 6 + i), None)
        man[d].add_bags(to_add([e]))
        model[d] += (e,)
    elif op == 'failA':
      # a write that fails at the commit; then the same name with other data
      # (the number of the commit step is found on a copy)
      i = cnt['/s/A']
      e = (f'bag{i}', (), 5, None)
      m2 = open_dir(store.copy(), '/s/A')
      f2 = fs_of(m2).arm()
      m2.add_bags(to_add([e]))
      f = fs_of(man['/s/A']).arm(len(f2.log) - 1, 'fail')
      try:
        man['/s/A'].add_bags(to_add([e]))
      except OSError:
        pass
      f.arm()
    elif op == 'lose':
      # another instance of A adds the next bag; ours is then stale, reopen it
      i = cnt['/s/A']
      other = open_dir(store, '/s/A')
      other.add_bags(to_add([(f'bag{i}', (), i, None)]))
      try:
        man['/s/A'].add_bags(to_add([(f'bag{i}', (), 11, None)]))
      except Exception:
        pass
      cnt['/s/A'] += 1
      model['/s/A'] += ((f'bag{i}', (), i, None),)
      man['/s/A'] = open_dir(store, '/s/A')
    elif op in ('load', 'loadB'):
      d = '/s/A' if op == 'load' else '/s/B'
      man[d].load_bags(man[d].get_available_bag_names())
    elif op == 'clear':
      cache.clear()
    elif op == 'tiny':
      cache.set_max_total_bytes_of_entries_in_cache(90)
    elif op == 'zero':
      cache.set_max_total_bytes_of_entries_in_cache(0)
    elif op == 'big':
      cache.set_max_total_bytes_of_entries_in_cache(10**6)
    elif op == 'reopen':
      for d in man:
        man[d] = open_dir(store, d)
    elif op == 'branch':
      nb += 1
      d = f'/s/br{nb}'
      man['/s/A'].create_branch([e[0] for e in model['/s/A']], output_dir=d, fs=Fs(store))
      man[d] = open_dir(store, d)
      model[d] = model['/s/A']
    elif op == 'swap':
      # the two directories exchange places (documented as supported for
      # distinct bag names; bag file names are unique anyway)
      fs = Fs(store)
      if len(man) > 2:
        continue
      fs.rename('/s/A', '/s/T')
      fs.rename('/s/B', '/s/A')
      fs.rename('/s/T', '/s/B')
      model['/s/A'], model['/s/B'] = model['/s/B'], model['/s/A']
      cnt['/s/A'], cnt['/s/B'] = cnt['/s/B'], cnt['/s/A']
      man = {d: open_dir(store, d) for d in ('/s/A', '/s/B')}
      # keep values apart: further bags continue with fresh numbers
    ctx.transitions += 1
  # With the cache in whatever state it is, and again without it.
  for d in man:
    for _ in range(2):
      if not matches(model[d], (man[d], None)):
        ctx.violation('cached', f'cache size {size}, operations {ops}: {d} shows {describe((man[d], None))}; expected {model[d]}',
                      {'ops': ops, 'size': size})
    man[d].bag_cache = None
    if not matches(model[d], (man[d], None)):
      ctx.violation('uncached', f'operations {ops}: {d} shows {describe((man[d], None))} without a cache; expected {model[d]}', {'ops': ops})
  tot = cache.get_total_bytes_of_entries_in_cache() if hasattr(cache, 'get_total_bytes_of_entries_in_cache') else None
  ctx.traces += 1
  ctx.outcome((len(model['/s/A']), len(model['/s/B']), nb))


def s04_job(ctx, job):
  prefix, depth, sizes = job
  for k in range(depth + 1):
    for rest in itertools.product(S04_OPS, repeat=k):
      ops = prefix + rest
      if sum(o in ('addA', 'addB', 'same', 'lose') for o in ops) > 5:
        continue
      for size in sizes:
        s04_run(ctx, ops, size)
        ctx.states += 1


def run_s04(ctx):
  setup()
  depth = 4 if ctx.quick else 5
  sizes = (90, 10**6)
  jobs = [((a, b), depth - 2, sizes) for a in S04_OPS for b in S04_OPS]
  jobs += [((a,), 0, sizes) for a in S04_OPS]
  core.parallel(ctx, s04_job, jobs)
  ctx.note(max_ops=depth, cache_sizes=list(sizes))
  ctx.sample([list(j[0]) for j in jobs[:3]])
