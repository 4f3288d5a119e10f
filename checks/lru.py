"""C01: the size-tracking LRU cache against a reference model."""

import itertools
import os

from mc import canon as canon_lib
from mc import core
from mc import sched

SIZES = {'a': 1, 'b': 2, 'c': 2, 'z': 0}
LIMITS = (0, 1, 2, 3, 4)
# Values: two per key, one of them falsy/None (a legal value).
VALUES = {k: (f'{k}0', f'{k}1') for k in SIZES}
VALUES['z'] = (None, 'z1')
VALUES['c'] = (0, 'c1')
MISS = 'MISS'
NEW = ('new',)


class Model:
  """A boring list of (key, value, size), oldest first."""

  def __init__(self, limit):
    self.limit = limit
    self.items = []

  def copy(self):
    m = Model(self.limit)
    m.items = list(self.items)
    return m

  def total(self):
    return sum(i[2] for i in self.items)

  def shrink(self, n):
    while self.items and self.total() > n:
      self.items.pop(0)

  def apply(self, op):
    name, *args = op
    if name == 'get':
      (k,) = args
      for i, it in enumerate(self.items):
        if it[0] == k:
          self.items.append(self.items.pop(i))
          return it[1]
      return MISS
    if name == 'set':
      k, vi, size = args
      v = VALUES[k][vi]
      r = self.apply(('get', k))
      if r is not MISS:
        return r
      if size > self.limit:
        return v
      self.shrink(self.limit - size)
      self.items.append((k, v, size))
      return v
    if name == 'remove':
      (k,) = args
      self.items = [i for i in self.items if i[0] != k]
      return None
    if name == 'total':
      return self.total()
    if name == 'max':
      return self.limit
    if name == 'setmax':
      (n,) = args
      if n < 0:
        return 'ValueError'
      self.shrink(n)
      self.limit = n
      return None
    if name == 'clear':
      self.items = []
      return None
    raise AssertionError(op)

  def key(self):
    return (self.limit, tuple(self.items))


def alphabet():
  ops = []
  for k in SIZES:
    ops.append(('get', k))
    ops.append(('remove', k))
    for vi in (0, 1):
      ops.append(('set', k, vi, SIZES[k]))
  for n in LIMITS + (-1,):
    ops.append(('setmax', n))
  ops.append(('clear',))
  return ops


def make_real(mod, limit):
  return mod.LruSizeTrackingCache(max_total_bytes_of_entries_in_cache=limit)


def apply_real(mod, cache, op):
  name, *args = op
  try:
    if name == 'get':
      return cache.get(args[0], MISS)
    if name == 'set':
      k, vi, size = args
      return cache.set(k, VALUES[k][vi],
                       mod.CacheEntryMetadata(num_bytes_estimate=size))
    if name == 'remove':
      return cache.remove(args[0])
    if name == 'total':
      return cache.get_total_bytes_of_entries_in_cache()
    if name == 'max':
      return cache.get_max_total_bytes_of_entries_in_cache()
    if name == 'setmax':
      return cache.set_max_total_bytes_of_entries_in_cache(args[0])
    if name == 'clear':
      return cache.clear()
  except ValueError:
    return 'ValueError'
  raise AssertionError(op)


def sequential(ctx, mod):
  ops = alphabet()
  # A default of None for a miss, and a negative construction limit.
  c = make_real(mod, 4)
  if c.get('a') is not None:
    ctx.violation('default-none', 'get of an absent key without default is not None')
  try:
    make_real(mod, -1)
    ctx.violation('neg-limit', 'a negative limit is accepted by the constructor')
  except ValueError:
    pass
  seen = {}
  max_depth = 0
  for limit in LIMITS:
    m0 = Model(limit)
    start = (m0.key(), canon_lib.canon(make_real(mod, limit)))
    frontier = [((), m0)]
    seen[start] = 1
    while frontier:
      nxt = []
      for hist, model in frontier:
        for op in ops:
          m = model.copy()
          want = m.apply(op)
          real = make_real(mod, limit)
          for h in hist:
            apply_real(mod, real, h)
          got = apply_real(mod, real, op)
          ctx.transitions += 1
          tot = real.get_total_bytes_of_entries_in_cache()
          mx = real.get_max_total_bytes_of_entries_in_cache()
          bad = None
          if got != want or type(got) is not type(want):
            bad = f'returned {got!r}, expected {want!r}'
          elif tot != m.total():
            bad = f'reports {tot} total bytes, expected {m.total()}'
          elif mx != m.limit:
            bad = f'reports limit {mx}, expected {m.limit}'
          elif tot > mx:
            bad = f'total {tot} exceeds limit {mx}'
          if bad:
            ctx.violation(f'seq:{op[0]}', f'limit={limit} history={list(hist)}: {op} {bad}',
                          {'limit': limit, 'ops': list(hist) + [op]})
            continue
          k = (m.key(), canon_lib.canon(real))
          if k not in seen:
            seen[k] = 1
            nxt.append((hist + (op,), m))
            ctx.sample({'limit': limit, 'history': [list(o) for o in hist + (op,)],
                        'state': repr(m.key())}, 3)
      frontier = nxt
      max_depth = max(max_depth, len(frontier[0][0]) if frontier else 0)
      if len(seen) > 60000:
        ctx.exhaustive = False
        break
  ctx.states += len(seen)
  ctx.note(sequential_states=len(seen), sequential_max_depth=max_depth)


def linearizable(init_limit, init_ops, hist, epilogue):
  """hist: list of (tid, op, result, inv, resp); epilogue: [(op, result)]."""
  n = len(hist)

  def rec(model, done):
    if len(done) == n:
      m = model.copy()
      return all(m.apply(op) == r for op, r in epilogue)
    for i in range(n):
      if i in done:
        continue
      # i may go next if no undone op responded before i was invoked.
      if any(j not in done and j != i and hist[j][4] < hist[i][3] for j in range(n)):
        continue
      m = model.copy()
      if m.apply(hist[i][1]) == hist[i][2] and rec(m, done | {i}):
        return True
    return False

  m = Model(init_limit)
  for op in init_ops:
    m.apply(op)
  return rec(m, frozenset())


INITS = [
    (3, (('set', 'a', 0, 1), ('set', 'b', 0, 2))),
    (4, (('set', 'b', 0, 2), ('set', 'c', 0, 2))),
    (2, ()),
]

CONC_OPS = [
    ('get', 'a'), ('get', 'b'), ('remove', 'a'), ('remove', 'b'),
    ('set', 'a', 1, 1), ('set', 'b', 1, 2), ('set', 'c', 0, 2), ('set', 'c', 1, 2),
    ('setmax', 2), ('setmax', 1), ('setmax', 4), ('clear',), ('total',),
]


def concurrent(ctx, mod):
  jobs = []
  for limit, init in INITS:
    for p, q in itertools.combinations_with_replacement(CONC_OPS, 2):
      jobs.append((limit, init, ((p,), (q,)), 1, 'opcode'))
  multi = [
      ((('set', 'a', 0, 1), ('get', 'b')), (('set', 'b', 1, 2), ('remove', 'a'))),
      ((('set', 'c', 0, 2), ('total',)), (('setmax', 2), ('setmax', 4))),
      ((('remove', 'b'), ('set', 'b', 1, 2)), (('get', 'b'), ('clear',))),
  ]
  for limit, init in INITS[:2]:
    for pr in multi:
      jobs.append((limit, init, pr, 1 if ctx.quick else 2, 'line'))
  triples = [
      ((('set', 'c', 0, 2),), (('set', 'c', 1, 2),), (('remove', 'c'),)),
      ((('set', 'a', 1, 1),), (('setmax', 1),), (('set', 'b', 1, 2),)),
  ]
  for pr in triples:
    jobs.append((4, (), pr, 2, 'line' if not ctx.quick else 'locks'))
  if not ctx.quick:
    for limit, init in INITS:
      for p, q in itertools.combinations_with_replacement(CONC_OPS, 2):
        jobs.append((limit, init, ((p,), (q,)), 2, 'line'))
  core.parallel(ctx, lambda sub, job: concurrent_job(sub, mod, *job), jobs)


def concurrent_job(ctx, mod, limit, init, progs, bound, gran):
  scope = lambda f: f.startswith(os.path.join(core.REPO, 'py', 'koladata'))

  def make():
    with sched.patched_locks():
      cache = make_real(mod, limit)
    for op in init:
      apply_real(mod, cache, op)
    env = {'clock': 0, 'hist': [], 'cache': cache}

    def body(tid, ops):
      def run():
        for op in ops:
          env['clock'] += 1
          inv = env['clock']
          r = apply_real(mod, cache, op)
          env['clock'] += 1
          env['hist'].append((tid, op, r, inv, env['clock']))
      return run

    return [body(t, p) for t, p in enumerate(progs)], env

  def check(run, env):
    what = None
    if run.deadlock:
      what = 'deadlock'
    for t, r in enumerate(run.results):
      if r and r[0] == 'exc':
        what = f'thread {t} raised {r[1]!r}'
    if what is None:
      cache = env['cache']
      epi = []
      tot = cache.get_total_bytes_of_entries_in_cache()
      for op in [('total',), ('max',)]:
        epi.append((op, apply_real(mod, cache, op)))
      if tot > cache.get_max_total_bytes_of_entries_in_cache():
        what = 'total exceeds the limit'
      for op in [('setmax', max(tot - 1, 0))] + [('get', k) for k in SIZES] + [('total',), ('clear',), ('total',)]:
        epi.append((op, apply_real(mod, cache, op)))
      if what is None and not linearizable(limit, init, env['hist'], epi):
        what = f'history {env["hist"]} with final observations {epi} has no sequential explanation'
      ctx.outcome((progs, tuple(h[2] for h in sorted(env['hist'], key=lambda h: (h[0], h[3]))), tuple(e[1] for e in epi)))
    if what:
      ctx.violation(f'conc:{progs[0][0][0]}/{progs[1][0][0]}',
                    f'limit={limit} init={init} threads={progs}: {what}',
                    {'limit': limit, 'init': init, 'progs': progs, 'schedule': run.choices})

  r, p, complete = sched.explore(make, check, bound=bound, in_scope=scope, granularity=gran)
  ctx.exhaustive &= complete
  ctx.add('schedules', r)
  ctx.add('schedule_points', p)
  ctx.states += p
  ctx.transitions += p
  ctx.traces += r


def run_c01(ctx):
  core.setup_imports()
  from koladata.ext.storage import lru_size_tracking_cache as mod
  ctx.assumptions = [
      'CPython with the GIL: pre-emption happens between bytecodes',
      'entry sizes are a function of the key, as the API requires',
  ]
  sequential(ctx, mod)
  ctx.note(sequential_transitions=ctx.transitions)
  concurrent(ctx, mod)
