"""T01/T02: tracing mode scoping and module dispatch."""

import asyncio
import contextvars
import itertools
import os
import pickle
import sys
import threading
import types

from mc import core
from mc import sched


class Boom(Exception):
  pass


ACTIONS = ('T', 'F', 'D', 'x', 'e', 'th', 'cp', 'gen', 'cc')
# T/F/D: enter enable_tracing(True/False/<default>); x: leave innermost;
# e: leave innermost by an exception; th: observe in a fresh thread;
# cp: observe (and enter) in a copied context; gen: advance a generator that
# is itself inside a tracing block; cc: reuse as decorator.


def check_scoping_program(ctx, tm, mod, prog):
  """Runs one program of actions and compares with a stack model."""
  stack = []
  model = [False]
  log = []

  def observe(want, where):
    got = tm.is_tracing_enabled()
    if got is not want:
      log.append(f'{where}: is_tracing_enabled()={got!r}, expected {want!r}')
    got_attr = mod.a
    want_attr = 'tracing-a' if want else 'eager-a'
    if got_attr != want_attr:
      log.append(f'{where}: dispatched to {got_attr}, expected {want_attr}')

  def in_new_context():
    observe(False, 'fresh context')
    with tm.enable_tracing():
      observe(True, 'fresh context inside block')
    observe(False, 'fresh context after block')

  for i, a in enumerate(prog):
    where = f'after {"".join(prog[: i + 1])}'
    if a in 'TFD':
      cm = tm.enable_tracing() if a == 'D' else tm.enable_tracing(a == 'T')
      r = cm.__enter__()
      if r is not None:
        log.append(f'{where}: the block yields {r!r}')
      stack.append(cm)
      model.append(a != 'F')
    elif a == 'x':
      stack.pop().__exit__(None, None, None)
      model.pop()
    elif a == 'e':
      cm = stack.pop()
      model.pop()
      try:
        raise Boom()
      except Boom as ex:
        if cm.__exit__(Boom, ex, ex.__traceback__):
          log.append(f'{where}: the exception was swallowed')
    elif a == 'th':
      t = threading.Thread(target=in_new_context)
      t.start()
      t.join()
    elif a == 'cp':
      cur = model[-1]

      def body():
        observe(cur, where + ' (copied context)')
        # Left open while the outer context runs: must not leak out.
        cm = tm.enable_tracing(not cur)
        cm.__enter__()
        observe(not cur, where + ' (copied context, toggled)')
        return cm

      copied = contextvars.copy_context()
      cm = copied.run(body)
      observe(cur, where + ' (while the copied context is inside a block)')
      copied.run(observe, not cur, where + ' (copied context, resumed)')
      copied.run(cm.__exit__, None, None, None)
      copied.run(observe, cur, where + ' (copied context, left)')
    elif a == 'cc':
      cur = model[-1]

      @tm.enable_tracing(not cur)
      def deco(fail):
        observe(not cur, where + ' (decorated)')
        if fail:
          raise Boom()

      deco(False)
      observe(cur, where + ' (after decorated)')
      try:
        deco(True)
      except Boom:
        pass
      deco(False)
    elif a == 'gen':
      cur = model[-1]

      def gen():
        with tm.enable_tracing(not cur):
          observe(not cur, where + ' (generator)')
          yield 1
      g = gen()
      next(g)
      g.close()
    observe(model[-1], where)
  while stack:
    stack.pop().__exit__(None, None, None)
    model.pop()
  observe(False, 'at the end')
  return log


def valid(prog):
  d = 0
  for a in prog:
    if a in 'TFD':
      d += 1
    elif a in ('x', 'e'):
      d -= 1
      if d < 0:
        return False
  return True


def make_module(tm):
  mod = types.ModuleType('vmod')
  mod.__all__ = ['a', 'b', 'c']
  cfg = {}
  mod.a = tm.configure_tracing(cfg, 'eager-a', 'tracing-a')
  mod.b = tm.same_when_tracing(cfg, ['b'])
  mod.c = tm.eager_only(cfg, {'c': 1})
  return tm.prepare_module_for_tracing(mod, cfg)


def run_t01(ctx):
  core.setup_imports()
  from koladata.expr import tracing_mode as tm
  mod = make_module(tm)
  depth = 5 if ctx.quick else 6
  n = 0
  for length in range(0, depth + 1):
    for prog in itertools.product(ACTIONS, repeat=length):
      if not valid(prog):
        continue
      n += 1
      ctx.transitions += length
      # every program in its own context, so that leaks cannot hide
      log = contextvars.Context().run(check_scoping_program, ctx, tm, mod, prog)
      ctx.outcome(len(log))
      if log:
        ctx.violation('scope', f'program {prog}: {log[0]}', {'program': prog})
  ctx.states += n
  ctx.traces += n
  ctx.note(scoping_programs=n, max_depth=depth)
  ctx.sample({'program': ['T', 'F', 'e', 'th', 'x']})

  # Threads: all interleavings (<=2 preemptions) of 2-3 threads with different modes.
  scope = lambda f: f.startswith(os.path.join(core.REPO, 'py', 'koladata'))
  seen = set()

  def interleave(progs, bound):
    def make():
      env = {'log': []}

      def body(t, prog):
        def obs(want, where):
          sched.point()
          got = tm.is_tracing_enabled()
          attr = mod.a
          if got is not want or attr != ('tracing-a' if want else 'eager-a'):
            env['log'].append(f'thread {t} {where}: got {got}/{attr}, expected {want}')

        def run():
          obs(False, 'start')
          for mode in prog:
            if mode == '!':
              try:
                with tm.enable_tracing(True):
                  obs(True, 'in raising block')
                  raise Boom()
              except Boom:
                pass
              obs(False, 'after raising block')
              continue
            with tm.enable_tracing(mode == 'T'):
              obs(mode == 'T', mode)
              with tm.enable_tracing(mode != 'T'):
                obs(mode != 'T', 'inner')
              obs(mode == 'T', 'after inner')
            obs(False, 'after block')
        return run
      return [body(t, p) for t, p in enumerate(progs)], env

    def check(run, env):
      seen.add(tuple(run.choices))
      if run.deadlock:
        ctx.violation('deadlock', f'{progs}: deadlock', {'schedule': run.choices})
      for t, r in enumerate(run.results):
        if r and r[0] == 'exc':
          ctx.violation('thread-exc', f'{progs}: thread {t} raised {r[1]!r}', {'schedule': run.choices})
      if env['log']:
        ctx.violation('threads', f'{progs}: {env["log"][0]}', {'progs': progs, 'schedule': run.choices})

    return sched.explore(make, check, bound=bound, in_scope=scope, granularity='line')

  total = 0
  for progs in [('T', 'F'), ('T', 'T'), ('TF', 'T'), ('!', 'T'), ('!', 'F')]:
    r, p, _ = interleave(progs, 2)
    total += r
    ctx.states += p
    ctx.transitions += p
  r, p, _ = interleave(('T', 'F', 'T'), 1 if ctx.quick else 2)
  total += r
  ctx.traces += total
  ctx.note(thread_schedules=total)

  # Async tasks: every interleaving of two tasks' await points.
  orders = set(itertools.permutations([0] * 4 + [1] * 4))
  for order in sorted(orders):
    log = []

    class Step:
      def __await__(self):
        yield

    async def task(t, mode):
      def obs(want, where):
        got = tm.is_tracing_enabled()
        if got is not want:
          log.append(f'task {t} {where}: {got} expected {want}')
      obs(False, 'start')
      await Step()
      with tm.enable_tracing(mode):
        obs(mode, 'in')
        await Step()
        obs(mode, 'in2')
        with tm.enable_tracing(not mode):
          await Step()
          obs(not mode, 'inner')
        obs(mode, 'in3')
      obs(False, 'end')

    ctxs = [contextvars.Context(), contextvars.Context()]
    coros = [task(0, True), task(1, False)]
    for t in order:
      try:
        ctxs[t].run(coros[t].send, None)
      except StopIteration:
        pass
    ctx.transitions += 8
    ctx.traces += 1
    if log:
      ctx.violation('tasks', f'order {order}: {log[0]}', {'order': order})
  ctx.note(task_interleavings=len(orders))
  ctx.states += len(orders)


class Weird:
  """Equal to everything, unhashable: registration must go by identity."""
  __hash__ = None

  def __eq__(self, other):
    return True

  def __bool__(self):
    return False


class NeverEqual:

  def __eq__(self, other):
    return False

  def __hash__(self):
    return 7


def fn_eager():
  return 'eager'


def run_t02(ctx):
  core.setup_imports()
  from koladata.expr import tracing_mode as tm
  pool = [1, True, 1.0, [1], [1], 'x', Weird(), Weird(), NeverEqual(), fn_eager,
          None, property(fn_eager), staticmethod(fn_eager)]
  tracings = [0, '', [], False, 'tr', fn_eager, Weird()]
  # 1. configuration conflicts are decided by identity, for every pair/triple.
  regs = [(e, t) for e in range(len(pool)) for t in (0, 1, 'same', 'eager')]

  def register(cfg, e, t):
    if t == 'same':
      return tm.same_when_tracing(cfg, pool[e]), pool[e]
    if t == 'eager':
      return tm.eager_only(cfg, pool[e]), None
    return tm.configure_tracing(cfg, pool[e], tracings[t + 4]), tracings[t + 4]

  n = 0
  for seq in itertools.product(regs, repeat=2):
    cfg = {}
    model = {}  # index by identity
    for e, t in seq:
      n += 1
      want_tr = pool[e] if t == 'same' else None if t == 'eager' else tracings[t + 4]
      key = id(pool[e])
      conflict = key in model and model[key] is not want_tr
      try:
        got, _ = register(cfg, e, t)
        if conflict:
          ctx.violation('conflict', f'conflicting registration {seq} was accepted', {'seq': seq})
        if got is not pool[e]:
          ctx.violation('reg-ret', f'registration of {pool[e]!r} returns {got!r}', {'seq': seq})
        model[key] = want_tr
      except ValueError:
        if not conflict:
          ctx.violation('no-conflict', f'registration {seq} rejected without conflict', {'seq': seq})
    if len(cfg) != len(model):
      ctx.violation('cfg-size', f'{seq}: {len(cfg)} registered objects, expected {len(model)}', {'seq': seq})
  ctx.transitions += n
  ctx.note(registrations=n)

  # 2. dispatch of every assignment of kinds to the names of a module.
  kinds = ['tr0', 'tr1', 'tr2', 'tr3', 'tr4', 'same', 'eager', 'none']
  objs = [[0], 'obj', Weird()]
  cases = 0
  for ks in itertools.product(kinds, repeat=3):
    if ks.count('none') > 1:
      continue
    mod = types.ModuleType('vmod2')
    mod.__doc__ = 'doc'
    names = ['p', 'q', 'r']
    mod.__all__ = names
    cfg = {}
    want = {}
    eagers = [['p'], Weird(), fn_eager]
    for name, k, eager in zip(names, ks, eagers):
      setattr(mod, name, eager)
      if k.startswith('tr'):
        tr = tracings[int(k[2])]
        tm.configure_tracing(cfg, eager, tr)
        want[name] = (eager, tr)
      elif k == 'same':
        tm.same_when_tracing(cfg, eager)
        want[name] = (eager, eager)
      elif k == 'eager':
        tm.eager_only(cfg, eager)
        want[name] = (eager, AttributeError)
      else:
        want[name] = None
    mod.hidden = 'hidden'
    cases += 1
    ctx.transitions += 1
    desc = f'kinds {ks}'
    try:
      d = tm.prepare_module_for_tracing(mod, cfg)
      if 'none' in ks:
        ctx.violation('unconfigured', f'{desc}: a public name without configuration is accepted')
        continue
    except ValueError:
      if 'none' not in ks:
        ctx.violation('prepare', f'{desc}: prepare_module_for_tracing failed')
      continue
    # Later changes of the config dict must not affect the module.
    for key in list(cfg):
      cfg[key] = 'poison'

    def look(name):
      try:
        return getattr(d, name)
      except AttributeError as e:
        return AttributeError

    for trial in (False, True, False):
      with tm.enable_tracing(trial):
        for name in names:
          w = want[name][1 if trial else 0]
          g = look(name)
          ctx.outcome((ks, trial, name, type(g).__name__))
          if g is not w:
            ctx.violation('dispatch', f'{desc}: {name} with tracing={trial} is {g!r}, expected {w!r}',
                          {'kinds': ks, 'tracing': trial, 'name': name})
        if sorted(dir(d)) != sorted(names) or list(d.__all__) != names:
          ctx.violation('dir', f'{desc}: dir/__all__ differ')
        if look('hidden') is not AttributeError or hasattr(d, 'zz'):
          ctx.violation('hidden', f'{desc}: non-public attribute is visible')
        try:
          d.p = 5
          ctx.violation('set', f'{desc}: assignment accepted')
        except AttributeError:
          pass
        fn, args = d.__reduce__()
        if fn(*args) is not mod:
          ctx.violation('reduce', f'{desc}: pickling does not refer to the module')
    if d.__doc__ != 'doc':
      ctx.violation('doc', f'{desc}: doc lost')
    if cases <= 3:
      ctx.sample({'kinds': ks})
  # Two modules sharing a config and a name must stay independent.
  for k1, k2 in itertools.product(['tr4', 'same', 'eager'], repeat=2):
    res = []
    for i, k in enumerate((k1, k2)):
      m = types.ModuleType(f'm{i}')
      m.__all__ = ['p']
      m.p = [i]
      cfg = {}
      if k == 'tr4':
        w = 't%d' % i
        tm.configure_tracing(cfg, m.p, w)
      elif k == 'same':
        tm.same_when_tracing(cfg, m.p)
        w = m.p
      else:
        tm.eager_only(cfg, m.p)
        w = AttributeError
      res.append((tm.prepare_module_for_tracing(m, cfg), m.p, w))
    for trial in (True, False):
      with tm.enable_tracing(trial):
        for d, e, w in res:
          try:
            g = d.p
          except AttributeError:
            g = AttributeError
          cases += 1
          if g is not (w if trial else e):
            ctx.violation('two-modules', f'{k1},{k2} tracing={trial}: {g!r}')
  ctx.states = cases
  ctx.traces = cases
