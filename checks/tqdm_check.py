"""Q01-Q03: tqdm progress reporting."""

import contextvars
import io
import itertools
import os
import sys
import threading

from mc import core
from mc import sched


class Clock:

  def __init__(self):
    self.t = 1000.0

  def __call__(self):
    self.t += 1.0
    return self.t


def load():
  core.setup_imports()
  import tqdm.std as std
  std.tqdm.monitor_interval = 0
  from koladata.ext.tqdm import context, types
  from koladata.ext.tqdm import tqdm as kt
  return std, context, types, kt


class RepErr(Exception):
  pass


def reporter_class(types):
  class R(types.ProgressReporter):

    def __init__(self, config=None, fail=()):
      super().__init__()
      self.states = []
      self.calls = 0
      self.fail = fail
      self.config = config or types.TqdmConfig()

    def _get_config(self):
      return self.config

    def _set_progress_impl(self, state):
      i = self.calls
      self.calls += 1
      self.states.append(state)
      if self.fail == 'all' or (self.fail != () and i in self.fail):
        raise RepErr('reporter failure')

  return R


OPS = [
    ('update', 1), ('update', 3), ('update', 0), ('refresh',), ('desc', 'd1'),
    ('postfix', 'p1'), ('reset', None), ('reset', 7), ('close',),
    ('leave_ctx',), ('other_ctx',), ('set_n', 2),
]


def apply_bar(bar, op):
  name = op[0]
  if name == 'update':
    return bar.update(op[1])
  if name == 'refresh':
    return bar.refresh()
  if name == 'desc':
    return bar.set_description(op[1])
  if name == 'postfix':
    return bar.set_postfix_str(op[1])
  if name == 'reset':
    return bar.reset(op[1]) if op[1] is not None else bar.reset()
  if name == 'close':
    return bar.close()
  if name == 'set_n':
    bar.n = op[1]
    return None
  raise AssertionError(op)


def state_tuple(s):
  return (s.n, s.total, s.initial, s.unit, s.desc or None, s.postfix or None,
          s.is_closed, s.is_displayed)


def run_q01(ctx):
  std, context, types, kt = load()
  R = reporter_class(types)
  ctx.assumptions = ['tqdm.monitor thread disabled; time is a stepping clock']

  # Reference: plain tqdm (drop-in claim), recording what it displays.
  class Ref(std.tqdm):
    def __init__(self, *a, **k):
      self.shown = []
      super().__init__(*a, **k)

    def display(self, *a, **k):
      r = super().display(*a, **k)
      if not self.disable:
        self.shown.append(self.snap(False))
      return r

    def snap(self, closed):
      f = self.format_dict
      disp = (not closed or self.leave) and not self.disable
      return (f['n'], f['total'], f.get('initial') or 0, f.get('unit') or 'it',
              f.get('prefix') or None, f.get('postfix') or None, closed, bool(disp))

  ctors = []
  for total in (None, 0, 3):
    for initial in (0, 2):
      for leave in (True, False):
        for disable in (False, True):
          ctors.append(dict(total=total, initial=initial, leave=leave,
                            disable=disable, mininterval=0))
  ctors.append(dict(total=3, mininterval=0, delay=1e9))
  ctors.append(dict(total=3, mininterval=0, miniters=2))
  ctors.append(dict(total=3, mininterval=1e9))
  ctors.append(dict(total=3, mininterval=0, desc='D', unit='batch', postfix={'k': 1}))
  depth = 3 if ctx.quick else 4
  faults = [(), 'all', (0,), (1,)]

  def one(kw, prog, fail):
    std.time = Clock()
    rep = R(fail=fail)
    other = R()
    cm = context.using_reporter(rep)
    cm.__enter__()
    left = False
    ids0 = None
    try:
      bar = kt.tqdm(**kw)
      std.time = Clock()
      ref = Ref(file=io.StringIO(), **kw)
      closed = False
      for op in prog:
        if op[0] == 'leave_ctx':
          if not left:
            cm.__exit__(None, None, None)
            left = True
          continue
        if op[0] == 'other_ctx':
          context.set_reporter(other)
          continue
        if op[0] == 'close' and not closed:
          closed = True
          ref.shown.append(ref.snap(True))
        # same clock for both
        t = std.time.t if isinstance(std.time, Clock) else 0
        r1 = apply_bar(bar, op)
        r2 = apply_bar(ref, op)
        if op[0] == 'update' and not (kw.get('mininterval') == 1e9) and bool(r1) != bool(r2):
          return f'after {op}: update returned {r1!r}, plain tqdm returns {r2!r}'
        if (bar.n, bar.total, bar.disable) != (ref.n, ref.total, ref.disable):
          return f'after {op}: n/total/disable {(bar.n, bar.total, bar.disable)} differ from plain tqdm {(ref.n, ref.total, ref.disable)}'
      if not closed:
        ref.shown.append(ref.snap(True))
        bar.close()
        ref.close()
      got = [state_tuple(s) for s in rep.states]
      want = ref.shown
      if got != want:
        return f'reports {got}, expected {want}'
      if other.states:
        return f'a reporter that was not active at construction got {other.states}'
      if len({s.bar_id for s in rep.states}) > 1 or not all(s.bar_id for s in rep.states):
        return f'bar ids {[s.bar_id for s in rep.states]}'
      if sum(s.is_closed for s in rep.states) != 1 or not rep.states[-1].is_closed:
        return 'the final (closed) state is not reported exactly once, last'
      for s in rep.states:
        if s.elapsed_secs is None or s.elapsed_secs < 0:
          return f'elapsed {s.elapsed_secs}'
    finally:
      if not left:
        cm.__exit__(None, None, None)
    return None

  progs = []
  for n in range(depth + 1):
    progs += list(itertools.product(OPS, repeat=n))
  import logging
  logging.disable(logging.CRITICAL)
  jobs = []
  for kw in ctors:
    for k in range(2):
      jobs.append((kw, progs[k::2]))

  def job(sub, j):
    kw, ps = j
    for prog in ps:
      fl = faults if len(prog) <= 2 else faults[:2]
      for fail in fl:
        sub.traces += 1
        sub.transitions += len(prog) + 1
        err = contextvars.Context().run(one, kw, prog, fail)
        if err:
          sub.violation('bar:' + (prog[-1][0] if prog else 'ctor'),
                        f'tqdm({kw}), reporter failing at {fail}, ops {prog}: {err}',
                        {'kwargs': kw, 'ops': prog, 'fail': fail})
        sub.outcome((str(kw), prog, fail))

  core.parallel(ctx, job, jobs)
  ctx.states = len(ctx._outcomes)
  ctx.sample({'kwargs': ctors[0], 'ops': progs[200]})

  # Iteration: yields, exceptions, break, context manager, trange, and faults
  # of the reporter at every call index.
  n = 0
  for size in range(0, 4):
    for mode in ('full', 'break', 'raise', 'with', 'with_raise', 'trange', 'gen', 'nested', 'iter_raise'):
      for stop in range(0, size + 1):
        for fail in [(), 'all'] + [(i,) for i in range(size + 3)]:
          for leave in (True, False):
            n += 1
            ctx.transitions += size
            std.time = Clock()
            rep = R(fail=fail)
            seen = []

            def body():
              with context.using_reporter(rep):
                data = [object() for _ in range(size)]
                src = data
                if mode == 'gen':
                  src = (x for x in data)
                if mode == 'iter_raise':
                  def g():
                    for i, x in enumerate(data):
                      if i == stop:
                        raise RepErr('data')
                      yield x
                  src = g()
                kw = dict(mininterval=0, leave=leave)
                if mode == 'trange':
                  got = list(kt.trange(size, **kw))
                  return (got == list(range(size)), size, True, size)
                bar = kt.tqdm(src, **kw)
                err = None
                count = 0
                try:
                  if mode in ('with', 'with_raise'):
                    with bar:
                      for x in bar:
                        if mode == 'with_raise' and count == stop:
                          raise RepErr('user')
                        seen.append(x)
                        count += 1
                  else:
                    for x in bar:
                      if mode == 'break' and count == stop:
                        break
                      if mode == 'raise' and count == stop:
                        raise RepErr('user')
                      seen.append(x)
                      count += 1
                      if mode == 'nested':
                        list(kt.tqdm([1, 2], **kw))
                except RepErr as e:
                  err = str(e)
                del_early = mode in ('break', 'raise')
                if del_early:
                  bar.close()
                full = size if mode not in ('break', 'raise', 'with_raise', 'iter_raise') else min(size, stop)
                ok = seen == data[:full] and all(a is b for a, b in zip(seen, data))
                want_err = {'raise': 'user', 'with_raise': 'user', 'iter_raise': 'data'}.get(mode)
                if stop >= size:
                  want_err = None
                if err != want_err:
                  return (False, f'exception {err!r}, expected {want_err!r}', True, None)
                return (ok, count, True, size if mode != 'gen' and mode != 'iter_raise' else None)

            ok, count, _, total = contextvars.Context().run(body)
            desc = f'{mode} over {size} items, stop at {stop}, reporter fails at {fail}, leave={leave}'
            if not ok:
              ctx.violation('iter', f'{desc}: wrong items or exception ({count})', {'desc': desc})
              continue
            closed = [s for s in rep.states if s.is_closed]
            bars = {s.bar_id for s in rep.states}
            wantbars = 1 + (size if mode == 'nested' else 0)
            if len(bars) != wantbars or len(closed) != wantbars:
              ctx.violation('iter-close', f'{desc}: {len(bars)} bars, {len(closed)} closed reports, expected {wantbars}', {'desc': desc})
              continue
            main = rep.states[0].bar_id
            last = [s for s in rep.states if s.bar_id == main][-1]
            # n: number of completed items at the end.
            wn = count
            if not last.is_closed or last.n != wn or (last.total or None) != (total or None):
              ctx.violation('iter-final', f'{desc}: final report n={last.n} total={last.total} closed={last.is_closed}, expected n={wn} total={total}', {'desc': desc})
            if last.is_displayed != leave:
              ctx.violation('iter-disp', f'{desc}: is_displayed={last.is_displayed}', {'desc': desc})
            for b in bars:
              ns = [s.n for s in rep.states if s.bar_id == b]
              if ns != sorted(ns):
                ctx.violation('iter-mono', f'{desc}: n not monotone {ns}', {'desc': desc})
  ctx.traces += n
  ctx.states += n
  ctx.note(iteration_cases=n)

  # Configuration precedence: user kwargs > reporter config > tqdm defaults.
  plain = std.tqdm(total=1, file=io.StringIO())
  defaults = {k: getattr(plain, k) for k in ('mininterval', 'maxinterval')}
  plain.close()
  n = 0
  for sf, um, cm_, ux, cx, ui, ci in itertools.product(
      (True, False), (None, 0, 2.0), (None, 0, 3.0), (None, 4.0), (None, 0, 5.0), (None, 0, 6), (None, 0, 7)):
    for uf in (False, True):
      n += 1
      std.time = Clock()
      cfg = types.TqdmConfig(suppress_file=sf, mininterval=cm_, maxinterval=cx, miniters=ci)
      rep = R(config=cfg)
      f = io.StringIO()
      kw = {}
      if um is not None:
        kw['mininterval'] = um
      if ux is not None:
        kw['maxinterval'] = ux
      if ui is not None:
        kw['miniters'] = ui
      if uf:
        kw['file'] = f
      err = io.StringIO()
      old, sys.stderr = sys.stderr, err
      try:
        with context.using_reporter(rep):
          bar = kt.tqdm(total=5, **kw)
        bar.update(5)
        bar.close()
      finally:
        sys.stderr = old

      wm = um if um is not None else cm_ if cm_ is not None else defaults['mininterval']
      wx = ux if ux is not None else cx if cx is not None else defaults['maxinterval']
      problems = []
      if bar.mininterval != wm:
        problems.append(f'mininterval {bar.mininterval} expected {wm}')
      if bar.maxinterval != wx:
        problems.append(f'maxinterval {bar.maxinterval} expected {wx}')
      wi = ui if ui is not None else ci
      # miniters is dynamic (None -> 0 and dynamic) otherwise fixed.
      if wi is not None and bar.miniters != wi:
        problems.append(f'miniters {bar.miniters} expected {wi}')
      if bool(f.getvalue()) != uf:
        problems.append(f'user file written: {bool(f.getvalue())}')
      if bool(err.getvalue()) != (not uf and not sf):
        problems.append(f'terminal written: {bool(err.getvalue())}')
      if problems:
        ctx.violation('config', f'config={cfg} kwargs={kw}: {problems}', {'kw': repr(kw), 'cfg': repr(cfg)})
  ctx.traces += n
  ctx.states += n
  ctx.transitions += n
  ctx.note(config_cases=n)


def run_q02(ctx):
  """ProgressState <-> proto round trip, exhaustively over small domains."""
  std, context, types, kt = load()
  from koladata.ext.tqdm.proto import progress_pb2
  nums = [None, 0, 1, 2.5, 10, 1e15, -1]
  n = 0
  for pn, pt, pr in itertools.product(nums, nums, [None, 0, 0.5, 4.0]):
    s = types.ProgressState(n=pn, total=pt, rate=pr)
    n += 1
    wf = None if pn is None or not pt else pn / pt
    if s.fraction != wf:
      ctx.violation('fraction', f'{s}: fraction {s.fraction}, expected {wf}')
    wr = None if (not pr or not pt or pn is None) else (pt - pn) / pr
    if s.remaining_s != wr:
      ctx.violation('remaining', f'{s}: remaining {s.remaining_s}, expected {wr}')
    ctx.outcome((wf, wr))
  doms = dict(
      n=[None, 0, 3, 2.5], total=[None, 0, 7], elapsed_secs=[0.0, 1.5],
      rate=[None, 0, 0.25], initial=[0.0, 2.0], unit=['it', 'batch'],
      desc=[None, '', 'é:'], postfix=[None, 'x=1'], bar_id=['', 'abc'],
      is_closed=[False, True], is_displayed=[False, True])
  keys = list(doms)
  for vals in itertools.product(*doms.values()):
    kw = dict(zip(keys, vals))
    s = types.ProgressState(**kw)
    n += 1
    p = s.to_proto()
    p2 = progress_pb2.ProgressRecord.FromString(p.SerializeToString())
    back = types.ProgressState.from_proto(p2)
    want = dict(kw)
    want['n'] = kw['n'] or 0
    for k in ('total', 'rate', 'desc', 'postfix'):
      want[k] = kw[k] or None
    got = {k: getattr(back, k) for k in keys}
    if got != want:
      d = {k: (got[k], want[k]) for k in keys if got[k] != want[k]}
      ctx.violation('roundtrip:' + next(iter(d)), f'{s} -> proto -> differs (got, expected): {d}', {'state': repr(s)})
    if back.to_proto() != p:
      ctx.violation('proto-fix', f'{s}: proto -> state -> proto is not stable')
    # The wire fields themselves (other processes read them).
    for k in ('elapsed_secs', 'initial', 'unit', 'bar_id', 'is_closed', 'is_displayed'):
      if getattr(p2, k) != kw[k]:
        ctx.violation('wire:' + k, f'{s}: wire field {k} is {getattr(p2, k)}')
  # Every numeric field keeps every bit; every text field every character.
  floats = [5e-324, 1e-300, 1e-7, 1e-3, 0.1, 1 / 3, 0.1 + 0.2, 1.0, 1e6 + 1e-6, 2.0**53, 2.0**53 + 2, 1e17, 1.7e308, -0.1, -1e-9,
            -2.0**53, float('inf'), float('-inf'), 123456789.123456789]
  for field in ('n', 'total', 'elapsed_secs', 'rate', 'initial'):
    for v in floats:
      for other in (None, 3.5):
        n += 1
        kw = {field: v}
        if other is not None:
          kw.update({f: other for f in ('n', 'total', 'elapsed_secs', 'rate', 'initial') if f != field})
        s = types.ProgressState(**kw)
        back = types.ProgressState.from_proto(progress_pb2.ProgressRecord.FromString(s.to_proto().SerializeToString()))
        for f in ('n', 'total', 'elapsed_secs', 'rate', 'initial'):
          w = getattr(s, f)
          g = getattr(back, f)
          if (w or 0) != (g or 0):
            ctx.violation('roundtrip:' + f, f'{s}: {f} comes back as {g!r}', {'state': repr(s)})
  for field in ('unit', 'desc', 'postfix', 'bar_id'):
    for v in ('a', ' ', ' a ', 'a: ', ': ', 'a:', '\x00', '\n', '\t', 'é', '\U0001f600', 'x' * 3000, '0', 'None', '%', '<b>&', 'A'):
      n += 1
      s = types.ProgressState(**{field: v})
      back = types.ProgressState.from_proto(progress_pb2.ProgressRecord.FromString(s.to_proto().SerializeToString()))
      if getattr(back, field) != v:
        ctx.violation('roundtrip:' + field, f'{field}={v!r} comes back as {getattr(back, field)!r}', {'state': repr(s)})
  for pn, pt, pr in itertools.product(floats, floats, floats):
    if not pt or not pr:
      continue
    n += 1
    s = types.ProgressState(n=pn, total=pt, rate=pr)
    try:
      got = (s.fraction, s.remaining_s)
      want = (pn / pt, (pt - pn) / pr)
    except Exception as e:
      ctx.violation('derived-raises', f'{s}: {e!r}')
      continue
    if repr(got) != repr(want):
      ctx.violation('derived', f'{s}: fraction, remaining = {got}, expected {want}')
  # Snapshots are immutable.
  s = types.ProgressState(n=1)
  try:
    s.n = 2
    ctx.violation('frozen', 'ProgressState is mutable')
  except AttributeError:
    pass
  # from_tqdm keeps every field of a format dict.
  for total, initial, unit, prefix, postfix, rate, elapsed, cl, di in itertools.product(
      (None, 0, 9), (0, 4), ('it', 'B'), ('', 'pre'), (None, 'post'), (None, 2.0), (0.0, 3.0), (True, False), (True, False)):
    n += 1
    fmt = dict(n=5, total=total, elapsed=elapsed, rate=rate, initial=initial, unit=unit, prefix=prefix, postfix=postfix, ncols=3)
    s = types.ProgressState.from_tqdm(fmt, bar_id='B', is_closed=cl, is_displayed=di)
    got = (s.n, s.total, s.elapsed_secs, s.rate, s.initial, s.unit, s.desc, s.postfix, s.bar_id, s.is_closed, s.is_displayed)
    want = (5, total, elapsed, rate, initial, unit, prefix, postfix, 'B', cl, di)
    if tuple(x or None for x in got) != tuple(x or None for x in want):
      ctx.violation('from_tqdm', f'{fmt}: {got}')
  ctx.states = n
  ctx.transitions = n
  ctx.traces = n
  ctx.sample(repr(s))


CTX_ACTIONS = ('A', 'B', 'N', 'x', 'e', 'set', 'th', 'cp')


def run_q03(ctx):
  """Reporter scoping and mutual exclusion under all interleavings."""
  std, context, types, kt = load()
  import logging
  logging.disable(logging.CRITICAL)
  R = reporter_class(types)
  ra, rb = R(), R()

  def scoped(prog):
    stack, model, log = [], [None], []

    def obs(want, where):
      got = context.get_reporter()
      if got is not want:
        log.append(f'{where}: active reporter {got!r}, expected {want!r}')

    for i, a in enumerate(prog):
      where = f'after {prog[:i+1]}'
      if a in 'ABN':
        r = {'A': ra, 'B': rb, 'N': None}[a]
        cm = context.using_reporter(r)
        y = cm.__enter__()
        if y is not r:
          log.append(f'{where}: block yields {y!r}')
        stack.append(cm)
        model.append(r)
      elif a in 'xe':
        cm = stack.pop()
        model.pop()
        if a == 'x':
          cm.__exit__(None, None, None)
        else:
          try:
            raise RepErr()
          except RepErr as ex:
            if cm.__exit__(RepErr, ex, ex.__traceback__):
              log.append(f'{where}: exception swallowed')
      elif a == 'set':
        tok = context.set_reporter(rb)
        obs(rb, where)
        context.reset_reporter(tok)
      elif a == 'th':
        def f():
          obs(None, where + ' in a new thread')
          with context.using_reporter(rb):
            obs(rb, where + ' in a new thread')
        t = threading.Thread(target=f)
        t.start()
        t.join()
      elif a == 'cp':
        cur = model[-1]
        copied = contextvars.copy_context()
        cm = context.using_reporter(rb)
        copied.run(cm.__enter__)
        obs(cur, where + ' (other context inside a block)')
        copied.run(obs, rb, where)
        copied.run(cm.__exit__, None, None, None)
        copied.run(obs, cur, where)
      obs(model[-1], where)
    while stack:
      stack.pop().__exit__(None, None, None)
    obs(None, 'end')
    return log

  def ok(prog):
    d = 0
    for a in prog:
      d += (a in ('A', 'B', 'N')) - (a in ('x', 'e'))
      if d < 0:
        return False
    return True

  def scope_job(ctx, first):
    n = 0
    for length in range(0, 5 if ctx.quick else 6):
      for rest in itertools.product(CTX_ACTIONS, repeat=length):
        prog = (first,) + rest
        if not ok(prog):
          continue
        n += 1
        ctx.transitions += length + 1
        log = contextvars.Context().run(scoped, prog)
        if log:
          ctx.violation('scope', f'{prog}: {log[0]}', {'prog': prog})
    ctx.states += n
    ctx.traces += n
    ctx.add('scoping_programs', n)

  scope = lambda f: f.startswith(os.path.join(core.REPO, 'py', 'koladata'))

  class Shared(types.ProgressReporter):
    def __init__(self):
      super().__init__()
      self.inside = 0
      self.max_inside = 0
      self.states = []
      self.depth = 0

    def _set_progress_impl(self, state):
      self.inside += 1
      self.max_inside = max(self.max_inside, self.inside)
      sched.point()
      self.states.append(state)
      sched.point()
      if self.depth == 0:
        self.depth = 1
        _ = self.tqdm_config  # re-entrant use of the lock
      self.inside -= 1

  def interleave(ctx, progs, bound, pre=False):
    def make():
      std.time = Clock()
      with sched.patched_locks():
        rep = Shared()
        own = [Shared() for _ in progs]
      std.tqdm.set_lock(sched.CRLock())
      env = {'rep': rep, 'bad': [], 'own': own}

      if pre:
        bars = []
        for t, prog in enumerate(progs):
          with context.using_reporter(rep if prog[0] == 's' else own[t]):
            bars.append(kt.tqdm(total=10, mininterval=0, miniters=1))

      def body(t, prog):
        def run():
          if pre:
            bar = bars[t]
            for c in prog[1:]:
              bar.update(int(c))
            bar.close()
            return bar.n
          if context.get_reporter() is not None:
            env['bad'].append('a new thread inherits a reporter')
          r = rep if prog[0] == 's' else own[t]
          with context.using_reporter(r):
            sched.point()
            if context.get_reporter() is not r:
              env['bad'].append('another thread changed the active reporter')
            bar = kt.tqdm(total=10, mininterval=0, miniters=1)
            for c in prog[1:]:
              bar.update(int(c))
            bar.close()
          if context.get_reporter() is not None:
            env['bad'].append('reporter not restored')
          return bar.n
        return run
      return [body(t, p) for t, p in enumerate(progs)], env

    def check(run, env):
      bad = list(env['bad'])
      if run.deadlock:
        bad.append('deadlock')
      for r in run.results:
        if r and r[0] == 'exc':
          bad.append(f'raised {r[1]!r}')
      rep = env['rep']
      if rep.max_inside > 1:
        bad.append('two threads were inside the reporter implementation at once')
      if not bad:
        bars = {}
        for s in rep.states:
          bars.setdefault(s.bar_id, []).append(s)
        nsh = sum(p[0] == 's' for p in progs)
        if len(bars) != nsh:
          bad.append(f'{len(bars)} bars reported, expected {nsh}')
        wants = sorted([0] + list(itertools.accumulate(int(c) for c in p[1:])) + [sum(int(c) for c in p[1:])] for p in progs if p[0] == 's')
        gots = sorted([s.n for s in v] for v in bars.values())
        if wants != gots:
          bad.append(f'reports per bar {gots}, expected {wants}')
        for t, p in enumerate(progs):
          if p[0] != 's':
            w = [0] + list(itertools.accumulate(int(c) for c in p[1:])) + [sum(int(c) for c in p[1:])]
            g = [s.n for s in env['own'][t].states]
            if g != w:
              bad.append(f'private reporter of thread {t} got {g}, expected {w}')
      ctx.outcome(tuple(s.n for s in rep.states))
      if bad:
        ctx.violation('threads:' + bad[0][:30], f'{progs}: {bad[0]}', {'progs': progs, 'schedule': run.choices})

    r, p, c = sched.explore(make, check, bound=bound, in_scope=scope, granularity='line')
    ctx.add('schedules', r)
    ctx.states += p
    ctx.transitions += p
    ctx.traces += r

  def direct(ctx, nthreads, calls, bound):
    def make():
      with sched.patched_locks():
        rep = Shared()
      def body(t):
        def run():
          for i in range(calls):
            rep.set_progress(types.ProgressState(n=10 * t + i))
            rep.tqdm_config
        return run
      return [body(t) for t in range(nthreads)], {'rep': rep}

    def check(run, env):
      bad = []
      rep = env['rep']
      if run.deadlock:
        bad.append('deadlock')
      bad += [f'raised {r[1]!r}' for r in run.results if r and r[0] == 'exc']
      if rep.max_inside > 1:
        bad.append('two threads were inside the reporter implementation at once')
      if not bad:
        for t in range(nthreads):
          g = [x.n for x in rep.states if x.n // 10 == t]
          if g != [10 * t + i for i in range(calls)]:
            bad.append(f'thread {t} delivered {g}')
      ctx.outcome(('direct', tuple(x.n for x in rep.states)))
      if bad:
        ctx.violation('direct:' + bad[0][:30], f'{nthreads} threads x {calls} deliveries: {bad[0]}', {'schedule': run.choices})

    r, p, c = sched.explore(make, check, bound=bound, in_scope=scope, granularity='line')
    ctx.add('schedules', r)
    ctx.states += p
    ctx.transitions += p
    ctx.traces += r

  jobs = [(direct, 2, 2, 2), (direct, 3, 1, 2), (interleave, ('s1', 's2'), 1), (interleave, ('s1', 'o2'), 1),
          (interleave, ('s1', 's1', 'o1'), 1), (interleave, ('s', 's1'), 2, True), (interleave, ('s1', 's1', 's'), 1, True)]
  jobs += [(scope_job, x) for x in CTX_ACTIONS]
  if not ctx.quick:
    jobs += [(direct, 2, 2, 4), (interleave, ('s12', 's21'), 1), (interleave, ('s1', 's2'), 2), (interleave, ('s12', 's1'), 2, True)]
  core.parallel(ctx, lambda sub, j: j[0](sub, *j[1:]), jobs)
