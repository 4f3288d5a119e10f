"""Deterministic exploration of Python thread interleavings on the real code.

Threads are real OS threads, but exactly one runs at a time.  Scheduling points:
  * every source line (or every bytecode, granularity='opcode') executed in the
    files selected by `in_scope`,
  * every acquire/release of a lock created under `patched_locks()`,
  * every explicit `point()` call from harness code (e.g. a modelled fs).

`explore` enumerates *all* schedules with at most `bound` preemptions (a switch
away from a thread that could have continued), depth first, by replaying choice
prefixes.  A replayed prefix that does not reproduce is a HarnessError.
"""

import contextlib
import sys
import threading
import _thread

from mc import core

_real_RLock = threading.RLock
_real_Lock = threading.Lock


class Abort(BaseException):
  pass


_current = None  # the active Run


def active_tid():
  run = _current
  if run is None:
    return None
  return run.tids.get(_thread.get_ident())


def point():
  """Explicit scheduling point for harness code."""
  run = _current
  if run is None:
    return
  tid = run.tids.get(_thread.get_ident())
  if tid is not None:
    run.point(tid)


class CRLock:
  """Controlled lock; reentrant iff `reentrant`."""

  def __init__(self, reentrant=True):
    self._reentrant = reentrant
    self._owner = None
    self._count = 0
    self._real = _real_RLock() if reentrant else _real_Lock()

  def acquire(self, blocking=True, timeout=-1):
    tid = active_tid()
    if tid is None:
      return self._real.acquire(blocking, timeout)
    run = _current
    run.point(tid)
    me = ('t', run.serial, tid)
    while True:
      if self._owner is None or self._owner[1] != run.serial:
        self._owner, self._count = me, 1
        return True
      if self._owner == me and self._reentrant:
        self._count += 1
        return True
      if not blocking or (timeout is not None and timeout >= 0):
        return False
      run.block(tid, self)

  def release(self):
    tid = active_tid()
    if tid is None:
      self._real.release()
      return
    run = _current
    if self._owner is None:
      raise RuntimeError('release unlocked lock')
    if self._reentrant and self._owner != ('t', run.serial, tid):
      raise RuntimeError('cannot release un-acquired lock')
    self._count -= 1
    if self._count == 0:
      self._owner = None
      run.unblock(self)
      run.point(tid)

  def locked(self):
    return self._owner is not None

  __enter__ = acquire

  def __exit__(self, *a):
    self.release()

  # threading.Condition protocol.
  def _is_owned(self):
    tid = active_tid()
    if tid is None:
      return self._real._is_owned() if hasattr(self._real, '_is_owned') else True
    return self._owner == ('t', _current.serial, tid)


@contextlib.contextmanager
def patched_locks():
  old = threading.Lock, threading.RLock
  threading.Lock = lambda: CRLock(False)
  threading.RLock = lambda: CRLock(True)
  try:
    yield
  finally:
    threading.Lock, threading.RLock = old


class Divergence(core.HarnessError):
  pass


class Point:
  __slots__ = ('enabled', 'choice', 'running_enabled')

  def __init__(self, enabled, choice, running_enabled):
    self.enabled = enabled
    self.choice = choice
    self.running_enabled = running_enabled


class Run:
  serial_counter = 0

  def __init__(self, bodies, prefix, in_scope, granularity):
    Run.serial_counter += 1
    self.serial = Run.serial_counter
    self.bodies = bodies
    self.prefix = prefix
    self.points = []
    self.in_scope = in_scope
    self.opcode = granularity == 'opcode'
    self.nolines = granularity == 'locks'
    n = len(bodies)
    self.sems = [threading.Semaphore(0) for _ in range(n)]
    self.done = threading.Semaphore(0)
    self.tids = {}
    self.alive = set(range(n))
    self.blocked = {}
    self.results = [None] * n
    self.deadlock = False
    self.aborting = False
    self.divergence = None
    self.steps = 0
    self.trace_log = []

  # -- scheduling -------------------------------------------------------
  def _enabled(self, running):
    en = [t for t in sorted(self.alive) if t not in self.blocked]
    if running in en:
      en.remove(running)
      en.insert(0, running)
    return en

  def _choose(self, running, still):
    en = self._enabled(running)
    if not en:
      return None
    i = len(self.points)
    c = self.prefix[i] if i < len(self.prefix) else 0
    if c >= len(en):
      self.divergence = f'choice {c} of {en} at point {i}'
      c = 0
    self.points.append(Point(en, c, still and running in en))
    return en[c]

  def point(self, tid):
    if self.aborting:
      raise Abort()
    self.steps += 1
    if len(self.alive) - len(self.blocked) <= 1:
      return  # only this thread can run: no choice to make
    nxt = self._choose(tid, True)
    if nxt != tid:
      self.sems[nxt].release()
      self.sems[tid].acquire()
      if self.aborting:
        raise Abort()

  def block(self, tid, what):
    if self.aborting:
      raise Abort()
    self.blocked[tid] = what
    nxt = self._choose(tid, False)
    if nxt is None:
      self.deadlock = True
      self._abort_all(tid)
      raise Abort()
    self.sems[nxt].release()
    self.sems[tid].acquire()
    if self.aborting:
      raise Abort()

  def unblock(self, what):
    for t in [t for t, w in self.blocked.items() if w is what]:
      del self.blocked[t]

  def _abort_all(self, me):
    self.aborting = True
    for t in list(self.alive):
      if t != me:
        self.sems[t].release()

  def _finish(self, tid):
    self.alive.discard(tid)
    if not self.alive:
      self.done.release()
      return
    if self.aborting:
      return
    nxt = self._choose(tid, False)
    if nxt is None:
      self.deadlock = True
      self.aborting = True
      for t in list(self.alive):
        self.sems[t].release()
      return
    self.sems[nxt].release()

  # -- tracing ----------------------------------------------------------
  def _make_tracer(self, tid):
    in_scope = self.in_scope
    opcode = self.opcode

    def local(frame, event, arg):
      if event == ('opcode' if opcode else 'line'):
        self.point(tid)
      return local

    def tracer(frame, event, arg):
      if event == 'call' and in_scope(frame.f_code.co_filename):
        if opcode:
          frame.f_trace_opcodes = True
          frame.f_trace_lines = False
        return local
      return None

    return tracer

  def _thread(self, tid):
    self.tids[_thread.get_ident()] = tid
    self.sems[tid].acquire()
    try:
      if self.aborting:
        return
      if not self.nolines:
        sys.settrace(self._make_tracer(tid))
      try:
        r = ('ok', self.bodies[tid]())
      finally:
        sys.settrace(None)
      self.results[tid] = r
    except Abort:
      self.results[tid] = ('aborted', None)
    except BaseException as e:  # the body's own exception is an observation
      self.results[tid] = ('exc', e)
    finally:
      self._finish(tid)

  def execute(self):
    global _current
    _current = self
    threads = []
    try:
      for t in range(len(self.bodies)):
        th = threading.Thread(target=self._thread, args=(t,), daemon=True)
        th.start()
        threads.append(th)
      while len(self.tids) < len(self.bodies):
        pass
      nxt = self._choose(-1, False)
      self.sems[nxt].release()
      if not self.done.acquire(timeout=120):
        raise core.HarnessError('scheduled run did not finish in 120 s')
      for th in threads:
        th.join()
    finally:
      _current = None
    if self.divergence:
      raise Divergence(self.divergence)
    return self

  @property
  def choices(self):
    return [p.choice for p in self.points]


def explore(make, check, *, bound, in_scope, granularity='line', max_runs=None, shard=(0, 1),
            stats=None):
  """Enumerates all schedules with <= bound preemptions.

  make() -> (bodies, env): fresh system for every execution.
  check(run, env): evaluates the property on one complete execution.
  shard: (i, n) explores the i-th part of n of the schedules.
  Returns (runs, points, complete).
  """
  stack = [([], 0)]
  runs = points = nth = 0
  complete = True
  while stack:
    prefix, cost = stack.pop()
    if max_runs is not None and runs >= max_runs:
      complete = False
      break
    bodies, env = make()
    run = Run(bodies, prefix, in_scope, granularity).execute()
    runs += 1
    points += len(run.points) - len(prefix)
    if cost or shard[0] == 0:  # executions without preemption are in each part
      check(run, env)
    else:
      runs -= 1
    choices = run.choices
    # costs of the choices after the prefix are 0 (default continues).
    for i in range(len(run.points) - 1, len(prefix) - 1, -1):
      p = run.points[i]
      c = cost + (1 if p.running_enabled else 0)
      if c > bound:
        continue
      for alt in range(len(p.enabled) - 1, 0, -1):
        if c and not cost:
          nth += 1
          if nth % shard[1] != shard[0]:
            continue
        stack.append((choices[:i] + [alt], c))
  if stats is not None:
    stats['runs'] = stats.get('runs', 0) + runs
    stats['points'] = stats.get('points', 0) + points
  return runs, points, complete
