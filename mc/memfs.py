"""A modelled file system that the real storage code runs on.

`Store` is the durable content; `view(...)` gives a FileSystemInterface on it.
Every operation is a numbered step of the view at which the harness can
  * interleave other threads (sched.point()),
  * crash the process: the operation and everything after it raises Crash and
    has no effect; a write may be torn (a prefix reaches the store),
  * make the operation fail with OSError (with no effect, with a partial effect,
    or with its full effect), after which the file system works again.

rename(overwrite=False) is atomic, the assumption the storage code documents.
"""

import concurrent.futures as cf
import fnmatch
import io
import os
import threading
import uuid

from mc import core
from mc import sched


class Crash(BaseException):
  """The process died; nothing after this point reached the disk."""


class Store:

  def __init__(self, files=None, dirs=None):
    self.files = dict(files or {})   # path -> bytes
    self.dirs = set(dirs or ()) | {'/'}

  def copy(self):
    return Store(self.files, self.dirs)

  def key(self):
    return (tuple(sorted(self.files.items())), tuple(sorted(self.dirs)))


def _norm(p):
  p = os.path.normpath(os.fspath(p))
  if not p.startswith('/'):
    p = '/cwd/' + p
  return p


MUTATING = ('make_dirs', 'open_w', 'write', 'rename', 'remove')


def make_fs_class():
  from koladata.file_io import fs_interface

  class MemFs(fs_interface.FileSystemInterface):
    """One process's view of a Store."""

    def __init__(self, store, *, fault_at=None, fault=None, observer=None,
                 schedule=False):
      self.store = store
      self.n = 0                # numbered steps so far
      self.log = []             # (op, path)
      self.fault_at = fault_at
      self.fault = fault        # see step()
      self.dead = False
      self.faulted = False
      self.observer = observer
      self.schedule = schedule
      self.lock = threading.RLock()

    def arm(self, fault_at=None, fault=None):
      """Restarts the step numbering, with a fault at the given step."""
      self.n, self.log, self.fault_at, self.fault = 0, [], fault_at, fault
      self.dead = self.faulted = False
      return self

    # -- steps ----------------------------------------------------------
    def step(self, op, path, effect, partial=None):
      if self.schedule and (self.schedule is True or self.schedule(op, path)):
        sched.point()
      with self.lock:
        if self.dead:
          raise Crash()
        i = self.n
        self.n += 1
        self.log.append((op, path))
        if self.fault_at is not None and i == self.fault_at:
          self.faulted = True
          kind = self.fault
          if kind.startswith('crash'):
            self.dead = True
            if kind == 'crash-torn' and partial is not None:
              partial()
            elif kind == 'crash-after':
              try:
                effect()
              except Exception:  # it failed: no effect
                pass
            raise Crash()
          if kind == 'fail':
            raise OSError(28, 'injected: no space left on device', path)
          if kind == 'fail-torn':
            if partial is not None:
              partial()
            raise OSError(28, 'injected: no space left on device', path)
          if kind == 'fail-after':
            effect()
            raise OSError(5, 'injected: i/o error after the effect', path)
          raise AssertionError(kind)
        r = effect()
        if self.observer is not None:
          self.observer(op, path)
        return r

    # -- the interface --------------------------------------------------
    def exists(self, filepath):
      p = _norm(filepath)
      return self.step('exists', p, lambda: p in self.store.files or p in self.store.dirs)

    def is_dir(self, filepath):
      p = _norm(filepath)
      return self.step('is_dir', p, lambda: p in self.store.dirs)

    def remove(self, filepath):
      p = _norm(filepath)

      def eff():
        if p not in self.store.files:
          raise FileNotFoundError(2, 'no such file', p)
        del self.store.files[p]

      return self.step('remove', p, eff)

    def make_dirs(self, dirpath):
      p = _norm(dirpath)

      def eff():
        parts = p.split('/')[1:]
        cur = ''
        for x in parts:
          cur += '/' + x
          if cur in self.store.files:
            raise FileExistsError(17, 'a file is in the way', cur)
        cur = ''
        for x in parts:
          cur += '/' + x
          self.store.dirs.add(cur)

      return self.step('make_dirs', p, eff)

    def glob(self, pattern):
      pat = _norm(pattern)
      np = pat.count('/')

      def eff():
        parts = pat.split('/')
        lead = pat[:min([len(pat)] + [pat.index(c) for c in '*?[' if c in pat])]
        out = []
        for p in list(self.store.files) + list(self.store.dirs):
          if not p.startswith(lead) or p.count('/') != np:
            continue
          pp = p.split('/')
          if all(
              (not b.startswith('.') or a.startswith('.')) and fnmatch.fnmatchcase(b, a)
              for a, b in zip(parts, pp)
          ):
            out.append(p)
        # os order is arbitrary: an adversarial, deterministic one.
        return sorted(out, key=lambda s: s[::-1], reverse=True)

      return self.step('glob', pat, eff)

    def rename(self, oldpath, newpath, overwrite=False):
      a, b = _norm(oldpath), _norm(newpath)

      def eff():
        st = self.store
        if not overwrite and (b in st.files or b in st.dirs):
          raise ValueError(f'Destination {b} already exists.')
        if os.path.dirname(b) not in st.dirs:
          raise FileNotFoundError(2, 'no such directory', b)
        if a in st.files:
          if b in st.dirs:
            raise IsADirectoryError(21, 'is a directory', b)
          st.files[b] = st.files.pop(a)
          return
        if a in st.dirs:
          for f in [f for f in st.files if f.startswith(a + '/')]:
            st.files[b + f[len(a):]] = st.files.pop(f)
          for d in [d for d in st.dirs if d == a or d.startswith(a + '/')]:
            st.dirs.remove(d)
            st.dirs.add(b + d[len(a):])
          return
        raise FileNotFoundError(2, 'no such file', a)

      return self.step('rename', f'{a} -> {b} overwrite={bool(overwrite)}', eff)

    def open(self, filepath, mode='r'):
      p = _norm(filepath)
      text = 'b' not in mode
      kind = mode.replace('b', '').replace('t', '').replace('+', '')
      if kind == 'r':
        def eff():
          if p not in self.store.files:
            raise FileNotFoundError(2, 'no such file', p)
          return self.store.files[p]

        data = self.step('open_r', p, eff)
        raw = io.BytesIO(data)
        raw.name = p
        return io.TextIOWrapper(raw, 'utf-8') if text else raw

      def eff():
        st = self.store
        if p in st.dirs:
          raise IsADirectoryError(21, 'is a directory', p)
        if os.path.dirname(p) not in st.dirs:
          raise FileNotFoundError(2, 'no such directory', p)
        if kind == 'x' and p in st.files:
          raise FileExistsError(17, 'exists', p)
        if kind != 'a' or p not in st.files:
          st.files[p] = b''

      self.step('open_w', p, eff)
      raw = _Writer(self, p)
      return io.TextIOWrapper(raw, 'utf-8', write_through=True) if text else raw

  return MemFs


class _Writer(io.RawIOBase):

  def __init__(self, fs, path):
    super().__init__()
    self.fs = fs
    self.path = path
    self.name = path

  def writable(self):
    return True

  def write(self, b):
    b = bytes(b)
    fs, p = self.fs, self.path

    def put(data):
      # The file may have been renamed while open; writing then goes to nowhere
      # we track (the code under test never does that).
      fs.store.files[p] = fs.store.files.get(p, b'') + data

    fs.step('write', p, lambda: put(b), lambda: put(b[: len(b) // 2]))
    return len(b)

  def flush(self):
    pass


# -- worker pools -----------------------------------------------------------
class LazyFuture(cf.Future):
  """Runs its task when someone waits for it."""

  def __init__(self, pool, fn, a, k):
    super().__init__()
    self._pool, self._task = pool, (fn, a, k)

  def run_task(self):
    t, self._task = self._task, None
    if t is None:
      return
    if not self.set_running_or_notify_cancel():
      return
    try:
      r = t[0](*t[1], **t[2])
    except BaseException as e:  # as the real pool does
      self.set_exception(e)
    else:
      self.set_result(r)

  def result(self, timeout=None):
    self._pool.drain()
    return super().result(timeout)

  def exception(self, timeout=None):
    self._pool.drain()
    return super().exception(timeout)


class LazyPool(cf.Executor):
  """An adversarial executor: no task starts before somebody waits.

  order: 'fifo' or 'lifo' among the pending tasks.
  """

  order = 'fifo'
  instances = []

  def __init__(self, *a, **k):
    self.pending = []
    LazyPool.instances.append(self)

  def submit(self, fn, /, *a, **k):
    f = LazyFuture(self, fn, a, k)
    self.pending.append(f)
    return f

  def map(self, fn, *its, timeout=None, chunksize=1, buffersize=None):
    fs = [self.submit(fn, *args) for args in zip(*its)]

    def gen():
      for f in fs:
        yield f.result()

    return gen()

  def drain(self):
    while self.pending:
      f = self.pending.pop(0 if self.order == 'fifo' else -1)
      f.run_task()

  def shutdown(self, wait=True, *, cancel_futures=False):
    if cancel_futures:
      for f in self.pending:
        f.cancel()
      self.pending.clear()
    if wait:
      self.drain()


def drain_all():
  for p in LazyPool.instances:
    p.drain()
  LazyPool.instances.clear()


_real = {}


def install_pools():
  """Replaces the thread pools by LazyPool (for code that uses cf.*)."""
  if _real:
    return
  import concurrent.futures.thread as cft

  _real.update(wait=cf.wait, as_completed=cf.as_completed)

  def wait(fs, *a, **k):
    for f in fs:
      if isinstance(f, LazyFuture):
        f._pool.drain()
    return _real['wait'](fs, *a, **k)

  def as_completed(fs, *a, **k):
    fs = list(fs)
    for f in fs:
      if isinstance(f, LazyFuture):
        f._pool.drain()
    return _real['as_completed'](fs, *a, **k)

  cf.ThreadPoolExecutor = LazyPool
  cft.ThreadPoolExecutor = LazyPool
  cf.wait = wait
  cf.as_completed = as_completed


# -- deterministic, adversarial uuids -----------------------------------------
class Uuids:
  counter = 0
  collide = 0   # how many further uuids share their xor-folded short form


def _next_uuid(*a, **k):
  Uuids.counter += 1
  n = Uuids.counter
  base = bytearray(uuid.UUID(int=(0x1234_5678_9ABC_11EE_8ABC_0000_0000_0000_0000 & ((1 << 128) - 1))).bytes)
  if Uuids.collide > 0:
    Uuids.collide -= 1
    # the same xor of the two halves, different bytes
    hi = n.to_bytes(6, 'big')
    for i in range(6):
      base[i] ^= hi[i]
      base[8 + i] ^= hi[i]
  else:
    hi = n.to_bytes(6, 'big')
    for i in range(6):
      base[i] ^= hi[i]
  return uuid.UUID(bytes=bytes(base))


def install_uuids():
  uuid.uuid1 = _next_uuid
  uuid.uuid4 = _next_uuid
