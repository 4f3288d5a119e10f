"""F01: the default file-system layer against a tree model, all op sequences."""

import itertools
import os
import shutil

from mc import core

PATHS = ['a', 'b', 'd', 'd/a']


class FsModel:
  """files: path -> bytes; dirs: set of paths ('' is the root)."""

  def __init__(self, files=(), dirs=()):
    self.files = dict(files)
    self.dirs = set(dirs) | {''}

  def copy(self):
    return FsModel(self.files, self.dirs)

  def key(self):
    return (tuple(sorted(self.files.items())), tuple(sorted(self.dirs)))

  def exists(self, p):
    return p in self.files or p in self.dirs

  def parent(self, p):
    return p.rpartition('/')[0]

  def children(self, p):
    return [q for q in list(self.files) + list(self.dirs) if q and self.parent(q) == p]

  def apply(self, op):
    name, *a = op
    if name == 'write':
      p, data, mode = a
      if p in self.dirs or self.parent(p) not in self.dirs:
        return 'ERR'
      if 'x' in mode and p in self.files:
        return 'ERR'
      old = self.files.get(p, b'') if 'a' in mode else b''
      self.files[p] = old + data
      return None
    if name == 'read':
      return self.files.get(a[0], 'ERR')
    if name == 'exists':
      return self.exists(a[0])
    if name == 'is_dir':
      return a[0] in self.dirs
    if name == 'glob':
      (pat,) = a
      d = pat[:-1].rstrip('/')
      if d not in self.dirs:
        return ()
      return tuple(sorted(self.children(d)))
    if name == 'make_dirs':
      (p,) = a
      parts = p.split('/')
      for i in range(1, len(parts) + 1):
        if '/'.join(parts[:i]) in self.files:
          return 'ERR'
      for i in range(1, len(parts) + 1):
        self.dirs.add('/'.join(parts[:i]))
      return None
    if name == 'remove':
      (p,) = a
      if p not in self.files:
        return 'ERR'
      del self.files[p]
      return None
    if name == 'rename':
      p, q, overwrite = a
      if not self.exists(p):
        return 'ERR'
      if self.exists(q) and not overwrite:
        return 'ERR'
      if self.parent(q) not in self.dirs:
        return 'ERR'
      if p == q:
        return None
      if p in self.dirs and (q + '/').startswith(p + '/'):
        return 'ERR'
      if p in self.files:
        if q in self.dirs:
          return 'ERR'
        self.files[q] = self.files.pop(p)
        return None
      if q in self.files or (q in self.dirs and self.children(q)):
        return 'ERR'
      moved_f = {f: c for f, c in self.files.items() if f.startswith(p + '/')}
      moved_d = {d for d in self.dirs if d == p or d.startswith(p + '/')}
      for f in moved_f:
        del self.files[f]
      self.dirs -= moved_d
      for f, c in moved_f.items():
        self.files[q + f[len(p):]] = c
      for d in moved_d:
        self.dirs.add(q + d[len(p):])
      return None
    raise AssertionError(op)


def apply_real(fs, root, op):
  name, *a = op
  P = lambda p: os.path.join(root, p)
  try:
    if name == 'write':
      p, data, mode = a
      with fs.open(P(p), mode) as f:
        f.write(data if 'b' in mode else data.decode())
      return None
    if name == 'read':
      with fs.open(P(a[0]), 'rb') as f:
        return f.read()
    if name == 'exists':
      return fs.exists(P(a[0]))
    if name == 'is_dir':
      return fs.is_dir(P(a[0]))
    if name == 'glob':
      return tuple(sorted(os.path.relpath(x, root) for x in fs.glob(P(a[0]))))
    if name == 'make_dirs':
      return fs.make_dirs(P(a[0]))
    if name == 'remove':
      return fs.remove(P(a[0]))
    if name == 'rename':
      if a[2] is None:
        return fs.rename(P(a[0]), P(a[1]))
      return fs.rename(P(a[0]), P(a[1]), overwrite=a[2])
  except (OSError, ValueError):
    return 'ERR'
  raise AssertionError(op)


def dump(root):
  files, dirs = {}, {''}
  for d, ds, fsx in os.walk(root):
    rel = os.path.relpath(d, root)
    rel = '' if rel == '.' else rel
    for x in ds:
      dirs.add(os.path.join(rel, x))
    for x in fsx:
      with open(os.path.join(d, x), 'rb') as f:
        files[os.path.join(rel, x)] = f.read()
  return FsModel(files, dirs)


def build(root, model):
  shutil.rmtree(root, ignore_errors=True)
  os.makedirs(root)
  for d in sorted(model.dirs):
    os.makedirs(os.path.join(root, d), exist_ok=True)
  for f, c in model.files.items():
    with open(os.path.join(root, f), 'wb') as h:
      h.write(c)


def run_f01(ctx):
  core.setup_imports()
  from koladata.file_io import file_io
  fs = file_io.get_default_file_system_interaction()
  root = os.path.join(core.scratch('fs'), 'r')
  ops = []
  for p in PATHS:
    for mode in ('wb', 'xb', 'ab', 'w'):
      ops.append(('write', p, b'1', mode))
    ops += [('make_dirs', p), ('remove', p)]
    for q in PATHS:
      for ov in (None, False, True):
        ops.append(('rename', p, q, ov))
  ops.append(('make_dirs', 'd/e'))
  ops.append(('write', 'b', b'2', 'wb'))
  seen = {FsModel().key(): FsModel()}
  frontier = [FsModel()]
  depth = 0
  while frontier and depth < (6 if ctx.quick else 12):
    nxt = []
    for st in frontier:
      for op in ops:
        m = st.copy()
        want = m.apply(op)
        build(root, st)
        got = apply_real(fs, root, op)
        ctx.transitions += 1
        after = dump(root)
        if got != want or after.key() != m.key():
          ctx.violation(
              f'{op[0]}', f'state files={st.files} dirs={sorted(st.dirs)}: {op} -> {got!r}, '
              f'files={after.files} dirs={sorted(after.dirs)}; expected {want!r}, files={m.files} dirs={sorted(m.dirs)}',
              {'state': repr(st.key()), 'op': op})
          continue
        ctx.outcome((op[0], want))
        # queries
        for q in [('exists', p) for p in PATHS] + [('is_dir', p) for p in PATHS] + [('read', p) for p in PATHS] + [('glob', '*'), ('glob', 'd/*')]:
          g, w = apply_real(fs, root, q), m.apply(q)
          if g != w:
            ctx.violation(q[0], f'files={m.files} dirs={sorted(m.dirs)}: {q} -> {g!r}, expected {w!r}', {'q': q})
        if m.key() not in seen and len(m.files) + len(m.dirs) <= (5 if ctx.quick else 6) and all(len(c) <= 1 for c in m.files.values()):
          seen[m.key()] = m
          nxt.append(m)
    frontier = nxt
    depth += 1
  ctx.states = len(seen)
  ctx.traces = ctx.transitions
  ctx.note(max_depth=depth, closed=not frontier)
  ctx.sample([repr(k) for k in list(seen)[:3]])
  ctx.assumptions = ['POSIX rename semantics of the scratch file system; the existence check and the rename of overwrite=False are not atomic (documented)']
