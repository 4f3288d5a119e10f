"""Builds C++ drivers around source files of the current tree and talks to them."""

import os
import struct
import subprocess

from mc import core

SHIM = os.path.join(core.VERIF, 'cc', 'shim')
CC = os.path.join(core.VERIF, 'cc')
ABSL = ['absl_strings', 'absl_str_format_internal', 'absl_strings_internal', 'absl_base',
        'absl_raw_logging_internal', 'absl_int128', 'absl_throw_delegate']


def build(name, driver, sources, libs=(), flags=(), opt='-O2'):
  """Compiles /verif/cc/<driver> and files of the tree; returns the binary."""
  out = core.scratch('cxx')
  objs, procs = [], []
  for i, s in enumerate([os.path.join(CC, driver)] + [os.path.join(core.REPO, s) for s in sources]):
    o = os.path.join(out, f'{name}_{i}.o')
    objs.append(o)
    procs.append((s, subprocess.Popen(
        ['g++', '-std=c++20', opt, '-w', f'-I{SHIM}', f'-I{core.REPO}', f'-I{CC}', *flags, '-c', s, '-o', o],
        stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
  errs = []
  for s, p in procs:
    o, _ = p.communicate()
    if p.returncode:
      errs.append(f'{s} does not compile: {o[:1500]}')
  if errs:
    raise core.HarnessError('; '.join(errs))
  exe = os.path.join(out, name)
  r = subprocess.run(['g++', *flags, *objs, '-o', exe, *[f'-l{x}' for x in libs], '-lpthread'], capture_output=True, text=True)
  if r.returncode:
    raise core.HarnessError('link: ' + r.stderr[-1500:])
  return exe


def text(s):
  return s if isinstance(s, bytes) else s.encode('utf-8', 'surrogatepass')


def run(exe, args, data=b'', timeout=400):
  """Returns (rc, stdout, stderr); rc None when it did not end in time."""
  try:
    r = subprocess.run([exe, *args], input=data, capture_output=True, timeout=timeout)
    return r.returncode, r.stdout, r.stderr
  except subprocess.TimeoutExpired as e:
    return None, e.stdout or b'', e.stderr or b''
