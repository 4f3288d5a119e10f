"""B*: the data bag core (koladata/internal, koladata/internal/op_utils).

The sources of the current tree are compiled against stand-ins for the arolla
types they use (cc/ar) and linked to a driver of cc/core, which runs every history
of at most so many operations of a family against a reference model and compares
everything that can be read: see the section on it in DESIGN.md.
"""

import concurrent.futures as cf
import glob
import hashlib
import json
import os
import subprocess
import threading
import time

from mc import core

CC = os.path.join(core.VERIF, 'cc')
INC = ['-I' + os.path.join(CC, 'ar'), '-I' + core.REPO, '-I' + os.path.join(CC, 'core')]
DIR = 'koladata/internal/'
BAG = ['data_bag', 'data_item', 'data_list', 'data_slice', 'dense_source', 'dict', 'dtype', 'ellipsis', 'error_utils',
       'expr_quote_utils', 'non_deterministic_token', 'object_id', 'pseudo_random', 'schema_utils', 'casting',
       'slice_builder', 'sparse_source', 'stable_fingerprint', 'triples', 'types_buffer', 'types', 'uuid_object',
       'uuid_schemas', 'op_utils/base62', 'op_utils/equal']
SRC = {}
# Sources that need more of arolla than the stand-ins have.
NOT = {'op_utils/print'}


class Unlinked(Exception):
  pass


def all_sources():
  r = []
  for d in ('', 'op_utils/'):
    for f in sorted(glob.glob(os.path.join(core.REPO, DIR, d, '*.cc'))):
      n = d + os.path.basename(f)[:-3]
      if n.endswith('_test') or 'benchmark' in n or 'test_util' in n or n in NOT:
        continue
      r.append(n)
  return r


def cache_dir():
  """Objects are kept only where VERIF_CORE_CACHE asks for it (development)."""
  return os.environ.get('VERIF_CORE_CACHE')


def headers_hash():
  h = hashlib.sha1()
  for base in (os.path.join(CC, 'ar'), os.path.join(core.REPO, 'koladata', 'internal'), os.path.join(core.REPO, 'koladata', 's11n'), os.path.join(core.REPO, 'koladata', 'test_utils'), os.path.join(core.REPO, 'koladata', 'schema_utils')):
    for d, _, fs in sorted(os.walk(base)):
      for f in sorted(fs):
        if not f.endswith(('.cc', '.py')) :
          with open(os.path.join(d, f), 'rb') as g:
            h.update(f.encode() + b'\0' + g.read())
  return h.hexdigest()


def compile_all(jobs, flags):
  """jobs: [(source, object)]; returns the errors by source."""
  cache = cache_dir()
  hh = headers_hash() if cache else ''

  def one(job):
    src, obj = job
    if os.path.exists(obj):
      return None
    kept = None
    if cache and '/cc/core/' not in src:
      with open(src, 'rb') as f:
        kept = os.path.join(cache, hashlib.sha1((hh + src + ' '.join(flags)).encode() + f.read()).hexdigest() + '.o')
      if os.path.exists(kept):
        os.symlink(kept, obj)
        return None
    r = subprocess.run(['g++', '-std=c++20', '-w', '-fmax-errors=3', *flags, *INC, '-c', src, '-o', obj],
                       capture_output=True, text=True)
    if r.returncode:
      return f'{src} does not compile: {r.stderr[:1500]}'
    if kept:
      os.makedirs(cache, exist_ok=True)
      subprocess.run(['cp', obj, kept + '.tmp'], check=True)
      os.rename(kept + '.tmp', kept)
    return None
  # The big ones first.
  first = {s: i for i, s in enumerate(['data_bag', 'dense_source', 'data_slice', 'casting', 'extract', 'deep_clone'])}
  jobs = sorted(jobs, key=lambda j: (0 if '/cc/core/' in j[0] else 1, first.get(os.path.basename(j[0])[:-3], 99)))
  with cf.ThreadPoolExecutor(8) as pool:
    return [e for e in pool.map(one, jobs) if e]


def libs():
  r = []
  for f in sorted(glob.glob('/usr/lib/x86_64-linux-gnu/libabsl_*.a')):
    n = os.path.basename(f)[3:-2]
    if 'flags_parse' not in n:
      r.append('-l' + n)
  return ['-Wl,--start-group', *r, '-Wl,--end-group', '-licuuc', '-lpthread']


def build(driver, sources, sanitize):
  out = core.scratch('core')
  flags = ['-O1', '-g1', '-fsanitize=address,undefined', '-fno-sanitize-recover=undefined'] if sanitize else ['-O1', '-D_GLIBCXX_ASSERTIONS']
  jobs = [(os.path.join(CC, 'core', driver + '.cc'), os.path.join(out, 'driver.o')),
          (os.path.join(CC, 'ar', 'arolla_ar.cc'), os.path.join(out, 'arolla_ar.o'))]
  for s in sources:
    p = os.path.join(core.REPO, DIR, s + '.cc')
    if os.path.exists(p):
      jobs.append((p, os.path.join(out, s.replace('/', '_') + '.o')))
  errs = compile_all(jobs, flags)
  if errs:
    raise core.HarnessError('; '.join(errs[:3]))
  exe = os.path.join(out, driver)
  r = subprocess.run(['g++', *flags[1:], *[j[1] for j in jobs], '-o', exe, *libs()], capture_output=True, text=True)
  if r.returncode:
    raise Unlinked('link: ' + r.stderr[-1500:])
  return exe


def make(driver, sources, sanitize):
  try:
    return build(driver, sources, sanitize)
  except Unlinked:
    try:
      return build(driver, all_sources(), sanitize)
    except Unlinked as e:
      raise core.HarnessError(str(e))


def families(exe):
  r = subprocess.run([exe, 'list'], capture_output=True, text=True, timeout=120)
  out = []
  for l in r.stdout.splitlines():
    name, depth, ops = l.rsplit(None, 2)
    out.append((name, int(depth), int(ops)))
  if r.returncode or not out:
    return {'error': f'exit {r.returncode}: {(r.stdout + r.stderr)[-600:]}', 'rc': r.returncode, 'out': r.stdout}
  return out


def explore(exe, name, depth, part, parts, secs):
  env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:handle_abort=0', UBSAN_OPTIONS='print_stacktrace=1')
  try:
    r = subprocess.run([exe, 'run', name, str(depth), str(part), str(parts), str(secs)], capture_output=True, timeout=secs + 150, env=env)
  except subprocess.TimeoutExpired:
    return {'shard': name, 'kind': 'hang', 'message': f'no answer in {secs + 150:.0f} s', 'history': ''}
  err = r.stderr.decode('utf-8', 'replace')
  for l in reversed(r.stdout.decode('utf-8', 'replace').splitlines()):
    try:
      d = json.loads(l)
      break
    except ValueError:
      continue
  else:
    d = None
  if d and not d['kind'] and r.returncode == 0:
    return d
  if d and d['kind']:
    d['stderr'] = err[-1500:]
    return d
  if 'Sanitizer' in err or 'runtime error:' in err:
    return {'shard': name, 'kind': 'crash', 'message': err[:1500], 'history': ''}
  if r.returncode < 0 or r.returncode in (134, 139):
    return {'shard': name, 'kind': 'crash', 'message': f'exit {r.returncode}: {err[-800:]}', 'history': ''}
  return {'shard': name, 'error': f'exit {r.returncode}: {err[-500:]}'}


def run(ctx, prop, sources, rule):
  exe = make(prop.lower(), sources, not ctx.quick)
  fams = families(exe)
  if isinstance(fams, dict):
    if fams['rc'] in (3, 134, 139) or fams['rc'] < 0:
      ctx.violation('start:crash', f'the code fails while the histories are set up: {fams["error"]}', fams)
      return
    raise core.HarnessError(fams['error'])
  secs, deadline = (240, time.time() + 600) if ctx.quick else (3600, time.time() + 4 * 3600)
  more = 0 if ctx.quick else 1
  jobs = []
  for name, depth, ops in fams:
    d = depth + (more if depth >= 2 else 0)
    parts = 8 if d >= 2 and ops ** d > 200 else 1
    jobs += [(name, d, k, parts) for k in range(parts)]
  stop = threading.Event()

  def job(j):
    if stop.is_set():
      return j, None
    name, d, k, parts = j
    return j, explore(exe, name, d, k, parts, max(5, min(secs, deadline - time.time())))

  errs, cut, done = [], set(), {}
  with cf.ThreadPoolExecutor(8) as pool:
    todo = [pool.submit(job, j) for j in jobs]
    try:
      for f in cf.as_completed(todo):
        (name, d, k, parts), r = f.result()
        if r is None:
          continue
        if 'error' in r:
          errs.append(f'{name}: {r["error"]}')
          continue
        ctx.traces += r.get('histories', 0)
        ctx.transitions += r.get('operations', 0)
        ctx.states += r.get('states', 0)
        ctx.add('comparisons', r.get('reads', 0))
        ctx.outcome(f'{name} {k}')
        if r.get('kind'):
          ctx.violation(f'{name}:{r["kind"]}',
                        f'family {name}: {r["kind"]}: {r["message"]}\n  history: {r.get("history") or "(none)"}\n  {r.get("stderr", "")[-600:]}',
                        {'family': name, 'kind': r['kind'], 'message': r['message'], 'history': r.get('history'),
                         'stderr': r.get('stderr', '')})
          stop.set()  # one is enough: the parts of a family fail alike
        elif not r.get('complete'):
          cut.add(name)
        t = done.setdefault(name, [d, 0])
        t[1] += r.get('histories', 0)
    except core.Stop:
      ctx.exhaustive = False
      raise
    finally:
      stop.set()
  ctx.rule = rule
  ctx.note(histories_by_family={n: f'{v[1]} histories of at most {v[0]} operations' for n, v in sorted(done.items())})
  for n, v in list(done.items())[:5]:
    ctx.sample(f'{n}: {v[1]} histories of at most {v[0]} operations')
  if cut:
    ctx.exhaustive = False
    ctx.note(not_finished_in_time=sorted(cut))
  if errs and not ctx.violations:
    raise core.HarnessError(f'{len(errs)} shards gave no answer: ' + '; '.join(errs[:5]))


ASSUME = [
    'the arolla types the core is written against (dense arrays, bitmaps, buffers, edges, fingerprints, statuses) are stand-ins (cc/ar); 1719 of the 1740 tests of koladata/internal that run with them pass, the 21 others compare texts of error messages (tools/validate_core.py)',
    'the quick tier runs at -O1 with the assertions of the standard library, DCHECKs enabled; the thorough tier with the address and undefined behaviour sanitizers',
]


def runner(prop, sources, rule):
  def go(ctx):
    ctx.assumptions = ASSUME
    run(ctx, prop, sources, rule)
  return go


run_b01 = runner('B01', BAG, 'every history of attribute updates, within a bound on its length, over small, dense and sparse allocations')
run_b02 = runner('B02', BAG, 'every history of list operations, within a bound on its length, over single lists and lists of an allocation')
run_b03 = runner('B03', BAG, 'every history of dict operations, within a bound on its length, over single dicts and dicts of an allocation')
run_b04 = runner('B04', BAG, 'every history of updates, forks, sibling forks and freezes, within a bound on its length; every bag of the history and every slice read is compared at the end')
run_b05 = runner('B05', BAG, 'every pair of bags made by a history of common, target and source updates within a bound, in five relationships (forks, copies, forks of forks), merged with every policy and by updates')
run_b06 = runner('B06', BAG, 'every history of attribute, list, dict and schema updates and forks within a bound; index, content (whole and by allocation), a bag rebuilt from it, triples and statistics of every bag are compared with the model')
run_b07 = runner('B07', BAG + ['op_utils/agg_common_schema'], 'every sequence of schemas (all types, explicit, implicit and nofollow schemas, missing, other values) within a bound, aggregated in every way; every sequence split into groups; every sequence of values in three bag settings')
run_b10 = runner('B10', BAG + ['op_utils/at', 'op_utils/has', 'op_utils/reverse', 'op_utils/select', 'op_utils/error'], 'every sequence of operations, within a bound on its length, from slices of every kind (one type, mixed, objects of several allocations, empty with and without a type), compared with a model on vectors; every pair and triple of items')
DEEP = BAG + ['op_utils/extract', 'op_utils/deep_clone', 'op_utils/deep_uuid', 'op_utils/deep_equivalent', 'op_utils/deep_diff', 'op_utils/new_ids_like', 'op_utils/at', 'op_utils/has', 'op_utils/select', 'op_utils/reverse', 'op_utils/error']
run_b11 = runner('B11', DEEP, 'every history of updates, within a bound on its length, of a bag and its fallback with entities, objects, lists and dicts of five representations; from nine roots everything is extracted (whole, to a depth, with another bag for schemas), cloned deeply and shallowly, hashed and compared with a model of what is reached')
run_b13 = runner('B13', BAG + ['op_utils/agg_uuid', 'op_utils/itemid', 'op_utils/new_ids_like'], 'every sequence of allocations by two threads, of insertions into sets of allocations, of ids of every kind, of fields with names and values, within a bound on its length; numbers at every power of two and of 62')
run_b08 = runner('B08', BAG, 'every triple of items of every type; every slice of up to three items of every type (and 70 of them), made in every way; every sequence of insertions into a slice builder, within a bound on its length')
run_b09 = runner('B09', BAG, 'every slice of up to three items of every type and value class, cast to every schema; every slice of up to three objects with and without schemas and primitives, made objects with every schema')
