"""R01-R07: the parallel runtime (koladata/functor/parallel).

The sources of the current tree are compiled with the instrumentation of
-fsanitize=thread against stand-ins for absl::Mutex, thread pools and the arolla
types they use (cc/par, cc/par_mc), and linked to a scheduler (cc/par_mc/engine.cc)
that runs every scenario of cc/par_scn under every schedule within a bound on the
preemptions: see the section on it in DESIGN.md.
"""

import concurrent.futures as cf
import json
import os
import re
import subprocess
import threading
import time

from mc import core

CC = os.path.join(core.VERIF, 'cc')
DIR = 'koladata/functor/parallel/'
ALL = ['stream', 'stream_composition', 'stream_map', 'stream_reduce', 'basic_routine', 'stream_loop_internal',
       'stream_for', 'stream_while', 'stream_call', 'future', 'executor', 'eager_executor', 'derived_executor',
       'asio_executor', 'default_asio_executor', 'get_default_executor', 'make_executor', 'stream_qtype',
       'future_qtype']
EX = ['eager_executor', 'executor']
SRC = {
    'R01': ['stream'] + EX,
    'R02': ['stream', 'stream_composition'] + EX,
    'R03': ['stream', 'stream_map'] + EX,
    'R04': ['stream', 'stream_composition', 'basic_routine', 'stream_reduce', 'stream_call', 'future', 'future_qtype',
            'stream_qtype'] + EX,
    'R05': ['stream', 'basic_routine', 'stream_for', 'stream_while', 'stream_loop_internal', 'stream_qtype'] + EX,
    'R06': ['asio_executor', 'default_asio_executor', 'derived_executor', 'get_default_executor', 'make_executor'] + EX,
    'R07': ['stream', 'future'] + EX,
}
LIBS = ['absl_strings', 'absl_str_format_internal', 'absl_raw_hash_set', 'absl_hash', 'absl_time', 'absl_base',
        'absl_raw_logging_internal', 'absl_throw_delegate', 'absl_city', 'absl_low_level_hash', 'absl_int128']
INC = ['-I' + os.path.join(CC, 'par_mc'), '-I' + os.path.join(CC, 'par'), '-I' + CC, '-I' + core.REPO]
# What the engine must find in cc/par_scn/toy.cc, and where it must stay quiet.
TOY = {'race': 'race', 'norace': None, 'lost': 'property', 'add': None, 'dead': 'stuck', 'uaf': 'race', 'leak': 'leak',
       'publish': 'race', 'publishok': None, 'wake': 'stuck', 'note': None, 'static': None, 'order3': None,
       'stackrace': 'race', 'stdmutex': None, 'stdonce': None, 'abslonce': None, 'stddead': 'stuck',
       'latestatic': None, 'latestatic2': None}


class Unlinked(Exception):
  pass


def compile_all(jobs):
  """jobs: [(source, object, flags)]; returns the errors."""
  def one(job):
    src, obj, flags = job
    if os.path.exists(obj):
      return None
    r = subprocess.run(['g++', '-std=c++20', '-g', '-w', *flags, *INC, '-c', src, '-o', obj],
                       capture_output=True, text=True)
    return f'{src} does not compile: {r.stderr[:1500]}' if r.returncode else None
  with cf.ThreadPoolExecutor(8) as pool:
    return [e for e in pool.map(one, jobs) if e]


def build(scn, sources):
  out = core.scratch('par')
  inst = ['-O1', '-fsanitize=thread']
  jobs = [(os.path.join(CC, 'par_scn', f'{scn}.cc'), os.path.join(out, f'scn_{scn}.o'), inst)]
  for s in sources:
    jobs.append((os.path.join(core.REPO, DIR, s + '.cc'), os.path.join(out, s + '.o'), inst))
  jobs += [(os.path.join(CC, 'par_scn', 'values.cc'), os.path.join(out, 'scn_values.o'), inst),
           (os.path.join(CC, 'par', 'arolla_min.cc'), os.path.join(out, 'am.o'), inst),
           (os.path.join(CC, 'par_mc', 'engine.cc'), os.path.join(out, 'engine.o'), ['-O2'])]
  errs = compile_all(jobs)
  if errs:
    raise core.HarnessError('; '.join(errs))
  exe = os.path.join(out, scn)
  r = subprocess.run(['g++', '-no-pie', '-static-libstdc++', '-static-libgcc', *[j[1] for j in jobs], '-o', exe,
                      *['-l' + x for x in LIBS]], capture_output=True, text=True)
  if r.returncode:
    raise Unlinked('link: ' + r.stderr[-1500:])
  return exe


def scenarios(exe):
  r = subprocess.run([exe, 'list'], capture_output=True, text=True, timeout=60)
  return [(l.rsplit(' ', 1)[0], int(l.rsplit(' ', 1)[1])) for l in r.stdout.splitlines()]


def explore(exe, name, bound, secs):
  """The result of one scenario, or {'error': ...}."""
  try:
    r = subprocess.run([exe, 'run', name, str(bound), str(secs)], capture_output=True, timeout=secs + 120)
  except subprocess.TimeoutExpired:
    return {'scenario': name, 'complete': False, 'late': True}
  try:
    return json.loads(r.stdout.decode('utf-8', 'replace').strip().splitlines()[-1])
  except (ValueError, IndexError):
    return {'scenario': name, 'error': f'exit {r.returncode}: {r.stderr[-500:].decode("utf-8", "replace")}'}


def symbolise(exe, addrs):
  addrs = sorted(set(addrs))
  if not addrs:
    return {}
  r = subprocess.run(['addr2line', '-e', exe, *addrs], capture_output=True, text=True)
  out = {}
  for a, l in zip(addrs, r.stdout.splitlines()):
    l = re.sub(r' \(discriminator.*', '', l).replace(core.REPO + '/', '')
    out[a] = l if '?' not in l else a
  return out


def describe(exe, r, bound):
  trace = r.get('trace') or []
  msg = r.get('message', '')
  sym = symbolise(exe, re.findall(r'0x[0-9a-f]+', msg) + [t[3] for t in trace])
  for a, l in sym.items():
    msg = msg.replace(a, l)
  lines = [f'scenario {r["scenario"]} (at most {bound} preemptions): {r["kind"]}: {msg}',
           '  schedule (thread, event, place):']
  for i, t in enumerate(trace[:120]):
    lines.append(f'    {t[0]} {t[1]}: {t[2]} at {sym.get(t[3], t[3])}')
  if len(trace) > 120:
    lines.append(f'    ... {len(trace) - 120} more')
  return '\n'.join(lines)


def selftest(ctx):
  try:
    exe = build('toy', [])
  except Unlinked as e:
    raise core.HarnessError(str(e))
  names = dict(scenarios(exe))
  with cf.ThreadPoolExecutor(8) as pool:
    for name, r in zip(TOY, pool.map(lambda n: explore(exe, n, names[n], 60), TOY)):
      if r.get('kind') != TOY[name] or (TOY[name] is None and not r.get('complete')):
        raise core.HarnessError(f'the engine failed its self-test {name}: {str(r)[:600]}')
  r = explore(exe, 'order3', 4, 60)
  if r.get('kind') != 'property':
    raise core.HarnessError(f'the engine failed its self-test order3: {str(r)[:600]}')
  ctx.note(engine_selftests=len(TOY) + 1)


def run(ctx, prop, rule):
  selftest(ctx)
  try:
    exe = build(prop.lower(), SRC[prop])
  except Unlinked:
    try:
      exe = build(prop.lower(), ALL)
    except Unlinked as e:
      raise core.HarnessError(str(e))
  names = scenarios(exe)
  if not names:
    raise core.HarnessError('no scenarios')
  secs, deadline = (120, time.time() + 600) if ctx.quick else (900, time.time() + 4 * 3600)
  more = 0 if ctx.quick else 1
  stop = threading.Event()

  def job(nb):
    name, bound = nb
    if stop.is_set():
      return bound, None
    bound += more if bound else 0
    left = deadline - time.time()
    return bound, explore(exe, name, bound, max(2, min(secs, left)))

  errs, skipped, bounds = [], [], {}
  with cf.ThreadPoolExecutor(8) as pool:
    # The long ones last in the list go first: they would be waited for in the end.
    todo = [pool.submit(job, nb) for nb in names]
    try:
      for f in cf.as_completed(todo):
        bound, r = f.result()
        if r is None:
          continue
        if 'error' in r or r.get('kind') == 'engine':
          errs.append(f'{r["scenario"]}: {r.get("error") or r.get("message")}')
          continue
        ctx.traces += r.get('schedules', 0)
        ctx.states += r.get('states', 0)
        ctx.transitions += r.get('steps', 0)
        ctx.add('scenarios')
        ctx.add('schedules', r.get('schedules', 0))
        ctx.add('schedules_cut_at_a_known_state', r.get('cut', 0))
        ctx.add('memory_accesses_checked', r.get('accesses', 0))
        ctx.outcome(r['scenario'])
        if r.get('kind'):
          family = r['scenario'].split('[')[0]
          ctx.violation(f'{family}:{r["kind"]}', describe(exe, r, bound),
                        {'scenario': r['scenario'], 'bound': bound, 'kind': r['kind'], 'message': r.get('message'),
                         'choices': r.get('choices'), 'trace': (r.get('trace') or [])[:400]})
        elif not r.get('complete'):
          skipped.append(r['scenario'])
        else:
          bounds[bound] = bounds.get(bound, 0) + 1
          if r.get('schedules', 0) > 500:
            ctx.sample(f'{r["scenario"]}: {r["schedules"]} schedules, {r["states"]} states, {r["threads"]} threads, at most {bound} preemptions')
    except core.Stop:
      ctx.exhaustive = False
      raise
    finally:
      stop.set()
  ctx.rule = rule
  ctx.note(scenarios_by_preemption_bound={str(k): v for k, v in sorted(bounds.items())})
  if skipped:
    ctx.exhaustive = False
    ctx.note(not_finished_in_time=sorted(skipped)[:40], not_finished=len(skipped))
  if errs and not ctx.violations:
    raise core.HarnessError(f'{len(errs)} scenarios gave no answer: ' + '; '.join(errs[:5]))


ASSUME = [
    'threads interleave at synchronisation (mutexes, atomics, reference counts, thread pools) and the code between is run without interruption, which loses nothing as long as there is no data race; data races between any two accesses of the compiled code are found and reported',
    'atomics are sequentially consistent in what they read; the order they give (acquire, release, relaxed) is honoured in finding races',
    'absl::Mutex, boost::asio::thread_pool and the arolla types are stand-ins (cc/par, cc/par_mc); the 153 tests of koladata/functor/parallel that the stand-ins cover pass with them (tools/validate_parallel.py)',
]


def runner(prop, rule):
  def go(ctx):
    ctx.assumptions = ASSUME
    run(ctx, prop, rule)
  return go


run_r01 = runner('R01', 'every schedule, within the bound on preemptions, of writers and readers of a stream over chunk sizes and types')
run_r02 = runner('R02', 'every schedule of stream composition (chain, interleave, concat and their helpers) over sources that end in every way')
run_r03 = runner('R03', 'every schedule of ordered and unordered map over sources, functors and executors')
run_r04 = runner('R04', 'every schedule of routines, reductions and calls over sources, results, executors, failure and cancellation')
run_r05 = runner('R05', 'every schedule of the for and while loops over sources, bodies, conditions, executors, failure and cancellation')
run_r06 = runner('R06', 'every schedule of tasks on each executor, nested scopes and contexts')
run_r07 = runner('R07', 'every schedule of writers, consumers and readers of a future')
