"""Common runtime of the checks: scratch space, import set-up, evidence, verdicts.

A check is a module checks/<name>.py with `run(ctx)`.  It explores a bounded
space exhaustively and calls ctx.violation(...) for a property violation.

Verdict rules
  * exit 0: everything explored satisfied the property (known findings, listed
    in known_findings.json, are printed as KNOWN-FINDING lines).
  * exit 1: at least one violation that is not listed.
  * exit 3: the check itself could not decide (a shim gap, a tool failure).
"""

import atexit
import dataclasses
import hashlib
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
PY = '/opt/venv/bin/python'
MAX_REPORTED = 5


class HarnessError(Exception):
  """The check cannot decide; not a verdict about the code."""


class ShimGap(BaseException):
  """The code under test used something the harness does not model."""


def blame(e):
  """True if the exception was raised by the code under test (not by us)."""
  last = None
  tb = e.__traceback__
  while tb is not None:
    f = tb.tb_frame.f_code.co_filename
    if f.startswith(REPO + '/'):
      last = 'repo'
    elif f.startswith(VERIF + '/'):
      last = 'verif'
    tb = tb.tb_next
  return last == 'repo'


def handle(ctx, e):
  """Turns an exception that escaped a check into a verdict, or returns text."""
  if isinstance(e, Stop):
    ctx.exhaustive = False
    return None
  if isinstance(e, Exception) and not isinstance(e, HarnessError) and blame(e):
    try:
      ctx.violation('unexpected-exception:' + type(e).__name__,
                    'the code under test raised unexpectedly:\n' + exc_text(e),
                    {'exception': exc_text(e)})
    except Stop:
      pass
    ctx.exhaustive = False
    return None
  ctx.exhaustive = False
  return exc_text(e)


class Hang(Exception):
  """A job ran for many times its usual time."""


JOB_LIMIT_S = 420


class Stop(Exception):
  """Enough violations were found; stop exploring."""


class Ctx:

  def __init__(self, prop, level, tier=None, seed=None):
    self.prop = prop
    self.level = level
    self.tier = tier or os.environ.get('VERIF_TIER', 'quick')
    if self.tier not in ('quick', 'thorough'):
      self.tier = 'quick'
    self.seed = int(seed if seed is not None else os.environ.get('VERIF_SEED', '1') or 1)
    self.quick = self.tier == 'quick'
    self.states = 0
    self.transitions = 0
    self.traces = 0
    self.evaluations = 0
    self.distinct = 0
    self.samples = []
    self.extra = {}
    self.assumptions = []
    self.rule = ''
    self.exhaustive = True
    self.violations = []
    self.known_hits = {}
    self.t0 = time.time()
    self._outcomes = set()
    self._known = load_known(prop)

  # -- scratch ------------------------------------------------------------
  def scratch(self, name):
    return scratch(name)

  # -- coverage -----------------------------------------------------------
  def sample(self, s, limit=6):
    if len(self.samples) < limit:
      self.samples.append(s)

  def outcome(self, o):
    if len(self._outcomes) < 2_000_000:
      self._outcomes.add(o if isinstance(o, (str, int)) else repr(o))

  def note(self, **kw):
    self.extra.update(kw)

  def add(self, key, n=1):
    self.extra[key] = self.extra.get(key, 0) + n

  # -- verdicts -----------------------------------------------------------
  def violation(self, key, what, replay=None):
    """Reports a violation.

    key: a stable identification of what fails (matched against known findings)
    what: human readable explanation
    replay: JSON-able data that reproduces it
    """
    for k in self._known:
      if k.get('kind') == 'known' and k['key'] == key:
        self.known_hits.setdefault(key, k['what'])
        return
    if any(v['key'] == key for v in self.violations):
      return
    self.violations.append({'key': key, 'what': what, 'replay': replay})
    if len(self.violations) >= MAX_REPORTED:
      raise Stop()

  def finish(self):
    for key, what in sorted(self.known_hits.items()):
      print(f'KNOWN-FINDING: property={self.prop} {what}')
    rc = 0
    if self.violations:
      rc = 1
      d = os.path.join(VERIF, 'evidence', 'replay')
      os.makedirs(d, exist_ok=True)
      for i, v in enumerate(self.violations):
        p = os.path.join(d, f'{self.prop}-{i}.json')
        with open(p, 'w') as f:
          json.dump({'property': self.prop, **v}, f, indent=1, default=repr)
        print(f'-- {self.prop}: {v["what"]}'[:4000])
        print(f'VIOLATION property={self.prop} replay={p}')
    self.write_evidence()
    c = self.coverage()
    print(
        f'{self.prop} {self.tier}: '
        + ' '.join(f'{k}={v}' for k, v in c.items() if isinstance(v, int))
        + f' wall={time.time() - self.t0:.1f}s rc={rc}'
    )
    return rc

  def coverage(self):
    c = {}
    if self.level == 'model_checking':
      c['states'] = self.states
      c['transitions'] = self.transitions
      c['traces_validated_against_impl'] = self.traces
    else:
      c['evaluations'] = self.evaluations
      c['distinct_nontrivial'] = self.distinct or len(self._outcomes)
    if self.rule:
      c['rule'] = self.rule
    c['distinct_outcomes'] = len(self._outcomes)
    c['samples'] = self.samples
    c['exhaustive'] = self.exhaustive
    c.update(self.extra)
    return c

  def write_evidence(self):
    ev = {
        'property': self.prop,
        'tier': self.tier,
        'seed': self.seed,
        'level': self.level,
        'coverage': self.coverage(),
        'assumptions': self.assumptions,
        'wall_s': round(time.time() - self.t0, 3),
        'violations': len(self.violations),
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    p = os.path.join(VERIF, 'evidence', f'{self.prop}.json')
    with open(p + '.tmp', 'w') as f:
      json.dump(ev, f, indent=1, default=repr)
    os.replace(p + '.tmp', p)


def load_known(prop):
  p = os.path.join(VERIF, 'known_findings.json')
  if not os.path.exists(p):
    return []
  with open(p) as f:
    return [k for k in json.load(f)['findings'] if k['property'] == prop]


_SCRATCH = None


def scratch_root():
  global _SCRATCH
  if _SCRATCH is None:
    base = '/dev/shm' if os.access('/dev/shm', os.W_OK) else None
    _SCRATCH = tempfile.mkdtemp(prefix='verif_', dir=base)
    pid = os.getpid()

    def clean():
      if os.getpid() == pid:
        shutil.rmtree(_SCRATCH, ignore_errors=True)

    atexit.register(clean)
  return _SCRATCH


def scratch(name):
  d = os.path.join(scratch_root(), name)
  os.makedirs(d, exist_ok=True)
  return d


def gen_protos():
  """Generates the python protos of the current tree into the scratch dir."""
  out = scratch('gen')
  protos = []
  for top in ('koladata', 'py'):
    for d, dirs, files in os.walk(os.path.join(REPO, top)):
      dirs.sort()
      for f in sorted(files):
        if f.endswith('.proto'):
          rel = os.path.relpath(os.path.join(d, f), REPO)
          if rel != 'koladata/s11n/codec.proto':
            protos.append(rel)
  import grpc_tools

  inc = os.path.join(os.path.dirname(grpc_tools.__file__), '_proto')
  r = subprocess.run(
      [sys.executable, '-m', 'grpc_tools.protoc', '-I.', f'-I{inc}',
       f'--python_out={out}', *protos],
      cwd=REPO, capture_output=True, text=True)
  if r.returncode:
    raise HarnessError('protoc failed: ' + r.stderr[-2000:])
  return out


def setup_imports():
  """Makes `koladata` importable from the current tree (+ generated protos)."""
  sys.dont_write_bytecode = True
  out = gen_protos()
  for p in (os.path.join(REPO, 'py'), os.path.join(out, 'py'), out):
    if p not in sys.path:
      sys.path.insert(0, p)
  # koladata is a namespace-like package split between the two roots.
  import pkgutil  # noqa
  return out


def short(x, n=300):
  s = x if isinstance(x, str) else repr(x)
  return s if len(s) <= n else s[:n] + '...'


def digest(x):
  return hashlib.sha1(repr(x).encode()).hexdigest()[:12]


def exc_text(e):
  return ''.join(traceback.format_exception(e))[-3000:]


# -- parallel exploration ---------------------------------------------------
_PAR = {}


def _par_job(i):
  fn, ctx, jobs = _PAR['x']
  sub = Ctx(ctx.prop, ctx.level, ctx.tier, ctx.seed)
  err = None

  def late(*_):
    raise Hang(f'no end after {JOB_LIMIT_S} s')

  if sub.quick:
    signal.signal(signal.SIGALRM, late)
    signal.alarm(JOB_LIMIT_S)
  try:
    fn(sub, jobs[i])
  except (Exception, ShimGap) as e:
    err = handle(sub, e)
  finally:
    signal.alarm(0)
  return dict(states=sub.states, transitions=sub.transitions, traces=sub.traces,
              evaluations=sub.evaluations, distinct=sub.distinct,
              samples=sub.samples, extra=sub.extra, exhaustive=sub.exhaustive,
              violations=sub.violations, known=sub.known_hits,
              outcomes=sub._outcomes, err=err)


def parallel(ctx, fn, jobs, workers=8):
  """Runs fn(subctx, job) for every job in forked workers and merges results."""
  import multiprocessing as mp

  scratch_root()
  _PAR['x'] = (fn, ctx, jobs)
  errs = []
  with mp.get_context('fork').Pool(min(workers, max(1, len(jobs)))) as pool:
    for r in pool.imap_unordered(_par_job, range(len(jobs)), chunksize=1):
      ctx.states += r['states']
      ctx.transitions += r['transitions']
      ctx.traces += r['traces']
      ctx.evaluations += r['evaluations']
      ctx.distinct += r['distinct']
      for s in r['samples']:
        ctx.sample(s)
      for k, v in r['extra'].items():
        if isinstance(v, bool) or not isinstance(v, int):
          ctx.extra[k] = v
        elif k.startswith('max_'):
          ctx.extra[k] = max(ctx.extra.get(k, 0), v)
        else:
          ctx.extra[k] = ctx.extra.get(k, 0) + v
      ctx.exhaustive &= r['exhaustive']
      ctx._outcomes |= r['outcomes']
      ctx.known_hits.update(r['known'])
      if r['err']:
        errs.append(r['err'])
      for v in r['violations']:
        ctx.violation(v['key'], v['what'], v['replay'])
  if errs:
    raise HarnessError('; '.join(errs[:3]))
