"""Runs the repository's own C++ tests of koladata/internal on the stand-ins.

They need arolla and cannot run in the repository's build here. Not a check: it
shows how far the stand-ins of cc/ar can be trusted. Takes about 10 minutes.
usage: validate_core.py [NAME...]    (default: every *_test.cc that compiles)
"""
import collections, concurrent.futures, glob, os, re, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from checks import core_lib
REPO = os.environ.get('VERIF_REPO', '/repo')
INT = f'{REPO}/koladata/internal'
RT = '''#include <cstdio>
#include <cstdlib>
#include "verif_fatal.h"
void verif_fatal(const char* w) { fprintf(stderr, "fatal: %s\\n", w); abort(); }
uint64_t verif_unique() { static uint64_t n; return ++n; }
'''


def main():
  tmp = tempfile.mkdtemp(prefix='validate_core')
  try:
    def cc(src, out, *flags):
      return subprocess.run(['timeout', '900', 'g++', '-std=c++20', '-O0', '-w', *flags, f'-I{V}/cc/ar', f'-I{REPO}', '-c', src, '-o', out], capture_output=True, text=True)
    names = [f[len(INT) + 1:-3] for f in glob.glob(INT + '/*.cc') + glob.glob(INT + '/op_utils/*.cc')]
    src = [n for n in names if not re.search('_test$|benchmark', n) and n not in core_lib.NOT]
    tests = sys.argv[1:] or sorted(n for n in names if n.endswith('_test') and n not in ('op_utils/print_test',))
    open(tmp + '/rt.cc', 'w').write(RT)
    with concurrent.futures.ThreadPoolExecutor(6) as ex:
      objs = [f'{tmp}/s{i}.o' for i in range(len(src))]
      for n, r in zip(src, ex.map(lambda p: cc(f'{INT}/{p[0]}.cc', p[1]), zip(src, objs))):
        if r.returncode: print('does not compile:', n)
      objs = [o for o in objs if os.path.exists(o)]
      cc(tmp + '/rt.cc', tmp + '/rt.o')
      r = cc(f'{V}/cc/ar/arolla_ar.cc', tmp + '/arolla_ar.o')
      if r.returncode: print(r.stderr[-2000:])
      subprocess.run(['ar', 'rcs', tmp + '/core.a', *objs], check=True)
      tobj = {n: f'{tmp}/t{i}.o' for i, n in enumerate(tests)}
      res = dict(zip(tests, ex.map(lambda n: cc(f'{INT}/{n}.cc', tobj[n], '-include', 'absl/status/status_matchers.h'), tests)))
    absl = ['-l' + os.path.basename(f)[3:-2] for f in glob.glob('/usr/lib/x86_64-linux-gnu/libabsl_*.a') if 'flags_parse' not in f]
    total = collections.Counter()

    def run(n):
      if res[n].returncode: return n, 'does not compile', None
      exe = tobj[n][:-2]
      r = subprocess.run(['g++', tobj[n], tmp + '/rt.o', tmp + '/arolla_ar.o', '-Wl,--whole-archive', tmp + '/core.a', '-Wl,--no-whole-archive', '-o', exe, '-lgtest', '-lgmock', '-lgtest_main', '-Wl,--start-group', *absl, '-Wl,--end-group', '-licuuc', '-lpthread'], capture_output=True, text=True)
      if r.returncode:
        return n, 'does not link: ' + ' '.join(l for l in r.stderr.splitlines() if 'undefined' in l)[-200:], None
      r = subprocess.run(['timeout', '600', exe], capture_output=True, text=True, cwd=tmp)
      os.remove(exe)
      c = collections.Counter()
      c['passed'] = len(re.findall(r'^\[       OK \]', r.stdout, re.M))
      fails = re.findall(r'^\[  FAILED  \] (\S+) \(', r.stdout, re.M) or re.findall(r'^\[  FAILED  \] (\S+),', r.stdout, re.M)
      c['failed'] = len(set(fails)); c['skipped'] = len(set(re.findall(r'^\[  SKIPPED \] (\S+) \(', r.stdout, re.M)))
      return n, f'{c["passed"]} passed, {c["failed"]} failed, {c["skipped"]} skipped {"" if r.returncode in (0, 1) else "(crashed)"}' + ''.join('\n    ' + f for f in sorted(set(fails))), c
    with concurrent.futures.ThreadPoolExecutor(6) as ex:
      for n, text, c in ex.map(run, tests):
        print(f'{n}: {text}', flush=True)
        total.update(c or {'not run': 1})
    print(dict(total))
  finally:
    shutil.rmtree(tmp)


if __name__ == '__main__':
  main()
