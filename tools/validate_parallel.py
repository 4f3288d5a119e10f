"""Runs the repository's own tests of koladata/functor/parallel on the stand-ins.

With real threads (cc/par_real instead of cc/par_mc).  Usage: validate_parallel.py
"""
import os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import core
sys.path.insert(0, core.VERIF)
from checks import parallel as P

out = core.scratch('par_tests')
inc = ['-I' + os.path.join(P.CC, 'par_real'), '-I' + os.path.join(P.CC, 'par'), '-I' + core.REPO]
P.INC[:] = inc
src = [(s, s + '.o') for s in P.ALL] + [(s + '_test', s + '_test.o') for s in P.ALL + ['context_guard']]
jobs = [(os.path.join(core.REPO, P.DIR, s + '.cc'), os.path.join(out, o), ['-O1']) for s, o in src]
jobs = [j for j in jobs if os.path.exists(j[0])]
jobs += [(os.path.join(P.CC, 'par', 'arolla_min.cc'), os.path.join(out, 'am.o'), ['-O1']),
         (os.path.join(P.CC, 'par_real', 'real_rt.cc'), os.path.join(out, 'rt.o'), ['-O1'])]
errs = P.compile_all(jobs)
if errs:
  sys.exit('\n'.join(errs))
libs = P.LIBS + ['absl_random_distributions', 'absl_random_seed_sequences', 'absl_random_internal_pool_urbg',
                 'absl_random_internal_randen', 'absl_random_internal_randen_hwaes',
                 'absl_random_internal_randen_hwaes_impl', 'absl_random_internal_randen_slow',
                 'absl_random_internal_platform', 'absl_random_internal_seed_material',
                 'absl_random_seed_gen_exception']
objs = [j[1] for j in jobs]
r = subprocess.run(['g++', *objs, '-o', out + '/all', '-lgtest', '-lgmock', '-lgtest_main', '-Wl,--start-group',
                    *['-l' + x for x in libs], '-Wl,--end-group', '-lpthread'])
if r.returncode:
  sys.exit(1)
sys.exit(subprocess.run([out + '/all', '--gtest_brief=1'] + sys.argv[1:], timeout=600).returncode)
