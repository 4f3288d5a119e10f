"""mkseed(id, prop, [(file, old, new)...], needs, breaks, demo_py|demo files)."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PYSH = '''#!/bin/bash
# Runs beside demo.py with the tree in the current directory (/repo).
here="$(cd "$(dirname "$0")" && pwd)"
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
INC=$(/opt/venv/bin/python -c "import grpc_tools,os;print(os.path.join(os.path.dirname(grpc_tools.__file__),'_proto'))")
/opt/venv/bin/python -m grpc_tools.protoc -I. -I"$INC" --python_out="$T" $(find py koladata -name '*.proto' ! -name codec.proto) >/dev/null 2>&1
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD/py:$T/py:$T" exec_timeout=100 timeout 120 /opt/venv/bin/python -B "$here/demo.py"
exit $?
'''


def mk(id, prop, edits, needs, breaks, demo=None, sh=None, files=None):
  d = f'{V}/seeded/{id}'
  os.makedirs(d, exist_ok=True)
  by = {}
  for f, old, new in edits:
    p = '/repo/' + f
    s = by.get(p) or open(p).read()
    assert s.count(old) == 1, (id, f, s.count(old))
    by[p] = s.replace(old, new)
  orig = {p: open(p).read() for p in by}
  try:
    for p, s in by.items():
      open(p, 'w').write(s)
    diff = subprocess.run(['git', 'diff'], cwd='/repo', capture_output=True, text=True).stdout
  finally:
    for p, s in orig.items():
      open(p, 'w').write(s)
  open(d + '/patch.diff', 'w').write(diff)
  json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
  open(d + '/demo.sh', 'w').write(sh or PYSH)
  if demo:
    open(d + '/demo.py', 'w').write(demo)
  for n, t in (files or {}).items():
    os.makedirs(os.path.dirname(f'{d}/{n}'), exist_ok=True)
    open(f'{d}/{n}', 'w').write(t)


KDSH = PYSH.replace('PYTHONDONTWRITEBYTECODE=1', 'VERIF_REPO="$PWD" PYTHONDONTWRITEBYTECODE=1')
PRELUDE = '''import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mc import core, memfs
core.setup_imports()
from mc import minikd
memfs.install_pools()
kd = minikd.install()
memfs.install_uuids()
Fs = memfs.make_fs_class()
'''


def mkkd(id, prop, edits, needs, breaks, demo):
  """A seed whose demo needs the kd stand-in and the modelled file system."""
  files = {f'mc/{n}.py': open(f'{V}/mc/{n}.py').read() for n in ('__init__', 'core', 'memfs', 'minikd', 'sched')}
  mk(id, prop, edits, needs, breaks, PRELUDE + demo, sh=KDSH, files=files)


CXXSH = '''#!/bin/bash
# Compiles %(src)s of the tree in the current directory with demo.cc.
here="$(cd "$(dirname "$0")" && pwd)"
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
g++ -std=c++20 -O1 -w -I"$here/shim" -I. %(flags)s "$here/demo.cc" %(src)s -o "$T/demo" %(libs)s -lpthread || exit 2
timeout 120 "$T/demo"
exit $?
'''


def mkcxx(id, prop, edits, needs, breaks, demo, src, libs, flags='', shim=('absl/log/check.h',)):
  """A seed whose demo is a C++ program around sources of the tree."""
  files = {f'shim/{n}': open(f'{V}/cc/shim/{n}').read() for n in shim}
  files['demo.cc'] = demo
  mk(id, prop, edits, needs, breaks, files=files,
     sh=CXXSH % dict(src=' '.join(src), libs=' '.join('-l' + x for x in libs), flags=flags))


PARSH = '''#!/bin/bash
# Runs demo.cc with %(src)s of the tree in the current directory under every
# schedule (within a bound), with the engine beside this file.
here="$(cd "$(dirname "$0")" && pwd)"
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
I="-std=c++20 -g -w -I$here/cc/par_mc -I$here/cc/par -I$here/cc -I$here -I$PWD"
for f in %(src)s "$here/demo.cc" "$here/values.cc" "$here/cc/par/arolla_min.cc"; do
  g++ $I -O1 -fsanitize=thread -c "$f" -o "$T/$(basename "$f" .cc).o" || touch "$T/bad" &
done
g++ $I -O2 -c "$here/cc/par_mc/engine.cc" -o "$T/engine.o" || touch "$T/bad" &
wait
[ -e "$T/bad" ] && exit 2
g++ -no-pie -static-libstdc++ -static-libgcc "$T"/*.o -o "$T/demo" %(libs)s || exit 2
rc=0
while read -r name bound; do
  timeout 100 "$T/demo" run "$name" -1 > "$T/out" || exit 2
  cut -c1-600 "$T/out"
  grep -q '"complete": true' "$T/out" || rc=1
done < <("$T/demo" list)
exit $rc
'''


def mkpar(id, prop, edits, needs, breaks, demo, src):
  """A seed whose demo explores schedules: demo.cc registers scenarios."""
  files = {}
  for top in ('par', 'par_mc'):
    for d, _, names in os.walk(f'{V}/cc/{top}'):
      for n in names:
        p = os.path.join(d, n)
        files['cc/' + os.path.relpath(p, f'{V}/cc')] = open(p).read()
  for n in ('common.h', 'values.cc'):
    files[n] = open(f'{V}/cc/par_scn/{n}').read()
  files['demo.cc'] = demo
  libs = ('absl_strings absl_str_format_internal absl_raw_hash_set absl_hash absl_time absl_base '
          'absl_raw_logging_internal absl_throw_delegate absl_city absl_low_level_hash absl_int128')
  src = ['stream', 'eager_executor', 'executor'] + list(src)
  mk(id, prop, edits, needs, breaks, files=files,
     sh=PARSH % dict(src=' '.join(f'koladata/functor/parallel/{s}.cc' for s in src), libs=' '.join('-l' + x for x in libs.split())))


CORESH = '''#!/bin/bash
# Compiles demo.cc with the data bag core of the tree in the current directory
# (against the stand-ins beside this file) and runs it.
here="$(cd "$(dirname "$0")" && pwd)"
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
one() { g++ -std=c++20 -w -O0 -I"$here/cc/ar" -I"$PWD" -I"$here/cc/core" -c "$1" -o "$T/$(echo "$1" | tr / _).o" || touch "$T/bad"; }
export -f one; export here T
printf '%%s\\n' "$here/demo.cc" "$here/cc/ar/arolla_ar.cc" %(src)s | xargs -P 8 -I{} bash -c 'one {}'
[ -e "$T/bad" ] && exit 2
libs=$(ls /usr/lib/x86_64-linux-gnu/libabsl_*.a | grep -v flags_parse | sed 's,.*/lib,-l,; s,\\.a$,,')
g++ "$T"/*.o -o "$T/demo" -Wl,--start-group $libs -Wl,--end-group -licuuc -lpthread || exit 2
timeout 100 "$T/demo" run demo 0 0 1 60
exit $?
'''


def mkcore(id, prop, edits, needs, breaks, body, src=None, pre=''):
  """A seed whose demo is a program over koladata/internal: `body` calls Fail, Eq."""
  import sys
  sys.path.insert(0, V)
  from checks import core_lib
  files = {}
  for d, _, names in os.walk(f'{V}/cc/ar'):
    for n in names:
      p = os.path.join(d, n)
      files['cc/' + os.path.relpath(p, f'{V}/cc')] = open(p).read()
  for n in ('drv.h', 'bag.h'):
    files['cc/core/' + n] = open(f'{V}/cc/core/{n}').read()
  files['demo.cc'] = '#include "bag.h"\n' + pre + 'namespace drv {\nstatic void Demo(const std::vector<int>&, std::string*) {\n' + body + '\n}\nstd::vector<Shard> Families() { return {{"demo", {}, 0, Demo}}; }\n}\n'
  src = [s for s in core_lib.BAG + list(src or []) if os.path.exists(f'/repo/koladata/internal/{s}.cc')]
  mk(id, prop, edits, needs, breaks, files=files, sh=CORESH % dict(src=' '.join(f'koladata/internal/{s}.cc' for s in src)))
