#!/opt/venv/bin/python
"""Applies each planted bug to /repo, confirms it (build, stable tests, demo) and
runs the check of its property.  usage: seedtest.py [--nodemo] [id ...]"""
import json, os, subprocess, sys, time
R = '/repo'
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(cmd, cwd=R, timeout=1200):
  r = subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, timeout=timeout)
  return r.returncode, r.stdout + r.stderr


def tests_ok():
  rc, out = sh('bash /opt/vp/build.sh')
  if rc:
    return 'build failed: ' + out[-500:]
  sh('bash /opt/vp/test.sh /tmp/seedtest_out.json')
  d = json.load(open('/tmp/seedtest_out.json'))
  base = json.load(open('/opt/vp/BASELINE.json'))['stable']
  passed = set(d.get('passed', []))
  bad = [t for t in base if t not in passed]
  return 'tests fail: %s' % bad[:3] if bad else None


args = [a for a in sys.argv[1:] if not a.startswith('--')]
nodemo = '--nodemo' in sys.argv
ids = args or sorted(os.listdir(V + '/seeded'))
assert not sh('git status --porcelain')[1].strip(), 'repo dirty'
for i in ids:
  d = f'{V}/seeded/{i}'
  meta = json.load(open(d + '/meta.json'))
  prop = meta['property']
  msgs = []
  if not nodemo:
    rc, out = sh(f'bash {d}/demo.sh')
    if rc:
      msgs.append(f'DEMO-FAILS-ON-CLEAN rc={rc} {out[-600:]}')
  rc, out = sh(f'git apply {d}/patch.diff')
  if rc:
    print(i, 'DOES NOT APPLY', out)
    continue
  try:
    if not nodemo:
      t = tests_ok()
      if t:
        msgs.append(t)
      rc, out = sh(f'bash {d}/demo.sh')
      if rc == 0:
        msgs.append('DEMO-PASSES-WITH-BUG ' + out[-300:])
    t0 = time.time()
    rc, out = sh(f'/opt/venv/bin/python run.py {prop} quick', cwd=V)
    caught = rc == 1 and f'VIOLATION property={prop} ' in out
    if not caught:
      msgs.append(f'check rc={rc}: {out[-700:]}')
    first = next((l for l in out.splitlines() if l.startswith('-- ')), '')
    rp = V + '/tools/seed_results.json'
    res = json.load(open(rp)) if os.path.exists(rp) else {}
    res[i] = {'check': prop, 'caught': caught, 'first': first[3:200]}
    json.dump(dict(sorted(res.items())), open(rp, 'w'), indent=1, ensure_ascii=False)
    print(f'{i}: property={prop} {"CAUGHT" if caught else "MISSED"} {time.time()-t0:.1f}s {"; ".join(msgs)} {first[:200]}', flush=True)
  finally:
    sh('git checkout -- .')
sh('bash /opt/vp/build.sh')
