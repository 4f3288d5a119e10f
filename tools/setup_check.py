"""Nothing needs building ahead of a check; verifies that the tools are there."""
import os
import shutil
import sys

need = ['/opt/venv/bin/python', '/repo/py/koladata']
missing = [p for p in need if not os.path.exists(p)]
missing += [t for t in ('g++', 'node') if not shutil.which(t)]
if missing:
  print('missing:', missing)
  sys.exit(1)
print('ok')
