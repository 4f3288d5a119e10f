#!/opt/venv/bin/python
"""Runs one check: run.py <PROPERTY-ID> [quick|thorough]."""
import faulthandler
import importlib
import os
import sys

os.environ.setdefault('PYTHONDONTWRITEBYTECODE', '1')
if os.environ.get('PYTHONHASHSEED') != '0' or os.environ.get('TZ') != 'UTC':
  os.environ['PYTHONHASHSEED'] = '0'
  os.environ['TZ'] = 'UTC'
  os.execv('/opt/venv/bin/python', ['/opt/venv/bin/python', '-B', *sys.argv])
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
faulthandler.enable()

from mc import core  # noqa: E402
from mc import registry  # noqa: E402


def main():
  prop = sys.argv[1]
  if len(sys.argv) > 2:
    os.environ['VERIF_TIER'] = sys.argv[2]
  modname, fn, level = registry.CHECKS[prop]
  ctx = core.Ctx(prop, level)
  try:
    mod = importlib.import_module('checks.' + modname)
    getattr(mod, fn)(ctx)
  except (Exception, core.ShimGap) as e:
    err = core.handle(ctx, e)
    if err is not None and not ctx.violations:
      print(f'HARNESS-ERROR property={prop}: {err}')
      ctx.write_evidence()
      return 3
  return ctx.finish()


if __name__ == '__main__':
  rc = main()
  sys.stdout.flush()
  core.atexit._run_exitfuncs()
  os._exit(rc)
