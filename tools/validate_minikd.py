"""Runs koladata's own storage tests on top of mc/minikd.py.

Usage: python tools/validate_minikd.py [test_module ...] [-- args]
"""
import os, sys, importlib
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import core, minikd
core.setup_imports()
minikd.install()
from absl.testing import absltest

MODS = ['value_presence_util_test', 'stubs_and_minimal_bags_lib_test', 'data_slice_path_test',
        'schema_helper_test', 'test_only_schema_node_name_helper_test',
        'bare_root_initial_data_manager_test', 'composite_initial_data_manager_test',
        'data_bag_manager_test', 'data_slice_manager_test', 'data_slice_manager_view_test',
        'initial_data_manager_registry_test', 'storage_test', 'global_cache_lib_test']
args = sys.argv[1:]
mods = args or MODS
import unittest
class R(unittest.TextTestResult):
  def addError(self, test, err):
    if not isinstance(err[1], Exception):
      err = (RuntimeError, RuntimeError(f'{type(err[1]).__name__}: {err[1]}'), err[2])
    super().addError(test, err)
from absl import flags
flags.FLAGS(['x'])
rc = 0
for m in mods:
  try:
    mod = importlib.import_module('koladata.ext.storage.' + m)
  except BaseException as e:
    print('IMPORT FAILED', m, repr(e)); rc = 1; continue
  suite = unittest.defaultTestLoader.loadTestsFromModule(mod)
  import io
  out = io.StringIO()
  r = unittest.TextTestRunner(stream=out, resultclass=R, verbosity=1).run(suite)
  print(f'{m}: ran {r.testsRun} fail {len(r.failures)} err {len(r.errors)} skip {len(r.skipped)}')
  if os.environ.get('V'):
    print(out.getvalue()[-int(os.environ['V']):])
  else:
    for t, tb in r.failures + r.errors:
      print('   ', t.id().split('.')[-1], '|', tb.strip().splitlines()[-1][:160])
