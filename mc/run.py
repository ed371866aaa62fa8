"""python -m mc.run <id>: runs checks/<id>.py's main(check)."""
import importlib.util
import os
import sys

from mc import core


def main(argv):
  pid = argv[0]
  path = os.path.join(core.VERIF, 'checks', f'{pid.lower()}.py')
  # Checks set up the environment (XLA_FLAGS, stubs) before importing jax.
  spec = importlib.util.spec_from_file_location(f'check_{pid.lower()}', path)
  mod = importlib.util.module_from_spec(spec)
  sys.modules[spec.name] = mod
  check = None
  import logging
  logging.disable(logging.ERROR)
  import absl.logging
  absl.logging.set_verbosity(absl.logging.FATAL)

  def body(c):
    mod.run(c)

  try:
    spec.loader.exec_module(mod)
    check = core.Check(pid, mod.LEVEL, mod.RULE, mod.ASSUMPTIONS)
  except Exception as e:  # pylint: disable=broad-except
    import traceback
    traceback.print_exc()
    if core.from_repo(sys.exc_info()[2]):
      # The code under test does not import: report as violation.
      check = core.Check(pid, getattr(mod, 'LEVEL', 'exploration'))
      check.violations.append({'what': f'import of the code under test failed: {e!r}',
                               'case': None, 'key': None})
      return check.finish()
    return 2
  rc = core.guarded(check, body)
  if check._scratch:
    import shutil
    shutil.rmtree(check._scratch, ignore_errors=True)
  return rc


if __name__ == '__main__':
  rc = main(sys.argv[1:])
  sys.stdout.flush()
  sys.stderr.flush()
  os._exit(rc)
