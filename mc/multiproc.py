"""Runs a function in several real JAX processes (jax.distributed, loopback).

launch(groups): groups = list of dicts(n=processes, ndev=devices each,
file=check file, fn=function name, arg=picklable). Every group runs at the same
time with its own coordinator. Each process writes a pickle with the Check-like
result; results are returned in order.
"""
import os
import pickle
import socket
import subprocess
import sys
import time

from mc import core


def free_port():
  s = socket.socket()
  s.bind(('127.0.0.1', 0))
  p = s.getsockname()[1]
  s.close()
  return p


def _run_group(check, g, tag, timeout):
  port = free_port()
  d = check.scratch()
  procs = []
  argf = os.path.join(d, f'{tag}.arg')
  with open(argf, 'wb') as fp:
    pickle.dump(g['arg'], fp)
  for p in range(g['n']):
    out = os.path.join(d, f'{tag}.{p}.out')
    log = open(os.path.join(d, f'{tag}.{p}.log'), 'wb')
    cmd = [sys.executable, '-m', 'mc.multiproc', g['file'], g['fn'], str(p),
           str(g['n']), str(port), str(g['ndev']), argf, out, check.pid]
    procs.append((subprocess.Popen(cmd, stdout=log, stderr=log, cwd=core.VERIF), out,
                  log.name))
  return procs


def launch(check, groups, timeout=240, retries=1):
  """Merges results into check; raises Violation on the first violation."""
  pending = list(enumerate(groups))
  for attempt in range(retries + 1):
    running = [(i, g, _run_group(check, g, f'j{getattr(check, "job", 0)}g{i}a{attempt}', timeout))
               for i, g in pending]
    deadline = time.time() + timeout
    failed = []
    for i, g, procs in running:
      for proc, out, log in procs:
        try:
          proc.wait(max(1, deadline - time.time()))
        except subprocess.TimeoutExpired:
          pass
      hung = [p for p, _, _ in procs if p.poll() is None]
      for p in hung:
        p.kill()
        p.wait()
      results = []
      for p, out, log in procs:
        if os.path.exists(out):
          with open(out, 'rb') as fp:
            results.append(pickle.load(fp))
      # A violation found by some process is final (the other processes may be
      # stuck in a collective because of it).
      vio = [v for r in results for v in r['violations']]
      if vio:
        check.violations.append(vio[0])
        raise core.Violation(vio[0]['what'])
      if len(results) < len(procs) or any(r['error'] for r in results):
        failed.append((i, g, procs, bool(hung), results))
        continue
      for r in results:
        for k, v in r['counts'].items():
          check.count(k, v)
        check.distinct |= r['distinct']
        check.states |= r['states']
        for x in r['samples']:
          check.sample_raw(x)
    if not failed:
      return
    pending = [(i, g) for i, g, *_ in failed]
  i, g, procs, hung, results = failed[0]
  logs = ''
  for _, out, log in procs:
    logs += open(log, errors='replace').read()[-3000:]
  for r in results:
    logs += r['error'] or ''
  if hung and not any(r['error'] for r in results):
    check.violations.append({
        'what': f'the processes deadlock (twice, after {timeout} s)',
        'case': core.jsonable(g['arg']), 'key': None, 'log': logs[-3000:]})
    raise core.Violation('deadlock')
  raise core.HarnessError('multi-process group failed:\n' + logs)


def main(argv):
  file, fn, p, n, port, ndev, argf, out, pid = argv
  os.environ['XLA_FLAGS'] = f'--xla_force_host_platform_device_count={ndev}'
  os.environ['MC_MULTIPROC'] = '1'
  import importlib.util
  import logging
  import traceback
  import jax
  jax.config.update('jax_cpu_collectives_implementation', 'gloo')
  if int(n) > 1:
    jax.distributed.initialize(f'127.0.0.1:{port}', int(n), int(p))
  spec = importlib.util.spec_from_file_location('check_mod', file)
  mod = importlib.util.module_from_spec(spec)
  sys.modules['check_mod'] = mod
  spec.loader.exec_module(mod)
  logging.disable(logging.ERROR)
  with open(argf, 'rb') as fp:
    arg = pickle.load(fp)
  c = core.Check(pid, 'exploration')
  error = None
  try:
    getattr(mod, fn)(c, arg)
  except core.Violation:
    pass
  except Exception as e:  # pylint: disable=broad-except
    if core.from_repo(sys.exc_info()[2]):
      c.violations.append({
          'what': f'process {p}: unexpected {type(e).__name__}: {str(e)[:500]}',
          'case': core.jsonable(c.context), 'key': None,
          'traceback': traceback.format_exc()[-4000:]})
    else:
      error = traceback.format_exc()
  with open(out + '.tmp', 'wb') as fp:
    pickle.dump({'violations': c.violations, 'error': error, 'counts': c.counts,
                 'distinct': c.distinct, 'states': c.states,
                 'samples': c.samples}, fp)
  os.rename(out + '.tmp', out)
  if c.violations or error:
    os._exit(1)
  if int(n) > 1:
    try:
      jax.distributed.shutdown()
    except Exception:  # pylint: disable=broad-except
      pass
  os._exit(0)


if __name__ == '__main__':
  main(sys.argv[1:])
