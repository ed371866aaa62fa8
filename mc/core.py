"""Shared harness: counting, violations, evidence, known findings.

Outcome protocol (see MANIFEST): exit 0 = property held on everything explored,
exit 1 + "VIOLATION property=<id> replay=<path>" = broken, exit 2 = the check
itself failed (harness error).
"""
import json
import os
import shutil
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')  # Only development runs set it.


class Violation(Exception):
  """Raised to stop the exploration at the first (simplest) counterexample."""


class HarnessError(Exception):
  """Something is wrong with the check, not with the code under test."""


def jsonable(x, depth=0):
  import numpy as np
  if depth > 8:
    return repr(x)
  if isinstance(x, dict):
    return {str(k): jsonable(v, depth + 1) for k, v in x.items()}
  if isinstance(x, (list, tuple, set, frozenset)):
    return [jsonable(v, depth + 1) for v in x]
  if isinstance(x, (str, int, float, bool)) or x is None:
    return x
  if isinstance(x, np.generic):
    return x.item() if x.dtype.kind in 'biuf' else repr(x)
  if hasattr(x, '__array__'):
    a = np.asarray(x)
    return a.tolist() if a.size <= 256 and a.dtype.kind in 'biuf' else repr(a)
  return repr(x)


class Check:
  """State of one run of one property's check."""

  def __init__(self, pid, level, rule='', assumptions=()):
    self.pid = pid
    self.level = level
    self.rule = rule
    self.assumptions = list(assumptions)
    self.tier = os.environ.get('VERIF_TIER', 'quick')
    if self.tier not in ('quick', 'thorough'):
      self.tier = 'quick'
    self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    self.t0 = time.time()
    self.counts = {}
    self.distinct = set()
    self.states = set()
    self.samples = []
    self.violations = []
    self.known = load_known(pid)
    self.known_hit = {}
    self.exhaustive = True
    self._scratch = None
    self.context = None

  @property
  def thorough(self):
    return self.tier == 'thorough'

  def q(self, quick, thorough):
    return thorough if self.thorough else quick

  # ---- counting -----------------------------------------------------------
  def count(self, name, n=1):
    self.counts[name] = self.counts.get(name, 0) + n

  def case(self, key=None, n=1):
    """Counts one execution of the real code; key marks distinct non-trivial."""
    self.count('evaluations', n)
    if key is not None:
      self.distinct.add(key)

  def state(self, key):
    """Records a visited (canonical) state; True if it is new."""
    if key in self.states:
      return False
    self.states.add(key)
    return True

  def transition(self, n=1):
    self.count('transitions', n)

  def trace(self, n=1):
    """One complete model trace replayed against the implementation."""
    self.count('traces', n)

  def sample(self, obj, limit=4):
    if len(self.samples) < limit:
      self.samples.append(jsonable(obj))

  # ---- scratch ------------------------------------------------------------
  def scratch(self):
    if self._scratch is None:
      base = '/dev/shm' if os.access('/dev/shm', os.W_OK) else None
      self._scratch = tempfile.mkdtemp(prefix=f'verif_{self.pid}_', dir=base)
    return self._scratch

  # ---- verdicts -----------------------------------------------------------
  def fail(self, what, case=None, key=None):
    """Reports a violation, unless listed as a known finding."""
    for k in self.known:
      if k.get('status') == 'known' and key is not None and k.get('key') == key:
        self.known_hit[key] = k
        return
    self.violations.append({'what': what, 'case': jsonable(case), 'key': key})
    raise Violation(what)

  def require(self, cond, what, case=None, key=None):
    if not cond:
      self.fail(what() if callable(what) else what,
                case() if callable(case) else case, key)

  # ---- parallel exploration -------------------------------------------------
  def parallel(self, jobs, fn, workers=None):
    """Runs fn(self, job) for every job over forked workers and merges counts.

    Must be called before any JAX computation happened in this process (forking
    an initialized XLA client is not safe). Jobs are taken in order by idle workers (put long ones first); every
    worker stops at its first violation, and the one of the smallest job index
    is reported.
    """
    import pickle
    jobs = list(jobs)
    workers = min(workers or min(8, os.cpu_count() or 1), len(jobs))
    d = self.scratch()
    pids = []
    import multiprocessing
    ticket = multiprocessing.get_context('fork').Value('i', 0)

    def take():
      with ticket.get_lock():
        ticket.value += 1
        return ticket.value - 1
    sys.stdout.flush()
    sys.stderr.flush()
    for w in range(workers):
      out = os.path.join(d, f'worker{w}.pkl')
      pid = os.fork()
      if pid == 0:
        res = {'error': None, 'vjob': None}
        try:
          while (i := take()) < len(jobs):
            self.job = i
            self.context = None
            try:
              fn(self, jobs[i])
            except Violation:
              res['vjob'] = i
              break
            except HarnessError:
              raise
            except Exception as e:  # pylint: disable=broad-except
              if not blames_repo(e):
                raise
              self.violations.append({
                  'what': f'unexpected {type(e).__name__}: {str(e)[:500]}',
                  'case': jsonable(self.context), 'key': None,
                  'traceback': traceback.format_exc()[-4000:]})
              res['vjob'] = i
              break
        except BaseException:  # pylint: disable=broad-except
          res['error'] = traceback.format_exc()
        res.update(counts=self.counts, distinct=self.distinct,
                   states=self.states, samples=self.samples,
                   violations=self.violations, known_hit=self.known_hit,
                   exhaustive=self.exhaustive)
        with open(out + '.tmp', 'wb') as fp:
          pickle.dump(res, fp)
        os.rename(out + '.tmp', out)
        sys.stdout.flush()
        sys.stderr.flush()
        os._exit(0)
      pids.append((pid, out))
    results = []
    for pid, out in pids:
      _, status = os.waitpid(pid, 0)
      if not os.path.exists(out):
        raise HarnessError(f'worker died with status {status}')
      with open(out, 'rb') as fp:
        results.append(pickle.load(fp))
      os.unlink(out)
    base = dict(self.counts)
    vio = []
    for r in results:
      if r['vjob'] is not None:
        vio.append((r['vjob'], r['violations'][-1]))
      for k, v in r['counts'].items():
        self.counts[k] = self.counts.get(k, 0) + v - base.get(k, 0)
      self.distinct |= r['distinct']
      self.states |= r['states']
      for x in r['samples']:
        self.sample_raw(x)
      self.known_hit.update(r['known_hit'])
      self.exhaustive = self.exhaustive and r['exhaustive']
    if vio:
      self.violations.append(min(vio, key=lambda x: x[0])[1])
      raise Violation(self.violations[-1]['what'])
    for r in results:
      if r['error']:
        raise HarnessError('worker failed:\n' + r['error'])

  def sample_raw(self, x, limit=4):
    if len(self.samples) < limit and x not in self.samples:
      self.samples.append(x)

  def evidence(self):
    cov = {'samples': self.samples, 'exhaustive': bool(self.exhaustive)}
    if self.rule:
      cov['rule'] = self.rule
    if self.level == 'model_checking':
      cov['states'] = len(self.states)
      cov['transitions'] = self.counts.get('transitions', 0)
      cov['traces_validated_against_impl'] = self.counts.get('traces', 0)
    else:
      cov['evaluations'] = self.counts.get('evaluations', 0)
      cov['distinct_nontrivial'] = len(self.distinct)
    extra = {k: v for k, v in self.counts.items()
             if k not in ('evaluations', 'transitions', 'traces')}
    if extra:
      cov['breakdown'] = extra
    return {
        'property': self.pid, 'tier': self.tier, 'seed': self.seed,
        'level': self.level, 'coverage': cov, 'assumptions': self.assumptions,
        'wall_s': round(time.time() - self.t0, 3),
        'violations': len(self.violations),
    }

  def finish(self):
    path = os.path.join(VERIF, 'evidence', f'{self.pid}.json')
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, 'w') as fp:
      json.dump(self.evidence(), fp, indent=1, sort_keys=True)
      fp.write('\n')
    if self._scratch:
      shutil.rmtree(self._scratch, ignore_errors=True)
    for key, k in sorted(self.known_hit.items()):
      print(f'KNOWN-FINDING: property={self.pid} {k["what"]}')
    if self.violations:
      d = os.path.join(VERIF, 'evidence', 'replay')
      os.makedirs(d, exist_ok=True)
      rp = os.path.join(d, f'{self.pid}.json')
      with open(rp, 'w') as fp:
        json.dump({'property': self.pid, 'violations': self.violations,
                   'rerun': f'./check.sh {self.pid}'}, fp, indent=1)
        fp.write('\n')
      for v in self.violations:
        print(f'  {v["what"]}'[:2000])
        print(f'  case: {json.dumps(v["case"])}'[:2000])
      print(f'VIOLATION property={self.pid} replay={rp}')
      sys.stdout.flush()
      return 1
    cov = self.evidence()['coverage']
    nums = {k: v for k, v in cov.items()
            if isinstance(v, int) and not isinstance(v, bool)}
    print(f'OK property={self.pid} tier={self.tier} {nums} '
          f'{cov.get("breakdown", {})} wall={time.time() - self.t0:.1f}s')
    sys.stdout.flush()
    return 0


def load_known(pid):
  path = os.path.join(VERIF, 'known_findings.jsonl')
  out = []
  if os.path.exists(path):
    for line in open(path):
      line = line.strip()
      if line and not line.startswith('#') and not line.startswith('fixed:'):
        d = json.loads(line)
        if d.get('property') == pid:
          out.append(d)
  return out


def from_repo(tb):
  """True if any frame of the traceback is code of /repo."""
  while tb is not None:
    if tb.tb_frame.f_code.co_filename.startswith(REPO + '/'):
      return True
    tb = tb.tb_next
  return False


def blames_repo(e):
  """True if an exception is about what /repo's code did or returned.

  That is: it passed through /repo's code; or a library raised it while running
  what /repo's code had built (e.g. an optimizer); or a result lacks a key that
  the check looks up. Names missing from modules and lack of resources are not.
  """
  for x in (e, e.__cause__):
    if x is not None and from_repo(x.__traceback__):
      return True
  if isinstance(e, (OSError, MemoryError, ImportError)) or 'RESOURCE_EXHAUSTED' in str(e):
    return False
  tb = e.__traceback__
  while tb is not None and tb.tb_next is not None:
    tb = tb.tb_next
  file = tb.tb_frame.f_code.co_filename if tb is not None else VERIF
  if file.startswith(VERIF + '/'):
    return isinstance(e, (KeyError, IndexError))
  return '/site-packages/' in file


def guarded(check, fn):
  """Runs fn(check); maps exceptions to the outcome protocol.

  An exception that passes through /repo's code on an input for which the
  property promises a result is a violation; any other is a harness error.
  """
  try:
    fn(check)
  except Violation:
    pass
  except HarnessError:
    traceback.print_exc()
    return 2
  except Exception as e:  # pylint: disable=broad-except
    if blames_repo(e):
      traceback.print_exc()
      check.violations.append({
          'what': f'unexpected {type(e).__name__}: {str(e)[:500]}',
          'case': jsonable(check.context),
          'key': None,
          'traceback': traceback.format_exc()[-4000:]})
    else:
      traceback.print_exc()
      return 2
  if (not check.violations and not check.counts.get('evaluations')
      and not check.counts.get('traces')):
    print('vacuous exploration', file=sys.stderr)
    return 2
  return check.finish()
