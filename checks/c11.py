"""C11: crash consistency of sharded checkpoints.

Explicit-state search over crash histories of the real save / remove code under
a controlled scheduler (mc/sched.py). A state is (directory contents, steps
whose save was acknowledged); a transition is one process life: a program of API
calls interrupted after any number of file-system operations in any interleaving
of its writer tasks. In every state the real recovery code is run.
"""
import hashlib
import itertools
import os
import shutil
import numpy as np
from mc import core
from mc import sched

import jax
import jax.numpy as jnp
from multiprocessing.pool import ThreadPool
from vmoe.checkpoints import base
from vmoe.checkpoints import partitioned

LEVEL = 'fault_enumeration'
RULE = ('a case = one file-system operation executed in one schedule prefix of '
        'one process life, after which the process crashes (or the operation '
        'fails with an I/O error); distinct non-trivial = distinct (directory '
        'contents, acknowledged steps) reached in which at least one file of an '
        'unfinished save or removal exists; recovery is run in each')
ASSUMPTIONS = [
    'process crash: completed file-system calls persist in order (no power '
    'loss); rename, remove and mkdir are atomic; file contents reach the file '
    'at flush/close in two steps',
    'a retried save of a step has the same contents and number of shards',
    'at most 4 writer tasks; one process']

SUFFIXES = ('.index', '.data')


def tree_of(step):
  # Keys deliberately not in alphabetical order.
  return {'w': jnp.asarray(np.arange(4, dtype=np.float32) + 10 * step),
          'b': {'c': jnp.asarray(np.int32(step)),
                'a': jnp.asarray((np.arange(6) + step).reshape(2, 3).astype(np.int8))}}


class World:

  def __init__(self, c):
    self.c = c
    self.pool = ThreadPool(2)
    self.root = os.path.join(c.scratch(), f'w{os.getpid()}', 'd')
    os.makedirs(self.root, exist_ok=True)
    sched.install(self.root, (base, partitioned))
    self.trees = {s: tree_of(s) for s in range(1, 5)}
    self.values = {s: jax.tree_util.tree_map(np.asarray, t)
                   for s, t in self.trees.items()}
    self.ok_cache = {}

  def path(self, prefix):
    return os.path.join(self.root, prefix)

  # -- directory states ------------------------------------------------------
  def snap(self):
    out = []
    for d, _, fs in os.walk(self.root):
      for f in fs:
        p = os.path.join(d, f)
        with open(p, 'rb') as fp:
          out.append((os.path.relpath(p, self.root), fp.read()))
    return tuple(sorted(out))

  def load(self, d):
    shutil.rmtree(self.root, ignore_errors=True)
    os.makedirs(self.root)
    for p, data in d:
      q = os.path.join(self.root, p)
      os.makedirs(os.path.dirname(q), exist_ok=True)
      with open(q, 'wb') as fp:
        fp.write(data)

  # -- recovery ----------------------------------------------------------------
  def restorable(self, prefix, step, single):
    """None if the step restores exactly, else the reason."""
    p = f'{self.path(prefix)}_{step}'
    try:
      if single:
        got = base.restore_checkpoint(p)
      else:
        got = partitioned.restore_checkpoint(p, None, thread_pool=self.pool)
      want = self.values[step]
      gl, gs = jax.tree_util.tree_flatten(got)
      wl, ws = jax.tree_util.tree_flatten(want)
      if gs != ws:
        return f'tree differs: {gs}'
      for g, w in zip(gl, wl):
        g = np.asarray(g)
        if g.dtype != w.dtype or g.shape != w.shape or not np.array_equal(g, w):
          return f'values differ: {g!r} instead of {w!r}'
    except Exception as e:  # pylint: disable=broad-except
      return f'{type(e).__name__}: {str(e)[:300]}'
    return None

  def recover(self, d, durable, single, prefix, info):
    """Runs recovery on the current directory, checks the property."""
    c = self.c
    key = (d, durable, single, prefix)
    if key in self.ok_cache:
      return
    self.ok_cache[key] = True
    sfx = None if single else SUFFIXES
    steps = list(base.iterate_complete_steps_for_prefix(
        self.path(prefix), suffixes=sfx))
    dec = list(base.iterate_complete_steps_for_prefix(
        self.path(prefix), suffixes=sfx, decreasing=True))
    latest = base.find_latest_complete_checkpoint_for_prefix(
        self.path(prefix), suffixes=sfx)
    case = lambda: {**info, 'files': {p: len(x) for p, x in d},
                    'acknowledged': sorted(durable), 'complete_steps': steps,
                    'latest': latest and os.path.basename(latest)}
    c.require(dec == sorted(steps, reverse=True) and steps == sorted(steps),
              'complete steps not in order', case)
    c.require(latest == (f'{self.path(prefix)}_{max(steps)}' if steps else None),
              'the latest complete checkpoint is not the newest complete step', case)
    for s in steps:
      why = (self.restorable(prefix, s, single) if s in self.values
             else 'no such step was ever saved')
      c.require(why is None,
                f'step {s} is reported as complete but does not restore: {why}', case)
    if not single:
      # Asking for one suffix only: the others may be absent, but not partial.
      for one in SUFFIXES:
        for st in base.iterate_complete_steps_for_prefix(self.path(prefix), suffixes=(one,)):
          if st in steps:
            continue
          names = [os.path.basename(p) for p, _ in d]
          mine = [n for n in names if n.startswith((f'{prefix}_{st}.', f'.tmp.{prefix}_{st}.'))]
          data = [n for n in mine if n.startswith(f'{prefix}_{st}.data-')]
          whole = not data or len(data) == int(data[0].split('-of-')[1])
          c.require(whole and not any(n.startswith('.tmp') for n in mine)
                    and any(one in n for n in mine),
                    lambda: f'step {st} is reported as complete with the suffix {one}, its files '
                    f'are {mine}', case)
    for s in durable:
      c.require(s in steps, f'the acknowledged save of step {s} is not found', case)
      why = self.restorable(prefix, s, single)
      c.require(why is None, f'acknowledged step {s} does not restore: {why}', case)

  # -- one process life ----------------------------------------------------------
  def explore(self, d0, durable0, life, info, single=False, prefix='ckpt',
              on_state=None, fault=None):
    """All schedules of `life` from directory d0; recovery after every prefix.

    life(world, ack, drop) runs in a managed thread; ack(step) marks a save as
    acknowledged, drop(step) withdraws it (removal requested).
    Returns the set of (directory, durable) reached.
    """
    c = self.c
    seen = set()
    reached = set()
    todo = [()]
    outcomes = set()
    while todo:
      pre = todo.pop()
      self.load(d0)
      s = sched.begin()
      durable = set(durable0)
      errors = []

      def main():
        try:
          life(self, durable.add, durable.discard)
        except sched.Crash:
          raise
        except Exception as e:  # pylint: disable=broad-except
          errors.append(e)

      s.spawn('main', main)
      choices = []
      try:
        while True:
          if len(choices) >= len(pre):
            d = self.snap()
            key = (d, frozenset(durable),
                   tuple((t.status, t.op, t.steps) for t in s.threads))
            if key in seen and len(choices) > len(pre) - 1:
              break
            seen.add(key)
            inf = {**info, 'schedule': s.trace}
            c.context = inf
            if self.new_state(d, durable, prefix):
              c.sample({**info, 'schedule': [list(map(str, x)) for x in s.trace],
                        'files': {p: len(x) for p, x in d}})
            self.recover(d, frozenset(durable), single, prefix, inf)
            reached.add((d, frozenset(durable)))
            en = s.enabled()
            if not en:
              if not s.finished():
                c.fail('deadlock: no task can make progress', inf)
              if errors and not isinstance(errors[0], info.get('_expect', ())):
                raise errors[0]
              outcomes.add(d)
              break
            for alt in en[1:]:
              todo.append(tuple(choices) + (alt,))
            nxt = en[0]
          else:
            nxt = pre[len(choices)]
            if nxt not in s.enabled():
              raise core.HarnessError(f'schedule diverged at {len(choices)} of {pre}')
          s.step(nxt)
          choices.append(nxt)
          c.case()
      finally:
        sched.end()
    return reached, outcomes

  def new_state(self, d, durable, prefix):
    if any('.tmp' in p for p, _ in d) or len(d) % 2:
      k = hashlib.blake2b(repr((d, sorted(durable), prefix)).encode(),
                          digest_size=12).digest()
      if k not in self.c.distinct:
        self.c.distinct.add(k)
        return True
    return False


# ---- programs (one process life each) --------------------------------------
def save(w, step, shards, prefix='ckpt', wait=True, **kw):
  r = partitioned.save_checkpoint(
      f'{w.path(prefix)}_{step}', w.trees[step], num_shards=shards,
      thread_pool=sched.CtlPool(), **kw)
  if wait:
    r.get()
  return r


def p_save(step, shards, **kw):
  def life(w, ack, drop):
    save(w, step, shards, **kw)
    ack(step)
  return life


def p_save_two(a, b, shards):
  def life(w, ack, drop):
    save(w, a, shards)
    ack(a)
    save(w, b, shards)
    ack(b)
  return life


def p_overlap(a, b, shards):
  """Two asynchronous saves in flight at the same time."""
  def life(w, ack, drop):
    ra = save(w, a, shards, wait=False)
    rb = save(w, b, shards, wait=False)
    ra.get()
    ack(a)
    rb.get()
    ack(b)
  return life


def p_single(step, how):
  def life(w, ack, drop):
    p = f'{w.path("ckpt")}_{step}'
    if how == 'sync':
      got = base.save_checkpoint(p, w.trees[step])
      if got != p:
        w.c.fail('save_checkpoint returns another path', {'got': got, 'path': p})
    elif how == 'async':
      base.save_checkpoint_async(p, w.trees[step], thread_pool=sched.CtlPool()).get()
    else:
      q = f'{w.path("ckpt")}_{step + 1}'
      base.save_multiple_checkpoints_async(
          {p: w.trees[step], q: w.trees[step + 1]},
          thread_pool=sched.CtlPool()).get()
      ack(step + 1)
    ack(step)
  return life


def p_remove(step, concurrent_save=None):
  """Removes one step (by match function) while others must survive."""
  def life(w, ack, drop):
    files = sorted(os.path.join(w.root, f) for f in os.listdir(w.root))
    r = None
    if concurrent_save:
      r = save(w, concurrent_save, 1, wait=False)
    drop(step)
    base.remove_checkpoints(
        files, lambda f: f'ckpt_{step}.' in os.path.basename(f),
        thread_pool=sched.CtlPool())
    left = [f for f in os.listdir(w.root) if f.startswith(f'ckpt_{step}.')]
    if left:
      w.c.fail('files of a removed checkpoint are left', {'left': left})
    if r is not None:
      r.get()
      ack(concurrent_save)
  return life


def completed(w, steps, shards, single=False):
  """Directory with the given steps saved."""
  w.load(())
  for s in steps:
    if single:
      base.save_checkpoint(f'{w.path("ckpt")}_{s}', w.trees[s])
    else:
      partitioned.save_checkpoint(
          f'{w.path("ckpt")}_{s}', w.trees[s], num_shards=shards,
          thread_pool=w.pool).get()
  return w.snap()


def faults(w, d0, durable0, life, info, single=False, step=None):
  """Every file-system operation fails once (default schedule)."""
  c = w.c
  n = 0
  while True:
    w.load(d0)
    s = sched.begin()
    durable = set(durable0)
    out = []

    def main():
      try:
        life(w, durable.add, durable.discard)
        out.append(None)
      except sched.Crash:
        raise
      except Exception as e:  # pylint: disable=broad-except
        out.append(e)

    s.spawn('main', main)
    real_gate = s.gate
    cnt = [0]
    hit = []

    def gate(*op):
      if s.me() is not None and not s.dead:
        if cnt[0] == n:
          cnt[0] += 1
          hit.append(op)
          raise OSError(28, f'injected: no space left ({op})')
        cnt[0] += 1
      return real_gate(*op)

    s.gate = gate
    try:
      while s.enabled():
        s.step(s.enabled()[0])
      inf = {**info, 'failing_operation': hit}
      c.context = inf
      c.case()
      d = w.snap()
      w.new_state(d, durable, 'ckpt')
      w.recover(d, frozenset(durable), single, 'ckpt', inf)
      if not s.finished():
        c.fail('deadlock after an I/O error', inf)
    finally:
      sched.end()
    if not hit:
      return n
    n += 1


def closure(w, steps, shards, max_depth, jobs=None):
  """All crash/restart histories: every life starts from every state reached."""
  c = w.c
  seen = set()
  frontier = [((), frozenset())]
  depth = 0
  while frontier and (max_depth is None or depth < max_depth):
    nxt = []
    for d, dur in frontier:
      for s in steps:
        if s > 1 and s - 1 not in dur:
          continue          # step s is reached only after step s-1 was saved
        if s in dur:
          continue
        reached, _ = w.explore(d, dur, p_save(s, shards),
                               {'program': f'save {s}', 'life': depth + 1})
        for r in reached:
          if r not in seen:
            seen.add(r)
            nxt.append(r)
    c.count(f'states_depth_{depth + 1}', len(nxt))
    frontier = nxt
    depth += 1
  if frontier:
    c.count('closure_truncated')
  return len(seen)


def job_depth1(c, j):
  w = World(c)
  shards, pre = j
  d0 = completed(w, pre, shards)
  s = len(pre) + 1
  w.explore(d0, pre, p_save(s, shards),
            {'program': f'save {s}', 'shards': shards, 'before': pre})
  if shards <= 2:
    faults(w, d0, pre, p_save(s, shards),
           {'program': f'save {s}', 'shards': shards, 'before': pre})


def job_two(c, j):
  w = World(c)
  kind, shards = j
  life = {'two': p_save_two, 'overlap': p_overlap}[kind](2, 3, shards)
  d0 = completed(w, (1,), shards)
  w.explore(d0, (1,), life, {'program': kind, 'shards': shards})
  faults(w, d0, (1,), life, {'program': kind, 'shards': shards})


def job_single(c, j):
  w = World(c)
  how, pre = j
  d0 = completed(w, pre, 1, single=True)
  s = len(pre) + 1
  info = {'program': f'{how} single-file save', 'before': pre}
  reached, _ = w.explore(d0, pre, p_single(s, how), info, single=True)
  faults(w, d0, pre, p_single(s, how), info, single=True)
  for d, dur in sorted(reached, key=repr):
    if s not in dur:
      w.explore(d, dur, p_single(s, how), {**info, 'life': 2}, single=True)


def job_remove(c, j):
  w = World(c)
  shards, which, conc = j
  d0 = completed(w, (1, 2), shards)
  w.explore(d0, (1, 2), p_remove(which, conc),
            {'program': f'remove {which}', 'shards': shards, 'concurrent': conc})
  faults(w, d0, (1, 2), p_remove(which, conc),
         {'program': f'remove {which}', 'shards': shards})


def job_prefix(c, j):
  """Other prefixes in the same directory never influence each other."""
  w = World(c)
  mine, other, shards = j
  d0 = completed(w, (1,), shards)
  ren = tuple(sorted((p.replace('ckpt', mine), x) for p, x in d0))

  def life(w, ack, drop):
    save(w, 2, shards, prefix=other)

  w.explore(ren, (1,), life, {'program': f'save {other}', 'observed': mine},
            prefix=mine)


def job_nooverwrite(c, j):
  """A refused save leaves the existing checkpoint as it was."""
  w = World(c)
  shards = j
  d0 = completed(w, (1,), shards)
  w.load(d0)

  refused = []

  def attempt():
    try:
      partitioned.save_checkpoint(
          f'{w.path("ckpt")}_1', w.trees[2], num_shards=shards,
          overwrite=False, thread_pool=w.pool).get()
    except Exception as e:  # pylint: disable=broad-except
      refused.append(e)
  attempt()
  c.case(('nooverwrite', shards))
  info = {'program': 'save with overwrite=False over an existing step',
          'shards': shards}
  c.require(refused, 'an existing checkpoint was overwritten without being asked', info)
  d = w.snap()
  c.require(set(d0) <= set(d), 'a refused save changed the existing files', info)
  w.recover(d, frozenset((1,)), False, 'ckpt', info)


def job_order(c, j):
  """Which step is the latest, for every mix of complete and partial steps."""
  w = World(c)
  steps, shards = (2, 9, 10, 100), 2
  w.trees.update({s: tree_of(s) for s in steps})
  w.values.update({s: jax.tree_util.tree_map(np.asarray, w.trees[s])
                   for s in steps})
  full = dict(completed(w, steps, shards))
  kinds = ('absent', 'complete', 'no index', 'no shard 0', 'no shard 1', 'temp')
  for mix in itertools.product(kinds, repeat=len(steps) - 1):
    mix = (j,) + mix
    d = {}
    for s, k in zip(steps, mix):
      fs = {p: x for p, x in full.items() if p.startswith(f'ckpt_{s}.')}
      if k == 'absent':
        continue
      if k == 'no index':
        fs.pop(f'ckpt_{s}.index')
      if k.startswith('no shard'):
        fs.pop(f'ckpt_{s}.data-0000{k[-1]}-of-00002')
      if k == 'temp':
        p = f'ckpt_{s}.data-00001-of-00002'
        fs['.tmp.' + p] = fs.pop(p)[:40]
      d.update(fs)
    d = tuple(sorted(d.items()))
    w.load(d)
    dur = frozenset(s for s, k in zip(steps, mix) if k == 'complete')
    info = {'steps': dict(zip(map(str, steps), mix))}
    c.context = info
    c.case(('order', mix))
    w.recover(d, dur, False, 'ckpt', info)
    got = set(base.iterate_complete_steps_for_prefix(w.path('ckpt'), SUFFIXES))
    c.require(got == dur, 'set of complete steps', {**info, 'got': got})


def job_plain(c, j):
  """A finished save is found and intact: trees x shard counts x re-saves."""
  w = World(c)
  a = lambda *sh: jnp.asarray(np.arange(int(np.prod(sh)), dtype=np.float32).reshape(sh) + 1)
  trees = {'scalar': {'s': jnp.asarray(np.int32(3))}, 'one': {'x': a(4, 4)},
           'empty array': {'x': a(0, 3), 'y': a(2)},
           'many': {f'k{i}': a(i + 1) for i in (2, 0, 1, 11, 3)},
           'nested': {'b': {'z': a(2), 'a': {'c': a(1), 'b': a(3)}}}}
  for (name, tree), limit, again in itertools.product(
      trees.items(), (None, 4), (False, True)):
    w.load(())
    steps = (1, 2)
    info = {'tree': name, 'shards': j, 'chunk limit': limit, 'saved twice': again}
    c.context = info
    kw = {} if limit is None else {'max_chunk_bytes': limit}
    for s in steps + (steps if again else ()):
      w.trees[s] = jax.tree_util.tree_map(lambda x: x + s, tree)  # pylint: disable=cell-var-from-loop
      w.values[s] = jax.tree_util.tree_map(np.asarray, w.trees[s])
      partitioned.save_checkpoint(f'{w.path("ckpt")}_{s}', w.trees[s],
                                  num_shards=j, thread_pool=w.pool, **kw).get()
    c.case(('plain', name, j, limit, again))
    w.ok_cache.clear()
    w.recover(w.snap(), frozenset(steps), False, 'ckpt', info)


def job_closure(c, j):
  w = World(c)
  steps, shards, depth = j
  n = closure(w, steps, shards, depth)
  c.count('closure_states', n)


def dispatch(c, j):
  globals()['job_' + j[0]](c, j[1])


def run(c):
  jobs = [('closure', ((1,), 1, None)), ('closure', ((1, 2), 1, 2))]
  jobs += [('two', ('two', 1)), ('two', ('overlap', 1)), ('two', ('two', 2))]
  jobs += [('depth1', (n, pre)) for n in c.q((1, 2, 3), (1, 2, 3, 4))
           for pre in ((), (1,))]
  jobs += [('single', (how, pre)) for how in ('sync', 'async', 'multi')
           for pre in ((), (1,))]
  jobs += [('remove', (n, which, conc)) for n in (1, 2) for which in (1, 2)
           for conc in ((None, 3) if n == 1 or c.thorough else (None,))]
  jobs += [('prefix', (m, o, n)) for m, o in (
      ('ckpt', 'ckpt_ema'), ('ckpt_ema', 'ckpt'), ('ckpt', 'ckpt2'),
      ('ckpt', 'ckpt_10'), ('ema.ckpt', 'ckpt')) for n in (1, 2)]
  jobs += [('plain', n) for n in (0, 1, 2, 3, 5, 8, 16)]
  jobs += [('nooverwrite', n) for n in (1, 2)]
  jobs += [('order', k) for k in ('absent', 'complete', 'no index', 'no shard 0',
                                  'no shard 1', 'temp')]
  if c.thorough:
    jobs += [('closure', ((1,), 2, None)), ('closure', ((1, 2), 1, 3)),
             ('two', ('overlap', 2)), ('two', ('two', 3))]
  # Long jobs first.
  cost = {'depth1': lambda a: 5 ** (a[0] + 1), 'two': lambda a: 700 * a[1],
          'closure': lambda a: 5 ** (len(a[0]) * a[1]) * 30,
          'remove': lambda a: 900 if a[2] else 10}
  jobs.sort(key=lambda j: -cost.get(j[0], lambda a: 50)(j[1]))
  c.parallel(jobs, dispatch)
