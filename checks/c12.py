"""C12: asynchronous saves store the values passed at the call.

Whatever the caller does after save returns (updates, donates, deletes its
arrays, starts the next save) and in whatever order the writer tasks run, the
checkpoint contains the values at the time of the call; and a restore gives the
same result for every order of its reader tasks.
"""
import os
os.environ['XLA_FLAGS'] = '--xla_force_host_platform_device_count=4'
import functools
import itertools
import shutil
import numpy as np
from mc import core
from mc import sched

import jax
import jax.numpy as jnp
from multiprocessing.pool import ThreadPool
from vmoe.checkpoints import base
from vmoe.checkpoints import partitioned

LEVEL = 'exploration'
RULE = ('a case = one complete schedule of the caller\'s later actions against '
        'the writer tasks (or of the reader tasks of a restore), all schedules '
        'with at most 1-2 preemptions (3-4 thorough); distinct = (scenario, '
        'device layout, number of shards, order of file-system operations)')
ASSUMPTIONS = ['CPU devices; at most 4 tasks per pool; preemption before every '
               'file-system operation and caller action']
P = jax.sharding.PartitionSpec


def values(step):
  return {'w': np.arange(8, dtype=np.float32) + 100 * step,
          'b': {'z': (np.arange(16) + step).reshape(4, 4).astype(np.int32),
                'a': np.float32(step)},
          'e': (np.arange(40) * (step + 1) % 13).reshape(8, 5).astype(np.float16)}


def layout(name):
  d = np.asarray(jax.devices())
  if name == 'single':
    return lambda x: jax.sharding.SingleDeviceSharding(d[0])
  m = jax.sharding.Mesh(d.reshape(2, 2), ('a', 'b'))
  if name == 'replicated':
    return lambda x: jax.sharding.NamedSharding(m, P())
  return lambda x: jax.sharding.NamedSharding(
      m, P(*(('a', 'b')[:x.ndim] if x.ndim and x.shape[0] % 2 == 0 and
             (x.ndim < 2 or x.shape[1] % 2 == 0) else (('a',) if x.ndim else ()))))


def put(v, lay):
  # The copy prevents arrays from aliasing `v`.
  return jax.tree_util.tree_map(
      lambda x: jax.device_put(np.array(x, copy=True), lay(np.asarray(x))), v)


def equal(got, want):
  gl, gs = jax.tree_util.tree_flatten(got)
  wl, ws = jax.tree_util.tree_flatten(want)
  return gs == ws and all(
      np.asarray(g).dtype == np.asarray(w).dtype and
      np.array_equal(np.asarray(g), np.asarray(w)) for g, w in zip(gl, wl))


@functools.partial(jax.jit, donate_argnums=0)
def overwrite(t):
  return jax.tree_util.tree_map(lambda x: (x * 0 - 7).astype(x.dtype), t)


ACTIONS = ('nothing', 'delete', 'donate', 'tree', 'drop', 'next_save', 'train')


def act(w, action, tree, lay, pool):
  """What the caller does after save returned; returns live references."""
  leaves = jax.tree_util.tree_leaves(tree)
  if action == 'delete':
    for x in leaves:
      sched.CURRENT.gate('caller', 'delete')
      x.delete()
  elif action == 'donate':
    sched.CURRENT.gate('caller', 'donate')
    out = overwrite(tree)
    jax.block_until_ready(out)
    return out
  elif action == 'tree':
    sched.CURRENT.gate('caller', 'mutate tree')
    tree['w'] = jnp.zeros(8)
    del tree['b']['a']
    tree['b']['new'] = jnp.ones(3)
  elif action == 'drop':
    sched.CURRENT.gate('caller', 'drop')
    tree.clear()
    del leaves
    fill = [put(values(77), lay) for _ in range(2)]
    jax.block_until_ready(fill)
    return fill
  elif action == 'train':
    for _ in range(2):
      sched.CURRENT.gate('caller', 'train step')
      tree = overwrite(tree)
      jax.block_until_ready(tree)
    return tree
  return None


class World:

  def __init__(self, c, name):
    self.c = c
    self.pool = ThreadPool(2)
    self.root = os.path.join(c.scratch(), f'w{os.getpid()}', 'd')
    os.makedirs(self.root, exist_ok=True)
    sched.install(self.root, (base, partitioned))
    self.lay = layout(name)

  def clear(self):
    shutil.rmtree(self.root, ignore_errors=True)
    os.makedirs(self.root)

  def snap(self):
    out = []
    for f in sorted(os.listdir(self.root)):
      with open(os.path.join(self.root, f), 'rb') as fp:
        out.append((f, fp.read()))
    return tuple(out)

  def path(self, step):
    return os.path.join(self.root, f'ckpt_{step}')


def job_save(c, j):
  lay, shards, action, chunk = j
  w = World(c, lay)
  info = {'layout': lay, 'shards': shards, 'caller': action, 'chunk': chunk}
  c.context = info
  keep = []

  def program():
    pool = sched.CtlPool()
    t1 = put(values(1), w.lay)
    r = partitioned.save_checkpoint(w.path(1), t1, num_shards=shards,
                                    thread_pool=pool, max_chunk_bytes=chunk)
    r2 = None
    if action == 'next_save':
      t2 = jax.tree_util.tree_map(lambda x: x, put(values(2), w.lay))
      for x in jax.tree_util.tree_leaves(t1):
        x.delete()
      r2 = partitioned.save_checkpoint(w.path(2), t2, num_shards=shards,
                                       thread_pool=pool, max_chunk_bytes=chunk)
      for x in jax.tree_util.tree_leaves(t2):
        x.delete()
    else:
      keep.append(act(w, action, t1, w.lay, pool))
    r.get()
    if r2 is not None:
      r2.get()
    return True

  finals = set()

  def at_end(s, value, error):
    keep.clear()
    if error is not None:
      raise error
    files = w.snap()
    finals.add(files)
    c.case((lay, shards, action, chunk, hash(str(s.trace))), n=0)
    for step in (1, 2) if action == 'next_save' else (1,):
      got = partitioned.restore_checkpoint(w.path(step), None, thread_pool=w.pool)
      c.require(equal(got, values(step)),
                'the checkpoint does not contain the values passed to save',
                lambda: {**info, 'step': step, 'schedule': s.trace,
                         'got': jax.tree_util.tree_map(np.asarray, got)})
    names = sorted(f for f, _ in files)
    want = sorted(f for st in ((1, 2) if action == 'next_save' else (1,))
                  for f in [f'ckpt_{st}.index'] + [
                      f'ckpt_{st}.data-{i:05d}-of-{shards:05d}'
                      for i in range(shards)])
    c.require(names == want, 'files left after the save finished',
              lambda: {**info, 'files': names, 'schedule': s.trace})
    c.sample({**info, 'schedule': [list(map(str, x)) for x in s.trace]})

  if action == 'next_save':
    bound = c.q(1, 2) if shards == 1 else 1
  else:
    bound = c.q(2 if lay == 'sharded' else 1, 3 if shards < 3 else 2)
  # No merging of states: what a task has read so far is not visible.
  sched.explore(w.clear, program, lambda s: None, at_end, c,
                max_preempt=bound)
  c.require(len(finals) == 1, 'different schedules write different checkpoints',
            info)
  c.count('final_checkpoints', len(finals))


def job_restore(c, j):
  src, dst, shards, concurrent = j
  w = World(c, src)
  info = {'saved_as': src, 'restored_as': dst, 'shards': shards,
          'concurrent_save': concurrent}
  c.context = info
  partitioned.save_checkpoint(w.path(1), put(values(1), w.lay), num_shards=shards,
                              thread_pool=w.pool, max_chunk_bytes=16).get()
  saved = w.snap()
  target = put(values(9), layout(dst))

  def setup():
    w.clear()
    for f, x in saved:
      with open(os.path.join(w.root, f), 'wb') as fp:
        fp.write(x)

  def program():
    pool = sched.CtlPool()
    r = None
    if concurrent:
      r = partitioned.save_checkpoint(w.path(2), put(values(2), w.lay),
                                      num_shards=1, thread_pool=pool)
    got = partitioned.restore_checkpoint(w.path(1), target, thread_pool=pool,
                                         max_concurrent_bytes=64)
    if r is not None:
      r.get()
    return got

  def at_end(s, value, error):
    if error is not None:
      raise error
    c.case((src, dst, shards, concurrent, hash(str(s.trace))), n=0)
    c.require(equal(value, values(1)), 'restored values depend on the schedule',
              lambda: {**info, 'schedule': s.trace,
                       'got': jax.tree_util.tree_map(np.asarray, value)})
    for a, b in zip(jax.tree_util.tree_leaves(value),
                    jax.tree_util.tree_leaves(target)):
      c.require(a.sharding.is_equivalent_to(b.sharding, a.ndim),
                'restored with another sharding', info)

  sched.GATE_READS = True
  sched.explore(setup, program, lambda s: None, at_end, c,
                max_preempt=c.q(0, 1) if concurrent else c.q(2, 4))
  sched.GATE_READS = False


def dispatch(c, j):
  globals()['job_' + j[0]](c, j[1])


def run(c):
  jobs = []
  for lay, shards, action in itertools.product(
      ('single', 'replicated', 'sharded'), c.q((1, 2), (1, 2, 3)), ACTIONS):
    if action == 'next_save' and shards > 1 and not c.thorough:
      continue
    if action == 'next_save' and shards > 2:
      continue
    jobs.append(('save', (lay, shards, action, 64)))
  for src, dst, shards in itertools.product(
      ('single', 'sharded'), ('single', 'replicated', 'sharded'), c.q((2,), (2, 3))):
    jobs.append(('restore', (src, dst, shards, False)))
  jobs.append(('restore', ('sharded', 'single', 1, True)))
  jobs.sort(key=lambda j: -(j[1][1] if j[0] == 'save' else 5)
            - (10 if 'next_save' in j[1] else 0))
  c.parallel(jobs, dispatch)
