"""C09: sharded checkpoints round-trip exactly, for every layout."""
import os
os.environ['XLA_FLAGS'] = '--xla_force_host_platform_device_count=8'
import itertools
import shutil
import numpy as np
from mc import core

import flax
import jax
import jax.numpy as jnp
from multiprocessing.pool import ThreadPool
from vmoe.checkpoints import base
from vmoe.checkpoints import partitioned
from vmoe.checkpoints import types
import vmoe.checkpoints as ckpt_api

LEVEL = 'exploration'
RULE = ('a case = one array leaf saved under one (source layout, number of '
        'shards, chunk limit) and restored under one (target layout, read '
        'limit); enumerated: all shapes x dtypes x layouts in the alphabet, '
        'every source layout paired with every target layout; non-trivial = '
        'source and target layouts differ, or several chunks/shards')
ASSUMPTIONS = ['8 virtual CPU devices, one process (several processes: C10)',
               'arrays of at most 3 dimensions and 64 elements']

P = jax.sharding.PartitionSpec


def meshes():
  d = np.asarray(jax.devices())
  return {
      'm8': jax.sharding.Mesh(d, ('a',)),
      'm24': jax.sharding.Mesh(d.reshape(2, 4), ('a', 'b')),
      'm42': jax.sharding.Mesh(d.reshape(4, 2)[::-1], ('a', 'b')),
      'm3': jax.sharding.Mesh(d[[6, 1, 3]], ('a',)),
      'm222': jax.sharding.Mesh(d.reshape(2, 2, 2), ('a', 'b', 'c')),
  }


SPECS = [('m8', P()), ('m8', P('a')), ('m8', P(None, 'a')), ('m3', P('a')),
         ('m3', P(None, 'a')), ('m3', P()),
         ('m24', P('a')), ('m24', P('b')), ('m24', P('a', 'b')),
         ('m24', P('b', 'a')), ('m24', P(('a', 'b'))), ('m24', P(('b', 'a'))),
         ('m24', P(None, None, 'a')), ('m42', P('a', 'b')), ('m42', P('b')),
         ('m42', P(None, ('a', 'b'))),
         ('m222', P('a', 'b', 'c')), ('m222', P(('a', 'c'), 'b')),
         ('m222', P(None, 'c'))]


def layouts(shape, ms):
  """All layouts applicable to a shape (evenly divisible)."""
  out = [('single0', jax.sharding.SingleDeviceSharding(jax.devices()[0])),
         ('single5', jax.sharding.SingleDeviceSharding(jax.devices()[5]))]
  for name, spec in SPECS:
    if len(spec) > len(shape):
      continue
    s = jax.sharding.NamedSharding(ms[name], spec)
    try:
      s.shard_shape(shape)
    except ValueError:
      continue
    out.append((f'{name}{spec}', s))
  return out


SHAPES = [(), (1,), (2,), (3,), (7,), (8,), (11,), (24,), (0,), (2, 0), (0, 4), (1, 1),
          (2, 3), (3, 2), (4, 6), (8, 2), (6, 8), (3, 13), (2, 2, 2), (4, 2, 3),
          (8, 1, 4), (2, 4, 6), (16, 3, 1)]
DTYPES = ['float32', 'bfloat16', 'float16', 'int32', 'int8', 'uint8', 'uint32',
          'bool', 'complex64']


def values(shape, dtype, salt):
  n = int(np.prod(shape))
  x = (np.arange(n) * 7 + salt * 13) % 251
  if dtype == 'bool':
    x = (x % 3 == 0)
  elif dtype == 'complex64':
    x = x + 1j * (x + 1)
  elif dtype in ('float32', 'float16', 'bfloat16'):
    x = x / 8 - 4
  elif dtype == 'int8':
    x = x - 125
  return np.asarray(x).astype(jnp.dtype(dtype)).reshape(shape)


def same(a, b):
  a, b = np.asarray(a), np.asarray(b)
  return a.dtype == b.dtype and a.shape == b.shape and a.tobytes() == b.tobytes()


def check_leaf(c, got, want, sharding, cfg):
  c.require(isinstance(got, jax.Array), 'restored leaf is not a jax.Array', cfg)
  c.require(got.shape == want.shape and got.dtype == want.dtype,
            f'restored shape/dtype {got.shape}/{got.dtype}', cfg)
  if sharding is not None:
    c.require(got.sharding.is_equivalent_to(sharding, want.ndim),
              'restored array is not laid out as requested', cfg)
  for sh in got.addressable_shards:
    c.require(same(sh.data, want[sh.index]),
              'restored values differ from the saved ones',
              lambda: {**cfg, 'shard': str(sh.index), 'got': np.asarray(sh.data).astype('float32'),
                       'want': want[sh.index].astype('float32')})


def grid_job(c, job):
  """All leaves (shape x layout pairs) in one tree."""
  _, num_shards, chunk, rot, dtype, max_conc = job
  ms = meshes()
  src, dst, val, info = {}, {}, {}, {}
  n = 0
  for si, shape in enumerate(SHAPES):
    lays = layouts(shape, ms)
    for li, (lname, lay) in enumerate(lays):
      tname, tlay = lays[(li + rot) % len(lays)]
      key = f'k{(n * 37) % 1009:04d}'   # names in another order than creation.
      n += 1
      v = values(shape, dtype, n)
      val[key] = v
      src[key] = jax.device_put(v, lay)
      dst[key] = (tlay, shape, v.dtype)
      info[key] = dict(shape=shape, src=lname, dst=tname)
  cfg = dict(num_shards=num_shards, max_chunk_bytes=chunk, dtype=dtype,
             max_concurrent_bytes=max_conc)
  c.context = cfg
  prefix = os.path.join(c.scratch(), f'j{c.job}', 'sub', 'ckpt_7')
  pool = ThreadPool(4)
  tree = {'x': src, 'n': {'one': next(iter(src.values()))}}
  r = partitioned.save_checkpoint(prefix, tree, num_shards=num_shards,
                                  max_chunk_bytes=chunk, thread_pool=pool)
  r.get()
  files = sorted(os.listdir(os.path.dirname(prefix)))
  want_files = sorted(['ckpt_7.index'] + [
      os.path.basename(base.add_shard_suffix(prefix + '.data', i, num_shards))
      for i in range(num_shards)])
  c.require(files == want_files, 'unexpected set of checkpoint files',
            {**cfg, 'files': files})
  if chunk:
    for f in files:
      if '.data' not in f:
        continue
      stored = base.restore_checkpoint(
          os.path.join(os.path.dirname(prefix), f), types.ArrayChunks())
      for chunks in stored.chunks.values():
        for a in chunks:
          a = np.asarray(a)
          c.require(a.nbytes <= max(chunk, a.itemsize),
                    f'chunk of {a.nbytes} bytes, with at most {chunk} asked', cfg)
          c.transition()
  template = {'x': {k: jax.device_put(np.zeros(s, d), l)
                    for k, (l, s, d) in dst.items()},
              'n': {'one': jnp.zeros(val[next(iter(src))].shape, dtype)}}
  out = partitioned.restore_checkpoint(prefix, template, thread_pool=pool,
                                       max_concurrent_bytes=max_conc)
  c.require(set(out) == {'x', 'n'} and set(out['x']) == set(src),
            'restored tree has another structure', cfg)
  for k in src:
    check_leaf(c, out['x'][k], val[k], dst[k][0], {**cfg, **info[k], 'key': k})
    nontriv = (info[k]['src'] != info[k]['dst'] or num_shards > 1 or chunk)
    c.case((k, info[k]['src'], info[k]['dst'], num_shards, chunk, dtype, max_conc)
           if nontriv else None)
  # Without a template: same values, replicated.
  out = partitioned.restore_checkpoint(prefix, None, thread_pool=pool)
  for k in src:
    check_leaf(c, out['x'][k], val[k], None, {**cfg, **info[k], 'tree': None})
    c.case((k, 'none', num_shards, chunk, dtype))
  check_leaf(c, out['n']['one'], val[next(iter(src))], None, cfg)
  c.sample({**cfg, 'leaves': len(src), 'rotation': rot})
  pool.close()
  shutil.rmtree(os.path.dirname(os.path.dirname(prefix)))


@flax.struct.dataclass
class State:
  step: jax.Array
  params: dict
  opt: tuple
  note: str = flax.struct.field(pytree_node=False, default='x')


def structures(c, job):
  """Trees of every container kind keep their structure; mismatches fail."""
  _, num_shards = job
  import optax
  a = lambda *s: jnp.asarray(values(s, 'float32', len(s) + 3))
  b = jnp.asarray(values((3,), 'int32', 5))
  params = {'z': a(2, 3), 'b': {'k': a(3), 'a': a(1)}}
  trees = {
      'leaf': a(3), 'dict': params, 'frozen': flax.core.freeze(params),
      'tuple': (a(2), (b, a())), 'list': [a(2), b],
      'many': [a(i) for i in range(1, 13)],     # ten or more list entries.
      'namedtuple': optax.ScaleByAdamState(count=jnp.int32(3), mu=params, nu=params),
      'opt': optax.adam(1e-3).init(params),
      'dataclass': State(step=jnp.int32(4), params=params, opt=(a(2), {'q': b})),
      'mixed': {'s': State(step=jnp.int32(4), params={}, opt=()), 'l': [a(2), {}]},
  }
  for name, tree in trees.items():
    for default_pool in (False, True):
      c.context = dict(structure=name, num_shards=num_shards)
      prefix = os.path.join(c.scratch(), f's{c.job}', name, 'ckpt_1')
      pool = None if default_pool else ThreadPool(2)
      partitioned.save_checkpoint(prefix, tree, num_shards=num_shards,
                                  thread_pool=pool, max_chunk_bytes=8).get()
      zero = jax.tree_util.tree_map(jnp.zeros_like, tree)
      out = partitioned.restore_checkpoint(prefix, zero, thread_pool=pool)
      c.require(jax.tree_util.tree_structure(out) == jax.tree_util.tree_structure(tree),
                'tree structure changed', c.context)
      for x, y in zip(jax.tree_util.tree_leaves(out), jax.tree_util.tree_leaves(tree)):
        c.require(same(x, y), 'leaf changed', c.context)
      c.case(('structure', name, num_shards, default_pool))
      # Restoring into numpy templates works as well.
      out = partitioned.restore_checkpoint(
          prefix, jax.tree_util.tree_map(np.zeros_like, tree), thread_pool=pool)
      for x, y in zip(jax.tree_util.tree_leaves(out), jax.tree_util.tree_leaves(tree)):
        c.require(same(x, y), 'leaf changed', c.context)
      c.case(('structure-np', name, num_shards, default_pool))
      # tree=None gives the state dict.
      out = partitioned.restore_checkpoint(prefix, None, thread_pool=pool)
      want = flax.serialization.to_state_dict(tree)
      fa = jax.tree_util.tree_leaves_with_path(out)
      fb = jax.tree_util.tree_leaves_with_path(want)
      c.require([jax.tree_util.keystr(p) for p, _ in fa] == [jax.tree_util.keystr(p) for p, _ in fb] and
                all(same(x, y) for (_, x), (_, y) in zip(fa, fb)),
                'state dict restored without a template differs', c.context)
      c.case(('structure-none', name, num_shards, default_pool))
      if pool:
        pool.close()
  # A template with missing or additional entries is rejected, never filled
  # with something else.
  prefix = os.path.join(c.scratch(), f's{c.job}', 'mm', 'ckpt_1')
  partitioned.save_checkpoint(prefix, params, num_shards=num_shards).get()
  wrong = [{'z': params['z']}, {**params, 'extra': a(1)},
           {'z': params['z'], 'b': {'k': a(3), 'c': a(1)}},
           {'z': params['z'], 'b': a(3)}]
  for i, w in enumerate(wrong):
    try:
      partitioned.restore_checkpoint(prefix, w)
    except Exception:  # pylint: disable=broad-except
      c.case(('mismatch', i, num_shards))
      continue
    c.fail('a template with another structure was accepted', i)
  # Non jax.Array leaves are rejected.
  for w in ({'a': np.zeros(3)}, {'a': a(2), 'b': 3.0}):
    try:
      partitioned.save_checkpoint(prefix + '9', w).get()
    except ValueError:
      c.case(('reject', str(w), num_shards))
      continue
    c.fail('a leaf that is not an array on device was accepted', str(w))
  # overwrite=False never replaces a file.
  before = {f: open(os.path.join(os.path.dirname(prefix), f), 'rb').read()
            for f in os.listdir(os.path.dirname(prefix)) if f.startswith('ckpt_1.')}
  other = jax.tree_util.tree_map(lambda x: x + 1, params)
  try:
    partitioned.save_checkpoint(prefix, other, num_shards=num_shards, overwrite=False).get()
    ok = False
  except Exception:  # pylint: disable=broad-except
    ok = True
  c.require(ok, 'overwrite=False replaced an existing checkpoint')
  after = {f: open(os.path.join(os.path.dirname(prefix), f), 'rb').read() for f in before}
  c.require(before == after, 'overwrite=False modified existing files')
  c.case(('no-overwrite', num_shards))
  # overwrite=True (default) replaces it completely.
  partitioned.save_checkpoint(prefix, other, num_shards=num_shards).get()
  out = partitioned.restore_checkpoint(prefix, params)
  for x, y in zip(jax.tree_util.tree_leaves(out), jax.tree_util.tree_leaves(other)):
    c.require(same(x, y), 'overwritten checkpoint restores old values')
  c.case(('overwrite', num_shards))


def run(c):
  jobs = [('s', n) for n in (1, 2, 5)]
  shards = c.q((1, 3), (1, 2, 3, 5, 8))
  chunks = c.q((None, 1, 12, 64), (None, 1, 4, 8, 12, 20, 32, 64, 1 << 20))
  rots = tuple(range(0, 21))
  k = 0
  for n, ch, rot in itertools.product(shards, chunks, rots):
    dts = DTYPES if c.thorough and rot < 2 else [DTYPES[k % len(DTYPES)]]
    k += 1
    for dt in dts:
      jobs.append(('g', n, ch, rot, dt, (None, 1, 100, 8 << 30)[k % 4]))
  if not c.thorough:
    # Every dtype at least with one chunked and one unchunked save.
    for i, dt in enumerate(DTYPES):
      jobs.append(('g', 2, (None, 8)[i % 2], 2, dt, 8 << 30))
  c.parallel(jobs, lambda c, j: (structures if j[0] == 's' else grid_job)(c, j))
