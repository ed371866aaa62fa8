"""C10: several processes save and restore one checkpoint together.

Real multi-process JAX (jax.distributed over loopback, gloo collectives) with
1, 2, 3 or 4 processes x local CPU devices.
"""
import itertools
import os
import time
import numpy as np
from mc import core
from mc import multiproc

LEVEL = 'exploration'
RULE = ('a case = one array leaf in one (process grid, number of shards, chunk '
        'limit, source layout) saved by all processes and restored under one '
        '(process grid, target layout), or one on-disk accounting of a leaf; '
        'non-trivial = several processes write or read, or layouts differ. '
        'Enumerated: every layout of the alphabet x shard counts x chunk limits '
        'x process grids x which process arrives late')
ASSUMPTIONS = ['up to 4 processes / 8 devices in total on one machine',
               'processes share one file system']

SHAPES = [(), (1,), (5,), (8,), (24,), (0,), (8, 3), (3, 8), (4, 6), (8, 8), (2, 4, 2)]


def layouts(shape):
  import jax
  P = jax.sharding.PartitionSpec
  d = np.asarray(jax.devices())
  n = len(d)
  ms = [('flat', jax.sharding.Mesh(d, ('a',)), [P(), P('a'), P(None, 'a')]),
        ('rev', jax.sharding.Mesh(d[::-1], ('a',)), [P('a'), P(None, 'a')])]
  if n % 2 == 0:
    ms.append(('2d', jax.sharding.Mesh(d.reshape(2, -1), ('a', 'b')),
               [P('a'), P('b'), P('a', 'b'), P('b', 'a'), P(('b', 'a')), P(None, 'b')]))
    ms.append(('2dT', jax.sharding.Mesh(d.reshape(2, -1).T, ('a', 'b')),
               [P('a'), P('b'), P('b', 'a'), P(None, None, 'b')]))
  out = []
  for name, m, specs in ms:
    for spec in specs:
      if len(spec) > len(shape):
        continue
      s = jax.sharding.NamedSharding(m, spec)
      try:
        s.shard_shape(shape)
      except ValueError:
        continue
      out.append((f'{name}{spec}', s))
  return out


def value(shape, salt, dtype):
  n = int(np.prod(shape))
  return ((np.arange(n) * 7 + salt * 13) % 251).astype(dtype).reshape(shape)


def make(v, sharding):
  import jax
  return jax.make_array_from_callback(v.shape, sharding, lambda i: v[i])


def leaves():
  """Deterministic in every process grid: (key, shape, salt, layout name)."""
  n = 0
  for shape in SHAPES:
    # The number of layouts depends on the process grid; use a fixed number of
    # leaves per shape and take layouts modulo.
    for li in range(12):
      n += 1
      yield f'k{(n * 37) % 1009:04d}', shape, n, li


def phase_save(c, arg):
  import jax
  from vmoe import multihost_utils
  from vmoe.checkpoints import base
  from vmoe.checkpoints import partitioned
  from vmoe.checkpoints import types
  from multiprocessing.pool import ThreadPool
  pool = ThreadPool(4)
  pid, np_ = jax.process_index(), jax.process_count()
  for ci, (num_shards, chunk, late) in enumerate(arg['configs']):
    cfg = dict(processes=np_, num_shards=num_shards, max_chunk_bytes=chunk, late=late)
    c.context = cfg
    tree, val, lay = {}, {}, {}
    for key, shape, salt, li in leaves():
      ls = layouts(shape)
      lay[key], sh = ls[(li + ci) % len(ls)]
      val[key] = value(shape, salt, ('float32', 'int32', 'float16')[salt % 3])
      tree[key] = make(val[key], sh)
    prefix = os.path.join(arg['dir'], f'cfg{ci}', 'ckpt_3')
    if late == pid:
      time.sleep(0.4)
    partitioned.save_checkpoint(prefix, tree, num_shards=num_shards,
                                max_chunk_bytes=chunk, thread_pool=pool).get()
    multihost_utils.sync_devices(f'done{ci}')
    expect = max(num_shards or 0, np_)
    files = sorted(os.listdir(os.path.dirname(prefix)))
    want = sorted(['ckpt_3.index'] + [
        os.path.basename(base.add_shard_suffix(prefix + '.data', i, expect))
        for i in range(expect)])
    c.require(files == want, 'unexpected set of files after all processes saved',
              {**cfg, 'files': files, 'want': want})
    if pid == 0:
      # On-disk accounting: every element of every leaf stored exactly once,
      # where the index says.
      order = sorted(tree)
      cover = {k: np.zeros(val[k].shape, np.int32) for k in tree}
      scal = {k: 0 for k in tree}
      where = {k: {} for k in tree}
      for i in range(expect):
        ch = base.restore_checkpoint(
            base.add_shard_suffix(prefix + '.data', i, expect), types.ArrayChunks())
        for leaf in ch.chunks:
          for data, sl in ch.iter_chunks(leaf):
            k = order[leaf]
            ix = tuple(s.slice for s in sl)
            c.require(data.dtype == val[k].dtype and np.array_equal(data, val[k][ix]),
                      'a stored chunk has the wrong values',
                      {**cfg, 'leaf': k, 'layout': lay[k], 'slice': str(sl)})
            cover[k][ix] += 1
            where[k][sl] = i
      index = base.restore_checkpoint(prefix + '.index')
      for k in tree:
        c.require((cover[k] == 1).all(),
                  'an element is not stored exactly once',
                  {**cfg, 'leaf': k, 'layout': lay[k], 'count': cover[k]})
        info = index['index'][k]
        got = dict(zip([types.SliceNd(s) for s in info.global_slices], info.shards))
        c.require(got == where[k], 'the index does not say where chunks are',
                  {**cfg, 'leaf': k, 'index': str(got), 'disk': str(where[k])})
        c.case(('disk', k, lay[k], np_, num_shards, chunk, late))
    multihost_utils.sync_devices(f'checked{ci}')


def phase_restore(c, arg):
  import jax
  import jax.numpy as jnp
  from vmoe.checkpoints import partitioned
  from multiprocessing.pool import ThreadPool
  pool = ThreadPool(4)
  np_ = jax.process_count()
  for ci, (num_shards, chunk, late) in enumerate(arg['configs']):
    for rot in arg['rots']:
      prefix = os.path.join(arg['dir'], f'cfg{ci}', 'ckpt_3')
      cfg = dict(saved_by=arg['saved_by'], restored_by=np_, num_shards=num_shards,
                 max_chunk_bytes=chunk, rot=rot)
      c.context = cfg
      tmpl, val, lay = {}, {}, {}
      for key, shape, salt, li in leaves():
        ls = layouts(shape)
        name, sh = ls[(li + rot) % len(ls)]
        val[key] = value(shape, salt, ('float32', 'int32', 'float16')[salt % 3])
        tmpl[key] = make(np.zeros_like(val[key]), sh)
        lay[key] = (name, sh)
      out = partitioned.restore_checkpoint(prefix, tmpl, thread_pool=pool)
      for k in tmpl:
        c.require(out[k].shape == val[k].shape and out[k].dtype == val[k].dtype and
                  out[k].sharding.is_equivalent_to(lay[k][1], val[k].ndim),
                  'restored array has another shape/dtype/layout', {**cfg, 'leaf': k})
        for s in out[k].addressable_shards:
          c.require(np.array_equal(np.asarray(s.data), val[k][s.index]),
                    'restored values differ',
                    {**cfg, 'leaf': k, 'layout': lay[k][0], 'index': str(s.index)})
        c.case((k, lay[k][0], np_, arg['saved_by'], num_shards, chunk, rot))
    if arg.get('none'):
      out = partitioned.restore_checkpoint(prefix, None, thread_pool=pool)
      for k in val:
        for s in out[k].addressable_shards:
          c.require(np.array_equal(np.asarray(s.data), val[k][s.index]),
                    'restored values differ (no template)', {**cfg, 'leaf': k})
        c.case((k, 'none', np_, arg['saved_by'], num_shards, chunk))


def run(c):
  grids = [(1, 8), (2, 4), (3, 2), (4, 2)] + c.q([], [(2, 2), (4, 1)])
  me = os.path.abspath(__file__)
  groups, dirs = [], {}
  for n, nd in grids:
    d = os.path.join(c.scratch(), f'p{n}x{nd}')
    os.makedirs(d)
    configs = []
    for ns, ch in itertools.product(
        c.q((None, 5), (None, 1, 2, 3, 5, 9)), c.q((None, 8, 40), (None, 1, 4, 8, 24, 40))):
      configs.append((ns, ch, (len(configs) % n) if n > 1 else None))
    dirs[(n, nd)] = (d, configs)
    groups.append(dict(n=n, ndev=nd, file=me, fn='phase_save',
                       arg=dict(dir=d, configs=configs)))
  half = (len(groups) + 1) // 2
  multiproc.launch(c, groups)
  c.sample({'grids': grids, 'configs': dirs[grids[1]][1][:4], 'leaves': len(list(leaves()))})
  groups = []
  for gi, (n, nd) in enumerate(grids):
    for src in grids:
      if not c.thorough and src != (n, nd) and (src[0] + n) % 2 == 0:
        continue
      d, configs = dirs[src]
      groups.append(dict(n=n, ndev=nd, file=me, fn='phase_restore',
                         arg=dict(dir=d, configs=configs, saved_by=src,
                                  rots=c.q((0, 4), (0, 1, 2, 4, 7)),
                                  none=True)))
  for i in range(0, len(groups), 4):
    multiproc.launch(c, groups[i:i + 4])
  c.count('process_groups', len(groups) + len(grids))
