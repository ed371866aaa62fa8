"""C18: prefetching moves every batch to the mesh once, in order and unchanged."""
import itertools
import os

if not os.environ.get('MC_MULTIPROC'):
  os.environ['XLA_FLAGS'] = '--xla_force_host_platform_device_count=8'

import numpy as np

from mc import core
from mc import multiproc

import jax
import jax.numpy as jnp
import tensorflow as tf
from clu.data import dataset_iterator
from vmoe.data import pjit_utils

LEVEL = 'exploration'
RULE = ('a case = a whole stream of batches pulled through the real '
        'prefetch_to_device for one (mesh, device order, buffer size, number of '
        'batches, kinds of leaves), observing after every pull what was delivered '
        'and how far the source was read; distinct = case')
ASSUMPTIONS = ['up to 8 virtual devices in one process, and 2 or 4 real JAX processes '
               'with up to 2 devices each; up to 9 (12) batches; 32-bit and smaller types',
               'the source does not reuse its buffers']
Mesh = jax.sharding.Mesh


class Source:
  """Counts how many batches were read."""

  def __init__(self, n, make):
    self.n, self.read, self.make = n, 0, make

  def __iter__(self):
    return self

  def __next__(self):
    if self.read >= self.n:
      raise StopIteration
    self.read += 1
    return self.make(self.read - 1)


def leaf(kind, k, b, base=0):
  """Batch k: rows are numbered so that every row of every batch is unique."""
  rows = base + 1 + k * b + np.arange(b)
  if kind == 'f32':
    return (rows[:, None] * np.array([1., 0.5, -2.])).astype(np.float32)
  if kind == 'i32':
    return rows.astype(np.int32)
  if kind == 'u8':
    return (rows[:, None, None] % 251 + np.zeros((1, 2, 2))).astype(np.uint8)
  if kind == 'f16':
    return rows.astype(np.float16)
  if kind == 'bool':
    return rows % 3 == 0
  if kind == 'str':
    return np.array([b'r%d' % r for r in rows], dtype=object)
  if kind == 'tf':
    return tf.constant(rows[:, None] * np.ones((1, 2)), tf.float32)
  if kind == 'ragged':
    return tf.ragged.constant([[int(r)] * (i % 3) for i, r in enumerate(rows)])
  raise ValueError(kind)


def check_leaf(c, kind, got, want, mesh, case):
  if kind == 'ragged':
    c.require(isinstance(got, tf.RaggedTensor) and got.to_list() == want.to_list(),
              'a ragged tensor was changed', case)
    return
  if kind == 'str':
    c.require(isinstance(got, np.ndarray) and got.tolist() == want.tolist(),
              'an array of strings was changed', case)
    return
  want = want.numpy() if kind == 'tf' else want
  c.require(isinstance(got, jax.Array), f'{kind}: got a {type(got)}', case)
  c.require(got.dtype == want.dtype and got.shape == want.shape,
            f'{kind}: {got.dtype}{got.shape}, expected {want.dtype}{want.shape}', case)
  c.require(np.array_equal(np.asarray(got), want), f'{kind}: values changed', case)
  devs = list(mesh.devices.flat)
  per = want.shape[0] // len(devs)
  shards = {s.device: np.asarray(s.data) for s in got.addressable_shards}
  c.require(set(shards) == set(devs), f'{kind}: shards on {sorted(map(str, shards))}', case)
  for i, d in enumerate(devs):
    c.require(np.array_equal(shards[d], want[i * per:(i + 1) * per]),
              f'{kind}: device {d} (position {i} of the mesh) holds '
              f'{shards[d].ravel()[:4]}', case)


def meshes(c):
  d = jax.devices()
  for n in (1, 2, 4, 8):
    yield d[:n], (n,), ('d',)
  yield d[:4], (2, 2), ('expert', 'replica')
  yield d, (4, 2), ('expert', 'replica')
  yield d, (2, 2, 2), ('a', 'b', 'c')
  yield d[:3], (3,), ('d',)
  perms = list(itertools.permutations(range(4)))
  for p in perms if c.thorough else perms[1::3]:
    yield [d[i] for i in p], (2, 2), ('expert', 'replica')
  yield d[::-1], (8,), ('d',)
  yield d[4:] + d[:4], (2, 4), ('expert', 'replica')


KINDS = ('f32', 'i32', 'u8', 'f16', 'bool', 'str', 'tf', 'ragged')


def job_stream(c, explicit):
  for devs, shape, names in meshes(c):
    mesh = Mesh(np.asarray(devs, dtype=object).reshape(shape), names)
    nd = len(devs)
    for size, n, per in itertools.product(
        (None, -1, 0, 1, 2, 3, 7), c.q((0, 1, 2, 4, 9), (0, 1, 2, 3, 4, 5, 6, 12)), (1, 2)):
      b = nd * per
      case = dict(mesh=shape, devices=[x.id for x in devs], size=size, batches=n,
                  batch=b)
      c.context = case
      make = lambda k: {'x': {kd: leaf(kd, k, b) for kd in KINDS},
                        'y': [leaf('i32', k, b), leaf('f32', k, b)]}
      src = Source(n, make)
      if explicit:
        it = pjit_utils.prefetch_to_device(src, size, mesh)
        got = pull(c, it, src, n, size, mesh, b, case)
      else:
        with mesh:
          it = pjit_utils.prefetch_to_device(src, size)
          got = pull(c, it, src, n, size, mesh, b, case)
      c.require(got == n, f'{got} of {n} batches delivered', case)
      c.case(('stream', explicit, shape, str([x.id for x in devs]), size, n, per))


def pull(c, it, src, n, size, mesh, b, case):
  ahead = max(size or 0, 0)
  for k in range(n):
    try:
      x = next(it)
    except StopIteration:
      return k
    c.transition()
    c.require(k + 1 <= src.read <= k + 1 + ahead,
              f'{src.read} batches read when batch {k + 1} is delivered, with a '
              f'buffer of {size}', case)
    c.require(set(x) == {'x', 'y'} and set(x['x']) == set(KINDS) and len(x['y']) == 2,
              'structure of the batch changed', case)
    if size == 1 or k == n - 1:
      for kd in KINDS:
        check_leaf(c, kd, x['x'][kd], leaf(kd, k, b), mesh, case)
    for i, kd in enumerate(('i32', 'f32')):
      check_leaf(c, kd, x['y'][i], leaf(kd, k, b), mesh, case)
  try:
    next(it)
  except StopIteration:
    return n
  return n + 1


def job_reject(c):
  """Batches that cannot be split evenly are refused, never truncated."""
  d = jax.devices()
  for n, b, size in itertools.product(range(1, 9), range(1, 17), (0, 2)):
    mesh = Mesh(np.asarray(d[:n]), ('d',))
    case = dict(devices=n, batch=b, size=size)
    c.context = case
    try:
      x = next(pjit_utils.prefetch_to_device(iter([leaf('f32', 0, b)]), size, mesh))
      ok = True
    except ValueError:
      ok = False
    c.require(ok == (b % n == 0), f'{"accepted" if ok else "rejected"}', case)
    if ok:
      check_leaf(c, 'f32', x, leaf('f32', 0, b), mesh, case)
    c.case(('reject', n, b, size))


class Spec:
  def __init__(self, spec):
    self.element_spec = spec


def job_struct(c):
  """The announced shapes/shardings are those of the delivered arrays."""
  for devs, shape, names in meshes(c):
    mesh = Mesh(np.asarray(devs, dtype=object).reshape(shape), names)
    b = 2 * len(devs)
    batch = {kd: leaf(kd, 0, b) for kd in ('f32', 'i32', 'u8', 'f16', 'bool', 'tf')}
    for as_tf in (False, True):
      mk = (lambda x: tf.TensorSpec(x.shape, x.dtype)) if as_tf else (
          lambda x: dataset_iterator.ArraySpec(
              np.dtype(getattr(x.dtype, 'as_numpy_dtype', x.dtype)), tuple(x.shape)))
      for ctx in (False, True):
        case = dict(mesh=shape, devices=[x.id for x in devs], tf_spec=as_tf)
        c.context = case
        if ctx:
          with mesh:
            st = pjit_utils.get_dataset_shape_dtype_struct(
                Spec({k: mk(v) for k, v in batch.items()}))
        else:
          st = pjit_utils.get_dataset_shape_dtype_struct(
              Spec({k: mk(v) for k, v in batch.items()}), mesh)
        x = next(pjit_utils.prefetch_to_device(iter([dict(batch)]), 0, mesh))
        for k in batch:
          c.require(tuple(st[k].shape) == x[k].shape and st[k].dtype == x[k].dtype,
                    f'{k}: announced {st[k]}, delivered {x[k].dtype}{x[k].shape}', case)
          c.require(st[k].sharding.is_equivalent_to(x[k].sharding, x[k].ndim),
                    f'{k}: announced {st[k].sharding}, delivered {x[k].sharding}', case)
        c.case(('struct', shape, str([x.id for x in devs]), as_tf, ctx))


def multi(c, arg):
  """Several processes: the global batch is made of every process's rows, once."""
  from jax.experimental import multihost_utils
  P, p = jax.process_count(), jax.process_index()
  devs = sorted(jax.devices(), key=lambda d: (d.process_index, d.id))
  nd = len(devs)
  if arg['thorough'] and nd <= 4:
    perms = list(itertools.permutations(range(nd)))
  else:
    perms = [tuple(range(nd)), tuple(range(nd))[::-1],
             tuple(range(0, nd, 2)) + tuple(range(1, nd, 2)),
             tuple(range(1, nd)) + (0,)]
  for perm in perms:
    order = [devs[i] for i in perm]
    for shape in {(nd,), (2, nd // 2)}:
      mesh = Mesh(np.asarray(order, dtype=object).reshape(shape), ('a', 'b')[:len(shape)])
      for size, n, per in itertools.product((0, 2), (3,), (1, 2)):
        b = per * nd // P
        case = dict(processes=P, mesh=shape, order=perm, size=size, batches=n, batch=b)
        c.context = case
        # Rows of process p in batch k: unique numbers.
        src = Source(n, lambda k: {'a': leaf('i32', k, b, 1000 * p),
                                   'b': leaf('f32', k, b, 1000 * p)})
        got = 0
        for k, x in enumerate(pjit_utils.prefetch_to_device(src, size, mesh)):
          got += 1
          c.transition()
          c.require(x['a'].shape == (b * P,) and x['b'].shape == (b * P, 3),
                    f'global shapes {x["a"].shape} {x["b"].shape}', case)
          a = np.concatenate([np.asarray(s.data) for s in x['a'].addressable_shards])
          loc = leaf('i32', k, b, 1000 * p)
          c.require(sorted(a.tolist()) == loc.tolist(),
                    f'process {p} holds rows {a} of {loc}', case)
          for s, t in zip(sorted(x['a'].addressable_shards, key=lambda s: s.device.id),
                          sorted(x['b'].addressable_shards, key=lambda s: s.device.id)):
            c.require(s.index[0] == t.index[0] and np.array_equal(
                np.asarray(s.data).astype(np.float32), np.asarray(t.data)[:, 0]),
                      'the rows of two features are not aligned', case)
          g = np.asarray(multihost_utils.process_allgather(x['a'], tiled=True))
          want = sorted(r for q in range(P) for r in leaf('i32', k, b, 1000 * q))
          c.require(sorted(g.tolist()) == want,
                    f'global batch {g.tolist()}, the processes read {want}', case)
        c.require(got == n, f'{got} of {n} batches delivered', case)
        st = pjit_utils.get_dataset_shape_dtype_struct(
            Spec({'a': dataset_iterator.ArraySpec(np.dtype(np.int32), (b,))}), mesh)
        c.require(tuple(st['a'].shape) == x['a'].shape,
                  f'announced {st["a"].shape}, delivered {x["a"].shape}', case)
        c.case(('multi', P, shape, perm, size, per))


def run_job(c, job):
  if job[0] == 'multi':
    multiproc.launch(c, [dict(n=job[1], ndev=job[2], file=os.path.abspath(__file__),
                              fn='multi', arg=dict(thorough=c.thorough))])
  else:
    {'stream': job_stream, 'reject': job_reject, 'struct': job_struct}[job[0]](
        c, *job[1:])


def run(c):
  c.parallel([('multi', 2, 2), ('multi', 4, 1), ('stream', True), ('stream', False),
              ('reject',), ('struct',)], run_job)
