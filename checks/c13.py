"""C13: bytes written by the serializer read back as the same values and types."""
import itertools
import math
import numpy as np
from mc import core

import flax
import flax.serialization
import jax
import jax.numpy as jnp
import ml_dtypes
from jax import core as jcore

LEVEL = 'exploration'
RULE = ('a case = one value (leaf, tree, slice, chunk table) serialized and '
        'deserialized by the real code and compared in type, dtype, shape and '
        'bits, for several array-splitting limits (including limits smaller '
        'than every array); distinct = (kind, value, limit)')
ASSUMPTIONS = ['trees of depth <= 3 and arrays of <= 64 elements; splitting of '
               'large arrays is reached by lowering flax\'s MAX_CHUNK_SIZE']

DTYPES = ['bool', 'int8', 'uint8', 'int16', 'uint16', 'int32', 'uint32',
          'int64', 'uint64', 'float16', 'float32', 'float64', 'complex64',
          'complex128', 'bfloat16']
SHAPES = [(), (1,), (0,), (3,), (7,), (2, 3), (0, 2), (3, 1, 2), (8, 8)]


def array(shape, dtype, salt=0):
  n = int(np.prod(shape))
  dt = jnp.bfloat16 if dtype == 'bfloat16' else np.dtype(dtype)
  a = (np.arange(n) * 3 + 1 + salt) % 11
  if dtype == 'bool':
    return (a % 2).astype(bool).reshape(shape)
  if dtype.startswith('complex'):
    return (a - 5j * a[::-1]).astype(dt).reshape(shape)
  if dtype.startswith('float'):
    a = a / 4 - 1
    a = a.astype(dt)
    if n > 2:
      a[0], a[1], a[2] = np.nan, np.inf, -0.0
    return a.reshape(shape)
  return a.astype(dt).reshape(shape)


def same(got, want):
  if isinstance(want, (np.ndarray, jax.Array)):
    want = np.asarray(want)
    return (isinstance(got, (np.ndarray, jax.Array)) and
            np.asarray(got).dtype == want.dtype and
            np.asarray(got).shape == want.shape and
            np.asarray(got).tobytes() == want.tobytes())
  if isinstance(want, np.generic):
    got_a, want_a = np.asarray(got), np.asarray(want)
    return got_a.dtype == want_a.dtype and got_a.tobytes() == want_a.tobytes()
  if isinstance(want, float) and math.isnan(want):
    return isinstance(got, float) and math.isnan(got)
  if isinstance(want, dict):
    return (isinstance(got, dict) and set(got) == set(want) and
            all(same(got[k], want[k]) for k in want))
  if isinstance(want, (list, tuple)) and type(want) in (list, tuple):
    return (type(got) is type(want) and len(got) == len(want) and
            all(same(g, w) for g, w in zip(got, want)))
  return type(got) is type(want) and got == want


def leaves():
  out = [None, True, False, 0, -1, 2**40, 0.5, -0.0, float('inf'), float('nan'),
         'text', '', b'bytes', 1 + 2j, np.float32(1.5), np.int64(-3),
         np.bool_(True), np.uint8(7), jnp.bfloat16(0.5)]
  out += [array(s, d) for s, d in itertools.product(SHAPES, DTYPES)]
  return out


def job(c, limit):
  if limit:
    flax.serialization.MAX_CHUNK_SIZE = limit
  from vmoe.checkpoints import serialization as ser
  from vmoe.checkpoints import types
  from vmoe.checkpoints import base

  def trip(kind, value, expect=None, target=None, low=False):
    """Serializes and restores; the input must not change."""
    expect = value if expect is None else expect
    info = {'kind': kind, 'value': value, 'limit': limit}
    c.context = info
    if low:
      data = ser.msgpack_serialize(value)
      got = ser.msgpack_restore(data)
    else:
      data = ser.to_bytes(value)
      got = (ser.msgpack_restore(data) if target is None
             else ser.from_bytes(target, data))
    c.case((kind, repr(value), limit))
    c.require(isinstance(data, bytes), 'serialized data is not bytes', info)
    c.require(same(got, expect), 'value changed by a round trip',
              lambda: {**info, 'got': got})
    return data, got

  ls = leaves()
  for x in ls:
    for wrap in (lambda v: {'a': v}, lambda v: {'b': {'x': v, 'c': {'d': v}}}):
      trip('tree', wrap(x))
      trip('msgpack', wrap(x), low=True)
    if isinstance(x, np.ndarray) and not isinstance(x, np.generic):
      j = {'a': x}
      before = x.copy()
      _ = ser.msgpack_serialize(j)
      c.require(j['a'] is x and before.tobytes() == x.tobytes(),
                'serialization modified its input', {'value': x, 'limit': limit})
      if x.dtype not in (np.int64, np.uint64, np.float64, np.complex128):
        trip('jax', {'a': jnp.asarray(x)}, {'a': x})
        trip('target', {'b': jnp.asarray(x), 'a': (x, [x])},
             target={'b': 0, 'a': (0, [0])}, expect={'b': x, 'a': (x, [x])})
  # Pairs of leaves in lists/tuples at the msgpack level.
  some = [None, 3, 0.5, 'k', array((7,), 'float32'), array((0,), 'int8'),
          np.float32(2), 1 - 1j, array((2, 3), 'bfloat16')]
  for x, y in itertools.product(some, repeat=2):
    trip('pair', {'p': {'0': x, '1': y}, 'q': x}, low=True)

  # Slices.
  ends = (None, 0, 1, 3, 250)
  slices = [types.Slice(a, b, s) for a in ends for b in ends for s in (None, 1, 2)]
  for s in slices:
    _, got = trip('slice', {'s': s})
    g = got['s']
    c.require(g.start == s.start and g.stop == s.stop and g.step == s.step and
              hash(g) == hash(s) and g.slice == slice(s.start, s.stop, s.step),
              'slice differs', {'slice': s, 'got': g})
  few = [types.Slice(0, 3), types.Slice(3, 7), types.Slice(0, 1), types.Slice(2, 2)]
  nds = [types.SliceNd(t) for n in range(4) for t in itertools.product(few, repeat=n)]
  arr = {n: np.arange(8 ** n).reshape((8,) * n) for n in range(4)}
  for nd in nds:
    _, got = trip('slice_nd', {'s': nd})
    c.require(isinstance(got['s'], types.SliceNd), 'type of a SliceNd', {'nd': nd})
    a = arr[len(nd)]
    c.require(np.array_equal(nd.chunk(a), a[tuple(x.slice for x in nd)]),
              'SliceNd.chunk', {'nd': nd})
  for n in (1, 2, 4, 6) if not limit else ():
    for shape in {(n,), (1, n), (n, 1)} | ({(2, n // 2)} if n % 2 == 0 else set()):
      sna = types.SliceNdArray.create(nds[5:5 + n], shape=shape)
      data = ser.to_bytes({'s': sna})
      got = ser.msgpack_restore(data)['s']
      c.case(('slice_nd_array', n, shape, limit))
      c.require(isinstance(got, types.SliceNdArray) and got.shape == shape and
                list(got.flat) == list(sna.flat), 'SliceNdArray',
                {'shape': shape, 'got': got})
  # Shaped arrays and index information.
  for shape, dt, weak in itertools.product(SHAPES, DTYPES, (False, True)):
    if dt in ('int64', 'uint64', 'float64', 'complex128'):
      continue
    sa = jcore.ShapedArray(shape, jnp.bfloat16 if dt == 'bfloat16' else np.dtype(dt),
                           weak_type=weak)
    data = ser.to_bytes({'x': sa})
    got = ser.msgpack_restore(data)['x']
    c.case(('shaped', shape, dt, weak, limit))
    c.require(tuple(got.shape) == shape and got.dtype == sa.dtype and
              got.weak_type == weak, 'ShapedArray', {'want': sa, 'got': got})
    for k in (0, 1, 3):
      ii = types.IndexInfo(sa, tuple(nds[5:5 + k]), tuple(range(40, 40 + k)))
      got = ser.msgpack_restore(ser.to_bytes({'x': {'y': ii}}))['x']['y']
      c.case(('index', shape, dt, weak, k, limit))
      c.require(isinstance(got, types.IndexInfo) and
                tuple(got.global_shape.shape) == shape and
                got.global_shape.dtype == sa.dtype and
                tuple(got.global_slices) == tuple(ii.global_slices) and
                tuple(got.shards) == tuple(ii.shards), 'IndexInfo',
                {'want': ii, 'got': got})
  # Chunk tables: what a shard file contains.
  for dt, shape in itertools.product(DTYPES, [(1,), (5,), (4, 3), (2, 3, 4)]):
    a = array(shape, dt)
    for cuts in itertools.product(*[range(1, n + 1) for n in shape[:2]]):
      lac = types.LazyArrayChunks()
      want = {}
      for idx, (i, arrx) in itertools.product(
          (3, 0, 12), enumerate((a, array(shape, dt, 2)))):
        for sl in ([types.Slice(0, k), types.Slice(k, n)]
                   for k, n in [(cuts[0], shape[0])]):
          for s0 in sl:
            if s0.stop <= s0.start:
              continue
            local = types.SliceNd([s0] + [types.Slice(0, n) for n in shape[1:]])
            glob = types.SliceNd(
                [types.Slice(s0.start + 10 * i, s0.stop + 10 * i)] +
                [types.Slice(5, 5 + n) for n in shape[1:]])
            lac.add(idx, arrx, local, glob)
            want.setdefault(idx, []).append(
                (glob, arrx[tuple(x.slice for x in local)]))
      data = ser.to_bytes(lac)
      got = ser.from_bytes(types.ArrayChunks(), data)
      c.case(('chunks', dt, shape, cuts, limit))
      info = {'dtype': dt, 'shape': shape, 'cuts': cuts, 'limit': limit}
      c.require(isinstance(got, types.ArrayChunks) and
                set(got.chunks) == set(want), 'chunk table indices', info)
      for idx, lst in want.items():
        pairs = list(got.iter_chunks(idx))
        c.require(len(pairs) == len(lst), 'number of chunks', info)
        for (ch, gs), (wgs, wch) in zip(pairs, lst):
          c.require(gs == wgs and same(np.asarray(ch), np.ascontiguousarray(wch)),
                    'chunk differs', lambda: {**info, 'got': ch, 'want': wch})
  # Files.
  d = c.scratch()
  import os
  for i, x in enumerate(ls[::7]):
    p = os.path.join(d, f'f{limit}', str(i))
    t = {'x': x, 'y': [np.arange(3), (x,)]}
    base.save_checkpoint(p, t)
    got = base.restore_checkpoint(p, {'x': 0, 'y': [0, (0,)]})
    c.case(('file', i, limit))
    c.require(same(got, t), 'value changed by a file round trip',
              lambda: {'value': t, 'got': got})
  many = {os.path.join(d, f'm{limit}', str(i)): {'x': x}
          for i, x in enumerate(ls[::5])}
  base.save_multiple_checkpoints_async(many).get()
  got = base.restore_multiple_checkpoints({k: {'x': 0} for k in many})
  c.require(list(got) == list(many) and all(same(got[k], many[k]) for k in many),
            'several files restored together', {'limit': limit})
  c.case(('files', limit))
  c.sample({'limit': limit, 'leaves': len(ls)})


def run(c):
  c.parallel([None, 1, 7, 16, 64] if not c.thorough else
             [None, 1, 2, 3, 4, 5, 7, 8, 9, 12, 16, 24, 64, 128], job)
