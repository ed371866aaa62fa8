"""C22: initialization maps every checkpoint array to its target, and only there."""
import itertools
import os
import re
import shutil
import warnings

os.environ['XLA_FLAGS'] = '--xla_force_host_platform_device_count=4'

import numpy as np

from mc import core
from mc import stubs
stubs.install()

import flax
import jax
import jax.numpy as jnp
import optax
from orbax import checkpoint as orbax_checkpoint
from vmoe import checkpoints as vmoe_checkpoints
from vmoe import initialization
from vmoe.checkpoints import partitioned
from vmoe.initialization import mapping
from vmoe.initialization import rules as rules_lib
from vmoe.train import train_state

warnings.filterwarnings('ignore', message='Some donated buffers')

LEVEL = 'exploration'
RULE = ('a case = one (source tree, target tree, ordered rules, options) given to the '
        'real mapping (or written to disk and given to the real initializers), the '
        'result or the refusal being compared with a reference mapping; distinct = case')
ASSUMPTIONS = ['trees of up to 8 small arrays, lists of up to 2 (3) of 18 rules, 4 virtual '
               'devices; stacked names have unsigned numbers; one stack rule per target',
               'Orbax checkpoints are written by the installed orbax plus the structure '
               'file of its old format; vit_jax is replaced by a reader of npz files']
P = jax.sharding.PartitionSpec
NS = jax.sharding.NamedSharding
MESHES = {}


def mesh(shape=(2, 2)):
  if shape not in MESHES:
    MESHES[shape] = jax.sharding.Mesh(
        np.asarray(jax.devices()).reshape(shape), ('x', 'y'))
  return MESHES[shape]


class Refused(Exception):
  pass


# Reference transformations, in numpy. #######################################


def lin(a, axis, m):
  """Linear interpolation of a from a.shape[axis] to m points, ends aligned."""
  n = a.shape[axis]
  if n == m:
    return a
  pos = np.arange(m) * ((n - 1) / (m - 1) if m > 1 else 0.)
  lo = np.minimum(np.floor(pos).astype(int), n - 1)
  hi = np.minimum(lo + 1, n - 1)
  w = (pos - lo).reshape([-1 if i == axis else 1 for i in range(a.ndim)])
  return np.take(a, lo, axis) * (1 - w) + np.take(a, hi, axis) * w


def zoom(a, shape):
  a = a.astype(np.float64)
  for i, m in enumerate(shape):
    a = lin(a, i, m)
  return a


def vit_zoom(a, tshape, ttok):
  ns, nt = a.shape[1], tshape[1]
  gs, gt = int(np.sqrt(ns)), int(np.sqrt(nt))
  stok, ttok_ = ns - gs * gs, nt - gt * gt
  if stok > 1 or ttok_ > 1:
    raise Refused('grid')
  g = zoom(a[:, stok:].reshape(1, gs, gs, -1), (1, gt, gt, a.shape[2]))
  g = g.reshape(1, gt * gt, -1)
  if ttok_:
    g = np.concatenate([a[:, :1] if stok else ttok, g], axis=1)
  return g


def natural(name):
  return [int(t) if t.isdigit() else t for t in re.split(r'(\d+)', name)]


def reference(src, dst, rules, dtype_err, shape_err, src_err, dst_err):
  """src, dst: flat dicts of numpy arrays (None: empty node). Returns a flat dict."""
  got = {}
  for k in sorted(src, key=natural):
    for rule in rules:
      if re.search(rule[0], k):
        break
    else:
      if src_err:
        raise Refused('source')
      rule = ('^(.*)$', r'\1')
    if not rule[1]:
      continue
    d = re.sub(rule[0], rule[1], k)
    if d not in dst:
      raise Refused('missing')
    stack = len(rule) > 2 and rule[2] == 'stack'
    if d in got and not (stack and got[d][0] == rule):
      raise Refused('twice')
    if (src[k] is None) != (dst[d] is None):
      raise Refused('empty')
    if src[k] is None:
      got[d] = (rule, [])
      continue
    got.setdefault(d, (rule, []))[1].append(src[k])
  out = {}
  for d, v in dst.items():
    if d not in got:
      if v is not None and dst_err:
        raise Refused('unmatched')
      out[d] = ('kept', v)
      continue
    rule, xs = got[d]
    if v is None:
      out[d] = ('kept', None)
      continue
    tr = rule[2:] if len(rule) > 2 else ('copy',)
    x = xs[0]
    if tr[0] == 'stack':
      if any(y.shape != x.shape for y in xs):
        raise Refused('stack')
      y = np.stack(xs, tr[1])
    elif tr[0] == 'copy':
      y = x
    elif tr[0] == 'reshape':
      shape = tr[1] if len(tr) > 1 and tr[1] else v.shape
      if int(np.prod(shape)) != x.size:
        raise Refused('reshape')
      y = x.reshape(shape)
    elif tr[0] == 'squeeze':
      if not -x.ndim <= tr[1] < x.ndim or x.shape[tr[1]] != 1:
        raise Refused('squeeze')
      y = np.squeeze(x, tr[1])
    elif tr[0] == 'expand_tile':
      axes = (tr[1],) if isinstance(tr[1], int) else tr[1]
      reps = (tr[2],) if isinstance(tr[2], int) else tr[2]
      if len(axes) != len(reps):
        raise Refused('axes')
      y = np.expand_dims(x, axes)
      for a, r in zip(axes, reps):
        y = np.concatenate([y] * r, a)
    elif tr[0] == 'zoom':
      if x.ndim != v.ndim:
        raise Refused('zoom')
      y = zoom(x, v.shape)
    elif tr[0] == 'vit_zoom':
      if (x.ndim != 3 or v.ndim != 3 or x.shape[0] != 1 or v.shape[0] != 1
          or x.shape[2] != v.shape[2]):
        raise Refused('vit_zoom')
      y = vit_zoom(x, v.shape, v[:, :1])
    if x.dtype != v.dtype and dtype_err:
      raise Refused('dtype')
    if y.shape != v.shape:
      if shape_err:
        raise Refused('shape')
      try:
        y = np.broadcast_to(y, v.shape)
      except ValueError:
        raise Refused('broadcast')
    out[d] = ('new', np.asarray(y).astype(v.dtype))
  return out


# Comparison with the real mapping. ###########################################


def flat(tree):
  f = flax.traverse_util.flatten_dict(flax.serialization.to_state_dict(tree), sep='/',
                                      keep_empty_nodes=True)
  return {k: None if v is flax.traverse_util.empty_node else v for k, v in f.items()}


def npy(x):
  x = np.asarray(x)
  return x.astype(np.float32) if x.dtype == jnp.bfloat16 else x




def compare(c, case, src_np, dst_np, rules, flags, call, shardings=None, tol=1e-6,
            structs=()):
  """call() -> real output tree (or raises)."""
  c.context = case
  c.case(repr(case))
  try:
    want = reference(src_np, dst_np, rules, *flags)
  except Refused as e:
    want = e
  try:
    got = call()
  except Exception as e:  # pylint: disable=broad-except
    c.require(isinstance(want, Refused),
              lambda: f'refused with {type(e).__name__}: {str(e)[:200]}', case)
    return
  if isinstance(want, Refused):
    c.fail(f'accepted, but it should be refused ({want})', case)
    return
  gf = flat(got)
  c.require(list(gf) == list(dst_np) or set(gf) == set(dst_np),
            lambda: f'keys {sorted(gf)} vs {sorted(dst_np)}', case)
  for k, (what, w) in want.items():
    g = gf[k]
    if w is None:
      c.require(g is None, lambda: f'{k}: {g} instead of an empty node', case)
      continue
    if what == 'kept' and k in structs:
      c.require(isinstance(g, jax.ShapeDtypeStruct) and g.shape == w.shape,
                lambda: f'{k}: {g} instead of the original struct', case)
      continue
    c.require(g.dtype == w.dtype and g.shape == w.shape,
              lambda: f'{k}: {g.dtype}{g.shape} instead of {w.dtype}{w.shape}', case)
    c.require(np.allclose(npy(g), npy(w), rtol=tol, atol=tol),
              lambda: f'{k} ({what}): {npy(g).tolist()} instead of {npy(w).tolist()}', case)
    if shardings and k in shardings and what == 'new':
      c.require(g.sharding.is_equivalent_to(shardings[k], g.ndim),
                lambda: f'{k}: sharded as {g.sharding}, not {shardings[k]}', case)
    c.transition()


RULES = [
    (r'^a$', 'b'), (r'^b$', 'a'), (r'^(a|b)$', r'\1'), (r'(.*)', r'\1'), (r'.*', None),
    (r'^c/', ''), (r'c/(.*)', r'd/\1'), (r'^d/(.*)$', r'c/\1'), ('a', 'c/k'),
    (r'l_?\d+', 'stk', 'stack', 0), (r'^l\d+', 'stk2', 'stack', 1), (r'^l1$', 'one'),
    (r'^e$', 'e', 'reshape'), (r'^e$', 'a', 'reshape', (2,)), (r'^(e|f)', r'\1', 'squeeze', 0),
    (r'^(b)$', r'e', 'expand_tile', 0, 2), (r'k$', 'k'), (r'^g$', 'g'),
]


def arr(i, *shape, dtype=np.float32):
  n = int(np.prod(shape))
  return (np.arange(n, dtype=np.float32) + 100 * i).reshape(shape).astype(dtype)


SOURCES = [
    {'a': arr(1, 2), 'b': arr(2, 2), 'c': {'k': arr(3, 2)}},
    {'l1': arr(1, 2), 'l10': arr(2, 2), 'l2': arr(3, 2), 'a': arr(4, 2), 'g': {}},
    {'e': arr(1, 1, 2), 'f': arr(2, 1, 2), 'b': arr(3, 2, dtype=np.int32),
     'c': {'k': arr(4, 2), 'm': arr(5, 2)}},
]
TARGETS = [
    {'a': arr(11, 2), 'b': arr(12, 2), 'c': {'k': arr(13, 2)}},
    {'a': arr(11, 2), 'b': arr(12, 2), 'stk': arr(13, 3, 2), 'stk2': arr(14, 2, 3),
     'one': arr(15, 2), 'l1': arr(16, 2), 'l2': arr(17, 2), 'l10': arr(18, 2), 'g': {}},
    {'e': arr(11, 2, 2), 'f': arr(12, 2), 'a': arr(13, 2, dtype=np.int32), 'b': arr(14, 2),
     'c': {'k': arr(15, 2), 'm': arr(16, 2)}, 'd': {'k': arr(17, 2), 'm': arr(18, 2)},
     'g': {}},
    {'k': arr(11, 2), 'e': arr(12, 2), 'f': arr(13, 3, 2)},
]


def job_rules(c, si, ti, depth, part, parts):
  src, dst = SOURCES[si], TARGETS[ti]
  fs, fd = flat(src), flat(dst)
  allflags = list(itertools.product((False, True), repeat=4))
  sels = [s for n in range(depth + 1) for s in itertools.permutations(range(len(RULES)), n)]
  for i, sel in enumerate(sels[part::parts]):
    rules = [RULES[j] for j in sel]
    # All the options for short lists; longer ones take the permissive and the strict ones.
    for flags in (allflags if len(sel) < 2 else
                  [(False,) * 4, (False, True, True, True), (True, True, False, False)]):
      if (len(sel) >= 2 and flags != (False,) * 4):
        # A refusal must not depend on running anything: skip what was refused above
        # unless the reference accepts it under these options.
        try:
          reference(fs, fd, rules, *flags)
        except Refused:
          if i % 4:
            continue
      compare(c, dict(source=si, target=ti, rules=rules, flags=flags), fs, fd, rules, flags,
              lambda: mapping.map_state_dict(
                  jax.tree_util.tree_map(jnp.asarray, src),
                  jax.tree_util.tree_map(jnp.asarray, dst), rules,
                  raise_if_dtype_mismatched=flags[0], raise_if_shape_mismatched=flags[1],
                  raise_if_source_unmatched=flags[2], raise_if_target_unmatched=flags[3]))


def specs_for(shape):
  out = [P()]
  for i, n in enumerate(shape):
    if n % 2 == 0:
      out.append(P(*[None] * i, 'x'))
      out.append(P(*[None] * i, 'y'))
    if n % 4 == 0:
      out.append(P(*[None] * i, ('x', 'y')))
  return out


def transform(c, name, tr, xs, v, names=('s',), structs=False, in_mesh=False,
              sspec=P(), tspec=P(), dtype=None, tol=1e-6, keep=False):
  """One transformation between sharded arrays."""
  src = dict(zip(names, xs))
  v = v if dtype is None else v.astype(dtype)
  pat = '^s' if len(names) == 1 else r'^[a-z]+_?\d+.*$'
  rules = [(pat, 't') + tr]
  fd = {'t': v}
  if keep:
    fd['keep'] = arr(9, 2)
  m = mesh()
  ss, ts = NS(m, sspec), NS(m, tspec)
  case = dict(kind=name, rule=rules[0], shapes=[x.shape for x in xs], target=v.shape,
              dtype=str(v.dtype), source_spec=str(sspec), target_spec=str(tspec),
              names=names, structs=structs, in_mesh=in_mesh)

  def call():
    s = {k: jax.device_put(x, ss) for k, x in src.items()}
    t = {'t': (jax.ShapeDtypeStruct(v.shape, v.dtype, sharding=ts) if structs
               else jax.device_put(v, ts))}
    if keep:
      t['keep'] = jax.device_put(fd['keep'], NS(m, P()))
    if in_mesh:
      with m:
        return mapping.map_state_dict(s, t, rules, raise_if_target_unmatched=False)
    return mapping.map_state_dict(s, t, rules, raise_if_target_unmatched=False)

  compare(c, case, src, fd, rules, (False, True, True, False), call, {'t': ts}, tol,
          structs=('t',) if structs else ())


def job_shardings(c, kind):
  """Every source and target sharding, target arrays or structs, and dtypes."""
  grid = {
      'copy': ((), (4, 2), (4, 2)), 'reshape': (('reshape',), (4, 2), (2, 4)),
      'squeeze': (('squeeze', 1), (4, 1, 2), (4, 2)),
      'expand_tile': (('expand_tile', 0, 4), (2,), (4, 2)),
      'zoom': (('zoom',), (4, 2), (2, 4)),
      'vit_zoom': (('vit_zoom',), (1, 4, 2), (1, 16, 2)),
  }
  tr, a, b = grid[kind]
  x, v = arr(1, *a) * 0.5, arr(7, *b)
  for sspec in specs_for(a):
    for tspec in specs_for(b):
      transform(c, kind, tr, [x], v, sspec=sspec, tspec=tspec, structs=True,
                in_mesh=kind.endswith('zoom'))
  for structs in (False, True):
    for in_mesh in (False, True):
      for dtype in ('float32', 'int32', jnp.bfloat16):
        transform(c, kind, tr, [x], v, structs=structs, in_mesh=in_mesh, keep=True,
                  tspec=specs_for(b)[-1], dtype=dtype, tol=1e-2 if dtype == jnp.bfloat16
                  else 1e-6)


def job_tile(c, big):
  for shape in [(), (2,), (2, 3)]:
    n = len(shape)
    x = arr(1, *shape)
    for k in (1, 2):
      for axes in itertools.product(range(-n - k, n + k), repeat=k):
        if len({a % (n + k) for a in axes}) < k:
          continue
        for reps in itertools.product((1, 2, 3), repeat=k):
          if not big and k == 2 and reps not in ((1, 2), (2, 3), (3, 1)):
            continue
          y = np.expand_dims(x, axes)
          for a, r in zip(axes, reps):
            y = np.concatenate([y] * r, a)
          transform(c, 'tile', ('expand_tile', axes, reps), [x], np.zeros_like(y),
                    structs=True)
          if k == 1:
            transform(c, 'tile1', ('expand_tile', axes[0], reps[0]), [x],
                      np.zeros_like(y), structs=True)
  transform(c, 'tile_bad', ('expand_tile', (0, 1), (2,)), [arr(1, 2)], arr(2, 2, 1, 2),
            structs=True)


def job_stack(c, big):
  sets = [('l_1', 'l_2'), ('l_10', 'l_2', 'l_1'), ('l10', 'l9', 'l100', 'l11'),
          ('b2/k', 'b10/k', 'b1/k'), ('b1_x2', 'b1_x10', 'b2_x1', 'b10_x0'), ('l_7',),
          ('l_02', 'l_1', 'l_03')]
  for names in sets:
    orders = list(itertools.permutations(names)) if len(names) < 4 or big else [
        names, names[::-1], names[1:] + names[:1]]
    for order in orders:
      for axis in (-1, 0, 1):
        xs = [arr(1 + names.index(nm), 2) for nm in order]
        by = [xs[order.index(nm)] for nm in sorted(order, key=natural)]
        v = np.zeros_like(np.stack(by, axis))
        transform(c, 'stack', ('stack', axis), xs, v, names=order, structs=True,
                  tspec=specs_for(v.shape)[-1])


def job_reshape(c):
  for shape in [(), (1,), (6,), (2, 3), (1, 6, 1), (3, 1, 2)]:
    x = arr(1, *shape)
    for t in [(), (1,), (6,), (2, 3), (3, 2), (1, 6), (6, 1, 1), (5,)]:
      for given in (None, t):
        transform(c, 'reshape', ('reshape',) + (() if given is None else (given,)), [x],
                  np.zeros(t, np.float32), structs=True)
    for axis in range(-3, 3):
      try:
        t = np.squeeze(x, axis).shape
      except Exception:  # pylint: disable=broad-except
        t = (6,)
      transform(c, 'squeeze', ('squeeze', axis), [x], np.zeros(t, np.float32), structs=True)


def wave(*shape):
  n = int(np.prod(shape))
  return (np.cos(np.arange(n) * 1.7) * 3).reshape(shape).astype(np.float32)


def job_zoom(c, n):
  for a in itertools.product(range(1, n + 1), repeat=2):
    for b in itertools.product(range(1, n + 1), repeat=2):
      transform(c, 'zoom', ('zoom',), [wave(*a)], np.zeros(b, np.float32), structs=True,
                tol=1e-5)
  for a, b in itertools.product(range(1, n + 3), repeat=2):
    transform(c, 'zoom1', ('zoom',), [wave(a)], np.zeros(b, np.float32), structs=False,
              tol=1e-5)


def job_vit(c, n):
  for a in range(1, n * n + 2):
    for b in range(1, n * n + 2):
      for structs in (False, True):
        sq = lambda k: int(np.sqrt(k)) ** 2 != k  # pylint: disable=cell-var-from-loop
        if structs and sq(b) and not sq(a):
          continue   # The class token embedding is drawn at random.
        transform(c, 'vit', ('vit_zoom',), [wave(1, a, 2)], wave(1, b, 2) + 50,
                  structs=structs, tol=1e-5)
  for sa, sb in (((1, 4, 2), (1, 9, 3)), ((2, 4, 2), (1, 4, 2)), ((1, 4, 2), (2, 4, 2)),
                 ((4, 2), (1, 4, 2)), ((1, 4, 2), (4, 2)), ((1, 6, 2), (1, 4, 2))):
    transform(c, 'vit_bad', ('vit_zoom',), [wave(*sa)], wave(*sb), structs=False)


# Real checkpoints. ###########################################################


def init_tree():
  return {'params': {'enc': {'block_0': {'kernel': arr(1, 4, 4), 'bias': arr(2, 4)},
                             'block_1': {'kernel': arr(3, 4, 4), 'bias': arr(4, 4)}},
                     'head': arr(5, 4, 4, dtype=jnp.bfloat16)},
          'step': np.asarray(7, np.int32)}


INIT_RULES = [
    [(r'(.*)', r'\1')],
    [(r'params/enc/block_\d+/(.*)', r'params/enc/all/\1', 'stack', 0), ('step', None),
     ('(params/head)', r'\1')],
    [(r'block_0/kernel', 'block_0/kernel'), (r'block_1/bias', ''),
     (r'^(params/enc/block_)1/kernel', r'\g<1>1/kernel')],
    [(r'^(params/enc)/block_0/(.*)', r'\1/moe/\2', 'expand_tile', 0, 2), ('.*', None)],
    [],
]
INIT_TARGETS = [
    lambda t: t,
    lambda t: {'params': {'enc': {'all': {'kernel': arr(21, 2, 4, 4), 'bias': arr(22, 2, 4)}},
                          'head': arr(23, 4, 4)}},
    lambda t: t,
    lambda t: {'params': {'enc': {'moe': {'kernel': arr(21, 2, 4, 4), 'bias': arr(22, 2, 4)}},
                          'new': arr(24, 3)}},
    lambda t: t,
]


REGEXES = [None, (), (('kernel', ('x', 'y')), ('bias', (('x', 'y'),))), (('.*', ('y',)),)]


def write_vmoe(path, tree, spec_i, m, version):
  def put(p, x):
    key = '/'.join(str(k.key) for k in p)
    s = P()
    for r, sp in REGEXES[spec_i] or ():
      if re.search(r, key) and x.size > 1:
        s = P(*sp)
        break
    return jax.device_put(x, NS(m, s))
  arrays = jax.tree_util.tree_map_with_path(put, tree)
  vmoe_checkpoints.save_checkpoint_partitioned(prefix=path, tree=arrays).wait()
  if not version:
    idx = vmoe_checkpoints.restore_checkpoint(path + '.index')
    idx.pop('version')
    vmoe_checkpoints.save_checkpoint(path + '.index', idx, overwrite=True)


def job_init(c, kind, spec_i, big):
  d = os.path.join(c.scratch(), f'init_{kind}_{spec_i}')
  os.makedirs(d, exist_ok=True)
  n = 0
  for ri, ms, mt in itertools.product(range(len(INIT_RULES)), (0, 1), (0, 1)):
    for version in (True, False):
      if not version and (kind != 'vmoe' or ri not in (0, 2, 4)):
        continue
      for reg in range(len(REGEXES)):
        if not big and reg != (ri + spec_i + ms) % 4 and not (ri == 0 and mt == 0):
          continue
        n += 1
        src = init_tree()
        dst = jax.tree_util.tree_map(
            lambda x: x + np.asarray(50, x.dtype), INIT_TARGETS[ri](src))
        rules = INIT_RULES[ri]
        tm = mesh((2, 2) if mt else (4, 1))
        tshard = lambda x: NS(tm, specs_for(x.shape)[-1])  # pylint: disable=cell-var-from-loop
        target = jax.tree_util.tree_map(lambda x: jax.device_put(x, tshard(x)), dst)
        path = os.path.join(d, f'{kind}_{n}')
        kw = dict(rules=rules, mesh=tm, axis_resources_regexes=REGEXES[reg],
                  raise_if_source_unmatched=False, raise_if_target_unmatched=False)
        if kind == 'vmoe':
          write_vmoe(path, src, spec_i, mesh((2, 2) if ms else (1, 4)), version)
          call = lambda: initialization.initialize_from_vmoe(  # pylint: disable=g-long-lambda
              target=target, prefix=path, **kw)
        elif kind == 'vit':
          fsrc = flat(src)
          with open(path, 'wb') as fp:
            np.savez(fp, **fsrc)
          call = lambda: initialization.initialize_from_vit(  # pylint: disable=g-long-lambda
              target=target, filepath=path, **kw)
        else:
          arrays = jax.tree_util.tree_map(
              lambda x: jax.device_put(x, NS(mesh(), specs_for(x.shape)[
                  -1 if spec_i else 0])), src)
          ck = orbax_checkpoint.PyTreeCheckpointer(use_ocdbt=False, use_zarr3=False)
          ck.save(path, arrays)
          ph = flax.traverse_util.unflatten_dict(
              {k: 'PLACEHOLDER://' + k.replace('/', '.') for k in flat(src)}, sep='/')
          with open(os.path.join(path, 'checkpoint'), 'wb') as fp:
            fp.write(flax.serialization.msgpack_serialize(ph))
          call = lambda: initialization.initialize_from_orbax(  # pylint: disable=g-long-lambda
              target=target, directory=path, **kw)
        compare(c, dict(kind=kind, rules=rules, saved=spec_i, mesh=(ms, mt), regexes=reg,
                        version=version),
                flat(src), flat(dst), rules, (False, True, False, False), call,
                {k: tshard(x) for k, x in flat(dst).items()})
  shutil.rmtree(d, ignore_errors=True)


def job_state(c):
  """Initialize a train state (with optimizer) from the parameters of another."""
  tx = optax.chain(optax.sgd(0.1, momentum=0.9), optax.adam(0.1))
  def make(i):
    params = {'Moe': {'kernel': arr(i, 2, 2), 'bias': arr(i + 1, 2)}, 'head': arr(i + 2, 2)}
    st = train_state.TrainState.create(
        apply_fn=lambda *a: i, params=jax.tree_util.tree_map(jnp.asarray, params), tx=tx,
        rngs={'dropout': jax.random.PRNGKey(i)})
    return st.replace(step=jnp.asarray(i), opt_state=jax.tree_util.tree_map(
        lambda x: x + i, st.opt_state))
  for frozen in (False, True):
    for rules in ([('(.*)', r'\1')], [('^(params/.*)', r'\1'), ('.*', None)],
                  [('^params/head', ''), ('(opt_state/.*)', r'\1'), ('^step', 'step'),
                   ('rngs', None), ('(.*)', r'\1')]):
      a, b = make(10), make(20)
      if frozen:
        b = b.replace(params=flax.core.freeze(b.params))
      keys = {k: np.asarray(v) for k, v in flat(a).items() if v is not None}
      fa = {k: None if v is None else np.array(v) for k, v in flat(a).items()}
      fb = {k: None if v is None else np.array(v) for k, v in flat(b).items()}
      res = []
      def call():
        res.append(mapping.map_state_dict(a, b, rules, raise_if_target_unmatched=False))
        return res[0]
      compare(c, dict(kind='train_state', rules=rules, frozen=frozen), fa, fb, rules,
              (False, True, True, False), call)
      c.require(len(res) == 1 and isinstance(res[0], train_state.TrainState) and
                res[0].apply_fn is b.apply_fn and res[0].tx is b.tx and
                type(res[0].params) is type(b.params),
                'not a train state like the target', dict(rules=rules))


def job_parse(c):
  """Rules given as objects or tuples are the same."""
  x, v = arr(1, 1, 4, 2), arr(2, 1, 4, 2)
  rl = rules_lib
  pairs = [
      (('s', 't'), rl.RegexRule(pattern='s', replacement='t')),
      (('s', None), rl.DropRule(pattern='s')),
      (('s', ''), rl.DropRule(pattern=re.compile('s'))),
      (('s', 't', 'reshape', (1, 4, 2)), rl.ReshapeRule(pattern='s', replacement='t',
                                                       shape=(1, 4, 2))),
      (('s', 't', 'reshape'), rl.ReshapeRule(pattern='s', replacement='t', shape=None)),
      (('s', 't', 'squeeze', 0), rl.SqueezeRule(pattern='s', replacement='t', axis=0)),
      (('s', 't', 'stack', 0), rl.StackRule(pattern='s', replacement='t', axis=0)),
      (('s', 't', 'expand_tile', 0, 1), rl.ExpandTileRule(pattern='s', replacement='t',
                                                          axis=0, reps=1)),
      (('s', 't', 'vit_zoom'), rl.VitZoomRule(pattern='s', replacement='t')),
      (('s', 't', 'zoom'), rl.ZoomRule(pattern='s', replacement='t')),
  ]
  for tup, obj in pairs:
    for rules in ([tup], [obj], rl.Rules([obj])):
      fd = {'t': v}
      compare(c, dict(kind='parse', rule=tup, given=str(type(rules))), {'s': x}, fd, [tup],
              (False, False, True, False),
              lambda: mapping.map_state_dict({'s': jnp.asarray(x)}, {'t': jnp.asarray(v)},
                                             rules, raise_if_shape_mismatched=False,
                                             raise_if_target_unmatched=False))
  for bad in (('s', 't', 'nope'), ('s', 't', 'squeeze'), ('s', 't', 'stack'),
              ('s', 't', 'expand_tile', 0)):
    try:
      rl.Rules.parse([bad])
    except Exception:  # pylint: disable=broad-except
      continue
    c.fail(f'rule {bad} accepted', bad)


def run_job(c, job):
  globals()['job_' + job[0]](c, *job[1])


def run(c):
  jobs = []
  pairs = [(0, 0), (0, 2), (1, 1), (2, 2), (2, 3), (1, 0)]
  for si, ti in pairs:
    parts = c.q(2, 12)
    deep = c.q(2, 3 if (si, ti) in ((0, 0), (1, 1), (2, 2)) else 2)
    jobs += [('rules', (si, ti, deep, p, parts)) for p in range(parts)]
  jobs += [('shardings', (k,)) for k in ('copy', 'reshape', 'squeeze', 'expand_tile',
                                         'zoom', 'vit_zoom')]
  jobs += [('tile', (c.thorough,)), ('stack', (c.thorough,)), ('reshape', ()),
           ('zoom', (c.q(3, 5),)), ('vit', (c.q(3, 4),)), ('state', ()), ('parse', ())]
  for kind in ('vmoe', 'vit', 'orbax'):
    for spec_i in ((0, 2, 3) if kind == 'vmoe' else (0, 2) if kind == 'orbax' else (0,)):
      jobs.append(('init', (kind, spec_i, c.thorough)))
  c.parallel(jobs, run_job)
