"""C03: dispatch -> experts -> combine computes the weighted sum of experts.

For every (groups, experts, group size, choices, capacity, dispatcher kind)
configuration in bounds and every gate pattern at every group position, the real
MoE layer is applied to experts that are distinguishable and non-zero on empty
slots, and compared with a direct per-item evaluation.
"""
import os
os.environ['XLA_FLAGS'] = '--xla_force_host_platform_device_count=8'
import functools
import itertools
import numpy as np
from mc import core
from mc import moe_obs

import flax.linen as nn
import jax
import jax.numpy as jnp
import vmoe.moe as moe

LEVEL = 'exploration'
RULE = ('one case = one MoE layer application; enumerated: all (G,E,S,K,C) in '
        'bounds x dispatcher kind x every gate matrix over a 2-3 letter '
        'alphabet at every group position (rotation), plus every index '
        'assignment (with out-of-range entries) of the index dispatcher and '
        'every mesh/partition-spec layout on 8 devices; non-trivial = distinct '
        '(configuration, pattern) in which some but not all pairs are '
        'dispatched (or an explicit index/API/mesh case)')
ASSUMPTIONS = ['G<=6, E<=4, S<=3; 8 virtual CPU devices',
               'experts are x*a_e+b_e (with b_e != 0) and variants; float32 '
               'comparison at 1e-5, bfloat16 wrapper on exactly representable '
               'values']


class Expert(nn.Module):
  """x -> x * a + b: both operands identify the expert."""

  @nn.compact
  def __call__(self, x):
    a = self.param('a', nn.initializers.ones, (2,))
    b = self.param('b', nn.initializers.ones, (2,))
    return x * a + b


class ExpertTwo(nn.Module):
  """Two inputs, pytree output of other shapes, auxiliary output."""

  @nn.compact
  def __call__(self, x, y):
    a = self.param('a', nn.initializers.ones, (2,))
    b = self.param('b', nn.initializers.ones, (2,))
    z = x * a + b
    out = {'u': z.sum(-1), 'v': jnp.stack([z, z * y[..., None]], -1)}
    return out, (z.sum(), x.shape[0])

  def other(self, x):
    a = self.variable('params', 'a', lambda: None).value
    return x * a


def params(e):
  """Integer-valued so that bfloat16 stays exact."""
  a = np.stack([1. + np.arange(e), 2. + np.arange(e)], -1).astype(np.float32)
  b = np.stack([3. + np.arange(e), -1. - np.arange(e)], -1).astype(np.float32)
  return {'a': a, 'b': b}


def data(g, s):
  """Distinct small integers per (group, item)."""
  x = np.arange(1, g * s + 1, dtype=np.float32).reshape(g, s, 1)
  return np.concatenate([x, 20 - x], -1)


def greedy(gates, k_sel, cap, bpr):
  g, s, e = gates.shape
  acc = np.zeros((g, s, e), bool)
  for i in range(g):
    prio = sorted(range(s), key=lambda j: -gates[i, j].max()) if bpr else range(s)
    order = np.argsort(-gates[i], axis=1, kind='stable')
    load = [0] * e
    for k in range(k_sel):
      for j in prio:
        ex = order[j, k]
        if load[ex] < cap:
          load[ex] += 1
          acc[i, j, ex] = True
  return acc


def choice(gates, cap):
  acc = np.zeros(gates.shape, bool)
  order = np.argsort(-gates, axis=1, kind='stable')[:, :cap]
  for i in range(gates.shape[0]):
    for ex in range(gates.shape[2]):
      acc[i, order[i, :, ex], ex] = True
  return acc


def expected(gates, acc, x, p):
  f = x[:, :, None, :] * p['a'] + p['b']       # (G,S,E,2)
  w = gates * acc
  return (w[..., None] * f).sum(2)


def make_dispatcher(kind, k, cap, bpr):
  """Returns fn(gates (G,S,E)) -> dispatcher, and fn for accepted pairs."""
  bf = kind.startswith('bf16-')
  base = kind[5:] if bf else kind

  def mk(gates, **kw):
    if base == 'dense':
      d = moe.get_dense_einsum_dispatcher(gates, **kw)
    elif base == 'choice':
      d, _ = jax.vmap(functools.partial(
          moe.get_top_items_per_expert_dispatcher, name='einsum',
          capacity=cap, **kw))(gates)
    else:
      d = jax.vmap(functools.partial(
          moe.get_top_experts_per_item_dispatcher, name=base,
          num_selected_experts=k, batch_priority=bpr, capacity=cap,
          **kw))(gates)
    return moe.Bfloat16Dispatcher(d) if bf else d

  def accepted(gates):
    if base == 'dense':
      return np.ones(gates.shape, bool)
    if base == 'choice':
      return choice(gates, cap)
    return greedy(gates, k, cap, bpr)
  return mk, accepted


def moe_layer(cls=Expert, axis=0, **kw):
  return moe.sparse_moe_spmd(cls, variable_axes={'params': axis},
                             split_rngs={'params': True}, **kw)()


def patterns(g, s, e, alphabet, limit):
  base = moe_obs.all_gates(s, e, alphabet)
  n = len(base)
  step = max(1, n // g) | 1
  idx = (np.arange(n)[:, None] + step * np.arange(g)[None]) % n
  return base[idx]                               # (N,G,S,E)


def job_grid(c, job):
  _, g, e, s, k, cap, bpr, kind = job
  cfg = dict(G=g, E=e, S=s, K=k, C=cap, batch_priority=bpr, kind=kind)
  c.context = cfg
  alphabet = [0.0, 0.5, 2.0] if s * e <= 4 else [0.5, 2.0]
  gates = patterns(g, s, e, alphabet, None)
  mk, accepted = make_dispatcher(kind, k, cap, bpr)
  p, x = params(e), data(g, s)
  layer = moe_layer()

  def one(gt):
    d = mk(gt)
    return layer.apply({'params': p}, d, jnp.asarray(x))
  out = np.asarray(jax.jit(jax.vmap(one))(gates))
  c.require(out.shape == (len(gates), g, s, 2) and out.dtype == np.float32,
            f'output has shape {out.shape} / dtype {out.dtype}', cfg)
  for i in range(len(gates)):
    acc = accepted(gates[i])
    want = expected(gates[i], acc, x, p)
    tol = dict(rtol=2e-2, atol=1e-2) if kind.startswith('bf16') else dict(
        rtol=1e-5, atol=1e-5)
    if not np.allclose(out[i], want, **tol):
      c.fail('layer output is not the gate-weighted sum of the selected experts',
             {**cfg, 'gates': gates[i], 'x': x, 'got': out[i], 'want': want})
    c.case((job[1:], i) if acc.any() and not acc.all() else None)
  c.sample({**cfg, 'gate_patterns': len(gates)})


def job_indices(c, job):
  """Every assignment of (expert, buffer) pairs, out-of-range ones included."""
  _, g, e, s, k, cap = job
  cfg = dict(G=g, E=e, S=s, K=k, C=cap, kind='explicit indices')
  c.context = cfg
  pairs = [(a, b) for a in range(e + 1) for b in range(cap + 1)]
  combos = list(itertools.product(range(len(pairs)), repeat=s * k))
  arr = np.asarray(pairs, np.int32)
  idx = arr[np.asarray(combos)].reshape(-1, s, k, 2)
  idx = np.stack([np.roll(idx, 7 * i, axis=0) for i in range(g)], 1)
  w = (1 + np.arange(g * s * k, dtype=np.float32)).reshape(g, s, k) / 4
  x = data(g, s)

  def one(ix):
    d = moe.ExpertIndicesDispatcher(indices=ix, combine_weights=jnp.asarray(w),
                                    num_experts=e, capacity=cap)
    dd = d.dispatch(jnp.asarray(x))
    # Expert outputs that identify (expert, slot).
    out = (1. + jnp.arange(e * g * cap, dtype=jnp.float32)).reshape(e, g * cap, 1)
    # Round trip: what a slot of (group, expert, buffer) receives when it
    # returns its own input.
    return dd, d.combine(out), d.combine(dd)
  dd, _, rt = (np.asarray(z) for z in jax.jit(jax.vmap(one))(idx))
  for n in range(len(idx)):
    buf = np.zeros((g, e, cap, 2), np.float32)
    for gg in range(g):
      for ss in range(s):
        for kk in range(k):
          ex, b = idx[n, gg, ss, kk]
          if ex < e and b < cap:
            buf[gg, ex, b] += x[gg, ss]
    got = dd[n]
    c.require(sorted(map(tuple, got.reshape(-1, 2))) == sorted(
        map(tuple, buf.reshape(-1, 2))) and all(
            sorted(map(tuple, got[ex])) == sorted(map(tuple, buf[:, ex].reshape(-1, 2)))
            for ex in range(e)),
              'dispatched buffers differ from the indices',
              {**cfg, 'indices': idx[n], 'got': got, 'want': buf})
    want = np.zeros((g, s, 2), np.float32)
    for gg in range(g):
      for ss in range(s):
        for kk in range(k):
          ex, b = idx[n, gg, ss, kk]
          if ex < e and b < cap:
            want[gg, ss] += w[gg, ss, kk] * buf[gg, ex, b]
    c.require(np.allclose(rt[n], want, rtol=1e-5),
              'combine does not return to each item its own slots',
              {**cfg, 'indices': idx[n], 'got': rt[n], 'want': want})
    c.case((job[1:], n))


def job_api(c, job):
  """Multiple inputs, pytree outputs, aux outputs, parameter axis, dtypes."""
  _, g, e, s, kind = job
  k, cap = min(2, e), s
  cfg = dict(G=g, E=e, S=s, K=k, C=cap, kind=kind)
  c.context = cfg
  gates = patterns(g, s, e, [0.5, 2.0], None)[:: 5]
  mk, accepted = make_dispatcher(kind, k, cap, False)
  p, x = params(e), data(g, s)
  y = (np.arange(g * s, dtype=np.float32) % 3 + 1).reshape(g, s)
  for axis in (0, 1):
    pp = {kk: np.moveaxis(v, 0, axis) for kk, v in p.items()}
    lay = moe_layer(ExpertTwo, axis=axis, has_aux=True)
    got, (aux_sum, aux_n) = jax.jit(jax.vmap(
        lambda gt: lay.apply({'params': pp}, mk(gt), jnp.asarray(x), jnp.asarray(y)),
        out_axes=(0, (0, None))))(gates)
    got = jax.tree_util.tree_map(np.asarray, got)
    for i in range(len(gates)):
      acc = accepted(gates[i])
      w = gates[i] * acc
      z = x[:, :, None, :] * p['a'] + p['b']
      u = (w * z.sum(-1)).sum(2)
      v = (w[..., None, None] * np.stack([z, z * y[:, :, None, None]], -1)).sum(2)
      tol = dict(rtol=4e-2, atol=5e-1) if kind.startswith('bf16') else dict(
          rtol=1e-5, atol=1e-4)
      gu, gv = got['u'][i], got['v'][i]
      c.require(gu.shape == u.shape and gv.shape == v.shape and
                np.allclose(gu, u, **tol) and np.allclose(gv, v, **tol),
                'pytree output is not the weighted sum over experts',
                {**cfg, 'axis': axis, 'gates': gates[i], 'got': got['u'][i], 'want': u})
      # Auxiliary output: one entry per expert, not combined. Sum over the
      # expert's buffer of z (empty slots contribute b).
      n_slots = g * cap
      load = acc.sum((0, 1))
      want_aux = np.stack([
          (acc[:, :, ex, None] * (x * p['a'][ex])).sum() + n_slots * p['b'][ex].sum()
          for ex in range(e)])
      ga = np.asarray(aux_sum)[i]
      c.require(ga.shape == (e,) and np.allclose(ga, want_aux, rtol=4e-2 if kind.startswith('bf16') else 1e-5, atol=1e-3),
                'auxiliary output is not the per-expert value',
                {**cfg, 'axis': axis, 'got': ga, 'want': want_aux})
      c.case((job[1:], axis, i))
  # Parameters are created per expert along the requested axis, with
  # different/equal random values as requested.
  class Rnd(nn.Module):
    @nn.compact
    def __call__(self, t):
      return t + self.param('r', nn.initializers.normal(1.), (3,)).sum()
  for axis, split in itertools.product((0, 1), (True, False)):
    lay = moe.sparse_moe_spmd(Rnd, variable_axes={'params': axis},
                              split_rngs={'params': split})()
    v = lay.init(jax.random.PRNGKey(c.seed), mk(jnp.asarray(gates[0])), jnp.asarray(x))
    r = np.moveaxis(np.asarray(v['params']['r']), axis, 0)
    c.require(r.shape == (e, 3), 'expert parameters have the wrong shape', cfg)
    nd = len({row.tobytes() for row in r})
    c.require(nd == (e if split else 1),
              'expert parameters do not follow split_rngs', {**cfg, 'split': split})
    c.case((job[1:], 'init', axis, split))
  # Differentiability: d(sum out)/d gate is the expert's output for dispatched
  # pairs and 0 elsewhere.
  if not kind.startswith('bf16'):
    lay = moe_layer()
    gr = jax.jit(jax.vmap(jax.grad(
        lambda gt: lay.apply({'params': p}, mk(gt), jnp.asarray(x)).sum())))(gates)
    for i in range(len(gates)):
      acc = accepted(gates[i])
      want = acc * (x[:, :, None, :] * p['a'] + p['b']).sum(-1)
      c.require(np.allclose(np.asarray(gr)[i], want, rtol=1e-5, atol=1e-4),
                'gradient w.r.t. the gates is wrong',
                {**cfg, 'gates': gates[i], 'got': np.asarray(gr)[i], 'want': want})
      c.case((job[1:], 'grad', i))
  # dtype of the data is preserved (integers are routed unchanged). The index
  # dispatcher is the one used with non-float data.
  for dt in (jnp.float32, jnp.bfloat16):
    d = mk(jnp.asarray(gates[0], jnp.float32))
    out = d.dispatch(jnp.asarray(x, dt))
    c.require(np.asarray(out).dtype == jnp.dtype(dt),
              'dispatch changes the data type', {**cfg, 'dtype': str(dt)})
    c.case((job[1:], 'dtype', str(dt)))
  # Integers (e.g. positions) arrive unchanged, also if bfloat16 cannot represent them.
  xi = 70001 + 257 * np.arange(g * s, dtype=np.int32).reshape(g, s, 1)
  acc = accepted(gates[0])
  got = np.asarray(mk(jnp.asarray(gates[0], jnp.float32)).dispatch(jnp.asarray(xi)))
  c.require(got.dtype == np.int32, f'dispatch changes integers to {got.dtype}', cfg)
  for ex in range(e):
    want = sorted(xi[acc[..., ex]].ravel().tolist())
    c.require(sorted(v for v in got[ex].ravel().tolist() if v) == want,
              lambda: f'integers sent to expert {ex}: {got[ex].ravel()}, expected {want}', cfg)
  c.case((job[1:], 'ints'))


def job_mesh(c, job):
  """Sharded execution gives the same result as the unsharded one."""
  _, mesh_shape, spec_kind, g, e, kind = job
  s, k, cap, bpr = 3, min(2, e), 2, False
  cfg = dict(mesh=mesh_shape, spec=spec_kind, G=g, E=e, kind=kind)
  c.context = cfg
  specs = {
      'tuple': ('expert', 'replica'), 'str': 'expert', 'nested': (('expert', 'replica'),),
      'ps': jax.sharding.PartitionSpec(('expert', 'replica')), 'none': None,
      'replica': ('replica',)}
  spec = specs[spec_kind]
  mk, accepted = make_dispatcher(kind, k, cap, bpr)
  gates = patterns(g, s, e, [0.5, 2.0], None)
  gates = gates[:: max(1, len(gates) // 8)]
  p, x = params(e), data(g, s)
  layer = moe_layer()
  devs = np.asarray(jax.devices()[:int(np.prod(mesh_shape))]).reshape(mesh_shape)
  f = jax.jit(lambda gt: layer.apply(
      {'params': p}, mk(gt, partition_spec=spec), jnp.asarray(x)))
  with jax.sharding.Mesh(devs, ('expert', 'replica')):
    for i in range(len(gates)):
      out = np.asarray(f(gates[i]))
      acc = accepted(gates[i])
      want = expected(gates[i], acc, x, p)
      c.require(np.allclose(out, want, rtol=2e-2 if 'bf16' in kind else 1e-5, atol=1e-2 if 'bf16' in kind else 1e-5),
                'sharded MoE layer differs from the weighted sum of experts',
                {**cfg, 'gates': gates[i], 'got': out, 'want': want})
      c.case((job[1:], i))


def job_axes(c, job):
  """The logical-axes variant: same output, expert axis recorded."""
  _, g, e, axis = job

  class Ax(nn.Module):
    @nn.compact
    def __call__(self, t):
      a = nn.partitioning.param_with_axes('a', nn.initializers.ones, (2,), axes=('dim',))
      b = nn.partitioning.param_with_axes('b', nn.initializers.ones, (2,), axes=('dim',))
      return t * a + b
  s = 2
  cfg = dict(G=g, E=e, axis=axis, kind='with_axes')
  c.context = cfg
  lay = moe.sparse_moe_spmd_with_axes(
      Ax, variable_axes={'params': axis}, split_rngs={'params': True},
      partitioning_axis_names={'params': 'experts'})()
  mk, accepted = make_dispatcher('einsum', 1, 1, False)
  gates = patterns(g, s, e, [0.5, 2.0], None)
  p, x = params(e), data(g, s)
  v = lay.init(jax.random.PRNGKey(0), mk(jnp.asarray(gates[0])), jnp.asarray(x))
  names = nn.partitioning.get_axis_names(v['params_axes'])
  want_ax = ('experts', 'dim') if axis == 0 else ('dim', 'experts')
  for nme in ('a', 'b'):
    c.require(tuple(names[nme]) == want_ax, 'logical axis names are wrong',
              {**cfg, 'got': names[nme], 'want': want_ax})
  pp = {kk: np.moveaxis(vv, 0, axis) for kk, vv in p.items()}
  for gt in gates:
    out = np.asarray(lay.apply({'params': pp}, mk(jnp.asarray(gt)), jnp.asarray(x)))
    want = expected(gt, accepted(gt), x, p)
    c.require(np.allclose(out, want, rtol=1e-5), 'wrong output', cfg)
    c.case((job[1:], gt.tobytes()))


JOBS = {'grid': job_grid, 'indices': job_indices, 'api': job_api,
        'mesh': job_mesh, 'axes': job_axes}


def run(c):
  jobs = []
  kinds = ['einsum', 'indices', 'choice', 'dense', 'bf16-einsum', 'bf16-indices',
           'bf16-dense']
  gs = c.q((1, 2, 3, 4, 6), (1, 2, 3, 4, 5, 6, 8, 9, 12))
  for g in gs:
    for e, s in c.q([(1, 2), (2, 2), (3, 2), (2, 3)],
                    [(1, 2), (2, 2), (3, 2), (2, 3), (4, 2), (3, 3), (1, 3)]):
      for kind in kinds:
        base = kind.replace('bf16-', '')
        if base == 'dense':
          jobs.append(('grid', g, e, s, e, s, False, kind))
        elif base == 'choice':
          for cap in range(1, s + 1):
            jobs.append(('grid', g, e, s, 0, cap, False, kind))
        else:
          for k, cap, bpr in itertools.product(
              sorted({1, e}), c.q((1, s), range(1, s + 2)), (False, True)):
            if not c.thorough and kind.startswith('bf16') and (bpr or k > 1):
              continue
            jobs.append(('grid', g, e, s, k, cap, bpr, kind))
  for g, e, s, k, cap in c.q([(1, 2, 2, 1, 2), (2, 2, 1, 2, 2), (3, 2, 2, 1, 1)],
                             [(1, 2, 2, 1, 2), (2, 2, 1, 2, 2), (3, 2, 2, 1, 1),
                              (1, 2, 2, 2, 1), (2, 3, 2, 1, 2), (4, 2, 3, 1, 2)]):
    jobs.append(('indices', g, e, s, k, cap))
  for g, e in c.q([(1, 2), (4, 2), (3, 2)], [(1, 2), (4, 2), (3, 2), (1, 1), (3, 3), (2, 4), (8, 4)]):
    for kind in kinds:
      if kind != 'bf16-dense':
        jobs.append(('api', g, e, 2, kind))
  for shape, sp in itertools.product(
      c.q([(2, 2), (8, 1), (4, 2)], [(1, 1), (2, 1), (2, 2), (8, 1), (4, 2), (2, 4), (1, 8)]),
      c.q(['str', 'nested', 'none'], ['tuple', 'str', 'nested', 'ps', 'none', 'replica'])):
    for g, e in c.q([(8, 4), (8, 2)], [(8, 4), (8, 8), (16, 4), (8, 2)]):
      # Every axis constrained by the specification must divide.
      if sp == 'tuple' and (g % shape[0] or e % shape[1]):
        continue
      for kind in ('einsum', 'indices', 'dense'):
        if sp == 'tuple':
          continue
        jobs.append(('mesh', shape, sp, g, e, kind))
  for g, e, axis in itertools.product((2, 3), (2, 3), (0, 1)):
    jobs.append(('axes', g, e, axis))
  c.parallel(jobs, lambda c, j: JOBS[j[0]](c, j))
