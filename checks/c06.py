"""C06: ensemble routing keeps the members separate."""
import itertools
import math

import numpy as np

from mc import core
from mc import moe_obs

import jax
import jax.numpy as jnp
from vmoe.nn import ensemble_routing as er

LEVEL = 'exploration'
RULE = ('a case = one group (one input matrix) routed by the real ensemble router '
        'in one configuration, or one reshape to/from the grouped representation '
        'on index-tagged tokens; distinct = (configuration, inputs); gates, routes '
        'and importance losses are compared with independent routers per member')
ASSUMPTIONS = ['M<=3 members, E<=6 experts, group size <= 6, inputs from a finite '
               'alphabet, logits far from underflow; B<=5, T<=5 for the reshapes']


def reshapes(c, _):
  n = c.q(3, 5)
  for b, m, t, h in itertools.product(range(1, n + 1), range(1, 4), range(1, n + 1), c.q((1,), (1, 2))):
    tokens = b * m * t
    # tag = (image, member, token)
    x = np.stack(np.meshgrid(np.arange(b), np.arange(m), np.arange(t), indexing='ij'),
                 -1).reshape(b * m, t, 3)
    x = np.concatenate([x] * h, -1).astype(np.float32)
    for s in range(m, tokens + 1, m):
      if tokens % s:
        continue
      info = {'batch': b, 'members': m, 'tokens': t, 'group_size': s}
      c.context = info
      g = np.asarray(er.reshape_to_group_size_representation(jnp.asarray(x), s, m))
      c.case(('reshape', b, m, t, h, s))
      c.require(g.shape == (tokens // s, s, 3 * h), 'grouped shape',
                lambda: {**info, 'shape': g.shape})
      c.require(np.array_equal(g[..., 1], np.broadcast_to(np.arange(s) % m, g.shape[:2])),
                'item i of a group does not belong to member i mod M',
                lambda: {**info, 'members': g[..., 1]})
      # The M copies of a token are together in one group.
      for gi in range(g.shape[0]):
        copies = g[gi].reshape(s // m, m, -1)
        c.require((copies[:, :, 0] == copies[:, :1, 0]).all() and
                  (copies[:, :, 2] == copies[:, :1, 2]).all(),
                  'copies of a token are in different groups', info)
      c.require(len(np.unique(g.reshape(-1, 3 * h), axis=0)) == tokens,
                'tokens lost or duplicated by grouping', info)
      back = np.asarray(er.reshape_from_group_size_representation(jnp.asarray(g), t, m))
      c.require(np.array_equal(back, x), 'ungrouping is not the inverse of grouping',
                lambda: {**info, 'got': back})
      # A different hidden size on the way back (experts may change it).
      back1 = np.asarray(er.reshape_from_group_size_representation(
          jnp.asarray(g[..., :2]), t, m))
      c.require(np.array_equal(back1, x[..., :2]), 'ungrouping another hidden size', info)


def kernel(h, m, em):
  """A different invertible kernel per member: (H, M, E/M)."""
  k = np.zeros((h, m, em), np.float32)
  for i in range(m):
    for j in range(em):
      k[(i + j) % h, i, j] += 1.0 + 0.5 * i
      k[(j * 2 + i + 1) % h, i, j] -= 0.25 * (i + 1)
  return k


def want_gates(x, k, m):
  g, s, _ = x.shape
  em = k.shape[2]
  out = np.zeros((g, s, m * em))
  for i in range(s):
    mm = i % m
    out[:, i, mm * em:(mm + 1) * em] = moe_obs.softmax(
        x[:, i].astype(np.float64) @ k[:, mm].astype(np.float64))
  return out


def build(cfg, **kw):
  return er.NoisyTopExpertsPerItemEnsembleRouter(
      num_experts=cfg['E'], ensemble_size=cfg['M'], num_selected_experts=cfg['K'],
      deterministic=True, dispatcher=dict(name=cfg['name'], capacity=cfg['C'],
                                          batch_priority=cfg['bpr']), **kw)


def routes(c, job):
  m, em, s, h, alpha, weights = job
  e = m * em
  k = kernel(h, m, em)
  grid = moe_obs.all_gates(s, h, alpha)
  x = grid[np.random.RandomState(5).permutation(len(grid))]
  n = len(x)
  gates = want_gates(x, k, m)
  for K in range(1, em + 1):
    for C, bpr, name in itertools.product(range(1, s // m + 1), (False, True),
                                          ('einsum', 'indices')):
      cfg = dict(M=m, E=e, S=s, K=K, C=C, bpr=bpr, name=name)
      c.context = cfg
      r = build(cfg, gshard_loss_weight=weights[0], importance_loss_weight=weights[1])
      disp, metrics = r.apply({'params': {'dense': {'kernel': jnp.asarray(k)}}},
                              jnp.asarray(x))
      d, w, slots = moe_obs.observe_groups(disp, n, s)
      full, _ = build(dict(cfg, K=em, C=s, bpr=False, name='einsum')).apply(
          {'params': {'dense': {'kernel': jnp.asarray(k)}}}, jnp.asarray(x))
      _, wf, _ = moe_obs.observe_groups(full, n, s)
      c.case(n=n)
      for i in range(n):
        c.distinct.add(hash((job, K, C, bpr, name, x[i].tobytes())))

      def bad(ok, what, **kw):
        ok = np.asarray(ok).reshape(n, -1).all(axis=1)
        if not ok.all():
          i = int(np.flatnonzero(~ok)[0])
          c.fail(what, {**cfg, 'group': i, 'inputs': x[i],
                        **{a: np.asarray(b)[i] for a, b in kw.items()}})
      bad(np.abs(wf - gates) < 2e-5, 'gates are not the softmax over the experts of the '
          'item\'s own member', got=wf, want=gates)
      member = np.arange(s) % m
      block = np.arange(e) // em
      foreign = member[:, None] != block[None, :]
      bad((d.transpose(0, 2, 1)[:, foreign] == 0), 'an item is sent to an expert of '
          'another member', routed=d)
      acc = moe_obs.greedy(wf.astype(np.float32), K, C, bpr)
      bad(d.transpose(0, 2, 1) == acc, 'routed pairs', routed=d, want=acc, gates=wf)
      bad(np.abs(w - np.where(acc, wf, 0)) < 2e-6, 'combine weights', got=w)
      # Losses: per group and member.
      imp = np.zeros((n, m))
      for mm in range(m):
        z = gates[:, mm::m, mm * em:(mm + 1) * em].sum(axis=1)
        imp[:, mm] = (z.std(axis=1) / z.mean(axis=1)) ** 2
      got = np.asarray(metrics['importance_loss'], np.float64)
      c.require(got.shape == imp.shape and np.allclose(got, imp, atol=2e-4, rtol=2e-4),
                'the importance loss is not that of each member\'s own items and experts',
                lambda: {**cfg, 'got': got[:3], 'want': imp[:3], 'inputs': x[:3]})
      if weights[0] == 0:
        aux = np.asarray(metrics['auxiliary_loss'], np.float64)
        c.require(aux.shape == imp.shape and
                  np.allclose(aux, weights[1] * imp, atol=2e-4, rtol=2e-4),
                  'auxiliary loss', lambda: {**cfg, 'got': aux[:3]})


def isolation(c, job):
  """Changing one member's inputs or parameters affects that member only."""
  m, em, s, h = job
  e = m * em
  cfg = dict(M=m, E=e, S=s, K=1, C=s // m, bpr=False, name='einsum')
  rs = np.random.RandomState(11)
  x = rs.randint(-2, 3, (4, s, h)).astype(np.float32)
  k = kernel(h, m, em)
  def out(x, k):
    d, _ = build(cfg).apply({'params': {'dense': {'kernel': jnp.asarray(k)}}}, jnp.asarray(x))
    dd, w, _ = moe_obs.observe_groups(d, len(x), s)
    return dd.transpose(0, 2, 1), w
  d0, w0 = out(x, k)
  for mm, what in itertools.product(range(m), ('inputs', 'params')):
    x1, k1 = x.copy(), k.copy()
    if what == 'inputs':
      x1[:, mm::m] = x1[:, mm::m][:, ::-1] * 2 + 1
    else:
      k1[:, mm] = -k1[:, mm] + 0.5
    d1, w1 = out(x1, k1)
    others = [i for i in range(s) if i % m != mm]
    info = {**cfg, 'member': mm, 'changed': what}
    c.context = info
    c.case(('isolation', job, mm, what))
    c.require(np.array_equal(d0[:, others], d1[:, others]) and
              np.allclose(w0[:, others], w1[:, others], atol=1e-6),
              'another member is affected', info)


def noise(c, _):
  """Noise is drawn per member, group, item and expert."""
  for m, em, s, g in ((2, 2, 16, 128), (3, 4, 12, 128), (1, 4, 8, 128)):
    e = m * em
    for std in (0.5, 1.0):
      r = er.NoisyTopExpertsPerItemEnsembleRouter(
          num_experts=e, ensemble_size=m, num_selected_experts=em, noise_std=std,
          dispatcher=dict(name='einsum', capacity=s, batch_priority=False))
      v = {'params': {'dense': {'kernel': jnp.zeros((3, m, em))}}}
      zs = []
      for key in (0, 1):
        d, metrics = r.apply(v, jnp.zeros((g, s, 3)),
                             rngs={'gating': jax.random.PRNGKey(key)})
        _, w, _ = moe_obs.observe_groups(d, g, s)
        z = np.stack([w[:, mm::m, mm * em:(mm + 1) * em] for mm in range(m)], 1)
        z = np.log(z)
        z = z - z.mean(-1, keepdims=True)          # (G, M, S/M, E/M)
        cfg = dict(M=m, E=e, S=s, noise_std=std)
        c.context = cfg
        flat = np.round(z.reshape(g * m, -1), 6)
        c.require(len(np.unique(flat, axis=0)) == len(flat),
                  'noise is shared between groups or members', cfg)
        c.require(len(np.unique(np.round(z[0, 0], 6), axis=0)) == s // m,
                  'noise is shared between items', cfg)
        got = z.std() / math.sqrt(1 - 1 / em)
        c.require(abs(got / (std / em) - 1) < 0.06,
                  'noise standard deviation is not noise_std / experts per member',
                  {**cfg, 'got': got})
        c.require(np.isfinite(np.asarray(metrics['auxiliary_loss'])).all(),
                  'auxiliary loss not finite', cfg)
        c.case(('noise', m, em, std, key))
        zs.append(z)
      c.require(not np.allclose(*zs), 'noise does not depend on the key', cfg)


def errors(c, _):
  ok = dict(E=4, M=2, K=1, C=2, bpr=False, name='einsum')
  def attempt(cfg, shape):
    c.context = {**cfg, 'shape': shape}
    build(cfg).init(jax.random.PRNGKey(0), jnp.ones(shape))
  attempt(ok, (1, 4, 3))
  v = build(ok).init(jax.random.PRNGKey(0), jnp.ones((1, 4, 3)))
  ks = np.asarray(jax.tree_util.tree_leaves(v['params'])[0])
  c.require(ks.shape == (3, 2, 2), 'one kernel per member expected', {'shape': ks.shape})
  c.require(not np.allclose(ks[:, 0], ks[:, 1]),
            'the members start with the same router parameters', {'kernel': ks})
  for change, shape in (({'M': 0}, (1, 4, 3)), ({'M': -1}, (1, 4, 3)),
                        ({'M': 3}, (1, 6, 3)), ({}, (1, 5, 3)), ({}, (4, 3)),
                        ({}, (1, 1, 4, 3)), ({'K': 3}, (1, 4, 3)), ({'K': 0}, (1, 4, 3)),
                        ({'E': 5}, (1, 4, 3))):
    try:
      attempt({**ok, **change}, shape)
    except ValueError:
      c.case(('error', str(change), shape))
      continue
    c.fail('an invalid configuration is accepted', {**ok, **change, 'shape': shape})


def dispatch(c, j):
  globals()[j[0]](c, j[1])


def run(c):
  A2, A3 = (-1.0, 2.0), (-1.0, 0.0, 2.0)
  jobs = [('reshapes', 0), ('noise', 0)]
  for m, em, s, h, al in c.q(
      [(2, 2, 4, 2, A2), (1, 2, 2, 2, A3), (2, 2, 2, 2, A3), (2, 3, 4, 2, A2),
       (3, 2, 3, 2, A3), (2, 1, 2, 2, A3)],
      [(2, 2, 4, 2, A3), (1, 3, 3, 3, A2), (2, 2, 2, 3, A3), (2, 3, 4, 3, A2),
       (3, 2, 6, 2, A2), (3, 2, 3, 2, A3), (2, 1, 4, 2, A2), (4, 2, 4, 2, A3),
       (1, 2, 4, 2, A3)]):
    for w in ((0.0, 1.0), (0.5, 0.25), (0.0, 0.5)):
      jobs.append(('routes', (m, em, s, h, al, w)))
  jobs += [('isolation', j) for j in ((2, 2, 4, 3), (3, 2, 6, 3), (2, 4, 6, 2), (4, 1, 4, 2))]
  jobs += [('errors', 0)]
  c.parallel(jobs, dispatch)
