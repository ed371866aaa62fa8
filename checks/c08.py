"""C08: optimal-transport routers route by balanced transport plans."""
import itertools
import math

import numpy as np

from mc import core
from mc import moe_obs

import jax
import jax.numpy as jnp
from vmoe.projects.sparsity_constrained_ot import kl_projection_routing as kl
from vmoe.projects.sparsity_constrained_ot import ksparse_projection_routing as ks
from vmoe.projects.sparsity_constrained_ot import sparse_projection_routing as sp

LEVEL = 'exploration'
RULE = ('a case = one group (one logit matrix) routed by one real OT router in one '
        'configuration; the plan is observed through combine() with plan weights and '
        'compared with an independent solver (KL: Sinkhorn in float64; quadratic: '
        'Dykstra projection) or with its constraints (k-sparse), the routed pairs '
        'with the greedy/top-C allocator applied to that plan, the combine weights '
        'with the softmax gates; distinct = (configuration, logits)')
ASSUMPTIONS = ['S,E<=4, logits in [-1,2], solvers run with enough iterations to converge '
               'to 1e-3 (KL) or 3e-2 (quadratic); column sums of the k-sparse plans, '
               'which their solver only approaches, are not required']


def sinkhorn(l, iters=2000):
  k = np.exp(l.astype(np.float64))
  n, s, e = k.shape
  v = np.ones((n, 1, e))
  for _ in range(iters):
    u = 1.0 / (k * v).sum(2, keepdims=True)
    v = (s / e) / (k * u).sum(1, keepdims=True)
  return k * u * v


def proj_simplex(y, z, axis):
  """Projection of the vectors along axis onto {p>=0, sum p = z}."""
  u = -np.sort(-y, axis=axis)
  css = np.cumsum(u, axis=axis) - z
  n = y.shape[axis]
  idx = np.arange(1, n + 1).reshape([-1 if a == axis else 1 for a in range(y.ndim)])
  rho = (u - css / idx > 0).sum(axis=axis, keepdims=True)
  theta = np.take_along_axis(css, rho - 1, axis=axis) / rho
  return np.maximum(y - theta, 0)


def quadratic(sim, iters=3000):
  """argmin |P - sim|^2 over plans with rows 1 and columns S/E (Dykstra)."""
  n, s, e = sim.shape
  x = sim.astype(np.float64)
  p = np.zeros_like(x)
  q = np.zeros_like(x)
  for _ in range(iters):
    y = proj_simplex(x + p, 1.0, 2)
    p = x + p - y
    x = proj_simplex(y + q, s / e, 1)
    q = y + q - x
  return x


def logits_of(s, e, alpha):
  g = moe_obs.all_gates(s, e, alpha)
  return g[np.random.RandomState(7).permutation(len(g))]


def apply(r, x, e, rng=False):
  return r.apply({'params': {'dense': {'kernel': jnp.eye(e)}}}, jnp.asarray(x),
                 rngs={'gating': jax.random.PRNGKey(0)} if rng else None)


def reporter(c, cfg, x, job):
  n = len(x)
  def bad(ok, what, **kw):
    ok = np.asarray(ok).reshape(n, -1).all(axis=1)
    if not ok.all():
      i = int(np.flatnonzero(~ok)[0])
      c.fail(what, {**cfg, 'group': i, 'logits': x[i],
                    **{a: np.asarray(b)[i] for a, b in kw.items()}})
  c.case(n=n)
  for i in range(n):
    c.distinct.add(hash((job, x[i].tobytes())))
  return bad


def check_routes(bad, d, w, acc, weights, plan):
  bad(d.transpose(0, 2, 1) == acc, 'the routed pairs are not the best ones of the plan',
      routed=d, want=acc, plan=plan)
  bad(np.abs(w - np.where(acc, weights, 0)) < 2e-5, 'combine weights', got=w,
      want=np.where(acc, weights, 0))


def experts(c, job):
  """Routers in which items choose experts."""
  kind, s, e, k, cap, bpr, softmax, alpha, extra = job
  extra = dict(extra)
  x = logits_of(s, e, alpha)
  n = len(x)
  cfg = dict(router=kind, S=s, E=e, K=k, capacity=cap, batch_priority=bpr,
             softmax_combine=softmax, **extra)
  c.context = cfg
  cls = {'kl': kl.KLProjectionNoisyTopExpertsPerItemRouter,
         'ksparse': ks.KSparseProjectionTransportTopExpertsPerItemRouter}[kind]
  maxiter = 150 if kind == 'kl' else 60
  mk = lambda kk, cc, sm, b: cls(
      num_experts=e, num_selected_experts=kk, deterministic=True, maxiter=maxiter,
      use_softmax_combine_weights=sm,
      dispatcher=dict(name='einsum', capacity=cc, batch_priority=b), **extra)
  disp, metrics = apply(mk(k, cap, softmax, bpr), x, e)
  full, _ = apply(mk(e if kind == 'kl' else k, s, False, False), x, e)
  d, w, slots = moe_obs.observe_groups(disp, n, s)
  _, plan, _ = moe_obs.observe_groups(full, n, s)
  bad = reporter(c, cfg, x, job)
  c.require(slots == cap, 'slots per expert differ from the capacity', cfg)
  bad((plan >= 0), 'negative plan', plan=plan)
  bad(np.abs(plan.sum(2) - 1) < 2e-3, 'an item\'s plan does not sum to one', plan=plan)
  if kind == 'kl':
    bad(np.abs(plan.sum(1) - s / e) < 2e-3, 'experts do not get equal shares', plan=plan)
    want = sinkhorn(x)
    bad(np.abs(plan - want) < 2e-3, 'the plan is not the KL projection of the logits',
        plan=plan, want=want)
  else:
    bad(((plan > 0).sum(2) <= k), 'more than K experts in an item\'s plan', plan=plan)
    cnt_e, cnt_i = (plan != 0).sum(1), (plan != 0).sum(2)
    for nm, v in (('num_items_per_expert_min', cnt_e.min(1)),
                  ('num_items_per_expert_max', cnt_e.max(1)),
                  ('num_items_per_expert_avg', cnt_e.mean(1)),
                  ('num_experts_per_item_min', cnt_i.min(1)),
                  ('num_experts_per_item_max', cnt_i.max(1)),
                  ('num_experts_per_item_avg', cnt_i.mean(1))):
      bad(np.abs(np.asarray(metrics[nm]) - v) < 1e-5, nm, got=metrics[nm], want=v, plan=plan)
  acc = moe_obs.greedy(plan.astype(np.float32), k, cap, bpr)
  check_routes(bad, d, w, acc, moe_obs.softmax(x) if softmax else plan, plan)
  if kind == 'kl' and extra.get('importance_loss_weight'):
    z = moe_obs.softmax(x).sum(1)
    imp = (z.std(1) / z.mean(1)) ** 2
    bad(np.abs(np.asarray(metrics['importance_loss']) - imp) < 1e-4, 'importance loss',
        got=metrics['importance_loss'], want=imp)
    bad(np.abs(np.asarray(metrics['auxiliary_loss']) -
               extra['importance_loss_weight'] * imp) < 1e-4, 'auxiliary loss',
        got=metrics['auxiliary_loss'])
  else:
    c.require(float(np.abs(np.asarray(metrics['auxiliary_loss'])).max()) == 0,
              'auxiliary loss without any loss weight', cfg)


def items(c, job):
  """Routers in which experts choose items."""
  kind, s, e, cap, softmax, alpha = job
  x = logits_of(s, e, alpha)
  n = len(x)
  cfg = dict(router=kind, S=s, E=e, capacity=cap, softmax_combine=softmax)
  c.context = cfg
  cls = {'kl': kl.KLProjectionNoisyTopItemsPerExpertRouter,
         'sparse': sp.SparseProjectionTransportTopItemsPerExpertRouter,
         'ksparse': ks.KSparseProjectionTransportTopItemsPerExpertRouter}[kind]
  # The factor whose share of the items is exactly the capacity.
  def disp_of(cc):
    if kind == 'ksparse':
      return dict(name='einsum', capacity_factor=cc * e / s, capacity_multiple_of=1,
                  capacity_ceil_or_round='round')
    return dict(name='einsum', capacity=cc)
  extra = {}
  maxiter = {'kl': 150, 'sparse': 1500, 'ksparse': 60}[kind]
  if kind == 'kl':
    extra['deterministic'] = True
  if kind != 'kl':
    extra['adam_lr'] = 2e-2
  mk = lambda cc, sm: cls(num_experts=e, maxiter=maxiter, use_softmax_combine_weights=sm,
                          dispatcher=disp_of(cc), **extra)
  disp, metrics = apply(mk(cap, softmax), x, e)
  full, _ = apply(mk(cap if kind == 'ksparse' else s, False), x, e)
  d, w, slots = moe_obs.observe_groups(disp, n, s)
  _, plan, _ = moe_obs.observe_groups(full, n, s)
  bad = reporter(c, cfg, x, job)
  c.require(slots == cap, 'slots per expert differ from the capacity',
            {**cfg, 'slots': slots})
  bad((plan >= 0), 'negative plan', plan=plan)
  gates = moe_obs.softmax(x)
  if kind == 'kl':
    bad(np.abs(plan.sum(2) - 1) < 2e-3, 'an item\'s plan does not sum to one', plan=plan)
    bad(np.abs(plan.sum(1) - s / e) < 2e-3, 'experts do not get equal shares', plan=plan)
    want = sinkhorn(x)
    bad(np.abs(plan - want) < 2e-3, 'the plan is not the KL projection of the logits',
        plan=plan, want=want)
  elif kind == 'sparse':
    want = quadratic(gates)
    bad(np.abs(plan - want) < 4e-2, 'the plan is not the Euclidean projection of the gates',
        plan=plan, want=want)
  else:
    bad(np.abs(plan.sum(1) - s / e) < 2e-3, 'experts do not get equal shares', plan=plan)
    bad(((plan > 0).sum(1) <= cap), 'more items in an expert\'s plan than its capacity',
        plan=plan)
    cnt = (plan != 0).sum(1)
    for nm, v in (('num_items_per_expert_min', cnt.min(1)),
                  ('num_items_per_expert_max', cnt.max(1)),
                  ('num_items_per_expert_avg', cnt.mean(1))):
      bad(np.abs(np.asarray(metrics[nm]) - v) < 1e-5, nm, got=metrics[nm], want=v, plan=plan)
  acc = moe_obs.experts_choice(plan.astype(np.float32), cap)
  check_routes(bad, d, w, acc, gates if softmax else plan, plan)
  c.require(float(np.abs(np.asarray(metrics['auxiliary_loss'])).max()) == 0,
            'experts choice has an auxiliary loss', cfg)


def symmetry(c, job):
  """Plans do not depend on the order of items, experts or groups."""
  kind, s, e = job
  rs = np.random.RandomState(2)
  x = rs.uniform(-1, 1.5, (3, s, e)).astype(np.float32)
  cls, kw = {
      'kl': (kl.KLProjectionNoisyTopItemsPerExpertRouter,
             dict(deterministic=True, maxiter=60)),
      'lbfgs': (kl.KLProjectionNoisyTopExpertsPerItemRouter,
                dict(deterministic=True, maxiter=30, use_lbfgs=True,
                     num_selected_experts=e)),
      'sparse': (sp.SparseProjectionTransportTopItemsPerExpertRouter,
                 dict(maxiter=300)),
      'ksparse': (ks.KSparseProjectionTransportTopItemsPerExpertRouter,
                  dict(maxiter=30))}[kind]
  disp = dict(name='einsum', capacity_factor=float(e), capacity_multiple_of=1)
  if kind == 'lbfgs':
    disp['batch_priority'] = False
  r = cls(num_experts=e, use_softmax_combine_weights=False, dispatcher=disp, **kw)
  fn = jax.jit(lambda x, k: r.apply({'params': {'dense': {'kernel': k}}}, x)[0])
  def plan(x, k=np.eye(e, dtype=np.float32)):
    return moe_obs.observe_groups(fn(jnp.asarray(x), jnp.asarray(k)), len(x), s)[1]
  p0 = plan(x)
  for pi in itertools.permutations(range(s)):
    pe = tuple((i + 1) % e for i in range(e)) if pi[0] % 2 else tuple(range(e))
    y = x[[2, 0, 1]][:, pi][:, :, pe]
    c.case(('symmetry', kind, s, e, pi))
    q = plan(y)
    c.require(np.abs(q - p0[[2, 0, 1]][:, pi][:, :, pe]).max() < 1e-2,
              'the plan depends on the order of items, experts or groups',
              {'router': kind, 'items': pi, 'experts': pe, 'logits': x, 'got': q})


def noise(c, _):
  """Noise only when stochastic; it changes the plan per group and item."""
  e, s, g = 3, 4, 32
  x = jnp.zeros((g, s, e))
  for cls, kw, disp in (
      (kl.KLProjectionNoisyTopExpertsPerItemRouter, dict(num_selected_experts=e),
       dict(name='einsum', capacity=s, batch_priority=False)),
      (kl.KLProjectionNoisyTopItemsPerExpertRouter, {}, dict(name='einsum', capacity=s))):
    for std in (1.0, 2.0):
      r = cls(num_experts=e, noise_std=std, use_softmax_combine_weights=False,
              maxiter=100, dispatcher=disp, **kw)
      zs = []
      for key in (0, 1):
        d, m = r.apply({'params': {'dense': {'kernel': jnp.eye(e)}}}, x,
                       rngs={'gating': jax.random.PRNGKey(key)})
        _, p, _ = moe_obs.observe_groups(d, g, s)
        cfg = {'router': cls.__name__, 'noise_std': std}
        c.context = cfg
        c.case(('noise', cls.__name__, std, key))
        c.require(np.abs(p.sum(2) - 1).max() < 5e-3 and
                  np.abs(p.sum(1) - s / e).max() < 5e-3, 'unbalanced plan', cfg)
        z = np.log(p)
        z = z - z.mean(1, keepdims=True) - z.mean(2, keepdims=True) + z.mean((1, 2), keepdims=True)
        got = z.std() / math.sqrt((1 - 1 / s) * (1 - 1 / e))
        c.require(abs(got / (std / e) - 1) < 0.35, 'noise standard deviation is not '
                  'noise_std / experts', {**cfg, 'got': got})
        c.require(len(np.unique(np.round(z.reshape(g, -1), 4), axis=0)) == g,
                  'same noise in several groups', cfg)
        zs.append(z)
      c.require(np.abs(zs[0] - zs[1]).max() > 0.1, 'noise does not depend on the key', cfg)
    for kw2 in (dict(deterministic=True), dict(noise_std=0.0)):
      r = cls(num_experts=e, use_softmax_combine_weights=False, maxiter=50,
              dispatcher=disp, **{**kw, **kw2})
      d, _ = apply(r, x, e)
      _, p, _ = moe_obs.observe_groups(d, g, s)
      c.require(np.abs(p - 1 / e).max() < 1e-3, 'noise although deterministic', str(kw2))
      c.case(('quiet', cls.__name__, str(kw2)))


def errors(c, _):
  for cls in (kl.KLProjectionNoisyTopExpertsPerItemRouter,
              ks.KSparseProjectionTransportTopExpertsPerItemRouter):
    for k, shape in ((0, (1, 2, 3)), (4, (1, 2, 3)), (1, (2, 3)), (1, (1, 1, 2, 3))):
      r = cls(num_experts=3, num_selected_experts=k, deterministic=True,
              dispatcher=dict(name='einsum', capacity=2, batch_priority=False))
      try:
        apply(r, np.ones(shape, np.float32), 3)
      except ValueError:
        c.case(('error', cls.__name__, k, shape))
        continue
      c.fail('an invalid configuration is accepted', {'K': k, 'shape': shape})


def dispatch(c, j):
  globals()[j[0]](c, j[1])


def run(c):
  A2, A3 = (-1.0, 1.5), (-1.0, 0.25, 2.0)
  jobs = []
  shapes = c.q([(2, 2, A3), (3, 2, A3), (3, 3, A2)],
               [(2, 2, A3), (3, 2, A3), (3, 3, A2), (2, 3, A3), (4, 2, A3), (4, 3, A2)])
  for s, e, al in shapes:
    for k in range(1, e + 1):
      for cap in range(1, s + 1):
        jobs.append(('experts', ('kl', s, e, k, cap, bool((k + cap) % 2), cap != 2, al,
                                 (('importance_loss_weight', 0.5),) if cap == 1 else ())))
    for k in range(1, e + 1):
      jobs.append(('experts', ('ksparse', s, e, k, max(1, s - 1), k == 1, k != 2, al, ())))
    for cap in range(1, s + 1):
      jobs.append(('items', ('kl', s, e, cap, cap != 2, al)))
      if cap > 1 or c.thorough:
        jobs.append(('items', ('sparse', s, e, cap, cap != 2, al)))
        jobs.append(('items', ('ksparse', s, e, cap, cap != 2, al)))
  jobs += [('symmetry', (k, 3, 2)) for k in ('kl', 'lbfgs', 'sparse', 'ksparse')]
  jobs += [('noise', 0), ('errors', 0)]
  jobs.sort(key=lambda j: -j[1][1] * j[1][2] if j[0] in ('experts', 'items') else -99)
  c.parallel(jobs, dispatch)
