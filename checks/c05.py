"""C05: router layers turn logits into gates, routes and auxiliary losses.

Every logit matrix over an alphabet is one group of a single large call, so that
every pattern also has different neighbours; the gating noise is an enumerated
input (the harness answers the random generator).
"""
import itertools
import math
import numpy as np
from mc import core
from mc import moe_obs

import jax
import jax.numpy as jnp
from vmoe.nn import routing

LEVEL = 'exploration'
RULE = ('a case = one group of items (one logit matrix, one noise matrix) routed '
        'by the real router layer in one configuration; distinct = distinct '
        '(configuration, logits, noise); gates, routes, capacity drops and the '
        'auxiliary losses are compared with a direct evaluation')
ASSUMPTIONS = ['logits and noise from finite alphabets, S,E <= 4',
               'when the router draws its noise in another shape than one '
               'standard normal per (group, item, expert), only the properties '
               'that do not need the drawn values are compared']
KEY = np.zeros(2, np.uint32)


def erf(x):
  import scipy.special
  return scipy.special.erf(x)


def cv2(x):
  x = np.asarray(x, np.float64)
  return (x.std(axis=-1) / x.mean(axis=-1)) ** 2


def importance(gates):
  return cv2(gates.sum(axis=1))


def gshard(gates):
  n, s, e = gates.shape
  top1 = np.eye(e)[gates.argmax(axis=2)].mean(axis=1)
  return (top1 * gates.mean(axis=1)).mean(axis=1) * e ** 2


def load(logits, noisy, std, k):
  thr = np.sort(noisy, axis=2)[:, :, -k][..., None]
  p = 1 - 0.5 * (1 + erf((thr - logits) / std / math.sqrt(2)))
  return cv2(p.mean(axis=1))


class Noise:
  """Answers jax.random.normal with the harness's array."""

  def __init__(self, value):
    self.value = value
    self.used = 0
    self.other = 0

  def __enter__(self):
    self.real = jax.random.normal

    def normal(key, shape=(), dtype=float, **kw):
      if self.value is not None and tuple(shape) == self.value.shape:
        self.used += 1
        return jnp.asarray(self.value, dtype if dtype is not float else jnp.float32)
      self.other += 1
      return self.real(key, shape, dtype, **kw)

    jax.random.normal = normal
    return self

  def __exit__(self, *a):
    jax.random.normal = self.real


def apply(router, x, kernel, rng=True):
  rngs = {'gating': KEY} if rng else None
  return router.apply({'params': {'dense': {'kernel': kernel}}}, x, rngs=rngs)


def close(a, b, tol=2e-5):
  a, b = np.asarray(a, np.float64), np.asarray(b, np.float64)
  if a.shape != b.shape:
    return np.zeros(1, bool)
  return np.abs(a - b) <= tol * (1 + np.abs(b))


def bad(c, ok, what, cfg, logits, noise, **kw):
  ok = np.asarray(ok)
  ok = ok.reshape(ok.shape[0], -1).all(axis=1)
  if not ok.all():
    i = int(np.nonzero(~ok)[0][0])
    if i >= len(logits):
      i = 0
    c.fail(what, {**cfg, 'group': i, 'logits': logits[i],
                  'noise': None if noise is None else noise[i],
                  **{k: np.asarray(v)[i] if np.ndim(v) and len(v) > i else v
                     for k, v in kw.items()}})


def patterns(s, e, alpha, limit=None):
  g = moe_obs.all_gates(s, e, alpha)
  return g


def top_experts(c, job):
  s, e, k, cap, bpr, name, det, std, weights, bf16, alpha, nalpha = job
  logits = patterns(s, e, alpha)
  if nalpha is None:
    noise = None
  else:
    nz = patterns(s, e, nalpha)
    a, b = len(logits), len(nz)
    logits, noise = np.repeat(logits, b, 0), np.tile(nz, (a, 1, 1))
  n = len(logits)
  # A fixed permutation so that neighbouring groups are unrelated.
  perm = np.random.RandomState(7).permutation(n)
  logits = logits[perm]
  noise = None if noise is None else noise[perm]
  cfg = dict(router='top_experts', S=s, E=e, K=k, capacity=cap, batch_priority=bpr,
             dispatcher=name, deterministic=det, noise_std=std, weights=weights,
             bfloat16=bf16)
  c.context = cfg
  disp = dict(name=name, capacity=cap, batch_priority=bpr)
  if bf16:
    disp['bfloat16'] = True
  w = dict(zip(('gshard_loss_weight', 'importance_loss_weight',
                'load_loss_weight'), weights))
  mk = lambda kk, d: routing.NoisyTopExpertsPerItemRouter(
      num_experts=e, num_selected_experts=kk, noise_std=std, deterministic=det,
      dispatcher=d, **w)
  silent = det or std == 0.0
  eye = jnp.eye(e)
  with Noise(noise) as nz:
    dispatcher, metrics = apply(mk(k, disp), jnp.asarray(logits), eye, not silent)
    known = silent or nz.used == 1
    c.require(not silent or nz.used + nz.other == 0,
              'random noise is drawn although the router is deterministic', cfg)
    full, _ = apply(mk(e, dict(name='einsum', capacity=s, batch_priority=False)),
                    jnp.asarray(logits), eye, not silent)
  d, wt, slots = moe_obs.observe_groups(dispatcher, n, s)
  _, wf, _ = moe_obs.observe_groups(full, n, s)
  gates = wf                     # gates seen without any drop.
  c.require(slots == cap, 'slots per expert differ from the capacity',
            {**cfg, 'slots': slots})
  c.case(n=n)
  for i in range(n):
    c.distinct.add(hash((job, logits[i].tobytes(),
                         b'' if noise is None else noise[i].tobytes())))
  noisy = logits.astype(np.float64)
  if not silent and known:
    noisy = noisy + std / e * noise
  args = (cfg, logits, noise)
  if known:
    bad(c, close(gates, moe_obs.softmax(noisy)), 'gates are not the softmax of '
        'the (noisy) logits', *args, gates=gates, want=moe_obs.softmax(noisy))
  bad(c, close(gates.sum(2), np.ones((n, s))), 'gates do not sum to one', *args,
      gates=gates)
  acc = moe_obs.greedy(gates.astype(np.float32), k, cap, bpr)
  bad(c, d.transpose(0, 2, 1) == acc, 'routed pairs', *args,
      gates=gates, routed=d, want=acc)
  tol = 1e-2 if bf16 else 2e-6
  bad(c, close(wt, np.where(acc, gates, 0), tol), 'combine weights', *args,
      weights=wt, want=np.where(acc, gates, 0))
  # Auxiliary losses.
  clean = moe_obs.softmax(logits)
  want = {'importance_loss': importance(clean)}
  # The top-1 counts are taken on the gates in single precision (ties).
  want['gshard_loss'] = gshard(gates if not silent else gates)
  total = weights[1] * want['importance_loss'] + weights[0] * want['gshard_loss']
  if not silent and known:
    want['load_loss'] = load(logits.astype(np.float64), noisy, std / e, k)
    total = total + weights[2] * want['load_loss']
  if silent or known:
    want['auxiliary_loss'] = total
  c.require(set(metrics) == set(want) | ({'load_loss', 'auxiliary_loss'}
                                         if not silent else set()),
            'set of reported metrics', {**cfg, 'metrics': sorted(metrics)})
  for m, v in want.items():
    got = np.broadcast_to(np.asarray(metrics[m], np.float64), (n,)) \
        if np.ndim(metrics[m]) == 0 else np.asarray(metrics[m], np.float64)
    ok = close(got, v, 2e-4)
    bad(c, ok if ok.shape == (n,) else np.zeros(1, bool), f'{m} differs', *args,
        got=got, want=v)
  c.sample({**cfg, 'logits': logits[0], 'gates': gates[0], 'admitted': acc[0]})


def top_items(c, job):
  s, e, cap, det, std, bf16, alpha, nalpha = job
  logits = patterns(s, e, alpha)
  noise = None
  if nalpha is not None:
    nz = patterns(s, e, nalpha)
    a, b = len(logits), len(nz)
    logits, noise = np.repeat(logits, b, 0), np.tile(nz, (a, 1, 1))
  n = len(logits)
  perm = np.random.RandomState(7).permutation(n)
  logits = logits[perm]
  noise = None if noise is None else noise[perm]
  cfg = dict(router='top_items', S=s, E=e, capacity=cap, deterministic=det,
             noise_std=std, bfloat16=bf16)
  c.context = cfg
  disp = dict(name='einsum', capacity=cap)
  if bf16:
    disp['bfloat16'] = True
  mk = lambda d: routing.NoisyTopItemsPerExpertRouter(
      num_experts=e, noise_std=std, deterministic=det, dispatcher=d)
  silent = det or std == 0.0
  with Noise(noise) as nz:
    dispatcher, metrics = apply(mk(disp), jnp.asarray(logits), jnp.eye(e), not silent)
    known = silent or nz.used == 1
    c.require(not silent or nz.used + nz.other == 0,
              'random noise is drawn although the router is deterministic', cfg)
    full, _ = apply(mk(dict(name='einsum', capacity=s)), jnp.asarray(logits),
                    jnp.eye(e), not silent)
  d, wt, slots = moe_obs.observe_groups(dispatcher, n, s)
  _, wf, _ = moe_obs.observe_groups(full, n, s)
  gates = wf
  c.require(slots == cap, 'slots per expert differ from the capacity',
            {**cfg, 'slots': slots})
  c.case(n=n)
  for i in range(n):
    c.distinct.add(hash((job, logits[i].tobytes(),
                         b'' if noise is None else noise[i].tobytes())))
  noisy = logits.astype(np.float64)
  if not silent and known:
    noisy = noisy + std / e * noise
  args = (cfg, logits, noise)
  if known:
    bad(c, close(gates, moe_obs.softmax(noisy)), 'gates are not the softmax of '
        'the (noisy) logits', *args, gates=gates)
  acc = moe_obs.experts_choice(gates.astype(np.float32), cap)
  bad(c, d.transpose(0, 2, 1) == acc, 'routed pairs', *args,
      gates=gates, routed=d, want=acc)
  bad(c, close(wt, np.where(acc, gates, 0), 1e-2 if bf16 else 2e-6),
      'combine weights', *args, weights=wt)
  c.require(float(np.max(np.abs(np.asarray(metrics['auxiliary_loss'])))) == 0.0,
            'experts choice has an auxiliary loss', cfg)
  per = acc.sum(2)
  for m, v in (('num_experts_per_item_min', per.min(1)),
               ('num_experts_per_item_max', per.max(1))):
    bad(c, close(metrics[m], v), m, *args, got=metrics[m], want=v)


def errors(c):
  """Invalid configurations are rejected."""
  e = 3
  disp = dict(name='einsum', capacity=2, batch_priority=False)
  cases = [(dict(num_selected_experts=k), (1, 2, e)) for k in (0, -1, 4)]
  cases += [(dict(num_selected_experts=1), shp) for shp in ((2, e), (1, 1, 2, e))]
  for kw, shape in cases:
    r = routing.NoisyTopExpertsPerItemRouter(
        num_experts=e, dispatcher=disp, deterministic=True, **kw)
    try:
      apply(r, jnp.ones(shape), jnp.eye(e), False)
    except ValueError:
      c.case(('error', str(kw), shape))
      continue
    c.fail('an invalid configuration is accepted', {**kw, 'shape': shape})


def general_kernel(c):
  """Any number of features and any kernel; dtype; group independence."""
  rs = np.random.RandomState(3)
  for h, e, s, g in itertools.product((1, 2, 5), (2, 3), (2, 3), (1, 2, 3)):
    x = rs.randint(-2, 3, (g, s, h)).astype(np.float32)
    kernel = rs.randint(-2, 3, (h, e)).astype(np.float32)
    for cls, disp in ((routing.NoisyTopExpertsPerItemRouter,
                       dict(name='einsum', capacity=s, batch_priority=False)),
                      (routing.NoisyTopItemsPerExpertRouter,
                       dict(name='einsum', capacity=s))):
      kw = dict(num_selected_experts=e) if 'Experts' in cls.__name__.split('Per')[0] else {}
      r = cls(num_experts=e, dispatcher=disp, deterministic=True, **kw)
      v = r.init(KEY, jnp.asarray(x))
      names = {jax.tree_util.keystr(p): l.shape
               for p, l in jax.tree_util.tree_leaves_with_path(v['params'])}
      c.require(sorted(names.values()) == [(h, e)],
                'the router has one (features, experts) parameter', {'params': str(names)})
      d, _ = r.apply({'params': {'dense': {'kernel': jnp.asarray(kernel)}}}, jnp.asarray(x))
      _, wt, _ = moe_obs.observe_groups(d, g, s)
      c.case(('kernel', h, e, s, g, cls.__name__))
      want = moe_obs.softmax(x.astype(np.float64) @ kernel)
      c.require(close(wt, want).all(), 'gates are not softmax(inputs x kernel)',
                {'inputs': x, 'kernel': kernel, 'got': wt, 'want': want})


def real_noise(c):
  """The noise actually drawn: scale, independence, dependence on the key."""
  e, s, g = 4, 16, 256
  x = jnp.zeros((g, s, e))
  out = {}
  for cls, kw, disp in (
      (routing.NoisyTopExpertsPerItemRouter, dict(num_selected_experts=e),
       dict(name='einsum', capacity=s, batch_priority=False)),
      (routing.NoisyTopItemsPerExpertRouter, {}, dict(name='einsum', capacity=s))):
    for std in (0.5, 1.0, 3.0):
      for key in (0, 1):
        r = cls(num_experts=e, noise_std=std, dispatcher=disp, **kw)
        d, _ = r.apply({'params': {'dense': {'kernel': jnp.eye(e)}}}, x,
                       rngs={'gating': jax.random.PRNGKey(key)})
        _, w, _ = moe_obs.observe_groups(d, g, s)
        lg = np.log(w)
        z = lg - lg.mean(2, keepdims=True)
        # Centred noise: variance (1 - 1/E) of the original.
        got = z.std() / math.sqrt(1 - 1 / e)
        cfg = {'router': cls.__name__, 'noise_std': std, 'key': key}
        c.context = cfg
        c.require(abs(got / (std / e) - 1) < 0.03,
                  f'noise has standard deviation {got}, not noise_std / num_experts', cfg)
        flat = z.reshape(g, -1)
        c.require(len(np.unique(np.round(flat, 6), axis=0)) == g,
                  'the same noise is used in several groups', cfg)
        c.require(len(np.unique(np.round(z[0], 6), axis=0)) == s,
                  'the same noise is used for several items', cfg)
        out[cls.__name__, std, key] = z
        c.case(('noise', cls.__name__, std, key))
      c.require(not np.allclose(out[cls.__name__, std, 0], out[cls.__name__, std, 1]),
                'noise does not depend on the random key', cfg)


def dispatch(c, j):
  {'te': top_experts, 'ti': top_items,
   'other': lambda c, f: globals()[f](c)}[j[0]](c, j[1])


def run(c):
  A3 = (0.0, 1.0, 3.0)
  A2 = (0.0, 2.0)
  N3 = (-2.0, 0.0, 3.0)
  N2 = (0.0, 2.5)
  jobs = []
  shapes = c.q([(2, 2, A3), (3, 2, A2), (2, 3, A3), (3, 3, A2)],
               [(2, 2, A3), (3, 2, A3), (2, 3, A3), (3, 3, A2), (4, 2, A3), (2, 4, A3),
                (4, 3, A2), (3, 4, A2)])
  for s, e, al in shapes:
    for k in range(1, e + 1):
      for cap in range(1, s + 1):
        for bpr, name in ((False, 'einsum'), (True, 'einsum'), (True, 'indices')):
          w = (0.0, 1.0, 1.0) if not bpr else (0.5, 0.0, 0.25)
          jobs.append(('te', (s, e, k, cap, bpr, name, True, 1.0, w,
                              name == 'einsum' and bpr and cap == 1, al, None)))
    jobs.append(('te', (s, e, 1, 1, False, 'einsum', False, 0.0,
                        (0.25, 0.125, 0.5), False, al, None)))
  for s, e, al, na in c.q([(2, 2, A2, N3), (2, 3, A2, N2), (3, 2, A2, N2)],
                          [(2, 2, A3, N3), (2, 3, A2, N2), (3, 2, A2, N2),
                           (2, 3, A2, N3)]):
    for k in range(1, e + 1):
      for std, w in ((1.0, (0.25, 0.125, 0.5)), (0.5, (0.0, 1.0, 0.0)),
                     (2.0, (1.0, 0.0, 1.0)), (1.0, (0.0, 0.0, 0.0))):
        jobs.append(('te', (s, e, k, max(1, s - 1), std == 2.0, 'einsum', False, std,
                            w, False, al, na)))
    for cap in range(1, s + 1):
      jobs.append(('ti', (s, e, cap, False, 1.0 if cap == 1 else 0.5, False, al, na)))
  for s, e, al in shapes:
    for cap in range(1, s + 1):
      jobs.append(('ti', (s, e, cap, True, 1.0, cap == 1, al, None)))
    jobs.append(('ti', (s, e, 1, False, 0.0, False, al, None)))
  jobs.sort(key=lambda j: -j[1][0] * j[1][1])
  c.parallel([('other', f) for f in ('general_kernel', 'real_noise', 'errors')] + jobs,
             dispatch)
