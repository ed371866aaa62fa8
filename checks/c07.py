"""C07: the soft router mixes items and slots by convex combinations."""
import itertools
import math

import numpy as np

from mc import core
from mc import moe_obs

import jax
import jax.numpy as jnp
from vmoe.projects.soft_moe import router as soft

LEVEL = 'exploration'
RULE = ('a case = one group of items (one input matrix) with one slot matrix mixed by '
        'the real soft router; the dispatch and combine weights are observed by '
        'passing one-hot items/slots through dispatch()/combine() and compared with '
        'the two softmaxes of the scaled cosine similarities, and every metric with '
        'its definition; distinct = (configuration, inputs, slots)')
ASSUMPTIONS = ['items, experts, slots <= 3, dimensions <= 3, alphabet values; the '
               'bfloat16 dispatcher is compared at 1% (float32 metrics at 1e-4)']


def unit(x, axis):
  n = np.sqrt((x ** 2).sum(axis=axis, keepdims=True))
  return np.divide(x, n, out=np.zeros_like(x), where=n > 0)


def expected(x, mu, scale):
  """Dispatch (G,M,N,P) softmax over items; combine softmax over slots."""
  x, mu = unit(x.astype(np.float64), -1), unit(mu.astype(np.float64), 0)
  l = scale * np.einsum('gmd,dnp->gmnp', x, mu)
  e = np.exp(l)
  return e / e.sum(1, keepdims=True), e / e.sum((2, 3), keepdims=True), mu


def pairs(v):
  """Cosine similarities of all pairs of different rows of v (R, D)."""
  v = unit(v, 1)
  s = v @ v.T
  return s[~np.eye(len(v), dtype=bool)]


def want_metrics(d, c, mu):
  g, m, n, p = d.shape
  out = {'auxiliary_loss': 0.0,
         'combine_weights_min_mean': c.min((2, 3)).mean(),
         'combine_weights_max_mean': c.max((2, 3)).mean(),
         'dispatch_weights_min_mean': d.min(1).mean(),
         'dispatch_weights_max_mean': d.max(1).mean()}
  def add(name, x):
    if x.size:
      out.update({name + '_min': x.min(), name + '_max': x.max(), name + '_mean': x.mean()})
  add('combine_weights_similarity',
      np.concatenate([pairs(c[i].reshape(m, -1)) for i in range(g)]))
  add('dispatch_weights_similarity',
      np.concatenate([pairs(d[i].reshape(m, -1).T) for i in range(g)]))
  add('mu_similarity', pairs(mu.reshape(mu.shape[0], -1).T))
  return out


def observe(router, params, x, rngs=None):
  g, m, _ = x.shape
  disp, metrics = router.apply({'params': params}, x, rngs=rngs)
  eye = jnp.eye(g * m, dtype=jnp.float32).reshape(g, m, g * m)
  d = disp.dispatch(eye)                         # (E, slots, G*M)
  e, slots = d.shape[:2]
  w = disp.combine(jnp.eye(e * slots, dtype=jnp.float32).reshape(e, slots, e * slots))
  return d, w.reshape(g, m, e, slots), metrics


def align(d, w, g, m):
  """Finds the slots of each group: (G,M,N,P) dispatch and combine weights."""
  d, w = np.asarray(d, np.float64), np.asarray(w, np.float64)
  e, slots, _ = d.shape
  d = d.reshape(e, slots, g, m)
  owner = (d != 0).any(3)                        # (E, slots, G)
  if not (owner.sum(2) == 1).all():
    return None, 'a slot mixes items of several groups (or of none)'
  p = slots // g
  D, W = np.zeros((g, m, e, p)), np.zeros((g, m, e, p))
  for i, j in itertools.product(range(g), range(e)):
    pos = np.flatnonzero(owner[j, :, i])
    if len(pos) != p:
      return None, 'groups have different numbers of slots'
    D[i, :, j] = d[j, pos, i].T
    W[i, :, j] = w[i][:, j, pos]
    rest = np.delete(w[i][:, j], pos, axis=1)
    if rest.size and np.abs(rest).max() > 0:
      return None, 'an item receives the output of another group\'s slot'
  return (D, W), None


def params_of(router, x, mu, scale):
  v = router.init({'params': jax.random.PRNGKey(0), 'gating': jax.random.PRNGKey(1)}, x)
  return jax.tree_util.tree_map(
      lambda l: jnp.asarray(scale, l.dtype) if l.ndim == 0 else jnp.asarray(mu, l.dtype),
      v['params'])


def mix(c, job):
  m, dim, n, p, g, alpha, scales, how = job
  kw = dict(num_slots=p) if how == 'slots' else dict(capacity_factor=n * p / m)
  router = soft.SoftRouter(num_experts=n, deterministic=True, **kw)
  xs = moe_obs.all_gates(m, dim, alpha)
  xs = xs[np.random.RandomState(1).permutation(len(xs))]
  if len(xs) % g:
    xs = np.concatenate([xs, xs[:g - len(xs) % g]])
  mus = []
  base = np.arange(dim * n * p).reshape(dim, n, p)
  mus.append(((base * 5) % 7 - 3.0).astype(np.float32))
  mus.append(((base * 3 + 1) % 5 - 1.0).astype(np.float32) * 10)
  mus.append(-np.ones((dim, n, p), np.float32) * 0.5 * (-1) ** base)
  # Slot vectors are not zero (their direction would be undefined).
  mus = [np.where((np.abs(a).sum(0) == 0)[None], 1.0, a).astype(np.float32) for a in mus]
  cfg = dict(items=m, dim=dim, experts=n, slots=p, groups=g, how=how)
  c.context = cfg
  params = params_of(router, jnp.asarray(xs[:g]), mus[0], 1.0)
  fn = jax.jit(lambda prm, x: observe(router, prm, x))
  for mi, mu in enumerate(mus):
    for scale in scales:
      prm = jax.tree_util.tree_map(
          lambda l: jnp.asarray(scale, l.dtype) if l.ndim == 0 else jnp.asarray(mu, l.dtype),  # pylint: disable=cell-var-from-loop
          params)
      for k in range(0, len(xs), g):
        x = xs[k:k + g]
        info = {**cfg, 'inputs': x, 'mu': mu, 'scale': scale}
        c.context = info
        d, w, metrics = fn(prm, jnp.asarray(x))
        c.case(n=g)
        for i in range(g):
          c.distinct.add(hash((job[:5], mi, scale, x[i].tobytes())))
        c.require(d.shape[1] == g * p, 'number of slots', {**info, 'shape': d.shape})
        dw, err = align(d, w, g, m)
        c.require(err is None, err, info)
        D, W = dw
        wd, wc, mun = expected(x, mu, scale)
        c.require(np.abs(D.sum(1) - 1).max() < 0.02, 'a slot is not a convex combination '
                  'of the items', lambda: {**info, 'dispatch': D})
        c.require(np.abs(W.sum((2, 3)) - 1).max() < 0.04, 'an item is not a convex '
                  'combination of the slots', lambda: {**info, 'combine': W})
        ok = lambda a, b: (np.abs(a - b) <= 0.01 * b + 1e-6).all()
        c.require(ok(D, wd), 'dispatch weights', lambda: {**info, 'got': D, 'want': wd})
        c.require(ok(W, wc), 'combine weights', lambda: {**info, 'got': W, 'want': wc})
        want = want_metrics(wd, wc, mun)
        for name, v in want.items():
          got = float(metrics[name])
          c.require(abs(got - v) <= 2e-4, f'metric {name}',
                    lambda: {**info, 'metric': name, 'got': got, 'want': v})  # pylint: disable=cell-var-from-loop


def slots(c, _):
  """Number of slots; optional metrics; dtype; other dispatch dims."""
  for m, n, f in itertools.product(range(1, 9), range(1, 5), (0.5, 1.0, 1.5, 2.0)):
    x = jnp.ones((1, m, 2))
    q = m * f / n
    want = round(q)
    info = {'items': m, 'experts': n, 'factor': f}
    c.context = info
    if want < 1:
      continue
    r = soft.SoftRouter(num_experts=n, capacity_factor=f, deterministic=True)
    v = jax.eval_shape(lambda: r.init(jax.random.PRNGKey(0), x))  # pylint: disable=cell-var-from-loop
    shp = [l.shape for l in jax.tree_util.tree_leaves(v) if l.ndim == 3]
    c.case(('slots', m, n, f))
    c.require(shp == [(2, n, want)] or (abs(q - math.floor(q) - 0.5) < 1e-9 and
                                        shp[0][2] in (math.floor(q), math.ceil(q))),
              'slots per expert', {**info, 'got': shp, 'want': want})
    r2 = soft.SoftRouter(num_experts=n, num_slots=2, capacity_factor=f, deterministic=True)
    v = jax.eval_shape(lambda: r2.init(jax.random.PRNGKey(0), x))  # pylint: disable=cell-var-from-loop
    shp = [l.shape for l in jax.tree_util.tree_leaves(v) if l.ndim == 3]
    c.require(shp == [(2, n, 2)], 'num_slots is not used', {**info, 'got': shp})
  r = soft.SoftRouter(num_experts=2, num_slots=1, deterministic=True,
                      compute_similarity_metrics=False)
  v = r.init(jax.random.PRNGKey(0), jnp.ones((1, 2, 2)))
  _, metrics = r.apply({'params': v['params']}, jnp.ones((1, 2, 2)))
  c.require(not any('similarity' in k for k in metrics) and 'auxiliary_loss' in metrics,
            'similarity metrics computed although disabled', {'metrics': sorted(metrics)})
  c.case()


def noise(c, _):
  g, m, n, p = 16, 8, 3, 2
  x = jnp.zeros((g, m, 2))
  for std in (0.25, 1.0):
    zs = []
    for key in (0, 1):
      r = soft.SoftRouter(num_experts=n, num_slots=p, noise_std=std)
      prm = params_of(r, x, np.ones((2, n, p), np.float32), 1.0)
      d, w, _ = observe(r, prm, x, rngs={'gating': jax.random.PRNGKey(key)})
      dw, err = align(d, w, g, m)
      cfg = {'noise_std': std, 'key': key}
      c.context = cfg
      c.require(err is None, err, cfg)
      ld, lw = np.log(dw[0]), np.log(dw[1])
      cen = lambda z: z - z.mean((2, 3), keepdims=True) - z.mean(1, keepdims=True) + z.mean((1, 2, 3), keepdims=True)
      a, b = cen(ld), cen(lw)
      c.require(np.abs(a - b).max() < 0.03,
                'dispatch and combine use different (noisy) logits', cfg)
      got = b.std() / math.sqrt((1 - 1 / (n * p)) * (1 - 1 / m))
      c.require(abs(got / std - 1) < 0.15, 'noise standard deviation', {**cfg, 'got': got})
      c.require(len(np.unique(np.round(b.reshape(g, -1), 2), axis=0)) == g,
                'the same noise in several groups', cfg)
      zs.append(b)
      c.case(('noise', std, key))
    c.require(np.abs(zs[0] - zs[1]).max() > 0.1, 'noise does not depend on the key', cfg)
  # No randomness is needed when deterministic or without noise.
  for kw in (dict(deterministic=True, noise_std=1.0), dict(noise_std=0.0)):
    r = soft.SoftRouter(num_experts=n, num_slots=p, **kw)
    prm = params_of(r, x, np.ones((2, n, p), np.float32), 1.0)
    c.context = kw
    a = observe(r, prm, x)
    b = observe(r, prm, x, rngs={'gating': jax.random.PRNGKey(5)})
    c.require(np.array_equal(a[0], b[0]) and np.array_equal(a[1], b[1]),
              'noise although deterministic', kw)
    c.case(('quiet', str(kw)))


def dispatch(c, j):
  globals()[j[0]](c, j[1])


def run(c):
  A2, A3 = (-1.0, 2.0), (-1.0, 0.0, 2.0)
  jobs = [('noise', 0), ('slots', 0)]
  shapes = c.q([(2, 2, 2, 1, A3), (2, 2, 1, 2, A3), (3, 2, 2, 2, A2), (1, 2, 2, 1, A3),
                (3, 1, 2, 1, A3), (2, 3, 3, 1, A2), (2, 1, 1, 1, A3), (2, 1, 2, 3, A3)],
               [(2, 2, 2, 1, A3), (2, 2, 1, 2, A3), (3, 2, 2, 2, A3), (1, 2, 2, 1, A3),
                (3, 1, 2, 1, A3), (2, 3, 3, 1, A3), (2, 1, 1, 1, A3), (2, 1, 2, 3, A3),
                (3, 2, 3, 3, A2), (3, 3, 2, 2, A2), (2, 2, 3, 2, A3)])
  for m, dim, n, p, al in shapes:
    for g in (1, 2, 3, n):
      jobs.append(('mix', (m, dim, n, p, g, al, (1.0, 3.0, -2.0) if g < 3 else (0.5,),
                           'slots' if g != 2 else 'factor')))
  jobs.sort(key=lambda j: -j[1][0] * j[1][1] if j[0] == 'mix' else -99)
  c.parallel(jobs, dispatch)
