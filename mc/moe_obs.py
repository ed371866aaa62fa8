"""Observes a dispatcher only through dispatch()/combine().

`observe(make, gates)`: for gates (N, S, E), builds a one-group dispatcher per
pattern and returns
  D (N, E, C, S): how much of item s sits in slot c of expert e (dispatch of the
    identity), and
  W (N, S, E, C): weight with which slot (e, c) contributes to item s (combine
    of the identity).
"""
import functools
import jax
import jax.numpy as jnp
import numpy as np


def observe_fn(make):
  def one(gates):
    s, e = gates.shape
    disp = jax.vmap(make)(gates[None])
    if isinstance(disp, tuple):
      disp, aux = disp
    else:
      aux = {}
    eye = jnp.eye(s, dtype=jnp.float32)[None]
    d = disp.dispatch(eye)            # (E, C, S)
    c = d.shape[1]
    basis = jnp.eye(e * c, dtype=jnp.float32).reshape(e, c, e * c)
    w = disp.combine(basis)[0].reshape(s, e, c)
    return d, w, jax.tree_util.tree_map(lambda x: x[0], aux)
  return jax.jit(jax.vmap(one))


def batches(arr, size):
  """Fixed-size batches (last one padded by repetition): one jit shape."""
  n = len(arr)
  size = min(size, n)
  for i in range(0, n, size):
    b = arr[i:i + size]
    k = len(b)
    if k < size:
      b = np.concatenate([b, np.repeat(b[-1:], size - k, axis=0)])
    yield b, k


def all_gates(s, e, alphabet):
  """All (S, E) matrices over the alphabet, lexicographic order."""
  grids = np.indices((len(alphabet),) * (s * e)).reshape(s * e, -1).T
  return np.asarray(alphabet, np.float32)[grids].reshape(-1, s, e)


def observe_groups(disp, g, s):
  """Observes a one-item-per-slot dispatcher over g groups of s items.

  Returns D (G,E,S): number of slots of expert e holding item (g,s), W (G,S,E):
  total weight of expert e in item (g,s), and the number of slots per expert and
  group. The layout of the slots is not assumed.
  """
  digits = np.stack([np.arange(g) // 4096, np.arange(g) // 64 % 64,
                     np.arange(g) % 64], -1)
  tag = np.broadcast_to(digits[:, None], (g, s, 3)).astype(np.float32)
  item = np.broadcast_to(np.arange(s, dtype=np.float32)[:, None], (g, s, 1))
  one = np.ones((g, s, 1), np.float32)
  d = np.asarray(disp.dispatch(jnp.asarray(np.concatenate([tag, item, one], -1))),
                 np.float64)
  e, slots = d.shape[:2]
  full = d[..., 4] != 0
  if not np.isin(d[..., 4], (0, 1)).all() or (d != np.round(d)).any():
    raise AssertionError('a slot does not hold exactly one unmodified item')
  gi = (d[..., 0] * 4096 + d[..., 1] * 64 + d[..., 2]).astype(int)
  out = np.zeros((g, e, s), np.int64)
  ee = np.broadcast_to(np.arange(e)[:, None], (e, slots))
  np.add.at(out, (gi[full], ee[full], d[..., 3].astype(int)[full]), 1)
  basis = jnp.asarray(np.broadcast_to(
      np.eye(e, dtype=np.float32)[:, None], (e, slots, e)))
  w = disp.combine(basis)
  return out, np.asarray(w, np.float64).reshape(g, s, e), slots // g


def greedy(gates, k_sel, cap, bpr):
  """(N,S,E) booleans: pairs admitted by the greedy allocator."""
  n, s, e = gates.shape
  order_e = np.argsort(-gates, axis=2, kind='stable')[:, :, :k_sel]
  if bpr:
    prio = np.argsort(-gates.max(axis=2), axis=1, kind='stable')
  else:
    prio = np.tile(np.arange(s), (n, 1))
  load = np.zeros((n, e), np.int64)
  acc = np.zeros((n, s, e), bool)
  idx = np.arange(n)
  for k in range(k_sel):
    for p in range(s):
      item = prio[:, p]
      ex = order_e[idx, item, k]
      ok = load[idx, ex] < cap
      acc[idx, item, ex] |= ok
      load[idx, ex] += ok
  return acc


def experts_choice(gates, cap):
  n, s, e = gates.shape
  order = np.argsort(-gates, axis=1, kind='stable')[:, :cap]
  acc = np.zeros((n, s, e), bool)
  for ex in range(e):
    for j in range(min(cap, s)):
      acc[np.arange(n), order[:, j, ex], ex] = True
  return acc


def softmax(x, axis=-1):
  x = np.asarray(x, np.float64)
  x = x - x.max(axis=axis, keepdims=True)
  x = np.exp(x)
  return x / x.sum(axis=axis, keepdims=True)
