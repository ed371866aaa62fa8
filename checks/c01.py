"""C01: capacity-limited Top-Experts-Per-Item routing is the greedy allocator.

Model: an allocator with one counter per expert.  Offers are made in the order
(choice rank k, item priority); an offer is accepted iff the expert's counter is
below the capacity.  Every gate matrix over a finite alphabet is one trace of
the model, replayed against the real dispatcher (both implementations), which is
observed only through dispatch()/combine().
"""
import functools
import itertools
import numpy as np
from mc import core
from mc import moe_obs

import vmoe.moe as moe

LEVEL = 'model_checking'
RULE = ('state = (S,E,K,C,priority rule, offer number, #items held by each '
        'expert); transition = one offer accepted/dropped; trace = the full '
        'offer sequence of one gate matrix, replayed on the real dispatcher '
        '("einsum" and "indices") through dispatch()/combine()')
ASSUMPTIONS = ['gates in a finite alphabet containing ties and zeros; '
               'S<=4, E<=4 exhaustively, larger S for fixed families',
               'ties are resolved towards the lower index']


def model(gates, k_sel, cap, bpr):
  """Vectorized greedy allocator. Returns accepted (N,S,E), per-step states."""
  n, s, e = gates.shape
  order_e = np.argsort(-gates, axis=2, kind='stable')[:, :, :k_sel]
  if bpr:
    prio = np.argsort(-gates.max(axis=2), axis=1, kind='stable')
  else:
    prio = np.tile(np.arange(s), (n, 1))
  load = np.zeros((n, e), np.int64)
  acc = np.zeros((n, s, e), bool)
  idx = np.arange(n)
  steps = []
  for k in range(k_sel):
    for p in range(s):
      item = prio[:, p]
      ex = order_e[idx, item, k]
      ok = load[idx, ex] < cap
      acc[idx, item, ex] |= ok
      load[idx, ex] += ok
      steps.append(load.copy())
  return acc, steps


def compare(c, gates, acc, d, w, cfg):
  """d (N,E,C,S), w (N,S,E,C) observed; acc (N,S,E) expected."""
  n = len(gates)
  cap = cfg['C']

  def bad(mask, what):
    if mask.any():
      i = int(np.nonzero(mask)[0][0])
      c.fail(what, {**cfg, 'gates': gates[i], 'expected_accepted': acc[i],
                    'dispatched(E,C,S)': d[i], 'combine(S,E,C)': w[i]})

  bad(np.full(n, d.shape[2] != cap), 'buffer size differs from the capacity')
  bad(~np.isin(d, (0., 1.)).reshape(n, -1).all(1),
      'a slot holds something else than one unmodified item')
  bad((d.sum(3) > 1).reshape(n, -1).any(1), 'a slot holds more than one item')
  got = d.sum(2).transpose(0, 2, 1)     # (N,S,E) times item s sits at expert e
  bad((got.sum(1) > cap).any(1), 'an expert received more items than capacity')
  bad((got > 1).reshape(n, -1).any(1), 'an item was sent twice to one expert')
  bad((got.astype(bool) != acc).reshape(n, -1).any(1),
      'dispatched (item, expert) pairs differ from the greedy priority order')
  want = d.transpose(0, 3, 1, 2) * gates[..., None]
  bad((w != want).reshape(n, -1).any(1),
      'combine weight is not the gate of exactly the dispatched pair')


def one_config(c, job):
  if job[0] == 'big':
    return big_config(c, *job[1:])
  s, e, a, k, cap, bpr = job
  # Irregular dyadic values: differences expose sums of wrong gates.
  alphabet = [0.0, 0.25, 0.40625, 0.828125][-a:]
  gates_all = moe_obs.all_gates(s, e, alphabet)
  acc, steps = model(gates_all, k, cap, bpr)
  prev = np.zeros((len(gates_all), e), np.int64)
  base = (s, e, k, cap, bpr)
  c.state(base + (-1,) + (0,) * e)
  for t, st in enumerate(steps):
    for row in np.unique(st, axis=0):
      c.state(base + (t,) + tuple(int(x) for x in row))
    c.transition(len(np.unique(np.concatenate([prev, st], 1), axis=0)))
    prev = st
  for name in ('einsum', 'indices'):
    cfg = {'S': s, 'E': e, 'K': k, 'C': cap, 'batch_priority': bpr,
           'dispatcher': name}
    c.context = cfg
    f = moe_obs.observe_fn(functools.partial(
        moe.get_top_experts_per_item_dispatcher, name=name,
        num_selected_experts=k, batch_priority=bpr, capacity=cap))
    off = 0
    for b, m in moe_obs.batches(gates_all, 16384):
      d, w, _ = f(b)
      compare(c, b[:m], acc[off:off + m], np.asarray(d)[:m],
              np.asarray(w)[:m], cfg)
      off += m
    c.trace(len(gates_all))
  c.count('distinct_final_allocations', len(np.unique(acc.reshape(len(acc), -1), axis=0)))
  c.sample({'S': s, 'E': e, 'K': k, 'C': cap, 'bpr': bpr, 'alphabet': alphabet,
            'matrices': len(gates_all)})


def big_config(c, s, bf16, k, cap, bpr, name):
  """Large groups: counters must not saturate or lose precision."""
  import jax.numpy as jnp
  dt = jnp.bfloat16 if bf16 else jnp.float32
  fam = []
  for pat in (lambda i: 0, lambda i: i % 2, lambda i: int(i >= s // 3),
              lambda i: int(i % 5 == 0)):
    hi = 0.5 + (np.arange(s) * 37 % s) / (4 * s)
    g = np.zeros((s, 2), np.float32)
    for i in range(s):
      g[i, pat(i)] = hi[i]
      g[i, 1 - pat(i)] = 1 - hi[i]
    fam.append(g)
  fam = np.stack(fam)
  gates = np.asarray(jnp.asarray(fam, dt).astype(jnp.float32))
  cfg = {'S': s, 'E': 2, 'K': k, 'C': cap, 'batch_priority': bpr,
         'dispatcher': name, 'bfloat16': bf16}
  c.context = cfg
  acc, _ = model(gates, k, cap, bpr)
  f = observe_lean(functools.partial(
      moe.get_top_experts_per_item_dispatcher, name=name,
      num_selected_experts=k, batch_priority=bpr, capacity=cap))
  ids, fill, ws = (np.asarray(x) for x in f(jnp.asarray(fam, dt)))
  for i in range(len(gates)):
    for ex in range(2):
      slots = sorted(int(round(float(v))) - 1 for v, q in
                     zip(ids[i, ex], fill[i, ex]) if q != 0)
      want = sorted(np.nonzero(acc[i, :, ex])[0].tolist())
      c.require(slots == want and set(fill[i, ex].tolist()) <= {0., 1.},
                'large group: dispatched pairs differ from the model',
                {**cfg, 'family': i, 'expert': ex})
    c.require(np.allclose(ws[i], (gates[i] * acc[i] * [1., 3.]).sum(1),
                          rtol=2e-2 if bf16 else 1e-5),
              'large group: combined weights differ', {**cfg, 'family': i})
  c.trace(len(gates))


def run(c):
  sizes = [  # (S, E, alphabet size)
      (1, 1, 3), (2, 1, 3), (4, 1, 3), (1, 2, 4), (2, 2, 4), (3, 2, 4),
      (1, 3, 3), (2, 3, 3), (3, 3, 3), (2, 4, 2), (3, 4, 2)]
  sizes += c.q([(4, 2, 3)], [(4, 2, 4), (5, 2, 3), (2, 4, 3), (1, 4, 4),
                             (4, 3, 2), (4, 4, 2), (4, 3, 3)])
  jobs = []
  for s, e, a in sizes:
    caps = sorted({1, 2, s, s + 1} if c.thorough else {1, 2, s})
    for k in range(1, e + 1):
      jobs += [(s, e, a, k, cap, bpr) for cap in caps for bpr in (False, True)]
  for s in c.q([130, 300], [130, 257, 300, 513, 1100]):
    for bf16, k, cap, bpr, name in itertools.product(
        c.q((True,), (True, False)), (1, 2), (s // 2, s - 1), (False, True),
        ('einsum', 'indices')):
      jobs.append(('big', s, bf16, k, cap, bpr, name))
  c.parallel(jobs, one_config)


def observe_lean(make):
  """Lean observation for big S: slot ids, slot fill, sum of weights."""
  import jax
  import jax.numpy as jnp

  def one(gates):
    s, e = gates.shape
    disp = jax.vmap(make)(gates[None])
    data = jnp.stack([jnp.arange(1, s + 1, dtype=jnp.float32),
                      jnp.ones(s, jnp.float32)], -1)[None]
    d = disp.dispatch(data)
    out = jnp.ones(d.shape[:2] + (1,), jnp.float32)
    out = out.at[1].set(3.)
    w = disp.combine(out)[0, :, 0]
    return d[..., 0], d[..., 1], w
  return jax.jit(jax.vmap(one))
