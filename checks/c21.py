"""C21: adversarial attacks stay within bounds and their statistics are exact."""
import itertools
import os

import numpy as np

from mc import core
from mc import stubs
stubs.install()

import jax
import jax.numpy as jnp
from vmoe import moe
from vmoe.projects.adversarial_attacks import attacks
from vmoe.projects.adversarial_attacks import lib
from vmoe.projects.adversarial_attacks import restore

LEVEL = 'exploration'
RULE = ('a case = one attack of a batch by the real code (or one history of batches '
        'through the attack state, or of steps through the example storage), compared '
        'with an independent step-by-step simulation; distinct = inputs')
ASSUMPTIONS = ['models with a known gradient, images of 2 to 4 pixels with values in a '
               'small alphabet, up to 4 updates; dyadic step sizes so that sums are '
               'exact; up to 3 batches of up to 3 images, 2 experts, 2 tokens',
               'vit_jax is replaced by equivalent layers (mc/stubs.py)']

W = np.array([[1., -2., 0.5], [0.5, 1., -1.]], np.float32)   # Pixels -> logits.


def grad_np(x, y):
  """Gradient of 0.5 * |x W - y|^2 + 0.25 * sum(x^4) w.r.t. x."""
  return (x @ W - y) @ W.T + x ** 3


def job_pgd(c, n_up, eps):
  vals = (-1., 0., 0.25, 2.)
  xs = np.array(list(itertools.product(vals, repeat=2)), np.float32)
  ys = np.eye(3, dtype=np.float32)
  cases = [(x, y) for x in xs for y in ys]
  X = np.stack([x for x, _ in cases])
  Y = np.stack([y for _, y in cases])

  def apply_fn(x, rngs):
    return x @ W, {'aux': jnp.sum(x ** 4, -1)}

  def loss_fn(logits, labels, metrics):
    return 0.5 * jnp.sum((logits - labels) ** 2, -1) + 0.25 * metrics['aux']

  fn = lambda x, y, r: attacks.stateless_attack_pgd(
      x, y, r, max_epsilon=eps, num_updates=n_up, apply_fn=apply_fn, loss_fn=loss_fn)
  jfn = jax.jit(fn)
  delta = eps / n_up
  want = X.astype(np.float64)
  for _ in range(n_up):
    g = grad_np(want, Y)
    want = want + delta * np.sign(np.where(abs(g) < 1e-9, 0, g))
  # All images in one batch, then batches of 1: no influence between images.
  got, r = jfn(X, Y, None)
  got = np.asarray(got)
  c.require(r is None, f'rngs returned: {r}', None)
  one = jax.jit(fn)
  for i in range(len(X)):
    case = dict(image=X[i], label=Y[i], max_epsilon=eps, num_updates=n_up)
    c.context = case
    c.require(np.max(np.abs(got[i] - X[i])) <= eps * (1 + 1e-5),
              f'a pixel changed by {np.abs(got[i] - X[i]).max()}', case)
    c.require(np.allclose(got[i], want[i], atol=1e-5),
              f'attacked image {got[i]}, expected {want[i]}', case)
    single = np.asarray(one(X[i:i + 1], Y[i:i + 1], None)[0])[0]
    c.require(np.array_equal(single, got[i]),
              f'the attack of an image depends on the batch: {single} vs {got[i]}', case)
    c.case(('pgd', n_up, eps, i))
    c.transition(n_up)


def job_rngs(c, n_up):
  """Every update uses its own random key, and the returned one is new."""
  def apply_fn(x, rngs):
    k = rngs['a']
    # Pixel j gets gradient bit j of the key, so that the image reveals the key.
    bits = jax.random.key_data(k) if jnp.issubdtype(k.dtype, jax.dtypes.prng_key) else k
    bits = jnp.concatenate([(bits[i] >> jnp.arange(32, dtype=bits.dtype)) & 1
                            for i in range(2)]).astype(jnp.float32)
    return x * (2 * bits - 1)[None], {}

  loss_fn = lambda l, y, m: jnp.sum(l, -1)
  for seed in range(c.q(6, 24)):
    key = jax.random.PRNGKey(seed)
    x = np.zeros((1, 64), np.float32)
    rngs = {'a': key, 'b': jax.random.PRNGKey(seed + 1000)}
    orig = []

    def spy(x, rngs):
      jax.debug.callback(lambda k: orig.append(np.asarray(k).tolist()), rngs['a'])
      jax.debug.callback(lambda k: orig.append(np.asarray(k).tolist()), rngs['b'])
      return apply_fn(x, rngs)

    out, new = attacks.stateless_attack_pgd(
        x, np.zeros((1, 1)), rngs, max_epsilon=float(n_up), num_updates=n_up,
        apply_fn=spy, loss_fn=loss_fn)
    jax.effects_barrier()
    case = dict(seed=seed, num_updates=n_up, keys=orig)
    c.context = case
    allk = {tuple(k) for k in orig}
    c.require(len(allk) == 2 * n_up, f'{len(allk)} different keys in {n_up} updates '
              'with two names', case)
    for k in ('a', 'b'):
      c.require(tuple(np.asarray(new[k]).tolist()) not in allk | {
          tuple(np.asarray(rngs[k]).tolist())}, 'the returned key was already used', case)
    c.require(set(new) == {'a', 'b'}, 'rng names changed', case)
    c.case(('rng', n_up, seed))
    c.transition(n_up)


# ---- statistics -------------------------------------------------------------
def job_stats(c, batch, valids):
  """All prediction/correctness/routing outcomes before and after, all masks."""
  # x selects an outcome: (loss, pred, correct, routing pattern).
  outcomes = [(1., 0, 1, 0), (2., 1, 0, 1), (4., 2, 0, 2), (8., 0, 1, 3)]
  pats = np.array([[[1, 0], [0, 1]], [[.5, .5], [0, 0]], [[0, 2], [0, .25]],
                   [[0, 0], [0, 0]]], np.float32)      # (tokens, experts).
  L = jnp.array([o[0] for o in outcomes])
  PR = jnp.array([o[1] for o in outcomes])
  CO = jnp.array([o[2] for o in outcomes], jnp.int32)
  PA = jnp.asarray(pats)

  def attack(x, y, rngs):
    return y, {'k': rngs['k'] + 1}

  def compute(x, y, rngs):
    return L[x], PR[x], CO[x], {'r0': PA[x], 'r1': PA[x][:, ::-1, :]}

  fn = jax.jit(lambda s, x, y, v: attacks.stateful_attack(
      s, x, y, v, stateless_attack_fn=attack,
      compute_loss_predict_correct_cw_fn=compute))

  def iou(a, b):
    a, b = a > 0, b > 0
    u = (a | b).sum(-1)
    return np.where(u > 0, (a & b).sum(-1) / np.maximum(u, 1), 0).mean()

  def model(s, xs, ys, v):
    for x, y, ok in zip(xs, ys, v):
      if not ok:
        continue
      s['n'] += 1
      s['ch'] += outcomes[x][1] != outcomes[y][1]
      s['co'] += [outcomes[x][2], outcomes[y][2]]
      s['l'] += [outcomes[x][0], outcomes[y][0]]
      s['r0'] += iou(pats[x], pats[y])
      s['r1'] += iou(pats[x][::-1], pats[y][::-1])
    s['k'] += 1

  def fresh():
    return (attacks.AttackState.create(3, ['r0', 'r1'], {'k': jnp.zeros((), jnp.int32)}),
            dict(n=0, ch=0, co=np.zeros(2), l=np.zeros(2), r0=0., r1=0., k=0))

  state, m = fresh()
  hist = []
  k = 0
  for xs in itertools.product(range(4), repeat=batch):
    for ys in itertools.product(range(4), repeat=batch):
      for v in valids:
        if k % 40 == 0:
          state, m = fresh()
          hist = []
        k += 1
        hist.append((xs, ys, v))
        vv = None if v is None else np.array(v, bool)
        state, x_m, l0, lm, y0, ym, cw0, cwm = fn(state, np.array(xs), np.array(ys), vv)
        ok = [1] * batch if v is None else v
        model(m, xs, ys, ok)
        case = dict(history=hist[-3:], length=len(hist))
        c.context = case
        got = dict(n=int(state.num_images), ch=int(state.num_changes),
                   co=np.asarray(state.num_correct), l=np.asarray(state.sum_loss),
                   r0=float(state.sum_iou_experts['r0']),
                   r1=float(state.sum_iou_experts['r1']), k=int(state.rngs['k']))
        for f in m:
          c.require(np.allclose(got[f], m[f], atol=1e-4),
                    f'statistic {f} = {got[f]}, expected {m[f]}', case)
        c.require(state.max_updates == 3, 'max_updates changed', case)
        c.require(np.array_equal(x_m, ys), 'images after the attack not returned', case)
        for j in range(batch):
          if ok[j]:
            c.require(float(l0[j]) == outcomes[xs[j]][0] and
                      float(lm[j]) == outcomes[ys[j]][0] and
                      int(y0[j]) == outcomes[xs[j]][1] and
                      int(ym[j]) == outcomes[ys[j]][1] and
                      np.array_equal(cw0['r0'][j], pats[xs[j]]) and
                      np.array_equal(cwm['r0'][j], pats[ys[j]]),
                      'outputs of a valid image changed', case)
        c.case(('stats', batch, xs, ys, v))
        c.transition()


def job_iou(c):
  """Sum of IoU for all expert sets of 2 tokens, 3 experts (weights > 0)."""
  sets = np.array(list(itertools.product((0., 1.), repeat=3)), np.float32)
  fn = jax.jit(attacks.sum_intersection_over_union)
  pairs = list(itertools.product(range(8), repeat=2))
  for a in pairs:
    A = np.stack([[sets[a[0]], sets[a[1]] * 0.3]] * len(pairs))
    B = np.stack([[sets[b[0]] * 2, sets[b[1]]] for b in pairs])
    # Each pair alone: batch of one example, padded with unrouted examples.
    got_all = float(fn(A, B))
    w = []
    for b in pairs:
      t = 0.
      for i in range(2):
        x, y = set(np.nonzero(sets[a[i]])[0]), set(np.nonzero(sets[b[i]])[0])
        t += len(x & y) / len(x | y) if x | y else 0.
      w.append(t / 2)
    c.require(abs(got_all - sum(w)) < 1e-3, f'sum of IoU {got_all}, expected {sum(w)}',
              dict(a=a))
    for j in range(len(pairs)):
      if (j + a[0]) % 8 == 0:
        g = float(fn(A[j:j + 1], B[j:j + 1]))
        c.require(abs(g - w[j]) < 1e-5, f'IoU {g}, expected {w[j]}', dict(a=a, b=pairs[j]))
    c.case(('iou', a), n=len(pairs))


# ---- which experts processed a token -----------------------------------------
def job_weights(c):
  """Reported combine weights = what the dispatcher really combines."""
  for S, E, K, cap in ((4, 2, 1, 1), (4, 2, 2, 1), (4, 2, 2, 2), (4, 3, 2, 1), (3, 2, 1, 2)):
    gates_set = list(itertools.product((0.1, 0.6, 0.9), repeat=E))
    rows = list(itertools.product(range(len(gates_set)), repeat=S))
    step = max(1, len(rows) // c.q(60, 400))
    for r in rows[::step]:
      g = np.array([gates_set[i] for i in r], np.float32)
      for kind in ('einsum', 'indices', 'bf16'):
        name = 'einsum' if kind == 'bf16' else kind
        d = moe.get_top_experts_per_item_dispatcher(
            jnp.asarray(g), name=name, num_selected_experts=K, capacity=cap,
            batch_priority=False)
        d = jax.tree_util.tree_map(lambda x: x[None] if hasattr(x, 'ndim') else x, d)
        if kind == 'bf16':
          d = moe.Bfloat16Dispatcher(d)
        out = restore.get_combine_weights(
            {'intermediates': {'a': {'b': {'__call__': ((d, {}),)}}}})
        case = dict(gates=g, K=K, capacity=cap, dispatcher=kind)
        c.context = case
        c.require(list(out) == ['a/b/__call__'], f'layers {list(out)}', case)
        w = np.asarray(out['a/b/__call__'], np.float32)
        c.require(w.shape == (S, E), f'shape {w.shape}', case)
        obs = observe(d, S, E, cap)
        c.require(np.allclose(w, obs, atol=1e-2 if kind == 'bf16' else 1e-6),
                  lambda: f'reported combine weights {w.tolist()}, the layer combines '
                  f'{obs.tolist()}', case)
        c.case(('cw', S, E, K, cap, kind, r))


def observe(d, S, E, cap):
  """Weights really used: expert e outputs the one-hot vector e in all its slots."""
  y = jnp.broadcast_to(jnp.eye(E)[:, None, :], (E, cap, E))
  out = d.combine(y)       # (E, G * C, ...) with one group.
  return np.asarray(out, np.float32).reshape(S, E)


# ---- storage -------------------------------------------------------------------
def job_storage(c):
  base = c.scratch()
  for every, steps, first in itertools.product((1, 2, 3, 10), range(0, 6), (1,)):
    path = os.path.join(base, f'st_{c.job}_{every}_{steps}', 'sub', 'examples')
    st = lib.ExampleStorage(path, every) if every > 1 else lib.ExampleStorage(path)
    want = []
    for s in range(first, first + steps):
      x = np.arange(2) + 10 * s
      st.store(s, x=jnp.asarray(x), **{'cw/a': x[:, None] * 2.})
      want.extend(x.tolist())
    st.write()
    case = dict(transfer_every_steps=every, steps=steps)
    c.context = case
    if not steps:
      c.require(not os.path.exists(path), 'a file was written without examples', case)
    else:
      with np.load(path) as z:
        c.require(z['x'].tolist() == want and
                  z['cw/a'].tolist() == [[2. * v] for v in want],
                  f'stored {z["x"].tolist()}, expected {want}', case)
    c.case(('storage', every, steps))
    c.transition(steps)


def run_job(c, job):
  globals()['job_' + job[0]](c, *job[1])


def run(c):
  all3 = [None] + list(itertools.product((0, 1), repeat=3))
  all2 = [None] + list(itertools.product((0, 1), repeat=2))
  jobs = [('stats', (2, all2)), ('weights', ())]
  if c.thorough:
    jobs.append(('stats', (3, all3)))
  jobs += [('pgd', (n, e)) for n in (1, 2, 3, 4) for e in (0.5, 1. / 8, 4.)]
  jobs += [('rngs', (n,)) for n in (1, 2, 4)]
  jobs += [('iou', ()), ('storage', ())]
  c.parallel(jobs, run_job)
