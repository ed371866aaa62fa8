"""C23: one training step is the optimizer update with the mean gradient of the batch."""
import functools
import itertools
import os

os.environ['XLA_FLAGS'] = '--xla_force_host_platform_device_count=4'

import numpy as np

from mc import core
from mc import stubs
stubs.install()

import flax
import flax.linen as nn
import jax
import jax.numpy as jnp
import optax
from vmoe.train import train_state
from vmoe.train import trainer

LEVEL = 'exploration'
RULE = ('a case = one call of the real train step (or of its mixup / attack wrappers) '
        'on one batch, compared with a float64 evaluation of loss, gradient and update '
        'of the whole batch; the random keys and examples seen by the model are recorded '
        'by callbacks; distinct = inputs')
ASSUMPTIONS = ['a model with quadratic main and auxiliary losses with known gradients, '
               'batches of up to 24 examples on 4 virtual devices, SGD with momentum; '
               'auxiliary losses are means over examples',
               'the moments of the mixing weights are checked over an enumerated set of '
               '2048 (8192) seeds with a tolerance of 6 standard errors']
DIM, OUT = 3, 2
P = jax.sharding.PartitionSpec
SEEN = []


def the_mesh(shape=(2, 2)):
  return jax.sharding.Mesh(np.asarray(jax.devices()).reshape(shape), ('expert', 'replica'))


def record(images, key, key2):
  SEEN.append((np.array(images), tuple(np.array(key).tolist()),
               tuple(np.array(key2).tolist())))


def apply_fn(variables, images, rngs=None):
  """Linear logits; auxiliary loss = mean of 0.5 (x.v)^2 * aux weight."""
  p = variables['params']
  if rngs:
    jax.debug.callback(record, images, rngs['dropout'], rngs['gating'])
  else:
    jax.debug.callback(record, images, np.zeros(2, np.uint32), np.zeros(2, np.uint32))
  logits = images @ p['W'] + p['b']
  aux = 0.5 * jnp.square(images @ p['v'])
  return logits, {'auxiliary_loss': aux, 'logit0': logits[..., 0],
                  'nested': {'x0': jnp.mean(images[:, 0])}}


def apply_noaux(variables, images, rngs=None):
  logits, m = apply_fn(variables, images, rngs)
  del m['auxiliary_loss']
  return logits, m


def loss_fn(logits, labels):
  return 0.5 * jnp.sum(jnp.square(logits - labels), axis=-1)


def params0():
  return {'W': np.array([[1., -0.5], [0.25, 2.], [-1., 0.5]], np.float32),
          'b': np.array([0.5, -0.25], np.float32),
          'v': np.array([0.5, 1., -0.25], np.float32)}


def ref(p, X, Y, aux):
  """Losses and mean gradients in float64."""
  p = {k: v.astype(np.float64) for k, v in p.items()}
  X, Y = X.astype(np.float64), Y.astype(np.float64)
  n = len(X)
  r = X @ p['W'] + p['b'] - Y
  main = (0.5 * np.square(r).sum(-1)).mean()
  g = {'W': X.T @ r / n, 'b': r.mean(0), 'v': np.zeros(DIM)}
  m = {'main_loss': main, 'total_loss': main, 'logit0': (X @ p['W'] + p['b'])[:, 0].mean(),
       'nested': {'x0': X[:, 0].mean()}}
  if aux:
    a = X @ p['v']
    m['auxiliary_loss'] = (0.5 * a * a).mean()
    m['total_loss'] = main + m['auxiliary_loss']
    g['v'] = X.T @ a / n
  return m, g


def norm(t):
  return np.sqrt(sum(np.square(v).sum() for v in t.values()))


def batch(n, seed):
  """Deterministic, all rows different and recognisable by their first value."""
  i = np.arange(n)
  X = np.stack([i + 1., np.cos(i * 1.3 + seed) * 2, np.sin(i * 0.7 - seed)], -1)
  Y = np.stack([np.cos(i * 2.1 + seed), 0.125 * i], -1)
  return X.astype(np.float32), Y.astype(np.float32)


def make_state(fn, tx, seed, frozen=False, extra=()):
  rngs = {k: jax.random.PRNGKey(seed * 10 + i)
          for i, k in enumerate(('dropout', 'gating') + tuple(extra))}
  return train_state.TrainState.create(
      apply_fn=fn, params=jax.tree_util.tree_map(jnp.asarray, params0()), tx=tx,
      rngs=flax.core.freeze(rngs) if frozen else rngs)


def keys_of(rngs):
  return {k: tuple(np.array(v).tolist()) for k, v in dict(rngs).items()}


def close(a, b, tol=2e-5):
  return np.allclose(np.asarray(a, np.float64), b, rtol=tol, atol=tol)


LR, MOM = 0.0625, 0.5


def check_step(c, case, st, new, metrics, X, Y, p, mom, aux, lrs):
  """Compares a new state with the reference update; returns (params, momentum)."""
  m, g = ref(p, X, Y, aux)
  for k, w in m.items():
    got = metrics[k]
    if isinstance(w, dict):
      got, w = got['x0'], w['x0']
    c.require(np.shape(got) == () and close(got, w, 1e-4),
              lambda: f'metric {k} = {got}, the mean over the batch is {w}', case)
  upd = {k: -LR * (g[k] + MOM * mom[k]) for k in g}
  newp = {k: p[k].astype(np.float64) + upd[k] for k in p}
  for k in p:
    c.require(close(new.params[k], newp[k], 1e-4),
              lambda: f'new {k} = {np.asarray(new.params[k]).tolist()}, expected '
              f'{newp[k].tolist()}', case)
  for k, w in (('grads', norm(g)), ('updates', norm(upd)), ('params', norm(newp))):
    c.require(close(metrics[f'global_norm/{k}'], w, 1e-4),
              lambda: f'global norm of {k} {metrics[f"global_norm/{k}"]}, expected {w}', case)
  c.require(int(new.step) == int(st.step) + 1, f'step {st.step} -> {new.step}', case)
  return ({k: np.asarray(new.params[k], np.float32) for k in p},
          {k: g[k] + MOM * mom[k] for k in g})


def check_keys(c, case, st, new, calls, used, X, size):
  """Examples covered once by the calls; keys new in each call."""
  rows = sorted(float(r[0]) for im, _, _ in calls for r in im)
  c.require(all(len(im) == size for im, _, _ in calls),
            lambda: f'microsteps of {[len(im) for im, _, _ in calls]} examples', case)
  c.require(rows == sorted(float(r) for r in X[:, 0]),
            lambda: f'examples used: {rows}', case)
  for i, name in ((1, 'dropout'), (2, 'gating')):
    for call in calls:
      k = call[i]
      c.require(k not in used, lambda: f'key {k} of {name} used twice', case)
      used.add(k)
  for name, k in keys_of(new.rngs).items():
    c.require(k not in used, lambda: f'key {k} of {name} kept after being used', case)
    c.require(k != keys_of(st.rngs)[name], f'key {name} not advanced', case)
  c.require(list(keys_of(new.rngs)) == list(keys_of(st.rngs)) or
            set(keys_of(new.rngs)) == set(keys_of(st.rngs)), 'different rngs', case)


def run_jit(f, *args):
  SEEN.clear()
  out = f(*args)
  out = jax.block_until_ready(out)
  jax.effects_barrier()
  seen = list(SEEN)
  SEEN.clear()
  return out, seen


def dedup(seen):
  """With sharded inputs a callback can run once per device: keep different ones."""
  out = []
  for s in seen:
    if not any(np.array_equal(s[0], o[0]) and s[1:] == o[1:] for o in out):
      out.append(s)
  return out


def job_micro(c, aux, shape, steps, sizes):
  """Every (batch size, microsteps), histories of several steps."""
  fn = apply_fn if aux else apply_noaux
  tx = optax.sgd(LR, momentum=MOM)
  mesh = the_mesh(shape)
  for n, micro in itertools.product(sizes, (None, 0, 1, 2, 3, 4, 6)):
    if micro and (n // 4) % micro:
      if micro <= 4:
        X, Y = batch(n, 0)
        st = make_state(fn, tx, 0)
        try:
          with mesh:
            jax.eval_shape(functools.partial(trainer.train_step, loss_fn=loss_fn,
                                             microsteps=micro), st, X, Y)
        except Exception:  # pylint: disable=broad-except
          continue
        c.fail(f'batch {n} accepted with {micro} microsteps', (n, micro))
      continue
    step = jax.jit(functools.partial(trainer.train_step, loss_fn=loss_fn, microsteps=micro))
    sh = jax.sharding.NamedSharding(mesh, P(('expert', 'replica')))
    for frozen in (False, True):
      if frozen and not c.thorough and (n != 8 or micro == 1):
        continue
      st = make_state(fn, tx, n, frozen)
      used = set()
      p, mom = params0(), {k: np.zeros(v.shape) for k, v in params0().items()}
      for s in range(steps):
        X, Y = batch(n, s + n)
        case = dict(aux=aux, batch=n, microsteps=micro, step=s, frozen=frozen, mesh=shape)
        c.context = case
        with mesh:
          (new, metrics), seen = run_jit(step, st, jax.device_put(X, sh),
                                         jax.device_put(Y, sh))
        p, mom = check_step(c, case, st, new, metrics, X, Y, p, mom, aux, None)
        check_keys(c, case, st, new, dedup(seen), used, X, n // (micro or 1))
        c.require(type(new.rngs) is type(st.rngs), 'type of rngs changed', case)
        st = new
        c.case(repr(case))
        c.transition()
  c.trace()


def job_values(c, deep):
  """Small batches over an alphabet of values, without microsteps and with two."""
  vals = (-1., 0., 2.)
  tx = optax.sgd(LR, momentum=MOM)
  mesh = the_mesh()
  st = make_state(apply_fn, tx, 3)
  rows = list(itertools.product(vals, repeat=2))
  for micro in (None, 2):
    step = jax.jit(jax.vmap(functools.partial(trainer.train_step, loss_fn=loss_fn,
                                              microsteps=None), in_axes=(None, 0, 0)))
    combos = list(itertools.combinations_with_replacement(rows, 2))
    Xs, Ys = [], []
    for (a, b) in combos:
      X = np.array([[i + 1., *r] for i, r in enumerate((a, b))], np.float32)
      Xs.append(np.concatenate([X, X[::-1], X, X[::-1]]))
      Ys.append(np.array([[a[0], b[1]], [b[0], a[1]]] * 4, np.float32))
    if micro:
      step1 = jax.jit(functools.partial(trainer.train_step, loss_fn=loss_fn,
                                        microsteps=micro))
      outs = []
      with mesh:
        for X, Y in zip(Xs, Ys):
          outs.append(jax.tree_util.tree_map(np.asarray, step1(st, X, Y)))
    else:
      with mesh:
        new, met = step(st, np.stack(Xs), np.stack(Ys))
      outs = [jax.tree_util.tree_map(lambda x, i=i: np.asarray(x)[i], (new, met))
              for i in range(len(combos))]
    jax.effects_barrier()
    for cb, X, Y, (new, met) in zip(combos, Xs, Ys, outs):
      case = dict(values=cb, microsteps=micro)
      c.context = case
      check_step(c, case, st, new, met, X, Y, params0(),
                 {k: np.zeros(v.shape) for k, v in params0().items()}, True, None)
      c.case(repr(case))
  SEEN.clear()


# Mixup. ######################################################################


def mix_matrix(out, n):
  return np.asarray(out, np.float64).reshape(n, n)


def check_mix(c, case, A, groups, size, gran):  # pylint: disable=g-doc-args
  """A: (n, n) mixing matrix; groups: list of lists of example indices."""
  alphas = []
  for g in groups:
    for j, i in enumerate(g):
      row = A[i]
      w = np.zeros(size)
      ok = np.ones(len(row), bool)
      for s in range(size):
        w_idx = g[(j + s) % len(g)]
        ok[w_idx] = False
      c.require(np.all(row[ok] == 0), lambda: f'example {i} mixed with one of another '
                f'group or out of reach: {row.tolist()}', case)
      c.require(np.all(row >= 0) and abs(row.sum() - 1) < 1e-5,
                lambda: f'weights of example {i}: {row.tolist()}', case)
      if size <= len(g):
        w = np.array([row[g[(j + s) % len(g)]] for s in range(size)])
        c.require(np.all(np.diff(w) <= 1e-7),
                  lambda: f'example {i}: weights {w.tolist()} not in decreasing order', case)
        alphas.append(w)
  if len(alphas) != len(A):
    return
  al = np.stack(alphas)
  if size == 1:
    return
  def same(rows):
    return np.allclose(rows, rows[:1], atol=1e-6)
  idx = np.concatenate([np.full(len(g), k) for k, g in enumerate(groups)])
  if gran == 'batch':
    c.require(same(al), lambda: f'different weights in the batch {al.tolist()}', case)
  elif gran == 'device':
    for k in range(len(groups)):
      c.require(same(al[idx == k]), lambda: f'different weights in group {k}', case)
    firsts = np.stack([al[idx == k][0] for k in range(len(groups))])
    c.require(len(np.unique(np.round(firsts, 5), axis=0)) == len(groups),
              lambda: f'the groups share weights {firsts.tolist()}', case)
  elif gran == 'example':
    c.require(len(np.unique(np.round(al, 5), axis=0)) == len(al),
              lambda: f'examples share weights {al.tolist()}', case)
  return al


def job_mixup(c, gran, n):
  """The wrapper: all granularities, sizes and batch sizes, histories of steps."""
  mesh = the_mesh()
  for size, conc in itertools.product((1, 2, 3), (0.5, 1.0)):
    per = n // 4
    groups = [list(range(d * per, (d + 1) * per)) for d in range(4)]
    eye = np.eye(n, dtype=np.float32)
    labels = np.asarray(batch(n, 1)[1])
    feats = np.asarray(batch(n, 2)[0])
    seen_rngs = []

    def inner(state, images, lbls, extra=0):
      seen_rngs.append(sorted(state.rngs))
      rngs = jax.tree_util.tree_map(lambda k: jax.random.fold_in(k, 1), state.rngs)
      return state.replace(step=state.step + 1, rngs=rngs), {
          'images': images, 'labels': lbls, 'rngs': dict(state.rngs), 'extra': extra}

    for jit, frozen in ((True, False), (True, True), (False, False), (False, True)):
      if (not jit or frozen) and (n != 8 or size != 2 or conc != 0.5):
        continue
      if conc != 0.5 and size != 2 and not c.thorough:
        continue
      wrapped = trainer.wrap_train_step_with_mixup(
          inner, concentration=conc, granularity=gran, size=size,
          partition_spec=P(('expert', 'replica')))
      f = jax.jit(wrapped) if jit else wrapped
      st = make_state(apply_fn, optax.sgd(0.1), n + size, frozen, extra=('mixup',))
      mk = set()
      prev = None
      for s in range(3):
        case = dict(granularity=gran, batch=n, size=size, concentration=conc, jit=jit,
                    frozen=frozen, step=s)
        c.context = case
        before = keys_of(st.rngs)
        imgs = np.concatenate([eye, feats], 1)
        sampled = []
        dirichlet = jax.random.dirichlet
        def spy(key, *a, **k):
          if not jit:
            sampled.append(tuple(np.asarray(key).tolist()))
          return dirichlet(key, *a, **k)
        jax.random.dirichlet = spy
        try:
          with mesh:
            new, out = f(st, jnp.asarray(imgs), jnp.asarray(labels), 5)
        finally:
          jax.random.dirichlet = dirichlet
        c.require(keys_of(st.rngs) == before, lambda: 'the given state was modified: its '
                  f'rngs are now {sorted(st.rngs)}', case)
        c.require(int(out['extra']) == 5, 'extra arguments are not passed on', case)
        got = np.asarray(out['images'])
        c.require(got.shape == imgs.shape and np.shape(out['labels']) == labels.shape,
                  lambda: f'shapes {got.shape}', case)
        A = mix_matrix(got[:, :n], n)
        check_mix(c, case, A, groups, size, gran)
        c.require(close(got[:, n:], A @ feats, 1e-4) and
                  close(out['labels'], A @ labels, 1e-4),
                  'images and labels are mixed with different weights', case)
        if size > 1 and per > 1:
          c.require(prev is None or not np.allclose(prev, A), 'same weights in every step',
                    case)
        prev = A
        # Random keys.
        c.require(seen_rngs and seen_rngs[-1] == ['dropout', 'gating'],
                  lambda: f'the train step gets rngs {seen_rngs}', case)
        for k in ('dropout', 'gating'):
          c.require(tuple(np.asarray(out['rngs'][k]).tolist()) == before[k],
                    f'rng {k} of the train step is not that of the state', case)
        after = keys_of(new.rngs)
        c.require(sorted(after) == sorted(before), f'rngs {sorted(after)}', case)
        c.require(type(new.rngs) is type(st.rngs), 'type of rngs changed', case)
        mk.add(before['mixup'])
        mk.update(sampled)
        c.require(after['mixup'] not in mk, 'the mixup key is reused', case)
        for k in ('dropout', 'gating'):
          w = tuple(np.asarray(jax.random.fold_in(st.rngs[k], 1)).tolist())
          c.require(after[k] == w, f'rng {k} returned by the train step is lost', case)
        c.require(int(new.step) == s + 1, 'state of the train step is lost', case)
        st = new
        c.case(repr(case))
        c.transition()
  # Disabled, or without a key.
  f0 = lambda *a: 'called'
  for conc in (None, 0, 0.):
    got = trainer.wrap_train_step_with_mixup(f0, concentration=conc, granularity=gran)
    st = make_state(apply_fn, optax.sgd(0.1), 1)
    c.require(got(st, jnp.ones((4, 3)), jnp.ones((4, 2))) == 'called', 'mixup not disabled',
              dict(concentration=conc))
  for conc, extra, g in ((1.0, (), gran), (-1.0, ('mixup',), gran), (1.0, ('mixup',), 'no')):
    st = make_state(apply_fn, optax.sgd(0.1), 1, extra=extra)
    try:
      with mesh:
        trainer.wrap_train_step_with_mixup(f0, concentration=conc, granularity=g)(
            st, jnp.ones((4, 3)), jnp.ones((4, 2)))
    except ValueError:
      continue
    c.fail(f'accepted concentration={conc} with rngs {extra} and granularity {g}',
           dict(concentration=conc, rngs=extra, granularity=g))


def job_mixfn(c, shapes):
  """The function itself: every shape and roll axis, and trees of arrays."""
  for bshape in shapes:
    nb = len(bshape)
    n = int(np.prod(bshape))
    ident = np.eye(n, dtype=np.float32).reshape(bshape + (n,))
    feat = np.cos(np.arange(n * 6) * 1.1).astype(np.float32).reshape(bshape + (2, 3))
    flat = np.sin(np.arange(n)).astype(np.float32).reshape(bshape)
    idx = np.arange(n).reshape(bshape)
    for ashape in itertools.product(*[(1, k) if k > 1 else (1,) for k in bshape]):
      for size, roll in itertools.product((1, 2, 3), range(nb)):
        case = dict(batch=bshape, weights=ashape, size=size, axis=roll)
        c.context = case
        out = trainer.mixup(jax.random.PRNGKey(n + size),
                            {'i': jnp.asarray(ident), 'f': (jnp.asarray(feat),
                                                            jnp.asarray(flat))},
                            concentration=0.8, shape=ashape + (size,), roll_axis=roll)
        A = mix_matrix(out['i'], n)
        lines = np.moveaxis(idx, roll, -1).reshape(-1, bshape[roll])
        al = check_mix(c, case, A, [l.tolist() for l in lines], size, None)
        c.require(close(np.asarray(out['f'][0]).reshape(n, -1), A @ feat.reshape(n, -1), 1e-4)
                  and close(np.asarray(out['f'][1]).reshape(n), A @ flat.reshape(n), 1e-4),
                  'leaves are mixed with different weights', case)
        if size <= bshape[roll] and size > 1:
          # Weights shared exactly along the axes of size one.
          al = np.stack([A[idx.reshape(-1)[k], np.roll(np.moveaxis(idx, roll, 0), -s, 0)[
              (np.unravel_index(k, bshape)[roll],) + tuple(
                  v for a, v in enumerate(np.unravel_index(k, bshape)) if a != roll)]]
                         for k in range(n) for s in range(size)]).reshape(bshape + (size,))
          for a in range(nb):
            same = np.allclose(al, np.take(al, [0], axis=a), atol=1e-6)
            c.require(same if ashape[a] == 1 else not same or bshape[a] == 1,
                      lambda: f'weights along axis {a} of {ashape}: {al.tolist()}', case)
        c.case(repr(case))
  x = jnp.ones((4, 2))
  for bad in (dict(shape=(2,)), dict(shape=(3, 2)), dict(roll_axis=1), dict(roll_axis=-1),
              dict(concentration=0.), dict(concentration=-1.)):
    kw = dict(concentration=1., shape=(1, 2), roll_axis=0)
    kw.update(bad)
    try:
      trainer.mixup(jax.random.PRNGKey(0), (x, x), **kw)
    except ValueError:
      c.case(repr(bad))
      continue
    c.fail(f'mixup accepts {bad}', bad)
  for tree in ((x, jnp.ones((2, 2))), (x, jnp.ones((1, 2)))):
    try:
      trainer.mixup(jax.random.PRNGKey(0), tree, concentration=1., shape=(1, 2))
    except ValueError:
      continue
    c.fail('mixup accepts arrays of different batch sizes', [y.shape for y in tree])


def job_moments(c, seeds):
  """Weights are symmetric Dirichlet samples of the given concentration."""
  eye = jnp.eye(4)
  for conc, size in itertools.product((0.25, 1., 4.), (2, 3)):
    f = jax.jit(jax.vmap(lambda k: trainer.mixup(
        k, eye, concentration=conc, shape=(1, size))[0]))
    rows = np.asarray(f(jax.vmap(jax.random.PRNGKey)(jnp.arange(seeds))), np.float64)
    s2 = np.square(rows).sum(-1)
    want = (conc + 1) / (size * conc + 1)
    err = s2.std() / np.sqrt(seeds)
    c.require(abs(s2.mean() - want) < 6 * err + 1e-4,
              lambda: f'mean of the sum of squared weights {s2.mean()}, expected {want}',
              dict(concentration=conc, size=size))
    c.case(('moments', conc, size), n=1)


# Adversarial training. #######################################################


def job_attack(c):
  mesh = the_mesh()
  p = {k: v.astype(np.float64) for k, v in params0().items()}
  for upd, eps, use_aux, n in itertools.product((1, 2, 4), (0.25, 0.5), (False, True), (4, 8)):
    X, Y = batch(n, 4)
    X = np.round(X * 8) / 8
    got = []

    def inner(state, images, labels, extra=None):
      got.append((keys_of(state.rngs), np.asarray(images), np.asarray(labels), extra))
      return state, {'m': 1}

    f = trainer.wrap_train_step_with_adversarial_attack(
        inner, loss_fn, attack_auxiliary_loss=use_aux, max_epsilon=eps, num_updates=upd)
    st = make_state(apply_fn, optax.sgd(0.1), n)
    case = dict(updates=upd, epsilon=eps, auxiliary=use_aux, batch=n)
    c.context = case
    (_, seen) = run_jit(lambda: f(st, jnp.asarray(X), jnp.asarray(Y), extra=3))
    keys, images, labels, extra = got[0]
    c.require(len(got) == 1 and extra == 3 and np.array_equal(labels, Y),
              'arguments of the train step', case)
    c.require(np.abs(images - X).max() <= eps + 1e-5,
              lambda: f'distance {np.abs(images - X).max()}', case)
    x = X.astype(np.float64)
    risky = np.zeros(x.shape, bool)
    for _ in range(upd):
      g = (x @ p['W'] + p['b'] - Y) @ p['W'].T
      if use_aux:
        # The mean of the auxiliary loss of the batch is added to each loss.
        g = g + (x @ p['v'])[:, None] * p['v']
      risky |= np.abs(g) < 1e-3
      x = x + eps / upd * np.sign(g)
    c.require(np.all(np.isclose(images, x, atol=1e-4) | risky),
              lambda: f'attacked images {images.tolist()}, expected {x.tolist()}', case)
    k0 = keys_of(st.rngs)
    calls = [s for s in seen]
    for i, name in ((1, 'dropout'), (2, 'gating')):
      ks = [s[i] for s in calls]
      c.require(len(set(ks)) == upd and keys[name] not in ks and keys[name] != k0[name],
                lambda: f'keys of {name} in {upd} updates: {ks}, then {keys[name]}', case)
    c.case(repr(case))
  marker = lambda *a: 'called'
  for upd, eps in ((0, 0.5), (2, 0.), (-1, 0.5), (2, -0.5)):
    f = trainer.wrap_train_step_with_adversarial_attack(
        marker, loss_fn, attack_auxiliary_loss=False, max_epsilon=eps, num_updates=upd)
    c.require(f(1, 2, 3) == 'called', 'attack not disabled', (upd, eps))


def job_steps(c, big):
  """Number of steps and epochs."""
  from fractions import Fraction
  f = trainer.get_train_steps_and_epochs
  for ex, bs in itertools.product(range(1, c.q(20, 60)), range(1, c.q(12, 30))):
    for steps in (1, 2, 7, 100):
      s, e = f(train_batch_size=bs, train_examples=ex, train_steps=steps)
      c.require(s == steps and abs(e - steps * bs / ex) < 1e-9 * max(e, 1),
                f'{ex} examples, batch {bs}, {steps} steps: {s}, {e}', (ex, bs, steps))
    for ep in (1, 2, 3, 10, 0.5, 0.25, 1.5):
      s, e = f(train_batch_size=bs, train_examples=ex, train_epochs=ep)
      w = -((-Fraction(ep) * ex) // bs)
      c.require(s == w and isinstance(s, int), f'{ex} examples, batch {bs}, {ep} epochs: '
                f'{s} steps, expected {w}', (ex, bs, ep))
      c.require(abs(e - s * bs / ex) < 1e-9 * max(e, 1), f'epochs {e}', (ex, bs, ep))
    c.case(('steps', ex, bs))
  for kw in ({}, dict(train_steps=None, train_epochs=None), dict(train_steps=3, train_epochs=2),
             dict(train_steps=0), dict(train_epochs=0)):
    try:
      f(train_batch_size=2, train_examples=3, **kw)
    except ValueError:
      continue
    c.fail(f'accepted {kw}', kw)


def run_job(c, job):
  globals()['job_' + job[0]](c, *job[1])


def run(c):
  jobs = [('mixfn', (s,)) for s in c.q(
      [[(1,), (3,)], [(4,)], [(2, 3)], [(3, 2)]],
      [[(1,)], [(2,)], [(3,)], [(4,)], [(2, 3)], [(3, 2)], [(2, 2, 2)], [(1, 4)]])]
  jobs += [('mixup', (g, n)) for g in ('example', 'device', 'batch')
           for n in c.q((8, 12), (4, 8, 12, 16))]
  for aux in (True, False):
    for shape in c.q([(2, 2)], [(2, 2), (4, 1), (1, 4)]):
      for n in c.q((8, 24, 16) if aux else (12, 4), (4, 8, 12, 16, 24, 32)):
        jobs.append(('micro', (aux, shape, c.q(3, 6), (n,))))
  jobs += [('values', (c.thorough,)), ('moments', (c.q(2048, 8192),)), ('attack', ()),
           ('steps', (c.thorough,))]
  c.parallel(jobs, run_job)
