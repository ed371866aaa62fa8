"""C30: losses and predictions are those of the probabilities of the model."""
import itertools
import os

os.environ['XLA_FLAGS'] = '--xla_force_host_platform_device_count=4'

import numpy as np

from mc import core
from mc import stubs
stubs.install()

import flax
import jax
import jax.numpy as jnp
import optax
from vmoe import partitioning
from vmoe.evaluate import ensemble
from vmoe.evaluate import evaluator
from vmoe.train import train_state as train_state_lib
from vmoe.train import trainer

LEVEL = 'exploration'
RULE = ('a case = (loss, number of members, classes, logits of all members of an example, its '
        'label), one of a finite alphabet of logits and labels; or a history of evaluation or '
        'training steps with those losses; distinct = the whole tuple')
ASSUMPTIONS = ['logits of magnitude up to 1e4, compared with a float64 reference (relative '
               'tolerance 1e-5)']

NAMES = ('softmax_xent', 'sigmoid_xent', 'ensemble_softmax_xent', 'ensemble_sigmoid_xent')
LOGITS = (-1e4, -30., -1., 0., 0.75, 40., 1e4)


# ---- float64 reference --------------------------------------------------------
def log_softmax(x):
  x = x - x.max(-1, keepdims=True)
  return x - np.log(np.exp(x).sum(-1, keepdims=True))


def log_sigmoid(x):
  return -np.logaddexp(0, -x)


def log_mean(x):
  """Of axis 1."""
  m = x.max(1, keepdims=True)
  return (m + np.log(np.exp(x - m).mean(1, keepdims=True)))[:, 0]


def ref(name, x, y):
  """Logits [N, M, C] and labels [N, C] to (train loss [N, M], eval loss [N], scores [N, C])."""
  y1 = y[:, None]
  if 'softmax' in name:
    lp = log_softmax(x)
    train = -np.where(y1 == 0, 0, y1 * lp).sum(-1)
    lm = log_mean(lp)
    return train, -np.where(y == 0, 0, y * lm).sum(-1), lm
  lp, ln = log_sigmoid(x), log_sigmoid(-x)
  train = -(y1 * lp + (1 - y1) * ln).sum(-1)
  a, b = log_mean(lp), log_mean(ln)
  return train, -(y * a + (1 - y) * b).sum(-1), a


def labels_of(n):
  """One-hot, none, several, soft, not normalized."""
  out = [np.eye(n)[i] for i in range(n)] + [np.zeros(n), np.ones(n)]
  out += [np.ones(n) / n, np.arange(1, n + 1) / (n * (n + 1) / 2)]
  if n > 2:
    out += [np.array([1., 1.] + [0.] * (n - 2)), np.array([0.] + [.3, .7] + [0.] * (n - 3))]
  return np.unique(np.stack(out), axis=0)


def functions(c, name, m):
  kw = dict(ensemble_size=m) if name.startswith('ensemble') else {}
  return trainer.get_loss_fn(name=name, **kw)


def close(a, b, scale):
  return np.abs(a - b) <= 1e-5 * (1 + scale)


def job_points(c, name, m, n, alphabet):
  """All the logits of an example x all its labels, in one batch (and in small ones)."""
  train, evaluate, pred = functions(c, name, m)
  xs = np.array(list(itertools.product(alphabet, repeat=m * n)), np.float64).reshape(-1, m, n)
  for y in labels_of(n):
    ys = np.broadcast_to(y, (len(xs), n))
    w_train, w_eval, scores = ref(name, xs, ys)
    lx, ly = jnp.asarray(xs.reshape(-1, n), jnp.float32), jnp.asarray(ys, jnp.float32)
    g_train, g_eval, g_pred = (np.asarray(train(lx, ly), np.float64),
                               np.asarray(evaluate(lx, ly), np.float64), np.asarray(pred(lx)))
    grad = np.asarray(jax.grad(lambda l: jnp.sum(train(l, ly)))(lx), np.float64)
    p = np.exp(log_softmax(xs)) if 'softmax' in name else np.exp(log_sigmoid(xs))
    w_grad = (p * y.sum() - y if 'softmax' in name else p - y).reshape(-1, n)
    e_grad = np.asarray(jax.grad(lambda l: jnp.sum(evaluate(l, ly)))(lx), np.float64)
    cases = [
        ('train loss', g_train, w_train.reshape(-1), np.abs(xs).max((1, 2)).repeat(m)),
        ('evaluation loss', g_eval, w_eval, np.abs(xs).max((1, 2))),
        ('gradient', grad, w_grad, np.float64(0))]
    for what, got, want, scale in cases:
      c.require(got.shape == want.shape, f'{what} of shape {got.shape}, not {want.shape}',
                dict(loss=name, members=m))
      scale = np.broadcast_to(scale.reshape(scale.shape + (1,) * (got.ndim - scale.ndim)), got.shape)
      bad = ~(np.isfinite(got) & close(got, want, scale * y.sum() + scale * (name[-12:-5] == 'sigmoid')
                                       * n))
      if bad.any():
        i = int(np.argwhere(bad)[0][0])
        k = i // m if got.shape[0] == len(xs) * m and m > 1 else min(i, len(xs) - 1)
        c.fail(f'{what} is {got[i]}, expected {want[i]}',
               dict(loss=name, members=m, logits=xs[k].tolist(), label=y.tolist()))
    c.require(np.isfinite(e_grad).all(), 'gradient of the evaluation loss is not finite',
              dict(loss=name, members=m, label=y.tolist()))
    c.require(g_pred.shape == (len(xs),) and g_pred.dtype.kind in 'iu', f'predictions {g_pred.shape}',
              dict(loss=name, members=m))
    best = scores.max(-1)
    got = np.take_along_axis(scores, g_pred[:, None].astype(int), 1)[:, 0]
    # Scores of float32: log-probabilities of up to 1e4 and probabilities close to 1.
    tol = 1e-5 * np.maximum(1, np.minimum(np.abs(best), 1e4)) if 'sig' in name or m > 1 else 0
    bad = got < best - tol
    if bad.any():
      i = int(np.argwhere(bad)[0][0])
      c.fail(f'class {g_pred[i]} is predicted with log-probabilities {scores[i]}',
             dict(loss=name, members=m, logits=xs[i].tolist()))
    if m > 1:
      # Members are exchangeable in the evaluation.
      for perm in itertools.permutations(range(m)):
        o = np.asarray(evaluate(lx.reshape(-1, m, n)[:, perm, :].reshape(-1, n), ly), np.float64)
        c.require(close(o, g_eval, np.abs(xs).max((1, 2)) * n).all(),
                  f'evaluation loss depends on the order of the members {perm}',
                  dict(loss=name, members=m, label=y.tolist()))
    for x in xs:
      c.case((name, m, tuple(y), x.tobytes()))
  if m == 1 and name.startswith('ensemble'):
    t1, e1, p1 = functions(c, name[len('ensemble_'):], 1)
    for a, b, what in ((train, t1, 'train'), (evaluate, e1, 'evaluation')):
      d = np.abs(np.asarray(a(lx, ly), np.float64) - np.asarray(b(lx, ly), np.float64))
      c.require((d <= 1e-5 * (1 + np.abs(xs).max((1, 2)) * n)).all(),
                f'{what} loss of an ensemble of one differs', dict(loss=name))


def job_batches(c, name, m):
  """The loss of an example only depends on its own rows; also in jit and sharded."""
  train, evaluate, pred = functions(c, name, m)
  mesh = partitioning.get_auto_logical_mesh(2, jax.devices())
  r = np.random.default_rng(m)
  n = 3
  for b in (1, 3, 4):
    x = r.normal(size=(b, m, n)) * 2
    y = r.integers(0, 2, (b, n)).astype(np.float64)
    c.context = case = dict(loss=name, members=m, batch=b)
    wt, we, s = ref(name, x, y)
    a = jnp.asarray(x.reshape(-1, n), jnp.float32), jnp.asarray(y, jnp.float32)
    for jit, shard in itertools.product((False, True), (False, True) if b % 4 == 0 else (False,)):
      if shard:
        sh = jax.sharding.NamedSharding(mesh, jax.sharding.PartitionSpec(mesh.axis_names))
        args = tuple(jax.device_put(z, sh) for z in a)
      else:
        args = a
      f = (jax.jit(train), jax.jit(evaluate), jax.jit(pred)) if jit else (train, evaluate, pred)
      c.require(np.allclose(f[0](*args), wt.reshape(-1), atol=1e-5), 'train losses', case)
      c.require(np.allclose(f[1](*args), we, atol=1e-5), 'evaluation losses', case)
      c.require((np.asarray(f[2](args[0])) == s.argmax(-1)).all(), 'predictions', case)
      c.case((name, m, b, jit, shard))


class Table:
  """Logits given by parameters, member by member."""

  def __init__(self, m):
    self.m = m

  def __call__(self, variables, images, rngs=None):
    # Rows of an image: table[image, member].
    z = variables['params']['table'][images]          # [B, M, C]
    return z.reshape(-1, z.shape[-1]), {}


def job_evaluate(c, name, m):
  """Evaluation steps with ensembles: masks and sums are per example, not per member."""
  train, evaluate, pred = functions(c, name, m)
  r = np.random.default_rng(7)
  n, k = 3, 4
  table = r.normal(size=(k, m, n)) * 2
  step = jax.jit(lambda s, x, y, v: evaluator.evaluate_step(
      s, {'table': jnp.asarray(table, jnp.float32)}, x, y, v, apply_fn=Table(m),
      loss_fn=evaluate, label_pred_fn=pred))
  for b in (1, 2, 4):
    for images in itertools.product(range(k), repeat=b):
      if b == 4 and not c.thorough and sum(images) % 5:
        continue
      for valid in itertools.product((0, 1), repeat=b):
        y = np.eye(n)[[(i * 2 + j) % n for j, i in enumerate(images)]]
        c.context = case = dict(loss=name, members=m, images=images, valid=valid)
        s = evaluator.EvalState(num=jnp.zeros(()), sum_correct=jnp.zeros(()),
                                sum_loss=jnp.zeros(()), rngs={})
        s = step(s, np.array(images), y.astype(np.float32), np.array(valid, bool))
        _, we, sc = ref(name, table[list(images)], y)
        v = np.array(valid)
        want = (v.sum(), (v * (sc.argmax(-1) == y.argmax(-1))).sum(), (v * we).sum())
        got = (float(s.num), float(s.sum_correct), float(s.sum_loss))
        c.require(np.allclose(got, want, atol=1e-4), f'{got}, expected {want}', case)
        c.case(('evaluate', name, m, images, valid))
        c.transition()


def job_train(c, name, m):
  """Training steps: the main loss is the mean over examples and members."""
  train, evaluate, pred = functions(c, name, m)
  r = np.random.default_rng(9)
  n, k = 3, 4
  table = r.normal(size=(k, m, n))
  tx = optax.sgd(1.0)
  mesh = partitioning.get_auto_logical_mesh(2, jax.devices())
  step = {s: jax.jit(lambda st, x, y, s=s: trainer.train_step(st, x, y, train, microsteps=s))
          for s in (None, 2)}
  st = train_state_lib.TrainState.create(
      apply_fn=Table(m), params={'table': jnp.asarray(table, jnp.float32)}, tx=tx, rngs={})
  for b, micro in ((1, None), (2, None), (3, None), (8, 2)):
    for images in itertools.product(range(k), repeat=min(b, 3)):
      images = (images * 3)[:b] if b < 8 else images * 2 + images[::-1][:2]
      y = np.eye(n)[[(i + j) % n for j, i in enumerate(images)]]
      c.context = case = dict(loss=name, members=m, images=images, microsteps=micro)
      with mesh:
        new, metrics = step[micro](st, np.array(images), y.astype(np.float32))
      wt, _, _ = ref(name, table[list(images)], y)
      c.require(np.isclose(float(metrics['main_loss']), wt.mean(), atol=1e-5),
                f'main loss {float(metrics["main_loss"])}, expected {wt.mean()}', case)
      x = table[list(images)]
      p = np.exp(log_softmax(x)) if 'softmax' in name else np.exp(log_sigmoid(x))
      want = table.copy()
      for i, im in enumerate(images):
        want[im] -= (p[i] - y[i]) / (b * m)
      c.require(np.allclose(new.params['table'], want, atol=1e-5), 'updated parameters', case)
      c.case(('train', name, m, images, micro))
      c.transition()


def job_unknown(c):
  for bad in ('softmax', 'SOFTMAX_XENT', '', 'ensemble_xent', 'xent'):
    try:
      trainer.get_loss_fn(name=bad)
      c.fail('unknown loss accepted', dict(name=bad))
    except ValueError:
      c.case(bad)


def run_job(c, j):
  globals()['job_' + j[0]](c, *j[1])


def run(c):
  small = (-30., 0., 0.75, 40.)
  jobs = []
  for name in NAMES:
    sizes = (1, 2, 3) if name.startswith('ensemble') else (1,)
    for m in sizes:
      for n in (1, 2, 3):
        k = m * n
        a = LOGITS if k <= (6 if c.thorough else 4) else small if k <= 6 else (-30., 0.75, 2.)
        jobs.append(('points', (name, m, n, a)))
      jobs.append(('batches', (name, m)))
      if m < 3 or c.thorough:
        jobs += [('evaluate', (name, m)), ('train', (name, m))]
  jobs.append(('unknown', ()))
  c.parallel(sorted(jobs, key=lambda j: ['train', 'evaluate', 'batches', 'points', 'unknown'].index(
      j[0])), run_job)
