"""C25: few-shot accuracies are those of ridge regression on k examples per class."""
import itertools
import os

os.environ['XLA_FLAGS'] = '--xla_force_host_platform_device_count=4'

import numpy as np

from mc import core

import jax
import jax.numpy as jnp
import tensorflow_datasets.public_api as tfds
import vmoe.data.input_pipeline
from vmoe.evaluate import fewshot

LEVEL = 'exploration'
RULE = ('a case = one evaluation (of one dataset and number of shots) by the real '
        'FewShotPeriodicAction, the reported accuracy being one that float64 ridge '
        'regression gives for some choice of the asked number of examples per class; '
        'distinct = (datasets, options, step)')
ASSUMPTIONS = ['2 or 3 features, 2 or 3 classes of 1 to 4 training examples, up to 7 test '
               'examples, 4 virtual devices; test examples within 0.02 of the decision '
               'boundary (or of the rounding errors of the eigenvalues) may count either way']
VALID = vmoe.data.input_pipeline.VALID_KEY


class Data:
  """Resettable iterator of padded batches."""

  def __init__(self, x, y, batch, pad):
    n = len(x)
    idx, out = list(range(n)), []
    rows = []
    while idx or not rows:
      take = idx[:batch - pad] if pad and len(rows) % 2 == 0 else idx[:batch]
      idx = idx[len(take):]
      rows.append(take)
    for r in rows:
      front = pad % 2
      k = batch - len(r)
      X = np.full((batch,) + x.shape[1:], 777., np.float32)
      Y = np.zeros(batch, np.int32)
      V = np.zeros(batch, bool)
      s = slice(k, None) if front else slice(0, len(r))
      X[s], Y[s], V[s] = x[r], y[r], True
      out.append({'image': X, 'label': Y, VALID: V})
    self.batches, self.i, self.resets, self.reads = out, 0, 0, 0

  def __iter__(self):
    return self

  def __next__(self):
    if self.i >= len(self.batches):
      raise StopIteration
    self.i += 1
    self.reads += 1
    return self.batches[self.i - 1]

  def reset(self):
    self.i = 0
    self.resets += 1

  def get_next(self):
    return next(self)


def ridge(x, y, xt, l2, nc):
  """Returns (predictions, margins) for the test examples."""
  x, xt = x.astype(np.float64), xt.astype(np.float64)
  m, s = x.mean(0), x.std(0) + 1e-5
  x = np.concatenate([(x - m) / s, np.full((len(x), 1), 100.)], 1)
  xt = np.concatenate([(xt - m) / s, np.full((len(xt), 1), 100.)], 1)
  t = 2. * np.eye(nc)[y] - 1.
  w = np.linalg.solve(x.T @ x + l2 * np.eye(x.shape[1]), x.T @ t)
  o = np.sort(xt @ w, 1)
  return (xt @ w).argmax(1), o[:, -1] - o[:, -2]


def possible(x, y, xt, yt, shot, l2, nc):
  """All the accuracies that some choice of `shot` examples per class can give."""
  per = [np.where(y == k)[0] for k in range(nc)]
  out = set()
  n = len(yt)
  for sel in itertools.product(*[list(itertools.combinations(p, min(shot, len(p))))
                                 for p in per]):
    idx = np.array(sorted(i for s in sel for i in s))
    p, margin = ridge(x[idx], y[idx], xt, l2, nc)
    sure = margin > 0.02
    # The eigenvalues in float32 have errors of up to 0.1 (the largest one is over 1e4).
    for e in (-0.1, 0.1):
      q, margin = ridge(x[idx], y[idx], xt, l2 + e, nc)
      sure &= (margin > 0.02) & (p == q)
    hit = int((p == yt)[sure].sum())
    for extra in range(int((~sure).sum()) + 1):
      out.add(hit + extra)
  return {k / n for k in out}


def make_data(kind):
  """(train x, y, test x, y, number of classes)."""
  k, sizes = kind
  nc = len(sizes)
  d = 2 + k % 2
  scale = 30. if k % 4 > 1 else 1.
  xs, ys = [], []
  for c_, n in enumerate(sizes):
    for j in range(n):
      a = 2.1 * c_ + 0.7 * j + 0.3 * k
      xs.append([scale * (np.cos(a) + c_), np.sin(1.7 * a) - 0.5 * c_, 0.5 * c_ - 0.1 * j][:d])
      ys.append(c_)
  o = np.argsort(np.cos(np.arange(len(ys)) * 2.3 + k))
  x, y = np.array(xs, np.float32)[o], np.array(ys)[o]
  xt, yt = [], []
  for j in range(5 + k % 3):
    a = 1.3 * j + 0.2 * k
    c_ = j % nc
    xt.append([scale * (np.cos(2.1 * c_ + 0.4 * j) + c_ - 0.3), np.sin(a) - 0.5 * c_,
               0.3 * c_][:d])
    yt.append(c_)
  return x, y, np.array(xt, np.float32), np.array(yt), nc


class Writer:

  def __init__(self):
    self.out = []

  def write_scalars(self, step, m):
    self.out.append((int(step), {k: np.asarray(v).item() for k, v in m.items()}))


KEYS = []
FEATS = []


def apply_fn(variables, images, rngs):
  if rngs:
    jax.debug.callback(lambda a, b: KEYS.append((tuple(np.array(a).tolist()),
                                                 tuple(np.array(b).tolist()))),
                       rngs['r1'], rngs['r2'])
    noise = 0. * jax.random.uniform(rngs['r1'])
  else:
    noise = 0.
  return images @ variables['params']['w'] + noise, {'ignored': 1}


class Builder:

  def __init__(self, nc):
    self.info = type('I', (), {'features': {'label': type('L', (), {'num_classes': nc})()}})()


def setup(datas, batch, pad):
  """Patches dataset creation; returns the iterators."""
  made = {}
  def get_dataset(*, variant, name, split, **kw):
    x, y, xt, yt, _ = datas[name]
    made[name, split] = Data(*((x, y) if split == 'tr' else (xt, yt)), batch, pad)
    made[name, split].args = dict(variant=variant, **kw)
    return made[name, split]
  vmoe.data.input_pipeline.get_dataset = get_dataset
  tfds.builder = lambda name, *a, **k: Builder(datas[name][4])
  return made


def job_main(c, kinds, shots, l2s, batch, pad, mesh_shape, prefetch, nseeds, with_rng):
  datas = {f'd{i}': make_data(k) for i, k in enumerate(kinds)}
  made = setup(datas, batch, pad)
  mesh = jax.sharding.Mesh(np.asarray(jax.devices()).reshape(mesh_shape), ('a', 'b'))
  ws = [np.eye(3, dtype=np.float32), np.array([[1, .5, 0], [0, 1, 0], [.3, 0, -1]], np.float32)]
  results = {}
  for fold in (False, True):
    wr = Writer()
    main = ('d0', shots[0])
    act = fewshot.FewShotPeriodicAction(
        shots=shots, l2_regs=l2s, metric_writer=wr,
        datasets={n: (n, 'tr', 'te') for n in datas}, apply_fn=apply_fn,
        rng_keys=('r1', 'r2') if with_rng else (), seed=3, seed_fold_in_step=fold,
        seeds_per_step=nseeds, main_task=main, every_steps=2, on_steps=[1],
        prefetch_to_device=prefetch, batch_size=batch, extra='x')
    for s in (1, 2, 3, 4):
      w = ws[s % 2][:2 + kinds[0][0] % 2, :2 + kinds[0][0] % 2]
      case = dict(datasets=kinds, shots=shots, l2=l2s, batch=batch, padding=pad,
                  mesh=mesh_shape, prefetch=prefetch, seeds=nseeds, fold=fold, step=s)
      c.context = case
      KEYS.clear()
      n0 = len(wr.out)
      with mesh:
        act(s, variables={'params': {'w': jnp.asarray(w)}}, flops=5.0, nothing=None)
      jax.effects_barrier()
      if s == 3:
        c.require(len(wr.out) == n0, 'evaluated in a step where it is not due', case)
        continue
      c.require(len(wr.out) == n0 + 1 and wr.out[-1][0] == s, 'not written once', case)
      m = wr.out[-1][1]
      c.require(m.get('flops') == 5.0 and 'nothing' not in m, f'extra metrics {m}', case)
      names = {(n if nseeds == 1 else f'{n}-seed-{q}'): n for n in datas for q in range(nseeds)}
      poss = {}
      for rn, n in names.items():
        x, y, xt, yt, nc = datas[n]
        for sh in shots:
          best = m[f'fewshot/{sh}shot_best_l2']
          c.require(best in l2s, f'best l2 {best}', case)
          for l2 in l2s:
            poss[rn, sh, l2] = possible(x @ w, y, xt @ w, yt, sh, l2, nc)
          got = m[f'fewshot/{rn}/{sh}shot']
          c.require(any(abs(got - p) < 1e-6 for p in poss[rn, sh, best]),
                    lambda: f'{rn}, {sh} shots, l2 {best}: accuracy {got}, possible '
                    f'{sorted(poss[rn, sh, best])}', case)
          c.transition()
      for sh in shots:
        best = m[f'fewshot/{sh}shot_best_l2']
        for l2 in l2s:
          # Never one that is certainly worse than another in all the datasets.
          worse = all(max(poss[rn, sh, best]) < min(poss[rn, sh, l2]) for rn in names)
          c.require(not worse, lambda: f'l2 {best} chosen, {l2} is better in all the datasets',
                    case)
      mt = m[f'0/d0/{shots[0]}shot']
      w_mt = np.mean([m[f'fewshot/{rn}/{shots[0]}shot'] for rn, n in names.items() if n == 'd0'])
      c.require(abs(mt - w_mt) < 1e-6, f'main task {mt}, expected {w_mt}', case)
      for (n, sp), it in made.items():
        c.require(it.reads == len(it.batches) * nseeds and it.i == 0,
                  lambda: f'{n}/{sp}: {it.reads} of {len(it.batches)} batches read', case)
        it.reads = 0
        c.require(it.args == dict(variant='fewshot', batch_size=batch, extra='x'),
                  f'dataset arguments {it.args}', case)
      if with_rng:
        ks = list(dict.fromkeys(KEYS))
        nb = sum(len(it.batches) for it in made.values())
        # The keys start again for each dataset; within one they are all different.
        c.require(len(set(ks)) >= nseeds * max(
            len(made[n, 'tr'].batches) + len(made[n, 'te'].batches) for n in datas),
                  lambda: f'{len(set(ks))} keys for {nb} batches', case)
        c.require(all(a != b for a, b in ks), 'the two keys are equal', case)
        results.setdefault(('keys', fold), []).append(tuple(ks))
      results.setdefault(fold, []).append(
          {k: v for k, v in m.items() if 'duration' not in k})
      c.case(repr(case))
  if with_rng:
    a, b = results['keys', False], results['keys', True]
    c.require(len(set(a)) == 1, 'different keys in another step without folding the step', kinds)
    c.require(len(set(b)) == len(b), 'same keys in all the steps when folding the step', kinds)
  # The same step weights and choice: evaluations 2 and 4 are the same, reproducibly.
  c.require(results[False][1] == results[False][2],
            lambda: f'not reproducible: {results[False][1:]}', kinds)


def job_select(c):
  """With enough seeds, every example of a class gets chosen (one shot, two examples)."""
  x = np.array([[0.], [1.], [4.], [5.]], np.float32)
  y = np.array([0, 0, 1, 1])
  # Test point 2.6: its class depends on which examples are chosen.
  xt, yt = np.array([[2.4], [2.6], [3.1], [1.9]], np.float32), np.array([0, 0, 0, 1])
  datas = {'d0': (x, y, xt, yt, 2)}
  setup(datas, 4, 0)
  wr = Writer()
  act = fewshot.FewShotPeriodicAction(
      shots=[1, 2, 3], l2_regs=[0.5], metric_writer=wr, datasets={'d0': ('d0', 'tr', 'te')},
      apply_fn=lambda v, im, rngs: (im, {}), rng_keys=(), seeds_per_step=24, every_steps=1)
  mesh = jax.sharding.Mesh(np.asarray(jax.devices()).reshape(4), ('a',))
  with mesh:
    act(1, variables={'params': {}})
  m = wr.out[0][1]
  poss = possible(x, y, xt, yt, 1, 0.5, 2)
  got = {round(m[f'fewshot/d0-seed-{q}/1shot'], 6) for q in range(24)}
  c.require(got == {round(p, 6) for p in poss}, f'accuracies {got}, possible {poss}', 'select')
  for k in (2, 3):
    got = {m[f'fewshot/d0-seed-{q}/{k}shot'] for q in range(24)}
    c.require(len(got) == 1, f'{k} shots of 2 examples: accuracies {got}', 'select')
  c.case('select')
  for fold in (True, False):
    wr = Writer()
    act = fewshot.FewShotPeriodicAction(
        shots=[1], l2_regs=[0.5], metric_writer=wr, datasets={'d0': ('d0', 'tr', 'te')},
        apply_fn=lambda v, im, rngs: (im, {}), rng_keys=(), every_steps=1, seed=5,
        seed_fold_in_step=fold)
    for s in range(1, 25):
      with mesh:
        act(s, variables={'params': {}})
    got = {round(m['fewshot/d0/1shot'], 6) for _, m in wr.out}
    if fold:
      c.require(got == {round(p, 6) for p in poss},
                f'accuracies of 24 steps {got}, possible {poss}', 'select by step')
    else:
      c.require(len(got) == 1, f'the examples change with the step: {got}', 'select by step')
    c.case(f'select {fold}')


def job_draws(c, fold):
  """Seeds, steps and sub-seeds draw independently (accuracies tell the examples chosen)."""
  n = 32
  x = np.concatenate([np.arange(n), 1000. + n * np.arange(n)]).astype(np.float32)[:, None]
  y = np.repeat([0, 1], n)
  xt = (500.25 + 0.5 * np.arange(n * n))[:, None].astype(np.float32)
  setup({'d0': (x, y, xt, np.zeros(n * n, int), 2)}, 256, 0)
  seeds, steps, subs = (0, 1, 2), range(1, 9), 4
  draws = {}
  for seed in seeds:
    wr = Writer()
    act = fewshot.FewShotPeriodicAction(
        shots=[1], l2_regs=[0.5], metric_writer=wr, datasets={'d0': ('d0', 'tr', 'te')},
        apply_fn=lambda v, im, rngs: (im, {}), rng_keys=(), every_steps=1, seed=seed,
        seeds_per_step=subs, **({'seed_fold_in_step': True} if fold else {}))
    for s in steps:
      with jax.sharding.Mesh(np.asarray(jax.devices()).reshape(4), ('a',)):
        act(s, variables={'params': {}})
    for s, m in wr.out:
      for q in range(subs):
        draws[seed, s, q] = float(m[f'fewshot/d0-seed-{q}/1shot'])
        c.case(repr(('draw', fold, seed, s, q)))
  if not fold:
    for (seed, s, q), v in draws.items():
      c.require(v == draws[seed, 1, q], f'the examples change with the step {s}', (seed, q))
    draws = {k: v for k, v in draws.items() if k[1] == 1}
  # 1024 equally likely values: few collisions when draws are independent.
  got = len(set(draws.values()))
  c.require(got >= 0.75 * len(draws),
            f'{len(draws)} combinations of seed, step and sub-seed draw only {got} different '
            'choices of examples', ['draws', fold])


def job_classes(c, order):
  """Well separated classes: all right, whatever the number of classes of the others."""
  datas = {}
  for nc in order:
    y = np.array([i % nc for i in range(2 * nc)])
    x = np.eye(nc, dtype=np.float32)[y] * 3 + 0.1 * np.arange(2 * nc)[:, None] / nc
    x = np.pad(x, ((0, 0), (0, 5 - nc)))
    datas[f'd{nc}'] = (x, y, x[::-1] + 0.01, y[::-1], nc)
  setup(datas, 4, 1)
  wr = Writer()
  act = fewshot.FewShotPeriodicAction(
      shots=[1, 2], l2_regs=[0.5], metric_writer=wr,
      datasets={f'n{n}': (n, 'tr', 'te') for n in datas},
      apply_fn=lambda v, im, rngs: (im, {}), rng_keys=(), every_steps=1)
  with jax.sharding.Mesh(np.asarray(jax.devices()).reshape(4), ('a',)):
    act(1, variables={'params': {}})
  m = wr.out[0][1]
  for n in datas:
    for sh in (1, 2):
      got = m[f'fewshot/n{n}/{sh}shot']
      c.require(got == 1.0, f'{n}: accuracy {got} of {sh} shots of separable classes', order)
      c.transition()
  c.case(repr(order))


L2S = (2. ** -1, 2. ** 3, 2. ** 6)


def graded(order, k):
  """A dataset where the accuracies of the three L2S are in the given order (all different)."""
  x = np.array([[0., 0.], [1., 30.], [2., -20.], [1.5, 10.], [4., 25.]], np.float32)
  x = x + np.float32(0.1 * k)
  y = np.array([0, 0, 0, 0, 1])
  g = np.stack(np.meshgrid(np.linspace(-2, 9, 45), np.linspace(-60, 90, 16)), -1)
  g = g.reshape(-1, 2).astype(np.float32)
  pr = [ridge(x, y, g, l2, 2) for l2 in L2S]
  sure = np.all([m > 0.02 for _, m in pr], 0)
  p, g = np.stack([q for q, _ in pr])[:, sure], g[sure]
  # Points in which only one of the three differs decide the order.
  rank = np.argsort(order)
  pick, lab = [], []
  for i in range(3):
    alone = np.where((p[i] != p[(i + 1) % 3]) & (p[(i + 1) % 3] == p[(i + 2) % 3]))[0]
    if len(alone) >= 2:
      for j in alone[:8]:
        pick.append(j)
        lab.append((i, p[i, j]))
  best = None
  for flips in itertools.product(range(9), repeat=3):
    # flips[i]: how many of the points of i agree with i.
    used, n = [], [0, 0, 0]
    for j, (i, v) in zip(pick, lab):
      n[i] += 1
      used.append(v if n[i] <= flips[i] else 1 - v)
    acc = (p[:, pick] == np.array(used)).mean(1)
    if len(set(acc)) == 3 and tuple(np.argsort(np.argsort(acc))) == tuple(order):
      best = used
      break
  if best is None:
    return None
  return x, y, g[pick], np.array(best), 2


def job_l2(c, orders, perm):
  """The chosen l2 has the best mean rank over the datasets."""
  c.context = case = ('l2', orders, perm)
  datas = {f'd{i}': graded(o, i) for i, o in enumerate(orders)}
  if any(d is None for d in datas.values()):
    raise core.HarnessError(f'no dataset with these accuracies {orders}')
  setup(datas, 32, 0)
  wr = Writer()
  l2s = [L2S[i] for i in perm]
  act = fewshot.FewShotPeriodicAction(
      shots=[4], l2_regs=l2s, metric_writer=wr, datasets={n: (n, 'tr', 'te') for n in datas},
      apply_fn=lambda v, im, rngs: (im, {}), rng_keys=(), every_steps=1)
  with jax.sharding.Mesh(np.asarray(jax.devices()).reshape(4), ('a',)):
    act(1, variables={'params': {}})
  m = wr.out[0][1]
  best = L2S.index(m['fewshot/4shot_best_l2'])
  total = np.sum(orders, 0)
  c.require(total[best] == total.max(),
            f'l2 {L2S[best]} chosen, ranks of {L2S}: {total.tolist()}', case)
  for n, (x, y, xt, yt, nc) in datas.items():
    want = (ridge(x, y, xt, L2S[best], nc)[0] == yt).mean()
    got = m[f'fewshot/{n}/4shot']
    c.require(abs(got - want) < 1e-6, f'{n}: accuracy {got}, expected {want}', case)
    c.transition()
  c.case(repr(case))


def run_job(c, job):
  {'main': job_main, 'select': job_select, 'draws': job_draws, 'classes': job_classes, 'l2': job_l2}[job[0]](c, *job[1])


def run(c):
  kinds = [(0, (2, 3)), (1, (1, 2, 2)), (2, (3, 3)), (3, (2, 2, 1)), (4, (4, 1)), (5, (2, 2)),
           (6, (1, 1, 1)), (7, (3, 2, 2))]
  jobs = [('select', ()), ('draws', (True,)), ('draws', (False,))]
  jobs += [('classes', (o,)) for o in itertools.permutations((2, 3, 4), 2)]
  perms = list(itertools.permutations(range(3)))
  for n, orders in enumerate(itertools.product(perms, repeat=c.q(2, 3))):
    jobs.append(('l2', (orders, perms[n % 6])))
  n = 0
  for k in c.q(kinds[:6], kinds):
    for ds in ([k], [k, kinds[(k[0] + 2) % 8]]):
      for batch, pad, mesh, pf in c.q([(4, 0, (2, 2), None), (8, 3, (4, 1), 2)],
                                      [(4, 0, (2, 2), None), (8, 3, (4, 1), 2),
                                       (4, 1, (1, 4), 1), (8, 2, (2, 2), 0)]):
        n += 1
        jobs.append(('main', (ds, c.q([1, 2], [1, 2, 5]), [0.5, 2.0 ** 6, 2.0 ** 12],
                              batch, pad, mesh, pf, 1 + (n % 3 == 0), n % 2 == 0)))
  c.parallel(jobs, run_job)
