"""C33: adversarial evaluations of checkpoints report the effect of the attack on the dataset."""
import itertools
import os
import types

os.environ['XLA_FLAGS'] = '--xla_force_host_platform_device_count=4'

import numpy as np

from mc import stubs
stubs.install()
from mc import advmodel
from mc import core

import jax
import jax.numpy as jnp
import ml_collections
import tensorflow as tf
import tensorflow_datasets.public_api as tfds
from tensorflow_datasets.core import splits as tfds_splits
from vmoe.checkpoints import partitioned
from vmoe.projects.adversarial_attacks import lib
from vmoe.projects.adversarial_attacks import restore

LEVEL = 'exploration'
RULE = ('a case = one run of run_pgd_attack on a dataset with a checkpoint on disk, its scalars, '
        'saved state and stored examples being compared with those of attacking each example '
        'alone; distinct = configuration')
ASSUMPTIONS = ['up to 13 images of 2 tokens, 3 classes, 4 experts, up to 2 MoE layers, 4 virtual '
               'devices, up to 3 updates; TFDS datasets are replaced by generators',
               'images are chosen so that in the reference no sign, routing or prediction is '
               'closer than 1e-4 to a change']
POOL = 40
EXPERTS = 4


class Ambiguous(Exception):
  pass


class Source:
  """A TFDS dataset of the given examples."""

  def __init__(self, x, labels):
    self.x, self.labels = x, labels
    self.all = tfds_splits.SplitDict([tfds_splits.SplitInfo(
        name='test', shard_lengths=[len(x)], num_bytes=0,
        filename_template=tfds.core.ShardedFileTemplate(
            data_dir='/nonexistent', dataset_name='x', split='test',
            filetype_suffix='tfrecord'))])
    self.info = types.SimpleNamespace(splits=self, features={})

  def __getitem__(self, split):
    return self.all[split]

  def as_dataset(self, split, **kw):
    n = self.all[split].num_examples
    assert n == len(self.x), split
    return tf.data.Dataset.from_tensor_slices({'image': self.x, 'labels': self.labels,
                                               'id': np.arange(n)})

  def download_and_prepare(self, **kw):
    pass


class Writer:

  def __init__(self):
    self.out = []

  def write_scalars(self, step, scalars):
    self.out.append((int(step), {k: float(v) for k, v in scalars.items()}))


def far(a, what, tol=1e-4):
  """Requires the two largest elements of the last axis to be apart."""
  s = np.sort(np.asarray(a), -1)
  if (s[..., -1] - s[..., -2] < tol).any():
    raise Ambiguous(what)


def forward(p, layers, x):
  """Logits, auxiliary loss and gates of one image, in the documented way."""
  if not layers:
    return x.reshape(-1) @ p['head']['kernel'] + p['head']['bias'], 0., []
  t, aux, gates = x.reshape(2, -1), 0., []
  for i in range(layers):
    g = jax.nn.softmax(t @ p[f'router{i}']['dense']['kernel'])
    load = g.sum(0)
    aux = aux + 0.5 * jnp.var(load) / jnp.mean(load)**2
    e = jnp.argmax(g, -1)
    q = p[f'moe{i}']
    t = jnp.max(g, -1)[:, None] * (jnp.einsum('td,tdf->tf', t, q['kernel'][e]) + q['bias'][e])
    gates.append(g)
  return t.mean(0) @ p['head']['kernel'] + p['head']['bias'], aux, gates


def make_reference(p, layers, loss, with_aux, eps, n):
  """Function that attacks one example: the records before and after the attack."""

  p = jax.tree_util.tree_map(jnp.asarray, p)

  def loss_of(x, y):
    z, aux, gates = forward(p, layers, x)
    if loss == 'softmax_xent':
      l = -(y * (z - jax.scipy.special.logsumexp(z))).sum()
    else:
      l = (jnp.logaddexp(0., z) - y * z).sum()
    return l + (aux if with_aux else 0.), (z, gates, aux)
  vg = jax.jit(jax.value_and_grad(loss_of, has_aux=True))

  def attack(x0, y):
    x, rec = x0, []
    for i in range(n + 1):
      (l, (z, gates, aux)), g = vg(x, y)
      far(z, 'prediction')
      for a in gates:
        far(a, 'routing')
      if i in (0, n):
        rec.append(dict(x=np.asarray(x), l=float(l), aux=float(aux), pred=int(np.argmax(z)),
                        route=[np.argmax(a, -1) for a in gates]))
      if i < n:
        g = np.asarray(g)
        if (np.abs(g) < 1e-4 * np.abs(g).max()).any() or np.abs(g).max() < 1e-4:
          raise Ambiguous('gradient')
        x = x + np.float32(eps / n) * np.sign(g)
    return rec
  return attack


def shake(shapes, seed):
  r = np.random.default_rng(seed)
  return jax.tree_util.tree_map(
      lambda s: (1.5 * r.normal(size=s.shape)).astype(np.float32), shapes)


def build(layers, dispatcher, seed):
  name = 'PlainModel' if not layers else 'AdvModel'
  kw = {} if not layers else dict(num_experts=EXPERTS, dispatcher=dispatcher, layers=layers)
  m = getattr(advmodel, name)(deterministic=True, **kw)
  shapes = jax.eval_shape(m.init, jax.random.PRNGKey(0), np.zeros((4, 2, 2, 1), np.float32))
  return name, kw, shake(shapes['params'], seed)


def make_config(c, name, kw, params, tag, **over):
  d = os.path.join(c.scratch(), f'{c.job}_{tag}')
  os.makedirs(d)
  prefix = os.path.join(d, 'ckpt', 'ckpt_3')
  partitioned.save_checkpoint(prefix, jax.tree_util.tree_map(jnp.asarray, params)).get()
  cfg = dict(
      restore={'from': 'checkpoint', 'prefix': prefix},
      model=dict(name=f'mc.advmodel.{name}', num_classes=3, **kw),
      params_axis_resources=[('moe.*', ('expert',))])
  if 'layers' in kw:
    cfg['model']['name'] += f'(layers={cfg["model"].pop("layers")})'
  cfg.update(over)
  return ml_collections.ConfigDict(cfg), d


def mesh4():
  return jax.sharding.Mesh(np.asarray(jax.devices()).reshape(4, 1), ('expert', 'replica'))


def attack(c, cfg, d, x, labels, sub='wd'):
  """Runs the real attack; returns (scalars, state, stored examples or None)."""
  tfds.builder = lambda *a, **k: Source(x, labels)
  cfg.dataset.name = d  # (Builders are cached by name.)
  w, wd, mesh = Writer(), os.path.join(d, sub), mesh4()
  with mesh:
    lib.run_pgd_attack(cfg, wd, mesh, w)
  state = dict(np.load(os.path.join(wd, 'pgd_state.npz')))
  opts = cfg.get('store_examples')
  stored = None
  if opts:
    f = opts.get('prefix', os.path.join(wd, 'examples')) + '-000-of-001'
    c.require(os.path.exists(f), f'no file {f} with examples', c.context)
    stored = dict(np.load(f))
  else:
    c.require(sorted(os.listdir(wd)) == ['pgd_state.npz'], f'files {os.listdir(wd)}', c.context)
  return w.out, state, stored


def close(a, b, tol=2e-4):
  return abs(a - b) <= tol * (1 + abs(b))


def job_main(c, layers, dispatcher, loss, multi, with_aux, eps, updates, variants):
  name, kw, params = build(layers, dispatcher, layers + updates)
  ref = make_reference(params, layers, loss, with_aux, eps, updates)
  r = np.random.default_rng(updates + 7 * layers)
  xs, ys, recs = [], [], []
  skipped = 0
  while len(xs) < 13:
    x = r.normal(size=(2, 2, 1)).astype(np.float32)
    lab = r.integers(0, 3, 2) if multi else r.integers(0, 3, 1)
    y = np.zeros(3, np.float32)
    y[lab] = 1.
    try:
      rec = ref(x, y)
    except Ambiguous:
      skipped += 1
      if skipped > 500:
        raise core.HarnessError('no unambiguous images')
      continue
    xs.append(x)
    ys.append(lab)
    recs.append((y, rec))
  c.count('ambiguous images', skipped)
  xs, ys = np.stack(xs), np.stack(ys)
  keys = [f'router{i}/__call__' for i in range(layers)]
  for n, batch, parts, prefetch, store in variants:
    c.context = case = dict(layers=layers, dispatcher=dispatcher, loss=loss, multi=multi,
                            aux=with_aux, eps=eps, updates=updates, examples=n, batch=batch,
                            partitions=parts, prefetch_device=prefetch, store=store)
    cfg, d = make_config(
        c, name, kw, params, f'{n}_{batch}_{parts}_{prefetch}_{store}',
        dataset=dict(name='x', split='test', batch_size=batch, prefetch_device=prefetch, num_parallel_calls=1,
                     process='onehot(3, key="labels")|'
                             'keep("image", "labels")'),
        num_updates=updates, max_epsilon=eps,
        loss=dict(name=loss, **({'attack_auxiliary_loss': with_aux} if with_aux is not None
                                else {})))
    if parts is not None:
      cfg.num_expert_partitions = parts
    # Partitions that are only possible with the asked numbers of partitions and replicas.
    cfg.params_axis_resources = cfg.params_axis_resources + (
        [('router.*', ('replica',))] if parts == 2 else
        [('head/bias', ('replica' if (parts or 1) > 2 else 'expert',))])
    if store:
      cfg.store_examples = {'transfer_every_steps': store[0]}
      if store[1]:
        cfg.store_examples.prefix = os.path.join(d, 'other', store[1])
    scalars, state, stored = attack(c, cfg, d, xs[:n], ys[:n])
    use = recs[:n]
    sums = []
    for k in (0, -1):
      sums.append(sum(rec[k]['l'] for _, rec in use))
    correct = [sum(float(y[rec[k]['pred']]) for y, rec in use) for k in (0, -1)]
    changes = sum(rec[0]['pred'] != rec[-1]['pred'] for _, rec in use)
    same = [sum(float(np.mean(rec[0]['route'][i] == rec[-1]['route'][i])) for _, rec in use)
            for i in range(layers)]
    want = [(0, {'error': 1 - correct[0] / n, 'loss': sums[0] / n}),
            (updates, {'error': 1 - correct[1] / n, 'loss': sums[1] / n,
                       'prediction_changes': changes / n,
                       **{f'routing_changes/{k}': 1 - s / n for k, s in zip(keys, same)}})]
    # With padding and auxiliary losses, the mean includes that of the padding: not compared.
    skip = {'loss', 'sum_loss'} if with_aux and n % batch else set()
    c.require([s for s, _ in scalars] == [0, updates], f'steps {[s for s, _ in scalars]}', case)
    for (s, got), (_, exp) in zip(scalars, want):
      c.require(set(got) == set(exp), f'step {s}: scalars {sorted(got)}, not {sorted(exp)}', case)
      for k, v in exp.items():
        c.require(k in skip or close(got[k], v), f'step {s}: {k} is {got[k]}, expected {v} (saved {state})', case)
    exp = dict(num_images=n, num_changes=changes, num_correct=correct, sum_loss=sums,
               **{f'sum_iou_experts/{k}': s for k, s in zip(keys, same)})
    c.require(set(state) == set(exp), f'saved {sorted(state)}, expected {sorted(exp)}', case)
    for k, v in exp.items():
      c.require(k in skip or (state[k].shape == np.shape(v) and
                              np.allclose(state[k], v, rtol=2e-4, atol=2e-4)),
                f'saved {k} is {state[k]}, expected {v}', case)
    if store:
      check_stored(c, case, stored, use, batch, keys)
    c.transition(n)
    c.case(repr(case))


def check_stored(c, case, z, use, batch, keys):
  n = len(use)
  total = -(-n // batch) * batch
  c.require(all(len(v) == total for v in z.values()),
            f'stored {[(k, v.shape) for k, v in z.items()]}, expected {total} rows', case)
  names = {'x_0', 'x_m', 'y', 'y_0', 'y_m', 'l_0', 'l_m', 'valid'} | {
      f'cw_{a}/{k}' for a in '0m' for k in keys}
  c.require(set(z) == names, f'stored {sorted(z)}, expected {sorted(names)}', case)
  valid = z['valid'].astype(bool)
  c.require(valid.sum() == n, f'{valid.sum()} valid examples stored of {n}', case)
  for j, (row, (y, rec)) in enumerate(zip(np.where(valid)[0], use)):
    c.require(np.allclose(z['y'][row], y), f'labels {j}: {z["y"][row]}, expected {y}', case)
    for a, q in (('0', rec[0]), ('m', rec[-1])):
      c.require(np.allclose(z[f'x_{a}'][row], q['x'], atol=1e-5),
                f'image x_{a} {j}: {z[f"x_{a}"][row].ravel()}, expected {q["x"].ravel()}', case)
      c.require(z[f'y_{a}'][row] == q['pred'], f'prediction y_{a} {j}', case)
      # Auxiliary losses are added as the mean over the batch: compared only in total.
      c.require(case['aux'] or close(float(z[f'l_{a}'][row]), q['l']),
                f'loss l_{a} {j}: {z[f"l_{a}"][row]}, expected {q["l"]}', case)
      for i, k in enumerate(keys):
        w = z[f'cw_{a}/{k}'][row]
        got = [np.flatnonzero(t > 0).tolist() for t in w]
        exp = [[int(e)] for e in q['route'][i]]
        c.require(got == exp, f'experts cw_{a}/{k} {j}: {got}, expected {exp}', case)


def job_restore(c, layers, parts, spec):
  """The restored parameters, their partitions, and the model."""
  c.context = case = dict(restore=layers, partitions=parts, spec=spec)
  name, kw, params = build(layers, 'einsum', 5)
  cfg, _ = make_config(c, name, kw, params, 'r', loss=dict(name='softmax_xent'),
                       params_axis_resources=spec, extra_rng_keys=('gating',))
  mesh = restore.create_mesh(parts)
  k = min(parts, jax.device_count())
  c.require(dict(mesh.shape) == {'expert': k, 'replica': jax.device_count() // k},
            f'mesh {mesh.shape}', case)
  module, variables, shardings, loss_fn, router_keys, rng_keys = restore.restore_from_config(
      cfg, cfg.restore.prefix, (4, 2, 2, 1), mesh)
  c.require(module.deterministic, 'the model is not deterministic', case)
  c.require(set(router_keys) == {f'router{i}/__call__' for i in range(layers)},
            f'routers {router_keys}', case)
  c.require(tuple(rng_keys) == ('gating',), f'keys {rng_keys}', case)
  flat = jax.tree_util.tree_flatten_with_path(params)[0]
  got = jax.tree_util.tree_flatten_with_path(variables['params'])[0]
  c.require([k for k, _ in flat] == [k for k, _ in got], f'restored {[k for k, _ in got]}', case)
  shs = jax.tree_util.tree_leaves(shardings['params'])
  for (path, a), (_, b), s in zip(flat, got, shs):
    key = '/'.join(q.key for q in path)
    c.require(a.dtype == b.dtype and np.array_equal(a, np.asarray(b)), f'value of {key}', case)
    axes = ()
    for rule, v in spec:
      if key.startswith(rule.replace('.*', '')):
        axes = v
        break
    exp = jax.sharding.NamedSharding(mesh, jax.sharding.PartitionSpec(*axes))
    for what, o in (('array', b.sharding), ('shardings', s)):
      c.require(o.is_equivalent_to(exp, a.ndim), f'{what}: {key} is {o}, expected {exp}', case)
    c.transition()
  c.case(repr(case))


def job_noise(c, seed):
  """Models that need random numbers: those of the seed, new ones in every batch and pass."""
  name, kw, params = build(1, 'einsum', 5)
  x = np.repeat(np.random.default_rng(1).normal(size=(1, 2, 2, 1)).astype(np.float32), 8, 0)
  runs = []
  for i, (noise, s) in enumerate(((1., seed), (1., seed), (1., seed + 1), (0., seed))):
    c.context = case = dict(noise=noise, seed=s)
    cfg, d = make_config(
        c, name, dict(kw, noise=noise), params, f'n{i}',
        dataset=dict(name='x', split='test', batch_size=4, num_parallel_calls=1,
                     process='onehot(3, key="labels")|'
                             'keep("image", "labels")'),
        num_updates=2, max_epsilon=0., loss=dict(name='softmax_xent'), seed=s,
        extra_rng_keys=('gating',), store_examples={'transfer_every_steps': 1})
    runs.append(attack(c, cfg, d, x, np.ones((8, 1), np.int64))[2])
    c.case(repr(case))
  a, b, o, z = runs
  c.require(all(np.allclose(a[k], b[k]) for k in a), 'two runs of a seed differ', case)
  c.require(not np.allclose(a['l_0'], o['l_0']), 'the seed has no effect', case)
  c.require(np.allclose(z['l_0'], z['l_0'][0]) and np.allclose(z['l_0'], z['l_m']),
            'different losses without noise', case)
  # (The numbers after attacking a batch are those before attacking the next one.)
  for every in (a['l_0'], a['l_m']):
    c.require(len(np.unique(every)) == len(every), 'random numbers are repeated', case)
  c.require((a['l_0'] != a['l_m']).all(), 'same random numbers before and after', case)


def run_job(c, job):
  {'main': job_main, 'restore': job_restore, 'noise': job_noise}[job[0]](c, *job[1])


def run(c):
  sizes = [(n, b) for n in (13, 9, 4, 8, 3, 6) for b in (4, 8)]
  divs = (None, 2, 4, 1, 8)
  prefetch = (None, 1, 2)
  stores = ((1, None), None, (2, 'abc'), (7, None))
  jobs = [('noise', (0,))]
  for spec in ((('moe.*', ('expert',)),), (), (('moe0.*', (None, 'replica')), (
      'moe.*', ('expert',))), (('head/kernel', (('expert', 'replica'),)),)):
    for layers, parts in ((2, 2), (1, 4), (0, 1), (1, 9)):
      if spec and 'head' in spec[0][0] and layers:  # 2 features: not divisible by 4
        continue
      jobs.append(('restore', (layers, parts, spec)))
  i = t = 0
  for layers, dispatcher in ((1, 'einsum'), (2, 'indices'), (0, ''), (1, 'indices'),
                             (2, 'einsum')):
    for loss, multi in (('softmax_xent', False), ('sigmoid_xent', True)):
      for with_aux, updates in ((None, 1), (True, 2), (False, 3), (True, 3)):
        if with_aux and not layers:
          continue
        i += 1
        if not c.thorough and i % 3:
          continue
        k = c.q(2, 6)
        eps = (0.3, 1.2)[i // 3 % 2]
        v = []
        for _ in range(k):
          v.append(sizes[t % 12] + (divs[t % 5], prefetch[t // 2 % 3], stores[(t + t // 12) % 4]))
          t += 1
        jobs.append(('main', (layers, dispatcher, loss, multi, with_aux, eps, updates, v)))
  c.parallel(jobs, run_job)
