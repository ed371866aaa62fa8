"""C28: contrastive training of two-tower models."""
import importlib.util
import itertools
import os
import shutil
import sys
import time
import types

os.environ['XLA_FLAGS'] = '--xla_force_host_platform_device_count=4'

import numpy as np

from mc import core
from mc import stubs
stubs.install()
from mc import vitref

import clu.data
import flax
import jax
import jax.numpy as jnp
import ml_collections
import optax
import tensorflow as tf
from vmoe.projects.contrastive import evaluators
from vmoe.projects.contrastive import models
from vmoe.projects.contrastive import trainer
from vmoe.train import train_state

spec = importlib.util.spec_from_file_location('check_c24', os.path.join(core.VERIF, 'checks',
                                                                        'c24.py'))
c24 = importlib.util.module_from_spec(spec)
sys.modules['check_c24'] = c24
spec.loader.exec_module(c24)

LEVEL = 'exploration'
RULE = ('a case = one evaluation of the real two-tower model, one real training step, one '
        'history of a periodic evaluation or one training run killed at an enumerated event '
        'and restarted, compared with a float64 reference or an uninterrupted run; '
        'distinct = configuration (and crash point)')
ASSUMPTIONS = ['small towers, batches of up to 8, 4 virtual devices; vit_jax is replaced by '
               'equivalent layers (mc/stubs.py) and the evaluators of big_vision (not '
               'installed) by recording ones',
               'with microsteps, either of the two ways of dividing a batch evenly']


def shake(tree, seed):
  return vitref.shake(tree, seed)


# ---- the model --------------------------------------------------------------
def job_model(c, img, txt, scale, bias, seed):
  c.context = case = dict(img=img, txt=txt, scale=scale, bias=bias, seed=seed)
  kw = {} if scale is None else dict(scale_init=scale)
  model = models.TwoTower(image=img, text=txt, bias_init=bias, deterministic=True, **kw)
  rng = np.random.default_rng(seed)
  b, t = 4, 5
  images = rng.normal(size=(b, 4, 4, 2)).astype(np.float32)
  texts = rng.integers(0, txt['vocab_size'], size=(b, t))
  v = flax.core.unfreeze(jax.eval_shape(model.init, jax.random.PRNGKey(0), images, texts))['params']
  c.require(('b' in v) == (bias is not None), 'parameter b', case)
  p = shake(v, seed)
  try:
    zi, li = vitref.reference(p['img'], img, images.astype(np.float64), 0)
    zt, lt = vitref.text_reference(p['txt'], txt, texts)
  except vitref.Tie:
    c.count('ties')
    return
  except KeyError as e:
    c.fail(f'the model has no parameter {e}', case)
  unit = lambda z: z / (np.linalg.norm(z, axis=-1, keepdims=True) + 1e-8)
  zi, zt = unit(zi), unit(zt)
  want = np.exp(np.float64(p['s'])) * zi @ zt.T + (np.float64(p['b']) if bias is not None else 0.)
  aux = sum(np.mean(x) for x in list(li.values()) + list(lt.values()))
  f = jax.jit(lambda p, i, t: model.apply({'params': p}, i, t))
  close = lambda a, b: np.abs(np.asarray(a, np.float64) - b).max() < 4e-3 * (1 + np.abs(b).max())
  logits, m = f(p, images, texts)
  c.require(logits.shape == (b, b) and close(logits, want),
            lambda: f'logits {np.asarray(logits)[0]}, expected {want[0]}', case)
  c.require(close(m['scale'], np.exp(np.float64(p['s']))), f'scale {m["scale"]}', case)
  total = float(np.mean(m['auxiliary_loss']))
  c.require(abs(total - aux) < 2e-2 * (1 + abs(aux)),
            lambda: f'auxiliary loss {total}, sum over the towers {aux}', case)
  gi, mi = f(p, images, None)
  gt, mt = f(p, None, texts)
  c.require(close(gi, zi) and close(gt, zt), 'embeddings of one tower alone', case)
  c.require('img' in mi and 'txt' not in mi and 'txt' in mt and 'img' not in mt and
            'img' in m and 'txt' in m, 'metrics of the towers', case)
  # Other texts do not change the logits of the rest of the pairs (ample capacity).
  other = texts.copy()
  other[0] = (other[0] + 1) % txt['vocab_size']
  l2 = np.asarray(f(p, images, other)[0])
  if not lt or txt['encoder']['moe']['router']['dispatcher']['capacity'] > 20:
    c.require(close(l2[:, 1:], np.asarray(logits, np.float64)[:, 1:]),
              'logits depend on other texts', case)
  try:
    model.apply({'params': p}, None, None)
    c.fail('accepted neither images nor texts', case)
  except ValueError:
    pass
  c.case(repr(case))


def job_init(c, scale, bias, zero):
  """Initial values of scale, bias and heads."""
  c.context = case = dict(init=(scale, bias, zero))
  img = dict(num_classes=3, patch_size=(2, 2), hidden_size=4, classifier='gap',
             head_kernel_zero_init=False, encoder=dict(num_layers=1, mlp_dim=3, num_heads=1))
  txt = dict(num_classes=3, hidden_size=4, vocab_size=5, head_kernel_zero_init=zero,
             head_bias_init=0.5, encoder=dict(num_layers=1, mlp_dim=3, num_heads=1))
  kw = {} if scale is None else dict(scale_init=scale)
  model = models.TwoTower(image=img, text=txt, bias_init=bias, **kw)
  p = flax.core.unfreeze(jax.jit(model.init)(
      jax.random.PRNGKey(0), np.zeros((2, 4, 4, 2), np.float32), np.zeros((2, 3), np.int32)))['params']
  c.require(np.allclose(np.exp(p['s']), 1. if scale is None else scale, rtol=1e-5),
            f'initial scale {np.exp(p["s"])}', case)
  c.require(('b' in p) == (bias is not None), 'parameter b', case)
  c.require(bias is None or np.allclose(p['b'], bias), 'initial bias', case)
  k = np.asarray(p['txt']['head']['kernel'])
  c.require((k == 0).all() == zero and np.allclose(p['txt']['head']['bias'], 0.5),
            'initial head of the texts', case)
  c.case(repr(case))


# ---- the loss and the training step -----------------------------------------
def ref_loss(logits):
  z = 2. * np.eye(logits.shape[-1]) - 1
  return np.logaddexp(0, -z * logits).sum(-1)


def job_loss(c):
  rng = np.random.default_rng(0)
  for shape in ((1, 1), (2, 2), (3, 3), (2, 4, 4), (5, 5)):
    for s in (0., 1., 30., 300.):
      x = (rng.normal(size=shape) * s).astype(np.float32)
      c.context = case = dict(loss=shape, scale=s)
      got = np.asarray(trainer.sigmoid_loss(jnp.asarray(x)))
      want = ref_loss(x.astype(np.float64))
      c.require(got.shape == want.shape and np.allclose(got, want, rtol=1e-4, atol=1e-5),
                lambda: f'loss {got}, expected {want}', case)
      c.case(repr(case))
  for shape in ((2, 3), (3,), (2, 2, 3)):
    try:
      trainer.sigmoid_loss(jnp.zeros(shape))
      c.fail(f'logits of shape {shape} accepted', shape)
    except ValueError:
      pass


KEYS = []


def apply_fn(variables, images, texts, rngs=None):
  """Two linear towers with auxiliary losses; gradients known."""
  p = variables['params']
  jax.debug.callback(lambda k: KEYS.append(tuple(np.asarray(k).tolist())), rngs['dropout'])
  zi, zt = images @ p['w'], texts @ p['u']
  return zi @ zt.T + p['b'], {'auxiliary_loss': 0.1 * jnp.square(zi[:, :1]), 'extra': zi[0, 0],
                             'img': {'x': jnp.mean(zt)}}


def ref_total(p, x, t):
  zi, zt = x @ p['w'], t @ p['u']
  logits = zi @ zt.T + p['b']
  z = 2. * np.eye(len(x)) - 1
  g = -z / (1 + np.exp(z * logits)) / len(x)   # d main / d logits
  main = np.logaddexp(0, -z * logits).sum(-1).mean()
  aux = 0.1 * (zi[:, :1] ** 2).mean()
  dzi = g @ zt
  dzi[:, 0] += 0.2 * zi[:, 0] / len(x)
  grads = dict(w=x.T @ dzi, u=t.T @ (g.T @ zi), b=g.sum())
  return main, aux, grads, {'extra': zi[0, 0], 'x': zt.mean()}


def job_step(c, b, micro, mesh_shape, nsteps, seed):
  c.context = case = dict(batch=b, microsteps=micro, mesh=mesh_shape, steps=nsteps, seed=seed)
  mesh = jax.sharding.Mesh(np.asarray(jax.devices()).reshape(mesh_shape), ('expert', 'replica'))
  rng = np.random.default_rng(seed)
  p = dict(w=rng.normal(size=(3, 2)), u=rng.normal(size=(4, 2)), b=np.array(-1.))
  state = train_state.TrainState.create(
      apply_fn=apply_fn, params=jax.tree_util.tree_map(jnp.float32, p), tx=optax.sgd(0.5),
      rngs={'dropout': jax.random.PRNGKey(seed)})
  step = jax.jit(lambda s, x, t: trainer.train_step(s, x, t, loss_fn=trainer.sigmoid_loss,
                                                    microsteps=micro))
  KEYS.clear()
  for k in range(nsteps):
    x = rng.normal(size=(b, 3)).astype(np.float32)
    t = rng.normal(size=(b, 4)).astype(np.float32)
    with mesh:
      state, m = step(state, x, t)
    jax.effects_barrier()
    n = micro or 1
    ways = [[np.arange(i, b, n) for i in range(n)], np.split(np.arange(b), n)]
    ok = []
    for parts in ways:
      rs = [ref_total(p, x[i].astype(np.float64), t[i].astype(np.float64)) for i in parts]
      g = {q: np.mean([r[2][q] for r in rs], 0) for q in p}
      new = {q: p[q] - 0.5 * g[q] for q in p}
      good = all(np.allclose(np.asarray(state.params[q]), new[q], rtol=1e-3, atol=1e-4) for q in p)
      wm = dict(main_loss=np.mean([r[0] for r in rs]), auxiliary_loss=np.mean([r[1] for r in rs]),
                extra=np.mean([r[3]['extra'] for r in rs]))
      wm['total_loss'] = wm['main_loss'] + wm['auxiliary_loss']
      good = good and all(np.allclose(np.asarray(m[q]), w, rtol=1e-3, atol=1e-4)
                          for q, w in wm.items())
      good = good and np.allclose(np.asarray(m['img']['x']), np.mean([r[3]['x'] for r in rs]),
                                  rtol=1e-3, atol=1e-4)
      gn = np.sqrt(sum((v ** 2).sum() for v in g.values()))
      norms = [v for q, v in m.items() if q.startswith('global_norm/')]
      good = good and any(np.allclose(v, gn, rtol=1e-3) for v in norms)
      ok.append(good)
      if good:
        nxt = new
    c.require(any(ok), lambda: f'step {k}: parameters {state.params}, expected {new}, metrics '
              f'{ {q: v for q, v in m.items() if q != "img"} }, expected {wm}', case)
    c.require(int(state.step) == k + 1, 'step number', case)
    p = nxt
    c.transition()
  ks = list(dict.fromkeys(KEYS))
  c.require(len(set(KEYS)) == nsteps * (micro or 1),
            lambda: f'{len(set(KEYS))} keys in {nsteps} steps of {micro} microsteps', case)
  c.case(repr(case))


# ---- periodic evaluations ---------------------------------------------------
class Writer:

  def __init__(self):
    self.out = []

  def write_scalars(self, step, m):
    self.out.append((int(step), {k: float(v) for k, v in m.items()}))

  def __getattr__(self, name):
    return lambda *a, **k: None


class FakeRetrieval:
  """Stands for big_vision's evaluator: similarity of fixed images and texts."""
  made = []

  def __init__(self, predict_fn, devices, **kw):
    self.predict, self.devices, self.kw = predict_fn, devices, kw
    self.calls = []
    FakeRetrieval.made.append(self)

  def evaluate(self, variables):
    x = np.arange(6, dtype=np.float32).reshape(2, 3) / 4 + self.kw.get('shift', 0.)
    t = np.arange(4, dtype=np.float32).reshape(2, 2) / 3
    a = self.predict(variables, {'image': x})
    b = self.predict(variables, {'labels': t})
    self.calls.append((a, b))
    s = np.asarray(a[0]) @ np.asarray(b[1]).T
    return {'txt2img': {'Recall@1': s[0, 0], 'Recall@5': s[0, 1]},
            'img2txt': {'Recall@1': s[1, 0], 'Recall@5': s[1, 1]}}


class FakeZeroShot:
  made = []

  def __init__(self, predict_fn, devices, dataset_names, dataset_overrides, **kw):
    self.predict, self.devices, self.kw = predict_fn, devices, kw
    self.datasets, self.over = dataset_names, dataset_overrides
    FakeZeroShot.made.append(self)

  def evaluate(self, variables, task):
    if self.over[task].get('slow'):
      time.sleep(self.over[task]['slow'])
    x = np.arange(6, dtype=np.float32).reshape(2, 3) / 4 + self.over[task].get('shift', 0.)
    z, no, _ = self.predict(variables, {'image': x})
    assert no is None
    return {'accuracy': float(np.asarray(z)[1, 1]), 'other': 1.}


def fakes():
  evaluators.bv_retrieval = types.SimpleNamespace(Evaluator=FakeRetrieval)
  evaluators.bv_discriminative = types.SimpleNamespace(Evaluator=FakeZeroShot)
  FakeRetrieval.made, FakeZeroShot.made = [], []


def job_hooks(c, kind, every, on, first, last, override):
  fakes()
  c.context = case = dict(hook=kind, every=every, on_steps=on, first=first, last=last,
                          override=override)
  mesh = jax.sharding.Mesh(np.asarray(jax.devices()).reshape(2, 2), ('expert', 'replica'))
  sharding = jax.sharding.NamedSharding(mesh, jax.sharding.PartitionSpec())
  wr = Writer()
  progress = trainer.create_progress_hook(writer=wr, first_step=first, train_steps=last,
                                          every_steps=1000)
  base = ml_collections.ConfigDict(dict(name='mc.tiny.TwoTower', noise=0.3))
  over = ml_collections.ConfigDict(dict(text_scale=3.)) if override else None
  kw = dict(base_model_config=base, writer=wr, progress_hook=progress, first_step=first,
            train_steps=last, data_sharding=sharding, model_overrides=over,
            datasets=ml_collections.ConfigDict(
                dict(a=dict(shift=0.), b=dict(shift=1.), z=dict(shift=2.))))
  if every:
    kw['every_steps'] = every
  if on:
    kw['on_steps'] = on
  if kind == 'retrieval':
    hook = trainer.create_retrieval_hook(**kw, common=7)
    made = FakeRetrieval.made
    c.require([e.kw for e in made] == [dict(shift=s, common=7) for s in (0., 1., 2.)],
              lambda: f'arguments {[e.kw for e in made]}', case)
  else:
    kw['datasets'] = ml_collections.ConfigDict(
        dict(a=dict(slow=0.8), b=dict(shift=1.), z=dict(shift=2.)))
    hook = trainer.create_zeroshot_hook(**kw, common=7)
    made = FakeZeroShot.made
    c.require(len(made) == 1 and set(made[0].datasets) == {'a', 'b', 'z'} and
              made[0].kw == dict(common=7), 'arguments', case)
  for e in made:
    c.require(set(e.devices) == set(jax.devices()), f'devices {e.devices}', case)
    for bad in ({}, {'image': np.ones((2, 3)), 'labels': np.ones((2, 2))}):
      try:
        e.predict({'params': None}, bad)
        c.fail(f'predict_fn accepted {sorted(bad)}', case)
      except ValueError:
        pass
  n = 0
  for s in range(first, last + 1):
    v = np.linspace(-1, 1, 60).reshape(4, 3, 5).astype(np.float32) * s
    w = np.linspace(0, 1, 10).reshape(2, 5).astype(np.float32)
    t0 = len(wr.out)
    hook(s, variables={'params': {'v': v, 'w': w}}, cost=2.5, none=None)
    # An action due every n steps counts them since its first call.
    must = s in (first, last) or s in (on or ()) or bool(every and s % every == 0)
    got = {}
    for st, m in wr.out[t0:]:
      c.require(st == s, f'written for step {st} at step {s}', case)
      c.require(m.get('cost') == 2.5 and 'none' not in m, f'extra metrics {m}', case)
      for k, q in m.items():
        c.require(k == 'cost' or k not in got, f'{k} written twice', case)
        got[k] = q
    if not must:
      c.require(not got, f'evaluated at step {s}, where it is not due', case)
      continue
    n += 1
    want = {}
    durations = set()
    for i, task in enumerate('abz'):
      x = np.arange(6).reshape(2, 3) / 4 + (0., 1., 2.)[i]
      t = np.arange(4).reshape(2, 2) / 3
      z = x @ v.mean(0)
      sim = z @ ((3. if override else 1.) * t @ w).T
      if kind == 'retrieval':
        want.update({f'retrieval/{task}/txt2img/Recall@1': sim[0, 0],
                     f'retrieval/{task}/txt2img/Recall@5': sim[0, 1],
                     f'retrieval/{task}/img2txt/Recall@1': sim[1, 0],
                     f'retrieval/{task}/img2txt/Recall@5': sim[1, 1]})
        durations.add(f'retrieval/{task}/duration_secs')
      else:
        want[f'zeroshot/{task}/accuracy'] = z[1, 1]
        durations.add(f'zeroshot/{task}/duration_secs')
    c.require(set(got) == set(want) | durations | {'cost'}, lambda: f'metrics {sorted(got)}', case)
    for k, q in want.items():
      c.require(np.allclose(got[k], q, rtol=1e-3, atol=1e-4), lambda: f'{k}: {got[k]}, not {q}',
                case)
    if kind == 'zeroshot':
      c.require(got['zeroshot/a/duration_secs'] > 0.79, 'duration of a slow task', case)
      d = min(got[f'zeroshot/{k}/duration_secs'] for k in 'bz')
      c.require(d < 0.79, f'duration of the other tasks: {d} s', case)
    c.transition()
  c.case(repr(case))


class FakeFewShot:
  made = []

  def __init__(self, **kw):
    self.kw = kw
    FakeFewShot.made.append(self)


def job_fewshot(c):
  """The few-shot evaluation embeds images alone, without noise."""
  c.context = case = dict(hook='fewshot')
  real = trainer.fewshot.FewShotPeriodicAction
  trainer.fewshot.FewShotPeriodicAction = FakeFewShot
  try:
    base = ml_collections.ConfigDict(dict(name='mc.tiny.TwoTower', noise=0.3))
    kw = dict(base_model_config=base, writer=None, progress_hook=None, first_step=3,
              train_steps=9, extra_rng_keys=('dropout',))
    hook = trainer.create_fewshot_hook(**kw)
    c.require(not FakeFewShot.made and hook(3, variables={}) is None,
              'evaluation without datasets', case)
    trainer.create_fewshot_hook(**kw, every_steps=4, on_steps=[5], datasets='x', shots=(1,),
                                model_overrides=ml_collections.ConfigDict(dict(text_scale=3.)))
  finally:
    trainer.fewshot.FewShotPeriodicAction = real
  c.require(len(FakeFewShot.made) == 1, 'one evaluation', case)
  k = FakeFewShot.made[0].kw
  c.require(k['datasets'] == 'x' and k['shots'] == (1,) and k['every_steps'] == 4 and
            set(k['on_steps']) == {3, 5, 9} and tuple(k['rng_keys']) == ('dropout',),
            lambda: f'arguments {k}', case)
  v = np.linspace(-1, 1, 60).reshape(4, 3, 5).astype(np.float32)
  w = np.ones((2, 5), np.float32)
  x = np.arange(6, dtype=np.float32).reshape(2, 3)
  for more in ({}, dict(rngs={'dropout': jax.random.PRNGKey(0)})):
    z, _ = k['apply_fn']({'params': {'v': v, 'w': w}}, x, **more)
    c.require(np.allclose(z, x @ v.mean(0), atol=1e-3), lambda: f'embeddings {z}', case)
  c.case(repr(case))


# ---- whole training runs ----------------------------------------------------
def text_batches(kind):
  i = np.arange(16.).reshape(8, 2)
  return [np.cos(i * (1 if kind == 'same' else k + 1)).astype(np.float32) for k in range(50)]


def data(ev, kind, train):
  def gen():
    for (x, _), t in zip(c24.batches(kind), text_batches(kind)):
      yield {'image': x, 'text': t}
  sig = {'image': tf.TensorSpec((8, 3), tf.float32), 'text': tf.TensorSpec((8, 2), tf.float32)}
  ds = tf.data.Dataset.from_generator(gen, output_signature=sig)

  class It(clu.data.TfDatasetIterator):

    def __next__(self):
      if train:
        ev.tick('batch')
      return super().__next__()

  return It(ds, checkpoint=False)


base_config = c24.config


def config(o):
  cf = base_config(o)
  cf.model = dict(name='mc.tiny.TwoTower', noise=o.get('noise', 0.1))
  del cf.loss
  del cf.evaluate
  cf.retrieval = dict(every_steps=o.get('eval', 2), datasets=dict(r=dict(shift=0.5)))
  cf.zeroshot = dict(every_steps=o.get('eval', 2), datasets=dict(q=dict(shift=0.5)))
  fakes()
  return cf


def setup_runs():
  c24.data, c24.config = data, config
  c24.PREFIXES = ('train/', 'retrieval/', 'zeroshot/')
  c24.EVAL_KEY = 'retrieval/r/txt2img/Recall@1'


TR = dict(trainer='vmoe.projects.contrastive.trainer')
CONFIGS = {
    'plain': dict(TR, steps=3, every=1),
    'every2': dict(TR, steps=5, every=2, eval=3),
    'micro': dict(TR, steps=3, every=1, microsteps=2, prefetch=3),
    'keep1': dict(TR, steps=4, every=1, keep_last=1),
}


def job_ref(c, name, out):
  setup_runs()
  d = os.path.join(c.scratch(), f'ref_{name}')
  os.makedirs(d, exist_ok=True)
  o = CONFIGS[name]
  case = dict(config=name)
  states = c24.finished(c, case, c24.child(c24.train_and_read, {**o, 'keep_last': None},
                                           os.path.join(d, 'w'), os.path.join(d, 'log'), None,
                                           (2, 2)), 'training')
  log = c24.read_log(os.path.join(d, 'log'))
  c24.judge(c, case, {**o, 'keep_last': None}, (states, c24.scal(log)), log, d, states, None, True)
  c.case(('uninterrupted', name))


def job_crash(c, name, points, meshes):
  setup_runs()
  d = os.path.join(c.scratch(), f'ref_{name}')
  if name not in c24.REF:
    _, out = c24.child(c24.read_states, os.path.join(d, 'w'))
    c24.REF[name] = (out[1], c24.scal(c24.read_log(os.path.join(d, 'log'))))
  c24.job_crash(c, name, CONFIGS[name], points, meshes)


def job_order(c, micro):
  """Without learning: metrics of step s are those of batch s; the pairs stay together."""
  setup_runs()
  o = dict(TR, steps=5, every=4, lr=0., noise=0., data='different', eval=3)
  if micro:
    o['microsteps'] = micro
  d = os.path.join(c.scratch(), f'order_{micro}')
  os.makedirs(d)
  wd, log = os.path.join(d, 'w'), os.path.join(d, 'log')
  c.context = case = dict(order=True, microsteps=micro)
  states = c24.finished(c, case, c24.child(c24.train_and_read, o, wd, log, None, (2, 2)), 'training')
  got = c24.scal(c24.read_log(log))
  st = states[0]
  v = next(x for k, x in st.items() if 'params' in k and x.shape == (4, 3, 5)).astype(np.float64)
  w = next(x for k, x in st.items() if 'params' in k and x.shape == (2, 5)).astype(np.float64)
  for s in range(2, 6):
    x, t = c24.batches('different')[s - 1][0], text_batches('different')[s - 1]
    n = micro or 1
    outs = []
    for parts in ([np.arange(i, 8, n) for i in range(n)], np.split(np.arange(8), n)):
      main, aux = [], []
      for i in parts:
        z = x[i] @ v.mean(0)
        main.append(ref_loss(z @ (t[i] @ w).T).mean())
        aux.append(0.01 * (z * z).mean())
      outs.append((np.mean(main), np.mean(aux), np.mean(main) + np.mean(aux)))
    g = [got[(s, f'train/{k}')][0] for k in ('main_loss', 'auxiliary_loss', 'total_loss')]
    c.require(any(np.allclose(g, q, rtol=2e-3, atol=1e-4) for q in outs),
              lambda: f'step {s}: losses {g}, of batch {s} they are {outs}', case)
    c.case(('order', micro, s))
  for s in range(1, 6):
    for k in ('retrieval/r/txt2img/Recall@1', 'zeroshot/q/accuracy'):
      c.require(((s, k) in got) == (s in (1, 3, 5)), f'{k} at step {s}', case)


def job_seeds(c, base, name):
  setup_runs()
  c24.job_seeds(c, dict(TR, **base), name)


def run_job(c, j):
  {'model': job_model, 'init': job_init, 'loss': job_loss, 'step': job_step, 'hooks': job_hooks,
   'ref': job_ref, 'crash': job_crash, 'order': job_order, 'seeds': job_seeds,
   'fewshot': job_fewshot}[j[0]](c, *j[1])


def run(c):
  names = list(CONFIGS) if c.thorough else ['plain', 'every2']
  c.parallel([('ref', (n, None)) for n in names] + [('order', (m,)) for m in (None, 2)] +
             [('seeds', (dict(microsteps=m) if m else {}, f'm{m}')) for m in c.q((None,), (None, 2))],
             run_job)
  jobs = []
  M, K = (2, 2), (4, 1)
  for n in names:
    log = c24.read_log(os.path.join(c.scratch(), f'ref_{n}', 'log'))
    total = max(e[1] for e in log if e[0] == 'tick') + 1
    for p in range(0, total, c.q(4 if n == 'plain' else 7, 1)):
      jobs.append(('crash', (n, [p], [M])))
    jobs.append(('crash', (n, [total // 2, total // 3], [M, K])))
  routers = [dict(num_selected_experts=1,
                  dispatcher=dict(name='einsum', capacity=64, batch_priority=False)),
             dict(num_selected_experts=2,
                  dispatcher=dict(name='indices', capacity=64, batch_priority=True))]
  enc = dict(num_layers=2, mlp_dim=6, num_heads=2)
  n = 0
  for pool, ilayers, tlayers, bias, scale in itertools.product(
      ('last', 'first', 'gap', 'gmp', 'map'), ((), (0,), (0, 1)), ((), (1,)), (None, -2., 0.),
      (None, 10.)):
    n += 1
    if not c.thorough and n % 7 != 3:
      continue
    r = routers[n % 2]
    ie = dict(enc, attention_qk_norm=bool(n % 2))
    te = dict(enc, num_heads=1, position_emb=dict(name=['learned', 'none'][n % 2]))
    if ilayers:
      ie['moe'] = dict(layers=ilayers, num_experts=3, group_size=8, router=r)
    if tlayers:
      te['moe'] = dict(layers=tlayers, num_experts=2, group_size=[5, 10][n % 2],
                       router=routers[(n // 2) % 2])
    img = dict(num_classes=[6, 8][n % 2], patch_size=(2, 2), hidden_size=8, classifier='gap',
               encoder=ie)
    txt = dict(num_classes=[6, 8][n % 2], hidden_size=8, vocab_size=7, pool_type=pool, encoder=te)
    if n % 3 == 0:
      img['name'] = 'vmoe.nn.vit_moe.VisionTransformerMoe(head_kernel_zero_init=False)'
      img['num_classes'] = None
      txt['num_classes'] = None
    jobs.append(('model', (img, txt, scale, bias, n % 5)))
  for scale, bias, zero in ((None, None, False), (10., -10., True), (2., 0., False)):
    jobs.append(('init', (scale, bias, zero)))
  jobs.append(('loss', ()))
  jobs.append(('fewshot', ()))
  for b, micro, mesh in itertools.product((4, 8), (None, 1, 2), ((2, 2), (4, 1))):
    if b // 4 % (micro or 1) == 0:
      jobs.append(('step', (b, micro, mesh, 3, b + (micro or 0))))
  for kind in ('retrieval', 'zeroshot'):
    for every, on, first, last in ((None, None, 1, 4), (2, None, 1, 5), (3, [2], 1, 7),
                                   (4, None, 3, 9), (None, [5, 6], 4, 8))[:c.q(3, 5)]:
      jobs.append(('hooks', (kind, every, on, first, last, bool(every))))
  c.parallel(jobs, run_job)
