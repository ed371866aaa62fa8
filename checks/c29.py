"""C29: the shipped configurations describe runs that can be done, as described."""
import functools
import importlib
import itertools
import math
import os
import re
import time
import types

os.environ['XLA_FLAGS'] = '--xla_force_host_platform_device_count=4'

import numpy as np

from mc import core
from mc import stubs
stubs.install()

import flax
import jax
import jax.numpy as jnp
import ml_collections
import tensorflow as tf
import tensorflow_datasets.public_api as tfds
from tensorflow_datasets.core import splits as tfds_splits
import vmoe
from vmoe import partitioning
from vmoe.checkpoints import partitioned as checkpoints
from vmoe.data import builder as data_builder
from vmoe.data import input_pipeline
from vmoe.data import pjit_utils
from vmoe.data import pp_ops
from vmoe.projects.adversarial_attacks import lib as attack_lib
from vmoe.projects.contrastive import evaluators
from vmoe.projects.contrastive import trainer as contrastive_trainer
from vmoe.train import trainer

LEVEL = 'exploration'
RULE = ('a case = one shipped configuration (and variant of it) built at full size without '
        'executing it, or shrunk and executed by the real entry point with stand-in data, or '
        'one description of a model in an enumerated grammar; distinct = configuration, '
        'variant, description')
ASSUMPTIONS = ['stand-in TFDS datasets with the features of the real ones; RandAugment, the '
               'tokenizer and the evaluators of big_vision, and vit_jax (not installed) are '
               'replaced',
               'executed runs are shrunk: 4 layers, 16 units, 3 steps, at most 4 experts, 4 '
               'devices']

P = jax.sharding.PartitionSpec
LIMIT = [None]
SIZES = dict(train=1281167, validation=50000, test=10000, full=14000000)
JPEG = []
SIG = dict(image=tf.TensorSpec((), tf.string), label=tf.TensorSpec((), tf.int64),
           labels=tf.TensorSpec((None,), tf.int64), real_label=tf.TensorSpec((None,), tf.int64),
           text=tf.TensorSpec((), tf.string))
FEATURES = {'imagenet21k': ('image', 'labels'), 'jft4b': ('image', 'labels'),
            'imagenet2012_real': ('image', 'real_label'), 'laion400m': ('image', 'text')}


class FakeBuilder:
  """A TFDS dataset of the given name (its size reported and read up to LIMIT)."""

  def __init__(self, name):
    self.keys = FEATURES.get(name, ('image', 'label'))
    template = lambda n: tfds.core.ShardedFileTemplate(
        data_dir='/nonexistent', dataset_name='x', split=n, filetype_suffix='tfrecord')
    self.all = tfds_splits.SplitDict([
        tfds_splits.SplitInfo(name=n, shard_lengths=[k], num_bytes=0,
                              filename_template=template(n)) for n, k in SIZES.items()])
    self.info = types.SimpleNamespace(
        splits=self, features={'label': types.SimpleNamespace(num_classes=3)})

  def __getitem__(self, split):
    n = self.all[split].num_examples
    return types.SimpleNamespace(num_examples=min(n, LIMIT[0] or n))

  def as_dataset(self, split, **kw):
    n = self[split].num_examples

    def gen():
      for i in range(n):
        x = dict(image=JPEG[i % 4], label=i % 3, labels=[i % 3, 3][:1 + i % 2],
                 real_label=[i % 3][:i % 2], text=f'Text {i}')
        yield {k: x[k] for k in self.keys}
    ds = tf.data.Dataset.from_generator(gen, output_signature={k: SIG[k] for k in self.keys})
    return ds.apply(tf.data.experimental.assert_cardinality(n))

  def download_and_prepare(self, **kw):
    pass


class FakeEvaluator:
  made = []

  def __init__(self, predict_fn, devices, **kw):
    self.predict, self.kw = predict_fn, kw
    self.datasets = kw.get('dataset_names')
    FakeEvaluator.made.append(kw)

  def evaluate(self, variables, task=None):
    a = np.asarray(self.predict(variables, {'image': np.zeros((4, 256, 256, 3), np.float32)})[0])
    b = np.asarray(self.predict(variables, {'labels': np.ones((4, 16), np.int32)})[1])
    s = float((a * b).sum(-1).mean())
    return {'accuracy': s, 'txt2img': {'Recall@1': s}, 'img2txt': {'Recall@1': s}}


def install():
  if not JPEG:  # not before forking
    r = np.random.default_rng(0)
    JPEG.extend(tf.io.encode_jpeg(r.integers(0, 255, (40, 50, 3)).astype(np.uint8)).numpy()
                for _ in range(4))
  tfds.builder = lambda name, *a, **k: FakeBuilder(name)
  pp_ops.autoaugment = types.SimpleNamespace(
      distort_image_with_randaugment=lambda im, n, m: im)
  pp_ops.bv_ops_text = types.SimpleNamespace(
      create_tokenizer=lambda m, add_eos: None,
      tokenize=lambda txt, tokenizer, max_len, **k: tf.ones((max_len,), tf.int32))
  evaluators.bv_retrieval = evaluators.bv_discriminative = types.SimpleNamespace(
      Evaluator=FakeEvaluator)


def all_configs():
  """Names of the modules with a configuration, and variants of each."""
  out = []
  for root, _, files in os.walk(list(vmoe.__path__)[0]):
    rel = os.path.relpath(root, list(vmoe.__path__)[0])
    if 'configs' not in rel.split(os.sep):
      continue
    for f in sorted(files):
      if f.endswith('.py') and not f.endswith('_test.py') and f != '__init__.py':
        name = '.'.join(['vmoe'] + rel.split(os.sep) + [f[:-3]])
        mod = importlib.import_module(name)
        if not hasattr(mod, 'get_config'):
          continue
        if 'soft_moe' in name:
          out += [(name, f'{t}-{v}') for t in ('vit', 'ec', 'soft')
                  for v in ('s16', 's14', 'b16', 'l16', 'h14')]
        else:
          out.append((name, None))
  return out


def get(name, arg):
  mod = importlib.import_module(name)
  cf = mod.get_config(arg) if arg else mod.get_config()
  return cf.lock()


def contrastive(cf):
  return 'TwoTower' in cf.model.name


def moe_of(model):
  enc = model.image.encoder if 'image' in model else model.get('encoder', {})
  return enc.get('moe', None)


def shape_of(x):
  return jax.ShapeDtypeStruct(x.shape, x.dtype)


# ---- full size, not executed ------------------------------------------------
def job_build(c, name, arg):
  install()
  LIMIT[0] = None
  c.context = case = dict(config=name, variant=arg)
  try:
    build(c, case, name, arg)
  except core.Violation:
    raise
  except Exception as e:  # pylint: disable=broad-except
    c.fail(f'cannot be built: {type(e).__name__}: {str(e)[:400]}', case)
  c.case(('build', name, arg))


def build(c, case, name, arg):
  cf = get(name, arg)
  again = get(name, arg)
  c.require(cf.to_dict() == again.to_dict(), 'two calls give different configurations', case)
  mesh = partitioning.get_auto_logical_mesh(min(cf.num_expert_partitions, 4), jax.devices())
  two = contrastive(cf)
  tr = contrastive_trainer if two else trainer
  with mesh:
    datasets = input_pipeline.get_datasets(cf.dataset)
    spec = pjit_utils.get_dataset_shape_dtype_struct(datasets['train'])
    batch = cf.dataset.train.batch_size
    c.require(all(x.shape[0] == batch for x in spec.values()), 'batch size', case)
    keys = ('image', 'text') if two else ('image', 'labels')
    c.require(set(keys) <= set(spec), f'the data has {sorted(spec)}', case)
    for k, d in datasets.items():
      e = d.element_spec
      c.require(e['image'].shape[1:] == spec['image'].shape[1:],
                f'images of {k} are {e["image"].shape}', case)
      c.require(two or e['labels'].shape[1:] == (cf.model.num_classes,),
                lambda e=e, k=k: f'labels of {k} are {e["labels"].shape} for {cf.model.num_classes} classes', case)
      c.require(k == 'train' or input_pipeline.VALID_KEY in e, f'{k} has no mask', case)
    disjoint(c, case, cf)
    steps, _ = trainer.get_train_steps_and_epochs(
        train_steps=cf.get('train_steps'), train_epochs=cf.get('train_epochs'),
        train_batch_size=batch,
        train_examples=input_pipeline.get_data_num_examples(cf.dataset.train))
    lr = cf.optimizer.learning_rate
    c.require(steps > lr.get('warmup_steps', 0) + lr.get('cooldown_steps', 0), f'{steps} steps',
              case)
    if cf.get('train_epochs'):
      n = data_builder.get_dataset_builder(name=cf.dataset.train.name,
                                           split=cf.dataset.train.split).num_examples
      c.require(abs(steps * batch - n * cf.train_epochs) <= batch, f'{steps} steps', case)
    inputs = tuple(spec[k] for k in (keys if two else keys[:1]))
    state = jax.eval_shape(trainer.make_create_train_state_fn(
        model=trainer.create_flax_model(config=cf.model, deterministic=False),
        optimizer_config=cf.optimizer, input_shape_dtypes=inputs, train_steps=steps,
        extra_rng_keys=tuple(cf.extra_rng_keys), seed=cf.get('seed', 0)))
    if arg:
      soft_sizes(c, case, cf, arg, spec['image'].shape[1])
    # The parameters of the experts are partitioned, and nothing else.
    specs = partitioning.tree_axis_resources_from_regexes(
        tree=state, axis_resources_regexes=cf.params_axis_resources)
    moe = moe_of(cf.model)
    layers = tuple(moe.layers) if moe is not None else ()
    flat = {jax.tree_util.keystr(k, simple=True, separator='/'): (x, s)
            for (k, x), s in zip(jax.tree_util.tree_leaves_with_path(state),
                                 jax.tree_util.tree_leaves(
                                     specs, is_leaf=lambda s: isinstance(s, P)))}
    found = set()
    for k, (x, s) in flat.items():
      m = re.search(r'encoderblock_(\d+)/Moe/Mlp/', k)
      if m and x.shape:
        found.add(int(m.group(1)))
        c.require(x.shape[0] == moe.num_experts, f'{k}: {x.shape}', case)
        c.require(s and s[0] in ('expert', ('expert',)) and not any(s[1:]),
                  f'{k} of the experts is partitioned as {s}', case)
      else:
        c.require(not any(tuple(s or ())), f'{k} is partitioned as {s}', case)
    c.require(found == set(layers), f'MoE layers {sorted(found)}, not {layers}', case)
    if layers:
      c.require(cf.num_expert_partitions == moe.num_experts, 'expert partitions', case)
      enc = cf.model.image.encoder if two else cf.model.encoder
      c.require(max(layers) < enc.num_layers, 'MoE layers', case)
    state = jax.tree_util.tree_map(
        lambda x, s: jax.ShapeDtypeStruct(x.shape, x.dtype,
                                          sharding=jax.sharding.NamedSharding(mesh, s)),
        state, specs)
    # One training step.
    summarizer = tr.create_tree_summarizer(cf.get('summarize_arrays'))
    if two:
      step = functools.partial(tr.train_step, loss_fn=tr.sigmoid_loss,
                               microsteps=cf.get('microsteps'), summarizer=summarizer)
    else:
      loss, eval_loss, pred = trainer.get_loss_fn(**cf.loss)
      step = functools.partial(trainer.train_step, loss_fn=loss, microsteps=cf.get('microsteps'),
                               summarizer=summarizer)
      if cf.get('mixup', {}):
        step = trainer.wrap_train_step_with_mixup(step, partition_spec=P(mesh.axis_names,),
                                                  **cf.mixup.to_dict())
    new, metrics = jax.eval_shape(step, state, *(spec[k] for k in keys))
    c.require(jax.tree_util.tree_map(shape_of, new) == jax.tree_util.tree_map(shape_of, state),
              'a step changes the shapes of the state', case)
    metrics = flax.traverse_util.flatten_dict(dict(metrics), sep='/')
    c.require(all(x.shape == () for x in metrics.values()), 'metrics that are not scalars', case)
    if cf.get('summarize_arrays'):
      c.require(any('learning_rate' in k for k in metrics), f'metrics {sorted(metrics)}', case)
      soft = [k for k in metrics if k.endswith('Moe/Router/scale')]
      c.require(len(soft) == (len(layers) if arg.startswith('soft') else 0),
                f'scales of the soft routers in the metrics: {len(soft)}', case)
    # Evaluations: the options are valid and the models use the same parameters.
    ev = dict(cf.get('evaluate', {}))
    few = dict(cf.get('fewshot', {}))
    for o in [ev] + [few] * bool(few):
      model = trainer.override_base_config(cf.model.copy_and_resolve_references(),
                                           o.get('model_overrides'))
      got = trainer.create_flax_model(config=model.to_dict(), deterministic=True)
      args = tuple(spec[k] for k in keys) if two else (spec['image'],)
      if o is few and two:
        args = (spec['image'], None)
      out, _ = jax.eval_shape(lambda p, *a, m=got: m.apply({'params': p}, *a), state.params, *args)  # pylint: disable=cell-var-from-loop
      if o is few:
        x = input_pipeline.get_dataset(
            variant='fewshot', name='cifar100', split='train', batch_size=few['batch_size'],
            process=few['process']).element_spec
        c.require(x['image'].shape[1:] == spec['image'].shape[1:] and 'label' in x,
                  f'few-shot data {x}', case)
        c.require(few['main_task'][0] in few['datasets'] and few['main_task'][1] in few['shots'],
                  f'main task {few["main_task"]}', case)
        c.require(out.ndim == 2, f'few-shot embeddings of shape {out.shape}', case)
      elif not two:
        l = jax.eval_shape(eval_loss, out, spec['labels'])
        p = jax.eval_shape(pred, out)
        c.require(l.shape == (batch,) and p.shape == (batch,),
                  f'evaluation losses {l.shape}, predictions {p.shape}', case)


def job_attack(c, name):
  """The attack's configuration: its model and data match."""
  install()
  LIMIT[0] = None
  c.context = case = dict(config=name)
  cf = get(name, None)
  ds = input_pipeline.get_dataset(variant='test', **{
      k: v for k, v in cf.dataset.to_dict().items() if k != 'prefetch_device'})
  e = ds.element_spec
  c.require(e['labels'].shape[1:] == (cf.model.num_classes,), f'labels {e["labels"]}', case)
  model = trainer.create_flax_model(config=cf.model.to_dict(), deterministic=True)
  x = jax.ShapeDtypeStruct(e['image'].shape, jnp.float32)
  mesh = partitioning.get_auto_logical_mesh(4, jax.devices())
  with mesh:
    out, _ = jax.eval_shape(lambda i: model.init_with_output(jax.random.PRNGKey(0), i)[0], x)
  c.require(out.shape == (cf.dataset.batch_size, cf.model.num_classes), f'logits {out.shape}', case)
  c.require(0 < cf.max_epsilon < 0.2 and cf.num_updates > 0, 'attack', case)
  c.case(('build', name))


def ranges(name, split):
  """Examples of a split: [(file split, from, to)]."""
  b = FakeBuilder(name)
  return [(i.splitname, int(i.from_ or 0),
           int(b.all[i.splitname].num_examples if i.to is None else i.to))
          for i in tfds.core.ReadInstruction.from_spec(split).to_absolute(b.all)]


def disjoint(c, case, cf):
  """No example is both trained on and evaluated on."""
  train = cf.dataset.train
  pairs = [(train.name, train.split, d.name, d.split, f'train and {k}')
           for k, d in cf.dataset.items() if k != 'train']
  for k, d in cf.get('fewshot', {}).get('datasets', {}).items():
    if isinstance(d, (list, tuple)):
      pairs.append((d[0], d[1], d[0], d[2], f'few-shot {k}'))
    else:
      pairs.append((d.name, d.train_split, d.name, d.test_split, f'few-shot {k}'))
  for n1, s1, n2, s2, what in pairs:
    if n1 == n2:
      for (f1, a1, b1), (f2, a2, b2) in itertools.product(ranges(n1, s1), ranges(n2, s2)):
        c.require(f1 != f2 or min(b1, b2) <= max(a1, a2),
                  f'{what} share examples of {n1}: {s1} and {s2}', case)


SOFT = {'s': (384, 12, 1536, 6), 'b': (768, 12, 3072, 12), 'l': (1024, 24, 4096, 16),
        'h': (1280, 32, 5120, 16)}


def soft_sizes(c, case, cf, arg, size):
  """The model is the one named by the argument."""
  kind, v = arg.split('-')
  m = cf.model.get('image', cf.model)
  e = m.encoder
  c.require((m.hidden_size, e.num_layers, e.mlp_dim, e.num_heads) == SOFT[v[0]] and
            tuple(m.patch_size) == (int(v[1:]),) * 2, f'sizes of {arg}: {m}', case)
  layers = tuple(e.moe.layers)
  if kind == 'vit':
    c.require(not layers, f'{arg} has MoE layers {layers}', case)
    return
  n = e.num_layers
  c.require(layers == tuple(range(n // 2, n)), f'MoE layers of {arg}: {layers}', case)
  c.require(('SoftRouter' in e.moe.router.name) == (kind == 'soft'), f'router {e.moe.router}', case)
  c.require(e.moe.group_size == (size // int(v[1:])) ** 2, f'groups of {e.moe.group_size}', case)


# ---- descriptions of models -------------------------------------------------
ARCH = {'S': (512, 8, 2048, 8), 'B': (768, 12, 3072, 12), 'L': (1024, 24, 4096, 16),
        'H': (1280, 32, 5120, 16)}
RATE = {('S', 32): 1e-3, ('B', 32): 8e-4, ('B', 16): 8e-4, ('L', 32): 6e-4, ('L', 16): 4e-4,
        ('H', 14): 3e-4}


def job_descriptions(c, which):
  name = ['vmoe.configs.vmoe_paper.common', 'vmoe.configs.vmoe_paper.pretrain_imagenet21k',
          'vmoe.projects.adversarial_attacks.configs.common'][which]
  mod = importlib.import_module(name)
  for (v, p), e, k, (where, n), epochs, size in itertools.product(
      RATE, (2, 8, 32), (1, 2, 5), (('Every', 1), ('Every', 2), ('Every', 3), ('Last', 1),
                                    ('Last', 2), ('Last', 5)), (7, 300), (224, 384)):
    d = f'ViT-{v}/{p}, E={e}, K={k}, {where} {n}, {epochs} Epochs'
    c.context = case = dict(module=name, description=d, image_size=size)
    if which == 0:
      m = mod.get_vmoe_config(d, image_size=size, num_classes=10)
    elif which == 1:
      m = mod.get_vmoe_params(d, image_size=size)
    else:
      m = mod.get_vmoe_config(d, 10, size)
    hidden, layers, mlp, heads = ARCH[v]
    if where == 'Every':
      want = tuple(l for l in range(layers) if (l + 1) % n == 0)
    else:
      want = tuple(l for l in range(layers) if l % 2 == 1)[-n:]
    got = (m.hidden_size, m.encoder.num_layers, m.encoder.mlp_dim, m.encoder.num_heads,
           tuple(m.patch_size), tuple(m.encoder.moe.layers), m.encoder.moe.num_experts,
           m.encoder.moe.router.num_selected_experts)
    c.require(got == (hidden, layers, mlp, heads, (p, p), want, e, k),
              lambda: f'{got}, expected {(hidden, layers, mlp, heads, (p, p), want, e, k)}', case)
    tokens = (size // p) ** 2 + 1
    c.require(m.encoder.moe.group_size == 8 * tokens, f'groups of {m.encoder.moe.group_size}',
              case)
    if which == 2:
      r = m.encoder.moe.router
      w = (r.importance_loss_weight, r.load_loss_weight, r.gshard_loss_weight)
      c.require(w == ((0.005, 0.005, 0.) if e > 2 else (0., 0., 0.01)), f'losses {w}', case)
    c.require(mod.get_num_epochs(d) == epochs, 'epochs', case)
    if which < 2:
      o = mod.get_optimizer_config(d) if which == 0 else mod.get_optimizer_params(d)
      c.require(o.learning_rate.peak_value == RATE[v, p], f'rate {o.learning_rate}', case)
    c.case((name, d, size))
  for bad in ('ViT-B/16', 'ViT-B/16, E=8, K=2, First 2, 300 Epochs', 'xViT-B/16, E=8, K=2, Last 2',
              'ViT-B/16, E=8, K=2, Last 2, 300 Epochs.'):
    try:
      f = mod.get_vmoe_params if which == 1 else mod.get_vmoe_config
      f(bad, **({} if which == 1 else dict(image_size=224, num_classes=3)))
      c.fail(f'description {bad!r} accepted', case)
    except ValueError:
      pass


# ---- executed, shrunk -------------------------------------------------------
def shrink_model(m, images):
  """Smaller, with the structure of the last 4 layers."""
  for t in ('image', 'text'):
    if t in m:
      shrink_model(m[t], images)
  if 'hidden_size' not in m:
    return
  m.hidden_size = 16
  if m.get('representation_size'):
    m.representation_size = 16
  if 'vocab_size' in m:
    m.num_classes = 16
  e = m.encoder
  n = e.num_layers
  e.num_layers, e.mlp_dim, e.num_heads = 4, 8, 2
  moe = e.get('moe')
  if moe is not None and moe.get('layers'):
    moe.layers = tuple(l - n + 4 for l in moe.layers if l >= n - 4)
    moe.num_experts = 4
    tokens = (images // m.patch_size[0]) ** 2 + (1 if m.get('classifier') == 'token' else 0)
    if moe.group_size > tokens:
      moe.group_size = 2 * tokens * moe.get('ensemble_size', 1)


class Writer:

  def __init__(self):
    self.out = {}

  def write_scalars(self, step, m):
    for k, v in m.items():
      self.out[(int(step), k)] = float(v)

  def __getattr__(self, name):
    return lambda *a, **k: None


def flat_params(tree):
  return {k: np.asarray(x) for k, x in flax.traverse_util.flatten_dict(
      flax.core.unfreeze(flax.serialization.to_state_dict(tree)), sep='/').items()}


def upstream(c, cf, prefix, mesh, images, other):
  """Writes the checkpoint of the pre-trained model: other image size and classes."""
  m = cf.model.copy_and_resolve_references()
  with m.unlocked():
    m.num_classes = 7
    if other == 'pre_logits':
      m.representation_size = 16
    tokens = (224 // m.patch_size[0]) ** 2 + 1
    m.encoder.moe.group_size = 2 * tokens * m.encoder.moe.get('ensemble_size', 1)
  model = trainer.create_flax_model(config=m.to_dict(), deterministic=True)
  with mesh:
    x = jax.ShapeDtypeStruct((4, 224, 224, 3), jnp.float32)
    p = jax.eval_shape(lambda: model.init(jax.random.PRNGKey(0), jnp.zeros(x.shape)))['params']
  p = flax.traverse_util.flatten_dict(flax.core.unfreeze(p), sep='/')
  r = np.random.default_rng(3)
  p = {k: r.normal(size=x.shape).astype(np.float32) * 0.05 for k, x in p.items()}
  # The routers of ensembles are stored with another shape.
  eee = 'Ensemble' in m.name
  stored = {k: x.reshape(-1) if eee and '/Router/' in k else x for k, x in p.items()}
  tree = flax.traverse_util.unflatten_dict(
      {k: jax.device_put(x, jax.sharding.NamedSharding(mesh, P())) for k, x in stored.items()},
      sep='/')
  checkpoints.save_checkpoint(prefix=prefix, tree=tree).wait()
  return p


def job_run(c, name, arg):
  install()
  LIMIT[0] = 18
  c.context = case = dict(config=name, variant=arg, executed=True)
  d = os.path.join(c.scratch(), f'run_{name}_{arg}')
  os.makedirs(d)
  try:
    execute(c, case, name, arg, d)
  except core.Violation:
    raise
  except Exception as e:  # pylint: disable=broad-except
    import traceback
    c.fail(f'fails: {type(e).__name__}: {str(e)[:300]}', {
        **case, 'traceback': traceback.format_exc()[-1500:]})
  c.case(('run', name, arg))


def execute(c, case, name, arg, d):
  cf = get(name, arg).copy_and_resolve_references()
  two = contrastive(cf)
  with cf.unlocked():
    images = int(re.search(r'central_crop\((\d+)\)|crop\((\d+)\)|resize\((\d+)\)',
                           cf.dataset.train.process).group(0).split('(')[1][:-1])
    shrink_model(cf.model, images)
    if cf.num_expert_partitions > 1:
      cf.num_expert_partitions = 4
    for ds in cf.dataset.values():
      ds.batch_size = 8
      if 'shuffle_buffer' in ds:
        ds.shuffle_buffer = 8
    if 'train_epochs' in cf:
      del cf.train_epochs
    cf.train_steps = 3
    for k in ('warmup_steps', 'cooldown_steps'):
      if k in cf.optimizer.learning_rate:
        cf.optimizer.learning_rate[k] = 1
    cf.save_checkpoint.every_steps = 2
    cf.report_progress = dict(every_steps=1)
    for k in ('evaluate', 'fewshot', 'retrieval', 'zeroshot'):
      if k in cf:
        cf[k].every_steps = 2
    if 'fewshot' in cf:
      cf.fewshot.batch_size = 8
      cf.fewshot.datasets = {k: v for k, v in cf.fewshot.datasets.items()
                             if k in ('col_hist', cf.fewshot.main_task[0])}
      cf.fewshot.shots = cf.fewshot.shots[:3]
      cf.fewshot.l2_regs = cf.fewshot.l2_regs[5:15:5]
  cf.lock()
  mesh = partitioning.get_auto_logical_mesh(cf.num_expert_partitions, jax.devices())
  src = None
  init = cf.get('initialization')
  if init:
    prefix = os.path.join(d, 'pre')
    src = upstream(c, cf, prefix, mesh, images,
                   'pre_logits' if any('pre_logits' in r[0] for r in init.rules) else None)
    with cf.unlocked():
      cf.initialization.prefix = prefix
  states = {}
  tr = contrastive_trainer if two else trainer
  real = tr.restore_or_create_train_state

  def spy(**kw):
    st, last = real(**kw)
    states['first'] = flat_params(st.params)
    states['shardings'] = {k: x.sharding for k, x in flax.traverse_util.flatten_dict(
        flax.core.unfreeze(st.params), sep='/').items()}
    return st, last
  tr.restore_or_create_train_state = spy
  wr = Writer()
  wd = os.path.join(d, 'w')
  try:
    with mesh:
      tr.train_and_evaluate(cf, wd, mesh, wr)
  finally:
    tr.restore_or_create_train_state = real
  got = wr.out
  for k in ('main_loss', 'total_loss', 'global_norm/grads'):
    for s in (2, 3):
      c.require(np.isfinite(got[(s, f'train/{k}')]), f'{k} of step {s}: {got[(s, f"train/{k}")]}',
                case)
  c.require(sorted(x for x in os.listdir(os.path.join(wd, 'ckpt')) if x.isdigit()) ==
            (['2', '3'] if not cf.save_checkpoint.get('keep_last') else
             ['2', '3'][-cf.save_checkpoint.keep_last:]) or
            cf.save_checkpoint.get('keep_steps_multiple_of'), lambda: 'checkpoints '
            f'{os.listdir(os.path.join(wd, "ckpt"))}', case)
  for s in (1, 2, 3):
    for k in cf.dataset:
      if k != 'train' and not two:
        c.require(np.isfinite(got[(s, f'{k}/loss')]) and 0 <= got[(s, f'{k}/prec@1')] <= 1,
                  f'evaluation on {k}', case)
    if cf.get('fewshot'):
      t, n = cf.fewshot.main_task
      c.require(any(a == s and k.endswith(f'{t}/{n}shot') and 0 <= v <= 1
                    for (a, k), v in got.items()), f'few-shot evaluation of step {s}', case)
    for e in ('retrieval', 'zeroshot'):
      for t in cf.get(e, {}).get('datasets', {}):
        c.require(any(a == s and k.startswith(f'{e}/{t}/') for a, k in got), f'{e} of {t}', case)
  first = states['first']
  for k, x in first.items():
    sh = states['shardings'][k]
    e = '/Moe/Mlp/' in k
    c.require(sh.shard_shape(x.shape) == ((1,) + x.shape[1:] if e else x.shape),
              f'{k} of shape {x.shape} is sharded as {sh}', case)
  if src is not None:
    n = 0
    for k, x in first.items():
      if k.startswith('head/') or k not in src:
        continue
      n += 1
      if src[k].shape == x.shape:
        c.require(np.array_equal(src[k], x), f'{k} does not come from the checkpoint', case)
      else:
        c.require(k.endswith('pos_embedding'), f'{k}: {src[k].shape} to {x.shape}', case)
        c.require(np.allclose(x[0, 0], src[k][0, 0], atol=1e-6), 'embedding of the class token',
                  case)
    c.require(set(first) - set(src) == set() and n == len([k for k in first
                                                           if not k.startswith('head/')]),
              lambda: f'not initialized: {set(first) - set(src)}', case)


def run_job(c, j):
  t0 = time.time()
  {'build': job_build, 'attack': job_attack, 'run': job_run,
   'descriptions': job_descriptions}[j[0]](c, *j[1])
  if os.environ.get('T29'):
    print(f'{time.time() - t0:.0f}', j, flush=True)


# Executed in the quick tier, the slowest first.
RUN = (('pretrain_laion', 'soft-s16'),
       ('vmoe_b16_imagenet21k_randaug_strong_ft_ilsvrc2012', None),
       ('pretrain_jft4b', 'soft-s16'),
       ('vmoe_s32_last2_ilsvrc2012_randaug_light1', None), ('pretrain_imagenet21k', None),
       ('vmoe_s32_last2_ilsvrc2012_randaug_light1_ft_ilsvrc2012', None),
       ('vmoe_b16_imagenet21k_randaug_strong_ft_cifar10', None),
       ('eee_s32_last2_ilsvrc2012_ft_cifar100', None))


def run(c):
  jobs = []
  for name, arg in all_configs():
    short = name.split('.')[-1]
    if 'adversarial' in name:
      jobs.append((5, 'attack', (name,)))
      continue
    if c.thorough or (short, arg) in RUN or (short not in [r[0] for r in RUN] and arg is None):
      jobs.append((RUN.index((short, arg)) / 9 if (short, arg) in RUN else 1, 'run', (name, arg)))
    if c.thorough or arg is None or arg in ('vit-s16', 'ec-b16', 'soft-h14', 'soft-s14'):
      jobs.append((2, 'build', (name, arg)))
  jobs += [(4, 'descriptions', (i,)) for i in range(3)]
  c.parallel([j[1:] for j in sorted(jobs, key=lambda j: j[0])], run_job)
