"""C17: the input pipeline delivers every example exactly once per evaluation."""
import collections
import contextlib
import itertools
import os
from unittest import mock

import numpy as np

from mc import core

import jax
import tensorflow as tf
import tensorflow_datasets.public_api as tfds
import ml_collections
from vmoe.data import input_pipeline

LEVEL = 'exploration'
RULE = ('a case = all batches that all processes of one configuration (split, number '
        'of processes, batch size, cache, prefetch, parallelism, filter) obtain from '
        'the real pipeline over an on-disk TFDS dataset, compared with the contents '
        'of the split; distinct = configuration')
ASSUMPTIONS = ['a TFDS dataset of 13 examples in 3 files per split prepared in a '
               'scratch directory; up to 4 processes (process index and count '
               'simulated) and 4 examples per process and batch',
               'examples are readable (no ignore_errors); a split has at least as many '
               'examples as processes (TFDS refuses to read empty shares)']
N = {'test': 13, 'train': 9}


def labels_of(i):
  return [i % 4, (i + 1) % 4][:i % 3]  # Every third example has no labels.


class Source(tfds.core.GeneratorBasedBuilder):
  """Examples with a unique id, which also determines every other feature."""
  VERSION = tfds.core.Version('1.0.0')

  def _info(self):
    return tfds.core.DatasetInfo(
        builder=self,
        features=tfds.features.FeaturesDict({
            'id': tfds.features.Scalar(tf.int64),
            'labels': tfds.features.Sequence(tfds.features.Scalar(tf.int64)),
            'image': tfds.features.Image(shape=(2, 2, 3), encoding_format='png')}))

  def _split_generators(self, dl_manager):
    return {s: self._generate_examples(n) for s, n in N.items()}

  def _generate_examples(self, n):
    for i in range(1, n + 1):
      yield i, {'id': i, 'labels': labels_of(i),
                'image': np.full((2, 2, 3), i, np.uint8)}


@contextlib.contextmanager
def process(p, count, devices_per_process=1):
  with mock.patch.object(jax, 'process_count', lambda *a, **k: count), \
       mock.patch.object(jax, 'process_index', lambda *a, **k: p), \
       mock.patch.object(jax, 'local_device_count',
                         lambda *a, **k: devices_per_process), \
       mock.patch.object(jax, 'device_count',
                         lambda *a, **k: count * devices_per_process):
    yield


PROCESS = ('decode|resize(2)|ignore_no_labels|onehot(4, key="labels")|'
           'keep("id", "image", "labels", "__valid__")')
PLAIN = 'decode|resize(2)|keep("id", "image")'


def split_ids(builder, split):
  return [int(x['id']) for x in tfds.as_numpy(builder.as_dataset(split=split))]


def check_batch(c, b, size, labelled, case):
  for k, v in b.items():
    c.require(len(v) == size, f'a batch has {len(v)} {k}, expected {size}', case)
  for j in range(size):
    i = int(b['id'][j])
    c.require(i == 0 or np.all(b['image'][j] == i),
              f'example {i} was delivered with the image of another one', case)
    if labelled and i:
      want = np.zeros(4)
      want[labels_of(i)] = 1
      c.require(np.array_equal(b['labels'][j], want),
                f'example {i} was delivered with labels {b["labels"][j]}', case)


def read_eval(c, case, P, B, kw, labelled):
  """All the processes' batches for one pass, twice (second after a reset)."""
  passes = [[], []]
  for p in range(P):
    with process(p, P):
      ds = input_pipeline.get_dataset(
          variant=case['variant'], batch_size=B * P,
          process=PROCESS if labelled else PLAIN, **kw)
      for k in range(2):
        got = []
        for b in ds:
          check_batch(c, b, B, labelled, case)
          got.append([(int(i), bool(v)) for i, v in
                      zip(b['id'], b[input_pipeline.VALID_KEY])])
          c.transition()
          c.require(len(got) < 50, 'an evaluation dataset does not end', case)
        passes[k].append(got)
        ds.reset()
  return passes


def job_eval(c, builder, P, B, variants):
  for a, b in itertools.product(c.q((0, 5), (0, 1, 5)), range(1, N['test'] + 1)):
    if b - a < P or (a and not c.thorough and b not in (6, 10)):
      continue
    split = f'test[{a}:{b}]'
    ids = split_ids(builder, split)
    c.require(len(ids) == b - a, 'harness: split', split)
    # quick: each configuration with two of the variants, in rotation.
    vs = variants if c.thorough else [
        variants[(b + B + 2 * P + k) % len(variants)] for k in (0, 2)]
    for v in vs:
      kw = dict(name='from_directory:x', data_dir=str(builder.data_dir), split=split,
                **{k: w for k, w in v.items() if k not in ('labelled', 'keep')})
      keep = v.get('keep')
      if keep:
        kw['pre_filter_fn'] = keep[1]
      case = dict(variant='validation', processes=P, batch_per_process=B,
                  split=split, cache=v.get('cache'), prefetch=v.get('prefetch'),
                  num_parallel_calls=v.get('num_parallel_calls'),
                  filter=keep and keep[0])
      c.context = case
      labelled = v.get('labelled', False)
      want = collections.Counter(i for i in ids if not keep or keep[2](i))
      passes = read_eval(c, case, P, B, kw, labelled)
      for k, batches in enumerate(passes):
        case['pass'] = k
        case['batches'] = batches
        lens = [len(x) for x in batches]
        c.require(len(set(lens)) == 1,
                  f'the processes do {lens} steps: they would deadlock', case)
        flat = [x for p in batches for bt in p for x in bt]
        real = collections.Counter(i for i, _ in flat if i)
        c.require(real == want,
                  lambda: f'examples lost {sorted((want - real).elements())}, repeated '
                  f'or not in the split {sorted((real - want).elements())}', case)
        for i, valid in flat:
          w = i != 0 and (not labelled or bool(labels_of(i)))
          c.require(valid == w, f'{"example %d" % i if i else "padding"} has '
                    f'valid={valid}', case)
        most = -(-(b - a) // P)
        c.require(lens[0] <= -(-most // B),
                  f'{lens[0]} steps for {b - a} examples', case)
      c.case(('eval', P, B, split, str(sorted((k, str(w)) for k, w in v.items()
                                              if k != 'keep')), case['filter']))
  c.sample(dict(processes=P, batch=B))


def job_train(c, builder, P, B):
  """Training data: endless, complete, own examples only, no padding."""
  for n, buf in itertools.product((4, 7, 9), (1, 2, 50)):
    if n < P:
      continue
    owned = []
    for p in range(P):
      with process(p, P):
        kw = dict(variant='train', name='from_directory:x', split=f'train[:{n}]',
                  data_dir=str(builder.data_dir), batch_size=B * P, process=PLAIN,
                  num_parallel_calls=1, shuffle_buffer=buf)
        case = dict(processes=P, process=p, batch_per_process=B, split=kw['split'],
                    shuffle_buffer=buf)
        c.context = case
        ds = input_pipeline.get_dataset(**kw)
        mine = split_ids(builder, tfds.even_splits(
            f'train[:{n}]', P, drop_remainder=False)[p])
        draws = []
        epochs = 3 if buf < 50 else 12
        while len(draws) < epochs * len(mine):
          try:
            b = next(ds)
          except StopIteration:
            c.fail(f'the training data ended after {len(draws)} examples', case)
          c.require(input_pipeline.VALID_KEY not in b,
                    'training data marked with validity', case)
          check_batch(c, b, B, False, case)
          draws += [int(i) for i in b['id']]
          c.transition()
        cnt = collections.Counter(draws)
        case['draws'] = draws
        c.require(0 not in cnt, 'padding in the training data', case)
        owned.append(set(cnt))
        # Each example appears once per epoch; up to `buf` are still in the buffer.
        lo, hi = len(draws) // len(mine), -(-len(draws) // len(mine))
        slack = 0 if buf == 1 else buf
        total = len(draws)
        for i in set(mine) | set(cnt):
          low = (total + slack) // len(mine) - slack
          high = -(-(total + slack) // len(mine))
          c.require(low <= cnt[i] <= high,
                    f'example {i} drawn {cnt[i]} times in {total} draws from a process '
                    f'that owns {len(mine)} examples (expected {lo}..{hi})', case)
        c.case(('train', P, B, n, buf, p))
    c.require(sum(len(o) for o in owned) == len(set().union(*owned)) == n,
              'the processes do not share out the training examples',
              dict(case, owned=[sorted(o) for o in owned]))


def job_config(c, builder):
  """Rejected batch sizes, split sizes, several variants in one config."""
  d = str(builder.data_dir)
  for P, dev, bs in itertools.product((1, 2, 3, 4), (1, 2, 4), range(1, 13)):
    with process(0, P, dev):
      case = dict(processes=P, devices=P * dev, batch_size=bs)
      c.context = case
      try:
        ds = input_pipeline.get_dataset(
            variant='test', name='from_directory:x', data_dir=d, split='test[:9]',
            batch_size=bs, process=PLAIN)
        ok = True
      except ValueError:
        ok = False
      c.require(ok == (bs % (P * dev) == 0),
                f'batch size {"accepted" if ok else "rejected"}', case)
      if ok:
        b = next(iter(ds))
        c.require(len(b['id']) == bs // P,
                  f'a process got a batch of {len(b["id"])}', case)
      c.case(('config', P, dev, bs))
  for P, split in itertools.product((1, 3), ('test', 'train', 'test[2:7]', 'train[:50%]')):
    with process(0, P):
      cfg = ml_collections.ConfigDict(dict(
          name='from_directory:x', data_dir=d, split=split, batch_size=P, process=PLAIN,
          cache='loaded', prefetch=1, prefetch_device=2, shuffle_buffer=3,
          num_parallel_calls=2, variant='train'))
      n = input_pipeline.get_data_num_examples(cfg)
      c.require(n == len(split_ids(builder, split)),
                f'{n} examples reported for {split}', dict(processes=P, split=split))
      c.case(('num', P, split))
  cfg = ml_collections.ConfigDict({
      v: dict(name='from_directory:x', data_dir=d, split=s, batch_size=2, process=PLAIN,
              prefetch_device=2) for v, s in (
                  ('train', 'train'), ('a', 'test[:3]'), ('b', 'test[3:]'))})
  sets = input_pipeline.get_datasets(cfg)
  c.require(sorted(sets) == ['a', 'b', 'train'], 'variants lost', list(sets))
  for v, s in (('a', 'test[:3]'), ('b', 'test[3:]')):
    got = [int(i) for b in sets[v] for i in b['id'] if i]
    c.require(sorted(got) == sorted(split_ids(builder, s)),
              f'variant {v} got {got}', dict(split=s))
  b = next(sets['train'])
  c.require(input_pipeline.VALID_KEY not in b, 'train variant is padded', None)
  c.case('variants')


VARIANTS = [
    dict(),
    dict(labelled=True),
    dict(cache='loaded', prefetch='autotune'),
    dict(cache='batched', prefetch=2, num_parallel_calls=1, labelled=True),
    dict(keep=('id % 3 != 0', lambda x: x['id'] % 3 != 0, lambda i: i % 3 != 0)),
]
VARIANTS_T = [
    dict(cache='loaded', labelled=True, num_parallel_calls=4),
    dict(cache='batched'), dict(prefetch=1, num_parallel_calls=1),
    dict(keep=('id > 6', lambda x: x['id'] > 6, lambda i: i > 6), cache='loaded'),
    dict(keep=('none', lambda x: x['id'] < 0, lambda i: False), cache='batched'),
    dict(keep=('all', lambda x: x['id'] > 0, lambda i: True)),
]


def run_job(c, job):
  kind, args = job
  tf.config.threading.set_intra_op_parallelism_threads(2)
  tf.config.threading.set_inter_op_parallelism_threads(2)
  tfds.disable_progress_bar()
  builder = Source(data_dir=os.path.join(c.scratch(), f'job{c.job}'))
  builder.download_and_prepare(
      download_config=tfds.download.DownloadConfig(num_shards=3))
  get = lambda *a, **k: builder
  with mock.patch.object(tfds, 'builder_from_directory', get), \
       mock.patch.object(tfds, 'builder', get):
    {'eval': job_eval, 'train': job_train, 'config': job_config}[kind](
        c, builder, *args)


def run(c):
  variants = VARIANTS + (VARIANTS_T if c.thorough else [])
  out = [('eval', (P, B, variants)) for P in (4, 3, 2, 1) for B in (1, 2, 3, 4)]
  out += [('train', (P, B)) for P in (1, 2, 3) for B in (1, 3)]
  out += [('config', ())]
  c.parallel(out, run_job)
