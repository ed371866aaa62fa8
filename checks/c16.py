"""C16: evaluation metrics are exact means over the valid examples."""
import itertools
import os

os.environ['XLA_FLAGS'] = '--xla_force_host_platform_device_count=4'

import numpy as np

from mc import core

import jax
import jax.numpy as jnp
from clu.data import dataset_iterator
from clu import metric_writers
from vmoe.evaluate import evaluator

LEVEL = 'exploration'
RULE = ('a case = one full evaluation (all batches of all datasets) by the real '
        'EvaluateMultipleDatasets action of one assignment of example contents and '
        'valid/padding flags to batch positions, compared with the exact mean over '
        'the valid examples; distinct = (layout, contents, flags, parameters)')
ASSUMPTIONS = ['losses are integer valued so that the sums are exact; at least one '
               'valid example; model outputs on padding are finite; up to 3 batches '
               'of up to 4 examples on 1, 2 and 4 virtual devices; two datasets']

C = 3           # Classes.
# Rows of logits: distinct integers so that argmax/argmin are unambiguous.
TABLES = (np.array([[5, 1, 2], [0, 7, 3], [2, 4, 9], [6, 1, 0]], np.float32),
          np.array([[1, 3, 2], [8, 0, 4], [2, 1, 0], [0, 2, 5]], np.float32))
LABELS = np.array([[1, 0, 0], [0, 1, 0], [0, 0, 1], [1, 0, 1]], np.float32)


class Data(dataset_iterator.DatasetIterator):
  """A dataset whose contents can be replaced between evaluations."""

  def __init__(self, batch, vdtype):
    self._batch, self._vdtype = batch, vdtype
    self.batches, self.pos = [], 0

  def load(self, batches):
    self.batches, self.pos = batches, 0

  def reset(self):
    self.pos = 0

  def __next__(self):
    if self.pos >= len(self.batches):
      raise StopIteration
    self.pos += 1
    rows, labels, valid = self.batches[self.pos - 1]
    return {'image': np.array(rows, np.int32),
            'labels': LABELS[list(labels)].copy(),
            evaluator.VALID_KEY: np.array(valid, self._vdtype)}

  @property
  def element_spec(self):
    spec = dataset_iterator.ArraySpec
    return {'image': spec(np.dtype(np.int32), (self._batch,)),
            'labels': spec(np.dtype(np.float32), (self._batch, C)),
            evaluator.VALID_KEY: spec(np.dtype(self._vdtype), (self._batch,))}


class Writer(metric_writers.MetricWriter):
  def __init__(self):
    self.calls = []

  def write_scalars(self, step, scalars):
    self.calls.append((step, dict(scalars)))

  def write_summaries(self, *a, **k): pass
  def write_images(self, *a, **k): pass
  def write_videos(self, *a, **k): pass
  def write_audios(self, *a, **k): pass
  def write_texts(self, *a, **k): pass
  def write_histograms(self, *a, **k): pass
  def write_pointcloud(self, *a, **k): pass
  def write_hparams(self, *a, **k): pass
  def flush(self): pass
  def close(self): pass


def loss_np(logits, labels):
  """Per-class integer loss, asymmetric in logits/labels."""
  return logits * np.array([1., 2., 4.]) + labels * np.array([8., 16., 32.])


def oracle(batches, table, pred):
  n = corr = loss = 0.
  for rows, labels, valid in batches:
    for r, l, v in zip(rows, labels, valid):
      if v:
        n += 1
        corr += LABELS[l][(np.argmax if pred == 'max' else np.argmin)(table[r])]
        loss += loss_np(table[r], LABELS[l]).sum()
  return corr / n, loss / n


def make(c, ndev, batch, vdtype, pred, loss_rank, names, **kw):
  writer = Writer()
  datasets = {n: Data(batch, vdtype) for n in names}

  def apply_fn(variables, x, rngs):
    c.require(not rngs, 'unexpected rngs given to a deterministic model')
    return variables['params']['table'][x], {'aux': 0.}

  def loss_fn(logits, labels):
    l = (logits * jnp.array([1., 2., 4.]) + labels * jnp.array([8., 16., 32.]))
    return l if loss_rank == 2 else jnp.sum(l, -1)

  pred_fn = (lambda x: jnp.argmax(x, -1)) if pred == 'max' else (
      lambda x: jnp.argmin(x, -1))
  action = evaluator.EvaluateMultipleDatasets(
      apply_fn=apply_fn, loss_fn=loss_fn, label_pred_fn=pred_fn,
      datasets=datasets, metric_writer=writer, rng_keys=[], **kw)
  return action, datasets, writer


def mesh_of(ndev):
  devs = np.asarray(jax.devices()[:ndev])
  if ndev == 4:
    return jax.sharding.Mesh(devs.reshape(2, 2), ('expert', 'replica'))
  return jax.sharding.Mesh(devs, ('d',))


def expect(c, got, step, want, case, extra=()):
  """want: {dataset: (prec, loss)}."""
  c.require(len(got) == 1 and got[0][0] == step,
            f'metrics written at {[g[0] for g in got]}, expected once at {step}', case)
  m = got[0][1]
  for name, (prec, loss) in want.items():
    for k, w in ((f'{name}/prec@1', prec), (f'{name}/loss', loss)):
      c.require(k in m, f'metric {k} missing', case)
      v = float(m[k])
      c.require(abs(v - w) <= 1e-5 * max(1, abs(w)),
                f'{k} = {v} at step {step}, mean over the valid examples is {w}', case)
  for k, w in extra:
    c.require(k in m and float(m[k]) == w, f'extra metric {k} not written', case)


def contents(c, batch, nb, dense):
  """All (rows, labels, valid) assignments, or all masks x content patterns."""
  n = batch * nb
  if dense:
    kinds = list(itertools.product(range(3), (0, 1, 3)))
    for x in itertools.product(kinds, repeat=n):
      for valid in itertools.product((0, 1), repeat=n):
        if any(valid):
          yield [k[0] for k in x], [k[1] for k in x], valid
  else:
    for valid in itertools.product((0, 1), repeat=n):
      if not any(valid):
        continue
      for a, b in ((1, 0), (1, 1), (3, 1)) if c.thorough else ((1, 1), (3, 1)):
        yield ([(a * i + b) % 4 for i in range(n)],
               [(i * i + i // 2 + b) % 4 for i in range(n)], valid)


def job_metrics(c, ndev, batch, nbs, vdtype, pred, loss_rank, dense):
  with mesh_of(ndev):
    action, datasets, writer = make(
        c, ndev, batch, vdtype, pred, loss_rank, ('a', 'b'), every_steps=1)
    step = 0
    prev = None
    tables = [{'table': jnp.asarray(t)} for t in TABLES]
    # The metrics of an evaluation depend on nothing but the current parameters
    # and datasets: all are run one after another with the same action, dataset
    # 'b' getting what dataset 'a' held before.
    for nb in nbs:
      for rows, labels, valid in contents(c, batch, nb, dense):
        step += 1
        cur = [(rows[i:i + batch], labels[i:i + batch], valid[i:i + batch])
               for i in range(0, batch * nb, batch)]
        prev = prev or cur
        t = step % 2
        datasets['a'].load(cur)
        datasets['b'].load(prev)
        case = dict(devices=ndev, batch=batch, a=cur, b=prev, params=t,
                    valid_dtype=str(vdtype), label_pred=pred, step=step)
        c.context = case
        for _ in range(2 if step % 16 == 1 else 1):
          del writer.calls[:]
          kw = {'foo': 3., 'bar': None} if step % 3 == 0 else {}
          action(step=step, params=tables[t], **kw)
          got = [x for x in writer.calls if any('prec@1' in k for k in x[1])]
          expect(c, got, step, {'a': oracle(cur, TABLES[t], pred),
                                'b': oracle(prev, TABLES[t], pred)}, case,
                 [('foo', 3.)] if kw else ())
          c.require('bar' not in got[0][1], 'absent metric written', case)
          c.case(('m', ndev, batch, str(vdtype), pred, loss_rank, str(cur),
                  str(prev), t))
          c.transition(len(cur) + len(prev))
          if step % 16 == 1:
            # Second evaluation of the same data: the iterators were reset.
            step += 1
            case['step'] = step
        prev = cur
    c.sample({'metrics': step, 'devices': ndev, 'batch': batch})


def job_when(c):
  """Which steps are evaluated, for every small schedule."""
  with mesh_of(1):
    for every, on, first in itertools.product(
        (None, 1, 2, 3), ((), (3,), (2, 5)), (0, 1, 2)):
      if every is None and not on:
        continue
      action, datasets, writer = make(
          c, 1, 2, bool, 'max', 1, ('only',), every_steps=every, on_steps=on)
      data = [([0, 1], [0, 1], [1, 1]), ([2, 3], [0, 1], [1, 0])]
      datasets['only'].load(data)
      last = 7
      for step in range(first, last):
        c.context = dict(every_steps=every, on_steps=on, step=step)
        del writer.calls[:]
        t = step % 2
        ran = action(step=step, params={'table': jnp.asarray(TABLES[t])})
        due = (every is not None and step % every == 0) or step in on
        got = [x for x in writer.calls if any('prec@1' in k for k in x[1])]
        c.require(bool(ran) == due == bool(got),
                  f'evaluation ran={ran} written={len(got)} due={due}', c.context)
        if due:
          expect(c, got, step, {'only': oracle(data, TABLES[t], 'max')}, c.context)
        c.case(('when', every, on, first, step))
        c.transition()


def job_rngs(c, keys):
  """Stochastic models: every batch and every rng name gets its own key."""
  batch, nb = 2, c.q(4, 8)

  def run(seed, rng_keys):
    writer = Writer()
    ds = Data(batch, bool)

    def apply_fn(variables, x, rngs):
      c.require(sorted(rngs) == sorted(rng_keys),
                f'rngs given to the model: {sorted(rngs)}, requested {rng_keys}')
      del variables
      noise = [jax.random.uniform(rngs[k], (x.shape[0],)) for k in rng_keys]
      return jnp.stack(noise, -1)[:, None, :], {}

    # The loss of example i of a batch = noise of the rng selected by its label.
    def loss_fn(logits, labels):
      return jnp.sum(logits * labels[:, None, :len(rng_keys)], -1)

    action = evaluator.EvaluateMultipleDatasets(
        apply_fn=apply_fn, loss_fn=loss_fn,
        label_pred_fn=lambda x: jnp.zeros((x.shape[0],), jnp.int32),
        datasets={'a': ds}, metric_writer=writer, rng_keys=rng_keys, seed=seed,
        every_steps=1)
    step = 0
    seen = {}
    for again in range(2):
      for k, b, i in itertools.product(range(len(rng_keys)), range(nb), range(batch)):
        step += 1
        ds.load([([0] * batch, [k] * batch,
                  [bb == b and ii == i for ii in range(batch)]) for bb in range(nb)])
        del writer.calls[:]
        action(step=step, params={})
        m = [x for x in writer.calls if 'a/loss' in x[1]][0][1]
        v = float(m['a/loss'])
        case = dict(rng_keys=rng_keys, seed=seed, rng=rng_keys[k], batch=b, example=i)
        c.context = case
        if again:
          c.require(seen[(k, b, i)] == v, 'repeating the evaluation with the same '
                    f'seed gives a different loss: {v} vs {seen[(k, b, i)]}', case)
        else:
          for o, w in seen.items():
            c.require(v != w, f'random values repeat: (rng,batch,example)={o} and '
                      f'{(k, b, i)} both drew {v}', case)
          seen[(k, b, i)] = v
        c.case(('rng', rng_keys, seed, k, b, i))
        c.transition(nb)
    return seen

  with mesh_of(1):
    s0 = run(0, keys)
    s0b = run(0, keys)
    s1 = run(1, keys)
    c.require(s0 == s0b, 'evaluation is not reproducible for a given seed', {'keys': keys})
    c.require(all(s0[k] != s1[k] for k in s0), 'the seed is ignored', {'keys': keys})


def job_long(c):
  """Many batches, and datasets of different batch sizes in one action."""
  with mesh_of(1):
    writer2 = Writer()
    sets = {'x': Data(2, bool), 'y': Data(4, bool), 'z': Data(1, bool)}
    action = evaluator.EvaluateMultipleDatasets(
        apply_fn=lambda v, x, rngs: (v['params']['table'][x], {}),
        loss_fn=lambda a, b: (a * jnp.array([1., 2., 4.]) +
                              b * jnp.array([8., 16., 32.])),
        label_pred_fn=lambda x: jnp.argmax(x, -1), datasets=sets,
        metric_writer=writer2, rng_keys=[], every_steps=1)
    for step, n in enumerate(c.q((1, 5, 300, 700, 2), (1, 5, 300, 700, 5000, 2)), 1):
      want = {}
      for name, b in (('x', 2), ('y', 4), ('z', 1)):
        bs = [([(i * b + j) % 4 for j in range(b)], [(i + j) % 4 for j in range(b)],
               [(i % 7 != 3) or j == 0 for j in range(b)]) for i in range(n)]
        sets[name].load(bs)
        want[name] = oracle(bs, TABLES[step % 2], 'max')
      c.context = dict(batches=n, sizes=(2, 4, 1), step=step)
      del writer2.calls[:]
      action(step=step, params={'table': jnp.asarray(TABLES[step % 2])})
      got = [x for x in writer2.calls if any('prec@1' in k for k in x[1])]
      expect(c, got, step, want, c.context)
      c.case(('long', n))
      c.transition(3 * n)


def jobs(c):
  out = []
  for ndev, batch, nbs, vd, pred, rank, dense in (
      (1, 2, (1,), bool, 'max', 1, True),
      (1, 1, (1, 2) if c.thorough else (1,), np.float32, 'min', 2, True),
      (1, 2, (2, 3), np.float32, 'max', 2, False),
      (2, 2, (1, 2, 3), bool, 'min', 1, False),
      (2, 4, (1, 2), bool, 'max', 2, False),
      (4, 4, (1, 2), bool, 'max', 1, False),
      (1, 4, (1, 2), bool, 'min', 2, False),
      (2, 2, (2,), np.int32, 'max', 1, False),
  ) + (((4, 4, (3,), bool, 'max', 2, False),
        (2, 2, (4, 5), bool, 'max', 2, False)) if c.thorough else ()):
    out.append(('metrics', (ndev, batch, nbs, vd, pred, rank, dense)))
  out.append(('rngs', (('gating',),)))
  out.append(('rngs', (('gating', 'dropout', 'x'),)))
  out.append(('when', ()))
  out.append(('long', ()))
  return out


def run_job(c, job):
  {'metrics': job_metrics, 'rngs': job_rngs, 'when': job_when,
   'long': job_long}[job[0]](c, *job[1])


def run(c):
  c.parallel(jobs(c), run_job)
