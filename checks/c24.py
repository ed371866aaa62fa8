"""C24: training survives crashes: every restart continues the same trajectory."""
import itertools
import os
import pickle
import shutil
import sys
import traceback
import warnings

os.environ['XLA_FLAGS'] = '--xla_force_host_platform_device_count=4'

import numpy as np

from mc import core
from mc import stubs
stubs.install()

from absl import logging
import clu.data
import flax
import jax
import jax.numpy as jnp
import ml_collections
import optax
import orbax.checkpoint
import tensorflow as tf
from vmoe import checkpoints as vmoe_checkpoints
from vmoe.data import input_pipeline
from vmoe.train import train_state
from vmoe.train import trainer

warnings.filterwarnings('ignore')
logging.set_verbosity(logging.FATAL)

LEVEL = 'fault_injection'
RULE = ('a case = a whole training run of the real train_and_evaluate killed at one '
        'enumerated event (batch read, metric written, checkpoint save begun or ended, '
        'every file operation of a checkpoint), then restarted, in separate processes; '
        'everything written and every checkpoint is compared with an uninterrupted run; '
        'distinct = (configuration, crash points)')
ASSUMPTIONS = ['a small sharded model with random noise, 3 to 5 steps on 4 virtual '
               'devices in one process per run, the same batch in every step; process '
               'crash only; the installed orbax commits checkpoints by renaming']
CRASH = 77
PREFIXES = ('train/', 'eval/')
EVAL_KEY = 'eval/loss'


class Events:
  """Counts events, and crashes the process at one of them."""

  def __init__(self, path, crash):
    self.n, self.crash = 0, crash
    self.fd = os.open(path, os.O_CREAT | os.O_WRONLY | os.O_APPEND)

  def log(self, *what):
    data = pickle.dumps(what)
    os.write(self.fd, len(data).to_bytes(4, 'big') + data)

  def tick(self, *what):
    n, self.n = self.n, self.n + 1
    self.log('tick', n, what)
    if n == self.crash:
      os._exit(CRASH)


def read_log(path):
  with open(path, 'rb') as fp:
    data = fp.read()
  out = []
  while data:
    k = int.from_bytes(data[:4], 'big')
    out.append(pickle.loads(data[4:4 + k]))
    data = data[4 + k:]
  return out


class Writer:

  def __init__(self, ev):
    self.ev = ev

  def write_scalars(self, step, scalars):
    vals = {k: float(v) for k, v in scalars.items()}
    self.ev.tick('write', int(step))
    self.ev.log('scalars', int(step), vals)

  def __getattr__(self, name):
    return lambda *a, **k: None


def batches(kind):
  i = np.arange(24.).reshape(8, 3)
  y = np.eye(2, dtype=np.float32)[np.arange(8) % 2]
  if kind == 'same':
    return [(np.sin(i).astype(np.float32), y)] * 50
  return [(np.sin(i * (k + 1) / 3).astype(np.float32) * (1 + k), np.roll(y, k, 0))
          for k in range(12)]


def data(ev, kind, train):
  def gen():
    for x, y in batches(kind if train else 'same')[:50 if train else 1]:
      d = {'image': x, 'labels': y}
      if not train:
        d['__valid__'] = np.arange(8) < 6
      yield d
  sig = {'image': tf.TensorSpec((8, 3), tf.float32), 'labels': tf.TensorSpec((8, 2), tf.float32)}
  if not train:
    sig['__valid__'] = tf.TensorSpec((8,), tf.bool)
  ds = tf.data.Dataset.from_generator(gen, output_signature=sig)

  class It(clu.data.TfDatasetIterator):

    def __next__(self):
      if train:
        ev.tick('batch')
      return super().__next__()

  return It(ds, checkpoint=False)


def config(o):
  c = ml_collections.ConfigDict()
  c.dataset = dict(train=dict(batch_size=8, prefetch_device=o.get('prefetch', 1)),
                   eval=dict(batch_size=8))
  c.train_steps = o.get('steps', 4)
  c.params_axis_resources = [('.*/v$', 'expert')]
  c.model = dict(name='mc.tiny.Model', noise=o.get('noise', 0.1))
  c.optimizer = dict(name='sgd', momentum=0.5, learning_rate=o.get('lr', 0.5))
  if o.get('adam'):
    c.optimizer = dict(name='adam', learning_rate=dict(
        schedule='warmup_linear_decay', peak_value=0.5, end_value=0.01, warmup_steps=2))
  c.loss = dict(name='softmax_xent')
  c.extra_rng_keys = ('dropout',) + (('mixup',) if o.get('mixup') else ())
  sv = dict(every_steps=o.get('every', 1))
  for k in ('keep_last', 'keep_steps_multiple_of'):
    if o.get(k):
      sv[k] = o[k]
  c.save_checkpoint = sv
  c.report_progress = dict(every_steps=1)
  c.evaluate = dict(every_steps=o.get('eval', 2))
  c.seed = o.get('seed', 0)
  if o.get('mixup'):
    c.mixup = dict(concentration=1.0, granularity='device', size=2)
  if o.get('microsteps'):
    c.microsteps = o['microsteps']
  if o.get('attack'):
    c.adversarial = dict(attack_auxiliary_loss=True, max_epsilon=0.25, num_updates=2)
  if o.get('init'):
    c.initialization = dict(name='initialize_from_vmoe', prefix=o['init'],
                            rules=[('params/v', 'params/v'), ('.*', None)],
                            raise_if_target_unmatched=False)
  return c


def train(o, wd, log, crash, mesh_shape):
  """Runs one training (in this process)."""
  ev = Events(log, crash)
  import importlib
  tr = importlib.import_module(o.get('trainer', 'vmoe.train.trainer'))
  # Data and crash points.
  input_pipeline.get_datasets = lambda c: {
      'train': data(ev, o.get('data', 'same'), True), 'eval': data(ev, 'same', False)}
  input_pipeline.get_data_num_examples = lambda c: 32
  save = orbax.checkpoint.CheckpointManager.save
  def save_(self, step, *a, **k):
    ev.tick('save', int(step))
    r = save(self, step, *a, **k)
    ev.log('saved', int(step), bool(r))
    ev.tick('save_returned', int(step))
    return r
  orbax.checkpoint.CheckpointManager.save = save_
  if crash is not None:
    def wrap(name):
      f = getattr(os, name)
      def g(path, *a, **k):
        if isinstance(path, (str, os.PathLike)) and os.fspath(path).startswith(wd):
          ev.tick('fs', name, os.path.relpath(os.fspath(path), wd))
        return f(path, *a, **k)
      setattr(os, name, g)
    for name in ('rename', 'replace', 'mkdir', 'rmdir', 'unlink', 'remove'):
      wrap(name)
  mesh = jax.sharding.Mesh(np.asarray(jax.devices()).reshape(mesh_shape),
                           ('expert', 'replica'))
  with mesh:
    tr.train_and_evaluate(config(o), wd, mesh, Writer(ev))
  ev.log('done', ev.n)


def child(f, *args, timeout=240):
  """Runs f in a forked process; returns (exit status, returned value)."""
  r, w = os.pipe()
  sys.stdout.flush()
  sys.stderr.flush()
  pid = os.fork()
  if pid == 0:
    os.close(r)
    code = 0
    try:
      out = ('ok', f(*args))
    except BaseException as e:  # pylint: disable=broad-except
      tb = sys.exc_info()[2]
      out = ('error', f'{type(e).__name__}: {e}', traceback.format_exc()[-3000:],
             core.from_repo(tb) or (e.__cause__ is not None and
                                    core.from_repo(e.__cause__.__traceback__)))
    with os.fdopen(w, 'wb') as fp:
      pickle.dump(out, fp)
    os._exit(code)
  os.close(w)
  import select
  import signal
  import time
  buf = b''
  end = time.time() + timeout
  while True:
    ready, _, _ = select.select([r], [], [], max(0, end - time.time()))
    if not ready:
      os.kill(pid, signal.SIGKILL)
      break
    part = os.read(r, 1 << 20)
    if not part:
      break
    buf += part
  os.close(r)
  _, status = os.waitpid(pid, 0)
  if not buf:
    return os.WEXITSTATUS(status) if os.WIFEXITED(status) else -1, None
  return 0, pickle.loads(buf)


def ckpt_steps(wd):
  d = os.path.join(wd, 'ckpt')
  return sorted(int(x) for x in os.listdir(d) if x.isdigit()) if os.path.isdir(d) else []


def read_states(wd):
  out = {}
  for s in ckpt_steps(wd):
    t = orbax.checkpoint.PyTreeCheckpointer().restore(
        os.path.join(wd, 'ckpt', str(s), 'state'))
    out[s] = {jax.tree_util.keystr(p): np.asarray(x)
              for p, x in jax.tree_util.tree_leaves_with_path(t)}
    it = orbax.checkpoint.Checkpointer(orbax.checkpoint.JsonCheckpointHandler()).restore(
        os.path.join(wd, 'ckpt', str(s), 'dataset_iterator'))
    out[s]['last_seen_index'] = np.asarray(it['last_seen_index'])
  return out


def train_and_read(o, wd, log, crash, mesh):
  train(o, wd, log, crash, mesh)
  return read_states(wd)


def scal(log):
  """step -> metrics that do not depend on time."""
  out = {}
  for e in log:
    if e[0] == 'scalars':
      for k, v in e[2].items():
        if k.startswith(PREFIXES) and not any(
            t in k for t in ('secs', 'seconds', 'duration', 'flops', 'uptime')):
          out.setdefault((e[1], k), []).append(v)
  return out


def same(a, b, exact):
  if set(a) != set(b):
    return f'different leaves: {sorted(set(a) ^ set(b))}'
  for k in a:
    if a[k].shape != b[k].shape or a[k].dtype != b[k].dtype:
      return f'{k}: {a[k].dtype}{a[k].shape} vs {b[k].dtype}{b[k].shape}'
    if not (np.array_equal(a[k], b[k]) if exact else
            np.allclose(a[k], b[k], rtol=1e-4, atol=1e-5)):
      return f'{k}: {a[k].tolist()} vs {b[k].tolist()}'
  return None


def due(o, upto=None):
  n = o.get('steps', 4)
  s = {0, n} | {k for k in range(1, n + 1) if k % o.get('every', 1) == 0}
  return sorted(k for k in s if upto is None or k <= upto)


def judge(c, case, o, refrun, log, wd, states, first, exact):
  """A finished run, which started after checkpoint `first` (None: from scratch)."""
  n = o.get('steps', 4)
  rs, rm = refrun
  start = 0 if first is None else first
  steps = [e[1] for e in log if e[0] == 'scalars']
  c.require(not steps or min(steps) == start + 1,
            lambda: f'training starts at step {min(steps)}, not {start + 1}', case)
  got = scal(log)
  for (s, k), v in got.items():
    c.require(start < s <= n, f'metric {k} written for step {s}', case)
    w = rm.get((s, k))
    c.require(len(v) == 1, lambda: f'{k} of step {s} written {len(v)} times', case)
    if w is None:
      continue   # e.g. evaluations of the first step after a restart.
    c.require(v == w if exact else np.allclose(v, w, rtol=1e-4, atol=1e-5),
              lambda: f'{k} of step {s} is {v}, without the crash {w}', case)
  # Metrics are reported from the second step on (clu), evaluations on the first, last
  # and every few.
  for s in range(start + 2, n + 1):
    c.require((s, 'train/main_loss') in got, f'no training metrics of step {s}', case)
  for s in range(start + 1, n + 1):
    if s in (start + 1, n) or s % o.get('eval', 2) == 0:
      c.require((s, EVAL_KEY) in got, f'no evaluation at step {s}', case)
  have = sorted(states)
  c.require(n in have, lambda: f'no checkpoint of the last step in {have}', case)
  keep = o.get('keep_last')
  if not keep:
    c.require(have == due(o), lambda: f'checkpoints {have}, expected {due(o)}', case)
  else:
    per = o.get('keep_steps_multiple_of')
    w = {s for s in due(o) if per and s % per == 0} | set(due(o)[-keep:])
    c.require(w <= set(have) <= set(due(o)), lambda: f'checkpoints {have}, expected {w}', case)
  for s, st in states.items():
    c.require(int(st['last_seen_index']) == 8 * s, lambda: 'examples seen according to the '
              f'checkpoint of step {s}: {st["last_seen_index"]}', case)
    d = same(st, rs[s], exact)
    c.require(d is None, lambda: f'checkpoint of step {s} differs: {d}', case)
    c.transition()


def finished(c, case, res, what):
  status, out = res
  if out is not None and out[0] == 'error':
    if not out[3] and 'HarnessError' in out[1]:
      raise core.HarnessError(out[2])
    c.fail(f'{what} failed with {out[1][:300]}', dict(case, traceback=out[2]))
  c.require(out is not None, f'{what} died with status {status}', case)
  return out[1]


REF = {}


def job_crash(c, name, o, points, meshes):
  """points: one crash event per killed run, in order; then a run to the end."""
  d = os.path.join(c.scratch(), f'run_{os.getpid()}')
  case = dict(config=name, crash_at=points, meshes=meshes)
  c.context = case
  shutil.rmtree(d, ignore_errors=True)
  os.makedirs(d)
  wd = os.path.join(d, 'w')
  exact = len(set(map(tuple, meshes))) == 1
  died = 0
  try:
    for i, p in enumerate(points):
      log = os.path.join(d, f'log{i}')
      before = ckpt_steps(wd)
      status, out = child(train_and_read, o, wd, log, p, meshes[i % len(meshes)])
      if out is not None:
        finished(c, case, (status, out), f'run {i}')
        continue   # The run ended before the crash point.
      c.require(status == CRASH, f'run {i} died with status {status}', case)
      died += 1
      lg = read_log(log)
      begun = [e[2][1] for e in lg if e[0] == 'tick' and e[2][0] == 'save']
      isdue = [s for s in begun if s in due(o)]
      have = ckpt_steps(wd)
      if len(isdue) > 1 and isdue[-1] == begun[-1] and not o.get('keep_last'):
        c.require(set(isdue[:-2]) <= set(have),
                  lambda: f'checkpoints {have}, saves begun {isdue}', case)
      c.require(set(have) <= set(due(o)), lambda: f'unexpected checkpoints {have}', case)
      c.require(not before or (have and max(have) >= max(before)),
                lambda: f'checkpoints {before} before the run, {have} after', case)
      c.count('event_' + next(e[2][0] for e in reversed(lg) if e[0] == 'tick'))
    have = ckpt_steps(wd)
    log = os.path.join(d, 'log')
    states = finished(c, case, child(train_and_read, o, wd, log, None,
                                     meshes[len(points) % len(meshes)]), 'the last run')
    judge(c, case, o, REF[name], read_log(log), wd, states, max(have) if have else None,
          exact)
    c.case(repr(case))
    c.count('crashes', died)
  finally:
    shutil.rmtree(d, ignore_errors=True)


CONFIGS = {
    'every2': dict(steps=3, every=2),
    'every2b': dict(steps=5, every=2),
    'every3': dict(steps=4, every=3, adam=True),
    'rare': dict(steps=3, every=100),
    'keep1': dict(steps=5, every=1, keep_last=1),
    'keep_period': dict(steps=5, every=1, keep_last=1, keep_steps_multiple_of=2),
    'mixup': dict(steps=3, every=1, mixup=True),
    'micro': dict(steps=3, every=1, microsteps=2, prefetch=3),
    'attack': dict(steps=3, every=1, attack=True),
}


def job_order(c, prefetch):
  """Without crashes: step s uses the s-th batch; the metrics are those of its step."""
  from mc import tiny
  o = dict(steps=6, every=4, lr=0., noise=0., data='different', prefetch=prefetch, eval=3)
  d = os.path.join(c.scratch(), f'order_{prefetch}')
  os.makedirs(d)
  wd, log = os.path.join(d, 'w'), os.path.join(d, 'log')
  case = dict(config=o)
  states = finished(c, case, child(train_and_read, o, wd, log, None, (2, 2)), 'training')
  got = scal(read_log(log))
  c.require(sorted(states) == [0, 4, 6], f'checkpoints {sorted(states)}', case)
  st = states[0]
  v = next(x for k, x in st.items() if 'params' in k and x.shape == (4, 3, 5))
  w = next(x for k, x in st.items() if 'params' in k and x.shape == (5, 2))
  def loss(x, y):
    z = (x @ v.mean(0) @ w).astype(np.float64)
    lse = np.log(np.exp(z).sum(-1))
    return lse - (z * y).sum(-1), z
  for s in range(2, 7):
    l, z = loss(*batches('different')[s - 1])
    for k, want in (('main_loss', l.mean()), ('auxiliary_loss', 0.01 * (z * z).mean())):
      g = got[(s, f'train/{k}')]
      c.require(np.allclose(g, want, rtol=1e-3, atol=1e-5),
                lambda: f'{k} of step {s} is {g}, of batch {s} it is {want}', case)
    c.case(('order', prefetch, s))
  l, z = loss(*batches('same')[0])
  l = l[:6]
  hit = (z.argmax(-1) == np.arange(8) % 2)[:6]
  for s in (1, 3, 6):
    c.require(np.allclose(got[(s, 'eval/loss')], l.mean(), rtol=1e-3) and
              np.allclose(got[(s, 'eval/prec@1')], hit.mean()),
              lambda: f'evaluation of step {s}: {got[(s, "eval/loss")]}', case)
  c.require(not any(k.startswith('eval') and s not in (1, 3, 6) for s, k in got),
            'evaluation in a step where it is not due', case)


def job_seeds(c, base, name):
  """The seed decides all the draws: initial values, and new noise in each training step."""
  o = dict(base, steps=5, every=5, lr=0., noise=0.5, data='same', eval=2)
  runs = []
  for i, seed in enumerate((0, 7, 7)):
    d = os.path.join(c.scratch(), f'seeds_{name}_{i}')
    os.makedirs(d)
    case = dict(config=o, seed=seed)
    log = os.path.join(d, 'log')
    states = finished(c, case, child(train_and_read, dict(o, seed=seed), os.path.join(d, 'w'),
                                     log, None, (2, 2)), 'training')
    got = scal(read_log(log))
    params = {k: x for k, x in states[0].items() if 'params' in k}
    losses = [float(got[(s, 'train/main_loss')][0]) for s in range(2, 6)]
    evals = [got[(s, EVAL_KEY)] for s in (1, 2, 4, 5)]
    c.require(len(set(losses)) == 4, f'the noise is the same in several steps: {losses}', case)
    c.require(all(np.allclose(e, evals[0], rtol=1e-4) for e in evals),
              f'evaluations of the same parameters: {evals}', case)
    runs.append((params, losses))
    c.case(('seed', name, i))
  (p0, l0), (p1, l1), (p2, l2) = runs
  c.require(all(np.array_equal(p1[k], p2[k]) for k in p1) and np.allclose(l1, l2, rtol=1e-5),
            'two runs with the same seed differ', case)
  for k in p0:
    c.require(np.std(p0[k]) == 0 or not np.allclose(p0[k], p1[k]),
              f'initial {k} is the same with different seeds', case)
  c.require(not np.allclose(l0, l1), 'losses are the same with different seeds', case)


def write_init(path):
  mesh = jax.sharding.Mesh(np.asarray(jax.devices()).reshape(4), ('x',))
  tree = {'params': {'v': np.arange(60, dtype=np.float32).reshape(4, 3, 5) / 50,
                     'other': np.ones(3, np.float32)}}
  tree = jax.tree_util.tree_map(lambda x: jax.device_put(x, jax.sharding.NamedSharding(
      mesh, jax.sharding.PartitionSpec())), tree)
  vmoe_checkpoints.save_checkpoint_partitioned(prefix=path, tree=tree).wait()


def job_init(c, crash):
  """Fine-tuning: initialized from a checkpoint once, not again on restart."""
  d = os.path.join(c.scratch(), f'init_{crash}')
  os.makedirs(d)
  prefix = os.path.join(d, 'pre')
  case = dict(config='initialization', crash_at=crash)
  c.context = case
  finished(c, case, child(write_init, prefix), 'writing the checkpoint')
  o = dict(steps=3, every=1, init=prefix)
  base = dict(steps=3, every=1)
  refs = finished(c, case, child(train_and_read, o, os.path.join(d, 'r'),
                                 os.path.join(d, 'rl'), None, (2, 2)), 'training')
  scratch = REF['plain'][0]
  for k, x in refs[0].items():
    if k == 'last_seen_index':
      continue
    if 'params' in k and x.shape == (4, 3, 5):
      w = np.arange(60, dtype=np.float32).reshape(4, 3, 5) / 50
      c.require(np.array_equal(x, w), 'the parameters do not come from the checkpoint', case)
    else:
      c.require(np.array_equal(x, scratch[0][k]),
                lambda: f'{k} is not as created from scratch: {x.tolist()}', case)
  wd = os.path.join(d, 'w')
  status, out = child(train_and_read, o, wd, os.path.join(d, 'l'), crash, (2, 2))
  if out is None:
    c.require(status == CRASH, f'died with status {status}', case)
  else:
    finished(c, case, (status, out), 'training')
  have = ckpt_steps(wd)
  log = os.path.join(d, 'l2')
  states = finished(c, case, child(train_and_read, o, wd, log, None, (2, 2)), 'the restart')
  judge(c, case, base, (refs, scal(read_log(os.path.join(d, 'rl')))), read_log(log), wd,
        states, max(have) if have else None, True)
  c.case(repr(case))
  shutil.rmtree(d, ignore_errors=True)


def job_reuse(c, mesh_shape, part):
  """create_or_reuse_train_state: every subset of given arrays."""
  mesh = jax.sharding.Mesh(np.asarray(jax.devices()).reshape(mesh_shape),
                           ('expert', 'replica'))
  P, NS = jax.sharding.PartitionSpec, jax.sharding.NamedSharding
  def init():
    return train_state.TrainState.create(
        apply_fn=None, tx=optax.sgd(0.1, momentum=0.9),
        params={'a': jnp.arange(8.).reshape(4, 2), 'b': jnp.ones(4) * 3},
        rngs={'r': jax.random.PRNGKey(1)})
  ref = init()
  leaves, treedef = jax.tree_util.tree_flatten(ref)
  specs = [P('expert') if np.ndim(x) and np.shape(x)[0] == 4 else P() for x in leaves]
  for mask in list(itertools.product((False, True), repeat=len(leaves)))[part::8]:
    for ctx in (False, True):
      if ctx and sum(mask) not in (0, 1, len(mask)):
        continue
      case = dict(given=mask, mesh=mesh_shape, context=ctx)
      c.context = case
      ins = []
      for x, m, s in zip(leaves, mask, specs):
        x = jnp.asarray(x)
        sh = NS(mesh, s)
        ins.append(jax.device_put((x + 7).astype(x.dtype), sh) if m else
                   jax.ShapeDtypeStruct(x.shape, x.dtype, sharding=sh))
      state = jax.tree_util.tree_unflatten(treedef, ins)
      if ctx:
        with mesh:
          out = trainer.create_or_reuse_train_state(train_state=state, initialize_fn=init)
      else:
        out = trainer.create_or_reuse_train_state(train_state=state, initialize_fn=init,
                                                  mesh=mesh)
      got, td = jax.tree_util.tree_flatten(out)
      c.require(td == treedef or len(got) == len(leaves), f'structure {td}', case)
      for g, x, m, s in zip(got, leaves, mask, specs, strict=True):
        w = np.asarray(x) + (7 if m else 0)
        c.require(isinstance(g, jax.Array) and np.array_equal(np.asarray(g), w.astype(g.dtype)),
                  lambda: f'{g} instead of {w}', case)
        c.require(g.sharding.is_equivalent_to(NS(mesh, s), g.ndim),
                  lambda: f'sharding {g.sharding}', case)
      c.case(repr(case))


def run_job(c, job):
  globals()['job_' + job[0]](c, *job[1])


def count_events(o, d):
  log = os.path.join(d, 'log')
  train_and_read(o, os.path.join(d, 'w'), log, -1, (2, 2))
  return [e[2] for e in read_log(log) if e[0] == 'tick']


def reference_run(c, name, o):
  """Uninterrupted, saving every step."""
  d = os.path.join(c.scratch(), f'ref_{name}')
  os.makedirs(d)
  log = os.path.join(d, 'log')
  ro = dict(o, every=1, eval=1)
  for k in ('keep_last', 'keep_steps_multiple_of'):
    ro.pop(k, None)
  states = finished(c, dict(config=name), child(
      train_and_read, ro, os.path.join(d, 'w'), log, None, (2, 2)), 'uninterrupted training')
  ev = finished(c, dict(config=name), child(
      count_events, o, os.path.join(d)+'_ev'), 'uninterrupted training')
  return states, scal(read_log(log)), ev


def job_ref(c, name, path):
  os.makedirs(os.path.join(c.scratch(), f'ref_{name}_ev'))
  with open(path, 'wb') as fp:
    pickle.dump(reference_run(c, name, CONFIGS[name]), fp)


def run(c):
  names = c.q(['every2', 'keep1', 'micro'], list(CONFIGS))
  CONFIGS['plain'] = dict(steps=3, every=1)
  paths = {n: os.path.join(c.scratch(), f'ref_{n}.pkl') for n in names + ['plain']}
  c.parallel([('ref', (n, p)) for n, p in paths.items()], run_job)
  events = {}
  for n, p in paths.items():
    with open(p, 'rb') as fp:
      states, metrics, ev = pickle.load(fp)
    REF[n] = (states, metrics)
    events[n] = ev
    c.count(f'events_{n}', len(ev))
  # (Its own processes: those that start trainings must not use JAX themselves.)
  c.parallel([('reuse', (m, k)) for m in c.q([(2, 2)], [(2, 2), (4, 1)])
              for k in range(8)], run_job)
  jobs = [('order', (p,)) for p in c.q((2,), (1, 2, 4))]
  jobs += [('seeds', ({}, 'plain'))]
  jobs += c.q([], [('seeds', (dict(microsteps=2), 'micro')), ('seeds', (dict(mixup=True), 'mixup'))])
  jobs += [('init', (k,)) for k in c.q((8,), range(0, 40, 2))]
  for n in names:
    ne = len(events[n])
    kinds = events[n]
    sel = range(ne)
    if not c.thorough:
      # Half of the events and all the commits of one configuration; some of others.
      if n != 'every2':
        sel = [k for k in sel if kinds[k][0] in ('save', 'save_returned') and k % 3 == 0]
      else:
        sel = [k for k in sel if k % 2 == 0 or kinds[k][0] not in ('write', 'fs') or
               kinds[k][:2] == ('fs', 'rename')]
    jobs += [('crash', (n, CONFIGS[n], [k], [(2, 2)])) for k in sel]
    # Two crashes, and restarts on other meshes.
    if n == 'every2' or c.thorough:
      st = c.q(20, 4)
      jobs += [('crash', (n, CONFIGS[n], [a, b], [(2, 2)]))
               for a in range(3, ne, st) for b in range(2, ne, st)]
      jobs += [('crash', (n, CONFIGS[n], [a], [m1, m2]))
               for a in range(6, ne, c.q(30, 8))
               for m1, m2 in c.q([((4, 1), (2, 2)), ((1, 4), (4, 1))],
                                 itertools.permutations([(4, 1), (2, 2), (1, 4)], 2))]
  c.parallel(jobs, run_job)
