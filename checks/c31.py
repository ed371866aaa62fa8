"""C31: progress reports and summaries give the values of the step and arrays they name."""
import itertools
import os
import re
import types

os.environ['XLA_FLAGS'] = '--xla_force_host_platform_device_count=4'

import numpy as np

from mc import core
from mc import stubs
stubs.install()

import flax
import jax
import jax.numpy as jnp
import optax
from vmoe.train import periodic_actions
from vmoe.train import train_state as train_state_lib
from vmoe.train import trainer
from vmoe.train import tree_summarizer

LEVEL = 'exploration'
RULE = ('a case = one history of steps (and times) of a progress report with one configuration, '
        'or one (tree, list of rules, limit) of the summaries, or one cost analysis; distinct = '
        'the whole tuple')
ASSUMPTIONS = ['times and processes are given by the check (time argument, patched '
               'jax.process_index)', 'the rate of steps per second of CLU is not checked']


class Writer:

  def __init__(self):
    self.out = []

  def write_scalars(self, step, scalars):
    self.out.append((step, dict(scalars)))


# ---- progress ---------------------------------------------------------------
OWN = re.compile(r'steps_per_sec|uptime|uptime_.*|host_memory_mb')


def metrics_of(step):
  return {'flops': 10 * step, 'train/loss': jnp.float32(step + 0.5),
          'train/a': {'b': np.float32(-step), 'c': {'d': step ** 2}}, 'train/n': np.int32(step)}


def flat_metrics(step):
  return {'flops': 10. * step, 'train/loss': step + 0.5, 'train/a/b': -1. * step,
          'train/a/c/d': 1. * step ** 2, 'train/n': 1. * step}


def job_progress(c, every, process):
  real = jax.process_index
  try:
    for me in (0, 1, 2):
      jax.process_index = lambda *a, me=me: me
      for first, n in itertools.product((1, 2, 3, 4), (1, 2, 3, 5)):
        last = first + n - 1
        for extra in itertools.chain([None], itertools.combinations(range(first, last + 1), 1),
                                     [tuple(range(first, last + 1))]):
          for secs, dts in [(None, (1,))] + [(2.5, d) for d in itertools.product(
              (1, 3), repeat=c.q(2, 3))]:
            for with_metrics in ((True,), (False,), (True, False)):
              if secs and with_metrics != (True,):
                continue
              history(c, dict(me=me, process=process, every=every, first=first, last=last,
                              extra=extra, secs=secs, dts=dts, metrics=with_metrics))
  finally:
    jax.process_index = real


def history(c, k):
  c.context = k
  w = Writer()
  kw = {}
  if k['extra'] is not None:
    kw['on_steps'] = k['extra']
  if k['process'] != 'default':
    kw['process_index'] = k['process']
  if k['every']:
    kw['every_steps'] = k['every']
  if k['secs']:
    kw['every_secs'] = k['secs']
  hook = trainer.create_progress_hook(writer=w, first_step=k['first'], train_steps=k['last'], **kw)
  mine = {'default': 0, None: k['me']}.get(k['process'], k['process']) == k['me']
  t = 100.
  prev = None
  for i, step in enumerate(range(k['first'], k['last'] + 1)):
    t += k['dts'][i % len(k['dts'])]
    del w.out[:]
    given = k['metrics'][i % len(k['metrics'])]
    got = hook(step, t, **(dict(scalar_metrics=metrics_of(step)) if given else {}))
    if prev is None:
      # The first call starts the clock.
      want = False
      prev = t
    else:
      want = mine and bool((k['every'] and step % k['every'] == 0) or step in (k['extra'] or ()) or
                           step == k['last'] or (k['secs'] and t - prev > k['secs']))
    if want:
      prev = t
    case = {**k, 'step': step}
    c.require(bool(got) == want, f'reports {got}, expected {want}', case)
    seen = {}
    for s, x in w.out:
      c.require(s == step, f'values of step {step} reported for {s}', case)
      for name, v in x.items():
        if not OWN.fullmatch(name):
          c.require(name not in seen, f'{name} reported twice', case)
          seen[name] = v
    expected = flat_metrics(step) if want and given else {}
    c.require(seen == expected and all(isinstance(v, float) for v in seen.values()),
              f'reported {seen}, expected {expected}', case)
    c.transition()
  c.case(repr(k))


def job_single(c):
  """Actions of a single process."""
  real = jax.process_index
  try:
    for me, target in itertools.product(range(3), (None, 0, 1, 2)):
      jax.process_index = lambda *a, me=me: me
      for answers in itertools.product((False, True), repeat=3):
        calls = []
        it = iter(answers)
        def action(*a, **kw):
          calls.append((a, kw))
          return next(it)  # pylint: disable=cell-var-from-loop
        s = periodic_actions.SingleProcessPeriodicAction(
            periodic_action=action, **({} if target is None else dict(process_index=target)))
        mine = me == (target or 0)
        got = [s(1, t=3.), s(2), s(step=3)]
        c.require([bool(g) for g in got] == [a and mine for a in answers], f'{got}',
                  dict(me=me, target=target))
        c.require(calls == ([((1,), {'t': 3.}), ((2,), {}), ((), {'step': 3})] if mine else []),
                  f'{calls}', dict(me=me, target=target))
        c.case(('single', me, target, answers))
  finally:
    jax.process_index = real


# ---- summaries --------------------------------------------------------------
OPS = {'mean': np.mean, 'std': np.std, 'sum': np.sum, 'min': np.min, 'max': np.max,
       'norm': lambda x, axis: np.sqrt(np.square(x).sum(axis))}
TREES = {
    'scalar': {'a': np.float32(3.5)},
    'flat': {'a': np.arange(3.) - 1, 'b': np.arange(6.).reshape(2, 3) ** 2},
    'nested': {'x': {'a': np.arange(4.).reshape(1, 4), 'b': np.float32(-2)},
               'y': {'a': np.arange(12.).reshape(2, 3, 2) - 5}},
}


def ref_summaries(tree, rules, limit):
  """[(name, value)] or None if a limit is exceeded."""
  out = []
  flat = flax.traverse_util.flatten_dict(tree, sep='/')
  for key, x in flat.items():
    for rule in rules:
      pattern, *transforms = (rule,) if isinstance(rule, str) else rule
      if not re.search(pattern, key):
        continue
      v, suffix = np.asarray(x, np.float64), ''
      for t in transforms:
        op, axes = (t, None) if isinstance(t, str) else (t[0], t[1])
        axes = (axes,) if isinstance(axes, int) else None if axes is None else tuple(axes)
        every = tuple(range(v.ndim)) if axes is None else axes
        shape = [1 if i in [a % v.ndim for a in every] else s for i, s in enumerate(v.shape)]
        v = OPS[op](v, axis=every).reshape(shape) if v.ndim else OPS[op](v, axis=None)
        suffix += f'_{op}' + (f'{axes}' if axes is not None else '')
      if v.size > limit:
        return None
      for idx in itertools.product(*map(range, v.shape)):
        s = ','.join(str(i) for i, n in zip(idx, v.shape) if n > 1)
        out.append((key + suffix + (f'[{s}]' if s else ''), v[idx]))
  return out


def rules_of(c, tree):
  nd = max(np.ndim(x) for x in jax.tree_util.tree_leaves(tree))
  nmin = min(np.ndim(x) for x in jax.tree_util.tree_leaves(tree))
  axes = [a for r in range(1, nmin + 1) for a in itertools.combinations(range(nmin), r)]
  axes += [0, -1] if nmin else []
  one = [()] + [(op,) for op in OPS] + [((op, a),) for op in OPS for a in axes]
  two = [((o1, a), o2) for o1, o2 in itertools.product(OPS, repeat=2) for a in axes[:2]]
  two += [(o1, o2) for o1, o2 in (('sum', 'max'), ('norm', 'sum'))]
  for t in one + two:
    for p in ('.*', 'a', '^a', 'a$', 'b$', 'x/', 'none'):
      yield [p if not t else (p,) + t]
  for t1, t2 in itertools.product([()] + [(op,) for op in OPS], repeat=2):
    for p1, p2 in (('a', 'b'), ('a', 'a'), ('.*', 'a'), ('none', '.*')):
      yield [p1 if not t1 else (p1,) + t1, (p2,) + t2]
  # Transformations on axes of arrays of enough dimensions.
  if nd > nmin:
    for op in OPS:
      yield [('y/a', (op, (0, 2)))]
      yield [('y/a', (op, 1), (op, 0))]


def job_summaries(c, name, jit):
  tree = TREES[name]
  for rules in rules_of(c, tree):
    for limit in (None, 1, 2, 6, 100):
      if jit and limit != 100:
        continue
      c.context = case = dict(tree=name, rules=repr(rules), limit=limit, jit=jit)
      want = ref_summaries(tree, rules, 1 if limit is None else limit)
      s = tree_summarizer.TreeSummarizer(
          rules=rules, **({} if limit is None else dict(max_summary_values=limit)))
      try:
        if jit:
          # Values are computed under jit; names are known beforehand.
          names = []

          def fn(t):
            out = list(s(t))
            names[:] = [k for k, _ in out]  # pylint: disable=cell-var-from-loop
            return [v for _, v in out]
          vals = jax.jit(fn)(tree)
          got = list(zip(names, vals))
        else:
          got = list(s(jax.tree_util.tree_map(jnp.asarray, tree)))
      except ValueError:
        got = None
      if want is None or got is None:
        c.require((want is None) == (got is None), f'{got}, expected {want}', case)
      else:
        got, want = (sorted(o, key=lambda kv: kv[0]) for o in (got, want))
        c.require([k for k, _ in got] == [k for k, _ in want], lambda: f'names '
                  f'{[k for k, _ in got]}, expected {[k for k, _ in want]}', case)
        c.require(all(np.shape(v) == () for _, v in got) and
                  np.allclose([float(v) for _, v in got], [v for _, v in want], atol=1e-5),
                  f'{got}, expected {want}', case)
      c.case((name, repr(rules), limit, jit))


def job_steps(c):
  """Summaries of training steps: arrays of the new state, and the gradients."""
  tx = optax.sgd(0.5, momentum=0.9)

  def apply_fn(variables, x, rngs):
    p = variables['params']
    return x @ p['l']['w'] + p['b'], {}

  loss = lambda z, y: jnp.sum(jnp.square(z - y), -1)
  x = np.array([[1., 2.], [-1., 3.], [0.5, 0.]], np.float32)
  y = np.array([[1.], [0.], [-2.]], np.float32)
  st = train_state_lib.TrainState.create(
      apply_fn=apply_fn, params={'l': {'w': jnp.array([[.5], [-.25]])}, 'b': jnp.array([.125])},
      tx=tx, rngs={})
  base = {'main_loss', 'total_loss', 'global_norm/grads', 'global_norm/updates',
          'global_norm/params'}
  for config in (None, {}, [], ['params/b'], ('params/b', ('params_grads/.*', 'norm')),
                 {'rules': ['params/l/w'], 'max_summary_values': 2},
                 {'rules': [('trace', ('sum', (0,)))]}, ['^step$'], ['nothing']):
    s = st
    summ = trainer.create_tree_summarizer(config)
    c.require((summ is None) == (not config), f'{summ}', dict(config=repr(config)))
    step = jax.jit(lambda s, x, y, summ=summ: trainer.train_step(s, x, y, loss, summarizer=summ))
    w, b = np.array([[.5], [-.25]]), np.array([.125])
    tw, tb = 0 * w, 0 * b
    for i in range(3):
      c.context = case = dict(config=repr(config), step=i + 1)
      z = x @ w + b
      gw, gb = x.T @ (2 * (z - y)) / 3, (2 * (z - y)).mean(0)
      tw, tb = gw + .9 * tw, gb + .9 * tb
      w, b = w - .5 * tw, b - .5 * tb
      s, m = step(s, x, y)
      m = flax.traverse_util.flatten_dict(dict(m), sep='/')
      extra = {k: float(v) for k, v in m.items() if k not in base and not k.startswith('global_norm')}
      want = {}
      if config:
        rules = config['rules'] if isinstance(config, dict) else config
        if 'params/b' in rules:
          want['params/b'] = b[0]
        if len(rules) > 1:
          want.update({'params_grads/l/w_norm': np.sqrt((gw ** 2).sum()),
                       'params_grads/b_norm': np.sqrt((gb ** 2).sum())})
        if 'params/l/w' in rules:
          want.update({'params/l/w[0]': w[0, 0], 'params/l/w[1]': w[1, 0]})
        if rules[0][0] == 'trace':
          t = {k: v for k, v in extra.items() if 'trace' in k}
          c.require(len(t) == 2 and np.allclose(sorted(t.values()), sorted((tw.sum(), tb.sum())),
                                                atol=1e-4), f'momentum: {t}', case)
          want = t
        if rules[0] == '^step$':
          want['step'] = i + 1
      c.require(set(extra) == set(want) and all(np.isclose(extra[k], want[k], atol=1e-4)
                                                for k in want), f'{extra}, expected {want}', case)
      c.require(np.isclose(float(m['main_loss']), np.square(z - y).sum(-1).mean(), rtol=1e-4),
                'loss', case)
      c.transition()
      c.case(('steps', repr(config), i))


# ---- costs ------------------------------------------------------------------
def job_costs(c):
  values = ('missing', -1., 0., 2., 1e12, None)
  real = jax.device_count
  for f, s, devices in itertools.product(values, values, (4, 8)):  # 4 of 8 in this process
    jax.device_count = lambda *a, n=devices: n
    d = {k: v for k, v in (('flops', f), ('optimal_seconds', s)) if v != 'missing'}
    fn = trainer.make_train_cost_fn(types.SimpleNamespace(cost_analysis=lambda d=d: d))
    for step in (0, 1, 2, 7, 10 ** 6):
      ok = lambda v: v not in ('missing', None) and v > 0
      want = {}
      if ok(f):
        want['flops'] = f * step * devices
      if ok(s):
        want['device_seconds'] = s * step * devices
      got = fn(step)
      c.require(got == want, f'{got}, expected {want}', dict(flops=f, seconds=s, step=step, devices=devices))
      c.case(('cost', f, s, step, devices))
  jax.device_count = real
  # Of a real compiled function.
  x = jnp.ones((8, 8))
  comp = jax.jit(lambda a: a @ a).lower(x).compile()
  fn = trainer.make_train_cost_fn(comp)
  flops = comp.cost_analysis().get('flops')
  c.require(fn(3).get('flops') == (None if not flops or flops <= 0 else 12 * flops), f'{fn(3)}', {})


def run_job(c, j):
  globals()['job_' + j[0]](c, *j[1])


def run(c):
  jobs = [('summaries', (n, jit)) for n in reversed(TREES) for jit in (False, True)]
  jobs += [('progress', (e, p)) for e in (None, 1, 2, 3) for p in ('default', 0, 1, None)]
  jobs += [('steps', ()), ('single', ()), ('costs', ())]
  c.parallel(jobs, run_job)
