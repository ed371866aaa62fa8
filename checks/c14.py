"""C14: parameter updates are those of the configured optimizer, in any history."""
import itertools
import math
import re

import numpy as np

from mc import core

import flax
import jax
import jax.numpy as jnp
import optax

LEVEL = 'model_checking'
RULE = ('state = (configuration, key order, history of gradients so far); '
        'transition = one update of the real create_optimizer(...) followed by '
        'apply_updates, compared leaf by leaf with a float64 model of the '
        'optimizer (scaling, clipping, SGD/momentum/Adam/factored RMS, decay, '
        'learning rate of that step, freezing); trace = one maximal history')
ASSUMPTIONS = ['parameter trees of at most 4 leaves; gradients from a finite '
               'alphabet (zero, small, large, mixed signs); histories of at most '
               '4 updates (6 thorough); float32 at relative tolerance 2e-5']

# Deliberately not in alphabetical order, with one name a substring of another.
LEAVES = {
    'head/kernel': np.array([[0.5, -1.0], [2.0, 0.25]]),
    'enc/moe/mlp/kernel': np.array([[-0.75, 1.5, 0.125], [3.0, -2.0, 1.0]]),
    'enc/bias': np.array([1.0, -0.5]),
    'enc/moe/router/bias': np.array([-4.0]),
}
G = [
    {k: (np.arange(v.size).reshape(v.shape) - 1.0) * 0.5 + i
     for i, (k, v) in enumerate(LEAVES.items())},
    {k: -3.0 * (i + 1) * np.ones(v.shape) + v * 0.25
     for i, (k, v) in enumerate(LEAVES.items())},
    {k: np.zeros(v.shape) for k, v in LEAVES.items()},
    {k: 0.01 * (-1) ** i * (1 + np.arange(v.size).reshape(v.shape))
     for i, (k, v) in enumerate(LEAVES.items())},
]


def nest(flat, order, frozen):
  d = {}
  for k in order:
    node = d
    *path, last = k.split('/')
    for p in path:
      node = node.setdefault(p, {})
    node[last] = jnp.asarray(flat[k], jnp.float32)
  return flax.core.freeze(d) if frozen else d


def flat(tree):
  out = {}
  def rec(t, pre):
    if hasattr(t, 'items'):
      for k, v in t.items():
        rec(v, pre + (k,))
    else:
      out['/'.join(pre)] = np.asarray(t, np.float64)
  rec(tree, ())
  return out


# ---- the model ---------------------------------------------------------------
def first(pairs, key, default):
  for pat, val in pairs or ():
    if re.search(pat, key):
      return val
  return default


def is_frozen(cfg, key):
  fp, tp = cfg.get('frozen_pattern'), cfg.get('trainable_pattern')
  if fp:
    return any(re.search(p, key) for p in ([fp] if isinstance(fp, str) else fp))
  if tp:
    return not any(re.search(p, key) for p in ([tp] if isinstance(tp, str) else tp))
  return False


def lr_at(lr, n):
  if not isinstance(lr, dict):
    return float(lr)
  if lr['schedule'] == 'constant':
    return lr['value']
  w, d, p, e = lr['warmup_steps'], lr['decay_steps'], lr['peak_value'], lr['end_value']
  if n < w:
    return p * n / w
  return e + (p - e) * max(0.0, 1 - (n - w) / (d - w))


def model_step(cfg, st, params, grads):
  """One update in float64; returns (state, params)."""
  n = st.get('n', 0)
  g = {k: v * first(cfg.get('gradient_scale'), k, 1.0) for k, v in grads.items()}
  clip = cfg.get('gradient_clip') or {}
  if clip.get('global_norm'):
    norm = math.sqrt(sum((v ** 2).sum() for v in g.values()))
    if norm > clip['global_norm']:
      g = {k: v / norm * clip['global_norm'] for k, v in g.items()}
  elif clip.get('absolute_value'):
    a = clip['absolute_value']
    g = {k: np.clip(v, -a, a) for k, v in g.items()}
  st = {**st, 'n': n + 1}
  name = cfg['name']
  if name == 'sgd':
    m = cfg.get('momentum')
    if m:
      tr = {k: v + m * st.get('m', {}).get(k, 0) for k, v in g.items()}
      st['m'] = tr
      g = ({k: g[k] + m * tr[k] for k in g} if cfg.get('nesterov') else dict(tr))
  elif name == 'adam':
    b1, b2, eps = cfg.get('b1', 0.9), cfg.get('b2', 0.999), cfg.get('eps', 1e-8)
    mu = {k: b1 * st.get('m', {}).get(k, 0) + (1 - b1) * v for k, v in g.items()}
    nu = {k: b2 * st.get('v', {}).get(k, 0) + (1 - b2) * v ** 2 for k, v in g.items()}
    st['m'], st['v'] = mu, nu
    g = {k: (mu[k] / (1 - b1 ** (n + 1))) /
            (np.sqrt(nu[k] / (1 - b2 ** (n + 1))) + eps) for k in g}
  else:
    mom = cfg.get('momentum', 0.9)
    r = min(cfg.get('decay_rate_max', 0.999),
            1 - (n - cfg.get('decay_offset', 0) + 1.0) ** -cfg.get('decay_rate', 0.8))
    eps, mind = cfg.get('eps', 1e-30), cfg.get('min_dim_size_to_factor', 32)
    v_old = st.get('v', {})
    v_new, out = {}, {}
    for k, x in g.items():
      sq = x ** 2 + eps
      dims = np.argsort(x.shape, kind='stable') if x.ndim >= 2 else None
      if dims is not None and x.shape[dims[-2]] >= mind:
        d1, d0 = int(dims[-2]), int(dims[-1])
        row, col = v_old.get(k, (0, 0))
        row = r * row + (1 - r) * sq.mean(axis=d0, keepdims=True)
        col = r * col + (1 - r) * sq.mean(axis=d1, keepdims=True)
        v_new[k] = (row, col)
        out[k] = x / np.sqrt(row / row.mean(axis=d1, keepdims=True)) / np.sqrt(col)
      else:
        v_new[k] = r * v_old.get(k, 0) + (1 - r) * sq
        out[k] = x / np.sqrt(v_new[k])
    st['v'] = v_new
    g = out
    if mom:
      st['m'] = {k: mom * st.get('m', {}).get(k, 0) + (1 - mom) * v for k, v in g.items()}
      g = st['m']
  wd = cfg.get('weight_decay') or 0.0
  lr = lr_at(cfg['learning_rate'], n)
  new = {}
  for k, p in params.items():
    w = wd if isinstance(wd, float) else first(wd, k, 0.0)
    new[k] = p if is_frozen(cfg, k) else p - lr * (g[k] + w * p)
  return st, new


# ---- exploration ----------------------------------------------------------------
def explore(c, cfg, order, frozen_dict, depth, alphabet):
  from vmoe.train import optimizer
  kw = {k: v for k, v in cfg.items() if k != 'total_steps'}
  tx = optimizer.create_optimizer(**kw, total_steps=cfg.get('total_steps', 8))
  params = nest(LEAVES, order, frozen_dict)
  # 1 - b2 has few digits in float32 when b2 is close to one.
  atol = 2e-4 if cfg['name'] == 'adam' and 'b2' not in cfg else 1e-5
  tag = (repr(sorted(cfg.items())), order, frozen_dict)
  c.context = {'config': cfg, 'order': order}

  def rec(hist, params, state, mparams, mstate):
    c.state((tag, hist))
    if len(hist) == depth:
      c.trace()
      return
    for gi in alphabet:
      info = {'config': cfg, 'order': order, 'history': hist + (gi,)}
      c.context = info
      grads = nest(G[gi], order, frozen_dict)
      updates, st2 = tx.update(grads, state, params)
      p2 = optax.apply_updates(params, updates)
      c.transition()
      ms2, mp2 = model_step(cfg, mstate, mparams, G[gi])
      got = flat(p2)
      c.require(set(got) == set(mp2), 'the parameter tree changed its structure',
                lambda: {**info, 'got': sorted(got)})
      c.require(jax.tree_util.tree_structure(p2) == jax.tree_util.tree_structure(params),
                'the type of the parameter tree changed', info)
      old = flat(params)
      for k in mp2:
        if is_frozen(cfg, k):
          c.require(np.array_equal(got[k], old[k]), f'frozen parameter {k} changed',
                    lambda: {**info, 'got': got[k], 'want': old[k]})
        else:
          # Errors are relative to the size of the update and of the value.
          c.require(np.allclose(got[k], mp2[k], rtol=2e-5, atol=atol),
                    f'parameter {k} was not updated as configured',
                    lambda: {**info, 'got': got[k], 'want': mp2[k]})
          c.require(got[k].shape == old[k].shape, f'shape of {k} changed', info)
      # The learning rate in use is recorded in the state.
      lr = [np.asarray(v) for p, v in jax.tree_util.tree_flatten_with_path(st2)[0]
            if 'learning_rate' in jax.tree_util.keystr(p)]
      c.require(any(abs(float(x) - lr_at(cfg['learning_rate'], len(hist))) < 1e-6
                    for x in lr if x.size == 1),
                'the optimizer state does not record the learning rate used',
                lambda: {**info, 'got': lr})
      rec(hist + (gi,), p2, st2, mp2, ms2)

  rec((), params, tx.init(params), flat(params), {})


SCALES = [None, [], [('moe', 8.0)], [('moe/mlp', 4.0), ('moe', 0.5)],
          [('^head', 0.0), ('bias', 3.0), ('kernel', 2.0)],
          [('nomatch', 7.0)]]
CLIPS = [None, {}, {'global_norm': 1.5}, {'global_norm': 1e3},
         {'absolute_value': 0.75}, {'absolute_value': 50.0}]
DECAYS = [None, 0.0, 0.125, [], [('head/kernel', 0.5), ('kernel', 0.25)],
          [('bias$', 0.0), ('.', 0.1)], [('moe/.*/kernel', 2.0)]]
FREEZE = [{}, {'frozen_pattern': 'moe'}, {'frozen_pattern': ['head', 'bias$']},
          {'trainable_pattern': '^head'}, {'trainable_pattern': ['router', 'mlp/k']},
          {'trainable_pattern': 'bias|head'}, {'frozen_pattern': 'nomatch'},
          {'trainable_pattern': 'nomatch', 'frozen_pattern': None},
          {'frozen_pattern': '.*'}]
OPTS = [{'name': 'sgd'}, {'name': 'sgd', 'momentum': 0.5},
        {'name': 'sgd', 'momentum': 0.9, 'nesterov': True},
        {'name': 'adam', 'eps': 1e-3}, {'name': 'adam', 'b1': 0.5, 'b2': 0.75, 'eps': 0.1},
        {'name': 'big_vision_adafactor', 'eps': 1e-3},
        {'name': 'big_vision_adafactor', 'min_dim_size_to_factor': 2, 'eps': 1e-2,
         'decay_rate': 0.5, 'momentum': 0.25},
        {'name': 'big_vision_adafactor', 'min_dim_size_to_factor': 2,
         'decay_rate_max': 0.25, 'momentum': None, 'eps': 1e-2},
        {'name': 'big_vision_adafactor', 'decay_offset': -3, 'eps': 1e-2}]
LRS = [0.5, 1, {'schedule': 'constant', 'value': 0.25},
       {'schedule': 'warmup_linear_decay', 'peak_value': 0.5, 'end_value': 0.125,
        'warmup_steps': 2, 'decay_steps': 4}]
ORDERS = list(itertools.permutations(LEAVES))


def job(c, j):
  kind, arg = j
  if kind == 'options':
    opt, scale = arg
    # Full product of the option lists; one three-step history each.
    for ci, di, fi in itertools.product(range(len(CLIPS)), range(len(DECAYS)),
                                        range(len(FREEZE))):
      cfg = dict(opt, learning_rate=0.5, weight_decay=DECAYS[di], **FREEZE[fi])
      if CLIPS[ci] is not None:
        cfg['gradient_clip'] = CLIPS[ci]
      if scale is not None:
        cfg['gradient_scale'] = scale
      explore(c, cfg, ORDERS[(ci + di + fi) % len(ORDERS)], bool(fi % 2),
              2, [1] if not c.thorough else [0, 1])
  elif kind == 'history':
    opt, lr = arg
    for extra in [{}, {'weight_decay': [('kernel', 0.1)], 'frozen_pattern': 'router',
                       'gradient_clip': {'global_norm': 4.0},
                       'gradient_scale': [('mlp', 2.0)]}]:
      explore(c, dict(opt, learning_rate=lr, **extra), ORDERS[7], False,
              c.q(3, 5), [0, 1, 2, 3] if c.thorough or not extra else [0, 1, 2])
  elif kind == 'orders':
    for o, fd in itertools.product(ORDERS, [False, True]):
      explore(c, {'name': 'sgd', 'momentum': 0.5, 'learning_rate': 1.0,
                  'weight_decay': [('bias', 0.5), ('.', 0.25)],
                  'gradient_scale': [('head', 2.0)],
                  'frozen_pattern': 'router'}, o, fd, 2, [0, 1])
  elif kind == 'errors':
    from vmoe.train import optimizer
    def raises(what, **kw):
      try:
        optimizer.create_optimizer(**{'name': 'sgd', 'learning_rate': 0.1,
                                      'total_steps': 4, **kw})
      except ValueError:
        c.case()
      else:
        c.fail(what, kw)
    raises('unknown optimizer accepted', name='sdg')
    raises('both freeze patterns accepted', frozen_pattern='a', trainable_pattern='b')
    raises('both freeze patterns accepted', frozen_pattern=['a'], trainable_pattern=['b'])
    raises('both clippings accepted',
           gradient_clip={'global_norm': 1.0, 'absolute_value': 1.0})
    raises('unknown schedule accepted', learning_rate={'schedule': 'foo', 'value': 1.0})


def run(c):
  jobs = [('history', (o, l)) for l in LRS[3:] + LRS[:3] for o in OPTS]
  jobs += [('options', (o, s)) for o in (OPTS if c.thorough else [OPTS[1], OPTS[3]])
           for s in SCALES]
  jobs += [('orders', None), ('errors', None)]
  c.parallel(jobs, job)
