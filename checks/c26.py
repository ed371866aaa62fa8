"""C26: V-MoE models compute the documented function of their parameters."""
import itertools

import numpy as np

from mc import core
from mc import stubs
stubs.install()
from mc.vitref import Tie, reference, shake

import flax
import jax
import jax.numpy as jnp
from vmoe.nn import vit_moe
from vmoe.nn import vit_moe_ensemble

LEVEL = 'exploration'
RULE = ('a case = one evaluation of the real model on a batch, compared with a float64 '
        'reference evaluation of the same parameters; distinct = configuration of the model')
ASSUMPTIONS = ['up to 3 blocks, 4 experts, hidden size 8, images up to 4x6, batches of up to 4',
               'vit_jax is replaced by equivalent layers (mc/stubs.py)',
               'cases where two gates are closer than 2e-5 in the float64 reference are skipped']


def check_params(c, p, cfg, members, case):
  """Blocks with an MoE are those asked for; initial values of head and experts."""
  enc = cfg['encoder']
  moe_opt = enc.get('moe') or {}
  for i in range(enc['num_layers']):
    q = p['Encoder'][f'encoderblock_{i}']
    want = 'Moe' if i in moe_opt.get('layers', ()) else 'Mlp'
    c.require(('Moe' in q, 'Mlp' in q) == (want == 'Moe', want == 'Mlp'),
              f'block {i} has {sorted(q)}, expected {want}', case)
    if want == 'Moe':
      k = np.asarray(q['Moe']['Mlp']['Dense_0']['kernel'])
      c.require(k.shape == (moe_opt['num_experts'], cfg['hidden_size'],
                            moe_opt.get('mlp_dim', enc['mlp_dim'])), f'shape {k.shape}', case)
      sp = moe_opt.get('split_rngs', False)
      sp = 'params' in sp if not isinstance(sp, bool) else sp
      same = all((k[0] == k[j]).all() for j in range(1, len(k)))
      differ = all((k[a] != k[b]).any() for a, b in itertools.combinations(range(len(k)), 2))
      c.require(differ if sp else same, f'split_rngs={sp}: experts same={same}', case)
  if cfg['num_classes']:
    kz = cfg.get('head_kernel_zero_init', True)
    k, b = np.asarray(p['head']['kernel']), np.asarray(p['head']['bias'])
    c.require((k == 0).all() if kz else (k != 0).any(), 'initial kernel of the head', case)
    c.require((b == np.float32(cfg.get('head_bias_init', 0.))).all(), 'initial bias of the head',
              case)


def job(c, cfg, members, batch, size, init):
  c.context = case = dict(model='ensemble' if members else 'vmoe', members=members, batch=batch,
                          image=size, **cfg)
  cls = vit_moe_ensemble.VisionTransformerMoeEnsemble if members else vit_moe.VisionTransformerMoe
  rng = np.random.default_rng(batch + 10 * size[0])
  images = rng.normal(size=(batch,) + tuple(size) + (2,)).astype(np.float32)
  model = cls(deterministic=True, **cfg)
  if init:
    v = flax.core.unfreeze(jax.jit(model.init)(jax.random.PRNGKey(3), images))['params']
    check_params(c, v, cfg, members, case)
  else:
    v = flax.core.unfreeze(jax.eval_shape(model.init, jax.random.PRNGKey(3), images))['params']
  apply = jax.jit(lambda p, x: model.apply({'params': p}, x))
  runs = {}
  for seed in range(c.q(2, 4)):
    p = shake(v, seed)
    try:
      want, losses = reference(p, cfg, images.astype(np.float64), members)
    except Tie:
      c.count('ties')
      continue
    except KeyError as e:
      c.fail(f'the model has no parameter {e}', case)
    got, metrics = apply(p, images)
    got = np.asarray(got, np.float64)
    c.require(got.shape == want.shape, f'shape {got.shape}, expected {want.shape}', case)
    err = np.abs(got - want).max() / (1. + np.abs(want).max())
    c.require(err < 2e-3, lambda: f'max error {err}: {got.ravel()[:6]}, expected '
              f'{want.ravel()[:6]}', case)
    layers = {f'encoderblock_{i}' for i in losses}
    c.require(set(metrics) == layers | {'auxiliary_loss'}, f'metrics {sorted(metrics)}', case)
    total = 0.
    for i, w in losses.items():
      m = metrics[f'encoderblock_{i}']
      a = np.asarray(m['auxiliary_loss'], np.float64)
      c.require(np.allclose(a, w, rtol=1e-2, atol=1e-3), lambda: f'block {i}: loss {a}, {w}', case)
      total = total + a
    c.require(np.allclose(np.asarray(metrics['auxiliary_loss']), total, rtol=1e-4, atol=1e-5),
              'auxiliary loss is not the sum over blocks', case)
    c.transition()
    runs[seed] = got
  c.case(repr(case) if runs else None)


def job_random(c, cfg, members, layer_noise):
  """Randomness: only when asked to."""
  c.context = case = dict(random=True, members=members, noise=layer_noise, **cfg)
  cls = vit_moe_ensemble.VisionTransformerMoeEnsemble if members else vit_moe.VisionTransformerMoe
  images = np.random.default_rng(0).normal(size=(2, 4, 4, 2)).astype(np.float32)

  def variant(deterministic, **over):
    enc = dict(cfg['encoder'])
    moe_opt = dict(enc['moe'])
    moe_opt['router'] = {**moe_opt['router'], **over.pop('router', {})}
    enc.update(moe=moe_opt, **over)
    m = cls(deterministic=deterministic, **{**cfg, 'encoder': enc})
    f = jax.jit(lambda p, x, k1, k2: m.apply(
        {'params': p}, x, rngs={'dropout': k1, 'gating': k2}))
    return lambda p, a=0, b=1, x=images: np.asarray(
        f(p, x, jax.random.PRNGKey(a), jax.random.PRNGKey(b))[0])
  det = cls(deterministic=True, **cfg)
  p = shake(flax.core.unfreeze(
      jax.eval_shape(det.init, jax.random.PRNGKey(3), images))['params'], 1)
  base = np.asarray(jax.jit(lambda p: det.apply({'params': p}, images))(p)[0])
  eq = lambda a, b: bool(np.allclose(a, b, rtol=1e-4, atol=1e-5))
  # Deterministic: rates and noise are ignored.
  f = variant(True, dropout_rate=0.5, attention_dropout_rate=0.5, router=dict(noise_std=3.))
  c.require(eq(f(p), base) and eq(f(p, 5, 6), base), 'random though deterministic', case)
  # Not deterministic, with all the rates 0: the same.
  f = variant(False, router=dict(noise_std=0.))
  c.require(eq(f(p), base), 'differs in training without dropout and noise', case)
  # Each source of randomness alone.
  for over, key in ((dict(dropout_rate=0.5), 0), (dict(attention_dropout_rate=0.5), 0),
                    (dict(router=dict(noise_std=20.)), 1)):
    over = dict(over)
    over['router'] = {'noise_std': 0., **over.get('router', {})}
    f = variant(False, **over)
    outs = [f(p, *([s, 1] if key == 0 else [0, s])) for s in (10, 11, 12)]
    c.require(any(not eq(outs[0], o) for o in outs[1:]), f'{over}: no randomness', case)
    c.require(eq(f(p, *([10, 77] if key == 0 else [77, 10])), outs[0]),
              f'{over}: depends on the other keys, or not reproducible', case)
    n = max(members, 1)
    two = [f(p, s, s, np.repeat(images[:1], 2, 0)) for s in range(c.q(4, 12))]
    c.require(any(not eq(o[:n], o[n:]) for o in two),
              f'{over}: equal images in a batch get the same random values', case)
    c.transition()
  # Dropout of everything: only the bias of the last normalization remains.
  f = variant(False, dropout_rate=1.0, router=dict(noise_std=0.))
  bias = p['Encoder']['encoder_norm']['bias']
  if cfg['classifier'] == 'gap' and not cfg['num_classes']:
    c.require(eq(f(p), np.tile(bias, (base.shape[0], 1))), 'something was not dropped', case)
  # The router may be random in a deterministic model.
  f = variant(True, router=dict(noise_std=20., deterministic=False))
  outs = [f(p, 0, s) for s in (10, 11, 12)]
  c.require(any(not eq(outs[0], o) for o in outs[1:]), 'router not random when asked to', case)
  f = variant(False, router=dict(noise_std=20., deterministic=True))
  c.require(eq(f(p), base), 'router random when asked not to', case)
  c.case(repr(case))


def run_job(c, j):
  {'cmp': job, 'random': job_random}[j[0]](c, *j[1])


def run(c):
  jobs = []
  layer_sets = [(), (0,), (1,), (0, 1), (0, 2), (1, 2)]
  routers = [dict(num_selected_experts=1, dispatcher=dict(name='einsum', capacity=64, batch_priority=False)),
             dict(num_selected_experts=2, dispatcher=dict(name='indices', capacity=64, batch_priority=True)),
             dict(num_selected_experts=2, gshard_loss_weight=0.,
                  dispatcher=dict(name='einsum', capacity=2, batch_priority=True)),
             dict(name='NoisyTopItemsPerExpertRouter', dispatcher=dict(name='einsum', capacity=2))]
  embs = [None, dict(name='learned'), dict(name='none'), dict(name='sincos2d'),
          dict(name='sincos2d', temperature=50.)]
  clss = ['token', '0', 'gap', 'map']
  n = 0
  seen = set()
  for li, ri, pi, ci in itertools.product(range(6), range(4), range(5), range(4)):
    # Every pair of options (and all the combinations in the thorough tier).
    pairs = {(x, y) for x, y in itertools.combinations(
        [('l', li), ('r', ri), ('p', pi), ('c', ci)], 2)}
    if not c.thorough and pairs <= seen:
      continue
    if not c.thorough and len(pairs - seen) < (4 if n < 24 else 1):
      continue
    seen |= pairs
    n += 1
    layers = layer_sets[li]
    tok = clss[ci] == 'token'
    size, patch = [((4, 6), (2, 2)), ((5, 4), (2, 1))][n % 2]
    t = (size[0] // patch[0]) * (size[1] // patch[1]) + tok
    batch = 4
    gs = [t, 2 * t, 4 * t, t // 1][n % 4]
    enc = dict(num_layers=max(layers, default=0) + 1 + n % 2, mlp_dim=6, num_heads=[1, 2, 4][n % 3],
               attention_qk_norm=bool(n % 2))
    if embs[pi] is not None:
      enc['position_emb'] = embs[pi]
    if layers or n % 2:
      enc['moe'] = dict(layers=layers, num_experts=[4, 3, 2][n % 3], group_size=gs,
                        router=routers[ri], split_rngs=[True, False, ('params',), ('dropout',)][n % 4])
      if n % 5 == 0:
        enc['moe']['mlp_dim'] = 5
    cfg = dict(num_classes=[3, None, 2][n % 3], patch_size=patch, hidden_size=8, encoder=enc,
               classifier=clss[ci], representation_size=[None, 5][(n // 2) % 2],
               head_bias_init=[0., -2.5][n % 2], head_kernel_zero_init=bool((n // 3) % 2))
    jobs.append(('cmp', (cfg, 0, batch, size, c.thorough or n % 7 == 0)))
  # Ensembles.
  n = 0
  for m, layers, ri, pi, ci in itertools.product((1, 2, 4), ((0,), (1,), (0, 1), (1, 2)), (0, 1, 2),
                                                 (0, 2, 3), (0, 2)):
    n += 1
    if not c.thorough and n % 6 != (n // 6) % 6:
      continue
    e = 4
    k = min(routers[ri].get('num_selected_experts', 1), e // m)
    router = dict(routers[ri], num_selected_experts=k)
    tok = clss[ci] == 'token'
    t = 6 + tok
    enc = dict(num_layers=max(layers) + 1 + n % 2, mlp_dim=6, num_heads=2,
               attention_qk_norm=bool((n // 2) % 2),
               moe=dict(layers=layers, num_experts=e, group_size=t * m * [1, 2][(n // 3) % 2],
                        router=router, split_rngs=True, ensemble_size=m))
    if embs[pi] is not None:
      enc['position_emb'] = embs[pi]
    cfg = dict(num_classes=[3, None][n % 2], patch_size=(2, 2), hidden_size=8, encoder=enc,
               classifier=clss[ci])
    jobs.append(('cmp', (cfg, m, 2, (4, 6), n % 5 == 0)))
  for m in (0, 2):
    for layers in ((0,), (1,)):
      for ci in ((2,) if not c.thorough else (0, 1, 2, 3)):
        t = 4 + (ci == 0)
        moe_opt = dict(layers=layers, num_experts=4, group_size=t * max(m, 1), split_rngs=True,
                       router=dict(num_selected_experts=1, dispatcher=dict(name='einsum', batch_priority=False,
                                                                           capacity=64)))
        if m:
          moe_opt['ensemble_size'] = m
        cfg = dict(num_classes=None, patch_size=(2, 2), hidden_size=8, classifier=clss[ci],
                   encoder=dict(num_layers=2, mlp_dim=6, num_heads=2, moe=moe_opt))
        jobs.append(('random', (cfg, m, 0)))
  c.parallel(jobs, run_job)
