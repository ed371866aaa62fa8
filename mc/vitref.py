"""Float64 reference of the V-MoE models, used by several checks."""
import flax
import jax
import numpy as np


def ln(x, p):
  m = x.mean(-1, keepdims=True)
  v = ((x - m) ** 2).mean(-1, keepdims=True)
  return (x - m) / np.sqrt(v + 1e-6) * p['scale'] + p.get('bias', 0.)


def softmax(x):
  e = np.exp(x - x.max(-1, keepdims=True))
  return e / e.sum(-1, keepdims=True)


def gelu(x):
  return 0.5 * x * (1 + np.tanh(np.sqrt(2 / np.pi) * (x + 0.044715 * x ** 3)))


def mha(q, kv, p, norm):
  pr = lambda x, d: np.einsum('btc,chd->bthd', x, d['kernel']) + d['bias']
  q, k, v = pr(q, p['query']), pr(kv, p['key']), pr(kv, p['value'])
  if norm:
    q, k = ln(q, p['query_ln']), ln(k, p['key_ln'])
  w = softmax(np.einsum('bqhd,bkhd->bhqk', q, k) / np.sqrt(q.shape[-1]))
  o = np.einsum('bhqk,bkhd->bqhd', w, v)
  return np.einsum('bqhd,hdc->bqc', o, p['out']['kernel']) + p['out']['bias']


def mlp(x, p):
  h = gelu(x @ p['Dense_0']['kernel'] + p['Dense_0']['bias'])
  return h @ p['Dense_1']['kernel'] + p['Dense_1']['bias']


class Tie(Exception):
  pass


def sure(v, n=None):
  """Raises Tie unless the n largest values (in order) are clear."""
  s = -np.sort(-np.asarray(v).ravel())
  s = s if n is None else s[:n + 1]
  if len(s) > 1 and np.abs(np.diff(s)).min() < 2e-5:
    raise Tie


def moe(x, p, opt, members):
  """x: (B * M, T, C). Returns the output and the importance losses of each group."""
  router, m_ = opt['router'], members
  bm, t, c_ = x.shape
  b = bm // m_
  # Tokens in the order in which they are grouped.
  flat = x.reshape(b, m_, t, c_).transpose(0, 2, 1, 3).reshape(-1, c_)
  who = np.tile(np.arange(m_), b * t)
  e = opt['num_experts']
  gates = np.zeros((len(flat), e))
  kern = p['Router']['dense']['kernel']
  for i, tok in enumerate(flat):
    if m_ > 1 or kern.ndim == 3:
      n = e // m_
      gates[i, who[i] * n:(who[i] + 1) * n] = softmax(tok @ kern[:, who[i]])
    else:
      gates[i] = softmax(tok @ kern)
  expert = [jax.tree_util.tree_map(lambda a: a[k], p['Mlp']) for k in range(e)]
  gs = opt['group_size']
  out = np.zeros_like(flat)
  imp = []
  for g in range(0, len(flat), gs):
    gg = gates[g:g + gs]
    if router.get('name', '').startswith('NoisyTopItems'):
      cap = router['dispatcher']['capacity']
      for k in range(e):
        order = np.argsort(-gg[:, k])
        if cap < gs:
          sure(gg[order[cap - 1:cap + 1], k])
        for i in order[:cap]:
          out[g + i] += gg[i, k] * mlp(flat[g + i], expert[k])
      imp.append(0.)
      continue
    nsel = router.get('num_selected_experts', 1)
    cap = router['dispatcher']['capacity']
    order = np.arange(gs)
    if router['dispatcher'].get('batch_priority'):
      if cap < gs:
        sure(gg.max(1))
      order = np.argsort(-gg.max(1))
    load = [0] * e
    for i in range(gs):
      sure(gg[i][gg[i] > 0], nsel)
    for r in range(nsel):
      for i in order:
        k = np.argsort(-gg[i])[r]
        if load[k] < cap:
          out[g + i] += gg[i, k] * mlp(flat[g + i], expert[k])
        load[k] += 1
    ws = []
    for m in range(m_):
      n = e // m_
      s = gg[who[g:g + gs] == m][:, m * n:(m + 1) * n].sum(0)
      ws.append((s.std() / s.mean()) ** 2)
    imp.append(np.array(ws) if kern.ndim == 3 else ws[0])
  return out.reshape(b, t, m_, c_).transpose(0, 2, 1, 3).reshape(bm, t, c_), np.array(imp)


def sincos(h, w, c_, temp):
  om = 1. / temp ** (np.arange(c_ // 4) / (c_ // 4 - 1))
  rows = []
  for y in range(h):
    for x in range(w):
      rows.append(np.concatenate([np.sin(x * om), np.cos(x * om), np.sin(y * om),
                                  np.cos(y * om)]))
  return np.array(rows)


def to64(p):
  return jax.tree_util.tree_map(lambda a: np.asarray(a, np.float64), flax.core.unfreeze(p))


def encode(e, enc, x, members, h=None, w=None):
  """Encoder with parameters e: tokens -> tokens, losses of the MoE layers."""
  pe = enc.get('position_emb') or {}
  if pe.get('name', 'learned') == 'learned':
    x = x + e['posembed_input']['pos_embedding']
  elif pe['name'] == 'sincos2d':
    s = sincos(h, w, x.shape[-1], pe.get('temperature', 10000.))
    x = x.copy()
    x[:, -h * w:] += s
  losses, first = {}, True
  moe_opt = enc.get('moe') or {}
  for i in range(enc['num_layers']):
    q = e[f'encoderblock_{i}']
    is_moe = i in moe_opt.get('layers', ())
    if is_moe and first and members:
      x, first = np.repeat(x, members, 0), False
    y = ln(x, q['LayerNorm_0'])
    x = x + mha(y, y, q['SelfAttention'], enc.get('attention_qk_norm', False))
    y = ln(x, q['LayerNorm_1'])
    if is_moe:
      y, losses[i] = moe(y, q['Moe'], moe_opt, members or 1)
    else:
      y = mlp(y, q['Mlp'])
    x = x + y
  return ln(x, e['encoder_norm']), losses


def map_head(q, enc, x):
  probe = np.tile(q['probe'], [x.shape[0], 1, 1])
  x = mha(probe, x, q['MultiHeadDotProductAttention'], enc.get('attention_qk_norm', False))
  return (x + mlp(ln(x, q['LayerNorm']), q['Mlp']))[:, 0]


def reference(p, cfg, images, members):
  p = to64(p)
  ph, pw = cfg['patch_size']
  b, hh, ww, _ = images.shape
  h, w = hh // ph, ww // pw
  enc = cfg['encoder']
  x = np.stack([
      np.einsum('bijc,ijcd->bd', images[:, i * ph:(i + 1) * ph, j * pw:(j + 1) * pw],
                p['embedding']['kernel'])
      for i in range(h) for j in range(w)], 1) + p['embedding']['bias']
  if cfg['classifier'] == 'token':
    x = np.concatenate([np.tile(p['cls'], [b, 1, 1]), x], 1)
  x, losses = encode(p['Encoder'], enc, x, members, h, w)
  if cfg['classifier'] in ('token', '0'):
    x = x[:, 0]
  elif cfg['classifier'] == 'gap':
    x = x.mean(1)
  else:
    x = map_head(p['MapHead'], enc, x)
  if cfg.get('representation_size'):
    x = np.tanh(x @ p['pre_logits']['kernel'] + p['pre_logits']['bias'])
  if cfg['num_classes']:
    x = x @ p['head']['kernel'] + p['head']['bias']
  return x, losses


def text_reference(p, cfg, text):
  p = to64(p)
  x, losses = encode(p['Encoder'], cfg['encoder'], p['Embed_0']['embedding'][text], 0)
  pool = cfg.get('pool_type', 'last')
  x = {'last': lambda: x[:, -1], 'first': lambda: x[:, 0], 'gap': lambda: x.mean(1),
       'gmp': lambda: x.max(1), 'map': lambda: map_head(p['MapHead'], cfg['encoder'], x)}[pool]()
  if cfg['num_classes']:
    x = x @ p['head']['kernel'] + p['head']['bias']
  return x, losses


def shake(params, seed):
  """Deterministic parameters, all different, of moderate size."""
  leaves, tree = jax.tree_util.tree_flatten(params)
  out = []
  for i, a in enumerate(leaves):
    r = np.random.default_rng(1000 * seed + i)
    fan = max(1, int(np.prod(a.shape[:-1]))) if a.ndim > 1 else 1
    out.append(np.float32(r.normal(size=a.shape) * (1.5 / np.sqrt(min(fan, 16)))
                          + (0.5 if a.ndim == 1 else 0.)))
  return jax.tree_util.tree_unflatten(tree, out)
