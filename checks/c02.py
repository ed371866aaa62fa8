"""C02: Top-Items-Per-Expert (experts choice) routing.

Model: every expert independently takes items by decreasing gate (lower index
first on ties) until its C slots are full. Every gate matrix over a finite
alphabet is a trace replayed against the real dispatcher.
"""
import functools
import itertools
import math
import numpy as np
from mc import core
from mc import moe_obs

import vmoe.moe as moe

LEVEL = 'model_checking'
RULE = ('state = (S,E,C, expert, set of items already taken); transition = the '
        'expert takes its next best item; trace = one gate matrix replayed on '
        'the real dispatcher through dispatch()/combine() and its metrics')
ASSUMPTIONS = ['gates in a finite alphabet with ties; S<=5, E<=4, C<=S',
               'ties are resolved towards the lower index']


def one_config(c, job):
  s, e, a, cap = job
  alphabet = [0.0, 0.25, 0.40625, 0.828125][-a:]
  gates = moe_obs.all_gates(s, e, alphabet)
  n = len(gates)
  order = np.argsort(-gates, axis=1, kind='stable')[:, :cap]   # (N,C,E)
  acc = np.zeros((n, s, e), bool)
  idx = np.arange(n)
  for j in range(cap):
    for ex in range(e):
      before = acc[:, :, ex] @ (1 << np.arange(s))
      acc[idx, order[:, j, ex], ex] = True
      after = acc[:, :, ex] @ (1 << np.arange(s))
      for u, v in set(zip(before.tolist(), after.tolist())):
        c.state((s, e, cap, ex, u))
        c.state((s, e, cap, ex, v))
        c.transition()
  cfg = {'S': s, 'E': e, 'C': cap}
  c.context = cfg
  f = moe_obs.observe_fn(functools.partial(
      moe.get_top_items_per_expert_dispatcher, name='einsum', capacity=cap))
  off = 0
  for b, m in moe_obs.batches(gates, 16384):
    d, w, met = f(b)
    d, w = np.asarray(d)[:m], np.asarray(w)[:m]
    met = {k: np.asarray(v)[:m] for k, v in met.items()}
    g, ac = b[:m], acc[off:off + m]

    def bad(mask, what):
      if mask.any():
        i = int(np.nonzero(mask)[0][0])
        c.fail(what, {**cfg, 'gates': g[i], 'expected': ac[i],
                      'dispatched(E,C,S)': d[i], 'combine(S,E,C)': w[i],
                      'metrics': {k: v[i] for k, v in met.items()}})
    bad(np.full(m, d.shape[2] != cap), 'buffer size differs from the capacity')
    bad(~np.isin(d, (0., 1.)).reshape(m, -1).all(1),
        'a slot holds something else than one unmodified item')
    bad((d.sum(3) != 1).reshape(m, -1).any(1),
        'a slot is empty or holds more than one item')
    got = d.sum(2).transpose(0, 2, 1)
    bad((got > 1).reshape(m, -1).any(1), 'an expert took the same item twice')
    bad((got.astype(bool) != ac).reshape(m, -1).any(1),
        'an expert did not take its highest-gate items')
    bad((w != d.transpose(0, 3, 1, 2) * g[..., None]).reshape(m, -1).any(1),
        'combine weight is not the gate of exactly the dispatched pair')
    per_item = ac.sum(2)
    sel_min = np.where(ac, g, np.inf).min((1, 2))
    sel_max = np.where(ac, g, -np.inf).max((1, 2))
    want = {'num_experts_per_item_min': per_item.min(1),
            'num_experts_per_item_max': per_item.max(1),
            'min_selected_gate': sel_min, 'max_selected_gate': sel_max}
    for t in sorted({2**i for i in range(int(math.log2(e)) + 1)} | {e}):
      want[f'ratio_processed_items_by_at_least_{t}_experts'] = (
          (per_item >= t).mean(1))
    bad(np.full(m, set(want) != set(met)), 'metric names differ')
    for k, v in want.items():
      bad(~np.isclose(met[k].astype(np.float64), v, rtol=1e-6, atol=1e-7), f'metric {k} is wrong')
    off += m
  c.trace(n)
  c.sample({**cfg, 'alphabet': alphabet, 'matrices': n})


def run(c):
  sizes = [(1, 1, 3), (3, 1, 4), (4, 1, 4), (1, 2, 3), (2, 2, 4), (3, 2, 4),
           (4, 2, 3), (2, 3, 3), (3, 3, 3), (2, 4, 2), (3, 4, 2)]
  sizes += c.q([], [(4, 2, 4), (5, 2, 3), (6, 2, 3), (4, 3, 2), (5, 3, 2),
                    (4, 3, 3), (4, 4, 2), (2, 5, 2), (3, 5, 2)])
  c.parallel([(s, e, a, cap) for s, e, a in sizes for cap in range(1, s + 1)],
             one_config)
