"""C04: expert capacity is the requested share of the tokens, rounded as asked."""
import fractions
import itertools
import math
import numpy as np
from mc import core

import jax
import jax.numpy as jnp
import vmoe.moe as moe

LEVEL = 'exploration'
RULE = ('every (num_tokens, num_experts, capacity_factor, rounding, multiple) in '
        'the grid is evaluated on the real function and compared with exact '
        'rational arithmetic; non-trivial = the share is not already an integer '
        'multiple or the call must be rejected. The capacity actually used by '
        'the two routing algorithms is observed as the size of the expert '
        'buffers they dispatch into')
ASSUMPTIONS = ['for factors that are not small binary fractions, when the exact share is within 1e-9 of an integer (or of a tie '
               'for rounding) both neighbours are accepted']
F = fractions.Fraction


def allowed(tokens, experts, cf, mode, mult):
  exact = F(tokens) * F(cf) / experts
  # Factors like 1.0 or 1.25 lead to exact products and correctly rounded quotients.
  eps = F(1, 10**9) if mode != "ceil" or F(cf).denominator > 1024 else F(0)
  if mode == 'ceil':
    base = {math.ceil(exact - eps), math.ceil(exact), math.ceil(exact + eps)}
  else:
    base = {math.floor(exact + F(1, 2) - eps), math.floor(exact + F(1, 2) + eps)}
    if abs(exact - math.floor(exact) - F(1, 2)) > eps:
      base = {math.floor(exact + F(1, 2))}
  out = set()
  for b in base:
    if b < 1:
      out.add('error')
    elif mult and mult > 0:
      out.add(-(-b // mult) * mult)
    else:
      out.add(b)
  return out, exact


def run(c):
  fn = moe.compute_capacity
  toks = c.q(list(range(1, 41)) + [64, 100, 196, 197, 784, 1024, 4096],
             list(range(1, 130)) + [196, 197, 577, 784, 1024, 3000, 4096, 65536])
  exps = c.q([1, 2, 3, 4, 5, 7, 8, 16, 32], list(range(1, 17)) + [24, 32, 64, 128])
  cfs = [0.01, 0.1, 0.25, 1 / 3, 0.5, 0.75, 1, 1.0, 1.05, 1.1, 1.25, 1.5, 2.0, 4]
  outcomes = set()
  for t, e, cf, mode, mult in itertools.product(
      toks, exps, cfs, ('ceil', 'round'), (None, 0, 1, 2, 3, 4, 8)):
    want, exact = allowed(t, e, cf, mode, mult)
    cfg = dict(num_tokens=t, num_experts=e, capacity_factor=cf,
               ceil_or_round=mode, multiple_of=mult)
    c.context = cfg
    try:
      got = fn(t, e, cf, ceil_or_round=mode, multiple_of=mult)
      if not isinstance(got, (int, np.integer)):
        c.fail(f'capacity is not an integer: {got!r}', cfg)
    except ValueError:
      got = 'error'
    outcomes.add(got)
    if got not in want:
      c.fail(f'capacity {got}, expected one of {want}', cfg)
    c.case((t, e, cf, mode, mult) if got == 'error' or exact != got else None)
  c.count('distinct_capacities', len(outcomes))
  # Defaults: ceil, multiple of four.
  for t, e, cf in itertools.product(range(1, 20), (1, 2, 3), (0.5, 1., 1.5)):
    want, _ = allowed(t, e, cf, 'ceil', 4)
    c.require(fn(t, e, cf) in want, 'default rounding differs', [t, e, cf])
    c.case(('default', t, e, cf))
  # Exact shares, of any size.
  for e in range(1, c.q(129, 257)):
    for t, cf in itertools.product(range(e, c.q(1025, 4097), e), (0.5, 1.0, 1.25, 1.5, 2.0)):
      want, _ = allowed(t, e, cf, 'ceil', None)
      got = fn(t, e, cf, 'ceil', None)
      c.require(got in want, lambda: f'capacity {got}, expected one of {want}', [t, e, cf])
      c.case(('exact', t, e, cf))
  # Unknown rounding modes are rejected.
  for mode in ('floor', 'Ceil', '', None):
    try:
      fn(4, 2, 1.0, ceil_or_round=mode)
    except ValueError:
      c.case(('mode', mode))
      continue
    c.fail('unknown rounding mode accepted', mode)
  # Capacity that the routing algorithms really use (shape evaluation only).
  for s, e, cf in itertools.product(
      c.q((1, 2, 3, 5, 8, 9), range(1, 14)), (1, 2, 3, 4), (0.5, 1.0, 1.3, 2.0)):
    for mode, mult in (('ceil', 4), ('ceil', None), ('round', 1), ('ceil', 3), ('round', 2)):
      kw = dict(capacity_factor=cf, capacity_ceil_or_round=mode,
                capacity_multiple_of=mult)
      for k in range(1, e + 1):
        for name in ('einsum', 'indices'):
          buffer_size(c, s, e, s * k, cf, mode, mult, lambda g: moe.get_top_experts_per_item_dispatcher(
              g, name=name, num_selected_experts=k, batch_priority=False, **kw),
                      ('experts_per_item', name, k))
      want, _ = allowed(s, e, cf, mode, mult)
      if all(w == 'error' or w <= s for w in want):
        buffer_size(c, s, e, s, cf, mode, mult, lambda g: moe.get_top_items_per_expert_dispatcher(
            g, name='einsum', **kw)[0], ('items_per_expert',))
      # Default rounding arguments of both.
    want, _ = allowed(s * 1, e, cf, 'ceil', 4)
    buffer_size(c, s, e, s, cf, 'ceil', 4, lambda g: moe.get_top_experts_per_item_dispatcher(
        g, name='einsum', num_selected_experts=1, batch_priority=True,
        capacity_factor=cf), ('default',))
  # Explicit capacity is used as is; contradictory requests are rejected.
  for cap in (1, 2, 3, 5):
    for name in ('einsum', 'indices'):
      d = jax.eval_shape(lambda g: jax.vmap(lambda q: moe.get_top_experts_per_item_dispatcher(
          q, name=name, num_selected_experts=1, batch_priority=False, capacity=cap))(g).dispatch(
              jnp.zeros((1, 6, 1))), jax.ShapeDtypeStruct((1, 6, 2), jnp.float32))
      c.require(d.shape == (2, cap, 1), 'explicit capacity not respected', [cap, name, d.shape])
      c.case(('explicit', cap, name))
    d = jax.eval_shape(lambda g: jax.vmap(lambda q: moe.get_top_items_per_expert_dispatcher(
        q, name='einsum', capacity=cap)[0])(g).dispatch(
            jnp.zeros((1, 6, 1))), jax.ShapeDtypeStruct((1, 6, 2), jnp.float32))
    c.require(d.shape == (2, cap, 1), 'explicit capacity not respected', [cap, d.shape])
    c.case(('explicit-items', cap))
  g = jnp.ones((4, 2))
  bad = [
      lambda: moe.get_top_experts_per_item_dispatcher(g, 'einsum', 1, False),
      lambda: moe.get_top_experts_per_item_dispatcher(
          g, 'einsum', 1, False, capacity=2, capacity_factor=1.),
      lambda: moe.get_top_experts_per_item_dispatcher(g, 'nope', 1, False, capacity=2),
      lambda: moe.get_top_items_per_expert_dispatcher(g, 'einsum'),
      lambda: moe.get_top_items_per_expert_dispatcher(
          g, 'einsum', capacity=2, capacity_factor=1.),
      lambda: moe.get_top_items_per_expert_dispatcher(g, 'nope', capacity=2),
  ]
  for i, f in enumerate(bad):
    try:
      f()
    except ValueError:
      c.case(('contradiction', i))
      continue
    c.fail('contradictory or unknown request accepted', i)
  c.sample({'num_tokens': 197, 'num_experts': 8, 'capacity_factor': 1.05,
            'ceil': fn(197, 8, 1.05), 'round,1': fn(197, 8, 1.05, 'round', 1)})


def buffer_size(c, s, e, tokens, cf, mode, mult, make, tag):
  want, _ = allowed(tokens, e, cf, mode, mult)
  cfg = dict(S=s, E=e, cf=cf, mode=mode, mult=mult, tag=tag)
  c.context = cfg
  try:
    d = jax.eval_shape(
        lambda g: jax.vmap(make)(g).dispatch(jnp.zeros((1, s, 1))),
        jax.ShapeDtypeStruct((1, s, e), jnp.float32))
    got = d.shape[1]
    c.require(d.shape[0] == e and d.shape[2:] == (1,), 'shape', cfg)
  except ValueError as ex:
    if 'capacity' not in str(ex):
      raise
    got = 'error'
  c.require(got in want, f'expert buffers have {got} slots, expected {want}', cfg)
  c.case((s, e, cf, mode, mult, tag))
