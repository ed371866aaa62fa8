"""C20: partition specs are assigned by the first matching rule, to every leaf."""
import itertools
import re

import numpy as np

from mc import core

import flax
import flax.linen as nn
import jax
import jax.numpy as jnp
import optax
from vmoe import partitioning
from vmoe import utils
from vmoe.train import train_state

LEVEL = 'exploration'
RULE = ('a case = one (tree, ordered list of regex rules) given to the real '
        'tree_axis_resources_from_regexes, every leaf of the result being compared '
        'with the first rule (in list order) found in its path; distinct = case')
ASSUMPTIONS = ['the trees are dicts, FrozenDicts and TrainStates (with the optimizer '
               'states of optax) of up to ~20 leaves; lists of up to 3 (4) of 12 rules']
P = jax.sharding.PartitionSpec


def A(*shape):
  return jax.ShapeDtypeStruct(shape, jnp.float32)


def trees():
  """name -> (tree, is the tree a train state)."""
  moe = {'Moe': {'Mlp': {'kernel': A(4, 3, 5), 'bias': A(4, 5), 'scale': A(1),
                         'one': A(1, 1)},
                 'router': {'kernel': A(3, 4)}},
         'head': {'kernel': A(5, 2), 'bias': A(2)},
         'empty': {}, 'pos': A(), 'big_scale': A(2)}
  plain = {'a': A(2), 'ab': A(2, 3), 'b': {'a': A(3), 'b': A(1), 'c': {}}}
  out = {'plain': plain, 'moe': moe, 'frozen': flax.core.freeze(moe),
         'single': {'a': A(7)}, 'none': {}, 'zero': {'a': A(0), 'b': A(0, 3), 'ab': A(2)}}
  for name, tx in (('sgd', optax.sgd(0.1)),
                   ('momentum', optax.sgd(0.1, momentum=0.9)),
                   ('adam', optax.chain(optax.clip_by_global_norm(1.), optax.adam(0.1))),
                   ('masked', optax.chain(optax.masked(optax.add_decayed_weights(0.1),
                                                       {k: True for k in moe}),
                                          optax.adam(0.1)))):
    for frozen in (False, True):
      if frozen and name == 'masked':
        continue
      params = flax.core.freeze(moe) if frozen else moe
      state = jax.eval_shape(
          lambda p, tx=tx: train_state.TrainState.create(
              apply_fn=None, params=p, tx=tx,
              rngs={'dropout': jax.random.PRNGKey(0)}), params)
      out[f'{name}{"_frozen" if frozen else ""}'] = state
  return out


RULES = [
    ('Moe/Mlp/.*$', ('expert',)), ('kernel', ('expert', 'replica')),
    ('.*/bias', 'replica'), ('^a$', ('x',)), ('a', (('x', 'y'),)), ('b/', ('y', None)),
    ('head/kernel$', (None, 'expert')), ('opt_state', ()), ('params/Moe', 'z'),
    ('nomatch', ('w',)), ('.*', None), ('^Moe|scale$', P('q', 'r')),
]


def want_spec(spec):
  if isinstance(spec, P):
    return spec
  if spec is None or spec == ():
    return P()
  return P(spec) if isinstance(spec, str) else P(*spec)


def path_str(path):
  """Path of a leaf as the state dict of flax names it."""
  out = []
  for k in path:
    for attr in ('key', 'name', 'idx'):
      if hasattr(k, attr):
        out.append(str(getattr(k, attr)))
        break
  return '/'.join(out)


def job_regex(c, name, depth):
  tree = trees()[name]
  leaves = [(path_str(p), x) for p, x in jax.tree_util.tree_leaves_with_path(tree)]
  struct = jax.tree_util.tree_structure(tree)
  matches = {i: [bool(re.compile(r).search(k)) for k, _ in leaves]
             for i, (r, _) in enumerate(RULES)}
  specs = [want_spec(s) for _, s in RULES]
  multi = [int(np.prod(x.shape)) > 1 for _, x in leaves]
  for n in range(depth + 1):
    for sel in itertools.permutations(range(len(RULES)), n):
      rules = [RULES[i] for i in sel]
      c.context = dict(tree=name, rules=rules)
      got = partitioning.tree_axis_resources_from_regexes(
          tree=tree, axis_resources_regexes=rules)
      gl = jax.tree_util.tree_leaves(got, is_leaf=lambda x: isinstance(x, P))
      gs = jax.tree_util.tree_structure(got, is_leaf=lambda x: isinstance(x, P))
      c.require(gs == struct, lambda: f'structure changed: {gs} vs {struct}',
                dict(tree=name, rules=rules))
      for j, ((k, x), g) in enumerate(zip(leaves, gl, strict=True)):
        w = P()
        if multi[j]:
          for i in sel:
            if matches[i][j]:
              w = specs[i]
              break
        if not (isinstance(g, P) and g == w):
          c.fail(f'leaf {k} of shape {x.shape} gets {g!r}, expected {w!r}',
                 dict(tree=name, rules=rules))
      c.case(('re', name, sel))
      c.transition(len(leaves))


def job_sharded(c):
  """The specs work: arrays laid out with them keep their values."""
  import os
  mesh = jax.sharding.Mesh(np.asarray(jax.devices()[:1]).reshape(1, 1),
                           ('expert', 'replica'))
  x = {'Moe': jnp.arange(12.).reshape(4, 3), 'h': jnp.arange(3.)}
  for sp in (None, P(), P('expert'), P('expert', 'replica'), P(('expert', 'replica'))):
    for ctx in (False, True):
      c.context = dict(spec=str(sp), mesh=ctx)
      f = jax.jit(lambda v: partitioning.with_sharding_constraint(v, sp))
      if ctx:
        with mesh:
          y = f(x['Moe'])
      else:
        y = f(x['Moe'])
      c.require(np.array_equal(y, x['Moe']), 'values changed', c.context)
      c.case(('wsc', str(sp), ctx))
  for sp in (None, '', 'a', ('a',), ('a', None), (('a', 'b'), 'c'), ['a', 'b'], P('z'),
             P(), ()):
    got = partitioning.parse_partition_spec(sp)
    w = P() if not sp and not isinstance(sp, P) else want_spec(
        tuple(sp) if isinstance(sp, list) else sp)
    c.require(isinstance(got, P) and got == w, f'{sp!r} parsed as {got!r}', dict(spec=str(sp)))
    c.case(('parse', str(sp)))


def job_match(c):
  """utils.make_match_fn_from_regex_list: any of the regexes, searched."""
  regs = ['a', '^b', 'c$', 'a|b', 'x/y', '', '.', '[ab]c', '(a)(b)', 'b/']
  strs = ['', 'a', 'b', 'ab', 'ba', 'cab', 'abc', 'x/y', 'ax/yc', 'zz', 'b/c', 'cb']
  for n in (1, 2, 3):
    for sel in itertools.permutations(regs, n):
      fn = utils.make_match_fn_from_regex_list(list(sel))
      for s in strs:
        w = any(re.search(r, s) for r in sel)
        c.require(bool(fn(s)) == w, f'{sel} on {s!r}: {fn(s)}', dict(regexes=sel, string=s))
      c.case(('match', sel))
  for r in regs:
    if r:
      fn = utils.make_match_fn_from_regex_list(r)
      for s in strs:
        c.require(bool(fn(s)) == bool(re.search(r, s)), f'{r} on {s!r}', dict(regex=r))
  for e in (None, [], ()):
    c.require(utils.make_match_fn_from_regex_list(e) is None, f'{e!r} is not None', e)


def run_job(c, job):
  {'regex': job_regex, 'sharded': job_sharded, 'match': job_match}[job[0]](c, *job[1])


def run(c):
  names = ['adam', 'adam_frozen', 'masked', 'momentum', 'momentum_frozen', 'moe', 'frozen',
           'sgd', 'sgd_frozen', 'plain', 'single', 'none', 'zero']
  jobs = [('regex', (n, c.q(3 if i > 2 else 2, 3 if i < 9 else 4))) for i, n in enumerate(names)]
  c.parallel(jobs + [('sharded', ()), ('match', ())], run_job)
