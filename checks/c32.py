"""C32: helpers of configurations, iteration and random keys."""
import copy
import itertools
import os
import re
import sys
import types

import numpy as np

from mc import core
from mc import stubs
stubs.install()

import flax.linen as nn
import jax
import jax.numpy as jnp
import ml_collections
from vmoe import utils
from vmoe.train import trainer

LEVEL = 'exploration'
RULE = ('a case = one call string, one tuple of lengths of iterables and consumption depth, one '
        'list of patterns and name, one base configuration and overrides, one set of names and '
        'seed, or one pair of factors; distinct = the whole tuple')
ASSUMPTIONS = ['arguments in call strings are Python literals without leading spaces']


# ---- call strings -----------------------------------------------------------
def make_module():
  """Modules with functions at several depths."""
  top = types.ModuleType('mc_calls')
  sub = types.ModuleType('mc_calls.sub')
  deep = types.ModuleType('mc_calls.sub.deep')
  other = types.ModuleType('mc_other')
  for m in (top, sub, deep, other):
    for f in ('foo', 'bar', 'Baz'):
      setattr(m, f, f'{m.__name__}.{f}')
    sys.modules[m.__name__] = m
  for m in (top, sub):
    m.__path__ = []
  top.sub, sub.deep = sub, deep
  return top


LITERALS = ('1', '-2', '2.5', '1e-3', '"a"', "'a.b(c)'", 'None', 'True', '(1, 2)', '[1, (2, 3)]',
            '{"k": [1]}', '"x=1"', '-1.5', '()', "'é'")


def job_calls(c):
  top = make_module()
  prefixes = {'': 'mc_calls', 'mc_calls.': 'mc_calls', 'mc_calls.sub.': 'mc_calls.sub',
              'mc_calls.sub.deep.': 'mc_calls.sub.deep', 'mc_other.': 'mc_other'}
  arg_lists = [((), ())] + [((a,), ()) for a in LITERALS] + [((), (('k', a),)) for a in LITERALS]
  arg_lists += [((a, b), ()) for a, b in itertools.product(LITERALS[:12], LITERALS[3:12])]
  arg_lists += [((a,), (('k', b), ('name', d))) for a, b, d in itertools.product(
      LITERALS[::3], LITERALS[1::3], LITERALS[2::4])]
  for (prefix, module), name in itertools.product(prefixes.items(), ('foo', 'bar', 'Baz')):
    for default in (top, 'mc_calls'):
      forms = [(f'{prefix}{name}', (), ())]
      for args, kwargs in arg_lists:
        inner = list(args) + [f'{k}={v}' for k, v in kwargs]
        forms.append((f'{prefix}{name}({", ".join(inner)})', args, kwargs))
        if inner:
          forms.append((f'{prefix}{name}( {" , ".join(inner)}, )', args, kwargs))
      for s, args, kwargs in forms:
        c.context = case = dict(call=s, default=str(default))
        want = (f'{module}.{name}', tuple(map(eval, args)), {k: eval(v) for k, v in kwargs})  # pylint: disable=eval-used
        got = utils.parse_call(s, default)
        c.require(tuple(got) == want and list(map(type, got[1])) == list(map(type, want[1])),
                  f'{got}, expected {want}', case)
        c.case((s, str(default)))
  for bad in ('foo().bar', 'foo.bar().Baz()', 'foo()()', '1', '"foo"', '[foo]', 'foo[0]', 'foo + bar',
              'lambda: 1', 'mc_calls.sub[0].foo', 'foo(bar)', 'foo(bar())', 'foo(k=bar)',
              'foo(__import__("os"))', 'foo(1 if 1 else 2)', '', 'foo(', 'foo)', 'nothing(1)',
              'mc_calls.nothing', 'mc_nothing.foo'):
    c.context = case = dict(call=bad)
    try:
      got = utils.parse_call(bad, top)
    except (ValueError, SyntaxError, AttributeError, ImportError):
      c.case(bad)
      continue
    c.fail(f'accepted, as {got}', case)


# ---- iteration --------------------------------------------------------------
class Counted:
  """An iterator that knows how much of it was taken."""

  def __init__(self, tag, n):
    self.tag, self.n, self.taken = tag, n, 0

  def __iter__(self):
    return self

  def __next__(self):
    if self.taken == self.n:
      raise StopIteration
    self.taken += 1
    return (self.tag, self.taken - 1)


def job_zip(c):
  for k in (1, 2, 3, 4):
    for lengths in itertools.product(range(4), repeat=k):
      for kinds in itertools.product(('list', 'iter', 'gen', 'counted'), repeat=k) if k < 3 else (
          ('list',) * k, ('counted',) * k, ('gen', 'list', 'iter', 'counted')[:k]):
        for how in ('zip', 'map'):
          c.context = case = dict(lengths=lengths, kinds=kinds, how=how)
          rows = [[(j, i) for i in range(n)] for j, n in enumerate(lengths)]
          its = []
          for j, (kind, r) in enumerate(zip(kinds, rows)):
            its.append({'list': lambda: r, 'iter': lambda: iter(r), 'gen': lambda: (x for x in r),
                        'counted': lambda: Counted(j, len(r))}[kind]())  # pylint: disable=cell-var-from-loop
          out, error = [], False
          try:
            if how == 'zip':
              it = utils.safe_zip(*its)
              for x in it:
                out.append(x)
            else:
              it = utils.safe_map(lambda *a: ('f', a), *its)
              for x in it:
                out.append(x[1])
                c.require(x[0] == 'f', 'function', case)
          except utils.SafeZipIteratorError:
            error = True
          except RuntimeError as e:
            # Raised within a generator.
            error = True
          want = list(zip(*rows))
          c.require(out == want, f'{out}, expected {want}', case)
          c.require(error == (len(set(lengths)) > 1),
                    f'lengths {lengths}: ' + ('an error' if error else 'no error'), case)
          for i, n in zip(its, lengths):
            if isinstance(i, Counted):
              c.require(i.taken <= min(lengths) + 1, 'too many elements taken', case)
          if not error and how == 'zip':
            c.require(next(it, None) is None, 'elements after the end', case)
          c.case((lengths, kinds, how))
  # Lazily: each element is taken when asked for.
  for k, depth in itertools.product((1, 2, 3), range(4)):
    its = [Counted(j, 3) for j in range(k)]
    it = utils.safe_zip(*its)
    for _ in range(depth):
      next(it)
    c.require([i.taken for i in its] == [depth] * k, f'taken {[i.taken for i in its]}',
              dict(k=k, depth=depth))
    c.case(('lazy', k, depth))


# ---- patterns ---------------------------------------------------------------
def job_patterns(c):
  patterns = ('a', '^a', 'b$', 'a|b', '^a|b$', '(a)(b)?', 'x/.*/k', '[ab]{2}', '', '(?:c)', 'A', '.')
  names = [''.join(x) for n in range(4) for x in itertools.product('abc', repeat=n)]
  names += ['x/a/k', 'x/k', 'A', 'aA', 'x/bb/kernel']
  lists = [[p] for p in patterns] + [list(x) for x in itertools.product(patterns, repeat=2)]
  lists += [('a$', '^b', 'cc'), ('^c', 'x/.*', 'b.b')] + ['a', '^a|b$']
  for l in lists:
    fn = utils.make_match_fn_from_regex_list(l)
    each = [l] if isinstance(l, str) else l
    for n in names:
      want = any(re.search(p, n) for p in each)
      c.require(fn(n) is want, f'{fn(n)}, expected {want}', dict(patterns=l, name=n))
      c.case((str(l), n))
  for empty in (None, [], (), ''):
    c.require(utils.make_match_fn_from_regex_list(empty) is None, 'not None', dict(patterns=empty))


# ---- classes and configurations ---------------------------------------------
def job_partial(c):
  class Base:
    def __init__(self, *args, **kwargs):
      self.got = (args, kwargs)

    def method(self):
      return ('m', self.got)

  arg_sets = [(), (1,), (1, 2), ('x', None, 3)]
  kw_sets = [{}, {'a': 1}, {'b': [2]}, {'a': 3, 'b': 4}, {'c': None}]
  for ba, bk, a, k in itertools.product(arg_sets, kw_sets, arg_sets, kw_sets):
    cls = utils.partialclass(Base, *ba, **bk)
    before = copy.deepcopy((ba, bk))
    for _ in range(2):
      o = cls(*a, **k)
      want = (ba + a, {**bk, **k})
      c.require(o.got == want and o.method() == ('m', want), f'{o.got}, expected {want}',
                dict(base=(ba, bk), args=(a, k)))
    c.require(cls().got == (ba, bk) and (ba, bk) == before, 'bound arguments changed',
              dict(base=(ba, bk), args=(a, k)))
    c.require(issubclass(cls, Base) and isinstance(o, Base), 'not a subclass', {})
    c.case(('partial', ba, repr(bk), a, repr(k)))


class Net(nn.Module):
  features: int = 3
  options: tuple = ()
  deterministic: bool = False
  scale: float = 1.

  @nn.compact
  def __call__(self, x):
    return self.scale * nn.Dense(self.features)(x)


def job_models(c):
  """Models of configurations: arguments of the name, fields, overrides; inputs unchanged."""
  for module in ('checks.c32.Net',):
    for call, fields, det, locked in itertools.product(
        ('', '()', '(4)', '(features=5)', '(scale=2.)'),
        ({}, {'options': (1, {'a': 2})}, {'scale': 3.}, {'features': 6}), (False, True),
        ('dict', 'config', 'locked')):
      both = ('features' in call or '(4)' in call) and 'features' in fields or (
          'scale' in call and 'scale' in fields)
      cfg = {'name': module + call, **fields}
      if locked != 'dict':
        cfg = ml_collections.ConfigDict(cfg)
        if locked == 'locked':
          cfg.lock()
      before = copy.deepcopy(cfg)
      c.context = case = dict(config=str(before), deterministic=det)
      try:
        m = trainer.create_flax_model(config=cfg, deterministic=det)
      except TypeError:
        c.require(both, 'fails', case)
        c.case(('model', call, repr(fields), det, locked))
        continue
      c.require(not both, 'an argument given twice is accepted', case)
      want = {'features': 3, 'scale': 1., 'options': (), **fields}
      if '4' in call or '5' in call:
        want['features'] = int(re.search(r'[45]', call).group(0))
      if 'scale' in call:
        want['scale'] = 2.
      c.require((m.features, m.scale, m.deterministic) == (want['features'], want['scale'], det),
                f'{m}', case)
      c.require(str(m.options) == str(want['options']) or m.options == want['options'], f'{m}', case)
      if locked != 'dict':
        c.require(cfg.to_dict() == before.to_dict(), 'the configuration is modified', case)
      c.case(('model', call, repr(fields), det, locked))
  try:
    trainer.create_flax_model(config={'features': 3}, deterministic=True)
    c.fail('a model without a name is accepted', {})
  except KeyError:
    pass


def merge(a, b):
  out = dict(a)
  for k, v in b.items():
    out[k] = merge(out[k], v) if isinstance(v, dict) and isinstance(out.get(k), dict) else v
  return out


def job_overrides(c):
  bases = [{}, {'a': 1}, {'a': 1, 'b': {'c': 2, 'd': {'e': 3}}}, {'b': {'c': None}, 'x': (1, 2)}]
  overs = [None, {}, {'a': 2}, {'b': {'c': 5}}, {'b': {'d': {'e': 6}}}, {'b': {'new': 1}},
           {'a': 7, 'b': {'c': 8, 'd': {'e': 9, 'f': 10}}}, {'x': (3,)}, {'new': {'y': 1}}]
  for b, o, lock in itertools.product(bases, overs, (False, True)):
    c.context = case = dict(base=str(b), overrides=str(o), locked=lock)
    base = ml_collections.ConfigDict(b)
    over = ml_collections.ConfigDict(o) if o is not None else None
    if lock:
      base.lock()
      if over is not None:
        over.lock()
    want = merge(b, o or {})
    try:
      got = trainer.override_base_config(base, over)
    except (KeyError, TypeError, AttributeError) as e:
      # Only when it adds fields or changes types.
      added = set(flat(want)) - set(flat(b))
      types_ = any(type(flat(b).get(k)) != type(v) for k, v in flat(want).items())
      c.require(added or types_, f'fails: {e}', case)
      c.require(base.to_dict() == b, 'the base configuration is modified', case)
      continue
    c.require(got.to_dict() == want, f'{got.to_dict()}, expected {want}', case)
    c.require(base.to_dict() == b and (over is None or over.to_dict() == o),
              'a configuration is modified', case)
    with got.unlocked():
      got.zzz = 1
      if 'b' in got:
        got.b.c = 100
    c.require(base.to_dict() == b, 'the result shares fields with the base configuration', case)
    c.case(('over', str(b), str(o), lock))


def flat(d, p=''):
  out = {}
  for k, v in d.items():
    if isinstance(v, dict):
      out.update(flat(v, p + k + '.'))
    else:
      out[p + k] = v
  return out


# ---- random keys ------------------------------------------------------------
def data(k):
  return tuple(np.asarray(jax.random.key_data(k) if jnp.issubdtype(k.dtype, jax.dtypes.prng_key)
                          else k).tolist())


def job_keys(c):
  names = ('params', 'dropout', 'gating', 'mixup')
  for n in range(5):
    for sel in itertools.permutations(names, n):
      seen = {}
      for seed in (0, 1, 2, 12345):
        r = utils.make_rngs(sel, seed)
        c.require(set(r) == set(sel), f'keys {sorted(r)}', dict(names=sel, seed=seed))
        again = utils.make_rngs(sel, seed)
        for k in sel:
          c.require(data(r[k]) == data(again[k]), 'not reproducible', dict(names=sel, seed=seed))
          c.require(data(r[k]) not in seen, f'{k} of seed {seed} has the key of {seen.get(data(r[k]))}',
                    dict(names=sel, seed=seed))
          seen[data(r[k])] = (k, seed)
        # Splits, twice: a tree of distinct keys, also distinct from the parents.
        if seed < 2:
          all_ = {data(v): ('parent', k) for k, v in r.items()}
          for splits in (None, 1, 2, 3, 4):
            got = utils.tree_rngs_split(r, **({} if splits is None else dict(num_splits=splits)))
            c.require(len(got) == (splits or 2), f'{len(got)} splits', dict(names=sel))
            mine = dict(all_)
            for i, t in enumerate(got):
              c.require(set(t) == set(sel), 'names of a split', dict(names=sel))
              for k in sel:
                d = data(t[k])
                c.require(d not in mine, f'key of split {i} of {k} is that of {mine.get(d)}',
                          dict(names=sel, seed=seed, splits=splits))
                mine[d] = (i, k)
            c.case(('split', sel, seed, splits))
        c.case(('keys', sel, seed))


def job_multiply(c):
  vals = np.array([0., -0., 1., -2.5, 1e-30, np.inf, -np.inf, np.nan, 3.], np.float32)
  x, y = (a.reshape(-1) for a in np.meshgrid(vals, vals))
  with np.errstate(invalid='ignore'):
    want = np.where(x == 0, 0, x * y)
  for jit in (False, True):
    f = jax.jit(utils.multiply_no_nan) if jit else utils.multiply_no_nan
    got = np.asarray(f(jnp.asarray(x), jnp.asarray(y)))
    bad = ~((got == want) | (np.isnan(got) & np.isnan(want)))
    c.require(not bad.any(), lambda: f'{x[bad][0]} * {y[bad][0]} is {got[bad][0]}', dict(jit=jit))
    gx, gy = jax.vmap(jax.grad(f, (0, 1)))(jnp.asarray(x), jnp.asarray(y))
    zero = x == 0
    c.require(np.isfinite(np.asarray(gx)[zero]).all() and (np.asarray(gy)[zero] == 0).all(),
              'gradients of zero factors', dict(jit=jit))
    fin = np.isfinite(x) & np.isfinite(y) & ~zero
    c.require((np.asarray(gx)[fin] == y[fin]).all() and (np.asarray(gy)[fin] == x[fin]).all(),
              'gradients', dict(jit=jit))
    for i in range(len(x)):
      c.case(('mul', i, jit))


def run_job(c, j):
  globals()['job_' + j](c)


def run(c):
  c.parallel(['keys', 'calls', 'zip', 'patterns', 'partial', 'models', 'overrides', 'multiply'],
             run_job)
