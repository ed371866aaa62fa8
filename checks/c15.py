"""C15: learning-rate schedules follow their documented curve at every step."""
import itertools
import math

import numpy as np

from mc import core

import jax
import jax.numpy as jnp

LEVEL = 'exploration'
RULE = ('a case = the whole learning-rate curve of one configuration (every step '
        'from 0 to well after the end), evaluated by the real schedule with '
        'Python, NumPy and traced step counters and compared with a float64 '
        'evaluation of the documented formula, plus monotonicity and bounds; '
        'distinct = configuration')
ASSUMPTIONS = ['total lengths up to 8 (24 thorough) steps plus one paper-size '
               'configuration per schedule; decay_steps > warmup_steps; float32 at '
               '1e-5 of the peak']


def wlin(s, w, peak):
  return peak * s / w


def poly(s, w, d, peak, end, power):
  if s < w:
    return wlin(s, w, peak)
  f = 1 - min(s - w, d - w) / (d - w)
  return (peak - end) * f ** power + end


def cosine(s, w, d, peak, end):
  if s < w:
    return wlin(s, w, peak)
  f = min(s - w, d - w) / (d - w)
  return end + (peak - end) * 0.5 * (1 + math.cos(math.pi * f))


def expo(s, w, peak, ts, rate, begin, stair, end):
  if s < w:
    return wlin(s, w, peak)
  n = s - w - begin
  if n <= 0:
    v = peak
  else:
    p = n / ts
    v = peak * rate ** (math.floor(p) if stair else p)
  if end is not None:
    v = max(v, end) if rate < 1 else min(v, end)
  return v


def rsqrt(s, w, d, peak, ts, cd):
  if s < w:
    return wlin(s, w, peak)
  if s < d - cd or cd == 0:
    return peak / math.sqrt(1 + (s - w) / ts)
  top = peak / math.sqrt(1 + (d - w - cd) / ts)
  return top * max(0.0, 1 - (s - (d - cd)) / cd)


def configs(big):
  """(name, kwargs, total_steps, formula, decreasing_after_warmup, last step)."""
  D = range(1, 25) if big else range(1, 9)
  for v in (0.0, 0.1, 3):
    yield 'constant', dict(value=v), 5, (lambda s, v=v: v), 0, 8
  for d in D:
    for w in range(d):
      for peak, end in ((0.1, 0.0), (2.0, 0.5), (0.3, 0.3)):
        for default in (False, True):
          kw = dict(peak_value=peak, end_value=end, warmup_steps=w)
          total = d if default else d + 7
          if not default:
            kw['decay_steps'] = d
          yield ('warmup_cosine_decay', kw, total,
                 lambda s, a=(w, d, peak, end): cosine(s, *a), w, d + 5)
          yield ('warmup_linear_decay', kw, total,
                 lambda s, a=(w, d, peak, end): poly(s, *a, 1.0), w, d + 5)
          for power in (0.5, 2.0, 3):
            yield ('warmup_polynomial_decay', dict(kw, power=power), total,
                   lambda s, a=(w, d, peak, end, power): poly(s, *a), w, d + 5)
  for w, ts, rate, begin, stair, end in itertools.product(
      (1, 2, 5), (1, 2, 3), (0.5, 0.9), (0, 2), (False, True), (None, 0.03)):
    kw = dict(peak_value=0.1, warmup_steps=w, transition_steps=ts, decay_rate=rate)
    if begin:
      kw['transition_begin'] = begin
    if stair:
      kw['staircase'] = True
    if end is not None:
      kw['end_value'] = end
    yield ('warmup_exponential_decay', kw, 9,
           lambda s, a=(w, 0.1, ts, rate, begin, stair, end): expo(s, *a), w, w + 10)
  for d in D:
    for w in range(d + 1):
      for cd in range(d - w + 1):
        for ts in (1, 4, 10.0):
          for default in ((False, True) if ts == 4 else (False,)):
            kw = dict(peak_value=0.7, timescale=ts)
            if w:
              kw['warmup_steps'] = w
            if cd:
              kw['cooldown_steps'] = cd
            if not default:
              kw['decay_steps'] = d
            yield ('big_vision_rsqrt', kw, d if default else d + 3,
                   lambda s, a=(w, d, 0.7, ts, cd): rsqrt(s, *a), w, d + 6)
  # Paper-size configurations.
  for w, d in ((10_000, 300_000),):
    kw = dict(peak_value=8e-4, end_value=1e-5, warmup_steps=w)
    steps = [0, 1, w - 1, w, w + 1, d // 2, d - 1, d, d + 1, 2 * d]
    yield ('warmup_linear_decay', kw, d,
           lambda s: poly(s, w, d, 8e-4, 1e-5, 1.0), None, steps)
    yield ('warmup_cosine_decay', kw, d,
           lambda s: cosine(s, w, d, 8e-4, 1e-5), None, steps)
    yield ('big_vision_rsqrt',
           dict(peak_value=8e-4, warmup_steps=w, cooldown_steps=50_000,
                timescale=100_000), d,
           lambda s: rsqrt(s, w, d, 8e-4, 100_000, 50_000), None,
           steps + [d - 50_000 - 1, d - 50_000, d - 50_000 + 1])


def job(c, j):
  i, n = j
  from vmoe.train import schedule
  for k, (name, kw, total, formula, w, last) in enumerate(configs(c.thorough)):
    if k % n != i:
      continue
    info = {'schedule': name, 'kwargs': kw, 'total_steps': total}
    c.context = info
    fn = schedule.create_learning_rate_schedule(
        schedule=name, total_steps=total, **kw)
    steps = last if isinstance(last, list) else list(range(
        last + 1 if c.thorough or last > 15 else 16))
    want = np.array([formula(s) for s in steps])
    peak = max(kw.get('peak_value', kw.get('value')), 1e-9)
    # All steps at once through a traced counter; a few with host counters.
    got = np.asarray(jnp.stack([jnp.asarray(fn(s), jnp.float32) for s in steps])
                     if k % 16 == i % 16 or isinstance(last, list)
                     else jax.vmap(lambda s: jnp.asarray(fn(s), jnp.float32))(
                         jnp.asarray(steps, jnp.int32)))
    c.case((name, repr(sorted(kw.items())), total))
    c.count('steps', len(steps))
    bad = np.flatnonzero(~(np.abs(got - want) <= 2e-5 * peak))
    c.require(bad.size == 0, 'learning rate differs from the documented curve',
              lambda: {**info, 'step': steps[bad[0]], 'got': got[bad[0]],
                       'want': want[bad[0]]})
    c.require(np.all(got >= 0) and np.all(got <= peak * (1 + 1e-5)),
              'learning rate negative or above its peak', lambda: {**info, 'got': got})
    if w is not None and name != 'constant':
      d = np.diff(got)
      c.require(np.all(d[:w] > 0) and np.all(d[w:] <= 1e-6 * peak),
                'learning rate does not rise during the warmup and decay afterwards',
                lambda: {**info, 'got': got})
    one = np.asarray(jax.jit(fn)(jnp.asarray(steps[-1], jnp.int32)))
    c.require(abs(one - want[-1]) <= 2e-5 * peak, 'jitted value differs',
              lambda: {**info, 'got': one, 'want': want[-1]}) if k % 64 in (i, i + 16, i + 32) else None


def run(c):
  n = 16
  c.parallel([(i, n) for i in range(n)] + [('errors', 0)], dispatch)


def dispatch(c, j):
  if j[0] != 'errors':
    return job(c, j)
  from vmoe.train import schedule
  def raises(what, **kw):
    c.context = kw
    try:
      schedule.create_learning_rate_schedule(**kw)
    except ValueError:
      c.case(('error', repr(sorted(kw.items()))))
    else:
      c.fail(what, kw)
  for name in ('foo', '', 'warmup', 'rsqrt'):
    raises('unknown schedule accepted', schedule=name, total_steps=4)
  for d in range(0, 8):
    for w in range(0, 8):
      for cd in range(0, 8):
        kw = dict(schedule='big_vision_rsqrt', total_steps=9, peak_value=1.0,
                  decay_steps=d, timescale=1, warmup_steps=w, cooldown_steps=cd)
        if d < w + cd:
          raises('a schedule shorter than warmup + cooldown is accepted', **kw)
        elif d > 0:
          schedule.create_learning_rate_schedule(**kw)
          c.case()
  for ts in (0, -1):
    raises('non-positive timescale accepted', schedule='big_vision_rsqrt',
           total_steps=4, peak_value=1.0, timescale=ts)
