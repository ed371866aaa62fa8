"""C27: a processing string applies its operations in order, each as documented."""
import itertools
import os

os.environ.setdefault('CUDA_VISIBLE_DEVICES', '')

import numpy as np

from mc import core

import tensorflow as tf
import vmoe.data.input_pipeline as ip

LEVEL = 'exploration'
RULE = ('a case = one processing string run by the real get_data_process_fn inside '
        'tf.data on several examples, compared with numpy; distinct = processing string')
ASSUMPTIONS = ['sequences of up to 3 operations out of an alphabet of 25; images of up to 9x8; '
               'randaug and tokenize need packages that are not installed',
               'interpolated uint8 values within 0.001 of a whole number may be rounded '
               'either way']
VALID = '__valid__'


def bilinear(x, h, w):
  def axis(x, n, ax):
    m = x.shape[ax]
    pos = np.clip((np.arange(n) + 0.5) * m / n - 0.5, 0, m - 1)
    lo = np.floor(pos).astype(int)
    hi = np.minimum(lo + 1, m - 1)
    f = (pos - lo).reshape([-1 if a == ax else 1 for a in range(x.ndim)])
    return np.take(x, lo, ax) * (1 - f) + np.take(x, hi, ax) * f
  return axis(axis(x.astype(np.float64), h, 0), w, 1)


def nearest(x, h, w):
  iy = np.floor((np.arange(h) + 0.5) * x.shape[0] / h).astype(int)
  ix = np.floor((np.arange(w) + 0.5) * x.shape[1] / w).astype(int)
  return x[iy][:, ix]


def area(x, h, w):
  def axis(x, n, ax):
    m = x.shape[ax]
    wts = np.zeros((n, m))
    for i in range(n):
      a, b = i * m / n, (i + 1) * m / n
      for j in range(m):
        wts[i, j] = max(0., min(b, j + 1) - max(a, j))
    wts /= wts.sum(1, keepdims=True)
    return np.moveaxis(np.tensordot(wts, x, (1, ax)), 0, ax)
  return axis(axis(x.astype(np.float64), h, 0), w, 1)


EPS = [1e-3]


class Skip(Exception):
  pass


def op_crop(h, w, i='image', o='image'):
  def f(d):
    x = d[i]
    if x.ndim != 3 or x.shape[0] < h or x.shape[1] < w:
      raise Skip
    y, z = (x.shape[0] - h) // 2, (x.shape[1] - w) // 2
    return {**d, o: x[y:y + h, z:z + w]}
  return f


def op_resize(h, w, kind, k='image', o=None):
  def f(d):
    x = d[k]
    if x.ndim != 3:
      raise Skip
    y = (bilinear if kind == 'bilinear' else nearest)(x, h, w)
    if x.dtype == np.uint8 and kind == 'bilinear':
      y = np.clip(np.floor(y + EPS[0]), 0, 255)
    return {**d, o or k: y.astype(x.dtype)}
  return f


def op_small(s):
  def f(d):
    x = d['image']
    if x.ndim != 3:
      raise Skip
    r = np.float32(s) / np.float32(min(x.shape[:2]))
    h, w = (int(np.round(np.float32(n) * r)) for n in x.shape[:2])
    return {**d, 'image': area(x, h, w).astype(np.float32)}
  return f


def op_range(lo, hi, imin, imax, clip, k='image'):
  def f(d):
    x = (d[k].astype(np.float64) - np.array(imin)) / (np.array(imax) - np.array(imin))
    x = lo + x * (hi - lo)
    return {**d, k: (np.clip(x, lo, hi) if clip else x).astype(np.float32)}
  return f


def op_onehot(depth, multi, on, off, i='labels', o='labels'):
  def f(d):
    y = d[i]
    if y.dtype not in (np.int32, np.int64) or (y.size and (y.max() >= depth or y.ndim > 1)):
      raise Skip
    if y.ndim and multi:
      x = np.full(depth, off, np.float32)
      x[y] = on
    else:
      x = np.where(np.arange(depth) == y[..., None], np.float32(on), np.float32(off))
    return {**d, o: x.astype(np.float32)}
  return f


def op_keep(*keys):
  return lambda d: {k: v for k, v in d.items() if k in keys + (VALID,)}


def op_copy(a, b):
  return lambda d: {**d, b: d[a]}


def op_ignore(key, valid=VALID):
  return lambda d: {**d, valid: np.logical_and(d.get(valid, True), d[key].size > 0)}


def op_reshape(*shape):
  def f(d):
    x = d['image']
    if x.size != np.prod(shape) and -1 not in shape:
      raise Skip
    if -1 in shape and x.size % abs(int(np.prod(shape))):
      raise Skip
    return {**d, 'image': x.reshape(shape)}
  return f


def op_flatten():
  def f(d):
    out = {}
    for k, v in d.items():
      if isinstance(v, dict):
        out.update({f'{k}/{a}': b for a, b in v.items()})
      else:
        out[k] = v
    return out
  return f


OPS = [
    ('central_crop(2)', op_crop(2, 2)),
    ('central_crop((3, 2))', op_crop(3, 2)),
    ('central_crop([1,4], inkey="image", outkey="crop")', op_crop(1, 4, 'image', 'crop')),
    ('resize(3)', op_resize(3, 3, 'bilinear')),
    ('resize((2, 5))', op_resize(2, 5, 'bilinear')),
    ('resize([5, 4], resize_method="nearest")', op_resize(5, 4, 'nearest')),
    ('resize(4, key="crop")', op_resize(4, 4, 'bilinear', 'crop')),
    ('resize_small(3)', op_small(3)),
    ('resize_small(smaller_size=2)', op_small(2)),
    ('value_range(-1, 1)', op_range(-1, 1, 0, 255., False)),
    ('value_range(0, 2, 10, 60)', op_range(0, 2, 10, 60, False)),
    ('value_range(vmin=-1, vmax=1, in_min=[0, 10, 20.], in_max=[10., 40, 50.], clip_values=True)',
     op_range(-1, 1, [0, 10, 20.], [10., 40., 50.], True)),
    ('onehot(5)', op_onehot(5, True, 1., 0.)),
    ('onehot(4, on=0.9, off=0.1)', op_onehot(4, True, .9, .1)),
    ('onehot(6, multi=False, inkey="labels", outkey="hot")',
     op_onehot(6, False, 1., 0., 'labels', 'hot')),
    ('onehot(5, key="label")', op_onehot(5, True, 1., 0., 'label', 'label')),
    ('keep("image", "labels")', op_keep('image', 'labels')),
    ("keep('labels', 'label', 'crop')", op_keep('labels', 'label', 'crop')),
    ('keep("info")', op_keep('info')),
    ('copy("image", "crop")', op_copy('image', 'crop')),
    ('copy(inkey="labels", outkey="label")', op_copy('labels', 'label')),
    ('ignore_no_labels()', op_ignore('labels')),
    ('ignore_no_labels(labels_key="label", valid_key="ok")', op_ignore('label', 'ok')),
    ('flatten()', op_flatten()),
    ('reshape((-1, 3))', op_reshape(-1, 3)),
    ('vmoe.data.pp_ops.copy("info", "info2")', op_copy('info', 'info2')),
    ('flatten', op_flatten()),
]


def examples(with_valid):
  out = []
  for i, ((h, w), labels) in enumerate([((5, 4), [1, 3, 1]), ((4, 7), [0]), ((9, 8), []),
                                        ((4, 4), [4, 2])]):
    x = (np.arange(h * w * 3).reshape(h, w, 3) * (7 + i) % 256).astype(np.uint8)
    d = dict(image=x, labels=np.array(labels, np.int64), label=np.int64(i % 3),
             info=dict(a=np.int32(i), b=np.float32(i / 2)))
    if with_valid:
      d[VALID] = np.bool_(i % 2)
    out.append(d)
  return out


def spec(with_valid):
  s = dict(image=tf.TensorSpec([None, None, 3], tf.uint8), labels=tf.TensorSpec([None], tf.int64),
           label=tf.TensorSpec([], tf.int64),
           info=dict(a=tf.TensorSpec([], tf.int32), b=tf.TensorSpec([], tf.float32)))
  if with_valid:
    s[VALID] = tf.TensorSpec([], tf.bool)
  return s


def apply_ref(fs, d):
  for f in fs:
    d = f(d)
  return d


def same(a, b, b2=None):
  """Whether a is between b and b2 (the results of rounding down and up)."""
  b2 = b if b2 is None else b2
  if isinstance(a, dict) or isinstance(b, dict):
    return isinstance(a, dict) and isinstance(b, dict) and set(a) == set(b) and all(
        same(a[k], b[k], b2[k]) for k in a)
  a, b, b2 = np.asarray(a), np.asarray(b), np.asarray(b2)
  if a.shape != b.shape or a.dtype != b.dtype:
    return False
  if a.dtype == bool:
    return bool((a == b).all())
  tol = 1e-3 if a.dtype.kind == 'f' else 0
  a, b, b2 = a.astype(np.float64), b.astype(np.float64), b2.astype(np.float64)
  return bool(((a >= b - tol) & (a <= b2 + tol)).all())


def show(d):
  return {k: (show(v) if isinstance(v, dict) else (np.asarray(v).shape, str(np.asarray(v).dtype),
                                                  np.asarray(v).ravel()[:8].tolist()))
          for k, v in d.items()}


def job_seq(c, seqs):
  for seq in seqs:
    with_valid = sum(seq) % 2 == 0
    ex = examples(with_valid)
    want, keep_ex = [], []
    for d in ex:
      try:
        EPS[0] = -1e-3
        low = apply_ref([OPS[i][1] for i in seq], d)
        EPS[0] = 1e-3
        want.append((low, apply_ref([OPS[i][1] for i in seq], d)))
        keep_ex.append(d)
      except (Skip, KeyError, IndexError, TypeError, ValueError, AttributeError):
        continue
    if not want or any(not w[1] for w in want):
      continue
    s = '|'.join(OPS[i][0] for i in seq)
    c.context = s
    fn = ip.get_data_process_fn(s)
    ds = tf.data.Dataset.from_generator(lambda: iter(keep_ex), output_signature=spec(with_valid))
    try:
      got = list(ds.map(fn).as_numpy_iterator())
    except Exception as e:  # pylint: disable=broad-except
      c.fail(f'{type(e).__name__}: {str(e)[:300]}', s)
    c.require(len(got) == len(want), 'number of examples', s)
    for g, w in zip(got, want):
      c.require(same(g, *w), lambda: f'got {show(g)}, expected {show(w[1])}', s)
      c.transition()
    c.case(s)


def rects(x, img):
  """All the places (y, x) where x is a sub-rectangle of img."""
  h, w = x.shape[:2]
  return [(i, j) for i in range(img.shape[0] - h + 1) for j in range(img.shape[1] - w + 1)
          if (img[i:i + h, j:j + w] == x).all()]


def draw(s, d, n):
  ds = tf.data.Dataset.from_tensors(d).repeat(n).map(ip.get_data_process_fn(s))
  return list(ds.as_numpy_iterator())


def coded(h, w):
  yy, xx = np.mgrid[:h, :w]
  return np.stack([yy * 3, xx * 3, yy + xx], -1).astype(np.uint8)


def job_random(c, h, w):
  tf.random.set_seed(7)
  x = coded(h, w)
  # Flips.
  for s in ('flip_lr', 'flip_lr(key="other")', 'copy("image", "other")|flip_lr(inkey="other", '
            'outkey="other")'):
    c.context = s
    out = draw(s, dict(image=x, other=x), 40)
    k = 'other' if 'other' in s else 'image'
    kinds = set()
    for o in out:
      a = np.array_equal(o[k], x)
      b = np.array_equal(o[k], x[:, ::-1])
      c.require(a or b, 'neither the image nor its mirror image', s)
      kinds.add(a)
      if k == 'other':
        c.require(np.array_equal(o['image'], x), 'another key was changed', s)
    c.require(w == 1 or len(kinds) == 2, 'always, or never, flipped', s)
    c.case(s + repr((h, w)))
  # Crops.
  for lo, hi in ((5, 100), (20, 50), (60, 60), (90, 100)):
    s = f'inception_crop(area_min={lo}, area_max={hi})'
    c.context = s
    shapes = set()
    for o in draw(s, dict(image=x), c.q(60, 300)):
      y = o['image']
      c.require(y.dtype == np.uint8 and len(rects(y, x)) >= 1, 'not a part of the image', s)
      a, b = y.shape[:2]
      shapes.add((a, b, rects(y, x)[0]))
      if (a, b) == (h, w):
        continue  # Also used when no acceptable crop is found.
      # Bounds up to the rounding of one of the sides to a whole pixel.
      c.require((a + 1) * (b + 1) * 100 >= lo * h * w and (a - 1) * (b - 1) * 100 <= hi * h * w,
                f'crop of {a}x{b} of {h}x{w}: area not in [{lo}%, {hi}%]', s)
      c.require((b + 1) / max(a - 1, .5) >= 0.75 and (b - 1) / (a + 1) <= 4 / 3,
                f'crop of {a}x{b}: aspect ratio', s)
      c.transition()
    c.require(lo == 60 or lo == 90 or len(shapes) > 1, 'always the same crop', s)
    c.case(s + repr((h, w)))
  # With a resize, every crop has the given size; whole image = plain resize.
  for size, t in (('4', (4, 4)), ('(3, 6)', (3, 6))):
    for m in ('bilinear', 'nearest'):
      s = f'inception_crop({size}, 30, 100, resize_method="{m}")'
      c.context = s
      for o in draw(s, dict(image=x), 20):
        y = o['image'].astype(int)
        c.require(y.shape == t + (3,) and o['image'].dtype == np.uint8, f'shape {y.shape}', s)
        c.require((np.diff(y[..., 0], axis=0) >= 0).all() and (np.diff(y[..., 1], axis=1) >= 0).all()
                  and (np.diff(y[..., 0], axis=1) == 0).all(), 'not a resized part', s)
      c.case(s + repr((h, w)))
      if h == w:
        s = f'inception_crop(resize_size={size}, area_min=100, resize_method="{m}")'
        want = (bilinear if m == 'bilinear' else nearest)(x, *t)
        for o in draw(s, dict(image=x), 5):
          c.require(np.abs(o['image'] - np.floor(want + 1e-6)).max() <= 1.01,
                    'whole image resized differently', s)
        c.case(s + repr((h, w)))


def job_decode(c, h, w):
  tf.random.set_seed(8)
  x = coded(h, w)
  png = tf.io.encode_png(x).numpy()
  gray = tf.io.encode_png(x[..., :1]).numpy()
  for s, data, want in (
      ('decode', dict(image=png), x), ('decode()', dict(image=png), x),
      ('decode(1)', dict(image=gray), x[..., :1]),
      ('decode', dict(image=gray), np.repeat(x[..., :1], 3, -1)),
      ('decode(key="raw")', dict(image=png, raw=png), x),
      ('decode|resize((2, 3), "nearest")|value_range(0, 1)', dict(image=png),
       (nearest(x, 2, 3) / 255.).astype(np.float32)),
      ('decode|resize((2, 3))|central_crop(2)', dict(image=png),
       np.floor(bilinear(x, 2, 3) + 1e-6)[:, :2].astype(np.uint8))):
    c.context = s
    o = draw(s, data, 1)[0]
    k = 'raw' if 'raw' in s else 'image'
    c.require(same(o[k], np.maximum(want, 1) - 1 if 'resize((2, 3))|' in s else want, want), lambda: f'{show(o)}', s)
    c.case(s + repr((h, w)))
  big = np.repeat(np.repeat(x, 8, 0), 8, 1)
  jpg = tf.io.encode_jpeg(big, quality=100).numpy()
  full = tf.io.decode_jpeg(jpg, channels=3).numpy().astype(int)
  for lo, hi in ((5, 100), (20, 40), (100, 100)):
    s = f'decode_jpeg_and_inception_crop(area_min={lo}, area_max={hi})'
    c.context = s
    shapes = set()
    for o in draw(s, dict(image=jpg), 12):
      y = o['image'].astype(int)
      a, b = y.shape[:2]
      err = min(np.abs(full[i:i + a, j:j + b] - y).mean() for i in range(8 * h - a + 1)
                for j in range(8 * w - b + 1))
      c.require(err < 2.5, f'not a part of the image (difference {err})', s)
      shapes.add((a, b, y[0, 0].tobytes()))
      if (a, b) != (8 * h, 8 * w):
        c.require((a + 1) * (b + 1) * 100 >= lo * 64 * h * w and
                  (a - 1) * (b - 1) * 100 <= hi * 64 * h * w,
                  f'crop of {a}x{b}: area not in [{lo}%, {hi}%]', s)
        c.require(0.7 <= b / a <= 1.45, f'crop of {a}x{b}: aspect ratio', s)
      c.transition()
    c.require(lo == 100 or len(shapes) > 1, 'always the same crop', s)
    c.case(s + repr((h, w)))
  s = 'decode_jpeg_and_inception_crop((5, 7), area_min=30)'
  c.require(all(o['image'].shape == (5, 7, 3) for o in draw(s, dict(image=jpg), 4)), 'size', s)
  if h == w:
    s = 'decode_jpeg_and_inception_crop(5, 100)'
    want = bilinear(full, 5, 5)
    c.require(all(np.abs(o['image'] - want).max() < 3 for o in draw(s, dict(image=jpg), 3)),
              'whole image resized differently', s)
  c.case(s + repr((h, w)))


def run_job(c, j):
  try:
    {'seq': job_seq, 'random': job_random, 'decode': job_decode}[j[0]](c, *j[1])
  except tf.errors.OpError as e:
    c.fail(f'{type(e).__name__}: {str(e)[:300]}', c.context)


def run(c):
  n = len(OPS)
  seqs = [s for k in c.q((1, 2), (1, 2, 3)) for s in itertools.product(range(n), repeat=k)]
  if not c.thorough:
    # Of the sequences of three, those made of operations on the image.
    seqs += list(itertools.product((0, 2, 4, 5, 6, 8, 9, 19), repeat=3))
  jobs = [('random', hw) for hw in ((6, 6), (5, 9), (12, 8), (3, 1))[:c.q(3, 4)]]
  jobs += [('decode', hw) for hw in ((6, 6), (5, 7))]
  k = 40
  jobs += [('seq', (seqs[i:i + k],)) for i in range(0, len(seqs), k)]
  c.parallel(jobs, run_job)
