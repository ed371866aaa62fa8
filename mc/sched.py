"""Controlled scheduler and file-system seam for the checkpoint code.

Every task that the code under test hands to a thread pool, and the caller
itself, is a managed thread. Exactly one managed thread runs at a time (a baton);
it stops before each visible file-system operation on the scratch directory and
whenever it waits for a result, and the explorer decides who moves next. A crash
is modelled by never moving anyone again.

File model: `write` only fills a user-space buffer; the bytes reach the file when
it is flushed or closed, in two steps (first half, everything), so that a crash
leaves an empty, a torn or a complete file. rename / remove / mkdir are atomic.
"""
import builtins
import concurrent.futures
import io
import multiprocessing.pool
import os
import threading

from tensorflow.io import gfile
import tensorflow as tf

from mc import core


class Crash(BaseException):
  """Unwinds a managed thread after the exploration of this history ended."""


class Managed(threading.Thread):

  def __init__(self, sched, name, fn):
    super().__init__(name=name, daemon=True)
    self.sched = sched
    self.fn = fn
    self.op = ('start',)
    self.steps = 0
    self.status = 'ready'          # ready | blocked | done
    self.waiting = None            # predicate when blocked
    self.go = threading.Semaphore(0)
    self.value = None
    self.error = None

  def run(self):
    self.go.acquire()
    try:
      if self.sched.dead:
        raise Crash()
      self.value = self.fn()
    except Crash:
      pass
    except BaseException as e:  # pylint: disable=broad-except
      self.error = e
    self.status = 'done'
    self.sched.back.release()


class Sched:
  """One controlled execution."""

  def __init__(self):
    self.threads = []
    self.back = threading.Semaphore(0)
    self.dead = False
    self.trace = []

  def spawn(self, name, fn):
    t = Managed(self, name, fn)
    self.threads.append(t)
    t.start()
    return t

  def me(self):
    t = threading.current_thread()
    return t if isinstance(t, Managed) and t.sched is self else None

  def gate(self, *op):
    t = self.me()
    if t is None:
      return
    if self.dead:
      raise Crash()
    t.op = op
    self.back.release()
    t.go.acquire()
    if self.dead:
      raise Crash()

  def block(self, pred):
    t = self.me()
    if t is None:
      if not pred():
        raise core.HarnessError('unmanaged thread waits for a managed one')
      return
    while not pred():
      if self.dead:
        raise Crash()
      t.status, t.waiting, t.op = 'blocked', pred, ('wait',)
      self.back.release()
      t.go.acquire()
      t.status, t.waiting = 'ready', None
    if self.dead:
      raise Crash()

  def enabled(self):
    return [i for i, t in enumerate(self.threads)
            if t.status == 'ready' or (t.status == 'blocked' and t.waiting())]

  def step(self, i):
    t = self.threads[i]
    self.trace.append((t.name,) + tuple(t.op))
    t.steps += 1
    t.go.release()
    self.back.acquire()

  def finished(self):
    return all(t.status == 'done' for t in self.threads)

  def kill(self):
    self.dead = True
    for t in self.threads:
      while t.status != 'done':
        t.go.release()
        self.back.acquire()
    for t in self.threads:
      t.join()


CURRENT = None      # the Sched of the execution under exploration
ROOT = None         # paths below this directory are visible operations


def visible(path):
  if ROOT is None or CURRENT is None or CURRENT.me() is None:
    return False
  try:
    return os.fspath(path).startswith(ROOT)
  except TypeError:
    return False


def rel(path):
  return os.path.relpath(os.fspath(path), ROOT)


class WFile:
  """A file opened for writing under the file model."""

  def __init__(self, path, mode):
    self.path, self.mode = os.fspath(path), mode
    self.buf, self.written, self.closed = bytearray(), 0, False
    CURRENT.gate('open', rel(path), mode)
    flags = 'ab' if 'a' in mode else ('xb' if 'x' in mode else 'wb')
    self.fd = _real['open'](self.path, flags, buffering=0)
    self.name = self.path

  def write(self, data):
    if self.closed:
      raise ValueError('write to closed file')
    if isinstance(data, str):
      data = data.encode()
    self.buf += data
    return len(data)

  def writable(self):
    return True

  def readable(self):
    return False

  def seekable(self):
    return False

  def fileno(self):
    return self.fd.fileno()

  def flush(self):
    data = bytes(self.buf[self.written:])
    if data:
      h = len(data) // 2
      if h:
        CURRENT.gate('write-half', rel(self.path), hash(data))
        self.fd.write(data[:h])
      CURRENT.gate('write-rest', rel(self.path), hash(data))
      self.fd.write(data[h:])
      self.written = len(self.buf)

  def size(self):
    return self.written

  def tell(self):
    return len(self.buf)

  def close(self):
    if not self.closed:
      self.closed = True
      try:
        self.flush()
      finally:
        self.fd.close()

  def __enter__(self):
    return self

  def __exit__(self, *a):
    if a[0] is not None and issubclass(a[0], Crash):
      self.closed = True
      self.fd.close()
      return False
    self.close()
    return False

  def __del__(self):
    try:
      self.fd.close()
    except Exception:  # pylint: disable=broad-except
      pass


_real = {}


def _gfile(name, mode='r'):
  if any(m in mode for m in 'wax+') and visible(name):
    return WFile(name, mode)
  if GATE_READS and visible(name):
    CURRENT.gate('read', rel(name))
  return _real['GFile'](name, mode)


def _open(file, mode='r', *a, **k):
  if (isinstance(mode, str) and any(m in mode for m in 'wax') and
      not isinstance(file, int) and visible(file)):
    return WFile(file, mode)
  return _real['open'](file, mode, *a, **k)


def _op2(name, label):
  def f(src, dst, *a, **k):
    if visible(dst) or visible(src):
      CURRENT.gate(label, rel(src), rel(dst))
    return _real[name](src, dst, *a, **k)
  return f


def _op1(name, label):
  def f(path, *a, **k):
    if visible(path):
      CURRENT.gate(label, rel(path))
    return _real[name](path, *a, **k)
  return f


class Result:
  """AsyncResult / MapResult / Future over managed threads."""

  def __init__(self, sched, threads, single, callback=None, error_callback=None):
    self.sched, self.threads, self.single = sched, threads, single
    self.callback, self.error_callback = callback, error_callback

  def ready(self):
    return all(t.status == 'done' for t in self.threads)

  done = ready

  def wait(self, timeout=None):
    del timeout
    self.sched.block(self.ready)

  def get(self, timeout=None):
    self.wait(timeout)
    for t in self.threads:
      if t.error is not None:
        raise t.error
    vals = [t.value for t in self.threads]
    return vals[0] if self.single else vals

  result = get

  def successful(self):
    if not self.ready():
      raise ValueError('not ready')
    return all(t.error is None for t in self.threads)

  def exception(self, timeout=None):
    self.wait(timeout)
    for t in self.threads:
      if t.error is not None:
        return t.error
    return None

  def cancel(self):
    return False


class CtlPool:
  """Stand-in for ThreadPool / ThreadPoolExecutor whose tasks are managed."""

  def __init__(self, *a, **k):
    del a, k
    self.sched = CURRENT
    self.all = []

  def _submit(self, calls, single=False, cb=None, ecb=None):
    ts = []
    for n, f in enumerate(calls):
      ts.append(self.sched.spawn(f't{len(self.sched.threads)}', f))
    self.all += ts
    return Result(self.sched, ts, single, cb, ecb)

  def apply_async(self, func, args=(), kwds=None, callback=None,
                  error_callback=None):
    def call():
      v = func(*args, **(kwds or {}))
      if callback:
        callback(v)
      return v
    return self._submit([call], True)

  def apply(self, func, args=(), kwds=None):
    return self.apply_async(func, args, kwds).get()

  def map_async(self, func, iterable, chunksize=None, callback=None,
                error_callback=None):
    del chunksize, error_callback
    r = self._submit([lambda x=x: func(x) for x in iterable])
    if callback:
      raise core.HarnessError('map_async callback not supported')
    return r

  def map(self, func, *iterables, chunksize=None, timeout=None):
    del chunksize, timeout
    if len(iterables) == 1 or not iterables:
      return self.map_async(func, *iterables).get()
    return self._submit([lambda x=x: func(*x) for x in zip(*iterables)]).get()

  def starmap_async(self, func, iterable, chunksize=None):
    return self._submit([lambda x=x: func(*x) for x in iterable])

  def starmap(self, func, iterable, chunksize=None):
    return self.starmap_async(func, iterable).get()

  def imap(self, func, iterable, chunksize=1):
    return iter(self.map(func, iterable))

  imap_unordered = imap

  def submit(self, func, *args, **kwargs):
    return self.apply_async(func, args, kwargs)

  def close(self):
    pass

  def terminate(self):
    pass

  def shutdown(self, wait=True, **k):
    if wait:
      self.join()

  def join(self):
    self.sched.block(lambda: all(t.status == 'done' for t in self.all))

  def __enter__(self):
    return self

  def __exit__(self, *a):
    if a[0] is None:
      self.join()
    return False


def _pool_factory(real):
  def make(*a, **k):
    if CURRENT is not None and CURRENT.me() is not None:
      return CtlPool(*a, **k)
    return real(*a, **k)
  return make


def install(root, modules=()):
  """Puts the seam in place for paths below `root`."""
  global ROOT
  ROOT = os.path.abspath(root)
  if _real:
    return
  _real.update(GFile=gfile.GFile, open=builtins.open)
  for m in (gfile, tf.io.gfile):
    m.GFile = _gfile
  builtins.open = _open
  io.open = _open
  for name, label in (('rename', 'rename'), ('copy', 'copy')):
    _real['g' + name] = getattr(gfile, name)
    for m in (gfile, tf.io.gfile):
      setattr(m, name, _op2('g' + name, label))
  for name, label in (('remove', 'remove'), ('makedirs', 'mkdir'),
                      ('mkdir', 'mkdir'), ('rmtree', 'rmtree')):
    _real['g' + name] = getattr(gfile, name)
    for m in (gfile, tf.io.gfile):
      setattr(m, name, _op1('g' + name, label))
  for name in ('rename', 'replace', 'link'):
    _real['o' + name] = getattr(os, name)
    setattr(os, name, _op2('o' + name, name))
  for name in ('remove', 'unlink', 'mkdir', 'rmdir'):
    _real['o' + name] = getattr(os, name)
    setattr(os, name, _op1('o' + name, name))
  tp = multiprocessing.pool.ThreadPool
  for m in (multiprocessing.pool,) + tuple(modules):
    if getattr(m, 'ThreadPool', None) is tp:
      m.ThreadPool = _pool_factory(tp)
  ex = concurrent.futures.ThreadPoolExecutor
  concurrent.futures.ThreadPoolExecutor = _pool_factory(ex)
  concurrent.futures.thread.ThreadPoolExecutor = concurrent.futures.ThreadPoolExecutor


def begin():
  global CURRENT
  CURRENT = Sched()
  return CURRENT


def end():
  global CURRENT
  if CURRENT is not None:
    CURRENT.kill()
  CURRENT = None


GATE_READS = False


def explore(setup, program, key, at_end, check, max_preempt=None):
  """Stateless DFS over all schedules of `program`, merging equal states.

  setup() prepares the world; program() runs as the first managed thread;
  key(sched) is the canonical state (None: never merge); at_end(sched, value,
  error) judges a finished execution. Returns the number of executions.
  """
  seen = set()
  todo = [()]
  runs = 0
  while todo:
    pre = todo.pop()
    setup()
    s = begin()
    root = s.spawn('main', program)
    choices = []
    last = None
    preempts = 0
    try:
      while True:
        en = s.enabled()
        if len(choices) >= len(pre):
          k = key(s)
          if k is not None:
            k = (k, tuple((t.status, t.op, t.steps) for t in s.threads))
            if k in seen:
              break
            seen.add(k)
          if not en:
            if not s.finished():
              check.fail('deadlock', {'schedule': s.trace})
            runs += 1
            check.case()
            at_end(s, root.value, root.error)
            break
          order = ([last] if last in en else []) + [i for i in en if i != last]
          for n, alt in enumerate(order[1:]):
            cost = preempts + (1 if last in en else 0)
            if max_preempt is None or cost <= max_preempt:
              todo.append(tuple(choices) + (alt,))
          nxt = order[0]
        else:
          nxt = pre[len(choices)]
          if nxt not in en:
            raise core.HarnessError(f'schedule diverged at {len(choices)} of {pre}')
        if last is not None and last in en and nxt != last:
          preempts += 1
        last = nxt
        s.step(nxt)
        choices.append(nxt)
        check.count('schedule_steps')
    finally:
      end()
  return runs
