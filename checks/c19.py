"""C19: the logical mesh uses every device once and keeps processes together."""
import itertools
from unittest import mock

import numpy as np

from mc import core

import jax
from vmoe import partitioning

LEVEL = 'exploration'
RULE = ('a case = the logical mesh that the real get_auto_logical_mesh builds for one '
        'hardware topology (extent of every axis, devices per process, numbering and '
        'order of devices) and number of partitions; distinct = case')
ASSUMPTIONS = ['full rectangular topologies (TPU: core, x, y, z; others: devices of a '
               'process, processes) of up to 64 (256 thorough) devices; the devices of a process are '
               'a block of the hardware mesh, all blocks of the same shape']


class Dev:
  """Stands for a jax.Device; only its public attributes."""

  def __init__(self, **kw):
    self.__dict__.update(kw)

  def __repr__(self):
    return f'Dev({self.__dict__})'


def divisors(n):
  return [d for d in range(1, n + 1) if n % d == 0]


def tpu_devices(shape, local, numbering):
  nproc = tuple(a // b for a, b in zip(shape, local))
  total = int(np.prod(nproc))
  out = []
  for i, co in enumerate(itertools.product(*map(range, shape))):
    p = int(np.ravel_multi_index(tuple(a // b for a, b in zip(co, local)), nproc))
    if numbering == 1:
      p = total - 1 - p
    elif numbering == 2:
      p = int(np.ravel_multi_index(tuple(a // b for a, b in zip(co, local))[::-1],
                                   nproc[::-1]))
    out.append(Dev(id=i, platform='tpu', device_kind='TPU', core_on_chip=co[0],
                   coords=co[1:], process_index=p))
  return out


def greedy(n, shape):
  """Partitions per axis with the documented preference, or None."""
  c, x, y, z = shape
  order = (1, 2, 0) if z == 1 else (3, 2, 1, 0)
  p = [1] * 4
  left = n
  for a in order:
    p[a] = min(left, shape[a])
    left //= p[a]
  if int(np.prod(p)) != n or any(s % q for q, s in zip(p, shape)):
    return None
  return p


def check_mesh(c, mesh, devs, n, case):
  nd = len(devs)
  c.require(tuple(mesh.axis_names) == ('expert', 'replica'),
            f'axes {mesh.axis_names}', case)
  c.require(mesh.devices.shape == (n, nd // n) and n * (nd // n) == nd,
            f'mesh of shape {mesh.devices.shape} for {n} partitions of {nd} devices', case)
  ids = [d.id for d in mesh.devices.flat]
  c.require(sorted(ids) == sorted(d.id for d in devs),
            f'devices in the mesh: {ids}', case)
  procs = np.vectorize(lambda d: d.process_index)(mesh.devices)
  for p in np.unique(procs):
    idx = np.argwhere(procs == p)
    lo, hi = idx.min(0), idx.max(0) + 1
    c.require((procs[lo[0]:hi[0], lo[1]:hi[1]] == p).all(),
              f'the devices of process {p} are not a contiguous slice of the mesh',
              lambda: dict(case, processes=procs))


def job_tpu(c, shape):
  nd = int(np.prod(shape))
  for local in itertools.product(*map(divisors, shape)):
    if int(np.prod(local)) > 16 or (local[0] != shape[0] and not c.thorough):
      continue
    blocks = [(1, 2, 2, 1), (2, 2, 2, 1), (1, 2, 2, 2), (2, 2, 2, 2)]
    for numbering in (0, 1, 2) if local in blocks or c.thorough else (0,):
      devs = tpu_devices(shape, local, numbering)
      orders = [devs, devs[::-1]] if nd < 16 else [devs[::-1]]
      for me in {0, devs[-1].process_index}:
        mine = [d for d in devs if d.process_index == me]
        for k, order in enumerate(orders):
          with mock.patch.object(jax, 'local_devices', lambda *a, **kw: mine), \
               mock.patch.object(jax, 'devices', lambda *a, **kw: order), \
               mock.patch.object(jax, 'local_device_count', lambda *a, **kw: len(mine)):
            ns = sorted(set(divisors(nd)) | ({3, 5, 6} & set(range(nd))))
            for n in ns + [nd + 3]:
              case = dict(platform='tpu', shape=shape, local=local,
                          numbering=numbering, process=me, order=k, partitions=n)
              c.context = case
              eff = min(n, nd)
              want = greedy(eff, shape)
              try:
                mesh = (partitioning.get_auto_logical_mesh(n, order) if n % 2 else
                        partitioning.get_auto_logical_mesh(n))
              except ValueError:
                mesh = None
              if want is None:
                c.require(mesh is None, 'impossible partitioning accepted', case)
              elif mesh is None:
                # Refused: only legitimate when no axis-wise tiling keeps the
                # processes together.
                bad = any(p % l and (s // p) % l for p, s, l in zip(want, shape, local))
                c.require(bad, 'a feasible partitioning was refused', case)
                c.count('refused')
              if mesh is not None:
                check_mesh(c, mesh, devs, eff, case)
              # All processes must agree on the mesh: checked below by value.
              key = (shape, local, numbering, n)
              sig = None if mesh is None else tuple(d.id for d in mesh.devices.flat)
              c.require(AGREE.setdefault(key, sig) == sig,
                        'the processes (or device orders) disagree on the mesh', case)
              c.case(('tpu', shape, local, numbering, me, k, n))
  AGREE.clear()


AGREE = {}


def job_other(c, nloc, nproc, base):
  """CPU/GPU: consecutive ids within a process (base = id stride of a process)."""
  for platform in ('cpu', 'gpu'):
    devs = [Dev(id=p * (base or nloc) + d, platform=platform, device_kind=platform,
                process_index=p) for p in range(nproc) for d in range(nloc)]
    nd = len(devs)
    for k, order in enumerate((devs, devs[::-1], devs[1::2] + devs[::2])):
      for me in {0, nproc - 1}:
        mine = [d for d in devs if d.process_index == me]
        with mock.patch.object(jax, 'local_devices', lambda *a, **kw: mine), \
             mock.patch.object(jax, 'devices', lambda *a, **kw: order), \
             mock.patch.object(jax, 'local_device_count', lambda *a, **kw: nloc):
          for n in list(range(1, nd + 1)) + [nd + 2]:
            case = dict(platform=platform, devices_per_process=nloc, processes=nproc,
                        order=k, partitions=n)
            c.context = case
            eff = min(n, nd)
            d = min(eff, nloc)
            h = min(eff // d, nproc)
            feasible = d * h == eff and nloc % d == 0 and nproc % h == 0
            try:
              mesh = partitioning.get_auto_logical_mesh(n, order)
            except ValueError:
              mesh = None
            c.require((mesh is not None) == feasible,
                      'feasible partitioning refused' if feasible else
                      'impossible partitioning accepted', case)
            if mesh is not None:
              check_mesh(c, mesh, devs, eff, case)
              # As many partitions as possible within a process.
              for q in range(nproc):
                rows = {i for i in range(eff) for x in mesh.devices[i]
                        if x.process_index == q}
                c.require(len(rows) == d, f'process {q} holds {len(rows)} partitions, '
                          f'{d} fit', case)
            sig = None if mesh is None else tuple(x.id for x in mesh.devices.flat)
            c.require(AGREE.setdefault(('o', nloc, nproc, platform, n), sig) == sig,
                      'the processes (or device orders) disagree on the mesh', case)
            c.case(('other', platform, nloc, nproc, base, k, me, n))
  AGREE.clear()


def run_job(c, job):
  {'tpu': job_tpu, 'other': job_other}[job[0]](c, *job[1])


def run(c):
  cap = c.q(64, 256)
  shapes = [s for s in itertools.product((1, 2), (1, 2, 3, 4, 8), (1, 2, 4, 6, 8),
                                         (1, 2, 3, 4)) if np.prod(s) <= cap]
  shapes.sort(key=lambda s: -np.prod(s))
  jobs = [('tpu', (s,)) for s in shapes]
  jobs += [('other', (a, b, base)) for a, b, base in itertools.product(
      (1, 2, 3, 4, 8), (1, 2, 3, 4, 6), (0, 2048))]
  c.parallel(jobs, run_job)
