"""Replays generated histories of building, writing and reading serialised objects."""
import copy
import datetime as dt
import os
import sys
import zlib

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import numpy as np
import tr

from putting_dune import geometry
from putting_dune import io as pdio
from putting_dune import microscope_utils as mu

P = geometry.Point


def num(x):
  return [] if x is None else [tr.u6(x) if abs(x) < 20 else 1_000_000_000 + tr.q(x, 1e3, 10**8)]


def im(x):
  if x is None:
    return 'none'
  x = np.asarray(x)
  return f'{x.dtype} {x.shape} {zlib.crc32(np.ascontiguousarray(x).tobytes()) & 0xFFFFFFF}'


def p_grid(g):
  return [dict(p=tr.pu6(p), z=int(z)) for p, z in zip(np.asarray(g.atom_positions).reshape(-1, 2), g.atomic_numbers)]


def p_fov(f):
  return [tr.a4(v) for v in (f.lower_left.x, f.lower_left.y, f.upper_right.x, f.upper_right.y)]


def p_control(c):
  return dict(p=tr.pu6((c.position.x, c.position.y)), dwell=tr.us(c.dwell_time), kv=num(c.voltage_kv), na=num(c.current_na))


def p_obs(o):
  return dict(grid=p_grid(o.grid), fov=p_fov(o.fov), controls=[p_control(c) for c in o.controls],
              t=tr.us(o.elapsed_time), image=im(o.image), label=im(o.label_image))


def p_drift(d):
  return dict(d=tr.p4(d.drift), j=[tr.pu6(x) for x in np.asarray(d.jitter).reshape(-1, 2)])


def p_traj(x):
  return [p_obs(o) for o in x.observations]


def p_tr(x):
  return dict(grid0=p_grid(x.grid_before), grid1=p_grid(x.grid_after), fov0=p_fov(x.fov_before),
              fov1=p_fov(x.fov_after), controls=[p_control(c) for c in x.controls],
              image0=im(x.image_before), image1=im(x.image_after),
              label0=im(x.label_image_before), label1=im(x.label_image_after))


def p_lab(x):
  return dict(traj=p_traj(x.trajectory), drifts=[p_drift(d) for d in x.drifts])


PROJ = dict(grid=p_grid, control=p_control, fov=p_fov, obs=p_obs, tr=p_tr, traj=p_traj, drift=p_drift, lab=p_lab)
CLS = dict(grid=mu.AtomicGrid, control=mu.BeamControl, fov=mu.MicroscopeFieldOfView, obs=mu.MicroscopeObservation,
           tr=mu.Transition, traj=mu.Trajectory, drift=mu.Drift, lab=mu.LabeledAlignmentTrajectory)


def lat(rng, lo, hi, d, size=None):
  return rng.integers(lo * d, hi * d + 1, size=size) / d


class Maker:

  def __init__(self, rng):
    self.rng = rng

  def grid(self, m=0):
    r = self.rng
    n = int(r.integers(0, 5))
    pos = lat(r, -18, 18, 256, (n, 2))
    if r.random() < .4:
      pos = pos.astype(np.float32)
    z = r.integers(1, 100, size=n)
    return mu.AtomicGrid(pos, z.astype(np.int32) if r.random() < .5 else z)

  def image(self):
    r = self.rng
    shape = [(4, 6), (5, 5, 1), (3, 4, 3), (7,), (1, 1)][r.integers(5)]
    kind = r.integers(6)
    if kind == 0:
      return r.integers(0, 255, size=shape).astype(np.uint8)
    if kind == 1:
      return r.normal(size=shape)
    if kind == 2:
      return r.normal(size=shape).astype(np.float32)
    if kind == 3:
      return r.integers(-9, 99, size=shape).astype(np.int32)
    if kind == 4:
      return np.zeros(shape, np.float32)
    return r.integers(0, 15, size=shape)

  def fov(self, m=0):
    r = self.rng
    x, y = lat(r, -90, 90, 8, 2)
    w, h = lat(r, 1, 60, 8, 2)
    return mu.MicroscopeFieldOfView(P(x, y), P(x + w, y + h))

  def control(self, m=3):
    r = self.rng
    kv = float(r.choice([60., 80., 200., 0., 59.5])) if m & 1 else None
    na = float(r.choice([.125, 0., 2.5])) if m & 2 else None
    return mu.BeamControl(P(*lat(r, -3, 3, 512, 2)), dt.timedelta(seconds=float(lat(r, 0, 18, 64))), kv, na)

  def controls(self):
    return [self.control(int(self.rng.choice([0, 1, 2, 3, 3, 3]))) for _ in range(self.rng.integers(0, 4))]

  def obs(self, m=0):
    r = self.rng
    return mu.MicroscopeObservation(
        mu.AtomicGridMicroscopeFrame(self.grid()), self.fov(), tuple(self.controls()),
        dt.timedelta(seconds=float(lat(r, 0, 1900 if r.random() < .2 else 30, 16))),
        self.image() if m & 1 else None, self.image() if m & 2 else None)

  def tr(self, m=0):
    return mu.Transition(self.grid(), self.grid(), self.fov(), self.fov(), tuple(self.controls()),
                         self.image() if m & 1 else None, self.image() if m & 2 else None,
                         self.image() if m & 4 else None, self.image() if m & 8 else None)

  def traj(self, m=0):
    r = self.rng
    return mu.Trajectory(tuple(self.obs(int(r.integers(4))) for _ in range(r.integers(0, 4))))

  def drift(self, m=0):
    r = self.rng
    d = lat(r, -9, 9, 64, 2)
    return mu.Drift(jitter=lat(r, -1, 1, 256, (int(r.integers(0, 4)), 2)), drift=d.astype(np.float32) if r.random() < .5 else d)

  def lab(self, m=0):
    t = self.traj()
    return mu.LabeledAlignmentTrajectory(t, [self.drift() for _ in range(self.rng.integers(0, 4))])


def trip(t, kind, obj, case):
  proj = PROJ[kind]
  a = proj(obj)
  raised, b, c = False, a, a
  try:
    m = obj.to_proto()
    b = proj(CLS[kind].from_proto(m))
    s = m.SerializeToString()
    c = proj(CLS[kind].from_proto_string(s))
  except Exception as e:  # pylint: disable=broad-except
    raised = True
  t.ev('Trip', case=case, kind=kind, a=a, msg=b, bytes=c, raised=raised, kept=proj(obj) == a)


def replay(t, rng, kind, ops, base):
  case = f'proto {kind} ' + ' '.join(ops)
  t.ev('New', case=case)
  mk = Maker(rng)
  path = os.path.join(base, 'f.tfrecords')
  pending = []
  for op in ops:
    if op[0] == 'P':
      o = getattr(mk, kind)(int(op[1:]))
      trip(t, kind, o, case)
      pending.append(o)
    elif op == 'W':
      raised = False
      items = []
      try:
        raws = [o.to_proto().SerializeToString() for o in pending]
        items = [dict(a=PROJ[kind](o), raw=str(zlib.crc32(x))) for o, x in zip(pending, raws)]
        # Records may be given as objects or as bytes.
        recs = [x if rng.random() < .25 else o for o, x in zip(pending, raws)]
        pdio.write_records(path, iter(recs) if rng.random() < .3 else recs)
      except Exception:  # pylint: disable=broad-except
        raised = True
      t.ev('Write', case=case, file='f', good=True, raised=raised, items=items)
      pending = []
      if raised:
        return
    elif op == 'R':
      for raw in (False, True):
        raised, items, typed = False, [], True
        try:
          out = list(pdio.read_records(path) if raw else pdio.read_records(path, CLS[kind]))
          typed = all(isinstance(x, bytes if raw else CLS[kind]) for x in out)
          items = [str(zlib.crc32(x)) for x in out] if raw else [PROJ[kind](x) for x in out]
        except Exception:  # pylint: disable=broad-except
          raised = True
        t.ev('Read', case=case, file='f', kind=kind, good=True, raw=raw, raised=raised, typed=typed, items=items)
  for name in ('x.recordio', 'x', 'x.riegeli', 'f.tfrecords.gz'):
    bad = os.path.join(base, name)
    for what in ('Write', 'Read'):
      raised = False
      try:
        if what == 'Write':
          pdio.write_records(bad, [getattr(mk, kind)(0)])
        else:
          list(pdio.read_records(bad, CLS[kind]))
      except ValueError:
        raised = True
      except Exception:  # pylint: disable=broad-except
        pass
      t.ev(what, case=f'{what} {name}', file=name, kind=kind, good=False, raised=raised, items=[], raw=False, typed=True)
  if os.path.exists(path):
    os.remove(path)


def run(t):
  s, n = tr.shard()
  rng = np.random.default_rng([tr.seed(), 12, s])
  base = os.environ['VT_WORK']
  for i, x in enumerate(tr.schedules()):
    if i % n == s:
      replay(t, rng, x['kind'], x['h'], base)
  for rep in range(tr.params()['reps']):
    for kind in ('grid', 'fov', 'traj', 'lab', 'drift', 'obs', 'tr'):
      k = int(rng.integers(1, 4))
      replay(t, rng, kind, [f'P{rng.integers(16)}' for _ in range(k)] + ['W', 'R'], base)


if __name__ == '__main__':
  tr.main(run)
