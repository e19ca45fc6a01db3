"""Replays generated field-of-view histories and converts everything after each step."""
import copy
import datetime as dt
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import numpy as np
import tr

from putting_dune import geometry
from putting_dune import microscope_utils as mu

P = geometry.Point


def fov_rec(f):
  return [tr.a4(f.lower_left.x), tr.a4(f.lower_left.y), tr.a4(f.upper_right.x), tr.a4(f.upper_right.y)]


def quart(rng, lo, hi):
  return int(rng.integers(lo * 4, hi * 4 + 1)) / 4


def arr(pts, q):
  return [q(p) for p in np.asarray(pts, float).reshape(-1, 2)]


def convert_all(t, rng, fov, case):
  w, h = fov.width, fov.height
  for direction in ('mat', 'mic'):
    f = fov.microscope_frame_to_material_frame if direction == 'mat' else fov.material_frame_to_microscope_frame
    g = fov.material_frame_to_microscope_frame if direction == 'mat' else fov.microscope_frame_to_material_frame
    qi, qo = (tr.pu6, tr.p4) if direction == 'mat' else (tr.p4, tr.pu6)

    def points(n):
      u = rng.integers(-64, 129, size=(n, 2)) / 64
      if direction == 'mat':
        return u
      return np.asarray([fov.lower_left.x, fov.lower_left.y]) + u * np.asarray([w, h])

    for kind in ('array1', 'array', 'arrayn1', 'grid', 'point', 'control', 'float32', 'column'):
      n = 1 if kind in ('array1', 'arrayn1', 'point', 'control') else int(rng.integers(0, 6))
      pts = points(n)
      raised, carried, shape = False, True, True
      if kind == 'array1':
        x = pts[0].copy()
      elif kind in ('array', 'arrayn1', 'float32'):
        x = pts.astype(np.float32 if kind == 'float32' else np.float64)
      elif kind == 'column':
        x = np.asfortranarray(pts)
      elif kind == 'grid':
        x = mu.AtomicGrid(pts.copy(), rng.integers(1, 30, size=n))
      elif kind == 'point':
        x = P(pts[0])
      else:
        x = mu.BeamControl(P(pts[0]), dt.timedelta(seconds=int(rng.integers(0, 99)) / 8),
                           [60., 80., None, 200.][rng.integers(4)], [.1, .5, None, 2.][rng.integers(4)])
      before = copy.deepcopy(x)
      outp, backp = [], []
      try:
        y = f(x)
        z = g(y)
        if isinstance(x, mu.AtomicGrid):
          inp, outp, backp = x.atom_positions, y.atom_positions, z.atom_positions
          carried = (np.array_equal(y.atomic_numbers, before.atomic_numbers)
                     and np.array_equal(z.atomic_numbers, before.atomic_numbers))
          shape = outp.shape == inp.shape
          kept = (np.array_equal(x.atom_positions, before.atom_positions)
                  and np.array_equal(x.atomic_numbers, before.atomic_numbers))
        elif isinstance(x, mu.BeamControl):
          inp, outp, backp = [[c.position.x, c.position.y] for c in (x, y, z)]
          carried = all((c.dwell_time, c.voltage_kv, c.current_na)
                        == (before.dwell_time, before.voltage_kv, before.current_na) for c in (y, z))
          kept = (x.position.x, x.position.y, x.dwell_time, x.voltage_kv, x.current_na) == (
              before.position.x, before.position.y, before.dwell_time, before.voltage_kv, before.current_na)
        elif isinstance(x, P):
          inp, outp, backp = [[c.x, c.y] for c in (x, y, z)]
          kept = (x.x, x.y) == (before.x, before.y)
        else:
          inp, outp, backp = x, y, z
          shape = y.shape == before.shape and z.shape == before.shape
          kept = np.array_equal(x, before)
      except Exception as e:  # pylint: disable=broad-except
        raised, kept = True, True
      t.ev('Conv', case=case, kind={'arrayn1': 'array', 'column': 'array', 'float32': 'array'}.get(kind, kind),
           dir=direction, **{'in': arr(pts, qi)},
           out=arr(outp, qo), back=arr(backp, qi), carried=bool(carried), shape=bool(shape),
           kept=bool(kept), raised=raised)


def bounds(t, rng, fov, case):
  n = int(rng.integers(0, 14))
  fx, fy = fov.lower_left.x, fov.lower_left.y
  tol = [0., 0., .5, -.75, 2.][rng.integers(5)]
  xs = [fx - tol, fov.upper_right.x + tol, fx - tol - .25, fov.upper_right.x + tol + .25]
  ys = [fy - tol, fov.upper_right.y + tol, fy - tol - .25, fov.upper_right.y + tol + .25]
  pts = np.zeros((n, 2))
  for i in range(n):
    pts[i, 0] = rng.choice(xs) if rng.random() < .4 else fx + quart(rng, -2, int(fov.width) + 3)
    pts[i, 1] = rng.choice(ys) if rng.random() < .4 else fy + quart(rng, -2, int(fov.height) + 3)
  z = rng.integers(1, 30, size=n)
  grid = mu.AtomicGrid(pts.copy(), z.copy())
  kw = {} if tol == 0. and rng.random() < .5 else dict(tolerance=tol)
  out = fov.get_atoms_in_bounds(grid, **kw)
  rec = lambda p, m: [dict(p=tr.p4(a), z=int(b)) for a, b in zip(np.asarray(p).reshape(-1, 2), m)]
  t.ev('Bounds', case=case, tol=tr.a4(tol), atoms=rec(pts, z), out=rec(out.atom_positions, out.atomic_numbers),
       kept=bool(np.array_equal(grid.atom_positions, pts) and np.array_equal(grid.atomic_numbers, z)))


def shifts(t, rng, case):
  d = np.asarray([quart(rng, -9, 9), quart(rng, -9, 9)])
  n = int(rng.integers(0, 5))
  pts = rng.integers(-200, 200, size=(n, 2)) / 8
  z = rng.integers(1, 30, size=n)
  grid = mu.AtomicGrid(pts.copy(), z.copy())
  out = grid.shift(d.copy())
  t.ev('Shift', case=case, kind='grid', d=tr.p4(d), **{'in': arr(pts, tr.p4)}, out=arr(out.atom_positions, tr.p4),
       carried=bool(np.array_equal(out.atomic_numbers, z)),
       kept=bool(np.array_equal(grid.atom_positions, pts) and np.array_equal(grid.atomic_numbers, z)))
  c = mu.BeamControl(P(3.25, -1.5), dt.timedelta(seconds=2.25), 80., .5)
  o = c.shift(P(d))
  t.ev('Shift', case=case, kind='control', d=tr.p4(d), **{'in': [tr.p4((3.25, -1.5))]},
       out=[tr.p4((o.position.x, o.position.y))],
       carried=(o.dwell_time, o.voltage_kv, o.current_na) == (c.dwell_time, 80., .5),
       kept=(c.position.x, c.position.y) == (3.25, -1.5))


def replay(t, rng, ops, case):
  s = [16, 24, 20, 32, 18.5][rng.integers(5)]
  s2 = s if rng.random() < .3 else [12, 40, 28.25][rng.integers(3)]
  x, y = quart(rng, -60, 60), quart(rng, -60, 60)
  fov = mu.MicroscopeFieldOfView(P(x, y), P(x + s, y + s2))
  t.ev('New', case=case, fov=fov_rec(fov))
  convert_all(t, rng, fov, case)
  bounds(t, rng, fov, case)
  for op in ops:
    old = fov
    oldrec = fov_rec(old)
    if op == 'S':
      d = (quart(rng, -20, 20), quart(rng, -20, 20))
      fov = fov.shift(P(d))
      name, dd = 'shift', tr.p4(d)
    elif op in 'IO':
      k = int(rng.choice([5, 6, 8, 7] if op == 'I' else [1, 2, 3]))
      if not 4 <= min(old.width, old.height) * 4 / k or max(old.width, old.height) * 4 / k > 150:
        continue
      fov = fov.zoom(k / 4)
      name, dd = 'zoom', [k, 0]
    else:
      d = (quart(rng, 5, 60), quart(rng, 5, 60))
      fov = fov.resize(*d)
      name, dd = 'resize', tr.p4(d)
    t.ev('Op', case=case, op=name, d=dd, old=fov_rec(old) if fov_rec(old) != oldrec else oldrec, fov=fov_rec(fov),
         size=[tr.a4(fov.width), tr.a4(fov.height)], mid=tr.p4((fov.offset.x, fov.offset.y)))
    convert_all(t, rng, fov, case)
    # Exact boundaries need a lattice field of view.
    lat = mu.MicroscopeFieldOfView(*[P(round(p.x * 4) / 4, round(p.y * 4) / 4)
                                     for p in (fov.lower_left, fov.upper_right)])
    if fov_rec(lat) == fov_rec(fov) and (lat.lower_left.x, lat.upper_right.y) == (fov.lower_left.x, fov.upper_right.y):
      bounds(t, rng, fov, case)
    shifts(t, rng, case)


def run(t):
  s, n = tr.shard()
  rng = np.random.default_rng([tr.seed(), 9, s])
  reps = tr.params().get('reps', 1)
  for rep in range(reps):
    for i, x in enumerate(tr.schedules()):
      if i % n == s:
        replay(t, rng, x['h'], f'frames {"".join(x["h"])} #{rep}')


if __name__ == '__main__':
  tr.main(run)
