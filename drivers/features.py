"""Replays generated scene edits against the feature constructors."""
import copy
import datetime as dt
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import numpy as np
import tr

from putting_dune import feature_constructors as fc
from putting_dune import geometry
from putting_dune import goals
from putting_dune import graphene
from putting_dune import microscope_utils as mu

P = geometry.Point
B = 4  # blocks of the image per side


def fov_rec(f):
  return [tr.a4(f.lower_left.x), tr.a4(f.lower_left.y), tr.a4(f.upper_right.x), tr.a4(f.upper_right.y)]


def clear(fov, pos, num):
  """No near ties that rounding could decide."""
  mic = fov.material_frame_to_microscope_frame(pos)
  d = np.sort(np.linalg.norm(mic[num == 14] - .5, axis=1))
  if len(d) > 1 and np.min(np.diff(d)) < .01:
    return False
  if not len(d):
    return True
  si = np.flatnonzero(num == 14)
  si = si[np.argmin(np.linalg.norm(mic[si] - .5, axis=1))]
  for p, gap, low in ((mic, .004, .03), (pos, .04, .5)):
    e = np.sort(np.linalg.norm(np.delete(p, si, 0) - p[si], axis=1))
    if e[0] < low or np.min(np.diff(e)[:4], initial=1) < gap:
      return False
  return True


def view(rng, centre):
  w = int(rng.integers(60, 160)) / 4
  h = w if rng.random() < .3 else int(rng.integers(60, 160)) / 4
  fx, fy = rng.uniform(.3, .7, 2)
  x, y = round((centre[0] - fx * w) * 8) / 8, round((centre[1] - fy * h) * 8) / 8
  return mu.MicroscopeFieldOfView(P(x, y), P(x + w, y + h))


def replay(t, rng, ops, case):
  # Material with one silicon near the middle of what is looked at.
  centre = rng.integers(-200, 200, 2) / 4
  while True:
    n = int(rng.integers(4, 10))
    pos = centre + rng.integers(-28, 29, size=(n, 2)) / 4 + rng.integers(-8, 9, size=(n, 2)) / 64
    num = np.full(n, 6)
    num[rng.integers(n)] = 14
    fov = view(rng, centre)
    if clear(fov, pos, num):
      break
  goal = goals.SingleSiliconGoalReaching()
  goal.goal_position_material_frame = centre + rng.integers(-40, 41, 2) / 4
  t.ev('New', case=case)
  makers = dict(unit=fc.SingleSiliconPristineGrapheneFeatureConstuctor(),
                material=fc.SingleSiliconMaterialFrameFeatureConstructor(), image=fc.ImageFeatureConstructor())
  for op in [''] + list(ops):
    for _ in range(60):
      p2, n2, f2 = pos, num, fov
      if op == 'W':
        perm = rng.permutation(len(num))
        p2, n2 = pos[perm], num[perm]
      elif op == 'V':
        f2 = view(rng, centre)
      elif op == '2':
        n2 = num.copy()
        cand = np.flatnonzero(num != 14)
        if len(cand):
          n2[rng.choice(cand)] = 14
      elif op == '0':
        n2 = np.full(len(num), 6)
      if clear(f2, p2, n2):
        break
    else:
      continue
    pos, num, fov = p2, n2, f2
    mic = fov.material_frame_to_microscope_frame(pos)
    if rng.random() < .2:
      mic = mic.astype(np.float32)
    side = int(rng.choice([16, 32, 64, 128]))
    side2 = side if rng.random() < .6 else int(rng.choice([32, 64]))
    vals = rng.integers(0, 101, size=(B, B)) / 100
    img = np.kron(vals, np.ones((side * 4 // B, side2 * 4 // B))).astype(np.float32)
    shaped = img if rng.random() < .5 else img[:, :, None]
    o = mu.MicroscopeObservation(
        mu.AtomicGridMicroscopeFrame(mu.AtomicGrid(mic, num.copy())), fov, [], dt.timedelta(seconds=1), image=shaped)
    for name, f in makers.items():
      f.reset()
      c = copy.deepcopy(o)
      rec = dict(outcome='ok', conform=False, si=[0, 0], offs=[[0, 0]] * 3, delta=[0, 0], blocks=[], want=[])
      try:
        out = f.get_features(o, goal)
        spec = f.observation_spec()
        if name == 'image':
          rec['conform'] = (set(out) == set(spec) and all(
              tuple(out[k].shape) == tuple(spec[k].shape) and out[k].dtype == spec[k].dtype for k in spec))
          rec['delta'] = tr.p4(out['goal_delta_angstroms'].reshape(-1))
          im = np.asarray(out['image'])
          s = im.shape[0] // B
          rec['blocks'] = [tr.u6(im[s * i + s // 2, s * j + s // 2, 0]) for i in range(B) for j in range(B)]
          rec['want'] = [tr.u6(v) for v in vals.reshape(-1)]
        else:
          rec['conform'] = tuple(out.shape) == tuple(spec.shape) and out.dtype == spec.dtype
          q = tr.pu6 if name == 'unit' else tr.p4
          rec['si'] = q(out[:2])
          rec['offs'] = [q(out[2 + 2 * k:4 + 2 * k]) for k in range(3)]
          rec['delta'] = tr.p4(out[8:10])
      except graphene.SiliconNotFoundError:
        rec['outcome'] = 'SiliconNotFoundError'
      except Exception as e:  # pylint: disable=broad-except
        rec['outcome'] = type(e).__name__
      kept = (np.array_equal(c.grid.atom_positions, o.grid.atom_positions)
              and np.array_equal(c.grid.atomic_numbers, o.grid.atomic_numbers) and np.array_equal(c.image, o.image))
      t.ev('Feat', case=case, variant=name, fov=fov_rec(fov), goal=tr.p4(goal.goal_position_material_frame),
           atoms=[dict(u=tr.pu6(p), z=int(z)) for p, z in zip(mic, num)], kept=bool(kept), **rec)


def run(t):
  s, n = tr.shard()
  rng = np.random.default_rng([tr.seed(), 31, s])
  for i, x in enumerate(tr.schedules()):
    if i % n == s:
      replay(t, rng, x['h'], f'features {"".join(x["h"])}')


if __name__ == '__main__':
  tr.main(run)
