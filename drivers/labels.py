"""Replays generated batches of recorded transitions into training examples."""
import contextlib
import dataclasses
import datetime as dt
import io
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from etils import epath
import numpy as np
import tr

from putting_dune import geometry
from putting_dune import microscope_utils as mu
from putting_dune.pipeline import train_rate_learner as trl

P = geometry.Point
BOND = 1.42


def num(x):
  return [] if x is None else [tr.q(x, 1e6, 10**9)]


def p3(p):
  return [tr.q(p[0], 1e3, 10**6), tr.q(p[1], 1e3, 10**6)]


def rot(p, a):
  c, s = np.cos(a), np.sin(a)
  return np.asarray(p) @ np.array([[c, s], [-s, c]])


def lattice(rng, sub, theta, n=4):
  """Sites relative to a site of the given sublattice; index 0 is that site."""
  a1, a2 = BOND * np.array([1.5, 3 ** .5 / 2]), BOND * np.array([1.5, -3 ** .5 / 2])
  pts = []
  for i in range(-n, n + 1):
    for j in range(-n, n + 1):
      base = i * a1 + j * a2
      pts += [base, base + np.array([BOND, 0.])]
  pts = np.array(pts) if sub == 0 else -np.array(pts)
  pts = rot(pts, theta)
  pts = pts[np.argsort(np.linalg.norm(pts, axis=1))]
  return pts[:int(rng.integers(13, 40))]


def view(rng, centre):
  w = int(rng.integers(96, 160)) / 8
  h = w if rng.random() < .4 else int(rng.integers(96, 160)) / 8
  x, y = centre[0] - w * rng.uniform(.3, .7), centre[1] - h * rng.uniform(.3, .7)
  x, y = round(x * 16) / 16, round(y * 16) / 16
  return mu.MicroscopeFieldOfView(P(x, y), P(x + w, y + h))


def grid(rng, fov, pos, z, dtype):
  perm = rng.permutation(len(z))
  pos, z = np.asarray(pos)[perm], np.asarray(z)[perm]
  u = (pos - np.array([fov.lower_left.x, fov.lower_left.y])) / np.array([fov.width, fov.height])
  return mu.AtomicGridMicroscopeFrame(mu.AtomicGrid(u.astype(dtype), z))


def transition(rng, kind, cutoff):
  theta = rng.uniform(0, 2 * np.pi)
  sub = int(rng.integers(2))
  pts = lattice(rng, sub, theta)
  n = len(pts)
  # Neighbours of site 0, counter-clockwise.
  nb = [1, 2, 3]
  nb.sort(key=lambda i: np.arctan2(pts[i][1], pts[i][0]))
  # Beam: a unique nearest neighbour.
  while True:
    r, a = rng.choice([.3, .8, 1.42, 2.5, 6.]), rng.uniform(0, 2 * np.pi)
    beam = r * np.array([np.cos(a), np.sin(a)])
    d = [np.linalg.norm(pts[i] - beam) for i in nb]
    s = sorted(d)
    if s[1] - s[0] > .06:
      break
  first = int(np.argmin(d))
  order = [nb[(first + k) % 3] for k in range(3)]
  z0, z1 = np.full(n, 6), np.full(n, 6)
  z0[0] = 14
  if kind in ('1', '2', '3'):
    z1[order[int(kind) - 1]] = 14
  elif kind == 'far':
    z1[4 + int(rng.integers(6))] = 14
  elif kind != 'noSi':
    z1[0] = 14
  if kind == 'twoSiB':
    z0[int(rng.integers(1, n))] = 14
  if kind == 'noSiB':
    z0[0] = 6
  if kind == 'twoSiA':
    z1[int(rng.integers(1, n))] = 14
  origin = rng.uniform(-60, 60, size=2)
  jit = .03
  b = pts + rng.uniform(-jit, jit, size=pts.shape)
  af = pts + rng.uniform(-jit, jit, size=pts.shape)
  usual = cutoff is None
  if kind in ('stay', '1', '2', '3') and rng.random() < (.3 if usual else .7):
    # All the atoms were displaced.
    a = rng.uniform(0, 2 * np.pi)
    af += rng.choice([.22, .4]) * np.array([np.cos(a), np.sin(a)])
  elif usual and kind not in ('1', '2', '3', 'far') and rng.random() < .3:
    # A silicon that stayed may still be a little off its site.
    af[0] += rng.uniform(-.15, .15, size=2)
  keep0, keep1 = np.ones(n, bool), np.ones(n, bool)
  if kind == 'twofold':
    keep0[rng.choice(nb)] = False
  if kind == 'four':
    # A fourth atom in bonding distance.
    a = rng.uniform(0, 2 * np.pi)
    b[int(rng.integers(10, n))] = b[0] + 1.5 * np.array([np.cos(a), np.sin(a)])
  if kind == 'fewB':
    keep0[int(rng.integers(4, 10)):] = False
  if kind == 'tinyB':
    keep0[int(rng.integers(1, 4)):] = False
  if kind == 'fewA':
    keep1[int(rng.integers(1, 4)):] = False
  if kind == 'mismatch':
    # The atoms around the silicon are nowhere near where they were.
    g = 1.3 * 2 * np.array([np.cos(theta), np.sin(theta)])
    af[1:] = af[0] + (pts[1:] / np.linalg.norm(pts[1:], axis=1, keepdims=True)) * (
        np.linalg.norm(pts[1:], axis=1, keepdims=True) + 2.)
  dtype = np.float32 if rng.random() < .3 else np.float64
  f0 = view(rng, origin)
  f1 = f0 if rng.random() < .25 else view(rng, origin + rng.uniform(-2, 2, 2))
  k = 0 if kind == 'ctl0' else 2 if kind == 'ctl2' else 1
  bm = (beam + b[0] + origin)
  u = P((bm[0] - f0.lower_left.x) / f0.width, (bm[1] - f0.lower_left.y) / f0.height)
  cs = tuple(mu.BeamControl(u, dt.timedelta(days=int(rng.random() < .05), seconds=int(rng.integers(1, 90)) / 8),
                            None if rng.random() < .1 else float(rng.choice([60., 80.])),
                            None if rng.random() < .1 else float(rng.choice([.125, .5]))) for _ in range(k))
  return mu.Transition(grid(rng, f0, b[keep0] + origin, z0[keep0], dtype),
                       grid(rng, f1, af[keep1] + origin, z1[keep1], dtype), f0, f1, cs)


def fov(f):
  return [tr.a4(v) for v in (f.lower_left.x, f.lower_left.y, f.upper_right.x, f.upper_right.y)]


def atoms(g):
  return [dict(u=tr.pu6(p), z=int(z)) for p, z in zip(np.asarray(g.atom_positions).reshape(-1, 2), g.atomic_numbers)]


def rec(x, cutoff):
  return dict(fov0=fov(x.fov_before), fov1=fov(x.fov_after), before=atoms(x.grid_before), after=atoms(x.grid_after),
              ctrls=[dict(p=tr.pu6((c.position.x, c.position.y)), dwell=tr.us(c.dwell_time), na=num(c.current_na),
                          kv=num(c.voltage_kv)) for c in x.controls], cutoff=cutoff)


def point(d):
  return dict(state=int(d['next_state']), pos=p3(np.asarray(d['beam_pos']).reshape(-1)),
              dwell=tr.q(d['seconds_between'], 1e6), na=num(d['current']), kv=num(d['voltage']))


def replay(t, rng, kinds, args):
  case = 'labels ' + ' '.join(kinds)
  t.ev('New', case=case)
  cutoff = None if rng.random() < .5 else float(rng.choice([.13, .31]))
  ts = [transition(rng, k, cutoff) for k in kinds]
  if cutoff is not None:
    args = dataclasses.replace(args, neighbor_distance_cutoff=cutoff)
  cutoff = tr.q(args.neighbor_distance_cutoff, 1e3)
  a = [rec(x, cutoff) for x in ts]
  raised, out, pts = False, [], []
  try:
    with contextlib.redirect_stdout(io.StringIO()):
      pts = trl.transitions_to_datapoints(ts, args)
    out = [point(d) for d in pts]
  except Exception as e:  # pylint: disable=broad-except
    raised = True
    print(case, repr(e))
  t.ev('Batch', case=case, ts=a, raised=raised, out=out, kept=[rec(x, cutoff) for x in ts] == a)
  pts = [d for d in pts if d['current'] is not None and d['voltage'] is not None]
  if pts and rng.random() < .5:
    na, kv = bool(rng.integers(2)), bool(rng.integers(2))
    st = trl.stack_data(pts, use_current=na, use_voltage=kv)
    rows = [dict(state=int(st['next_state'][i]), pos=p3(np.asarray(st['position'][i]).reshape(-1)),
                 dwell=tr.q(st['dt'][i], 1e6), ctx=[] if st['context'] is None else [v for c in st['context'][i] for v in num(c)])
            for i in range(len(st['next_state']))]
    t.ev('Stack', case=case, points=[point(d) for d in pts], rows=rows, use_current=na, use_voltage=kv)


def run(t):
  s, n = tr.shard()
  rng = np.random.default_rng([tr.seed(), 16, s])
  args = trl.Args(source_path=epath.Path('x'), workdir=epath.Path('y'))
  for i, x in enumerate(tr.schedules()):
    if i % n == s:
      replay(t, rng, x['h'], args)
  replay(t, rng, [], args)
  for i in range(tr.params()['reps']):
    replay(t, rng, [str(k) for k in rng.choice(['stay', '1', '2', '3'], size=int(rng.integers(1, 4)))], args)


if __name__ == '__main__':
  tr.main(run)
