"""Replays generated histories against SingleSiliconGoalReaching."""
import copy
import datetime as dt
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import numpy as np
import tr

from putting_dune import geometry
from putting_dune import goals
from putting_dune import graphene
from putting_dune import microscope_utils as mu

P = geometry.Point


def fov_rec(f):
  return [tr.a4(f.lower_left.x), tr.a4(f.lower_left.y), tr.a4(f.upper_right.x), tr.a4(f.upper_right.y)]


def atoms_rec(o):
  return [dict(u=tr.pu6(p), z=int(z)) for p, z in zip(o.grid.atom_positions, o.grid.atomic_numbers)]


def new_fov(rng, around=None):
  w = int(rng.integers(24, 160)) / 4
  h = w if rng.random() < .3 else int(rng.integers(24, 160)) / 4
  if around is None:
    x, y = int(rng.integers(-300, 300)) / 4, int(rng.integers(-300, 300)) / 4
  else:
    fx, fy = rng.uniform(.05, .95, 2)
    x, y = around[0] - fx * w, around[1] - fy * h
    x, y = round(x * 16) / 16, round(y * 16) / 16
  return mu.MicroscopeFieldOfView(P(x, y), P(x + w, y + h))


def tie(pos, num):
  d = sorted(np.linalg.norm(pos[num == 14] - .5, axis=1))
  return len(d) > 1 and d[1] - d[0] < .01


def scene(rng, nsi, dtype=float):
  while True:
    n = int(rng.integers(max(2, nsi), 11))
    pos = (rng.integers(0, 4097, size=(n, 2)) / 4096).astype(dtype)
    num = np.full(n, 6)
    num[rng.permutation(n)[:nsi]] = 14
    if not tie(pos, num):
      break
  return mu.MicroscopeObservation(mu.AtomicGridMicroscopeFrame(mu.AtomicGrid(pos, num)), new_fov(rng),
                                  [], dt.timedelta(seconds=int(rng.integers(0, 40) if rng.random() < .8 else rng.integers(40, 2000)) / 2))


def with_silicon(rng, si, decoys):
  """A view in which a silicon sits at the material position si."""
  while True:
    fov = new_fov(rng, si)
    u = fov.material_frame_to_microscope_frame(np.asarray(si, float))
    n = int(rng.integers(1, 8))
    pos = np.concatenate([rng.uniform(0, 1, size=(n, 2)), u.reshape(1, 2)])
    num = np.full(n + 1, 6)
    num[-1] = 14
    for i in range(min(decoys, n)):
      if np.linalg.norm(pos[i] - .5) > np.linalg.norm(u - .5) + .02:
        num[i] = 14
    perm = rng.permutation(n + 1)
    pos, num = pos[perm], num[perm]
    if not tie(pos, num):
      break
  return mu.MicroscopeObservation(mu.AtomicGridMicroscopeFrame(mu.AtomicGrid(pos, num)), fov,
                                  [], dt.timedelta(seconds=int(rng.integers(0, 40) if rng.random() < .8 else rng.integers(40, 2000)) / 2))


def same(a, b):
  return bool(np.array_equal(a.grid.atom_positions, b.grid.atom_positions)
              and np.array_equal(a.grid.atomic_numbers, b.grid.atomic_numbers)
              and a.fov == b.fov and a.elapsed_time == b.elapsed_time)


def outcome(fn):
  try:
    return 'ok', fn()
  except graphene.SiliconNotFoundError:
    return 'SiliconNotFoundError', None
  except RuntimeError:
    return 'RuntimeError', None


RANGES = [(10, 5000), (10, 5000), (100, 600), (300, 1200), (10, 20), (500, 5000), (0, 300)]


def goal_pos(g):
  return tr.p4((g.current_goal.x, g.current_goal.y))


def replay(t, rng, ops, case, picks):
  lo, hi = RANGES[rng.integers(len(RANGES))]
  g = goals.SingleSiliconGoalReaching()
  if (lo, hi) != (10, 5000) or rng.random() < .5:
    g.goal_range_angstroms = (lo / 100, hi / 100)
  t.ev('New', case=case, lo=lo, hi=hi)
  si = None
  is_set = False
  for op in ops:
    if op == 'R':
      o = scene(rng, int(rng.choice([0, 1, 1, 1, 1, 1, 1, 2])), np.float32 if rng.random() < .3 else float)
      c = copy.deepcopy(o)
      out, _ = outcome(lambda: g.reset(np.random.default_rng(int(rng.integers(2**31))), o))
      t.ev('GReset', case=case, fov=fov_rec(o.fov), atoms=atoms_rec(o), outcome=out, kept=same(o, c),
           pos=goal_pos(g) if out == 'ok' else [0, 0])
      is_set = is_set or out == 'ok'
      if out == 'ok' and picks:
        found = set()
        for i in range(260):
          h = goals.SingleSiliconGoalReaching()
          h.goal_range_angstroms = (lo / 100, hi / 100)
          h.reset(np.random.default_rng(i * 7919 + int(rng.integers(1000))), o)
          found.add(tuple(goal_pos(h)))
        t.ev('Picks', case=case, fov=fov_rec(o.fov), atoms=atoms_rec(o), picks=[list(p) for p in sorted(found)])
      continue
    if not is_set:
      continue
    goal = np.asarray([g.current_goal.x, g.current_goal.y], float)
    ang = rng.uniform(0, 2 * np.pi)
    direction = np.asarray([np.cos(ang), np.sin(ang)])
    if op == 'V' and si is None:
      op = 'N'
    if op == 'N':
      si = goal + direction * rng.choice([0., .3, .62, .67])
    elif op == 'E':
      si = goal + direction * rng.choice([.75, .8, 1.42, 3., 12.])
    if op == '0':
      o = scene(rng, 0)
    else:
      o = with_silicon(rng, si, 2 if rng.random() < .2 else 0)
    c = copy.deepcopy(o)
    out, ret = outcome(lambda: g.calculate_reward_and_terminal(o))
    t.ev('Judge', case=case, how=op, fov=fov_rec(o.fov), atoms=atoms_rec(o), outcome=out, kept=same(o, c),
         halves=round(o.elapsed_time.total_seconds() * 2), pos=goal_pos(g),
         term=bool(ret.is_terminal) if ret else False, trunc=bool(ret.is_truncated) if ret else False,
         reward=tr.u6(ret.reward) if ret else 0)


def run(t):
  s, n = tr.shard()
  p = tr.params()
  rng = np.random.default_rng([tr.seed(), 8, s])
  for rep in range(p['reps']):
    for i, x in enumerate(tr.schedules()):
      if i % n == s:
        replay(t, rng, x['h'], f'goal {"".join(x["h"])} #{rep}', rng.random() < p['picks'])


if __name__ == '__main__':
  tr.main(run)
