"""Replays generated lists of trajectories against the transition extraction."""
import datetime as dt
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from etils import epath
import numpy as np
import tr

from putting_dune import geometry
from putting_dune import io as pdio
from putting_dune import microscope_utils as mu
from putting_dune.pipeline import train_rate_learner as trl
from putting_dune.pipeline import trajectories_to_transitions as t2t

P = geometry.Point


def make(trajs, rng):
  """Identities become values that survive serialisation; what is the same may be one object."""
  made = {}

  def one(kind, key, new):
    return made.setdefault((kind, key), new()) if share else new()

  share = rng.random() < .5
  return [mu.Trajectory([
      mu.MicroscopeObservation(
          grid=one('g', o['g'], lambda o=o: mu.AtomicGridMicroscopeFrame(mu.AtomicGrid(np.array([[o['g'], .5]]), np.array([6])))),
          fov=one('f', o['f'], lambda o=o: mu.MicroscopeFieldOfView(P(o['f'], 0), P(o['f'] + 8, 8))),
          controls=tuple(mu.BeamControl(P(.5, .5), dt.timedelta(seconds=o['c'] + k / 8), 60., 1.) for k in range(o['n'])),
          elapsed_time=dt.timedelta(seconds=1),
          image=np.full((2, 2), o['i'], np.float32) if o['i'] else None,
          label_image=np.full((2, 2), o['l'], np.float32) if o['l'] else None)
      for o in t]) for t in trajs]


def ctl(cs):
  """The identity of a tuple of controls, with their number."""
  if not cs:
    return 0
  s = [c.dwell_time.total_seconds() for c in cs]
  base = int(s[0])
  ok = all(abs(x - base - k / 8) < 1e-3 for k, x in enumerate(s))
  return base * 10 + len(cs) if ok else -1


def gid(g):
  return int(round(float(np.asarray(g.atom_positions).reshape(-1)[0])))


def im(x):
  return 0 if x is None else int(np.asarray(x).reshape(-1)[0])


def rec_t(x):
  return dict(g0=gid(x.grid_before), g1=gid(x.grid_after), f0=int(round(x.fov_before.lower_left.x)),
              f1=int(round(x.fov_after.lower_left.x)), i0=im(x.image_before), i1=im(x.image_after),
              l0=im(x.label_image_before), l1=im(x.label_image_after), c=ctl(x.controls))


def rec_o(o):
  return dict(g=gid(o.grid), f=int(round(o.fov.lower_left.x)), c=ctl(o.controls), i=im(o.image), l=im(o.label_image))


def rec(trajs):
  return [[rec_o(o) for o in t.observations] for t in trajs]


def extract(t, case, how, trajs, prev, fn):
  a = rec(trajs)
  raised, out = False, []
  try:
    out = [rec_t(x) for x in fn()]
  except Exception:  # pylint: disable=broad-except
    raised = True
  t.ev('Extract', case=case, how=how, trajs=a, prev=prev, raised=raised, out=out, kept=rec(trajs) == a)


def replay(t, rng, ops, base, files):
  case = 'pairs ' + ' '.join(ops)
  t.ev('New', case=case)
  ids, n = [], 0
  for op in ops:
    if op == 'T':
      ids.append([])
    else:
      n += 1
      m = int(op)
      ids[-1].append(dict(g=10 * n + 1, f=10 * n + 2, c=10 * n + 3, i=(m & 1) * (10 * n + 4), l=(m >> 1) * (10 * n + 5),
                          n=int(rng.choice([0, 1, 1, 1, 2]))))
      if len(ids[-1]) > 1 and rng.random() < .3:
        # Nothing happened: some or all of it is as it was before.
        for key in 'gfciln' if rng.random() < .4 else rng.permutation(list('gfc'))[:int(rng.integers(1, 3))]:
          ids[-1][-1][key] = ids[-1][-2][key]
  trajs = make(ids, rng)
  for prev in (False, True):
    extract(t, case, 'direct', trajs, prev,
            lambda p=prev: t2t.trajectories_to_transitions(trajs, previous_controls_at_current_timestep=p))
  if not files:
    return
  src, dst = os.path.join(base, 's.tfrecords'), os.path.join(base, 'd.tfrecords')
  pdio.write_records(src, trajs)

  def script():
    t2t.main(t2t.Args(source_path=src, target_path=dst))
    return list(pdio.read_records(dst, mu.Transition))

  extract(t, case, 'script', trajs, False, script)
  d = os.path.join(base, 'many')
  os.makedirs(d, exist_ok=True)
  k = int(rng.integers(1, 4))
  parts = [[] for _ in range(k)]
  for x in trajs:
    parts[int(rng.integers(k))].append(x)
  paths = []
  for i, p in enumerate(parts):
    paths.append(epath.Path(d) / f'{i}.tfrecords')
    pdio.write_records(str(paths[-1]), p)
  for how, arg, want in (('file', paths[0], parts[:1]), ('files', paths[::-1], parts[::-1]),
                         ('dir', epath.Path(d), parts)):
    raised, out = False, []
    try:
      out = rec(trl.load_trajectories_from_records(arg))
    except Exception:  # pylint: disable=broad-except
      raised = True
    t.ev('Load', case=case, how=how, files=[rec(p) for p in want], out=out, raised=raised)
  for p in paths:
    os.remove(p)


def run(t):
  s, n = tr.shard()
  rng = np.random.default_rng([tr.seed(), 15, s])
  base = os.environ['VT_WORK']
  for i, x in enumerate(tr.schedules()):
    if i % n == s:
      replay(t, rng, x['h'], base, (i // n) % 8 == 0)
  for i in range(tr.params()['reps']):
    ops = []
    for _ in range(int(rng.integers(0, 5))):
      ops += ['T'] + [str(int(rng.integers(4))) for _ in range(int(rng.integers(0, 7)))]
    replay(t, rng, ops, base, i % 3 == 0)


if __name__ == '__main__':
  tr.main(run)
