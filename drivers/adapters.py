"""Replays generated action histories against every action adapter."""
import copy
import datetime as dt
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import numpy as np
import tr

from putting_dune import action_adapters as aa
from putting_dune import geometry
from putting_dune import microscope_utils as mu

P = geometry.Point


def scene(rng, nsi, edge):
  n = int(rng.integers(max(2, nsi), 8))
  pos = rng.integers(0, 1025, size=(n, 2)) / 1024
  num = np.full(n, 6)
  idx = rng.permutation(n)[:nsi]
  num[idx] = 14
  if edge and nsi:
    pos[idx[0]] = rng.choice([0., 1 / 64, .5, 63 / 64, 1.], size=2)
  w = int(rng.integers(40, 160)) / 4
  h = w if rng.random() < .3 else int(rng.integers(40, 160)) / 4
  x, y = int(rng.integers(-200, 200)) / 4, int(rng.integers(-200, 200)) / 4
  o = mu.MicroscopeObservation(
      mu.AtomicGridMicroscopeFrame(mu.AtomicGrid(pos, num)),
      mu.MicroscopeFieldOfView(P(x, y), P(x + w, y + h)), [], dt.timedelta(seconds=2))
  si = pos[idx[0]] if nsi else np.zeros(2)
  return o, si, (w, h)


def same(a, b):
  return (np.array_equal(a.grid.atom_positions, b.grid.atom_positions)
          and np.array_equal(a.grid.atomic_numbers, b.grid.atomic_numbers)
          and a.fov == b.fov and a.elapsed_time == b.elapsed_time and a.controls == b.controls)


def start_of(adapter):
  c = copy.deepcopy(adapter)
  o, _, _ = scene(np.random.default_rng(0), 1, False)
  p = c.get_action(o, np.zeros(2))[0].position
  return tr.pu6((p.x, p.y))


def spec_event(t, adapter, case):
  sp = adapter.action_spec
  n = sp.shape[0]
  full = lambda v: [tr.u6(x) for x in np.broadcast_to(np.asarray(v, float), sp.shape).reshape(-1)]
  t.ev('Spec', case=case, shape=[int(x) for x in sp.shape], low=full(sp.minimum), high=full(sp.maximum))


def make(kind, rng, lo, hi, dist, default):
  if kind == 'direct':
    return aa.DirectActionAdapter()
  if kind == 'delta':
    return aa.DeltaPositionActionAdapter(np.random.default_rng(int(rng.integers(2**31))))
  cls = aa.RelativeToSiliconActionAdapter if kind == 'unit' else aa.RelativeToSiliconMaterialFrameActionAdapter
  if default:
    return cls()
  return cls(dwell_time_range=(dt.timedelta(microseconds=lo), dt.timedelta(microseconds=hi)),
             max_distance_angstroms=dist)


def replay(t, rng, kind, ops, case):
  default = rng.random() < .15
  lo = int(rng.integers(1, 40)) * 50000
  hi = lo if rng.random() < .4 else lo + 64 * int(rng.integers(1, 60000))
  dist = [1.42, 2.84, 1., 3.5][rng.integers(4)]
  if default:
    lo = hi = 1500000
    dist = 1.42
  adapter = make(kind, rng, lo, hi, dist, default)
  t.ev('New', case=case, kind=kind, lo=lo, hi=hi, dist=tr.a4(dist))
  spec_event(t, adapter, case)
  first = True
  for op in ops:
    if op == 'R':
      if not first or rng.random() < .5:
        adapter.reset()
        t.ev('Reset', case=case)
      first = False
      if kind == 'delta':
        t.ev('Start', case=case, start=start_of(adapter))
      continue
    nsi = int(rng.choice([0, 1, 1, 1, 1, 1, 1, 2]))
    o, si, size = scene(rng, nsi, rng.random() < .3)
    if kind == 'delta':
      a = {'Z': [0., 0.], 'A': rng.integers(-100, 101, 2) / 1000, 'B': rng.integers(-100, 101, 2) / 1000,
           'P': [2., -3.], 'Q': [-.9, .8]}[op]
    elif kind == 'direct':
      a = {'Z': [0., 1.], 'A': rng.integers(0, 1025, 2) / 1024, 'B': rng.integers(0, 1025, 2) / 1024,
           'P': [2., -3.], 'Q': [-.9, .8]}[op]
    elif kind == 'unit':
      a = {'Z': [0., 0.], 'A': rng.integers(-64, 65, 2) / 64, 'B': rng.integers(-64, 65, 2) / 64,
           'P': [2., -3.], 'Q': [-.9, 1.5]}[op]
    else:
      a = {'Z': [0., 0.], 'A': rng.integers(-128, 129, 2) / 64, 'B': rng.integers(-256, 257, 2) / 64,
           'P': [20., -30.], 'Q': [-1.42, 2.]}[op]
    k = int(rng.integers(0, 65)) if rng.random() < .8 else int(rng.choice([-9, 80]))
    third = kind in ('unit', 'material') and lo != hi
    a = np.asarray(list(a) + ([k / 64] if third else []), np.float32 if rng.random() < .3 else np.float64)
    ac, oc = a.copy(), copy.deepcopy(o)
    raised, out = False, []
    try:
      out = adapter.get_action(o, a)
    except RuntimeError:
      raised = True
    qa = tr.a4 if kind == 'material' else tr.u6
    t.ev('Act', case=case, a=[qa(ac[0]), qa(ac[1])], k=k if third else 0, nsi=nsi, si=tr.pu6(si),
         size=[tr.a4(size[0]), tr.a4(size[1])], raised=raised,
         out=[dict(p=tr.pu6((c.position.x, c.position.y)), dwell=tr.us(c.dwell_time)) for c in out],
         kept=bool(np.array_equal(a, ac) and same(o, oc)))


def starts(t, rng, n):
  """Where the delta adapter starts after many resets, by cells of the frame."""
  adapter = aa.DeltaPositionActionAdapter(np.random.default_rng(int(rng.integers(2**31))))
  o, _, _ = scene(rng, 1, False)
  cells = np.zeros((4, 4), int)
  edges = np.zeros((2, 20), int)
  for _ in range(n):
    adapter.reset()
    p = adapter.get_action(o, np.zeros(2))[0].position
    x, y = (min(max(v, 0.), 1 - 1e-12) for v in (p.x, p.y))
    cells[int(4 * x), int(4 * y)] += 1
    edges[0, int(20 * x)] += 1
    edges[1, int(20 * y)] += 1
  for case, c in [('cells', cells), ('columns', edges[0]), ('rows', edges[1])]:
    t.ev('Starts', case=f'starts by {case}', n=n, cnt=[int(x) for x in c.reshape(-1)])


def run(t):
  s, n = tr.shard()
  rng = np.random.default_rng([tr.seed(), 10, s])
  starts(t, rng, 3000)
  for i, x in enumerate(tr.schedules()):
    if i % n == s:
      for kind in ('direct', 'delta', 'unit', 'material'):
        replay(t, rng, kind, x['h'], f'{kind} {"".join(x["h"])}')


if __name__ == '__main__':
  tr.main(run)
