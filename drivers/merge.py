"""Merges detections and propagates elements."""
import os
import sys
import zlib

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import numpy as np
import tr

from putting_dune import alignment


def dig(*arrays):
  d = 0
  for a in arrays:
    if a is not None:
      a = np.ascontiguousarray(np.asarray(a))
      d = zlib.crc32(a.tobytes() + repr((a.shape, str(a.dtype))).encode(), d)
  return d


def pts(a):
  return [tr.p4(p) for p in np.asarray(a).reshape(-1, 2)]


def atoms(pos, n):
  return [tr.p4(p) + [tr.q(c, 1)] for p, c in zip(np.asarray(pos), np.asarray(n))]


def clear(obs, cut):
  """No detection is about as far from two atoms, or about as far as the cutoff."""
  known = []
  for m in obs:
    old = [np.array(k[0]) / k[1] for k in known]
    for p in m:
      d = sorted(np.linalg.norm(o - p) for o in old)
      if any(abs(x - cut) < .004 for x in d) or (len(d) > 1 and d[1] - d[0] < .005):
        return False
    cur = known
    for p in m:
      # Nor would it matter if atoms moved while an observation is merged.
      now = [np.array(k[0]) / k[1] for k in cur]
      if old:
        k = int(np.argmin([np.linalg.norm(o - p) for o in old]))
        a = np.linalg.norm(old[k] - p) < cut
        b = [np.linalg.norm(o - p) for o in now[:len(old)]]
        if int(np.argmin(b)) != k or (min(b) < cut) != a:
          return False
        if a:
          cur[k] = (cur[k][0] + p, cur[k][1] + 1)
          continue
      cur.append((np.array(p, float), 1))
  return True


class Run:

  def __init__(self, t, rng):
    self.t, self.rng = t, rng

  def naive(self, case, obs, cut, default=False):
    rng = self.rng
    obs = [np.round(np.asarray(o, float).reshape(-1, 2), 4) for o in obs]
    if not sum(len(o) for o in obs) or not clear(obs, cut):
      return False
    arg = [o.copy() for o in obs]
    d = dig(*arg)
    rec = dict(case=case, obs=[pts(o) for o in obs], cut=tr.a4(cut), raised=False, out=[])
    try:
      pos, n = alignment.naive_merge(arg) if default else alignment.naive_merge(arg, cut)
      rec['out'] = atoms(pos, n)
    except Exception as e:  # pylint: disable=broad-except
      rec.update(raised=True, error=tr.exc_name(e))
    rec['kept'] = dig(*arg) == d
    self.t.ev('Naive', **rec)
    return True

  def line(self, g, c):
    rng = self.rng
    for _ in range(30):
      th = rng.uniform(-np.pi, np.pi)
      u = np.array([np.cos(th), np.sin(th)])
      at = rng.uniform(-8, 8, 2)
      unit, cut = [(.3, .7), (.5, 1.1), (.4, .7)][c % 3]
      obs = [[at + u * unit * x + rng.uniform(-.12, .12, 2) * unit for x in o] for o in g]
      if self.naive(f'line {g}', obs, cut, default=cut == .7 and c % 2 == 0):
        return

  def sheet(self, c):
    rng = self.rng
    n = int(rng.integers(4, 9))
    sites = rng.uniform(-5, 5, (n, 2))
    obs = []
    for _ in range(2 + c % 3):
      keep = rng.random(n) < .8
      p = sites[keep] + rng.normal(0, .15, (int(keep.sum()), 2))
      if rng.random() < .5:
        p = np.concatenate([p, rng.uniform(-5, 5, (1, 2))])
      obs.append(p[rng.permutation(len(p))])
    if c % 5 == 0:
      obs.insert(int(rng.integers(len(obs))), np.zeros((0, 2)))
    self.naive(f'sheet {c}', obs, [.7, .5, 1.3][c % 3])

  def edge(self, c):
    """Detections that are almost, or only just not, close enough."""
    rng = self.rng
    cut = [.7, .5, 1.3, 1.1][c % 4]
    at = rng.uniform(-5, 5, 2)
    obs = [[at], []]
    for k, by in enumerate([-.006, .006, -.012, .012]):
      th = rng.uniform(-np.pi, np.pi)
      p = at + (6. * k, 0)
      if k:
        obs[0].append(p)
      obs[1].append(p + (cut + by * (1 + c % 2)) * np.array([np.cos(th), np.sin(th)]))
    self.naive(f'edge {c}', obs, cut)

  def clique(self, c, g=None):
    rng = self.rng
    m = [1., .4, 1.1, 2.][c % 4]
    p = []
    if g is None:
      n = int(rng.integers(1, 6))
      cell = rng.permutation(16)[:n]
      for k in cell:
        centre = np.array([k % 4, k // 4]) * 3. * m + rng.uniform(-.2, .2, 2) * m - 4 * m
        for _ in range(1 if c % 6 == 5 else int(rng.integers(1, 5))):
          r, th = rng.uniform(0, .42) * m, rng.uniform(-np.pi, np.pi)
          p.append(centre + r * np.array([np.cos(th), np.sin(th)]))
    else:   # Points of generated observations, chains included.
      p = [np.array([x * .45, 0.]) * m * 2 + rng.uniform(-.05, .05, 2) * m for o in g for x in o]
    if not p:
      return
    p = np.round(np.array(p)[rng.permutation(len(p))], 4)
    d = np.linalg.norm(p[:, None] - p[None], axis=-1)
    if (np.abs(d - m) < .005).any():
      return
    cnt = None if c % 3 else rng.integers(1, 6, len(p)).astype(float)
    ins = p.copy()
    dg = dig(ins, cnt)
    rec = dict(case=f'clique {c}', pts=pts(p), cnt=[1] * len(p) if cnt is None else [int(x) for x in cnt], min=tr.a4(m), raised=False, out=[])
    try:
      kw = {} if cnt is None else dict(counts=cnt)
      if not (m == 1. and c % 8 == 0):
        kw['min_distance'] = m
      pos, k = alignment.clique_merge(ins, **kw)
      rec['out'] = atoms(pos, k)
    except Exception as e:  # pylint: disable=broad-except
      rec.update(raised=True, error=tr.exc_name(e))
    rec['kept'] = dig(ins, cnt) == dg
    self.t.ev('Clique', **rec)

  def spread(self, c):
    rng = self.rng
    m = int(rng.integers(1, 9))
    merged = np.round(rng.uniform(-3, 3, (m, 2)), 4)
    o = int(rng.integers(1, 10))
    orig = np.round(np.where(rng.random((o, 1)) < .7, merged[rng.integers(m, size=o)] + rng.normal(0, .25, (o, 2)), rng.uniform(-4, 4, (o, 2))), 4)
    z = rng.choice([6, 14, 1, 29], o).astype(np.int32)
    thr = [.8, .8, .4, 1.5][c % 4]
    d = np.sort(np.linalg.norm(orig[:, None] - merged[None], axis=-1), axis=1)
    if (np.abs(d[:, 0] - thr) < .004).any() or (m > 1 and (d[:, 1] - d[:, 0] < .005).any()):
      return
    start = None if c % 3 else rng.choice([6, 14, 79], m).astype(np.int32)
    default = 6 if c % 2 else 7
    dg = dig(orig, merged, z, start)
    rec = dict(case=f'spread {c}', orig=[tr.p4(p) + [int(e)] for p, e in zip(orig, z)], merged=pts(merged), thr=tr.a4(thr), default=default,
               start=[] if start is None else start.tolist(), raised=False, out=[])
    try:
      kw = {}
      if start is not None:
        kw['new_atomic_numbers'] = start
      if default != 6:
        kw['default_atomic_number'] = default
      if thr != .8:
        kw['threshold'] = thr
      rec['out'] = [tr.q(x, 1) for x in alignment.propagate_atomic_numbers(orig, merged, z, **kw)]
    except Exception as e:  # pylint: disable=broad-except
      rec.update(raised=True, error=tr.exc_name(e))
    rec['kept'] = rec['kept'] = dig(orig, merged, z, np.array(rec['start'], np.int32) if start is not None else None) == dg and dig(orig, merged, z, start) == dg
    self.t.ev('Spread', **rec)


def run(t):
  s, n = tr.shard()
  rng = np.random.default_rng([tr.seed(), 24, s])
  p = tr.params()
  r = Run(t, rng)
  t.ev('New', case='merge')
  sch = tr.schedules()
  for k, j in enumerate(rng.permutation(len(sch))[:p['n']]):
    r.line(sch[j]['obs'], k * n + s)
    if k % 4 == 0:
      r.clique(k * n + s, sch[j]['obs'])
  for c in range(s, p['random'], n):
    r.sheet(c)
    r.edge(c)
    r.clique(c)
    r.spread(c)


if __name__ == '__main__':
  tr.main(run)
