"""Compares, hashes and shifts grids."""
import os
import sys
import zlib

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import numpy as np
import tr

from putting_dune import graphene
from putting_dune import microscope_utils as mu


def atoms(pos, z):
  return [[tr.q(p[0], 1e5), tr.q(p[1], 1e5), int(e)] for p, e in zip(pos, z)]


def dig(g):
  a = np.ascontiguousarray(g.atom_positions)
  return zlib.crc32(a.tobytes() + np.ascontiguousarray(g.atomic_numbers).tobytes())


def make(g, pos, z):
  return mu.AtomicGrid(np.array(pos, g).reshape(-1, 2), np.array(z, np.int32))


class Run:

  def __init__(self, t, rng):
    self.t, self.rng = t, rng

  def eq(self, case, ga, gb, a, b):
    rec = dict(case=case, a=a, b=b, raised=False)
    d = dig(ga), dig(gb)
    try:
      rec.update(ab=bool(ga == gb), ba=bool(gb == ga), ne=bool(ga != gb), aa=bool(ga == ga))
    except Exception as e:  # pylint: disable=broad-except
      rec.update(raised=True, error=tr.exc_name(e))
    rec['kept'] = d == (dig(ga), dig(gb))
    self.t.ev('Eq', **rec)

  def pair(self, a, b, c):
    """A generated pair, turned and moved, with the atoms in any order."""
    rng = self.rng
    th, far = rng.uniform(-np.pi, np.pi), (0. if c % 3 == 0 else rng.uniform(-12, 12, 2))
    u = np.array([np.cos(th), np.sin(th)])
    out = []
    for g in (a, b):
      idx = rng.permutation(len(g))
      pos = np.array([u * g[i][0] * 1e-5 for i in idx]).reshape(-1, 2) + far
      out.append((make(np.float64, pos, [g[i][2] for i in idx]), [g[i] for i in idx]))
    # Positions are given in the specification's own frame: on a line.
    self.eq(f'pair {c}', out[0][0], out[1][0], out[0][1], out[1][1])

  def lattice(self, c):
    rng = self.rng
    m = graphene.PristineSingleDopedGraphene(grid_columns=6 + c % 6)
    m.reset(rng)
    pos, z = np.array(m.grid.atom_positions), np.array(m.grid.atomic_numbers)
    dt = [np.float64, np.float32][c % 2]
    n = len(z)
    base = make(dt, pos, z)
    for how in ('order', 'jitter', 'moved', 'element', 'swapped', 'lost', 'doubled', 'twins', 'twins_swapped'):
      p, e = pos.copy(), z.copy()
      q, f = pos.copy(), z.copy()
      i = int(rng.integers(n))
      if how == 'jitter':
        v = rng.normal(size=p.shape)
        p = p + 8e-4 * v / np.linalg.norm(v, axis=1, keepdims=True)
      elif how == 'moved':
        v = rng.normal(size=2)
        p[i] += 1.4e-3 * v / np.linalg.norm(v)
      elif how == 'element':
        e[i] = 14 if e[i] == 6 else 6
      elif how == 'swapped':
        j = int(np.argmax(z))
        i = i if i != j else (i + 1) % n
        e[i], e[j] = e[j], e[i]
      elif how == 'lost':
        p, e = np.delete(p, i, 0), np.delete(e, i)
      elif how == 'doubled':   # Same number of atoms, one of them twice.
        p[i], e[i] = p[(i + 1) % n], e[(i + 1) % n]
      elif how.startswith('twins'):   # Two atoms at nearly the same place.
        j = (i + 1) % n
        p[j] = q[j] = p[i]
        e[i], e[j] = 6, 14
        f[i], f[j] = (6, 14) if how == 'twins' else (14, 6)
      perm = rng.permutation(len(e))
      ga, gb = make(dt, p[perm], e[perm]), make(dt, q, f)
      self.eq(f'lattice {how} {c}', ga, gb, atoms(ga.atom_positions, ga.atomic_numbers), atoms(gb.atom_positions, gb.atomic_numbers))
    hs, eq, raised = [], True, False
    try:
      for _ in range(4):
        perm = rng.permutation(n)
        g = make(dt, pos[perm], z[perm])
        hs.append(hash(g) % 1_000_000_007)
        eq = eq and bool(g == base) and bool(base == g)
    except Exception:  # pylint: disable=broad-except
      raised = True
    self.t.ev('Hash', case=f'lattice {c}', hs=hs, eq=eq, raised=raised)

  def shift(self, c):
    rng = self.rng
    n = c % 6
    g = make(np.float64, rng.uniform(-20, 20, (n, 2)), rng.choice([6, 14, 1], n))
    by = rng.uniform(-5, 5, 2) if c % 4 else np.array([0., 1.])
    d, b0 = dig(g), by.copy()
    rec = dict(case=f'shift {c}', a=atoms(g.atom_positions, g.atomic_numbers), by=[tr.q(by[0], 1e5), tr.q(by[1], 1e5)], raised=False, out=[])
    try:
      o = g.shift(by if c % 5 else by.reshape(1, 2))
      rec['out'] = atoms(o.atom_positions, o.atomic_numbers)
    except Exception as e:  # pylint: disable=broad-except
      rec.update(raised=True, error=tr.exc_name(e))
    rec['kept'] = dig(g) == d and bool((b0 == by).all())
    self.t.ev('Shift', **rec)
    hs = []
    for _ in range(3):
      perm = rng.permutation(n)
      hs.append(hash(make(np.float64, g.atom_positions[perm], g.atomic_numbers[perm])) % 1_000_000_007)
    self.t.ev('Hash', case=f'small {c}', hs=hs, eq=True, raised=False)


def run(t):
  s, n = tr.shard()
  rng = np.random.default_rng([tr.seed(), 23, s])
  p = tr.params()
  r = Run(t, rng)
  t.ev('New', case='grids')
  sch = tr.schedules()
  for k in range(s, min(len(sch), p['n']), n):
    r.pair(sch[k]['a'], sch[k]['b'], k)
  for c in range(s, p['lattices'], n):
    r.lattice(c)
  for c in range(s, p['shifts'], n):
    r.shift(c)


if __name__ == '__main__':
  tr.main(run)
