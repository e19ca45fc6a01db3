"""Counts waiting times and successors of many exposures of the real material."""
import datetime as dt
import math
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import numpy as np
import tr

from putting_dune import constants
from putting_dune import geometry
from putting_dune import graphene
from putting_dune import microscope_utils

LN2 = math.log(2)


class Log(microscope_utils.SimulatorObserver):

  def __init__(self):
    self.ev = []

  def observe_transition(self, time_since_control_was_applied, grid):
    self.ev.append((time_since_control_was_applied.total_seconds(), grid))


def with_si(grid, i):
  z = np.full_like(grid.atomic_numbers, constants.CARBON)
  z[i] = constants.SILICON
  return microscope_utils.AtomicGridMaterialFrame(
      microscope_utils.AtomicGrid(grid.atom_positions, z))


def si_of(grid):
  return int(np.where(grid.atomic_numbers == constants.SILICON)[0][0])


def control(seconds):
  return microscope_utils.BeamControlMaterialFrame(
      microscope_utils.BeamControl(geometry.Point(.3, -.2), dt.timedelta(seconds=seconds)))


def expose(material, rng, seconds):
  log = Log()
  start = si_of(material.grid)
  material.apply_control(rng, control(seconds), (log,))
  return start, log.ev


class Toggle:
  """Total rate rates[state] where state counts transitions modulo len(rates)."""

  def __init__(self, rates, weights, dtype):
    self.rates, self.weights, self.dtype = rates, weights, dtype
    self.n = len(rates)

  def state(self, grid):
    return si_of(grid) % self.n

  def __call__(self, grid, beam_position):
    s = self.state(grid)
    w = self.weights
    out = []
    size = len(grid.atomic_numbers)
    si = si_of(grid)
    for k, x in enumerate(w):
      # Successor k is a site whose index is 1 + n*k further: the state
      # advances by one with each transition.
      j = (si + 1 + self.n * k) % (size - size % self.n)
      out.append(graphene.SuccessorState(
          with_si(grid, j), self.dtype(self.rates[s] * x / sum(w))))
    return graphene.Rates(out)

  def which(self, grid0_si, grid1, size):
    m = size - size % self.n
    return ((si_of(grid1) - grid0_si - 1) % m) // self.n


def bucket(x, h, m):
  return min(int(x / h), m - 1)


def run(t):
  par = tr.params()
  shard, _ = tr.shard()
  master = np.random.default_rng([tr.seed(), 77, shard])
  n = par.get('n', 2000)
  for rep in range(par.get('reps', 2)):
    # From one transition in many hours to many per millisecond.
    scale = float(10 ** master.uniform(*[(-5., -3.), (-1.5, 3.)][int(master.random() < .7)]))
    nst = int(master.choice([1, 2, 3]))
    rates = [scale * float(x) for x in master.choice([1., 2., 5., .25], nst, replace=False)]
    # Comparable, one dominant, many equal and one rare successor, in turn.
    family = [[1, 2, 5, 0], [30, 1, 1, 0], [1] * 7, [9, 1]][(shard + rep) % 4]
    weights = [float(x) for x in master.permutation(family)]
    dtype = [np.float32, np.float64, float][int(master.integers(3))]
    fn = Toggle(rates, weights, dtype)
    rng = np.random.default_rng(int(master.integers(2**31)))
    mat = graphene.PristineSingleDopedGraphene(rate_function=fn, grid_columns=10)
    mat.reset(rng)
    size = len(mat.grid.atomic_numbers)
    case = f'{nst} rates'
    # 1. long exposures: the first waits, each with the rate in force then.
    m = 5
    waits = [[0] * m for _ in range(3)]
    joint = 0
    picks = [0] * len(weights)
    npick = 0
    for _ in range(n):
      s0 = si_of(mat.grid)
      st = s0 % nst
      h = [LN2 / rates[(st + k) % nst] for k in range(3)]
      _, ev = expose(mat, rng, 26 * max(h))
      last, bs, si = 0., [], s0
      for k in range(3):
        if k >= len(ev):
          bs.append(m - 1)
          continue
        bs.append(bucket(ev[k][0] - last, h[k], m))
        last = ev[k][0]
      for k in range(3):
        waits[k][bs[k]] += 1
      joint += bs[0] == 0 and bs[1] == 0
      for tt, g in ev[:3]:
        w = fn.which(si, g, size)
        if w < len(picks):
          picks[w] += 1
        npick += 1
        si = si_of(g)
    for k in range(3):
      t.ev('WAIT', case=f'{case} wait {k}', n=n, cnt=waits[k])
    t.ev('PAIR', case=case, n=n, c=int(joint))
    t.ev('PICK', case=case, n=npick, w=[int(x) for x in weights], cnt=picks)
    # 2. dwell time of k half lives: how many transitions happen.
    r1 = scale * 1.5
    mat = graphene.PristineSingleDopedGraphene(
        rate_function=Toggle([r1], [1., 1., 1.], dtype), grid_columns=8)
    mat.reset(rng)
    for k in (1, 2, 3):
      cnt = [0, 0, 0]
      for _ in range(n):
        _, ev = expose(mat, rng, k * LN2 / r1)
        if len(ev) < 3:
          cnt[len(ev)] += 1
      t.ev('COUNT', case=f'dwell {k}', n=n, k=k, cnt=cnt)
  # 3. successors without rate are never reached, however long the exposure.
  mat = graphene.PristineSingleDopedGraphene(
      rate_function=Toggle([1.], [0., 1., 0.], np.float32), grid_columns=8)
  rng = np.random.default_rng(int(master.integers(2**31)))
  mat.reset(rng)
  zero = graphene.PristineSingleSiGrRatePredictor(
      canonical_rate_prediction_fn=lambda *a, **kw: np.zeros(3))
  cold = graphene.PristineSingleDopedGraphene(rate_function=zero, grid_columns=8)
  cold.reset(rng)
  c = 0
  for sec in [.001, 1., 60., 1000., 3599.]:
    _, ev = expose(cold, rng, sec)
    c += len(ev)
  t.ev('NEVER', case='all rates zero', c=c)
  size = len(cold.grid.atomic_numbers)
  for name, rate in [('python zero', 0.), ('int zero', 0), ('float32 zero', np.float32(0)),
                     ('once in ten years', 3e-9), ('vanishing', 1e-300)]:
    slow = graphene.PristineSingleDopedGraphene(rate_function=lambda grid, beam_position: graphene.Rates(
        [graphene.SuccessorState(with_si(grid, (si_of(grid) + k) % size), rate) for k in (1, 2)]),
        grid_columns=8)
    slow.reset(rng)
    c = 0
    for sec in [0., 1e-6, 1., 3599., 3600., 3601., 10000., 86400.]:
      _, ev = expose(slow, rng, sec)
      c += len(ev)
    t.ev('NEVER', case=f'rate: {name}', c=c)
  c = 0
  for _ in range(200):
    _, ev = expose(mat, rng, 0.)
    c += len(ev)
  t.ev('NEVER', case='no dwell time', c=c)


if __name__ == '__main__':
  tr.main(run)
