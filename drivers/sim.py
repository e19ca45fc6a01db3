"""Drives the real simulator; logs calls, observer events and observations."""
import datetime as dt
import os
import sys
import zlib

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import numpy as np
import tr

from putting_dune import constants
from putting_dune import geometry
from putting_dune import graphene
from putting_dune import microscope_utils
from putting_dune import simulator
from putting_dune import simulator_observers


def dig(*parts):
  return zlib.crc32(repr(parts).encode()) & 0x3FFFFFFF


def fov4(fov):
  return [tr.a4(fov.lower_left.x), tr.a4(fov.lower_left.y),
          tr.a4(fov.upper_right.x), tr.a4(fov.upper_right.y)]


def img_dig(image):
  return dig(np.asarray(image).shape, np.round(np.asarray(image, float), 5).tobytes())


class Sites:
  """Matches grids against the lattice sites of the last reset."""

  def __init__(self, grid):
    self.p = np.array(grid.atom_positions, float)

  def match(self, grid):
    """(silicon site 1-based or 0, moved, #Si, #other)."""
    q = np.asarray(grid.atom_positions, float)
    z = np.asarray(grid.atomic_numbers)
    nsi = int((z == constants.SILICON).sum())
    nother = int(((z != constants.SILICON) & (z != constants.CARBON)).sum())
    if q.shape != self.p.shape:
      return 0, -1, nsi, nother
    if np.array_equal(q, self.p):
      idx, moved = np.arange(len(q)), 0
    else:
      d = np.linalg.norm(q[:, None] - self.p[None], axis=-1)
      idx = d.argmin(1)
      moved = tr.a4(d.min(1).max()) if len(set(idx)) == len(idx) else -1
    si = np.where(z == constants.SILICON)[0]
    s = int(idx[si[0]]) + 1 if len(si) == 1 and 0 <= moved <= 1 else 0
    return s, moved, nsi, nother


class Probe(microscope_utils.SimulatorObserver):
  """Reports every callback to a sink."""

  def __init__(self, sink):
    self.sink = sink

  def observe_reset(self, grid, fov):
    self.sink('ORESET', grid=grid, fov=fov)

  def observe_transition(self, time_since_control_was_applied, grid):
    self.sink('OTRANS', t=time_since_control_was_applied, grid=grid)

  def observe_apply_control(self, control):
    self.sink('OCTRL', control=control)

  def observe_take_image(self, duration, fov):
    self.sink('OIMG', duration=duration, fov=fov)

  def observe_generated_image(self, image):
    self.sink('OGEN', image=image)

  def observe_fov_change(self, fov):
    self.sink('OFOV', fov=fov)


def grid_dig(grid):
  p = np.asarray(grid.atom_positions, float)
  z = np.asarray(grid.atomic_numbers)
  o = np.lexsort(np.round(p, 4).T)
  si = np.round(p[z == constants.SILICON], 4) + 0.0
  return dig(len(o), si.tolist())


def event_dig(kind, kw):
  if kind == 'ORESET':
    return dig('RESET', grid_dig(kw['grid']), fov4(kw['fov']))
  if kind == 'OTRANS':
    return dig('TRANSITION', tr.us(kw['t']), grid_dig(kw['grid']))
  if kind == 'OCTRL':
    c = kw['control']
    return dig('APPLY_CONTROL', tr.us(c.dwell_time), tr.p4((c.position.x, c.position.y)))
  if kind == 'OIMG':
    return dig('TAKE_IMAGE', tr.us(kw['duration']), fov4(kw['fov']))
  if kind == 'OGEN':
    return dig('GENERATED_IMAGE', img_dig(kw['image']))
  if kind == 'OFOV':
    return dig('FOV', fov4(kw['fov']))
  raise ValueError(kind)


def log_dig(event):
  """The digest of an entry of an EventObserver."""
  d = event.event_data
  name = event.event_type.name
  if name == 'RESET':
    return dig('RESET', grid_dig(d['grid']), fov4(d['fov']))
  if name == 'TRANSITION':
    return dig('TRANSITION', tr.us(d['time_since_control_was_applied']), grid_dig(d['grid']))
  if name == 'APPLY_CONTROL':
    return dig('APPLY_CONTROL', tr.us(d['dwell_time']), tr.p4((d['position'].x, d['position'].y)))
  if name == 'TAKE_IMAGE':
    return dig('TAKE_IMAGE', tr.us(d['duration']), fov4(d['fov']))
  if name == 'GENERATED_IMAGE':
    return dig('GENERATED_IMAGE', img_dig(d['image']))
  return 0


def ctrl_rec(c):
  return dict(u=tr.pu6((c.position.x, c.position.y)), dwell=tr.us(c.dwell_time),
              kv=tr.q(c.voltage_kv, 1000), na=tr.q(c.current_na, 1e6))


def obs_dig(o):
  p = np.asarray(o.grid.atom_positions, float)
  z = np.asarray(o.grid.atomic_numbers)
  k = np.lexsort(np.round(p, 6).T)
  return dig(np.round(p[k], 5).tolist(), z[k].tolist(), fov4(o.fov), tr.us(o.elapsed_time),
             None if o.image is None else img_dig(o.image),
             [sorted(ctrl_rec(c).items()) for c in o.controls])


class Recorder:
  """A simulator with logging observers, and a twin nobody observes."""

  def __init__(self, t, rate, columns, duration, seed, case):
    self.t, self.case = t, case
    self.sites = None
    self.digs_other = {}
    self.registered = {}
    self.rng = np.random.default_rng(seed)
    self.rng_twin = np.random.default_rng(seed)
    self.rate = rate
    self.material = graphene.PristineSingleDopedGraphene(
        rate_function=self._logged_rate, grid_columns=columns)
    self.a = Probe(self._sink)
    self.event_observer = simulator_observers.EventObserver()
    first = [self.a, self.event_observer]
    self.sim = simulator.PuttingDuneSimulator(
        self.material, image_duration=duration, observers=first)
    self.twin = simulator.PuttingDuneSimulator(
        graphene.PristineSingleDopedGraphene(rate_function=rate, grid_columns=columns),
        image_duration=duration)
    # What happens to the caller's list later must not matter.
    first.append(self._other('ghost'))
    self.registered['ghost'] = False
    first.pop(0)
    t.ev('New', case=case, dur=tr.us(duration))

  def _other(self, name):
    self.digs_other[name] = []
    return Probe(lambda kind, **kw: self.digs_other[name].append(event_dig(kind, kw)))

  def add(self, name):
    p = self._other(name)
    p.name = name
    setattr(self, 'obs_' + name, p)
    self.sim.add_observer(p)
    self.registered[name] = True

  def remove(self, name):
    self.sim.remove_observer(getattr(self, 'obs_' + name))
    self.registered[name] = False

  def _logged_rate(self, grid, beam_position):
    beam = beam_position
    rates = self.rate(grid, beam)
    si, moved, nsi, nother = self.sites.match(grid)
    succ, pos = [], []
    for s in rates.successor_states:
      i, m, n, o = self.sites.match(s.grid)
      succ.append(i if (m, n, o) == (0, 1, 0) else 0)
      if s.rate > 0:
        pos.append(succ[-1])
    self.t.ev('RATE', case=self.case, si=si, moved=moved, p=tr.p4((beam.x, beam.y)), succ=succ, pos=pos)
    return rates

  def _sink(self, kind, **kw):
    r = dict(dig=event_dig(kind, kw))
    if kind == 'ORESET':
      self.sites = Sites(kw['grid'])
    if 'grid' in kw:
      r['si'], r['moved'], r['nsi'], r['nother'] = self.sites.match(kw['grid'])
    if 'fov' in kw:
      r['fov'] = fov4(kw['fov'])
    if 't' in kw:
      r['t'] = tr.us(kw['t'])
    if 'duration' in kw:
      r['dur'] = tr.us(kw['duration'])
    if 'control' in kw:
      c = kw['control']
      r.update(p=tr.p4((c.position.x, c.position.y)), dwell=tr.us(c.dwell_time),
               kv=tr.q(c.voltage_kv, 1000), na=tr.q(c.current_na, 1e6))
    if 'image' in kw:
      r['img'] = img_dig(kw['image'])
    self.t.ev(kind, case=self.case, **r)

  def _begin(self, kind, controls, image):
    for d in self.digs_other.values():
      d.clear()
    si = moved = 0
    if self.sites is not None:
      si, moved, _, _ = self.sites.match(self.material.grid)
    self.t.ev('Begin', case=self.case, k=kind, ctrls=[ctrl_rec(c) for c in controls],
              image=image, si=si, moved=moved)

  def _end(self, kind, o, o_twin):
    if kind == 'reset':
      # A reset makes a new lattice; if nobody was told, it still counts.
      self.sites = Sites(self.material.grid)
    si, moved, nsi, nother = self.sites.match(self.material.grid)
    f = o.fov
    ll = np.array([f.lower_left.x, f.lower_left.y])
    w = np.array([f.upper_right.x, f.upper_right.y]) - ll
    pos = np.asarray(o.grid.atom_positions, float).reshape(-1, 2)
    z = np.asarray(o.grid.atomic_numbers)
    atoms = []
    if len(pos):
      d = np.linalg.norm((ll + pos * w)[:, None] - self.sites.p[None], axis=-1)
      wit = d.argmin(1)
      atoms = [dict(w=int(i) + 1, u=tr.u6(a[0]), v=tr.u6(a[1]), z=int(zz))
               for i, a, zz in zip(wit, pos, z)]
    self.t.ev('End', case=self.case, elapsed=tr.us(o.elapsed_time), fov=fov4(f),
              ctrls=[ctrl_rec(c) for c in o.controls], atoms=atoms, si=si, moved=moved,
              nsi=nsi, nother=nother, hasimg=o.image is not None,
              imgdig=0 if o.image is None else img_dig(o.image),
              sites=[tr.p4(p) for p in self.sites.p] if kind == 'reset' else [],
              seen=[dict(o=n, reg=self.registered[n], digs=list(d))
                    for n, d in self.digs_other.items()],
              evlog=[log_dig(e) for e in self.event_observer.events],
              dig=obs_dig(o), twin=obs_dig(o_twin))

  def reset(self, image):
    self._begin('reset', (), image)
    o = self.sim.reset(self.rng, return_image=image)
    o2 = self.twin.reset(self.rng_twin, return_image=image)
    self._end('reset', o, o2)
    self.last = o
    return o

  def step(self, controls, image):
    self._begin('step', controls, image)
    o = self.sim.step_and_image(self.rng, controls, return_image=image)
    o2 = self.twin.step_and_image(self.rng_twin, list(controls), return_image=image)
    self._end('step', o, o2)
    self.last = o
    return o

  def si_micro(self):
    f = self.last.fov
    p = self.material.get_silicon_position()
    return np.array([(p[0] - f.lower_left.x) / (f.upper_right.x - f.lower_left.x),
                     (p[1] - f.lower_left.y) / (f.upper_right.y - f.lower_left.y)])


def fast(base, factor):
  def rate(grid, beam_position):
    r = base(grid, beam_position)
    return graphene.Rates([graphene.SuccessorState(s.grid, s.rate * factor)
                           for s in r.successor_states])
  return rate


def pull(grid, beam_position):
  """The silicon walks towards the beam, site by site."""
  z = np.asarray(grid.atomic_numbers)
  p = np.asarray(grid.atom_positions, float)
  si = int(np.where(z == constants.SILICON)[0][0])
  near = np.argsort(np.linalg.norm(p - p[si], axis=1))[1:4]
  b = np.array([beam_position.x, beam_position.y])
  d = np.linalg.norm(p[near] - b, axis=1)
  out = []
  for k, j in enumerate(near):
    zz = np.full_like(z, constants.CARBON)
    zz[j] = constants.SILICON
    nearer = k == d.argmin() and d[k] < np.linalg.norm(p[si] - b)
    out.append(graphene.SuccessorState(
        microscope_utils.AtomicGridMaterialFrame(microscope_utils.AtomicGrid(p, zz)),
        40. if nearer else 0.))
  return graphene.Rates(out)


def run(t):
  par = tr.params()
  s, n = tr.shard()
  master = np.random.default_rng([tr.seed(), s])
  simple = graphene.PristineSingleSiGrRatePredictor(
      canonical_rate_prediction_fn=graphene.simple_canonical_rate_function)
  human = graphene.PristineSingleSiGrRatePredictor(
      canonical_rate_prediction_fn=graphene.HumanPriorRatePredictor().predict)
  for ep in range(par.get('episodes', 12)):
    rng = np.random.default_rng(int(master.integers(2**31)))
    kind = (ep + s) % 5
    if kind == 3:
      rate = graphene.GaussianMixtureRateFunction.sample_new(rng)
    else:
      rate = [simple, fast(simple, 8.0), human, None, pull][kind]
    march = kind == 4 and rng.random() < .5
    columns = 50 if march else int(rng.choice([int(rng.integers(7, 30)), 14, 24, 50], p=[.4, .2, .3, .1]))
    duration = dt.timedelta(microseconds=int(rng.choice([0, 1, 1_500_000, 2_000_000, 3_456_789])))
    case = f'sim/{kind}/{columns}'
    r = Recorder(t, rate, columns, duration, int(rng.integers(2**31)), case)
    if rng.random() < .5:
      r.add('b')
    r.reset(bool(rng.random() < .3))
    heading = rng.uniform(0, 2 * np.pi)
    for step in range(par.get('steps', 14)):
      u = rng.random()
      if u < .08:
        r.reset(bool(rng.random() < .3))
        continue
      if u < .25:
        name = str(rng.choice(['b', 'c']))
        if r.registered.get(name):
          r.remove(name)
        else:
          r.add(name)
      nc = int(rng.choice([0, 1, 1, 2, 3, 5, 9] if kind != 4 else [0, 1, 1, 1, 2]))
      controls = []
      width = r.last.fov.upper_right.x - r.last.fov.lower_left.x
      if rng.random() < .1:
        heading = rng.uniform(0, 2 * np.pi)
      for _ in range(nc):
        if kind == 4 and rng.random() < .8:
          # Somewhere in the frame, or far away in the heading.
          pos = (r.si_micro() + np.array([np.cos(heading), np.sin(heading)]) * rng.uniform(.1, .7)
                 if march else rng.uniform(.1, .9, 2))
        elif rng.random() < .75:
          # On the neighbour of the silicon that lies in the heading.
          ang = heading + rng.normal() * .4
          pos = r.si_micro() + (1 + .8 * len(controls)) * 1.42 / width * np.array(
              [np.cos(ang), np.sin(ang)])
        elif rng.random() < .5:
          pos = rng.uniform(0, 1, 2)
        else:
          pos = rng.uniform(-.5, 1.5, 2)
        dwell = dt.timedelta(microseconds=int(rng.choice(
            [0, 1, 250_000, 1_500_000, 5_000_000, 20_000_000, 60_000_001])))
        if rng.random() < .5:
          c = microscope_utils.BeamControl(geometry.Point(float(pos[0]), float(pos[1])), dwell)
        else:
          c = microscope_utils.BeamControl(
              geometry.Point(float(pos[0]), float(pos[1])), dwell,
              float(rng.choice([30., 60., 80., 100.])), float(rng.choice([.05, .1, .2, 1.])))
        controls.append(c)
      r.step(controls if rng.random() < .5 else tuple(controls), bool(rng.random() < .2))


if __name__ == '__main__':
  tr.main(run)
