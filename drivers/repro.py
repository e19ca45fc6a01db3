"""Replays interleavings of seeding and calling several instances."""
import datetime as dt
import os
import pickle
import random
import sys
import zlib

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import numpy as np
import tr

from putting_dune import action_adapters
from putting_dune import feature_constructors
from putting_dune import geometry
from putting_dune import goals
from putting_dune import graphene
from putting_dune import imaging
from putting_dune import microscope_agent
from putting_dune import microscope_utils as mu
from putting_dune import putting_dune_environment
from putting_dune import run_helpers
from putting_dune import simulator
from putting_dune import simulator_observers
from putting_dune.agents import agent_lib
from putting_dune.experiments import registry

P = geometry.Point


def flat(x):
  """Everything there is to know about a value, rounded."""
  if x is None or isinstance(x, (bool, str, int)):
    return repr(x)
  if isinstance(x, (float, np.floating)):
    return repr(round(float(x), 6) + 0.)
  if isinstance(x, np.ndarray):
    v = np.round(x.astype(np.float64), 6) + 0. if x.dtype.kind == 'f' else x
    return repr((x.shape, zlib.crc32(np.ascontiguousarray(v).tobytes())))
  if isinstance(x, dt.timedelta):
    return repr(tr.us(x))
  if isinstance(x, mu.AtomicGrid):
    return flat([np.asarray(x.atom_positions, float), np.asarray(x.atomic_numbers, int)])
  if isinstance(x, geometry.Point):
    return flat([x.x, x.y])
  if isinstance(x, mu.MicroscopeFieldOfView):
    return flat([x.lower_left, x.upper_right])
  if isinstance(x, mu.BeamControl):
    return flat([x.position, x.dwell_time, x.voltage_kv, x.current_na])
  if isinstance(x, mu.MicroscopeObservation):
    return flat([x.grid, x.fov, list(x.controls), x.elapsed_time, x.image, x.label_image])
  if isinstance(x, simulator_observers.SimulatorEvent):
    return flat([x.event_type.name, [k for k in sorted(x.event_data)], [x.event_data[k] for k in sorted(x.event_data)]])
  if isinstance(x, (list, tuple)):
    return '[' + ','.join(flat(v) for v in x) + ']'
  if isinstance(x, dict):
    return flat([[k, x[k]] for k in sorted(x)])
  if isinstance(x, (np.integer, np.bool_)):
    return repr(x.item())
  if hasattr(x, '__array__'):
    return flat(np.asarray(x))
  return flat(vars(x)) if hasattr(x, '__dict__') else type(x).__name__


def dig(x):
  return zlib.crc32(flat(x).encode()) & 0x3FFFFFFF


class Quiet(mu.SimulatorObserver):
  """An observer that looks but does not touch."""

  def observe_reset(self, grid, fov):
    self.a = np.array(grid.atom_positions)

  def observe_transition(self, time_since_control_was_applied, grid):
    self.a = np.array(grid.atom_positions)

  def observe_apply_control(self, control):
    self.b = control

  def observe_take_image(self, duration, fov):
    self.c = fov

  def observe_generated_image(self, image):
    self.d = np.array(image)

  def observe_fov_change(self, fov):
    self.c = fov


def simple():
  return graphene.PristineSingleSiGrRatePredictor(canonical_rate_prediction_fn=graphene.simple_canonical_rate_function)


def prior():
  return graphene.PristineSingleSiGrRatePredictor(canonical_rate_prediction_fn=graphene.HumanPriorRatePredictor().predict)


def gmm():
  return graphene.GaussianMixtureRateFunction(max_rate=.5, mixture_weights=np.asarray([.7, .3]), loc_distances=np.asarray([1.4, .5]),
                                              variances=np.asarray([[1., .5], [.5, 2.]]))


def fast(*a, **kw):
  """Rates that make transitions happen all the time."""
  return 20. * graphene.simple_canonical_rate_function(*a, **kw)


def material(rates):
  return graphene.PristineSingleDopedGraphene(
      rate_function=graphene.PristineSingleSiGrRatePredictor(canonical_rate_prediction_fn=fast) if rates == 'fast' else
      {'simple': simple, 'prior': prior, 'gmm': gmm}[rates](), grid_columns=30)


ACT = {'x': [.9, -.2, .7], 'y': [-.5, .8, 1.]}


class Env:
  strong = True

  def __init__(self, kind):
    rng = np.random.default_rng()
    unit = lambda: action_adapters.RelativeToSiliconActionAdapter(dwell_time_range=(dt.timedelta(seconds=2), dt.timedelta(seconds=9)))
    adapter, feat, rates = {
        'unit': (unit, feature_constructors.SingleSiliconPristineGrapheneFeatureConstuctor, 'simple'),
        'prior': (lambda: action_adapters.RelativeToSiliconMaterialFrameActionAdapter(), feature_constructors.SingleSiliconMaterialFrameFeatureConstructor, 'prior'),
        'gmm': (unit, feature_constructors.SingleSiliconMaterialFrameFeatureConstructor, 'gmm'),
        'delta': (lambda: action_adapters.DeltaPositionActionAdapter(rng), feature_constructors.SingleSiliconPristineGrapheneFeatureConstuctor, 'fast'),
        'image': (action_adapters.DirectActionAdapter, feature_constructors.ImageFeatureConstructor, 'simple'),
    }[kind]
    self.kind = kind
    self.env = putting_dune_environment.PuttingDuneEnvironment(
        material=material(rates), action_adapter=adapter(), feature_constructor=feat(), goal=goals.SingleSiliconGoalReaching())
    if kind in ('unit', 'delta'):
      self.env = run_helpers.StepLimitWrapper(self.env, step_limit=3)
    self.events = simulator_observers.EventObserver()
    self.env.sim.add_observer(self.events)
    self.quiet = None

  def seed(self, s):
    self.env.seed(s)

  def call(self, op):
    if op == 'R':
      ts = self.env.reset()
    else:
      a = np.asarray(ACT[op], np.float32)[:self.env.action_spec().shape[0]]
      ts = self.env.step(a * (.1 if self.kind == 'delta' else 1.))
    return [[int(ts.step_type), ts.reward, ts.discount, ts.observation], self.env.last_microscope_observation,
            np.asarray(self.env.goal.goal_position_material_frame), list(self.events.events)]

  def watch(self):
    if self.quiet is None:
      self.quiet = Quiet()
      self.env.sim.add_observer(self.quiet)
    else:
      self.env.sim.remove_observer(self.quiet)
      self.quiet = None


class Seeded:
  """Things that are given a generator."""
  strong = True

  def __init__(self, kind):
    self.rng = np.random.default_rng(99)
    self.kind = kind
    self.make()

  def make(self):
    pass

  def seed(self, s):
    self.rng = np.random.default_rng(s)

  def watch(self):
    pass


class Sim(Seeded):

  def make(self):
    self.events = simulator_observers.EventObserver()
    self.sim = simulator.PuttingDuneSimulator(material('fast'), observers=(self.events,))
    self.quiet = None
    self.fresh = True

  def call(self, op):
    if op == 'R' or self.fresh:
      self.fresh = False
      return [self.sim.reset(self.rng), list(self.events.events)]
    cs = [mu.BeamControl(P(.5 + .02 * v, .5), dt.timedelta(seconds=3 * v + 1)) for v in ([1, 2] if op == 'x' else [0])]
    return [self.sim.step_and_image(self.rng, cs), list(self.events.events)]

  watch = Env.watch

  @property
  def env(self):
    return self


class Mat(Seeded):

  def make(self):
    self.m = material('fast')
    self.fresh = True

  def call(self, op):
    if op == 'R' or self.fresh:
      self.fresh = False
      self.m.reset(self.rng)
    else:
      p = self.m.get_silicon_position() + (np.asarray([1., .3]) if op == 'x' else np.asarray([-.4, -.9]))
      self.m.apply_control(self.rng, mu.BeamControl(P(p), dt.timedelta(seconds=4)))
    return [self.m.grid, self.m.get_silicon_position()]


def observation(k):
  r = np.random.default_rng([8, k])
  m = material('fast')
  s = simulator.PuttingDuneSimulator(m)
  return s.reset(r)


class Goal(Seeded):
  strong = False

  def make(self):
    self.g = goals.SingleSiliconGoalReaching()
    self.fresh = True

  def call(self, op):
    if op == 'R' or self.fresh:
      self.fresh = False
      self.g.reset(self.rng, observation(0))
      return self.g.goal_position_material_frame
    r = self.g.calculate_reward_and_terminal(observation(0))
    if op == 'y':
      self.g.reset(self.rng, observation(1))
    return [r.reward, r.is_terminal, r.is_truncated, self.g.goal_position_material_frame]


class Adapter(Seeded):

  def make(self):
    self.a = None

  def call(self, op):
    if op == 'R' or self.a is None:
      self.a = action_adapters.DeltaPositionActionAdapter(self.rng)
    if op == 'y':
      self.a.reset()
    return self.a.get_action(None, np.asarray([.03, -.05]))


class Agent(Seeded):

  def make(self):
    self.a = None

  def call(self, op):
    import dm_env
    if op == 'R' or self.a is None:
      self.a = (agent_lib.UniformRandomAgent(self.rng, -1., 1., (3,)) if self.kind == 'random' else
                agent_lib.GreedyAgent(self.rng, position_noise_sigma=.3))
    o = np.asarray([.5, .5, 1.42, 0, -.71, 1.23, -.71, -1.23, 9., 2.], np.float32)
    return self.a.step(dm_env.restart(o) if op == 'x' else dm_env.transition(0., o))


class Micro(Seeded):

  def make(self):
    self.a = None

  def call(self, op):
    if op == 'R' or self.a is None:
      self.a = microscope_agent.MicroscopeAgent(self.rng, registry.create_microscope_experiment('relative_random_long'))
      self.a.reset(self.rng, observation(0))
    return [self.a.step(observation(0)), self.a.goal.goal_position_material_frame]


class Image(Seeded):

  def make(self):
    self.p = None

  def call(self, op):
    if op == 'R' or self.p is None:
      self.p = (imaging.sample_noisy_image_parameters if self.kind == 'noisy' else imaging.sample_image_parameters)(self.rng, 64)
    o = observation(0 if op != 'y' else 1)
    return [self.p, imaging.generate_stem_image(o.grid, o.fov, self.p, self.rng)]


class Mix(Seeded):

  def call(self, op):
    f = graphene.GaussianMixtureRateFunction.sample_new(self.rng)
    return [f.max_rate, f.mixture_weights, f.loc_distances, f.variances]


KINDS = {'env_unit': (Env, 'unit'), 'env_prior': (Env, 'prior'), 'env_gmm': (Env, 'gmm'), 'env_delta': (Env, 'delta'),
         'env_image': (Env, 'image'), 'sim': (Sim, ''), 'material': (Mat, ''), 'goal': (Goal, ''), 'adapter': (Adapter, ''),
         'agent_random': (Agent, 'random'), 'agent_greedy': (Agent, 'greedy'), 'microscope': (Micro, ''), 'image': (Image, ''),
         'image_noisy': (Image, 'noisy'), 'mixture': (Mix, '')}
SEEDS = {'1': 11, '2': 4242}


class Run:

  def __init__(self, t, rng):
    self.t, self.rng = t, rng
    self.k = 0

  def other(self):
    self.k += 1
    what = ('numpy', 'python', 'env', 'generator')[self.k % 4]
    if what == 'numpy':
      np.random.seed(self.k)
      np.random.uniform(size=self.k % 5)
    elif what == 'python':
      random.seed(self.k)
      random.random()
    elif what == 'env':
      e = Env('unit')
      e.seed(self.k)
      e.call('R')
      e.call('x')
    else:
      np.random.default_rng().uniform(size=3)
      np.random.default_rng(11).uniform()
    self.t.ev('Other', what=what)

  def schedule(self, case, kinds, ops, again=False):
    t = self.t
    t.ev('New', case=case)
    cls = [KINDS[k] for k in kinds]
    inst = [c(k) for c, k in cls]
    for i, k in enumerate(kinds):
      t.ev('Make', i=i + 1, kind=k)
    for op in ops:
      if op == 'N':
        self.other()
        continue
      i, x = 'AB'.index(op[0]), op[1:]
      if x[0] == 'S':
        inst[i].seed(SEEDS[x[1]])
        t.ev('Seed', i=i + 1, s=SEEDS[x[1]])
      elif x == 'O':
        inst[i].watch()
        t.ev('Other', what='observer')
      else:
        d = dig(inst[i].call(x))
        t.ev('Again' if again and i else 'Call', case=case, i=i + 1, op=x, dig=d, strong=cls[i][0].strong)


TAIL = {0: 'S R x y R x', 1: 'S R y y x', 2: 'S R x x x R y'}


def tail(who, n, s):
  return [who + (c + s if c == 'S' else c) for c in TAIL[n].split()]


def run(t):
  s, n = tr.shard()
  rng = np.random.default_rng([tr.seed(), 11, s])
  r = Run(t, rng)
  names = [k for k in KINDS if k != 'env_image']
  mine = names[s::n] + (['env_image'] if s == 0 else [])
  # What a fresh instance does, twice.
  for k in mine:
    for _ in range(2):
      for a in range(3):
        r.schedule(f'fresh {k} {a}', [k, k], tail('A', a, '1') + tail('B', a, '1'), again=True)
        r.schedule(f'fresh other seed {k} {a}', [k, k], tail('A', a, '2') + tail('B', a, '1'))
  sch = tr.schedules()
  idx = rng.permutation(len(sch))[:tr.params()['n']]
  light = [k for k in mine if k != 'env_image']
  for c, j in enumerate(idx):
    ops = sch[j]['h']
    k = light[c % len(light)] if c % 25 or s else 'env_image'
    if k == 'env_image' and 'env_image' not in mine:
      k = light[0]
    other = k if c % 3 else names[int(rng.integers(len(names)))]
    a, b = int(rng.integers(3)), int(rng.integers(3))
    x, y = tail('A', a, '12'[c % 2]), tail('B', b, '12'[(c // 2) % 2])
    if c % 4 == 0:   # Interleave the two of them.
      z = []
      while x or y:
        q = x if x and (not y or rng.integers(2)) else y
        z.append(q.pop(0))
        if rng.integers(8) == 0:
          z.append('N')
    else:
      z = x + y
    r.schedule(f'{k}+{other} ' + ' '.join(ops), [k, other], ops + z)


if __name__ == '__main__':
  tr.main(run)
