"""Replays the generated schedules against PuttingDuneEnvironment and StepLimitWrapper."""
import datetime as dt
import os
import sys
import zlib

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import dm_env
from dm_env import specs
import numpy as np
import tr

from putting_dune import action_adapters
from putting_dune import feature_constructors
from putting_dune import geometry
from putting_dune import goals
from putting_dune import graphene
from putting_dune import microscope_utils
from putting_dune import putting_dune_environment
from putting_dune import run_helpers


def obs_id(o):
  p = np.asarray(o.grid.atom_positions, float)
  return zlib.crc32(repr((
      np.round(p, 5).tolist(), np.asarray(o.grid.atomic_numbers).tolist(),
      [tr.a4(v) for v in (o.fov.lower_left.x, o.fov.lower_left.y, o.fov.upper_right.x, o.fov.upper_right.y)],
      tr.us(o.elapsed_time), [tr.pu6((c.position.x, c.position.y)) for c in o.controls],
      None if o.image is None else np.asarray(o.image).shape)).encode()) & 0x3FFFFFFF


class World:
  """What the stubs were asked."""

  def __init__(self):
    self.comps = []
    self.plan = 'cont'
    self.n = 0
    self.halves = 1

  def log(self, c, obs=0, act=0):
    self.comps.append(dict(c=c, obs=obs, act=act))


class Adapter(action_adapters.ActionAdapter):

  def __init__(self, w):
    self.w = w

  def reset(self):
    self.w.log('adapter_reset')

  def get_action(self, previous_observation, action):
    w = self.w
    w.log('adapter', obs_id(previous_observation), tr.u6(action[0]))
    w.n += 1
    w.ctrl = w.n % 1000
    return [microscope_utils.BeamControlMicroscopeFrame(microscope_utils.BeamControl(
        geometry.Point((w.ctrl / 1000., .25)), dt.timedelta(seconds=w.halves * .5)))]

  @property
  def action_spec(self):
    return specs.BoundedArray((2,), np.float32, -1., 1.)


class Features(feature_constructors.FeatureConstructor):

  def __init__(self, w, image):
    self.w, self.image = w, image

  def reset(self):
    self.w.log('features_reset')

  def get_features(self, observation, goal):
    self.w.n += 1
    self.w.log('features', obs_id(observation), self.w.n)
    assert goal is self.w.goal
    return np.asarray([self.w.n], np.float64)

  def observation_spec(self):
    return specs.Array((1,), np.float64)

  @property
  def requires_image(self):
    return self.image


class Goal(goals.Goal):

  def __init__(self, w):
    self.w = w

  def reset(self, rng, initial_observation):
    self.w.log('goal_reset', obs_id(initial_observation))
    if self.w.plan == 'fail':
      raise RuntimeError("Couldn't find any valid goals.")

  def calculate_reward_and_terminal(self, observation):
    self.w.log('goal', obs_id(observation))
    return goals.GoalReturn(self.w.reward, self.w.plan == 'term', self.w.plan == 'trunc')


class Watcher(microscope_utils.SimulatorObserver):

  def __init__(self, w):
    self.w = w

  def observe_reset(self, grid, fov):
    self.w.log('sim_reset')

  def observe_apply_control(self, control):
    self.w.pending.append(control.dwell_time)

  def observe_take_image(self, duration, fov):
    pass


def ts_rec(ts, fid):
  return dict(t=int(ts.step_type), r=tr.u6(ts.reward) if ts.reward is not None else 0,
              d=tr.u6(ts.discount) if ts.discount is not None else 0,
              rnone=ts.reward is None, dnone=ts.discount is None, f=fid(ts.observation))


OUT = {'R': ('reset', 'cont'), 'RF': ('reset', 'fail'), 'C': ('step', 'cont'),
       'T': ('step', 'term'), 'X': ('step', 'trunc'), 'F': ('step', 'fail')}

ZERO = graphene.PristineSingleSiGrRatePredictor(
    canonical_rate_prediction_fn=lambda *a, **kw: np.zeros(3))


def run_env(t, sched, rng, image=False):
  w = World()
  w.pending = []
  halves_image = int(rng.integers(0, 8))
  goal = w.goal = Goal(w)
  env = putting_dune_environment.PuttingDuneEnvironment(
      material=graphene.PristineSingleDopedGraphene(rate_function=ZERO, grid_columns=6),
      action_adapter=Adapter(w), feature_constructor=Features(w, image), goal=goal,
      image_duration=dt.timedelta(seconds=halves_image * .5))
  env.seed(int(rng.integers(2**31)))
  env.sim.add_observer(Watcher(w))
  case = 'env ' + ' '.join(sched)
  t.ev('New', case=case)
  for s in sched:
    k, w.plan = OUT[s]
    w.comps = []
    w.pending = []
    w.ctrl = 0
    w.halves = int(rng.integers(0, 12) if rng.random() < .8 else rng.integers(12, 1500))
    w.reward = float(rng.choice([0., 1., .5, -2., .123456]))
    action = np.array([float(rng.integers(1, 1000)) / 1000, .5], np.float64)
    raised = False
    try:
      ts = env.reset() if k == 'reset' else env.step(action)
    except RuntimeError as e:
      if w.plan != 'fail' or 'valid goals' not in str(e):
        raise
      raised = True
      ts = dm_env.TimeStep(dm_env.StepType.FIRST, 0., 0., np.zeros(1))
    o = env.last_microscope_observation
    # The simulator step is seen through the observer of its controls.
    comps = list(w.comps)
    if w.pending:
      i = max([j for j, c in enumerate(comps) if c['c'] == 'adapter'] + [-1])
      sent = len(w.pending) == 1 and w.pending[0] == dt.timedelta(seconds=w.halves * .5)
      ctrl = [round(c.position.x * 1000) for c in o.controls]
      comps.insert(i + 1, dict(c='sim_step', obs=0, act=ctrl[0] if sent and len(ctrl) == 1 else -1))
    t.ev('Call', case=case, k=k, goal=w.plan, act=tr.u6(action[0]), reward=tr.u6(w.reward),
         halves=round(o.elapsed_time.total_seconds() * 2), ctrl=w.ctrl, comps=comps,
         obs=obs_id(o), raised=raised, ts=ts_rec(ts, lambda f: int(np.asarray(f).reshape(-1)[0])))


class Inner(dm_env.Environment):
  """A scripted environment that follows the protocol."""

  def __init__(self):
    self.need = True
    self.n = 0
    self.calls = []
    self.sentinel = object()
    self.closed = 0

  def _ts(self, t, r, d):
    self.n += 1
    return dm_env.TimeStep(t, r, d, np.asarray([self.n]))

  def _start(self):
    self.need = False
    return self._ts(dm_env.StepType.FIRST, self.first_reward, self.first_discount)

  def reset(self):
    ts = self._start()
    self.calls.append(('reset', 0, ts))
    return ts

  def step(self, action):
    if self.need:
      ts = self._start()
    else:
      r, d = self.reward, self.disc
      if self.plan == 'term':
        ts = self._ts(dm_env.StepType.LAST, r, 0.)
      elif self.plan == 'trunc':
        ts = self._ts(dm_env.StepType.LAST, r, d)
      else:
        ts = self._ts(dm_env.StepType.MID, r, d)
      self.need = ts.last()
    self.calls.append(('step', tr.u6(action[0]), ts))
    return ts

  def action_spec(self):
    return specs.BoundedArray((2,), np.float32, -.25, .75, name='a')

  def observation_spec(self):
    return specs.Array((7,), np.float32, name='o')

  def reward_spec(self):
    return specs.Array((3,), np.float32, name='r')

  def discount_spec(self):
    return specs.BoundedArray((), np.float32, 0., .5, name='d')

  def close(self):
    self.closed += 1
    return 'closed'

  def seed(self, seed):
    self.seeded = seed


def run_wrap(t, sched, limit, rng):
  if any(s in ('RF', 'F') for s in sched):
    return
  inner = Inner()
  lim = limit if limit > 0 else None
  if lim is None and rng.random() < .5:
    env = run_helpers.StepLimitWrapper(inner)
  else:
    env = run_helpers.StepLimitWrapper(inner, step_limit=lim)
  case = f'wrap {limit} ' + ' '.join(sched)
  t.ev('WNew', case=case, limit=limit)
  fid = lambda o: int(np.asarray(o).reshape(-1)[0])
  for s in sched:
    k, inner.plan = OUT[s]
    inner.calls = []
    inner.reward = float(rng.choice([0., 1., -.5, .25]))
    inner.disc = float(rng.choice([1., .99, .5]))
    inner.first_reward = None if rng.random() < .5 else 0.
    inner.first_discount = None if rng.random() < .5 else .9
    action = np.array([float(rng.integers(1, 1000)) / 1000, .5])
    ts = env.reset() if k == 'reset' else env.step(action)
    t.ev('WCall', case=case, k=k, act=tr.u6(action[0]),
         inner=[dict(k=a, act=b, ts=ts_rec(c, fid)) for a, b, c in inner.calls],
         ts=ts_rec(ts, fid))


def attrs(t):
  inner = Inner()
  env = run_helpers.StepLimitWrapper(inner, 5)
  env.seed(31)
  pairs = {
      'action_spec': env.action_spec() == inner.action_spec(),
      'observation_spec': env.observation_spec() == inner.observation_spec(),
      'reward_spec': env.reward_spec() == inner.reward_spec(),
      'discount_spec': env.discount_spec() == inner.discount_spec(),
      'environment': env.environment is inner,
      'sentinel': env.sentinel is inner.sentinel,
      'seed': inner.seeded == 31,
      'close': env.close() == 'closed' and inner.closed == 1,
      'missing attribute': not hasattr(env, 'no_such_attribute'),
      'n': env.n == inner.n,
  }
  for k, v in pairs.items():
    t.ev('WAttr', case=k, same=bool(v))


def run(t):
  s, n = tr.shard()
  rng = np.random.default_rng([tr.seed(), 5, s])
  scheds = [x for i, x in enumerate(tr.schedules()) if i % n == s]
  cap = tr.params().get('cap', 10**9)
  order = rng.permutation(len(scheds))
  left = cap
  for i in order:
    x = scheds[i]
    if x['limit'] == 0 and left > 0:
      run_env(t, x['h'], rng)
      left -= 1
    run_wrap(t, x['h'], x['limit'], rng)
  # Longer histories of the same alphabet, with limits beyond the generated ones.
  for _ in range(tr.params().get('long', 4)):
    for limit in (0, 1, int(rng.integers(4, 8)), int(rng.integers(8, 30))):
      p = rng.dirichlet(np.ones(4) * 2) * np.array([.5, 3, .6, .4])
      run_wrap(t, [str(x) for x in rng.choice(['R', 'C', 'T', 'X'], 80, p=p / p.sum())], limit, rng)
    p = rng.dirichlet(np.ones(6) * 2) * np.array([1, .3, 3, 1, 1, .3])
    run_env(t, [str(x) for x in rng.choice(['R', 'RF', 'C', 'T', 'X', 'F'], 30, p=p / p.sum())], rng)
  run_env(t, ['C', 'C', 'T', 'C', 'R', 'X', 'C'], rng, image=True)
  attrs(t)


if __name__ == '__main__':
  tr.main(run)
