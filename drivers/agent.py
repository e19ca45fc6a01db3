"""Replays generated schedules against MicroscopeAgent and MicroscopeAgentLogger."""
import csv
import datetime as dt
import os
import sys
import zlib

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from dm_env import specs
import numpy as np
import tr

from putting_dune import action_adapters
from putting_dune import feature_constructors
from putting_dune import geometry
from putting_dune import goals
from putting_dune import graphene
from putting_dune import io as pdio
from putting_dune import microscope_agent
from putting_dune import microscope_utils
from putting_dune.agents import agent_lib
from putting_dune.experiments import experiments


def crc(x):
  return zlib.crc32(repr(x).encode()) & 0x3FFFFFFF


def obs_id(o):
  return crc((np.round(np.asarray(o.grid.atom_positions, float), 5).tolist(),
              np.asarray(o.grid.atomic_numbers).tolist(), tr.us(o.elapsed_time),
              [(tr.u6(c.position.x), tr.u6(c.position.y), tr.us(c.dwell_time)) for c in o.controls],
              tr.u6(o.fov.lower_left.x), tr.u6(o.fov.upper_right.y)))


class World:

  def __init__(self):
    self.comps = []
    self.n = 0
    self.plan = 'cont'
    self.nosi = ()   # the components that complain
    self.pos = None

  def log(self, c, obs=0, act=0):
    self.comps.append(dict(c=c, obs=obs, act=act))

  def tick(self):
    self.n += 1
    return self.n


class Features(feature_constructors.FeatureConstructor):

  def __init__(self, w):
    self.w = w

  def reset(self):
    self.w.log('features_reset')

  def get_features(self, observation, goal):
    if 'features' in self.w.nosi:
      raise graphene.SiliconNotFoundError()
    n = self.w.tick()
    self.w.log('features', obs_id(observation), n)
    return np.asarray([n, 1.], np.float32)

  def observation_spec(self):
    return specs.Array((2,), np.float32)

  @property
  def requires_image(self):
    return False


class GoalMixin:

  def reset(self, rng, initial_observation):
    w = self.w
    w.log('goal_reset', obs_id(initial_observation), 1 if rng is w.rng else 0)
    w.pos = (round(float(rng.integers(-64, 64)) / 8, 3), round(float(rng.integers(1, 64)) / 8, 3))
    self.goal_position_material_frame = np.asarray(w.pos)

  def calculate_reward_and_terminal(self, observation):
    w = self.w
    if 'goal' in w.nosi:
      raise graphene.SiliconNotFoundError()
    w.log('goal', obs_id(observation))
    # A goal that counts, like consecutive steps at the goal do.
    self.count += 1
    w.asked = self.count
    return goals.GoalReturn(w.reward, w.plan == 'term', w.plan == 'trunc')


class PlainGoal(GoalMixin, goals.Goal):

  def __init__(self, w):
    self.w, self.count = w, 0


class ReachingGoal(GoalMixin, goals.SingleSiliconGoalReaching):

  def __init__(self, w):
    super().__init__()
    self.w, self.count = w, 0


class Adapter(action_adapters.ActionAdapter):

  def __init__(self, w):
    self.w = w

  def reset(self):
    self.w.log('adapter_reset')

  def get_action(self, previous_observation, action):
    w = self.w
    w.log('adapter', obs_id(previous_observation), int(action[0]))
    return w.ctrl

  @property
  def action_spec(self):
    return specs.Array((1,), np.float32)


class Acting(agent_lib.Agent):

  def __init__(self, w):
    self.w = w

  def step(self, time_step):
    n = self.w.tick()
    self.w.log('agent', 0, n)
    self.w.shown.append(time_step)
    return np.asarray([n])

  def set_mode(self, mode):
    pass


def make_obs(rng, halves):
  n = int(rng.integers(2, 6))
  pos = rng.integers(0, 1 << 20, size=(n, 2)) / float(1 << 20)
  num = np.full(n, 6)
  num[0] = 14
  x, y, s = (rng.integers(-64, 64) / 4, rng.integers(-64, 64) / 4, rng.integers(60, 120) / 4)
  controls = [microscope_utils.BeamControlMicroscopeFrame(microscope_utils.BeamControl(
      geometry.Point((rng.integers(0, 64) / 64, .5)), dt.timedelta(seconds=1.5)))
              for _ in range(rng.integers(0, 3))]
  return microscope_utils.MicroscopeObservation(
      microscope_utils.AtomicGridMicroscopeFrame(microscope_utils.AtomicGrid(pos, num)),
      microscope_utils.MicroscopeFieldOfView(geometry.Point((x, y)), geometry.Point((x + s, y + s))),
      controls, dt.timedelta(seconds=halves * .5))


def ctrl_rec(controls):
  return [dict(p=[tr.u6(c.position.x), tr.u6(c.position.y)], dwell=tr.us(c.dwell_time)) for c in controls]


def read_disk(d, base):
  paths = [os.path.join(d, f) for f in ('steps.csv', 'episodes.csv', 'trajectories.tfrecords')]
  if not any(os.path.exists(p) for p in paths):
    return dict(there=False)
  if not all(os.path.exists(p) for p in paths):
    return dict(there=True, steps=[], eps=[], trajs=[-1])
  steps = [dict(ep=int(r['episode']), step=int(r['episode_step']), r=tr.u6(r['reward']),
                el=tr.q(r['elapsed_seconds'], 1e6), term=r['terminal'] == 'True')
           for r in csv.DictReader(open(paths[0]))]
  eps = [dict(ep=int(r['episode']), n=int(r['episode_steps']), ret=tr.u6(r['episode_return']),
              goal=goal_id(r['episode_goal']))
         for r in csv.DictReader(open(paths[1]))]
  trajs = [[obs_id(o) for o in x.observations]
           for x in pdio.read_records(paths[2], microscope_utils.Trajectory)]
  return dict(there=True, steps=steps, eps=eps, trajs=trajs)


def goal_id(s):
  """'(1.5, 2.0)' -> an integer, '' -> 0."""
  if not s:
    return 0
  s = s.replace('np.float64', '').replace('np.float32', '').replace('(', ' ').replace(')', ' ')
  x, y = (float(v) for v in s.split(','))
  return crc((round(x, 3), round(y, 3)))


class Boom(Exception):
  pass


def replay(t, rng, sched, mode, base):
  """mode: bare, or plain / reaching (logged, with that kind of goal); exc: leave by an exception."""
  w = World()
  goal = ReachingGoal(w) if mode['goal'] == 'reaching' else PlainGoal(w)
  parts = experiments.AdaptersAndGoal(action_adapter=Adapter(w), feature_constructor=Features(w), goal=goal)
  agent = microscope_agent.MicroscopeAgent(
      rng, experiments.MicroscopeExperiment(get_agent=lambda *_, **kw: Acting(w), get_adapters_and_goal=lambda: parts))
  case = f"agent {mode['goal']} {'logged' if mode['log'] else 'bare'}{' exc' if mode['exc'] else ''} " + ' '.join(sched)
  d = os.path.join(base, 'log')
  for f in ('steps.csv', 'episodes.csv', 'trajectories.tfrecords'):
    if os.path.exists(os.path.join(d, f)):
      os.remove(os.path.join(d, f))
  os.makedirs(d, exist_ok=True)
  t.ev('New', case=case)

  def calls(a):
    for k in sched:
      w.comps, w.shown, w.asked = [], [], 0
      halves = int(rng.integers(0, 39) if rng.random() < .8 else rng.integers(39, 1500))
      o = make_obs(rng, halves)
      oid = obs_id(o)
      if k == 'R':
        w.rng = np.random.default_rng(int(rng.integers(2**31)))
        a.reset(w.rng, o)
        t.ev('Reset', case=case, obs=oid, rng=1, comps=w.comps,
             goalpos=goal_id(str(w.pos)) if mode['goal'] == 'reaching' and w.pos else 0)
        continue
      if k == 'F':
        if mode['log']:
          a.flush()
          t.ev('Flush', case=case, disk=read_disk(d, base))
        continue
      w.plan = {'C': 'cont', 'T': 'term', 'X': 'trunc', 'N': 'cont'}[k]
      w.nosi = () if k != 'N' else (('features', 'goal') if rng.random() < .5 else ('goal',))
      if k == 'N':
        o.grid.atomic_numbers[:] = 6
        oid = obs_id(o)
      w.reward = float(rng.choice([0., 1., .5, -2., .125, .75]))
      w.ctrl = [microscope_utils.BeamControlMicroscopeFrame(microscope_utils.BeamControl(
          geometry.Point((rng.integers(0, 64) / 64, rng.integers(0, 64) / 64)),
          dt.timedelta(seconds=int(rng.integers(0, 20)) / 2))) for _ in range(rng.integers(1, 3))]
      raised = False
      back = []
      try:
        back = ctrl_rec(a.step(o))
      except Exception as e:  # pylint: disable=broad-except
        raised = True
      ts = dict(t=-1, r=0, d=0, f=0, rnone=True, dnone=True)
      if len(w.shown) == 1:
        s = w.shown[0]
        ts = dict(t=int(s.step_type), r=tr.u6(s.reward) if s.reward is not None else 0,
                  d=tr.u6(s.discount) if s.discount is not None else 0,
                  rnone=s.reward is None, dnone=s.discount is None, f=int(s.observation[0]))
      comps = w.comps
      t.ev('Step', case=case, sil=k != 'N', goal=w.plan, obs=oid, reward=tr.u6(w.reward), halves=halves,
           raised=raised, ctrl=ctrl_rec(w.ctrl), back=back, comps=comps, ts=ts)
      if raised:
        return

  if not mode['log']:
    calls(agent)
    return
  exc = mode['exc']
  try:
    with microscope_agent.MicroscopeAgentLogger(agent, logdir=d) as a:
      calls(a)
      if exc:
        raise Boom()
  except Boom:
    pass
  t.ev('Exit', case=case, exc=exc, disk=read_disk(d, base))


def run(t):
  s, n = tr.shard()
  p = tr.params()
  rng = np.random.default_rng([tr.seed(), 13, s])
  base = os.environ['VT_WORK']
  scheds = [x['h'] for i, x in enumerate(tr.schedules()) if i % n == s]
  bare = p.get('bare', True)
  for h in scheds:
    mode = dict(goal=str(rng.choice(['plain', 'reaching'])), log=True, exc=bool(rng.random() < .12))
    if 'F' not in h and rng.random() < p['bare']:
      replay(t, rng, h, dict(mode, log=False), base)
    if rng.random() < p['logged']:
      replay(t, rng, h, mode, base)
  # Longer histories of the same alphabet.
  for i in range(p.get('long', 3)):
    q = rng.dirichlet(np.ones(6) * 2) * np.array([.5, 3, .6, .4, .8, .2])
    h = ['R'] + [str(x) for x in rng.choice(['R', 'C', 'T', 'X', 'N', 'F'], 50, p=q / q.sum())]
    mode = dict(goal=str(rng.choice(['plain', 'reaching'])), log=i % 3 != 2, exc=bool(rng.random() < .12))
    replay(t, rng, h, mode, base)


if __name__ == '__main__':
  tr.main(run)
