"""Replays generated evaluations against eval_lib.evaluate and aggregate_results."""
import contextlib
import datetime as dt
import math
import os
import sys
import time
from unittest import mock

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import dm_env
import numpy as np
import tr

from putting_dune import eval_lib
from putting_dune import geometry
from putting_dune import microscope_utils as mu
from putting_dune import run_helpers
from putting_dune.agents import agent_lib
from putting_dune.experiments import registry

P = geometry.Point


SCALE = [1e6]  # how many units of the logged times make a second


def us(x):
  return tr.us(x) if SCALE[0] == 1e6 else int(round(x.total_seconds() * SCALE[0]))


class Clock:
  """Only moves when told to."""

  def __init__(self):
    self.t = 1000 * 64  # in 1/64 seconds, so that differences are exact

  def now(self):
    return self.t / 64

  def now_ns(self):
    return self.t * 15625000

  def patched(self):
    st = contextlib.ExitStack()
    for n in ('perf_counter', 'monotonic', 'time'):
      st.enter_context(mock.patch.object(time, n, self.now))
      st.enter_context(mock.patch.object(time, n + '_ns', self.now_ns))
    return st


class Sim:
  """Keeps track of who was added and removed."""

  def __init__(self, sim=None):
    self.sim, self.obsv, self.ids = sim, [], []

  def add_observer(self, observer):
    o = observer
    if not any(o is x for x in self.ids):
      self.ids.append(o)
    self.obsv.append(next(i for i, x in enumerate(self.ids) if o is x))
    if self.sim is not None:
      self.sim.add_observer(o)

  def remove_observer(self, observer):
    o = observer
    self.obsv.remove(next(i for i, x in enumerate(self.ids) if o is x))
    if self.sim is not None:
      self.sim.remove_observer(o)

  def __getattr__(self, n):
    return getattr(self.sim, n)


class Scripted:
  """An environment that follows a script."""

  def __init__(self, eps, unit, rng):
    self.sim = Sim()
    self.eps, self.unit, self.rng = eps, unit, rng
    self.k, self.i = -1, 0
    self.clock_drift = 0

  def seed(self, seed):
    pass

  def _obs(self, e):
    self.last_microscope_observation = mu.MicroscopeObservation(
        grid=mu.AtomicGridMicroscopeFrame(mu.AtomicGrid(np.asarray([[.5, .5]]), np.asarray([14]))),
        fov=mu.MicroscopeFieldOfView(P(0, 0), P(9, 9)), controls=(),
        elapsed_time=dt.timedelta(microseconds=15625 * self.unit * e))

  def _part(self):
    ep = self.eps[min(self.k, len(self.eps) - 1)]
    return ep[self.i] if self.i < len(ep) else dict(a=0, e=1, o='C')

  def reset(self):
    self.k, self.i = self.k + 1, 0
    self._obs(self._part()['e'])
    self.i = 1
    return dm_env.restart(np.zeros(1))

  def thinks(self):
    return self._part()['a'] * self.unit

  def step(self, action):
    x = self._part()
    self.i += 1
    self._obs(x['e'])
    r = float(self.rng.integers(-16, 32)) / 16
    d = float(self.rng.choice([1., .5, .97]))
    return {'C': lambda: dm_env.transition(r, np.zeros(1), float(self.rng.choice([0., d]))),
            'T': lambda: dm_env.termination(r, np.zeros(1)),
            'X': lambda: dm_env.truncation(r, np.zeros(1), d)}[x['o']]()


class Env:
  """Logs what evaluate() asks of an environment."""

  def __init__(self, env, t, clock, sim):
    self._env, self._t, self._clock = env, t, clock
    self.sim = sim
    self.seq = 0
    self.ids = {}

  def _id(self, ts):
    self.seq += 1
    self.ids[id(ts)] = (self.seq, ts)
    return self.seq

  def seed(self, seed):
    self._t.ev('Seed', s=int(seed))
    return self._env.seed(seed)

  def reset(self):
    ts = self._env.reset()
    self._clock.t += 7  # time the environment takes is not the agent's
    self._t.ev('EReset', us=us(self._env.last_microscope_observation.elapsed_time), ts=self._id(ts))
    return ts

  def step(self, action):
    ts = self._env.step(action)
    self._clock.t += 13
    self._t.ev('EStep', act=int(self.acts.get(id(action), (0,))[0]), us=us(self._env.last_microscope_observation.elapsed_time),
               ts=self._id(ts), r=tr.q(ts.reward, 1e4, 10**7), last=bool(ts.last()), zero=ts.discount == 0)
    return ts

  def __getattr__(self, n):
    return getattr(self._env, n)


class Agent(agent_lib.Agent):

  def __init__(self, t, env, clock, thinks, act, boom):
    self.t, self.env, self.clock, self.thinks, self.act, self.boom = t, env, clock, thinks, act, boom
    self.n = 0
    env.acts = {}

  def set_mode(self, mode):
    self.t.ev('Mode', mode=mode.value)

  def step(self, time_step):
    self.n += 1
    if self.boom and self.n >= self.boom:
      raise ValueError('boom')
    k = self.thinks()
    self.clock.t += k
    a = self.act(time_step)
    self.env.acts[id(a)] = (self.n, a)
    self.t.ev('Act', ts=self.env.ids.get(id(time_step), (0,))[0], us=int(round(k / 64 * SCALE[0])), act=self.n)
    return a


def res_us(x):
  return -1 if math.isnan(x) else tr.q(x, SCALE[0])


def res(r, real):
  return dict(seed=int(r.seed), reached=bool(r.reached_goal), n=int(r.num_actions_taken), tot=tr.q(r.total_reward, 1e4, 10**7),
              ag=res_us(r.agent_seconds_to_goal), env=res_us(r.environment_seconds_to_goal), sum=res_us(r.seconds_to_goal))


def evaluate(t, case, env, seeds, timeout, clock, thinks, act, boom=0, video=None, other=False, real=False):
  sim = Sim(env.sim if real else None)
  e = Env(env, t, clock, sim)
  if other:
    sim.add_observer(mock.MagicMock(spec=mu.SimulatorObserver))
  agent = Agent(t, e, clock, thinks, act, boom)
  t.ev('New', case=case)
  t.ev('Start', case=case, seeds=[int(s) for s in seeds], timeout=us(timeout), obsv=list(sim.obsv), video=video is not None)
  raised, boomed, out = False, False, []
  with clock.patched():
    try:
      out = eval_lib.evaluate(agent, e, eval_lib.EvalSuite(tuple(seeds)), timeout=timeout, video_save_dir=video)
    except ValueError as ex:
      raised, boomed = True, str(ex) == 'boom'
    except Exception:  # pylint: disable=broad-except
      raised = True
  results = [res(r, real) for r in out]
  vids = []
  if video is not None and not raised:
    vids = [int(s) for s in seeds if os.path.exists(os.path.join(video, f'{s}.gif'))
            and os.path.getsize(os.path.join(video, f'{s}.gif'))]
    if len(os.listdir(video)) != len(vids):
      vids.append(-1)
  t.ev('End', case=case, raised=raised, boom=boomed or (boom and agent.n >= boom) is True, results=results, obsv=list(sim.obsv),
       videos=vids, real=real)
  return out


def agg(t, case, results):
  raised = False
  v = dict(frac=0, acts=0, ag=0, env=0, both=0, rew=0)
  try:
    a = eval_lib.aggregate_results(results)
    v = dict(frac=tr.q(a.average_num_times_reached_goal, 1e6), acts=tr.q(a.average_num_actions_taken, 1e3),
             ag=tr.q(a.average_agent_seconds_to_goal, 1e3), env=tr.q(a.average_environment_seconds_to_goal, 1e3),
             both=tr.q(a.average_seconds_to_goal, 1e3), rew=tr.q(a.average_total_reward, 1e4))
  except Exception:  # pylint: disable=broad-except
    raised = True
  of = [dict(reached=bool(r.reached_goal), n=int(r.num_actions_taken), tot=tr.q(r.total_reward, 1e4),
             ag=-1 if math.isnan(r.agent_seconds_to_goal) else tr.q(r.agent_seconds_to_goal, 1e3),
             env=-1 if math.isnan(r.environment_seconds_to_goal) else tr.q(r.environment_seconds_to_goal, 1e3)) for r in results]
  t.ev('Agg', case=case, of=of, raised=raised, **v)


def replay(t, rng, x):
  unit = int(rng.choice([64, 128, 100, 37]))
  case = 'eval ' + ' | '.join(' '.join(f"{p['a']}{p['e']}{p['o']}" for p in ep) for ep in x['eps'])
  env = Scripted(x['eps'], unit, rng)
  seeds = [int(s) for s in rng.choice(1000, size=len(x['eps']), replace=False)]
  timeout = dt.timedelta(microseconds=15625 * unit * x['t'])
  out = evaluate(t, case, env, seeds, timeout, Clock(), lambda: env.thinks(), lambda ts: np.zeros(2), other=rng.integers(2) == 0)
  if out:
    agg(t, case, out)


def booms(t, rng, base):
  for video in (None, os.path.join(base, 'boom')):
    for n in (1, 2, 3):
      env = Scripted([[dict(a=1, e=1, o='R')] + [dict(a=1, e=1, o='C')] * 9], 64, rng)
      evaluate(t, f'boom {n} {video is not None}', env, [5, 6], dt.timedelta(seconds=600), Clock(), lambda: env.thinks(),
               lambda ts: np.zeros(2), boom=n, video=video, other=n == 2)
  env = Scripted([[dict(a=1, e=1, o='R')]], 64, rng)
  evaluate(t, 'no seeds', env, [], dt.timedelta(seconds=600), Clock(), lambda: 0, lambda ts: np.zeros(2))


def long_runs(t, rng, reps):
  """Many seeds, the default timeout, long episodes."""
  for _ in range(reps):
    k = int(rng.integers(1, 12))
    eps = []
    for _ in range(k):
      n = int(rng.integers(1, 30))
      eps.append([dict(a=0, e=int(rng.integers(1, 5)), o='R')]
                 + [dict(a=int(rng.integers(0, 4)), e=int(rng.integers(1, 20)), o='C') for _ in range(n)]
                 + [dict(a=int(rng.integers(0, 4)), e=int(rng.integers(1, 20)), o=str(rng.choice(['T', 'T', 'X'])))])
    env = Scripted(eps, 64, rng)
    seeds = [int(s) for s in rng.choice(1000, size=k, replace=False)]
    out = evaluate(t, 'long', env, seeds, dt.timedelta(minutes=float(rng.choice([1, 2, 10]))), Clock(), lambda: env.thinks(),
                   lambda ts: np.zeros(2))
    if out:
      agg(t, 'long', out)
  for _ in range(reps * 3):
    rs = []
    for i in range(int(rng.integers(1, 9))):
      ok = bool(rng.integers(2))
      s = (lambda: float(rng.integers(0, 6000)) / 8) if ok else (lambda: float('nan'))
      rs.append(eval_lib.EvalResult(i, ok, int(rng.integers(0, 300)), s(), s(), float(rng.integers(-8, 80)) / 8))
    agg(t, 'made up', rs)


def days(t, rng, reps):
  """Episodes that take hours or days, of suites that repeat a seed."""
  SCALE[0] = 1e3
  for _ in range(reps):
    k = int(rng.integers(1, 6))
    hour = 64 * 3600
    eps = [[dict(a=0, e=int(rng.integers(1, 30)), o='R')]
           + [dict(a=int(rng.integers(0, 3)), e=int(rng.integers(1, 20)), o='C') for _ in range(int(rng.integers(0, 9)))]
           + [dict(a=int(rng.integers(0, 3)), e=int(rng.integers(1, 20)), o=str(rng.choice(['T', 'T', 'T', 'X'])))] for _ in range(k)]
    env = Scripted(eps, hour, rng)
    evaluate(t, 'days', env, [int(x) for x in rng.choice(3, size=k)], dt.timedelta(hours=float(rng.choice([30, 100, 300]))), Clock(),
             lambda: env.thinks(), lambda ts: np.zeros(2))
  SCALE[0] = 1e6


def real(t, rng, names, base):
  for name in names:
    ex = registry.create_eval_experiment(name)
    ag = ex.get_adapters_and_goal()
    agent = ex.get_agent(rng, ag)
    env = run_helpers.create_putting_dune_env(seed=0, get_adapters_and_goal=ex.get_adapters_and_goal,
                                              get_simulator_config=ex.get_simulator_config)
    clock = Clock()
    out = evaluate(t, 'real ' + name, env, range(3), dt.timedelta(seconds=90), clock, lambda: int(rng.integers(0, 64)),
                   agent.step, real=True, other=True)
    if out:
      agg(t, 'real ' + name, out)
  d = os.path.join(base, 'video')
  os.makedirs(d)
  evaluate(t, 'real video', env, [3, 1], dt.timedelta(seconds=6), Clock(), lambda: 1, agent.step, real=True, video=d, other=True)


def run(t):
  s, n = tr.shard()
  rng = np.random.default_rng([tr.seed(), 19, s])
  base = os.environ['VT_WORK']
  for i, x in enumerate(tr.schedules()):
    if i % n == s:
      replay(t, rng, x)
  if s == 0:
    booms(t, rng, base)
  if s == n - 1:
    real(t, rng, ['relative_random_simple', 'relative_random_prior_rates'], base)
  long_runs(t, rng, tr.params()['reps'])
  days(t, rng, tr.params()['reps'])


if __name__ == '__main__':
  tr.main(run)
