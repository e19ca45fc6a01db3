"""Replays generated scenes against the untrained agents."""
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import dm_env
import numpy as np
import tr

from putting_dune.agents import agent_lib

Q = .6744897501960817
OPTS = [(1.42, 0.), (.58, 0.), (1.42, .42), (2.1717, -.1515), (-.7, .3)]


def ts(rng, n, g, dtype=np.float32):
  o = np.concatenate([rng.uniform(0, 1, 2), np.asarray(n).reshape(-1), g]).astype(dtype)
  return [dm_env.restart, lambda o: dm_env.transition(0., o), lambda o: dm_env.termination(1., o)][rng.integers(3)](o)


def act(agent, t):
  before = t.observation.copy()
  a = np.asarray(agent.step(t), float)
  return a, bool(np.array_equal(before, t.observation))


def log(t, case, how, rng, agent, n, g, p, fixed):
  step = ts(rng, n, g, rng.choice([np.float32, np.float64]))
  raised, a, kept = False, np.zeros(2), True
  try:
    a, kept = act(agent, step)
    kept = kept and a.shape == (2,)
    a = a.reshape(-1)[:2]
  except Exception:  # pylint: disable=broad-except
    raised = True
  o = np.asarray(step.observation, float)
  t.ev('Greedy', case=case, how=how, n=[tr.p4(x) for x in o[2:8].reshape(3, 2)], g=tr.p4(o[8:]), p=tr.p4(p), act=tr.p4(a),
       raised=raised, kept=kept, fixed=fixed)


def polar(r, k):
  return r * np.asarray([np.cos(np.deg2rad(k)), np.sin(np.deg2rad(k))])


def replay(t, rng, x):
  case = f"greedy {x['t']} {x['q']} {x['d']} {x['r']}"
  t.ev('New', case=case)
  jit = rng.uniform(-12, 12)
  n = [polar(1.42 * (1 + rng.uniform(-.06, .06)), 30 * x['t'] + 120 * q + jit + rng.uniform(-6, 6)) for q in x['q']]
  g = polar(x['r'] / 1e4 * rng.uniform(.9, 1.1), 30 * x['d'] + rng.uniform(-14, 14))
  p = np.asarray(x['p']) / 1e4
  kind = int(rng.integers(3))
  f = rng.uniform(-.5, .5, 2) if kind else np.zeros(2)
  agent = agent_lib.GreedyAgent(rng=np.random.default_rng(1), argmax=p.copy(), **({'fixed_offset': f.copy()} if kind else {}))
  if rng.integers(2):
    agent.set_mode(agent_lib.AgentMode.EVAL)
  log(t, case, 'given', rng, agent, n, g, p + f, kind > 0)
  # The same agent in a turned scene with the neighbours in another order.
  k = rng.uniform(0, 2 * np.pi)
  r = np.asarray([[np.cos(k), -np.sin(k)], [np.sin(k), np.cos(k)]])
  log(t, case, 'turned', rng, agent, [r @ n[i] for i in rng.permutation(3)], r @ g, p + f, kind > 0)
  log(t, case, 'default', rng, agent_lib.GreedyAgent(), n, g, np.asarray([1.42, 0]), False)


def life(t, rng, i, steps):
  """One agent through many scenes, near its goal and far from it."""
  t.ev('New', case=f'life {i}')
  p = np.asarray(OPTS[i % len(OPTS)])
  f = rng.uniform(-.5, .5, 2) if i % 2 else np.zeros(2)
  noise = {} if i % 3 else {'position_noise_sigma': 0.}
  agent = agent_lib.GreedyAgent(argmax=p.copy(), fixed_offset=f.copy(), **noise)
  for _ in range(steps):
    k = rng.uniform(0, 360)
    n = [polar(1.42 * (1 + rng.uniform(-.06, .06)), k + 120 * q + rng.uniform(-6, 6)) for q in rng.permutation(3)]
    r = float(rng.choice([.05, .3, .6, 1.42, 3., 9., 30.])) * rng.uniform(.8, 1.2)
    log(t, f'life {i}', 'again', rng, agent, n, polar(r, rng.uniform(0, 360)), p + f, True)
    if rng.integers(8) == 0:
      agent.set_mode(agent_lib.AgentMode(rng.choice(['train', 'eval'])))


class Table:
  """A transition function with known values that remembers what it was asked."""

  def __init__(self, rng, peak):
    self.seed, self.peak, self.asked = int(rng.integers(2**31)), peak, {}

  def __call__(self, x):
    x = np.asarray(x, float).reshape(2)
    k = (tr.a4(x[0]), tr.a4(x[1]))
    if k not in self.asked:
      h = np.random.default_rng([self.seed, k[0] + 10**6, k[1] + 10**6]).integers(1, 900, 3)
      if self.peak is not None:
        h[0] = int(900 * np.exp(-np.sum(np.square(x - self.peak))))
      self.asked[k] = [int(v) for v in h]
    return np.asarray(self.asked[k]) / 1000.


def find(t, rng, i):
  res = float(rng.choice([.25, .4, .5]))
  low, high = float(rng.choice([-2., -1., -2.5])), float(rng.choice([2., 2.5, 1.5]))
  table = Table(rng, rng.uniform(-1, 1, 2) if i % 2 else None)
  t.ev('New', case=f'find {i}')
  raised, best = False, np.zeros(2)
  f = rng.uniform(-.5, .5, 2) if i % 3 == 0 else np.zeros(2)
  try:
    agent = agent_lib.GreedyAgent(rng=np.random.default_rng(1), transition_function=table, argmax_resolution=res, low=low, high=high,
                                  fixed_offset=f)
    n = [(1.42, 0), (-.71, 1.2298), (-.71, -1.2298)]
    best = act(agent, ts(rng, n, np.asarray([9., 0.])))[0] - f
  except Exception:  # pylint: disable=broad-except
    raised = True
  t.ev('Find', case=f'find {i}', pts=[[*k, v[0]] for k, v in table.asked.items()], low=tr.a4(low), high=tr.a4(high), res=tr.a4(res),
       best=tr.p4(best), raised=raised)


def bins(v):
  return [int(np.sum((v >= a) & (v < b))) for a, b in zip((-9e9, -Q, 0, Q), (-Q, 0, Q, 9e9))]


def quads(x, y):
  return [int(np.sum((x < 0) & (y < 0))), int(np.sum((x < 0) & (y >= 0))), int(np.sum((x >= 0) & (y < 0))),
          int(np.sum((x >= 0) & (y >= 0)))]


def noise(t, rng, n):
  sigma = float(rng.choice([.1, .5]))
  mk = lambda: agent_lib.GreedyAgent(rng=np.random.default_rng(int(seed)), position_noise_sigma=sigma)
  seed = rng.integers(2**31)
  a, b = mk(), mk()
  still = agent_lib.GreedyAgent()
  ang = rng.uniform(0, 360)
  nb = [polar(1.42, ang + 120 * k) for k in range(3)]
  step = ts(rng, nb, polar(9., ang + 5))
  base = still.step(step)
  d, same = [], True
  for _ in range(n):
    v = a.step(step)
    same = same and np.array_equal(v, b.step(step))
    d.append(v - base)
  d = np.asarray(d) / sigma
  u = polar(1., ang)
  x, y = d @ u, d @ np.asarray([-u[1], u[0]])
  t.ev('Noise', case='noise', n=n, x=bins(x), y=bins(y), quad=quads(x, y), again=bool(same))


def random(t, rng, n):
  for kind in ('scalar', 'vec'):
    low, high, shape = ((-1.5, .5, (2,)) if kind == 'scalar' else (np.asarray([-1., -2., 0.]), np.asarray([1., 3., 1.]), (3,)))
    seed = int(rng.integers(2**31))
    a = agent_lib.UniformRandomAgent(np.random.default_rng(seed), low, high, shape)
    b = agent_lib.UniformRandomAgent(np.random.default_rng(seed), low, high, shape)
    b.set_mode(agent_lib.AgentMode.EVAL)
    v, w = [], []
    for _ in range(n):
      step = ts(rng, np.zeros((3, 2)), np.zeros(2))
      v.append(a.step(step))
      w.append(b.step(step))
    ok = all(np.asarray(x).shape == shape for x in v)
    x = (np.asarray(v, float).reshape(n, -1) - low) / (np.asarray(high) - low)
    cnt = [[int(np.sum((c >= k / 4) & (c < (k + 1) / 4))) for k in range(4)] for c in x.T]
    t.ev('Random', case='random ' + kind, n=n, cnt=cnt, quad=quads(x[:, 0] - .5, x[:, 1] - .5), vec=kind == 'vec',
         inside=bool(((x >= 0) & (x <= 1)).all()), shape=ok, again=bool(np.array_equal(v, w)))


def make(t):
  for arg, fn in ((None, None), (np.asarray([1., 0.]), None), (None, lambda x: np.ones(3))):
    refused = False
    try:
      agent_lib.GreedyAgent(argmax=arg, transition_function=fn, low=-1, high=1)
    except ValueError:
      refused = True
    t.ev('Make', case='make', refused=refused, wrong=arg is None and fn is None)


def run(t):
  s, n = tr.shard()
  rng = np.random.default_rng([tr.seed(), 20, s])
  for i, x in enumerate(tr.schedules()):
    if i % n == s:
      replay(t, rng, x)
  for i in range(tr.params()['reps']):
    find(t, rng, i)
    life(t, rng, i, 25)
  t.ev('New', case='statistics')
  noise(t, rng, 1200)
  random(t, rng, 1200)
  make(t)


if __name__ == '__main__':
  tr.main(run)
