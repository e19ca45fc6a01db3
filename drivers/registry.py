"""Uses the catalogue of experiments as generated schedules say."""
import datetime as dt
import importlib
import os
import pathlib
import shutil
import sys
import tempfile
import urllib.error
import urllib.request
import zipfile
import zlib

os.environ.setdefault('TF_CPP_MIN_LOG_LEVEL', '3')
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import dm_env
import numpy as np
import tr

from putting_dune import geometry
from putting_dune import goals
from putting_dune import graphene
from putting_dune import microscope_utils as mu
from putting_dune import run_helpers
from putting_dune.agents import tf_eval_agent
from putting_dune.experiments import experiments
from putting_dune.experiments import registry

P = geometry.Point
NAMES = dict(
    microscope=['relative_random', 'relative_random_long', 'relative_random_extra_long', 'greedy_on_neighbor', 'greedy_short_of_neighbor',
                'greedy_on_neighbor_offset_horizontally', 'greedy_from_learned_rates_v3', 'greedy_from_learned_rates_v5', 'ppo_simple_images_tf',
                'ppo_learned_tf_2s', 'ppo_learned_tf_3s', 'ppo_learned_tf_4s', 'ppo_v3_2s', 'ppo_v3_3s', 'ppo_v3_4s'],
    train=['relative_simple_rates', 'relative_prior_rates', 'relative_simple_rates_from_images',
           'relative_simple_rates_from_images_variable_time', 'direct_simple_rates_from_images'],
    eval=['relative_random_simple', 'relative_random_prior_rates', 'ppo_simple_images_tf'])
PLAYERS = [('microscope', n) for n in NAMES['microscope'][:8]] + [('eval', n) for n in NAMES['eval'][:2]]
PPO = [('microscope', n) for n in NAMES['microscope'][8:]] + [('eval', 'ppo_simple_images_tf')]
ODD = ['', 'nothing', 'Relative_random', 'relative_random ', 'relative', 'ppo_v3', 'None']
COUNT = [0]


def rates_of(material):
  """Which of the rate functions a material follows, told from its history."""
  def history(m):
    rng = np.random.default_rng(5)
    m.reset(rng)
    out = []
    for k in range(12):
      p = m.get_silicon_position() + np.asarray([(.9, .4), (-.5, 1.), (.2, -1.1)][k % 3])
      m.apply_control(rng, mu.BeamControl(P(p), dt.timedelta(seconds=4)))
      out.append(np.array(m.get_silicon_position()))
    return np.asarray(out)

  got = history(material)
  for name, fn in (('simple', graphene.simple_canonical_rate_function), ('prior', graphene.HumanPriorRatePredictor().predict)):
    like = history(graphene.PristineSingleDopedGraphene(rate_function=graphene.PristineSingleSiGrRatePredictor(canonical_rate_prediction_fn=fn)))
    if np.allclose(got, like, atol=1e-6):
      return name
  return 'other'


def view():
  si = np.asarray([.4, .6])
  g = graphene.canonical_pristine_graphene_with_centered_silicon(50)
  p = np.asarray(g.atom_positions)
  p = (p - p[np.asarray(g.atomic_numbers) == 14]) / 40 + si
  inside = np.all((p > 0) & (p < 1), axis=1)
  grid = mu.AtomicGrid(p[inside], np.asarray(g.atomic_numbers)[inside])
  return mu.MicroscopeObservation(
      mu.AtomicGridMicroscopeFrame(grid), mu.MicroscopeFieldOfView(P([-6., 10.]), P([34., 50.])), (), dt.timedelta(seconds=0),
      image=np.zeros((64, 64), np.float32)), si


def one(controls):
  assert len(controls) == 1
  return np.asarray([controls[0].position.x, controls[0].position.y]), tr.us(controls[0].dwell_time)


class Run:

  def __init__(self, t, rng):
    self.t, self.rng = t, rng
    self.dir = pathlib.Path(tempfile.mkdtemp(prefix='vt_reg_'))
    self.file = registry.__file__
    self.keep, self.ids = [], {}

  def number(self, x):
    self.keep.append(x)
    return self.ids.setdefault(id(x), len(self.ids) + 10)

  def start(self, case):
    self.case = case
    self.keep, self.ids, self.envs, self.own = [], {}, [], []
    importlib.reload(registry)
    shutil.rmtree(self.dir)
    self.dir.mkdir()
    registry.__file__ = str(self.dir / 'registry.py')
    rng = self.rng
    pool = [(k, n) for k in NAMES for n in NAMES[k]]
    light = [x for x in pool if 'images' not in x[1]]
    self.pool = [light[int(rng.integers(len(light)))], pool[int(rng.integers(len(pool)))]]
    self.models = [PPO[int(i)] for i in rng.integers(len(PPO), size=2)]
    self.t.ev('New', case=case)

  def ev(self, e, f, **rec):
    rec.update(raised=False)
    try:
      rec.update(f() or {})
    except Exception as e_:  # pylint: disable=broad-except
      rec.update(raised=True, error=f'{type(e_).__name__}: {e_}'[:200])
    self.t.ev(e, case=self.case, **rec)

  def get(self, kind, name):
    return getattr(registry, f'create_{kind}_experiment')(name)

  def lookup(self, kind, name):
    rec = dict(kind=kind, name=name, what='ok', exp=0)
    try:
      rec.update(exp=self.number(self.get(kind, name)))
    except Exception as e:  # pylint: disable=broad-except
      rec.update(what=type(e).__name__)
    self.t.ev('Lookup', case=self.case, **rec)

  def register(self, name):
    base = self.get('eval', NAMES['eval'][int(self.rng.integers(2))])
    mine = experiments.EvalExperiment(get_agent=base.get_agent, get_adapters_and_goal=base.get_adapters_and_goal, get_simulator_config=base.get_simulator_config)
    self.ev('Register', lambda: registry.register_eval_experiment(name, mine), name=name, exp=self.number(mine))

  def build(self, kind, name):
    def f():
      x = self.get(kind, name)
      g = x.get_adapters_and_goal()
      ids = [self.number(g.action_adapter), self.number(g.feature_constructor), self.number(g.goal)]
      obs, si = view()
      rng = np.random.default_rng(3)
      g.goal.reset(rng, obs)
      g.action_adapter.reset()
      spec = g.action_adapter.action_spec
      n, = spec.shape
      act = lambda *a: one(g.action_adapter.get_action(obs, np.asarray(a[:n], np.float32)))
      half, lo = act(.5, .25, 0.)
      far, hi = act(5., -5., 1.)
      way = (far - si) * 40
      if np.allclose(half, [.5, .25], atol=1e-5):
        adapter, dist = 'direct', 0
      elif np.allclose(way, [5, -5], atol=1e-3):
        adapter, dist = 'material' if np.allclose((half - si) * 40, [.5, .25], atol=1e-3) else 'other', 0
      else:
        adapter = 'relative' if np.allclose((half - si) * 40, way * [.5, -.25], atol=1e-3) else 'other'
        dist = tr.a4(way[0]) if abs(way[0] + way[1]) < 1e-3 else -1
      y = g.feature_constructor.get_features(obs, g.goal)
      if isinstance(y, dict):
        seen = 'image' if g.feature_constructor.requires_image else 'other'
      else:
        seen = 'graphene' if np.allclose(y[:2], si, atol=1e-4) else 'material' if np.allclose(y[:2], si * 40 + [-6, 10], atol=1e-3) else 'other'
        seen = 'other' if g.feature_constructor.requires_image else seen
      rec = dict(ids=ids, adapter=adapter, lo=lo, hi=hi, dist=dist, features=seen, acts=n,
                 goal='single_silicon' if isinstance(g.goal, goals.SingleSiliconGoalReaching) else type(g.goal).__name__, rates='', image=0)
      if kind != 'microscope':
        c = x.get_simulator_config()
        ids.append(self.number(c.material))
        rec.update(rates=rates_of(c.material), image=tr.us(c.image_duration))
      return rec

    self.ev('Build', f, kind=kind, name=name, ids=[], adapter='', features='', rates='', lo=0, hi=0)

  def open(self):
    kind, name = self.pool[int(self.rng.integers(2))]
    if len(self.envs) == 3:
      return
    seed = int(self.rng.integers(2))
    if self.envs and self.rng.integers(2):
      _, kind, name, seed, _, _ = self.envs[-1]
    conf = (registry.create_train_experiment('relative_simple_rates') if kind == 'microscope' else self.get(kind, name)).get_simulator_config
    env = run_helpers.create_putting_dune_env(seed, get_adapters_and_goal=self.get(kind, name).get_adapters_and_goal, get_simulator_config=conf,
                                              step_limit=6)
    self.envs.append([env, kind, name, seed, 0, None])

  def advance(self):
    e = self.envs[int(self.rng.integers(len(self.envs)))]
    env, kind, name, seed, k, last = e

    def f():
      if k == 0:
        ts = env.reset()
      else:
        s = env.action_spec()
        r = np.random.default_rng([seed, k])
        ts = env.step(r.uniform(np.broadcast_to(s.minimum, s.shape), np.broadcast_to(s.maximum, s.shape)).astype(s.dtype))
      e[4], e[5] = k + 1, ts
      x, spec = ts.observation, env.observation_spec()
      obs = True
      parts = [x[q] for q in sorted(x)] if isinstance(x, dict) else [x]
      specs = [spec[q] for q in sorted(spec)] if isinstance(spec, dict) else [spec]
      obs = len(parts) == len(specs)
      try:
        for a, b in zip(parts, specs):
          b.validate(a)
      except ValueError:
        obs = False
      parts = parts + [ts.reward, ts.discount, int(ts.step_type)]
      did = env.last_microscope_observation.controls
      return dict(digest=zlib.crc32(b'|'.join(np.asarray(v, np.float64).round(9).tobytes() for v in parts)) & 0x3FFFFFFF, obs=obs,
                  dwell=[] if ts.first() else [tr.us(c.dwell_time) for c in did])

    self.ev('Advance', f, kind=kind, name=name, seed=seed, k=k, digest=0)

  def play(self):
    kind, name = PLAYERS[int(self.rng.integers(len(PLAYERS)))]
    rng = self.rng

    def f():
      x = self.get(kind, name)
      g = x.get_adapters_and_goal()
      a = x.get_agent(np.random.default_rng(4), g)
      s = g.action_adapter.action_spec
      phi, jit = rng.uniform(0, 2 * np.pi), rng.uniform(-.1, .1, 3)
      nb = [1.42 * np.asarray([np.cos(phi + q), np.sin(phi + q)]) for q in 2 * np.pi / 3 * np.arange(3) + jit]
      best = int(rng.integers(3))
      o = np.concatenate([[.4, .6], *nb, nb[best] * 3]).astype(np.float32)
      acts = [np.asarray(a.step(dm_env.restart(o))) for _ in range(20)]
      n = acts[0].shape[0] if all(q.shape == acts[0].shape and q.ndim == 1 for q in acts) else -1
      u = nb[best] / np.linalg.norm(nb[best])
      v = np.asarray([-u[1], u[0]])
      same = all(np.allclose(q, acts[0]) for q in acts)
      within = n == s.shape[0] and (same or all(np.all(q >= s.minimum) and np.all(q <= s.maximum) for q in acts))
      return dict(ids=[self.number(a)], n=int(n), within=bool(within), agent='greedy' if same else 'random', along=tr.a4(acts[0][:2] @ u), across=tr.a4(acts[0][:2] @ v))

    self.ev('Agent', f, kind=kind, name=name, ids=[], n=0, agent='')

  def fetch(self, fault):
    kind, name = self.models[int(self.rng.integers(2))]
    urls, seen = [], {}

    def retrieve(url, filename=None, *a, **k):
      urls.append(url)
      path = pathlib.Path(filename) if filename else self.dir / 'download.zip'
      if fault == 'download':
        path.write_bytes(b'PK\x03\x04 and then nothing')
        raise urllib.error.URLError('connection reset')
      model = url.rsplit('/', 1)[-1].removesuffix('.zip')
      with zipfile.ZipFile(path, 'w') as z:
        z.writestr(f'{model}/saved_model.pb', b'graph' * 50)
        z.writestr(f'{model}/variables/variables.index', b'index' * 50)
        z.writestr(f'{model}/variables/variables.data', b'weights' * 500)
      if fault == 'extract':
        # A byte of the last member has changed on the way.
        b = path.read_bytes()
        i = b.rindex(b'weights', 0, len(b))
        path.write_bytes(b[:i] + b'W' + b[i + 1:])
      return str(path), None

    class Agent:

      def __init__(self, path):
        p = pathlib.Path(path)
        seen.update(path=p.name, whole=all((p / q).is_file() and (p / q).stat().st_size == k for q, k in (
            ('saved_model.pb', 250), ('variables/variables.index', 250), ('variables/variables.data', 3500))),
                    dir=p.parent)

    held = urllib.request.urlretrieve, tf_eval_agent.TfEvalAgent
    urllib.request.urlretrieve, tf_eval_agent.TfEvalAgent = retrieve, Agent
    try:
      def f():
        x = self.get(kind, name)
        self.keep.append(x.get_agent(np.random.default_rng(4), x.get_adapters_and_goal()))
        known = {'ppo_simple_images_tf'} | {n for n in os.listdir(seen['dir']) if n.startswith('230')}
        return dict(path=seen['path'], whole=seen['whole'], left=sorted(set(os.listdir(seen['dir'])) - known))

      self.ev('Agent', f, kind=kind, name=name, fault=fault, urls=urls, path='', whole=False, left=[])
    finally:
      urllib.request.urlretrieve, tf_eval_agent.TfEvalAgent = held

  def do(self, op):
    rng = self.rng
    kinds = list(NAMES)
    kind = kinds[int(rng.integers(3))]
    name = NAMES[kind][int(rng.integers(len(NAMES[kind])))]
    if op == 'L':
      if self.own and rng.integers(3):
        self.lookup('eval', self.own[int(rng.integers(len(self.own)))])
      else:
        self.lookup(kind, name)
        if rng.integers(2):
          self.lookup(kind, name)
    elif op == 'l':
      odd = ODD + [n for k in kinds if k != kind for n in NAMES[k]] + self.own
      self.lookup(kind, odd[int(rng.integers(len(odd)))])
    elif op == 'R':
      COUNT[0] += 1
      new = f'mine_{COUNT[0]}'
      self.register(new)
      self.own.append(new)
      self.lookup('eval', new)
    elif op == 'r':
      name = self.own[-1] if self.own and rng.integers(2) else NAMES['eval'][int(rng.integers(3))]
      self.lookup('eval', name)
      self.register(name)
      self.lookup('eval', name)
    elif op == 'B':
      self.build(kind, name)
    elif op == 'E':
      self.open()
    elif op == 'A':
      while len(self.envs) < 2:
        self.open()
      for _ in range(4):
        self.advance()
    elif op == 'G':
      self.play()
    else:
      self.fetch({'P': 'none', 'D': 'download', 'X': 'extract'}[op])


def main(t):
  p = tr.params()
  i, n = tr.shard()
  rng = np.random.default_rng([tr.seed(), 28, i])
  all_ = [x['h'] for x in tr.schedules()]
  run = Run(t, rng)
  try:
    # Everything in the catalogue once.
    run.start('all')
    for k, (kind, name) in enumerate((k, x) for k in NAMES for x in NAMES[k]):
      if k % n == i:
        run.build(kind, name)
        run.build(kind, name)
    for c in range(p['n']):
      run.start(f'{i}.{c}')
      for _ in range(p['long']):
        for op in all_[int(rng.integers(len(all_)))]:
          run.do(op)
  finally:
    registry.__file__ = run.file
    shutil.rmtree(run.dir)


if __name__ == '__main__':
  tr.main(main)
