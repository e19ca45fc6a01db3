"""Runs the rate learning script end to end and looks at what it leaves."""
import contextlib
import dataclasses
import datetime as dt
import io
import json
import os
import shutil
import sys
import tempfile
import warnings

os.environ.setdefault('TF_CPP_MIN_LOG_LEVEL', '3')
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import tr

from etils import epath
from jax import numpy as jnp
import joblib
import matplotlib
matplotlib.use('Agg')
import matplotlib.pyplot as plt
from ml_collections import config_dict
import numpy as np
import tensorflow as tf

from putting_dune import geometry
from putting_dune import graphene
from putting_dune import io as pdio
from putting_dune import microscope_utils as mu
from putting_dune import simulator
from putting_dune.pipeline import train_rate_learner as trl
from putting_dune.pipeline import trajectories_to_transitions as t2t
from putting_dune.rate_learning import learn_rates as lr

warnings.filterwarnings('ignore')
NETS = ('rate_network', 'classification_network')
XY = np.array([[.9, .1], [-.6, 1.2], [2.5, -3.]], np.float32)


def rel(r):
  """Rates of one input relative to their sum, and the sum's logarithm."""
  r = np.asarray(r, float)
  out = []
  for x in r:
    s = x.sum()
    out += [tr.q(v / s, 1e6, 10**8) for v in x] + [tr.q(np.log(s), 1e4)] if s > 1e-20 else [0, 0, 0, 0]
  return out


class Run:

  def __init__(self, t, rng, root):
    self.t, self.rng, self.root = t, rng, root

  def trajectories(self, n, steps):
    rng = self.rng
    out = []
    for _ in range(n):
      sim = simulator.PuttingDuneSimulator(graphene.PristineSingleDopedGraphene(grid_columns=20))
      o = sim.reset(rng)
      obs = [o]
      for _ in range(steps):
        p = graphene.get_single_silicon_position(o.grid) + rng.normal(size=2) * .06
        c = mu.BeamControl(geometry.PointMicroscopeFrame(geometry.Point(p)), dt.timedelta(seconds=round(rng.uniform(.5, 4), 3)),
                           voltage_kv=round(rng.uniform(50, 70), 2), current_na=round(rng.uniform(.1, .3), 3))
        o = sim.step_and_image(rng, [c])
        obs.append(o)
      out.append(mu.Trajectory(obs))
    return out

  def args(self, src, work, c, seed):
    return trl.Args(source_path=epath.Path(src), workdir=epath.Path(work), log_metrics=c['log'], plot_metrics=c['plot'], visualize_rates=c['vis'],
                    batch_size=c['bs'], epochs=c['epochs'], num_models=c['models'], bootstrap=c['boot'], hidden_dimensions=(6,),
                    val_frac=c['val'] / 10, seed=seed, distill=c['distill'], augment_data=c['augment'], use_voltage=c['kv'], use_current=c['na'],
                    previous_controls_at_current_timestep=True, learner_type=c['learner'], weight_decay=c['decay'] / 1e6, learning_rate=c['rate'] / 1e6)

  def source(self, trs, name):
    """Writes the data to a file, or to several in a directory."""
    src = os.path.join(self.root, 'data')
    shutil.rmtree(src, ignore_errors=True)
    os.makedirs(src)
    self.parts = int(self.rng.integers(1, 4)) if name == 'A' else 3
    cuts = np.array_split(np.arange(len(trs)), self.parts)
    for i, part in enumerate(cuts):
      pdio.write_records(os.path.join(src, f'{i}.tfrecords'), [trs[j] for j in part])
    self.files = [os.path.join(src, f'{i}.tfrecords') for i in range(len(cuts))]
    return self.files[0] if len(cuts) == 1 else src

  def execute(self, a, calls=None):
    orig = lr.visualize_rates

    def watch(save_path, predict_rates, *args, **kw):
      fc = kw.get('fixed_context')
      x = XY if fc is None else np.concatenate([np.repeat(np.asarray(fc, float)[None], len(XY), 0), XY], -1)
      if calls is not None:
        calls.append([os.path.basename(str(save_path)), [] if fc is None else [float(v) for v in fc], np.asarray(predict_rates(x), float)])
      if 'num_points' in kw:
        kw['num_points'] = 900
      return orig(save_path, predict_rates, *args, **kw)

    distill = lr.LearnedTransitionRatePredictor.distill

    def shorter(self, data, config=lr.distillation_defaults):
      return distill(self, data, config=config_dict.FrozenConfigDict({**config, 'epochs': 3, 'batches_per_epoch': 2, 'batch_size': 64}))

    lr.visualize_rates = watch
    lr.LearnedTransitionRatePredictor.distill = shorter
    try:
      with contextlib.redirect_stdout(io.StringIO()):
        trl.main(a)
    finally:
      lr.visualize_rates = orig
      lr.LearnedTransitionRatePredictor.distill = distill
      plt.close('all')

  def script(self, case, c, work, name, twice):
    """One run of the script, and a look at what it left."""
    rng = self.rng
    trs = self.trajectories(int(rng.integers(4, 7)), 8)
    src = self.source(trs, name)
    seed = int(rng.integers(10**6))
    a = self.args(src, work, c, seed)
    with contextlib.redirect_stdout(io.StringIO()):
      pts = trl.transitions_to_datapoints(t2t.trajectories_to_transitions(trs, previous_controls_at_current_timestep=True),
                                          dataclasses.replace(a, workdir=epath.Path(self.root)))
    rec = dict(dir=name, cfg=c, twice=twice, raised=False, files=[], metrics={}, finite=True, again=True, other=True, parts=self.parts, calls=[],
               points=[dict(na=tr.a4(p['current']), kv=tr.a4(p['voltage']), dwell=tr.a4(p['seconds_between']), s=int(p['next_state'])) for p in pts])
    net = c['learner'] in NETS
    saved = None
    try:
      calls = []
      self.execute(a, calls)
      rec['files'] = sorted(os.listdir(work))
      saved = self.saved(work, c)
      for nm, ctx, got in calls:
        x = np.concatenate([np.repeat(np.asarray(ctx)[None], len(XY), 0), XY], -1)
        rec['calls'].append(dict(name=nm, ctx=[tr.a4(v) for v in ctx], got=self.flat(got, net), saved=self.flat(saved(x), net)))
      m = {}
      if 'metrics.npz' in rec['files'] and c['log']:
        m = dict(np.load(os.path.join(work, 'metrics.npz')))
        rec.update(metrics={k: list(v.shape) for k, v in m.items()}, finite=bool(all(np.isfinite(v).all() for v in m.values())))
      if twice:
        other = os.path.join(self.root, 'again')
        os.makedirs(other)
        self.execute(dataclasses.replace(a, workdir=epath.Path(other), plot_metrics=False, visualize_rates=False))
        m2 = dict(np.load(os.path.join(other, 'metrics.npz'))) if c['log'] else m
        b = self.saved(other, c)
        x = np.concatenate([np.full((len(XY), self.width(c)), .5), XY], -1)
        rec['again'] = bool(set(m) == set(m2) and all(np.array_equal(m[k], m2[k]) for k in m) and np.allclose(saved(x), b(x), rtol=1e-6))
        shutil.rmtree(other)
        if not net and c['boot']:
          os.makedirs(other)
          self.execute(dataclasses.replace(a, workdir=epath.Path(other), plot_metrics=False, visualize_rates=False, seed=seed + 1))
          rec['other'] = any(not np.array_equal(*(self.scaler(d, c, i).mean_ for d in (work, other))) for i in range(c['models']))
          shutil.rmtree(other)
    except Exception as e:  # pylint: disable=broad-except
      rec.update(raised=True, error=f'{type(e).__name__}: {e}'[:300])
    self.t.ev('Script', case=case, **rec)
    if rec['raised']:
      return
    if net:
      self.reload(case, c, work, name)
    else:
      self.models(case, c, work, name, len(pts))

  def width(self, c):
    return int(c['na']) + int(c['kv']) + int(c['learner'] != 'rate_network')

  def flat(self, rates, net):
    return rel(rates) if net else [tr.q(v, 1e6) for v in np.asarray(rates).reshape(-1)]

  def load(self, work):
    cfg = config_dict.FrozenConfigDict(json.loads(open(os.path.join(work, 'config.json')).read()))
    p = lr.LearnedTransitionRatePredictor(config=cfg)
    p.load(work)
    return p

  def saved(self, work, c):
    if c['learner'] in NETS:
      p = self.load(work)
      return lambda x: np.asarray(p.apply_model(jnp.asarray(x, jnp.float32)), float)
    e = joblib.load(os.path.join(work, c['learner'] + '_ensemble.joblib'))
    return lambda x: e.predict_proba(x)[..., 1:]

  def reload(self, case, c, work, name):
    """The export and the reloaded network, at the context it was exported with."""
    rec = dict(dir=name, raised=False, ctx=[], got=[], net=[], asked=[])
    try:
      p = self.load(work)
      m = tf.saved_model.load(work)
      with contextlib.redirect_stdout(io.StringIO()):
        src = [x for f in self.files for x in pdio.read_records(f, mu.Trajectory)]
        pts = trl.transitions_to_datapoints(t2t.trajectories_to_transitions(src, previous_controls_at_current_timestep=True),
                                            self.args('x', self.root, c, 0))
        ctx = trl.stack_data(pts, c['na'], c['kv'], c['learner'] != 'rate_network')['context']
      ctx = np.zeros(0) if ctx is None else np.median(ctx, axis=0)
      nb = np.array([[1.42, 0.], [-.71, 1.2298], [-.71, -1.2298]])
      grid = mu.AtomicGridMaterialFrame(mu.AtomicGrid(np.concatenate([[[0., 0.]], nb]), np.array([14, 6, 6, 6])))
      for xy in [[.9, .1], [.5, -.3], [2., .4]]:
        x = np.concatenate([ctx, xy]).astype(np.float32)[None]
        rec['net'] += rel(np.asarray(p.apply_model(jnp.asarray(x))))
        rec['got'] += rel(np.asarray(m(np.array([xy], np.float32))))
        rec['asked'] += rel(np.asarray(p.predict(grid, geometry.PointMaterialFrame(geometry.Point(xy)), np.zeros(2), np.array([1, 2, 3])))[None])
      rec['ctx'] = [tr.a4(v) for v in ctx]
    except Exception as e:  # pylint: disable=broad-except
      rec.update(raised=True, error=f'{type(e).__name__}: {e}'[:300])
    self.t.ev('Reload', case=case, **rec)

  def scaler(self, work, c, i):
    return joblib.load(os.path.join(work, f"{c['learner']}_{i}.joblib"))[0]

  def models(self, case, c, work, name, n):
    models = []
    for i in range(c['models']):
      rec = dict(dir=name, i=i, raised=False, nin=0, n=0, mean=[], classes=[], hyper=[])
      try:
        m = joblib.load(os.path.join(work, f"{c['learner']}_{i}.joblib"))
        models.append(m)
        sc = m[0]
        rec.update(nin=int(m.n_features_in_), n=int(np.max(sc.n_samples_seen_)), mean=[tr.a4(v) for v in sc.mean_], classes=[int(v) for v in m.classes_])
        if c['learner'] == 'sklearn_mlp':
          rec['hyper'] = [tr.q(m[-1].alpha, 1e6), int(m[-1].max_iter), tr.q(m[-1].learning_rate_init, 1e6)]
      except Exception as e:  # pylint: disable=broad-except
        rec.update(raised=True, error=f'{type(e).__name__}: {e}'[:300])
      self.t.ev('Model', case=case, **rec)
    rec = dict(dir=name, raised=False, classes=[], probs=[], ens=[])
    try:
      x = np.concatenate([self.rng.uniform(.1, 60, (4, self.width(c))), self.rng.normal(size=(4, 2)) * 1.5], -1)
      e = joblib.load(os.path.join(work, c['learner'] + '_ensemble.joblib'))
      f = lambda p: [[tr.q(v, 1e6) for v in r] for r in p]
      rec.update(classes=[[int(v) for v in m.classes_] for m in models], probs=[f(m.predict_proba(x)) for m in models], ens=f(e.predict_proba(x)))
    except Exception as e:  # pylint: disable=broad-except
      rec.update(raised=True, error=f'{type(e).__name__}: {e}'[:300])
    self.t.ev('Vote', case=case, **rec)

  def look_elsewhere(self, x):
    """The same transition, with the view after it moved."""
    lo, hi = np.array(x.fov_after.lower_left.coords)[0], np.array(x.fov_after.upper_right.coords)[0]
    lo2 = lo + self.rng.uniform(-3, 3, 2)
    hi2 = lo2 + (hi - lo) * self.rng.uniform(.9, 1.1)
    fov = mu.MicroscopeFieldOfView(geometry.Point(lo2), geometry.Point(hi2))
    at = (x.grid_after.atom_positions * (hi - lo) + lo - lo2) / (hi2 - lo2)
    return dataclasses.replace(x, fov_after=fov, grid_after=mu.AtomicGrid(at, x.grid_after.atomic_numbers))

  def drawings(self, case):
    """Pictures of transitions, and what is drawn in them."""
    rng = self.rng
    work = tempfile.mkdtemp(dir=self.root)
    c = dict(log=False, plot=False, vis=False, bs=8, epochs=1, models=1, boot=False, val=0, augment=False, kv=True, na=True, learner='knn', decay=1, rate=1, distill=False)
    a = self.args('x', work, c, 0)
    ts = t2t.trajectories_to_transitions(self.trajectories(1, int(rng.integers(3, 7))), previous_controls_at_current_timestep=True)
    if rng.integers(2):
      ts.insert(int(rng.integers(len(ts))), dataclasses.replace(ts[0], controls=[]))
    ts = [self.look_elsewhere(x) if rng.integers(2) else x for x in ts]
    size = int(rng.choice([32, 64, 512]))
    image, label = size != 512 or bool(rng.integers(2)), bool(rng.integers(2))
    ts = [dataclasses.replace(x, image_before=rng.integers(0, 255, (size, size, 1)).astype(np.uint8) if image else None,
                              label_image_before=rng.integers(0, 2, (size, size)).astype(np.uint8) if label else None) for x in ts]
    figs = []
    orig = matplotlib.figure.Figure.savefig

    def save(fig, f, *args, **kw):
      figs.append((os.path.relpath(str(getattr(f, 'name', f)), work), self.look(fig)))
      f.write(b'picture')

    with contextlib.redirect_stdout(io.StringIO()):
      each = [trl.transitions_to_datapoints([x], a) for x in ts]
      error = ''
      matplotlib.figure.Figure.savefig = save
      try:
        trl.transitions_to_datapoints(ts, a, True, save_path=work)
      except Exception as e:  # pylint: disable=broad-except
        error = f'{type(e).__name__}: {e}'[:300]
      finally:
        matplotlib.figure.Figure.savefig = orig
        plt.close('all')
    used = [(x, p[0]) for x, p in zip(ts, each) if p]
    names = sorted(os.path.relpath(os.path.join(d, f), work) for d, _, fs in os.walk(work) for f in fs)
    rec = dict(raised=bool(error), error=error, label=label, image=image, left=len(ts) - len(used), states=[int(p['next_state']) for _, p in used],
               names=names, drawn=[])
    for i, (x, p) in enumerate(used):
      got = dict(figs).get(f"class_{int(p['next_state'])}/transition_{i + 1}_transition.png")
      if got is None:
        continue
      lo, hi = np.array(x.fov_before.lower_left.coords)[0], np.array(x.fov_before.upper_right.coords)[0]
      lo2, hi2 = np.array(x.fov_after.lower_left.coords)[0], np.array(x.fov_after.upper_right.coords)[0]
      atoms = x.grid_before.atom_positions
      after = (x.grid_after.atom_positions * (hi2 - lo2) + lo2 - lo) / (hi - lo)
      si = atoms[x.grid_before.atomic_numbers == 14][0]
      near = np.argsort(np.linalg.norm((atoms - si) * (hi - lo), axis=-1))
      f = lambda p: [tr.q(p[0], 1e6), tr.q(p[1], 1e6)]
      rec['drawn'].append(dict(size=size, s=int(p['next_state']), beam=f(tr.xy(x.controls[0].position)), si=f(si),
                               si2=f(after[x.grid_after.atomic_numbers == 14][0]), near=[f(atoms[k]) for k in near[1:4]],
                               n=len(atoms), n2=len(after), got=got))
    shutil.rmtree(work)
    self.t.ev('Drawings', case=case, **rec)

  def look(self, fig):
    """What a figure shows, in thousandths of a pixel."""
    out = dict(n=0, n2=0, beam=[], si=[], si2=[], nb=[], marked=[])
    f = lambda p: [tr.q(p[0], 1e3), tr.q(p[1], 1e3)]
    for k in fig.axes[0].collections:
      at, name = np.asarray(k.get_offsets(), float), k.get_label()
      if name == 'Atoms before transition':
        out['n'] = len(at)
      elif name == 'Atoms after transition':
        out['n2'] = len(at)
      elif name in ('Beam position', 'Si position (before)', 'Si position (after)'):
        out[{'B': 'beam', 'b': 'si', 'a': 'si2'}[name[0] if name[0] == 'B' else name[13]]] = [v for p in at for v in f(p)]
      elif name.startswith('Neighbor '):
        out['nb'].append([int(name[9:]), *f(at[0])])
        if (np.abs(k.get_paths()[0].vertices) > 1e-6).all():
          out['marked'].append(int(name[9:]))
    return out

  def picture(self, case):
    """A picture of rates that are known."""
    rng = self.rng
    num = int(rng.integers(10, 200))
    span = round(float(rng.uniform(.5, 10)), 2)
    fixed = rng.normal(size=int(rng.integers(1, 4))) if rng.integers(2) else None
    k = 0 if fixed is None else len(fixed)
    peak = rng.uniform(-span, span, (3, 2))
    path = os.path.join(self.root, 'p.png')
    seen = []

    def rates(x):
      x = np.asarray(x)
      seen.append(x)
      return np.exp(-((x[:, None, k:] - peak) ** 2).sum(-1) / span**2)

    rec = dict(points=num, range=tr.a4(span), fixed=fixed is not None, raised=False, lo=[], hi=[], n=0, side=0, ctxok=True, max=[], true=[], file=False)
    try:
      with contextlib.redirect_stdout(io.StringIO()):
        fig, top = lr.visualize_rates(path, rates, grid_range=span, num_points=num, fixed_context=fixed)
      del fig
      x = np.concatenate(seen)
      xy = x[:, k:]
      rec.update(lo=[tr.a4(v) for v in xy.min(0)], hi=[tr.a4(v) for v in xy.max(0)], n=len(np.unique(xy.round(9), axis=0)), side=len(np.unique(xy[:, 0].round(9))),
                 ctxok=bool(k == 0 or np.allclose(x[:, :k], fixed)), max=[tr.a4(v) for v in top], true=[tr.a4(v) for v in rates(x).max(0)],
                 file=os.path.exists(path) and os.path.getsize(path) > 1000)
      os.unlink(path)
    except Exception as e:  # pylint: disable=broad-except
      rec.update(raised=True, error=f'{type(e).__name__}: {e}'[:300])
    finally:
      plt.close('all')
    self.t.ev('Picture', case=case, **rec)


def run(t):
  s, shards = tr.shard()
  rng = np.random.default_rng([tr.seed(), 33, s])
  p = tr.params()
  sch = tr.schedules()
  root = tempfile.mkdtemp(prefix='vt_learner_')
  r = Run(t, rng, root)
  more = ['svm', 'gp', 'sklearn_mlp', 'random_forest', 'knn']
  try:
    for i in range(p['pictures']):
      r.picture(f'picture {s} {i}')
      if i % 3 == 0:
        r.drawings(f'drawings {s} {i}')
    for k, j in enumerate(rng.permutation(len(sch))[:p['n']]):
      t.ev('New')
      dirs = []
      for i, step in enumerate(sch[j]['h']):
        c = dict(step['c'], models=int(rng.integers(2, 4)), epochs=int(rng.integers(1, 4)), bs=[8, 16, 1024][(s + i + k) % 3], plot=bool(rng.integers(2)))
        at = (s + shards * k) * 2 + i
        # Every shard has one network (a second would cost a lot of time).
        if i == 0:
          c['learner'] = NETS[at // 2 % 2]
        else:
          c['learner'] = more[at // 2 % len(more)]
        if c['learner'] not in NETS:
          c['models'] = 4
        c.update(distill=bool((s + k) % 2), decay=int(rng.integers(1, 10**5)), rate=int(rng.integers(100, 10**4)))
        if at // 4 % 3 == 0 and i == 0:
          c['na'] = c['kv'] = False
        work = os.path.join(root, 'w', str(k), step['dir'])
        os.makedirs(work, exist_ok=True)
        r.script(f'history {s} {k} {i}', c, work, step['dir'], twice=c['learner'] not in NETS or (s + k) % 3 == 0)
      shutil.rmtree(os.path.join(root, 'w', str(k)))
  finally:
    shutil.rmtree(root)


if __name__ == '__main__':
  tr.main(run)
