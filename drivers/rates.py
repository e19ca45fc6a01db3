"""Asks the rate functions about generated sequences of scenes."""
import os
import shutil
import sys
import tempfile

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import numpy as np
import tr

from putting_dune import geometry
from putting_dune import graphene
from putting_dune import microscope_utils as mu

BOND = 1.42


def turn(p, a):
  c, s = np.cos(a), np.sin(a)
  return np.stack([p[..., 0] * c - p[..., 1] * s, p[..., 0] * s + p[..., 1] * c], -1)


def i4(x):
  return int(round(float(x) * 1e4))


class Scene:

  def __init__(self, rng, case):
    self.rng = rng
    while True:
      if case % 5 == 4:
        g = graphene.canonical_pristine_graphene_with_centered_silicon(int(rng.integers(9, 13)))
        p = np.array(g.atom_positions)
      else:
        p = graphene.generate_pristine_graphene(rng, int(rng.integers(8, 13)))
      if len(p) > 20:
        break
    if case % 3 == 1:
      p = p + rng.uniform(-.08, .08, p.shape)
    self.pos = p
    self.lab = np.arange(len(p))
    inner = [k for k in range(len(p)) if np.sum(np.linalg.norm(p - p[k], axis=1) < 1.75) == 4]
    c = p[inner].mean(0)
    self.si = int(self.lab[min(inner, key=lambda k: np.linalg.norm(p[k] - c) + rng.uniform(0, 2))])
    self.inner = set(inner)
    self.beam = self.at(self.si) + np.array([.3, -.2])

  def at(self, l):
    return self.pos[int(np.flatnonzero(self.lab == l)[0])]

  def near(self):
    d = np.linalg.norm(self.pos - self.at(self.si), axis=1)
    return [int(self.lab[k]) for k in np.argsort(d)[1:4]]

  def off(self):
    return self.beam - self.at(self.si)


class Fn:

  def __init__(self, t, name, kind, par, mx, call, reach=5.):
    self.name, self.kind, self.par, self.mx, self.call, self.reach = name, kind, par, mx, call, reach
    self.custom = None


class Run:

  def __init__(self, t, rng):
    self.t, self.rng = t, rng

  def mixture(self, n, wide=False):
    rng = self.rng
    w = rng.uniform(.05, 1, n)
    w /= w.sum()
    if n > 1:
      w = np.round(w, 4)
    loc = np.round(rng.uniform(-2, 3, n) if wide else rng.uniform(-.3, 1.2, n), 4)
    v = np.round(rng.uniform(.3, 5, (n, 2)) if wide else rng.uniform(.2, 1.5, (n, 2)), 4)
    return graphene.GaussianMixtureRateFunction(max_rate=float(np.round(rng.uniform(.01, 3), 4)), mixture_weights=w, loc_distances=loc, variances=v)

  def fn_of(self, name, m):
    par = [[i4(m.mixture_weights[k]), i4(m.loc_distances[k]), i4(m.variances[k][0]), i4(m.variances[k][1])] for k in range(len(m.mixture_weights))]
    if len(par) == 1:
      par[0][0] = 10000
    reach = 2. if np.max(np.abs(m.loc_distances)) > 1 else 5.
    return Fn(self.t, name, 'mixture', par, m.max_rate, m, reach)

  def functions(self, case):
    rng = self.rng
    predictor = lambda f: graphene.PristineSingleSiGrRatePredictor(canonical_rate_prediction_fn=f)
    fs = [Fn(self.t, 'simple', 'simple', [], 1., predictor(graphene.simple_canonical_rate_function))]
    hp = graphene.HumanPriorRatePredictor()
    fs.append(Fn(self.t, 'prior', 'prior', [[i4(hp.mean[0]), i4(hp.mean[1]), i4(hp.cov[0][0]), i4(hp.cov[1][1])]], hp.max_rate, predictor(hp.predict)))
    mean = np.round(rng.uniform([.2, -.6], [1.3, .6]), 4)
    if case % 3 == 0:
      mean[1] = 0.
    var, mx = float(np.round(rng.uniform(.05, .5), 4)), float(rng.uniform(.05, 4))
    var2 = var if case % 4 == 1 else float(np.round(rng.uniform(.05, .5), 4))
    hp2 = graphene.HumanPriorRatePredictor(mean=mean, cov=np.diag([var, var2]), max_rate=mx)
    fs.append(Fn(self.t, 'prior2', 'prior', [[i4(mean[0]), i4(mean[1]), i4(var), i4(var2)]], mx, predictor(hp2.predict)))
    self.mixes = {'m1': self.mixture(1), 'm2': self.mixture(2), 'm3': self.mixture(int(rng.integers(2, 6)), wide=True)}
    fs += [self.fn_of(k, m) for k, m in self.mixes.items()]
    cust = Fn(self.t, 'custom', 'custom', [], 1., None)

    def fn(grid, beam_position, silicon_position, neighbor_indices):
      labs = [int(self.scene.lab[int(i)]) for i in np.asarray(neighbor_indices).reshape(-1)]
      cust.custom = dict(beam=tr.p4(tr.xy(beam_position)), si=tr.p4(np.asarray(silicon_position).reshape(-1)), n=labs)
      return np.array([.01 * (1 + l % 50) for l in labs])

    cust.call = predictor(fn)
    return fs + [cust]

  def show(self, how):
    s = self.scene
    self.t.ev('Scene', how=how, sites=[[int(l)] + tr.p4(p) for l, p in zip(s.lab, s.pos)], si=s.si, beam=tr.p4(s.beam),
              onesided=[f.name for f in self.fns if f.kind == 'prior' and f.par[0][1] != 0])

  def ask(self, case, f, name=None):
    s = self.scene
    if np.linalg.norm(s.off()) > f.reach:
      return
    z = np.where(s.lab == s.si, 14, 6)
    pos = s.pos.copy()
    grid = mu.AtomicGridMaterialFrame(mu.AtomicGrid(pos, z.copy()))
    rec = dict(case=f'{case} {f.name}', fn=name or f.name, kind=f.kind, par=f.par, raised=False, succ=[], rate=[], lg=[], total=0,
               finite=True, kept=True, call=dict(beam=[0, 0], si=[0, 0], n=[]))
    try:
      r = f.call(grid, geometry.PointMaterialFrame(geometry.Point(s.beam)))
      for x in r.successor_states:
        zz, pp = np.asarray(x.grid.atomic_numbers), np.asarray(x.grid.atom_positions)
        at = np.flatnonzero(zz == 14)
        same = pp.shape == s.pos.shape
        rec['succ'].append([int(s.lab[at[0]]) if len(at) and same else -1, len(at), int(np.sum(zz == 6)),
                            int(np.ceil(np.max(np.abs(pp - s.pos)) * 1e4)) if same else 9999])
        v = float(x.rate) / f.mx
        rec['rate'].append(tr.q(v, 1e5))
        rec['lg'].append(tr.q(np.log(v), 1e4) if v > 0 and np.isfinite(v) else -tr.LIM)
        rec['finite'] = rec['finite'] and bool(np.isfinite(v))
      rec['total'] = tr.q(float(r.total_rate) / f.mx, 1e5)
      rec['kept'] = bool(np.array_equal(np.asarray(grid.atom_positions), s.pos) and np.array_equal(np.asarray(grid.atomic_numbers), z))
      if f.kind == 'custom':
        rec['call'] = f.custom
    except Exception as e:  # pylint: disable=broad-except
      rec.update(raised=True, error=tr.exc_name(e))
    self.t.ev('Ask', **rec)

  def numbers(self, m):
    f = lambda a: [tr.u6(x) for x in np.asarray(a, float).reshape(-1)]
    return dict(mx=tr.u6(m.max_rate), w=f(m.mixture_weights), loc=f(m.loc_distances), v=f(m.variances))

  def history(self, case, ops, c):
    rng, t = self.rng, self.t
    t.ev('New', case=case)
    self.scene = s = Scene(rng, c)
    self.fns = fs = self.functions(c)
    root = tempfile.mkdtemp(prefix='vt_rates_')
    stored = {}
    self.show('new')
    for f in fs:
      self.ask(case, f)
    try:
      for op in ops:
        moved = True
        if op == 'turn':
          a, o = float(rng.choice([np.pi / 3, np.pi / 2, np.pi, rng.uniform(-3, 3)])), rng.uniform(-5, 5, 2)
          s.pos, s.beam = turn(s.pos - o, a) + o, turn(s.beam - o, a) + o
        elif op == 'shift':
          o = rng.uniform(-20, 20, 2)
          s.pos, s.beam = s.pos + o, s.beam + o
        elif op == 'mirror':
          m = np.array([1., -1.]) if rng.integers(2) else np.array([-1., 1.])
          s.pos, s.beam = s.pos * m, s.beam * m
        elif op == 'shuffle':
          k = rng.permutation(len(s.lab))
          s.pos, s.lab = s.pos[k], s.lab[k]
        elif op == 'hop':
          l = [x for x in s.near() if x in s.inner]
          if l:
            s.beam = s.beam - s.at(s.si)
            s.si = int(rng.choice(l))
            s.beam = s.beam + s.at(s.si)
        elif op == 'aim':
          r = rng.uniform(0, 2 if rng.integers(4) else 5)
          a = rng.uniform(-np.pi, np.pi)
          s.beam = s.at(s.si) + r * np.array([np.cos(a), np.sin(a)])
        elif op == 'peak':
          v = s.at(int(rng.choice(s.near()))) - s.at(s.si)
          f = fs[int(rng.integers(1, len(fs) - 1))]
          u = v / np.linalg.norm(v)
          p = f.par[int(rng.integers(len(f.par)))]
          o = BOND * (u * p[0] + np.array([-u[1], u[0]]) * p[1]) / 1e4 if f.kind == 'prior' else v * p[1] / 1e4
          s.beam = s.at(s.si) + o
        else:
          moved = False
        if moved:
          self.show(op)
          for f in fs:
            self.ask(case, f)
          continue
        d = str(int(rng.integers(2)))
        path = os.path.join(root, d, 'sub' if c % 2 else '')
        if op == 'save':
          k = str(rng.choice(list(self.mixes)))
          m = self.mixes[k]
          rec = dict(case=case, dir=d, p=self.numbers(m), raised=False, kept=True)
          try:
            m.serialize_to_directory(path)
            rec['kept'] = self.numbers(m) == rec['p']
            stored[d] = (k, m)
          except Exception as e:  # pylint: disable=broad-except
            rec.update(raised=True, error=tr.exc_name(e))
          t.ev('Store', **rec)
        else:
          rec = dict(case=case, dir=d, raised=False, same=True, p=dict(mx=0, w=[], loc=[], v=[]))
          try:
            m = graphene.GaussianMixtureRateFunction.deserialize_from_directory(path)
            rec['p'] = self.numbers(m)
            if d in stored:
              rec['same'] = bool(m == stored[d][1] and stored[d][1] == m)
          except Exception as e:  # pylint: disable=broad-except
            rec.update(raised=True, error=tr.exc_name(e))
            m = None
          t.ev('Load', **rec)
          if m is not None and d in stored:
            self.ask(case + ' loaded', self.fn_of(stored[d][0], m))
    finally:
      shutil.rmtree(root)

  def equal(self, case):
    rng = self.rng
    G = graphene.GaussianMixtureRateFunction
    n = int(rng.integers(1, 5))
    a = self.mixture(n, wide=True)
    kw = dict(max_rate=a.max_rate, mixture_weights=a.mixture_weights.copy(), loc_distances=a.loc_distances.copy(), variances=a.variances.copy())
    d = float(rng.choice([0, 1e-6, 4e-4, 3e-3, .1])) * float(rng.choice([-1, 1]))
    f = str(rng.choice(['max_rate', 'mixture_weights', 'loc_distances', 'variances', 'more']))
    if f == 'max_rate':
      kw[f] += d
    elif f == 'more':
      kw.update(mixture_weights=np.append(kw['mixture_weights'], 0.), loc_distances=np.append(kw['loc_distances'], 0.),
                variances=np.append(kw['variances'], [[1., 1.]], 0))
    else:
      kw[f].reshape(-1)[int(rng.integers(kw[f].size))] += d
    b = G(**kw)
    self.t.ev('Equal', case=f'equal {case}', a=self.numbers(a), b=self.numbers(b), eq=bool(a == b))
    seed = int(rng.integers(10**6))
    m, o = G.sample_new(np.random.default_rng(seed)), G.sample_new(np.random.default_rng(seed))
    self.t.ev('Draw', case=f'draw {case}', p=self.numbers(m), again=self.numbers(m) == self.numbers(o))


def run(t):
  s, n = tr.shard()
  rng = np.random.default_rng([tr.seed(), 26, s])
  p = tr.params()
  r = Run(t, rng)
  sch = tr.schedules()
  for k, j in enumerate(rng.permutation(len(sch))[:p['n']]):
    r.history(f'history {s} {k} ' + ' '.join(sch[j]['h']), sch[j]['h'], k * n + s)
  for k in range(2):
    r.history(f'files {s} {k}', ['save'] * 4 + ['load', 'save', 'load', 'turn', 'load'], s + k)
  t.ev('New', case='equal')
  for k in range(p['equal']):
    r.equal(f'{s} {k}')


if __name__ == '__main__':
  tr.main(run)
