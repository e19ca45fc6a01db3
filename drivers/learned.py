"""Trains, saves, loads and asks learned rate predictors."""
import os
import shutil
import sys
import tempfile

os.environ.setdefault('TF_CPP_MIN_LOG_LEVEL', '3')
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import tr

import jax
from jax import numpy as jnp
from ml_collections import config_dict
import numpy as np
import tensorflow as tf

from putting_dune import geometry
from putting_dune import microscope_utils as mu
from putting_dune.rate_learning import learn_rates as lr

BOND = 1.42
TINY = 1e-20


def rot(p, a):
  c, s = np.cos(a), np.sin(a)
  return np.stack([p[..., 0] * c - p[..., 1] * s, p[..., 0] * s + p[..., 1] * c], -1)


def rel(r, total):
  """Relative to the total; a total that is next to nothing is too coarse."""
  return [tr.q(x / total, 1e6, 10**8) for x in r] if total > TINY else [333333] * len(r)


def logs(r):
  return [tr.q(np.log(x), 1e4) if x > 0 else -tr.LIM for x in r]


class Run:

  def __init__(self, t, rng):
    self.t, self.rng = t, rng

  def do(self, e, f, **kw):
    rec = dict(kw, raised=False)
    try:
      out = f()
    except Exception as x:  # pylint: disable=broad-except
      rec.update(raised=True, error=f'{type(x).__name__}: {x}'[:200])
      out = None
    self.t.ev(e, case=self.case, **rec)
    return out

  def make(self):
    self.key = int(self.rng.integers(10**6))
    return lr.LearnedTransitionRatePredictor(init_key=jax.random.PRNGKey(self.key), config=self.cfg)

  def data(self):
    rng = self.rng
    n = 40
    k = int(self.cfg.use_voltage) + int(self.cfg.use_current)
    ctx = np.stack([rng.uniform(.05, .6, n) if i == 0 and self.cfg.use_current else rng.uniform(.5, 1.5, n) for i in range(k)], -1) if k else np.zeros((n, 0))
    return dict(next_state=jnp.asarray(rng.integers(0, 4, n)), position=jnp.asarray(rng.normal(size=(n, 2)), jnp.float32),
                dt=jnp.asarray(rng.uniform(.5, 3, n), jnp.float32), rates=jnp.zeros((n, 3)), context=jnp.asarray(ctx, jnp.float32))

  def probes(self):
    """Scenes: three neighbours all around the silicon, and a beam near one."""
    out = []
    for k in range(4):
      while True:
        a = self.rng.uniform(-np.pi, np.pi)
        n = np.stack([BOND * np.array([np.cos(a + i * 2 * np.pi / 3), np.sin(a + i * 2 * np.pi / 3)]) for i in range(3)])
        n = n * self.rng.uniform(.85, 1.15, (3, 1)) + self.rng.uniform(-.05, .05, (3, 2))
        r, b = self.rng.uniform(.2, 3.), self.rng.uniform(-np.pi, np.pi)
        beam = r * np.array([np.cos(b), np.sin(b)])
        d = np.linalg.norm(n - beam, axis=1)
        if np.diff(np.sort(d))[0] < .08:
          continue
        # Sometimes the nearest is not the one whose direction is closest.
        near = [np.argmin(d), np.argmin(np.linalg.norm(n - beam / BOND, axis=1)), np.argmax(n @ beam / np.linalg.norm(n, axis=1))]
        if k or len(set(near)) > 1:
          break
      out.append((n, beam, round(float(self.rng.uniform(.05, .5)), 3), round(float(self.rng.uniform(.5, 1.5)), 2)))
    return out

  def ask(self, obj, L, fixed):
    rng, cfg = self.rng, self.cfg
    k = int(rng.integers(len(self.probe)))
    n, beam, na, kv = self.probe[k]
    explicit = bool(k % 2)
    if not explicit:
      na, kv = .1, 60.
    a = rng.uniform(-np.pi, np.pi) if rng.integers(3) else 0.
    perm = rng.permutation(3)
    off = rng.uniform(-20, 20, 2)
    extra = int(rng.integers(0, 6))
    pos = np.concatenate([rot(n, a) + off, [off], off + rng.uniform(3, 6, (extra, 2))])
    order = rng.permutation(len(pos))
    pos = pos[order]
    z = np.where(order == 3, 14, 6)
    where = [int(np.flatnonzero(order == i)[0]) for i in range(3)]
    idx = np.array([where[i] for i in perm])
    b = rot(beam, a) + off
    grid = mu.AtomicGridMaterialFrame(mu.AtomicGrid(pos.copy(), z.copy()))
    # The input the ensemble should be given.
    f = int(np.argmin(np.linalg.norm(n - beam, axis=1)))
    c = rot(beam, -np.arctan2(n[f][1], n[f][0]))
    pre = fixed if fixed is not None else ([na] if cfg.use_current else []) + ([kv] if cfg.use_voltage else [])
    ctx = np.concatenate([pre, c]).astype(np.float32)
    rec = dict(obj=obj, probe=k, n=[tr.p4(rot(n[i], a)) for i in perm], lab=[int(i) + 1 for i in perm], beam=tr.p4(rot(beam, a)),
               na=tr.a4(na), kv=tr.a4(kv), explicit=explicit, cfg=dict(current=bool(cfg.use_current), voltage=bool(cfg.use_voltage)),
               ctx=[tr.a4(x) for x in pre] + [tr.a4(x) for x in c], raised=False, kept=True, got=[], net=[], tot=0)
    try:
      kw = dict(voltage_kv=kv, current_na=na) if explicit else {}
      got = np.asarray(L.predict(grid, geometry.PointMaterialFrame(geometry.Point(b)), off.copy(), idx.copy(), **kw), float)
      net = np.asarray(L.apply_model(ctx[None]), float)[0]
      s = net.sum()
      rec.update(got=rel(got, s), net=rel(net, s), tot=tr.q(np.log(s), 1e4) if s > TINY else -1000000,
                 kept=bool(np.array_equal(grid.atom_positions, pos) and np.array_equal(grid.atomic_numbers, z)))
    except Exception as x:  # pylint: disable=broad-except
      rec.update(raised=True, error=f'{type(x).__name__}: {x}'[:200])
    self.t.ev('Predict', case=self.case, **rec)
    return ctx

  def net(self, L, ctx):
    rec = dict(raised=False, models=0, raw=[], rel=[], lg=[], tw=[], ens=[])
    try:
      x = jnp.asarray(ctx[None])
      m = jax.tree_util.tree_leaves(L.params)[0].shape[0]
      key = jax.random.PRNGKey(0)
      raws, rates = [], []
      for i in range(m):
        pick = lambda v, i=i: jax.tree_util.tree_map(lambda a: a[i], v)
        raw, _ = L.apply_fn(pick(L.params), pick(L.state), key, x, False)
        raws.append(np.asarray(raw, float)[0])
        rates.append(np.asarray(L.apply_model(x, key, i), float)[0])
      tot = np.array([r[3] for r in raws])
      ens = np.asarray(L.apply_model(x), float)[0]
      if tot.min() < TINY or np.max(raws) > 3000:
        return
      rec.update(models=m, raw=[[tr.a4(v) for v in r] for r in raws], rel=[rel(r, t) for r, t in zip(rates, tot)],
                 lg=[logs(r / t) for r, t in zip(rates, tot)], tw=[tr.q(t / tot.sum(), 1e4) for t in tot], ens=rel(ens, tot.sum() / m))
    except Exception as e:  # pylint: disable=broad-except
      rec.update(raised=True, error=f'{type(e).__name__}: {e}'[:200])
    self.t.ev('Net', case=self.case, **rec)

  def history(self, case, ops, c):
    rng, t = self.rng, self.t
    self.case = case
    base = dict(lr.rate_learning_defaults.to_dict(), num_models=[2, 1, 3][c % 3], epochs=1, batch_size=8, hidden_dimensions=(6,),
                use_voltage=bool(c % 4 in (0, 1)), use_current=bool(c % 4 in (0, 2)), batchnorm=bool(c % 5), dropout_rate=.3 if c % 6 == 5 else 0.)
    self.cfg = config_dict.FrozenConfigDict(base)
    t.ev('New', case=case)
    self.probe = self.probes()
    root = tempfile.mkdtemp(prefix='vt_learned_')
    fixed, disk, objs = {}, {}, {}
    for o in 'AB':
      objs[o] = self.do('Fresh', self.make, obj=o)
      fixed[o] = None
    try:
      for op in ops:
        who = 'A'
        # Two steps share a folder.
        path = os.path.join(root, 'x', str(int(op[1:]) // 2)) if len(op) > 1 else ''
        step = dict(step=7 * (int(op[1:]) % 2)) if len(op) > 1 and op[1:] != '0' else {}
        if op == 'T':
          self.do('Train', lambda: objs['A'].train(self.data(), jax.random.PRNGKey(int(rng.integers(10**6))), bootstrap=bool(c % 2)), obj='A')
          fixed['A'] = None
        elif op == 'D':
          d = self.data()
          self.do('Distill', lambda: objs['A'].distill(d, config_dict.FrozenConfigDict(dict(batch_size=8, epochs=1, batches_per_epoch=1))), obj='A')
          fixed['A'] = None
        elif op[0] in 'SF':
          fx = None
          k = int(self.cfg.use_voltage) + int(self.cfg.use_current)
          if op[0] == 'F' and k:
            fx = np.array(([.2] if self.cfg.use_current else []) + ([1.1] if self.cfg.use_voltage else []), np.float32)
          fl = [tr.a4(round(float(v), 3)) for v in fx] if fx is not None else []
          self.do('Save', lambda: objs['A'].save(path, fixed_context=fx, **step), obj='A', dir=op[1:], fixed=fl)
          fixed['A'] = None if fx is None else [round(float(v), 3) for v in fx]
          disk[op[1:]] = fixed['A']
          # What was exported, on its own.
          c2 = rng.normal(size=2).astype(np.float32)
          pre = fixed['A'] if fx is not None else [.3, .7][:k]
          full = np.concatenate([pre, c2]).astype(np.float32)[None]
          rec = dict(dir=op[1:], fixed=fl, got=[], net=[])

          def export():
            m = tf.saved_model.load(path)
            net = np.asarray(objs['A'].apply_model(full), float)[0]
            got = np.asarray(m(c2[None] if fx is not None else full), float)[0]
            rec.update(got=rel(got, net.sum()), net=rel(net, net.sum()))

          raised = False
          try:
            export()
          except Exception as e:  # pylint: disable=broad-except
            raised = True
            rec['error'] = f'{type(e).__name__}: {e}'[:200]
          t.ev('Export', case=case, raised=raised, **rec)
        elif op[0] == 'L':
          who = 'B'
          self.do('Load', lambda: objs['B'].load(path, **step), obj='B', dir=op[1:])
          if op[1:] in disk:
            fixed['B'] = disk[op[1:]]
        for o in ('A', 'B') if rng.integers(2) else who:
          ctx = self.ask(o, objs[o], fixed[o])
          if rng.integers(3) == 0:
            self.net(objs[o], ctx)
    finally:
      shutil.rmtree(root)


def run(t):
  s, n = tr.shard()
  rng = np.random.default_rng([tr.seed(), 27, s])
  p = tr.params()
  r = Run(t, rng)
  sch = tr.schedules()
  must = [['S0', 'L0', 'D', 'L0', 'S1', 'L1'], ['T', 'S0', 'L0', 'F0', 'L0', 'T'], ['F1', 'L1', 'D', 'F1', 'L1'], ['L0', 'T', 'S1', 'L1', 'D', 'S1', 'L1'],
          ['D', 'D', 'F0', 'T', 'L0'],
          ['S0', 'D', 'S1', 'L0', 'L1', 'L0'], ['F1', 'T', 'S0', 'L1', 'L0'], ['S1', 'L0', 'T', 'F0', 'L1', 'T', 'S2', 'L0', 'L3', 'L2']]
  for k in range(s, len(must), n):
    r.history(f'planned {k}', must[k], k)
  for k, j in enumerate(rng.permutation(len(sch))[:p['n']]):
    h = sch[j]['h']
    r.history(f'history {s} {k} ' + ' '.join(h), h, k * n + s + 1)


if __name__ == '__main__':
  tr.main(run)
