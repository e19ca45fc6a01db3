"""Losses, epochs, training runs and distillations of rate networks whose
outputs are known multiples of ln 2."""
import os
import sys

os.environ.setdefault('TF_CPP_MIN_LOG_LEVEL', '3')
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import tr

import functools
import jax
from jax import numpy as jnp
from ml_collections import config_dict
import numpy as np
import optax

from putting_dune.rate_learning import learn_rates as lr

LN2 = float(np.log(2))


@functools.lru_cache(None)
def network(k, noise, mode='train'):
  """Outputs: what the context says plus the parameters, in units of ln 2.

  mode train: context is (id, logits, total rate); the state notes the ids.
  mode distill: logits are parameters, the total rate also has a step at the
  mean (in the state); the state notes the context.
  """

  def apply_fn(params, state, key, x, is_training):
    del key
    th = params['th']
    n = x.shape[0]
    shift = jnp.zeros(k).at[0].set(1. if noise and is_training else 0.)
    if mode == 'train':
      logits = x[:, 1:k + 1] + th[:k] + shift
      total = x[:, k + 1:] + th[k:]
      mark = x[:, 0]
    else:
      logits = jnp.zeros((n, k)) + th[:k] + shift
      total = th[k:] + 2 * (x[:, :1] > state['mean'])
      mark = x
    if is_training:
      start = (state['n'],) + (0,) * (mark.ndim - 1)
      state = dict(state, n=state['n'] + n, seen=jax.lax.dynamic_update_slice(state['seen'], mark, start))
    return jnp.concatenate([logits, total], -1) * LN2, state

  return apply_fn


@functools.lru_cache(None)
def optimizer(moves):
  """Notes the gradients and parameters it is given, and moves as told."""
  m = jnp.asarray(moves, jnp.float32)

  def init(params):
    z = jnp.zeros_like(m)
    return dict(k=jnp.zeros((), jnp.int32), grads=z, at=z) if params is not None else None

  def update(g, st, params=None):
    k = st['k']
    new = dict(k=k + 1, grads=st['grads'].at[k].set(g['th']), at=st['at'].at[k].set(params['th']))
    return {'th': m[k]}, new

  return optax.GradientTransformation(init, update)


def ints(a, scale=1):
  return [tr.q(v, scale) for v in np.asarray(a, float).reshape(-1)]


def mat(a, scale=1):
  return [ints(r, scale) for r in np.asarray(a, float)]


class Run:

  def __init__(self, t, rng):
    self.t, self.rng = t, rng
    self.inits = 0

  def rows(self, n, k, hard=False):
    rng = self.rng
    out = []
    for _ in range(n):
      s = int(rng.integers(0, k + 1)) if rng.integers(3) else 0
      out.append(dict(a=[int(v) for v in rng.integers(0, 3, k)], R=int(2 * rng.integers(2, 4)),
                      t=int(rng.integers(0 if s == 0 or (hard and rng.integers(4) == 0) else 1, 9)), s=s))
    return out

  def arrays(self, rows, column):
    c = np.array([[i + 1, *r['a'], r['R']] for i, r in enumerate(rows)], np.float32)
    d = dict(next_state=jnp.asarray([r['s'] for r in rows], jnp.int32), dt=jnp.asarray([r['t'] / 2 for r in rows], jnp.float32),
             rates=jnp.zeros((len(rows), len(rows[0]['a']))), context=jnp.asarray(c))
    if column:
      d['next_state'], d['dt'] = d['next_state'][:, None], d['dt'][:, None]
    return d

  def moves(self, th0, steps):
    """Small steps that keep the parameters in [-1, 1], the last in {-2, 0, 2}."""
    out, th = [], list(th0)
    for _ in range(steps):
      m = []
      for j in range(len(th)):
        u = 2 if j == len(th) - 1 else 1
        m.append(int(self.rng.choice([v for v in (-u, 0, u) if abs(th[j] + v) <= u])))
      th = [a + b for a, b in zip(th, m)]
      out.append(m)
    return out

  def theta(self, k):
    return [int(v) for v in self.rng.integers(-1, 2, k)] + [int(2 * self.rng.integers(-1, 2))]

  def loss(self, case, op):
    rng = self.rng
    k = op['k']
    rows = self.rows(op['n'], k, True)
    th = self.theta(k)
    cw, rw = (10, 10) if not op['weighted'] else (int(rng.integers(0, 30)), int(rng.integers(1, 30)))
    noise = bool(rng.integers(2))
    rec = dict(rows=rows, th=th, cw=cw, rw=rw, noise=noise, column=op['column'], raised=False, loss=0, cl=[], rl=[], rates=[], state=0)
    try:
      d = self.arrays(rows, op['column'])
      st = dict(n=jnp.zeros((), jnp.int32), seen=jnp.zeros(len(rows)))
      kw = {} if cw == rw == 10 and rng.integers(2) else dict(class_loss_weight=cw / 10, rate_loss_weight=rw / 10)
      loss, (st2, rates, rl, cl) = lr.batched_loss_fn(
          {'th': jnp.asarray(th, jnp.float32)}, st, network(k, True), d['next_state'], d['dt'], d['next_state'] != 0, d['context'],
          jax.random.PRNGKey(0), is_training=noise, **kw)
      rec.update(loss=tr.q(loss, 1e5), cl=ints(cl, 1e5), rl=ints(rl, 1e5), rates=mat(rates, 1e4),
                 state=int(ints(st2['seen']) == (list(range(1, len(rows) + 1)) if noise else [0] * len(rows))))
    except Exception as e:  # pylint: disable=broad-except
      rec.update(raised=True, error=f'{type(e).__name__}: {e}'[:200])
    self.t.ev('Loss', case=case, **rec)

  def fit(self, case, op):
    rng = self.rng
    k, n, kind = op['k'], op['n'], op['kind']
    epochs = 1 if kind == 'epoch' else op['epochs']
    models = op['models'] if kind == 'models' else 1
    bs = op['bs']
    steps = epochs * (n // min(bs, n))
    noise = bool(rng.integers(2))
    cw, rw = (10, 10) if not op['weighted'] else (int(rng.integers(1, 30)), int(rng.integers(1, 30)))
    th0 = self.theta(k)
    # Random initial parameters: moves that are safe from anywhere.
    moves = self.moves(th0, steps) if kind != 'models' else [[0] * (k + 1)] * steps
    if kind == 'models':
      th0 = [0] * (k + 1)
      moves = self.moves(th0, steps)
    sets = [self.rows(n, k) for _ in range(models)]
    tests = [self.rows(int(rng.integers(1, 6)), k)] * 1
    tests = [self.rows(len(tests[0]), k) for _ in range(models)]
    optim = optimizer(tuple(map(tuple, moves)))
    fn = network(k, noise)
    args = config_dict.FrozenConfigDict(dict(lr.rate_learning_defaults.to_dict(), batch_size=bs, epochs=epochs, num_models=models,
                                             class_loss_weight=cw / 10, rate_loss_weight=rw / 10))
    key = jax.random.PRNGKey(int(rng.integers(10**6)))
    state0 = dict(n=jnp.zeros((), jnp.int32), seen=jnp.zeros(max(1, steps * min(bs, n))), key=jnp.zeros(2, jnp.uint32))
    recs = [dict(rows=sets[m], tests=tests[m], bs=bs, epochs=epochs, moves=moves, th0=th0, cw=cw, rw=rw, noise=noise, column=op['column'],
                 model=kind != 'epoch', init=0, raised=False, again=True, seen=[], at=[], grads=[], th=[], met={}) for m in range(models)]

    def go():
      params = {'th': jnp.asarray(th0, jnp.float32)}
      data = [self.arrays(s, op['column']) for s in sets]
      test = [self.arrays(s, op['column']) for s in tests]
      if kind == 'epoch':
        p, s, o, _ = lr.train_epoch(params, state0, optim.init(params), optim, fn, bs, key, data[0], args)
        return [(p, s, o, {})]
      if kind == 'model':
        p, s, o, m = lr.train_model(data[0], test[0], key, params, state0, optim.init(params), fn, optim, args)
        return [(p, s, o, m)]

      def init_fn(key, x):
        assert x.shape[0] == 1 and x.shape[1] == k + 2
        return {'th': jnp.zeros(k + 1)}, dict(state0, key=jnp.asarray(key))

      stack = lambda ds: {f: jnp.stack([d[f] for d in ds]) for f in ds[0]}
      out = lr.train_multiple_models(stack(data), stack(test), key, models, optim, fn, init_fn, args)
      return [jax.tree_util.tree_map(lambda a, i=i: a[i], out) for i in range(models)]

    try:
      runs = go()
      twice = go() if op['again'] else runs
      for rec, (p, s, o, m), other in zip(recs, runs, twice):
        same = all(np.array_equal(a, b) for a, b in zip(jax.tree_util.tree_leaves((p, s, o, m)), jax.tree_util.tree_leaves(other)))
        rec.update(seen=ints(s['seen']), at=mat(o['at']), grads=mat(np.asarray(o['grads']) / LN2, 1e5), th=ints(p['th']),
                   met={a: ints(b, 1e5) for a, b in m.items()}, again=bool(same))
        if int(s['n']) != len(rec['seen']) or int(o['k']) != len(rec['at']):
          rec['seen'] = rec['seen'] + [0]
        if kind == 'models':
          rec['init'] = int(np.asarray(s['key'], np.uint64).sum() % 10**9) + 1
    except Exception as e:  # pylint: disable=broad-except
      for rec in recs:
        rec.update(raised=True, error=f'{type(e).__name__}: {e}'[:300])
    for rec in recs:
      self.t.ev('Fit', case=case, **rec)

  def distill(self, case, op):
    rng = self.rng
    k, kind, n = op['k'], op['kind'], op['n']
    per = 1 if kind == 'loss' else op['batches']
    epochs = op['epochs'] if kind == 'many' else 1
    steps = per * epochs
    noise = bool(rng.integers(2))
    base = lambda: [int(v) for v in rng.integers(-1, 2, k)] + [int(2 * rng.integers(1, 3))]
    teach = [base() for _ in range(op['models'])]
    th0 = base()
    if op['same']:
      noise, th0, teach = False, list(teach[0]), [teach[0]] * len(teach)
    moves = [[int(rng.integers(0, 2)) if i % 2 == 0 else 0 for _ in range(k)] + [int(2 * rng.integers(0, 2)) if i == 1 else 0] for i in range(steps)]
    # Keep exponents low.
    moves = [m if i < 2 else [0] * (k + 1) for i, m in enumerate(moves)]
    dim = 2
    mean = np.array([rng.integers(-20, 20), rng.integers(-20, 20)]) / 10
    scale = np.array([rng.integers(1, 30), 0 if rng.integers(2) else rng.integers(1, 30)]) / 10
    rec = dict(kind=kind, teach=teach, th0=th0, moves=moves, n=n, mean=ints(mean, 1e5), scale=ints(scale, 1e5), noise=noise, steps=steps,
               per=per, raised=False, pts=[], loss=[], th=th0, stepped=kind != 'loss')
    try:
      fn = network(k, noise, 'distill')
      state0 = dict(n=jnp.zeros((), jnp.int32), seen=jnp.zeros((steps * n, dim)), mean=jnp.float32(np.float32(mean[0])))
      ens = {'th': jnp.asarray(teach, jnp.float32)}
      ens_state = jax.tree_util.tree_map(lambda a: jnp.stack([a] * len(teach)), state0)
      params = {'th': jnp.asarray(th0, jnp.float32)}
      key = jax.random.PRNGKey(int(rng.integers(10**6)))
      m, s = jnp.asarray(mean, jnp.float32), jnp.asarray(scale, jnp.float32)
      optim = optimizer(tuple(map(tuple, moves)))
      if kind == 'loss':
        loss, st = lr.distill_loss(params, state0, ens, ens_state, key, n, fn, m, s)
        losses = [loss]
      elif kind == 'epoch':
        params, st, _, _, loss = lr.distill_train_epoch(params, state0, ens, ens_state, optim.init(params), key, per, optim, n, fn, m, s)
        losses = [loss]
      else:
        params, st, _, met = lr.distill_multiple_models_to_single(
            key, optim, fn, lambda key, x: (dict(params), dict(state0)), ens, ens_state, batch_size=n, epochs=epochs, batches_per_epoch=per,
            data_mean=m, data_scale=s)
        losses = met['distill_loss']
      rec.update(pts=[[ints(p, 1e5) for p in b] for b in np.asarray(st['seen']).reshape(steps, n, dim)], loss=ints(losses, 1e4), th=ints(params['th']))
    except Exception as e:  # pylint: disable=broad-except
      rec.update(raised=True, error=f'{type(e).__name__}: {e}'[:300])
    self.t.ev('Distill', case=case, **rec)

  def real(self, case, op):
    rng = self.rng
    k, n = op['k'], 6
    bn, dropout = bool(op['batchnorm']), .4 if op['dropout'] else 0.
    rec = dict(k=k, batchnorm=bn, dropout=bool(op['dropout']), raised=False, all=[], one=[], other=[])
    init_fn, apply_fn = lr.get_mlp_fn((7, 5), k, batchnorm=bn, dropout_rate=dropout)
    x = jnp.asarray(rng.normal(size=(n, 4)), jnp.float32)
    keys = jax.random.split(jax.random.PRNGKey(int(rng.integers(10**6))), 5)
    try:
      p, s = init_fn(keys[0], x[:1])
      for i in range(3):
        _, s = apply_fn(p, s, keys[1], jnp.asarray(rng.normal(1, 2, size=(8, 4)), jnp.float32), True)
      a, _ = apply_fn(p, s, keys[2], x, False)
      b, _ = apply_fn(p, s, keys[3], x, False)
      one = [np.asarray(apply_fn(p, s, keys[4], x[i:i + 1], False)[0])[0] for i in range(n)]
      rec.update(all=mat(a, 1e4), one=mat(one, 1e4), other=mat(b, 1e4))
    except Exception as e:  # pylint: disable=broad-except
      rec.update(raised=True, error=f'{type(e).__name__}: {e}'[:300])
    self.t.ev('Eval', case=case, **rec)

  def learn(self, case):
    """Data with one thing to learn: where the beam is decides what happens."""
    rng = self.rng
    n = 64
    x = rng.normal(size=(n, 2)).astype(np.float32)
    s = np.where(x[:, 0] > 0, 1, 2)
    d = dict(next_state=jnp.asarray(s), dt=jnp.full(n, .5, jnp.float32), rates=jnp.zeros((n, 3)), context=jnp.asarray(x))
    rec = dict(raised=False, first=0, last=0)
    try:
      init_fn, apply_fn = lr.get_mlp_fn((16,), 3)
      key = jax.random.PRNGKey(int(rng.integers(10**6)))
      p, st = init_fn(key, d['context'][:1])
      optim = optax.adamw(1e-2, weight_decay=1e-4)
      args = config_dict.FrozenConfigDict(dict(lr.rate_learning_defaults.to_dict(), batch_size=16, epochs=40))
      _, _, _, m = lr.train_model(d, d, key, p, st, optim.init(p), apply_fn, optim, args)
      rec.update(first=tr.q(m['train_loss'][0], 1e5), last=tr.q(m['train_loss'][-1], 1e5))
    except Exception as e:  # pylint: disable=broad-except
      rec.update(raised=True, error=f'{type(e).__name__}: {e}'[:300])
    self.t.ev('Learn', case=case, **rec)


def run(t):
  s, _ = tr.shard()
  rng = np.random.default_rng([tr.seed(), 32, s])
  p = tr.params()
  r = Run(t, rng)
  sch = tr.schedules()
  for i in range(p['learn']):
    r.learn(f'learn {s} {i}')
  kinds = {}
  for h in sch:
    kinds.setdefault((h['op'], h['kind']), []).append(h)
  for (op, kind), hs in sorted(kinds.items()):
    num = p['n'].get(op, 0)
    for i, j in enumerate(rng.permutation(len(hs))[:num]):
      h = hs[j]
      case = f'{op} {kind} {s} {i} {j}'
      if op == 'loss':
        r.loss(case, h)
      elif op == 'fit':
        r.fit(case, h)
      elif op == 'distill':
        r.distill(case, h)
      else:
        r.real(case, h)
  t.ev('End')


if __name__ == '__main__':
  tr.main(run)
