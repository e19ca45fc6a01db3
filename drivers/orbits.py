"""Augmentation and synthetic data of the rate learner."""
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import jax.numpy as jnp
import numpy as np
import tr

from putting_dune import constants
from putting_dune.rate_learning import data_utils


def rates_rec(r):
  return [tr.q(x, 1e6, 10**8) for x in np.asarray(r).reshape(-1)]


def row(d, i):
  ctx = d.get('context')
  return dict(pos=tr.p4(np.asarray(d['position'])[i]), rates=rates_rec(np.asarray(d['rates'])[i]),
              state=int(np.asarray(d['next_state'])[i].reshape(-1)[0]), dt=tr.q(np.asarray(d['dt'])[i].reshape(-1)[0], 1e3),
              ctx=[] if ctx is None else [tr.u6(x) for x in np.asarray(ctx)[i]])


def rows(d):
  return [row(d, i) for i in range(len(d['next_state']))]


def augment(t, case, data, reflect, n, column):
  before = rows(data)
  raised, out = False, []
  try:
    out = rows(data_utils.augment_data(**data, reflect=reflect, num_states=n))
  except Exception:  # pylint: disable=broad-except
    raised = True
  t.ev('Augment', case=case, n=n, reflect=reflect, column=column, raised=raised, kept=rows(data) == before,
       **{'in': before}, out=out)


def dataset(rng, items, n, column, ctx, as_jnp):
  """items: (kind of position, state)."""
  pos = []
  for kind, _ in items:
    if kind == 'axis':
      # On a symmetry axis (in the first half turn, through or between neighbours).
      pos.append([float(rng.choice([-1, 1])) * rng.uniform(.2, 3), 0.])
    else:
      r = rng.uniform(.2, 2) if kind == 'generic' else rng.uniform(4, 12)
      a = rng.uniform(0, 2 * np.pi)
      pos.append([r * np.cos(a), r * np.sin(a)])
  m = len(items)
  # Rates of one example differ pairwise.
  rates = np.stack([(rng.permutation(n) + 1) / 10. + rng.uniform(0, .05, n) for _ in range(m)])
  st = np.array([s for _, s in items], np.int32)
  dt = (np.arange(m) + 1) / 8. + int(rng.integers(4))
  if column:
    st, dt = st[:, None], dt[:, None]
  d = dict(next_state=st, dt=dt.astype(np.float32), rates=rates.astype(np.float32), position=np.array(pos, np.float32),
           context=rng.integers(0, 64, size=(m, int(rng.integers(1, 3)))).astype(np.float32) / 8 if ctx else None)
  if as_jnp:
    d = {k: None if v is None else jnp.asarray(v) for k, v in d.items()}
  return d


def replay(t, rng, items):
  case = 'orbits ' + ' '.join(f'{k}{s}' for k, s in items)
  t.ev('New', case=case)
  column, ctx, as_jnp = rng.random() < .5, rng.random() < .8, rng.random() < .5
  for reflect in (True, False):
    augment(t, case, dataset(rng, items, 3, column, ctx, as_jnp), reflect, 3, bool(column))
  if rng.random() < .1:
    n = int(rng.choice([4, 6]))
    augment(t, case, dataset(rng, items, n, column, ctx, as_jnp), False, n, bool(column))


def prior(pos, k, n=3):
  a = -2 * np.pi * k / n
  c, s = np.cos(a), np.sin(a)
  q = np.array([c * pos[0] - s * pos[1], s * pos[0] + c * pos[1]])
  d = q - constants.SIGR_PRIOR_RATE_MEAN
  return float(constants.SIGR_PRIOR_MAX_RATE * np.exp(-.5 * d @ np.linalg.inv(constants.SIGR_PRIOR_RATE_COV) @ d))


def synthetic(t, rng, seed, n):
  rg = (float(rng.integers(0, 3)), float(rng.integers(4, 40)))
  case = f'synthetic {seed}'
  raised, rws, again = False, [], True
  try:
    pair = data_utils.generate_synthetic_data(n, data_seed=seed, actual_time_range=rg, mode=data_utils.SyntheticDataType.PRIOR)
    pair2 = data_utils.generate_synthetic_data(n, data_seed=seed, actual_time_range=rg, mode=data_utils.SyntheticDataType.PRIOR)
    again = all(np.array_equal(a[k], b[k]) for a, b in zip(pair, pair2) for k in a)
    other, _ = data_utils.generate_synthetic_data(n, data_seed=seed + 1, actual_time_range=rg)
    again = again and not np.array_equal(other['position'], pair[0]['position'])
    # Test data is not the training data.
    again = again and not np.array_equal(pair[1]['position'], pair[0]['position'])
  except Exception:  # pylint: disable=broad-except
    raised = True
  if raised:
    t.ev('Synthetic', case=case, raised=True, rows=[], n=3, range=[0, 0], again=True)
    return
  for d in pair:
    exp, var, cnt = np.zeros(4), np.zeros(4), np.zeros(4, int)
    for i, x in enumerate(rows(d)):
      p = np.asarray(d['position'][i], float)
      x['prior'] = [tr.q(prior(p, k), 1e6) for k in range(3)]
      x['big'] = max(x['prior']) // 20000
      if i < 40:
        rws.append(x)
      r = np.array([prior(p, k) for k in range(3)])
      tot = r.sum()
      go = 1 - np.exp(-tot * float(np.asarray(d['dt'][i]).reshape(-1)[0]))
      pk = np.concatenate([[1 - go], go * r / tot])
      exp += pk
      var += pk * (1 - pk)
      cnt[x['state']] += 1
    t.ev('Synthetic', case=case, raised=False, rows=rws, n=3, range=[int(rg[0] * 1000), int(rg[1] * 1000)], again=bool(again))
    t.ev('States', case=case, cnt=[int(x) for x in cnt], exp10=[int(round(10 * x)) for x in exp],
         var=[int(np.ceil(x)) for x in var])
    # State and rates belong together: the state shifted to the largest rate.
    e2, v2, c2 = np.zeros(3), np.zeros(3), np.zeros(3, int)
    for i in range(len(d['next_state'])):
      s = int(np.asarray(d['next_state'][i]).reshape(-1)[0])
      if s:
        r = np.array([prior(np.asarray(d['position'][i], float), k) for k in range(3)])
        o = np.argsort(-r)
        pk = r[o] / r.sum()
        e2 += pk
        v2 += pk * (1 - pk)
        c2[int(np.where(o == s - 1)[0][0])] += 1
    t.ev('States', case=case, cnt=[int(x) for x in c2], exp10=[int(round(10 * x)) for x in e2],
         var=[int(np.ceil(x)) for x in v2])


def many(t, rng, n):
  """The law of the next state, counted over many synthetic examples."""
  seed = int(rng.integers(10**6))
  for d in data_utils.generate_synthetic_data(n, data_seed=seed, actual_time_range=(0., 30.)):
    pos = np.asarray(d['position'], float)
    a = -2 * np.pi * np.arange(3) / 3
    q = np.stack([np.cos(a)[:, None] * pos[:, 0] - np.sin(a)[:, None] * pos[:, 1],
                  np.sin(a)[:, None] * pos[:, 0] + np.cos(a)[:, None] * pos[:, 1]], -1) - constants.SIGR_PRIOR_RATE_MEAN
    r = constants.SIGR_PRIOR_MAX_RATE * np.exp(
        -.5 * np.einsum('kni,ij,knj->kn', q, np.linalg.inv(constants.SIGR_PRIOR_RATE_COV), q))
    state = np.asarray(d['next_state']).reshape(-1)
    times = np.asarray(d['dt'], float).reshape(-1)
    tot = r.sum(0)
    go = 1 - np.exp(-tot * times)
    pk = np.concatenate([(1 - go)[None], go * r / tot])
    cnt = np.array([(state == k).sum() for k in range(4)])
    t.ev('States', case=f'many synthetic {seed}', cnt=[int(x) for x in cnt],
         exp10=[int(round(10 * x)) for x in pk.sum(1)], var=[int(np.ceil(x)) for x in (pk * (1 - pk)).sum(1)])
    # The window is uniform over the range asked for.
    w = np.histogram(times, bins=np.linspace(0, 30, 11))[0]
    t.ev('States', case=f'windows {seed}', cnt=[int(x) for x in w], exp10=[n] * 10, var=[n * 9 // 100 + 1] * 10)


def run(t):
  s, n = tr.shard()
  rng = np.random.default_rng([tr.seed(), 17, s])
  for i, x in enumerate(tr.schedules()):
    if i % n == s:
      replay(t, rng, [(h[:-1], int(h[-1])) for h in x['h']])
  if s == 0:
    t.ev('New', case='many')
    many(t, rng, tr.params().get('many', 60000))
  for i in range(tr.params()['reps']):
    t.ev('New', case='synthetic')
    synthetic(t, rng, int(rng.integers(10**6)), 400)


if __name__ == '__main__':
  tr.main(run)
