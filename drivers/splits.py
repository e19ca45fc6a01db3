"""Splits of data sets, for configurations enumerated by TLC."""
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import jax
import jax.numpy as jnp
import numpy as np
import tr

from putting_dune.rate_learning import data_utils
from putting_dune.rate_learning import learn_rates


def data(n, as_jnp, column=False):
  i = np.arange(n)
  a = i * 2.4
  d = dict(next_state=(i % 4).astype(np.int32), dt=i.astype(np.float32),
           rates=i[:, None] + np.array([[.1, .2, .3]], np.float32),
           position=((i + 1.)[:, None] * np.stack([np.cos(a), np.sin(a)], -1)).astype(np.float32),
           context=np.stack([i, 1000. - i], -1).astype(np.float32))
  if column:
    d['next_state'], d['dt'] = d['next_state'][:, None], d['dt'][:, None]
  return {k: jnp.asarray(v) for k, v in d.items()} if as_jnp else d


def rows(d, cols=None):
  """The identity carried by each field."""
  out = []
  d = {k: np.asarray(v) for k, v in d.items()}
  for i in range(len(d['dt'])):
    dt = int(round(float(d['dt'][i].reshape(-1)[0])))
    c = d['context'][i]
    pos = d['position'][i] if 'position' in d else c[2:]
    st = int(d['next_state'][i].reshape(-1)[0])
    out.append([dt, int(round(float(c[0]))), int(round(1000 - float(c[1]))), int(np.floor(float(np.min(d['rates'][i])))),
                int(np.floor(float(np.max(d['rates'][i])))), int(round(float(np.hypot(*pos)))) - 1,
                dt if (st == 0) == (dt % 4 == 0) and 0 <= st <= 3 else -1])
  return out


def eq(a, b):
  return set(a) == set(b) and all(np.array_equal(np.asarray(a[k]), np.asarray(b[k])) for k in a)


def once(t, case, n, how, num, den, seed, as_jnp):
  d = data(n, as_jnp)
  before = {k: np.array(v) for k, v in d.items()}
  raised, a, b, again = False, [], [], True
  try:
    key = jax.random.PRNGKey(seed)
    fn = ((lambda k: data_utils.bootstrap_dataset(d, k)) if how == 'boot'
          else (lambda k: data_utils.split_dataset(d, k, num / den)))
    x, y = fn(key)
    x2, y2 = fn(key)
    again = eq(x, x2) and eq(y, y2)
    a, b = rows(x), rows(y)
    if n >= 8 and (how == 'boot' or num):
      again = again and not eq(x, fn(jax.random.PRNGKey(seed + 1))[0])
  except Exception as e:  # pylint: disable=broad-except
    print(case, repr(e))
    raised = True
  t.ev('Boot' if how == 'boot' else 'Split', case=case, n=n, num=num, den=den, train=a, test=b, raised=raised,
       again=bool(again), kept=eq(d, before))


def many(t, case, n, how, num, den, augment, splits, seed):
  d = data(n, True)
  frac = 0. if how == 'none' else num / den
  raised, trs, tes, again = False, [], [], True
  try:
    def fn(s):
      return learn_rates.create_dataset_splits(d, splits, jax.random.PRNGKey(s), bootstrap=how == 'boot',
                                               augment_data=augment, test_fraction=frac)
    x, y = fn(seed)
    x2, y2 = fn(seed)
    again = eq(x, x2) and eq(y, y2)
    trs = [rows({k: v[i] for k, v in x.items()}) for i in range(len(x['dt']))]
    tes = [rows({k: v[i] for k, v in y.items()}) for i in range(len(y['dt']))]
  except Exception as e:  # pylint: disable=broad-except
    print(case, repr(e))
    raised = True
  t.ev('Many', case=case, n=n, how=how, num=num, den=den, augment=augment, group=6, splits=splits, trains=trs, tests=tes,
       raised=raised, again=bool(again))


def fair(t, how, n, keys, num, den, rng):
  cnt = np.zeros(n, int)
  d = dict(x=np.arange(n))
  for _ in range(keys):
    k = jax.random.PRNGKey(int(rng.integers(2**31)))
    _, te = data_utils.bootstrap_dataset(d, k) if how == 'boot' else data_utils.split_dataset(d, k, num / den)
    for x in np.asarray(te['x']).astype(int):
      cnt[x] += 1
  p = (1 - 1 / n)**n if how == 'boot' else ((n * num) // den) / n
  t.ev('Fair', case=f'fair {how}', cnt=[int(c) for c in cnt], keys=keys, p1000=int(round(1000 * p)))


def run(t):
  s, n = tr.shard()
  rng = np.random.default_rng([tr.seed(), 18, s])
  reps = tr.params()['reps']
  for i, x in enumerate(tr.schedules()):
    if i % n != s:
      continue
    case = f"splits {x['n']} {x['how']} {x['num']}/4 {x['augment']}"
    t.ev('New', case=case)
    for _ in range(reps):
      once(t, case, x['n'], x['how'], x['num'], 4, int(rng.integers(10**6)), bool(rng.integers(2)))
    how = 'none' if x['how'] == 'split' and x['num'] == 0 else x['how']
    many(t, case, x['n'], how, x['num'], 4, x['augment'], int(rng.integers(1, 4)), int(rng.integers(10**6)))
  for k in range(reps):
    t.ev('New', case='larger')
    m = int(rng.integers(8, 30))
    once(t, 'larger', m, 'boot', 0, 4, int(rng.integers(10**6)), True)
    once(t, 'larger', m, 'split', int(rng.integers(1, 8)), 8, int(rng.integers(10**6)), False)
    if k < 3:
      many(t, 'larger', 12, 'boot', 0, 4, True, 3, int(rng.integers(10**6)))
      many(t, 'larger', 12, 'split', 3, 8, bool(k % 2), 3, int(rng.integers(10**6)))
  fair(t, ('boot', 'split')[s % 2], 5, 150, 2, 5, rng)


if __name__ == '__main__':
  tr.main(run)
