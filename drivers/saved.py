"""Takes checkpoints of small networks, saves the best of them and loads what was saved."""
import datetime
import functools
import hashlib
import os
import shutil
import sys
import types
import warnings
import zipfile

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import own
import tr

warnings.simplefilter('ignore')
WORK = os.environ['VT_WORK']
MINE = own.copy_package(WORK)
import jax

# The installed orbax wants a newer jax than the installed one.
if not hasattr(jax, 'tree'):
  tu = jax.tree_util
  jax.tree = types.SimpleNamespace(map=tu.tree_map, leaves=tu.tree_leaves, flatten=tu.tree_flatten, unflatten=tu.tree_unflatten,
                                   structure=tu.tree_structure)
from etils import epath
import jax.numpy as jnp
import numpy as np
from orbax import checkpoint
import putting_dune
from putting_dune import alignment
from putting_dune import atom_detector
from putting_dune.atom_detection import model as detection_model
from putting_dune.atom_detection import save_model as detection_save
from putting_dune.image_alignment import model as alignment_model
from putting_dune.image_alignment import save_model as alignment_save

assert putting_dune.__file__.startswith(MINE), putting_dune.__file__

# Networks as deep as these would take minutes.
FULL = dict(detector=detection_model.UNet, aligner=alignment_model.GlobalLocalUNet)
detection_model.UNet = functools.partial(FULL['detector'], features=(4, 5))
alignment_model.GlobalLocalUNet = functools.partial(FULL['aligner'], features=(4, 5))


@functools.lru_cache(None)
def network(kind, final, seq, shape):
  if kind == 'detector':
    net = FULL['detector'](features=(4, 5))
  else:
    net = FULL['aligner'](features=(4, 5), local_output_size=3 if final else 3 * seq, global_output_size=2 if final else 2 * (seq - 1))
  return jax.jit(net.apply), net.init(jax.random.PRNGKey(0), jnp.zeros(shape))


class Run:
  count = 0

  def __init__(self, t, kind, rng, case, big=False):
    self.t, self.kind, self.rng, self.case = t, kind, rng, case
    # What is read of a checkpoint is remembered by its path.
    self.dir = os.path.join(WORK, f'saved_{Run.count}')
    Run.count += 1
    self.cks, self.out, self.cwd = (os.path.join(self.dir, d) for d in ('cks', 'out', 'cwd'))
    for d in (self.cks, self.out, self.cwd):
      os.makedirs(d)
    os.chdir(self.cwd)
    if kind == 'detector':
      self.final, self.seq = True, 1
      self.shape = (256, 256, 1) if big else (*[int(x) for x in rng.choice([8, 12, 16], 2)], 1)
    else:
      self.final, self.seq = bool(rng.random() < .6), int(rng.integers(2, 6))
      if big:
        self.final, self.seq = bool(rng.random() < .5), 2
      self.shape = (512, 512, 2) if big else (*[int(x) for x in rng.choice([8, 12, 16], 2)], self.seq)
    self.apply, self.base = network(kind, self.final, self.seq, self.shape)
    self.image = rng.random(self.shape).astype(np.float32)
    self.loads = big
    # Checkpoints of partitioned parameters hold them one level deeper.
    self.boxed = kind == 'aligner' and rng.random() < .4
    self.params, self.scores, self.files = {}, [], {1: 'a.zip', 2: 'b.zip', 3: None}
    self.boot()
    self.local = 3 if self.final else 3 * self.seq
    self.globl = 0 if kind == 'detector' else 2 if self.final else 2 * (self.seq - 1)
    t.ev('New', case=case, kind=kind, local=self.local, **{'global': self.globl})

  def boot(self):
    best = (lambda x: x['eval/accuracy']) if self.kind == 'detector' else (lambda x: -x['eval/loss'] - x['eval/drift_error'])
    self.mgr = checkpoint.CheckpointManager(
        self.cks, checkpointers=checkpoint.PyTreeCheckpointer(),
        options=checkpoint.CheckpointManagerOptions(best_fn=best, create=True))

  def checkpoint(self, final=False, better=None):
    v = len(self.params) + 1
    leaves, tree = jax.tree_util.tree_flatten(self.base)
    p = jax.tree_util.tree_unflatten(tree, [np.asarray(x) + self.rng.normal(size=x.shape).astype(np.float32) for x in leaves])
    self.params[v] = p
    if self.boxed:
      p = jax.tree_util.tree_map(lambda x: {'value': x}, p)
    item = {'step': v, 'params': p, 'opt_state': {}, 'metrics': {}}
    step = v - 1
    if final:
      self.mgr.save(step, item)
      self.mgr.wait_until_finished()
      self.t.ev('Final', case=self.case, ver=v)
      return
    while True:
      a, b = [int(x) for x in self.rng.integers(1, 990, 2)]
      # Loss and drift pull in different directions.
      score = a if self.kind == 'detector' else -(a + b)
      if all(abs(score - s) > 4 and (better is None or (score > s) == better) for s in self.scores):
        break
    self.scores.append(score)
    if self.kind == 'detector':
      m = {'eval/accuracy': a / 1000, 'eval/loss': b / 1000, 'train/accuracy': b / 1000}
    else:
      m = {'eval/loss': a / 1000, 'eval/drift_error': b / 1000, 'train/loss': b / 2000, 'eval/accuracy': .5}
    self.mgr.save(step, item, metrics=m)
    self.mgr.wait_until_finished()
    self.t.ev('Checkpoint', case=self.case, ver=v, score=score)

  def digest(self):
    h = hashlib.sha256()
    for d, ds, fs in os.walk(self.cks):
      ds.sort()
      if d == self.cks:
        ds[:] = [x for x in ds if x.isdigit()]
        fs = []  # the notes of whoever opened it
      for f in sorted(fs):
        h.update(os.path.join(d, f).encode() + open(os.path.join(d, f), 'rb').read())
    return h.hexdigest()

  def loader(self, path):
    """The loaded model, as the class that uses it."""
    if self.kind == 'detector':
      home = f'{MINE}/putting_dune/model_weights'
      if os.path.isdir(home):
        shutil.rmtree(home)
      return atom_detector.AtomDetector.from_url('file://' + path)
    home = os.path.join(self.dir, 'load')
    if os.path.isdir(home):
      shutil.rmtree(home)
    os.makedirs(home)
    x = alignment.ImageAligner.from_path(epath.Path(path), workdir=home)
    x.history_length = self.seq
    return x

  def version(self, path):
    """The version an archive holds, and the numbers of its outputs."""
    if not os.path.exists(path):
      return 0, 0, 0
    try:
      fn = self.loader(path).model.signatures['serving_default']
      (name,) = fn.structured_input_signature[1]
      out = fn(**{name: self.image})
    except Exception as e:  # pylint: disable=broad-except
      self.why = f'{type(e).__name__}: {e}'[:150]
      return -1, 0, 0
    got = [np.asarray(out[k]) for k in sorted(out)]
    # A normalised pixel of few features may flip on a rounding error.
    near, off = [], []
    for v, p in self.params.items():
      want = self.apply(p, self.image)
      want = [np.asarray(x) for x in (want if isinstance(want, tuple) else (want,))]
      off.append([(a.shape, b.shape, float(np.abs(a - b).mean()) if a.shape == b.shape else 0, float(np.abs(b).mean())) for a, b in zip(got, want)])
      if len(want) == len(got) and all(a.shape == b.shape and np.abs(a - b).mean() < .01 * np.abs(b).mean() for a, b in zip(got, want)):
        near.append(v)
    if len(near) != 1:
      self.why += f' {off}'
    return (near[0] if len(near) == 1 else -1), got[0].shape[-1], got[1].shape[-1] if len(got) > 1 else 0

  def save(self, k, over=False, rel=False):
    cfg = dict(workdir=epath.Path(self.cks), save_path=epath.Path(os.path.relpath(self.out) if rel else self.out), overwrite=over)
    if k != 3:
      cfg['model_name'] = self.files[k]
    mod = detection_save
    if self.kind == 'detector':
      cfg['input_shape'] = self.shape
    else:
      mod = alignment_save
      cfg.update(image_size=self.shape[:2], final_step_only=self.final, sequence_length=self.seq)
    before, digest, days = set(os.listdir(self.out)), self.digest(), [datetime.date.today()]
    out, self.why = 'returned', ''
    try:
      mod.save(mod.Config(**cfg))
    except Exception as e:  # pylint: disable=broad-except
      out, self.why = 'raised', f'{type(e).__name__}: {e}'[:150]
    days.append(datetime.date.today())
    try:
      moved = os.getcwd() != self.cwd
    except FileNotFoundError:
      moved = True
    os.chdir(self.cwd)
    moved = moved or digest != self.digest() or bool(os.listdir(self.cwd))
    new = set(os.listdir(self.out)) - before
    dated = True
    if k == 3 and out == 'returned' and self.files[3] is None:
      end = '-atom-detector.zip' if self.kind == 'detector' else '-image-aligner.zip'
      dated = any(d.strftime('%Y%m%d') + end in new for d in days)
      if len(new) == 1:
        (self.files[3],) = new
    self.t.ev('Save', case=self.case, name=k, over=over, rel=rel, out=out, dated=dated, moved=moved,
              names=len(set(os.listdir(self.out)) - set(self.files.values())),
              files=[self.version(os.path.join(self.out, f))[0] if f else 0 for f in (self.files[i] for i in (1, 2, 3))], why=self.why)

  def use(self, k):
    path = os.path.join(self.out, self.files[k] or 'none')
    if not os.path.exists(path):
      return
    out, why = 'returned', ''
    v, local, globl = self.version(path)
    if self.loads:
      try:
        x = self.loader(path)
        image = self.rng.random((*self.shape[:2], 1)).astype(np.float32)
        if self.kind == 'detector':
          x(image)
        else:
          fov = putting_dune.microscope_utils.MicroscopeFieldOfView(
              putting_dune.geometry.Point((0, 0)), putting_dune.geometry.Point((20, 20)))
          x(image, fov)
      except Exception as e:  # pylint: disable=broad-except
        out, why = 'raised', f'{type(e).__name__}: {e}'[:150]
    self.t.ev('Use', case=self.case, name=k, kind=self.kind, out=out, ver=v, local=local, why=why, **{'global': globl})

  def do(self, op):
    if op == 'c':
      self.checkpoint()
    elif op in 'bx':
      self.checkpoint(better=op == 'b')
    elif op == 'z':
      self.checkpoint(final=True)
    elif op in 'uvw':
      self.use('uvw'.index(op) + 1)
    else:
      self.save(dict(s=1, r=2, d=3)[op.lower()], op in 'SR' or op == 'd' and self.rng.random() < .5, op in 'rR')


def main(t):
  p = tr.params()
  i, n = tr.shard()
  rng = np.random.default_rng([tr.seed(), 35, i])
  hs = sorted({''.join(x['h']) for x in tr.schedules()})
  hs = [h for h in hs if set(h) & set('srdSR')]
  todo = ['cbsxzbSu', 'cxsbu', 'cdsbdw', 'crcRv'] + [hs[int(j)] for j in np.random.default_rng([tr.seed(), 3]).permutation(len(hs))[:p['n']]]
  for j, h in enumerate(todo):
    if j % n == i:
      for kind in ('detector', 'aligner'):
        big = j < p['big']
        run = Run(t, kind, rng, f'{kind} {h}{" full size" if big else ""}', big)
        for op in h:
          run.do(op)
        os.chdir(WORK)
        shutil.rmtree(run.dir)


if __name__ == '__main__':
  tr.main(main)
