"""Replays sequences of drifting observations into aligners."""
import datetime as dt
import os
import sys
import zipfile
import zlib

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import numpy as np
import tr

from etils import epath
from putting_dune import alignment
from putting_dune import geometry
from putting_dune import io as pdio
from putting_dune import microscope_utils as mu
from putting_dune.pipeline import align_trajectories

P = geometry.Point
BOND = 1.42


def dig(*arrays):
  d = 0
  for a in arrays:
    if a is None:
      d = zlib.crc32(b'none', d)
    else:
      a = np.ascontiguousarray(np.asarray(a))
      d = zlib.crc32(a.tobytes() + repr(a.shape).encode(), d)
  return d & 0x3FFFFFFF


def sheet(n, theta):
  """A piece of the lattice and the sublattice of each of its atoms."""
  pts, sub = [], []
  a1, a2 = np.array([1.5, 3**.5 / 2]), np.array([1.5, -(3**.5) / 2])
  for i in range(-n, n + 1):
    for j in range(-n, n + 1):
      for k in (0, 1):
        p = (i * a1 + j * a2 + (k, 0)) * BOND
        if np.abs(p).max() < n * 1.3:
          pts.append(p)
          sub.append(k)
  r = np.array([[np.cos(theta), -np.sin(theta)], [np.sin(theta), np.cos(theta)]])
  return np.array(pts) @ r.T, np.array(sub)


def angle(rng, k):
  """All orientations, those of the lattice's own axes in particular."""
  return (k % 12) * np.pi / 6 if k % 3 == 0 else rng.uniform(-np.pi, np.pi)


def grid(pos, z):
  return mu.AtomicGridMaterialFrame(mu.AtomicGrid(np.array(pos, float), np.array(z, np.int32)))


class Sheet:

  def __init__(self, rng, k):
    self.pos, self.sub = sheet(7, angle(rng, k))
    self.pos = self.pos + rng.uniform(-5, 5, 2)
    self.rng = rng

  def view(self, off, missing, doped, noise=.02):
    n = len(self.pos)
    sites = np.sort(self.rng.permutation(n)[missing:])
    z = np.full(len(sites), 6)
    for _ in range(doped):
      z[self.rng.integers(len(z))] = 14
    order = self.rng.permutation(len(sites))
    sites, z = sites[order], z[order]
    return sites, z, self.pos[sites] + off + self.rng.uniform(-noise, noise, (len(sites), 2))


class Model:
  """Stands in for the network: nothing is seen in any image, the shift is told."""

  def __init__(self, tell, i):
    self.tell, self.i = tell, i

  def serving(self, image):
    import tensorflow as tf
    n = image.shape[-1]
    return {'output_0': tf.zeros((512, 512, 3 * n)), 'output_1': tf.tile(tf.constant(self.tell[self.i], tf.float32), [n])}

  @property
  def signatures(self):
    return {'serving_default': self.serving}


class Run:

  def __init__(self, t, rng):
    self.t, self.rng = t, rng

  def sequence(self, ops, c):
    t, rng = self.t, self.rng
    case = 'sequence ' + ' '.join(f"{o['op']}{o['i']}{o['o']}{o['v']}" for o in ops) + f' {c}'
    t.ev('New', case=case)
    sh = Sheet(rng, c)
    als, given, was, how = [], [], [], []
    sheets = [sh, sh]
    resets = 0
    for i in range(2):
      clipped = (c // 3 + i) % 4 == 3
      keep = 1 if clipped else 1 + (c + i) % 4
      clip = .15 if clipped else 2.
      joined = not clipped and (c // 2 + i) % 3 == 0
      clique = (c + i) % 2 == 1
      kw = {} if c % 7 == 6 and not clipped and not joined else dict(
          max_shift=clip, alignment_iterations=1 + (c % 4), merge_cutoff=.85 if clipped else 1. if clique else 1.1, trim=[0., 0., .25, .5][(c + i) % 4])
      als.append(alignment.IterativeAlignmentFiltering(history_length=keep, accumulate_merged=joined, clique_merging=clique, **kw))
      how.append('clique' if clique else 'naive')
      t.ev('Make', i=i + 1, keep=keep, clip=tr.a4(clip), joined=bool(joined))
    for k, o in enumerate(ops):
      i = o['i'] - 1
      if o['op'] in 'RL':
        als[i].reset()
        resets += 1
        if (c + k) % 3:  # another sample, lying differently
          sheets[i] = Sheet(rng, c * 5 + 3 * resets + 1)
        t.ev('Reset', i=i + 1)
        continue
      if o['op'] == 'M':
        by = np.array([.06, -.04]) * o['o']
        als[i].apply_shift(by)
        t.ev('Move', i=i + 1, by=tr.p4(by))
        continue
      th = rng.uniform(-np.pi, np.pi) if k % 3 else o['o']
      off = .075 * abs(o["o"]) * np.array([np.cos(th), np.sin(th)])
      off = np.round(off, 4)
      sh = sheets[i]
      sites, z, pos = sh.view(off, 0 if o['v'] == 0 else 1 + k, (k + c) % 3)
      g = grid(pos, z)
      given.append(g)
      was.append(dig(g.atom_positions, g.atomic_numbers))
      rec = dict(i=i + 1, how=how[i], off=tr.p4(off), sites=(sites + 1).tolist(), z=z.tolist(), raised=False, case=case)
      try:
        out, shift = als[i](g)
        res = []
        for p, e in zip(np.asarray(out.atom_positions), np.asarray(out.atomic_numbers)):
          d = p - sh.pos
          s = int(np.argmin((d**2).sum(-1)))
          res.append([s + 1, tr.a4(d[s][0]), tr.a4(d[s][1]), int(e)])
        rec.update(out=res, shift=tr.p4(np.asarray(shift)), kept=len(als[i].recent_observations))
      except Exception as e:  # pylint: disable=broad-except
        rec.update(raised=True, error=tr.exc_name(e), out=[], shift=[0, 0], kept=0)
      rec.update(was=list(was), now=[dig(x.atom_positions, x.atomic_numbers) for x in given])
      t.ev('Obs', **rec)
      if rec['raised']:
        return

  def hybrid(self, ops, c):
    """Image aligners whose model's shifts are a little off, which is corrected."""
    t, rng = self.t, self.rng
    case = 'hybrid ' + ' '.join(f"{o['op']}{o['i']}{o['o']}{o['v']}" for o in ops) + f' {c}'
    t.ev('New', case=case)
    sheets = [Sheet(rng, c)] * 2
    als, tell = [], []
    for i in range(2):
      a = alignment.ImageAligner(model_path=epath.Path('absent'), hybrid=True)
      a.adaptive_normalization = False
      tell.append(np.zeros(2, np.float32))
      a.model = Model(tell, i)
      als.append(a)
      t.ev('Make', i=i + 1, keep=1, clip=7100, joined=False)
    given, was = [], []
    img = rng.uniform(0, 1, (512, 512)).astype(np.float32)
    for k, o in enumerate(ops):
      i = o['i'] - 1
      if o['op'] == 'M':
        continue
      if o['op'] == 'R':
        als[i].reset()
        sheets[i] = Sheet(rng, c * 5 + 3 * k + 1)
        t.ev('Reset', i=i + 1)
        continue
      sh = sheets[i]
      tell[i] = np.round(rng.uniform(-3, 3, 2), 3).astype(np.float32)
      told = np.asarray(tell[i], float)
      ll = sh.pos.mean(0) + rng.uniform(-20, -10, 2)
      fov = mu.MicroscopeFieldOfView(P(ll), P(ll + rng.uniform(20, 40)))
      lost = o['op'] == 'L'
      th = rng.uniform(-np.pi, np.pi)
      # Some corrections are larger than the aligner makes.
      off = np.round([.075, .19][(c // 2) % 2] * abs(o['o']) * np.array([np.cos(th), np.sin(th)]), 4)
      sites, z, pos = sh.view(off, 0 if o['v'] == 0 else 12 + k, (k + c) % 3, .005)
      if lost:
        sites, z, pos = sites[:0], z[:0], pos[:0]
      g = fov.material_frame_to_microscope_frame(grid(pos + told, z))
      given.append(g)
      was.append(dig(g.atom_positions, g.atomic_numbers))
      rec = dict(i=i + 1, how='hybrid', raised=False, case=case)
      try:
        out, shift, _ = als[i](img, fov, g)
        out = fov.shift(P(-np.asarray(shift, float))).microscope_frame_to_material_frame(out)
        res = []
        for p, e in zip(np.asarray(out.atom_positions), np.asarray(out.atomic_numbers)):
          d = p - sh.pos
          s = int(np.argmin((d**2).sum(-1)))
          res.append([s + 1, tr.a4(d[s][0]), tr.a4(d[s][1]), int(e)])
        rec.update(out=res, kept=1)
        rec['shift'] = tr.p4(np.asarray(shift, float)) if lost else tr.p4(np.asarray(shift, float) - told)
      except Exception as e:  # pylint: disable=broad-except
        rec.update(raised=True, error=tr.exc_name(e), out=[], shift=[0, 0], kept=0)
      if lost:
        t.ev('Lost', told=tr.p4(told), **rec)
      else:
        rec.update(off=tr.p4(off), sites=(sites + 1).tolist(), z=z.tolist(),
                   was=list(was), now=[dig(x.atom_positions, x.atomic_numbers) for x in given])
        t.ev('Obs', **rec)
      if rec['raised']:
        return

  def latest(self, c):
    """Several alignments in a row, from where they are told to begin or not."""
    t, rng = self.t, self.rng
    t.ev('New', case=f'latest {c}')
    sh = Sheet(rng, c)
    arrays = [(sh.pos.copy(), sh.sub.copy())]
    inits = []
    for k in range(5):
      big = [1.7, .9, .5, 1.2, .3][(k + c) % 5]
      th = rng.uniform(-np.pi, np.pi)
      full = np.array([np.cos(th), np.sin(th)]) * big
      init = ['absent', 'given', 'none', 'given_int'][(k + c // 5) % 4]
      # Without a hint only shifts of less than half a lattice vector are told.
      if init in ('absent', 'none'):
        off = np.round(full * .9 / 1.7, 4)
      elif init == 'given_int':
        i0 = np.array([[1, 0], [0, -1], [-1, 0], [1, -1]][k % 4])
        off = np.round(-i0 + rng.uniform(-.4, .4, 2), 4)
      else:
        off = np.round(full, 4)
        i0 = -off + rng.uniform(-.4, .4, 2)
      z, pos = sh.sub.copy(), sh.pos + off
      arrays.append((pos, z))
      was = [dig(*a) for a in arrays]
      kw = dict(iterations=1 + (k + c) % 3)
      if init in ('given', 'given_int'):
        kw['init_shift'] = i0
        inits.append(i0)
      elif init == 'none':
        kw['init_shift'] = None
      was += [dig(a) for a in inits]
      clip = 2.
      outliers = 0
      if c % 4 == 1 and init == 'absent' and big < 1:
        # Some atoms aren't where they should be.
        outliers = len(pos) // 6
        off = np.round(off * .4, 4)
        pos = sh.pos + off
        dirs = rng.uniform(-np.pi, np.pi, outliers)
        pos[rng.permutation(len(pos))[:outliers]] += .9 * np.stack([np.cos(dirs), np.sin(dirs)], 1)
        arrays[-1] = (pos, z)
        was[len(arrays) - 1] = dig(pos, z)
        kw.update(trim=.35, iterations=12)
      if c % 4 == 3 and init == 'absent':
        clip = kw['max_shift'] = .25
      rec = dict(off=tr.p4(off), init=init, outliers=outliers, clip=tr.a4(clip), raised=False, case=f'latest {c}')
      try:
        s = alignment.align_latest(pos, arrays[0][0], z, arrays[0][1], **kw)
        rec.update(shift=tr.p4(np.array(s)))
      except Exception as e:  # pylint: disable=broad-except
        rec.update(raised=True, shift=[0, 0], error=tr.exc_name(e))
      rec.update(was=was, now=[dig(*a) for a in arrays] + [dig(a) for a in inits])
      t.ev('Latest', **rec)

  def classes(self, c):
    t, rng = self.t, self.rng
    t.ev('New', case=f'classes {c}')
    pos, sub = sheet(5 + c % 4, angle(rng, c))
    rec = dict(raised=False, case=f'classes {c}')
    order = rng.permutation(len(pos))
    pos, sub = pos[order], sub[order]
    pos = pos + rng.uniform(-.03, .03, pos.shape) * (c % 2) + rng.uniform(-9, 9, 2)
    try:
      f = alignment.get_lattice_clusterer(pos)
      got = alignment.classify_lattice_types(pos, f)
      rec.update(sub=sub.tolist(), got=[tr.q(x, 1) for x in got])
    except Exception as e:  # pylint: disable=broad-except
      rec.update(raised=True, error=tr.exc_name(e))
    t.ev('Classes', **rec)
    s = [1., .5, 28., 3.1, .07][c % 5]
    t.ev('Scale', s1000=tr.q(s, 1000), got1000=tr.q(alignment.get_graphene_scale_factor(pos * s), 1000), case=f'scale {s}')


class Stub:
  """Reports shifts that were decided beforehand."""

  def __init__(self, shifts, found):
    self.shifts, self.found = shifts, found
    self.resets, self.asked = [], []
    self.k = 0

  def reset(self, history_length=5, **kw):
    self.resets.append(int(history_length))
    self.k = 0

  def __call__(self, image, fov, *a, **kw):
    p = len(self.resets)
    self.k += 1
    self.asked.append([p, self.k, box(fov)])
    return self.found[self.k - 1], np.array(self.shifts[p - 1][self.k - 1]), None


def box(fov):
  return tr.p4(tr.xy(fov.lower_left)) + tr.p4(tr.xy(fov.upper_right))


def observation(rng, k, size=(6, 6), when=None):
  ll = rng.uniform(-9, 9, 2)
  n = 1 + k % 3
  return mu.MicroscopeObservation(
      grid=mu.AtomicGridMicroscopeFrame(mu.AtomicGrid(rng.uniform(0, 1, (n, 2)).astype(np.float32), np.full(n, 6, np.int32))),
      fov=mu.MicroscopeFieldOfView(P(ll), P(ll + np.float32(rng.uniform(10, 25)))),
      controls=[mu.BeamControlMicroscopeFrame(mu.BeamControl(P(rng.uniform(0, 1, 2)), dt.timedelta(seconds=1 + j))) for j in range(k % 3)],
      elapsed_time=dt.timedelta(seconds=10 * k + 1 if when is None else when),
      image=rng.uniform(0, 1, size).astype(np.float32) if k % 4 != 3 else None,
      label_image=rng.uniform(0, 1, size).astype(np.float32) if k % 2 else None)


def rest(o):
  return dig(o.image, o.label_image, np.array([tr.us(o.elapsed_time)]),
             np.array([[tr.u6(c.position.x), tr.u6(c.position.y), tr.us(c.dwell_time)] for c in o.controls], np.int64).reshape(-1, 3))


def gdig(g):
  return dig(np.round(np.asarray(g.atom_positions, float), 5), np.asarray(g.atomic_numbers, int))


def trajectories(t, rng, c):
  t.ev('New', case=f'trajectory {c}')
  n, passes = 1 + c % 4, [1, 2, 1, 3][c % 4]
  base = [1., .5, .25, .8][(c // 2) % 4]
  relabel = bool((c // 2) % 2)
  obs = [observation(rng, k) for k in range(n)]
  shifts = np.round(rng.uniform(-1, 1, (passes, n, 2)), 4)
  found = [grid(rng.uniform(0, 1, (2, 2)), [6, 14]) for _ in range(n)]
  stub = Stub(shifts, found)
  args = align_trajectories.Args(source_path=None, target_path=None, aligner_path=None, history_length=2 + c % 3,
                                 alignment_iterations=passes, base_step_size=base, relabel=relabel)
  rec = dict(via='stub', case=f'trajectory {c}', passes=passes, base100=round(base * 100), relabel=relabel, hist=2 + c % 3,
             fovs=[box(o.fov) for o in obs], shifts=[[tr.p4(s) for s in p] for p in shifts],
             given=[gdig(o.grid) for o in obs], found=[gdig(g) for g in found], was=[rest(o) for o in obs], raised=False)
  try:
    out = align_trajectories.do_alignment(mu.Trajectory(list(obs)), args, stub).observations
    rec.update(out=[box(o.fov) for o in out], grids=[gdig(o.grid) for o in out], now=[rest(o) for o in out],
               asked=stub.asked, resets=stub.resets)
  except Exception as e:  # pylint: disable=broad-except
    rec.update(raised=True, error=tr.exc_name(e))
  t.ev('Traj', **rec)


def model_zip(path, drift, length):
  """A saved model that sees no atoms and always reports the same drift."""
  import tensorflow as tf

  class M(tf.Module):

    @tf.function(input_signature=[tf.TensorSpec([512, 512, length], tf.float32, name='image')])
    def f(self, image):
      return {'output_0': tf.concat([tf.ones_like(image), tf.zeros_like(image), tf.zeros_like(image)], -1),
              'output_1': tf.tile(tf.constant(drift, tf.float32), [length])}

  m = M()
  d = os.path.join(path, 'model_weights', 'image-alignment-model')
  tf.saved_model.save(m, d, signatures={'serving_default': m.f})
  z = os.path.join(path, 'model.zip')
  with zipfile.ZipFile(z, 'w') as f:
    for a, _, bs in os.walk(d):
      for b in bs:
        f.write(os.path.join(a, b), os.path.relpath(os.path.join(a, b), os.path.join(path, 'model_weights')))
  return z


def program(t, rng, tmp):
  """The script, from records to records, for a file and for a directory."""
  drift = [.25, -.5]
  z = model_zip(tmp, drift, 3)
  src = epath.Path(tmp) / 'in'
  src.mkdir(parents=True, exist_ok=True)
  names = []
  for f in range(2):
    trs = []
    for k in range(2 - f):
      obs = [observation(rng, 4 * j + 1, (512, 512), 1000 * (len(names) + 1) + j) for j in range(2 + k + f)]
      trs.append(mu.Trajectory(obs))
      names.append(obs)
    pdio.write_records(src / f'part{f}.tfrecords', trs)
  for via, path, which in (('directory', src, range(3)), ('file', src / 'part1.tfrecords', [2])):
    dst = epath.Path(tmp) / f'{via}.tfrecords'
    args = align_trajectories.Args(source_path=path, target_path=dst, aligner_path=epath.Path(z), history_length=3)
    got, err = {}, None
    try:
      align_trajectories.main(args)
      for tj in pdio.read_records(dst, mu.Trajectory):
        got[int(tj.observations[0].elapsed_time.total_seconds()) // 1000 - 1] = tj.observations
    except Exception as e:  # pylint: disable=broad-except
      err = tr.exc_name(e)
    for w in which:
      t.ev('New', case=f'program {via} {w}')
      obs = names[w]
      out = got.get(w, [])
      rec = dict(via=via, case=f'program {via} {w}', passes=1, base100=100, relabel=False, hist=3, fovs=[box(o.fov) for o in obs],
                 shifts=[[tr.p4(drift)] * len(obs)], given=[gdig(o.grid) for o in obs], found=[], was=[rest(o) for o in obs],
                 raised=err is not None, error=err or '', out=[box(o.fov) for o in out], grids=[gdig(o.grid) for o in out],
                 now=[rest(o) for o in out], asked=[], resets=[3])
      t.ev('Traj', **rec)


def run(t):
  s, n = tr.shard()
  rng = np.random.default_rng([tr.seed(), 21, s])
  np.random.seed(tr.seed() * 31 + s)
  p = tr.params()
  r = Run(t, rng)
  if s == 0:
    import tempfile
    with tempfile.TemporaryDirectory(prefix='vt_align') as tmp:
      program(t, rng, tmp)
  for c in range(s, p['small'], n):
    r.latest(c)
    r.classes(c)
    trajectories(t, rng, c)
    ops = []
    for k in range(9):  # three samples after one another
      if k and k % 3 == 0:
        ops.append(dict(op='R', i=1 + c % 2, o=0, v=0))
      ops.append(dict(op='O', i=1 + c % 2, o=int(rng.choice([-2, 3])), v=k % 2))
    r.sequence(ops, c)
    if c % 6 < 2:
      ops[4]['op'] = 'L'
      r.hybrid(ops[3 * (c % 2):], c)
    else:
      r.hybrid([o for o in ops if o['op'] == 'O'][:4], c)
  sch = tr.schedules()
  for k, j in enumerate(rng.permutation(len(sch))[:p['n']]):
    r.sequence(sch[j]['h'], k * n + s)
    if k % 3 == 0:
      r.hybrid(sch[j]['h'], k * n + s)


if __name__ == '__main__':
  tr.main(run)
