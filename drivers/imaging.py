"""Renders generated scenes and logs the pictures pixel by pixel."""
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import numpy as np
import tr

from putting_dune import geometry
from putting_dune import imaging
from putting_dune import microscope_utils as mu

P = geometry.Point


def img4(a):
  a = np.asarray(a, float)
  return [[tr.q(v, 1e4) for v in row] for row in a] if a.ndim == 2 else []


class Run:

  def __init__(self, t, rng):
    self.t, self.rng = t, rng

  def view(self, case=None):
    rng = self.rng
    w = int(rng.integers(3000, 9000))
    h = w if rng.integers(3) == 0 else int(rng.integers(3000, 9000))
    x, y = (int(v) for v in rng.integers(-20000, 20000, 2))
    self.fov = mu.MicroscopeFieldOfView(P(np.array([x, y]) / 1000), P(np.array([x + w, y + h]) / 1000))
    self.box = [x, y, w, h]
    return self.box

  def grid(self):
    pos = np.array([a[1:] for a in self.atoms], float).reshape(-1, 2) / 1000
    z = np.array([a[0] for a in self.atoms], int)
    return self.fov.material_frame_to_microscope_frame(mu.AtomicGridMaterialFrame(mu.AtomicGrid(pos, z)))

  def place(self):
    rng = self.rng
    x, y, w, h = self.box
    for _ in range(100):
      # Mostly in view, sometimes around it.
      lo, hi = (-.25, 1.25) if rng.integers(4) == 0 else (.02, .98)
      p = [int(x + rng.uniform(lo, hi) * w), int(y + rng.uniform(lo, hi) * h)]
      if all(np.hypot(p[0] - a[1], p[1] - a[2]) > 900 for a in self.atoms) or rng.integers(8) == 0:
        return p
    return None

  def call(self, f):
    rec = dict(raised=False, kept=True, again=True)
    try:
      g = self.grid()
      inner = getattr(g, 'grid', g)
      pos, z = inner.atom_positions.copy(), inner.atomic_numbers.copy()
      out = np.asarray(f(g))
      rec['kept'] = bool(np.array_equal(pos, inner.atom_positions) and np.array_equal(z, inner.atomic_numbers))
      rec['again'] = bool(np.array_equal(out, np.asarray(f(self.grid())), equal_nan=True))
    except Exception as e:  # pylint: disable=broad-except
      rec.update(raised=True, error=tr.exc_name(e))
      out = None
    return rec, out

  def mask(self, case):
    rng = self.rng
    w = int(rng.integers(3, 26))
    size = (w, w if rng.integers(3) == 0 else int(rng.integers(3, 26)))
    e = int(rng.choice([10, 14, 17, 20]))
    kw = dict(intensity_exponent=e / 10) if e != 17 or rng.integers(2) else {}
    rec, out = self.call(lambda g: imaging.generate_grid_mask(g, self.fov, image_dimensions=size, **kw))
    self.t.ev('Mask', case=case, size=list(size), exp=e, img=out.astype(int).tolist() if out is not None else [], **rec)

  def clean(self, case):
    rng = self.rng
    for _ in range(60):
      s = int(rng.integers(6, 25))
      b = int(rng.choice([0, 0, 10, 25, 50, int(rng.integers(1, 40))]))
      bw = int(b / 100 * s)
      if bw != (b * s) // 100:
        continue
      ok = True
      for a in self.atoms:
        for k in (0, 1):
          u = ((a[k + 1] - self.box[k]) / self.box[k + 2] + b / 100) * (s + 2 * bw) / (1 + 2 * b / 100)
          ok = ok and abs(u - round(u)) > .02
      if ok:
        break
    else:
      return
    e = int(rng.choice([10, 14, 17, 20]))
    kw = dict(intensity_exponent=e / 10) if e != 17 or rng.integers(2) else {}
    if b:
      kw['buffer_size'] = b / 100
    rec, out = self.call(lambda g: imaging.generate_clean_image(g, self.fov, image_size=s, **kw))
    self.t.ev('Clean', case=case, size=s, exp=e, buf=b, img=img4(out) if out is not None else [], **rec)

  def noisy(self, case):
    rng = self.rng
    s = int(rng.integers(16, 48))
    seed = int(rng.integers(10**6))
    make = imaging.sample_image_parameters if rng.integers(2) else imaging.sample_noisy_image_parameters
    par = make(np.random.default_rng(seed), image_size=s)
    kw = dict(buffer_size=.2) if rng.integers(2) else {}
    rec, out = self.call(lambda g: imaging.generate_stem_image(g, self.fov, par, np.random.default_rng(seed), **kw))
    ok = out is not None
    self.t.ev('Noisy', case=case, size=s, shape=list(out.shape) if ok else [], lo=int(np.floor(min(np.min(out), 9) * 1e4)) if ok and np.isfinite(out).all() else 0,
              hi=int(np.ceil(min(np.max(out), 9) * 1e4)) if ok and np.isfinite(out).all() else 0, finite=bool(ok and np.isfinite(out).all()), **rec)

  def step(self, case):
    rng = self.rng
    h, w = (int(v) for v in rng.integers(1, 7, 2))
    a = np.round(rng.uniform(0, 1, (h, w)), 2)
    a[rng.uniform(size=a.shape) < .2] = 0.
    if rng.integers(2):
      a = a / a.max() if a.max() > 0 else a
    if rng.integers(10) == 0:
      a[:] = 0.
    seed = int(rng.integers(10**6))
    how = str(rng.choice(['jitter', 'pepper', 'poisson', 'contrast', 'blur', 'uniform', 'exponential', 'gaussian']))
    amt = int(rng.choice([0, int(rng.integers(1, 100)), int(rng.integers(100, 300))]))
    v = amt / 100
    if how == 'contrast':
      amt, v = (100, 1.) if amt == 0 else (amt, v)
    if how == 'pepper':
      amt, v = min(amt, 100), min(v, 1.)
    if how == 'poisson':
      v += 1
    g = lambda: np.random.default_rng(seed)
    f = dict(jitter=lambda x: imaging.apply_jitter(x, v, g()), pepper=lambda x: imaging.apply_salt_and_pepper_noise(x, v, g()),
             poisson=lambda x: imaging.apply_poisson_noise(x, v, g()), contrast=lambda x: imaging.apply_contrast(x, v),
             blur=lambda x: imaging.apply_blur(x, v), uniform=lambda x: imaging.apply_uniform_noise(x, v, g()),
             exponential=lambda x: imaging.apply_exponential_noise(x, v, g()), gaussian=lambda x: imaging.apply_gaussian_noise(x, v, g()))[how]
    rec = dict(how=how, amt=amt, img=img4(a), out=[], raised=False, kept=True, again=True)
    b = a.copy()
    try:
      out = np.asarray(f(b))
      rec.update(out=img4(out), kept=bool(np.array_equal(a, b)), again=bool(np.array_equal(out, np.asarray(f(b)))))
    except Exception as e:  # pylint: disable=broad-except
      rec.update(raised=True, error=tr.exc_name(e))
    self.t.ev('Step', case=case, **rec)

  def history(self, case, ops):
    rng, t = self.rng, self.t
    self.atoms = []
    t.ev('New', case=case, fov=self.view())
    for k, op in enumerate(ops):
      if op in 'CS':
        p = self.place()
        if p is None:
          continue
        z = 6 if op == 'C' else 14
        self.atoms.append([z] + p)
        t.ev('Add', z=z, pos=p)
      elif op == 'D':
        if not self.atoms:
          continue
        i = int(rng.integers(len(self.atoms)))
        del self.atoms[i]
        t.ev('Drop', k=i + 1)
      elif op == 'P':
        d = [int(rng.integers(-self.box[k + 2] // 3, self.box[k + 2] // 3)) for k in (0, 1)]
        self.fov = self.fov.shift(P(np.array(d) / 1000))
        self.box = [self.box[0] + d[0], self.box[1] + d[1]] + self.box[2:]
        t.ev('Pan', d=d)
      else:
        # Somewhere that shows some of what was there.
        x, y, w, h = self.box
        nw, nh = (int(v) for v in rng.integers(3000, 9000, 2))
        x, y = x + int(rng.uniform(-.3, .3) * w), y + int(rng.uniform(-.3, .3) * h)
        self.box = [x, y, nw, nh]
        self.fov = mu.MicroscopeFieldOfView(P(np.array([x, y]) / 1000), P(np.array([x + nw, y + nh]) / 1000))
        t.ev('View', fov=self.box)
      for f in (self.mask, self.clean, self.noisy):
        if rng.integers(4) or (f == self.noisy and k == len(ops) - 1):
          f(case)


def run(t):
  s, _ = tr.shard()
  rng = np.random.default_rng([tr.seed(), 29, s])
  p = tr.params()
  r = Run(t, rng)
  sch = tr.schedules()
  r.history(f'planned {s}', ['Z', 'C', 'C', 'S', 'P', 'C', 'Z', 'D', 'D', 'D', 'D'])
  for k, j in enumerate(rng.permutation(len(sch))[:p['n']]):
    h = sch[j]['h']
    r.history(f'history {s} {k} ' + ''.join(h), list('CS' if k % 2 else '') + h)
  for k in range(p['steps']):
    r.step(f'step {s} {k}')


if __name__ == '__main__':
  tr.main(run)
