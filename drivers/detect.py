"""Paints blobs and asks the detectors what they find."""
import os
import sys

os.environ.setdefault('TF_CPP_MIN_LOG_LEVEL', '3')
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import numpy as np
import tensorflow as tf
import tr

from putting_dune import alignment
from putting_dune import atom_detector
from putting_dune import geometry
from putting_dune import imaging
from putting_dune import microscope_utils as mu

P = geometry.Point


class Stub:
  """In place of a segmentation network."""

  def __init__(self, f):
    self.signatures = {'serving_default': f}


class Run:

  def __init__(self, t, rng, p):
    self.t, self.rng, self.p = t, rng, p

  def size(self):
    rng = self.rng
    k = int(rng.integers(4))
    self.w, self.h = ((256, 256), (512, 512), tuple(int(v) for v in rng.integers(120, 400, 2)), tuple(int(v) for v in rng.integers(120, 400, 2)))[k]
    self.blobs = []
    return [self.w * 100, self.h * 100]

  def place(self, z):
    rng = self.rng
    for _ in range(60):
      r = float(rng.uniform(2.5, 8) if z == 6 else rng.uniform(5, 10))
      x, y = rng.uniform(14, self.w - 14), rng.uniform(14, self.h - 14)
      if all(np.hypot(x - b[1], y - b[2]) > max(r + b[3] + 12, 34) for b in self.blobs):
        return [z, round(float(x), 2), round(float(y), 2), r]
    return None

  def labels(self):
    yy, xx = np.mgrid[:self.h, :self.w] + .5
    lab = np.zeros((self.h, self.w), int)
    for z, x, y, r in self.blobs:
      lab[(xx - x)**2 + (yy - y)**2 < r * r] = 1 if z == 6 else 2
    return lab

  def logits(self, lab):
    return (float(self.rng.choice([4., 8., 20., 200.])) * (2 * np.eye(3)[lab] - 1)).astype(np.float32)

  def report(self, case, via, buf, f):
    rec = dict(via=via, buf=tr.q(buf, 1e4), out=[], kept=True, seen=True, raised=False)
    try:
      g, extra = f()
      g = getattr(g, 'grid', g)
      pos, z = np.asarray(g.atom_positions, float), np.asarray(g.atomic_numbers)
      assert pos.ndim == 2 and pos.shape[1] == 2 and z.shape == (len(pos),)
      rec['out'] = [[int(k), tr.q(q[0] * self.w, 100), tr.q((1 - q[1]) * self.h, 100)] for k, q in zip(z, pos)]
      rec.update(extra)
    except Exception as e:  # pylint: disable=broad-except
      rec.update(raised=True, error=f'{type(e).__name__}: {e}'[:200])
    self.t.ev('Find', case=case, **rec)

  def aligner(self, case, lab, via='aligner'):
    rng = self.rng
    c = float(rng.uniform(.4, 1))
    probs = np.eye(3)[lab] * c + (1 - c) / 3
    buf = float(rng.choice([0., .05, .1, round(float(rng.uniform(0, .4)), 3)]))
    kw = {} if buf == .05 and rng.integers(2) else dict(buffer_width=buf)

    def f():
      p = probs.copy()
      g = alignment.ImageAligner.process_detection_predictions(p, **kw)
      return g, dict(kept=bool(np.array_equal(p, probs)))

    self.report(case, via, buf, f)

  def mask(self, case):
    rng = self.rng
    # Silicon's disc is .65 A wide.
    s = float(rng.uniform(12, 15))
    x0, y0 = rng.uniform(-30, 30, 2)
    fov = mu.MicroscopeFieldOfView(P([x0, y0]), P([x0 + self.w / s, y0 + self.h / s]))
    grid = mu.AtomicGridMicroscopeFrame(mu.AtomicGrid(
        np.array([[b[1] / self.w, 1 - b[2] / self.h] for b in self.blobs], float).reshape(-1, 2), np.array([b[0] for b in self.blobs], int)))
    try:
      m = imaging.generate_grid_mask(grid, fov, image_dimensions=(self.w, self.h))
    except Exception as e:  # pylint: disable=broad-except
      err = e

      def f():
        raise err
      self.report(case, 'mask', 0., f)
      return
    self.aligner(case, np.where(m == 6, 1, np.where(m == 14, 2, 0)), 'mask')

  def picture(self, low, high):
    """Eight by eight blocks of some type and scale, and what they are worth from 0 to 1."""
    rng = self.rng
    n = 1 if rng.integers(5) == 0 else 64
    kind = [np.float32, np.float64, np.float64, np.uint8, np.uint16, np.int32, np.float16][rng.integers(7)]
    if np.issubdtype(kind, np.floating):
      v = rng.uniform(size=n) * float(rng.choice([1., .01, 200.])) + float(rng.choice([0., 7., -.5]))
    else:
      v = rng.integers(0, 256 if rng.integers(2) else 200, n)
    v = np.broadcast_to(v.astype(kind), 64).reshape(8, 8)
    h, w = int(rng.integers(low, high)), int(rng.integers(low, high))
    image = np.ascontiguousarray(v[np.arange(h) * 8 // h][:, np.arange(w) * 8 // w])
    if rng.integers(2):
      image = image[..., None]
    x = v.astype(np.float64)
    self.kind = 'flat' if n == 1 else 'single' if kind == np.float32 else 'double' if kind == np.float64 else 'half' if kind == np.float16 else 'whole'
    self.kind += '_2d' if image.ndim == 2 else '_3d'
    return image, (x - x.min()) / max(np.ptp(x), 1e-9)

  def right(self, shown, want, exact=True):
    """Is the picture the model is shown (rows, columns) the one it should be shown?"""
    if shown.dtype != np.float32 or not np.isfinite(shown).all():
      return False
    s = len(shown) // 8
    got = shown[s // 2::s, s // 2::s]
    if not exact:
      return bool(shown.min() > -1e-4 and shown.max() < 1 + 1e-4)  # Equalized: which way is up to the library.
    return bool(np.abs(got - want).max() < 1e-3)

  def detector(self, case, lab):
    image, want = self.picture(100, 600)
    logits = self.logits(lab)
    shown = []

    def model(preprocessed_inputs_0):
      shown.append(np.asarray(preprocessed_inputs_0))
      return dict(output_0=tf.constant(logits))

    def f():
      d = atom_detector.AtomDetector(model_path='/nowhere')
      d.__dict__['model'] = Stub(model)
      before = image.copy()
      g = d(image)
      s = shown[-1]
      return g, dict(kept=bool(np.array_equal(before, image)), seen=s.shape == (256, 256, 1) and self.right(s[..., 0], want), pic=self.kind)

    self.report(case, 'detector', 0., f)

  def call(self, case, lab):
    rng = self.rng
    t, k = 5, int(rng.integers(5))
    other = np.roll(lab, 90, axis=1)
    logits = np.concatenate([self.logits(lab if i == k else other) for i in range(t)], -1)
    image, want = self.picture(100, 300)
    shown = []

    def model(image):
      shown.append(np.asarray(image))
      return dict(output_0=tf.constant(logits), output_1=tf.zeros(2 * t))

    def f():
      a = alignment.ImageAligner(model_path='/nowhere')
      a.__dict__['model'] = Stub(model)
      a.adaptive_normalization = bool(rng.integers(2))
      before = image.copy()
      g, _, _ = a(image, mu.MicroscopeFieldOfView(P([0., 0.]), P([20., 20.])), time_index=k if rng.integers(2) else k - t)
      s = shown[-1]
      return g, dict(kept=bool(np.array_equal(before, image)), pic=self.kind,
                     seen=s.shape == (512, 512, t) and self.right(s[..., -1], want, not a.adaptive_normalization))

    self.report(case, 'call', .05, f)

  def find(self, case):
    lab = self.labels()
    self.aligner(case, lab)
    if self.rng.integers(2):
      self.mask(case)
    if (self.w, self.h) == (256, 256):
      self.detector(case, lab)
    if (self.w, self.h) == (512, 512):
      self.call(case, lab)

  def history(self, case, ops):
    rng, t = self.rng, self.t
    t.ev('New', case=case, size=self.size())
    for op in ops:
      if op in 'CS':
        for _ in range(int(rng.integers(1, 4))):
          b = self.place(6 if op == 'C' else 14)
          if b is not None:
            self.blobs.append(b)
            t.ev('Add', z=b[0], pos=[tr.q(b[1], 100), tr.q(b[2], 100)])
      elif op == 'D':
        if self.blobs:
          k = int(rng.integers(len(self.blobs)))
          del self.blobs[k]
          t.ev('Drop', k=k + 1)
      else:
        t.ev('Size', size=self.size())
      self.find(case)


def run(t):
  s, _ = tr.shard()
  rng = np.random.default_rng([tr.seed(), 30, s])
  p = tr.params()
  r = Run(t, rng, p)
  sch = tr.schedules()
  for k, j in enumerate(rng.permutation(len(sch))[:p['n']]):
    h = sch[j]['h']
    r.history(f'history {s} {k} ' + ''.join(h), ['Z'] * (k % 3 == 0) + h)


if __name__ == '__main__':
  tr.main(run)
