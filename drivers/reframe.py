"""Re-frames images, alone and as the history an image aligner shows its model."""
import os
import sys
import zlib

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import numpy as np
import tr

from putting_dune import alignment
from putting_dune import geometry
from putting_dune import microscope_utils as mu

P = geometry.Point
S = 16


def fov(f, tick=1., at=(0., 0.)):
  return mu.MicroscopeFieldOfView(P(f[0] * tick + at[0], f[1] * tick + at[1]), P(f[2] * tick + at[0], f[3] * tick + at[1]))


def dig(a):
  a = np.ascontiguousarray(np.asarray(a))
  return zlib.crc32(a.tobytes() + repr((a.shape, str(a.dtype))).encode())


def ints(a):
  return [[tr.q(v, 1, 10**6) for v in row] for row in np.asarray(a, float)]


class Run:

  def __init__(self, t, rng):
    self.t, self.rng = t, rng

  def reframe(self, case, old, new, h, w, ch, exact, tick=1., at=(0., 0.), dtype=np.float32, flat=False):
    img = (1 + np.arange(h * w).reshape(h, w, 1) + 1000 * np.arange(ch)).astype(dtype)
    if flat:
      img = img[..., 0]
    d = dig(img)
    rec = dict(case=case, old=old, new=new, h=h, w=w, ch=ch, exact=exact, raised=False, out=[], shape=[])
    try:
      out = np.asarray(alignment.pad_and_crop_images_by_fov(img, fov(old, tick, at), fov(new, tick, at)))
      rec.update(shape=[int(x) for x in out.shape], out=[ints(out[..., k]) for k in range(out.shape[-1])] if out.ndim == 3 else [])
    except Exception as e:  # pylint: disable=broad-except
      rec.update(raised=True, error=tr.exc_name(e))
    rec['kept'] = dig(img) == d
    self.t.ev('Reframe', **rec)

  def wander(self, moves, c):
    """Views of the generated walk, each relative to the first."""
    old = [0, 0, 64, 64]
    for k, m in enumerate(moves):
      new = [m[0], m[1], m[0] + m[2], m[1] + m[2]]
      tick = [1., .25, .125][(c + k) % 3]
      at = [(0., 0.), (-7., 3.5), (100., -64.)][(c // 2) % 3]
      self.reframe(f'walk {c} {k} {m}', old, new, 16, 16, 1 + c % 2 if c % 4 else 1, True, tick, at, [np.float32, np.int32, np.float64][c % 3], flat=c % 4 == 0)

  def odd(self, c):
    """Views that do not fall on pixels, oblong images and views."""
    rng = self.rng
    h, w = (12, 12) if c % 3 == 0 else (int(rng.integers(8, 14)), int(rng.integers(8, 14)))
    ow = int(rng.integers(800, 1200))
    oh = ow if c % 4 else int(rng.integers(800, 1200))
    old = [0, 0, ow, oh]
    z = [1., 1., .6, 1.7, .37, 2.6][c % 6]
    nw, nh = round(ow * z), round(oh * (z if c % 5 else 1.4))
    x, y = (int(v) for v in rng.integers(-900, 900, 2))
    if c % 7 == 0:
      x = int(rng.integers(1300, 2500)) * (1 if c % 2 else -1) * 2
    self.reframe(f'odd {c}', old, [x, y, x + nw, y + nh], h, w, 1 + c % 3, False, .01, tuple(rng.uniform(-30, 30, 2)))

  def whole(self, c):
    """Oblong images and views that fall on pixels."""
    rng = self.rng
    h, w = int(rng.integers(5, 12)), int(rng.integers(5, 12))
    px, py = [(4, 4), (4, 8), (6, 4)][c % 3]
    if h == w and c % 2:
      w += 1
    old = [0, 0, px * w, py * h]
    zx, zy = [(1, 1), (1, 2), (2, 2), (.5, .5), (2, 1), (.5, 1), (1, .5), (1, 1)][c % 8]
    nw, nh = int(px * w * zx), int(py * h * zy)
    if (w * zx) % 1 or (h * zy) % 1 or (zx > 1 and w % 2) or (zy > 1 and h % 2):
      zx = zy = 1
      nw, nh = px * w, py * h
    x, yt = int(rng.integers(-w, w)) * int(px * max(zx, 1)), int(rng.integers(-h, h)) * int(py * max(zy, 1))
    top = old[3] + yt   # Aligned at the upper left.
    self.reframe(f'whole {c}', old, [x, top - nh, x + nw, top], h, w, 1 + c % 3 if c % 5 else 1, True, .125, (0., 0.), flat=c % 5 == 0)

  def stack(self, walks, c):
    """An image aligner is shown image after image."""
    import tensorflow as tf
    rng = self.rng
    a = alignment.ImageAligner(model_path=None)
    a.adaptive_normalization = False
    keep = [5, 2, 3, 1, 4][c % 5]
    seen = {}

    class Model:
      """Stands in for the trained network."""

      def serving(self, image):
        im = np.asarray(image)
        seen['stack'] = im
        n = im.shape[-1]
        seen['drift'] = rng.uniform(-1, 1, (n, 2)).astype(np.float32)
        lg = np.zeros((*im.shape[:2], n, 3), np.float32)
        lg[..., 0] = 9
        return {'output_0': tf.constant(lg.reshape(*im.shape[:2], -1)), 'output_1': tf.constant(seen['drift'].reshape(-1))}

      @property
      def signatures(self):
        return {'serving_default': self.serving}

    a.model = Model()
    a.history_length = keep
    if c % 2:
      a.reset(keep, np.zeros((512, 512, 1), np.float32))
    self.t.ev('Begin', keep=keep, again=False)
    k = 0
    for walk in walks:
      for m in walk:
        f = [m[0], m[1], m[0] + m[2], m[1] + m[2]]
        i = int(rng.integers(40))
        small = ((S * np.arange(S)[:, None] + np.arange(S) + 37 * i) % (S * S)).astype(np.float32)
        img = np.kron(small, np.ones((512 // S,) * 2, np.float32))[..., None]
        if k % 3 == 1:
          img = img[..., 0] * 3 + 7   # Images need not be normalised.
        if k % 4 == 2:
          img = np.kron(small, np.ones((64 // S,) * 2, np.float32))[..., None]   # Nor of the model's size.
        if k % 5 == 3:
          img = np.full_like(img, i)
          i = -2
        d = dig(img)
        rec = dict(case=f'stack {c} {k}', id=i, fov=f, raised=False, stack=[], drift=[], told=[])
        try:
          _, drift, _ = a(img, fov(f, .25))
          s = 512 // S
          rec.update(stack=[ints(np.round(np.nan_to_num(seen['stack'][s // 4::s, s // 4::s, j], nan=-9.) * (S * S - 1), 1)) for j in range(seen['stack'].shape[-1])],
                     drift=tr.pu6(np.asarray(drift).reshape(-1)), told=tr.pu6(seen['drift'][-1]))
        except Exception as e:  # pylint: disable=broad-except
          rec.update(raised=True, error=tr.exc_name(e))
        rec['kept'] = dig(img) == d
        self.t.ev('Stack', **rec)
        k += 1
        if rec['raised']:
          return
      if len(walks) > 1 and walk is walks[-2]:
        keep = 2 + (c + 1) % 3
        a.reset(history_length=keep)
        self.t.ev('Begin', keep=keep, again=True)


def run(t):
  s, n = tr.shard()
  rng = np.random.default_rng([tr.seed(), 22, s])
  p = tr.params()
  r = Run(t, rng)
  sch = tr.schedules()
  idx = rng.permutation(len(sch))
  t.ev('New', case='reframe')
  for k, j in enumerate(idx[:p['n']]):
    r.wander(sch[j]['h'], k * n + s)
  r.reframe('identity', [0, 0, 20, 20], [0, 0, 20, 20], 10, 10, 2, True, .3)
  for c in range(s, p['odd'], n):
    r.odd(c)
    r.whole(c)
  for k in range(p['stacks']):
    t.ev('New', case='stack')
    w = [sch[j]['h'] for j in idx[p['n'] + 4 * k:p['n'] + 4 * k + 4]]
    r.stack(w, k * n + s)


if __name__ == '__main__':
  tr.main(run)
