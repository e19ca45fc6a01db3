"""Renders generated and recorded events and reads the frames back."""
import datetime as dt
import os
import re
import sys
import zlib

os.environ['MPLBACKEND'] = 'Agg'
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from matplotlib import animation
from matplotlib import colors
from matplotlib import pyplot as plt
import numpy as np
import tr

from putting_dune import action_adapters
from putting_dune import feature_constructors
from putting_dune import geometry
from putting_dune import goals
from putting_dune import graphene
from putting_dune import microscope_utils as mu
from putting_dune import plotting_utils
from putting_dune import putting_dune_environment
from putting_dune import simulator_observers as so

P = geometry.Point
T = so.SimulatorEventType


def box(f):
  return tr.p4(tr.xy(f.lower_left)) + tr.p4(tr.xy(f.upper_right))


def idig(a):
  """What an image shows (a trailing axis of length one does not matter)."""
  a = np.squeeze(np.asarray(a, float))
  return (zlib.crc32(np.ascontiguousarray(np.round(a, 5)).tobytes() + repr(a.shape).encode()) & 0x3FFFFFFF) or 1


class Reader(animation.AbstractMovieWriter):
  """A movie writer that looks at the figure instead of rasterising it."""

  def __init__(self):
    super().__init__(fps=5)
    self.frames = []

  def setup(self, fig, outfile, dpi=None):
    self.fig = fig

  def finish(self):
    pass

  def panel(self, ax, f):
    out = dict(cs=[], sis=[], beam=[], goal=[], fov=[])
    for l in ax.lines:
      xy = np.stack([np.asarray(l.get_xdata(), float).reshape(-1), np.asarray(l.get_ydata(), float).reshape(-1)], -1)
      m = l.get_marker()
      red = colors.to_rgb(l.get_color()) == (1., 0., 0.)
      key = {'o': 'sis' if red else 'cs', 'x': 'goal', '.': 'beam'}.get(m, 'fov')
      out[key] = out[key] + [f(p) for p in xy]
    if out['fov']:
      c = np.array(out['fov'])
      out['fov'] = [int(v) for v in (c[:, 0].min(), c[:, 1].min(), c[:, 0].max(), c[:, 1].max())]
    (x0, x1), (y0, y1) = ax.get_xlim(), ax.get_ylim()
    out['limits'] = f((x0, y0)) + f((x1, y1))
    return out

  def grab_frame(self, **kw):
    axes = self.fig.axes
    texts = [x.get_text() for ax in axes for x in ax.texts]
    rec = dict(mat=self.panel(axes[0], tr.p4), mic=self.panel(axes[1], tr.pu6), **clock(texts[0] if len(texts) == 1 else ''))
    im = [i for ax in axes[2:] for i in ax.images]
    rec['img'] = idig(im[0].get_array()) if len(im) == 1 else len(im)
    self.frames.append(rec)


def clock(text):
  m = re.fullmatch(r'(\d{2,}):(\d{2}):(\d{2})', text)
  a = [int(x) for x in m.groups()] if m else [0, 0, 0]
  return dict(form=bool(m), mm=min(a[0], 10**6), ss=a[1], hh=a[2])


class Run:

  def __init__(self, t, rng):
    self.t, self.rng = t, rng

  def show(self, case, via, events, goal):
    """Logs the events and what the video made of them."""
    t = self.t
    t.ev('New', case=case)
    ids = {}

    def known(g):
      if id(g) not in ids:
        ids[id(g)] = len(ids) + 1
        z = np.asarray(g.atomic_numbers)
        t.ev('Grid', cs=[tr.p4(p) for p in g.atom_positions[z == 6]], sis=[tr.p4(p) for p in g.atom_positions[z == 14]])
      return ids[id(g)]

    for e in events:
      d = e.event_data
      if e.event_type == T.RESET:
        g = known(d['grid'])
        t.ev('Reset', grid=g, fov=box(d['fov']))
      elif e.event_type == T.APPLY_CONTROL:
        t.ev('Control', pos=tr.p4(tr.xy(d['position'])), dwell=tr.us(d['dwell_time']))
      elif e.event_type == T.TRANSITION:
        g = known(d['grid'])
        t.ev('Transition', grid=g)
      elif e.event_type == T.TAKE_IMAGE:
        t.ev('Image', fov=box(d['fov']), dur=tr.us(d['duration']))
      elif e.event_type == T.GENERATED_IMAGE:
        t.ev('Generated', img=idig(d['image']))
    rec = dict(case=case, via=via, goal=tr.p4(goal), raised=False, frames=[])
    w = Reader()
    try:
      anim = plotting_utils.generate_video_from_simulator_events(events, goal)
      anim.save('unused', writer=w)
      rec['frames'] = w.frames
    except Exception as e:  # pylint: disable=broad-except
      rec.update(raised=True, error=tr.exc_name(e))
    plt.close('all')
    t.ev('Show', **rec)

  def grid(self, n):
    rng = self.rng
    z = np.full(n, 6)
    z[int(rng.integers(n))] = 14
    return mu.AtomicGridMaterialFrame(mu.AtomicGrid(np.round(rng.uniform(-20, 20, (n, 2)), 4), z))

  def fov(self):
    ll = np.round(self.rng.uniform(-15, 5, 2), 3)
    w = np.round(self.rng.uniform(8, 20, 2), 3)
    return mu.MicroscopeFieldOfView(P(ll), P(ll + w))

  def synthetic(self, h, c):
    rng = self.rng
    g = [self.grid(int(rng.integers(3, 12))) for _ in range(3)]
    ev = [so.SimulatorEvent(T.RESET, {'grid': g[0], 'fov': self.fov()})]
    us = lambda: dt.timedelta(microseconds=int(rng.choice([1999996, 58004, 995500, 1500000, 4000, 61000000, 333333, 997000, 5999990])))
    k = 0
    for o in h:
      if o == 'A':
        ev.append(so.SimulatorEvent(T.APPLY_CONTROL, {'dwell_time': us(), 'position': P(np.round(rng.uniform(-9, 9, 2), 4))}))
      elif o == 'T':
        k += 1
        ev.append(so.SimulatorEvent(T.TRANSITION, {'time_since_control_was_applied': dt.timedelta(seconds=.5), 'grid': g[k % 3]}))
      elif o == 'I':
        ev.append(so.SimulatorEvent(T.TAKE_IMAGE, {'duration': us(), 'fov': self.fov()}))
      else:
        shape = [(6, 6), (5, 7, 1), (6, 6, 3)][c % 3]
        ev.append(so.SimulatorEvent(T.GENERATED_IMAGE, {'image': rng.uniform(0, 1, shape)}))
    self.show('events ' + ''.join(h), 'synthetic', ev, np.round(rng.uniform(-9, 9, 2), 4))

  def episode(self, c):
    rng = self.rng
    goal = goals.SingleSiliconGoalReaching()
    goal.goal_range_angstroms = (2., 6.)
    env = putting_dune_environment.PuttingDuneEnvironment(
        material=graphene.PristineSingleDopedGraphene(
            rate_function=graphene.PristineSingleSiGrRatePredictor(
                canonical_rate_prediction_fn=lambda *a, **kw: 8. * graphene.simple_canonical_rate_function(*a, **kw)), grid_columns=10),
        action_adapter=action_adapters.RelativeToSiliconActionAdapter(
            dwell_time_range=(dt.timedelta(seconds=.3), dt.timedelta(seconds=9))),
        feature_constructor=(feature_constructors.ImageFeatureConstructor if c % 2 else
                             feature_constructors.SingleSiliconPristineGrapheneFeatureConstuctor)(),
        goal=goal)
    obs = so.EventObserver()
    env.sim.add_observer(obs)
    env.seed(int(rng.integers(10**6)))
    try:
      ts = env.reset()
      for _ in range(c % 5):
        if ts.last():
          break
        ts = env.step(rng.uniform(-1, 1, env.action_spec().shape).astype(np.float32))
    except (graphene.SiliconNotFoundError, RuntimeError):
      pass
    if obs.events and env.goal.goal_position_material_frame is not None:
      self.show(f'episode {c}', 'episode', list(obs.events), np.asarray(env.goal.goal_position_material_frame))

  def clocks(self, n):
    rng = self.rng
    for k in range(n):
      s = int(rng.choice([0, 59, 60, 61, 599, 3599, 3600, 86399, int(rng.integers(200000))]))
      us = int(rng.choice([0, 4999, 5000, 5001, 994999, 995000, 995001, 999999, 290000, 580000, int(rng.integers(10**6))]))
      text = plotting_utils.format_timedelta(dt.timedelta(seconds=s, microseconds=us))
      self.t.ev('Clock', case=f'clock {s} {us} {text}', s=s, us=us, **clock(text))


def run(t):
  s, n = tr.shard()
  rng = np.random.default_rng([tr.seed(), 25, s])
  p = tr.params()
  r = Run(t, rng)
  t.ev('New', case='clock')
  r.clocks(p['clocks'])
  sch = tr.schedules()
  for k, j in enumerate(rng.permutation(len(sch))[:p['n']]):
    r.synthetic(sch[j]['h'][:5 - k % 3] if k % 6 else sch[j]['h'], k * n + s)
  for c in range(s, p['episodes'], n):
    r.episode(c)
  if s == 0:
    for h in ('', 'IG', 'A', 'T'):
      r.synthetic(list(h), 1)


if __name__ == '__main__':
  tr.main(run)
