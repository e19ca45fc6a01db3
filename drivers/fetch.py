"""Fetches models with failing sources, failing file operations, kills and overlaps.

Everything happens in a copy of the package inside the scratch directory of the
check.  Every call runs in a forked process whose file operations are counted by
an audit hook, so that the k-th of them can fail, be the last one, or be where
the call is suspended.
"""
import json
import os
import shutil
import sys
import urllib.error
import urllib.request
import zipfile

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import tr

import own

WORK = os.environ['VT_WORK']
MINE = own.copy_package(WORK)
import numpy as np
from etils import epath
import putting_dune
from putting_dune import alignment
from putting_dune import atom_detector
from putting_dune.agents import tf_eval_agent
from putting_dune.experiments import registry

assert putting_dune.__file__.startswith(MINE), putting_dune.__file__

WRITES = {'os.mkdir', 'os.rename', 'os.remove', 'os.rmdir', 'os.link', 'os.symlink', 'os.truncate', 'os.chmod', 'os.utime'}
HOOK = dict(on=False, n=0, at=-1, how='', asked=False, src='', fds=None)


def hook(event, args):
  if not HOOK['on']:
    return
  if event == 'open':
    path, mode, flags = args
    if isinstance(path, (str, bytes, os.PathLike)) and os.fspath(path) == HOOK['src']:
      HOOK['asked'] = True
    if not (isinstance(flags, int) and flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT)):
      return
  elif event not in WRITES:
    return
  k = HOOK['n']
  HOOK['n'] += 1
  if k == HOOK['at']:
    if HOOK['how'] == 'fail':
      raise OSError(28, 'No space left on device')
    if HOOK['how'] == 'kill':
      os._exit(77)
    HOOK['on'] = False
    os.write(HOOK['fds'][1], b'p')
    os.read(HOOK['fds'][0], 1)
    HOOK['on'] = True


sys.addaudithook(hook)


def files(kind, v):
  size = 3000 + 1000 * v
  out = {n: (f'{kind} {v} {n} ' * size)[:size].encode() for n in (
      'saved_model.pb', 'variables/variables.index', 'variables/variables.data-00000-of-00001', 'assets/note', f'only_{v}')}
  return out


class Store:
  """Archives of a model, and what is in the place of it."""

  def __init__(self, kind):
    self.kind = kind
    pkg = os.path.join(MINE, 'putting_dune')
    self.workdir = os.path.join(WORK, 'own')
    self.name = {'detector': 'atom-detection-model', 'agent': '230422_ppo_v3_2s'}.get(kind, 'image-alignment-model')
    self.dir = {'detector': f'{pkg}/model_weights', 'home': f'{pkg}/model_weights', 'aligner': f'{self.workdir}/model_weights',
                'agent': f'{pkg}/experiments/model_weights'}[kind]
    self.arch = os.path.join(WORK, 'arch')
    os.makedirs(self.arch, exist_ok=True)

  def clear(self):
    for d in (self.dir, self.workdir):
      if os.path.isdir(d):
        shutil.rmtree(d)
    if self.kind == 'aligner':
      os.makedirs(self.workdir)

  def archive(self, v, src):
    path = os.path.join(self.arch, f'{self.kind}_{v}_{src}.zip')
    if src == 'missing' or os.path.exists(path):
      return path
    with zipfile.ZipFile(path, 'w') as z:
      for d in ('', 'variables/', 'assets/'):
        z.writestr(zipfile.ZipInfo(f'{self.name}/{d}'), b'')
      for n, b in files(self.kind, v).items():
        z.writestr(f'{self.name}/{n}', b)
    with open(path, 'rb') as f:
      b = f.read()
    if src == 'truncated':
      b = b[:len(b) // 2]
    elif src == 'corrupt':
      last = files(self.kind, v)[f'only_{v}'][:200]
      i = b.index(last) + 100
      b = b[:i] + bytes([b[i] ^ 1]) + b[i + 1:]
    with open(path, 'wb') as f:
      f.write(b)
    return path

  def version(self, path, top):
    """Which version lies at a path: 0 for none, -1 for part of one or of several."""
    if not os.path.lexists(path):
      return 0
    have = {}
    for d, _, fs in os.walk(path):
      for f in fs:
        with open(os.path.join(d, f), 'rb') as g:
          have[os.path.relpath(os.path.join(d, f), path)] = g.read()
    for v in range(1, top + 1):
      if have == files(self.kind, v):
        return v
    return -1

  def left(self):
    return len([x for x in os.listdir(self.dir) if x != self.name]) if os.path.isdir(self.dir) else 0

  def fetch(self, src, reload):
    """Returns the path of the model that the call would use."""
    if self.kind == 'detector':
      return os.fspath(atom_detector.AtomDetector.from_url('file://' + src).model_path)
    if self.kind in ('aligner', 'home'):
      kw = dict(workdir=self.workdir) if self.kind == 'aligner' else {}
      if reload:
        kw['reload'] = True
      return os.fspath(alignment.ImageAligner.from_path(epath.Path(src), **kw).model_path)
    got = []

    class Agent:

      def __init__(self, path, *a, **kw):
        got.append(os.fspath(path))

    held = urllib.request.urlretrieve, urllib.request.urlopen
    urllib.request.urlopen = lambda url, *a, **kw: held[1]('file://' + src, *a, **kw)
    urllib.request.urlretrieve = lambda url, filename=None, *a, **kw: copy_to(held[1], src, filename)
    tf_eval_agent.TfEvalAgent = Agent
    e = registry.create_microscope_experiment('ppo_v3_2s')
    e.get_agent(np.random.default_rng(0), e.get_adapters_and_goal())
    return got[0]


def copy_to(urlopen, src, filename):
  """What urlretrieve does, without its clean-up of temporary files."""
  if filename is None:
    filename = src + '.got'
  with urlopen('file://' + src) as r, open(filename, 'wb') as f:
    shutil.copyfileobj(r, f)
  return filename, {}


class Call:
  """A call in a process of its own."""

  def __init__(self, store, src, reload, top, how='', at=-1):
    self.r, w = os.pipe()
    r2, self.w = os.pipe()
    sys.stdout.flush()
    self.pid = os.fork()
    if self.pid == 0:
      os.close(self.r)
      os.close(self.w)
      out = dict(out='raised', seen=0)
      HOOK.update(n=0, at=at, how=how, asked=False, src=src, fds=(r2, w), on=True)
      try:
        path = store.fetch(src, reload)
        HOOK['on'] = False
        out = dict(out='returned', seen=store.version(path, top))
      except Exception as e:  # pylint: disable=broad-except
        HOOK['on'] = False
        out['why'] = f'{type(e).__name__}: {e}'[:120]
      out.update(n=HOOK['n'], asked=HOOK['asked'])
      os.write(w, b'r' + json.dumps(out).encode())
      os._exit(0)
    os.close(w)
    os.close(r2)

  def wait(self):
    """'p' when suspended, otherwise the result."""
    b = os.read(self.r, 1)
    if b == b'p':
      return 'p'
    while True:
      c = os.read(self.r, 65536)
      if not c:
        break
      b += c
    os.close(self.r)
    os.close(self.w)
    os.waitpid(self.pid, 0)
    return json.loads(b[1:]) if b else dict(out='killed', seen=0, n=-1, asked=False)

  def resume(self):
    os.write(self.w, b'g')
    return self.wait()


SRC = dict(m='missing', t='truncated', c='corrupt')
FAULT = dict(f='fail', k='kill', o='pause')


class Run:

  def __init__(self, t, kind, rng):
    self.t, self.store, self.rng = t, Store(kind), rng
    self.ops = {}

  def start(self, case):
    self.case = case
    self.store.clear()
    self.ver = 0
    self.t.ev('New', case=case)

  def put(self, e, **kw):
    self.t.ev(e, case=self.case, kind=self.store.kind, after=self.store.version(os.path.join(self.store.dir, self.store.name), self.ver),
              left=self.store.left(), **kw)

  def plain(self, reload=False, src='good', fault='none', at=-1):
    self.ver += 1
    v = self.ver
    x = Call(self.store, self.store.archive(v, src), reload, v, fault, at).wait()
    self.put('Call', reload=reload, src=src, ver=v, fault=fault, out=x['out'], seen=x['seen'], asked=x['asked'], why=x.get('why', ''))
    return x

  def overlap(self, reload, at):
    """Another process fetches the model while this one is suspended."""
    self.ver += 1
    v = self.ver
    c = Call(self.store, self.store.archive(v, 'good'), reload, v + 1, 'pause', at)
    x = c.wait()
    if x == 'p':
      self.put('Pause', reload=reload, src='good', ver=v)
      self.plain(reload=self.store.kind in ('aligner', 'home') and self.rng.random() < .3)
      x = c.resume()
      self.put('Resume', reload=reload, ver=v, out=x['out'], seen=x['seen'], why=x.get('why', ''))
    else:
      self.put('Call', reload=reload, src='good', ver=v, fault='none', out=x['out'], seen=x['seen'], asked=x['asked'], why=x.get('why', ''))

  def do(self, op):
    reload = op.isupper() and self.store.kind in ('aligner', 'home')
    op = op.lower()
    if op == 'g':
      return self.plain(reload)
    if op in SRC:
      return self.plain(reload, SRC[op])
    at = int(self.rng.integers(0, 24))
    if op == 'o':
      return self.overlap(reload, at)
    return self.plain(reload, 'good' if self.rng.random() < .8 else 'corrupt', FAULT[op], at)


def sweep(t, rng, turn, step=1):
  """Every file operation of a call fails, kills or suspends it."""
  for kind in ('detector', 'aligner', 'home', 'agent'):
    for there, reload in ((0, 0), (1, 0), (1, 1), (0, 1)):
      if reload and kind not in ('aligner', 'home') or kind == 'home' and there + reload == 1:
        continue
      run = Run(t, kind, rng)
      run.start(f'{kind} {there} {reload} count')
      if there:
        run.plain()
      n = run.plain(bool(reload))['n']
      for k in range(0, n + 1):
        for fault in ('fail', 'kill', 'pause'):
          if not next(turn) or k % step:
            continue
          run.start(f'{kind} {there} {reload} {fault} {k}')
          if there:
            run.plain()
          if fault == 'pause':
            run.overlap(bool(reload), k)
          else:
            run.plain(bool(reload), 'good', fault, k)
          run.plain()
          if kind == 'aligner':
            run.plain(True)


def main(t):
  p = tr.params()
  i, n = tr.shard()
  rng = np.random.default_rng([tr.seed(), 34, i])

  def turns():
    k = 0
    while True:
      yield k % n == i
      k += 1

  turn = turns()
  sweep(t, rng, turn)
  kinds = ('detector', 'aligner', 'aligner', 'home', 'agent')
  for j, x in enumerate(tr.schedules()):
    if j % n == i:
      for _ in range(p['reps']):
        run = Run(t, kinds[int(rng.integers(len(kinds)))], rng)
        run.start(f'{run.store.kind} ' + ''.join(x['h']))
        for op in x['h']:
          run.do(op)
        run.plain()
        run.store.clear()


if __name__ == '__main__':
  tr.main(main)
