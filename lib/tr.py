"""Driver side: logging of abstract events as integers, strings and booleans."""
import json
import math
import os
import sys
import traceback

LIM = 2_000_000_000
NAN = 1_999_999_999  # what a non finite number is logged as


def q(x, scale, lim=LIM):
  """Quantises a number; non finite and huge values map to sentinels."""
  try:
    x = float(x)
  except (TypeError, ValueError):
    return NAN
  if not math.isfinite(x):
    return min(NAN, lim)
  v = round(x * scale)
  return int(max(-lim, min(lim, v)))


# Lengths are clamped at +-3000 A so that the specification's products fit.
def a4(x):
  return q(x, 1e4, 30_000_000)


def u6(x):
  return q(x, 1e6, 20_000_000)


def p4(p):
  return [a4(p[0]), a4(p[1])]


def pu6(p):
  return [u6(p[0]), u6(p[1])]


def xy(point):
  return (point.x, point.y)


def us(td):
  """A timedelta in microseconds (exact), clamped."""
  v = td.days * 86_400_000_000 + td.seconds * 1_000_000 + td.microseconds
  return int(max(-LIM, min(LIM, v)))


class Trace:
  """Writes one record per event."""

  def __init__(self, path=None):
    self.path = path or os.environ['VT_TRACE']
    self.f = open(self.path, 'w')
    self.n = 0

  def ev(self, e, **kw):
    kw['e'] = e
    self.f.write(json.dumps(kw, separators=(',', ':')) + '\n')
    self.n += 1

  def close(self):
    self.f.close()


def params():
  return json.loads(os.environ.get('VT_PARAMS', '{}'))


def seed():
  return int(os.environ.get('VERIF_SEED', '1'))


def shard():
  return int(os.environ.get('VT_SHARD', '0')), int(os.environ.get('VT_SHARDS', '1'))


def schedules():
  """The schedules generated by TLC for this check."""
  out = []
  with open(os.environ['VT_GEN']) as f:
    for line in f:
      line = line.strip()
      if line:
        out.append(json.loads(line))
  return out


def exc_name(e):
  return type(e).__name__


def main(fn):
  """Runs a driver; an exception of the code under test becomes an event."""
  t = Trace()
  try:
    fn(t)
  except Exception as e:  # pylint: disable=broad-except
    tb = traceback.extract_tb(e.__traceback__)
    last = tb[-1]
    in_repo = [f for f in tb if '/putting_dune/' in f.filename]
    traceback.print_exc()
    if in_repo:
      # The code under test raised where the specification allows no exception.
      where = f'{os.path.basename(in_repo[-1].filename)}:{in_repo[-1].name}'
      t.ev('CRASH', case='crash', exc=f'{type(e).__name__}: {e}'[:300], where=where)
    else:
      t.ev('CRASH', case='crash', exc=f'{type(e).__name__}: {e}'[:300],
           where=f'driver {os.path.basename(last.filename)}:{last.lineno}')
  finally:
    t.close()
  sys.stdout.flush()
