#!/usr/bin/env python3
"""Runs the check of one property: python3 run.py Cxx [--tier quick|thorough].

1. stages /repo's working tree (copy + protoc) in a scratch directory;
2. TLC checks the design modules of the property exhaustively;
3. TLC generates schedules from the design modules where the check replays them;
4. drivers call the real code (public API) and log what happened as traces;
5. TLC decides for every record of every trace whether the specification allows it;
6. corrupted copies of the traces are judged too (they must be rejected; counted in
   the evidence only);
7. evidence/<id>.json is rewritten, VIOLATION lines are printed.

Exit: 0 held, 1 violated, 2 the machinery failed.
"""
import argparse
import concurrent.futures as cf
import copy
import json
import os
import random
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import checks  # pylint: disable=wrong-import-position

REPO = os.environ.get('VT_REPO', '/repo')
PY = '/opt/venv/bin/python'
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
SPEC = os.path.join(HERE, 'spec')
TF_INCLUDE = '/opt/venv/lib/python3.12/site-packages/tensorflow/include'


class Machinery(Exception):
  pass


def stage(scratch):
  dst = os.path.join(scratch, 'py')
  os.makedirs(dst)
  shutil.copytree(
      os.path.join(REPO, 'putting_dune'), os.path.join(dst, 'putting_dune'),
      ignore=shutil.ignore_patterns('__pycache__', '*_pb2.py'))
  protos = [os.path.join('putting_dune', f)
            for f in os.listdir(os.path.join(dst, 'putting_dune')) if f.endswith('.proto')]
  p = subprocess.run(['/usr/bin/protoc', '-I=' + TF_INCLUDE, '-I=.', '--python_out=.'] + protos,
                     cwd=dst, capture_output=True, text=True)
  if p.returncode:
    raise Machinery('protoc failed: ' + p.stderr)
  return dst


def base_env(scratch, dst):
  home = os.path.join(scratch, 'home')
  os.makedirs(home, exist_ok=True)
  return {
      'HOME': home, 'TMPDIR': home, 'TEST_TMPDIR': home,
      'PATH': '/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin',
      'LANG': 'C.UTF-8', 'PYTHONDONTWRITEBYTECODE': '1', 'PYTHONHASHSEED': '0',
      'JAX_PLATFORMS': 'cpu', 'CUDA_VISIBLE_DEVICES': '', 'TF_CPP_MIN_LOG_LEVEL': '3',
      'MPLBACKEND': 'Agg', 'OMP_NUM_THREADS': '1', 'OPENBLAS_NUM_THREADS': '1',
      'MKL_NUM_THREADS': '1', 'TF_NUM_INTRAOP_THREADS': '1', 'TF_NUM_INTEROP_THREADS': '1',
      'XLA_FLAGS': '--xla_cpu_multi_thread_eigen=false',
      'PYTHONPATH': dst + ':' + os.path.join(HERE, 'lib'),
      'PYTHONWARNINGS': 'ignore', 'MPLCONFIGDIR': home,
  }


def run_proc(cmd, env, cwd, timeout, log):
  """Returns the exit code, None on timeout."""
  with open(log, 'w') as f:
    p = subprocess.Popen(cmd, env=env, cwd=cwd, stdout=f, stderr=subprocess.STDOUT,
                         start_new_session=True)
    try:
      return p.wait(timeout)
    except subprocess.TimeoutExpired:
      os.killpg(p.pid, signal.SIGKILL)
      p.wait()
      return None


def tail(path, n=15):
  try:
    with open(path, errors='replace') as f:
      return ''.join(f.readlines()[-n:])
  except OSError:
    return ''


def tlc(scratch, name, module, cfg, extra_env=None, workers=1, timeout=600, heap='3g', args=()):
  """Runs TLC; returns (ok, states, distinct, log path)."""
  d = os.path.join(scratch, 'tlc-' + name)
  os.makedirs(d, exist_ok=True)
  log = os.path.join(d, 'log')
  env = {'PATH': '/usr/local/bin:/usr/bin:/bin', 'HOME': d, 'LANG': 'C.UTF-8'}
  env.update(extra_env or {})
  cmd = ['java', '-Xmx' + heap, '-Xss64m', '-XX:+UseParallelGC', '-XX:ParallelGCThreads=2',
         '-Djava.io.tmpdir=' + d, '-cp', JARS, 'tlc2.TLC', '-workers', str(workers),
         '-metadir', os.path.join(d, 'md'), '-noGenerateSpecTE', '-config', cfg, *args,
         module + '.tla']
  rc = run_proc(cmd, env, SPEC, timeout, log)
  with open(log, errors='replace') as f:
    text = f.read()
  m = re.findall(r'([\d,]+) states generated(?: \([^)]*\))?, ([\d,]+) distinct states found', text)
  gen, dist = (int(x.replace(',', '')) for x in m[-1]) if m else (0, 0)
  ok = rc == 0 and 'No error has been found' in text
  return ok, gen, dist, log


class Check:

  def __init__(self, pid, tier):
    self.pid, self.tier = pid, tier
    self.spec = checks.CHECKS[pid]
    self.seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    self.known = []
    kf = os.path.join(HERE, 'known_findings.json')
    if os.path.exists(kf):
      with open(kf) as f:
        self.known = [k for k in json.load(f)['findings'] if k['property'] == pid]
    self.violations = []     # (clause, case, replay file)
    self.found_known = {}
    self.stats = dict(states=0, transitions=0, traces=0, records=0)
    self.tags = {}
    self.samples = []
    self.mc = []
    self.selftest = dict(corrupted=0, rejected=0, missed=[])
    self.gen = {}

  def pick(self, v):
    """Tier dependent values are pairs {'quick':..., 'thorough':...}."""
    if isinstance(v, dict) and set(v) == {'quick', 'thorough'}:
      return v[self.tier]
    return v

  # ---------------------------------------------------------------- stages
  def run_mc(self, m):
    cfg = self.pick(m['cfg'])
    ok, gen, dist, log = tlc(self.scratch, 'mc-' + cfg, m['module'], cfg,
                             workers=m.get('workers', 2), timeout=840,
                             heap=m.get('heap', '4g'), args=('-coverage', '1') if m.get('coverage', True) else ())
    with open(log, errors='replace') as f:
      text = f.read()
    if 'refutes' in m:
      # A design with a planted fault: the specification has to notice it.
      if f'Invariant {m["refutes"]} is violated' not in text:
        raise Machinery(f'{m["module"]}/{cfg}: the planted fault was not noticed:\n' + text[-3000:])
      return dict(module=m['module'], cfg=cfg, states=dist, transitions=gen,
                  checked='planted design fault noticed', actions={})
    if not ok:
      raise Machinery(f'model check of {m["module"]}/{cfg} failed:\n' + text[-3000:])
    dead = set(m.get('must_fire', ()))
    fired = {}
    for a, n in re.findall(r'^<(\w+) line .*?>: ([\d,]+)(?::[\d,]+)?', text, re.M):
      fired[a] = max(fired.get(a, 0), int(n.split(':')[0].replace(',', '')))
    for a in dead:
      if not fired.get(a):
        raise Machinery(f'action {a} of {m["module"]} never fires')
    with open(os.path.join(SPEC, cfg)) as f:
      c = f.read()
    invs = re.findall(r'^\s*(?:INVARIANTS?|PROPERT(?:Y|IES))\s+(.*?)(?=^\s*[A-Z_]+\b\s|\Z)', c, re.M | re.S)
    return dict(module=m['module'], cfg=cfg, states=dist, transitions=gen,
                checked=' '.join(' '.join(invs).split()),
                actions={k: v for k, v in fired.items()})

  def run_gen(self, g):
    cfg = self.pick(g['cfg'])
    ok, gen, dist, log = tlc(self.scratch, 'gen-' + g['name'], g['module'], cfg, workers=1)
    out = os.path.join(self.scratch, 'gen-' + g['name'] + '.ndjson')
    if not ok:
      raise Machinery(f'generator {g["module"]}/{cfg} failed:\n' + tail(log, 40))
    seen = set()
    with open(log) as f, open(out, 'w') as o:
      for line in f:
        line = line.strip()
        if line.startswith('"GEN '):
          s = json.loads(line)[4:]
          if s not in seen:
            seen.add(s)
            o.write(s + '\n')
    if not seen:
      raise Machinery(f'generator {g["module"]} printed nothing')
    self.gen[g['name']] = dict(module=g['module'], cfg=cfg, schedules=len(seen), states=dist)
    return out, gen, dist

  def run_driver(self, job, shard, shards):
    name = f'{job["driver"]}-{job.get("spec")}-{shard}'
    trace = os.path.join(self.scratch, name + '.ndjson')
    env = dict(self.env)
    env.update(VT_TRACE=trace, VT_SHARD=str(shard), VT_SHARDS=str(shards),
               VERIF_SEED=str(self.seed), VERIF_TIER=self.tier,
               VT_PARAMS=json.dumps(self.pick(job.get('params', {}))))
    if 'gen' in job:
      env['VT_GEN'] = self.gen_files[job['gen']]
    work = os.path.join(self.scratch, 'work-' + name)
    os.makedirs(work)
    env['VT_WORK'] = work
    log = os.path.join(self.scratch, name + '.log')
    t0 = time.time()
    rc = run_proc([PY, os.path.join(HERE, 'drivers', job['driver'] + '.py')], env, work,
                  self.pick(job.get('timeout', {'quick': 420, 'thorough': 3000})), log)
    return trace, rc, log, time.time() - t0

  def validate(self, job, trace, tagname):
    out = trace + '.out.' + tagname
    ok, gen, dist, log = tlc(
        self.scratch, os.path.basename(trace) + '-' + tagname, job['spec'], 'Trace.cfg',
        extra_env={'TRACE': trace, 'OUT': out, **({'ALL': '1'} if tagname == 'c' else {})}, timeout=self.pick({'quick': 420, 'thorough': 3000}),
        heap='3g')
    if 'Parsing or semantic analysis failed' in tail(log, 60):
      raise Machinery('specification does not parse: ' + tail(log, 60))
    if not ok or not os.path.exists(out):
      return None, gen, dist, log
    with open(out) as f:
      return json.load(f), gen, dist, log

  def mine(self, clauses):
    res = []
    for c in clauses:
      for part in c.split(','):
        if part.startswith(self.pid + ':'):
          res.append(part)
    return res

  def violation(self, clause, case, payload):
    for k in self.known:
      if k['clause'] == clause and k['case'] == case and k.get('status') != 'fixed':
        self.found_known.setdefault((clause, case), k)
        return
    n = len(self.violations)
    if n >= 25:
      self.violations.append((clause, case, ''))
      return
    d = os.path.join(HERE, 'evidence', 'replay')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f'{self.pid}-{n}.json')
    with open(path, 'w') as f:
      json.dump(dict(property=self.pid, clause=clause, case=case, seed=self.seed,
                     tier=self.tier, **payload), f, indent=1)
    self.violations.append((clause, case, path))

  def one_shard(self, job, shard, shards):
    """Driver, then TLC.  Returns everything judged about this shard."""
    trace, rc, log, secs = self.run_driver(job, shard, shards)
    res = dict(job=job, shard=shard, trace=trace, rc=rc, log=log, secs=secs, verdict=None)
    if rc == 0 and os.path.exists(trace) and os.path.getsize(trace):
      t0 = time.time()
      res['verdict'], res['gen'], res['dist'], res['tlclog'] = self.validate(job, trace, 'v')
      res['tlcsecs'] = time.time() - t0
    return res

  def judge(self, res):
    job, trace = res['job'], res['trace']
    if res['rc'] is None:
      self.violation(f'{self.pid}:terminates', job['driver'],
                     dict(detail='the driver did not finish: the code under test hangs',
                          log=tail(res['log'])))
      return
    if res['rc'] != 0:
      text = tail(res['log'], 60)
      self.violation(f'{self.pid}:usable', job['driver'],
                     dict(detail=f'the driver ended with exit code {res["rc"]}', log=text))
      return
    with open(trace) as f:
      recs = [json.loads(x) for x in f]
    res['recs'] = recs
    if not recs:
      raise Machinery(f'{job["driver"]} logged nothing: ' + tail(res['log']))
    segs = sum(1 for r in recs if r['e'] == 'New') or len(recs)
    self.stats['traces'] += segs
    self.stats['records'] += len(recs)
    for r in recs:
      if r['e'] == 'CRASH':
        self.violation(f'{self.pid}:no_unexpected_exception', r.get('ctx', r['where']),
                       dict(detail=r['exc'], where=r['where'], log=tail(res['log'], 30)))
    v = res['verdict']
    if v is None:
      # TLC could not even evaluate the record: a value no specification value
      # corresponds to.
      self.violation(f'{self.pid}:well_formed', job['driver'],
                     dict(detail='TLC could not evaluate the trace', log=tail(res['tlclog'], 40)))
      return
    self.stats['states'] += res['dist']
    self.stats['transitions'] += res['gen']
    for t in v['tags']:
      self.tags[t] = self.tags.get(t, 0) + 1
    for idx, clauses in v['bad']:
      for c in self.mine(clauses):
        r = recs[idx - 1]
        start = idx - 1
        while start > 0 and recs[start]['e'] != 'New' and idx - start < 60:
          start -= 1
        self.violation(c, str(r.get('case', '')),
                       dict(driver=job['driver'], spec=job['spec'], shard=res['shard'],
                            record_index=idx, record=shorten(r),
                            before=[shorten(x, 400) for x in recs[max(start, idx - 8):idx - 1]]))
    if len(self.samples) < 4:
      k = self.seed % max(1, len(recs))
      self.samples.append(shorten(recs[min(len(recs) - 1, k + 1 + len(self.samples))]))

  # --------------------------------------------------------- binding self test
  def corrupt(self, results):
    """Corrupts fields of accepted traces; TLC has to reject each of them."""
    rnd = random.Random(self.seed * 7919 + 17)
    per = self.pick({'quick': 2, 'thorough': 12})
    jobs = []
    for res in results:
      job = res['job']
      if not res.get('recs') or not res['verdict'] or not job.get('corrupt'):
        continue
      if any(r['job'] is job for r, _, _ in jobs):
        continue
      recs = res['recs']
      badset = {i for i, _ in res['verdict']['bad']}
      out, plan, n = [], [], 0
      for kind, path, how in job['corrupt']:
        cands = [i for i, r in enumerate(recs) if r['e'] == kind and (i + 1) not in badset
                 and has(r, path)]
        rnd.shuffle(cands)
        done = 0
        for i in cands:
          if done >= per:
            break
          start = i
          while start > 0 and recs[start]['e'] != 'New':
            start -= 1
          if recs[start]['e'] != 'New':
            start = i
          if i - start > 400:
            continue
          end = i + 1
          while end < len(recs) and recs[end]['e'] != 'New' and end - i < 25:
            end += 1
          seg = copy.deepcopy(recs[start:end])
          if not mutate(seg[i - start], path, how, rnd):
            continue
          plan.append((len(out) + 1, len(out) + len(seg), kind + '.' + path + ' ' + str(how)))
          out.extend(seg)
          done += 1
      if plan:
        f = res['trace'] + '.corrupt'
        with open(f, 'w') as o:
          for r in out:
            o.write(json.dumps(r) + '\n')
        jobs.append((res, f, plan))
    return jobs

  def run_corrupt(self, res, f, plan):
    v, gen, dist, log = self.validate(res['job'], f, 'c')
    out = []
    for a, b, what in plan:
      if v is None:
        out.append((what, True))  # not even a value of the specification
        continue
      hit = any(a <= i <= b and self.mine(cl) for i, cl in v['bad'])
      out.append((what, hit))
    return out

  # -------------------------------------------------------------------- main
  def main(self):
    t0 = time.time()
    self.scratch = tempfile.mkdtemp(prefix='vt_')
    try:
      dst = stage(self.scratch)
      self.env = base_env(self.scratch, dst)
      self.gen_files = {}
      with cf.ThreadPoolExecutor(8) as ex:
        gens = [(g, ex.submit(self.run_gen, g)) for g in self.spec.get('gen', ())]
        mcs = [ex.submit(self.run_mc, m) for m in self.spec.get('mc', ())]
        for g, fut in gens:
          self.gen_files[g['name']], gs, ds = fut.result()
          self.stats['states'] += ds
          self.stats['transitions'] += gs
        futs = []
        for job in self.spec['traces']:
          shards = self.pick(job.get('shards', 1))
          for s in range(shards):
            futs.append(ex.submit(self.one_shard, job, s, shards))
        results = [f.result() for f in futs]
        for res in results:
          self.judge(res)
        for f, plan, r in [(a[1], a[2], a[0]) for a in self.corrupt(results)]:
          for what, hit in self.run_corrupt(r, f, plan):
            self.selftest['corrupted'] += 1
            self.selftest['rejected'] += int(hit)
            if not hit:
              self.selftest['missed'].append(what)
        for m in mcs:
          r = m.result()
          self.mc.append(r)
          self.stats['states'] += r['states']
          self.stats['transitions'] += r['transitions']
      must = set(self.spec.get('must', ()))
      missing = sorted(must - set(self.tags))
      if missing and not self.violations:
        self.violation(f'{self.pid}:situations_reached', 'coverage',
                       dict(detail='situations the code always reaches were not reached: '
                            + ', '.join(missing)))
      self.timing = [(r['job']['driver'], r['shard'], round(r['secs'], 1),
                      round(r.get('tlcsecs', 0), 1)) for r in results]
    finally:
      if os.environ.get('VT_KEEP'):
        print('kept', self.scratch)
      else:
        shutil.rmtree(self.scratch, ignore_errors=True)
    self.report(time.time() - t0)
    return 1 if self.violations else 0

  def report(self, wall):
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    ev = dict(
        property=self.pid, tier=self.tier, seed=self.seed, level='model_checking',
        coverage=dict(
            states=self.stats['states'], transitions=self.stats['transitions'],
            traces_validated_against_impl=self.stats['traces'],
            trace_records_judged=self.stats['records'],
            samples=self.samples or ['none'],
            model_checks=self.mc, generators=self.gen,
            situations_reached=sorted(self.tags),
            binding_selftest=self.selftest,
            known_findings_seen=[f'{c} {k}' for c, k in self.found_known],
        ),
        assumptions=list(self.spec.get('assumptions', ())),
        wall_s=round(wall, 1), violations=len(self.violations))
    with open(os.path.join(HERE, 'evidence', self.pid + '.json'), 'w') as f:
      json.dump(ev, f, indent=1)
    for (clause, case), k in sorted(self.found_known.items()):
      print(f'KNOWN-FINDING: property={self.pid} {clause} [{case}] {k["what"]}')
    shown = {}
    for clause, case, path in self.violations:
      if path and clause not in shown:
        shown[clause] = path
        print(f'VIOLATION property={self.pid} replay={path}')
        print(f'  clause {clause} case {case}')
    if os.environ.get('VT_VERBOSE'):
      print('tags', sorted(self.tags))
      print('selftest', self.selftest)
      print('mc', [(m['module'], m['states'], m['actions']) for m in self.mc], 'gen', self.gen)
      print('timing', self.timing)
    print(f'{self.pid} {self.tier}: {len(self.violations)} violations, '
          f'{self.stats["records"]} records, {self.stats["states"]} states, '
          f'selftest {self.selftest["rejected"]}/{self.selftest["corrupted"]}, {wall:.1f} s')


def shorten(r, lim=3000):
  s = json.dumps(r)
  return r if len(s) <= lim else s[:lim] + '...'


def has(r, path):
  try:
    get(r, path)
    return True
  except (KeyError, IndexError, TypeError, ValueError):
    return False


def get(r, path):
  for k in path.split('.'):
    if isinstance(r, list):
      r = r[int(k)]
    else:
      r = r[k]
  return r


def mutate(r, path, how, rnd):
  ks = path.split('.')
  parent = get(r, '.'.join(ks[:-1])) if len(ks) > 1 else r
  k = int(ks[-1]) if isinstance(parent, list) else ks[-1]
  v = parent[k]
  if how == 'flip':
    parent[k] = not v
  elif how == 'drop':
    if not v:
      return False
    v.pop(rnd.randrange(len(v)))
  elif how == 'dup':
    if not v:
      return False
    v.append(copy.deepcopy(v[rnd.randrange(len(v))]))
  elif how == 'swap':
    if len(v) < 2 or v[0] == v[-1]:
      return False
    v[0], v[-1] = v[-1], v[0]
  elif how == 'str':
    parent[k] = v + '?'
  elif isinstance(how, int):
    if not isinstance(v, int):
      return False
    parent[k] = v + how
  else:
    raise ValueError(how)
  return True


def main():
  ap = argparse.ArgumentParser()
  ap.add_argument('property')
  ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick') or 'quick')
  a = ap.parse_args()
  try:
    sys.exit(Check(a.property, a.tier).main())
  except Machinery as e:
    print('MACHINERY ERROR:', e)
    sys.exit(2)


if __name__ == '__main__':
  main()
