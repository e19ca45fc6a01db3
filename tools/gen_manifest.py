"""Writes MANIFEST.json from the registry of checks and properties.jsonl."""
import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import checks

props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
out = []
na = []
for p in props:
  i = p['id']
  if i not in checks.CHECKS:
    na.append(dict(property=i, reason=checks.NOT_APPLICABLE.get(i, 'no check has been built yet')))
    continue
  c = checks.CHECKS[i]
  out.append(dict(
      property=i,
      quick_cmd=f'python3 run.py {i} --tier quick',
      thorough_cmd=f'python3 run.py {i} --tier thorough',
      evidence_file=f'evidence/{i}.json',
      technique=c.get('technique', 'TLA+ specification: TLC model checking of the design, and TLC '
                      'trace validation of executions recorded from the real code'),
      level='model_checking',
      level_note=c.get('note', checks.NOTE)))
m = dict(version=1, setup_cmd='python3 tools/setup.py', checks=out, not_applicable=na,
         notes='No hooks are needed in /repo: everything is observed through public API, so there '
               'is no guard. Checks stage a copy of /repo/putting_dune in a scratch directory and '
               'remove it.')
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(out), 'claimed', len(na), 'not')
