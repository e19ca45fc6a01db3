"""setup_cmd: checks that the toolchain is there and that every spec parses."""
import glob
import os
import subprocess
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
bad = 0
mods = sorted(glob.glob(os.path.join(HERE, 'spec', '*.tla')))
p = subprocess.run(['java', '-cp', JARS, 'tla2sany.SANY'] + [os.path.basename(m) for m in mods],
                   cwd=os.path.join(HERE, 'spec'), capture_output=True, text=True)
if p.returncode:
  print(p.stdout[-4000:], p.stderr[-2000:])
  sys.exit(1)
os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
print(f'{len(mods)} specification modules parse')
