"""mkseed.py SPEC.py: SPEC defines ID, PROPERTY, EDITS=[(file, old, new)], NEEDS, BREAKS, DEMO (python source). Writes seeded/<ID>/."""
import difflib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def make(ns):
  d = f'{V}/seeded/{ns["ID"]}'
  os.makedirs(d, exist_ok=True)
  files = {}
  for f, old, new in ns['EDITS']:
    s = files.get(f) or open(f'/repo/{f}').read()
    assert s.count(old) == 1, (f, s.count(old), old)
    files[f] = s.replace(old, new)
  out = ''
  for f, s in files.items():
    a = open(f'/repo/{f}').read().splitlines(True)
    out += ''.join(difflib.unified_diff(a, s.splitlines(True), f'a/{f}', f'b/{f}'))
  open(f'{d}/patch.diff', 'w').write(out)
  open(f'{d}/demo.py', 'w').write(ns['DEMO'].lstrip('\n'))
  open(f'{d}/demo.sh', 'w').write('''#!/bin/bash
. /opt/vp/support/env.sh
export PYTHONPATH="$PWD:/opt/vp/support"
''' + ns.get('ENV', '') + '''exec /opt/venv/bin/python "$(dirname "$0")/demo.py"
''')
  os.chmod(f'{d}/demo.sh', 0o755)
  json.dump(dict(property=ns['PROPERTY'], needs=ns['NEEDS'], what_it_breaks=ns['BREAKS']), open(f'{d}/meta.json', 'w'), indent=1)
for p in sys.argv[1:]:
  ns = {}
  exec(open(p).read(), ns)
  make(ns)
  print(ns['ID'])
