'''Writes MANIFEST.json from properties.jsonl and checks/*.py'''
import importlib
import json
import os
import sys

sys.dont_write_bytecode = True
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from harness import boot  # noqa: E402

boot.setup(None)
checks = []
missing = []
for line in open(os.path.join(ROOT, 'properties.jsonl')):
    p = json.loads(line)
    if not os.path.exists(os.path.join(ROOT, 'checks', p['id'] + '.py')):
        missing.append({'property': p['id'], 'reason': 'check not built yet'})
        continue
    m = importlib.import_module('checks.' + p['id'])
    checks.append({
        'property': p['id'],
        'quick_cmd': '/opt/venv/bin/python run.py %s quick' % p['id'],
        'thorough_cmd': '/opt/venv/bin/python run.py %s thorough' % p['id'],
        'technique': m.TECHNIQUE,
        'level': m.PROPERTY.level,
        'level_note': m.NOTE,
    })
d = {'version': 1, 'setup_cmd': '/opt/venv/bin/python run.py --selftest', 'checks': checks,
     'not_applicable': missing,
     'notes': 'No hooks: the code under test is driven through its own entry points with the kernel '
              'interface, the clock and worker threads replaced from outside.'}
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as fh:
    json.dump(d, fh, indent=1)
    fh.write('\n')
print(len(checks), 'checks', len(missing), 'missing')
