"""Writes contracts/discharged.json: for each property the obligations (and
the contracts that are complete) on the unchanged tree.

tools/record.py [PROP ...]"""
import glob
import json
import os
import subprocess
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
path = os.path.join(HERE, 'contracts', 'discharged.json')
try:
    data = json.load(open(path))
except (IOError, ValueError):
    data = {}
props = sys.argv[1:] or sorted(
    os.path.basename(p)[:-3]
    for p in glob.glob(os.path.join(HERE, 'contracts', 'C[0-9][0-9].py')))
for prop in props:
    e = dict(os.environ, PYTHONPATH=HERE, PYTHONHASHSEED='0',
             PYTHONDONTWRITEBYTECODE='1')
    out = subprocess.run(
        ['/opt/veriftools/pyvenv/bin/python', '-m', 'pyvc.run', prop,
         'quick', '300', '8'], cwd=HERE, env=e, stdout=subprocess.PIPE)
    res = json.loads(out.stdout.decode().strip().splitlines()[-1])
    keys = []
    for r in res['contracts']:
        bad = set(o['name'] for o in r['failed'])
        keys += ['%s/%s' % (r['name'], n) for n in r['names']
                 if n not in bad]
        if r['complete']:
            keys.append(r['name'])
        print('%s %-50s %4d/%4d %5.1fs %s' % (
            prop, r['name'], r['discharged'], r['obligations'],
            r.get('seconds', 0), '' if r['complete'] else 'INCOMPLETE %s %s'
            % (r['limitations'][:2], sorted(bad)[:3])))
    data[prop] = sorted(keys)
json.dump(data, open(path, 'w'), indent=0, sort_keys=True)
