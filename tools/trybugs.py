"""trybugs.py [IDs]: runs the property's check against every kept bug."""
import json
import os
import shutil
import subprocess
import sys
import tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [a for a in sys.argv[1:] if not a.startswith('-')] or \
    sorted(os.listdir(os.path.join(HERE, 'seeded')))
extra = [a for a in sys.argv[1:] if a.startswith('-')]
for i in ids:
    d = os.path.join(HERE, 'seeded', i)
    prop = json.load(open(os.path.join(d, 'meta.json')))['property']
    tmp = tempfile.mkdtemp(prefix='try-', dir='/tmp')
    try:
        repo = os.path.join(tmp, 'repo')
        shutil.copytree('/repo', repo, symlinks=True)
        subprocess.check_call(['git', '-C', repo, 'apply',
                               os.path.join(d, 'patch.diff')])
        r = subprocess.run(['python3', os.path.join(HERE, 'check.py'), prop,
                            '--repo', repo] + [x.replace('=', ' ').split()[0]
                            if '=' not in x else x for x in extra
                            if x != '-v'],
                           cwd=HERE, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT)
        out = r.stdout.decode().strip().splitlines()
        what = [l for l in out if l.startswith(('what', 'VIOL'))]
        print('%-24s %s exit %d  %s' % (i, prop, r.returncode,
                                        ' | '.join(what)[:300]))
        if '-v' in extra:
            print('\n'.join(out))
        sys.stdout.flush()
    finally:
        shutil.rmtree(tmp)
