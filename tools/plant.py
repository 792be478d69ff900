"""plant.py FILE.py...: each file defines BUGS, a list of dicts
{id, property, edits: [(file, old, new)], demo, needs, breaks}.

Makes a scratch copy of /repo, applies the edits, runs the tests and the
demonstration with and without the change, and keeps the change under
/verif/seeded/<id> if everything is as required."""
import concurrent.futures
import json
import os
import runpy
import shutil
import subprocess
import sys
import tempfile
import xml.etree.ElementTree as ET

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
HEAD = '''#!/bin/bash
# Run with cwd = the repository.
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1
exec timeout 120 /opt/venv/bin/python "$(dirname "$0")/demo.py"
'''


def env(repo):
    e = dict(os.environ)
    e.update(PYTHONPATH=repo, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0')
    return e


def tests(repo, tmp):
    rep = os.path.join(tmp, 'report.xml')
    subprocess.run([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider',
                    '--timeout=300', '--continue-on-collection-errors', '-o',
                    'junit_family=xunit2', '--junitxml', rep, 'biggus'],
                   cwd=repo, env=env(repo), stdout=subprocess.DEVNULL,
                   stderr=subprocess.DEVNULL)
    out = os.path.join(tmp, 'out.json')
    subprocess.run(['/usr/bin/python3', '/opt/vp/results.py', out,
                    'junit:' + rep], stdout=subprocess.DEVNULL)
    d = json.load(open(out))
    base = json.load(open('/opt/vp/BASELINE.json'))
    return d, base


def names(d):
    if isinstance(d, dict):
        for k in ('stable', 'passed', 'pass', 'stable_pass', 'tests'):
            if k in d:
                return set(d[k])
    return set(d)


def one(bug):
    tmp = tempfile.mkdtemp(prefix='plant-', dir='/tmp')
    try:
        repo = os.path.join(tmp, 'repo')
        shutil.copytree('/repo', repo, symlinks=True)
        for f, old, new in bug['edits']:
            p = os.path.join(repo, f)
            s = open(p).read()
            if s.count(old) != 1:
                return bug['id'], 'edit matches %d times: %r' % (
                    s.count(old), old)
            open(p, 'w').write(s.replace(old, new))
        d, base = tests(repo, tmp)
        missing = sorted(names(base) - names(d))
        if missing:
            return bug['id'], 'tests catch it: %s' % missing[:3]
        dest = os.path.join(tmp, 'seed')
        os.makedirs(dest)
        open(os.path.join(dest, 'demo.py'), 'w').write(bug['demo'])
        p = os.path.join(dest, 'demo.sh')
        open(p, 'w').write(HEAD)
        os.chmod(p, 0o755)
        a = subprocess.run(['bash', p], cwd='/repo', stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT)
        b = subprocess.run(['bash', p], cwd=repo, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT)
        if a.returncode != 0:
            return bug['id'], 'demo fails on the original: %s' % \
                a.stdout.decode()[-600:]
        if b.returncode == 0:
            return bug['id'], 'demo passes with the bug'
        diff = subprocess.check_output(['git', '-C', repo, 'diff'])
        open(os.path.join(dest, 'patch.diff'), 'wb').write(diff)
        json.dump({'property': bug['property'], 'needs': bug['needs'],
                   'what_it_breaks': bug['breaks']},
                  open(os.path.join(dest, 'meta.json'), 'w'), indent=1)
        final = os.path.join(HERE, 'seeded', bug['id'])
        if os.path.exists(final):
            shutil.rmtree(final)
        shutil.copytree(dest, final)
        return bug['id'], 'kept'
    finally:
        shutil.rmtree(tmp)


def main():
    bugs = []
    for f in sys.argv[1:]:
        bugs += runpy.run_path(f)['BUGS']
    with concurrent.futures.ThreadPoolExecutor(7) as ex:
        for r in ex.map(one, bugs):
            print('%s: %s' % r)
            sys.stdout.flush()


main()
