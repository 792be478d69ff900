"""Nothing to build: checks the interpreters the checks need."""
import os
import subprocess
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.makedirs(os.path.join(HERE, 'evidence', 'replays'), exist_ok=True)
ok = True
for cmd in (['/opt/venv/bin/python', '-c', 'import numpy, six'],
            ['/opt/veriftools/pyvenv/bin/python', '-c', 'import z3, numpy']):
    r = subprocess.run(cmd)
    ok = ok and r.returncode == 0
    print(' '.join(cmd), 'ok' if r.returncode == 0 else 'MISSING')
sys.exit(0 if ok else 1)
