"""Bounded search (runs under the interpreter of /repo).

  drive.py search PROPERTY SEED WORKER NWORKERS SECONDS MAXCASES
  drive.py replay FILE [TIMES]

search prints one JSON line: counts per stream, samples, failures.
replay exits 1 (and prints the failure) if the case in FILE fails.
"""
from __future__ import absolute_import, division, print_function
import collections
import hashlib
import json
import os
import sys
import time
import traceback
import warnings
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
warnings.simplefilter('ignore')
import numpy as np
np.seterr(all='ignore')
np.warnings.filterwarnings('ignore') if hasattr(np, 'warnings') else None


def search(prop, seed, worker, nworkers, seconds, maxcases):
    import gen
    import laws
    import streams
    from model import InvalidIndex, Skip
    todo = streams.STREAMS[prop]
    weights = [s[2] if len(s) > 2 else 1 for s in todo]
    t0 = time.time()
    per = collections.Counter()
    skipped = collections.Counter()
    seen = set()
    samples = {}
    fails = []
    n = 0
    i = worker
    decks = {}
    current = os.environ.get('RT_CURRENT')
    while n < maxcases and time.time() - t0 < seconds and len(fails) < 4:
        r = gen.G(seed * 1000003 + i, decks)
        i += nworkers
        # streams in a fixed weighted rotation
        pick = r.r.random() * sum(weights)
        for (name, make), w in zip([s[:2] for s in todo], weights):
            pick -= w
            if pick <= 0:
                break
        r.stream = name
        try:
            case = make(r)
        except (InvalidIndex, Skip):
            skipped[name] += 1
            n += 1
            continue
        if case is None:
            skipped[name] += 1
            n += 1
            continue
        case['stream'] = name
        text = json.dumps(case, sort_keys=True)
        n += 1
        h = hashlib.md5(text.encode()).digest()
        if h in seen:
            continue
        if current:
            with open(current, 'w') as f:
                f.write(text)
        try:
            msg = laws.check(case)
        except (InvalidIndex, Skip):
            skipped[name] += 1
            continue
        except Exception as err:
            frames = [f[0] for f in traceback.extract_tb(sys.exc_info()[2])]
            if any('biggus' in os.path.basename(os.path.dirname(f))
                   for f in frames):
                fails.append({'case': case, 'message': '%s: %s' % (
                    type(err).__name__, err)})
                continue
            # The oracle, not the code under test, failed.
            skipped['%s: oracle %s' % (name, type(err).__name__)] += 1
            continue
        seen.add(h)
        per[name] += 1
        if name not in samples or (len(text) < len(json.dumps(
                samples[name])) and per[name] < 20):
            samples[name] = case
        if msg:
            fails.append({'case': case, 'message': msg})
    print(json.dumps({'per': per, 'skipped': skipped,
                      'distinct': len(seen), 'samples': samples,
                      'fails': fails, 'seconds': time.time() - t0}))
    sys.stdout.flush()
    os._exit(0)


def replay(path, times):
    import laws
    from model import InvalidIndex, Skip
    data = json.load(open(path))
    case = data['case'] if 'case' in data else data
    for _ in range(times):
        try:
            msg = laws.check(case)
        except (InvalidIndex, Skip):
            msg = None
        if msg:
            print('FAILS: %s' % msg)
            sys.stdout.flush()
            os._exit(1)
    print('holds')
    sys.stdout.flush()
    os._exit(0)


def cases(path):
    """Check every case of a JSON-lines file; print the failing ones."""
    import laws
    from model import InvalidIndex, Skip
    out = []
    for line in open(path):
        case = json.loads(line)
        try:
            msg = laws.check(case)
        except (InvalidIndex, Skip):
            msg = None
        except Exception as err:
            msg = None
        if msg:
            out.append({'case': case, 'message': msg})
            if len(out) > 3:
                break
    print(json.dumps(out))
    sys.stdout.flush()
    os._exit(0)


if __name__ == '__main__':
    if sys.argv[1] == 'search':
        search(sys.argv[2], int(sys.argv[3]), int(sys.argv[4]),
               int(sys.argv[5]), float(sys.argv[6]), int(sys.argv[7]))
    elif sys.argv[1] == 'cases':
        cases(sys.argv[2])
    else:
        replay(sys.argv[2], int(sys.argv[3]) if len(sys.argv) > 3 else 1)
