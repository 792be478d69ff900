#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--repo DIR]

1. Contracts: every function the property depends on is read from the
   repository's current source, executed symbolically against its contract
   (pyvc), and every obligation discharged by z3 (or cvc5).
2. Bounded stand-ins: seeded search on the real code under the interpreter of
   the repository (rt), for what is beyond the verifier's reach and to find
   an input for a failed obligation.

Exit 0 or 1, nothing else.
"""
import argparse
import collections
import hashlib
import importlib.util
import json
import os
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
PY = '/opt/venv/bin/python'
VT = '/opt/veriftools/pyvenv/bin/python'
if not os.path.exists(PY):
    PY = 'python3'


def env_for(repo):
    e = dict(os.environ)
    e.update(PYTHONPATH=repo, PYTHONDONTWRITEBYTECODE='1',
             PYTHONHASHSEED='0', OMP_NUM_THREADS='1', BIGGUS_REPO=repo,
             PYTHONWARNINGS='ignore')
    return e


class Search(object):
    """Workers of the bounded search."""

    def __init__(self, prop, seed, workers, seconds, maxcases, repo, scratch,
                 salt=''):
        self.repo = repo
        self.seconds = seconds
        self.procs = []
        for w in range(workers):
            out = os.path.join(scratch, 'out%s.%d' % (salt, w))
            now = os.path.join(scratch, 'now%s.%d' % (salt, w))
            e = env_for(repo)
            e['RT_CURRENT'] = now
            p = subprocess.Popen(
                [PY, os.path.join(HERE, 'rt', 'drive.py'), 'search', prop,
                 str(seed), str(w), str(workers), str(seconds),
                 str(maxcases)], env=e, cwd=scratch,
                stdout=open(out, 'wb'), stderr=open(out + '.err', 'wb'))
            self.procs.append((p, out, now))
        self.t0 = time.time()

    def collect(self):
        per = collections.Counter()
        skipped = collections.Counter()
        samples, fails, notes = {}, [], []
        distinct = 0
        for p, out, now in self.procs:
            left = self.t0 + self.seconds + 45 - time.time()
            hung = False
            try:
                p.wait(timeout=max(left, 1))
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
                hung = True
            try:
                d = json.loads(open(out).read().strip().splitlines()[-1])
            except Exception:
                err = open(out + '.err', errors='replace').read()[-400:]
                notes.append('search worker %s: %s' % (
                    'stopped' if hung else 'gave no result', err))
                if os.path.exists(now):
                    try:
                        case = json.load(open(now))
                        fails.append({'case': case, 'hang': True, 'message':
                                      'does not terminate'})
                    except ValueError:
                        pass
                continue
            per.update(d['per'])
            skipped.update(d['skipped'])
            distinct += d['distinct']
            fails += d['fails']
            for k, v in d['samples'].items():
                samples.setdefault(k, v)
        return per, skipped, distinct, samples, fails, notes


def replay(case, repo, scratch, times, limit=60):
    """True if the case fails in a fresh process."""
    path = os.path.join(scratch, 'case.json')
    with open(path, 'w') as f:
        json.dump({'case': case}, f)
    try:
        r = subprocess.run([PY, os.path.join(HERE, 'rt', 'drive.py'),
                            'replay', path, str(times)], env=env_for(repo),
                           cwd=scratch, timeout=limit,
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    except subprocess.TimeoutExpired:
        return None, 'does not terminate within %d s' % limit
    text = r.stdout.decode(errors='replace').strip()
    return (r.returncode == 1 and text.startswith('FAILS')), text


def confirm(fail, repo, scratch):
    """A failure counts only if a fresh process fails on the same case."""
    case = fail['case']
    if fail.get('hang'):
        a, _ = replay(case, repo, scratch, 1, 40)
        return a is None or a is True
    for times in (1, 1, 20):
        ok, text = replay(case, repo, scratch, times, 90)
        if ok or ok is None:
            return True
        if case.get('law') not in ('engine', 'joint', 'fault') and \
                times == 1:
            continue
    return False


def load_known():
    try:
        return json.load(open(os.path.join(HERE, 'known_findings.json')))
    except (IOError, ValueError):
        return {'known': [], 'fixed': []}


def contracts(prop, tier, repo, scratch, seconds):
    """Start the verifier; it prints one JSON line."""
    path = os.path.join(HERE, 'contracts', '%s.py' % prop)
    if not os.path.exists(path):
        return None
    out = os.path.join(scratch, 'vc.out')
    e = dict(os.environ)
    e.update(BIGGUS_REPO=repo, PYTHONDONTWRITEBYTECODE='1',
             PYTHONHASHSEED='0', PYTHONPATH=HERE)
    p = subprocess.Popen([VT, '-m', 'pyvc.run', prop, tier, str(seconds),
                          '5'],
                         env=e, cwd=HERE, stdout=open(out, 'wb'),
                         stderr=open(out + '.err', 'wb'))
    return p, out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--repo', default='/repo')
    ap.add_argument('--seconds', type=float)
    a = ap.parse_args()
    if a.tier not in ('quick', 'thorough'):
        a.tier = 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    with tempfile.TemporaryDirectory(prefix='biggus-check-') as scratch:
        sys.exit(run(a, seed, scratch))


def run(a, seed, scratch):
    t0 = time.time()
    prop, tier = a.property, a.tier
    evid = os.path.join(HERE, 'evidence')
    rep = os.path.join(evid, 'replays')
    os.makedirs(rep, exist_ok=True)
    quick = tier == 'quick'
    seconds = a.seconds or (25 if quick else 300)
    has_vc = os.path.exists(os.path.join(HERE, 'contracts', prop + '.py'))
    vc_seconds = 150 if quick else 900
    vc = contracts(prop, tier, a.repo, scratch, vc_seconds)
    workers = 3 if has_vc else 6
    if not quick:
        workers = 5 if has_vc else 8
    search = Search(prop, seed, workers, seconds, 10 ** 7, a.repo, scratch)
    per, skipped, distinct, samples, fails, notes = search.collect()
    results = []
    vc_error = None
    if vc:
        p, out = vc
        try:
            p.wait(timeout=max(1, vc_seconds + 120 - (time.time() - t0)))
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
        try:
            results = json.loads(
                open(out).read().strip().splitlines()[-1])['contracts']
        except Exception:
            vc_error = open(out + '.err', errors='replace').read()[-1500:]
            notes.append('verifier gave no result: ' + vc_error)
    # -- violations found by the bounded search, confirmed afresh
    known = load_known()
    known_hashes = {k.get('case_md5'): k for k in known.get('known', [])}
    violations, printed_known = [], []
    for f in fails:
        if len(violations) >= 3:
            break
        if not confirm(f, a.repo, scratch):
            notes.append('a failure did not repeat in a fresh process: %s'
                         % json.dumps(f['case'])[:300])
            continue
        h = hashlib.md5(json.dumps(f['case'], sort_keys=True)
                        .encode()).hexdigest()
        if h in known_hashes:
            printed_known.append(known_hashes[h])
            continue
        path = os.path.join(rep, '%s-%s.json' % (prop, h[:10]))
        failed = [{'contract': r['name'], 'obligation': o['name'],
                   'model': o.get('model'), 'detail': o.get('detail')}
                  for r in results for o in r['failed']]
        with open(path, 'w') as fh:
            json.dump({'property': prop, 'case': f['case'],
                       'message': f['message'],
                       'failed_obligations': failed,
                       'replay': 'PYTHONPATH=%s %s rt/drive.py replay %s 20'
                       % (a.repo, PY, path)}, fh, indent=1, sort_keys=True)
        violations.append((path, '', f['message']))
    # -- failed obligations
    undecided = []
    if vc:
        import baseline_of
        base = baseline_of.load(HERE, prop)
        for r in results:
            for o in r['failed']:
                key = '%s/%s' % (r['name'], o['name'])
                # Only a definite refutation of an obligation that is
                # discharged for the unchanged tree counts, and only if no
                # loop invariant was lost on the way.
                definite = (o['status'] == 'failed' and not o.get('loose')
                            and not r.get('restricted')
                            and key in base)
                if violations:
                    continue
                if not definite:
                    undecided.append(key)
                    continue
                h = hashlib.md5(key.encode()).hexdigest()
                path = os.path.join(rep, '%s-vc-%s.json' % (prop, h[:10]))
                hit = hunt(prop, seed, o, r, a, scratch, notes, quick)
                if hit:
                    case, msg = hit
                    with open(path, 'w') as fh:
                        json.dump({'property': prop, 'case': case,
                                   'message': msg,
                                   'failed_obligation': key,
                                   'model': o.get('model')}, fh, indent=1)
                    violations.append((path, '', msg))
                else:
                    with open(path, 'w') as fh:
                        json.dump({'property': prop,
                                   'failed_obligation': key,
                                   'model': o.get('model'),
                                   'verifier_output': o.get('detail'),
                                   'functions': r.get('functions')}, fh,
                                  indent=1)
                    violations.append((path, ' no-failing-input-found',
                                       'obligation %s' % key))
    write_evidence(prop, tier, seed, t0, per, skipped, distinct, samples,
                   results, notes, violations, undecided, evid)
    for k in printed_known:
        print('KNOWN-FINDING: property=%s %s' % (prop, k.get('what', '')))
    for r in results:
        print('contract %-46s obligations %4d discharged %4d %s' % (
            r['name'], r['obligations'], r['discharged'],
            '' if r['complete'] else 'UNPROVED: %s' % '; '.join(
                r['limitations'])[:160]))
    for n in notes:
        print('note: %s' % n[:400])
    print('%s: bounded cases %d (distinct %d); obligations %d, discharged %d; '
          '%.0f s' % (prop, sum(per.values()), distinct,
                      sum(r['obligations'] for r in results),
                      sum(r['discharged'] for r in results),
                      time.time() - t0))
    for path, words, msg in violations[:1]:
        print('what: %s' % (msg or '')[:400])
    if violations:
        print('VIOLATION property=%s replay=%s%s' % (
            prop, violations[0][0], violations[0][1]))
        return 1
    return 0


def hunt(prop, seed, o, r, a, scratch, notes, quick):
    """Look for an input on which the real code shows the failed obligation:
    the cases made from the verifier's counterexample, then a longer
    search."""
    for case in o.get('cases', [])[:40]:
        ok, text = replay(case, a.repo, scratch, 1, 60)
        if ok or ok is None:
            return case, text
    s = Search(prop, seed + 7919, 7, 60 if quick else 200, 10 ** 7, a.repo,
               scratch, salt='h')
    fails = s.collect()[4]
    for f in fails:
        if confirm(f, a.repo, scratch):
            return f['case'], f['message']
    return None


RULE = ('cases are drawn by seeded generators (rt/gen.py, rt/streams.py); a '
        'case is counted when it is distinct from the earlier ones of its '
        'worker, its index expressions are valid where validity is required, '
        'and the oracle (rt/model.py, plain NumPy) defines a result')


def write_evidence(prop, tier, seed, t0, per, skipped, distinct, samples,
                   results, notes, violations, undecided, evid):
    level = manifest_level(prop)
    ob = sum(r['obligations'] for r in results)
    dis = sum(r['discharged'] for r in results)
    trusted, functions, unproved = [], [], []
    for r in results:
        for t in r.get('trusted', []):
            if t not in trusted:
                trusted.append(t)
        functions.append({
            'contract': r['name'], 'functions': r['functions'],
            'obligations': r['obligations'], 'discharged': r['discharged'],
            'paths': r['paths'], 'back_ends': r['backends'],
            'solver_s': round(r['solver_s'], 2),
            'bound': r.get('bound') or 'none',
            'complete': r['complete'],
            'unproved_because': r['limitations']})
        if not r['complete']:
            unproved.append(r['name'])
    import baseline_of
    seen = set()
    for r in results:
        seen.update('%s/%s' % (r['name'], n) for n in r.get('names', ()))
        seen.add(r['name'])
    missing = sorted(set(baseline_of.load(HERE, prop)) - seen)
    cov = {
        'missing_obligations': missing[:40],
        'evaluations': sum(per.values()),
        'distinct_nontrivial': distinct,
        'rule': RULE,
        'samples': [samples[k] for k in sorted(samples)][:6],
        'bounded_stand_in': {'per_stream': dict(per),
                             'skipped': dict(skipped)},
        'obligations': ob, 'discharged': dis,
        'checker_cmd': 'cd /verif && PYTHONPATH=/verif BIGGUS_REPO=/repo '
                       '%s -m pyvc.run %s %s 150 5' % (VT, prop, tier),
        'trusted_base': trusted or ['the oracle rt/model.py (NumPy)'],
        'functions_under_contract': functions,
        'unproved_contracts': unproved,
        'undecided_obligations': undecided,
        'notes': notes[:10],
    }
    if level == 'other':
        cov['explanation'] = (
            'The contracts listed under functions_under_contract are '
            'discharged by the solver for every extent, index value, shape '
            'value and element value; what is enumerated instead of '
            'quantified over is named in each contract\'s bound (ranks and '
            'key kinds).  The functions without a contract are exercised by '
            'the bounded stand-in only, which is not counted as proved.')
    data = {'property': prop, 'tier': tier, 'seed': seed, 'level': level,
            'coverage': cov, 'wall_s': round(time.time() - t0, 2),
            'assumptions': trusted + [
                'bounded stand-ins: the oracle is NumPy on small arrays'],
            'violations': len(violations)}
    with open(os.path.join(evid, '%s.json' % prop), 'w') as f:
        json.dump(data, f, indent=1, sort_keys=True, default=str)


def manifest_level(prop):
    try:
        for c in json.load(open(os.path.join(HERE,
                                             'MANIFEST.json')))['checks']:
            if c['property'] == prop:
                return c['level']
    except (IOError, ValueError, KeyError):
        pass
    return 'exploration'


if __name__ == '__main__':
    sys.path.insert(0, HERE)
    main()
