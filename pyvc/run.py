"""python3-vt -m pyvc.run PROP TIER SECONDS WORKERS

Runs the contracts of one property against the current source; the last line
of the output is a JSON object with the results."""
import json
import multiprocessing as mp
import os
import sys
import time
import traceback
import warnings

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Env(object):
    """What a contract sees: the namespace of the instrumented module."""

    def __init__(self, repo):
        from . import load, npmodel
        self.repo = repo
        self.loader = load.Loader(repo)
        self.np = npmodel.proxies()
        self.g = self.loader.core(self.np)
        self.original = dict(self.g)

    def reset(self):
        """Undo the substitutions of callees by their contracts."""
        for k in list(self.g):
            if k not in self.original:
                if k != 'vc__':
                    del self.g[k]
            elif self.g[k] is not self.original[k]:
                self.g[k] = self.original[k]
        self.np._models.clear()
        self.np.ma._models.clear()

    def module(self, rel, name):
        return self.loader.load(rel, name, self.np)


class Contract(object):
    def __init__(self, name, fn, functions, bound=None, trusted=(),
                 seconds=None, cases=None, note=''):
        self.name = name
        self.fn = fn
        self.functions = list(functions)
        self.bound = bound
        self.trusted = list(trusted)
        self.seconds = seconds
        self.cases = cases
        self.note = note
        self.only = None
        self.user = {}


def select(con, pattern, suffix='', functions=None, **user):
    """The obligations of a contract whose names match: those which belong to
    one property."""
    import copy
    import re
    r = copy.copy(con)
    r.name = con.name + suffix
    r.only = re.compile('(?:%s)$' % pattern)
    r.user = user
    if functions is not None:
        r.functions = list(functions)
    return r


def contract(name, functions, **k):
    def wrap(fn):
        return Contract(name, fn, functions, **k)
    return wrap


def load_contracts(prop):
    import importlib
    sys.path.insert(0, HERE)
    m = importlib.import_module('contracts.' + prop)
    return m.CONTRACTS


def verify(con, repo, deadline, tier='quick', stop=False):
    """One contract -> result dictionary."""
    from . import core
    t0 = time.time()
    res = dict(name=con.name, functions=con.functions, trusted=con.trusted,
               bound=con.bound, bounded_only=bool(con.bound), obligations=0,
               discharged=0, paths=0, backends={}, solver_s=0.0,
               complete=False, limitations=[], failed=[], names={})
    try:
        env = Env(repo)
    except Exception as err:
        res['limitations'] = ['cannot load the source: %r' % err]
        return res
    c = core.Ctx(con.name, deadline)
    c.files = env.loader.files
    c.tier = tier
    c.stop_on_failure = stop
    c.only = con.only

    def body(c):
        env.reset()
        c.user.update(con.user)
        con.fn(c, env)
    try:
        c.explore(body)
    except Exception:
        c.limit('verifier error: ' + traceback.format_exc()[-300:])
    res['paths'] = c.paths
    res['restarts'] = c.restarts
    res['solver_s'] = round(c.solver_seconds, 3)
    res['queries'] = c.queries
    res['seconds'] = round(time.time() - t0, 2)
    failed = {}
    for o in c.obligations:
        res['obligations'] += 1
        res['names'][o.name] = res['names'].get(o.name, 0) + 1
        if o.status == 'proved':
            res['discharged'] += 1
            res['backends'][o.backend] = res['backends'].get(o.backend,
                                                             0) + 1
            continue
        f = failed.get(o.name)
        if f is None or (f['status'] != 'failed' and o.status == 'failed'):
            failed[o.name] = f = dict(name=o.name, status=o.status,
                                      model=o.model, detail=o.detail,
                                      loose=o.loose, cases=[], n=0)
        f['n'] += 1
        if con.cases and o.model and len(f['cases']) < 20:
            try:
                f['cases'] += con.cases(o.name, o.model) or []
            except Exception as err:
                f['detail'] += ' [no case: %r]' % err
    res['failed'] = list(failed.values())
    res['limitations'] = ['%s (%d paths)' % kv for kv in
                          sorted(c.limitations.items())]
    res['complete'] = not failed and not c.limitations and \
        res['obligations'] > 0
    return res


def _work(a):
    prop, i, repo, deadline, tier = a
    con = load_contracts(prop)[i]
    d = deadline
    if con.seconds and tier == 'quick':
        d = min(d, time.time() + con.seconds)
    try:
        r = verify(con, repo, d, tier)
    except BaseException:
        r = dict(name=con.name, functions=con.functions, obligations=0,
                 discharged=0, paths=0, backends={}, solver_s=0,
                 complete=False, limitations=['verifier error: %s' %
                                              traceback.format_exc()[-500:]],
                 failed=[], bound=con.bound, bounded_only=bool(con.bound),
                 trusted=con.trusted, names={})
    return i, r


def main():
    prop, tier, seconds, workers = sys.argv[1:5]
    repo = os.environ.get('BIGGUS_REPO', '/repo')
    cons = load_contracts(prop)
    deadline = time.time() + float(seconds)
    only = sys.argv[5] if len(sys.argv) > 5 else None
    jobs = [(prop, i, repo, deadline, tier) for i in range(len(cons))
            if not only or only in cons[i].name]
    out = {}
    sys.setrecursionlimit(5000)
    warnings.simplefilter('ignore')
    with mp.get_context('fork').Pool(min(int(workers), len(jobs)) or 1,
                                     maxtasksperchild=1) as pool:
        for i, r in pool.imap_unordered(_work, jobs, chunksize=1):
            out[i] = r
            if only is not None or os.environ.get('PYVC_VERBOSE'):
                show(r)
    print(json.dumps({'contracts': [out[j[1]] for j in jobs]}))


def show(r):
    print('%-40s paths %4d obligations %4d discharged %4d %5.1fs restarts %d '
          '%s' % (r['name'], r['paths'], r['obligations'], r['discharged'],
                  r.get('seconds', 0), r.get('restarts', 0),
                  '' if r['complete'] else 'INCOMPLETE'))
    for f in r['failed']:
        print('   %s: %s %s %s' % (f['status'], f['name'], f['model'],
                                   f['detail'][:300]))
    for x in r['limitations']:
        print('   limitation:', x[:400])
    sys.stdout.flush()


if __name__ == '__main__':
    main()
