#!/usr/bin/env python3
"""tools/mutate.py OUT.jsonl [EVERY [OFFSET]]: systematic small changes of the
modules of /repo which the test suite does not notice (planted-bug material;
no check uses this).  Runs in scratch copies under /tmp."""
import ast
import json
import os
import shutil
import subprocess
import sys
from multiprocessing import Pool

FILES = ['biggus/_init.py', 'biggus/experimental/dask_engine.py',
         'biggus/experimental/key_grouper.py']
SWAP = {'masked_array': 'ndarray', 'ndarray': 'masked_array',
        'start': 'stop', 'stop': 'start', 'shape': 'fullshape',
        'min': 'max', 'max': 'min', 'append': 'extend',
        'dtype': 'otype', 'any': 'all', 'all': 'any', 'put': 'get'}
CMP = {'Lt': '<', 'LtE': '<=', 'Gt': '>', 'GtE': '>=', 'Eq': '==',
       'NotEq': '!=', 'Is': 'is', 'IsNot': 'is not', 'In': 'in',
       'NotIn': 'not in'}
TO = {'Lt': ['<=', '>='], 'LtE': ['<', '>'], 'Gt': ['>=', '<='],
      'GtE': ['>', '<'], 'Eq': ['!='], 'NotEq': ['=='], 'Is': ['is not'],
      'IsNot': ['is'], 'In': ['not in'], 'NotIn': ['in']}


def mutants(text):
    tree = ast.parse(text)
    lines = text.split('\n')
    starts = [0]
    for l in lines:
        starts.append(starts[-1] + len(l.encode()) + 1)
    raw = text.encode()

    def span(n):
        return (starts[n.lineno - 1] + n.col_offset,
                starts[n.end_lineno - 1] + n.end_col_offset)

    def src(n):
        a, b = span(n)
        return raw[a:b].decode()
    out = []

    def rep(n, new, what, fn):
        a, b = span(n)
        out.append((a, b, new, what, fn, n.lineno))

    def visit(n, fn, cls):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            name = (fn + '.' if fn else '') + n.name
            for ch in n.body:
                visit(ch, name, cls)
            if isinstance(n, ast.FunctionDef):
                for d in n.args.defaults:
                    visit(d, name, cls)
            return
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            return
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            op = type(n.ops[0]).__name__
            for t in TO.get(op, ()):
                rep(n, '%s %s %s' % (src(n.left), t, src(n.comparators[0])),
                    'cmp', fn)
        if isinstance(n, ast.BoolOp):
            t = ' or ' if isinstance(n.op, ast.And) else ' and '
            rep(n, '(' + t.join(src(v) for v in n.values) + ')', 'bool', fn)
            for v in n.values:
                rep(n, '(' + src(v) + ')', 'boolpart', fn)
        if isinstance(n, ast.BinOp):
            l, r = src(n.left), src(n.right)
            t = {'Add': '-', 'Sub': '+', 'Mult': '+', 'FloorDiv': '*',
                 'Mod': '*', 'Div': '//'}.get(type(n.op).__name__)
            if t and not isinstance(n.left, ast.Constant):
                rep(n, '%s %s %s' % (l, t, r), 'bin', fn)
            if isinstance(n.op, (ast.Add, ast.Sub)):
                rep(n, l, 'left', fn)
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            rep(n, '(%s)' % src(n.operand), 'not', fn)
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
            rep(n, '(%s)' % src(n.operand), 'neg', fn)
        if isinstance(n, (ast.If, ast.While, ast.IfExp)):
            if isinstance(n, ast.IfExp):
                rep(n, '(%s)' % src(n.body), 'ifbody', fn)
                rep(n, '(%s)' % src(n.orelse), 'ifelse', fn)
            elif isinstance(n, ast.If):
                rep(n.test, 'False', 'never', fn)
                rep(n.test, 'True', 'always', fn)
        if isinstance(n, ast.Constant) and type(n.value) is int:
            rep(n, str(n.value + 1), 'const', fn)
            if n.value:
                rep(n, str(n.value - 1), 'const', fn)
        if isinstance(n, ast.Constant) and type(n.value) is bool:
            rep(n, str(not n.value), 'const', fn)
        if isinstance(n, ast.Attribute) and n.attr in SWAP:
            rep(n, src(n.value) + '.' + SWAP[n.attr], 'attr', fn)
        if isinstance(n, ast.Call):
            for i, k in enumerate(n.keywords):
                args = [src(a) for a in n.args] + [
                    (kk.arg + '=' if kk.arg else '**') + src(kk.value)
                    for j, kk in enumerate(n.keywords) if j != i]
                rep(n, src(n.func) + '(' + ', '.join(args) + ')', 'kw', fn)
            if len(n.args) >= 2 and not any(
                    isinstance(a, ast.Starred) for a in n.args):
                a, b = span(n.args[0])[0], span(n.args[1])[1]
                out.append((a, b, src(n.args[1]) + ', ' + src(n.args[0]),
                            'args', fn, n.lineno))
            if len(n.args) == 1 and not n.keywords and isinstance(
                    n.func, ast.Name) and n.func.id in (
                        'abs', 'sorted', 'list', 'tuple', 'reversed', 'int',
                        'bool', 'len', 'operator', 'iter', 'set'):
                rep(n, src(n.args[0]), 'wrap', fn)
        if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice):
            for part in ('lower', 'upper', 'step'):
                p = getattr(n.slice, part)
                if p is not None:
                    a, b = span(p)
                    out.append((a, b, '', 'slice', fn, n.lineno))
        if isinstance(n, (ast.Expr, ast.AugAssign)) or (
                isinstance(n, ast.Assign) and isinstance(
                    n.targets[0], (ast.Attribute, ast.Subscript))):
            rep(n, 'pass', 'delete', fn)
        if isinstance(n, ast.Raise):
            rep(n, 'pass', 'raise', fn)
        if isinstance(n, ast.Return) and n.value is not None and \
                isinstance(n.value, ast.Tuple) and len(n.value.elts) == 2:
            a, b = map(src, n.value.elts)
            rep(n, 'return %s, %s' % (b, a), 'ret', fn)
        for ch in ast.iter_child_nodes(n):
            visit(ch, fn, cls)
    visit_all = tree.body
    for n in visit_all:
        visit(n, '', None)
    seen = set()
    for a, b, new, what, fn, line in out:
        r = raw[:a] + new.encode() + raw[b:]
        if r in seen or r == raw:
            continue
        seen.add(r)
        try:
            ast.parse(r)
        except SyntaxError:
            continue
        yield {'a': a, 'b': b, 'old': raw[a:b].decode(), 'new': new,
               'what': what, 'fn': fn, 'line': line}


def apply(root, m):
    p = os.path.join(root, m['file'])
    with open(os.path.join('/repo', m['file']), 'rb') as f:
        raw = f.read()
    with open(p, 'wb') as f:
        f.write(raw[:m['a']] + m['new'].encode() + raw[m['b']:])


def restore(root, m):
    shutil.copy(os.path.join('/repo', m['file']),
                os.path.join(root, m['file']))


def root():
    d = '/tmp/mc/w%d' % os.getpid()
    if not os.path.isdir(d):
        shutil.copytree('/repo', d, symlinks=True)
    return d


SERVER = []


def server(d):
    if not SERVER:
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONPATH='',
                   PYTHONHASHSEED='0')
        SERVER.append(subprocess.Popen(
            ['/opt/venv/bin/python', os.path.join(os.path.dirname(
                os.path.abspath(__file__)), 'mutserver.py')], env=env,
            stdin=subprocess.PIPE, stdout=subprocess.PIPE, cwd=d))
    return SERVER[0]


def test(m):
    d = root()
    apply(d, m)
    p = server(d)
    p.stdin.write((' '.join([d, '--ignore=biggus/tests/test_pep8.py'] + [
        '--deselect=' + t for t in os.environ['MC_DESELECT'].split()]) +
        '\n').encode())
    p.stdin.flush()
    r = p.stdout.readline().strip().decode()
    m['rc'] = int(r) if r.isdigit() else r
    restore(d, m)
    return m


def main():
    out = sys.argv[1]
    every = int(sys.argv[2]) if len(sys.argv) > 2 else 1
    offset = int(sys.argv[3]) if len(sys.argv) > 3 else 0
    todo = []
    for f in FILES:
        for m in mutants(open(os.path.join('/repo', f)).read()):
            m['file'] = f
            todo.append(m)
    for i, m in enumerate(todo):
        m['id'] = i
    print(len(todo))
    if '-n' in sys.argv:
        return
    if os.path.exists(out):
        done = set(json.loads(l)['id'] for l in open(out))
        todo = [m for m in todo if m['id'] not in done]
    todo = todo[offset::every]
    with Pool(8) as pool, open(out, 'a') as f:
        for m in pool.imap_unordered(test, todo):
            f.write(json.dumps(m) + '\n')
            f.flush()


if __name__ == '__main__':
    main()
