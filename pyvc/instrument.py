"""Mechanical instrumentation of the source (redone from /repo on every run).

What changes, and nothing else:
  * `for` statements and comprehensions iterate through the loop driver, so
    that iterating over a sequence of symbolic length becomes a cut point;
  * `while` statements tell the loop driver about each round;
  * list displays make tracked lists (contracts may supply `{}`);
  * 'text'.join(...) of symbolic parts gives an opaque text;
  * `raise X` marks X as raised by the code;
  * `is` refuses unknown values;
  * an `except` clause forks for an arbitrary exception;
  * exceptions of the verifier pass `except` and `finally` clauses by;
  * stores to attributes and items tell the loop driver what they modify.
Docstrings and comments are dropped; the statements stay in their order.
"""
import ast


class Names(ast.NodeVisitor):
    """Names bound by statements (not inside nested scopes)."""

    def __init__(self):
        self.names = []

    def visit_Name(self, node):
        if isinstance(node.ctx, (ast.Store, ast.Del)):
            if node.id not in self.names:
                self.names.append(node.id)

    def visit_FunctionDef(self, node):
        if node.name not in self.names:
            self.names.append(node.name)

    visit_ClassDef = visit_FunctionDef

    def visit_Lambda(self, node):
        pass

    def visit_ListComp(self, node):
        pass
    visit_SetComp = visit_DictComp = visit_GeneratorExp = visit_ListComp


def bound(nodes):
    v = Names()
    for n in nodes:
        v.visit(n)
    return [n for n in v.names if not n.startswith('vc__')]


def call(name, *args):
    return ast.Call(ast.Attribute(ast.Name('vc__', ast.Load()), name,
                                  ast.Load()), list(args), [])


def const(x):
    return ast.Constant(x)


class Instrument(ast.NodeTransformer):
    def __init__(self, module):
        self.module = module
        self.stack = [module]
        self.loops = {}
        self.n = 0

    def loop_id(self):
        where = '.'.join(self.stack)
        k = self.loops[where] = self.loops.get(where, 0) + 1
        return '%s/loop%d' % (where, k)

    def scope(self, node):
        self.stack.append(node.name)
        r = self.generic_visit(node)
        self.stack.pop()
        return r

    visit_FunctionDef = scope
    visit_ClassDef = scope

    def tmp(self):
        self.n += 1
        return 'vc__%d' % self.n

    def visit_For(self, node):
        ident = self.loop_id()
        names = bound(node.body + [node.target])
        node = self.generic_visit(node)
        L, P = self.tmp(), self.tmp()
        out = [ast.Assign([ast.Name(L, ast.Store())],
                          call('loop', const(ident), node.iter))]
        heads = self.heads(P, names)
        inner = ast.For(node.target, ast.Name(P, ast.Load()), node.body,
                        [ast.Continue()])
        body = []
        if heads:
            body.append(ast.If(ast.Attribute(ast.Name(P, ast.Load()),
                                             'symbolic', ast.Load()),
                               heads, []))
        body += [inner, ast.Break()]
        out.append(ast.For(ast.Name(P, ast.Store()),
                           ast.Call(ast.Attribute(ast.Name(L, ast.Load()),
                                                  'phases', ast.Load()),
                                    [], []),
                           body, node.orelse))
        return out

    def heads(self, P, names):
        loc = self.tmp()
        out = [ast.Assign([ast.Name(loc, ast.Store())],
                          ast.Call(ast.Name('locals', ast.Load()), [], []))]
        for n in names:
            out.append(ast.Assign(
                [ast.Name(n, ast.Store())],
                ast.Call(ast.Attribute(ast.Name(P, ast.Load()), 'head',
                                       ast.Load()),
                         [const(n), ast.Name(loc, ast.Load())], [])))
        out.append(ast.Expr(ast.Call(
            ast.Attribute(ast.Name(P, ast.Load()), 'begin', ast.Load()),
            [], [])))
        return out

    def visit_While(self, node):
        ident = self.loop_id()
        names = bound(node.body)
        node = self.generic_visit(node)
        L = self.tmp()
        out = [ast.Assign([ast.Name(L, ast.Store())],
                          call('wloop', const(ident)))]
        test = ast.Call(ast.Attribute(ast.Name(L, ast.Load()), 'test',
                                      ast.Load()),
                        [ast.Lambda(ast.arguments([], [], None, [], [], None,
                                                  []), node.test)], [])
        enter = ast.Call(ast.Attribute(ast.Name(L, ast.Load()), 'enter',
                                       ast.Load()), [], [])
        heads = self.heads(L, names)
        # while L.enter():
        #     if L.pre(lambda: C): (else-part); break    [entry, cut loops]
        #     [havoc]
        #     if not L.test(lambda: C): (else-part); break
        #     BODY
        import copy
        pre = copy.deepcopy(test)
        pre.func.attr = 'pre'
        body = [ast.If(pre, copy.deepcopy(node.orelse or []) + [ast.Break()],
                       []),
                ast.If(ast.Attribute(ast.Name(L, ast.Load()), 'havoc',
                                     ast.Load()), heads, [])]
        body.append(ast.If(ast.UnaryOp(ast.Not(), test),
                           (node.orelse or []) + [ast.Break()], []))
        body += node.body
        out.append(ast.While(enter, body, []))
        return out

    def comp(self, node, kind):
        """Comprehensions with one `for` clause; others are left alone."""
        node = self.generic_visit(node)
        if len(node.generators) != 1:
            return node
        g = node.generators[0]
        x = self.tmp()
        elts = [node.elt] if kind != 'dict' else [node.key, node.value]

        def fn(expr):
            if isinstance(g.target, ast.Name):
                return ast.Lambda(ast.arguments(
                    [], [ast.arg(g.target.id)], None, [], [], None, []),
                    expr)
            # (lambda x: (lambda a, b: expr)(*x)) for flat tuples
            if isinstance(g.target, ast.Tuple) and all(
                    isinstance(t, ast.Name) for t in g.target.elts):
                inner = ast.Lambda(ast.arguments(
                    [], [ast.arg(t.id) for t in g.target.elts], None, [], [],
                    None, []), expr)
                return ast.Lambda(
                    ast.arguments([], [ast.arg(x)], None, [], [], None, []),
                    ast.Call(inner, [ast.Starred(ast.Name(x, ast.Load()),
                                                 ast.Load())], []))
            return None
        expr = elts[0] if kind != 'dict' else ast.Tuple(elts, ast.Load())
        f = fn(expr)
        if f is None:
            return node
        cond = ast.Constant(None)
        if g.ifs:
            c = g.ifs[0] if len(g.ifs) == 1 else ast.BoolOp(ast.And(), g.ifs)
            cond = fn(c)
        return call('comp', const(kind), g.iter, f, cond)

    def visit_ListComp(self, node):
        return self.comp(node, 'list')

    def visit_GeneratorExp(self, node):
        return self.comp(node, 'gen')

    def visit_SetComp(self, node):
        return self.comp(node, 'set')

    def visit_DictComp(self, node):
        return self.comp(node, 'dict')

    def visit_List(self, node):
        node = self.generic_visit(node)
        if not isinstance(node.ctx, ast.Load):
            return node
        return call('list', node)

    def visit_Dict(self, node):
        node = self.generic_visit(node)
        if any(k is None for k in node.keys):
            return node
        return call('dict', *[ast.Tuple([k, v], ast.Load()) for k, v in zip(
            node.keys, node.values)])

    def visit_Raise(self, node):
        node = self.generic_visit(node)
        if node.exc is not None:
            node.exc = call('mark', node.exc)
        return node

    def visit_Compare(self, node):
        node = self.generic_visit(node)
        if len(node.ops) == 1 and isinstance(node.ops[0], (ast.In,
                                                           ast.NotIn)):
            r = call('contains', node.comparators[0], node.left)
            if isinstance(node.ops[0], ast.NotIn):
                r = ast.UnaryOp(ast.Not(), r)
            return r
        if len(node.ops) == 1 and isinstance(node.ops[0], (ast.Is,
                                                           ast.IsNot)):
            r = call('same', node.left, node.comparators[0])
            if isinstance(node.ops[0], ast.IsNot):
                r = ast.UnaryOp(ast.Not(), r)
            return r
        return node

    def visit_Try(self, node):
        node = self.generic_visit(node)
        for h in node.handlers:
            if h.type is not None:
                h.type = call('catches', h.type)
        if node.handlers:
            node.handlers.insert(0, ast.ExceptHandler(
                ast.Attribute(ast.Name('vc__', ast.Load()), 'control',
                              ast.Load()), None, [ast.Raise(None, None)]))
        if node.finalbody:
            node.finalbody = [ast.If(ast.UnaryOp(ast.Not(), call(
                'unwinding')), node.finalbody, [])]
        return node

    def visit_Call(self, node):
        node = self.generic_visit(node)
        f = node.func
        if isinstance(f, ast.Attribute) and f.attr == 'join' and isinstance(
                f.value, ast.Constant) and isinstance(
                f.value.value, str) and len(node.args) == 1:
            return call('join', f.value, node.args[0])
        return node

    def visit_Starred(self, node):
        node = self.generic_visit(node)
        if isinstance(node.ctx, ast.Load):
            node.value = call('star', node.value)
        return node

    def touches(self, targets):
        out = []
        for t in targets:
            if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name):
                out.append(ast.Expr(call('touch_attr',
                                         ast.Name(t.value.id, ast.Load()),
                                         const(t.attr))))
            elif isinstance(t, (ast.Tuple, ast.List)):
                out += self.touches(t.elts)
        return out

    def visit_Assign(self, node):
        node = self.generic_visit(node)
        return self.touches(node.targets) + [node]

    def visit_AugAssign(self, node):
        node = self.generic_visit(node)
        return self.touches([node.target]) + [node]

    def visit_Yield(self, node):
        return self.generic_visit(node)


def instrument(source, filename, module):
    tree = ast.parse(source, filename)
    tree = Instrument(module).visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, filename, 'exec', dont_inherit=True)
