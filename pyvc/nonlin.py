"""A second opinion for nonlinear goals: the real relaxation.

Integers become reals (a < b over integers becomes a + 1 <= b), and whatever is
not real arithmetic (uninterpreted functions, div, mod, quantifiers) becomes a
fresh constant per distinct term.  Every model of the original is a model of the
relaxation, so unsatisfiability carries over; nothing else is concluded."""
import z3


def is_nonlinear(e, seen=None):
    seen = set() if seen is None else seen
    if e.get_id() in seen:
        return False
    seen.add(e.get_id())
    if z3.is_app(e):
        k = e.decl().kind()
        if k == z3.Z3_OP_MUL and sum(not is_value(a)
                                     for a in e.children()) > 1:
            return True
        if k == z3.Z3_OP_DIV and not is_value(e.arg(1)):
            return True
        if k == z3.Z3_OP_POWER:
            return True
        return any(is_nonlinear(a, seen) for a in e.children())
    return False


def is_value(e):
    return z3.is_int_value(e) or z3.is_rational_value(e)


class Relax(object):
    def __init__(self):
        self.memo = {}
        self.keep = []
        self.extra = []

    def fresh(self, e):
        self.keep.append(e)
        n = 'r!%d' % e.get_id()
        return z3.Bool(n) if z3.is_bool(e) else z3.Real(n)

    def __call__(self, e):
        i = e.get_id()
        if i not in self.memo:
            self.memo[i] = self.go(e)
            self.keep.append(e)
        return self.memo[i]

    def go(self, e):
        if z3.is_int_value(e):
            return z3.RealVal(e.as_long())
        if z3.is_rational_value(e) or z3.is_true(e) or z3.is_false(e):
            return e
        if not z3.is_app(e) or not (z3.is_bool(e) or z3.is_arith(e)):
            return self.fresh(e)
        k = e.decl().kind()
        a = e.children()
        if not a:
            return self.fresh(e)
        # (after z3.simplify: <= and >= only, equalities)
        if k in (z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT):
            x, y = self(a[0]), self(a[1])
            if z3.is_int(a[0]) and k in (z3.Z3_OP_LT, z3.Z3_OP_GT):
                return x + 1 <= y if k == z3.Z3_OP_LT else x >= y + 1
            return {z3.Z3_OP_LE: x <= y, z3.Z3_OP_GE: x >= y,
                    z3.Z3_OP_LT: x < y, z3.Z3_OP_GT: x > y}[k]
        if k == z3.Z3_OP_NOT:
            b = a[0]
            kb = b.decl().kind() if z3.is_app(b) else None
            if kb in (z3.Z3_OP_LE, z3.Z3_OP_GE) and z3.is_int(b.arg(0)):
                x, y = self(b.arg(0)), self(b.arg(1))
                return x >= y + 1 if kb == z3.Z3_OP_LE else x + 1 <= y
            if kb == z3.Z3_OP_EQ and z3.is_int(b.arg(0)):
                x, y = self(b.arg(0)), self(b.arg(1))
                return z3.Or(x + 1 <= y, y + 1 <= x)
            return z3.Not(self(b))
        if k == z3.Z3_OP_EQ or k == z3.Z3_OP_IFF:
            if not (z3.is_bool(a[0]) or z3.is_arith(a[0])):
                return self.fresh(e)
            return self(a[0]) == self(a[1])
        if k == z3.Z3_OP_AND:
            return z3.And([self(x) for x in a])
        if k == z3.Z3_OP_OR:
            return z3.Or([self(x) for x in a])
        if k == z3.Z3_OP_IMPLIES:
            return z3.Implies(self(a[0]), self(a[1]))
        if k == z3.Z3_OP_ITE:
            return z3.If(self(a[0]), self(a[1]), self(a[2]))
        if k == z3.Z3_OP_TO_REAL:
            return self(a[0])
        if k == z3.Z3_OP_ADD:
            return z3.Sum([self(x) for x in a])
        if k == z3.Z3_OP_MUL:
            r = self(a[0])
            for x in a[1:]:
                r = r * self(x)
            return r
        if k == z3.Z3_OP_SUB:
            r = self(a[0])
            for x in a[1:]:
                r = r - self(x)
            return r
        if k == z3.Z3_OP_UMINUS:
            return -self(a[0])
        if k == z3.Z3_OP_DIV:
            return self(a[0]) / self(a[1])
        if k == z3.Z3_OP_POWER and z3.is_int_value(a[1]):
            r = z3.RealVal(1)
            for _ in range(a[1].as_long()):
                r = r * self(a[0])
            return r
        return self.fresh(e)


def names(e, memo):
    i = e.get_id()
    if i in memo:
        return memo[i]
    if z3.is_const(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
        r = frozenset([e.decl().name()])
    else:
        r = frozenset().union(*[names(x, memo) for x in e.children()])
    memo[i] = r
    return r


def substitutions(facts, goal):
    """Eliminate constants which a fact defines."""
    memo = {}
    todo = True
    keep = [facts, goal]
    while todo:
        todo = False
        for i, f in enumerate(facts):
            d = definition(f, memo)
            if d is None:
                continue
            v, t = d
            facts = [z3.simplify(z3.substitute(g, (v, t)))
                     for j, g in enumerate(facts) if j != i]
            goal = z3.simplify(z3.substitute(goal, (v, t)))
            keep += [facts, goal]
            todo = True
            break
    return facts, goal


def definition(f, memo):
    if not (z3.is_app(f) and f.decl().kind() == z3.Z3_OP_EQ and
            z3.is_arith(f.arg(0))):
        return None
    for a, b in ((f.arg(0), f.arg(1)), (f.arg(1), f.arg(0))):
        if z3.is_const(a) and not is_value(a) and \
                a.decl().name() not in names(b, memo):
            return a, b
    # x + ... == t
    d = z3.simplify(f.arg(0) - f.arg(1))
    if z3.is_app(d) and d.decl().kind() == z3.Z3_OP_ADD:
        for x in d.children():
            s, v = 1, x
            if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_MUL and \
                    x.num_args() == 2 and is_value(x.arg(0)) and \
                    str(x.arg(0)) == '-1':
                s, v = -1, x.arg(1)
            if z3.is_const(v) and not is_value(v):
                rest = z3.simplify(d - x)
                if v.decl().name() not in names(rest, memo):
                    return v, z3.simplify(-rest if s == 1 else rest)
    return None


def unsat(facts, goal, timeout=6000):
    """Whether facts and not goal is certainly unsatisfiable."""
    r = Relax()
    goal = r(z3.simplify(z3.Not(goal)))
    out = []
    for f in facts:
        f = z3.simplify(f, arith_lhs=False)
        for g in (f.children() if z3.is_and(f) else [f]):
            out.append(z3.simplify(r(g)))
    out = [f for f in out if not z3.is_true(f)]
    if any(z3.is_false(f) for f in out):
        return True
    return cases(out, goal, timeout, 6)


def condition(e, seen):
    """The condition of some if-then-else of e (innermost first)."""
    if e.get_id() in seen:
        return None
    seen.add(e.get_id())
    for a in e.children():
        r = condition(a, seen)
        if r is not None:
            return r
    if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_ITE:
        return e.arg(0)
    return None


def cases(out, goal, timeout, depth):
    if any(z3.is_false(f) for f in out) or z3.is_false(goal):
        return True
    out, goal = substitutions(out, goal)
    if any(z3.is_false(f) for f in out) or z3.is_false(goal):
        return True
    cond = condition(goal, set()) if depth else None
    if cond is None:
        return solve(out, goal, timeout)
    for v in (True, False):
        fact = cond if v else z3.Not(cond)
        sub = [(cond, z3.BoolVal(v))]
        facts = []
        for f in out:
            f = z3.simplify(z3.substitute(f, *sub))
            facts += f.children() if z3.is_and(f) else [f]
        facts.append(z3.simplify(fact))
        g = z3.simplify(z3.substitute(goal, *sub))
        s = z3.SolverFor('QF_LRA')
        s.set('timeout', 1000)
        s.add(*[f for f in facts if not is_nonlinear(f)])
        if s.check() == z3.unsat:
            continue
        if not cases([f for f in facts if not z3.is_true(f)], g, timeout,
                     depth - 1):
            return False
    return True


def solve(out, goal, timeout):
    memo = {}
    near = names(goal, memo)
    for rounds in (0, 1, 3):
        seen = set(near)
        rel = []
        for _ in range(rounds + 1):
            rel = [f for f in out if names(f, memo) and
                   (names(f, memo) <= seen if rounds == 0 else
                    names(f, memo) & seen)]
            if rounds:
                seen |= set().union(*[names(f, memo) for f in rel])
        s = z3.SolverFor('QF_NRA')
        s.set('timeout', timeout // 3)
        s.add(*rel)
        s.add(goal)
        if s.check() == z3.unsat:
            return True
    return False
