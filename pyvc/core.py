"""Symbolic execution core: paths, symbolic numbers, obligations.

The real code runs as ordinary Python on symbolic numbers.  Every truth value
the code asks for is decided by a fork; the paths are enumerated depth-first by
re-execution, so that the set of explored paths is complete when exploration
ends without a Limitation.
"""
import sys
import time
import numpy as np
import z3


class Limitation(BaseException):
    """Something outside of the modelled subset: no verdict."""


class EndPath(BaseException):
    """The path is finished (end of an arbitrary iteration, or infeasible)."""


class Restart(BaseException):
    """Explore again with other loop-invariant candidates."""


class ModelError(Exception):
    pass


class AnyError(BaseException):
    """An exception of an arbitrary type (raised by a modelled callee), which
    need not be an Exception."""
    _vc = True

    def __init__(self, *a):
        BaseException.__init__(self, *a)
        self.decided = {}


def raises(exc):
    """Mark an exception as part of a modelled contract."""
    exc._vc = True
    return exc


CTX = None


def ctx():
    if CTX is None:
        raise Limitation('symbolic value outside of an exploration')
    return CTX


def lift(x):
    if isinstance(x, SNum):
        return x.z
    if z3.is_expr(x):
        return x
    if isinstance(x, bool):
        return z3.IntVal(int(x))
    if isinstance(x, int):
        return z3.IntVal(x)
    if isinstance(x, float):
        return z3.RealVal(repr(x))
    try:
        import numpy as np
        if isinstance(x, np.integer):
            return z3.IntVal(int(x))
        if isinstance(x, np.bool_):
            return z3.IntVal(int(bool(x)))
        if isinstance(x, np.floating):
            return z3.RealVal(repr(float(x)))
    except ImportError:
        pass
    if isinstance(x, SBool):
        return z3.If(x.z, z3.IntVal(1), z3.IntVal(0))
    unknown(x)
    return None


def unknown(x):
    """Nothing can be said about a variable without an invariant."""
    if getattr(type(x), 'vc_unknown', False):
        raise Limitation('no invariant for %r' %
                         object.__getattribute__(x, '_name'))


def known(x, depth=4, seen=None):
    """No such variable may be hidden in a result."""
    unknown(x)
    if depth == 0 or x is None or isinstance(x, (int, str, float, type)):
        return
    seen = set() if seen is None else seen
    if id(x) in seen:
        return
    seen.add(id(x))
    if isinstance(x, (tuple, list)):
        inner = x
    elif isinstance(x, dict):
        inner = x.values()
    else:
        try:
            inner = dict(object.__getattribute__(x, '__dict__'))
        except AttributeError:
            return
        if type(x).__module__ == 'z3.z3':
            return
        parts = inner.get('parts')
        inner = list(inner.values())
        if isinstance(parts, tuple):
            inner += [p.__dict__['v'] for p in parts
                      if 'v' in getattr(p, '__dict__', ())]
    for v in inner:
        known(v, depth - 1, seen)


def arith(x, y):
    """Coerce to a common sort."""
    if x.sort() == y.sort():
        return x, y
    if z3.is_int(x):
        x = z3.ToReal(x)
    if z3.is_int(y):
        y = z3.ToReal(y)
    return x, y


def simp(z):
    return z3.simplify(z)


class SBool(object):
    def __init__(self, z):
        self.z = z

    def __bool__(self):
        return ctx().branch(self.z)

    def _b(self, o):
        if isinstance(o, SBool):
            return o.z
        if isinstance(o, bool):
            return z3.BoolVal(o)
        raise Limitation('bool op')

    def __and__(self, o):
        return SBool(z3.And(self.z, self._b(o)))
    __rand__ = __and__

    def __or__(self, o):
        return SBool(z3.Or(self.z, self._b(o)))
    __ror__ = __or__

    def __invert__(self):
        return SBool(z3.Not(self.z))

    def __int__(self):
        return 1 if bool(self) else 0

    __index__ = __int__

    def __add__(self, o):
        return num(lift(self)) + o

    def __radd__(self, o):
        return o + num(lift(self))

    def __rsub__(self, o):
        return o - num(lift(self))

    def __eq__(self, o):
        if isinstance(o, (bool, SBool)):
            return SBool(self.z == self._b(o))
        return False

    def __ne__(self, o):
        if isinstance(o, (bool, SBool)):
            return SBool(self.z != self._b(o))
        return True

    def __hash__(self):
        return hash(bool(self))

    def __repr__(self):
        return 'SBool(%s)' % self.z


def num(z):
    z = simp(z)
    if z3.is_int_value(z):
        return z.as_long()
    if z3.is_int(z):
        return SInt(z)
    return SReal(z)


class SNum(object):
    """A symbolic number: SInt or SReal."""

    def __init__(self, z):
        self.z = z

    def _bin(self, o, f):
        oz = lift(o)
        if oz is None:
            return NotImplemented
        a, b = arith(self.z, oz)
        return num(f(a, b))

    def _cmp(self, o, f):
        oz = lift(o)
        if oz is None:
            return NotImplemented
        a, b = arith(self.z, oz)
        z = simp(f(a, b))
        if z3.is_true(z):
            return True
        if z3.is_false(z):
            return False
        return SBool(z)

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b)

    def __radd__(self, o):
        return self._bin(o, lambda a, b: b + a)

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: b - a)

    def __mul__(self, o):
        if isinstance(o, (list, tuple)):
            return NotImplemented
        return self._bin(o, lambda a, b: a * b)

    def __rmul__(self, o):
        return self.__mul__(o)

    def __neg__(self):
        return num(-self.z)

    def __pos__(self):
        return self

    def __abs__(self):
        if self < 0:
            return -self
        return self

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __eq__(self, o):
        if lift(o) is None:
            return NotImplemented
        return self._cmp(o, lambda a, b: a == b)

    def __ne__(self, o):
        if lift(o) is None:
            return NotImplemented
        return self._cmp(o, lambda a, b: a != b)

    def __format__(self, spec):
        # The specification has to be one for numbers; the text is not
        # modelled.
        format(1 if z3.is_int(self.z) else 1.0, spec)
        return '?'

    def __bool__(self):
        r = self != 0
        return r if isinstance(r, bool) else bool(r)

    def __hash__(self):
        return hash(concretise(self))

    def __repr__(self):
        return '<%s>' % self.z

    def __truediv__(self, o):
        oz = lift(o)
        if oz is None:
            return NotImplemented
        return rdiv(self.z, oz)

    def __rtruediv__(self, o):
        return rdiv(lift(o), self.z)

    def __pow__(self, n):
        if n == 2:
            return self * self
        raise Limitation('power')


def rdiv(a, b):
    if z3.is_int(a):
        a = z3.ToReal(a)
    if z3.is_int(b):
        b = z3.ToReal(b)
    if not ctx().branch(b != 0):
        raise raises(ZeroDivisionError('division by zero'))
    return num(a / b)


def floordiv(a, b):
    """Python's // and % for integer terms (a tuple)."""
    c = ctx()
    if not c.branch(b != 0):
        raise raises(ZeroDivisionError('integer division by zero'))
    if c.branch(b > 0):
        if not z3.is_int_value(b) and \
                c.check(z3.Not(z3.And(-b <= a, a < b)))[0] == z3.unsat:
            # Linear: -b <= a < b.
            neg = a < 0
            return (z3.If(neg, z3.IntVal(-1), z3.IntVal(0)),
                    z3.If(neg, a + b, a))
        return a / b, a % b        # z3: floor for positive divisors
    q = (-a) / (-b)
    return q, a - q * b


class SInt(SNum):
    def __floordiv__(self, o):
        oz = lift(o)
        if oz is None or not z3.is_int(oz):
            return NotImplemented
        return num(floordiv(self.z, oz)[0])

    def __rfloordiv__(self, o):
        return num(floordiv(lift(o), self.z)[0])

    def __mod__(self, o):
        oz = lift(o)
        if oz is None or not z3.is_int(oz):
            return NotImplemented
        return num(floordiv(self.z, oz)[1])

    def __rmod__(self, o):
        if isinstance(o, str):
            return o % (str(self),)
        return num(floordiv(lift(o), self.z)[1])

    def __divmod__(self, o):
        q, r = floordiv(self.z, lift(o))
        return num(q), num(r)

    def __index__(self):
        return concretise(self)

    def __int__(self):
        return concretise(self)

    def __lshift__(self, o):
        if isinstance(o, int):
            return self * (1 << o)
        raise Limitation('shift')


class SNpInt(SInt):
    """A NumPy integer scalar (not an instance of int)."""
    models_types = (np.int64,)


class SReal(SNum):
    pass


def concretise(x, limit=12):
    """A plain int equal to x, by forking over its possible values."""
    c = ctx()
    z = x.z
    if not z3.is_int(z):
        raise Limitation('concretising a real')
    for _ in range(limit):
        v = c.some_value(z)
        if c.branch(z == v, first=True):
            return v
    raise Limitation('unbounded concretisation of %s' % z)


def boolz(x):
    """z3 Bool of a Python/symbolic truth value."""
    if isinstance(x, SBool):
        return x.z
    if isinstance(x, SNum):
        return (x != 0).z if not isinstance(x != 0, bool) else z3.BoolVal(
            x != 0)
    if z3.is_expr(x):
        return x
    return z3.BoolVal(bool(x))


class Obligation(object):
    __slots__ = ('name', 'status', 'seconds', 'model', 'soft', 'backend',
                 'detail', 'loose')

    def __init__(self, name):
        self.name = name
        self.status = None
        self.seconds = 0
        self.model = None
        self.soft = False
        self.loose = False
        self.backend = 'z3'
        self.detail = ''


class Ctx(object):
    branch_timeout = 3000
    oblig_timeout = 20000
    max_paths = 20000

    def __init__(self, name, deadline=None):
        self.name = name
        self.obligations = []
        self.paths = 0
        self.queries = 0
        self.solver_seconds = 0.0
        self.prefix = []            # decisions to replay: [(choice, n)]
        self.limitations = {}
        self.loop_state = {}        # persistent invariant guesses
        self.summaries = {}
        self.deadline = deadline
        self.reached = {}
        self.restarts = 0
        self.inputs = []            # of the current path
        self.stop_on_failure = False
        self.user = {}

    # -- exploration
    def explore(self, fn):
        """Run fn(ctx) on every path."""
        global CTX
        stack = []                  # decisions of the current path
        while True:
            if self.paths > self.max_paths:
                self.limit('more than %d paths' % self.max_paths)
                return
            if self.deadline and time.time() > self.deadline:
                self.limit('out of time')
                return
            self.begin(stack)
            CTX = self
            mark = len(self.obligations)
            restart = False
            try:
                fn(self)
                self.paths += 1
            except EndPath:
                self.paths += 1
            except Limitation as err:
                self.limit(str(err))
                self.paths += 1
            except Restart:
                restart = True
            finally:
                CTX = None
            if restart:
                self.restarts += 1
                if self.restarts > 200:
                    self.limit('too many invariant candidates')
                    return
                # Everything explored with the old candidates is void.
                del self.obligations[:]
                self.limitations.clear()
                self.reached.clear()
                self.paths = 0
                stack = []
                continue
            if self.stop_on_failure and any(
                    o.status == 'failed' for o in self.obligations[mark:]):
                return
            # Next path.
            stack = self.decisions
            while stack and stack[-1][0] + 1 >= len(stack[-1][1]):
                stack.pop()
            if not stack:
                return
            stack[-1] = [stack[-1][0] + 1, stack[-1][1], stack[-1][2]]

    def limit(self, text):
        self.limitations[text] = self.limitations.get(text, 0) + 1

    def begin(self, stack):
        self.replay = [list(d) for d in stack]
        self.decisions = []
        self.solver = z3.Solver()
        self.solver.set('timeout', self.branch_timeout)
        self.pc = []
        self.counter = 0
        self.inputs = []
        self.events = []
        self.facts_done = set()
        self.serial = 0
        self.depth = 0
        self.user = {}
        self.weak = False       # the path uses a lost invariant
        self.dead = False

    def fresh_name(self, base):
        self.counter += 1
        return '%s!%d' % (base, self.counter)

    def int(self, base, lo=None, hi=None):
        z = z3.Int(self.fresh_name(base))
        self.inputs.append((base, z))
        if lo is not None:
            self.assume(z >= lift(lo))
        if hi is not None:
            self.assume(z < lift(hi))
        return SInt(z)

    def real(self, base):
        z = z3.Real(self.fresh_name(base))
        self.inputs.append((base, z))
        return SReal(z)

    def bool(self, base):
        z = z3.Bool(self.fresh_name(base))
        self.inputs.append((base, z))
        return SBool(z)

    def assume(self, z):
        z = boolz(z)
        self.pc.append(z)
        self.solver.add(z)

    def check(self, *extra):
        self.queries += 1
        t = time.time()
        self.solver.push()
        for e in extra:
            self.solver.add(e)
        r = self.solver.check()
        m = None
        if r == z3.sat:
            m = self.solver.model()
        self.solver.pop()
        self.solver_seconds += time.time() - t
        return r, m

    def some_value(self, z):
        if self.replay_left():
            d = self.replay[len(self.decisions)]
            if d[2] is not None:
                return d[2]
        r, m = self.check()
        if r != z3.sat:
            raise Limitation('no model to concretise')
        v = m.eval(z, model_completion=True).as_long()
        self._value = v
        return v

    def replay_left(self):
        return len(self.decisions) < len(self.replay)

    def choose(self, options):
        """Fork over mutually exhaustive z3 conditions; returns the index."""
        n = len(self.decisions)
        if n < len(self.replay):
            d = self.replay[n]
            self.decisions.append(d)
            k = d[1][d[0]]
        else:
            feasible = []
            for i, cond in enumerate(options):
                if z3.is_false(cond):
                    continue
                if z3.is_true(cond):
                    feasible.append(i)
                    continue
                r, m = self.check(cond)
                if r != z3.unsat:
                    feasible.append(i)
            if not feasible:
                self.dead = True
                raise EndPath('infeasible')
            self.decisions.append([0, feasible, None])
            k = feasible[0]
        if not z3.is_true(options[k]):
            self.assume(options[k])
        return k

    def branch(self, cond, first=False):
        cond = simp(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        value = getattr(self, '_value', None) if first else None
        r = self.choose([cond, z3.Not(cond)]) == 0
        if first and self.decisions[-1][2] is None:
            self.decisions[-1][2] = value
        return r

    def pick(self, what, n):
        """An unconstrained n-way choice (case split of a specification)."""
        return self.choose([z3.BoolVal(True)] * n)

    def among(self, values):
        return values[self.pick('', len(values))]

    # -- obligations
    def valid(self, z):
        """True, False (refuted) or None (unknown), without recording."""
        z = simp(boolz(z))
        if z3.is_true(z):
            return True
        if self.nonlinear(z):
            return True
        self.solver.set('timeout', self.oblig_timeout)
        r, m = self.check(z3.Not(z))
        self.solver.set('timeout', self.branch_timeout)
        if r == z3.unsat:
            return True
        return False if r == z3.sat else None

    def nonlinear(self, z):
        from . import nonlin
        if not nonlin.is_nonlinear(z):
            return False
        t = time.time()
        self.queries += 1
        r = nonlin.unsat(self.pc, z)
        self.solver_seconds += time.time() - t
        return r

    # A pattern: only the obligations of these names are of interest.
    only = None

    def prove(self, name, goal, detail=''):
        if self.only is not None and not self.only.match(name):
            # Another contract is responsible.
            z = simp(boolz(goal))
            if z3.is_false(z) and name not in self.user.get('goes_on', ()) \
                    and self.check(z3.BoolVal(True))[0] != z3.unsat:
                self.limit('cut short: %s' % name)
            return not z3.is_false(z)
        o = Obligation(name)
        t = time.time()
        z = simp(boolz(goal))
        self.reached[name] = self.reached.get(name, 0) + 1
        if z3.is_true(z):
            o.status = 'proved'
            o.backend = 'simplifier'
        elif self.nonlinear(z):
            o.status = 'proved'
            o.backend = 'z3 (real relaxation)'
        else:
            self.solver.set('timeout', self.oblig_timeout)
            r, m = self.check(z3.Not(z))
            self.solver.set('timeout', self.branch_timeout)
            if r == z3.unsat:
                o.status = 'proved'
            elif r == z3.sat:
                o.status = 'failed'
                o.model = self.concrete(m)
                o.loose = self.weak
                o.detail = detail or str(z)[:600]
            else:
                o.status = self.other_solver(z)
                o.backend = 'cvc5' if o.status == 'proved' else 'z3'
        o.seconds = time.time() - t
        self.obligations.append(o)
        if o.status == 'proved' and z3.is_false(z):
            raise EndPath('the path is infeasible')
        return o.status == 'proved'

    def other_solver(self, z):
        try:
            import cvc5
            s = z3.Solver()
            s.add(*self.pc)
            s.add(z3.Not(z))
            text = s.to_smt2()
            tm = cvc5.TermManager()
            sv = cvc5.Solver(tm)
            sv.setOption('tlimit-per', '10000')
            sv.setLogic('ALL')
            parser = cvc5.InputParser(sv)
            parser.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6,
                                  text, 'vc')
            sm = parser.getSymbolManager()
            while True:
                cmd = parser.nextCommand()
                if cmd.isNull():
                    break
                out = cmd.invoke(sv, sm)
                if 'unsat' in str(out):
                    return 'proved'
        except Exception:
            pass
        return 'unknown'

    def concrete(self, m):
        out = {}
        for base, z in self.inputs:
            v = m.eval(z, model_completion=True)
            k = base
            i = 1
            while k in out:
                i += 1
                k = '%s#%d' % (base, i)
            if z3.is_int_value(v):
                out[k] = v.as_long()
            elif z3.is_true(v) or z3.is_false(v):
                out[k] = z3.is_true(v)
            else:
                out[k] = str(v)
        for name, f in self.user.get('describe', []):
            try:
                out[name] = f(m)
            except Exception as err:
                out[name] = 'undetermined: %s' % err
        return out


class Outcome(object):
    def __init__(self, value=None, exc=None):
        self.value = value
        self.exc = exc

    @property
    def ok(self):
        return self.exc is None

    def raised(self, *types):
        return self.exc is not None and isinstance(self.exc, types)


def genuine(err, files):
    """Whether an exception comes from the code (or a modelled contract)
    rather than from a gap of the models."""
    if getattr(err, '_vc', False):
        return True
    tb = err.__traceback__
    last = None
    while tb is not None:
        last = tb
        tb = tb.tb_next
    if last is None:
        return False
    name = last.tb_frame.f_code.co_filename
    if name not in files:
        return False
    if isinstance(err, (AttributeError, TypeError, NameError,
                        NotImplementedError, RecursionError)):
        return False            # native, not by a raise statement
    return True


def call(fn, *args, **kw):
    """Outcome of a call of the code under contract."""
    c = ctx()
    try:
        value = fn(*args, **kw)
        known(value)
        for e in c.events:
            known(e)
        return Outcome(value)
    except (Exception, AnyError) as err:
        if genuine(err, c.files):
            return Outcome(exc=err)
        import traceback
        tb = traceback.extract_tb(err.__traceback__)
        tb = [f for f in tb if 'z3' not in f.filename]
        where = ' < '.join('%s:%s' % (f.name, f.lineno) for f in tb[-4:][::-1])
        raise Limitation('%s: %s [%s]' % (type(err).__name__, err, where))
