"""The loop driver: cut points with inductively checked invariants.

A loop over a sequence of symbolic length is verified for an arbitrary
iteration.  For each variable which the body may change there is a list of
candidate closed forms (its value as a function of the iteration number):
unchanged, affine, and the ghost folds which the contract declares.  A
candidate which does not hold at the start or is not preserved by the
arbitrary iteration is dropped and the exploration starts over (Houdini); a
variable without any candidate left cannot be used after the head of the loop
(using it is a Limitation, i.e. no verdict).
"""
import itertools
import sys
import types
import z3
from . import core, seqs
from .core import (SInt, SBool, SNum, Limitation, EndPath, Restart, ctx, lift,
                   num)
from .seqs import (Seg, Item, FSeg, VSeq, VList, VTuple, parts_of, veq, finish,
                   merge)


UNROLL = 40
import os
DEBUG = bool(os.environ.get("PYVC_DEBUG"))


class Poison(object):
    """The unknown value of a variable."""

    vc_unknown = True

    def __init__(self, name):
        object.__setattr__(self, '_name', name)


def _die(name):
    def method(self, *a, **k):
        raise Limitation('no invariant for %r' %
                         object.__getattribute__(self, '_name'))
    return method


for _n in ('getattribute getattr setattr eq ne lt le gt ge add radd sub rsub '
           'mul rmul floordiv truediv mod bool len iter getitem setitem call '
           'contains hash neg and or iadd index int str repr').split():
    if _n == 'getattribute':
        continue
    setattr(Poison, '__%s__' % _n, _die(_n))


class PoisonPart(object):
    """Stands for the unknown contents of a list."""

    def __init__(self, name):
        self.name = name

    def __getattr__(self, attr):
        raise Limitation('no invariant for %r' % self.name)


class MapGhost(object):
    """A ghost: f(element) for each element of a base, in order."""

    def __init__(self, name, base, get, length=None):
        self.name = name
        self.base = base
        self.seq = seqs.Base(name, get, length)


class Fold(object):
    """A ghost: the sum, over the elements before an index of a base sequence,
    of step(element) (a number)."""

    def __init__(self, name, base, step, lo=None, hi=None):
        """lo, hi: bounds of step's values (for the bounds of the sum)."""
        self.name = name
        self.base = base
        self.step = step
        self.f = z3.Function(name, z3.IntSort(), z3.IntSort())
        self.lo = lo
        self.hi = hi
        c = ctx()
        c.assume(self.f(z3.IntVal(0)) == 0)
        self.seen = []

    def at(self, z):
        """Value at index term z, with its bounds assumed."""
        c = ctx()
        z = core.simp(z)
        v = self.f(z)
        if not any(z.eq(x) for x in self.seen):
            if self.lo is not None and self.lo >= 0:
                for x in self.seen:
                    w = self.f(x)
                    c.assume(z3.Implies(x <= z, w <= v))
                    c.assume(z3.Implies(z <= x, v <= w))
                    if self.hi is not None:
                        c.assume(z3.Implies(x <= z,
                                            v - w <= self.hi * (z - x)))
                        c.assume(z3.Implies(z <= x,
                                            w - v <= self.hi * (x - z)))
            self.seen.append(z)
            if self.lo is not None:
                c.assume(z3.Implies(z >= 0, v >= self.lo * z))
            if self.hi is not None:
                c.assume(z3.Implies(z >= 0, v <= self.hi * z))
        return v

    def unfold(self, z, z1=None):
        """F(z + 1) = F(z) + step(element z)"""
        c = ctx()
        s = self.step(self.base.get(z))
        c.assume(self.at(core.simp(z + 1)) == self.at(z) + lift(s))


class Fact(object):
    """A property of every element of a base sequence which a loop over it
    establishes (declared by the contract, proved inductively)."""

    def __init__(self, name, base, goal, use=None):
        """base: a Base, or a predicate of bases; goal(base, z, v) -> z3."""
        self.name = name
        self.base = base
        self.goal = goal
        self._use = use

    def applies(self, base):
        if callable(self.base):
            return self.base(base)
        return base is self.base

    def use(self, base, z, v):
        if self._use is not None:
            self._use(base, z, v)
        else:
            g = self.goal(base, z, v)
            ctx().assume(g)


class OpaqueText(str):
    """Text of unknown contents: must not decide anything."""
    def _no(self, *a):
        raise Limitation('contents of a text')
    __eq__ = __ne__ = __lt__ = __contains__ = __hash__ = _no
    startswith = endswith = find = split = _no


#: what a ghost returns for the value None
NONE = object()


class Relation(object):
    """An invariant relating variables of a loop, declared by a contract.

    Of the variables `names` (locals; object.attribute for the model objects
    of c.user['attr_objs']) nothing but the facts is known at the head."""

    def __init__(self, names, havoc, facts):
        self.names = tuple(names)
        self.havoc = havoc      # name, entry value -> arbitrary value
        self.facts = facts      # {name: value} -> [(name, formula)]


class LoopBase(object):
    def setup(self, vc, ident, ordinal):
        self.vc = vc
        self.ident = ident
        self.key = (ident, ordinal)
        c = ctx()
        self.state = c.loop_state.setdefault(self.key, {})
        self.vars = []          # (name, entry value, candidate, getter)
        self.entry_serial = c.serial
        self.begun = False
        self.owned = []
        self.relation = None
        self.related = {}
        self.appended = {}

    # -- candidates
    def candidates(self, v0):
        """Ordered candidates for the entry value v0."""
        out = ['same']
        if isinstance(v0, (int, SInt)) and not isinstance(v0, bool):
            out.append('affine')
            out += [('fold', g) for g in self.folds()]
            out += [('unfold', g) for g in self.folds()]
        elif isinstance(v0, VList):
            out.append('affine')
            out += [('drop', g) for g in self.folds()]
            out += [('grow', g) for g in ctx().user.get('flats', ())]
            out += [('growleft', g) for g in ctx().user.get('flats', ())]
            out += [('map', g) for g in ctx().user.get('maps', ())]
            out += [('append', None)]
        elif isinstance(v0, seqs.VTuple) or isinstance(v0, tuple):
            out += [('growt', g) for g in ctx().user.get('flats', ())]
        out += [('ghost', g) for g in ctx().user.get('ghosts', ())
                if g.accepts(self, v0)]
        out.append('lost')
        return out

    def folds(self):
        return ctx().user.get('folds', ())

    def slot(self, name, v0):
        key = (name, signature(v0))
        st = self.state.get(key)
        if st is None:
            st = self.state[key] = {'i': 0, 'delta': None}
        return st

    def select(self, name, v0, like, st):
        """The first applicable candidate and its value at the head."""
        cands = self.candidates(like)
        i = st['i']
        while True:
            i = min(i, len(cands) - 1)
            self.assuming = True
            v = self.value(name, v0, cands[i], st, self.k_head())
            if v is not None or cands[i] == 'same':
                if cands[i][0] == 'ghost' and 'ghosts' not in st:
                    st['ghosts'] = [
                        j for j in range(i, len(cands) - 1) if self.value(
                            name, v0, cands[j], st, self.k_head())
                        is not None]
                    st['id'] = name
                    # (The evaluation of the others may have forked.)
                    raise Restart()
                return i, cands[i], v
            i += 1

    def value(self, name, v0, cand, st, k):
        """The candidate's value after k iterations; None: inapplicable."""
        if cand == 'same':
            return v0
        if cand == 'lost':
            return Poison(name)
        if cand == 'affine':
            d = st['delta']
            if d is None:
                return None
            if isinstance(v0, VList):
                parts = list(v0_parts(v0))
                if len(parts) != 1 or not isinstance(parts[0], Seg):
                    return None
                s = parts[0]
                r = [Seg(s.base, s.lo + d[0] * k, s.hi + d[1] * k)]
                self.wf(r[0])
                return r
            return num(lift(v0) + d * k)
        kind, g = cand
        if kind == 'ghost':
            return g.at(self, v0, k)
        if kind == 'append':
            if st.get('append') is None:
                return None
            if id(st) not in self.appended:
                self.appended[id(st)] = seqs.Base(
                    'appended', lambda z, a=st['append']: replaced(
                        a[1], a[0], z), None)
            return list(v0_parts(v0)) + [
                Seg(self.appended[id(st)], z3.IntVal(0), k)]
        z = self.index(g, k)
        if z is None:
            return None
        z0 = self.index(g, z3.IntVal(0))
        if kind == 'fold':
            return num(lift(v0) + g.at(z) - g.at(z0))
        if kind == 'unfold':
            return num(lift(v0) - g.at(z) + g.at(z0))
        if kind == 'drop':
            parts = list(v0_parts(v0))
            if len(parts) != 1 or not isinstance(parts[0], Seg):
                return None
            s = parts[0]
            r = Seg(s.base, s.lo + g.at(z) - g.at(z0), s.hi)
            self.wf(r)
            return [r]
        if kind == 'grow':
            return list(v0_parts(v0)) + [FSeg(g, z0, z)]
        if kind == 'growleft':
            return [FSeg(g, z0, z)] + list(v0_parts(v0))
        if kind == 'map':
            return list(v0_parts(v0)) + [Seg(g.seq, z0, z)]
        if kind == 'growt':
            return finish('tuple', list(parts_of(v0)) + [FSeg(g, z0, z)])
        raise Limitation('candidate')

    def wf(self, seg):
        """Part of an affine/drop candidate: its segment is well-formed."""
        if self.assuming:
            ctx().assume(seg.lo <= seg.hi)
        else:
            self.checks.append(seg.lo <= seg.hi)

    # -- heads
    def head(self, name, loc):
        if not self.vars_done:
            self.lists(loc)
            self.vars_done = True
        v0 = loc.get(name, UNBOUND)
        if isinstance(v0, Poison):
            v0 = UNBOUND
        if v0 is UNBOUND:
            self.vars.append((name, v0, 'lost', None, 0))
            return Poison(name)
        if self.relates(name):
            return self.arbitrary(name, v0, None)
        st = self.slot(name, v0)
        if v0 is None and st['i'] > 0:
            raise Limitation('loop variable %s from None' % name)
        i, cand, v = self.select(name, v0, v0, st)
        if isinstance(v, list):
            v = VList(merge(v))
        if v is NONE:
            v = None
        v = self.cloned(v, v0)
        self.vars.append((name, v0, cand, st, i))
        return v

    def cloned(self, v, v0):
        """Values with in-place operations: a slot owns its value."""
        if not hasattr(type(v0), 'loop_clone'):
            return v
        if any(v0 is o for o in self.owned):
            raise Limitation('%s: two names for an array' % self.ident)
        self.owned.append(v0)
        return v0.loop_clone() if v is v0 else v

    def relates(self, name):
        """Whether the declared relation is about the variable."""
        c = ctx()
        rel = c.user.get('relation')
        return rel is not None and name in rel.names and \
            c.user.get('relating') in (None, self)

    def arbitrary(self, name, v0, where):
        c = ctx()
        self.relation = c.user['relation']
        c.user['relating'] = self
        v = self.relation.havoc(name, v0)
        self.related[name] = (v0, v, where)
        return v

    def relate(self):
        """The relation holds on entry; it is all that is known then."""
        rel = self.relation
        if rel is None:
            return
        missing = [n for n in rel.names if n not in self.related]
        if missing:
            raise Limitation('loop without %s' % ', '.join(missing))
        c = ctx()
        for name, e in rel.facts({n: r[0] for n, r in self.related.items()}):
            c.prove('%s, at first' % name, e)
        for name, e in rel.facts({n: r[1] for n, r in self.related.items()}):
            c.assume(e)

    def related_holds(self, frame_locals):
        rel = self.relation
        if rel is None:
            return
        now = {}
        for n, (v0, v, where) in self.related.items():
            now[n] = getattr(*where) if where else frame_locals.get(
                n, UNBOUND)
            if isinstance(now[n], (Poison, Unbound)):
                raise Limitation('no invariant for %r' % n)
        for name, e in rel.facts(now):
            ctx().prove('%s, kept' % name, e)

    vars_done = False

    def lists(self, loc):
        """Mutable lists reachable from the locals, and attributes."""
        self.tracked = []
        self.locals = loc
        self.entry_lists = {n: VList(v.parts) for n, v in loc.items()
                            if isinstance(v, VList)}
        seen = []

        def track(name, v):
            if isinstance(v, VList) and not any(v is x for x in seen):
                seen.append(v)
                st = self.slot('[%s]' % name, v)
                v0 = Frozen(v.parts)
                i, cand, parts = self.select(name, v0_of(v0, v), v, st)
                if cand == 'lost':
                    parts = [PoisonPart(name)]
                elif cand == 'same':
                    parts = None
                elif isinstance(parts, VSeq):
                    parts = parts.parts
                if parts is not None:
                    v.parts = tuple(merge_safe(parts))
                self.tracked.append((name, v, v0, cand, st, i))
        for name, v in sorted(loc.items()):
            if name.startswith('vc__'):
                continue
            track(name, v)
        attrs = ctx().user.get('attrs', {})
        self.attrs = []
        for name, v in sorted(loc.items()):
            if id(v) in attrs and not any(v is o for o, a in self.attrs):
                for a in attrs[id(v)]:
                    self.attr(v, a)
                    self.attrs.append((v, a))
        c = ctx()
        for obj, a in c.user.get('attr_objs', ()):
            self.attr(obj, a)
            self.attrs.append((obj, a))
        self.entered_lists = seen
        self.hook = lambda obj: self.touched(obj)
        c.user.setdefault('touch', [])
        c.user['touch'].append(self.hook)
        c.user.setdefault('touch_attr', []).append(self.attr_touched)

    def attr(self, obj, a):
        v0 = getattr(obj, a)
        if isinstance(v0, Poison):
            return
        name = '%s.%s' % (getattr(obj, 'vc_name', type(obj).__name__), a)
        if self.relates(name):
            object.__setattr__(obj, a, self.arbitrary(name, v0, (obj, a)))
            return
        st = self.slot(name, v0)
        i, cand, v = self.select(name, v0, v0, st)
        if isinstance(v, list):
            v = VList(merge(v))
        if v is NONE:
            v = None
        v = self.cloned(v, v0)
        object.__setattr__(obj, a, v)
        self.vars.append((name, v0, cand, (st, obj, a), i))

    def attr_touched(self, obj, a):
        if not self.active:
            return
        if getattr(obj, '_serial', None) is None or \
                obj._serial > self.entry_serial:
            return
        if not any(o is obj and b == a for o, b in self.attrs):
            raise Limitation('%s: unframed store to %s.%s' % (
                self.ident, type(obj).__name__, a))

    def touched(self, obj):
        if not self.active:
            return
        if obj._serial > self.entry_serial:
            return
        for name, v, v0, cand, st, i in self.tracked:
            if v is obj:
                return
        raise Limitation('%s: unframed mutation of a list' % self.ident)

    active = False

    # -- end of an arbitrary iteration
    def verify(self, frame_locals):
        c = ctx()
        self.assuming = False
        k1 = core.simp(self.k_head() + 1)
        for g in self.folds():
            z = self.index(g, self.k_head())
            if z is not None:
                g.unfold(z)
        bad = []
        for name, v0, cand, st, i in self.vars:
            if cand == 'lost':
                continue
            if isinstance(st, tuple):
                st, obj, a = st
                now = getattr(obj, a)
            else:
                now = frame_locals.get(name, UNBOUND)
            self.checks = []
            want = self.value(name, v0, cand, st, k1)
            if isinstance(want, list):
                want = VList(merge(want))
            if not self.holds(now, want, cand):
                bad.append((self.rank(cand), name, v0, cand, st, now, i))
        for name, v, v0, cand, st, i in self.tracked:
            if cand == 'lost':
                continue
            self.checks = []
            if cand == 'same':
                want = v0.parts
            else:
                want = self.value(name, v0_of(v0, v), cand, st, k1)
                if isinstance(want, VSeq):
                    want = want.parts
            if not self.holds(VTuple(v.parts), VTuple(want), cand):
                bad.append((self.rank(cand), name, v0, cand, st, v, i))
        # Whatever failed may have done so because of a wrong candidate of
        # another variable: give up the simplest ones first.
        if bad:
            if DEBUG:
                for r in bad:
                    print('BAD', self.ident, r[1], r[3], 'now', r[5], 'k',
                          self.k_head())
            least = min(r[0] for r in bad)
            if least == 4:
                self.next_ghosts(bad)
                raise Restart()
            for r in bad:
                if r[0] == least:
                    self.drop(*r[1:])
            # What was given up because of it gets another chance.
            for st in self.state.values():
                if isinstance(st, dict) and st.get('level', -1) > least:
                    st['i'] = 1
                    st['level'] = 0
                    st.pop('ghosts', None)
            self.state['__facts'] = set()
            raise Restart()
        if self.verify_facts():
            raise Restart()
        self.related_holds(frame_locals)
        raise EndPath()

    def rank(self, cand):
        if cand == 'same':
            return 0
        if cand == 'affine':
            return 1
        return {'fold': 2, 'unfold': 2, 'ghost': 4}.get(cand[0], 3)

    def next_ghosts(self, bad):
        """The next untried combination of ghosts of the variables that
        failed (each may have failed because of the others)."""
        slots = []
        for r in bad:
            st = r[4][0] if isinstance(r[4], tuple) else r[4]
            slots.append(st)
        tried = self.state.setdefault('__tried', set())
        tried.add(tuple((st['id'], st['i']) for st in self.ghosted()))
        for combo in itertools.product(*[st['ghosts'] for st in slots]):
            old = [st['i'] for st in slots]
            for st, i in zip(slots, combo):
                st['i'] = i
            now = tuple((st['id'], st['i']) for st in self.ghosted())
            if now not in tried:
                return
            for st, i in zip(slots, old):
                st['i'] = i
        for st in slots:
            st['i'] = 10 ** 6

    def ghosted(self):
        return [st for k, st in sorted(self.state.items(), key=str)
                if isinstance(st, dict) and st.get('ghosts')]

    def verify_facts(self):
        return False

    def holds(self, now, want, cand):
        c = ctx()
        if now is UNBOUND or isinstance(now, Poison):
            return False
        if want is NONE:
            return now is None
        if now is want:
            return True
        try:
            e = veq(now, want)
        except Limitation as err:
            if DEBUG:
                print('NO VEQ', err)
            return False
        if e is False:
            if DEBUG:
                print("DIFFERS", getattr(now, "__dict__", now), getattr(want, "__dict__", want))
            return False
        if e is not True and c.valid(e) is not True:
            if DEBUG:
                print('NOT VALID', e)
            return False
        for chk in self.checks:
            if c.valid(chk) is not True:
                if DEBUG:
                    print('CHECK', chk, c.pc[-6:])
                return False
        return True

    def drop(self, name, v0, cand, st, now, i):
        st['i'] = i + 1
        st['level'] = self.rank(cand)
        # A difference that suggests an affine form.
        if cand == 'same':
            st['delta'] = None
            parts0 = v0.parts if isinstance(v0, (Frozen, VList)) else None
            if parts0 is not None and isinstance(now, VList):
                p, q = parts0, now.parts
                st['append'] = None
                if len(q) > len(p) and isinstance(q[-1], Item) and \
                        simple(q[-1].v) and q[:-1] == p:
                    st['append'] = (self.k_head(), q[-1].v)
                if len(p) == 1 and len(q) == 1 and isinstance(p[0], Seg) and \
                        isinstance(q[0], Seg) and p[0].base is q[0].base:
                    a = core.simp(q[0].lo - p[0].lo)
                    b = core.simp(q[0].hi - p[0].hi)
                    if z3.is_int_value(a) and z3.is_int_value(b):
                        st['delta'] = (a.as_long(), b.as_long())
            elif isinstance(now, (int, SInt)) and isinstance(v0, (int, SInt)):
                d = core.simp(lift(now) - lift(v0))
                if z3.is_int_value(d):
                    st['delta'] = d.as_long()
                elif not self.depends(d):
                    st['delta'] = d
        # 'affine' without a delta is inapplicable: value() returns None

    def depends(self, d):
        """Whether the term was made after the loop began."""
        k = str(self.k_head())
        return k in str(d)


def simple(v):
    """Whether `replaced` knows the value."""
    if v is None or isinstance(v, (int, SInt, str)):
        return True
    if type(v) is tuple:
        return all(simple(x) for x in v)
    if isinstance(v, seqs.SSlice) and v.generic is None:
        return all(simple(x) for x in v._parts)
    return False


def replaced(v, k, z):
    """The value with z for k."""
    if type(v) is tuple:
        return tuple(replaced(x, k, z) for x in v)
    if isinstance(v, SInt):
        return num(core.simp(z3.substitute(v.z, (k, z))))
    if isinstance(v, seqs.SSlice):
        return seqs.SSlice(*[replaced(x, k, z) for x in v._parts])
    return v


def pointwise(seg):
    if not isinstance(seg, Seg):
        return
    yield seg.base, seg.lo
    for inner in getattr(seg.base, 'pointwise', ()):
        for b, lo in pointwise(inner):
            yield b, core.simp(lo + seg.lo)


def signature(v0):
    parts = v0.parts if isinstance(v0, (VSeq, Frozen)) else None
    if parts is None:
        return kind(v0)
    return tuple('I' if isinstance(p, Item) else 'S' for p in parts)


def kind(v):
    if isinstance(v, (int, SInt)):
        return 'int'
    return type(v).__name__


class Frozen(object):
    def __init__(self, parts):
        self.parts = tuple(parts)


def v0_parts(v0):
    return v0.parts if isinstance(v0, (VSeq, Frozen)) else parts_of(v0)


def v0_of(frozen, v):
    class L(VList):
        pass
    r = L.__new__(L)
    r.parts = frozen.parts
    return r


def merge_safe(parts):
    return merge(parts)


class Unbound(object):
    def __repr__(self):
        return '<unbound>'


UNBOUND = Unbound()


class ForLoop(LoopBase):
    """`for` over a sequence given by parts."""

    def __init__(self, vc, ident, parts):
        self.vc = vc
        self.ident = ident
        self.parts = parts
        self.broken = False

    def phases(self):
        c = ctx()
        n = c.user.setdefault('loop_count', {})
        group = []
        ordinal = 0
        for p in self.parts:
            if isinstance(p, Item):
                group.append(p.v)
                continue
            if group:
                yield ConcretePhase(group)
                group = []
            ordinal += 1
            yield SymPhase(self.vc, self.ident, ordinal, p)
        if group or not self.parts:
            yield ConcretePhase(group)


class ConcretePhase(object):
    symbolic = False

    def __init__(self, it):
        self.it = it

    def __iter__(self):
        return iter(self.it)


class SymPhase(LoopBase):
    symbolic = True

    def __init__(self, vc, ident, ordinal, seg):
        self.seg = seg
        self.setup(vc, ident, ordinal)
        c = ctx()
        n = core.simp(seg.n())
        self.n = n
        self.arb = c.choose([n > 0, z3.BoolVal(True)]) == 0
        if self.arb:
            k = c.int('k')
            c.assume(z3.And(0 <= k.z, k.z < n))
            self.k = k.z
        else:
            c.assume(n >= 0)
            self.k = n
        self.count = 0

    def k_head(self):
        return self.k

    def index(self, g, k):
        """Index in the base of the ghost g after k iterations."""
        for b, lo in self.bases():
            if b is g.base:
                return core.simp(lo + k)
        return None

    def begin(self):
        self.relate()
        self.active = self.arb
        # The declared facts hold of the elements seen already.
        self.facts = []
        dropped = self.state.setdefault('__facts', set())
        c = ctx()
        for f in c.user.get('facts', ()):
            for b, lo in self.bases():
                if f.applies(b) and f.name not in dropped:
                    self.facts.append((f, b, lo))
        for f, b, lo in self.facts:
            def fact(z, v, f=f, b=b, lo=lo, hi=core.simp(lo + self.k)):
                if ctx().branch(z3.And(lo <= z, z < hi)):
                    f.use(b, z, v)
            b.add_fact(fact)

    def verify_facts(self):
        c = ctx()
        bad = False
        for f, b, lo in self.facts:
            z = core.simp(lo + self.k)
            if c.valid(f.goal(b, z, b.get(z))) is not True:
                self.state['__facts'].add(f.name)
                bad = True
        return bad

    def bases(self):
        """(base, offset): element k of the loop is element offset + k."""
        return list(pointwise(self.seg))

    def finish(self):
        self.active = False

    def __iter__(self):
        return self

    def __next__(self):
        self.count += 1
        if not self.arb:
            self.active = False
            raise StopIteration
        if self.count == 1:
            return self.seg.get(self.k)
        fr = sys._getframe(1)
        self.active = False
        self.verify(fr.f_locals)


class WhileLoop(LoopBase):
    def __init__(self, vc, ident):
        self.vc = vc
        self.ident = ident
        self.rounds = 0
        self.cut = ident in ctx().user.get('cuts', ()) or \
            ctx().loop_state.get(('cut', ident))
        self.havoc = False
        if self.cut:
            self.setup(vc, ident, 0)

    def enter(self):
        self.rounds += 1
        if not self.cut:
            self.havoc = False
            if self.rounds > ctx().user.get('unroll', UNROLL):
                c = ctx()
                c.loop_state[('cut', self.ident)] = True
                raise Restart()
            return True
        if self.rounds == 1:
            k = ctx().int('k', 0)
            self.k = k.z
            self.havoc = True
            return True
        self.active = False
        self.verify(sys._getframe(1).f_locals)

    def k_head(self):
        return self.k

    def index(self, g, k):
        # Iteration k of a while loop looks at element k of the ghost's base,
        # if the contract says so.
        off = getattr(g, 'while_offset', None)
        if off is None:
            return None
        return core.simp(off + k)

    def begin(self):
        self.relate()
        self.active = True

    def pre(self, fn):
        """The test on entry to a cut loop: the exact state if it fails."""
        return self.cut and self.rounds == 1 and not bool(fn())

    def test(self, fn):
        if self.cut or self.rounds > 3:
            return bool(fn())
        c = ctx()
        mark = len(c.decisions)
        r = bool(fn())
        # A symbolic test: cut rather than unroll.
        if len(c.decisions) > mark and c.user.get('cut_symbolic', True) and \
                any(len(d[1]) > 1 for d in c.decisions[mark:]):
            c.loop_state[('cut', self.ident)] = True
            raise Restart()
        return r


class Driver(object):
    """The `vc__` object of instrumented code."""

    #: exceptions of the verifier
    control = (Limitation, EndPath, Restart)

    def __init__(self, env):
        self.env = env

    def unwinding(self):
        return isinstance(sys.exc_info()[1], self.control)

    def catches(self, types_):
        """What an `except` clause catches."""
        err = sys.exc_info()[1]
        if not isinstance(err, core.AnyError):
            if isinstance(types_, tuple):
                return tuple(getattr(t, 'real', t) for t in types_)
            return getattr(types_, 'real', types_)
        for t in types_ if isinstance(types_, tuple) else (types_,):
            if t is BaseException:
                return (type(err),)
            if t not in err.decided:
                err.decided[t] = ctx().pick('is a %r' % t, 2) == 1
            if err.decided[t]:
                return (type(err),)
        return ()

    def same(self, a, b):
        if isinstance(a, Poison) or isinstance(b, Poison):
            raise Limitation('identity of an unknown value')
        if isinstance(a, SBool) and isinstance(b, bool) or \
                isinstance(b, SBool) and isinstance(a, bool):
            raise Limitation('identity of a truth value')
        return a is b

    def loop(self, ident, it):
        parts = None
        if isinstance(it, VSeq) or hasattr(it, 'vparts'):
            parts = parts_of(it)
        if parts is None or all(isinstance(p, Item) for p in parts):
            if parts is not None:
                it = [p.v for p in parts]
            return Once(it)
        return ForLoop(self, ident, merge(parts))

    def wloop(self, ident):
        if core.CTX is None:
            return PlainWhile()
        return WhileLoop(self, ident)

    def list(self, x):
        return VList([Item(v) for v in x]) if core.CTX is not None else x

    def dict(self, *items):
        c = core.CTX
        if c is None or 'new_dict' not in c.user:
            return dict(items)
        d = c.user['new_dict']()
        for k, v in items:
            d[k] = v
        return d

    def mark(self, exc):
        if isinstance(exc, type):
            exc = exc()
        exc._vc = True
        return exc

    def contains(self, seq, x):
        if isinstance(seq, VSeq) or not isinstance(seq, (list, tuple)):
            return x in seq
        return any(v is x or bool(v == x) for v in seq)

    def join(self, text, x):
        if isinstance(x, VSeq) and x.concrete() is None:
            return OpaqueText('<text>')
        try:
            return text.join(x)
        except TypeError:
            raise Limitation('join of %r' % (x,))

    def star(self, x):
        if isinstance(x, VSeq) or hasattr(x, 'vparts'):
            return list(x)
        return x

    def touch_attr(self, obj, name):
        c = core.CTX
        if c is not None:
            for h in c.user.get('touch_attr', ()):
                h(obj, name)

    def comp(self, kind, it, fn, cond):
        parts = None
        if isinstance(it, VSeq) or hasattr(it, 'vparts'):
            parts = parts_of(it)
        if parts is None or all(isinstance(p, Item) for p in parts):
            if parts is not None:
                it = [p.v for p in parts]
            if kind == 'gen':
                if cond is None:
                    return (fn(x) for x in it)
                return (fn(x) for x in it if cond(x))
            out = [fn(x) for x in it if cond is None or cond(x)]
            if kind == 'list':
                return self.list(out)
            if kind == 'set':
                return set(out)
            return dict(out)
        if kind in ('set', 'dict'):
            raise Limitation('%s of symbolic size' % kind)
        out = []
        for p in parts:
            if isinstance(p, Item):
                if cond is None or cond(p.v):
                    out.append(Item(fn(p.v)))
            else:
                out.append(map_seg(p, fn, cond))
        return finish('list' if kind == 'list' else 'iter', out)


class Once(object):
    """A loop over a concrete iterable."""

    def __init__(self, it):
        self.it = it

    def phases(self):
        yield ConcretePhase(self.it)


class PlainWhile(object):
    havoc = False

    def enter(self):
        return True

    def pre(self, fn):
        return False

    def test(self, fn):
        return fn()


def same_counts(flat, f, p):
    """The filter keeps as many of any element as the declared count (by
    induction): as many up to any element."""
    c = ctx()
    if c.pick('same count', 2):
        i = c.int('i', 0)
        c.assume(i.z < p.n())
        if len(flat.items(i.z)) != len(f.items(i.z)):
            c.loop_state[('counts', f.name, p.base.name)] = True
            raise Restart()
        raise EndPath()
    flat.cl = f.cl


def map_seg(p, fn, cond=None, name='map'):
    """The (lazily evaluated) segment of fn(x) for x in p if cond(x).

    fn must not have effects; that it does not raise is checked for an
    arbitrary element first (if it raises, so does the comprehension)."""
    c = ctx()
    if isinstance(p, FSeg):
        raise Limitation('mapping over a filtered sequence')
    k = c.choose([p.n() > 0, z3.BoolVal(True)])
    if k == 0:
        i = c.int('i')
        c.assume(z3.And(0 <= i.z, i.z < p.n()))
        x = p.get(i.z)
        if cond is None or cond(x):
            fn(x)
        raise EndPath()
    if cond is None:
        def get(z):
            try:
                return fn(p.get(core.simp(z)))
            except (Exception, core.AnyError) as err:
                if core.genuine(err, ctx().files):
                    raise EndPath()
                raise
        b = seqs.Base('%s(%s)' % (name, p.base.name), get, num(p.n()))
        b.pointwise = [p]
        b.fn = (fn, p)
        return Seg(b, 0, p.n())

    def items(z):
        x = p.get(core.simp(z))
        return [fn(x)] if cond(x) else []
    flat = seqs.Flat('filter', p.base, items)
    for f in c.user.get('counts', ()):
        if f.base is p.base and z3.is_true(core.simp(p.lo == 0)) and \
                not c.loop_state.get(('counts', f.name, p.base.name)):
            same_counts(flat, f, p)
            break
    return FSeg(flat, z3.IntVal(0), p.n())
