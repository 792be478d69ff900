"""Contract of _full_keys: the expansion of any keys for an array of any
rank (with at most one Ellipsis)."""
from contracts.common import *          # noqa

KINDS = ('int', 'npint', 'slice', 'tuple', 'bool', 'newaxis')


class Rest(object):
    """The state of the loop which takes the keys from the left, up to the
    Ellipsis, then from the right, after k rounds."""

    def __init__(self, A, a, B, b):
        # B is None: there is no Ellipsis.
        self.A, self.a, self.B, self.b = A, a, B, b
        if B is not None:
            self.back = Base('back', lambda z: B.get(core.simp(b - 1 - z)),
                             num(b))

    def bound(self, loop, k):
        if loop.assuming:
            ctx().assume(k <= self.total(loop))
        else:
            loop.checks.append(k <= self.total(loop))

    def split(self, loop):
        """Whether the Ellipsis is there (if there are too many keys for it
        to stand for any, it may have been dropped)."""
        if not hasattr(loop, 'split'):
            loop.split = any(
                isinstance(v, VList) and any(
                    isinstance(p, Item) and p.v is Ellipsis for p in v.parts)
                for v in loop.entry_lists.values())
        return loop.split

    def total(self, loop):
        if self.B is None:
            return self.a
        return core.simp(self.a + self.b + (1 if self.split(loop) else 0))

    def left(self, k):
        return ctx().branch(k <= self.a)


class KeysGhost(Rest):
    def accepts(self, loop, v0):
        return isinstance(v0, VList) and len(v0.parts) > 0

    def at(self, loop, v0, k):
        self.bound(loop, k)
        split = self.split(loop)
        rest = [] if self.B is None else [Item(Ellipsis)] * split + [
            Seg(self.B, 0, self.b)]
        if self.left(k):
            if ctx().branch(k == self.a):
                return rest
            return [Seg(self.A, k, self.a)] + rest
        if not split:
            return [Seg(self.B, core.simp(k - self.a), self.b)]
        return [Seg(self.B, 0, core.simp(self.b - (k - self.a - 1)))]


class LeftGhost(Rest):
    def accepts(self, loop, v0):
        return isinstance(v0, VList) and not v0.parts

    def at(self, loop, v0, k):
        self.bound(loop, k)
        if self.left(k):
            return [Seg(self.A, 0, k)]
        return [Seg(self.A, 0, self.a),
                Item(SSlice(None, None, None)) if self.split(loop) else
                Seg(self.B, 0, core.simp(k - self.a))]


class RightGhost(Rest):
    def accepts(self, loop, v0):
        return isinstance(v0, VList) and not v0.parts

    def at(self, loop, v0, k):
        self.bound(loop, k)
        if not self.split(loop) or self.left(k):
            return []
        return [Seg(self.back, 0, core.simp(k - self.a - 1))]


class SideGhost(Rest):
    def accepts(self, loop, v0):
        return isinstance(v0, bool)

    def at(self, loop, v0, k):
        self.bound(loop, k)
        return v0 if not self.split(loop) or self.left(k) else not v0


def expansion(c, env, form):
    vector_models(env)
    rank = c.int('rank', 0)
    a = c.int('left', 0)
    A, Ab = keys.keyseq('a', KINDS, a)
    B = Bb = b = None
    count = [Flat('count', Ab, lambda z: [1] * (Ab.get(z) is not None))]
    given = list(A.parts)
    if form == 'ellipsis':
        b = c.int('right', 0)
        B, Bb = keys.keyseq('b', KINDS, b)
        given += [Item(Ellipsis)] + list(B.parts)
        count.append(Flat('count', Bb, lambda z: [1] * (
            Bb.get(z) is not None)))
    c.user['counts'] = count
    bz = None if b is None else b.z
    c.user['ghosts'] = [G(Ab, a.z, Bb, bz) for G in (
        KeysGhost, LeftGhost, RightGhost, SideGhost)]
    out = call(env.g['_full_keys'], VTuple(given), rank)
    n = count[0].at(a.z)
    if b is not None:
        n = n + count[1].at(b.z)
    if not out.ok:
        c.prove('IndexError', out.raised(IndexError))
        c.prove('rejected only if there are too many keys', n > rank.z)
        return
    c.prove('too many keys are rejected', n <= rank.z)
    r = out.value
    c.prove('a tuple', isinstance(r, (tuple, VTuple)))
    nb = z3.IntVal(0) if b is None else b.z
    mid = rank.z - n
    c.prove('the number of keys', lift(vlen(r)) == a.z + mid + nb)
    i = c.int('i', 0)
    c.assume(i.z < a.z + mid + nb)
    got = at(r, i.z)
    if c.branch(i.z < a.z):
        c.prove('the keys before the Ellipsis', veq(got, Ab.get(i.z)))
    elif c.branch(i.z < a.z + mid):
        s = seqs.as_slice(got)
        c.prove('all of the other dimensions', s is not None and s.is_full())
    else:
        c.prove('the keys after the Ellipsis', veq(got, Bb.get(
            core.simp(i.z - a.z - mid))))


@contract('_full_keys', ['_full_keys'])
def full_keys(c, env):
    expansion(c, env, 'none')


@contract('_full_keys: Ellipsis', ['_full_keys'])
def full_keys_ellipsis(c, env):
    expansion(c, env, 'ellipsis')


@contract('_full_keys: one key', ['_full_keys'])
def full_keys_one(c, env):
    """A key which is not a tuple (a tuple of integers is several keys)."""
    vector_models(env)
    rank = c.int('rank', 0)
    k = keys.key('key', ('int', 'npint', 'slice', 'bool', 'newaxis',
                         'ellipsis'))
    out = call(env.g['_full_keys'], k, rank)
    n = 0 if kind_of_key(k) in ('newaxis', 'ellipsis') else 1
    if not out.ok:
        c.prove('IndexError', out.raised(IndexError))
        c.prove('rejected only if there are too many keys', n > rank.z)
        return
    c.prove('too many keys are rejected', n <= rank.z)
    r = out.value
    first = 0 if k is Ellipsis else 1
    c.prove('the number of keys', lift(vlen(r)) == rank.z + (k is None))
    i = c.int('i', 0)
    c.assume(i.z < rank.z + (k is None))
    got = at(r, i.z)
    if c.branch(i.z < first):
        c.prove('the key given', got is k or veq(got, k))
    else:
        s = seqs.as_slice(got)
        c.prove('all of the other dimensions', s is not None and s.is_full())


CONTRACTS = [full_keys, full_keys_ellipsis, full_keys_one]
