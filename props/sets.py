"""C11..C13: SortedSet."""
import operator
from collections import deque

from vt import sut
from vt.calls import coherent
from vt.domains import HASH_KEYED, HASH_KINDS, LOADS, Gen, PlainSet, arranged, as_iterable, must_raise, same
from vt.engine import fail, prop, short
from vt.listdrv import ListDriver, layout

LIMIT = 5000


def key_choices(kind, key=None):
    """Every key function (or none) that can order values of the kind."""
    out = [t for t in HASH_KEYED if t[0] is kind]
    if kind in HASH_KINDS:
        out.append((kind, None, kind.le))
    return out or [(kind, key, False)]


# hashable values that fit no order
UNHASHABLE = ([], {}, bytearray(), ([],))
STRANGERS = (None, 'q!', b'q!', 2.5j, (None,), object(), frozenset([None]), -77.25, type)


class SetDriver:
    """A SortedSet and a built-in set put through the same history."""

    def __init__(self, c, cls=None, pool=None, kinds=None, loads=None, big=True, keyed=None, huge=0):
        self.c = c
        keyed = c.int(0, 1) if keyed is None else keyed
        if keyed:
            self.kind, self.key, self.can_check = c.pick(pool or HASH_KEYED)
        else:
            self.kind, self.key = c.pick(kinds or HASH_KINDS), None
            self.can_check = self.kind.le
        self.gen = Gen(c, self.kind, big=big, huge=huge, key=self.key)
        self.load = c.pick(loads or LOADS)
        if c.int(0, 1):  # derived containers use it too
            sut.SortedList.DEFAULT_LOAD_FACTOR = self.load
        init = self.gen.initial()
        self.x = self.build(cls or sut.SortedSet, init)
        self.s = set(init)
        self.weights = None
        self.mutations = 0
        self.bound = (self.x.isdisjoint, self.x.issubset, self.x.issuperset)
        self.order = None
        if c.verbose:
            c.note(
                'new %s kind=%s key=%s load=%s values=%s'
                % (type(self.x).__name__, self.kind, getattr(self.key, '__name__', self.key), self.load, short(init, 250))
            )
        self.verify('constructor')

    def build(self, cls, values):
        c = self.c
        mode = c.int(0, 4)
        if mode == 4:
            # another container, under a key function of its own
            key = c.pick(key_choices(self.kind, self.key))[1]
            values = sut.SortedSet(values, key=key) if c.int(0, 2) else sut.SortedDict(key, dict.fromkeys(values))
            mode = 0
        if mode == 0:
            x = cls(values, key=self.key) if self.key is not None or c.int(0, 1) else cls(values)
        elif mode == 1:
            x = cls(key=self.key)
            x._reset(self.load)
            x.update(values)
        elif mode == 2:
            x = cls(iterable=as_iterable(c, values), key=self.key)
        else:
            x = cls(as_iterable(c, values), self.key)
        x._reset(self.load)
        return x

    def expected(self):
        return sorted(self.s, key=self.key)

    def verify(self, what):
        x, s = self.x, self.s
        real = list(x)
        if len(x) != len(s):
            fail('after', what, ': len is', len(x), 'expected', len(s))
        if not arranged(real, self.expected(), self.key):
            fail('after', what, ': iteration gives', real, 'expected', self.expected())
        self.order = real

    def deep(self):
        """More expensive agreement of the two faces of the set."""
        c, x, s, m = self.c, self.x, self.s, self.order
        n = len(m)
        if list(reversed(x)) != m[::-1]:
            fail('reversed gives', list(reversed(x)), 'expected', m[::-1])
        for v in m if n < 60 else m[:: n // 20]:
            c.check(v in x, short(v), 'is iterated but not a member')
            c.check(x.count(v) == 1, 'count of', v, 'is', x.count(v))
        for _ in range(3):
            v = self.gen.value()
            c.check((v in x) is (v in s), short(v), 'in x ->', v in x, 'expected', v in s)
            c.check(x.count(v) == (1 if v in s else 0), 'count of', v, 'is', x.count(v))
        a = c.pick(STRANGERS)
        if a not in s:
            c.note('ask for %r' % (a,)) if c.verbose else None
            c.check((a in x) is False and x.count(a) == 0, a, 'in x ->', a in x, 'count', x.count(a))
            c.check(x.discard(a) is None, 'discard of an absent', a, 'returned a value')
            must_raise(KeyError, x.remove, a, what='remove of an absent %r' % (a,))
        if not c.int(0, 7):
            a = c.pick(UNHASHABLE)
            c.note('ask for %r' % (a,)) if c.verbose else None
            for f in (x.__contains__, x.count, x.discard, x.remove, x.add):
                must_raise(TypeError, f, a, what='%s of the unhashable %r' % (f.__name__, a))
        if n:
            i = c.edge(-n, n - 1)
            c.check(x[i] is m[i] or x[i] == m[i], '[%d]' % i, 'is', x[i], 'expected', m[i])
        else:
            must_raise(IndexError, x.__getitem__, 0, what='[0] of empty')
        a, b = c.edge(0, n), c.edge(0, n)
        c.check(x[a:b] == m[a:b], '[%d:%d]' % (a, b), 'is', x[a:b], 'expected', m[a:b])
        other = set(m[: c.edge(0, n)])
        if c.int(0, 1):
            other |= set(self.gen.values()[:30])
        isd, sub, sup = self.bound if c.int(0, 1) else (x.isdisjoint, x.issubset, x.issuperset)
        c.check(isd(other) is s.isdisjoint(other), 'isdisjoint', other, 'gave', isd(other), 'for', m)
        c.check(sub(other) is s.issubset(other), 'issubset', other, 'gave', sub(other), 'for', m)
        c.check(sup(other) is s.issuperset(other), 'issuperset', other, 'gave', sup(other), 'for', m)
        c.check(x.key is self.key, 'key is', x.key)
        if self.can_check:
            x._check()

    def present(self):
        c = self.c
        if self.order and c.int(0, 5):
            return self.order[c.edge(0, len(self.order) - 1)]
        return self.gen.value()

    @property
    def m(self):
        return self.order

    index = ListDriver.index
    slice = ListDriver.slice
    choose = ListDriver.choose

    def step(self, ops):
        op = self.choose(ops)
        getattr(self, 'op_' + op)()

    def did(self, what):
        self.mutations += 1
        if self.c.verbose:
            self.c.note(what)
        self.verify(what)

    # -- operands -------------------------------------------------------
    def operand(self, method=True):
        """Returns (object, its members as a list).  method: any iterable goes."""
        c = self.c
        how = c.int(0, 11 if method else 9)
        n = len(self.order)
        size = c.int(0, 6)
        if size == 0:
            vals = []
        elif size == 1:
            vals = [self.gen.value() for _ in range(c.int(1, 4))]
        elif size == 2 and n:
            vals = self.order[c.edge(0, n) :][:: c.pick((1, 2, 3))]
        elif size == 3 and n:  # around the quarter-size switch
            k = max(0, n // 4 + c.int(-1, 2))
            src = self.order[:: c.pick((1, 2))]
            vals = src[:k] if c.int(0, 1) else self.gen.pattern(k)
        elif size == 4:
            vals = self.gen.values()
        elif size == 5 and n:
            at = c.edge(0, n - 1)
            vals = self.order[at : at + c.int(1, 8)] + [self.gen.value() for _ in range(c.int(0, 2))]
        else:
            vals = self.gen.pattern(c.int(0, 30))
        if how == 0:
            return set(vals), vals
        if how == 1:
            return frozenset(vals), vals
        if how == 2:
            return dict.fromkeys(vals).keys(), vals
        if how == 3:
            y = sut.SortedSet(vals, key=self.key)
            y._reset(c.pick(LOADS))
            return y, vals
        if how == 4:
            other = c.pick(key_choices(self.kind, self.key))[1]
            return sut.SortedSet(vals, key=other), vals
        if how == 5:
            return self.x, list(self.order)
        if how == 6:
            return sut.SortedDict(self.key, dict.fromkeys(vals)).keys(), vals
        if how <= 9:
            return set(vals), vals
        vals = vals + vals[: c.int(0, 2)]
        if how == 10:
            return as_iterable(c, vals), vals
        return iter(self.x), list(self.order)

    def operands(self):
        return [self.operand() for _ in range(self.c.weighted([(6, 1), (2, 2), (1, 0), (1, 3)]))]

    def fits(self, ops):
        return len(self.s) + sum(len(v) for _, v in ops) <= LIMIT + self.gen.huge

    # -- mutations ------------------------------------------------------
    def op_add(self):
        v = self.gen.value() if self.c.int(0, 3) else self.present()
        self.c.check(self.x.add(v) is None, 'add returned a value')
        self.s.add(v)
        self.did('add(%s)' % short(v, 60))

    def op_burst_add(self):
        vals = self.gen.pattern(self.c.int(1, 45))
        for v in vals:
            self.x.add(v)
        self.s.update(vals)
        self.did('add each of %s' % short(vals))

    def op_swap(self):
        """One member goes, another comes: the size stays."""
        v = None
        if self.order:
            v = self.c.pick(self.order)
            self.x.discard(v)
            self.s.discard(v)
        w = self.gen.value()
        self.x.add(w)
        self.s.add(w)
        self.did('discard(%s), add(%s)' % (short(v, 60), short(w, 60)))

    def op_discard(self):
        v = self.present()
        self.c.check(self.x.discard(v) is None, 'discard returned a value')
        self.s.discard(v)
        self.did('discard(%s)' % short(v, 60))

    def op_remove(self):
        v = self.present()
        self.c.note('remove(%s)' % short(v, 60)) if self.c.verbose else None
        if v in self.s:
            self.c.check(self.x.remove(v) is None, 'remove returned a value')
            self.s.remove(v)
        else:
            must_raise(KeyError, self.x.remove, v, what='remove of an absent value')
        self.did('remove')

    def op_burst_remove(self):
        c, n = self.c, len(self.order)
        at, k = c.edge(0, n), c.int(1, 40)
        vals = self.order[at : at + k]
        for v in vals:
            if c.int(0, 1):
                self.x.discard(v)
            else:
                self.x.remove(v)
        self.s.difference_update(vals)
        self.did('remove each of %s' % short(vals))

    def op_thin(self):
        """Single removals all over: every sublist gets short, few are merged."""
        c = self.c
        stride, at, keep = c.pick((2, 3, 2, 4, 3, 7)), c.int(0, 6), c.int(0, 1)
        gone = [v for i, v in enumerate(self.order[at:]) if (i % stride == 0) != keep]
        for v in gone:
            self.x.remove(v)
        self.s.difference_update(gone)
        self.did('remove each of %s' % short(gone))

    def op_pop(self):
        c = self.c
        if c.int(0, 1):
            i = -1
            f = lambda: self.x.pop()
        else:
            i = self.index()
            f = lambda: self.x.pop(i)
        c.note('pop(%d) of %d' % (i, len(self.order))) if c.verbose else None
        if -len(self.order) <= i < len(self.order):
            got, want = f(), self.order[i]
            if got is not want and got != want:
                fail('pop(%d) gave' % i, got, 'expected', want)
            self.s.remove(want)
        else:
            must_raise(IndexError, f, what='pop(%d) of %d' % (i, len(self.order)))
        self.did('pop')

    def op_del(self):
        c = self.c
        i = self.index()
        c.note('del [%d] of %d' % (i, len(self.order))) if c.verbose else None
        if -len(self.order) <= i < len(self.order):
            del self.x[i]
            self.s.remove(self.order[i])
        else:
            must_raise(IndexError, self.x.__delitem__, i, what='del [%d] of %d' % (i, len(self.order)))
        self.did('del [i]')

    def op_del_slice(self):
        c = self.c
        sl = self.slice()
        c.note('del [%s] of %d' % (sl, len(self.order))) if c.verbose else None
        del self.x[sl]
        self.s.difference_update(self.order[sl])
        self.did('del slice')

    def op_clear(self):
        if len(self.order) > 20 and self.c.int(0, 2):
            return
        self.c.check(self.x.clear() is None, 'clear returned a value')
        self.s.clear()
        self.did('clear()')

    def op_reset(self):
        self.load = self.c.pick(LOADS)
        self.x._reset(self.load)
        self.did('_reset(%d)' % self.load)

    def bulk(self, name, symbol):
        c, x = self.c, self.x
        if c.int(0, 2) == 0:
            obj, vals = self.operand()
            if not self.fits([(obj, vals)]):
                return
            c.note('x %s %s' % (symbol, short(obj, 200))) if c.verbose else None
            got = {'|=': operator.ior, '&=': operator.iand, '-=': operator.isub, '^=': operator.ixor}[symbol](x, obj)
            args = [vals]
        else:
            ops = [self.operand()] if name == 'symmetric_difference_update' else self.operands()
            if not self.fits(ops):
                return
            c.note('x.%s(%s)' % (name, ', '.join(short(o, 100) for o, _ in ops))) if c.verbose else None
            before = [(o, list(v)) for o, v in ops if isinstance(o, (set, frozenset, sut.SortedSet)) and o is not x]
            got = getattr(x, name)(*[o for o, _ in ops])
            args = [v for _, v in ops]
            for o, v in before:
                if len(o) != len(set(v)) or not all(w in o for w in v):
                    fail(name, 'changed its argument to', o)
        if got is not x:
            fail(name, 'returned', got, 'instead of the set itself')
        getattr(self.s, name)(*args)
        self.did(name)

    def op_update(self):
        self.bulk('update', '|=')

    def op_difference_update(self):
        self.bulk('difference_update', '-=')

    def op_intersection_update(self):
        self.bulk('intersection_update', '&=')

    def op_symmetric_difference_update(self):
        self.bulk('symmetric_difference_update', '^=')


SET_OPS = [
    'add', 'swap', 'update', 'burst_add', 'discard', 'remove', 'burst_remove', 'thin', 'pop', 'del', 'del_slice', 'clear', 'reset',
    'difference_update', 'intersection_update', 'symmetric_difference_update',
]
# enough growth to keep interesting sizes
SET_GROW = ['add', 'swap', 'burst_add', 'thin', 'update', 'discard', 'remove', 'pop', 'del_slice', 'reset', 'symmetric_difference_update']


def size_tags(c, most, n):
    if most >= 3:
        c.tag('sublists>=3')
    if most >= 9:
        c.tag('sublists>=9')
    if n > 500:
        c.tag('size>500')


@prop(
    'C11',
    'A case is a constructor call plus a history of up to 120 operations on one SortedSet (with or without key), compared with a built-in '
    'set put through the same history and its sorted members after every step. Non-trivial: at least 5 mutations and at least 3 sublists.',
    quick=60000,
    assumptions=['values hashable, totally ordered (or their keys), equal values have equal keys and hashes'],
)
def c11(c):
    d = SetDriver(c, huge=400)
    most = layout(getattr(d.x, '_list', None))
    for i in c.steps(120, 28):
        d.step(SET_OPS if c.int(0, 1) else SET_GROW)
        most = max(most, layout(getattr(d.x, '_list', None)))
        if i % 4 == 3:
            c.again('deep', d.deep)
    d.deep()
    size_tags(c, most, len(d.s))
    c.tag('keyed' if d.key is not None else 'plain')
    if d.mutations >= 5 and most >= 3:
        c.nontrivial()


class SubSet(sut.SortedSet):
    pass


class OwnSet(set):
    pass


class OwnFrozen(frozenset):
    pass


BINARY = [('|', operator.or_), ('&', operator.and_), ('-', operator.sub), ('^', operator.xor)]


@prop(
    'C12',
    'A case is a SortedSet (base class or subclass, with or without key) built by a short history and then |, &, -, ^ (normal and reflected), '
    'union, intersection, difference, symmetric_difference with zero to three operands of 10 types incl. itself, and their update forms; judged '
    'against the built-in set. Non-trivial: a non-empty receiver met an overlapping but different operand.',
    quick=150000,
)
def c12(c):
    d = SetDriver(c, cls=c.pick((None, SubSet)), big=c.int(0, 5) == 5)
    for _ in c.steps(10, 3):
        d.step(SET_GROW)
    c.tag('keyed' if d.key is not None else 'plain')
    good = False
    for _ in c.steps(10, 5):
        x, s, before = d.x, d.s, list(d.order)
        how = c.int(0, 8)
        if how <= 2:
            name, op = c.pick(BINARY)
            obj, vals = d.operand()
            c.note('x %s %s' % (name, short(obj, 200))) if c.verbose else None
            want = op(s, set(vals))
            res = op(x, obj)
            args = [vals]
            used = [(obj, vals)]
            what = 'x %s operand' % name
        elif how <= 4:
            name, op = c.pick(BINARY)
            obj, vals = d.operand(method=False)
            if isinstance(obj, sut.SortedSet) or (isinstance(obj, sut.SortedKeysView) and d.kind not in HASH_KINDS):
                obj = set(vals)
            # built-in sets, frozensets and key views leave the answer to the sorted set, unless they
            # know how to combine with any iterable themselves
            knows = isinstance(obj, (type({}.keys()), sut.SortedKeysView))
            c.note('%s %s x' % (short(obj, 200), name)) if c.verbose else None
            want = op(set(vals), s)
            res = op(obj, x)
            used = [(obj, vals)]
            what = 'operand %s x' % name
            if knows:
                if set(res) != want or len(res) != len(want):
                    fail(what, 'gave', res, 'expected', want)
                res = None
        elif how <= 6:
            name = c.pick(('union', 'intersection', 'difference', 'symmetric_difference', 'copy'))
            if name == 'symmetric_difference':
                used = [d.operand()]
            elif name == 'copy':
                used = []
            else:
                used = d.operands()
            c.note('x.%s(%s)' % (name, ', '.join(short(o, 100) for o, _ in used))) if c.verbose else None
            want = getattr(s, name)(*[v for _, v in used])
            res = getattr(x, name)(*[o for o, _ in used])
            what = name
        else:
            d.step(['update', 'difference_update', 'intersection_update', 'symmetric_difference_update'])
            continue
        if res is not None:
            if type(res) is not type(x):
                fail(what, 'gave a', type(res).__name__, 'instead of a', type(x).__name__)
            if res is x:
                fail(what, 'returned the receiver itself')
            if res.key is not d.key:
                fail(what, 'result has key', res.key, 'instead of', d.key)
            if len(res) != len(want) or not arranged(list(res), sorted(want, key=d.key), d.key):
                fail(what, 'gave', list(res), 'expected', sorted(want, key=d.key))
            if not all(v in res for v in want):
                fail(what, 'result', list(res), 'lacks a member of', want)
            if how != 3 and how != 4:
                # as with built-in sets, the receiver's own objects survive where the operand has equal ones
                mine = {v: v for v in before}
                theirs = {id(v) for _, vs in used for v in vs}
                free = 'intersection' in what or what == 'x & operand'  # of either side
                for v in res:
                    if v in mine and mine[v] is v or id(v) in theirs and (free or v not in mine):
                        continue
                    fail(what, 'holds', v, 'in place of the receiver\'s own', mine.get(v))
            if d.can_check:
                res._check()
            # independent and usable
            v = d.gen.value()
            res.add(v)
            if len(res) != len(want | {v}) or v not in res:
                fail('the result of', what, 'is not usable: after add', list(res))
            if d.can_check:
                coherent(res, 'the result of ' + what)
            res.clear()
        if list(x) != before or len(x) != len(s):
            fail(what, 'changed the receiver from', before, 'to', list(x))
        for o, v in used:
            if isinstance(o, (set, frozenset, sut.SortedSet)) and o is not x:
                if len(o) != len(set(v)) or not all(w in o for w in v):
                    fail(what, 'changed its operand to', o)
            if s and v and not s.isdisjoint(v) and not s == set(v):
                good = True
    d.deep()
    if good:
        c.nontrivial()


COMPARE = [operator.eq, operator.ne, operator.lt, operator.le, operator.gt, operator.ge]


@prop(
    'C13',
    'A case is a SortedSet built by a short history and set-like objects derived from it (equal, subset, superset, overlapping, disjoint; as '
    'SortedSet with the same, another or no key, set, frozenset, dict keys, sorted keys view), compared with six operators from both sides and '
    'isdisjoint/issubset/issuperset, judged by built-in sets; plus non-sets. Non-trivial: both sides non-empty and sharing members.',
    quick=120000,
)
def c13(c):
    d = SetDriver(c, big=c.int(0, 9) == 9)
    for _ in c.steps(8, 2):
        d.step(SET_OPS)
    good = False
    for _ in c.steps(10, 5):
        x, s, m = d.x, d.s, d.order
        n = len(m)
        vals = list(m)
        change = c.int(0, 7)
        if change == 7:
            # much larger, or the same but for one late member
            vals += d.gen.pattern(c.pick((n, 2 * n + 5, 70 * n)))[:2000]
            if n and c.int(0, 1):
                v = m[c.edge(0, n - 1)]
                vals = [w for w in vals if w != v]
        elif change == 1:
            vals = vals[: c.edge(0, n)]
        elif change == 2:
            vals += [d.gen.value() for _ in range(c.int(1, 3))]
        elif change == 3 and n:
            vals[c.edge(0, n - 1)] = d.gen.value()
        elif change == 4 and n:
            del vals[c.edge(0, n - 1)]
        elif change == 5:
            vals = d.gen.values()[:60]
        elif change == 6 and n:
            vals = [v for v in d.gen.pattern(20) if v not in s]
        t = set(vals)
        form = c.int(0, 8)
        if form == 0:
            other = set(vals)
        elif form == 7:
            other = PlainSet(vals)
        elif form == 8:
            other = c.pick((OwnSet, OwnFrozen))(vals)
        elif form == 1:
            other = frozenset(vals)
        elif form == 2:
            other = dict.fromkeys(vals).keys()
        elif form == 3:
            other = sut.SortedSet(vals, key=d.key)
            other._reset(c.pick(LOADS))
        elif form == 4:
            other = sut.SortedSet(vals, key=c.pick(key_choices(d.kind))[1])
        elif form == 5:
            other = sut.SortedDict(d.key, dict.fromkeys(vals)).keys()
        else:
            other = SubSet(vals, key=d.key)
        if c.verbose:
            c.note('compare %s with %s %s' % (short(m, 150), type(other).__name__, short(vals, 150)))
        for op in COMPARE:
            got, want = op(x, other), op(s, t)
            c.check(got is want, op.__name__, 'of', m, 'and', type(other).__name__, vals, 'gave', got)
            got, want = op(other, x), op(t, s)
            c.check(got is want, 'reflected', op.__name__, 'of', type(other).__name__, vals, 'and', m, 'gave', got)
        for name in ('isdisjoint', 'issubset', 'issuperset'):
            arg = other if c.int(0, 1) else as_iterable(c, vals)
            got, want = getattr(x, name)(arg), getattr(s, name)(t)
            c.check(got is want, name, 'of', m, 'and', vals, 'gave', got)
        if s and not s.isdisjoint(t):
            good = True
    x = d.x
    full = dict.fromkeys(x)
    for other in (
        5, None, 'ab', b'ab', range(3), list(x), tuple(x), object(), {1: 2}, full, full.values(), sut.SortedDict(d.key, full).values(),
        deque(x), iter(x),
    ):
        if isinstance(other, dict) and not full:
            continue
        c.check((x == other) is False, '== with a non-set', other)
        c.check((x != other) is True, '!= with a non-set', other)
        c.check((other == x) is False, 'reflected == with a non-set', other)
        c.check((other != x) is True, 'reflected != with a non-set', other)
        for op in COMPARE[2:]:
            must_raise(TypeError, op, other, x, what='ordering of a non-set')
            must_raise(TypeError, op, x, other, what='ordering against a non-set')
    c.tag('keyed' if d.key is not None else 'plain')
    if good:
        c.nontrivial()
