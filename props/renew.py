"""C29: elements that change while they are not stored."""
import operator
from bisect import bisect_left, bisect_right

from vt import sut
from vt.domains import LOADS, must_raise
from vt.engine import fail, prop, short
from vt.listdrv import layout


class Rec:
    """A mutable record; equal to itself only."""

    def __init__(self, n, v):
        self.n = n
        self.v = v

    def __repr__(self):
        return '<%d:%d>' % (self.n, self.v)


class Ord(Rec):
    """One that is ordered by its current state."""

    def __lt__(self, other):
        return (self.v, self.n) < (other.v, other.n)

    def __gt__(self, other):
        return (self.v, self.n) > (other.v, other.n)

    def __le__(self, other):
        return (self.v, self.n) <= (other.v, other.n)

    def __ge__(self, other):
        return (self.v, self.n) >= (other.v, other.n)


class Val(Ord):
    """One that is also compared by its current state; cannot be hashed."""

    def __lt__(self, other):
        return self.v < other.v

    def __gt__(self, other):
        return self.v > other.v

    def __le__(self, other):
        return self.v <= other.v

    def __ge__(self, other):
        return self.v >= other.v

    def __eq__(self, other):
        return self.v == other.v

    def __ne__(self, other):
        return self.v != other.v

    __hash__ = None


def key_v(r):
    return r.v


def key_neg(r):
    return -r.v


def key_coarse(r):
    return r.v // 4


def key_pair(r):
    return (r.v % 3, r.v)


KEYS = [operator.attrgetter('v'), key_v, key_neg, key_coarse, key_pair]


class Pool:
    """Objects, in the container or not; the ones outside may change."""

    def __init__(self, c):
        self.c = c
        self.face = c.pick(('list', 'list', 'set', 'dict'))
        style = c.int(0, 4)
        size = c.pick((6, 20, 60, 150)) if not c.small else 8
        self.span = c.pick((4, 20, 100, 1000))
        self.scores = {}
        if style <= 1:
            self.key = c.pick(KEYS)
            self.objs = [Rec(i, self.state()) for i in range(size)]
        elif style == 2 or style == 3 and self.face != 'list':
            self.key = None
            self.objs = [Ord(i, self.state()) for i in range(size)]
        elif style == 3:
            self.key = c.pick((None, key_v))
            self.objs = [Val(i, self.state()) for i in range(size)]
        else:
            # what an element sorts by is kept elsewhere
            self.scores = {i * 7: self.state() for i in range(size)}
            self.key = self.scores.__getitem__
            self.objs = list(self.scores)
        if self.scores:
            self.ident = lambda o: o
        else:
            self.ident = id
        self.inside = {}
        start = [o for o in self.objs if c.int(0, 3)]
        load = c.pick(LOADS)
        how = c.int(0, 1)
        if self.face == 'list':
            self.x = sut.SortedList(start if how else (), key=self.key)
        elif self.face == 'set':
            self.x = sut.SortedSet(start if how else (), key=self.key)
        else:
            self.x = sut.SortedDict(self.key, [(o, 0) for o in start] if how else ())
        self.x._reset(load)
        if not how:
            self.store(start, 1)
        self.inside = {self.ident(o): o for o in start}
        self.bound = (self.x.index, self.x.bisect_left, self.x.bisect_right)
        self.keys = self.x.keys() if self.face == 'dict' else self.x
        self.order = []
        self.hot = []
        if c.verbose:
            c.note('new %s, key %s, load %d: %s' % (type(self.x).__name__, 'none' if self.key is None else getattr(self.key, '__name__', 'attrgetter'), load, short([self.show(o) for o in start])))
        self.verify('the constructor')

    def show(self, o):
        return '%d:%d' % (o, self.scores[o]) if self.scores else repr(o)

    def state(self):
        return self.c.int(0, self.span)

    def k(self, o):
        return o if self.key is None else self.key(o)

    def verify(self, what):
        real = list(self.x)
        if len(self.x) != len(real):
            fail('after', what, ': len is', len(self.x), 'and', len(real), 'are iterated')
        got = {self.ident(o) for o in real}
        if len(got) != len(real) or got != set(self.inside):
            fail('after', what, ': holds', [self.show(o) for o in real], 'expected', [self.show(o) for o in self.inside.values()])
        ks = [self.k(o) for o in real]
        for i in range(1, len(ks)):
            if ks[i] < ks[i - 1]:
                fail('after', what, ': out of order:', [self.show(o) for o in real])
        self.order = real

    # -- taking out ------------------------------------------------------
    def gone(self, objs, what):
        for o in objs:
            self.inside.pop(self.ident(o), None)
        self.hot = list(objs)
        if self.c.verbose:
            self.c.note('%s: %s' % (what, short([self.show(o) for o in objs])))

    def exactly(self, o):
        """Values that compare equal to others cannot be told apart by value."""
        return type(o) is not Val or sum(1 for p in self.order if p == o) == 1

    def take_out(self, few=False):
        c, x, order = self.c, self.x, self.order
        n = len(order)
        if not n:
            return
        how = c.int(0, 3 if few else 7)
        i = c.edge(0, n - 1)
        o = order[i]
        if how == 0 and self.exactly(o):
            if self.face == 'dict':
                del x[o]
            else:
                x.remove(o)
            self.gone([o], 'removed')
        elif how == 1 and self.exactly(o):
            if self.face == 'dict':
                x.pop(o)
            else:
                x.discard(o)
            self.gone([o], 'discarded')
        elif how <= 2:
            got = x.popitem(i)[0] if self.face == 'dict' else x.pop(i)
            if got is not o and got != o:
                fail('popped', self.show(got), 'at', i, 'instead of', self.show(o))
            self.gone([o], 'popped')
        elif how == 3:
            del self.keys[i]
            self.gone([o], 'deleted by position')
        elif how == 4:
            j = c.edge(i, n)
            s = slice(i, j, c.pick((None, 1, 2, 3)))
            out = order[s]
            del self.keys[s]
            self.gone(out, 'deleted by slice')
        elif how == 5:
            out = [p for p in order[i:i + c.int(1, 12)]]
            if not all(self.exactly(p) for p in out):
                return
            for p in out:
                if self.face == 'dict':
                    x.pop(p, None)
                else:
                    x.discard(p)
            self.gone(out, 'discarded each')
        elif how == 6 and self.face == 'set':
            out = order[i:: c.int(1, 4)]
            if c.int(0, 1):
                x.difference_update(out)
            else:
                drop = set(out)
                x.intersection_update([p for p in order if p not in drop])
            self.gone(out, 'removed in bulk')
        elif how == 7 and c.int(0, 2) == 0:
            x.clear()
            self.gone(order, 'cleared')
        self.verify('taking out')

    # -- changing --------------------------------------------------------
    def outside(self):
        return [o for o in self.objs if self.ident(o) not in self.inside]

    def change(self, objs):
        c = self.c
        for o in objs:
            how = c.int(0, 4)
            old = self.scores[o] if self.scores else o.v
            new = old + c.pick((1, -1, 5, -5)) if how == 0 else self.state()
            new = max(0, new)
            if self.scores:
                self.scores[o] = new
            else:
                o.v = new
            c.note('%s was %d' % (self.show(o), old)) if c.verbose else None

    # -- putting in ------------------------------------------------------
    def store(self, objs, how):
        x = self.x
        if how == 0:
            for o in objs:
                if self.face == 'dict':
                    x[o] = 1
                else:
                    x.add(o)
        elif how == 1:
            if self.face == 'dict':
                x.update([(o, 2) for o in objs])
            else:
                x.update(objs)
        elif how == 2:
            if self.face == 'dict':
                x |= {o: 3 for o in objs}
            elif self.face == 'set':
                x |= set(objs)
            else:
                x += objs
        else:
            if self.face == 'dict':
                for o in objs:
                    x.setdefault(o, 4)
            elif self.face == 'set':
                x.symmetric_difference_update(objs)
            else:
                x.update(iter(objs))

    def put_in(self, objs):
        c = self.c
        how = c.int(0, 3)
        c.note('put in, way %d: %s' % (how, short([self.show(o) for o in objs]))) if c.verbose else None
        self.store(objs, how)
        for o in objs:
            self.inside[self.ident(o)] = o
        self.verify('putting in')

    # -- reading ---------------------------------------------------------
    def read(self):
        c, x, order = self.c, self.x, self.order
        pool = self.hot if self.hot and c.int(0, 1) else self.objs
        o = c.pick(pool)
        index, left, right = self.bound if c.int(0, 1) else (x.index, x.bisect_left, x.bisect_right)
        ko = self.k(o)
        lo, hi = bisect_left(order, ko, key=self.key), bisect_right(order, ko, key=self.key)
        if type(o) is Val:
            inside = any(p == o for p in order[lo:hi])
        else:
            inside = self.ident(o) in self.inside
        how = c.int(0, 6)
        c.note('read %s, way %d' % (self.show(o), how)) if c.verbose else None
        if how == 0:
            c.check((o in x) is inside, self.show(o), 'in x gives', o in x)
            if self.face != 'dict':
                want = sum(1 for p in order[lo:hi] if p == o)
                c.check(x.count(o) == want, 'count of', self.show(o), 'gives', x.count(o))
        elif how == 1:
            if inside:
                want = order.index(o, lo, hi)
                c.check(index(o) == want, 'index of', self.show(o), 'gives', index(o), 'expected', want)
            else:
                must_raise(ValueError, index, o, what='index of %s' % self.show(o))
        elif how == 2:
            c.check(left(o) == lo and right(o) == hi, 'bisects of', self.show(o), 'give', left(o), right(o), 'expected', lo, hi)
        elif how == 3 and self.key is not None:
            got = (x.bisect_key_left(ko), x.bisect_key_right(ko), x.bisect_key(ko))
            c.check(got == (lo, hi, hi), 'key bisects of', self.show(o), 'give', got, 'expected', lo, hi)
        elif how == 4:
            p = c.pick(self.objs)
            a, b = (o, p) if not self.k(p) < ko else (p, o)
            want = order[bisect_left(order, self.k(a), key=self.key):bisect_right(order, self.k(b), key=self.key)]
            got = list(x.irange(a, b))
            c.check(len(got) == len(want) and all(g is w for g, w in zip(got, want)), 'irange', self.show(a), self.show(b), 'gives', [self.show(g) for g in got])
        elif how == 5 and order:
            i = c.edge(0, len(order) - 1)
            c.check(self.keys[i] is order[i] or self.keys[i] == order[i], '[%d] gives' % i, self.show(self.keys[i]))
        else:
            got = list(reversed(x))
            c.check(all(g is w for g, w in zip(got, order[::-1])) and len(got) == len(order), 'reversed gives', [self.show(g) for g in got])


@prop(
    'C29',
    'A case is a container (every type) of mutable objects ordered by their current state, directly or through a key function, or by scores kept elsewhere. Objects are taken out in '
    'every way, change, and come back in every way; reads about objects inside and outside go in between. After each step the order must fit the present state, and reads are judged '
    'against the iterated order. Non-trivial: at least 4 objects changed between leaving and returning.',
    quick=80000,
    assumptions=['elements do not change while stored (documented caveat); hash and equality of set members and dict keys never change'],
)
def c29(c):
    p = Pool(c)
    back = 0
    most = 0
    for _ in c.steps(120, 30):
        r = c.int(0, 9)
        if r < 3:
            c.again('read', p.read)
        elif r < 6:
            # the usual update of a priority: out, change, in again
            p.take_out(few=True)
            objs = [o for o in p.hot if p.ident(o) not in p.inside]
            if objs and c.int(0, 1):
                p.read()
            p.change(objs)
            if objs and c.int(0, 3) == 0:
                p.read()
            p.put_in(objs)
            back += len(objs)
        elif r == 6:
            p.take_out()
        elif r == 7:
            out = p.outside()
            p.change(out[: c.int(0, len(out))])
        else:
            out = p.outside()
            if out:
                i = c.edge(0, len(out) - 1)
                out = out[i:i + c.pick((1, 3, 100))]
                if p.hot and c.int(0, 1):
                    out = [o for o in p.hot if p.ident(o) not in p.inside]
                p.put_in(out)
                back += len(out)
        most = max(most, layout(p.x if p.face == 'list' else getattr(p.x, '_list', None)))
    p.x._check()
    c.tag(p.face)
    c.tag('sublists>=3' if most >= 3 else 'sublists<3')
    if back >= 4:
        c.nontrivial()
