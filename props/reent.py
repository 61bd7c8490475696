"""C30: arguments that use the container while they are consumed."""
from collections import Counter
from collections.abc import Mapping

from vt import sut
from vt.domains import LOADS
from vt.engine import fail, prop, short
from vt.listdrv import layout


def neg(v):
    return -v


def coarse(v):
    return v // 3


def name_of(v):
    return (v % 5, v)


INPLACE = {
    'update', '+=', 'intersection_update', 'difference_update', 'symmetric_difference_update', '|=', '&=', '-=', '^=',
    'update(pairs)', 'update(pairs, **words)', 'update(mapping)', '|= mapping', 'counting', '|= pairs', 'counting again',
}


class Counting(sut.SortedDict):
    """The documented kind of defaultdict."""

    def __missing__(self, key):
        self[key] = 0
        return 0


class Live(Mapping):
    """A mapping that works its items out on demand."""

    def __init__(self, pairs, hook):
        self.d = dict(pairs)
        self.hook = hook

    def __len__(self):
        return len(self.d)

    def __iter__(self):
        for k in self.d:
            self.hook(k)
            yield k

    def __getitem__(self, k):
        v = self.d[k]
        self.hook(k)
        return v


class Box:
    """A container, what it holds, and what happened to it during a call."""

    def __init__(self, c):
        self.c = c
        self.face = c.pick(('list', 'set', 'dict', 'dict'))
        self.key = c.pick((None, None, neg, coarse, name_of))
        self.span = c.pick((8, 30, 100, 400))
        n = c.pick((0, 0, 1, 8, 40, 200))
        start = [self.value() for _ in range(min(n, 20))]
        start += range(0, max(0, n - 20))
        self.cls = sut.SortedDict
        if self.face == 'list':
            self.x = sut.SortedList(start, key=self.key)
        elif self.face == 'set':
            self.x = sut.SortedSet(start, key=self.key)
        else:
            self.cls = c.pick((sut.SortedDict, Counting))
            self.x = self.cls(self.key, [(v, -1) for v in start])
        load = c.pick(LOADS)
        self.x._reset(load)
        self.have = Counter(start) if self.face == 'list' else Counter(set(start))
        self.worth = {v: -1 for v in start}
        self.methods = (self.x.bisect_left, self.x.irange)
        self.calls = 0
        if c.verbose:
            c.note('%s key=%s load %d: %s' % (type(self.x).__name__, self.key and self.key.__name__, load, short(start)))

    def value(self):
        return self.c.int(0, self.span)

    def k(self, v):
        return v if self.key is None else self.key(v)

    # -- state -----------------------------------------------------------
    def sound(self, what):
        x = self.x
        real = list(x)
        if len(x) != len(real):
            fail(what, ': len is', len(x), 'and', len(real), 'are iterated:', real)
        ks = [self.k(v) for v in real]
        for i in range(1, len(ks)):
            if ks[i] < ks[i - 1]:
                fail(what, ': out of order:', real)
        if self.face != 'list':
            if len(set(real)) != len(real):
                fail(what, ': iterates twice:', real)
            for v in real:
                if v not in x:
                    fail(what, ':', v, 'is iterated but not contained')
            if self.face == 'dict' and dict.keys(x) != set(real):
                fail(what, ': iterates', real, 'and holds', list(dict.keys(x)))
        if real != list(reversed(x))[::-1]:
            fail(what, ': reversed disagrees')
        if real:
            mid = real[len(real) // 2]
            left, irange = self.methods
            if not (real[left(mid)] == mid or self.key is not None) or x.index(mid) != real.index(mid):
                fail(what, ': position of', mid, 'is', left(mid), x.index(mid))
            if next(irange(mid)) != real[left(mid)]:
                fail(what, ': irange of', mid, 'starts elsewhere')
        return real

    def accept(self, what):
        """Takes over what the container holds, after it was judged."""
        real = self.sound(what)
        self.have = Counter(real)
        if self.face == 'dict':
            self.worth = {v: dict.__getitem__(self.x, v) for v in real}
        return real

    # -- what arguments do -----------------------------------------------
    def begin(self):
        c = self.c
        self.added = Counter()
        self.removed = Counter()
        self.stores = {}
        self.style = c.int(0, 7)
        self.fed = []

    def put(self, v):
        self.added[v] += 1
        if self.face == 'dict':
            how = self.c.int(0, 2)
            if how == 0:
                self.x[v] = -2
                self.stores.setdefault(v, set()).add(-2)
            elif how == 1 and self.cls is Counting:
                self.x[v]
                self.stores.setdefault(v, set()).add(0)
            else:
                self.x.setdefault(v, -3)
                self.stores.setdefault(v, set()).add(-3)
        else:
            self.x.add(v)

    def drop(self, v):
        self.removed[v] += 1
        if self.face == 'dict':
            self.x.pop(v, None)
        else:
            self.x.discard(v)

    def act(self, v):
        """Something the argument does before or after giving v."""
        c, x = self.c, self.x
        if c.int(0, 1):
            return
        style = self.style
        if c.verbose:
            c.note('  meanwhile, style %d at %d' % (style, v))
        if style <= 1:
            self.sound('while the argument is consumed')
        elif style == 2:
            w = self.value() + 1000
            (w in x, x.bisect_left(w), x.bisect_right(v), len(x), list(x.irange(v)), repr(x), x == x)
        elif style == 3:
            self.put(v if c.int(0, 1) else self.value())
        elif style == 4:
            self.put(self.value() + (self.span + 1) * c.int(0, 1))
            self.sound('while the argument is consumed')
        elif style == 5:
            self.drop(v if c.int(0, 1) else self.value())
        elif style == 6 and len(x):
            i = c.edge(0, len(x) - 1)
            if self.face == 'dict':
                got = x.popitem(i)[0]
            else:
                got = x.pop(i)
            self.removed[got] += 1
        elif c.int(0, 1):
            self.put(v)
            self.drop(v)
        else:
            self.drop(v)
            self.put(v)

    def feed(self, values):
        for v in values:
            self.act(v)
            self.fed.append(v)
            yield v
            self.act(v)

    def pairs(self, values):
        for n, v in enumerate(values):
            self.act(v)
            self.fed.append(v)
            yield v, n
            self.act(v)

    def counts(self, values):
        """The usual way to count with a defaulting dict."""
        for v in values:
            old = self.x[v] if self.cls is Counting else self.x.setdefault(v, 0)
            self.added[v] += 1
            self.stores.setdefault(v, set()).add(0)
            self.fed.append(v)
            yield v, old + 1

    # -- calls -----------------------------------------------------------
    def judge(self, what, want, content, touched=None):
        """content must be want, apart from the values the argument itself wrote."""
        if what in ('intersection', 'intersection_update', '&=') and self.removed:
            # the built-in stops consuming when it has found as many members as there are
            want = Counter({v: want[v] for v in want if v in set(content)})
        touched = set(self.added) | set(self.removed) if touched is None else touched
        got = Counter(content)
        if what in INPLACE:
            fed = set(self.fed)
            for v in touched - fed:
                # nothing but the argument's own writes concerned these
                if v not in self.removed and not got[v] and what not in ('intersection_update', '&='):
                    fail(what, 'lost', v, 'which was added meanwhile')
                if v not in self.added and got[v] and self.face != 'list':
                    fail(what, 'brought back', v, 'which was removed meanwhile')
        if self.face == 'list':
            for v in set(got) | set(want):
                if v in touched:
                    # added or removed meanwhile
                    lo, hi = want[v] - self.removed[v], want[v] + self.added[v]
                    if not max(0, lo) <= got[v] <= hi:
                        fail(what, 'leaves', v, got[v], 'times, expected', max(0, lo), 'to', hi)
                elif got[v] != want[v]:
                    fail(what, 'leaves', v, got[v], 'times, expected', want[v])
        else:
            for v in set(got) ^ set(+want):
                if v not in touched:
                    fail(what, 'leaves', v, 'in' if v in got else 'out')

    def values(self):
        c = self.c
        if self.have and c.int(0, 4) == 0:
            # what is there, or nearly
            vals = list(self.have)
            i = c.int(0, 3)
            if i == 0:
                vals = vals[c.int(0, len(vals)):]
            elif i == 1:
                vals.append(self.value())
            return vals[:60]
        n = c.pick((0, 1, 2, 5, 12, 40))
        return [self.value() for _ in range(n)]

    def step(self):
        c, x = self.c, self.x
        self.begin()
        vals = self.values()
        before = Counter(self.have)
        c.note('values %s' % short(vals)) if c.verbose else None
        getattr(self, 'step_' + self.face)(vals, before)
        if self.fed and (self.added or self.removed or self.style <= 2):
            self.calls += 1

    def new(self, what, got, want):
        """A new container made by the call."""
        real = list(got)
        ks = [self.k(v) for v in real]
        if len(got) != len(real) or any(ks[i] < ks[i - 1] for i in range(1, len(ks))):
            fail(what, 'gives', real)
        got._check()
        self.judge(what, want, real)

    def step_list(self, vals, before):
        c, x = self.c, self.x
        how = c.int(0, 3)
        what = ('update', '+=', '+', 'constructor')[how]
        c.note(what) if c.verbose else None
        if how == 0:
            x.update(self.feed(vals))
        elif how == 1:
            x += self.feed(vals)
            c.check(x is self.x, '+= gives another object')
        elif how == 2:
            y = x + self.feed(vals)
            self.new(what, y, before + Counter(vals))
        else:
            y = type(x)(self.feed(vals), key=self.key) if self.key else type(x)(self.feed(vals))
            self.added, self.removed = Counter(), Counter()
            self.new(what, y, Counter(vals))
            self.accept(what)
            return
        self.judge(what, before + Counter(vals) if how < 2 else before, self.sound(what))
        self.accept(what)

    def step_set(self, vals, before):
        c, x = self.c, self.x
        how = c.int(0, 11)
        what = ('update', 'intersection_update', 'difference_update', 'symmetric_difference_update', '|=', '&=', '-=', '^=',
                'union', 'intersection', 'difference', 'symmetric_difference')[how]
        c.note(what) if c.verbose else None
        old, new = set(before), set(vals)
        args = [self.feed(vals)]
        if how % 4 != 3 and not 4 <= how < 8 and vals and c.int(0, 3) == 0:
            cut = c.int(0, len(vals))
            if how % 4 != 1:
                args = [self.feed(vals[:cut]), self.feed(vals[cut:])]
            else:
                args = [self.feed(vals), list(vals)]
        want = (old | new, old & new, old - new, old ^ new)[how % 4]
        if 4 <= how < 8:
            ops = ('__ior__', '__iand__', '__isub__', '__ixor__')
            y = getattr(x, ops[how - 4])(args[0])
        else:
            y = getattr(x, what)(*args)
        if how < 8:
            c.check(y is x, what, 'gives another object')
            self.judge(what, Counter(want), self.sound(what))
        else:
            self.new(what, y, Counter(want))
            self.judge('the receiver of ' + what, before, self.sound(what))
        self.accept(what)

    def step_dict(self, vals, before):
        c, x = self.c, self.x
        how = c.int(0, 8)
        what = ('update(pairs)', 'update(pairs, **words)', 'update(mapping)', '|= mapping', '| mapping', 'mapping |', 'counting', '|= pairs', 'counting again')[how]
        c.note(what) if c.verbose else None
        last = {v: n for n, v in enumerate(vals)}
        first = {v: 7 for v in vals}
        known = last
        if how in (0, 1):
            x.update(self.pairs(vals))
        elif how == 7:
            x |= self.pairs(vals)
        elif how in (6, 8):
            # the argument reads what it replaces
            start = dict(self.worth)
            x.update(self.counts(vals))
            known = {v: start.get(v, 0) + 1 for v in vals}
            alt = Counter(vals)
            known = {v: {known[v], start.get(v, 0) + alt[v]} for v in known}
        else:
            def hook(k):
                self.act(k)
                self.fed.append(k)
            m = Live(first, hook)
            known = first
            if how == 2:
                x.update(m)
            elif how == 3:
                x |= m
            elif how == 4:
                y = x | m
            else:
                y = m | x
            c.check(x is self.x, what, 'rebinds')
        touched = set(self.added) | set(self.removed)
        want = before if how in (4, 5) else before + Counter(list(known))
        if how in (4, 5):
            self.new(what, y, before + Counter(list(known)))
            for v in y:
                if v in touched:
                    continue
                expect = first[v] if v in first and (how == 4 or v not in before) else self.worth[v]
                if y[v] != expect:
                    fail(what, 'gives', y[v], 'for', v, 'expected', expect)
            c.check(type(y) is type(x), what, 'gives a', type(y).__name__)
            known = {}
        real = self.sound(what)
        self.judge(what, want, real, touched - set(known) if how in (6, 8) else touched)
        for v in real:
            got = dict.__getitem__(x, v)
            if how in (6, 8) and v in known:
                if got not in known[v]:
                    fail(what, 'leaves', got, 'for', v, 'expected one of', known[v])
            elif v not in touched:
                expect = known[v] if v in known else self.worth[v]
                if got != expect:
                    fail(what, 'leaves', got, 'for', v, 'expected', expect)
            elif got not in self.stores.get(v, ()) and got != known.get(v, got) and got != self.worth.get(v):
                fail(what, 'leaves', got, 'for', v)
        self.accept(what)


@prop(
    'C30',
    'A case is a container (every type, also with a __missing__ hook that stores) and a series of bulk calls (update, in-place and new-object operators and set operations, construction) '
    'whose arguments are generators or mappings that use the receiver while being consumed: they look values up, iterate it, store into it, remove from it, before and after each value they '
    'give. Afterwards (and whenever the argument looks) the container must be sound, and hold what the call asks for, apart from the very values the argument wrote, for which either order '
    'of events counts. Non-trivial: at least 3 calls whose argument read or changed the receiver.',
    quick=40000,
    assumptions=['the iterables never hold an iterator over the container across their own changes'],
)
def c30(c):
    b = Box(c)
    most = 0
    for _ in c.steps(24, 10):
        if c.int(0, 5) == 0:
            b.begin()
            for _ in range(c.int(1, 6)):
                (b.put if c.int(0, 1) else b.drop)(b.value())
            b.accept('plain writes')
        elif c.int(0, 11) == 0:
            b.x.clear()
            b.accept('clear')
        else:
            b.step()
        most = max(most, layout(b.x if b.face == 'list' else getattr(b.x, '_list', None)))
    b.x._check()
    c.tag(b.face)
    c.tag('sublists>=3' if most >= 3 else 'sublists<3')
    if b.calls >= 3:
        c.nontrivial()
