"""C28: laziness and scaling of single steps on large containers."""
import gc
import itertools
import time
import tracemalloc
from bisect import bisect_left

from vt import sut
from vt.engine import fail, prop

SMALL = 2048
SPOTS = (0, 1, 2, 3, -1, -2, -3, -4)
FACTOR = 64  # the large container holds this many times more


def negated(v):
    return -v


def take(it, k):
    return list(itertools.islice(it, k))


class Twin:
    """One container with the list of what it holds, in order."""

    def __init__(self, face, key, load, n):
        self.face, self.key = face, key
        vals = list(range(0, 2 * n, 2))
        if face == 'list':
            self.x = sut.SortedList(vals, key=key)
        elif face == 'set':
            self.x = sut.SortedSet(vals, key=key)
        else:
            self.x = sut.SortedDict(key, zip(vals, vals))
        if load:
            self.x._reset(load)
        self.load = load or 1000
        if key is not None:
            vals.reverse()
        self.vals = vals

    def at(self, f):
        """Position for a fraction (out of 1000)."""
        n = len(self.vals)
        return min(n - 1, n * f // 1000) if f < 990 else n - 1

    def spot(self, f, j):
        """Position for measurement j: spread over the container, or one and the same place near an end or a sublist border."""
        if f >= 0:
            return self.at((f + 131 * j) % 1000)
        n = len(self.vals)
        i = SPOTS[-f - 1] if -f <= len(SPOTS) else (-f - len(SPOTS)) // 4 * self.load + (-f) % 4 - 2
        return max(0, min(n - 1, i if i >= 0 else n + i))

    def where(self, v):
        if self.key is None:
            return bisect_left(self.vals, v)
        return bisect_left(self.vals, -v, key=negated)

    def put(self, v):
        i = self.where(v)
        if i < len(self.vals) and self.vals[i] == v:
            return
        self.vals.insert(i, v)
        if self.face == 'dict':
            self.x[v] = v
        else:
            self.x.add(v)

    def drop(self, v):
        if self.face == 'dict':
            del self.x[v]
        else:
            self.x.discard(v)
        i = self.where(v)
        if i < len(self.vals) and self.vals[i] == v:
            del self.vals[i]


def reads(t, c):
    """(name, make) where make(twin, position, value at it) gives the call."""
    ops = [
        ('x.bisect_left(v)', lambda t, i, v: lambda: t.x.bisect_left(v)),
        ('x.bisect_right(absent)', lambda t, i, v: lambda: t.x.bisect_right(v + 0.5)),
        ('v in x', lambda t, i, v: lambda: v in t.x),
        ('absent in x', lambda t, i, v: lambda: v + 0.5 in t.x),
        ('x.index(v)', lambda t, i, v: lambda: t.x.index(v)),
        ('iter(x), 5 taken', lambda t, i, v: lambda: take(iter(t.x), 5)),
        ('reversed(x), 5 taken', lambda t, i, v: lambda: take(reversed(t.x), 5)),
        ('x.islice(i), 5 taken', lambda t, i, v: lambda: take(t.x.islice(i), 5)),
        ('x.islice(None, i, reverse=True), 5 taken', lambda t, i, v: lambda: take(t.x.islice(None, i, reverse=True), 5)),
        ('x.islice(i, i + 5)', lambda t, i, v: lambda: list(t.x.islice(i, i + 5))),
        ('x.irange(v), 5 taken', lambda t, i, v: lambda: take(t.x.irange(v), 5)),
        ('x.irange(None, v, reverse=True), 5 taken', lambda t, i, v: lambda: take(t.x.irange(None, v, reverse=True), 5)),
        ('x.irange(v, v)', lambda t, i, v: lambda: list(t.x.irange(v, v))),
        ('len(x), bool(x)', lambda t, i, v: lambda: (len(t.x), bool(t.x))),
        ('x == something of another size', lambda t, i, v: lambda: t.x == ({v: v} if t.face == 'dict' else {v} if t.face == 'set' else [v])),
        ('x != something of another size', lambda t, i, v: lambda: t.x != ({v: v} if t.face == 'dict' else {v} if t.face == 'set' else [v])),
    ]
    if t.key is not None:
        ops += [
            ('x.bisect_key_left(k)', lambda t, i, v: lambda: t.x.bisect_key_left(-v)),
            ('x.bisect_key_right(k)', lambda t, i, v: lambda: t.x.bisect_key_right(-v)),
            ('x.irange_key(k), 5 taken', lambda t, i, v: lambda: take(t.x.irange_key(-v), 5)),
            ('x.irange_key(None, k, reverse=True), 5 taken', lambda t, i, v: lambda: take(t.x.irange_key(None, -v, reverse=True), 5)),
        ]
    if t.face != 'dict':
        ops += [
            ('x[i]', lambda t, i, v: lambda: t.x[i]),
            ('x[-i - 1]', lambda t, i, v: lambda: t.x[-i - 1]),
            ('x[i:i + 5]', lambda t, i, v: lambda: t.x[i:i + 5]),
            ('x[-5:]', lambda t, i, v: lambda: t.x[-5:]),
            ('x[:5]', lambda t, i, v: lambda: t.x[:5]),
            ('x[i + 6:i:-1]', lambda t, i, v: lambda: t.x[i + 6:i:-1]),
            ('x[i:i + 20:5]', lambda t, i, v: lambda: t.x[i:i + 20:5]),
            ('x[::n // 4]', lambda t, i, v: lambda: t.x[:: len(t.vals) // 4]),
            ('x.count(v)', lambda t, i, v: lambda: t.x.count(v)),
        ]
    if t.face == 'list':
        ops += [
            ('x < y differing at once', lambda t, i, v: lambda: t.x < [10**9, 1]),
            ('x.index(v, i)', lambda t, i, v: lambda: t.x.index(v, i, i + 1)),
        ]
    if t.face == 'set':
        ops += [
            ('x.isdisjoint(few)', lambda t, i, v: lambda: t.x.isdisjoint([v + 1, v + 3])),
            ('x.issuperset(few)', lambda t, i, v: lambda: t.x.issuperset([v, v + 1])),
            ('x >= few', lambda t, i, v: lambda: t.x >= {v, v + 1}),
            ('x & few', lambda t, i, v: lambda: t.x & {v, v + 1}),
            ('few - x', lambda t, i, v: lambda: {v, v + 1} - t.x),
        ]
    if t.face == 'dict':
        ops += [
            ('x[k]', lambda t, i, v: lambda: t.x[v]),
            ('x.get(k), x.get(absent)', lambda t, i, v: lambda: (t.x.get(v), t.x.get(v + 0.5))),
            ('x.peekitem(i)', lambda t, i, v: lambda: t.x.peekitem(i)),
            ('x.peekitem()', lambda t, i, v: lambda: t.x.peekitem()),
            ('x.setdefault(present)', lambda t, i, v: lambda: t.x.setdefault(v)),
            ('x[present] = w', lambda t, i, v: lambda: t.x.__setitem__(v, v)),
            ('x.update(present)', lambda t, i, v: lambda: t.x.update({v: v})),
            ('x.keys()[i]', lambda t, i, v: lambda: t.x.keys()[i]),
            ('x.items()[i]', lambda t, i, v: lambda: t.x.items()[i]),
            ('x.values()[i]', lambda t, i, v: lambda: t.x.values()[i]),
            ('x.keys()[i:i + 5]', lambda t, i, v: lambda: t.x.keys()[i:i + 5]),
            ('x.items()[i:i + 5]', lambda t, i, v: lambda: t.x.items()[i:i + 5]),
            ('x.values()[i:i + 5]', lambda t, i, v: lambda: t.x.values()[i:i + 5]),
            ('len of the views', lambda t, i, v: lambda: (len(t.x.keys()), len(t.x.items()), len(t.x.values()))),
            ('k in x.keys()', lambda t, i, v: lambda: (v in t.x.keys(), v + 1 in t.x.keys())),
            ('(k, v) in x.items()', lambda t, i, v: lambda: ((v, v) in t.x.items(), (v, -1) in t.x.items())),
            ('iter(x.keys()), 5 taken', lambda t, i, v: lambda: take(iter(t.x.keys()), 5)),
            ('iter(x.items()), 5 taken', lambda t, i, v: lambda: take(iter(t.x.items()), 5)),
            ('iter(x.values()), 5 taken', lambda t, i, v: lambda: take(iter(t.x.values()), 5)),
            ('reversed(x.keys()), 5 taken', lambda t, i, v: lambda: take(reversed(t.x.keys()), 5)),
            ('reversed(x.items()), 5 taken', lambda t, i, v: lambda: take(reversed(t.x.items()), 5)),
            ('reversed(x.values()), 5 taken', lambda t, i, v: lambda: take(reversed(t.x.values()), 5)),
            ('x.keys() & few', lambda t, i, v: lambda: t.x.keys() & {v, v + 1}),
            ('x.keys() >= few', lambda t, i, v: lambda: t.x.keys() >= {v, v + 1}),
            ('x.keys().isdisjoint(few)', lambda t, i, v: lambda: t.x.keys().isdisjoint([v + 1])),
        ]
    return ops


def writes(t, c):
    """(name, grows, make); make gives the call and what undoes it."""
    dict_, set_ = t.face == 'dict', t.face == 'set'
    def losing(fn):
        """The call removes the value at the position."""
        def make(t, i, v):
            def run():
                fn(t.x, i, v)
            return run, [v], []
        return make

    def gaining(fn):
        def make(t, i, v):
            def run():
                fn(t.x, i, v + 1)
            return run, [], [v + 1]
        return make

    def many(fn):
        """150 values that are not there, next to each other."""
        def make(t, i, v):
            new, w = [], v + 1
            while len(new) < 150:
                if w not in t.x:
                    new.append(w)
                w += 1
            return (lambda: fn(t.x, new)), [], new
        return make

    end = lambda fn, j: (lambda t, i, v: ((lambda: fn(t.x)), [t.vals[j]], []))
    five = lambda fn: (lambda t, i, v: ((lambda: fn(t.x, i, v)), t.vals[i:i + 5], []))
    if dict_:
        return [
            ('del x[k]', False, losing(lambda x, i, v: x.__delitem__(v))),
            ('x.pop(k)', False, losing(lambda x, i, v: x.pop(v))),
            ('x.pop(absent, None)', False, lambda t, i, v: ((lambda: t.x.pop(v + 0.5, None)), [], [])),
            ('x.popitem(i)', False, losing(lambda x, i, v: x.popitem(i))),
            ('x.popitem()', False, end(lambda x: x.popitem(), -1)),
            ('x.popitem(0)', False, end(lambda x: x.popitem(0), 0)),
            ('x[k] = w', True, gaining(lambda x, i, v: x.__setitem__(v, v))),
            ('x.setdefault(k)', True, gaining(lambda x, i, v: x.setdefault(v, v))),
            ('x.update(one)', True, gaining(lambda x, i, v: x.update({v: v}))),
            ('x.update(150)', True, many(lambda x, new: x.update(dict.fromkeys(new)))),
            ('x |= 150', True, many(lambda x, new: x.__ior__(dict.fromkeys(new)))),
            ('x |= one', True, gaining(lambda x, i, v: x.__ior__({v: v}))),
            ('x.update([pair])', True, gaining(lambda x, i, v: x.update([(v, v)]))),
            ('del x.keys()[i]', False, losing(lambda x, i, v: x.keys().__delitem__(i))),
            ('del x.items()[i]', False, losing(lambda x, i, v: x.items().__delitem__(i))),
            ('del x.values()[i:i + 5]', False, five(lambda x, i, v: x.values().__delitem__(slice(i, i + 5)))),
        ]
    ops = [
        ('x.add(v)', set_, gaining(lambda x, i, v: x.add(v))),
        ('x.update([v])', set_, gaining(lambda x, i, v: x.update([v]))),
        ('x.update(150)', True, many(lambda x, new: x.update(new))),
        ('x.discard(v)', False, losing(lambda x, i, v: x.discard(v))),
        ('x.remove(v)', False, losing(lambda x, i, v: x.remove(v))),
        ('x.discard(absent)', False, lambda t, i, v: ((lambda: t.x.discard(v + 0.5)), [], [])),
        ('x.pop(i)', False, losing(lambda x, i, v: x.pop(i))),
        ('x.pop()', False, end(lambda x: x.pop(), -1)),
        ('x.pop(0)', False, end(lambda x: x.pop(0), 0)),
        ('del x[i]', False, losing(lambda x, i, v: x.__delitem__(i))),
        ('del x[i:i + 5]', False, five(lambda x, i, v: x.__delitem__(slice(i, i + 5)))),
        ('x.update([])', False, lambda t, i, v: ((lambda: t.x.update([])), [], [])),
    ]
    if set_:
        ops += [
            ('x |= {v}', True, gaining(lambda x, i, v: x.__ior__({v}))),
            ('x |= 150', True, many(lambda x, new: x.__ior__(set(new)))),
            ('x.difference_update(150)', True, lambda t, i, v: ((lambda: t.x.difference_update(new)), new, []) if (new := t.vals[max(0, min(i, len(t.vals) - 150)):][:150]) else None),
            ('x -= {v}', False, losing(lambda x, i, v: x.__isub__({v}))),
            ('x.difference_update(few)', False, five(lambda x, i, v: x.difference_update(x[i:i + 5]))),
            ('x.add(present)', False, lambda t, i, v: ((lambda: t.x.add(v)), [], [])),
        ]
    else:
        ops += [('x += 150', True, many(lambda x, new: x.__iadd__(new)))]
        ops += [('x += [v]', False, gaining(lambda x, i, v: x.__iadd__([v])))]
    return ops


class Bench:
    def __init__(self, c):
        self.c = c
        self.face = c.pick(('list', 'set', 'dict'))
        self.key = c.pick((None, negated))
        self.load = c.pick((None, None, 16, 60, 300, 2000))
        self.small = Twin(self.face, self.key, self.load, SMALL)
        self.big = Twin(self.face, self.key, self.load, SMALL * FACTOR)
        self.measured = 0
        if c.verbose:
            c.note('%s key=%s load=%s, %d and %d elements' % (self.face, self.key and 'negated', self.load or 'default', SMALL, SMALL * FACTOR))

    def both(self, fn):
        fn(self.small)
        fn(self.big)

    def prepare(self, kind, f, k):
        """Bring the twins to some state other than freshly built."""
        if self.c.verbose:
            self.c.note('prepare: %s at %d/1000, %d' % (('adds', 'removals', 'pops', 'slice deletion')[kind], f, k))

        def go(t):
            i = t.at(f)
            if kind == 0:
                for j in range(k):
                    t.put(t.vals[i] + 1 + 2 * (j % 7) - 2 * (j % 5))
            elif kind == 1:
                for v in t.vals[max(0, i - k):i]:
                    t.drop(v)
            elif kind == 2:
                for j in range(k):
                    i = t.at(f)
                    if self.face == 'dict':
                        t.x.popitem(i)
                    else:
                        t.x.pop(i)
                    del t.vals[i]
            else:
                target = t.x.keys() if self.face == 'dict' else t.x
                del target[i:i + k]
                del t.vals[i:i + k]

        self.both(go)

    def once(self, t, make, f, write, disturb, j):
        """Times and undoes one call; returns nanoseconds."""
        i = t.spot(f, j)
        v = t.vals[i]
        if disturb:
            w = t.vals[t.at((abs(f) * 7 + 97 * j) % 1000)]
            t.drop(w)
            t.put(w)
        if write:
            run, lost, gained = make(t, i, v)
        else:
            run, lost, gained = make(t, i, v), (), ()
        t0 = time.perf_counter_ns()
        run()
        t1 = time.perf_counter_ns()
        self.undo(t, lost, gained)
        return t1 - t0

    def undo(self, t, lost, gained):
        lost = list(lost)
        for v in gained:
            if self.face != 'list' and v in t.vals[t.where(v):t.where(v) + 1]:
                continue
            if self.face == 'dict':
                del t.x[v]
            else:
                t.x.remove(v)
        for v in lost:
            if self.face == 'dict':
                t.x[v] = v
            else:
                t.x.add(v)

    def memory(self, t, make, f, write, j):
        i = t.spot(f, j)
        v = t.vals[i]
        if write:
            run, lost, gained = make(t, i, v)
        else:
            run, lost, gained = make(t, i, v), (), ()
        tracemalloc.start()
        try:
            run()
            peak = tracemalloc.get_traced_memory()[1]
        finally:
            tracemalloc.stop()
        self.undo(t, lost, gained)
        return peak

    def measure(self):
        c = self.c
        write = c.int(0, 1) == 1
        if write:
            name, grows, make = c.pick(writes(self.big, c))
        else:
            (name, make), grows = c.pick(reads(self.big, c)), False
        f, disturb = c.int(0, 999), c.int(0, 1)
        if f % 3 == 0:
            f = -1 - f // 3 % 16
        if c.verbose:
            c.note('%s at %s%s' % (name, '%d/1000' % f if f >= 0 else 'position %d' % self.big.spot(f, 0), ' after a removal and an insertion each time' if disturb else ''))
        for attempt in range(6):
            lo = min(self.once(self.small, make, f, write, disturb, j) for j in range(7))
            hi = min(self.once(self.big, make, f, write, disturb, j) for j in range(7))
            limit = 8 * lo + 50000
            if hi <= limit:
                break
            time.sleep(0.01 * attempt)
        else:
            fail('%s on a %s of %d (load %s) takes %.0f us at best, on one of %d %.1f us: the work grows with the size'
                 % (name, self.face, len(self.big.vals), self.load or 'default', hi / 1e3, len(self.small.vals), lo / 1e3))
        if not grows:
            used = min(self.memory(self.big, make, f, write, j) for j in range(3))
            room = 48 * self.big.load + 16384
            if used > room:
                fail('%s on a %s of %d (load %s) needs %d bytes of extra memory, %d would do' % (name, self.face, len(self.big.vals), self.load or 'default', used, room))
        self.measured += 1
        c.tag(name)


@prop(
    'C28',
    'A case builds a container (every type, with and without key, six load factors) of 2048 elements and one of 131072, puts both through the same preparation, and measures calls that '
    'concern one position, one value or the first few elements of an iteration (64 kinds of read, 35 of write): the best of seven runs on the large one against the small one, and the peak '
    'of extra memory. Non-trivial: at least 4 calls measured.',
    quick=1500,
    thorough=24000,
    hyp=10,
    assumptions=[
        'the best time on the 64 times larger container may be 8 times the best time on the small one plus 50 us (linear work takes hundreds of us); exceeded six times in a row to count',
        'extra memory up to 48 bytes times the load factor plus 16 kB, best of three; calls that may grow the hash table are measured in time only',
    ],
)
def c28(c):
    enabled = gc.isenabled()
    gc.disable()
    try:
        b = Bench(c)
        for _ in range(c.int(0, 2)):
            b.prepare(c.int(0, 3), c.int(0, 999), c.pick((3, 40, 300)))
        for _ in c.steps(60, 24):
            b.measure()
        for t in (b.small, b.big):
            if list(t.x) != t.vals:
                fail('the content differs from the model')
        c.tag(b.face)
        if b.measured >= 4:
            c.nontrivial()
    finally:
        if enabled:
            gc.enable()
