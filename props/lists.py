"""C01..C08: SortedList and SortedKeyList."""
from bisect import bisect_left, bisect_right
from fractions import Fraction

from vt import sut
from vt.calls import coherent
from vt.domains import (
    INT, LIST_KINDS, LOADS, MIXED, PLAIN_KEYED, SUBSETS, TAG, Gen, Tag, arranged, as_iterable, identical, k_coarse, k_const, k_identity, k_len,
    k_members, k_mod, k_neg, k_tagcoarse, k_tagkey, k_tagneg, k_tagval, must_raise, same,
)
from vt.engine import fail, prop, short
from vt.listdrv import OPS, ListDriver, build_list, layout, odd_int


def _history(c, d, ops, maximum=120, avg=28):
    most = layout(d.sl)
    for i in c.steps(maximum, avg):
        d.step(ops)
        most = max(most, layout(d.sl))
        if i % 4 == 3 and len(d.m) < 400:
            d.self_check()
        if i % 5 == 4:
            if not same(list(reversed(d.sl)), d.m[::-1]):
                fail('reversed() gives', list(reversed(d.sl)), 'for', d.m)
    d.self_check()
    if not same(list(reversed(d.sl)), d.m[::-1]):
        fail('reversed() gives', list(reversed(d.sl)), 'for', d.m)
    if most >= 3:
        c.tag('sublists>=3')
    if most >= 9:
        c.tag('sublists>=9')
    if len(d.m) > 1000:
        c.tag('size>1000')
    c.tag('load>=100' if d.load >= 100 else 'load<100')
    return most


@prop(
    'C01',
    'A case is a constructor call plus a history of up to 120 operations on one SortedList (14 value kinds, '
    'load factors 4..1000, sizes to 6000), compared with a sorted plain list after every operation. '
    'Non-trivial: at least 5 mutations and at least 3 sublists at some point.',
    quick=48000,
    assumptions=['values are totally ordered and unchanged while stored (documented caveat)', 'load factor >= 4'],
)
def c01(c):
    d = ListDriver(c, keyed=False, level='strict', huge=400)
    most = _history(c, d, OPS)
    if d.mutations >= 5 and most >= 3:
        c.nontrivial()


@prop(
    'C02',
    'A case is a constructor call plus a history of up to 120 operations on one SortedKeyList (24 value/key-function '
    'pairs incl. unorderable and unhashable values and constant keys), compared with a key-sorted plain list; order among equal keys '
    'is left free here. Non-trivial: at least 5 mutations and at least 3 sublists.',
    quick=40000,
    assumptions=['equal values have equal keys, keys are totally ordered (documented caveats)'],
)
def c02(c):
    d = ListDriver(c, keyed=True, level='sync', huge=400)
    c.check(isinstance(d.sl, sut.SortedKeyList), 'not a SortedKeyList:', type(d.sl))
    most = _history(c, d, OPS)
    c.check(d.sl.key is d.key, 'key is', d.sl.key)
    if d.mutations >= 5 and most >= 3:
        c.nontrivial()


# ---------------------------------------------------------------------------

MUTATE = ['add', 'swap', 'add_near', 'update', 'burst_add', 'discard', 'remove', 'pop', 'thin', 'clear', 'reset', 'reads', 'imul']


def read_positional(c, x, m, index, mkslice):
    """One positional read of x judged against the plain list m."""
    n = len(m)
    how = c.int(0, 6)
    if how <= 1:
        i = index()
        c.note('read [%d] of %d' % (i, n)) if c.verbose else None
        if -n <= i < n:
            got = x[i]
            if got is not m[i] and got != m[i]:
                fail('[%d]' % i, 'gave', got, 'expected', m[i], 'of', n)
        else:
            must_raise(IndexError, x.__getitem__, i, what='[%d] of %d' % (i, n))
    elif how <= 3:
        s = mkslice()
        c.note('read [%s] of %d' % (s, n)) if c.verbose else None
        if c.int(0, 15) == 15:
            must_raise(ValueError, x.__getitem__, slice(s.start, s.stop, 0), what='[%s:%s:0] of %d' % (s.start, s.stop, n))
        got = x[s]
        if type(got) is not list or not same(got, m[s]):
            fail('[%s] of %d' % (s, n), 'gave', got, 'expected', m[s])
    elif how == 4:
        s = mkslice()
        rev = c.int(0, 1)
        want = m[s.start : s.stop]
        if rev:
            want.reverse()
        c.note('islice(%s, %s, reverse=%s) of %d' % (s.start, s.stop, bool(rev), n)) if c.verbose else None
        if c.int(0, 1):
            it = x.islice(s.start, s.stop, rev if c.int(0, 3) == 3 else bool(rev))
        else:
            it = x.islice(start=s.start, stop=s.stop, reverse=bool(rev))
        c.check(iter(it) is it, 'islice did not return an iterator but', type(it).__name__)
        got = list(it)
        if not same(got, want):
            fail('islice(%s, %s, %s) of %d' % (s.start, s.stop, rev, n), 'gave', got, 'expected', want)
    elif how == 5:
        # a sweep over positions, both signs
        stepw = max(1, n // 12)
        for i in range(c.int(0, min(3, stepw)), n, stepw):
            if x[i] is not m[i] and x[i] != m[i]:
                fail('[%d]' % i, 'gave', x[i], 'expected', m[i])
            if x[i - n] is not m[i] and x[i - n] != m[i]:
                fail('[%d]' % (i - n), 'gave', x[i - n], 'expected', m[i])
    else:
        got = list(reversed(x))
        if not same(got, m[::-1]):
            fail('reversed gave', got, 'expected', m[::-1])


class SetPositions:
    """SortedSet driven like a list for C03."""

    def __init__(self, c):
        from vt.domains import HASH_KEYED, HASH_KINDS

        self.c = c
        if c.int(0, 1):
            self.kind, self.key, _ = c.pick(HASH_KEYED)
        else:
            self.kind, self.key = c.pick(HASH_KINDS), None
        self.gen = Gen(c, self.kind)
        self.load = c.pick(LOADS)
        self.sl = sut.SortedSet(self.gen.initial(), key=self.key)
        self.sl._reset(self.load)
        self.m = list(self.sl)
        self.mutations = 0
        c.note('new SortedSet kind=%s load=%s %s' % (self.kind, self.load, short(self.m, 200))) if c.verbose else None

    index = ListDriver.index
    slice = ListDriver.slice

    def mutate(self):
        c = self.c
        how = c.int(0, 6)
        if how == 0:
            self.sl.add(self.gen.value())
        elif how == 6:
            if self.m:
                self.sl.discard(c.pick(self.m))
            self.sl.add(self.gen.value())
        elif how == 1:
            self.sl.update(self.gen.values())
        elif how == 2:
            self.sl.discard(self.gen.value())
        elif how == 3:
            for v in self.gen.pattern(c.int(1, 40)):
                self.sl.add(v)
        elif how == 4:
            for v in self.m[: c.int(0, 30)]:
                self.sl.discard(v)
        else:
            self.sl._reset(c.pick(LOADS))
        self.m = list(self.sl)
        self.mutations += 1
        c.note('set mutation %d -> size %d' % (how, len(self.m))) if c.verbose else None


def _positional_write(c, d):
    """pop / del judged exactly: what is returned and what remains."""
    x, m = d.sl, d.m
    n = len(m)
    how = c.int(0, 4)
    if how == 0:
        c.note('pop() of %d' % n) if c.verbose else None
        if n:
            got, want = x.pop(), m.pop()
            if got is not want and got != want:
                fail('pop() gave', got, 'expected', want)
        else:
            must_raise(IndexError, x.pop, what='pop of empty')
    elif how == 1:
        i = d.index()
        c.note('pop(%d) of %d' % (i, n)) if c.verbose else None
        if -n <= i < n:
            got, want = x.pop(i), m.pop(i)
            if got is not want and got != want:
                fail('pop(%d) of %d' % (i, n), 'gave', got, 'expected', want)
        else:
            must_raise(IndexError, x.pop, i, what='pop(%d) of %d' % (i, n))
    elif how == 2:
        i = d.index()
        c.note('del [%d] of %d' % (i, n)) if c.verbose else None
        if -n <= i < n:
            del x[i]
            del m[i]
        else:
            must_raise(IndexError, x.__delitem__, i, what='del [%d] of %d' % (i, n))
    else:
        s = d.slice()
        c.note('del [%s] of %d' % (s, n)) if c.verbose else None
        if c.int(0, 15) == 15:
            must_raise(ValueError, x.__delitem__, slice(s.start, s.stop, 0), what='del [%s:%s:0] of %d' % (s.start, s.stop, n))
        del x[s]
        del m[s]
    got = list(x)
    if not same(got, m) or len(x) != len(m):
        fail('after a positional deletion: expected', m, 'got', got, 'len', len(x))


@prop(
    'C03',
    'A case is a history on a SortedList, SortedKeyList or SortedSet in which positional reads and deletions (all signs, '
    'steps, out-of-range positions) are judged against a plain list of the iterated values, with value-based writes in between. '
    'Non-trivial: at least 3 sublists, at least 2 writes and at least 3 positional operations.',
    quick=48000,
)
def c03(c):
    which = c.int(0, 4)
    if which == 4:
        d = SetPositions(c)
    else:
        d = ListDriver(c, keyed=which % 2 == 1, level='adopt', huge=400)
    most, reads, writes = 0, 0, 0
    pw = c.pick((1, 2, 4))
    for _ in c.steps(120, 30):
        r = c.int(0, 7)
        if r < 4:
            c.again('read', read_positional, c, d.sl, d.m, d.index, d.slice)
            reads += 1
        elif r < 4 + pw:
            if which == 4:
                d.mutate()
            else:
                d.step(MUTATE)
            writes += 1
        else:
            _positional_write(c, d)
            reads += 1
            writes += 1
        most = max(most, layout(d.sl if which != 4 else getattr(d.sl, '_list', None)))
    c.tag(type(d.sl).__name__)
    if most >= 3:
        c.tag('sublists>=3')
    if most >= 9:
        c.tag('sublists>=9')
    if most >= 3 and writes >= 2 and reads >= 3:
        c.nontrivial()


# ---------------------------------------------------------------------------

WRITES = ['add', 'swap', 'add_near', 'update', 'burst_add', 'discard', 'remove', 'pop_at', 'del_slice', 'burst_del', 'thin', 'clear', 'reset', 'reads', 'imul']


def ref_index(m, v, start, stop):
    """First index of v in m within the window; list.index semantics with None."""
    n = len(m)
    a = 0 if start is None else start
    b = n if stop is None else stop
    return m.index(v, a, b)


def read_lookup(c, d):
    sl, m, key = d.sl, d.m, d.key
    v = d.present() if c.int(0, 2) else d.gen.value()
    if c.int(0, 3) == 0 and d.kind.variants > 1:
        v = d.gen.value()
    n = len(m)
    how = c.int(0, 8)
    kv = d.k(v)
    if c.verbose:
        c.note('lookup way %d of %s in %d values' % (how, short(v, 60), n))
    lo = bisect_left(m, kv, key=key)
    hi = bisect_right(m, kv, key=key)
    group = m[lo:hi]
    if how == 0:
        want = v in group
        got = v in sl
        c.check(got is want, short(v), 'in sl ->', got, 'expected', want)
    elif how == 1:
        got = sl.bisect_left(v)
        c.check(got == lo, 'bisect_left of', v, 'gave', got, 'expected', lo)
    elif how == 2:
        f = sl.bisect_right if c.int(0, 1) else sl.bisect
        got = f(v)
        c.check(got == hi, 'bisect_right of', v, 'gave', got, 'expected', hi)
    elif how == 3:
        got, want = sl.count(v), group.count(v)
        c.check(got == want, 'count of', v, 'gave', got, 'expected', want)
    elif how <= 6:
        if how == 4:
            start = stop = None
        else:
            near = [lo, hi, lo + 1, hi - 1, (lo + hi) // 2, 0, n, -1, 1, lo - 1, hi + 1, 10**25]
            pickb = lambda: (
                None if c.int(0, 5) == 0 else c.pick(near) - (n if c.int(0, 2) == 2 else 0) if c.int(0, 3)
                else c.int(-n - 2, n + 2)
            )
            start, stop = pickb(), pickb()
            if c.int(0, 15) == 15:
                start, stop = (None if b is None else odd_int(b) for b in (start, stop))
        if c.verbose:
            c.note('  index window %s..%s' % (start, stop))
        try:
            want = ref_index(m, v, start, stop)
        except ValueError:
            must_raise(
                ValueError, sl.index, v, start, stop, what='index(%s, %s, %s)' % (short(v, 60), start, stop)
            )
        else:
            if c.int(0, 1) or start is None and stop is None:
                got = sl.index(v, start, stop) if start is not None or stop is not None else sl.index(v)
            else:
                got = sl.index(v, start=start, stop=stop)
            c.check(
                got == want, 'index(%s, %s, %s)' % (short(v, 60), start, stop), 'gave', got, 'expected', want, 'of', n
            )
    elif key is not None:
        if how == 7:
            got = sl.bisect_key_left(kv)
            c.check(got == lo, 'bisect_key_left of', kv, 'gave', got, 'expected', lo)
        else:
            f = sl.bisect_key_right if c.int(0, 1) else sl.bisect_key
            got = f(kv)
            c.check(got == hi, 'bisect_key_right of', kv, 'gave', got, 'expected', hi)
    else:
        got = sl.bisect_right(v) - sl.bisect_left(v)
        c.check(got == hi - lo, 'bisect_right - bisect_left of', v, 'is', got, 'expected', hi - lo)
    return hi - lo


@prop(
    'C04',
    'A case is a history on a SortedList or SortedKeyList with value lookups (contains, count, bisect*, index with windows '
    'placed around the run of equal values, key bisects) judged against bisection of a plain list of the iterated values. '
    'Non-trivial: at least 3 sublists and at least 3 lookups, one of them of a value or key occurring more than once.',
    quick=48000,
)
def c04(c):
    d = ListDriver(c, keyed=c.int(0, 1) == 1, level='adopt', huge=400)
    most, lookups, run = layout(d.sl), 0, 0
    for _ in c.steps(120, 30):
        if c.int(0, 2):
            run = max(run, c.again('read', read_lookup, c, d))
            lookups += 1
        else:
            d.step(WRITES)
            most = max(most, layout(d.sl))
    c.tag(type(d.sl).__name__)
    if most >= 3:
        c.tag('sublists>=3')
    if run > d.load:
        c.tag('run longer than a sublist')
    if most >= 3 and lookups >= 3 and run > 1:
        c.nontrivial()


# ---------------------------------------------------------------------------


def in_range(m, lo, hi, inclusive, key):
    """Filter the plain list; bounds are comparison keys, None means open."""
    out = []
    for v in m:
        k = v if key is None else key(v)
        if lo is not None and (k < lo or (not inclusive[0] and not lo < k)):
            continue
        if hi is not None and (hi < k or (not inclusive[1] and not k < hi)):
            continue
        out.append(v)
    return out


def read_range(c, d):
    sl, m, key = d.sl, d.m, d.key

    def bound():
        mode = c.int(0, 5)
        if mode == 0:
            return None
        return d.present() if mode < 4 else d.gen.value()

    a = bound()
    b = a if c.int(0, 6) == 6 else bound()
    flag = (bool, bool, int)[c.int(0, 2)]
    inclusive = (flag(c.int(0, 1)), flag(c.int(0, 1)))
    rev = bool(c.int(0, 1))
    ka = None if a is None else d.k(a)
    kb = None if b is None else d.k(b)
    want = in_range(m, ka, kb, inclusive, key)
    if rev:
        want.reverse()
    if key is not None and c.int(0, 1):
        name = 'irange_key'
        if inclusive == (True, True) and not rev and c.int(0, 1):
            it = sl.irange_key(ka, kb)
        elif c.int(0, 1):
            it = sl.irange_key(ka, kb, inclusive, rev)
        else:
            it = sl.irange_key(min_key=ka, max_key=kb, inclusive=inclusive, reverse=rev)
    else:
        name = 'irange'
        if b is None and c.int(0, 1):
            it = sl.irange(a, inclusive=inclusive, reverse=rev)
        elif a is None and c.int(0, 1):
            it = sl.irange(maximum=b, inclusive=list(inclusive), reverse=int(rev))
        elif inclusive == (True, True) and not rev and c.int(0, 1):
            it = sl.irange(a, b)
        elif c.int(0, 1):
            it = sl.irange(a, b, inclusive, rev)
        else:
            it = sl.irange(minimum=a, maximum=b, inclusive=inclusive, reverse=rev)
    c.check(iter(it) is it, name, 'did not return an iterator')
    got = list(it)
    if c.verbose:
        c.note('%s(%s, %s, %s, reverse=%s)' % (name, short(a, 50), short(b, 50), inclusive, rev))
    if not same(got, want):
        fail(
            '%s(%s, %s, %s, reverse=%s)' % (name, short(a, 60), short(b, 60), inclusive, rev),
            'gave', got, 'expected', want, 'of', m,
        )
    return len(want), a is not None or b is not None


@prop(
    'C05',
    'A case is a history on a SortedList or SortedKeyList with irange/irange_key calls (bounds present, absent, missing, inverted or '
    'equal; all inclusive flags; both directions) judged against filtering a plain list of the iterated values. '
    'Non-trivial: at least 3 sublists, at least 3 range reads, at least one of them bounded and non-empty.',
    quick=40000,
)
def c05(c):
    d = ListDriver(c, keyed=c.int(0, 1) == 1, level='adopt', big=c.int(0, 7) == 7, huge=100)
    most, reads, good = layout(d.sl), 0, False
    for _ in c.steps(120, 30):
        if c.int(0, 2):
            n, bounded = c.again('read', read_range, c, d)
            reads += 1
            good = good or (n > 0 and bounded)
        else:
            d.step(WRITES)
            most = max(most, layout(d.sl))
            if not same(list(reversed(d.sl)), d.m[::-1]):
                fail('reversed gave', list(reversed(d.sl)), 'expected', d.m[::-1])
    c.tag(type(d.sl).__name__)
    if most >= 3:
        c.tag('sublists>=3')
    if most >= 3 and reads >= 3 and good:
        c.nontrivial()


# ---------------------------------------------------------------------------

STABLE_POOL = [
    (TAG, k_tagval, True), (TAG, k_tagneg, True), (TAG, k_tagcoarse, True), (TAG, k_const, True),
    (INT, k_mod, True), (INT, k_coarse, True), (INT, k_tagkey, True), (MIXED, k_neg, True),
]
STABLE_OPS = [
    'add', 'add_near', 'swap', 'update', 'iadd', 'burst_add', 'discard', 'remove', 'pop', 'pop_at', 'del_at', 'del_slice',
    'burst_del', 'thin', 'clear', 'reset', 'imul', 'self_update', 'reads',
]


def _stable_list(c):
    keyed = c.int(0, 2) > 0
    d = ListDriver(c, keyed=keyed, level='identity', kinds=[TAG, TAG, MIXED], pool=STABLE_POOL)
    most = layout(d.sl)
    for _ in c.steps(100, 25):
        if c.int(0, 3):
            d.step(STABLE_OPS)
            most = max(most, layout(d.sl))
        else:
            sl, m = d.sl, d.m
            n = len(m)
            how = c.int(0, 7)
            if how == 0:
                s = d.slice()
                got, want = sl[s], m[s]
            elif how >= 6:
                # bounds that equal stored elements without being them
                a = d.gen.value() if c.int(0, 4) else None
                b = a if c.int(0, 2) == 2 else d.gen.value() if c.int(0, 4) else None
                inc = (bool(c.int(0, 2)), bool(c.int(0, 2)))
                ka, kb = (None if v is None else d.k(v) for v in (a, b))
                want = in_range(m, ka, kb, inc, d.key)
                if keyed and how == 7:
                    got = list(sl.irange_key(ka, kb, inc))
                else:
                    got = list(sl.irange(a, b, inc))
            elif how == 1:
                got, want = list(sl.islice(n // 4, n)), m[n // 4 :]
            elif how == 2:
                got, want = list(reversed(sl)), m[::-1]
            elif how == 3:
                vals = d.gen.values()[:200]
                got, want = list(sl + as_iterable(c, vals, lists=False)), sorted(m + vals, key=d.key)
            elif how == 4:
                k = c.int(0, 3) if n < 800 else 1
                got, want = list(sl * k), sorted(m * k, key=d.key)
            else:
                got, want = list(sl.copy()), m
            c.note('read way %d' % how) if c.verbose else None
            if not identical(got, want):
                fail('read way', how, 'gave', got, 'expected these very objects', want)
            if how == 5 and n:
                i = d.index()
                if -n <= i < n and sl[i] is not m[i]:
                    fail('[%d] is' % i, sl[i], 'not the stored object', m[i])
    ties = any(not (d.k(a) < d.k(b)) for a, b in zip(d.m, d.m[1:]))
    c.tag('list')
    if most >= 3 and d.mutations >= 4 and ties:
        c.nontrivial()


class Integer(int):
    pass


def stored_reads(c, x, want, a, b, rank):
    """Reads give the stored objects, not the ones asked with."""
    n = len(want)
    lo, hi = rank(a), rank(b)
    how = c.int(0, 4)
    if how == 0:
        got, want = list(x.irange(a, b)), [v for v in want if lo <= rank(v) <= hi]
    elif how == 1:
        got, want = list(x.irange(a, a)), [v for v in want if rank(v) == lo]
    elif how == 2:
        got, want = list(x.irange(a, None, (True, True), True)), [v for v in want if lo <= rank(v)][::-1]
    elif how == 3:
        i, j = c.edge(0, n), c.edge(0, n)
        got, want = list(x.islice(i, j)), want[i:j]
    elif isinstance(x, dict):
        i = c.edge(-n, n - 1) if n else 0
        got, want = ([x.peekitem(i)[0], x.keys()[i], x.items()[i][0]], [want[i]] * 3) if n else ([], [])
    else:
        i = c.edge(-n, n - 1) if n else 0
        got, want = ([x[i]] + x[i:], [want[i]] + want[i:]) if n else ([], [])
    if not identical(got, want):
        fail('read way', how, 'with', a, b, 'gave', got, 'expected the stored objects', want)


def _stable_setdict(c):
    """First-stored object of equal members/keys is kept."""
    gen = Gen(c, TAG, span=c.pick((5, 40, 400)))
    numbers = c.int(0, 2) == 2
    # the same number in many types, or equal objects with different names
    key = c.pick((None, k_identity, k_neg)) if numbers else c.pick((None, k_tagval, k_tagneg))
    down = key in (k_neg, k_tagneg)
    load = c.pick(LOADS)
    serial = [10**6]

    def fresh():
        serial[0] += 1
        n = gen.code()
        if numbers:
            return c.pick((int, float, Fraction, Integer, bool if n < 2 else int))(n)
        return Tag(n, serial[0])

    def rank(v):
        v = v if numbers else v.v
        return -v if down else v

    def ordered(model):
        return sorted(model, key=rank)

    repeats = 0
    if c.int(0, 1):
        c.tag('set')
        x = sut.SortedSet(key=key)
        x._reset(load)
        model = {}
        for _ in c.steps(80, 20):
            how = c.int(0, 5)
            if how <= 1:
                v = fresh()
                repeats += v in model
                x.add(v)
                model.setdefault(v, v)
            elif how == 2:
                vs = [fresh() for _ in range(c.int(0, 12))]
                x.update(vs)
                # which of several equal new objects wins is free, stored ones stay
                for v in vs:
                    repeats += v in model
                    if v not in model:
                        i = x.bisect_left(v)
                        got = x[i]
                        if not any(got is w for w in vs):
                            fail('update stored', got, 'which is none of the given objects', vs)
                        model[v] = got
            elif how == 3 and model:
                v = fresh()
                x.discard(v)
                model.pop(v, None)
            elif how == 4 and model:
                got = x.pop(c.int(0, len(x) - 1))
                if model.pop(got, None) is not got:
                    fail('pop returned', got, 'which is not the stored object')
            else:
                x._reset(c.pick(LOADS))
            c.note('set step %d -> %s' % (how, short(list(model.values()), 200))) if c.verbose else None
            want = ordered(model.values())
            if not identical(list(x), want):
                fail('set holds', list(x), 'expected the first-stored objects', want)
            if c.int(0, 3) == 3:
                stored_reads(c, x, want, fresh(), fresh(), rank)
        if repeats and len(model) > 1:
            c.nontrivial()
        return
    c.tag('dict')
    x = sut.SortedDict(key)
    x._reset(load)
    model = {}  # Tag -> [stored key, value]
    n = 0
    for _ in c.steps(80, 20):
        how = c.int(0, 6)
        n += 1
        if how <= 1:
            k, v = fresh(), object()
            repeats += k in model
            x[k] = v
            model[k] = v
        elif how == 2:
            k, v = fresh(), object()
            repeats += k in model
            got = x.setdefault(k, v)
            if got is not model.setdefault(k, v):
                fail('setdefault returned', got)
        elif how == 3:
            pairs = [(fresh(), object()) for _ in range(c.int(0, 12))]
            repeats += any(k in model for k, _ in pairs)
            x.update(pairs) if c.int(0, 1) else x.update(dict(pairs))
            model.update(dict(pairs))
        elif how == 4 and model:
            k = fresh()
            got = x.pop(k, None)
            if got is not model.pop(k, None):
                fail('pop returned', got)
        elif how == 5 and model:
            k, v = x.popitem(c.int(0, len(x) - 1))
            stored = [q for q in model if q == k]
            if not stored or stored[0] is not k or model.pop(k) is not v:
                fail('popitem returned', k, 'which is not the stored key')
        else:
            x._reset(c.pick(LOADS))
        c.note('dict step %d -> %s' % (how, short(list(model), 200))) if c.verbose else None
        want = ordered(model)
        if not identical(list(x), want):
            fail('dict iterates', list(x), 'expected the first-stored keys', want)
        if not identical(list(x.values()), [model[k] for k in want]):
            fail('dict values are not the last-stored objects')
        if not identical([k for k, _ in x.items()], want):
            fail('items() keys are not the first-stored keys')
        if c.int(0, 3) == 3:
            stored_reads(c, x, want, fresh(), fresh(), rank)
    if repeats and len(model) > 1:
        c.nontrivial()


@prop(
    'C06',
    'A case is a history over equal-but-distinguishable objects (or distinct values with equal keys) on a SortedList/SortedKeyList, '
    'SortedSet or SortedDict, compared by object identity with a stable-sort model (set/dict: first-stored object). '
    'Non-trivial: lists with ties, at least 3 sublists and at least 4 mutations; sets/dicts where an equal object was offered again.',
    quick=40000,
)
def c06(c):
    if c.int(0, 3) < 3:
        _stable_list(c)
    else:
        _stable_setdict(c)


# ---------------------------------------------------------------------------


@prop(
    'C07',
    'A case is an operand built by a short history, then +, reflected +, +=, *, reflected *, *= with iterables (incl. itself, generators, '
    'other sorted lists) and integers, judged against sorting the concatenation/repetition. '
    'Non-trivial: the operand spans at least 2 sublists and a non-empty other operand or count > 1 was used.',
    quick=120000,
)
def c07(c):
    keyed = c.int(0, 1) == 1
    d = ListDriver(c, keyed=keyed, level='sync', big=c.int(0, 5) == 5)
    for _ in c.steps(10, 3):
        d.step(OPS)
    c.tag(type(d.sl).__name__)
    good = False
    for _ in c.steps(8, 4):
        sl, m, key = d.sl, list(d.m), d.key
        how = c.int(0, 7)
        if how <= 1:
            alias = c.int(0, 5) == 5
            if alias:
                vals, other = list(m), sl
            else:
                vals = d.gen.values()[:400]
                other = as_iterable(c, vals, lists=keyed)
                if how == 1 and c.int(0, 1):
                    other = build_list(c, list(vals), key)
            want = sorted(m + vals, key=key)
            if how == 0 or not isinstance(other, (list, tuple)):
                c.note('sl + %s' % short(other)) if c.verbose else None
                res = sl + other
            else:
                c.note('%s + sl' % short(other)) if c.verbose else None
                res = other + sl
            good = good or (bool(vals) and layout(sl) >= 2)
        elif how <= 3:
            n = c.pick((2, 0, 1, 3, -1, -4, 7, 0))
            if c.int(0, 3) == 3:
                n = c.edge(0, max(1, min(400, 6000 // max(1, len(m)))))
                if c.int(0, 3) == 3:
                    n = odd_int(n)
            if len(m) * n > 6000:
                n = 1
            want = sorted(m * n, key=key)
            c.note('%s %d' % ('sl *' if how == 2 else 'reflected * with', n)) if c.verbose else None
            res = sl * n if how == 2 else n * sl
            good = good or (n > 1 and layout(sl) >= 2)
        elif how == 4:
            d.op_iadd()
            continue
        elif how == 5:
            d.op_imul()
            continue
        elif how == 6:
            d.op_self_update()
            continue
        else:
            d.step(OPS)
            continue
        c.check(type(res) is type(sl), 'result type is', type(res).__name__)
        c.check(res is not sl, 'the result is the operand itself')
        c.check(res.key is sl.key, 'result key is', res.key)
        if len(res) != len(want):
            fail('result has', len(res), 'values, expected', len(want))
        if not arranged(list(res), want, key):
            fail('result is', list(res), 'expected', want)
        if not same(list(sl), m):
            fail('the operand changed to', list(sl), 'from', m)
        if d.can_check:
            res._check()
        # both stay usable and independent
        v = d.gen.value()
        res.add(v)
        if len(sl) != len(m) or len(res) != len(want) + 1 or v not in res:
            fail('result is not independent or not usable after the operation')
        if d.can_check:
            coherent(res, 'the result')
    d.self_check()
    if good:
        c.nontrivial()


# ---------------------------------------------------------------------------


class _Seq:
    """A minimal user sequence."""

    def __init__(self, v):
        self._v = list(v)

    def __len__(self):
        return len(self._v)

    def __getitem__(self, i):
        return self._v[i]


def _user_sequence(v):
    from collections.abc import Sequence

    class UserSeq(_Seq, Sequence):
        pass

    return UserSeq(v)


def near_range(c):
    """A range, bytes, str or other builtin sequence and a sorted list that differs from it in at most one element."""
    from collections import UserList, deque

    a, k = c.int(0, 5), c.edge(0, 40)
    other = range(a, a + k * c.pick((1, 1, 2, 3)), 1)[:: c.pick((1, 1, 2))]
    vals = list(other)
    if vals and c.int(0, 2):
        vals[c.edge(0, len(vals) - 1)] = c.pick(vals)
    if c.int(0, 4) == 4:
        vals = vals[: c.edge(0, len(vals))]
    form = c.int(0, 6)
    if form == 1:
        other = bytes(other)
    elif form == 2:
        other = bytearray(other)
    elif form == 3:
        other = deque(other)
    elif form == 4:
        other = UserList(other)
    elif form == 5:
        other, vals = ''.join(chr(65 + v) for v in other), [chr(65 + v) for v in vals]
    elif form == 6:
        other, vals = [v + 0.0 for v in other], vals
    key = c.pick((None, None, k_identity))
    sl = sut.SortedList(vals, key=key)
    sl._reset(c.pick(LOADS))
    return sl, sorted(vals), other


@prop(
    'C08',
    'A case is a sorted list (with or without key) built by a short history and other sequences derived from it by truncation, extension or '
    'changing one element (as list, tuple, str, user sequence or another sorted list), compared with all six operators from both sides '
    'against the comparison of plain lists; plus non-sequences. Non-trivial: a non-empty sequence sharing a non-empty prefix.',
    quick=140000,
)
def c08(c):
    import operator

    ops = [operator.eq, operator.ne, operator.lt, operator.le, operator.gt, operator.ge]
    kinds = [k for k in LIST_KINDS if k.le]
    keyed = c.int(0, 2) == 2
    pool = [t for t in PLAIN_KEYED if t[0].name not in ('complex', 'dict', 'optional')] + [(SUBSETS, k_len, True), (SUBSETS, k_members, True)] * 2
    d = ListDriver(c, keyed=keyed, level='sync', kinds=kinds, pool=pool, big=c.int(0, 9) == 9)
    for _ in c.steps(8, 2):
        d.step(OPS)
    sl, m = d.sl, d.m
    n = len(m)
    good = False
    for _ in c.steps(12, 6):
        form = c.int(0, 6)
        base = list(m)
        change = c.int(0, 6)
        if change == 1:
            base = base[: c.edge(0, n)]
        elif change == 2:
            base = base + [d.gen.value() for _ in range(c.int(1, 3))]
        elif change == 3 and n:
            base[c.edge(0, n - 1)] = d.gen.value()
        elif change == 4 and n:
            i = c.edge(0, n - 1)
            base[i] = d.gen.value()
            base = base[: c.int(i, n)]
        elif change == 5 and n:
            del base[c.edge(0, n - 1)]
        elif change == 6:
            base = d.gen.values()[:50]
        if form <= 1:
            other = base
        elif form == 2:
            other = tuple(base)
        elif form == 3:
            other = _user_sequence(base)
        elif form == 4 and d.kind is not SUBSETS:
            other = build_list(c, base, None)
            other._reset(c.pick(LOADS))
            base = sorted(base)
        elif form == 5 and keyed:
            other = build_list(c, base, d.key)
            base = list(other)
        elif d.kind.name in ('str', 'letters'):
            other = ''.join(str(x) for x in base)
            base = list(other)
        else:
            other = base
        if c.verbose:
            c.note('compare %s with %s %s' % (short(m, 120), type(other).__name__, short(base, 120)))
        for op in ops:
            want = op(m, base)
            got = op(sl, other)
            c.check(got is want, op.__name__, 'of', m, 'and', type(other).__name__, base, 'gave', got)
            # from the other side; list/tuple defer to us because they do not know sorted lists
            want = op(base, m)
            got = op(other, sl)
            c.check(got is want, 'reflected', op.__name__, 'of', type(other).__name__, base, 'and', m, 'gave', got)
        if base and m and base[0] == m[0]:
            good = True
    for _ in range(c.int(0, 3)):
        y, vals, other = near_range(c)
        c.note('compare %s with %s %s' % (short(vals, 120), type(other).__name__, short(list(other), 120))) if c.verbose else None
        for op in ops:
            want = op(vals, list(other))
            got = op(y, other)
            c.check(got is want, op.__name__, 'of', vals, 'and', type(other).__name__, list(other), 'gave', got)
            want = op(list(other), vals)
            got = op(other, y)
            c.check(got is want, 'reflected', op.__name__, 'of', type(other).__name__, list(other), 'and', vals, 'gave', got)
    for other in (5, None, {1, 2}, {1: 2}, object(), iter([])):
        c.check((sl == other) is False, '== with a non-sequence', other)
        c.check((sl != other) is True, '!= with a non-sequence', other)
        for op in ops[2:]:
            must_raise(TypeError, op, sl, other, what='ordering against a non-sequence')
    c.tag(type(sl).__name__)
    if good:
        c.nontrivial()
