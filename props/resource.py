"""C19, C21, C22: cost, lifetime, demands on elements."""
import copy
import gc
import math
import operator
import pickle
import sys
import weakref
from bisect import bisect_left, insort

from vt import sut
from vt.calls import Calls, make, text_of
from vt.domains import LOADS, Gen, Kind
from vt.engine import Violation, fail, prop, short
from vt.listdrv import ListDriver

from .dicts import DICT_OPS, DictDriver
from .lists import read_lookup, read_positional, read_range
from .sets import SET_OPS, SetDriver

# ---------------------------------------------------------------------------
# C19


class Counted:
    """Comparisons of these are counted."""

    __slots__ = ('v',)
    compared = 0

    def __init__(self, v):
        self.v = v

    def __lt__(self, other):
        Counted.compared += 1
        return self.v < other.v

    def __le__(self, other):
        Counted.compared += 1
        return self.v <= other.v

    def __gt__(self, other):
        Counted.compared += 1
        return self.v > other.v

    def __ge__(self, other):
        Counted.compared += 1
        return self.v >= other.v

    def __eq__(self, other):
        Counted.compared += 1
        return isinstance(other, Counted) and self.v == other.v

    def __ne__(self, other):
        Counted.compared += 1
        return not isinstance(other, Counted) or self.v != other.v

    def __hash__(self):
        return hash(self.v)

    def __repr__(self):
        return 'C%r' % (self.v,)


class CountingKey:
    """An injective key function that counts its calls."""

    def __init__(self, sign):
        self.sign = sign
        self.calls = 0

    def __call__(self, x):
        self.calls += 1
        return Counted(self.sign * x.v)


class Lines:
    """Counts source lines executed inside the package by one call."""

    def __init__(self, budget):
        self.n = 0
        self.budget = budget
        self.root = sut.SRC

    def trace(self, frame, event, arg):
        if not frame.f_code.co_filename.startswith(self.root):
            return None
        return self.line

    def line(self, frame, event, arg):
        if event == 'line':
            self.n += 1
        return self.line

    def run(self, fn):
        old = sys.gettrace()
        sys.settrace(self.trace)
        try:
            return fn()
        finally:
            sys.settrace(old)


class Cost:
    def __init__(self, c):
        self.c = c
        self.face = c.pick(('list', 'list', 'set', 'dict'))
        self.key = CountingKey(c.pick((1, -1))) if c.int(0, 1) else None
        self.dups = self.face == 'list' and self.key is None and c.int(0, 1)
        self.load = c.pick((4, 4, 5, 7, 12, 30, 100, 1000, 1000))
        self.top = c.pick((40, 300, 1500, 4000)) if not c.small else 60
        self.span = c.pick((self.top * 2, self.top * 50)) if not self.dups else c.pick((1, 7, self.top))
        # the load factor comes from the class default or from _reset of each container
        self.by_reset = c.int(0, 1)
        if not self.by_reset:
            sut.SortedList.DEFAULT_LOAD_FACTOR = self.load
        self.have = []  # sorted plain values
        n = c.edge(0, self.top)
        init = self.distinct(self.pattern(n))
        self.put(init)
        Counted.compared = 0
        if self.key:
            self.key.calls = 0
        objs = [Counted(v) for v in init]
        if self.face == 'list':
            self.x = sut.SortedList(objs, key=self.key)
        elif self.face == 'set':
            self.x = sut.SortedSet(objs, key=self.key)
        else:
            self.x = sut.SortedDict(self.key, dict.fromkeys(objs, 0))
        c.note('new %s key=%s load=%d n=%d span=%d dups=%s' % (self.face, bool(self.key), self.load, n, self.span, self.dups)) if c.verbose else None
        self.worst = 0.0
        self.measured = 0
        self.judge_bulk('constructor', len(init), 0)
        self.owner = None
        self.reload()
        self.balanced('constructor')

    def reload(self):
        if self.by_reset and self.owner is not self.x:
            self.x._reset(self.load)
        self.owner = self.x

    # -- plain shadow -----------------------------------------------------
    def put(self, values):
        if self.dups:
            self.have = sorted(self.have + list(values))
        else:
            self.have = sorted(set(self.have).union(values))

    def drop(self, v):
        i = bisect_left(self.have, v)
        if i < len(self.have) and self.have[i] == v:
            del self.have[i]
            return True
        return False

    def holds(self, v):
        i = bisect_left(self.have, v)
        return i < len(self.have) and self.have[i] == v

    def pattern(self, n):
        c = self.c
        start, step = c.int(0, self.span), c.pick((1, -1, 7, 389, 0))
        if step == 0:
            step = c.int(1, self.span)
        return [(start + i * step) % (self.span + 1) for i in range(n)]

    def distinct(self, vals):
        """Lists get distinct values, unless the case is about duplicates."""
        if self.dups or self.face != 'list':
            return vals
        have = set(self.have)
        return [v for v in dict.fromkeys(vals) if v not in have]

    def fresh(self):
        return self.c.int(0, self.span)

    def present(self):
        if not self.have:
            return self.fresh()
        return self.have[self.c.edge(0, len(self.have) - 1)]

    # -- judging ------------------------------------------------------------
    def allowed(self, n):
        return 4 * math.log2(n + 2) + 16

    def single(self, what, fn, times=1):
        n = len(self.have)
        Counted.compared = 0
        if self.key:
            self.key.calls = 0
        try:
            fn()
        except (ValueError, KeyError):
            pass
        used = Counted.compared
        self.measured += 1
        limit = self.allowed(n) * times
        if used > limit:
            fail('%s of a %s of %d (load %d) made %d comparisons; allowed %d' % (what, self.face, n, self.load, used, limit))
        if self.key and self.key.calls > 8 * times:
            fail('%s of a keyed %s of %d made %d calls of the key function' % (what, self.face, n, self.key.calls))

    def judge_bulk(self, what, k, n, rebuild=True):
        used, calls = Counted.compared, self.key.calls if self.key else 0
        t = n + k
        log = math.log2(t + 2)
        limit = 64 + 8 * (t if rebuild else k) * (log + 4) + (0 if rebuild else 32 * k * log)
        if used > limit:
            fail('%s of %d values on a %s of %d (load %d) made %d comparisons; allowed %d' % (what, k, self.face, n, self.load, used, limit))
        many = 64 + (8 * t if rebuild else 80 * k)
        if calls > many:
            fail('%s of %d values on a keyed %s of %d made %d calls of the key function; allowed %d' % (what, k, self.face, n, calls, many))
        self.measured += 1

    def balanced(self, what):
        x = self.x
        if len(x) != len(self.have):
            fail('after', what, ': len is', len(x), 'expected', len(self.have))
        inner = x if self.face == 'list' else getattr(x, '_list', x)
        lists, load = getattr(inner, '_lists', None), self.load
        if lists is not None:
            sizes = [len(s) for s in lists]
            if any(s > 2 * load for s in sizes):
                fail('after', what, ': a sublist of', max(sizes), 'values with load', load)
            if any(s < load // 2 for s in sizes[:-1]):
                fail('after', what, ': a sublist of', min(sizes[:-1]), 'values with load', load, 'sizes', sizes)
            if sizes and sizes[-1] == 0:
                fail('after', what, ': an empty sublist')
        try:
            x._check()
        except Exception as exc:
            fail('after', what, ': self-check failed:', type(exc).__name__, exc)

    def lines(self, what, fn):
        """Interpreted work inside the package, in source lines."""
        n = len(self.have)
        t = Lines(0)
        try:
            t.run(fn)
        except (ValueError, KeyError):
            pass
        limit = 40 * math.log2(n + 2) + 250
        self.measured += 1
        if t.n > limit:
            fail('%s of a %s of %d (load %d) ran %d source lines; allowed %d' % (what, self.face, n, self.load, t.n, limit))

    # -- one phase --------------------------------------------------------
    def add(self, v):
        x, o = self.x, Counted(v)
        if self.face == 'dict':
            how = self.c.int(0, 1) if self.c.verbose or v % 5 == 0 else 0
            self.single('item assignment', (lambda: x.setdefault(o, 1)) if how else (lambda: operator.setitem(x, o, 1)))
        else:
            self.single('add', lambda: x.add(o))
        if self.dups:
            insort(self.have, v)
        else:
            i = bisect_left(self.have, v)
            if i == len(self.have) or self.have[i] != v:
                self.have.insert(i, v)

    def remove(self, v, how):
        x, o = self.x, Counted(v)
        there = self.drop(v)
        if self.face == 'dict':
            if how:
                self.single('pop', lambda: x.pop(o, None))
            else:
                self.single('del', lambda: operator.delitem(x, o))
        elif how:
            self.single('discard', lambda: x.discard(o))
        else:
            self.single('remove', lambda: x.remove(o))
        return there

    def phase(self):
        c = self.c
        n = len(self.have)
        kind = c.int(0, 7)
        if kind <= 1:
            count = min(c.pick((5, 30, 120)), max(0, self.top * 2 - n))
            vals = self.pattern(count) if kind else [self.fresh() for _ in range(min(count, 30))]
            c.note('add %s' % short(vals)) if c.verbose else None
            for v in self.distinct(vals):
                self.add(v)
            what = 'adds'
        elif kind <= 3:
            count = min(n, c.pick((5, 30, 120, 400)))
            at, how = c.edge(0, n - count), c.int(0, 1)
            c.note('remove %d from position %d' % (count, at)) if c.verbose else None
            for i in range(count):
                self.remove(self.have[min(at, len(self.have) - 1)] if kind == 2 else self.have[min(at + count - 1 - i, len(self.have) - 1)], how)
            what = 'removals'
        elif kind == 4:
            count = min(n, c.pick((5, 30, 120)))
            at = c.edge(0, n - count)
            x = self.x
            c.note('pop %d at position %d' % (count, at)) if c.verbose else None
            for _ in range(count):
                if self.face == 'dict':
                    self.single('popitem', lambda: x.popitem(at if self.ascending() else len(self.have) - 1 - at))
                else:
                    self.single('pop', lambda: x.pop(at if self.ascending() else len(self.have) - 1 - at))
                del self.have[at]
            what = 'pops'
        elif kind == 5:
            self.bulk()
            what = 'bulk operation'
        elif kind == 6:
            a, b = sorted((c.edge(0, n), c.edge(0, n)))
            c.note('del [%d:%d] of %d' % (a, b, n)) if c.verbose else None
            s = slice(a, b) if self.ascending() else slice(n - b, n - a)
            Counted.compared = 0
            if self.key:
                self.key.calls = 0
            if self.face == 'dict':
                del self.x.keys()[s]
            else:
                del self.x[s]
            del self.have[a:b]
            self.judge_bulk('slice deletion', b - a, n, rebuild=(b - a) * 12 >= n)
            what = 'slice deletion'
        else:
            self.probe()
            return
        self.balanced(what)

    def ascending(self):
        return self.key is None or self.key.sign > 0

    def bulk(self):
        c, x = self.c, self.x
        n = len(self.have)
        k = c.pick((1, 2, n // 12, n // 10 + 1, n // 5, n // 4 + 1, n // 3, n))
        k = max(0, min(k, self.top * 2 - n))
        vals = self.distinct(self.pattern(k))
        k = len(vals)
        objs = [Counted(v) for v in vals]
        Counted.compared = 0
        if self.key:
            self.key.calls = 0
        small = k * 12 < n
        if self.face == 'list':
            how = c.int(0, 3)
            c.note('bulk %d with %d' % (how, k)) if c.verbose else None
            if how <= 1:
                x.update(objs)
            elif how == 2:
                self.x += objs
            else:
                self.x = x + objs
                small = False
            self.put(vals)
        elif self.face == 'set':
            name = c.pick(('update', 'difference_update', 'union', 'intersection_update', 'symmetric_difference_update', 'difference'))
            c.note('%s with %d' % (name, k)) if c.verbose else None
            got = getattr(x, name)(objs)
            self.x = got
            have, s = set(self.have), set(vals)
            self.have = sorted(
                have | s if name in ('update', 'union') else have & s if 'intersection' in name else have ^ s if 'symm' in name else have - s
            )
            if name not in ('update', 'difference_update'):
                small = False
        else:
            c.note('update with %d' % k) if c.verbose else None
            x.update(dict.fromkeys(objs, 2))
            self.put(vals)
        self.judge_bulk('bulk operation', k, n, rebuild=not small)
        self.reload()

    def probe(self):
        c, x = self.c, self.x
        v = self.present() if c.int(0, 2) else self.fresh()
        o, w = Counted(v), Counted(self.fresh())
        todo = [
            ('in', lambda: o in x), ('bisect_left', lambda: x.bisect_left(o)), ('bisect_right', lambda: x.bisect_right(o)),
            ('bisect', lambda: x.bisect(o)), ('index', lambda: x.index(o)),
            ('irange', lambda: list(x.irange(o, w)) and None), ('irange from', lambda: next(x.irange(o), None)),
            ('reverse irange', lambda: next(x.irange(None, o, reverse=True), None)),
            ('iteration', lambda: list(x)), ('reversed', lambda: list(reversed(x))), ('islice', lambda: list(x.islice(1, 9))),
        ]
        if self.face != 'dict':
            todo += [('count', lambda: x.count(o)), ('[i]', lambda: x[len(x) // 3] if len(x) else None), ('slice', lambda: x[1:7])]
        else:
            keys, items = x.keys(), x.items()
            todo += [
                ('in keys()', lambda: o in keys), ('in items()', lambda: (o, 1) in items), ('keys()[i]', lambda: keys[len(x) // 3] if len(x) else None),
                ('items()[i]', lambda: items[len(x) // 3] if len(x) else None), ('keys() slice', lambda: keys[1:7]),
            ]
            todo += [('get', lambda: x.get(o)), ('peekitem', lambda: x.peekitem(len(x) // 3) if len(x) else None)]
        if self.face == 'list':
            todo += [('index in a window', lambda: x.index(o, 1, -1))]
        c.note('probe %s' % v) if c.verbose else None
        if not self.holds(w.v):
            if self.face == 'dict':
                todo += [('pop of what is not there', lambda: x.pop(w, None)), ('del of what is not there', lambda: operator.delitem(x, w))]
            else:
                todo += [('discard of what is not there', lambda: x.discard(w)), ('remove of what is not there', lambda: x.remove(w))]
            todo += [('index of what is not there', lambda: x.index(w)), ('in of what is not there', lambda: w in x)]
        for what, fn in todo:
            self.single(what, fn)
        if len(self.have) >= 200:
            # once the positional index exists, nothing is linear in the number of sublists
            n = len(self.have)
            if self.face != 'dict':
                fn = lambda i: x[i]
                slow = [('[i]', lambda: fn(n // 2)), ('[i] again', lambda: fn(-n // 3)), ('count', lambda: x.count(o))]
            else:
                fn = x.peekitem
                slow = [('peekitem', lambda: fn(n // 2)), ('peekitem again', lambda: fn(-n // 3))]
                slow += [('in keys()', lambda: o in keys), ('in items()', lambda: (o, 1) in items), ('values()[i]', lambda: x.values()[n // 2])]
            slow += [('in', lambda: o in x), ('bisect_left', lambda: x.bisect_left(o)), ('bisect_right', lambda: x.bisect_right(o)), ('index', lambda: x.index(o)),
                     ('irange', lambda: next(x.irange(o), None))]
            fn(0), fn(n // 2)
            for what, f in slow:
                self.lines(what, f)
            if self.face == 'dict':
                self.lines('item assignment', lambda: operator.setitem(x, w, 1))
                self.lines('pop', lambda: x.pop(w))
            else:
                self.lines('add', lambda: x.add(w))
                self.lines('remove', lambda: x.remove(w))
                if not self.holds(w.v) or self.face == 'set':
                    self.lines('discard of what is not there', lambda: x.discard(w))
                    self.lines('remove of what is not there', lambda: x.remove(w))
            if self.face != 'list':
                self.drop(w.v)
            self.c.tag('interpreted lines counted')


@prop(
    'C19',
    'A case is a history of phases (ascending, descending, strided adds; draining from an end or the middle by value or position; bulk updates around the size switches; slice deletions; '
    'lookups) on a SortedList, SortedKeyList, SortedSet or SortedDict of up to 8000 counted elements, load 4..1000; comparisons and key calls of every single operation and every bulk '
    'operation are compared with a fixed multiple of the documented complexity, sublist sizes are checked after each phase. Non-trivial: at least 40 measured operations and 64 elements.',
    quick=5000,
    assumptions=['for key lists, values have distinct keys', 'building the positional index (linear in the number of sublists) is not counted'],
)
def c19(c):
    d = Cost(c)
    most = len(d.have)
    for _ in c.steps(24, 9):
        d.phase()
        most = max(most, len(d.have))
    d.probe()
    d.balanced('the history')
    c.tag(d.face + (' with key' if d.key else ''))
    if most > 1000:
        c.tag('size>1000')
    if d.measured >= 40 and most >= 64:
        c.nontrivial()


# ---------------------------------------------------------------------------
# C21


class Alive:
    """Knows how many of its instances exist."""

    __slots__ = ('v', '__weakref__')
    now = None  # ids of the living

    def __init__(self, v):
        self.v = v
        type(self).now.add(id(self))

    def __del__(self):
        type(self).now.discard(id(self))

    def __eq__(self, other):
        return type(other) is type(self) and self.v == other.v

    def __lt__(self, other):
        return self.v < other.v

    def __le__(self, other):
        return self.v <= other.v

    def __hash__(self):
        return hash(self.v)

    def __repr__(self):
        return '%s(%r)' % (type(self).__name__, self.v)


class Elem(Alive):
    __slots__ = ()
    now = set()


class Value(Alive):
    __slots__ = ()
    now = set()


class SortKey(Alive):
    __slots__ = ()
    now = set()


ELEM = Kind('mortal', lambda i, v: Elem(i), plain=False)


def key_mortal(x):
    return SortKey(-x.v)


def key_mortal_ties(x):
    return SortKey(x.v // 3)


def key_value(x):
    return -x.v


class MortalCalls(Calls):
    cloning = False

    def pairs(self, keys):
        out = []
        for k in keys:
            self.serial += 1
            out.append((k, Value(self.serial)))
        return out


def _mortality(c, x, face, key, what):
    """Everything alive is in the container."""
    n = len(x)
    ids = {id(v) for v in x}
    if Elem.now != ids:
        extra = len(Elem.now - ids)
        fail('after', what, 'on a %s of %d:' % (face, n), extra, 'removed or unused element(s) still alive' if extra else 'an element died while contained')
    if len(SortKey.now) > n:
        fail('after', what, 'on a keyed %s of %d:' % (face, n), len(SortKey.now), 'sort keys are alive')
    if face == 'dict':
        vals = {id(dict.__getitem__(x, k)) for k in x}
        if Value.now != vals:
            fail('after', what, 'on a dict of %d:' % n, len(Value.now - vals), 'removed value(s) still alive')
    elif Value.now:
        fail('stray values')


def _extra_call(c, face, key, calls, order):
    """Calls of other kinds, none of which may keep anything alive."""
    n = len(order)
    how = c.int(0, 7)
    v = calls.value(order)
    if how == 0:
        return 'load change', calls.reset()[1]
    if how == 1:
        a = c.int(0, n)
        return 'partial iteration', lambda x: [next(x.islice(a), None), next(iter(x), None), next(reversed(x), None), next(x.irange(v), None)] and None
    if how == 2:
        return 'failing calls', lambda x: _attempts(x, v)
    if how == 3:
        return 'pickle', lambda x: pickle.loads(pickle.dumps(x)) and None
    if how == 4:
        return 'deepcopy', lambda x: copy.deepcopy(x) and None
    if how == 5 and face == 'dict':
        return 'views', lambda x: [x.keys(), list(x.items()), x.values(), x.keys()[:2], v in x.keys(), x.keys() & {v}] and None
    if how == 5:
        return 'derived', lambda x: [x[:], x + [v] if face == 'list' else x | {v}, x == [v]] and None
    if how == 6:
        return 'repr', lambda x: repr(x) and None
    return 'copy and change it', lambda x: _change_copy(x, face, v)


def _attempts(x, v):
    if not len(x):
        return  # then anything may be stored
    for name, args in (('add', (None,)), ('remove', (None,)), ('update', ([v, None],)), ('pop', (10**9,)), ('index', (None,)), ('setdefault', (None, v)), ('append', (v,))):
        try:
            getattr(x, name)(*args)
        except Exception:
            pass
    for bad in (None, 5, object):
        try:
            x.discard(bad)
        except Exception:
            pass
    # `update` may have stored v before failing
    try:
        x.pop(v) if isinstance(x, dict) else x.discard(v)
    except Exception:
        pass


def _change_copy(x, face, v):
    y = x.copy()
    if face == 'dict':
        y[v] = None
        y.popitem(0)
    else:
        y.add(v)
        y.pop(0)


@prop(
    'C21',
    'A case is a history of reads and writes (all kinds, in particular removals by value, position, slice, bulk and clear; copies, views, pickles, failing calls) on one container whose elements, '
    'values and sort keys report their own death, with the cycle collector off; after every operation exactly the contained objects must be alive, and after dropping the container none. '
    'Non-trivial: at least 5 writes and at least 8 elements at some point.',
    quick=80000,
    assumptions=['CPython reference counting'],
)
def c21(c):
    was = gc.isenabled()
    gc.disable()
    try:
        Elem.now.clear(), Value.now.clear(), SortKey.now.clear()
        _c21(c)
    finally:
        if was:
            gc.enable()


def _c21(c):
    face = c.pick(('list', 'set', 'dict'))
    key = c.pick((None, key_mortal, key_mortal_ties, key_value))
    gen = Gen(c, ELEM, big=False)
    load = c.pick(LOADS[:10])
    sut.SortedList.DEFAULT_LOAD_FACTOR = load
    calls = MortalCalls(c, face, ELEM, key, gen)
    init = gen.initial()
    if face == 'dict':
        pairs = calls.pairs(init)
        x = sut.SortedDict(key, pairs)
        pairs = None
    else:
        x = make(face, key, init)
    init = None
    c.note('new %s key=%s load=%d of %d' % (face, getattr(key, '__name__', None), load, len(x))) if c.verbose else None
    _mortality(c, x, face, key, 'construction')
    writes, most = 0, len(x)
    for _ in c.steps(60, 18):
        order = list(x)
        r = c.int(0, 9)
        if r <= 5:
            text, fn = calls.write(order, grow=len(order) < 12)
            writes += 1
        elif r <= 7:
            text, fn = calls.read(order)
        else:
            text, fn = _extra_call(c, face, key, calls, order)
        order = None
        what = text_of(text) if c.verbose else text if isinstance(text, str) else text[0]
        c.note(what) if c.verbose else None
        text = None
        try:
            fn(x)
        except Violation:
            raise
        except Exception:
            pass
        fn = None
        if len(x) > 3000:
            break
        _mortality(c, x, face, key, what)
        most = max(most, len(x))
    # everything goes at once
    ref = weakref.ref(x)
    held = c.int(0, 5)
    if held == 1:
        y = x.copy()
    elif held == 2 and face == 'dict':
        y = (x.keys(), x.items(), x.values())
    elif held == 3:
        y = (iter(x), reversed(x), x.irange(), x.islice(1))
    elif held == 4:
        y = repr(x)
    else:
        y = None
    x = None
    if held == 0 and ref() is not None:
        fail('a dropped %s is still alive' % face)
    y = None
    if ref() is not None:
        fail('a dropped %s is still alive (with a copy, view or iterator made of it, dropped too: way %d)' % (face, held))
    if Elem.now or Value.now or SortKey.now:
        fail('dropping a %s left %d elements, %d values, %d sort keys alive' % (face, len(Elem.now), len(Value.now), len(SortKey.now)))
    c.tag(face + (' with key' if key else ''))
    if writes >= 5 and most >= 8:
        c.nontrivial()


# ---------------------------------------------------------------------------
# C22


class Trapped(BaseException):
    """Not an Exception, so that no handler can swallow it."""


def _trap(name):
    def method(self, *args):
        Trap.sprung.append('%s used %s' % (type(self).__name__, name))
        raise Violation('%s: %s was used' % (type(self).__name__, name))

    method.__name__ = name
    return method


class Trap:
    __slots__ = ('v', '__weakref__')
    sprung = []

    def __init__(self, v):
        self.v = v

    def __repr__(self):
        return '%s(%r)' % (type(self).__name__, self.v)


def _same(self, other):
    if not isinstance(other, Trap):
        return NotImplemented
    return self.v == other.v


def _less(self, other):
    if not isinstance(other, Trap):
        return NotImplemented
    return self.v < other.v


def _hash(self):
    return hash(self.v)


FORBIDDEN = [
    '__le__', '__gt__', '__ge__', '__lt__', '__eq__', '__hash__', '__bool__', '__len__', '__iter__', '__index__', '__int__', '__float__', '__contains__',
    '__getitem__', '__neg__', '__add__', '__radd__', '__sub__', '__rsub__', '__mul__', '__call__', '__next__', '__abs__', '__iadd__', '__enter__',
]


def protocol(name, *allowed):
    ns = {'__slots__': ()}
    for n in FORBIDDEN:
        ns[n] = _trap(n)
    for n in allowed:
        ns[n] = {'__eq__': _same, '__lt__': _less, '__hash__': _hash}[n]
    return type(name, (Trap,), ns)


Ordered = protocol('Ordered', '__eq__', '__lt__')
Equal = protocol('Equal', '__eq__')
HashOrdered = protocol('HashOrdered', '__eq__', '__lt__', '__hash__')
HashEqual = protocol('HashEqual', '__eq__', '__hash__')
KeyOnly = protocol('KeyOnly', '__eq__', '__lt__')

K_ORDERED = Kind('only == <', lambda i, v: Ordered(i), hashable=False, le=False, plain=False)
K_EQUAL = Kind('only ==', lambda i, v: Equal(i), hashable=False, le=False, plain=False)
K_HORDERED = Kind('only == < hash', lambda i, v: HashOrdered(i), le=False, plain=False)
K_HEQUAL = Kind('only == hash', lambda i, v: HashEqual(i), le=False, plain=False)


def _strict_key(fn):
    def key(x):
        if type(x) not in (Equal, HashEqual):
            Trap.sprung.append('key function applied to %r' % (x,))
            raise Violation('the key function was applied to %r, which is not a value' % (x,))
        return fn(x)

    return key


t_distinct = _strict_key(lambda x: KeyOnly(-x.v))
t_ties = _strict_key(lambda x: KeyOnly(x.v // 4))
t_const = _strict_key(lambda x: KeyOnly(0))
t_int = _strict_key(lambda x: x.v // 2)

LIST_POOL = [(K_EQUAL, k, False) for k in (t_distinct, t_ties, t_const, t_int)]
HASH_POOL = [(K_HEQUAL, k, False) for k in (t_distinct, t_ties, t_const, t_int)]


class Opaque(int):
    """A dict value: nothing but identity and equality."""

    def __add__(self, other):
        return Opaque(int(self) + other)


for _n in ('__lt__', '__le__', '__gt__', '__ge__', '__hash__', '__bool__', '__iter__', '__len__', '__contains__', '__getitem__', '__call__'):
    setattr(Opaque, _n, _trap(_n))


class OpaqueDictDriver(DictDriver):
    """As DictDriver, with values on which nothing may be done."""

    @property
    def serial(self):
        return self._serial

    @serial.setter
    def serial(self, v):
        self._serial = Opaque(int(v))

    def odd_values(self, tame):
        return None


@prop(
    'C22',
    'A case is a history with reads of every kind on a container whose elements offer only == and < (plus hash for sets and dicts), or, with a key function, whose values offer only == (and hash) '
    'and whose keys offer only == and <; every other special method raises, the key function rejects anything but a value, dict values reject everything but ==. Results are '
    'judged against the models. Non-trivial: at least 5 mutations on at least 8 elements and 3 reads.',
    quick=80000,
    assumptions=['the self-check (not part of ordinary use) may use <=', 'comparing a list with a sequence compares the elements as the sequence comparison requires'],
)
def c22(c):
    del Trap.sprung[:]
    face = c.pick(('list', 'list', 'set', 'dict'))
    keyed = c.int(0, 1)
    big = c.int(0, 11) == 11
    if face == 'list':
        d = ListDriver(c, keyed=keyed, level='sync', kinds=[K_ORDERED], pool=LIST_POOL, big=big)
    elif face == 'set':
        d = SetDriver(c, keyed=keyed, kinds=[K_HORDERED], pool=HASH_POOL, big=big)
    else:
        d = OpaqueDictDriver(c, keyed=keyed, kinds=[K_HORDERED], pool=HASH_POOL, big=big)
    calls = Calls(c, face, d.kind, d.key, d.gen)
    calls.cloning = False  # pickling strict elements and keys is not the container's doing
    reads, most = 0, 0
    for _ in c.steps(60, 20):
        r = c.int(0, 7)
        if r <= 4:
            if face == 'list':
                d.step()
            else:
                d.step(SET_OPS if face == 'set' else DICT_OPS)
        elif r == 5:
            reads += 1
            if face == 'list':
                how = c.int(0, 2)
                if how == 0:
                    c.again('lookup', read_lookup, c, d)
                elif how == 1:
                    c.again('range', read_range, c, d)
                else:
                    c.again('positional', read_positional, c, d.sl, d.m, d.index, d.slice)
            else:
                d.deep()
        else:
            reads += 1
            x = d.sl if face == 'list' else d.x
            text, fn = calls.read(list(d.m))
            if c.verbose:
                c.note(text_of(text))
            try:
                got = fn(x)
                if not isinstance(got, Trap) and hasattr(type(got), '__next__'):
                    list(got)
                got = None
            except (ValueError, IndexError, KeyError):
                pass
        if Trap.sprung:
            fail('an undocumented demand was made:', Trap.sprung[0])
        most = max(most, len(d.m))
    c.tag(face + (' with key' if keyed else ''))
    if d.mutations >= 5 and most >= 8 and reads >= 3:
        c.nontrivial()
