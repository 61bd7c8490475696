"""C25, C26, C27: standard protocols, the self-check, independence of the route."""
import bisect
import collections
import collections.abc as abc
import contextlib
import functools
import heapq
import io
import itertools
import json
import operator
import random
import types

from vt import sut
from vt.calls import Calls, content, equal, make, norm, outcome, text_of
from vt.domains import HASH_KEYED, HASH_KINDS, KEYED, LIST_KINDS, LOADS, TAG, Gen, identical, must_raise, same
from vt.engine import fail, prop, short
from vt.listdrv import ListDriver, layout

from .cross import SubKeyList, SubList, obj_of, pick_face, steps
from .dicts import DictDriver, SubDict
from .sets import SetDriver, SubSet

# ---------------------------------------------------------------------------
# C25


def _star(*args, **kw):
    return args, kw


def _match(x):
    match x:
        case []:
            return 'empty'
        case [a]:
            return ('one', a)
        case [a, b]:
            return ('two', a, b)
        case [a, *rest, z]:
            return ('many', a, rest, z)
    return 'no sequence'


def _heap(x):
    h = list(x)
    heapq.heapify(h)
    return h


def _same_answer(got, want):
    if type(got) is not type(want):
        return False
    if isinstance(got, (list, tuple)):
        return len(got) == len(want) and all(_same_answer(a, b) for a, b in zip(got, want))
    return got is want or got == want


def _seq_consumers(c, n, seed, key):
    """name -> function of a sequence; the model answer is that of the plain list."""
    i = c.int(0, n) if n else 0
    k = c.int(0, min(n, 12)) if n else 0
    fs = {
        'list()': list,
        'tuple()': tuple,
        '*args': lambda x: _star(*x)[0],
        '[*x]': lambda x: [*x, 0, *x],
        'enumerate': lambda x: list(enumerate(x)),
        'zip with itself': lambda x: list(zip(x, x)),
        'zip of two iterators': lambda x: list(zip(iter(x), reversed(x))),
        'nested loops': lambda x: [(a, b) for a in x for b in x] if n <= 40 else [(a, b) for a in itertools.islice(x, 3) for b in x],
        'map': lambda x: list(map(lambda v: (v,), x)),
        'filter': lambda x: list(filter(lambda v: v is not None, x)),
        'chain': lambda x: list(itertools.chain(x, x)),
        'itertools.islice': lambda x: list(itertools.islice(x, i, None, 2)),
        'groupby': lambda x: [len(list(g)) for _, g in itertools.groupby(x)],
        'deque': lambda x: list(collections.deque(x, maxlen=k + 1)),
        'list.extend': lambda x: (lambda l: (l.extend(x), l)[1])([1]),
        'list slice assignment': lambda x: (lambda l: (operator.setitem(l, slice(1, 2), x), l)[1])([0, 1, 2]),
        'bool': bool,
        'truth test': lambda x: 'true' if x else 'false',
        'not': operator.not_,
        'len': len,
        'length_hint': operator.length_hint,
        'any': lambda x: any(True for _ in x),
        'reduce': lambda x: functools.reduce(lambda a, b: a + 1, x, 0),
        'random.choice': lambda x: random.Random(seed).choice(x),
        'random.sample': lambda x: random.Random(seed).sample(x, k),
        'random.choices': lambda x: random.Random(seed).choices(x, k=3),
        'match statement': _match,
        'for i in range(len(x))': lambda x: [x[j] for j in range(len(x))] if n < 400 else [x[0], x[n - 1]],
        'itemgetter': lambda x: operator.itemgetter(0, -1, n // 2)(x),
        'first, *rest': lambda x: (lambda a, *b: (a, b))(*x),
        'operator.contains': lambda x: operator.contains(x, x[i]),
        'operator.indexOf': lambda x: operator.indexOf(x, x[i]),
        'operator.countOf': lambda x: operator.countOf(x, x[i]),
        'sorted by its key': lambda x: sorted(x, key=key),
        'heapq.nsmallest': lambda x: heapq.nsmallest(k, x, key=key),
        'min': lambda x: min(x, key=key),
        'iterators are independent': lambda x: (lambda p, q: [next(p, 0), next(p, 0), next(q, 0), next(p, 0), list(q), list(p)])(iter(x), iter(x)),
        'exhausted iterator stays exhausted': lambda x: (lambda p: (list(p), list(p), next(p, 'end')))(iter(x)),
        'exhausted reverse iterator': lambda x: (lambda p: (list(p), list(p), next(p, 'end')))(reversed(x)),
    }
    if key is None:
        fs['bisect.bisect_left'] = lambda x: bisect.bisect_left(x, x[i])
        fs['bisect.bisect_right'] = lambda x: bisect.bisect_right(x, x[i])
        fs['heapq.merge'] = lambda x: list(heapq.merge(x, x))
        fs['already a heap'] = _heap
    else:
        fs['bisect.bisect_left'] = lambda x: bisect.bisect_left(x, key(x[i]), key=key)
        fs['heapq.merge'] = lambda x: list(heapq.merge(x, x, key=key))
    return fs


def _answer(fn, x):
    try:
        return ('ok', fn(x))
    except (IndexError, ValueError, TypeError, KeyError) as exc:
        return ('raised', type(exc).__name__)


def _dict_consumers(c, order, d):
    """name -> function of a mapping; the model is a plain dict in key order."""
    k = order[c.int(0, len(order) - 1)] if order else 0

    def text(x):
        return json.dumps({str(a): b for a, b in x.items()})

    fs = {
        'dict()': lambda x: list(dict(x).items()),
        '{**x}': lambda x: list({**x}.items()),
        '{1: 2, **x}': lambda x: list({'!': 2, **x}.items()),
        'OrderedDict': lambda x: list(collections.OrderedDict(x).items()),
        'ChainMap': lambda x: (collections.ChainMap({}, x).get(k), len(collections.ChainMap({}, x))),
        'MappingProxyType': lambda x: (list(types.MappingProxyType(x)), types.MappingProxyType(x).get(k)),
        'UserDict': lambda x: list(collections.UserDict(x).items()),
        'dict.update': lambda x: (lambda p: (p.update(x), list(p.items()))[1])({}),
        'dict |': lambda x: dict({} | dict(x)) == dict(x),
        'dict.fromkeys': lambda x: list(dict.fromkeys(x)),
        'json of items': text,
        'itemgetter': lambda x: operator.itemgetter(k)(x),
        'operator.contains': lambda x: operator.contains(x, k),
        'map get': lambda x: list(map(x.get, list(x))),
        'map getitem': lambda x: list(map(x.__getitem__, list(x))),
        'sorted items': lambda x: [len(p) for p in x.items()],
        'zip keys values': lambda x: list(zip(x, x.values())) == list(x.items()),
        'for k, v': lambda x: [(a, b) for a, b in x.items()],
        'max by value': lambda x: max(x.values()) if len(x) else None,
        'iterate keys': lambda x: [a for a in x],
        'view iterators': lambda x: (lambda p, q: [next(p, 0), next(q, 0), list(p), list(q)])(iter(x.items()), iter(x.values())),
        'match mapping': _match_mapping,
        'bool of views': lambda x: (bool(x.keys()), bool(x.items()), bool(x.values())),
        'Counter': lambda x: sorted(collections.Counter(x).values()),
        'defaultdict': lambda x: list(collections.defaultdict(int, x).items()),
    }
    if all(type(a) is str for a in order):
        fs['**kwargs'] = lambda x: list(_star(**x)[1].items())
        fs['json'] = json.dumps
        fs['SimpleNamespace'] = lambda x: len(vars(types.SimpleNamespace(**x)))
    elif all(type(a) in (int, float) for a in order):
        fs['json'] = json.dumps
    return fs


def _match_mapping(x):
    match x:
        case {**rest}:
            return ('mapping', len(rest))
    return 'no mapping'


@prop(
    'C25',
    'A case is a container of one of the four types or a subclass, with or without key, built by a history; some twenty standard consumers chosen at random (unpacking, zip, '
    'match statements, random.choice, bisect, heapq, json, dict(), ** and so on) are applied to it and to a plain list, set or dict of the model content, and the answers compared. Abstract-base-class membership, '
    'hashability, truth value and the rejected sequence methods are checked as well. Non-trivial: at least 3 sublists or 20 elements, and 10 consumers compared.',
    quick=48000,
)
def c25(c):
    face = pick_face(c)
    big = c.int(0, 7) == 7
    sub = c.int(0, 3) == 3
    if face == 'list':
        keyed = c.int(0, 1)
        d = ListDriver(c, keyed=keyed, level='sync', big=big, cls=(SubKeyList if keyed else SubList) if sub else None)
    elif face == 'set':
        d = SetDriver(c, big=big, cls=SubSet if sub else None)
    else:
        d = DictDriver(c, big=big, cls=SubDict if sub else None)
    compared = 0
    most = 0
    for _ in range(c.int(1, 3)):
        steps(c, d, 20, 5)
        x = obj_of(d)
        order = d.m if face == 'list' else d.order
        n = len(order)
        most = max(most, n, 20 * (layout(x if face == 'list' else getattr(x, '_list', None)) >= 3))
        key = d.key
        if key is not None and face != 'list':
            # ties may be arranged in either way
            order = list(x)
        fs = _seq_consumers(c, n, c.int(0, 1000), key)
        names = sorted(fs)
        target, what = x, type(x).__name__
        if face == 'dict':
            positional = ('random', 'match', 'range(len', 'itemgetter', 'operator.', 'bisect', 'zip of two')
            view = c.int(0, 2)
            if view:
                target, what = x.keys(), 'keys view'
            else:
                names = [s for s in names if not any(p in s for p in positional)]
        for _ in range(14):
            name = c.pick(names)
            got, want = _answer(fs[name], target), _answer(fs[name], list(order))
            if not _same_answer(got, want):
                fail(name, 'of a', what, 'gives', got, 'expected', want)
            compared += 1
        if face == 'dict':
            model = {k: d.d[k] for k in order}
            fs = _dict_consumers(c, order, d.d)
            names = sorted(fs)
            for _ in range(10):
                name = c.pick(names)
                got, want = _answer(fs[name], x), _answer(fs[name], model)
                if not _same_answer(got, want):
                    fail(name, 'of a', what, 'gives', got, 'expected', want)
                compared += 1
        if face == 'set':
            plain = set(order)
            other = set(order[: n // 2]) | {d.gen.value()}
            for name, f in (
                ('set()', set), ('frozenset()', frozenset), ('set.union', lambda x: other.union(x)), ('set.intersection', lambda x: other.intersection(x)),
                ('set.difference', lambda x: other.difference(x)), ('set.symmetric_difference', lambda x: other.symmetric_difference(x)),
                ('set.issubset', lambda x: other.issubset(x)), ('set.issuperset', lambda x: other.issuperset(x)), ('set.isdisjoint', lambda x: other.isdisjoint(x)),
                ('set.update', lambda x: (lambda s: (s.update(x), s)[1])(set(other))), ('{*x}', lambda x: {*x}),
            ):
                got, want = f(x), f(plain)
                c.check(type(got) is type(want) and got == want, name, 'of a', what, 'gives', got, 'expected', want)
                compared += 1
        _nature(c, face, x)
    c.tag(type(x).__name__)
    if most >= 20 and compared >= 10:
        c.nontrivial()


def _nature(c, face, x):
    want = {
        'list': (abc.MutableSequence, abc.Sequence, abc.Reversible, abc.Collection, abc.Iterable, abc.Sized, abc.Container),
        'set': (abc.MutableSet, abc.Set, abc.Sequence, abc.Reversible, abc.Collection),
        'dict': (dict, abc.MutableMapping, abc.Mapping, abc.Reversible, abc.Collection),
    }[face]
    for t in want:
        c.check(isinstance(x, t) and issubclass(type(x), t), 'a', type(x).__name__, 'is not a', t.__name__)
    wrong = {'list': (abc.Set, abc.Mapping, abc.Hashable), 'set': (abc.Mapping, abc.MutableSequence, abc.Hashable), 'dict': (abc.Set, abc.Sequence, abc.Hashable)}[face]
    for t in wrong:
        c.check(not isinstance(x, t), 'a', type(x).__name__, 'is a', t.__name__)
    must_raise(TypeError, hash, x, what='hash of a %s' % type(x).__name__)
    c.check(callable(x) is False, 'a', type(x).__name__, 'is callable')
    must_raise(TypeError, next, x, what='next of a %s' % type(x).__name__)
    c.check(str(x) == repr(x), 'str gives', str(x), 'and repr', repr(x))
    c.check(x == x and not x != x, 'is not equal to itself')
    if face == 'dict':
        for v, ts in ((x.keys(), (abc.KeysView, abc.Set, abc.Sequence)), (x.items(), (abc.ItemsView, abc.Set, abc.Sequence)), (x.values(), (abc.ValuesView, abc.Sequence))):
            for t in ts:
                c.check(isinstance(v, t), type(v).__name__, 'is not a', t.__name__)


# ---------------------------------------------------------------------------
# C26


@functools.total_ordering
class Loose:
    """Ordered by a changeable rank, equal to and hashed as itself only."""

    def __init__(self, rank):
        self.rank = rank

    def __lt__(self, other):
        return self.rank < other.rank

    def __eq__(self, other):
        return self is other or isinstance(other, Loose) and self.rank == other.rank

    def __hash__(self):
        return 7

    def __repr__(self):
        return 'L%r' % (self.rank,)


def loose_key(x):
    return -x.rank


def _self_check(x):
    """None, or the AssertionError the self-check raised (its report is swallowed)."""
    with contextlib.redirect_stdout(io.StringIO()):
        try:
            got = x._check()
        except AssertionError as exc:
            return exc
    if got is not None:
        fail('the self-check returned', got)
    return None


@prop(
    'C26',
    'A case is a container of changeable elements (rank kept in the element) of any type, with or without key, any load factor, built by a history of adds, removals and bulk updates with and without a '
    'positional index; its self-check must pass. Then an element is changed behind its back so that the order (or the stored key) no longer fits, anywhere in the container and often at a sublist border, or a dict is changed '
    'through the base class: the self-check must raise AssertionError, change nothing, and pass again once the change is undone. Non-trivial: at least 3 elements and one such change.',
    quick=40000,
)
def c26(c):
    face = pick_face(c)
    keyed = c.int(0, 1)
    key = loose_key if keyed else None
    sut.SortedList.DEFAULT_LOAD_FACTOR = load = c.pick(LOADS)
    n = c.edge(1, 120)
    gap = c.pick((10, 2))
    ranks = [gap * i for i in range(n)]
    start, step = c.int(0, n - 1), c.pick((1, 1, -1))
    els = [Loose(ranks[(start + step * i) % n]) for i in range(n)]
    x = make(face, key, els)
    removed = []
    for _ in c.steps(30, 8):
        how = c.int(0, 4)
        if how == 0 and len(x) > 2:
            i = c.int(0, len(x) - 1)
            removed.append(x.pop(i) if face != 'dict' else x.popitem(i)[0])
        elif how == 1 and removed:
            o = removed.pop()
            if face == 'dict':
                x[o] = 1
            else:
                x.add(o)
        elif how == 2 and removed:
            back, removed = removed, []
            x.update(back if face != 'dict' else dict.fromkeys(back, 2))
        elif how == 3 and len(x):
            x.bisect_left(els[c.int(0, n - 1)])
        elif len(x):
            i = c.int(0, len(x) - 1)
            x[i] if face != 'dict' else x.peekitem(i)
    order = list(x)
    n = len(order)
    c.note('%s, key %s, load %d, %d elements' % (face, keyed, load, n)) if c.verbose else None
    bad = _self_check(x)
    if bad is not None:
        fail('the self-check of an untouched', type(x).__name__, 'of', n, 'raises', repr(bad))
    c.tag(type(x).__name__)
    for _ in range(3):
        if face == 'dict' and c.int(0, 1):
            how = c.int(0, 2)
            new, i = Loose(-5), c.int(0, n - 1)
            if how != 1:
                dict.__setitem__(x, new, 0)
            if how != 0:
                gone = dict.pop(x, order[i])
            what = ('a key added', 'a key removed', 'a key exchanged')[how] + ' through dict'
            bad = _self_check(x)
            if bad is None:
                fail('after', what, ', the self-check of a', type(x).__name__, 'of', n, 'passes')
            if how != 1:
                dict.__delitem__(x, new)
            if how != 0:
                dict.__setitem__(x, order[i], gone)
        elif n >= 2 or keyed and n:
            i = c.edge(0, n - 1)
            inner = x if face == 'list' else getattr(x, '_list', None)
            sizes = [len(s) for s in getattr(inner, '_lists', ())]
            if len(sizes) > 1 and c.int(0, 1):
                i = sum(sizes[: c.int(1, len(sizes) - 1)]) - c.int(0, 1)
            e = order[i]
            was = e.rank
            # below its predecessor, or above its successor
            low = [v.rank for v in order]
            if keyed:
                e.rank = c.pick((was - gap - 1, was + gap + 1, was + 1))
            elif i == 0:
                e.rank = low[1] + 1
            elif i == n - 1 or c.int(0, 1):
                e.rank = low[i - 1] - 1
            else:
                e.rank = low[i + 1] + 1
            what = 'the rank of element %d changed from %d to %d' % (i, was, e.rank)
            bad = _self_check(x)
            if bad is None:
                fail('after', what, ', the self-check of a', type(x).__name__, 'of', low, 'passes')
            now = list(x)
            if not identical(now, order):
                fail('a failing self-check changed the content from', order, 'to', now)
            e.rank = was
        else:
            return
        c.note(what) if c.verbose else None
        bad = _self_check(x)
        if bad is not None:
            fail('after', what, 'and undoing it, the self-check raises', repr(bad))
    if n >= 3:
        c.nontrivial()


# ---------------------------------------------------------------------------
# C27

NO_TIES_LIST = [k for k in LIST_KINDS if k.variants == 1]
NO_TIES_HASH = [k for k in HASH_KINDS if k.variants == 1]


def _injective(t):
    return t[0].variants == 1 and getattr(t[1], '__name__', '') in ('k_neg', 'k_identity', 'k_pair', 'k_str', 'k_rev', 'k_complex', 'k_cmp')


class Route:
    """Brings a container of a face to a given content by a random history."""

    def __init__(self, c, face, key, gen, final, values):
        self.c, self.face, self.key, self.gen = c, face, key, gen
        self.final, self.values = final, values  # values: key -> value of dicts
        self.how = c.int(0, 5)
        sut.SortedList.DEFAULT_LOAD_FACTOR = c.pick((sut.DEFAULT_LOAD,) + tuple(LOADS))
        order = self.shuffled(final)
        cut = c.int(0, len(order)) if self.how else len(order)
        self.c.note('route %d: %d at once, load %d' % (self.how, cut, sut.SortedList.DEFAULT_LOAD_FACTOR)) if c.verbose else None
        extra = [v for v in (gen.pattern(c.int(0, 80)) if c.int(0, 1) else [gen.value() for _ in range(c.int(0, 8))]) if self.foreign(v)]
        extra = self.unique(extra)
        self.x = self.build(order[:cut] + (extra if self.how >= 3 else []))
        if c.int(0, 2) == 0:
            self.x._reset(c.pick(LOADS))
        rest = order[cut:]
        while rest:
            take = c.pick((1, 1, len(rest) // 3 + 1, len(rest)))
            self.put(rest[:take])
            rest = rest[take:]
            if c.int(0, 3) == 0:
                self.look()
        if self.how >= 3:
            self.drop(extra)
        if self.how in (2, 5) and final:
            # out and in again
            back = self.shuffled(final)[: c.int(0, min(len(final), 40))]
            self.drop(back)
            self.put(back)
        if c.int(0, 4) == 0:
            self.x._reset(c.pick(LOADS))
        if c.int(0, 3) == 0:
            self.look()
        sut.SortedList.DEFAULT_LOAD_FACTOR = sut.DEFAULT_LOAD

    def foreign(self, v):
        return not any(v is f or v == f for f in self.final)

    @staticmethod
    def unique(vals):
        out = []
        for v in vals:
            if not any(v == o for o in out):
                out.append(v)
        return out

    def shuffled(self, vals):
        vals = list(vals)
        mode = self.c.int(0, 3)
        if mode == 0:
            vals.reverse()
        elif mode == 1 and vals:
            k = self.c.int(0, len(vals) - 1)
            vals = vals[k:] + vals[:k]
        elif mode == 2:
            random.Random(self.c.int(0, 10**6)).shuffle(vals)
        return vals

    def val(self, v):
        return self.values[self.ident(v)] if self.ident(v) in self.values else 'extra'

    @staticmethod
    def ident(v):
        return repr(v)

    def build(self, vals):
        if self.face == 'dict':
            return sut.SortedDict(self.key, [(v, self.val(v)) for v in vals])
        return make(self.face, self.key, vals)

    def put(self, vals):
        c, x = self.c, self.x
        single = len(vals) < 4 or c.int(0, 1)
        if self.face == 'dict':
            if single:
                for v in vals:
                    if c.int(0, 1):
                        x[v] = self.val(v)
                    else:
                        x.setdefault(v, self.val(v))
            else:
                x.update({v: self.val(v) for v in vals})
        elif single:
            for v in vals:
                x.add(v)
        elif c.int(0, 1):
            x.update(vals)
        elif self.face == 'list':
            self.x += vals
        else:
            self.x |= set(vals)

    def drop(self, vals):
        c, x = self.c, self.x
        for v in vals:
            if self.face == 'dict':
                if c.verbose or len(vals) % 2:
                    del x[v]
                else:
                    x.pop(v)
            elif len(vals) % 2:
                x.remove(v)
            else:
                del x[x.index(v)]

    def look(self):
        x = self.x
        if len(x):
            if self.face == 'dict':
                x.peekitem(len(x) // 2)
            else:
                x[len(x) // 2]


@prop(
    'C27',
    'A case is a final content (no two elements tie) and two random routes to it: different orders, batch sizes, detours through elements added and removed again, removals and re-insertions, reads and load factors. The two '
    'containers must be equal in every comparison, have the same repr, and answer 25 random read calls and then 6 writes identically. Non-trivial: at least 12 elements and 10 reads compared.',
    quick=54000,
    assumptions=['no two elements or keys tie, so that content determines order'],
)
def c27(c):
    face = pick_face(c)
    if c.int(0, 1):
        kind, key, can = c.pick([t for t in (KEYED if face == 'list' else HASH_KEYED) if _injective(t)])
    else:
        kind, key = c.pick(NO_TIES_LIST if face == 'list' else NO_TIES_HASH), None
        can = kind.le
    gen = Gen(c, kind, span=c.pick((20, 60, 200, 1000)), big=False)
    final = Route.unique(gen.pattern(c.edge(0, 200)))
    values = {Route.ident(v): i for i, v in enumerate(final)} if face == 'dict' else {}
    c.note('%s of %s, key %s, content %s' % (face, kind, getattr(key, '__name__', key), short(final))) if c.verbose else None
    a = Route(c, face, key, gen, final, values).x
    b = Route(c, face, key, gen, final, values).x
    ca, cb = content(a), content(b)
    if len(a) != len(final) or len(b) != len(final) or not equal(ca, cb):
        fail('two routes to', final, 'gave', ca, 'and', cb)
    c.check(a == b and b == a and not a != b, 'two routes to', ca, 'gave containers that are not equal')
    if face != 'dict' and (face == 'set' or can):
        c.check(a <= b and a >= b and not a < b and not a > b, 'two routes to', ca, 'gave containers one of which is less than the other')
    c.check(repr(a) == repr(b), 'reprs differ:', repr(a), repr(b))
    calls = Calls(c, face, kind, key, gen)
    order = list(a)
    for i in range(31):
        write = i >= 25
        text, fn = calls.write(order) if write else calls.read(order)
        ra, rb = outcome(fn, a), outcome(fn, b)
        if not equal(ra, rb):
            fail(text_of(text), 'after one route gives', ra, 'and after the other', rb)
        if write:
            ca, cb = content(a), content(b)
            if not equal(ca, cb):
                fail('after', text_of(text), ': one route has', ca, 'the other', cb)
            order = list(a)
    if can:
        a._check()
        b._check()
    c.tag(face)
    if len(final) >= 12:
        c.nontrivial()
