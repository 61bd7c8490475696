"""C09, C10, C17, C18, C20, C23, C24: properties that cut across the containers."""
import copy
import datetime
import operator
import pickle
from fractions import Fraction

from vt import sut
from vt.calls import Calls, coherent, content, equal, make, outcome, text_of
from vt.domains import (
    HASH_KEYED, HASH_KINDS, KEYED, LIST_KINDS, LOADS, PLAIN_HASH_KEYED, PLAIN_HASH_KINDS, PLAIN_KEYED,
    PLAIN_LIST_KINDS, Gen, arranged, as_iterable, identical, k_cmp, k_const, must_raise, same,
)
from vt.engine import fail, prop, short
from vt.listdrv import OPS, ListDriver, layout

from .dicts import DICT_GROW, DICT_OPS, DictDriver, SubDict
from .lists import in_range, read_lookup, read_positional, read_range
from .sets import SET_GROW, SET_OPS, SetDriver, SubSet


class SubList(sut.SortedList):
    pass


class SubKeyList(sut.SortedKeyList):
    pass


def pick_face(c):
    return c.pick(('list', 'set', 'dict'))


def obj_of(d):
    return d.sl if isinstance(d, ListDriver) else d.x


def steps(c, d, maximum, avg, ops=None):
    if ops is None:
        ops = OPS if isinstance(d, ListDriver) else SET_GROW if isinstance(d, SetDriver) else DICT_GROW
    for _ in c.steps(maximum, avg):
        d.step(ops)


# ---------------------------------------------------------------------------


def plain_driver(c, subclass=True, big=False):
    """A driver over picklable, repr-able values and picklable keys."""
    face = pick_face(c)
    sub = subclass and c.int(0, 1)
    keyed = c.int(0, 1)
    if face == 'list':
        cls = (SubKeyList if keyed else SubList) if sub else None
        d = ListDriver(c, keyed=keyed, level='sync', kinds=PLAIN_LIST_KINDS, pool=PLAIN_KEYED, big=big, cls=cls)
    elif face == 'set':
        d = SetDriver(c, cls=SubSet if sub else None, pool=PLAIN_HASH_KEYED, kinds=PLAIN_HASH_KINDS, big=big, keyed=keyed)
    else:
        d = DictDriver(c, cls=SubDict if sub else None, pool=PLAIN_HASH_KEYED, kinds=PLAIN_HASH_KINDS, big=big, keyed=keyed)
    return face, d


def clone_driver(d, res):
    e = copy.copy(d)
    e.weights = None
    if isinstance(d, ListDriver):
        e.sl, e.m = res, list(res)
    elif isinstance(d, SetDriver):
        e.x, e.s, e.order = res, set(d.s), list(res)
        e.bound = (res.isdisjoint, res.issubset, res.issuperset)
    else:
        e.x, e.d, e.order = res, dict(d.d), list(res)
    return e


NAMESPACE = {
    'SortedList': sut.SortedList, 'SortedKeyList': sut.SortedKeyList, 'SortedSet': sut.SortedSet, 'SortedDict': sut.SortedDict,
    'SubList': SubList, 'SubKeyList': SubKeyList, 'SubSet': SubSet, 'SubDict': SubDict, 'datetime': datetime,
    'Fraction': Fraction, 'inf': float('inf'),
}


def from_repr(x, key):
    text = repr(x)
    if key is not None:
        mark = repr(key)
        if mark not in text:
            fail('repr does not show the key function:', text)
        text = text.replace(mark, 'KEY')
    return eval(text, dict(NAMESPACE, KEY=key))


class FragileRepr:
    """repr fails while armed; ordered and hashed by v."""

    armed = False

    def __init__(self, v):
        self.v = v

    def __lt__(self, other):
        return self.v < other.v

    def __eq__(self, other):
        return isinstance(other, FragileRepr) and self.v == other.v

    def __hash__(self):
        return hash(self.v)

    def __repr__(self):
        if FragileRepr.armed and self.v == FragileRepr.armed:
            raise ZeroDivisionError('repr')
        return 'F%d' % self.v


def _self_repr(c):
    """Containers that contain themselves, directly or not."""
    n = c.int(0, 30)
    how = c.int(0, 3)
    if how == 0:
        x = sut.SortedKeyList(range(n), key=k_const)
        for _ in range(c.int(1, 3)):
            x.add(x)
    elif how == 1:
        x = sut.SortedDict((i, i) for i in range(n))
        x[c.int(0, 40)] = x
    elif how == 2:
        x = sut.SortedDict((i, i) for i in range(n))
        x[c.int(0, 40)] = [x, {'x': x}]
    else:
        y = sut.SortedKeyList(range(n), key=k_const)
        x = sut.SortedDict({1: y})
        y.add([x])
    try:
        a, b = repr(x), repr(x)
    except RecursionError:
        fail('repr of a container that contains itself does not end, way', how)
    c.check(a == b and '...' in a and len(a) < 4000, 'repr of a container that contains itself is', a)
    c.check(a.startswith(type(x).__name__ + '('), 'repr is', a)
    # a failing element repr must not leave the guard behind
    kind = c.int(0, 2)
    vals = [FragileRepr(i + 1) for i in range(c.int(1, 20))]
    bad = c.pick(vals).v
    z = (sut.SortedList, sut.SortedSet, dict.fromkeys)[kind](vals)
    if kind == 2:
        z = sut.SortedDict(z)
    before = repr(z)
    FragileRepr.armed = bad
    try:
        must_raise(ZeroDivisionError, repr, z, what='repr with a failing element')
    finally:
        FragileRepr.armed = False
    c.check(repr(z) == before, 'after a failed repr, repr is', repr(z), 'expected', before)
    c.tag('self-containing')


class Cell:
    """Ordered and hashed by v; holds a changeable box."""

    def __init__(self, v):
        self.v = v
        self.box = [v]

    def __lt__(self, other):
        return self.v < other.v

    def __le__(self, other):
        return self.v <= other.v

    def __eq__(self, other):
        return isinstance(other, Cell) and self.v == other.v

    def __hash__(self):
        return hash(self.v)

    def __repr__(self):
        return 'Cell(%r)' % self.v


def k_cell(cell):
    return -cell.v


def _depth(c):
    """Which copies share the elements themselves and which do not."""
    n = c.edge(1, 60)
    key = c.pick((None, k_cell))
    face = c.pick(('list', 'set', 'dict'))
    if face == 'dict' and c.int(0, 1):
        x = sut.SortedDict((i, Cell(i)) for i in range(n))
        cells = lambda y: list(y.values())
    else:
        x = make(face, key, [Cell(i) for i in range(n)])
        cells = list
    x._reset(c.pick(LOADS))
    how = c.int(0, 3)
    f = (copy.deepcopy, lambda x: pickle.loads(pickle.dumps(x, c.int(0, 5))), copy.copy, lambda x: x.copy())[how]
    what = ('copy.deepcopy', 'pickling', 'copy.copy', 'copy()')[how]
    y = f(x)
    a, b = cells(x), cells(y)
    c.note('%s of a %s of %d cells' % (what, face, n)) if c.verbose else None
    c.check(a == b, what, 'gave', b, 'expected', a)
    for u, v in zip(a, b):
        if how < 2:
            c.check(u is not v and u.box is not v.box and u.box == v.box, what, 'of a', type(x).__name__, 'shares its elements with the original')
        else:
            c.check(u is v, what, 'of a', type(x).__name__, 'does not hold the same objects')
    # one object met twice stays one object
    if how < 2:
        u = f(c.pick(([x, x], (x, x))))
        c.check(u[0] is u[1], what, 'of two references to one', type(x).__name__, 'gives two')
    y._check()
    c.tag('depth')


@prop(
    'C09',
    'A case is a container of one of the types or a subclass (with or without key), built by a history, then copied by copy(), copy.copy, '
    'copy.deepcopy, pickled with a random protocol and evaluated from its repr; every result is compared and then driven through a further history '
    'while the original must not change. One case in six builds self-containing containers, a failing element repr, or changeable elements to see which copies share them. '
    'Non-trivial: at least 3 sublists, or one of these special cases.',
    quick=96000,
    assumptions=['order among set members with equal sort keys is left free'],
)
def c09(c):
    special = c.int(0, 11)
    if special >= 10:
        (_self_repr if special == 11 else _depth)(c)
        c.nontrivial()
        return
    face, d = plain_driver(c)
    steps(c, d, 40, 8)
    x = obj_of(d)
    c.tag(type(x).__name__)
    if layout(x if face == 'list' else getattr(x, '_list', None)) >= 3:
        c.nontrivial()
    for _ in c.steps(5, 3):
        x = obj_of(d)
        before = content(x)
        how = c.int(0, 4)
        if how == 0:
            what, res = 'copy()', x.copy()
        elif how == 1:
            what, res = 'copy.copy', copy.copy(x)
        elif how == 2:
            what, res = 'copy.deepcopy', copy.deepcopy(x)
        elif how == 3:
            p = c.int(0, pickle.HIGHEST_PROTOCOL)
            what, res = 'pickle protocol %d' % p, pickle.loads(pickle.dumps(x, protocol=p))
        else:
            what, res = 'eval(repr)', from_repr(x, d.key)
        c.note(what) if c.verbose else None
        c.check(res is not x, what, 'gave the object itself')
        c.check(type(res) is type(x), what, 'gave a', type(res).__name__, 'instead of a', type(x).__name__)
        c.check(res.key is d.key, what, 'has key', res.key, 'instead of', d.key)
        after = content(res)
        if face == 'set':
            good = len(res) == len(x) and arranged(after, before, d.key)
        elif face == 'dict':
            good = len(res) == len(x) and arranged([k for k, _ in after], [k for k, _ in before], d.key) and dict.__eq__(res, d.d)
        else:
            good = len(res) == len(x) and same(after, before)
        if not good:
            fail(what, 'gave', after, 'expected', before)
        c.check((res == x) is True and (res != x) is False, what, 'is not equal to the original')
        if how <= 1 and face == 'list' and not identical(after, before):
            fail(what, 'does not hold the same objects')
        if how == 2 and face == 'list' and before and type(before[0]) in (list, dict) and after[0] is before[0]:
            fail(what, 'shares its elements with the original')
        if d.can_check:
            res._check()
        e = clone_driver(d, res)
        steps(c, e, 8, 3)
        coherent(obj_of(e), 'the result of ' + what)
        now = content(obj_of(d))
        if not same(now, before):
            fail('using the result of', what, 'changed the original from', before, 'to', now)
        if c.int(0, 1):
            mine = content(obj_of(e))
            steps(c, d, 4, 2)
            if not same(content(obj_of(e)), mine):
                fail('using the original changed the result of', what, 'from', mine, 'to', content(obj_of(e)))


# ---------------------------------------------------------------------------


class Pool:
    """Live objects that must not influence each other."""

    def __init__(self, c):
        self.c = c
        keyed = c.int(0, 1)
        if keyed:
            self.kind, self.key, self.can_check = c.pick([t for t in HASH_KEYED if t[0] in HASH_KINDS and t[1] is not k_cmp])
        else:
            self.kind, self.key = c.pick(HASH_KINDS), None
            self.can_check = self.kind.le
        self.gen = Gen(c, self.kind, span=c.pick((8, 20, 60, 200)), big=False)
        self.objects = []  # [name, object, snapshot]
        self.count = 0
        if c.int(0, 2):
            sut.SortedList.DEFAULT_LOAD_FACTOR = c.pick(LOADS)

    @staticmethod
    def snap(x):
        if isinstance(x, sut.SortedDict):
            return [(k, dict.__getitem__(x, k)) for k in x], dict.copy(x)
        if isinstance(x, sut.SortedSet):
            return list(x), {v for v in x}, len(x)
        if isinstance(x, dict):
            return list(x.items())
        if isinstance(x, set):
            return set(x)
        return list(x)

    def enter(self, x, what):
        self.count += 1
        name = '#%d' % self.count
        self.c.note('%s = %s -> %s %s' % (name, what, type(x).__name__, short(x, 120))) if self.c.verbose else None
        self.objects.append([name, x, self.snap(x)])
        if len(self.objects) > 7:
            del self.objects[self.c.int(0, len(self.objects) - 2)]

    def verify(self, changed, what):
        for o in self.objects:
            now = self.snap(o[1])
            if o is changed:
                o[2] = now
            elif not equal(now, o[2]):
                fail(what, 'changed', o[0], '(a %s)' % type(o[1]).__name__, 'from', o[2], 'to', now)
            if isinstance(o[1], (sut.SortedList, sut.SortedSet, sut.SortedDict)) and (o is changed or not self.c.int(0, 7)):
                coherent(o[1], 'after %s, %s' % (what, o[0]))

    def some(self, types=None):
        cand = [o for o in self.objects if types is None or isinstance(o[1], types)]
        return self.c.pick(cand) if cand else None

    def fresh(self):
        c = self.c
        vals = self.gen.initial()
        key = self.key if c.int(0, 2) else None
        how = c.int(0, 6)
        if how == 0:
            return list(vals), 'list'
        if how == 1:
            return set(vals), 'set'
        if how == 2:
            return dict.fromkeys(vals, 0), 'dict'
        if how <= 4:
            x = sut.SortedList(vals, key=key)
        elif how == 5:
            x = sut.SortedSet(vals, key=key)
        else:
            x = sut.SortedDict(key, dict.fromkeys(vals, 0))
        x._reset(c.pick(LOADS))
        return x, 'new'

    def bounds(self, x):
        """A slice, preferably one that falls on sublist borders."""
        c, n = self.c, len(x)
        inner = x if isinstance(x, sut.SortedList) else getattr(x, '_list', None)
        sizes = [len(s) for s in getattr(inner, '_lists', ())]
        if sizes and c.int(0, 1):
            i = c.int(0, len(sizes) - 1)
            j = c.int(i, len(sizes) - 1)
            a, b = sum(sizes[:i]), sum(sizes[: j + 1])
            return slice(a if a or c.int(0, 1) else None, b if b < n or c.int(0, 1) else None, c.pick((None, 1, -1)))
        return slice(c.pick((None, 0, c.int(0, n))), c.pick((None, n, c.int(0, n))), c.pick((None, 1, 2, -1)))

    def derive(self):
        c = self.c
        o = self.some()
        name, x, _ = o
        p = self.some()
        pname, y, _ = p
        key = self.key if c.int(0, 1) else None
        ways = ['list()', 'SortedList()', 'SortedSet()', 'copy']
        if isinstance(y, dict):
            ways += ['SortedDict()', 'SortedDict()']
        if isinstance(x, sut.SortedList):
            ways += ['slice', 'slice', 'slice', '+', '*', 'radd']
        if isinstance(x, sut.SortedSet):
            ways += ['slice', 'slice', 'method', 'method', 'operator', 'operator', 'rop']
        if isinstance(x, sut.SortedDict):
            ways += ['keys slice', 'items slice', 'values slice', 'keys op', '|', 'fromkeys']
        way = c.pick(ways)
        what = '%s of %s with %s' % (way, name, pname)
        if way == 'list()':
            res = list(x)
        elif way == 'SortedList()':
            res = sut.SortedList(x, key=key)
        elif way == 'SortedSet()':
            res = sut.SortedSet(x, key=key)
        elif way == 'copy':
            res = c.pick((copy.copy, copy.copy, copy.deepcopy))(x)
        elif way == 'SortedDict()':
            kw = self.keywords()
            what += ' and %d keywords' % len(kw)
            res = sut.SortedDict(key, y, **kw)
        elif way == 'slice':
            s = self.bounds(x)
            what += ' %s' % s
            res = x[s]
        elif way == '+':
            res = x + y
        elif way == 'radd':
            res = list(y) + x
        elif way == '*':
            res = x * c.pick((1, 1, 2, 0)) if len(x) < 500 else x * 1
        elif way == 'method':
            m = c.pick(('union', 'intersection', 'difference', 'symmetric_difference'))
            args = [y] if m == 'symmetric_difference' or c.int(0, 2) else []
            what += ' %s%s' % (m, '' if args else ' without arguments')
            res = getattr(x, m)(*args)
        elif way == 'operator':
            op = c.pick((operator.or_, operator.and_, operator.sub, operator.xor))
            what += ' ' + op.__name__
            res = op(x, set(y) if not isinstance(y, (set, sut.SortedSet)) else y)
        elif way == 'rop':
            op = c.pick((operator.or_, operator.and_, operator.sub, operator.xor))
            what += ' ' + op.__name__
            res = op(set(y) if not isinstance(y, set) else y, x)
        elif way.endswith('slice'):
            s = self.bounds(x)
            what += ' %s' % s
            res = getattr(x, way.split()[0])()[s]
            if not way.startswith('keys'):
                res = list(res)
                if way.startswith('items'):
                    res = [k for k, _ in res]
                else:
                    res = [x.keys()[0] for _ in res]
        elif way == 'keys op':
            op = c.pick((operator.or_, operator.and_, operator.sub, operator.xor))
            res = op(x.keys(), set(y))
        elif way == '|':
            res = x | (y if isinstance(y, dict) else dict.fromkeys(y))
        else:
            res = type(x).fromkeys(y)
        if res is x or res is y:
            fail(what, 'is the argument itself')
        self.verify(None, what)
        if isinstance(res, (sut.SortedList, sut.SortedSet, sut.SortedDict)) and c.int(0, 1):
            res._reset(c.pick(LOADS))
            self.verify(None, what + ' and _reset of the result')
        if len(res) <= 1500:
            self.enter(res, what)

    def misfit(self):
        """A derivation with an operand that may hold a value that cannot be ordered: it may fail, nothing may change."""
        c = self.c
        x, y = self.some(), self.some()
        name, x, _ = x
        vals = list(y[1])
        for _ in range(c.int(1, 2)):
            vals.insert(c.edge(0, len(vals)), c.pick((None, 1j, Ellipsis, b'q')))
        if isinstance(x, sut.SortedList):
            what, fn, arg = c.pick((
                ('+', operator.add, vals), ('reflected +', lambda x, a: a + x, vals), ('+ a tuple', operator.add, tuple(vals)),
                ('SortedList', lambda x, a: sut.SortedList(a, key=x.key), vals),
            ))
        elif isinstance(x, dict):
            arg = dict.fromkeys(vals, 0)
            what, fn = c.pick((('|', operator.or_), ('reflected |', lambda x, a: a | x), ('SortedDict', lambda x, a: sut.SortedDict(getattr(x, 'key', None), a)), ('keys |', lambda x, a: x.keys() | a)))
        elif isinstance(x, (set, sut.SortedSet)):
            arg = set(vals)
            what, fn = c.pick((('|', operator.or_), ('reflected |', lambda x, a: a | x), ('^', operator.xor), ('union', lambda x, a: x.union(a)), ('-', operator.sub), ('<=', operator.le)))
        else:
            what, fn, arg = 'SortedList + list', lambda x, a: sut.SortedList(x) + a, vals
        what = '%s of %s with the values of %s and a misfit' % (what, name, y[0])
        before = self.snap(arg)
        c.note(what) if c.verbose else None
        try:
            fn(x, arg)
        except Exception:
            self.c.tag('misfit refused')
        self.verify(None, what)
        if not equal(self.snap(arg), before):
            fail(what, 'changed its argument from', before, 'to', self.snap(arg))

    def keywords(self):
        if self.kind.name not in ('str', 'letters') or self.c.int(0, 1):
            return {}
        return {v: 'kw' for v in [self.gen.value() for _ in range(self.c.int(0, 4))]}

    def mutate(self):
        c = self.c
        o = self.some()
        name, x, _ = o
        how = c.int(0, 6)
        gen = self.gen
        if isinstance(x, list):
            what = '%s (list) mutation %d' % (name, how)
            if how <= 1:
                x.append(gen.value())
            elif how == 2:
                x.clear()
            elif how == 3:
                x.reverse()
            elif x:
                del x[c.edge(0, len(x) - 1)]
        elif isinstance(x, (sut.SortedList, sut.SortedSet)):
            if how == 0 and isinstance(x, sut.SortedSet) and c.int(0, 1):
                p, q = self.some(), self.some()
                m = c.pick(('update', 'difference_update', 'intersection_update'))
                what = '%s.%s(%s, %s)' % (name, m, p[0], q[0])
                getattr(x, m)(p[1], q[1])
            elif how == 0:
                p = self.some()
                what = '%s.update(%s)' % (name, p[0])
                x.update(p[1])
            elif how == 1 and isinstance(x, sut.SortedSet):
                p = self.some()
                m = c.pick(('difference_update', 'intersection_update', 'symmetric_difference_update'))
                what = '%s.%s(%s)' % (name, m, p[0])
                getattr(x, m)(p[1])
            elif how == 1:
                p = self.some()
                what = '%s += %s' % (name, p[0])
                x += p[1]
            else:
                face = 'list' if isinstance(x, sut.SortedList) else 'set'
                text, fn = Calls(c, face, self.kind, x.key, gen).write(list(x))
                what = '%s: %s' % (name, text_of(text) if c.verbose else '')
                outcome(fn, x)
        elif isinstance(x, sut.SortedDict):
            p = self.some(dict)
            if how == 0:
                kw = self.keywords()
                what = '%s.update(%s) and %d keywords' % (name, p[0], len(kw))
                x.update(p[1], **kw)
            elif how == 1:
                what = '%s |= %s' % (name, p[0])
                x |= p[1]
            else:
                text, fn = Calls(c, 'dict', self.kind, x.key, gen).write(list(x))
                what = '%s: %s' % (name, text_of(text) if c.verbose else '')
                outcome(fn, x)
        elif isinstance(x, set):
            what = '%s (set) mutation %d' % (name, how)
            if how <= 1:
                x.add(gen.value())
            elif how == 2:
                x.clear()
            elif x and how <= 4:
                x.discard(sorted(x)[0])
            else:
                x.update(gen.values()[:20])
        else:
            what = '%s (dict) mutation %d' % (name, how)
            if how <= 1:
                x[gen.value()] = how
            elif how == 2:
                x.clear()
            elif x and how <= 4:
                x.popitem()
            else:
                x.update(dict.fromkeys(gen.values()[:20], 7))
        c.note(what) if c.verbose else None
        self.verify(o, what)
        if len(x) > 2500:
            x.clear()
            self.verify(o, 'clear')
        if isinstance(x, (sut.SortedList, sut.SortedSet, sut.SortedDict)) and self.kind.le and self.can_check and c.int(0, 3) == 3:
            x._check()


@prop(
    'C10',
    'A case is a pool of live objects (sorted lists, sorted key lists, sorted sets, sorted dicts, plain lists, sets, dicts). Steps derive a new object from pool members '
    '(construction, 40 operators and methods, slices on and off sublist borders, copies) or mutate one member, possibly with another (or itself) as argument; after every '
    'step all other members must equal their snapshots. Non-trivial: at least 3 derivations and 3 mutations.',
    quick=64000,
)
def c10(c):
    p = Pool(c)
    for _ in range(2):
        x, what = p.fresh()
        p.enter(x, what)
    derived = mutated = 0
    for _ in c.steps(80, 22):
        r = c.int(0, 10)
        if r == 10:
            p.misfit()
        elif r < 5:
            p.derive()
            derived += 1
        elif r < 9:
            p.mutate()
            mutated += 1
        else:
            x, what = p.fresh()
            p.enter(x, what)
    if derived >= 3 and mutated >= 3:
        c.nontrivial()


# ---------------------------------------------------------------------------


class Face:
    """The sorted-list methods of a set or dict, some of them bound earlier."""

    def __init__(self, x, keyed, positional=None):
        self.x = x
        self.keyed = keyed
        names = ['bisect_left', 'bisect_right', 'bisect', 'index', 'irange', 'islice']
        if keyed:
            names += ['bisect_key_left', 'bisect_key_right', 'bisect_key', 'irange_key']
        if isinstance(x, sut.SortedSet):
            names += ['isdisjoint', 'issubset', 'issuperset']
        for name in names:
            setattr(self, name, getattr(x, name))

    def __contains__(self, v):
        return v in self.x

    def count(self, v):
        return self.x.count(v) if isinstance(self.x, sut.SortedSet) else self.x.keys().count(v)

    def __getitem__(self, i):
        return self.x[i] if isinstance(self.x, sut.SortedSet) else self.x.keys()[i]

    def __reversed__(self):
        return reversed(self.x)


class Probe:
    """What read_lookup, read_range and read_positional need."""

    def __init__(self, d, face):
        self.c, self.d, self.sl = d.c, d, face
        self.key, self.kind, self.gen = d.key, d.kind, d.gen

    @property
    def m(self):
        return self.d.order

    def k(self, v):
        return v if self.key is None else self.key(v)

    def present(self):
        return self.d.present()

    index = ListDriver.index
    slice = ListDriver.slice


def relations(c, d, face):
    vals = d.order[c.edge(0, len(d.order)) :][: c.int(0, 20)]
    if c.int(0, 2):
        vals = vals + d.gen.values()[: c.int(0, 20)]
    if c.int(0, 3) == 3:
        vals = vals + d.order
    s = set(d.order)
    arg = as_iterable(c, vals)
    arg = list(arg) if iter(arg) is arg else arg
    for name in ('isdisjoint', 'issubset', 'issuperset'):
        got, want = getattr(face, name)(arg), getattr(s, name)(vals)
        if got is not want:
            fail('%s(%s)' % (name, short(vals)), 'gave', got, 'expected', want, 'for', d.order)


@prop(
    'C17',
    'A case is a SortedSet or SortedDict whose sorted-list methods are bound at the start and again at random points; between mutations (all mutators, incl. bulk, in-place '
    'set operators, clear, view deletion, _reset) every bound generation is queried with random probes, windows and ranges, judged against a plain list of the current content. '
    'Non-trivial: at least 3 mutations and 5 queries through methods bound before the last mutation, at least 2 sublists.',
    quick=120000,
)
def c17(c):
    if c.int(0, 1):
        d = SetDriver(c, big=c.int(0, 5) == 5, cls=c.pick((None, SubSet)))
        ops = SET_OPS if c.int(0, 1) else SET_GROW
    else:
        d = DictDriver(c, big=c.int(0, 5) == 5, cls=c.pick((None, SubDict)))
        ops = DICT_OPS if c.int(0, 1) else DICT_GROW
    keyed = d.key is not None
    faces = [Face(d.x, keyed)]
    reads = 0
    most = 0
    for _ in c.steps(120, 30):
        r = c.int(0, 9)
        if r < 6:
            f = c.pick(faces)
            if isinstance(d.x, sut.SortedSet) and c.int(0, 3) == 3:
                relations(c, d, f)
            p = Probe(d, f)
            how = c.int(0, 4)
            if how <= 1:
                c.again('lookup', read_lookup, c, p)
            elif how <= 3:
                c.again('range', read_range, c, p)
            else:
                c.again('positional', read_positional, c, p.sl, p.m, p.index, p.slice)
            reads += d.mutations > 0
        elif r == 6 and len(faces) < 6:
            faces.append(Face(d.x, keyed))
        else:
            d.step(ops)
            most = max(most, layout(getattr(d.x, '_list', None)))
    for name in ('bisect_key_left', 'bisect_key_right', 'bisect_key', 'irange_key'):
        if not keyed:
            c.check(not hasattr(d.x, name), 'without a key function the container offers', name)
    c.tag(type(d.x).__name__)
    c.tag('keyed' if keyed else 'plain')
    if d.mutations >= 3 and reads >= 5 and most >= 2:
        c.nontrivial()


# ---------------------------------------------------------------------------


def twin_setup(c, face=None, big=None):
    face = face or pick_face(c)
    if face == 'list':
        if c.int(0, 1):
            kind, key, can = c.pick(KEYED)
        else:
            kind, key = c.pick(LIST_KINDS), None
            can = kind.le
    else:
        if c.int(0, 1):
            kind, key, can = c.pick(HASH_KEYED)
        else:
            kind, key = c.pick(HASH_KINDS), None
            can = kind.le
    gen = Gen(c, kind, big=c.int(0, 7) == 7 if big is None else big)
    return face, kind, key, can, gen


class LowList(sut.SortedList):
    DEFAULT_LOAD_FACTOR = 4


class LowKeyList(sut.SortedKeyList):
    DEFAULT_LOAD_FACTOR = 5


@prop(
    'C20',
    'A case is two containers of any type given the same contents and the same calls (all reads and writes) while only their load factors differ: set by _reset at any time, '
    'by the class default, or by a subclass. Results, exception types and contents (by object identity for distinguishable elements) are compared at every step. '
    'Non-trivial: the two had different numbers of sublists while at least 5 calls were compared.',
    quick=48000,
)
def c20(c):
    face, kind, key, can, gen = twin_setup(c)
    vals = gen.initial()
    cls = None
    if c.int(0, 2):
        sut.SortedList.DEFAULT_LOAD_FACTOR = c.pick(LOADS)
    if face == 'list' and c.int(0, 3) == 3:
        cls = LowList if key is None else LowKeyList
    b = make(face, key, vals, cls)
    sut.SortedList.DEFAULT_LOAD_FACTOR = sut.DEFAULT_LOAD
    a = make(face, key, vals)
    loads = [c.pick(LOADS), c.pick(LOADS)]
    if c.int(0, 2):
        b._reset(loads[0])
    if c.int(0, 2) == 0:
        a._reset(loads[1])
    c.note('%s of %s, key %s, values %s' % (face, kind, getattr(key, '__name__', key), short(vals))) if c.verbose else None
    calls = Calls(c, face, kind, key, gen)
    order = list(a)
    bound = {n: (getattr(a, n), getattr(b, n)) for n in ('bisect_left', 'bisect_right', 'index')}
    views = ((a.keys(), b.keys()), (a.items(), b.items()), (a.values(), b.values())) if face == 'dict' else ()
    compared = differ = 0
    names = {type(a).__name__, type(b).__name__}

    def strip(o):
        # results are of the twin's own class, whose name may differ
        if o[0] == 'ok' and isinstance(o[1], tuple) and o[1] and o[1][0] in names:
            return (o[0], ('same class',) + o[1][1:])
        if o[0] == 'ok' and isinstance(o[1], tuple) and o[1] and o[1][0] == 'str':
            for n in names:
                if o[1][1].startswith(n + '('):
                    return (o[0], o[1][1][len(n) :])
        return o

    for _ in c.steps(100, 28):
        r = c.int(0, 11)
        if r < 2:
            text, fn = calls.reset()
            who = c.pick((a, b))
            c.note('%s on twin %s' % (text, 'ab'[who is b])) if c.verbose else None
            fn(who)
            ra = rb = None
        else:
            write = r >= 7
            text, fn = calls.write(order) if write else c.again('read', calls.read, order)
            c.note(text_of(text)) if c.verbose else None
            ra, rb = strip(outcome(fn, a)), strip(outcome(fn, b))
            if not equal(ra, rb):
                fail(text_of(text), ': load factors', a._list._load if face != 'list' else a._load, 'and', b._list._load if face != 'list' else b._load, 'give', ra, 'and', rb)
            compared += 1
        ca, cb = content(a), content(b)
        if not equal(ca, cb) or len(a) != len(b) or len(a) != len(ca):
            fail('after', text_of(text), ': twins hold', ca, 'and', cb)
        order = list(a)
        for va, vb in views:
            if len(va) != len(vb) or not equal(list(va[:3]), list(vb[:3])):
                fail('after', text_of(text), ': views taken before differ:', list(va), list(vb))
        if order:
            v = order[c.int(0, len(order) - 1)]
            for n, (fa, fb) in bound.items():
                if fa(v) != fb(v):
                    fail('after', text_of(text), ':', n, 'taken before differs for', v, ':', fa(v), fb(v))
        la, lb = (layout(a), layout(b)) if face == 'list' else (layout(getattr(a, '_list', None)), layout(getattr(b, '_list', None)))
        differ += la != lb
    if can:
        a._check()
        b._check()
    c.tag(face)
    if differ >= 3 and compared >= 5:
        c.nontrivial()


# ---------------------------------------------------------------------------


def _iterators(c, calls, order, x):
    """(text, iterator) whose full output is known from `order`."""
    n = len(order)
    key = calls.key
    how = c.int(0, 4)
    if how == 0:
        return 'iter', iter(x), list(order)
    if how == 1:
        return 'reversed', reversed(x), order[::-1]
    if how == 2:
        a, b = sorted((c.int(0, n), c.int(0, n)))
        rev = bool(c.int(0, 1))
        want = order[a:b]
        return 'islice(%d, %d, %s)' % (a, b, rev), x.islice(a, b, rev), want[::-1] if rev else want
    if how == 3 and n:
        i, j = sorted((c.int(0, n - 1), c.int(0, n - 1)))
        lo, hi = order[i], order[j]
        rev = bool(c.int(0, 1))
        if lo is None or hi is None:  # an element that is None cannot serve as a bound
            return 'iter', iter(x), list(order)
        want = in_range(order, calls.k(lo), calls.k(hi), (True, True), key)
        return 'irange', x.irange(lo, hi, (True, True), rev), want[::-1] if rev else want
    if calls.face == 'dict':
        name = c.pick(('keys', 'items', 'values'))
        got = {'keys': list(order), 'items': [(k, x[k]) for k in order], 'values': [x[k] for k in order]}[name]
        return 'iter(%s())' % name, iter(getattr(x, name)()), got
    return 'iter', iter(x), list(order)


@prop(
    'C24',
    'A case is twin containers given the same writes; between writes one twin also serves random reads, some of them repeated later, while several half-consumed iterators '
    '(plain, reversed, islice, irange, views) are advanced in turns and must deliver precomputed answers. Contents are compared by identity after every read, and with the '
    'unread twin after every write. Non-trivial: at least 2 writes, 6 reads and 2 interleaved iterators.',
    quick=80000,
)
def c24(c):
    face, kind, key, can, gen = twin_setup(c)
    vals = gen.initial()
    if c.int(0, 1):
        sut.SortedList.DEFAULT_LOAD_FACTOR = c.pick(LOADS)
    a, b = make(face, key, vals), make(face, key, vals)
    load = c.pick(LOADS)
    a._reset(load)
    b._reset(load)
    c.note('%s of %s, key %s, load %s, values %s' % (face, kind, getattr(key, '__name__', key), load, short(vals))) if c.verbose else None
    calls = Calls(c, face, kind, key, gen)
    order = list(a)
    writes = reads = iters = 0
    running, remembered = [], []

    def finish():
        for text, it, want, pos in running:
            rest = list(it)
            if not same(rest, want[pos:]):
                fail('iterator', text, 'delivered', rest, 'after', pos, 'values, expected', want[pos:])
        running.clear()
        for text, fn, want in remembered:
            got = outcome(fn, b)
            if not equal(got, want):
                fail('the read', text_of(text), 'first gave', want, 'and later', got)
        remembered.clear()

    for _ in c.steps(110, 32):
        r = c.int(0, 13)
        if r < 6:
            text, fn = c.again('read', calls.read, order)
            c.note('read ' + text_of(text)) if c.verbose else None
            before = content(b)
            got = outcome(fn, b)
            after = content(b)
            if not equal(before, after) or len(b) != len(before):
                fail('the read', text_of(text), 'changed the container from', before, 'to', after)
            if len(remembered) < 6:
                remembered.append((text, fn, got))
            reads += 1
        elif r < 9:
            if len(running) < 5:
                text, it, want = _iterators(c, calls, order, b)
                c.note('start iterator ' + text) if c.verbose else None
                running.append([text, it, want, 0])
                iters += 1
        elif r < 12:
            if running:
                e = c.pick(running)
                for _ in range(c.int(1, 6)):
                    if e[3] >= len(e[2]):
                        break
                    v = next(e[1], 'exhausted')
                    if not (v is e[2][e[3]] or v == e[2][e[3]]):
                        fail('iterator', e[0], 'delivered', v, 'at', e[3], 'expected', e[2][e[3]])
                    e[3] += 1
        else:
            finish()
            text, fn = calls.write(order, grow=c.int(0, 1) == 1)
            c.note('write ' + text_of(text)) if c.verbose else None
            ra, rb = outcome(fn, a), outcome(fn, b)
            if not equal(ra, rb):
                fail('after reads,', text_of(text), 'gives', rb, 'and without the reads', ra)
            writes += 1
            ca, cb = content(a), content(b)
            if not equal(ca, cb) or len(a) != len(b):
                fail('after', text_of(text), ': with reads', cb, 'without reads', ca)
            order = list(a)
    finish()
    if can:
        b._check()
    c.tag(face)
    if writes >= 2 and reads >= 6 and iters >= 2:
        c.nontrivial()
