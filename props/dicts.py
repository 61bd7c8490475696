"""C14..C16: SortedDict and its views."""
import operator
import types
import warnings
from collections import ChainMap, OrderedDict, UserDict, defaultdict
from collections.abc import Mapping

from vt import sut
from vt.calls import coherent
from vt.domains import HASH_KEYED, HASH_KINDS, LOADS, Gen, PlainSet, arranged, as_iterable, k_const, k_neg, must_raise, same
from vt.engine import fail, prop, short
from vt.listdrv import ListDriver, layout

LIMIT = 5000

# a dict takes any name as a keyword
PARAMETER_NAMES = ('self', 'cls', 'args', 'kwargs', 'key', 'iterable', 'other', 'pairs', 'E', 'class')


class MissingDict(sut.SortedDict):
    """Subclass with the dict hook for absent keys."""

    def __missing__(self, key):
        return ('missing', key)


class SubDict(sut.SortedDict):
    pass


def k_rank(k):
    """Some order of its own, for keys of any kind."""
    return hash(k) * 7919 % 101


# hashable values that fit no order
UNHASHABLE = ([], {}, set(), bytearray(), ([],))
STRANGERS = (None, 'q!', b'q!', 2.5j, (None,), object(), frozenset([None]), -77.25, type)


class Keysy:
    """The least that dict(...) accepts as a mapping: keys() and []."""

    def __init__(self, d):
        self._d = dict(d)

    def keys(self):
        return list(self._d)

    def __getitem__(self, k):
        return self._d[k]


class Cart(Keysy):
    """Its other attributes mean something else."""

    items = ()
    values = None
    copy = update = __len__ = __iter__ = None


class PlainMap(Mapping):
    """A mapping with nothing but the abstract base class (no | of its own)."""

    def __init__(self, d):
        self._d = dict(d)

    def __getitem__(self, k):
        return self._d[k]

    def __iter__(self):
        return iter(self._d)

    def __len__(self):
        return len(self._d)

    def __repr__(self):
        return 'PlainMap(%r)' % (self._d,)


class UserMap(UserDict):
    pass


class Agreeable:
    """Equal to everything, as a default value may be."""

    def __eq__(self, other):
        return True

    __hash__ = None

    def __repr__(self):
        return 'AGREEABLE'


AGREEABLE = Agreeable()


class DictDriver:
    """A SortedDict and a built-in dict put through the same history."""

    def __init__(self, c, cls=None, pool=None, kinds=None, loads=None, big=True, keyed=None, tame=False, huge=0):
        self.c = c
        keyed = c.int(0, 1) if keyed is None else keyed
        if keyed:
            self.kind, self.key, self.can_check = c.pick(pool or HASH_KEYED)
        else:
            self.kind, self.key = c.pick(kinds or HASH_KINDS), None
            self.can_check = self.kind.le
        self.gen = Gen(c, self.kind, big=big, huge=huge, key=self.key)
        self.load = c.pick(loads or LOADS)
        if c.int(0, 1):
            sut.SortedList.DEFAULT_LOAD_FACTOR = self.load
        self.serial = 0
        self.none_ok = not tame
        # in some cases part of the values are false, None or unhashable
        self.odd = self.odd_values(tame) if c.int(0, 2) == 0 else None
        init = self.pairs(self.gen.initial())
        self.d = dict(init)
        self.x = self.build(cls or sut.SortedDict, init)
        self.weights = None
        self.mutations = 0
        if c.verbose:
            c.note(
                'new %s kind=%s key=%s load=%s items=%s'
                % (type(self.x).__name__, self.kind, getattr(self.key, '__name__', self.key), self.load, short(init, 250))
            )
        self.verify('constructor')

    def odd_values(self, tame):
        return (0,) if tame else (0, None, '', False, (), [], 0.0, {})

    def fresh(self):
        """A value: a new number, now and then something false."""
        self.serial += 1
        if self.odd and self.c.int(0, 3) == 0:
            return self.c.pick(self.odd)
        return self.serial

    def pairs(self, keys):
        return [(k, self.fresh()) for k in keys]

    def build(self, cls, pairs):
        c = self.c
        mode = c.int(0, 4)
        front = () if self.key is None and c.int(0, 1) else (self.key,)
        if mode == 0:
            x = cls(*front, pairs)
        elif mode == 1:
            x = cls(*front)
            x._reset(self.load)
            x.update(pairs)
        elif mode == 2:
            x = cls(*front, dict(pairs))
        elif mode == 3:
            x = cls(*front)
            x._reset(self.load)
            if len(pairs) > 400:
                x.update(pairs)
            else:
                for k, v in pairs:
                    x[k] = v
        else:
            x = cls(*front, iter(pairs))
        x._reset(self.load)
        return x

    @property
    def m(self):
        return self.order

    index = ListDriver.index
    slice = ListDriver.slice
    choose = ListDriver.choose

    def step(self, ops):
        op = self.choose(ops)
        getattr(self, 'op_' + op)()

    def did(self, what):
        self.mutations += 1
        if self.c.verbose:
            self.c.note(what)
        self.verify(what)

    def expected(self):
        return sorted(self.d, key=self.key)

    def verify(self, what):
        x, d = self.x, self.d
        real = list(x)
        if len(x) != len(d):
            fail('after', what, ': len is', len(x), 'expected', len(d))
        if not arranged(real, self.expected(), self.key):
            fail('after', what, ': iteration gives', real, 'expected', self.expected())
        if not dict.__eq__(x, d):
            fail('after', what, ': holds', dict.copy(x), 'expected', d)
        self.order = real

    def deep(self):
        c, x, d, m = self.c, self.x, self.d, self.order
        n = len(m)
        form = c.int(0, 5)
        # any dict type, in any order of the keys, is compared by content
        if form == 0:
            make = dict
        elif form == 1:
            make = lambda e: dict(reversed(list(e.items())))
        elif form == 2:
            make = OrderedDict if c.int(0, 1) else lambda e: OrderedDict(reversed(list(e.items())))
        else:
            key = self.key if form == 3 else k_rank if form == 4 else k_const
            make = lambda e: (SubDict if c.int(0, 1) else sut.SortedDict)(key, e)
        e = make(d)
        c.check((x == e) is True and (e == x) is True, '== with the equal', type(e).__name__, 'is not True', e)
        c.check((x != e) is False and (e != x) is False, '!= with the equal', type(e).__name__, 'is not False', e)
        if m:
            e = make(d)
            k = m[c.edge(0, n - 1)]
            if c.int(0, 1):
                del e[k]
            else:
                e[k] = 'other'
            c.check((x == e) is False and (e == x) is False, '== with a different dict is not False', e)
            c.check((x != e) is True and (e != x) is True, '!= with a different dict is not True', e)
        c.check(list(reversed(x)) == m[::-1], 'reversed gives', list(reversed(x)), 'expected', m[::-1])
        c.check(same(list(x.items()), [(k, d[k]) for k in m]), 'items() is', list(x.items()), 'for', d)
        c.check(same(list(x.values()), [d[k] for k in m]), 'values() is', list(x.values()), 'for', d)
        c.check(same(list(x.keys()), m), 'keys() is', list(x.keys()), 'for', m)
        for k in m if n < 40 else m[:: n // 20]:
            c.check(k in x and x[k] == d[k] and x.get(k) == d[k], short(k), 'does not map to', d[k])
        hook = hasattr(type(x), '__missing__')
        for _ in range(3):
            k = self.gen.value()
            if k in d:
                c.check(k in x and x[k] == d[k] and x.get(k, 'no') == d[k], short(k), 'maps to', x[k], 'expected', d[k])
            else:
                c.check(k not in x, short(k), 'is in the dict but should not be')
                c.check(x.get(k) is None and x.get(k, 'no') == 'no', 'get of an absent key gives', x.get(k))
                if hook:
                    c.check(x[k] == ('missing', k), '__missing__ is not honoured:', x[k])
                    c.check(k not in x, 'reading an absent key stored it')
                else:
                    must_raise(KeyError, x.__getitem__, k, what='[] of an absent key')
        a = c.pick(STRANGERS)
        if a not in d:
            c.note('ask for %r' % (a,)) if c.verbose else None
            c.check((a in x) is False and a not in x.keys(), a, 'in x ->', a in x)
            c.check(x.get(a, 7) == 7 and x.pop(a, 8) == 8, 'get or pop of an absent', a, 'does not give the default')
            must_raise(KeyError, x.pop, a, what='pop of an absent %r' % (a,))
            must_raise(KeyError, x.__delitem__, a, what='del of an absent %r' % (a,))
            if not hook:
                must_raise(KeyError, x.__getitem__, a, what='[] of an absent %r' % (a,))
        if not c.int(0, 7):
            a = c.pick(UNHASHABLE)
            c.note('ask for %r' % (a,)) if c.verbose else None
            for f in (x.__contains__, x.get, x.__getitem__, x.setdefault, x.__delitem__, x.keys().__contains__):
                must_raise(TypeError, f, a, what='%s of the unhashable %r' % (f.__name__, a))
            if n:  # dict does not look at the key when empty
                must_raise(TypeError, x.pop, a, what='pop of the unhashable %r' % (a,))
                must_raise(TypeError, x.pop, a, None, what='pop of the unhashable %r' % (a,))
            must_raise(TypeError, x.__setitem__, a, 1, what='[] = under the unhashable %r' % (a,))
        i = self.index()
        if -n <= i < n:
            got = x.peekitem(i)
            c.check(same(list(got), [m[i], d[m[i]]]), 'peekitem(%d)' % i, 'gave', got, 'of', n)
            c.check(x.peekitem()[0] == m[-1], 'peekitem() gave', x.peekitem())
        else:
            must_raise(IndexError, x.peekitem, i, what='peekitem(%d) of %d' % (i, n))
        c.check(x.key is self.key, 'key is', x.key)
        if self.can_check:
            x._check()

    def present(self):
        c = self.c
        if self.order and c.int(0, 5):
            return self.order[c.edge(0, len(self.order) - 1)]
        return self.gen.value()

    # -- mutations ------------------------------------------------------
    def op_set(self):
        k = self.gen.value() if self.c.int(0, 3) else self.present()
        v = self.fresh()
        self.x[k] = v
        self.d[k] = v
        self.did('[%s] = %s' % (short(k, 60), v))

    def op_burst_set(self):
        ps = self.pairs(self.gen.pattern(self.c.int(1, 45)))
        for k, v in ps:
            self.x[k] = v
            self.d[k] = v
        self.did('set each of %s' % short(ps))

    def op_swap(self):
        """One key goes, another comes: the size stays."""
        if self.order:
            k = self.c.pick(self.order)
            self.c.note('del [%s]' % short(k, 60)) if self.c.verbose else None
            del self.x[k]
            del self.d[k]
        k = self.gen.value()
        v = self.fresh()
        self.x[k] = self.d[k] = v
        self.did('and [%s] = %s' % (short(k, 60), v))

    def op_del(self):
        k = self.present()
        self.c.note('del [%s]' % short(k, 60)) if self.c.verbose else None
        if k in self.d:
            del self.x[k]
            del self.d[k]
        else:
            must_raise(KeyError, self.x.__delitem__, k, what='del of an absent key')
        self.did('del [k]')

    def op_burst_del(self):
        c, n = self.c, len(self.order)
        at = c.edge(0, n)
        ks = self.order[at : at + c.int(1, 40)]
        how = c.int(0, 1)
        for k in ks:
            if how:
                del self.x[k]
            else:
                self.x.pop(k)
            del self.d[k]
        self.did('delete each of %s' % short(ks))

    def op_thin(self):
        """Single deletions all over: every sublist gets short, few are merged."""
        c = self.c
        stride, at, keep = c.pick((2, 3, 2, 4, 3, 7)), c.int(0, 6), c.int(0, 1)
        gone = [k for i, k in enumerate(self.order[at:]) if (i % stride == 0) != keep]
        for k in gone:
            del self.x[k]
            del self.d[k]
        self.did('delete each of %s' % short(gone))

    def op_pop(self):
        c = self.c
        k = self.present()
        how = c.int(0, 2)
        c.note('pop(%s) way %d' % (short(k, 60), how)) if c.verbose else None
        if how == 0:
            if k in self.d:
                got, want = self.x.pop(k), self.d.pop(k)
                c.check(got == want, 'pop gave', got, 'expected', want)
            else:
                must_raise(KeyError, self.x.pop, k, what='pop of an absent key')
        else:
            default = c.pick((None, 'dflt', 0, AGREEABLE, ()))
            got = self.x.pop(k, default) if how == 1 else self.x.pop(k, default=default)
            want = self.d.pop(k, default)
            ok = got is want if want is default else got == want
            c.check(ok, 'pop with default gave', got, 'expected', want)
        self.did('pop')

    def op_popitem(self):
        c, n = self.c, len(self.order)
        if c.int(0, 1):
            i = -1
            f = lambda: self.x.popitem()
        else:
            i = self.index()
            f = (lambda: self.x.popitem(i)) if c.int(0, 1) else (lambda: self.x.popitem(index=i))
        c.note('popitem(%d) of %d' % (i, n)) if c.verbose else None
        if n == 0:
            must_raise(KeyError, f, what='popitem of an empty dict')
        elif -n <= i < n:
            k = self.order[i]
            got = f()
            want = (k, self.d.pop(k))
            c.check(type(got) is tuple and same(list(got), list(want)), 'popitem(%d) gave' % i, got, 'expected', want)
        else:
            must_raise(IndexError, f, what='popitem(%d) of %d' % (i, n))
        self.did('popitem')

    def op_setdefault(self):
        c = self.c
        k = self.gen.value() if c.int(0, 1) else self.present()
        if c.int(0, 2) or not self.none_ok:
            v = self.fresh()
            got, want = self.x.setdefault(k, v), self.d.setdefault(k, v)
        else:
            got, want = self.x.setdefault(k), self.d.setdefault(k)
        c.check(got == want, 'setdefault gave', got, 'expected', want)
        self.did('setdefault(%s)' % short(k, 60))

    def size(self):
        """Operand sizes, often around the tenth-size switch."""
        c, n = self.c, len(self.d)
        mode = c.int(0, 4)
        if mode == 0:
            return c.int(0, 3)
        if mode <= 2:
            return max(0, n // 10 + c.int(-1, 2))
        return c.int(0, 40)

    def some_pairs(self):
        c = self.c
        n = self.size()
        keys = []
        if self.order and c.int(0, 1):
            at = c.edge(0, len(self.order) - 1)
            keys = self.order[at : at + n][: c.int(0, n)]
        keys = keys + self.gen.pattern(max(0, n - len(keys)))
        if keys and c.int(0, 3) == 3:
            keys.append(keys[0])
        return self.pairs(keys)

    def other_key(self):
        """The key function of another dict over the same kind of keys."""
        c = self.c
        if c.int(0, 1):
            return self.key
        keys = [t[1] for t in HASH_KEYED if t[0] is self.kind]
        if self.kind in HASH_KINDS:
            keys.append(None)
        return c.pick(keys or [self.key])

    def argument(self, mapping=False):
        """(positional arguments, keyword arguments, equivalent pairs)"""
        c = self.c
        ps = self.some_pairs()
        how = c.int(0, 10 if mapping else 14)
        kw = {}
        key = self.other_key() if how in (1, 8) else None
        if how == 0:
            arg = dict(ps)
        elif how == 1:
            arg = sut.SortedDict(key, ps)
            arg._reset(c.pick(LOADS))
        elif how == 2:
            arg = OrderedDict(ps)
        elif how == 3:
            arg = types.MappingProxyType(dict(ps))
        elif how == 4:
            arg = c.pick((UserMap, PlainMap))(ps)
        elif how == 5:
            arg = ChainMap(dict(ps[: len(ps) // 2]), dict(ps[len(ps) // 2 :]))
            ps = list(arg.items())
        elif how == 6:
            arg, ps = self.x, [(k, self.d[k]) for k in self.order]
        elif how == 7:
            arg = defaultdict(int, ps)
        elif how == 8:
            arg = SubDict(key, ps)
        elif how <= 10:
            arg = dict(ps)
        elif how == 11:
            arg = as_iterable(c, ps, maps=False)
        elif how == 12:
            arg = c.pick((Keysy, Cart))(dict(ps))
        elif how == 13:
            arg = [list(p) for p in ps]
        else:
            arg, ps = None, []
        if not mapping and self.kind.name in ('str', 'letters') and c.int(0, 2) == 0:
            kw = {k if isinstance(k, str) else str(k): v for k, v in self.pairs(self.gen.pattern(c.int(0, 4)))}
            if c.int(0, 3) == 3:
                kw[c.pick(PARAMETER_NAMES)] = self.fresh()
            ps = ps + list(kw.items())
        if mapping:
            return arg, ps
        return (() if arg is None else (arg,)), kw, ps

    def op_update(self):
        c = self.c
        args, kw, ps = self.argument()
        if len(self.d) + len(ps) > LIMIT + self.gen.huge:
            return
        c.note('update(%s, **%s)' % (short(args, 200), short(kw, 80))) if c.verbose else None
        got = self.x.update(*args, **kw)
        c.check(got is None, 'update returned', got)
        self.d.update(ps)
        self.did('update')

    def op_ior(self):
        c = self.c
        how = c.int(0, 6)
        if how < 4:
            arg, ps = self.argument(mapping=True)
        else:
            ps = self.some_pairs()
            arg = as_iterable(c, ps, maps=False) if how < 6 else c.pick((Keysy, Cart))(dict(ps))
        if len(self.d) + len(ps) > LIMIT + self.gen.huge:
            return
        before = self.x
        c.note('|= %s' % short(arg, 200)) if c.verbose else None
        self.x |= arg
        c.check(self.x is before, '|= changed the identity of the dict')
        self.d.update(ps)
        self.did('|=')

    def op_clear(self):
        if len(self.order) > 20 and self.c.int(0, 2):
            return
        self.c.check(self.x.clear() is None, 'clear returned a value')
        self.d.clear()
        self.did('clear()')

    def op_reset(self):
        self.load = self.c.pick(LOADS)
        self.x._reset(self.load)
        self.did('_reset(%d)' % self.load)

    def op_view_del(self):
        c, n = self.c, len(self.order)
        name = c.pick(('keys', 'items', 'values'))
        view = getattr(self.x, name)()
        self.view_del(view, name)

    def view_del(self, view, name):
        c, n = self.c, len(self.order)
        if c.int(0, 1):
            s = self.slice()
            c.note('del %s()[%s] of %d' % (name, s, n)) if c.verbose else None
            for k in self.order[s]:
                del self.d[k]
            del view[s]
        else:
            i = self.index()
            c.note('del %s()[%d] of %d' % (name, i, n)) if c.verbose else None
            if -n <= i < n:
                del self.d[self.order[i]]
                del view[i]
            else:
                must_raise(IndexError, view.__delitem__, i, what='del %s()[%d] of %d' % (name, i, n))
        self.did('view deletion')


DICT_OPS = [
    'set', 'swap', 'burst_set', 'update', 'ior', 'del', 'burst_del', 'thin', 'pop', 'popitem', 'setdefault', 'clear', 'reset', 'view_del',
]
DICT_GROW = ['set', 'swap', 'burst_set', 'thin', 'update', 'setdefault', 'ior', 'pop', 'popitem', 'del', 'reset']


@prop(
    'C14',
    'A case is a constructor call plus a history of up to 120 operations on one SortedDict (or subclass, with __missing__ or not, with or without key), '
    'compared with a built-in dict put through the same history and its sorted keys after every step. Non-trivial: at least 5 mutations and at least 3 sublists.',
    quick=60000,
    assumptions=['keys hashable, totally ordered (or their sort keys), equal keys have equal sort keys and hashes'],
)
def c14(c):
    d = DictDriver(c, cls=c.pick((None, None, SubDict, MissingDict)), huge=400)
    most = layout(getattr(d.x, '_list', None))
    ops = DICT_OPS if c.int(0, 2) else DICT_GROW
    for i in c.steps(120, 28):
        d.step(ops)
        most = max(most, layout(getattr(d.x, '_list', None)))
        if i % 4 == 3:
            c.again('deep', d.deep)
    d.deep()
    c.tag('keyed' if d.key is not None else 'plain')
    c.tag(type(d.x).__name__)
    if most >= 3:
        c.tag('sublists>=3')
    if most >= 9:
        c.tag('sublists>=9')
    if len(d.d) > 500:
        c.tag('size>500')
    if d.mutations >= 5 and most >= 3:
        c.nontrivial()


def judge(c, d, res, want, cls, key, what, can_check):
    if type(res) is not cls:
        fail(what, 'gave a', type(res).__name__, 'instead of a', cls.__name__)
    if res.key is not key:
        fail(what, 'result has key', res.key, 'instead of', key)
    if not arranged(list(res), sorted(want, key=key), key):
        fail(what, 'iterates', list(res), 'expected', sorted(want, key=key))
    if len(res) != len(want) or not dict.__eq__(res, want):
        fail(what, 'holds', dict.copy(res), 'expected', want)
    if can_check:
        res._check()
    # usable afterwards
    k = d.gen.value()
    res[k] = 'new'
    if res[k] != 'new' or len(res) != len({**want, k: 'new'}) or k not in list(res):
        fail('the result of', what, 'is not usable: after assignment it iterates', list(res))
    if can_check and key is d.key:
        coherent(res, 'the result of ' + what)


@prop(
    'C15',
    'A case is a SortedDict (or subclass) built by a short history and then constructor calls, update, |=, |, reflected |, copy and fromkeys with 15 argument '
    'forms (mappings of 8 types, iterables of pairs, keywords, the dict itself) whose sizes straddle the bulk/single switch and whose keys overlap; '
    'judged by the built-in dict. Non-trivial: a non-empty dict met a non-empty argument with at least one common key.',
    quick=150000,
)
def c15(c):
    cls = c.pick((sut.SortedDict, SubDict))
    d = DictDriver(c, cls=cls, big=c.int(0, 5) == 5)
    for _ in c.steps(8, 3):
        d.step(DICT_GROW)
    c.tag('keyed' if d.key is not None else 'plain')
    good = False
    for _ in c.steps(10, 5):
        how = c.int(0, 9)
        if c.int(0, 11) == 11:
            d.x.clear()
            d.d.clear()
            d.order = []
            c.note('clear()') if c.verbose else None
        x, before = d.x, dict(d.d)
        order = list(d.order)
        if how <= 1:
            arg, ps = d.argument(mapping=True)
            c.note('x | %s' % short(arg, 200)) if c.verbose else None
            res = x | arg
            judge(c, d, res, {**before, **dict(ps)}, cls, d.key, 'x | mapping', d.can_check)
        elif how == 2:
            arg, ps = d.argument(mapping=True)
            if isinstance(arg, (sut.SortedDict, UserDict, ChainMap, OrderedDict, defaultdict, types.MappingProxyType)):
                arg = dict(ps)  # these know | themselves; a plain dict defers to its subclass
            c.note('%s | x' % short(arg, 200)) if c.verbose else None
            res = arg | x
            judge(c, d, res, {**dict(ps), **before}, cls, d.key, 'mapping | x', d.can_check)
            must_raise(TypeError, operator.or_, x, list(ps), what='x | list')
            must_raise(TypeError, operator.or_, list(ps), x, what='list | x')
        elif how == 3:
            ps = []
            f = c.pick((x.copy, x.__copy__))
            res = f()
            c.check(res is not x, 'copy returned the dict itself')
            judge(c, d, res, before, cls, d.key, 'copy', d.can_check)
        elif how == 4:
            keys = [k for k, _ in d.some_pairs()] if d.kind in HASH_KINDS else []
            v = c.pick((None, 0, 'v'))
            ps = [(k, v) for k in keys]
            it = as_iterable(c, keys)
            c.note('fromkeys(%s, %s)' % (short(keys), v)) if c.verbose else None
            res = cls.fromkeys(it, v) if v is not None or c.int(0, 1) else cls.fromkeys(it)
            judge(c, d, res, dict.fromkeys(keys, v), cls, None, 'fromkeys', d.kind.le)
        elif how == 9:
            # a subclass that brings its own key function
            ps = d.some_pairs()
            own = d.key

            class Own(sut.SortedDict):
                def __init__(self, *args, **kwargs):
                    sut.SortedDict.__init__(self, own, *args, **kwargs)

            v = c.pick((None, 0, 'v'))
            keys = [k for k, _ in ps]
            c.note('Own.fromkeys(%s, %s)' % (short(keys), v)) if c.verbose else None
            res = Own.fromkeys(as_iterable(c, keys), v)
            judge(c, d, res, dict.fromkeys(keys, v), Own, own, 'fromkeys of a subclass with its own key', d.can_check)
        elif how == 5:
            args, kw, ps = d.argument()
            front = (d.key,) if d.key is not None or c.int(0, 1) else ()
            c.note('%s(%s, **%s)' % (cls.__name__, short(front + args, 200), short(kw, 80))) if c.verbose else None
            res = cls(*front, *args, **kw)
            judge(c, d, res, dict(ps), cls, d.key, 'the constructor', d.can_check)
        elif how == 6:
            d.op_update()
            continue
        elif how == 7:
            d.op_ior()
            continue
        else:
            d.step(DICT_OPS)
            continue
        if not same(list(x), order) or not dict.__eq__(x, before):
            fail('way', how, 'changed the receiver from', before, 'to', dict.copy(x))
        if ps and any(k in before for k, _ in ps):
            good = True
    d.deep()
    if good or d.mutations > 8:
        c.nontrivial()


# ---------------------------------------------------------------------------

SETOPS = [
    ('&', operator.and_), ('|', operator.or_), ('-', operator.sub), ('^', operator.xor),
]
SETCMP = [operator.eq, operator.ne, operator.lt, operator.le, operator.gt, operator.ge]


def read_view(c, d, view, name):
    m, dd = d.order, d.d
    plain = m if name == 'keys' else [(k, dd[k]) for k in m] if name == 'items' else [dd[k] for k in m]
    n = len(plain)
    how = c.int(0, 10)
    if c.verbose:
        c.note('read %s() way %d, size %d' % (name, how, n))

    def probe(strange=False):
        k = d.present()
        if strange and not c.int(0, 5):
            k = c.pick(STRANGERS)
        if name == 'keys':
            return k
        v = dd.get(k, c.pick((-5, None, 0)) if strange else -5) if c.int(0, 3) else c.pick(STRANGERS) if strange and c.int(0, 1) else -7
        return v if name == 'values' else (k, v)

    if how == 0:
        got = list(view)
        c.check(len(view) == n, 'len of', name, 'is', len(view), 'expected', n)
        c.check(same(got, plain), name, 'iterates', got, 'expected', plain)
    elif how == 1:
        got = list(reversed(view))
        c.check(same(got, plain[::-1]), 'reversed', name, 'gives', got, 'expected', plain[::-1])
    elif how <= 3:
        i = d.index()
        if -n <= i < n:
            got = view[i]
            c.check(got == plain[i], '%s[%d]' % (name, i), 'is', got, 'expected', plain[i])
        else:
            must_raise(IndexError, view.__getitem__, i, what='%s[%d] of %d' % (name, i, n))
    elif how == 4:
        s = d.slice()
        if c.int(0, 15) == 15:
            must_raise(ValueError, view.__getitem__, slice(s.start, s.stop, 0), what='%s[%s:%s:0] of %d' % (name, s.start, s.stop, n))
        got = view[s]
        c.check(type(got) is list and same(got, plain[s]), '%s[%s]' % (name, s), 'is', got, 'expected', plain[s])
    elif how == 5:
        p = probe(True)
        c.check((p in view) is (p in plain), short(p), 'in', name, '->', p in view, 'for', plain)
        c.check(view.count(p) == plain.count(p), name, 'count of', p, 'is', view.count(p))
    elif how == 6:
        p = probe(True)
        a, b = (0, None) if c.int(0, 1) else (c.int(-n - 2, n + 2), c.int(-n - 2, n + 2))
        try:
            want = plain.index(p, a, n if b is None else b)
        except ValueError:
            must_raise(ValueError, view.index, p, a, b, what='%s.index(%s, %s, %s)' % (name, short(p, 60), a, b))
        else:
            got = view.index(p, a, b) if c.int(0, 1) or (a, b) != (0, None) else view.index(p)
            c.check(got == want, '%s.index' % name, p, a, b, 'is', got, 'expected', want)
    elif name == 'values' and how > 7 and n:
        # a value that is not even equal to itself is still found by identity
        i = c.edge(0, n - 1)
        k, nan = m[i], float('nan')
        kept = dd[k]
        d.x[k] = nan
        c.check(nan in view and view.count(nan) == 1 and view.index(nan) == i and (k, nan) in d.x.items(), 'a nan stored under', k, 'is not found in', view)
        c.check(float('nan') not in view and view.count(float('nan')) == 0, 'another nan is found in', view)
        d.x[k] = kept
    elif name == 'values' or how == 7:
        c.check(len(view) == n, 'len of', name, 'is', len(view), 'expected', n)
        pos = range(0, n, max(1, n // 7))
        c.check(all(view[i] == plain[i] for i in pos), name, 'indexing disagrees with', plain)
    else:
        s = set(plain)
        vals = list(plain)
        change = c.int(0, 5)
        if change == 1:
            vals = vals[: c.edge(0, n)]
        elif change == 2:
            vals = vals[:: c.int(1, 3)] + ([d.gen.value() for _ in range(2)] if name == 'keys' else [(d.gen.value(), -1)])
        elif change == 3:
            vals = vals + [probe()]
        elif change == 4:
            vals = []
        elif change == 5:
            vals = [probe() for _ in range(c.int(0, 6))]
        t = set(vals)
        orderable = d.kind in HASH_KINDS
        form = c.int(0, 8)
        if form == 1:
            other = frozenset(t)
        elif form == 6:
            other = PlainSet(vals)
        elif form >= 7 and how > 8:
            other = (vals + vals[:3]) if form == 7 else tuple(vals[-2:] + vals)  # not a set, but its elements
        elif form == 2:
            other = dict.fromkeys(vals).keys()
        elif form == 3 and orderable:
            other = sut.SortedSet(vals)
        elif form == 4 and name == 'keys':
            other = sut.SortedDict(d.key, dict.fromkeys(vals)).keys()
        elif form == 5 and name == 'items':
            other = sut.SortedDict(d.key, dict(vals)).items()
            t = set(dict(vals).items())
        else:
            other = set(t)
        if c.verbose:
            c.note('  set operand %s %s' % (type(other).__name__, short(vals, 150)))
        if how == 8:
            for op in SETCMP:
                got, want = op(view, other), op(s, t)
                c.check(got is want, name, op.__name__, type(other).__name__, vals, 'gave', got, 'for', plain)
                got, want = op(other, view), op(t, s)
                c.check(got is want, type(other).__name__, vals, op.__name__, name, 'gave', got, 'for', plain)
            c.check(view.isdisjoint(other) is s.isdisjoint(t), name, 'isdisjoint', vals, 'gave', view.isdisjoint(other))
            c.check(view.isdisjoint(list(t)) is s.isdisjoint(t), name, 'isdisjoint of the list', t, 'gave', view.isdisjoint(list(t)))
            c.check(view != vals and not view == vals, name, 'equals the list', vals)
        elif orderable:
            sym, op = c.pick(SETOPS)
            want = op(s, t)
            res = op(view, other)
            if not isinstance(res, sut.SortedSet):
                fail(name, sym, type(other).__name__, 'gave a', type(res).__name__, 'instead of a SortedSet')
            if len(res) != len(want) or list(res) != sorted(want):
                fail(name, sym, type(other).__name__, vals, 'gave', list(res), 'expected', sorted(want))
            if how == 10 and not isinstance(other, (type({}.keys()), sut.SortedSet, PlainSet)):
                want = op(t, s)
                res = op(other, view)
                if not isinstance(res, sut.SortedSet):
                    fail(type(other).__name__, sym, name, 'gave a', type(res).__name__, 'instead of a SortedSet')
                if len(res) != len(want) or list(res) != sorted(want):
                    fail(type(other).__name__, vals, sym, name, 'gave', list(res), 'expected', sorted(want))


@prop(
    'C16',
    'A case is a SortedDict with keys/items/values/iloc views taken at the start and at random later points, a history of mutations (incl. deletions by index and '
    'slice through those views) and reads of all views taken so far, judged against plain lists and built-in sets of the current keys, items and values. '
    'Non-trivial: at least 3 mutations and 5 reads through a view older than the last mutation, on a dict of at least 4 keys.',
    quick=120000,
    assumptions=['set operators that build a SortedSet are used only where the keys (items) themselves are orderable'],
)
def c16(c):
    d = DictDriver(c, cls=c.pick((None, SubDict)), big=c.int(0, 5) == 5, tame=True)  # items must be orderable for the set operators
    views = [('keys', d.x.keys()), ('items', d.x.items()), ('values', d.x.values())]
    reads = 0
    for _ in c.steps(120, 30):
        r = c.int(0, 9)
        if r < 6:
            name, view = c.pick(views)
            c.again(name, read_view, c, d, view, name)
            reads += len(d.order) >= 4
        elif r == 6:
            name, view = c.pick(views)
            d.view_del(view, name)
        elif r == 7 and len(views) < 12:
            name = c.pick(('keys', 'items', 'values', 'iloc'))
            if name == 'iloc':  # deprecated, still a view of the keys
                with warnings.catch_warnings():
                    warnings.simplefilter('ignore', DeprecationWarning)
                    views.append(('keys', d.x.iloc))
            else:
                views.append((name, getattr(d.x, name)()))
        else:
            d.step(DICT_OPS if c.int(0, 1) else DICT_GROW)
    c.tag('keyed' if d.key is not None else 'plain')
    if d.mutations >= 3 and reads >= 5:
        c.nontrivial()
