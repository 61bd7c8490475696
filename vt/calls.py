"""Random method calls as data: (text, function of the container, is_write).

The arguments are fixed when the call is generated, so the same call can be made
on several containers.  `order` is the current sorted content of any of them.
"""
import copy
import operator
import pickle

from . import sut
from .domains import LOADS, Tag
from .engine import fail


def norm(x):
    """A comparable form of whatever a call returned."""
    t = type(x)
    if isinstance(x, sut.SortedDict):
        return (t.__name__, x.key, list(x), [dict.__getitem__(x, k) for k in x])
    if isinstance(x, (sut.SortedList, sut.SortedSet)):
        return (t.__name__, x.key, list(x))
    if isinstance(x, (sut.SortedKeysView, sut.SortedItemsView, sut.SortedValuesView)):
        return (t.__name__, list(x))
    if hasattr(t, '__next__'):
        return ('iterator', list(x))
    return (t.__name__, x)


def equal(a, b):
    """Deep equality that also accepts identical, unequal-to-themselves objects."""
    if a is b:
        return True
    if type(a) is not type(b):
        return False
    if isinstance(a, Tag):
        return False  # equal ones are distinguishable
    if isinstance(a, (tuple, list)):
        return len(a) == len(b) and all(equal(x, y) for x, y in zip(a, b))
    return bool(a == b)


def outcome(fn, x):
    """('ok', normal form) or ('raised', exception type)."""
    try:
        res = fn(x)
        if res is x:
            return ('ok', 'the container itself')
        return ('ok', norm(res))
    except Exception as exc:
        return ('raised', type(exc).__name__)


def text_of(t):
    return t if isinstance(t, str) else t[0] % t[1:]


ODD = (0, None, '', False, ())


class Calls:
    cloning = True  # reads include copies and pickles

    def __init__(self, c, face, kind, key, gen):
        self.c = c
        self.face = face  # 'list', 'set' or 'dict'
        self.kind = kind
        self.key = key
        self.gen = gen
        self.serial = 0

    def k(self, v):
        return v if self.key is None else self.key(v)

    def value(self, order):
        c = self.c
        if order and c.int(0, 2):
            return order[c.edge(0, len(order) - 1)]
        return self.gen.value()

    def idx(self, n):
        c = self.c
        mode = c.int(0, 9)
        if mode == 9 or n == 0:
            return c.pick((n, -n - 1, n + 5, -n - 9, 0, -1))
        return c.edge(0, n - 1) if mode < 6 else -1 - c.edge(0, n - 1)

    def slc(self, n):
        c = self.c

        def bound():
            mode = c.int(0, 5)
            if mode == 0:
                return None
            if mode == 1:
                return c.pick((0, n, -n, n + 3, -n - 3, -1, 1, n - 1))
            if mode == 2:
                return -c.int(0, n)
            return c.int(0, n)

        a, b = bound(), bound()
        step = c.pick((None, 1, None, 1, -1, -1, 2, -2, 3, -5, n + 1, 0))
        return slice(a, b, step)

    def window(self, n):
        c = self.c
        a = None if c.int(0, 2) == 0 else c.int(-n - 1, n + 1)
        b = None if c.int(0, 2) == 0 else c.int(-n - 1, n + 1)
        return a, b

    # -- reads ------------------------------------------------------------
    def read(self, order):
        names = ['len', 'iter', 'reversed', 'contains', 'islice', 'irange', 'bisect_left', 'bisect_right', 'bisect', 'index', 'copy', 'repr']
        if self.cloning:
            names.append('clone')
        if self.key is not None:
            names += ['bisect_key_left', 'bisect_key_right', 'irange_key']
        if self.face == 'list':
            names += ['getitem', 'slice', 'getitem', 'slice', 'count', 'compare', 'add', 'mul']
        elif self.face == 'set':
            names += ['getitem', 'slice', 'getitem', 'slice', 'count', 'relation', 'algebra']
        else:
            names += ['lookup', 'get', 'peekitem', 'view', 'view', 'viewslice', 'equal', 'merge']
        return self.make_read(self.c.pick(names), order)

    def make_read(self, name, order):
        c, n = self.c, len(order)
        if name == 'len':
            return 'len', len
        if name == 'iter':
            return 'iter', lambda x: iter(x)
        if name == 'reversed':
            return 'reversed', lambda x: iter(list(reversed(x)))
        if name == 'repr':
            return 'repr', repr
        if name == 'clone':
            how = c.int(0, 6)
            if how == 6:
                return 'copy.copy', lambda x: len(copy.copy(x))
            if how == 5:
                return 'copy.deepcopy', lambda x: len(copy.deepcopy(x))
            return 'pickle %d' % how, lambda x: len(pickle.loads(pickle.dumps(x, how)))
        if name == 'copy':
            return 'copy', lambda x: x.copy()
        if name == 'contains':
            v = self.value(order)
            return 'contains', lambda x: v in x
        if name in ('bisect_left', 'bisect_right', 'bisect', 'count'):
            v = self.value(order)
            return name, lambda x: getattr(x, name)(v)
        if name in ('bisect_key_left', 'bisect_key_right'):
            kv = self.k(self.value(order))
            return name, lambda x: getattr(x, name)(kv)
        if name == 'index':
            v = self.value(order)
            a, b = self.window(n) if c.int(0, 1) else (None, None)
            return 'index(.., %s, %s)' % (a, b), lambda x: x.index(v, a, b)
        if name == 'islice':
            a, b = self.window(n)
            rev = bool(c.int(0, 1))
            return 'islice(%s, %s, %s)' % (a, b, rev), lambda x: x.islice(a, b, rev)
        if name in ('irange', 'irange_key'):
            lo = None if c.int(0, 3) == 0 else self.value(order)
            hi = None if c.int(0, 3) == 0 else self.value(order)
            if name == 'irange_key':
                lo = None if lo is None else self.k(lo)
                hi = None if hi is None else self.k(hi)
            inc = (bool(c.int(0, 1)), bool(c.int(0, 1)))
            rev = bool(c.int(0, 1))
            return '%s(%r, %r, %s, %s)' % (name, lo, hi, inc, rev), lambda x: getattr(x, name)(lo, hi, inc, rev)
        if name == 'getitem':
            i = self.idx(n)
            return '[%d]' % i, lambda x: x[i]
        if name == 'slice':
            s = self.slc(n)
            return '[%s]' % s, lambda x: x[s]
        if name == 'compare':
            op = c.pick((operator.eq, operator.ne))
            other = list(order)
            if other and c.int(0, 1):
                del other[c.edge(0, len(other) - 1)]
            return op.__name__, lambda x: op(x, other)
        if name == 'add':
            vals = [self.gen.value() for _ in range(c.int(0, 5))]
            return '+', lambda x: x + list(vals)
        if name == 'mul':
            k = c.pick((1, 0, 2)) if n < 1500 else 1
            return '* %d' % k, lambda x: x * k
        if name == 'relation':
            vals = set(order[: c.edge(0, n)]) | {self.gen.value() for _ in range(c.int(0, 2))}
            op = c.pick((operator.eq, operator.ne, operator.lt, operator.le, operator.gt, operator.ge))
            if c.int(0, 2) == 0:
                m = c.pick(('isdisjoint', 'issubset', 'issuperset'))
                return m, lambda x: getattr(x, m)(vals)
            return op.__name__, lambda x: op(x, vals)
        if name == 'algebra':
            vals = set(order[c.edge(0, n) :]) | {self.gen.value() for _ in range(c.int(0, 3))}
            m = c.pick(('union', 'intersection', 'difference', 'symmetric_difference'))
            if c.int(0, 1):
                op = c.pick((operator.or_, operator.and_, operator.sub, operator.xor))
                return op.__name__, lambda x: op(x, vals)
            return m, lambda x: getattr(x, m)(vals)
        if name == 'lookup':
            k = self.value(order)
            return 'lookup', lambda x: x[k]
        if name == 'get':
            k = self.value(order)
            return 'get', lambda x: x.get(k, 'no')
        if name == 'peekitem':
            i = self.idx(n)
            return 'peekitem(%d)' % i, lambda x: x.peekitem(i)
        if name in ('view', 'viewslice'):
            v = c.pick(('keys', 'items', 'values'))
            if name == 'viewslice':
                s = self.slc(n)
                return '%s()[%s]' % (v, s), lambda x: getattr(x, v)()[s]
            how = c.int(0, 3)
            i = self.idx(n)
            if how == 0:
                return '%s()[%d]' % (v, i), lambda x: getattr(x, v)()[i]
            if how == 1:
                return 'list(%s())' % v, lambda x: list(getattr(x, v)())
            if how == 2:
                return 'reversed(%s())' % v, lambda x: list(reversed(getattr(x, v)()))
            k = self.value(order)
            return 'in keys()', lambda x: (k in x.keys(), len(x.items()))
        if name == 'equal':
            return 'dict ==', lambda x: x == dict.copy(x)
        if name == 'merge':
            d = {self.value(order): -1 for _ in range(c.int(0, 4))}
            return '|', lambda x: x | d
        raise AssertionError(name)

    # -- writes -----------------------------------------------------------
    def write(self, order, grow=False):
        if self.face == 'list':
            names = ['add', 'swap', 'update', 'update', 'bulk', 'discard', 'remove', 'pop', 'popat', 'del', 'delslice', 'iadd', 'drain', 'thin', 'fill']
            if not grow:
                names += ['clear', 'imul']
        elif self.face == 'set':
            names = [
                'add', 'swap', 'update', 'update', 'bulk', 'discard', 'remove', 'pop', 'popat', 'del', 'delslice', 'drain', 'thin', 'fill',
                'symmetric_difference_update', 'difference_update',
            ]
            if not grow:
                names += ['clear', 'intersection_update']
        else:
            names = ['set', 'swap', 'dupdate', 'dupdate', 'dbulk', 'delkey', 'dpop', 'popitem', 'popitemat', 'setdefault', 'viewdel', 'ddrain', 'thin', 'dfill', 'ior']
            if not grow:
                names += ['clear']
        name = self.c.pick(names)
        if name == 'clear' and len(order) > 20 and self.c.int(0, 2):
            name = 'popat' if self.face != 'dict' else 'popitem'
        return self.make_write(name, order)

    def some(self, order):
        c, n = self.c, len(order)
        size = c.int(0, 4)
        if size == 0:
            vals = []
        elif size == 1:
            vals = [self.gen.value() for _ in range(c.int(1, 4))]
        elif size == 2:
            vals = self.gen.pattern(max(0, n // c.pick((4, 10)) + c.int(-1, 1)))
        elif size == 3 and n:
            at = c.edge(0, n - 1)
            vals = list(order[at : at + c.int(1, 10)])
        else:
            vals = self.gen.pattern(c.int(0, 40))
        return vals[: max(0, 5000 - n)]

    def pairs(self, keys):
        out = []
        for k in keys:
            self.serial += 1
            # every seventh value is false
            out.append((k, self.serial if self.serial % 7 else ODD[self.serial // 7 % len(ODD)]))
        return out

    def make_write(self, name, order):
        c, n = self.c, len(order)
        if name == 'swap' and n:
            # one element goes, another comes: the size stays
            v, w = c.pick(order), self.gen.value()
            new = self.pairs([w])[0][1] if self.face == 'dict' else None

            def swap(x):
                if self.face == 'dict':
                    del x[v]
                    x[w] = new
                else:
                    x.remove(v)
                    x.add(w)

            return ('replace %r by %r', v, w), swap
        if name == 'swap':
            name = 'set' if self.face == 'dict' else 'add'
        if name in ('add', 'discard', 'remove'):
            v = self.gen.value() if name == 'add' else self.value(order)
            return '%s(%r)' % (name, v), lambda x: getattr(x, name)(v)
        if name == 'update' or name == 'bulk' or name in ('symmetric_difference_update', 'difference_update', 'intersection_update'):
            vals = self.some(order) if name != 'bulk' else self.gen.pattern(c.int(20, 200) if n < 4000 else 0)
            m = 'update' if name == 'bulk' else name
            return ('%s(%r)', m, vals), lambda x: getattr(x, m)(list(vals))
        if name == 'iadd':
            vals = self.some(order)
            return ('+= %r', vals), lambda x: operator.iadd(x, list(vals))
        if name == 'fill':
            vals = self.gen.pattern(c.int(1, 40) if n < 5000 else 0)

            def fill(x):
                for v in vals:
                    x.add(v)

            return ('add each of %r', vals), fill
        if name == 'drain':
            at, k, way = c.edge(0, n), c.int(1, 40), c.int(0, 1)
            gone = order[at : at + k]

            def drain(x):
                for v in gone:
                    if way:
                        x.discard(v)
                    else:
                        del x[at]

            return 'drain %d from %d' % (k, at), drain
        if name == 'thin':
            # single deletions all over: every sublist gets short, few are merged
            stride, at = c.pick((2, 3, 2, 4, 3, 7)), c.int(0, 6)
            if c.int(0, 1):
                gone = order[at::stride]
            else:
                gone = [v for i, v in enumerate(order[at:]) if i % stride]

            def thin(x):
                for v in gone:
                    if self.face == 'dict':
                        del x[v]
                    else:
                        x.remove(v)

            return 'remove %d of %d, spread' % (len(gone), n), thin
        if name == 'pop':
            return 'pop()', lambda x: x.pop()
        if name == 'popat':
            i = self.idx(n)
            return 'pop(%d)' % i, lambda x: x.pop(i)
        if name == 'del':
            i = self.idx(n)
            return 'del [%d]' % i, lambda x: operator.delitem(x, i)
        if name == 'delslice':
            s = self.slc(n)
            return 'del [%s]' % s, lambda x: operator.delitem(x, s)
        if name == 'clear':
            return 'clear()', lambda x: x.clear()
        if name == 'imul':
            k = c.pick((1, 2, 0, 3, -1)) if n < 1500 else 1
            return '*= %d' % k, lambda x: operator.imul(x, k)
        # dict
        if name == 'set':
            ((k, v),) = self.pairs([self.value(order)])
            return '[%r] = %r' % (k, v), lambda x: operator.setitem(x, k, v)
        if name == 'dupdate' or name == 'dbulk' or name == 'ior':
            ps = self.pairs(self.some(order) if name != 'dbulk' else self.gen.pattern(c.int(20, 200) if n < 4000 else 0))
            as_dict = c.int(0, 1)
            if name == 'ior':
                return ('|= %r', ps), lambda x: operator.ior(x, dict(ps))
            return ('update(%r)', ps), lambda x: x.update(dict(ps) if as_dict else list(ps))
        if name == 'delkey':
            k = self.value(order)
            return 'del [%r]' % (k,), lambda x: operator.delitem(x, k)
        if name == 'dpop':
            k = self.value(order)
            if c.int(0, 1):
                return 'pop(%r)' % (k,), lambda x: x.pop(k)
            return 'pop(%r, 0)' % (k,), lambda x: x.pop(k, 0)
        if name == 'popitem':
            return 'popitem()', lambda x: x.popitem()
        if name == 'popitemat':
            i = self.idx(n)
            return 'popitem(%d)' % i, lambda x: x.popitem(i)
        if name == 'setdefault':
            ((k, v),) = self.pairs([self.value(order)])
            return 'setdefault(%r, %r)' % (k, v), lambda x: x.setdefault(k, v)
        if name == 'viewdel':
            view = c.pick(('keys', 'items', 'values'))
            j = self.idx(n) if c.int(0, 1) else self.slc(n)
            return 'del %s()[%s]' % (view, j), lambda x: operator.delitem(getattr(x, view)(), j)
        if name == 'dfill':
            ps = self.pairs(self.gen.pattern(c.int(1, 40) if n < 5000 else 0))

            def dfill(x):
                for k, v in ps:
                    x[k] = v

            return ('set each of %r', ps), dfill
        if name == 'ddrain':
            at, k = c.edge(0, n), c.int(1, 40)
            gone = order[at : at + k]

            def ddrain(x):
                for v in gone:
                    del x[v]

            return 'delete %d keys from %d' % (k, at), ddrain
        raise AssertionError(name)

    def reset(self):
        load = self.c.pick(LOADS)
        return '_reset(%d)' % load, lambda x: x._reset(load)


def content(x):
    """The whole observable content, in order."""
    if isinstance(x, sut.SortedDict):
        return [(k, dict.__getitem__(x, k)) for k in x]
    return list(x)


def coherent(x, what):
    """Every method of a sorted container speaks of the content it iterates."""
    m = list(x)
    n = len(m)
    said = {
        'len': (len(x), n), 'reversed': (list(reversed(x)), m[::-1]), 'irange': (list(x.irange()), m), 'islice': (list(x.islice()), m),
        'irange reversed': (list(x.irange(reverse=True)), m[::-1]),
    }
    if n:
        first, last = m[0], m[-1]
        said['index of the first'] = x.index(first), 0
        said['bisect_right of the last'] = x.bisect_right(last), n
        said['bisect of the last'] = x.bisect(last), n
        said['bisect_left of the first'] = x.bisect_left(first), 0
        said['in'] = last in x, True
        if x.key is not None:
            said['bisect_key_right'] = x.bisect_key_right(x.key(last)), n
            said['bisect_key'] = x.bisect_key(x.key(last)), n
            said['bisect_key_left'] = x.bisect_key_left(x.key(first)), 0
            said['irange_key'] = list(x.irange_key(x.key(first), x.key(last))), m
    if isinstance(x, sut.SortedSet):
        said['issuperset'] = x.issuperset(m), True
        said['isdisjoint'] = x.isdisjoint(m), not m
        said['issubset'] = x.issubset(m), True
        said['[:]'] = x[:], m
    elif isinstance(x, sut.SortedDict):
        said['keys'] = list(x.keys()), m
        said['items'] = list(x.items()), [(k, dict.__getitem__(x, k)) for k in m]
        said['values'] = list(x.values()), [dict.__getitem__(x, k) for k in m]
        said['keys of the dict'] = dict.__len__(x), n
    else:
        said['[:]'] = x[:], m
    for name, (got, want) in said.items():
        if got is not want and not equal(got, want):
            fail(what, 'answers', name, 'with', got, 'expected', want)


def make(face, key, values, cls=None):
    """A container of the face; values become keys with serial values for dicts."""
    if face == 'list':
        if cls is None:
            return sut.SortedList(values, key=key)
        return cls(values) if key is None else cls(values, key=key)
    if face == 'set':
        return (cls or sut.SortedSet)(values, key=key)
    return (cls or sut.SortedDict)(key, [(v, -i) for i, v in enumerate(values)])
