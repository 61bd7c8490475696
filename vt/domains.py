"""Element domains: value kinds and key functions.

A kind turns integer codes into values (equal codes, possibly with different
variants, give equal values).  All kinds respect the documented caveats: total
ordering of the values (or of the keys), equal values have equal keys.
"""
import datetime
import functools
from collections.abc import Set
from fractions import Fraction

from .engine import fail


class Tag:
    """Equality and order on `v` only; instances remain distinguishable."""

    __slots__ = ('v', 'tag', '__weakref__')

    def __init__(self, v, tag=0):
        self.v = v
        self.tag = tag

    def __eq__(self, other):
        if not isinstance(other, Tag):
            return NotImplemented
        return self.v == other.v

    def __ne__(self, other):
        if not isinstance(other, Tag):
            return NotImplemented
        return self.v != other.v

    def __lt__(self, other):
        if not isinstance(other, Tag):
            return NotImplemented
        return self.v < other.v

    def __le__(self, other):
        if not isinstance(other, Tag):
            return NotImplemented
        return self.v <= other.v

    def __gt__(self, other):
        if not isinstance(other, Tag):
            return NotImplemented
        return self.v > other.v

    def __ge__(self, other):
        if not isinstance(other, Tag):
            return NotImplemented
        return self.v >= other.v

    def __hash__(self):
        return hash(('Tag', self.v))

    def __repr__(self):
        return 'Tag(%r, %r)' % (self.v, self.tag)


class LtEq:
    """Exactly the documented protocol: __eq__ and __lt__ (and, in HashLtEq, __hash__)."""

    __slots__ = ('v', '__weakref__')

    def __init__(self, v):
        self.v = v

    def __eq__(self, other):
        return isinstance(other, LtEq) and self.v == other.v

    def __lt__(self, other):
        if not isinstance(other, LtEq):
            return NotImplemented
        return self.v < other.v

    __hash__ = None

    def __repr__(self):
        return 'LtEq(%r)' % (self.v,)


class HashLtEq(LtEq):
    __slots__ = ()

    def __hash__(self):
        return hash(self.v)


class Rec:
    """Identity equality (inherited from object), ordered by nothing; has a rank."""

    __slots__ = ('name', 'rank', '__weakref__')

    def __init__(self, name, rank):
        self.name = name
        self.rank = rank

    def __repr__(self):
        return 'Rec(%r, %r)' % (self.name, self.rank)


class Kind:
    """name, mk(code, variant) -> value"""

    def __init__(self, name, mk, hashable=True, le=True, variants=1, plain=True):
        self.name = name
        self.mk = mk
        self.hashable = hashable
        self.le = le  # supports <= (needed by the library's self-check)
        self.variants = variants
        self.plain = plain  # repr evaluates back / picklable

    def __repr__(self):
        return self.name


def _numeric(i, var):
    # equal numbers of different types
    var %= 4
    if var == 0:
        return i
    if var == 1:
        return float(i)
    if var == 2:
        return Fraction(i)
    return bool(i) if i in (0, 1) else Fraction(i * 3, 3)


def _str(i, var):
    return str(i)


def _letters(i, var):
    s = ''
    while i:
        i, r = divmod(i - 1, 5)
        s = 'abcde'[r] + s
    return s


def _float(i, var):
    if i == 0:
        return float('-inf')
    if i == 1:
        return -0.0 if var else 0.0
    if i == 2:
        return float('inf')
    return (i - 10) / 4.0


INT = Kind('int', lambda i, v: i)
SIGNED = Kind('signed', lambda i, v: (i // 2) * (-1) ** (i % 2))
BIG = Kind('bigint', lambda i, v: (i - 7) * 10**21)
FLOAT = Kind('float', _float, variants=2)
STR = Kind('str', _str)
LETTERS = Kind('letters', _letters)
BYTES = Kind('bytes', lambda i, v: str(i).encode() if i else b'')
TUPLE = Kind('tuple', lambda i, v: (i % 3, i // 3))
NEST = Kind('tuple-str', lambda i, v: (str(i % 4), (i // 4,)))
VARTUP = Kind('var-tuple', lambda i, v: tuple(int(d) for d in str(i)) if i else ())
SPAN = Kind('timedelta', lambda i, v: datetime.timedelta((i // 2) * (-1) ** (i % 2)))
LIST = Kind('list', lambda i, v: [i // 2, i % 2] if i else [], hashable=False)
MIXED = Kind('mixed-number', _numeric, variants=4)
DATE = Kind('date', lambda i, v: datetime.date.fromordinal(700000 + i))
TAG = Kind('tag', lambda i, v: Tag(i, v), variants=1000)
LTEQ = Kind('lt-eq', lambda i, v: LtEq(i), hashable=False, le=False, plain=False)
HLTEQ = Kind('hash-lt-eq', lambda i, v: HashLtEq(i), le=False, plain=False)

LIST_KINDS = [INT, STR, TUPLE, MIXED, SIGNED, FLOAT, LETTERS, BYTES, NEST, LIST, BIG, DATE, TAG, LTEQ, VARTUP, SPAN]
PLAIN_LIST_KINDS = [k for k in LIST_KINDS if k.plain and k is not TAG]
HASH_KINDS = [INT, STR, TUPLE, MIXED, SIGNED, FLOAT, LETTERS, BYTES, NEST, BIG, DATE, TAG, HLTEQ, VARTUP, SPAN]
PLAIN_HASH_KINDS = [k for k in HASH_KINDS if k.plain and k is not TAG]


# key functions; module level so that they pickle ---------------------------


def k_identity(x):
    return x


def k_neg(x):
    return -x


def k_mod(x):
    return x % 10


def k_half(x):
    return x // 2


def k_coarse(x):
    return x // 25


def k_const(x):
    return 0


def k_str(x):
    return str(x)


def k_pair(x):
    return (x % 3, -x)


def k_len(x):
    return len(x)


def k_rev(x):
    return x[::-1]


def k_first(x):
    return x[0]


def k_second(x):
    return x[1]


def k_complex(z):
    return (z.imag, z.real)


def k_cabs(z):
    return int(z.real + z.imag)


def k_optional(v):
    return () if v is None else (v // 2,)


def k_dict(d):
    return d['k']


def k_rank(r):
    return r.rank


def k_lteq(x):
    return LtEq(x // 3)


def k_tagkey(x):
    return Tag(x // 3, x)


def _cmp(a, b):
    return (a < b) - (a > b)


k_cmp = functools.cmp_to_key(_cmp)


class _Table:
    """A key function object that is empty, hence false."""

    def __len__(self):
        return 0

    def __call__(self, x):
        return -(x // 2)

    def __repr__(self):
        return '<table>'

    def __reduce__(self):
        return 'k_table'


k_table = _Table()


def k_members(s):
    return (len(s), sorted(s))


def k_tagval(t):
    return t.v


def k_tagneg(t):
    return -t.v


def k_tagcoarse(t):
    return t.v // 4


def k_ftrunc(x):
    return min(max(int(x // 1) if abs(x) < 1e9 else (10**6 if x > 0 else -(10**6)), -(10**6)), 10**6)


COMPLEX = Kind('complex', lambda i, v: complex(i % 5, i // 5))
OPTIONAL = Kind('optional', lambda i, v: i - 1 if i else None)
# ordered by inclusion only
SUBSETS = Kind('frozenset', lambda i, v: frozenset(j for j in range(13) if i >> j & 1))
DICT = Kind('dict', lambda i, v: {'k': i // 2, 'p': i % 2}, hashable=False)
REC = Kind('rec', lambda i, v: REC_POOL[i], plain=False)
REC_POOL = [Rec('r%d' % i, i // 3) for i in range(6001)]
REC_KEYED = Kind('rec', lambda i, v: REC_POOL[i % 6001], plain=False)

# (kind, key function, self-check usable: keys support <=)
KEYED = [
    (INT, k_neg, True),
    (INT, k_mod, True),
    (INT, k_half, True),
    (INT, k_coarse, True),
    (INT, k_const, True),
    (INT, k_identity, True),
    (INT, k_pair, True),
    (INT, k_str, True),
    (SIGNED, abs, True),
    (INT, k_cmp, True),
    (INT, k_table, True),
    (INT, k_lteq, False),
    (INT, k_tagkey, True),
    (LETTERS, len, True),
    (LETTERS, k_rev, True),
    (TUPLE, k_first, True),
    (TUPLE, k_second, True),
    (MIXED, k_neg, True),
    (COMPLEX, k_complex, True),
    (OPTIONAL, k_optional, True),
    (VARTUP, k_len, True),
    (VARTUP, k_rev, True),
    (COMPLEX, k_cabs, True),
    (DICT, k_dict, True),
    (REC_KEYED, k_rank, True),
    (TAG, k_tagval, True),
    (TAG, k_tagneg, True),
    (TAG, k_tagcoarse, True),
]
HASH_KEYED = [t for t in KEYED if t[0].hashable]
PLAIN_KEYED = [t for t in KEYED if t[0].plain and t[0] is not TAG and t[1] is not k_lteq and t[1] is not k_cmp]
PLAIN_HASH_KEYED = [t for t in PLAIN_KEYED if t[0].hashable]

# the self-check demands at least 4
LOADS = [4, 4, 5, 6, 7, 8, 10, 17, 33, 100, 1000]
SPANS = [3, 8, 20, 60, 200, 1000, 5000]


QUICK_TYPES = (int, float, str, bytes, tuple)


class Gen:
    """Draws values, probes and bulk iterables of one kind for one case."""

    def __init__(self, c, kind, span=None, big=True, huge=0, key=None):
        self.c = c
        self.kind = kind
        self.span = c.pick(SPANS) if span is None else span
        self.big = big and not c.small
        self.huge = 0  # initial size of the rare very large cases, one in `huge`
        if huge and c.int(0, huge - 1) == huge - 1 and self.big:
            self.huge = c.edge(3000, 50000)
            self.span = c.pick((5000, 20000, 60000))
            keys = [v if key is None else key(v) for v in (kind.mk(i * 239 % self.span, 0) for i in range(40))]
            if type(keys[0]) not in QUICK_TYPES or key is not None and len({repr(k) for k in keys}) < 30:
                self.huge = 3000  # slow to order, or long runs of equal keys

    def code(self):
        return self.c.int(0, self.span)

    def make(self, code):
        k = self.kind
        var = self.c.int(0, k.variants - 1) if k.variants > 1 else 0
        return k.mk(code, var)

    def value(self):
        return self.make(self.code())

    def values(self):
        """A list of values: few independent ones, or a long pattern."""
        c = self.c
        mode = c.int(0, 9)
        if mode < 5:
            return [self.value() for _ in range(c.int(0, 5))]
        if mode < 7:
            return [self.value() for _ in range(c.int(0, 20))]
        top = (40, 120, 400)[mode - 7]
        if self.big and mode == 9 and c.int(0, 5) == 0:
            top = 5000
        if self.huge and mode >= 8:
            top = self.huge * 2 // 3
        return self.pattern(c.edge(0, top))

    def pattern(self, n):
        c = self.c
        a = c.pick((1, 0, 2, 7, -1, 31, 389))
        b = c.int(0, self.span)
        rep = c.pick((1, 1, 1, 2, 5, 40))
        m = self.span + 1
        mk = self.kind.mk
        nv = self.kind.variants
        return [mk(((i // rep) * a + b) % m, (i * 7) % nv) for i in range(n)]

    def initial(self):
        """Initial contents: often empty, often long enough for many sublists."""
        c = self.c
        if self.huge:
            vals = self.pattern(self.huge)
            if self.huge > 3000 and vals[0] == vals[self.huge // 2] == vals[-1]:
                del vals[3000:]
            return vals
        mode = c.int(0, 7)
        if mode == 0:
            return []
        if mode <= 2:
            return [self.value() for _ in range(c.int(0, 12))]
        if mode <= 5:
            return self.pattern(c.edge(0, 60))
        if mode == 6 or not self.big:
            return self.pattern(c.edge(0, 300))
        return self.pattern(c.edge(300, 3000))


HASHABLE = (int, str, bytes, float, bool)  # these may be hashed without anyone noticing


def as_iterable(c, values, lists=True, maps=True):
    """Wrap values in some iterable type (contents and order unchanged); lists=False: no sorted list,
    whose own reflected operator Python would prefer; maps=False: no dict, whose items would count."""
    mode = c.int(0, 15)
    if mode == 8:
        return Unsaid(values)
    if mode == 9:
        return Untrue(values)
    if mode == 11:
        return text_of(values) or list(values)
    if mode == 12:
        from . import sut

        return sut.SortedDict(enumerate(values)).values()
    if mode == 13:
        return reversed(list(values)[::-1])
    if mode == 14:
        return map(lambda v: v, list(values))
    if mode == 15:
        import collections

        return collections.UserList(values)
    if mode == 10:
        mode = 0
        if all(type(v) in HASHABLE for v in values):
            made = dict.fromkeys(values, 'not this')
            if len(made) == len(values):
                kind = c.int(0, 3)
                return made if maps and kind >= 2 else PlainSet(made) if kind else made.keys()
    if mode == 5 and not lists:
        mode = 0
    if mode == 0:
        return list(values)
    if mode == 1:
        return tuple(values)
    if mode == 2:
        return (v for v in list(values))
    if mode == 3:
        return iter(list(values))
    if mode == 4:
        import collections

        return collections.deque(values)
    if mode == 5:
        # a sorted list under another key: its order is not the natural one
        from . import sut

        x = sut.SortedKeyList(values, key=k_const)
        if c.int(0, 1):
            x._reset(c.pick(LOADS))
        return x
    if mode == 6:
        return dict(enumerate(values)).values()
    return _Iterable(list(values))


def text_of(values):
    """The values as a str, bytes, array or range, if they are such."""
    import array

    made = None
    if not values:
        return ''
    if all(type(v) is str and len(v) == 1 for v in values):
        made = ''.join(values)
    elif all(type(v) is int and -5 <= v <= 256 for v in values):
        step = (values[1] - values[0] if len(values) > 1 else 0) or 1
        made = range(values[0], values[0] + step * len(values), step)
        if list(made) != list(values):
            made = bytes(values) if min(values) >= 0 and max(values) < 256 else array.array('q', values)
    # it must give the very same objects
    return made if made is not None and all(a is b for a, b in zip(made, values)) else None


class PlainSet(Set):
    """A set with nothing but the abstract base class."""

    def __init__(self, it):
        self._d = dict.fromkeys(it)

    def __contains__(self, v):
        return v in self._d

    def __iter__(self):
        return iter(self._d)

    def __len__(self):
        return len(self._d)

    def __repr__(self):
        return 'PlainSet(%r)' % (list(self._d),)


class Untrue:
    """An iterable that claims to be false."""

    def __init__(self, values):
        self._v = list(values)

    def __iter__(self):
        return iter(list(self._v))

    def __bool__(self):
        return False

    def __repr__(self):
        return '%s(%r)' % (type(self).__name__, self._v)


class Unsaid(Untrue):
    """An iterable that has no truth value (as arrays have none)."""

    def __bool__(self):
        raise ValueError('no truth value')


class _Iterable:
    """Iterable through the old sequence protocol only."""

    def __init__(self, values):
        self._v = values

    def __getitem__(self, i):
        return self._v[i]


def same(a, b):
    """Elementwise ==, no reliance on anything but == of elements."""
    if type(a) is list and type(b) is list:
        return a == b
    return len(a) == len(b) and all(x is y or x == y for x, y in zip(a, b))


def identical(a, b):
    return len(a) == len(b) and all(x is y for x, y in zip(a, b))


def multiset_equal(a, b):
    """a, b: lists of values supporting only ==."""
    if len(a) != len(b):
        return False
    rest = list(b)
    for x in a:
        for i, y in enumerate(rest):
            if x is y or x == y:
                del rest[i]
                break
        else:
            return False
    return True


def arranged(real, expected, key):
    """Is `real` an arrangement of the multiset `expected` (already in key order),
    in ascending key order?  Order among equal keys is free."""
    if same(real, expected):
        return True
    if len(real) != len(expected):
        return False
    kr = [key(v) for v in real] if key is not None else list(real)
    ke = [key(v) for v in expected] if key is not None else list(expected)
    if not same(kr, ke):
        return False
    i, n = 0, len(ke)
    while i < n:
        j = i + 1
        while j < n and ke[j] == ke[i]:
            j += 1
        if j - i > 1:
            if not multiset_equal(real[i:j], expected[i:j]):
                return False
        elif not (real[i] is expected[i] or real[i] == expected[i]):
            return False
        i = j
    return True


def must_raise(types, fn, *args, what='', **kw):
    try:
        got = fn(*args, **kw)
    except types as exc:
        return exc
    except Exception as exc:
        fail(what, 'raised', type(exc).__name__, 'instead of', str(types))
    fail(what, 'returned', got, 'instead of raising', str(types))
