"""Drives a SortedList/SortedKeyList and a plain-list model through one history."""
from bisect import bisect_left, bisect_right, insort_right
import sys

from . import sut
from .domains import (
    KEYED, LIST_KINDS, LOADS, Gen, arranged, as_iterable, identical, must_raise, same,
)
from .engine import Violation, fail, short

LIMIT = 6000


def build_list(c, values, key, cls=None, load=None):
    """Construct the container in one of the documented ways."""
    SL, SKL = sut.SortedList, sut.SortedKeyList
    mode = c.int(0, 3)
    if cls is not None:
        sl = cls(values) if key is None else cls(values, key=key)
    elif key is None:
        if mode == 0:
            sl = SL(values)
        elif mode == 1:
            sl = SL()
            if load:
                sl._reset(load)
            sl.update(values)
        elif mode == 2:
            sl = SL(iterable=as_iterable(c, values))
        else:
            sl = SL(values, key=None)
    else:
        if mode == 0:
            sl = SKL(values, key=key)
        elif mode == 1:
            sl = SL(key=key)
            if load:
                sl._reset(load)
            sl.update(values)
        elif mode == 2:
            sl = SL(as_iterable(c, values), key=key)
        else:
            sl = SKL(iterable=values, key=key)
    if cls is None:
        c.check(type(sl) is (SL if key is None else SKL), 'the constructor made a', type(sl).__name__, 'with key', key)
    if load and load != sut.DEFAULT_LOAD:
        sl._reset(load)
    return sl


class Int(int):
    """An integer of a subclass, as flags, enums and array scalars are."""


def odd_int(i):
    return bool(i) if i in (0, 1) else Int(i)


OPS = [
    'add', 'add_near', 'swap', 'update', 'iadd', 'burst_add', 'discard', 'remove', 'remove_absent', 'pop',
    'pop_at', 'del_at', 'del_slice', 'burst_del', 'thin', 'clear', 'reset', 'imul', 'self_update', 'reads',
]


class ListDriver:
    """`level`: 'strict' compares with the model after every step, 'sync' adopts
    the container's order among equal keys, 'adopt' copies the container's
    contents into the model after every mutation (for read properties)."""

    def __init__(self, c, keyed, level='strict', kinds=None, pool=None, loads=None, big=True, cls=None, huge=0):
        self.c = c
        self.level = level
        if keyed:
            self.kind, self.key, self.can_check = c.pick(pool or KEYED)
        else:
            self.kind = c.pick(kinds or LIST_KINDS)
            self.key = None
            self.can_check = self.kind.le
        self.gen = Gen(c, self.kind, big=big, huge=huge, key=self.key)
        self.load = c.pick(loads or LOADS)
        init = self.gen.initial()
        self.sl = build_list(c, init, self.key, cls, self.load)
        self.m = sorted(init, key=self.key)
        self.weights = None
        self.mutations = 0
        self.max_sublists = 0
        c.note(
            'new %s kind=%s key=%s load=%s values=%s'
            % (type(self.sl).__name__, self.kind, getattr(self.key, '__name__', self.key), self.load, short(init, 250))
        ) if c.verbose else None
        self.verify('constructor')

    # -- helpers --------------------------------------------------------
    def k(self, v):
        return v if self.key is None else self.key(v)

    def present(self):
        """Some value equal to a stored one, preferably; fresh instance sometimes."""
        c = self.c
        if self.m and c.int(0, 5):
            return self.m[c.edge(0, len(self.m) - 1)]
        return self.gen.value()

    def locate(self, v):
        """First position of an equal value in the model, or -1."""
        kv = self.k(v)
        i = bisect_left(self.m, kv, key=self.key)
        j = bisect_right(self.m, kv, lo=i, key=self.key)
        try:
            return self.m.index(v, i, j)
        except ValueError:
            return -1

    def choose(self, ops):
        c = self.c
        if self.weights is None:
            style = c.int(0, 3)
            if style == 0:
                self.weights = [(1, op) for op in ops]
            else:
                self.weights = [(c.pick((1, 3, 0, 8, 2, 1)), op) for op in ops]
                if not sum(w for w, _ in self.weights):
                    self.weights = [(1, op) for op in ops]
        return c.weighted(self.weights)

    def step(self, ops=OPS):
        op = self.choose(ops)
        getattr(self, 'op_' + op)()

    def verify(self, what):
        sl, m = self.sl, self.m
        real = list(sl)
        if len(sl) != len(real):
            fail('after', what, ': len() is', len(sl), 'but iteration yields', len(real), 'values')
        level = self.level
        if level == 'adopt':
            self.m = real
        elif level == 'identity':
            if not identical(real, m):
                fail('after', what, ': expected these very objects in this order', m, 'got', real)
        elif real != m:
            if level == 'sync':
                if not arranged(real, m, self.key):
                    fail('after', what, ': expected', m, 'got', real)
                self.m = real
            else:
                fail('after', what, ': expected', m, 'got', real)
        elif level == 'sync':
            self.m = real

    def did(self, what):
        self.mutations += 1
        if self.c.verbose:
            self.c.note(what)
        self.verify(what)

    def size_ok(self, extra):
        return len(self.m) + extra <= LIMIT + self.gen.huge

    # -- mutations ------------------------------------------------------
    def op_add(self, *given):
        v = given[0] if given else self.gen.value()
        got = self.sl.add(v)
        insort_right(self.m, v, key=self.key)
        self.c.check(got is None, 'add returned', got)
        self.did('add(%s)' % short(v, 80) if self.c.verbose else 'add')

    def op_add_near(self):
        """Add a value equal to a stored one (often the first or last)."""
        v = self.present()
        self.op_add(v)

    def op_update(self):
        c = self.c
        vals = self.gen.values()
        if not self.size_ok(len(vals)):
            vals = vals[:3]
        c.note('update(%s)' % short(vals)) if c.verbose else None
        got = self.sl.update(as_iterable(c, vals))
        c.check(got is None, 'update returned', got)
        self.m = sorted(self.m + vals, key=self.key)
        self.did('update')

    def op_iadd(self):
        c = self.c
        vals = self.gen.values()
        if not self.size_ok(len(vals)):
            vals = vals[:3]
        before = self.sl
        c.note('+= %s' % short(vals)) if c.verbose else None
        self.sl += as_iterable(c, vals)
        c.check(self.sl is before, '+= changed the identity of the list')
        self.m = sorted(self.m + vals, key=self.key)
        self.did('+=')

    def op_burst_add(self):
        c = self.c
        n = c.int(1, 45)
        if self.gen.big and self.load >= 100 and c.int(0, 3) == 3:
            n *= 40
        if not self.size_ok(n):
            return
        base, step, mk, nv = self.gen.code(), c.pick((0, 1, 3, -1, 17)), self.kind.mk, self.kind.variants
        mod = self.gen.span + 1
        vals = [mk((base + i * step) % mod, (i * 5) % nv) for i in range(n)]
        add = self.sl.add
        for v in vals:
            add(v)
        self.m = sorted(self.m + vals, key=self.key)
        c.note('add each of %s' % short(vals)) if c.verbose else None
        self.did('burst of add')

    def drop(self, v, what):
        i = self.locate(v)
        if i < 0:
            return False
        if self.level == 'identity':
            # any one of the equal objects may go; the rest keep their order
            real = list(self.sl)
            if len(real) != len(self.m) - 1:
                fail('after', what, ': expected', len(self.m) - 1, 'values, got', len(real))
            j = 0
            while j < len(real) and real[j] is self.m[j]:
                j += 1
            if not (self.m[j] is v or self.m[j] == v):
                fail('after', what, ': removed', self.m[j], 'or disturbed the order: was', self.m, 'now', real)
            del self.m[j]
        else:
            del self.m[i]
        return True

    def op_swap(self):
        """One value goes, another comes: the size stays."""
        if self.m:
            v = self.c.pick(self.m)
            self.c.note('remove(%s)' % short(v, 80)) if self.c.verbose else None
            self.sl.remove(v)
            self.drop(v, 'remove')
        self.op_add()

    def op_discard(self):
        v = self.present()
        got = self.sl.discard(v)
        self.c.check(got is None, 'discard returned', got)
        self.drop(v, 'discard')
        self.did('discard(%s)' % short(v, 80) if self.c.verbose else 'discard')

    def op_remove(self):
        v = self.present()
        if self.c.verbose:
            self.c.note('remove(%s)' % short(v, 80))
        if self.locate(v) < 0:
            must_raise(ValueError, self.sl.remove, v, what='remove of an absent value')
        else:
            got = self.sl.remove(v)
            self.c.check(got is None, 'remove returned', got)
            self.drop(v, 'remove')
        self.did('remove')

    def op_remove_absent(self):
        v = self.gen.value()
        if self.locate(v) >= 0:
            return self.op_discard()
        if self.c.verbose:
            self.c.note('remove absent %s' % short(v, 80))
        must_raise(ValueError, self.sl.remove, v, what='remove of an absent value')
        self.sl.discard(v)
        self.did('remove/discard absent')

    def agree(self, got, want, what):
        if got is want:
            return
        if self.level == 'identity':
            fail(what, 'returned', got, 'which is not the stored object', want)
        if not got == want:
            if self.level == 'sync' and self.k(got) == self.k(want):
                return  # order among equal keys is not this property's business
            fail(what, 'returned', got, 'expected', want)

    def op_pop(self):
        c = self.c
        c.note('pop()') if c.verbose else None
        if not self.m:
            must_raise(IndexError, self.sl.pop, what='pop from an empty list')
        else:
            got = self.sl.pop()
            self.take(-1, got, 'pop()')
        self.did('pop')

    def take(self, i, got, what):
        """The container popped `got` from position i of the model."""
        want = self.m[i]
        self.agree(got, want, what)
        if got is want or got == want:
            del self.m[i]
        else:  # sync level: another value with an equal key
            j = self.locate(got)
            if j < 0:
                fail(what, 'returned', got, 'which is not stored')
            del self.m[j]

    def index(self):
        """An index, mostly valid."""
        c, n = self.c, len(self.m)
        mode = c.int(0, 9)
        if mode == 9 or n == 0:
            return c.pick((n, -n - 1, n + 1, -n - 2, n + 5000, -n - 5000, sys.maxsize, -sys.maxsize - 1, 10**25, -(10**25)))
        i = c.edge(0, n - 1) if mode < 6 else -1 - c.edge(0, n - 1)
        return odd_int(i) if c.int(0, 11) == 11 else i

    def op_pop_at(self):
        c = self.c
        i = self.index()
        c.note('pop(%d) of %d' % (i, len(self.m))) if c.verbose else None
        if -len(self.m) <= i < len(self.m):
            got = self.sl.pop(i)
            self.take(i, got, 'pop(%d)' % i)
        else:
            must_raise(IndexError, self.sl.pop, i, what='pop(%d) of %d' % (i, len(self.m)))
        self.did('pop(i)')

    def op_del_at(self):
        c = self.c
        i = self.index()
        c.note('del [%d] of %d' % (i, len(self.m))) if c.verbose else None
        if -len(self.m) <= i < len(self.m):
            del self.sl[i]
            if self.level == 'sync':
                self.sync_deleted([self.m[i]])
            else:
                del self.m[i]
        else:
            must_raise(IndexError, self.sl.__delitem__, i, what='del [%d] of %d' % (i, len(self.m)))
        self.did('del [i]')

    def sync_deleted(self, gone):
        """Positions are decided by C03; here only the number and keys must fit."""
        real = list(self.sl)
        want = len(self.m) - len(gone)
        if len(real) != want:
            fail('deletion by position left', len(real), 'values instead of', want)
        counts = {}
        for v in gone:
            kv = self.k(v)
            for entry in counts.setdefault(repr(kv), []):
                if entry[0] == kv:
                    entry[1] += 1
                    break
            else:
                counts[repr(kv)].append([kv, 1])
        # remove, per key, that many members that are missing from the container
        j = 0
        out = []
        for v in self.m:
            if j < len(real) and (real[j] is v or real[j] == v):
                out.append(v)
                j += 1
        if len(out) == want:
            self.m = out
        # else verify() reports the difference
        else:
            self.m = [v for v in self.m if not any(v is g for g in gone)]

    def slice(self):
        c, n = self.c, len(self.m)

        def bound():
            mode = c.int(0, 6)
            if mode == 0:
                return None
            if mode == 1:
                return c.pick((0, n, -n, n + 3, -n - 3, -1, 1, n - 1, sys.maxsize, -(10**25)))
            if mode == 2:
                return -c.int(0, n)
            return c.int(0, n)

        start, stop = bound(), bound()
        mode = c.int(0, 9)
        if mode < 5:
            step = c.pick((None, 1))
        elif mode < 7:
            step = -1
        else:
            step = c.pick((2, 3, -2, 5, -3, 7, -7, n + 1, -n - 1))
        if c.int(0, 11) == 11:
            return slice(*(None if b is None else odd_int(b) for b in (start, stop, step)))
        return slice(start, stop, step)

    def op_del_slice(self, s=None):
        c = self.c
        s = s or self.slice()
        c.note('del [%s] of %d' % (s, len(self.m))) if c.verbose else None
        gone = self.m[s]
        del self.sl[s]
        if self.level == 'sync':
            self.sync_deleted(gone)
        else:
            del self.m[s]
        self.did('del slice')

    def op_burst_del(self):
        """Delete a run of neighbours one at a time (merges sublists)."""
        c, n = self.c, len(self.m)
        if not n:
            return
        count = min(n, c.int(1, 40))
        if self.gen.big and self.load >= 100 and c.int(0, 3) == 3:
            count = min(n, count * 40)
        at = c.edge(0, n - count)
        how = c.int(0, 3)
        c.note('delete %d values from position %d on, way %d' % (count, at, how)) if c.verbose else None
        gone = self.m[at : at + count]
        sl = self.sl
        if how == 0 or self.level in ('identity', 'sync') and how < 3:
            for _ in range(count):
                del sl[at]
        elif how == 1:
            for i in range(at + count - 1, at - 1, -1):
                sl.pop(i)
        elif how == 2:
            for v in gone:
                sl.remove(v)
        else:
            for i in range(count):
                del sl[at - len(self.m) + i]
        if self.level == 'sync':
            self.sync_deleted(gone)
        else:
            del self.m[at : at + count]
        self.did('burst of deletions')

    def op_thin(self):
        """Single deletions all over: every sublist gets short, few are merged."""
        c, n = self.c, len(self.m)
        stride, at, keep = c.pick((2, 3, 2, 4, 3, 7)), c.int(0, 6), c.int(0, 1)
        gone = [i for i in range(at, n) if ((i - at) % stride == 0) != keep]
        c.note('delete %d of %d positions: from %d on, stride %d, %s' % (len(gone), n, at, stride, 'keeping them' if keep else 'these')) if c.verbose else None
        sl = self.sl
        for i in reversed(gone):
            del sl[i]
        values = [self.m[i] for i in gone]
        if self.level == 'sync':
            self.sync_deleted(values)
        else:
            for i in reversed(gone):
                del self.m[i]
        self.did('spread deletions')

    def op_clear(self):
        c = self.c
        if len(self.m) > 20 and c.int(0, 2):
            return
        c.note('clear()') if c.verbose else None
        self.sl.clear()
        self.m = []
        self.did('clear')

    def op_reset(self):
        c = self.c
        self.load = c.pick(LOADS)
        c.note('_reset(%d)' % self.load) if c.verbose else None
        self.sl._reset(self.load)
        self.did('_reset')

    def op_imul(self):
        c = self.c
        n = c.pick((1, 0, 2, 3, -1, 5))
        if not self.size_ok(len(self.m) * n):
            return
        if n <= 0 and len(self.m) > 20 and c.int(0, 2):
            return
        before = self.sl
        c.note('*= %d' % n) if c.verbose else None
        self.sl *= n
        c.check(self.sl is before, '*= changed the identity of the list')
        self.m = sorted(self.m * n, key=self.key)
        self.did('*=')

    def op_self_update(self):
        c = self.c
        if not self.size_ok(len(self.m)) or len(self.m) > 1500:
            return
        how = c.int(0, 3)
        c.note('update with itself, way %d' % how) if c.verbose else None
        if how == 0:
            self.sl.update(self.sl)
        elif how == 1:
            self.sl += self.sl
        elif how == 2:
            self.sl.update(iter(self.sl))
        else:
            self.sl.update(reversed(self.sl))
            self.m = sorted(self.m + self.m[::-1], key=self.key)
            return self.did('self update')
        self.m = sorted(self.m + self.m, key=self.key)
        self.did('self update')

    def op_reads(self):
        """Reads whose answers are judged elsewhere; here they only happen."""
        touch(self.c, self.sl, self.m, self.gen)

    def self_check(self):
        if self.can_check:
            try:
                self.sl._check()
            except Exception as exc:
                fail('_check() raised', type(exc).__name__, str(exc), 'contents', self.m)


def touch(c, sl, m, gen):
    n = len(m)
    how = c.int(0, 7)
    try:
        if how == 0:
            sl[c.int(0, max(0, n - 1))]
        elif how == 1:
            sl[n // 2 : n // 2 + 3]
        elif how == 2:
            sl.bisect_right(gen.value())
        elif how == 3:
            sl.count(gen.value())
        elif how == 4:
            list(sl.islice(n // 3, n - 1))
        elif how == 5:
            gen.value() in sl
        elif how == 6:
            list(sl.irange(gen.value(), None))
        else:
            sl.index(gen.value())
    except Violation:
        raise
    except Exception:
        pass


def layout(sl):
    """Number of sublists if visible (only used to classify cases)."""
    return len(getattr(sl, '_lists', ()))
