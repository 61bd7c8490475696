"""C18, C23: failing calls; types."""
import copy
import operator
import pickle

from vt import sut
from vt.calls import content
from vt.domains import (
    HASH_KEYED, HASH_KINDS, INT, LOADS, PLAIN_HASH_KEYED, PLAIN_HASH_KINDS, PLAIN_KEYED, PLAIN_LIST_KINDS, SIGNED, TUPLE, Gen,
    arranged, identical, must_raise, same,
)
from vt.engine import fail, prop, short
from vt.listdrv import ListDriver, layout

from .cross import LowKeyList, LowList, SubKeyList, SubList
from .dicts import DICT_OPS, DictDriver, SubDict
from .lists import MUTATE
from .sets import SET_OPS, SetDriver, SubSet


class Boom(Exception):
    """Raised by the harness inside the library."""


class Halt(BaseException):
    """Likewise, but as an interruption, which `except Exception` lets through."""


BOOMS = (Boom, Halt)
raising = [Boom]


def broken(values, at):
    """Yields some values and then fails."""
    for i, v in enumerate(values):
        if i == at:
            raise raising[0]('iterable')
        yield v
    raise raising[0]('iterable')


class Poison(int):
    """An int that cannot be ordered against some of the other ints."""

    hates = None

    def _touch(self, other):
        if self.hates is not None and self.hates(other):
            raise raising[0]('comparison')
        if isinstance(other, Poison) and other.hates is not None and other.hates(self):
            raise raising[0]('comparison')

    def __lt__(self, other):
        self._touch(other)
        return int.__lt__(self, other)

    def __gt__(self, other):
        self._touch(other)
        return int.__gt__(self, other)

    def __le__(self, other):
        self._touch(other)
        return int.__le__(self, other)

    def __ge__(self, other):
        self._touch(other)
        return int.__ge__(self, other)

    __hash__ = int.__hash__


class TwinPoison(Poison):
    """One that is equal to a stored element."""


class Touchy(int):
    """An int whose comparison for equality fails; ordered and hashed as usual."""

    armed = False

    def __eq__(self, other):
        if Touchy.armed:
            raise raising[0]('equality')
        return int.__eq__(self, other)

    def __ne__(self, other):
        if Touchy.armed:
            raise raising[0]('equality')
        return int.__ne__(self, other)

    __hash__ = int.__hash__


ALIENS = [None, 'zz', 5, 2j, object(), (1,), b'q', frozenset(), Boom]


class Faults:
    def __init__(self, c, d, face):
        self.c, self.d, self.face = c, d, face
        self.raised = 0
        self.bulk_raised = 0
        self.fuse = None
        self.watched = []

    def watch(self, arg):
        """An argument that must survive the failing call as it is."""
        self.watched.append((arg, list(arg.items()) if isinstance(arg, dict) else list(arg)))
        return arg

    def arguments(self, what):
        for arg, was in self.watched:
            if isinstance(arg, dict):
                now = list(arg.items())
                ok = len(now) == len(was) and all(k is a and v is b for (k, v), (a, b) in zip(now, was))
            else:
                now = list(arg)
                ok = identical(now, was)
            if not ok:
                fail(what, 'changed its argument from', was, 'to', now)
        del self.watched[:]

    @property
    def x(self):
        return self.d.sl if self.face == 'list' else self.d.x

    @property
    def order(self):
        return self.d.m

    # -- judging ----------------------------------------------------------
    def adopt(self):
        d = self.d
        if self.face == 'list':
            d.m = list(d.sl)
        elif self.face == 'set':
            d.order = list(d.x)
            d.s = set(d.order)
        else:
            d.order = list(d.x)
            d.d = dict(content(d.x))

    def consistent(self, what):
        if self.fuse is not None:
            self.fuse.hates = None
        x, key = self.x, self.d.key
        now = list(x)
        if len(x) != len(now):
            fail(what, 'left len', len(x), 'but iteration yields', now)
        if list(reversed(x)) != now[::-1]:
            fail(what, 'left reversed() at odds with iteration:', now)
        if not arranged(now, sorted(now, key=key), key):
            fail(what, 'left the content unsorted:', now)
        if self.face != 'list':
            for v in now:
                if v not in x:
                    fail(what, 'left', v, 'iterated but not contained')
            inner = set(now)
            if len(inner) != len(now):
                fail(what, 'left duplicates:', now)
        if self.face == 'dict':
            hidden = [k for k in dict.keys(x) if k not in inner]
            if hidden:
                fail(what, 'left keys that are contained but not iterated:', hidden)
        if self.d.can_check:
            try:
                x._check()
            except Exception as exc:
                fail(what, 'left a container failing its self-check:', type(exc).__name__, exc)

    def expect(self, types, fn, *args, what=''):
        """The call must raise and change nothing at all."""
        if self.c.verbose:
            self.c.note('failing: ' + what)
        before = content(self.x)
        try:
            fn(*args)
        except types:
            pass
        except Exception as exc:
            fail(what, 'raised', type(exc).__name__, str(exc), 'instead of', str(types))
        else:
            fail(what, 'did not raise', str(types), 'on', before)
        self.raised += 1
        self.unchanged(before, what)

    def unchanged(self, before, what):
        if self.fuse is not None:
            self.fuse.hates = None
        now = content(self.x)
        if self.face == 'dict':
            ok = identical([k for k, _ in now], [k for k, _ in before]) and identical([v for _, v in now], [v for _, v in before])
        else:
            ok = identical(now, before)
        if not ok:
            fail('the failed', what, 'changed the content from', before, 'to', now)
        self.consistent('the failed ' + what)
        self.arguments(what)

    def bulk(self, types, fn, given, what):
        """The bulk call may raise (and then may have stored some of `given`)."""
        if self.c.verbose:
            self.c.note('bulk: ' + what)
        before = content(self.x)
        try:
            fn()
        except types:
            self.raised += 1
            self.bulk_raised += 1
        except Exception as exc:
            fail(what, 'raised', type(exc).__name__, str(exc), 'instead of', str(types))
        self.superset(before, given, what)

    def superset(self, before, given, what):
        self.consistent('the failed ' + what)
        self.arguments(what)
        now = content(self.x)
        ids_now = [id(v[0]) if self.face == 'dict' else id(v) for v in now]
        counts = {}
        for i in ids_now:
            counts[i] = counts.get(i, 0) + 1
        for e in before:
            v = e[0] if self.face == 'dict' else e
            if not counts.get(id(v)):
                fail('the failed', what, 'lost', v, ': was', before, 'now', now)
            counts[id(v)] -= 1
        gave = {}
        for g in given:
            gave[id(g)] = gave.get(id(g), 0) + 1
        for e in now:
            v = e[0] if self.face == 'dict' else e
            if counts.get(id(v)):
                counts[id(v)] -= 1
                if not gave.get(id(v)):
                    fail('the failed', what, 'stored', v, 'which was not given: was', before, 'now', now)
                gave[id(v)] -= 1
        self.adopt()

    # -- material -----------------------------------------------------------
    def alien(self):
        """A value that cannot be ordered against the content, or None."""
        c, d, order = self.c, self.d, self.order
        if not order:
            return None
        if d.kind is TUPLE and d.key is None and c.int(0, 1):
            first = [v for v in order if type(v) is tuple and type(v[1]) is int]
            if first:
                return [(c.pick(first)[0], 'x')]
        start = c.int(0, len(ALIENS) - 1)
        for a in ALIENS[start:] + ALIENS[:start]:
            if self.refuses(a):
                return [a]
        return None

    def refuses(self, a):
        key = self.d.key
        try:
            ka = a if key is None else key(a)
        except Exception:
            return True
        for v in self.order:
            kv = v if key is None else key(v)
            for f in (lambda: ka < kv, lambda: kv < ka):
                try:
                    f()
                except Exception:
                    continue
                return False
        return True

    def batch(self, alien):
        """Values with an alien somewhere, of a size on either side of the bulk switch."""
        c, d = self.c, self.d
        n = len(self.order)
        k = c.pick((0, 1, 2, n // 10, n // 4, n // 3 + 1, n // 2 + 2))
        vals = d.gen.pattern(min(k, 300)) if c.int(0, 1) else [d.gen.value() for _ in range(min(k, 12))]
        vals.insert(c.int(0, len(vals)), alien)
        return vals

    def good_values(self):
        c, n = self.c, len(self.order)
        return self.d.gen.pattern(c.pick((0, 1, 3, n // 10, n // 4 + 1, n // 2 + 2, 2 * n + 2)))[:400]

    ORDER_ERRORS = Exception  # whatever the key function or the comparison raises

    # -- one failing step ------------------------------------------------------
    def step(self):
        special = self.c.int(0, 11)
        if special >= 10 and self.order and self.d.kind in (INT, SIGNED):
            return self.fail_equality() if special == 11 else self.fail_twin()
        getattr(self, 'fail_' + self.face)()

    def fail_equality(self):
        """The comparison of the argument with an equal element fails."""
        c, d, x, order = self.c, self.d, self.x, self.order
        plain = [v for v in order if type(v) is int]  # other subclasses of int would not ask it
        if not plain:
            return
        t = Touchy(c.pick(plain))
        before = content(x)
        given = None
        if self.face == 'list':
            name = c.pick(('remove', 'discard', '__contains__', 'index', 'count'))
            args = (t,)
        elif self.face == 'set':
            name = c.pick(
                ('add', 'remove', 'discard', '__contains__', 'count', 'update', '__ior__', 'difference_update', '__isub__', 'intersection_update', '__iand__',
                 'symmetric_difference_update', '__ixor__', 'difference', 'union', 'intersection', 'symmetric_difference')
            )
            args = (t,)
            if name not in ('add', 'remove', 'discard', '__contains__', 'count'):
                given = [v for v in self.good_values() if v != t]
                given.insert(c.int(0, len(given)), t)
                args = (given,)
        else:
            name, args = c.pick(
                (('__setitem__', (t, 1)), ('setdefault', (t, 1)), ('pop', (t,)), ('__delitem__', (t,)), ('get', (t,)), ('__contains__', (t,)), ('update', None), ('__ior__', None))
            )
            if args is None:
                given = [v for v in self.good_values() if v != t]
                given.insert(c.int(0, len(given)), t)
                args = ([(v, 0) for v in given],)
        what = '%s(%s) with an element whose equality fails' % (name, short(args))
        c.note(what) if c.verbose else None
        Touchy.armed = True
        try:
            getattr(x, name)(*args)
        except BOOMS:
            self.raised += 1
            failed = True
        except Exception as exc:
            Touchy.armed = False
            fail(what, 'raised', type(exc).__name__, str(exc))
        else:
            failed = False
        finally:
            Touchy.armed = False
        if name in ('update', '__ior__'):
            if not failed:
                fail(what, 'did not raise')
            if self.face == 'dict':
                # values of keys given before the failing one may have been replaced
                self.consistent('the failed ' + what)
                now = list(x)
                if [v for v in now if not any(v is g for g in given)] != [k for k, _ in before if not any(k is g for g in given)]:
                    fail(what, 'changed the keys from', before, 'to', now)
                for k, _ in before:
                    if k not in x:
                        fail(what, 'lost', k)
                self.adopt()
            else:
                self.superset(before, given, what)
        elif failed:
            self.unchanged(before, what)
        else:
            self.consistent(what)
            self.adopt()

    def fail_twin(self):
        """An argument equal to an element, hashed alike, that cannot be ordered."""
        c, d, x, order = self.c, self.d, self.x, self.order
        plain = [v for v in order if type(v) is int]
        if not plain:
            return
        poison = c.int(0, 2) == 2

        def twin(v):
            if not poison:
                return complex(v)
            t = TwinPoison(v)
            t.hates = lambda other: self.armed
            return t

        self.armed = True
        targets = [c.pick(plain)]
        given, pairs = None, None
        if self.face == 'list':
            name = c.pick(('remove', 'discard', '__contains__', 'index', 'count'))
        elif self.face == 'set':
            name = c.pick(
                ('add', 'remove', 'discard', '__contains__', 'index', 'update', '__ior__', 'difference_update', 'difference_update', '__isub__', 'intersection_update',
                 'intersection_update', '__iand__', 'symmetric_difference_update', '__ixor__', 'difference', 'intersection', 'symmetric_difference', 'union')
            )
        else:
            name = c.pick(('__setitem__', 'setdefault', 'pop', 'pop2', '__delitem__', '__delitem__', 'get', '__contains__', 'index', 'update', '__ior__'))
        if name.strip('_') in ('update', 'ior', 'difference_update', 'isub', 'intersection_update', 'iand', 'symmetric_difference_update', 'ixor', 'difference', 'intersection', 'symmetric_difference', 'union'):
            targets += [c.pick(plain) for _ in range(c.pick((0, 1, 2, 5, len(plain) // 3)))]
            given = [twin(v) for v in targets[:40]]
            for v in self.good_values() if c.int(0, 1) else ():
                given.insert(c.int(0, len(given)), v)
            args = (given,)
            if self.face == 'dict':
                args = ([(v, 'twin') for v in given],)
                if c.int(0, 1):
                    args = (dict(args[0]),)
            elif c.int(0, 1):
                args = (set(given),)
        elif name in ('__setitem__', 'setdefault', 'pop2'):
            args = (twin(targets[0]), 'twin')
            name = name.replace('2', '')
        else:
            args = (twin(targets[0]),)
        what = '%s(%s) with %s' % (name, short(args), 'elements failing all comparisons' if poison else 'unorderable elements')
        c.note(what) if c.verbose else None
        before = content(x)
        failed = False
        try:
            getattr(x, name)(*args)
        except (Exception, Halt) as exc:
            failed = True
            self.raised += 1
            if isinstance(exc, (AttributeError, AssertionError, RuntimeError)):
                fail(what, 'raised', type(exc).__name__, exc)
        finally:
            self.armed = False
        partial = ('update', '__ior__', 'difference_update', '__isub__')
        if failed and name not in partial:
            self.unchanged(before, what)
            return
        now = content(x)
        for v in [e[0] if self.face == 'dict' else e for e in now]:
            if type(v) in (complex, TwinPoison):
                # equal to what was there, so a legitimate survivor; not to be kept
                if failed or name not in ('intersection_update', '__iand__'):
                    fail(what, 'stored', v)
                x.clear()
                x.update(e for e in before if e in now)
                break
        self.consistent(what)
        if failed:
            # some of the given values may have been stored or removed, nothing else
            keys = (lambda es: [e[0] for e in es]) if self.face == 'dict' else list
            mentioned = set(given)
            keep = [v for v in keys(before) if v not in mentioned]
            kept = [v for v in keys(now) if v not in mentioned]
            if not arranged(kept, keep, d.key):
                fail('the failed', what, 'changed what it did not mention:', keep, 'to', kept)
            grew, was = keys(now), set(keys(before))
            if name in ('update', '__ior__'):
                for v in keys(before):
                    if v not in x:
                        fail('the failed', what, 'lost', v)
            elif any(v not in was for v in grew):
                fail('the failed', what, 'stored', [v for v in grew if v not in was])
        self.adopt()

    def poison(self):
        """A comparison that fails midway (integers only)."""
        c, d = self.c, self.d
        if d.key is not None or d.kind not in (INT, SIGNED):
            return None
        p = Poison(d.gen.value())
        how = c.int(0, 4)
        if how == 0:
            p.hates = lambda other: True
        elif how == 1:
            m, r = c.int(1, 7), c.int(0, 6)
            p.hates = lambda other: other % m == r
        else:
            near = c.pick(self.order) if self.order else 0
            p.hates = (lambda other: other == near, lambda other: other >= near, lambda other: other <= near)[how - 2]
        self.fuse = p
        return p

    def out_of_range(self):
        n = len(self.order)
        return self.c.pick((n, -n - 1, n + 1, n + 1000, -n - 1000))

    def common_positions(self, targets):
        """Failing positional access shared by lists, sets and views."""
        c = self.c
        name, t = c.pick(targets)
        i = self.out_of_range()
        zero = slice(c.pick((None, 0, 1)), c.pick((None, 3, -1)), 0)
        how = c.int(0, 5)
        if how == 0:
            self.expect(IndexError, operator.getitem, t, i, what='%s[%d] of %d' % (name, i, len(self.order)))
        elif how == 1:
            self.expect(IndexError, operator.delitem, t, i, what='del %s[%d] of %d' % (name, i, len(self.order)))
        elif how == 2:
            self.expect(ValueError, operator.getitem, t, zero, what='%s[%s]' % (name, zero))
        elif how == 3:
            self.expect(ValueError, operator.delitem, t, zero, what='del %s[%s]' % (name, zero))
        elif how == 4:
            self.expect((TypeError, IndexError), operator.getitem, t, 'a', what='%s["a"]' % name)
        else:
            self.expect((TypeError, IndexError), operator.delitem, t, 'a', what='del %s["a"]' % name)

    def absent(self):
        v = self.d.gen.value()
        for _ in range(4):
            if not any(v == w for w in self.order):
                return [v]
            v = self.d.gen.value()
        return None

    def derive(self, alien):
        """An operation that would make a new container fails; operands stay as they are."""
        c, d, x = self.c, self.d, self.x
        vals = self.batch(alien)
        if self.face == 'list':
            arg = c.pick((list, list, tuple))(vals)
            name, fn = c.pick((('+', lambda: x + arg), ('reflected +', lambda: arg + x), ('__radd__', lambda: x.__radd__(arg))))
        elif self.face == 'set':
            how = c.int(0, 5)
            if how >= 3:
                vals = [v for v in vals if v is alien or v not in x]
            arg = c.pick((set, list))(vals) if how % 3 == 0 else set(vals)
            name, fn = (
                ('union', lambda: x.union(arg)), ('|', lambda: x | arg), ('reflected |', lambda: arg | x),
                ('symmetric_difference', lambda: x.symmetric_difference(arg)), ('^', lambda: x ^ arg), ('reflected ^', lambda: arg ^ x),
            )[how]
        else:
            arg = dict(d.pairs(vals))
            name, fn = c.pick((('|', lambda: x | arg), ('reflected |', lambda: arg | x)))
        self.watch(arg)
        self.expect(self.ORDER_ERRORS, fn, what='%s with %s' % (name, short(vals)))

    def fail_list(self):
        c, d, x, n = self.c, self.d, self.x, len(self.order)
        how = c.int(0, 11)
        if how == 0:
            self.common_positions([('list', x)])
        elif how == 1:
            i = self.out_of_range()
            self.expect(IndexError, x.pop, i, what='pop(%d) of %d' % (i, n))
        elif how == 2:
            v = self.absent()
            if v:
                self.expect(ValueError, x.remove, v[0], what='remove(absent)')
                self.expect(ValueError, x.index, v[0], what='index(absent)')
        elif how == 3:
            v = d.gen.value()
            i = c.edge(-n, max(0, n - 1))
            name, args = c.pick(
                (
                    ('append', (v,)), ('append', (self.order[-1] if n else v,)), ('extend', ([v],)), ('extend', ([],)), ('extend', (iter(()),)), ('extend', (x,)),
                    ('extend', (list(self.order[-1:]),)), ('insert', (i, v)), ('insert', (n, self.order[-1] if n else v)), ('reverse', ()), ('__setitem__', (i, v)),
                    ('__setitem__', (i, self.order[i] if n else v)), ('__setitem__', (slice(0, 1), [v])), ('__setitem__', (slice(None), list(self.order))),
                    ('__setitem__', (slice(n, n), ())), ('__setitem__', (slice(None, None, 2), list(self.order[::2]))),
                )
            )
            self.expect(NotImplementedError, getattr(x, name), *args, what=name)
        elif how == 4:
            name, fn = c.pick(
                (('* 1.5', lambda: x * 1.5), ('*= 1.5', lambda: operator.imul(x, 1.5)), ('+ 5', lambda: x + 5), ('update(5)', lambda: x.update(5)),
                 ('+= None', lambda: operator.iadd(x, None)), ('< 5', lambda: x < 5), ("pop('a')", lambda: x.pop('a')))
            )
            self.expect((TypeError, IndexError), fn, what=name)
        elif how <= 6:
            vals = self.good_values()
            at = c.edge(0, len(vals))
            name, fn = c.pick(
                (('update', x.update), ('+=', lambda it: operator.iadd(x, it)), ('+', lambda it: x + it), ('reflected +', lambda it: x.__radd__(it)))
            )
            self.expect(BOOMS, fn, broken(vals, at), what='%s of an iterable failing after %d of %d' % (name, at, len(vals)))
        elif how <= 8:
            a = self.alien()
            if a is None:
                return
            if c.int(0, 1):
                self.expect(self.ORDER_ERRORS, x.add, a[0], what='add(%r)' % (a[0],))
            else:
                name, args = c.pick((('remove', ()), ('discard', ()), ('__contains__', ()), ('bisect_left', ()), ('bisect_right', ()), ('count', ()), ('index', ())))
                # a probe that cannot be ordered: an error, or simply not found
                before = content(x)
                self.c.note('%s(%r)' % (name, a[0])) if c.verbose else None
                try:
                    getattr(x, name)(a[0])
                except Exception:
                    self.raised += 1
                self.unchanged(before, '%s(%r)' % (name, a[0]))
        elif how <= 10:
            a = self.alien()
            if a is None:
                return
            if c.int(0, 3) == 0:
                return self.derive(a[0])
            vals = self.batch(a[0])
            name, fn = c.pick((('update', x.update), ('+=', lambda it: operator.iadd(x, it))))
            arg = self.watch(list(vals))
            self.bulk(self.ORDER_ERRORS, lambda: fn(arg), vals, '%s(%s)' % (name, short(vals)))
            if any(v is a[0] for v in x):
                fail('a value that cannot be ordered was stored:', a[0], list(x))
        else:
            p = self.poison()
            if p is None:
                return
            if c.int(0, 1):
                before = content(x)
                what = 'add(%d) with some comparisons failing' % p
                c.note(what) if c.verbose else None
                try:
                    x.add(p)
                except BOOMS:
                    self.raised += 1
                    self.unchanged(before, what)
            else:
                vals = self.batch(p)
                self.watch(vals)
                self.bulk(BOOMS, lambda: x.update(vals), vals, 'update(%s) with some comparisons of %d failing' % (short(vals), p))
            p.hates = None
            self.consistent('a failed comparison')
            self.adopt()

    def fail_set(self):
        c, d, x, n = self.c, self.d, self.x, len(self.order)
        how = c.int(0, 11)
        if how == 0:
            self.common_positions([('set', x)])
        elif how == 1:
            i = self.out_of_range()
            self.expect(IndexError, x.pop, i, what='pop(%d) of %d' % (i, n))
        elif how == 2:
            v = self.absent()
            if v:
                self.expect(KeyError, x.remove, v[0], what='remove(absent)')
        elif how == 3:
            bad = c.pick(([], {}, [1], set()))
            vals = self.good_values()
            name, args = c.pick(
                (('add', (bad,)), ('update', (vals, [bad])), ('update', (vals + [bad],)), ('union', (vals + [bad],)), ('remove', ([],)), ('discard', ([],)),
                 ('difference_update', (vals + [bad],)), ('symmetric_difference_update', (vals + [bad],)), ('symmetric_difference', (vals + [bad],)),
                 ('__ior__', ([bad],)), ('__ixor__', (vals + [bad],)), ('__contains__', ([],)), ('intersection_update', (vals, 5)), ('update', (5,)), ('__isub__', (5,)))
            )
            self.expect(TypeError, getattr(x, name), *args, what='%s(%s)' % (name, short(args)))
        elif how == 4:
            name, fn = c.pick((('< 5', lambda: x < 5), ('>= []', lambda: x >= []), ("pop('a')", lambda: x.pop('a')), ('| 5', lambda: x | 5), ('- None', lambda: x - None)))
            self.expect((TypeError, IndexError), fn, what=name)
        elif how <= 6:
            vals = self.good_values()
            at = c.edge(0, len(vals))
            name = c.pick(
                ('update', 'difference_update', 'intersection_update', 'symmetric_difference_update', '__ior__', '__iand__', '__isub__', '__ixor__',
                 'union', 'difference', 'symmetric_difference', 'intersection', 'isdisjoint', 'issubset')
            )
            if name in ('isdisjoint', 'issubset'):
                before = content(x)
                try:
                    getattr(x, name)(broken(vals, at))
                except BOOMS:
                    self.raised += 1
                self.unchanged(before, name)
                return
            if name in ('update', 'difference_update', 'intersection_update', 'union', 'difference', 'intersection') and c.int(0, 1) and n:
                args = (list(vals), broken(vals, at))
                if 'intersection' in name or name == 'difference':
                    args = (list(self.order), broken(vals, at)) if 'intersection' in name else ([], broken(vals, at))
            else:
                args = (broken(vals, at),)
            before = content(x)
            what = '%s of an iterable failing after %d of %d' % (name, at, len(vals))
            c.note(what) if c.verbose else None
            try:
                getattr(x, name)(*args)
            except BOOMS:
                self.raised += 1
                self.unchanged(before, what)
            else:
                if name in ('update', '__ior__', 'symmetric_difference_update', '__ixor__', 'union', 'symmetric_difference'):
                    fail(what, 'did not raise')
                # the others may legitimately stop reading early
                self.consistent(what)
                self.adopt()
        elif how <= 8:
            a = self.alien()
            if a is None:
                return
            self.expect(self.ORDER_ERRORS, x.add, a[0], what='add(%r)' % (a[0],))
        elif how <= 10:
            a = self.alien()
            if a is None:
                return
            if c.int(0, 3) == 0:
                return self.derive(a[0])
            vals = self.batch(a[0])
            name = c.pick(('update', '__ior__', 'symmetric_difference_update', '__ixor__', 'update2'))
            self.c.note('%s(%s)' % (name, short(vals))) if c.verbose else None
            if name == 'update2':
                self.bulk(self.ORDER_ERRORS, lambda: x.update([a[0]], vals), vals, 'update of two iterables')
            elif name in ('update', '__ior__'):
                self.watch(vals)
                self.bulk(self.ORDER_ERRORS, lambda: getattr(x, name)(vals), vals, '%s(%s)' % (name, short(vals)))
            else:
                vals = [v for v in vals if v is a[0] or v not in x]  # what it cannot be ordered against has to stay
                self.expect(self.ORDER_ERRORS, getattr(x, name), vals, what='%s(%s)' % (name, short(vals)))
            if a[0] in x or any(v is a[0] for v in x):
                fail('a value that cannot be ordered was stored:', a[0], list(x))
        else:
            p = self.poison()
            if p is None or p in x:
                return
            if c.int(0, 1):
                before = content(x)
                what = 'add(%d) with some comparisons failing' % p
                c.note(what) if c.verbose else None
                try:
                    x.add(p)
                except BOOMS:
                    self.raised += 1
                    p.hates = None
                    self.unchanged(before, what)
            else:
                vals = self.batch(p)
                self.watch(vals)
                self.bulk(BOOMS, lambda: x.update(vals), vals, 'update(%s) with some comparisons of %d failing' % (short(vals), p))
            p.hates = None
            self.consistent('a failed comparison')
            self.adopt()

    def fail_dict(self):
        c, d, x, n = self.c, self.d, self.x, len(self.order)
        how = c.int(0, 12)
        if how == 0:
            self.common_positions([('keys()', x.keys()), ('items()', x.items()), ('values()', x.values())])
        elif how == 1:
            i = self.out_of_range()
            if c.int(0, 1):
                self.expect(IndexError if n else KeyError, x.popitem, i, what='popitem(%d) of %d' % (i, n))
            else:
                self.expect(IndexError, x.peekitem, i, what='peekitem(%d) of %d' % (i, n))
        elif how == 2:
            v = self.absent()
            if v:
                name = c.pick(('__delitem__', 'pop', '__getitem__'))
                self.expect(KeyError, getattr(x, name), v[0], what='%s(absent)' % name)
        elif how == 3:
            name, args = c.pick((('__setitem__', ([], 1)), ('setdefault', ([], 1)), ('pop', ([],)), ('__delitem__', ([],)), ('__contains__', ([],)), ('get', ([],))))
            self.expect(TypeError, getattr(x, name), *args, what='%s%s' % (name, args))
        elif how == 4:
            name, fn = c.pick(
                (('| 5', lambda: x | 5), ('| []', lambda: x | []), ('< {}', lambda: x < {}), ('update(5)', lambda: x.update(5)), ('update({}, {})', lambda: x.update({}, {})),
                 ('|= 5', lambda: operator.ior(x, 5)), ("peekitem('a')", lambda: x.peekitem('a')), ("popitem('a')", lambda: x.popitem('a')))
            )
            self.expect((TypeError, IndexError, KeyError), fn, what=name)
        elif how <= 6:
            ps = d.pairs(self.good_values())
            at = c.edge(0, len(ps))
            name = c.pick(('update', '__ior__'))
            self.expect(BOOMS, getattr(x, name), broken(ps, at), what='%s of an iterable failing after %d of %d' % (name, at, len(ps)))
        elif how == 7:
            ps = d.pairs(self.good_values())
            bad, err = c.pick((((1, 2, 3), ValueError), (5, TypeError), ((1,), ValueError), (([], 1), TypeError)))
            ps.insert(c.int(0, len(ps)), bad)
            name = c.pick(('update', '__ior__'))
            self.expect(err, getattr(x, name), ps, what='%s(%s)' % (name, short(ps)))
        elif how <= 9:
            a = self.alien()
            if a is None:
                return
            name, args = c.pick((('__setitem__', (a[0], 1)), ('setdefault', (a[0], 1)), ('setdefault', (a[0],))))
            self.expect(self.ORDER_ERRORS, getattr(x, name), *args, what='%s%r' % (name, args))
        elif how <= 11:
            a = self.alien()
            if a is None:
                # an empty dict offered keys that cannot be ordered among themselves
                if n == 0:
                    vals = self.good_values() or [d.gen.value()]
                    self.mixed_into_empty(vals)
                return
            if c.int(0, 3) == 0:
                return self.derive(a[0])
            vals = self.batch(a[0])
            ps = d.pairs(vals)
            form = c.pick((dict, list, lambda q: sut_or_dict(q)))
            name = c.pick(('update', '__ior__'))
            arg = self.watch(form(ps))
            self.bulk(self.ORDER_ERRORS, lambda: getattr(x, name)(arg), vals, '%s(%s)' % (name, short(ps)))
            if a[0] in x or any(v is a[0] for v in x):
                fail('a key that cannot be ordered was stored:', a[0], list(x))
        else:
            p = self.poison()
            if p is None or p in x:
                return
            if c.int(0, 1):
                before = content(x)
                name = c.pick(('__setitem__', 'setdefault'))
                what = '%s(%d) with some comparisons failing' % (name, p)
                c.note(what) if c.verbose else None
                try:
                    getattr(x, name)(p, 1)
                except BOOMS:
                    self.raised += 1
                    p.hates = None
                    self.unchanged(before, what)
            else:
                vals = self.batch(p)
                ps = d.pairs(vals)
                self.watch(ps)
                self.bulk(BOOMS, lambda: x.update(ps), vals, 'update(%s) with some comparisons of %d failing' % (short(ps), p))
            p.hates = None
            self.consistent('a failed comparison')
            self.adopt()

    def mixed_into_empty(self, vals):
        c, d, x = self.c, self.d, self.x
        key = d.key
        for a in ALIENS:
            try:
                ka = a if key is None else key(a)
                kv = vals[0] if key is None else key(vals[0])
            except Exception:
                break
            try:
                ka < kv
            except Exception:
                try:
                    kv < ka
                except Exception:
                    break
        else:
            return
        ps = d.pairs(vals)
        ps.insert(c.int(0, len(ps)), (a, 0))
        self.expect(self.ORDER_ERRORS, x.update, ps, what='update(%s) of an empty dict' % short(ps))


def sut_or_dict(ps):
    return dict(ps)


@prop(
    'C18',
    'A case is a history on a SortedList, SortedKeyList, SortedSet or SortedDict in which about every other call must fail (80 kinds: absent values, positions out of range, zero '
    'slice steps, unsupported methods, wrong argument types, unhashable or unorderable elements, iterables that fail midway, comparisons that fail midway, values equal to an element that cannot be ordered, malformed pairs; in a quarter of the cases the harness raises what is not an Exception); contents by '
    'identity, order, membership and self-check are judged after each, and the rest of the history against the model. Non-trivial: at least 3 failed calls on a non-empty container.',
    quick=40000,
    assumptions=[
        'a bulk update or bulk removal that fails on an element that cannot be ordered may have stored or removed some of the given elements; everything else leaves the content exactly as it was',
        'only comparisons with an argument are made to fail, never those among stored elements',
    ],
)
def c18(c):
    face = c.pick(('list', 'set', 'dict'))
    big = c.int(0, 7) == 7
    raising[0] = Boom if c.int(0, 3) else Halt
    if face == 'list':
        d = ListDriver(c, keyed=c.int(0, 1) == 1, level='sync', big=big)
        ops = MUTATE
    elif face == 'set':
        d = SetDriver(c, big=big)
        ops = SET_OPS
    else:
        d = DictDriver(c, big=big)
        ops = DICT_OPS
    f = Faults(c, d, face)
    good = 0
    for _ in c.steps(60, 18):
        before = f.raised
        try:
            f.step() if c.int(0, 1) else d.step(ops)
        except Halt:
            fail('an interruption came out of a call that should not meet it')
        if f.raised > before and f.order:
            good += 1
    c.tag(face)
    if f.bulk_raised:
        c.tag('a bulk update failed on an unorderable element')
    if good >= 3:
        c.nontrivial()


# ---------------------------------------------------------------------------


class LowSet(sut.SortedSet):
    pass


class AutoDict(sut.SortedDict):
    """Stores a default for absent keys, like defaultdict."""

    def __missing__(self, key):
        self[key] = value = ['made']
        return value


def expect_type(c, res, cls, key, what, want=None):
    if type(res) is not cls:
        fail(what, 'gave a', type(res).__name__, 'instead of a', cls.__name__)
    if res.key is not key:
        fail(what, 'has key', res.key, 'instead of', key)
    if want is not None and not arranged(list(res), want, key):
        fail(what, 'holds', list(res), 'expected', want)


def _dispatch(c):
    """Constructors of the list types."""
    keyed = c.int(0, 1)
    if keyed:
        kind, key, _ = c.pick(PLAIN_KEYED)
    else:
        kind, key = c.pick(PLAIN_LIST_KINDS), None
    gen = Gen(c, kind, big=False)
    vals = gen.values()
    want = sorted(vals, key=key)
    if keyed:
        args = c.pick(((vals, key), (), None))
        x = sut.SortedList(*args) if args else sut.SortedList(vals, key=key) if args is None else sut.SortedList(key=key)
        want = [] if args == () else want
        expect_type(c, x, sut.SortedKeyList, key, 'SortedList(key=f)', want)
        c.check(isinstance(x, sut.SortedList), 'a sorted key list is not an instance of SortedList')
        must_raise(TypeError, SubList, vals, key, what='a SortedList subclass with a key')
        must_raise(TypeError, LowList, key=key, what='a SortedList subclass with a key')
        expect_type(c, SubKeyList(vals, key=key), SubKeyList, key, 'a SortedKeyList subclass', want or None)
        expect_type(c, sut.SortedKeyList(vals, key), sut.SortedKeyList, key, 'SortedKeyList', None)
        expect_type(c, SubKeyList(key=key), SubKeyList, key, 'a SortedKeyList subclass', [])
    else:
        expect_type(c, sut.SortedList(vals), sut.SortedList, None, 'SortedList', want)
        expect_type(c, sut.SortedList(vals, key=None), sut.SortedList, None, 'SortedList(key=None)', want)
        expect_type(c, SubList(vals), SubList, None, 'a SortedList subclass', want)
        expect_type(c, SubList(vals, None), SubList, None, 'a SortedList subclass', want)
        x = sut.SortedKeyList(vals)
        c.check(type(x) is sut.SortedKeyList and callable(x.key), 'SortedKeyList without key has key', x.key)
        c.check(all(x.key(v) is v for v in vals), 'the default key of SortedKeyList is not the identity')
        c.check(arranged(list(x), want, None), 'SortedKeyList without key holds', list(x), 'expected', want)
        if kind.hashable:
            expect_type(c, sut.SortedSet(vals), sut.SortedSet, None, 'SortedSet', sorted(set(vals)))
            expect_type(c, sut.SortedDict(dict.fromkeys(vals)), sut.SortedDict, None, 'SortedDict', sorted(set(vals)))
    # a class's own load factor bounds its sublists
    low = (LowKeyList(vals * 3, key=key) if keyed else LowList(vals * 3)) if len(vals) < 500 else None
    if low is not None:
        more = gen.values()[:60]
        for v in more:
            low.add(v)
        limit = 2 * type(low).DEFAULT_LOAD_FACTOR
        sizes = [len(s) for s in getattr(low, '_lists', ())]
        c.check(max(sizes, default=0) <= limit, 'DEFAULT_LOAD_FACTOR of a subclass is ignored: sublists', sizes)
        res = c.pick((low.copy, lambda: low + more, lambda: low * 1, lambda: copy.copy(low)))()
        sizes = [len(s) for s in getattr(res, '_lists', ())]
        c.check(type(res) is type(low), 'derived from a subclass:', type(res).__name__)
        c.check(max(sizes, default=0) <= limit, 'DEFAULT_LOAD_FACTOR of a subclass is ignored in a derived list: sublists', sizes)
        low._check()


def _auto_dict(c):
    gen = Gen(c, INT, span=c.pick((5, 30)))
    x, d = AutoDict(), {}
    for _ in c.steps(40, 15):
        k = gen.value()
        how = c.int(0, 5)
        if how <= 1:
            got = x[k]
            want = d.setdefault(k, ['made'])
            c.check(got == want and k in x, 'x[%r]' % k, 'is', got)
        elif how == 2:
            c.check(x.get(k) == d.get(k), 'get gives', x.get(k), 'expected', d.get(k))
        elif how == 3:
            x[k] = d[k] = how
        elif how == 4:
            c.check(x.pop(k, None) == d.pop(k, None), 'pop differs')
        else:
            c.check((k in x) is (k in d), 'in differs')
        c.check(list(x) == sorted(d) and dict.copy(x) == d, 'dict with __missing__ holds', dict.copy(x), 'expected', d)
        c.check(list(x.values()) == [d[j] for j in sorted(d)], 'values differ')
    expect_type(c, x.copy(), AutoDict, None, 'copy', sorted(d))


@prop(
    'C23',
    'A case builds a container of a class or subclass (own DEFAULT_LOAD_FACTOR, own __missing__) by a history and applies every kind of operation documented to return a new container '
    '(copy, copy.copy, deepcopy, pickle, +, *, reflected forms, set algebra, |, fromkeys) or to work in place, checking type, key and content; or checks the constructor dispatch on key. '
    'Non-trivial: a subclass instance with content, or a dispatch case.',
    quick=100000,
)
def c23(c):
    mode = c.int(0, 6)
    if mode == 6:
        _dispatch(c)
        c.tag('dispatch')
        c.nontrivial()
        return
    if mode == 5:
        _auto_dict(c)
        c.tag('__missing__')
        c.nontrivial()
        return
    keyed = c.int(0, 1)
    face = c.pick(('list', 'set', 'dict'))
    if face == 'list':
        cls = c.pick((SubKeyList, LowKeyList, sut.SortedKeyList) if keyed else (SubList, LowList, sut.SortedList))
        d = ListDriver(c, keyed=keyed, level='sync', kinds=PLAIN_LIST_KINDS, pool=PLAIN_KEYED, big=False, cls=cls)
        for _ in c.steps(20, 4):
            d.step(MUTATE)
        x, key = d.sl, d.key
    else:
        cls = c.pick((SubSet, sut.SortedSet)) if face == 'set' else c.pick((SubDict, AutoDict, sut.SortedDict))
        D = SetDriver if face == 'set' else DictDriver
        d = D(c, cls=cls, pool=PLAIN_HASH_KEYED, kinds=PLAIN_HASH_KINDS, big=False, keyed=keyed)
        for _ in c.steps(20, 4):
            d.step(SET_OPS if face == 'set' else DICT_OPS)
        x, key = d.x, d.key
    c.tag(cls.__name__)
    c.check(type(x) is cls, 'after a history the type is', type(x).__name__)
    order = list(x)
    vals = d.gen.values()[:60]
    for _ in c.steps(12, 6):
        common = [
            ('copy', lambda: x.copy(), order), ('copy.copy', lambda: copy.copy(x), order), ('copy.deepcopy', lambda: copy.deepcopy(x), order),
            ('pickle', lambda: pickle.loads(pickle.dumps(x, c.int(0, 5))), order),
        ]
        if face == 'list':
            n = c.int(0, 3)
            todo = common + [
                ('x + y', lambda: x + vals, sorted(order + vals, key=key)),
                ('y + x', lambda: c.pick((list, tuple))(vals) + x, sorted(order + vals, key=key)),
                ('x * n', lambda: x * n, sorted(order * n, key=key)),
                ('n * x', lambda: n * x, sorted(order * n, key=key)),
                ('x + x', lambda: x + x, sorted(order * 2, key=key)),
            ]
        elif face == 'set':
            s, t = set(order), set(vals)
            other = c.pick((set, frozenset))(vals)
            ops = [('|', operator.or_), ('&', operator.and_), ('-', operator.sub), ('^', operator.xor)]
            todo = common + [('x %s y' % n, lambda op=op: op(x, other), sorted(op(s, t), key=key)) for n, op in ops]
            todo += [('y %s x' % n, lambda op=op: op(other, x), sorted(op(t, s), key=key)) for n, op in ops]
            todo += [
                ('union', lambda: x.union(vals, vals), sorted(s | t, key=key)), ('intersection', lambda: x.intersection(vals), sorted(s & t, key=key)),
                ('difference', lambda: x.difference(vals, []), sorted(s - t, key=key)),
                ('symmetric_difference', lambda: x.symmetric_difference(vals), sorted(s ^ t, key=key)),
                ('union()', lambda: x.union(), order), ('difference()', lambda: x.difference(), order), ('intersection()', lambda: x.intersection(), order),
            ]
        else:
            e = dict.fromkeys(vals, 'e')
            both = sorted(set(order) | set(vals), key=key)
            todo = common + [('x | y', lambda: x | e, both), ('y | x', lambda: e | x, both), ('x | x', lambda: x | x, order)]
        what, fn, want = c.pick(todo)
        c.note(what) if c.verbose else None
        if face == 'dict' and d.kind in PLAIN_HASH_KINDS and c.int(0, 5) == 5:
            who = c.pick((cls, x))
            expect_type(c, who.fromkeys(vals, 1), cls, None, 'fromkeys', sorted(set(vals)))
        expect_type(c, fn(), cls, key, what, want)
        if face == 'list':
            s = d.slice()
            c.check(type(x[s]) is list, 'a slice is a', type(x[s]).__name__)
        # in-place forms return the receiver
        if c.int(0, 2) == 2:
            if face == 'list':
                what, res = c.pick((('+=', lambda: operator.iadd(x, vals)), ('*=', lambda: operator.imul(x, c.int(0, 2)))))
            elif face == 'set':
                op = c.pick((operator.ior, operator.iand, operator.isub, operator.ixor))
                what, res = op.__name__, lambda: op(x, set(vals))
                if c.int(0, 1):
                    m = c.pick(('update', 'difference_update', 'intersection_update', 'symmetric_difference_update'))
                    what, res = m, lambda: getattr(x, m)(vals)
            else:
                what, res = '|=', lambda: operator.ior(x, dict.fromkeys(vals, 0))
            c.note(what) if c.verbose else None
            c.check(res() is x, what, 'does not return the receiver')
            c.check(type(x) is cls and x.key is key, what, 'changed type or key')
            order = list(x)
            if len(order) > 1500:
                break
    if order and cls not in (sut.SortedList, sut.SortedKeyList, sut.SortedSet, sut.SortedDict):
        c.nontrivial()
