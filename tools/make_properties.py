#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line)."""
import json, os
L = "src/sortedcontainers/sortedlist.py"
D = "src/sortedcontainers/sorteddict.py"
S = "src/sortedcontainers/sortedset.py"
P = []

LISTSTATE = [
    {"name": "_lists", "meaning": "sorted sublists holding every value", "where": L},
    {"name": "_maxes", "meaning": "last value (or key) of each sublist, bisected to find the sublist", "where": L},
    {"name": "_index/_offset", "meaning": "lazily built positional tree of sublist lengths", "where": L},
    {"name": "_keys", "meaning": "keys parallel to _lists (SortedKeyList)", "where": L},
]

def add(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {"files": files, "state": list(state),
                    "mechanism": [{"name": n, "where": w} for n, w in mech],
                    "observe_at": list(observe), "hook_needed": hook},
    })

add("C01", "A sorted list always equals the sorted multiset of its history",
    "After any history of constructor, add, update, +=, *=, discard, remove, pop, delete by index or slice, clear and load-factor reset, in any order and interleaved with any reads, a SortedList iterates exactly the values that a plain list put through the same operations and then sorted would hold. Its length, reversed iteration and self-check agree with that at every step, whatever the load factor.",
    ["histories", "inputs", "configurations"],
    "every operation history over every totally ordered value type, every load factor >= 4, every size",
    "The unit tests use a few fixed lists, the stress test one seeded stream of random floats (no duplicates) at a few load factors; splits, merges, index reuse and bulk paths combine in unboundedly many ways.",
    [L], [("add/_expand split", f"{L}:SortedList.add,_expand"), ("_delete merge", f"{L}:SortedList._delete"), ("update rebuild/add threshold", f"{L}:SortedList.update"), ("slice deletion", f"{L}:SortedList.__delitem__")],
    LISTSTATE, ["iter()", "len()", "reversed()", "_check()"])

add("C02", "A sorted-key list always holds its history's values in key order",
    "After any history of mutations interleaved with any reads, a SortedKeyList (also when made as SortedList(key=f)) holds exactly the values that a plain list put through the same operations would hold, arranged in ascending order of key. Only the keys need an ordering: values may be unorderable or unhashable, and distinct values may share a key.",
    ["histories", "inputs", "configurations"],
    "every operation history, key function whose equal values have equal keys, value type with equality, load factor >= 4",
    "Tests use integers with negate and modulo keys and fixed scripts; runs of equal keys crossing sublist borders, unorderable values and mixed histories are not covered.",
    [L], [("parallel _lists/_keys/_maxes upkeep", f"{L}:SortedKeyList.add,_expand,_delete,update"), ("linear scan over equal keys", f"{L}:SortedKeyList.remove,discard,__contains__,count")],
    LISTSTATE, ["iter()", "len()", "_check()"])

add("C03", "Positional access agrees with a plain list",
    "For SortedList, SortedKeyList and SortedSet in any reachable state, indexing, slicing (any start, stop, step, sign), islice (an iterator) in both directions, pop(i), del x[i] and del x[slice] select exactly the positions a plain list of the iterated values would, and out-of-range positions raise IndexError. This holds at every point of a history, no matter which reads or writes came before.",
    ["histories", "inputs", "configurations"],
    "every reachable state (positional index absent, fresh or incrementally updated), every integer and every slice",
    "Tests index freshly built lists with a few sublists; they never compare positions after arbitrary interleavings of writes that update, invalidate or rebuild the positional tree.",
    [L, S], [("_pos", f"{L}:SortedList._pos"), ("_build_index", f"{L}:SortedList._build_index"), ("incremental index update", f"{L}:SortedList._expand,_delete"), ("slice fast paths", f"{L}:SortedList.__getitem__,__delitem__,islice,_islice,pop")],
    LISTSTATE, ["x[i]", "x[a:b:c]", "pop", "del", "islice"])

add("C04", "Value lookups agree with bisection of a plain list",
    "For SortedList and SortedKeyList in any reachable state and for any probe value, present or absent, `in`, count, bisect_left, bisect_right, bisect, index (with any start/stop) and the key variants bisect_key_left, bisect_key_right and bisect_key return exactly what the same question asked of a plain list of the iterated values returns. index raises ValueError exactly when no equal value lies in the requested window.",
    ["histories", "inputs", "configurations"],
    "every reachable state, every probe value or key, every start/stop window",
    "Tests probe a few values on fixed lists; runs of duplicates that span several sublists combined with windows and stale positional indexes are not sampled.",
    [L], [("two-step bisect over _maxes then sublist", f"{L}:SortedList.bisect_left,bisect_right,__contains__,count,index"), ("_loc", f"{L}:SortedList._loc"), ("equal-key scans", f"{L}:SortedKeyList.index,count,__contains__")],
    LISTSTATE, ["in", "count", "bisect*", "index"])

add("C05", "Range iteration yields exactly the values inside the bounds",
    "For SortedList and SortedKeyList in any reachable state, irange and irange_key yield exactly the values between the two bounds, honouring each inclusive flag, missing bounds, bounds not present, inverted bounds and duplicates at the bounds, in ascending order, or in exactly the reverse order when reverse is true. Plain and reversed iteration yield every value once.",
    ["histories", "inputs", "configurations"],
    "every reachable state, pair of bounds, inclusive pair and direction",
    "Tests use distinct integers 0..52 only, so duplicates at a bound, inverted bounds and sublist-border coincidences are never exercised together.",
    [L], [("bound location", f"{L}:SortedList.irange,SortedKeyList.irange_key"), ("_islice", f"{L}:SortedList._islice")],
    LISTSTATE, ["irange", "irange_key", "iter", "reversed"])

add("C06", "Order is stable and the stored objects themselves are returned",
    "Values that compare equal (or whose keys compare equal) keep the order in which they were inserted, whether they arrive by constructor, add, update, +=, + or *, at every list size and load factor, and all reads and pops hand back the very objects that were stored. SortedSet and SortedDict keep the first-stored object of equal members or keys, as set and dict do, while SortedDict replaces the value.",
    ["histories", "inputs", "configurations"],
    "every history with distinguishable equal values or equal keys",
    "HISTORY 2.3.0 records a stability bug that tests missed; tests use indistinguishable integers so neither order among equals nor identity is observed.",
    [L, S, D], [("bisect_right insertion", f"{L}:SortedList.add,SortedKeyList.add"), ("stable sort of existing-then-new", f"{L}:SortedList.update,SortedKeyList.update"), ("membership test before insert", f"{S}:SortedSet.add; {D}:SortedDict.__setitem__")],
    LISTSTATE, ["iter()", "x[i]", "pop"])

add("C07", "Concatenation and repetition behave as multiset operations",
    "x + y, y + x, x += y, x * n, n * x and x *= n on SortedList and SortedKeyList give the sorted concatenation or repetition of the operands for any iterable y (including x itself) and any integer n (zero and negative included). The non-augmented forms return a new container of the same type and key and leave both operands unchanged, the augmented forms keep the identity of x.",
    ["inputs", "histories", "configurations"],
    "every reachable left operand, iterable right operand and integer n",
    "Tests check one or two fixed operands per operator and never self-aliasing, generators, zero or negative counts or post-history operands.",
    [L], [("__add__/__radd__/__iadd__/__mul__/__rmul__/__imul__", f"{L}:SortedList,SortedKeyList")],
    LISTSTATE, ["+", "*", "+=", "*="])

add("C08", "Sorted list comparisons are lexicographic sequence comparisons",
    "For a SortedList or SortedKeyList and any other sequence (list, tuple, string, another sorted list of any load factor), each of ==, !=, <, <=, >, >= returns what comparing the two as plain lists returns, from either side. Comparing with a non-sequence gives False for ==, True for != and TypeError for orderings.",
    ["inputs", "histories"],
    "every pair of reachable sorted list and sequence, including equal prefixes and different lengths",
    "Tests compare fixed lists; prefix, length and first-difference combinations across types and sublist layouts are unbounded.",
    [L], [("__make_cmp", f"{L}:SortedList.__make_cmp")], [], ["==", "!=", "<", "<=", ">", ">="])

add("C09", "Copies, pickles and reprs reproduce the container",
    "copy(), copy.copy, copy.deepcopy, pickling under every protocol, and evaluating the repr of any SortedList, SortedKeyList, SortedSet or SortedDict in any reachable state yield a container of the same type with the same key function and the same contents in the same order (members of a set with equal sort keys may be rearranged). The result satisfies the self-check and is fully usable afterwards, and subclasses stay subclasses; a self-containing container has a finite repr.",
    ["histories", "inputs", "configurations"],
    "every reachable state of each container type, with and without key, base and subclass",
    "Tests round-trip one fixed range per type and look only at equality, not at order among equals, usability afterwards or subclass type.",
    [L, S, D], [("copy/__copy__", f"{L}; {S}; {D}"), ("__reduce__", f"{L}; {S}; {D}"), ("__repr__", f"{L}; {S}; {D}")],
    [], ["copy", "pickle", "repr"])

add("C10", "Containers never share mutable state with arguments or results",
    "Every container built from, updated with, combined with or copied from another object, and every list obtained by slicing, is independent of it: later mutation of either side is never visible in the other, and no operation modifies its arguments (other containers, sets, dicts, lists). This holds when arguments alias the container itself.",
    ["histories", "inputs"],
    "every pair of a source and a derived object, every later mutation of either one",
    "Tests compare results immediately after creation and never mutate one side to look at the other.",
    [L, S, D], [("fresh list accumulation in reduce(iadd, ..., [])", f"{L}"), ("set copies before _fromset", f"{S}:SortedSet._fromset"), ("items copied through dict.update", f"{D}:SortedDict.copy,update")],
    [], ["slices", "copies", "operator results", "arguments"])

add("C11", "A sorted set stays a set and a sorted sequence at once",
    "After any history of add, discard, remove, pop, delete by index or slice, clear and bulk updates (incl. |=, &=, -=, ^=) on a SortedSet with or without key, its members are exactly those of a built-in set put through the same history, and its sequence view lists each member exactly once in ascending order. Membership, len, count, iteration, indexing, isdisjoint/issubset/issuperset and references to its methods taken earlier all reflect that state at every step.",
    ["histories", "inputs", "configurations"],
    "every operation history, hashable ordered value type, key function, load factor",
    "The two internal structures can drift apart only after particular histories (threshold branches, aliasing, clears); tests follow short fixed scripts and one stress stream.",
    [S], [("paired update of _set and _list", f"{S}:SortedSet.add,discard,remove,pop,__delitem__,clear"), ("size-ratio branches", f"{S}:SortedSet.update,difference_update")],
    [{"name": "_set", "meaning": "membership", "where": S}, {"name": "_list", "meaning": "sorted order of the members", "where": S}],
    ["iter", "len", "in", "x[i]", "_check()"])

add("C12", "Set algebra agrees with built-in sets",
    "union, intersection, difference, symmetric_difference, their _update forms, and the operators |, &, -, ^ (normal, reflected and augmented) on SortedSet produce exactly the members the built-in set operation produces, for any number of iterables where that is accepted, including the set itself, generators, empty arguments and other sorted sets. New results are SortedSets of the same class, sorted by the same key function (reflected operators too), operands are unchanged, and update forms change and return the receiver itself.",
    ["inputs", "histories", "configurations"],
    "every reachable receiver, tuple of iterables, key function, size ratio between the operands",
    "Tests use fixed ranges for each operator; aliasing, multi-iterable forms, size-ratio branches, reflected operators and key retention are barely sampled.",
    [S], [("set operations", f"{S}:SortedSet.difference,intersection,symmetric_difference,union and _update forms"), ("_fromset", f"{S}:SortedSet._fromset"), ("inherited reflected operators", "collections.abc.Set")],
    [], ["|", "&", "-", "^", "union ... update"])

add("C13", "Sorted set comparisons are subset relations",
    "For a SortedSet and any set-like object (SortedSet, set, frozenset, dict keys view), ==, !=, <, <=, >, >=, isdisjoint, issubset and issuperset return exactly what the built-in set gives, from either side, regardless of key functions or ordering; == is True exactly when the members are equal. Ordering against a non-set raises TypeError and == is False (only a sorted list, which compares with any sequence, compares with a sorted set as one).",
    ["inputs", "histories"],
    "every pair of reachable sorted set and set-like object",
    "Tests compare a few fixed ranges; overlapping but incomparable sets and mixed types and keys are not sampled.",
    [S], [("__make_cmp", f"{S}:SortedSet.__make_cmp"), ("bound set methods", f"{S}:SortedSet.__init__")], [], ["==", "<=", "issubset"])

add("C14", "A sorted dict is a dict whose keys iterate in sorted order",
    "After any history of item assignment, deletion, setdefault, pop, popitem(i), update, |=, clear, deletion through views and load-factor reset on a SortedDict with or without key function, it holds exactly the key/value pairs of a built-in dict put through the same history and iterates (and reverse-iterates) its keys in ascending order. Return values, KeyError/IndexError outcomes, get, in, len, peekitem, ==, and a __missing__ hook of a subclass behave as documented at every step.",
    ["histories", "inputs", "configurations"],
    "every operation history, hashable ordered key type, key function, load factor",
    "Dict storage and sorted key list can drift apart only after particular histories; tests run fixed scripts and one seeded stress stream.",
    [D], [("paired dict/list mutation", f"{D}:SortedDict.__setitem__,__delitem__,pop,popitem,setdefault,clear"), ("bulk/single branches", f"{D}:SortedDict.update")],
    [{"name": "_list", "meaning": "sorted list of keys", "where": D}], ["iter", "items", "len", "_check()"])

add("C15", "Bulk construction and merging follow dict semantics",
    "SortedDict(...), update(...), fromkeys, copy, |, reflected | and |= accept the same positional and keyword forms as dict (mapping, sorted dict, iterable of pairs, keywords, none), give the same key/value pairs with later values winning, keep the first-given key function, and sort the keys. This holds for every ratio between the existing and the added items, including merging a dict with itself; | and copy return new dicts of the same class and leave the operands unchanged.",
    ["inputs", "histories", "configurations"],
    "every existing content, argument form, overlap and size ratio",
    "Tests call each form once or twice with disjoint or tiny contents; precedence on overlap and the size-ratio branch are hardly sampled.",
    [D], [("update branches", f"{D}:SortedDict.update"), ("argument dispatch on callable/None", f"{D}:SortedDict.__init__"), ("__or__/__ror__/__ior__", f"{D}")],
    [], ["SortedDict()", "update", "|", "fromkeys"])

add("C16", "Dict views are live, ordered, indexable and set-like",
    "The keys, items and values views of a SortedDict, including views taken before later mutations, always present the current content in key order: iteration, reversed, len, in, indexing, slicing, count and index agree with plain lists of the current keys, items and values. Keys and items views obey set comparisons and, where their elements are orderable, set operators with any set-like operand (results are SortedSets of the right members), and deleting by index or slice through a view removes exactly those items from the dict.",
    ["histories", "inputs"],
    "every history with views taken at any point, every index, slice and set operand",
    "Tests build a view over fixed letters and mutate once; liveness after bulk updates and clears, slice deletion and set operators are barely sampled.",
    [D], [("view __getitem__", f"{D}:SortedKeysView,SortedItemsView,SortedValuesView"), ("_view_delitem", f"{D}:_view_delitem")], [], ["keys()", "items()", "values()"])

add("C17", "Sorted-list queries on dicts and sets track their current content",
    "bisect_left, bisect_right, bisect, index, irange, islice and, with a key function, bisect_key_left, bisect_key_right, bisect_key and irange_key on SortedDict and SortedSet answer as on a plain list of the current keys or members at every point of a history. References to these methods taken before any mutation, bulk update, clear or in-place set operation keep answering for the current content, and so do isdisjoint, issubset and issuperset of SortedSet.",
    ["histories", "inputs", "configurations"],
    "every history, probe, window and direction; methods bound at any earlier time",
    "The methods are cached at construction; only a history that replaces rather than updates the inner list exposes a stale reference, and tests query right after construction.",
    [D, S], [("exposed bound methods", f"{D}:SortedDict.__init__; {S}:SortedSet.__init__"), ("in-place clear and update of the inner list", f"{L}:SortedList.clear,update")],
    [], ["bisect*", "index", "irange*", "islice"])

add("C18", "A failing operation leaves the container unchanged and consistent",
    "When an operation on any of the containers raises (missing value or key, position out of range, empty pop, unsupported list method, zero slice step, an unorderable or unhashable new element, an element of a set operand whose equality test fails, a malformed or failing input iterable), it raises the documented kind of error and the container's contents, order and self-check are exactly as before the call, and later operations behave as if it had never been made. The same goes for a value that is equal to a stored element but cannot be ordered. Only a bulk update or bulk removal that meets an element it cannot order may have stored or removed some of the elements it was given; nothing else is lost, added or reordered and the container stays consistent.",
    ["histories", "inputs", "fault_sequences"],
    "every reachable state, every failing call, single or bulk",
    "Tests assert only that the exception is raised; they do not look at the container afterwards, and never make a bulk update fail.",
    [L, S, D], [("checks before mutation", f"{L}:SortedList.remove,pop,__delitem__"), ("sort before clear", f"{L}:SortedList.update,SortedKeyList.update"), ("ordering before storing, roll-back", f"{D}:SortedDict.__setitem__,setdefault,update; {S}:SortedSet.add,update,symmetric_difference_update")],
    [], ["exceptions", "contents after"])

add("C19", "Single-element work stays logarithmic and sublists stay balanced",
    "At every point of any history, add, remove, discard, in, count, bisect, index and creation of an irange each make a number of element comparisons bounded by a small multiple of log2 of the size (for key lists: when keys are distinct, and with at most a few key-function calls). Constructing or bulk updating with k values costs O((n+k) log(n+k)) comparisons, and only O(k log n) when k is small against n. Sublists never exceed twice the load factor and, except the last, never fall below half of it.",
    ["histories", "inputs", "configurations"],
    "every history, size and load factor",
    "Correct but linear code passes all tests; degenerate layouts arise only after particular histories.",
    [L], [("two-level bisect", f"{L}:SortedList"), ("split and merge thresholds", f"{L}:SortedList._expand,_delete")], LISTSTATE, ["counted __lt__/__eq__/key calls", "sublist lengths"])

add("C20", "The load factor is never observable",
    "Running the same history on two containers of any type that differ only in load factor (through _reset, at any time and any number of times, or through a subclass or class default) gives identical results, identical exceptions and identical contents at every step. Resetting the load factor preserves contents, order among equals and the validity of methods and views obtained before.",
    ["histories", "configurations"],
    "every history and every pair of load-factor schedules with factors >= 4",
    "Tests fix one load factor per test and never compare runs across load factors.",
    [L, S, D], [("_reset", f"{L}:SortedList._reset"), ("DEFAULT_LOAD_FACTOR", f"{L}:SortedList")], LISTSTATE, ["results of every method"])

add("C21", "No element outlives its removal and containers free immediately",
    "A container holds references only to the elements (and keys, values) it currently contains: once an element is removed by any operation, or the container is cleared or replaced, nothing inside the container keeps it alive. Containers form no reference cycles (apart from the deprecated iloc, which is documented to cache a view), so dropping the last reference frees the container and its elements immediately under reference counting.",
    ["histories"],
    "every history of insertions and removals on every container type",
    "One test checks an empty SortedDict; retention by caches such as the maxes index after particular histories is never observed.",
    [L, D, S], [("_maxes upkeep", f"{L}:SortedList._delete,_expand"), ("bound inner-list methods instead of self methods", f"{D}:SortedDict.__init__")], LISTSTATE, ["weak references"])

add("C22", "Only the documented demands are made on elements and keys",
    "SortedList works with elements defining only equality and less-than, needing neither hash nor any other comparison, except for the self-check and ordering comparisons of whole lists. SortedKeyList never orders or hashes values, applies the key function only to stored or argument values (or range bounds), and works for any key function whose keys define only equality and less-than; SortedSet and SortedDict additionally need only hash.",
    ["inputs", "histories"],
    "every element type offering exactly the documented protocol, every operation",
    "Tests use built-in numbers and strings that support every comparison, so reliance on an extra protocol method is invisible.",
    [L, S, D], [("bisect/sort use only <", f"{L}"), ("== and != on located values", f"{L}")], [], ["elements that trap undocumented protocol calls"])

add("C23", "Types and subclasses are preserved",
    "SortedList(key=f) returns a SortedKeyList with that key and isinstance of SortedList, while a SortedList subclass given a key raises TypeError; key reports the function or None. Operations documented to return a new container (copy, +, *, set algebra, |, fromkeys, pickling) on a subclass return that subclass, in-place forms return the receiver, and a subclass's own DEFAULT_LOAD_FACTOR or __missing__ is honoured.",
    ["inputs", "histories", "configurations"],
    "every subclass of each container, operation and reachable state",
    "Tests subclass only for repr; type preservation through operators is not asserted.",
    [L, S, D], [("__new__ dispatch", f"{L}:SortedList.__new__"), ("self.__class__", f"{L}; {S}; {D}")], [], ["type()", ".key"])

add("C24", "Reads are pure",
    "No read operation (lookup, slicing, count, bisect, range or positional iteration, comparison, repr, copy, pickling, set algebra producing a new set, view access) changes any observable state: contents before and after are identical, running reads in any order gives the same answers, and iterators obtained earlier from a container that is only read in between still deliver exactly what they would have.",
    ["histories", "inputs"],
    "every interleaving of reads and partially consumed iterators between two mutations",
    "Tests perform one read at a time; lazily built indexes and accumulating helpers are only hazardous when reads interleave.",
    [L, S, D], [("lazy _build_index", f"{L}:SortedList._build_index"), ("reduce(iadd, lists, [])", f"{L}")], LISTSTATE, ["interleaved iterators"])

add("C25", "Containers behave as standard sequences, sets and dicts to every consumer",
    "In any reachable state, every consumer of Python's standard protocols (unpacking, zip, independent iterators, match statements, random, bisect, heapq, json, dict(x), **x, set methods taking iterables) sees exactly the sorted content that the equivalent plain list, set or dict would show it. The containers are instances of the documented abstract base classes (MutableSequence; MutableSet and Sequence; dict; their views likewise), are true exactly when non-empty, equal themselves and are not hashable.",
    ["histories", "inputs"],
    "every reachable state of each container type or subclass and every standard consumer",
    "Tests call the containers' own methods; they hardly ever hand a container, least of all one with a history, to other standard code.",
    [L, D, S], [("__iter__/__reversed__/__len__", f"{L}; {D}; {S}"), ("dict subclass with overridden iteration and views", f"{D}:SortedDict.__iter__,keys,items,values"), ("abstract bases", f"{L}:SortedList; {S}:SortedSet; {D}:SortedKeysView")],
    [], ["iter", "len", "isinstance", "hash", "bool"])

add("C26", "The self-check tells sound containers from broken ones",
    "The self-check (_check) of every container passes in every reachable state and changes nothing. Once elements are changed behind the container's back so that neighbours are out of order or a stored key no longer fits its value, or a SortedDict is changed through the dict base class so that keys are added, lost or exchanged, the self-check raises AssertionError, wherever in the container this happens.",
    ["histories", "inputs", "fault_sequences"],
    "every reachable state, every position and every such change from outside",
    "Tests corrupt internals of one fixed list per assertion; positions at sublist borders, other load factors and outside changes are not covered.",
    [L, D, S], [("_check", f"{L}:SortedList._check,SortedKeyList._check; {D}:SortedDict._check; {S}:SortedSet._check")], LISTSTATE, ["_check()"])

add("C27", "Only the content matters, not the route that led to it",
    "When no two elements tie, any two histories (orders of insertion, single or bulk calls, detours, removals and re-insertions, reads in between, load factors) that end with the same content leave containers that no public operation can tell apart: equal in every comparison, same repr, same answers to every read, same outcome of every later write.",
    ["histories", "configurations"],
    "every pair of histories with the same final content",
    "Tests never compare two histories; layout, index and size-ratio branches make the number of routes unbounded.",
    [L, D, S], [("layout-independent queries", f"{L}:SortedList._pos,_loc"), ("bulk and single paths", f"{L}:SortedList.update,add; {D}:SortedDict.update; {S}:SortedSet.update")],
    LISTSTATE, ["==", "repr", "every read"])

add("C28", "Single steps stay cheap on large containers and iteration is lazy",
    "On every container type, work that concerns one position, one value or the first few elements (indexing, short slices, pop, deletion, insertion, lookup, peekitem, popitem, view indexing, set operations in place with a few values, and iter, reversed, islice, irange of which only a few elements are taken) neither takes time nor needs extra memory proportional to the size: on a container of 131072 elements it takes at most a few tens of microseconds more than on one of 2048, and no copy of the content is ever made. Creating an iterator or a view does no work ahead of what is consumed.",
    ["inputs", "histories", "configurations"],
    "every type, key, load factor, position, preceding history and single-step operation",
    "Tests run on containers of at most a few thousand elements and never look at cost; an implementation that copies the whole content passes them all.",
    [L, S, D], [("positional index", f"{L}:SortedList._pos,_loc"), ("lazy iterators", f"{L}:SortedList.__iter__,__reversed__,_islice,irange"), ("views index the key list", f"{D}:SortedKeysView,SortedItemsView,SortedValuesView"), ("small-operand paths", f"{S}:SortedSet.update,difference_update; {D}:SortedDict.update; {L}:SortedList.update")],
    LISTSTATE, ["elapsed time", "allocated memory"])

add("C29", "Elements may change while not stored: nothing about them is remembered",
    "The documentation only asks that the sort value (order, key, equality) of an element does not change while it is stored. After an element has left a container (remove, discard, del, pop, popitem, slice deletion, bulk set operations, clear), its own order or what the key function returns for it may change, and it may then be stored in the same container again by any single or bulk operation: iteration order, positions, lookups, counts, range iteration and removal are those of the element's present state, never of an earlier one, and the same holds for search values that were looked up before and have changed since.",
    ["histories", "inputs"],
    "every container, key, element type, way out, change and way back in",
    "Tests use immutable ints and strings, so a remembered key, position or membership is always still right.",
    [L, S, D], [("parallel key lists", f"{L}:SortedKeyList.add,update,remove,discard,_delete"), ("set and list kept in step", f"{S}:SortedSet"), ("dict and key list kept in step", f"{D}:SortedDict")],
    LISTSTATE, ["iteration", "index", "bisect", "irange", "membership"])

add("C30", "Arguments may use the container they are fed to while being consumed",
    "The iterable or mapping given to a bulk call (constructor, update, in-place operators, set operations in both forms, +, |) may itself look values up in the receiver, iterate it, store into it or remove from it while it produces its items, for instance sd.update((k, sd[k] + 1) for k in words) with a __missing__ hook that stores. Whenever the argument looks, and after the call, the container is sound (sorted, each member or key once, lengths, lookups and self-check agreeing) and it holds exactly what the call asks for plus what the argument did; only for values that the argument itself stored or removed during the call does the order of events decide.",
    ["inputs", "histories"],
    "every bulk call, container state and argument that reads or writes the receiver between its items",
    "Tests pass finished lists and dicts; nothing re-enters the container in the middle of a call.",
    [L, S, D], [("bulk updates", f"{L}:SortedList.update; {L}:SortedKeyList.update; {S}:SortedSet.update,intersection_update,difference_update,symmetric_difference_update; {D}:SortedDict.update")],
    LISTSTATE, ["iteration", "len", "lookups", "self-check"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
