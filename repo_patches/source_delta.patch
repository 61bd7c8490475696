From ef788ac000662f661324191e74835e5da598efc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:37 +0000
Subject: [PATCH 01/14] fix: reflected multiplication of SortedKeyList keeps
 the key function

SortedKeyList overrode __mul__ but inherited __rmul__ from SortedList, so
'n * skl' built a SortedKeyList without its key: wrong order, or TypeError
for values that only their keys can order.
---
 src/sortedcontainers/sortedlist.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/sortedcontainers/sortedlist.py b/src/sortedcontainers/sortedlist.py
index aecf787..07cca60 100644
--- a/src/sortedcontainers/sortedlist.py
+++ b/src/sortedcontainers/sortedlist.py
@@ -2427,6 +2427,8 @@ class SortedKeyList(SortedList):
         values = reduce(iadd, self._lists, []) * num
         return self.__class__(values, key=self._key)
 
+    __rmul__ = __mul__
+
     def __reduce__(self):
         values = reduce(iadd, self._lists, [])
         return (type(self), (values, self.key))
-- 
2.43.0


From 8f5f87572396f19bd04666d10b90731943e2b220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:21 +0000
Subject: [PATCH 02/14] fix: reflected difference with a SortedSet keeps the
 key function

'set - ss' used the inherited collections.abc.Set.__rsub__, which builds a
SortedSet without the key function of ss: wrong order, or TypeError for
values that only their keys can order. The other reflected operators
already keep the key.
---
 src/sortedcontainers/sortedset.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/sortedcontainers/sortedset.py b/src/sortedcontainers/sortedset.py
index f2416bf..0724aa0 100644
--- a/src/sortedcontainers/sortedset.py
+++ b/src/sortedcontainers/sortedset.py
@@ -13,7 +13,7 @@ Sorted set implementations:
 
 """
 
-from collections.abc import MutableSet, Sequence, Set
+from collections.abc import Iterable, MutableSet, Sequence, Set
 from itertools import chain
 from operator import eq, ge, gt, le, lt, ne
 from textwrap import dedent
@@ -472,6 +472,12 @@ class SortedSet(MutableSet, Sequence):
 
     __sub__ = difference
 
+    def __rsub__(self, other):
+        if not isinstance(other, Iterable):
+            return NotImplemented
+        diff = set(other).difference(self._set)
+        return self._fromset(diff, key=self._key)
+
     def difference_update(self, *iterables):
         """Remove all values of `iterables` from this sorted set.
 
-- 
2.43.0


From a8c6cf04da15828df1224af0c96012f451439ec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:25 +0000
Subject: [PATCH 03/14] fix: SortedSet.add of an element that cannot be ordered
 leaves the set unchanged

---
 src/sortedcontainers/sortedset.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/sortedcontainers/sortedset.py b/src/sortedcontainers/sortedset.py
index 0724aa0..8ef7a94 100644
--- a/src/sortedcontainers/sortedset.py
+++ b/src/sortedcontainers/sortedset.py
@@ -335,7 +335,11 @@ class SortedSet(MutableSet, Sequence):
         _set = self._set
         if value not in _set:
             _set.add(value)
-            self._list.add(value)
+            try:
+                self._list.add(value)
+            except BaseException:
+                _set.remove(value)
+                raise
 
     _add = add
 
-- 
2.43.0


From a17dbec9b5643e067e4a0f30b04bb97aa52eb598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:33 +0000
Subject: [PATCH 04/14] fix: SortedDict.setdefault of a key that cannot be
 ordered leaves the dict unchanged

---
 src/sortedcontainers/sorteddict.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sortedcontainers/sorteddict.py b/src/sortedcontainers/sorteddict.py
index 273c9ce..c6d0422 100644
--- a/src/sortedcontainers/sorteddict.py
+++ b/src/sortedcontainers/sorteddict.py
@@ -480,8 +480,8 @@ class SortedDict(dict):
         """
         if key in self:
             return self[key]
-        dict.__setitem__(self, key, default)
         self._list_add(key)
+        dict.__setitem__(self, key, default)
         return default
 
     def update(self, *args, **kwargs):
-- 
2.43.0


From d581e54daede53da38e15aa0021337450d4251ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:42 +0000
Subject: [PATCH 05/14] fix: SortedList.update leaves the list consistent when
 sorting fails

---
 src/sortedcontainers/sortedlist.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/sortedcontainers/sortedlist.py b/src/sortedcontainers/sortedlist.py
index 07cca60..96cc002 100644
--- a/src/sortedcontainers/sortedlist.py
+++ b/src/sortedcontainers/sortedlist.py
@@ -277,8 +277,7 @@ class SortedList(MutableSequence):
 
         if _maxes:
             if len(values) * 4 >= self._len:
-                _lists.append(values)
-                values = reduce(iadd, _lists, [])
+                values = reduce(iadd, _lists + [values], [])
                 values.sort()
                 self._clear()
             else:
@@ -1777,8 +1776,7 @@ class SortedKeyList(SortedList):
 
         if _maxes:
             if len(values) * 4 >= self._len:
-                _lists.append(values)
-                values = reduce(iadd, _lists, [])
+                values = reduce(iadd, _lists + [values], [])
                 values.sort(key=self._key)
                 self._clear()
             else:
-- 
2.43.0


From 3cd99dcf68744db6e60d7b6990719ba5525219ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:51 +0000
Subject: [PATCH 06/14] fix: SortedSet bulk updates leave the set unchanged
 when sorting fails

---
 src/sortedcontainers/sortedset.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/sortedcontainers/sortedset.py b/src/sortedcontainers/sortedset.py
index 8ef7a94..baaf03e 100644
--- a/src/sortedcontainers/sortedset.py
+++ b/src/sortedcontainers/sortedset.py
@@ -609,9 +609,11 @@ class SortedSet(MutableSet, Sequence):
         """
         _set = self._set
         _list = self._list
+        other = set(other)
+        ordered = sorted(_set.symmetric_difference(other), key=self._key)
         _set.symmetric_difference_update(other)
         _list.clear()
-        _list.update(_set)
+        _list.update(ordered)
         return self
 
     __ixor__ = symmetric_difference_update
@@ -657,9 +659,10 @@ class SortedSet(MutableSet, Sequence):
         values = set(chain(*iterables))
         if (4 * len(values)) > len(_set):
             _list = self._list
+            ordered = sorted(_set.union(values), key=self._key)
             _set.update(values)
             _list.clear()
-            _list.update(_set)
+            _list.update(ordered)
         else:
             _add = self._add
             for value in values:
-- 
2.43.0


From cd307a0b4db4686fde2fbfd19cd1a360241d2726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:00 +0000
Subject: [PATCH 07/14] fix: SortedDict.update leaves the dict unchanged when
 sorting fails

---
 src/sortedcontainers/sorteddict.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/sortedcontainers/sorteddict.py b/src/sortedcontainers/sorteddict.py
index c6d0422..5f29e9d 100644
--- a/src/sortedcontainers/sorteddict.py
+++ b/src/sortedcontainers/sorteddict.py
@@ -498,8 +498,9 @@ class SortedDict(dict):
 
         """
         if not self:
-            dict.update(self, *args, **kwargs)
-            self._list_update(dict.__iter__(self))
+            pairs = dict(*args, **kwargs)
+            self._list_update(pairs)
+            dict.update(self, pairs)
             return
 
         if not kwargs and len(args) == 1 and isinstance(args[0], dict):
@@ -508,9 +509,12 @@ class SortedDict(dict):
             pairs = dict(*args, **kwargs)
 
         if (10 * len(pairs)) > len(self):
-            dict.update(self, pairs)
+            merged = dict.copy(self)
+            merged.update(pairs)
+            ordered = sorted(merged, key=self._key)
+            dict.update(self, merged)
             self._list_clear()
-            self._list_update(dict.__iter__(self))
+            self._list_update(ordered)
         else:
             for key in pairs:
                 self._setitem(key, pairs[key])
-- 
2.43.0


From c5852c383ef77423cfb6a7fbaab98c9d48e67180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:01 +0000
Subject: [PATCH 08/14] fix: SortedSet.difference_update leaves the set
 unchanged when a comparison fails

---
 src/sortedcontainers/sortedset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sortedcontainers/sortedset.py b/src/sortedcontainers/sortedset.py
index baaf03e..60f92c6 100644
--- a/src/sortedcontainers/sortedset.py
+++ b/src/sortedcontainers/sortedset.py
@@ -500,7 +500,7 @@ class SortedSet(MutableSet, Sequence):
         """
         _set = self._set
         _list = self._list
-        values = set(chain(*iterables))
+        values = _set.intersection(set(chain(*iterables)))
         if (4 * len(values)) > len(_set):
             _set.difference_update(values)
             _list.clear()
-- 
2.43.0


From 409ab8f68922f23c447707d2bcb8bc746e605bef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:45 +0000
Subject: [PATCH 09/14] fix: keep SortedSet consistent when a removed value
 cannot be ordered

discard and remove took the value out of the set before looking it up in the
sorted list. For a value that equals a member but cannot be compared with the
others (1+0j among integers, for example) the lookup raises TypeError and the
set and the list disagreed from then on.
---
 src/sortedcontainers/sortedset.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/sortedcontainers/sortedset.py b/src/sortedcontainers/sortedset.py
index 60f92c6..2895033 100644
--- a/src/sortedcontainers/sortedset.py
+++ b/src/sortedcontainers/sortedset.py
@@ -397,8 +397,8 @@ class SortedSet(MutableSet, Sequence):
         """
         _set = self._set
         if value in _set:
-            _set.remove(value)
             self._list.remove(value)
+            _set.remove(value)
 
     _discard = discard
 
@@ -450,8 +450,11 @@ class SortedSet(MutableSet, Sequence):
         :raises KeyError: if `value` is not in sorted set
 
         """
-        self._set.remove(value)
+        _set = self._set
+        if value not in _set:
+            raise KeyError(value)
         self._list.remove(value)
+        _set.remove(value)
 
     def difference(self, *iterables):
         """Return the difference of two or more sets as a new sorted set.
-- 
2.43.0


From d647a85c0a78687ab49874501502b235f62fa4cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:54 +0000
Subject: [PATCH 10/14] fix: sort before changing anything in
 SortedSet.intersection_update

The intersection holds the values of the iterable. When these cannot be ordered
(complex numbers equal to the integer members, for example) the sort failed
after the sorted list had been cleared, and all members were lost from it.
---
 src/sortedcontainers/sortedset.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/sortedcontainers/sortedset.py b/src/sortedcontainers/sortedset.py
index 2895033..d7a8e1f 100644
--- a/src/sortedcontainers/sortedset.py
+++ b/src/sortedcontainers/sortedset.py
@@ -560,9 +560,11 @@ class SortedSet(MutableSet, Sequence):
         """
         _set = self._set
         _list = self._list
-        _set.intersection_update(*iterables)
+        values = _set.intersection(*iterables)
+        ordered = sorted(values, key=self._key)
+        _set.intersection_update(values)
         _list.clear()
-        _list.update(_set)
+        _list.update(ordered)
         return self
 
     __iand__ = intersection_update
-- 
2.43.0


From b190ee8c2e0f86bf5aa76137c56a5322d2a3125c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:04 +0000
Subject: [PATCH 11/14] fix: keep SortedDict consistent when a deleted key
 cannot be ordered

__delitem__ took the item out of the dict before looking its key up in the
sorted list. For a key that equals a stored one but cannot be compared with the
others the lookup raises TypeError and the dict and the list disagreed.
---
 src/sortedcontainers/sorteddict.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/sortedcontainers/sorteddict.py b/src/sortedcontainers/sorteddict.py
index 5f29e9d..f9b9f4f 100644
--- a/src/sortedcontainers/sorteddict.py
+++ b/src/sortedcontainers/sorteddict.py
@@ -227,8 +227,10 @@ class SortedDict(dict):
         :raises KeyError: if key not found
 
         """
-        dict.__delitem__(self, key)
+        if key not in self:
+            raise KeyError(key)
         self._list_remove(key)
+        dict.__delitem__(self, key)
 
     def __iter__(self):
         """Return an iterator over the keys of the sorted dict.
-- 
2.43.0


From addf7f01d727c5812c3fa7fb96cd31cf595c0068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:03 +0000
Subject: [PATCH 12/14] fix: SortedDict.update of an empty dict with pairs that
 store items meanwhile

---
 src/sortedcontainers/sorteddict.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/sortedcontainers/sorteddict.py b/src/sortedcontainers/sorteddict.py
index f9b9f4f..257a7d0 100644
--- a/src/sortedcontainers/sorteddict.py
+++ b/src/sortedcontainers/sorteddict.py
@@ -500,7 +500,11 @@ class SortedDict(dict):
 
         """
         if not self:
+            # Consuming the arguments may store items in self: check again.
             pairs = dict(*args, **kwargs)
+            args, kwargs = (pairs,), {}
+
+        if not self:
             self._list_update(pairs)
             dict.update(self, pairs)
             return
-- 
2.43.0


From 86604995bf14a91facced4e5f61f05d99ec01a6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:03 +0000
Subject: [PATCH 13/14] fix: SortedSet.intersection_update with an iterable
 that discards members meanwhile

---
 src/sortedcontainers/sortedset.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/sortedcontainers/sortedset.py b/src/sortedcontainers/sortedset.py
index d7a8e1f..0f7097e 100644
--- a/src/sortedcontainers/sortedset.py
+++ b/src/sortedcontainers/sortedset.py
@@ -561,6 +561,7 @@ class SortedSet(MutableSet, Sequence):
         _set = self._set
         _list = self._list
         values = _set.intersection(*iterables)
+        values.intersection_update(_set)
         ordered = sorted(values, key=self._key)
         _set.intersection_update(values)
         _list.clear()
-- 
2.43.0


From 978e9cc02a54d4aecd7da3b3d8558836c475c949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:35 +0000
Subject: [PATCH 14/14] fix: SortedDict takes a keyword argument named self, as
 dict does

---
 src/sortedcontainers/sorteddict.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sortedcontainers/sorteddict.py b/src/sortedcontainers/sorteddict.py
index 257a7d0..1b71dd6 100644
--- a/src/sortedcontainers/sorteddict.py
+++ b/src/sortedcontainers/sorteddict.py
@@ -94,7 +94,7 @@ class SortedDict(dict):
 
     """
 
-    def __init__(self, *args, **kwargs):
+    def __init__(self, /, *args, **kwargs):
         """Initialize sorted dict instance.
 
         Optional key-function argument defines a callable that, like the `key`
@@ -486,7 +486,7 @@ class SortedDict(dict):
         dict.__setitem__(self, key, default)
         return default
 
-    def update(self, *args, **kwargs):
+    def update(self, /, *args, **kwargs):
         """Update sorted dict with items from `args` and `kwargs`.
 
         Overwrites existing items.
-- 
2.43.0

