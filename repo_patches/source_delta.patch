From 44f7a709b583eb66dfa8da52af972b252e94ef9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:13 +0000
Subject: [PATCH 01/68] fix: normalise slices of plist and tlist like list does

A stop of 0, a negative step and a zero step were mishandled (p[0:0] was the
whole list, p[::-1] was empty).
---
 pcollections/_list.py | 16 ++--------------
 1 file changed, 2 insertions(+), 14 deletions(-)

diff --git a/pcollections/_list.py b/pcollections/_list.py
index e77e348..6560978 100644
--- a/pcollections/_list.py
+++ b/pcollections/_list.py
@@ -166,13 +166,7 @@ class plist(PersistentSequence):
         phamt = self._phamt
         n = len(phamt)
         if isinstance(k, slice):
-            (start,stop,step) = (k.start or 0, k.stop or n, k.step or 1)
-            if   start <= -n: start = 0
-            elif start < 0:   start += n
-            elif start > n:   start = n
-            if   stop <= -n: stop = 0
-            elif stop < 0:   stop += n
-            elif stop > n:   stop = n
+            (start,stop,step) = k.indices(n)
             if st != 0:
                 start += st
                 stop += st
@@ -273,13 +267,7 @@ class tlist(TransientSequence):
         thamt = self._thamt
         n = len(thamt)
         if isinstance(k, slice):
-            (start,stop,step) = (k.start or 0, k.stop or n, k.step or 1)
-            if   start <= -n: start = 0
-            elif start < 0:   start += n
-            elif start > n:   start = n
-            if   stop <= -n: stop = 0
-            elif stop < 0:   stop += n
-            elif stop > n:   stop = n
+            (start,stop,step) = k.indices(n)
             if st != 0:
                 start += st
                 stop += st
-- 
2.43.0


From d0adadd9bfa6c6762c36f3bc0eba892a576721ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:13 +0000
Subject: [PATCH 02/68] fix: llist.delete of the first or last item must return
 an llist

plist.delete built a plist explicitly at the ends, which exposed the raw lazy
objects of an llist.
---
 pcollections/_list.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pcollections/_list.py b/pcollections/_list.py
index 6560978..fc2cf9d 100644
--- a/pcollections/_list.py
+++ b/pcollections/_list.py
@@ -92,11 +92,11 @@ class plist(PersistentSequence):
         # Some cases don't require a THAMT:
         if index == 0:
             if n == 1:
-                return plist.empty
+                return self.clear()
             else:
-                return plist._new(phamt.dissoc(st), st + 1)
+                return self._new(phamt.dissoc(st), st + 1)
         elif index == n - 1:
-            return plist._new(phamt.dissoc(st + index), st)
+            return self._new(phamt.dissoc(st + index), st)
         # Other cases require moving elements around a fair bit, so we use a
         # THAMT object.
         thamt = THAMT(phamt)
-- 
2.43.0


From c8c8f7828bc408a3b2bc971984efbe3fb83e4295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:13 +0000
Subject: [PATCH 03/68] fix: sequence equality must not depend on the elements
 being ordered

__eq__ went through seqcmp, which only uses '<': plist([None]) == [None] raised
and plist([{1}]) == [{2}] was True.
---
 pcollections/abc/_seq.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pcollections/abc/_seq.py b/pcollections/abc/_seq.py
index 51484fa..b7866d3 100644
--- a/pcollections/abc/_seq.py
+++ b/pcollections/abc/_seq.py
@@ -136,8 +136,10 @@ class PersistentSequence(Persistent, Sequence):
             return True
         elif not isinstance(other, PersistentSequence._eq_types):
             return False
+        elif len(self) != len(other):
+            return False
         else:
-            return seqcmp(self, other) == 0
+            return all(a is b or a == b for (a,b) in zip(self, other))
     def __lt__(self, other):
         if not isinstance(other, (list, PersistentSequence, TransientSequence)):
             raise TypeError(f"'<' not supported between instances of"
@@ -375,7 +377,7 @@ class TransientSequence(Transient, MutableSequence):
         elif len(self) != len(other):
             return False
         else:
-            return seqcmp(self, other) == 0
+            return all(a is b or a == b for (a,b) in zip(self, other))
     def __lt__(self, other):
         if not isinstance(other, (list, PersistentSequence, TransientSequence)):
             raise TypeError(f"'<' not supported between instances of"
-- 
2.43.0


From 16ae04a8567ad267dd43bb9b848d464c68a5909d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:13 +0000
Subject: [PATCH 04/68] fix: seqcmp must find the first unequal pair before
 ordering it

Ordering skipped pairs that are different but unordered (such as sets) and
required equal elements to support '<'. If the first pair that differs is
unordered, the result is now NaN, which makes <, <=, > and >= all false, as for
lists.
---
 pcollections/util/_core.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pcollections/util/_core.py b/pcollections/util/_core.py
index e4255c4..286ba73 100644
--- a/pcollections/util/_core.py
+++ b/pcollections/util/_core.py
@@ -52,7 +52,9 @@ def seqcmp(seq1, seq2):
     """Compares one sequence to another.
 
     `seqcmp(a, b)` returns -1 if `a` sorts before `b`, 0 if `a` is equal to
-    `b`, and 1 if `a` sorts after `b`.
+    `b`, and 1 if `a` sorts after `b`. If the first elements of `a` and `b` that
+    differ are not ordered (neither is less than the other), then the result is
+    NaN.
     """
     if not isinstance(seq1, Sequence):
         msg = f"unsupported operand type for compare: {type(setq)}"
@@ -61,10 +63,14 @@ def seqcmp(seq1, seq2):
         msg = f"unsupported operand type for compare: {type(seq2)}"
         raise TypeError(msg)
     for (a,b) in zip(seq1, seq2):
-        if a < b:
+        if a is b or a == b:
+            continue
+        elif a < b:
             return -1
         elif b < a:
             return 1
+        else:
+            return float('nan')
     n1 = len(seq1)
     n2 = len(seq2)
     if n1 < n2:
-- 
2.43.0


From 3d83e5f41c6f658d7446d4c4bde38befa3015f5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:13 +0000
Subject: [PATCH 05/68] fix: seqcmp raised NameError when its first argument is
 not a sequence

---
 pcollections/util/_core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pcollections/util/_core.py b/pcollections/util/_core.py
index 286ba73..41ce8ba 100644
--- a/pcollections/util/_core.py
+++ b/pcollections/util/_core.py
@@ -57,7 +57,7 @@ def seqcmp(seq1, seq2):
     NaN.
     """
     if not isinstance(seq1, Sequence):
-        msg = f"unsupported operand type for compare: {type(setq)}"
+        msg = f"unsupported operand type for compare: {type(seq1)}"
         raise TypeError(msg)
     if not isinstance(seq2, Sequence):
         msg = f"unsupported operand type for compare: {type(seq2)}"
-- 
2.43.0


From 0d8c8b689b29e0378707f7f00652f3703f086caf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:13 +0000
Subject: [PATCH 06/68] fix: count of persistent sequences must use iteration

It read the private trie of plist, so it missed the results of lazy values in an
llist and did not work for other implementations.
---
 pcollections/abc/_seq.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pcollections/abc/_seq.py b/pcollections/abc/_seq.py
index b7866d3..771ce51 100644
--- a/pcollections/abc/_seq.py
+++ b/pcollections/abc/_seq.py
@@ -173,8 +173,8 @@ class PersistentSequence(Persistent, Sequence):
     def count(self, value):
         """Returns the number of occurences of value."""
         n = 0
-        for (k,obj) in self._phamt:
-            if obj == value: n += 1
+        for obj in self:
+            if obj is value or obj == value: n += 1
         return n
     def extend(self, iterable):
         """Return a new persistent sequence with the iterables appended."""
-- 
2.43.0


From 08a40161d9d197589c724733e719bce32251c5ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:13 +0000
Subject: [PATCH 07/68] fix: tlist.count raised AttributeError

---
 pcollections/abc/_seq.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pcollections/abc/_seq.py b/pcollections/abc/_seq.py
index 771ce51..8d1ee84 100644
--- a/pcollections/abc/_seq.py
+++ b/pcollections/abc/_seq.py
@@ -409,8 +409,8 @@ class TransientSequence(Transient, MutableSequence):
     def count(self, value):
         """Returns the number of occurences of value."""
         n = 0
-        for (k,obj) in self._phamt:
-            if obj == value: n += 1
+        for obj in self:
+            if obj is value or obj == value: n += 1
         return n
     def extend(self, iterable):
         """Return a new persistent sequence with the iterables appended."""
-- 
2.43.0


From 7fb63636e2daf083ef8aa792f833dcebf284ff73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:13 +0000
Subject: [PATCH 08/68] fix: index of a plist must accept negative start and
 stop

---
 pcollections/abc/_seq.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pcollections/abc/_seq.py b/pcollections/abc/_seq.py
index 8d1ee84..365a4e6 100644
--- a/pcollections/abc/_seq.py
+++ b/pcollections/abc/_seq.py
@@ -187,8 +187,13 @@ class PersistentSequence(Persistent, Sequence):
 
         Raises ValueError if value is not present.
         """
+        n = len(self)
         if stop is None:
-            stop = len(self)
+            stop = n
+        elif stop < 0:
+            stop += n
+        if start < 0:
+            start = max(start + n, 0)
         if start == 0:
             for (ii,val) in enumerate(self):
                 if ii >= stop:
-- 
2.43.0


From b85ec785452b1ddda389853b680ae6230ac00a96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:13 +0000
Subject: [PATCH 09/68] fix: tlist.index and tlist.remove raised TypeError
 without an explicit stop

---
 pcollections/abc/_seq.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pcollections/abc/_seq.py b/pcollections/abc/_seq.py
index 365a4e6..65a649c 100644
--- a/pcollections/abc/_seq.py
+++ b/pcollections/abc/_seq.py
@@ -426,6 +426,13 @@ class TransientSequence(Transient, MutableSequence):
 
         Raises ValueError if value is not present.
         """
+        n = len(self)
+        if stop is None:
+            stop = n
+        elif stop < 0:
+            stop += n
+        if start < 0:
+            start = max(start + n, 0)
         if start == 0:
             for (ii,val) in enumerate(self):
                 if ii >= stop:
-- 
2.43.0


From 33d46dc128355d08ad74a3ba2d79daecf5506422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:13 +0000
Subject: [PATCH 10/68] fix: sequence index and membership must find identical
 elements

Like list, compare by identity before equality, so that elements that are not
equal to themselves (NaN) can be found.
---
 pcollections/abc/_seq.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pcollections/abc/_seq.py b/pcollections/abc/_seq.py
index 65a649c..345c3cd 100644
--- a/pcollections/abc/_seq.py
+++ b/pcollections/abc/_seq.py
@@ -164,7 +164,7 @@ class PersistentSequence(Persistent, Sequence):
         return hash(tuple(self)) + 1
     def __contains__(self, value):
         for el in self:
-            if el == value:
+            if el is value or el == value:
                 return True
         return False
     def __reversed__(self):
@@ -198,7 +198,7 @@ class PersistentSequence(Persistent, Sequence):
             for (ii,val) in enumerate(self):
                 if ii >= stop:
                     break
-                elif val == value:
+                elif val is value or val == value:
                     return ii
         else:
             for (ii,val) in enumerate(self):
@@ -206,7 +206,7 @@ class PersistentSequence(Persistent, Sequence):
                     break
                 elif ii < start:
                     pass
-                elif val == value:
+                elif val is value or val == value:
                     return ii
         raise ValueError(f"{value} is not in {type(self)}")
     # We include a hash function; though this should be overwritten to cache the
@@ -405,7 +405,7 @@ class TransientSequence(Transient, MutableSequence):
         return seqcmp(self, other) >= 0
     def __contains__(self, value):
         for el in self:
-            if el == value:
+            if el is value or el == value:
                 return True
         return False
     def __reversed__(self):
@@ -437,7 +437,7 @@ class TransientSequence(Transient, MutableSequence):
             for (ii,val) in enumerate(self):
                 if ii >= stop:
                     break
-                elif val == value:
+                elif val is value or val == value:
                     return ii
         else:
             for (ii,val) in enumerate(self):
@@ -445,7 +445,7 @@ class TransientSequence(Transient, MutableSequence):
                     break
                 elif ii < start:
                     pass
-                elif val == value:
+                elif val is value or val == value:
                     return ii
         raise ValueError(f"{value} is not in {type(self)}")
     def __iadd__(self, obj):
-- 
2.43.0


From b22df648146518c4f203e587d3d6da8172e98a8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:13 +0000
Subject: [PATCH 11/68] fix: tlist.sort raised NameError

---
 pcollections/abc/_seq.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pcollections/abc/_seq.py b/pcollections/abc/_seq.py
index 345c3cd..b2b4c60 100644
--- a/pcollections/abc/_seq.py
+++ b/pcollections/abc/_seq.py
@@ -340,7 +340,7 @@ class TransientSequence(Transient, MutableSequence):
         The reverse flag can be set to sort in descending order.
         """
         for (ii,el) in enumerate(sorted(self, key=key, reverse=reverse)):
-            t[ii] = el
+            self[ii] = el
     def count(self, value):
         """Returns the number of occurences of value."""
         n = 0
-- 
2.43.0


From d5bec767af768db13de0d32b5660be407bf8babd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:13 +0000
Subject: [PATCH 12/68] fix: tlist.reverse swapped the wrong positions

---
 pcollections/abc/_seq.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pcollections/abc/_seq.py b/pcollections/abc/_seq.py
index b2b4c60..4fd06ac 100644
--- a/pcollections/abc/_seq.py
+++ b/pcollections/abc/_seq.py
@@ -364,7 +364,7 @@ class TransientSequence(Transient, MutableSequence):
         """Reverses *IN PLACE*."""
         n = len(self)
         for k in range(n//2):
-            kk = n - k
+            kk = n - 1 - k
             tmp = self[k]
             self[k] = self[kk]
             self[kk] = tmp
-- 
2.43.0


From 77741564e138bfd2ea6b3db636e4e85498a6ec72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:13 +0000
Subject: [PATCH 13/68] fix: list + tlist raised NameError

---
 pcollections/abc/_seq.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pcollections/abc/_seq.py b/pcollections/abc/_seq.py
index 4fd06ac..5815f00 100644
--- a/pcollections/abc/_seq.py
+++ b/pcollections/abc/_seq.py
@@ -477,7 +477,7 @@ class TransientSequence(Transient, MutableSequence):
             t = self.copy()
             for el in reversed(obj):
                 t.prepend(el)
-            return r
+            return t
     def __imul__(self, value):
         if not isinstance(value, Integral):
             msg = f"can't multiply sequence by non-int of type '{type(value)}'"
-- 
2.43.0


From bd306b9ba169b812c370562a52275b67d020654d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:13 +0000
Subject: [PATCH 14/68] fix: multiplying a tlist iterated over it while
 appending to it

---
 pcollections/abc/_seq.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/pcollections/abc/_seq.py b/pcollections/abc/_seq.py
index 5815f00..4bc68ff 100644
--- a/pcollections/abc/_seq.py
+++ b/pcollections/abc/_seq.py
@@ -488,13 +488,10 @@ class TransientSequence(Transient, MutableSequence):
         if reps == 0:
             self.clear()
         elif reps > 1:
-            n = len(self)
+            els = list(self)
             for r in range(reps - 1):
-                for (ii,el) in enumerate(self):
-                    if ii > n:
-                        break
-                    else:
-                        self.append(el)
+                for el in els:
+                    self.append(el)
         return self
     def __mul__(self, value):
         t = self.copy()
-- 
2.43.0


From 136a6a88aa37e06eaa22d2b32968696b52577fe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:13 +0000
Subject: [PATCH 15/68] fix: extending a tlist with itself raised RuntimeError
 half-way

---
 pcollections/abc/_seq.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pcollections/abc/_seq.py b/pcollections/abc/_seq.py
index 4bc68ff..6a48000 100644
--- a/pcollections/abc/_seq.py
+++ b/pcollections/abc/_seq.py
@@ -419,7 +419,7 @@ class TransientSequence(Transient, MutableSequence):
         return n
     def extend(self, iterable):
         """Return a new persistent sequence with the iterables appended."""
-        for el in iterable:
+        for el in (list(self) if iterable is self else iterable):
             self.append(el)
     def index(self, value, start=0, stop=None):
         """Returns first index of value.
-- 
2.43.0


From d01ee3d70c46b07877f98df56ad3a81acb0b955f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:13 +0000
Subject: [PATCH 16/68] fix: llist.ready_all did not evaluate anything

---
 pcollections/_lazy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pcollections/_lazy.py b/pcollections/_lazy.py
index b3a5171..b6eb70f 100644
--- a/pcollections/_lazy.py
+++ b/pcollections/_lazy.py
@@ -230,7 +230,7 @@ class llist(plist):
             return True
     def ready_all(self):
         "Caches all lazy items then returns the list."
-        for el in self._phamt:
+        for (_,el) in self._phamt:
             if isinstance(el, lazy):
                 el()
         return self
-- 
2.43.0


From f7b54cdf441b5feaa72d0943e07cf0fa06c54ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:13 +0000
Subject: [PATCH 17/68] fix: pset.add of an element with a colliding hash
 raised UnboundLocalError

---
 pcollections/_set.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pcollections/_set.py b/pcollections/_set.py
index 0f27017..e225068 100644
--- a/pcollections/_set.py
+++ b/pcollections/_set.py
@@ -102,6 +102,7 @@ class pset(PersistentSet):
             # list.
             new_els = self._els.assoc(self._top, (obj, None))
             new_els = new_els.assoc(ii_prev, (x_prev, self._top))
+            new_idx = self._idx
         return self._new(new_els, new_idx, self._top + 1)
     def discard(self, obj):
         """Returns a copy of the pset that does not include the given object.
-- 
2.43.0


From e256247d1d2cdbb42456c453261341719c277dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:13 +0000
Subject: [PATCH 18/68] fix: pdict.set of a key with a colliding hash never
 returned

---
 pcollections/_dict.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pcollections/_dict.py b/pcollections/_dict.py
index 347cac2..f1e0346 100644
--- a/pcollections/_dict.py
+++ b/pcollections/_dict.py
@@ -194,6 +194,7 @@ class pdict(PersistentMapping):
             new_idx = self._idx.assoc(h, self._top)
         else:
             # First make sure it's not already in the dict.
+            ii_prev = None
             while ii is not None:
                 (kv,ii_next) = self._els[ii]
                 (k,v) = kv
@@ -205,10 +206,13 @@ class pdict(PersistentMapping):
                     else:
                         new_els = self._els.assoc(ii, ((key,val), ii_next))
                         return self._new(new_els, self._idx, self._top)
+                ii_prev = ii
+                ii = ii_next
             # If we reach this point, we can add the object to the end of the
             # list.
             new_els = self._els.assoc(self._top, ((key,val), None))
-            new_els = new_els.assoc(ii, (kv, self._top))
+            new_els = new_els.assoc(ii_prev, (kv, self._top))
+            new_idx = self._idx
         return self._new(new_els, new_idx, self._top + 1)
     def drop(self, key):
         """Returns a copy of the pdict that does not include the given key.
-- 
2.43.0


From ec0991a43b5f1be01209560e90189f02b55a9de4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:13 +0000
Subject: [PATCH 19/68] fix: setting an existing key of a pdict or tdict must
 keep the stored key

Like dict, keep the first of several equal keys and replace the value only.
---
 pcollections/_dict.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pcollections/_dict.py b/pcollections/_dict.py
index f1e0346..1862617 100644
--- a/pcollections/_dict.py
+++ b/pcollections/_dict.py
@@ -204,7 +204,7 @@ class pdict(PersistentMapping):
                     if val is v:
                         return self
                     else:
-                        new_els = self._els.assoc(ii, ((key,val), ii_next))
+                        new_els = self._els.assoc(ii, ((k,val), ii_next))
                         return self._new(new_els, self._idx, self._top)
                 ii_prev = ii
                 ii = ii_next
@@ -432,7 +432,7 @@ class tdict(TransientMapping):
             (kv, ii_next) = self._els[ii]
             if kv[0] == k:
                 if kv[1] is not v:
-                    self._els[ii] = ((k,v), ii_next)
+                    self._els[ii] = ((kv[0],v), ii_next)
                     # The object has changed, so make sure we aren't tracking
                     # the original object still.
                     object.__setattr__(self, '_orig', None)
-- 
2.43.0


From ad09840dd9739566491e112cf2a013fdd76cbcc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:13 +0000
Subject: [PATCH 20/68] fix: dropall of a persistent mapping raised
 AttributeError

---
 pcollections/abc/_map.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pcollections/abc/_map.py b/pcollections/abc/_map.py
index c957b6f..95add5c 100644
--- a/pcollections/abc/_map.py
+++ b/pcollections/abc/_map.py
@@ -122,7 +122,8 @@ class PersistentMapping(Mapping, Persistent):
         """
         t = self.transient()
         for k in keys:
-            t.drop(k)
+            if k in t:
+                del t[k]
         return type(self)(t)
     def deleteall(self, keys):
         """Returns a copy of the persistent mapping that excludes all the keys
-- 
2.43.0


From 9fd4778c4ce913b25370d37cf7dae40e8d6de035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:13 +0000
Subject: [PATCH 21/68] fix: pset.symmetric_difference returned the original
 when the sizes are equal

---
 pcollections/abc/_set.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/pcollections/abc/_set.py b/pcollections/abc/_set.py
index 8fac331..e5d5a96 100644
--- a/pcollections/abc/_set.py
+++ b/pcollections/abc/_set.py
@@ -209,8 +209,6 @@ class PersistentSet(Set, Persistent):
         t = self.transient()
         for arg in args:
             t ^= arg
-        if len(t) == len(self):
-            return self
         return type(self)(t)
     def union(self, *args):
         """Returns the union of the persistent set and all arguments."""
-- 
2.43.0


From eb5401f41683ce3f7b79f019f5208486808a5717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:13 +0000
Subject: [PATCH 22/68] fix: isdisjoint must be true when either set is empty

---
 pcollections/abc/_set.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pcollections/abc/_set.py b/pcollections/abc/_set.py
index e5d5a96..57296a5 100644
--- a/pcollections/abc/_set.py
+++ b/pcollections/abc/_set.py
@@ -167,6 +167,8 @@ class PersistentSet(Set, Persistent):
         """Returns `True` if two sets have a null intersection."""
         if not isinstance(other, Set):
             other = set(other)
+        if len(self) == 0 or len(other) == 0:
+            return True
         return setcmp(self, other) is None
     def issubset(self, other):
         """Report whether another set contains this set."""
@@ -374,6 +376,10 @@ class TransientSet(MutableSet, Transient):
         return c == 1 or c == 0
     def isdisjoint(self, other):
         """Returns `True` if two sets have a null intersection."""
+        if not isinstance(other, Set):
+            other = set(other)
+        if len(self) == 0 or len(other) == 0:
+            return True
         return setcmp(self, other) is None
     def issubset(self, other):
         """Report whether another set contains this set."""
-- 
2.43.0


From 57748f20c359f5294960be3abea1c4ebe1f74439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:13 +0000
Subject: [PATCH 23/68] fix: comparing a tset to an object that is not a set
 raised TypeError

---
 pcollections/abc/_set.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pcollections/abc/_set.py b/pcollections/abc/_set.py
index 57296a5..2b490b7 100644
--- a/pcollections/abc/_set.py
+++ b/pcollections/abc/_set.py
@@ -359,9 +359,9 @@ class TransientSet(MutableSet, Transient):
         #return f"{{<{s[1:-1]}>}}"
         return f"{{<{seqstr(self)}>}}"
     def __eq__(self, other):
-        return setcmp(self, other) == 0
+        return isinstance(other, Set) and setcmp(self, other) == 0
     def __ne__(self, other):
-        return setcmp(self, other) != 0
+        return not isinstance(other, Set) or setcmp(self, other) != 0
     def __hash__(self):
         return hash(frozenset(self)) + 1
     def __lt__(self, other):
-- 
2.43.0


From d32f66c001303be32d244d589820b56c8210f61c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:13 +0000
Subject: [PATCH 24/68] fix: tset.symmetric_difference_update raised NameError

---
 pcollections/abc/_set.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pcollections/abc/_set.py b/pcollections/abc/_set.py
index 2b490b7..283cb2a 100644
--- a/pcollections/abc/_set.py
+++ b/pcollections/abc/_set.py
@@ -418,7 +418,7 @@ class TransientSet(MutableSet, Transient):
         return t
     def symmetric_difference_update(self, other):
         """Update a set with the symmetric difference of itself and another."""
-        self ^= arg
+        self ^= other
     def symmetric_difference(self, other):
         """Return the symmetric difference of two sets as a new set.
 
-- 
2.43.0


From 446ebddf5e70e1b544511b08fbc2e1d993502367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:13 +0000
Subject: [PATCH 25/68] fix: in-place -= and ^= of a tset with itself raised
 RuntimeError half-way

---
 pcollections/abc/_set.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pcollections/abc/_set.py b/pcollections/abc/_set.py
index 283cb2a..db79678 100644
--- a/pcollections/abc/_set.py
+++ b/pcollections/abc/_set.py
@@ -502,6 +502,9 @@ class TransientSet(MutableSet, Transient):
         if not isinstance(other, Set):
             raise TypeError(f"unsupported operand type for ^=:"
                             f" '{type(self)}' and '{type(other)}'")
+        if other is self:
+            self.clear()
+            return self
         rm = []
         for el in self:
             if el in other:
@@ -545,7 +548,7 @@ class TransientSet(MutableSet, Transient):
 
         If any element is not found, then it is ignored.
         """
-        for el in iterable:
+        for el in (list(self) if iterable is self else iterable):
             self.discard(el)
     def removeall(self, iterable):
         """Returns a copy of the persistent set with the given elements
-- 
2.43.0


From 5952f9ba45cfd1719fab5ab2336aa20a0b51b2c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:13 +0000
Subject: [PATCH 26/68] fix: the hash of a set must equal that of an equal
 frozenset

pset([1]) == frozenset([1]) is True, so their hashes must be equal.
---
 pcollections/abc/_set.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pcollections/abc/_set.py b/pcollections/abc/_set.py
index db79678..fc652ff 100644
--- a/pcollections/abc/_set.py
+++ b/pcollections/abc/_set.py
@@ -95,7 +95,7 @@ class PersistentSet(Set, Persistent):
         else:
             return True
     def __hash__(self):
-        return hash(frozenset(self)) + 1
+        return hash(frozenset(self))
     def __lt__(self, other):
         return setcmp(self, other) == -1
     def __le__(self, other):
@@ -363,7 +363,7 @@ class TransientSet(MutableSet, Transient):
     def __ne__(self, other):
         return not isinstance(other, Set) or setcmp(self, other) != 0
     def __hash__(self):
-        return hash(frozenset(self)) + 1
+        return hash(frozenset(self))
     def __lt__(self, other):
         return setcmp(self, other) == -1
     def __le__(self, other):
-- 
2.43.0


From 3b094f83efc0a6056ae1d574b2679a85751465f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:13 +0000
Subject: [PATCH 27/68] fix: the hash of a persistent mapping must use its
 public items

It used the raw entries of pdict, so an ldict with lazy values hashed its lazy
objects, unlike the pdict it is equal to (and against the documentation).
---
 pcollections/abc/_map.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pcollections/abc/_map.py b/pcollections/abc/_map.py
index 95add5c..d0204d1 100644
--- a/pcollections/abc/_map.py
+++ b/pcollections/abc/_map.py
@@ -85,7 +85,7 @@ class PersistentMapping(Mapping, Persistent):
     def __repr__(self):
         return f"{{|{seqstr(self)}|}}"
     def __hash__(self):
-        return hash(frozenset(map(lambda u: u[1][0], self._els))) + 2
+        return hash(frozenset(self.items())) + 2
     def __contains__(self, k):
         try:
             self[k]
-- 
2.43.0


From ec4b18d15f9c66387cdd9b2fcefbd96ebe644161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:13 +0000
Subject: [PATCH 28/68] fix: ldict.pop must return the value of a lazy item,
 not the lazy object

---
 pcollections/_lazy.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pcollections/_lazy.py b/pcollections/_lazy.py
index b6eb70f..012a17d 100644
--- a/pcollections/_lazy.py
+++ b/pcollections/_lazy.py
@@ -395,6 +395,9 @@ class ldict(pdict):
         and returning the reified value.
         """
         return pdict.get(self, key, default)
+    def pop(self, key, *args):
+        (v, d) = pdict.pop(self, key, *args)
+        return (unlazy(v), d)
     def clear(self):
         return ldict.empty
     def transient(self):
-- 
2.43.0


From 9f2a466e3a63e98a74a3f4a37fc9eb4559b497e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:13 +0000
Subject: [PATCH 29/68] fix: tldict.pop recursed forever

---
 pcollections/_lazy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pcollections/_lazy.py b/pcollections/_lazy.py
index 012a17d..f55f050 100644
--- a/pcollections/_lazy.py
+++ b/pcollections/_lazy.py
@@ -504,7 +504,7 @@ class tldict(tdict):
     def get(self, k, default=None):
         return unlazy(tdict.get(self, k, default))
     def pop(self, *args):
-        return unlazy(self.pop(*args))
+        return unlazy(super(tdict, self).pop(*args))
     def items(self):
         return tldict_items(self)
     def values(self):
-- 
2.43.0


From 519098d8798eaa06025063681076286d14198882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:13 +0000
Subject: [PATCH 30/68] fix: tldict.as_tdict must return a copy

It shared the mutable tries of the tldict, so an edit of either corrupted the
other.
---
 pcollections/_lazy.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pcollections/_lazy.py b/pcollections/_lazy.py
index f55f050..9b1edf4 100644
--- a/pcollections/_lazy.py
+++ b/pcollections/_lazy.py
@@ -487,7 +487,9 @@ class tldict(tdict):
         mapped to their associated `lazy` objects. This is essentially a way to
         expose the raw values of a lazy dictionary.
         """
-        return tdict._new(self._els, self._idx, self._top)
+        return tdict._new(THAMT(self._els.persistent()),
+                          THAMT(self._idx.persistent()),
+                          self._top)
     def __holdlazy__(self):
         return self.as_tdict()
     def getlazy(self, k, default=None):
-- 
2.43.0


From 42c08195fd542cd63560fb722d20d204b81ea511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:13 +0000
Subject: [PATCH 31/68] fix: membership tests on the values of a tdict or
 tldict raised AttributeError

---
 pcollections/_dict.py | 2 +-
 pcollections/_lazy.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pcollections/_dict.py b/pcollections/_dict.py
index 1862617..4d2eec5 100644
--- a/pcollections/_dict.py
+++ b/pcollections/_dict.py
@@ -354,7 +354,7 @@ class tdict_values(ValuesView, tdict_view):
     def _from_kv(self, arg):
         return arg[1]
     def __contains__(self, v):
-        for (kv,_) in self._els:
+        for (_,(kv,_)) in self._tdict._els:
             if kv[1] == v:
                 return True
         return False
diff --git a/pcollections/_lazy.py b/pcollections/_lazy.py
index 9b1edf4..b72fa04 100644
--- a/pcollections/_lazy.py
+++ b/pcollections/_lazy.py
@@ -418,11 +418,11 @@ class tldict_values(tdict_values):
     def _from_kv(self, arg):
         return unlazy(arg[1])
     def __contains__(self, v):
-        for (kv,_) in self._els:
+        for (_,(kv,_)) in self._tdict._els:
             if not isinstance(kv[1], lazy):
                 if kv[1] == v:
                     return True
-        for (kv,_) in self._els:
+        for (_,(kv,_)) in self._tdict._els:
             if isinstance(kv[1], lazy):
                 if kv[1]() == v:
                     return True
-- 
2.43.0


From a8c8f8987adc56cee07499cba2fceb6e9af4fe97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:13 +0000
Subject: [PATCH 32/68] fix: persistent() of a tldict made from a pdict or
 tdict must return an ldict

---
 pcollections/_dict.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pcollections/_dict.py b/pcollections/_dict.py
index 4d2eec5..53a4a0a 100644
--- a/pcollections/_dict.py
+++ b/pcollections/_dict.py
@@ -406,9 +406,10 @@ class tdict(TransientMapping):
             obj = cls._new(THAMT(arg._els.persistent()),
                            THAMT(arg._idx.persistent()),
                            arg._top,
-                           arg._orig)
+                           arg._orig if cls is tdict else None)
         elif type(arg) is pdict:
-            obj = cls._new(THAMT(arg._els), THAMT(arg._idx), arg._top, arg)
+            obj = cls._new(THAMT(arg._els), THAMT(arg._idx), arg._top,
+                           arg if cls is tdict else None)
         else:
             obj = cls._new(THAMT(PHAMT.empty), THAMT(PHAMT.empty), 0)
             if isinstance(arg, Mapping):
-- 
2.43.0


From d2f5eaedf2760f4e29db25c03a0cfaf67a016376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:13 +0000
Subject: [PATCH 33/68] fix: tdict.clear must invalidate iterators

It reset the version counter, so that an old iterator continued with stale keys.
---
 pcollections/_dict.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pcollections/_dict.py b/pcollections/_dict.py
index 53a4a0a..2f45c43 100644
--- a/pcollections/_dict.py
+++ b/pcollections/_dict.py
@@ -528,7 +528,8 @@ class tdict(TransientMapping):
         object.__setattr__(self, '_els', THAMT(PHAMT.empty))
         object.__setattr__(self, '_idx', THAMT(PHAMT.empty))
         object.__setattr__(self, '_top', 0)
-        object.__setattr__(self, '_version', 0)
+        object.__setattr__(self, '_version', self._version + 1)
+        object.__setattr__(self, '_orig', None)
         return None
     def pop(self, key, *args):
         """Removes the given key from the tdict and returns the previously
-- 
2.43.0


From 94340634b89b179c92c4474f29148a638e05edbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:13 +0000
Subject: [PATCH 34/68] fix: tset.clear must invalidate iterators

---
 pcollections/_set.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pcollections/_set.py b/pcollections/_set.py
index e225068..1610c92 100644
--- a/pcollections/_set.py
+++ b/pcollections/_set.py
@@ -204,7 +204,13 @@ class tset(TransientSet):
                 return True
         return False
     def __iter__(self):
-        return map(lambda u: u[1][0], self._els)
+        els = self._els
+        def _iter_el(arg):
+            if self._els is not els:
+                raise RuntimeError(f"{type(self)} changed during iteration")
+            else:
+                return arg[1][0]
+        return map(_iter_el, els)
     def add(self, obj):
         """Returns a copy of the tset that includes the given object."""
         # Get the hash and initial index (if there is one).
-- 
2.43.0


From 782e3bbf4d6172b4644d31a5f0ef0c0e35ee6520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:13 +0000
Subject: [PATCH 35/68] fix: replacing the value of a key during iteration over
 a tdict must be allowed

As for dict, only changes of the keys invalidate an iterator (the version
counter is deliberately left alone), but the trie iterator raised RuntimeError.
---
 pcollections/_dict.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pcollections/_dict.py b/pcollections/_dict.py
index 2f45c43..fe6129a 100644
--- a/pcollections/_dict.py
+++ b/pcollections/_dict.py
@@ -491,7 +491,7 @@ class tdict(TransientMapping):
                 raise RuntimeError(f"{type(self)} changed during iteration")
             else:
                 return arg[1][0][0]
-        return map(_iter_key, self._els)
+        return map(_iter_key, self._els.persistent())
     def __delitem__(self, key):
         # Get the hash and initial index (if there is one).
         h = hash(key)
-- 
2.43.0


From add60e0ebae56b540f039bbcf9c3eb82162bf201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:45 +0000
Subject: [PATCH 36/68] fix: plain list constructors must evaluate lazy lists

plist(l) of an llist returned the llist itself, and plist(t) of a tllist and
tlist(l) of an llist handed out raw lazy objects. As documented for as_plist
(and as pdict and tdict already do for an ldict), they now contain the results;
the lazy types keep their lazy objects.
---
 pcollections/_lazy.py | 13 +++++++++++++
 pcollections/_list.py |  8 ++++----
 2 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/pcollections/_lazy.py b/pcollections/_lazy.py
index b72fa04..d474995 100644
--- a/pcollections/_lazy.py
+++ b/pcollections/_lazy.py
@@ -196,6 +196,14 @@ class llist(plist):
     """
     empty = None
     __slots__ = ()
+    def __new__(cls, *args, **kw):
+        # The lazy values of other lazy lists are kept.
+        if len(args) == 1 and isinstance(args[0], tllist):
+            args = (args[0].persistent(),)
+        if len(args) == 1 and isinstance(args[0], llist):
+            if type(args[0]) is not cls:
+                args = (args[0].as_plist(),)
+        return plist.__new__(cls, *args, **kw)
     def __iter__(self):
         it = plist.__iter__(self)
         return map(lambda u: u() if isinstance(u, lazy) else u, it)
@@ -271,6 +279,11 @@ class tllist(tlist):
     elements instead of the `lazy` objects themselves.
     """
     __slots__ = ()
+    def __new__(cls, *args, **kw):
+        # The lazy values of other lazy lists are kept.
+        if len(args) == 1 and isinstance(args[0], (llist, tllist)):
+            args = (llist(args[0]).as_plist(),)
+        return tlist.__new__(cls, *args, **kw)
     def __iter__(self):
         return map(unlazy, tlist.__iter__(self))
     def persistent(self):
diff --git a/pcollections/_list.py b/pcollections/_list.py
index fc2cf9d..de319a8 100644
--- a/pcollections/_list.py
+++ b/pcollections/_list.py
@@ -34,14 +34,14 @@ class plist(PersistentSequence):
             raise TypeError(msg)
         arg = args[0]
         # If arg is a tlist, this is a special case.
-        if isinstance(arg, tlist):
+        if type(arg) is tlist:
             if len(arg) == 0:
                 return cls.empty
             else:
                 return cls._new(arg._thamt.persistent(), arg._start)
-        elif isinstance(arg, cls):
+        elif type(arg) is cls:
             return arg
-        elif isinstance(arg, plist):
+        elif type(arg) is plist:
             if len(arg) == 0:
                 return cls.empty
             else:
@@ -222,7 +222,7 @@ class tlist(TransientSequence):
         else: raise TypeError(f"tlist expects at most 1 argument, got {n}")
         arg = args[0]
         # If this is a plist, we know what to do with it.
-        if isinstance(arg, plist):
+        if type(arg) is plist:
             return cls._new(THAMT(arg._phamt), arg._start)
         # We just want to build a THAMT out of this arg of iterables.
         thamt = THAMT(PHAMT.empty)
-- 
2.43.0


From 908ddafaf3790ff844e797beac65b68d2ed047dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:45 +0000
Subject: [PATCH 37/68] fix: lazy dict constructors must not evaluate lazy
 dicts, plain ones must

ldict(d, **kw) and tldict(d) evaluated all lazy values of a lazy dict, while
pdict(t) of a tldict handed out raw lazy objects. As documented for as_pdict and
as_tdict, only the plain types evaluate.
---
 pcollections/_dict.py |  2 +-
 pcollections/_lazy.py | 13 +++++++++++++
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/pcollections/_dict.py b/pcollections/_dict.py
index fe6129a..b55a2a9 100644
--- a/pcollections/_dict.py
+++ b/pcollections/_dict.py
@@ -126,7 +126,7 @@ class pdict(PersistentMapping):
             # is a special case.
             if isinstance(arg, Sized) and len(arg) == 0:
                 return cls.empty
-            elif isinstance(arg, tdict):
+            elif type(arg) is tdict:
                 return cls._new(
                     arg._els.persistent(),
                     arg._idx.persistent(),
diff --git a/pcollections/_lazy.py b/pcollections/_lazy.py
index d474995..ec1d87d 100644
--- a/pcollections/_lazy.py
+++ b/pcollections/_lazy.py
@@ -340,6 +340,14 @@ class ldict(pdict):
     """
     empty = None
     __slots__ = ()
+    def __new__(cls, *args, **kw):
+        # The lazy values of other lazy dicts are kept.
+        if len(args) == 1 and isinstance(args[0], tldict):
+            args = (args[0].persistent(),)
+        if len(args) == 1 and isinstance(args[0], ldict):
+            if kw or type(args[0]) is not cls:
+                args = (args[0].as_pdict(),)
+        return pdict.__new__(cls, *args, **kw)
     def __getitem__(self, key):
         v = pdict.__getitem__(self, key)
         if isinstance(v, lazy):
@@ -448,6 +456,11 @@ class tldict(tdict):
     keys instead of the `lazy` objects themselves.
     """
     __slots__ = ()
+    def __new__(cls, *args, **kw):
+        # The lazy values of other lazy dicts are kept.
+        if len(args) == 1 and isinstance(args[0], (ldict, tldict)):
+            args = (holdlazy(args[0]),)
+        return tdict.__new__(cls, *args, **kw)
     def __str__(self):
         # We have a max length of 60 characters, not counting the delimiters.
         return f"{{|{seqstr(self.as_tdict(), maxlen=60, tostr=reprlazy)}|}}"
-- 
2.43.0


From 70ec12ca26579ccb4047efec6a5e90bbb069ee46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:45 +0000
Subject: [PATCH 38/68] fix: sets and dicts must find identical keys

Like set and dict, compare keys by identity before equality, so that keys that
are not equal to themselves (NaN) can be found, removed and not duplicated.
---
 pcollections/_dict.py | 24 ++++++++++++------------
 pcollections/_set.py  | 12 ++++++------
 2 files changed, 18 insertions(+), 18 deletions(-)

diff --git a/pcollections/_dict.py b/pcollections/_dict.py
index b55a2a9..d669313 100644
--- a/pcollections/_dict.py
+++ b/pcollections/_dict.py
@@ -155,7 +155,7 @@ class pdict(PersistentMapping):
         ii = self._idx.get(h, None)
         while ii is not None:
             ((kk,vv),ii) = self._els[ii]
-            if k == kk:
+            if k is kk or k == kk:
                 return True
         return False
     def __iter__(self):
@@ -167,7 +167,7 @@ class pdict(PersistentMapping):
         ii = self._idx.get(h, None)
         while ii is not None:
             (kv,ii) = self._els[ii]
-            if key == kv[0]:
+            if key is kv[0] or key == kv[0]:
                 return kv[1]
         raise KeyError(key)
     def get(self, key, default=None):
@@ -175,7 +175,7 @@ class pdict(PersistentMapping):
         ii = self._idx.get(h, None)
         while ii is not None:
             (kv,ii) = self._els[ii]
-            if key == kv[0]:
+            if key is kv[0] or key == kv[0]:
                 return kv[1]
         return default
     def transient(self):
@@ -198,7 +198,7 @@ class pdict(PersistentMapping):
             while ii is not None:
                 (kv,ii_next) = self._els[ii]
                 (k,v) = kv
-                if key == k:
+                if key is k or key == k:
                     # It is in the dict; either it's exactly in the dict or we
                     # replace it.
                     if val is v:
@@ -228,7 +228,7 @@ class pdict(PersistentMapping):
         while ii is not None:
             (kv,ii_next) = self._els[ii]
             (k,v) = kv
-            if key == k:
+            if key is k or key == k:
                 # We remove this entry!
                 if ii_prev is None:
                     # We're removing from the front of the list.
@@ -271,7 +271,7 @@ class pdict(PersistentMapping):
         while ii is not None:
             (kv,ii_next) = self._els[ii]
             (k,v) = kv
-            if key == k:
+            if key is k or key == k:
                 # We remove this entry!
                 if ii_prev is None:
                     # We're removing from the front of the list.
@@ -431,7 +431,7 @@ class tdict(TransientMapping):
         ii_prev = None
         while ii is not None:
             (kv, ii_next) = self._els[ii]
-            if kv[0] == k:
+            if kv[0] is k or kv[0] == k:
                 if kv[1] is not v:
                     self._els[ii] = ((kv[0],v), ii_next)
                     # The object has changed, so make sure we aren't tracking
@@ -463,7 +463,7 @@ class tdict(TransientMapping):
         ii = self._idx.get(h, None)
         while ii is not None:
             ((kk,vv),ii) = self._els[ii]
-            if k == kk:
+            if k is kk or k == kk:
                 return True
         return False
     def __reversed__(self):
@@ -473,7 +473,7 @@ class tdict(TransientMapping):
         ii = self._idx.get(h, None)
         while ii is not None:
             (kv,ii) = self._els[ii]
-            if key == kv[0]:
+            if key is kv[0] or key == kv[0]:
                 return kv[1]
         raise KeyError(key)
     def get(self, key, default=None):
@@ -481,7 +481,7 @@ class tdict(TransientMapping):
         ii = self._idx.get(h, None)
         while ii is not None:
             (kv,ii) = self._els[ii]
-            if key == kv[0]:
+            if key is kv[0] or key == kv[0]:
                 return kv[1]
         return default
     def __iter__(self):
@@ -502,7 +502,7 @@ class tdict(TransientMapping):
         while ii is not None:
             (kv,ii_next) = self._els[ii]
             (k,v) = kv
-            if key == k:
+            if key is k or key == k:
                 # We remove this entry!
                 if ii_prev is None:
                     # We're removing from the front of the list.
@@ -548,7 +548,7 @@ class tdict(TransientMapping):
         while ii is not None:
             (kv,ii_next) = self._els[ii]
             (k,v) = kv
-            if key == k:
+            if key is k or key == k:
                 # We remove this entry!
                 if ii_prev is None:
                     # We're removing from the front of the list.
diff --git a/pcollections/_set.py b/pcollections/_set.py
index 1610c92..3223387 100644
--- a/pcollections/_set.py
+++ b/pcollections/_set.py
@@ -65,7 +65,7 @@ class pset(PersistentSet):
         ii = self._idx.get(h, None)
         while ii is not None:
             (x,ii) = self._els[ii]
-            if el == x:
+            if el is x or el == x:
                 return True
         return False
     def __iter__(self):
@@ -93,7 +93,7 @@ class pset(PersistentSet):
             ii_prev = None
             while ii is not None:
                 (x,ii_next) = self._els[ii]
-                if obj == x:
+                if obj is x or obj == x:
                     return self
                 ii_prev = ii
                 x_prev = x
@@ -117,7 +117,7 @@ class pset(PersistentSet):
         x_prev = None
         while ii is not None:
             (x,ii_next) = self._els[ii]
-            if obj == x:
+            if obj is x or obj == x:
                 # We remove this object!
                 if ii_prev is None:
                     # We're removing from the front of the list.
@@ -200,7 +200,7 @@ class tset(TransientSet):
         ii = self._idx.get(h, None)
         while ii is not None:
             (x,ii) = self._els[ii]
-            if el == x:
+            if el is x or el == x:
                 return True
         return False
     def __iter__(self):
@@ -227,7 +227,7 @@ class tset(TransientSet):
             ii_prev = None
             while ii is not None:
                 (x,ii_next) = self._els[ii]
-                if obj == x:
+                if obj is x or obj == x:
                     return None
                 ii_prev = ii
                 x_prev = x
@@ -251,7 +251,7 @@ class tset(TransientSet):
         x_prev = None
         while ii is not None:
             (x,ii_next) = self._els[ii]
-            if obj == x:
+            if obj is x or obj == x:
                 # We remove this object!
                 if ii_prev is None:
                     # We're removing from the front of the list.
-- 
2.43.0


From 24a5078eabf529367f874bc98426dd3eda73eaf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:45 +0000
Subject: [PATCH 39/68] fix: membership in mapping views must find identical
 values

---
 pcollections/_dict.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pcollections/_dict.py b/pcollections/_dict.py
index d669313..ab613ef 100644
--- a/pcollections/_dict.py
+++ b/pcollections/_dict.py
@@ -75,7 +75,7 @@ class pdict_items(ItemsView, PDictView):
         d = Ellipsis if v0 is None else None
         v = self._mapping.get(k0, d)
         (k,v) = self._from_kv((k0,v))
-        return v0 == v
+        return v0 is v or v0 == v
 class pdict_values(ValuesView, PDictView):
     __slots__ = ()
     def _from_kv(self, kv):
@@ -83,7 +83,7 @@ class pdict_values(ValuesView, PDictView):
     def __contains__(self, v):
         for ent in self._mapping._els:
             v0 = self._from_kv(ent[1][0])
-            if v0 == v:
+            if v0 is v or v0 == v:
                 return True
         return False
 class pdict(PersistentMapping):
@@ -348,14 +348,15 @@ class tdict_items(ItemsView, tdict_view):
         if not isinstance(kv, tuple) or len(kv) != 2:
             return False
         d = Ellipsis if kv[1] is None else None
-        return self._tdict.get(kv[0], d) == kv[1]
+        v = self._tdict.get(kv[0], d)
+        return v is kv[1] or v == kv[1]
 class tdict_values(ValuesView, tdict_view):
     __slots__ = ('_tdict', '_version')
     def _from_kv(self, arg):
         return arg[1]
     def __contains__(self, v):
         for (_,(kv,_)) in self._tdict._els:
-            if kv[1] == v:
+            if kv[1] is v or kv[1] == v:
                 return True
         return False
 class tdict(TransientMapping):
-- 
2.43.0


From 78454b58d2d55d5a3e687bbe4d739b9910b3d187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:03 +0000
Subject: [PATCH 40/68] fix: membership in the values of a tldict must find
 identical values

As in the views of the other mappings.
---
 pcollections/_lazy.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pcollections/_lazy.py b/pcollections/_lazy.py
index ec1d87d..5764882 100644
--- a/pcollections/_lazy.py
+++ b/pcollections/_lazy.py
@@ -441,11 +441,12 @@ class tldict_values(tdict_values):
     def __contains__(self, v):
         for (_,(kv,_)) in self._tdict._els:
             if not isinstance(kv[1], lazy):
-                if kv[1] == v:
+                if kv[1] is v or kv[1] == v:
                     return True
         for (_,(kv,_)) in self._tdict._els:
             if isinstance(kv[1], lazy):
-                if kv[1]() == v:
+                u = kv[1]()
+                if u is v or u == v:
                     return True
         return False
 class tldict(tdict):
-- 
2.43.0


From 05e2919da7e7276d4feb7eaca66f5b7bbf7a83c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:03 +0000
Subject: [PATCH 41/68] fix: a lazy value must not be replaced by an outer call
 that is still running

When the calculation of a lazy value requests the same lazy object, the inner
request caches its result; the outer calculation then replaced that cached value.
---
 pcollections/_lazy.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/pcollections/_lazy.py b/pcollections/_lazy.py
index 5764882..afb9a86 100644
--- a/pcollections/_lazy.py
+++ b/pcollections/_lazy.py
@@ -97,10 +97,15 @@ class lazy:
                     val = self.value
                 else:
                     val = part()
-                    # We've successfully calculated the value; set the members
-                    # appropriately.
-                    object.__setattr__(self, 'value', val)
-                    object.__setattr__(self, 'partial', None)
+                    if self.partial is None:
+                        # The calculation requested this object itself, and
+                        # that request has already provided the value.
+                        val = self.value
+                    else:
+                        # We've successfully calculated the value; set the
+                        # members appropriately.
+                        object.__setattr__(self, 'value', val)
+                        object.__setattr__(self, 'partial', None)
                 return val
             except Exception as partial_eror:
                 # If an exception occurs, we want to raise an error that traces
-- 
2.43.0


From 3d17149d9fa3d583b379287879f87d1be9fca8f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:03 +0000
Subject: [PATCH 42/68] fix: adding to an empty sequence must not return a
 sequence of another type

llist() + plist(...) returned the plist, and plist() + llist(...) the llist.
---
 pcollections/abc/_seq.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pcollections/abc/_seq.py b/pcollections/abc/_seq.py
index 6a48000..fbb39ad 100644
--- a/pcollections/abc/_seq.py
+++ b/pcollections/abc/_seq.py
@@ -218,7 +218,7 @@ class PersistentSequence(Persistent, Sequence):
             raise TypeError(msg)
         elif len(obj) == 0:
             return self
-        elif len(self) == 0 and isinstance(obj, PersistentSequence):
+        elif len(self) == 0 and type(obj) is type(self):
             return obj
         else:
             return self.extend(obj)
-- 
2.43.0


From 00111d405a0b51b6400da81116599661a39c494e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:19 +0000
Subject: [PATCH 43/68] fix: items of absent keys are never in an item view

The value was compared to None or Ellipsis, which objects that equal anything
match.
---
 pcollections/_dict.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pcollections/_dict.py b/pcollections/_dict.py
index ab613ef..91b875d 100644
--- a/pcollections/_dict.py
+++ b/pcollections/_dict.py
@@ -71,9 +71,10 @@ class pdict_items(ItemsView, PDictView):
     def __contains__(self, kv):
         if not isinstance(kv, tuple) or len(kv) != 2:
             return False
+        if kv[0] not in self._mapping:
+            return False
         (k0,v0) = self._from_kv(kv)
-        d = Ellipsis if v0 is None else None
-        v = self._mapping.get(k0, d)
+        v = self._mapping.get(k0)
         (k,v) = self._from_kv((k0,v))
         return v0 is v or v0 == v
 class pdict_values(ValuesView, PDictView):
@@ -347,8 +348,9 @@ class tdict_items(ItemsView, tdict_view):
     def __contains__(self, kv):
         if not isinstance(kv, tuple) or len(kv) != 2:
             return False
-        d = Ellipsis if kv[1] is None else None
-        v = self._tdict.get(kv[0], d)
+        if kv[0] not in self._tdict:
+            return False
+        v = self._tdict.get(kv[0])
         return v is kv[1] or v == kv[1]
 class tdict_values(ValuesView, tdict_view):
     __slots__ = ('_tdict', '_version')
-- 
2.43.0


From c1d91f26f1bbf1dbcba6c583498757cfba7583e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:53 +0000
Subject: [PATCH 44/68] fix: a pdict made from an empty iterable must be the
 empty pdict

---
 pcollections/_dict.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pcollections/_dict.py b/pcollections/_dict.py
index 91b875d..0fff4da 100644
--- a/pcollections/_dict.py
+++ b/pcollections/_dict.py
@@ -140,6 +140,8 @@ class pdict(PersistentMapping):
                 return cls._new(arg._els, arg._idx, arg._top)
         # For anything else, however, we just route this through tdict.
         t = tdict(arg, **kw)
+        if len(t) == 0:
+            return cls.empty
         return cls._new(
             t._els.persistent(),
             t._idx.persistent(),
-- 
2.43.0


From 03cb7a8bc828f67c53fa8671c891b6a3a2c9da9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:53 +0000
Subject: [PATCH 45/68] fix: seqstr must count the separators between empty
 strings

---
 pcollections/util/_core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pcollections/util/_core.py b/pcollections/util/_core.py
index 41ce8ba..3a5572c 100644
--- a/pcollections/util/_core.py
+++ b/pcollections/util/_core.py
@@ -105,7 +105,7 @@ def seqstr(seq, maxlen=None, sep=", ", tostr=repr):
         s = tostr(el)
         parts.append(s)
         n = len(s)
-        N = n if N == 0 else N + seplen + n
+        N = n if len(parts) == 1 else N + seplen + n
         if N > maxlen:
             # We've overshot; remove the final element if need-be.
             while len(parts) > 0 and N + elllen > maxlen:
-- 
2.43.0


From 5f1fb39cd3d77b05248db92c0d95e555f8627412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:46 +0000
Subject: [PATCH 46/68] fix: TransientSequence.reverse must not leave a
 half-reversed list when reading an element fails

---
 pcollections/abc/_seq.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/pcollections/abc/_seq.py b/pcollections/abc/_seq.py
index fbb39ad..0cd92a8 100644
--- a/pcollections/abc/_seq.py
+++ b/pcollections/abc/_seq.py
@@ -362,12 +362,9 @@ class TransientSequence(Transient, MutableSequence):
         raise ValueError(f'{value} is not in {type(self)}')
     def reverse(self):
         """Reverses *IN PLACE*."""
-        n = len(self)
-        for k in range(n//2):
-            kk = n - 1 - k
-            tmp = self[k]
-            self[k] = self[kk]
-            self[kk] = tmp
+        # All elements are read before any is set: reading a lazy one may fail.
+        for (k, el) in enumerate(list(self)[::-1]):
+            self[k] = el
     def __str__(self):
         # We have a max length of 60 characters, not counting the delimiters.
         return f"[<{seqstr(self, maxlen=60)}>]"
-- 
2.43.0


From b8f31826badf74b9b97817dec048cca180cdd4a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:36 +0000
Subject: [PATCH 47/68] fix: reversed iteration over a changed tdict must raise
 instead of yielding stale entries

---
 pcollections/_dict.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pcollections/_dict.py b/pcollections/_dict.py
index 0fff4da..83cdf5c 100644
--- a/pcollections/_dict.py
+++ b/pcollections/_dict.py
@@ -328,7 +328,13 @@ class tdict_view(Set):
     def __iter__(self):
         return map(self._iter, self._tdict._els)
     def __reversed__(self):
-        return reversed(list(self.__iter__()))
+        d = self._tdict
+        els = d._els
+        v0 = d._version
+        for ii in reversed([ii for (ii,_) in els]):
+            if v0 < d._version:
+                raise RuntimeError(f"{type(self)} changed during iteration")
+            yield self._from_kv(els[ii][0])
     def __len__(self):
         return len(self._tdict)
     # These are the abstract methods that need to be implemented in the actual
-- 
2.43.0


From f185f3bfc675531b0a9961305f90b2cb3e77070d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:36 +0000
Subject: [PATCH 48/68] fix: iterating over a tlist that was cleared must raise
 instead of yielding old items

---
 pcollections/_list.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/pcollections/_list.py b/pcollections/_list.py
index de319a8..c531b3c 100644
--- a/pcollections/_list.py
+++ b/pcollections/_list.py
@@ -255,10 +255,16 @@ class tlist(TransientSequence):
         th = self._thamt
         n = len(th)
         if st >= 0 or n + st < 0:
-            return map(lambda u:u[1], iter(th))
+            it = map(lambda u:u[1], iter(th))
         else:
-            return chain((th[k] for k in range(st, 0)),
-                         islice(map(lambda u:u[1], iter(th)), 0, n + st))
+            it = chain((th[k] for k in range(st, 0)),
+                       islice(map(lambda u:u[1], iter(th)), 0, n + st))
+        # Clearing the tlist replaces the THAMT, which iter(th) cannot detect.
+        def _check(el):
+            if self._thamt is not th:
+                raise RuntimeError(f"{type(self)} changed during iteration")
+            return el
+        return map(_check, it)
     def __len__(self):
         """Returns the length of the tlist."""
         return len(self._thamt)
-- 
2.43.0


From 0a04d0795511ed6fd96200baf707b374bd86ccc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:05 +0000
Subject: [PATCH 49/68] fix: tdict and tldict must print with the transient
 delimiters

---
 pcollections/_lazy.py    | 4 ++--
 pcollections/abc/_map.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pcollections/_lazy.py b/pcollections/_lazy.py
index afb9a86..d587a8e 100644
--- a/pcollections/_lazy.py
+++ b/pcollections/_lazy.py
@@ -469,9 +469,9 @@ class tldict(tdict):
         return tdict.__new__(cls, *args, **kw)
     def __str__(self):
         # We have a max length of 60 characters, not counting the delimiters.
-        return f"{{|{seqstr(self.as_tdict(), maxlen=60, tostr=reprlazy)}|}}"
+        return f"{{<{seqstr(self.as_tdict(), maxlen=60, tostr=reprlazy)}>}}"
     def __repr__(self):
-        return f"{{|{seqstr(self.as_tdict())}|}}"
+        return f"{{<{seqstr(self.as_tdict())}>}}"
     def persistent(self):
         """Efficiently copies the tldict into an ldict and returns the ldict."""
         if len(self) == 0:
diff --git a/pcollections/abc/_map.py b/pcollections/abc/_map.py
index d0204d1..e31b09d 100644
--- a/pcollections/abc/_map.py
+++ b/pcollections/abc/_map.py
@@ -245,7 +245,7 @@ class TransientMapping(MutableMapping, Transient):
     def __repr__(self):
         #s = repr(dict(self))
         #return f"{{<{s[1:-1]}>}}"
-        return f"{{|{seqstr(self)}|}}"
+        return f"{{<{seqstr(self)}>}}"
     def __contains__(self, k):
         try:
             self[k]
-- 
2.43.0


From 1dc4903b8783cdfe3e5655bfa14e1b00cab17dae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:40 +0000
Subject: [PATCH 50/68] fix: pickling and copying a collection class that is
 initialised by __init__ must not leave it empty-handed

---
 pcollections/abc/_map.py | 4 ++--
 pcollections/abc/_seq.py | 4 ++--
 pcollections/abc/_set.py | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/pcollections/abc/_map.py b/pcollections/abc/_map.py
index e31b09d..54c1c96 100644
--- a/pcollections/abc/_map.py
+++ b/pcollections/abc/_map.py
@@ -185,7 +185,7 @@ class PersistentMapping(Mapping, Persistent):
             t[k] = v
         return type(self)(t)
     def __reduce__(self):
-        return (self.__new__, (type(self), list(self.items()),))
+        return (type(self), (list(self.items()),))
     def __json__(self):
         from json import dumps
         return dumps(dict(self))
@@ -314,7 +314,7 @@ class TransientMapping(MutableMapping, Transient):
         return self.persistent().transient()
     # The below handle pickling cases.
     def __reduce__(self):
-        return (self.__new__, (type(self), list(self.items()),))
+        return (type(self), (list(self.items()),))
     def __json__(self):
         from json import dumps
         return dumps(dict(self))
diff --git a/pcollections/abc/_seq.py b/pcollections/abc/_seq.py
index 0cd92a8..ccee6b7 100644
--- a/pcollections/abc/_seq.py
+++ b/pcollections/abc/_seq.py
@@ -258,7 +258,7 @@ class PersistentSequence(Persistent, Sequence):
         return self.__mul__(value)
     # For pickling:
     def __reduce__(self):
-        return (self.__new__, (type(self), list(self),))
+        return (type(self), (list(self),))
     def __json__(self):
         from json import dumps
         return dumps(list(self))
@@ -501,7 +501,7 @@ class TransientSequence(Transient, MutableSequence):
         return self.persistent().transient()
     # For pickling.
     def __reduce__(self):
-        return (self.__new__, (type(self), list(self),))
+        return (type(self), (list(self),))
     def __json__(self):
         from json import dumps
         return dumps(list(self))    
diff --git a/pcollections/abc/_set.py b/pcollections/abc/_set.py
index fc652ff..c215a1c 100644
--- a/pcollections/abc/_set.py
+++ b/pcollections/abc/_set.py
@@ -276,7 +276,7 @@ class PersistentSet(Set, Persistent):
         else:
             return type(self)(t)
     def __reduce__(self):
-        return (self.__new__, (type(self), list(self),))
+        return (type(self), (list(self),))
 
 
 #===============================================================================
@@ -562,4 +562,4 @@ class TransientSet(MutableSet, Transient):
         """Returns a copy of the transient set."""
         return self.persistent().transient()
     def __reduce__(self):
-        return (self.__new__, (type(self), list(self),))
+        return (type(self), (list(self),))
-- 
2.43.0


From 7ebccc04cd3370aa5b3648604b8c460d2cb7b340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:51 +0000
Subject: [PATCH 51/68] fix: TransientMapping.setdefault hid a KeyError raised
 by the key itself

---
 pcollections/abc/_map.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/pcollections/abc/_map.py b/pcollections/abc/_map.py
index 54c1c96..20bd54e 100644
--- a/pcollections/abc/_map.py
+++ b/pcollections/abc/_map.py
@@ -262,10 +262,8 @@ class TransientMapping(MutableMapping, Transient):
 
         Return the value for the key if key is in the dictionary, else default.
         """
-        try:
+        if key in self:
             return self[key]
-        except KeyError:
-            pass
         self[key] = default
         return default
     def popitem(self):
-- 
2.43.0


From 26f3cded79a36678b2b281c325dc6164e1189d22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:51 +0000
Subject: [PATCH 52/68] fix: TransientMapping.pop hid a KeyError raised by the
 key itself

---
 pcollections/abc/_map.py | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/pcollections/abc/_map.py b/pcollections/abc/_map.py
index 20bd54e..42ab7f5 100644
--- a/pcollections/abc/_map.py
+++ b/pcollections/abc/_map.py
@@ -285,16 +285,12 @@ class TransientMapping(MutableMapping, Transient):
         nargs = len(args)
         if nargs > 1:
             raise TypeError(f"pop expected at most 2 arguments, got {nargs}")
-        try:
-            val = self[key]
-            del self[key]
-            return val
-        except KeyError:
+        if nargs == 1 and key not in self:
             # It's not here!
-            if nargs == 0:
-                raise
-            else:
-                return args[0]
+            return args[0]
+        val = self[key]
+        del self[key]
+        return val
     def update(self, *args, **kw):
         """Updates the transient mapping with items from the arguments and
         options.
-- 
2.43.0


From 1a92481ef1eef22d990a4eeda09532eeabcf09b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:19 +0000
Subject: [PATCH 53/68] fix: reversed() of a lazy mapping's values or items
 must not evaluate all of them at once

---
 pcollections/_dict.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pcollections/_dict.py b/pcollections/_dict.py
index 83cdf5c..2a5faa2 100644
--- a/pcollections/_dict.py
+++ b/pcollections/_dict.py
@@ -41,7 +41,9 @@ class PDictView(MappingView):
     def __iter__(self):
         return map(lambda arg: self._from_kv(arg[1]), self._mapping._els)
     def __reversed__(self):
-        return reversed(list(self.__iter__()))
+        # The values of a lazy mapping are read one at a time, as by iter().
+        els = reversed(list(self._mapping._els))
+        return map(lambda arg: self._from_kv(arg[1][0]), els)
     def __len__(self):
         return len(self._mapping)
     # Abstract methods that must be overloaded by the concrete view classes
-- 
2.43.0


From fbe067fb09c8774e385273424739da0e73fb4aeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:25 +0000
Subject: [PATCH 54/68] fix: failed requests of a lazy value must not
 accumulate in its LazyError

---
 pcollections/_lazy.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pcollections/_lazy.py b/pcollections/_lazy.py
index d587a8e..6e5dbe1 100644
--- a/pcollections/_lazy.py
+++ b/pcollections/_lazy.py
@@ -109,8 +109,11 @@ class lazy:
                 return val
             except Exception as partial_eror:
                 # If an exception occurs, we want to raise an error that traces
-                # back to the initialization of this object.
-                raise init_error
+                # back to the initialization of this object. A new one is needed
+                # each time: raising init_error itself would make it keep the
+                # frames of every failed request.
+                raise LazyError(init_error.partial).with_traceback(
+                    init_error.__traceback__)
             finally:
                 rlock.release()
     def __repr__(self):
-- 
2.43.0


From 8767d9c2185b73d2e590dd15b86f47765c20acd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:41 +0000
Subject: [PATCH 55/68] fix: keyword items of a mapping may be named cls or
 self

---
 pcollections/_dict.py    | 8 ++++++--
 pcollections/_lazy.py    | 8 ++++++--
 pcollections/abc/_map.py | 8 ++++++--
 3 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/pcollections/_dict.py b/pcollections/_dict.py
index 2a5faa2..2b59aca 100644
--- a/pcollections/_dict.py
+++ b/pcollections/_dict.py
@@ -110,7 +110,9 @@ class pdict(PersistentMapping):
         object.__setattr__(new_pdict, '_hashcode', None)
         return new_pdict
     __slots__ = ("_els", "_idx", "_top", "_hashcode")
-    def __new__(cls, *args, **kw):
+    def __new__(*args, **kw):
+        # cls isn't a named parameter: it may be one of the keywords.
+        (cls, *args) = args
         n = len(args)
         if n == 1:
             arg = args[0]
@@ -402,7 +404,9 @@ class tdict(TransientMapping):
         """Returns an empty tdict."""
         return cls._new(THAMT(PHAMT.empty), THAMT(PHAMT.empty), 0)
     __slots__ = ("_els", "_idx", "_top","_version")
-    def __new__(cls, *args, **kw):
+    def __new__(*args, **kw):
+        # cls isn't a named parameter: it may be one of the keywords.
+        (cls, *args) = args
         n = len(args)
         if n == 1:
             arg = args[0]
diff --git a/pcollections/_lazy.py b/pcollections/_lazy.py
index 6e5dbe1..8ed7b4e 100644
--- a/pcollections/_lazy.py
+++ b/pcollections/_lazy.py
@@ -348,7 +348,9 @@ class ldict(pdict):
     """
     empty = None
     __slots__ = ()
-    def __new__(cls, *args, **kw):
+    def __new__(*args, **kw):
+        # cls isn't a named parameter: it may be one of the keywords.
+        (cls, *args) = args
         # The lazy values of other lazy dicts are kept.
         if len(args) == 1 and isinstance(args[0], tldict):
             args = (args[0].persistent(),)
@@ -465,7 +467,9 @@ class tldict(tdict):
     keys instead of the `lazy` objects themselves.
     """
     __slots__ = ()
-    def __new__(cls, *args, **kw):
+    def __new__(*args, **kw):
+        # cls isn't a named parameter: it may be one of the keywords.
+        (cls, *args) = args
         # The lazy values of other lazy dicts are kept.
         if len(args) == 1 and isinstance(args[0], (ldict, tldict)):
             args = (holdlazy(args[0]),)
diff --git a/pcollections/abc/_map.py b/pcollections/abc/_map.py
index 42ab7f5..fc1706a 100644
--- a/pcollections/abc/_map.py
+++ b/pcollections/abc/_map.py
@@ -170,13 +170,15 @@ class PersistentMapping(Mapping, Persistent):
                 raise
             else:
                 return (args[0], self)
-    def update(self, *args, **kw):
+    def update(*args, **kw):
         """Returns a copy of the persistent mapping with the key-value pairs in
         the iterable/mapping `arg` and the keyword arguments included.
 
         Multiple arguments may be provided, but they must each be a mapping or
         an iterable of items.
         """
+        # self isn't a named parameter: it may be one of the keywords.
+        (self, *args) = args
         t = self.transient()
         for arg in args:
             for (k,v) in (arg.items() if isinstance(arg, Mapping) else arg):
@@ -291,13 +293,15 @@ class TransientMapping(MutableMapping, Transient):
         val = self[key]
         del self[key]
         return val
-    def update(self, *args, **kw):
+    def update(*args, **kw):
         """Updates the transient mapping with items from the arguments and
         options.
 
         Multiple arguments may be provided, but they must each be either a
         mapping or an iterable of items.
         """
+        # self isn't a named parameter: it may be one of the keywords.
+        (self, *args) = args
         for arg in args:
             for (k,v) in (arg.items() if isinstance(arg, Mapping) else arg):
                 self[k] = v
-- 
2.43.0


From 377842b21f8d993b54e73a6b7727e77d71bca75b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:55 +0000
Subject: [PATCH 56/68] fix: the callable of a lazy value may be given keywords
 named fn or cls

---
 pcollections/_lazy.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/pcollections/_lazy.py b/pcollections/_lazy.py
index 8ed7b4e..7c04a0b 100644
--- a/pcollections/_lazy.py
+++ b/pcollections/_lazy.py
@@ -63,7 +63,16 @@ class lazy:
     forgotten.
     """
     __slots__ = ('partial', 'value')
-    def __new__(cls, fn, *args, **kw):
+    def __new__(*args, **kw):
+        # cls and fn aren't named parameters: the callable may be given keywords
+        # of these names.
+        (cls, args) = (args[0], args[1:])
+        if len(args) > 0:
+            (fn, args) = (args[0], args[1:])
+        elif 'fn' in kw:
+            fn = kw.pop('fn')
+        else:
+            raise TypeError("lazy expects a callable function")
         # Make sure the function is callable.
         if not callable(fn):
             raise TypeError(f"lazy({fn}) must be given a callable function")
-- 
2.43.0


From bfef53a69fccf4a326d2f79bebcf201afaf1f8df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:09 +0000
Subject: [PATCH 57/68] fix: the text of a LazyError made from a partial raised
 NameError

---
 pcollections/_lazy.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pcollections/_lazy.py b/pcollections/_lazy.py
index 7c04a0b..df6543c 100644
--- a/pcollections/_lazy.py
+++ b/pcollections/_lazy.py
@@ -37,6 +37,7 @@ class LazyError(RuntimeError):
         self.partial = partial
     def __str__(self):
         if isinstance(self.partial, partial):
+            p = self.partial
             (fn, args, kwargs) = (p.func, p.args, p.keywords)
         else:
             (fn, args, kwargs) = self.partial
-- 
2.43.0


From 203e4c54c8d1b95745ff25a64c26f69b85dbfc77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:28 +0000
Subject: [PATCH 58/68] fix: take any integer object as a list position, refuse
 others with TypeError

---
 pcollections/_list.py    | 13 +++++++++++--
 pcollections/abc/_seq.py |  6 ++++++
 2 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/pcollections/_list.py b/pcollections/_list.py
index c531b3c..659a943 100644
--- a/pcollections/_list.py
+++ b/pcollections/_list.py
@@ -5,6 +5,7 @@
 # By Noah C. Benson
 
 from itertools import (chain, islice)
+from operator import index as asindex
 
 from phamt import (PHAMT,THAMT)
 
@@ -65,6 +66,7 @@ class plist(PersistentSequence):
     def set(self, index, obj):
         """Returns a copy of the list with the given index set to the given
         object."""
+        index = asindex(index)
         start = self._start
         phamt = self._phamt
         n = len(phamt)
@@ -80,6 +82,7 @@ class plist(PersistentSequence):
     def delete(self, index=-1):
         """"Returns a copy of the plist with the item at index removed (default
         index: last)."""
+        index = asindex(index)
         phamt = self._phamt
         n = len(phamt)
         st = self._start
@@ -125,6 +128,7 @@ class plist(PersistentSequence):
         return self._new(new_phamt, new_start)
     def insert(self, index, obj):
         """Returns a new plist with object inserted before index."""
+        index = asindex(index)
         start = self._start
         phamt = self._phamt
         n = len(phamt)
@@ -174,7 +178,8 @@ class plist(PersistentSequence):
             for (ii,jj) in enumerate(range(start, stop, step)):
                 thamt[ii] = phamt[jj]
             return self._new(thamt.persistent(), 0)
-        elif k >= n or k < -n:
+        k = asindex(k)
+        if k >= n or k < -n:
             raise IndexError("plist index out of range")
         elif k < 0:
             k += n
@@ -281,12 +286,14 @@ class tlist(TransientSequence):
             for (ii,jj) in enumerate(range(start, stop, step)):
                 new_thamt[ii] = thamt[jj]
             return self._new(new_thamt, 0)
-        elif k >= n or k < -n:
+        k = asindex(k)
+        if k >= n or k < -n:
             raise IndexError("tlist index out of range")
         elif k < 0:
             k += n
         return thamt[k + st]
     def __setitem__(self, k, v):
+        k = asindex(k)
         n = len(self._thamt)
         if k >= n or k < -n:
             raise IndexError(k)
@@ -298,6 +305,7 @@ class tlist(TransientSequence):
         """Remove and return item at index (default last).
 
         Raises IndexError if list is empty or index is out of range."""
+        index = asindex(index)
         st = self._start
         th = self._thamt
         n = len(th)
@@ -330,6 +338,7 @@ class tlist(TransientSequence):
         object.__setattr__(self, '_orig', None)
     def insert(self, index, obj):
         """Inserts the given object before the given index."""
+        index = asindex(index)
         st = self._start
         th = self._thamt
         n = len(th)
diff --git a/pcollections/abc/_seq.py b/pcollections/abc/_seq.py
index ccee6b7..a4b82f3 100644
--- a/pcollections/abc/_seq.py
+++ b/pcollections/abc/_seq.py
@@ -6,6 +6,7 @@
 # By Noah C. Benson
 
 from numbers         import (Integral)
+from operator        import index as asindex
 from collections.abc import (Sequence, MutableSequence)
 
 from ._core import (Persistent, Transient)
@@ -93,6 +94,7 @@ class PersistentSequence(Persistent, Sequence):
         If the index is too large or too small for the size of the sequence,
         then the sequence is returned as-is. Non-integer indices will still
         result in raised exceptions."""
+        index = asindex(index)
         n = len(self)
         if index < -n or index >= n:
             return self
@@ -187,6 +189,8 @@ class PersistentSequence(Persistent, Sequence):
 
         Raises ValueError if value is not present.
         """
+        start = asindex(start)
+        stop = None if stop is None else asindex(stop)
         n = len(self)
         if stop is None:
             stop = n
@@ -423,6 +427,8 @@ class TransientSequence(Transient, MutableSequence):
 
         Raises ValueError if value is not present.
         """
+        start = asindex(start)
+        stop = None if stop is None else asindex(stop)
         n = len(self)
         if stop is None:
             stop = n
-- 
2.43.0


From a3c1dd15ddb6cfcaaba5e6d9fa0dbe68a97ed6ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:18 +0000
Subject: [PATCH 59/68] fix: holdlazy passes on an AttributeError raised by
 __holdlazy__ itself

---
 pcollections/_lazy.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pcollections/_lazy.py b/pcollections/_lazy.py
index df6543c..5ae64e4 100644
--- a/pcollections/_lazy.py
+++ b/pcollections/_lazy.py
@@ -182,13 +182,14 @@ def holdlazy(obj, require_lazy=False):
     `__holdlazy__` is not defined.
     """
     try:
-        return obj.__holdlazy__()
+        hold = obj.__holdlazy__
     except AttributeError:
         if require_lazy:
             raise TypeError(
                 f"__holdlazy__ method not found for type {type(obj)}")
         else:
             return obj
+    return hold()
     
 
 #===============================================================================
-- 
2.43.0


From 7e3d3f0edc6d38fba38d4bd8b424d191cde2f018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:49 +0000
Subject: [PATCH 60/68] fix: pdict of an object whose length is not that of its
 items was empty or failed

---
 pcollections/_dict.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pcollections/_dict.py b/pcollections/_dict.py
index 2b59aca..c6863d4 100644
--- a/pcollections/_dict.py
+++ b/pcollections/_dict.py
@@ -11,8 +11,7 @@ from collections.abc import (
     MappingView,
     KeysView,
     ItemsView,
-    ValuesView,
-    Sized
+    ValuesView
 )
 
 from phamt import (
@@ -129,7 +128,7 @@ class pdict(PersistentMapping):
         if not kw:
             # If arg is a tdict and no keyword arguments have been given, this
             # is a special case.
-            if isinstance(arg, Sized) and len(arg) == 0:
+            if isinstance(arg, (pdict, tdict)) and len(arg) == 0:
                 return cls.empty
             elif type(arg) is tdict:
                 return cls._new(
-- 
2.43.0


From e119d132d38563a70d0a5b009cf1c345c15ecd22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:54 +0000
Subject: [PATCH 61/68] fix: order sequences by applying the operator to the
 first items that differ

---
 pcollections/abc/_seq.py | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/pcollections/abc/_seq.py b/pcollections/abc/_seq.py
index a4b82f3..d34386e 100644
--- a/pcollections/abc/_seq.py
+++ b/pcollections/abc/_seq.py
@@ -6,12 +6,19 @@
 # By Noah C. Benson
 
 from numbers         import (Integral)
-from operator        import index as asindex
+from operator        import (lt, le, gt, ge, index as asindex)
 from collections.abc import (Sequence, MutableSequence)
 
 from ._core import (Persistent, Transient)
-from ..util import (seqstr, seqcmp)
+from ..util import seqstr
 
+def _seqorder(op, seq1, seq2):
+    # Like for lists, op is applied to the first items that differ, otherwise to
+    # the lengths.
+    for (a,b) in zip(seq1, seq2):
+        if not (a is b or a == b):
+            return op(a, b)
+    return op(len(seq1), len(seq2))
 
 #===============================================================================
 # PersistentSequence
@@ -146,22 +153,22 @@ class PersistentSequence(Persistent, Sequence):
         if not isinstance(other, (list, PersistentSequence, TransientSequence)):
             raise TypeError(f"'<' not supported between instances of"
                             f" '{type(self)}' and '{type(other)}'")
-        return seqcmp(self, other) < 0
+        return _seqorder(lt, self, other)
     def __le__(self, other):
         if not isinstance(other, (list, PersistentSequence, TransientSequence)):
             raise TypeError(f"'<=' not supported between instances of"
                             f" '{type(self)}' and '{type(other)}'")
-        return seqcmp(self, other) <= 0
+        return _seqorder(le, self, other)
     def __gt__(self, other):
         if not isinstance(other, (list, PersistentSequence, TransientSequence)):
             raise TypeError(f"'>' not supported between instances of"
                             f" '{type(self)}' and '{type(other)}'")
-        return seqcmp(self, other) > 0
+        return _seqorder(gt, self, other)
     def __ge__(self, other):
         if not isinstance(other, (list, PersistentSequence, TransientSequence)):
             raise TypeError(f"'>=' not supported between instances of"
                             f" '{type(self)}' and '{type(other)}'")
-        return seqcmp(self, other) >= 0
+        return _seqorder(ge, self, other)
     def __hash__(self):
         return hash(tuple(self)) + 1
     def __contains__(self, value):
@@ -388,22 +395,22 @@ class TransientSequence(Transient, MutableSequence):
         if not isinstance(other, (list, PersistentSequence, TransientSequence)):
             raise TypeError(f"'<' not supported between instances of"
                             f" '{type(self)}' and '{type(other)}'")
-        return seqcmp(self, other) < 0
+        return _seqorder(lt, self, other)
     def __le__(self, other):
         if not isinstance(other, (list, PersistentSequence, TransientSequence)):
             raise TypeError(f"'<=' not supported between instances of"
                             f" '{type(self)}' and '{type(other)}'")
-        return seqcmp(self, other) <= 0
+        return _seqorder(le, self, other)
     def __gt__(self, other):
         if not isinstance(other, (list, PersistentSequence, TransientSequence)):
             raise TypeError(f"'>' not supported between instances of"
                             f" '{type(self)}' and '{type(other)}'")
-        return seqcmp(self, other) > 0
+        return _seqorder(gt, self, other)
     def __ge__(self, other):
         if not isinstance(other, (list, PersistentSequence, TransientSequence)):
             raise TypeError(f"'>=' not supported between instances of"
                             f" '{type(self)}' and '{type(other)}'")
-        return seqcmp(self, other) >= 0
+        return _seqorder(ge, self, other)
     def __contains__(self, value):
         for el in self:
             if el is value or el == value:
-- 
2.43.0


From 6ecfea6f1dcd234650d9af50c79df8b9d274e258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:20 +0000
Subject: [PATCH 62/68] fix: an interrupt right after a lazy value's lock was
 acquired left it locked for ever

---
 pcollections/_lazy.py | 42 ++++++++++++++++++++----------------------
 1 file changed, 20 insertions(+), 22 deletions(-)

diff --git a/pcollections/_lazy.py b/pcollections/_lazy.py
index 5ae64e4..8c7c207 100644
--- a/pcollections/_lazy.py
+++ b/pcollections/_lazy.py
@@ -101,31 +101,29 @@ class lazy:
             (part, rlock, init_error) = part
             # Acquire the rlock then re-check that the lazy hasn't already been
             # calculated (at which point self.partial will be None).
-            rlock.acquire()
-            try:
-                if self.partial is None:
-                    val = self.value
-                else:
-                    val = part()
+            with rlock:
+                try:
                     if self.partial is None:
-                        # The calculation requested this object itself, and
-                        # that request has already provided the value.
                         val = self.value
                     else:
-                        # We've successfully calculated the value; set the
-                        # members appropriately.
-                        object.__setattr__(self, 'value', val)
-                        object.__setattr__(self, 'partial', None)
-                return val
-            except Exception as partial_eror:
-                # If an exception occurs, we want to raise an error that traces
-                # back to the initialization of this object. A new one is needed
-                # each time: raising init_error itself would make it keep the
-                # frames of every failed request.
-                raise LazyError(init_error.partial).with_traceback(
-                    init_error.__traceback__)
-            finally:
-                rlock.release()
+                        val = part()
+                        if self.partial is None:
+                            # The calculation requested this object itself, and
+                            # that request has already provided the value.
+                            val = self.value
+                        else:
+                            # We've successfully calculated the value; set the
+                            # members appropriately.
+                            object.__setattr__(self, 'value', val)
+                            object.__setattr__(self, 'partial', None)
+                    return val
+                except Exception as partial_eror:
+                    # If an exception occurs, we want to raise an error that
+                    # traces back to the initialization of this object. A new
+                    # one is needed each time: raising init_error itself would
+                    # make it keep the frames of every failed request.
+                    raise LazyError(init_error.partial).with_traceback(
+                        init_error.__traceback__)
     def __repr__(self):
         s = 'ready' if self.is_ready() else 'waiting'
         return f"lazy(<{id(self)}>: {s})"
-- 
2.43.0


From 4040b9cc953853a9cfeaf38a793080d44750c2d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:20 +0000
Subject: [PATCH 63/68] fix: finalizers of items that a transient lets go of
 saw it half-edited

---
 pcollections/_dict.py | 3 +++
 pcollections/_list.py | 9 +++++++++
 pcollections/_set.py  | 3 +++
 3 files changed, 15 insertions(+)

diff --git a/pcollections/_dict.py b/pcollections/_dict.py
index c6863d4..6853eeb 100644
--- a/pcollections/_dict.py
+++ b/pcollections/_dict.py
@@ -541,6 +541,9 @@ class tdict(TransientMapping):
         raise KeyError(key)
     def clear(self):
         """Returns the empty pdict."""
+        # The old items are kept until the tdict is empty: letting go of them
+        # may run user code (finalizers).
+        old = (self._els, self._idx)
         object.__setattr__(self, '_els', THAMT(PHAMT.empty))
         object.__setattr__(self, '_idx', THAMT(PHAMT.empty))
         object.__setattr__(self, '_top', 0)
diff --git a/pcollections/_list.py b/pcollections/_list.py
index 659a943..dfa6d69 100644
--- a/pcollections/_list.py
+++ b/pcollections/_list.py
@@ -244,6 +244,9 @@ class tlist(TransientSequence):
         return new_tlist
     def clear(self):
         """Clears all elements from the tlist."""
+        # The old elements are kept until the tlist is empty: letting go of them
+        # may run user code (finalizers).
+        old = self._thamt
         object.__setattr__(self, '_thamt', THAMT(PHAMT.empty))
         object.__setattr__(self, '_start', 0)
         object.__setattr__(self, '_orig', None)
@@ -299,6 +302,9 @@ class tlist(TransientSequence):
             raise IndexError(k)
         elif k < 0:
             k += n
+        # The old item is kept until it has been replaced: letting go of it may
+        # run user code (a finalizer).
+        old = self._thamt[k + self._start]
         self._thamt[k + self._start] = v
         object.__setattr__(self, '_orig', None)
     def __delitem__(self, index=-1):
@@ -313,6 +319,9 @@ class tlist(TransientSequence):
             raise IndexError(f"{type(self)} assignment index out of range")
         elif index < 0:
             index += n
+        # The item is kept until it has been removed: letting go of it may run
+        # user code (a finalizer).
+        old = th[index + st]
         if n - index <= index:
             for ii in range(index + st, n + st - 1):
                 th[ii] = th[ii + 1]
diff --git a/pcollections/_set.py b/pcollections/_set.py
index 3223387..0d879e9 100644
--- a/pcollections/_set.py
+++ b/pcollections/_set.py
@@ -273,6 +273,9 @@ class tset(TransientSet):
         return None
     def clear(self):
         """Clears the tset."""
+        # The old elements are kept until the tset is empty: letting go of them
+        # may run user code (finalizers).
+        old = (self._els, self._idx)
         object.__setattr__(self, '_els', THAMT(PHAMT.empty))
         object.__setattr__(self, '_idx', THAMT(PHAMT.empty))
         object.__setattr__(self, '_top', 0)
-- 
2.43.0


From 3d2cbe80de607f4b920be1ed88758a2d404d78f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:20 +0000
Subject: [PATCH 64/68] fix: tset.remove took a change made by a finalizer for
 the element's absence

---
 pcollections/abc/_set.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pcollections/abc/_set.py b/pcollections/abc/_set.py
index c215a1c..874901f 100644
--- a/pcollections/abc/_set.py
+++ b/pcollections/abc/_set.py
@@ -532,10 +532,9 @@ class TransientSet(MutableSet, Transient):
 
         Raises a `KeyError` if the element is not a member.
         """
-        n = len(self)
-        self.discard(element)
-        if n == len(self):
+        if element not in self:
             raise KeyError(element)
+        self.discard(element)
     def addall(self, iterable):
         """Returns a copy of the persistent set with the given elements
         included.
-- 
2.43.0


From 00dbc1b12682a15a371c8a88e1ef1c82f54da630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:20 +0000
Subject: [PATCH 65/68] fix: issuperset was true when a StopIteration came out
 of an element's hash or ==

---
 pcollections/abc/_set.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pcollections/abc/_set.py b/pcollections/abc/_set.py
index 874901f..580a96d 100644
--- a/pcollections/abc/_set.py
+++ b/pcollections/abc/_set.py
@@ -180,7 +180,10 @@ class PersistentSet(Set, Persistent):
         if isinstance(other, (set, frozenset)):
             return other.issubset(self)
         else:
-            return all(map(self.__contains__, iter(other)))
+            for el in other:
+                if el not in self:
+                    return False
+            return True
     def difference(self, *args):
         """Returns the difference of two or more sets as a new persistent set.
 
@@ -391,7 +394,10 @@ class TransientSet(MutableSet, Transient):
         if isinstance(other, (set, frozenset)):
             return other.issubset(self)
         else:
-            return all(map(self.__contains__, iter(other)))
+            for el in other:
+                if el not in self:
+                    return False
+            return True
     def difference_update(self, *args):
         """Remove all elements of another set from this set."""
         for arg in args:
-- 
2.43.0


From ed1e48b96450d83b7fc8f09158cb95c416885d4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:20 +0000
Subject: [PATCH 66/68] fix: a StopIteration from the repr of an item cut
 printed forms short

---
 pcollections/_dict.py      | 4 ++--
 pcollections/util/_core.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pcollections/_dict.py b/pcollections/_dict.py
index 6853eeb..42b1aa6 100644
--- a/pcollections/_dict.py
+++ b/pcollections/_dict.py
@@ -60,10 +60,10 @@ class pdict_keys(KeysView, PDictView):
     def __reversed__(self):
         return reversed(list(self.__iter__()))
     def __repr__(self):
-        s = ", ".join(map(repr, iter(self)))
+        s = ", ".join([repr(k) for k in self])
         return f"pdict_keys({{{s}}})"
     def __str__(self):
-        s = ", ".join(map(repr, iter(self)))
+        s = ", ".join([repr(k) for k in self])
         return f"pdict_keys({{{s}}})"
 class pdict_items(ItemsView, PDictView):
     __slots__ = ()
diff --git a/pcollections/util/_core.py b/pcollections/util/_core.py
index 3a5572c..fff03f8 100644
--- a/pcollections/util/_core.py
+++ b/pcollections/util/_core.py
@@ -94,7 +94,7 @@ def seqstr(seq, maxlen=None, sep=", ", tostr=repr):
         tostr = lambda kv: f"{orig_tostr(kv[0])}: {orig_tostr(kv[1])}"
         seq = seq.items()
     if maxlen is None:
-        return sep.join(map(tostr, seq))
+        return sep.join([tostr(el) for el in seq])
     elif not isinstance(maxlen, int) or maxlen < 3:
         raise TypeError(f"maxlen must be an integer >= 3 or None, not {maxlen}")
     seplen = len(sep)
-- 
2.43.0


From 0b5077e434e9c8a049e7916c5fb0f32bb170bded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:39 +0000
Subject: [PATCH 67/68] fix: read an argument with keys as a mapping, like dict
 does

---
 pcollections/_dict.py    |  5 ++---
 pcollections/abc/_map.py | 14 ++++++++++++--
 2 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/pcollections/_dict.py b/pcollections/_dict.py
index 42b1aa6..06aae2f 100644
--- a/pcollections/_dict.py
+++ b/pcollections/_dict.py
@@ -23,6 +23,7 @@ from .abc import (
     PersistentMapping,
     TransientMapping
 )
+from .abc._map import _itemsof
 
 
 #===============================================================================
@@ -428,9 +429,7 @@ class tdict(TransientMapping):
                            arg if cls is tdict else None)
         else:
             obj = cls._new(THAMT(PHAMT.empty), THAMT(PHAMT.empty), 0)
-            if isinstance(arg, Mapping):
-                arg = arg.items()
-            for (k,v) in arg:
+            for (k,v) in _itemsof(arg):
                 obj[k] = v
         # If keyword args were provided, merge them in.
         if kw:
diff --git a/pcollections/abc/_map.py b/pcollections/abc/_map.py
index fc1706a..33ce481 100644
--- a/pcollections/abc/_map.py
+++ b/pcollections/abc/_map.py
@@ -9,6 +9,16 @@ from collections.abc import (Mapping, MutableMapping)
 from ._core import (Persistent, Transient)
 from ..util import (seqstr)
 
+def _itemsof(arg):
+    # Like for dict, anything that has keys is read as a mapping, and anything
+    # else is read as an iterable of items.
+    if isinstance(arg, Mapping):
+        return arg.items()
+    elif hasattr(arg, 'keys'):
+        return ((k, arg[k]) for k in arg.keys())
+    else:
+        return arg
+
 
 #===============================================================================
 # PersistentMapping
@@ -181,7 +191,7 @@ class PersistentMapping(Mapping, Persistent):
         (self, *args) = args
         t = self.transient()
         for arg in args:
-            for (k,v) in (arg.items() if isinstance(arg, Mapping) else arg):
+            for (k,v) in _itemsof(arg):
                 t[k] = v
         for (k,v) in kw.items():
             t[k] = v
@@ -303,7 +313,7 @@ class TransientMapping(MutableMapping, Transient):
         # self isn't a named parameter: it may be one of the keywords.
         (self, *args) = args
         for arg in args:
-            for (k,v) in (arg.items() if isinstance(arg, Mapping) else arg):
+            for (k,v) in _itemsof(arg):
                 self[k] = v
         for (k,v) in kw.items():
             self[k] = v
-- 
2.43.0


From 802a63b8516f5d9ad457234f1243a32edd719b46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:39 +0000
Subject: [PATCH 68/68] fix: let a transient set remove all of itself

---
 pcollections/abc/_set.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pcollections/abc/_set.py b/pcollections/abc/_set.py
index 580a96d..0ca2676 100644
--- a/pcollections/abc/_set.py
+++ b/pcollections/abc/_set.py
@@ -561,7 +561,7 @@ class TransientSet(MutableSet, Transient):
 
         If any element is not found, then a `KeyError` is raised.
         """
-        for el in iterable:
+        for el in (list(self) if iterable is self else iterable):
             self.remove(el)
     def copy(self):
         """Returns a copy of the transient set."""
-- 
2.43.0

