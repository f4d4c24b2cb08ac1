From e875a82a05320171ddd2ec7d8b4818fec1af90fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:41:33 +0000
Subject: [PATCH 01/29] fix: PList slice with a negative start raised
 IndexError

---
 pyrsistent/_plist.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyrsistent/_plist.py b/pyrsistent/_plist.py
index 322e15d..b5b4a21 100644
--- a/pyrsistent/_plist.py
+++ b/pyrsistent/_plist.py
@@ -168,7 +168,11 @@ class _PListBase(object):
 
         if isinstance(index, slice):
             if index.start is not None and index.stop is None and (index.step is None or index.step == 1):
-                return self._drop(index.start)
+                start = index.start
+                if start < 0:
+                    start = max(start + len(self), 0)
+
+                return self._drop(start)
 
             # Take the easy way out for all other slicing cases, not much structural reuse possible anyway
             return plist(tuple(self)[index])
-- 
2.43.0


From 20ecf82369801da07e695b460b0ad70efe14ee79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:46:26 +0000
Subject: [PATCH 02/29] fix: PDeque slicing with out of range bounds or on an
 empty deque

---
 pyrsistent/_pdeque.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/pyrsistent/_pdeque.py b/pyrsistent/_pdeque.py
index 0f25936..1cfda17 100644
--- a/pyrsistent/_pdeque.py
+++ b/pyrsistent/_pdeque.py
@@ -323,13 +323,8 @@ class PDeque(Generic[T_co]):
                 # Too difficult, no structural sharing possible
                 return pdeque(tuple(self)[index], maxlen=self._maxlen)
 
-            result = self
-            if index.start is not None:
-                result = result.popleft(index.start % self._length)
-            if index.stop is not None:
-                result = result.pop(self._length - (index.stop % self._length))
-
-            return result
+            start, stop, _ = index.indices(self._length)
+            return self.popleft(start).pop(self._length - max(start, stop))
 
         if not isinstance(index, Integral):
             raise TypeError("'%s' object cannot be interpreted as an index" % type(index).__name__)
-- 
2.43.0


From aa170ce93aed94b89fa53c100c6d36228e9fa575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:46:26 +0000
Subject: [PATCH 03/29] fix: pdeque with maxlen=0 kept all its elements

---
 pyrsistent/_pdeque.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyrsistent/_pdeque.py b/pyrsistent/_pdeque.py
index 1cfda17..0ad5332 100644
--- a/pyrsistent/_pdeque.py
+++ b/pyrsistent/_pdeque.py
@@ -357,7 +357,7 @@ def pdeque(iterable=(), maxlen=None):
     """
     t = tuple(iterable)
     if maxlen is not None:
-        t = t[-maxlen:]
+        t = t[-maxlen:] if maxlen else ()
     length = len(t)
     pivot = int(length / 2)
     left = plist(t[:pivot])
-- 
2.43.0


From b9572cdbd8e4252a389a1604724ce9790388b2dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:46:26 +0000
Subject: [PATCH 04/29] fix: PDeque.remove and reverse dropped maxlen

---
 pyrsistent/_pdeque.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyrsistent/_pdeque.py b/pyrsistent/_pdeque.py
index 0ad5332..72ae0ea 100644
--- a/pyrsistent/_pdeque.py
+++ b/pyrsistent/_pdeque.py
@@ -272,13 +272,13 @@ class PDeque(Generic[T_co]):
         pdeque([1, 2])
         """
         try:
-            return PDeque(self._left_list.remove(elem), self._right_list, self._length - 1)
+            return PDeque(self._left_list.remove(elem), self._right_list, self._length - 1, self._maxlen)
         except ValueError:
             # Value not found in left list, try the right list
             try:
                 # This is severely inefficient with a double reverse, should perhaps implement a remove_last()?
                 return PDeque(self._left_list,
-                              self._right_list.reverse().remove(elem).reverse(), self._length - 1)
+                              self._right_list.reverse().remove(elem).reverse(), self._length - 1, self._maxlen)
             except ValueError as e:
                 raise ValueError('{0} not found in PDeque'.format(elem)) from e
 
@@ -294,7 +294,7 @@ class PDeque(Generic[T_co]):
         >>> reversed(pdeque([1, 2, 3]))
         pdeque([3, 2, 1])
         """
-        return PDeque(self._right_list, self._left_list, self._length)
+        return PDeque(self._right_list, self._left_list, self._length, self._maxlen)
     __reversed__ = reverse
 
     def rotate(self, steps):
-- 
2.43.0


From fb8da963c531be3dc2ecc8602f7a058ee8c1d375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:46:26 +0000
Subject: [PATCH 05/29] fix: PDeque.rotate by more steps than elements did not
 rotate

---
 pyrsistent/_pdeque.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyrsistent/_pdeque.py b/pyrsistent/_pdeque.py
index 72ae0ea..8440066 100644
--- a/pyrsistent/_pdeque.py
+++ b/pyrsistent/_pdeque.py
@@ -307,6 +307,9 @@ class PDeque(Generic[T_co]):
         >>> x.rotate(-2)
         pdeque([3, 1, 2])
         """
+        if abs(steps) > self._length > 0:
+            steps %= self._length
+
         popped_deque = self.pop(steps)
         if steps >= 0:
             return popped_deque.extendleft(islice(self.reverse(), steps))
-- 
2.43.0


From 81d2a9fd9f069d1eb25fc5dd8d0518f7ab8a7ec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:16:23 +0000
Subject: [PATCH 06/29] fix: a second persistent() on set and checked evolvers
 returned the original

---
 pyrsistent/_checked_types.py | 4 ++--
 pyrsistent/_pset.py          | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/pyrsistent/_checked_types.py b/pyrsistent/_checked_types.py
index 56146b5..0942f91 100644
--- a/pyrsistent/_checked_types.py
+++ b/pyrsistent/_checked_types.py
@@ -428,7 +428,7 @@ class CheckedPSet(PSet[T_co], CheckedType, metaclass=_CheckedTypeMeta):
                 raise InvariantException(error_codes=self._invariant_errors)
 
             if self.is_dirty() or self._destination_class != type(self._original_pset):
-                return self._destination_class(self._pmap_evolver.persistent())
+                self._original_pset = self._destination_class(self._pmap_evolver.persistent())
 
             return self._original_pset
 
@@ -542,6 +542,6 @@ class CheckedPMap(PMap[KT, VT_co], CheckedType, metaclass=_CheckedMapTypeMeta):
                 raise InvariantException(error_codes=self._invariant_errors)
 
             if self.is_dirty() or type(self._original_pmap) != self._destination_class:
-                return self._destination_class(self._buckets_evolver.persistent(), self._size)
+                self._original_pmap = self._destination_class(self._buckets_evolver.persistent(), self._size)
 
             return self._original_pmap
diff --git a/pyrsistent/_pset.py b/pyrsistent/_pset.py
index 6247607..2d67178 100644
--- a/pyrsistent/_pset.py
+++ b/pyrsistent/_pset.py
@@ -129,10 +129,10 @@ class PSet(Generic[T_co]):
             return self._pmap_evolver.is_dirty()
 
         def persistent(self):
-            if not self.is_dirty():
-                return  self._original_pset
+            if self.is_dirty():
+                self._original_pset = PSet(self._pmap_evolver.persistent())
 
-            return PSet(self._pmap_evolver.persistent())
+            return self._original_pset
 
         def __len__(self):
             return len(self._pmap_evolver)
-- 
2.43.0


From db5e5a3c9b5f8ca2c5dcc202b7810a717c30c397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:16:58 +0000
Subject: [PATCH 07/29] fix: equal psets had different hashes when one came
 from PMap.keys()

---
 pyrsistent/_pset.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyrsistent/_pset.py b/pyrsistent/_pset.py
index 2d67178..2830532 100644
--- a/pyrsistent/_pset.py
+++ b/pyrsistent/_pset.py
@@ -28,7 +28,7 @@ class PSet(Generic[T_co]):
     >>> s3
     pset([1, 3, 4])
     """
-    __slots__ = ('_map', '__weakref__')
+    __slots__ = ('_map', '__weakref__', '_cached_hash')
 
     def __new__(cls, m):
         self = super(PSet, cls).__new__(cls)
@@ -54,7 +54,9 @@ class PSet(Generic[T_co]):
         return self.__repr__()
 
     def __hash__(self):
-        return hash(self._map)
+        if not hasattr(self, '_cached_hash'):
+            self._cached_hash = hash(frozenset(self._map))
+        return self._cached_hash
 
     def __reduce__(self):
         # Pickling support
-- 
2.43.0


From 00407a314d77df6883c16e6bfbdbd7b94a066e85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:16:58 +0000
Subject: [PATCH 08/29] fix: updating the key set of a checked map or record
 applied their checks

---
 pyrsistent/_pmap.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyrsistent/_pmap.py b/pyrsistent/_pmap.py
index 0d82c43..a3e8ca0 100644
--- a/pyrsistent/_pmap.py
+++ b/pyrsistent/_pmap.py
@@ -228,7 +228,8 @@ class PMap(Generic[KT, VT_co]):
 
     def keys(self):
         from ._pset import PSet
-        return PSet(self)
+        # The set must not inherit the restrictions of a checked map or record
+        return PSet(self if type(self) is PMap else PMap(self._size, self._buckets))
 
     def items(self):
         return PMapItems(self)
-- 
2.43.0


From ccb5d013feb7adbf91bf8cdcab0ffe31c82f6b2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:09 +0000
Subject: [PATCH 09/29] fix: symmetric difference of a pset and a built-in set
 raised TypeError

---
 pyrsistent/_pset.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyrsistent/_pset.py b/pyrsistent/_pset.py
index 2830532..54acd1d 100644
--- a/pyrsistent/_pset.py
+++ b/pyrsistent/_pset.py
@@ -188,6 +188,10 @@ class PSet(Generic[T_co]):
     __or__ = Set.__or__
     __sub__ = Set.__sub__
     __xor__ = Set.__xor__
+    __rand__ = Set.__rand__
+    __ror__ = Set.__ror__
+    __rsub__ = Set.__rsub__
+    __rxor__ = Set.__rxor__
 
     issubset = __le__
     issuperset = __ge__
-- 
2.43.0


From a41a4fab00386a085af507d3ee5d7d5209473bc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:56 +0000
Subject: [PATCH 10/29] fix: C pvector hash differed from that of an equal
 checked vector

---
 pvectorcmodule.c | 28 +++++++++++++---------------
 1 file changed, 13 insertions(+), 15 deletions(-)

diff --git a/pvectorcmodule.c b/pvectorcmodule.c
index 9ed0ea1..35c88f7 100644
--- a/pvectorcmodule.c
+++ b/pvectorcmodule.c
@@ -273,26 +273,24 @@ static PyObject *PVector_repr(PVector *self) {
 
 
 static Py_hash_t PVector_hash(PVector *self) {
-  // Follows the pattern of the tuple hash
-  long x, y;
+  // The hash of the tuple with the same elements, like in the Python implementation,
+  // since vectors of the two kinds (eg. checked vectors) may be equal.
   Py_ssize_t i;
-  long mult = 1000003L;
-  x = 0x456789L;
-  for(i=0; i<self->count; i++) {
-      y = PyObject_Hash(_get_item(self, i));
-      if (y == -1) {
-        return -1;
-      }
-      x = (x ^ y) * mult;
-      mult += (long)(82520L + i + i);
+  Py_hash_t result;
+  PyObject *tuple = PyTuple_New(self->count);
+  if (tuple == NULL) {
+    return -1;
   }
 
-  x += 97531L;
-  if(x == -1) {
-    x = -2;
+  for (i = 0; i < self->count; i++) {
+    PyObject *o = _get_item(self, i);
+    Py_INCREF(o);
+    PyTuple_SET_ITEM(tuple, i, o);
   }
 
-  return x;
+  result = PyObject_Hash(tuple);
+  Py_DECREF(tuple);
+  return result;
 }
 
 static PyObject* compareSizes(long vlen, long wlen, int op) {
-- 
2.43.0


From 93dfebf7f6c87b1c549277c57dd540c1ecab0968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:56 +0000
Subject: [PATCH 11/29] fix: C pvector extend leaked the elements read so far
 when the iterator raised

---
 pvectorcmodule.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pvectorcmodule.c b/pvectorcmodule.c
index 35c88f7..8d96299 100644
--- a/pvectorcmodule.c
+++ b/pvectorcmodule.c
@@ -861,7 +861,11 @@ static PyObject* PVector_extend(PVector *self, PyObject *iterable) {
       }
 
       Py_DECREF(it);
-      HANDLE_ITERATION_ERROR()
+      if (PyErr_Occurred() && !PyErr_ExceptionMatches(PyExc_StopIteration)) {
+        Py_DECREF(newVec);
+        return NULL;
+      }
+      PyErr_Clear();
       return (PyObject*)newVec;
     }
 }
-- 
2.43.0


From 3848ea6a860f5154f643f980317f7de49664fee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:56 +0000
Subject: [PATCH 12/29] fix: C evolver exposed a released element while
 replacing it

---
 pvectorcmodule.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pvectorcmodule.c b/pvectorcmodule.c
index 8d96299..8e8d09b 100644
--- a/pvectorcmodule.c
+++ b/pvectorcmodule.c
@@ -1364,9 +1364,11 @@ static VNode* doSetWithDirty(VNode* node, unsigned int level, unsigned int posit
       SET_DIRTY(resultNode);
     } else {
       resultNode = node;
+      // The old value may run arbitrary code when released, store the new one first
+      PyObject *oldValue = resultNode->items[position & BIT_MASK];
       Py_INCREF(value);
-      Py_DECREF(resultNode->items[position & BIT_MASK]);
       resultNode->items[position & BIT_MASK] = value;
+      Py_DECREF(oldValue);
     }
   } else {
     if(!IS_DIRTY(node)) {
-- 
2.43.0


From 7403bce099065317d31e638a699e5d0c377abd8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:56 +0000
Subject: [PATCH 13/29] fix: C pvector remove turned every exception of a
 comparison into ValueError

---
 pvectorcmodule.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pvectorcmodule.c b/pvectorcmodule.c
index 8e8d09b..73fe6d4 100644
--- a/pvectorcmodule.c
+++ b/pvectorcmodule.c
@@ -1074,7 +1074,9 @@ static PyObject* PVector_remove(PVector *self, PyObject *args) {
     return internalDelete(self, index, NULL);
   }
 
-  PyErr_SetString(PyExc_ValueError, "PVector.remove(x): x not in vector");
+  if(PyErr_ExceptionMatches(PyExc_ValueError)) {
+    PyErr_SetString(PyExc_ValueError, "PVector.remove(x): x not in vector");
+  }
   return NULL;
 }
 
-- 
2.43.0


From 5e6d68a1aec8cfc5e4aca519abfecb0117b2a6f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:56 +0000
Subject: [PATCH 14/29] fix: C pvector delete did not accept None as stop

---
 pvectorcmodule.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvectorcmodule.c b/pvectorcmodule.c
index 73fe6d4..e793bb6 100644
--- a/pvectorcmodule.c
+++ b/pvectorcmodule.c
@@ -1020,7 +1020,7 @@ static PyObject* internalDelete(PVector *self, Py_ssize_t index, PyObject *stop_
     index += self->count;
   }
 
-  if (stop_obj != NULL) {
+  if (stop_obj != NULL && stop_obj != Py_None) {
     if (PyIndex_Check(stop_obj)) {
       stop = PyNumber_AsSsize_t(stop_obj, PyExc_IndexError);
       if (stop == -1 && PyErr_Occurred()) {
-- 
2.43.0


From d87490eb825720cb9470385bd2d83459f8295918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:56 +0000
Subject: [PATCH 15/29] fix: C evolver was not dirty after delete

---
 pvectorcmodule.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvectorcmodule.c b/pvectorcmodule.c
index e793bb6..85ca78c 100644
--- a/pvectorcmodule.c
+++ b/pvectorcmodule.c
@@ -1444,7 +1444,7 @@ static int internalPVectorDelete(PVectorEvolver *self, Py_ssize_t position) {
 
   Py_DECREF(self->originalVector);
   self->originalVector = temp2;
-  self->newVector = self->originalVector;
+  self->newVector = rawCopyPVector(temp2);  // The evolver is dirty
   return 0;
 }
 
-- 
2.43.0


From 2a9709463b0f406df53f50da820ebfc43127b178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:56 +0000
Subject: [PATCH 16/29] fix: Python evolver was dirty after a failed delete and
 not after deleting everything

---
 pyrsistent/_pvector.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyrsistent/_pvector.py b/pyrsistent/_pvector.py
index 51d8a22..e17af2f 100644
--- a/pyrsistent/_pvector.py
+++ b/pyrsistent/_pvector.py
@@ -244,10 +244,13 @@ class PythonPVector(object):
                 # All structural sharing bets are off, base evolver on _extra_tail only
                 l = PythonPVector(self._count, self._shift, self._root, self._tail).tolist()
                 l.extend(self._extra_tail)
+                del l[key]
                 self._reset(_EMPTY_PVECTOR)
                 self._extra_tail = l
+            else:
+                del self._extra_tail[key]
 
-            del self._extra_tail[key]
+            self._dirty_nodes[id(self._extra_tail)] = True
 
         def persistent(self):
             result = self._orig_pvector
-- 
2.43.0


From c81156bd5fe4605d212da59fc0a52691938cde05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:56 +0000
Subject: [PATCH 17/29] fix: C pvector reported shared elements to the garbage
 collector several times

---
 pvectorcmodule.c | 35 +++++++++++++++++++++++++++++------
 1 file changed, 29 insertions(+), 6 deletions(-)

diff --git a/pvectorcmodule.c b/pvectorcmodule.c
index 85ca78c..42fbb03 100644
--- a/pvectorcmodule.c
+++ b/pvectorcmodule.c
@@ -423,16 +423,38 @@ static PyObject* PVector_repeat(PVector *self, Py_ssize_t n) {
   }
 }
 
-static int PVector_traverse(PVector *o, visitproc visit, void *arg) {
-    // Naive traverse
-    Py_ssize_t i;
-    for (i = o->count; --i >= 0; ) {
-      Py_VISIT(_get_item(o, i));
+static int traverseNode(VNode *node, int level, visitproc visit, void *arg) {
+    // A shared node holds one reference to each of its elements on behalf of several
+    // vectors. It must not be reported once per vector, then the garbage collector would
+    // clear objects that are still in use.
+    int i;
+    if(node == NULL || NODE_REF_COUNT(node) != 1) {
+      return 0;
+    }
+
+    for (i = 0; i < BRANCH_FACTOR; i++) {
+      if(level > 0) {
+        int result = traverseNode(node->items[i], level - SHIFT, visit, arg);
+        if(result) {
+          return result;
+        }
+      } else {
+        Py_VISIT(node->items[i]);
+      }
     }
 
     return 0;
 }
 
+static int PVector_traverse(PVector *o, visitproc visit, void *arg) {
+    int result = traverseNode(o->tail, 0, visit, arg);
+    if(result) {
+      return result;
+    }
+
+    return traverseNode(o->root, o->shift, visit, arg);
+}
+
 
 static PyObject* PVector_index(PVector *self, PyObject *args) {
   // A direct rip-off of the tuple version
@@ -512,7 +534,7 @@ static PVector* rawCopyPVector(PVector* vector) {
   newVector->root = vector->root;
   newVector->tail = vector->tail;
   newVector->in_weakreflist = NULL;
-  PyObject_GC_Track((PyObject*)newVector);
+  // Not tracked by the garbage collector since it does not own its nodes until cleaned
   return newVector;
 }
 
@@ -1503,6 +1525,7 @@ static PyObject *PVectorEvolver_persistent(PVectorEvolver *self) {
   PVector *resultVector;
   if(self->newVector != self->originalVector) {
     cleanVector(self->newVector);
+    PyObject_GC_Track((PyObject*)self->newVector);
     Py_DECREF(self->originalVector);
   }
 
-- 
2.43.0


From e1f735b2083420e4c6a06041fe1e989d289ba114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:30 +0000
Subject: [PATCH 18/29] fix: ignore_extra was not passed on through checked
 maps and optional map fields

---
 pyrsistent/_checked_types.py | 4 ++--
 pyrsistent/_field_common.py  | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyrsistent/_checked_types.py b/pyrsistent/_checked_types.py
index 0942f91..455b64b 100644
--- a/pyrsistent/_checked_types.py
+++ b/pyrsistent/_checked_types.py
@@ -510,8 +510,8 @@ class CheckedPMap(PMap[KT, VT_co], CheckedType, metaclass=_CheckedMapTypeMeta):
         checked_value_type = next((t for t in value_types if issubclass(t, CheckedType)), None)
 
         if checked_key_type or checked_value_type:
-            return cls(dict((checked_key_type.create(key) if checked_key_type and not any(isinstance(key, t) for t in key_types) else key,
-                             checked_value_type.create(value) if checked_value_type and not any(isinstance(value, t) for t in value_types) else value)
+            return cls(dict((checked_key_type.create(key, ignore_extra=ignore_extra) if checked_key_type and not any(isinstance(key, t) for t in key_types) else key,
+                             checked_value_type.create(value, ignore_extra=ignore_extra) if checked_value_type and not any(isinstance(value, t) for t in value_types) else value)
                             for key, value in source_data.items()))
 
         return cls(source_data)
diff --git a/pyrsistent/_field_common.py b/pyrsistent/_field_common.py
index 508dd2f..5a7b7a7 100644
--- a/pyrsistent/_field_common.py
+++ b/pyrsistent/_field_common.py
@@ -319,11 +319,11 @@ def pmap_field(key_type, value_type, optional=False, invariant=PFIELD_NO_INVARIA
     TheMap = _make_pmap_field_type(key_type, value_type)
 
     if optional:
-        def factory(argument):
+        def factory(argument, _factory_fields=None, ignore_extra=False):
             if argument is None:
                 return None
             else:
-                return TheMap.create(argument)
+                return TheMap.create(argument, _factory_fields=_factory_fields, ignore_extra=ignore_extra)
     else:
         factory = TheMap.create
 
-- 
2.43.0


From b0a8245477434e5a8bfcdd6f60acc798afc55ae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:30 +0000
Subject: [PATCH 19/29] fix: checked collections did not pass the format on to
 nested serialize calls

---
 pyrsistent/_checked_types.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pyrsistent/_checked_types.py b/pyrsistent/_checked_types.py
index 455b64b..05aec8e 100644
--- a/pyrsistent/_checked_types.py
+++ b/pyrsistent/_checked_types.py
@@ -172,9 +172,9 @@ class _CheckedTypeMeta(ABCMeta):
         _store_types(dct, bases, '_checked_types', '__type__')
         store_invariants(dct, bases, '_checked_invariants', '__invariant__')
 
-        def default_serializer(self, _, value):
+        def default_serializer(self, format, value):
             if isinstance(value, CheckedType):
-                return value.serialize()
+                return value.serialize(format)
             return value
 
         dct.setdefault('__serializer__', default_serializer)
@@ -439,14 +439,14 @@ class _CheckedMapTypeMeta(type):
         _store_types(dct, bases, '_checked_value_types', '__value_type__')
         store_invariants(dct, bases, '_checked_invariants', '__invariant__')
 
-        def default_serializer(self, _, key, value):
+        def default_serializer(self, format, key, value):
             sk = key
             if isinstance(key, CheckedType):
-                sk = key.serialize()
+                sk = key.serialize(format)
 
             sv = value
             if isinstance(value, CheckedType):
-                sv = value.serialize()
+                sv = value.serialize(format)
 
             return sk, sv
 
-- 
2.43.0


From 5467c00de17aa1907f43759db294b0ffd58822a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:30 +0000
Subject: [PATCH 20/29] fix: subclasses of checked collections lost the
 inherited serializer

---
 pyrsistent/_checked_types.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyrsistent/_checked_types.py b/pyrsistent/_checked_types.py
index 05aec8e..a1f7dcf 100644
--- a/pyrsistent/_checked_types.py
+++ b/pyrsistent/_checked_types.py
@@ -177,7 +177,8 @@ class _CheckedTypeMeta(ABCMeta):
                 return value.serialize(format)
             return value
 
-        dct.setdefault('__serializer__', default_serializer)
+        if not any(hasattr(b, '__serializer__') for b in bases):
+            dct.setdefault('__serializer__', default_serializer)
 
         dct['__slots__'] = ()
 
@@ -450,7 +451,8 @@ class _CheckedMapTypeMeta(type):
 
             return sk, sv
 
-        dct.setdefault('__serializer__', default_serializer)
+        if not any(hasattr(b, '__serializer__') for b in bases):
+            dct.setdefault('__serializer__', default_serializer)
 
         dct['__slots__'] = ()
 
-- 
2.43.0


From 808d4b37469cdca34e93018ed132737b573a0770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:30 +0000
Subject: [PATCH 21/29] fix: checked collections ignored types declared further
 up than their direct base

---
 pyrsistent/_checked_types.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyrsistent/_checked_types.py b/pyrsistent/_checked_types.py
index a1f7dcf..1bbb876 100644
--- a/pyrsistent/_checked_types.py
+++ b/pyrsistent/_checked_types.py
@@ -106,7 +106,7 @@ def maybe_parse_many_user_types(ts):
 def _store_types(dct, bases, destination_name, source_name):
     maybe_types = maybe_parse_many_user_types([
         d[source_name]
-        for d in ([dct] + [b.__dict__ for b in bases]) if source_name in d
+        for d in ([dct] + list(_all_dicts(bases))) if source_name in d
     ])
 
     dct[destination_name] = maybe_types
-- 
2.43.0


From 13eb69b8c2c2ca926f027b899687f275d7105c62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:04:28 +0000
Subject: [PATCH 22/29] fix: map evolver lost its changes when hashing a key
 failed while growing

---
 pyrsistent/_pmap.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyrsistent/_pmap.py b/pyrsistent/_pmap.py
index a3e8ca0..433f54b 100644
--- a/pyrsistent/_pmap.py
+++ b/pyrsistent/_pmap.py
@@ -443,7 +443,9 @@ class PMap(Generic[KT, VT_co]):
         def _reallocate(self):
             new_size = 2 * len(self._buckets_evolver)
             new_list = new_size * [None]
-            buckets = self._buckets_evolver.persistent()
+            # Don't ask the evolver for its persistent form here, it would then no longer be
+            # considered dirty should computing any of the hashes below fail.
+            buckets = [self._buckets_evolver[i] for i in range(len(self._buckets_evolver))]
             for k, v in chain.from_iterable(x for x in buckets if x):
                 index = hash(k) % new_size
                 if new_list[index]:
-- 
2.43.0


From 06c4a104880919276d2b98165f2e5cf789a1c924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:28:13 +0000
Subject: [PATCH 23/29] fix: C evolver extend dropped the elements read so far
 when the iterator raised

---
 pvectorcmodule.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pvectorcmodule.c b/pvectorcmodule.c
index 42fbb03..3581c05 100644
--- a/pvectorcmodule.c
+++ b/pvectorcmodule.c
@@ -1339,10 +1339,16 @@ static PyObject *PVectorEvolver_append(PVectorEvolver *self, PyObject *args) {
 }
 
 static PyObject *PVectorEvolver_extend(PVectorEvolver *self, PyObject *args) {
-  if (PyList_SetSlice(self->appendList, PY_SSIZE_T_MAX, PY_SSIZE_T_MAX, args) < 0) {
+  // The iterable may run arbitrary code, including a call of persistent() that replaces the list
+  PyObject *list = self->appendList;
+  Py_INCREF(list);
+  PyObject *result = PyObject_CallMethod(list, "extend", "(O)", args);
+  Py_DECREF(list);
+  if (result == NULL) {
     return NULL;
   }
 
+  Py_DECREF(result);
   Py_INCREF(self);
   return (PyObject*)self;
 }
-- 
2.43.0


From c1a85f20b603608d980e7672d935072e902917f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:07:02 +0000
Subject: [PATCH 24/29] fix: Python pvector treated index objects and floats
 differently than the C pvector and lists

---
 pyrsistent/_pvector.py | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/pyrsistent/_pvector.py b/pyrsistent/_pvector.py
index e17af2f..8bef963 100644
--- a/pyrsistent/_pvector.py
+++ b/pyrsistent/_pvector.py
@@ -1,6 +1,5 @@
 from abc import abstractmethod, ABCMeta
 from collections.abc import Sequence, Hashable
-from numbers import Integral
 import operator
 from typing import TypeVar, Generic
 
@@ -59,6 +58,7 @@ class PythonPVector(object):
             # slicing it but it is the fastest way I've found to date, and it's easy :-)
             return _EMPTY_PVECTOR.extend(self.tolist()[index])
 
+        index = operator.index(index)
         if index < 0:
             index += self._count
 
@@ -97,6 +97,7 @@ class PythonPVector(object):
         return compare_pvector(self, other, operator.le)
 
     def __mul__(self, times):
+        times = operator.index(times)
         if times <= 0 or self is _EMPTY_PVECTOR:
             return _EMPTY_PVECTOR
 
@@ -159,9 +160,7 @@ class PythonPVector(object):
             self._reset(v)
 
         def __getitem__(self, index):
-            if not isinstance(index, Integral):
-                raise TypeError("'%s' object cannot be interpreted as an index" % type(index).__name__)
-
+            index = operator.index(index)
             if index < 0:
                 index += self._count + len(self._extra_tail)
 
@@ -194,9 +193,7 @@ class PythonPVector(object):
             return self
 
         def __setitem__(self, index, val):
-            if not isinstance(index, Integral):
-                raise TypeError("'%s' object cannot be interpreted as an index" % type(index).__name__)
-
+            index = operator.index(index)
             if index < 0:
                 index += self._count + len(self._extra_tail)
 
@@ -274,9 +271,7 @@ class PythonPVector(object):
         # a ~5 X performance penalty on PyPy (considered the primary platform for this implementation
         #  of PVector) so we're keeping this implementation for now.
 
-        if not isinstance(i, Integral):
-            raise TypeError("'%s' object cannot be interpreted as an index" % type(i).__name__)
-
+        i = operator.index(i)
         if i < 0:
             i += self._count
 
-- 
2.43.0


From 7191370477869b0d1c2356d06fdb7ed178296630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:07:02 +0000
Subject: [PATCH 25/29] fix: C pvector index accepted None as start and stop

---
 pvectorcmodule.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pvectorcmodule.c b/pvectorcmodule.c
index 3581c05..558bafa 100644
--- a/pvectorcmodule.c
+++ b/pvectorcmodule.c
@@ -462,8 +462,8 @@ static PyObject* PVector_index(PVector *self, PyObject *args) {
   PyObject *value;
   
   if (!PyArg_ParseTuple(args, "O|O&O&:index", &value,
-			_PyEval_SliceIndex, &start,
-			_PyEval_SliceIndex, &stop)) {
+			_PyEval_SliceIndexNotNone, &start,
+			_PyEval_SliceIndexNotNone, &stop)) {
     return NULL;
   }
   
-- 
2.43.0


From 06692174430ef8734285e54885c242371f5e5274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:42 +0000
Subject: [PATCH 26/29] fix: PClass instance equal to a subclass instance with
 further fields but a different hash

Base(a=1) == Sub(a=1, b=2) was true, although the hashes differ and
two such subclass instances need not be equal to each other.
---
 pyrsistent/_pclass.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyrsistent/_pclass.py b/pyrsistent/_pclass.py
index fd31a95..31f5fb7 100644
--- a/pyrsistent/_pclass.py
+++ b/pyrsistent/_pclass.py
@@ -152,6 +152,10 @@ class PClass(CheckedType, metaclass=PClassMeta):
 
     def __eq__(self, other):
         if isinstance(other, self.__class__):
+            if self._pclass_fields.keys() != other._pclass_fields.keys():
+                # A subclass with more fields is not equal, nor would the hashes be
+                return False
+
             for name in self._pclass_fields:
                 if getattr(self, name, _MISSING_VALUE) != getattr(other, name, _MISSING_VALUE):
                     return False
-- 
2.43.0


From 8e8d7f84d53c9f51c003d63d700ae768d5f44282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:06:40 +0000
Subject: [PATCH 27/29] fix: a record evolver's failed persistent() remembered
 the missing fields

Once persistent() had failed because of a missing mandatory field it kept
failing, reporting the field again each time, after the field was set.
---
 pyrsistent/_precord.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pyrsistent/_precord.py b/pyrsistent/_precord.py
index dda1eba..213af2a 100644
--- a/pyrsistent/_precord.py
+++ b/pyrsistent/_precord.py
@@ -148,12 +148,13 @@ class _PRecordEvolver(PMap._Evolver):
         else:
             result = pm
 
+        missing_fields = tuple(self._missing_fields)
         if cls._precord_mandatory_fields:
-            self._missing_fields += tuple('{0}.{1}'.format(cls.__name__, f) for f
-                                          in (cls._precord_mandatory_fields - set(result.keys())))
+            missing_fields += tuple('{0}.{1}'.format(cls.__name__, f) for f
+                                    in (cls._precord_mandatory_fields - set(result.keys())))
 
-        if self._invariant_error_codes or self._missing_fields:
-            raise InvariantException(tuple(self._invariant_error_codes), tuple(self._missing_fields),
+        if self._invariant_error_codes or missing_fields:
+            raise InvariantException(tuple(self._invariant_error_codes), missing_fields,
                                      'Field invariant failed')
 
         check_global_invariants(result, cls._precord_invariants)
-- 
2.43.0


From d1e2741ef0d4eed86a28d4780b104aff57f73490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:07:53 +0000
Subject: [PATCH 28/29] fix: comparing a Python pvector with a class that has
 __len__ raised TypeError

---
 pyrsistent/_pvector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyrsistent/_pvector.py b/pyrsistent/_pvector.py
index 8bef963..d5323cd 100644
--- a/pyrsistent/_pvector.py
+++ b/pyrsistent/_pvector.py
@@ -82,7 +82,7 @@ class PythonPVector(object):
         return not self.__eq__(other)
 
     def __eq__(self, other):
-        return self is other or (hasattr(other, '__len__') and self._count == len(other)) and compare_pvector(self, other, operator.eq)
+        return self is other or (hasattr(type(other), '__len__') and self._count == len(other)) and compare_pvector(self, other, operator.eq)
 
     def __gt__(self, other):
         return compare_pvector(self, other, operator.gt)
-- 
2.43.0


From d1a9bd9cb694d60d8df900482864fe92ff5ccdbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:40 +0000
Subject: [PATCH 29/29] fix: C evolver released values before the change was
 complete

A destructor that used the evolver meanwhile could crash the process or
lose its changes: set, delete and persistent now release last.
---
 pvectorcmodule.c | 33 +++++++++++++++++++--------------
 1 file changed, 19 insertions(+), 14 deletions(-)

diff --git a/pvectorcmodule.c b/pvectorcmodule.c
index 558bafa..30025ab 100644
--- a/pvectorcmodule.c
+++ b/pvectorcmodule.c
@@ -1382,7 +1382,11 @@ static PyObject *PVectorEvolver_subscript(PVectorEvolver *self, PyObject *item)
   return NULL;
 }
 
-static VNode* doSetWithDirty(VNode* node, unsigned int level, unsigned int position, PyObject* value) {
+/*
+ A value that was replaced is handed over in replaced. Releasing it may run arbitrary code, also
+ such that uses the evolver, so this must wait until the vector is complete again.
+*/
+static VNode* doSetWithDirty(VNode* node, unsigned int level, unsigned int position, PyObject* value, PyObject** replaced) {
   VNode* resultNode;
   debug("doSetWithDirty(): level == %i\n", level);
   if(level == 0) {
@@ -1394,11 +1398,9 @@ static VNode* doSetWithDirty(VNode* node, unsigned int level, unsigned int posit
       SET_DIRTY(resultNode);
     } else {
       resultNode = node;
-      // The old value may run arbitrary code when released, store the new one first
-      PyObject *oldValue = resultNode->items[position & BIT_MASK];
+      *replaced = resultNode->items[position & BIT_MASK];
       Py_INCREF(value);
       resultNode->items[position & BIT_MASK] = value;
-      Py_DECREF(oldValue);
     }
   } else {
     if(!IS_DIRTY(node)) {
@@ -1410,7 +1412,7 @@ static VNode* doSetWithDirty(VNode* node, unsigned int level, unsigned int posit
 
     Py_ssize_t index = (position >> level) & BIT_MASK;
     VNode* oldNode = (VNode*)resultNode->items[index];
-    resultNode->items[index] = doSetWithDirty(resultNode->items[index], level - SHIFT, position, value);
+    resultNode->items[index] = doSetWithDirty(resultNode->items[index], level - SHIFT, position, value, replaced);
 
     if(resultNode->items[index] != oldNode) {
       // Node replaced, drop references to old node
@@ -1470,9 +1472,10 @@ static int internalPVectorDelete(PVectorEvolver *self, Py_ssize_t position) {
     return -1;
   }
 
-  Py_DECREF(self->originalVector);
+  temp = self->originalVector;
   self->originalVector = temp2;
   self->newVector = rawCopyPVector(temp2);  // The evolver is dirty
+  Py_DECREF(temp);
   return 0;
 }
 
@@ -1494,23 +1497,22 @@ static int PVectorEvolver_set_item(PVectorEvolver *self, PyObject* item, PyObjec
       }
 
       if(value != NULL) {
+        PyObject *replaced = NULL;
         if(position < TAIL_OFF(self->newVector)) {
-          self->newVector->root = doSetWithDirty(self->newVector->root, self->newVector->shift, position, value);
+          self->newVector->root = doSetWithDirty(self->newVector->root, self->newVector->shift, position, value, &replaced);
         } else {
-          self->newVector->tail = doSetWithDirty(self->newVector->tail, 0, position, value);
+          self->newVector->tail = doSetWithDirty(self->newVector->tail, 0, position, value, &replaced);
         }
 
+        Py_XDECREF(replaced);
         return 0;
       }
 
       return internalPVectorDelete(self, position);
     } else if((0 <= position) && (position < (self->newVector->count + PyList_GET_SIZE(self->appendList)))) {
       if (value != NULL) {
-        int result = PyList_SetItem(self->appendList, position - self->newVector->count, value); 
-        if(result == 0) {
-          Py_INCREF(value);
-        }
-        return result;
+        Py_INCREF(value);
+        return PyList_SetItem(self->appendList, position - self->newVector->count, value);
       }
 
       return internalPVectorDelete(self, position);
@@ -1529,10 +1531,12 @@ static int PVectorEvolver_set_item(PVectorEvolver *self, PyObject* item, PyObjec
 
 static PyObject *PVectorEvolver_persistent(PVectorEvolver *self) {
   PVector *resultVector;
+  PVector *released = NULL;
   if(self->newVector != self->originalVector) {
     cleanVector(self->newVector);
     PyObject_GC_Track((PyObject*)self->newVector);
-    Py_DECREF(self->originalVector);
+    released = self->originalVector;
+    self->originalVector = self->newVector;
   }
 
   resultVector = self->newVector;
@@ -1547,6 +1551,7 @@ static PyObject *PVectorEvolver_persistent(PVectorEvolver *self) {
 
   initializeEvolver(self, resultVector, self->appendList);
   Py_INCREF(resultVector);  
+  Py_XDECREF(released);
   return (PyObject*)resultVector;
 }
 
-- 
2.43.0

