From 25747fa05f37b90d83898749aff15a04c049802c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:54 +0000
Subject: [PATCH 01/85] fix: array queue kept stale front/rear positions

The positions were tracked by hand and went wrong when the underlying
dynamic array contracted, when the last item left, and after appendleft on
a queue whose front had moved: items were lost or returned as None, and
str() of an empty queue raised.
---
 .../miscellaneous_data_structures/queue.py    | 44 +++++++------------
 1 file changed, 17 insertions(+), 27 deletions(-)

diff --git a/pydatastructs/miscellaneous_data_structures/queue.py b/pydatastructs/miscellaneous_data_structures/queue.py
index 033ef9a..28c3b4c 100644
--- a/pydatastructs/miscellaneous_data_structures/queue.py
+++ b/pydatastructs/miscellaneous_data_structures/queue.py
@@ -111,7 +111,7 @@ class ArrayQueue(Queue):
                 **kwargs):
         raise_if_backend_is_not_python(
             cls, kwargs.get('backend', Backend.PYTHON))
-        if items is None:
+        if items is None or len(items) == 0:
             items = DynamicOneDimensionalArray(dtype, 0)
         else:
             dtype = type(items[0])
@@ -133,12 +133,20 @@ class ArrayQueue(Queue):
                 'pop', 'is_empty', '__len__', '__str__', 'front',
                 'rear']
 
+    def _update_ends(self):
+        # The items are contiguous and end at the last filled position,
+        # wherever the underlying array has moved them.
+        if self.items._num == 0:
+            self._front = self._rear = -1
+        else:
+            self._rear = self.items._last_pos_filled
+            self._front = self._rear - self.items._num + 1
+
     def append(self, x):
         if self.is_empty:
-            self._front = 0
             self.items._dtype = type(x)
         self.items.append(x)
-        self._rear += 1
+        self._update_ends()
 
     def appendleft(self, x):
         self._double_ended_check()
@@ -151,23 +159,14 @@ class ArrayQueue(Queue):
         for i in range(self._front, self._rear + 1):
             temp.append(self.items._data[i])
         self.items = DynamicOneDimensionalArray(type(temp[0]), temp)
-        self._rear += 1
+        self._update_ends()
 
     def popleft(self):
         if self.is_empty:
             raise IndexError("Queue is empty.")
         return_value = dc(self.items[self._front])
-        front_temp = self._front
-        if self._front == self._rear:
-            self._front = -1
-            self._rear = -1
-        else:
-            if (self.items._num - 1)/self.items._size < \
-                self.items._load_factor:
-                self._front = 0
-            else:
-                self._front += 1
-        self.items.delete(front_temp)
+        self.items.delete(self._front)
+        self._update_ends()
         return return_value
 
     def pop(self):
@@ -176,17 +175,8 @@ class ArrayQueue(Queue):
             raise IndexError("Queue is empty.")
 
         return_value = dc(self.items[self._rear])
-        rear_temp = self._rear
-        if self._front == self._rear:
-            self._front = -1
-            self._rear = -1
-        else:
-            if (self.items._num - 1)/self.items._size < \
-                self.items._load_factor:
-                self._front = 0
-            else:
-                self._rear -= 1
-        self.items.delete(rear_temp)
+        self.items.delete(self._rear)
+        self._update_ends()
         return return_value
 
     @property
@@ -206,7 +196,7 @@ class ArrayQueue(Queue):
 
     def __str__(self):
         _data = []
-        for i in range(self._front, self._rear + 1):
+        for i in range(self._front, self._front + len(self)):
             _data.append(self.items._data[i])
         return str(_data)
 
-- 
2.43.0


From 0af702fbf7b16b1240319a2c8beb1de9cf5fb0f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:54 +0000
Subject: [PATCH 02/85] fix: str() of an emptied C++ dynamic array or stack
 listed phantom items

---
 pydatastructs/utils/_backend/cpp/utils.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pydatastructs/utils/_backend/cpp/utils.hpp b/pydatastructs/utils/_backend/cpp/utils.hpp
index 511c224..e135a64 100644
--- a/pydatastructs/utils/_backend/cpp/utils.hpp
+++ b/pydatastructs/utils/_backend/cpp/utils.hpp
@@ -48,9 +48,9 @@ static char* PyObject_AsString(PyObject* obj) {
     return PyBytes_AS_STRING(PyUnicode_AsEncodedString(obj, _encoding, _invalid_char));
 }
 
-static PyObject* __str__(PyObject** array, size_t size, long last_pos_filled=-1) {
+static PyObject* __str__(PyObject** array, size_t size, long last_pos_filled=-2) {
     std::string array___str__ = "[";
-    size_t end = last_pos_filled == -1 ? size : (size_t) (last_pos_filled + 1);
+    size_t end = last_pos_filled == -2 ? size : (size_t) (last_pos_filled + 1);
     for( size_t i = 0; i < end; i++ ) {
         if ( array[i] == Py_None ) {
             array___str__.append("''");
-- 
2.43.0


From 405c2e59b88b838fd9b30ce34c9defcbf58a95ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:02 +0000
Subject: [PATCH 03/85] fix: C++ array initialised with init= did not own its
 references

---
 .../_backend/cpp/arrays/OneDimensionalArray.hpp                  | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pydatastructs/linear_data_structures/_backend/cpp/arrays/OneDimensionalArray.hpp b/pydatastructs/linear_data_structures/_backend/cpp/arrays/OneDimensionalArray.hpp
index 92f885a..45e3c6c 100644
--- a/pydatastructs/linear_data_structures/_backend/cpp/arrays/OneDimensionalArray.hpp
+++ b/pydatastructs/linear_data_structures/_backend/cpp/arrays/OneDimensionalArray.hpp
@@ -182,6 +182,7 @@ static PyObject* OneDimensionalArray___new__(PyTypeObject* type, PyObject *args,
             }
 
             for (size_t i = 0; i < self->_size; i++) {
+                Py_INCREF(init);
                 self->_data[i] = init;
             }
 
-- 
2.43.0


From d5cf529986299a4a267ee5427df1d4af7626df8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:02 +0000
Subject: [PATCH 04/85] fix: arrays rejected documented size/tuple arguments
 and rewrote the caller's list

---
 .../linear_data_structures/arrays.py          | 23 ++++++++-----------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/pydatastructs/linear_data_structures/arrays.py b/pydatastructs/linear_data_structures/arrays.py
index 2e0c3fd..7cfad9b 100644
--- a/pydatastructs/linear_data_structures/arrays.py
+++ b/pydatastructs/linear_data_structures/arrays.py
@@ -88,17 +88,11 @@ class OneDimensionalArray(Array):
         obj = Array.__new__(cls)
         obj._dtype = dtype
         if len(args) == 2:
-            if _check_type(args[0], list) and \
+            if _check_type(args[0], (list, tuple)) and \
                 _check_type(args[1], int):
-                for i in range(len(args[0])):
-                    if _check_type(args[0][i], dtype) is False:
-                        args[0][i] = dtype(args[0][i])
                 size, data = args[1], list(args[0])
-            elif _check_type(args[1], list) and \
+            elif _check_type(args[1], (list, tuple)) and \
                 _check_type(args[0], int):
-                for i in range(len(args[1])):
-                    if _check_type(args[1][i], dtype) is False:
-                        args[1][i] = dtype(args[1][i])
                 size, data = args[0], list(args[1])
             else:
                 raise TypeError("Expected type of size is int and "
@@ -106,6 +100,9 @@ class OneDimensionalArray(Array):
             if size != len(data):
                 raise ValueError("Conflict in the size, %s and length of data, %s"
                                  %(size, len(data)))
+            for i in range(size):
+                if _check_type(data[i], dtype) is False:
+                    data[i] = dtype(data[i])
             obj._size, obj._data = size, data
 
         elif len(args) == 1:
@@ -114,11 +111,11 @@ class OneDimensionalArray(Array):
                 init = kwargs.get('init', None)
                 obj._data = [init for i in range(args[0])]
             elif _check_type(args[0], (list, tuple)):
-                for i in range(len(args[0])):
-                    if _check_type(args[0][i], dtype) is False:
-                        args[0][i] = dtype(args[0][i])
-                obj._size, obj._data = len(args[0]), \
-                                        list(args[0])
+                data = list(args[0])
+                for i in range(len(data)):
+                    if _check_type(data[i], dtype) is False:
+                        data[i] = dtype(data[i])
+                obj._size, obj._data = len(data), data
             else:
                 raise TypeError("Expected type of size is int and "
                                 "expected type of data is list/tuple.")
-- 
2.43.0


From ca884a1015d9359193844780f3571c0c66b760f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:02 +0000
Subject: [PATCH 05/85] fix: multi-dimensional arrays accepted out-of-range
 indices and aliased cells

---
 pydatastructs/linear_data_structures/arrays.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pydatastructs/linear_data_structures/arrays.py b/pydatastructs/linear_data_structures/arrays.py
index 7cfad9b..1cdaf8f 100644
--- a/pydatastructs/linear_data_structures/arrays.py
+++ b/pydatastructs/linear_data_structures/arrays.py
@@ -260,7 +260,8 @@ class MultiDimensionalArray(Array):
         indices = [indices] if isinstance(indices, int) else indices
         if len(indices) != len(self._sizes) - 1:
             raise IndexError("Shape mismatch, current shape is %s" % str(self.shape))
-        if any(indices[i] >= self._sizes[i] for i in range(len(indices))):
+        shape = self.shape
+        if any(indices[i] >= shape[i] for i in range(len(indices))):
             raise IndexError("Index out of range.")
 
     def fill(self, element) -> None:
-- 
2.43.0


From 7db9434ae91aa083c38eb441a175a354389bbdd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:29 +0000
Subject: [PATCH 06/85] fix: linked lists corrupted or hung on negative indices
 before the first item

---
 pydatastructs/linear_data_structures/linked_lists.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pydatastructs/linear_data_structures/linked_lists.py b/pydatastructs/linear_data_structures/linked_lists.py
index 09178da..e7a2d4e 100644
--- a/pydatastructs/linear_data_structures/linked_lists.py
+++ b/pydatastructs/linear_data_structures/linked_lists.py
@@ -115,7 +115,7 @@ class LinkedList(object):
         if index < 0:
             index = self.size + index
 
-        if index >= self.size:
+        if index < 0 or index >= self.size:
             raise IndexError('%d index is out of range.'%(index))
 
         counter = 0
@@ -294,7 +294,7 @@ class DoublyLinkedList(LinkedList):
         if index < 0:
             index = self.size + index
 
-        if index > self.size:
+        if index < 0 or index > self.size:
             raise IndexError('%d index is out of range.'%(index))
 
         self.size += 1
@@ -335,7 +335,7 @@ class DoublyLinkedList(LinkedList):
         if index < 0:
             index = self.size + index
 
-        if index >= self.size:
+        if index < 0 or index >= self.size:
             raise IndexError('%d is out of range.'%(index))
 
         self.size -= 1
@@ -428,7 +428,7 @@ class SinglyLinkedList(LinkedList):
         if index < 0:
             index = self.size + index
 
-        if index > self.size:
+        if index < 0 or index > self.size:
             raise IndexError('%d index is out of range.'%(index))
 
         self.size += 1
@@ -465,7 +465,7 @@ class SinglyLinkedList(LinkedList):
         if index < 0:
             index = self.size + index
 
-        if index >= self.size:
+        if index < 0 or index >= self.size:
             raise IndexError('%d is out of range.'%(index))
 
         self.size -= 1
-- 
2.43.0


From 37070ab33ae1b70299b2e6d465fb163e1c632510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:06 +0000
Subject: [PATCH 07/85] fix: circular linked lists left the ring unclosed after
 some insertions and extractions

---
 .../linear_data_structures/linked_lists.py    | 32 ++++++-------------
 1 file changed, 9 insertions(+), 23 deletions(-)

diff --git a/pydatastructs/linear_data_structures/linked_lists.py b/pydatastructs/linear_data_structures/linked_lists.py
index e7a2d4e..72810fd 100644
--- a/pydatastructs/linear_data_structures/linked_lists.py
+++ b/pydatastructs/linear_data_structures/linked_lists.py
@@ -536,19 +536,13 @@ class SinglyCircularLinkedList(SinglyLinkedList):
 
     def insert_at(self, index, key, data=None):
         super(SinglyCircularLinkedList, self).insert_at(index, key, data)
-        if self.size == 1:
-            self.head.next = self.head
-        new_node = self.__getitem__(index)
-        if index == 0:
-            self.tail.next = new_node
-        if new_node.next == self.head:
-            self.tail = new_node
+        self.tail.next = self.head
 
     def extract(self, index):
         node = super(SinglyCircularLinkedList, self).extract(index)
-        if self.tail is None:
+        if self.is_empty:
             self.head = None
-        elif index == 0:
+        else:
             self.tail.next = self.head
         return node
 
@@ -611,24 +605,16 @@ class DoublyCircularLinkedList(DoublyLinkedList):
     def insert_at(self, index, key, data=None):
         super(DoublyCircularLinkedList, self).\
             insert_at(index, key, data)
-        if self.size == 1:
-            self.head.next = self.head
-            self.head.prev = self.head
-        new_node = self.__getitem__(index)
-        if index == 0:
-            self.tail.next = new_node
-            new_node.prev = self.tail
-        if new_node.next == self.head:
-            self.tail = new_node
-            new_node.next = self.head
-            self.head.prev = new_node
+        self.tail.next = self.head
+        self.head.prev = self.tail
 
     def extract(self, index):
         node = super(DoublyCircularLinkedList, self).extract(index)
-        if self.tail is None:
-            self.head = None
-        elif index == 0:
+        if self.is_empty:
+            self.head, self.tail = None, None
+        else:
             self.tail.next = self.head
+            self.head.prev = self.tail
         return node
 
 class SkipList(object):
-- 
2.43.0


From a6a539924396c881f56217411324a341a4292f94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:50 +0000
Subject: [PATCH 08/85] fix: dynamic arrays without items failed or read out of
 bounds when compacted after sorting

---
 .../_backend/cpp/arrays/DynamicOneDimensionalArray.hpp    | 2 +-
 pydatastructs/linear_data_structures/arrays.py            | 8 ++++----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/pydatastructs/linear_data_structures/_backend/cpp/arrays/DynamicOneDimensionalArray.hpp b/pydatastructs/linear_data_structures/_backend/cpp/arrays/DynamicOneDimensionalArray.hpp
index 6715d45..30b4bea 100644
--- a/pydatastructs/linear_data_structures/_backend/cpp/arrays/DynamicOneDimensionalArray.hpp
+++ b/pydatastructs/linear_data_structures/_backend/cpp/arrays/DynamicOneDimensionalArray.hpp
@@ -99,7 +99,7 @@ static PyObject* DynamicOneDimensionalArray__modify(DynamicOneDimensionalArray *
     if ( force == Py_True ) {
         i = -1;
         j = _size - 1;
-        while ( _data[j] == Py_None) {
+        while ( j >= 0 && _data[j] == Py_None ) {
             i--;
             j--;
         }
diff --git a/pydatastructs/linear_data_structures/arrays.py b/pydatastructs/linear_data_structures/arrays.py
index 1cdaf8f..f0f3399 100644
--- a/pydatastructs/linear_data_structures/arrays.py
+++ b/pydatastructs/linear_data_structures/arrays.py
@@ -378,11 +378,11 @@ class DynamicOneDimensionalArray(DynamicArray, OneDimensionalArray):
         below load factor.
         """
         if force:
-            i = -1
-            while self._data[i] is None:
+            i = self._size - 1
+            while i >= 0 and self._data[i] is None:
                 i -= 1
-            self._last_pos_filled = i%self._size
-        if (self._num/self._size < self._load_factor):
+            self._last_pos_filled = i
+        if self._size and (self._num/self._size < self._load_factor):
             arr_new = OneDimensionalArray(self._dtype, 2*self._num + 1)
             j = 0
             for i in range(self._last_pos_filled + 1):
-- 
2.43.0


From 4290a2734c976b9b543b6905afbf026266145716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:13 +0000
Subject: [PATCH 09/85] fix: merge, brick and parallel brick sort failed on
 empty slices or never ended on equal items

---
 pydatastructs/linear_data_structures/algorithms.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pydatastructs/linear_data_structures/algorithms.py b/pydatastructs/linear_data_structures/algorithms.py
index eebb93f..f597f56 100644
--- a/pydatastructs/linear_data_structures/algorithms.py
+++ b/pydatastructs/linear_data_structures/algorithms.py
@@ -120,7 +120,7 @@ def merge_sort_parallel(array, num_threads, **kwargs):
     start = kwargs.get('start', 0)
     end = kwargs.get('end', len(array) - 1)
     comp = kwargs.get("comp", lambda u, v: u <= v)
-    for size in range(floor(log(end - start + 1, 2)) + 1):
+    for size in range(floor(log(max(end - start + 1, 1), 2)) + 1):
         pow_2 = 2**size
         with ThreadPoolExecutor(max_workers=num_threads) as Executor:
             i = start
@@ -191,11 +191,11 @@ def brick_sort(array, **kwargs):
     while is_sorted is False:
         is_sorted = True
         for i in range(start+1, end, 2):
-            if _comp(array[i+1], array[i], comp):
+            if _comp(array[i+1], array[i], comp) and not _comp(array[i], array[i+1], comp):
                 array[i], array[i+1] = array[i+1], array[i]
                 is_sorted = False
         for i in range(start, end, 2):
-            if _comp(array[i+1], array[i], comp):
+            if _comp(array[i+1], array[i], comp) and not _comp(array[i], array[i+1], comp):
                 array[i], array[i+1] = array[i+1], array[i]
                 is_sorted = False
 
@@ -203,7 +203,7 @@ def brick_sort(array, **kwargs):
         array._modify(True)
 
 def _brick_sort_swap(array, i, j, comp, is_sorted):
-    if _comp(array[j], array[i], comp):
+    if _comp(array[j], array[i], comp) and not _comp(array[i], array[j], comp):
         array[i], array[j] = array[j], array[i]
         is_sorted[0] = False
 
-- 
2.43.0


From 8b402adbae8bdd85649d50d4c17fee6fbe0c009e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:39 +0000
Subject: [PATCH 10/85] fix: quick sort ignored the picked pivot's position,
 and quick and bubble sort failed on empty slices

---
 .../cpp/algorithms/quadratic_time_sort.hpp    |  2 +-
 .../_backend/cpp/algorithms/quick_sort.hpp    | 22 ++++++++++++++++---
 .../linear_data_structures/algorithms.py      | 10 +++++++--
 3 files changed, 28 insertions(+), 6 deletions(-)

diff --git a/pydatastructs/linear_data_structures/_backend/cpp/algorithms/quadratic_time_sort.hpp b/pydatastructs/linear_data_structures/_backend/cpp/algorithms/quadratic_time_sort.hpp
index 792c1a6..9c95b77 100644
--- a/pydatastructs/linear_data_structures/_backend/cpp/algorithms/quadratic_time_sort.hpp
+++ b/pydatastructs/linear_data_structures/_backend/cpp/algorithms/quadratic_time_sort.hpp
@@ -11,7 +11,7 @@
 // Bubble Sort
 static PyObject* bubble_sort_impl(PyObject* array, size_t lower, size_t upper,
     PyObject* comp, size_t arr_length) {
-    for (size_t i = 0; i < arr_length - 1; i++) {
+    for (size_t i = 0; i + 1 < arr_length; i++) {
         for (size_t j = lower; j < upper; j++) {
             PyObject* j_PyObject = PyLong_FromSize_t(j);
             PyObject* j1_PyObject = PyLong_FromSize_t(j+1);
diff --git a/pydatastructs/linear_data_structures/_backend/cpp/algorithms/quick_sort.hpp b/pydatastructs/linear_data_structures/_backend/cpp/algorithms/quick_sort.hpp
index f3ad0ed..9431369 100644
--- a/pydatastructs/linear_data_structures/_backend/cpp/algorithms/quick_sort.hpp
+++ b/pydatastructs/linear_data_structures/_backend/cpp/algorithms/quick_sort.hpp
@@ -25,6 +25,20 @@ static size_t quick_sort_partition(size_t low, size_t high,
     PyObject* pick_pivot_element, PyObject* comp, PyObject* array) {
     int64_t i = low - 1;
     PyObject* x = call_pick_pivot_element(pick_pivot_element, low, high, array);
+    PyObject* pivot_pos = PyLong_FromSize_t(high);
+    for( size_t j = low; j < high; j++ ) {
+        PyObject* last = PyObject_GetItem(array, pivot_pos);
+        if ( PyObject_RichCompareBool(last, x, Py_EQ) == 1 ) {
+            break;
+        }
+        PyObject* j_PyObject = PyLong_FromSize_t(j);
+        PyObject* candidate = PyObject_GetItem(array, j_PyObject);
+        if ( PyObject_RichCompareBool(candidate, x, Py_EQ) == 1 ) {
+            PyObject_SetItem(array, j_PyObject, last);
+            PyObject_SetItem(array, pivot_pos, candidate);
+            break;
+        }
+    }
     for( size_t j = low; j < high; j++ ) {
         PyObject* j_PyObject = PyLong_FromSize_t(j);
         if ( _comp(PyObject_GetItem(array, j_PyObject), x, comp) == 1 ) {
@@ -51,8 +65,10 @@ static PyObject* quick_sort_impl(PyObject* array, size_t lower, size_t upper,
     size_t low, high, p;
     std::stack<size_t> rstack;
 
-    rstack.push(lower);
-    rstack.push(upper);
+    if ( lower + 1 < upper + 1 ) {
+        rstack.push(lower);
+        rstack.push(upper);
+    }
 
     while ( !rstack.empty() ) {
         high = rstack.top();
@@ -61,7 +77,7 @@ static PyObject* quick_sort_impl(PyObject* array, size_t lower, size_t upper,
         rstack.pop();
         p = quick_sort_partition(low, high, pick_pivot_element,
                                  comp, array);
-        if ( p - 1 > low ) {
+        if ( p > low + 1 ) {
             rstack.push(low);
             rstack.push(p - 1);
         }
diff --git a/pydatastructs/linear_data_structures/algorithms.py b/pydatastructs/linear_data_structures/algorithms.py
index f597f56..854a579 100644
--- a/pydatastructs/linear_data_structures/algorithms.py
+++ b/pydatastructs/linear_data_structures/algorithms.py
@@ -762,6 +762,11 @@ def quick_sort(array: Array, **kwargs) -> Array:
     def partition(low, high, pick_pivot_element):
         i = (low - 1)
         x = pick_pivot_element(low, high, array)
+        if array[high] != x:
+            for j in range(low, high):
+                if array[j] == x:
+                    array[j], array[high] = array[high], array[j]
+                    break
         for j in range(low , high):
             if _comp(array[j], x, comp) is True:
                 i = i + 1
@@ -773,8 +778,9 @@ def quick_sort(array: Array, **kwargs) -> Array:
     upper = kwargs.get('end', len(array) - 1)
     stack = Stack()
 
-    stack.push(lower)
-    stack.push(upper)
+    if lower < upper:
+        stack.push(lower)
+        stack.push(upper)
 
     while stack.is_empty is False:
         high = stack.pop()
-- 
2.43.0


From a64122cce61465ed26a5f8646ba0e33907c43edb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:39 +0000
Subject: [PATCH 11/85] fix: bucket sort and radix sort failed on negative,
 small, equal or missing items

---
 .../linear_data_structures/algorithms.py         | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/pydatastructs/linear_data_structures/algorithms.py b/pydatastructs/linear_data_structures/algorithms.py
index 854a579..81efa3b 100644
--- a/pydatastructs/linear_data_structures/algorithms.py
+++ b/pydatastructs/linear_data_structures/algorithms.py
@@ -561,10 +561,10 @@ def bucket_sort(array: Array, **kwargs) -> Array:
     end = kwargs.get('end', len(array) - 1)
 
     #Find maximum value in the list and use length of the list to determine which value in the list goes into which bucket
-    max_value = None
+    max_value = min_value = None
     for i in range(start, end+1):
         if array[i] is not None:
-            max_value = array[i]
+            max_value = min_value = array[i]
 
     count = 0
     for i in range(start, end+1):
@@ -572,9 +572,11 @@ def bucket_sort(array: Array, **kwargs) -> Array:
             count += 1
             if array[i] > max_value:
                 max_value = array[i]
+            if array[i] < min_value:
+                min_value = array[i]
 
     number_of_null_values = end - start + 1 - count
-    size = max_value // count
+    size = (max_value - min_value) // count + 1 if count else 1
 
     # Create n empty buckets where n is equal to the length of the input list
     buckets_list = [[] for _ in range(count)]
@@ -582,7 +584,7 @@ def bucket_sort(array: Array, **kwargs) -> Array:
     # Put list elements into different buckets based on the size
     for i in range(start, end + 1):
         if array[i] is not None:
-            j = array[i] // size
+            j = (array[i] - min_value) // size
             if j is not count:
                 buckets_list[j].append(array[i])
             else:
@@ -1984,12 +1986,12 @@ def radix_sort(array, *args, **kwargs):
     end = int(kwargs.get('end', len(array) - 1))
 
     n = end - start + 1
-    max_val = array[start]
-    for i in range(start + 1, end + 1):
+    max_val = 0
+    for i in range(start, end + 1):
         if array[i] is not None and array[i] > max_val:
             max_val = array[i]
     exp = 1
-    while max_val // exp > 0:
+    while exp == 1 or max_val // exp > 0:
         count = [0] * 10
         output = [None] * n
 
-- 
2.43.0


From c92e73d5ebb70d445ade52d7c313dc7a9f81f72d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:53 +0000
Subject: [PATCH 12/85] fix: LLVM selection sort could not be compiled and
 shared its cache with bubble sort

---
 .../cpp/algorithms/llvm_algorithms.py         | 20 +++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/pydatastructs/linear_data_structures/_backend/cpp/algorithms/llvm_algorithms.py b/pydatastructs/linear_data_structures/_backend/cpp/algorithms/llvm_algorithms.py
index 56b548c..c6c29db 100644
--- a/pydatastructs/linear_data_structures/_backend/cpp/algorithms/llvm_algorithms.py
+++ b/pydatastructs/linear_data_structures/_backend/cpp/algorithms/llvm_algorithms.py
@@ -211,6 +211,7 @@ def _build_selection_sort_ir(dtype: str) -> str:
     i_phi = b.phi(i32, name="i")
     i_phi.add_incoming(ir.Constant(i32, 0), b_entry)  # start at 0
 
+    i_plus_1 = b.add(i_phi, ir.Constant(i32, 1))
     cond_outer = b.icmp_signed("<", i_phi, n)
     b.cbranch(cond_outer, b_inner, b_exit)
 
@@ -220,7 +221,7 @@ def _build_selection_sort_ir(dtype: str) -> str:
     min_idx.add_incoming(i_phi, b_outer)  # initial min_idx = i
 
     j_phi = b.phi(i32, name="j")
-    j_phi.add_incoming(b.add(i_phi, ir.Constant(i32, 1)), b_outer)
+    j_phi.add_incoming(i_plus_1, b_outer)
 
     cond_inner = b.icmp_signed("<", j_phi, n)
     b.cbranch(cond_inner, b_inner_latch, b_swap)
@@ -239,19 +240,18 @@ def _build_selection_sort_ir(dtype: str) -> str:
     else:
         cmp = b.fcmp_ordered("<", arr_j_val, arr_min_val)
 
-    with b.if_then(cmp):
-        min_idx = j_phi  # update min_idx
+    next_min_idx = b.select(cmp, j_phi, min_idx)  # update min_idx
 
     j_next = b.add(j_phi, ir.Constant(i32, 1))
     j_phi.add_incoming(j_next, b_inner_latch)
-    min_idx.add_incoming(min_idx, b_inner_latch)  # propagate current min_idx
+    min_idx.add_incoming(next_min_idx, b_inner_latch)  # propagate current min_idx
     b.branch(b_inner)
 
     # Swap arr[i] and arr[min_idx]
     b.position_at_end(b_swap)
-    i64 = b.sext(i_phi, i64)
+    idx64 = b.sext(i_phi, i64)
     min64 = b.sext(min_idx, i64)
-    ptr_i = b.gep(arr, [i64], inbounds=True)
+    ptr_i = b.gep(arr, [idx64], inbounds=True)
     ptr_min = b.gep(arr, [min64], inbounds=True)
     val_i = b.load(ptr_i)
     val_min = b.load(ptr_min)
@@ -274,8 +274,8 @@ def _materialize_selection(dtype: str) -> int:
     _ensure_target_machine()
 
     name = f"selection_sort_{dtype}"
-    if dtype in _fn_ptr_cache:
-        return _fn_ptr_cache[dtype]
+    if name in _fn_ptr_cache:
+        return _fn_ptr_cache[name]
 
     try:
         llvm_ir = _build_selection_sort_ir(dtype)
@@ -290,8 +290,8 @@ def _materialize_selection(dtype: str) -> int:
         if not addr:
             raise RuntimeError(f"Failed to get address for {name}")
 
-        _fn_ptr_cache[dtype] = addr
-        _engines[dtype] = engine
+        _fn_ptr_cache[name] = addr
+        _engines[name] = engine
         return addr
     except Exception as e:
         raise RuntimeError(f"Failed to materialize function for dtype {dtype}: {e}")
-- 
2.43.0


From 923eace79c3dd634f78633102006c8fc273fed94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:36 +0000
Subject: [PATCH 13/85] fix: C++ quick sort passed an unterminated argument
 list to the pivot function

---
 .../_backend/cpp/algorithms/quick_sort.hpp                      | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydatastructs/linear_data_structures/_backend/cpp/algorithms/quick_sort.hpp b/pydatastructs/linear_data_structures/_backend/cpp/algorithms/quick_sort.hpp
index 9431369..477c137 100644
--- a/pydatastructs/linear_data_structures/_backend/cpp/algorithms/quick_sort.hpp
+++ b/pydatastructs/linear_data_structures/_backend/cpp/algorithms/quick_sort.hpp
@@ -15,7 +15,7 @@ static PyObject* call_pick_pivot_element(PyObject* pick_pivot_element,
         return PyObject_CallFunctionObjArgs(pick_pivot_element,
                                             PyLong_FromSize_t(low),
                                             high_PyObject,
-                                            array);
+                                            array, NULL);
     }
 
     return PyObject_GetItem(array, high_PyObject);
-- 
2.43.0


From 5992193e95700b3df634b8f46c06c540943ba238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:51 +0000
Subject: [PATCH 14/85] fix: counting sort failed on empty arrays and returned
 the argument itself for arrays without items

---
 pydatastructs/linear_data_structures/algorithms.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pydatastructs/linear_data_structures/algorithms.py b/pydatastructs/linear_data_structures/algorithms.py
index 81efa3b..2163fd3 100644
--- a/pydatastructs/linear_data_structures/algorithms.py
+++ b/pydatastructs/linear_data_structures/algorithms.py
@@ -387,7 +387,7 @@ def counting_sort(array: Array, **kwargs) -> Array:
     """
     raise_if_backend_is_not_python(
         counting_sort, kwargs.get('backend', Backend.PYTHON))
-    max_val, min_val = array[0], array[0]
+    max_val, min_val = None, None
     none_count = 0
     for i in range(len(array)):
         if array[i] is not None:
@@ -398,7 +398,7 @@ def counting_sort(array: Array, **kwargs) -> Array:
         else:
             none_count += 1
     if min_val is None or max_val is None:
-        return array
+        return type(array)(array._dtype, 0)
 
     count = [0 for _ in range(max_val - min_val + 1)]
     for i in range(len(array)):
-- 
2.43.0


From 254db770f4dc782eca14327926403f17706f27a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:52 +0000
Subject: [PATCH 15/85] fix: LLVM sorts of two item types in one process
 crashed at interpreter exit

---
 .../_backend/cpp/algorithms/llvm_algorithms.py                | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pydatastructs/linear_data_structures/_backend/cpp/algorithms/llvm_algorithms.py b/pydatastructs/linear_data_structures/_backend/cpp/algorithms/llvm_algorithms.py
index c6c29db..4e37fd4 100644
--- a/pydatastructs/linear_data_structures/_backend/cpp/algorithms/llvm_algorithms.py
+++ b/pydatastructs/linear_data_structures/_backend/cpp/algorithms/llvm_algorithms.py
@@ -132,6 +132,7 @@ def _build_bubble_sort_ir(dtype: str) -> str:
     return str(mod)
 
 def _materialize(dtype: str) -> int:
+    global _target_machine
     _ensure_target_machine()
 
     if dtype in _fn_ptr_cache:
@@ -153,6 +154,7 @@ def _materialize(dtype: str) -> int:
             pass
 
         engine = binding.create_mcjit_compiler(mod, _target_machine)
+        _target_machine = None  # now owned by the engine
         engine.finalize_object()
         engine.run_static_constructors()
 
@@ -271,6 +273,7 @@ def _build_selection_sort_ir(dtype: str) -> str:
 
 
 def _materialize_selection(dtype: str) -> int:
+    global _target_machine
     _ensure_target_machine()
 
     name = f"selection_sort_{dtype}"
@@ -283,6 +286,7 @@ def _materialize_selection(dtype: str) -> int:
         mod.verify()
 
         engine = binding.create_mcjit_compiler(mod, _target_machine)
+        _target_machine = None  # now owned by the engine
         engine.finalize_object()
         engine.run_static_constructors()
 
-- 
2.43.0


From b10ec93e59268da76e4ea523935b7bc46067803c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:14 +0000
Subject: [PATCH 16/85] fix: LLVM bubble sort could not be compiled for
 floating-point items

---
 .../_backend/cpp/algorithms/llvm_algorithms.py                  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydatastructs/linear_data_structures/_backend/cpp/algorithms/llvm_algorithms.py b/pydatastructs/linear_data_structures/_backend/cpp/algorithms/llvm_algorithms.py
index 4e37fd4..852f0bc 100644
--- a/pydatastructs/linear_data_structures/_backend/cpp/algorithms/llvm_algorithms.py
+++ b/pydatastructs/linear_data_structures/_backend/cpp/algorithms/llvm_algorithms.py
@@ -107,7 +107,7 @@ def _build_bubble_sort_ir(dtype: str) -> str:
     if isinstance(T, ir.IntType):
         should_swap = b.icmp_signed(">", val_j, val_jp1)
     else:
-        should_swap = b.fcmp_ordered(">", val_j, val_jp1, fastmath=True)
+        should_swap = b.fcmp_ordered(">", val_j, val_jp1)
 
     b.cbranch(should_swap, b_swap, b_inner_latch)
 
-- 
2.43.0


From 04321ac5fee04e81d2f58dac7579ade1362bfcb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:27 +0000
Subject: [PATCH 17/85] fix: parallel matrix multiplication failed or truncated
 sums for non-square matrices

---
 pydatastructs/linear_data_structures/algorithms.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pydatastructs/linear_data_structures/algorithms.py b/pydatastructs/linear_data_structures/algorithms.py
index 2163fd3..8978801 100644
--- a/pydatastructs/linear_data_structures/algorithms.py
+++ b/pydatastructs/linear_data_structures/algorithms.py
@@ -425,7 +425,7 @@ def counting_sort(array: Array, **kwargs) -> Array:
 
 def _matrix_multiply_helper(m1, m2, row, col):
     s = 0
-    for i in range(len(m1)):
+    for i in range(len(m2)):
         s += m1[row][i] * m2[i][col]
     return s
 
@@ -480,7 +480,7 @@ def matrix_multiply_parallel(matrix_1, matrix_2, num_threads):
         raise ValueError("Matrix size mismatch: %s * %s"%(
         (row_matrix_1, col_matrix_1), (row_matrix_2, col_matrix_2)))
 
-    C = [[None for i in range(col_matrix_1)] for j in range(row_matrix_2)]
+    C = [[None for i in range(col_matrix_2)] for j in range(row_matrix_1)]
 
     with ThreadPoolExecutor(max_workers=num_threads) as Executor:
         for i in range(row_matrix_1):
-- 
2.43.0


From f6e527ad9fe52166656b8292af74e831c4c813b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:27 +0000
Subject: [PATCH 18/85] fix: is_ordered reported ordered arrays with equal
 neighbours as not ordered

---
 .../_backend/cpp/algorithms/misc_algorithms.hpp                 | 2 +-
 pydatastructs/linear_data_structures/algorithms.py              | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pydatastructs/linear_data_structures/_backend/cpp/algorithms/misc_algorithms.hpp b/pydatastructs/linear_data_structures/_backend/cpp/algorithms/misc_algorithms.hpp
index 4527955..dcc4b9b 100644
--- a/pydatastructs/linear_data_structures/_backend/cpp/algorithms/misc_algorithms.hpp
+++ b/pydatastructs/linear_data_structures/_backend/cpp/algorithms/misc_algorithms.hpp
@@ -16,7 +16,7 @@ static bool is_ordered_impl(PyObject* array, size_t lower, size_t upper,
         PyObject* i_item = PyObject_GetItem(array, i_PyObject);
         PyObject* i1_item = PyObject_GetItem(array, i1_PyObject);
         if (i_item == Py_None || i1_item == Py_None) continue;
-        if ( _comp(i_item, i1_item, comp) == 1 ) {
+        if ( _comp(i_item, i1_item, comp) == 1 && _comp(i1_item, i_item, comp) != 1 ) {
             return false;
         }
     }
diff --git a/pydatastructs/linear_data_structures/algorithms.py b/pydatastructs/linear_data_structures/algorithms.py
index 8978801..548b145 100644
--- a/pydatastructs/linear_data_structures/algorithms.py
+++ b/pydatastructs/linear_data_structures/algorithms.py
@@ -928,7 +928,7 @@ def is_ordered(array, **kwargs):
     for i in range(lower + 1, upper + 1):
         if array[i] is None or array[i - 1] is None:
             continue
-        if comp(array[i], array[i - 1]):
+        if comp(array[i], array[i - 1]) and not comp(array[i - 1], array[i]):
             return False
     return True
 
-- 
2.43.0


From 3dc11257ab97339dbfc10e26e9044483e9aec40d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:27 +0000
Subject: [PATCH 19/85] fix: upper_bound and lower_bound failed on empty slices
 at the end of an array

---
 pydatastructs/linear_data_structures/algorithms.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/pydatastructs/linear_data_structures/algorithms.py b/pydatastructs/linear_data_structures/algorithms.py
index 548b145..c141aae 100644
--- a/pydatastructs/linear_data_structures/algorithms.py
+++ b/pydatastructs/linear_data_structures/algorithms.py
@@ -993,8 +993,6 @@ def upper_bound(array, value, **kwargs):
     comp = kwargs.get('comp', lambda x, y: x < y)
     index = end
     inclusive_end = end - 1
-    if comp(value, array[start]):
-        index = start
     while start <= inclusive_end:
         mid = (start + inclusive_end)//2
         if not comp(value, array[mid]):
@@ -1066,8 +1064,6 @@ def lower_bound(array, value, **kwargs):
     comp = kwargs.get('comp', lambda x, y: x < y)
     index = end
     inclusive_end = end - 1
-    if not comp(array[start], value):
-        index = start
     while start <= inclusive_end:
         mid = (start + inclusive_end)//2
         if comp(array[mid], value):
-- 
2.43.0


From 87dbeed5fa1c3e7ca7a48635c021b7c5dec6144b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:27 +0000
Subject: [PATCH 20/85] fix: prev_permutation was wrong for arrays with
 repeated items

---
 pydatastructs/linear_data_structures/algorithms.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pydatastructs/linear_data_structures/algorithms.py b/pydatastructs/linear_data_structures/algorithms.py
index c141aae..a55f044 100644
--- a/pydatastructs/linear_data_structures/algorithms.py
+++ b/pydatastructs/linear_data_structures/algorithms.py
@@ -1308,10 +1308,10 @@ def prev_permutation(array, **kwargs):
     comp = kwargs.get('comp', lambda x, y: x < y)
 
     def _prev_permutation_comp(x, y, _comp):
-        if _comp(x, y):
-            return True
-        else:
+        if _comp(y, x):
             return False
+        else:
+            return True
 
     return _permutation_util(array, start, end, comp,
                              _prev_permutation_comp)
-- 
2.43.0


From 6379241791fbb79394dea71e7ec41a060066762f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:27 +0000
Subject: [PATCH 21/85] fix: jump_search failed on empty slices and skipped
 items of slices not starting at 0

---
 .../_backend/cpp/algorithms/misc_algorithms.hpp              | 3 +++
 pydatastructs/linear_data_structures/algorithms.py           | 5 ++++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/pydatastructs/linear_data_structures/_backend/cpp/algorithms/misc_algorithms.hpp b/pydatastructs/linear_data_structures/_backend/cpp/algorithms/misc_algorithms.hpp
index dcc4b9b..28ce560 100644
--- a/pydatastructs/linear_data_structures/_backend/cpp/algorithms/misc_algorithms.hpp
+++ b/pydatastructs/linear_data_structures/_backend/cpp/algorithms/misc_algorithms.hpp
@@ -214,6 +214,9 @@ static PyObject* jump_search(PyObject* self, PyObject* args, PyObject* kwds) {
         PyErr_Format(PyExc_ValueError,
                 "Expected Value to be not NULL");
     }
+    if (lower + 1 > upper + 1) {
+        Py_RETURN_NONE;
+    }
     int step = int(sqrt(double(upper - lower + 1)));
     int prev = lower;
     int element_pos = prev;
diff --git a/pydatastructs/linear_data_structures/algorithms.py b/pydatastructs/linear_data_structures/algorithms.py
index a55f044..06613e6 100644
--- a/pydatastructs/linear_data_structures/algorithms.py
+++ b/pydatastructs/linear_data_structures/algorithms.py
@@ -1737,8 +1737,11 @@ def jump_search(array, value, **kwargs):
     end = kwargs.get('end', len(array) - 1)
     comp = kwargs.get("comp", lambda u, v: u < v)
 
+    if end < start:
+        return None
+
     step = int(sqrt(end - start + 1))
-    current_position = step
+    current_position = start + step
     prev = start
     while comp(array[min(current_position, end)], value):
         prev = current_position
-- 
2.43.0


From b237954090993d662aff15022f5fb3990171154a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:27 +0000
Subject: [PATCH 22/85] fix: longest_increasing_subsequence failed on an empty
 array

---
 pydatastructs/linear_data_structures/algorithms.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pydatastructs/linear_data_structures/algorithms.py b/pydatastructs/linear_data_structures/algorithms.py
index 06613e6..87850c8 100644
--- a/pydatastructs/linear_data_structures/algorithms.py
+++ b/pydatastructs/linear_data_structures/algorithms.py
@@ -1120,6 +1120,8 @@ def longest_increasing_subsequence(array, **kwargs):
     dp.fill(0)
     parent = OneDimensionalArray(int, n)
     parent.fill(-1)
+    if n == 0:
+        return OneDimensionalArray(int, 0)
     length = 0
     for i in range(1, n):
         if array[i] <= array[dp[0]]:
-- 
2.43.0


From 7d2eb05ff2b22c73258a110b612a36c50d3360e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:24 +0000
Subject: [PATCH 23/85] fix: heaps could not be built from arrays with empty
 cells

---
 pydatastructs/trees/heaps.py | 1165 +++++++++++++++++-----------------
 1 file changed, 583 insertions(+), 582 deletions(-)

diff --git a/pydatastructs/trees/heaps.py b/pydatastructs/trees/heaps.py
index 12133a6..59cff46 100644
--- a/pydatastructs/trees/heaps.py
+++ b/pydatastructs/trees/heaps.py
@@ -1,582 +1,583 @@
-from pydatastructs.utils.misc_util import (
-    _check_type, TreeNode, BinomialTreeNode,
-    Backend, raise_if_backend_is_not_python)
-from pydatastructs.linear_data_structures.arrays import (
-     DynamicOneDimensionalArray, Array)
-from pydatastructs.miscellaneous_data_structures.binomial_trees import BinomialTree
-
-__all__ = [
-    'BinaryHeap',
-    'TernaryHeap',
-    'DHeap',
-    'BinomialHeap'
-]
-
-class Heap(object):
-    """
-    Abstract class for representing heaps.
-    """
-    pass
-
-
-class DHeap(Heap):
-    """
-    Represents D-ary Heap.
-
-    Parameters
-    ==========
-
-    elements: list, tuple, Array
-        Optional, by default 'None'.
-        list/tuple/Array of initial TreeNode in Heap.
-    heap_property: str
-        If the key stored in each node is
-        either greater than or equal to
-        the keys in the node's children
-        then pass 'max'.
-        If the key stored in each node is
-        either less than or equal to
-        the keys in the node's children
-        then pass 'min'.
-        By default, the heap property is
-        set to 'min'.
-    backend: pydatastructs.Backend
-        The backend to be used.
-        Optional, by default, the best available
-        backend is used.
-
-    Examples
-    ========
-
-    >>> from pydatastructs.trees.heaps import DHeap
-    >>> min_heap = DHeap(heap_property="min", d=3)
-    >>> min_heap.insert(1, 1)
-    >>> min_heap.insert(5, 5)
-    >>> min_heap.insert(7, 7)
-    >>> min_heap.extract().key
-    1
-    >>> min_heap.insert(4, 4)
-    >>> min_heap.extract().key
-    4
-
-    >>> max_heap = DHeap(heap_property='max', d=2)
-    >>> max_heap.insert(1, 1)
-    >>> max_heap.insert(5, 5)
-    >>> max_heap.insert(7, 7)
-    >>> max_heap.extract().key
-    7
-    >>> max_heap.insert(6, 6)
-    >>> max_heap.extract().key
-    6
-
-    References
-    ==========
-
-    .. [1] https://en.wikipedia.org/wiki/D-ary_heap
-    """
-    __slots__ = ['_comp', 'heap', 'd', 'heap_property', '_last_pos_filled']
-
-    def __new__(cls, elements=None, heap_property="min", d=4,
-                **kwargs):
-        raise_if_backend_is_not_python(
-            cls, kwargs.get('backend', Backend.PYTHON))
-        obj = Heap.__new__(cls)
-        obj.heap_property = heap_property
-        obj.d = d
-        if heap_property == "min":
-            obj._comp = lambda key_parent, key_child: key_parent <= key_child
-        elif heap_property == "max":
-            obj._comp = lambda key_parent, key_child: key_parent >= key_child
-        else:
-            raise ValueError("%s is invalid heap property"%(heap_property))
-        if elements is None:
-            elements = DynamicOneDimensionalArray(TreeNode, 0)
-        elif _check_type(elements, (list,tuple)):
-            elements = DynamicOneDimensionalArray(TreeNode, len(elements), elements)
-        elif _check_type(elements, Array):
-            elements = DynamicOneDimensionalArray(TreeNode, len(elements), elements._data)
-        else:
-            raise ValueError(f'Expected a list/tuple/Array of TreeNode got {type(elements)}')
-        obj.heap = elements
-        obj._last_pos_filled = obj.heap._last_pos_filled
-        obj._build()
-        return obj
-
-    @classmethod
-    def methods(cls):
-        return ['__new__', 'insert', 'extract', '__str__', 'is_empty']
-
-    def _build(self):
-        for i in range(self._last_pos_filled + 1):
-            self.heap[i]._leftmost, self.heap[i]._rightmost = \
-                self.d*i + 1, self.d*i + self.d
-        for i in range((self._last_pos_filled + 1)//self.d, -1, -1):
-            self._heapify(i)
-
-    def _swap(self, idx1, idx2):
-        idx1_key, idx1_data = \
-            self.heap[idx1].key, self.heap[idx1].data
-        self.heap[idx1].key, self.heap[idx1].data = \
-            self.heap[idx2].key, self.heap[idx2].data
-        self.heap[idx2].key, self.heap[idx2].data = \
-            idx1_key, idx1_data
-
-    def _heapify(self, i):
-        while True:
-            target = i
-            l = self.d*i + 1
-            r = self.d*i + self.d
-
-            for j in range(l, r+1):
-                if j <= self._last_pos_filled:
-                    target = j if self._comp(self.heap[j].key, self.heap[target].key) \
-                            else target
-                else:
-                    break
-
-            if target != i:
-                self._swap(target, i)
-                i = target
-            else:
-                break
-
-    def insert(self, key, data=None):
-        """
-        Insert a new element to the heap according to heap property.
-
-        Parameters
-        ==========
-
-        key
-            The key for comparison.
-        data
-            The data to be inserted.
-
-        Returns
-        =======
-
-        None
-        """
-        new_node = TreeNode(key, data)
-        self.heap.append(new_node)
-        self._last_pos_filled += 1
-        i = self._last_pos_filled
-        self.heap[i]._leftmost, self.heap[i]._rightmost = self.d*i + 1, self.d*i + self.d
-
-        while True:
-            parent = (i - 1)//self.d
-            if i == 0 or self._comp(self.heap[parent].key, self.heap[i].key):
-                break
-            else:
-                self._swap(i, parent)
-                i = parent
-
-    def extract(self):
-        """
-        Extract root element of the Heap.
-
-        Returns
-        =======
-
-        root_element: TreeNode
-            The TreeNode at the root of the heap,
-            if the heap is not empty.
-
-        None
-            If the heap is empty.
-        """
-        if self._last_pos_filled == -1:
-            raise IndexError("Heap is empty.")
-        else:
-            element_to_be_extracted = TreeNode(self.heap[0].key, self.heap[0].data)
-            self._swap(0, self._last_pos_filled)
-            self.heap.delete(self._last_pos_filled)
-            self._last_pos_filled -= 1
-            self._heapify(0)
-            return element_to_be_extracted
-
-    def __str__(self):
-        to_be_printed = ['' for i in range(self._last_pos_filled + 1)]
-        for i in range(self._last_pos_filled + 1):
-            node = self.heap[i]
-            if node._leftmost <= self._last_pos_filled:
-                if node._rightmost <= self._last_pos_filled:
-                    children = list(range(node._leftmost, node._rightmost + 1))
-                else:
-                    children = list(range(node._leftmost, self._last_pos_filled + 1))
-            else:
-                children = []
-            to_be_printed[i] = (node.key, node.data, children)
-        return str(to_be_printed)
-
-    @property
-    def is_empty(self):
-        """
-        Checks if the heap is empty.
-        """
-        return self.heap._last_pos_filled == -1
-
-
-class BinaryHeap(DHeap):
-    """
-    Represents Binary Heap.
-
-    Parameters
-    ==========
-
-    elements: list, tuple
-        Optional, by default 'None'.
-        List/tuple of initial elements in Heap.
-    heap_property: str
-        If the key stored in each node is
-        either greater than or equal to
-        the keys in the node's children
-        then pass 'max'.
-        If the key stored in each node is
-        either less than or equal to
-        the keys in the node's children
-        then pass 'min'.
-        By default, the heap property is
-        set to 'min'.
-    backend: pydatastructs.Backend
-        The backend to be used.
-        Optional, by default, the best available
-        backend is used.
-
-    Examples
-    ========
-
-    >>> from pydatastructs.trees.heaps import BinaryHeap
-    >>> min_heap = BinaryHeap(heap_property="min")
-    >>> min_heap.insert(1, 1)
-    >>> min_heap.insert(5, 5)
-    >>> min_heap.insert(7, 7)
-    >>> min_heap.extract().key
-    1
-    >>> min_heap.insert(4, 4)
-    >>> min_heap.extract().key
-    4
-
-    >>> max_heap = BinaryHeap(heap_property='max')
-    >>> max_heap.insert(1, 1)
-    >>> max_heap.insert(5, 5)
-    >>> max_heap.insert(7, 7)
-    >>> max_heap.extract().key
-    7
-    >>> max_heap.insert(6, 6)
-    >>> max_heap.extract().key
-    6
-
-    References
-    ==========
-
-    .. [1] https://en.m.wikipedia.org/wiki/Binary_heap
-    """
-    def __new__(cls, elements=None, heap_property="min",
-                **kwargs):
-        raise_if_backend_is_not_python(
-            cls, kwargs.get('backend', Backend.PYTHON))
-        obj = DHeap.__new__(cls, elements, heap_property, 2)
-        return obj
-
-    @classmethod
-    def methods(cls):
-        return ['__new__']
-
-
-class TernaryHeap(DHeap):
-    """
-    Represents Ternary Heap.
-
-    Parameters
-    ==========
-
-    elements: list, tuple
-        Optional, by default 'None'.
-        List/tuple of initial elements in Heap.
-    heap_property: str
-        If the key stored in each node is
-        either greater than or equal to
-        the keys in the node's children
-        then pass 'max'.
-        If the key stored in each node is
-        either less than or equal to
-        the keys in the node's children
-        then pass 'min'.
-        By default, the heap property is
-        set to 'min'.
-    backend: pydatastructs.Backend
-        The backend to be used.
-        Optional, by default, the best available
-        backend is used.
-
-    Examples
-    ========
-
-    >>> from pydatastructs.trees.heaps import TernaryHeap
-    >>> min_heap = TernaryHeap(heap_property="min")
-    >>> min_heap.insert(1, 1)
-    >>> min_heap.insert(5, 5)
-    >>> min_heap.insert(7, 7)
-    >>> min_heap.insert(3, 3)
-    >>> min_heap.extract().key
-    1
-    >>> min_heap.insert(4, 4)
-    >>> min_heap.extract().key
-    3
-
-    >>> max_heap = TernaryHeap(heap_property='max')
-    >>> max_heap.insert(1, 1)
-    >>> max_heap.insert(5, 5)
-    >>> max_heap.insert(7, 7)
-    >>> min_heap.insert(3, 3)
-    >>> max_heap.extract().key
-    7
-    >>> max_heap.insert(6, 6)
-    >>> max_heap.extract().key
-    6
-
-    References
-    ==========
-
-    .. [1] https://en.wikipedia.org/wiki/D-ary_heap
-    .. [2] https://ece.uwaterloo.ca/~dwharder/aads/Algorithms/d-ary_heaps/Ternary_heaps/
-    """
-    def __new__(cls, elements=None, heap_property="min",
-                **kwargs):
-        raise_if_backend_is_not_python(
-            cls, kwargs.get('backend', Backend.PYTHON))
-        obj = DHeap.__new__(cls, elements, heap_property, 3)
-        return obj
-
-    @classmethod
-    def methods(cls):
-        return ['__new__']
-
-
-class BinomialHeap(Heap):
-    """
-    Represents binomial heap.
-
-    Parameters
-    ==========
-
-    root_list: list/tuple/Array
-        By default, []
-        The list of BinomialTree object references
-        in sorted order.
-    backend: pydatastructs.Backend
-        The backend to be used.
-        Optional, by default, the best available
-        backend is used.
-
-    Examples
-    ========
-
-    >>> from pydatastructs import BinomialHeap
-    >>> b = BinomialHeap()
-    >>> b.insert(1, 1)
-    >>> b.insert(2, 2)
-    >>> b.find_minimum().key
-    1
-    >>> b.find_minimum().children[0].key
-    2
-
-    References
-    ==========
-
-    .. [1] https://en.wikipedia.org/wiki/Binomial_heap
-    """
-    __slots__ = ['root_list']
-
-    def __new__(cls, root_list=None, **kwargs):
-        raise_if_backend_is_not_python(
-            cls, kwargs.get('backend', Backend.PYTHON))
-        if root_list is None:
-            root_list = []
-        if not all((_check_type(root, BinomialTree))
-                for root in root_list):
-                    raise TypeError("The root_list should contain "
-                                    "references to objects of BinomialTree.")
-        obj = Heap.__new__(cls)
-        obj.root_list = root_list
-        return obj
-
-    @classmethod
-    def methods(cls):
-        return ['__new__', 'merge_tree', 'merge', 'insert',
-        'find_minimum', 'is_emtpy', 'decrease_key', 'delete',
-        'delete_minimum']
-
-    def merge_tree(self, tree1, tree2):
-        """
-        Merges two BinomialTree objects.
-
-        Parameters
-        ==========
-
-        tree1: BinomialTree
-
-        tree2: BinomialTree
-        """
-        if (not _check_type(tree1, BinomialTree)) or \
-            (not _check_type(tree2, BinomialTree)):
-            raise TypeError("Both the trees should be of type "
-                            "BinomalTree.")
-        ret_value = None
-        if tree1.root.key <= tree2.root.key:
-            tree1.add_sub_tree(tree2)
-            ret_value = tree1
-        else:
-            tree2.add_sub_tree(tree1)
-            ret_value = tree2
-        return ret_value
-
-    def _merge_heap_last_new_tree(self, new_root_list, new_tree):
-        """
-        Merges last tree node in root list with the incoming tree.
-        """
-        pos = -1
-        if len(new_root_list) > 0 and new_root_list[pos].order == new_tree.order:
-            new_root_list[pos] = self.merge_tree(new_root_list[pos], new_tree)
-        else:
-            new_root_list.append(new_tree)
-
-    def merge(self, other_heap):
-        """
-        Merges current binomial heap with the given binomial heap.
-
-        Parameters
-        ==========
-
-        other_heap: BinomialHeap
-        """
-        if not _check_type(other_heap, BinomialHeap):
-            raise TypeError("Other heap is not of type BinomialHeap.")
-        new_root_list = []
-        i, j = 0, 0
-        while (i < len(self.root_list)) and \
-              (j < len(other_heap.root_list)):
-            new_tree = None
-            while self.root_list[i] is None:
-                i += 1
-            while other_heap.root_list[j] is None:
-                j += 1
-            if self.root_list[i].order == other_heap.root_list[j].order:
-                new_tree = self.merge_tree(self.root_list[i],
-                                           other_heap.root_list[j])
-                i += 1
-                j += 1
-            else:
-                if self.root_list[i].order < other_heap.root_list[j].order:
-                    new_tree = self.root_list[i]
-                    i += 1
-                else:
-                    new_tree = other_heap.root_list[j]
-                    j += 1
-            self._merge_heap_last_new_tree(new_root_list, new_tree)
-
-        while i < len(self.root_list):
-            new_tree = self.root_list[i]
-            self._merge_heap_last_new_tree(new_root_list, new_tree)
-            i += 1
-        while j < len(other_heap.root_list):
-            new_tree = other_heap.root_list[j]
-            self._merge_heap_last_new_tree(new_root_list, new_tree)
-            j += 1
-        self.root_list = new_root_list
-
-    def insert(self, key, data=None):
-        """
-        Inserts new node with the given key and data.
-
-        key
-            The key of the node which can be operated
-            upon by relational operators.
-
-        data
-            The data to be stored in the new node.
-        """
-        new_node = BinomialTreeNode(key, data)
-        new_tree = BinomialTree(root=new_node, order=0)
-        new_heap = BinomialHeap(root_list=[new_tree])
-        self.merge(new_heap)
-
-    def find_minimum(self, **kwargs):
-        """
-        Finds the node with the minimum key.
-
-        Returns
-        =======
-
-        min_node: BinomialTreeNode
-        """
-        if self.is_empty:
-            raise IndexError("Binomial heap is empty.")
-        min_node = None
-        idx, min_idx = 0, None
-        for tree in self.root_list:
-            if ((min_node is None) or
-                (tree is not None and tree.root is not None and
-                 min_node.key > tree.root.key)):
-                min_node = tree.root
-                min_idx = idx
-            idx += 1
-        if kwargs.get('get_index', None) is not None:
-            return min_node, min_idx
-        return min_node
-
-    def delete_minimum(self):
-        """
-        Deletes the node with minimum key.
-        """
-        min_node, min_idx = self.find_minimum(get_index=True)
-        child_root_list = []
-        for k, child in enumerate(min_node.children):
-            if child is not None:
-                child_root_list.append(BinomialTree(root=child, order=k))
-        self.root_list.remove(self.root_list[min_idx])
-        child_heap = BinomialHeap(root_list=child_root_list)
-        self.merge(child_heap)
-
-    @property
-    def is_empty(self):
-        return not self.root_list
-
-    def decrease_key(self, node, new_key):
-        """
-        Decreases the key of the given node.
-
-        Parameters
-        ==========
-
-        node: BinomialTreeNode
-            The node whose key is to be reduced.
-        new_key
-            The new key of the given node,
-            should be less than the current key.
-        """
-        if node.key <= new_key:
-            raise ValueError("The new key "
-            "should be less than current node's key.")
-        node.key = new_key
-        while ((not node.is_root) and
-               (node.parent.key > node.key)):
-            node.parent.key, node.key = \
-                node.key, node.parent.key
-            node.parent.data, node.data = \
-                node.data, node.parent.data
-            node = node.parent
-
-    def delete(self, node):
-        """
-        Deletes the given node.
-
-        Parameters
-        ==========
-
-        node: BinomialTreeNode
-            The node which is to be deleted.
-        """
-        self.decrease_key(node, self.find_minimum().key - 1)
-        self.delete_minimum()
+from pydatastructs.utils.misc_util import (
+    _check_type, TreeNode, BinomialTreeNode,
+    Backend, raise_if_backend_is_not_python)
+from pydatastructs.linear_data_structures.arrays import (
+     DynamicOneDimensionalArray, Array)
+from pydatastructs.miscellaneous_data_structures.binomial_trees import BinomialTree
+
+__all__ = [
+    'BinaryHeap',
+    'TernaryHeap',
+    'DHeap',
+    'BinomialHeap'
+]
+
+class Heap(object):
+    """
+    Abstract class for representing heaps.
+    """
+    pass
+
+
+class DHeap(Heap):
+    """
+    Represents D-ary Heap.
+
+    Parameters
+    ==========
+
+    elements: list, tuple, Array
+        Optional, by default 'None'.
+        list/tuple/Array of initial TreeNode in Heap.
+    heap_property: str
+        If the key stored in each node is
+        either greater than or equal to
+        the keys in the node's children
+        then pass 'max'.
+        If the key stored in each node is
+        either less than or equal to
+        the keys in the node's children
+        then pass 'min'.
+        By default, the heap property is
+        set to 'min'.
+    backend: pydatastructs.Backend
+        The backend to be used.
+        Optional, by default, the best available
+        backend is used.
+
+    Examples
+    ========
+
+    >>> from pydatastructs.trees.heaps import DHeap
+    >>> min_heap = DHeap(heap_property="min", d=3)
+    >>> min_heap.insert(1, 1)
+    >>> min_heap.insert(5, 5)
+    >>> min_heap.insert(7, 7)
+    >>> min_heap.extract().key
+    1
+    >>> min_heap.insert(4, 4)
+    >>> min_heap.extract().key
+    4
+
+    >>> max_heap = DHeap(heap_property='max', d=2)
+    >>> max_heap.insert(1, 1)
+    >>> max_heap.insert(5, 5)
+    >>> max_heap.insert(7, 7)
+    >>> max_heap.extract().key
+    7
+    >>> max_heap.insert(6, 6)
+    >>> max_heap.extract().key
+    6
+
+    References
+    ==========
+
+    .. [1] https://en.wikipedia.org/wiki/D-ary_heap
+    """
+    __slots__ = ['_comp', 'heap', 'd', 'heap_property', '_last_pos_filled']
+
+    def __new__(cls, elements=None, heap_property="min", d=4,
+                **kwargs):
+        raise_if_backend_is_not_python(
+            cls, kwargs.get('backend', Backend.PYTHON))
+        obj = Heap.__new__(cls)
+        obj.heap_property = heap_property
+        obj.d = d
+        if heap_property == "min":
+            obj._comp = lambda key_parent, key_child: key_parent <= key_child
+        elif heap_property == "max":
+            obj._comp = lambda key_parent, key_child: key_parent >= key_child
+        else:
+            raise ValueError("%s is invalid heap property"%(heap_property))
+        if elements is None:
+            elements = DynamicOneDimensionalArray(TreeNode, 0)
+        elif _check_type(elements, (list,tuple)):
+            elements = DynamicOneDimensionalArray(TreeNode, len(elements), elements)
+        elif _check_type(elements, Array):
+            elements = [elements[i] for i in range(len(elements)) if elements[i] is not None]
+            elements = DynamicOneDimensionalArray(TreeNode, len(elements), elements)
+        else:
+            raise ValueError(f'Expected a list/tuple/Array of TreeNode got {type(elements)}')
+        obj.heap = elements
+        obj._last_pos_filled = obj.heap._last_pos_filled
+        obj._build()
+        return obj
+
+    @classmethod
+    def methods(cls):
+        return ['__new__', 'insert', 'extract', '__str__', 'is_empty']
+
+    def _build(self):
+        for i in range(self._last_pos_filled + 1):
+            self.heap[i]._leftmost, self.heap[i]._rightmost = \
+                self.d*i + 1, self.d*i + self.d
+        for i in range((self._last_pos_filled + 1)//self.d, -1, -1):
+            self._heapify(i)
+
+    def _swap(self, idx1, idx2):
+        idx1_key, idx1_data = \
+            self.heap[idx1].key, self.heap[idx1].data
+        self.heap[idx1].key, self.heap[idx1].data = \
+            self.heap[idx2].key, self.heap[idx2].data
+        self.heap[idx2].key, self.heap[idx2].data = \
+            idx1_key, idx1_data
+
+    def _heapify(self, i):
+        while True:
+            target = i
+            l = self.d*i + 1
+            r = self.d*i + self.d
+
+            for j in range(l, r+1):
+                if j <= self._last_pos_filled:
+                    target = j if self._comp(self.heap[j].key, self.heap[target].key) \
+                            else target
+                else:
+                    break
+
+            if target != i:
+                self._swap(target, i)
+                i = target
+            else:
+                break
+
+    def insert(self, key, data=None):
+        """
+        Insert a new element to the heap according to heap property.
+
+        Parameters
+        ==========
+
+        key
+            The key for comparison.
+        data
+            The data to be inserted.
+
+        Returns
+        =======
+
+        None
+        """
+        new_node = TreeNode(key, data)
+        self.heap.append(new_node)
+        self._last_pos_filled += 1
+        i = self._last_pos_filled
+        self.heap[i]._leftmost, self.heap[i]._rightmost = self.d*i + 1, self.d*i + self.d
+
+        while True:
+            parent = (i - 1)//self.d
+            if i == 0 or self._comp(self.heap[parent].key, self.heap[i].key):
+                break
+            else:
+                self._swap(i, parent)
+                i = parent
+
+    def extract(self):
+        """
+        Extract root element of the Heap.
+
+        Returns
+        =======
+
+        root_element: TreeNode
+            The TreeNode at the root of the heap,
+            if the heap is not empty.
+
+        None
+            If the heap is empty.
+        """
+        if self._last_pos_filled == -1:
+            raise IndexError("Heap is empty.")
+        else:
+            element_to_be_extracted = TreeNode(self.heap[0].key, self.heap[0].data)
+            self._swap(0, self._last_pos_filled)
+            self.heap.delete(self._last_pos_filled)
+            self._last_pos_filled -= 1
+            self._heapify(0)
+            return element_to_be_extracted
+
+    def __str__(self):
+        to_be_printed = ['' for i in range(self._last_pos_filled + 1)]
+        for i in range(self._last_pos_filled + 1):
+            node = self.heap[i]
+            if node._leftmost <= self._last_pos_filled:
+                if node._rightmost <= self._last_pos_filled:
+                    children = list(range(node._leftmost, node._rightmost + 1))
+                else:
+                    children = list(range(node._leftmost, self._last_pos_filled + 1))
+            else:
+                children = []
+            to_be_printed[i] = (node.key, node.data, children)
+        return str(to_be_printed)
+
+    @property
+    def is_empty(self):
+        """
+        Checks if the heap is empty.
+        """
+        return self.heap._last_pos_filled == -1
+
+
+class BinaryHeap(DHeap):
+    """
+    Represents Binary Heap.
+
+    Parameters
+    ==========
+
+    elements: list, tuple
+        Optional, by default 'None'.
+        List/tuple of initial elements in Heap.
+    heap_property: str
+        If the key stored in each node is
+        either greater than or equal to
+        the keys in the node's children
+        then pass 'max'.
+        If the key stored in each node is
+        either less than or equal to
+        the keys in the node's children
+        then pass 'min'.
+        By default, the heap property is
+        set to 'min'.
+    backend: pydatastructs.Backend
+        The backend to be used.
+        Optional, by default, the best available
+        backend is used.
+
+    Examples
+    ========
+
+    >>> from pydatastructs.trees.heaps import BinaryHeap
+    >>> min_heap = BinaryHeap(heap_property="min")
+    >>> min_heap.insert(1, 1)
+    >>> min_heap.insert(5, 5)
+    >>> min_heap.insert(7, 7)
+    >>> min_heap.extract().key
+    1
+    >>> min_heap.insert(4, 4)
+    >>> min_heap.extract().key
+    4
+
+    >>> max_heap = BinaryHeap(heap_property='max')
+    >>> max_heap.insert(1, 1)
+    >>> max_heap.insert(5, 5)
+    >>> max_heap.insert(7, 7)
+    >>> max_heap.extract().key
+    7
+    >>> max_heap.insert(6, 6)
+    >>> max_heap.extract().key
+    6
+
+    References
+    ==========
+
+    .. [1] https://en.m.wikipedia.org/wiki/Binary_heap
+    """
+    def __new__(cls, elements=None, heap_property="min",
+                **kwargs):
+        raise_if_backend_is_not_python(
+            cls, kwargs.get('backend', Backend.PYTHON))
+        obj = DHeap.__new__(cls, elements, heap_property, 2)
+        return obj
+
+    @classmethod
+    def methods(cls):
+        return ['__new__']
+
+
+class TernaryHeap(DHeap):
+    """
+    Represents Ternary Heap.
+
+    Parameters
+    ==========
+
+    elements: list, tuple
+        Optional, by default 'None'.
+        List/tuple of initial elements in Heap.
+    heap_property: str
+        If the key stored in each node is
+        either greater than or equal to
+        the keys in the node's children
+        then pass 'max'.
+        If the key stored in each node is
+        either less than or equal to
+        the keys in the node's children
+        then pass 'min'.
+        By default, the heap property is
+        set to 'min'.
+    backend: pydatastructs.Backend
+        The backend to be used.
+        Optional, by default, the best available
+        backend is used.
+
+    Examples
+    ========
+
+    >>> from pydatastructs.trees.heaps import TernaryHeap
+    >>> min_heap = TernaryHeap(heap_property="min")
+    >>> min_heap.insert(1, 1)
+    >>> min_heap.insert(5, 5)
+    >>> min_heap.insert(7, 7)
+    >>> min_heap.insert(3, 3)
+    >>> min_heap.extract().key
+    1
+    >>> min_heap.insert(4, 4)
+    >>> min_heap.extract().key
+    3
+
+    >>> max_heap = TernaryHeap(heap_property='max')
+    >>> max_heap.insert(1, 1)
+    >>> max_heap.insert(5, 5)
+    >>> max_heap.insert(7, 7)
+    >>> min_heap.insert(3, 3)
+    >>> max_heap.extract().key
+    7
+    >>> max_heap.insert(6, 6)
+    >>> max_heap.extract().key
+    6
+
+    References
+    ==========
+
+    .. [1] https://en.wikipedia.org/wiki/D-ary_heap
+    .. [2] https://ece.uwaterloo.ca/~dwharder/aads/Algorithms/d-ary_heaps/Ternary_heaps/
+    """
+    def __new__(cls, elements=None, heap_property="min",
+                **kwargs):
+        raise_if_backend_is_not_python(
+            cls, kwargs.get('backend', Backend.PYTHON))
+        obj = DHeap.__new__(cls, elements, heap_property, 3)
+        return obj
+
+    @classmethod
+    def methods(cls):
+        return ['__new__']
+
+
+class BinomialHeap(Heap):
+    """
+    Represents binomial heap.
+
+    Parameters
+    ==========
+
+    root_list: list/tuple/Array
+        By default, []
+        The list of BinomialTree object references
+        in sorted order.
+    backend: pydatastructs.Backend
+        The backend to be used.
+        Optional, by default, the best available
+        backend is used.
+
+    Examples
+    ========
+
+    >>> from pydatastructs import BinomialHeap
+    >>> b = BinomialHeap()
+    >>> b.insert(1, 1)
+    >>> b.insert(2, 2)
+    >>> b.find_minimum().key
+    1
+    >>> b.find_minimum().children[0].key
+    2
+
+    References
+    ==========
+
+    .. [1] https://en.wikipedia.org/wiki/Binomial_heap
+    """
+    __slots__ = ['root_list']
+
+    def __new__(cls, root_list=None, **kwargs):
+        raise_if_backend_is_not_python(
+            cls, kwargs.get('backend', Backend.PYTHON))
+        if root_list is None:
+            root_list = []
+        if not all((_check_type(root, BinomialTree))
+                for root in root_list):
+                    raise TypeError("The root_list should contain "
+                                    "references to objects of BinomialTree.")
+        obj = Heap.__new__(cls)
+        obj.root_list = root_list
+        return obj
+
+    @classmethod
+    def methods(cls):
+        return ['__new__', 'merge_tree', 'merge', 'insert',
+        'find_minimum', 'is_emtpy', 'decrease_key', 'delete',
+        'delete_minimum']
+
+    def merge_tree(self, tree1, tree2):
+        """
+        Merges two BinomialTree objects.
+
+        Parameters
+        ==========
+
+        tree1: BinomialTree
+
+        tree2: BinomialTree
+        """
+        if (not _check_type(tree1, BinomialTree)) or \
+            (not _check_type(tree2, BinomialTree)):
+            raise TypeError("Both the trees should be of type "
+                            "BinomalTree.")
+        ret_value = None
+        if tree1.root.key <= tree2.root.key:
+            tree1.add_sub_tree(tree2)
+            ret_value = tree1
+        else:
+            tree2.add_sub_tree(tree1)
+            ret_value = tree2
+        return ret_value
+
+    def _merge_heap_last_new_tree(self, new_root_list, new_tree):
+        """
+        Merges last tree node in root list with the incoming tree.
+        """
+        pos = -1
+        if len(new_root_list) > 0 and new_root_list[pos].order == new_tree.order:
+            new_root_list[pos] = self.merge_tree(new_root_list[pos], new_tree)
+        else:
+            new_root_list.append(new_tree)
+
+    def merge(self, other_heap):
+        """
+        Merges current binomial heap with the given binomial heap.
+
+        Parameters
+        ==========
+
+        other_heap: BinomialHeap
+        """
+        if not _check_type(other_heap, BinomialHeap):
+            raise TypeError("Other heap is not of type BinomialHeap.")
+        new_root_list = []
+        i, j = 0, 0
+        while (i < len(self.root_list)) and \
+              (j < len(other_heap.root_list)):
+            new_tree = None
+            while self.root_list[i] is None:
+                i += 1
+            while other_heap.root_list[j] is None:
+                j += 1
+            if self.root_list[i].order == other_heap.root_list[j].order:
+                new_tree = self.merge_tree(self.root_list[i],
+                                           other_heap.root_list[j])
+                i += 1
+                j += 1
+            else:
+                if self.root_list[i].order < other_heap.root_list[j].order:
+                    new_tree = self.root_list[i]
+                    i += 1
+                else:
+                    new_tree = other_heap.root_list[j]
+                    j += 1
+            self._merge_heap_last_new_tree(new_root_list, new_tree)
+
+        while i < len(self.root_list):
+            new_tree = self.root_list[i]
+            self._merge_heap_last_new_tree(new_root_list, new_tree)
+            i += 1
+        while j < len(other_heap.root_list):
+            new_tree = other_heap.root_list[j]
+            self._merge_heap_last_new_tree(new_root_list, new_tree)
+            j += 1
+        self.root_list = new_root_list
+
+    def insert(self, key, data=None):
+        """
+        Inserts new node with the given key and data.
+
+        key
+            The key of the node which can be operated
+            upon by relational operators.
+
+        data
+            The data to be stored in the new node.
+        """
+        new_node = BinomialTreeNode(key, data)
+        new_tree = BinomialTree(root=new_node, order=0)
+        new_heap = BinomialHeap(root_list=[new_tree])
+        self.merge(new_heap)
+
+    def find_minimum(self, **kwargs):
+        """
+        Finds the node with the minimum key.
+
+        Returns
+        =======
+
+        min_node: BinomialTreeNode
+        """
+        if self.is_empty:
+            raise IndexError("Binomial heap is empty.")
+        min_node = None
+        idx, min_idx = 0, None
+        for tree in self.root_list:
+            if ((min_node is None) or
+                (tree is not None and tree.root is not None and
+                 min_node.key > tree.root.key)):
+                min_node = tree.root
+                min_idx = idx
+            idx += 1
+        if kwargs.get('get_index', None) is not None:
+            return min_node, min_idx
+        return min_node
+
+    def delete_minimum(self):
+        """
+        Deletes the node with minimum key.
+        """
+        min_node, min_idx = self.find_minimum(get_index=True)
+        child_root_list = []
+        for k, child in enumerate(min_node.children):
+            if child is not None:
+                child_root_list.append(BinomialTree(root=child, order=k))
+        self.root_list.remove(self.root_list[min_idx])
+        child_heap = BinomialHeap(root_list=child_root_list)
+        self.merge(child_heap)
+
+    @property
+    def is_empty(self):
+        return not self.root_list
+
+    def decrease_key(self, node, new_key):
+        """
+        Decreases the key of the given node.
+
+        Parameters
+        ==========
+
+        node: BinomialTreeNode
+            The node whose key is to be reduced.
+        new_key
+            The new key of the given node,
+            should be less than the current key.
+        """
+        if node.key <= new_key:
+            raise ValueError("The new key "
+            "should be less than current node's key.")
+        node.key = new_key
+        while ((not node.is_root) and
+               (node.parent.key > node.key)):
+            node.parent.key, node.key = \
+                node.key, node.parent.key
+            node.parent.data, node.data = \
+                node.data, node.parent.data
+            node = node.parent
+
+    def delete(self, node):
+        """
+        Deletes the given node.
+
+        Parameters
+        ==========
+
+        node: BinomialTreeNode
+            The node which is to be deleted.
+        """
+        self.decrease_key(node, self.find_minimum().key - 1)
+        self.delete_minimum()
-- 
2.43.0


From 1a2fbd33a8be9885ee9ab68fc0b919b832686c95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:11 +0000
Subject: [PATCH 24/85] fix: removing an element never added to a multiset
 raised KeyError

---
 pydatastructs/miscellaneous_data_structures/multiset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydatastructs/miscellaneous_data_structures/multiset.py b/pydatastructs/miscellaneous_data_structures/multiset.py
index 3979782..802c291 100644
--- a/pydatastructs/miscellaneous_data_structures/multiset.py
+++ b/pydatastructs/miscellaneous_data_structures/multiset.py
@@ -20,7 +20,7 @@ class Multiset:
             self.tree.insert(element)
 
     def remove(self, element):
-        if self.counter[element] == 1:
+        if self.counter.get(element, 0) == 1:
             self.tree.delete(element)
         if self.counter.get(element, 0) > 0:
             self._n -= 1
-- 
2.43.0


From eeaffaa9c0214ab88262deaad6a42872e20edb7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:14 +0000
Subject: [PATCH 25/85] fix: Rabin-Karp reported hash collisions and Z-function
 missed matches followed by $

---
 pydatastructs/strings/algorithms.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pydatastructs/strings/algorithms.py b/pydatastructs/strings/algorithms.py
index 1e26b94..135bd82 100644
--- a/pydatastructs/strings/algorithms.py
+++ b/pydatastructs/strings/algorithms.py
@@ -161,7 +161,8 @@ def _rabin_karp(text, query):
         text_hash[i+1] = (text_hash[i] + ord(text[i]) * p_pow[i]) % MOD
     for i in range(t - q + 1):
         curr_hash = (text_hash[i + q] + MOD - text_hash[i]) % MOD
-        if curr_hash == (query_hash * p_pow[i]) % MOD:
+        if curr_hash == (query_hash * p_pow[i]) % MOD and \
+            text[i:i + q] == query:
             positions.append(i)
 
     return positions
@@ -241,7 +242,7 @@ def _z_function(text, query):
 
     fct = _z_vector(text, query)
     for pos in range(len(fct)):
-        if fct[pos] == len(query):
+        if fct[pos] >= len(query):
             positions.append(pos)
 
     return positions
-- 
2.43.0


From 702155a15b03fa285196f23b1d04725a903db0d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:14 +0000
Subject: [PATCH 26/85] fix: sparse tables truncated non-integer items

---
 pydatastructs/miscellaneous_data_structures/sparse_table.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydatastructs/miscellaneous_data_structures/sparse_table.py b/pydatastructs/miscellaneous_data_structures/sparse_table.py
index 55ec4e9..e4b1d89 100644
--- a/pydatastructs/miscellaneous_data_structures/sparse_table.py
+++ b/pydatastructs/miscellaneous_data_structures/sparse_table.py
@@ -65,7 +65,7 @@ class SparseTable(object):
         obj = object.__new__(cls)
         size = len(array)
         log_size = int(math.log2(size)) + 1
-        obj._table = [OneDimensionalArray(int, log_size) for _ in range(size)]
+        obj._table = [OneDimensionalArray(object, log_size) for _ in range(size)]
         obj.func = func
 
         for i in range(size):
-- 
2.43.0


From e86e4e0e49712f20784d4bf87c5ea36398d9217a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:26 +0000
Subject: [PATCH 27/85] fix: interval segment trees rewrote the caller's list,
 refused tuples and failed without intervals

---
 pydatastructs/trees/space_partitioning_trees.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/pydatastructs/trees/space_partitioning_trees.py b/pydatastructs/trees/space_partitioning_trees.py
index f13c1f2..8414788 100644
--- a/pydatastructs/trees/space_partitioning_trees.py
+++ b/pydatastructs/trees/space_partitioning_trees.py
@@ -57,10 +57,7 @@ class OneDimensionalSegmentTree(object):
         if any((not isinstance(seg, (tuple, list, set)) or len(seg) != 2)
                 for seg in segs):
                     raise ValueError('%s is invalid set of intervals'%(segs))
-        for i in range(len(segs)):
-            segs[i] = list(segs[i])
-            segs[i].sort()
-        obj.segments = list(segs)
+        obj.segments = [sorted(seg) for seg in segs]
         obj.tree, obj.root_idx, obj.cache = [], None, False
         return obj
 
@@ -141,6 +138,8 @@ class OneDimensionalSegmentTree(object):
         for segment in self.segments:
             endpoints.extend(segment)
         endpoints.sort()
+        if not endpoints:
+            endpoints.append(0)
 
         elem_int = Queue()
         elem_int.append(TreeNode([False, endpoints[0] - 1, endpoints[0], False], None))
-- 
2.43.0


From d0c40f134388243e613b61de39808abdf5eb611c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:26 +0000
Subject: [PATCH 28/85] fix: trie listed a wrong string for a stored prefix and
 reported deleting strings never stored

---
 pydatastructs/strings/trie.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pydatastructs/strings/trie.py b/pydatastructs/strings/trie.py
index cdf6666..ec88ee3 100644
--- a/pydatastructs/strings/trie.py
+++ b/pydatastructs/strings/trie.py
@@ -151,6 +151,8 @@ class Trie(object):
                 return None
             walk = walk.get_child(char)
         path.append(walk)
+        if not walk.is_terminal:
+            return None
         i = len(path) - 1
         path[i].is_terminal = False
         while not path[i]._children and i >= 1:
@@ -195,7 +197,7 @@ class Trie(object):
                 return strings
             prefix += char
         if walk.is_terminal:
-            strings.append(walk.char)
+            strings.append(prefix)
         for child in walk._children:
             _collect(prefix, walk.get_child(child), strings)
         return strings
-- 
2.43.0


From 4d6f84c57a6bb58ba311ed67e400a34f5828c31e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:08 +0000
Subject: [PATCH 29/85] fix: Z-function matching failed on empty cells of the
 vector

---
 pydatastructs/strings/algorithms.py |    2 +-
 pydatastructs/trees/heaps.py        | 1168 ++++++++++++++-------------
 2 files changed, 586 insertions(+), 584 deletions(-)

diff --git a/pydatastructs/strings/algorithms.py b/pydatastructs/strings/algorithms.py
index 135bd82..11224cb 100644
--- a/pydatastructs/strings/algorithms.py
+++ b/pydatastructs/strings/algorithms.py
@@ -242,7 +242,7 @@ def _z_function(text, query):
 
     fct = _z_vector(text, query)
     for pos in range(len(fct)):
-        if fct[pos] >= len(query):
+        if fct[pos] is not None and fct[pos] >= len(query):
             positions.append(pos)
 
     return positions
diff --git a/pydatastructs/trees/heaps.py b/pydatastructs/trees/heaps.py
index 59cff46..c3a1d54 100644
--- a/pydatastructs/trees/heaps.py
+++ b/pydatastructs/trees/heaps.py
@@ -1,583 +1,585 @@
-from pydatastructs.utils.misc_util import (
-    _check_type, TreeNode, BinomialTreeNode,
-    Backend, raise_if_backend_is_not_python)
-from pydatastructs.linear_data_structures.arrays import (
-     DynamicOneDimensionalArray, Array)
-from pydatastructs.miscellaneous_data_structures.binomial_trees import BinomialTree
-
-__all__ = [
-    'BinaryHeap',
-    'TernaryHeap',
-    'DHeap',
-    'BinomialHeap'
-]
-
-class Heap(object):
-    """
-    Abstract class for representing heaps.
-    """
-    pass
-
-
-class DHeap(Heap):
-    """
-    Represents D-ary Heap.
-
-    Parameters
-    ==========
-
-    elements: list, tuple, Array
-        Optional, by default 'None'.
-        list/tuple/Array of initial TreeNode in Heap.
-    heap_property: str
-        If the key stored in each node is
-        either greater than or equal to
-        the keys in the node's children
-        then pass 'max'.
-        If the key stored in each node is
-        either less than or equal to
-        the keys in the node's children
-        then pass 'min'.
-        By default, the heap property is
-        set to 'min'.
-    backend: pydatastructs.Backend
-        The backend to be used.
-        Optional, by default, the best available
-        backend is used.
-
-    Examples
-    ========
-
-    >>> from pydatastructs.trees.heaps import DHeap
-    >>> min_heap = DHeap(heap_property="min", d=3)
-    >>> min_heap.insert(1, 1)
-    >>> min_heap.insert(5, 5)
-    >>> min_heap.insert(7, 7)
-    >>> min_heap.extract().key
-    1
-    >>> min_heap.insert(4, 4)
-    >>> min_heap.extract().key
-    4
-
-    >>> max_heap = DHeap(heap_property='max', d=2)
-    >>> max_heap.insert(1, 1)
-    >>> max_heap.insert(5, 5)
-    >>> max_heap.insert(7, 7)
-    >>> max_heap.extract().key
-    7
-    >>> max_heap.insert(6, 6)
-    >>> max_heap.extract().key
-    6
-
-    References
-    ==========
-
-    .. [1] https://en.wikipedia.org/wiki/D-ary_heap
-    """
-    __slots__ = ['_comp', 'heap', 'd', 'heap_property', '_last_pos_filled']
-
-    def __new__(cls, elements=None, heap_property="min", d=4,
-                **kwargs):
-        raise_if_backend_is_not_python(
-            cls, kwargs.get('backend', Backend.PYTHON))
-        obj = Heap.__new__(cls)
-        obj.heap_property = heap_property
-        obj.d = d
-        if heap_property == "min":
-            obj._comp = lambda key_parent, key_child: key_parent <= key_child
-        elif heap_property == "max":
-            obj._comp = lambda key_parent, key_child: key_parent >= key_child
-        else:
-            raise ValueError("%s is invalid heap property"%(heap_property))
-        if elements is None:
-            elements = DynamicOneDimensionalArray(TreeNode, 0)
-        elif _check_type(elements, (list,tuple)):
-            elements = DynamicOneDimensionalArray(TreeNode, len(elements), elements)
-        elif _check_type(elements, Array):
-            elements = [elements[i] for i in range(len(elements)) if elements[i] is not None]
-            elements = DynamicOneDimensionalArray(TreeNode, len(elements), elements)
-        else:
-            raise ValueError(f'Expected a list/tuple/Array of TreeNode got {type(elements)}')
-        obj.heap = elements
-        obj._last_pos_filled = obj.heap._last_pos_filled
-        obj._build()
-        return obj
-
-    @classmethod
-    def methods(cls):
-        return ['__new__', 'insert', 'extract', '__str__', 'is_empty']
-
-    def _build(self):
-        for i in range(self._last_pos_filled + 1):
-            self.heap[i]._leftmost, self.heap[i]._rightmost = \
-                self.d*i + 1, self.d*i + self.d
-        for i in range((self._last_pos_filled + 1)//self.d, -1, -1):
-            self._heapify(i)
-
-    def _swap(self, idx1, idx2):
-        idx1_key, idx1_data = \
-            self.heap[idx1].key, self.heap[idx1].data
-        self.heap[idx1].key, self.heap[idx1].data = \
-            self.heap[idx2].key, self.heap[idx2].data
-        self.heap[idx2].key, self.heap[idx2].data = \
-            idx1_key, idx1_data
-
-    def _heapify(self, i):
-        while True:
-            target = i
-            l = self.d*i + 1
-            r = self.d*i + self.d
-
-            for j in range(l, r+1):
-                if j <= self._last_pos_filled:
-                    target = j if self._comp(self.heap[j].key, self.heap[target].key) \
-                            else target
-                else:
-                    break
-
-            if target != i:
-                self._swap(target, i)
-                i = target
-            else:
-                break
-
-    def insert(self, key, data=None):
-        """
-        Insert a new element to the heap according to heap property.
-
-        Parameters
-        ==========
-
-        key
-            The key for comparison.
-        data
-            The data to be inserted.
-
-        Returns
-        =======
-
-        None
-        """
-        new_node = TreeNode(key, data)
-        self.heap.append(new_node)
-        self._last_pos_filled += 1
-        i = self._last_pos_filled
-        self.heap[i]._leftmost, self.heap[i]._rightmost = self.d*i + 1, self.d*i + self.d
-
-        while True:
-            parent = (i - 1)//self.d
-            if i == 0 or self._comp(self.heap[parent].key, self.heap[i].key):
-                break
-            else:
-                self._swap(i, parent)
-                i = parent
-
-    def extract(self):
-        """
-        Extract root element of the Heap.
-
-        Returns
-        =======
-
-        root_element: TreeNode
-            The TreeNode at the root of the heap,
-            if the heap is not empty.
-
-        None
-            If the heap is empty.
-        """
-        if self._last_pos_filled == -1:
-            raise IndexError("Heap is empty.")
-        else:
-            element_to_be_extracted = TreeNode(self.heap[0].key, self.heap[0].data)
-            self._swap(0, self._last_pos_filled)
-            self.heap.delete(self._last_pos_filled)
-            self._last_pos_filled -= 1
-            self._heapify(0)
-            return element_to_be_extracted
-
-    def __str__(self):
-        to_be_printed = ['' for i in range(self._last_pos_filled + 1)]
-        for i in range(self._last_pos_filled + 1):
-            node = self.heap[i]
-            if node._leftmost <= self._last_pos_filled:
-                if node._rightmost <= self._last_pos_filled:
-                    children = list(range(node._leftmost, node._rightmost + 1))
-                else:
-                    children = list(range(node._leftmost, self._last_pos_filled + 1))
-            else:
-                children = []
-            to_be_printed[i] = (node.key, node.data, children)
-        return str(to_be_printed)
-
-    @property
-    def is_empty(self):
-        """
-        Checks if the heap is empty.
-        """
-        return self.heap._last_pos_filled == -1
-
-
-class BinaryHeap(DHeap):
-    """
-    Represents Binary Heap.
-
-    Parameters
-    ==========
-
-    elements: list, tuple
-        Optional, by default 'None'.
-        List/tuple of initial elements in Heap.
-    heap_property: str
-        If the key stored in each node is
-        either greater than or equal to
-        the keys in the node's children
-        then pass 'max'.
-        If the key stored in each node is
-        either less than or equal to
-        the keys in the node's children
-        then pass 'min'.
-        By default, the heap property is
-        set to 'min'.
-    backend: pydatastructs.Backend
-        The backend to be used.
-        Optional, by default, the best available
-        backend is used.
-
-    Examples
-    ========
-
-    >>> from pydatastructs.trees.heaps import BinaryHeap
-    >>> min_heap = BinaryHeap(heap_property="min")
-    >>> min_heap.insert(1, 1)
-    >>> min_heap.insert(5, 5)
-    >>> min_heap.insert(7, 7)
-    >>> min_heap.extract().key
-    1
-    >>> min_heap.insert(4, 4)
-    >>> min_heap.extract().key
-    4
-
-    >>> max_heap = BinaryHeap(heap_property='max')
-    >>> max_heap.insert(1, 1)
-    >>> max_heap.insert(5, 5)
-    >>> max_heap.insert(7, 7)
-    >>> max_heap.extract().key
-    7
-    >>> max_heap.insert(6, 6)
-    >>> max_heap.extract().key
-    6
-
-    References
-    ==========
-
-    .. [1] https://en.m.wikipedia.org/wiki/Binary_heap
-    """
-    def __new__(cls, elements=None, heap_property="min",
-                **kwargs):
-        raise_if_backend_is_not_python(
-            cls, kwargs.get('backend', Backend.PYTHON))
-        obj = DHeap.__new__(cls, elements, heap_property, 2)
-        return obj
-
-    @classmethod
-    def methods(cls):
-        return ['__new__']
-
-
-class TernaryHeap(DHeap):
-    """
-    Represents Ternary Heap.
-
-    Parameters
-    ==========
-
-    elements: list, tuple
-        Optional, by default 'None'.
-        List/tuple of initial elements in Heap.
-    heap_property: str
-        If the key stored in each node is
-        either greater than or equal to
-        the keys in the node's children
-        then pass 'max'.
-        If the key stored in each node is
-        either less than or equal to
-        the keys in the node's children
-        then pass 'min'.
-        By default, the heap property is
-        set to 'min'.
-    backend: pydatastructs.Backend
-        The backend to be used.
-        Optional, by default, the best available
-        backend is used.
-
-    Examples
-    ========
-
-    >>> from pydatastructs.trees.heaps import TernaryHeap
-    >>> min_heap = TernaryHeap(heap_property="min")
-    >>> min_heap.insert(1, 1)
-    >>> min_heap.insert(5, 5)
-    >>> min_heap.insert(7, 7)
-    >>> min_heap.insert(3, 3)
-    >>> min_heap.extract().key
-    1
-    >>> min_heap.insert(4, 4)
-    >>> min_heap.extract().key
-    3
-
-    >>> max_heap = TernaryHeap(heap_property='max')
-    >>> max_heap.insert(1, 1)
-    >>> max_heap.insert(5, 5)
-    >>> max_heap.insert(7, 7)
-    >>> min_heap.insert(3, 3)
-    >>> max_heap.extract().key
-    7
-    >>> max_heap.insert(6, 6)
-    >>> max_heap.extract().key
-    6
-
-    References
-    ==========
-
-    .. [1] https://en.wikipedia.org/wiki/D-ary_heap
-    .. [2] https://ece.uwaterloo.ca/~dwharder/aads/Algorithms/d-ary_heaps/Ternary_heaps/
-    """
-    def __new__(cls, elements=None, heap_property="min",
-                **kwargs):
-        raise_if_backend_is_not_python(
-            cls, kwargs.get('backend', Backend.PYTHON))
-        obj = DHeap.__new__(cls, elements, heap_property, 3)
-        return obj
-
-    @classmethod
-    def methods(cls):
-        return ['__new__']
-
-
-class BinomialHeap(Heap):
-    """
-    Represents binomial heap.
-
-    Parameters
-    ==========
-
-    root_list: list/tuple/Array
-        By default, []
-        The list of BinomialTree object references
-        in sorted order.
-    backend: pydatastructs.Backend
-        The backend to be used.
-        Optional, by default, the best available
-        backend is used.
-
-    Examples
-    ========
-
-    >>> from pydatastructs import BinomialHeap
-    >>> b = BinomialHeap()
-    >>> b.insert(1, 1)
-    >>> b.insert(2, 2)
-    >>> b.find_minimum().key
-    1
-    >>> b.find_minimum().children[0].key
-    2
-
-    References
-    ==========
-
-    .. [1] https://en.wikipedia.org/wiki/Binomial_heap
-    """
-    __slots__ = ['root_list']
-
-    def __new__(cls, root_list=None, **kwargs):
-        raise_if_backend_is_not_python(
-            cls, kwargs.get('backend', Backend.PYTHON))
-        if root_list is None:
-            root_list = []
-        if not all((_check_type(root, BinomialTree))
-                for root in root_list):
-                    raise TypeError("The root_list should contain "
-                                    "references to objects of BinomialTree.")
-        obj = Heap.__new__(cls)
-        obj.root_list = root_list
-        return obj
-
-    @classmethod
-    def methods(cls):
-        return ['__new__', 'merge_tree', 'merge', 'insert',
-        'find_minimum', 'is_emtpy', 'decrease_key', 'delete',
-        'delete_minimum']
-
-    def merge_tree(self, tree1, tree2):
-        """
-        Merges two BinomialTree objects.
-
-        Parameters
-        ==========
-
-        tree1: BinomialTree
-
-        tree2: BinomialTree
-        """
-        if (not _check_type(tree1, BinomialTree)) or \
-            (not _check_type(tree2, BinomialTree)):
-            raise TypeError("Both the trees should be of type "
-                            "BinomalTree.")
-        ret_value = None
-        if tree1.root.key <= tree2.root.key:
-            tree1.add_sub_tree(tree2)
-            ret_value = tree1
-        else:
-            tree2.add_sub_tree(tree1)
-            ret_value = tree2
-        return ret_value
-
-    def _merge_heap_last_new_tree(self, new_root_list, new_tree):
-        """
-        Merges last tree node in root list with the incoming tree.
-        """
-        pos = -1
-        if len(new_root_list) > 0 and new_root_list[pos].order == new_tree.order:
-            new_root_list[pos] = self.merge_tree(new_root_list[pos], new_tree)
-        else:
-            new_root_list.append(new_tree)
-
-    def merge(self, other_heap):
-        """
-        Merges current binomial heap with the given binomial heap.
-
-        Parameters
-        ==========
-
-        other_heap: BinomialHeap
-        """
-        if not _check_type(other_heap, BinomialHeap):
-            raise TypeError("Other heap is not of type BinomialHeap.")
-        new_root_list = []
-        i, j = 0, 0
-        while (i < len(self.root_list)) and \
-              (j < len(other_heap.root_list)):
-            new_tree = None
-            while self.root_list[i] is None:
-                i += 1
-            while other_heap.root_list[j] is None:
-                j += 1
-            if self.root_list[i].order == other_heap.root_list[j].order:
-                new_tree = self.merge_tree(self.root_list[i],
-                                           other_heap.root_list[j])
-                i += 1
-                j += 1
-            else:
-                if self.root_list[i].order < other_heap.root_list[j].order:
-                    new_tree = self.root_list[i]
-                    i += 1
-                else:
-                    new_tree = other_heap.root_list[j]
-                    j += 1
-            self._merge_heap_last_new_tree(new_root_list, new_tree)
-
-        while i < len(self.root_list):
-            new_tree = self.root_list[i]
-            self._merge_heap_last_new_tree(new_root_list, new_tree)
-            i += 1
-        while j < len(other_heap.root_list):
-            new_tree = other_heap.root_list[j]
-            self._merge_heap_last_new_tree(new_root_list, new_tree)
-            j += 1
-        self.root_list = new_root_list
-
-    def insert(self, key, data=None):
-        """
-        Inserts new node with the given key and data.
-
-        key
-            The key of the node which can be operated
-            upon by relational operators.
-
-        data
-            The data to be stored in the new node.
-        """
-        new_node = BinomialTreeNode(key, data)
-        new_tree = BinomialTree(root=new_node, order=0)
-        new_heap = BinomialHeap(root_list=[new_tree])
-        self.merge(new_heap)
-
-    def find_minimum(self, **kwargs):
-        """
-        Finds the node with the minimum key.
-
-        Returns
-        =======
-
-        min_node: BinomialTreeNode
-        """
-        if self.is_empty:
-            raise IndexError("Binomial heap is empty.")
-        min_node = None
-        idx, min_idx = 0, None
-        for tree in self.root_list:
-            if ((min_node is None) or
-                (tree is not None and tree.root is not None and
-                 min_node.key > tree.root.key)):
-                min_node = tree.root
-                min_idx = idx
-            idx += 1
-        if kwargs.get('get_index', None) is not None:
-            return min_node, min_idx
-        return min_node
-
-    def delete_minimum(self):
-        """
-        Deletes the node with minimum key.
-        """
-        min_node, min_idx = self.find_minimum(get_index=True)
-        child_root_list = []
-        for k, child in enumerate(min_node.children):
-            if child is not None:
-                child_root_list.append(BinomialTree(root=child, order=k))
-        self.root_list.remove(self.root_list[min_idx])
-        child_heap = BinomialHeap(root_list=child_root_list)
-        self.merge(child_heap)
-
-    @property
-    def is_empty(self):
-        return not self.root_list
-
-    def decrease_key(self, node, new_key):
-        """
-        Decreases the key of the given node.
-
-        Parameters
-        ==========
-
-        node: BinomialTreeNode
-            The node whose key is to be reduced.
-        new_key
-            The new key of the given node,
-            should be less than the current key.
-        """
-        if node.key <= new_key:
-            raise ValueError("The new key "
-            "should be less than current node's key.")
-        node.key = new_key
-        while ((not node.is_root) and
-               (node.parent.key > node.key)):
-            node.parent.key, node.key = \
-                node.key, node.parent.key
-            node.parent.data, node.data = \
-                node.data, node.parent.data
-            node = node.parent
-
-    def delete(self, node):
-        """
-        Deletes the given node.
-
-        Parameters
-        ==========
-
-        node: BinomialTreeNode
-            The node which is to be deleted.
-        """
-        self.decrease_key(node, self.find_minimum().key - 1)
-        self.delete_minimum()
+from pydatastructs.utils.misc_util import (
+    _check_type, TreeNode, BinomialTreeNode,
+    Backend, raise_if_backend_is_not_python)
+from pydatastructs.linear_data_structures.arrays import (
+     DynamicOneDimensionalArray, Array)
+from pydatastructs.miscellaneous_data_structures.binomial_trees import BinomialTree
+
+__all__ = [
+    'BinaryHeap',
+    'TernaryHeap',
+    'DHeap',
+    'BinomialHeap'
+]
+
+class Heap(object):
+    """
+    Abstract class for representing heaps.
+    """
+    pass
+
+
+class DHeap(Heap):
+    """
+    Represents D-ary Heap.
+
+    Parameters
+    ==========
+
+    elements: list, tuple, Array
+        Optional, by default 'None'.
+        list/tuple/Array of initial TreeNode in Heap.
+    heap_property: str
+        If the key stored in each node is
+        either greater than or equal to
+        the keys in the node's children
+        then pass 'max'.
+        If the key stored in each node is
+        either less than or equal to
+        the keys in the node's children
+        then pass 'min'.
+        By default, the heap property is
+        set to 'min'.
+    backend: pydatastructs.Backend
+        The backend to be used.
+        Optional, by default, the best available
+        backend is used.
+
+    Examples
+    ========
+
+    >>> from pydatastructs.trees.heaps import DHeap
+    >>> min_heap = DHeap(heap_property="min", d=3)
+    >>> min_heap.insert(1, 1)
+    >>> min_heap.insert(5, 5)
+    >>> min_heap.insert(7, 7)
+    >>> min_heap.extract().key
+    1
+    >>> min_heap.insert(4, 4)
+    >>> min_heap.extract().key
+    4
+
+    >>> max_heap = DHeap(heap_property='max', d=2)
+    >>> max_heap.insert(1, 1)
+    >>> max_heap.insert(5, 5)
+    >>> max_heap.insert(7, 7)
+    >>> max_heap.extract().key
+    7
+    >>> max_heap.insert(6, 6)
+    >>> max_heap.extract().key
+    6
+
+    References
+    ==========
+
+    .. [1] https://en.wikipedia.org/wiki/D-ary_heap
+    """
+    __slots__ = ['_comp', 'heap', 'd', 'heap_property', '_last_pos_filled']
+
+    def __new__(cls, elements=None, heap_property="min", d=4,
+                **kwargs):
+        raise_if_backend_is_not_python(
+            cls, kwargs.get('backend', Backend.PYTHON))
+        obj = Heap.__new__(cls)
+        obj.heap_property = heap_property
+        obj.d = d
+        if heap_property == "min":
+            obj._comp = lambda key_parent, key_child: key_parent <= key_child
+        elif heap_property == "max":
+            obj._comp = lambda key_parent, key_child: key_parent >= key_child
+        else:
+            raise ValueError("%s is invalid heap property"%(heap_property))
+        if elements is None:
+            elements = DynamicOneDimensionalArray(TreeNode, 0)
+        elif _check_type(elements, (list,tuple)):
+            elements = DynamicOneDimensionalArray(TreeNode, len(elements), elements)
+        elif _check_type(elements, Array):
+            elements = [elements[i] for i in range(len(elements)) if elements[i] is not None]
+            if not all(_check_type(node, TreeNode) for node in elements):
+                raise TypeError("Expected an Array of TreeNode.")
+            elements = DynamicOneDimensionalArray(TreeNode, len(elements), elements)
+        else:
+            raise ValueError(f'Expected a list/tuple/Array of TreeNode got {type(elements)}')
+        obj.heap = elements
+        obj._last_pos_filled = obj.heap._last_pos_filled
+        obj._build()
+        return obj
+
+    @classmethod
+    def methods(cls):
+        return ['__new__', 'insert', 'extract', '__str__', 'is_empty']
+
+    def _build(self):
+        for i in range(self._last_pos_filled + 1):
+            self.heap[i]._leftmost, self.heap[i]._rightmost = \
+                self.d*i + 1, self.d*i + self.d
+        for i in range((self._last_pos_filled + 1)//self.d, -1, -1):
+            self._heapify(i)
+
+    def _swap(self, idx1, idx2):
+        idx1_key, idx1_data = \
+            self.heap[idx1].key, self.heap[idx1].data
+        self.heap[idx1].key, self.heap[idx1].data = \
+            self.heap[idx2].key, self.heap[idx2].data
+        self.heap[idx2].key, self.heap[idx2].data = \
+            idx1_key, idx1_data
+
+    def _heapify(self, i):
+        while True:
+            target = i
+            l = self.d*i + 1
+            r = self.d*i + self.d
+
+            for j in range(l, r+1):
+                if j <= self._last_pos_filled:
+                    target = j if self._comp(self.heap[j].key, self.heap[target].key) \
+                            else target
+                else:
+                    break
+
+            if target != i:
+                self._swap(target, i)
+                i = target
+            else:
+                break
+
+    def insert(self, key, data=None):
+        """
+        Insert a new element to the heap according to heap property.
+
+        Parameters
+        ==========
+
+        key
+            The key for comparison.
+        data
+            The data to be inserted.
+
+        Returns
+        =======
+
+        None
+        """
+        new_node = TreeNode(key, data)
+        self.heap.append(new_node)
+        self._last_pos_filled += 1
+        i = self._last_pos_filled
+        self.heap[i]._leftmost, self.heap[i]._rightmost = self.d*i + 1, self.d*i + self.d
+
+        while True:
+            parent = (i - 1)//self.d
+            if i == 0 or self._comp(self.heap[parent].key, self.heap[i].key):
+                break
+            else:
+                self._swap(i, parent)
+                i = parent
+
+    def extract(self):
+        """
+        Extract root element of the Heap.
+
+        Returns
+        =======
+
+        root_element: TreeNode
+            The TreeNode at the root of the heap,
+            if the heap is not empty.
+
+        None
+            If the heap is empty.
+        """
+        if self._last_pos_filled == -1:
+            raise IndexError("Heap is empty.")
+        else:
+            element_to_be_extracted = TreeNode(self.heap[0].key, self.heap[0].data)
+            self._swap(0, self._last_pos_filled)
+            self.heap.delete(self._last_pos_filled)
+            self._last_pos_filled -= 1
+            self._heapify(0)
+            return element_to_be_extracted
+
+    def __str__(self):
+        to_be_printed = ['' for i in range(self._last_pos_filled + 1)]
+        for i in range(self._last_pos_filled + 1):
+            node = self.heap[i]
+            if node._leftmost <= self._last_pos_filled:
+                if node._rightmost <= self._last_pos_filled:
+                    children = list(range(node._leftmost, node._rightmost + 1))
+                else:
+                    children = list(range(node._leftmost, self._last_pos_filled + 1))
+            else:
+                children = []
+            to_be_printed[i] = (node.key, node.data, children)
+        return str(to_be_printed)
+
+    @property
+    def is_empty(self):
+        """
+        Checks if the heap is empty.
+        """
+        return self.heap._last_pos_filled == -1
+
+
+class BinaryHeap(DHeap):
+    """
+    Represents Binary Heap.
+
+    Parameters
+    ==========
+
+    elements: list, tuple
+        Optional, by default 'None'.
+        List/tuple of initial elements in Heap.
+    heap_property: str
+        If the key stored in each node is
+        either greater than or equal to
+        the keys in the node's children
+        then pass 'max'.
+        If the key stored in each node is
+        either less than or equal to
+        the keys in the node's children
+        then pass 'min'.
+        By default, the heap property is
+        set to 'min'.
+    backend: pydatastructs.Backend
+        The backend to be used.
+        Optional, by default, the best available
+        backend is used.
+
+    Examples
+    ========
+
+    >>> from pydatastructs.trees.heaps import BinaryHeap
+    >>> min_heap = BinaryHeap(heap_property="min")
+    >>> min_heap.insert(1, 1)
+    >>> min_heap.insert(5, 5)
+    >>> min_heap.insert(7, 7)
+    >>> min_heap.extract().key
+    1
+    >>> min_heap.insert(4, 4)
+    >>> min_heap.extract().key
+    4
+
+    >>> max_heap = BinaryHeap(heap_property='max')
+    >>> max_heap.insert(1, 1)
+    >>> max_heap.insert(5, 5)
+    >>> max_heap.insert(7, 7)
+    >>> max_heap.extract().key
+    7
+    >>> max_heap.insert(6, 6)
+    >>> max_heap.extract().key
+    6
+
+    References
+    ==========
+
+    .. [1] https://en.m.wikipedia.org/wiki/Binary_heap
+    """
+    def __new__(cls, elements=None, heap_property="min",
+                **kwargs):
+        raise_if_backend_is_not_python(
+            cls, kwargs.get('backend', Backend.PYTHON))
+        obj = DHeap.__new__(cls, elements, heap_property, 2)
+        return obj
+
+    @classmethod
+    def methods(cls):
+        return ['__new__']
+
+
+class TernaryHeap(DHeap):
+    """
+    Represents Ternary Heap.
+
+    Parameters
+    ==========
+
+    elements: list, tuple
+        Optional, by default 'None'.
+        List/tuple of initial elements in Heap.
+    heap_property: str
+        If the key stored in each node is
+        either greater than or equal to
+        the keys in the node's children
+        then pass 'max'.
+        If the key stored in each node is
+        either less than or equal to
+        the keys in the node's children
+        then pass 'min'.
+        By default, the heap property is
+        set to 'min'.
+    backend: pydatastructs.Backend
+        The backend to be used.
+        Optional, by default, the best available
+        backend is used.
+
+    Examples
+    ========
+
+    >>> from pydatastructs.trees.heaps import TernaryHeap
+    >>> min_heap = TernaryHeap(heap_property="min")
+    >>> min_heap.insert(1, 1)
+    >>> min_heap.insert(5, 5)
+    >>> min_heap.insert(7, 7)
+    >>> min_heap.insert(3, 3)
+    >>> min_heap.extract().key
+    1
+    >>> min_heap.insert(4, 4)
+    >>> min_heap.extract().key
+    3
+
+    >>> max_heap = TernaryHeap(heap_property='max')
+    >>> max_heap.insert(1, 1)
+    >>> max_heap.insert(5, 5)
+    >>> max_heap.insert(7, 7)
+    >>> min_heap.insert(3, 3)
+    >>> max_heap.extract().key
+    7
+    >>> max_heap.insert(6, 6)
+    >>> max_heap.extract().key
+    6
+
+    References
+    ==========
+
+    .. [1] https://en.wikipedia.org/wiki/D-ary_heap
+    .. [2] https://ece.uwaterloo.ca/~dwharder/aads/Algorithms/d-ary_heaps/Ternary_heaps/
+    """
+    def __new__(cls, elements=None, heap_property="min",
+                **kwargs):
+        raise_if_backend_is_not_python(
+            cls, kwargs.get('backend', Backend.PYTHON))
+        obj = DHeap.__new__(cls, elements, heap_property, 3)
+        return obj
+
+    @classmethod
+    def methods(cls):
+        return ['__new__']
+
+
+class BinomialHeap(Heap):
+    """
+    Represents binomial heap.
+
+    Parameters
+    ==========
+
+    root_list: list/tuple/Array
+        By default, []
+        The list of BinomialTree object references
+        in sorted order.
+    backend: pydatastructs.Backend
+        The backend to be used.
+        Optional, by default, the best available
+        backend is used.
+
+    Examples
+    ========
+
+    >>> from pydatastructs import BinomialHeap
+    >>> b = BinomialHeap()
+    >>> b.insert(1, 1)
+    >>> b.insert(2, 2)
+    >>> b.find_minimum().key
+    1
+    >>> b.find_minimum().children[0].key
+    2
+
+    References
+    ==========
+
+    .. [1] https://en.wikipedia.org/wiki/Binomial_heap
+    """
+    __slots__ = ['root_list']
+
+    def __new__(cls, root_list=None, **kwargs):
+        raise_if_backend_is_not_python(
+            cls, kwargs.get('backend', Backend.PYTHON))
+        if root_list is None:
+            root_list = []
+        if not all((_check_type(root, BinomialTree))
+                for root in root_list):
+                    raise TypeError("The root_list should contain "
+                                    "references to objects of BinomialTree.")
+        obj = Heap.__new__(cls)
+        obj.root_list = root_list
+        return obj
+
+    @classmethod
+    def methods(cls):
+        return ['__new__', 'merge_tree', 'merge', 'insert',
+        'find_minimum', 'is_emtpy', 'decrease_key', 'delete',
+        'delete_minimum']
+
+    def merge_tree(self, tree1, tree2):
+        """
+        Merges two BinomialTree objects.
+
+        Parameters
+        ==========
+
+        tree1: BinomialTree
+
+        tree2: BinomialTree
+        """
+        if (not _check_type(tree1, BinomialTree)) or \
+            (not _check_type(tree2, BinomialTree)):
+            raise TypeError("Both the trees should be of type "
+                            "BinomalTree.")
+        ret_value = None
+        if tree1.root.key <= tree2.root.key:
+            tree1.add_sub_tree(tree2)
+            ret_value = tree1
+        else:
+            tree2.add_sub_tree(tree1)
+            ret_value = tree2
+        return ret_value
+
+    def _merge_heap_last_new_tree(self, new_root_list, new_tree):
+        """
+        Merges last tree node in root list with the incoming tree.
+        """
+        pos = -1
+        if len(new_root_list) > 0 and new_root_list[pos].order == new_tree.order:
+            new_root_list[pos] = self.merge_tree(new_root_list[pos], new_tree)
+        else:
+            new_root_list.append(new_tree)
+
+    def merge(self, other_heap):
+        """
+        Merges current binomial heap with the given binomial heap.
+
+        Parameters
+        ==========
+
+        other_heap: BinomialHeap
+        """
+        if not _check_type(other_heap, BinomialHeap):
+            raise TypeError("Other heap is not of type BinomialHeap.")
+        new_root_list = []
+        i, j = 0, 0
+        while (i < len(self.root_list)) and \
+              (j < len(other_heap.root_list)):
+            new_tree = None
+            while self.root_list[i] is None:
+                i += 1
+            while other_heap.root_list[j] is None:
+                j += 1
+            if self.root_list[i].order == other_heap.root_list[j].order:
+                new_tree = self.merge_tree(self.root_list[i],
+                                           other_heap.root_list[j])
+                i += 1
+                j += 1
+            else:
+                if self.root_list[i].order < other_heap.root_list[j].order:
+                    new_tree = self.root_list[i]
+                    i += 1
+                else:
+                    new_tree = other_heap.root_list[j]
+                    j += 1
+            self._merge_heap_last_new_tree(new_root_list, new_tree)
+
+        while i < len(self.root_list):
+            new_tree = self.root_list[i]
+            self._merge_heap_last_new_tree(new_root_list, new_tree)
+            i += 1
+        while j < len(other_heap.root_list):
+            new_tree = other_heap.root_list[j]
+            self._merge_heap_last_new_tree(new_root_list, new_tree)
+            j += 1
+        self.root_list = new_root_list
+
+    def insert(self, key, data=None):
+        """
+        Inserts new node with the given key and data.
+
+        key
+            The key of the node which can be operated
+            upon by relational operators.
+
+        data
+            The data to be stored in the new node.
+        """
+        new_node = BinomialTreeNode(key, data)
+        new_tree = BinomialTree(root=new_node, order=0)
+        new_heap = BinomialHeap(root_list=[new_tree])
+        self.merge(new_heap)
+
+    def find_minimum(self, **kwargs):
+        """
+        Finds the node with the minimum key.
+
+        Returns
+        =======
+
+        min_node: BinomialTreeNode
+        """
+        if self.is_empty:
+            raise IndexError("Binomial heap is empty.")
+        min_node = None
+        idx, min_idx = 0, None
+        for tree in self.root_list:
+            if ((min_node is None) or
+                (tree is not None and tree.root is not None and
+                 min_node.key > tree.root.key)):
+                min_node = tree.root
+                min_idx = idx
+            idx += 1
+        if kwargs.get('get_index', None) is not None:
+            return min_node, min_idx
+        return min_node
+
+    def delete_minimum(self):
+        """
+        Deletes the node with minimum key.
+        """
+        min_node, min_idx = self.find_minimum(get_index=True)
+        child_root_list = []
+        for k, child in enumerate(min_node.children):
+            if child is not None:
+                child_root_list.append(BinomialTree(root=child, order=k))
+        self.root_list.remove(self.root_list[min_idx])
+        child_heap = BinomialHeap(root_list=child_root_list)
+        self.merge(child_heap)
+
+    @property
+    def is_empty(self):
+        return not self.root_list
+
+    def decrease_key(self, node, new_key):
+        """
+        Decreases the key of the given node.
+
+        Parameters
+        ==========
+
+        node: BinomialTreeNode
+            The node whose key is to be reduced.
+        new_key
+            The new key of the given node,
+            should be less than the current key.
+        """
+        if node.key <= new_key:
+            raise ValueError("The new key "
+            "should be less than current node's key.")
+        node.key = new_key
+        while ((not node.is_root) and
+               (node.parent.key > node.key)):
+            node.parent.key, node.key = \
+                node.key, node.parent.key
+            node.parent.data, node.data = \
+                node.data, node.parent.data
+            node = node.parent
+
+    def delete(self, node):
+        """
+        Deletes the given node.
+
+        Parameters
+        ==========
+
+        node: BinomialTreeNode
+            The node which is to be deleted.
+        """
+        self.decrease_key(node, self.find_minimum().key - 1)
+        self.delete_minimum()
-- 
2.43.0


From 670a5fe934c9060df725c50426756fdfa2448599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:18 +0000
Subject: [PATCH 30/85] fix: search trees lost nodes or crashed when used after
 deletions

---
 .../linear_data_structures/arrays.py          |  7 +++++++
 pydatastructs/trees/binary_trees.py           | 19 ++++++++++++-------
 2 files changed, 19 insertions(+), 7 deletions(-)

diff --git a/pydatastructs/linear_data_structures/arrays.py b/pydatastructs/linear_data_structures/arrays.py
index f0f3399..00838cf 100644
--- a/pydatastructs/linear_data_structures/arrays.py
+++ b/pydatastructs/linear_data_structures/arrays.py
@@ -469,3 +469,10 @@ class ArrayForTrees(DynamicOneDimensionalArray):
             self._size = arr_new._size
             return new_indices
         return None
+
+    def append(self, el):
+        # Nodes refer to each other by position, so appending
+        # should never move the ones which are already present.
+        load_factor, self._load_factor = self._load_factor, 0.0
+        super().append(el)
+        self._load_factor = load_factor
diff --git a/pydatastructs/trees/binary_trees.py b/pydatastructs/trees/binary_trees.py
index 48446d1..fbdc83e 100644
--- a/pydatastructs/trees/binary_trees.py
+++ b/pydatastructs/trees/binary_trees.py
@@ -255,7 +255,7 @@ class BinarySearchTree(BinaryTree):
                 if self.tree[walk].right is None:
                     new_node.parent = prev_node
                     self.tree.append(new_node)
-                    self.tree[walk].right = self.size
+                    self.tree[walk].right = self.tree._last_pos_filled
                     self.size += 1
                     flag = False
                 prev_node = walk = self.tree[walk].right
@@ -263,7 +263,7 @@ class BinarySearchTree(BinaryTree):
                 if self.tree[walk].left is None:
                     new_node.parent = prev_node
                     self.tree.append(new_node)
-                    self.tree[walk].left = self.size
+                    self.tree[walk].left = self.tree._last_pos_filled
                     self.size += 1
                     flag = False
                 prev_node = walk = self.tree[walk].left
@@ -274,7 +274,7 @@ class BinarySearchTree(BinaryTree):
         parent = None
         walk = self.root_idx
         if self.tree[walk].key is None:
-            return None
+            return (None, None) if ret_parent else None
         while walk is not None:
             if self.tree[walk].key == key:
                 break
@@ -439,10 +439,15 @@ class BinarySearchTree(BinaryTree):
                 self.tree[self.root_idx].data = self.tree[child].data
                 self.tree[self.root_idx].key = self.tree[child].key
                 self.tree[self.root_idx].parent = None
+                self.tree[self.root_idx].height = self.tree[child].height
+                for grand_child in (self.tree[child].left, self.tree[child].right):
+                    if grand_child is not None:
+                        self.tree[grand_child].parent = self.root_idx
                 root_key = self.tree[self.root_idx].key
                 new_indices = self.tree.delete(child)
                 if new_indices is not None:
                     self.root_idx = new_indices[root_key]
+                self._update_size(self.root_idx)
             else:
                 if self.tree[parent].left == walk:
                     self.tree[parent].left = child
@@ -454,8 +459,6 @@ class BinarySearchTree(BinaryTree):
                                      self.tree[self.root_idx].key)
                 new_indices = self.tree.delete(walk)
                 if new_indices is not None:
-                    parent = new_indices[par_key]
-                    self.tree[child].parent = new_indices[par_key]
                     a = new_indices[par_key]
                     self.root_idx = new_indices[root_key]
                 self._update_size(a)
@@ -1030,7 +1033,8 @@ class AVLTree(SelfBalancingBinaryTree):
 
     def insert(self, key, data=None):
         super(AVLTree, self).insert(key, data)
-        self._balance_insertion(self.size - 1, self.tree[self.size-1].parent)
+        idx = self.search(key)
+        self._balance_insertion(idx, self.tree[idx].parent)
 
     def _balance_deletion(self, start_idx, key):
         walk = start_idx
@@ -1057,6 +1061,8 @@ class AVLTree(SelfBalancingBinaryTree):
 
 
     def delete(self, key, **kwargs):
+        if self.search(key) is None:
+            return None
         a = super(AVLTree, self).delete(key, balancing_info=True)
         self._balance_deletion(a, key)
         return True
@@ -1125,7 +1131,6 @@ class SplayTree(SelfBalancingBinaryTree):
     def insert(self, key, x):
         super(SelfBalancingBinaryTree, self).insert(key, x)
         e, p = super(SelfBalancingBinaryTree, self).search(key, parent=True)
-        self.tree[self.size-1].parent = p
         self.splay(e, p)
 
     def delete(self, x):
-- 
2.43.0


From db0fbbfd1fb56714dc3e2aee2de122ea45391930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:45 +0000
Subject: [PATCH 31/85] fix: lowest common ancestors were wrong when a queried
 key was at the root or at position 0

---
 pydatastructs/trees/binary_trees.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pydatastructs/trees/binary_trees.py b/pydatastructs/trees/binary_trees.py
index fbdc83e..e1d30f1 100644
--- a/pydatastructs/trees/binary_trees.py
+++ b/pydatastructs/trees/binary_trees.py
@@ -569,18 +569,17 @@ class BinarySearchTree(BinaryTree):
             if self.tree[node].key == key:
                 node_idx = node
                 break
-            if self.tree[node].left:
+            if self.tree[node].left is not None:
                 stack.push(self.tree[node].left)
-            if self.tree[node].right:
+            if self.tree[node].right is not None:
                 stack.push(self.tree[node].right)
 
         if node_idx == -1:
             return path
 
-        while node_idx != 0:
+        while node_idx is not None:
             path.append(node_idx)
             node_idx = self.tree[node_idx].parent
-        path.append(0)
         path.reverse()
 
         return path
@@ -610,6 +609,8 @@ class BinarySearchTree(BinaryTree):
         if (u is None) or (v is None):
             raise ValueError("One of the nodes with key %s "
                              "or %s doesn't exits"%(j, k))
+        if curr_root in (u, v):
+            return self.tree[curr_root].key
         u_left = self.comparator(self.tree[u].key, \
             self.tree[curr_root].key)
         v_left = self.comparator(self.tree[v].key, \
-- 
2.43.0


From 6227bb7957d1d62ae6ecba8c0e846109aeb01875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:24 +0000
Subject: [PATCH 32/85] fix: red-black trees broke on repeated insertions,
 relocated nodes and given roots

---
 pydatastructs/trees/binary_trees.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/pydatastructs/trees/binary_trees.py b/pydatastructs/trees/binary_trees.py
index e1d30f1..6e9d2e1 100644
--- a/pydatastructs/trees/binary_trees.py
+++ b/pydatastructs/trees/binary_trees.py
@@ -1249,7 +1249,13 @@ class RedBlackTree(SelfBalancingBinaryTree):
             if comp is None:
                 comp = lambda key1, key2: key1 < key2
             return _trees.RedBlackTree(key, root_data, comp, is_order_statistic, **kwargs) # If any argument is not given, then it is passed as None, except for comp
-        return super().__new__(cls, key, root_data, comp, is_order_statistic, **kwargs)
+        obj = super().__new__(cls, key, root_data, comp, is_order_statistic, **kwargs)
+        root = obj.tree[obj.root_idx]
+        if root.key is not None:
+            obj.tree[obj.root_idx] = RedBlackTreeNode(root.key, root.data)
+            obj.tree[obj.root_idx].is_root = True
+            obj.tree[obj.root_idx].color = 0
+        return obj
 
     @classmethod
     def methods(cls):
@@ -1326,7 +1332,10 @@ class RedBlackTree(SelfBalancingBinaryTree):
         self.tree[self.root_idx].color=0
 
     def insert(self, key, data=None):
+        is_present = super(RedBlackTree, self).search(key) is not None
         super(RedBlackTree, self).insert(key, data)
+        if is_present:
+            return None
         node_idx = super(RedBlackTree, self).search(key)
         node = self.tree[node_idx]
         new_node = RedBlackTreeNode(key, data)
@@ -1492,6 +1501,9 @@ class RedBlackTree(SelfBalancingBinaryTree):
             parent = self._get_parent(node_idx)
             par_key, root_key = (self.tree[parent].key, self.tree[self.root_idx].key)
             new_indices = self.tree.delete(node_idx)
+            if new_indices is not None:
+                a = new_indices[par_key]
+                self.root_idx = new_indices[root_key]
         self._update_size(a)
 
     def _delete_root(self, node_idx, node_idx1):
@@ -1503,6 +1515,7 @@ class RedBlackTree(SelfBalancingBinaryTree):
             new_indices = self.tree.delete(node_idx1)
             if new_indices is not None:
                 self.root_idx = new_indices[root_key]
+            self._update_size(self.root_idx)
 
     def __leaf_case(self, node_idx, node_idx1):
         walk = node_idx
@@ -1537,7 +1550,9 @@ class RedBlackTree(SelfBalancingBinaryTree):
             else:
                 self.tree[parent].right = walk1
             self.tree[walk1].parent = parent
+            walk1_key = self.tree[walk1].key
             a = self._remove_node(walk)
+            walk1 = super(RedBlackTree, self).search(walk1_key)
             if self.__walk1_walk_isblack(walk_original_color, walk1):
                 self.__fix_deletion(walk1)
             else:
-- 
2.43.0


From 42ff0c63c948773d7413880fd15e4d6973e2ce43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:17 +0000
Subject: [PATCH 33/85] fix: order statistics were wrong in red-black and splay
 trees and in emptied trees

---
 pydatastructs/trees/binary_trees.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/pydatastructs/trees/binary_trees.py b/pydatastructs/trees/binary_trees.py
index 6e9d2e1..9f96804 100644
--- a/pydatastructs/trees/binary_trees.py
+++ b/pydatastructs/trees/binary_trees.py
@@ -491,9 +491,10 @@ class BinarySearchTree(BinaryTree):
         i -= 1 # The algorithm is based on zero indexing
         if i < 0:
             raise ValueError("Expected a positive integer, got %d"%(i + 1))
-        if i >= self.tree._num:
+        num = self.tree._num if self.tree[self.root_idx].key is not None else 0
+        if i >= num:
             raise ValueError("%d is greater than the size of the "
-                "tree which is, %d"%(i + 1, self.tree._num))
+                "tree which is, %d"%(i + 1, num))
         walk = self.root_idx
         while walk is not None:
             l = self.left_size(self.tree[walk])
@@ -695,6 +696,13 @@ class SelfBalancingBinaryTree(BinarySearchTree):
             return _trees.SelfBalancingBinaryTree(key, root_data, comp, is_order_statistic, **kwargs) # If any argument is not given, then it is passed as None, except for comp
         return super().__new__(cls, key, root_data, comp, is_order_statistic, **kwargs)
 
+    def _restore_sizes(self, *nodes):
+        # The nodes taking part in a rotation, children before their parents.
+        if self.is_order_statistic:
+            for node in nodes:
+                self.tree[node].size = (self.left_size(self.tree[node]) +
+                                        self.right_size(self.tree[node]) + 1)
+
     def _right_rotate(self, j, k):
         y = self.tree[k].right
         if y is not None:
@@ -711,6 +719,7 @@ class SelfBalancingBinaryTree(BinarySearchTree):
         kp = self.tree[k].parent
         if kp is None:
             self.root_idx = k
+        self._restore_sizes(j, k)
 
     def _left_right_rotate(self, j, k):
         i = self.tree[k].right
@@ -731,6 +740,7 @@ class SelfBalancingBinaryTree(BinarySearchTree):
                 self.tree[ip].right = i
         else:
             self.root_idx = i
+        self._restore_sizes(j, k, i)
 
     def _right_left_rotate(self, j, k):
         i = self.tree[k].left
@@ -751,6 +761,7 @@ class SelfBalancingBinaryTree(BinarySearchTree):
                 self.tree[ip].right = i
         else:
             self.root_idx = i
+        self._restore_sizes(j, k, i)
 
     def _left_rotate(self, j, k):
         y = self.tree[k].left
@@ -768,6 +779,7 @@ class SelfBalancingBinaryTree(BinarySearchTree):
         kp = self.tree[k].parent
         if kp is None:
             self.root_idx = k
+        self._restore_sizes(j, k)
 
 class CartesianTree(SelfBalancingBinaryTree):
     """
@@ -1342,6 +1354,7 @@ class RedBlackTree(SelfBalancingBinaryTree):
         new_node.parent = node.parent
         new_node.left = node.left
         new_node.right = node.right
+        new_node.size = node.size
         self.tree[node_idx] = new_node
         if node.is_root:
             self.tree[node_idx].is_root = True
-- 
2.43.0


From fa94951369fa8ea75c985e28d9247700005861d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:17 +0000
Subject: [PATCH 34/85] fix: the comparison function given to a tree was never
 called

---
 pydatastructs/trees/binary_trees.py | 2 +-
 pydatastructs/trees/m_ary_trees.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pydatastructs/trees/binary_trees.py b/pydatastructs/trees/binary_trees.py
index 9f96804..df11dba 100644
--- a/pydatastructs/trees/binary_trees.py
+++ b/pydatastructs/trees/binary_trees.py
@@ -70,7 +70,7 @@ class BinaryTree(object):
         root.is_root = True
         obj.root_idx = 0
         obj.tree, obj.size = ArrayForTrees(TreeNode, [root]), 1
-        obj.comparator = lambda key1, key2: key1 < key2 \
+        obj.comparator = (lambda key1, key2: key1 < key2) \
                         if comp is None else comp
         obj.is_order_statistic = is_order_statistic
         return obj
diff --git a/pydatastructs/trees/m_ary_trees.py b/pydatastructs/trees/m_ary_trees.py
index a06fda9..11ef37d 100644
--- a/pydatastructs/trees/m_ary_trees.py
+++ b/pydatastructs/trees/m_ary_trees.py
@@ -59,7 +59,7 @@ class MAryTree(object):
         obj.root_idx = 0
         obj.max_children = max_children
         obj.tree, obj.size = ArrayForTrees(MAryTreeNode, [root]), 1
-        obj.comparator = lambda key1, key2: key1 < key2 \
+        obj.comparator = (lambda key1, key2: key1 < key2) \
                         if comp is None else comp
         obj.is_order_statistic = is_order_statistic
         return obj
-- 
2.43.0


From 56a28704aff951d9afe0e3772be172a3013760d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:07 +0000
Subject: [PATCH 35/85] fix: Cartesian trees and treaps crashed or lost heap
 order on repeated insertions and after being emptied

---
 pydatastructs/trees/binary_trees.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/pydatastructs/trees/binary_trees.py b/pydatastructs/trees/binary_trees.py
index df11dba..c98c709 100644
--- a/pydatastructs/trees/binary_trees.py
+++ b/pydatastructs/trees/binary_trees.py
@@ -861,6 +861,9 @@ class CartesianTree(SelfBalancingBinaryTree):
             node = self.tree[node_idx]
 
     def insert(self, key, priority, data=None):
+        if super(CartesianTree, self).search(key) is not None:
+            # The priority may differ, so the node is placed afresh.
+            self.delete(key)
         super(CartesianTree, self).insert(key, data)
         node_idx = super(CartesianTree, self).search(key)
         node = self.tree[node_idx]
@@ -868,8 +871,9 @@ class CartesianTree(SelfBalancingBinaryTree):
         new_node.parent = node.parent
         new_node.left = node.left
         new_node.right = node.right
+        new_node.size = node.size
         self.tree[node_idx] = new_node
-        if node.is_root:
+        if node.parent is None:
             self.tree[node_idx].is_root = True
         else:
             self._bubble_up(node_idx)
@@ -926,7 +930,12 @@ class Treap(CartesianTree):
             if comp is None:
                 comp = lambda key1, key2: key1 < key2
             return _trees.Treap(key, root_data, comp, is_order_statistic, **kwargs) # If any argument is not given, then it is passed as None, except for comp
-        return super().__new__(cls, key, root_data, comp, is_order_statistic, **kwargs)
+        obj = super().__new__(cls, key, root_data, comp, is_order_statistic, **kwargs)
+        root = obj.tree[obj.root_idx]
+        if root.key is not None:
+            obj.tree[obj.root_idx] = CartesianTreeNode(root.key, random.random(), root.data)
+            obj.tree[obj.root_idx].is_root = True
+        return obj
 
     @classmethod
     def methods(cls):
-- 
2.43.0


From 37fc7d4b13d63626253936a469719d44e52db203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:29 +0000
Subject: [PATCH 36/85] fix: splay tree join and split lost links and order
 statistics; post-order traversal failed on relocated nodes

---
 pydatastructs/trees/binary_trees.py | 37 +++++++++++++++++++++++------
 1 file changed, 30 insertions(+), 7 deletions(-)

diff --git a/pydatastructs/trees/binary_trees.py b/pydatastructs/trees/binary_trees.py
index c98c709..063d788 100644
--- a/pydatastructs/trees/binary_trees.py
+++ b/pydatastructs/trees/binary_trees.py
@@ -1175,30 +1175,46 @@ class SplayTree(SelfBalancingBinaryTree):
             SplayTree which needs to be joined with the self tree.
 
         """
+        if other.tree[other.root_idx].key is None:
+            return None
         maxm = self.root_idx
         while self.tree[maxm].right is not None:
             maxm = self.tree[maxm].right
         minm = other.root_idx
         while other.tree[minm].left is not None:
             minm = other.tree[minm].left
-        if not self.comparator(self.tree[maxm].key,
-                                other.tree[minm].key):
+        is_empty = self.tree[self.root_idx].key is None
+        if not is_empty and not self.comparator(self.tree[maxm].key,
+                                                other.tree[minm].key):
             raise ValueError("Elements of %s aren't less "
                              "than that of %s"%(self, other))
         self.splay(maxm, self.tree[maxm].parent)
-        idx_update = self.tree._size
+        idx_update = self.tree._last_pos_filled + 1
         for node in other.tree:
             if node is not None:
                 node_copy = TreeNode(node.key, node.data)
+                node_copy.size = node.size
                 if node.left is not None:
                     node_copy.left = node.left + idx_update
                 if node.right is not None:
                     node_copy.right = node.right + idx_update
+                if node.parent is not None:
+                    node_copy.parent = node.parent + idx_update
                 self.tree.append(node_copy)
             else:
                 self.tree.append(node)
-        self.tree[self.root_idx].right = \
-            other.root_idx + idx_update
+                self.tree._num -= 1
+        if is_empty:
+            root_key = other.tree[other.root_idx].key
+            new_indices = self.tree.delete(self.root_idx)
+            self.root_idx = other.root_idx + idx_update
+            if new_indices is not None:
+                self.root_idx = new_indices[root_key]
+        else:
+            self.tree[self.root_idx].right = \
+                other.root_idx + idx_update
+            self.tree[other.root_idx + idx_update].parent = self.root_idx
+            self._update_size(self.root_idx)
 
     def split(self, x):
         """
@@ -1223,7 +1239,8 @@ class SplayTree(SelfBalancingBinaryTree):
         if e is None:
             return
         self.splay(e, p)
-        other = SplayTree(None, None)
+        other = SplayTree(None, None, comp=self.comparator,
+                          is_order_statistic=self.is_order_statistic)
         if self.tree[self.root_idx].right is not None:
             traverse = BinaryTreeTraversal(self)
             elements = traverse.depth_first_search(order='pre_order', node=self.tree[self.root_idx].right)
@@ -1232,7 +1249,13 @@ class SplayTree(SelfBalancingBinaryTree):
             for j in range(len(elements) - 1, -1, -1):
                 e, p = super(SelfBalancingBinaryTree, self).search(elements[j].key, parent=True)
                 self.tree[e] = None
+                self.tree._num -= 1
             self.tree[self.root_idx].right = None
+            root_key = self.tree[self.root_idx].key
+            new_indices = self.tree._modify()
+            if new_indices is not None:
+                self.root_idx = new_indices[root_key]
+            self._update_size(self.root_idx)
         return other
 
 class RedBlackTree(SelfBalancingBinaryTree):
@@ -1706,7 +1729,7 @@ class BinaryTreeTraversal(object):
         of a binary tree using iterative algorithm.
         """
         visit = []
-        tree, size = self.tree.tree, self.tree.size
+        tree, size = self.tree.tree, self.tree.tree.size
         s = Stack()
         s.push(node)
         last = OneDimensionalArray(int, size)
-- 
2.43.0


From 6484c98894b94ffa1bf6bd3812975e5f6f07647a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:45 +0000
Subject: [PATCH 37/85] fix: removed edges were still counted in matrices and
 weights outlived removed vertices

---
 pydatastructs/graphs/adjacency_list.py   | 3 +++
 pydatastructs/graphs/adjacency_matrix.py | 2 +-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/pydatastructs/graphs/adjacency_list.py b/pydatastructs/graphs/adjacency_list.py
index bd901b3..6373bf6 100644
--- a/pydatastructs/graphs/adjacency_list.py
+++ b/pydatastructs/graphs/adjacency_list.py
@@ -66,6 +66,9 @@ class AdjacencyList(Graph):
             if hasattr(node_obj, name):
                 delattr(node_obj, name)
                 node_obj.adjacent.remove(name)
+        for key, edge in list(self.edge_weights.items()):
+            if name in (edge.source.name, edge.target.name):
+                self.edge_weights.pop(key)
 
     def add_edge(self, source, target, cost=None):
         source, target = str(source), str(target)
diff --git a/pydatastructs/graphs/adjacency_matrix.py b/pydatastructs/graphs/adjacency_matrix.py
index 9c2326b..00b1853 100644
--- a/pydatastructs/graphs/adjacency_matrix.py
+++ b/pydatastructs/graphs/adjacency_matrix.py
@@ -96,5 +96,5 @@ class AdjacencyMatrix(Graph):
 
     def remove_edge(self, source, target):
         source, target = str(source), str(target)
-        self.matrix[source][target] = False
+        self.matrix[source].pop(target, None)
         self.edge_weights.pop(str(source) + "_" + str(target), None)
-- 
2.43.0


From 3cb0144ef674aff4b5039203a5382a0901cd1de5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:45 +0000
Subject: [PATCH 38/85] fix: C++ graphs gave out edges they did not own and
 mixed up edges of vertices with underscores

---
 pydatastructs/graphs/_backend/cpp/AdjacencyList.hpp   | 10 +++++-----
 pydatastructs/graphs/_backend/cpp/AdjacencyMatrix.hpp |  7 ++++++-
 2 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/pydatastructs/graphs/_backend/cpp/AdjacencyList.hpp b/pydatastructs/graphs/_backend/cpp/AdjacencyList.hpp
index ffbb6f4..03a459c 100644
--- a/pydatastructs/graphs/_backend/cpp/AdjacencyList.hpp
+++ b/pydatastructs/graphs/_backend/cpp/AdjacencyList.hpp
@@ -220,10 +220,8 @@ static PyObject* AdjacencyListGraph_remove_vertex(AdjacencyListGraph* self, PyOb
     }
 
     for (auto it = self->edges.begin(); it != self->edges.end(); ) {
-        const std::string& key = it->first;
-        size_t underscore = key.find('_');
-        std::string src = key.substr(0, underscore);
-        std::string dst = key.substr(underscore + 1);
+        const std::string& src = reinterpret_cast<AdjacencyListGraphNode*>(it->second->source)->name;
+        const std::string& dst = reinterpret_cast<AdjacencyListGraphNode*>(it->second->target)->name;
 
         if (src == name || dst == name) {
             Py_XDECREF(it->second);
@@ -324,7 +322,9 @@ static PyObject* AdjacencyListGraph_add_edge(AdjacencyListGraph* self, PyObject*
     std::string key = make_edge_key(source, target);
 
     auto it = self->edges.find(key);
-    if (it != self->edges.end()) {
+    if (it != self->edges.end() && value == Py_None) {
+        Py_DECREF(edge_obj);
+    } else if (it != self->edges.end()) {
         Py_XDECREF(it->second);
         it->second = reinterpret_cast<GraphEdge*>(edge_obj);
     } else {
diff --git a/pydatastructs/graphs/_backend/cpp/AdjacencyMatrix.hpp b/pydatastructs/graphs/_backend/cpp/AdjacencyMatrix.hpp
index 7bd89d5..3eaa49f 100644
--- a/pydatastructs/graphs/_backend/cpp/AdjacencyMatrix.hpp
+++ b/pydatastructs/graphs/_backend/cpp/AdjacencyMatrix.hpp
@@ -144,7 +144,11 @@ static PyObject* AdjacencyMatrixGraph_remove_edge(AdjacencyMatrixGraph* self, Py
 
     if (self->matrix.find(src) != self->matrix.end()) {
         self->matrix[src][dst] = false;
-        self->edge_weights.erase(src + "_" + dst);
+        auto it = self->edge_weights.find(src + "_" + dst);
+        if (it != self->edge_weights.end()) {
+            Py_XDECREF(it->second);
+            self->edge_weights.erase(it);
+        }
     }
 
     Py_RETURN_NONE;
@@ -202,6 +206,7 @@ static PyObject* AdjacencyMatrixGraph_get_edge(AdjacencyMatrixGraph* self, PyObj
     std::string key = std::string(source) + "_" + std::string(target);
     auto it = self->edge_weights.find(key);
     if (it != self->edge_weights.end()) {
+        Py_INCREF(it->second);
         return reinterpret_cast<PyObject*>(it->second);
     }
     Py_RETURN_NONE;
-- 
2.43.0


From 56a87387cc450a3f224ba9680013a4cd61c47eec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:45 +0000
Subject: [PATCH 39/85] fix: parallel breadth first search never ended on
 cycles and ignored results of the operation

---
 pydatastructs/graphs/algorithms.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pydatastructs/graphs/algorithms.py b/pydatastructs/graphs/algorithms.py
index 6c2182f..13a37d8 100644
--- a/pydatastructs/graphs/algorithms.py
+++ b/pydatastructs/graphs/algorithms.py
@@ -196,7 +196,7 @@ def _generate_layer(**kwargs):
     status = True
     if len(next_nodes) != 0:
         for next_node in next_nodes:
-            if visited.get(next_node, False) is False:
+            if visited.get(next_node.name, False) is False:
                 status = status and operation(curr_node, next_node.name, *op_args, **op_kwargs)
                 next_layer.add(next_node.name)
                 visited[next_node.name] = True
@@ -213,9 +213,10 @@ def _breadth_first_search_parallel_adjacency_list(
     layer = 0
     while len(layers[layer]) != 0:
         layers[layer+1] = set()
+        status = True
         with ThreadPoolExecutor(max_workers=num_threads) as Executor:
             for node in layers[layer]:
-                status = Executor.submit(
+                status = status and Executor.submit(
                          _generate_layer, args=
                          (graph, node, layers[layer+1], visited,
                           operation, *args), kwargs=kwargs).result()
-- 
2.43.0


From 99162e76a9011fa39e89afb2dce3a6eee5350974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:45 +0000
Subject: [PATCH 40/85] fix: C++ breadth first search crashed on unknown
 sources and ignored results of the operation

---
 pydatastructs/graphs/_backend/cpp/Algorithms.hpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/pydatastructs/graphs/_backend/cpp/Algorithms.hpp b/pydatastructs/graphs/_backend/cpp/Algorithms.hpp
index 2bb362c..2997b63 100644
--- a/pydatastructs/graphs/_backend/cpp/Algorithms.hpp
+++ b/pydatastructs/graphs/_backend/cpp/Algorithms.hpp
@@ -25,6 +25,10 @@ static PyObject* breadth_first_search_adjacency_list(PyObject* self, PyObject* a
 
     AdjacencyListGraph* cpp_graph = reinterpret_cast<AdjacencyListGraph*>(graph_obj);
     auto it = cpp_graph->node_map.find(source_name);
+    if (it == cpp_graph->node_map.end()) {
+        PyErr_SetString(PyExc_KeyError, "Source node not found in graph");
+        return nullptr;
+    }
     AdjacencyListGraphNode* start_node = it->second;
     std::unordered_set<std::string> visited;
     std::queue<AdjacencyListGraphNode*> q;
@@ -70,7 +74,12 @@ static PyObject* breadth_first_search_adjacency_list(PyObject* self, PyObject* a
             if (!result)
                 return nullptr;
 
+            int proceed = PyObject_IsTrue(result);
             Py_DECREF(result);
+            if (proceed < 0)
+                return nullptr;
+            if (!proceed)
+                Py_RETURN_NONE;
             visited.insert(adj_name);
             q.push(adj_node);
         }
@@ -145,7 +154,10 @@ static PyObject* breadth_first_search_adjacency_matrix(PyObject* self, PyObject*
             PyObject* result = PyObject_Call(operation, final_args, kwargs_dict);
             Py_DECREF(final_args);
             if (!result) return nullptr;
+            int proceed = PyObject_IsTrue(result);
             Py_DECREF(result);
+            if (proceed < 0) return nullptr;
+            if (!proceed) Py_RETURN_NONE;
 
             visited.insert(adj_name);
             q.push(adj_node);
-- 
2.43.0


From 66abf12c3cc26352e5717b8f75b2bd077f39858e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:45 +0000
Subject: [PATCH 41/85] fix: spanning trees shared their vertices with the
 graph, keeping its other edges

---
 pydatastructs/graphs/algorithms.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/pydatastructs/graphs/algorithms.py b/pydatastructs/graphs/algorithms.py
index 13a37d8..741105f 100644
--- a/pydatastructs/graphs/algorithms.py
+++ b/pydatastructs/graphs/algorithms.py
@@ -226,8 +226,13 @@ def _breadth_first_search_parallel_adjacency_list(
 
 _breadth_first_search_parallel_adjacency_matrix = _breadth_first_search_parallel_adjacency_list
 
+def _copy_vertex(graph, name):
+    node = getattr(graph, str(name))
+    return type(node)(node.name, node.data)
+
 def _generate_mst_object(graph):
-    mst = Graph(*[getattr(graph, str(v)) for v in graph.vertices])
+    mst = Graph(*[_copy_vertex(graph, v) for v in graph.vertices],
+                implementation=graph._impl)
     return mst
 
 def _sort_edges(graph, num_threads=None):
@@ -264,10 +269,9 @@ def _minimum_spanning_tree_prim_adjacency_list(graph):
     while not q.is_empty:
         v = q.pop()
         if not hasattr(mst, v):
-            mst.add_vertex(graph.__getattribute__(v))
+            mst.add_vertex(_copy_vertex(graph, v))
             if e.get(v, None) is not None:
                 edge = e[v]
-                mst.add_vertex(edge.target)
                 mst.add_edge(edge.source.name, edge.target.name, edge.value)
                 mst.add_edge(edge.target.name, edge.source.name, edge.value)
             for w_node in graph.neighbors(v):
@@ -406,10 +410,9 @@ def _minimum_spanning_tree_parallel_prim_adjacency_list(graph, num_threads):
         q[idx].pop()
 
         if not hasattr(mst, v):
-            mst.add_vertex(graph.__getattribute__(v))
+            mst.add_vertex(_copy_vertex(graph, v))
             if e[idx].get(v, None) is not None:
                 edge = e[idx][v]
-                mst.add_vertex(edge.target)
                 mst.add_edge(edge.source.name, edge.target.name, edge.value)
                 mst.add_edge(edge.target.name, edge.source.name, edge.value)
             for w_node in graph.neighbors(v):
-- 
2.43.0


From 4b8a3dd68e21afcf9354ca728d8e242a30203e19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:45 +0000
Subject: [PATCH 42/85] fix: the C++ spanning tree shared and changed the
 graph's vertices and compared weights by type

---
 .../graphs/_backend/cpp/Algorithms.hpp        | 209 +++++++-----------
 1 file changed, 75 insertions(+), 134 deletions(-)

diff --git a/pydatastructs/graphs/_backend/cpp/Algorithms.hpp b/pydatastructs/graphs/_backend/cpp/Algorithms.hpp
index 2997b63..b8029d7 100644
--- a/pydatastructs/graphs/_backend/cpp/Algorithms.hpp
+++ b/pydatastructs/graphs/_backend/cpp/Algorithms.hpp
@@ -182,154 +182,95 @@ static PyObject* minimum_spanning_tree_prim_adjacency_list(PyObject* self, PyObj
 
     AdjacencyListGraph* graph = reinterpret_cast<AdjacencyListGraph*>(graph_obj);
 
-    struct EdgeTuple {
-        int source_id;
-        int target_id;
-        std::variant<std::monostate, int64_t, double, std::string> value;
-        DataType value_type;
-
-        bool operator>(const EdgeTuple& other) const {
-            if (value_type != other.value_type)
-                return value_type > other.value_type;
-            if (std::holds_alternative<int64_t>(value))
-                return std::get<int64_t>(value) > std::get<int64_t>(other.value);
-            if (std::holds_alternative<double>(value))
-                return std::get<double>(value) > std::get<double>(other.value);
-            if (std::holds_alternative<std::string>(value))
-                return std::get<std::string>(value) > std::get<std::string>(other.value);
-            return false;
+    PyObject* mst_graph = PyObject_CallObject(reinterpret_cast<PyObject*>(&AdjacencyListGraphType), nullptr);
+    if (!mst_graph)
+        return nullptr;
+    AdjacencyListGraph* mst = reinterpret_cast<AdjacencyListGraph*>(mst_graph);
+    if (graph->nodes.empty())
+        return mst_graph;
+
+    auto weight_greater = [](const GraphEdge* u, const GraphEdge* v) {
+        if (u->value_type == DataType::String || v->value_type == DataType::String) {
+            if (u->value_type == v->value_type)
+                return std::get<std::string>(u->value) > std::get<std::string>(v->value);
+            return u->value_type > v->value_type;
         }
+        if (u->value_type == DataType::None || v->value_type == DataType::None)
+            return false;
+        if (u->value_type == DataType::Int && v->value_type == DataType::Int)
+            return std::get<int64_t>(u->value) > std::get<int64_t>(v->value);
+        auto as_double = [](const GraphEdge* e) {
+            return e->value_type == DataType::Int ? static_cast<double>(std::get<int64_t>(e->value))
+                                                  : std::get<double>(e->value);
+        };
+        return as_double(u) > as_double(v);
     };
 
-    std::priority_queue<EdgeTuple, std::vector<EdgeTuple>, std::greater<>> pq;
-    std::unordered_set<int> visited;
+    // Copies a vertex of the graph, without its edges, into the tree.
+    auto add_copy = [mst](AdjacencyListGraphNode* node) {
+        PyObject* data = AdjacencyListGraphNode_get_data(node, nullptr);
+        if (!data)
+            return false;
+        PyObject* copy = PyObject_CallFunction(reinterpret_cast<PyObject*>(&AdjacencyListGraphNodeType),
+                                               "sO", node->name.c_str(), data);
+        Py_DECREF(data);
+        if (!copy)
+            return false;
+        PyObject* vertex_args = PyTuple_Pack(1, copy);
+        Py_DECREF(copy);
+        if (!vertex_args)
+            return false;
+        PyObject* result = AdjacencyListGraph_add_vertex(mst, vertex_args);
+        Py_DECREF(vertex_args);
+        Py_XDECREF(result);
+        return result != nullptr;
+    };
 
-    PyObject* mst_graph = PyObject_CallObject(reinterpret_cast<PyObject*>(&AdjacencyListGraphType), nullptr);
-    AdjacencyListGraph* mst = reinterpret_cast<AdjacencyListGraph*>(mst_graph);
+    auto add_edge = [mst](const std::string& source, const std::string& target, GraphEdge* edge) {
+        PyObject* value = GraphEdge_get_value(edge, nullptr);
+        if (!value)
+            return false;
+        PyObject* edge_args = Py_BuildValue("(ssO)", source.c_str(), target.c_str(), value);
+        Py_DECREF(value);
+        if (!edge_args)
+            return false;
+        PyObject* result = AdjacencyListGraph_add_edge(mst, edge_args);
+        Py_DECREF(edge_args);
+        Py_XDECREF(result);
+        return result != nullptr;
+    };
 
-    int start_id = graph->nodes[0]->internal_id;
-    visited.insert(start_id);
-
-    AdjacencyListGraphNode* start_node = graph->id_map[start_id];
-    std::string start_name = graph->id_to_name[start_id];
-
-    Py_INCREF(start_node);
-    mst->nodes.push_back(start_node);
-    mst->node_map[start_name] = start_node;
-    mst->id_map[start_id] = start_node;
-    mst->id_to_name[start_id] = start_name;
-    mst->name_to_id[start_name] = start_id;
-
-    for (const auto& [adj_name, _] : start_node->adjacent) {
-        int adj_id = graph->name_to_id[adj_name];
-        std::string key = make_edge_key(start_name, adj_name);
-        GraphEdge* edge = graph->edges[key];
-
-        EdgeTuple et;
-        et.source_id = start_id;
-        et.target_id = adj_id;
-        et.value_type = edge->value_type;
-
-        switch (edge->value_type) {
-            case DataType::Int:
-                et.value = std::get<int64_t>(edge->value);
-                break;
-            case DataType::Double:
-                et.value = std::get<double>(edge->value);
-                break;
-            case DataType::String:
-                et.value = std::get<std::string>(edge->value);
-                break;
-            default:
-                et.value = std::monostate{};
+    std::priority_queue<GraphEdge*, std::vector<GraphEdge*>, decltype(weight_greater)> pq(weight_greater);
+
+    auto push_edges = [graph, mst, &pq](AdjacencyListGraphNode* node) {
+        for (const auto& [adj_name, _] : node->adjacent) {
+            if (mst->node_map.count(adj_name)) continue;
+            auto edge_it = graph->edges.find(make_edge_key(node->name, adj_name));
+            if (edge_it != graph->edges.end())
+                pq.push(edge_it->second);
         }
+    };
 
-        pq.push(et);
+    if (!add_copy(graph->nodes[0])) {
+        Py_DECREF(mst_graph);
+        return nullptr;
     }
+    push_edges(graph->nodes[0]);
 
     while (!pq.empty()) {
-        EdgeTuple edge = pq.top();
+        GraphEdge* edge = pq.top();
         pq.pop();
 
-        if (visited.count(edge.target_id)) continue;
-        visited.insert(edge.target_id);
-
-        int u_id = edge.source_id;
-        int v_id = edge.target_id;
-        std::string u_name = graph->id_to_name[u_id];
-        std::string v_name = graph->id_to_name[v_id];
-
-        for (auto [id, name] : std::vector<std::pair<int, std::string>>{{u_id, u_name}, {v_id, v_name}}) {
-            if (!mst->id_map.count(id)) {
-                AdjacencyListGraphNode* node = graph->id_map[id];
-                Py_INCREF(node);
-                mst->nodes.push_back(node);
-                mst->node_map[name] = node;
-                mst->id_map[id] = node;
-                mst->id_to_name[id] = name;
-                mst->name_to_id[name] = id;
-            }
-        }
+        const std::string& u_name = reinterpret_cast<AdjacencyListGraphNode*>(edge->source)->name;
+        const std::string& v_name = reinterpret_cast<AdjacencyListGraphNode*>(edge->target)->name;
+        if (mst->node_map.count(v_name)) continue;
 
-        AdjacencyListGraphNode* u = mst->id_map[u_id];
-        AdjacencyListGraphNode* v = mst->id_map[v_id];
-
-        Py_INCREF(v);
-        Py_INCREF(u);
-        u->adjacent[v_name] = reinterpret_cast<PyObject*>(v);
-        v->adjacent[u_name] = reinterpret_cast<PyObject*>(u);
-
-        std::string key_uv = make_edge_key(u_name, v_name);
-        GraphEdge* new_edge = PyObject_New(GraphEdge, &GraphEdgeType);
-        PyObject_Init(reinterpret_cast<PyObject*>(new_edge), &GraphEdgeType);
-        new (&new_edge->value) std::variant<std::monostate, int64_t, double, std::string>(edge.value);
-        new_edge->value_type = edge.value_type;
-        Py_INCREF(u);
-        Py_INCREF(v);
-        new_edge->source = reinterpret_cast<PyObject*>(u);
-        new_edge->target = reinterpret_cast<PyObject*>(v);
-        mst->edges[key_uv] = new_edge;
-
-        std::string key_vu = make_edge_key(v_name, u_name);
-        GraphEdge* new_edge_rev = PyObject_New(GraphEdge, &GraphEdgeType);
-        PyObject_Init(reinterpret_cast<PyObject*>(new_edge_rev), &GraphEdgeType);
-        new (&new_edge_rev->value) std::variant<std::monostate, int64_t, double, std::string>(edge.value);
-        new_edge_rev->value_type = edge.value_type;
-        Py_INCREF(u);
-        Py_INCREF(v);
-        new_edge_rev->source = reinterpret_cast<PyObject*>(v);
-        new_edge_rev->target = reinterpret_cast<PyObject*>(u);
-        mst->edges[key_vu] = new_edge_rev;
-
-        AdjacencyListGraphNode* next_node = graph->id_map[v_id];
-        for (const auto& [adj_name, _] : next_node->adjacent) {
-            int adj_id = graph->name_to_id[adj_name];
-            if (visited.count(adj_id)) continue;
-
-            std::string key = make_edge_key(v_name, adj_name);
-            GraphEdge* adj_edge = graph->edges[key];
-
-            EdgeTuple adj_et;
-            adj_et.source_id = v_id;
-            adj_et.target_id = adj_id;
-            adj_et.value_type = adj_edge->value_type;
-
-            switch (adj_edge->value_type) {
-                case DataType::Int:
-                    adj_et.value = std::get<int64_t>(adj_edge->value);
-                    break;
-                case DataType::Double:
-                    adj_et.value = std::get<double>(adj_edge->value);
-                    break;
-                case DataType::String:
-                    adj_et.value = std::get<std::string>(adj_edge->value);
-                    break;
-                default:
-                    adj_et.value = std::monostate{};
-            }
-
-            pq.push(adj_et);
+        AdjacencyListGraphNode* next_node = graph->node_map[v_name];
+        if (!add_copy(next_node) || !add_edge(u_name, v_name, edge) || !add_edge(v_name, u_name, edge)) {
+            Py_DECREF(mst_graph);
+            return nullptr;
         }
+        push_edges(next_node);
     }
 
     return reinterpret_cast<PyObject*>(mst);
-- 
2.43.0


From 1692dceccda548e3fc39e6b4d4ba3996241c0d04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:45 +0000
Subject: [PATCH 43/85] fix: dijkstra's algorithm stopped before it had settled
 all vertices

---
 pydatastructs/graphs/algorithms.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pydatastructs/graphs/algorithms.py b/pydatastructs/graphs/algorithms.py
index 741105f..5fcd114 100644
--- a/pydatastructs/graphs/algorithms.py
+++ b/pydatastructs/graphs/algorithms.py
@@ -859,7 +859,6 @@ def _bellman_ford_adjacency_list(graph: Graph, source: str, target: str) -> tupl
 _bellman_ford_adjacency_matrix = _bellman_ford_adjacency_list
 
 def _dijkstra_adjacency_list(graph: Graph, start: str, target: str):
-    V = len(graph.vertices)
     visited, dist, pred = {}, {}, {}
     for v in graph.vertices:
         visited[v] = False
@@ -870,8 +869,10 @@ def _dijkstra_adjacency_list(graph: Graph, start: str, target: str):
     pq = PriorityQueue(implementation='binomial_heap')
     for vertex in dist:
         pq.push(vertex, dist[vertex])
-    for _ in range(V):
+    while not pq.is_empty:
         u = pq.pop()
+        if visited[u]:
+            continue
         visited[u] = True
         for v in graph.vertices:
             edge_str = u + '_' + v
-- 
2.43.0


From 4f0f68f9a35e55cda3c8f80b43f8fc6559fe4a5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:45 +0000
Subject: [PATCH 44/85] fix: the C++ dijkstra's algorithm used vertex numbers
 out of range after a removal and split names at underscores

---
 .../graphs/_backend/cpp/Algorithms.hpp        | 32 ++++++++++++-------
 1 file changed, 21 insertions(+), 11 deletions(-)

diff --git a/pydatastructs/graphs/_backend/cpp/Algorithms.hpp b/pydatastructs/graphs/_backend/cpp/Algorithms.hpp
index b8029d7..1b7c855 100644
--- a/pydatastructs/graphs/_backend/cpp/Algorithms.hpp
+++ b/pydatastructs/graphs/_backend/cpp/Algorithms.hpp
@@ -289,15 +289,25 @@ static PyObject* shortest_paths_dijkstra_adjacency_list(PyObject* self, PyObject
     }
 
     AdjacencyListGraph* graph = reinterpret_cast<AdjacencyListGraph*>(graph_obj);
-    const size_t V = graph->node_map.size();
+    if (!graph->node_map.count(source_name)) {
+        PyErr_SetString(PyExc_KeyError, "Source node not found in graph");
+        return nullptr;
+    }
+    if (strlen(target_name) > 0 && !graph->node_map.count(target_name)) {
+        PyErr_SetString(PyExc_KeyError, "Target node not found in graph");
+        return nullptr;
+    }
+    const size_t V = graph->nodes.size();
+    std::unordered_map<std::string, int> name_to_id;
+    for (const AdjacencyListGraphNode* node : graph->nodes) {
+        int index = static_cast<int>(name_to_id.size());
+        name_to_id[node->name] = index;
+    }
 
     std::vector<std::vector<std::pair<int, double>>> adj(V);
     for (const auto& [edge_key, edge] : graph->edges) {
-        size_t delim = edge_key.find('_');
-        std::string u_name = edge_key.substr(0, delim);
-        std::string v_name = edge_key.substr(delim + 1);
-        int u = graph->name_to_id[u_name];
-        int v = graph->name_to_id[v_name];
+        int u = name_to_id[reinterpret_cast<AdjacencyListGraphNode*>(edge->source)->name];
+        int v = name_to_id[reinterpret_cast<AdjacencyListGraphNode*>(edge->target)->name];
 
         double weight = 0.0;
         if (edge->value_type == DataType::Int)
@@ -316,7 +326,7 @@ static PyObject* shortest_paths_dijkstra_adjacency_list(PyObject* self, PyObject
     using PQEntry = std::pair<double, int>;
     std::priority_queue<PQEntry, std::vector<PQEntry>, std::greater<>> pq;
 
-    int source_id = graph->name_to_id[source_name];
+    int source_id = name_to_id[source_name];
     dist[source_id] = 0.0;
     pq.push({0.0, source_id});
 
@@ -340,7 +350,7 @@ static PyObject* shortest_paths_dijkstra_adjacency_list(PyObject* self, PyObject
     if (!dist_dict || !pred_dict) return nullptr;
 
     for (int id = 0; id < static_cast<int>(V); ++id) {
-        const std::string& name = graph->id_to_name[id];
+        const std::string& name = graph->nodes[id]->name;
         PyObject* dval = PyFloat_FromDouble(dist[id]);
         if (!dval || PyDict_SetItemString(dist_dict, name.c_str(), dval) < 0) {
             Py_XDECREF(dval);
@@ -352,13 +362,13 @@ static PyObject* shortest_paths_dijkstra_adjacency_list(PyObject* self, PyObject
     }
 
     for (int id = 0; id < static_cast<int>(V); ++id) {
-        const std::string& name = graph->id_to_name[id];
+        const std::string& name = graph->nodes[id]->name;
         PyObject* py_pred;
         if (pred[id] == -1) {
             Py_INCREF(Py_None);
             py_pred = Py_None;
         } else {
-            py_pred = PyUnicode_FromString(graph->id_to_name[pred[id]].c_str());
+            py_pred = PyUnicode_FromString(graph->nodes[pred[id]]->name.c_str());
             if (!py_pred) {
                 Py_DECREF(dist_dict);
                 Py_DECREF(pred_dict);
@@ -377,7 +387,7 @@ static PyObject* shortest_paths_dijkstra_adjacency_list(PyObject* self, PyObject
     }
 
     if (strlen(target_name) > 0) {
-        int target_id = graph->name_to_id[target_name];
+        int target_id = name_to_id[target_name];
         PyObject* out = PyTuple_New(2);
         if (!out) {
             Py_DECREF(dist_dict);
-- 
2.43.0


From 242dd83fd8884ca2df9b6e778fbf4261a445baa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:45 +0000
Subject: [PATCH 45/85] fix: johnson's algorithm left its reweighted edges in
 the graph of the caller

---
 pydatastructs/graphs/algorithms.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/pydatastructs/graphs/algorithms.py b/pydatastructs/graphs/algorithms.py
index 5fcd114..6f0eeed 100644
--- a/pydatastructs/graphs/algorithms.py
+++ b/pydatastructs/graphs/algorithms.py
@@ -230,6 +230,15 @@ def _copy_vertex(graph, name):
     node = getattr(graph, str(name))
     return type(node)(node.name, node.data)
 
+def _copy_graph(graph):
+    copy = Graph(*[_copy_vertex(graph, v) for v in graph.vertices],
+                 implementation=graph._impl)
+    for u in graph.vertices:
+        for node in graph.neighbors(u):
+            edge = graph.get_edge(u, node.name)
+            copy.add_edge(u, node.name, None if edge is None else edge.value)
+    return copy
+
 def _generate_mst_object(graph):
     mst = Graph(*[_copy_vertex(graph, v) for v in graph.vertices],
                 implementation=graph._impl)
@@ -980,6 +989,7 @@ def _floyd_warshall_adjacency_list(graph: Graph):
 _floyd_warshall_adjacency_matrix = _floyd_warshall_adjacency_list
 
 def _johnson_adjacency_list(graph: Graph):
+    graph = _copy_graph(graph)
     new_vertex = AdjacencyListGraphNode('__q__')
     graph.add_vertex(new_vertex)
 
-- 
2.43.0


From 698acee78ab60adf1dc4f4c776f3a8a4faee3cdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:45 +0000
Subject: [PATCH 46/85] fix: topological sorting removed the edges and vertices
 of the caller's graph

---
 pydatastructs/graphs/algorithms.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pydatastructs/graphs/algorithms.py b/pydatastructs/graphs/algorithms.py
index 6f0eeed..cfcb2b9 100644
--- a/pydatastructs/graphs/algorithms.py
+++ b/pydatastructs/graphs/algorithms.py
@@ -1087,6 +1087,7 @@ def topological_sort(graph: Graph, algorithm: str,
     return getattr(algorithms, func)(graph)
 
 def _kahn_adjacency_list(graph: Graph) -> list:
+    graph = _copy_graph(graph)
     S = Queue()
     in_degree = {u: 0 for u in graph.vertices}
     for u in graph.vertices:
@@ -1168,6 +1169,7 @@ def topological_sort_parallel(graph: Graph, algorithm: str, num_threads: int,
     return getattr(algorithms, func)(graph, num_threads)
 
 def _kahn_adjacency_list_parallel(graph: Graph, num_threads: int) -> list:
+    graph = _copy_graph(graph)
     num_vertices = len(graph.vertices)
 
     def _collect_source_nodes(graph: Graph) -> list:
-- 
2.43.0


From 598d6f9138bef944c7af30c141bef8c50a273342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:45 +0000
Subject: [PATCH 47/85] fix: kosaraju's algorithm failed on vertices without
 incoming edges and merged components

---
 pydatastructs/graphs/algorithms.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pydatastructs/graphs/algorithms.py b/pydatastructs/graphs/algorithms.py
index cfcb2b9..e975629 100644
--- a/pydatastructs/graphs/algorithms.py
+++ b/pydatastructs/graphs/algorithms.py
@@ -510,6 +510,7 @@ def minimum_spanning_tree_parallel(graph, algorithm, num_threads, **kwargs):
 
 def _visit(graph, vertex, visited, incoming, L):
     stack = [vertex]
+    finished = set()
     while stack:
         top = stack[-1]
         if not visited.get(top, False):
@@ -521,7 +522,10 @@ def _visit(graph, vertex, visited, incoming, L):
                 if not visited.get(node.name, False):
                     stack.append(node.name)
         if top is stack[-1]:
-            L.append(stack.pop())
+            stack.pop()
+            if top not in finished:
+                finished.add(top)
+                L.append(top)
 
 def _assign(graph, u, incoming, assigned, component):
     stack = [u]
@@ -530,7 +534,7 @@ def _assign(graph, u, incoming, assigned, component):
         if not assigned.get(top, False):
             assigned[top] = True
             component.add(top)
-            for u in incoming[top]:
+            for u in incoming.get(top, []):
                 if not assigned.get(u, False):
                     stack.append(u)
         if top is stack[-1]:
-- 
2.43.0


From 6b4580cd4288b029fd89afec174f6ac8516b7fee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:45 +0000
Subject: [PATCH 48/85] fix: max flow never took flow back, missing part of it,
 and followed edges back into the source

---
 pydatastructs/graphs/algorithms.py | 71 +++++++++++++++++-------------
 1 file changed, 40 insertions(+), 31 deletions(-)

diff --git a/pydatastructs/graphs/algorithms.py b/pydatastructs/graphs/algorithms.py
index e975629..0cdd0e9 100644
--- a/pydatastructs/graphs/algorithms.py
+++ b/pydatastructs/graphs/algorithms.py
@@ -1207,25 +1207,37 @@ def _kahn_adjacency_list_parallel(graph: Graph, num_threads: int) -> list:
     return L
 
 
+def _residual_capacity(graph: Graph, u, v, flow_passed):
+    edge = graph.get_edge(u, v)
+    capacity = 0 if edge is None or edge.value is None else edge.value
+    return capacity - flow_passed.get((u, v), 0)
+
+
+def _residual_neighbors(graph: Graph, u, flow_passed):
+    next_nodes = [node.name for node in graph.neighbors(u)]
+    for v in graph.vertices:
+        # flow sent from v to u can be sent back
+        if flow_passed.get((u, v), 0) < 0 and not graph.is_adjacent(u, v):
+            next_nodes.append(v)
+    return next_nodes
+
+
 def _breadth_first_search_max_flow(graph: Graph, source_node, sink_node, flow_passed, for_dinic=False):
     bfs_queue = Queue()
-    parent, currentPathC = {}, {}
+    parent, currentPathC = {source_node: None}, {}
     currentPathC[source_node] = float('inf')
     bfs_queue.append(source_node)
     while len(bfs_queue) != 0:
         curr_node = bfs_queue.popleft()
-        next_nodes = graph.neighbors(curr_node)
-        if len(next_nodes) != 0:
-            for next_node in next_nodes:
-                capacity = graph.get_edge(curr_node, next_node.name).value
-                fp = flow_passed.get((curr_node, next_node.name), 0)
-                if capacity and parent.get(next_node.name, False) is False and capacity - fp > 0:
-                    parent[next_node.name] = curr_node
-                    next_flow = min(currentPathC[curr_node], capacity - fp)
-                    currentPathC[next_node.name] = next_flow
-                    if next_node.name == sink_node and not for_dinic:
-                        return (next_flow, parent)
-                    bfs_queue.append(next_node.name)
+        for next_node in _residual_neighbors(graph, curr_node, flow_passed):
+            capacity = _residual_capacity(graph, curr_node, next_node, flow_passed)
+            if parent.get(next_node, False) is False and capacity > 0:
+                parent[next_node] = curr_node
+                next_flow = min(currentPathC[curr_node], capacity)
+                currentPathC[next_node] = next_flow
+                if next_node == sink_node and not for_dinic:
+                    return (next_flow, parent)
+                bfs_queue.append(next_node)
     return (0, parent)
 
 
@@ -1251,23 +1263,20 @@ def _depth_first_search_max_flow_dinic(graph: Graph, u, parent, sink_node, flow,
     if u == sink_node:
         return flow
 
-    next_nodes = graph.neighbors(u)
-    if len(next_nodes) != 0:
-        for next_node in next_nodes:
-            capacity = graph.get_edge(u, next_node.name).value
-            fp = flow_passed.get((u, next_node.name), 0)
-            parent_cond = parent.get(next_node.name, None)
-            if parent_cond and parent_cond == u and capacity - fp > 0:
-                path_flow = _depth_first_search_max_flow_dinic(graph,
-                                                               next_node.name,
-                                                               parent, sink_node,
-                                min(flow, capacity - fp), flow_passed)
-                if path_flow > 0:
-                    fp = flow_passed.get((u, next_node.name), 0)
-                    flow_passed[(u, next_node.name)] = fp + path_flow
-                    fp = flow_passed.get((next_node.name, u), 0)
-                    flow_passed[(next_node.name, u)] = fp - path_flow
-                    return path_flow
+    for next_node in _residual_neighbors(graph, u, flow_passed):
+        capacity = _residual_capacity(graph, u, next_node, flow_passed)
+        parent_cond = parent.get(next_node, None)
+        if parent_cond and parent_cond == u and capacity > 0:
+            path_flow = _depth_first_search_max_flow_dinic(graph,
+                                                           next_node,
+                                                           parent, sink_node,
+                            min(flow, capacity), flow_passed)
+            if path_flow > 0:
+                fp = flow_passed.get((u, next_node), 0)
+                flow_passed[(u, next_node)] = fp + path_flow
+                fp = flow_passed.get((next_node, u), 0)
+                flow_passed[(next_node, u)] = fp - path_flow
+                return path_flow
     return 0
 
 
@@ -1276,7 +1285,7 @@ def _max_flow_dinic_(graph: Graph, source, sink):
     flow_passed = {}
     while True:
         next_flow, parent = _breadth_first_search_max_flow(graph, source, sink, flow_passed, True)
-        if parent.get(sink, False) is False:
+        if parent.get(sink, None) is None:
             break
 
         while True:
-- 
2.43.0


From 2f029c1f81909a9e4fc13da95aaeeabf791a1a21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:08 +0000
Subject: [PATCH 49/85] fix: C++ graphs confused edges between vertices with
 underscores in their names

---
 pydatastructs/graphs/_backend/cpp/AdjacencyList.hpp   | 3 ++-
 pydatastructs/graphs/_backend/cpp/AdjacencyMatrix.hpp | 7 ++++---
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/pydatastructs/graphs/_backend/cpp/AdjacencyList.hpp b/pydatastructs/graphs/_backend/cpp/AdjacencyList.hpp
index 03a459c..fd5faf3 100644
--- a/pydatastructs/graphs/_backend/cpp/AdjacencyList.hpp
+++ b/pydatastructs/graphs/_backend/cpp/AdjacencyList.hpp
@@ -96,7 +96,8 @@ static PyObject* AdjacencyListGraph_new(PyTypeObject* type, PyObject* args, PyOb
 }
 
 static std::string make_edge_key(const std::string& source, const std::string& target) {
-    return source + "_" + target;
+    // the length tells apart names containing underscores
+    return std::to_string(source.size()) + "_" + source + "_" + target;
 }
 
 static PyObject* AdjacencyListGraph_add_vertex(AdjacencyListGraph* self, PyObject* args) {
diff --git a/pydatastructs/graphs/_backend/cpp/AdjacencyMatrix.hpp b/pydatastructs/graphs/_backend/cpp/AdjacencyMatrix.hpp
index 3eaa49f..4ca57d0 100644
--- a/pydatastructs/graphs/_backend/cpp/AdjacencyMatrix.hpp
+++ b/pydatastructs/graphs/_backend/cpp/AdjacencyMatrix.hpp
@@ -6,6 +6,7 @@
 #include <vector>
 #include <unordered_map>
 #include <string>
+#include "AdjacencyList.hpp"
 #include "AdjacencyMatrixGraphNode.hpp"
 #include "GraphEdge.hpp"
 #include "GraphNode.hpp"
@@ -127,7 +128,7 @@ static PyObject* AdjacencyMatrixGraph_add_edge(AdjacencyMatrixGraph* self, PyObj
     Py_DECREF(args);
     if (!edge_obj) return NULL;
 
-    self->edge_weights[src + "_" + dst] = reinterpret_cast<GraphEdge*>(edge_obj);
+    self->edge_weights[make_edge_key(src, dst)] = reinterpret_cast<GraphEdge*>(edge_obj);
     }
 
     Py_RETURN_NONE;
@@ -144,7 +145,7 @@ static PyObject* AdjacencyMatrixGraph_remove_edge(AdjacencyMatrixGraph* self, Py
 
     if (self->matrix.find(src) != self->matrix.end()) {
         self->matrix[src][dst] = false;
-        auto it = self->edge_weights.find(src + "_" + dst);
+        auto it = self->edge_weights.find(make_edge_key(src, dst));
         if (it != self->edge_weights.end()) {
             Py_XDECREF(it->second);
             self->edge_weights.erase(it);
@@ -203,7 +204,7 @@ static PyObject* AdjacencyMatrixGraph_get_edge(AdjacencyMatrixGraph* self, PyObj
     if (!PyArg_ParseTuple(args, "ss", &source, &target))
         return NULL;
 
-    std::string key = std::string(source) + "_" + std::string(target);
+    std::string key = make_edge_key(source, target);
     auto it = self->edge_weights.find(key);
     if (it != self->edge_weights.end()) {
         Py_INCREF(it->second);
-- 
2.43.0


From 3863fb75a62e5d6344dd50c6a84615037a98f84f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:49 +0000
Subject: [PATCH 50/85] fix: C++ tree arrays read past their end after
 contracting and showed sizes as colours

---
 .../_backend/cpp/arrays/ArrayForTrees.hpp                   | 6 ++++--
 pydatastructs/utils/_backend/cpp/TreeNode.hpp               | 3 ++-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/pydatastructs/linear_data_structures/_backend/cpp/arrays/ArrayForTrees.hpp b/pydatastructs/linear_data_structures/_backend/cpp/arrays/ArrayForTrees.hpp
index 4828fe7..23daa32 100644
--- a/pydatastructs/linear_data_structures/_backend/cpp/arrays/ArrayForTrees.hpp
+++ b/pydatastructs/linear_data_structures/_backend/cpp/arrays/ArrayForTrees.hpp
@@ -126,7 +126,7 @@ static PyObject* ArrayForTrees__modify(ArrayForTrees *self,
         }
         self->_last_pos_filled = j - 1;
         self->_one_dimensional_array->_data = arr_new;
-        self->_size = new_size;
+        self->_one_dimensional_array->_size = new_size;
         self->_size = new_size;
 
         return new_indices;
@@ -162,7 +162,9 @@ static PyObject* ArrayForTrees_append(ArrayForTrees *self,
     }
     self->_last_pos_filled += 1;
     self->_num += 1;
-    return ArrayForTrees__modify(self, NULL);
+    // Nodes refer to each other by position, so appending
+    // should never move the ones which are already present.
+    Py_RETURN_NONE;
 }
 
 static PyObject* ArrayForTrees_delete(ArrayForTrees *self,
diff --git a/pydatastructs/utils/_backend/cpp/TreeNode.hpp b/pydatastructs/utils/_backend/cpp/TreeNode.hpp
index b9361a1..d0d07af 100644
--- a/pydatastructs/utils/_backend/cpp/TreeNode.hpp
+++ b/pydatastructs/utils/_backend/cpp/TreeNode.hpp
@@ -47,6 +47,7 @@ static PyObject* TreeNode___new__(PyTypeObject* type, PyObject *args, PyObject *
     self->is_root = false;
     self->color = 1;
     self->isCartesianTreeNode = false;
+    self->priority = 0;
 
     return reinterpret_cast<PyObject*>(self);
 }
@@ -67,7 +68,7 @@ static struct PyMemberDef TreeNode_PyMemberDef[] = {
     {"left", T_OBJECT, offsetof(TreeNode, left), 0, "TreeNode left"},
     {"right", T_OBJECT, offsetof(TreeNode, right), 0, "TreeNode right"},
     {"parent", T_OBJECT, offsetof(TreeNode, parent), 0, "TreeNode parent"},
-    {"color", T_LONG, offsetof(TreeNode, size), 0, "RedBlackTreeNode color"},
+    {"color", T_LONG, offsetof(TreeNode, color), 0, "RedBlackTreeNode color"},
     {"priority", T_DOUBLE, offsetof(TreeNode, priority), 0, "CartesianTreeNode's priority"},
     {NULL},
 };
-- 
2.43.0


From 38fd550821ec371b00e149ee68b341a5e9f2f4bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:30 +0000
Subject: [PATCH 51/85] fix: C++ search trees compared keys and positions by
 identity and lost nodes when used after deletions

---
 .../trees/_backend/cpp/BinarySearchTree.hpp   | 98 ++++++++++---------
 .../trees/_backend/cpp/BinaryTree.hpp         |  8 +-
 pydatastructs/utils/_backend/cpp/utils.hpp    |  5 +
 3 files changed, 64 insertions(+), 47 deletions(-)

diff --git a/pydatastructs/trees/_backend/cpp/BinarySearchTree.hpp b/pydatastructs/trees/_backend/cpp/BinarySearchTree.hpp
index 5573847..c2149bd 100644
--- a/pydatastructs/trees/_backend/cpp/BinarySearchTree.hpp
+++ b/pydatastructs/trees/_backend/cpp/BinarySearchTree.hpp
@@ -89,13 +89,16 @@ static PyObject* BinarySearchTree_search(BinarySearchTree* self, PyObject* args,
     PyObject* walk = bt->root_idx;
 
     if (reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(walk)])->key == Py_None) {
-        Py_RETURN_NONE;
+        if (ret_parent == Py_None || PyLong_AsLong(ret_parent) == 0) {
+            Py_RETURN_NONE;
+        }
+        return Py_BuildValue("(OO)", Py_None, Py_None);
     }
 
     while (walk != Py_None) {
         PyObject* curr_key = reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(walk)])->key;
 
-        if (curr_key == key) {
+        if (is_same(curr_key, key)) {
             break;
         }
         parent = walk;
@@ -121,8 +124,8 @@ static PyObject* BinarySearchTree_search(BinarySearchTree* self, PyObject* args,
         }
     }
 
-    Py_INCREF(Py_None);
     if (ret_parent==Py_None || PyLong_AsLong(ret_parent)==0) {
+        Py_INCREF(walk);
         return walk;
     }
     else {
@@ -140,7 +143,9 @@ static PyObject* BinarySearchTree_insert(BinarySearchTree* self, PyObject* args)
         return NULL;
     }
 
-    PyObject* parent = PyLong_FromLong(0);
+    // The tree keeps references to the key and the data.
+    Py_INCREF(key);
+    Py_INCREF(data);
 
     PyObject* res = BinarySearchTree_search(self, Py_BuildValue("(O)",key), PyDict_New()); // keywords should be a dictionary, so empty dictionary here as no keywords
     BinaryTree* bt = self->binary_tree;
@@ -182,7 +187,7 @@ static PyObject* BinarySearchTree_insert(BinarySearchTree* self, PyObject* args)
             if (reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(walk)])->right == Py_None) {
                 new_node->parent = prev_node;
                 ArrayForTrees_append(bt->tree, Py_BuildValue( "[O]", reinterpret_cast<PyObject*>(new_node)) );
-                reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(walk)])->right = PyLong_FromLong(bt->size);
+                reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(walk)])->right = PyLong_FromLong(bt->tree->_last_pos_filled);
                 bt->size = bt->size + 1;
                 flag = false;
             }
@@ -193,7 +198,7 @@ static PyObject* BinarySearchTree_insert(BinarySearchTree* self, PyObject* args)
             if (reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(walk)])->left == Py_None) {
                 new_node->parent = prev_node;
                 ArrayForTrees_append(bt->tree, Py_BuildValue( "[O]", reinterpret_cast<PyObject*>(new_node)) );
-                reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(walk)])->left = PyLong_FromLong(bt->size);
+                reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(walk)])->left = PyLong_FromLong(bt->tree->_last_pos_filled);
                 bt->size = bt->size + 1;
                 flag = false;
             }
@@ -231,7 +236,7 @@ static PyObject* BinarySearchTree_delete(BinarySearchTree* self, PyObject *args,
             reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(bt->root_idx)])->key = Py_None;
         }
         else {
-            if (reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(parent)])->left == walk) {
+            if (is_same(reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(parent)])->left, walk)) {
                 Py_INCREF(Py_None);
                 reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(parent)])->left = Py_None;
             }
@@ -299,14 +304,22 @@ static PyObject* BinarySearchTree_delete(BinarySearchTree* self, PyObject *args,
             reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(bt->root_idx)])->key = reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(child)])->key;
             Py_INCREF(Py_None);
             reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(bt->root_idx)])->parent = Py_None;
+            reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(bt->root_idx)])->height = reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(child)])->height;
+            PyObject* grand_children[2] = {reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(child)])->left, reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(child)])->right};
+            for (PyObject* grand_child: grand_children) {
+                if (grand_child != Py_None) {
+                    reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(grand_child)])->parent = bt->root_idx;
+                }
+            }
             PyObject* root_key = reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(bt->root_idx)])->key;
             PyObject* new_indices = ArrayForTrees_delete(bt->tree, Py_BuildValue("(O)",child));
             if (new_indices != Py_None) {
                 bt->root_idx = PyDict_GetItem(new_indices, root_key);
             }
+            BinarySearchTree__update_size(self, Py_BuildValue("(O)",bt->root_idx));
         }
         else {
-            if (reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(parent)])->left == walk) {
+            if (is_same(reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(parent)])->left, walk)) {
                 reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(parent)])->left = child;
             }
             else {
@@ -318,9 +331,7 @@ static PyObject* BinarySearchTree_delete(BinarySearchTree* self, PyObject *args,
             PyObject* root_key = reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(bt->root_idx)])->key;
             PyObject* new_indices = ArrayForTrees_delete(bt->tree, Py_BuildValue("(O)",walk));
             if (new_indices != Py_None) {
-                parent = PyDict_GetItem(new_indices, par_key);
-                reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(child)])->parent = PyDict_GetItem(new_indices, root_key);
-                a = PyDict_GetItem(new_indices, root_key);
+                a = PyDict_GetItem(new_indices, par_key);
                 bt->root_idx = PyDict_GetItem(new_indices, root_key);
             }
             BinarySearchTree__update_size(self, Py_BuildValue("(O)",a));
@@ -329,6 +340,7 @@ static PyObject* BinarySearchTree_delete(BinarySearchTree* self, PyObject *args,
 
     if (balancing_info != Py_None) {
         if (PyLong_AsLong(balancing_info) == 1) {
+            Py_INCREF(a);
             return a;
         }
     }
@@ -347,8 +359,9 @@ static PyObject* BinarySearchTree__bound_helper(BinarySearchTree* self, PyObject
     if (reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(node_idx)])->key == Py_None) {
         Py_RETURN_NONE;
     }
-    if (reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(node_idx)])->key == bound_key) {
+    if (is_same(reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(node_idx)])->key, bound_key)) {
         if (is_upper == Py_False) {
+            Py_INCREF(reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(node_idx)])->key);
             return reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(node_idx)])->key;
         }
         else {
@@ -378,6 +391,7 @@ static PyObject* BinarySearchTree__bound_helper(BinarySearchTree* self, PyObject
             return res_bound;
         }
         else {
+            Py_INCREF(reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(node_idx)])->key);
             return reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(node_idx)])->key;
         }
     }
@@ -405,7 +419,7 @@ static PyObject* BinarySearchTree__simple_path(BinarySearchTree* self, PyObject
     while (!stack.empty()) {
         long node = stack.top();
         stack.pop();
-        if (reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[node])->key == key) {
+        if (is_same(reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[node])->key, key)) {
             node_idx = node;
             break;
         }
@@ -419,49 +433,36 @@ static PyObject* BinarySearchTree__simple_path(BinarySearchTree* self, PyObject
     if (node_idx == -1) {
         return path;
     }
-    while (node_idx != 0) {
-        PyList_Append(path, PyLong_FromLong(node_idx));
-        node_idx = PyLong_AsLong(reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[node_idx])->parent);
+    PyObject* walk = PyLong_FromLong(node_idx);
+    while (walk != Py_None) {
+        PyList_Append(path, walk);
+        walk = reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(walk)])->parent;
     }
-    PyList_Append(path, PyLong_FromLong(0));
     PyList_Reverse(path);
     return path;
 }
 
 static PyObject* BinarySearchTree__lca_1(BinarySearchTree* self, PyObject* args) {
-    long j = PyLong_AsLong(PyObject_GetItem(args, PyZero));
-    long k = PyLong_AsLong(PyObject_GetItem(args, PyOne));
+    PyObject* j_key = PyObject_GetItem(args, PyZero);
+    PyObject* k_key = PyObject_GetItem(args, PyOne);
     BinaryTree* bt = self->binary_tree;
     PyObject* root = bt->root_idx;
-    PyObject* path1 = BinarySearchTree__simple_path(self, Py_BuildValue("(OO)",PyLong_FromLong(j),root));
-    PyObject* path2 = BinarySearchTree__simple_path(self, Py_BuildValue("(OO)",PyLong_FromLong(k),root));
+    PyObject* path1 = BinarySearchTree__simple_path(self, Py_BuildValue("(OO)",j_key,root));
+    PyObject* path2 = BinarySearchTree__simple_path(self, Py_BuildValue("(OO)",k_key,root));
     long n = PyLong_AsLong(PyLong_FromSsize_t(PyList_Size(path1)));
     long m = PyLong_AsLong(PyLong_FromSsize_t(PyList_Size(path2)));
     if (n==0 || m==0) {
         PyErr_SetString(PyExc_ValueError, "One of the two paths doesn't exist.");
         return NULL;
     }
+    // The ancestor is the last node shared by both paths.
     long i = 0;
-    j = 0;
-    while (i<n && j<m) {
-        if (PyList_GetItem(path1, PyLong_AsSsize_t(PyLong_FromLong(i))) != PyList_GetItem(path2, PyLong_AsSsize_t(PyLong_FromLong(j)))) {
-            return reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(PyList_GetItem(path1, PyLong_AsSsize_t(PyLong_FromLong(i-1))))])->key;
-        }
+    while (i<n && i<m && is_same(PyList_GetItem(path1, i), PyList_GetItem(path2, i))) {
         i += 1;
-        j += 1;
     }
-
-    while (i<n && j<m) {
-        if (PyList_GetItem(path1, PyLong_AsSsize_t(PyLong_FromLong(i))) < PyList_GetItem(path2, PyLong_AsSsize_t(PyLong_FromLong(j)))) {
-            return reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(PyList_GetItem(path1, PyLong_AsSsize_t(PyLong_FromLong(n-1))))])->key;
-        }
-        else if (PyList_GetItem(path1, PyLong_AsSsize_t(PyLong_FromLong(i))) > PyList_GetItem(path2, PyLong_AsSsize_t(PyLong_FromLong(j)))) {
-            break;
-        }
-        i += 1;
-        j += 1;
-    }
-    return reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(PyList_GetItem(path2, PyLong_AsSsize_t(PyLong_FromLong(m-1))))])->key;
+    PyObject* ancestor = reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(PyList_GetItem(path1, i-1))])->key;
+    Py_INCREF(ancestor);
+    return ancestor;
 }
 
 static PyObject* BinarySearchTree__lca_2(BinarySearchTree* self, PyObject* args) {
@@ -477,6 +478,10 @@ static PyObject* BinarySearchTree__lca_2(BinarySearchTree* self, PyObject* args)
         PyErr_SetString(PyExc_ValueError, "One of the nodes doesn't exist.");
         return NULL;
     }
+    if (is_same(curr_root, u) || is_same(curr_root, v)) {
+        Py_INCREF(reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(curr_root)])->key);
+        return reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(curr_root)])->key;
+    }
 
     if (!PyCallable_Check(bt->comparator)) {
         PyErr_SetString(PyExc_ValueError, "comparator should be callable");
@@ -512,10 +517,11 @@ static PyObject* BinarySearchTree__lca_2(BinarySearchTree* self, PyObject* args)
             curr_root = reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(curr_root)])->right;
         }
 
-        if (curr_root == u || curr_root == v) {
+        if (is_same(curr_root, u) || is_same(curr_root, v)) {
             if (curr_root == Py_None) {
                 Py_RETURN_NONE;
             }
+            Py_INCREF(reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(curr_root)])->key);
             return reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(curr_root)])->key;
         }
 
@@ -549,6 +555,7 @@ static PyObject* BinarySearchTree__lca_2(BinarySearchTree* self, PyObject* args)
     if (curr_root == Py_None) {
         Py_RETURN_NONE;
     }
+    Py_INCREF(reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(curr_root)])->key);
     return reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(curr_root)])->key;
 }
 
@@ -562,7 +569,7 @@ static PyObject* BinarySearchTree_lowest_common_ancestor(BinarySearchTree* self,
         return NULL;
     }
 
-    if (algorithm == PyOne) {
+    if (is_same(algorithm, PyOne)) {
         return BinarySearchTree__lca_1(self, Py_BuildValue("(OO)",j,k));
     }
     else {
@@ -578,9 +585,9 @@ static PyObject* BinarySearchTree_rank(BinarySearchTree* self, PyObject* args) {
     }
     BinaryTree* bt = self->binary_tree;
     long r = BinarySearchTree_left_size(self, reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(walk)])) + 1;
-    while (reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(walk)])->key != reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(bt->root_idx)])->key) {
+    while (!is_same(reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(walk)])->key, reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(bt->root_idx)])->key)) {
         PyObject* p = reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(walk)])->parent;
-        if (walk == reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(p)])->right) {
+        if (is_same(walk, reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(p)])->right)) {
             r = r + BinarySearchTree_left_size(self, reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(p)])) + 1;
         }
         walk = p;
@@ -596,7 +603,8 @@ static PyObject* BinarySearchTree_select(BinarySearchTree* self, PyObject* args)
         return NULL;
     }
     BinaryTree* bt = self->binary_tree;
-    if (i >= bt->tree->_num) {
+    long num = reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(bt->root_idx)])->key != Py_None ? bt->tree->_num : 0;
+    if (i >= num) {
         PyErr_SetString(PyExc_ValueError, "Integer passed to select() is greater than the size of the tree.");
         return NULL;
     }
@@ -604,6 +612,7 @@ static PyObject* BinarySearchTree_select(BinarySearchTree* self, PyObject* args)
     while (walk != Py_None) {
         long l = BinarySearchTree_left_size(self, reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(walk)]));
         if (i == l) {
+            Py_INCREF(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(walk)]);
             return bt->tree->_one_dimensional_array->_data[PyLong_AsLong(walk)];
         }
         PyObject* left_walk = reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(walk)])->left;
@@ -660,6 +669,7 @@ static PyObject* BinarySearchTree_select(BinarySearchTree* self, PyObject* args)
 }
 
 static PyObject* BinarySearchTree_root_idx(BinarySearchTree *self, void *closure) {
+    Py_INCREF(self->binary_tree->root_idx);
     return self->binary_tree->root_idx;
 }
 
diff --git a/pydatastructs/trees/_backend/cpp/BinaryTree.hpp b/pydatastructs/trees/_backend/cpp/BinaryTree.hpp
index b07336d..36c587a 100644
--- a/pydatastructs/trees/_backend/cpp/BinaryTree.hpp
+++ b/pydatastructs/trees/_backend/cpp/BinaryTree.hpp
@@ -36,13 +36,15 @@ static PyObject* BinaryTree___new__(PyTypeObject* type, PyObject *args, PyObject
         PyErr_SetString(PyExc_ValueError, "Key required.");
         return NULL;
     }
-    Py_INCREF(Py_None);
-    key = root_data == Py_None ? Py_None : key;
+    if (root_data == Py_None) {
+        Py_INCREF(Py_None);
+        key = Py_None;
+    }
 
     if (PyType_Ready(&TreeNodeType) < 0) { // This has to be present to finalize a type object. This should be called on all type objects to finish their initialization.
         return NULL;
     }
-    TreeNode* root = reinterpret_cast<TreeNode*>(TreeNode___new__(&TreeNodeType, args, kwds));
+    TreeNode* root = reinterpret_cast<TreeNode*>(TreeNode___new__(&TreeNodeType, Py_BuildValue("(OO)", key, root_data), kwds));
     root->is_root = true;
     self->root_idx = PyLong_FromLong(0);
 
diff --git a/pydatastructs/utils/_backend/cpp/utils.hpp b/pydatastructs/utils/_backend/cpp/utils.hpp
index e135a64..6fd4bba 100644
--- a/pydatastructs/utils/_backend/cpp/utils.hpp
+++ b/pydatastructs/utils/_backend/cpp/utils.hpp
@@ -44,6 +44,11 @@ static PyObject* get_PyThree() {
 static const char* _encoding = "utf-8";
 static const char* _invalid_char = "<invalid-character>";
 
+// Whether two keys, or two positions in the array of a tree, are equal.
+static bool is_same(PyObject* u, PyObject* v) {
+    return u == v || PyObject_RichCompareBool(u, v, Py_EQ) == 1;
+}
+
 static char* PyObject_AsString(PyObject* obj) {
     return PyBytes_AS_STRING(PyUnicode_AsEncodedString(obj, _encoding, _invalid_char));
 }
-- 
2.43.0


From 758d4d9d847207678c3fe98b6af6bf053883d86e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:41 +0000
Subject: [PATCH 52/85] fix: inherited methods and attributes of C++ trees read
 memory of another layout

---
 pydatastructs/trees/_backend/cpp/AVLTree.hpp    | 11 +++++++++--
 .../trees/_backend/cpp/BinarySearchTree.hpp     | 17 +++++++++++++++++
 .../trees/_backend/cpp/CartesianTree.hpp        |  9 +++++++--
 .../trees/_backend/cpp/RedBlackTree.hpp         |  9 +++++++--
 .../_backend/cpp/SelfBalancingBinaryTree.hpp    |  7 +++++--
 pydatastructs/trees/_backend/cpp/SplayTree.hpp  |  9 +++++++--
 pydatastructs/trees/_backend/cpp/Treap.hpp      | 11 +++++++++--
 7 files changed, 61 insertions(+), 12 deletions(-)

diff --git a/pydatastructs/trees/_backend/cpp/AVLTree.hpp b/pydatastructs/trees/_backend/cpp/AVLTree.hpp
index f0de0b0..40706c7 100644
--- a/pydatastructs/trees/_backend/cpp/AVLTree.hpp
+++ b/pydatastructs/trees/_backend/cpp/AVLTree.hpp
@@ -14,8 +14,10 @@
 
 typedef struct {
     PyObject_HEAD
-    SelfBalancingBinaryTree* sbbt;
+    BinaryTree* binary_tree;
     ArrayForTrees* tree;
+    BinarySearchTree* bst;
+    SelfBalancingBinaryTree* sbbt;
 } AVLTree;
 
 static void AVLTree_dealloc(AVLTree *self) {
@@ -31,7 +33,9 @@ static PyObject* AVLTree___new__(PyTypeObject* type, PyObject *args, PyObject *k
     }
     PyObject* p = SelfBalancingBinaryTree___new__(&SelfBalancingBinaryTreeType, args, kwds);
     self->sbbt = reinterpret_cast<SelfBalancingBinaryTree*>(p);
-    self->tree = self->sbbt->bst->binary_tree->tree;
+    self->bst = self->sbbt->bst;
+    self->binary_tree = self->bst->binary_tree;
+    self->tree = self->binary_tree->tree;
 
     return reinterpret_cast<PyObject*>(self);
 }
@@ -44,6 +48,8 @@ static PyObject* AVLTree_set_tree(AVLTree* self, PyObject *args) {
     ArrayForTrees* arr = reinterpret_cast<ArrayForTrees*>(PyObject_GetItem(args, PyZero));
     self->sbbt->bst->binary_tree->tree = arr;
     self->tree = self->sbbt->bst->binary_tree->tree;
+    self->sbbt->bst->tree = self->tree;
+    self->sbbt->tree = self->tree;
     Py_RETURN_NONE;
 }
 
@@ -307,6 +313,7 @@ static PyObject* AVLTree_delete(AVLTree* self, PyObject *args, PyObject *kwds) {
 }
 
 static PyObject* AVLTree_root_idx(AVLTree *self, void *closure) {
+    Py_INCREF(self->sbbt->bst->binary_tree->root_idx);
     return self->sbbt->bst->binary_tree->root_idx;
 }
 
diff --git a/pydatastructs/trees/_backend/cpp/BinarySearchTree.hpp b/pydatastructs/trees/_backend/cpp/BinarySearchTree.hpp
index c2149bd..49c0dbe 100644
--- a/pydatastructs/trees/_backend/cpp/BinarySearchTree.hpp
+++ b/pydatastructs/trees/_backend/cpp/BinarySearchTree.hpp
@@ -11,6 +11,7 @@
 #include "../../../linear_data_structures/_backend/cpp/arrays/ArrayForTrees.hpp"
 #include "BinaryTree.hpp"
 
+// Methods are inherited, so the structs of derived trees start with the same members.
 typedef struct {
     PyObject_HEAD
     BinaryTree* binary_tree;
@@ -673,6 +674,19 @@ static PyObject* BinarySearchTree_root_idx(BinarySearchTree *self, void *closure
     return self->binary_tree->root_idx;
 }
 
+static PyObject* BinarySearchTree_comparator(BinarySearchTree *self, void *closure) {
+    Py_INCREF(self->binary_tree->comparator);
+    return self->binary_tree->comparator;
+}
+
+static PyObject* BinarySearchTree_size(BinarySearchTree *self, void *closure) {
+    return PyLong_FromLong(self->binary_tree->size);
+}
+
+static PyObject* BinarySearchTree_is_order_statistic(BinarySearchTree *self, void *closure) {
+    return PyLong_FromLong(self->binary_tree->is_order_statistic);
+}
+
 
 static struct PyMethodDef BinarySearchTree_PyMethodDef[] = {
     {"insert", (PyCFunction) BinarySearchTree_insert, METH_VARARGS | METH_KEYWORDS, NULL},
@@ -691,6 +705,9 @@ static struct PyMethodDef BinarySearchTree_PyMethodDef[] = {
 
 static PyGetSetDef BinarySearchTree_GetterSetters[] = {
     {"root_idx", (getter) BinarySearchTree_root_idx, NULL, "returns the index of the tree's root", NULL},
+    {"comparator", (getter) BinarySearchTree_comparator, NULL, "returns the comparator function", NULL},
+    {"size", (getter) BinarySearchTree_size, NULL, "returns the size of the tree", NULL},
+    {"is_order_statistic", (getter) BinarySearchTree_is_order_statistic, NULL, "returns whether the tree is ordered statically or not", NULL},
     {NULL}  /* Sentinel */
 };
 
diff --git a/pydatastructs/trees/_backend/cpp/CartesianTree.hpp b/pydatastructs/trees/_backend/cpp/CartesianTree.hpp
index 012d212..b45965a 100644
--- a/pydatastructs/trees/_backend/cpp/CartesianTree.hpp
+++ b/pydatastructs/trees/_backend/cpp/CartesianTree.hpp
@@ -14,8 +14,10 @@
 
 typedef struct {
     PyObject_HEAD
-    SelfBalancingBinaryTree* sbbt;
+    BinaryTree* binary_tree;
     ArrayForTrees* tree;
+    BinarySearchTree* bst;
+    SelfBalancingBinaryTree* sbbt;
 } CartesianTree;
 
 static void CartesianTree_dealloc(CartesianTree *self) {
@@ -31,7 +33,9 @@ static PyObject* CartesianTree___new__(PyTypeObject* type, PyObject *args, PyObj
     }
     PyObject* p = SelfBalancingBinaryTree___new__(&SelfBalancingBinaryTreeType, args, kwds);
     self->sbbt = reinterpret_cast<SelfBalancingBinaryTree*>(p);
-    self->tree = reinterpret_cast<SelfBalancingBinaryTree*>(p)->bst->binary_tree->tree;
+    self->bst = self->sbbt->bst;
+    self->binary_tree = self->bst->binary_tree;
+    self->tree = self->binary_tree->tree;
 
     return reinterpret_cast<PyObject*>(self);
 }
@@ -145,6 +149,7 @@ static PyObject* CartesianTree_delete(CartesianTree* self, PyObject *args, PyObj
 }
 
 static PyObject* CartesianTree_root_idx(CartesianTree *self, void *closure) {
+    Py_INCREF(self->sbbt->bst->binary_tree->root_idx);
     return self->sbbt->bst->binary_tree->root_idx;
 }
 
diff --git a/pydatastructs/trees/_backend/cpp/RedBlackTree.hpp b/pydatastructs/trees/_backend/cpp/RedBlackTree.hpp
index 3604031..d33eee2 100644
--- a/pydatastructs/trees/_backend/cpp/RedBlackTree.hpp
+++ b/pydatastructs/trees/_backend/cpp/RedBlackTree.hpp
@@ -14,8 +14,10 @@
 
 typedef struct {
     PyObject_HEAD
-    SelfBalancingBinaryTree* sbbt;
+    BinaryTree* binary_tree;
     ArrayForTrees* tree;
+    BinarySearchTree* bst;
+    SelfBalancingBinaryTree* sbbt;
 } RedBlackTree;
 
 static void RedBlackTree_dealloc(RedBlackTree *self) {
@@ -31,7 +33,9 @@ static PyObject* RedBlackTree___new__(PyTypeObject* type, PyObject *args, PyObje
     }
     PyObject* p = SelfBalancingBinaryTree___new__(&SelfBalancingBinaryTreeType, args, kwds);
     self->sbbt = reinterpret_cast<SelfBalancingBinaryTree*>(p);
-    self->tree = reinterpret_cast<SelfBalancingBinaryTree*>(p)->bst->binary_tree->tree;
+    self->bst = self->sbbt->bst;
+    self->binary_tree = self->bst->binary_tree;
+    self->tree = self->binary_tree->tree;
 
     return reinterpret_cast<PyObject*>(self);
 }
@@ -579,6 +583,7 @@ static PyObject* RedBlackTree_search(RedBlackTree* self, PyObject *args, PyObjec
 }
 
 static PyObject* RedBlackTree_root_idx(RedBlackTree *self, void *closure) {
+    Py_INCREF(self->sbbt->bst->binary_tree->root_idx);
     return self->sbbt->bst->binary_tree->root_idx;
 }
 
diff --git a/pydatastructs/trees/_backend/cpp/SelfBalancingBinaryTree.hpp b/pydatastructs/trees/_backend/cpp/SelfBalancingBinaryTree.hpp
index 2f7fbf3..e707d78 100644
--- a/pydatastructs/trees/_backend/cpp/SelfBalancingBinaryTree.hpp
+++ b/pydatastructs/trees/_backend/cpp/SelfBalancingBinaryTree.hpp
@@ -13,8 +13,9 @@
 
 typedef struct {
     PyObject_HEAD
-    BinarySearchTree* bst;
+    BinaryTree* binary_tree;
     ArrayForTrees* tree;
+    BinarySearchTree* bst;
 } SelfBalancingBinaryTree;
 
 static void SelfBalancingBinaryTree_dealloc(SelfBalancingBinaryTree *self) {
@@ -30,7 +31,8 @@ static PyObject* SelfBalancingBinaryTree___new__(PyTypeObject* type, PyObject *a
     }
     PyObject* p = BinarySearchTree___new__(&BinarySearchTreeType, args, kwds);
     self->bst = reinterpret_cast<BinarySearchTree*>(p);
-    self->tree = reinterpret_cast<BinarySearchTree*>(p)->binary_tree->tree;
+    self->binary_tree = self->bst->binary_tree;
+    self->tree = self->binary_tree->tree;
 
     return reinterpret_cast<PyObject*>(self);
 }
@@ -220,6 +222,7 @@ static PyObject* SelfBalancingBinaryTree__right_left_rotate(SelfBalancingBinaryT
 }
 
 static PyObject* SelfBalancingBinaryTree_root_idx(SelfBalancingBinaryTree *self, void *closure) {
+    Py_INCREF(self->bst->binary_tree->root_idx);
     return self->bst->binary_tree->root_idx;
 }
 
diff --git a/pydatastructs/trees/_backend/cpp/SplayTree.hpp b/pydatastructs/trees/_backend/cpp/SplayTree.hpp
index b41eb3d..0199a0d 100644
--- a/pydatastructs/trees/_backend/cpp/SplayTree.hpp
+++ b/pydatastructs/trees/_backend/cpp/SplayTree.hpp
@@ -15,8 +15,10 @@
 
 typedef struct {
     PyObject_HEAD
-    SelfBalancingBinaryTree* sbbt;
+    BinaryTree* binary_tree;
     ArrayForTrees* tree;
+    BinarySearchTree* bst;
+    SelfBalancingBinaryTree* sbbt;
     PyTypeObject* type;
 } SplayTree;
 
@@ -33,7 +35,9 @@ static PyObject* SplayTree___new__(PyTypeObject* type, PyObject *args, PyObject
     }
     PyObject* p = SelfBalancingBinaryTree___new__(&SelfBalancingBinaryTreeType, args, kwds);
     self->sbbt = reinterpret_cast<SelfBalancingBinaryTree*>(p);
-    self->tree = reinterpret_cast<SelfBalancingBinaryTree*>(p)->bst->binary_tree->tree;
+    self->bst = self->sbbt->bst;
+    self->binary_tree = self->bst->binary_tree;
+    self->tree = self->binary_tree->tree;
     self->type = type;
 
     return reinterpret_cast<PyObject*>(self);
@@ -285,6 +289,7 @@ static PyObject* SplayTree_split(SplayTree *self, PyObject* args) {
 }
 
 static PyObject* SplayTree_root_idx(SplayTree *self, void *closure) {
+    Py_INCREF(self->sbbt->bst->binary_tree->root_idx);
     return self->sbbt->bst->binary_tree->root_idx;
 }
 
diff --git a/pydatastructs/trees/_backend/cpp/Treap.hpp b/pydatastructs/trees/_backend/cpp/Treap.hpp
index 5619d27..1820031 100644
--- a/pydatastructs/trees/_backend/cpp/Treap.hpp
+++ b/pydatastructs/trees/_backend/cpp/Treap.hpp
@@ -15,8 +15,11 @@
 
 typedef struct {
     PyObject_HEAD
-    CartesianTree* ct;
+    BinaryTree* binary_tree;
     ArrayForTrees* tree;
+    BinarySearchTree* bst;
+    SelfBalancingBinaryTree* sbbt;
+    CartesianTree* ct;
 } Treap;
 
 static void Treap_dealloc(Treap *self) {
@@ -32,7 +35,10 @@ static PyObject* Treap___new__(PyTypeObject* type, PyObject *args, PyObject *kwd
     }
     PyObject* p = CartesianTree___new__(&CartesianTreeType, args, kwds);
     self->ct = reinterpret_cast<CartesianTree*>(p);
-    self->tree = reinterpret_cast<CartesianTree*>(p)->sbbt->bst->binary_tree->tree;
+    self->sbbt = self->ct->sbbt;
+    self->bst = self->sbbt->bst;
+    self->binary_tree = self->bst->binary_tree;
+    self->tree = self->binary_tree->tree;
 
     return reinterpret_cast<PyObject*>(self);
 }
@@ -63,6 +69,7 @@ static PyObject* Treap_insert(Treap *self, PyObject* args) {
 }
 
 static PyObject* Treap_root_idx(Treap *self, void *closure) {
+    Py_INCREF(self->ct->sbbt->bst->binary_tree->root_idx);
     return self->ct->sbbt->bst->binary_tree->root_idx;
 }
 
-- 
2.43.0


From b948f7dd3ab5fee2ceca17ef5a57cdaefb6c36e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:36 +0000
Subject: [PATCH 53/85] fix: C++ AVL trees rotated the wrong way on relocated
 nodes and lost sizes; lowest common ancestors were paths

---
 pydatastructs/trees/_backend/cpp/AVLTree.hpp  | 16 ++++++----
 .../_backend/cpp/SelfBalancingBinaryTree.hpp  | 30 +++++++++++++++----
 2 files changed, 34 insertions(+), 12 deletions(-)

diff --git a/pydatastructs/trees/_backend/cpp/AVLTree.hpp b/pydatastructs/trees/_backend/cpp/AVLTree.hpp
index 40706c7..97bd4a1 100644
--- a/pydatastructs/trees/_backend/cpp/AVLTree.hpp
+++ b/pydatastructs/trees/_backend/cpp/AVLTree.hpp
@@ -208,20 +208,20 @@ static PyObject* AVLTree__balance_insertion(AVLTree* self, PyObject *args) {
         long bf = PyLong_AsLong(AVLTree_balance_factor(self, Py_BuildValue("(O)", bt->tree->_one_dimensional_array->_data[PyLong_AsLong(walk)])));
         if (bf != 1 && bf != 0 && bf != -1) {
             PyObject* l = reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(walk)])->left;
-            if (l != Py_None && l == last && reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(l)])->left == last2last) {
+            if (l != Py_None && is_same(l, last) && is_same(reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(l)])->left, last2last)) {
                 AVLTree__right_rotate(self, Py_BuildValue("(OO)", walk, last));
             }
 
             PyObject* r = reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(walk)])->right;
-            if (r != Py_None && r == last && reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(r)])->right == last2last) {
+            if (r != Py_None && is_same(r, last) && is_same(reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(r)])->right, last2last)) {
                 AVLTree__left_rotate(self, Py_BuildValue("(OO)", walk, last));
             }
 
-            if (l != Py_None && l == last && reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(l)])->right == last2last) {
+            if (l != Py_None && is_same(l, last) && is_same(reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(l)])->right, last2last)) {
                 AVLTree__left_right_rotate(self, Py_BuildValue("(OO)", walk, last));
             }
 
-            if (r != Py_None && r == last && reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(r)])->left == last2last) {
+            if (r != Py_None && is_same(r, last) && is_same(reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(r)])->left, last2last)) {
                 AVLTree__right_left_rotate(self, Py_BuildValue("(OO)", walk, last));
             }
         }
@@ -243,8 +243,8 @@ static PyObject* AVLTree_insert(AVLTree* self, PyObject *args) {
     }
     SelfBalancingBinaryTree_insert(self->sbbt, Py_BuildValue("(OO)", key, data));
     BinaryTree* bt = self->sbbt->bst->binary_tree;
-    long s = bt->size - 1;
-    AVLTree__balance_insertion(self, Py_BuildValue("(OO)", PyLong_FromLong(s), reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[s])->parent));
+    PyObject* s = SelfBalancingBinaryTree_search(self->sbbt, Py_BuildValue("(O)", key), PyDict_New());
+    AVLTree__balance_insertion(self, Py_BuildValue("(OO)", s, reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(s)])->parent));
 
     Py_RETURN_NONE;
 }
@@ -304,6 +304,10 @@ static PyObject* AVLTree__balance_delete(AVLTree* self, PyObject *args) {
 static PyObject* AVLTree_delete(AVLTree* self, PyObject *args, PyObject *kwds) {
     PyObject* key = PyObject_GetItem(args, PyZero);
 
+    if (SelfBalancingBinaryTree_search(self->sbbt, Py_BuildValue("(O)", key), PyDict_New()) == Py_None) {
+        Py_RETURN_NONE;
+    }
+
     PyObject* kwd_bal = PyDict_New();
     PyDict_SetItemString(kwd_bal, "balancing_info", PyLong_FromLong(1));
     PyObject* a = SelfBalancingBinaryTree_delete(self->sbbt, Py_BuildValue("(O)", key), kwd_bal);
diff --git a/pydatastructs/trees/_backend/cpp/SelfBalancingBinaryTree.hpp b/pydatastructs/trees/_backend/cpp/SelfBalancingBinaryTree.hpp
index e707d78..6720bba 100644
--- a/pydatastructs/trees/_backend/cpp/SelfBalancingBinaryTree.hpp
+++ b/pydatastructs/trees/_backend/cpp/SelfBalancingBinaryTree.hpp
@@ -66,11 +66,11 @@ static PyObject* SelfBalancingBinaryTree__simple_path(SelfBalancingBinaryTree* s
 }
 
 static PyObject* SelfBalancingBinaryTree__lca_1(SelfBalancingBinaryTree* self, PyObject *args) {
-    return BinarySearchTree__simple_path(self->bst, args);
+    return BinarySearchTree__lca_1(self->bst, args);
 }
 
 static PyObject* SelfBalancingBinaryTree__lca_2(SelfBalancingBinaryTree* self, PyObject *args) {
-    return BinarySearchTree__simple_path(self->bst, args);
+    return BinarySearchTree__lca_2(self->bst, args);
 }
 
 static PyObject* SelfBalancingBinaryTree_lowest_common_ancestor(SelfBalancingBinaryTree* self, PyObject *args) {
@@ -85,6 +85,14 @@ static PyObject* SelfBalancingBinaryTree_select(SelfBalancingBinaryTree* self, P
     return BinarySearchTree_select(self->bst, args);
 }
 
+static void SelfBalancingBinaryTree__restore_size(SelfBalancingBinaryTree* self, PyObject* node_idx) {
+    BinaryTree* bt = self->bst->binary_tree;
+    if (bt->is_order_statistic) {
+        TreeNode* node = reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(node_idx)]);
+        node->size = BinarySearchTree_left_size(self->bst, node) + BinarySearchTree_right_size(self->bst, node) + 1;
+    }
+}
+
 static PyObject* SelfBalancingBinaryTree__right_rotate(SelfBalancingBinaryTree* self, PyObject *args) {
     PyObject* j = PyObject_GetItem(args, PyZero);
     PyObject* k = PyObject_GetItem(args, PyOne);
@@ -96,7 +104,7 @@ static PyObject* SelfBalancingBinaryTree__right_rotate(SelfBalancingBinaryTree*
     reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(j)])->left = y;
     reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(k)])->parent = reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(j)])->parent;
     if (reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(k)])->parent != Py_None) {
-        if (reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(k)])->parent)])->left == j) {
+        if (is_same(reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(k)])->parent)])->left, j)) {
             reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(k)])->parent)])->left = k;
         }
         else {
@@ -109,6 +117,8 @@ static PyObject* SelfBalancingBinaryTree__right_rotate(SelfBalancingBinaryTree*
     if (kp == Py_None) {
         bt->root_idx = k;
     }
+    SelfBalancingBinaryTree__restore_size(self, j);
+    SelfBalancingBinaryTree__restore_size(self, k);
     Py_RETURN_NONE;
 }
 
@@ -123,7 +133,7 @@ static PyObject* SelfBalancingBinaryTree__left_rotate(SelfBalancingBinaryTree* s
     reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(j)])->right = y;
     reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(k)])->parent = reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(j)])->parent;
     if (reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(k)])->parent != Py_None) {
-        if (reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(k)])->parent)])->left == j) {
+        if (is_same(reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(k)])->parent)])->left, j)) {
             reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(k)])->parent)])->left = k;
         }
         else {
@@ -136,6 +146,8 @@ static PyObject* SelfBalancingBinaryTree__left_rotate(SelfBalancingBinaryTree* s
     if (kp == Py_None) {
         bt->root_idx = k;
     }
+    SelfBalancingBinaryTree__restore_size(self, j);
+    SelfBalancingBinaryTree__restore_size(self, k);
     Py_RETURN_NONE;
 }
 
@@ -167,7 +179,7 @@ static PyObject* SelfBalancingBinaryTree__left_right_rotate(SelfBalancingBinaryT
 
     PyObject* ip = reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(i)])->parent;
     if (ip != Py_None) {
-        if (reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(ip)])->left == j) {
+        if (is_same(reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(ip)])->left, j)) {
             reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(ip)])->left = i;
         }
         else {
@@ -177,6 +189,9 @@ static PyObject* SelfBalancingBinaryTree__left_right_rotate(SelfBalancingBinaryT
     else {
         bt->root_idx = i;
     }
+    SelfBalancingBinaryTree__restore_size(self, j);
+    SelfBalancingBinaryTree__restore_size(self, k);
+    SelfBalancingBinaryTree__restore_size(self, i);
     Py_RETURN_NONE;
 }
 
@@ -208,7 +223,7 @@ static PyObject* SelfBalancingBinaryTree__right_left_rotate(SelfBalancingBinaryT
 
     PyObject* ip = reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(i)])->parent;
     if (ip != Py_None) {
-        if (reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(ip)])->left == j) {
+        if (is_same(reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(ip)])->left, j)) {
             reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(ip)])->left = i;
         }
         else {
@@ -218,6 +233,9 @@ static PyObject* SelfBalancingBinaryTree__right_left_rotate(SelfBalancingBinaryT
     else {
         bt->root_idx = i;
     }
+    SelfBalancingBinaryTree__restore_size(self, j);
+    SelfBalancingBinaryTree__restore_size(self, k);
+    SelfBalancingBinaryTree__restore_size(self, i);
     Py_RETURN_NONE;
 }
 
-- 
2.43.0


From 18a28b76a284c72ed0944313e5971ba1dbfe5e43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:55 +0000
Subject: [PATCH 54/85] fix: C++ traversals freed the tree they traversed and
 post-order traversal failed on relocated nodes

---
 pydatastructs/trees/_backend/cpp/BinaryTreeTraversal.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pydatastructs/trees/_backend/cpp/BinaryTreeTraversal.hpp b/pydatastructs/trees/_backend/cpp/BinaryTreeTraversal.hpp
index b430706..cf8dc9c 100644
--- a/pydatastructs/trees/_backend/cpp/BinaryTreeTraversal.hpp
+++ b/pydatastructs/trees/_backend/cpp/BinaryTreeTraversal.hpp
@@ -22,10 +22,11 @@
 typedef struct {
     PyObject_HEAD
     BinaryTree* tree;
+    PyObject* owner; // keeps the traversed tree alive
 } BinaryTreeTraversal;
 
 static void BinaryTreeTraversal_dealloc(BinaryTreeTraversal *self) {
-    BinaryTree_dealloc(self->tree);
+    Py_XDECREF(self->owner);
     Py_TYPE(self)->tp_free(reinterpret_cast<PyObject*>(self));
 }
 
@@ -75,6 +76,7 @@ static PyObject* BinaryTreeTraversal___new__(PyTypeObject* type, PyObject *args,
         PyErr_SetString(PyExc_ValueError, "Not a supported type for BinaryTreeTraversal.");
         return NULL;
     }
+    self->owner = tree;
     return reinterpret_cast<PyObject*>(self);
 }
 
@@ -128,7 +130,7 @@ static PyObject* BinaryTreeTraversal__post_order(BinaryTreeTraversal* self, PyOb
     PyObject* node = PyObject_GetItem(args, PyZero);
     PyObject* visit = PyList_New(0);
     ArrayForTrees* tree = self->tree->tree;
-    long size = self->tree->size;
+    long size = tree->_one_dimensional_array->_size;
     std::stack<PyObject*> s;
     s.push(node);
     PyObject* last = PyList_New(size);
-- 
2.43.0


From 4703e42cc88b677812da284c81b7b1dc43206d63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:37 +0000
Subject: [PATCH 55/85] fix: C++ red-black trees lost nodes, sizes and colours
 of relocated and re-inserted nodes

---
 .../trees/_backend/cpp/RedBlackTree.hpp       | 22 +++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/pydatastructs/trees/_backend/cpp/RedBlackTree.hpp b/pydatastructs/trees/_backend/cpp/RedBlackTree.hpp
index d33eee2..6819c35 100644
--- a/pydatastructs/trees/_backend/cpp/RedBlackTree.hpp
+++ b/pydatastructs/trees/_backend/cpp/RedBlackTree.hpp
@@ -36,6 +36,8 @@ static PyObject* RedBlackTree___new__(PyTypeObject* type, PyObject *args, PyObje
     self->bst = self->sbbt->bst;
     self->binary_tree = self->bst->binary_tree;
     self->tree = self->binary_tree->tree;
+    // The root is always black.
+    reinterpret_cast<TreeNode*>(self->tree->_one_dimensional_array->_data[PyLong_AsLong(self->binary_tree->root_idx)])->color = 0;
 
     return reinterpret_cast<PyObject*>(self);
 }
@@ -70,7 +72,7 @@ static PyObject* RedBlackTree__get_sibling(RedBlackTree *self, PyObject* args) {
 
     BinaryTree* bt = self->sbbt->bst->binary_tree;
     TreeNode* node = reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(parent_idx)]);
-    if (node_idx == node->left) {
+    if (is_same(node_idx, node->left)) {
         PyObject* sibling_idx = node->right;
         return sibling_idx;
     }
@@ -95,7 +97,7 @@ static PyObject* RedBlackTree__is_onleft(RedBlackTree *self, PyObject* args) {
     PyObject* parent_idx = RedBlackTree__get_parent(self, Py_BuildValue("(O)", node_idx));
 
     BinaryTree* bt = self->sbbt->bst->binary_tree;
-    if (reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(parent_idx)])->left == node_idx) {
+    if (is_same(reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(parent_idx)])->left, node_idx)) {
         Py_RETURN_TRUE;
     }
     Py_RETURN_FALSE;
@@ -165,7 +167,11 @@ static PyObject* RedBlackTree_insert(RedBlackTree *self, PyObject* args) {
     if (!PyArg_ParseTuple(args, "O|O", &key, &data)) { // data is optional
         return NULL;
     }
+    bool is_present = SelfBalancingBinaryTree_search(self->sbbt, Py_BuildValue("(O)", key), PyDict_New()) != Py_None;
     SelfBalancingBinaryTree_insert(self->sbbt, Py_BuildValue("(OO)", key, data));
+    if (is_present) {
+        Py_RETURN_NONE;
+    }
     PyObject* node_idx = SelfBalancingBinaryTree_search(self->sbbt, Py_BuildValue("(O)", key), PyDict_New());
 
     BinaryTree* bt = self->sbbt->bst->binary_tree;
@@ -178,6 +184,7 @@ static PyObject* RedBlackTree_insert(RedBlackTree *self, PyObject* args) {
     new_node->parent = node->parent;
     new_node->left = node->left;
     new_node->right = node->right;
+    new_node->size = node->size;
     bt->tree->_one_dimensional_array->_data[PyLong_AsLong(node_idx)] = reinterpret_cast<PyObject*>(new_node);
 
     if (node->is_root) {
@@ -246,7 +253,7 @@ static PyObject* RedBlackTree__transplant_values(RedBlackTree* self, PyObject *a
         reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(bt->root_idx)])->data = reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(node_idx2)])->data;
         reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(bt->root_idx)])->left = reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(node_idx2)])->left;
         reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(bt->root_idx)])->right = reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(node_idx2)])->right;
-        reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(node_idx1)])->parent == Py_None;
+        reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(node_idx1)])->parent = Py_None;
 
         return reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(bt->root_idx)])->key;
     }
@@ -368,7 +375,7 @@ static PyObject* RedBlackTree___fix_deletion(RedBlackTree* self, PyObject *args)
 
     TreeNode* node = reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(node_idx)]);
     long color = node->color;
-    while (node_idx != bt->root_idx && color == 0) {
+    while (!is_same(node_idx, bt->root_idx) && color == 0) {
         PyObject* sibling_idx = RedBlackTree__get_sibling(self, Py_BuildValue("(O)", node_idx));
         PyObject* parent_idx = RedBlackTree__get_parent(self, Py_BuildValue("(O)", node_idx));
         if (sibling_idx == Py_None) {
@@ -450,6 +457,10 @@ static PyObject* RedBlackTree__remove_node(RedBlackTree* self, PyObject *args) {
         PyObject* par_key = reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(parent)])->key;
         PyObject* root_key = reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(bt->root_idx)])->key;
         PyObject* new_indices = ArrayForTrees_delete(bt->tree, Py_BuildValue("(O)", node_idx));
+        if (new_indices != Py_None) {
+            a = PyDict_GetItem(new_indices, par_key);
+            bt->root_idx = PyDict_GetItem(new_indices, root_key);
+        }
     }
     BinarySearchTree__update_size(self->sbbt->bst, Py_BuildValue("(O)", a));
     Py_RETURN_NONE;
@@ -470,6 +481,7 @@ static PyObject* RedBlackTree__delete_root(RedBlackTree* self, PyObject *args) {
         if (new_indices != Py_None) {
             bt->root_idx = PyDict_GetItem(new_indices, root_key);
         }
+        BinarySearchTree__update_size(self->sbbt->bst, Py_BuildValue("(O)", bt->root_idx));
     }
     Py_RETURN_NONE;
 }
@@ -527,7 +539,9 @@ static PyObject* RedBlackTree___one_child_case(RedBlackTree* self, PyObject *arg
             reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(parent)])->right = walk1;
         }
         reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(walk1)])->parent = parent;
+        PyObject* walk1_key = reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(walk1)])->key;
         PyObject* a = RedBlackTree__remove_node(self, Py_BuildValue("(O)", walk));
+        walk1 = BinarySearchTree_search(self->sbbt->bst, Py_BuildValue("(O)", walk1_key), PyDict_New());
         if (RedBlackTree___walk1_walk_isblack(self, Py_BuildValue("(OO)", PyLong_FromLong(walk_original_color), walk1)) == Py_True) {
             RedBlackTree___fix_deletion(self, Py_BuildValue("(O)", walk1));
         }
-- 
2.43.0


From a1b459ce26ffbcc789f849daf4c3d336570f157b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:27 +0000
Subject: [PATCH 56/85] fix: C++ Cartesian trees and treaps kept stale
 priorities and rotated the wrong way on relocated nodes

---
 pydatastructs/trees/_backend/cpp/CartesianTree.hpp | 11 +++++++++--
 pydatastructs/trees/_backend/cpp/Treap.hpp         |  5 +++++
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/pydatastructs/trees/_backend/cpp/CartesianTree.hpp b/pydatastructs/trees/_backend/cpp/CartesianTree.hpp
index b45965a..b1aef11 100644
--- a/pydatastructs/trees/_backend/cpp/CartesianTree.hpp
+++ b/pydatastructs/trees/_backend/cpp/CartesianTree.hpp
@@ -56,7 +56,7 @@ static PyObject* Cartesian_Tree__bubble_up(CartesianTree* self, PyObject *args)
     TreeNode* parent = reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(parent_idx)]);
 
     while ((node->parent != Py_None) && (parent->priority > node->priority)) {
-        if (parent->right == node_idx) {
+        if (is_same(parent->right, node_idx)) {
             SelfBalancingBinaryTree__left_rotate(self->sbbt, Py_BuildValue("OO", parent_idx, node_idx));
         }
         else {
@@ -96,6 +96,8 @@ static PyObject* Cartesian_Tree__trickle_down(CartesianTree* self, PyObject *arg
     Py_RETURN_NONE;
 }
 
+static PyObject* CartesianTree_delete(CartesianTree* self, PyObject *args, PyObject *kwds);
+
 static PyObject* CartesianTree_insert(CartesianTree *self, PyObject* args) {
     Py_INCREF(Py_None);
     PyObject* key = Py_None;
@@ -108,6 +110,10 @@ static PyObject* CartesianTree_insert(CartesianTree *self, PyObject* args) {
     }
     BinaryTree* bt = self->sbbt->bst->binary_tree;
 
+    // A key which is already present gets its new priority by being inserted again.
+    if (SelfBalancingBinaryTree_search(self->sbbt, Py_BuildValue("(O)", key), PyDict_New()) != Py_None) {
+        CartesianTree_delete(self, Py_BuildValue("(O)", key), PyDict_New());
+    }
     SelfBalancingBinaryTree_insert(self->sbbt, Py_BuildValue("(OO)", key, data));
     PyObject* node_idx = SelfBalancingBinaryTree_search(self->sbbt, Py_BuildValue("(O)", key), PyDict_New());
     TreeNode* node = reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(node_idx)]);
@@ -120,8 +126,9 @@ static PyObject* CartesianTree_insert(CartesianTree *self, PyObject* args) {
     new_node->parent = node->parent;
     new_node->left = node->left;
     new_node->right = node->right;
+    new_node->size = node->size;
     bt->tree->_one_dimensional_array->_data[PyLong_AsLong(node_idx)] = reinterpret_cast<PyObject*>(new_node);
-    if (node->is_root) {
+    if (node->parent == Py_None) {
         reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(node_idx)])->is_root = true;
     }
     else {
diff --git a/pydatastructs/trees/_backend/cpp/Treap.hpp b/pydatastructs/trees/_backend/cpp/Treap.hpp
index 1820031..f9707e2 100644
--- a/pydatastructs/trees/_backend/cpp/Treap.hpp
+++ b/pydatastructs/trees/_backend/cpp/Treap.hpp
@@ -39,6 +39,11 @@ static PyObject* Treap___new__(PyTypeObject* type, PyObject *args, PyObject *kwd
     self->bst = self->sbbt->bst;
     self->binary_tree = self->bst->binary_tree;
     self->tree = self->binary_tree->tree;
+    TreeNode* root = reinterpret_cast<TreeNode*>(self->tree->_one_dimensional_array->_data[PyLong_AsLong(self->binary_tree->root_idx)]);
+    if (root->key != Py_None) {
+        root->isCartesianTreeNode = true;
+        root->priority = ((double) rand() / (RAND_MAX));
+    }
 
     return reinterpret_cast<PyObject*>(self);
 }
-- 
2.43.0


From 07ccd2d099441e3cba91b4f15a761f3454940398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:33 +0000
Subject: [PATCH 57/85] fix: C++ splay trees splayed the wrong way on relocated
 nodes and join and split broke parents, sizes and positions

---
 .../trees/_backend/cpp/SplayTree.hpp          | 69 +++++++++++++------
 1 file changed, 49 insertions(+), 20 deletions(-)

diff --git a/pydatastructs/trees/_backend/cpp/SplayTree.hpp b/pydatastructs/trees/_backend/cpp/SplayTree.hpp
index 0199a0d..bdb9146 100644
--- a/pydatastructs/trees/_backend/cpp/SplayTree.hpp
+++ b/pydatastructs/trees/_backend/cpp/SplayTree.hpp
@@ -52,7 +52,7 @@ static PyObject* SplayTree__zig(SplayTree *self, PyObject* args) {
     PyObject* p = PyObject_GetItem(args, PyOne);
     BinaryTree* bt = self->sbbt->bst->binary_tree;
 
-    if (reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(p)])->left == x) {
+    if (is_same(reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(p)])->left, x)) {
         SelfBalancingBinaryTree__right_rotate(self->sbbt, Py_BuildValue("(OO)", p, x));
     }
     else {
@@ -111,13 +111,13 @@ static PyObject* SplayTree_splay(SplayTree *self, PyObject* args) {
         if (reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(p)])->parent == Py_None) {
             SplayTree__zig(self, Py_BuildValue("(OO)", x, p));
         }
-        else if (reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(p)])->left == x && reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(p)])->parent)])->left == p) {
+        else if (is_same(reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(p)])->left, x) && is_same(reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(p)])->parent)])->left, p)) {
             SplayTree__zig_zig(self, Py_BuildValue("(OO)", x, p));
         }
-        else if (reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(p)])->right == x && reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(p)])->parent)])->right == p) {
+        else if (is_same(reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(p)])->right, x) && is_same(reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(p)])->parent)])->right, p)) {
             SplayTree__zag_zag(self, Py_BuildValue("(OO)", x, p));
         }
-        else if (reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(p)])->left == x && reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(p)])->parent)])->right == p) {
+        else if (is_same(reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(p)])->left, x) && is_same(reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(p)])->parent)])->right, p)) {
             SplayTree__zag_zig(self, Py_BuildValue("(O)", p));
         }
         else {
@@ -132,7 +132,6 @@ static PyObject* SplayTree_splay(SplayTree *self, PyObject* args) {
 static PyObject* SplayTree_insert(SplayTree *self, PyObject* args) {
     PyObject* key = PyObject_GetItem(args, PyZero);
     PyObject* x = PyObject_GetItem(args, PyOne);
-    BinaryTree* bt = self->sbbt->bst->binary_tree;
 
     SelfBalancingBinaryTree_insert(self->sbbt, args);
     PyObject* kwd_parent = PyDict_New();
@@ -140,7 +139,6 @@ static PyObject* SplayTree_insert(SplayTree *self, PyObject* args) {
     PyObject* tup = SelfBalancingBinaryTree_search(self->sbbt, Py_BuildValue("(O)", key), kwd_parent);
     PyObject* e = PyTuple_GetItem(tup, 0);
     PyObject* p = PyTuple_GetItem(tup, 1);
-    reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[bt->size-1])->parent = p;
     SplayTree_splay(self, Py_BuildValue("(OO)", e, p));
 
     Py_RETURN_NONE;
@@ -169,6 +167,9 @@ static PyObject* SplayTree_join(SplayTree *self, PyObject* args) {
     BinaryTree* bt = self->sbbt->bst->binary_tree;
     BinaryTree* obt = other->sbbt->bst->binary_tree;
 
+    if (reinterpret_cast<TreeNode*>(obt->tree->_one_dimensional_array->_data[PyLong_AsLong(obt->root_idx)])->key == Py_None) {
+        Py_RETURN_NONE;
+    }
     PyObject* maxm = bt->root_idx;
     while (reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(maxm)])->right != Py_None) {
         maxm = reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(maxm)])->right;
@@ -182,21 +183,24 @@ static PyObject* SplayTree_join(SplayTree *self, PyObject* args) {
         PyErr_SetString(PyExc_ValueError, "comparator should be callable");
         return NULL;
     }
-    PyObject* arguments = Py_BuildValue("(OO)", reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(maxm)])->key, reinterpret_cast<TreeNode*>(obt->tree->_one_dimensional_array->_data[PyLong_AsLong(minm)])->key);
-    PyObject* cres = PyObject_CallObject(bt->comparator, arguments);
-    Py_DECREF(arguments);
-    if (!PyLong_Check(cres)) {
-        PyErr_SetString(PyExc_TypeError, "bad return type from comparator");
-        return NULL;
-    }
-    long long comp = PyLong_AsLongLong(cres);
-    if (comp == 0) {
-        PyErr_SetString(PyExc_ValueError, "Elements of existing Splay Tree aren't less than that of the new Splay tree.");
-        return NULL;
+    bool is_empty = reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(bt->root_idx)])->key == Py_None;
+    if (!is_empty) {
+        PyObject* arguments = Py_BuildValue("(OO)", reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(maxm)])->key, reinterpret_cast<TreeNode*>(obt->tree->_one_dimensional_array->_data[PyLong_AsLong(minm)])->key);
+        PyObject* cres = PyObject_CallObject(bt->comparator, arguments);
+        Py_DECREF(arguments);
+        if (!PyLong_Check(cres)) {
+            PyErr_SetString(PyExc_TypeError, "bad return type from comparator");
+            return NULL;
+        }
+        long long comp = PyLong_AsLongLong(cres);
+        if (comp == 0) {
+            PyErr_SetString(PyExc_ValueError, "Elements of existing Splay Tree aren't less than that of the new Splay tree.");
+            return NULL;
+        }
     }
 
     SplayTree_splay(self, Py_BuildValue("(OO)", maxm, reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(maxm)])->parent));
-    long idx_update = bt->tree->_one_dimensional_array->_size;
+    long idx_update = bt->tree->_last_pos_filled + 1;
     long n = obt->tree->_one_dimensional_array->_size;
     for (int i=0; i<n; i++) {
         PyObject* node = obt->tree->_one_dimensional_array->_data[i];
@@ -206,19 +210,37 @@ static PyObject* SplayTree_join(SplayTree *self, PyObject* args) {
                 return NULL;
             }
             TreeNode* node_copy = reinterpret_cast<TreeNode*>(TreeNode___new__(&TreeNodeType, Py_BuildValue("(OO)", treenode->key, treenode->data), PyDict_New()));
+            node_copy->size = treenode->size;
             if (treenode->left != Py_None) {
                 node_copy->left = PyLong_FromLong(PyLong_AsLong(treenode->left) + idx_update);
             }
             if (treenode->right != Py_None) {
                 node_copy->right = PyLong_FromLong(PyLong_AsLong(treenode->right) + idx_update);
             }
+            if (treenode->parent != Py_None) {
+                node_copy->parent = PyLong_FromLong(PyLong_AsLong(treenode->parent) + idx_update);
+            }
             ArrayForTrees_append(bt->tree, Py_BuildValue("(O)", node_copy));
         }
         else {
             ArrayForTrees_append(bt->tree, Py_BuildValue("(O)", node));
+            bt->tree->_num -= 1;
+        }
+    }
+    PyObject* joined_idx = PyLong_FromLong(PyLong_AsLong(obt->root_idx) + idx_update);
+    if (is_empty) {
+        PyObject* root_key = reinterpret_cast<TreeNode*>(obt->tree->_one_dimensional_array->_data[PyLong_AsLong(obt->root_idx)])->key;
+        PyObject* new_indices = ArrayForTrees_delete(bt->tree, Py_BuildValue("(O)", bt->root_idx));
+        bt->root_idx = joined_idx;
+        if (new_indices != Py_None) {
+            bt->root_idx = PyDict_GetItem(new_indices, root_key);
         }
     }
-    reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(bt->root_idx)])->right = PyLong_FromLong(PyLong_AsLong(obt->root_idx) + idx_update);
+    else {
+        reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(bt->root_idx)])->right = joined_idx;
+        reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(joined_idx)])->parent = bt->root_idx;
+        BinarySearchTree__update_size(self->sbbt->bst, Py_BuildValue("(O)", bt->root_idx));
+    }
 
     Py_RETURN_NONE;
 }
@@ -269,7 +291,7 @@ static PyObject* SplayTree_split(SplayTree *self, PyObject* args) {
             PyErr_SetString(PyExc_ValueError, "comparator should be callable");
             return NULL;
     }
-    SplayTree* other = reinterpret_cast<SplayTree*>(SplayTree___new__(self->type, Py_BuildValue("(OOOO)", Py_None, Py_None, bt->comparator, PyZero), PyDict_New()));
+    SplayTree* other = reinterpret_cast<SplayTree*>(SplayTree___new__(self->type, Py_BuildValue("(OOOO)", Py_None, Py_None, bt->comparator, PyLong_FromLong(bt->is_order_statistic)), PyDict_New()));
 
     if (reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(bt->root_idx)])->right != Py_None) {
         PyObject* elements = SplayTree__pre_order(self, Py_BuildValue("(O)", reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(bt->root_idx)])->right));
@@ -281,8 +303,15 @@ static PyObject* SplayTree_split(SplayTree *self, PyObject* args) {
             e = PyTuple_GetItem(tup, 0);
             p = PyTuple_GetItem(tup, 1);
             bt->tree->_one_dimensional_array->_data[PyLong_AsLong(e)] = Py_None;
+            bt->tree->_num -= 1;
         }
         reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(bt->root_idx)])->right = Py_None;
+        PyObject* root_key = reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(bt->root_idx)])->key;
+        PyObject* new_indices = ArrayForTrees__modify(bt->tree, NULL);
+        if (new_indices != Py_None) {
+            bt->root_idx = PyDict_GetItem(new_indices, root_key);
+        }
+        BinarySearchTree__update_size(self->sbbt->bst, Py_BuildValue("(O)", bt->root_idx));
     }
 
     return reinterpret_cast<PyObject*>(other);
-- 
2.43.0


From 3739fc156e1a05c9066842284d4a2d6f25ce550a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:02 +0000
Subject: [PATCH 58/85] fix: C++ graph queries that are not implemented
 returned nothing

---
 pydatastructs/graphs/algorithms.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pydatastructs/graphs/algorithms.py b/pydatastructs/graphs/algorithms.py
index 0cdd0e9..304e88a 100644
--- a/pydatastructs/graphs/algorithms.py
+++ b/pydatastructs/graphs/algorithms.py
@@ -366,6 +366,9 @@ def minimum_spanning_tree(graph, algorithm, **kwargs):
         from pydatastructs.graphs._backend.cpp._graph import minimum_spanning_tree_prim_adjacency_list
         if graph._impl == "adjacency_list" and algorithm == 'prim':
             return minimum_spanning_tree_prim_adjacency_list(graph)
+        raise NotImplementedError(
+        "Currently %s algorithm isn't implemented in the C++ backend "
+        "for finding minimum spanning trees of the given graph."%(algorithm))
 
 def _minimum_spanning_tree_parallel_kruskal_adjacency_list(graph, num_threads):
     mst = _generate_mst_object(graph)
@@ -834,6 +837,9 @@ def shortest_paths(graph: Graph, algorithm: str,
         from pydatastructs.graphs._backend.cpp._graph import shortest_paths_dijkstra_adjacency_list
         if graph._impl == "adjacency_list" and algorithm == 'dijkstra':
             return shortest_paths_dijkstra_adjacency_list(graph, source, target)
+        raise NotImplementedError(
+        "Currently %s algorithm isn't implemented in the C++ backend "
+        "for finding shortest paths in the given graph."%(algorithm))
 
 def _bellman_ford_adjacency_list(graph: Graph, source: str, target: str) -> tuple:
     distances, predecessor, visited, cnts = {}, {}, {}, {}
-- 
2.43.0


From 739c60e1c7094fd73b76f50777cbfb0ccd542e73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:31 +0000
Subject: [PATCH 59/85] fix: printing an empty Cartesian tree or treap failed

---
 pydatastructs/trees/binary_trees.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pydatastructs/trees/binary_trees.py b/pydatastructs/trees/binary_trees.py
index 063d788..db02f5c 100644
--- a/pydatastructs/trees/binary_trees.py
+++ b/pydatastructs/trees/binary_trees.py
@@ -890,7 +890,11 @@ class CartesianTree(SelfBalancingBinaryTree):
         for i in range(self.tree._last_pos_filled + 1):
             if self.tree[i] is not None:
                 node = self.tree[i]
-                to_be_printed[i] = (node.left, node.key, node.priority, node.data, node.right)
+                if isinstance(node, CartesianTreeNode):
+                    to_be_printed[i] = (node.left, node.key, node.priority, node.data, node.right)
+                else:
+                    # The root of an empty tree has no priority.
+                    to_be_printed[i] = (node.left, node.key, node.data, node.right)
         return str(to_be_printed)
 
 class Treap(CartesianTree):
-- 
2.43.0


From 03d9073296e663cb18a73601eadcd590226bb15c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:38 +0000
Subject: [PATCH 60/85] fix: printing an m-ary tree whose nodes have children
 failed

---
 pydatastructs/trees/m_ary_trees.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/pydatastructs/trees/m_ary_trees.py b/pydatastructs/trees/m_ary_trees.py
index 11ef37d..c154049 100644
--- a/pydatastructs/trees/m_ary_trees.py
+++ b/pydatastructs/trees/m_ary_trees.py
@@ -165,8 +165,6 @@ class MAryTree(object):
         for i in range(self.tree._last_pos_filled + 1):
             if self.tree[i] is not None:
                 node = self.tree[i]
-                to_be_printed[i] = (node.key, node.data)
-                for j in node.children:
-                    if j is not None:
-                        to_be_printed[i].append(j)
+                to_be_printed[i] = (node.key, node.data) + \
+                    tuple(j for j in node.children if j is not None)
         return str(to_be_printed)
-- 
2.43.0


From 8f0d41568506d93181e4e56b11bd34d588741538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:59 +0000
Subject: [PATCH 61/85] fix: ArrayForTrees gave a plain dynamic array on the
 C++ backend

---
 pydatastructs/linear_data_structures/arrays.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pydatastructs/linear_data_structures/arrays.py b/pydatastructs/linear_data_structures/arrays.py
index 00838cf..c870936 100644
--- a/pydatastructs/linear_data_structures/arrays.py
+++ b/pydatastructs/linear_data_structures/arrays.py
@@ -447,6 +447,11 @@ class ArrayForTrees(DynamicOneDimensionalArray):
 
     pydatastructs.linear_data_structures.arrays.DynamicOneDimensionalArray
     """
+    def __new__(cls, dtype=NoneType, *args, **kwargs):
+        if kwargs.get("backend", Backend.PYTHON) == Backend.CPP:
+            return _arrays.ArrayForTrees(dtype, *args, **kwargs)
+        return super().__new__(cls, dtype, *args, **kwargs)
+
     def _modify(self):
         if self._num/self._size < self._load_factor:
             new_indices = {}
-- 
2.43.0


From 4a6d41d993589fb605125a7dc543928379ccfa96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:56 +0000
Subject: [PATCH 62/85] fix: storing an item of the wrong type in a C++ array
 failed with SystemError instead of TypeError

---
 .../_backend/cpp/arrays/OneDimensionalArray.hpp      |  2 +-
 pydatastructs/utils/_backend/cpp/utils.hpp           | 12 ------------
 2 files changed, 1 insertion(+), 13 deletions(-)

diff --git a/pydatastructs/linear_data_structures/_backend/cpp/arrays/OneDimensionalArray.hpp b/pydatastructs/linear_data_structures/_backend/cpp/arrays/OneDimensionalArray.hpp
index 45e3c6c..13b851f 100644
--- a/pydatastructs/linear_data_structures/_backend/cpp/arrays/OneDimensionalArray.hpp
+++ b/pydatastructs/linear_data_structures/_backend/cpp/arrays/OneDimensionalArray.hpp
@@ -290,7 +290,7 @@ static int OneDimensionalArray___setitem__(OneDimensionalArray *self,
     size_t idx = (size_t)idx_ll;
 
     if (value != Py_None) {
-        if (set_exception_if_dtype_mismatch(value, self->_dtype)) {
+        if (raise_exception_if_dtype_mismatch(value, self->_dtype)) {
             return -1;
         }
     }
diff --git a/pydatastructs/utils/_backend/cpp/utils.hpp b/pydatastructs/utils/_backend/cpp/utils.hpp
index 6fd4bba..49fc9ad 100644
--- a/pydatastructs/utils/_backend/cpp/utils.hpp
+++ b/pydatastructs/utils/_backend/cpp/utils.hpp
@@ -72,18 +72,6 @@ static PyObject* __str__(PyObject** array, size_t size, long last_pos_filled=-2)
     return PyUnicode_FromString(array___str__.c_str());
 }
 
-static int set_exception_if_dtype_mismatch(PyObject* value, PyObject* dtype) {
-    if ( !PyObject_IsInstance(value, dtype) ) {
-        PyErr_WriteUnraisable(
-            PyErr_Format(PyExc_TypeError,
-            "Unable to store %s object in %s type array.",
-            PyObject_AsString(PyObject_Repr(PyObject_Type(value))),
-            PyObject_AsString(PyObject_Repr(dtype))));
-        return 1;
-    }
-    return 0;
-}
-
 static int raise_exception_if_dtype_mismatch(PyObject* value, PyObject* dtype) {
     if ( !PyObject_IsInstance(value, dtype) ) {
         PyErr_Format(PyExc_TypeError,
-- 
2.43.0


From ffc73d1c4742a5beb366827db619d97e8371d506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:56 +0000
Subject: [PATCH 63/85] fix: C++ dynamic arrays and stacks accepted items of
 the wrong type

---
 .../_backend/cpp/arrays/DynamicOneDimensionalArray.hpp       | 5 +++++
 .../_backend/cpp/stack/ArrayStack.hpp                        | 4 +++-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/pydatastructs/linear_data_structures/_backend/cpp/arrays/DynamicOneDimensionalArray.hpp b/pydatastructs/linear_data_structures/_backend/cpp/arrays/DynamicOneDimensionalArray.hpp
index 30b4bea..f67983e 100644
--- a/pydatastructs/linear_data_structures/_backend/cpp/arrays/DynamicOneDimensionalArray.hpp
+++ b/pydatastructs/linear_data_structures/_backend/cpp/arrays/DynamicOneDimensionalArray.hpp
@@ -137,6 +137,11 @@ static PyObject* DynamicOneDimensionalArray_append(DynamicOneDimensionalArray *s
         return NULL;
     }
 
+    if ( el != Py_None &&
+        raise_exception_if_dtype_mismatch(el, self->_one_dimensional_array->_dtype) ) {
+        return NULL;
+    }
+
     long _size = (long) self->_one_dimensional_array->_size;
     PyObject** _data = self->_one_dimensional_array->_data;
     if ( self->_last_pos_filled + 1 == _size ) {
diff --git a/pydatastructs/miscellaneous_data_structures/_backend/cpp/stack/ArrayStack.hpp b/pydatastructs/miscellaneous_data_structures/_backend/cpp/stack/ArrayStack.hpp
index 36633c0..ea914f2 100644
--- a/pydatastructs/miscellaneous_data_structures/_backend/cpp/stack/ArrayStack.hpp
+++ b/pydatastructs/miscellaneous_data_structures/_backend/cpp/stack/ArrayStack.hpp
@@ -82,7 +82,9 @@ static PyObject* ArrayStack_push(ArrayStack *self, PyObject* args) {
         );
     }
 
-    DynamicOneDimensionalArray_append(self->_items, args);
+    if (!DynamicOneDimensionalArray_append(self->_items, args)) {
+        return NULL;
+    }
 
     Py_RETURN_NONE;
 }
-- 
2.43.0


From a3ee038613f1ed8fe98eac8abf9f394f36c8c1f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:11 +0000
Subject: [PATCH 64/85] fix: arrays stored initial values, and
 multi-dimensional arrays any item, of the wrong type

---
 pydatastructs/linear_data_structures/arrays.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pydatastructs/linear_data_structures/arrays.py b/pydatastructs/linear_data_structures/arrays.py
index c870936..a7d8299 100644
--- a/pydatastructs/linear_data_structures/arrays.py
+++ b/pydatastructs/linear_data_structures/arrays.py
@@ -109,6 +109,8 @@ class OneDimensionalArray(Array):
             if _check_type(args[0], int):
                 obj._size = args[0]
                 init = kwargs.get('init', None)
+                if init is not None and _check_type(init, dtype) is False:
+                    init = dtype(init)
                 obj._data = [init for i in range(args[0])]
             elif _check_type(args[0], (list, tuple)):
                 data = list(args[0])
@@ -248,6 +250,8 @@ class MultiDimensionalArray(Array):
 
     def __setitem__(self, indices, element) -> None:
         self._compare_shape(indices)
+        if element is not None and _check_type(element, self._dtype) is False:
+            element = self._dtype(element)
         if isinstance(indices, int):
             self._data[indices] = element
         else:
-- 
2.43.0


From 5a8e291893149851a70cfb3e4292ef1b0c9b047c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:11 +0000
Subject: [PATCH 65/85] fix: appendleft converted the items of an array queue
 to the type of the new item

---
 pydatastructs/miscellaneous_data_structures/queue.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pydatastructs/miscellaneous_data_structures/queue.py b/pydatastructs/miscellaneous_data_structures/queue.py
index 28c3b4c..6b3811b 100644
--- a/pydatastructs/miscellaneous_data_structures/queue.py
+++ b/pydatastructs/miscellaneous_data_structures/queue.py
@@ -154,11 +154,11 @@ class ArrayQueue(Queue):
         if self.is_empty:
             self._front = 0
             self._rear = -1
-        self.items._dtype = type(x)
+            self.items._dtype = type(x)
         temp.append(x)
         for i in range(self._front, self._rear + 1):
             temp.append(self.items._data[i])
-        self.items = DynamicOneDimensionalArray(type(temp[0]), temp)
+        self.items = DynamicOneDimensionalArray(self.items._dtype, temp)
         self._update_ends()
 
     def popleft(self):
-- 
2.43.0


From 07d0f7788222d417e85e9a265c1b5509e5307a76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:40 +0000
Subject: [PATCH 66/85] fix: permutations and increasing subsequences of floats
 were truncated and those of other items failed

---
 pydatastructs/linear_data_structures/algorithms.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pydatastructs/linear_data_structures/algorithms.py b/pydatastructs/linear_data_structures/algorithms.py
index 87850c8..4d3104d 100644
--- a/pydatastructs/linear_data_structures/algorithms.py
+++ b/pydatastructs/linear_data_structures/algorithms.py
@@ -1116,12 +1116,13 @@ def longest_increasing_subsequence(array, **kwargs):
         longest_increasing_subsequence,
         kwargs.get('backend', Backend.PYTHON))
     n = len(array)
+    dtype = getattr(array, '_dtype', object)
     dp = OneDimensionalArray(int, n)
     dp.fill(0)
     parent = OneDimensionalArray(int, n)
     parent.fill(-1)
     if n == 0:
-        return OneDimensionalArray(int, 0)
+        return OneDimensionalArray(dtype, 0)
     length = 0
     for i in range(1, n):
         if array[i] <= array[dp[0]]:
@@ -1135,20 +1136,20 @@ def longest_increasing_subsequence(array, **kwargs):
             ceil = lower_bound(curr_array, array[i])
             dp[ceil] = i
             parent[i] = dp[ceil - 1]
-    ans = DynamicOneDimensionalArray(int, 0)
+    ans = DynamicOneDimensionalArray(dtype, 0)
     last_index = dp[length]
     while last_index != -1:
         ans.append(array[last_index])
         last_index = parent[last_index]
     n = ans._last_pos_filled + 1
-    ans_ODA = OneDimensionalArray(int, n)
+    ans_ODA = OneDimensionalArray(dtype, n)
     for i in range(n):
         ans_ODA[n-1-i] = ans[i]
     return ans_ODA
 
 def _permutation_util(array, start, end, comp, perm_comp):
     size = end - start + 1
-    permute = OneDimensionalArray(int, size)
+    permute = OneDimensionalArray(getattr(array, '_dtype', object), size)
     for i, j in zip(range(start, end + 1), range(size)):
         permute[j] = array[i]
     i = size - 1
-- 
2.43.0


From cbb1fb32480e0511d8a200f440798d13f7050892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:21 +0000
Subject: [PATCH 67/85] fix: skip lists only took keys that compare with
 infinity and found infinity where it was not

---
 .../linear_data_structures/linked_lists.py    | 23 ++++++++++---------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/pydatastructs/linear_data_structures/linked_lists.py b/pydatastructs/linear_data_structures/linked_lists.py
index 72810fd..24ba278 100644
--- a/pydatastructs/linear_data_structures/linked_lists.py
+++ b/pydatastructs/linear_data_structures/linked_lists.py
@@ -683,7 +683,7 @@ class SkipList(object):
         path = []
         node = self.head
         while node:
-            if node.next.key >= key:
+            if node.next.next is None or node.next.key >= key:
                 path.append(node)
                 node = node.down
             else:
@@ -691,7 +691,8 @@ class SkipList(object):
         return path
 
     def search(self, key) -> bool:
-        return self._search(key)[-1].next.key == key
+        node = self._search(key)[-1].next
+        return node.next is not None and node.key == key
 
     def insert(self, key, data=None):
         """
@@ -746,12 +747,13 @@ class SkipList(object):
         """
         path = self._search(key)
         tip = path[-1]
-        if tip.next.key != key:
+        if tip.next.next is None or tip.next.key != key:
             raise KeyError('Node with key %s is not there in %s'%(key, self))
         return_node = SkipNode(tip.next.key, tip.next.data)
         total_level = self._levels
         level = total_level - 1
-        while level >= 0 and path[level].next.key == key:
+        while (level >= 0 and path[level].next.next is not None and
+               path[level].next.key == key):
             path[level].next = path[level].next.next
             level -= 1
         walk = self.head
@@ -774,14 +776,13 @@ class SkipList(object):
         walk = self.head
         curr_level = self._levels - 1
         while walk is not None:
-            curr_node = walk
+            curr_node = walk.next
             col = 0
-            while curr_node is not None:
-                if curr_node.key != math.inf and curr_node.key != -math.inf:
-                    node2row[curr_node] = curr_level
-                    if walk.down is None:
-                        node2col[curr_node.key] = col
-                    col += 1
+            while curr_node.next is not None:
+                node2row[curr_node] = curr_level
+                if walk.down is None:
+                    node2col[curr_node.key] = col
+                col += 1
                 curr_node = curr_node.next
             walk = walk.down
             curr_level -= 1
-- 
2.43.0


From ada26ea0cfb47d172e421b14369d4efe27c8e27a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:55 +0000
Subject: [PATCH 68/85] fix: vertices created with adjacency lists could not be
 used in graphs

---
 pydatastructs/graphs/adjacency_list.py | 4 +++-
 pydatastructs/utils/misc_util.py       | 9 ++++-----
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/pydatastructs/graphs/adjacency_list.py b/pydatastructs/graphs/adjacency_list.py
index 6373bf6..974221a 100644
--- a/pydatastructs/graphs/adjacency_list.py
+++ b/pydatastructs/graphs/adjacency_list.py
@@ -86,7 +86,9 @@ class AdjacencyList(Graph):
 
         source, target = self.__getattribute__(source), \
             self.__getattribute__(target)
-        source.add_adjacent_node(target.name)
+        if not (hasattr(source, target.name) and
+                target.name in source.adjacent):
+            source.add_adjacent_node(target.name)
         if cost is not None:
             self.edge_weights[source.name + "_" + target.name] = \
                 GraphEdge(source, target, cost)
diff --git a/pydatastructs/utils/misc_util.py b/pydatastructs/utils/misc_util.py
index 529fc58..d890e7a 100644
--- a/pydatastructs/utils/misc_util.py
+++ b/pydatastructs/utils/misc_util.py
@@ -405,11 +405,10 @@ class AdjacencyListGraphNode(GraphNode):
             obj = GraphNode.__new__(cls)
             obj.name, obj.data = str(name), data
             obj._impl = 'adjacency_list'
-            if len(adjacency_list) > 0:
-                for node in adjacency_list:
-                    obj.__setattr__(node.name, node)
-            obj.adjacent = adjacency_list if len(adjacency_list) > 0 \
-                        else []
+            adjacent = {node.name: node for node in adjacency_list}
+            for node in adjacent.values():
+                obj.__setattr__(node.name, node)
+            obj.adjacent = list(adjacent)
             return obj
         else:
             from pydatastructs.graphs._backend.cpp import _graph
-- 
2.43.0


From 22f38997cd1803e2e4ca1d0ea05797c798db2893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:59 +0000
Subject: [PATCH 69/85] fix: C++ graph nodes and edges broke on big integers
 and cut off strings

---
 .../graphs/_backend/cpp/AdjacencyList.hpp     |   6 +-
 .../_backend/cpp/AdjacencyListGraphNode.hpp   |  56 ++--------
 .../utils/_backend/cpp/GraphEdge.hpp          |  76 +++++++------
 .../utils/_backend/cpp/GraphNode.hpp          | 100 +++++++++---------
 4 files changed, 104 insertions(+), 134 deletions(-)

diff --git a/pydatastructs/graphs/_backend/cpp/AdjacencyList.hpp b/pydatastructs/graphs/_backend/cpp/AdjacencyList.hpp
index fd5faf3..59b2a94 100644
--- a/pydatastructs/graphs/_backend/cpp/AdjacencyList.hpp
+++ b/pydatastructs/graphs/_backend/cpp/AdjacencyList.hpp
@@ -159,7 +159,11 @@ static PyObject* AdjacencyListGraph_num_vertices(AdjacencyListGraph* self, PyObj
 }
 
 static PyObject* AdjacencyListGraph_num_edges(AdjacencyListGraph* self, PyObject* Py_UNUSED(ignored)) {
-    return PyLong_FromSize_t(self->edges.size());
+    size_t count = 0;
+    for (const AdjacencyListGraphNode* node : self->nodes) {
+        count += node->adjacent.size();
+    }
+    return PyLong_FromSize_t(count);
 }
 
 static PyObject* AdjacencyListGraph_neighbors(AdjacencyListGraph* self, PyObject* args) {
diff --git a/pydatastructs/utils/_backend/cpp/AdjacencyListGraphNode.hpp b/pydatastructs/utils/_backend/cpp/AdjacencyListGraphNode.hpp
index 8eba375..7477ce9 100644
--- a/pydatastructs/utils/_backend/cpp/AdjacencyListGraphNode.hpp
+++ b/pydatastructs/utils/_backend/cpp/AdjacencyListGraphNode.hpp
@@ -55,24 +55,7 @@ static PyObject* AdjacencyListGraphNode_new(PyTypeObject* type, PyObject* args,
 
     self->name = std::string(name);
 
-    if (data == Py_None) {
-        self->data_type = DataType::None;
-        self->data = std::monostate{};
-    } else if (PyLong_Check(data)) {
-        self->data_type = DataType::Int;
-        self->data = static_cast<int64_t>(PyLong_AsLongLong(data));
-    } else if (PyFloat_Check(data)) {
-        self->data_type = DataType::Double;
-        self->data = PyFloat_AsDouble(data);
-    } else if (PyUnicode_Check(data)) {
-        const char* str = PyUnicode_AsUTF8(data);
-        self->data_type = DataType::String;
-        self->data = std::string(str);
-    } else {
-        self->data_type = DataType::PyObject;
-        Py_INCREF(data);
-        self->data = data;
-    }
+    GraphNode_keep(self->data, self->data_type, data);
 
     if (PyList_Check(adjacency_list)) {
         Py_ssize_t size = PyList_Size(adjacency_list);
@@ -145,7 +128,11 @@ static int AdjacencyListGraphNode_set_name(AdjacencyListGraphNode* self, PyObjec
         PyErr_SetString(PyExc_TypeError, "name must be a string");
         return -1;
     }
-    self->name = PyUnicode_AsUTF8(value);
+    const char* name = PyUnicode_AsUTF8(value);
+    if (!name) {
+        return -1;
+    }
+    self->name = name;
     return 0;
 }
 
@@ -156,7 +143,8 @@ static PyObject* AdjacencyListGraphNode_get_data(AdjacencyListGraphNode* self, v
         case DataType::Double:
             return PyFloat_FromDouble(std::get<double>(self->data));
         case DataType::String:
-            return PyUnicode_FromString(std::get<std::string>(self->data).c_str());
+            return PyUnicode_FromStringAndSize(std::get<std::string>(self->data).data(),
+                                               std::get<std::string>(self->data).size());
         case DataType::PyObject:
             Py_INCREF(std::get<PyObject*>(self->data));
             return std::get<PyObject*>(self->data);
@@ -167,33 +155,7 @@ static PyObject* AdjacencyListGraphNode_get_data(AdjacencyListGraphNode* self, v
 }
 
 static int AdjacencyListGraphNode_set_data(AdjacencyListGraphNode* self, PyObject* value, void* closure) {
-    if (self->data_type == DataType::PyObject) {
-        Py_XDECREF(std::get<PyObject*>(self->data));
-    }
-
-    if (value == Py_None) {
-        self->data_type = DataType::None;
-        self->data = std::monostate{};
-    } else if (PyLong_Check(value)) {
-        self->data_type = DataType::Int;
-        self->data = static_cast<int64_t>(PyLong_AsLongLong(value));
-    } else if (PyFloat_Check(value)) {
-        self->data_type = DataType::Double;
-        self->data = PyFloat_AsDouble(value);
-    } else if (PyUnicode_Check(value)) {
-        const char* str = PyUnicode_AsUTF8(value);
-        if (!str) {
-            PyErr_SetString(PyExc_ValueError, "Invalid UTF-8 string.");
-            return -1;
-        }
-        self->data_type = DataType::String;
-        self->data = std::string(str);
-    } else {
-        self->data_type = DataType::PyObject;
-        Py_INCREF(value);
-        self->data = value;
-    }
-    return 0;
+    return GraphNode_keep(self->data, self->data_type, value);
 }
 
 static PyObject* AdjacencyListGraphNode_get_adjacent(AdjacencyListGraphNode* self, void* closure) {
diff --git a/pydatastructs/utils/_backend/cpp/GraphEdge.hpp b/pydatastructs/utils/_backend/cpp/GraphEdge.hpp
index a1b5fa8..acec70f 100644
--- a/pydatastructs/utils/_backend/cpp/GraphEdge.hpp
+++ b/pydatastructs/utils/_backend/cpp/GraphEdge.hpp
@@ -18,6 +18,41 @@ typedef struct {
     DataType value_type;
 } GraphEdge;
 
+// Keeps value as the value of an edge.
+static int GraphEdge_keep(std::variant<std::monostate, int64_t, double, std::string>& kept,
+                          DataType& value_type, PyObject* value) {
+    if (!value) {
+        PyErr_SetString(PyExc_ValueError, "Cannot delete attributes");
+        return -1;
+    }
+    if (value == Py_None) {
+        value_type = DataType::None;
+        kept = std::monostate{};
+    } else if (PyLong_Check(value)) {
+        int64_t number = static_cast<int64_t>(PyLong_AsLongLong(value));
+        if (number == -1 && PyErr_Occurred()) {
+            return -1;
+        }
+        value_type = DataType::Int;
+        kept = number;
+    } else if (PyFloat_Check(value)) {
+        value_type = DataType::Double;
+        kept = PyFloat_AsDouble(value);
+    } else if (PyUnicode_Check(value)) {
+        Py_ssize_t size;
+        const char* str = PyUnicode_AsUTF8AndSize(value, &size);
+        if (!str) {
+            return -1;
+        }
+        value_type = DataType::String;
+        kept = std::string(str, size);
+    } else {
+        PyErr_SetString(PyExc_TypeError, "Unsupported edge value type (must be int, float, str, or None)");
+        return -1;
+    }
+    return 0;
+}
+
 static void GraphEdge_dealloc(GraphEdge* self) {
     Py_XDECREF(self->source);
     Py_XDECREF(self->target);
@@ -46,21 +81,8 @@ static PyObject* GraphEdge_new(PyTypeObject* type, PyObject* args, PyObject* kwd
     self->source = node1;
     self->target = node2;
 
-    if (value == Py_None) {
-        self->value_type = DataType::None;
-        self->value = std::monostate{};
-    } else if (PyLong_Check(value)) {
-        self->value_type = DataType::Int;
-        self->value = static_cast<int64_t>(PyLong_AsLongLong(value));
-    } else if (PyFloat_Check(value)) {
-        self->value_type = DataType::Double;
-        self->value = PyFloat_AsDouble(value);
-    } else if (PyUnicode_Check(value)) {
-        const char* str = PyUnicode_AsUTF8(value);
-        self->value_type = DataType::String;
-        self->value = std::string(str);
-    } else {
-        PyErr_SetString(PyExc_TypeError, "Unsupported edge value type (must be int, float, str, or None)");
+    if (GraphEdge_keep(self->value, self->value_type, value) < 0) {
+        Py_DECREF(self);
         return NULL;
     }
 
@@ -98,32 +120,16 @@ static PyObject* GraphEdge_get_value(GraphEdge* self, void* closure) {
         case DataType::Double:
             return PyFloat_FromDouble(std::get<double>(self->value));
         case DataType::String:
-            return PyUnicode_FromString(std::get<std::string>(self->value).c_str());
+            return PyUnicode_FromStringAndSize(std::get<std::string>(self->value).data(),
+                                               std::get<std::string>(self->value).size());
         case DataType::None:
         default:
             Py_RETURN_NONE;
     }
 }
 
-static int GraphEdge_set_value(GraphEdge* self, PyObject* value) {
-    if (value == Py_None) {
-        self->value_type = DataType::None;
-        self->value = std::monostate{};
-    } else if (PyLong_Check(value)) {
-        self->value_type = DataType::Int;
-        self->value = static_cast<int64_t>(PyLong_AsLongLong(value));
-    } else if (PyFloat_Check(value)) {
-        self->value_type = DataType::Double;
-        self->value = PyFloat_AsDouble(value);
-    } else if (PyUnicode_Check(value)) {
-        const char* str = PyUnicode_AsUTF8(value);
-        self->value_type = DataType::String;
-        self->value = std::string(str);
-    } else {
-        PyErr_SetString(PyExc_TypeError, "Edge value must be int, float, str, or None.");
-        return -1;
-    }
-    return 0;
+static int GraphEdge_set_value(GraphEdge* self, PyObject* value, void* closure) {
+    return GraphEdge_keep(self->value, self->value_type, value);
 }
 
 static PyGetSetDef GraphEdge_getsetters[] = {
diff --git a/pydatastructs/utils/_backend/cpp/GraphNode.hpp b/pydatastructs/utils/_backend/cpp/GraphNode.hpp
index 17a0748..01acbf5 100644
--- a/pydatastructs/utils/_backend/cpp/GraphNode.hpp
+++ b/pydatastructs/utils/_backend/cpp/GraphNode.hpp
@@ -17,6 +17,45 @@ enum class DataType {
     PyObject
 };
 
+// Keeps value as data: what does not fit is kept as the object it is.
+static int GraphNode_keep(std::variant<std::monostate, int64_t, double, std::string, PyObject*>& data,
+                          DataType& data_type, PyObject* value) {
+    if (!value) {
+        PyErr_SetString(PyExc_ValueError, "Cannot delete attributes");
+        return -1;
+    }
+    PyObject* old = data_type == DataType::PyObject ? std::get<PyObject*>(data) : NULL;
+    int overflow = 0;
+    Py_ssize_t size = 0;
+    const char* s = NULL;
+    int64_t number = 0;
+    if (PyLong_Check(value)) {
+        number = static_cast<int64_t>(PyLong_AsLongLongAndOverflow(value, &overflow));
+    } else if (PyUnicode_Check(value) && !(s = PyUnicode_AsUTF8AndSize(value, &size))) {
+        PyErr_Clear();
+    }
+
+    if (value == Py_None) {
+        data = std::monostate{};
+        data_type = DataType::None;
+    } else if (PyLong_Check(value) && overflow == 0) {
+        data = number;
+        data_type = DataType::Int;
+    } else if (PyFloat_Check(value)) {
+        data = PyFloat_AsDouble(value);
+        data_type = DataType::Double;
+    } else if (s) {
+        data = std::string(s, size);
+        data_type = DataType::String;
+    } else {
+        Py_INCREF(value);
+        data = value;
+        data_type = DataType::PyObject;
+    }
+    Py_XDECREF(old);
+    return 0;
+}
+
 typedef struct {
     PyObject_HEAD
     NodeType_ type_tag;
@@ -53,33 +92,7 @@ static PyObject* GraphNode_new(PyTypeObject* type, PyObject* args, PyObject* kwd
 
     self->name = std::string(name);
     self->internal_id = -1;
-    if (data == Py_None)
-    {
-        self->data = std::monostate{};
-        self->data_type = DataType::None;
-    }
-    else if (PyLong_Check(data))
-    {
-        self->data = static_cast<int64_t>(PyLong_AsLongLong(data));
-        self->data_type = DataType::Int;
-    }
-    else if (PyFloat_Check(data))
-    {
-        self->data = PyFloat_AsDouble(data);
-        self->data_type = DataType::Double;
-    }
-    else if (PyUnicode_Check(data))
-    {
-        const char* s = PyUnicode_AsUTF8(data);
-        self->data = std::string(s);
-        self->data_type = DataType::String;
-    }
-    else
-    {
-        self->data = data;
-        self->data_type = DataType::PyObject;
-        Py_INCREF(data);
-    }
+    GraphNode_keep(self->data, self->data_type, data);
 
     return reinterpret_cast<PyObject*>(self);
 }
@@ -114,7 +127,7 @@ static PyObject* GraphNode_str(GraphNode* self) {
     }
 
     repr += ")";
-    return PyUnicode_FromString(repr.c_str());
+    return PyUnicode_FromStringAndSize(repr.data(), repr.size());
 }
 
 static PyObject* GraphNode_get(GraphNode* self, void *closure) {
@@ -130,7 +143,8 @@ static PyObject* GraphNode_get(GraphNode* self, void *closure) {
             case DataType::Double:
                 return PyFloat_FromDouble(std::get<double>(self->data));
             case DataType::String:
-                return PyUnicode_FromString(std::get<std::string>(self->data).c_str());
+                return PyUnicode_FromStringAndSize(std::get<std::string>(self->data).data(),
+                                                   std::get<std::string>(self->data).size());
             case DataType::PyObject:
                 Py_INCREF(std::get<PyObject*>(self->data));
                 return std::get<PyObject*>(self->data);
@@ -151,29 +165,13 @@ static int GraphNode_set(GraphNode* self, PyObject *value, void *closure) {
             PyErr_SetString(PyExc_TypeError, "name must be a string");
             return -1;
         }
-        self->name = PyUnicode_AsUTF8(value);
-    } else if (strcmp(attr, "data") == 0) {
-        if (self->data_type == DataType::PyObject) {
-            Py_XDECREF(std::get<PyObject*>(self->data));
-        }
-
-        if (value == Py_None) {
-            self->data = std::monostate{};
-            self->data_type = DataType::None;
-        } else if (PyLong_Check(value)) {
-            self->data = static_cast<int64_t>(PyLong_AsLongLong(value));
-            self->data_type = DataType::Int;
-        } else if (PyFloat_Check(value)) {
-            self->data = PyFloat_AsDouble(value);
-            self->data_type = DataType::Double;
-        } else if (PyUnicode_Check(value)) {
-            self->data = std::string(PyUnicode_AsUTF8(value));
-            self->data_type = DataType::String;
-        } else {
-            Py_INCREF(value);
-            self->data = value;
-            self->data_type = DataType::PyObject;
+        const char* name = PyUnicode_AsUTF8(value);
+        if (!name) {
+            return -1;
         }
+        self->name = name;
+    } else if (strcmp(attr, "data") == 0) {
+        return GraphNode_keep(self->data, self->data_type, value);
     } else {
         PyErr_SetString(PyExc_AttributeError, "Unknown attribute");
         return -1;
-- 
2.43.0


From 340e1486da4b8a26e5bcee338135909bbdb96899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:35 +0000
Subject: [PATCH 70/85] fix: C++ matrix graphs rounded edge costs and kept
 edges whose cost was refused

---
 .../graphs/_backend/cpp/AdjacencyMatrix.hpp   | 23 +++++++------------
 1 file changed, 8 insertions(+), 15 deletions(-)

diff --git a/pydatastructs/graphs/_backend/cpp/AdjacencyMatrix.hpp b/pydatastructs/graphs/_backend/cpp/AdjacencyMatrix.hpp
index 4ca57d0..659942a 100644
--- a/pydatastructs/graphs/_backend/cpp/AdjacencyMatrix.hpp
+++ b/pydatastructs/graphs/_backend/cpp/AdjacencyMatrix.hpp
@@ -111,26 +111,19 @@ static PyObject* AdjacencyMatrixGraph_add_edge(AdjacencyMatrixGraph* self, PyObj
         return NULL;
     }
 
-    self->matrix[src][dst] = true;
-
     if (cost_obj != Py_None) {
-    double cost = PyFloat_AsDouble(cost_obj);
-    if (PyErr_Occurred()) return NULL;
-
-    PyObject* cost_pyfloat = PyFloat_FromDouble(cost);
-    if (!cost_pyfloat) return NULL;
+        PyObject* edge_args = PyTuple_Pack(3, reinterpret_cast<PyObject*>(self->node_map[src]), reinterpret_cast<PyObject*>(self->node_map[dst]), cost_obj);
+        if (!edge_args) return NULL;
 
-    PyObject* args = Py_BuildValue("OOO", reinterpret_cast<PyObject*>(self->node_map[src]), reinterpret_cast<PyObject*>(self->node_map[dst]), cost_pyfloat);
-    Py_DECREF(cost_pyfloat);
-    if (!args) return NULL;
+        PyObject* edge_obj = PyObject_CallObject(reinterpret_cast<PyObject*>(&GraphEdgeType), edge_args);
+        Py_DECREF(edge_args);
+        if (!edge_obj) return NULL;
 
-    PyObject* edge_obj = PyObject_CallObject(reinterpret_cast<PyObject*>(&GraphEdgeType), args);
-    Py_DECREF(args);
-    if (!edge_obj) return NULL;
-
-    self->edge_weights[make_edge_key(src, dst)] = reinterpret_cast<GraphEdge*>(edge_obj);
+        self->edge_weights[make_edge_key(src, dst)] = reinterpret_cast<GraphEdge*>(edge_obj);
     }
 
+    self->matrix[src][dst] = true;
+
     Py_RETURN_NONE;
 }
 
-- 
2.43.0


From 1c4c0d9f03c79d44707ca9dd1d39eca515b59df6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:15 +0000
Subject: [PATCH 71/85] fix: C++ graph edges were printed cut off

---
 pydatastructs/utils/_backend/cpp/GraphEdge.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pydatastructs/utils/_backend/cpp/GraphEdge.hpp b/pydatastructs/utils/_backend/cpp/GraphEdge.hpp
index acec70f..35ece21 100644
--- a/pydatastructs/utils/_backend/cpp/GraphEdge.hpp
+++ b/pydatastructs/utils/_backend/cpp/GraphEdge.hpp
@@ -110,7 +110,8 @@ static PyObject* GraphEdge_str(GraphEdge* self) {
             break;
     }
 
-    return PyUnicode_FromFormat("('%s', '%s', %s)", src.c_str(), tgt.c_str(), val_str.c_str());
+    std::string repr = "('" + src + "', '" + tgt + "', " + val_str + ")";
+    return PyUnicode_FromStringAndSize(repr.data(), repr.size());
 }
 
 static PyObject* GraphEdge_get_value(GraphEdge* self, void* closure) {
-- 
2.43.0


From fe7de497c49335d0270546af1ccb47a6041e92b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:40 +0000
Subject: [PATCH 72/85] fix: deleting from a binomial heap needed keys that can
 be decremented

---
 pydatastructs/trees/heaps.py | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/pydatastructs/trees/heaps.py b/pydatastructs/trees/heaps.py
index c3a1d54..9d111a7 100644
--- a/pydatastructs/trees/heaps.py
+++ b/pydatastructs/trees/heaps.py
@@ -534,11 +534,18 @@ class BinomialHeap(Heap):
         Deletes the node with minimum key.
         """
         min_node, min_idx = self.find_minimum(get_index=True)
+        self._delete_root(min_node, min_idx)
+
+    def _delete_root(self, root, idx):
+        """
+        Deletes the given root of the tree at
+        the given position of the root list.
+        """
         child_root_list = []
-        for k, child in enumerate(min_node.children):
+        for k, child in enumerate(root.children):
             if child is not None:
                 child_root_list.append(BinomialTree(root=child, order=k))
-        self.root_list.remove(self.root_list[min_idx])
+        self.root_list.remove(self.root_list[idx])
         child_heap = BinomialHeap(root_list=child_root_list)
         self.merge(child_heap)
 
@@ -581,5 +588,17 @@ class BinomialHeap(Heap):
         node: BinomialTreeNode
             The node which is to be deleted.
         """
-        self.decrease_key(node, self.find_minimum().key - 1)
-        self.delete_minimum()
+        if self.is_empty:
+            raise IndexError("Binomial heap is empty.")
+        root = node
+        while not root.is_root:
+            root = root.parent
+        for idx, tree in enumerate(self.root_list):
+            if tree is not None and tree.root is root:
+                break
+        else:
+            raise ValueError("The node is not in the heap.")
+        while node is not root:
+            node.key, node.data = node.parent.key, node.parent.data
+            node = node.parent
+        self._delete_root(root, idx)
-- 
2.43.0


From c742186db4da7f957d87b4398bf42e8056dd173a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:01 +0000
Subject: [PATCH 73/85] fix: C++ arrays, stacks and graph nodes printed quotes
 and fractions wrongly or crashed

---
 .../utils/_backend/cpp/GraphEdge.hpp          | 38 ++++++----------
 .../utils/_backend/cpp/GraphNode.hpp          | 43 +++++--------------
 pydatastructs/utils/_backend/cpp/utils.hpp    | 24 +++++------
 3 files changed, 35 insertions(+), 70 deletions(-)

diff --git a/pydatastructs/utils/_backend/cpp/GraphEdge.hpp b/pydatastructs/utils/_backend/cpp/GraphEdge.hpp
index 35ece21..79efa3e 100644
--- a/pydatastructs/utils/_backend/cpp/GraphEdge.hpp
+++ b/pydatastructs/utils/_backend/cpp/GraphEdge.hpp
@@ -89,31 +89,6 @@ static PyObject* GraphEdge_new(PyTypeObject* type, PyObject* args, PyObject* kwd
     return reinterpret_cast<PyObject*>(self);
 }
 
-static PyObject* GraphEdge_str(GraphEdge* self) {
-    std::string src = reinterpret_cast<GraphNode*>(self->source)->name;
-    std::string tgt = reinterpret_cast<GraphNode*>(self->target)->name;
-    std::string val_str;
-
-    switch (self->value_type) {
-        case DataType::Int:
-            val_str = std::to_string(std::get<int64_t>(self->value));
-            break;
-        case DataType::Double:
-            val_str = std::to_string(std::get<double>(self->value));
-            break;
-        case DataType::String:
-            val_str = std::get<std::string>(self->value);
-            break;
-        case DataType::None:
-        default:
-            val_str = "None";
-            break;
-    }
-
-    std::string repr = "('" + src + "', '" + tgt + "', " + val_str + ")";
-    return PyUnicode_FromStringAndSize(repr.data(), repr.size());
-}
-
 static PyObject* GraphEdge_get_value(GraphEdge* self, void* closure) {
     switch (self->value_type) {
         case DataType::Int:
@@ -129,6 +104,19 @@ static PyObject* GraphEdge_get_value(GraphEdge* self, void* closure) {
     }
 }
 
+static PyObject* GraphEdge_str(GraphEdge* self) {
+    PyObject* value = GraphEdge_get_value(self, NULL);
+    PyObject* ends = Py_BuildValue("(ss)", reinterpret_cast<GraphNode*>(self->source)->name.c_str(),
+                                   reinterpret_cast<GraphNode*>(self->target)->name.c_str());
+    PyObject* str = NULL;
+    if (value && ends) {
+        str = PyUnicode_FromFormat("(%R, %R, %S)", PyTuple_GET_ITEM(ends, 0), PyTuple_GET_ITEM(ends, 1), value);
+    }
+    Py_XDECREF(value);
+    Py_XDECREF(ends);
+    return str;
+}
+
 static int GraphEdge_set_value(GraphEdge* self, PyObject* value, void* closure) {
     return GraphEdge_keep(self->value, self->value_type, value);
 }
diff --git a/pydatastructs/utils/_backend/cpp/GraphNode.hpp b/pydatastructs/utils/_backend/cpp/GraphNode.hpp
index 01acbf5..fa9aab4 100644
--- a/pydatastructs/utils/_backend/cpp/GraphNode.hpp
+++ b/pydatastructs/utils/_backend/cpp/GraphNode.hpp
@@ -97,39 +97,6 @@ static PyObject* GraphNode_new(PyTypeObject* type, PyObject* args, PyObject* kwd
     return reinterpret_cast<PyObject*>(self);
 }
 
-static PyObject* GraphNode_str(GraphNode* self) {
-    std::string repr = "('" + self->name + "', ";
-
-    switch (self->data_type) {
-        case DataType::None:
-            repr += "None";
-            break;
-        case DataType::Int:
-            repr += std::to_string(std::get<int64_t>(self->data));
-            break;
-        case DataType::Double:
-            repr += std::to_string(std::get<double>(self->data));
-            break;
-        case DataType::String:
-            repr += "'" + std::get<std::string>(self->data) + "'";
-            break;
-        case DataType::PyObject: {
-            PyObject* repr_obj = PyObject_Repr(std::get<PyObject*>(self->data));
-            if (repr_obj) {
-                const char* repr_cstr = PyUnicode_AsUTF8(repr_obj);
-                repr += repr_cstr ? repr_cstr : "<unprintable>";
-                Py_DECREF(repr_obj);
-            } else {
-                repr += "<error in repr>";
-            }
-            break;
-        }
-    }
-
-    repr += ")";
-    return PyUnicode_FromStringAndSize(repr.data(), repr.size());
-}
-
 static PyObject* GraphNode_get(GraphNode* self, void *closure) {
     const char* attr = reinterpret_cast<const char*>(closure);
     if (strcmp(attr, "name") == 0) {
@@ -153,6 +120,16 @@ static PyObject* GraphNode_get(GraphNode* self, void *closure) {
     Py_RETURN_NONE;
 }
 
+static PyObject* GraphNode_str(GraphNode* self) {
+    PyObject* data = GraphNode_get(self, const_cast<char*>("data"));
+    if (!data) return NULL;
+    PyObject* fields = Py_BuildValue("(sN)", self->name.c_str(), data);
+    if (!fields) return NULL;
+    PyObject* str = PyObject_Str(fields);
+    Py_DECREF(fields);
+    return str;
+}
+
 static int GraphNode_set(GraphNode* self, PyObject *value, void *closure) {
     const char* attr = reinterpret_cast<const char*>(closure);
     if (!value) {
diff --git a/pydatastructs/utils/_backend/cpp/utils.hpp b/pydatastructs/utils/_backend/cpp/utils.hpp
index 49fc9ad..37a9994 100644
--- a/pydatastructs/utils/_backend/cpp/utils.hpp
+++ b/pydatastructs/utils/_backend/cpp/utils.hpp
@@ -54,22 +54,22 @@ static char* PyObject_AsString(PyObject* obj) {
 }
 
 static PyObject* __str__(PyObject** array, size_t size, long last_pos_filled=-2) {
-    std::string array___str__ = "[";
     size_t end = last_pos_filled == -2 ? size : (size_t) (last_pos_filled + 1);
+    PyObject* items = PyList_New(end);
+    if ( !items ) {
+        return NULL;
+    }
     for( size_t i = 0; i < end; i++ ) {
-        if ( array[i] == Py_None ) {
-            array___str__.append("''");
-        } else {
-            PyObject* array_i = PyObject_Str(array[i]);
-            char* i___str__ = PyObject_AsString(array_i);
-            array___str__.append("'" + std::string(i___str__) + "'");
-        }
-        if ( i + 1 != end ) {
-            array___str__.append(", ");
+        PyObject* item = array[i] == Py_None ? PyUnicode_FromString("") : PyObject_Str(array[i]);
+        if ( !item ) {
+            Py_DECREF(items);
+            return NULL;
         }
+        PyList_SET_ITEM(items, i, item);
     }
-    array___str__.push_back(']');
-    return PyUnicode_FromString(array___str__.c_str());
+    PyObject* array___str__ = PyObject_Str(items);
+    Py_DECREF(items);
+    return array___str__;
 }
 
 static int raise_exception_if_dtype_mismatch(PyObject* value, PyObject* dtype) {
-- 
2.43.0


From 482f529d83fcbd5d9f57535aa8aff9dc6deb7435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:01 +0000
Subject: [PATCH 74/85] fix: disjoint sets raised TypeError instead of KeyError
 for unknown tuple keys

---
 pydatastructs/miscellaneous_data_structures/disjoint_set.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pydatastructs/miscellaneous_data_structures/disjoint_set.py b/pydatastructs/miscellaneous_data_structures/disjoint_set.py
index 9a5caef..8fd3364 100644
--- a/pydatastructs/miscellaneous_data_structures/disjoint_set.py
+++ b/pydatastructs/miscellaneous_data_structures/disjoint_set.py
@@ -68,7 +68,7 @@ class DisjointSetForest(object):
         splitting algorithm.
         """
         if self.tree.get(key, None) is None:
-            raise KeyError("Invalid key, %s"%(key))
+            raise KeyError("Invalid key, %s"%(key,))
         _set = self.tree[key]
         while _set.parent is not _set:
             _set, _set.parent = _set.parent, _set.parent.parent
@@ -96,7 +96,7 @@ class DisjointSetForest(object):
         and makes it as the root of the set.
         """
         if self.tree.get(key, None) is None:
-            raise KeyError("Invalid key, %s"%(key))
+            raise KeyError("Invalid key, %s"%(key,))
 
         key_set = self.tree[key]
         if key_set.parent is not key_set:
@@ -121,7 +121,7 @@ class DisjointSetForest(object):
         Finds the size of set to which the key belongs.
         """
         if self.tree.get(key, None) is None:
-            raise KeyError("Invalid key, %s"%(key))
+            raise KeyError("Invalid key, %s"%(key,))
 
         return self.find_root(key).size
 
-- 
2.43.0


From 38a0c6f70bb497efb10d92d73e0b1ccc3173a2e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:07 +0000
Subject: [PATCH 75/85] fix: empty or invalid tuples given as arrays and
 intervals were refused with TypeError instead of ValueError

---
 pydatastructs/miscellaneous_data_structures/algorithms.py   | 4 ++--
 pydatastructs/miscellaneous_data_structures/sparse_table.py | 2 +-
 pydatastructs/trees/space_partitioning_trees.py             | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pydatastructs/miscellaneous_data_structures/algorithms.py b/pydatastructs/miscellaneous_data_structures/algorithms.py
index 3c2f865..24195a6 100644
--- a/pydatastructs/miscellaneous_data_structures/algorithms.py
+++ b/pydatastructs/miscellaneous_data_structures/algorithms.py
@@ -83,7 +83,7 @@ class RangeQueryStatic:
         raise_if_backend_is_not_python(
             cls, kwargs.get('backend', Backend.PYTHON))
         if len(array) == 0:
-            raise ValueError("Input %s array is empty."%(array))
+            raise ValueError("Input %s array is empty."%(array,))
 
         if data_structure == 'array':
             return RangeQueryStaticArray(array, func)
@@ -243,7 +243,7 @@ class RangeQueryDynamic:
             cls, kwargs.get('backend', Backend.PYTHON))
 
         if len(array) == 0:
-            raise ValueError("Input %s array is empty."%(array))
+            raise ValueError("Input %s array is empty."%(array,))
 
         if data_structure == 'array':
             return RangeQueryDynamicArray(array, func, **kwargs)
diff --git a/pydatastructs/miscellaneous_data_structures/sparse_table.py b/pydatastructs/miscellaneous_data_structures/sparse_table.py
index e4b1d89..2ff9d90 100644
--- a/pydatastructs/miscellaneous_data_structures/sparse_table.py
+++ b/pydatastructs/miscellaneous_data_structures/sparse_table.py
@@ -60,7 +60,7 @@ class SparseTable(object):
 
         # TODO: If possible remove the following check.
         if len(array) == 0:
-            raise ValueError("Input %s array is empty."%(array))
+            raise ValueError("Input %s array is empty."%(array,))
 
         obj = object.__new__(cls)
         size = len(array)
diff --git a/pydatastructs/trees/space_partitioning_trees.py b/pydatastructs/trees/space_partitioning_trees.py
index 8414788..8b36f4f 100644
--- a/pydatastructs/trees/space_partitioning_trees.py
+++ b/pydatastructs/trees/space_partitioning_trees.py
@@ -56,7 +56,7 @@ class OneDimensionalSegmentTree(object):
         obj = object.__new__(cls)
         if any((not isinstance(seg, (tuple, list, set)) or len(seg) != 2)
                 for seg in segs):
-                    raise ValueError('%s is invalid set of intervals'%(segs))
+                    raise ValueError('%s is invalid set of intervals'%(segs,))
         obj.segments = [sorted(seg) for seg in segs]
         obj.tree, obj.root_idx, obj.cache = [], None, False
         return obj
-- 
2.43.0


From 33a7679bc8ee10137520c244d871a1bd890a4ca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:45 +0000
Subject: [PATCH 76/85] fix: C++ graph nodes ignored neighbours not given as a
 list and lost them when given wrong ones

---
 .../_backend/cpp/AdjacencyListGraphNode.hpp   | 37 ++++++++++++++-----
 1 file changed, 27 insertions(+), 10 deletions(-)

diff --git a/pydatastructs/utils/_backend/cpp/AdjacencyListGraphNode.hpp b/pydatastructs/utils/_backend/cpp/AdjacencyListGraphNode.hpp
index 7477ce9..8a6eba4 100644
--- a/pydatastructs/utils/_backend/cpp/AdjacencyListGraphNode.hpp
+++ b/pydatastructs/utils/_backend/cpp/AdjacencyListGraphNode.hpp
@@ -57,21 +57,30 @@ static PyObject* AdjacencyListGraphNode_new(PyTypeObject* type, PyObject* args,
 
     GraphNode_keep(self->data, self->data_type, data);
 
-    if (PyList_Check(adjacency_list)) {
-        Py_ssize_t size = PyList_Size(adjacency_list);
+    if (adjacency_list != Py_None) {
+        PyObject* nodes = PySequence_Fast(adjacency_list, "Adjacency list must be iterable");
+        if (!nodes) {
+            Py_DECREF(self);
+            return NULL;
+        }
+        Py_ssize_t size = PySequence_Fast_GET_SIZE(nodes);
         for (Py_ssize_t i = 0; i < size; i++) {
-            PyObject* node = PyList_GetItem(adjacency_list, i);
+            PyObject* node = PySequence_Fast_GET_ITEM(nodes, i);
 
             if (!PyObject_IsInstance(node, (PyObject*)&AdjacencyListGraphNodeType)) {
                 PyErr_SetString(PyExc_TypeError, "Adjacency list must contain only AdjacencyListGraphNode instances");
+                Py_DECREF(nodes);
+                Py_DECREF(self);
                 return NULL;
             }
 
-            const char* adj_name = (reinterpret_cast<AdjacencyListGraphNode*>(node))->name.c_str();
-            std::string str = std::string(adj_name);
+            std::string str = (reinterpret_cast<AdjacencyListGraphNode*>(node))->name;
             Py_INCREF(node);
-            self->adjacent[str] = node;
+            PyObject*& known = self->adjacent[str];
+            Py_XDECREF(known);
+            known = node;
         }
+        Py_DECREF(nodes);
     }
 
     return reinterpret_cast<PyObject*>(self);
@@ -175,8 +184,7 @@ static int AdjacencyListGraphNode_set_adjacent(AdjacencyListGraphNode* self, PyO
         return -1;
     }
 
-    self->adjacent.clear();
-
+    std::unordered_map<std::string, PyObject*> adjacent;
     PyObject *key, *val;
     Py_ssize_t pos = 0;
     while (PyDict_Next(value, &pos, &key, &val)) {
@@ -186,10 +194,19 @@ static int AdjacencyListGraphNode_set_adjacent(AdjacencyListGraphNode* self, PyO
         }
 
         const char* key_str = PyUnicode_AsUTF8(key);
-        Py_INCREF(val);
-        self->adjacent[key_str] = val;
+        if (!key_str) {
+            return -1;
+        }
+        adjacent[key_str] = val;
     }
 
+    for (auto& pair : adjacent) {
+        Py_INCREF(pair.second);
+    }
+    self->adjacent.swap(adjacent);
+    for (auto& pair : adjacent) {
+        Py_XDECREF(pair.second);
+    }
     return 0;
 }
 
-- 
2.43.0


From 8f41b8da00285212eb5b8f5d059ee95364ad02de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:15 +0000
Subject: [PATCH 77/85] fix: heaps changed the nodes they were made of, so that
 two heaps over the same nodes spoiled each other

---
 pydatastructs/trees/heaps.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pydatastructs/trees/heaps.py b/pydatastructs/trees/heaps.py
index 9d111a7..f868a42 100644
--- a/pydatastructs/trees/heaps.py
+++ b/pydatastructs/trees/heaps.py
@@ -102,6 +102,9 @@ class DHeap(Heap):
             raise ValueError(f'Expected a list/tuple/Array of TreeNode got {type(elements)}')
         obj.heap = elements
         obj._last_pos_filled = obj.heap._last_pos_filled
+        for i in range(obj._last_pos_filled + 1):
+            # the nodes of the caller may be used elsewhere
+            obj.heap[i] = TreeNode(elements[i].key, elements[i].data)
         obj._build()
         return obj
 
-- 
2.43.0


From 71f501b10effbcbb6397be00306c7545e170f81d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:35 +0000
Subject: [PATCH 78/85] fix: dynamic arrays lost items written into empty cells
 or filled in

---
 .../_backend/cpp/arrays/ArrayForTrees.hpp     | 24 +++++++++++++++++--
 .../cpp/arrays/DynamicOneDimensionalArray.hpp | 24 +++++++++++++++++--
 .../linear_data_structures/arrays.py          | 21 ++++++++++++----
 pydatastructs/trees/binary_trees.py           |  1 -
 4 files changed, 61 insertions(+), 9 deletions(-)

diff --git a/pydatastructs/linear_data_structures/_backend/cpp/arrays/ArrayForTrees.hpp b/pydatastructs/linear_data_structures/_backend/cpp/arrays/ArrayForTrees.hpp
index 23daa32..8be570e 100644
--- a/pydatastructs/linear_data_structures/_backend/cpp/arrays/ArrayForTrees.hpp
+++ b/pydatastructs/linear_data_structures/_backend/cpp/arrays/ArrayForTrees.hpp
@@ -67,11 +67,31 @@ static PyObject* ArrayForTrees___getitem__(ArrayForTrees *self,
 
 static int ArrayForTrees___setitem__(ArrayForTrees *self,
                                                   PyObject* arg, PyObject* value) {
-    return OneDimensionalArray___setitem__(self->_one_dimensional_array, arg, value);
+    long idx = PyLong_AsLong(arg);
+    PyErr_Clear();
+    bool was_filled = idx >= 0 && idx < (long) self->_one_dimensional_array->_size &&
+                      self->_one_dimensional_array->_data[idx] != Py_None;
+    if ( OneDimensionalArray___setitem__(self->_one_dimensional_array, arg, value) < 0 ) {
+        return -1;
+    }
+    bool is_filled = value != Py_None;
+    self->_num += (long) is_filled - (long) was_filled;
+    if ( is_filled && idx > self->_last_pos_filled ) {
+        self->_last_pos_filled = idx;
+    }
+    return 0;
 }
 
 static PyObject* ArrayForTrees_fill(ArrayForTrees *self, PyObject *args) {
-    return OneDimensionalArray_fill(self->_one_dimensional_array, args);
+    PyObject* filled = OneDimensionalArray_fill(self->_one_dimensional_array, args);
+    if ( filled ) {
+        self->_num = 0;
+        if ( PyTuple_GetItem(args, 0) != Py_None ) {
+            self->_num = (long) self->_one_dimensional_array->_size;
+        }
+        self->_last_pos_filled = self->_num - 1;
+    }
+    return filled;
 }
 
 static Py_ssize_t ArrayForTrees___len__(ArrayForTrees *self) {
diff --git a/pydatastructs/linear_data_structures/_backend/cpp/arrays/DynamicOneDimensionalArray.hpp b/pydatastructs/linear_data_structures/_backend/cpp/arrays/DynamicOneDimensionalArray.hpp
index f67983e..22cb119 100644
--- a/pydatastructs/linear_data_structures/_backend/cpp/arrays/DynamicOneDimensionalArray.hpp
+++ b/pydatastructs/linear_data_structures/_backend/cpp/arrays/DynamicOneDimensionalArray.hpp
@@ -66,11 +66,31 @@ static PyObject* DynamicOneDimensionalArray___getitem__(DynamicOneDimensionalArr
 
 static int DynamicOneDimensionalArray___setitem__(DynamicOneDimensionalArray *self,
                                                   PyObject* arg, PyObject* value) {
-    return OneDimensionalArray___setitem__(self->_one_dimensional_array, arg, value);
+    long idx = PyLong_AsLong(arg);
+    PyErr_Clear();
+    bool was_filled = idx >= 0 && idx < (long) self->_one_dimensional_array->_size &&
+                      self->_one_dimensional_array->_data[idx] != Py_None;
+    if ( OneDimensionalArray___setitem__(self->_one_dimensional_array, arg, value) < 0 ) {
+        return -1;
+    }
+    bool is_filled = value != Py_None;
+    self->_num += (long) is_filled - (long) was_filled;
+    if ( is_filled && idx > self->_last_pos_filled ) {
+        self->_last_pos_filled = idx;
+    }
+    return 0;
 }
 
 static PyObject* DynamicOneDimensionalArray_fill(DynamicOneDimensionalArray *self, PyObject *args) {
-    return OneDimensionalArray_fill(self->_one_dimensional_array, args);
+    PyObject* filled = OneDimensionalArray_fill(self->_one_dimensional_array, args);
+    if ( filled ) {
+        self->_num = 0;
+        if ( PyTuple_GetItem(args, 0) != Py_None ) {
+            self->_num = (long) self->_one_dimensional_array->_size;
+        }
+        self->_last_pos_filled = self->_num - 1;
+    }
+    return filled;
 }
 
 static Py_ssize_t DynamicOneDimensionalArray___len__(DynamicOneDimensionalArray *self) {
diff --git a/pydatastructs/linear_data_structures/arrays.py b/pydatastructs/linear_data_structures/arrays.py
index a7d8299..44ab6b5 100644
--- a/pydatastructs/linear_data_structures/arrays.py
+++ b/pydatastructs/linear_data_structures/arrays.py
@@ -372,10 +372,24 @@ class DynamicOneDimensionalArray(DynamicArray, OneDimensionalArray):
 
     @classmethod
     def methods(cls):
-        return ['__new__', '_modify',
-        'append', 'delete', 'size',
+        return ['__new__', '__setitem__', 'fill',
+        '_modify', 'append', 'delete', 'size',
         '__str__', '__reversed__']
 
+    def __setitem__(self, idx, elem):
+        was_filled = self._data[idx] is not None
+        super().__setitem__(idx, elem)
+        is_filled = self._data[idx] is not None
+        self._num += is_filled - was_filled
+        if is_filled:
+            self._last_pos_filled = max(self._last_pos_filled,
+                                        idx % self._size)
+
+    def fill(self, elem):
+        super().fill(elem)
+        self._num = self._size
+        self._last_pos_filled = self._size - 1
+
     def _modify(self, force=False):
         """
         Contracts the array if Num(T)/Size(T) falls
@@ -406,7 +420,7 @@ class DynamicOneDimensionalArray(DynamicArray, OneDimensionalArray):
             self._size = arr_new._size
             self._data = arr_new._data
         else:
-            self[self._last_pos_filled + 1] = el
+            super().__setitem__(self._last_pos_filled + 1, el)
         self._last_pos_filled += 1
         self._num += 1
         self._modify()
@@ -415,7 +429,6 @@ class DynamicOneDimensionalArray(DynamicArray, OneDimensionalArray):
         if idx <= self._last_pos_filled and idx >= 0 and \
             self[idx] is not None:
             self[idx] = None
-            self._num -= 1
             if self._last_pos_filled == idx:
                 self._last_pos_filled -= 1
             return self._modify()
diff --git a/pydatastructs/trees/binary_trees.py b/pydatastructs/trees/binary_trees.py
index db02f5c..44f7659 100644
--- a/pydatastructs/trees/binary_trees.py
+++ b/pydatastructs/trees/binary_trees.py
@@ -1253,7 +1253,6 @@ class SplayTree(SelfBalancingBinaryTree):
             for j in range(len(elements) - 1, -1, -1):
                 e, p = super(SelfBalancingBinaryTree, self).search(elements[j].key, parent=True)
                 self.tree[e] = None
-                self.tree._num -= 1
             self.tree[self.root_idx].right = None
             root_key = self.tree[self.root_idx].key
             new_indices = self.tree._modify()
-- 
2.43.0


From 5f8651532965ff1377b0a953be6cd63a8554ba52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:00 +0000
Subject: [PATCH 79/85] fix: Prim's algorithm failed on graphs without vertices

---
 pydatastructs/graphs/algorithms.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pydatastructs/graphs/algorithms.py b/pydatastructs/graphs/algorithms.py
index 304e88a..d9cb3d3 100644
--- a/pydatastructs/graphs/algorithms.py
+++ b/pydatastructs/graphs/algorithms.py
@@ -274,6 +274,8 @@ def _minimum_spanning_tree_prim_adjacency_list(graph):
     q = PriorityQueue(implementation='binomial_heap')
     e = {}
     mst = Graph(implementation='adjacency_list')
+    if not graph.vertices:
+        return mst
     q.push(next(iter(graph.vertices)), 0)
     while not q.is_empty:
         v = q.pop()
@@ -398,6 +400,8 @@ def _minimum_spanning_tree_parallel_prim_adjacency_list(graph, num_threads):
     e = [{} for _ in range(num_threads)]
     v2q = {}
     mst = Graph(implementation='adjacency_list')
+    if not graph.vertices:
+        return mst
 
     itr = iter(graph.vertices)
     for i in range(len(graph.vertices)):
-- 
2.43.0


From 1a7688ff286880cc1bcd0c6567b8f3822fa265f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:59 +0000
Subject: [PATCH 80/85] fix: keys which cannot be compared crashed the C++
 trees

---
 pydatastructs/trees/_backend/cpp/AVLTree.hpp  | 10 ++++-
 .../trees/_backend/cpp/BinarySearchTree.hpp   | 42 +++++++++++++++++++
 .../trees/_backend/cpp/CartesianTree.hpp      |  9 +++-
 .../trees/_backend/cpp/RedBlackTree.hpp       |  9 +++-
 .../trees/_backend/cpp/SplayTree.hpp          | 13 +++++-
 5 files changed, 78 insertions(+), 5 deletions(-)

diff --git a/pydatastructs/trees/_backend/cpp/AVLTree.hpp b/pydatastructs/trees/_backend/cpp/AVLTree.hpp
index 97bd4a1..80d8128 100644
--- a/pydatastructs/trees/_backend/cpp/AVLTree.hpp
+++ b/pydatastructs/trees/_backend/cpp/AVLTree.hpp
@@ -241,7 +241,9 @@ static PyObject* AVLTree_insert(AVLTree* self, PyObject *args) {
     if (!PyArg_ParseTuple(args, "O|O", &key, &data)) { // data is optional
         return NULL;
     }
-    SelfBalancingBinaryTree_insert(self->sbbt, Py_BuildValue("(OO)", key, data));
+    if (!SelfBalancingBinaryTree_insert(self->sbbt, Py_BuildValue("(OO)", key, data))) {
+        return NULL;
+    }
     BinaryTree* bt = self->sbbt->bst->binary_tree;
     PyObject* s = SelfBalancingBinaryTree_search(self->sbbt, Py_BuildValue("(O)", key), PyDict_New());
     AVLTree__balance_insertion(self, Py_BuildValue("(OO)", s, reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(s)])->parent));
@@ -304,7 +306,11 @@ static PyObject* AVLTree__balance_delete(AVLTree* self, PyObject *args) {
 static PyObject* AVLTree_delete(AVLTree* self, PyObject *args, PyObject *kwds) {
     PyObject* key = PyObject_GetItem(args, PyZero);
 
-    if (SelfBalancingBinaryTree_search(self->sbbt, Py_BuildValue("(O)", key), PyDict_New()) == Py_None) {
+    PyObject* node_idx = SelfBalancingBinaryTree_search(self->sbbt, Py_BuildValue("(O)", key), PyDict_New());
+    if (!node_idx) {
+        return NULL;
+    }
+    if (node_idx == Py_None) {
         Py_RETURN_NONE;
     }
 
diff --git a/pydatastructs/trees/_backend/cpp/BinarySearchTree.hpp b/pydatastructs/trees/_backend/cpp/BinarySearchTree.hpp
index 49c0dbe..29d0e1d 100644
--- a/pydatastructs/trees/_backend/cpp/BinarySearchTree.hpp
+++ b/pydatastructs/trees/_backend/cpp/BinarySearchTree.hpp
@@ -111,6 +111,9 @@ static PyObject* BinarySearchTree_search(BinarySearchTree* self, PyObject* args,
         PyObject* arguments = Py_BuildValue("(OO)", key, curr_key);
         PyObject* res = PyObject_CallObject(bt->comparator, arguments);
         Py_DECREF(arguments);
+        if (!res) {
+            return NULL;
+        }
         if (!PyLong_Check(res)) {
             PyErr_SetString(PyExc_TypeError, "bad return type from comparator");
             return NULL;
@@ -149,6 +152,9 @@ static PyObject* BinarySearchTree_insert(BinarySearchTree* self, PyObject* args)
     Py_INCREF(data);
 
     PyObject* res = BinarySearchTree_search(self, Py_BuildValue("(O)",key), PyDict_New()); // keywords should be a dictionary, so empty dictionary here as no keywords
+    if (!res) {
+        return NULL;
+    }
     BinaryTree* bt = self->binary_tree;
     if (res != Py_None) {
         reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(res)])->data = data;
@@ -178,6 +184,9 @@ static PyObject* BinarySearchTree_insert(BinarySearchTree* self, PyObject* args)
         PyObject* arguments = Py_BuildValue("(OO)", key, curr_key);
         PyObject* cres = PyObject_CallObject(bt->comparator, arguments);
         Py_DECREF(arguments);
+        if (!cres) {
+            return NULL;
+        }
         if (!PyLong_Check(cres)) {
             PyErr_SetString(PyExc_TypeError, "bad return type from comparator");
             return NULL;
@@ -223,6 +232,9 @@ static PyObject* BinarySearchTree_delete(BinarySearchTree* self, PyObject *args,
     PyObject* kwd_parent = PyDict_New();
     PyDict_SetItemString(kwd_parent, "parent", PyLong_FromLong(1));
     PyObject* tup = BinarySearchTree_search(self, Py_BuildValue("(O)",key), kwd_parent);
+    if (!tup) {
+        return NULL;
+    }
     PyObject* walk = PyTuple_GetItem(tup, 0);
     PyObject* parent = PyTuple_GetItem(tup, 1);
     Py_INCREF(Py_None);
@@ -377,6 +389,9 @@ static PyObject* BinarySearchTree__bound_helper(BinarySearchTree* self, PyObject
     PyObject* arguments = Py_BuildValue("(OO)", reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(node_idx)])->key, bound_key);
     PyObject* cres = PyObject_CallObject(bt->comparator, arguments);
     Py_DECREF(arguments);
+    if (!cres) {
+        return NULL;
+    }
     if (!PyLong_Check(cres)) {
         PyErr_SetString(PyExc_TypeError, "bad return type from comparator");
         return NULL;
@@ -473,7 +488,13 @@ static PyObject* BinarySearchTree__lca_2(BinarySearchTree* self, PyObject* args)
 
     PyObject* curr_root = bt->root_idx;
     PyObject* u = BinarySearchTree_search(self, Py_BuildValue("(O)",j), PyDict_New());
+    if (!u) {
+        return NULL;
+    }
     PyObject* v = BinarySearchTree_search(self, Py_BuildValue("(O)",k), PyDict_New());
+    if (!v) {
+        return NULL;
+    }
 
     if (u==Py_None || v==Py_None) {
         PyErr_SetString(PyExc_ValueError, "One of the nodes doesn't exist.");
@@ -491,6 +512,9 @@ static PyObject* BinarySearchTree__lca_2(BinarySearchTree* self, PyObject* args)
     PyObject* arguments1 = Py_BuildValue("(OO)", reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(u)])->key, reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(curr_root)])->key);
     PyObject* cres1 = PyObject_CallObject(bt->comparator, arguments1);
     Py_DECREF(arguments1);
+    if (!cres1) {
+        return NULL;
+    }
     if (!PyLong_Check(cres1)) {
         PyErr_SetString(PyExc_TypeError, "bad return type from comparator");
         return NULL;
@@ -504,6 +528,9 @@ static PyObject* BinarySearchTree__lca_2(BinarySearchTree* self, PyObject* args)
     PyObject* arguments2 = Py_BuildValue("(OO)", reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(v)])->key, reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(curr_root)])->key);
     PyObject* cres2 = PyObject_CallObject(bt->comparator, arguments2);
     Py_DECREF(arguments2);
+    if (!cres2) {
+        return NULL;
+    }
     if (!PyLong_Check(cres2)) {
         PyErr_SetString(PyExc_TypeError, "bad return type from comparator");
         return NULL;
@@ -533,6 +560,9 @@ static PyObject* BinarySearchTree__lca_2(BinarySearchTree* self, PyObject* args)
         PyObject* arguments1 = Py_BuildValue("(OO)", reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(u)])->key, reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(curr_root)])->key);
         PyObject* cres1 = PyObject_CallObject(bt->comparator, arguments1);
         Py_DECREF(arguments1);
+        if (!cres1) {
+            return NULL;
+        }
         if (!PyLong_Check(cres1)) {
             PyErr_SetString(PyExc_TypeError, "bad return type from comparator");
             return NULL;
@@ -546,6 +576,9 @@ static PyObject* BinarySearchTree__lca_2(BinarySearchTree* self, PyObject* args)
         PyObject* arguments2 = Py_BuildValue("(OO)", reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(v)])->key, reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(curr_root)])->key);
         PyObject* cres2 = PyObject_CallObject(bt->comparator, arguments2);
         Py_DECREF(arguments2);
+        if (!cres2) {
+            return NULL;
+        }
         if (!PyLong_Check(cres2)) {
             PyErr_SetString(PyExc_TypeError, "bad return type from comparator");
             return NULL;
@@ -581,6 +614,9 @@ static PyObject* BinarySearchTree_lowest_common_ancestor(BinarySearchTree* self,
 static PyObject* BinarySearchTree_rank(BinarySearchTree* self, PyObject* args) {
     PyObject* x = PyObject_GetItem(args, PyZero);
     PyObject* walk = BinarySearchTree_search(self, Py_BuildValue("(O)",x), PyDict_New());
+    if (!walk) {
+        return NULL;
+    }
     if (walk == Py_None) {
         Py_RETURN_NONE;
     }
@@ -630,6 +666,9 @@ static PyObject* BinarySearchTree_select(BinarySearchTree* self, PyObject* args)
             PyObject* arguments = Py_BuildValue("(OO)", reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(left_walk)])->key, reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(walk)])->key);
             PyObject* cres = PyObject_CallObject(bt->comparator, arguments);
             Py_DECREF(arguments);
+            if (!cres) {
+                return NULL;
+            }
             if (!PyLong_Check(cres)) {
                 PyErr_SetString(PyExc_TypeError, "bad return type from comparator");
                 return NULL;
@@ -651,6 +690,9 @@ static PyObject* BinarySearchTree_select(BinarySearchTree* self, PyObject* args)
             PyObject* arguments = Py_BuildValue("(OO)", reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(right_walk)])->key, reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(walk)])->key);
             PyObject* cres = PyObject_CallObject(bt->comparator, arguments);
             Py_DECREF(arguments);
+            if (!cres) {
+                return NULL;
+            }
             if (!PyLong_Check(cres)) {
                 PyErr_SetString(PyExc_TypeError, "bad return type from comparator");
                 return NULL;
diff --git a/pydatastructs/trees/_backend/cpp/CartesianTree.hpp b/pydatastructs/trees/_backend/cpp/CartesianTree.hpp
index b1aef11..bd3cf03 100644
--- a/pydatastructs/trees/_backend/cpp/CartesianTree.hpp
+++ b/pydatastructs/trees/_backend/cpp/CartesianTree.hpp
@@ -111,7 +111,11 @@ static PyObject* CartesianTree_insert(CartesianTree *self, PyObject* args) {
     BinaryTree* bt = self->sbbt->bst->binary_tree;
 
     // A key which is already present gets its new priority by being inserted again.
-    if (SelfBalancingBinaryTree_search(self->sbbt, Py_BuildValue("(O)", key), PyDict_New()) != Py_None) {
+    PyObject* present_idx = SelfBalancingBinaryTree_search(self->sbbt, Py_BuildValue("(O)", key), PyDict_New());
+    if (!present_idx) {
+        return NULL;
+    }
+    if (present_idx != Py_None) {
         CartesianTree_delete(self, Py_BuildValue("(O)", key), PyDict_New());
     }
     SelfBalancingBinaryTree_insert(self->sbbt, Py_BuildValue("(OO)", key, data));
@@ -146,6 +150,9 @@ static PyObject* CartesianTree_delete(CartesianTree* self, PyObject *args, PyObj
         return NULL;
     }
     PyObject* node_idx = SelfBalancingBinaryTree_search(self->sbbt, Py_BuildValue("(O)", key), PyDict_New());
+    if (!node_idx) {
+        return NULL;
+    }
     if (node_idx != Py_None) {
         Cartesian_Tree__trickle_down(self, Py_BuildValue("(O)", node_idx));
         PyObject* kwd_bal = PyDict_New();
diff --git a/pydatastructs/trees/_backend/cpp/RedBlackTree.hpp b/pydatastructs/trees/_backend/cpp/RedBlackTree.hpp
index 6819c35..e889b2e 100644
--- a/pydatastructs/trees/_backend/cpp/RedBlackTree.hpp
+++ b/pydatastructs/trees/_backend/cpp/RedBlackTree.hpp
@@ -167,7 +167,11 @@ static PyObject* RedBlackTree_insert(RedBlackTree *self, PyObject* args) {
     if (!PyArg_ParseTuple(args, "O|O", &key, &data)) { // data is optional
         return NULL;
     }
-    bool is_present = SelfBalancingBinaryTree_search(self->sbbt, Py_BuildValue("(O)", key), PyDict_New()) != Py_None;
+    PyObject* present_idx = SelfBalancingBinaryTree_search(self->sbbt, Py_BuildValue("(O)", key), PyDict_New());
+    if (!present_idx) {
+        return NULL;
+    }
+    bool is_present = present_idx != Py_None;
     SelfBalancingBinaryTree_insert(self->sbbt, Py_BuildValue("(OO)", key, data));
     if (is_present) {
         Py_RETURN_NONE;
@@ -571,6 +575,9 @@ static PyObject* RedBlackTree_delete(RedBlackTree* self, PyObject *args, PyObjec
     BinaryTree* bt = self->sbbt->bst->binary_tree;
 
     PyObject* walk = BinarySearchTree_search(self->sbbt->bst, Py_BuildValue("(O)", key), PyDict_New());
+    if (!walk) {
+        return NULL;
+    }
     if (walk != Py_None) {
         PyObject* walk1 = RedBlackTree__replace_node(self, Py_BuildValue("(O)", walk));
         if (RedBlackTree__has_two_child(self, Py_BuildValue("(O)", walk)) == Py_True) {
diff --git a/pydatastructs/trees/_backend/cpp/SplayTree.hpp b/pydatastructs/trees/_backend/cpp/SplayTree.hpp
index bdb9146..3e0fa3a 100644
--- a/pydatastructs/trees/_backend/cpp/SplayTree.hpp
+++ b/pydatastructs/trees/_backend/cpp/SplayTree.hpp
@@ -133,7 +133,9 @@ static PyObject* SplayTree_insert(SplayTree *self, PyObject* args) {
     PyObject* key = PyObject_GetItem(args, PyZero);
     PyObject* x = PyObject_GetItem(args, PyOne);
 
-    SelfBalancingBinaryTree_insert(self->sbbt, args);
+    if (!SelfBalancingBinaryTree_insert(self->sbbt, args)) {
+        return NULL;
+    }
     PyObject* kwd_parent = PyDict_New();
     PyDict_SetItemString(kwd_parent, "parent", PyLong_FromLong(1));
     PyObject* tup = SelfBalancingBinaryTree_search(self->sbbt, Py_BuildValue("(O)", key), kwd_parent);
@@ -151,6 +153,9 @@ static PyObject* SplayTree_delete(SplayTree *self, PyObject* args) {
     PyObject* kwd_parent = PyDict_New();
     PyDict_SetItemString(kwd_parent, "parent", PyLong_FromLong(1));
     PyObject* tup = SelfBalancingBinaryTree_search(self->sbbt, Py_BuildValue("(O)", x), kwd_parent);
+    if (!tup) {
+        return NULL;
+    }
     PyObject* e = PyTuple_GetItem(tup, 0);
     PyObject* p = PyTuple_GetItem(tup, 1);
     if (e == Py_None) {
@@ -188,6 +193,9 @@ static PyObject* SplayTree_join(SplayTree *self, PyObject* args) {
         PyObject* arguments = Py_BuildValue("(OO)", reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(maxm)])->key, reinterpret_cast<TreeNode*>(obt->tree->_one_dimensional_array->_data[PyLong_AsLong(minm)])->key);
         PyObject* cres = PyObject_CallObject(bt->comparator, arguments);
         Py_DECREF(arguments);
+        if (!cres) {
+            return NULL;
+        }
         if (!PyLong_Check(cres)) {
             PyErr_SetString(PyExc_TypeError, "bad return type from comparator");
             return NULL;
@@ -275,6 +283,9 @@ static PyObject* SplayTree_split(SplayTree *self, PyObject* args) {
     PyObject* kwd_parent = PyDict_New();
     PyDict_SetItemString(kwd_parent, "parent", PyLong_FromLong(1));
     PyObject* tup = SelfBalancingBinaryTree_search(self->sbbt, Py_BuildValue("(O)", x), kwd_parent);
+    if (!tup) {
+        return NULL;
+    }
     PyObject* e = PyTuple_GetItem(tup, 0);
     PyObject* p = PyTuple_GetItem(tup, 1);
     if (e == Py_None) {
-- 
2.43.0


From 0721450cc071b417a8589d0efc3b3c2c1d9d74e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:16 +0000
Subject: [PATCH 81/85] fix: missing arguments, start nodes and priorities
 which are no numbers crashed the C++ trees, and so did refused constructions

---
 pydatastructs/trees/_backend/cpp/AVLTree.hpp  |  8 +++++-
 .../trees/_backend/cpp/BinarySearchTree.hpp   | 25 +++++++++++++++---
 .../trees/_backend/cpp/BinaryTree.hpp         |  5 +++-
 .../_backend/cpp/BinaryTreeTraversal.hpp      | 20 ++++++++++++++
 .../trees/_backend/cpp/CartesianTree.hpp      |  9 ++++++-
 .../trees/_backend/cpp/RedBlackTree.hpp       |  8 +++++-
 .../_backend/cpp/SelfBalancingBinaryTree.hpp  |  3 +++
 .../trees/_backend/cpp/SplayTree.hpp          | 26 +++++++++++++++----
 pydatastructs/trees/_backend/cpp/Treap.hpp    |  3 +++
 9 files changed, 94 insertions(+), 13 deletions(-)

diff --git a/pydatastructs/trees/_backend/cpp/AVLTree.hpp b/pydatastructs/trees/_backend/cpp/AVLTree.hpp
index 80d8128..5cc0c25 100644
--- a/pydatastructs/trees/_backend/cpp/AVLTree.hpp
+++ b/pydatastructs/trees/_backend/cpp/AVLTree.hpp
@@ -32,6 +32,9 @@ static PyObject* AVLTree___new__(PyTypeObject* type, PyObject *args, PyObject *k
         return NULL;
     }
     PyObject* p = SelfBalancingBinaryTree___new__(&SelfBalancingBinaryTreeType, args, kwds);
+    if ( !p ) {
+        return NULL;
+    }
     self->sbbt = reinterpret_cast<SelfBalancingBinaryTree*>(p);
     self->bst = self->sbbt->bst;
     self->binary_tree = self->bst->binary_tree;
@@ -304,7 +307,10 @@ static PyObject* AVLTree__balance_delete(AVLTree* self, PyObject *args) {
 }
 
 static PyObject* AVLTree_delete(AVLTree* self, PyObject *args, PyObject *kwds) {
-    PyObject* key = PyObject_GetItem(args, PyZero);
+    PyObject* key;
+    if (!PyArg_ParseTuple(args, "O", &key)) {
+        return NULL;
+    }
 
     PyObject* node_idx = SelfBalancingBinaryTree_search(self->sbbt, Py_BuildValue("(O)", key), PyDict_New());
     if (!node_idx) {
diff --git a/pydatastructs/trees/_backend/cpp/BinarySearchTree.hpp b/pydatastructs/trees/_backend/cpp/BinarySearchTree.hpp
index 29d0e1d..37d4d76 100644
--- a/pydatastructs/trees/_backend/cpp/BinarySearchTree.hpp
+++ b/pydatastructs/trees/_backend/cpp/BinarySearchTree.hpp
@@ -31,6 +31,9 @@ static PyObject* BinarySearchTree___new__(PyTypeObject* type, PyObject *args, Py
         return NULL;
     }
     PyObject* bt = BinaryTree___new__(&BinaryTreeType, args, kwds);
+    if ( !bt ) {
+        return NULL;
+    }
     self->binary_tree = reinterpret_cast<BinaryTree*>(bt);
     self->tree = reinterpret_cast<BinaryTree*>(bt)->tree;
 
@@ -414,12 +417,20 @@ static PyObject* BinarySearchTree__bound_helper(BinarySearchTree* self, PyObject
 }
 
 static PyObject* BinarySearchTree_lower_bound(BinarySearchTree* self, PyObject *args, PyObject* kwds) {
-    PyObject* key = PyObject_GetItem(args, PyZero);
+    PyObject* key;
+    static char* keywords[] = {"key", NULL};
+    if (!PyArg_ParseTupleAndKeywords(args, kwds, "O", keywords, &key)) {
+        return NULL;
+    }
     return BinarySearchTree__bound_helper(self, Py_BuildValue("(OOO)", self->binary_tree->root_idx, key, Py_False));
 }
 
 static PyObject* BinarySearchTree_upper_bound(BinarySearchTree* self, PyObject *args, PyObject* kwds) {
-    PyObject* key = PyObject_GetItem(args, PyZero);
+    PyObject* key;
+    static char* keywords[] = {"key", NULL};
+    if (!PyArg_ParseTupleAndKeywords(args, kwds, "O", keywords, &key)) {
+        return NULL;
+    }
     return BinarySearchTree__bound_helper(self, Py_BuildValue("(OOO)", self->binary_tree->root_idx, key, Py_True));
 }
 
@@ -612,7 +623,10 @@ static PyObject* BinarySearchTree_lowest_common_ancestor(BinarySearchTree* self,
 }
 
 static PyObject* BinarySearchTree_rank(BinarySearchTree* self, PyObject* args) {
-    PyObject* x = PyObject_GetItem(args, PyZero);
+    PyObject* x;
+    if (!PyArg_ParseTuple(args, "O", &x)) {
+        return NULL;
+    }
     PyObject* walk = BinarySearchTree_search(self, Py_BuildValue("(O)",x), PyDict_New());
     if (!walk) {
         return NULL;
@@ -633,7 +647,10 @@ static PyObject* BinarySearchTree_rank(BinarySearchTree* self, PyObject* args) {
 }
 
 static PyObject* BinarySearchTree_select(BinarySearchTree* self, PyObject* args) {
-    long i = PyLong_AsLong(PyObject_GetItem(args, PyZero));
+    long i;
+    if (!PyArg_ParseTuple(args, "l", &i)) {
+        return NULL;
+    }
     i = i - 1;
     if (i < 0) {
         PyErr_SetString(PyExc_ValueError, "Expected a positive integer");
diff --git a/pydatastructs/trees/_backend/cpp/BinaryTree.hpp b/pydatastructs/trees/_backend/cpp/BinaryTree.hpp
index 36c587a..21785b7 100644
--- a/pydatastructs/trees/_backend/cpp/BinaryTree.hpp
+++ b/pydatastructs/trees/_backend/cpp/BinaryTree.hpp
@@ -77,7 +77,10 @@ static PyObject* BinaryTree___new__(PyTypeObject* type, PyObject *args, PyObject
             return NULL;
     }
     self->comparator = comp;
-    self->is_order_statistic = PyLong_AsLong(is_order_statistic);
+    self->is_order_statistic = PyObject_IsTrue(is_order_statistic);
+    if (PyErr_Occurred()) {
+        return NULL;
+    }
 
     return reinterpret_cast<PyObject*>(self);
 }
diff --git a/pydatastructs/trees/_backend/cpp/BinaryTreeTraversal.hpp b/pydatastructs/trees/_backend/cpp/BinaryTreeTraversal.hpp
index cf8dc9c..9e53e36 100644
--- a/pydatastructs/trees/_backend/cpp/BinaryTreeTraversal.hpp
+++ b/pydatastructs/trees/_backend/cpp/BinaryTreeTraversal.hpp
@@ -173,6 +173,20 @@ static PyObject* BinaryTreeTraversal__out_order(BinaryTreeTraversal* self, PyObj
     return visit;
 }
 
+// Whether the given object is the position of a node in the tree.
+static bool BinaryTreeTraversal__is_node(BinaryTreeTraversal* self, PyObject* node) {
+    long idx = PyLong_AsLong(node);
+    if (idx == -1 && PyErr_Occurred()) {
+        return false;
+    }
+    OneDimensionalArray* nodes = self->tree->tree->_one_dimensional_array;
+    if (idx < 0 || idx >= (long) nodes->_size || nodes->_data[idx] == Py_None) {
+        PyErr_Format(PyExc_IndexError, "%ld is not the index of a node in the tree.", idx);
+        return false;
+    }
+    return true;
+}
+
 static PyObject* BinaryTreeTraversal_depth_first_search(BinaryTreeTraversal* self, PyObject *args, PyObject *kwds) {
     Py_INCREF(Py_None);
     PyObject* node = Py_None;
@@ -184,6 +198,9 @@ static PyObject* BinaryTreeTraversal_depth_first_search(BinaryTreeTraversal* sel
     if (node == Py_None) {
         node = self->tree->root_idx;
     }
+    if (!BinaryTreeTraversal__is_node(self, node)) {
+        return NULL;
+    }
     if (PyUnicode_Compare(order, PyUnicode_FromString("pre_order")) == 0) {
         return BinaryTreeTraversal__pre_order(self, Py_BuildValue("(O)", node));
     }
@@ -214,6 +231,9 @@ static PyObject* BinaryTreeTraversal_breadth_first_search(BinaryTreeTraversal* s
         if (node == Py_None) {
             node = self->tree->root_idx;
         }
+        if (!BinaryTreeTraversal__is_node(self, node)) {
+            return NULL;
+        }
         std::queue<PyObject*> q;
         PyObject* visit = PyList_New(0);
         ArrayForTrees* tree = self->tree->tree;
diff --git a/pydatastructs/trees/_backend/cpp/CartesianTree.hpp b/pydatastructs/trees/_backend/cpp/CartesianTree.hpp
index bd3cf03..a8375f9 100644
--- a/pydatastructs/trees/_backend/cpp/CartesianTree.hpp
+++ b/pydatastructs/trees/_backend/cpp/CartesianTree.hpp
@@ -32,6 +32,9 @@ static PyObject* CartesianTree___new__(PyTypeObject* type, PyObject *args, PyObj
         return NULL;
     }
     PyObject* p = SelfBalancingBinaryTree___new__(&SelfBalancingBinaryTreeType, args, kwds);
+    if ( !p ) {
+        return NULL;
+    }
     self->sbbt = reinterpret_cast<SelfBalancingBinaryTree*>(p);
     self->bst = self->sbbt->bst;
     self->binary_tree = self->bst->binary_tree;
@@ -108,6 +111,10 @@ static PyObject* CartesianTree_insert(CartesianTree *self, PyObject* args) {
     if (!PyArg_ParseTuple(args, "OO|O", &key, &priority, &data)) { // data is optional
         return NULL;
     }
+    double priority_value = PyFloat_AsDouble(priority);
+    if (priority_value == -1.0 && PyErr_Occurred()) {
+        return NULL;
+    }
     BinaryTree* bt = self->sbbt->bst->binary_tree;
 
     // A key which is already present gets its new priority by being inserted again.
@@ -126,7 +133,7 @@ static PyObject* CartesianTree_insert(CartesianTree *self, PyObject* args) {
     }
     TreeNode* new_node = reinterpret_cast<TreeNode*>(TreeNode___new__(&TreeNodeType, Py_BuildValue("(OO)", key, data), PyDict_New()));
     new_node->isCartesianTreeNode = true;
-    new_node->priority = PyFloat_AsDouble(priority);
+    new_node->priority = priority_value;
     new_node->parent = node->parent;
     new_node->left = node->left;
     new_node->right = node->right;
diff --git a/pydatastructs/trees/_backend/cpp/RedBlackTree.hpp b/pydatastructs/trees/_backend/cpp/RedBlackTree.hpp
index e889b2e..52f7ad1 100644
--- a/pydatastructs/trees/_backend/cpp/RedBlackTree.hpp
+++ b/pydatastructs/trees/_backend/cpp/RedBlackTree.hpp
@@ -32,6 +32,9 @@ static PyObject* RedBlackTree___new__(PyTypeObject* type, PyObject *args, PyObje
         return NULL;
     }
     PyObject* p = SelfBalancingBinaryTree___new__(&SelfBalancingBinaryTreeType, args, kwds);
+    if ( !p ) {
+        return NULL;
+    }
     self->sbbt = reinterpret_cast<SelfBalancingBinaryTree*>(p);
     self->bst = self->sbbt->bst;
     self->binary_tree = self->bst->binary_tree;
@@ -571,7 +574,10 @@ static PyObject* RedBlackTree___two_child_case(RedBlackTree* self, PyObject *arg
 }
 
 static PyObject* RedBlackTree_delete(RedBlackTree* self, PyObject *args, PyObject *kwds) {
-    PyObject* key = PyObject_GetItem(args, PyZero);
+    PyObject* key;
+    if (!PyArg_ParseTuple(args, "O", &key)) {
+        return NULL;
+    }
     BinaryTree* bt = self->sbbt->bst->binary_tree;
 
     PyObject* walk = BinarySearchTree_search(self->sbbt->bst, Py_BuildValue("(O)", key), PyDict_New());
diff --git a/pydatastructs/trees/_backend/cpp/SelfBalancingBinaryTree.hpp b/pydatastructs/trees/_backend/cpp/SelfBalancingBinaryTree.hpp
index 6720bba..1428157 100644
--- a/pydatastructs/trees/_backend/cpp/SelfBalancingBinaryTree.hpp
+++ b/pydatastructs/trees/_backend/cpp/SelfBalancingBinaryTree.hpp
@@ -30,6 +30,9 @@ static PyObject* SelfBalancingBinaryTree___new__(PyTypeObject* type, PyObject *a
         return NULL;
     }
     PyObject* p = BinarySearchTree___new__(&BinarySearchTreeType, args, kwds);
+    if ( !p ) {
+        return NULL;
+    }
     self->bst = reinterpret_cast<BinarySearchTree*>(p);
     self->binary_tree = self->bst->binary_tree;
     self->tree = self->binary_tree->tree;
diff --git a/pydatastructs/trees/_backend/cpp/SplayTree.hpp b/pydatastructs/trees/_backend/cpp/SplayTree.hpp
index 3e0fa3a..1dc5f14 100644
--- a/pydatastructs/trees/_backend/cpp/SplayTree.hpp
+++ b/pydatastructs/trees/_backend/cpp/SplayTree.hpp
@@ -34,6 +34,9 @@ static PyObject* SplayTree___new__(PyTypeObject* type, PyObject *args, PyObject
         return NULL;
     }
     PyObject* p = SelfBalancingBinaryTree___new__(&SelfBalancingBinaryTreeType, args, kwds);
+    if ( !p ) {
+        return NULL;
+    }
     self->sbbt = reinterpret_cast<SelfBalancingBinaryTree*>(p);
     self->bst = self->sbbt->bst;
     self->binary_tree = self->bst->binary_tree;
@@ -130,8 +133,11 @@ static PyObject* SplayTree_splay(SplayTree *self, PyObject* args) {
 }
 
 static PyObject* SplayTree_insert(SplayTree *self, PyObject* args) {
-    PyObject* key = PyObject_GetItem(args, PyZero);
-    PyObject* x = PyObject_GetItem(args, PyOne);
+    PyObject* key;
+    PyObject* x;
+    if (!PyArg_ParseTuple(args, "OO", &key, &x)) {
+        return NULL;
+    }
 
     if (!SelfBalancingBinaryTree_insert(self->sbbt, args)) {
         return NULL;
@@ -147,7 +153,10 @@ static PyObject* SplayTree_insert(SplayTree *self, PyObject* args) {
 }
 
 static PyObject* SplayTree_delete(SplayTree *self, PyObject* args) {
-    PyObject* x = PyObject_GetItem(args, PyZero);
+    PyObject* x;
+    if (!PyArg_ParseTuple(args, "O", &x)) {
+        return NULL;
+    }
     BinaryTree* bt = self->sbbt->bst->binary_tree;
 
     PyObject* kwd_parent = PyDict_New();
@@ -168,7 +177,11 @@ static PyObject* SplayTree_delete(SplayTree *self, PyObject* args) {
 }
 
 static PyObject* SplayTree_join(SplayTree *self, PyObject* args) {
-    SplayTree* other = reinterpret_cast<SplayTree*>(PyObject_GetItem(args, PyZero));
+    PyObject* other_tree;
+    if (!PyArg_ParseTuple(args, "O!", self->type, &other_tree)) {
+        return NULL;
+    }
+    SplayTree* other = reinterpret_cast<SplayTree*>(other_tree);
     BinaryTree* bt = self->sbbt->bst->binary_tree;
     BinaryTree* obt = other->sbbt->bst->binary_tree;
 
@@ -277,7 +290,10 @@ static PyObject* SplayTree__pre_order(SplayTree* self, PyObject *args) {
 }
 
 static PyObject* SplayTree_split(SplayTree *self, PyObject* args) {
-    PyObject* x = PyObject_GetItem(args, PyZero);
+    PyObject* x;
+    if (!PyArg_ParseTuple(args, "O", &x)) {
+        return NULL;
+    }
     BinaryTree* bt = self->sbbt->bst->binary_tree;
 
     PyObject* kwd_parent = PyDict_New();
diff --git a/pydatastructs/trees/_backend/cpp/Treap.hpp b/pydatastructs/trees/_backend/cpp/Treap.hpp
index f9707e2..29a980e 100644
--- a/pydatastructs/trees/_backend/cpp/Treap.hpp
+++ b/pydatastructs/trees/_backend/cpp/Treap.hpp
@@ -34,6 +34,9 @@ static PyObject* Treap___new__(PyTypeObject* type, PyObject *args, PyObject *kwd
         return NULL;
     }
     PyObject* p = CartesianTree___new__(&CartesianTreeType, args, kwds);
+    if ( !p ) {
+        return NULL;
+    }
     self->ct = reinterpret_cast<CartesianTree*>(p);
     self->sbbt = self->ct->sbbt;
     self->bst = self->sbbt->bst;
-- 
2.43.0


From 7770e466d5e8d55caa65dff88c5b38adf78386d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:47:26 +0000
Subject: [PATCH 82/85] fix: exceptions raised by comparators were lost in C++
 and made sorts lose items; C++ comparators had to return True itself

---
 .../cpp/algorithms/misc_algorithms.hpp        | 39 ++++++++++++---
 .../cpp/algorithms/quadratic_time_sort.hpp    | 42 +++++++++++++---
 .../_backend/cpp/algorithms/quick_sort.hpp    | 37 +++++++++++---
 .../linear_data_structures/algorithms.py      | 50 +++++++++----------
 pydatastructs/utils/_backend/cpp/utils.hpp    | 10 ++--
 5 files changed, 124 insertions(+), 54 deletions(-)

diff --git a/pydatastructs/linear_data_structures/_backend/cpp/algorithms/misc_algorithms.hpp b/pydatastructs/linear_data_structures/_backend/cpp/algorithms/misc_algorithms.hpp
index 28ce560..a64e4db 100644
--- a/pydatastructs/linear_data_structures/_backend/cpp/algorithms/misc_algorithms.hpp
+++ b/pydatastructs/linear_data_structures/_backend/cpp/algorithms/misc_algorithms.hpp
@@ -8,7 +8,7 @@
 #include "../../../../utils/_backend/cpp/utils.hpp"
 
 // is_ordered
-static bool is_ordered_impl(PyObject* array, size_t lower, size_t upper,
+static int is_ordered_impl(PyObject* array, size_t lower, size_t upper,
     PyObject* comp) {
     for (size_t i = lower + 1; i < upper + 1; i++) {
         PyObject* i_PyObject = PyLong_FromSize_t(i);
@@ -16,11 +16,18 @@ static bool is_ordered_impl(PyObject* array, size_t lower, size_t upper,
         PyObject* i_item = PyObject_GetItem(array, i_PyObject);
         PyObject* i1_item = PyObject_GetItem(array, i1_PyObject);
         if (i_item == Py_None || i1_item == Py_None) continue;
-        if ( _comp(i_item, i1_item, comp) == 1 && _comp(i1_item, i_item, comp) != 1 ) {
-            return false;
+        int in_order = _comp(i_item, i1_item, comp);
+        if ( in_order == 1 ) {
+            in_order = _comp(i1_item, i_item, comp);
+            if ( in_order == 0 ) {
+                return 0;
+            }
+        }
+        if ( in_order == -1 ) {
+            return -1;
         }
     }
-    return true;
+    return 1;
 }
 
 static PyObject* is_ordered(PyObject* self, PyObject* args, PyObject* kwds) {
@@ -53,7 +60,10 @@ static PyObject* is_ordered(PyObject* self, PyObject* args, PyObject* kwds) {
         upper = PyLong_AsSize_t(end);
     }
 
-    bool _res = is_ordered_impl(args0, lower, upper, comp);
+    int _res = is_ordered_impl(args0, lower, upper, comp);
+    if ( _res == -1 ) {
+        return NULL;
+    }
     res = PyBool_FromLong(_res);
     Py_INCREF(res);
     return res;
@@ -88,6 +98,7 @@ static PyObject* linear_search(PyObject* self, PyObject* args, PyObject* kwds) {
     if ( value == NULL ) {
         PyErr_Format(PyExc_ValueError,
                 "Expected Value to be not NULL");
+        return NULL;
     }
     for (size_t i = lower;  i < upper + 1; i++) {
         u = PyObject_GetItem(args0, PyLong_FromSize_t(i));
@@ -98,6 +109,7 @@ static PyObject* linear_search(PyObject* self, PyObject* args, PyObject* kwds) {
                 PyObject_AsString(PyObject_Repr(PyObject_Type(u))),
                 PyObject_AsString(PyObject_Repr(PyObject_Type(value)))
             );
+            return NULL;
         } else if (result == 1) {
             if (i == 0) {
                 res = PyZero;
@@ -146,6 +158,7 @@ static PyObject* binary_search(PyObject* self, PyObject* args, PyObject* kwds) {
     if ( value == NULL ) {
         PyErr_Format(PyExc_ValueError,
                 "Expected Value to be not NULL");
+        return NULL;
     }
 
     int left = lower, right = upper;
@@ -160,6 +173,7 @@ static PyObject* binary_search(PyObject* self, PyObject* args, PyObject* kwds) {
                 PyObject_AsString(PyObject_Repr(PyObject_Type(u))),
                 PyObject_AsString(PyObject_Repr(PyObject_Type(value)))
             );
+            return NULL;
         } else if (result == 1) {
             if (middle == 0) {
                 res = PyZero;
@@ -169,7 +183,11 @@ static PyObject* binary_search(PyObject* self, PyObject* args, PyObject* kwds) {
             Py_INCREF(res);
             return res;
         }
-        if ( _comp(u, value, comp) == 1 ) {
+        result = _comp(u, value, comp);
+        if ( result == -1 ) {
+            return NULL;
+        }
+        if ( result == 1 ) {
             left = middle + 1;
         } else {
             right = middle - 1;
@@ -213,6 +231,7 @@ static PyObject* jump_search(PyObject* self, PyObject* args, PyObject* kwds) {
     if ( value == NULL ) {
         PyErr_Format(PyExc_ValueError,
                 "Expected Value to be not NULL");
+        return NULL;
     }
     if (lower + 1 > upper + 1) {
         Py_RETURN_NONE;
@@ -221,13 +240,18 @@ static PyObject* jump_search(PyObject* self, PyObject* args, PyObject* kwds) {
     int prev = lower;
     int element_pos = prev;
     u = PyObject_GetItem(args0, PyLong_FromSize_t(element_pos));
-    while (element_pos <= upper && _comp(u, value, comp) == 1) {
+    int before = _comp(u, value, comp);
+    while (before == 1) {
         prev = element_pos;
         element_pos += step;
         if (element_pos > upper) {
             break;
         }
         u = PyObject_GetItem(args0, PyLong_FromSize_t(element_pos));
+        before = _comp(u, value, comp);
+    }
+    if ( before == -1 ) {
+        return NULL;
     }
 
     while (prev <= upper) {
@@ -239,6 +263,7 @@ static PyObject* jump_search(PyObject* self, PyObject* args, PyObject* kwds) {
                 PyObject_AsString(PyObject_Repr(PyObject_Type(u))),
                 PyObject_AsString(PyObject_Repr(PyObject_Type(value)))
             );
+            return NULL;
         } else if (result == 1) {
             if (prev == 0) {
                 res = PyZero;
diff --git a/pydatastructs/linear_data_structures/_backend/cpp/algorithms/quadratic_time_sort.hpp b/pydatastructs/linear_data_structures/_backend/cpp/algorithms/quadratic_time_sort.hpp
index 9c95b77..781d7fb 100644
--- a/pydatastructs/linear_data_structures/_backend/cpp/algorithms/quadratic_time_sort.hpp
+++ b/pydatastructs/linear_data_structures/_backend/cpp/algorithms/quadratic_time_sort.hpp
@@ -15,8 +15,12 @@ static PyObject* bubble_sort_impl(PyObject* array, size_t lower, size_t upper,
         for (size_t j = lower; j < upper; j++) {
             PyObject* j_PyObject = PyLong_FromSize_t(j);
             PyObject* j1_PyObject = PyLong_FromSize_t(j+1);
-            if ( _comp(PyObject_GetItem(array, j_PyObject),
-                        PyObject_GetItem(array, j1_PyObject), comp) != 1 ) {
+            int in_order = _comp(PyObject_GetItem(array, j_PyObject),
+                                 PyObject_GetItem(array, j1_PyObject), comp);
+            if ( in_order == -1 ) {
+                return NULL;
+            }
+            if ( in_order != 1 ) {
                 PyObject* tmp = PyObject_GetItem(array, j1_PyObject);
                 PyObject_SetItem(array, j1_PyObject,
                                 PyObject_GetItem(array, j_PyObject));
@@ -60,6 +64,9 @@ static PyObject* bubble_sort(PyObject* self, PyObject* args, PyObject* kwds) {
     arr_length = PyObject_Length(args0);
 
     args0 = bubble_sort_impl(args0, lower, upper, comp, arr_length);
+    if ( !args0 ) {
+        return NULL;
+    }
     if ( is_DynamicOneDimensionalArray ) {
         PyObject_CallMethod(args0, "_modify", "O", Py_True);
     }
@@ -620,8 +627,12 @@ static PyObject* selection_sort_impl(PyObject* array, size_t lower, size_t upper
         PyObject* i_PyObject = PyLong_FromSize_t(i);
         for (size_t j = i + 1; j < upper + 1; j++) {
             PyObject* j_PyObject = PyLong_FromSize_t(j);
-            if ( _comp(PyObject_GetItem(array, j_min_PyObject),
-                        PyObject_GetItem(array, j_PyObject), comp) != 1 ) {
+            int in_order = _comp(PyObject_GetItem(array, j_min_PyObject),
+                                 PyObject_GetItem(array, j_PyObject), comp);
+            if ( in_order == -1 ) {
+                return NULL;
+            }
+            if ( in_order != 1 ) {
                 j_min_PyObject = j_PyObject;
             }
         }
@@ -665,6 +676,9 @@ static PyObject* selection_sort(PyObject* self, PyObject* args, PyObject* kwds)
     }
 
     args0 = selection_sort_impl(args0, lower, upper, comp);
+    if ( !args0 ) {
+        return NULL;
+    }
     if ( is_DynamicOneDimensionalArray ) {
         PyObject_CallMethod(args0, "_modify", "O", Py_True);
     }
@@ -1225,12 +1239,25 @@ static PyObject* insertion_sort_impl(PyObject* array, size_t lower, size_t upper
         PyObject* i_PyObject = PyLong_FromSize_t(i);
         PyObject* temp = PyObject_GetItem(array, i_PyObject);
         size_t j = i;
-        while (j > lower && _comp(PyObject_GetItem(array, PyLong_FromSize_t(j-1)),
-                        temp, comp) != 1) {
+        int in_order = 1;
+        while (j > lower) {
+            in_order = _comp(PyObject_GetItem(array, PyLong_FromSize_t(j-1)),
+                             temp, comp);
+            if ( in_order != 0 ) {
+                break;
+            }
             PyObject_SetItem(array, PyLong_FromSize_t(j),
                         PyObject_GetItem(array, PyLong_FromSize_t(j-1)));
             j -= 1;
         }
+        if ( in_order == -1 ) {
+            // The item being placed must not be lost.
+            PyObject *etype, *evalue, *etraceback;
+            PyErr_Fetch(&etype, &evalue, &etraceback);
+            PyObject_SetItem(array, PyLong_FromSize_t(j), temp);
+            PyErr_Restore(etype, evalue, etraceback);
+            return NULL;
+        }
         PyObject_SetItem(array, PyLong_FromSize_t(j), temp);
     }
     return array;
@@ -1267,6 +1294,9 @@ static PyObject* insertion_sort(PyObject* self, PyObject* args, PyObject* kwds)
     }
 
     args0 = insertion_sort_impl(args0, lower, upper, comp);
+    if ( !args0 ) {
+        return NULL;
+    }
     if ( is_DynamicOneDimensionalArray ) {
         PyObject_CallMethod(args0, "_modify", "O", Py_True);
     }
diff --git a/pydatastructs/linear_data_structures/_backend/cpp/algorithms/quick_sort.hpp b/pydatastructs/linear_data_structures/_backend/cpp/algorithms/quick_sort.hpp
index 477c137..c0620df 100644
--- a/pydatastructs/linear_data_structures/_backend/cpp/algorithms/quick_sort.hpp
+++ b/pydatastructs/linear_data_structures/_backend/cpp/algorithms/quick_sort.hpp
@@ -21,19 +21,30 @@ static PyObject* call_pick_pivot_element(PyObject* pick_pivot_element,
     return PyObject_GetItem(array, high_PyObject);
 }
 
-static size_t quick_sort_partition(size_t low, size_t high,
-    PyObject* pick_pivot_element, PyObject* comp, PyObject* array) {
+static bool quick_sort_partition(size_t low, size_t high,
+    PyObject* pick_pivot_element, PyObject* comp, PyObject* array, size_t* p) {
     int64_t i = low - 1;
     PyObject* x = call_pick_pivot_element(pick_pivot_element, low, high, array);
+    if ( !x ) {
+        return false;
+    }
     PyObject* pivot_pos = PyLong_FromSize_t(high);
     for( size_t j = low; j < high; j++ ) {
         PyObject* last = PyObject_GetItem(array, pivot_pos);
-        if ( PyObject_RichCompareBool(last, x, Py_EQ) == 1 ) {
+        int is_pivot = PyObject_RichCompareBool(last, x, Py_EQ);
+        if ( is_pivot == -1 ) {
+            return false;
+        }
+        if ( is_pivot == 1 ) {
             break;
         }
         PyObject* j_PyObject = PyLong_FromSize_t(j);
         PyObject* candidate = PyObject_GetItem(array, j_PyObject);
-        if ( PyObject_RichCompareBool(candidate, x, Py_EQ) == 1 ) {
+        is_pivot = PyObject_RichCompareBool(candidate, x, Py_EQ);
+        if ( is_pivot == -1 ) {
+            return false;
+        }
+        if ( is_pivot == 1 ) {
             PyObject_SetItem(array, j_PyObject, last);
             PyObject_SetItem(array, pivot_pos, candidate);
             break;
@@ -41,7 +52,11 @@ static size_t quick_sort_partition(size_t low, size_t high,
     }
     for( size_t j = low; j < high; j++ ) {
         PyObject* j_PyObject = PyLong_FromSize_t(j);
-        if ( _comp(PyObject_GetItem(array, j_PyObject), x, comp) == 1 ) {
+        int in_order = _comp(PyObject_GetItem(array, j_PyObject), x, comp);
+        if ( in_order == -1 ) {
+            return false;
+        }
+        if ( in_order == 1 ) {
             i = i + 1;
             PyObject* i_PyObject = PyLong_FromLongLong(i);
             PyObject* tmp = PyObject_GetItem(array, i_PyObject);
@@ -56,7 +71,8 @@ static size_t quick_sort_partition(size_t low, size_t high,
     PyObject_SetItem(array, i_PyObject,
                         PyObject_GetItem(array, high_PyObject));
     PyObject_SetItem(array, high_PyObject, tmp);
-    return i + 1;
+    *p = i + 1;
+    return true;
 }
 
 static PyObject* quick_sort_impl(PyObject* array, size_t lower, size_t upper,
@@ -75,8 +91,10 @@ static PyObject* quick_sort_impl(PyObject* array, size_t lower, size_t upper,
         rstack.pop();
         low = rstack.top();
         rstack.pop();
-        p = quick_sort_partition(low, high, pick_pivot_element,
-                                 comp, array);
+        if ( !quick_sort_partition(low, high, pick_pivot_element,
+                                   comp, array, &p) ) {
+            return NULL;
+        }
         if ( p > low + 1 ) {
             rstack.push(low);
             rstack.push(p - 1);
@@ -125,6 +143,9 @@ static PyObject* quick_sort(PyObject* self, PyObject* args, PyObject* kwds) {
     }
 
     args0 = quick_sort_impl(args0, lower, upper, comp, pick_pivot_element);
+    if ( !args0 ) {
+        return NULL;
+    }
     if ( is_DynamicOneDimensionalArray ) {
         PyObject_CallMethod(args0, "_modify", "O", Py_True);
     }
diff --git a/pydatastructs/linear_data_structures/algorithms.py b/pydatastructs/linear_data_structures/algorithms.py
index 4d3104d..1917cb2 100644
--- a/pydatastructs/linear_data_structures/algorithms.py
+++ b/pydatastructs/linear_data_structures/algorithms.py
@@ -40,30 +40,21 @@ def _merge(array, sl, el, sr, er, end, comp):
     for i in range(sl, el + 1):
         if i <= end:
             l.append(array[i])
-            array[i] = None
     for i in range(sr, er + 1):
         if i <= end:
             r.append(array[i])
-            array[i] = None
-    i, j, k = 0, 0, sl
+    i, j, merged = 0, 0, []
     while i < len(l) and j < len(r):
         if _comp(l[i], r[j], comp):
-            array[k] = l[i]
+            merged.append(l[i])
             i += 1
         else:
-            array[k] = r[j]
+            merged.append(r[j])
             j += 1
-        k += 1
 
-    while i < len(l):
-        array[k] = l[i]
-        i += 1
-        k += 1
-
-    while j < len(r):
-        array[k] = r[j]
-        j += 1
-        k += 1
+    # nothing is written before all comparisons succeeded
+    for k, item in enumerate(merged + l[i:] + r[j:]):
+        array[sl + k] = item
 
 def merge_sort_parallel(array, num_threads, **kwargs):
     """
@@ -330,12 +321,13 @@ def heapsort(array, **kwargs):
     for i in range(start, end+1):
         if array[i] is not None:
             h.insert(array[i])
-        array[i] = None
 
-    i = start
+    items = []
     while not h.is_empty:
-        array[i] = h.extract().key
-        i += 1
+        items.append(h.extract().key)
+    items.extend([None] * (end - start + 1 - len(items)))
+    for i in range(start, end+1):
+        array[i] = items[i - start]
 
     if _check_type(array, (DynamicArray, _arrays.DynamicOneDimensionalArray)):
         array._modify(True)
@@ -1529,10 +1521,12 @@ def insertion_sort(array, **kwargs):
     for i in range(start + 1, end + 1):
         temp = array[i]
         j = i
-        while j > start and not _comp(array[j - 1], temp, comp):
-            array[j] = array[j - 1]
-            j -= 1
-        array[j] = temp
+        try:
+            while j > start and not _comp(array[j - 1], temp, comp):
+                array[j] = array[j - 1]
+                j -= 1
+        finally:
+            array[j] = temp
 
     if _check_type(array, (DynamicArray, _arrays.DynamicOneDimensionalArray)):
         array._modify(True)
@@ -1930,10 +1924,12 @@ def shell_sort(array, *args, **kwargs):
         for i in range(start + gap, end + 1):
             temp = array[i]
             j = i
-            while j >= start + gap and not _comp(array[j - gap], temp, comp):
-                array[j] = array[j - gap]
-                j -= gap
-            array[j] = temp
+            try:
+                while j >= start + gap and not _comp(array[j - gap], temp, comp):
+                    array[j] = array[j - gap]
+                    j -= gap
+            finally:
+                array[j] = temp
         gap //= 2
 
     if _check_type(array, (DynamicArray, _arrays.DynamicOneDimensionalArray)):
diff --git a/pydatastructs/utils/_backend/cpp/utils.hpp b/pydatastructs/utils/_backend/cpp/utils.hpp
index 37a9994..32cebf5 100644
--- a/pydatastructs/utils/_backend/cpp/utils.hpp
+++ b/pydatastructs/utils/_backend/cpp/utils.hpp
@@ -111,13 +111,11 @@ static int _comp(PyObject* u, PyObject* v, PyObject* tcomp) {
     if ( tcomp ) {
         PyObject* result_PyObject = PyObject_CallFunctionObjArgs(tcomp, u, v, NULL);
         if ( !result_PyObject ) {
-            PyErr_Format(PyExc_ValueError,
-                "Unable to compare %s object with %s object.",
-                PyObject_AsString(PyObject_Repr(PyObject_Type(u))),
-                PyObject_AsString(PyObject_Repr(PyObject_Type(v)))
-            );
+            return -1;
         }
-        return result_PyObject == Py_True;
+        int tresult = PyObject_IsTrue(result_PyObject);
+        Py_DECREF(result_PyObject);
+        return tresult;
     }
 
     int result = PyObject_RichCompareBool(u, v, Py_LE);
-- 
2.43.0


From 53135a7b56eeb0f61c2d02732f787667e9edad07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:04:46 +0000
Subject: [PATCH 83/85] fix: exceptions raised by comparators while C++ trees
 were changed crashed or were lost

---
 pydatastructs/trees/_backend/cpp/AVLTree.hpp       |  6 ++++++
 pydatastructs/trees/_backend/cpp/CartesianTree.hpp | 11 +++++++++--
 pydatastructs/trees/_backend/cpp/RedBlackTree.hpp  | 14 ++++++++++++--
 pydatastructs/trees/_backend/cpp/SplayTree.hpp     | 10 +++++++++-
 4 files changed, 36 insertions(+), 5 deletions(-)

diff --git a/pydatastructs/trees/_backend/cpp/AVLTree.hpp b/pydatastructs/trees/_backend/cpp/AVLTree.hpp
index 5cc0c25..59edf0c 100644
--- a/pydatastructs/trees/_backend/cpp/AVLTree.hpp
+++ b/pydatastructs/trees/_backend/cpp/AVLTree.hpp
@@ -249,6 +249,9 @@ static PyObject* AVLTree_insert(AVLTree* self, PyObject *args) {
     }
     BinaryTree* bt = self->sbbt->bst->binary_tree;
     PyObject* s = SelfBalancingBinaryTree_search(self->sbbt, Py_BuildValue("(O)", key), PyDict_New());
+    if (!s) {
+        return NULL;
+    }
     AVLTree__balance_insertion(self, Py_BuildValue("(OO)", s, reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(s)])->parent));
 
     Py_RETURN_NONE;
@@ -323,6 +326,9 @@ static PyObject* AVLTree_delete(AVLTree* self, PyObject *args, PyObject *kwds) {
     PyObject* kwd_bal = PyDict_New();
     PyDict_SetItemString(kwd_bal, "balancing_info", PyLong_FromLong(1));
     PyObject* a = SelfBalancingBinaryTree_delete(self->sbbt, Py_BuildValue("(O)", key), kwd_bal);
+    if (!a) {
+        return NULL;
+    }
     AVLTree__balance_delete(self, Py_BuildValue("(OO)", a, key));
 
     Py_RETURN_TRUE;
diff --git a/pydatastructs/trees/_backend/cpp/CartesianTree.hpp b/pydatastructs/trees/_backend/cpp/CartesianTree.hpp
index a8375f9..50f02d3 100644
--- a/pydatastructs/trees/_backend/cpp/CartesianTree.hpp
+++ b/pydatastructs/trees/_backend/cpp/CartesianTree.hpp
@@ -123,10 +123,17 @@ static PyObject* CartesianTree_insert(CartesianTree *self, PyObject* args) {
         return NULL;
     }
     if (present_idx != Py_None) {
-        CartesianTree_delete(self, Py_BuildValue("(O)", key), PyDict_New());
+        if (!CartesianTree_delete(self, Py_BuildValue("(O)", key), PyDict_New())) {
+            return NULL;
+        }
+    }
+    if (!SelfBalancingBinaryTree_insert(self->sbbt, Py_BuildValue("(OO)", key, data))) {
+        return NULL;
     }
-    SelfBalancingBinaryTree_insert(self->sbbt, Py_BuildValue("(OO)", key, data));
     PyObject* node_idx = SelfBalancingBinaryTree_search(self->sbbt, Py_BuildValue("(O)", key), PyDict_New());
+    if (!node_idx) {
+        return NULL;
+    }
     TreeNode* node = reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(node_idx)]);
     if (PyType_Ready(&TreeNodeType) < 0) { // This has to be present to finalize a type object. This should be called on all type objects to finish their initialization.
         return NULL;
diff --git a/pydatastructs/trees/_backend/cpp/RedBlackTree.hpp b/pydatastructs/trees/_backend/cpp/RedBlackTree.hpp
index 52f7ad1..4f127cd 100644
--- a/pydatastructs/trees/_backend/cpp/RedBlackTree.hpp
+++ b/pydatastructs/trees/_backend/cpp/RedBlackTree.hpp
@@ -175,11 +175,16 @@ static PyObject* RedBlackTree_insert(RedBlackTree *self, PyObject* args) {
         return NULL;
     }
     bool is_present = present_idx != Py_None;
-    SelfBalancingBinaryTree_insert(self->sbbt, Py_BuildValue("(OO)", key, data));
+    if (!SelfBalancingBinaryTree_insert(self->sbbt, Py_BuildValue("(OO)", key, data))) {
+        return NULL;
+    }
     if (is_present) {
         Py_RETURN_NONE;
     }
     PyObject* node_idx = SelfBalancingBinaryTree_search(self->sbbt, Py_BuildValue("(O)", key), PyDict_New());
+    if (!node_idx) {
+        return NULL;
+    }
 
     BinaryTree* bt = self->sbbt->bst->binary_tree;
     TreeNode* node = reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(node_idx)]);
@@ -549,6 +554,9 @@ static PyObject* RedBlackTree___one_child_case(RedBlackTree* self, PyObject *arg
         PyObject* walk1_key = reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(walk1)])->key;
         PyObject* a = RedBlackTree__remove_node(self, Py_BuildValue("(O)", walk));
         walk1 = BinarySearchTree_search(self->sbbt->bst, Py_BuildValue("(O)", walk1_key), PyDict_New());
+        if (!walk1) {
+            return NULL;
+        }
         if (RedBlackTree___walk1_walk_isblack(self, Py_BuildValue("(OO)", PyLong_FromLong(walk_original_color), walk1)) == Py_True) {
             RedBlackTree___fix_deletion(self, Py_BuildValue("(O)", walk1));
         }
@@ -595,7 +603,9 @@ static PyObject* RedBlackTree_delete(RedBlackTree* self, PyObject *args, PyObjec
             RedBlackTree___leaf_case(self, Py_BuildValue("(OO)", walk, walk1));
         }
         else if (RedBlackTree__has_one_child(self, Py_BuildValue("(O)", walk)) == Py_True) {
-            RedBlackTree___one_child_case(self, Py_BuildValue("(OO)", walk, walk1));
+            if (!RedBlackTree___one_child_case(self, Py_BuildValue("(OO)", walk, walk1))) {
+                return NULL;
+            }
         }
         Py_RETURN_TRUE;
     }
diff --git a/pydatastructs/trees/_backend/cpp/SplayTree.hpp b/pydatastructs/trees/_backend/cpp/SplayTree.hpp
index 1dc5f14..e1763b5 100644
--- a/pydatastructs/trees/_backend/cpp/SplayTree.hpp
+++ b/pydatastructs/trees/_backend/cpp/SplayTree.hpp
@@ -145,6 +145,9 @@ static PyObject* SplayTree_insert(SplayTree *self, PyObject* args) {
     PyObject* kwd_parent = PyDict_New();
     PyDict_SetItemString(kwd_parent, "parent", PyLong_FromLong(1));
     PyObject* tup = SelfBalancingBinaryTree_search(self->sbbt, Py_BuildValue("(O)", key), kwd_parent);
+    if (!tup) {
+        return NULL;
+    }
     PyObject* e = PyTuple_GetItem(tup, 0);
     PyObject* p = PyTuple_GetItem(tup, 1);
     SplayTree_splay(self, Py_BuildValue("(OO)", e, p));
@@ -323,10 +326,15 @@ static PyObject* SplayTree_split(SplayTree *self, PyObject* args) {
     if (reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(bt->root_idx)])->right != Py_None) {
         PyObject* elements = SplayTree__pre_order(self, Py_BuildValue("(O)", reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(bt->root_idx)])->right));
         for (int i=0; i<PyList_Size(elements); i++) {
-            SelfBalancingBinaryTree_insert(other->sbbt, Py_BuildValue("(OO)", reinterpret_cast<TreeNode*>( PyList_GetItem(elements, i))->key, reinterpret_cast<TreeNode*>( PyList_GetItem(elements, i))->data));
+            if (!SelfBalancingBinaryTree_insert(other->sbbt, Py_BuildValue("(OO)", reinterpret_cast<TreeNode*>( PyList_GetItem(elements, i))->key, reinterpret_cast<TreeNode*>( PyList_GetItem(elements, i))->data))) {
+                return NULL;
+            }
         }
         for (int j=PyList_Size(elements)-1; j>-1; j--) {
             tup = SelfBalancingBinaryTree_search(self->sbbt, Py_BuildValue("(O)", reinterpret_cast<TreeNode*>( PyList_GetItem(elements, j))->key), kwd_parent);
+            if (!tup) {
+                return NULL;
+            }
             e = PyTuple_GetItem(tup, 0);
             p = PyTuple_GetItem(tup, 1);
             bt->tree->_one_dimensional_array->_data[PyLong_AsLong(e)] = Py_None;
-- 
2.43.0


From 221bd2975a571fb577af7a32c2ee90d49f26808a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:15:05 +0000
Subject: [PATCH 84/85] fix: deleting the name or the neighbours of a C++ graph
 node crashed

---
 .../utils/_backend/cpp/AdjacencyListGraphNode.hpp         | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pydatastructs/utils/_backend/cpp/AdjacencyListGraphNode.hpp b/pydatastructs/utils/_backend/cpp/AdjacencyListGraphNode.hpp
index 8a6eba4..fe72080 100644
--- a/pydatastructs/utils/_backend/cpp/AdjacencyListGraphNode.hpp
+++ b/pydatastructs/utils/_backend/cpp/AdjacencyListGraphNode.hpp
@@ -133,6 +133,10 @@ static PyObject* AdjacencyListGraphNode_get_name(AdjacencyListGraphNode* self, v
 }
 
 static int AdjacencyListGraphNode_set_name(AdjacencyListGraphNode* self, PyObject* value, void* closure) {
+    if (!value) {
+        PyErr_SetString(PyExc_ValueError, "Cannot delete attributes");
+        return -1;
+    }
     if (!PyUnicode_Check(value)) {
         PyErr_SetString(PyExc_TypeError, "name must be a string");
         return -1;
@@ -179,6 +183,10 @@ static PyObject* AdjacencyListGraphNode_get_adjacent(AdjacencyListGraphNode* sel
 }
 
 static int AdjacencyListGraphNode_set_adjacent(AdjacencyListGraphNode* self, PyObject* value, void* closure) {
+    if (!value) {
+        PyErr_SetString(PyExc_ValueError, "Cannot delete attributes");
+        return -1;
+    }
     if (!PyDict_Check(value)) {
         PyErr_SetString(PyExc_TypeError, "adjacent must be a dictionary");
         return -1;
-- 
2.43.0


From 0e885b71ff12cbd5c9701d6ad6c40896a8c6cdef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:58:31 +0000
Subject: [PATCH 85/85] fix: C++ binary indexed tree overflowed, lost its
 errors and wrote outside its array

---
 .../trees/_backend/cpp/BinaryIndexedTree.hpp  | 61 ++++++++++++-------
 1 file changed, 39 insertions(+), 22 deletions(-)

diff --git a/pydatastructs/trees/_backend/cpp/BinaryIndexedTree.hpp b/pydatastructs/trees/_backend/cpp/BinaryIndexedTree.hpp
index 39957fa..041789b 100644
--- a/pydatastructs/trees/_backend/cpp/BinaryIndexedTree.hpp
+++ b/pydatastructs/trees/_backend/cpp/BinaryIndexedTree.hpp
@@ -26,28 +26,35 @@ static void BinaryIndexedTree_dealloc(BinaryIndexedTree *self) {
 
 static PyObject* BinaryIndexedTree_update(BinaryIndexedTree* self, PyObject *args) {
     long index = PyLong_AsLong(PyObject_GetItem(args, PyZero));
-    long value = PyLong_AsLong(PyObject_GetItem(args, PyOne));
+    PyObject* value = PyObject_GetItem(args, PyOne);
+    if (!value) {
+        return NULL;
+    }
     long _index = index;
-    long _value = value;
-    if (PyList_GetItem(self->flag, index) == PyZero) {
+    PyObject* difference = value;
+    PyObject* flag = PyList_GetItem(self->flag, index);
+    if (!flag) {
+        return NULL;
+    }
+    if (flag == PyZero) {
         PyList_SetItem(self->flag, index, PyOne);
-        index += 1;
-        while (index < self->array->_size + 1) {
-            long curr = PyLong_AsLong(PyList_GetItem(self->tree, index));
-            PyList_SetItem(self->tree, index, PyLong_FromLong(curr + value));
-            index = index + (index & (-1*index));
-        }
     }
     else {
-        value = value - PyLong_AsLong(self->array->_data[index]);
-        index += 1;
-        while (index < self->array->_size + 1) {
-            long curr = PyLong_AsLong(PyList_GetItem(self->tree, index));
-            PyList_SetItem(self->tree, index, PyLong_FromLong(curr + value));
-            index = index + (index & (-1*index));
+        difference = PyNumber_Subtract(value, self->array->_data[index]);
+        if (!difference) {
+            return NULL;
         }
     }
-    self->array->_data[_index] = PyLong_FromLong(_value);
+    index += 1;
+    while (index < self->array->_size + 1) {
+        PyObject* curr = PyNumber_Add(PyList_GetItem(self->tree, index), difference);
+        if (!curr) {
+            return NULL;
+        }
+        PyList_SetItem(self->tree, index, curr);
+        index = index + (index & (-1*index));
+    }
+    self->array->_data[_index] = value;
     Py_RETURN_NONE;
 }
 
@@ -81,22 +88,32 @@ static PyObject* BinaryIndexedTree___new__(PyTypeObject* type, PyObject *args, P
 static PyObject* BinaryIndexedTree_get_prefix_sum(BinaryIndexedTree* self, PyObject *args) {
     long index = PyLong_AsLong(PyObject_GetItem(args, PyZero));
     index += 1;
-    long sum = 0;
+    PyObject* sum = PyLong_FromLong(0);
     while (index > 0) {
-        sum += PyLong_AsLong(PyList_GetItem(self->tree, index));
+        PyObject* curr = PyList_GetItem(self->tree, index);
+        if (!curr) {
+            return NULL;
+        }
+        sum = PyNumber_Add(sum, curr);
+        if (!sum) {
+            return NULL;
+        }
         index = index - (index & (-1*index));
     }
 
-    return PyLong_FromLong(sum);
+    return sum;
 }
 
 static PyObject* BinaryIndexedTree_get_sum(BinaryIndexedTree* self, PyObject *args) {
     long left_index = PyLong_AsLong(PyObject_GetItem(args, PyZero));
     long right_index = PyLong_AsLong(PyObject_GetItem(args, PyOne));
     if (left_index >= 1) {
-        long l1 = PyLong_AsLong(BinaryIndexedTree_get_prefix_sum(self, Py_BuildValue("(O)", PyLong_FromLong(right_index))));
-        long l2 = PyLong_AsLong(BinaryIndexedTree_get_prefix_sum(self, Py_BuildValue("(O)", PyLong_FromLong(left_index - 1))));
-        return PyLong_FromLong(l1 - l2);
+        PyObject* l1 = BinaryIndexedTree_get_prefix_sum(self, Py_BuildValue("(O)", PyLong_FromLong(right_index)));
+        PyObject* l2 = BinaryIndexedTree_get_prefix_sum(self, Py_BuildValue("(O)", PyLong_FromLong(left_index - 1)));
+        if (!l1 || !l2) {
+            return NULL;
+        }
+        return PyNumber_Subtract(l1, l2);
     }
     else {
         return BinaryIndexedTree_get_prefix_sum(self, Py_BuildValue("(O)", PyLong_FromLong(right_index)));
-- 
2.43.0

