From aeafebc690b81569394d33fc28a4a4ec1d1ee54b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:22 +0000
Subject: [PATCH 01/51] fix: mask unaligned 64-bit reads and sign-extend 1-bit
 signed fields in Python

read_value left the bits behind an unaligned 64-bit field in the result, and
returned 1 instead of -1 for a set 1-bit signed field.
---
 flatdata-py/flatdata/lib/data_access.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/flatdata-py/flatdata/lib/data_access.py b/flatdata-py/flatdata/lib/data_access.py
index 359dfc6..e0d5fe8 100644
--- a/flatdata-py/flatdata/lib/data_access.py
+++ b/flatdata-py/flatdata/lib/data_access.py
@@ -11,7 +11,7 @@ def read_value(data, offset_bits, num_bits, is_signed):
     offset_bytes, offset_extra_bits = divmod(offset_bits, 8)
     total_bytes = (num_bits + 7) // 8
 
-    if num_bits == 1:
+    if num_bits == 1 and not is_signed:
         return int((data[offset_bytes] & (1 << offset_extra_bits)) != 0)
 
     result = int.from_bytes(data[offset_bytes: offset_bytes + total_bytes], byteorder="little")
@@ -20,8 +20,7 @@ def read_value(data, offset_bits, num_bits, is_signed):
         remainder = data[offset_bytes + total_bytes]
         result |= remainder << (total_bytes * 8 - offset_extra_bits)
 
-    if num_bits < 64:
-        result = result & ((1 << num_bits) - 1)
+    result = result & ((1 << num_bits) - 1)
 
     if not is_signed:
         return result
-- 
2.43.0


From b88cb1dfbbf66b8b73fa0adaac20cba7c4051121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:15 +0000
Subject: [PATCH 02/51] fix: write_value keeps the bits surrounding a field

The masks for the neighbouring bits used the absolute bit offset instead of the
offset within the byte, and bits after a field inside its last byte were
cleared, so writing a field could destroy its neighbours. A 1-bit signed -1 was
stored as 0.
---
 flatdata-py/flatdata/lib/data_access.py | 35 +++++--------------------
 1 file changed, 7 insertions(+), 28 deletions(-)

diff --git a/flatdata-py/flatdata/lib/data_access.py b/flatdata-py/flatdata/lib/data_access.py
index e0d5fe8..c81d527 100644
--- a/flatdata-py/flatdata/lib/data_access.py
+++ b/flatdata-py/flatdata/lib/data_access.py
@@ -32,32 +32,11 @@ def write_value(data, offset_bits, num_bits, is_signed, value):
     assert num_bits <= 64, f'Number of bits to write is greater than 64'
 
     offset_bytes, offset_extra_bits = divmod(offset_bits, 8)
-    total_bytes = (num_bits + 7) // 8
+    total_bytes = (offset_extra_bits + num_bits + 7) // 8
 
-    if num_bits == 1:
-        if value == 1:
-            data[offset_bytes] |= 1 << offset_extra_bits
-        else:
-            data[offset_bytes] &= ~(1 << offset_extra_bits)
-        return
-
-    mask = (1 << num_bits) - 1
-    value <<= offset_extra_bits
-    value &= mask << offset_extra_bits
-    value_in_little_endian = value.to_bytes(total_bytes + 1, byteorder="little", signed=is_signed)
-    surrounding_bits = data[offset_bytes] & ((1 << offset_bits) - 1)
-
-    byte_idx = 0
-    data[offset_bytes] = value_in_little_endian[byte_idx]
-    data[offset_bytes] |= surrounding_bits
-
-    byte_idx += 1
-    while byte_idx < total_bytes:
-        data[offset_bytes + byte_idx] = value_in_little_endian[byte_idx]
-        byte_idx += 1
-
-    bits_written = total_bytes * 8 - offset_extra_bits
-    if bits_written < num_bits:
-        surrounding_bits = data[offset_bytes + byte_idx] & ~((1 << offset_bits) - 1)
-        data[offset_bytes + byte_idx] = value_in_little_endian[byte_idx] & ((1 << (8 - (bits_written % 8))) - 1)
-        data[offset_bytes + byte_idx] |= surrounding_bits
+    # Replace the bits of the field only, and keep the surrounding data
+    mask = ((1 << num_bits) - 1) << offset_extra_bits
+    result = int.from_bytes(data[offset_bytes: offset_bytes + total_bytes], byteorder="little")
+    result &= ~mask
+    result |= (value << offset_extra_bits) & mask
+    data[offset_bytes: offset_bytes + total_bytes] = result.to_bytes(total_bytes, byteorder="little")
-- 
2.43.0


From 302b96ee7fd521536e0a6ec298ad89e91cd38798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:13 +0000
Subject: [PATCH 03/51] fix: accept nested namespaces in schemas (normalised
 form of dotted namespaces)

---
 flatdata-generator/flatdata/generator/grammar.py    |  7 ++++---
 .../flatdata/generator/tree/builder.py              | 13 ++++++++++---
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/flatdata-generator/flatdata/generator/grammar.py b/flatdata-generator/flatdata/generator/grammar.py
index 034c509..b118573 100644
--- a/flatdata-generator/flatdata/generator/grammar.py
+++ b/flatdata-generator/flatdata/generator/grammar.py
@@ -8,7 +8,7 @@
 from pyparsing import (
     Word, alphas, alphanums, nums, cppStyleComment,
     Keyword, Group, Optional, Or, OneOrMore, delimitedList, ZeroOrMore,
-    hexnums, Combine, FollowedBy, ParseException as pyparsingParseException
+    hexnums, Combine, FollowedBy, Forward, ParseException as pyparsingParseException
 )
 
 ParseException = pyparsingParseException
@@ -195,11 +195,12 @@ flatdata_entry = (
 
 free_comments = Optional(OneOrMore(comment)("comment"))
 
-namespace = Group(
+namespace = Forward()
+namespace <<= Group(
     Keyword("namespace") +
     qualified_identifier("name") +
     "{" +
-    ZeroOrMore(flatdata_entry) + "}" +
+    ZeroOrMore(flatdata_entry | namespace.setResultsName("namespaces", listAllMatches=True)) + "}" +
     Optional(comment)
 )
 
diff --git a/flatdata-generator/flatdata/generator/tree/builder.py b/flatdata-generator/flatdata/generator/tree/builder.py
index bc53a9d..66d5a9c 100644
--- a/flatdata-generator/flatdata/generator/tree/builder.py
+++ b/flatdata-generator/flatdata/generator/tree/builder.py
@@ -79,6 +79,14 @@ def _merge_roots(roots):
     return result
 
 
+def _flatten_namespaces(namespaces, prefix=""):
+    for namespace in namespaces:
+        path = prefix + namespace.name
+        yield path, namespace
+        for nested in _flatten_namespaces(namespace.namespaces, path + Node.PATH_SEPARATOR):
+            yield nested
+
+
 def _build_node_tree(definition):
     if not definition:
         return Root()
@@ -91,9 +99,8 @@ def _build_node_tree(definition):
 
     roots = []
 
-    for namespace in parsed.namespace:
-        root_namespace, target_namespace = _create_nested_namespaces(
-            namespace.name)
+    for path, namespace in _flatten_namespaces(parsed.namespace):
+        root_namespace, target_namespace = _create_nested_namespaces(path)
 
         parsed_items = [
             (namespace.constants, nodes.Constant),
-- 
2.43.0


From 084e74a460ebffdb0c63a21fcbe33e8d3c4e758b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:06 +0000
Subject: [PATCH 04/51] fix: empty resources are not missing resources in
 Python archives

---
 flatdata-py/flatdata/lib/archive.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/flatdata-py/flatdata/lib/archive.py b/flatdata-py/flatdata/lib/archive.py
index 34e27aa..fb7ee28 100644
--- a/flatdata-py/flatdata/lib/archive.py
+++ b/flatdata-py/flatdata/lib/archive.py
@@ -56,8 +56,8 @@ class Archive:
         for name, signature in self._RESOURCES.items():
             resource = self.__getattr__(name)
             result.append([name, signature.container.__name__, signature.is_optional,
-                           resource.size_in_bytes() if resource else None,
-                           len(resource) if resource else None])
+                           resource.size_in_bytes() if resource is not None else None,
+                           len(resource) if resource is not None else None])
         return pd.DataFrame(data=result,
                             columns=["Name", "Type", "Optional", "SizeInBytes", "Size"])
 
@@ -84,7 +84,7 @@ class Archive:
     def size_in_bytes(self):
         return sum(resource_value.size_in_bytes() for resource_value in
                    (self.__getattr__(resource) for resource in self._RESOURCES.keys())
-                   if resource_value)
+                   if resource_value is not None)
 
     def __len__(self):
         return len(self._RESOURCES)
@@ -110,7 +110,7 @@ class Archive:
                                                          name=name,
                                                          initializer=resource_signature.initializer,
                                                          is_optional=resource_signature.is_optional)
-            if resource:
+            if resource is not None:
                 resource.__doc__ = resource_signature.doc
                 return resource
         return None
-- 
2.43.0


From 07a4046733cd3d8d5b3ad421491d88e1594e4ca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:06 +0000
Subject: [PATCH 05/51] fix: raw data access in Python is limited to the
 payload

---
 flatdata-py/flatdata/lib/resources.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/flatdata-py/flatdata/lib/resources.py b/flatdata-py/flatdata/lib/resources.py
index f371a7d..8e55798 100644
--- a/flatdata-py/flatdata/lib/resources.py
+++ b/flatdata-py/flatdata/lib/resources.py
@@ -180,13 +180,15 @@ class RawData(ResourceBase):
         return read_value(self._mem, 0, SIZE_OFFSET_IN_BITS, False)
 
     def __getitem__(self, item):
+        data = self._mem[SIZE_OFFSET_IN_BYTES:SIZE_OFFSET_IN_BYTES + len(self)]
         if isinstance(item, slice):
-            return self._mem[
-                slice(item.start + SIZE_OFFSET_IN_BYTES,
-                      (item.stop + SIZE_OFFSET_IN_BYTES) if item.stop is not None else None,
-                      item.step)
-            ]
-        return self._mem[item + SIZE_OFFSET_IN_BYTES:item + SIZE_OFFSET_IN_BYTES + 1]
+            return data[item]
+
+        if item < 0:
+            item += len(self)
+        if item >= len(self) or item < 0:
+            raise IndexError("RawData access out of bounds: " + str(item))
+        return data[item:item + 1]
 
     def sub_str(self, index, separator = b'\0'):
         for i in range(index, len(self)):
-- 
2.43.0


From 6aafc55a065e0f927a85265dd61dc6f8eb319416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:06 +0000
Subject: [PATCH 06/51] fix: sub_str without a terminator returns the remaining
 string

---
 flatdata-py/flatdata/lib/resources.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatdata-py/flatdata/lib/resources.py b/flatdata-py/flatdata/lib/resources.py
index 8e55798..48d39e2 100644
--- a/flatdata-py/flatdata/lib/resources.py
+++ b/flatdata-py/flatdata/lib/resources.py
@@ -194,7 +194,7 @@ class RawData(ResourceBase):
         for i in range(index, len(self)):
             if self[i:i + len(separator)] == separator:
                 return bytes(self[index:i]).decode("utf-8")
-        return bytes(self[index]).decode("utf-8")
+        return bytes(self[index:]).decode("utf-8")
 
     def sub_str_list(self, index, separator = b'\0', list_separator = b'\0\0'):
         result = []
-- 
2.43.0


From 765da054bbe7cbfb6d2aed8307a4124b9190e4c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:06 +0000
Subject: [PATCH 07/51] fix: to_numpy limits the number of rows instead of
 setting it

---
 flatdata-py/flatdata/lib/resources.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/flatdata-py/flatdata/lib/resources.py b/flatdata-py/flatdata/lib/resources.py
index 48d39e2..631316e 100644
--- a/flatdata-py/flatdata/lib/resources.py
+++ b/flatdata-py/flatdata/lib/resources.py
@@ -61,12 +61,14 @@ class _VectorSlice:
 
     def to_numpy(self, limit=None):
         indices = self._slice.indices(len(self._sequence))
-        num_items = len(range(*indices)) if not limit else limit
+        num_items = len(range(*indices))
+        if limit:
+            num_items = min(num_items, limit)
         result = np.empty(
             shape=num_items,
             dtype=self._sequence._element_type.dtype()
         )
-        for index, item in enumerate(self):
+        for index, item in zip(range(num_items), self):
             result[index] = item.as_tuple()
         return result
 
-- 
2.43.0


From 8806c39924d5fe59064d7b9b566ab27c4dbd2616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:56 +0000
Subject: [PATCH 08/51] fix: reject resources with inconsistent size in Python

---
 flatdata-py/flatdata/lib/resources.py | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/flatdata-py/flatdata/lib/resources.py b/flatdata-py/flatdata/lib/resources.py
index 631316e..eb1558a 100644
--- a/flatdata-py/flatdata/lib/resources.py
+++ b/flatdata-py/flatdata/lib/resources.py
@@ -16,10 +16,20 @@ SIZE_OFFSET_IN_BYTES = SIZE_OFFSET_IN_BITS // 8
 SIZE_PADDING_IN_BYTES = 8
 
 
+def _check_size(mem):
+    """
+    Checks that the memory consists of size, payload of this size, and padding
+    :return: size of the payload in bytes
+    """
+    payload_size = len(mem) - SIZE_OFFSET_IN_BYTES - SIZE_PADDING_IN_BYTES
+    if payload_size < 0 or read_value(mem, 0, SIZE_OFFSET_IN_BITS, False) != payload_size:
+        raise CorruptResourceError("Resource size does not match its declared size")
+    return payload_size
+
+
 class ResourceBase:
     def __init__(self, mem, element_type):
-        if len(mem) < (SIZE_OFFSET_IN_BYTES + SIZE_PADDING_IN_BYTES):
-            raise CorruptResourceError()
+        self._size_in_bytes = _check_size(mem)
         self._mem = memoryview(mem)
         self._element_type = element_type
         self._element_types = [element_type]
@@ -89,9 +99,9 @@ class _VectorSlice:
 class Vector(ResourceBase):
     def __init__(self, mem, element_type):
         ResourceBase.__init__(self, mem, element_type)
-        size_in_bytes = read_value(self._mem, 0, SIZE_OFFSET_IN_BITS, False)
-        size, rem = divmod(size_in_bytes, self._type_size_in_bytes)
-        assert rem == 0, "Malformed vector"
+        size, rem = divmod(self._size_in_bytes, self._type_size_in_bytes)
+        if rem != 0:
+            raise CorruptResourceError("Malformed vector")
         self._size = size
 
     def to_data_frame(self):
@@ -134,6 +144,7 @@ class _MultivectorSlice:
 class Multivector(ResourceBase):
     def __init__(self, index_mem, mem, index_type, *element_types):
         self._index = Vector(index_mem, index_type)
+        _check_size(mem)
         self._mem = mem
         self._element_types = element_types
         self._index_type = index_type
@@ -220,6 +231,11 @@ class RawData(ResourceBase):
 
 
 class Instance(ResourceBase):
+    def __init__(self, mem, element_type):
+        ResourceBase.__init__(self, mem, element_type)
+        if self._size_in_bytes != self._type_size_in_bytes:
+            raise CorruptResourceError("Malformed instance")
+
     def __getitem__(self, index):
         if isinstance(index, slice):
             raise IndexError("Instance has only one item")
-- 
2.43.0


From 5d7c0d293f2ada06e3de9957ad5f0d4f3c983fa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:56 +0000
Subject: [PATCH 09/51] fix: optional resources without data are missing in
 Python

---
 flatdata-py/flatdata/lib/resources.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/flatdata-py/flatdata/lib/resources.py b/flatdata-py/flatdata/lib/resources.py
index eb1558a..3566d97 100644
--- a/flatdata-py/flatdata/lib/resources.py
+++ b/flatdata-py/flatdata/lib/resources.py
@@ -61,7 +61,10 @@ class ResourceBase:
 
     @classmethod
     def open(cls, storage, name, initializer, is_optional=False):
-        return cls(storage.get(name, is_optional), initializer)
+        mem = storage.get(name, is_optional)
+        if mem is None:
+            return None
+        return cls(mem, initializer)
 
 
 class _VectorSlice:
@@ -151,9 +154,11 @@ class Multivector(ResourceBase):
 
     @classmethod
     def open(cls, storage, name, initializer, is_optional=False):
-        return cls(storage.get(name + "_index", is_optional),
-                   storage.get(name, is_optional),
-                   *initializer)
+        index_mem = storage.get(name + "_index", is_optional)
+        mem = storage.get(name, is_optional)
+        if index_mem is None or mem is None:
+            return None
+        return cls(index_mem, mem, *initializer)
 
     def __len__(self):
         # The last entry is just a sentinel
-- 
2.43.0


From 845e65635c2a5f566e0f6274914ce72420d8bdb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:56 +0000
Subject: [PATCH 10/51] fix: inspector opens tar archives

---
 flatdata-py/flatdata/lib/inspector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatdata-py/flatdata/lib/inspector.py b/flatdata-py/flatdata/lib/inspector.py
index 5bfdfdc..8ffc6ca 100755
--- a/flatdata-py/flatdata/lib/inspector.py
+++ b/flatdata-py/flatdata/lib/inspector.py
@@ -72,7 +72,7 @@ def open_archive(path, archive=None, module_name=None):
 
     try:
         module, archive_type = \
-            Engine(schema.read().decode()).render_python_module(module_name=module_name,
+            Engine(bytes(schema).decode()).render_python_module(module_name=module_name,
                                                                 archive_name=archive_name)
     except FlatdataSyntaxError as err:
         raise RuntimeError("Error reading schema: %s " % err)
-- 
2.43.0


From a3d4ca1744203153561d183ee78a4928ce0923f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:29 +0000
Subject: [PATCH 11/51] fix: find archives in nested namespaces when rendering
 a Python module

---
 flatdata-generator/flatdata/generator/engine.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/flatdata-generator/flatdata/generator/engine.py b/flatdata-generator/flatdata/generator/engine.py
index d568f03..81fa23c 100644
--- a/flatdata-generator/flatdata/generator/engine.py
+++ b/flatdata-generator/flatdata/generator/engine.py
@@ -6,6 +6,7 @@
 import types
 
 from flatdata.generator.tree.builder import build_ast
+from flatdata.generator.tree.nodes.archive import Archive
 from flatdata.generator.tree.nodes.trivial.namespace import Namespace
 
 from .generators.cpp import CppGenerator
@@ -76,7 +77,12 @@ class Engine:
         if archive_name is None:
             return module
 
+        # Archives may reside in nested namespaces
         name = root_namespace.name + "_" + archive_name
+        for archive in self.tree.root.iterate(Archive):
+            if archive_name in (archive.name, archive.name + "Builder"):
+                name = self.tree.namespace_path(archive, "_") + "_" + archive_name
+                break
         archive_type = getattr(module, name) if archive_name else None
         return module, archive_type
 
-- 
2.43.0


From 268ddab00c00a281e1892ae3a124ed88628c2fca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:58 +0000
Subject: [PATCH 12/51] fix: refuse multivectors which exceed the range of
 their index in Python

---
 flatdata-py/flatdata/lib/archive_builder.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/flatdata-py/flatdata/lib/archive_builder.py b/flatdata-py/flatdata/lib/archive_builder.py
index a4b1d2a..e4301cf 100644
--- a/flatdata-py/flatdata/lib/archive_builder.py
+++ b/flatdata-py/flatdata/lib/archive_builder.py
@@ -236,6 +236,11 @@ class ArchiveBuilder:
 
         index_data_points.append(data_point)
 
+        index_width = initializer_list[0]._FIELDS["value"].width
+        if data_point >> index_width:
+            raise IndexWriterError(
+                f"Offset {data_point} does not fit into {index_width} bits of the index.")
+
         index_writer = IndexWriter(
             name, initializer_list[0]._SIZE_IN_BYTES, self._resource_storage)
 
-- 
2.43.0


From 76e48694c212edaf7ab3f622c0797919c6a49138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:58 +0000
Subject: [PATCH 13/51] fix: split raw data at separators longer than one byte

---
 flatdata-py/flatdata/lib/resources.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/flatdata-py/flatdata/lib/resources.py b/flatdata-py/flatdata/lib/resources.py
index 3566d97..4b11d52 100644
--- a/flatdata-py/flatdata/lib/resources.py
+++ b/flatdata-py/flatdata/lib/resources.py
@@ -217,19 +217,23 @@ class RawData(ResourceBase):
     def sub_str_list(self, index, separator = b'\0', list_separator = b'\0\0'):
         result = []
         for i in range(index, len(self)):
+            if i < index:
+                continue
             if index == i and self[i:i + len(list_separator)] == list_separator:
                 break
             if self[i:i + len(separator)] == separator:
                 result.append(bytes(self[index:i]).decode("utf-8"))
-                index = i + 1
+                index = i + len(separator)
         return result
 
     def sub_str_array(self, index, size, separator = b'\0'):
         result = []
         for i in range(index, len(self)):
+            if i < index:
+                continue
             if self[i:i + len(separator)] == separator:
                 result.append(bytes(self[index:i]).decode("utf-8"))
-                index = i + 1
+                index = i + len(separator)
                 if len(result) == size:
                     break
         return result
-- 
2.43.0


From 5cc6b675ff937c39aaf902b656bd7b721a6cabda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:00 +0000
Subject: [PATCH 14/51] fix: negative indices of Python multivectors count from
 the end

---
 flatdata-py/flatdata/lib/resources.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/flatdata-py/flatdata/lib/resources.py b/flatdata-py/flatdata/lib/resources.py
index 4b11d52..b02c356 100644
--- a/flatdata-py/flatdata/lib/resources.py
+++ b/flatdata-py/flatdata/lib/resources.py
@@ -171,6 +171,11 @@ class Multivector(ResourceBase):
         if isinstance(index, slice):
             return _MultivectorSlice(index, self)
 
+        if index < 0:
+            index += len(self)
+        if index >= len(self) or index < 0:
+            raise IndexError("Multivector access out of bounds: " + str(index))
+
         offset = self._bucket_offset(index)
         next_offset = self._bucket_offset(index + 1)
         elements = []
-- 
2.43.0


From 9a27d593ce6c4c59595ea1ce93c71b02b7a81efe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:11 +0000
Subject: [PATCH 15/51] fix: C++ reader sign-extends signed fields of one bit

---
 flatdata-cpp/include/flatdata/internal/Reader.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/flatdata-cpp/include/flatdata/internal/Reader.h b/flatdata-cpp/include/flatdata/internal/Reader.h
index 74c3514..186e5c4 100644
--- a/flatdata-cpp/include/flatdata/internal/Reader.h
+++ b/flatdata-cpp/include/flatdata/internal/Reader.h
@@ -83,7 +83,8 @@ struct Reader
 
         if ( num_bits == 1 )
         {
-            return static_cast< T >( ( data[ BYTE_OFFSET ] & ( 1 << BIT_OFFSET ) ) != 0 );
+            const bool bit = ( data[ BYTE_OFFSET ] & ( 1 << BIT_OFFSET ) ) != 0;
+            return IsSigned< T >::value ? static_cast< T >( bit ? -1 : 0 ) : static_cast< T >( bit );
         }
 
         UnsignedType result;
-- 
2.43.0


From 517e37c902a7a9390fbfb4eb8f168c976caea208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:27 +0000
Subject: [PATCH 16/51] fix: C++ readers of signed enumerations spanning their
 whole type compile

---
 flatdata-cpp/include/flatdata/internal/Reader.h | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/flatdata-cpp/include/flatdata/internal/Reader.h b/flatdata-cpp/include/flatdata/internal/Reader.h
index 186e5c4..fb85a2a 100644
--- a/flatdata-cpp/include/flatdata/internal/Reader.h
+++ b/flatdata-cpp/include/flatdata/internal/Reader.h
@@ -37,18 +37,21 @@ struct Reader
 
     enum
     {
-        bit_width = num_bits
+        bit_width = num_bits,
+        // enumerations use the range of their underlying type only if they fill it completely
+        has_signed_range = std::is_signed< T >::value
+                           || ( IsSigned< T >::value && num_bits == sizeof( T ) * 8 )
     };
     enum : typename UnderlyingType< T >::type
     {
         max = bit_width == 0 ? 0
-                             : ( bit_width - std::is_signed< T >::value
+                             : ( bit_width - has_signed_range
                                          == sizeof( typename BitsToUnsigned< num_bits >::type ) * 8
                                      ? typename BitsToUnsigned< num_bits >::type( -1 )
                                      : ( typename BitsToUnsigned< num_bits >::type( 1 )
-                                         << ( bit_width - std::is_signed< T >::value ) )
+                                         << ( bit_width - has_signed_range ) )
                                            - 1 ),
-        min = bit_width == 0 || !std::is_signed< T >::value
+        min = bit_width == 0 || !has_signed_range
                   ? static_cast< typename UnderlyingType< T >::type >( 0 )
                   : static_cast< typename UnderlyingType< T >::type >( -max - 1 )
     };
-- 
2.43.0


From 529feda70f570c756e3ac2d87eefadd609c5a329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:04 +0000
Subject: [PATCH 17/51] fix: C++ writer masks negative enumeration values

---
 flatdata-cpp/include/flatdata/internal/Writer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatdata-cpp/include/flatdata/internal/Writer.h b/flatdata-cpp/include/flatdata/internal/Writer.h
index 230e861..0f54578 100644
--- a/flatdata-cpp/include/flatdata/internal/Writer.h
+++ b/flatdata-cpp/include/flatdata/internal/Writer.h
@@ -53,7 +53,7 @@ struct Writer
         static const int BIT_OFFSET = offset % 8;
 
         auto value_to_store = static_cast< UnsignedType >( t );
-        if ( std::is_signed< T >::value )
+        if ( IsSigned< T >::value )
         {
             // negative numbers are stored as 2-complement, and we need to remove upper bits
             value_to_store = masked< num_bits >( value_to_store );
-- 
2.43.0


From fd904a13b3c97da881256861d8b9c2cbdd24f8fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:12 +0000
Subject: [PATCH 18/51] fix: generated C++ operator< orders structures
 lexicographically

---
 .../flatdata/generator/templates/cpp/structure.jinja2           | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatdata-generator/flatdata/generator/templates/cpp/structure.jinja2 b/flatdata-generator/flatdata/generator/templates/cpp/structure.jinja2
index 48759d6..d909060 100644
--- a/flatdata-generator/flatdata/generator/templates/cpp/structure.jinja2
+++ b/flatdata-generator/flatdata/generator/templates/cpp/structure.jinja2
@@ -141,7 +141,7 @@ bool {{ template_spec }}::operator<( const {{ struct.name }}Template& other ) co
 {
 return
 {% for member in struct.fields %}
-    {{ member.name }} < other.{{ member.name }}{% if not loop.last %} &&
+    {{ member.name }} < other.{{ member.name }}{% if not loop.last %} ? true : other.{{ member.name }} < {{ member.name }} ? false :
 {%endif%}
 {% endfor %};
 }
-- 
2.43.0


From f653c32a5ae421cd093803074dbabb6cdf52395e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:08 +0000
Subject: [PATCH 19/51] fix: distance of C++ array view iterators can be
 negative

---
 flatdata-cpp/include/flatdata/internal/ArrayViewIterator.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatdata-cpp/include/flatdata/internal/ArrayViewIterator.inl b/flatdata-cpp/include/flatdata/internal/ArrayViewIterator.inl
index 7862702..6acf28b 100644
--- a/flatdata-cpp/include/flatdata/internal/ArrayViewIterator.inl
+++ b/flatdata-cpp/include/flatdata/internal/ArrayViewIterator.inl
@@ -98,7 +98,7 @@ template < typename T >
 typename ArrayViewIterator< T >::difference_type
 ArrayViewIterator< T >::operator-( const ArrayViewIterator& other ) const
 {
-    return ( m_ptr - other.m_ptr ) / T::size_in_bytes( );
+    return ( m_ptr - other.m_ptr ) / static_cast< difference_type >( T::size_in_bytes( ) );
 }
 
 template < typename T >
-- 
2.43.0


From f4d6c07ddb55a99fd653a20665f1fea8e86ee70c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:08 +0000
Subject: [PATCH 20/51] fix: empty views of overlapping C++ structures have no
 bytes

---
 flatdata-cpp/include/flatdata/internal/ArrayView.inl | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/flatdata-cpp/include/flatdata/internal/ArrayView.inl b/flatdata-cpp/include/flatdata/internal/ArrayView.inl
index 76c5a8f..49e00e3 100644
--- a/flatdata-cpp/include/flatdata/internal/ArrayView.inl
+++ b/flatdata-cpp/include/flatdata/internal/ArrayView.inl
@@ -50,6 +50,10 @@ template < typename T >
 size_t
 ArrayView< T >::size_in_bytes( ) const
 {
+    if ( m_size == 0 )
+    {
+        return 0;
+    }
     return ( m_size + ( T::IS_OVERLAPPING_WITH_NEXT ? 1 : 0 ) ) * T::size_in_bytes( );
 }
 
-- 
2.43.0


From 1b8be9f29dc3d4f8dc5eff01349f703830b5dcb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:21 +0000
Subject: [PATCH 21/51] fix: refuse C++ multivector data beyond the range of
 its index

---
 flatdata-cpp/include/flatdata/MultiVector.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/flatdata-cpp/include/flatdata/MultiVector.h b/flatdata-cpp/include/flatdata/MultiVector.h
index 62ae109..4e82a74 100644
--- a/flatdata-cpp/include/flatdata/MultiVector.h
+++ b/flatdata-cpp/include/flatdata/MultiVector.h
@@ -10,6 +10,7 @@
 #include "internal/functional/Utility.h"
 
 #include <cstdint>
+#include <stdexcept>
 #include <tuple>
 
 namespace flatdata
@@ -156,7 +157,13 @@ template < typename IndexType, typename... Args >
 void
 MultiVector< IndexType, Args... >::add_to_index( )
 {
-    m_index.grow( ).value = m_size_flushed + m_data.size( ) - PADDING_SIZE;
+    const uint64_t position = m_size_flushed + m_data.size( ) - PADDING_SIZE;
+    auto entry = m_index.grow( );
+    entry.value = position;
+    if ( static_cast< uint64_t >( entry.value ) != position )
+    {
+        throw std::overflow_error( "MultiVector data exceeds the range of its index" );
+    }
 }
 
 template < typename IndexType, typename... Args >
-- 
2.43.0


From 795deb5f87d8058c29affde7f60bfeb1e80f262d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:38 +0000
Subject: [PATCH 22/51] fix: C++ vector elements added after removing others
 are zero

---
 flatdata-cpp/include/flatdata/Vector.h | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/flatdata-cpp/include/flatdata/Vector.h b/flatdata-cpp/include/flatdata/Vector.h
index 20579bd..acafed5 100644
--- a/flatdata-cpp/include/flatdata/Vector.h
+++ b/flatdata-cpp/include/flatdata/Vector.h
@@ -8,6 +8,7 @@
 #include "ArrayView.h"
 #include "internal/Constants.h"
 
+#include <algorithm>
 #include <type_traits>
 #include <vector>
 
@@ -47,6 +48,9 @@ public:
 
     operator ArrayView< ConstValueType >( ) const;
 
+private:
+    void clear_padding( );
+
 private:
     std::vector< typename std::remove_pointer< StreamType >::type > m_data;
 };
@@ -135,6 +139,7 @@ void
 Vector< T >::resize( size_t size )
 {
     m_data.resize( size * T::size_in_bytes( ) + PADDING_SIZE );
+    clear_padding( );
 }
 
 template < typename T >
@@ -158,6 +163,15 @@ void
 Vector< T >::pop_back( )
 {
     m_data.resize( m_data.size( ) - T::size_in_bytes( ) );
+    clear_padding( );
+}
+
+template < typename T >
+void
+Vector< T >::clear_padding( )
+{
+    // removed elements must not show up in elements added later
+    std::fill( m_data.end( ) - PADDING_SIZE, m_data.end( ), 0 );
 }
 
 template < typename T >
-- 
2.43.0


From 85bee5c8fad559b1ccf91702d0c1dcd92572fe96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:38 +0000
Subject: [PATCH 23/51] fix: C++ instances are read only if the resource has
 their size

---
 flatdata-cpp/include/flatdata/internal/ResourceStorage.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatdata-cpp/include/flatdata/internal/ResourceStorage.inl b/flatdata-cpp/include/flatdata/internal/ResourceStorage.inl
index 0520da2..d792829 100644
--- a/flatdata-cpp/include/flatdata/internal/ResourceStorage.inl
+++ b/flatdata-cpp/include/flatdata/internal/ResourceStorage.inl
@@ -27,7 +27,7 @@ struct ValueCreator
     operator( )( const char* resource, const char* schema, Loader&& loader )
     {
         auto data = loader( resource, schema );
-        if ( !data )
+        if ( !data || data.size_in_bytes( ) != T::size_in_bytes( ) )
         {
             return boost::none;
         }
-- 
2.43.0


From b299e149459af92417dbf33e45646c50b3bfb247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:26 +0000
Subject: [PATCH 24/51] fix: C++ tar reader stops at entries exceeding the
 archive

---
 flatdata-cpp/src/TarReader.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/flatdata-cpp/src/TarReader.cpp b/flatdata-cpp/src/TarReader.cpp
index 6a35034..f1b909e 100644
--- a/flatdata-cpp/src/TarReader.cpp
+++ b/flatdata-cpp/src/TarReader.cpp
@@ -151,6 +151,11 @@ read_tar_file_entries( MemoryDescriptor data )
             file.size = file_size;
             file_entries.emplace_back( file );
 
+            if ( file_size > data.size( ) - offset )
+            {
+                // Truncated archive, this is the last entry
+                break;
+            }
             const size_t padding = ( BLOCK_SIZE - ( file_size % BLOCK_SIZE ) ) % BLOCK_SIZE;
             offset += file_size + padding;
         }
-- 
2.43.0


From 40ec136a7ba4964acf6535f2b838519b70645b50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:28 +0000
Subject: [PATCH 25/51] fix: C++ tar reader does not name files after
 long-named directories

---
 flatdata-cpp/src/TarReader.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/flatdata-cpp/src/TarReader.cpp b/flatdata-cpp/src/TarReader.cpp
index f1b909e..61a42dc 100644
--- a/flatdata-cpp/src/TarReader.cpp
+++ b/flatdata-cpp/src/TarReader.cpp
@@ -161,7 +161,8 @@ read_tar_file_entries( MemoryDescriptor data )
         }
         else if ( header.typeflag == DIRTYPE )
         {
-            // Skip directories
+            // Skip directories, including their long names
+            long_name.clear( );
         }
         else if ( header.typeflag == GNUTYPE_LONGNAME )
         {
-- 
2.43.0


From fd42759aa0b65e0273a3d5285b3ab5131cbf5e0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:28 +0000
Subject: [PATCH 26/51] fix: C++ tar reader joins prefix and name of POSIX
 entries

---
 flatdata-cpp/src/TarReader.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/flatdata-cpp/src/TarReader.cpp b/flatdata-cpp/src/TarReader.cpp
index 61a42dc..91415ee 100644
--- a/flatdata-cpp/src/TarReader.cpp
+++ b/flatdata-cpp/src/TarReader.cpp
@@ -137,6 +137,14 @@ read_tar_file_entries( MemoryDescriptor data )
         if ( header.typeflag == REGTYPE || header.typeflag == AREGTYPE )
         {
             std::string file_name( header.name, strnlen( header.name, sizeof( header.name ) ) );
+            // POSIX archives split long names into prefix and name
+            if ( std::memcmp( header.magic, "ustar", sizeof( header.magic ) ) == 0
+                 && header.prefix[ 0 ] != '\0' )
+            {
+                file_name = std::string( header.prefix,
+                                         strnlen( header.prefix, sizeof( header.prefix ) ) )
+                            + '/' + file_name;
+            }
             if ( !long_name.empty( ) )
             {
                 file_name = std::move( long_name );
-- 
2.43.0


From 252688a0ca51317804e5dc8a27683a33adbf2fb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:38 +0000
Subject: [PATCH 27/51] fix: Rust reader takes the last byte of wide fields
 from its place

---
 flatdata-rs/lib/src/bytereader.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatdata-rs/lib/src/bytereader.rs b/flatdata-rs/lib/src/bytereader.rs
index 99376c5..5c39332 100644
--- a/flatdata-rs/lib/src/bytereader.rs
+++ b/flatdata-rs/lib/src/bytereader.rs
@@ -63,7 +63,7 @@ macro_rules! flatdata_read_bytes {
 
             let read_bits = num_bytes * 8 - bit_offset;
             if read_bits < $num_bits {
-                let temp = u64::from(unsafe { *data.add(byte_offset + num_bytes) });
+                let temp = u64::from(unsafe { *data.add(num_bytes) });
                 result |= temp << read_bits % (num_bytes * 8);
             }
             result = flatdata_read_bytes!(@mask, result, $num_bits);
-- 
2.43.0


From 15ff0c4a45d6f6a80d2c043a5d1b91676c79f10e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:44 +0000
Subject: [PATCH 28/51] fix: Rust writer puts the last byte of wide fields in
 its place

---
 flatdata-rs/lib/src/bytewriter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatdata-rs/lib/src/bytewriter.rs b/flatdata-rs/lib/src/bytewriter.rs
index 2275e14..c931880 100644
--- a/flatdata-rs/lib/src/bytewriter.rs
+++ b/flatdata-rs/lib/src/bytewriter.rs
@@ -65,7 +65,7 @@ macro_rules! flatdata_write_bytes {
         // one byte might be missing
         let batched_bits_written = num_bytes * 8 - bit_offset;
         if batched_bits_written < $num_bits {
-            let destination = &mut $data[num_bytes] as *mut u8;
+            let destination = &mut $data[$offset / 8 + num_bytes] as *mut u8;
             value_to_store >>= batched_bits_written % (num_bytes * 8);
             value_mask >>= batched_bits_written % (num_bytes * 8);
             unsafe {
-- 
2.43.0


From bae2c08951146ca729c355243b4b210ecf8c17fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:25 +0000
Subject: [PATCH 29/51] fix: indexing Rust vectors of overlapping structures
 stops at the last item

---
 flatdata-rs/lib/src/vector.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/flatdata-rs/lib/src/vector.rs b/flatdata-rs/lib/src/vector.rs
index 5efe7ce..b221dfe 100644
--- a/flatdata-rs/lib/src/vector.rs
+++ b/flatdata-rs/lib/src/vector.rs
@@ -157,7 +157,8 @@ where
 {
     type Output = Idx::Output;
     fn index(&self, index: Idx) -> &Idx::Output {
-        &self.data[index]
+        let len = self.data.len() - 1;
+        &self.data[..len][index]
     }
 }
 
@@ -168,7 +169,8 @@ where
     T: Struct + Overlap,
 {
     fn index_mut(&mut self, index: usize) -> &mut T {
-        &mut self.data[index]
+        let len = self.data.len() - 1;
+        &mut self.data[..len][index]
     }
 }
 
-- 
2.43.0


From 38ff2deb8eb6cfbd70c56bd6efb5c70487097740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:47 +0000
Subject: [PATCH 30/51] fix: writing a Rust memory resource again replaces its
 content

---
 flatdata-rs/lib/src/memstorage.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/flatdata-rs/lib/src/memstorage.rs b/flatdata-rs/lib/src/memstorage.rs
index 04fdee2..b9b66a2 100644
--- a/flatdata-rs/lib/src/memstorage.rs
+++ b/flatdata-rs/lib/src/memstorage.rs
@@ -143,14 +143,13 @@ impl ResourceStorage for MemoryResourceStorage {
 
     fn create_output_stream(&self, resource_name: &str) -> Result<Box<dyn Stream>, io::Error> {
         let resource_path = self.path.join(resource_name);
-        let stream = self
-            .storage
+        // a resource written again replaces the previous content
+        let stream = Arc::new(Mutex::new(Cursor::new(Vec::new())));
+        self.storage
             .streams
             .lock()
             .unwrap()
-            .entry(resource_path)
-            .or_insert_with(|| Arc::new(Mutex::new(Cursor::new(Vec::new()))))
-            .clone();
+            .insert(resource_path, stream.clone());
         Ok(Box::new(StreamWrapper { stream }))
     }
 }
-- 
2.43.0


From 2283893375c763fa27409c07d94c46e528d83e9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:45 +0000
Subject: [PATCH 31/51] fix: refuse Rust multivector data beyond the range of
 its index

---
 flatdata-rs/lib/src/multivector.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/flatdata-rs/lib/src/multivector.rs b/flatdata-rs/lib/src/multivector.rs
index 4446a73..89536a8 100644
--- a/flatdata-rs/lib/src/multivector.rs
+++ b/flatdata-rs/lib/src/multivector.rs
@@ -149,8 +149,15 @@ where
     }
 
     fn add_to_index(&mut self) -> io::Result<()> {
+        let position = self.size_flushed + self.data.len();
         let idx_mut = self.index.grow()?;
-        Ts::Index::set_index(idx_mut, self.size_flushed + self.data.len());
+        Ts::Index::set_index(idx_mut, position);
+        if idx_mut.range().start != position {
+            return Err(io::Error::new(
+                io::ErrorKind::InvalidData,
+                "multivector data exceeds the range of its index",
+            ));
+        }
         Ok(())
     }
 
-- 
2.43.0


From 9520bf3d65558d1da8f6a405575fdd361a101182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:06 +0000
Subject: [PATCH 32/51] fix: flatdata-go: sign-extend fields which end in their
 first byte

---
 flatdata-go/flatdata/reader.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/flatdata-go/flatdata/reader.go b/flatdata-go/flatdata/reader.go
index a48d20e..7f6d6a1 100644
--- a/flatdata-go/flatdata/reader.go
+++ b/flatdata-go/flatdata/reader.go
@@ -28,11 +28,12 @@ func Read(descriptor MemoryDescriptor, offset, size uint, signed bool) int {
 		result = currentByte >> localOffset
 		if bitsLeft <= (8 - localOffset) {
 			result &= (1 << bitsLeft) - 1
-			return int(result)
+			bitsLeft = 0
+		} else {
+			bitsLeft -= 8 - localOffset
+			currentIndex++
+			currentByte = uint(descriptor.At(int(currentIndex)))
 		}
-		bitsLeft -= 8 - localOffset
-		currentIndex++
-		currentByte = uint(descriptor.At(int(currentIndex)))
 	}
 
 	for bitsLeft >= 8 {
-- 
2.43.0


From 591b57cc1fa116b78877c5910d4a2f6286dfb1d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:57 +0000
Subject: [PATCH 33/51] fix: refuse two ranges of the same name in a structure

---
 flatdata-generator/flatdata/generator/tree/builder.py | 2 +-
 flatdata-generator/flatdata/generator/tree/errors.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/flatdata-generator/flatdata/generator/tree/builder.py b/flatdata-generator/flatdata/generator/tree/builder.py
index 66d5a9c..2823ce6 100644
--- a/flatdata-generator/flatdata/generator/tree/builder.py
+++ b/flatdata-generator/flatdata/generator/tree/builder.py
@@ -186,7 +186,7 @@ def _check_ranges(root):
         if not name:
             continue
         for sibling in field.parent.fields:
-            if sibling.name == name:
+            if sibling.name == name or (sibling is not field and sibling.range == name):
                 raise InvalidRangeName(name)
         # Also check that the range is not optional
         if field.invalid_value:
diff --git a/flatdata-generator/flatdata/generator/tree/errors.py b/flatdata-generator/flatdata/generator/tree/errors.py
index 22c8d4f..e9dd250 100644
--- a/flatdata-generator/flatdata/generator/tree/errors.py
+++ b/flatdata-generator/flatdata/generator/tree/errors.py
@@ -141,7 +141,7 @@ class DuplicateInvalidValueReference(FlatdataSyntaxError):
 class InvalidRangeName(FlatdataSyntaxError):
     def __init__(self, name):
         super().__init__(
-            "@range name {name} is already in use for a field"
+            "@range name {name} is already in use for a field or another range"
             .format(name=name))
 
 class InvalidRangeReference(FlatdataSyntaxError):
-- 
2.43.0


From 90f15e9aec8c64205140dd01d91ee91e658b0534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:21 +0000
Subject: [PATCH 34/51] fix: assign boost::optional values to optional fields
 in C++

---
 flatdata-cpp/include/flatdata/internal/Writer.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/flatdata-cpp/include/flatdata/internal/Writer.h b/flatdata-cpp/include/flatdata/internal/Writer.h
index 0f54578..7ed7c3c 100644
--- a/flatdata-cpp/include/flatdata/internal/Writer.h
+++ b/flatdata-cpp/include/flatdata/internal/Writer.h
@@ -137,12 +137,13 @@ struct Writer< Tagged< T, INVALID_VALUE >, offset, num_bits, struct_size_bytes >
     {
         if ( t )
         {
-            Writer< T, offset, num_bits >{ data } = t;
+            Writer< T, offset, num_bits >{ data } = *t;
         }
         else
         {
             Writer< T, offset, num_bits >{ data } = INVALID_VALUE;
         }
+        return *this;
     }
 };
 
-- 
2.43.0


From 84508fcc7f8996ab00c401711f937e7db33bbfaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:23 +0000
Subject: [PATCH 35/51] fix: keep the context mask of C++ schema diffs in
 bounds

---
 flatdata-cpp/src/Archive.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatdata-cpp/src/Archive.cpp b/flatdata-cpp/src/Archive.cpp
index 4fb7a83..85540a1 100644
--- a/flatdata-cpp/src/Archive.cpp
+++ b/flatdata-cpp/src/Archive.cpp
@@ -88,7 +88,7 @@ std::string
 create_context( const std::vector< std::string >& diff )
 {
     std::string result;
-    std::vector< bool > result_mask( diff.size( ) );
+    std::vector< bool > result_mask( diff.size( ) + 1 );
     size_t context_lines = 3;
 
     int lines_to_go = -1;
-- 
2.43.0


From 11274e3715cfc4f0143600b1796c7ffdcdfbab9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:23 +0000
Subject: [PATCH 36/51] fix: compare whole stored schemas in C++ schema diffs

---
 flatdata-cpp/src/Archive.cpp | 35 +++++++++++++++++------------------
 1 file changed, 17 insertions(+), 18 deletions(-)

diff --git a/flatdata-cpp/src/Archive.cpp b/flatdata-cpp/src/Archive.cpp
index 85540a1..8b2e8d5 100644
--- a/flatdata-cpp/src/Archive.cpp
+++ b/flatdata-cpp/src/Archive.cpp
@@ -61,23 +61,20 @@ Archive::storage( ) const
 namespace
 {
 std::vector< std::string >
-to_lines( const char* string )
+to_lines( const char* string, const char* end )
 {
     std::vector< std::string > result;
-    if ( string )
+    while ( string != end )
     {
-        while ( *string )
+        auto begin = string;
+        while ( string != end && *string != '\n' )
         {
-            auto begin = string;
-            while ( *string && *string != '\n' )
-            {
-                string++;
-            }
-            result.emplace_back( begin, string );
-            if ( *string )
-            {
-                string++;
-            }
+            string++;
+        }
+        result.emplace_back( begin, string );
+        if ( string != end )
+        {
+            string++;
         }
     }
 
@@ -129,14 +126,17 @@ create_context( const std::vector< std::string >& diff )
 }
 
 std::string
-compute_diff( const char* expected, const char* found )
+compute_diff( const char* expected, const MemoryDescriptor& found )
 {
     if ( !found )
     {
         return { };
     }
-    std::vector< std::string > lines_expected = to_lines( expected );
-    std::vector< std::string > lines_found = to_lines( found );
+    std::vector< std::string > lines_expected
+        = to_lines( expected, expected + std::strlen( expected ) );
+    // stored schemas are not null-terminated
+    std::vector< std::string > lines_found
+        = to_lines( found.char_ptr( ), found.char_ptr( ) + found.size_in_bytes( ) );
     size_t expected_length = lines_expected.size( ) + 1;
     size_t found_length = lines_found.size( ) + 1;
 
@@ -258,8 +258,7 @@ Archive::describe( size_t nest_level ) const
                << "FATAL: Archive signature does not match software expectations."
                << ( is_root_node ? newl : empty ) << hline;
         result << compute_diff(
-            schema( ),
-            m_storage->read_schema( internal::signature_name( name( ) ).c_str( ) ).char_ptr( ) );
+            schema( ), m_storage->read_schema( internal::signature_name( name( ) ).c_str( ) ) );
         return result.str( );
     }
 
-- 
2.43.0


From 0a1bfb0753184b9f10e99c7260f143b07f647ac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:33 +0000
Subject: [PATCH 37/51] fix: read empty files in the Python file storage

---
 flatdata-py/flatdata/lib/file_resource_storage.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/flatdata-py/flatdata/lib/file_resource_storage.py b/flatdata-py/flatdata/lib/file_resource_storage.py
index 674b6fb..f842def 100644
--- a/flatdata-py/flatdata/lib/file_resource_storage.py
+++ b/flatdata-py/flatdata/lib/file_resource_storage.py
@@ -21,8 +21,10 @@ class FileResourceStorage:
         :param filename:
         :return: file-like object for memory mapped file.
         """
-        opened_file = open(filename, 'r')
-        return mmap.mmap(opened_file.fileno(), 0, access=mmap.ACCESS_READ)
+        with open(filename, 'rb') as opened_file:
+            if os.fstat(opened_file.fileno()).st_size == 0:
+                return b""  # empty files cannot be memory mapped
+            return mmap.mmap(opened_file.fileno(), 0, access=mmap.ACCESS_READ)
 
     def __init__(self, path):
         self.path = path
-- 
2.43.0


From 6bfaef9ddd576f6afd3bf5d5323de6aad5c00f97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:33 +0000
Subject: [PATCH 38/51] fix: refuse pax sparse members in the Python tar
 storage

---
 flatdata-py/flatdata/lib/tar_archive_resource_storage.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatdata-py/flatdata/lib/tar_archive_resource_storage.py b/flatdata-py/flatdata/lib/tar_archive_resource_storage.py
index cb5dd55..6b2cdb1 100644
--- a/flatdata-py/flatdata/lib/tar_archive_resource_storage.py
+++ b/flatdata-py/flatdata/lib/tar_archive_resource_storage.py
@@ -31,7 +31,7 @@ class TarArchiveResourceStorage:
                 name = file.name
                 if name.startswith("./"):
                     name = name[2:]
-                if file.type == tarfile.GNUTYPE_SPARSE:
+                if file.issparse():
                     raise CorruptResourceError("Sparse files are not supported")
                 if file.isreg():
                     file_entries[name] = (file.offset_data, file.size)
-- 
2.43.0


From 04e563bbb51fbb9baf21dce198edef0eb8ef59d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:33 +0000
Subject: [PATCH 39/51] fix: find directories implied by tar member paths in
 Python

---
 flatdata-py/flatdata/lib/tar_archive_resource_storage.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/flatdata-py/flatdata/lib/tar_archive_resource_storage.py b/flatdata-py/flatdata/lib/tar_archive_resource_storage.py
index 6b2cdb1..920461e 100644
--- a/flatdata-py/flatdata/lib/tar_archive_resource_storage.py
+++ b/flatdata-py/flatdata/lib/tar_archive_resource_storage.py
@@ -3,6 +3,7 @@
  See the LICENSE file in the root of this project for license details.
 '''
 
+import posixpath
 import tarfile
 
 from .errors import CorruptResourceError
@@ -37,6 +38,11 @@ class TarArchiveResourceStorage:
                     file_entries[name] = (file.offset_data, file.size)
                 if file.isdir() and name != ".":
                     dir_entries.add(name)
+                # directories may be implied by the paths of their members only
+                parent = posixpath.dirname(name)
+                while parent not in ("", "/", "."):
+                    dir_entries.add(parent)
+                    parent = posixpath.dirname(parent)
 
         return cls(tar_map, file_entries, dir_entries, sub_path)
 
-- 
2.43.0


From 4e6c46c7e6a06d002d4010c14bdaecb698a9d3f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:33 +0000
Subject: [PATCH 40/51] fix: map each file only once when Rust storages are
 shared by threads

---
 flatdata-rs/lib/src/filestorage.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/flatdata-rs/lib/src/filestorage.rs b/flatdata-rs/lib/src/filestorage.rs
index 8e1e14d..b77c03c 100644
--- a/flatdata-rs/lib/src/filestorage.rs
+++ b/flatdata-rs/lib/src/filestorage.rs
@@ -19,12 +19,14 @@ struct MemoryMappedFileStorage {
 
 impl MemoryMappedFileStorage {
     pub fn read(&self, path: &str) -> Result<&[u8], io::Error> {
-        if !self.maps.lock().unwrap().contains_key(path) {
+        // The lock is held throughout: replacing a mapping would invalidate data handed out before
+        let mut maps = self.maps.lock().unwrap();
+        if !maps.contains_key(path) {
             let file = File::open(path)?;
             let file_mmap = unsafe { Mmap::map(&file)? };
-            self.maps.lock().unwrap().insert(path.into(), file_mmap);
+            maps.insert(path.into(), file_mmap);
         }
-        let data = &self.maps.lock().unwrap()[path];
+        let data = &maps[path];
         // We cannot prove to Rust that the buffer will live as long as the storage
         // (we never delete mappings), so we need to manually extend lifetime
         let extended_lifetime_data = unsafe { slice::from_raw_parts(data.as_ptr(), data.len()) };
-- 
2.43.0


From abbaf8d619a6f8d47a5599b0d4c765d0a99397f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:33 +0000
Subject: [PATCH 41/51] fix: do not panic on truncated tar archives in Rust

---
 flatdata-rs/lib/src/tarstorage.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/flatdata-rs/lib/src/tarstorage.rs b/flatdata-rs/lib/src/tarstorage.rs
index 6809fc8..037e964 100644
--- a/flatdata-rs/lib/src/tarstorage.rs
+++ b/flatdata-rs/lib/src/tarstorage.rs
@@ -44,7 +44,7 @@ impl MemoryMappedTarArchiveStorage {
                     ));
                 }
 
-                Ok((path, offset..offset + size))
+                Ok((path, offset..offset.saturating_add(size)))
             })
             .collect::<Result<HashMap<PathBuf, Range<usize>>, io::Error>>()?;
 
@@ -55,13 +55,14 @@ impl MemoryMappedTarArchiveStorage {
     }
 
     pub fn read(&self, path: &Path) -> Option<&[u8]> {
-        self.file_ranges.get(path).map(|range| {
+        self.file_ranges.get(path).and_then(|range| {
             // We cannot prove to Rust that the buffer will live as long as the storage
             // (we never delete mappings), so we need to manually extend lifetime
             let extended_lifetime_archive_map =
                 unsafe { slice::from_raw_parts(self.archive_map.as_ptr(), self.archive_map.len()) };
 
-            &extended_lifetime_archive_map[range.clone()]
+            // `None`, if the member is cut off by the end of the archive
+            extended_lifetime_archive_map.get(range.clone())
         })
     }
 }
-- 
2.43.0


From e33f7124d2050fbdfebb4c65352f8fc91879f15d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:17 +0000
Subject: [PATCH 42/51] fix: store raw data of any bytes-like type in Python,
 refuse others

---
 flatdata-py/flatdata/lib/resource_storage.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/flatdata-py/flatdata/lib/resource_storage.py b/flatdata-py/flatdata/lib/resource_storage.py
index 72a6219..965a36b 100644
--- a/flatdata-py/flatdata/lib/resource_storage.py
+++ b/flatdata-py/flatdata/lib/resource_storage.py
@@ -50,10 +50,9 @@ class _Resource():
         '''
         Concatenates passed data to instance member bytearray or bytes.
 
-        :param data(bytearray): bytearray to be added to resource
+        :param data: bytes, bytearray or other bytes-like object to be added to resource
         '''
-        if data and isinstance(data, bytearray) or isinstance(data, bytes):
-            self.data += data
+        self.data += data
 
     def get_data(self):
         '''Returns resources data in bytearray'''
-- 
2.43.0


From cf2193e33f0372b7b1c4392b5b85b629342ecd6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:35 +0000
Subject: [PATCH 43/51] fix: the last of several tar entries of one name counts
 in C++

---
 .../include/flatdata/MemoryMappedTarFileStorage.h        | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/flatdata-cpp/include/flatdata/MemoryMappedTarFileStorage.h b/flatdata-cpp/include/flatdata/MemoryMappedTarFileStorage.h
index cb2da3b..e09386c 100644
--- a/flatdata-cpp/include/flatdata/MemoryMappedTarFileStorage.h
+++ b/flatdata-cpp/include/flatdata/MemoryMappedTarFileStorage.h
@@ -62,11 +62,10 @@ inline MemoryMappedTarFileStorage::MemoryMappedTarFileStorage( const char* tar_p
     for ( const auto& file : file_entries )
     {
         std::string path = file.name.substr( 0, 2 ) == "./" ? file.name.substr( 2 ) : file.name;
-        m_files.emplace(
-            std::move( path ),
-            MemoryDescriptor(
-                static_cast< const unsigned char* >( m_region.get_address( ) ) + file.offset,
-                std::min( file.size, m_region.get_size( ) - file.offset ) ) );
+        // the last entry of a name replaces the earlier ones
+        m_files[ std::move( path ) ] = MemoryDescriptor(
+            static_cast< const unsigned char* >( m_region.get_address( ) ) + file.offset,
+            std::min( file.size, m_region.get_size( ) - file.offset ) );
     }
 }
 
-- 
2.43.0


From dff8e80c291b12d8aad55e4b1611b95995e74956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:35 +0000
Subject: [PATCH 44/51] fix: C++ file storages of paths ending in a dot stay
 inside the directory, empty paths are refused

---
 flatdata-cpp/include/flatdata/FileResourceStorage.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/flatdata-cpp/include/flatdata/FileResourceStorage.h b/flatdata-cpp/include/flatdata/FileResourceStorage.h
index 699541d..7541eb7 100644
--- a/flatdata-cpp/include/flatdata/FileResourceStorage.h
+++ b/flatdata-cpp/include/flatdata/FileResourceStorage.h
@@ -76,7 +76,11 @@ inline std::unique_ptr< FileResourceStorage >
 FileResourceStorage::create( const char* path, bool create_on_missing )
 {
     boost::filesystem::path p( path );
-    if ( p.filename( ).string( ) != "." )
+    if ( p.empty( ) )
+    {
+        return nullptr;
+    }
+    if ( p.native( ).back( ) != boost::filesystem::path::preferred_separator )
     {
         p += boost::filesystem::path::preferred_separator;
     }
-- 
2.43.0


From 286ab96957102163144320406954653ae77b0fcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:35 +0000
Subject: [PATCH 45/51] fix: writing to a C++ storage which cannot be written
 fails instead of crashing

---
 flatdata-cpp/include/flatdata/ExternalVector.h             | 7 +++++--
 flatdata-cpp/include/flatdata/MultiVector.h                | 7 +++++--
 flatdata-cpp/include/flatdata/internal/ResourceStorage.inl | 4 ++++
 flatdata-cpp/src/ResourceStorage.cpp                       | 4 ++++
 4 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/flatdata-cpp/include/flatdata/ExternalVector.h b/flatdata-cpp/include/flatdata/ExternalVector.h
index 6dd7c14..fe0febb 100644
--- a/flatdata-cpp/include/flatdata/ExternalVector.h
+++ b/flatdata-cpp/include/flatdata/ExternalVector.h
@@ -97,7 +97,10 @@ template < typename T >
 void
 ExternalVector< T >::flush( )
 {
-    m_array->write( m_data.data( ), m_data.size( ) - PADDING_SIZE );
+    if ( m_array )
+    {
+        m_array->write( m_data.data( ), m_data.size( ) - PADDING_SIZE );
+    }
     m_data.resize( 0 );
     m_data.resize( PADDING_SIZE );
 }
@@ -107,7 +110,7 @@ ArrayView< T >
 ExternalVector< T >::close( )
 {
     flush( );
-    MemoryDescriptor data = m_array->close( );
+    MemoryDescriptor data = m_array ? m_array->close( ) : MemoryDescriptor( );
     return data ? ArrayView< T >{ data.data( ), data.data( ) + data.size_in_bytes( ) }
                 : ArrayView< T >{ };
 }
diff --git a/flatdata-cpp/include/flatdata/MultiVector.h b/flatdata-cpp/include/flatdata/MultiVector.h
index 4e82a74..a09feb9 100644
--- a/flatdata-cpp/include/flatdata/MultiVector.h
+++ b/flatdata-cpp/include/flatdata/MultiVector.h
@@ -143,7 +143,7 @@ MultiVector< IndexType, Args... >::close( )
     add_to_index( );  // sentinel for last item
     flush( );
 
-    MemoryDescriptor data = m_handle->close( );
+    MemoryDescriptor data = m_handle ? m_handle->close( ) : MemoryDescriptor( );
     ArrayView< IndexType > index_view = m_index.close( );
     if ( !data || !index_view )
     {
@@ -170,7 +170,10 @@ template < typename IndexType, typename... Args >
 void
 MultiVector< IndexType, Args... >::flush( )
 {
-    m_handle->write( m_data.data( ), m_data.size( ) - PADDING_SIZE );
+    if ( m_handle )
+    {
+        m_handle->write( m_data.data( ), m_data.size( ) - PADDING_SIZE );
+    }
     m_size_flushed += m_data.size( ) - PADDING_SIZE;
     m_data.resize( 0 );
     m_data.resize( PADDING_SIZE );
diff --git a/flatdata-cpp/include/flatdata/internal/ResourceStorage.inl b/flatdata-cpp/include/flatdata/internal/ResourceStorage.inl
index d792829..b6b3c18 100644
--- a/flatdata-cpp/include/flatdata/internal/ResourceStorage.inl
+++ b/flatdata-cpp/include/flatdata/internal/ResourceStorage.inl
@@ -134,6 +134,10 @@ ResourceStorage::write_schema( const char* resource_name, const char* schema )
 {
     auto schema_stream
         = create_output_stream( ( std::string( resource_name ) + ".schema" ).c_str( ) );
+    if ( !schema_stream )
+    {
+        return false;
+    }
     *schema_stream << schema;
     schema_stream->flush( );
     return static_cast< bool >( *schema_stream );
diff --git a/flatdata-cpp/src/ResourceStorage.cpp b/flatdata-cpp/src/ResourceStorage.cpp
index d14192e..631a750 100644
--- a/flatdata-cpp/src/ResourceStorage.cpp
+++ b/flatdata-cpp/src/ResourceStorage.cpp
@@ -17,6 +17,10 @@ ResourceStorage::write_to_stream( const char* resource_name,
                                   size_t size_in_bytes )
 {
     auto stream = create_output_stream( resource_name );
+    if ( !stream )
+    {
+        return false;
+    }
     resource_storage::write_to_stream( *stream, size_in_bytes );
     stream->write( reinterpret_cast< const char* >( data ), size_in_bytes );
     resource_storage::write_padding( *stream );
-- 
2.43.0


From a0b0d3b92bdc5f6bb913bafa5c5d2519aa68f7ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:35 +0000
Subject: [PATCH 46/51] fix: closing a C++ vector twice does not crash

---
 flatdata-cpp/include/flatdata/internal/ResourceHandle.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/flatdata-cpp/include/flatdata/internal/ResourceHandle.h b/flatdata-cpp/include/flatdata/internal/ResourceHandle.h
index e77f196..3fd5452 100644
--- a/flatdata-cpp/include/flatdata/internal/ResourceHandle.h
+++ b/flatdata-cpp/include/flatdata/internal/ResourceHandle.h
@@ -41,6 +41,10 @@ template < typename T >
 void
 ResourceHandle::write( T* data, size_t size_in_bytes )
 {
+    if ( m_stream == nullptr )
+    {
+        return;
+    }
     m_stream->write( reinterpret_cast< const char* >( data ), size_in_bytes );
     m_size_in_bytes += size_in_bytes;
 }
-- 
2.43.0


From 932142b711b14c02defec44226c0a6d47886606f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:35 +0000
Subject: [PATCH 47/51] fix: directories of a C++ memory storage share its lock

---
 .../include/flatdata/MemoryResourceStorage.h   | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/flatdata-cpp/include/flatdata/MemoryResourceStorage.h b/flatdata-cpp/include/flatdata/MemoryResourceStorage.h
index f8dbf72..1e008a2 100644
--- a/flatdata-cpp/include/flatdata/MemoryResourceStorage.h
+++ b/flatdata-cpp/include/flatdata/MemoryResourceStorage.h
@@ -22,6 +22,7 @@ class MemoryResourceStorage : public ResourceStorage
 {
     struct Storage
     {
+        std::mutex mutex;
         std::map< std::string, std::shared_ptr< std::stringstream > > streams;
         std::map< std::string, std::shared_ptr< std::string > > resources;
         std::set< std::string > created_directories;
@@ -55,7 +56,6 @@ private:
 
 private:
     std::shared_ptr< Storage > m_storage;
-    mutable std::mutex m_storage_mutex;
     std::string m_path;
 };
 
@@ -73,7 +73,7 @@ MemoryResourceStorage::create_output_stream( const char* key )
     std::shared_ptr< std::stringstream > result(
         new std::stringstream( std::ofstream::out | std::ofstream::binary ) );
 
-    std::lock_guard< std::mutex > lock( m_storage_mutex );
+    std::lock_guard< std::mutex > lock( m_storage->mutex );
     m_storage->streams[ get_path( key ) ] = result;
 
     return result;
@@ -110,7 +110,7 @@ MemoryResourceStorage::read_resource( const char* key )
 {
     const auto path = get_path( key );
 
-    std::lock_guard< std::mutex > lock( m_storage_mutex );
+    std::lock_guard< std::mutex > lock( m_storage->mutex );
     if ( m_storage->resources.count( path ) == 0 )
     {
         auto found = m_storage->streams.find( path );
@@ -136,7 +136,7 @@ MemoryResourceStorage::read_resource( const char* key )
 inline void
 MemoryResourceStorage::assign_value( const char* key, MemoryDescriptor value )
 {
-    std::lock_guard< std::mutex > lock( m_storage_mutex );
+    std::lock_guard< std::mutex > lock( m_storage->mutex );
     m_storage->resources.insert( std::make_pair(
         std::string( key ),
         std::make_shared< std::string >( value.char_ptr( ), value.size_in_bytes( ) ) ) );
@@ -151,7 +151,7 @@ MemoryResourceStorage::assign_value( const char* key, MemoryDescriptor value )
 inline void
 MemoryResourceStorage::assign_value( const char* key, const char* value )
 {
-    std::lock_guard< std::mutex > lock( m_storage_mutex );
+    std::lock_guard< std::mutex > lock( m_storage->mutex );
     m_storage->resources.insert(
         std::make_pair( std::string( key ), std::make_shared< std::string >( value ) ) );
 #ifdef DEBUG_DATA_ACCESS_STATISTICS
@@ -166,7 +166,7 @@ inline std::unique_ptr< ResourceStorage >
 MemoryResourceStorage::create_directory( const char* key )
 {
     const auto new_path = get_path( key ) + "/";
-    std::lock_guard< std::mutex > lock( m_storage_mutex );
+    std::lock_guard< std::mutex > lock( m_storage->mutex );
     m_storage->created_directories.insert( new_path );
     return std::unique_ptr< MemoryResourceStorage >(
         new MemoryResourceStorage( m_storage, new_path ) );
@@ -176,7 +176,7 @@ inline std::unique_ptr< ResourceStorage >
 MemoryResourceStorage::directory( const char* key )
 {
     const auto new_path = get_path( key ) + "/";
-    std::lock_guard< std::mutex > lock( m_storage_mutex );
+    std::lock_guard< std::mutex > lock( m_storage->mutex );
     if ( m_storage->created_directories.find( new_path ) == m_storage->created_directories.end( ) )
     {
         return nullptr;
@@ -253,7 +253,7 @@ inline bool
 MemoryResourceStorage::exists( const char* key )
 {
     auto path = get_path( key );
-    std::lock_guard< std::mutex > lock( m_storage_mutex );
+    std::lock_guard< std::mutex > lock( m_storage->mutex );
     return m_storage->resources.count( path ) != 0 || m_storage->streams.count( path ) != 0
            || helpers::prefix_exists( m_storage->resources, path + "/" )
            || helpers::prefix_exists( m_storage->streams, path + "/" );
@@ -268,7 +268,7 @@ MemoryResourceStorage::dump_resources( bool dump_schemas, ResourceSerializer&& f
     };
 
     std::ostringstream ss;
-    std::lock_guard< std::mutex > lock( m_storage_mutex );
+    std::lock_guard< std::mutex > lock( m_storage->mutex );
     for ( auto& resource : m_storage->resources )
     {
         if ( !is_schema( resource.first ) || dump_schemas )
-- 
2.43.0


From 7f04e0b99a10f1cf63ad5d4fd0234483103b0a81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:52:50 +0000
Subject: [PATCH 48/51] fix: Rust memory storage does not replace data it
 handed out to another thread

---
 flatdata-rs/lib/src/memstorage.rs | 20 ++++++--------------
 1 file changed, 6 insertions(+), 14 deletions(-)

diff --git a/flatdata-rs/lib/src/memstorage.rs b/flatdata-rs/lib/src/memstorage.rs
index b9b66a2..ff7d5ee 100644
--- a/flatdata-rs/lib/src/memstorage.rs
+++ b/flatdata-rs/lib/src/memstorage.rs
@@ -106,25 +106,17 @@ impl ResourceStorage for MemoryResourceStorage {
 
     fn read_resource(&self, resource_name: &str) -> Result<&[u8], io::Error> {
         let resource_path = self.path.join(resource_name);
-        if !self
-            .storage
-            .resources
-            .lock()
-            .unwrap()
-            .contains_key(&resource_path)
-        {
-            let streams = self.storage.streams.lock().unwrap();
+        // The locks are held throughout: replacing data would invalidate what was handed out before
+        let streams = self.storage.streams.lock().unwrap();
+        let mut resources = self.storage.resources.lock().unwrap();
+        if !resources.contains_key(&resource_path) {
             let stream = streams.get(&resource_path);
             match stream {
                 Some(stream) => {
                     // Resource is not yet opened, but there is a stream it was written to
                     // => copy the stream as resource data.
                     let data = Arc::new(stream.lock().unwrap().get_ref().clone());
-                    self.storage
-                        .resources
-                        .lock()
-                        .unwrap()
-                        .insert(resource_path.clone(), data);
+                    resources.insert(resource_path.clone(), data);
                 }
                 None => {
                     return Err(io::Error::new(
@@ -134,7 +126,7 @@ impl ResourceStorage for MemoryResourceStorage {
                 }
             }
         }
-        let data = &self.storage.resources.lock().unwrap()[&resource_path];
+        let data = &resources[&resource_path];
         // We cannot prove to Rust that the buffer will live as long as the storage
         // (we never delete mappings), so we need to manually extend lifetime
         let extended_lifetime_data = unsafe { slice::from_raw_parts(data.as_ptr(), data.len()) };
-- 
2.43.0


From ed4bb3a1860dd1f26c847e9d591553637ad32125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:21:39 +0000
Subject: [PATCH 49/51] fix: Rust storages refuse a resource with a huge size
 without overflow

---
 flatdata-rs/lib/src/storage.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatdata-rs/lib/src/storage.rs b/flatdata-rs/lib/src/storage.rs
index d3c4eab..c1a20f9 100644
--- a/flatdata-rs/lib/src/storage.rs
+++ b/flatdata-rs/lib/src/storage.rs
@@ -112,7 +112,7 @@ pub trait ResourceStorage: std::fmt::Debug {
         }
 
         let size = flatdata_read_bytes!(SizeType, data.as_ptr()) as usize;
-        if size + mem::size_of::<SizeType>() + PADDING_SIZE != data.len() {
+        if size != data.len() - mem::size_of::<SizeType>() - PADDING_SIZE {
             return Err(ResourceStorageError::UnexpectedDataSize);
         }
 
-- 
2.43.0


From 780d4b12d8f964818156a2cb92e6a270b223fac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:31:38 +0000
Subject: [PATCH 50/51] fix: Python archives do not take a resource with an
 empty schema as missing

---
 flatdata-py/flatdata/lib/archive.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatdata-py/flatdata/lib/archive.py b/flatdata-py/flatdata/lib/archive.py
index fb7ee28..87df13c 100644
--- a/flatdata-py/flatdata/lib/archive.py
+++ b/flatdata-py/flatdata/lib/archive.py
@@ -95,7 +95,7 @@ class Archive:
         # when it is initialized.
         if not _is_archive_signature(resource_signature):
             storage = self._resource_storage.get(name + _SCHEMA_EXT, resource_signature.is_optional)
-            if storage:
+            if storage is not None:
                 Archive._check_non_subarchive_schema(name, resource_signature, storage)
             elif not resource_signature.is_optional:
                 raise MissingResourceError(name)
-- 
2.43.0


From dad0e7ba4586d9ea313897a0343c4e99c2106510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:46:37 +0000
Subject: [PATCH 51/51] fix: a resource named like the index of a multivector
 is refused

---
 flatdata-generator/flatdata/generator/tree/builder.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/flatdata-generator/flatdata/generator/tree/builder.py b/flatdata-generator/flatdata/generator/tree/builder.py
index 2823ce6..5024cd8 100644
--- a/flatdata-generator/flatdata/generator/tree/builder.py
+++ b/flatdata-generator/flatdata/generator/tree/builder.py
@@ -10,7 +10,7 @@ from flatdata.generator.grammar import flatdata_grammar
 from flatdata.generator.tree.errors import (
     InvalidEnumWidthError, InvalidRangeName, InvalidRangeReference,
     InvalidConstReference, InvalidConstValueReference, DuplicateInvalidValueReference,
-    InvalidStructInExplicitReference, OptionalRange)
+    InvalidStructInExplicitReference, OptionalRange, SymbolRedefinition)
 from flatdata.generator.tree.nodes.explicit_reference import ExplicitReference
 from flatdata.generator.tree.nodes.archive import Archive
 from flatdata.generator.tree.nodes.node import Node
@@ -217,6 +217,13 @@ def _check_explicit_references(root):
             if not ref.target in [x.target for x in reference.parent.children_like(StructureReference)]:
                 raise InvalidStructInExplicitReference(ref.node.name, reference.parent.name)
 
+def _check_index_names(root):
+    # The index of a multivector is stored as a resource of its own
+    for node in root.iterate(Multivector):
+        index = node.parent.get_relative(node.name + "_index")
+        if index is not None:
+            raise SymbolRedefinition(duplicate=index, existing="the index of " + node.path)
+
 def build_ast(definition):
     """Build the Flatdata syntax tree from a definition"""
     root = _build_node_tree(definition=definition)
@@ -224,6 +231,7 @@ def build_ast(definition):
     resolve_references(root)
     _append_constant_references(root)
     _check_ranges(root)
+    _check_index_names(root)
     # now compute data based on resolved references
     _update_field_type_references(root)
     _compute_structure_sizes(root)
-- 
2.43.0

