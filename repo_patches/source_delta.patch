From c09187dff64b78e7dc572301e55362e5dd6123ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:10 +0000
Subject: [PATCH 01/73] fix: pad a stream grown by truncate with zeros

Stream.truncate(size) with size larger than the stream allocated sectors
without clearing them, so the new bytes exposed whatever the reused
sectors held before (for example the data of a removed stream).
---
 src/aaf2/cfb.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/aaf2/cfb.py b/src/aaf2/cfb.py
index c470ed4..4afdd32 100644
--- a/src/aaf2/cfb.py
+++ b/src/aaf2/cfb.py
@@ -327,9 +327,11 @@ class Stream(object):
             return
 
 
-        # grown the stream
+        # grown the stream, seeking past the end pads with zeros
         if size > current_byte_size:
-            self.allocate(size)
+            orig_pos = self.pos
+            self.seek(size)
+            self.pos = orig_pos
             return
 
         # shrink to mini stream
-- 
2.43.0


From 066cf34dcc2364bb2be2fef9a8d358efdd2bafd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:30 +0000
Subject: [PATCH 02/73] fix: make DirEntry.modify_time settable

The setter packed into a temporary immutable copy of the entry and
always raised TypeError.
---
 src/aaf2/cfb.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aaf2/cfb.py b/src/aaf2/cfb.py
index 4afdd32..c25f519 100644
--- a/src/aaf2/cfb.py
+++ b/src/aaf2/cfb.py
@@ -637,7 +637,7 @@ class DirEntry(object):
 
     @modify_time.setter
     def modify_time(self, value):
-        struct.pack_into(str('<Q'), bytes(self.data), 108, value)
+        struct.pack_into(str('<Q'), self.data, 108, value)
         self.mark_modified()
 
     @property
-- 
2.43.0


From 095e869d656bcbfd4672c0de40c176e7614a06ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:30 +0000
Subject: [PATCH 03/73] fix: stop DirEntry.path() at the root entry, not at its
 usual name

A storage called "Root Entry" cut the path of everything below it, and
a container whose root has another name got it as part of every path.
---
 src/aaf2/cfb.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/aaf2/cfb.py b/src/aaf2/cfb.py
index c25f519..b7bd8e6 100644
--- a/src/aaf2/cfb.py
+++ b/src/aaf2/cfb.py
@@ -1003,8 +1003,7 @@ class DirEntry(object):
         path = []
         parent = self
         while parent:
-            name = parent.name
-            if name == "Root Entry":
+            if parent.isroot():
                 break
             path.append(parent.name)
             parent= parent.parent
-- 
2.43.0


From 44eb3ea69af6eabc5073b99977640d30ce8ae4f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:30 +0000
Subject: [PATCH 04/73] fix: let DirEntry.rebalance_children_tree shuffle a
 list

random.shuffle cannot shuffle the dict view listdir returns.
---
 src/aaf2/cfb.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aaf2/cfb.py b/src/aaf2/cfb.py
index b7bd8e6..d184cea 100644
--- a/src/aaf2/cfb.py
+++ b/src/aaf2/cfb.py
@@ -990,7 +990,7 @@ class DirEntry(object):
 
     def rebalance_children_tree(self):
 
-        children  = self.listdir()
+        children  = list(self.listdir())
         self.child_id = None
         random.shuffle(children)
         for c in children:
-- 
2.43.0


From 7fde18ffe4037cb0e1cba9b6538b2f08ec05b32e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:30 +0000
Subject: [PATCH 05/73] fix: find and exists answer for a path below a stream

Looking up a path that uses a stream as a directory raised ValueError
instead of reporting that nothing exists there.
---
 src/aaf2/cfb.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/aaf2/cfb.py b/src/aaf2/cfb.py
index d184cea..d50eb87 100644
--- a/src/aaf2/cfb.py
+++ b/src/aaf2/cfb.py
@@ -2002,6 +2002,9 @@ class CompoundFileBinary(object):
 
         while True:
 
+            if not root.isdir():
+                return None
+
             children = self.listdir_dict(root)
             match = children.get(split_path[i], None)
 
-- 
2.43.0


From 74f069a2e8b149e4c3c0285eae0b3cec0976a474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:30 +0000
Subject: [PATCH 06/73] fix: refuse rmtree of the root before deleting anything

rmtree("/") freed every entry of the container, then raised, leaving
stale cached listings of the freed entries behind.
---
 src/aaf2/cfb.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/aaf2/cfb.py b/src/aaf2/cfb.py
index d50eb87..11d1977 100644
--- a/src/aaf2/cfb.py
+++ b/src/aaf2/cfb.py
@@ -1908,6 +1908,10 @@ class CompoundFileBinary(object):
         """
         Removes directory structure, similar to shutil.rmtree.
         """
+        entry = self.find(path)
+        if entry is not None and entry.isroot():
+            raise ValueError("can no remove root entry")
+
         for root, storage, streams in self.walk(path, topdown=False):
 
             for item in streams:
-- 
2.43.0


From f931ecd4aa4366c222904bf30cc38e010bd6b14c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:53 +0000
Subject: [PATCH 07/73] fix: refuse names that do not fit a directory entry
 before any change

A name of more than 32 UTF-16 code units failed an assertion half way:
create leaked the directory id it had taken, and move had already
unlinked the source entry, which lost it and everything below it.
Empty names (a path ending in a slash) created a nameless entry.
---
 src/aaf2/cfb.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/aaf2/cfb.py b/src/aaf2/cfb.py
index 11d1977..7b73aea 100644
--- a/src/aaf2/cfb.py
+++ b/src/aaf2/cfb.py
@@ -468,6 +468,12 @@ def get_entry_path(root, entry, max_depth):
     return path
 
 
+def check_entry_name(name):
+    if not name:
+        raise ValueError("entry name is empty")
+    if len(name.encode("utf-16le")) > 64:
+        raise ValueError("entry name is too long: %s" % name)
+
 class DirEntry(object):
     __slots__ = ('storage', 'dir_id', 'parent', 'data', '_name', '__weakref__')
 
@@ -1847,6 +1853,8 @@ class CompoundFileBinary(object):
         if not root.type in ('storage', 'root storage'):
             raise ValueError("can not add entry to non storage type")
 
+        check_entry_name(basename)
+
         dir_id = self.next_free_dir_id()
         logging.debug("next dir id %d" % dir_id)
 
@@ -2135,6 +2143,8 @@ class CompoundFileBinary(object):
         if not dst_entry.isdir():
             raise ValueError("dst dirname cannot be stream: %s" % dst_dirname)
 
+        check_entry_name(dst_basename)
+
         # src_entry.parent.remove_child(src_entry)
 
         src_entry.pop()
-- 
2.43.0


From 0fab3433829b779332af3f6a976ddb993bbbbef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:53 +0000
Subject: [PATCH 08/73] fix: refuse to move a storage into itself

Moving a storage to a path below itself unlinked it from its parent and
made it its own descendant: the whole subtree became unreachable.
---
 src/aaf2/cfb.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/aaf2/cfb.py b/src/aaf2/cfb.py
index 7b73aea..8eb9cb6 100644
--- a/src/aaf2/cfb.py
+++ b/src/aaf2/cfb.py
@@ -2143,6 +2143,12 @@ class CompoundFileBinary(object):
         if not dst_entry.isdir():
             raise ValueError("dst dirname cannot be stream: %s" % dst_dirname)
 
+        parent = dst_entry
+        while parent is not None:
+            if parent is src_entry:
+                raise ValueError("cannot move %s into itself: %s" % (src, dst))
+            parent = parent.parent
+
         check_entry_name(dst_basename)
 
         # src_entry.parent.remove_child(src_entry)
-- 
2.43.0


From 39981a96052f1b187b0012b563437aada54cc94b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:53 +0000
Subject: [PATCH 09/73] fix: refuse siblings whose names differ only by case

Directory entries are ordered without regard to case, so two such
siblings are equal keys: the container violates the format, and
removing one of them failed an assertion or unlinked the other.
---
 src/aaf2/cfb.py | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/src/aaf2/cfb.py b/src/aaf2/cfb.py
index 8eb9cb6..d1e0739 100644
--- a/src/aaf2/cfb.py
+++ b/src/aaf2/cfb.py
@@ -734,6 +734,22 @@ class DirEntry(object):
     def child(self):
         return self.storage.read_dir_entry(self.child_id, self)
 
+    def lookup_child(self, name):
+        """
+        find the child that compares equal to name, which unlike the keys of
+        listdir_dict is not case sensitive.
+        """
+        dir_per_sector = self.storage.sector_size // 128
+        max_dirs_entries = self.storage.dir_sector_count * dir_per_sector
+
+        node = self.child()
+        count = 0
+        while node is not None and count < max_dirs_entries:
+            if node == name:
+                return node
+            node = node[1] if node < name else node[0]
+            count += 1
+
     def add_child(self, entry):
         entry.parent = self
         entry.color = 'black'
@@ -1855,6 +1871,9 @@ class CompoundFileBinary(object):
 
         check_entry_name(basename)
 
+        if root.lookup_child(basename) is not None:
+            raise ValueError("%s already exists, names are not case sensitive" % path)
+
         dir_id = self.next_free_dir_id()
         logging.debug("next dir id %d" % dir_id)
 
@@ -2151,6 +2170,11 @@ class CompoundFileBinary(object):
 
         check_entry_name(dst_basename)
 
+        # changing the case of a name is fine
+        match = dst_entry.lookup_child(dst_basename)
+        if match is not None and match is not src_entry:
+            raise ValueError("dst path already exist, names are not case sensitive: %s" % dst)
+
         # src_entry.parent.remove_child(src_entry)
 
         src_entry.pop()
-- 
2.43.0


From 7704860e5c4542d86958a1dfae22f9e5adc6b1fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:08 +0000
Subject: [PATCH 10/73] fix: look at the sibling on the right side when
 removing a directory entry

The top-down removal took the child opposite to the direction it goes
next, not to the direction it came from, so the sibling tree lost its
red-black balance (black heights differed) after a removal.
---
 src/aaf2/cfb.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/aaf2/cfb.py b/src/aaf2/cfb.py
index d1e0739..d6a180a 100644
--- a/src/aaf2/cfb.py
+++ b/src/aaf2/cfb.py
@@ -933,7 +933,7 @@ class DirEntry(object):
                     assert is_parent_of(parent, node)
 
                 elif is_not_red(node[1 - direction]):
-                    sibling = parent[1 - direction]
+                    sibling = parent[1 - last]
                     if sibling is not None:
 
                         if is_not_red(sibling[1 - last]) and is_not_red(sibling[last]):
@@ -971,7 +971,8 @@ class DirEntry(object):
             raise CompoundFileBinaryError("max dir entries limit reached")
 
         # entry parent could have changed during rebalance
-        max_search_depth = 4 # grand_parent -> parent -> node
+        # each of the two steps around entry can push it down by one
+        max_search_depth = 5 # grand_parent -> parent -> node, plus two
         entry_parent = find_entry_parent(entry_grand_parent, entry, max_search_depth)
 
         if entry_parent[0] is entry:
-- 
2.43.0


From a603ccacb9984544291cf6568f254148c19a2f87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:48 +0000
Subject: [PATCH 11/73] fix: treat a start sector of ENDOFCHAIN as an empty
 stream

---
 src/aaf2/cfb.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/aaf2/cfb.py b/src/aaf2/cfb.py
index d6a180a..8393570 100644
--- a/src/aaf2/cfb.py
+++ b/src/aaf2/cfb.py
@@ -649,6 +649,9 @@ class DirEntry(object):
     @property
     def sector_id(self):
         sid = unpack_u32le_from(self.data, 116)
+        # other writers use ENDOFCHAIN when there are no sectors
+        if sid == ENDOFCHAIN:
+            return None
         return decode_sid(sid)
 
     @sector_id.setter
-- 
2.43.0


From 176cd695c905bb4ac6a8760e69b2a09add5c108b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:55 +0000
Subject: [PATCH 12/73] fix: do not append an element to a full fixed array
 value

---
 src/aaf2/types.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/aaf2/types.py b/src/aaf2/types.py
index 6a9c0aa..1dd7965 100644
--- a/src/aaf2/types.py
+++ b/src/aaf2/types.py
@@ -368,6 +368,7 @@ class TypeDefFixedArray(TypeDef):
         element_count = self.size
         result = b""
 
+        i = -1
         for i, item in enumerate(data):
             if i >= element_count:
                 raise AAFPropertyError("too many elements for fixed array: expected %d elements" % element_count)
@@ -375,8 +376,8 @@ class TypeDefFixedArray(TypeDef):
             result += element_typedef.encode(item)
 
         # zero out remaining bytes
-        if i < element_count:
-            bytes_left = (element_count - i) * byte_size
+        if i + 1 < element_count:
+            bytes_left = (element_count - (i + 1)) * byte_size
             while bytes_left:
                 result += b'\0'
                 bytes_left -= 1
-- 
2.43.0


From e3fc3f1d127373233c371893ae6de1f2469260fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:21 +0000
Subject: [PATCH 13/73] fix: a vector index before the start is out of range,
 not index 0

---
 src/aaf2/properties.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/aaf2/properties.py b/src/aaf2/properties.py
index a58dd70..7a08126 100644
--- a/src/aaf2/properties.py
+++ b/src/aaf2/properties.py
@@ -509,11 +509,11 @@ class StrongRefVectorProperty(Property):
         return "%s{%x}" % (self.index_name, self.references[index])
 
     def get(self, index, default=None):
-        if index >= len(self.references):
-            return default
-
         if index < 0:
-            index = max(0, len(self.references) + index)
+            index = len(self.references) + index
+
+        if index < 0 or index >= len(self.references):
+            return default
 
         item = self.objects.get(index, None)
         if item:
@@ -541,9 +541,9 @@ class StrongRefVectorProperty(Property):
     @writeonly
     def __setitem__(self, index, value):
         if index < 0:
-            index = max(0, len(self) + index)
+            index = len(self) + index
 
-        if index >= len(self):
+        if index < 0 or index >= len(self):
             raise IndexError("StrongRefVectorProperty assignment index out of range")
 
         if value.root is not self.parent.root:
@@ -578,7 +578,7 @@ class StrongRefVectorProperty(Property):
         if obj is None:
             raise IndexError(index)
         if index < 0:
-            index = max(0, len(self) + index)
+            index = len(self) + index
 
         self.references.pop(index)
 
-- 
2.43.0


From 1163b5b50af70fbaae3a15046e61af91f512d8a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:21 +0000
Subject: [PATCH 14/73] fix: let StrongRefVectorProperty.insert check its value
 and take any index, like list.insert

---
 src/aaf2/properties.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/aaf2/properties.py b/src/aaf2/properties.py
index 7a08126..8bc1197 100644
--- a/src/aaf2/properties.py
+++ b/src/aaf2/properties.py
@@ -604,8 +604,20 @@ class StrongRefVectorProperty(Property):
 
     @writeonly
     def insert(self, index, value):
+        index_name = self.index_name # sets self.data
         assert self.ref_classdef.isinstance(value.classdef)
 
+        if value.root is not self.parent.root:
+            raise AAFAttachError("Object is from a different root")
+
+        if value.dir:
+            raise AAFAttachError("Object already attached")
+
+        # same meaning of index as list.insert
+        if index < 0:
+            index = max(0, len(self) + index)
+        index = min(index, len(self))
+
         self.references.insert(index, self.next_free_key)
 
         objects = {}
@@ -622,6 +634,7 @@ class StrongRefVectorProperty(Property):
             self.objects = weakref.WeakValueDictionary(objects)
         else:
             self.objects = objects
+        self.add_pid_entry()
         self.attach()
 
     @writeonly
-- 
2.43.0


From 9c3d05c3e522848af9695d10287b414ae7fa4e13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:55 +0000
Subject: [PATCH 15/73] fix: check all values of a strong reference vector
 before changing it

---
 src/aaf2/properties.py | 35 +++++++++++++++++------------------
 1 file changed, 17 insertions(+), 18 deletions(-)

diff --git a/src/aaf2/properties.py b/src/aaf2/properties.py
index 8bc1197..b435568 100644
--- a/src/aaf2/properties.py
+++ b/src/aaf2/properties.py
@@ -546,13 +546,8 @@ class StrongRefVectorProperty(Property):
         if index < 0 or index >= len(self):
             raise IndexError("StrongRefVectorProperty assignment index out of range")
 
-        if value.root is not self.parent.root:
-            raise AAFAttachError("Object is from a different root")
-
-        if value.dir:
-            raise AAFAttachError("Object already attached")
-
         obj = self.get(index, None)
+        self.check_values([value], [obj])
         if obj:
             obj.detach()
 
@@ -604,14 +599,8 @@ class StrongRefVectorProperty(Property):
 
     @writeonly
     def insert(self, index, value):
+        self.check_values([value])
         index_name = self.index_name # sets self.data
-        assert self.ref_classdef.isinstance(value.classdef)
-
-        if value.root is not self.parent.root:
-            raise AAFAttachError("Object is from a different root")
-
-        if value.dir:
-            raise AAFAttachError("Object already attached")
 
         # same meaning of index as list.insert
         if index < 0:
@@ -637,20 +626,28 @@ class StrongRefVectorProperty(Property):
         self.add_pid_entry()
         self.attach()
 
-    @writeonly
-    def extend(self, value):
-        index_name = self.index_name # sets self.data
+    def check_values(self, values, replaced=()):
+        # values in replaced will be detached before the new values are added
         ref_classdef = self.ref_classdef
+        replaced = set(id(obj) for obj in replaced)
+        seen = set(id(obj) for obj in self.objects.values()) - replaced
 
-        for obj in value:
+        for obj in values:
             assert ref_classdef.isinstance(obj.classdef)
 
             if obj.root is not self.parent.root:
                 raise AAFAttachError("Object is from a different root")
 
-            if obj.dir:
+            if id(obj) in seen or (obj.dir and id(obj) not in replaced):
                 raise AAFAttachError("Object already attached")
+            seen.add(id(obj))
 
+    @writeonly
+    def extend(self, value):
+        value = list(value)
+        self.check_values(value)
+
+        index_name = self.index_name # sets self.data
         for obj in value:
             i = len(self.references)
             self.references.append(self.next_free_key)
@@ -674,6 +671,8 @@ class StrongRefVectorProperty(Property):
             self.remove_pid_entry()
             return
 
+        value = list(value)
+        self.check_values(value, self.value)
         self.clear()
         self.extend(value)
 
-- 
2.43.0


From 2e1a74e496f80ee33b1ebe7b8d1bd4a19446dd96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:12 +0000
Subject: [PATCH 16/73] fix: check all values of a strong reference set before
 changing it, and detach a replaced object that is not loaded

---
 src/aaf2/properties.py | 36 +++++++++++++++++++++---------------
 1 file changed, 21 insertions(+), 15 deletions(-)

diff --git a/src/aaf2/properties.py b/src/aaf2/properties.py
index b435568..8c0d473 100644
--- a/src/aaf2/properties.py
+++ b/src/aaf2/properties.py
@@ -861,6 +861,20 @@ class StrongRefSetProperty(Property):
             raise KeyError(key)
         return result
 
+    def check_values(self, values, replaced=()):
+        # values in replaced will be detached before the new values are added
+        classdef = self.typedef.ref_classdef
+        replaced = set(id(obj) for obj in replaced)
+
+        for item in values:
+            if not classdef.isinstance(item.classdef):
+                raise TypeError("Invalid Value, expected {}, got {}".format(classdef, item.classdef))
+            if item.root is not self.parent.root:
+                raise AAFAttachError("Object is from a different root")
+            if item.dir and id(item) not in replaced:
+                raise AAFAttachError("Object already attached")
+            assert item.unique_key is not None
+
     @writeonly
     def swap_unique_key(self, old_key, new_key):
         obj = self.get(old_key)
@@ -879,18 +893,10 @@ class StrongRefSetProperty(Property):
 
     @writeonly
     def extend(self, values):
-        typedef = self.typedef
-        classdef = typedef.ref_classdef
-
-        # check values are the correct type
-        for item in values:
-            if not classdef.isinstance(item.classdef):
-                raise TypeError("Invalid Value, expected {}, got {}".format(classdef, item.classdef))
-            if item.root is not self.parent.root:
-                raise AAFAttachError("Object is from a different root")
-            if item.dir:
-                raise AAFAttachError("Object already attached")
+        values = list(values)
+        self.check_values(values)
 
+        classdef = self.typedef.ref_classdef
         if self.key_pid is None:
             self.key_pid = classdef.unique_key_pid
         if self.key_size is None:
@@ -903,9 +909,7 @@ class StrongRefSetProperty(Property):
 
         for item in values:
             key = item.unique_key
-            assert key is not None
-
-            current = self.objects.get(key, None)
+            current = self.get(key)
             current_local_key = self.references.get(key, None)
 
             if current and current is not item:
@@ -965,10 +969,12 @@ class StrongRefSetProperty(Property):
             self.remove_pid_entry()
             return
 
-        self.clear()
         if isinstance(value, dict):
             value = value.values()
 
+        value = list(value)
+        self.check_values(value, self.value)
+        self.clear()
         self.extend(value)
         return
 
-- 
2.43.0


From 53111a9974585c41865c703ab38df2b41fe14196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:12 +0000
Subject: [PATCH 17/73] fix: refuse a unique key that is in use or None before
 changing anything

---
 src/aaf2/properties.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/aaf2/properties.py b/src/aaf2/properties.py
index 8c0d473..1c4441b 100644
--- a/src/aaf2/properties.py
+++ b/src/aaf2/properties.py
@@ -150,7 +150,11 @@ class Property(object):
     @value.setter
     @writeonly
     def value(self, value):
+        data = None if value is None else self.typedef.encode(value)
+
         if self.data is not None and self.parent.dir and self.unique:
+            if value is None:
+                raise AAFPropertyError("cannot remove unique property of attached object")
             if self.propertydef.auid == MOB_MOBID_AUID:
                 self.parent.root.content.mobs.swap_unique_key(self.value, value)
             elif self.propertydef.auid == ESSENCEDATA_MOBID_AUID:
@@ -162,7 +166,7 @@ class Property(object):
             self.remove_pid_entry()
             return
 
-        self.data = self.typedef.encode(value)
+        self.data = data
         self.add_pid_entry()
 
     def add_pid_entry(self):
@@ -882,6 +886,9 @@ class StrongRefSetProperty(Property):
         if obj is None:
             raise ValueError("invalid key: %s" % str(old_key))
 
+        if new_key != old_key and new_key in self:
+            raise ValueError("key already in use: %s" % str(new_key))
+
         # remove reference
         self.objects.pop(old_key)
         local_key = self.references.pop(old_key)
-- 
2.43.0


From 7eed2e5c9d96f07073d6f8dc4c1f3a642ea72a6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:31 +0000
Subject: [PATCH 18/73] fix: refuse an attached object in a strong reference,
 and detach a replaced object that is not loaded

---
 src/aaf2/properties.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/aaf2/properties.py b/src/aaf2/properties.py
index 1c4441b..065ed26 100644
--- a/src/aaf2/properties.py
+++ b/src/aaf2/properties.py
@@ -367,14 +367,22 @@ class StrongRefProperty(Property):
         if value.root is not self.parent.root:
             raise AAFAttachError("Object is from a different root")
 
+        # the current object might not be loaded
+        current = self.object
+        if current is None and self.ref is not None and self.attached:
+            current = self.value
+
+        if value.dir and value is not current:
+            raise AAFAttachError("Object already attached")
+
         if self.ref is None:
             propdef = self.propertydef
             self.ref = mangle_name(propdef.property_name, self.pid, 32)
             self.data = self.encode(self.ref)
 
         # before assigning new object detach old
-        if self.object:
-            self.object.detach()
+        if current:
+            current.detach()
             self.object = None
 
         self.object = value
-- 
2.43.0


From 73ae8e9e77631817950189c56b26ce2a078e13d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:47 +0000
Subject: [PATCH 19/73] fix: removing a reference or stream property detaches
 what it holds

---
 src/aaf2/core.py       |  5 ++++-
 src/aaf2/properties.py | 24 ++++++++++++++++++++++++
 2 files changed, 28 insertions(+), 1 deletion(-)

diff --git a/src/aaf2/core.py b/src/aaf2/core.py
index 89829f9..0357548 100644
--- a/src/aaf2/core.py
+++ b/src/aaf2/core.py
@@ -342,7 +342,10 @@ class AAFObject(object):
         if result is sentinel:
             raise KeyError(key)
 
-        del self.property_entries[result.pid]
+        if not result.writeable:
+            raise AAFPropertyError("file readonly")
+
+        result.remove_pid_entry()
         if self.dir:
             self.root.manager.add_modified(self)
 
diff --git a/src/aaf2/properties.py b/src/aaf2/properties.py
index 065ed26..c89532f 100644
--- a/src/aaf2/properties.py
+++ b/src/aaf2/properties.py
@@ -255,6 +255,12 @@ class StreamProperty(Property):
 
                 return self.dir.open(mode)
 
+    def remove_pid_entry(self):
+        super(StreamProperty, self).remove_pid_entry()
+        if self.attached and self.stream_name is not None:
+            if self.parent.dir.get(self.stream_name):
+                self.parent.root.cfb.remove(self.parent.dir.path() + "/" + self.stream_name)
+
     def detach(self):
         if self.stream_name is None:
             raise AAFAttachError("stream has no name")
@@ -316,6 +322,14 @@ class StrongRefProperty(Property):
         else:
             self.objectref = value
 
+    def remove_pid_entry(self):
+        if self.pid in self.parent.property_entries and self.attached:
+            obj = self.value
+            if obj:
+                obj.detach()
+                self.objectref = obj
+        super(StrongRefProperty, self).remove_pid_entry()
+
     def copy(self, parent, pid, cache):
         p = super(StrongRefProperty, self).copy(parent, pid)
         if parent.root is self.parent.root:
@@ -460,6 +474,11 @@ class StrongRefVectorProperty(Property):
 
         return p
 
+    def remove_pid_entry(self):
+        if self.pid in self.parent.property_entries:
+            self.clear()
+        super(StrongRefVectorProperty, self).remove_pid_entry()
+
     @property
     def index_name(self):
         if self._index_name:
@@ -760,6 +779,11 @@ class StrongRefSetProperty(Property):
 
         return p
 
+    def remove_pid_entry(self):
+        if self.pid in self.parent.property_entries:
+            self.clear()
+        super(StrongRefSetProperty, self).remove_pid_entry()
+
     def encode(self, data):
         return encode_utf16le(data)
 
-- 
2.43.0


From c8a810056efef8f498c075f15655e48f98682961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:15 +0000
Subject: [PATCH 20/73] fix: copy type definitions under their own name and
 with valid arguments

---
 src/aaf2/types.py | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/aaf2/types.py b/src/aaf2/types.py
index 1dd7965..49e91e9 100644
--- a/src/aaf2/types.py
+++ b/src/aaf2/types.py
@@ -42,7 +42,7 @@ class TypeDef(core.AAFObject):
         return self
 
     def copy(self, root=None):
-        return self.__class__(root or self.root, self.name, self.auid)
+        return self.__class__(root or self.root, self.type_name, self.auid)
 
     @property
     def unique_key(self):
@@ -89,7 +89,7 @@ class TypeDefInt(TypeDef):
         return self
 
     def copy(self, root=None):
-        return TypeDefInt(root or self.root, self.name, self.auid, self.size, self.signed)
+        return TypeDefInt(root or self.root, self.type_name, self.auid, self.size, self.signed)
 
     @property
     def signed(self):
@@ -147,7 +147,7 @@ class TypeDefStrongRef(TypeDef):
         return self
 
     def copy(self, root=None):
-        return TypeDefStrongRef(root or self.root, self.name, self.auid, self.ref_classdef.auid)
+        return TypeDefStrongRef(root or self.root, self.type_name, self.auid, self.ref_classdef.auid)
 
     @property
     def store_format(self):
@@ -175,7 +175,7 @@ class TypeDefWeakRef(TypeDef):
         return self
 
     def copy(self, root=None):
-        return TypeDefWeakRef(root or self.root, self.name, self.auid, self.ref_classdef.auid, self.path)
+        return TypeDefWeakRef(root or self.root, self.type_name, self.auid, self.ref_classdef.auid, self.target_set_path)
 
     @property
     def store_format(self):
@@ -240,7 +240,7 @@ class TypeDefEnum(TypeDef):
         return self
 
     def copy(self, root=None):
-        return TypeDefEnum(root or self.root, self.name, self.auid, self.element_typedef.auid, self.elements)
+        return TypeDefEnum(root or self.root, self.type_name, self.auid, self.element_typedef.auid, self.elements)
 
     @property
     def byte_size(self):
@@ -327,7 +327,7 @@ class TypeDefFixedArray(TypeDef):
         return self
 
     def copy(self, root=None):
-        return TypeDefFixedArray(root or self.root, self.name, self.auid, self.element_typedef.auid, self.size)
+        return TypeDefFixedArray(root or self.root, self.type_name, self.auid, self.element_typedef.auid, self.size)
 
     @property
     def element_typedef(self):
@@ -399,7 +399,7 @@ class TypeDefVarArray(TypeDef):
         return self
 
     def copy(self, root=None):
-        return TypeDefVarArray(root or self.root, self.name, self.auid, self.element_typedef.auid)
+        return TypeDefVarArray(root or self.root, self.type_name, self.auid, self.element_typedef.auid)
 
     @property
     def store_format(self):
@@ -479,7 +479,7 @@ class TypeDefSet(TypeDef):
         return self
 
     def copy(self, root=None):
-        return TypeDefSet(root or self.root, self.name, self.auid, self.element_typedef)
+        return TypeDefSet(root or self.root, self.type_name, self.auid, self.element_typedef.auid)
 
     @property
     def element_typedef(self):
@@ -541,7 +541,7 @@ class TypeDefString(TypeDef):
         return self
 
     def copy(self, root=None):
-        return TypeDefString(root or self.root, self.name, self.auid, self.element_typedef.auid)
+        return TypeDefString(root or self.root, self.type_name, self.auid, self.element_typedef.auid)
 
     @property
     def element_typedef(self):
@@ -595,7 +595,7 @@ class TypeDefRecord(TypeDef):
     def copy(self, root=None):
         names = list(iter_utf16_array(self['MemberNames'].data))
         types = [typedef.auid for typedef in self['MemberTypes'].value]
-        return TypeDefRecord(root or self.root, self.name, self.auid, zip(names, types))
+        return TypeDefRecord(root or self.root, self.type_name, self.auid, zip(names, types))
 
     @property
     def member_names(self):
@@ -753,7 +753,7 @@ class TypeDefRename(TypeDef):
         return self
 
     def copy(self, root=None):
-        return TypeDefRename(root or self.root, self.name, self.auid, self.renamed_typedef.auid)
+        return TypeDefRename(root or self.root, self.type_name, self.auid, self.renamed_typedef.auid)
 
     @property
     def renamed_typedef(self):
@@ -803,7 +803,7 @@ class TypeDefExtEnum(TypeDef):
         return self
 
     def copy(self, root=None):
-        return TypeDefExtEnum(root or self.root, self.name, self.auid, self.elements)
+        return TypeDefExtEnum(root or self.root, self.type_name, self.auid, self.elements)
 
     def register_element(self, element_name, element_auid):
 
@@ -931,7 +931,7 @@ class TypeDefGenericCharacter(TypeDef):
         return self
 
     def copy(self, root=None):
-        return TypeDefGenericCharacter(root or self.root, self.name, self.auid, self.size)
+        return TypeDefGenericCharacter(root or self.root, self.type_name, self.auid, self.size)
 
     @property
     def size(self):
-- 
2.43.0


From f8ec6d626b578f33c37486f82d09626ecc1c1458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:15 +0000
Subject: [PATCH 21/73] fix: copying references to another file brings their
 targets along

---
 src/aaf2/file.py       |  5 ++++-
 src/aaf2/properties.py | 48 +++++++++++++++++++-----------------------
 2 files changed, 26 insertions(+), 27 deletions(-)

diff --git a/src/aaf2/file.py b/src/aaf2/file.py
index 31de58b..0f64e84 100644
--- a/src/aaf2/file.py
+++ b/src/aaf2/file.py
@@ -290,7 +290,10 @@ class AAFFile(object):
             p = root.property_entries[pid]
             root = p.value
 
-        p = root.property_entries[path[-1]]
+        p = root.property_entries.get(path[-1], None)
+        if p is None:
+            # nothing there yet
+            p = root.get(root.classdef.get_propertydef_from_pid(path[-1]).property_name)
         return root, p
 
     def weakref_index(self, pid_path):
diff --git a/src/aaf2/properties.py b/src/aaf2/properties.py
index c89532f..95f5942 100644
--- a/src/aaf2/properties.py
+++ b/src/aaf2/properties.py
@@ -452,7 +452,7 @@ class StrongRefVectorProperty(Property):
         if parent.root is self.parent.root:
             p.objects = {}
             p.references = list(self.references)
-            p.index_name = p.index_name
+            p.index_name = self.index_name
             p.next_free_key = self.next_free_key
             p.last_free_key = self.last_free_key
             p.data = self.data
@@ -773,9 +773,7 @@ class StrongRefSetProperty(Property):
                         dir_entry = parent.dir.makedir(ref)
                 p.objects[key] = value.copy(dir_entry)
         else:
-            for value in self.values():
-                c = value.copy(root=parent.root, classdef_cache=cache)
-                p.append(c)
+            p.extend([value.copy(root=parent.root, classdef_cache=cache) for value in self.values()])
 
         return p
 
@@ -1053,6 +1051,23 @@ def resolve_weakref(p, ref):
     else:
         return p.parent.root.resovle_weakref(p.weakref_index, p.key_pid, ref)
 
+def copy_weakref_target(source, dest, ref, cache):
+    """the object of the root of dest that source refers to, copied there if not present"""
+    root = dest.parent.root
+    ref_parent, target_property = root.weakref_prop(root.weakref_index(dest.pid_path))
+
+    if ref not in target_property:
+        v = resolve_weakref(source, ref)
+        ref_class_id = source.ref_classdef.auid
+        if ref_class_id == CLASSDEF_AUID:
+            root.metadict.register_external_classdef(v)
+        elif ref_class_id == TYPEDEF_AUID:
+            root.metadict.register_external_typedef(v)
+        else:
+            target_property.append(v.copy(root=root, classdef_cache=cache))
+
+    return target_property[ref]
+
 class WeakRefProperty(Property):
     __slots__ = ('weakref_index', 'key_pid', 'key_size', 'ref')
     def __init__(self, parent, pid, format, version=PROPERTY_VERSION):
@@ -1067,25 +1082,11 @@ class WeakRefProperty(Property):
 
         if parent.root is self.parent.root:
             p.weakref_index = self.weakref_index
-            p.key_pid = self.pid
+            p.key_pid = self.key_pid
             p.key_size = self.key_size
             p.ref = self.ref
         else:
-            weakref_index = parent.root.weakref_index(p.pid_path)
-            ref_parent, target_property = parent.root.weakref_prop(weakref_index)
-
-            # add property value if not present
-            if self.ref not in target_property:
-                v = self.value
-                if self.ref_classdef.auid == CLASSDEF_AUID:
-                    parent.root.metadict.register_external_classdef(v)
-                if self.ref_classdef.auid == TYPEDEF_AUID:
-                    parent.root.metadict.register_external_typedef(v)
-                else:
-                    c = v.copy(root=parent.root, classdef_cache=cache)
-                    target_property.append(c)
-
-            p.value = target_property[self.ref]
+            p.value = copy_weakref_target(self, p, self.ref, cache)
 
         return p
 
@@ -1171,12 +1172,7 @@ class WeakRefArrayProperty(Property):
             p.key_pid = self.key_pid
             p.key_size = self.key_size
         else:
-            weakref_index = parent.root.weakref_index(p.pid_path)
-            ref_parent, target_property = parent.root.weakref_prop(weakref_index)
-            for ref in self.references:
-                # copy property here if not present?
-                assert ref in target_property
-                p.append(target_property[ref])
+            p.extend([copy_weakref_target(self, p, ref, cache) for ref in self.references])
 
         return p
 
-- 
2.43.0


From 34f3ccb31bc02ce34d7c2a3e6f0ad933416ca247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:29 +0000
Subject: [PATCH 22/73] fix: store enumeration elements registered on a loaded
 type definition

---
 src/aaf2/types.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/aaf2/types.py b/src/aaf2/types.py
index 49e91e9..5e1a09c 100644
--- a/src/aaf2/types.py
+++ b/src/aaf2/types.py
@@ -278,6 +278,7 @@ class TypeDefEnum(TypeDef):
         self.property_entries[PID_ENUM_NAMES].data = encode_utf16_array(names)
         fmt = b"<%dq" % len(values)
         self.property_entries[PID_ENUM_VALUES].data = pack(fmt, *values)
+        self.property_entries[PID_ENUM_VALUES].mark_modified()
 
     def decode(self, data):
 
@@ -823,6 +824,7 @@ class TypeDefExtEnum(TypeDef):
 
         self.property_entries[PID_EXTENUM_NAMES].data = encode_utf16_array(element_names)
         self.property_entries[PID_EXTENUM_VALUES].data = encode_auid_array(element_values)
+        self.property_entries[PID_EXTENUM_VALUES].mark_modified()
 
     @property
     def elements(self):
-- 
2.43.0


From b64426491e7f40d1fd0e0dcaaadb2e918279287b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:29 +0000
Subject: [PATCH 23/73] fix: find an already registered class definition by its
 id

---
 src/aaf2/metadict.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aaf2/metadict.py b/src/aaf2/metadict.py
index f16c4ed..11098fe 100644
--- a/src/aaf2/metadict.py
+++ b/src/aaf2/metadict.py
@@ -412,7 +412,7 @@ class MetaDictionary(core.AAFObject):
         if name in self.classdefs_by_name:
             c = self.classdefs_by_name[name]
         elif class_auid in self.classdefs_by_auid:
-            c = self.classdefs_by_name[class_auid]
+            c = self.classdefs_by_auid[class_auid]
         else:
             c = ClassDef(self.root, name, class_auid, parent_auid, concrete)
 
-- 
2.43.0


From 7ad2d054aa508921a9ca93ce6c7e6e8304f676db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:29 +0000
Subject: [PATCH 24/73] fix: compare class definitions by id and make them
 hashable

---
 src/aaf2/metadict.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/aaf2/metadict.py b/src/aaf2/metadict.py
index 11098fe..783dd66 100644
--- a/src/aaf2/metadict.py
+++ b/src/aaf2/metadict.py
@@ -145,7 +145,15 @@ class ClassDef(core.AAFObject):
         return self
 
     def __eq__(self, other):
-        self.auid == other.auid
+        if isinstance(other, ClassDef):
+            return self.auid == other.auid
+        return NotImplemented
+
+    def __ne__(self, other):
+        return not self == other
+
+    def __hash__(self):
+        return hash(self.auid)
 
     @property
     def auid(self):
-- 
2.43.0


From 31ac33f39c8cecf515904890ead77b3e277e4de7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:29 +0000
Subject: [PATCH 25/73] fix: Dictionary.update adds missing parameters to an
 existing operation definition

---
 src/aaf2/dictionary.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aaf2/dictionary.py b/src/aaf2/dictionary.py
index 2655eb5..aee151b 100644
--- a/src/aaf2/dictionary.py
+++ b/src/aaf2/dictionary.py
@@ -278,4 +278,4 @@ class Dictionary(core.AAFObject):
                     for p in other_def.parameters:
                         param = self.lookup_parameterdef(p.auid)
                         if param.unique_key not in opdef.parameters:
-                            opdef.append(param)
+                            opdef.parameters.append(param)
-- 
2.43.0


From 1a2a488312445c311c5505d7dc6b9e0cc8459d10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:35 +0000
Subject: [PATCH 26/73] fix: store a stream property created on a loaded
 object; reading an absent one leaves none behind

---
 src/aaf2/properties.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/aaf2/properties.py b/src/aaf2/properties.py
index 95f5942..5742d2f 100644
--- a/src/aaf2/properties.py
+++ b/src/aaf2/properties.py
@@ -227,15 +227,17 @@ class StreamProperty(Property):
         self.stream_name = mangle_name(self.propertydef.property_name, self.pid, 32)
         self.data = self.encode(self.stream_name)
         self.add_pid_entry()
+        self.mark_modified()
 
     def open(self, mode='r'):
-        self.setup_stream()
-
         if mode == 'r':
-            if self.attached:
-                stream = self.parent.dir.get(self.stream_name)
-            else:
+            if not self.attached:
+                self.setup_stream()
                 stream = self.dir
+            elif self.stream_name is None:
+                stream = None
+            else:
+                stream = self.parent.dir.get(self.stream_name)
 
             if not stream:
                 raise AAFPropertyError("cannot find stream: %s" % self.stream_name)
@@ -244,6 +246,8 @@ class StreamProperty(Property):
             if not self.writeable:
                 raise AAFPropertyError("file readonly")
 
+            self.setup_stream()
+
             if self.attached:
                 return self.parent.dir.touch(self.stream_name).open(mode)
             else:
-- 
2.43.0


From c0bb4a024580e39a75595b4a6864e4cb25466f6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:36 +0000
Subject: [PATCH 27/73] fix: replacing an object that holds a stream inside a
 detached object

---
 src/aaf2/properties.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/aaf2/properties.py b/src/aaf2/properties.py
index 5742d2f..4ec706a 100644
--- a/src/aaf2/properties.py
+++ b/src/aaf2/properties.py
@@ -266,6 +266,10 @@ class StreamProperty(Property):
                 self.parent.root.cfb.remove(self.parent.dir.path() + "/" + self.stream_name)
 
     def detach(self):
+        if not self.attached:
+            # the object holding it is detached already
+            return
+
         if self.stream_name is None:
             raise AAFAttachError("stream has no name")
 
-- 
2.43.0


From e9bc314a71033efb1372f8bba6e03e51e8007132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:03 +0000
Subject: [PATCH 28/73] fix: weak reference arrays take any iterable and check
 it before changing anything

---
 src/aaf2/properties.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/aaf2/properties.py b/src/aaf2/properties.py
index 4ec706a..66ad538 100644
--- a/src/aaf2/properties.py
+++ b/src/aaf2/properties.py
@@ -1267,8 +1267,7 @@ class WeakRefArrayProperty(Property):
             obj = resolve_weakref(self, key)
             yield (key, obj)
 
-    @writeonly
-    def extend(self, values):
+    def check_values(self, values):
         ref_classdef = self.ref_classdef
 
         # check values are the correct type
@@ -1278,6 +1277,12 @@ class WeakRefArrayProperty(Property):
             if item.root is not self.parent.root:
                 raise AAFAttachError("Object is from a different root")
 
+    @writeonly
+    def extend(self, values):
+        values = list(values)
+        self.check_values(values)
+        ref_classdef = self.ref_classdef
+
         if self.index_name is None:
             propdef = self.propertydef
             self.index_name = mangle_name(propdef.property_name, self.pid, 32-10)
@@ -1313,6 +1318,8 @@ class WeakRefArrayProperty(Property):
             self.remove_pid_entry()
             return
 
+        value = list(value)
+        self.check_values(value)
         self.clear()
         self.extend(value)
 
-- 
2.43.0


From 6063fe0ab808bd82d68740b240c261a7713fb279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:14 +0000
Subject: [PATCH 29/73] fix: copy a vector of objects after items were removed
 from it

---
 src/aaf2/properties.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aaf2/properties.py b/src/aaf2/properties.py
index 66ad538..37c6cea 100644
--- a/src/aaf2/properties.py
+++ b/src/aaf2/properties.py
@@ -466,7 +466,7 @@ class StrongRefVectorProperty(Property):
             p.data = self.data
 
             for i, value in enumerate(self):
-                ref = self.index_ref_name(self.references[i])
+                ref = self.index_ref_name(i)
                 dir_entry = None
                 if parent.dir:
                     dir_entry = parent.dir.get(ref)
-- 
2.43.0


From 7af1f24315b48f7a7bdf9cdeff0677ca888cd3f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:28 +0000
Subject: [PATCH 30/73] fix: do not hand out a local property id that was
 registered explicitly

---
 src/aaf2/metadict.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/aaf2/metadict.py b/src/aaf2/metadict.py
index 783dd66..2394989 100644
--- a/src/aaf2/metadict.py
+++ b/src/aaf2/metadict.py
@@ -263,6 +263,9 @@ class ClassDef(core.AAFObject):
         if pid is None:
             pid = self.root.metadict.next_free_pid()
             # assert False
+        elif pid >= 0x8000:
+            # so next_free_pid will not hand it out again
+            self.root.metadict.local_pids.add(pid)
 
         p = PropertyDef(self.root, name, property_auid, pid, typedef_auid, optional, unique)
         # # this is done low level to avoid recursion errors
-- 
2.43.0


From 0e831da368ad767ddf65ccc404732db7bf3944f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:08 +0000
Subject: [PATCH 31/73] fix: encode string arrays whatever name the file gives
 the character type

---
 src/aaf2/types.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/aaf2/types.py b/src/aaf2/types.py
index 5e1a09c..aab4713 100644
--- a/src/aaf2/types.py
+++ b/src/aaf2/types.py
@@ -450,7 +450,8 @@ class TypeDefVarArray(TypeDef):
 
         element_typedef = self.element_typedef
 
-        if element_typedef.type_name == "Character":
+        #aafCharacter
+        if element_typedef.auid == AUID("01100100-0000-0000-060e-2b3401040101"):
             return encode_utf16_array(value)
 
         if isinstance(element_typedef, TypeDefInt):
-- 
2.43.0


From 43ade9f0ee2bee4c0d228d69ee5a60f8d7711474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:09 +0000
Subject: [PATCH 32/73] fix: decode extendible enumerations inside records and
 arrays

---
 src/aaf2/types.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/aaf2/types.py b/src/aaf2/types.py
index aab4713..35e53bf 100644
--- a/src/aaf2/types.py
+++ b/src/aaf2/types.py
@@ -833,6 +833,10 @@ class TypeDefExtEnum(TypeDef):
         element_values = list(iter_auid_array(self.property_entries[PID_EXTENUM_VALUES].data))
         return dict(zip(element_values, element_names))
 
+    @property
+    def byte_size(self):
+        return 16
+
     def decode(self, data):
         if data is None:
             return None
-- 
2.43.0


From f3cce746ff5e5700d23929a98cc9475a7b7650b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:09 +0000
Subject: [PATCH 33/73] fix: registering a known property again does not use up
 a local property id

---
 src/aaf2/metadict.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/aaf2/metadict.py b/src/aaf2/metadict.py
index 2394989..b7c572e 100644
--- a/src/aaf2/metadict.py
+++ b/src/aaf2/metadict.py
@@ -432,11 +432,8 @@ class MetaDictionary(core.AAFObject):
                 property_auid = prop_args[0]
                 pid = prop_args[1]
 
-                if pid is None:
-                    pid = self.next_free_pid()
-                elif pid and pid >= 0x8000:
+                if pid and pid >= 0x8000:
                     assert pid not in self.local_pids
-                    self.local_pids.add(pid)
 
                 c.register_propertydef(prop_name, property_auid, pid, *prop_args[2:])
 
-- 
2.43.0


From 94382cf5f38130b61ef9ef19047a67c468622c18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:48 +0000
Subject: [PATCH 34/73] fix: decode renamed types inside records and arrays

---
 src/aaf2/types.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/aaf2/types.py b/src/aaf2/types.py
index 35e53bf..633a421 100644
--- a/src/aaf2/types.py
+++ b/src/aaf2/types.py
@@ -762,6 +762,10 @@ class TypeDefRename(TypeDef):
         if PID_RENAME_TYPE in self.property_entries:
             return self.root.metadict.lookup_typedef(self.property_entries[PID_RENAME_TYPE].ref)
 
+    @property
+    def byte_size(self):
+        return self.renamed_typedef.byte_size
+
     def decode(self, data):
         return self.renamed_typedef.decode(data)
 
-- 
2.43.0


From 63b176ea25e96def046787749e8cf5e7876d4a6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:54 +0000
Subject: [PATCH 35/73] fix: copy an empty vector of objects to another file

---
 src/aaf2/properties.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/aaf2/properties.py b/src/aaf2/properties.py
index 37c6cea..0499aa7 100644
--- a/src/aaf2/properties.py
+++ b/src/aaf2/properties.py
@@ -476,9 +476,8 @@ class StrongRefVectorProperty(Property):
                 c = value.copy(dir_entry)
                 p.objects[i] = c
         else:
-            for i, value in enumerate(self):
-                c = value.copy(root=parent.root, classdef_cache=cache)
-                p.append(c)
+            # also sets the data of an empty vector
+            p.extend([value.copy(root=parent.root, classdef_cache=cache) for value in self])
 
         return p
 
-- 
2.43.0


From 067758229357f5ce32d73a97aa437a1c52b18813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:54 +0000
Subject: [PATCH 36/73] fix: copy definitions that refer to each other to
 another file

---
 src/aaf2/core.py       | 8 +++++++-
 src/aaf2/properties.py | 2 +-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/aaf2/core.py b/src/aaf2/core.py
index 0357548..caf8320 100644
--- a/src/aaf2/core.py
+++ b/src/aaf2/core.py
@@ -246,7 +246,7 @@ class AAFObject(object):
         if topdown:
             yield self, streams
 
-    def copy(self, new_dir=None, root=None, classdef_cache=None):
+    def copy(self, new_dir=None, root=None, classdef_cache=None, target_set=None):
         new_obj = self.__class__.__new__(self.__class__)
         classdef_cache = classdef_cache or set()
         root = root or self.root
@@ -268,6 +268,12 @@ class AAFObject(object):
             assert new_dir.storage is root.cfb
             new_obj.dir.class_id = self.class_id
 
+        if target_set is not None:
+            # add it as soon as it has its key, what is copied below could refer back to it
+            p = self.unique_property
+            new_obj.property_entries[p.pid] = p.copy(new_obj, p.pid, classdef_cache)
+            target_set.append(new_obj)
+
         for pid, p in self.property_entries.items():
             # the pid in the new root could be different
             if pid >= 0x8000 and root is not self.root:
diff --git a/src/aaf2/properties.py b/src/aaf2/properties.py
index 0499aa7..6a08701 100644
--- a/src/aaf2/properties.py
+++ b/src/aaf2/properties.py
@@ -1071,7 +1071,7 @@ def copy_weakref_target(source, dest, ref, cache):
         elif ref_class_id == TYPEDEF_AUID:
             root.metadict.register_external_typedef(v)
         else:
-            target_property.append(v.copy(root=root, classdef_cache=cache))
+            v.copy(root=root, classdef_cache=cache, target_set=target_property)
 
     return target_property[ref]
 
-- 
2.43.0


From 9a0f610f20c3cd6efc5b617df4abda3a3a74760c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:54 +0000
Subject: [PATCH 37/73] fix: properties added to the topmost class come along
 with a copy

---
 src/aaf2/metadict.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aaf2/metadict.py b/src/aaf2/metadict.py
index b7c572e..c3b3553 100644
--- a/src/aaf2/metadict.py
+++ b/src/aaf2/metadict.py
@@ -497,7 +497,7 @@ class MetaDictionary(core.AAFObject):
     def register_external_classdef(self, ext_classdef):
         class_chain = list(ext_classdef.relatives())
         class_chain.reverse()
-        for c in class_chain[1:]:
+        for c in class_chain:
             classdef = self.lookup_classdef(c.auid)
             if not classdef:
                 classdef = self.register_classdef(c.class_name,
-- 
2.43.0


From 3f06832e00ecf81e90ed08ac2fe93d59c1920321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:54 +0000
Subject: [PATCH 38/73] fix: copy objects of classes that refer to themselves
 to another file

---
 src/aaf2/metadict.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/aaf2/metadict.py b/src/aaf2/metadict.py
index c3b3553..ac74591 100644
--- a/src/aaf2/metadict.py
+++ b/src/aaf2/metadict.py
@@ -453,13 +453,7 @@ class MetaDictionary(core.AAFObject):
 
         # create typedef if missing
         if not typedef:
-            if isinstance(ext_typedef, (types.TypeDefStrongRef,
-                                        types.TypeDefWeakRef)):
-                # could this cause RecursionError?
-                classdef = ext_typedef.ref_classdef
-                self.register_external_classdef(classdef)
-
-            elif isinstance(ext_typedef, (types.TypeDefFixedArray,
+            if isinstance(ext_typedef, (types.TypeDefFixedArray,
                                           types.TypeDefVarArray,
                                           types.TypeDefSet,
                                           types.TypeDefString,
@@ -483,6 +477,11 @@ class MetaDictionary(core.AAFObject):
             self.typedefs_by_name[typedef.type_name] = typedef
             self.typedefs_by_auid[typedef.auid] = typedef
 
+            # the class could have properties of this type, it needs to be there already
+            if isinstance(ext_typedef, (types.TypeDefStrongRef,
+                                        types.TypeDefWeakRef)):
+                self.register_external_classdef(ext_typedef.ref_classdef)
+
         # make sure enum has all the values
         if isinstance(ext_typedef, (types.TypeDefExtEnum, types.TypeDefEnum)):
             ext_elements = ext_typedef.elements
-- 
2.43.0


From 9ce8806fa11f699f310aa6bd84a6d8b3f85603cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:54 +0000
Subject: [PATCH 39/73] fix: elements of enumerations inside other types come
 along with a copy

---
 src/aaf2/metadict.py | 33 ++++++++++++++++-----------------
 1 file changed, 16 insertions(+), 17 deletions(-)

diff --git a/src/aaf2/metadict.py b/src/aaf2/metadict.py
index ac74591..9787a73 100644
--- a/src/aaf2/metadict.py
+++ b/src/aaf2/metadict.py
@@ -449,28 +449,27 @@ class MetaDictionary(core.AAFObject):
         if not isinstance(ext_typedef, types.TypeDef):
             return None
 
-        typedef = self.lookup_typedef(ext_typedef.auid)
-
-        # create typedef if missing
-        if not typedef:
-            if isinstance(ext_typedef, (types.TypeDefFixedArray,
-                                          types.TypeDefVarArray,
-                                          types.TypeDefSet,
-                                          types.TypeDefString,
-                                          types.TypeDefEnum)):
+        # the types it is made of, even if it is present already:
+        # one of them could be an enumeration with more elements
+        if isinstance(ext_typedef, (types.TypeDefFixedArray,
+                                    types.TypeDefVarArray,
+                                    types.TypeDefSet,
+                                    types.TypeDefString,
+                                    types.TypeDefEnum)):
 
-                self.register_external_typedef(ext_typedef.element_typedef)
+            self.register_external_typedef(ext_typedef.element_typedef)
 
-            elif isinstance(ext_typedef, types.TypeDefRecord):
-                for t in ext_typedef.member_types:
-                    self.register_external_typedef(t)
+        elif isinstance(ext_typedef, types.TypeDefRecord):
+            for t in ext_typedef.member_types:
+                self.register_external_typedef(t)
 
-            elif isinstance(ext_typedef, types.TypeDefRename):
-                self.register_external_typedef(ext_typedef.renamed_typedef)
+        elif isinstance(ext_typedef, types.TypeDefRename):
+            self.register_external_typedef(ext_typedef.renamed_typedef)
 
-            elif isinstance(ext_typedef, types.TypeDefEnum):
-                self.register_external_typedef(ext_typedef.element_typedef)
+        typedef = self.lookup_typedef(ext_typedef.auid)
 
+        # create typedef if missing
+        if not typedef:
             typedef = ext_typedef.copy(self.root)
 
             self['TypeDefinitions'].append(typedef)
-- 
2.43.0


From fb48c72605efd7f7fc8e2a4df2f2ac5be7114312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:54 +0000
Subject: [PATCH 40/73] fix: types of indirect values come along with a copy

---
 src/aaf2/properties.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/aaf2/properties.py b/src/aaf2/properties.py
index 6a08701..d7f0fba 100644
--- a/src/aaf2/properties.py
+++ b/src/aaf2/properties.py
@@ -138,6 +138,13 @@ class Property(object):
     def copy(self, parent, pid, cache=None):
         p = self.__class__(parent, pid, self.format, version=PROPERTY_VERSION)
         p.data = bytes(self.data)
+
+        if parent.root is not self.parent.root and self.propertydef:
+            # the type of an indirect value is part of its data
+            decode_typedef = getattr(self.typedef, 'decode_typedef', None)
+            if decode_typedef:
+                parent.root.metadict.register_external_typedef(decode_typedef(self.data))
+
         return p
 
     @property
-- 
2.43.0


From edbf36b1877474e77bcb0373ce2acd012882473f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:47 +0000
Subject: [PATCH 41/73] fix: AUID accepted text and bytes that are not 16 bytes
 long

---
 src/aaf2/auid.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/aaf2/auid.py b/src/aaf2/auid.py
index f0922f6..0f3369e 100644
--- a/src/aaf2/auid.py
+++ b/src/aaf2/auid.py
@@ -9,6 +9,8 @@ class AUID(object):
     __slots__ = ('bytes_le')
     def __init__(self, hex=None, bytes_le=None, bytes_be=None, int=None):
         if bytes_le:
+            if len(bytes_le) != 16:
+                raise ValueError('bytes_le is not 16 bytes long')
             self.bytes_le = bytearray(bytes_le)
         elif isinstance(hex, (uuid.UUID, AUID)):
             self.bytes_le = bytearray(hex.bytes_le)
@@ -18,6 +20,9 @@ class AUID(object):
             if len(hex) != 32:
                 raise ValueError('badly formed hexadecimal UUID string')
             b = bytearray.fromhex(hex)
+            # fromhex skips whitespace
+            if len(b) != 16:
+                raise ValueError('badly formed hexadecimal UUID string')
             self.bytes_le = bytearray(b[4-1::-1] + b[6-1:4-1:-1] + b[8-1:6-1:-1] + b[8:])
         elif bytes_be is not None:
             self.bytes_be = bytes_be
@@ -37,6 +42,8 @@ class AUID(object):
 
     @bytes_be.setter
     def bytes_be(self, value):
+        if len(value) != 16:
+            raise ValueError('bytes_be is not 16 bytes long')
         self.bytes_le = bytearray(value[4-1::-1]    + value[6-1:4-1:-1] +
                                   value[8-1:6-1:-1] + value[8:])
 
-- 
2.43.0


From 9cb43e377454c0b7f829c8919761dcc1a3f55721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:47 +0000
Subject: [PATCH 42/73] fix: AUID and the UUID it equals had different hashes

---
 src/aaf2/auid.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/aaf2/auid.py b/src/aaf2/auid.py
index 0f3369e..12cf899 100644
--- a/src/aaf2/auid.py
+++ b/src/aaf2/auid.py
@@ -2,6 +2,9 @@ import uuid
 import struct
 import traceback
 
+_AUID_LE = struct.Struct(str('<IHH'))
+_AUID_BE = struct.Struct(str('>Q'))
+
 class AUID(object):
     """
     A higher performance UUID class that is more specialized for AAF.
@@ -108,7 +111,10 @@ class AUID(object):
         return self.bytes_le[8:]
 
     def __hash__(self):
-        return hash(bytes(self.bytes_le))
+        # equal to the hash of the uuid.UUID it compares equal to
+        a, b, c = _AUID_LE.unpack_from(self.bytes_le)
+        d, = _AUID_BE.unpack_from(self.bytes_le, 8)
+        return hash(a << 96 | b << 80 | c << 64 | d)
 
     def __eq__(self, other):
         if isinstance(other, (AUID, uuid.UUID)):
-- 
2.43.0


From 5c2cc8a68b7d775332a28902be912d6596e7636e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:47 +0000
Subject: [PATCH 43/73] fix: MobID accepted malformed text, lengths and
 integers

---
 src/aaf2/mobid.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/aaf2/mobid.py b/src/aaf2/mobid.py
index ee6ffe7..566c0d4 100644
--- a/src/aaf2/mobid.py
+++ b/src/aaf2/mobid.py
@@ -177,6 +177,8 @@ class MobID(object):
     def __init__(self, mobid=None, bytes_le=None, int=None):
 
         if bytes_le:
+            if len(bytes_le) != 32:
+                raise ValueError('bytes_le is not 32 bytes long')
             self.bytes_le = bytearray(bytes_le)
         else:
             self.bytes_le = bytearray(32)
@@ -323,6 +325,8 @@ class MobID(object):
     @int.setter
     def int(self, value):
         # NOTE: interpreted as big endian
+        if not 0 <= value < 1 << 256:
+            raise ValueError('int is out of range (need a 256-bit value)')
         self.bytes_le = bytearray(bytes_from_int(value, 32, byte_order='big'))
 
     def __int__(self):
@@ -410,6 +414,9 @@ class MobID(object):
         for item in ("urn:smpte:umid:", ".", '-', '0x'):
             s = s.replace(item, '')
         assert len(s) == 64
+        # int() accepts signs, spaces and underscores
+        if not all(c in '0123456789abcdef' for c in s):
+            raise ValueError('badly formed hexadecimal MobID string')
 
         SMPTELabel = [0 for i in range(12)]
         start = 0
-- 
2.43.0


From 01d0fdacde12b7477fdf75ad3d393d3734bf153b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:40 +0000
Subject: [PATCH 44/73] fix: AAFRational misplaced the decimal point of text
 with underscores

---
 src/aaf2/rational.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/aaf2/rational.py b/src/aaf2/rational.py
index d5357de..c2426c7 100644
--- a/src/aaf2/rational.py
+++ b/src/aaf2/rational.py
@@ -65,6 +65,7 @@ class AAFRational(Fraction):
                     denominator = 1
                     decimal = m.group('decimal')
                     if decimal:
+                        decimal = decimal.replace('_', '')
                         scale = 10**len(decimal)
                         numerator = numerator * scale + int(decimal)
                         denominator *= scale
-- 
2.43.0


From 034e2fa531505bb422de9e67a8f99c76607010ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:40 +0000
Subject: [PATCH 45/73] fix: AAFRational of a float beyond 16 bits lost its
 value

---
 src/aaf2/rational.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/aaf2/rational.py b/src/aaf2/rational.py
index c2426c7..accd9d8 100644
--- a/src/aaf2/rational.py
+++ b/src/aaf2/rational.py
@@ -6,6 +6,7 @@ from __future__ import (
     )
 
 import sys
+import math
 import logging
 from fractions import Fraction, _RATIONAL_FORMAT
 from decimal import Decimal
@@ -36,10 +37,8 @@ class AAFRational(Fraction):
                 value = Fraction.from_float(numerator)
 
                 # make sure fraction can fit in a int32
-                value = value.limit_denominator(0x7FFFFFFF)
-                if value._numerator > 0x7FFFFFFF or value._numerator < -0x7FFFFFFF:
-                    value._denominator = int(value._denominator * (0x7FFFFFFF / float(value._numerator)))
-                    value._numerator = 0x7FFFFFFF
+                size = max(1, int(math.ceil(abs(value))))
+                value = value.limit_denominator(max(1, 0x7FFFFFFF // size))
 
                 self._numerator = value._numerator
                 self._denominator = value._denominator
-- 
2.43.0


From 1f2ed7f42ec0b83aa89bb5ac8e0ce1e27c980457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:19 +0000
Subject: [PATCH 46/73] fix: AAFRational compared and calculated as if its
 terms were the lowest

---
 src/aaf2/rational.py | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/src/aaf2/rational.py b/src/aaf2/rational.py
index accd9d8..f7a16a7 100644
--- a/src/aaf2/rational.py
+++ b/src/aaf2/rational.py
@@ -16,6 +16,20 @@ Rational = numbers.Rational
 if sys.version_info.major >= 3:
     unicode = str
 
+def _by_value(name):
+    """
+    Fraction's own method works on lowest terms, so hand it those.
+    """
+    method = getattr(Fraction, name)
+
+    def wrapper(self, *args):
+        args = [Fraction(a.numerator, a.denominator) if isinstance(a, AAFRational) else a
+                for a in args]
+        return method(Fraction(self.numerator, self.denominator), *args)
+
+    wrapper.__name__ = str(name)
+    return wrapper
+
 class AAFRational(Fraction):
     """
     Subclass of fractions.Fraction from the standard library. Behaves exactly the same, except
@@ -109,3 +123,16 @@ class AAFRational(Fraction):
         self._numerator = numerator
         self._denominator = denominator
         return self
+
+for _name in ('eq', 'ne', 'lt', 'le', 'gt', 'ge', 'hash', 'bool', 'nonzero',
+              'add', 'radd', 'sub', 'rsub', 'mul', 'rmul', 'div', 'rdiv',
+              'truediv', 'rtruediv', 'floordiv', 'rfloordiv', 'mod', 'rmod',
+              'divmod', 'rdivmod', 'pow', 'rpow', 'neg', 'pos', 'abs', 'float',
+              'int', 'trunc', 'floor', 'ceil', 'round'):
+    _name = '__%s__' % _name
+    if hasattr(Fraction, _name):
+        setattr(AAFRational, _name, _by_value(_name))
+
+for _name in ('limit_denominator', 'is_integer'):
+    if hasattr(Fraction, _name):
+        setattr(AAFRational, _name, _by_value(_name))
-- 
2.43.0


From 817ccb8bfbe8ab9837dba735dbd7bba9f0904c22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:57 +0000
Subject: [PATCH 47/73] fix: a stored identifier changed with the caller's
 object

---
 src/aaf2/properties.py | 5 ++++-
 src/aaf2/types.py      | 4 ++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/aaf2/properties.py b/src/aaf2/properties.py
index d7f0fba..cba0414 100644
--- a/src/aaf2/properties.py
+++ b/src/aaf2/properties.py
@@ -937,10 +937,13 @@ class StrongRefSetProperty(Property):
         self.objects.pop(old_key)
         local_key = self.references.pop(old_key)
 
+        # the id stays the caller's, to change as they like
+        new_key = type(old_key)(bytes_le=bytearray(new_key.bytes_le))
+
         self.references[new_key] = local_key
         self.objects[new_key] = obj
 
-        obj.unique_property.data = new_key.bytes_le
+        obj.unique_property.data = bytes(new_key.bytes_le)
 
     @writeonly
     def extend(self, values):
diff --git a/src/aaf2/types.py b/src/aaf2/types.py
index 633a421..bb3c4bd 100644
--- a/src/aaf2/types.py
+++ b/src/aaf2/types.py
@@ -694,11 +694,11 @@ class TypeDefRecord(TypeDef):
     def encode(self, data):
         # MobID
         if self.auid == MOBID_AUID:
-            return data.bytes_le
+            return bytes(data.bytes_le)
 
         # AUID
         if self.auid == AUID_AUID:
-            return data.bytes_le
+            return bytes(data.bytes_le)
 
         result = b""
         # TimeStamp
-- 
2.43.0


From 5180c7bc1b25630ca6ad362b874ffaf56eb372d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:57 +0000
Subject: [PATCH 48/73] fix: an identifier of the wrong length was stored

---
 src/aaf2/types.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/aaf2/types.py b/src/aaf2/types.py
index bb3c4bd..b13de4b 100644
--- a/src/aaf2/types.py
+++ b/src/aaf2/types.py
@@ -574,6 +574,12 @@ DATESTRUCT_AUID = AUID("03010500-0000-0000-060e-2b3401040101")
 TIMESTAMP_AUID  = AUID("03010700-0000-0000-060e-2b3401040101")
 RATIONAL_AUID   = AUID("03010100-0000-0000-060e-2b3401040101")
 
+def encode_identifier(value, byte_size):
+    data = bytes(value.bytes_le)
+    if len(data) != byte_size:
+        raise ValueError("identifier is %d bytes long, expected %d" % (len(data), byte_size))
+    return data
+
 @register_class
 class TypeDefRecord(TypeDef):
     class_id = AUID("0d010101-020d-0000-060e-2b3402060101")
@@ -694,11 +700,11 @@ class TypeDefRecord(TypeDef):
     def encode(self, data):
         # MobID
         if self.auid == MOBID_AUID:
-            return bytes(data.bytes_le)
+            return encode_identifier(data, 32)
 
         # AUID
         if self.auid == AUID_AUID:
-            return bytes(data.bytes_le)
+            return encode_identifier(data, 16)
 
         result = b""
         # TimeStamp
-- 
2.43.0


From b3e8f6658af26c82768b905c942f97965770b585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:57 +0000
Subject: [PATCH 49/73] fix: a refused tagged or constant value left an empty
 one

---
 src/aaf2/misc.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/aaf2/misc.py b/src/aaf2/misc.py
index 2deec66..bc06f6f 100644
--- a/src/aaf2/misc.py
+++ b/src/aaf2/misc.py
@@ -51,7 +51,9 @@ class TaggedValueHelper(object):
         if tag is None:
             tag = self.p.parent.root.create.TaggedValue()
             tag['Name'].value = key
+            tag['Value'].value = value
             self.p.append(tag)
+            return
 
         tag['Value'].value = value
 
@@ -90,8 +92,9 @@ class TaggedValue(core.AAFObject):
         if value_typedef is None:
             self.value = value
             return
+        data = self['Value'].typedef.encode(value, value_typedef)
         self['Value'].add_pid_entry()
-        self['Value'].data = self['Value'].typedef.encode(value, value_typedef)
+        self['Value'].data = data
         self['Value'].mark_modified()
 
     def __repr__(self):
@@ -179,10 +182,11 @@ class ConstantValue(Parameter):
 
     @value.setter
     def value(self, value):
-        self['Value'].add_pid_entry()
         indirect_typedef = self['Value'].typedef
         parameter_typdef = self.typedef
-        self['Value'].data = indirect_typedef.encode(value, parameter_typdef)
+        data = indirect_typedef.encode(value, parameter_typdef)
+        self['Value'].add_pid_entry()
+        self['Value'].data = data
         self['Value'].mark_modified()
 
 
-- 
2.43.0


From 53174786436e76130993777602413f927bdbd8d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:18 +0000
Subject: [PATCH 50/73] fix: the first edit unit of a component belonged to the
 one before

---
 src/aaf2/components.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aaf2/components.py b/src/aaf2/components.py
index 09fa719..dc977e0 100644
--- a/src/aaf2/components.py
+++ b/src/aaf2/components.py
@@ -98,7 +98,7 @@ class Sequence(Segment):
                     return index
 
             # gone past return previous
-            if last_component and position >= edit_unit:
+            if last_component and position > edit_unit:
                 return last_index
 
             last_component = component
-- 
2.43.0


From 54cdf0d70cc980e9a45f9dc3fa2a8fb7499f42a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:18 +0000
Subject: [PATCH 51/73] fix: the length of a slot with a nested scope was
 always 0

---
 src/aaf2/mobslots.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aaf2/mobslots.py b/src/aaf2/mobslots.py
index 4220f29..674ded8 100644
--- a/src/aaf2/mobslots.py
+++ b/src/aaf2/mobslots.py
@@ -135,7 +135,7 @@ class TimelineMobSlot(MobSlot):
         elif isinstance(segment, components.NestedScope):
             length = 0
             for slot in segment.slots:
-                max(length, slot.length)
+                length = max(length, slot.length)
             return length
         else:
             return segment.length
-- 
2.43.0


From a91958255843de242fa1189b3c2c39530582da66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:18 +0000
Subject: [PATCH 52/73] fix: a new slot could get an id already in use

---
 src/aaf2/mobs.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/aaf2/mobs.py b/src/aaf2/mobs.py
index 8eb33cd..ee261b1 100644
--- a/src/aaf2/mobs.py
+++ b/src/aaf2/mobs.py
@@ -97,6 +97,7 @@ class Mob(core.AAFObject):
             for i, e in enumerate(slots + [None], start):
                 if i != e:
                     slot_id = i
+                    break
         elif slot_id in slots:
             raise ValueError("slot id: %d already exists" % slot_id)
 
-- 
2.43.0


From 4f8b237128b91ad58ee4c5ec6fe7b903335c64eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:42 +0000
Subject: [PATCH 53/73] fix: dependant_mobs never ended when mobs refer back to
 each other

---
 src/aaf2/mobs.py | 38 +++++++++++++++++++-------------------
 1 file changed, 19 insertions(+), 19 deletions(-)

diff --git a/src/aaf2/mobs.py b/src/aaf2/mobs.py
index ee261b1..2d1eadf 100644
--- a/src/aaf2/mobs.py
+++ b/src/aaf2/mobs.py
@@ -153,28 +153,28 @@ class Mob(core.AAFObject):
             Yields all mobs that this mob is dependant on in depth first order.
         """
 
-        visited = set()
-        stack = [self]
+        def references(mob):
+            mobs = [obj.mob for obj, _ in mob.walk_references(topdown=True)
+                    if isinstance(obj, SourceReference)]
+            return iter(mobs)
+
+        # mobs can refer back to each other, so a mob is
+        # visited once it has been put on the stack
+        visited = {self.mob_id}
+        stack = [(self, references(self))]
 
         while stack:
-            mob = stack[-1]
-            children_processed = True
-
-            for obj, _ in mob.walk_references(topdown=True):
-                if isinstance(obj, SourceReference):
-                    ref_mob = obj.mob
-                    if not ref_mob:
-                        continue
-                    if ref_mob.mob_id not in visited:
-                        stack.append(ref_mob)
-                        children_processed = False
-
-            if children_processed:
+            mob, refs = stack[-1]
+
+            for ref_mob in refs:
+                if ref_mob is not None and ref_mob.mob_id not in visited:
+                    visited.add(ref_mob.mob_id)
+                    stack.append((ref_mob, references(ref_mob)))
+                    break
+            else:
                 stack.pop(-1)
-                if mob.mob_id not in visited:
-                    visited.add(mob.mob_id)
-                    if mob is not self:
-                        yield mob
+                if mob is not self:
+                    yield mob
 
     def __repr__(self):
         s = "%s.%s" % (self.__class__.__module__,
-- 
2.43.0


From beb86efd389da164b12fbe29ba19a5790047f6b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:56 +0000
Subject: [PATCH 54/73] fix: the parameters of an operation group could not be
 assigned

---
 src/aaf2/components.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aaf2/components.py b/src/aaf2/components.py
index dc977e0..cc4d133 100644
--- a/src/aaf2/components.py
+++ b/src/aaf2/components.py
@@ -324,7 +324,7 @@ class OperationGroup(Segment):
 
     @parameters.setter
     def parameters(self, value):
-        self['Parameters'] = value
+        self['Parameters'].value = value
 
     @property
     def segments(self):
-- 
2.43.0


From 43c9cd27c84a4fa0f8c9cd331a50cc90d0ca431a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:56 +0000
Subject: [PATCH 55/73] fix: an operation group ignored the media kind of its
 operation

---
 src/aaf2/components.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/aaf2/components.py b/src/aaf2/components.py
index cc4d133..34f99c7 100644
--- a/src/aaf2/components.py
+++ b/src/aaf2/components.py
@@ -307,8 +307,8 @@ class OperationGroup(Segment):
         super(OperationGroup, self).__init__(media_kind=media_kind, length=length)
         self.operation = self.root.dictionary.lookup_operationdef(operationdef)
 
-        if self.media_kind is None:
-            self.media_kind = self.operation.media_kind
+        if media_kind is None and self.operation.datadef is not None:
+            self.datadef = self.operation.datadef
 
     @property
     def operation(self):
-- 
2.43.0


From 9ac74294b5037b5f20c3c5cc18f6ff71ef7af68d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:51 +0000
Subject: [PATCH 56/73] fix: objects made in the arguments of another came out
 as its class

---
 src/aaf2/file.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/aaf2/file.py b/src/aaf2/file.py
index 0f64e84..298ac6a 100644
--- a/src/aaf2/file.py
+++ b/src/aaf2/file.py
@@ -5,6 +5,7 @@ from __future__ import (
     print_function,
     division,
     )
+from functools import partial
 from io import BytesIO
 import io
 import traceback
@@ -32,11 +33,9 @@ class AAFFactory(object):
 
     def __init__(self, root):
         self.root = root
-        self.class_name = None
 
     def __getattr__(self, name):
-        self.class_name = name
-        return self.create_instance
+        return partial(self.from_name, name)
 
     def from_name(self, name, *args, **kwargs):
         classdef = self.root.metadict.lookup_classdef(name)
@@ -59,9 +58,6 @@ class AAFFactory(object):
 
         return obj
 
-    def create_instance(self, *args, **kwargs):
-        return self.from_name(self.class_name, *args, **kwargs)
-
 class AAFObjectManager(object):
 
     def __init__(self, root):
-- 
2.43.0


From c9d6b59fecc99d66ec233c3b29ef379e70745e9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:59 +0000
Subject: [PATCH 57/73] fix: value_at failed at some key frames of a bezier or
 cubic curve

---
 src/aaf2/interpolation.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/aaf2/interpolation.py b/src/aaf2/interpolation.py
index 26b93d7..f7ad8dc 100644
--- a/src/aaf2/interpolation.py
+++ b/src/aaf2/interpolation.py
@@ -152,7 +152,14 @@ def bezier_interpolate(p0, p1, p2, p3, x):
     # degenerate cases 1
     # p0 is after p3
     if p0[0] >= p3[0]:
-        return p[1]
+        return p0[1]
+
+    # the curve starts and ends on p0 and p3, the roots there
+    # can be just outside of the curve because of floating point error
+    if x <= p0[0]:
+        return p0[1]
+    if x >= p3[0]:
+        return p3[1]
 
     # degenerate cases 2
     # p1 after p3 or before p0
-- 
2.43.0


From 4c026af36301614036a30699aa806b2a7d0f8985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:59 +0000
Subject: [PATCH 58/73] fix: a key frame before the first one was put after it

---
 src/aaf2/misc.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/aaf2/misc.py b/src/aaf2/misc.py
index bc06f6f..801942e 100644
--- a/src/aaf2/misc.py
+++ b/src/aaf2/misc.py
@@ -231,6 +231,8 @@ class VaryingValue(Parameter):
     def add_keyframe(self, time, value, edit_hint=None):
         cp = self.root.create.ControlPoint()
         cp.time = time
+        # as stored, a rational
+        time = cp.time
 
         cp['Value'].add_pid_entry()
         cp['Value'].data = cp['Value'].typedef.encode(value, self.typedef)
@@ -244,8 +246,10 @@ class VaryingValue(Parameter):
         if len(pointlist) > 0:
             index = self.nearest_index(time)
             nearest = pointlist[index]
-            if float(nearest.time) == float(time):
+            if nearest.time == time:
                 pointlist[index] = cp
+            elif nearest.time > time:
+                pointlist.insert(index, cp)
             else:
                 pointlist.insert(index+1, cp)
         else:
-- 
2.43.0


From d396ae37679d4fb6b0c184b18343a547e7001ca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:59 +0000
Subject: [PATCH 59/73] fix: generate_offset_map failed for one frame and
 before the first key frame

---
 src/aaf2/interpolation.py | 1 +
 src/aaf2/misc.py          | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/aaf2/interpolation.py b/src/aaf2/interpolation.py
index f7ad8dc..cea5a42 100644
--- a/src/aaf2/interpolation.py
+++ b/src/aaf2/interpolation.py
@@ -296,6 +296,7 @@ def mc_trapezoidal_integrate(value_at_func, a, b, n=5):
 def integrate_iter(value_at_func, start, end):
     # func is a value_at(time) function that takes a time arg
     pos = 0
+    t = float(start) - 0.5
     for i in range(start, end-1):
         t = float(i)
         pos += mc_trapezoidal_integrate(value_at_func, t-0.5, t)
diff --git a/src/aaf2/misc.py b/src/aaf2/misc.py
index 801942e..28a3638 100644
--- a/src/aaf2/misc.py
+++ b/src/aaf2/misc.py
@@ -417,7 +417,7 @@ def generate_offset_map(speed_map, start=0, end=None):
     offset_index = None
 
     inter_start = min(start, center)
-    inter_end = max(center,  end+1)
+    inter_end = max(center,  end) + 1
 
     for i, (t,v) in enumerate(integrate_iter(speed_map.value_at, inter_start, inter_end)):
         time.append(t)
-- 
2.43.0


From 28dd38557a7d4bb09adafac878d280126425e76e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:24 +0000
Subject: [PATCH 60/73] fix: import_audio_essence failed with an edit rate
 given as text

---
 src/aaf2/mobs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aaf2/mobs.py b/src/aaf2/mobs.py
index 2d1eadf..ac730e9 100644
--- a/src/aaf2/mobs.py
+++ b/src/aaf2/mobs.py
@@ -416,7 +416,7 @@ class SourceMob(Mob):
 
         # set lengths
         descriptor.length = frames
-        slot.segment.length = length or int(rescale(frames, sample_rate, edit_rate))
+        slot.segment.length = length or int(rescale(frames, sample_rate, slot.edit_rate))
 
         if essencedata is not None:
             stream = essencedata.open('w')
-- 
2.43.0


From 8b3f1a058cfb8033cf2b86517af28e8c3d1ed5ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:25 +0000
Subject: [PATCH 61/73] fix: MXF lengths and positions below zero could not be
 linked

---
 src/aaf2/mxf.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/aaf2/mxf.py b/src/aaf2/mxf.py
index ee57fbd..de56334 100644
--- a/src/aaf2/mxf.py
+++ b/src/aaf2/mxf.py
@@ -351,13 +351,13 @@ class MXFComponent(MXFObject):
             if tag == 0x1001:
                 self.data['Components'] = decode_strong_ref_array(f)
             elif tag == 0x1201:
-                self.data['StartTime'] = read_u64be(f)
+                self.data['StartTime'] = read_s64be(f)
             elif tag == 0x1102:
                 self.data['SourceMobSlotID'] = read_u32be(f)
             elif tag == 0x1101:
                 self.data['SourceID'] = decode_mob_id(data)
             elif tag == 0x0202:
-                self.data['Length'] = read_u64be(f)
+                self.data['Length'] = read_s64be(f)
             elif tag == 0x0201:
                 self.data['DataDef'] = decode_datadef(data)
             elif tag == 0x1503:
@@ -365,7 +365,7 @@ class MXFComponent(MXFObject):
             elif tag == 0x1502:
                 self.data['FPS'] = read_u16be(f)
             elif tag == 0x1501:
-                self.data['Start'] = read_u64be(f)
+                self.data['Start'] = read_s64be(f)
             elif tag == 0x0501:
                 self.data['Choices'] = decode_strong_ref_array(f)
             elif tag == 0x0502:
-- 
2.43.0


From 602798acbc4175911bd7605f26215a7e1be580b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:32 +0000
Subject: [PATCH 62/73] fix: MXF files with MPEG2 video could not be linked

---
 src/aaf2/mxf.py | 7 -------
 1 file changed, 7 deletions(-)

diff --git a/src/aaf2/mxf.py b/src/aaf2/mxf.py
index de56334..e6efaef 100644
--- a/src/aaf2/mxf.py
+++ b/src/aaf2/mxf.py
@@ -687,13 +687,6 @@ class MXFMPEG2VideoDescriptor(MXFCDCIDescriptor):
         # 060e2b34.04010103.04010202.01040300
         self.data['ResolutionID'] = 4076 #XDCAM HD 50Mbit
 
-        d['Length'].value = self.data.get('Length', 0)
-
-        # optional
-        for key in ('LinkedSlotID', ):
-            if key in self.data:
-                d[key].value = self.data[key]
-
         return super(MXFMPEG2VideoDescriptor, self).link()
 
 @register_mxf_class
-- 
2.43.0


From 4e95b4562586d0fd9d98bfd19a07e550722da65d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:04 +0000
Subject: [PATCH 63/73] fix: a stream opened for reading could be written to

---
 src/aaf2/cfb.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/aaf2/cfb.py b/src/aaf2/cfb.py
index 8393570..2aaa50e 100644
--- a/src/aaf2/cfb.py
+++ b/src/aaf2/cfb.py
@@ -103,7 +103,7 @@ class Stream(object):
         if offset < 0:
             raise ValueError('New position is before the start of the stream')
 
-        if offset > self.dir.byte_size:
+        if offset > self.dir.byte_size and self.mode != 'r':
             # logging.debug("overseek %d bytes, padding with zeros" % (offset - self.dir.byte_size))
             self.pos = self.dir.byte_size
             bytes_left = offset - self.dir.byte_size
@@ -241,6 +241,9 @@ class Stream(object):
             self.pos = min(orig_pos, len(realloc_data))
 
     def write(self, data):
+        if self.mode == 'r':
+            raise IOError("stream is opened for reading")
+
         data_size = len(data)
         current_size = self.dir.byte_size
         new_size = max(self.tell() + data_size, current_size)
@@ -309,6 +312,9 @@ class Stream(object):
 
     def truncate(self, size=None):
         # print("trunc", self.dir.path())
+        if self.mode == 'r':
+            raise IOError("stream is opened for reading")
+
         if size is None:
             size = self.pos
 
-- 
2.43.0


From 70b9a31b83b4cad4a9adcb1e2e48dff8e06ab62f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:39 +0000
Subject: [PATCH 64/73] fix: the upper half of stream sizes was used in version
 3 containers

---
 src/aaf2/cfb.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/aaf2/cfb.py b/src/aaf2/cfb.py
index 2aaa50e..aad1dc1 100644
--- a/src/aaf2/cfb.py
+++ b/src/aaf2/cfb.py
@@ -667,6 +667,9 @@ class DirEntry(object):
 
     @property
     def byte_size(self):
+        if self.storage.major_version < 4:
+            # the upper half can be uninitialized
+            return unpack_u32le_from(self.data, 120)
         value = unpack_u64le_from(self.data, 120)
         return value
 
-- 
2.43.0


From a56141d0608d969b1ee13661e4ca1175e1641e6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:39 +0000
Subject: [PATCH 65/73] fix: a damaged stream size made reading allocate that
 much memory

---
 src/aaf2/cfb.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/aaf2/cfb.py b/src/aaf2/cfb.py
index aad1dc1..b2ea2df 100644
--- a/src/aaf2/cfb.py
+++ b/src/aaf2/cfb.py
@@ -142,6 +142,10 @@ class Stream(object):
         else:
             bytes_to_read = max(0, min(n, byte_size - self.tell()))
 
+        # the size could be damaged, don't allocate what isn't there
+        if bytes_to_read and self.pos + bytes_to_read > len(self.fat_chain) * self.sector_size():
+            raise CompoundFileBinaryError("stream is missing sectors: %s" % self.dir.name)
+
         result = bytearray(bytes_to_read)
         mv = memoryview(result)
 
-- 
2.43.0


From 103d385d8050dec419afa9913f9a563580b9f000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:44 +0000
Subject: [PATCH 66/73] fix: a damaged index count made opening a file use
 gigabytes of memory

---
 src/aaf2/properties.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/aaf2/properties.py b/src/aaf2/properties.py
index cba0414..1dff8f3 100644
--- a/src/aaf2/properties.py
+++ b/src/aaf2/properties.py
@@ -824,8 +824,12 @@ class StrongRefSetProperty(Property):
                 'I', # ref_count
                 '%ds' % self.key_size))
 
+            data = f.read()
+            if len(data) != struct.calcsize(str('<' + fmt)) * count:
+                raise AAFPropertyError("damaged index stream: %s" % index_name)
+
             index_fmt  = struct.Struct(str('<' + fmt * count))
-            index_data = index_fmt.unpack(f.read())
+            index_data = index_fmt.unpack(data)
 
             for i in range(count):
                 index = i * 3
@@ -1216,10 +1220,14 @@ class WeakRefArrayProperty(Property):
             assert self.key_size in (16, 32)
 
             for i in range(count):
+                data = f.read(self.key_size)
+                if len(data) != self.key_size:
+                    raise AAFPropertyError("damaged index stream: %s" % index_name)
+
                 if self.key_size == 16:
-                    key = AUID(bytes_le=f.read(self.key_size))
+                    key = AUID(bytes_le=data)
                 else:
-                    key = key = MobID(bytes_le=f.read(self.key_size))
+                    key = MobID(bytes_le=data)
                 self.references.append(key)
 
     @writeonly
-- 
2.43.0


From e76e81a1c6fc796074c522c7a519d2d59b7e1af4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:48 +0000
Subject: [PATCH 67/73] fix: a damaged stream size made writing allocate that
 many sectors

---
 src/aaf2/cfb.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/aaf2/cfb.py b/src/aaf2/cfb.py
index b2ea2df..a5ca3c9 100644
--- a/src/aaf2/cfb.py
+++ b/src/aaf2/cfb.py
@@ -213,6 +213,11 @@ class Stream(object):
         minifat = self.is_mini_stream()
         realloc_data = None
         orig_pos = None
+
+        # the size could be damaged, don't fill in what isn't there
+        if self.dir.byte_size > len(self.fat_chain) * self.sector_size():
+            raise CompoundFileBinaryError("stream is missing sectors: %s" % self.dir.name)
+
         # convert from minifat to fat
         if minifat and byte_size >= self.storage.min_stream_max_size:
             # logging.debug("converting stream for minifat to fat")
-- 
2.43.0


From 70a950dcef52566ce8786038b918be733cb3f47e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:53 +0000
Subject: [PATCH 68/73] fix: the first sector of empty streams written by
 others was taken as theirs

---
 src/aaf2/cfb.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/aaf2/cfb.py b/src/aaf2/cfb.py
index a5ca3c9..6bd6b7c 100644
--- a/src/aaf2/cfb.py
+++ b/src/aaf2/cfb.py
@@ -1774,6 +1774,10 @@ class CompoundFileBinary(object):
         data= bytearray(sector_data[sid_offset:sid_offset+128])
         entry = DirEntry(self, dir_id, data=data)
 
+        # a empty stream has no sectors, not all writers clear the first sector
+        if entry.type == 'stream' and entry.byte_size == 0:
+            entry.data[116:120] = b'\xff' * 4
+
         entry.parent = parent
         self.dir_cache[dir_id] = entry
         return entry
-- 
2.43.0


From 9b20b8727be9f71b9101efc6853853a6015fa502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:11 +0000
Subject: [PATCH 69/73] fix: reading an owned object that is not set failed on
 detached objects

---
 src/aaf2/properties.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/aaf2/properties.py b/src/aaf2/properties.py
index 1dff8f3..e70bc13 100644
--- a/src/aaf2/properties.py
+++ b/src/aaf2/properties.py
@@ -373,6 +373,9 @@ class StrongRefProperty(Property):
     def value(self):
         if self.object:
             return self.object
+        if self.ref is None or not self.attached:
+            # not set
+            return None
         dir_entry = self.parent.dir.get(self.ref)
         obj = None
         if dir_entry:
-- 
2.43.0


From 39ec150856cad0ccbd87442071ee336416a69b18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:11 +0000
Subject: [PATCH 70/73] fix: reading a weak reference that is not set failed

---
 src/aaf2/properties.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/aaf2/properties.py b/src/aaf2/properties.py
index e70bc13..01c23f0 100644
--- a/src/aaf2/properties.py
+++ b/src/aaf2/properties.py
@@ -1146,6 +1146,9 @@ class WeakRefProperty(Property):
 
     @property
     def value(self):
+        if self.ref is None:
+            # not set
+            return None
         return resolve_weakref(self, self.ref)
 
     @property
-- 
2.43.0


From 2c6dce8719ed676f3294c61c76d12817f863597d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:11 +0000
Subject: [PATCH 71/73] fix: parameters without a definition could not be
 printed

---
 src/aaf2/misc.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/aaf2/misc.py b/src/aaf2/misc.py
index 28a3638..33738e3 100644
--- a/src/aaf2/misc.py
+++ b/src/aaf2/misc.py
@@ -148,7 +148,8 @@ class Parameter(core.AAFObject):
         s = "%s.%s" % (self.__class__.__module__,
                                 self.__class__.__name__)
 
-        parameterdef = self.parameterdef
+        # there is no definition to look up before one is given
+        parameterdef = self.parameterdef if 'Definition' in self else None
         if parameterdef:
             s += ' %s' % parameterdef.name
 
-- 
2.43.0


From d3149d8781ea451226c6b99674ae38f2e4239b5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:19 +0000
Subject: [PATCH 72/73] fix: the stream of a detached object was looked up in
 no directory

---
 src/aaf2/properties.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/aaf2/properties.py b/src/aaf2/properties.py
index 01c23f0..16e2b6c 100644
--- a/src/aaf2/properties.py
+++ b/src/aaf2/properties.py
@@ -309,6 +309,10 @@ class StreamProperty(Property):
 
     @property
     def value(self):
+        if not self.attached:
+            return self.dir
+        if self.stream_name is None:
+            return None
         return self.parent.dir.get(self.stream_name)
 
 
-- 
2.43.0


From 59e4ca62f12ecd0d42405830c3279d604f93bfcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:08 +0000
Subject: [PATCH 73/73] fix: unbuffered files that took only a part of a write
 lost the rest

---
 src/aaf2/cfb.py | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/src/aaf2/cfb.py b/src/aaf2/cfb.py
index 6bd6b7c..f87217a 100644
--- a/src/aaf2/cfb.py
+++ b/src/aaf2/cfb.py
@@ -1119,9 +1119,33 @@ def extend_sid_table(f, table, byte_size):
         # try deprecated from string
         table.fromstring(f.read(byte_size))
 
+class UnbufferedWriter(object):
+    """
+    Wraps a unbuffered file object. Its write can write less than it was asked
+    to, for example if the disk is full.
+    """
+    def __init__(self, file_object):
+        self.f = file_object
+
+    def __getattr__(self, name):
+        return getattr(self.f, name)
+
+    def write(self, data):
+        size = len(data)
+        mv = memoryview(data)
+        while len(mv):
+            n = self.f.write(mv)
+            if not n:
+                raise IOError("unable to write %d of %d bytes" % (len(mv), size))
+            mv = mv[n:]
+        return size
+
 class CompoundFileBinary(object):
     def __init__(self, file_object, mode='rb', sector_size=4096):
 
+        if isinstance(file_object, io.RawIOBase) and mode not in ('r', 'rb'):
+            file_object = UnbufferedWriter(file_object)
+
         self.f = file_object
 
         self.difat = [[]]
-- 
2.43.0

