From d84b191428cfb5a0a9c6b19081490d475df8d95a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:36:47 +0000
Subject: [PATCH 01/59] fix: don't write the whole bitmap section when it is
 constructed

Since C++20 the default constructor of std::atomic value-initializes, so
constructing the buckets in the mapped memory zeroed (and allocated) all
256 MiB of the source label index, contrary to the documented intention
of not touching any memory not explicitly set.
---
 polytracker/include/taintdag/bitmap_section.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/polytracker/include/taintdag/bitmap_section.h b/polytracker/include/taintdag/bitmap_section.h
index c024d89..fcba50a 100644
--- a/polytracker/include/taintdag/bitmap_section.h
+++ b/polytracker/include/taintdag/bitmap_section.h
@@ -68,8 +68,9 @@ public:
     if (mapped_range.size() < allocation_size)
       error_exit("BitmapSectionBase, allocated memory is too small.");
 
-    // Construct the atomic values (shouldn't initialize to any specific value).
-    new (&*mem_.begin()) atomic_t[bucket_count];
+    // NOTE: The atomic values are deliberately not constructed in mapped_range.
+    // As of C++20 the std::atomic default constructor value-initializes, which
+    // would write to every page of mapped_range.
   }
 
   // Constructor used when constructing as part of an OutputFile.
-- 
2.43.0


From 7fc29bb1812926c52cfcc8d3d312b8362898ae83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:36:47 +0000
Subject: [PATCH 02/59] fix: bitmap set_range size accounting and overflow
 check

A range ending on a bucket boundary counted the following, unwritten
bucket as used; at the end of the capacity size() then exceeded the
memory of the section. A huge n wrapped around in the capacity check.
---
 polytracker/include/taintdag/bitmap_section.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/polytracker/include/taintdag/bitmap_section.h b/polytracker/include/taintdag/bitmap_section.h
index fcba50a..4d790d3 100644
--- a/polytracker/include/taintdag/bitmap_section.h
+++ b/polytracker/include/taintdag/bitmap_section.h
@@ -113,10 +113,11 @@ public:
       return;
     if (bit_begin >= BitCapacity)
       error_exit("Trying to set bit beyond capacity.");
-    if (bit_begin + n > BitCapacity)
+    if (n > BitCapacity - bit_begin)
       error_exit("Trying to set bit beyond capacity.");
 
     auto current_bucket = bucket_index(bit_begin);
+    const auto last_bucket = bucket_index(bit_begin + n - 1);
     const auto bucket_bit_start = bit_begin % bits_per_bucket;
 
     // If bit_begin is not aligned to the bucket size, this will
@@ -155,7 +156,7 @@ public:
       set_bits(bucket(current_bucket), mask_post);
     }
     // NOTE(hbrodin): See the comment in set about potential inconsistency.
-    update_buckets_used(current_bucket);
+    update_buckets_used(last_bucket);
   }
 
   // Returns wheter the bit designated by bitno is set or not.
-- 
2.43.0


From e5c382e7c2a7ba9ae530e1149375a4687bfb244d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:36:47 +0000
Subject: [PATCH 03/59] fix: round section start up to its alignment

Adding the remainder of the division by the alignment only yields an
aligned address when the remainder is zero or half the alignment.
---
 polytracker/include/taintdag/outputfile.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/polytracker/include/taintdag/outputfile.h b/polytracker/include/taintdag/outputfile.h
index 752bba1..5a4930d 100644
--- a/polytracker/include/taintdag/outputfile.h
+++ b/polytracker/include/taintdag/outputfile.h
@@ -142,7 +142,8 @@ private:
   template <typename T> std::span<uint8_t> do_allocation() {
     constexpr auto idx = util::TypeIndex<T, std::tuple<Sections...>>::index;
     constexpr auto align = T::align_of;
-    auto begin = alloc_ptr_ + (reinterpret_cast<uintptr_t>(alloc_ptr_) % align);
+    auto misalignment = reinterpret_cast<uintptr_t>(alloc_ptr_) % align;
+    auto begin = alloc_ptr_ + (align - misalignment) % align;
     auto end = alloc_ptr_ = begin + T::allocation_size;
     file_header_->sections[idx].offset = begin - mapped_memory_.begin;
     return {begin, end};
-- 
2.43.0


From 2ecfe37125099c4f3d6f05a0925dcbe532e59074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:39 +0000
Subject: [PATCH 04/59] fix: error exit when the label section can't hold new
 source labels

create_source_labels dereferenced an empty optional when the section was
full, handing out made up labels.
---
 polytracker/include/taintdag/labels.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/polytracker/include/taintdag/labels.h b/polytracker/include/taintdag/labels.h
index 66fcb5b..d9a926e 100644
--- a/polytracker/include/taintdag/labels.h
+++ b/polytracker/include/taintdag/labels.h
@@ -41,7 +41,9 @@ struct Labels : public FixedSizeAlloc<storage_t> {
         construct_range(length, [src, &offset](uint8_t *p) mutable {
           new (p) storage_t{encode(SourceTaint{src, offset++})};
         });
-    // TODO(hbrodin): Check valid return
+    if (!maybe_range) {
+      error_exit("Failed to create ", length, " source labels.");
+    }
     auto first = index(*maybe_range->begin());
     auto last = first + length - 1;
     return {first, last};
-- 
2.43.0


From da982ca548a6e94f848892d91b7711f7622cb80d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:39 +0000
Subject: [PATCH 05/59] fix: error exit when a newly opened file can't be added
 as a source

The failure was ignored, so reads and writes of the file were attributed to
an earlier, already closed file that had used the same file descriptor.
---
 polytracker/src/taintdag/polytracker.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/polytracker/src/taintdag/polytracker.cpp b/polytracker/src/taintdag/polytracker.cpp
index 65b683a..e11ce8a 100644
--- a/polytracker/src/taintdag/polytracker.cpp
+++ b/polytracker/src/taintdag/polytracker.cpp
@@ -37,7 +37,11 @@ void PolyTracker::open_file(int fd, std::filesystem::path const &path) {
   // TODO (hbrodin): If we decide to separate sources and sinks, extend this
   // method to accept a direction parameter e.g. in, inout, out and make an
   // additional call to add a sink.
-  output_file_.section<Sources>().add_source(path.string(), fd, size);
+  if (!output_file_.section<Sources>().add_source(path.string(), fd, size)) {
+    // Without its own entry, data of this file would be attributed to any
+    // earlier source that used the same fd.
+    error_exit("Failed to add source for: ", path);
+  }
 }
 
 void PolyTracker::close_file(int fd) {
-- 
2.43.0


From a6ebbc6b5f89d9ec402ca0c8eb28294ad7a1265e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:08:18 +0000
Subject: [PATCH 06/59] fix: file_cavities truncated a file opened more than
 once to its shortest read

The markers of several sources with the same path were combined with zip(),
which drops everything beyond the shorter one, so used or unused bytes at the
end of the file disappeared from the report.
---
 polytracker/mapping.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/polytracker/mapping.py b/polytracker/mapping.py
index 845015b..0a80149 100644
--- a/polytracker/mapping.py
+++ b/polytracker/mapping.py
@@ -3,6 +3,7 @@ This module maps input byte offsets to output byte offsets
 """
 
 from collections import defaultdict
+from itertools import zip_longest
 from pathlib import Path
 from typing import Dict, Iterator, List, Optional, Set, Tuple
 from tqdm import tqdm
@@ -143,7 +144,9 @@ class InputOutputMapping:
         for k, v in markers.items():
             fname = self.tdfile.fd_headers[k][0]
             if fname in merged:
-                merged[fname] = bytes(a | b for (a, b) in zip(merged[fname], v))
+                merged[fname] = bytes(
+                    a | b for (a, b) in zip_longest(merged[fname], v, fillvalue=0)
+                )
             else:
                 merged[fname] = bytes(v)
 
-- 
2.43.0


From 9a60a5ff3ea04426cf0c8fb4e7a2dc205fd5552d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:08:18 +0000
Subject: [PATCH 07/59] fix: Taints.find never advanced past its first match

The search resumed at the offset of the match just yielded, so iterating over
the matches of a contained sequence never ended.
---
 polytracker/tracing.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/polytracker/tracing.py b/polytracker/tracing.py
index a1eb6f6..387b0bb 100644
--- a/polytracker/tracing.py
+++ b/polytracker/tracing.py
@@ -304,6 +304,7 @@ class Taints:
                 offset = content.find(byte_sequence, offset)
                 if offset >= 0:
                     yield region[offset : offset + len(byte_sequence)]
+                    offset += 1
                 else:
                     break
 
-- 
2.43.0


From 1a79bfd0d0b4c20505b30939a96219cebbcb877e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:08:18 +0000
Subject: [PATCH 08/59] fix: Taints.to_regions compared every byte with the
 first source

The source of the previous byte was only recorded once, so all bytes of the
second and later sources became regions of a single byte, and a byte of the
first source could be merged into a region of another.
---
 polytracker/tracing.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/polytracker/tracing.py b/polytracker/tracing.py
index 387b0bb..ed4e4fd 100644
--- a/polytracker/tracing.py
+++ b/polytracker/tracing.py
@@ -265,14 +265,14 @@ class Taints:
         if not is_sorted:
             offsets = sorted(offsets)
         for offset in offsets:
-            if last_input is None:
-                last_input = offset.source
-            elif last_input != offset.source or (
-                last_offset is not None and last_offset.offset != offset.offset - 1
+            if last_input is not None and (
+                last_input != offset.source
+                or (last_offset is not None and last_offset.offset != offset.offset - 1)
             ):
                 if region is not None:
                     yield region
                 region = None
+            last_input = offset.source
             last_offset = offset
             if region is None:
                 region = TaintedRegion(
-- 
2.43.0


From 2e526c368ba086ea5fcd7424141703bd889e13e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:08:18 +0000
Subject: [PATCH 09/59] fix: order tainted regions of different inputs with the
 same uid by path

Inputs are distinguished by uid (the file descriptor) and path, but regions
were ordered by uid only; sorting interleaved the bytes of two files that used
the same descriptor and split their regions.
---
 polytracker/tracing.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/polytracker/tracing.py b/polytracker/tracing.py
index ed4e4fd..bea851c 100644
--- a/polytracker/tracing.py
+++ b/polytracker/tracing.py
@@ -138,10 +138,12 @@ class TaintedRegion:
     def __lt__(self, other):
         return isinstance(other, TaintedRegion) and (
             self.source.uid,
+            self.source.path,
             self.offset,
             self.length,
         ) < (
             other.source.uid,
+            other.source.path,
             other.offset,
             other.length,
         )
-- 
2.43.0


From 0fa21b9a1d9142231bb13b24c9baac47d0837134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:08:18 +0000
Subject: [PATCH 10/59] fix: slicing a TaintedRegion with open or out of range
 bounds

region[2:] and region[:2] raised a TypeError, and a stop beyond the end yielded
a region longer than the one being sliced.
---
 polytracker/tracing.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/polytracker/tracing.py b/polytracker/tracing.py
index bea851c..994eb3b 100644
--- a/polytracker/tracing.py
+++ b/polytracker/tracing.py
@@ -104,13 +104,8 @@ class TaintedRegion:
         if isinstance(index_or_slice, slice):
             if index_or_slice.step is not None and index_or_slice.step != 1:
                 raise ValueError("TaintedRegion only supports slices with step == 1")
-            start = index_or_slice.start
-            if start < 0:
-                start = max(self.length + start, 0)
-            stop = index_or_slice.stop
-            if stop < 0:
-                stop = self.length + stop
-            if start >= stop or start >= self.length or stop <= 0:
+            start, stop, _ = index_or_slice.indices(self.length)
+            if start >= stop:
                 return TaintedRegion(source=self.source, offset=self.offset, length=0)
             return TaintedRegion(
                 source=self.source, offset=self.offset + start, length=stop - start
-- 
2.43.0


From b65841769539580b27b63e0ae86444c8df3811f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:08:18 +0000
Subject: [PATCH 11/59] fix: ProgramTrace.taints always returned an empty set

Every requested node was already in `seen` and thus skipped.
---
 polytracker/tracing.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/polytracker/tracing.py b/polytracker/tracing.py
index 994eb3b..af81d7d 100644
--- a/polytracker/tracing.py
+++ b/polytracker/tracing.py
@@ -1139,15 +1139,14 @@ class ProgramTrace(ABC):
         while stack:
             node = stack.pop()
 
-            if node in seen:
-                continue
-
             p1 = node.parent_one
             p2 = node.parent_two
 
             if p1 is None:
                 assert p2 is None
-                result.add(self.file_offset(node))
+                if node.source is not None:
+                    # the node of untainted data has neither parents nor a source
+                    result.add(self.file_offset(node))
             else:
                 # a node will always have either zero or two parents.
                 # labels that are reused will reuse their associated nodes.
-- 
2.43.0


From f278d6cf001b1e8fca63d4322586a070e2ef64e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:08:18 +0000
Subject: [PATCH 12/59] fix: storing a key that is already cached makes it the
 most recently used

Otherwise the entry written last could be the next one evicted.
---
 polytracker/cache.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/polytracker/cache.py b/polytracker/cache.py
index 4667f27..dbd9de8 100644
--- a/polytracker/cache.py
+++ b/polytracker/cache.py
@@ -74,6 +74,7 @@ class LRUCache(Generic[R, V], MutableMapping):
 
     def __setitem__(self, k: R, v: V) -> None:
         self._items[k] = v
+        self._items.move_to_end(k, last=True)
         while self.max_size is not None and len(self._items) > self.max_size:
             self._items.popitem(last=False)
 
-- 
2.43.0


From e4e0ffaa60ebe446901fe311418045de67a5fb79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:08:18 +0000
Subject: [PATCH 13/59] fix: iterate over LRUCache keys by value, not by object
 identity

A key that is deleted and stored again through an equal but different object
while iterating was yielded twice, and a key whose id was reused was skipped.
---
 polytracker/cache.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/polytracker/cache.py b/polytracker/cache.py
index dbd9de8..b3188da 100644
--- a/polytracker/cache.py
+++ b/polytracker/cache.py
@@ -88,10 +88,10 @@ class LRUCache(Generic[R, V], MutableMapping):
         yielded = set()
         while True:
             for key in self._items:
-                if id(key) not in yielded:
+                if key not in yielded:
                     break
             else:
                 break
             self._items.move_to_end(key, last=True)
             yield key
-            yielded.add(id(key))
+            yielded.add(key)
-- 
2.43.0


From f87e9f87bd0ffff14333f59398e8a808dcbd0bc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:08:18 +0000
Subject: [PATCH 14/59] fix: DiGraph.descendants returned only inner nodes, and
 the node itself

dfs_successors has no entry for nodes without unvisited successors, so all
leaves were missing.
---
 polytracker/graphs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/polytracker/graphs.py b/polytracker/graphs.py
index 0f8586a..5c49c80 100644
--- a/polytracker/graphs.py
+++ b/polytracker/graphs.py
@@ -122,7 +122,7 @@ class DiGraph(nx.DiGraph, Generic[N]):
         return ret
 
     def descendants(self, node: N) -> FrozenSet[N]:
-        return frozenset(nx.dfs_successors(self, node).keys())
+        return frozenset(nx.descendants(self, node))
 
     @property
     def dominator_forest(self) -> "DAG[N]":
-- 
2.43.0


From dc1bc5bff653387774fb86db860374cb05823f67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:09:00 +0000
Subject: [PATCH 15/59] fix: DiGraph.ancestors listed the node itself for
 equal, not identical, nodes

---
 polytracker/graphs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/polytracker/graphs.py b/polytracker/graphs.py
index 5c49c80..330103f 100644
--- a/polytracker/graphs.py
+++ b/polytracker/graphs.py
@@ -67,7 +67,7 @@ class DiGraph(nx.DiGraph, Generic[N]):
                 for _, x in sorted(
                     (d, n)
                     for n, d in nx.shortest_path_length(self, target=node).items()
-                    if n is not node
+                    if n != node
                 )
             )
         )
-- 
2.43.0


From f96bbf56450a77278267a8ec97dfc6e54d0c114d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:09:01 +0000
Subject: [PATCH 16/59] fix: DiGraph.contract lost nodes and edges

It looked up neighbours in the original graph rather than in the one being
contracted, so chains of merges resurrected removed nodes, the other successors
of the predecessor were dropped, and isolated nodes were never copied.
---
 polytracker/graphs.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/polytracker/graphs.py b/polytracker/graphs.py
index 330103f..b94b7c3 100644
--- a/polytracker/graphs.py
+++ b/polytracker/graphs.py
@@ -102,23 +102,29 @@ class DiGraph(nx.DiGraph, Generic[N]):
         """
         nodes: Set[N] = set(self.nodes)
         ret: D = self.__class__()
+        ret.add_nodes_from(self.nodes)
         ret.add_edges_from(self.edges)
         while nodes:
             node = next(iter(nodes))
             nodes.remove(node)
-            if self.has_one_predecessor(node):
-                pred: N = next(iter(self.predecessors(node)))
+            if ret.has_one_predecessor(node):
+                pred: N = next(iter(ret.predecessors(node)))
+                if pred == node:
+                    continue
                 new_node: N = union(pred, node)
-                incoming_nodes = list(self.predecessors(pred))
-                outgoing_nodes = list(self.successors(node))
-                ret.remove_nodes_from([pred, node])
+                merged = (pred, node)
+                incoming_nodes = [i for i in ret.predecessors(pred) if i not in merged]
+                outgoing_nodes = [
+                    o for m in merged for o in ret.successors(m) if o not in merged
+                ]
+                ret.remove_nodes_from(merged)
+                ret.add_node(new_node)
                 ret.add_edges_from(
                     [(i, new_node) for i in incoming_nodes]
                     + [(new_node, o) for o in outgoing_nodes]
                 )
-                if new_node is not pred:
-                    nodes.remove(pred)
-                    nodes.add(new_node)
+                nodes.discard(pred)
+                nodes.add(new_node)
         return ret
 
     def descendants(self, node: N) -> FrozenSet[N]:
-- 
2.43.0


From a05d5ca1cda3ffd1e0909be9e19fc59ec14bc715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:10:16 +0000
Subject: [PATCH 17/59] fix: OrderedSet's set operators returned a set holding
 a generator

The operators inherited from collections.abc.Set build their result with
_from_iterable, which by default passes the iterable as the only argument,
but OrderedSet takes its items as separate arguments.
---
 polytracker/cache.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/polytracker/cache.py b/polytracker/cache.py
index b3188da..f1b2865 100644
--- a/polytracker/cache.py
+++ b/polytracker/cache.py
@@ -30,6 +30,10 @@ class OrderedSet(Generic[R], AbstractMutableSet):  # type: ignore
         for i in items:
             self._items[i] = i
 
+    @classmethod
+    def _from_iterable(cls, it):
+        return cls(*it)
+
     def add(self, item: R):
         self._items[item] = item
 
-- 
2.43.0


From 65a3d021b50c5bc26c66fbcd9b3f01fcd4dc103a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:11 +0000
Subject: [PATCH 18/59] fix: pass the requested mode on to open, open64 and
 openat

---
 .../src/taint_sources/taint_sources.cpp       | 34 +++++++++++++------
 1 file changed, 24 insertions(+), 10 deletions(-)

diff --git a/polytracker/src/taint_sources/taint_sources.cpp b/polytracker/src/taint_sources/taint_sources.cpp
index fba8458..a056cbb 100644
--- a/polytracker/src/taint_sources/taint_sources.cpp
+++ b/polytracker/src/taint_sources/taint_sources.cpp
@@ -47,13 +47,18 @@ extern void polytracker_end();
 // Following the libc custom functions from custom.cc
 namespace {
 
-static int impl_open(const char *path, int oflags, dfsan_label path_label,
-                     dfsan_label flag_label, dfsan_label *va_labels,
-                     dfsan_label *ret_label, ...) {
-  va_list args;
-  va_start(args, ret_label);
-  int fd = open(path, oflags, args);
-  va_end(args);
+// The optional mode argument of the open-style functions. It is only present
+// when a file might be created.
+static mode_t get_open_mode(int oflags, va_list args) {
+  if ((oflags & O_CREAT) || (oflags & O_TMPFILE) == O_TMPFILE) {
+    return va_arg(args, mode_t);
+  }
+  return 0;
+}
+
+static int impl_open(const char *path, int oflags, mode_t mode,
+                     dfsan_label *ret_label) {
+  int fd = open(path, oflags, mode);
 
   if (fd >= 0) {
     get_polytracker_tdag().open_file(fd, path);
@@ -159,14 +164,22 @@ static size_t impl_fread(F &&fread_function, FILE *fd, void *buff, size_t size,
 EXT_C_FUNC int __dfsw_open(const char *path, int oflags, dfsan_label path_label,
                            dfsan_label flag_label, dfsan_label *va_labels,
                            dfsan_label *ret_label, ...) {
-  return impl_open(path, oflags, path_label, flag_label, va_labels, ret_label);
+  va_list args;
+  va_start(args, ret_label);
+  mode_t mode = get_open_mode(oflags, args);
+  va_end(args);
+  return impl_open(path, oflags, mode, ret_label);
 }
 
 EXT_C_FUNC int __dfsw_open64(const char *path, int oflags,
                              dfsan_label path_label, dfsan_label flag_label,
                              dfsan_label *va_labels, dfsan_label *ret_label,
                              ...) {
-  return impl_open(path, oflags, path_label, flag_label, va_labels, ret_label);
+  va_list args;
+  va_start(args, ret_label);
+  mode_t mode = get_open_mode(oflags, args);
+  va_end(args);
+  return impl_open(path, oflags, mode, ret_label);
 }
 
 EXT_C_FUNC int __dfsw_openat(int dirfd, const char *path, int oflags,
@@ -175,8 +188,9 @@ EXT_C_FUNC int __dfsw_openat(int dirfd, const char *path, int oflags,
                              ...) {
   va_list args;
   va_start(args, ret_label);
-  int fd = openat(dirfd, path, oflags, args);
+  mode_t mode = get_open_mode(oflags, args);
   va_end(args);
+  int fd = openat(dirfd, path, oflags, mode);
 
   if (fd >= 0) {
     get_polytracker_tdag().open_file(fd, path);
-- 
2.43.0


From 59335da33c10a10a28d2e4f0f01c0c793447ee44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:11 +0000
Subject: [PATCH 19/59] fix: log characters written by putc for any argument
 value

---
 polytracker/src/taint_sources/write_taints.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/polytracker/src/taint_sources/write_taints.cpp b/polytracker/src/taint_sources/write_taints.cpp
index 575cdb9..3d8a2a3 100644
--- a/polytracker/src/taint_sources/write_taints.cpp
+++ b/polytracker/src/taint_sources/write_taints.cpp
@@ -81,7 +81,7 @@ EXT_C_FUNC int __dfsw_putc(int ch, FILE *stream, dfsan_label ch_label,
                            dfsan_label stream_label, dfsan_label *ret_label) {
   auto offset = util::Offset::from_file(stream);
   auto ret = fputc(ch, stream);
-  if (ret == ch) {
+  if (ret != EOF) {
     get_polytracker_tdag().taint_sink(fileno(stream), offset, ch_label,
                                       sizeof(char));
   }
-- 
2.43.0


From e99ec5ef83377b5963cc923079d181059eaf08a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:11 +0000
Subject: [PATCH 20/59] fix: label bytes appended by strcat like the bytes they
 were copied from

---
 polytracker/src/taint_sources/string_taints.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/polytracker/src/taint_sources/string_taints.cpp b/polytracker/src/taint_sources/string_taints.cpp
index 7965a84..90f92c8 100644
--- a/polytracker/src/taint_sources/string_taints.cpp
+++ b/polytracker/src/taint_sources/string_taints.cpp
@@ -3,9 +3,15 @@
 // __dfsw_strcat
 EXT_C_FUNC char *__dfsw_strcat(char *dest, char *src, dfsan_label dest_label,
                                dfsan_label src_label, dfsan_label *ret_label) {
-  int curr_offset = strlen(dest) - 1;
+  char *end = dest + strlen(dest);
   char *ret_val = strcat(dest, src);
-  dfsan_set_label(src_label, dest + curr_offset, strlen(dest) - curr_offset);
+  // Every appended byte, including the terminator, has the label of the byte it
+  // was copied from.
+  size_t length = strlen(end) + 1;
+  for (size_t i = 0; i < length; i++) {
+    dfsan_set_label(dfsan_read_label(src + i, sizeof(char)), end + i,
+                    sizeof(char));
+  }
   *ret_label = dest_label;
   return ret_val;
 }
-- 
2.43.0


From aa59fb65a34ce67b921a671cc2d11dfdebef71e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:55 +0000
Subject: [PATCH 21/59] fix: don't change errno when determining the offset of
 a stream

---
 polytracker/src/taintdag/util.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/polytracker/src/taintdag/util.cpp b/polytracker/src/taintdag/util.cpp
index 0ed8f97..405cade 100644
--- a/polytracker/src/taintdag/util.cpp
+++ b/polytracker/src/taintdag/util.cpp
@@ -6,6 +6,7 @@
  * the LICENSE file found in the root directory of this source tree.
  */
 
+#include <errno.h>
 #include <stdio.h>
 #include <unistd.h>
 
@@ -60,11 +61,19 @@ std::optional<size_t> const &Length::value() const { return value_; }
 bool Length::valid() const { return value_.has_value(); }
 
 Offset Offset::from_fd(int fd) {
-  return Offset::from_off_t(lseek(fd, 0, SEEK_CUR));
+  // Not having an offset is not an error the program should see
+  auto saved_errno = errno;
+  auto offset = lseek(fd, 0, SEEK_CUR);
+  errno = saved_errno;
+  return Offset::from_off_t(offset);
 }
 
 Offset Offset::from_file(FILE *file) {
-  return Offset::from_off_t(ftello(file));
+  // Not having an offset is not an error the program should see
+  auto saved_errno = errno;
+  auto offset = ftello(file);
+  errno = saved_errno;
+  return Offset::from_off_t(offset);
 }
 
 Offset Offset::from_off_t(off_t offset_value) {
-- 
2.43.0


From 5b1f134ee630c5b6ec2170343e98913881ce7a1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:55 +0000
Subject: [PATCH 22/59] fix: don't take streams without a descriptor for
 sources without one

---
 polytracker/include/taintdag/taint_source.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/polytracker/include/taintdag/taint_source.h b/polytracker/include/taintdag/taint_source.h
index c55eec0..cfda73c 100644
--- a/polytracker/include/taintdag/taint_source.h
+++ b/polytracker/include/taintdag/taint_source.h
@@ -84,6 +84,10 @@ struct Sources : public FixedSizeAlloc<SourceEntry> {
   }
 
   std::optional<index_t> mapping_idx(int fd) const {
+    // Sources without a descriptor can't be identified by descriptor
+    if (fd == SourceEntry::InvalidFD) {
+      return {};
+    }
     if (auto ptr = find_reverse_if(
             [fd](SourceEntry const &se) { return se.fd == fd; })) {
       return index(*ptr);
-- 
2.43.0


From 90a5818b0e9de44e21517040bdc2e01202c3675c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:55 +0000
Subject: [PATCH 23/59] fix: a closed descriptor no longer represents the file
 it was opened for

---
 polytracker/include/taintdag/taint_source.h   | 19 ++++++++++++++++++-
 .../src/taint_sources/taint_sources.cpp       |  9 +++------
 polytracker/src/taintdag/polytracker.cpp      |  3 +--
 3 files changed, 22 insertions(+), 9 deletions(-)

diff --git a/polytracker/include/taintdag/taint_source.h b/polytracker/include/taintdag/taint_source.h
index cfda73c..a474b88 100644
--- a/polytracker/include/taintdag/taint_source.h
+++ b/polytracker/include/taintdag/taint_source.h
@@ -8,6 +8,8 @@
 
 #pragma once
 
+#include <array>
+#include <atomic>
 #include <limits>
 #include <optional>
 
@@ -90,11 +92,22 @@ struct Sources : public FixedSizeAlloc<SourceEntry> {
     }
     if (auto ptr = find_reverse_if(
             [fd](SourceEntry const &se) { return se.fd == fd; })) {
-      return index(*ptr);
+      auto idx = index(*ptr);
+      if (!closed_[idx].load(std::memory_order_acquire)) {
+        return idx;
+      }
     }
     return {};
   }
 
+  // The descriptor no longer represents a source. Call before the descriptor
+  // is actually closed, since it could be reused directly after that.
+  void close_source(int fd) {
+    if (auto idx = mapping_idx(fd)) {
+      closed_[*idx].store(true, std::memory_order_release);
+    }
+  }
+
   // TODO(hbrodin): idx is currently not checked to be within bounds.
   SourceEntry get(index_t idx) { return *(begin() + idx); }
 
@@ -110,6 +123,10 @@ private:
   }
 
   StringTable &st_;
+
+  // Tells which sources have been closed. Not part of the trace.
+  std::array<std::atomic<bool>, size_t{std::numeric_limits<index_t>::max()} + 1>
+      closed_{};
 };
 
 } // namespace taintdag
diff --git a/polytracker/src/taint_sources/taint_sources.cpp b/polytracker/src/taint_sources/taint_sources.cpp
index a056cbb..a92f5c0 100644
--- a/polytracker/src/taint_sources/taint_sources.cpp
+++ b/polytracker/src/taint_sources/taint_sources.cpp
@@ -214,22 +214,19 @@ EXT_C_FUNC FILE *__dfsw_fopen(const char *filename, const char *mode,
 
 EXT_C_FUNC int __dfsw_close(int fd, dfsan_label fd_label,
                             dfsan_label *ret_label) {
+  // The descriptor is released even if close reports an error
+  get_polytracker_tdag().close_file(fd);
   int ret = close(fd);
 
-  if (ret == 0)
-    get_polytracker_tdag().close_file(fd);
-
   *ret_label = 0;
   return ret;
 }
 
 EXT_C_FUNC int __dfsw_fclose(FILE *fd, dfsan_label fd_label,
                              dfsan_label *ret_label) {
-  int fno = fileno(fd);
+  get_polytracker_tdag().close_file(fileno(fd));
   int ret = fclose(fd);
 
-  if (ret == 0)
-    get_polytracker_tdag().close_file(fno);
   *ret_label = 0;
   return ret;
 }
diff --git a/polytracker/src/taintdag/polytracker.cpp b/polytracker/src/taintdag/polytracker.cpp
index e11ce8a..42df274 100644
--- a/polytracker/src/taintdag/polytracker.cpp
+++ b/polytracker/src/taintdag/polytracker.cpp
@@ -45,8 +45,7 @@ void PolyTracker::open_file(int fd, std::filesystem::path const &path) {
 }
 
 void PolyTracker::close_file(int fd) {
-  // TODO (hbrodin): Noop for now.
-  (void)fd;
+  output_file_.section<Sources>().close_source(fd);
 }
 
 taint_range_t PolyTracker::create_source_taint(source_index_t src,
-- 
2.43.0


From 09c941b1853178ccf7ab338d96b737165a7b3e71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:33:19 +0000
Subject: [PATCH 24/59] fix: data read from an untracked descriptor kept the
 labels of the data it replaced

---
 polytracker/src/taint_sources/taint_sources.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/polytracker/src/taint_sources/taint_sources.cpp b/polytracker/src/taint_sources/taint_sources.cpp
index a92f5c0..6bfdd9e 100644
--- a/polytracker/src/taint_sources/taint_sources.cpp
+++ b/polytracker/src/taint_sources/taint_sources.cpp
@@ -81,11 +81,15 @@ static FILE *impl_fopen(const char *filename, const char *mode,
 }
 
 // Wrapper method for tainting a buffer, from source `fd` at `offset` having
-// `length`. If length is invalid nothing happpens.
+// `length`. If length is invalid nothing happpens. If `fd` is not a taint source
+// the previous labels, belonging to the overwritten data, are removed.
 static void taint_source_buffer(int fd, void *buff, Offset offset,
                                 Length length, dfsan_label &ret_label) {
   if (length.valid()) {
-    get_polytracker_tdag().source_taint(fd, buff, offset, *length.value());
+    if (!get_polytracker_tdag().source_taint(fd, buff, offset,
+                                             *length.value())) {
+      dfsan_set_label(0, buff, *length.value());
+    }
   }
 
   ret_label = 0;
-- 
2.43.0


From affeaec93bda171fe399de63f936b57c9ae40e1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:33:19 +0000
Subject: [PATCH 25/59] fix: label what fgets read after a null byte, and
 nothing if nothing was read

---
 polytracker/src/taint_sources/taint_sources.cpp | 6 +++++-
 polytracker/src/taintdag/util.cpp               | 2 +-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/polytracker/src/taint_sources/taint_sources.cpp b/polytracker/src/taint_sources/taint_sources.cpp
index 6bfdd9e..aa66370 100644
--- a/polytracker/src/taint_sources/taint_sources.cpp
+++ b/polytracker/src/taint_sources/taint_sources.cpp
@@ -314,8 +314,12 @@ EXT_C_FUNC char *__dfsw_fgets(char *str, int count, FILE *fd,
   auto offset = Offset::from_file(fd);
   char *ret = fgets(str, count, fd);
   auto length = Length::from_returned_string(ret);
+  // The data might contain null bytes, rely on offsets if there are any
+  if (auto end = Offset::from_file(fd); ret && offset.valid() && end.valid()) {
+    length = Length::from_returned_size(*end.value() - *offset.value());
+  }
   taint_source_buffer(fileno(fd), str, offset, length, *ret_label);
-  if (length.valid()) {
+  if (ret) {
     *ret_label = str_label;
   }
   return ret;
diff --git a/polytracker/src/taintdag/util.cpp b/polytracker/src/taintdag/util.cpp
index 405cade..cdb0c2f 100644
--- a/polytracker/src/taintdag/util.cpp
+++ b/polytracker/src/taintdag/util.cpp
@@ -47,7 +47,7 @@ Length Length::from_returned_size_count(size_t size, size_t nitems) {
 }
 
 Length Length::from_returned_string(char const *str) {
-  if (str) {
+  if (str && *str) {
     return Length{std::string_view{str}.length()};
   } else {
     return Length{};
-- 
2.43.0


From 8e1c671a694886169a8663f615dbac24d563fc2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:33:19 +0000
Subject: [PATCH 26/59] fix: only label the part of a mapping that is backed by
 the file

---
 polytracker/src/taint_sources/taint_sources.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/polytracker/src/taint_sources/taint_sources.cpp b/polytracker/src/taint_sources/taint_sources.cpp
index aa66370..d27755e 100644
--- a/polytracker/src/taint_sources/taint_sources.cpp
+++ b/polytracker/src/taint_sources/taint_sources.cpp
@@ -377,8 +377,13 @@ EXT_C_FUNC void *__dfsw_mmap(void *start, size_t length, int prot, int flags,
                              dfsan_label offset_label, dfsan_label *ret_label) {
   auto offs = Offset::from_off_t(offset);
   void *ret = mmap(start, length, prot, flags, fd, offset);
-  if (ret != MAP_FAILED) {
-    get_polytracker_tdag().source_taint(fd, ret, offs, length);
+  // Only label what is part of the file, the rest of the mapping is not input
+  struct stat st;
+  if (ret != MAP_FAILED && !(flags & MAP_ANONYMOUS) && fstat(fd, &st) == 0 &&
+      offset < st.st_size) {
+    auto in_file = static_cast<size_t>(st.st_size - offset);
+    get_polytracker_tdag().source_taint(fd, ret, offs,
+                                        std::min(length, in_file));
   }
 
   *ret_label = 0;
-- 
2.43.0


From 3d5f5ff42b528bb5bea505eef204f377a468c528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:33:19 +0000
Subject: [PATCH 27/59] fix: a failed munmap removed the labels of the memory

---
 polytracker/src/taint_sources/taint_sources.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/polytracker/src/taint_sources/taint_sources.cpp b/polytracker/src/taint_sources/taint_sources.cpp
index d27755e..e94553c 100644
--- a/polytracker/src/taint_sources/taint_sources.cpp
+++ b/polytracker/src/taint_sources/taint_sources.cpp
@@ -396,7 +396,9 @@ EXT_C_FUNC int __dfsw_munmap(void *addr, size_t length, dfsan_label addr_label,
   fprintf(stderr, "### munmap, addr %p, length %zu \n", addr, length);
 #endif
   int ret = munmap(addr, length);
-  dfsan_set_label(0, addr, length);
+  if (ret == 0) {
+    dfsan_set_label(0, addr, length);
+  }
   *ret_label = 0;
   return ret;
 }
-- 
2.43.0


From dec97bdcf300304d9b2ee9ce1a09b82392ffcc70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:33:19 +0000
Subject: [PATCH 28/59] fix: log the offset at which appended data ends up

---
 .../src/taint_sources/write_taints.cpp        | 24 ++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/polytracker/src/taint_sources/write_taints.cpp b/polytracker/src/taint_sources/write_taints.cpp
index 3d8a2a3..9fa6805 100644
--- a/polytracker/src/taint_sources/write_taints.cpp
+++ b/polytracker/src/taint_sources/write_taints.cpp
@@ -39,6 +39,21 @@ void impl_taint_sink(int fd, util::Offset offset, util::Length length,
   }
 }
 
+// The offset at which the data just written starts
+//
+// Data written to a file opened for appending ends up at the end of the file,
+// whatever the offset was before. Use the offset after the write to find it.
+// `before` and `after` are the offsets before and after writing
+// `length` is the amount of data written
+util::Offset written_at(util::Offset before, util::Offset after,
+                        util::Length length) {
+  if (before.valid() && after.valid() && length.valid() &&
+      *after.value() >= *length.value()) {
+    return util::Offset::from_off_t(*after.value() - *length.value());
+  }
+  return before;
+}
+
 // Implementation wrapper for write/send-style functions
 //
 // `ret_label` is the return value label, will be cleared
@@ -51,7 +66,9 @@ ssize_t impl_write_send(dfsan_label &ret_label, int fd, void *buffer,
                         F &&write_func, Args... write_func_args) {
   auto offset = util::Offset::from_fd(fd);
   auto retval = write_func(write_func_args...);
-  impl_taint_sink(fd, offset, util::Length::from_returned_size(retval), buffer);
+  auto length = util::Length::from_returned_size(retval);
+  offset = written_at(offset, util::Offset::from_fd(fd), length);
+  impl_taint_sink(fd, offset, length, buffer);
   ret_label = 0;
   return retval;
 }
@@ -72,6 +89,9 @@ EXT_C_FUNC size_t __dfsw_fwrite(void *buf, size_t size, size_t count,
   auto offset = util::Offset::from_file(stream);
   auto write_count = fwrite(buf, size, count, stream);
   auto length = util::Length::from_returned_size_count(size, write_count);
+  if (write_count == count) {
+    offset = written_at(offset, util::Offset::from_file(stream), length);
+  }
   impl_taint_sink(fileno(stream), offset, length, buf);
   *ret_label = 0;
   return write_count;
@@ -82,6 +102,8 @@ EXT_C_FUNC int __dfsw_putc(int ch, FILE *stream, dfsan_label ch_label,
   auto offset = util::Offset::from_file(stream);
   auto ret = fputc(ch, stream);
   if (ret != EOF) {
+    offset = written_at(offset, util::Offset::from_file(stream),
+                        util::Length::from_returned_size(sizeof(char)));
     get_polytracker_tdag().taint_sink(fileno(stream), offset, ch_label,
                                       sizeof(char));
   }
-- 
2.43.0


From 021d3f2da31d090d2e12848b80e8ea356a268c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:33:19 +0000
Subject: [PATCH 29/59] fix: realloc read and wrote labels of memory outside of
 the allocations

---
 polytracker/src/taint_sources/memory_taints.cpp | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/polytracker/src/taint_sources/memory_taints.cpp b/polytracker/src/taint_sources/memory_taints.cpp
index 5372eef..b5e00d7 100644
--- a/polytracker/src/taint_sources/memory_taints.cpp
+++ b/polytracker/src/taint_sources/memory_taints.cpp
@@ -1,4 +1,6 @@
 #include "polytracker/taint_sources.h"
+#include <algorithm>
+#include <malloc.h>
 #include <vector>
 
 EXT_C_FUNC void *__dfsw_malloc(size_t size, dfsan_label size_label,
@@ -12,25 +14,20 @@ EXT_C_FUNC void *__dfsw_realloc(void *ptr, size_t new_size,
                                 dfsan_label ptr_label, dfsan_label size_label,
                                 dfsan_label *ret_label) {
 
-  // TODO (hbrodin): This is incorrect. There is not new_size bytes available
-  // (typically) but for now, lets just hope that the user of returned memory
-  // clears it (no undefined read). This might actually cause a read oob if at
-  // the end of shadow memory... Need to track all allocation sizes to only copy
-  // the amount of memory avail in the old allocation.
-  //
   // Make a copy of shadow memory/labels, in case we do actually move it
   // This could be a lot faster if we used the shadow_for function and did a
   // straight copy...
   std::vector<dfsan_label> shadow;
   auto oldptr = reinterpret_cast<char *>(ptr);
   if (oldptr != nullptr && new_size > 0) {
-    shadow.reserve(new_size);
-    std::transform(oldptr, oldptr + new_size, std::back_inserter(shadow),
+    auto copy_size = std::min(new_size, malloc_usable_size(ptr));
+    shadow.reserve(copy_size);
+    std::transform(oldptr, oldptr + copy_size, std::back_inserter(shadow),
                    [](char &v) { return dfsan_read_label(&v, sizeof(v)); });
   }
 
   void *new_mem = realloc(ptr, new_size);
-  if (new_mem != oldptr) {
+  if (new_mem != nullptr && new_mem != oldptr) {
     for (size_t i = 0; i < shadow.size(); i++) {
       dfsan_set_label(shadow[i], reinterpret_cast<char *>(new_mem) + i,
                       sizeof(char));
-- 
2.43.0


From 307c625c90b06e80d7c3036a16964dbd9584de27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:33:19 +0000
Subject: [PATCH 30/59] fix: branches taken before start-up were all made to
 depend on zero

---
 polytracker/src/polytracker/polytracker.cpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/polytracker/src/polytracker/polytracker.cpp b/polytracker/src/polytracker/polytracker.cpp
index 56064e3..f51d848 100644
--- a/polytracker/src/polytracker/polytracker.cpp
+++ b/polytracker/src/polytracker/polytracker.cpp
@@ -76,10 +76,7 @@ extern "C" void __polytracker_taint_argv(int argc, char *argv[]) {
 extern "C" uint64_t __dfsw___polytracker_log_tainted_control_flow(
     uint64_t conditional, uint32_t functionid, dfsan_label conditional_label,
     dfsan_label function_label, dfsan_label *ret_label) {
-  if (!polytracker_is_initialized()) {
-    return 0;
-  }
-  if (conditional_label > 0) {
+  if (polytracker_is_initialized() && conditional_label > 0) {
     get_polytracker_tdag().log_tainted_control_flow(conditional_label,
                                                     functionid);
   }
-- 
2.43.0


From ad1ab61444c1497baf8b62c02a58f73bee85db50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:34:19 +0000
Subject: [PATCH 31/59] fix: strchr never found characters given as unsigned
 char values above 127

---
 polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp b/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp
index fb001ba..9fa0de6 100644
--- a/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp
+++ b/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp
@@ -121,11 +121,12 @@ static char *dfsan_strchr_with_label(const char *s, int c, size_t *bytes_read,
                                      dfsan_label *ret_label) {
   char *match_pos = nullptr;
   for (size_t i = 0;; ++i) {
-    if (s[i] == c || s[i] == 0) {
+    if (s[i] == static_cast<char>(c) || s[i] == 0) {
       // If s[i] is the \0 at the end of the string, and \0 is not the
       // character we are searching for, then return null.
       *bytes_read = i + 1;
-      match_pos = s[i] == 0 && c != 0 ? nullptr : const_cast<char *>(s + i);
+      match_pos = s[i] == static_cast<char>(c) ? const_cast<char *>(s + i)
+                                               : nullptr;
       break;
     }
   }
-- 
2.43.0


From 819edf6f8be4a13ac9a23f7d20f19d907a915cd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:34:19 +0000
Subject: [PATCH 32/59] fix: memcmp and strcmp families compare bytes as
 unsigned values

---
 polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp b/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp
index 9fa0de6..e785819 100644
--- a/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp
+++ b/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp
@@ -206,7 +206,8 @@ SANITIZER_INTERFACE_ATTRIBUTE char *__dfso_strpbrk(
 
 static int dfsan_memcmp_bcmp(const void *s1, const void *s2, size_t n,
                              size_t *bytes_read) {
-  const char *cs1 = (const char *) s1, *cs2 = (const char *) s2;
+  const unsigned char *cs1 = (const unsigned char *)s1;
+  const unsigned char *cs2 = (const unsigned char *)s2;
   for (size_t i = 0; i != n; ++i) {
     if (cs1[i] != cs2[i]) {
       *bytes_read = i + 1;
@@ -306,7 +307,8 @@ static int dfsan_strncmp(const char *s1, const char *s2, size_t n,
   for (size_t i = 0;; ++i) {
     if (s1[i] != s2[i] || s1[i] == 0 || s2[i] == 0 || (n > 0 && i == n - 1)) {
       *bytes_read = i + 1;
-      return s1[i] - s2[i];
+      return static_cast<unsigned char>(s1[i]) -
+             static_cast<unsigned char>(s2[i]);
     }
   }
 }
@@ -355,7 +357,8 @@ static int dfsan_strncasecmp(const char *s1, const char *s2, size_t n,
     if (s1_lower != s2_lower || s1[i] == 0 || s2[i] == 0 ||
         (n > 0 && i == n - 1)) {
       *bytes_read = i + 1;
-      return s1_lower - s2_lower;
+      return static_cast<unsigned char>(s1_lower) -
+             static_cast<unsigned char>(s2_lower);
     }
   }
 }
-- 
2.43.0


From 38db1b4e74026b0fb54816a3d76fd96e1beaeb37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:34:19 +0000
Subject: [PATCH 33/59] fix: strncpy read its source beyond the limit

---
 polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp b/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp
index e785819..206d01f 100644
--- a/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp
+++ b/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp
@@ -655,7 +655,7 @@ SANITIZER_INTERFACE_ATTRIBUTE char *
 __dfsw_strncpy(char *s1, const char *s2, size_t n, dfsan_label s1_label,
                dfsan_label s2_label, dfsan_label n_label,
                dfsan_label *ret_label) {
-  size_t len = strlen(s2);
+  size_t len = strnlen(s2, n);
   if (len < n) {
     dfsan_memcpy(s1, s2, len+1);
     dfsan_memset(s1+len+1, 0, 0, n-len-1);
@@ -672,7 +672,7 @@ SANITIZER_INTERFACE_ATTRIBUTE char *__dfso_strncpy(
     dfsan_label s2_label, dfsan_label n_label, dfsan_label *ret_label,
     dfsan_origin s1_origin, dfsan_origin s2_origin, dfsan_origin n_origin,
     dfsan_origin *ret_origin) {
-  size_t len = strlen(s2);
+  size_t len = strnlen(s2, n);
   if (len < n) {
     dfsan_memcpy_with_origin(s1, s2, len + 1);
     dfsan_memset_with_origin(s1 + len + 1, 0, 0, 0, n - len - 1);
-- 
2.43.0


From a92ad0b457a2a98e1b2ef8e3f0cfa8a4e2ccda65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:34:19 +0000
Subject: [PATCH 34/59] fix: a failing calloc tried to label memory at address
 zero

---
 polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp b/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp
index 206d01f..4b11805 100644
--- a/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp
+++ b/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp
@@ -469,7 +469,8 @@ SANITIZER_INTERFACE_ATTRIBUTE void *__dfsw_calloc(size_t nmemb, size_t size,
                                                   dfsan_label size_label,
                                                   dfsan_label *ret_label) {
   void *p = calloc(nmemb, size);
-  dfsan_set_label(0, p, nmemb * size);
+  if (p)
+    dfsan_set_label(0, p, nmemb * size);
   *ret_label = 0;
   return p;
 }
-- 
2.43.0


From e86fe8551068d66648038f490e9a13b1b3647621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:34:19 +0000
Subject: [PATCH 35/59] fix: label all of the output of a truncated snprintf
 directive

---
 polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp b/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp
index 4b11805..00d9582 100644
--- a/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp
+++ b/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp
@@ -2222,7 +2222,7 @@ struct Formatter {
     // A return value of {v,}snprintf of size or more means that the output was
     // truncated.
     if (num_written >= num_avail) {
-      num_written -= num_avail;
+      num_written = num_avail - 1;
     }
 
     return num_written;
-- 
2.43.0


From 6b9b51dfda3f1f28d5308e65b2abf337cbc5f0f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:34:19 +0000
Subject: [PATCH 36/59] fix: terminate, without a label, the result of sprintf
 in any case

---
 polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp b/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp
index 00d9582..5dac096 100644
--- a/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp
+++ b/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp
@@ -2419,6 +2419,15 @@ static int format_buffer(char *str, size_t size, const char *fmt,
     formatter.str_off += retval;
   }
 
+  // The terminator is not part of any directive, and not written by any if the
+  // format is empty.
+  if (size > 0) {
+    char *terminator =
+        str + (formatter.str_off < size ? formatter.str_off : size - 1);
+    *terminator = '\0';
+    dfsan_set_label(0, terminator, sizeof(char));
+  }
+
   *ret_label = 0;
   if (ret_origin)
     *ret_origin = 0;
-- 
2.43.0


From b7c69b676abda6ffdc3e217d50cfe13a103285f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:43:55 +0000
Subject: [PATCH 37/59] fix: ending the program crashed if another thread was
 still running

---
 polytracker/include/taintdag/outputfile.h  | 6 ++++--
 polytracker/include/taintdag/polytracker.h | 3 +++
 polytracker/src/polytracker/main.cpp       | 5 +++--
 polytracker/src/taintdag/polytracker.cpp   | 2 ++
 4 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/polytracker/include/taintdag/outputfile.h b/polytracker/include/taintdag/outputfile.h
index 5a4930d..6390ecb 100644
--- a/polytracker/include/taintdag/outputfile.h
+++ b/polytracker/include/taintdag/outputfile.h
@@ -116,8 +116,10 @@ public:
     }
   }
 
-  ~OutputFile() {
-    // Update the memory actually used by each section
+  ~OutputFile() { update_sizes(); }
+
+  // Update the memory actually used by each section
+  void update_sizes() {
     // TODO(hbrodin): Consider other implementation strategies.
     size_t _[] = {
         file_header_
diff --git a/polytracker/include/taintdag/polytracker.h b/polytracker/include/taintdag/polytracker.h
index 751f6d1..2521178 100644
--- a/polytracker/include/taintdag/polytracker.h
+++ b/polytracker/include/taintdag/polytracker.h
@@ -31,6 +31,9 @@ class PolyTracker {
 public:
   PolyTracker(std::filesystem::path const &outputfile = "polytracker.tdag");
 
+  // Completes the output file, it will contain everything recorded so far
+  void flush();
+
   label_t union_labels(label_t l1, label_t l2);
 
   void open_file(int fd, std::filesystem::path const &path);
diff --git a/polytracker/src/polytracker/main.cpp b/polytracker/src/polytracker/main.cpp
index 9f09540..08f7698 100644
--- a/polytracker/src/polytracker/main.cpp
+++ b/polytracker/src/polytracker/main.cpp
@@ -102,8 +102,9 @@ void polytracker_end() {
   if (int f = fileno(stderr); f >= 0) {
     get_polytracker_tdag().close_file(f);
   }
-  // Explicitly destroy the PolyTracker instance to flush mapping to disk
-  get_polytracker_tdag().~PolyTracker();
+  // Only complete the output file. The instance, and the mapping of the output
+  // file, must stay since other threads might still use it.
+  get_polytracker_tdag().flush();
 }
 
 void polytracker_print_settings() {
diff --git a/polytracker/src/taintdag/polytracker.cpp b/polytracker/src/taintdag/polytracker.cpp
index 42df274..894c7b8 100644
--- a/polytracker/src/taintdag/polytracker.cpp
+++ b/polytracker/src/taintdag/polytracker.cpp
@@ -22,6 +22,8 @@ namespace taintdag {
 PolyTracker::PolyTracker(std::filesystem::path const &outputfile)
     : output_file_{outputfile} {}
 
+void PolyTracker::flush() { output_file_.update_sizes(); }
+
 label_t PolyTracker::union_labels(label_t l1, label_t l2) {
   return output_file_.section<Labels>().union_taint(l1, l2);
 }
-- 
2.43.0


From 136bb83083aa71cb326be8ea0d5a206d7f084daa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:43:55 +0000
Subject: [PATCH 38/59] fix: opening a file before start-up crashed

---
 polytracker/include/polytracker/polytracker.h |  3 +++
 polytracker/src/polytracker/polytracker.cpp   |  2 +-
 .../src/taint_sources/taint_sources.cpp       | 20 +++++++++++++------
 3 files changed, 18 insertions(+), 7 deletions(-)

diff --git a/polytracker/include/polytracker/polytracker.h b/polytracker/include/polytracker/polytracker.h
index 3aa9449..355e41a 100644
--- a/polytracker/include/polytracker/polytracker.h
+++ b/polytracker/include/polytracker/polytracker.h
@@ -26,5 +26,8 @@
 
 void taint_start();
 
+// Whether the runtime has been started, nothing can be recorded before that
+bool polytracker_is_initialized();
+
 // Controls argv being a taint source
 extern bool polytracker_taint_argv;
\ No newline at end of file
diff --git a/polytracker/src/polytracker/polytracker.cpp b/polytracker/src/polytracker/polytracker.cpp
index f51d848..87f5f29 100644
--- a/polytracker/src/polytracker/polytracker.cpp
+++ b/polytracker/src/polytracker/polytracker.cpp
@@ -13,7 +13,7 @@ EARLY_CONSTRUCT_EXTERN_GETTER(taintdag::PolyTracker, polytracker_tdag);
 
 static std::atomic_flag polytracker_init_flag = ATOMIC_FLAG_INIT;
 
-static bool polytracker_is_initialized() {
+bool polytracker_is_initialized() {
   return polytracker_init_flag.test(std::memory_order_relaxed);
 }
 
diff --git a/polytracker/src/taint_sources/taint_sources.cpp b/polytracker/src/taint_sources/taint_sources.cpp
index e94553c..7ba50c1 100644
--- a/polytracker/src/taint_sources/taint_sources.cpp
+++ b/polytracker/src/taint_sources/taint_sources.cpp
@@ -47,6 +47,14 @@ extern void polytracker_end();
 // Following the libc custom functions from custom.cc
 namespace {
 
+// Make a newly opened descriptor a taint source, unless it was opened before
+// start-up.
+static void track_file(int fd, std::filesystem::path const &path) {
+  if (polytracker_is_initialized()) {
+    get_polytracker_tdag().open_file(fd, path);
+  }
+}
+
 // The optional mode argument of the open-style functions. It is only present
 // when a file might be created.
 static mode_t get_open_mode(int oflags, va_list args) {
@@ -61,7 +69,7 @@ static int impl_open(const char *path, int oflags, mode_t mode,
   int fd = open(path, oflags, mode);
 
   if (fd >= 0) {
-    get_polytracker_tdag().open_file(fd, path);
+    track_file(fd, path);
   }
 
   *ret_label = 0;
@@ -73,7 +81,7 @@ static FILE *impl_fopen(const char *filename, const char *mode,
   FILE *fd = fopen(filename, mode);
 
   if (fd) {
-    get_polytracker_tdag().open_file(fileno(fd), filename);
+    track_file(fileno(fd), filename);
   }
 
   *ret_label = 0;
@@ -197,7 +205,7 @@ EXT_C_FUNC int __dfsw_openat(int dirfd, const char *path, int oflags,
   int fd = openat(dirfd, path, oflags, mode);
 
   if (fd >= 0) {
-    get_polytracker_tdag().open_file(fd, path);
+    track_file(fd, path);
   }
 
   *ret_label = 0;
@@ -484,7 +492,7 @@ EXT_C_FUNC int __dfsw_accept(int socket, struct sockaddr *address,
   int client_socket = accept(socket, address, address_len);
   if (client_socket >= 0) {
     if (auto name = connect_name(client_socket); name) {
-      get_polytracker_tdag().open_file(client_socket, *name);
+      track_file(client_socket, *name);
     }
   }
 
@@ -502,7 +510,7 @@ EXT_C_FUNC int __dfsw_accept4(int socket, struct sockaddr *address,
   int client_socket = accept4(socket, address, address_len, flags);
   if (client_socket >= 0) {
     if (auto name = connect_name(client_socket); name) {
-      get_polytracker_tdag().open_file(client_socket, *name);
+      track_file(client_socket, *name);
     }
   }
 
@@ -518,7 +526,7 @@ EXT_C_FUNC int __dfsw_connect(int socket, const struct sockaddr *address,
   int status = connect(socket, address, address_len);
   if (status == 0) {
     if (auto name = connect_name(socket); name) {
-      get_polytracker_tdag().open_file(socket, *name);
+      track_file(socket, *name);
     }
   }
 
-- 
2.43.0


From fc30974f0c0adb81b6793a4d56a6212623022036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:19 +0000
Subject: [PATCH 39/59] fix: sprintf lost the last character of each directive

A size beyond INT_MAX is not valid for snprintf: current versions of the C
library drop the last character then.
---
 polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp b/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp
index 5dac096..f997d41 100644
--- a/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp
+++ b/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp
@@ -2443,7 +2443,7 @@ int __dfsw_sprintf(char *str, const char *format, dfsan_label str_label,
                    dfsan_label *ret_label, ...) {
   va_list ap;
   va_start(ap, ret_label);
-  int ret = format_buffer(str, ~0ul, format, va_labels, ret_label, nullptr,
+  int ret = format_buffer(str, INT32_MAX, format, va_labels, ret_label, nullptr,
                           nullptr, ap);
   va_end(ap);
   return ret;
@@ -2457,7 +2457,7 @@ int __dfso_sprintf(char *str, const char *format, dfsan_label str_label,
                    dfsan_origin *ret_origin, ...) {
   va_list ap;
   va_start(ap, ret_origin);
-  int ret = format_buffer(str, ~0ul, format, va_labels, ret_label, va_origins,
+  int ret = format_buffer(str, INT32_MAX, format, va_labels, ret_label, va_origins,
                           ret_origin, ap);
   va_end(ap);
   return ret;
-- 
2.43.0


From b1408a4e01d14924ff0282ea018a14d29e17890e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:31:28 +0000
Subject: [PATCH 40/59] fix: memset filled 16-byte blocks with more than the
 low byte of the value

---
 .../src/compiler-rt/lib/sanitizer_common/sanitizer_libc.cpp     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/polytracker/src/compiler-rt/lib/sanitizer_common/sanitizer_libc.cpp b/polytracker/src/compiler-rt/lib/sanitizer_common/sanitizer_libc.cpp
index 4bc04b4..e0cb5ae 100644
--- a/polytracker/src/compiler-rt/lib/sanitizer_common/sanitizer_libc.cpp
+++ b/polytracker/src/compiler-rt/lib/sanitizer_common/sanitizer_libc.cpp
@@ -77,7 +77,7 @@ void *internal_memset(void* s, int c, uptr n) {
   if ((reinterpret_cast<uptr>(s) % 16) == 0 && (n % 16) == 0) {
     u64 *p = reinterpret_cast<u64*>(s);
     u64 *e = p + n / 8;
-    u64 v = c;
+    u64 v = static_cast<unsigned char>(c);
     v |= v << 8;
     v |= v << 16;
     v |= v << 32;
-- 
2.43.0


From 1321335a21067adc1ff4851422ad620541628911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:40:32 +0000
Subject: [PATCH 41/59] fix: a failed assertion before start-up crashed

---
 polytracker/src/taint_sources/taint_sources.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/polytracker/src/taint_sources/taint_sources.cpp b/polytracker/src/taint_sources/taint_sources.cpp
index 7ba50c1..321dedf 100644
--- a/polytracker/src/taint_sources/taint_sources.cpp
+++ b/polytracker/src/taint_sources/taint_sources.cpp
@@ -439,7 +439,9 @@ EXT_C_FUNC void __dfsw___assert_fail(const char *msg, const char *file,
                                      dfsan_label file_label,
                                      dfsan_label line_label,
                                      dfsan_label pretty_func_label) {
-  polytracker_end();
+  if (polytracker_is_initialized()) {
+    polytracker_end();
+  }
   __assert_fail(msg, file, line, pretty_func);
 }
 
-- 
2.43.0


From 3c7cb2ba41a6c7af72b22e2d3e47d5735b740a69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:51 +0000
Subject: [PATCH 42/59] fix: a grammar matched sentences of which it only
 derives the end

---
 polytracker/grammars.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/polytracker/grammars.py b/polytracker/grammars.py
index 54ff31c..338a566 100644
--- a/polytracker/grammars.py
+++ b/polytracker/grammars.py
@@ -706,7 +706,11 @@ class EarleyParser:
 
     @property
     def end_states(self) -> Iterator[EarleyState]:
-        return (s for s in self.states[-1] if s.finished and s.production == self.start)
+        return (
+            s
+            for s in self.states[-1]
+            if s.finished and s.index == 0 and s.production is self.start
+        )
 
     def parse(self) -> Iterator[ParseTree[ParseTreeValue]]:
         if not self.parsed:
-- 
2.43.0


From 0adde240e63e7b412a538b4337df99e7ea5b6cbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:51 +0000
Subject: [PATCH 43/59] fix: matching sentences with non-ASCII characters
 raised an IndexError

---
 polytracker/grammars.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/polytracker/grammars.py b/polytracker/grammars.py
index 338a566..137258e 100644
--- a/polytracker/grammars.py
+++ b/polytracker/grammars.py
@@ -699,7 +699,7 @@ class EarleyParser:
         else:
             self.start = start
         self.states: List[EarleyQueue] = [
-            EarleyQueue(self) for _ in range(len(sentence) + 1)
+            EarleyQueue(self) for _ in range(len(self.sentence) + 1)
         ]
         self.parsed: bool = False
         self.start_states: FrozenSet[Prediction] = frozenset()
-- 
2.43.0


From e93082ce8534935fd1c51dfed4db456ef3db15ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:51 +0000
Subject: [PATCH 44/59] fix: grammar matching mixed up productions that have
 the same rules

---
 polytracker/grammars.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/polytracker/grammars.py b/polytracker/grammars.py
index 137258e..891baf0 100644
--- a/polytracker/grammars.py
+++ b/polytracker/grammars.py
@@ -507,7 +507,7 @@ class Prediction(EarleyState):
                 self.index == other.index
                 and self.parsed == other.parsed
                 and self.expected == other.expected
-                and self.production == other.production
+                and self.production.name == other.production.name
             )
         else:
             return False
-- 
2.43.0


From 6ac27943f6ec6014f51ac289bf533b8601b68f76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:51 +0000
Subject: [PATCH 45/59] fix: parse trees of ambiguous grammars combined parts
 that don't fit together

---
 polytracker/grammars.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/polytracker/grammars.py b/polytracker/grammars.py
index 891baf0..c3b1ac3 100644
--- a/polytracker/grammars.py
+++ b/polytracker/grammars.py
@@ -546,7 +546,7 @@ class EmptyProduction(EarleyState):
 
 
 class Completion(EarleyState):
-    __slots__ = "completed_by"
+    __slots__ = "completed_by", "split"
 
     def __init__(
         self,
@@ -554,15 +554,19 @@ class Completion(EarleyState):
         parsed: Tuple[Symbol, ...],
         expected: Tuple[Symbol, ...],
         index: int,
+        split: int,
     ):
         super().__init__(
             prediction=prediction, parsed=parsed, expected=expected, index=index
         )
+        # where the last parsed symbol begins, i.e., where all predecessors end
+        self.split: int = split
         self.completed_by: Set[EarleyState] = set()
 
     __hash__ = EarleyState.__hash__  # type: ignore
 
-    __eq__ = EarleyState.__eq__  # type: ignore
+    def __eq__(self, other):
+        return EarleyState.__eq__(self, other) and self.split == other.split
 
     __ne__ = EarleyState.__ne__  # type: ignore
 
@@ -622,6 +626,7 @@ class EarleyQueue:
             parsed=state.parsed + completed.parsed,
             expected=state.expected[1:],
             index=state.index,
+            split=completed.index,
         )
         self.add(new_state, left_sibling=state).completed_by.add(completed)
 
-- 
2.43.0


From 006584ff61928e8855dc94b18768f84fe24713a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:05 +0000
Subject: [PATCH 46/59] fix: simplifying a grammar removed productions that had
 just received a terminal

---
 polytracker/grammars.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/polytracker/grammars.py b/polytracker/grammars.py
index c3b1ac3..8dd8f6f 100644
--- a/polytracker/grammars.py
+++ b/polytracker/grammars.py
@@ -102,6 +102,7 @@ class Rule:
                 new_seq.append(s)
         if modified:
             self.sequence = Rule.combine_terminals(new_seq)
+            self.has_terminals = any(isinstance(t, Terminal) for t in self.sequence)
         return modified
 
     def __hash__(self):
-- 
2.43.0


From cca0d8c688f544d5353c20ca8b007f79fbb50139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:40:26 +0000
Subject: [PATCH 47/59] fix: route getdelim, __getdelim, fgetc_unlocked and
 _IO_getc to their wrappers

The ABI list left them without a kind, so instrumented programs called the plain
functions and what they read carried no label.
---
 polytracker/custom_abi/dfsan_abilist.txt | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/polytracker/custom_abi/dfsan_abilist.txt b/polytracker/custom_abi/dfsan_abilist.txt
index ff1afb5..8a9bdb0 100644
--- a/polytracker/custom_abi/dfsan_abilist.txt
+++ b/polytracker/custom_abi/dfsan_abilist.txt
@@ -438,6 +438,7 @@ fun:_IO_ftrylockfile=uninstrumented
 fun:_IO_funlockfile=uninstrumented
 fun:_IO_fwrite=uninstrumented
 fun:_IO_getc=uninstrumented
+fun:_IO_getc=custom
 fun:_IO_getline=uninstrumented
 fun:_IO_getline_info=uninstrumented
 fun:_IO_gets=uninstrumented
@@ -1077,6 +1078,7 @@ fun:__get_cpu_features=uninstrumented
 fun:__getauxval=uninstrumented
 fun:__getcwd_chk=uninstrumented
 fun:__getdelim=uninstrumented
+fun:__getdelim=custom
 fun:__getdomainname_chk=uninstrumented
 fun:__getf2=uninstrumented
 fun:__getgroups_chk=uninstrumented
@@ -2110,6 +2112,7 @@ fun:ffsll=uninstrumented
 fun:fgetc=uninstrumented
 fun:fgetc=custom
 fun:fgetc_unlocked=uninstrumented
+fun:fgetc_unlocked=custom
 fun:fgetgrent=uninstrumented
 fun:fgetgrent_r=uninstrumented
 fun:fgetpos=uninstrumented
@@ -2264,6 +2267,7 @@ fun:getcwd=uninstrumented
 fun:getdate=uninstrumented
 fun:getdate_r=uninstrumented
 fun:getdelim=uninstrumented
+fun:getdelim=custom
 fun:getdirentries=uninstrumented
 fun:getdirentries64=uninstrumented
 fun:getdomainname=uninstrumented
-- 
2.43.0


From 5af80eba39aee4249a61a30ae0ef06a30f21901f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:40:26 +0000
Subject: [PATCH 48/59] fix: make files opened with openat sources and sinks

The ABI list did not route openat to its wrapper, and the wrapper lacked the label
of the directory argument.
---
 polytracker/custom_abi/dfsan_abilist.txt        | 1 +
 polytracker/src/taint_sources/taint_sources.cpp | 6 +++---
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/polytracker/custom_abi/dfsan_abilist.txt b/polytracker/custom_abi/dfsan_abilist.txt
index 8a9bdb0..2f129c0 100644
--- a/polytracker/custom_abi/dfsan_abilist.txt
+++ b/polytracker/custom_abi/dfsan_abilist.txt
@@ -2878,6 +2878,7 @@ fun:open_by_handle_at=uninstrumented
 fun:open_memstream=uninstrumented
 fun:open_wmemstream=uninstrumented
 fun:openat=uninstrumented
+fun:openat=custom
 fun:openat64=uninstrumented
 fun:opendir=uninstrumented
 fun:openlog=uninstrumented
diff --git a/polytracker/src/taint_sources/taint_sources.cpp b/polytracker/src/taint_sources/taint_sources.cpp
index 321dedf..c088c8e 100644
--- a/polytracker/src/taint_sources/taint_sources.cpp
+++ b/polytracker/src/taint_sources/taint_sources.cpp
@@ -195,9 +195,9 @@ EXT_C_FUNC int __dfsw_open64(const char *path, int oflags,
 }
 
 EXT_C_FUNC int __dfsw_openat(int dirfd, const char *path, int oflags,
-                             dfsan_label path_label, dfsan_label flag_label,
-                             dfsan_label *va_labels, dfsan_label *ret_label,
-                             ...) {
+                             dfsan_label dirfd_label, dfsan_label path_label,
+                             dfsan_label flag_label, dfsan_label *va_labels,
+                             dfsan_label *ret_label, ...) {
   va_list args;
   va_start(args, ret_label);
   mode_t mode = get_open_mode(oflags, args);
-- 
2.43.0


From 6743586457953b059534bead8a03c275c4984b39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:40:46 +0000
Subject: [PATCH 49/59] fix: give _IO_putc its wrapper

The ABI list names _IO_putc custom but the wrapper was called __dfsw__putc, so
programs using _IO_putc did not link; it did not log what it wrote either.
---
 polytracker/src/taint_sources/taint_sources.cpp | 6 ------
 polytracker/src/taint_sources/write_taints.cpp  | 6 ++++++
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/polytracker/src/taint_sources/taint_sources.cpp b/polytracker/src/taint_sources/taint_sources.cpp
index c088c8e..3e2a9f3 100644
--- a/polytracker/src/taint_sources/taint_sources.cpp
+++ b/polytracker/src/taint_sources/taint_sources.cpp
@@ -411,12 +411,6 @@ EXT_C_FUNC int __dfsw_munmap(void *addr, size_t length, dfsan_label addr_label,
   return ret;
 }
 
-EXT_C_FUNC int __dfsw__putc(int __c, FILE *__fp, dfsan_label c_label,
-                            dfsan_label fp_label, dfsan_label *ret_label) {
-  *ret_label = 0;
-  return putc(__c, __fp);
-}
-
 EXT_C_FUNC int __dfsw_pthread_cond_broadcast(pthread_cond_t *cond,
                                              dfsan_label cond_label,
                                              dfsan_label *ret_label) {
diff --git a/polytracker/src/taint_sources/write_taints.cpp b/polytracker/src/taint_sources/write_taints.cpp
index 9fa6805..78d067b 100644
--- a/polytracker/src/taint_sources/write_taints.cpp
+++ b/polytracker/src/taint_sources/write_taints.cpp
@@ -116,6 +116,12 @@ EXT_C_FUNC int __dfsw_fputc(int ch, FILE *stream, dfsan_label ch_label,
   return __dfsw_putc(ch, stream, ch_label, stream_label, ret_label);
 }
 
+EXT_C_FUNC int __dfsw__IO_putc(int ch, FILE *stream, dfsan_label ch_label,
+                               dfsan_label stream_label,
+                               dfsan_label *ret_label) {
+  return __dfsw_putc(ch, stream, ch_label, stream_label, ret_label);
+}
+
 // Socket functions
 EXT_C_FUNC ssize_t __dfsw_send(int socket, void *buffer, size_t length,
                                int flags, dfsan_label socket_label,
-- 
2.43.0


From 88b3cdb9f8c02a1ea42ab8f45e151874e5b1aa5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:40:46 +0000
Subject: [PATCH 50/59] fix: route memory-filling functions to their wrappers

memmove, recvmsg, recvmmsg, epoll_wait, getpeername, getsockname, getsockopt and
sigaltstack had wrappers but no kind in the ABI list, so labels of the memory they
write were not updated; strpbrk was listed as functional instead of custom.
---
 polytracker/custom_abi/dfsan_abilist.txt | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/polytracker/custom_abi/dfsan_abilist.txt b/polytracker/custom_abi/dfsan_abilist.txt
index 2f129c0..1ea493c 100644
--- a/polytracker/custom_abi/dfsan_abilist.txt
+++ b/polytracker/custom_abi/dfsan_abilist.txt
@@ -2012,6 +2012,7 @@ fun:epoll_create1=uninstrumented
 fun:epoll_ctl=uninstrumented
 fun:epoll_pwait=uninstrumented
 fun:epoll_wait=uninstrumented
+fun:epoll_wait=custom
 fun:erand48=uninstrumented
 fun:erand48_r=uninstrumented
 fun:erf=uninstrumented
@@ -2323,6 +2324,7 @@ fun:getopt_long_only=uninstrumented
 fun:getpagesize=uninstrumented
 fun:getpass=uninstrumented
 fun:getpeername=uninstrumented
+fun:getpeername=custom
 fun:getpgid=uninstrumented
 fun:getpgrp=uninstrumented
 fun:getpid=uninstrumented
@@ -2370,7 +2372,9 @@ fun:getsgnam=uninstrumented
 fun:getsgnam_r=uninstrumented
 fun:getsid=uninstrumented
 fun:getsockname=uninstrumented
+fun:getsockname=custom
 fun:getsockopt=uninstrumented
+fun:getsockopt=custom
 fun:getsourcefilter=uninstrumented
 fun:getspent=uninstrumented
 fun:getspent_r=uninstrumented
@@ -2694,6 +2698,7 @@ fun:memcpy=uninstrumented
 fun:memfrob=uninstrumented
 fun:memmem=uninstrumented
 fun:memmove=uninstrumented
+fun:memmove=custom
 fun:mempcpy=uninstrumented
 fun:memrchr=uninstrumented
 fun:memset=uninstrumented
@@ -3150,7 +3155,9 @@ fun:recv=custom
 fun:recvfrom=uninstrumented
 fun:recvfrom=custom
 fun:recvmmsg=uninstrumented
+fun:recvmmsg=custom
 fun:recvmsg=uninstrumented
+fun:recvmsg=custom
 fun:regcomp=uninstrumented
 fun:regerror=uninstrumented
 fun:regexec=uninstrumented
@@ -3321,6 +3328,7 @@ fun:shutdown=uninstrumented
 fun:sigaction=uninstrumented
 fun:sigaddset=uninstrumented
 fun:sigaltstack=uninstrumented
+fun:sigaltstack=custom
 fun:sigandset=uninstrumented
 fun:sigblock=uninstrumented
 fun:sigdelset=uninstrumented
@@ -3422,7 +3430,7 @@ fun:strncpy=uninstrumented
 fun:strndup=uninstrumented
 fun:strnlen=uninstrumented
 fun:strpbrk=uninstrumented
-fun:strpbrk=functional
+fun:strpbrk=custom
 fun:strptime=uninstrumented
 fun:strptime_l=uninstrumented
 fun:strrchr=uninstrumented
-- 
2.43.0


From 6e505ed2940c39f33c5a8758841221f81768af45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:44:09 +0000
Subject: [PATCH 51/59] fix: instrumenting a main without argv read past its
 parameters

Function::getArg does not return null for a missing parameter; main(int) crashed
the pass.
---
 polytracker/src/passes/taint_tracking.cpp | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/polytracker/src/passes/taint_tracking.cpp b/polytracker/src/passes/taint_tracking.cpp
index 266cfa7..2339975 100644
--- a/polytracker/src/passes/taint_tracking.cpp
+++ b/polytracker/src/passes/taint_tracking.cpp
@@ -31,18 +31,14 @@ namespace {
 // interprets first arg as argc and second as argv.
 static void emitTaintArgvCall(llvm::Function &main) {
   // Get the parameters of the main function, argc, argv
-  auto argc = main.getArg(0);
-  if (!argc) {
-    spdlog::error("Failed to instrument argv. No argc available.");
+  if (main.arg_size() < 2) {
+    spdlog::error("Failed to instrument argv. No argc and argv available.");
     return;
   }
+  auto argc = main.getArg(0);
   auto argc_ty = argc->getType();
 
   auto argv = main.getArg(1);
-  if (!argv) {
-    spdlog::error("Failed to instrument argv. No argv available.");
-    return;
-  }
   auto argv_ty = argv->getType();
 
   // IRBuilder for emitting a call to __polytracker_taint_argv. Need to
-- 
2.43.0


From 29c586d540b86a60f989b4968a23da0a3c7561c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:46:18 +0000
Subject: [PATCH 52/59] fix: instrumenting address computations on vectors
 broke the module

pt-tcf passed vectors of indices to its log function and pt-taint took an element
of a scalar index when only the base is a vector.
---
 polytracker/src/passes/taint_tracking.cpp       | 2 +-
 polytracker/src/passes/tainted_control_flow.cpp | 4 ++++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/polytracker/src/passes/taint_tracking.cpp b/polytracker/src/passes/taint_tracking.cpp
index 2339975..96d73db 100644
--- a/polytracker/src/passes/taint_tracking.cpp
+++ b/polytracker/src/passes/taint_tracking.cpp
@@ -69,7 +69,7 @@ void TaintTrackingPass::insertCondBrLogCall(llvm::Instruction &inst,
                                             llvm::Value *val) {
   llvm::IRBuilder<> ir(&inst);
   auto dummy_val{val};
-  if (inst.getType()->isVectorTy()) {
+  if (val->getType()->isVectorTy()) {
     dummy_val = ir.CreateExtractElement(val, uint64_t(0));
   }
   ir.CreateCall(cond_br_log_fn, {ir.CreateSExtOrTrunc(dummy_val, label_ty)});
diff --git a/polytracker/src/passes/tainted_control_flow.cpp b/polytracker/src/passes/tainted_control_flow.cpp
index d814279..0120072 100644
--- a/polytracker/src/passes/tainted_control_flow.cpp
+++ b/polytracker/src/passes/tainted_control_flow.cpp
@@ -94,6 +94,10 @@ void TaintedControlFlowPass::visitGetElementPtrInst(
     if (llvm::isa<llvm::ConstantInt>(idx)) {
       continue;
     }
+    // Can't handle vectors of indices, see visitSelectInst.
+    if (idx->getType()->isVectorTy()) {
+      continue;
+    }
 
     auto callret = ir.CreateCall(cond_br_log_fn,
                                  {ir.CreateSExtOrTrunc(idx, ir.getInt64Ty()),
-- 
2.43.0


From 75ddf23c92f81336d13d2fdf46eb3f4a54c3e5e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:46:18 +0000
Subject: [PATCH 53/59] fix: pt-tcf cut switch conditions wider than 64 bits

A switch on a 128-bit value took another case once it was instrumented.
---
 polytracker/src/passes/tainted_control_flow.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/polytracker/src/passes/tainted_control_flow.cpp b/polytracker/src/passes/tainted_control_flow.cpp
index 0120072..37783ea 100644
--- a/polytracker/src/passes/tainted_control_flow.cpp
+++ b/polytracker/src/passes/tainted_control_flow.cpp
@@ -130,7 +130,11 @@ void TaintedControlFlowPass::visitSwitchInst(llvm::SwitchInst &si) {
       cond_br_log_fn,
       {ir.CreateSExtOrTrunc(cond, ir.getInt64Ty()), get_function_id_const(si)});
 
-  si.setCondition(ir.CreateSExtOrTrunc(callret, cond->getType()));
+  // The log function returns 64 bits, a wider condition would lose its upper
+  // part.
+  if (cond->getType()->getIntegerBitWidth() <= 64) {
+    si.setCondition(ir.CreateSExtOrTrunc(callret, cond->getType()));
+  }
 }
 
 void TaintedControlFlowPass::visitSelectInst(llvm::SelectInst &si) {
-- 
2.43.0


From fe74bf5929201964d70d29075faefcf6f36898cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:47:44 +0000
Subject: [PATCH 54/59] fix: functionid.json was not valid JSON for some
 function names

Names were written without escaping: those with an asm label start with \\01, others
may contain quotes or backslashes.
---
 .../src/passes/tainted_control_flow.cpp       | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/polytracker/src/passes/tainted_control_flow.cpp b/polytracker/src/passes/tainted_control_flow.cpp
index 37783ea..ba90d68 100644
--- a/polytracker/src/passes/tainted_control_flow.cpp
+++ b/polytracker/src/passes/tainted_control_flow.cpp
@@ -11,6 +11,8 @@
 #include <llvm/IR/Attributes.h>
 #include <llvm/IR/IRBuilder.h>
 #include <llvm/Support/CommandLine.h>
+#include <llvm/Support/JSON.h>
+#include <llvm/Support/raw_ostream.h>
 #include <llvm/Transforms/Utils/ModuleUtils.h>
 
 #include <spdlog/spdlog.h>
@@ -31,21 +33,20 @@ public:
     file << "[";
   }
 
-  ~FunctionMappingJSONWriter() {
-    // Back up and erase the last ",\n"
-    file.seekp(-2, std::ios::cur);
-    file << "\n]\n";
-  }
+  ~FunctionMappingJSONWriter() { file << "\n]\n"; }
 
   void append(std::string_view name) {
-    // Will cause an additional ',' but don't care about that right now...
-    // The destructor will back up two steps and replace the ',' with a newline
-    // and array termination.
-    file << "\"" << name << "\",\n";
+    std::string text;
+    llvm::raw_string_ostream os(text);
+    os << llvm::json::Value(
+        llvm::json::fixUTF8(llvm::StringRef(name.data(), name.size())));
+    file << separator << os.str();
+    separator = ",\n";
   }
 
 private:
   std::ofstream file;
+  const char *separator = "";
 };
 } // namespace detail
 
-- 
2.43.0


From 3b9a80e4d19afdc2b753bdfca1f1e944deebe0cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:20:42 +0000
Subject: [PATCH 55/59] fix: values lost their taint at freeze instructions

---
 polytracker/src/passes/DataFlowSanitizer.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/polytracker/src/passes/DataFlowSanitizer.cpp b/polytracker/src/passes/DataFlowSanitizer.cpp
index 7549fb3..1c31a78 100644
--- a/polytracker/src/passes/DataFlowSanitizer.cpp
+++ b/polytracker/src/passes/DataFlowSanitizer.cpp
@@ -733,6 +733,7 @@ public:
   void visitInstOperands(Instruction &I);
 
   void visitUnaryOperator(UnaryOperator &UO);
+  void visitFreezeInst(FreezeInst &FI);
   void visitBinaryOperator(BinaryOperator &BO);
   void visitCastInst(CastInst &CI);
   void visitCmpInst(CmpInst &CI);
@@ -2661,6 +2662,8 @@ void DFSanVisitor::visitUnaryOperator(UnaryOperator &UO) {
   visitInstOperands(UO);
 }
 
+void DFSanVisitor::visitFreezeInst(FreezeInst &FI) { visitInstOperands(FI); }
+
 void DFSanVisitor::visitBinaryOperator(BinaryOperator &BO) {
   visitInstOperands(BO);
 }
-- 
2.43.0


From dd1635eef866dcd25a7ffea945bf3e727f85e011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:14:57 +0000
Subject: [PATCH 56/59] fix: report input properties of traces that leave bytes
 unread

---
 polytracker/tracing.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/polytracker/tracing.py b/polytracker/tracing.py
index af81d7d..d9e0b53 100644
--- a/polytracker/tracing.py
+++ b/polytracker/tracing.py
@@ -1107,7 +1107,9 @@ class ProgramTrace(ABC):
             for previous_offset, (previous, first_used) in enumerate(
                 zip(first_usages, first_usages[1:])
             )
-            if previous > first_used  # type: ignore
+            if previous is not None
+            and first_used is not None
+            and previous > first_used
         ]
         return InputProperties(
             unused_byte_offsets=unused_bytes,
-- 
2.43.0


From 00584d0e1e5d67070f4b391712ae2b03a69b15fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:14:57 +0000
Subject: [PATCH 57/59] fix: find the next function entry beyond the
 returned-to block instead of looping forever

---
 polytracker/tracing.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/polytracker/tracing.py b/polytracker/tracing.py
index d9e0b53..7e29ccc 100644
--- a/polytracker/tracing.py
+++ b/polytracker/tracing.py
@@ -1201,6 +1201,7 @@ class ProgramTrace(ABC):
         while next_event is not None:
             if isinstance(next_event, FunctionEntry):
                 return next_event
+            next_event = next_event.next_control_flow_event
         return None
 
     @property
-- 
2.43.0


From 78f90e63a0c0f949674c9db3f96931d97cd8efbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:52:49 +0000
Subject: [PATCH 58/59] fix: name an entry without blocks by its event instead
 of recursing forever

---
 polytracker/tracing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/polytracker/tracing.py b/polytracker/tracing.py
index 7e29ccc..d0724e4 100644
--- a/polytracker/tracing.py
+++ b/polytracker/tracing.py
@@ -674,7 +674,7 @@ class FunctionEntry(FunctionEvent):
         """
         if self.entrypoint is None:
             raise ValueError(
-                f"Unable to determine the function entrypoint for {self!r}"
+                f"Unable to determine the function entrypoint for event {self.uid}"
             )
         return self.entrypoint.basic_block
 
@@ -683,7 +683,7 @@ class FunctionEntry(FunctionEvent):
         """Returns the function that was called"""
         if self.entrypoint is None:
             raise ValueError(
-                f"Unable to determine the function entrypoint for {self!r}"
+                f"Unable to determine the function entrypoint for event {self.uid}"
             )
         return self.entrypoint.function
 
-- 
2.43.0


From 7e5a8639807400a0bfffa59cc7465b4ffe32f2a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:56:45 +0000
Subject: [PATCH 59/59] fix: separate the children of a parse tree before, not
 after, each one when printing it

---
 polytracker/parsing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/polytracker/parsing.py b/polytracker/parsing.py
index d6c86b5..1bb80cd 100644
--- a/polytracker/parsing.py
+++ b/polytracker/parsing.py
@@ -112,9 +112,9 @@ class ParseTree(ABC, Generic[V]):
                     ret = f"{ret}{value_name} ["
                     stack.append("]")
                 for i, c in reversed(list(enumerate(n.children))):
+                    stack.append(c)
                     if i > 0:
                         stack.append(" ")
-                    stack.append(c)
         return ret
 
 
-- 
2.43.0

