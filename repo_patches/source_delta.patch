From 868df30461b1b591b8e8e0e4dc5795f288cff273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:09:09 +0000
Subject: [PATCH 01/29] fix: putc/fputc log the sink for every successfully
 written character

fputc returns the character converted to unsigned char, so comparing the
result with the int argument misses e.g. putc((char)0xe9, f) and takes a
failing putc(EOF, f) for a success.
---
 polytracker/src/taint_sources/write_taints.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/polytracker/src/taint_sources/write_taints.cpp b/polytracker/src/taint_sources/write_taints.cpp
index 575cdb9..3d8a2a3 100644
--- a/polytracker/src/taint_sources/write_taints.cpp
+++ b/polytracker/src/taint_sources/write_taints.cpp
@@ -81,7 +81,7 @@ EXT_C_FUNC int __dfsw_putc(int ch, FILE *stream, dfsan_label ch_label,
                            dfsan_label stream_label, dfsan_label *ret_label) {
   auto offset = util::Offset::from_file(stream);
   auto ret = fputc(ch, stream);
-  if (ret == ch) {
+  if (ret != EOF) {
     get_polytracker_tdag().taint_sink(fileno(stream), offset, ch_label,
                                       sizeof(char));
   }
-- 
2.43.0


From c69898b961489990ba1271e7a805ad2451cf97d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:09:09 +0000
Subject: [PATCH 02/29] fix: a full sink section stops the program instead of
 dropping records

---
 polytracker/include/taintdag/sink.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/polytracker/include/taintdag/sink.h b/polytracker/include/taintdag/sink.h
index 4f786bc..00815e1 100644
--- a/polytracker/include/taintdag/sink.h
+++ b/polytracker/include/taintdag/sink.h
@@ -33,7 +33,9 @@ struct TaintSinkBase : public FixedSizeAlloc<SinkLogEntry> {
   TaintSinkBase(SectionArg<OF> of) : FixedSizeAlloc{of.range} {}
 
   void log_single(sink_offset_t offset, label_t label, sink_index_t idx) {
-    construct(offset, label, idx);
+    if (!construct(offset, label, idx)) {
+      error_exit("Failed to log sink entry, the sink section is full.");
+    }
   }
 };
 
-- 
2.43.0


From 1f7a9c2ff20b3445e9fbf11bfff1c5290e68869f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:09:09 +0000
Subject: [PATCH 03/29] fix: open_file stops the program when the source cannot
 be recorded

---
 polytracker/src/taintdag/polytracker.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/polytracker/src/taintdag/polytracker.cpp b/polytracker/src/taintdag/polytracker.cpp
index 65b683a..1302a18 100644
--- a/polytracker/src/taintdag/polytracker.cpp
+++ b/polytracker/src/taintdag/polytracker.cpp
@@ -37,7 +37,9 @@ void PolyTracker::open_file(int fd, std::filesystem::path const &path) {
   // TODO (hbrodin): If we decide to separate sources and sinks, extend this
   // method to accept a direction parameter e.g. in, inout, out and make an
   // additional call to add a sink.
-  output_file_.section<Sources>().add_source(path.string(), fd, size);
+  if (!output_file_.section<Sources>().add_source(path.string(), fd, size)) {
+    error_exit("Failed to add taint source: ", path.string());
+  }
 }
 
 void PolyTracker::close_file(int fd) {
-- 
2.43.0


From 684702fde5b78f419ace98db4c7980a73956be5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:09:09 +0000
Subject: [PATCH 04/29] fix: create_taint_source stops the program when the
 source cannot be recorded

Its only caller (taint_argv) ignores the result, so arguments beyond the
capacity of the sources section silently lost their taint.
---
 polytracker/src/taintdag/polytracker.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/polytracker/src/taintdag/polytracker.cpp b/polytracker/src/taintdag/polytracker.cpp
index 1302a18..9bd3882 100644
--- a/polytracker/src/taintdag/polytracker.cpp
+++ b/polytracker/src/taintdag/polytracker.cpp
@@ -121,6 +121,7 @@ PolyTracker::create_taint_source(std::string_view name,
     return this->create_source_taint(*source_index, dst, 0);
   }
   // Failed to add a new source
+  error_exit("Failed to add taint source: ", name);
   return {};
 }
 
-- 
2.43.0


From 0fabd5579fdb9c46d4aba2336dd2e661e0f6199a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:09:09 +0000
Subject: [PATCH 05/29] fix: create_source_labels stops the program when labels
 run out

It dereferenced the empty optional.
---
 polytracker/include/taintdag/labels.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/polytracker/include/taintdag/labels.h b/polytracker/include/taintdag/labels.h
index 66fcb5b..d9a926e 100644
--- a/polytracker/include/taintdag/labels.h
+++ b/polytracker/include/taintdag/labels.h
@@ -41,7 +41,9 @@ struct Labels : public FixedSizeAlloc<storage_t> {
         construct_range(length, [src, &offset](uint8_t *p) mutable {
           new (p) storage_t{encode(SourceTaint{src, offset++})};
         });
-    // TODO(hbrodin): Check valid return
+    if (!maybe_range) {
+      error_exit("Failed to create ", length, " source labels.");
+    }
     auto first = index(*maybe_range->begin());
     auto last = first + length - 1;
     return {first, last};
-- 
2.43.0


From 20d4701d728bf355fbc94b14d80e1713556e82c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:09:09 +0000
Subject: [PATCH 06/29] fix: mapping_idx(-1) does not match sources that have
 no descriptor

An anonymous mmap (fd -1) was registered as a read from the last argv source.
---
 polytracker/include/taintdag/taint_source.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/polytracker/include/taintdag/taint_source.h b/polytracker/include/taintdag/taint_source.h
index c55eec0..a0f6a2e 100644
--- a/polytracker/include/taintdag/taint_source.h
+++ b/polytracker/include/taintdag/taint_source.h
@@ -84,6 +84,10 @@ struct Sources : public FixedSizeAlloc<SourceEntry> {
   }
 
   std::optional<index_t> mapping_idx(int fd) const {
+    // Sources without a descriptor (e.g. argv) are never looked up by fd
+    if (fd == SourceEntry::InvalidFD) {
+      return {};
+    }
     if (auto ptr = find_reverse_if(
             [fd](SourceEntry const &se) { return se.fd == fd; })) {
       return index(*ptr);
-- 
2.43.0


From b7b3203f37897860d7c38caeeca451c86dccb001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:09:09 +0000
Subject: [PATCH 07/29] fix: tainted control flow callback returns its
 condition before start-up

The instrumented branch uses the returned value, so branches in global
constructors were always taken as false.
---
 polytracker/src/polytracker/polytracker.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/polytracker/src/polytracker/polytracker.cpp b/polytracker/src/polytracker/polytracker.cpp
index 56064e3..6e22a44 100644
--- a/polytracker/src/polytracker/polytracker.cpp
+++ b/polytracker/src/polytracker/polytracker.cpp
@@ -77,7 +77,8 @@ extern "C" uint64_t __dfsw___polytracker_log_tainted_control_flow(
     uint64_t conditional, uint32_t functionid, dfsan_label conditional_label,
     dfsan_label function_label, dfsan_label *ret_label) {
   if (!polytracker_is_initialized()) {
-    return 0;
+    *ret_label = conditional_label;
+    return conditional;
   }
   if (conditional_label > 0) {
     get_polytracker_tdag().log_tainted_control_flow(conditional_label,
-- 
2.43.0


From 4bf416e54428f50a666311eb65cdbbfab751c727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:09:09 +0000
Subject: [PATCH 08/29] fix: open, open64 and openat pass the mode argument
 through

The va_list itself was passed as mode, so files were created with
arbitrary permissions.
---
 .../src/taint_sources/taint_sources.cpp       | 45 +++++++++++++------
 1 file changed, 32 insertions(+), 13 deletions(-)

diff --git a/polytracker/src/taint_sources/taint_sources.cpp b/polytracker/src/taint_sources/taint_sources.cpp
index fba8458..f6d1f19 100644
--- a/polytracker/src/taint_sources/taint_sources.cpp
+++ b/polytracker/src/taint_sources/taint_sources.cpp
@@ -47,13 +47,14 @@ extern void polytracker_end();
 // Following the libc custom functions from custom.cc
 namespace {
 
-static int impl_open(const char *path, int oflags, dfsan_label path_label,
-                     dfsan_label flag_label, dfsan_label *va_labels,
-                     dfsan_label *ret_label, ...) {
-  va_list args;
-  va_start(args, ret_label);
-  int fd = open(path, oflags, args);
-  va_end(args);
+// Returns true if the open-style call has a mode argument
+static bool has_mode(int oflags) {
+  return (oflags & O_CREAT) || (oflags & O_TMPFILE) == O_TMPFILE;
+}
+
+static int impl_open(const char *path, int oflags, mode_t mode,
+                     dfsan_label *ret_label) {
+  int fd = open(path, oflags, mode);
 
   if (fd >= 0) {
     get_polytracker_tdag().open_file(fd, path);
@@ -159,24 +160,42 @@ static size_t impl_fread(F &&fread_function, FILE *fd, void *buff, size_t size,
 EXT_C_FUNC int __dfsw_open(const char *path, int oflags, dfsan_label path_label,
                            dfsan_label flag_label, dfsan_label *va_labels,
                            dfsan_label *ret_label, ...) {
-  return impl_open(path, oflags, path_label, flag_label, va_labels, ret_label);
+  mode_t mode = 0;
+  if (has_mode(oflags)) {
+    va_list args;
+    va_start(args, ret_label);
+    mode = va_arg(args, mode_t);
+    va_end(args);
+  }
+  return impl_open(path, oflags, mode, ret_label);
 }
 
 EXT_C_FUNC int __dfsw_open64(const char *path, int oflags,
                              dfsan_label path_label, dfsan_label flag_label,
                              dfsan_label *va_labels, dfsan_label *ret_label,
                              ...) {
-  return impl_open(path, oflags, path_label, flag_label, va_labels, ret_label);
+  mode_t mode = 0;
+  if (has_mode(oflags)) {
+    va_list args;
+    va_start(args, ret_label);
+    mode = va_arg(args, mode_t);
+    va_end(args);
+  }
+  return impl_open(path, oflags, mode, ret_label);
 }
 
 EXT_C_FUNC int __dfsw_openat(int dirfd, const char *path, int oflags,
                              dfsan_label path_label, dfsan_label flag_label,
                              dfsan_label *va_labels, dfsan_label *ret_label,
                              ...) {
-  va_list args;
-  va_start(args, ret_label);
-  int fd = openat(dirfd, path, oflags, args);
-  va_end(args);
+  mode_t mode = 0;
+  if (has_mode(oflags)) {
+    va_list args;
+    va_start(args, ret_label);
+    mode = va_arg(args, mode_t);
+    va_end(args);
+  }
+  int fd = openat(dirfd, path, oflags, mode);
 
   if (fd >= 0) {
     get_polytracker_tdag().open_file(fd, path);
-- 
2.43.0


From 7ec651a79359b01ea716b333f03776c59ed154e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:14 +0000
Subject: [PATCH 09/29] fix: control-flow log events of functions that are not
 on the call stack

An entry whose function was entered before the log started, or by another
thread, made the reader fail with an IndexError (leave) or lose the function
(tainted branch).
---
 polytracker/taint_dag.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/polytracker/taint_dag.py b/polytracker/taint_dag.py
index 744e576..6a459cd 100644
--- a/polytracker/taint_dag.py
+++ b/polytracker/taint_dag.py
@@ -242,7 +242,10 @@ class TDControlFlowLogSection:
                     function_id, callstack
                 )
 
-                # TODO(hbrodin): If the callstack doesn't contain function_id at all, this will break.
+                # The function was entered before the log started, or by another thread
+                if not callstack:
+                    callstack.append(function_id)
+
                 yield TDLeaveFunctionEvent(callstack[:])
                 callstack.pop()
             else:
@@ -251,6 +254,10 @@ class TDControlFlowLogSection:
                     function_id, callstack
                 )
 
+                # The function was entered before the log started, or by another thread
+                if not callstack:
+                    callstack.append(function_id)
+
                 label, buffer = TDControlFlowLogSection._decode_varint(buffer)
                 yield TDTaintedControlFlowEvent(callstack[:], label)
 
-- 
2.43.0


From 7349379d2814a91d930985b700bd651a80494bc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:43 +0000
Subject: [PATCH 10/29] fix: cavities of a file opened several times with
 different sizes

Merging the markers of several openings stopped at the shortest one, so
that everything behind it was left out of the result.
---
 polytracker/mapping.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/polytracker/mapping.py b/polytracker/mapping.py
index 845015b..0a80149 100644
--- a/polytracker/mapping.py
+++ b/polytracker/mapping.py
@@ -3,6 +3,7 @@ This module maps input byte offsets to output byte offsets
 """
 
 from collections import defaultdict
+from itertools import zip_longest
 from pathlib import Path
 from typing import Dict, Iterator, List, Optional, Set, Tuple
 from tqdm import tqdm
@@ -143,7 +144,9 @@ class InputOutputMapping:
         for k, v in markers.items():
             fname = self.tdfile.fd_headers[k][0]
             if fname in merged:
-                merged[fname] = bytes(a | b for (a, b) in zip(merged[fname], v))
+                merged[fname] = bytes(
+                    a | b for (a, b) in zip_longest(merged[fname], v, fillvalue=0)
+                )
             else:
                 merged[fname] = bytes(v)
 
-- 
2.43.0


From ae14ae5307b7d6a8995a16e47f8b0e9b89dc4f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:30:12 +0000
Subject: [PATCH 11/29] fix: pad trace sections up to their alignment

do_allocation() advanced the allocation pointer by (address % align), which
only yields an aligned address when the remainder is 0 or align/2. Sections
following one of odd size were placed at a misaligned offset, contradicting
the alignment recorded in their header.
---
 polytracker/include/taintdag/outputfile.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/polytracker/include/taintdag/outputfile.h b/polytracker/include/taintdag/outputfile.h
index 752bba1..0b91b04 100644
--- a/polytracker/include/taintdag/outputfile.h
+++ b/polytracker/include/taintdag/outputfile.h
@@ -142,7 +142,8 @@ private:
   template <typename T> std::span<uint8_t> do_allocation() {
     constexpr auto idx = util::TypeIndex<T, std::tuple<Sections...>>::index;
     constexpr auto align = T::align_of;
-    auto begin = alloc_ptr_ + (reinterpret_cast<uintptr_t>(alloc_ptr_) % align);
+    auto misalignment = reinterpret_cast<uintptr_t>(alloc_ptr_) % align;
+    auto begin = alloc_ptr_ + (misalignment ? align - misalignment : 0);
     auto end = alloc_ptr_ = begin + T::allocation_size;
     file_header_->sections[idx].offset = begin - mapped_memory_.begin;
     return {begin, end};
-- 
2.43.0


From 636f229d1f32689d6f335ed3bf76e2620b24b919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:45:43 +0000
Subject: [PATCH 12/29] fix: bitmap ranges whose end wraps around are beyond
 capacity

---
 polytracker/include/taintdag/bitmap_section.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/polytracker/include/taintdag/bitmap_section.h b/polytracker/include/taintdag/bitmap_section.h
index c024d89..2818f01 100644
--- a/polytracker/include/taintdag/bitmap_section.h
+++ b/polytracker/include/taintdag/bitmap_section.h
@@ -112,7 +112,7 @@ public:
       return;
     if (bit_begin >= BitCapacity)
       error_exit("Trying to set bit beyond capacity.");
-    if (bit_begin + n > BitCapacity)
+    if (n > BitCapacity - bit_begin)
       error_exit("Trying to set bit beyond capacity.");
 
     auto current_bucket = bucket_index(bit_begin);
-- 
2.43.0


From 15204a6209e723a5b8a79bfd76b2c1a6afd1d061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:45:43 +0000
Subject: [PATCH 13/29] fix: a bitmap range that ends on a bucket boundary uses
 no further bucket

---
 polytracker/include/taintdag/bitmap_section.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/polytracker/include/taintdag/bitmap_section.h b/polytracker/include/taintdag/bitmap_section.h
index 2818f01..3f38320 100644
--- a/polytracker/include/taintdag/bitmap_section.h
+++ b/polytracker/include/taintdag/bitmap_section.h
@@ -115,6 +115,7 @@ public:
     if (n > BitCapacity - bit_begin)
       error_exit("Trying to set bit beyond capacity.");
 
+    const auto last_bucket = bucket_index(bit_begin + n - 1);
     auto current_bucket = bucket_index(bit_begin);
     const auto bucket_bit_start = bit_begin % bits_per_bucket;
 
@@ -154,7 +155,7 @@ public:
       set_bits(bucket(current_bucket), mask_post);
     }
     // NOTE(hbrodin): See the comment in set about potential inconsistency.
-    update_buckets_used(current_bucket);
+    update_buckets_used(last_bucket);
   }
 
   // Returns wheter the bit designated by bitno is set or not.
-- 
2.43.0


From e119b8c008d64027a66432765e5b3540e5f1d981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:36:31 +0000
Subject: [PATCH 14/29] fix: strcat wrapper copies the labels of the appended
 bytes

The label of the src pointer was assigned to the appended bytes, starting one
byte too early (and before the start of dest when dest was empty).
---
 polytracker/src/taint_sources/string_taints.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/polytracker/src/taint_sources/string_taints.cpp b/polytracker/src/taint_sources/string_taints.cpp
index 7965a84..c87cd2a 100644
--- a/polytracker/src/taint_sources/string_taints.cpp
+++ b/polytracker/src/taint_sources/string_taints.cpp
@@ -3,9 +3,15 @@
 // __dfsw_strcat
 EXT_C_FUNC char *__dfsw_strcat(char *dest, char *src, dfsan_label dest_label,
                                dfsan_label src_label, dfsan_label *ret_label) {
-  int curr_offset = strlen(dest) - 1;
+  size_t dest_len = strlen(dest);
   char *ret_val = strcat(dest, src);
-  dfsan_set_label(src_label, dest + curr_offset, strlen(dest) - curr_offset);
+  // Each appended byte (and the terminator) carries the label of the byte it
+  // was copied from. The existing bytes of dest keep theirs.
+  size_t appended = strlen(src) + 1;
+  for (size_t i = 0; i < appended; i++) {
+    dfsan_set_label(dfsan_read_label(src + i, sizeof(char)),
+                    dest + dest_len + i, sizeof(char));
+  }
   *ret_label = dest_label;
   return ret_val;
 }
-- 
2.43.0


From f5450dba2b12c8b337d8ee0252b279fb0890d505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:36:52 +0000
Subject: [PATCH 15/29] fix: realloc wrapper copies only the labels of
 preserved bytes

Labels beyond the end of the old allocation were read and assigned, and a
failing realloc assigned labels to the null page.
---
 .../src/taint_sources/memory_taints.cpp       | 29 +++++++++----------
 1 file changed, 13 insertions(+), 16 deletions(-)

diff --git a/polytracker/src/taint_sources/memory_taints.cpp b/polytracker/src/taint_sources/memory_taints.cpp
index 5372eef..87b6251 100644
--- a/polytracker/src/taint_sources/memory_taints.cpp
+++ b/polytracker/src/taint_sources/memory_taints.cpp
@@ -1,4 +1,6 @@
 #include "polytracker/taint_sources.h"
+#include <algorithm>
+#include <malloc.h>
 #include <vector>
 
 EXT_C_FUNC void *__dfsw_malloc(size_t size, dfsan_label size_label,
@@ -12,26 +14,21 @@ EXT_C_FUNC void *__dfsw_realloc(void *ptr, size_t new_size,
                                 dfsan_label ptr_label, dfsan_label size_label,
                                 dfsan_label *ret_label) {
 
-  // TODO (hbrodin): This is incorrect. There is not new_size bytes available
-  // (typically) but for now, lets just hope that the user of returned memory
-  // clears it (no undefined read). This might actually cause a read oob if at
-  // the end of shadow memory... Need to track all allocation sizes to only copy
-  // the amount of memory avail in the old allocation.
-  //
-  // Make a copy of shadow memory/labels, in case we do actually move it
-  // This could be a lot faster if we used the shadow_for function and did a
-  // straight copy...
-  std::vector<dfsan_label> shadow;
+  // realloc preserves the bytes that fit both in the old and in the new
+  // allocation. Make a copy of their labels, in case the memory is moved.
   auto oldptr = reinterpret_cast<char *>(ptr);
-  if (oldptr != nullptr && new_size > 0) {
-    shadow.reserve(new_size);
-    std::transform(oldptr, oldptr + new_size, std::back_inserter(shadow),
-                   [](char &v) { return dfsan_read_label(&v, sizeof(v)); });
+  size_t preserved = 0;
+  if (oldptr != nullptr) {
+    preserved = std::min(new_size, malloc_usable_size(ptr));
+  }
+  std::vector<dfsan_label> shadow(preserved);
+  for (size_t i = 0; i < preserved; i++) {
+    shadow[i] = dfsan_read_label(oldptr + i, sizeof(char));
   }
 
   void *new_mem = realloc(ptr, new_size);
-  if (new_mem != oldptr) {
-    for (size_t i = 0; i < shadow.size(); i++) {
+  if (new_mem != nullptr && new_mem != oldptr) {
+    for (size_t i = 0; i < preserved; i++) {
       dfsan_set_label(shadow[i], reinterpret_cast<char *>(new_mem) + i,
                       sizeof(char));
     }
-- 
2.43.0


From 486924bd9e934330fe1502a3271fb167ae938bb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:36:52 +0000
Subject: [PATCH 16/29] fix: calloc wrapper does not set labels when calloc
 fails

A failing calloc returned through a write to the shadow of the null page.
---
 polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp b/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp
index fb001ba..853772b 100644
--- a/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp
+++ b/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp
@@ -465,7 +465,8 @@ SANITIZER_INTERFACE_ATTRIBUTE void *__dfsw_calloc(size_t nmemb, size_t size,
                                                   dfsan_label size_label,
                                                   dfsan_label *ret_label) {
   void *p = calloc(nmemb, size);
-  dfsan_set_label(0, p, nmemb * size);
+  if (p)
+    dfsan_set_label(0, p, nmemb * size);
   *ret_label = 0;
   return p;
 }
-- 
2.43.0


From b9ac9ea4ec477b47c6924b5dda388d91ef2f7f61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:36:52 +0000
Subject: [PATCH 17/29] fix: strdup wrapper returns null when the allocation
 fails

---
 polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp b/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp
index 853772b..0220f8b 100644
--- a/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp
+++ b/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp
@@ -631,7 +631,8 @@ SANITIZER_INTERFACE_ATTRIBUTE char *
 __dfsw_strdup(const char *s, dfsan_label s_label, dfsan_label *ret_label) {
   size_t len = strlen(s);
   void *p = malloc(len+1);
-  dfsan_memcpy(p, s, len+1);
+  if (p)
+    dfsan_memcpy(p, s, len+1);
   *ret_label = 0;
   return static_cast<char *>(p);
 }
@@ -643,7 +644,8 @@ SANITIZER_INTERFACE_ATTRIBUTE char *__dfso_strdup(const char *s,
                                                   dfsan_origin *ret_origin) {
   size_t len = strlen(s);
   void *p = malloc(len + 1);
-  dfsan_memcpy_with_origin(p, s, len + 1);
+  if (p)
+    dfsan_memcpy_with_origin(p, s, len + 1);
   *ret_label = 0;
   return static_cast<char *>(p);
 }
-- 
2.43.0


From 08baeb47d07157c2aad04e7f1f74a3b48184b9ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:36:52 +0000
Subject: [PATCH 18/29] fix: sanitizer strcat wrapper copies the label of the
 terminator

The terminating byte kept the label of the byte it overwrote.
---
 polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp b/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp
index 0220f8b..73c9550 100644
--- a/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp
+++ b/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp
@@ -605,7 +605,7 @@ SANITIZER_INTERFACE_ATTRIBUTE char *__dfsw_strcat(char *dest, const char *src,
   dfsan_label *sdest = shadow_for(dest + dest_len);
   const dfsan_label *ssrc = shadow_for(src);
   internal_memcpy((void *)sdest, (const void *)ssrc,
-                  strlen(src) * sizeof(dfsan_label));
+                  (strlen(src) + 1) * sizeof(dfsan_label));
   *ret_label = dest_label;
   return ret;
 }
@@ -618,7 +618,7 @@ SANITIZER_INTERFACE_ATTRIBUTE char *__dfso_strcat(
   char *ret = strcat(dest, src);  // NOLINT
   dfsan_label *sdest = shadow_for(dest + dest_len);
   const dfsan_label *ssrc = shadow_for(src);
-  size_t src_len = strlen(src);
+  size_t src_len = strlen(src) + 1;
   dfsan_mem_origin_transfer(dest + dest_len, src, src_len);
   internal_memcpy((void *)sdest, (const void *)ssrc,
                   src_len * sizeof(dfsan_label));
-- 
2.43.0


From 5a8e210d98fa12aceb87d0e548756fb3b6414a12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:36:52 +0000
Subject: [PATCH 19/29] fix: select wrapper accepts a null timeout

select without a timeout crashed on the shadow of the null page.
---
 polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp b/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp
index 73c9550..a59e202 100644
--- a/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp
+++ b/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp
@@ -1526,7 +1526,9 @@ int __dfsw_select(int nfds, fd_set *readfds, fd_set *writefds,
   if (exceptfds) {
     dfsan_set_label(0, exceptfds, sizeof(fd_set));
   }
-  dfsan_set_label(0, timeout, sizeof(struct timeval));
+  if (timeout) {
+    dfsan_set_label(0, timeout, sizeof(struct timeval));
+  }
   *ret_label = 0;
   return ret;
 }
-- 
2.43.0


From 5650af24e4c55639e6a99f299e98ca623f66ceed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:36:52 +0000
Subject: [PATCH 20/29] fix: nanosleep wrapper accepts a null remaining time

An interrupted nanosleep without a place for the remaining time crashed.
---
 polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp b/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp
index a59e202..ee84a28 100644
--- a/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp
+++ b/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp
@@ -1916,7 +1916,7 @@ SANITIZER_INTERFACE_ATTRIBUTE int __dfsw_nanosleep(const struct timespec *req,
                                                    dfsan_label *ret_label) {
   int ret = nanosleep(req, rem);
   *ret_label = 0;
-  if (ret == -1) {
+  if (ret == -1 && rem) {
     // Interrupted by a signal, rem is filled with the remaining time.
     dfsan_set_label(0, rem, sizeof(struct timespec));
   }
-- 
2.43.0


From 9d94fc6c70fbd973298e9c29f9871d1e64b1d16b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:01 +0000
Subject: [PATCH 21/29] fix: strncpy wrapper reads at most n bytes of the
 source

The source of strncpy need not be terminated; its length was taken without a bound.
---
 polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp b/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp
index ee84a28..098c9c1 100644
--- a/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp
+++ b/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp
@@ -654,7 +654,7 @@ SANITIZER_INTERFACE_ATTRIBUTE char *
 __dfsw_strncpy(char *s1, const char *s2, size_t n, dfsan_label s1_label,
                dfsan_label s2_label, dfsan_label n_label,
                dfsan_label *ret_label) {
-  size_t len = strlen(s2);
+  size_t len = internal_strnlen(s2, n);
   if (len < n) {
     dfsan_memcpy(s1, s2, len+1);
     dfsan_memset(s1+len+1, 0, 0, n-len-1);
@@ -671,7 +671,7 @@ SANITIZER_INTERFACE_ATTRIBUTE char *__dfso_strncpy(
     dfsan_label s2_label, dfsan_label n_label, dfsan_label *ret_label,
     dfsan_origin s1_origin, dfsan_origin s2_origin, dfsan_origin n_origin,
     dfsan_origin *ret_origin) {
-  size_t len = strlen(s2);
+  size_t len = internal_strnlen(s2, n);
   if (len < n) {
     dfsan_memcpy_with_origin(s1, s2, len + 1);
     dfsan_memset_with_origin(s1 + len + 1, 0, 0, 0, n - len - 1);
-- 
2.43.0


From b2d03423f8c747cfd22137fd10c1ca0d7bab7e4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:06:59 +0000
Subject: [PATCH 22/29] fix: openat wrapper takes the label of the directory
 descriptor

---
 polytracker/src/taint_sources/taint_sources.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/polytracker/src/taint_sources/taint_sources.cpp b/polytracker/src/taint_sources/taint_sources.cpp
index f6d1f19..381b7c8 100644
--- a/polytracker/src/taint_sources/taint_sources.cpp
+++ b/polytracker/src/taint_sources/taint_sources.cpp
@@ -185,9 +185,9 @@ EXT_C_FUNC int __dfsw_open64(const char *path, int oflags,
 }
 
 EXT_C_FUNC int __dfsw_openat(int dirfd, const char *path, int oflags,
-                             dfsan_label path_label, dfsan_label flag_label,
-                             dfsan_label *va_labels, dfsan_label *ret_label,
-                             ...) {
+                             dfsan_label dirfd_label, dfsan_label path_label,
+                             dfsan_label flag_label, dfsan_label *va_labels,
+                             dfsan_label *ret_label, ...) {
   mode_t mode = 0;
   if (has_mode(oflags)) {
     va_list args;
-- 
2.43.0


From 275efc34e274f902ed28e40aa46eeb6aca5c3aca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:06:59 +0000
Subject: [PATCH 23/29] fix: sprintf and snprintf wrappers set the return label
 when formatting fails

---
 polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp b/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp
index 098c9c1..d81d99b 100644
--- a/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp
+++ b/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp
@@ -2412,6 +2412,9 @@ static int format_buffer(char *str, size_t size, const char *fmt,
     }
 
     if (retval < 0) {
+      *ret_label = 0;
+      if (ret_origin)
+        *ret_origin = 0;
       return retval;
     }
 
-- 
2.43.0


From 67406387b80b4e1e720d4553bccc6c39608b10e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:06:59 +0000
Subject: [PATCH 24/29] fix: _IO_putc has a wrapper and is recorded like putc

---
 polytracker/src/taint_sources/taint_sources.cpp | 6 ------
 polytracker/src/taint_sources/write_taints.cpp  | 6 ++++++
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/polytracker/src/taint_sources/taint_sources.cpp b/polytracker/src/taint_sources/taint_sources.cpp
index 381b7c8..aa285a6 100644
--- a/polytracker/src/taint_sources/taint_sources.cpp
+++ b/polytracker/src/taint_sources/taint_sources.cpp
@@ -396,12 +396,6 @@ EXT_C_FUNC int __dfsw_munmap(void *addr, size_t length, dfsan_label addr_label,
   return ret;
 }
 
-EXT_C_FUNC int __dfsw__putc(int __c, FILE *__fp, dfsan_label c_label,
-                            dfsan_label fp_label, dfsan_label *ret_label) {
-  *ret_label = 0;
-  return putc(__c, __fp);
-}
-
 EXT_C_FUNC int __dfsw_pthread_cond_broadcast(pthread_cond_t *cond,
                                              dfsan_label cond_label,
                                              dfsan_label *ret_label) {
diff --git a/polytracker/src/taint_sources/write_taints.cpp b/polytracker/src/taint_sources/write_taints.cpp
index 3d8a2a3..28966e9 100644
--- a/polytracker/src/taint_sources/write_taints.cpp
+++ b/polytracker/src/taint_sources/write_taints.cpp
@@ -94,6 +94,12 @@ EXT_C_FUNC int __dfsw_fputc(int ch, FILE *stream, dfsan_label ch_label,
   return __dfsw_putc(ch, stream, ch_label, stream_label, ret_label);
 }
 
+EXT_C_FUNC int __dfsw__IO_putc(int ch, FILE *stream, dfsan_label ch_label,
+                               dfsan_label stream_label,
+                               dfsan_label *ret_label) {
+  return __dfsw_putc(ch, stream, ch_label, stream_label, ret_label);
+}
+
 // Socket functions
 EXT_C_FUNC ssize_t __dfsw_send(int socket, void *buffer, size_t length,
                                int flags, dfsan_label socket_label,
-- 
2.43.0


From 9de354a2785a81f9c68a2e6eef36161da988c45a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:10:24 +0000
Subject: [PATCH 25/29] fix: comparison wrappers compare bytes as unsigned char

---
 polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp b/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp
index d81d99b..d496614 100644
--- a/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp
+++ b/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp
@@ -205,7 +205,8 @@ SANITIZER_INTERFACE_ATTRIBUTE char *__dfso_strpbrk(
 
 static int dfsan_memcmp_bcmp(const void *s1, const void *s2, size_t n,
                              size_t *bytes_read) {
-  const char *cs1 = (const char *) s1, *cs2 = (const char *) s2;
+  const unsigned char *cs1 = (const unsigned char *) s1,
+                      *cs2 = (const unsigned char *) s2;
   for (size_t i = 0; i != n; ++i) {
     if (cs1[i] != cs2[i]) {
       *bytes_read = i + 1;
@@ -305,7 +306,7 @@ static int dfsan_strncmp(const char *s1, const char *s2, size_t n,
   for (size_t i = 0;; ++i) {
     if (s1[i] != s2[i] || s1[i] == 0 || s2[i] == 0 || (n > 0 && i == n - 1)) {
       *bytes_read = i + 1;
-      return s1[i] - s2[i];
+      return (unsigned char)s1[i] - (unsigned char)s2[i];
     }
   }
 }
@@ -348,8 +349,8 @@ SANITIZER_INTERFACE_ATTRIBUTE int __dfso_strcmp(
 static int dfsan_strncasecmp(const char *s1, const char *s2, size_t n,
                              size_t *bytes_read) {
   for (size_t i = 0;; ++i) {
-    char s1_lower = tolower(s1[i]);
-    char s2_lower = tolower(s2[i]);
+    unsigned char s1_lower = tolower((unsigned char)s1[i]);
+    unsigned char s2_lower = tolower((unsigned char)s2[i]);
 
     if (s1_lower != s2_lower || s1[i] == 0 || s2[i] == 0 ||
         (n > 0 && i == n - 1)) {
-- 
2.43.0


From 3eac6070b2082dfceccbde42a56a4124ee2b335a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:10:24 +0000
Subject: [PATCH 26/29] fix: strchr wrapper converts the character searched for
 to char

---
 polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp b/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp
index d496614..4b2705c 100644
--- a/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp
+++ b/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp
@@ -120,12 +120,13 @@ static char *dfsan_strchr_with_label(const char *s, int c, size_t *bytes_read,
                                      dfsan_label s_label, dfsan_label c_label,
                                      dfsan_label *ret_label) {
   char *match_pos = nullptr;
+  const char ch = static_cast<char>(c);
   for (size_t i = 0;; ++i) {
-    if (s[i] == c || s[i] == 0) {
+    if (s[i] == ch || s[i] == 0) {
       // If s[i] is the \0 at the end of the string, and \0 is not the
       // character we are searching for, then return null.
       *bytes_read = i + 1;
-      match_pos = s[i] == 0 && c != 0 ? nullptr : const_cast<char *>(s + i);
+      match_pos = s[i] == 0 && ch != 0 ? nullptr : const_cast<char *>(s + i);
       break;
     }
   }
-- 
2.43.0


From 9e61870cee76700cc9b553cc25afe6d2332fe104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:10:24 +0000
Subject: [PATCH 27/29] fix: getpwuid_r wrapper clears the labels of all
 strings, and only of an entry that was found

---
 polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp b/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp
index 4b2705c..fc1099b 100644
--- a/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp
+++ b/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp
@@ -1439,9 +1439,9 @@ int __dfsw_getpwuid_r(id_t uid, struct passwd *pwd,
   // Store the data in pwd, the strings referenced from pwd in buf, and the
   // address of pwd in *result.  On failure, NULL is stored in *result.
   int ret = getpwuid_r(uid, pwd, buf, buflen, result);
-  if (ret == 0) {
+  if (ret == 0 && *result) {
     dfsan_set_label(0, pwd, sizeof(struct passwd));
-    dfsan_set_label(0, buf, strlen(buf) + 1);
+    dfsan_set_label(0, buf, buflen);
   }
   *ret_label = 0;
   dfsan_set_label(0, result, sizeof(struct passwd*));
-- 
2.43.0


From 35f36f0ab21b5e53489820f9ae3a1c6677cd821e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:11:22 +0000
Subject: [PATCH 28/29] fix: recvmsg wrapper stays within the buffers of a
 truncated message

---
 polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp b/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp
index fc1099b..b0282e2 100644
--- a/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp
+++ b/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp
@@ -1936,8 +1936,8 @@ static void clear_msghdr_labels(size_t bytes_written, struct msghdr *msg) {
   dfsan_set_label(0, msg, sizeof(*msg));
   dfsan_set_label(0, msg->msg_name, msg->msg_namelen);
   dfsan_set_label(0, msg->msg_control, msg->msg_controllen);
-  for (size_t i = 0; bytes_written > 0; ++i) {
-    assert(i < msg->msg_iovlen);
+  // With MSG_TRUNC more bytes are reported than the buffers hold.
+  for (size_t i = 0; bytes_written > 0 && i < msg->msg_iovlen; ++i) {
     struct iovec *iov = &msg->msg_iov[i];
     size_t iov_written =
         bytes_written < iov->iov_len ? bytes_written : iov->iov_len;
-- 
2.43.0


From 0552c1f29ebc28183ad3f135b9df6b3f1792661f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:27:07 +0000
Subject: [PATCH 29/29] fix: names that are not valid UTF-8 no longer make a
 trace unreadable

File names are arbitrary bytes; decode them the way Python itself does.
---
 polytracker/taint_dag.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/polytracker/taint_dag.py b/polytracker/taint_dag.py
index 6a459cd..3fcbab9 100644
--- a/polytracker/taint_dag.py
+++ b/polytracker/taint_dag.py
@@ -110,6 +110,7 @@ class TDStringSection:
         return str(
             self.section[offset + sizeof(c_uint16) : offset + sizeof(c_uint16) + n],
             "utf-8",
+            "surrogateescape",
         )
 
 
-- 
2.43.0

