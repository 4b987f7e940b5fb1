From d60ca3c9610b1ba60374488fa4a4a044352ec746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:53 +0000
Subject: [PATCH 01/34] fix: make new arena superblocks big enough for the
 request

A request larger than the default superblock size got a superblock of 256
KiB, even if it was larger than that.
---
 core/src/memory/details/arena_memory_resource_impl.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/memory/details/arena_memory_resource_impl.cpp b/core/src/memory/details/arena_memory_resource_impl.cpp
index 54692b6..9346a9d 100644
--- a/core/src/memory/details/arena_memory_resource_impl.cpp
+++ b/core/src/memory/details/arena_memory_resource_impl.cpp
@@ -231,7 +231,7 @@ arena_memory_resource_impl::block arena_memory_resource_impl::expand_arena(
     std::size_t size) {
 
     if (size > this->size_superblocks_)
-        size = minimum_superblock_size;
+        size = std::max(size, minimum_superblock_size);
     else {
         size = size_superblocks_;
     }
-- 
2.43.0


From 3264d2f67c437b8a2b89fc1aa787ac5a09141485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:53 +0000
Subject: [PATCH 02/34] fix: insert every new arena superblock just once

expand_arena() inserted the superblock into the set of free blocks, and
get_block() did so once more, while coalescing it with its neighbours. This
could leave overlapping blocks in the set. The coalescing also dereferenced
the end iterator of an empty set.
---
 core/src/memory/details/arena_memory_resource_impl.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/core/src/memory/details/arena_memory_resource_impl.cpp b/core/src/memory/details/arena_memory_resource_impl.cpp
index 9346a9d..cd59a19 100644
--- a/core/src/memory/details/arena_memory_resource_impl.cpp
+++ b/core/src/memory/details/arena_memory_resource_impl.cpp
@@ -178,7 +178,8 @@ arena_memory_resource_impl::block arena_memory_resource_impl::coalesce_block(
     auto const previous = next == free_blocks.cbegin() ? next : std::prev(next);
 
     // coalesce with neighboring blocks
-    bool const merge_prev = previous->is_contiguous_before(b);
+    bool const merge_prev =
+        next != free_blocks.cbegin() && previous->is_contiguous_before(b);
     bool const merge_next =
         next != free_blocks.cend() && b.is_contiguous_before(*next);
 
@@ -235,11 +236,10 @@ arena_memory_resource_impl::block arena_memory_resource_impl::expand_arena(
     else {
         size = size_superblocks_;
     }
-    std::pair<std::set<block>::iterator, bool> ret =
-        free_blocks_.insert({mm_.allocate(size), size});
+    block const superblock{mm_.allocate(size), size};
 
     current_size_ += size;
-    return *(ret.first);
+    return superblock;
 }
 
 arena_memory_resource_impl::block arena_memory_resource_impl::free_block(
-- 
2.43.0


From b20c8283b2e57b7cb7c7d9993e25833341e77802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:53 +0000
Subject: [PATCH 03/34] fix: do not merge arena blocks across superblocks

Superblocks that happened to be neighbours in memory were merged into one
free block, which was then returned to the upstream resource as a single
allocation, or in pieces that were never allocated as such.
---
 .../memory/details/arena_memory_resource_impl.cpp   | 13 +++++++------
 .../memory/details/arena_memory_resource_impl.hpp   |  4 +++-
 2 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/core/src/memory/details/arena_memory_resource_impl.cpp b/core/src/memory/details/arena_memory_resource_impl.cpp
index cd59a19..196a4dc 100644
--- a/core/src/memory/details/arena_memory_resource_impl.cpp
+++ b/core/src/memory/details/arena_memory_resource_impl.cpp
@@ -33,8 +33,9 @@ static constexpr std::size_t minimum_superblock_size = 1u << 18u;
 
 namespace vecmem::details {
 
-arena_memory_resource_impl::block::block(void* pointer, std::size_t size)
-    : pointer_(static_cast<char*>(pointer)), size_(size) {}
+arena_memory_resource_impl::block::block(void* pointer, std::size_t size,
+                                         bool is_head)
+    : pointer_(static_cast<char*>(pointer)), size_(size), is_head_(is_head) {}
 
 void* arena_memory_resource_impl::block::pointer() const {
     return this->pointer_;
@@ -50,7 +51,7 @@ bool arena_memory_resource_impl::block::is_valid() const {
 
 bool arena_memory_resource_impl::block::is_contiguous_before(
     block const& b) const {
-    return this->pointer_ + this->size_ == b.pointer_;
+    return (this->pointer_ + this->size_ == b.pointer_) && !b.is_head_;
 }
 
 bool arena_memory_resource_impl::block::fits(std::size_t size_of_bytes) const {
@@ -62,7 +63,7 @@ arena_memory_resource_impl::block::split(std::size_t size) const {
 
     // assert condition of size_ >= size
     if (this->size_ > size) {
-        return {{this->pointer_, size},
+        return {{this->pointer_, size, this->is_head_},
                 {this->pointer_ + size, this->size_ - size}};
     } else {
         return {*this, {}};
@@ -73,7 +74,7 @@ arena_memory_resource_impl::block arena_memory_resource_impl::block::merge(
     block const& b) const {
 
     // assert condition is_contiguous_before(b)
-    return {this->pointer(), this->size_ + b.size_};
+    return {this->pointer(), this->size_ + b.size_, this->is_head_};
 }
 
 bool arena_memory_resource_impl::block::operator<(block const& b) const {
@@ -236,7 +237,7 @@ arena_memory_resource_impl::block arena_memory_resource_impl::expand_arena(
     else {
         size = size_superblocks_;
     }
-    block const superblock{mm_.allocate(size), size};
+    block const superblock{mm_.allocate(size), size, true};
 
     current_size_ += size;
     return superblock;
diff --git a/core/src/memory/details/arena_memory_resource_impl.hpp b/core/src/memory/details/arena_memory_resource_impl.hpp
index 7c290f8..b4734fe 100644
--- a/core/src/memory/details/arena_memory_resource_impl.hpp
+++ b/core/src/memory/details/arena_memory_resource_impl.hpp
@@ -69,7 +69,8 @@ private:
         //
         // @param[in] pointer the address for the beginning of the block.
         // @param[in] size the size of the block
-        block(void* pointer, std::size_t size);
+        // @param[in] is_head whether the block is at the head of a superblock
+        block(void* pointer, std::size_t size, bool is_head = false);
 
         // returns the underlying pointer
         void* pointer() const;
@@ -115,6 +116,7 @@ private:
     private:
         char* pointer_{};     // raw memory pointer
         std::size_t size_{};  // size in bytes
+        bool is_head_{};      // is this block at the head of a superblock?
     };
 
     static block first_fit(std::set<block>& free_blocks, std::size_t size);
-- 
2.43.0


From 173a52a35b52d6f8849be1719354a2a5897bfa68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:53 +0000
Subject: [PATCH 04/34] fix: respect the maximum size of the arena

The maximal amount of memory to allocate from upstream was remembered, but
never looked at.
---
 core/src/memory/details/arena_memory_resource_impl.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/core/src/memory/details/arena_memory_resource_impl.cpp b/core/src/memory/details/arena_memory_resource_impl.cpp
index 196a4dc..98c3407 100644
--- a/core/src/memory/details/arena_memory_resource_impl.cpp
+++ b/core/src/memory/details/arena_memory_resource_impl.cpp
@@ -12,6 +12,7 @@
 // System include(s).
 #include <algorithm>
 #include <cassert>
+#include <new>
 
 namespace {
 
@@ -237,6 +238,10 @@ arena_memory_resource_impl::block arena_memory_resource_impl::expand_arena(
     else {
         size = size_superblocks_;
     }
+    if (this->current_size_ > this->maximum_size_ ||
+        size > this->maximum_size_ - this->current_size_) {
+        throw std::bad_alloc();
+    }
     block const superblock{mm_.allocate(size), size, true};
 
     current_size_ += size;
-- 
2.43.0


From 1a09ebddfa757dbeb50ddf6e91591c1ee5b71648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:53 +0000
Subject: [PATCH 05/34] fix: refuse arena requests that overflow when rounded
 up

These were served with a zero-sized block.
---
 core/src/memory/details/arena_memory_resource_impl.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/core/src/memory/details/arena_memory_resource_impl.cpp b/core/src/memory/details/arena_memory_resource_impl.cpp
index 98c3407..cfb2d2b 100644
--- a/core/src/memory/details/arena_memory_resource_impl.cpp
+++ b/core/src/memory/details/arena_memory_resource_impl.cpp
@@ -121,6 +121,10 @@ arena_memory_resource_impl::~arena_memory_resource_impl() {
 
 void* arena_memory_resource_impl::allocate(std::size_t bytes, std::size_t) {
 
+    // Such a request could not be rounded up.
+    if (bytes > std::numeric_limits<std::size_t>::max() - 255u) {
+        throw std::bad_alloc();
+    }
     bytes = align_up(bytes);
 
     auto const b = get_block(bytes);
-- 
2.43.0


From 1f70cca6ecc3e1f674d2710727aef62aad4ca968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:53 +0000
Subject: [PATCH 06/34] fix: align arena superblocks to 256 bytes

Blocks lie at multiples of 256 bytes from the beginning of a superblock, but
the superblocks themselves were only aligned for fundamental types. So
allocations with a larger alignment were not aligned as requested.
---
 core/src/memory/details/arena_memory_resource_impl.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/core/src/memory/details/arena_memory_resource_impl.cpp b/core/src/memory/details/arena_memory_resource_impl.cpp
index cfb2d2b..7f1c510 100644
--- a/core/src/memory/details/arena_memory_resource_impl.cpp
+++ b/core/src/memory/details/arena_memory_resource_impl.cpp
@@ -30,6 +30,9 @@ inline constexpr std::size_t align_up(std::size_t v,
 
 static constexpr std::size_t minimum_superblock_size = 1u << 18u;
 
+// blocks lie at multiples of this from the beginning of their superblock
+static constexpr std::size_t superblock_alignment = 256u;
+
 }  // namespace
 
 namespace vecmem::details {
@@ -115,7 +118,7 @@ arena_memory_resource_impl::~arena_memory_resource_impl() {
         auto aux = itr++;
         void* p = aux->pointer();
         std::size_t size = aux->size();
-        mm_.deallocate(p, size);
+        mm_.deallocate(p, size, superblock_alignment);
     }
 }
 
@@ -246,7 +249,8 @@ arena_memory_resource_impl::block arena_memory_resource_impl::expand_arena(
         size > this->maximum_size_ - this->current_size_) {
         throw std::bad_alloc();
     }
-    block const superblock{mm_.allocate(size), size, true};
+    block const superblock{
+        mm_.allocate(size, superblock_alignment), size, true};
 
     current_size_ += size;
     return superblock;
-- 
2.43.0


From ac1e4563ced891e60c41d197459d11a73eccf4cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:53 +0000
Subject: [PATCH 07/34] fix: refuse binary page requests that overflow when
 rounded up

These were served with a page of the minimum size.
---
 .../memory/details/binary_page_memory_resource_impl.cpp  | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/core/src/memory/details/binary_page_memory_resource_impl.cpp b/core/src/memory/details/binary_page_memory_resource_impl.cpp
index 33741eb..d74108a 100644
--- a/core/src/memory/details/binary_page_memory_resource_impl.cpp
+++ b/core/src/memory/details/binary_page_memory_resource_impl.cpp
@@ -16,6 +16,7 @@
 #include <algorithm>
 #include <cassert>
 #include <memory>
+#include <new>
 #include <optional>
 #include <stdexcept>
 
@@ -27,6 +28,14 @@ binary_page_memory_resource_impl::binary_page_memory_resource_impl(
 
 void *binary_page_memory_resource_impl::allocate(std::size_t size,
                                                  std::size_t) {
+    /*
+     * Requests that can't be rounded up to a power of two can't be served.
+     */
+    if (size > (static_cast<std::size_t>(1UL)
+                << (8 * sizeof(std::size_t) - 1))) {
+        throw std::bad_alloc();
+    }
+
     /*
      * First, we round our allocation request up to a power of two, since
      * that is what the sizes of all our pages are.
-- 
2.43.0


From ae6a8bd2d34c01136e54ef8a852a36cd9c1bde2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:53 +0000
Subject: [PATCH 08/34] fix: refuse host memory requests that overflow when
 rounded up

These were served with a tiny block.
---
 core/src/memory/host_memory_resource.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/core/src/memory/host_memory_resource.cpp b/core/src/memory/host_memory_resource.cpp
index c9454b1..d47cc6d 100644
--- a/core/src/memory/host_memory_resource.cpp
+++ b/core/src/memory/host_memory_resource.cpp
@@ -16,6 +16,7 @@
 #include <cstddef>
 #include <cstdlib>
 #include <memory>
+#include <new>
 
 namespace vecmem {
 
@@ -37,6 +38,10 @@ void *host_memory_resource::do_allocate(std::size_t bytes,
     // values.
     const std::size_t align = std::max(alignment, alignof(std::max_align_t));
     const std::size_t size = bytes + (align - (bytes % align));
+    // The size could not be increased.
+    if (size < bytes) {
+        throw std::bad_alloc();
+    }
     void *ptr = std::aligned_alloc(align, size);
     // If the alignment failed for some reason, throw an exception.
     if (ptr == nullptr) {
@@ -48,6 +53,10 @@ void *host_memory_resource::do_allocate(std::size_t bytes,
     // pointer to the beginning of the unaligned memory blob before
     // the aligned pointer.
     std::size_t alloc_bytes = bytes + alignment + sizeof(void *) - 1;
+    // The size could not be increased.
+    if (alloc_bytes < bytes) {
+        throw std::bad_alloc();
+    }
     void *unaligned_ptr = std::malloc(alloc_bytes);
     // If the alignment failed for some reason, throw an exception.
     if (unaligned_ptr == nullptr) {
-- 
2.43.0


From 9dcf361dbb0802b14a3d2b9fb65cb4c0d16b70bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:53 +0000
Subject: [PATCH 09/34] fix: put at least one block into every chunk of the
 pool resource

With min_blocks_per_chunk = 0, and min_bytes_per_chunk smaller than the block
size, an empty chunk was allocated, and a block taken from an empty list.
---
 core/src/memory/details/pool_memory_resource_impl.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/core/src/memory/details/pool_memory_resource_impl.cpp b/core/src/memory/details/pool_memory_resource_impl.cpp
index a2d78be..5a99b4a 100644
--- a/core/src/memory/details/pool_memory_resource_impl.cpp
+++ b/core/src/memory/details/pool_memory_resource_impl.cpp
@@ -55,6 +55,7 @@ void check_valid(const pool_memory_resource::options& opts) {
                 opts.max_bytes_per_chunk);
     CHECK_VALID((opts.min_blocks_per_chunk * opts.largest_block_size) >
                 opts.max_bytes_per_chunk);
+    CHECK_VALID(opts.largest_block_size > opts.max_bytes_per_chunk);
 
     CHECK_VALID((opts.max_blocks_per_chunk * opts.largest_block_size) <
                 opts.min_bytes_per_chunk);
@@ -185,6 +186,8 @@ void* pool_memory_resource_impl::allocate(std::size_t bytes,
             if (n < (m_options.min_bytes_per_chunk >> bytes_log2)) {
                 n = m_options.min_bytes_per_chunk >> bytes_log2;
             }
+            // There must be at least one block in a chunk.
+            n = std::max(n, static_cast<std::size_t>(1));
         } else {
             n = n * 3 / 2;
             if (n > (m_options.max_bytes_per_chunk >> bytes_log2)) {
-- 
2.43.0


From 2be940bf0d9b062100ef43180df9fc0e8aa953c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:53 +0000
Subject: [PATCH 10/34] fix: apply the size cutoff to all cached blocks of the
 pool resource

If the smallest cached block that was large enough was not aligned well
enough, the next one that was, was used regardless of its size.
---
 core/src/memory/details/pool_memory_resource_impl.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/core/src/memory/details/pool_memory_resource_impl.cpp b/core/src/memory/details/pool_memory_resource_impl.cpp
index 5a99b4a..7a23855 100644
--- a/core/src/memory/details/pool_memory_resource_impl.cpp
+++ b/core/src/memory/details/pool_memory_resource_impl.cpp
@@ -141,6 +141,12 @@ void* pool_memory_resource_impl::allocate(std::size_t bytes,
                 ;
             }
 
+            // The alignment search may have found a much bigger block.
+            if ((it != m_cached_oversized.end()) &&
+                (it->size / bytes >= m_options.cached_size_cutoff_factor)) {
+                it = m_cached_oversized.end();
+            }
+
             // If the alignment is bigger than the requested one by a factor
             // bigger than or equal to the specified cutoff for alignment,
             // allocate a new block.
-- 
2.43.0


From 291e0518a88f66a48eee294633f9d9342a0fe283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:53 +0000
Subject: [PATCH 11/34] fix: return all oversized blocks of the pool resource
 upstream

The destructor is meant to free all allocations, and does so for pooled
blocks that are still in use, but not for oversized/overaligned ones.
---
 core/src/memory/details/pool_memory_resource_impl.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/src/memory/details/pool_memory_resource_impl.cpp b/core/src/memory/details/pool_memory_resource_impl.cpp
index 7a23855..9d0df52 100644
--- a/core/src/memory/details/pool_memory_resource_impl.cpp
+++ b/core/src/memory/details/pool_memory_resource_impl.cpp
@@ -88,8 +88,8 @@ pool_memory_resource_impl::~pool_memory_resource_impl() {
                                     m_options.alignment);
     }
 
-    // Deallocate the cached oversized/overaligned memory.
-    for (oversized_block_descriptor& block : m_cached_oversized) {
+    // Deallocate all oversized/overaligned memory, whether cached or in use.
+    for (oversized_block_descriptor& block : m_oversized) {
         m_upstream.get().deallocate(block.pointer, block.size, block.alignment);
     }
 }
-- 
2.43.0


From 19201a0f0ee9e3723f2e8a5d06bb010ce293efa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:53 +0000
Subject: [PATCH 12/34] fix: avoid a division by zero in
 memory_monitor::average_allocation

Converting the resulting NaN to an integer is undefined behaviour.
---
 core/src/utils/memory_monitor.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/core/src/utils/memory_monitor.cpp b/core/src/utils/memory_monitor.cpp
index a4003fa..51d7c0d 100644
--- a/core/src/utils/memory_monitor.cpp
+++ b/core/src/utils/memory_monitor.cpp
@@ -40,6 +40,10 @@ std::size_t memory_monitor::outstanding_allocation() const {
 
 std::size_t memory_monitor::average_allocation() const {
 
+    // There is no average without any allocations.
+    if (m_n_alloc == 0) {
+        return 0;
+    }
     return static_cast<std::size_t>(std::round(
         static_cast<double>(m_total_alloc) / static_cast<double>(m_n_alloc)));
 }
-- 
2.43.0


From d64d33d70de132501e64b0b81db72309f561da12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:13 +0000
Subject: [PATCH 13/34] fix: give unique pointers to over-aligned types aligned
 memory

The alignment of the type was never passed to the memory resource.
---
 core/include/vecmem/memory/unique_ptr.hpp | 53 ++++++++++++++++++-----
 1 file changed, 41 insertions(+), 12 deletions(-)

diff --git a/core/include/vecmem/memory/unique_ptr.hpp b/core/include/vecmem/memory/unique_ptr.hpp
index a6362e6..64941a6 100644
--- a/core/include/vecmem/memory/unique_ptr.hpp
+++ b/core/include/vecmem/memory/unique_ptr.hpp
@@ -8,6 +8,8 @@
 
 #pragma once
 
+#include <algorithm>
+#include <cstddef>
 #include <memory>
 #include <type_traits>
 
@@ -54,6 +56,22 @@ using unique_obj_ptr = std::unique_ptr<T, details::unique_obj_deleter<T>>;
 template <typename T>
 using unique_alloc_ptr = std::unique_ptr<T, details::unique_alloc_deleter<T>>;
 
+namespace details {
+/**
+ * @brief The alignment of the memory blocks owned by the unique pointers.
+ *
+ * It is the one that a memory resource would use by default, unless the
+ * pointee's type asks for more.
+ *
+ * @tparam T The (possibly array) type of the object(s) stored.
+ */
+template <typename T>
+constexpr std::size_t unique_ptr_alignment() {
+    return std::max(alignof(std::max_align_t),
+                    alignof(std::remove_all_extents_t<T>));
+}
+}  // namespace details
+
 /**
  * @brief Create a unique object pointer to a newly constructed object.
  *
@@ -79,7 +97,8 @@ make_unique_obj(memory_resource& m, Args&&... a) {
      * perform an allocation of the requested size.
      */
     std::size_t s = sizeof(T);
-    T* p = static_cast<T*>(m.allocate(s));
+    constexpr std::size_t align = details::unique_ptr_alignment<T>();
+    T* p = static_cast<T*>(m.allocate(s, align));
 
     /*
      * Perform a placement-new with forwarded arguments to construct the
@@ -90,7 +109,7 @@ make_unique_obj(memory_resource& m, Args&&... a) {
     /*
      * Create a new unique_ptr, with its own deleter, and return it.
      */
-    return unique_obj_ptr<T>(p, details::unique_obj_deleter<T>(m, s));
+    return unique_obj_ptr<T>(p, details::unique_obj_deleter<T>(m, s, align));
 }
 
 /**
@@ -121,7 +140,8 @@ make_unique_obj(memory_resource& m, std::size_t n) {
      * perform an allocation of the requested size.
      */
     std::size_t s = n * sizeof(std::remove_extent_t<T>);
-    pointer_t p = static_cast<pointer_t>(m.allocate(s));
+    constexpr std::size_t align = details::unique_ptr_alignment<T>();
+    pointer_t p = static_cast<pointer_t>(m.allocate(s, align));
 
     /*
      * Use placement-new to default-construct each of our elements.
@@ -133,7 +153,8 @@ make_unique_obj(memory_resource& m, std::size_t n) {
     /*
      * Create a new unique_ptr, with its own deleter, and return it.
      */
-    return unique_obj_ptr<T>(p, details::unique_obj_deleter<T>(m, s, 0, n));
+    return unique_obj_ptr<T>(p,
+                             details::unique_obj_deleter<T>(m, s, align, n));
 }
 
 /**
@@ -186,12 +207,14 @@ unique_alloc_ptr<T> make_unique_alloc(memory_resource& m) {
      * perform an allocation of the requested size.
      */
     std::size_t s = sizeof(T);
-    pointer_t p = static_cast<pointer_t>(m.allocate(s));
+    constexpr std::size_t align = details::unique_ptr_alignment<T>();
+    pointer_t p = static_cast<pointer_t>(m.allocate(s, align));
 
     /*
      * Create a new unique_ptr, with its own deleter, and return it.
      */
-    return unique_alloc_ptr<T>(p, details::unique_alloc_deleter<T>(m, s));
+    return unique_alloc_ptr<T>(
+        p, details::unique_alloc_deleter<T>(m, s, align));
 }
 
 /**
@@ -247,12 +270,14 @@ unique_alloc_ptr<T> make_unique_alloc(memory_resource& m, std::size_t n) {
      * perform an allocation of the requested size.
      */
     std::size_t s = n * sizeof(std::remove_extent_t<T>);
-    pointer_t p = static_cast<pointer_t>(m.allocate(s));
+    constexpr std::size_t align = details::unique_ptr_alignment<T>();
+    pointer_t p = static_cast<pointer_t>(m.allocate(s, align));
 
     /*
      * Create a new unique_ptr, with its own deleter, and return it.
      */
-    return unique_alloc_ptr<T>(p, details::unique_alloc_deleter<T>(m, s, 0));
+    return unique_alloc_ptr<T>(
+        p, details::unique_alloc_deleter<T>(m, s, align));
 }
 
 /**
@@ -319,14 +344,16 @@ unique_alloc_ptr<T> make_unique_alloc(memory_resource& m, const T* f,
      * perform an allocation of the requested size.
      */
     std::size_t s = sizeof(T);
-    pointer_t p = static_cast<pointer_t>(m.allocate(s));
+    constexpr std::size_t align = details::unique_ptr_alignment<T>();
+    pointer_t p = static_cast<pointer_t>(m.allocate(s, align));
 
     c(p, f, s);
 
     /*
      * Create a new unique_ptr, with its own deleter, and return it.
      */
-    return unique_alloc_ptr<T>(p, details::unique_alloc_deleter<T>(m, s));
+    return unique_alloc_ptr<T>(
+        p, details::unique_alloc_deleter<T>(m, s, align));
 }
 
 /**
@@ -396,13 +423,15 @@ unique_alloc_ptr<T> make_unique_alloc(memory_resource& m, std::size_t n,
      * perform an allocation of the requested size.
      */
     std::size_t s = n * sizeof(std::remove_extent_t<T>);
-    pointer_t p = static_cast<pointer_t>(m.allocate(s));
+    constexpr std::size_t align = details::unique_ptr_alignment<T>();
+    pointer_t p = static_cast<pointer_t>(m.allocate(s, align));
 
     c(p, f, s);
 
     /*
      * Create a new unique_ptr, with its own deleter, and return it.
      */
-    return unique_alloc_ptr<T>(p, details::unique_alloc_deleter<T>(m, s, 0));
+    return unique_alloc_ptr<T>(
+        p, details::unique_alloc_deleter<T>(m, s, align));
 }
 }  // namespace vecmem
-- 
2.43.0


From 3dc5db93dbbc3d0a889284147c9458e52566968c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:13 +0000
Subject: [PATCH 14/34] fix: do not leak memory if making a unique pointer
 throws

If a constructor or the copy function threw an exception, the memory was not
returned to the memory resource, and elements that were already constructed
were not destroyed.
---
 core/include/vecmem/memory/unique_ptr.hpp | 36 ++++++++++++++++-------
 1 file changed, 25 insertions(+), 11 deletions(-)

diff --git a/core/include/vecmem/memory/unique_ptr.hpp b/core/include/vecmem/memory/unique_ptr.hpp
index 64941a6..c80b531 100644
--- a/core/include/vecmem/memory/unique_ptr.hpp
+++ b/core/include/vecmem/memory/unique_ptr.hpp
@@ -104,7 +104,12 @@ make_unique_obj(memory_resource& m, Args&&... a) {
      * Perform a placement-new with forwarded arguments to construct the
      * object.
      */
-    new (p) T(std::forward<Args>(a)...);
+    try {
+        new (p) T(std::forward<Args>(a)...);
+    } catch (...) {
+        m.deallocate(p, s, align);
+        throw;
+    }
 
     /*
      * Create a new unique_ptr, with its own deleter, and return it.
@@ -146,8 +151,17 @@ make_unique_obj(memory_resource& m, std::size_t n) {
     /*
      * Use placement-new to default-construct each of our elements.
      */
-    for (std::size_t i = 0; i < n; ++i) {
-        new (&p[i]) std::remove_extent_t<T>();
+    std::size_t i = 0;
+    try {
+        for (; i < n; ++i) {
+            new (&p[i]) std::remove_extent_t<T>();
+        }
+    } catch (...) {
+        while (i > 0) {
+            std::destroy_at(&p[--i]);
+        }
+        m.deallocate(p, s, align);
+        throw;
     }
 
     /*
@@ -347,13 +361,13 @@ unique_alloc_ptr<T> make_unique_alloc(memory_resource& m, const T* f,
     constexpr std::size_t align = details::unique_ptr_alignment<T>();
     pointer_t p = static_cast<pointer_t>(m.allocate(s, align));
 
-    c(p, f, s);
-
     /*
-     * Create a new unique_ptr, with its own deleter, and return it.
+     * Create a new unique_ptr, with its own deleter, fill and return it.
      */
-    return unique_alloc_ptr<T>(
+    unique_alloc_ptr<T> result(
         p, details::unique_alloc_deleter<T>(m, s, align));
+    c(p, f, s);
+    return result;
 }
 
 /**
@@ -426,12 +440,12 @@ unique_alloc_ptr<T> make_unique_alloc(memory_resource& m, std::size_t n,
     constexpr std::size_t align = details::unique_ptr_alignment<T>();
     pointer_t p = static_cast<pointer_t>(m.allocate(s, align));
 
-    c(p, f, s);
-
     /*
-     * Create a new unique_ptr, with its own deleter, and return it.
+     * Create a new unique_ptr, with its own deleter, fill and return it.
      */
-    return unique_alloc_ptr<T>(
+    unique_alloc_ptr<T> result(
         p, details::unique_alloc_deleter<T>(m, s, align));
+    c(p, f, s);
+    return result;
 }
 }  // namespace vecmem
-- 
2.43.0


From 145149782a1e5c84e7645916581ed483d09bcef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:13 +0000
Subject: [PATCH 15/34] fix: do not leak memory if allocator::new_object throws

The memory was not returned to the memory resource, if the constructor of
the object threw an exception.
---
 core/include/vecmem/memory/impl/allocator.ipp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/core/include/vecmem/memory/impl/allocator.ipp b/core/include/vecmem/memory/impl/allocator.ipp
index 6273cd2..5365a9c 100644
--- a/core/include/vecmem/memory/impl/allocator.ipp
+++ b/core/include/vecmem/memory/impl/allocator.ipp
@@ -47,7 +47,12 @@ T *allocator::new_object(Args &&... args) {
      * forward the arguments passed to this method so they can be used to
      * call the constructor of the class.
      */
-    return new (p) T(std::forward<Args>(args)...);
+    try {
+        return new (p) T(std::forward<Args>(args)...);
+    } catch (...) {
+        deallocate_object<T>(static_cast<T *>(p));
+        throw;
+    }
 }
 
 template <typename T>
-- 
2.43.0


From ce865f65354a82a644e9a9af08e8d5cfe7b1d56c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:13 +0000
Subject: [PATCH 16/34] fix: make it possible to use the const version of
 array::front()

A unique_ptr to an array can't be dereferenced.
---
 core/include/vecmem/containers/impl/array.ipp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/include/vecmem/containers/impl/array.ipp b/core/include/vecmem/containers/impl/array.ipp
index 86e1859..172484a 100644
--- a/core/include/vecmem/containers/impl/array.ipp
+++ b/core/include/vecmem/containers/impl/array.ipp
@@ -86,7 +86,7 @@ auto array<T, N>::front() const -> const_reference {
             "Called vecmem::array::front() on an empty "
             "array");
     }
-    return (*m_memory);
+    return (m_memory[0]);
 }
 
 template <typename T, std::size_t N>
-- 
2.43.0


From 2581511be3e5914da06aec0955984bff25a08879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:13 +0000
Subject: [PATCH 17/34] fix: align super pages to the minimum page size

Pages lie at multiples of their size from the beginning of a super page, but
the super pages themselves were only aligned for fundamental types. So
allocations with a larger alignment were not aligned as requested.
---
 .../memory/details/binary_page_memory_resource_impl.cpp  | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/core/src/memory/details/binary_page_memory_resource_impl.cpp b/core/src/memory/details/binary_page_memory_resource_impl.cpp
index d74108a..af9c34a 100644
--- a/core/src/memory/details/binary_page_memory_resource_impl.cpp
+++ b/core/src/memory/details/binary_page_memory_resource_impl.cpp
@@ -271,8 +271,13 @@ binary_page_memory_resource_impl::superpage::superpage(
                        m_size - delta_superpage_size)),
       m_num_pages((2UL << (m_size - m_min_page_size)) - 1),
       m_pages(std::make_unique<page_state[]>(m_num_pages)),
-      m_memory(make_unique_alloc<std::byte[]>(
-          resource, static_cast<std::size_t>(1UL) << m_size)) {
+      m_memory(
+          static_cast<std::byte *>(resource.allocate(
+              static_cast<std::size_t>(1UL) << m_size,
+              static_cast<std::size_t>(1UL) << min_page_size)),
+          unique_alloc_deleter<std::byte[]>(
+              resource, static_cast<std::size_t>(1UL) << m_size,
+              static_cast<std::size_t>(1UL) << min_page_size)) {
     /*
      * Set all pages as non-extant, except the first one.
      */
-- 
2.43.0


From 2b8e322e5ec0cef9c1d85d90caf98c21d9d33499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:13 +0000
Subject: [PATCH 18/34] fix: align the payload of fixed size jagged buffers

The memory was allocated as an array of characters, which is not necessarily
aligned as needed by the element type.
---
 core/include/vecmem/containers/impl/jagged_vector_buffer.ipp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/core/include/vecmem/containers/impl/jagged_vector_buffer.ipp b/core/include/vecmem/containers/impl/jagged_vector_buffer.ipp
index a449baa..07a537b 100644
--- a/core/include/vecmem/containers/impl/jagged_vector_buffer.ipp
+++ b/core/include/vecmem/containers/impl/jagged_vector_buffer.ipp
@@ -96,9 +96,8 @@ jagged_vector_buffer<TYPE>::jagged_vector_buffer(
 
     // Allocate the "inner memory" for a fixed size buffer.
     if (type == buffer_type::fixed_size && total_elements != 0) {
-        m_inner_memory = vecmem::make_unique_alloc<char[]>(
-            resource, total_elements * sizeof(TYPE));
-        data_ptr = reinterpret_cast<TYPE*>(m_inner_memory.get());
+        std::tie(m_inner_memory, data_ptr) =
+            details::aligned_multiple_placement<TYPE>(resource, total_elements);
     }
     // Allocate the "inner memory" for a resizable buffer.
     else if (type == buffer_type::resizable && capacities.size() != 0) {
-- 
2.43.0


From 6241179fd91fbc9cc260ea77bf8c256647c454cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:08 +0000
Subject: [PATCH 19/34] fix: make the comparison of synchronized resources
 symmetric

---
 .../memory/synchronized_memory_resource.cpp    | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/core/src/memory/synchronized_memory_resource.cpp b/core/src/memory/synchronized_memory_resource.cpp
index fec441a..dac3aef 100644
--- a/core/src/memory/synchronized_memory_resource.cpp
+++ b/core/src/memory/synchronized_memory_resource.cpp
@@ -59,17 +59,15 @@ void synchronized_memory_resource::do_deallocate(void* p, std::size_t bytes,
 bool synchronized_memory_resource::do_is_equal(
     const memory_resource& other) const noexcept {
 
-    // Check if the other resource is also a synchronized resource.
-    const synchronized_memory_resource* otherSynchronized =
-        dynamic_cast<const synchronized_memory_resource*>(&other);
-    if (otherSynchronized) {
-        // If so, check if the underlying resources are equal.
-        return m_upstream.get().is_equal(otherSynchronized->m_upstream.get());
-    } else {
-        // If not, check if the underlying resource is equal to the other
-        // resource.
-        return m_upstream.get().is_equal(other);
+    // What is synchronized does not depend on how many layers of
+    // synchronization there are, on either side of the comparison.
+    const memory_resource* otherUpstream = &other;
+    while (const auto* otherSynchronized =
+               dynamic_cast<const synchronized_memory_resource*>(
+                   otherUpstream)) {
+        otherUpstream = &(otherSynchronized->m_upstream.get());
     }
+    return m_upstream.get().is_equal(*otherUpstream);
 }
 
 }  // namespace vecmem
-- 
2.43.0


From 48df814302699547c27e349a9bbf9596656f7db8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:07 +0000
Subject: [PATCH 20/34] fix: refuse allocator requests for more objects than
 can be addressed

---
 core/include/vecmem/memory/impl/allocator.ipp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/core/include/vecmem/memory/impl/allocator.ipp b/core/include/vecmem/memory/impl/allocator.ipp
index 5365a9c..54c84f6 100644
--- a/core/include/vecmem/memory/impl/allocator.ipp
+++ b/core/include/vecmem/memory/impl/allocator.ipp
@@ -9,6 +9,8 @@
 #pragma once
 
 #include <cstddef>
+#include <limits>
+#include <new>
 
 namespace vecmem {
 template <typename T>
@@ -19,6 +21,9 @@ T *allocator::allocate_object(std::size_t n) {
      * also use the compiler's knowledge about the alignment requirements of
      * the class.
      */
+    if (n > std::numeric_limits<std::size_t>::max() / sizeof(T)) {
+        throw std::bad_alloc();
+    }
     return static_cast<T *>(m_mem.allocate(n * sizeof(T), alignof(T)));
 }
 
-- 
2.43.0


From 03e52f8704d28221b40599fa68312abb6fdc5d01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:07 +0000
Subject: [PATCH 21/34] fix: do not call the destructor on a null pointer in
 allocator::delete_object

---
 core/include/vecmem/memory/impl/allocator.ipp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/core/include/vecmem/memory/impl/allocator.ipp b/core/include/vecmem/memory/impl/allocator.ipp
index 54c84f6..a579845 100644
--- a/core/include/vecmem/memory/impl/allocator.ipp
+++ b/core/include/vecmem/memory/impl/allocator.ipp
@@ -62,6 +62,13 @@ T *allocator::new_object(Args &&... args) {
 
 template <typename T>
 void allocator::delete_object(T *p) {
+    /*
+     * As with a delete expression, there is nothing to do for a null pointer.
+     */
+    if (p == nullptr) {
+        return;
+    }
+
     /*
      * Before ruthlessly destroying the object, we will give it a few last
      * words to deconstruct itself. This is to ensure it can safely
-- 
2.43.0


From 2b2e9371092b388adf9ee8a1ef3fb34bb1fdc49d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:16 +0000
Subject: [PATCH 22/34] fix: refuse unique pointers to more elements than can
 be addressed

---
 core/include/vecmem/memory/unique_ptr.hpp | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/core/include/vecmem/memory/unique_ptr.hpp b/core/include/vecmem/memory/unique_ptr.hpp
index c80b531..f54b04c 100644
--- a/core/include/vecmem/memory/unique_ptr.hpp
+++ b/core/include/vecmem/memory/unique_ptr.hpp
@@ -10,7 +10,9 @@
 
 #include <algorithm>
 #include <cstddef>
+#include <limits>
 #include <memory>
+#include <new>
 #include <type_traits>
 
 #include "vecmem/memory/details/unique_alloc_deleter.hpp"
@@ -70,6 +72,16 @@ constexpr std::size_t unique_ptr_alignment() {
     return std::max(alignof(std::max_align_t),
                     alignof(std::remove_all_extents_t<T>));
 }
+
+/// Size in bytes of an unbounded array with a given number of elements
+template <typename T>
+std::size_t unique_ptr_array_size(std::size_t n) {
+    if (n > std::numeric_limits<std::size_t>::max() /
+                sizeof(std::remove_extent_t<T>)) {
+        throw std::bad_alloc();
+    }
+    return n * sizeof(std::remove_extent_t<T>);
+}
 }  // namespace details
 
 /**
@@ -144,7 +156,7 @@ make_unique_obj(memory_resource& m, std::size_t n) {
      * Calculate the size of the allocation and use the memory resource to
      * perform an allocation of the requested size.
      */
-    std::size_t s = n * sizeof(std::remove_extent_t<T>);
+    std::size_t s = details::unique_ptr_array_size<T>(n);
     constexpr std::size_t align = details::unique_ptr_alignment<T>();
     pointer_t p = static_cast<pointer_t>(m.allocate(s, align));
 
@@ -283,7 +295,7 @@ unique_alloc_ptr<T> make_unique_alloc(memory_resource& m, std::size_t n) {
      * Calculate the size of the allocation and use the memory resource to
      * perform an allocation of the requested size.
      */
-    std::size_t s = n * sizeof(std::remove_extent_t<T>);
+    std::size_t s = details::unique_ptr_array_size<T>(n);
     constexpr std::size_t align = details::unique_ptr_alignment<T>();
     pointer_t p = static_cast<pointer_t>(m.allocate(s, align));
 
@@ -436,7 +448,7 @@ unique_alloc_ptr<T> make_unique_alloc(memory_resource& m, std::size_t n,
      * Calculate the size of the allocation and use the memory resource to
      * perform an allocation of the requested size.
      */
-    std::size_t s = n * sizeof(std::remove_extent_t<T>);
+    std::size_t s = details::unique_ptr_array_size<T>(n);
     constexpr std::size_t align = details::unique_ptr_alignment<T>();
     pointer_t p = static_cast<pointer_t>(m.allocate(s, align));
 
-- 
2.43.0


From c6ca3c30897e0000f190dc7508dee5f17cccd0f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:10 +0000
Subject: [PATCH 23/34] fix: static_vector(size, value) must not destroy
 elements that do not exist

The constructor set the size before calling assign(), which then ran the
destructor on storage in which nothing had been constructed yet.
---
 core/include/vecmem/containers/impl/static_vector.ipp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/include/vecmem/containers/impl/static_vector.ipp b/core/include/vecmem/containers/impl/static_vector.ipp
index 8a4baf9..aef55de 100644
--- a/core/include/vecmem/containers/impl/static_vector.ipp
+++ b/core/include/vecmem/containers/impl/static_vector.ipp
@@ -20,7 +20,7 @@ VECMEM_HOST_AND_DEVICE static_vector<TYPE, MAX_SIZE>::static_vector()
 template <typename TYPE, std::size_t MAX_SIZE>
 VECMEM_HOST_AND_DEVICE static_vector<TYPE, MAX_SIZE>::static_vector(
     size_type size, const_reference value)
-    : m_size(size), m_elements() {
+    : m_size(0), m_elements() {
 
     assign(size, value);
 }
-- 
2.43.0


From ad0958333350aeabfaabad12686012c6790146d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:10 +0000
Subject: [PATCH 24/34] fix: Copy the elements in static_vector's assignment
 operator

The implicit one copied the bytes of the elements, without destroying the
old elements, or constructing the new ones.
---
 .../vecmem/containers/impl/static_vector.ipp  | 20 +++++++++++++++++++
 .../vecmem/containers/static_vector.hpp       |  4 ++++
 2 files changed, 24 insertions(+)

diff --git a/core/include/vecmem/containers/impl/static_vector.ipp b/core/include/vecmem/containers/impl/static_vector.ipp
index aef55de..dfb7e46 100644
--- a/core/include/vecmem/containers/impl/static_vector.ipp
+++ b/core/include/vecmem/containers/impl/static_vector.ipp
@@ -42,6 +42,26 @@ VECMEM_HOST_AND_DEVICE static_vector<TYPE, MAX_SIZE>::~static_vector() {
     clear();
 }
 
+template <typename TYPE, std::size_t MAX_SIZE>
+VECMEM_HOST_AND_DEVICE auto static_vector<TYPE, MAX_SIZE>::operator=(
+    const static_vector& rhs) -> static_vector& {
+
+    // Make sure that this is not a self-assignment.
+    if (this != &rhs) {
+
+        // Replace all of the elements with copies of the ones of the other
+        // vector.
+        clear();
+        for (size_type i = 0; i < rhs.m_size; ++i) {
+            construct(i, rhs[i]);
+            ++m_size;
+        }
+    }
+
+    // Return a reference to this object.
+    return *this;
+}
+
 template <typename TYPE, std::size_t MAX_SIZE>
 VECMEM_HOST_AND_DEVICE typename static_vector<TYPE, MAX_SIZE>::reference
 static_vector<TYPE, MAX_SIZE>::at(size_type pos) {
diff --git a/core/include/vecmem/containers/static_vector.hpp b/core/include/vecmem/containers/static_vector.hpp
index ef68ddb..b447553 100644
--- a/core/include/vecmem/containers/static_vector.hpp
+++ b/core/include/vecmem/containers/static_vector.hpp
@@ -97,6 +97,10 @@ public:
     VECMEM_HOST_AND_DEVICE
     ~static_vector();
 
+    /// Copy assignment operator
+    VECMEM_HOST_AND_DEVICE
+    static_vector& operator=(const static_vector& rhs);
+
     /// @}
 
     /// @name Vector element access functions
-- 
2.43.0


From 7ca51b99ac400f8650613f4cf0a2115a5b93b41d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:10 +0000
Subject: [PATCH 25/34] fix: Do not move objects bytewise in static_vector

insert(), emplace() and erase() used memmove for elements of any type, which
breaks types that are not trivially copyable (std::string for instance). In
addition a value that is itself an element of the vector was read after the
element had been moved away.
---
 .../vecmem/containers/impl/static_vector.ipp  | 129 ++++++++++++++----
 .../vecmem/containers/static_vector.hpp       |   8 ++
 2 files changed, 109 insertions(+), 28 deletions(-)

diff --git a/core/include/vecmem/containers/impl/static_vector.ipp b/core/include/vecmem/containers/impl/static_vector.ipp
index dfb7e46..d3ac0cd 100644
--- a/core/include/vecmem/containers/impl/static_vector.ipp
+++ b/core/include/vecmem/containers/impl/static_vector.ipp
@@ -9,6 +9,8 @@
 // System include(s).
 #include <cassert>
 #include <cstring>
+#include <new>
+#include <type_traits>
 #include <utility>
 
 namespace vecmem {
@@ -185,13 +187,20 @@ VECMEM_HOST_AND_DEVICE auto static_vector<TYPE, MAX_SIZE>::insert(
     // Find the index of this iterator inside of the vector.
     auto id = element_id(pos);
 
-    // Move the payload of the existing elements after "pos".
-    memmove(static_cast<void*>(id.m_ptr + 1),
-            static_cast<const void*>(id.m_ptr),
-            (m_size - id.m_index) * value_size);
+    // If the new element goes to the end, there is nothing to move.
+    if (id.m_index == m_size) {
+        construct(id.m_index, value);
+    } else {
+        // Make a copy of the value, as it may be one of the elements that are
+        // about to be moved.
+        const value_type copy(value);
 
-    // Instantiate the new value.
-    construct(id.m_index, value);
+        // Move the existing elements after "pos".
+        shift_up(id.m_index, 1);
+
+        // Instantiate the new value.
+        construct(id.m_index, copy);
+    }
 
     // Increment the size.
     ++m_size;
@@ -210,14 +219,23 @@ VECMEM_HOST_AND_DEVICE auto static_vector<TYPE, MAX_SIZE>::insert(
     // Find the index of this iterator inside of the vector.
     auto id = element_id(pos);
 
-    // Move the payload of the existing elements after "pos".
-    memmove(static_cast<void*>(id.m_ptr + count),
-            static_cast<const void*>(id.m_ptr),
-            (m_size - id.m_index) * value_size);
+    // If the new elements go to the end, there is nothing to move.
+    if (id.m_index == m_size) {
+        for (size_type i = 0; i < count; ++i) {
+            construct(id.m_index + i, value);
+        }
+    } else if (count > 0) {
+        // Make a copy of the value, as it may be one of the elements that are
+        // about to be moved.
+        const value_type copy(value);
 
-    // Instantiate all the new values.
-    for (size_type i = 0; i < count; ++i) {
-        construct(id.m_index + i, value);
+        // Move the existing elements after "pos".
+        shift_up(id.m_index, count);
+
+        // Instantiate all the new values.
+        for (size_type i = 0; i < count; ++i) {
+            construct(id.m_index + i, copy);
+        }
     }
 
     // Increment the size.
@@ -238,13 +256,20 @@ VECMEM_HOST_AND_DEVICE auto static_vector<TYPE, MAX_SIZE>::emplace(
     // Find the index of this iterator inside of the vector.
     auto id = element_id(pos);
 
-    // Move the payload of the existing elements after "pos".
-    memmove(static_cast<void*>(id.m_ptr + 1),
-            static_cast<const void*>(id.m_ptr),
-            (m_size - id.m_index) * value_size);
+    // If the new element goes to the end, there is nothing to move.
+    if (id.m_index == m_size) {
+        new (id.m_ptr) value_type(std::forward<Args>(args)...);
+    } else {
+        // Create the new element first, as the arguments may refer to elements
+        // that are about to be moved.
+        value_type value(std::forward<Args>(args)...);
 
-    // Instantiate the new value.
-    new (id.m_ptr) value_type(std::forward<Args>(args)...);
+        // Move the existing elements after "pos".
+        shift_up(id.m_index, 1);
+
+        // Instantiate the new value.
+        new (id.m_ptr) value_type(std::move(value));
+    }
 
     // Increment the size.
     ++m_size;
@@ -258,7 +283,18 @@ template <typename... Args>
 VECMEM_HOST_AND_DEVICE auto static_vector<TYPE, MAX_SIZE>::emplace_back(
     Args&&... args) -> reference {
 
-    return *(emplace(end(), std::forward<Args>(args)...));
+    // Make sure that one more position is available.
+    assert(m_size < array_max_size);
+
+    // Instantiate the new value. (There is nothing to move.)
+    pointer ptr = data() + m_size;
+    new (ptr) value_type(std::forward<Args>(args)...);
+
+    // Increment the size.
+    ++m_size;
+
+    // Return a reference to the new element.
+    return *ptr;
 }
 
 template <typename TYPE, std::size_t MAX_SIZE>
@@ -278,10 +314,8 @@ VECMEM_HOST_AND_DEVICE auto static_vector<TYPE, MAX_SIZE>::erase(
     // Destroy the object.
     destruct(id.m_index);
 
-    // Move up the payload of the elements from after the removed one.
-    memmove(static_cast<void*>(id.m_ptr),
-            static_cast<const void*>(id.m_ptr + 1),
-            (m_size - id.m_index - 1) * value_size);
+    // Move the elements from after the removed one.
+    shift_down(id.m_index + 1, 1);
 
     // Decrement the size.
     --m_size;
@@ -304,10 +338,8 @@ VECMEM_HOST_AND_DEVICE auto static_vector<TYPE, MAX_SIZE>::erase(
         destruct(i);
     }
 
-    // Move up the payload of the elements from after the removed range.
-    memmove(static_cast<void*>(first_id.m_ptr),
-            static_cast<const void*>(last_id.m_ptr),
-            (m_size - last_id.m_index) * value_size);
+    // Move the elements from after the removed range.
+    shift_down(last_id.m_index, last_id.m_index - first_id.m_index);
 
     // Decrease the size.
     m_size -= (last_id.m_index - first_id.m_index);
@@ -503,6 +535,47 @@ VECMEM_HOST_AND_DEVICE void static_vector<TYPE, MAX_SIZE>::destruct(
     ptr->~value_type();
 }
 
+template <typename TYPE, std::size_t MAX_SIZE>
+VECMEM_HOST_AND_DEVICE void static_vector<TYPE, MAX_SIZE>::shift_up(
+    size_type pos, size_type count) {
+
+    pointer ptr = data();
+    if constexpr (std::is_trivially_copyable<value_type>::value) {
+        memmove(static_cast<void*>(ptr + pos + count),
+                static_cast<const void*>(ptr + pos),
+                (m_size - pos) * value_size);
+    } else {
+        // Start with the last element, not to overwrite any of them.
+        for (size_type i = m_size; i > pos; --i) {
+            new (ptr + i - 1 + count) value_type(std::move(ptr[i - 1]));
+            ptr[i - 1].~value_type();
+        }
+    }
+}
+
+template <typename TYPE, std::size_t MAX_SIZE>
+VECMEM_HOST_AND_DEVICE void static_vector<TYPE, MAX_SIZE>::shift_down(
+    size_type pos, size_type count) {
+
+    // Check if anything needs to be done.
+    if (count == 0) {
+        return;
+    }
+
+    pointer ptr = data();
+    if constexpr (std::is_trivially_copyable<value_type>::value) {
+        memmove(static_cast<void*>(ptr + pos - count),
+                static_cast<const void*>(ptr + pos),
+                (m_size - pos) * value_size);
+    } else {
+        // Start with the first element, not to overwrite any of them.
+        for (size_type i = pos; i < m_size; ++i) {
+            new (ptr + i - count) value_type(std::move(ptr[i]));
+            ptr[i].~value_type();
+        }
+    }
+}
+
 template <typename TYPE, std::size_t MAX_SIZE>
 VECMEM_HOST_AND_DEVICE typename static_vector<TYPE, MAX_SIZE>::ElementId
 static_vector<TYPE, MAX_SIZE>::element_id(const_iterator pos) {
diff --git a/core/include/vecmem/containers/static_vector.hpp b/core/include/vecmem/containers/static_vector.hpp
index b447553..48f4cb9 100644
--- a/core/include/vecmem/containers/static_vector.hpp
+++ b/core/include/vecmem/containers/static_vector.hpp
@@ -308,6 +308,14 @@ private:
     VECMEM_HOST_AND_DEVICE
     void destruct(size_type pos);
 
+    /// Move all elements from @c pos on up by @c count positions
+    VECMEM_HOST_AND_DEVICE
+    void shift_up(size_type pos, size_type count);
+    /// Move all elements from @c pos on down by @c count positions, to where
+    /// there are no (more) elements
+    VECMEM_HOST_AND_DEVICE
+    void shift_down(size_type pos, size_type count);
+
     /// Helper type for identifying an element in the array
     struct ElementId {
         size_type m_index;
-- 
2.43.0


From ccc59c6952893ce9ca2d0b673ae9f830ad7b5041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:30 +0000
Subject: [PATCH 26/34] fix: Align the elements of static_vector

The storage was only aligned for its size variable, whatever the type of the
elements.
---
 core/include/vecmem/containers/static_vector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/include/vecmem/containers/static_vector.hpp b/core/include/vecmem/containers/static_vector.hpp
index 48f4cb9..206071a 100644
--- a/core/include/vecmem/containers/static_vector.hpp
+++ b/core/include/vecmem/containers/static_vector.hpp
@@ -328,7 +328,7 @@ private:
     /// Size of the vector
     size_type m_size;
     /// Array that holds the PoD elements of the vector
-    array_type m_elements;
+    alignas(value_type) array_type m_elements;
 
 };  // class static_vector
 
-- 
2.43.0


From aa48bb462b570f9ee04d93ec484a56650b21a2af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:23 +0000
Subject: [PATCH 27/34] fix: copy::to(jagged) must not read the sizes of the
 inner vectors directly

---
 core/include/vecmem/utils/impl/copy.ipp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/core/include/vecmem/utils/impl/copy.ipp b/core/include/vecmem/utils/impl/copy.ipp
index d73a789..bfb56ae 100644
--- a/core/include/vecmem/utils/impl/copy.ipp
+++ b/core/include/vecmem/utils/impl/copy.ipp
@@ -217,9 +217,11 @@ data::jagged_vector_buffer<std::remove_cv_t<TYPE>> copy::to(
     const data::jagged_vector_view<TYPE>& data, memory_resource& resource,
     memory_resource* host_access_resource, type::copy_type cptype) const {
 
-    // Create the result buffer object.
+    // Create the result buffer object. Making sure that the sizes of the inner
+    // vectors would not be accessed directly, as they may not be accessible
+    // from the host.
     data::jagged_vector_buffer<std::remove_cv_t<TYPE>> result(
-        data, resource, host_access_resource);
+        get_sizes(data), resource, host_access_resource);
     assert(result.size() == data.size());
 
     // Copy the description of the "inner vectors" if necessary.
-- 
2.43.0


From 108674796aac215ba72747c0f28bc5a6ad68c43c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:23 +0000
Subject: [PATCH 28/34] fix: copy::memset must accept empty jagged vectors

---
 core/include/vecmem/utils/impl/copy.ipp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/core/include/vecmem/utils/impl/copy.ipp b/core/include/vecmem/utils/impl/copy.ipp
index bfb56ae..25d0086 100644
--- a/core/include/vecmem/utils/impl/copy.ipp
+++ b/core/include/vecmem/utils/impl/copy.ipp
@@ -176,6 +176,11 @@ template <typename TYPE>
 copy::event_type copy::memset(data::jagged_vector_view<TYPE> data,
                               int value) const {
 
+    // Check if anything needs to be done.
+    if (data.size() == 0) {
+        return vecmem::copy::create_event();
+    }
+
     // Do different things for jagged vectors that are contiguous in memory.
     if (is_contiguous(data.host_ptr(), data.capacity())) {
         // For contiguous jagged vectors we can just do a single memset
-- 
2.43.0


From 6cec4adf36717cb8519bbe0039337393eb8abe5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:23 +0000
Subject: [PATCH 29/34] fix: copying an empty vector must empty a resizable
 target

---
 core/include/vecmem/utils/impl/copy.ipp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/core/include/vecmem/utils/impl/copy.ipp b/core/include/vecmem/utils/impl/copy.ipp
index 25d0086..6e55a88 100644
--- a/core/include/vecmem/utils/impl/copy.ipp
+++ b/core/include/vecmem/utils/impl/copy.ipp
@@ -499,10 +499,6 @@ bool copy::copy_view_impl(
     // Get the size of the source view.
     const typename data::vector_view<std::add_const_t<TYPE>>::size_type size =
         get_size(from_view);
-    // If it's zero, don't do an actual copy.
-    if (size == 0u) {
-        return false;
-    }
 
     // Make sure that the copy can happen.
     if (to_view.capacity() < size) {
@@ -540,6 +536,11 @@ bool copy::copy_view_impl(
         create_event()->wait();
     }
 
+    // If the source is empty, there is no payload to copy.
+    if (size == 0u) {
+        return false;
+    }
+
     // Copy the payload.
     do_copy(size * sizeof(TYPE), from_view.ptr(), to_view.ptr(), cptype);
     return true;
-- 
2.43.0


From ffce13429849e3e859268972feff0daa79d26321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:51 +0000
Subject: [PATCH 30/34] fix: copy::setup must initialise the size of structured
 buffers without capacity

---
 core/include/vecmem/utils/impl/copy.ipp | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/core/include/vecmem/utils/impl/copy.ipp b/core/include/vecmem/utils/impl/copy.ipp
index 6e55a88..b280437 100644
--- a/core/include/vecmem/utils/impl/copy.ipp
+++ b/core/include/vecmem/utils/impl/copy.ipp
@@ -337,14 +337,9 @@ copy::event_type copy::set_sizes(
 template <typename SCHEMA>
 copy::event_type copy::setup(edm::view<SCHEMA> data) const {
 
-    // For empty containers nothing needs to be done.
-    if (data.capacity() == 0) {
-        return vecmem::copy::create_event();
-    }
-
     // Copy the data layout to the device, if needed.
-    if (data.layout().ptr() != data.host_layout().ptr()) {
-        assert(data.layout().capacity() > 0u);
+    if ((data.layout().ptr() != data.host_layout().ptr()) &&
+        (data.layout().capacity() > 0u)) {
         [[maybe_unused]] bool did_copy =
             copy_view_impl(data.host_layout(), data.layout(), type::unknown);
         assert(did_copy);
-- 
2.43.0


From 3266f45e8b51d81f21d2b75acff0781c11ef8891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:28 +0000
Subject: [PATCH 31/34] fix: only copy structured buffers bytewise if their
 layouts agree

---
 core/include/vecmem/utils/copy.hpp      |  6 +++
 core/include/vecmem/utils/impl/copy.ipp | 59 +++++++++++++++++++++++--
 2 files changed, 62 insertions(+), 3 deletions(-)

diff --git a/core/include/vecmem/utils/copy.hpp b/core/include/vecmem/utils/copy.hpp
index e548d85..9e95210 100644
--- a/core/include/vecmem/utils/copy.hpp
+++ b/core/include/vecmem/utils/copy.hpp
@@ -243,6 +243,12 @@ private:
             from,
         edm::host<edm::schema<VARTYPES...>, INTERFACE>& to,
         type::copy_type cptype) const;
+    /// Check if the payloads of two SoA containers have the same layout
+    template <std::size_t INDEX, typename... VARTYPES>
+    static bool has_same_layout(
+        const edm::view<edm::details::add_const_t<edm::schema<VARTYPES...>>>&
+            from,
+        const edm::view<edm::schema<VARTYPES...>>& to);
     /// Implementation for the variadic @c copy function (for the sizes)
     template <std::size_t INDEX, typename... VARTYPES>
     void copy_sizes_impl(
diff --git a/core/include/vecmem/utils/impl/copy.ipp b/core/include/vecmem/utils/impl/copy.ipp
index b280437..6cd14e3 100644
--- a/core/include/vecmem/utils/impl/copy.ipp
+++ b/core/include/vecmem/utils/impl/copy.ipp
@@ -383,11 +383,12 @@ copy::event_type copy::operator()(
         from_view,
     edm::view<edm::schema<VARTYPES...>> to_view, type::copy_type cptype) const {
 
-    // First, handle the simple case, when both views have a contiguous memory
-    // layout.
+    // First, handle the simple case, when both views have the same, contiguous
+    // memory layout.
     if ((from_view.payload().ptr() != nullptr) &&
         (to_view.payload().ptr() != nullptr) &&
-        (from_view.payload().capacity() == to_view.payload().capacity())) {
+        (from_view.payload().capacity() == to_view.payload().capacity()) &&
+        has_same_layout<0>(from_view, to_view)) {
 
         // If the "common size" is zero, we're done.
         if (from_view.payload().capacity() == 0) {
@@ -844,6 +845,58 @@ void copy::resize_impl(
     }
 }
 
+template <std::size_t INDEX, typename... VARTYPES>
+bool copy::has_same_layout(
+    const edm::view<edm::details::add_const_t<edm::schema<VARTYPES...>>>&
+        from_view,
+    const edm::view<edm::schema<VARTYPES...>>& to_view) {
+
+    // Helper for checking whether two pieces of memory are at the same position
+    // in the payload of their respective containers.
+    auto same_position = [&](const void* from_ptr, const void* to_ptr) {
+        return (static_cast<const char*>(from_ptr) -
+                reinterpret_cast<const char*>(from_view.payload().ptr())) ==
+               (static_cast<const char*>(to_ptr) -
+                reinterpret_cast<const char*>(to_view.payload().ptr()));
+    };
+
+    // Check the current variable.
+    using variable_type =
+        typename std::tuple_element<INDEX, std::tuple<VARTYPES...>>::type;
+    const auto& from = from_view.template get<INDEX>();
+    const auto& to = to_view.template get<INDEX>();
+    if constexpr (edm::type::details::is_scalar<variable_type>::value) {
+        if (!same_position(from, to)) {
+            return false;
+        }
+    } else if constexpr (edm::type::details::is_jagged_vector<
+                             variable_type>::value) {
+        if (from.size() != to.size()) {
+            return false;
+        }
+        for (std::size_t i = 0; i < from.size(); ++i) {
+            const auto& from_inner = from.host_ptr()[i];
+            const auto& to_inner = to.host_ptr()[i];
+            if ((from_inner.capacity() != to_inner.capacity()) ||
+                ((from_inner.capacity() != 0u) &&
+                 !same_position(from_inner.ptr(), to_inner.ptr()))) {
+                return false;
+            }
+        }
+    } else {
+        if ((from.capacity() != to.capacity()) ||
+            ((from.capacity() != 0u) && !same_position(from.ptr(), to.ptr()))) {
+            return false;
+        }
+    }
+    // Check the rest of the variables.
+    if constexpr (sizeof...(VARTYPES) > (INDEX + 1)) {
+        return has_same_layout<INDEX + 1>(from_view, to_view);
+    } else {
+        return true;
+    }
+}
+
 template <std::size_t INDEX, typename... VARTYPES>
 void copy::copy_sizes_impl(
     [[maybe_unused]] const edm::view<
-- 
2.43.0


From 30b2e5a607a3c1d528185addaa285a1ee57fbe35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:59 +0000
Subject: [PATCH 32/34] fix: let jagged_device_vector iterators be converted to
 constant ones

The converting constructor of jagged_device_vector_iterator accepted every
other iterator type, but could not be instantiated with any: it accessed a
private member of another class, and assigned pointers to different types.
Conversions from jagged_device_vector<T>::iterator to const_iterator (and those
of the reverse iterators built on top of them) did not compile, even though
std::is_convertible reported that they would, in both directions.
---
 .../details/jagged_device_vector_iterator.hpp        | 12 +++++++++---
 .../impl/jagged_device_vector_iterator.ipp           |  7 ++++---
 2 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/core/include/vecmem/containers/details/jagged_device_vector_iterator.hpp b/core/include/vecmem/containers/details/jagged_device_vector_iterator.hpp
index 8bb0f5d..186cf57 100644
--- a/core/include/vecmem/containers/details/jagged_device_vector_iterator.hpp
+++ b/core/include/vecmem/containers/details/jagged_device_vector_iterator.hpp
@@ -33,6 +33,10 @@ namespace details {
 template <typename TYPE>
 class jagged_device_vector_iterator {
 
+    /// Make the "slightly different" iterators friends of this class
+    template <typename OTHERTYPE>
+    friend class jagged_device_vector_iterator;
+
 public:
     /// @name Types describing the underlying data
     /// @{
@@ -102,10 +106,12 @@ public:
     /// Copy constructor
     VECMEM_HOST_AND_DEVICE
     jagged_device_vector_iterator(const jagged_device_vector_iterator& parent);
-    /// Copy constructor
-    template <typename T>
+    /// Constructor from a "slightly different" iterator
+    template <typename OTHERTYPE,
+              std::enable_if_t<details::is_same_nc<TYPE, OTHERTYPE>::value,
+                               bool> = true>
     VECMEM_HOST_AND_DEVICE jagged_device_vector_iterator(
-        const jagged_device_vector_iterator<T>& parent);
+        const jagged_device_vector_iterator<OTHERTYPE>& parent);
 
     /// Copy assignment operator
     VECMEM_HOST_AND_DEVICE
diff --git a/core/include/vecmem/containers/impl/jagged_device_vector_iterator.ipp b/core/include/vecmem/containers/impl/jagged_device_vector_iterator.ipp
index 866484d..bbef9fe 100644
--- a/core/include/vecmem/containers/impl/jagged_device_vector_iterator.ipp
+++ b/core/include/vecmem/containers/impl/jagged_device_vector_iterator.ipp
@@ -58,11 +58,12 @@ jagged_device_vector_iterator<TYPE>::jagged_device_vector_iterator(
     : m_ptr(parent.m_ptr) {}
 
 template <typename TYPE>
-template <typename T>
+template <typename OTHERTYPE,
+          std::enable_if_t<details::is_same_nc<TYPE, OTHERTYPE>::value, bool> >
 VECMEM_HOST_AND_DEVICE
 jagged_device_vector_iterator<TYPE>::jagged_device_vector_iterator(
-    const jagged_device_vector_iterator<T>& parent)
-    : m_ptr(parent.m_ptr) {}
+    const jagged_device_vector_iterator<OTHERTYPE>& parent)
+    : m_ptr(reinterpret_cast<data_pointer>(parent.m_ptr)) {}
 
 template <typename TYPE>
 VECMEM_HOST_AND_DEVICE jagged_device_vector_iterator<TYPE>&
-- 
2.43.0


From 106259ad8ef019f9a1401d9eff293d95b83ab6d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:14:50 +0000
Subject: [PATCH 33/34] fix: copy structured buffers of more than 4 GiB
 completely

The size of the payload was truncated to 32 bits when describing it as a
single block of memory, so copy and memset only acted on a part of it.
---
 core/include/vecmem/edm/details/buffer_traits.hpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/core/include/vecmem/edm/details/buffer_traits.hpp b/core/include/vecmem/edm/details/buffer_traits.hpp
index 117b98a..6f586bf 100644
--- a/core/include/vecmem/edm/details/buffer_traits.hpp
+++ b/core/include/vecmem/edm/details/buffer_traits.hpp
@@ -17,6 +17,7 @@
 
 // System include(s).
 #include <array>
+#include <limits>
 #include <numeric>
 #include <tuple>
 #include <type_traits>
@@ -252,8 +253,16 @@ find_payload_view(
         reinterpret_cast<typename result_type::pointer>(find_last_pointer(
             payloads, sizes, std::index_sequence_for<TYPES...>()));
 
+    // A payload that is larger than what the view type can describe, can not
+    // be represented. The variables need to be accessed one by one in that
+    // case.
+    const std::size_t size = static_cast<std::size_t>(end_ptr - ptr);
+    if (size > std::numeric_limits<typename result_type::size_type>::max()) {
+        return {0, nullptr};
+    }
+
     // Construct the result.
-    return {static_cast<typename result_type::size_type>(end_ptr - ptr), ptr};
+    return {static_cast<typename result_type::size_type>(size), ptr};
 }
 
 }  // namespace vecmem::edm::details
-- 
2.43.0


From 399debf921602e98eb05f0fe23e8b8356bf32c15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:53:02 +0000
Subject: [PATCH 34/34] fix: SYCL queue wrapper keeps its old queue when a view
 is assigned to it

Copies that are made of such a wrapper later would be about the old queue,
and not about the queue that the wrapper points at.
---
 sycl/src/utils/sycl/queue_wrapper.sycl | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/sycl/src/utils/sycl/queue_wrapper.sycl b/sycl/src/utils/sycl/queue_wrapper.sycl
index f6f2d4e..d831c4b 100644
--- a/sycl/src/utils/sycl/queue_wrapper.sycl
+++ b/sycl/src/utils/sycl/queue_wrapper.sycl
@@ -84,8 +84,12 @@ queue_wrapper& queue_wrapper::operator=(const queue_wrapper& rhs) {
             std::make_unique<details::opaque_queue>(*(rhs.m_managedQueue));
         m_queue = m_managedQueue.get();
     } else {
-        // If not, then let's just point at the same queue that somebody else
-        // owns.
+        // If not, then let go of the queue that this object may have owned (if
+        // it is another one), and just point at the same queue that somebody
+        // else owns.
+        if (rhs.m_queue != m_queue) {
+            m_managedQueue.reset();
+        }
         m_queue = rhs.m_queue;
     }
 
-- 
2.43.0

