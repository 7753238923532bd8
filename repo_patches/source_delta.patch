From e00dc2d93f3aaf59550f5f3f0dcd9ca7a4f7cd9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:15 +0000
Subject: [PATCH 01/31] fix: arena resource gives every superblock back exactly
 once and never hands out null

An allocation larger than the superblock size used to add a minimum-sized
superblock, so no block fitted and null was returned; the superblock was
also inserted twice and coalesced with itself, and the destructor returned
coalesced blocks rather than the superblocks obtained from upstream.
---
 .../details/arena_memory_resource_impl.cpp    | 36 +++++++++----------
 .../details/arena_memory_resource_impl.hpp    |  3 ++
 2 files changed, 19 insertions(+), 20 deletions(-)

diff --git a/core/src/memory/details/arena_memory_resource_impl.cpp b/core/src/memory/details/arena_memory_resource_impl.cpp
index 54692b6..d5d98f4 100644
--- a/core/src/memory/details/arena_memory_resource_impl.cpp
+++ b/core/src/memory/details/arena_memory_resource_impl.cpp
@@ -12,6 +12,7 @@
 // System include(s).
 #include <algorithm>
 #include <cassert>
+#include <new>
 
 namespace {
 
@@ -103,17 +104,10 @@ arena_memory_resource_impl::arena_memory_resource_impl(std::size_t initial_size,
 
 arena_memory_resource_impl::~arena_memory_resource_impl() {
 
-    for (auto itr = allocated_blocks_.begin();
-         itr != allocated_blocks_.end();) {
-        auto aux = itr++;
-        deallocate(aux->pointer(), aux->size());
-    }
-
-    for (auto itr = free_blocks_.begin(); itr != free_blocks_.end();) {
-        auto aux = itr++;
-        void* p = aux->pointer();
-        std::size_t size = aux->size();
-        mm_.deallocate(p, size);
+    // Free blocks may have been coalesced across superblocks, so it is the
+    // superblocks that need to be given back, exactly as they were received.
+    for (auto const& b : superblocks_) {
+        mm_.deallocate(b.pointer(), b.size());
     }
 }
 
@@ -122,6 +116,9 @@ void* arena_memory_resource_impl::allocate(std::size_t bytes, std::size_t) {
     bytes = align_up(bytes);
 
     auto const b = get_block(bytes);
+    if (!b.is_valid()) {
+        throw std::bad_alloc();
+    }
     this->allocated_blocks_.emplace(b);
 
     return b.pointer();
@@ -178,7 +175,8 @@ arena_memory_resource_impl::block arena_memory_resource_impl::coalesce_block(
     auto const previous = next == free_blocks.cbegin() ? next : std::prev(next);
 
     // coalesce with neighboring blocks
-    bool const merge_prev = previous->is_contiguous_before(b);
+    bool const merge_prev = previous != free_blocks.cend() &&
+                            previous->is_contiguous_before(b);
     bool const merge_next =
         next != free_blocks.cend() && b.is_contiguous_before(*next);
 
@@ -230,16 +228,14 @@ arena_memory_resource_impl::block arena_memory_resource_impl::get_block(
 arena_memory_resource_impl::block arena_memory_resource_impl::expand_arena(
     std::size_t size) {
 
-    if (size > this->size_superblocks_)
-        size = minimum_superblock_size;
-    else {
-        size = size_superblocks_;
-    }
-    std::pair<std::set<block>::iterator, bool> ret =
-        free_blocks_.insert({mm_.allocate(size), size});
+    // A superblock must always be able to hold the requested block.
+    size = std::max(size, size_superblocks_);
+    superblocks_.reserve(superblocks_.size() + 1);
+    block const superblock{mm_.allocate(size), size};
+    superblocks_.push_back(superblock);
 
     current_size_ += size;
-    return *(ret.first);
+    return superblock;
 }
 
 arena_memory_resource_impl::block arena_memory_resource_impl::free_block(
diff --git a/core/src/memory/details/arena_memory_resource_impl.hpp b/core/src/memory/details/arena_memory_resource_impl.hpp
index 7c290f8..8b44289 100644
--- a/core/src/memory/details/arena_memory_resource_impl.hpp
+++ b/core/src/memory/details/arena_memory_resource_impl.hpp
@@ -15,6 +15,7 @@
 #include <cstddef>
 #include <limits>
 #include <set>
+#include <vector>
 
 namespace vecmem::details {
 
@@ -149,6 +150,8 @@ private:
     // Address-ordered set of free blocks
     std::set<block> free_blocks_;
     std::set<block> allocated_blocks_;
+    // Blocks received from the upstream memory resource
+    std::vector<block> superblocks_;
 
 };  // class arena_memory_resource_impl
 
-- 
2.43.0


From fe34b554bce764df10fafcad4b32b8dda48997e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:15 +0000
Subject: [PATCH 02/31] fix: coalescing resource does not lose an allocation it
 cannot record

A bad_alloc from recording the allocation was taken for a failure of the
upstream resource: the block was leaked, and another one was allocated.
---
 .../coalescing_memory_resource_impl.cpp       | 27 ++++++++++++++-----
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/core/src/memory/details/coalescing_memory_resource_impl.cpp b/core/src/memory/details/coalescing_memory_resource_impl.cpp
index cf8b653..17dabce 100644
--- a/core/src/memory/details/coalescing_memory_resource_impl.cpp
+++ b/core/src/memory/details/coalescing_memory_resource_impl.cpp
@@ -29,22 +29,35 @@ void *coalescing_memory_resource_impl::allocate(std::size_t size,
      * Try to allocate with each of the upstream resources.
      */
     for (memory_resource &res : m_upstreams) {
+        void *ptr = nullptr;
+
         try {
             /*
-             * Try to allocate the memory, and store the result with the
-             * allocator reference in the allocation map.
+             * Try to allocate the memory.
              */
-            void *ptr = res.allocate(size, align);
-
-            m_allocations.emplace(ptr, res);
-
-            return ptr;
+            ptr = res.allocate(size, align);
         } catch (std::bad_alloc &) {
             /*
              * If we cannot allocate with this resource, try the next one.
              */
             continue;
         }
+
+        try {
+            /*
+             * Store the result with the allocator reference in the allocation
+             * map.
+             */
+            m_allocations.emplace(ptr, res);
+        } catch (...) {
+            /*
+             * If we cannot remember the allocation, give it back.
+             */
+            res.deallocate(ptr, size, align);
+            throw;
+        }
+
+        return ptr;
     }
 
     /*
-- 
2.43.0


From bc0ac0454b01e4b5676138070ab45e8d9f09b292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:15 +0000
Subject: [PATCH 03/31] fix: choice resource gives back an allocation it cannot
 record

---
 .../src/memory/details/choice_memory_resource_impl.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/core/src/memory/details/choice_memory_resource_impl.cpp b/core/src/memory/details/choice_memory_resource_impl.cpp
index 383bffc..c039bed 100644
--- a/core/src/memory/details/choice_memory_resource_impl.cpp
+++ b/core/src/memory/details/choice_memory_resource_impl.cpp
@@ -34,7 +34,15 @@ void *choice_memory_resource_impl::allocate(std::size_t size,
 
     void *ptr = res.allocate(size, align);
 
-    m_allocations.emplace(ptr, res);
+    try {
+        m_allocations.emplace(ptr, res);
+    } catch (...) {
+        /*
+         * If we cannot remember the allocation, give it back.
+         */
+        res.deallocate(ptr, size, align);
+        throw;
+    }
 
     return ptr;
 }
-- 
2.43.0


From 202ea602018373aaac3520bf5114e49d71c9c44b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:15 +0000
Subject: [PATCH 04/31] fix: debug resource gives back an allocation it cannot
 record

---
 core/src/memory/details/debug_memory_resource_impl.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/core/src/memory/details/debug_memory_resource_impl.cpp b/core/src/memory/details/debug_memory_resource_impl.cpp
index 3dd2740..be6a660 100644
--- a/core/src/memory/details/debug_memory_resource_impl.cpp
+++ b/core/src/memory/details/debug_memory_resource_impl.cpp
@@ -61,7 +61,15 @@ void *debug_memory_resource_impl::allocate(std::size_t size,
     /*
      * Store the current allocation as an outstanding one.
      */
-    m_allocations.emplace(ptr, std::pair(size, align));
+    try {
+        m_allocations.emplace(ptr, std::pair(size, align));
+    } catch (...) {
+        /*
+         * If we cannot remember the allocation, give it back.
+         */
+        m_upstream.deallocate(ptr, size, align);
+        throw;
+    }
 
     return ptr;
 }
-- 
2.43.0


From ffbcc4048bd6ea16f1f441bc010dbeeecaa70f96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:35 +0000
Subject: [PATCH 05/31] fix: copying an empty vector sets the size of a
 resizable target

---
 core/include/vecmem/utils/impl/copy.ipp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/core/include/vecmem/utils/impl/copy.ipp b/core/include/vecmem/utils/impl/copy.ipp
index d73a789..ed0a48b 100644
--- a/core/include/vecmem/utils/impl/copy.ipp
+++ b/core/include/vecmem/utils/impl/copy.ipp
@@ -492,10 +492,6 @@ bool copy::copy_view_impl(
     // Get the size of the source view.
     const typename data::vector_view<std::add_const_t<TYPE>>::size_type size =
         get_size(from_view);
-    // If it's zero, don't do an actual copy.
-    if (size == 0u) {
-        return false;
-    }
 
     // Make sure that the copy can happen.
     if (to_view.capacity() < size) {
@@ -533,6 +529,11 @@ bool copy::copy_view_impl(
         create_event()->wait();
     }
 
+    // If the source is empty, there is no payload to copy.
+    if (size == 0u) {
+        return false;
+    }
+
     // Copy the payload.
     do_copy(size * sizeof(TYPE), from_view.ptr(), to_view.ptr(), cptype);
     return true;
-- 
2.43.0


From 799438e4d22a7528fc0da699b4233b1fef090d18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:04 +0000
Subject: [PATCH 06/31] fix: copy::to does not read the sizes of a jagged
 vector on the host directly

---
 core/include/vecmem/utils/impl/copy.ipp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/include/vecmem/utils/impl/copy.ipp b/core/include/vecmem/utils/impl/copy.ipp
index ed0a48b..84952b1 100644
--- a/core/include/vecmem/utils/impl/copy.ipp
+++ b/core/include/vecmem/utils/impl/copy.ipp
@@ -219,7 +219,7 @@ data::jagged_vector_buffer<std::remove_cv_t<TYPE>> copy::to(
 
     // Create the result buffer object.
     data::jagged_vector_buffer<std::remove_cv_t<TYPE>> result(
-        data, resource, host_access_resource);
+        get_sizes(data), resource, host_access_resource);
     assert(result.size() == data.size());
 
     // Copy the description of the "inner vectors" if necessary.
-- 
2.43.0


From e154f5e8d644fe0e32704f33570352c77fcfcb85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:01 +0000
Subject: [PATCH 07/31] fix: copy::memset accepts an empty jagged vector

---
 core/include/vecmem/utils/impl/copy.ipp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/core/include/vecmem/utils/impl/copy.ipp b/core/include/vecmem/utils/impl/copy.ipp
index 84952b1..af19e68 100644
--- a/core/include/vecmem/utils/impl/copy.ipp
+++ b/core/include/vecmem/utils/impl/copy.ipp
@@ -176,6 +176,11 @@ template <typename TYPE>
 copy::event_type copy::memset(data::jagged_vector_view<TYPE> data,
                               int value) const {
 
+    // Check if anything needs to be done.
+    if (data.size() == 0) {
+        return vecmem::copy::create_event();
+    }
+
     // Do different things for jagged vectors that are contiguous in memory.
     if (is_contiguous(data.host_ptr(), data.capacity())) {
         // For contiguous jagged vectors we can just do a single memset
-- 
2.43.0


From 01190714431008b2f33c491cedb03d3161a3eb70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:37 +0000
Subject: [PATCH 08/31] fix: copy::set_sizes rejects partially resizable jagged
 vectors in any order

---
 core/include/vecmem/utils/impl/copy.ipp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/core/include/vecmem/utils/impl/copy.ipp b/core/include/vecmem/utils/impl/copy.ipp
index af19e68..e1fef0f 100644
--- a/core/include/vecmem/utils/impl/copy.ipp
+++ b/core/include/vecmem/utils/impl/copy.ipp
@@ -298,7 +298,7 @@ copy::event_type copy::set_sizes(
     }
     // Make sure that the target jagged vector is either resizable, or it has
     // the correct sizes/capacities already.
-    bool perform_copy = true;
+    const bool perform_copy = (data.host_ptr()[0].size_ptr() != nullptr);
     for (typename data::jagged_vector_view<TYPE>::size_type i = 0;
          i < data.size(); ++i) {
         // Perform a capacity check in all cases. Whether or not the target is
@@ -312,9 +312,7 @@ copy::event_type copy::set_sizes(
         }
         // Make sure that the inner vectors are consistently either all
         // resizable, or none of them are.
-        if (data.host_ptr()[i].size_ptr() == nullptr) {
-            perform_copy = false;
-        } else if (perform_copy == false) {
+        if ((data.host_ptr()[i].size_ptr() != nullptr) != perform_copy) {
             throw std::runtime_error(
                 "Inconsistent target jagged vector view received for resizing");
         }
-- 
2.43.0


From 472d3eb13fc2d628aa5f303631d98b81c2007d2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:21 +0000
Subject: [PATCH 09/31] fix: copy SoA containers in one go only if their
 layouts match

---
 core/include/vecmem/utils/copy.hpp      |  6 +++++
 core/include/vecmem/utils/impl/copy.ipp | 36 ++++++++++++++++++++++++-
 2 files changed, 41 insertions(+), 1 deletion(-)

diff --git a/core/include/vecmem/utils/copy.hpp b/core/include/vecmem/utils/copy.hpp
index e548d85..cf831bd 100644
--- a/core/include/vecmem/utils/copy.hpp
+++ b/core/include/vecmem/utils/copy.hpp
@@ -232,6 +232,12 @@ private:
     template <typename TYPE>
     static bool is_contiguous(const data::vector_view<TYPE>* data,
                               std::size_t size);
+    /// Check if the variables of two SoA containers are laid out the same way
+    template <std::size_t INDEX, typename... VARTYPES>
+    static bool have_same_layout_impl(
+        const edm::view<edm::details::add_const_t<edm::schema<VARTYPES...>>>&
+            from,
+        const edm::view<edm::schema<VARTYPES...>>& to);
     /// Implementation for the variadic @c memset function
     template <std::size_t INDEX, typename... VARTYPES>
     void memset_impl(edm::view<edm::schema<VARTYPES...>> data, int value) const;
diff --git a/core/include/vecmem/utils/impl/copy.ipp b/core/include/vecmem/utils/impl/copy.ipp
index e1fef0f..bb91518 100644
--- a/core/include/vecmem/utils/impl/copy.ipp
+++ b/core/include/vecmem/utils/impl/copy.ipp
@@ -388,7 +388,8 @@ copy::event_type copy::operator()(
     // layout.
     if ((from_view.payload().ptr() != nullptr) &&
         (to_view.payload().ptr() != nullptr) &&
-        (from_view.payload().capacity() == to_view.payload().capacity())) {
+        (from_view.payload().capacity() == to_view.payload().capacity()) &&
+        have_same_layout_impl<0>(from_view, to_view)) {
 
         // If the "common size" is zero, we're done.
         if (from_view.payload().capacity() == 0) {
@@ -746,6 +747,39 @@ bool copy::is_contiguous(const data::vector_view<TYPE>* data,
     return true;
 }
 
+template <std::size_t INDEX, typename... VARTYPES>
+bool copy::have_same_layout_impl(
+    const edm::view<edm::details::add_const_t<edm::schema<VARTYPES...>>>&
+        from_view,
+    const edm::view<edm::schema<VARTYPES...>>& to_view) {
+
+    // Payloads of the same size may still be shared differently between the
+    // (inner) vectors of the two containers.
+    if (from_view.capacity() != to_view.capacity()) {
+        return false;
+    }
+    if constexpr (edm::type::details::is_jagged_vector<
+                      typename std::tuple_element<
+                          INDEX, std::tuple<VARTYPES...>>::type>::value) {
+        const auto& from = from_view.template get<INDEX>();
+        const auto& to = to_view.template get<INDEX>();
+        if (from.size() != to.size()) {
+            return false;
+        }
+        for (std::size_t i = 0; i < from.size(); ++i) {
+            if (from.host_ptr()[i].capacity() != to.host_ptr()[i].capacity()) {
+                return false;
+            }
+        }
+    }
+    // Recurse into the next variable.
+    if constexpr (sizeof...(VARTYPES) > (INDEX + 1)) {
+        return have_same_layout_impl<INDEX + 1>(from_view, to_view);
+    } else {
+        return true;
+    }
+}
+
 template <std::size_t INDEX, typename... VARTYPES>
 void copy::memset_impl(edm::view<edm::schema<VARTYPES...>> data,
                        int value) const {
-- 
2.43.0


From 3a7d14317b2df0253738e663acbbb184a5d3642e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:18 +0000
Subject: [PATCH 10/31] fix: arena_memory_resource respects its maximum size

The documented maximum of the memory taken from the upstream resource was
stored but never looked at.
---
 core/src/memory/details/arena_memory_resource_impl.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/core/src/memory/details/arena_memory_resource_impl.cpp b/core/src/memory/details/arena_memory_resource_impl.cpp
index d5d98f4..8b13dfa 100644
--- a/core/src/memory/details/arena_memory_resource_impl.cpp
+++ b/core/src/memory/details/arena_memory_resource_impl.cpp
@@ -230,6 +230,12 @@ arena_memory_resource_impl::block arena_memory_resource_impl::expand_arena(
 
     // A superblock must always be able to hold the requested block.
     size = std::max(size, size_superblocks_);
+
+    // Never take more memory from upstream than what was allowed.
+    if ((current_size_ > maximum_size_) ||
+        (size > maximum_size_ - current_size_)) {
+        throw std::bad_alloc();
+    }
     superblocks_.reserve(superblocks_.size() + 1);
     block const superblock{mm_.allocate(size), size};
     superblocks_.push_back(superblock);
-- 
2.43.0


From 77a5c9edfef59419332ef49f967aa8f0510ed920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:12 +0000
Subject: [PATCH 11/31] fix: arena_memory_resource rejects sizes it cannot
 round up

---
 core/src/memory/details/arena_memory_resource_impl.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/core/src/memory/details/arena_memory_resource_impl.cpp b/core/src/memory/details/arena_memory_resource_impl.cpp
index 8b13dfa..8999465 100644
--- a/core/src/memory/details/arena_memory_resource_impl.cpp
+++ b/core/src/memory/details/arena_memory_resource_impl.cpp
@@ -113,6 +113,10 @@ arena_memory_resource_impl::~arena_memory_resource_impl() {
 
 void* arena_memory_resource_impl::allocate(std::size_t bytes, std::size_t) {
 
+    // The size rounded up to the block granularity must be representable.
+    if (align_up(bytes) < bytes) {
+        throw std::bad_alloc();
+    }
     bytes = align_up(bytes);
 
     auto const b = get_block(bytes);
-- 
2.43.0


From 3894ac9f443246a50cc8857ad98fc90361a6436a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:00 +0000
Subject: [PATCH 12/31] fix: binary_page_memory_resource rejects sizes beyond
 its largest page

---
 .../details/binary_page_memory_resource_impl.cpp       | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/core/src/memory/details/binary_page_memory_resource_impl.cpp b/core/src/memory/details/binary_page_memory_resource_impl.cpp
index 33741eb..d775f9f 100644
--- a/core/src/memory/details/binary_page_memory_resource_impl.cpp
+++ b/core/src/memory/details/binary_page_memory_resource_impl.cpp
@@ -15,7 +15,9 @@
 // System include(s).
 #include <algorithm>
 #include <cassert>
+#include <limits>
 #include <memory>
+#include <new>
 #include <optional>
 #include <stdexcept>
 
@@ -27,6 +29,14 @@ binary_page_memory_resource_impl::binary_page_memory_resource_impl(
 
 void *binary_page_memory_resource_impl::allocate(std::size_t size,
                                                  std::size_t) {
+    /*
+     * A request bigger than the biggest representable power of two cannot be
+     * served by any page.
+     */
+    if (size > (std::numeric_limits<std::size_t>::max() / 2 + 1)) {
+        throw std::bad_alloc();
+    }
+
     /*
      * First, we round our allocation request up to a power of two, since
      * that is what the sizes of all our pages are.
-- 
2.43.0


From d3406e1cfa122829cc78784a0ad47e4fd6d7acaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:02 +0000
Subject: [PATCH 13/31] fix: host_memory_resource rejects sizes it cannot round
 up

---
 core/src/memory/host_memory_resource.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/core/src/memory/host_memory_resource.cpp b/core/src/memory/host_memory_resource.cpp
index c9454b1..5ba586e 100644
--- a/core/src/memory/host_memory_resource.cpp
+++ b/core/src/memory/host_memory_resource.cpp
@@ -16,6 +16,7 @@
 #include <cstddef>
 #include <cstdlib>
 #include <memory>
+#include <new>
 
 namespace vecmem {
 
@@ -37,6 +38,10 @@ void *host_memory_resource::do_allocate(std::size_t bytes,
     // values.
     const std::size_t align = std::max(alignment, alignof(std::max_align_t));
     const std::size_t size = bytes + (align - (bytes % align));
+    // The rounded up size must be representable.
+    if (size < bytes) {
+        throw std::bad_alloc();
+    }
     void *ptr = std::aligned_alloc(align, size);
     // If the alignment failed for some reason, throw an exception.
     if (ptr == nullptr) {
@@ -48,6 +53,10 @@ void *host_memory_resource::do_allocate(std::size_t bytes,
     // pointer to the beginning of the unaligned memory blob before
     // the aligned pointer.
     std::size_t alloc_bytes = bytes + alignment + sizeof(void *) - 1;
+    // The size of the full memory blob must be representable.
+    if (alloc_bytes < bytes) {
+        throw std::bad_alloc();
+    }
     void *unaligned_ptr = std::malloc(alloc_bytes);
     // If the alignment failed for some reason, throw an exception.
     if (unaligned_ptr == nullptr) {
-- 
2.43.0


From f8f5583e356e5348e28eb881ce6c5fd5aaf47b4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:18 +0000
Subject: [PATCH 14/31] fix: pool_memory_resource rejects options that give
 empty chunks

---
 core/src/memory/details/pool_memory_resource_impl.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/core/src/memory/details/pool_memory_resource_impl.cpp b/core/src/memory/details/pool_memory_resource_impl.cpp
index a2d78be..a64b4bc 100644
--- a/core/src/memory/details/pool_memory_resource_impl.cpp
+++ b/core/src/memory/details/pool_memory_resource_impl.cpp
@@ -49,6 +49,9 @@ void check_valid(const pool_memory_resource::options& opts) {
     CHECK_VALID(opts.min_blocks_per_chunk > opts.max_blocks_per_chunk);
     CHECK_VALID(opts.min_bytes_per_chunk > opts.max_bytes_per_chunk);
 
+    CHECK_VALID((opts.min_blocks_per_chunk == 0) &&
+                (opts.min_bytes_per_chunk < opts.largest_block_size));
+
     CHECK_VALID(opts.smallest_block_size > opts.largest_block_size);
 
     CHECK_VALID((opts.min_blocks_per_chunk * opts.smallest_block_size) >
-- 
2.43.0


From 6dcd1d633b5db5452f0b8afd9fe43fdc7f3a5a45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:11 +0000
Subject: [PATCH 15/31] fix: unique pointers respect the alignment of
 over-aligned types

make_unique_obj(...) and make_unique_alloc(...) always asked their memory
resource for memory with the default alignment.
---
 core/include/vecmem/memory/unique_ptr.hpp | 49 +++++++++++++++++------
 1 file changed, 37 insertions(+), 12 deletions(-)

diff --git a/core/include/vecmem/memory/unique_ptr.hpp b/core/include/vecmem/memory/unique_ptr.hpp
index a6362e6..cf180b4 100644
--- a/core/include/vecmem/memory/unique_ptr.hpp
+++ b/core/include/vecmem/memory/unique_ptr.hpp
@@ -8,6 +8,8 @@
 
 #pragma once
 
+#include <algorithm>
+#include <cstddef>
 #include <memory>
 #include <type_traits>
 
@@ -17,6 +19,18 @@
 #include "vecmem/vecmem_core_export.hpp"
 
 namespace vecmem {
+namespace details {
+/**
+ * @brief The alignment of the memory allocated for objects of a given type.
+ *
+ * This is the default alignment of memory resources, unless the type (or the
+ * element type of an array) is over-aligned.
+ */
+template <typename T>
+inline constexpr std::size_t unique_ptr_alignment =
+    std::max(alignof(std::remove_extent_t<T>), alignof(std::max_align_t));
+}  // namespace details
+
 /**
  * @brief A unique pointer type for non-trivial objects.
  *
@@ -79,7 +93,7 @@ make_unique_obj(memory_resource& m, Args&&... a) {
      * perform an allocation of the requested size.
      */
     std::size_t s = sizeof(T);
-    T* p = static_cast<T*>(m.allocate(s));
+    T* p = static_cast<T*>(m.allocate(s, details::unique_ptr_alignment<T>));
 
     /*
      * Perform a placement-new with forwarded arguments to construct the
@@ -90,7 +104,8 @@ make_unique_obj(memory_resource& m, Args&&... a) {
     /*
      * Create a new unique_ptr, with its own deleter, and return it.
      */
-    return unique_obj_ptr<T>(p, details::unique_obj_deleter<T>(m, s));
+    return unique_obj_ptr<T>(p, details::unique_obj_deleter<T>(
+                                    m, s, details::unique_ptr_alignment<T>));
 }
 
 /**
@@ -121,7 +136,8 @@ make_unique_obj(memory_resource& m, std::size_t n) {
      * perform an allocation of the requested size.
      */
     std::size_t s = n * sizeof(std::remove_extent_t<T>);
-    pointer_t p = static_cast<pointer_t>(m.allocate(s));
+    pointer_t p =
+        static_cast<pointer_t>(m.allocate(s, details::unique_ptr_alignment<T>));
 
     /*
      * Use placement-new to default-construct each of our elements.
@@ -133,7 +149,8 @@ make_unique_obj(memory_resource& m, std::size_t n) {
     /*
      * Create a new unique_ptr, with its own deleter, and return it.
      */
-    return unique_obj_ptr<T>(p, details::unique_obj_deleter<T>(m, s, 0, n));
+    return unique_obj_ptr<T>(p, details::unique_obj_deleter<T>(
+                                    m, s, details::unique_ptr_alignment<T>, n));
 }
 
 /**
@@ -186,12 +203,14 @@ unique_alloc_ptr<T> make_unique_alloc(memory_resource& m) {
      * perform an allocation of the requested size.
      */
     std::size_t s = sizeof(T);
-    pointer_t p = static_cast<pointer_t>(m.allocate(s));
+    pointer_t p =
+        static_cast<pointer_t>(m.allocate(s, details::unique_ptr_alignment<T>));
 
     /*
      * Create a new unique_ptr, with its own deleter, and return it.
      */
-    return unique_alloc_ptr<T>(p, details::unique_alloc_deleter<T>(m, s));
+    return unique_alloc_ptr<T>(p, details::unique_alloc_deleter<T>(
+                                      m, s, details::unique_ptr_alignment<T>));
 }
 
 /**
@@ -247,12 +266,14 @@ unique_alloc_ptr<T> make_unique_alloc(memory_resource& m, std::size_t n) {
      * perform an allocation of the requested size.
      */
     std::size_t s = n * sizeof(std::remove_extent_t<T>);
-    pointer_t p = static_cast<pointer_t>(m.allocate(s));
+    pointer_t p =
+        static_cast<pointer_t>(m.allocate(s, details::unique_ptr_alignment<T>));
 
     /*
      * Create a new unique_ptr, with its own deleter, and return it.
      */
-    return unique_alloc_ptr<T>(p, details::unique_alloc_deleter<T>(m, s, 0));
+    return unique_alloc_ptr<T>(p, details::unique_alloc_deleter<T>(
+                                      m, s, details::unique_ptr_alignment<T>));
 }
 
 /**
@@ -319,14 +340,16 @@ unique_alloc_ptr<T> make_unique_alloc(memory_resource& m, const T* f,
      * perform an allocation of the requested size.
      */
     std::size_t s = sizeof(T);
-    pointer_t p = static_cast<pointer_t>(m.allocate(s));
+    pointer_t p =
+        static_cast<pointer_t>(m.allocate(s, details::unique_ptr_alignment<T>));
 
     c(p, f, s);
 
     /*
      * Create a new unique_ptr, with its own deleter, and return it.
      */
-    return unique_alloc_ptr<T>(p, details::unique_alloc_deleter<T>(m, s));
+    return unique_alloc_ptr<T>(p, details::unique_alloc_deleter<T>(
+                                      m, s, details::unique_ptr_alignment<T>));
 }
 
 /**
@@ -396,13 +419,15 @@ unique_alloc_ptr<T> make_unique_alloc(memory_resource& m, std::size_t n,
      * perform an allocation of the requested size.
      */
     std::size_t s = n * sizeof(std::remove_extent_t<T>);
-    pointer_t p = static_cast<pointer_t>(m.allocate(s));
+    pointer_t p =
+        static_cast<pointer_t>(m.allocate(s, details::unique_ptr_alignment<T>));
 
     c(p, f, s);
 
     /*
      * Create a new unique_ptr, with its own deleter, and return it.
      */
-    return unique_alloc_ptr<T>(p, details::unique_alloc_deleter<T>(m, s, 0));
+    return unique_alloc_ptr<T>(p, details::unique_alloc_deleter<T>(
+                                      m, s, details::unique_ptr_alignment<T>));
 }
 }  // namespace vecmem
-- 
2.43.0


From 5eeb81a1c9fffd4ff6882d4b798383e66c94dba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:24:30 +0000
Subject: [PATCH 16/31] fix: unique pointers don't leak when construction or
 copying fails

---
 core/include/vecmem/memory/unique_ptr.hpp | 46 ++++++++++++++++-------
 1 file changed, 33 insertions(+), 13 deletions(-)

diff --git a/core/include/vecmem/memory/unique_ptr.hpp b/core/include/vecmem/memory/unique_ptr.hpp
index cf180b4..a7fff91 100644
--- a/core/include/vecmem/memory/unique_ptr.hpp
+++ b/core/include/vecmem/memory/unique_ptr.hpp
@@ -97,9 +97,14 @@ make_unique_obj(memory_resource& m, Args&&... a) {
 
     /*
      * Perform a placement-new with forwarded arguments to construct the
-     * object.
+     * object. If that fails, the memory needs to be given back.
      */
-    new (p) T(std::forward<Args>(a)...);
+    try {
+        new (p) T(std::forward<Args>(a)...);
+    } catch (...) {
+        m.deallocate(p, s, details::unique_ptr_alignment<T>);
+        throw;
+    }
 
     /*
      * Create a new unique_ptr, with its own deleter, and return it.
@@ -140,10 +145,19 @@ make_unique_obj(memory_resource& m, std::size_t n) {
         static_cast<pointer_t>(m.allocate(s, details::unique_ptr_alignment<T>));
 
     /*
-     * Use placement-new to default-construct each of our elements.
+     * Use placement-new to default-construct each of our elements. If that
+     * fails for one of them, the previous ones need to be destroyed, and the
+     * memory needs to be given back.
      */
-    for (std::size_t i = 0; i < n; ++i) {
-        new (&p[i]) std::remove_extent_t<T>();
+    std::size_t i = 0;
+    try {
+        for (; i < n; ++i) {
+            new (&p[i]) std::remove_extent_t<T>();
+        }
+    } catch (...) {
+        std::destroy_n(p, i);
+        m.deallocate(p, s, details::unique_ptr_alignment<T>);
+        throw;
     }
 
     /*
@@ -343,13 +357,16 @@ unique_alloc_ptr<T> make_unique_alloc(memory_resource& m, const T* f,
     pointer_t p =
         static_cast<pointer_t>(m.allocate(s, details::unique_ptr_alignment<T>));
 
-    c(p, f, s);
-
     /*
-     * Create a new unique_ptr, with its own deleter, and return it.
+     * Create a new unique_ptr, with its own deleter. It needs to exist before
+     * performing the copy, as the copy may fail.
      */
-    return unique_alloc_ptr<T>(p, details::unique_alloc_deleter<T>(
+    unique_alloc_ptr<T> result(p, details::unique_alloc_deleter<T>(
                                       m, s, details::unique_ptr_alignment<T>));
+
+    c(p, f, s);
+
+    return result;
 }
 
 /**
@@ -422,12 +439,15 @@ unique_alloc_ptr<T> make_unique_alloc(memory_resource& m, std::size_t n,
     pointer_t p =
         static_cast<pointer_t>(m.allocate(s, details::unique_ptr_alignment<T>));
 
-    c(p, f, s);
-
     /*
-     * Create a new unique_ptr, with its own deleter, and return it.
+     * Create a new unique_ptr, with its own deleter. It needs to exist before
+     * performing the copy, as the copy may fail.
      */
-    return unique_alloc_ptr<T>(p, details::unique_alloc_deleter<T>(
+    unique_alloc_ptr<T> result(p, details::unique_alloc_deleter<T>(
                                       m, s, details::unique_ptr_alignment<T>));
+
+    c(p, f, s);
+
+    return result;
 }
 }  // namespace vecmem
-- 
2.43.0


From 9ae841bb57ae6bea68eb210ab12e78097863d2a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:06 +0000
Subject: [PATCH 17/31] fix: allocator::new_object doesn't leak when the
 construction fails

---
 core/include/vecmem/memory/impl/allocator.ipp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/core/include/vecmem/memory/impl/allocator.ipp b/core/include/vecmem/memory/impl/allocator.ipp
index 6273cd2..219fd86 100644
--- a/core/include/vecmem/memory/impl/allocator.ipp
+++ b/core/include/vecmem/memory/impl/allocator.ipp
@@ -39,15 +39,21 @@ T *allocator::new_object(Args &&... args) {
      * constructing. We use the allocate_object method for this, with the
      * default argument of 1 for a single object.
      */
-    void *p = allocate_object<T>();
+    T *p = allocate_object<T>();
 
     /*
      * Next, we use the placement new operation to construct the object in
      * the memory which we have just allocated. For this, we also need to
      * forward the arguments passed to this method so they can be used to
-     * call the constructor of the class.
+     * call the constructor of the class. If the construction fails, the
+     * memory needs to be given back.
      */
-    return new (p) T(std::forward<Args>(args)...);
+    try {
+        return new (static_cast<void *>(p)) T(std::forward<Args>(args)...);
+    } catch (...) {
+        deallocate_object<T>(p);
+        throw;
+    }
 }
 
 template <typename T>
-- 
2.43.0


From f5cd69bfebcbb8596ba5c5c317db506bcf5901d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:33:59 +0000
Subject: [PATCH 18/31] fix: fixed size jagged buffers align their elements

---
 core/include/vecmem/containers/impl/jagged_vector_buffer.ipp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/core/include/vecmem/containers/impl/jagged_vector_buffer.ipp b/core/include/vecmem/containers/impl/jagged_vector_buffer.ipp
index a449baa..07a537b 100644
--- a/core/include/vecmem/containers/impl/jagged_vector_buffer.ipp
+++ b/core/include/vecmem/containers/impl/jagged_vector_buffer.ipp
@@ -96,9 +96,8 @@ jagged_vector_buffer<TYPE>::jagged_vector_buffer(
 
     // Allocate the "inner memory" for a fixed size buffer.
     if (type == buffer_type::fixed_size && total_elements != 0) {
-        m_inner_memory = vecmem::make_unique_alloc<char[]>(
-            resource, total_elements * sizeof(TYPE));
-        data_ptr = reinterpret_cast<TYPE*>(m_inner_memory.get());
+        std::tie(m_inner_memory, data_ptr) =
+            details::aligned_multiple_placement<TYPE>(resource, total_elements);
     }
     // Allocate the "inner memory" for a resizable buffer.
     else if (type == buffer_type::resizable && capacities.size() != 0) {
-- 
2.43.0


From 10419e7cae69b22f93e4828c9139fc2fa749608c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:34:09 +0000
Subject: [PATCH 19/31] fix: make vecmem::array::front() const usable

---
 core/include/vecmem/containers/impl/array.ipp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/include/vecmem/containers/impl/array.ipp b/core/include/vecmem/containers/impl/array.ipp
index 86e1859..172484a 100644
--- a/core/include/vecmem/containers/impl/array.ipp
+++ b/core/include/vecmem/containers/impl/array.ipp
@@ -86,7 +86,7 @@ auto array<T, N>::front() const -> const_reference {
             "Called vecmem::array::front() on an empty "
             "array");
     }
-    return (*m_memory);
+    return (m_memory[0]);
 }
 
 template <typename T, std::size_t N>
-- 
2.43.0


From 76ae919868240955e3cd8af5a6b5a09cdf9b69cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:51:15 +0000
Subject: [PATCH 20/31] fix: jagged vector iterators convert to constant ones

---
 .../containers/details/jagged_device_vector_iterator.hpp   | 7 ++++++-
 .../containers/impl/jagged_device_vector_iterator.ipp      | 6 ++++--
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/core/include/vecmem/containers/details/jagged_device_vector_iterator.hpp b/core/include/vecmem/containers/details/jagged_device_vector_iterator.hpp
index 8bb0f5d..c36fb04 100644
--- a/core/include/vecmem/containers/details/jagged_device_vector_iterator.hpp
+++ b/core/include/vecmem/containers/details/jagged_device_vector_iterator.hpp
@@ -33,6 +33,10 @@ namespace details {
 template <typename TYPE>
 class jagged_device_vector_iterator {
 
+    /// Let the conversion constructor look into other iterators
+    template <typename>
+    friend class jagged_device_vector_iterator;
+
 public:
     /// @name Types describing the underlying data
     /// @{
@@ -103,7 +107,8 @@ public:
     VECMEM_HOST_AND_DEVICE
     jagged_device_vector_iterator(const jagged_device_vector_iterator& parent);
     /// Copy constructor
-    template <typename T>
+    template <typename T, std::enable_if_t<details::is_same_nc<TYPE, T>::value,
+                                           bool> = true>
     VECMEM_HOST_AND_DEVICE jagged_device_vector_iterator(
         const jagged_device_vector_iterator<T>& parent);
 
diff --git a/core/include/vecmem/containers/impl/jagged_device_vector_iterator.ipp b/core/include/vecmem/containers/impl/jagged_device_vector_iterator.ipp
index 866484d..452d9ae 100644
--- a/core/include/vecmem/containers/impl/jagged_device_vector_iterator.ipp
+++ b/core/include/vecmem/containers/impl/jagged_device_vector_iterator.ipp
@@ -58,11 +58,13 @@ jagged_device_vector_iterator<TYPE>::jagged_device_vector_iterator(
     : m_ptr(parent.m_ptr) {}
 
 template <typename TYPE>
-template <typename T>
+template <typename T,
+          std::enable_if_t<details::is_same_nc<TYPE, T>::value, bool> >
 VECMEM_HOST_AND_DEVICE
 jagged_device_vector_iterator<TYPE>::jagged_device_vector_iterator(
     const jagged_device_vector_iterator<T>& parent)
-    : m_ptr(parent.m_ptr) {}
+    // The same type conversion as for vecmem::data::vector_view.
+    : m_ptr{reinterpret_cast<data_pointer>(parent.m_ptr)} {}
 
 template <typename TYPE>
 VECMEM_HOST_AND_DEVICE jagged_device_vector_iterator<TYPE>&
-- 
2.43.0


From 044e43a42144a11558a11f6a22a18482e565c8a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:50 +0000
Subject: [PATCH 21/31] fix: static_vector(size, value) does not destroy
 elements it never made

---
 core/include/vecmem/containers/impl/static_vector.ipp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/include/vecmem/containers/impl/static_vector.ipp b/core/include/vecmem/containers/impl/static_vector.ipp
index 8a4baf9..aef55de 100644
--- a/core/include/vecmem/containers/impl/static_vector.ipp
+++ b/core/include/vecmem/containers/impl/static_vector.ipp
@@ -20,7 +20,7 @@ VECMEM_HOST_AND_DEVICE static_vector<TYPE, MAX_SIZE>::static_vector()
 template <typename TYPE, std::size_t MAX_SIZE>
 VECMEM_HOST_AND_DEVICE static_vector<TYPE, MAX_SIZE>::static_vector(
     size_type size, const_reference value)
-    : m_size(size), m_elements() {
+    : m_size(0), m_elements() {
 
     assign(size, value);
 }
-- 
2.43.0


From ef106ab3efb6d13906e9e28bcd4d8d73f4983786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:50 +0000
Subject: [PATCH 22/31] fix: assigning a static_vector copies its elements one
 by one

---
 .../vecmem/containers/impl/static_vector.ipp  | 20 +++++++++++++++++++
 .../vecmem/containers/static_vector.hpp       |  4 ++++
 2 files changed, 24 insertions(+)

diff --git a/core/include/vecmem/containers/impl/static_vector.ipp b/core/include/vecmem/containers/impl/static_vector.ipp
index aef55de..5708620 100644
--- a/core/include/vecmem/containers/impl/static_vector.ipp
+++ b/core/include/vecmem/containers/impl/static_vector.ipp
@@ -42,6 +42,26 @@ VECMEM_HOST_AND_DEVICE static_vector<TYPE, MAX_SIZE>::~static_vector() {
     clear();
 }
 
+template <typename TYPE, std::size_t MAX_SIZE>
+VECMEM_HOST_AND_DEVICE auto static_vector<TYPE, MAX_SIZE>::operator=(
+    const static_vector& rhs) -> static_vector& {
+
+    // Prevent self-assignment.
+    if (this == &rhs) {
+        return *this;
+    }
+
+    // Replace the elements with copies of the ones of the other vector.
+    clear();
+    for (size_type i = 0; i < rhs.m_size; ++i) {
+        construct(i, rhs[i]);
+    }
+    m_size = rhs.m_size;
+
+    // Return a reference to this object.
+    return *this;
+}
+
 template <typename TYPE, std::size_t MAX_SIZE>
 VECMEM_HOST_AND_DEVICE typename static_vector<TYPE, MAX_SIZE>::reference
 static_vector<TYPE, MAX_SIZE>::at(size_type pos) {
diff --git a/core/include/vecmem/containers/static_vector.hpp b/core/include/vecmem/containers/static_vector.hpp
index ef68ddb..b447553 100644
--- a/core/include/vecmem/containers/static_vector.hpp
+++ b/core/include/vecmem/containers/static_vector.hpp
@@ -97,6 +97,10 @@ public:
     VECMEM_HOST_AND_DEVICE
     ~static_vector();
 
+    /// Copy assignment operator
+    VECMEM_HOST_AND_DEVICE
+    static_vector& operator=(const static_vector& rhs);
+
     /// @}
 
     /// @name Vector element access functions
-- 
2.43.0


From 054ac32bb6e078777a509b0b1605e54fbd0cb728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:50 +0000
Subject: [PATCH 23/31] fix: static_vector aligns the memory of its elements

---
 core/include/vecmem/containers/static_vector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/include/vecmem/containers/static_vector.hpp b/core/include/vecmem/containers/static_vector.hpp
index b447553..1654ad3 100644
--- a/core/include/vecmem/containers/static_vector.hpp
+++ b/core/include/vecmem/containers/static_vector.hpp
@@ -320,7 +320,7 @@ private:
     /// Size of the vector
     size_type m_size;
     /// Array that holds the PoD elements of the vector
-    array_type m_elements;
+    alignas(value_type) alignas(array_type) array_type m_elements;
 
 };  // class static_vector
 
-- 
2.43.0


From e2e868f199adda70bfe4bec83ed1e33922a99c4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:57:11 +0000
Subject: [PATCH 24/31] fix: static_vector::insert of one of its own elements
 inserts that element

---
 .../vecmem/containers/impl/static_vector.ipp     | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/core/include/vecmem/containers/impl/static_vector.ipp b/core/include/vecmem/containers/impl/static_vector.ipp
index 5708620..ad954a2 100644
--- a/core/include/vecmem/containers/impl/static_vector.ipp
+++ b/core/include/vecmem/containers/impl/static_vector.ipp
@@ -190,8 +190,14 @@ VECMEM_HOST_AND_DEVICE auto static_vector<TYPE, MAX_SIZE>::insert(
             static_cast<const void*>(id.m_ptr),
             (m_size - id.m_index) * value_size);
 
+    // The value may be one of the elements that just moved.
+    const_pointer source = &value;
+    if ((source >= id.m_ptr) && (source < (begin() + m_size))) {
+        ++source;
+    }
+
     // Instantiate the new value.
-    construct(id.m_index, value);
+    construct(id.m_index, *source);
 
     // Increment the size.
     ++m_size;
@@ -215,9 +221,15 @@ VECMEM_HOST_AND_DEVICE auto static_vector<TYPE, MAX_SIZE>::insert(
             static_cast<const void*>(id.m_ptr),
             (m_size - id.m_index) * value_size);
 
+    // The value may be one of the elements that just moved.
+    const_pointer source = &value;
+    if ((source >= id.m_ptr) && (source < (begin() + m_size))) {
+        source += count;
+    }
+
     // Instantiate all the new values.
     for (size_type i = 0; i < count; ++i) {
-        construct(id.m_index + i, value);
+        construct(id.m_index + i, *source);
     }
 
     // Increment the size.
-- 
2.43.0


From 6c8849e609a768870b0ec50210a089db1e0abfe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:17:40 +0000
Subject: [PATCH 25/31] fix: Initialise the views of SoA containers that only
 have scalars

get_data() of a host container without vector variables returned a view
whose capacity, size and memory areas were never set.
---
 core/include/vecmem/edm/impl/host.ipp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/core/include/vecmem/edm/impl/host.ipp b/core/include/vecmem/edm/impl/host.ipp
index fd4a616..599023f 100644
--- a/core/include/vecmem/edm/impl/host.ipp
+++ b/core/include/vecmem/edm/impl/host.ipp
@@ -207,8 +207,8 @@ VECMEM_HOST edm::data<edm::schema<VARTYPES...>> get_data(
     edm::host<edm::schema<VARTYPES...>, INTERFACE>& host,
     memory_resource* resource) {
 
-    // Create the result object.
-    edm::data<edm::schema<VARTYPES...>> result;
+    // Create the result object, with all of its members initialised.
+    edm::data<edm::schema<VARTYPES...>> result{};
     // Decide what memory resource to use for setting it up.
     memory_resource& mr = (resource != nullptr ? *resource : host.resource());
     // Set its size, if that's available. Note that if there are no vector
@@ -273,8 +273,8 @@ VECMEM_HOST edm::data<edm::details::add_const_t<edm::schema<VARTYPES...>>>
 get_data(const edm::host<edm::schema<VARTYPES...>, INTERFACE>& host,
          memory_resource* resource) {
 
-    // Create the result object.
-    edm::data<edm::details::add_const_t<edm::schema<VARTYPES...>>> result;
+    // Create the result object, with all of its members initialised.
+    edm::data<edm::details::add_const_t<edm::schema<VARTYPES...>>> result{};
     // Decide what memory resource to use for setting it up.
     memory_resource& mr = (resource != nullptr ? *resource : host.resource());
     // Set its size, if that's available. Note that if there are no vector
-- 
2.43.0


From 188c59f0b4278bb65dd775c1931f4c73d81f86e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:18:22 +0000
Subject: [PATCH 26/31] fix: Let constant proxies of device containers access
 jagged variables

The return type of get() const was a reference to a type that the held
device vector does not convert to, so that any use failed to compile.
---
 core/include/vecmem/edm/details/proxy_traits.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/include/vecmem/edm/details/proxy_traits.hpp b/core/include/vecmem/edm/details/proxy_traits.hpp
index 83be1ab..fd23b96 100644
--- a/core/include/vecmem/edm/details/proxy_traits.hpp
+++ b/core/include/vecmem/edm/details/proxy_traits.hpp
@@ -159,8 +159,8 @@ struct proxy_var_type<type::jagged_vector<VTYPE>, proxy_type::device,
     using return_type = std::add_lvalue_reference_t<type>;
     /// They are returned as const references to the non-const device vector in
     /// const access
-    using const_return_type = std::add_lvalue_reference_t<
-        std::add_const_t<device_vector<std::add_const_t<VTYPE>>>>;
+    using const_return_type =
+        std::add_lvalue_reference_t<std::add_const_t<type>>;
 
     /// Helper function constructing a vector proxy variable
     VECMEM_HOST_AND_DEVICE
-- 
2.43.0


From b14a9e6b56d4005b70608ec8c676418a74d3963b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:03:46 +0000
Subject: [PATCH 27/31] fix: memory_monitor::average_allocation is zero before
 the first allocation

---
 core/src/utils/memory_monitor.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/core/src/utils/memory_monitor.cpp b/core/src/utils/memory_monitor.cpp
index a4003fa..aeaf6ac 100644
--- a/core/src/utils/memory_monitor.cpp
+++ b/core/src/utils/memory_monitor.cpp
@@ -40,6 +40,10 @@ std::size_t memory_monitor::outstanding_allocation() const {
 
 std::size_t memory_monitor::average_allocation() const {
 
+    // Without any allocations there is nothing to take the average of.
+    if (m_n_alloc == 0) {
+        return 0;
+    }
     return static_cast<std::size_t>(std::round(
         static_cast<double>(m_total_alloc) / static_cast<double>(m_n_alloc)));
 }
-- 
2.43.0


From 3ee922569f04dc455f152345d0ed856f0fd889e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:04:06 +0000
Subject: [PATCH 28/31] fix: instrumenting_memory_resource gives memory back
 that it cannot hand out

---
 .../instrumenting_memory_resource_impl.cpp    | 41 ++++++++++++-------
 1 file changed, 26 insertions(+), 15 deletions(-)

diff --git a/core/src/memory/details/instrumenting_memory_resource_impl.cpp b/core/src/memory/details/instrumenting_memory_resource_impl.cpp
index c4003c3..7356352 100644
--- a/core/src/memory/details/instrumenting_memory_resource_impl.cpp
+++ b/core/src/memory/details/instrumenting_memory_resource_impl.cpp
@@ -88,21 +88,32 @@ void *instrumenting_memory_resource_impl::allocate(std::size_t size,
     std::size_t time = static_cast<std::size_t>(
         std::chrono::duration_cast<std::chrono::nanoseconds>(t2 - t1).count());
 
-    /*
-     * Add a new allocation event with the size, alignment, pointer, and time
-     * of what has just happened.
-     */
-    m_events.emplace_back(
-        instrumenting_memory_resource::memory_event::type::ALLOCATION, size,
-        align, ptr, time);
-
-    /*
-     * Now, we can run the post-allocation hooks. For failed allocations, the
-     * pointer will be null.
-     */
-    for (const std::function<void(std::size_t, std::size_t, void *)> &f :
-         m_post_allocate_hooks) {
-        f(size, align, ptr);
+    try {
+        /*
+         * Add a new allocation event with the size, alignment, pointer, and
+         * time of what has just happened.
+         */
+        m_events.emplace_back(
+            instrumenting_memory_resource::memory_event::type::ALLOCATION, size,
+            align, ptr, time);
+
+        /*
+         * Now, we can run the post-allocation hooks. For failed allocations,
+         * the pointer will be null.
+         */
+        for (const std::function<void(std::size_t, std::size_t, void *)> &f :
+             m_post_allocate_hooks) {
+            f(size, align, ptr);
+        }
+    } catch (...) {
+        /*
+         * If the event cannot be recorded, or a hook fails, the caller never
+         * sees the memory. So give it back.
+         */
+        if (ptr != nullptr) {
+            m_upstream.deallocate(ptr, size, align);
+        }
+        throw;
     }
 
     /*
-- 
2.43.0


From 678f25fd0179cf2193d2f8589d0be5ac4510c773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:47:42 +0000
Subject: [PATCH 29/31] fix: atomic::compare_exchange_strong in CUDA and HIP
 code tells whether it exchanged

---
 core/include/vecmem/memory/impl/atomic.ipp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/core/include/vecmem/memory/impl/atomic.ipp b/core/include/vecmem/memory/impl/atomic.ipp
index 2b96d2c..3d75bde 100644
--- a/core/include/vecmem/memory/impl/atomic.ipp
+++ b/core/include/vecmem/memory/impl/atomic.ipp
@@ -89,7 +89,14 @@ VECMEM_HOST_AND_DEVICE bool atomic<T>::compare_exchange_strong(
 
 #if (defined(__CUDA_ARCH__) || defined(__HIP_DEVICE_COMPILE__)) && \
     (!defined(SYCL_LANGUAGE_VERSION))
-    return atomicCAS(m_ptr, expected, desired);
+    // atomicCAS returns the old value, so the exchange has succeeded if that was
+    // the expected one.
+    const value_type old = atomicCAS(m_ptr, expected, desired);
+    if (old == expected) {
+        return true;
+    }
+    expected = old;
+    return false;
 #elif defined(CL_SYCL_LANGUAGE_VERSION) || defined(SYCL_LANGUAGE_VERSION)
     return __VECMEM_SYCL_ATOMIC_CALL2(compare_exchange_strong, m_ptr, expected,
                                       desired);
-- 
2.43.0


From 8d5ec931b2e551dfa0e6b95715f340bbc001a917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:44:23 +0000
Subject: [PATCH 30/31] fix: static_vector::emplace of one of its own elements
 makes that element

---
 .../vecmem/containers/impl/static_vector.ipp  | 24 +++++++++++++------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/core/include/vecmem/containers/impl/static_vector.ipp b/core/include/vecmem/containers/impl/static_vector.ipp
index ad954a2..51a2d31 100644
--- a/core/include/vecmem/containers/impl/static_vector.ipp
+++ b/core/include/vecmem/containers/impl/static_vector.ipp
@@ -250,13 +250,23 @@ VECMEM_HOST_AND_DEVICE auto static_vector<TYPE, MAX_SIZE>::emplace(
     // Find the index of this iterator inside of the vector.
     auto id = element_id(pos);
 
-    // Move the payload of the existing elements after "pos".
-    memmove(static_cast<void*>(id.m_ptr + 1),
-            static_cast<const void*>(id.m_ptr),
-            (m_size - id.m_index) * value_size);
-
-    // Instantiate the new value.
-    new (id.m_ptr) value_type(std::forward<Args>(args)...);
+    // Instantiate the new value behind the existing elements. Before moving any
+    // of those, as the arguments may refer to them.
+    pointer last = begin() + m_size;
+    new (last) value_type(std::forward<Args>(args)...);
+
+    // If it is meant to be elsewhere, swap its payload with that of the
+    // elements after "pos".
+    if (id.m_ptr != last) {
+        alignas(value_type) unsigned char payload[sizeof(value_type)];
+        memmove(static_cast<void*>(payload), static_cast<const void*>(last),
+                value_size);
+        memmove(static_cast<void*>(id.m_ptr + 1),
+                static_cast<const void*>(id.m_ptr),
+                (m_size - id.m_index) * value_size);
+        memmove(static_cast<void*>(id.m_ptr),
+                static_cast<const void*>(payload), value_size);
+    }
 
     // Increment the size.
     ++m_size;
-- 
2.43.0


From 1d94f50929a0174355677dfe586206ee2d399295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:05:30 +0000
Subject: [PATCH 31/31] fix: sycl::queue_wrapper gives up its own queue when
 assigned a wrapper of another's

---
 sycl/src/utils/sycl/queue_wrapper.sycl | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sycl/src/utils/sycl/queue_wrapper.sycl b/sycl/src/utils/sycl/queue_wrapper.sycl
index f6f2d4e..420360f 100644
--- a/sycl/src/utils/sycl/queue_wrapper.sycl
+++ b/sycl/src/utils/sycl/queue_wrapper.sycl
@@ -85,7 +85,10 @@ queue_wrapper& queue_wrapper::operator=(const queue_wrapper& rhs) {
         m_queue = m_managedQueue.get();
     } else {
         // If not, then let's just point at the same queue that somebody else
-        // owns.
+        // owns. Giving up the queue that this object may have owned so far.
+        if (m_managedQueue.get() != rhs.m_queue) {
+            m_managedQueue.reset();
+        }
         m_queue = rhs.m_queue;
     }
 
-- 
2.43.0

