From 4b54f67ef77b4370a0954f96ca86587662e8a951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:24 +0000
Subject: [PATCH 01/13] fix: leave room for alignment padding when allocating a
 new arena block

AllocateAligned(n, 16 or 32) asked for a block of exactly header + n bytes; when the
block was not aligned as requested, the result ran past the end of the block.
---
 arena/arena.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/arena/arena.cc b/arena/arena.cc
index d3ba154..1e96ea5 100644
--- a/arena/arena.cc
+++ b/arena/arena.cc
@@ -139,7 +139,8 @@ void Arena::Block::Reset() noexcept {
 auto Arena::allocateAligned(uint64_t bytes, uint64_t alignment) noexcept -> char* {
     uint64_t needed = align_size(bytes);
     if (need_create_new_block(needed, alignment)) [[unlikely]] {
-        Block* curr = newBlock(needed, _last_block);
+        // a block is only kByteSize aligned, leave room for the padding of a larger alignment.
+        Block* curr = newBlock(needed + (alignment - kByteSize), _last_block);
         if (curr != nullptr) [[likely]] {
             _last_block = curr;
         } else {
-- 
2.43.0


From 7a7c835ef0ca0b09b72a4eddf66e31ce913df5ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:24 +0000
Subject: [PATCH 02/13] fix: fail arena requests whose size computation would
 wrap around

AllocateAligned of nearly UINT64_MAX bytes returned a pointer to a zero-sized piece (or moved
the block position backwards), and CreateArray with an overflowing size only logged and then
constructed the elements past the end of the block.
---
 arena/arena.cc  | 5 +++++
 arena/arena.hpp | 4 +++-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/arena/arena.cc b/arena/arena.cc
index 1e96ea5..9a12511 100644
--- a/arena/arena.cc
+++ b/arena/arena.cc
@@ -66,6 +66,7 @@ auto Arena::newBlock(uint64_t min_bytes, Block* prev_block) noexcept -> Arena::B
         auto output_message = fmt::format(
           "newBlock need too many min_bytes : {}, it add kBlockHeaderSize more than uint64_t max.", min_bytes);
         _options.logger_func(output_message);
+        return nullptr;
     }
 
     // it was not called in the Arena's first chance.
@@ -137,6 +138,10 @@ void Arena::Block::Reset() noexcept {
  * if return nullptr means failure
  */
 auto Arena::allocateAligned(uint64_t bytes, uint64_t alignment) noexcept -> char* {
+    // a request that can not be represented together with its padding and the block header always fails.
+    if (bytes > std::numeric_limits<uint64_t>::max() - kBlockHeaderSize - kInt256Size) [[unlikely]] {
+        return nullptr;
+    }
     uint64_t needed = align_size(bytes);
     if (need_create_new_block(needed, alignment)) [[unlikely]] {
         // a block is only kByteSize aligned, leave room for the padding of a larger alignment.
diff --git a/arena/arena.hpp b/arena/arena.hpp
index d4e12e6..827b559 100644
--- a/arena/arena.hpp
+++ b/arena/arena.hpp
@@ -290,7 +290,8 @@ class Arena
             auto [_, alignment_waste] = AlignPos(Pos(), alignment);
             // the size is no need to align, because the AlignPos has done the ptr alignment, and _limit is aligned
             // to 16.
-            return _pos + alignment_waste + size <= _limit;
+            const uint64_t rest = remain();
+            return alignment_waste <= rest && size <= rest - alignment_waste;
         }
 
         void run_cleanups() noexcept {
@@ -458,6 +459,7 @@ class Arena
               "is {}, sizeof T is {}",
               num, TYPENAME(T), sizeof(T));
             _options.logger_func(output_message);
+            return nullptr;
         }
         const uint64_t size = sizeof(T) * num;
         char* ptr = allocateAligned(size);
-- 
2.43.0


From 0fb267b041141b4d1eaaf71c5190d92372d505b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:24 +0000
Subject: [PATCH 03/13] fix: rebind the memory_resource of a moved arena to its
 new owner

After moving an arena, get_memory_resource() of the target still allocated from the moved-from
object, which may already be destroyed.
---
 arena/arena.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/arena/arena.hpp b/arena/arena.hpp
index 827b559..9873821 100644
--- a/arena/arena.hpp
+++ b/arena/arena.hpp
@@ -159,7 +159,12 @@ class Arena
           _last_block(std::exchange(other._last_block, nullptr)),
           _resource(std::exchange(other._resource, nullptr)),
           _cookie(std::exchange(other._cookie, nullptr)),
-          _space_allocated(std::exchange(other._space_allocated, 0)) {}
+          _space_allocated(std::exchange(other._space_allocated, 0)) {
+        // the memory_resource follows the blocks, it should allocate from this arena by now.
+        if (_resource != nullptr) [[likely]] {
+            *_resource = memory_resource{this};
+        }
+    }
     auto operator=(Arena&&) noexcept -> Arena& = delete;
 
     /*
-- 
2.43.0


From 9a7b90e2862b390c960838545273ab28ebd85d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:56 +0000
Subject: [PATCH 04/13] fix: destroy the object when Arena::Create can not
 register its cleanup

Create returned nullptr after constructing the object when the block for the cleanup node could
not be allocated, so the object was never destroyed.
---
 arena/arena.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/arena/arena.hpp b/arena/arena.hpp
index 9873821..2b37f0b 100644
--- a/arena/arena.hpp
+++ b/arena/arena.hpp
@@ -439,6 +439,10 @@ class Arena
             Construct<T>(ptr, *this, std::forward<Args>(args)...);
             T* result = reinterpret_cast<T*>(ptr);
             if (!RegisterDestructor<T>(result)) [[unlikely]] {
+                // no one will destroy the object later, when its cleanup node can not be registered.
+                if constexpr (!ArenaHelper<T>::is_destructor_skippable::value) {
+                    result->~T();
+                }
                 return nullptr;
             }
             if (_options.on_arena_allocation != nullptr) [[likely]] {
-- 
2.43.0


From 92120787db6e8cb71bc679972347c1acf5254d44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:00 +0000
Subject: [PATCH 05/13] fix: grow to size plus buffer in
 stdb_vector::get_writebuffer

---
 container/stdb_vector.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/container/stdb_vector.hpp b/container/stdb_vector.hpp
index 072e086..15fe7aa 100644
--- a/container/stdb_vector.hpp
+++ b/container/stdb_vector.hpp
@@ -906,8 +906,8 @@ class stdb_vector : public core<T>
     template <Safety safety = Safety::Safe>
     [[nodiscard, gnu::always_inline]] auto get_writebuffer(size_type buf_size) -> std::span<T> {
         if constexpr (safety == Safety::Safe) {
-            if (buf_size + this->_finish > this->_edge) {
-                this->realloc_with_old_data(compute_new_capacity(buf_size));
+            if (buf_size > this->capacity() - this->size()) {
+                this->realloc_with_old_data(compute_new_capacity(this->size() + buf_size));
             }
         }
         auto buf = std::span<T>(this->_finish, buf_size);
-- 
2.43.0


From d1eb565741da0cc865f1204ec41037833cc71c68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:18 +0000
Subject: [PATCH 06/13] fix: make stdb_vector::assign of nothing leave the
 vector empty

---
 container/stdb_vector.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/container/stdb_vector.hpp b/container/stdb_vector.hpp
index 15fe7aa..663fed3 100644
--- a/container/stdb_vector.hpp
+++ b/container/stdb_vector.hpp
@@ -605,7 +605,9 @@ class stdb_vector : public core<T>
         }
         this->_finish = this->_start + count;
         // construct data with value
-        construct_range_with_cref(this->_start, this->_finish, value);
+        if (count > 0) [[likely]] {
+            construct_range_with_cref(this->_start, this->_finish, value);
+        }
     }
 
     template <std::forward_iterator Iterator>
@@ -625,8 +627,8 @@ class stdb_vector : public core<T>
             this->destroy();
             if (count > 0) [[likely]] {
                 copy_from_iterator(this->_start, first, last);
-                this->_finish = this->_start + count;
             }
+            this->_finish = this->_start + count;
         }
     }
 
-- 
2.43.0


From 579c60e76570c57c7de52c1fd986d6b9e488967d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:37 +0000
Subject: [PATCH 07/13] fix: copy byte-wise only from contiguous iterators over
 the element type

---
 container/stdb_vector.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/container/stdb_vector.hpp b/container/stdb_vector.hpp
index 663fed3..c93f8fd 100644
--- a/container/stdb_vector.hpp
+++ b/container/stdb_vector.hpp
@@ -161,15 +161,16 @@ template <typename T>
     }
 }
 
-template <typename It>
-concept PointerCompatibleIterator = std::is_pointer_v<It> or std::random_access_iterator<It>;
+// an iterator over objects of type T that lie next to each other in memory
+template <typename It, typename T>
+concept PointerCompatibleIterator = std::contiguous_iterator<It> and std::is_same_v<std::iter_value_t<It>, T>;
 
 template <typename T, typename Iterator>
 [[gnu::always_inline]] inline void copy_from_iterator(T* __restrict__ dst, Iterator first, Iterator last) {
     Assert(dst != nullptr, "copy_from_iterator dst can not be nullptr");
     Assert(first != last, "copy_from_iterator first can not accept empty range means (first == last)");
 
-    if constexpr (IsRelocatable<T> and PointerCompatibleIterator<Iterator>) {
+    if constexpr (IsRelocatable<T> and PointerCompatibleIterator<Iterator, T>) {
         if (get_ptr_from_iter(first) < get_ptr_from_iter(last)) [[likely]] {
             std::memcpy(dst, get_ptr_from_iter(first), static_cast<size_t>(last - first) * sizeof(T));
         }
-- 
2.43.0


From e21e9583e8e43e050a99d44b650203e5884333b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:54 +0000
Subject: [PATCH 08/13] fix: keep stdb_vector consistent when memory is not
 available

---
 container/stdb_vector.hpp | 57 ++++++++++++++++++++++++---------------
 1 file changed, 36 insertions(+), 21 deletions(-)

diff --git a/container/stdb_vector.hpp b/container/stdb_vector.hpp
index c93f8fd..a7c7b78 100644
--- a/container/stdb_vector.hpp
+++ b/container/stdb_vector.hpp
@@ -256,6 +256,21 @@ template <typename T>
     }
 }
 
+/*
+ * malloc a buffer for cap elements, throw std::bad_alloc if it is not available or too large to exist
+ */
+template <typename T>
+[[nodiscard]] inline auto alloc_buffer(std::size_t cap) -> T* {
+    if (cap > kFastVectorMaxSize / sizeof(T)) [[unlikely]] {
+        throw std::bad_alloc();
+    }
+    auto* ptr = static_cast<T*>(std::malloc(cap * sizeof(T)));
+    if (ptr == nullptr) [[unlikely]] {
+        throw std::bad_alloc();
+    }
+    return ptr;
+}
+
 /*
  * realloc memory, if failed, throw std::bad_alloc, then move the old memory to new memory.
  * if new_size < old_size, the extra elements will be destroyed.
@@ -268,13 +283,10 @@ auto realloc_with_move(T*& __restrict__ ptr, std::size_t old_size, std::size_t n
     // after shrink_to_fit with zero size, the ptr may be nullptr.
     if (ptr == nullptr) {
         Assert(old_size == 0, "ptr is nullptr, but old_size is not zero");
-        return ptr = static_cast<T*>(std::malloc(new_size * sizeof(T)));
+        return ptr = alloc_buffer<T>(new_size);
     }
     Assert(new_size > 0, "new_size should be larger than zero");
-    auto new_ptr = static_cast<T*>(std::malloc(new_size * sizeof(T)));
-    if (new_ptr == nullptr) [[unlikely]] {
-        throw std::bad_alloc();
-    }
+    auto new_ptr = alloc_buffer<T>(new_size);
     T* new_finish = move_range_without_overlap(new_ptr, ptr, ptr + std::min(old_size, new_size));
     std::free(ptr);
     ptr = new_ptr;
@@ -304,11 +316,9 @@ class core
    public:
     [[gnu::always_inline]] void allocate(size_type cap) {
         Assert(cap > 0, "allocate cap should be larger than zero");
-        if (_start = static_cast<T*>(std::malloc(cap * sizeof(T))); _start != nullptr) [[likely]] {
-            _edge = _start + cap;
-        } else {
-            throw std::bad_alloc();
-        }
+        auto* buffer = alloc_buffer<T>(cap);
+        _start = buffer;
+        _edge = _start + cap;
     }
 
     core() : _start(nullptr), _finish(nullptr), _edge(nullptr) {}
@@ -348,12 +358,8 @@ class core
         auto new_size = other.size();
         if (new_size > capacity()) {
             // if other's size is larger than current capacity, we need to reallocate memory
-            // destroy old data
-            destroy_range(_start, _finish);
-            // free old memory
-            std::free(_start);
-            // allocate new memory
-            allocate(new_size);
+            // destroy old data, free old memory and allocate new memory
+            realloc_drop_old_data(new_size);
             // copy data
             _finish = copy_range(_start, other._start, other._finish);
         } else {
@@ -452,6 +458,8 @@ class core
 
     [[gnu::always_inline]] auto realloc_drop_old_data(size_type new_cap) -> T* {
         this->~core();
+        // stay valid and empty if the allocation fails
+        _start = _finish = _edge = nullptr;
         allocate(new_cap);
         return _start;
     }
@@ -894,8 +902,8 @@ class stdb_vector : public core<T>
     void fill(size_type (*filler)(T*)) {
         if constexpr (safety == Safety::Safe) {
             auto to_fill = filler(nullptr);
-            if (to_fill + this->size() > this->capacity()) [[unlikely]] {
-                this->realloc_with_old_data(compute_new_capacity(to_fill + size()));
+            if (to_fill > this->capacity() - this->size()) [[unlikely]] {
+                this->realloc_with_old_data(compute_new_capacity(grown_size(to_fill)));
             }
             this->_finish += filler(this->_finish);
         } else {
@@ -910,7 +918,7 @@ class stdb_vector : public core<T>
     [[nodiscard, gnu::always_inline]] auto get_writebuffer(size_type buf_size) -> std::span<T> {
         if constexpr (safety == Safety::Safe) {
             if (buf_size > this->capacity() - this->size()) {
-                this->realloc_with_old_data(compute_new_capacity(this->size() + buf_size));
+                this->realloc_with_old_data(compute_new_capacity(grown_size(buf_size)));
             }
         }
         auto buf = std::span<T>(this->_finish, buf_size);
@@ -1264,9 +1272,9 @@ class stdb_vector : public core<T>
         auto size = this->size();
         T* pos_ptr = (T*)get_ptr_from_iter(pos);  // NOLINT
         if constexpr (safety == Safety::Safe) {
-            if (size + count > this->capacity()) [[unlikely]] {
+            if (count > this->capacity() - size) [[unlikely]] {
                 difference_type pos_index = pos_ptr - this->_start;
-                reserve(compute_new_capacity(size + count));
+                reserve(compute_new_capacity(grown_size(count)));
                 pos_ptr = this->_start + pos_index;
             }
         }
@@ -1372,6 +1380,13 @@ class stdb_vector : public core<T>
     }
 
    private:
+    // size() + count, throw std::bad_alloc if there can not be so many elements
+    [[nodiscard, gnu::always_inline]] inline auto grown_size(size_type count) const -> size_type {
+        if (count > this->max_size() - this->size()) [[unlikely]] {
+            throw std::bad_alloc();
+        }
+        return this->size() + count;
+    }
     [[nodiscard, gnu::always_inline]] inline auto compute_new_capacity(size_type new_size) const -> size_type {
         Assert(new_size > capacity(), "new_size should larger than old cap, or no need to compute new cap");
         if (auto next_capacity = compute_next_capacity(); next_capacity > new_size) {
-- 
2.43.0


From fbd8c5abc685806e52d575b8dc83777953d50f22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:11 +0000
Subject: [PATCH 09/13] fix: grow an empty stdb_vector of very large elements

---
 container/stdb_vector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/container/stdb_vector.hpp b/container/stdb_vector.hpp
index a7c7b78..700f6d5 100644
--- a/container/stdb_vector.hpp
+++ b/container/stdb_vector.hpp
@@ -1405,7 +1405,7 @@ class stdb_vector : public core<T>
         // the capacity is larger than a page,
         // so we can just double it to use whole pages.
         // NOLINTNEXTLINE
-        if (cap >= 4096 * 32 / sizeof(T)) [[likely]] {
+        if (cap >= 4096 * 32 / sizeof(T) and cap >= core<T>::kFastVectorInitCapacity) [[likely]] {
             return cap * 2;
         }
         return core<T>::kFastVectorInitCapacity;
-- 
2.43.0


From 41bedfc775e63cbf3f3aac99c349cba0852092ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:00 +0000
Subject: [PATCH 10/13] fix: copy, not relocate, elements of Relocatable types
 that are not trivially copyable

---
 container/stdb_vector.hpp | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/container/stdb_vector.hpp b/container/stdb_vector.hpp
index 700f6d5..f4da244 100644
--- a/container/stdb_vector.hpp
+++ b/container/stdb_vector.hpp
@@ -126,7 +126,7 @@ template <typename T>
     Assert(dst != src, "copy_range should not be called with same dst and src");
     Assert(src < src_end, "src should always before src_end");
     // if is trivial_copyable, use memcpy is faster.
-    if constexpr (IsRelocatable<T>) {
+    if constexpr (std::is_trivially_copyable_v<T>) {
         std::memcpy(dst, src, (size_t)(src_end - src) * sizeof(T));  // NOLINT
         return dst + (src_end - src);
     } else {
@@ -141,7 +141,7 @@ template <typename T>
     requires std::is_trivially_copyable_v<T> or std::is_nothrow_move_constructible_v<T>
 [[gnu::always_inline]] inline void copy_value(T* __restrict__ dst, T value) {
     Assert(dst != nullptr, "dst can not be nullptr");
-    if constexpr (IsRelocatable<T>) {
+    if constexpr (std::is_trivially_copyable_v<T>) {
         *dst = value;
     } else {
         static_assert(std::is_nothrow_move_constructible_v<T>);
@@ -153,7 +153,7 @@ template <typename T>
     requires std::is_object_v<T>
 [[gnu::always_inline]] inline void copy_cref(T* __restrict__ dst, const T& value) {
     Assert(dst != nullptr, "dst can not be nullptr");
-    if constexpr (IsRelocatable<T>) {
+    if constexpr (std::is_trivially_copyable_v<T>) {
         *dst = value;
     } else {
         static_assert(std::is_copy_constructible_v<T>);
@@ -170,7 +170,7 @@ template <typename T, typename Iterator>
     Assert(dst != nullptr, "copy_from_iterator dst can not be nullptr");
     Assert(first != last, "copy_from_iterator first can not accept empty range means (first == last)");
 
-    if constexpr (IsRelocatable<T> and PointerCompatibleIterator<Iterator, T>) {
+    if constexpr (std::is_trivially_copyable_v<T> and PointerCompatibleIterator<Iterator, T>) {
         if (get_ptr_from_iter(first) < get_ptr_from_iter(last)) [[likely]] {
             std::memcpy(dst, get_ptr_from_iter(first), static_cast<size_t>(last - first) * sizeof(T));
         }
@@ -497,12 +497,10 @@ class core
         // if dst == src, no need to move
         Assert(dst != src, "move_backward should not be called with same dst and src");
 
-        T* dst_end = dst + (_finish - 1 - src);
+        [[maybe_unused]] T* dst_end = dst + (_finish - 1 - src);
         if constexpr (IsRelocatable<T>) {
             // trivially backward move
-            for (T* src_end = _finish - 1; src_end >= src;) [[likely]] {
-                *(dst_end--) = *(src_end--);
-            }
+            std::memmove(dst, src, (size_t)(_finish - src) * sizeof(T));  // NOLINT
         } else if constexpr (std::is_move_constructible_v<T>) {
             // do not support throwable move constructor.
             static_assert(std::is_nothrow_move_constructible_v<T>);
@@ -1028,7 +1026,7 @@ class stdb_vector : public core<T>
     }
 
     auto erase(const value_type& value) -> size_type {  // NOLINT
-        if constexpr (IsRelocatable<T>) {
+        if constexpr (std::is_trivially_copyable_v<T>) {
             size_t erased = 0;
             for (auto *src = this->_start, *dst = this->_start; src != this->_finish;) {
                 // if the *src is not equal to the value we want to erase and dst == src, move forward both
@@ -1098,7 +1096,7 @@ class stdb_vector : public core<T>
     template <class Pred>
         requires std::predicate<Pred, const T&> || std::predicate<Pred, T&> || std::predicate<Pred, T>
     auto erase_if(Pred pred) -> size_type {  // NOLINT
-        if constexpr (IsRelocatable<T>) {
+        if constexpr (std::is_trivially_copyable_v<T>) {
             size_t erased = 0;
             for (auto *src = this->_start, *dst = this->_start; src != this->_finish;) {
                 // if the *src is not equal to the value we want to erase and dst == src, move forward both
-- 
2.43.0


From 13262ae12c3578ba6588522756c48877db46a891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:16 +0000
Subject: [PATCH 11/13] fix: destroy the elements stdb_vector has moved from

---
 container/stdb_vector.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/container/stdb_vector.hpp b/container/stdb_vector.hpp
index f4da244..ee88fab 100644
--- a/container/stdb_vector.hpp
+++ b/container/stdb_vector.hpp
@@ -216,6 +216,7 @@ template <typename T>
     } else if constexpr (std::is_move_constructible_v<T>) {
         for (; src != src_end; ++src, ++dst) {
             new (dst) T(std::move(*src));
+            destroy_ptr(src);
         }
         return dst;
     } else {
@@ -244,6 +245,7 @@ template <typename T>
         // call move constructor
         for (; src != src_end; ++src, ++dst) {
             new (dst) T(std::move(*src));
+            destroy_ptr(src);
         }
 
     } else {
@@ -506,7 +508,8 @@ class core
             static_assert(std::is_nothrow_move_constructible_v<T>);
             // backward move
             for (T* src_end = _finish - 1; src_end >= src;) [[likely]] {
-                new (dst_end--) T(std::move(*(src_end--)));
+                new (dst_end--) T(std::move(*src_end));
+                destroy_ptr(src_end--);
             }
         } else {
             // backward copy
@@ -1052,6 +1055,7 @@ class stdb_vector : public core<T>
                 if (*src != value) {
                     if (dst != src) {
                         new (dst) T(std::move(*src));
+                        destroy_ptr(src);
                     }
                     ++dst;
                 }
@@ -1122,6 +1126,7 @@ class stdb_vector : public core<T>
                 if (!pred(*src)) {
                     if (dst != src) {
                         new (dst) T(std::move(*src));
+                        destroy_ptr(src);
                     }
                     ++dst;
                 }
-- 
2.43.0


From 36c1b9473acaf84880d9364d42ff98640bfb3965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:33 +0000
Subject: [PATCH 12/13] fix: let stdb_vector::insert, resize and assign take a
 value of the vector itself

---
 container/stdb_vector.hpp | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/container/stdb_vector.hpp b/container/stdb_vector.hpp
index ee88fab..ea69444 100644
--- a/container/stdb_vector.hpp
+++ b/container/stdb_vector.hpp
@@ -604,6 +604,8 @@ class stdb_vector : public core<T>
     ~stdb_vector() = default;
 
     constexpr void assign(std::size_t count, const T& value) {
+        // value may be an element of this vector
+        const T copy(value);
         // cleanup old data
         if (count > this->capacity()) {
             // if count is larger than current capacity, we need to reallocate memory
@@ -616,7 +618,7 @@ class stdb_vector : public core<T>
         this->_finish = this->_start + count;
         // construct data with value
         if (count > 0) [[likely]] {
-            construct_range_with_cref(this->_start, this->_finish, value);
+            construct_range_with_cref(this->_start, this->_finish, copy);
         }
     }
 
@@ -1195,13 +1197,15 @@ class stdb_vector : public core<T>
     constexpr void resize(size_type count, const_reference value) {
         // no checking count == _size, because very unlikely, and it's not a big deal
         if (count > this->size()) {
+            // value may be an element of this vector
+            const T copy(value);
             if (count > this->capacity()) {
                 this->realloc_with_old_data(count);
             }
             // destroy the elements that are not needed anymore
             auto* old_end = this->_finish;
             this->_finish = this->_start + count;
-            construct_range_with_cref(old_end, this->_finish, value);
+            construct_range_with_cref(old_end, this->_finish, copy);
         } else {
             // destroy the elements that are not needed anymore
             auto* old_end = this->_finish;
@@ -1216,6 +1220,8 @@ class stdb_vector : public core<T>
     constexpr auto insert(const_iterator pos, const_reference value) -> iterator {
         Assert(pos >= cbegin() && pos <= cend(), "pos should be in [begin(), end())");
         T* pos_ptr = (T*)get_ptr_from_iter(pos);  // NOLINT
+        // value may be an element of this vector
+        const T copy(value);
         if constexpr (safety == Safety::Safe) {
             if (this->full()) [[unlikely]] {
                 difference_type pos_index = pos_ptr - this->_start;
@@ -1226,7 +1232,7 @@ class stdb_vector : public core<T>
         Assert(not this->full(), "insert should not be called with full vector");
         // insert value to the end pos
         if (pos_ptr == this->_finish) [[unlikely]] {
-            copy_cref(this->_finish++, value);
+            copy_cref(this->_finish++, copy);
             return iterator(pos_ptr);
         }
         // move all elements after pos to the right, with backward direction, because have overlap
@@ -1235,7 +1241,7 @@ class stdb_vector : public core<T>
         } else {
             this->move_forward(pos_ptr + 1, pos_ptr);
         }
-        copy_cref(pos_ptr, value);
+        copy_cref(pos_ptr, copy);
         ++this->_finish;
         return iterator(pos_ptr);
     }
@@ -1274,6 +1280,8 @@ class stdb_vector : public core<T>
         Assert(pos >= cbegin() && pos <= cend(), "pos should be in [begin(), end())");
         auto size = this->size();
         T* pos_ptr = (T*)get_ptr_from_iter(pos);  // NOLINT
+        // value may be an element of this vector
+        const T copy(value);
         if constexpr (safety == Safety::Safe) {
             if (count > this->capacity() - size) [[unlikely]] {
                 difference_type pos_index = pos_ptr - this->_start;
@@ -1289,7 +1297,7 @@ class stdb_vector : public core<T>
         } else {
             this->move_backward(pos_ptr + count, pos_ptr);
         }
-        construct_range_with_cref(pos_ptr, pos_ptr + count, value);
+        construct_range_with_cref(pos_ptr, pos_ptr + count, copy);
         this->_finish += count;
         return iterator(pos_ptr);
     }
-- 
2.43.0


From 944ce8988f1a0c6cc68eaa711718a969666f0e04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:58 +0000
Subject: [PATCH 13/13] fix: do not declare pointers into overlapping ranges
 __restrict__

---
 container/stdb_vector.hpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/container/stdb_vector.hpp b/container/stdb_vector.hpp
index ea69444..a941a6b 100644
--- a/container/stdb_vector.hpp
+++ b/container/stdb_vector.hpp
@@ -230,8 +230,7 @@ template <typename T>
 }
 
 template <typename T>
-[[gnu::always_inline]] inline void move_range_forward(T* __restrict__ dst, T* __restrict__ src,
-                                                      T* __restrict__ src_end) {
+[[gnu::always_inline]] inline void move_range_forward(T* dst, T* src, T* src_end) {
     Assert(src != nullptr and dst != nullptr, "src and dst can not be nullptr");
     // src == src_end means no data to move
     // it will occur in erase the whole vector.
@@ -480,19 +479,19 @@ class core
     }
 
     // move [src, end()) to dst start range from front to end
-    [[gnu::always_inline]] void move_forward(T* __restrict__ dst, T* __restrict__ src) {
+    [[gnu::always_inline]] void move_forward(T* dst, T* src) {
         Assert(dst != src, "move_forward should not be called with same dst and src");
         move_range_forward(dst, src, _finish);
     }
 
     // move [src, end()) to dst start range from front to end
-    [[gnu::always_inline]] void move_forward(const T* __restrict__ dst, const T* __restrict__ src) {
+    [[gnu::always_inline]] void move_forward(const T* dst, const T* src) {
         Assert(dst != src, "move_forward should not be called with same dst and src");
         move_range_forward(const_cast<T*>(dst), const_cast<T*>(src), _finish);  // NOLINT
     }
 
     // move [src, end()) to dst start range from end to front
-    void move_backward(T* __restrict__ dst, T* __restrict__ src) {
+    void move_backward(T* dst, T* src) {
         Assert(dst != nullptr && src != nullptr, "dst and src can not be nullptr");
         // if src == _finish or src == _finish -1, just use move_forward
         Assert(src < (_finish - 1), "src should always before _finish - 1, or can not move backward");
-- 
2.43.0

