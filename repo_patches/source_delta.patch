From e4ef3aecbc46ce9877cb781ce934cfe483964470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:09 +0000
Subject: [PATCH 01/54] fix: uninitialized_copy_a must clean up the
 destination, not the source

When a constructor throws, the elements already built in the output range
were leaked and the input elements were destroyed instead. It also did not
compile when the input and output iterators had different types, e.g. an
xme::Array built from std::vector iterators.
---
 include/xme/ranges/uninitialized.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/xme/ranges/uninitialized.hpp b/include/xme/ranges/uninitialized.hpp
index 3110362..e9eded8 100644
--- a/include/xme/ranges/uninitialized.hpp
+++ b/include/xme/ranges/uninitialized.hpp
@@ -17,7 +17,7 @@ struct {
             }
         }
         catch(...) {
-            ranges::destroy_a(in_first, out_curr, alloc);
+            ranges::destroy_a(out_first, out_curr, alloc);
             throw;
         }
         return {in_first, out_curr};
-- 
2.43.0


From ff3126906111f1c8282d275733a707bf08a73e9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:49 +0000
Subject: [PATCH 02/54] fix: Array moves its elements into new storage by
 constructing them

grow_storage, shrink_storage and realloc_insert move assigned the elements to
raw memory and deallocated the old storage without destroying what was in it:
undefined behaviour, crashes and leaks for any non trivial T. When a move
threw, realloc_insert also leaked the elements it had already moved.
---
 include/xme/container/array.hpp      | 54 +++++++++++++---------------
 include/xme/ranges/uninitialized.hpp | 20 +++++++++++
 2 files changed, 44 insertions(+), 30 deletions(-)

diff --git a/include/xme/container/array.hpp b/include/xme/container/array.hpp
index 2dad1a4..4a26530 100644
--- a/include/xme/container/array.hpp
+++ b/include/xme/container/array.hpp
@@ -283,51 +283,45 @@ public:
 
 private:
     constexpr void grow_storage(size_type n) {
-        const auto old_size = this->size();
-        pointer new_begin   = m_allocator.allocate(n);
-
-        std::ranges::move(*this, new_begin);
-        if(m_data.begin)
-            m_allocator.deallocate(m_data.begin, capacity());
-        m_data.begin       = new_begin;
-        m_data.end         = new_begin + old_size;
-        m_data.storage_end = new_begin + n;
+        Array tmp(n, m_allocator);
+        tmp.m_data.end = ranges::uninitialized_move_a(
+          m_data.begin, m_data.end, tmp.m_data.begin, m_allocator);
+        std::ranges::swap(m_data, tmp.m_data);
     }
 
     constexpr void shrink_storage(size_type n) {
         size_type elements_to_move = std::min(this->size(), n);
-        pointer new_begin          = m_allocator.allocate(n);
-
-        std::ranges::move(begin(), begin() + elements_to_move, new_begin);
-        ranges::destroy_a(m_data.begin + elements_to_move, m_data.end, m_allocator);
-        m_allocator.deallocate(m_data.begin, capacity());
-        m_data.begin       = new_begin;
-        m_data.end         = new_begin + elements_to_move;
-        m_data.storage_end = new_begin + n;
+        Array tmp(n, m_allocator);
+        tmp.m_data.end = ranges::uninitialized_move_a(
+          m_data.begin, m_data.begin + elements_to_move, tmp.m_data.begin, m_allocator);
+        std::ranges::swap(m_data, tmp.m_data);
     }
 
     template<typename... Args>
     constexpr auto realloc_insert(iterator pos, Args&&... args) -> iterator {
         const size_type elements_before = pos - begin();
         const size_type new_size        = this->size() + std::max(this->size(), size_type(1));
-        const size_type curr_size       = this->size();
-        pointer new_start               = m_allocator.allocate(new_size);
+        Array tmp(new_size, m_allocator);
+        const pointer inserted = tmp.m_data.begin + elements_before;
+        alloc_traits::construct(m_allocator, inserted, std::forward<Args>(args)...);
+        move_around(tmp, m_data.begin + elements_before, inserted, inserted + 1);
+        return begin() + elements_before;
+    }
+
+    //! Moves every element to the storage of `tmp`, [begin, pos) before and [pos, end) after
+    //! the elements already constructed there in [inserted, inserted_end), and takes that storage.
+    constexpr void move_around(Array& tmp, pointer pos, pointer inserted, pointer inserted_end) {
         try {
-            alloc_traits::construct(
-              m_allocator, new_start + elements_before, std::forward<Args>(args)...);
-            std::ranges::move(begin(), pos, new_start);
-            std::ranges::move(pos, end(), new_start + elements_before + 1);
+            ranges::uninitialized_move_a(m_data.begin, pos, tmp.m_data.begin, m_allocator);
         }
         catch(...) {
-            ranges::destroy_at_a(new_start + elements_before, m_allocator);
-            m_allocator.deallocate(new_start, new_size);
+            ranges::destroy_a(inserted, inserted_end, m_allocator);
             throw;
         }
-        m_allocator.deallocate(m_data.begin, capacity());
-        m_data.begin       = new_start;
-        m_data.end         = new_start + (curr_size + 1);
-        m_data.storage_end = new_start + new_size;
-        return begin() + elements_before;
+        tmp.m_data.end = inserted_end;
+        tmp.m_data.end =
+          ranges::uninitialized_move_a(pos, m_data.end, inserted_end, m_allocator);
+        std::ranges::swap(m_data, tmp.m_data);
     }
 
 private:
diff --git a/include/xme/ranges/uninitialized.hpp b/include/xme/ranges/uninitialized.hpp
index e9eded8..348a04b 100644
--- a/include/xme/ranges/uninitialized.hpp
+++ b/include/xme/ranges/uninitialized.hpp
@@ -31,6 +31,26 @@ struct {
     }
 } inline constexpr uninitialized_copy_a;
 
+struct {
+    template<std::input_iterator InIter, std::sentinel_for<InIter> InSent,
+             std::forward_iterator OutIter, typename Alloc>
+    constexpr auto operator()(InIter in_first, InSent in_last, OutIter out_first,
+                              Alloc& alloc) const -> OutIter {
+        OutIter out_curr = out_first;
+        try {
+            for(; in_first != in_last; ++out_curr, (void)++in_first) {
+                std::allocator_traits<Alloc>::construct(
+                  alloc, std::addressof(*out_curr), std::ranges::iter_move(in_first));
+            }
+        }
+        catch(...) {
+            ranges::destroy_a(out_first, out_curr, alloc);
+            throw;
+        }
+        return out_curr;
+    }
+} inline constexpr uninitialized_move_a;
+
 struct {
     template<std::forward_iterator Iter, typename T, typename Alloc>
     constexpr auto operator()(Iter first, std::size_t n, const T& value,
-- 
2.43.0


From 8558ae86d6b0c1822df10df5d84a90873089a5a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:22 +0000
Subject: [PATCH 03/54] fix: Array::insert of a range doesn't assign to raw
 memory

Inserting a range moved the existing elements into memory holding no object,
constructed the new ones over live objects, and leaked when a copy threw.
---
 include/xme/container/array.hpp | 32 +++++++++++++++++---------------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/include/xme/container/array.hpp b/include/xme/container/array.hpp
index 4a26530..fed4a2b 100644
--- a/include/xme/container/array.hpp
+++ b/include/xme/container/array.hpp
@@ -2,6 +2,7 @@
 #include "concepts.hpp"
 #include "range/v3/iterator/traits.hpp"
 #include "xme/container/icontainer.hpp"
+#include <algorithm>
 #include <cassert>
 #include <xme/core/iterators/reverse_iterator.hpp>
 #include <xme/ranges/destroy.hpp>
@@ -182,27 +183,28 @@ public:
         auto p             = const_cast<pointer>(pos.operator->());
         size_type elements = std::ranges::distance(first, last);
         if(this->size() + elements > capacity()) {
-            Array tmp(capacity() == 0 ? elements : capacity() + elements);
-            size_type elements_before = std::ranges::distance(begin(), pos);
+            Array tmp(capacity() == 0 ? elements : capacity() + elements, m_allocator);
+            const size_type elements_before = p - m_data.begin;
+            const pointer inserted          = tmp.m_data.begin + elements_before;
 
             // Must be constructed first, so if it throws we don't break the original
             // array
-            for(std::size_t n = 0; first != last; ++first, ++n)
-                alloc_traits::construct(
-                  m_allocator, tmp.m_data.begin + elements_before + n, *first);
-
-            std::ranges::move(::ranges::cbegin(*this), pos, tmp.begin());
-            std::ranges::move(pos, ::ranges::cend(*this), tmp.begin() + elements_before + elements);
-            tmp.m_data.end = tmp.m_data.begin + this->size() + elements;
-            std::ranges::swap(m_data, tmp.m_data);
-
+            pointer inserted_end = inserted;
+            try {
+                for(; first != last; ++first, ++inserted_end)
+                    alloc_traits::construct(m_allocator, inserted_end, *first);
+            }
+            catch(...) {
+                ranges::destroy_a(inserted, inserted_end, m_allocator);
+                throw;
+            }
+            move_around(tmp, p, inserted, inserted_end);
             return begin() + elements_before;
         }
 
-        std::move_backward(pos, ::ranges::cend(*this), end() + elements);
-        m_data.end += elements;
-        for(std::size_t n = 0; first != last; ++first, ++n)
-            alloc_traits::construct(m_allocator, p + n, *first);
+        const pointer old_end = m_data.end;
+        push_back(first, last);
+        std::rotate(p, old_end, m_data.end);
         return p;
     }
 
-- 
2.43.0


From 9cfa0c601052b98639455d980cf4e6f6f08c5894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:25 +0000
Subject: [PATCH 04/54] fix: Array::erase destroys the elements left over at
 the end

Both overloads destroyed the erased elements, then move assigned to them, and
never destroyed the moved from elements at the end of the array. They also
copied instead of moving the elements after the erased ones.
---
 include/xme/container/array.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/xme/container/array.hpp b/include/xme/container/array.hpp
index fed4a2b..da1b37c 100644
--- a/include/xme/container/array.hpp
+++ b/include/xme/container/array.hpp
@@ -266,9 +266,9 @@ public:
     //! @returns an iterator pointing to the element after it
     constexpr auto erase(const_iterator pos) -> iterator {
         auto p = const_cast<pointer>(pos.operator->());
-        ranges::destroy_at_a(p, m_allocator);
-        std::ranges::move(std::ranges::next(pos), ::ranges::cend(*this), p);
+        std::ranges::move(p + 1, m_data.end, p);
         --m_data.end;
+        ranges::destroy_at_a(m_data.end, m_allocator);
         return p;
     }
 
@@ -277,9 +277,11 @@ public:
     constexpr auto erase(const_iterator first, const_iterator last) -> iterator {
         auto p             = const_cast<pointer>(first.operator->());
         size_type elements = std::ranges::distance(first, last);
-        ranges::destroy_n_a(p, elements, m_allocator);
-        std::ranges::move(first + elements, ::ranges::cend(*this), p);
+        if(elements == 0)
+            return p;
+        std::ranges::move(p + elements, m_data.end, p);
         m_data.end -= elements;
+        ranges::destroy_n_a(m_data.end, elements, m_allocator);
         return p;
     }
 
-- 
2.43.0


From 9bad575c182c41c045692d3571bcce6ec0d1c82c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:28 +0000
Subject: [PATCH 05/54] fix: Array can push and insert one of its own elements

When the array was full push_back and emplace_back read the argument after the
old storage was deallocated, and insert read it after shifting the elements.
---
 include/xme/container/array.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/xme/container/array.hpp b/include/xme/container/array.hpp
index da1b37c..b1622c4 100644
--- a/include/xme/container/array.hpp
+++ b/include/xme/container/array.hpp
@@ -167,10 +167,12 @@ public:
         else if(m_data.end == m_data.storage_end) {
             return realloc_insert(p, std::forward<U>(value));
         }
+        // value may be an element of this array
+        T tmp(std::forward<U>(value));
         alloc_traits::construct(m_allocator, m_data.end, std::move(*(m_data.end - 1)));
         ++m_data.end;
         std::move_backward(p, m_data.end - 2, m_data.end - 1);
-        *p = std::forward<U>(value);
+        *p = std::move(tmp);
         return p;
     }
 
@@ -255,7 +257,7 @@ public:
     template<typename... Args>
     constexpr auto emplace_back(Args&&... args) -> reference {
         if(m_data.end == m_data.storage_end)
-            grow_storage(this->size() + std::max(this->size(), size_type(1)));
+            return *realloc_insert(end(), std::forward<Args>(args)...);
 
         alloc_traits::construct(m_allocator, m_data.end, std::forward<Args>(args)...);
         ++m_data.end;
-- 
2.43.0


From ce13229eddf9634ca492dab81a94cd004a44c9ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:04 +0000
Subject: [PATCH 06/54] fix: Array reads single pass ranges only once

The constructor, insert and push_back counted the elements of a single pass
range by reading it, and were left with fewer elements than counted: elements
were lost, or insert exposed memory holding no object.
---
 include/xme/container/array.hpp | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/include/xme/container/array.hpp b/include/xme/container/array.hpp
index b1622c4..6285c6c 100644
--- a/include/xme/container/array.hpp
+++ b/include/xme/container/array.hpp
@@ -20,6 +20,11 @@ private:
     template<bool Const>
     class Iterator;
 
+    //! If the amount of elements can be known without consuming the range
+    template<typename Iter, typename Sent>
+    static constexpr bool is_countable =
+      std::forward_iterator<Iter> || std::sized_sentinel_for<Sent, Iter>;
+
 public:
     static_assert(std::is_same_v<T, std::remove_cv_t<T>>,
                   "xme::Array must have a non-const and non-volatile T");
@@ -63,6 +68,12 @@ public:
       Array(list.begin(), list.end(), alloc) {}
 
     template<std::input_iterator Iter, std::sentinel_for<Iter> Sent>
+    constexpr Array(Iter first, Sent last, const allocator_type& alloc = allocator_type()) :
+      Array(alloc) {
+        push_back(std::move(first), std::move(last));
+    }
+
+    template<std::forward_iterator Iter, std::sentinel_for<Iter> Sent>
     constexpr Array(Iter first, Sent last, const allocator_type& alloc = allocator_type()) :
       Array(std::ranges::distance(first, last), alloc) {
         auto&& [_, out] = xme::ranges::uninitialized_copy_a(
@@ -182,7 +193,14 @@ public:
     //! @returns an iterator to the first inserted element.
     template<std::input_iterator Iter, std::sentinel_for<Iter> Sent>
     constexpr auto insert(const_iterator pos, Iter first, Sent last) -> iterator {
-        auto p             = const_cast<pointer>(pos.operator->());
+        auto p = const_cast<pointer>(pos.operator->());
+        if constexpr(!is_countable<Iter, Sent>) {
+            const size_type elements_before = p - m_data.begin;
+            const size_type old_size        = this->size();
+            push_back(std::move(first), std::move(last));
+            std::rotate(m_data.begin + elements_before, m_data.begin + old_size, m_data.end);
+            return begin() + elements_before;
+        }
         size_type elements = std::ranges::distance(first, last);
         if(this->size() + elements > capacity()) {
             Array tmp(capacity() == 0 ? elements : capacity() + elements, m_allocator);
@@ -229,6 +247,11 @@ public:
     //! Pushes [first, last) to the end of the array.
     template<std::input_iterator Iter, std::sentinel_for<Iter> Sent>
     constexpr void push_back(Iter first, Sent last) {
+        if constexpr(!is_countable<Iter, Sent>) {
+            for(; first != last; ++first)
+                emplace_back(*first);
+            return;
+        }
         size_type new_capacity = this->size() + std::ranges::distance(first, last);
         if(new_capacity > capacity()) {
             grow_storage(new_capacity);
-- 
2.43.0


From 158468141e9f5fa7ad1c0345c42b00a0b0c77ffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:14 +0000
Subject: [PATCH 07/54] fix: name range-v3 as ::ranges inside of xme

Once array.hpp is included, ranges:: means xme::ranges inside of the xme
namespace: linked_list.hpp, array_view.hpp, container.hpp and spsc_queue.hpp
did not compile after it.
---
 include/xme/container/array_view.hpp  | 10 +++++-----
 include/xme/container/linked_list.hpp |  6 +++---
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/xme/container/array_view.hpp b/include/xme/container/array_view.hpp
index 4131700..050049a 100644
--- a/include/xme/container/array_view.hpp
+++ b/include/xme/container/array_view.hpp
@@ -90,12 +90,12 @@ public:
       ArrayView(first, std::ranges::distance(first, last)) {}
 
     //! Create an ArrayView pointing to begin(range) up to end(range)
-    template<ranges::contiguous_range R>
-        requires(ranges::sized_range<R>) && (ranges::borrowed_range<R>)
+    template<::ranges::contiguous_range R>
+        requires(::ranges::sized_range<R>) && (::ranges::borrowed_range<R>)
                 && (!detail::is_std_array<std::remove_cvref_t<R>>)
                 && (!std::is_array_v<std::remove_cvref_t<R>>)
                 && (!detail::is_array_view<std::remove_cvref_t<R>>)
-    constexpr ArrayView(R&& range) noexcept : ArrayView(ranges::data(range), ranges::size(range)) {}
+    constexpr ArrayView(R&& range) noexcept : ArrayView(::ranges::data(range), ::ranges::size(range)) {}
 
     //! Create an ArrayView pointing to a C-Style array
     template<std::size_t Lenght>
@@ -222,8 +222,8 @@ ArrayView(const std::array<T, N>&) -> ArrayView<const T, N>;
 template<std::contiguous_iterator Iter, typename End>
 ArrayView(Iter, End) -> ArrayView<std::remove_reference_t<std::iter_reference_t<Iter>>>;
 
-template<ranges::contiguous_range R>
-ArrayView(R&&) -> ArrayView<std::remove_reference_t<ranges::range_reference_t<R>>>;
+template<::ranges::contiguous_range R>
+ArrayView(R&&) -> ArrayView<std::remove_reference_t<::ranges::range_reference_t<R>>>;
 
 //! Creates a readonly byte ArrayView of any ArrayView
 template<typename T, std::size_t Size>
diff --git a/include/xme/container/linked_list.hpp b/include/xme/container/linked_list.hpp
index 65eac38..95d3ff9 100644
--- a/include/xme/container/linked_list.hpp
+++ b/include/xme/container/linked_list.hpp
@@ -72,7 +72,7 @@ public:
     }
 
     //! Constructs a LinkedList from [begin(range), end(range)) range
-    template<ranges::input_range R>
+    template<::ranges::input_range R>
         requires(std::convertible_to<::ranges::range_reference_t<R>, T>)
     explicit constexpr LinkedList(R&& range) {
         range_initialize(::ranges::begin(range), ::ranges::end(range));
@@ -153,7 +153,7 @@ public:
     template<::ranges::input_range R>
         requires(std::convertible_to<::ranges::range_reference_t<R>, T>)
     constexpr void assign(R&& range) {
-        assign(::ranges::begin(range), ranges::end(range));
+        assign(::ranges::begin(range), ::ranges::end(range));
     }
 
     //! Creates a node at the front by copying value
@@ -190,7 +190,7 @@ public:
     //! Inserts a [begin(range), end(range)) range of nodes after pos
     //! @returns an iterator to the last inserted element.
     template<::ranges::input_range R>
-        requires(std::is_convertible_v<ranges::range_reference_t<R>, T>)
+        requires(std::is_convertible_v<::ranges::range_reference_t<R>, T>)
     constexpr auto insert_after(const_iterator pos, R&& range) -> iterator {
         return insert_after(pos, ::ranges::begin(range), ::ranges::end(range));
     }
-- 
2.43.0


From 580071b994fb0062908b5510cbf67bcac0d5212e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:17 +0000
Subject: [PATCH 08/54] fix: LinkedList constructors free the nodes when one of
 them throws

The destructor doesn't run when a constructor throws, so the nodes that were
already created leaked. Delegate to the default constructor so that it does.
---
 include/xme/container/linked_list.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/xme/container/linked_list.hpp b/include/xme/container/linked_list.hpp
index 95d3ff9..a443b28 100644
--- a/include/xme/container/linked_list.hpp
+++ b/include/xme/container/linked_list.hpp
@@ -38,7 +38,7 @@ public:
     constexpr LinkedList() noexcept = default;
 
     //! Default constructs N nodes
-    explicit constexpr LinkedList(std::size_t n) {
+    explicit constexpr LinkedList(std::size_t n) : LinkedList() {
         node_base* curr = &m_head;
         for(; n > 0; --n) {
             curr->next = create_node();
@@ -47,7 +47,7 @@ public:
     }
 
     //! Constructs N nodes with value
-    constexpr LinkedList(std::size_t n, const T& value) {
+    constexpr LinkedList(std::size_t n, const T& value) : LinkedList() {
         node_base* curr = &m_head;
         for(; n > 0; --n) {
             curr->next = create_node(value);
@@ -57,24 +57,24 @@ public:
 
     //! Constructs a LinkedList from a [first, end) range
     template<std::input_iterator Iter, std::sentinel_for<Iter> Sent>
-    constexpr LinkedList(Iter first, Sent last) {
+    constexpr LinkedList(Iter first, Sent last) : LinkedList() {
         range_initialize(first, last);
     }
 
     //! Constructs a LinkedList with the initializer_list syntax
-    explicit constexpr LinkedList(std::initializer_list<T> list) {
+    explicit constexpr LinkedList(std::initializer_list<T> list) : LinkedList() {
         range_initialize(list.begin(), list.end());
     }
 
     //! Constructs a LinkedList by Copying elements from other.
-    explicit constexpr LinkedList(const LinkedList& other) {
+    explicit constexpr LinkedList(const LinkedList& other) : LinkedList() {
         range_initialize(other.begin(), other.end());
     }
 
     //! Constructs a LinkedList from [begin(range), end(range)) range
     template<::ranges::input_range R>
         requires(std::convertible_to<::ranges::range_reference_t<R>, T>)
-    explicit constexpr LinkedList(R&& range) {
+    explicit constexpr LinkedList(R&& range) : LinkedList() {
         range_initialize(::ranges::begin(range), ::ranges::end(range));
     }
 
-- 
2.43.0


From abc042ce03122d4f266412000f37d3426798e86f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:21 +0000
Subject: [PATCH 09/54] fix: containers of types with no default constructor
 compile

The default constructor of AlignedData leaves its storage empty, it doesn't
need T to have one. Without it LinkedList and SPSCQueue did not compile for
such a T.
---
 include/xme/container/aligned_data.hpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/include/xme/container/aligned_data.hpp b/include/xme/container/aligned_data.hpp
index cf4dabd..1c4d2eb 100644
--- a/include/xme/container/aligned_data.hpp
+++ b/include/xme/container/aligned_data.hpp
@@ -22,9 +22,7 @@ public:
     using pointer         = T*;
     using const_pointer   = const T*;
 
-    constexpr AlignedData() noexcept
-        requires std::default_initializable<T>
-    = default;
+    constexpr AlignedData() noexcept = default;
 
     template<typename... Args>
     constexpr AlignedData(Args&&... args) noexcept {
-- 
2.43.0


From b27d7d73e66bb2328bc134f261255cd9dc4746d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:37 +0000
Subject: [PATCH 10/54] fix: find accepts data that isn't aligned to the SIMD
 register

The vectorized search read with aligned loads, which crash when the first
element is not aligned to 16 or 32 bytes.
---
 include/xme/core/algorithm/find.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/xme/core/algorithm/find.hpp b/include/xme/core/algorithm/find.hpp
index d6f5981..67d5115 100644
--- a/include/xme/core/algorithm/find.hpp
+++ b/include/xme/core/algorithm/find.hpp
@@ -14,25 +14,25 @@ XME_INLINE auto find_simd(const void* data, const void* const value) {
 #if XME_SIMD_USE_AVX2
     if constexpr(size == 1) {
         const __m256i needle     = _mm256_set1_epi8(*(std::int8_t*)value);
-        const __m256i comp       = _mm256_cmpeq_epi8(*(__m256i*)data, needle);
+        const __m256i comp       = _mm256_cmpeq_epi8(_mm256_loadu_si256((const __m256i*)data), needle);
         const std::uint32_t mask = _mm256_movemask_epi8(comp);
         return std::countr_zero(mask);
     }
     else if constexpr(size == 2) {
         const __m256i needle     = _mm256_set1_epi16(*(std::int16_t*)value);
-        const __m256i comp       = _mm256_cmpeq_epi16(*(__m256i*)data, needle);
+        const __m256i comp       = _mm256_cmpeq_epi16(_mm256_loadu_si256((const __m256i*)data), needle);
         const std::uint32_t mask = _mm256_movemask_epi8(comp);
         return std::countr_zero(mask) >> 1;
     }
     else if constexpr(size == 4) {
         const __m256i needle    = _mm256_set1_epi32(*(std::int32_t*)value);
-        const __m256i comp      = _mm256_cmpeq_epi32(*(__m256i*)data, needle);
+        const __m256i comp      = _mm256_cmpeq_epi32(_mm256_loadu_si256((const __m256i*)data), needle);
         const std::uint8_t mask = _mm256_movemask_ps(*(__m256*)&comp);
         return std::countr_zero(mask);
     }
     else if constexpr(size == 8) {
         const __m256i needle    = _mm256_set1_epi64x(*(std::int64_t*)value);
-        const __m256i comp      = _mm256_cmpeq_epi64(*(__m256i*)data, needle);
+        const __m256i comp      = _mm256_cmpeq_epi64(_mm256_loadu_si256((const __m256i*)data), needle);
         const std::uint8_t mask = _mm256_movemask_pd(*(__m256d*)&comp);
         return mask == 0 ? 4 : std::countr_zero(mask);
     }
@@ -40,25 +40,25 @@ XME_INLINE auto find_simd(const void* data, const void* const value) {
 #elif XME_SIMD_USE_SSE2
     if constexpr(size == 1) {
         const __m128i needle     = _mm_set1_epi8(*(std::int8_t*)value);
-        const __m128i comp       = _mm_cmpeq_epi8(*(__m128i*)data, needle);
+        const __m128i comp       = _mm_cmpeq_epi8(_mm_loadu_si128((const __m128i*)data), needle);
         const std::uint16_t mask = _mm_movemask_epi8(comp);
         return std::countr_zero(mask);
     }
     else if constexpr(size == 2) {
         const __m128i needle     = _mm_set1_epi16(*(std::int16_t*)value);
-        const __m128i comp       = _mm_cmpeq_epi16(*(__m128i*)data, needle);
+        const __m128i comp       = _mm_cmpeq_epi16(_mm_loadu_si128((const __m128i*)data), needle);
         const std::uint16_t mask = _mm_movemask_epi8(comp);
         return std::countr_zero(mask) >> 1;
     }
     else if constexpr(size == 4) {
         const __m128i needle    = _mm_set1_epi32(*(std::int32_t*)value);
-        const __m128i comp      = _mm_cmpeq_epi32(*(__m128i*)data, needle);
+        const __m128i comp      = _mm_cmpeq_epi32(_mm_loadu_si128((const __m128i*)data), needle);
         const std::uint8_t mask = _mm_movemask_ps(*(__m128*)&comp);
         return mask == 0 ? 4 : std::countr_zero(mask);
     }
     else if constexpr(size == 8) {
         const __m128i needle    = _mm_set1_epi64x(*(std::int64_t*)value);
-        const __m128i comp      = _mm_cmpeq_epi64(*(__m128i*)data, needle);
+        const __m128i comp      = _mm_cmpeq_epi64(_mm_loadu_si128((const __m128i*)data), needle);
         const std::uint8_t mask = _mm_movemask_pd(*(__m128d*)&comp);
         return mask == 0 ? 2 : std::countr_zero(mask);
     }
-- 
2.43.0


From 39ed68787af7a37ae0a9b595996702e07866c229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:48 +0000
Subject: [PATCH 11/54] fix: find only compares bits where that is what
 operator== does

The vectorized search ignored operator==: -0.0 and 0.0 were different, a NaN
was found, and so was any user type by its bits. Elements which aren't 1, 2, 4
or 8 bytes long, and 8 byte ones with only SSE2, did not compile. Search those
with ::ranges::find.
---
 include/xme/core/algorithm/find.hpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/include/xme/core/algorithm/find.hpp b/include/xme/core/algorithm/find.hpp
index 67d5115..3d55945 100644
--- a/include/xme/core/algorithm/find.hpp
+++ b/include/xme/core/algorithm/find.hpp
@@ -1,5 +1,6 @@
 #pragma once
 #include <bit>
+#include <concepts>
 #include <execution>
 #include <x86intrin.h>
 #include <xme/setup.hpp>
@@ -9,6 +10,14 @@
 
 namespace xme {
 namespace detail {
+//! Elements are searched by comparing their bits, which is only the same as operator== for these
+//! types. Searching 8 byte elements needs SSE4.1.
+template<typename T>
+inline constexpr bool is_simd_findable =
+  (std::is_integral_v<T> || std::is_enum_v<T> || std::is_pointer_v<T>)
+  && (sizeof(T) == 1 || sizeof(T) == 2 || sizeof(T) == 4
+      || (sizeof(T) == 8 && (XME_SIMD_USE_AVX2 || XME_SIMD_USE_SSE41)));
+
 template<std::size_t size>
 XME_INLINE auto find_simd(const void* data, const void* const value) {
 #if XME_SIMD_USE_AVX2
@@ -74,9 +83,9 @@ XME_INLINE constexpr auto find(I i, S s, const ::ranges::iter_value_t<I>& value)
 #if XME_SIMD_USE_AVX2 || XME_SIMD_USE_SSE2
     using T = ::ranges::iter_value_t<I>;
 
-    if constexpr(::ranges::contiguous_iterator<I>
+    if constexpr(::ranges::contiguous_iterator<I> && std::totally_ordered_with<I, S>
+                 && detail::is_simd_findable<T>
                  && std::derived_from<ExecutionPolicy, std::execution::unsequenced_policy>) {
-        static_assert(sizeof(T) == 1 || sizeof(T) == 2 || sizeof(T) == 4 || sizeof(T) == 8);
         constexpr auto readable_bytes = (XME_SIMD_USE_AVX2 ? 32 : 16) / sizeof(T);
         auto compare                  = i;
         while(compare + readable_bytes <= s) {
-- 
2.43.0


From af987d3261c4c304f05fc9f96db19cd6cd5646c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:40 +0000
Subject: [PATCH 12/54] fix: reverse works for elements that aren't one byte
 long

Reversing a contiguous range of any other size did not compile with AVX2, and
with SSE3 left most of a range of 2 byte elements in place. One byte elements
need SSSE3. Reverse everything else with swaps, as is done without SIMD.
---
 include/xme/core/algorithm/reverse.hpp | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/include/xme/core/algorithm/reverse.hpp b/include/xme/core/algorithm/reverse.hpp
index 52d0e76..71e65d4 100644
--- a/include/xme/core/algorithm/reverse.hpp
+++ b/include/xme/core/algorithm/reverse.hpp
@@ -1,7 +1,9 @@
 #pragma once
 #include "range/v3/range/concepts.hpp"
+#include <concepts>
 #include <cstdint>
 #include <immintrin.h>
+#include <type_traits>
 #include <x86intrin.h>
 #include <xme/setup.hpp>
 #include <xme/hal/simd_detection.hpp>
@@ -13,6 +15,11 @@ namespace detail {
 #define SEQ 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15
 inline const __m128i shuffle = _mm_set_epi8(SEQ);
 
+//! Only these elements can be reversed as raw bytes, the shuffle needs at least SSSE3.
+template<typename T>
+inline constexpr bool is_simd_reversible = std::is_trivially_copyable_v<T> && sizeof(T) == 1
+                                           && (XME_SIMD_USE_AVX2 || XME_SIMD_USE_SSSE3);
+
 template<std::size_t size>
 XME_INLINE void reverse_simd(void* lhs, void* rhs) {
 #if XME_SIMD_USE_AVX2
@@ -28,7 +35,7 @@ XME_INLINE void reverse_simd(void* lhs, void* rhs) {
         _mm256_storeu_si256((__m256i*)((std::int8_t*)rhs - 32), lower);
     }
     else
-#elif XME_SIMD_USE_SSE3
+#elif XME_SIMD_USE_SSSE3
     if constexpr(size == 1) {
         __m128i lower = _mm_loadu_si128((__m128i*)lhs);
         __m128i upper = _mm_loadu_si128((__m128i*)((std::int8_t*)rhs - 16));
@@ -37,7 +44,6 @@ XME_INLINE void reverse_simd(void* lhs, void* rhs) {
         _mm_storeu_si128((__m128i_u*)(std::int8_t*)lhs, upper);
         _mm_storeu_si128((__m128i_u*)((std::int8_t*)rhs - 16), lower);
     }
-    else if constexpr(size == 2) {}
     else
 #endif
         static_assert(size < 0);
@@ -46,11 +52,11 @@ XME_INLINE void reverse_simd(void* lhs, void* rhs) {
 
 template<::ranges::input_iterator I, ::ranges::sentinel_for<I> S>
 XME_INLINE constexpr auto reverse(I i, S s) noexcept {
-#if XME_SIMD_USE_AVX2 || XME_SIMD_USE_SSE3
+#if XME_SIMD_USE_AVX2 || XME_SIMD_USE_SSSE3
     using T = ::ranges::iter_value_t<I>;
 
-    if constexpr(::ranges::contiguous_iterator<I>) {
-        static_assert(sizeof(T) == 1 || sizeof(T) == 2 || sizeof(T) == 4 || sizeof(T) == 8);
+    if constexpr(::ranges::contiguous_iterator<I> && std::same_as<I, S>
+                 && detail::is_simd_reversible<T>) {
         constexpr auto readable_bytes = (XME_SIMD_USE_AVX2 ? 32 : 16) / sizeof(T);
         auto count                    = ((s - i) / 2) / readable_bytes;
         const auto end                = s;
-- 
2.43.0


From ebdc4dc1cc18bac9ddfedab64a7dfd81ebe70723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:51 +0000
Subject: [PATCH 13/54] fix: ReverseIterator orders elements the way it
 traverses them

operator<=> compared the underlying iterators without reversing the order, so
rbegin() was greater than rend().
---
 include/xme/core/iterators/reverse_iterator.hpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/include/xme/core/iterators/reverse_iterator.hpp b/include/xme/core/iterators/reverse_iterator.hpp
index e9da22a..269d518 100644
--- a/include/xme/core/iterators/reverse_iterator.hpp
+++ b/include/xme/core/iterators/reverse_iterator.hpp
@@ -1,5 +1,6 @@
 #pragma once
 #include <iterator>
+#include <compare>
 #include <concepts>
 namespace xme {
 template<std::bidirectional_iterator It>
@@ -121,7 +122,11 @@ public:
 
     constexpr bool operator==(const self& rhs) const noexcept = default;
 
-    constexpr auto operator<=>(const self& rhs) const noexcept = default;
+    constexpr auto operator<=>(const self& rhs) const noexcept
+        requires(std::three_way_comparable<It>)
+    {
+        return rhs.m_current <=> m_current;
+    }
 
     template<typename U>
     friend constexpr bool operator==(const ReverseIterator<It>& lhs,
@@ -129,10 +134,10 @@ public:
         return lhs.operator->() == rhs.operator->();
     }
 
-    template<typename U>
+    template<std::random_access_iterator U>
     friend constexpr auto operator<=>(const ReverseIterator<It>& lhs,
                                       const ReverseIterator<U>& rhs) noexcept {
-        return lhs.operator->() <=> rhs.operator->();
+        return rhs.operator->() <=> lhs.operator->();
     }
 
 private:
-- 
2.43.0


From 449715f3bee32553a35186b57f6dc689f1f42622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:42 +0000
Subject: [PATCH 14/54] fix: an exception thrown when copying a bound call
 reaches the caller

BindFront and BindBack were noexcept even if copying the callable or a bound
argument can throw, so the exception terminated the program.
---
 include/xme/core/functional/bind.hpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/include/xme/core/functional/bind.hpp b/include/xme/core/functional/bind.hpp
index b2d6cfd..aef48a6 100644
--- a/include/xme/core/functional/bind.hpp
+++ b/include/xme/core/functional/bind.hpp
@@ -12,19 +12,19 @@ private:
     using bound_indices = std::make_index_sequence<sizeof...(Args)>;
 
 public:
-    constexpr BindFront(const BindFront&) noexcept = default;
+    constexpr BindFront(const BindFront&) = default;
 
-    constexpr BindFront(BindFront&&) noexcept = default;
+    constexpr BindFront(BindFront&&) = default;
 
     template<CDifferentFromSelf<BindFront> Fn, typename... BoundArgs>
     explicit constexpr BindFront(Fn&& func, BoundArgs&&... args)
       noexcept(std::is_nothrow_constructible_v<F, Fn>
-               && (std::is_nothrow_constructible_v<BoundArgs, Args> && ...)) :
+               && (std::is_nothrow_constructible_v<Args, BoundArgs> && ...)) :
       m_callable(std::forward<Fn>(func)), m_bound_args{std::forward<BoundArgs>(args)...} {}
 
-    constexpr auto operator=(const BindFront&) noexcept -> BindFront& = default;
+    constexpr auto operator=(const BindFront&) -> BindFront& = default;
 
-    constexpr auto operator=(BindFront&&) noexcept -> BindFront& = default;
+    constexpr auto operator=(BindFront&&) -> BindFront& = default;
 
     // TODO: Simplify when deducing this is added
     template<typename... CallArgs>
@@ -74,9 +74,9 @@ private:
     using bound_indices = std::make_index_sequence<sizeof...(Args)>;
 
 public:
-    constexpr BindBack(const BindBack&) noexcept = default;
+    constexpr BindBack(const BindBack&) = default;
 
-    constexpr BindBack(BindBack&&) noexcept = default;
+    constexpr BindBack(BindBack&&) = default;
 
     template<CDifferentFromSelf<BindBack> Fn, typename... BoundArgs>
     explicit constexpr BindBack(Fn&& func, BoundArgs&&... args)
@@ -84,9 +84,9 @@ public:
                && (std::is_nothrow_constructible_v<Args, BoundArgs> && ...)) :
       m_callable(std::forward<Fn>(func)), m_bound_args{std::forward<BoundArgs>(args)...} {}
 
-    constexpr auto operator=(const BindBack&) noexcept -> BindBack& = default;
+    constexpr auto operator=(const BindBack&) -> BindBack& = default;
 
-    constexpr auto operator=(BindBack&&) noexcept -> BindBack& = default;
+    constexpr auto operator=(BindBack&&) -> BindBack& = default;
 
     // TODO: Simplify when deducing this is added
     template<typename... CallArgs>
-- 
2.43.0


From 11ca6544fb1ac98632ef9316b5fdf7b7a609e27b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:12 +0000
Subject: [PATCH 15/54] fix: Delegate is copyable

The copy constructor did not compile, because it passed the storage of a const
Delegate as a mutable source.
---
 include/xme/core/functional/delegate.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/xme/core/functional/delegate.hpp b/include/xme/core/functional/delegate.hpp
index 50eda81..2e18238 100644
--- a/include/xme/core/functional/delegate.hpp
+++ b/include/xme/core/functional/delegate.hpp
@@ -92,7 +92,7 @@ public:
 
         static constexpr void destroy(AnyData& f) noexcept { destroy_functor<is_local_storage>(f); }
 
-        static constexpr void manager(AnyData& dest, AnyData& source, EOperation op) {
+        static constexpr void manager(AnyData& dest, const AnyData& source, EOperation op) {
             switch(op) {
             case EOperation::copy:    create_functor(dest, *handle(source)); break;
             case EOperation::destroy: destroy(dest); break;
@@ -197,8 +197,8 @@ public:
 
 private:
     AnyData m_storage{};
-    R (*m_callable)(const AnyData&, Args...)          = nullptr;
-    void (*m_manager)(AnyData&, AnyData&, EOperation) = nullptr;
+    R (*m_callable)(const AnyData&, Args...)                = nullptr;
+    void (*m_manager)(AnyData&, const AnyData&, EOperation) = nullptr;
 };
 
 namespace detail {
-- 
2.43.0


From 34c339f046751c98cc1bc290f7f3a267e6c5416f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:13 +0000
Subject: [PATCH 16/54] fix: Delegate can be constructed from a functor or a
 function by reference

It only compiled for temporaries and function pointers.
---
 include/xme/core/functional/delegate.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/xme/core/functional/delegate.hpp b/include/xme/core/functional/delegate.hpp
index 2e18238..e98408d 100644
--- a/include/xme/core/functional/delegate.hpp
+++ b/include/xme/core/functional/delegate.hpp
@@ -134,11 +134,11 @@ public:
 
     template<CDifferentFromSelf<Delegate> Fn>
     constexpr Delegate(Fn&& fn) {
-        using Manager = FunctorManager<Fn>;
+        using Manager = FunctorManager<std::decay_t<Fn>>;
         if(!is_empty_function(fn)) {
             Manager::create_functor(m_storage, std::forward<Fn>(fn));
-            m_callable = &FunctorManager<Fn>::invoke;
-            m_manager  = &FunctorManager<Fn>::manager;
+            m_callable = &Manager::invoke;
+            m_manager  = &Manager::manager;
         }
     }
 
-- 
2.43.0


From 8f3875b6ae4601159320786775d95272c3110a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:03 +0000
Subject: [PATCH 17/54] fix: Delegate doesn't move functors as bytes unless
 they can be

Small functors were stored inside of the Delegate, and moved to another by
copying their bytes, whatever their move constructor and destructor do.
---
 include/xme/core/functional/delegate.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/xme/core/functional/delegate.hpp b/include/xme/core/functional/delegate.hpp
index e98408d..392b197 100644
--- a/include/xme/core/functional/delegate.hpp
+++ b/include/xme/core/functional/delegate.hpp
@@ -56,7 +56,9 @@ public:
         static constexpr std::size_t max_size  = sizeof(AnyCallable);
         static constexpr std::size_t max_align = alignof(AnyCallable);
         static constexpr bool is_local_storage =
-          sizeof(Functor) <= max_size && alignof(Functor) <= max_align;
+          sizeof(Functor) <= max_size && alignof(Functor) <= max_align
+          // The storage is moved and swapped as bytes
+          && std::is_trivially_copyable_v<Functor>;
 
         static constexpr auto invoke(const AnyData& functor, Args... args) -> R {
             return std::invoke(*handle(functor), std::forward<Args>(args)...);
-- 
2.43.0


From 3f67b510d208a28101b77c3d13d34c8298cafa71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:05 +0000
Subject: [PATCH 18/54] fix: Delegate::handle returns functors that are stored
 in the heap

It returned the address of the pointer to the functor.
---
 include/xme/core/functional/delegate.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/xme/core/functional/delegate.hpp b/include/xme/core/functional/delegate.hpp
index 392b197..2470881 100644
--- a/include/xme/core/functional/delegate.hpp
+++ b/include/xme/core/functional/delegate.hpp
@@ -192,7 +192,7 @@ public:
     template<typename Functor>
     constexpr auto handle() const noexcept -> const Functor* {
         if(m_manager == &FunctorManager<Functor>::manager) {
-            return static_cast<const Functor*>(m_storage.access());
+            return FunctorManager<Functor>::handle(m_storage);
         }
         return nullptr;
     }
-- 
2.43.0


From 9a675814c60c1ee75ce2146c0c4735501f78786d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:07 +0000
Subject: [PATCH 19/54] fix: an exception thrown when assigning to a Delegate
 reaches the caller

Copying a functor can throw, but the assignments were noexcept.
---
 include/xme/core/functional/delegate.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/xme/core/functional/delegate.hpp b/include/xme/core/functional/delegate.hpp
index 2470881..634bf24 100644
--- a/include/xme/core/functional/delegate.hpp
+++ b/include/xme/core/functional/delegate.hpp
@@ -151,7 +151,7 @@ public:
 
     explicit constexpr operator bool() const noexcept { return !!m_manager; }
 
-    constexpr auto operator=(const Delegate& other) noexcept -> Delegate& {
+    constexpr auto operator=(const Delegate& other) -> Delegate& {
         Delegate(other).swap(*this);
         return *this;
     }
@@ -171,7 +171,7 @@ public:
     }
 
     template<CDifferentFromSelf<Delegate> Fn>
-    constexpr auto operator=(Fn&& other) noexcept -> Delegate& {
+    constexpr auto operator=(Fn&& other) -> Delegate& {
         Delegate(std::forward<Fn>(other)).swap(*this);
         return *this;
     }
-- 
2.43.0


From e771d998e8db19ed226e3356d454d7a26f1d090e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:30 +0000
Subject: [PATCH 20/54] fix: off center perspective divides by the width of the
 frustum

perspective_lh and perspective_rh centered the frustum horizontally with
right - near instead of right - left.
---
 include/xme/math/matrices/perspective.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/xme/math/matrices/perspective.hpp b/include/xme/math/matrices/perspective.hpp
index 282a4ba..6ce408a 100644
--- a/include/xme/math/matrices/perspective.hpp
+++ b/include/xme/math/matrices/perspective.hpp
@@ -56,7 +56,7 @@ XME_INLINE constexpr auto perspective_lh(T left, T right, T bottom, T top, T nea
     Matrix<T, 4, 4> result{0};
     result[0][0] = (2 * near) / (right - left);
     result[1][1] = (2 * near) / (top - bottom);
-    result[2][0] = -(right + left) / (right - near);
+    result[2][0] = -(right + left) / (right - left);
     result[2][1] = -(top + bottom) / (top - bottom);
     result[2][2] = (far + near) / (far - near);
     result[2][3] = 1;
@@ -71,7 +71,7 @@ XME_INLINE constexpr auto perspective_rh(T left, T right, T bottom, T top, T nea
     Matrix<T, 4, 4> result{0};
     result[0][0] = (2 * near) / (right - left);
     result[1][1] = (2 * near) / (top - bottom);
-    result[2][0] = (right + left) / (right - near);
+    result[2][0] = (right + left) / (right - left);
     result[2][1] = (top + bottom) / (top - bottom);
     result[2][2] = -(far + near) / (far - near);
     result[2][3] = -1;
-- 
2.43.0


From e4a08adfc55995277c155d59320310bafa98808f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:30 +0000
Subject: [PATCH 21/54] fix: ortho_lh and ortho_rh are orthographic projections

They overwrote the vertical scale with the depth scale, and put the
translation in the third column instead of the fourth.
---
 include/xme/math/matrices/perspective.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/xme/math/matrices/perspective.hpp b/include/xme/math/matrices/perspective.hpp
index 6ce408a..deff006 100644
--- a/include/xme/math/matrices/perspective.hpp
+++ b/include/xme/math/matrices/perspective.hpp
@@ -97,10 +97,10 @@ XME_INLINE constexpr auto ortho_lh(T left, T right, T bottom, T top, T near,
     Matrix<T, 4, 4> result{1};
     result[0][0] = 2 / (right - left);
     result[1][1] = 2 / (top - bottom);
-    result[1][1] = 2 / (far - near);
-    result[2][0] = -(right + left) / (right - left);
-    result[2][1] = -(top + bottom) / (top - bottom);
-    result[2][2] = -(far + near) / (far - near);
+    result[2][2] = 2 / (far - near);
+    result[3][0] = -(right + left) / (right - left);
+    result[3][1] = -(top + bottom) / (top - bottom);
+    result[3][2] = -(far + near) / (far - near);
     return result;
 }
 
@@ -111,10 +111,10 @@ XME_INLINE constexpr auto ortho_rh(T left, T right, T bottom, T top, T near,
     Matrix<T, 4, 4> result{1};
     result[0][0] = 2 / (right - left);
     result[1][1] = 2 / (top - bottom);
-    result[1][1] = -2 / (far - near);
-    result[2][0] = -(right + left) / (right - left);
-    result[2][1] = -(top + bottom) / (top - bottom);
-    result[2][2] = -(far + near) / (far - near);
+    result[2][2] = -2 / (far - near);
+    result[3][0] = -(right + left) / (right - left);
+    result[3][1] = -(top + bottom) / (top - bottom);
+    result[3][2] = -(far + near) / (far - near);
     return result;
 }
 
-- 
2.43.0


From 28ae302e94cb133bb7b3e051a95eac602d39a513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:30 +0000
Subject: [PATCH 22/54] fix: rotate around an axis of integers

The axis was scaled while still a vector of integers, truncating it to 0.
---
 include/xme/math/matrices/transformation.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/xme/math/matrices/transformation.hpp b/include/xme/math/matrices/transformation.hpp
index 2ee17c3..15c22be 100644
--- a/include/xme/math/matrices/transformation.hpp
+++ b/include/xme/math/matrices/transformation.hpp
@@ -41,7 +41,7 @@ XME_INLINE constexpr auto rotate(const Matrix<T, 4, 4>& m, auto angle,
     const auto s{std::sin(static_cast<T>(angle))};
     const auto c{std::cos(static_cast<T>(angle))};
 
-    const Vector<T, 3> temp{n * (1 - c)};
+    const Vector<T, 3> temp{Vector<T, 3>{n} * (1 - c)};
 
     Matrix<T, 3, 3> Rotate;
     Rotate[0][0] = c + temp[0] * n[0];
-- 
2.43.0


From b564d8f001adac18ceb70393945cae8b3fc51c98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:30 +0000
Subject: [PATCH 23/54] fix: lerp by an unsigned percent

1 - percent wrapped around when percent was bigger than 1.
---
 include/xme/math/vectors/functions.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/xme/math/vectors/functions.hpp b/include/xme/math/vectors/functions.hpp
index 538800b..b87a147 100644
--- a/include/xme/math/vectors/functions.hpp
+++ b/include/xme/math/vectors/functions.hpp
@@ -17,7 +17,7 @@ XME_INLINE constexpr auto lerp(const Vector<T, N>& v1, const Vector<T, N>& v2,
     if constexpr(std::is_same_v<std::remove_cv_t<U>, bool>) {
         return percent ? v2 : v1;
     }
-    return v2 * percent + v1 * (1 - percent);
+    return v2 * percent + v1 * (T(1) - percent);
 }
 
 //! Linearly interpolates `v1` and `v2`.
@@ -32,7 +32,7 @@ XME_INLINE constexpr auto lerp(const Vector<T, N>& v1, const Vector<T, N>& v2,
             result[i] = percent[i] ? v2[i] : v1[i];
         }
         else {
-            result[i] = v2[i] * percent[i] + v1[i] * (1 - percent[i]);
+            result[i] = v2[i] * percent[i] + v1[i] * (T(1) - percent[i]);
         }
     }
     return result;
-- 
2.43.0


From 7d5f7d7a9914f285b9d510d143dfbeb7908ca470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:30 +0000
Subject: [PATCH 24/54] fix: names of environment variables don't need a null
 terminator

A string_view isn't null terminated, so the functions read past its end.
---
 include/xme/hal/linux/platform.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/xme/hal/linux/platform.hpp b/include/xme/hal/linux/platform.hpp
index 1caf156..aae7fcf 100644
--- a/include/xme/hal/linux/platform.hpp
+++ b/include/xme/hal/linux/platform.hpp
@@ -1,18 +1,19 @@
 #pragma once
+#include <string>
 #include <string_view>
 #include <cstdlib>
 
 namespace xme::hal {
 constexpr auto get_environment_variable(std::string_view name) -> char* {
-    return ::secure_getenv(name.data());
+    return ::secure_getenv(std::string(name).c_str());
 }
 
 constexpr auto set_environment_variable(std::string_view name, std::string_view value) {
     if(value.length() == 0) {
-        ::unsetenv(name.data());
+        ::unsetenv(std::string(name).c_str());
     }
     else {
-        ::setenv(name.data(), value.data(), true);
+        ::setenv(std::string(name).c_str(), std::string(value).c_str(), true);
     }
 }
 }  // namespace xme::hal
-- 
2.43.0


From 9bd066182a548470495e9bcd25d7e103520b416a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:30 +0000
Subject: [PATCH 25/54] fix: SharedLibrary names don't need a null terminator

A string_view isn't null terminated, so dlopen and dlsym read past its end.
---
 include/xme/hal/shared_library.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/xme/hal/shared_library.hpp b/include/xme/hal/shared_library.hpp
index 4c32718..0811cf5 100644
--- a/include/xme/hal/shared_library.hpp
+++ b/include/xme/hal/shared_library.hpp
@@ -1,4 +1,5 @@
 #pragma once
+#include <string>
 #include <string_view>
 #include "platform_macros.hpp"
 
@@ -40,7 +41,7 @@ public:
     constexpr void open(std::string_view lib_name) {
 #if XME_PLATFORM_WINDOWS
 #elif XME_PLATFORM_LINUX || XME_PLATFORM_MAC
-        m_library = dlopen(lib_name.data(), RTLD_NOW | RTLD_LOCAL);
+        m_library = dlopen(std::string(lib_name).c_str(), RTLD_NOW | RTLD_LOCAL);
 #endif
     }
 
@@ -56,7 +57,7 @@ public:
     constexpr auto proc_address(std::string_view function) const noexcept -> void* {
 #if XME_PLATFORM_WINDOWS
 #elif XME_PLATFORM_LINUX || XME_PLATFORM_MAC
-        return (T)dlsym(m_library, function.data());
+        return (T)dlsym(m_library, std::string(function).c_str());
 #endif
     }
 
-- 
2.43.0


From d2188057103f5adfa1694a27a361844f81f50196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:30 +0000
Subject: [PATCH 26/54] fix: SharedLibrary closes its library exactly once

After close the library still looked open and was closed again by the
destructor. Opening another library leaked the previous one.
---
 include/xme/hal/shared_library.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/xme/hal/shared_library.hpp b/include/xme/hal/shared_library.hpp
index 0811cf5..e46d0d5 100644
--- a/include/xme/hal/shared_library.hpp
+++ b/include/xme/hal/shared_library.hpp
@@ -39,6 +39,7 @@ public:
     }
 
     constexpr void open(std::string_view lib_name) {
+        close();
 #if XME_PLATFORM_WINDOWS
 #elif XME_PLATFORM_LINUX || XME_PLATFORM_MAC
         m_library = dlopen(std::string(lib_name).c_str(), RTLD_NOW | RTLD_LOCAL);
@@ -48,7 +49,9 @@ public:
     constexpr void close() {
 #if XME_PLATFORM_WINDOWS
 #elif XME_PLATFORM_LINUX || XME_PLATFORM_MAC
-        dlclose(m_library);
+        if(m_library)
+            dlclose(m_library);
+        m_library = nullptr;
 #endif
     }
 
-- 
2.43.0


From 2f971b90bdf5d504d7fc0089d3ebdf6128ef2f48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:30 +0000
Subject: [PATCH 27/54] fix: SharedLibrary::proc_address returns the requested
 type

It only compiled for void*, because a function pointer isn't one.
---
 include/xme/hal/shared_library.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/xme/hal/shared_library.hpp b/include/xme/hal/shared_library.hpp
index e46d0d5..a6aa2c5 100644
--- a/include/xme/hal/shared_library.hpp
+++ b/include/xme/hal/shared_library.hpp
@@ -57,7 +57,7 @@ public:
 
     template<typename T>
     [[nodiscard]]
-    constexpr auto proc_address(std::string_view function) const noexcept -> void* {
+    constexpr auto proc_address(std::string_view function) const noexcept -> T {
 #if XME_PLATFORM_WINDOWS
 #elif XME_PLATFORM_LINUX || XME_PLATFORM_MAC
         return (T)dlsym(m_library, std::string(function).c_str());
-- 
2.43.0


From d8dd03a22f2602cbdf82ce31bbd9030d9f9a3780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:10 +0000
Subject: [PATCH 28/54] fix: ArrayView::subview asserts its bounds without
 overflowing

offset + count wrapped around for a big count, which passed the check.
---
 include/xme/container/array_view.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/xme/container/array_view.hpp b/include/xme/container/array_view.hpp
index 050049a..9ae1e69 100644
--- a/include/xme/container/array_view.hpp
+++ b/include/xme/container/array_view.hpp
@@ -158,9 +158,9 @@ public:
     [[nodiscard]]
     constexpr auto subview() const noexcept -> ArrayView<T, Count> {
         if constexpr(Size == dynamic_size)
-            assert(Count + Offset <= size());
+            assert(Offset <= size() && Count <= size() - Offset);
         else
-            static_assert(Count + Offset <= Size);
+            static_assert(Offset <= Size && Count <= Size - Offset);
         return ArrayView<T, Count>(m_view + Offset, Count);
     }
 
@@ -168,7 +168,7 @@ public:
     [[nodiscard]]
     constexpr auto subview(size_type offset,
                            size_type count) const noexcept -> ArrayView<T, dynamic_size> {
-        assert(count + offset <= size());
+        assert(offset <= size() && count <= size() - offset);
         return ArrayView<T, dynamic_size>(m_view + offset, count);
     }
 
-- 
2.43.0


From 101bf5404f9bab79907bcf881369de779a32db38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:10 +0000
Subject: [PATCH 29/54] fix: tuple_cat of tuples with elements from std

The unqualified call to forward_as_tuple was ambiguous with the one in std.
---
 include/xme/container/tuple.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/xme/container/tuple.hpp b/include/xme/container/tuple.hpp
index 1ff7d4a..36a4707 100644
--- a/include/xme/container/tuple.hpp
+++ b/include/xme/container/tuple.hpp
@@ -146,7 +146,7 @@ constexpr auto tuple_cat(T&&... t) {
     using outer = typename cat::outer_indices;
     using inner = typename cat::inner_indices;
     return detail::tuple_cat_impl<typename cat::return_t>(
-      outer{}, inner{}, forward_as_tuple(std::forward<T>(t)...));
+      outer{}, inner{}, xme::forward_as_tuple(std::forward<T>(t)...));
 }
 
 }  // namespace xme
-- 
2.43.0


From f1a0fad54049ffded5e339296e0a6e9955a61644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:32 +0000
Subject: [PATCH 30/54] fix: get of an rvalue tuple with rvalue reference
 elements

Elements of type T&& could not be returned by operator[] &&, so get<I> of an
rvalue forward_as_tuple, and tuple_cat of temporaries, did not compile.
---
 include/xme/container/pair.hpp   | 4 ++--
 private/container/tuple_base.hpp | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/xme/container/pair.hpp b/include/xme/container/pair.hpp
index 2620858..46fe8b2 100644
--- a/include/xme/container/pair.hpp
+++ b/include/xme/container/pair.hpp
@@ -43,7 +43,7 @@ public:
 
     [[nodiscard]]
     constexpr auto operator[](std::integral_constant<std::size_t, 0>) && noexcept -> T&& {
-        return static_cast<Pair&&>(*this).first;
+        return static_cast<T&&>(first);
     }
 
     [[nodiscard]]
@@ -58,7 +58,7 @@ public:
 
     [[nodiscard]]
     constexpr auto operator[](std::integral_constant<std::size_t, 1>) && noexcept -> U&& {
-        return static_cast<Pair&&>(*this).second;
+        return static_cast<U&&>(second);
     }
 #endif
 
diff --git a/private/container/tuple_base.hpp b/private/container/tuple_base.hpp
index 87bdc26..317a2be 100644
--- a/private/container/tuple_base.hpp
+++ b/private/container/tuple_base.hpp
@@ -36,7 +36,7 @@ struct TupleElement {
 
     [[nodiscard]]
     constexpr auto operator[](std::integral_constant<std::size_t, I>) && noexcept -> T&& {
-        return static_cast<TupleElement&&>(*this).value;
+        return static_cast<T&&>(value);
     }
 #endif
 
-- 
2.43.0


From ee52d694cc9a7cbaf6f7a9b541f3204ff00cadc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:33 +0000
Subject: [PATCH 31/54] fix: an exception thrown when assigning to a Pair
 reaches the caller

The assignment from any other pair was noexcept whenever the elements could be
swapped without throwing, even if assigning them can throw.
---
 include/xme/container/pair.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/xme/container/pair.hpp b/include/xme/container/pair.hpp
index 46fe8b2..c040be7 100644
--- a/include/xme/container/pair.hpp
+++ b/include/xme/container/pair.hpp
@@ -10,7 +10,8 @@ struct Pair {
 public:
     template<CPairLike P>
     constexpr auto operator=(P&& p)
-      noexcept(std::is_nothrow_swappable_v<T> && std::is_nothrow_swappable_v<U>) -> Pair& {
+      noexcept(std::is_nothrow_assignable_v<T&, decltype(get<0>(std::forward<P>(p)))>
+               && std::is_nothrow_assignable_v<U&, decltype(get<1>(std::forward<P>(p)))>) -> Pair& {
         first  = get<0>(std::forward<P>(p));
         second = get<1>(std::forward<P>(p));
         return *this;
-- 
2.43.0


From e578ca391c305025a3835a2af27fbf908a0ebfc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:07 +0000
Subject: [PATCH 32/54] fix: compare reverse iterators of different types by
 position

Comparing the addresses of the elements misorders iterators of
sequences that aren't contiguous, like std::deque, and accesses
before the first element.
---
 include/xme/core/iterators/reverse_iterator.hpp | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/include/xme/core/iterators/reverse_iterator.hpp b/include/xme/core/iterators/reverse_iterator.hpp
index 269d518..b2f10dc 100644
--- a/include/xme/core/iterators/reverse_iterator.hpp
+++ b/include/xme/core/iterators/reverse_iterator.hpp
@@ -2,6 +2,7 @@
 #include <iterator>
 #include <compare>
 #include <concepts>
+#include <xme/core/concepts/different_from.hpp>
 namespace xme {
 template<std::bidirectional_iterator It>
 struct ReverseIterator {
@@ -128,16 +129,16 @@ public:
         return rhs.m_current <=> m_current;
     }
 
-    template<typename U>
-    friend constexpr bool operator==(const ReverseIterator<It>& lhs,
-                                     const ReverseIterator<U>& rhs) noexcept {
-        return lhs.operator->() == rhs.operator->();
+    template<CDifferentFrom<It> U>
+        requires(std::equality_comparable_with<It, U>)
+    constexpr bool operator==(const ReverseIterator<U>& rhs) const noexcept {
+        return m_current == rhs.m_current;
     }
 
-    template<std::random_access_iterator U>
-    friend constexpr auto operator<=>(const ReverseIterator<It>& lhs,
-                                      const ReverseIterator<U>& rhs) noexcept {
-        return rhs.operator->() <=> lhs.operator->();
+    template<CDifferentFrom<It> U>
+        requires(std::three_way_comparable_with<It, U>)
+    constexpr auto operator<=>(const ReverseIterator<U>& rhs) const noexcept {
+        return rhs.m_current <=> m_current;
     }
 
 private:
-- 
2.43.0


From a017a87b317b1b79c47c042450c414d32898335e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:02 +0000
Subject: [PATCH 33/54] fix: convert between const iterators of compatible
 iterators

The constructor initialized the wrapped iterator from the wrapper, so
that it never compiled.
---
 include/xme/core/iterators/const_iterator.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/xme/core/iterators/const_iterator.hpp b/include/xme/core/iterators/const_iterator.hpp
index 1fa8ded..4a00780 100644
--- a/include/xme/core/iterators/const_iterator.hpp
+++ b/include/xme/core/iterators/const_iterator.hpp
@@ -26,6 +26,9 @@ private:
             return std::input_iterator_tag{};
     }
 
+    template<std::input_iterator>
+    friend class ConstIterator;
+
 public:
     using difference_type = std::iter_difference_t<It>;
     using value_type      = std::iter_value_t<It>;
@@ -38,7 +41,7 @@ public:
     constexpr ConstIterator(It it) noexcept : m_current(it) {}
 
     template<std::convertible_to<It> U>
-    constexpr ConstIterator(ConstIterator<U> other) noexcept : m_current{other} {}
+    constexpr ConstIterator(ConstIterator<U> other) noexcept : m_current(std::move(other.m_current)) {}
 
     template<CDifferentFrom<ConstIterator> T>
         requires std::convertible_to<T, It>
-- 
2.43.0


From 10c6a21ecdf0b2a0339d9ae272b4859722a3c3e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:41 +0000
Subject: [PATCH 34/54] fix: give const iterators -> only if the wrapped one
 refers to elements

Checking for operator-> of a const iterator over an iterator that
returns values was an error, so that such a const iterator couldn't be
used with any concept of the standard library.
---
 include/xme/core/iterators/const_iterator.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/xme/core/iterators/const_iterator.hpp b/include/xme/core/iterators/const_iterator.hpp
index 4a00780..26b39d6 100644
--- a/include/xme/core/iterators/const_iterator.hpp
+++ b/include/xme/core/iterators/const_iterator.hpp
@@ -47,7 +47,9 @@ public:
         requires std::convertible_to<T, It>
     constexpr ConstIterator(T&& it) noexcept : m_current(std::forward<T>(it)) {}
 
-    constexpr auto operator->() const noexcept -> const auto* {
+    constexpr auto operator->() const noexcept -> const auto*
+        requires std::is_lvalue_reference_v<std::iter_reference_t<It>>
+    {
         if constexpr(std::contiguous_iterator<It>)
             return std::to_address(m_current);
         else
-- 
2.43.0


From c39eebecb0a419e2bff4a941d3f1a7ba80b98f4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:02 +0000
Subject: [PATCH 35/54] fix: find doesn't form positions past the end of the
 range

---
 include/xme/core/algorithm/find.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/xme/core/algorithm/find.hpp b/include/xme/core/algorithm/find.hpp
index 3d55945..df1cf50 100644
--- a/include/xme/core/algorithm/find.hpp
+++ b/include/xme/core/algorithm/find.hpp
@@ -84,11 +84,12 @@ XME_INLINE constexpr auto find(I i, S s, const ::ranges::iter_value_t<I>& value)
     using T = ::ranges::iter_value_t<I>;
 
     if constexpr(::ranges::contiguous_iterator<I> && std::totally_ordered_with<I, S>
+                 && ::ranges::sized_sentinel_for<S, I>
                  && detail::is_simd_findable<T>
                  && std::derived_from<ExecutionPolicy, std::execution::unsequenced_policy>) {
         constexpr auto readable_bytes = (XME_SIMD_USE_AVX2 ? 32 : 16) / sizeof(T);
         auto compare                  = i;
-        while(compare + readable_bytes <= s) {
+        while(s - compare >= static_cast<std::ptrdiff_t>(readable_bytes)) {
             const auto index = detail::find_simd<sizeof(T)>(std::to_address(compare), &value);
             if(index != readable_bytes)
                 return i + ((compare + index) - i);
-- 
2.43.0


From f13d41519338c2d8ba88fc9f27ec2dd53a255845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:57 +0000
Subject: [PATCH 36/54] fix: construct matrices from elements of other types

---
 include/xme/math/matrices/matrix4x4.hpp | 4 ++--
 include/xme/math/matrix.hpp             | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/xme/math/matrices/matrix4x4.hpp b/include/xme/math/matrices/matrix4x4.hpp
index 337a6a6..15a9ab1 100644
--- a/include/xme/math/matrices/matrix4x4.hpp
+++ b/include/xme/math/matrices/matrix4x4.hpp
@@ -61,11 +61,11 @@ public:
     } {}
 
     template<typename... Args>
-    constexpr Matrix(const Vector<Args, 4>&... args) noexcept : m_data({args...}) {}
+    constexpr Matrix(const Vector<Args, 4>&... args) noexcept : m_data{column_type(args)...} {}
 
     template<typename U>
     explicit constexpr Matrix(const Matrix<U, 4, 4>& m) noexcept :
-      m_data({m[0], m[1], m[2], m[3]}) {}
+      m_data{column_type(m[0]), column_type(m[1]), column_type(m[2]), column_type(m[3])} {}
 
     template<typename U>
     explicit constexpr Matrix(const Matrix<U, 3, 3>& m) noexcept :
diff --git a/include/xme/math/matrix.hpp b/include/xme/math/matrix.hpp
index f6f33cb..24605ee 100644
--- a/include/xme/math/matrix.hpp
+++ b/include/xme/math/matrix.hpp
@@ -62,7 +62,7 @@ public:
     }
 
     template<typename... Args, std::size_t Size>
-    constexpr Matrix(const Vector<Args, Size>&... args) noexcept : m_data({args...}) {
+    constexpr Matrix(const Vector<Args, Size>&... args) noexcept : m_data{column_type(args)...} {
         static_assert(sizeof...(Args) == Cols);
     }
 
-- 
2.43.0


From 5f4c22d63b732c2363fd7a84d6df1c3352855eca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:00 +0000
Subject: [PATCH 37/54] fix: multiply matrices and vectors of different element
 types

---
 include/xme/math/matrices/matrix4x4.hpp | 11 ++++++-----
 include/xme/math/matrix.hpp             |  5 +++--
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/include/xme/math/matrices/matrix4x4.hpp b/include/xme/math/matrices/matrix4x4.hpp
index 15a9ab1..4ce8c6c 100644
--- a/include/xme/math/matrices/matrix4x4.hpp
+++ b/include/xme/math/matrices/matrix4x4.hpp
@@ -89,11 +89,12 @@ public:
     template<typename U>
     [[nodiscard]]
     constexpr auto operator*(const Vector<U, 4>& v) const noexcept -> column_type {
+        const row_type column(v);
         return {
-            math::dot(row(0), v),
-            math::dot(row(1), v),
-            math::dot(row(2), v),
-            math::dot(row(3), v),
+            math::dot(row(0), column),
+            math::dot(row(1), column),
+            math::dot(row(2), column),
+            math::dot(row(3), column),
         };
     }
 
@@ -104,7 +105,7 @@ public:
         for(std::size_t rowIndex = 0; rowIndex < 4; ++rowIndex) {
             const row_type row = this->row(rowIndex);
             for(std::size_t columnIndex = 0; columnIndex < Rows2; ++columnIndex)
-                result[columnIndex][rowIndex] = dot(row, m[columnIndex]);
+                result[columnIndex][rowIndex] = dot(row, row_type(m[columnIndex]));
         }
         return result;
     }
diff --git a/include/xme/math/matrix.hpp b/include/xme/math/matrix.hpp
index 24605ee..12f6c4e 100644
--- a/include/xme/math/matrix.hpp
+++ b/include/xme/math/matrix.hpp
@@ -88,9 +88,10 @@ public:
     template<typename U>
     [[nodiscard]]
     constexpr auto operator*(const Vector<U, Cols>& v) const noexcept -> column_type {
+        const row_type column(v);
         column_type result;
         for(std::size_t i = 0; i < Rows; ++i)
-            result[i] = math::dot(this->row(i), v);
+            result[i] = math::dot(this->row(i), column);
         return result;
     }
     template<typename U, std::size_t Rows2>
@@ -101,7 +102,7 @@ public:
         for(std::size_t rowIndex = 0; rowIndex < Rows; ++rowIndex) {
             const row_type row = this->row(rowIndex);
             for(std::size_t columnIndex = 0; columnIndex < Rows2; ++columnIndex)
-                result[columnIndex][rowIndex] = math::dot(row, m[columnIndex]);
+                result[columnIndex][rowIndex] = math::dot(row, row_type(m[columnIndex]));
         }
         return result;
     }
-- 
2.43.0


From 2f6de69b629017367062cbe0ea93513980211746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:03 +0000
Subject: [PATCH 38/54] fix: perspective by field of view in a left handed clip
 space

---
 include/xme/math/matrices/perspective.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/xme/math/matrices/perspective.hpp b/include/xme/math/matrices/perspective.hpp
index deff006..41dbec4 100644
--- a/include/xme/math/matrices/perspective.hpp
+++ b/include/xme/math/matrices/perspective.hpp
@@ -43,7 +43,7 @@ template<CFloatingPoint T>
 XME_INLINE constexpr auto perspective(T fov, T aspect_ratio, T near,
                                       T far) noexcept -> Matrix<T, 4, 4> {
 #if defined(XME_MATH_CLIP_LH)
-    return perspective_rh(fov, aspect_ratio, far, near);
+    return perspective_lh(fov, aspect_ratio, near, far);
 #else
     return perspective_rh(fov, aspect_ratio, near, far);
 #endif
-- 
2.43.0


From fe1245565e9706ef4d6a95f7c25e0af934137f94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:17 +0000
Subject: [PATCH 39/54] fix: an exception thrown by the constructor of an
 AlignedData's object reaches the caller

---
 include/xme/container/aligned_data.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/xme/container/aligned_data.hpp b/include/xme/container/aligned_data.hpp
index 1c4d2eb..0f8276c 100644
--- a/include/xme/container/aligned_data.hpp
+++ b/include/xme/container/aligned_data.hpp
@@ -25,7 +25,7 @@ public:
     constexpr AlignedData() noexcept = default;
 
     template<typename... Args>
-    constexpr AlignedData(Args&&... args) noexcept {
+    constexpr AlignedData(Args&&... args) noexcept(std::is_nothrow_constructible_v<T, Args...>) {
         std::construct_at(data(), std::forward<Args>(args)...);
     }
 
-- 
2.43.0


From 03d0b0acbd27b0ec4413094f3477380140dc70d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:20 +0000
Subject: [PATCH 40/54] fix: tuples without common element types have no common
 type

---
 include/xme/container/tuple.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/xme/container/tuple.hpp b/include/xme/container/tuple.hpp
index 36a4707..18b5383 100644
--- a/include/xme/container/tuple.hpp
+++ b/include/xme/container/tuple.hpp
@@ -161,12 +161,15 @@ struct tuple_element<I, xme::Tuple<T...>> {
 };
 
 template<typename... T, typename... U, template<class> class TQual, template<class> class UQual>
+    requires(sizeof...(T) == sizeof...(U))
+            && requires { typename xme::Tuple<std::common_reference_t<TQual<T>, UQual<U>>...>; }
 struct basic_common_reference<xme::Tuple<T...>, xme::Tuple<U...>, TQual, UQual> {
     using type = xme::Tuple<std::common_reference_t<TQual<T>, UQual<U>>...>;
 };
 
 template<typename... T, typename... U>
     requires(sizeof...(T) == sizeof...(U))
+            && requires { typename xme::Tuple<std::common_type_t<T, U>...>; }
 struct common_type<xme::Tuple<T...>, xme::Tuple<U...>> {
     using type = xme::Tuple<std::common_type_t<T, U>...>;
 };
-- 
2.43.0


From f5a45bcb9bd80ba91e3cb05dff87f72b49f9e6be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:29 +0000
Subject: [PATCH 41/54] fix: subtract const iterators of different kinds
 without ambiguity

---
 include/xme/core/iterators/const_iterator.hpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/include/xme/core/iterators/const_iterator.hpp b/include/xme/core/iterators/const_iterator.hpp
index 26b39d6..3a1b2ca 100644
--- a/include/xme/core/iterators/const_iterator.hpp
+++ b/include/xme/core/iterators/const_iterator.hpp
@@ -7,6 +7,17 @@
 #include <xme/core/concepts/different_from.hpp>
 
 namespace xme {
+template<std::input_iterator It>
+class ConstIterator;
+
+namespace detail {
+    template<typename T>
+    inline constexpr bool is_const_iterator_v = false;
+
+    template<typename It>
+    inline constexpr bool is_const_iterator_v<ConstIterator<It>> = true;
+}  // namespace detail
+
 template<std::input_iterator It>
 class ConstIterator {
 private:
@@ -110,8 +121,8 @@ public:
         return m_current - sent;
     }
 
-    template<CDifferentFrom<ConstIterator> Sent>
-        requires std::sized_sentinel_for<Sent, It>
+    template<typename Sent>
+        requires(!detail::is_const_iterator_v<Sent>) && std::sized_sentinel_for<Sent, It>
     friend constexpr auto operator-(const Sent& sent,
                                     const ConstIterator& it) noexcept -> difference_type {
         return sent - it.m_current;
-- 
2.43.0


From 8cc1ea765bcdfd523fd69f8a8be823ae8ef7fb3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:11 +0000
Subject: [PATCH 42/54] fix: elements of tuples and pairs with explicit object
 parameters

An element of a tuple was looked up in all of its bases, which is ambiguous,
and an element that is an rvalue reference was not forwarded as one.
---
 include/xme/container/pair.hpp   | 10 ++++++++--
 private/container/tuple_base.hpp |  5 ++++-
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/include/xme/container/pair.hpp b/include/xme/container/pair.hpp
index c040be7..50bcf09 100644
--- a/include/xme/container/pair.hpp
+++ b/include/xme/container/pair.hpp
@@ -22,14 +22,20 @@ public:
     [[nodiscard]]
     constexpr auto operator[](this Self&& self,
                               std::integral_constant<std::size_t, 0>) noexcept -> auto&& {
-        return xme::forward_like<Self>(self).first;
+        if constexpr(std::is_lvalue_reference_v<Self> || std::is_const_v<Self>)
+            return self.first;
+        else
+            return static_cast<T&&>(self.first);
     }
 
     template<typename Self>
     [[nodiscard]]
     constexpr auto operator[](this Self&& self,
                               std::integral_constant<std::size_t, 1>) noexcept -> auto&& {
-        return xme::forward_like<Self>(self).second;
+        if constexpr(std::is_lvalue_reference_v<Self> || std::is_const_v<Self>)
+            return self.second;
+        else
+            return static_cast<U&&>(self.second);
     }
 #else
     [[nodiscard]]
diff --git a/private/container/tuple_base.hpp b/private/container/tuple_base.hpp
index 317a2be..1fc2cc0 100644
--- a/private/container/tuple_base.hpp
+++ b/private/container/tuple_base.hpp
@@ -21,7 +21,10 @@ struct TupleElement {
     [[nodiscard]]
     constexpr auto operator[](this Self&& self,
                               std::integral_constant<std::size_t, I>) noexcept -> auto&& {
-        return xme::forward_like<Self>(self).value;
+        if constexpr(std::is_lvalue_reference_v<Self> || std::is_const_v<Self>)
+            return self.TupleElement<I, T>::value;
+        else
+            return static_cast<T&&>(self.TupleElement<I, T>::value);
     }
 #else
     [[nodiscard]]
-- 
2.43.0


From 0f92666793b17999f429789fac68e0468d4a49cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:11 +0000
Subject: [PATCH 43/54] fix: bindFront and bindBack compile, and bindBack binds
 the last arguments

---
 include/xme/core/functional/bind.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/xme/core/functional/bind.hpp b/include/xme/core/functional/bind.hpp
index aef48a6..bb94ad9 100644
--- a/include/xme/core/functional/bind.hpp
+++ b/include/xme/core/functional/bind.hpp
@@ -149,7 +149,7 @@ constexpr auto bindFront(Args&&... args) {
 
     return [... bound_args(std::forward<Args>(args))]<typename Self, typename... T>(
              this Self&&, T&&... call_args) -> decltype(auto) {
-        return std::invoke(f, xme::forwardLike<Self>(bound_args)..., std::forward<T>(call_args)...);
+        return std::invoke(f, xme::forward_like<Self>(bound_args)..., std::forward<T>(call_args)...);
     };
 }
 #endif
@@ -173,7 +173,7 @@ constexpr auto bindBack(Args&&... args) {
 
     return [... bound_args(std::forward<Args>(args))]<typename Self, typename... T>(
              this Self&&, T&&... call_args) -> decltype(auto) {
-        return std::invoke(f, xme::forwardLike<Self>(bound_args)..., std::forward<T>(call_args)...);
+        return std::invoke(f, std::forward<T>(call_args)..., xme::forward_like<Self>(bound_args)...);
     };
 }
 #endif
-- 
2.43.0


From 9e7ea36eedbfb137137e9759427b74605bf4d240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:29 +0000
Subject: [PATCH 44/54] fix: destroy the elements of a dynamic SPSCQueue
 whatever their address operator

---
 private/container/spsc_queue_base.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/private/container/spsc_queue_base.hpp b/private/container/spsc_queue_base.hpp
index cbf7541..59ef132 100644
--- a/private/container/spsc_queue_base.hpp
+++ b/private/container/spsc_queue_base.hpp
@@ -160,7 +160,7 @@ public:
 
     constexpr ~DynamicSPSCQueue() noexcept {
         while(m_read_index != m_write_index) {
-            std::ranges::destroy_at(&m_data[m_read_index]);
+            std::ranges::destroy_at(m_data + m_read_index);
             m_read_index = this->next_index(m_read_index, m_capacity);
         }
         m_allocator.deallocate(m_data, m_capacity);
-- 
2.43.0


From d922bb05234e21d69ed1bebf0912c8c6cda6ad47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:18 +0000
Subject: [PATCH 45/54] fix: reverse bytes with SSSE3 before static objects are
 initialised

---
 include/xme/core/algorithm/reverse.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/xme/core/algorithm/reverse.hpp b/include/xme/core/algorithm/reverse.hpp
index 71e65d4..72eac00 100644
--- a/include/xme/core/algorithm/reverse.hpp
+++ b/include/xme/core/algorithm/reverse.hpp
@@ -13,7 +13,6 @@
 namespace xme {
 namespace detail {
 #define SEQ 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15
-inline const __m128i shuffle = _mm_set_epi8(SEQ);
 
 //! Only these elements can be reversed as raw bytes, the shuffle needs at least SSSE3.
 template<typename T>
@@ -37,10 +36,11 @@ XME_INLINE void reverse_simd(void* lhs, void* rhs) {
     else
 #elif XME_SIMD_USE_SSSE3
     if constexpr(size == 1) {
-        __m128i lower = _mm_loadu_si128((__m128i*)lhs);
-        __m128i upper = _mm_loadu_si128((__m128i*)((std::int8_t*)rhs - 16));
-        lower         = _mm_shuffle_epi8(lower, shuffle);
-        upper         = _mm_shuffle_epi8(upper, shuffle);
+        const __m128i shuf = _mm_set_epi8(SEQ);
+        __m128i lower      = _mm_loadu_si128((__m128i*)lhs);
+        __m128i upper      = _mm_loadu_si128((__m128i*)((std::int8_t*)rhs - 16));
+        lower              = _mm_shuffle_epi8(lower, shuf);
+        upper              = _mm_shuffle_epi8(upper, shuf);
         _mm_storeu_si128((__m128i_u*)(std::int8_t*)lhs, upper);
         _mm_storeu_si128((__m128i_u*)((std::int8_t*)rhs - 16), lower);
     }
-- 
2.43.0


From f6bd981bc0bb941c884964785e87d2b3af57eed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:18 +0000
Subject: [PATCH 46/54] fix: leave no macro SEQ behind

---
 include/xme/core/algorithm/reverse.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/xme/core/algorithm/reverse.hpp b/include/xme/core/algorithm/reverse.hpp
index 72eac00..e7ef94e 100644
--- a/include/xme/core/algorithm/reverse.hpp
+++ b/include/xme/core/algorithm/reverse.hpp
@@ -48,6 +48,7 @@ XME_INLINE void reverse_simd(void* lhs, void* rhs) {
 #endif
         static_assert(size < 0);
 }
+#undef SEQ
 }  // namespace detail
 
 template<::ranges::input_iterator I, ::ranges::sentinel_for<I> S>
-- 
2.43.0


From 5d2de7956d05b9590067e18c87f27d740586ddbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:19 +0000
Subject: [PATCH 47/54] fix: find and reverse in constant expressions with SIMD
 enabled

---
 include/xme/core/algorithm/find.hpp    | 5 ++++-
 include/xme/core/algorithm/reverse.hpp | 3 ++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/xme/core/algorithm/find.hpp b/include/xme/core/algorithm/find.hpp
index df1cf50..1628ef3 100644
--- a/include/xme/core/algorithm/find.hpp
+++ b/include/xme/core/algorithm/find.hpp
@@ -2,6 +2,7 @@
 #include <bit>
 #include <concepts>
 #include <execution>
+#include <type_traits>
 #include <x86intrin.h>
 #include <xme/setup.hpp>
 #include <xme/hal/simd_detection.hpp>
@@ -89,7 +90,9 @@ XME_INLINE constexpr auto find(I i, S s, const ::ranges::iter_value_t<I>& value)
                  && std::derived_from<ExecutionPolicy, std::execution::unsequenced_policy>) {
         constexpr auto readable_bytes = (XME_SIMD_USE_AVX2 ? 32 : 16) / sizeof(T);
         auto compare                  = i;
-        while(s - compare >= static_cast<std::ptrdiff_t>(readable_bytes)) {
+        // Intrinsics aren't constant expressions
+        while(!std::is_constant_evaluated()
+              && s - compare >= static_cast<std::ptrdiff_t>(readable_bytes)) {
             const auto index = detail::find_simd<sizeof(T)>(std::to_address(compare), &value);
             if(index != readable_bytes)
                 return i + ((compare + index) - i);
diff --git a/include/xme/core/algorithm/reverse.hpp b/include/xme/core/algorithm/reverse.hpp
index e7ef94e..630ef6e 100644
--- a/include/xme/core/algorithm/reverse.hpp
+++ b/include/xme/core/algorithm/reverse.hpp
@@ -61,7 +61,8 @@ XME_INLINE constexpr auto reverse(I i, S s) noexcept {
         constexpr auto readable_bytes = (XME_SIMD_USE_AVX2 ? 32 : 16) / sizeof(T);
         auto count                    = ((s - i) / 2) / readable_bytes;
         const auto end                = s;
-        while(count--) {
+        // Intrinsics aren't constant expressions
+        while(!std::is_constant_evaluated() && count--) {
             detail::reverse_simd<sizeof(T)>(std::to_address(i), std::to_address(s));
             i += readable_bytes;
             s -= readable_bytes;
-- 
2.43.0


From 792f0a2cf96ba23587672b414bbafcff812c65bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:49 +0000
Subject: [PATCH 48/54] fix: subscript vectors and quaternions in constant
 expressions

---
 include/xme/math/quaternion.hpp      | 14 ++++++++++++--
 include/xme/math/vectors/vector2.hpp | 10 ++++++++--
 include/xme/math/vectors/vector3.hpp | 12 ++++++++++--
 include/xme/math/vectors/vector4.hpp | 14 ++++++++++++--
 4 files changed, 42 insertions(+), 8 deletions(-)

diff --git a/include/xme/math/quaternion.hpp b/include/xme/math/quaternion.hpp
index d736cbb..4eb5515 100644
--- a/include/xme/math/quaternion.hpp
+++ b/include/xme/math/quaternion.hpp
@@ -36,12 +36,22 @@ public:
 
     [[nodiscard]]
     constexpr auto operator[](std::size_t i) noexcept -> T& {
-        return (&w)[i];
+        switch(i) {
+        case 0:  return w;
+        case 1:  return x;
+        case 2:  return y;
+        default: return z;
+        }
     }
 
     [[nodiscard]]
     constexpr auto operator[](std::size_t i) const noexcept -> const T& {
-        return (&w)[i];
+        switch(i) {
+        case 0:  return w;
+        case 1:  return x;
+        case 2:  return y;
+        default: return z;
+        }
     }
 
     [[nodiscard]]
diff --git a/include/xme/math/vectors/vector2.hpp b/include/xme/math/vectors/vector2.hpp
index e6003b5..18e2b16 100644
--- a/include/xme/math/vectors/vector2.hpp
+++ b/include/xme/math/vectors/vector2.hpp
@@ -76,13 +76,19 @@ struct Vector<T, 2> {
     [[nodiscard]]
     constexpr auto operator[](std::size_t i) noexcept -> T& {
         assert(i < 2 && "Index out of bound");
-        return (&x)[i];
+        switch(i) {
+        case 0:  return x;
+        default: return y;
+        }
     }
 
     [[nodiscard]]
     constexpr auto operator[](std::size_t i) const noexcept -> const T& {
         assert(i < 2 && "Index out of bound");
-        return (&x)[i];
+        switch(i) {
+        case 0:  return x;
+        default: return y;
+        }
     }
 
     [[nodiscard]]
diff --git a/include/xme/math/vectors/vector3.hpp b/include/xme/math/vectors/vector3.hpp
index 3bb85fe..b2c55ad 100644
--- a/include/xme/math/vectors/vector3.hpp
+++ b/include/xme/math/vectors/vector3.hpp
@@ -89,13 +89,21 @@ struct Vector<T, 3> {
     [[nodiscard]]
     constexpr auto operator[](std::size_t i) noexcept -> T& {
         assert(i < 3 && "Index out of bound");
-        return (&x)[i];
+        switch(i) {
+        case 0:  return x;
+        case 1:  return y;
+        default: return z;
+        }
     }
 
     [[nodiscard]]
     constexpr auto operator[](std::size_t i) const noexcept -> const T& {
         assert(i < 3 && "Index out of bound");
-        return (&x)[i];
+        switch(i) {
+        case 0:  return x;
+        case 1:  return y;
+        default: return z;
+        }
     }
 
     [[nodiscard]]
diff --git a/include/xme/math/vectors/vector4.hpp b/include/xme/math/vectors/vector4.hpp
index 989004c..d73ab02 100644
--- a/include/xme/math/vectors/vector4.hpp
+++ b/include/xme/math/vectors/vector4.hpp
@@ -106,13 +106,23 @@ struct Vector<T, 4> {
     [[nodiscard]]
     constexpr auto operator[](std::size_t i) noexcept -> T& {
         assert(i < 4 && "Index out of bound");
-        return (&x)[i];
+        switch(i) {
+        case 0:  return x;
+        case 1:  return y;
+        case 2:  return z;
+        default: return w;
+        }
     }
 
     [[nodiscard]]
     constexpr auto operator[](std::size_t i) const noexcept -> const T& {
         assert(i < 4 && "Index out of bound");
-        return (&x)[i];
+        switch(i) {
+        case 0:  return x;
+        case 1:  return y;
+        case 2:  return z;
+        default: return w;
+        }
     }
 
     [[nodiscard]]
-- 
2.43.0


From b58871a46c74e83b0baa4cfdb5729deaac948bdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:53 +0000
Subject: [PATCH 49/54] fix: back() of ranges whose sentinel is not an iterator

---
 include/xme/container/icontainer.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/xme/container/icontainer.hpp b/include/xme/container/icontainer.hpp
index 29d1ad0..24060c8 100644
--- a/include/xme/container/icontainer.hpp
+++ b/include/xme/container/icontainer.hpp
@@ -93,14 +93,14 @@ public:
     constexpr auto back() noexcept -> decltype(auto)
         requires(::ranges::bidirectional_range<D>)
     {
-        return *::ranges::prev(::ranges::end(derived()));
+        return *::ranges::prev(::ranges::next(::ranges::begin(derived()), ::ranges::end(derived())));
     }
 
     [[nodiscard]]
     constexpr auto back() const noexcept -> decltype(auto)
         requires(::ranges::bidirectional_range<const D>)
     {
-        return *::ranges::prev(::ranges::end(derived()));
+        return *::ranges::prev(::ranges::next(::ranges::begin(derived()), ::ranges::end(derived())));
     }
 };
 }  // namespace xme
\ No newline at end of file
-- 
2.43.0


From ae5fbe1e28739c58e203f2981d37f1b2b1f87a4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:53 +0000
Subject: [PATCH 50/54] fix: the value type of Array's constant iterator is not
 constant

---
 include/xme/container/array.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/xme/container/array.hpp b/include/xme/container/array.hpp
index 6285c6c..5492af1 100644
--- a/include/xme/container/array.hpp
+++ b/include/xme/container/array.hpp
@@ -383,7 +383,7 @@ template<bool Const>
 class Array<T, Alloc>::Iterator {
 public:
     using difference_type   = std::ptrdiff_t;
-    using value_type        = std::conditional_t<Const, const T, T>;
+    using value_type        = T;
     using reference         = std::conditional_t<Const, const T&, T&>;
     using pointer           = std::conditional_t<Const, const T*, T*>;
     using iterator_category = std::random_access_iterator_tag;
-- 
2.43.0


From 8751aeaf90bb4770769d0fb84726fee9523149f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:49 +0000
Subject: [PATCH 51/54] fix: build heaps from ranges without a size

---
 include/xme/container/heap.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/xme/container/heap.hpp b/include/xme/container/heap.hpp
index 96ae60d..5bb9321 100644
--- a/include/xme/container/heap.hpp
+++ b/include/xme/container/heap.hpp
@@ -39,7 +39,8 @@ public:
         requires(std::convertible_to<::ranges::range_reference_t<R>, T>)
                 && (!std::is_same_v<Heap, std::remove_cvref_t<R>>)
     constexpr Heap(R&& range) {
-        m_array.reserve(::ranges::size(range));
+        if constexpr(::ranges::sized_range<R>)
+            m_array.reserve(::ranges::size(range));
         auto first = ::ranges::begin(range);
         auto last  = ::ranges::end(range);
         for(; first != last; ++first) {
-- 
2.43.0


From b867d3ed9f32fe4ab25759c49d4c155a81ec6b4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:49 +0000
Subject: [PATCH 52/54] fix: delegates that return nothing of functors that
 return a value

---
 include/xme/core/functional/delegate.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/xme/core/functional/delegate.hpp b/include/xme/core/functional/delegate.hpp
index 634bf24..5a3482e 100644
--- a/include/xme/core/functional/delegate.hpp
+++ b/include/xme/core/functional/delegate.hpp
@@ -61,7 +61,10 @@ public:
           && std::is_trivially_copyable_v<Functor>;
 
         static constexpr auto invoke(const AnyData& functor, Args... args) -> R {
-            return std::invoke(*handle(functor), std::forward<Args>(args)...);
+            if constexpr(std::is_void_v<R>)
+                std::invoke(*handle(functor), std::forward<Args>(args)...);
+            else
+                return std::invoke(*handle(functor), std::forward<Args>(args)...);
         }
 
         static constexpr auto handle(const AnyData& functor) -> Functor* {
-- 
2.43.0


From 29307fe2e12b3eb1447176de72421efdcc477001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:08 +0000
Subject: [PATCH 53/54] fix: delegates built small functors from a list of one
 functor

The storage in the delegate was initialized with braces, so functors with a
constructor from a list of themselves weren't copied.
---
 include/xme/core/functional/delegate.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/xme/core/functional/delegate.hpp b/include/xme/core/functional/delegate.hpp
index 5a3482e..717354c 100644
--- a/include/xme/core/functional/delegate.hpp
+++ b/include/xme/core/functional/delegate.hpp
@@ -78,7 +78,7 @@ public:
         template<bool local = is_local_storage, typename Fn>
         static constexpr void create_functor(AnyData& f, Fn&& fn) {
             if constexpr(local) {
-                ::new(f.access()) Functor{std::forward<Fn>(fn)};
+                ::new(f.access()) Functor(std::forward<Fn>(fn));
             }
             else {
                 f.template access<Functor*>() = new Functor(std::forward<Fn>(fn));
-- 
2.43.0


From 8e112ff28b90f24acf0842641fbb95426db983a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:07 +0000
Subject: [PATCH 54/54] fix: moving a linked list kept an allocator its nodes
 are not from

---
 include/xme/container/linked_list.hpp | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/include/xme/container/linked_list.hpp b/include/xme/container/linked_list.hpp
index a443b28..4c329ed 100644
--- a/include/xme/container/linked_list.hpp
+++ b/include/xme/container/linked_list.hpp
@@ -26,6 +26,7 @@ public:
 
     using allocator_type =
       typename std::allocator_traits<Alloc>::template rebind_alloc<detail::LinkedListNode<T>>;
+    using alloc_traits = std::allocator_traits<allocator_type>;
 
     using value_type      = T;
     using pointer         = T*;
@@ -79,7 +80,8 @@ public:
     }
 
     //! Constructs a LinkedList by transfering elements from other
-    explicit constexpr LinkedList(LinkedList&& other) noexcept {
+    explicit constexpr LinkedList(LinkedList&& other) noexcept :
+      m_allocator(std::move(other.m_allocator)) {
         m_head.next       = other.m_head.next;
         other.m_head.next = nullptr;
     }
@@ -93,8 +95,22 @@ public:
     }
 
     //! Clears the current elements and transfer elements from other
-    constexpr auto operator=(LinkedList&& other) noexcept -> LinkedList& {
+    constexpr auto operator=(LinkedList&& other) noexcept(
+      alloc_traits::propagate_on_container_move_assignment::value
+      || alloc_traits::is_always_equal::value) -> LinkedList& {
         clear();
+        if constexpr(alloc_traits::propagate_on_container_move_assignment::value)
+            m_allocator = std::move(other.m_allocator);
+        else if constexpr(!alloc_traits::is_always_equal::value) {
+            // The nodes can only be freed by the allocator of other
+            if(m_allocator != other.m_allocator) {
+                insert_after(before_begin(),
+                             std::make_move_iterator(other.begin()),
+                             std::make_move_iterator(other.end()));
+                other.clear();
+                return *this;
+            }
+        }
         ::ranges::swap(m_head.next, other.m_head.next);
         return *this;
     }
-- 
2.43.0

