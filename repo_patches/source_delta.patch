From ba2a84d23f9929ead8e12e15fc097130a1fd36ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:44:22 +0000
Subject: [PATCH 01/45] fix: do not relocate elements onto themselves for empty
 ranges in FixedVector/FixedDeque

erase(it, it) and insert(pos, first, first) in the middle of a container with a
non-trivial value_type move-constructed every following element from itself and
then destroyed it.
---
 include/fixed_containers/fixed_deque.hpp  | 12 ++++++++++++
 include/fixed_containers/fixed_vector.hpp | 12 ++++++++++++
 2 files changed, 24 insertions(+)

diff --git a/include/fixed_containers/fixed_deque.hpp b/include/fixed_containers/fixed_deque.hpp
index cc1d09f..1a9b036 100644
--- a/include/fixed_containers/fixed_deque.hpp
+++ b/include/fixed_containers/fixed_deque.hpp
@@ -408,6 +408,12 @@ public:
             Checking::invalid_argument("iterators exceed container range", loc);
         }
 
+        if (first == last)
+        {
+            // Nothing to remove, and elements must not be relocated onto themselves
+            return const_to_mutable_it(first);
+        }
+
         const auto entry_count_to_move = std::distance(last, cend());
         const auto entry_count_to_remove = std::distance(first, last);
 
@@ -583,6 +589,12 @@ private:
     constexpr iterator advance_all_after_iterator_by_n(const const_iterator pos,
                                                        const std::size_t n)
     {
+        if (n == 0)
+        {
+            // Elements must not be relocated onto themselves
+            return const_to_mutable_it(pos);
+        }
+
         const std::ptrdiff_t value_count_to_move = std::distance(pos, cend());
         increment_size(n);  // Increment now so iterators are all within valid range
 
diff --git a/include/fixed_containers/fixed_vector.hpp b/include/fixed_containers/fixed_vector.hpp
index ef4ba81..a106ab6 100644
--- a/include/fixed_containers/fixed_vector.hpp
+++ b/include/fixed_containers/fixed_vector.hpp
@@ -391,6 +391,12 @@ public:
             Checking::invalid_argument("iterators exceed container range", loc);
         }
 
+        if (first == last)
+        {
+            // Nothing to remove, and elements must not be relocated onto themselves
+            return const_to_mutable_it(first);
+        }
+
         const auto entry_count_to_move = std::distance(last, cend());
         const auto entry_count_to_remove = std::distance(first, last);
 
@@ -593,6 +599,12 @@ private:
     constexpr iterator advance_all_after_iterator_by_n(const const_iterator pos,
                                                        const std::size_t n)
     {
+        if (n == 0)
+        {
+            // Elements must not be relocated onto themselves
+            return const_to_mutable_it(pos);
+        }
+
         const std::ptrdiff_t value_count_to_move = std::distance(pos, cend());
         increment_size(n);  // Increment now so iterators are all within valid range
 
-- 
2.43.0


From 7733d91b689b3669d09994305ca356e4c9bccd9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:44:22 +0000
Subject: [PATCH 02/45] fix: support arguments that alias an element in
 FixedVector/FixedDeque insert and emplace

insert(pos, v[i]) and emplace(pos, v[i]) shifted the elements before reading the
argument, so the wrong value was inserted when i >= pos.
---
 include/fixed_containers/fixed_deque.hpp  | 8 ++++++--
 include/fixed_containers/fixed_vector.hpp | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/include/fixed_containers/fixed_deque.hpp b/include/fixed_containers/fixed_deque.hpp
index 1a9b036..c043834 100644
--- a/include/fixed_containers/fixed_deque.hpp
+++ b/include/fixed_containers/fixed_deque.hpp
@@ -324,8 +324,10 @@ public:
         const std_transition::source_location& loc = std_transition::source_location::current())
     {
         check_not_full(loc);
+        // `value` may be an element of this container, so copy it before moving elements around
+        value_type entry(value);
         auto entry_it = advance_all_after_iterator_by_n(pos, 1);
-        memory::construct_at_address_of(*entry_it, value);
+        memory::construct_at_address_of(*entry_it, std::move(entry));
         return entry_it;
     }
     constexpr iterator insert(
@@ -361,8 +363,10 @@ public:
     constexpr iterator emplace(const_iterator pos, Args&&... args)
     {
         check_not_full(std_transition::source_location::current());
+        // `args` may refer to elements of this container, so use them before moving elements around
+        value_type entry(std::forward<Args>(args)...);
         auto entry_it = advance_all_after_iterator_by_n(pos, 1);
-        memory::construct_at_address_of(*entry_it, std::forward<Args>(args)...);
+        memory::construct_at_address_of(*entry_it, std::move(entry));
         return entry_it;
     }
 
diff --git a/include/fixed_containers/fixed_vector.hpp b/include/fixed_containers/fixed_vector.hpp
index a106ab6..4b3119c 100644
--- a/include/fixed_containers/fixed_vector.hpp
+++ b/include/fixed_containers/fixed_vector.hpp
@@ -294,8 +294,10 @@ public:
         const std_transition::source_location& loc = std_transition::source_location::current())
     {
         check_not_full(loc);
+        // `value` may be an element of this container, so copy it before moving elements around
+        value_type entry(value);
         auto entry_it = advance_all_after_iterator_by_n(pos, 1);
-        memory::construct_at_address_of(*entry_it, value);
+        memory::construct_at_address_of(*entry_it, std::move(entry));
         return entry_it;
     }
     constexpr iterator insert(
@@ -335,8 +337,10 @@ public:
     constexpr iterator emplace(const_iterator pos, Args&&... args)
     {
         check_not_full(std_transition::source_location::current());
+        // `args` may refer to elements of this container, so use them before moving elements around
+        value_type entry(std::forward<Args>(args)...);
         auto entry_it = advance_all_after_iterator_by_n(pos, 1);
-        memory::construct_at_address_of(*entry_it, std::forward<Args>(args)...);
+        memory::construct_at_address_of(*entry_it, std::move(entry));
         return entry_it;
     }
 
-- 
2.43.0


From 141c06afcd6e16408773a5aa76d871093e5e94fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:44:22 +0000
Subject: [PATCH 03/45] fix: signed integer overflow in
 decrement_index_with_wraparound

FixedDeque/FixedCircularDeque/FixedQueue with a capacity of 1 hit it once the
front has moved (e.g. push_front).
---
 include/fixed_containers/circular_indexing.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/fixed_containers/circular_indexing.hpp b/include/fixed_containers/circular_indexing.hpp
index 6ee5a23..ea74eeb 100644
--- a/include/fixed_containers/circular_indexing.hpp
+++ b/include/fixed_containers/circular_indexing.hpp
@@ -63,7 +63,10 @@ constexpr CyclesAndInteger decrement_index_with_wraparound(const IntegerRangeTyp
         int_math::safe_subtract(negative_cycles * range_size, n).template cast<std::size_t>();
 
     CyclesAndInteger out = increment_index_with_wraparound(range, index, positive_modulo);
-    out.cycles -= static_cast<std::int64_t>(negative_cycles);
+    // The intermediate cycle count can be outside the range of `std::int64_t` even if the final one is
+    // not, so do the arithmetic on unsigned numbers.
+    out.cycles = static_cast<std::int64_t>(static_cast<std::uint64_t>(out.cycles) -
+                                           static_cast<std::uint64_t>(negative_cycles));
     return out;
 }
 }  // namespace fixed_containers::circular_indexing
-- 
2.43.0


From aef81bea1cd43be0c855ee406b28907b4925e4af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:44:59 +0000
Subject: [PATCH 04/45] fix: reverse iterators converted to const referred to
 the next element

The conversion went through the constructor that pre-advances reverse iterators.
---
 include/fixed_containers/bidirectional_iterator.hpp | 2 +-
 include/fixed_containers/random_access_iterator.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/fixed_containers/bidirectional_iterator.hpp b/include/fixed_containers/bidirectional_iterator.hpp
index 180181d..f6dfed8 100644
--- a/include/fixed_containers/bidirectional_iterator.hpp
+++ b/include/fixed_containers/bidirectional_iterator.hpp
@@ -87,7 +87,7 @@ public:
     // Mutable iterator needs to be convertible to const iterator
     constexpr BidirectionalIterator(const Sibling& other) noexcept
         requires(CONSTNESS == IteratorConstness::CONSTANT_ITERATOR)
-      : BidirectionalIterator{other.reference_provider_}
+      : reference_provider_(other.reference_provider_)
     {
     }
 
diff --git a/include/fixed_containers/random_access_iterator.hpp b/include/fixed_containers/random_access_iterator.hpp
index 8adf210..4d72d3a 100644
--- a/include/fixed_containers/random_access_iterator.hpp
+++ b/include/fixed_containers/random_access_iterator.hpp
@@ -89,7 +89,7 @@ public:
     // Mutable iterator needs to be convertible to const iterator
     constexpr RandomAccessIterator(const Sibling& other) noexcept
         requires(CONSTNESS == IteratorConstness::CONSTANT_ITERATOR)
-      : RandomAccessIterator{other.reference_provider_}
+      : reference_provider_(other.reference_provider_)
     {
     }
 
-- 
2.43.0


From fb688aa4785fbef17aed9a6323e0f57402271e56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:44:59 +0000
Subject: [PATCH 05/45] fix: default-constructed reverse iterators of
 node-based containers dereferenced a null pointer

---
 include/fixed_containers/bidirectional_iterator.hpp | 2 +-
 include/fixed_containers/random_access_iterator.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/fixed_containers/bidirectional_iterator.hpp b/include/fixed_containers/bidirectional_iterator.hpp
index f6dfed8..b04753d 100644
--- a/include/fixed_containers/bidirectional_iterator.hpp
+++ b/include/fixed_containers/bidirectional_iterator.hpp
@@ -68,7 +68,7 @@ private:
 
 public:
     constexpr BidirectionalIterator() noexcept
-      : BidirectionalIterator{EntryProvider{}}
+      : reference_provider_{}
     {
     }
 
diff --git a/include/fixed_containers/random_access_iterator.hpp b/include/fixed_containers/random_access_iterator.hpp
index 4d72d3a..dbbabea 100644
--- a/include/fixed_containers/random_access_iterator.hpp
+++ b/include/fixed_containers/random_access_iterator.hpp
@@ -70,7 +70,7 @@ private:
 
 public:
     constexpr RandomAccessIterator() noexcept
-      : RandomAccessIterator{EntryProvider{}}
+      : reference_provider_{}
     {
     }
 
-- 
2.43.0


From dd5d20c00b1b1a3d2cc453506604995eda18af93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:45:06 +0000
Subject: [PATCH 06/45] fix: FixedDoublyLinkedList copy/move of types that
 overload operator&

FixedList/FixedUnorderedMap/FixedUnorderedSet could not be copied or moved for
such types; use addressof semantics like every other container.
---
 include/fixed_containers/fixed_doubly_linked_list.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/fixed_containers/fixed_doubly_linked_list.hpp b/include/fixed_containers/fixed_doubly_linked_list.hpp
index e72ff58..5cbe038 100644
--- a/include/fixed_containers/fixed_doubly_linked_list.hpp
+++ b/include/fixed_containers/fixed_doubly_linked_list.hpp
@@ -1,6 +1,7 @@
 #pragma once
 
 #include "fixed_containers/fixed_index_based_storage.hpp"
+#include "fixed_containers/memory.hpp"
 
 #include <array>
 #include <limits>
@@ -208,7 +209,7 @@ public:
         // `chain_`
         for (auto i = other.front_index(); i != Base::NULL_INDEX; i = other.next_of(i))
         {
-            std::construct_at(&this->at(i), other.at(i));
+            memory::construct_at_address_of(this->at(i), other.at(i));
         }
     }
 
@@ -224,7 +225,7 @@ public:
             other.IMPLEMENTATION_DETAIL_DO_NOT_USE_storage_);
         for (auto i = other.front_index(); i != Base::NULL_INDEX; i = other.next_of(i))
         {
-            std::construct_at(&this->at(i), std::move(other.at(i)));
+            memory::construct_at_address_of(this->at(i), std::move(other.at(i)));
         }
     }
 
-- 
2.43.0


From 9a3ad047af93eb8c386e8828f0ae134473537180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:46:41 +0000
Subject: [PATCH 07/45] fix: FixedList::insert of an empty range returns pos
 instead of end()

---
 include/fixed_containers/fixed_list.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/fixed_containers/fixed_list.hpp b/include/fixed_containers/fixed_list.hpp
index 7f93649..61f3da7 100644
--- a/include/fixed_containers/fixed_list.hpp
+++ b/include/fixed_containers/fixed_list.hpp
@@ -504,7 +504,8 @@ private:
             }
         }
 
-        return create_iterator(inserted_point);
+        // An empty range inserts nothing and yields `pos`
+        return create_iterator(inserted_point == NULL_INDEX ? insertion_point : inserted_point);
     }
 
     template <InputIterator InputIt>
@@ -537,7 +538,8 @@ private:
             Checking::length_error(MAXIMUM_SIZE + excess_element_count, loc);
         }
 
-        return create_iterator(inserted_point);
+        // An empty range inserts nothing and yields `pos`
+        return create_iterator(inserted_point == NULL_INDEX ? insertion_point : inserted_point);
     }
 
     constexpr iterator create_iterator(const std::size_t offset_from_start) noexcept
-- 
2.43.0


From 347f5ea5dd7f91817a2af80ee492d8a7ef2555fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:46:41 +0000
Subject: [PATCH 08/45] fix: FixedList::remove with a value that is an element
 of the list

---
 include/fixed_containers/fixed_list.hpp | 35 ++++++++++++++++++++++++-
 1 file changed, 34 insertions(+), 1 deletion(-)

diff --git a/include/fixed_containers/fixed_list.hpp b/include/fixed_containers/fixed_list.hpp
index 61f3da7..30d1277 100644
--- a/include/fixed_containers/fixed_list.hpp
+++ b/include/fixed_containers/fixed_list.hpp
@@ -14,6 +14,7 @@
 #include <cstddef>
 #include <initializer_list>
 #include <iterator>
+#include <memory>
 #include <type_traits>
 
 namespace fixed_containers
@@ -371,7 +372,39 @@ public:
     }
     constexpr size_type remove(const T& value)
     {
-        return remove_if([&value](const T& entry) { return entry == value; });
+        // `value` could be an element of this list, in which case that element is erased last, since
+        // it has to remain alive for as long as there are elements to compare to.
+        const std::size_t last_index = end_index();
+        std::size_t index_of_value = last_index;
+        size_type removed_counter = 0;
+
+        for (std::size_t i = front_index(); i != last_index;)
+        {
+            const T& entry = list().at(i);
+            if (!(entry == value))
+            {
+                i = list().next_of(i);
+                continue;
+            }
+
+            ++removed_counter;
+            if (std::addressof(entry) == std::addressof(value))
+            {
+                index_of_value = i;
+                i = list().next_of(i);
+            }
+            else
+            {
+                i = list().delete_at_and_return_next_index(i);
+            }
+        }
+
+        if (index_of_value != last_index)
+        {
+            list().delete_at_and_return_next_index(index_of_value);
+        }
+
+        return removed_counter;
     }
 
     constexpr iterator erase(const_iterator first,
-- 
2.43.0


From 63a1e02122b3b49d10694ef599e9a946f9746f6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:47:10 +0000
Subject: [PATCH 09/45] fix: FixedCircularDeque push/emplace/insert of a value
 that refers to the element being dropped

---
 .../fixed_containers/fixed_circular_deque.hpp | 55 +++++++++++++++++--
 1 file changed, 51 insertions(+), 4 deletions(-)

diff --git a/include/fixed_containers/fixed_circular_deque.hpp b/include/fixed_containers/fixed_circular_deque.hpp
index 1aaa04d..8c52c25 100644
--- a/include/fixed_containers/fixed_circular_deque.hpp
+++ b/include/fixed_containers/fixed_circular_deque.hpp
@@ -10,6 +10,7 @@
 #include <cstddef>
 #include <initializer_list>
 #include <iterator>
+#include <type_traits>
 #include <utility>
 
 namespace fixed_containers
@@ -97,7 +98,14 @@ public:
         const value_type& value,
         const std_transition::source_location& loc = std_transition::source_location::current())
     {
-        pop_front_if_full(loc);
+        if (is_full(deque()))
+        {
+            // `value` may be the very element that is about to be dropped
+            value_type entry(value);
+            deque().pop_front(loc);
+            deque().push_back(std::move(entry), loc);
+            return;
+        }
         deque().push_back(value, loc);
     }
     constexpr void push_back(
@@ -111,6 +119,16 @@ public:
     template <class... Args>
     constexpr reference emplace_back(Args&&... args)
     {
+        if constexpr (std::is_move_constructible_v<value_type>)
+        {
+            if (is_full(deque()))
+            {
+                // `args` may refer to the very element that is about to be dropped
+                value_type entry(std::forward<Args>(args)...);
+                deque().pop_front(std_transition::source_location::current());
+                return deque().emplace_back(std::move(entry));
+            }
+        }
         pop_front_if_full(std_transition::source_location::current());
         return deque().emplace_back(std::forward<Args>(args)...);
     }
@@ -125,7 +143,14 @@ public:
         const value_type& value,
         const std_transition::source_location& loc = std_transition::source_location::current())
     {
-        pop_back_if_full(loc);
+        if (is_full(deque()))
+        {
+            // `value` may be the very element that is about to be dropped
+            value_type entry(value);
+            deque().pop_back(loc);
+            deque().push_front(std::move(entry), loc);
+            return;
+        }
         deque().push_front(value, loc);
     }
     constexpr void push_front(
@@ -139,6 +164,16 @@ public:
     template <class... Args>
     constexpr reference emplace_front(Args&&... args)
     {
+        if constexpr (std::is_move_constructible_v<value_type>)
+        {
+            if (is_full(deque()))
+            {
+                // `args` may refer to the very element that is about to be dropped
+                value_type entry(std::forward<Args>(args)...);
+                deque().pop_back(std_transition::source_location::current());
+                return deque().emplace_front(std::move(entry));
+            }
+        }
         pop_back_if_full(std_transition::source_location::current());
         return deque().emplace_front(std::forward<Args>(args)...);
     }
@@ -154,7 +189,13 @@ public:
         const value_type& value,
         const std_transition::source_location& loc = std_transition::source_location::current())
     {
-        pop_front_if_full(loc);
+        if (is_full(deque()))
+        {
+            // `value` may be the very element that is about to be dropped
+            value_type entry(value);
+            deque().pop_front(loc);
+            return deque().insert(pos, std::move(entry), loc);
+        }
         return deque().insert(pos, value, loc);
     }
     constexpr iterator insert(
@@ -187,7 +228,13 @@ public:
     template <class... Args>
     constexpr iterator emplace(const_iterator pos, Args&&... args)
     {
-        pop_front_if_full(std_transition::source_location::current());
+        if (is_full(deque()))
+        {
+            // `args` may refer to the very element that is about to be dropped
+            value_type entry(std::forward<Args>(args)...);
+            deque().pop_front(std_transition::source_location::current());
+            return deque().insert(pos, std::move(entry), std_transition::source_location::current());
+        }
         return deque().emplace(pos, std::forward<Args>(args)...);
     }
 
-- 
2.43.0


From a653cdedb3197ddd5802a697163bcc98c083de69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:47:10 +0000
Subject: [PATCH 10/45] fix: FixedCircularDeque single-element insert/emplace
 at begin() of a full deque

---
 .../fixed_containers/fixed_circular_deque.hpp | 20 ++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/include/fixed_containers/fixed_circular_deque.hpp b/include/fixed_containers/fixed_circular_deque.hpp
index 8c52c25..db95b51 100644
--- a/include/fixed_containers/fixed_circular_deque.hpp
+++ b/include/fixed_containers/fixed_circular_deque.hpp
@@ -191,6 +191,11 @@ public:
     {
         if (is_full(deque()))
         {
+            if (pos == cbegin())
+            {
+                // `value` itself is the oldest entry, so it is the one to be dropped
+                return begin();
+            }
             // `value` may be the very element that is about to be dropped
             value_type entry(value);
             deque().pop_front(loc);
@@ -203,7 +208,15 @@ public:
         value_type&& value,
         const std_transition::source_location& loc = std_transition::source_location::current())
     {
-        pop_front_if_full(loc);
+        if (is_full(deque()))
+        {
+            if (pos == cbegin())
+            {
+                // `value` itself is the oldest entry, so it is the one to be dropped
+                return begin();
+            }
+            deque().pop_front(loc);
+        }
         return deque().insert(pos, std::move(value), loc);
     }
     template <InputIterator InputIt>
@@ -230,6 +243,11 @@ public:
     {
         if (is_full(deque()))
         {
+            if (pos == cbegin())
+            {
+                // The new entry itself is the oldest one, so it is the one to be dropped
+                return begin();
+            }
             // `args` may refer to the very element that is about to be dropped
             value_type entry(std::forward<Args>(args)...);
             deque().pop_front(std_transition::source_location::current());
-- 
2.43.0


From 4931bbe5a0ff7d395f129e2782107dd5fbe4fcac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:50 +0000
Subject: [PATCH 11/45] fix: FixedCircularDeque input iterator insert at
 begin() of a full deque

---
 include/fixed_containers/fixed_circular_deque.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/fixed_containers/fixed_circular_deque.hpp b/include/fixed_containers/fixed_circular_deque.hpp
index db95b51..f97d814 100644
--- a/include/fixed_containers/fixed_circular_deque.hpp
+++ b/include/fixed_containers/fixed_circular_deque.hpp
@@ -491,6 +491,12 @@ private:
             auto right2_it = end();
             for (; first != last; ++first)
             {
+                if (middle_it == right2_it)
+                {
+                    // No element was inserted (barrier at the start of a full deque), so there is
+                    // nothing to overwrite and all incoming elements are dropped.
+                    continue;
+                }
                 *left2_it = *first;
                 ++left2_it;
                 if (left2_it == right2_it)
-- 
2.43.0


From db27459dea12fde0ffa7bcb96aa915540629d55e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:11 +0000
Subject: [PATCH 12/45] fix: FixedString stream extraction of a word that ends
 the stream or fills the string

---
 include/fixed_containers/fixed_string.hpp | 39 ++++++++++-------------
 1 file changed, 16 insertions(+), 23 deletions(-)

diff --git a/include/fixed_containers/fixed_string.hpp b/include/fixed_containers/fixed_string.hpp
index 680b717..aef3f7f 100644
--- a/include/fixed_containers/fixed_string.hpp
+++ b/include/fixed_containers/fixed_string.hpp
@@ -8,6 +8,7 @@
 #include "fixed_containers/source_location.hpp"
 
 #include <array>
+#include <cctype>
 #include <cstddef>
 #include <cstdlib>
 #include <istream>
@@ -659,39 +660,31 @@ template <std::size_t MAXIMUM_LENGTH, typename CheckingType>
 std::istream& operator>>(std::istream& stream, FixedString<MAXIMUM_LENGTH, CheckingType>& str)
 {
     static constexpr std::size_t MAXIMUM_LENGTH_WITH_NULL_TERMINATOR = MAXIMUM_LENGTH + 1;
-    str.clear();
 
     // Skip leading whitespace (`std::istream >> std::string` behaves the same way)
-    stream >> std::ws;
-
-    char character{};
-    stream.get(character);
-
-    // If EOF/error, put the character back and return
-    if (stream.eof() || stream.fail())
+    const std::istream::sentry sentry{stream};
+    if (!sentry)
     {
-        return stream.putback(character);
+        return stream;
     }
 
-    for (; !std::isspace(character) && !is_full(str) && !stream.eof() && !stream.fail();
-         stream.get(character))
-    {
-        str.push_back(character);
-    }
+    str.clear();
 
-    if (stream.fail())
+    // The whitespace that ends the word remains in the stream, and reaching the end of the stream
+    // after at least one character is a success.
+    for (auto next = stream.peek(); stream.good() && std::isspace(next) == 0; next = stream.peek())
     {
-        stream.setstate(std::ios::failbit);
-        return stream;
+        if (preconditions::test(!is_full(str)))
+        {
+            CheckingType::length_error(MAXIMUM_LENGTH_WITH_NULL_TERMINATOR,
+                                       std_transition::source_location::current());
+        }
+        str.push_back(static_cast<char>(stream.get()));
     }
 
-    const bool string_is_full = is_full(str);
-    const bool stream_eof = stream.eof();
-    const bool has_exceeded_capacity = string_is_full && !stream_eof;
-    if (preconditions::test(!has_exceeded_capacity))
+    if (str.empty())
     {
-        CheckingType::length_error(MAXIMUM_LENGTH_WITH_NULL_TERMINATOR,
-                                   std_transition::source_location::current());
+        stream.setstate(std::ios::failbit);
     }
 
     return stream;
-- 
2.43.0


From 1436754dd65e3487dcfe110775df6cb90217b1a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:11 +0000
Subject: [PATCH 13/45] fix: FixedString::operator+=(char) did not compile

---
 include/fixed_containers/fixed_string.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/fixed_containers/fixed_string.hpp b/include/fixed_containers/fixed_string.hpp
index aef3f7f..bb9360b 100644
--- a/include/fixed_containers/fixed_string.hpp
+++ b/include/fixed_containers/fixed_string.hpp
@@ -343,7 +343,8 @@ public:
 
     constexpr FixedString& operator+=(CharT character)
     {
-        return append(character, std_transition::source_location::current());
+        push_back(character, std_transition::source_location::current());
+        return *this;
     }
     constexpr FixedString& operator+=(const CharT* char_ptr)
     {
-- 
2.43.0


From e3c08becebb8d16f344445dd0fa5068f06fd67a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:11 +0000
Subject: [PATCH 14/45] fix: FixedString::insert of a view into the string
 itself

---
 include/fixed_containers/fixed_string.hpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/include/fixed_containers/fixed_string.hpp b/include/fixed_containers/fixed_string.hpp
index bb9360b..2c4b9dd 100644
--- a/include/fixed_containers/fixed_string.hpp
+++ b/include/fixed_containers/fixed_string.hpp
@@ -7,11 +7,13 @@
 #include "fixed_containers/sequence_container_checking.hpp"
 #include "fixed_containers/source_location.hpp"
 
+#include <algorithm>
 #include <array>
 #include <cctype>
 #include <cstddef>
 #include <cstdlib>
 #include <istream>
+#include <iterator>
 #include <string_view>
 
 namespace fixed_containers
@@ -273,7 +275,15 @@ public:
         const std_transition::source_location& loc = std_transition::source_location::current())
     {
         const ScopedNullTermination guard{this, loc};
-        return vec().insert(pos, view.begin(), view.end(), loc);
+        const std::ptrdiff_t offset = std::distance(cbegin(), pos);
+        const std::ptrdiff_t original_length = std::distance(cbegin(), cend());
+
+        // `view` may refer to this very string, so place it at the end first, where it does not
+        // affect existing characters, and then rotate into the correct place.
+        vec().insert(vec().cend(), view.begin(), view.end(), loc);
+        const iterator insertion_point = std::next(begin(), offset);
+        std::rotate(insertion_point, std::next(begin(), original_length), end());
+        return insertion_point;
     }
 
     constexpr iterator erase(
-- 
2.43.0


From 9f21d3a5555e897918116f8ae8d0488e1c18514d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:22:41 +0000
Subject: [PATCH 15/45] fix: FixedSet::rend() is the reverse of begin(), not of
 storage slot 0

---
 include/fixed_containers/fixed_set.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fixed_containers/fixed_set.hpp b/include/fixed_containers/fixed_set.hpp
index 552d985..a0fb91d 100644
--- a/include/fixed_containers/fixed_set.hpp
+++ b/include/fixed_containers/fixed_set.hpp
@@ -183,7 +183,7 @@ public:
     }
     [[nodiscard]] constexpr const_reverse_iterator crend() const noexcept
     {
-        return create_const_reverse_iterator(0);
+        return create_const_reverse_iterator(tree().index_of_min_at());
     }
     [[nodiscard]] constexpr const_reverse_iterator rbegin() const noexcept { return crbegin(); }
     [[nodiscard]] constexpr const_reverse_iterator rend() const noexcept { return crend(); }
-- 
2.43.0


From 4ee669a0a57fb5742fcbc43f3f5c50ff75ee859d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:22:50 +0000
Subject: [PATCH 16/45] fix: copies of FixedMap/FixedSet with non-trivial
 entries keep the comparator

---
 include/fixed_containers/fixed_red_black_tree.hpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/include/fixed_containers/fixed_red_black_tree.hpp b/include/fixed_containers/fixed_red_black_tree.hpp
index 125b7e8..7f67ab1 100644
--- a/include/fixed_containers/fixed_red_black_tree.hpp
+++ b/include/fixed_containers/fixed_red_black_tree.hpp
@@ -6,6 +6,7 @@
 #include "fixed_containers/fixed_red_black_tree_ops.hpp"
 #include "fixed_containers/fixed_red_black_tree_storage.hpp"
 #include "fixed_containers/fixed_red_black_tree_types.hpp"
+#include "fixed_containers/memory.hpp"
 
 #include <algorithm>
 #include <cstddef>
@@ -849,6 +850,12 @@ protected:  // [WORKAROUND-1]
     {
         IMPLEMENTATION_DETAIL_DO_NOT_USE_root_index_ = new_root_index;
     }
+    // Comparators are not necessarily assignable
+    constexpr void set_comparator(const Compare& comparator)
+    {
+        memory::destroy_and_construct_at_address_of(IMPLEMENTATION_DETAIL_DO_NOT_USE_comparator_,
+                                                    comparator);
+    }
 };
 
 }  // namespace fixed_containers::fixed_red_black_tree_detail
@@ -896,7 +903,7 @@ public:
 
     // TODO: Use O(N) algorithm. Do non-recursive
     constexpr FixedRedBlackTree(const FixedRedBlackTree& other)
-      : FixedRedBlackTree()
+      : FixedRedBlackTree(other.IMPLEMENTATION_DETAIL_DO_NOT_USE_comparator_)
     {
         for (NodeIndex i = other.index_of_min_at(); i != NULL_INDEX;
              i = other.index_of_successor_at(i))
@@ -914,7 +921,7 @@ public:
         }
     }
     constexpr FixedRedBlackTree(FixedRedBlackTree&& other) noexcept
-      : FixedRedBlackTree()
+      : FixedRedBlackTree(other.IMPLEMENTATION_DETAIL_DO_NOT_USE_comparator_)
     {
         for (NodeIndex i = other.index_of_min_at(); i != NULL_INDEX;
              i = other.index_of_successor_at(i))
@@ -943,6 +950,7 @@ public:
         }
 
         this->clear();
+        this->set_comparator(other.IMPLEMENTATION_DETAIL_DO_NOT_USE_comparator_);
         for (NodeIndex i = other.index_of_min_at(); i != NULL_INDEX;
              i = other.index_of_successor_at(i))
         {
@@ -967,6 +975,7 @@ public:
         }
 
         this->clear();
+        this->set_comparator(other.IMPLEMENTATION_DETAIL_DO_NOT_USE_comparator_);
         for (NodeIndex i = other.index_of_min_at(); i != NULL_INDEX;
              i = other.index_of_successor_at(i))
         {
-- 
2.43.0


From b96bb6d0905a2d6b7319db15dc8035a887b148e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:34 +0000
Subject: [PATCH 17/45] fix: rbegin().base() of an empty FixedMap/FixedSet is
 end()

---
 include/fixed_containers/fixed_map.hpp | 2 +-
 include/fixed_containers/fixed_set.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/fixed_containers/fixed_map.hpp b/include/fixed_containers/fixed_map.hpp
index 60d952a..12d5143 100644
--- a/include/fixed_containers/fixed_map.hpp
+++ b/include/fixed_containers/fixed_map.hpp
@@ -101,8 +101,8 @@ private:
             else
             {
                 current_index_ = tree_->index_of_successor_at(current_index_);
-                current_index_ = replace_null_index_with_max_size_for_end_iterator(current_index_);
             }
+            current_index_ = replace_null_index_with_max_size_for_end_iterator(current_index_);
         }
         constexpr void recede() noexcept
         {
diff --git a/include/fixed_containers/fixed_set.hpp b/include/fixed_containers/fixed_set.hpp
index a0fb91d..18619cb 100644
--- a/include/fixed_containers/fixed_set.hpp
+++ b/include/fixed_containers/fixed_set.hpp
@@ -80,8 +80,8 @@ private:
             else
             {
                 current_index_ = tree_->index_of_successor_at(current_index_);
-                current_index_ = replace_null_index_with_max_size_for_end_iterator(current_index_);
             }
+            current_index_ = replace_null_index_with_max_size_for_end_iterator(current_index_);
         }
         constexpr void recede() noexcept
         {
-- 
2.43.0


From 13c5b236b14e34cadf816807850514e3b98220ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:34 +0000
Subject: [PATCH 18/45] fix: FixedIndexBasedContiguousStorage moved the last
 entry onto its own destroyed slot

---
 include/fixed_containers/fixed_index_based_storage.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/fixed_containers/fixed_index_based_storage.hpp b/include/fixed_containers/fixed_index_based_storage.hpp
index fb2bdfb..0d6372d 100644
--- a/include/fixed_containers/fixed_index_based_storage.hpp
+++ b/include/fixed_containers/fixed_index_based_storage.hpp
@@ -179,8 +179,11 @@ public:
 
     constexpr std::size_t delete_at_and_return_repositioned_index(const std::size_t index) noexcept
     {
-        memory::destroy_at_address_of(nodes().at(index));
-        memory::construct_at_address_of(nodes().at(index), std::move(nodes().back()));
+        if (index + 1 != nodes().size())
+        {
+            memory::destroy_at_address_of(nodes().at(index));
+            memory::construct_at_address_of(nodes().at(index), std::move(nodes().back()));
+        }
         nodes().pop_back();
         return nodes().size();
     }
-- 
2.43.0


From 82b586862e164b2b496a82e6d97f8feefa9f60ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:49 +0000
Subject: [PATCH 19/45] fix: heterogeneous
 lower_bound/upper_bound/equal_range/count with a key equivalent to several
 entries

---
 include/fixed_containers/fixed_map.hpp        | 21 ++++------
 .../fixed_containers/fixed_red_black_tree.hpp | 39 +++++++++++++++++++
 include/fixed_containers/fixed_set.hpp        | 12 +++---
 3 files changed, 52 insertions(+), 20 deletions(-)

diff --git a/include/fixed_containers/fixed_map.hpp b/include/fixed_containers/fixed_map.hpp
index 12d5143..9cf3035 100644
--- a/include/fixed_containers/fixed_map.hpp
+++ b/include/fixed_containers/fixed_map.hpp
@@ -14,6 +14,7 @@
 #include <array>
 #include <cstddef>
 #include <functional>
+#include <iterator>
 
 namespace fixed_containers
 {
@@ -537,7 +538,7 @@ public:
     [[nodiscard]] constexpr std::size_t count(const K0& key) const noexcept
         requires IsTransparent<Compare>
     {
-        return static_cast<std::size_t>(contains(key));
+        return static_cast<std::size_t>(std::distance(lower_bound(key), upper_bound(key)));
     }
 
     [[nodiscard]] constexpr iterator lower_bound(const K& key) noexcept
@@ -552,15 +553,13 @@ public:
     [[nodiscard]] constexpr iterator lower_bound(const K0& key) noexcept
         requires IsTransparent<Compare>
     {
-        const NodeIndexAndParentIndex np_idxs = tree().index_of_node_with_parent(key);
-        return create_iterator(tree().index_of_node_ceiling(np_idxs));
+        return create_iterator(tree().index_of_first_node_not_less(key));
     }
     template <class K0>
     [[nodiscard]] constexpr const_iterator lower_bound(const K0& key) const noexcept
         requires IsTransparent<Compare>
     {
-        const NodeIndexAndParentIndex np_idxs = tree().index_of_node_with_parent(key);
-        return create_const_iterator(tree().index_of_node_ceiling(np_idxs));
+        return create_const_iterator(tree().index_of_first_node_not_less(key));
     }
 
     [[nodiscard]] constexpr iterator upper_bound(const K& key) noexcept
@@ -575,15 +574,13 @@ public:
     [[nodiscard]] constexpr iterator upper_bound(const K0& key) noexcept
         requires IsTransparent<Compare>
     {
-        const NodeIndexAndParentIndex np_idxs = tree().index_of_node_with_parent(key);
-        return create_iterator(tree().index_of_node_higher(np_idxs));
+        return create_iterator(tree().index_of_first_node_greater(key));
     }
     template <class K0>
     [[nodiscard]] constexpr const_iterator upper_bound(const K0& key) const noexcept
         requires IsTransparent<Compare>
     {
-        const NodeIndexAndParentIndex np_idxs = tree().index_of_node_with_parent(key);
-        return create_const_iterator(tree().index_of_node_higher(np_idxs));
+        return create_const_iterator(tree().index_of_first_node_greater(key));
     }
 
     [[nodiscard]] constexpr std::pair<iterator, iterator> equal_range(const K& key) noexcept
@@ -601,16 +598,14 @@ public:
     [[nodiscard]] constexpr std::pair<iterator, iterator> equal_range(const K0& key) noexcept
         requires IsTransparent<Compare>
     {
-        const NodeIndexAndParentIndex np_idxs = tree().index_of_node_with_parent(key);
-        return equal_range_impl(np_idxs);
+        return {lower_bound(key), upper_bound(key)};
     }
     template <class K0>
     [[nodiscard]] constexpr std::pair<const_iterator, const_iterator> equal_range(
         const K0& key) const noexcept
         requires IsTransparent<Compare>
     {
-        const NodeIndexAndParentIndex np_idxs = tree().index_of_node_with_parent(key);
-        return equal_range_impl(np_idxs);
+        return {lower_bound(key), upper_bound(key)};
     }
 
     template <std::size_t MAXIMUM_SIZE_2,
diff --git a/include/fixed_containers/fixed_red_black_tree.hpp b/include/fixed_containers/fixed_red_black_tree.hpp
index 7f67ab1..810421a 100644
--- a/include/fixed_containers/fixed_red_black_tree.hpp
+++ b/include/fixed_containers/fixed_red_black_tree.hpp
@@ -328,6 +328,45 @@ public:
         return index_of_node_ceiling(index_of_node_with_parent(key));
     }
 
+    // A key of another type can be equivalent to several nodes, so these do not stop at the first
+    // equivalent node.
+    template <class K0>
+    [[nodiscard]] constexpr NodeIndex index_of_first_node_not_less(const K0& key) const noexcept
+    {
+        NodeIndex out = NULL_INDEX;
+        for (NodeIndex i = root_index(); i != NULL_INDEX;)
+        {
+            if (IMPLEMENTATION_DETAIL_DO_NOT_USE_comparator_(tree_storage().key(i), key))
+            {
+                i = tree_storage().right_index(i);
+            }
+            else
+            {
+                out = i;
+                i = tree_storage().left_index(i);
+            }
+        }
+        return out;
+    }
+    template <class K0>
+    [[nodiscard]] constexpr NodeIndex index_of_first_node_greater(const K0& key) const noexcept
+    {
+        NodeIndex out = NULL_INDEX;
+        for (NodeIndex i = root_index(); i != NULL_INDEX;)
+        {
+            if (IMPLEMENTATION_DETAIL_DO_NOT_USE_comparator_(key, tree_storage().key(i)))
+            {
+                out = i;
+                i = tree_storage().left_index(i);
+            }
+            else
+            {
+                i = tree_storage().right_index(i);
+            }
+        }
+        return out;
+    }
+
     template <class K0>
     [[nodiscard]] constexpr bool contains_node(const K0& key) const noexcept
     {
diff --git a/include/fixed_containers/fixed_set.hpp b/include/fixed_containers/fixed_set.hpp
index 18619cb..632df34 100644
--- a/include/fixed_containers/fixed_set.hpp
+++ b/include/fixed_containers/fixed_set.hpp
@@ -13,6 +13,7 @@
 #include <array>
 #include <cstddef>
 #include <functional>
+#include <iterator>
 #include <memory>
 
 namespace fixed_containers
@@ -336,7 +337,7 @@ public:
     [[nodiscard]] constexpr std::size_t count(const K0& key) const noexcept
         requires IsTransparent<Compare>
     {
-        return static_cast<std::size_t>(contains(key));
+        return static_cast<std::size_t>(std::distance(lower_bound(key), upper_bound(key)));
     }
 
     [[nodiscard]] constexpr const_iterator lower_bound(const K& key) const noexcept
@@ -347,8 +348,7 @@ public:
     [[nodiscard]] constexpr const_iterator lower_bound(const K0& key) const noexcept
         requires IsTransparent<Compare>
     {
-        const NodeIndexAndParentIndex np_idxs = tree().index_of_node_with_parent(key);
-        return create_const_iterator(tree().index_of_node_ceiling(np_idxs));
+        return create_const_iterator(tree().index_of_first_node_not_less(key));
     }
 
     [[nodiscard]] constexpr const_iterator upper_bound(const K& key) const noexcept
@@ -359,8 +359,7 @@ public:
     [[nodiscard]] constexpr const_iterator upper_bound(const K0& key) const noexcept
         requires IsTransparent<Compare>
     {
-        const NodeIndexAndParentIndex np_idxs = tree().index_of_node_with_parent(key);
-        return create_const_iterator(tree().index_of_node_higher(np_idxs));
+        return create_const_iterator(tree().index_of_first_node_greater(key));
     }
 
     [[nodiscard]] constexpr std::pair<const_iterator, const_iterator> equal_range(
@@ -374,8 +373,7 @@ public:
         const K0& key) const noexcept
         requires IsTransparent<Compare>
     {
-        const NodeIndexAndParentIndex np_idxs = tree().index_of_node_with_parent(key);
-        return equal_range_impl(np_idxs);
+        return {lower_bound(key), upper_bound(key)};
     }
 
     template <std::size_t MAXIMUM_SIZE_2,
-- 
2.43.0


From c67c46f3296119bc355a91978b6947a25e900487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:28 +0000
Subject: [PATCH 20/45] fix: FixedRobinhoodHashtable::clear() on a moved-from
 container

clear() hashed the moved-from keys to find their buckets, and after a move
construction left the stale buckets in place, so that later lookups and
insertions referred to destroyed entries.
---
 include/fixed_containers/fixed_robinhood_hashtable.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/fixed_containers/fixed_robinhood_hashtable.hpp b/include/fixed_containers/fixed_robinhood_hashtable.hpp
index 69094d9..a7af5e9 100644
--- a/include/fixed_containers/fixed_robinhood_hashtable.hpp
+++ b/include/fixed_containers/fixed_robinhood_hashtable.hpp
@@ -357,7 +357,12 @@ public:
         return end_value_index;
     }
 
-    constexpr void clear() { erase_range(begin_index(), end_index()); }
+    constexpr void clear()
+    {
+        // Does not look at the keys, they may be moved-from.
+        IMPLEMENTATION_DETAIL_DO_NOT_USE_value_storage_.clear();
+        IMPLEMENTATION_DETAIL_DO_NOT_USE_bucket_array_ = {};
+    }
 
 public:
     constexpr FixedRobinhoodHashtable() = default;
-- 
2.43.0


From 02badb081de7e579d0545a74a8774e49352452c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:37:20 +0000
Subject: [PATCH 21/45] fix: EnumMap::insert_or_assign did not compile for
 values that are not trivially assignable

It assigned the union that holds the value, which is only possible for trivially
assignable types. Assign the value itself, or construct it when it is absent.
---
 include/fixed_containers/enum_map.hpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/include/fixed_containers/enum_map.hpp b/include/fixed_containers/enum_map.hpp
index ec97eda..3b69b81 100644
--- a/include/fixed_containers/enum_map.hpp
+++ b/include/fixed_containers/enum_map.hpp
@@ -466,14 +466,17 @@ public:
         requires std::is_assignable_v<mapped_type&, M&&>
     {
         const std::size_t ordinal = EnumAdapterType::ordinal(key);
-        const bool is_insertion = !array_set_unchecked_at(ordinal);
-        if (is_insertion)
+        if (array_set_unchecked_at(ordinal))
         {
-            increment_size();
-            array_set_unchecked_at(ordinal) = true;
+            unchecked_at(ordinal) = std::forward<M>(obj);
+            return {create_iterator(ordinal), false};
         }
-        values_unchecked_at(ordinal) = OptionalV(std::forward<M>(obj));
-        return {create_iterator(ordinal), is_insertion};
+
+        increment_size();
+        array_set_unchecked_at(ordinal) = true;
+        memory::construct_at_address_of(
+            values_unchecked_at(ordinal), std::in_place, std::forward<M>(obj));
+        return {create_iterator(ordinal), true};
     }
     template <class M>
     constexpr iterator insert_or_assign(const_iterator /*hint*/, const K& key, M&& obj) noexcept
-- 
2.43.0


From 65bede1ae17c1325a05d75694db96e64114f69af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:44:19 +0000
Subject: [PATCH 22/45] fix: comparing EnumMaps with different checking
 policies did not compile

---
 include/fixed_containers/enum_map.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/fixed_containers/enum_map.hpp b/include/fixed_containers/enum_map.hpp
index 3b69b81..8e377db 100644
--- a/include/fixed_containers/enum_map.hpp
+++ b/include/fixed_containers/enum_map.hpp
@@ -124,6 +124,9 @@ private:
 template <class K, class V, customize::EnumMapChecking<K> CheckingType>
 class EnumMapBase
 {
+    template <class K2, class V2, customize::EnumMapChecking<K2> CheckingType2>
+    friend class EnumMapBase;
+
 public:
     using key_type = K;
     using mapped_type = V;
-- 
2.43.0


From f6570c27cdee0c6a9c8aca62f7de59e97d3a182f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:11:59 +0000
Subject: [PATCH 23/45] fix: FixedDoublyLinkedListRawView stride of elements
 whose size is not a multiple of alignof(std::size_t)

---
 .../fixed_doubly_linked_list_raw_view.hpp     | 21 ++++++++++++-------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/include/fixed_containers/fixed_doubly_linked_list_raw_view.hpp b/include/fixed_containers/fixed_doubly_linked_list_raw_view.hpp
index c75e441..d575a77 100644
--- a/include/fixed_containers/fixed_doubly_linked_list_raw_view.hpp
+++ b/include/fixed_containers/fixed_doubly_linked_list_raw_view.hpp
@@ -65,8 +65,10 @@ public:
                                  std::size_t elem_align_bytes,
                                  std::size_t max_elem_count)
       : list_ptr_{static_cast<const std::byte*>(list_ptr)}
-      // the PoolStorage stores unions of `T`, `std::size_t`, so they are always at least that big
-      , elem_size_bytes_{std::max(elem_size_bytes, sizeof(std::size_t))}
+      // the PoolStorage stores unions of `T`, `std::size_t`, so they are always at least that big,
+      // and their size is a multiple of their alignment
+      , elem_size_bytes_{align_up(std::max(elem_size_bytes, sizeof(std::size_t)),
+                                  std::max(elem_align_bytes, alignof(std::size_t)))}
       , elem_align_bytes_{std::max(elem_align_bytes, alignof(std::size_t))}
       , max_elem_count_{max_elem_count}
     {
@@ -84,17 +86,20 @@ public:
             std::next(list_ptr_, value_storage_size() + chain_size()));
     }
 
+private:
+    static constexpr std::size_t align_up(const std::size_t size, const std::size_t alignment)
+    {
+        const std::size_t remainder = size % alignment;
+        return remainder == 0 ? size : size + (alignment - remainder);
+    }
+
 public:
     [[nodiscard]] constexpr std::ptrdiff_t value_storage_size() const noexcept
     {
         // the full PoolStorage will be aligned to the alignment of the element, which matters if it
         // aligns bigger than alignof(size_t)
-        std::size_t raw_size = (max_elem_count_ * elem_size_bytes_) + sizeof(std::size_t);
-        if (raw_size % elem_align_bytes_ != 0)
-        {
-            raw_size += elem_align_bytes_ - (raw_size % elem_align_bytes_);
-        }
-        return static_cast<std::ptrdiff_t>(raw_size);
+        const std::size_t raw_size = (max_elem_count_ * elem_size_bytes_) + sizeof(std::size_t);
+        return static_cast<std::ptrdiff_t>(align_up(raw_size, elem_align_bytes_));
     }
 
     [[nodiscard]] constexpr std::ptrdiff_t chain_size() const noexcept
-- 
2.43.0


From 4b84b33c1245303e8cfa9b0dd78a1438cbb40c7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:11:59 +0000
Subject: [PATCH 24/45] fix: end and default iterators of
 FixedRedBlackTreeRawView computed out-of-bounds pointers

---
 include/fixed_containers/fixed_red_black_tree_view.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/fixed_containers/fixed_red_black_tree_view.hpp b/include/fixed_containers/fixed_red_black_tree_view.hpp
index 2f279c9..96733f3 100644
--- a/include/fixed_containers/fixed_red_black_tree_view.hpp
+++ b/include/fixed_containers/fixed_red_black_tree_view.hpp
@@ -68,7 +68,8 @@ public:
         }
 
         Iterator() noexcept
-          : Iterator(nullptr, {}, {}, {}, {}, false)
+          // There is no tree to look at
+          : Iterator(nullptr, {}, {}, {}, {}, true)
         {
         }
 
@@ -119,6 +120,11 @@ public:
          */
         [[nodiscard]] constexpr const std::byte* node_pointer(std::size_t index) const
         {
+            if (index == NULL_INDEX)
+            {
+                // No node, e.g. `end()`
+                return nullptr;
+            }
             switch (storage_type_)
             {
             case StorageType::FIXED_INDEX_POOL:
-- 
2.43.0


From d9090875ec497b285a797425bfd6dd2dccb4f059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:16:57 +0000
Subject: [PATCH 25/45] fix: divide_integers_rounding_up of zero and of
 negative numbers

---
 include/fixed_containers/int_math.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/fixed_containers/int_math.hpp b/include/fixed_containers/int_math.hpp
index 1d3bf2e..f3ebbc8 100644
--- a/include/fixed_containers/int_math.hpp
+++ b/include/fixed_containers/int_math.hpp
@@ -95,7 +95,12 @@ template <std::integral T>
 constexpr T divide_integers_rounding_up(const T dividend, const T divisor)
 {
     assert_or_abort(divisor != static_cast<T>(0));
-    return ((dividend - static_cast<T>(1)) / divisor) + static_cast<T>(1);
+    const T quotient = static_cast<T>(dividend / divisor);
+    const T remainder = static_cast<T>(dividend % divisor);
+    // Integer division truncates, which already rounds up if the exact result is negative
+    const bool needs_rounding_up = remainder != static_cast<T>(0) &&
+                                   (remainder > static_cast<T>(0)) == (divisor > static_cast<T>(0));
+    return static_cast<T>(quotient + static_cast<T>(needs_rounding_up ? 1 : 0));
 }
 
 }  // namespace fixed_containers::int_math
-- 
2.43.0


From b8ba6412d08831f8dd16e45200687b4e775480c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:16:57 +0000
Subject: [PATCH 26/45] fix: signed integer overflow in int_math for the lowest
 value of a signed type

---
 include/fixed_containers/int_math.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/fixed_containers/int_math.hpp b/include/fixed_containers/int_math.hpp
index f3ebbc8..ab6723c 100644
--- a/include/fixed_containers/int_math.hpp
+++ b/include/fixed_containers/int_math.hpp
@@ -3,6 +3,7 @@
 #include "fixed_containers/assert_or_abort.hpp"
 
 #include <concepts>
+#include <type_traits>
 
 namespace fixed_containers::int_math
 {
@@ -51,7 +52,10 @@ public:
         if (is_negative_)
         {
             // TODO: ensure the value fits in the target type
-            return -static_cast<V>(unsigned_value());
+            // Negate the unsigned value, the lowest signed value does not have a signed counterpart
+            using UnsignedV = std::make_unsigned_t<V>;
+            return static_cast<V>(static_cast<UnsignedV>(0) -
+                                  static_cast<UnsignedV>(unsigned_value()));
         }
 
         // TODO: ensure the value fits in the target type
@@ -85,7 +89,9 @@ constexpr UnsignedIntegralAndSign<T> safe_add(const T addend_left,
 {
     if (addend_right < 0)
     {
-        return safe_subtract(addend_left, static_cast<T>(-addend_right));
+        // Negate the unsigned value, the lowest signed value does not have a signed counterpart
+        return safe_subtract(addend_left,
+                             static_cast<T>(static_cast<T>(0) - static_cast<T>(addend_right)));
     }
 
     return UnsignedIntegralAndSign<T>::create_positive(addend_left + static_cast<T>(addend_right));
-- 
2.43.0


From 4cac31eba7bdd9dd517e5ef77639645f6a7d0484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:18:03 +0000
Subject: [PATCH 27/45] fix: moving the end of an IntegerRangeIterator by zero

---
 include/fixed_containers/integer_range_iterator.hpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/fixed_containers/integer_range_iterator.hpp b/include/fixed_containers/integer_range_iterator.hpp
index 7ef6de7..8d6c358 100644
--- a/include/fixed_containers/integer_range_iterator.hpp
+++ b/include/fixed_containers/integer_range_iterator.hpp
@@ -34,6 +34,11 @@ public:
 
     constexpr void advance(const std::size_t n) noexcept
     {
+        if (n == 0)
+        {
+            return;
+        }
+
         const std::size_t end_exclusive = integer_range_.end_exclusive();
         assert_or_abort(current_index_ != end_exclusive);
 
@@ -47,6 +52,11 @@ public:
     }
     constexpr void recede(const std::size_t n) noexcept
     {
+        if (n == 0)
+        {
+            return;
+        }
+
         const std::size_t start_inclusive = integer_range_.start_inclusive();
         assert_or_abort(current_index_ != start_inclusive - 1);
 
-- 
2.43.0


From ed45310292ac44f0dbb9f7f5fbf0b7a13f3b6a8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:18:09 +0000
Subject: [PATCH 28/45] fix: ordering of reverse IntegerRangeIterators at the
 end of a range that starts at zero

---
 include/fixed_containers/integer_range_iterator.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/fixed_containers/integer_range_iterator.hpp b/include/fixed_containers/integer_range_iterator.hpp
index 8d6c358..b5d3a29 100644
--- a/include/fixed_containers/integer_range_iterator.hpp
+++ b/include/fixed_containers/integer_range_iterator.hpp
@@ -84,7 +84,9 @@ public:
     constexpr auto operator<=>(const IntegerRangeEntryProvider& other) const noexcept
     {
         assert_or_abort(integer_range_ == other.integer_range_);
-        return current_index_ <=> other.current_index_;
+        // The position before the start can be a wrapped-around index, so compare offsets from it
+        const std::size_t before_start = integer_range_.start_inclusive() - 1;
+        return (current_index_ - before_start) <=> (other.current_index_ - before_start);
     }
 
     constexpr std::ptrdiff_t operator-(const IntegerRangeEntryProvider& other) const
-- 
2.43.0


From 6deceb2edb4106be731f34996575d155541d3d8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:22:35 +0000
Subject: [PATCH 29/45] fix: OptionalReference::emplace did not compile

---
 include/fixed_containers/optional_reference.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/fixed_containers/optional_reference.hpp b/include/fixed_containers/optional_reference.hpp
index aa55967..6ab6b24 100644
--- a/include/fixed_containers/optional_reference.hpp
+++ b/include/fixed_containers/optional_reference.hpp
@@ -138,10 +138,10 @@ public:
 
     constexpr void reset() noexcept { val() = nullptr; }
 
-    constexpr reference emplace(reference val) noexcept
+    constexpr reference emplace(reference new_val) noexcept
     {
-        val() = &val;
-        return val;
+        val() = std::addressof(new_val);
+        return new_val;
     }
 
 private:
-- 
2.43.0


From e0f08a0eff688943026e75d7d321ab6ee33771a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:33 +0000
Subject: [PATCH 30/45] fix: ordering OptionalReferences of partially ordered
 types did not compile

---
 include/fixed_containers/optional_reference.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/fixed_containers/optional_reference.hpp b/include/fixed_containers/optional_reference.hpp
index 6ab6b24..ff7a113 100644
--- a/include/fixed_containers/optional_reference.hpp
+++ b/include/fixed_containers/optional_reference.hpp
@@ -169,8 +169,8 @@ template <typename T,
           customize::OptionalReferenceChecking<T> CheckT,
           std::three_way_comparable_with<T> U,
           customize::OptionalReferenceChecking<U> CheckU>
-constexpr auto operator<=>(const OptionalReference<T, CheckT>& lhs,
-                           const OptionalReference<U, CheckU>& rhs)
+constexpr std::compare_three_way_result_t<T, U> operator<=>(
+    const OptionalReference<T, CheckT>& lhs, const OptionalReference<U, CheckU>& rhs)
 {
     if (lhs.has_value() && rhs.has_value())
     {
-- 
2.43.0


From 9d99d2ccdd6c29c4e3d6117f63c10a02a9378a6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:33 +0000
Subject: [PATCH 31/45] fix: StructView::try_add_paths did not compile

---
 include/fixed_containers/struct_view.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fixed_containers/struct_view.hpp b/include/fixed_containers/struct_view.hpp
index 0514118..107a291 100644
--- a/include/fixed_containers/struct_view.hpp
+++ b/include/fixed_containers/struct_view.hpp
@@ -598,7 +598,7 @@ public:
     bool try_add_paths(S&& instance, const PathSet& paths)
     {
         auto path_properties_map =
-            extract_path_properties_of_filtered(std::forward<S>(instance), paths);
+            extract_path_properties_of_filtered(std::forward<S>(instance), std::optional{paths});
         if (path_properties_map.size() != paths.size())
         {
             return false;
-- 
2.43.0


From 465fb61155f98c032478a440aac8290a868b815c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:33 +0000
Subject: [PATCH 32/45] fix: default construction of
 ContiguousRangeSubStructView iterators did not compile

---
 include/fixed_containers/struct_view.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/fixed_containers/struct_view.hpp b/include/fixed_containers/struct_view.hpp
index 107a291..2b4ab22 100644
--- a/include/fixed_containers/struct_view.hpp
+++ b/include/fixed_containers/struct_view.hpp
@@ -795,7 +795,8 @@ class ContiguousRangeSubStructView
 
     public:
         constexpr ReferenceProvider() noexcept
-          : ReferenceProvider{nullptr, 0}
+          : accessing_info_{nullptr}
+          , current_index_{0}
         {
         }
 
-- 
2.43.0


From cb14318e7281dc8f43dbea36c3ae58c58ede4879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:33 +0000
Subject: [PATCH 33/45] fix: copying a non-const ContiguousRangeSubStructView
 did not compile

---
 include/fixed_containers/struct_view.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/fixed_containers/struct_view.hpp b/include/fixed_containers/struct_view.hpp
index 2b4ab22..351005c 100644
--- a/include/fixed_containers/struct_view.hpp
+++ b/include/fixed_containers/struct_view.hpp
@@ -853,6 +853,8 @@ public:
 
     template <typename SuperStructContainer>
     ContiguousRangeSubStructView(SuperStructContainer& super_struct_container)
+        requires(
+            !std::same_as<std::remove_cv_t<SuperStructContainer>, ContiguousRangeSubStructView>)
       : accessing_info_{
             .sub_struct_view = {},
             .super_struct_view = {},
-- 
2.43.0


From b9cfa99d03729fd8fc14b8899ed85ef9538e57bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:33 +0000
Subject: [PATCH 34/45] fix: ContiguousRangeSubStructView of an empty container
 dereferenced data()

---
 include/fixed_containers/struct_view.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fixed_containers/struct_view.hpp b/include/fixed_containers/struct_view.hpp
index 351005c..501280c 100644
--- a/include/fixed_containers/struct_view.hpp
+++ b/include/fixed_containers/struct_view.hpp
@@ -859,7 +859,7 @@ public:
             .sub_struct_view = {},
             .super_struct_view = {},
             .base_array_super_struct_ptr =
-                memory::addressof_as_mutable_byte_ptr(*super_struct_container.data()),
+                static_cast<std::byte*>(static_cast<void*>(super_struct_container.data())),
             .stride = {},
             .size = super_struct_container.size(),
         }
-- 
2.43.0


From e715041d3995440f30ea1bbe934c551307761821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:33 +0000
Subject: [PATCH 35/45] fix: path_to_string of an empty path left the previous
 contents in the output

---
 include/fixed_containers/recursive_reflection.hpp | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/include/fixed_containers/recursive_reflection.hpp b/include/fixed_containers/recursive_reflection.hpp
index f19ee17..5b683da 100644
--- a/include/fixed_containers/recursive_reflection.hpp
+++ b/include/fixed_containers/recursive_reflection.hpp
@@ -269,11 +269,6 @@ constexpr PathNameChain path_from_string(const std::string_view& path_name_chain
 template <typename StringType>
 constexpr StringType path_to_string(const PathNameChain& path_name_chain, out<StringType> out)
 {
-    if (path_name_chain.empty())
-    {
-        return {};
-    }
-
     out->clear();
     bool first = true;
 
-- 
2.43.0


From 972c08413ab4db78ed968c7dc4af5eee8779ea22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:33 +0000
Subject: [PATCH 36/45] fix: pointers to const durations and bitsets were
 ignored by reflection and struct views

---
 include/fixed_containers/recursive_reflection.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/fixed_containers/recursive_reflection.hpp b/include/fixed_containers/recursive_reflection.hpp
index 5b683da..6110f68 100644
--- a/include/fixed_containers/recursive_reflection.hpp
+++ b/include/fixed_containers/recursive_reflection.hpp
@@ -54,7 +54,8 @@ template <typename T>
 concept AsPrimitiveValue = std::is_arithmetic_v<T> || IsDuration<T> || IsBitset<T>;
 
 template <typename T>
-concept AsPrimitiveView = std::is_pointer_v<T> && AsPrimitiveValue<std::remove_pointer_t<T>>;
+concept AsPrimitiveView =
+    std::is_pointer_v<T> && AsPrimitiveValue<std::remove_cv_t<std::remove_pointer_t<T>>>;
 
 template <typename T>
 concept AsPrimitive = AsPrimitiveValue<T> || AsPrimitiveView<T>;
-- 
2.43.0


From fdb5fa6ad75071ac4c6c52dd604a79b65f2cebc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:32:41 +0000
Subject: [PATCH 37/45] fix: undefined conversion in the default hash of
 negative and large floating point keys

---
 include/fixed_containers/wyhash.hpp | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/include/fixed_containers/wyhash.hpp b/include/fixed_containers/wyhash.hpp
index 8acd105..9396775 100644
--- a/include/fixed_containers/wyhash.hpp
+++ b/include/fixed_containers/wyhash.hpp
@@ -1,6 +1,8 @@
 #pragma once
 
 #include <array>
+#include <bit>
+#include <concepts>
 #include <cstdint>
 #include <cstring>
 #include <functional>
@@ -224,8 +226,20 @@ struct hash<Enum>
     }
 };
 
+template <std::floating_point T>
+struct hash<T>
+{
+    constexpr std::uint64_t operator()(T value) const noexcept
+    {
+        // Conversion of a floating point value to an integer is undefined outside of the integer's
+        // range, so use the representation. The two zeros are equal and need to have equal hashes.
+        const auto as_double = static_cast<double>(value);
+        return wyhash_detail::hash(std::bit_cast<std::uint64_t>(as_double == 0.0 ? 0.0 : as_double));
+    }
+};
+
 template <typename T>
-    requires std::convertible_to<T, std::uint64_t>
+    requires(std::convertible_to<T, std::uint64_t> && !std::floating_point<T>)
 struct hash<T>
 {
     constexpr std::uint64_t operator()(T value) const noexcept
-- 
2.43.0


From c38ff7674d6dccc805d01e03777374e0b2ebb2d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:19:25 +0000
Subject: [PATCH 38/45] fix: StructView with a maximum size other than the
 default did not compile

---
 include/fixed_containers/struct_view.hpp | 25 ++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/include/fixed_containers/struct_view.hpp b/include/fixed_containers/struct_view.hpp
index 501280c..bd6677b 100644
--- a/include/fixed_containers/struct_view.hpp
+++ b/include/fixed_containers/struct_view.hpp
@@ -22,6 +22,7 @@
 #include <magic_enum.hpp>
 #endif
 
+#include <algorithm>
 #include <any>
 #include <bitset>
 #include <concepts>
@@ -560,15 +561,20 @@ public:
     template <typename S>
     StructView(S&& instance)
         requires(!std::same_as<std::remove_cvref_t<S>, StructView>)
-      : path_properties_(extract_path_properties_of(std::forward<S>(instance)))
+      : path_properties_(extract_path_properties_of<S, MAXIMUM_SIZE>(std::forward<S>(instance)))
     {
     }
     template <typename SuperStruct, typename SubStruct>
     StructView(SuperStruct&& super_struct, SubStruct&& sub_struct)
     {
-        auto sub_struct_paths = extract_paths_of(std::forward<SubStruct>(sub_struct));
-        path_properties_ = extract_path_properties_of_filtered(
-            std::forward<SuperStruct>(super_struct), std::optional{std::move(sub_struct_paths)});
+        // Includes the paths of intermediate nodes, which do not end up in the view
+        constexpr std::size_t MAXIMUM_PATH_COUNT = (std::max)(MAXIMUM_SIZE, MAX_NUM_PATHS);
+        auto sub_struct_paths =
+            extract_paths_of<SubStruct, MAXIMUM_PATH_COUNT>(std::forward<SubStruct>(sub_struct));
+        path_properties_ =
+            extract_path_properties_of_filtered<SuperStruct, MAXIMUM_PATH_COUNT, MAXIMUM_SIZE>(
+                std::forward<SuperStruct>(super_struct),
+                std::optional{std::move(sub_struct_paths)});
     }
 
     template <typename S>
@@ -597,8 +603,10 @@ public:
     template <typename S, typename PathSet>
     bool try_add_paths(S&& instance, const PathSet& paths)
     {
-        auto path_properties_map =
-            extract_path_properties_of_filtered(std::forward<S>(instance), std::optional{paths});
+        auto path_properties_map = extract_path_properties_of_filtered<S,
+                                                                       PathSet::static_max_size(),
+                                                                       PathSet::static_max_size()>(
+            std::forward<S>(instance), std::optional{paths});
         if (path_properties_map.size() != paths.size())
         {
             return false;
@@ -866,8 +874,9 @@ public:
     {
         using SuperStruct = typename SuperStructContainer::value_type;
         SubStruct sub_struct_instance{};
-        accessing_info_.sub_struct_view = StructView(sub_struct_instance);
-        accessing_info_.super_struct_view = StructView(SuperStruct{}, sub_struct_instance);
+        accessing_info_.sub_struct_view = StructView<MAXIMUM_SIZE>(sub_struct_instance);
+        accessing_info_.super_struct_view =
+            StructView<MAXIMUM_SIZE>(SuperStruct{}, sub_struct_instance);
         accessing_info_.stride = sizeof(SuperStruct);
     }
 
-- 
2.43.0


From 242ce27b98cbadf559be42cc262c86d2853dac3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:20:38 +0000
Subject: [PATCH 39/45] fix: sub-struct fields of another type were accepted if
 its name contains that of the super-struct's field

---
 include/fixed_containers/struct_view.hpp | 27 ++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/include/fixed_containers/struct_view.hpp b/include/fixed_containers/struct_view.hpp
index bd6677b..df84c34 100644
--- a/include/fixed_containers/struct_view.hpp
+++ b/include/fixed_containers/struct_view.hpp
@@ -402,6 +402,26 @@ constexpr void for_each_index_of_path_helper(void* base_pointer,
     }
 }
 
+// Whether `pointer_type` names a pointer to the (possibly cv-qualified) type named `pointee_type`.
+// It is not sufficient that one name contains the other, e.g. `long double*` and `double`.
+constexpr bool is_name_of_pointer_to(StructTreeNodeTypeDetail pointer_type,
+                                     const StructTreeNodeTypeDetail pointee_type)
+{
+    for (const std::string_view qualifier : {"const ", "volatile "})
+    {
+        if (pointer_type.starts_with(qualifier))
+        {
+            pointer_type.remove_prefix(qualifier.size());
+        }
+    }
+    if (!pointer_type.starts_with(pointee_type))
+    {
+        return false;
+    }
+    pointer_type.remove_prefix(pointee_type.size());
+    return pointer_type == " *" || pointer_type == "*";
+}
+
 // runtime version of offsetof in <cstddef>
 template <typename Instance, typename Field>
 std::size_t get_pointer_distance(Instance&& instance, Field&& field)
@@ -737,10 +757,9 @@ void sub_struct_view_of(void* super_struct_base_pointer,
                 // check the detail_types are compatiable, need to consider pointer and qualifiers
                 // TODO: optimization for string_view pointer comparison to O(1) since we know the
                 // structure
-                assert_or_abort(path_properties  // NOLINT(abseil-string-find-str-contains)
-                                    .metadata.detail_type.find(
-                                        super_struct_path_properties.metadata.detail_type) !=
-                                std::string_view::npos);
+                assert_or_abort(struct_view_detail::is_name_of_pointer_to(
+                    path_properties.metadata.detail_type,
+                    super_struct_path_properties.metadata.detail_type));
                 *reinterpret_cast<std::uintptr_t*>(field_ptr) =
                     reinterpret_cast<std::uintptr_t>(super_struct_field_ptr);
             }
-- 
2.43.0


From 4dc33df723c4e0a1ade736ee679b1f1ee17b7098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:21:05 +0000
Subject: [PATCH 40/45] fix: sub-struct fields other than string_view were
 overwritten by the name of an enum in release mode

---
 include/fixed_containers/struct_view.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/fixed_containers/struct_view.hpp b/include/fixed_containers/struct_view.hpp
index df84c34..6cd53c7 100644
--- a/include/fixed_containers/struct_view.hpp
+++ b/include/fixed_containers/struct_view.hpp
@@ -745,8 +745,8 @@ void sub_struct_view_of(void* super_struct_base_pointer,
             {
                 auto super_api = std::any_cast<EnumCallInterface>(
                     super_struct_path_properties.metadata.call_interface);
-                assert(path_properties.metadata.metadata_type ==
-                       struct_view_detail::AS_PRIMITIVE_STRING_VIEW);
+                assert_or_abort(path_properties.metadata.metadata_type ==
+                                struct_view_detail::AS_PRIMITIVE_STRING_VIEW);
                 *reinterpret_cast<std::string_view*>(field_ptr) =
                     super_api.enum_name(super_struct_field_ptr);
             }
-- 
2.43.0


From 7323969a903585e2112e1816cda0d22d5991e3fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:13:08 +0000
Subject: [PATCH 41/45] fix: comparing containers of the same capacity with
 different checking policies did not compile

---
 include/fixed_containers/fixed_deque.hpp  | 2 +-
 include/fixed_containers/fixed_list.hpp   | 2 +-
 include/fixed_containers/fixed_map.hpp    | 3 ++-
 include/fixed_containers/fixed_set.hpp    | 3 ++-
 include/fixed_containers/fixed_vector.hpp | 2 +-
 5 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/include/fixed_containers/fixed_deque.hpp b/include/fixed_containers/fixed_deque.hpp
index c043834..7e76427 100644
--- a/include/fixed_containers/fixed_deque.hpp
+++ b/include/fixed_containers/fixed_deque.hpp
@@ -507,7 +507,7 @@ public:
     template <std::size_t MAXIMUM_SIZE_2, customize::SequenceContainerChecking CheckingType2>
     constexpr bool operator==(const FixedDequeBase<T, MAXIMUM_SIZE_2, CheckingType2>& other) const
     {
-        if constexpr (MAXIMUM_SIZE == MAXIMUM_SIZE_2)
+        if constexpr (std::is_same_v<decltype(other), const FixedDequeBase&>)
         {
             if (this == &other)
             {
diff --git a/include/fixed_containers/fixed_list.hpp b/include/fixed_containers/fixed_list.hpp
index 30d1277..b82def0 100644
--- a/include/fixed_containers/fixed_list.hpp
+++ b/include/fixed_containers/fixed_list.hpp
@@ -469,7 +469,7 @@ public:
     template <std::size_t MAXIMUM_SIZE_2, customize::SequenceContainerChecking CheckingType2>
     constexpr bool operator==(const FixedList<T, MAXIMUM_SIZE_2, CheckingType2>& other) const
     {
-        if constexpr (MAXIMUM_SIZE == MAXIMUM_SIZE_2)
+        if constexpr (std::is_same_v<decltype(other), const FixedList&>)
         {
             if (this == &other)
             {
diff --git a/include/fixed_containers/fixed_map.hpp b/include/fixed_containers/fixed_map.hpp
index 9cf3035..c461a41 100644
--- a/include/fixed_containers/fixed_map.hpp
+++ b/include/fixed_containers/fixed_map.hpp
@@ -15,6 +15,7 @@
 #include <cstddef>
 #include <functional>
 #include <iterator>
+#include <type_traits>
 
 namespace fixed_containers
 {
@@ -625,7 +626,7 @@ public:
                                                            StorageTemplate2,
                                                            CheckingType2>& other) const
     {
-        if constexpr (MAXIMUM_SIZE == MAXIMUM_SIZE_2)
+        if constexpr (std::is_same_v<decltype(other), const FixedMap&>)
         {
             if (this == &other)
             {
diff --git a/include/fixed_containers/fixed_set.hpp b/include/fixed_containers/fixed_set.hpp
index 632df34..39b02e6 100644
--- a/include/fixed_containers/fixed_set.hpp
+++ b/include/fixed_containers/fixed_set.hpp
@@ -15,6 +15,7 @@
 #include <functional>
 #include <iterator>
 #include <memory>
+#include <type_traits>
 
 namespace fixed_containers
 {
@@ -389,7 +390,7 @@ public:
         const FixedSet<K, MAXIMUM_SIZE_2, Compare2, COMPACTNESS_2, StorageTemplate2, CheckingType2>&
             other) const
     {
-        if constexpr (MAXIMUM_SIZE == MAXIMUM_SIZE_2)
+        if constexpr (std::is_same_v<decltype(other), const FixedSet&>)
         {
             if (this == &other)
             {
diff --git a/include/fixed_containers/fixed_vector.hpp b/include/fixed_containers/fixed_vector.hpp
index 4b3119c..cac5bee 100644
--- a/include/fixed_containers/fixed_vector.hpp
+++ b/include/fixed_containers/fixed_vector.hpp
@@ -581,7 +581,7 @@ public:
     template <std::size_t MAXIMUM_SIZE_2, customize::SequenceContainerChecking CheckingType2>
     constexpr bool operator==(const FixedVectorBase<T, MAXIMUM_SIZE_2, CheckingType2>& other) const
     {
-        if constexpr (MAXIMUM_SIZE == MAXIMUM_SIZE_2)
+        if constexpr (std::is_same_v<decltype(other), const FixedVectorBase&>)
         {
             if (this == &other)
             {
-- 
2.43.0


From cd320db498295cb6ddc8983e4bde36cf4cf2dc09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:13:08 +0000
Subject: [PATCH 42/45] fix: a step over the end of an IntegerRangeIterator
 near the largest std::size_t led to a position before the range

---
 include/fixed_containers/integer_range_iterator.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/fixed_containers/integer_range_iterator.hpp b/include/fixed_containers/integer_range_iterator.hpp
index b5d3a29..61396de 100644
--- a/include/fixed_containers/integer_range_iterator.hpp
+++ b/include/fixed_containers/integer_range_iterator.hpp
@@ -42,9 +42,10 @@ public:
         const std::size_t end_exclusive = integer_range_.end_exclusive();
         assert_or_abort(current_index_ != end_exclusive);
 
-        if (const std::size_t idx = current_index_ + n; idx < end_exclusive)
+        // Compare with the remaining distance, `current_index_ + n` can exceed `std::size_t`
+        if (n < end_exclusive - current_index_)
         {
-            current_index_ = idx;
+            current_index_ += n;
             return;
         }
 
-- 
2.43.0


From b59fa1af2261bf233931029623d4e0dfd6bfc216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:13:08 +0000
Subject: [PATCH 43/45] fix: moving a random access iterator by the smallest
 difference negated it with undefined behaviour

---
 include/fixed_containers/random_access_iterator.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/fixed_containers/random_access_iterator.hpp b/include/fixed_containers/random_access_iterator.hpp
index dbbabea..7ca9606 100644
--- a/include/fixed_containers/random_access_iterator.hpp
+++ b/include/fixed_containers/random_access_iterator.hpp
@@ -144,7 +144,9 @@ public:
     {
         if (n < 0)
         {
-            subtraction_assignment_op_impl(static_cast<std::size_t>(-n));
+            // Negate the unsigned value, the lowest signed value does not have a signed counterpart
+            subtraction_assignment_op_impl(static_cast<std::size_t>(0) -
+                                           static_cast<std::size_t>(n));
             return *this;
         }
 
@@ -168,7 +170,8 @@ public:
     {
         if (n < 0)
         {
-            addition_assignment_op_impl(static_cast<std::size_t>(-n));
+            // Negate the unsigned value, the lowest signed value does not have a signed counterpart
+            addition_assignment_op_impl(static_cast<std::size_t>(0) - static_cast<std::size_t>(n));
             return *this;
         }
 
-- 
2.43.0


From 39821f16fddb8a7fe86746941b23b10839d00c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:13:08 +0000
Subject: [PATCH 44/45] fix: the distance of far positions of a
 CircularIntegerRangeIterator overflowed

---
 .../circular_integer_range_iterator.hpp           | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/include/fixed_containers/circular_integer_range_iterator.hpp b/include/fixed_containers/circular_integer_range_iterator.hpp
index 1932c2b..26846ad 100644
--- a/include/fixed_containers/circular_integer_range_iterator.hpp
+++ b/include/fixed_containers/circular_integer_range_iterator.hpp
@@ -2,7 +2,6 @@
 
 #include "fixed_containers/assert_or_abort.hpp"
 #include "fixed_containers/circular_indexing.hpp"
-#include "fixed_containers/int_math.hpp"
 #include "fixed_containers/integer_range.hpp"
 #include "fixed_containers/iterator_utils.hpp"
 #include "fixed_containers/random_access_iterator.hpp"
@@ -64,13 +63,13 @@ public:
     constexpr std::ptrdiff_t operator-(const CircularIntegerRangeEntryProvider& other) const
     {
         assert_or_abort(integer_range_ == other.integer_range_);
-        const auto cycle_offset =
-            static_cast<std::ptrdiff_t>(current_index_.cycles - other.current_index_.cycles) *
-            static_cast<std::ptrdiff_t>(integer_range_.distance());
-        const auto diff_integer =
-            int_math::safe_subtract(current_index_.integer, other.current_index_.integer)
-                .template cast<std::ptrdiff_t>();
-        return cycle_offset + diff_integer;
+        // The intermediate results can be outside the range of `std::ptrdiff_t` even if the final
+        // one is not, so do the arithmetic on unsigned numbers.
+        const std::size_t cycle_offset = (static_cast<std::size_t>(current_index_.cycles) -
+                                          static_cast<std::size_t>(other.current_index_.cycles)) *
+                                         integer_range_.distance();
+        const std::size_t diff_integer = current_index_.integer - other.current_index_.integer;
+        return static_cast<std::ptrdiff_t>(cycle_offset + diff_integer);
     }
 };
 
-- 
2.43.0


From 97cbc47ba9662212bc7ecfc1cd0cbd362999adc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:06:15 +0000
Subject: [PATCH 45/45] fix: assign with a range that does not fit discarded
 the elements before the error was reported

---
 include/fixed_containers/fixed_deque.hpp  | 8 ++++++++
 include/fixed_containers/fixed_list.hpp   | 8 ++++++++
 include/fixed_containers/fixed_vector.hpp | 8 ++++++++
 3 files changed, 24 insertions(+)

diff --git a/include/fixed_containers/fixed_deque.hpp b/include/fixed_containers/fixed_deque.hpp
index 7e76427..a5f1cae 100644
--- a/include/fixed_containers/fixed_deque.hpp
+++ b/include/fixed_containers/fixed_deque.hpp
@@ -386,6 +386,13 @@ public:
         InputIt last,
         const std_transition::source_location& loc = std_transition::source_location::current())
     {
+        if constexpr (std::is_convertible_v<
+                          typename std::iterator_traits<InputIt>::iterator_category,
+                          std::forward_iterator_tag>)
+        {
+            // Check before the existing elements are gone
+            check_target_size(static_cast<std::size_t>(std::distance(first, last)), loc);
+        }
         this->clear();
         this->insert(cend(), first, last, loc);
     }
@@ -394,6 +401,7 @@ public:
         std::initializer_list<T> ilist,
         const std_transition::source_location& loc = std_transition::source_location::current())
     {
+        check_target_size(ilist.size(), loc);
         this->clear();
         this->insert(cend(), ilist, loc);
     }
diff --git a/include/fixed_containers/fixed_list.hpp b/include/fixed_containers/fixed_list.hpp
index b82def0..57b9c6a 100644
--- a/include/fixed_containers/fixed_list.hpp
+++ b/include/fixed_containers/fixed_list.hpp
@@ -334,6 +334,13 @@ public:
         InputIt last,
         const std_transition::source_location& loc = std_transition::source_location::current())
     {
+        if constexpr (std::is_convertible_v<
+                          typename std::iterator_traits<InputIt>::iterator_category,
+                          std::forward_iterator_tag>)
+        {
+            // Check before the existing elements are gone
+            check_target_size(static_cast<std::size_t>(std::distance(first, last)), loc);
+        }
         this->clear();
         this->insert(cend(), first, last, loc);
     }
@@ -342,6 +349,7 @@ public:
         std::initializer_list<T> ilist,
         const std_transition::source_location& loc = std_transition::source_location::current())
     {
+        check_target_size(ilist.size(), loc);
         this->clear();
         this->insert(cend(), ilist, loc);
     }
diff --git a/include/fixed_containers/fixed_vector.hpp b/include/fixed_containers/fixed_vector.hpp
index cac5bee..30ee2d4 100644
--- a/include/fixed_containers/fixed_vector.hpp
+++ b/include/fixed_containers/fixed_vector.hpp
@@ -366,6 +366,13 @@ public:
         InputIt last,
         const std_transition::source_location& loc = std_transition::source_location::current())
     {
+        if constexpr (std::is_convertible_v<
+                          typename std::iterator_traits<InputIt>::iterator_category,
+                          std::forward_iterator_tag>)
+        {
+            // Check before the existing elements are gone
+            check_target_size(static_cast<std::size_t>(std::distance(first, last)), loc);
+        }
         this->clear();
         this->insert(cend(), first, last, loc);
     }
@@ -374,6 +381,7 @@ public:
         std::initializer_list<T> ilist,
         const std_transition::source_location& loc = std_transition::source_location::current())
     {
+        check_target_size(ilist.size(), loc);
         this->clear();
         this->insert(cend(), ilist, loc);
     }
-- 
2.43.0

