From 6b4c1bf835305d9031fd45913ce4657471fca948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:43 +0000
Subject: [PATCH 001/138] fix: devector::resize_front deallocates the previous
 buffer when it reallocates

---
 seq/devector.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/seq/devector.hpp b/seq/devector.hpp
index d622ee6..9c8ac5e 100644
--- a/seq/devector.hpp
+++ b/seq/devector.hpp
@@ -487,6 +487,9 @@ namespace seq
 							deallocate(_new, _new_capacity);
 							throw;
 						}
+
+						deallocate(data, capacity);
+
 						data = _new;
 						start = _new_start;
 						end = _new_end;
-- 
2.43.0


From 61994c03943d4f8baa4a4fb3e4e65350ba16712a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:11 +0000
Subject: [PATCH 002/138] fix: devector insertion of one of its own elements
 when elements are moved to the other side of the buffer

---
 seq/devector.hpp | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/seq/devector.hpp b/seq/devector.hpp
index 9c8ac5e..15b703a 100644
--- a/seq/devector.hpp
+++ b/seq/devector.hpp
@@ -518,10 +518,18 @@ namespace seq
 				{
 					// Front capacity is greater than current size:
 					// move data to front
-					copy_destroy_input(start, end, data);
+					// construct the new value first, as arguments might refer to an element
+					T* _new_value = data + size;
+					construct_ptr(_new_value, std::forward<Args>(args)...);
+					try {
+						copy_destroy_input(start, end, data);
+					}
+					catch (...) {
+						destroy_ptr(_new_value);
+						throw;
+					}
 					start = data;
 					end = data + size;
-					construct_ptr(end, std::forward<Args>(args)...);
 					return;
 				}
 
@@ -572,10 +580,18 @@ namespace seq
 				if (static_cast<size_t>((capacity - size)) > size) {
 					// Back capacity is greater than current size:
 					// move data to back
-					copy_destroy_input(start, end, data + (capacity - size));
-					start = data + (capacity - size);
+					// construct the new value first, as arguments might refer to an element
+					T* _new_start = data + (capacity - size);
+					construct_ptr(_new_start - 1, std::forward<Args>(args)...);
+					try {
+						copy_destroy_input(start, end, _new_start);
+					}
+					catch (...) {
+						destroy_ptr(_new_start - 1);
+						throw;
+					}
+					start = _new_start;
 					end = data + capacity;
-					construct_ptr(start-1, std::forward<Args>(args)...);
 					return;
 				}
 				
-- 
2.43.0


From fec5fb2bc50257f157d7e031a51cc35410603042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:52 +0000
Subject: [PATCH 003/138] fix: devector::emplace on the left side duplicated
 and leaked relocatable elements

---
 seq/devector.hpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/seq/devector.hpp b/seq/devector.hpp
index 15b703a..bee2653 100644
--- a/seq/devector.hpp
+++ b/seq/devector.hpp
@@ -866,13 +866,16 @@ namespace seq
 
 			if (dist < size() / 2) {
 				// insert on the left side
-				T tmp = T(std::forward<Args>(args)...); //handle aliasing
-				emplace_front();
-				if constexpr (std::is_nothrow_move_assignable_v<T> && std::is_nothrow_move_constructible_v<T> && is_relocatable_v<T>)
+				emplace_front(std::forward<Args>(args)...); // handles aliasing
+				if constexpr (std::is_nothrow_move_assignable_v<T> && std::is_nothrow_move_constructible_v<T> && is_relocatable_v<T>) {
+					// relocate the new value at its position
+					alignas(T) unsigned char tmp[sizeof(T)];
+					memcpy(static_cast<void*>(tmp), static_cast<void*>(begin()), sizeof(T));
 					memmove(static_cast<void*>(begin()), static_cast<void*>(begin() + 1), dist * sizeof(T));
+					memcpy(static_cast<void*>(begin() + dist), static_cast<void*>(tmp), sizeof(T));
+				}
 				else
-					std::move(begin() + 1, begin() + 1 + dist, begin());
-				*(begin() + dist) = std::move(tmp);
+					std::rotate(begin(), begin() + 1, begin() + dist + 1);
 			}
 			else {
 				// insert on the right side
-- 
2.43.0


From 6fb337ac92ca3208fd389525af42d968c354515b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:18 +0000
Subject: [PATCH 004/138] fix: adding 0 to an end iterator of tiered_vector
 read a bucket that does not exist

---
 seq/tiered_vector.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/seq/tiered_vector.hpp b/seq/tiered_vector.hpp
index c1b298a..c4cb767 100644
--- a/seq/tiered_vector.hpp
+++ b/seq/tiered_vector.hpp
@@ -112,6 +112,9 @@ namespace seq
 
 			SEQ_ALWAYS_INLINE void offset(difference_type diff) noexcept
 			{
+				// No-op, also for an end iterator which does not point to a valid bucket
+				if (diff == 0)
+					return;
 				auto idx = indexes.second + diff;
 				if (idx >= 0 && idx < mgr->d_buckets[static_cast<size_t>(indexes.first)].bucket->size) {
 					indexes.second = static_cast<int>(idx);
-- 
2.43.0


From 80b254f339a48499084082feb8175da733e3c723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:43 +0000
Subject: [PATCH 005/138] fix: tiered_vector::emplace returned a reference to
 another element when the element displaced one from a full bucket

---
 seq/tiered_vector.hpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/seq/tiered_vector.hpp b/seq/tiered_vector.hpp
index c4cb767..2411ea8 100644
--- a/seq/tiered_vector.hpp
+++ b/seq/tiered_vector.hpp
@@ -1926,11 +1926,13 @@ namespace seq
 				if (d_buckets[0]->isFull()) {
 
 					// All functions might throw, fine
-					res = create_back_bucket()->emplace_back(std::move(d_buckets[0]->insert_pop_back(index, std::forward<Args>(args)...)));
+					create_back_bucket()->emplace_back(std::move(d_buckets[0]->insert_pop_back(index, std::forward<Args>(args)...)));
 					if (StoreBackValues) {
 						d_buckets.back().update();
 						d_buckets[0].update();
 					}
+					// the inserted element is in the first bucket
+					res = &d_buckets[0]->at(index);
 				}
 				else {
 					// Might throw, fine
@@ -1962,7 +1964,7 @@ namespace seq
 					// Might throw, fine
 					T tmp = d_buckets[0]->insert_pop_front(index, std::forward<Args>(args)...);
 					try {
-						res = create_front_bucket()->emplace_back(std::move(tmp));
+						create_front_bucket()->emplace_back(std::move(tmp));
 					}
 					catch (...) {
 						// check if front buffer is empty
@@ -1974,6 +1976,7 @@ namespace seq
 						d_buckets[0].update();
 						d_buckets[1].update();
 					}
+					res = &at(pos);
 				}
 				else {
 					// we are going to loose value at index 0, save it
@@ -2039,7 +2042,7 @@ namespace seq
 					if (StoreBackValues)
 						d_buckets[bucket_index].update();
 					try {
-						res = create_back_bucket()->emplace_back(std::move(tmp));
+						create_back_bucket()->emplace_back(std::move(tmp));
 					}
 					catch (...) {
 						// Remove empty back bucket
@@ -2049,6 +2052,7 @@ namespace seq
 					}
 					if (StoreBackValues)
 						d_buckets.back().update();
+					res = &at(pos);
 				}
 				else {
 
-- 
2.43.0


From 731d1c64f84927716af9df323cc3fca94f2f3f5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:49 +0000
Subject: [PATCH 006/138] fix: tiered_vector::for_each over an empty range
 accessed a bucket that may not exist

---
 seq/tiered_vector.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/seq/tiered_vector.hpp b/seq/tiered_vector.hpp
index 2411ea8..f3c0991 100644
--- a/seq/tiered_vector.hpp
+++ b/seq/tiered_vector.hpp
@@ -3419,7 +3419,7 @@ namespace seq
 		template<class Fun>
 		auto for_each(size_type first, size_type last, Fun fun) -> Fun
 		{
-			if (d_manager)
+			if (d_manager && first != last)
 				return manager()->for_each(first, last, fun);
 			return fun;
 		}
@@ -3435,7 +3435,7 @@ namespace seq
 		template<class Fun>
 		auto for_each(size_type first, size_type last, Fun fun) const -> Fun
 		{
-			if (d_manager)
+			if (d_manager && first != last)
 				return manager()->for_each(first, last, fun);
 			return fun;
 		}
-- 
2.43.0


From 88d43732911a47e0f5b7827cbb4828b8caaeef99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:16 +0000
Subject: [PATCH 007/138] fix: tiered_vector::assign of an empty range crashed

---
 seq/tiered_vector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seq/tiered_vector.hpp b/seq/tiered_vector.hpp
index f3c0991..4fed5ca 100644
--- a/seq/tiered_vector.hpp
+++ b/seq/tiered_vector.hpp
@@ -2833,7 +2833,7 @@ namespace seq
 			}
 			else
 				resize(count);
-			manager()->for_each(0, size(), [&](T& v) {
+			this->for_each(0, size(), [&](T& v) {
 				v = *first;
 				++first;
 			});
-- 
2.43.0


From 7af72bd06adbfc62e05d23bcaf695d96cbdc4514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:44 +0000
Subject: [PATCH 008/138] fix: sequence resize, resize_front and assignment
 shrinking within the end chunk popped elements forever

---
 seq/sequence.hpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/seq/sequence.hpp b/seq/sequence.hpp
index c525005..3c1c645 100644
--- a/seq/sequence.hpp
+++ b/seq/sequence.hpp
@@ -1284,8 +1284,10 @@ namespace seq
 				difference_type diff = static_cast<difference_type>(size() - osize);
 
 				// empty last chunk
-				while (last == d_data->end.prev && diff--)
+				while (diff && last == d_data->end.prev) {
 					pop_back();
+					--diff;
+				}
 
 				while (diff > static_cast<difference_type>(chunk_type::count)) {
 					// Destroy full chunks
@@ -1807,8 +1809,10 @@ namespace seq
 				difference_type diff = static_cast<difference_type>(size() - new_size);
 
 				// empty last chunk
-				while (last == d_data->end.prev && diff--)
+				while (diff && last == d_data->end.prev) {
 					pop_back();
+					--diff;
+				}
 
 				while (diff > static_cast<difference_type>(chunk_type::count)) {
 					// destroy full chunks
@@ -1934,8 +1938,10 @@ namespace seq
 				difference_type diff = static_cast<difference_type>(size() - new_size);
 
 				// empty last chunk
-				while (front == d_data->end.next && diff--)
+				while (diff && front == d_data->end.next) {
 					pop_front();
+					--diff;
+				}
 
 				while (diff > static_cast<difference_type>(chunk_type::count)) {
 					// destroy full chunks
-- 
2.43.0


From e381c989eb39e95925fe595bbc466ff8e4774d59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:44 +0000
Subject: [PATCH 009/138] fix: sequence iterator comparison and difference with
 end() were wrong when the container has chunks of index 0 or above

---
 seq/sequence.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seq/sequence.hpp b/seq/sequence.hpp
index 3c1c645..c6f2013 100644
--- a/seq/sequence.hpp
+++ b/seq/sequence.hpp
@@ -779,7 +779,7 @@ namespace seq
 				endNode()->prev_free = endNode()->next_free = endNode();
 				endNode()->used = full;
 				endNode()->start = endNode()->end = 0;
-				endNode()->node_index = 0ULL;
+				endNode()->node_index = LLONG_MAX; // past all other nodes
 			}
 
 			SEQ_ALWAYS_INLINE auto endNode() noexcept -> chunk_type* { return static_cast<chunk_type*>(&end); }
-- 
2.43.0


From 86ac73de7ef29f66cfc7c96906a08f8faf3fba33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:44 +0000
Subject: [PATCH 010/138] fix: difference of the iterators of an empty sequence
 dereferenced a null node

---
 seq/sequence.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/seq/sequence.hpp b/seq/sequence.hpp
index c6f2013..d9ec972 100644
--- a/seq/sequence.hpp
+++ b/seq/sequence.hpp
@@ -351,6 +351,8 @@ namespace seq
 			// Distance between iterators
 			static auto distance(const sequence_const_iterator& it1, const sequence_const_iterator& it2) -> difference_type
 			{
+				if (it1 == it2)
+					return 0; // includes null iterators of an empty sequence
 				if (it1.node == it2.node) {
 					// Same node
 					if (it1.pos > it2.pos) {
-- 
2.43.0


From 31aea6da2282ae5b2b0ace2f748e364d8e2e7bd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:44 +0000
Subject: [PATCH 011/138] fix: sequence::sort used a chunk released by the
 preliminary compaction

---
 seq/sequence.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/seq/sequence.hpp b/seq/sequence.hpp
index d9ec972..00f943b 100644
--- a/seq/sequence.hpp
+++ b/seq/sequence.hpp
@@ -914,6 +914,9 @@ namespace seq
 					if (node->start == node->end) {
 						_del = node;
 						last = static_cast<chunk_type*>(node->prev);
+						// This chunk is going to be released
+						if (vec_chunk)
+							vec_chunk->pop_back();
 					}
 
 					last->next = endNode();
-- 
2.43.0


From 57bc41fb80d42d63ffb2a505b62a472aacd87e7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:44 +0000
Subject: [PATCH 012/138] fix: sequence copy assignment propagating an unequal
 allocator leaked the elements and chunks

---
 seq/sequence.hpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/seq/sequence.hpp b/seq/sequence.hpp
index 00f943b..d764a2e 100644
--- a/seq/sequence.hpp
+++ b/seq/sequence.hpp
@@ -1469,10 +1469,8 @@ namespace seq
 			if (this != std::addressof(other)) {
 
 				if constexpr (assign_alloc<Allocator>::value) {
-					if (get_allocator() != other.get_allocator()) {
-						destroy_data(d_data);
-						d_data = nullptr;
-					}
+					if (get_allocator() != other.get_allocator())
+						clear();
 				}
 				assign_allocator(get_allocator(), other.get_allocator());
 
-- 
2.43.0


From 6bd9bc492f91aef63f16667c1d9a9763f03540a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:22 +0000
Subject: [PATCH 013/138] fix: comparison of the iterators of an empty sequence
 dereferenced a null node

---
 seq/sequence.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/seq/sequence.hpp b/seq/sequence.hpp
index d764a2e..4258891 100644
--- a/seq/sequence.hpp
+++ b/seq/sequence.hpp
@@ -471,12 +471,12 @@ namespace seq
 		template<class List>
 		SEQ_ALWAYS_INLINE bool operator>(const sequence_const_iterator<List>& a, const sequence_const_iterator<List>& b) noexcept
 		{
-			return (a.node->node_index > b.node->node_index) || ((a.node->node_index == b.node->node_index) && ((a.pos) > (b.pos)));
+			return a != b && ((a.node->node_index > b.node->node_index) || ((a.node->node_index == b.node->node_index) && ((a.pos) > (b.pos))));
 		}
 		template<class List>
 		SEQ_ALWAYS_INLINE bool operator<(const sequence_const_iterator<List>& a, const sequence_const_iterator<List>& b) noexcept
 		{
-			return (a.node->node_index < b.node->node_index) || ((a.node->node_index == b.node->node_index) && ((a.pos) < (b.pos)));
+			return a != b && ((a.node->node_index < b.node->node_index) || ((a.node->node_index == b.node->node_index) && ((a.pos) < (b.pos))));
 		}
 		template<class List>
 		SEQ_ALWAYS_INLINE bool operator>=(const sequence_const_iterator<List>& a, const sequence_const_iterator<List>& b) noexcept
-- 
2.43.0


From f4ca1db133a36574fbd941c2d5b63a6645adc983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:01 +0000
Subject: [PATCH 014/138] fix: sequence::capacity counted 64 elements per chunk
 whatever the chunk size

---
 seq/sequence.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seq/sequence.hpp b/seq/sequence.hpp
index 4258891..0552bcc 100644
--- a/seq/sequence.hpp
+++ b/seq/sequence.hpp
@@ -1525,7 +1525,7 @@ namespace seq
 		SEQ_ALWAYS_INLINE auto empty() const noexcept -> bool { return !d_data || d_data->size == 0; }
 
 		/// @brief Returns the number of elements that the container has currently allocated space for.
-		SEQ_ALWAYS_INLINE auto capacity() const noexcept -> size_t { return d_data ? d_data->get_capacity() * 64ULL : 0; }
+		SEQ_ALWAYS_INLINE auto capacity() const noexcept -> size_t { return d_data ? d_data->get_capacity() * count : 0; }
 
 		/// @brief Returns the back sequence value.
 		SEQ_ALWAYS_INLINE auto back() const noexcept -> const T&
-- 
2.43.0


From e72d25f5810ed20a53bbb8f8b87cfa34a454ff32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:49 +0000
Subject: [PATCH 015/138] fix: net_sort was not stable because of the sorting
 network used for blocks of 8 elements

---
 seq/algorithm.hpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/seq/algorithm.hpp b/seq/algorithm.hpp
index b3a6f5e..f83ee59 100644
--- a/seq/algorithm.hpp
+++ b/seq/algorithm.hpp
@@ -838,13 +838,13 @@ namespace seq
 		template<class T, class Cmp>
 		SEQ_ALWAYS_INLINE void network_sort_8(T&& a0, T&& a1, T&& a2, T&& a3, T&& a4, T&& a5, T&& a6, T&& a7, Cmp cmp)
 		{
-			CHECK_4_NO_OVERLAPP(0, 1, 2, 3, 4, 5, 6, 7);
-			CHECK_4_NO_OVERLAPP(0, 2, 1, 3, 4, 6, 5, 7);
-			CHECK_4_NO_OVERLAPP(0, 4, 1, 5, 2, 6, 3, 7);
-			CHECK_2_NO_OVERLAPP(2, 4, 3, 5);
-			CHECK_2_NO_OVERLAPP(1, 4, 3, 6);
-			CHECK_2_NO_OVERLAPP(1, 2, 3, 4);
-			CHECK_2(5, 6);
+			// Odd-even transposition network: as it only exchanges
+			// adjacent elements, equivalent ones keep their order.
+			for (int i = 0; i < 4; ++i) {
+				CHECK_4_NO_OVERLAPP(0, 1, 2, 3, 4, 5, 6, 7);
+				CHECK_2_NO_OVERLAPP(1, 2, 3, 4);
+				CHECK_2(5, 6);
+			}
 		}
 
 #undef CHECK_2
-- 
2.43.0


From 44650c6f3b8f82ef8f9fd943e95cc8d46f0c6923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:58 +0000
Subject: [PATCH 016/138] fix: seq::unique kept duplicates of elements that had
 been moved

---
 seq/algorithm.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/seq/algorithm.hpp b/seq/algorithm.hpp
index f83ee59..4698125 100644
--- a/seq/algorithm.hpp
+++ b/seq/algorithm.hpp
@@ -1419,10 +1419,13 @@ namespace seq
 
 		auto loc = first++;
 		for (; first != last; ++first) {
-			if (!set.emplace(std::addressof(*first))) {
+			if (set.contains(std::addressof(*first))) {
 				continue;
 			}
-			*loc++ = std::move(*first);
+			// Register the new location of the element
+			*loc = std::move(*first);
+			set.emplace(std::addressof(*loc));
+			++loc;
 		}
 		return loc;
 	}
-- 
2.43.0


From 9897899f3184268647afef763388337ab0727258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:41 +0000
Subject: [PATCH 017/138] fix: debug assertion of the in-place merge ignored
 the comparator and aborted on correct results

---
 seq/algorithm.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seq/algorithm.hpp b/seq/algorithm.hpp
index 4698125..e2a5eaf 100644
--- a/seq/algorithm.hpp
+++ b/seq/algorithm.hpp
@@ -642,7 +642,7 @@ namespace seq
 			// Recurse on each range
 			merge_adaptive_n<true>(f0_0, n0_0, f0_1, n0_1, iter_next(f0_1, n0_1), r, buffer);
 			merge_adaptive_n<true>(f1_0, n1_0, f1_1, n1_1, iter_next(f1_1, n1_1), r, buffer);
-			SEQ_ALGO_ASSERT_DEBUG(std::is_sorted(f0, e1), "");
+			SEQ_ALGO_ASSERT_DEBUG(std::is_sorted(f0, e1, r), "");
 		}
 
 		template<class Iter, class Cmp>
-- 
2.43.0


From fcac3164928e31147988423cb031f8653223ef44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:37 +0000
Subject: [PATCH 018/138] fix: sequence::shrink_to_fit left the last chunk with
 stale links to other partially free chunks

---
 seq/sequence.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/seq/sequence.hpp b/seq/sequence.hpp
index 0552bcc..38bafde 100644
--- a/seq/sequence.hpp
+++ b/seq/sequence.hpp
@@ -945,8 +945,10 @@ namespace seq
 				chunk_type* last = static_cast<chunk_type*>(endNode()->prev);
 				if (last->used == full)
 					endNode()->prev_free = endNode()->next_free = endNode();
-				else
+				else {
 					endNode()->prev_free = endNode()->next_free = last;
+					last->prev_free = last->next_free = endNode();
+				}
 			}
 
 			// Returns a const_iterator at given position
-- 
2.43.0


From 1dd31c84a9c3de65396adbed9ec038f5d7037a0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:05 +0000
Subject: [PATCH 019/138] fix: in-place merging of reverse iterators moved
 elements onto themselves

---
 seq/algorithm.hpp | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/seq/algorithm.hpp b/seq/algorithm.hpp
index e2a5eaf..c67b077 100644
--- a/seq/algorithm.hpp
+++ b/seq/algorithm.hpp
@@ -202,20 +202,26 @@ namespace seq
 			return it - d;
 		}
 
+		// Remove all std::move_iterator and std::reverse_iterator adaptors, in any nesting order
 		template<class Iter>
-		auto unwrap_iter(Iter it) noexcept
+		struct is_iter_adaptor : std::false_type
 		{
-			return it;
-		}
+		};
 		template<class Iter>
-		auto unwrap_iter(std::move_iterator<Iter> it) noexcept
+		struct is_iter_adaptor<std::move_iterator<Iter>> : std::true_type
 		{
-			return unwrap_iter(it.base());
-		}
+		};
 		template<class Iter>
-		auto unwrap_iter(std::reverse_iterator<Iter> it) noexcept
+		struct is_iter_adaptor<std::reverse_iterator<Iter>> : std::true_type
 		{
-			return unwrap_iter(it.base());
+		};
+		template<class Iter>
+		auto unwrap_iter(Iter it) noexcept
+		{
+			if constexpr (is_iter_adaptor<Iter>::value)
+				return unwrap_iter(it.base());
+			else
+				return it;
 		}
 
 		// compare iterators for equality without triggering compile error
-- 
2.43.0


From f98f85846acaac2582dc70b9f019d1b741464a21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:05 +0000
Subject: [PATCH 020/138] fix: unbalanced in-place merge moved the elements
 already in place onto themselves

---
 seq/algorithm.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/seq/algorithm.hpp b/seq/algorithm.hpp
index c67b077..0ad6135 100644
--- a/seq/algorithm.hpp
+++ b/seq/algorithm.hpp
@@ -379,6 +379,9 @@ namespace seq
 							auto found = std::upper_bound(first1, end1, *first2, c);
 							out = copy_internal(first1, found, out);
 							first1 = found;
+							if (first1 == end1)
+								// The end of the second range might already be in place
+								break;
 						}
 						*out++ = (*first2);
 					}
-- 
2.43.0


From 90939e571415a90f98241b07c513da1143ff10cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:15 +0000
Subject: [PATCH 021/138] fix: flat containers could not be built, assigned or
 inserted from ranges without random access

---
 seq/flat_map.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/seq/flat_map.hpp b/seq/flat_map.hpp
index c357539..22cb1b2 100644
--- a/seq/flat_map.hpp
+++ b/seq/flat_map.hpp
@@ -477,7 +477,7 @@ namespace seq
 					++count;
 				}
 				while (first != last) {
-					push_back(*first);
+					d_deque.push_back(*first);
 					if (sorted) {
 						if ((*this)(*first, *prev))
 							sorted = false;
@@ -491,7 +491,7 @@ namespace seq
 				}
 
 				// Resize if the tiered_vector was bigger
-				resize(count);
+				d_deque.resize(count);
 
 				// Sort if necessary, remove non unique values if necessary
 				if (!sorted)
-- 
2.43.0


From f663a05ba432f59781325c024902ce4e16fea271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:15 +0000
Subject: [PATCH 022/138] fix: flat containers range insertion wrote past the
 end for ranges without random access

---
 seq/flat_map.hpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/seq/flat_map.hpp b/seq/flat_map.hpp
index 22cb1b2..e6c0224 100644
--- a/seq/flat_map.hpp
+++ b/seq/flat_map.hpp
@@ -751,14 +751,12 @@ namespace seq
 					d_deque.resize(std::distance(first, last) + size_before);
 
 				// Append input to tiered_vector
-				auto dit = d_deque.begin() + static_cast<difference_type>(size_before);
 				if constexpr (is_random_access_v<InputIt>)
-					std::copy(first, last, dit);
+					std::copy(first, last, d_deque.begin() + static_cast<difference_type>(size_before));
 				else {
 					while (first != last) {
-						*dit = *first;
+						d_deque.push_back(*first);
 						++first;
-						++dit;
 					}
 				}
 
-- 
2.43.0


From d99d3759ccfe3095f57ba4c9e7cbf4dc702ea217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:15 +0000
Subject: [PATCH 023/138] fix: flat containers insertion and assignment of
 initializer lists and of sorted_equivalent ranges did not compile

---
 seq/flat_map.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/seq/flat_map.hpp b/seq/flat_map.hpp
index e6c0224..b053a93 100644
--- a/seq/flat_map.hpp
+++ b/seq/flat_map.hpp
@@ -775,7 +775,7 @@ namespace seq
 				d_deque.manager()->update_all_back_values();
 			}
 
-			template<class InputIt, class Tag>
+			template<class Tag>
 			void insert(std::initializer_list<value_type> ilist, Tag t)
 			{
 				insert(ilist.begin(), ilist.end(), t);
@@ -1628,7 +1628,7 @@ namespace seq
 		}
 		auto operator=(const std::initializer_list<value_type>& init) -> flat_multiset&
 		{
-			static_cast<base_type&>(this) = init;
+			static_cast<base_type&>(*this) = init;
 			return *this;
 		}
 
@@ -1646,11 +1646,11 @@ namespace seq
 		template<class InputIt>
 		SEQ_ALWAYS_INLINE void insert(sorted_equivalent_t, InputIt first, InputIt last)
 		{
-			base_type::insert(sorted_equivalent_t{}, first, last);
+			base_type::insert(sorted_unique_t{}, first, last);
 		}
 
 		SEQ_ALWAYS_INLINE void insert(std::initializer_list<value_type> ilist) { base_type::insert(ilist); }
-		SEQ_ALWAYS_INLINE void insert(sorted_equivalent_t, std::initializer_list<value_type> ilist) { base_type::insert(sorted_equivalent_t{}, ilist); }
+		SEQ_ALWAYS_INLINE void insert(sorted_equivalent_t, std::initializer_list<value_type> ilist) { base_type::insert(sorted_unique_t{}, ilist); }
 
 		SEQ_ALWAYS_INLINE auto insert_pos(const value_type& value) -> size_t { return base_type::insert_pos(value).first; }
 		SEQ_ALWAYS_INLINE auto insert_pos(value_type&& value) -> size_t { return base_type::insert_pos(std::move(value)).first; }
@@ -2190,7 +2190,7 @@ namespace seq
 		}
 		auto operator=(const std::initializer_list<value_type>& init) -> flat_multimap&
 		{
-			static_cast<base_type&>(this) = init;
+			static_cast<base_type&>(*this) = init;
 			return *this;
 		}
 
-- 
2.43.0


From 0b255958c25c43c9afe9261611eea7c43313e658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:15 +0000
Subject: [PATCH 024/138] fix: equal_range of flat_set and flat_map returned
 the next element for an absent key

---
 seq/flat_map.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/seq/flat_map.hpp b/seq/flat_map.hpp
index b053a93..f7faf87 100644
--- a/seq/flat_map.hpp
+++ b/seq/flat_map.hpp
@@ -885,7 +885,7 @@ namespace seq
 				if (low == end())
 					return std::pair<iterator, iterator>(low, low);
 				if constexpr (Unique)
-					return std::pair<iterator, iterator>(low, low + 1);
+					return std::pair<iterator, iterator>(low, base()(x, *low) ? low : low + 1);
 				iterator up = upper_bound(x);
 				return std::pair<iterator, iterator>(low, up);
 			}
@@ -894,11 +894,11 @@ namespace seq
 			{
 				const_iterator low = lower_bound(x);
 				if (low == end())
-					return std::pair<iterator, iterator>(low, low);
+					return std::pair<const_iterator, const_iterator>(low, low);
 				if constexpr (Unique)
-					return std::pair<iterator, iterator>(low, low + 1);
+					return std::pair<const_iterator, const_iterator>(low, base()(x, *low) ? low : low + 1);
 				const_iterator up = upper_bound(x);
-				return std::pair<iterator, iterator>(low, up);
+				return std::pair<const_iterator, const_iterator>(low, up);
 			}
 			template<class K>
 			SEQ_INLINE_BINARY_SEARCH auto equal_range_pos(const K& x) const -> std::pair<size_t, size_t>
@@ -907,7 +907,7 @@ namespace seq
 				if (low == size())
 					return std::pair<size_t, size_t>(low, low);
 				if constexpr (Unique)
-					return std::pair<size_t, size_t>(low, low + 1);
+					return std::pair<size_t, size_t>(low, base()(x, d_deque[low]) ? low : low + 1);
 				size_t up = upper_bound_pos(x);
 				return std::pair<size_t, size_t>(low, up);
 			}
-- 
2.43.0


From 8d1492f5a99e37e907f2ef7865a73d3d79e5b284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:15 +0000
Subject: [PATCH 025/138] fix: erase_if on a flat container which never held an
 element dereferenced a null pointer

---
 seq/flat_map.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/seq/flat_map.hpp b/seq/flat_map.hpp
index f7faf87..de57522 100644
--- a/seq/flat_map.hpp
+++ b/seq/flat_map.hpp
@@ -2284,7 +2284,8 @@ namespace seq
 		auto it = std::remove_if(d.begin(), d.end(), p);
 		size_t res = d.end() - it;
 		d.erase(it, d.end());
-		d.manager()->update_all_back_values();
+		if (d.manager())
+			d.manager()->update_all_back_values();
 		return res;
 	}
 
@@ -2319,7 +2320,8 @@ namespace seq
 		auto it = std::remove_if(d.begin(), d.end(), p);
 		size_t res = d.end() - it;
 		d.erase(it, d.end());
-		d.manager()->update_all_back_values();
+		if (d.manager())
+			d.manager()->update_all_back_values();
 		return res;
 	}
 
-- 
2.43.0


From 1d4868c3e6fe81f1d30c9bf87ca8bea980e669dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:15 +0000
Subject: [PATCH 026/138] fix: replace() of flat containers used stale bucket
 values after the elements of the container were modified

---
 seq/flat_map.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/seq/flat_map.hpp b/seq/flat_map.hpp
index de57522..bfa6813 100644
--- a/seq/flat_map.hpp
+++ b/seq/flat_map.hpp
@@ -644,6 +644,9 @@ namespace seq
 			{
 				SEQ_ASSERT_DEBUG(std::is_sorted(c.begin(), c.end(), base()), "");
 				d_deque = std::move(c);
+				// The container elements might have been modified through references
+				if (d_deque.manager())
+					d_deque.manager()->update_all_back_values();
 			}
 
 			void swap(flat_tree& other) noexcept(noexcept(std::declval<container_type&>().swap(std::declval<container_type&>())) &&
-- 
2.43.0


From 2b02d398aee4c489ea4866e6da2659b9b001a99d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:05 +0000
Subject: [PATCH 027/138] fix: merge of flat containers compared values with
 operator==, left stale bucket values and did not compile for maps

---
 seq/flat_map.hpp | 52 +++++++++++++++++++++++++++++++++++-------------
 1 file changed, 38 insertions(+), 14 deletions(-)

diff --git a/seq/flat_map.hpp b/seq/flat_map.hpp
index bfa6813..d9c4dd6 100644
--- a/seq/flat_map.hpp
+++ b/seq/flat_map.hpp
@@ -356,7 +356,7 @@ namespace seq
 					}
 					if (first1 != last1) {
 						// skip equals elements
-						while (first2 != last2 && *first2 == *first1) {
+						while (first2 != last2 && !less(*first1, *first2)) {
 							if (remaining) {
 								*it_rem = std::move(*first2);
 								++it_rem;
@@ -388,7 +388,7 @@ namespace seq
 					}
 					if (first1 != last1) {
 						// skip equals elements
-						while (first2 != last2 && *first2 == *first1) {
+						while (first2 != last2 && !less(*first1, *first2)) {
 							if (remaining) {
 								remaining->push_back(std::move(*first2));
 							}
@@ -915,21 +915,39 @@ namespace seq
 				return std::pair<size_t, size_t>(low, up);
 			}
 
-			template<class C2, bool Unique2>
-			void merge(flat_tree<Key, Key, C2, Allocator, Unique2>& source)
+			template<class C2, bool Stable2, bool Unique2>
+			void merge(flat_tree<Key, Value, C2, Allocator, Stable2, Unique2>& source)
 			{
-				if (Unique) {
-					container_type out;
-					typename flat_tree<Key, Key, C2, Allocator, Unique2>::container_type rem;
-					detail::unique_merge_move(out, begin(), end(), source.begin(), source.end(), base(), &rem);
-					d_deque = std::move(out);
+				if (source.empty() || static_cast<void*>(this) == static_cast<void*>(&source))
+					return;
+				// The source might be sorted with another comparison function
+				if constexpr (Unique) {
+					container_type out(get_allocator());
+					container_type rem(source.get_allocator());
+					const bool strictly_sorted =
+					  std::adjacent_find(source.begin(), source.end(), [this](const auto& l, const auto& r) { return !this->base()(l, r); }) == source.end();
+					if (strictly_sorted) {
+						detail::unique_merge_move(out, begin(), end(), source.begin(), source.end(), base(), &rem);
+						out.manager()->update_all_back_values();
+						d_deque = std::move(out);
+					}
+					else {
+						for (auto& v : source.d_deque)
+							if (!emplace_pos(FlatEmplacePolicy{}, std::move(v)).second)
+								rem.push_back(std::move(v));
+					}
+					if (rem.manager())
+						rem.manager()->update_all_back_values();
 					source.d_deque = std::move(rem);
 				}
 				else {
 					// add elements from source to this tiered_vector
 					size_t before_size = size();
-					d_deque.insert(d_deque.end(), source.begin(), source.end());
+					d_deque.insert(d_deque.end(), std::make_move_iterator(source.begin()), std::make_move_iterator(source.end()));
+					if (!std::is_sorted(d_deque.begin() + before_size, d_deque.end(), base()))
+						net_sort(d_deque.begin() + before_size, d_deque.end(), base());
 					std::inplace_merge(d_deque.begin(), d_deque.begin() + before_size, d_deque.end(), base());
+					d_deque.manager()->update_all_back_values();
 					source.clear();
 				}
 			}
@@ -1063,6 +1081,9 @@ namespace seq
 	template<class Key, class Compare = std::less<>, class Allocator = std::allocator<Key>, bool Stable = false, bool Unique = true>
 	class flat_set
 	{
+		template<class, class, class, bool, bool>
+		friend class flat_set;
+
 		using flat_tree_type = detail::flat_tree<Key, Key, Compare, Allocator, Stable, Unique>;
 		flat_tree_type d_tree;
 
@@ -1500,8 +1521,8 @@ namespace seq
 		/// @brief Attempts to extract each element in source and insert it into this using the comparison object of this.
 		/// If there is an element in this with key equivalent to the key of an element from source, then that element is not extracted from source.
 		/// Note that elements from source are moved to this.
-		template<class C2>
-		SEQ_ALWAYS_INLINE void merge(flat_set<Key, C2, Allocator>& source)
+		template<class C2, bool S2, bool U2>
+		SEQ_ALWAYS_INLINE void merge(flat_set<Key, C2, Allocator, S2, U2>& source)
 		{
 			d_tree.merge(source.d_tree);
 		}
@@ -1689,6 +1710,9 @@ namespace seq
 	template<class Key, class T, class Compare = std::less<>, class Allocator = std::allocator<std::pair<Key, T>>, bool Stable = false, bool Unique = true>
 	class flat_map
 	{
+		template<class, class, class, class, bool, bool>
+		friend class flat_map;
+
 		using flat_tree_type = detail::flat_tree<Key, std::pair<Key, T>, Compare, Allocator, Stable, Unique>;
 		flat_tree_type d_tree;
 
@@ -2072,8 +2096,8 @@ namespace seq
 		}
 		SEQ_ALWAYS_INLINE auto equal_range_pos(const Key& x) const -> std::pair<size_t, size_t> { return d_tree.equal_range_pos(x); }
 
-		template<class C2>
-		SEQ_ALWAYS_INLINE void merge(flat_map<Key, T, C2, Allocator>& source)
+		template<class C2, bool S2, bool U2>
+		SEQ_ALWAYS_INLINE void merge(flat_map<Key, T, C2, Allocator, S2, U2>& source)
 		{
 			d_tree.merge(source.d_tree);
 		}
-- 
2.43.0


From 73756318127779c594e251d44cf42519d3764285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:56 +0000
Subject: [PATCH 028/138] fix: lookups in an emptied flat container, and the
 removal of its last element, read a destroyed key

---
 seq/flat_map.hpp      | 2 +-
 seq/tiered_vector.hpp | 6 ++++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/seq/flat_map.hpp b/seq/flat_map.hpp
index d9c4dd6..c82b832 100644
--- a/seq/flat_map.hpp
+++ b/seq/flat_map.hpp
@@ -224,7 +224,7 @@ namespace seq
 		SEQ_INLINE_BINARY_SEARCH auto tvector_lower_bound(const Deque& d, const U& value, const Less& le) noexcept(noexcept(le(std::declval<typename Deque::value_type&>(), value)))
 		  -> std::pair<size_t, bool>
 		{
-			if SEQ_UNLIKELY (!d.manager())
+			if SEQ_UNLIKELY (d.empty())
 				return { 0, false };
 
 			using T = typename Deque::value_type;
diff --git a/seq/tiered_vector.hpp b/seq/tiered_vector.hpp
index 4fed5ca..48da22d 100644
--- a/seq/tiered_vector.hpp
+++ b/seq/tiered_vector.hpp
@@ -1236,7 +1236,8 @@ namespace seq
 			SEQ_ALWAYS_INLINE void update() noexcept
 			{
 				// Update back value
-				back_value = &ValueCompare::key((bucket)->back());
+				if SEQ_LIKELY (bucket->size)
+					back_value = &ValueCompare::key((bucket)->back());
 			}
 			SEQ_ALWAYS_INLINE auto back() const noexcept -> const typename ValueCompare::key_type&
 			{
@@ -1268,7 +1269,8 @@ namespace seq
 			SEQ_ALWAYS_INLINE void update() noexcept
 			{
 				// Update back value
-				back_value = ValueCompare::key((bucket)->back());
+				if SEQ_LIKELY (bucket->size)
+					back_value = ValueCompare::key((bucket)->back());
 			}
 			SEQ_ALWAYS_INLINE auto back() const noexcept -> typename ValueCompare::key_type { return back_value; }
 			SEQ_ALWAYS_INLINE auto operator->() noexcept -> CircularBuffer<T>* { return bucket; }
-- 
2.43.0


From b0450e7c8e982a0d5ad3db507327d285beba183d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:54 +0000
Subject: [PATCH 029/138] fix: sorting of a tiered_vector counted a bucket
 removed while filling the front bucket

---
 seq/tiered_vector.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/seq/tiered_vector.hpp b/seq/tiered_vector.hpp
index 48da22d..bb348eb 100644
--- a/seq/tiered_vector.hpp
+++ b/seq/tiered_vector.hpp
@@ -2442,7 +2442,6 @@ namespace seq
 					return 0;
 
 				size_t bucket_idx = (size_t)this->indexes(start_idx).first;
-				size_t bucket_count = d_buckets.size() - bucket_idx;
 
 				size_t size_before = 0;
 				if (bucket_idx)
@@ -2469,6 +2468,9 @@ namespace seq
 					}
 				}
 
+				// The back bucket might have been removed
+				const size_t bucket_count = d_buckets.size() - bucket_idx;
+
 				// Create buffer to sort buckets
 				std::vector<T> buf(count / 2);
 
-- 
2.43.0


From 9cf49992f8620d006f5000c7befb4b101dcc3995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:51 +0000
Subject: [PATCH 030/138] fix: flat containers built from move iterators
 compared moved-from elements and could be left unsorted

---
 seq/flat_map.hpp | 51 +++++++++++++++---------------------------------
 1 file changed, 16 insertions(+), 35 deletions(-)

diff --git a/seq/flat_map.hpp b/seq/flat_map.hpp
index c82b832..f35fd66 100644
--- a/seq/flat_map.hpp
+++ b/seq/flat_map.hpp
@@ -451,41 +451,22 @@ namespace seq
 
 				// Copy the range [first,last) to the tiered_vector using already allocated memory
 
-				Iter prev = first;
-				size_type count = 1;
-				if (d_deque.size() > 0) {
-					*it = *first;
-					++it;
-					++first;
-				}
-				else {
-					d_deque.push_back(*first);
-					++first;
-				}
-
-				while (it != en && first != last) {
-					*it = *first;
-					if (sorted) {
-						if ((*this)(*first, *prev))
-							sorted = false;
-						else if (Unique && !(*this)(*prev, *first))
-							unique = false;
-					}
-					++it;
-					prev = first;
-					++first;
-					++count;
-				}
+				size_type count = 0;
 				while (first != last) {
-					d_deque.push_back(*first);
-					if (sorted) {
-						if ((*this)(*first, *prev))
+					if (it != en) {
+						*it = *first;
+						++it;
+					}
+					else
+						d_deque.push_back(*first);
+					if (sorted && count) {
+						const auto& prev = d_deque[count - 1];
+						const auto& cur = d_deque[count];
+						if ((*this)(cur, prev))
 							sorted = false;
-						else if (Unique && !(*this)(*prev, *first))
+						else if (Unique && !(*this)(prev, cur))
 							unique = false;
-						prev = first;
 					}
-
 					++first;
 					++count;
 				}
@@ -514,18 +495,18 @@ namespace seq
 				bool sorted = true;
 				bool unique = true;
 
-				Iter prev = first;
+				auto prev = it;
 				*it = *first;
 				++it;
 				++first;
 				while (first != last && sorted) {
 					*it = *first;
 
-					if ((*this)(*first, *prev))
+					if ((*this)(*it, *prev))
 						sorted = false;
-					else if (Unique && !(*this)(*prev, *first))
+					else if (Unique && !(*this)(*prev, *it))
 						unique = false;
-					prev = first;
+					prev = it;
 
 					++it;
 					++first;
-- 
2.43.0


From f6dab0b40d0b9beb52bc35d5c456d3ba6d11b2fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:32 +0000
Subject: [PATCH 031/138] fix: radix_set/radix_map::merge did not compile

---
 seq/internal/radix_tree.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seq/internal/radix_tree.hpp b/seq/internal/radix_tree.hpp
index 3c129f2..0738a5a 100644
--- a/seq/internal/radix_tree.hpp
+++ b/seq/internal/radix_tree.hpp
@@ -1991,7 +1991,7 @@ namespace seq
 
 				auto it = other.begin();
 				while (it != other.end()) {
-					if (this->insert(std::move(const_cast<value_type&>(*it))).second)
+					if (this->emplace(std::move(const_cast<value_type&>(*it))).second)
 						it = other.erase(it);
 					else
 						++it;
-- 
2.43.0


From 3784e8226424ad07ed36270f4e0ad846e86576de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:15 +0000
Subject: [PATCH 032/138] fix: radix tree rebalancing copied the elements of
 vector nodes instead of moving them

---
 seq/internal/radix_tree.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seq/internal/radix_tree.hpp b/seq/internal/radix_tree.hpp
index 0738a5a..e1cff20 100644
--- a/seq/internal/radix_tree.hpp
+++ b/seq/internal/radix_tree.hpp
@@ -3001,7 +3001,7 @@ namespace seq
 							auto* vec = dir->child(pos).to_vector();
 							for (unsigned i = 0; i < vec->size(); ++i) {
 								if (it.dir != dir || it.child != pos || it.node_pos != i)
-									this->emplace(std::move(vec->at(i)));
+									this->emplace(std::move(const_cast<T&>(vec->at(i))));
 							}
 						}
 					});
-- 
2.43.0


From 5570737ef1720ffeba1d78b98f281976b9b01f65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:44 +0000
Subject: [PATCH 033/138] fix: radix_set/radix_map::equal_range returned (end,
 end) for absent keys

---
 seq/radix_map.hpp | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/seq/radix_map.hpp b/seq/radix_map.hpp
index e4ef92c..ba0b7d0 100644
--- a/seq/radix_map.hpp
+++ b/seq/radix_map.hpp
@@ -384,10 +384,8 @@ namespace seq
 		template<class K>
 		SEQ_ALWAYS_INLINE auto equal_range(const K& key) const -> std::pair<iterator, iterator>
 		{
-			auto it = d_tree.find(key);
-			if (it == d_tree.end())
-				return std::pair<iterator, iterator>(d_tree.end(), d_tree.end());
-			auto start = it++;
+			auto start = d_tree.lower_bound(key);
+			auto it = d_tree.upper_bound(key);
 			return std::pair<iterator, iterator>(start, it);
 		}
 
@@ -968,20 +966,16 @@ namespace seq
 		template<class K>
 		SEQ_ALWAYS_INLINE auto equal_range(const K& key) -> std::pair<iterator, iterator>
 		{
-			auto it = d_tree.find(key);
-			if (it == d_tree.end())
-				return std::pair<iterator, iterator>(d_tree.end(), d_tree.end());
-			auto start = it++;
+			auto start = d_tree.lower_bound(key);
+			auto it = d_tree.upper_bound(key);
 			return std::pair<iterator, iterator>(start, it);
 		}
 
 		template<class K>
 		SEQ_ALWAYS_INLINE auto equal_range(const K& key) const -> std::pair<const_iterator, const_iterator>
 		{
-			auto it = d_tree.find(key);
-			if (it == d_tree.end())
-				return std::pair<const_iterator, const_iterator>(d_tree.end(), d_tree.end());
-			auto start = it++;
+			auto start = d_tree.lower_bound(key);
+			auto it = d_tree.upper_bound(key);
 			return std::pair<const_iterator, const_iterator>(start, it);
 		}
 
-- 
2.43.0


From 3ab83504ca013eda784b58acf2b71dfbef2c5738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:28 +0000
Subject: [PATCH 034/138] fix: radix tree: wrong ordering of keys made of
 signed, floating point or 64 bits elements

---
 seq/internal/radix_tree.hpp | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/seq/internal/radix_tree.hpp b/seq/internal/radix_tree.hpp
index e1cff20..5838c89 100644
--- a/seq/internal/radix_tree.hpp
+++ b/seq/internal/radix_tree.hpp
@@ -384,22 +384,24 @@ namespace seq
 					type* p = reinterpret_cast<type*>(&hash);
 					unsigned_type* up = reinterpret_cast<unsigned_type*>(&hash);
 					static_assert(!std::is_const_v<T>, " const type!");
+					// Number of existing elements: the missing ones must remain null
+					// (lowest value) in order to keep shorter keys before longer ones
+					const size_t count_elems = char_offset < size ? size - char_offset : 0;
 					if constexpr (sizeof(type) == 2) {
-						up[0] = swap_b(to_uint(p[0]));
-						up[1] = swap_b(to_uint(p[1]));
-						up[2] = swap_b(to_uint(p[2]));
-						up[3] = swap_b(to_uint(p[3]));
+						for (size_t i = 0; i < 4 && i < count_elems; ++i)
+							up[i] = swap_b(to_uint(p[i]));
 						hash = swap_b(hash);
 					}
 					else if constexpr (sizeof(type) == 4) {
-						up[0] = swap_b(to_uint(p[0]));
-						up[1] = swap_b(to_uint(p[1]));
+						for (size_t i = 0; i < 2 && i < count_elems; ++i)
+							up[i] = swap_b(to_uint(p[i]));
 						hash = swap_b(hash);
 					}
 					else {
 						// no byte swap here, just plain old bits manipulation
-						up[0] = to_uint(p[0]);
-						if (shift > 32 && (char_offset + 1) < size) {
+						if (count_elems)
+							up[0] = to_uint(p[0]);
+						if (byte_offset != 0 && (char_offset + 1) < size) {
 							auto hash2 = to_uint(data[char_offset + 1]);
 							hash = (hash << (byte_offset << 3u)) | (hash2 >> (64u - (byte_offset << 3u)));
 							return static_cast<unsigned>((hash << bit_offset) >> (64u - count));
-- 
2.43.0


From 7e1c9f762bddc89d7cb86319cce3257d342be2eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:13 +0000
Subject: [PATCH 035/138] fix: radix_set/radix_map: heterogeneous lookup with
 an owning string used a dangling copy of the key

---
 seq/radix_map.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/seq/radix_map.hpp b/seq/radix_map.hpp
index ba0b7d0..c753a02 100644
--- a/seq/radix_map.hpp
+++ b/seq/radix_map.hpp
@@ -49,7 +49,7 @@ namespace seq
 		{
 			SEQ_ALWAYS_INLINE const radix_key_type& operator()(const radix_key_type& p) const noexcept { return p; }
 			template<class U>
-			SEQ_ALWAYS_INLINE auto operator()(const U& p) const noexcept
+			SEQ_ALWAYS_INLINE decltype(auto) operator()(const U& p) const noexcept
 			{
 				return ExtractKey{}(p);
 			}
@@ -484,7 +484,7 @@ namespace seq
 			}
 			SEQ_ALWAYS_INLINE const radix_key_type& operator()(const radix_key_type& p) const noexcept { return p; }
 			template<class U>
-			SEQ_ALWAYS_INLINE auto operator()(const U& p) const noexcept
+			SEQ_ALWAYS_INLINE decltype(auto) operator()(const U& p) const noexcept
 			{
 				return ExtractKey{}(p);
 			}
-- 
2.43.0


From 677a4380cc83dcddfe775a6385d7584274da7a91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:09 +0000
Subject: [PATCH 036/138] fix: radix_hash_map::erase(iterator) and erase_if did
 not compile with a transparent hash

---
 seq/radix_hash_map.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/seq/radix_hash_map.hpp b/seq/radix_hash_map.hpp
index ecf36a8..4153409 100644
--- a/seq/radix_hash_map.hpp
+++ b/seq/radix_hash_map.hpp
@@ -836,6 +836,7 @@ namespace seq
 		SEQ_ALWAYS_INLINE auto operator[](const Key& key) -> T& { return try_emplace(key).first->second; }
 		SEQ_ALWAYS_INLINE auto operator[](Key&& key) -> T& { return try_emplace(std::move(key)).first->second; }
 
+		SEQ_ALWAYS_INLINE auto erase(iterator pos) -> iterator { return d_tree.erase(pos.iter); }
 		SEQ_ALWAYS_INLINE auto erase(const_iterator pos) -> iterator { return d_tree.erase(pos.iter); }
 		SEQ_ALWAYS_INLINE auto erase(const Key& key) -> size_type { return d_tree.erase(key); }
 		template<class K, class KE = KeyEqual, class H = Hash, typename std::enable_if<has_is_transparent<KE>::value && has_is_transparent<H>::value>::type* = nullptr>
-- 
2.43.0


From 5e5253b0108d4fcafc19278c709444b1096633d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:09 +0000
Subject: [PATCH 037/138] fix: radix_hash_set/map: hash_function() did not
 compile and key_eq() returned a default constructed functor

---
 seq/radix_hash_map.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/seq/radix_hash_map.hpp b/seq/radix_hash_map.hpp
index 4153409..f96a3f5 100644
--- a/seq/radix_hash_map.hpp
+++ b/seq/radix_hash_map.hpp
@@ -248,9 +248,9 @@ namespace seq
 		/// @brief Returns the container allocator object
 		SEQ_ALWAYS_INLINE auto get_allocator() const noexcept -> const allocator_type& { return d_tree.get_allocator(); }
 		/// @brief Returns the hash function
-		SEQ_ALWAYS_INLINE auto hash_function() const noexcept -> const hasher& { return d_tree.hash_function(); }
+		SEQ_ALWAYS_INLINE auto hash_function() const noexcept -> const hasher& { return static_cast<const radix_hash&>(d_tree); }
 		/// @brief Returns the equality comparison function
-		SEQ_ALWAYS_INLINE auto key_eq() const noexcept -> key_equal { return key_equal{}; }
+		SEQ_ALWAYS_INLINE auto key_eq() const noexcept -> key_equal { return static_cast<const radix_hash&>(d_tree); }
 
 		/// @brief Returns an iterator to the first element of the container.
 		SEQ_ALWAYS_INLINE auto end() noexcept -> iterator { return d_tree.end(); }
@@ -696,8 +696,8 @@ namespace seq
 		SEQ_ALWAYS_INLINE auto get_allocator() noexcept -> allocator_type& { return this->d_tree.get_allocator(); }
 		SEQ_ALWAYS_INLINE auto get_allocator() const noexcept -> const allocator_type& { return this->d_tree.get_allocator(); }
 
-		SEQ_ALWAYS_INLINE auto hash_function() const -> hasher { return this->d_tree.hash_function(); }
-		SEQ_ALWAYS_INLINE auto key_eq() const -> key_equal { return KeyEqual{}; }
+		SEQ_ALWAYS_INLINE auto hash_function() const -> hasher { return static_cast<const radix_hash&>(d_tree); }
+		SEQ_ALWAYS_INLINE auto key_eq() const -> key_equal { return static_cast<const radix_hash&>(d_tree); }
 
 		SEQ_ALWAYS_INLINE auto end() noexcept -> iterator { return this->d_tree.end(); }
 		SEQ_ALWAYS_INLINE auto end() const noexcept -> const_iterator { return this->d_tree.end(); }
-- 
2.43.0


From ff36efe651395a4bc8353d19111b7dc18a8de3ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:58 +0000
Subject: [PATCH 038/138] fix: radix_hash_set/map: swap and assignments left
 the hash and equality functors behind

---
 seq/internal/radix_tree.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/seq/internal/radix_tree.hpp b/seq/internal/radix_tree.hpp
index 5838c89..b77a5ce 100644
--- a/seq/internal/radix_tree.hpp
+++ b/seq/internal/radix_tree.hpp
@@ -1966,6 +1966,9 @@ namespace seq
 			{
 				if (std::addressof(other) != this) {
 					clear();
+					// The hash functors go with the values
+					if constexpr (!is_sorted && std::is_copy_assignable_v<Hash>)
+						static_cast<Hash&>(*this) = static_cast<const Hash&>(other);
 					assign_allocator<Allocator>(*this, other);
 					insert(other.begin(), other.end(), false);
 				}
@@ -2029,8 +2032,12 @@ namespace seq
 			void clear() { destroy_data(); }
 
 			/// @brief Swap 2 radix trees
-			void swap(RadixTree& other, bool swap_alloc = true) noexcept(noexcept(swap_allocator(std::declval<Allocator&>(), std::declval<Allocator&>())))
+			void swap(RadixTree& other, bool swap_alloc = true) noexcept(noexcept(swap_allocator(std::declval<Allocator&>(), std::declval<Allocator&>())) &&
+										     (is_sorted || !std::is_swappable_v<Hash> || std::is_nothrow_swappable_v<Hash>))
 			{
+				// The hash functors go with the values
+				if constexpr (!is_sorted && std::is_swappable_v<Hash>)
+					std::swap(static_cast<Hash&>(*this), static_cast<Hash&>(other));
 				std::swap(d_data, other.d_data);
 				std::swap(d_root, other.d_root);
 				if (swap_alloc)
-- 
2.43.0


From 429369b33bdec0100f61366230785589de4d8126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:49 +0000
Subject: [PATCH 039/138] fix: radix_hash_set/map compared keys with a default
 constructed equality functor

---
 seq/internal/radix_tree.hpp | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/seq/internal/radix_tree.hpp b/seq/internal/radix_tree.hpp
index b77a5ce..2f5bd6a 100644
--- a/seq/internal/radix_tree.hpp
+++ b/seq/internal/radix_tree.hpp
@@ -1663,6 +1663,18 @@ namespace seq
 			}
 		};
 
+		/// @brief Equal functor used by the leaves of unsorted trees, relies on the functors stored in the tree
+		template<class Hasher, class ExtractKey>
+		struct LeafEqual
+		{
+			const Hasher& h;
+			template<class U, class V>
+			bool operator()(const U& a, const V& b) const noexcept(noexcept(std::declval<const Hasher&>().equal(ExtractKey{}(a), ExtractKey{}(b))))
+			{
+				return h.equal(ExtractKey{}(a), ExtractKey{}(b));
+			}
+		};
+
 		/// @brief Sorted vector node based on seq::flat_set
 		template<class T, class Hasher, class ExtractKey, class Allocator, bool sorted = true>
 		struct VectorNode
@@ -1819,7 +1831,14 @@ namespace seq
 			/// @brief Less structure operating on keys
 			using Less = VectorLess<Hash, ExtractKey>;
 			/// @brief Equal structure operating on keys
-			using Equal = VectorEqual<Hash, ExtractKey>;
+			using Equal = std::conditional_t<is_sorted, VectorEqual<Hash, ExtractKey>, LeafEqual<Hash, ExtractKey>>;
+			SEQ_ALWAYS_INLINE Equal leaf_equal() const noexcept
+			{
+				if constexpr (is_sorted)
+					return Equal{};
+				else
+					return Equal{ static_cast<const Hash&>(*this) };
+			}
 
 			/// @brief Internal data
 			struct PrivateData
@@ -2743,7 +2762,7 @@ namespace seq
 			insert_in_leaf(directory* dir, node* child, size_t hash_bits, unsigned pos, const_hash_ref hash, std::uint8_t th, Policy policy, K&& key, Args&&... args)
 			{
 				// find key in node
-				auto found = child->template find_insert<EnsureSorted, extract_key_type, Equal, Less>(Equal{}, hash_bits, th, ExtractKey{}(key));
+				auto found = child->template find_insert<EnsureSorted, extract_key_type, Equal, Less>(leaf_equal(), hash_bits, th, ExtractKey{}(key));
 
 				if (found.first)
 					// key already exists!
@@ -3186,7 +3205,7 @@ namespace seq
 							return find_in_vector(d, bit_pos, pos, d->children()[pos].to_vector(), key);
 
 						case directory::IsLeaf:
-							th = d->children()[pos].to_node()->template find<extract_key_type, Equal, Less>(Equal{}, bit_pos, static_cast<std::uint8_t>(th), key);
+							th = d->children()[pos].to_node()->template find<extract_key_type, Equal, Less>(leaf_equal(), bit_pos, static_cast<std::uint8_t>(th), key);
 							if (th != static_cast<unsigned>(-1))
 								return const_iterator(d_data, d, pos, th, bit_pos);
 							return cend();
@@ -3230,7 +3249,7 @@ namespace seq
 							return find_in_vector_ptr(d, bit_pos, pos, d->children()[pos].to_vector(), key);
 
 						case directory::IsLeaf:
-							th = d->children()[pos].to_node()->template find<extract_key_type, Equal, Less>(Equal{}, bit_pos, static_cast<std::uint8_t>(th), key);
+							th = d->children()[pos].to_node()->template find<extract_key_type, Equal, Less>(leaf_equal(), bit_pos, static_cast<std::uint8_t>(th), key);
 							if (th != static_cast<unsigned>(-1))
 								return d->children()[pos].to_node()->values() + th;
 							return nullptr;
-- 
2.43.0


From 38f5294e3a7984de410b5779b3c60d17ff3ca4d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:08 +0000
Subject: [PATCH 040/138] fix: radix_hash_map equality depended on the
 iteration order

---
 seq/radix_hash_map.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/seq/radix_hash_map.hpp b/seq/radix_hash_map.hpp
index f96a3f5..8da8b62 100644
--- a/seq/radix_hash_map.hpp
+++ b/seq/radix_hash_map.hpp
@@ -877,16 +877,16 @@ namespace seq
 		}
 	};
 
-	/// @brief Checks if the contents of s1 and s2 are equal, that is, they have the same number of elements and each element in s1 compares equal with the element in s2 at the same position.
+	/// @brief Checks if the contents of s1 and s2 are equal, that is, they have the same number of elements and each element in s1 compares equal with the element of s2 having the same key.
 	template<class Key, class T, class Hash, class Equal, class L1, class L2, class Al1, class Al2>
 	auto operator==(const radix_hash_map<Key, T, Hash, Equal, Al1, L1>& s1, const radix_hash_map<Key, T, Hash, Equal, Al2, L2>& s2) -> bool
 	{
-		using value_type_extract = typename radix_hash_map<Key, T, Hash, Equal, Al1, L1>::value_type_extract;
 		if (s1.size() != s2.size())
 			return false;
-		auto it1 = s1.begin();
-		for (auto it2 = s2.begin(); it2 != s2.end(); ++it2, ++it1) {
-			if (value_type_extract{}(*it1) != value_type_extract{}(*it2) || it1->second != it2->second)
+		// The iteration order depends on the history of the tables
+		for (auto it1 = s1.begin(); it1 != s1.end(); ++it1) {
+			auto it2 = s2.find(it1->first);
+			if (it2 == s2.end() || it1->second != it2->second)
 				return false;
 		}
 		return true;
-- 
2.43.0


From d298d85a745c2893d30ca190e6f3e2cf28af8ec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:40 +0000
Subject: [PATCH 041/138] fix: radix maps: a failed try_emplace in a vector
 node moved from its arguments

---
 seq/internal/radix_tree.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/seq/internal/radix_tree.hpp b/seq/internal/radix_tree.hpp
index 2f5bd6a..2f592bf 100644
--- a/seq/internal/radix_tree.hpp
+++ b/seq/internal/radix_tree.hpp
@@ -695,6 +695,10 @@ namespace seq
 			template<class Vector, class K, class... Args>
 			static std::pair<size_t, bool> emplace_vector(Vector& v, K&& key, Args&&... args)
 			{
+				// Look for the key first: the arguments must be left untouched if it already exists
+				size_t found = v.find(key);
+				if (found != v.size())
+					return std::pair<size_t, bool>(found, false);
 				return v.emplace(
 				  typename Vector::value_type(std::piecewise_construct, std::forward_as_tuple(std::forward<K>(key)), std::forward_as_tuple(std::forward<Args>(args)...)));
 			}
-- 
2.43.0


From d8c91f8dc84a5d33c272bd227bb151128124773c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:05 +0000
Subject: [PATCH 042/138] fix: radix trees leaked the vector nodes emptied by
 erase

---
 seq/internal/radix_tree.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seq/internal/radix_tree.hpp b/seq/internal/radix_tree.hpp
index 2f592bf..1e06189 100644
--- a/seq/internal/radix_tree.hpp
+++ b/seq/internal/radix_tree.hpp
@@ -3076,7 +3076,7 @@ namespace seq
 
 					if (v->size() == 0) {
 						// destroy empty vector
-						destroy_ptr(v);
+						d_data->base.destroy_vector(v);
 						d->children()[dpos] = child_ptr();
 						d->child_count--;
 					}
-- 
2.43.0


From b9c2acced634a2e62bfad358b1322d5bfdac721f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:49 +0000
Subject: [PATCH 043/138] fix: hasher<float> and hasher<double> gave -0 and +0,
 which are equal, different hash values

---
 seq/hash.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/seq/hash.hpp b/seq/hash.hpp
index 8374568..976c550 100644
--- a/seq/hash.hpp
+++ b/seq/hash.hpp
@@ -207,7 +207,8 @@ namespace seq
 				float fv;
 				std::uint32_t uv;
 			};
-			fv = v;
+			// -0 and +0 are equal and must have the same hash value
+			SEQ_COMPARE_FLOAT(fv = (v == 0.f) ? 0.f : v;)
 			return hash_finalize(uv);
 		}
 	};
@@ -223,7 +224,8 @@ namespace seq
 				double fv;
 				std::uint64_t uv;
 			};
-			fv = v;
+			// -0 and +0 are equal and must have the same hash value
+			SEQ_COMPARE_FLOAT(fv = (v == 0.) ? 0. : v;)
 			return hash_finalize(static_cast<size_t>(uv));
 		}
 	};
-- 
2.43.0


From 7decf59dbb2161011ebad93a19687d82240b9f96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:58 +0000
Subject: [PATCH 044/138] fix: ExtractKey::value returned the mapped value
 converted to the key type

concurrent_map::operator== did not compile for values that do not convert to
the key type, and compared converted (narrowed) values otherwise.
---
 seq/utils.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/seq/utils.hpp b/seq/utils.hpp
index df3fb5e..18b9f44 100644
--- a/seq/utils.hpp
+++ b/seq/utils.hpp
@@ -414,14 +414,14 @@ namespace seq
 				return value;
 			}
 
-			SEQ_ALWAYS_INLINE static auto value(const value_type& value) noexcept -> const key_type& { return value.second; }
+			SEQ_ALWAYS_INLINE static auto value(const value_type& value) noexcept -> const mapped_type& { return value.second; }
 			template<class U, class V>
-			SEQ_ALWAYS_INLINE static auto value(const std::pair<U, V>& value) noexcept -> const U&
+			SEQ_ALWAYS_INLINE static auto value(const std::pair<U, V>& value) noexcept -> const V&
 			{
 				return value.second;
 			}
 			template<class U, class V>
-			SEQ_ALWAYS_INLINE static auto value(const std::pair<const U, V>& value) noexcept -> const U&
+			SEQ_ALWAYS_INLINE static auto value(const std::pair<const U, V>& value) noexcept -> const V&
 			{
 				return value.second;
 			}
-- 
2.43.0


From ecae820d495b53bfec95e1e97fa4d95217b9889b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:58 +0000
Subject: [PATCH 045/138] fix: free erase_if on concurrent_set and
 concurrent_map did not return its result

---
 seq/concurrent_map.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/seq/concurrent_map.hpp b/seq/concurrent_map.hpp
index 253e0ee..8ccdd34 100644
--- a/seq/concurrent_map.hpp
+++ b/seq/concurrent_map.hpp
@@ -424,7 +424,7 @@ namespace seq
 	template<class Key, class Hash, class Equal, class Allocator, unsigned Shards, class Predicate>
 	typename concurrent_set<Key, Hash, Equal, Allocator, Shards>::size_type erase_if(concurrent_set<Key, Hash, Equal, Allocator, Shards>& set, Predicate pred)
 	{
-		set.erase_if(pred);
+		return set.erase_if(pred);
 	}
 
 	template<class Key, class T, class Hash = hasher<Key>, class Equal = std::equal_to<>, class Allocator = std::allocator<std::pair<Key, T>>, unsigned Shards = seq::medium_concurrency>
@@ -919,7 +919,7 @@ namespace seq
 	template<class Key, class T, class Hash, class Equal, class Allocator, unsigned Shards, class Predicate>
 	typename concurrent_map<Key, T, Hash, Equal, Allocator, Shards>::size_type erase_if(concurrent_map<Key, T, Hash, Equal, Allocator, Shards>& set, Predicate pred)
 	{
-		set.erase_if(pred);
+		return set.erase_if(pred);
 	}
 
 }
-- 
2.43.0


From 5b0a17923005b52febc550d9ff34a046edd0f3fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:55 +0000
Subject: [PATCH 046/138] fix: visit_all of concurrent_set/map ignored the
 result of the functor

The documentation says that visit_all stops and returns false when the functor
returns false.
---
 seq/internal/concurrent_hash_table.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/seq/internal/concurrent_hash_table.hpp b/seq/internal/concurrent_hash_table.hpp
index 569d6d5..73c36e9 100644
--- a/seq/internal/concurrent_hash_table.hpp
+++ b/seq/internal/concurrent_hash_table.hpp
@@ -487,7 +487,7 @@ namespace seq
 			bool for_each_until(ConcurrentValueNode<T>* n, F&& f) noexcept(noexcept(std::forward<F>(f)(std::declval<std::uint8_t*>(), 0, std::declval<T&>())))
 			{
 				return static_cast<const ConcurrentHashNode*>(this)->for_each_until(
-				  n, [&f](const std::uint8_t* hs, unsigned i, const T& v) { std::forward<F>(f)(const_cast<std::uint8_t*>(hs), i, const_cast<T&>(v)); });
+				  n, [&f](const std::uint8_t* hs, unsigned i, const T& v) { return std::forward<F>(f)(const_cast<std::uint8_t*>(hs), i, const_cast<T&>(v)); });
 			}
 		};
 
@@ -1750,7 +1750,7 @@ namespace seq
 				if (!d)
 					return true;
 				for (unsigned i = 0; i < PrivateData::map_count; ++i)
-					if (!d->at(i).visit_all([&fun](const Value& v) { std::forward<F>(fun)(v); }))
+					if (!d->at(i).visit_all(std::forward<F>(fun)))
 						return false;
 				return true;
 			}
-- 
2.43.0


From 7f7fbc6a1bcfa5e4447a2181ed783e93eb43890b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:47 +0000
Subject: [PATCH 047/138] fix: copy assignment of concurrent_set/map kept the
 previous hash function and equality

---
 seq/internal/concurrent_hash_table.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/seq/internal/concurrent_hash_table.hpp b/seq/internal/concurrent_hash_table.hpp
index 73c36e9..56cda74 100644
--- a/seq/internal/concurrent_hash_table.hpp
+++ b/seq/internal/concurrent_hash_table.hpp
@@ -1721,6 +1721,10 @@ namespace seq
 
 						assign_allocator<Alloc>(*this, other.get_allocator());
 						assign_allocator<Alloc>(get_data_no_lock()->get_allocator(), other.get_allocator());
+
+						// Hash function and equality assignment
+						static_cast<base_hash_equal&>(*this) = static_cast<const base_hash_equal&>(other);
+						static_cast<base_hash_equal&>(*get_data_no_lock()) = static_cast<const base_hash_equal&>(other);
 					}
 					other.visit_all([this](const Value& v) { this->template emplace_policy<InsertConcurrentPolicy>([](const auto&) {}, v); });
 				}
-- 
2.43.0


From ebfa1d03e3baf42e2b31d1d62b97f104c7cc7e25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:49 +0000
Subject: [PATCH 048/138] fix: merge of concurrent_set/map with itself
 deadlocked, and with other hash function states lost elements

---
 seq/internal/concurrent_hash_table.hpp | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/seq/internal/concurrent_hash_table.hpp b/seq/internal/concurrent_hash_table.hpp
index 56cda74..88b9d36 100644
--- a/seq/internal/concurrent_hash_table.hpp
+++ b/seq/internal/concurrent_hash_table.hpp
@@ -1471,14 +1471,6 @@ namespace seq
 				return visit_all([&](const auto& v) { return other.contains_value(v); });
 			}
 
-			/// @brief insert all entries from other not found in this, and remove them from other
-			size_t merge(ChainingHashTable& other)
-			{
-				return other.erase_if([&](auto& v) {
-					size_t hash = hash_key(extract_key::key(v));
-					return this->emplace_policy<InsertConcurrentPolicy>(hash, std::move_if_noexcept(v));
-				});
-			}
 		};
 
 		/// @brief Base concurrent hash table class, used by both concurrent_set and concurrent_map.
@@ -1661,6 +1653,16 @@ namespace seq
 				return d->at(index_from_hash(hash)).template emplace_policy_no_check<Policy>(hash, std::forward<K>(key), std::forward<Args>(args)...);
 			}
 
+			/// @brief Insert all entries of a sub-table not found in d, and remove them from the sub-table.
+			/// The hash functions of both tables might have different states.
+			size_t merge_table(PrivateData* d, hash_map& table)
+			{
+				return table.erase_if([&](auto& v) {
+					size_t hash = d->hash_key(hash_map::extract_key::key(v));
+					return d->at(index_from_hash(hash)).template emplace_policy<InsertConcurrentPolicy>(hash, std::move_if_noexcept(v));
+				});
+			}
+
 		public:
 			ConcurrentHashTable(const Hash& hash = Hash(), const KeyEqual& equal = KeyEqual(), const Alloc& alloc = Alloc())
 			  : base_hash_equal(hash, equal)
@@ -1979,6 +1981,8 @@ namespace seq
 
 			auto merge(ConcurrentHashTable& other) -> size_t
 			{
+				if (this == std::addressof(other))
+					return 0;
 				// Lock internal data to avoid swap or move during merging
 				if constexpr (is_concurrent)
 					std::lock(const_cast<data_lock_type&>(d_data_lock), const_cast<data_lock_type&>(other.d_data_lock));
@@ -1993,13 +1997,15 @@ namespace seq
 
 				size_t res = 0;
 				for (unsigned i = 0; i < PrivateData::map_count; ++i)
-					res += d1->at(i).merge(d2->at(i));
+					res += merge_table(d1, d2->at(i));
 				return res;
 			}
 
 			template<class ExecPolicy>
 			auto merge(ExecPolicy&& p, ConcurrentHashTable& other) -> size_t
 			{
+				if (this == std::addressof(other))
+					return 0;
 				// Lock internal data to avoid swap or move during merging
 				if constexpr (is_concurrent)
 					std::lock(const_cast<data_lock_type&>(d_data_lock), const_cast<data_lock_type&>(other.d_data_lock));
@@ -2016,7 +2022,7 @@ namespace seq
 				std::atomic<size_t> res = 0;
 				std::for_each(std::forward<ExecPolicy>(p), d1->maps, d1->maps + PrivateData::map_count, [&](const auto& m) {
 					unsigned index = static_cast<unsigned>(&m - d1->maps);
-					res += d1->at(index).merge(d2->at(index));
+					res += merge_table(d1, d2->at(index));
 				});
 				return res;
 			}
-- 
2.43.0


From 63b0d64f9b254cf1ec480801be19e308a6fa0178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:22:38 +0000
Subject: [PATCH 049/138] fix: comparing a concurrent_set/map to itself
 deadlocked, and to one with another hash function state was wrong

---
 seq/internal/concurrent_hash_table.hpp | 41 +++++++++++++-------------
 1 file changed, 20 insertions(+), 21 deletions(-)

diff --git a/seq/internal/concurrent_hash_table.hpp b/seq/internal/concurrent_hash_table.hpp
index 88b9d36..603539a 100644
--- a/seq/internal/concurrent_hash_table.hpp
+++ b/seq/internal/concurrent_hash_table.hpp
@@ -1113,14 +1113,6 @@ namespace seq
 				}
 			}
 
-			bool contains_value(const Value& key_value) const
-			{
-				// Returns true if given value (key AND value) exists in this table
-				size_t hash = hash_key(extract_key::key(key_value));
-				bool ret = false;
-				visit_hash(hash, extract_key::key(key_value), [&](const auto& v) { ret = extract_key::has_value ? (extract_key::value(v) == extract_key::value(key_value)) : true; });
-				return ret;
-			}
 			bool contains(const Value& key_value) const
 			{
 				// Returns true if given value (key AND value) exists in this table
@@ -1462,15 +1454,13 @@ namespace seq
 				}
 			}
 
-			/// @brief Returns true if two ChainingHashTable are equals
-			bool equal_to(const ChainingHashTable& other) const
+			bool contains_value(size_t hash, const Value& key_value) const
 			{
-				if (d_size != other.size())
-					return false;
-
-				return visit_all([&](const auto& v) { return other.contains_value(v); });
+				// Returns true if given value (key AND value) exists in this table
+				bool ret = false;
+				visit_hash(hash, extract_key::key(key_value), [&](const auto& v) { ret = extract_key::has_value ? (extract_key::value(v) == extract_key::value(key_value)) : true; });
+				return ret;
 			}
-
 		};
 
 		/// @brief Base concurrent hash table class, used by both concurrent_set and concurrent_map.
@@ -2029,6 +2019,8 @@ namespace seq
 
 			bool operator==(const ConcurrentHashTable& other) const
 			{
+				if (this == std::addressof(other))
+					return true;
 				// Lock internal data to avoid swap or move during comparison
 				if constexpr (is_concurrent)
 					std::lock(const_cast<data_lock_type&>(d_data_lock), const_cast<data_lock_type&>(other.d_data_lock));
@@ -2037,15 +2029,22 @@ namespace seq
 
 				const PrivateData* d1 = cget_data();
 				const PrivateData* d2 = other.cget_data();
-				if (!d1 && !d2)
+				size_t size1 = 0, size2 = 0;
+				for (unsigned i = 0; i < PrivateData::map_count; ++i) {
+					size1 += d1 ? d1->at(i).size() : 0;
+					size2 += d2 ? d2->at(i).size() : 0;
+				}
+				if (size1 != size2)
+					return false;
+				if (!size1)
 					return true;
-				if (!d1)
-					return other.size() == 0;
-				if (!d2)
-					return size() == 0;
 
+				// The hash functions of both tables might have different states
 				for (unsigned i = 0; i < PrivateData::map_count; ++i) {
-					if (!(d1->at(i).equal_to(d2->at(i))))
+					if (!d1->at(i).visit_all([&](const auto& v) {
+						    size_t hash = d2->hash_key(hash_map::extract_key::key(v));
+						    return d2->at(index_from_hash(hash)).contains_value(hash, v);
+					    }))
 						return false;
 				}
 				return true;
-- 
2.43.0


From 0db99261d1451c28d4646a37d0f7658c1d16934e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:37 +0000
Subject: [PATCH 050/138] fix: shared reads of concurrent_set/map took the
 write lock of a bucket and released a read lock

---
 seq/internal/concurrent_hash_table.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seq/internal/concurrent_hash_table.hpp b/seq/internal/concurrent_hash_table.hpp
index 603539a..a92970a 100644
--- a/seq/internal/concurrent_hash_table.hpp
+++ b/seq/internal/concurrent_hash_table.hpp
@@ -745,7 +745,7 @@ namespace seq
 			}
 			SEQ_ALWAYS_INLINE void lock_shared(node_lock& lock) const
 			{
-				if (lock.try_lock())
+				if (lock.try_lock_shared())
 					return;
 				this_type* _this = const_cast<this_type*>(this);
 				while (!lock.try_lock_shared()) {
-- 
2.43.0


From 74f13fb0240fa8e883ad2cc5803cc5762c3a01f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:46 +0000
Subject: [PATCH 051/138] fix: concurrent_set/map: rehash after clear released
 a lock held by another thread, inserts waiting for the buckets never returned

---
 seq/internal/concurrent_hash_table.hpp | 48 ++++++++++++++++++++------
 1 file changed, 37 insertions(+), 11 deletions(-)

diff --git a/seq/internal/concurrent_hash_table.hpp b/seq/internal/concurrent_hash_table.hpp
index a92970a..b640ac0 100644
--- a/seq/internal/concurrent_hash_table.hpp
+++ b/seq/internal/concurrent_hash_table.hpp
@@ -782,6 +782,7 @@ namespace seq
 				node_type* buckets = nullptr;
 				value_node_type* values = nullptr;
 				size_t i = 0;
+				size_t locked = 0;
 
 				// Reset chain count
 				d_chain_count = 0;
@@ -792,14 +793,17 @@ namespace seq
 					buckets = make_nodes(new_hash_mask + 1u);
 					values = make_value_nodes(new_hash_mask + 1u);
 
-					size_t count = (d_buckets != get_static_node()) ? d_hash_mask + 1u : 0u;
+					// The static node has no values, but its position must be locked as well
+					size_t count = d_hash_mask + 1u;
 					auto iter = typename lock_array::iterator(locks);
 
 					for (i = 0; i < count; ++i) {
 
 						// Lock position
-						if (is_concurrent && locks)
+						if (is_concurrent && locks) {
 							iter->lock();
+							++locked;
+						}
 
 						d_buckets[i].for_each(d_values + i, [&](std::uint8_t* hashs, unsigned j, Value& val) {
 							auto pos = hash_key(extract_key::key(val)) & new_hash_mask;
@@ -830,7 +834,7 @@ namespace seq
 
 					if (is_concurrent && locks) {
 						// Unlock locked nodes
-						for (size_t j = 0; j <= i; ++j)
+						for (size_t j = 0; j < locked; ++j)
 							locks->at(j).unlock();
 					}
 					throw;
@@ -850,8 +854,7 @@ namespace seq
 				if (is_concurrent && locks) {
 					// Unlock all nodes
 					auto iter = typename lock_array::iterator(locks);
-					size_t count = old_buckets ? old_hash_mask + 1u : 0u;
-					for (i = 0; i < count; ++i, ++iter)
+					for (i = 0; i < locked; ++i, ++iter)
 						iter->unlock();
 				}
 
@@ -929,8 +932,29 @@ namespace seq
 					rehash_on_next_target(s);
 			}
 
+			/// @brief Wait for the creation of the buckets.
+			/// The table might have been cleared by another thread since the last call to rehash_on_insert().
+			void wait_for_bucket()
+			{
+				while (d_buckets == get_static_node()) {
+					rehash_on_insert();
+					std::this_thread::yield();
+				}
+			}
+
+			template<bool WaitForBucket>
 			SEQ_NOINLINE(auto) update_lock(lock_array* locks, size_t hash, size_t& hash_mask, size_t& pos, node_lock*& l)
 			{
+				if (WaitForBucket && d_buckets == get_static_node()) {
+					// Release the lock needed to create the buckets
+					l->unlock();
+					wait_for_bucket();
+					hash_mask = d_hash_mask;
+					pos = (hash & hash_mask);
+					l = &locks->at(pos);
+					this->lock(*l);
+					return;
+				}
 				hash_mask = d_hash_mask;
 				if (((hash & hash_mask) != pos)) {
 					pos = (hash & hash_mask);
@@ -954,14 +978,16 @@ namespace seq
 			SEQ_NOINLINE(auto)
 			get_node_global_lock(lock_array* locks, size_t hash, node_lock*& l) -> size_t
 			{
-				if (WaitForBucket)
-					while (d_buckets == get_static_node())
-						std::this_thread::yield();
 				l = &d_rehash_lock;
 				l->lock();
-				if ((locks = AtomicLoad(d_locks))) {
+				while (!(locks = AtomicLoad(d_locks)) && WaitForBucket && d_buckets == get_static_node()) {
+					l->unlock();
+					wait_for_bucket();
+					l->lock();
+				}
+				if (locks) {
 					l->unlock();
-					return this->template get_node<false>(locks, hash, l);
+					return this->template get_node<WaitForBucket>(locks, hash, l);
 				}
 				return (hash & d_hash_mask);
 			}
@@ -976,7 +1002,7 @@ namespace seq
 				l = &locks->at(pos);
 				this->lock(*l);
 				while ((WaitForBucket && d_buckets == get_static_node()) || hash_mask != d_hash_mask)
-					update_lock(locks, hash, hash_mask, pos, l);
+					this->template update_lock<WaitForBucket>(locks, hash, hash_mask, pos, l);
 				return pos;
 			}
 
-- 
2.43.0


From e41d56486a7fd89e0beec6e4a1ab85dbd4fa40b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:46 +0000
Subject: [PATCH 052/138] fix: concurrent_set/map: failed allocation of the
 buckets crashed

---
 seq/internal/concurrent_hash_table.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/seq/internal/concurrent_hash_table.hpp b/seq/internal/concurrent_hash_table.hpp
index b640ac0..5a65a6e 100644
--- a/seq/internal/concurrent_hash_table.hpp
+++ b/seq/internal/concurrent_hash_table.hpp
@@ -824,13 +824,16 @@ namespace seq
 				}
 				catch (...) {
 
-					if (std::is_nothrow_move_constructible_v<Value> && buckets && values) {
+					if (std::is_nothrow_move_constructible_v<Value> && values) {
 						// Move back values from new to old buckets
 						move_back(buckets, values, new_hash_mask, d_buckets, d_values, d_hash_mask);
 					}
 
 					// Destroy and deallocate
-					destroy_buckets(buckets, values, new_hash_mask + 1);
+					if (values)
+						destroy_buckets(buckets, values, new_hash_mask + 1);
+					else if (buckets)
+						free_nodes(buckets, new_hash_mask + 1);
 
 					if (is_concurrent && locks) {
 						// Unlock locked nodes
-- 
2.43.0


From 0712fe076c1ab3b6baaff0d4214e659cbe808630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:46 +0000
Subject: [PATCH 053/138] fix: concurrent_set/map: non const visit_all only
 took a shared lock on tables of one bucket

---
 seq/internal/concurrent_hash_table.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/seq/internal/concurrent_hash_table.hpp b/seq/internal/concurrent_hash_table.hpp
index 5a65a6e..1366812 100644
--- a/seq/internal/concurrent_hash_table.hpp
+++ b/seq/internal/concurrent_hash_table.hpp
@@ -1286,7 +1286,13 @@ namespace seq
 			bool visit_all(F&& fun)
 			{
 				// Avoid rehash while calling visit_all
-				LockShared<node_lock> lock(const_cast<node_lock&>(d_rehash_lock));
+				LockShared<node_lock> shared_lock;
+				LockUnique<node_lock> unique_lock;
+				if (AtomicLoad(d_locks))
+					shared_lock.init(d_rehash_lock);
+				else
+					// Without lock array, d_rehash_lock also protects the bucket
+					unique_lock.init(d_rehash_lock);
 				if (d_buckets == get_static_node())
 					return true;
 
-- 
2.43.0


From e434e41dff0b548feabfa6bd80539badcb44746d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:15 +0000
Subject: [PATCH 054/138] fix: concurrent_set/map: data races on the hash mask,
 the bucket pointer and the rehash target

---
 seq/internal/concurrent_hash_table.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/seq/internal/concurrent_hash_table.hpp b/seq/internal/concurrent_hash_table.hpp
index 1366812..aecf92c 100644
--- a/seq/internal/concurrent_hash_table.hpp
+++ b/seq/internal/concurrent_hash_table.hpp
@@ -666,19 +666,21 @@ namespace seq
 			using size_type = typename std::conditional<is_concurrent, std::atomic<size_t>, size_t>::type;
 			using chain_count_type = typename std::conditional<is_concurrent, std::atomic<unsigned>, unsigned>::type;
 			using lock_array_type = typename std::conditional<is_concurrent, std::atomic<lock_array*>, lock_array*>::type;
+			// The table layout is also read without lock, to find the lock of a bucket or to check if a rehash is needed
+			using buckets_type = typename std::conditional<is_concurrent, std::atomic<node_type*>, node_type*>::type;
 
 			// Maximum hash mask, depends on the SharedLockArray max size.
 			// We can insert more elements than this value, but using chaining.
 			static constexpr size_t max_hash_mask = is_concurrent ? ((1u << 31u) - 1u) : std::numeric_limits<size_t>::max();
 
 		private:
-			node_type* d_buckets;	       // hash table
+			buckets_type d_buckets;	       // hash table
 			value_node_type* d_values;     // values
 			PrivateData* d_data;	       // pointer to upper PrivateData
 			lock_array_type d_locks;       // lock array
 			size_type d_size;	       // total size
-			size_t d_next_target;	       // next size before rehash
-			size_t d_hash_mask;	       // hash mask
+			size_type d_next_target;       // next size before rehash
+			size_type d_hash_mask;	       // hash mask
 			node_lock d_rehash_lock;       // unique lock for rehash
 			std::atomic<bool> d_in_rehash; // tells if we are in rehash
 			std::mutex d_rehash_mutex;
-- 
2.43.0


From 8adc2cf1eeb7dad6c2c209b27441032c002ce9fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:59 +0000
Subject: [PATCH 055/138] fix: concurrent_set/map: emplace_or_visit with
 several arguments took the first one for the key

---
 seq/concurrent_map.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/seq/concurrent_map.hpp b/seq/concurrent_map.hpp
index 8ccdd34..a6490dd 100644
--- a/seq/concurrent_map.hpp
+++ b/seq/concurrent_map.hpp
@@ -54,7 +54,7 @@ namespace seq
 			template<class F, class... A>
 			bool operator()(F&& f, A&&... a)
 			{
-				return _this->base_type::template emplace_policy<detail::InsertConcurrentPolicy>(std::forward<F>(f), std::forward<A>(a)...);
+				return _this->base_type::template emplace_policy<detail::InsertConcurrentPolicy>(std::forward<F>(f), Policy::make(std::forward<A>(a)...));
 			}
 		};
 		struct emplace_or_cvisit_impl
@@ -63,7 +63,7 @@ namespace seq
 			template<class F, class... A>
 			bool operator()(F&& f, A&&... a)
 			{
-				return _this->base_type::template emplace_policy<detail::InsertConcurrentPolicy>([&](const auto& v) { std::forward<F>(f)(v); }, std::forward<A>(a)...);
+				return _this->base_type::template emplace_policy<detail::InsertConcurrentPolicy>([&](const auto& v) { std::forward<F>(f)(v); }, Policy::make(std::forward<A>(a)...));
 			}
 		};
 
@@ -450,7 +450,7 @@ namespace seq
 			template<class F, class... A>
 			bool operator()(F&& f, A&&... a)
 			{
-				return _this->base_type::template emplace_policy<detail::InsertConcurrentPolicy>(std::forward<F>(f), std::forward<A>(a)...);
+				return _this->base_type::template emplace_policy<detail::InsertConcurrentPolicy>(std::forward<F>(f), Policy::make(std::forward<A>(a)...));
 			}
 		};
 		struct emplace_or_cvisit_impl
@@ -459,7 +459,7 @@ namespace seq
 			template<class F, class... A>
 			bool operator()(F&& f, A&&... a)
 			{
-				return _this->base_type::template emplace_policy<detail::InsertConcurrentPolicy>([&](const auto& v) { std::forward<F>(f)(v); }, std::forward<A>(a)...);
+				return _this->base_type::template emplace_policy<detail::InsertConcurrentPolicy>([&](const auto& v) { std::forward<F>(f)(v); }, Policy::make(std::forward<A>(a)...));
 			}
 		};
 
-- 
2.43.0


From d57c1eb25781fab745865aa8a2d3d64f4cfac988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:12 +0000
Subject: [PATCH 056/138] fix: copy assignment of concurrent_set/map could dead
 lock with a comparison, a merge or the opposite assignment

---
 seq/internal/concurrent_hash_table.hpp | 28 ++++++++++++++------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/seq/internal/concurrent_hash_table.hpp b/seq/internal/concurrent_hash_table.hpp
index aecf92c..e29370a 100644
--- a/seq/internal/concurrent_hash_table.hpp
+++ b/seq/internal/concurrent_hash_table.hpp
@@ -1742,19 +1742,21 @@ namespace seq
 			{
 				if (this != std::addressof(other)) {
 					clear();
-					{
-						// Allocator assignment
-						std::lock(d_data_lock, const_cast<data_lock_type&>(other.d_data_lock));
-						LockUnique<data_lock_type> l1(&d_data_lock, true);
-						LockUnique<data_lock_type> l2(&const_cast<data_lock_type&>(other.d_data_lock), true);
-
-						assign_allocator<Alloc>(*this, other.get_allocator());
-						assign_allocator<Alloc>(get_data_no_lock()->get_allocator(), other.get_allocator());
-
-						// Hash function and equality assignment
-						static_cast<base_hash_equal&>(*this) = static_cast<const base_hash_equal&>(other);
-						static_cast<base_hash_equal&>(*get_data_no_lock()) = static_cast<const base_hash_equal&>(other);
-					}
+
+					// Lock internal data to avoid swap or move during the copy, and
+					// dead locks with other operations involving both tables
+					std::lock(d_data_lock, const_cast<data_lock_type&>(other.d_data_lock));
+					LockUnique<data_lock_type> l1(&d_data_lock, true);
+					LockUnique<data_lock_type> l2(&const_cast<data_lock_type&>(other.d_data_lock), true);
+
+					// Allocator assignment
+					assign_allocator<Alloc>(*this, other.get_allocator());
+					assign_allocator<Alloc>(get_data_no_lock()->get_allocator(), other.get_allocator());
+
+					// Hash function and equality assignment
+					static_cast<base_hash_equal&>(*this) = static_cast<const base_hash_equal&>(other);
+					static_cast<base_hash_equal&>(*get_data_no_lock()) = static_cast<const base_hash_equal&>(other);
+
 					other.visit_all([this](const Value& v) { this->template emplace_policy<InsertConcurrentPolicy>([](const auto&) {}, v); });
 				}
 				return *this;
-- 
2.43.0


From 45a33467994d481cdf914e186d252b2e73f4722b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:15 +0000
Subject: [PATCH 057/138] fix: ordered_map::stable_sort did not compile

---
 seq/ordered_map.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/seq/ordered_map.hpp b/seq/ordered_map.hpp
index 7297ed9..a920fae 100644
--- a/seq/ordered_map.hpp
+++ b/seq/ordered_map.hpp
@@ -1700,12 +1700,14 @@ namespace seq
 		template<class Less>
 		void stable_sort(Less le)
 		{
-			sequence().stable_sort(LessAdapter<Less>(le));
+			// sequence::sort() is stable
+			sequence().sort(LessAdapter<Less>(le));
 			this->base_type::rehash();
 		}
 		void stable_sort()
 		{
-			sequence().stable_sort(LessAdapter<std::less<Key>>());
+			// sequence::sort() is stable
+			sequence().sort(LessAdapter<std::less<Key>>());
 			this->base_type::rehash();
 		}
 		void shrink_to_fit()
-- 
2.43.0


From 43e7f2f6b152018b927ad23346467b91ac0924c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:15 +0000
Subject: [PATCH 058/138] fix: ordered_map::erase(iterator) did not compile
 with a transparent hash

---
 seq/ordered_map.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/seq/ordered_map.hpp b/seq/ordered_map.hpp
index a920fae..d5e0044 100644
--- a/seq/ordered_map.hpp
+++ b/seq/ordered_map.hpp
@@ -1959,6 +1959,7 @@ namespace seq
 		SEQ_ALWAYS_INLINE auto operator[](const Key& k) -> T& { return try_emplace(k).first->second; }
 		SEQ_ALWAYS_INLINE auto operator[](Key&& k) -> T& { return try_emplace(std::move(k)).first->second; }
 
+		SEQ_ALWAYS_INLINE auto erase(iterator pos) -> iterator { return this->base_type::erase(const_iterator(pos)); }
 		SEQ_ALWAYS_INLINE auto erase(const_iterator pos) -> iterator { return this->base_type::erase(pos); }
 		SEQ_ALWAYS_INLINE auto erase(const Key& key) -> size_type { return this->base_type::erase(key); }
 		template<class K, class KE = KeyEqual, class H = Hash, typename std::enable_if<has_is_transparent<KE>::value && has_is_transparent<H>::value>::type* = nullptr>
-- 
2.43.0


From 9ed1125efb6a0d64d094f0d081429735a2e3df9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:33 +0000
Subject: [PATCH 059/138] fix: swap of ordered_set/map swapped the hash and
 equality functors twice

---
 seq/ordered_map.hpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/seq/ordered_map.hpp b/seq/ordered_map.hpp
index d5e0044..f3707fd 100644
--- a/seq/ordered_map.hpp
+++ b/seq/ordered_map.hpp
@@ -536,7 +536,6 @@ namespace seq
 			  noexcept(std::declval<sequence_type&>().swap(std::declval<sequence_type&>())) && noexcept(std::declval<base_type&>().swap(std::declval<base_type&>())))
 			{
 				if (this != std::addressof(other)) {
-					std::swap(static_cast<base_type&>(*this), static_cast<base_type&>(other));
 					std::swap(d_buckets, other.d_buckets);
 					std::swap(d_hash_mask, other.d_hash_mask);
 					std::swap(d_hash_len, other.d_hash_len);
-- 
2.43.0


From c03973efa02a99118611a8516c710e83147540bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:33 +0000
Subject: [PATCH 060/138] fix: copy assignment of ordered_set/map kept the
 previous functors, and the previous hash table when it had the right size

---
 seq/ordered_map.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/seq/ordered_map.hpp b/seq/ordered_map.hpp
index f3707fd..5357a2c 100644
--- a/seq/ordered_map.hpp
+++ b/seq/ordered_map.hpp
@@ -1161,9 +1161,10 @@ namespace seq
 		auto operator=(const ordered_set& other) -> ordered_set&
 		{
 			if (this != std::addressof(other)) {
+				// The current table becomes invalid
+				this->mark_dirty();
 				this->d_seq = other.sequence();
-				if (other.dirty())
-					this->mark_dirty();
+				base_type::base_type::operator=(other);
 				max_load_factor(other.max_load_factor());
 				rehash();
 			}
@@ -1627,9 +1628,10 @@ namespace seq
 		auto operator=(const ordered_map& other) -> ordered_map&
 		{
 			if (this != std::addressof(other)) {
+				// The current table becomes invalid
+				this->mark_dirty();
 				this->d_seq = other.sequence();
-				if (other.dirty())
-					this->mark_dirty();
+				base_type::base_type::operator=(other);
 				max_load_factor(other.max_load_factor());
 				rehash();
 			}
-- 
2.43.0


From e56727416524007e78f4af0bfd37d0a5d1aed3bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:33 +0000
Subject: [PATCH 061/138] fix: copy construction of an ordered_set/map of one
 element did not build the hash table

---
 seq/ordered_map.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/seq/ordered_map.hpp b/seq/ordered_map.hpp
index 5357a2c..9787ed9 100644
--- a/seq/ordered_map.hpp
+++ b/seq/ordered_map.hpp
@@ -1116,7 +1116,7 @@ namespace seq
 			if (other.dirty())
 				base_type::mark_dirty();
 			max_load_factor(other.max_load_factor());
-			rehash();
+			base_type::rehash(0, true);
 		}
 		/// @brief Copy constructor
 		/// @param other another container to be used as source to initialize the elements of the container with
@@ -1598,7 +1598,7 @@ namespace seq
 			if (other.dirty())
 				base_type::mark_dirty();
 			max_load_factor(other.max_load_factor());
-			rehash();
+			base_type::rehash(0, true);
 		}
 		ordered_map(const ordered_map& other)
 		  : ordered_map(other, copy_allocator(other.get_allocator()))
-- 
2.43.0


From acdf8e7684ea41a79dcdbd1854588ad55b98599c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:33 +0000
Subject: [PATCH 062/138] fix: rehash of a dirty ordered_set/map could write
 past the end of the table

---
 seq/ordered_map.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seq/ordered_map.hpp b/seq/ordered_map.hpp
index 9787ed9..b45d14e 100644
--- a/seq/ordered_map.hpp
+++ b/seq/ordered_map.hpp
@@ -429,7 +429,7 @@ namespace seq
 						node_type n = node_type(static_cast<tiny_hash>(h), static_cast<dist_type>(dist), it.as_uint());
 						std::swap(n, d_buckets[index]);
 						if (dist)
-							start_insert(d_buckets, bsize, index, static_cast<dist_type>(dist), n);
+							start_insert(d_buckets, new_hash_mask, index, static_cast<dist_type>(dist), n);
 					}
 					++it;
 				}
-- 
2.43.0


From a372cd1ff394836398a7d49247d9156077d386ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:33 +0000
Subject: [PATCH 063/138] fix: ordered_map::insert(hint, P&&) did not compile

---
 seq/ordered_map.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seq/ordered_map.hpp b/seq/ordered_map.hpp
index b45d14e..19a6789 100644
--- a/seq/ordered_map.hpp
+++ b/seq/ordered_map.hpp
@@ -1751,7 +1751,7 @@ namespace seq
 		SEQ_ALWAYS_INLINE auto insert(const_iterator hint, P&& value) -> iterator
 		{
 			(void)hint;
-			return this->base_type::template emplace<detail::Anywhere>(Policy::make(std::forward<P>(value)));
+			return this->base_type::template emplace<detail::Anywhere>(Policy::make(std::forward<P>(value))).first;
 		}
 		template<class InputIt>
 		void insert(InputIt first, InputIt last)
-- 
2.43.0


From 43371315c6c4a8d97e3e3e3f360b5a94eea6d51b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:33 +0000
Subject: [PATCH 064/138] fix: ordered_set/map::rehash(n) never returned when n
 is lower than the number of elements

---
 seq/ordered_map.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/seq/ordered_map.hpp b/seq/ordered_map.hpp
index 19a6789..cde762d 100644
--- a/seq/ordered_map.hpp
+++ b/seq/ordered_map.hpp
@@ -578,8 +578,10 @@ namespace seq
 
 				const bool null_size = (size == 0);
 
-				if (null_size)
-					size = static_cast<size_t>(static_cast<double>(this->size()) / static_cast<double>(d_load_factor));
+				// Minimum size to hold all elements
+				size_t min_size = static_cast<size_t>(static_cast<double>(this->size()) / static_cast<double>(d_load_factor));
+				if (size < min_size)
+					size = min_size;
 				if (size == 0)
 					return rehash(63, 6, d_seq.end(), d_seq.end()); // Minimum size is 64
 				size_t new_hash_mask;
-- 
2.43.0


From f0b2ab05980d4af25af6c60bc75d96a64f1f2530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:07 +0000
Subject: [PATCH 065/138] fix: ordered_set/map did not switch to linear hashing
 when the distance of an inserted element overflowed

---
 seq/ordered_map.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/seq/ordered_map.hpp b/seq/ordered_map.hpp
index cde762d..e652c8a 100644
--- a/seq/ordered_map.hpp
+++ b/seq/ordered_map.hpp
@@ -332,6 +332,8 @@ namespace seq
 						index = (index == hmask) ? 0 : index + 1;
 						dist++;
 					}
+					if SEQ_UNLIKELY(dist > node_type::max_distance)
+						dist = node_type::max_distance;
 					d_max_dist = (dist > d_max_dist) ? dist : d_max_dist;
 					node_type n = d_buckets[index];
 					d_buckets[index] = node_type(node_type::small_hash(hash), dist, first.as_uint());
@@ -423,8 +425,10 @@ namespace seq
 						  node_type(static_cast<tiny_hash>(h), index == mask_hash(hash, new_hash_mask, new_hash_len) ? 0 : node_type::max_distance, it.as_uint());
 					}
 					else {
+						if SEQ_UNLIKELY(dist > static_cast<size_t>(node_type::max_distance))
+							dist = static_cast<size_t>(node_type::max_distance);
 						if (dist > static_cast<size_t>(d_max_dist))
-							d_max_dist = static_cast<int>(dist); // = (dist > node_type::max_distance) ? node_type::max_distance : dist;
+							d_max_dist = static_cast<int>(dist);
 
 						node_type n = node_type(static_cast<tiny_hash>(h), static_cast<dist_type>(dist), it.as_uint());
 						std::swap(n, d_buckets[index]);
@@ -723,6 +727,8 @@ namespace seq
 				iterator tmp_it = Policy::emplace(d_seq, std::forward<K>(key), std::forward<Args>(args)...);
 
 				// Update maximum distance
+				if SEQ_UNLIKELY(dist > node_type::max_distance)
+					dist = node_type::max_distance;
 				d_max_dist = dist > d_max_dist ? dist : d_max_dist;
 
 				// Move nodes based on distance (robin hood hashing), only if computed distance is not null
-- 
2.43.0


From 0e2303d0f57bab24a2eb01190025d519740105c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:07 +0000
Subject: [PATCH 066/138] fix: ordered_set/map in linear hashing mode inserted
 duplicates after an erasure, and lookups could run forever on a table full of
 tombstones

---
 seq/ordered_map.hpp | 36 ++++++++++++++++++++++++++++--------
 1 file changed, 28 insertions(+), 8 deletions(-)

diff --git a/seq/ordered_map.hpp b/seq/ordered_map.hpp
index e652c8a..532926d 100644
--- a/seq/ordered_map.hpp
+++ b/seq/ordered_map.hpp
@@ -255,6 +255,7 @@ namespace seq
 			size_t d_next_target; // next size before rehash
 			int d_max_dist;	      // current maximum distance of a node to its theoric best location
 			float d_load_factor;  // maximum load factor
+			size_t d_tombstones;  // number of tombstones (linear hashing only)
 
 		private:
 			static auto null_node() -> node_type*
@@ -299,7 +300,7 @@ namespace seq
 				try {
 					free_buckets(d_buckets);
 					d_buckets = null_node();
-					d_next_target = d_hash_mask = d_hash_len = 0;
+					d_next_target = d_hash_mask = d_hash_len = d_tombstones = 0;
 					d_max_dist = 1;
 					d_buckets = make_buckets((new_hash_mask + 1ULL));
 				}
@@ -372,7 +373,7 @@ namespace seq
 				try {
 					free_buckets(d_buckets);
 					d_buckets = null_node();
-					d_next_target = d_hash_mask = d_hash_len = 0;
+					d_next_target = d_hash_mask = d_hash_len = d_tombstones = 0;
 					d_max_dist = 1;
 					d_buckets = make_buckets((new_hash_mask + 1ULL));
 				}
@@ -491,6 +492,7 @@ namespace seq
 			  , d_next_target(0)
 			  , d_max_dist(1)
 			  , d_load_factor(0.6f)
+			  , d_tombstones(0)
 			{
 			}
 			SparseFlatNodeHashTable(SparseFlatNodeHashTable&& other) noexcept(
@@ -503,12 +505,14 @@ namespace seq
 			  , d_next_target(other.d_next_target)
 			  , d_max_dist(other.d_max_dist)
 			  , d_load_factor(other.d_load_factor)
+			  , d_tombstones(other.d_tombstones)
 			{
 				other.d_buckets = null_node();
 				other.d_hash_mask = 0;
 				other.d_hash_len = 0;
 				other.d_next_target = 0;
 				other.d_max_dist = 1;
+				other.d_tombstones = 0;
 			}
 			SparseFlatNodeHashTable(SparseFlatNodeHashTable&& other, const Allocator& alloc)
 			  : base_type(other.hash_function(), other.key_eq())
@@ -519,6 +523,7 @@ namespace seq
 			  , d_next_target(other.d_next_target)
 			  , d_max_dist(other.d_max_dist)
 			  , d_load_factor(other.d_load_factor)
+			  , d_tombstones(other.d_tombstones)
 			{
 				if (alloc == other.d_seq.get_allocator()) {
 					other.d_buckets = null_node();
@@ -526,6 +531,7 @@ namespace seq
 					other.d_hash_len = 0;
 					other.d_next_target = 0;
 					other.d_max_dist = 1;
+					other.d_tombstones = 0;
 				}
 				else {
 					// rehash
@@ -546,6 +552,7 @@ namespace seq
 					std::swap(d_next_target, other.d_next_target);
 					std::swap(d_max_dist, other.d_max_dist);
 					std::swap(d_load_factor, other.d_load_factor);
+					std::swap(d_tombstones, other.d_tombstones);
 					d_seq.swap(other.d_seq);
 					base_type::swap(other);
 				}
@@ -687,15 +694,25 @@ namespace seq
 				size_t index = mask_hash(hash, d_hash_mask, d_hash_len);
 				const tiny_hash h = node_type::small_hash(hash);
 
-				// Pure linear hashing
-				while (!d_buckets[index].null() && !d_buckets[index].is_tombstone()) {
-					if (d_buckets[index].hash() == h && (*this)(extract_key::key(sequence_node_value(d_buckets[index])), extract_key::key(key)))
+				// Pure linear hashing: the key might be located after a tombstone
+				size_t free_index = bucket_size();
+				while (!d_buckets[index].null() || d_buckets[index].is_tombstone()) {
+					if (d_buckets[index].null()) {
+						if (free_index == bucket_size())
+							free_index = index;
+					}
+					else if (d_buckets[index].hash() == h && (*this)(extract_key::key(sequence_node_value(d_buckets[index])), extract_key::key(key)))
 						return std::pair<iterator, bool>(iterator(d_buckets[index].node(), d_buckets[index].pos()), false);
 					if SEQ_UNLIKELY(++index == bucket_size())
 						index = 0;
 				}
 
 				iterator tmp_it = Policy::emplace(d_seq, std::forward<K>(key), std::forward<Args>(args)...);
+				if (free_index != bucket_size()) {
+					// Use the first tombstone
+					index = free_index;
+					--d_tombstones;
+				}
 				d_buckets[index] = node_type(h, index == mask_hash(hash, d_hash_mask, d_hash_len) ? 0 : node_type::max_distance, tmp_it.as_uint());
 				return std::pair<iterator, bool>(tmp_it, true);
 			}
@@ -750,7 +767,8 @@ namespace seq
 
 				// Check for potential rehash.
 				// Avoid rehashing if the maximum distance is below 7.
-				if SEQ_UNLIKELY(size() >= d_hash_mask || (d_max_dist > 7 && size() >= d_next_target))
+				// Tombstones count as elements: lookups rely on the presence of empty nodes
+				if SEQ_UNLIKELY(size() + d_tombstones >= d_hash_mask || (d_max_dist > 7 && size() >= d_next_target))
 					rehash(size() * 2U);
 
 				// Check for purely linear hash table
@@ -777,7 +795,8 @@ namespace seq
 
 				// Check for potential rehash.
 				// Avoid rehashing if the maximum distance is below 7.
-				if SEQ_UNLIKELY(size() >= d_hash_mask || (d_max_dist > 7 && size() >= d_next_target))
+				// Tombstones count as elements: lookups rely on the presence of empty nodes
+				if SEQ_UNLIKELY(size() + d_tombstones >= d_hash_mask || (d_max_dist > 7 && size() >= d_next_target))
 					rehash(size() * 2U);
 
 				// Check for purely linear hash table
@@ -831,6 +850,7 @@ namespace seq
 				if SEQ_UNLIKELY(d_max_dist == node_type::max_distance) {
 					// Pure linear hash map: use tombstone
 					prev->empty_tombstone();
+					++d_tombstones;
 					return d_seq.erase(it); // return res;
 				}
 
@@ -876,7 +896,7 @@ namespace seq
 				d_seq.clear();
 				free_buckets(d_buckets);
 				d_buckets = null_node();
-				d_hash_mask = d_next_target = d_hash_len = 0;
+				d_hash_mask = d_next_target = d_hash_len = d_tombstones = 0;
 				d_max_dist = 1;
 			}
 		};
-- 
2.43.0


From 0cc394b2d5fca584214f8495ebcfba836aebd4c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:27 +0000
Subject: [PATCH 067/138] fix: tiny_string: null terminate empty strings
 (default construction, clear(), move)

---
 seq/tiny_string.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/seq/tiny_string.hpp b/seq/tiny_string.hpp
index b380671..9d702df 100644
--- a/seq/tiny_string.hpp
+++ b/seq/tiny_string.hpp
@@ -550,7 +550,8 @@ namespace seq
 
 			SEQ_STR_INLINE_STRONG void reset() noexcept
 			{
-				// Initialize with SSO string of size 0
+				// Initialize with null terminated SSO string of size 0
+				d_union.sso.data[0] = 0;
 				last_sso_char() = static_cast<unsigned_char>(sso_mask);
 			}
 		};
-- 
2.43.0


From d7646451f1927e6bb5d1a936dcecc8b48ea7ef44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:27 +0000
Subject: [PATCH 068/138] fix: tiny_string::shrink_to_fit(): use of the
 overwritten data pointer when the string becomes small

---
 seq/tiny_string.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/seq/tiny_string.hpp b/seq/tiny_string.hpp
index 9d702df..7c1e40c 100644
--- a/seq/tiny_string.hpp
+++ b/seq/tiny_string.hpp
@@ -1398,8 +1398,10 @@ namespace seq
 			if (!is_sso() && capacity_internal() != s + 1) {
 				Char* p = d_data.d_union.non_sso.data;
 				if (is_sso(s)) {
+					// read the capacity before overwriting the pointer
+					size_t capacity = capacity_internal();
 					memcpy(d_data.d_union.sso.data, p + char_offset, (s + 1) * sizeof(Char));
-					d_data.deallocate(p, capacity_internal() + char_offset);
+					d_data.deallocate(p, capacity + char_offset);
 				}
 				else {
 					Char* _new = d_data.allocate(s + char_offset + 1);
-- 
2.43.0


From 603fe67001ed0412e27ff2767df38e82bd03d7ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:37 +0000
Subject: [PATCH 069/138] fix: tiny_string: assign/append/insert/replace with a
 part of the string itself

---
 seq/tiny_string.hpp | 67 ++++++++++++++++++++++++++++++++++-----------
 1 file changed, 51 insertions(+), 16 deletions(-)

diff --git a/seq/tiny_string.hpp b/seq/tiny_string.hpp
index 7c1e40c..de69d55 100644
--- a/seq/tiny_string.hpp
+++ b/seq/tiny_string.hpp
@@ -911,6 +911,10 @@ namespace seq
 		void assign_cat(Iter first, Iter last, std::random_access_iterator_tag /*unused*/)
 		{
 			// assign range for random access iterators
+			if constexpr (std::is_same_v<Iter, Char*> || std::is_same_v<Iter, const Char*>) {
+				assign(static_cast<const Char*>(first), static_cast<size_t>(last - first));
+				return;
+			}
 			internal_resize(static_cast<size_t>(last - first), false, true);
 			std::copy(first, last, data());
 		}
@@ -938,6 +942,12 @@ namespace seq
 			SEQ_ASSERT_DEBUG(pos <= size(), "invalid insert position");
 			if (first == last)
 				return;
+			if (is_alias(first)) {
+				// insert a part of this string: copy it first
+				tiny_string tmp(first, last, get_allocator());
+				insert_cat(pos, tmp.cbegin(), tmp.cend(), std::random_access_iterator_tag());
+				return;
+			}
 
 			if (pos < size() / 2) {
 				size_type to_insert = static_cast<size_t>(last - first);
@@ -986,6 +996,12 @@ namespace seq
 		template<class Iter>
 		void replace_cat(size_t pos, size_t len, Iter first, Iter last, std::random_access_iterator_tag /*unused*/)
 		{
+			if (is_alias(first)) {
+				// replace by a part of this string: copy it first
+				tiny_string tmp(first, last, get_allocator());
+				replace_cat(pos, len, tmp.cbegin(), tmp.cend(), std::random_access_iterator_tag());
+				return;
+			}
 			size_t input_size = (last - first);
 			size_t new_size = size() - len + input_size;
 			if (new_size <= capacity()) {
@@ -1054,6 +1070,21 @@ namespace seq
 			return d_data.d_union.sso.data;
 		}
 
+		// Returns true if s points inside this string (null terminator included)
+		bool is_inside(const Char* s) const noexcept
+		{
+			return !std::less<const Char*>()(s, data()) && !std::less<const Char*>()(data() + size(), s);
+		}
+		// Returns true if the range starting at given iterator is a part of this string
+		template<class Iter>
+		bool is_alias(const Iter& it) const noexcept
+		{
+			if constexpr (std::is_same_v<Iter, Char*> || std::is_same_v<Iter, const Char*>)
+				return is_inside(it);
+			else
+				return false;
+		}
+
 	public:
 		static_assert(MaxStaticSize < max_allowed_sso_capacity, "tiny_string maximum static size is limited to 126 elements");
 
@@ -1236,6 +1267,8 @@ namespace seq
 		/// @brief Assign the content of other to this string
 		auto assign(const tiny_string& other) -> tiny_string&
 		{
+			if (this == std::addressof(other))
+				return *this;
 			if (is_sso() && other.is_sso())
 				memcpy(&d_data.d_union, &other.d_data.d_union, sizeof(d_data.d_union));
 			else {
@@ -1255,45 +1288,40 @@ namespace seq
 		template<class OtherAlloc, size_t OtherMaxStaticSize>
 		auto assign(const tiny_string<Char, Traits, OtherAlloc, OtherMaxStaticSize>& other) -> tiny_string&
 		{
-			internal_resize(other.size(), false, true);
-			memcpy(this->data(), other.c_str(), other.size() * sizeof(Char));
-			return *this;
+			return assign(other.data(), other.size());
 		}
 		/// @brief Assign the content of other to this string
 		template<class Al>
 		auto assign(const std::basic_string<Char, Traits, Al>& other) -> tiny_string&
 		{
-			internal_resize(other.size(), false, true);
-			memcpy(this->data(), other.c_str(), other.size() * sizeof(Char));
-			return *this;
+			return assign(other.data(), other.size());
 		}
 		/// @brief Assign the content of other to this string
 		auto assign(const std::basic_string_view<Char, Traits>& other) -> tiny_string&
 		{
-			internal_resize(other.size(), false, true);
-			memcpy(this->data(), other.data(), other.size() * sizeof(Char));
-			return *this;
+			return assign(other.data(), other.size());
 		}
 		/// @brief Assign a sub-part of other to this string
 		auto assign(const tiny_string& str, size_t subpos, size_t sublen) -> tiny_string&
 		{
 			if (sublen == npos || subpos + sublen > str.size())
 				sublen = str.size() - subpos;
-			internal_resize(sublen, false, true);
-			memcpy(this->data(), str.data() + subpos, sublen * sizeof(Char));
-			return *this;
+			return assign(str.data() + subpos, sublen);
 		}
 		/// @brief Assign a null-terminated buffer to this string
 		auto assign(const Char* s) -> tiny_string&
 		{
-			size_t len = Traits::length(s);
-			internal_resize(len, false, true);
-			memcpy(this->data(), s, len * sizeof(Char));
-			return *this;
+			return assign(s, Traits::length(s));
 		}
 		/// @brief Assign a buffer to this string
 		auto assign(const Char* s, size_t n) -> tiny_string&
 		{
+			if SEQ_UNLIKELY (is_inside(s)) {
+				// part of this string
+				memmove(this->data(), s, n * sizeof(Char));
+				internal_resize(n, true);
+				return *this;
+			}
 			internal_resize(n, false, true);
 			memcpy(this->data(), s, n * sizeof(Char));
 			return *this;
@@ -1578,7 +1606,12 @@ namespace seq
 				return *this;
 			size_t old_size = size();
 			size_t new_size = old_size + n;
+			// the buffer might be a part of this string
+			const bool inside = is_inside(s);
+			const size_t offset = inside ? static_cast<size_t>(s - data()) : 0;
 			Char* d = resize_grow(new_size);
+			if SEQ_UNLIKELY (inside)
+				s = d + offset;
 			memcpy(d + old_size, s, n * sizeof(Char));
 			d[new_size] = 0;
 			return *this;
@@ -1601,6 +1634,8 @@ namespace seq
 		{
 			if (first == last)
 				return *this;
+			if constexpr (std::is_same_v<Iter, Char*> || std::is_same_v<Iter, const Char*>)
+				return append(static_cast<const Char*>(first), static_cast<size_t>(last - first));
 			if (std::is_same_v<typename std::iterator_traits<Iter>::iterator_category, std::random_access_iterator_tag>) {
 				size_t n = std::distance(first, last);
 				size_t old_size = size();
-- 
2.43.0


From 4a67cf73865d0bf2bc4f5ea65d606251446c1a87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:37 +0000
Subject: [PATCH 070/138] fix: tiny_string: temporary strings swapped with
 *this must use its allocator

---
 seq/tiny_string.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/seq/tiny_string.hpp b/seq/tiny_string.hpp
index de69d55..0bd623a 100644
--- a/seq/tiny_string.hpp
+++ b/seq/tiny_string.hpp
@@ -900,7 +900,7 @@ namespace seq
 		void assign_cat(Iter first, Iter last, Cat /*unused*/)
 		{
 			// assign range for non random access iterators
-			tiny_string tmp;
+			tiny_string tmp(get_allocator());
 			while (first != last) {
 				tmp.push_back(*first);
 				++first;
@@ -1018,7 +1018,7 @@ namespace seq
 			}
 
 			// otherwise, create a new string and fill it (might throw)
-			tiny_string other(new_size, 0);
+			tiny_string other(new_size, 0, get_allocator());
 			Char* op = other.data();
 			// first part
 			memcpy(op, data(), pos * sizeof(Char));
@@ -1033,7 +1033,7 @@ namespace seq
 		void replace_cat(size_t pos, size_t len, Iter first, Iter last, Cat c)
 		{
 			// otherwise, create a new string and fill it
-			tiny_string other;
+			tiny_string other(get_allocator());
 			// first part
 			other.append(data(), pos);
 			// middle part
@@ -1394,7 +1394,7 @@ namespace seq
 				return;
 			}
 
-			tiny_string other(n, 0);
+			tiny_string other(n, 0, get_allocator());
 			if (n > old_size) {
 				std::fill_n(other.data(), n - old_size, c);
 				memcpy(other.data() + n - old_size, data(), old_size * sizeof(Char));
-- 
2.43.0


From 6e7ef57e81e00d48ef036052e81365c60b8e1a10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:37 +0000
Subject: [PATCH 071/138] fix: tiny_string, tstring_view: lengths larger than
 the remaining part of the string

---
 seq/tiny_string.hpp | 56 +++++++++++++++++++++++----------------------
 1 file changed, 29 insertions(+), 27 deletions(-)

diff --git a/seq/tiny_string.hpp b/seq/tiny_string.hpp
index 0bd623a..aabec33 100644
--- a/seq/tiny_string.hpp
+++ b/seq/tiny_string.hpp
@@ -1046,6 +1046,8 @@ namespace seq
 		void replace_internal(size_t pos, size_t len, Iter first, Iter last)
 		{
 			// replace portion of the string
+			if (len > size() - pos)
+				len = size() - pos;
 			replace_cat(pos, len, first, last, typename std::iterator_traits<Iter>::iterator_category());
 		}
 
@@ -1183,7 +1185,7 @@ namespace seq
 		tiny_string(const tiny_string& other, size_t pos, size_t len, const Allocator& al = Allocator())
 		  : d_data(al)
 		{
-			if (len == npos || pos + len > other.size())
+			if (len == npos || len > other.size() - pos)
 				len = other.size() - pos;
 			memcpy(initialize(len), other.data() + pos, len * sizeof(Char));
 		}
@@ -1304,7 +1306,7 @@ namespace seq
 		/// @brief Assign a sub-part of other to this string
 		auto assign(const tiny_string& str, size_t subpos, size_t sublen) -> tiny_string&
 		{
-			if (sublen == npos || subpos + sublen > str.size())
+			if (sublen == npos || sublen > str.size() - subpos)
 				sublen = str.size() - subpos;
 			return assign(str.data() + subpos, sublen);
 		}
@@ -1575,7 +1577,7 @@ namespace seq
 		template<size_t Ss, class Al>
 		auto append(const tiny_string<Char, Traits, Al, Ss>& str, size_t subpos, size_t sublen = npos) -> tiny_string&
 		{
-			if (sublen == npos || subpos + sublen > str.size())
+			if (sublen == npos || sublen > str.size() - subpos)
 				sublen = str.size() - subpos;
 			return append(str.data() + subpos, sublen);
 		}
@@ -1583,7 +1585,7 @@ namespace seq
 		template<class Al>
 		auto append(const std::basic_string<Char, Traits, Al>& str, size_t subpos, size_t sublen = npos) -> tiny_string&
 		{
-			if (sublen == npos || subpos + sublen > str.size())
+			if (sublen == npos || sublen > str.size() - subpos)
 				sublen = str.size() - subpos;
 			return append(str.data() + subpos, sublen);
 		}
@@ -1591,7 +1593,7 @@ namespace seq
 		/// @brief Append the sub-part of str to this string
 		auto append(const std::basic_string_view<Char, Traits>& str, size_t subpos, size_t sublen = npos) -> tiny_string&
 		{
-			if (sublen == npos || subpos + sublen > str.size())
+			if (sublen == npos || sublen > str.size() - subpos)
 				sublen = str.size() - subpos;
 			return append(str.data() + subpos, sublen);
 		}
@@ -1680,7 +1682,7 @@ namespace seq
 		/// @brief Inserts a sub-part of str at position pos
 		auto insert(size_t pos, const tiny_string& str, size_t subpos, size_t sublen = npos) -> tiny_string&
 		{
-			if (sublen == npos || subpos + sublen > str.size())
+			if (sublen == npos || sublen > str.size() - subpos)
 				sublen = str.size() - subpos;
 			insert(begin() + pos, str.begin() + subpos, str.begin() + subpos + sublen);
 			return *this;
@@ -1728,7 +1730,7 @@ namespace seq
 		/// @brief Removes up to sublen character starting from subpos
 		auto erase(size_t subpos, size_t sublen = npos) -> tiny_string&
 		{
-			if (sublen == npos || subpos + sublen > size())
+			if (sublen == npos || sublen > size() - subpos)
 				sublen = size() - subpos;
 			erase_internal(subpos, subpos + sublen);
 			return *this;
@@ -1752,7 +1754,7 @@ namespace seq
 		template<class Al>
 		auto replace(size_t pos, size_t len, const std::basic_string<Char, Traits, Al>& str) -> tiny_string&
 		{
-			if (len == npos || pos + len > size())
+			if (len == npos || len > size() - pos)
 				len = size() - pos;
 			replace_internal(pos, len, str.begin(), str.end());
 			return *this;
@@ -1761,7 +1763,7 @@ namespace seq
 		/// @brief Replace up to len character starting from pos by str
 		auto replace(size_t pos, size_t len, const std::basic_string_view<Char, Traits>& str) -> tiny_string&
 		{
-			if (len == npos || pos + len > size())
+			if (len == npos || len > size() - pos)
 				len = size() - pos;
 			replace_internal(pos, len, str.begin(), str.end());
 			return *this;
@@ -1786,7 +1788,7 @@ namespace seq
 		template<class Al, size_t S>
 		auto replace(size_t pos, size_t len, const tiny_string<Char, Traits, Al, S>& str) -> tiny_string&
 		{
-			if (len == npos || pos + len > size())
+			if (len == npos || len > size() - pos)
 				len = size() - pos;
 			replace_internal(pos, len, str.begin(), str.end());
 			return *this;
@@ -1803,10 +1805,10 @@ namespace seq
 		template<class Al, size_t S>
 		auto replace(size_t pos, size_t len, const tiny_string<Char, Traits, Al, S>& str, size_t subpos, size_t sublen) -> tiny_string&
 		{
-			if (len == npos || pos + len > size())
+			if (len == npos || len > size() - pos)
 				len = size() - pos;
-			if (sublen == npos || subpos + sublen > str.size())
-				sublen = size() - subpos;
+			if (sublen == npos || sublen > str.size() - subpos)
+				sublen = str.size() - subpos;
 			replace_internal(pos, len, str.begin() + subpos, str.begin() + subpos + sublen);
 			return *this;
 		}
@@ -1814,10 +1816,10 @@ namespace seq
 		template<class Al>
 		auto replace(size_t pos, size_t len, const std::basic_string<Char, Traits, Al>& str, size_t subpos, size_t sublen) -> tiny_string&
 		{
-			if (len == npos || pos + len > size())
+			if (len == npos || len > size() - pos)
 				len = size() - pos;
-			if (sublen == npos || subpos + sublen > str.size())
-				sublen = size() - subpos;
+			if (sublen == npos || sublen > str.size() - subpos)
+				sublen = str.size() - subpos;
 			replace_internal(pos, len, str.begin() + subpos, str.begin() + subpos + sublen);
 			return *this;
 		}
@@ -1825,10 +1827,10 @@ namespace seq
 		/// @brief Replace up to len character starting from pos by a sub-part of str
 		auto replace(size_t pos, size_t len, const std::basic_string_view<Char, Traits>& str, size_t subpos, size_t sublen) -> tiny_string&
 		{
-			if (len == npos || pos + len > size())
+			if (len == npos || len > size() - pos)
 				len = size() - pos;
-			if (sublen == npos || subpos + sublen > str.size())
-				sublen = size() - subpos;
+			if (sublen == npos || sublen > str.size() - subpos)
+				sublen = str.size() - subpos;
 			replace_internal(pos, len, str.begin() + subpos, str.begin() + subpos + sublen);
 			return *this;
 		}
@@ -1960,7 +1962,7 @@ namespace seq
 		{
 			if (pos > size())
 				throw std::out_of_range("tiny_string::copy out of range");
-			if (len == npos || pos + len > size())
+			if (len == npos || len > size() - pos)
 				len = size() - pos;
 			memcpy(s, data() + pos, len * sizeof(Char));
 			return len;
@@ -1971,7 +1973,7 @@ namespace seq
 		{
 			if (pos > size())
 				throw std::out_of_range("tiny_string::substr out of range");
-			if (len == npos || pos + len > size())
+			if (len == npos || len > size() - pos)
 				len = size() - pos;
 			return tiny_string<Char, Traits, view_allocator<Char>, 0>(begin() + pos, len);
 		}
@@ -2099,7 +2101,7 @@ namespace seq
 		template<class Al, size_t S>
 		auto compare(size_t pos, size_t len, const tiny_string<Char, Traits, Al, S>& str, size_t subpos, size_t sublen) const noexcept -> int
 		{
-			if (sublen == npos || subpos + sublen > str.size())
+			if (sublen == npos || sublen > str.size() - subpos)
 				sublen = str.size() - subpos;
 			return compare(pos, len, str.data() + subpos, sublen);
 		}
@@ -2107,7 +2109,7 @@ namespace seq
 		auto compare(size_t pos, size_t len, const Char* s) const noexcept -> int { return compare(pos, len, s, Traits::length(s)); }
 		auto compare(size_t pos, size_t len, const Char* _s, size_t n) const noexcept -> int
 		{
-			if (len == npos) //|| pos + len > size())
+			if (len > size() - pos)
 				len = size() - pos;
 			return detail::traits_string_compare<Traits>(data() + pos, len, _s, n);
 		}
@@ -2349,7 +2351,7 @@ namespace seq
 			if (pos > size()) {
 				throw std::out_of_range("tiny_string::copy out of range");
 			}
-			if (len == npos || pos + len > size()) {
+			if (len == npos || len > size() - pos) {
 				len = size() - pos;
 			}
 			memcpy(s, data() + pos, len * sizeof(Char));
@@ -2361,7 +2363,7 @@ namespace seq
 			if (pos > size()) {
 				throw std::out_of_range("tiny_string::substr out of range");
 			}
-			if (len == npos || pos + len > size()) {
+			if (len == npos || len > size() - pos) {
 				len = size() - pos;
 			}
 			return { begin() + pos, len };
@@ -2491,7 +2493,7 @@ namespace seq
 		template<class A, size_t S>
 		auto compare(size_t pos, size_t len, const tiny_string<Char, Traits, A, S>& str, size_t subpos, size_t sublen) const noexcept -> int
 		{
-			if (sublen == npos || subpos + sublen > str.size()) {
+			if (sublen == npos || sublen > str.size() - subpos) {
 				sublen = str.size() - subpos;
 			}
 			return compare(pos, len, str.data() + subpos, sublen);
@@ -2501,7 +2503,7 @@ namespace seq
 		auto compare(size_t pos, size_t len, const Char* _s, size_t n) const noexcept -> int
 		{
 
-			if (len == npos) //|| pos + len > size())
+			if (len > size() - pos)
 				len = size() - pos;
 			return detail::traits_string_compare<Traits>(data() + pos, len, _s, n);
 		}
-- 
2.43.0


From 303845ebb220236c616f03ba5fc9f2f683a4bf64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:24 +0000
Subject: [PATCH 072/138] fix: tiny_string::replace(): the moved tail was
 counted in bytes for wide characters

---
 seq/tiny_string.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seq/tiny_string.hpp b/seq/tiny_string.hpp
index aabec33..3b313c6 100644
--- a/seq/tiny_string.hpp
+++ b/seq/tiny_string.hpp
@@ -1007,7 +1007,7 @@ namespace seq
 			if (new_size <= capacity()) {
 				// do everything inplace
 				if (input_size != len)
-					memmove(data() + pos + input_size, data() + pos + len, size() - (pos + len));
+					memmove(data() + pos + input_size, data() + pos + len, (size() - (pos + len)) * sizeof(Char));
 
 				// copy input
 				std::copy(first, last, data() + pos);
-- 
2.43.0


From 485748a3a4a452685bc306c11550fa98328b32b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:32 +0000
Subject: [PATCH 073/138] fix: tiny_string: calls to find_last_of(s, pos) and
 find_last_not_of(s, pos) were ambiguous

---
 seq/tiny_string.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/seq/tiny_string.hpp b/seq/tiny_string.hpp
index 3b313c6..57ea24a 100644
--- a/seq/tiny_string.hpp
+++ b/seq/tiny_string.hpp
@@ -2031,7 +2031,7 @@ namespace seq
 			return find_last_of(str.data(), pos, str.size());
 		}
 		auto find_last_of(const Char* s, size_t pos = npos) const noexcept -> size_t { return find_last_of(s, pos, Traits::length(s)); }
-		auto find_last_of(const Char* s, size_t pos, size_t n = npos) const noexcept -> size_t { return detail::traits_string_find_last_of<Traits>(data(), pos, size(), s, n, npos); }
+		auto find_last_of(const Char* s, size_t pos, size_t n) const noexcept -> size_t { return detail::traits_string_find_last_of<Traits>(data(), pos, size(), s, n, npos); }
 		auto find_last_of(Char c, size_t pos = npos) const noexcept -> size_t { return rfind(c, pos); }
 
 		template<class Al, size_t S>
@@ -2056,7 +2056,7 @@ namespace seq
 			return find_last_not_of(str.data(), pos, str.size());
 		}
 		auto find_last_not_of(const Char* s, size_t pos = npos) const noexcept -> size_t { return find_last_not_of(s, pos, Traits::length(s)); }
-		auto find_last_not_of(const Char* s, size_t pos, size_t n = npos) const noexcept -> size_t { return detail::traits_string_find_last_not_of<Traits>(data(), pos, size(), s, n, npos); }
+		auto find_last_not_of(const Char* s, size_t pos, size_t n) const noexcept -> size_t { return detail::traits_string_find_last_not_of<Traits>(data(), pos, size(), s, n, npos); }
 		auto find_last_not_of(Char c, size_t pos = npos) const noexcept -> size_t
 		{
 			if (size() == 0)
-- 
2.43.0


From 8133b0b78901475b08d2cc060606dcaf2aecd84b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:32 +0000
Subject: [PATCH 074/138] fix: tstring_view: rfind, find_last_of and
 find_last_not_of on character pointers did not compile

---
 seq/tiny_string.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/seq/tiny_string.hpp b/seq/tiny_string.hpp
index 57ea24a..7da363a 100644
--- a/seq/tiny_string.hpp
+++ b/seq/tiny_string.hpp
@@ -2404,7 +2404,7 @@ namespace seq
 		auto rfind(const std::basic_string_view<Char, Traits>& str, size_t pos = npos) const noexcept -> size_t { return rfind(str.data(), pos, str.size()); }
 
 		auto rfind(const Char* s, size_t pos = npos) const noexcept -> size_t { return rfind(s, pos, Traits::length(s)); }
-		auto rfind(const Char* s, size_t pos, size_type n) const noexcept -> size_t { return detail::traits_string_rfind(data(), pos, size(), s, n, npos); }
+		auto rfind(const Char* s, size_t pos, size_type n) const noexcept -> size_t { return detail::traits_string_rfind<Traits>(data(), pos, size(), s, n, npos); }
 		auto rfind(Char c, size_t pos = npos) const noexcept -> size_t { return std::basic_string_view<Char, Traits>(data(), size()).rfind(c, pos); }
 
 		auto find_first_of(const Char* s, size_t pos, size_t n) const noexcept -> size_t { return detail::traits_string_find_first_of<Traits>(data(), pos, size(), s, n, npos); }
@@ -2422,7 +2422,7 @@ namespace seq
 			return find_last_of(str.data(), pos, str.size());
 		}
 		auto find_last_of(const Char* s, size_t pos = npos) const noexcept -> size_t { return find_last_of(s, pos, Traits::length(s)); }
-		auto find_last_of(const Char* s, size_t pos, size_t n) const noexcept -> size_t { return detail::traits_string_find_last_of(data(), pos, size(), s, n, npos); }
+		auto find_last_of(const Char* s, size_t pos, size_t n) const noexcept -> size_t { return detail::traits_string_find_last_of<Traits>(data(), pos, size(), s, n, npos); }
 		auto find_last_of(Char c, size_t pos = npos) const noexcept -> size_t { return rfind(c, pos); }
 
 		template<class A, size_t S>
@@ -2449,7 +2449,7 @@ namespace seq
 			return find_last_not_of(str.data(), pos, str.size());
 		}
 		auto find_last_not_of(const Char* s, size_t pos = npos) const noexcept -> size_t { return find_last_not_of(s, pos, Traits::length(s)); }
-		auto find_last_not_of(const Char* s, size_t pos, size_t n) const noexcept -> size_t { return detail::traits_string_find_last_not_of(data(), pos, size(), s, n, npos); }
+		auto find_last_not_of(const Char* s, size_t pos, size_t n) const noexcept -> size_t { return detail::traits_string_find_last_not_of<Traits>(data(), pos, size(), s, n, npos); }
 		auto find_last_not_of(Char c, size_t pos = npos) const noexcept -> size_t
 		{
 			if (size() == 0) {
-- 
2.43.0


From e60c47408686ba2dacdfebeadf67132994dd4eb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:32 +0000
Subject: [PATCH 075/138] fix: tiny_string: operator+ did not compile for wide
 characters

---
 seq/tiny_string.hpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/seq/tiny_string.hpp b/seq/tiny_string.hpp
index 7da363a..ab038de 100644
--- a/seq/tiny_string.hpp
+++ b/seq/tiny_string.hpp
@@ -2810,45 +2810,45 @@ namespace seq
 	template<class Char, class Traits, size_t Size, class Al, class Al2>
 	SEQ_STR_INLINE auto operator+(const tiny_string<Char, Traits, Al, Size>& lhs, const std::basic_string<Char, Traits, Al2>& rhs)
 	{
-		return lhs + tstring_view(rhs.data(), rhs.size());
+		return lhs + tiny_string<Char, Traits, view_allocator<Char>, 0>(rhs.data(), rhs.size());
 	}
 	template<class Char, class Traits, size_t Size, class Al>
 	SEQ_STR_INLINE auto operator+(const tiny_string<Char, Traits, Al, Size>& lhs, const std::basic_string_view<Char, Traits>& rhs)
 	{
-		return lhs + tstring_view(rhs.data(), rhs.size());
+		return lhs + tiny_string<Char, Traits, view_allocator<Char>, 0>(rhs.data(), rhs.size());
 	}
 
 	template<class Char, class Traits, size_t Size, class Al>
 	SEQ_STR_INLINE auto operator+(const tiny_string<Char, Traits, Al, Size>& lhs, const Char* rhs)
 	{
-		return lhs + tstring_view(rhs);
+		return lhs + tiny_string<Char, Traits, view_allocator<Char>, 0>(rhs);
 	}
 	template<class Char, class Traits, size_t Size, class Al>
-	SEQ_STR_INLINE auto operator+(const tiny_string<Char, Traits, Al, Size>& lhs, char rhs)
+	SEQ_STR_INLINE auto operator+(const tiny_string<Char, Traits, Al, Size>& lhs, Char rhs)
 	{
-		return lhs + tstring_view(&rhs, 1);
+		return lhs + tiny_string<Char, Traits, view_allocator<Char>, 0>(&rhs, 1);
 	}
 
 	template<class Char, class Traits, size_t Size, class Al, class Al2>
 	SEQ_STR_INLINE auto operator+(const std::basic_string<Char, Traits, Al2>& lhs, const tiny_string<Char, Traits, Al, Size>& rhs)
 	{
-		return tstring_view(lhs.data(), lhs.size()) + rhs;
+		return tiny_string<Char, Traits, view_allocator<Char>, 0>(lhs.data(), lhs.size()) + rhs;
 	}
 	template<class Char, class Traits, size_t Size, class Al>
 	SEQ_STR_INLINE auto operator+(const std::basic_string_view<Char, Traits>& lhs, const tiny_string<Char, Traits, Al, Size>& rhs)
 	{
-		return tstring_view(lhs.data(), lhs.size()) + rhs;
+		return tiny_string<Char, Traits, view_allocator<Char>, 0>(lhs.data(), lhs.size()) + rhs;
 	}
 
 	template<class Char, class Traits, size_t Size, class Al>
 	SEQ_STR_INLINE auto operator+(const Char* lhs, const tiny_string<Char, Traits, Al, Size>& rhs)
 	{
-		return tstring_view(lhs) + rhs;
+		return tiny_string<Char, Traits, view_allocator<Char>, 0>(lhs) + rhs;
 	}
 	template<class Char, class Traits, size_t Size, class Al>
 	SEQ_STR_INLINE auto operator+(Char lhs, const tiny_string<Char, Traits, Al, Size>& rhs)
 	{
-		return tstring_view(&lhs, 1) + rhs;
+		return tiny_string<Char, Traits, view_allocator<Char>, 0>(&lhs, 1) + rhs;
 	}
 
 	/// @brief Returns the string data (const char*) for given string object
-- 
2.43.0


From bd008a24793e08a497c41532234ce495cd9dc52e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:58 +0000
Subject: [PATCH 076/138] fix: tiny_string, tstring_view: find() and
 find_first_not_of() from a position beyond the end, find() of an empty string

---
 seq/tiny_string.hpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/seq/tiny_string.hpp b/seq/tiny_string.hpp
index ab038de..0d24a9d 100644
--- a/seq/tiny_string.hpp
+++ b/seq/tiny_string.hpp
@@ -363,10 +363,10 @@ namespace seq
 		template<class Traits, class Char>
 		inline auto traits_string_find(const Char* data, size_t pos, size_t size, const Char* s, size_t n, size_t npos) noexcept -> size_t
 		{
-			if (n > size || pos + n > size)
+			if (pos > size || n > size - pos)
 				return npos;
 			if (n == 0)
-				return 0;
+				return pos;
 
 			const Char* in = data + pos;
 			const Char* end = in + (size - pos - n) + 1;
@@ -1995,6 +1995,8 @@ namespace seq
 		auto find(const Char* s, size_t pos, size_type n) const noexcept -> size_t { return detail::traits_string_find<Traits>(data(), pos, size(), s, n, npos); }
 		auto find(Char c, size_t pos = 0) const noexcept -> size_t
 		{
+			if (pos >= size())
+				return npos;
 			const Char* p = Traits::find(data() + pos, size() - pos, c);
 			return p == NULL ? npos : p - begin();
 		}
@@ -2043,6 +2045,8 @@ namespace seq
 		auto find_first_not_of(const Char* s, size_t pos, size_t n) const noexcept -> size_t { return detail::traits_string_find_first_not_of<Traits>(data(), pos, size(), s, n, npos); }
 		auto find_first_not_of(Char c, size_t pos = 0) const noexcept -> size_t
 		{
+			if (pos >= size())
+				return npos;
 			const Char* e = end();
 			for (const Char* p = data() + pos; p != e; ++p)
 				if (*p != c)
@@ -2386,6 +2390,8 @@ namespace seq
 		auto find(const Char* s, size_t pos, size_type n) const noexcept -> size_t { return detail::traits_string_find<Traits>(data(), pos, size(), s, n, npos); }
 		auto find(Char c, size_t pos = 0) const noexcept -> size_t
 		{
+			if (pos >= size())
+				return npos;
 			const Char* p = Traits::find(data() + pos, size() - pos, c);
 			return p == nullptr ? npos : static_cast<size_t>(p - begin());
 		}
@@ -2434,6 +2440,8 @@ namespace seq
 		auto find_first_not_of(const Char* s, size_t pos, size_t n) const noexcept -> size_t { return detail::traits_string_find_first_not_of<Traits>(data(), pos, size(), s, n, npos); }
 		auto find_first_not_of(Char c, size_t pos = 0) const noexcept -> size_t
 		{
+			if (pos >= size())
+				return npos;
 			const Char* e = end();
 			for (const Char* p = data() + pos; p != e; ++p) {
 				if (*p != c) {
-- 
2.43.0


From 44b62820df85f3e09f310c1a4df76f2e865daf42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:13 +0000
Subject: [PATCH 077/138] fix: tiny_string: the first character was not
 compared like the others for signed wide characters

---
 seq/tiny_string.hpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/seq/tiny_string.hpp b/seq/tiny_string.hpp
index 0d24a9d..c628637 100644
--- a/seq/tiny_string.hpp
+++ b/seq/tiny_string.hpp
@@ -129,11 +129,9 @@ namespace seq
 		template<class Traits, class Char>
 		SEQ_STR_INLINE_STRONG int traits_string_compare(const Char* v1, size_t l1, const Char* v2, size_t l2) noexcept
 		{
-			using unsigned_char = typename std::make_unsigned<Char>::type;
-
 			size_t l = l1 < l2 ? l1 : l2;
 			if (l && *v1 != *v2)
-				return (static_cast<unsigned_char>(*v1) < static_cast<unsigned_char>(*v2)) ? -1 : 1;
+				return Traits::lt(*v1, *v2) ? -1 : 1;
 
 #ifndef SEQ_NO_FAST_BSWAP
 			if constexpr (sizeof(Char) == 1) {
@@ -179,7 +177,7 @@ namespace seq
 				}
 				if (v1 != end) {
 					if (*v1 != *v2) {
-						return static_cast<unsigned_char>(*v1) < static_cast<unsigned_char>(*v2) ? -1 : 1;
+						return Traits::lt(*v1, *v2) ? -1 : 1;
 					}
 				}
 				return (l1 < l2 ? -1 : (l1 > l2));
-- 
2.43.0


From 004ed024c5758e0ab7802532d8ef40989246fff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:12 +0000
Subject: [PATCH 078/138] fix: radix_hash_map ignored the key_equal of its
 initializer list constructor

---
 seq/radix_hash_map.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/seq/radix_hash_map.hpp b/seq/radix_hash_map.hpp
index 8da8b62..ee16e88 100644
--- a/seq/radix_hash_map.hpp
+++ b/seq/radix_hash_map.hpp
@@ -661,8 +661,8 @@ namespace seq
 		  : d_tree(std::move(other.d_tree), alloc)
 		{
 		}
-		radix_hash_map(std::initializer_list<value_type> init, const Hash& hash = Hash(), const key_equal& = key_equal(), const Allocator& alloc = Allocator())
-		  : radix_hash_map(init.begin(), init.end(), hash, key_equal(), alloc)
+		radix_hash_map(std::initializer_list<value_type> init, const Hash& hash = Hash(), const key_equal& equal = key_equal(), const Allocator& alloc = Allocator())
+		  : radix_hash_map(init.begin(), init.end(), hash, equal, alloc)
 		{
 		}
 		radix_hash_map(std::initializer_list<value_type> init, const Hash& hash, const Allocator& alloc)
-- 
2.43.0


From 106bbebb3557e1095a947295f64bec5f63f20dae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:12 +0000
Subject: [PATCH 079/138] fix: to_chars of integers: overflow of the temporary
 buffer, and truncated padding, with a large minimum width

---
 seq/charconv.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/seq/charconv.hpp b/seq/charconv.hpp
index ef2c0d3..2be546f 100644
--- a/seq/charconv.hpp
+++ b/seq/charconv.hpp
@@ -1135,8 +1135,10 @@ namespace seq
 				}
 				const char* chars = fmt.upper_case ? upper_chars : lower_chars;
 				int min_width = static_cast<int>(fmt.integral_min_width);
-				char tmp[66];
-				int index = 65;
+				// room for the largest minimum width (255), or 64 binary digits, the prefix and the sign
+				char tmp[260];
+				static constexpr int last = static_cast<int>(sizeof(tmp)) - 1;
+				int index = last;
 				tmp[index] = 0;
 				unsigned neg = 0;
 
@@ -1158,8 +1160,8 @@ namespace seq
 					val = _new;
 				}
 				if (min_width >= 0) {
-					int count = 65 - index;
-					while (min_width-- > count && index > 0) {
+					int count = last - index;
+					while (min_width-- > count) {
 						tmp[--index] = '0';
 					}
 				}
-- 
2.43.0


From 11a668915b6de93237bb105164c9dfd0bab91c81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:12 +0000
Subject: [PATCH 080/138] fix: reading the lowest value of a signed integer was
 a signed overflow

---
 seq/charconv.hpp | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/seq/charconv.hpp b/seq/charconv.hpp
index 2be546f..29756bb 100644
--- a/seq/charconv.hpp
+++ b/seq/charconv.hpp
@@ -489,8 +489,10 @@ namespace seq
 
 			str.reset();
 
+			// compute with the unsigned type, as the value silently overflows
+			using uint_type = typename integer_abs_return<T>::type;
 			typename Stream::streamsize saved = str.tell();
-			T x = 0;
+			uint_type x = 0;
 			int sign = 1;
 
 			// get first character
@@ -518,12 +520,12 @@ namespace seq
 			else if SEQ_UNLIKELY (!is_digit(first))
 				goto error;
 			else {
-				x = static_cast<T>(first - '0');
+				x = static_cast<uint_type>(first - '0');
 				first = (int)str.getc();
 			}
 
 			while (is_digit(first)) {
-				x = (x * static_cast<T>(10)) + static_cast<T>(first - '0');
+				x = static_cast<uint_type>((x * static_cast<uint_type>(10)) + static_cast<uint_type>(first - '0'));
 				first = (int)str.getc();
 			}
 			if (first != EOF)
@@ -531,7 +533,7 @@ namespace seq
 
 			str.reset();
 
-			return sign_value(x, sign);
+			return static_cast<T>(sign_value(x, sign));
 
 		error:
 			if (str)
@@ -553,8 +555,10 @@ namespace seq
 
 			str.reset();
 
+			// compute with the unsigned type, as the value silently overflows
+			using uint_type = typename integer_abs_return<T>::type;
 			typename Stream::streamsize saved = str.tell();
-			T x = 0;
+			uint_type x = 0;
 			int sign = 1;
 			unsigned val;
 			// get frist character
@@ -585,7 +589,7 @@ namespace seq
 				val = to_digit_hex(first);
 				if SEQ_UNLIKELY (val >= base)
 					goto error;
-				x = static_cast<T>(val);
+				x = static_cast<uint_type>(val);
 
 				// read second one
 				first = (int)str.getc();
@@ -594,7 +598,7 @@ namespace seq
 					if (x != 0) {
 						// X after non 0 digit, return
 						str.back();
-						return sign_value(x, sign); // sign == -1 ? -x : x;
+						return static_cast<T>(sign_value(x, sign));
 					}
 					first = (int)str.getc();
 					val = to_digit_hex(first);
@@ -608,15 +612,15 @@ namespace seq
 				if SEQ_UNLIKELY (val >= base) {
 					// invalid char
 					str.back();
-					return sign_value(x, sign); // sign == -1 ? -x : x;
+					return static_cast<T>(sign_value(x, sign));
 				}
-				x = (x * static_cast<T>(base)) + static_cast<T>(val);
+				x = static_cast<uint_type>((x * static_cast<uint_type>(base)) + static_cast<uint_type>(val));
 				first = (int)str.getc();
 				val = to_digit_hex(first);
 			}
 
 			while (val < base) {
-				x = (x * static_cast<T>(base)) + static_cast<T>(val);
+				x = static_cast<uint_type>((x * static_cast<uint_type>(base)) + static_cast<uint_type>(val));
 				first = (int)str.getc();
 				val = to_digit_hex(first);
 			}
@@ -624,7 +628,7 @@ namespace seq
 				str.back();
 
 			str.reset();
-			return sign_value(x, sign); // sign == -1 ? -x : x;
+			return static_cast<T>(sign_value(x, sign));
 
 		error:
 			if (str)
-- 
2.43.0


From 8d9d82c885b7cc06832bcd5297c0bb57d6d0b8c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:12 +0000
Subject: [PATCH 081/138] fix: from_chars/from_stream accepted a sign without
 digits as the integer 0

---
 seq/charconv.hpp | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/seq/charconv.hpp b/seq/charconv.hpp
index 29756bb..be4e5f3 100644
--- a/seq/charconv.hpp
+++ b/seq/charconv.hpp
@@ -517,12 +517,8 @@ namespace seq
 				sign = -1;
 				first = (int)str.getc();
 			}
-			else if SEQ_UNLIKELY (!is_digit(first))
+			if SEQ_UNLIKELY (!is_digit(first))
 				goto error;
-			else {
-				x = static_cast<uint_type>(first - '0');
-				first = (int)str.getc();
-			}
 
 			while (is_digit(first)) {
 				x = static_cast<uint_type>((x * static_cast<uint_type>(10)) + static_cast<uint_type>(first - '0'));
-- 
2.43.0


From e8ddea7c85532cdfe0476565661e88275541d4be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:12 +0000
Subject: [PATCH 082/138] fix: from_chars/from_stream failed to read a single
 digit before the end of input when the base is not 10

---
 seq/charconv.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/seq/charconv.hpp b/seq/charconv.hpp
index be4e5f3..5b2c5a4 100644
--- a/seq/charconv.hpp
+++ b/seq/charconv.hpp
@@ -594,6 +594,7 @@ namespace seq
 					if (x != 0) {
 						// X after non 0 digit, return
 						str.back();
+						str.reset();
 						return static_cast<T>(sign_value(x, sign));
 					}
 					first = (int)str.getc();
@@ -607,7 +608,9 @@ namespace seq
 
 				if SEQ_UNLIKELY (val >= base) {
 					// invalid char
-					str.back();
+					if (first != EOF)
+						str.back();
+					str.reset();
 					return static_cast<T>(sign_value(x, sign));
 				}
 				x = static_cast<uint_type>((x * static_cast<uint_type>(base)) + static_cast<uint_type>(val));
-- 
2.43.0


From 8405f767381e47bae51e060183482979a04241c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:12 +0000
Subject: [PATCH 083/138] fix: wide characters were truncated before being
 compared with hexadecimal digits, 'nan' and 'inf'

---
 seq/charconv.hpp | 14 +++++++-------
 seq/format.hpp   |  2 +-
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/seq/charconv.hpp b/seq/charconv.hpp
index 5b2c5a4..aac4be6 100644
--- a/seq/charconv.hpp
+++ b/seq/charconv.hpp
@@ -406,10 +406,10 @@ namespace seq
 		{
 			return c == '\n' || c == '\r';
 		}
-		static SEQ_ALWAYS_INLINE auto to_upper(int c) -> char
+		static SEQ_ALWAYS_INLINE auto to_upper(int c) -> int
 		{
-			static constexpr char offset = 'a' - 'A';
-			return static_cast<char>(c >= 'a' ? c - offset : c);
+			static constexpr int offset = 'a' - 'A';
+			return c >= 'a' && c <= 'z' ? c - offset : c;
 		}
 		static SEQ_ALWAYS_INLINE auto to_digit_hex(int c) -> unsigned
 		{
@@ -702,8 +702,8 @@ namespace seq
 		read_nan(Integral saved_pos, Stream& str) -> T
 		{
 			// read 'nan'
-			char a = to_upper((int)str.getc());
-			char n = to_upper((int)str.getc());
+			int a = to_upper((int)str.getc());
+			int n = to_upper((int)str.getc());
 			if (a == 'A' && n == 'N') {
 				return std::numeric_limits<T>::quiet_NaN();
 			}
@@ -716,8 +716,8 @@ namespace seq
 		read_inf(Integral saved_pos, int sign, Stream& str) -> T
 		{
 			// read 'inf'
-			char n = to_upper((int)str.getc());
-			char f = to_upper((int)str.getc());
+			int n = to_upper((int)str.getc());
+			int f = to_upper((int)str.getc());
 			if (n == 'N' && f == 'F') {
 				return sign_value(std::numeric_limits<T>::infinity(), sign);
 			}
diff --git a/seq/format.hpp b/seq/format.hpp
index 42583de..a01043d 100644
--- a/seq/format.hpp
+++ b/seq/format.hpp
@@ -1562,7 +1562,7 @@ namespace seq
 				tmp.reserve(min_cap);
 			}
 
-			char fmt = detail::to_upper(val.format());
+			char fmt = static_cast<char>(detail::to_upper(val.format()));
 			bool upper = val.format() <= 'Z';
 
 #if !defined(SEQ_USE_INTERNAL_STD_TO_CHARS) && !defined(__GNUC__) // a LOT of version of gcc are missing the floating point std::to_chars
-- 
2.43.0


From 3aa8b12caa05efcc2fded416c15ed9b97ad012c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:12 +0000
Subject: [PATCH 084/138] fix: reading from unsigned character types missed the
 end of input, and a character of value -1 was taken for the end

---
 seq/charconv.hpp | 101 ++++++++++++++++++++++++++---------------------
 1 file changed, 57 insertions(+), 44 deletions(-)

diff --git a/seq/charconv.hpp b/seq/charconv.hpp
index aac4be6..4c21264 100644
--- a/seq/charconv.hpp
+++ b/seq/charconv.hpp
@@ -421,6 +421,18 @@ namespace seq
 		/// Read functions
 		//////////////////////////////////////////////////////////////////////////////
 
+		template<class Stream>
+		SEQ_ALWAYS_INLINE auto get_char(Stream& str) -> int
+		{
+			// Read a character, returns EOF at the end of the stream only.
+			// The end is reported by (Char)EOF, which might differ from EOF or be a valid character.
+			using Char = typename Stream::char_type;
+			const Char c = static_cast<Char>(str.getc());
+			if SEQ_UNLIKELY (c == static_cast<Char>(EOF))
+				return str.state() == Ok ? static_cast<int>(static_cast<std::make_unsigned_t<Char>>(c)) : EOF;
+			return static_cast<int>(c);
+		}
+
 		static inline auto get_pow_double(int exponent) -> double
 		{
 			static const double pow10[] = {
@@ -496,11 +508,11 @@ namespace seq
 			int sign = 1;
 
 			// get first character
-			int first = (int)str.getc();
+			int first = get_char(str);
 
 			// skip spaces
 			while (is_space(first))
-				first = (int)str.getc();
+				first = get_char(str);
 
 			// check EOF
 			if SEQ_UNLIKELY (first == EOF)
@@ -509,20 +521,20 @@ namespace seq
 			// check sign
 			if (first == '+') {
 				sign = 1;
-				first = (int)str.getc();
+				first = get_char(str);
 			}
 			else if (first == '-') {
 				if (!std::is_signed_v<T>)
 					goto error;
 				sign = -1;
-				first = (int)str.getc();
+				first = get_char(str);
 			}
 			if SEQ_UNLIKELY (!is_digit(first))
 				goto error;
 
 			while (is_digit(first)) {
 				x = static_cast<uint_type>((x * static_cast<uint_type>(10)) + static_cast<uint_type>(first - '0'));
-				first = (int)str.getc();
+				first = get_char(str);
 			}
 			if (first != EOF)
 				str.back();
@@ -558,11 +570,11 @@ namespace seq
 			int sign = 1;
 			unsigned val;
 			// get frist character
-			int first = (int)str.getc();
+			int first = get_char(str);
 
 			// skip spaces
 			while (is_space(first))
-				first = (int)str.getc();
+				first = get_char(str);
 
 			// check EOF
 			if SEQ_UNLIKELY (first == EOF)
@@ -571,13 +583,13 @@ namespace seq
 			// check sign
 			if (first == '+') {
 				sign = 1;
-				first = (int)str.getc();
+				first = get_char(str);
 			}
 			else if (first == '-') {
 				if SEQ_UNLIKELY (!std::is_signed_v<T>)
 					goto error;
 				sign = -1;
-				first = (int)str.getc();
+				first = get_char(str);
 			}
 
 			{
@@ -588,7 +600,7 @@ namespace seq
 				x = static_cast<uint_type>(val);
 
 				// read second one
-				first = (int)str.getc();
+				first = get_char(str);
 				if (base == 16 && to_upper(first) == 'X') {
 					// hexadecimal starting with '0x' or '0X'
 					if (x != 0) {
@@ -597,7 +609,7 @@ namespace seq
 						str.reset();
 						return static_cast<T>(sign_value(x, sign));
 					}
-					first = (int)str.getc();
+					first = get_char(str);
 					val = to_digit_hex(first);
 					if SEQ_UNLIKELY (val >= base)
 						// next char after '0x' is not a valid hex digit
@@ -614,13 +626,13 @@ namespace seq
 					return static_cast<T>(sign_value(x, sign));
 				}
 				x = static_cast<uint_type>((x * static_cast<uint_type>(base)) + static_cast<uint_type>(val));
-				first = (int)str.getc();
+				first = get_char(str);
 				val = to_digit_hex(first);
 			}
 
 			while (val < base) {
 				x = static_cast<uint_type>((x * static_cast<uint_type>(base)) + static_cast<uint_type>(val));
-				first = (int)str.getc();
+				first = get_char(str);
 				val = to_digit_hex(first);
 			}
 			if (first != EOF)
@@ -654,7 +666,7 @@ namespace seq
 			std::int64_t x = 0;
 			int count = 0;
 			// get frist character
-			unsigned first = static_cast<unsigned>((int)str.getc() - '0');
+			unsigned first = static_cast<unsigned>(get_char(str) - '0');
 			unsigned second;
 
 			// check EOF
@@ -662,12 +674,12 @@ namespace seq
 				goto error;
 			}
 
-			second = static_cast<unsigned>((int)str.getc() - '0');
+			second = static_cast<unsigned>(get_char(str) - '0');
 			count = 0;
 			while ((first <= 9) && (second <= 9)) {
 				x = x * static_cast<int64_t>(100) + static_cast<int64_t>(integral_read_table[first][second]);
-				first = static_cast<unsigned>((int)str.getc() - '0');
-				second = static_cast<unsigned>((int)str.getc() - '0');
+				first = static_cast<unsigned>(get_char(str) - '0');
+				second = static_cast<unsigned>(get_char(str) - '0');
 				count += 2;
 				if SEQ_UNLIKELY (count > 18) {
 					goto too_long_int;
@@ -702,8 +714,8 @@ namespace seq
 		read_nan(Integral saved_pos, Stream& str) -> T
 		{
 			// read 'nan'
-			int a = to_upper((int)str.getc());
-			int n = to_upper((int)str.getc());
+			int a = to_upper(get_char(str));
+			int n = to_upper(get_char(str));
 			if (a == 'A' && n == 'N') {
 				return std::numeric_limits<T>::quiet_NaN();
 			}
@@ -716,8 +728,8 @@ namespace seq
 		read_inf(Integral saved_pos, int sign, Stream& str) -> T
 		{
 			// read 'inf'
-			int n = to_upper((int)str.getc());
-			int f = to_upper((int)str.getc());
+			int n = to_upper(get_char(str));
+			int f = to_upper(get_char(str));
 			if (n == 'N' && f == 'F') {
 				return sign_value(std::numeric_limits<T>::infinity(), sign);
 			}
@@ -756,12 +768,12 @@ namespace seq
 			}
 
 			Integral save_point = NullValue<Integral>::value;
-			int first = (int)str.getc();
+			int first = get_char(str);
 
 			// read decimal
 			while (is_digit(first)) {
 				res = (res * static_cast<T>(10)) + static_cast<T>(first - '0');
-				first = (int)str.getc();
+				first = get_char(str);
 			}
 			if (first == EOF) {
 				if SEQ_UNLIKELY ((fmt & scientific) && !(fmt & fixed)) {
@@ -775,12 +787,12 @@ namespace seq
 			if (first == dot) {
 
 				// read fractional part
-				first = (int)str.getc();
+				first = get_char(str);
 				T factor = static_cast<T>(0.1);
 				while (is_digit(first)) {
 					res = res + static_cast<T>(first - '0') * factor;
 					factor *= static_cast<T>(0.1);
-					first = (int)str.getc();
+					first = get_char(str);
 				}
 				if (first == EOF) {
 					if SEQ_UNLIKELY ((fmt & scientific) && !(fmt & fixed)) {
@@ -801,18 +813,18 @@ namespace seq
 
 				save_point = str.tell() - 1;
 				// read exponent part
-				first = (int)str.getc();
+				first = get_char(str);
 				int exp_sign = 1;
 				int exp = 0;
 				if (first == '-') {
 					exp_sign = -1;
-					first = (int)str.getc();
+					first = get_char(str);
 					if (!is_digit(first)) {
 						goto partial;
 					}
 				}
 				else if (first == '+') {
-					first = (int)str.getc();
+					first = get_char(str);
 					if (!is_digit(first)) {
 						goto partial;
 					}
@@ -823,7 +835,7 @@ namespace seq
 
 				do {
 					exp = (exp * 10) + static_cast<int>(first - '0');
-					first = (int)str.getc();
+					first = get_char(str);
 				} while (is_digit(first));
 				exp = exp_sign == -1 ? -exp : exp;
 				if (exp < -323 || exp > 308) {
@@ -874,14 +886,14 @@ namespace seq
 
 			str.reset();
 			Integral saved = str.tell();
-			int first = (int)str.getc();
+			int first = get_char(str);
 			int sign = 1;
 			int c;
 			T res = 0;
 
 			// skip spaces
 			while (is_space(first)) {
-				first = (int)str.getc();
+				first = get_char(str);
 			}
 			// check EOF
 			if SEQ_UNLIKELY (first == EOF) {
@@ -891,14 +903,14 @@ namespace seq
 			if (first == '-') {
 				// first character is a sign
 				sign = -1;
-				first = (int)str.getc();
+				first = get_char(str);
 				if SEQ_UNLIKELY (first == EOF) {
 					return 0;
 				}
 			}
 			else if (first == '+') {
 				// first character is a sign
-				first = (int)str.getc();
+				first = get_char(str);
 				if SEQ_UNLIKELY (first == EOF) {
 					return 0;
 				}
@@ -939,7 +951,7 @@ namespace seq
 			res = static_cast<T>(integral);
 			check_point = str.tell();
 
-			c = (int)str.getc();
+			c = get_char(str);
 			if (c == dot) {
 				// read decimal part
 				Integral new_check_point = str.tell();
@@ -958,7 +970,7 @@ namespace seq
 				}
 				int dist = static_cast<int>(str.tell() - new_check_point);
 				res += static_cast<T>(decimal) * get_pow<T>(-dist);
-				c = (int)str.getc();
+				c = get_char(str);
 			}
 			if (c == 'e' || c == 'E') {
 				if SEQ_UNLIKELY (fmt == fixed) {
@@ -968,7 +980,7 @@ namespace seq
 				// read exponent
 				int exp = 0;
 				int esign = 1;
-				c = (int)str.getc();
+				c = get_char(str);
 				if (!is_digit(c)) {
 					// read exponent sign
 					if (c == '-') {
@@ -977,7 +989,7 @@ namespace seq
 					else if SEQ_UNLIKELY (c != '+') {
 						return return_bad_format<T>(saved, str);
 					}
-					c = (int)str.getc();
+					c = get_char(str);
 					if (!is_digit(c)) {
 						return return_bad_format<T>(saved, str);
 					}
@@ -986,7 +998,7 @@ namespace seq
 				unsigned cc = static_cast<unsigned>(c - '0');
 				do {
 					exp = (exp * 10) + static_cast<int>(cc);
-					cc = static_cast<unsigned>((int)str.getc() - '0');
+					cc = static_cast<unsigned>(get_char(str) - '0');
 				} while (cc <= 9U);
 				if (cc != _EOF) {
 					str.back();
@@ -1023,6 +1035,7 @@ namespace seq
 		slow_path:
 			// slower way of reading a floating point value, relies on floating point arithmetic.
 			// reuse the integral part if possible.
+			str.reset();
 			str.seek(check_point);
 			return read_long_double<T>(integral != -1 ? res : std::numeric_limits<T>::quiet_NaN(), saved, sign, dot, str, fmt);
 		}
@@ -1037,11 +1050,11 @@ namespace seq
 			// Read a string object (std::string or seq::tiny_string) from input stream
 			str.reset();
 
-			int first = (int)str.getc();
+			int first = get_char(str);
 
 			// skip spaces
 			while (is_space(first))
-				first = (int)str.getc();
+				first = get_char(str);
 			// check EOF
 			if SEQ_UNLIKELY (first == EOF)
 				return T();
@@ -1049,7 +1062,7 @@ namespace seq
 			T res;
 			res.push_back(static_cast<StringChar>(first));
 			for (;;) {
-				first = (int)str.getc();
+				first = get_char(str);
 				if (!is_space(first) && first != EOF)
 					res.push_back((StringChar)first);
 				else
@@ -1073,11 +1086,11 @@ namespace seq
 			// Read a line (std::string or seq::tiny_string) from input stream
 			str.reset();
 
-			int first = (int)str.getc();
+			int first = get_char(str);
 
 			// skip spaces
 			while (is_space(first)) {
-				first = (int)str.getc();
+				first = get_char(str);
 			}
 			// check EOF
 			if SEQ_UNLIKELY (first == EOF)
@@ -1086,7 +1099,7 @@ namespace seq
 			T res;
 			res.push_back(static_cast<StringChar>(first));
 			for (;;) {
-				first = (int)str.getc();
+				first = get_char(str);
 				if (!is_eol(first) && first != EOF)
 					res.push_back((StringChar)first);
 				else
-- 
2.43.0


From f5f3b75bba5476bfabadd5200922313c2bd2a498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:33 +0000
Subject: [PATCH 085/138] fix: scientific notation wrote 10e+00 for values
 rounded up to 10

---
 seq/charconv.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seq/charconv.hpp b/seq/charconv.hpp
index 4c21264..1ed4b54 100644
--- a/seq/charconv.hpp
+++ b/seq/charconv.hpp
@@ -1556,7 +1556,7 @@ namespace seq
 				if SEQ_UNLIKELY (decimals >= max_val) {
 					decimals = 0;
 					integral++;
-					if (exponent != 0 && integral >= 10) {
+					if (fmt.fmt == seq::scientific && integral >= 10) {
 						exponent++;
 						integral = 1;
 					}
-- 
2.43.0


From 97194d7f8b085175efeb1db8a4f88deda7d21566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:03 +0000
Subject: [PATCH 086/138] fix: to_chars of floating point values wrote values
 like 10e-06 when their normalization rounds up to 10

---
 seq/charconv.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/seq/charconv.hpp b/seq/charconv.hpp
index 1ed4b54..8fc6684 100644
--- a/seq/charconv.hpp
+++ b/seq/charconv.hpp
@@ -1498,6 +1498,12 @@ namespace seq
 				}
 			}
 
+			// the multiplications might round the value up to 10
+			if SEQ_UNLIKELY (value >= 10) {
+				value *= static_cast<T>(0.1L);
+				++exponent;
+			}
+
 			// for higher precision, this method can be used (note: reduce precision for long double as it might be the result of std::pow)
 			// if (sizeof(T) <= 8)
 			//	value = saved * get_pow<T>(-exponent);
-- 
2.43.0


From 86ee8ca45ccc5e24843e04395106e57c7f1b99d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:03 +0000
Subject: [PATCH 087/138] fix: to_chars of long double values below 0.1 with 17
 decimals was wrong in its last digits

---
 seq/charconv.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seq/charconv.hpp b/seq/charconv.hpp
index 8fc6684..5c471cb 100644
--- a/seq/charconv.hpp
+++ b/seq/charconv.hpp
@@ -1546,7 +1546,7 @@ namespace seq
 			null_first = false;
 			if (SEQ_COMPARE_FLOAT(remainder != 0 && remainder < 0.1)) {
 				// remainder is inf to 0.1, we must add 0.1 to avoid truncating the leading zeros
-				remainder += 0.1;
+				remainder += static_cast<T>(0.1L);
 				null_first = true;
 			}
 
-- 
2.43.0


From d67b5b3731ec2ddd9905e6c366d3c3d9c2fe2a9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:20 +0000
Subject: [PATCH 088/138] fix: reading floating point values: wrong infinities
 and zeros when the exponent alone is out of range, numbers with a leading or
 trailing dot, incomplete exponents, signed nan, exponents with the fixed
 format

---
 seq/charconv.hpp | 255 ++++++++++++++++-------------------------------
 1 file changed, 87 insertions(+), 168 deletions(-)

diff --git a/seq/charconv.hpp b/seq/charconv.hpp
index 5c471cb..a9b16d1 100644
--- a/seq/charconv.hpp
+++ b/seq/charconv.hpp
@@ -746,137 +746,99 @@ namespace seq
 			return 0;
 		}
 
-		template<class Integral, bool Pointer = std::is_pointer_v<Integral>>
-		struct NullValue
+		template<class T>
+		inline auto scale_pow10(T value, int exp) -> T
 		{
-			static constexpr Integral value = 0;
-		};
-		template<class Integral>
-		struct NullValue<Integral, true>
+			// Returns value * 10^exp, using intermediate steps if 10^exp does not fit in T
+			static constexpr int min_exp = std::numeric_limits<T>::min_exponent10;
+			static constexpr int max_exp = std::numeric_limits<T>::max_exponent10;
+			while (exp < min_exp && value > 0) {
+				value *= get_pow<T>(min_exp);
+				exp -= min_exp;
+			}
+			while (exp > max_exp && value > 0 && value <= std::numeric_limits<T>::max()) {
+				value *= get_pow<T>(max_exp);
+				exp -= max_exp;
+			}
+			return value > 0 && value <= std::numeric_limits<T>::max() ? value * get_pow<T>(exp) : value;
+		}
+
+		static SEQ_ALWAYS_INLINE auto add_exponent_digit(int exp, int digit) noexcept -> int
 		{
-			static constexpr Integral value = nullptr;
-		};
+			// Add a digit to an exponent, saturates far above the exponent of any floating point type
+			return exp < 1000000 ? (exp * 10) + digit : exp;
+		}
 
 		template<class T, class Integral, class Stream>
 		SEQ_NOINLINE(auto)
-		read_long_double(T res, Integral saved, int sign, char dot, Stream& str, const chars_format& fmt) -> T
+		read_long_double(Integral saved, int sign, char dot, Stream& str, const chars_format& fmt) -> T
 		{
-			// Read double too long to be read as separate integrals
-
-			if (std::isnan(res)) {
-				res = 0;
-			}
+			// Read double too long to be read as separate integrals, or with an unusual format (leading or trailing dot, incomplete exponent).
+			// The first 19 significant digits are kept, the next ones only change the exponent.
 
-			Integral save_point = NullValue<Integral>::value;
+			static constexpr std::uint64_t max_mantissa = 1000000000000000000ULL;
+			std::uint64_t mantissa = 0;
+			int exp10 = 0;
+			bool has_digit = false;
+			bool has_exponent = false;
 			int first = get_char(str);
 
-			// read decimal
+			// read integral part
 			while (is_digit(first)) {
-				res = (res * static_cast<T>(10)) + static_cast<T>(first - '0');
+				has_digit = true;
+				if (mantissa < max_mantissa)
+					mantissa = (mantissa * 10U) + static_cast<unsigned>(first - '0');
+				else
+					++exp10;
 				first = get_char(str);
 			}
-			if (first == EOF) {
-				if SEQ_UNLIKELY ((fmt & scientific) && !(fmt & fixed)) {
-					str.set_state(BadInputFormat);
-					goto error;
-				}
-				str.reset();
-				return sign_value(res, sign);
-			}
-
+			// read fractional part
 			if (first == dot) {
-
-				// read fractional part
 				first = get_char(str);
-				T factor = static_cast<T>(0.1);
 				while (is_digit(first)) {
-					res = res + static_cast<T>(first - '0') * factor;
-					factor *= static_cast<T>(0.1);
-					first = get_char(str);
-				}
-				if (first == EOF) {
-					if SEQ_UNLIKELY ((fmt & scientific) && !(fmt & fixed)) {
-						str.set_state(BadInputFormat);
-						goto error;
+					has_digit = true;
+					if (mantissa < max_mantissa) {
+						mantissa = (mantissa * 10U) + static_cast<unsigned>(first - '0');
+						--exp10;
 					}
-
-					str.reset();
-					return sign_value(res, sign);
+					first = get_char(str);
 				}
 			}
+			if (!has_digit)
+				return return_bad_format<T>(saved, str);
 
-			if (first == 'e' || first == 'E') {
-				if SEQ_UNLIKELY ((fmt & scientific) == 0) {
-					str.back();
-					return sign_value(res, sign);
-				}
-
-				save_point = str.tell() - 1;
+			if ((first == 'e' || first == 'E') && (fmt & scientific)) {
 				// read exponent part
-				first = get_char(str);
+				Integral save_point = str.tell() - 1;
 				int exp_sign = 1;
-				int exp = 0;
-				if (first == '-') {
-					exp_sign = -1;
-					first = get_char(str);
-					if (!is_digit(first)) {
-						goto partial;
-					}
-				}
-				else if (first == '+') {
+				first = get_char(str);
+				if (first == '-' || first == '+') {
+					exp_sign = first == '-' ? -1 : 1;
 					first = get_char(str);
-					if (!is_digit(first)) {
-						goto partial;
-					}
-				}
-				else if (!is_digit(first)) {
-					goto partial;
 				}
-
-				do {
-					exp = (exp * 10) + static_cast<int>(first - '0');
-					first = get_char(str);
-				} while (is_digit(first));
-				exp = exp_sign == -1 ? -exp : exp;
-				if (exp < -323 || exp > 308) {
-#if LDBL_MANT_DIG > DBL_MANT_DIG
-					// long double are supported
-					res *= std::pow(10.L, exp);
-#else
-					res = exp > 0 ? std::numeric_limits<T>::infinity() : 0;
-#endif
+				has_exponent = is_digit(first);
+				if (has_exponent) {
+					int exp = 0;
+					do {
+						exp = add_exponent_digit(exp, first - '0');
+						first = get_char(str);
+					} while (is_digit(first));
+					exp10 += exp_sign == -1 ? -exp : exp;
 				}
 				else {
-					res *= static_cast<T>(get_pow_double(exp)); // pow10[exp + 323];
-				}
-
-				if (first != EOF) {
-					str.back();
-				}
-			}
-			else {
-				if SEQ_UNLIKELY ((fmt & scientific) && !(fmt & fixed)) {
-					str.set_state(BadInputFormat);
-					goto error;
-				}
-				if (first != EOF) {
-					str.back();
+					// not an exponent
+					str.seek(save_point);
+					first = EOF;
 				}
 			}
+			if SEQ_UNLIKELY (!(fmt & fixed) && !has_exponent)
+				// exponent is mandatory
+				return return_bad_format<T>(saved, str);
 
+			if (first != EOF)
+				str.back();
 			str.reset();
-			return sign_value(res, sign);
-
-		error:
-			if (str) {
-				str.set_state(BadInputFormat);
-			}
-			str.seek(saved);
-			return 0;
-		partial:
-			str.reset();
-			str.seek(save_point);
-			return sign_value(res, sign);
+			return sign_value(scale_pow10(static_cast<T>(mantissa), exp10), sign);
 		}
 
 		template<class T, class Stream>
@@ -904,19 +866,13 @@ namespace seq
 				// first character is a sign
 				sign = -1;
 				first = get_char(str);
-				if SEQ_UNLIKELY (first == EOF) {
-					return 0;
-				}
 			}
 			else if (first == '+') {
 				// first character is a sign
 				first = get_char(str);
-				if SEQ_UNLIKELY (first == EOF) {
-					return 0;
-				}
 			}
 			// potential nan
-			else if SEQ_UNLIKELY (to_upper(first) == 'N') {
+			if SEQ_UNLIKELY (first == 'n' || first == 'N') {
 				// read 'nan'
 				return read_nan<T>(saved, str);
 			}
@@ -936,89 +892,53 @@ namespace seq
 			Integral check_point = str.tell();
 			// read intergal part
 			int64_t integral = read_int64(str);
-			if SEQ_UNLIKELY (!str) {
-				if (integral == -1) {
-					// too big: switch to the default slower version
-					goto slow_path;
-				}
+			if SEQ_UNLIKELY (!str)
+				// too big, or leading dot: switch to the default slower version
+				goto slow_path;
 
-				// invalid intergal part: invalid format
-				return return_bad_format<T>(saved, str);
-			}
-
-			// keep going with dot, decimal part, exponent.
-			// mark this state as a chack point, as the intergal part might be reused by the slow path.
 			res = static_cast<T>(integral);
-			check_point = str.tell();
 
 			c = get_char(str);
 			if (c == dot) {
 				// read decimal part
 				Integral new_check_point = str.tell();
 				int64_t decimal = read_int64(str);
-				if SEQ_UNLIKELY (!str) {
-					if (decimal == -1) {
-						// too big: switch to the default slower version
-						goto slow_path;
-					}
-					if (fmt == scientific) {
-						// exponent is mandatory
-						return return_bad_format<T>(saved, str);
-					}
-					// we accept a dot with nothing after
-					return sign_value(res, sign);
-				}
+				if SEQ_UNLIKELY (!str)
+					// too big, or dot with nothing after: switch to the default slower version
+					goto slow_path;
 				int dist = static_cast<int>(str.tell() - new_check_point);
 				res += static_cast<T>(decimal) * get_pow<T>(-dist);
 				c = get_char(str);
 			}
 			if (c == 'e' || c == 'E') {
 				if SEQ_UNLIKELY (fmt == fixed) {
-					// exponent forbiden
-					return return_bad_format<T>(saved, str);
+					// the exponent is not part of the number
+					str.back();
+					return sign_value(res, sign);
 				}
 				// read exponent
 				int exp = 0;
 				int esign = 1;
 				c = get_char(str);
-				if (!is_digit(c)) {
+				if (c == '-' || c == '+') {
 					// read exponent sign
-					if (c == '-') {
-						esign = -1;
-					}
-					else if SEQ_UNLIKELY (c != '+') {
-						return return_bad_format<T>(saved, str);
-					}
+					esign = c == '-' ? -1 : 1;
 					c = get_char(str);
-					if (!is_digit(c)) {
-						return return_bad_format<T>(saved, str);
-					}
 				}
+				if SEQ_UNLIKELY (!is_digit(c))
+					// not an exponent: switch to the default slower version
+					goto slow_path;
 				// read exponent value
-				unsigned cc = static_cast<unsigned>(c - '0');
 				do {
-					exp = (exp * 10) + static_cast<int>(cc);
-					cc = static_cast<unsigned>(get_char(str) - '0');
-				} while (cc <= 9U);
-				if (cc != _EOF) {
+					exp = add_exponent_digit(exp, c - '0');
+					c = get_char(str);
+				} while (is_digit(c));
+				if (c != EOF)
 					str.back();
-				}
-				else {
-					str.reset();
-				}
-
-				exp = sign_value(exp, esign);
-				// check exponent validity
-				if SEQ_UNLIKELY (exp > std::numeric_limits<T>::max_exponent10) {
-					return sign_value(std::numeric_limits<T>::infinity(), sign);
-				}
-				if SEQ_UNLIKELY (exp < std::numeric_limits<T>::min_exponent10)
-					return sign_value(static_cast<T>(0), sign);
+				str.reset();
 
 				// success
-				T p = get_pow<T>(exp);
-				res = sign_value(res * p, sign);
-				return res;
+				return sign_value(scale_pow10(res, sign_value(exp, esign)), sign);
 			}
 			if SEQ_UNLIKELY (fmt == scientific) {
 				// exponent is mandatory
@@ -1033,11 +953,10 @@ namespace seq
 			}
 
 		slow_path:
-			// slower way of reading a floating point value, relies on floating point arithmetic.
-			// reuse the integral part if possible.
+			// slower way of reading a floating point value
 			str.reset();
 			str.seek(check_point);
-			return read_long_double<T>(integral != -1 ? res : std::numeric_limits<T>::quiet_NaN(), saved, sign, dot, str, fmt);
+			return read_long_double<T>(saved, sign, dot, str, fmt);
 		}
 
 		template<class T, class Stream>
-- 
2.43.0


From cd500ee749df72fc1bf4bbec1a9f9d2080692444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:12 +0000
Subject: [PATCH 089/138] fix: to_chars of long double values wrote a trailing
 '.0' with a precision above 17

---
 seq/charconv.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seq/charconv.hpp b/seq/charconv.hpp
index a9b16d1..939a649 100644
--- a/seq/charconv.hpp
+++ b/seq/charconv.hpp
@@ -1488,7 +1488,7 @@ namespace seq
 				}
 			}
 
-			return width;
+			return p;
 		}
 
 		template<class Range, class T>
-- 
2.43.0


From 6aca809c86da93ea6e0c5db4de09cdb7677e5faa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:47 +0000
Subject: [PATCH 090/138] fix: to_chars of floating point values in fixed
 format: invalid characters and read outside of the table of digits when a
 rounding reaches 10

---
 seq/charconv.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/seq/charconv.hpp b/seq/charconv.hpp
index 939a649..34d0d45 100644
--- a/seq/charconv.hpp
+++ b/seq/charconv.hpp
@@ -1536,7 +1536,7 @@ namespace seq
 						}
 					} while (exp >= 1);
 					if (exp <= 0) {
-						value *= static_cast<T>(0.1);
+						value /= 10;
 					}
 				}
 				while (exp >= 0) {
@@ -1599,7 +1599,7 @@ namespace seq
 						}
 					} while (width >= 1);
 					if (width <= 0) {
-						value *= static_cast<T>(0.1);
+						value /= 10;
 					}
 				}
 				while (width >= 0) {
-- 
2.43.0


From bbe1d2f268275e67497ff4f6d36f3802f9b3ccd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:45 +0000
Subject: [PATCH 091/138] fix: to_chars of long double values wrote a leading 0
 when their normalization rounds just below 1 (1e512)

---
 seq/charconv.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/seq/charconv.hpp b/seq/charconv.hpp
index 34d0d45..4f7deb3 100644
--- a/seq/charconv.hpp
+++ b/seq/charconv.hpp
@@ -1422,6 +1422,11 @@ namespace seq
 				value *= static_cast<T>(0.1L);
 				++exponent;
 			}
+			// or leave it just below 1
+			else if SEQ_UNLIKELY (value > 0 && value < 1) {
+				value *= 10;
+				--exponent;
+			}
 
 			// for higher precision, this method can be used (note: reduce precision for long double as it might be the result of std::pow)
 			// if (sizeof(T) <= 8)
-- 
2.43.0


From 932ac38fbe75ad6b7ad4b297db0d52f4eed52042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:38 +0000
Subject: [PATCH 092/138] fix: file_input_stream rewound the FILE object given
 to its constructor

---
 seq/charconv.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seq/charconv.hpp b/seq/charconv.hpp
index 4f7deb3..378a3b9 100644
--- a/seq/charconv.hpp
+++ b/seq/charconv.hpp
@@ -2233,7 +2233,7 @@ namespace seq
 		/// @brief Construct from a FILE object.
 		/// If 'own' is true, closing the stream will also close the FILE object.
 		explicit file_input_stream(FILE* file, bool own) noexcept
-		  : d_file(file)
+		  : d_file(NULL)
 		  , d_pos(0)
 		  , d_buff_pos(NULL)
 		  , d_buff_end(NULL)
-- 
2.43.0


From 21537509fd72522f1dfd50257cf0e2d9709907b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:38 +0000
Subject: [PATCH 093/138] fix: std_input_stream, file_input_stream: back() at
 the first character moved to an arbitrary position

---
 seq/charconv.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/seq/charconv.hpp b/seq/charconv.hpp
index 378a3b9..e63ddad 100644
--- a/seq/charconv.hpp
+++ b/seq/charconv.hpp
@@ -2098,7 +2098,7 @@ namespace seq
 				--d_buff_pos;
 				--d_pos;
 			}
-			else
+			else if (d_pos > 0)
 				seek(d_pos - 1);
 		}
 		/// @brief Seek to given position and returns the new get position
@@ -2299,7 +2299,7 @@ namespace seq
 				--d_buff_pos;
 				--d_pos;
 			}
-			else
+			else if (d_pos > 0)
 				seek(d_pos - 1);
 		}
 		/// @brief Seek to given location, and return the new get position
-- 
2.43.0


From 982b736980e73a2824586cb133aa22fa471d0d42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:38 +0000
Subject: [PATCH 094/138] fix: std_input_stream, file_input_stream: back() and
 seek() after read() returned characters of an old buffer

---
 seq/charconv.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/seq/charconv.hpp b/seq/charconv.hpp
index e63ddad..19a8595 100644
--- a/seq/charconv.hpp
+++ b/seq/charconv.hpp
@@ -2154,6 +2154,8 @@ namespace seq
 			}
 			if (size > from_buffer) {
 				size -= from_buffer;
+				// the buffer does not precede the get position anymore
+				d_buff_pos = d_buff_end = nullptr;
 				d_file->read(dst, size);
 				read_vals += d_file->gcount();
 				if (d_file->eof())
@@ -2356,6 +2358,8 @@ namespace seq
 			}
 			if (size > from_buffer) {
 				size -= from_buffer;
+				// the buffer does not precede the get position anymore
+				d_buff_pos = d_buff_end = NULL;
 				streamsize _fread = fread(dst, 1, size, d_file);
 				read_vals += _fread;
 				if (_fread != size)
-- 
2.43.0


From e104b740760f36e8426e31904646c910dcf551da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:38 +0000
Subject: [PATCH 095/138] fix: buffer_input_stream with wide characters: read()
 copied bytes, constructor from a null terminated string did not compile

---
 seq/charconv.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/seq/charconv.hpp b/seq/charconv.hpp
index 19a8595..09e0bc8 100644
--- a/seq/charconv.hpp
+++ b/seq/charconv.hpp
@@ -1923,7 +1923,7 @@ namespace seq
 		}
 		/// @brief Construct from a null terminated string
 		explicit buffer_input_stream(const Char* data) noexcept
-		  : buffer_input_stream(data, strlen(data))
+		  : buffer_input_stream(data, std::char_traits<Char>::length(data))
 		{
 		}
 		/// @brief Construct from a string-like object (usually std::string or tiny_string)
@@ -1985,7 +1985,8 @@ namespace seq
 		{
 			streamsize rem = d_len - d_pos;
 			streamsize to_read = std::min(size, rem);
-			memcpy(dst, d_buff + d_pos, to_read);
+			if (to_read)
+				memcpy(dst, d_buff + d_pos, to_read * sizeof(Char));
 			if (size > rem) {
 				set_eof();
 			}
-- 
2.43.0


From b75e4bdbdad14b0e5d482682541baeba6583441f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:38 +0000
Subject: [PATCH 096/138] fix: std_input_stream: a failed seek(), or a
 std::istream object which already reached its end, left it at position -1

---
 seq/charconv.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/seq/charconv.hpp b/seq/charconv.hpp
index 09e0bc8..71130ba 100644
--- a/seq/charconv.hpp
+++ b/seq/charconv.hpp
@@ -2083,6 +2083,8 @@ namespace seq
 			close();
 			if (iss) {
 				d_file = &iss;
+				// tellg() fails if the end was already reached
+				iss.clear();
 				d_pos = iss.tellg();
 				return true;
 			}
@@ -2113,8 +2115,10 @@ namespace seq
 				}
 				else {
 					d_buff_pos = d_buff_end = nullptr;
-					if (!d_file->seekg(pos, std::ios::beg))
+					if (!d_file->seekg(pos, std::ios::beg)) {
+						d_file->clear();
 						return d_pos = d_file->tellg();
+					}
 					d_pos = pos;
 				}
 			}
@@ -2126,8 +2130,10 @@ namespace seq
 				}
 				else {
 					d_buff_pos = d_buff_end = nullptr;
-					if (!d_file->seekg(pos, std::ios::beg))
+					if (!d_file->seekg(pos, std::ios::beg)) {
+						d_file->clear();
 						return d_pos = d_file->tellg();
+					}
 					d_pos = pos;
 				}
 			}
-- 
2.43.0


From 9fa943952c52af5ab5d68df1a72f00997baf19d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:05 +0000
Subject: [PATCH 097/138] fix: negate_if_signed() and abs() overflowed for the
 lowest value (to_chars failed for it in optimized builds)

---
 seq/type_traits.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/seq/type_traits.hpp b/seq/type_traits.hpp
index de4ab82..fc77de8 100644
--- a/seq/type_traits.hpp
+++ b/seq/type_traits.hpp
@@ -93,7 +93,7 @@ namespace seq
 	auto negate_if_signed(T v) -> typename integer_abs_return<T>::type
 	{
 		if constexpr (std::is_signed_v<T>)
-			return static_cast<std::make_unsigned_t<T>>(-v);
+			return static_cast<std::make_unsigned_t<T>>(std::make_unsigned_t<T>(0) - static_cast<std::make_unsigned_t<T>>(v));
 		else
 			return v;
 	}
@@ -102,7 +102,7 @@ namespace seq
 	auto abs(T v) -> typename integer_abs_return<T>::type
 	{
 		if constexpr (std::is_signed_v<T>)
-			return static_cast<std::make_unsigned_t<T>>(v < 0 ? -v : v);
+			return static_cast<std::make_unsigned_t<T>>(v < 0 ? std::make_unsigned_t<T>(0) - static_cast<std::make_unsigned_t<T>>(v) : static_cast<std::make_unsigned_t<T>>(v));
 		else
 			return v;
 	}
-- 
2.43.0


From 0dce2dbb98bc532896aa7d5fb3c9876ac31c9606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:21 +0000
Subject: [PATCH 098/138] fix: signed overflows while reading numbers of more
 than 19 digits and 4 bytes characters

---
 seq/charconv.hpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/seq/charconv.hpp b/seq/charconv.hpp
index 71130ba..e410be6 100644
--- a/seq/charconv.hpp
+++ b/seq/charconv.hpp
@@ -391,7 +391,7 @@ namespace seq
 
 		static SEQ_ALWAYS_INLINE auto digit_value(int c) noexcept -> unsigned
 		{
-			return static_cast<unsigned>(c - '0');
+			return static_cast<unsigned>(c) - static_cast<unsigned>('0');
 		}
 		static SEQ_ALWAYS_INLINE auto is_digit(int c) noexcept -> bool
 		{
@@ -663,10 +663,10 @@ namespace seq
 									  { 60, 61, 62, 63, 64, 65, 66, 67, 68, 69 }, { 70, 71, 72, 73, 74, 75, 76, 77, 78, 79 },
 									  { 80, 81, 82, 83, 84, 85, 86, 87, 88, 89 }, { 90, 91, 92, 93, 94, 95, 96, 97, 98, 99 } };
 
-			std::int64_t x = 0;
+			std::uint64_t x = 0;
 			int count = 0;
 			// get frist character
-			unsigned first = static_cast<unsigned>(get_char(str) - '0');
+			unsigned first = digit_value(get_char(str));
 			unsigned second;
 
 			// check EOF
@@ -674,12 +674,12 @@ namespace seq
 				goto error;
 			}
 
-			second = static_cast<unsigned>(get_char(str) - '0');
+			second = digit_value(get_char(str));
 			count = 0;
 			while ((first <= 9) && (second <= 9)) {
-				x = x * static_cast<int64_t>(100) + static_cast<int64_t>(integral_read_table[first][second]);
-				first = static_cast<unsigned>(get_char(str) - '0');
-				second = static_cast<unsigned>(get_char(str) - '0');
+				x = x * 100U + static_cast<std::uint64_t>(integral_read_table[first][second]);
+				first = digit_value(get_char(str));
+				second = digit_value(get_char(str));
 				count += 2;
 				if SEQ_UNLIKELY (count > 18) {
 					goto too_long_int;
@@ -689,7 +689,7 @@ namespace seq
 				str.back();
 			}
 			if ((first <= 9)) {
-				x = x * 10 + static_cast<int64_t>(first);
+				x = x * 10U + static_cast<std::uint64_t>(first);
 				if (++count > 18) {
 					goto too_long_int;
 				}
@@ -699,7 +699,7 @@ namespace seq
 			}
 
 			str.reset();
-			return x;
+			return static_cast<std::int64_t>(x);
 
 		too_long_int:
 			str.set_state(BadInputFormat);
-- 
2.43.0


From d4b556e292c00a95494ea8caf630f971494d4123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:00 +0000
Subject: [PATCH 099/138] fix: str() on a formatting object of several values
 without strings did not compile

---
 seq/format.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seq/format.hpp b/seq/format.hpp
index a01043d..6b03b0e 100644
--- a/seq/format.hpp
+++ b/seq/format.hpp
@@ -2283,7 +2283,7 @@ namespace seq
 				return std::copy(tmp.begin(), tmp.end(), dst);
 			}
 
-			template<class String = std::basic_string<char_type>>
+			template<class String = std::basic_string<valid_char_type>>
 			auto str() const -> String
 			{
 				// convert this formatting object to string-like object
-- 
2.43.0


From b5e5fa48411b526b9361f0f84555951d63ddfb23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:00 +0000
Subject: [PATCH 100/138] fix: fmt() of a pointer and join() of an
 initializer_list stored the address of a temporary object

---
 seq/format.hpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/seq/format.hpp b/seq/format.hpp
index 6b03b0e..7def028 100644
--- a/seq/format.hpp
+++ b/seq/format.hpp
@@ -471,6 +471,7 @@ Above example compiled with gcc 10.1.0 (-O3) for msys2 on Windows 10 on a Intel(
 #include <istream>
 #include <ostream>
 #include <iomanip>
+#include <initializer_list>
 #include <tuple>
 #include <sstream>
 #include <string_view>
@@ -787,6 +788,16 @@ namespace seq
 		struct inline_value_storage : std::false_type
 		{
 		};
+		// A initializer_list is a view, and a pointer is converted to const void*:
+		// in both cases, the address of the function argument must not be stored.
+		template<class T>
+		struct inline_value_storage<std::initializer_list<T>> : std::true_type
+		{
+		};
+		template<>
+		struct inline_value_storage<const void*> : std::true_type
+		{
+		};
 
 		/// @brief Tells if T is one of format library basic type (arithmetic or tstring_view types)
 		template<class T, bool IsBasicType = (std::is_arithmetic_v<T> || is_tiny_string<T>::value || inline_value_storage<T>::value)>
-- 
2.43.0


From 85ff5d9a1febe1f527db6d54fd85a3b501491c18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:00 +0000
Subject: [PATCH 101/138] fix: split() did not skip its last element, nor the
 characters of a full split, whatever the skip behavior

---
 seq/format.hpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/seq/format.hpp b/seq/format.hpp
index 7def028..6b248d8 100644
--- a/seq/format.hpp
+++ b/seq/format.hpp
@@ -3156,12 +3156,14 @@ namespace seq
 			{
 				// Special case: split all characters
 				if (match.full_split()) {
-					if (start == source.size())
-						start = view_type::npos;
-					else {
+					do {
+						if (start == source.size()) {
+							start = view_type::npos;
+							return;
+						}
 						current = view_type(source.data() + start, 1);
 						++start;
-					}
+					} while (Skip::skip(current.data(), current.size()));
 					return;
 				}
 
@@ -3176,7 +3178,7 @@ namespace seq
 					if SEQ_UNLIKELY (found == view_type::npos) {
 						// last occurence
 						current = source.substr(start, source.size() - start);
-						start = view_type::npos - 1;
+						start = Skip::skip(current.data(), current.size()) ? view_type::npos : view_type::npos - 1;
 						return;
 					}
 					else {
-- 
2.43.0


From 32e3c9c9010a5f006ee5c9070ab50a0f1dee4556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:00 +0000
Subject: [PATCH 102/138] fix: replace() removed the occurrences of the pattern
 which follow each other or start the string, without writing the new string

---
 seq/format.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seq/format.hpp b/seq/format.hpp
index 6b248d8..7970b8f 100644
--- a/seq/format.hpp
+++ b/seq/format.hpp
@@ -3243,7 +3243,7 @@ namespace seq
 	template<class Out, class Str1, class Str2, class Str3>
 	inline auto replace(const Str1& src, const Str2& match, const Str3& _new)
 	{
-		auto r = split(src, by_string(match), skip_empty{});
+		auto r = split(src, by_string(match), no_skip{});
 		return Out(join(_new, r));
 	}
 
-- 
2.43.0


From 6cd7f44a5f128873f94b739af7369d58b0b422d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:53 +0000
Subject: [PATCH 103/138] fix: formatting a value whose operator<< uses the
 format module corrupted the output (shared thread local buffers)

---
 seq/format.hpp | 49 +++++++++++++++++++++++++++++++++++--------------
 1 file changed, 35 insertions(+), 14 deletions(-)

diff --git a/seq/format.hpp b/seq/format.hpp
index 7970b8f..9eac1ed 100644
--- a/seq/format.hpp
+++ b/seq/format.hpp
@@ -753,6 +753,27 @@ namespace seq
 			return tmp;
 		}
 
+		/// @brief Takes the ownership of a thread local buffer for the lifetime of this object.
+		/// Formatting a value might call a user defined operator<< or to_string() function which
+		/// uses in turn the format module: it must not work on a buffer currently in use.
+		template<class String>
+		class BorrowBuffer
+		{
+			String& d_src;
+
+		public:
+			String value;
+			explicit BorrowBuffer(String& src) noexcept
+			  : d_src(src)
+			  , value(std::move(src))
+			{
+				value.clear();
+			}
+			BorrowBuffer(const BorrowBuffer&) = delete;
+			BorrowBuffer& operator=(const BorrowBuffer&) = delete;
+			~BorrowBuffer() noexcept { d_src = std::move(value); }
+		};
+
 		// Helper function, append a ostream_format to a string
 		template<class String, class Ostream>
 		static auto append_to_string(String& out, const Ostream& d) -> String&
@@ -1291,8 +1312,8 @@ namespace seq
 		auto to_chars(Char* dst) -> Char*
 		{
 			this->template assert_char<Char>();
-			auto& tmp = detail::to_chars_buffer<Char>();
-			tmp.clear();
+			detail::BorrowBuffer borrowed(detail::to_chars_buffer<Char>());
+			auto& tmp = borrowed.value;
 			this->append(tmp);
 			detail::memcpy_char(dst, tmp.data(), tmp.size());
 			return dst + tmp.size();
@@ -1304,8 +1325,8 @@ namespace seq
 		auto to_chars(Char* dst, size_t max) -> std::pair<Char*, size_t>
 		{
 			this->template assert_char<Char>();
-			auto& tmp = detail::to_chars_buffer<Char>();
-			tmp.clear();
+			detail::BorrowBuffer borrowed(detail::to_chars_buffer<Char>());
+			auto& tmp = borrowed.value;
 			this->append(tmp);
 			if (tmp.size() > max) {
 				detail::memcpy_char(dst, tmp.data(), max);
@@ -1321,8 +1342,8 @@ namespace seq
 		{
 			using Char = typename std::iterator_traits<Iter>::value_type;
 			this->template assert_char<Char>();
-			auto& tmp = detail::to_chars_buffer<Char>();
-			tmp.clear();
+			detail::BorrowBuffer borrowed(detail::to_chars_buffer<Char>());
+			auto& tmp = borrowed.value;
 			this->append(tmp);
 			return std::copy(tmp.begin(), tmp.end(), dst);
 		}
@@ -1676,8 +1697,8 @@ namespace seq
 	{
 		using valid_char_type = typename ostream_format<T, S>::valid_char_type;
 		static_assert(std::is_same_v<valid_char_type, Elem>, "output to stream: cannot mix different character types");
-		auto& tmp = detail::ostream_buffer<Elem>();
-		tmp.clear();
+		detail::BorrowBuffer borrowed(detail::ostream_buffer<Elem>());
+		auto& tmp = borrowed.value;
 		size_t s = val.to_string(tmp);
 		if (!ostream_format<T, S>::auto_width_format) {
 			// non default ostream_format, the width formatting must be applied
@@ -2271,8 +2292,8 @@ namespace seq
 			template<class C>
 			auto to_chars(C* dst, size_t max) -> std::pair<C*, size_t>
 			{
-				auto& tmp = detail::to_chars_buffer<C>();
-				tmp.clear();
+				detail::BorrowBuffer borrowed(detail::to_chars_buffer<C>());
+				auto& tmp = borrowed.value;
 				reserve_string(tmp);
 				this->append(tmp);
 				if (tmp.size() > max) {
@@ -2287,8 +2308,8 @@ namespace seq
 			auto to_iter(Iter dst) -> Iter
 			{
 				using C = typename std::iterator_traits<Iter>::value_type;
-				auto& tmp = detail::to_chars_buffer<C>();
-				tmp.clear();
+				detail::BorrowBuffer borrowed(detail::to_chars_buffer<C>());
+				auto& tmp = borrowed.value;
 				reserve_string(tmp);
 				this->append(tmp);
 				return std::copy(tmp.begin(), tmp.end(), dst);
@@ -2956,8 +2977,8 @@ namespace seq
 	inline auto operator<<(std::basic_ostream<Elem, Traits>& oss, const detail::mutli_ostream_format<T, C, HS, P, S>& val) -> std::basic_ostream<Elem, Traits>&
 	{
 		static_assert(std::is_void_v<C> || std::is_same_v<Elem, C>, "cannot mix different character types");
-		auto& tmp = detail::multi_ostream_buffer<Elem>();
-		tmp.clear();
+		detail::BorrowBuffer borrowed(detail::multi_ostream_buffer<Elem>());
+		auto& tmp = borrowed.value;
 		val.append(tmp);
 		oss.rdbuf()->sputn(tmp.data(), static_cast<std::streamsize>(tmp.size()));
 		return oss;
-- 
2.43.0


From ffa9fb2aa8714365050e1390ac68b1d5baa2afd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:33 +0000
Subject: [PATCH 104/138] fix: numbers and joined ranges could not be written
 to streams of wide characters

---
 seq/format.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/seq/format.hpp b/seq/format.hpp
index 9eac1ed..8bd2b06 100644
--- a/seq/format.hpp
+++ b/seq/format.hpp
@@ -1695,8 +1695,8 @@ namespace seq
 	template<class Elem, class Traits, class T, bool S>
 	inline auto operator<<(std::basic_ostream<Elem, Traits>& oss, const ostream_format<T, S>& val) -> std::basic_ostream<Elem, Traits>&
 	{
-		using valid_char_type = typename ostream_format<T, S>::valid_char_type;
-		static_assert(std::is_same_v<valid_char_type, Elem>, "output to stream: cannot mix different character types");
+		using char_type = typename ostream_format<T, S>::char_type;
+		static_assert(std::is_void_v<char_type> || std::is_same_v<char_type, Elem>, "output to stream: cannot mix different character types");
 		detail::BorrowBuffer borrowed(detail::ostream_buffer<Elem>());
 		auto& tmp = borrowed.value;
 		size_t s = val.to_string(tmp);
@@ -2845,6 +2845,7 @@ namespace seq
 
 	public:
 		using char_type = Char;
+		using valid_char_type = Char;
 
 		basic_tstring_view<Char> separator;
 		width_format wfmt;
-- 
2.43.0


From 1bfc0c41249a21fffcb6fd9062078c526a605172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:16 +0000
Subject: [PATCH 105/138] fix: pointers were not written when formatted to
 strings or among other values (append, str, to_chars, conversions)

---
 seq/format.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/seq/format.hpp b/seq/format.hpp
index 8bd2b06..28fae17 100644
--- a/seq/format.hpp
+++ b/seq/format.hpp
@@ -778,8 +778,8 @@ namespace seq
 		template<class String, class Ostream>
 		static auto append_to_string(String& out, const Ostream& d) -> String&
 		{
-			if constexpr (std::is_arithmetic_v<typename Ostream::value_type>) {
-				// Append arithmetic value: use a temporary buffer
+			if constexpr (std::is_arithmetic_v<typename Ostream::value_type> || std::is_same_v<const void*, typename Ostream::value_type>) {
+				// Append arithmetic value or pointer: use a temporary buffer
 				using Char = typename String::value_type;
 				auto& tmp = numeric_buffer<Char>();
 				tmp.clear();
-- 
2.43.0


From 51d05e2b217fafc794a67a9e0eb86e7a291b2f0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:40 +0000
Subject: [PATCH 106/138] fix: join() of a range of floating point values wrote
 them in upper case

---
 seq/format.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/seq/format.hpp b/seq/format.hpp
index 28fae17..1ab22c5 100644
--- a/seq/format.hpp
+++ b/seq/format.hpp
@@ -2854,6 +2854,8 @@ namespace seq
 		  : base_type(v)
 		  , separator(s)
 		{
+			// Default options of the elements, which depend on their type
+			this->set_numeric_format(seq::fmt<typename T::value_type>().numeric_fmt());
 		}
 		template<class U, bool S>
 		ostream_format(basic_tstring_view<Char> s, const T& v, const ostream_format<U, S>& wf)
-- 
2.43.0


From ab797f2559be023111ed2900a4390ecbf0dc826a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:10 +0000
Subject: [PATCH 107/138] fix: relocatable hold_any: copies of small non
 relocatable objects were built inside the small buffer but read as heap
 objects

---
 seq/any.hpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/seq/any.hpp b/seq/any.hpp
index ed1d39c..d841d77 100644
--- a/seq/any.hpp
+++ b/seq/any.hpp
@@ -1565,6 +1565,10 @@ namespace seq
 		SEQ_ALWAYS_INLINE auto big_size() const noexcept -> bool { return (this->d_type_info.full() & detail::big_size) != 0; }
 		SEQ_ALWAYS_INLINE auto non_relocatable() const noexcept -> bool { return (this->d_type_info.full() & detail::non_relocatable) != 0; }
 
+		// Size of the small buffer as seen by copy_any() and move_any():
+		// 0 for heap allocated objects, whatever the size of their type
+		SEQ_ALWAYS_INLINE auto storage_size() const noexcept -> unsigned { return big_size() ? 0u : static_cast<unsigned>(static_size); }
+
 		template<class T>
 		SEQ_ALWAYS_INLINE auto get_null_out() noexcept -> T*
 		{
@@ -1673,7 +1677,7 @@ namespace seq
 			}
 			else {
 				// copy data, might throw
-				other.type()->copy_any(other.type(), other.data(), nullptr, &this->d_storage, static_size);
+				other.type()->copy_any(other.type(), other.data(), nullptr, &this->d_storage, other.storage_size());
 			}
 			// copy type info
 			this->d_type_info = other.d_type_info;
@@ -1699,7 +1703,7 @@ namespace seq
 				}
 				else {
 					// move data, might throw
-					other.type()->move_any(other.type(), other.data(), nullptr, &this->d_storage, (static_size));
+					other.type()->move_any(other.type(), other.data(), nullptr, &this->d_storage, other.storage_size());
 					// copy tag and info pointer on success
 					this->d_type_info = other.d_type_info;
 				}
@@ -1756,7 +1760,7 @@ namespace seq
 			}
 			else {
 				// copy any type, might throw
-				o_t->copy_any(o_t, other.data(), i_t, &this->d_storage, static_size);
+				o_t->copy_any(o_t, other.data(), i_t, &this->d_storage, other.storage_size());
 			}
 			this->d_type_info = other.d_type_info;
 
@@ -1790,14 +1794,14 @@ namespace seq
 					}
 					else {
 						// move, might throw
-						o_t->move_any(o_t, other.data(), i_t, &this->d_storage, static_size);
+						o_t->move_any(o_t, other.data(), i_t, &this->d_storage, other.storage_size());
 					}
 				}
 				else {
 					// different type, clear this object
 					reset();
 					// move, might throw
-					o_t->move_any(o_t, other.data(), nullptr, &this->d_storage, static_size);
+					o_t->move_any(o_t, other.data(), nullptr, &this->d_storage, other.storage_size());
 					// copy type info with tags
 					this->d_type_info = other.d_type_info;
 				}
-- 
2.43.0


From 5a025f2b18f041d5d75596be166d03d1385797d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:10 +0000
Subject: [PATCH 108/138] fix: hold_any::emplace() leaked the memory of small
 non relocatable objects (relocatable hold_any) when their constructor throws

---
 seq/any.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seq/any.hpp b/seq/any.hpp
index d841d77..00b14a2 100644
--- a/seq/any.hpp
+++ b/seq/any.hpp
@@ -1612,7 +1612,7 @@ namespace seq
 				}
 				catch (...) {
 					// free memory chunk if needed
-					if (d && sizeof(type) > static_size)
+					if (d && (this->d_type_info.tag() & detail::big_size))
 						SEQ_ANY_FREE(d);
 					// reset type info pointer and tags
 					this->d_type_info.set_full(0);
-- 
2.43.0


From 0b72fa658ca9902fa6d91e08a200c8ff4fc5d71f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:10 +0000
Subject: [PATCH 109/138] fix: an empty hold_any was greater than any value

---
 seq/any.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seq/any.hpp b/seq/any.hpp
index 00b14a2..7931cc1 100644
--- a/seq/any.hpp
+++ b/seq/any.hpp
@@ -1981,7 +1981,7 @@ namespace seq
 			using type = typename std::decay<T>::type;
 
 			if (this->empty())
-				return true;
+				return false;
 
 			const type_info_type* otype = get_type<type>();
 
-- 
2.43.0


From d9eb365a5f82359317b1a2a4edf4365337d3e83b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:10 +0000
Subject: [PATCH 110/138] fix: comparing a hold_any with a character array (or
 a function) read its content as a pointer

---
 seq/any.hpp | 29 ++++++++++++++++++++++-------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/seq/any.hpp b/seq/any.hpp
index 7931cc1..734d933 100644
--- a/seq/any.hpp
+++ b/seq/any.hpp
@@ -1569,6 +1569,10 @@ namespace seq
 		// 0 for heap allocated objects, whatever the size of their type
 		SEQ_ALWAYS_INLINE auto storage_size() const noexcept -> unsigned { return big_size() ? 0u : static_cast<unsigned>(static_size); }
 
+		// Type used to compare with a value: const reference, or pointer for arrays and functions
+		template<class T, class U = typename std::remove_reference<T>::type>
+		using decayed_reference = typename std::conditional<std::is_array_v<U> || std::is_function_v<U>, typename std::decay<T>::type, const U&>::type;
+
 		template<class T>
 		SEQ_ALWAYS_INLINE auto get_null_out() noexcept -> T*
 		{
@@ -1895,9 +1899,11 @@ namespace seq
 
 		/// @brief Returns true if underlying object is equal to other
 		template<class T>
-		auto equal_to(T&& other) const -> bool
+		auto equal_to(T&& val) const -> bool
 		{
 			using type = typename std::decay<T>::type;
+			// arrays and functions decay to pointers
+			const decayed_reference<T> other = val;
 
 			// one empty: return false
 			if (this->empty())
@@ -1906,19 +1912,24 @@ namespace seq
 			const type_info_type* otype = get_type<type>();
 
 			// same type: use equal_any
-			if (this->type() == otype)
-				return this->type()->equal_any(this->data(), &other);
+			if (this->type() == otype) {
+				// an array (string literal) is never the pointed object, even if the compiler merges the literals
+				if constexpr (std::is_array_v<typename std::remove_reference<T>::type>)
+					return false;
+				else
+					return this->type()->equal_any(this->data(), &other);
+			}
 
 			int a_id = this->type_id();
 
 			// arithmetic comparison
 			if (is_arithmetic_type(a_id) && std::is_arithmetic_v<type>) {
-				return detail::compare_equal_arithmetic(this->template cast<long double>(), std::forward<T>(other));
+				return detail::compare_equal_arithmetic(this->template cast<long double>(), other);
 			}
 
 			// string comparison
 			if (is_string_type(a_id) && is_generic_char_string<type>::value) {
-				return detail::compare_string<type>(this->template cast<tstring_view>(), std::forward<T>(other)) == 0;
+				return detail::compare_string<type>(this->template cast<tstring_view>(), other) == 0;
 			}
 
 			// use registered comparison
@@ -1933,9 +1944,11 @@ namespace seq
 
 		/// @brief Returns true if underlying object compares less than other
 		template<class T>
-		auto less_than(T&& other) const -> bool
+		auto less_than(T&& val) const -> bool
 		{
 			using type = typename std::decay<T>::type;
+			// arrays and functions decay to pointers
+			const decayed_reference<T> other = val;
 
 			if (this->empty())
 				return true;
@@ -1976,9 +1989,11 @@ namespace seq
 
 		/// @brief Returns true if underlying object compares greater than other
 		template<class T>
-		auto greater_than(T&& other) const -> bool
+		auto greater_than(T&& val) const -> bool
 		{
 			using type = typename std::decay<T>::type;
+			// arrays and functions decay to pointers
+			const decayed_reference<T> other = val;
 
 			if (this->empty())
 				return false;
-- 
2.43.0


From 6f64c624200e81ed3ec1f1fd674907fb9474391f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:10 +0000
Subject: [PATCH 111/138] fix: any_cast() on pointers always returned null
 unless the hold_any has the default storage

---
 seq/any.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/seq/any.hpp b/seq/any.hpp
index 734d933..3c3bf07 100644
--- a/seq/any.hpp
+++ b/seq/any.hpp
@@ -2299,7 +2299,7 @@ namespace seq
 	template<class T, class Interface, size_t S, size_t A, bool R>
 	SEQ_ALWAYS_INLINE auto any_cast(const hold_any<Interface, S, A, R>* operand) noexcept -> const T*
 	{
-		if (operand->type() == hold_any<Interface>::template get_type<T>())
+		if (operand->type() == hold_any<Interface, S, A, R>::template get_type<T>())
 			return static_cast<const T*>(operand->data());
 		return nullptr;
 	}
@@ -2307,7 +2307,7 @@ namespace seq
 	template<class T, class Interface, size_t S, size_t A, bool R>
 	SEQ_ALWAYS_INLINE auto any_cast(hold_any<Interface, S, A, R>* operand) noexcept -> T*
 	{
-		if (operand->type() == hold_any<Interface>::template get_type<T>())
+		if (operand->type() == hold_any<Interface, S, A, R>::template get_type<T>())
 			return static_cast<T*>(operand->data());
 		return nullptr;
 	}
-- 
2.43.0


From 430fe950165d54246476ba45fc0e513a5c88a6e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:10 +0000
Subject: [PATCH 112/138] fix: formatting a hold_any that holds a C string
 wrote its address

---
 seq/any.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seq/any.hpp b/seq/any.hpp
index 3c3bf07..744e18c 100644
--- a/seq/any.hpp
+++ b/seq/any.hpp
@@ -239,7 +239,7 @@ namespace seq
 		{
 			if constexpr (!is_formattable<T>::value)
 				throw seq::bad_any_function_call("data type is not formattable");
-			else if constexpr (std::is_pointer_v<T>) {
+			else if constexpr (std::is_pointer_v<T> && !is_character_pointer<T>::value) {
 				const void * ptr = reinterpret_cast<const void*>(*static_cast<const T*>(in));
 				auto f = fmt(ptr); 
 				f.set_width_format(wfmt);
-- 
2.43.0


From c01b9ee8e0ad6adf5441fa930e7163b26be74030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:44 +0000
Subject: [PATCH 113/138] fix: hold_any ordered negative integers after
 unsigned ones, unlike its equality and its order with floating point values
 (not a strict weak ordering)

---
 seq/any.hpp | 39 +++++++++++++++++++++++++++------------
 1 file changed, 27 insertions(+), 12 deletions(-)

diff --git a/seq/any.hpp b/seq/any.hpp
index 744e18c..3c034d8 100644
--- a/seq/any.hpp
+++ b/seq/any.hpp
@@ -409,6 +409,15 @@ namespace seq
 			}
 		}
 
+		/// @brief Returns true for negative integral values
+		template<class T>
+		bool negative_arithmetic(const T& a)
+		{
+			if constexpr (std::is_integral_v<T> && std::is_signed_v<T>)
+				return a < 0;
+			else
+				return false;
+		}
 		/// @brief Less than comparison for hold_any::less_than
 		template<class T, class Cast, class U>
 		bool less_arithmetic(const U& a, const T& b)
@@ -1569,6 +1578,9 @@ namespace seq
 		// 0 for heap allocated objects, whatever the size of their type
 		SEQ_ALWAYS_INLINE auto storage_size() const noexcept -> unsigned { return big_size() ? 0u : static_cast<unsigned>(static_size); }
 
+		// Returns true if this object holds a negative integral value, given its type id
+		SEQ_ALWAYS_INLINE auto negative_integral(int id) const -> bool { return is_signed_integral_type(id) && this->template cast<long long>() < 0; }
+
 		// Type used to compare with a value: const reference, or pointer for arrays and functions
 		template<class T, class U = typename std::remove_reference<T>::type>
 		using decayed_reference = typename std::conditional<std::is_array_v<U> || std::is_function_v<U>, typename std::decay<T>::type, const U&>::type;
@@ -1964,10 +1976,11 @@ namespace seq
 			// arithmetic comparison
 			if (is_arithmetic_type(a_id) && std::is_arithmetic_v<type>) {
 				if (is_integral_type(a_id) && std::is_integral_v<type>) {
-					if (is_signed_integral_type(a_id) != std::is_signed_v<type> || is_unsigned_integral_type(a_id)) // different sign: convert to unsigned integral
-						return detail::less_arithmetic<type, unsigned long long>(this->template cast<unsigned long long>(), other);
-					else
-						return detail::less_arithmetic<type, long long>(this->template cast<long long>(), other);
+					const bool neg = this->negative_integral(a_id);
+					if (neg != detail::negative_arithmetic(other))
+						return neg;
+					// same sign: compare as unsigned integrals
+					return detail::less_arithmetic<type, unsigned long long>(this->template cast<unsigned long long>(), other);
 				}
 				return detail::less_arithmetic<type, long double>(this->template cast<long double>(), other);
 			}
@@ -2009,10 +2022,11 @@ namespace seq
 			// arithmetic comparison
 			if (is_arithmetic_type(a_id) && std::is_arithmetic_v<type>) {
 				if (is_integral_type(a_id) && std::is_integral_v<type>) {
-					if (is_signed_integral_type(a_id) != std::is_signed_v<type> || is_unsigned_integral_type(a_id)) // different sign: convert to unsigned integral
-						return detail::greater_arithmetic<type, unsigned long long>(this->template cast<unsigned long long>(), other);
-					else
-						return detail::greater_arithmetic<type, long long>(this->template cast<long long>(), other);
+					const bool neg = this->negative_integral(a_id);
+					if (neg != detail::negative_arithmetic(other))
+						return !neg;
+					// same sign: compare as unsigned integrals
+					return detail::greater_arithmetic<type, unsigned long long>(this->template cast<unsigned long long>(), other);
 				}
 				return detail::greater_arithmetic<type, long double>(this->template cast<long double>(), other);
 			}
@@ -2093,10 +2107,11 @@ namespace seq
 			// arithmetic comparison
 			if (is_arithmetic_type(a_id) && is_arithmetic_type(b_id)) {
 				if (is_integral_type(a_id) && is_integral_type(b_id)) {
-					if (is_signed_integral_type(a_id) != is_signed_integral_type(b_id) || is_unsigned_integral_type(a_id)) // different sign: convert to unsigned integral
-						return this->template cast<unsigned long long>() < other.template cast<unsigned long long>();
-					else
-						return this->template cast<long long>() < other.template cast<long long>();
+					const bool neg = this->negative_integral(a_id);
+					if (neg != other.negative_integral(b_id))
+						return neg;
+					// same sign: compare as unsigned integrals
+					return this->template cast<unsigned long long>() < other.template cast<unsigned long long>();
 				}
 				return this->template cast<long double>() < other.template cast<long double>();
 			}
-- 
2.43.0


From 2a94e404fe3f2ebcdc297c6bcba10ad8325c2d65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:44 +0000
Subject: [PATCH 114/138] fix: hold_any: equal arithmetic values had different
 hash values when one of them is a floating point value

---
 seq/any.hpp | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/seq/any.hpp b/seq/any.hpp
index 3c034d8..6b068fd 100644
--- a/seq/any.hpp
+++ b/seq/any.hpp
@@ -208,6 +208,26 @@ namespace seq
 		//
 		//////////////////////////////////////////////////////////////////////////////////////////////////////////
 
+		/// @brief Hash floating point value, using the same hash value as integral
+		/// values and other floating point values that compare equal
+		template<class T>
+		auto hash_floating_point(T value) -> size_t
+		{
+			static constexpr T limit = static_cast<T>(9223372036854775808.0); // 2^63
+			SEQ_COMPARE_FLOAT(
+			  if (value >= -limit && value < limit) {
+				  if (static_cast<T>(static_cast<long long>(value)) == value)
+					  return hasher<long long>{}(static_cast<long long>(value));
+			  } 
+			  else if (value >= limit && value < limit * 2) {
+				  if (static_cast<T>(static_cast<unsigned long long>(value)) == value)
+					  return hasher<unsigned long long>{}(static_cast<unsigned long long>(value));
+			  } 
+			  if (value != value || static_cast<T>(static_cast<double>(value)) == value) 
+				  return hasher<double>{}(static_cast<double>(value));)
+			return hasher<T>{}(value);
+		}
+
 		/// @brief Hash value only if is_hashable<T>::value is true,
 		/// otherwise throw bad_any_function_call
 		template<class T>
@@ -224,6 +244,9 @@ namespace seq
 					using char_type = typename T::value_type;
 					return hasher<basic_tstring_view<char_type>>{}(*static_cast<const T*>(in));
 				}
+				else if constexpr (std::is_floating_point_v<T>)
+					// equal arithmetic values of different types must have the same hash value
+					return hash_floating_point(*static_cast<const T*>(in));
 				else
 					return hasher<T>{}(*static_cast<const T*>(in));
 			}
-- 
2.43.0


From 7bad25a759ae2ca1fd91067ea8eac7b49ee7d1a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:30 +0000
Subject: [PATCH 115/138] fix: hold_any: assignment from an object stored
 inside of the previous content used it after its destruction, and held types
 which are not assignable were overwritten without being destroyed

---
 seq/any.hpp | 130 +++++++++++++++++++++++++++-------------------------
 1 file changed, 68 insertions(+), 62 deletions(-)

diff --git a/seq/any.hpp b/seq/any.hpp
index 6b068fd..c796864 100644
--- a/seq/any.hpp
+++ b/seq/any.hpp
@@ -605,6 +605,9 @@ namespace seq
 				assign_value(*static_cast<T*>(dst), *static_cast<const T*>(in));
 			}
 			else {
+				if (!std::is_copy_constructible_v<T>)
+					throw seq::bad_any_function_call("data type is not copyable");
+
 				void* dst = out_storage;
 				if (sizeof(T) > out_storage_size) {
 					dst = SEQ_ANY_MALLOC(sizeof(T));
@@ -687,6 +690,10 @@ namespace seq
 		virtual void ostream_any(const void* in, std::ostream& oss) const = 0;
 		/// @brief Read object of underlying type from a std::istream object
 		virtual void istream_any(void* in, std::istream& iss) const = 0;
+		/// @brief Tells if copy_any() can assign to an object of the same type
+		virtual auto copy_assignable() const noexcept -> bool { return true; }
+		/// @brief Tells if move_any() can assign to an object of the same type
+		virtual auto move_assignable() const noexcept -> bool { return true; }
 		virtual void copy_any(const any_type_info* in_p, const void* in, const any_type_info* out_p, void* out_storage, unsigned out_storage_size) const = 0;
 		virtual void move_any(const any_type_info* in_p, void* in, const any_type_info* out_p, void* out_storage, unsigned out_storage_size) const = 0;
 	};
@@ -703,6 +710,8 @@ namespace seq
 		void format_any(std::string& out, const void* in, const width_format& wfmt, const numeric_format& nfmt) const override { detail::format_any<T>(out, in, wfmt, nfmt); }
 		void ostream_any(const void* in, std::ostream& oss) const override { return detail::ostream_any<T>(oss, in); }
 		void istream_any(void* in, std::istream& iss) const override { return detail::istream_any<T>(iss, in); }
+		auto copy_assignable() const noexcept -> bool override { return std::is_copy_assignable_v<T>; }
+		auto move_assignable() const noexcept -> bool override { return std::is_move_assignable_v<T>; }
 		void copy_any(const any_type_info* in_p, const void* in, const any_type_info* out_p, void* out_storage, unsigned out_storage_size) const override
 		{
 			detail::copy_any<T>(in_p, in, out_p, out_storage, out_storage_size);
@@ -1623,6 +1632,31 @@ namespace seq
 			return &t;
 		}
 
+		// Move other's content to this empty object
+		void move_from(hold_any& other) noexcept(Relocatable)
+		{
+			if constexpr (Relocatable) {
+				memcpy(&this->d_storage, &other.d_storage, static_size);
+				this->d_type_info = other.d_type_info;
+				other.d_type_info.set_full(0);
+			}
+			else {
+
+				if (other.big_size() || !other.non_relocatable()) {
+					// for big types or relocatable types, simple memcpy and reset other tags
+					memcpy(&this->d_storage, &other.d_storage, static_size);
+					this->d_type_info = other.d_type_info;
+					other.d_type_info.set_full(0);
+				}
+				else {
+					// move data, might throw
+					other.type()->move_any(other.type(), other.data(), nullptr, &this->d_storage, other.storage_size());
+					// copy tag and info pointer on success
+					this->d_type_info = other.d_type_info;
+				}
+			}
+		}
+
 		template<class ValueType, class... Args>
 		auto emplace_args(Args&&... args) -> typename std::decay<ValueType>::type&
 		{
@@ -1632,12 +1666,14 @@ namespace seq
 			auto* i_t = this->type();
 			auto* o_t = get_type<type>();
 			type* out = nullptr;
-			if (o_t == i_t) {
-				// same type
-				out = static_cast<type*>(this->data());
-				*out = type(std::forward<Args>(args)...);
+			if constexpr (std::is_move_assignable_v<type>) {
+				if (o_t == i_t) {
+					// same type
+					out = static_cast<type*>(this->data());
+					*out = type(std::forward<Args>(args)...);
+				}
 			}
-			else {
+			if (!out) {
 				// different types, clear this object
 				reset();
 				// set type info pointer
@@ -1727,26 +1763,7 @@ namespace seq
 		hold_any(hold_any&& other) noexcept(Relocatable)
 		  : base_type()
 		{
-			if constexpr (Relocatable) {
-				memcpy(&this->d_storage, &other.d_storage, static_size);
-				this->d_type_info = other.d_type_info;
-				other.d_type_info.set_full(0);
-			}
-			else {
-
-				if (other.big_size() || !other.non_relocatable()) {
-					// for big types or relocatable types, simple memcpy and reset other tags
-					memcpy(&this->d_storage, &other.d_storage, static_size);
-					this->d_type_info = other.d_type_info;
-					other.d_type_info.set_full(0);
-				}
-				else {
-					// move data, might throw
-					other.type()->move_any(other.type(), other.data(), nullptr, &this->d_storage, other.storage_size());
-					// copy tag and info pointer on success
-					this->d_type_info = other.d_type_info;
-				}
-			}
+			move_from(other);
 		}
 
 		/// @brief Construct from any object except another hold_any
@@ -1787,10 +1804,12 @@ namespace seq
 			const auto* i_t = this->type();
 			const auto* o_t = other.type();
 
-			if (i_t != o_t) {
-				// reset this object content if its type is different than other's type
+			if (i_t != o_t || (o_t && !o_t->copy_assignable())) {
+				// Copy (might throw) before destroying the content of this object, which might contain other
+				hold_any tmp(other);
 				reset();
-				i_t = nullptr;
+				move_from(tmp);
+				return *this;
 			}
 
 			if (!other.big_size() && !other.complex_copy()) {
@@ -1811,8 +1830,9 @@ namespace seq
 		{
 			if constexpr (Relocatable) {
 				// Move assignment is much more simple with relocatable hold_any
-				std::swap(this->d_storage, other.d_storage);
-				std::swap(this->d_type_info, other.d_type_info);
+				hold_any tmp(std::move(other));
+				std::swap(this->d_storage, tmp.d_storage);
+				std::swap(this->d_type_info, tmp.d_type_info);
 				return *this;
 			}
 			else {
@@ -1825,11 +1845,13 @@ namespace seq
 				const auto* i_t = this->type();
 				const auto* o_t = other.type();
 
-				if (i_t == o_t) {
+				if (i_t == o_t && (!other.non_relocatable() || o_t->move_assignable())) {
 					// same non null type
 					if (!other.non_relocatable()) {
 						// relocatable: just swap storage
-						std::swap(this->d_storage, other.d_storage);
+						hold_any tmp(std::move(other));
+						std::swap(this->d_storage, tmp.d_storage);
+						std::swap(this->d_type_info, tmp.d_type_info);
 					}
 					else {
 						// move, might throw
@@ -1837,12 +1859,10 @@ namespace seq
 					}
 				}
 				else {
-					// different type, clear this object
+					// Move (might throw) before destroying the content of this object, which might contain other
+					hold_any tmp(std::move(other));
 					reset();
-					// move, might throw
-					o_t->move_any(o_t, other.data(), nullptr, &this->d_storage, other.storage_size());
-					// copy type info with tags
-					this->d_type_info = other.d_type_info;
+					move_from(tmp);
 				}
 
 				return *this;
@@ -1854,35 +1874,21 @@ namespace seq
 		auto operator=(T&& value) -> hold_any&
 		{
 			using type = typename std::decay<T>::type;
-			auto* i_t = this->type();
-			auto* o_t = get_type<type>();
+			const auto* i_t = this->type();
+			const auto* o_t = get_type<type>();
 
-			if (o_t == i_t) {
-				// same type
-				*static_cast<type*>(this->data()) = std::forward<T>(value);
-			}
-			else {
-				// different types, clear this object
-				reset();
-				// set type info pointer
-				this->d_type_info = o_t;
-				void* d = nullptr;
-				try {
-					// create memory chunk and tags, might throw
-					d = this->template alloc<type>();
-					// copy, might throw
-					new (d) type(std::forward<T>(value));
-				}
-				catch (...) {
-					// free memory chunk if needed
-					if (d && (this->d_type_info.tag() & detail::big_size))
-						SEQ_ANY_FREE(d);
-					// reset type info pointer and tags
-					this->d_type_info.set_full(0);
-					throw;
+			if constexpr (std::is_assignable_v<type&, T&&>) {
+				if (o_t == i_t) {
+					// same type
+					*static_cast<type*>(this->data()) = std::forward<T>(value);
+					return *this;
 				}
 			}
 
+			// Build (might throw) before destroying the content of this object, which might contain value
+			hold_any tmp(std::forward<T>(value));
+			reset();
+			move_from(tmp);
 			return *this;
 		}
 
-- 
2.43.0


From cab646e0efcf74b65c7f68f36f03f52e3a3e0a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:16 +0000
Subject: [PATCH 116/138] fix: hold_any ignored the alignment of the types it
 holds

---
 seq/any.hpp | 69 +++++++++++++++++++++++++++++++++++------------------
 1 file changed, 46 insertions(+), 23 deletions(-)

diff --git a/seq/any.hpp b/seq/any.hpp
index c796864..f5aac30 100644
--- a/seq/any.hpp
+++ b/seq/any.hpp
@@ -589,6 +589,29 @@ namespace seq
 			return false;
 		}
 
+		/// @brief Allocate memory for an object of type T
+		template<class T>
+		void* allocate_any()
+		{
+			if constexpr (alignof(T) > __STDCPP_DEFAULT_NEW_ALIGNMENT__)
+				return ::operator new(sizeof(T), std::align_val_t(alignof(T)));
+			else {
+				void* dst = SEQ_ANY_MALLOC(sizeof(T));
+				if SEQ_UNLIKELY (!dst)
+					throw std::bad_alloc();
+				return dst;
+			}
+		}
+		/// @brief Deallocate memory for an object of type T
+		template<class T>
+		void deallocate_any(void* ptr) noexcept
+		{
+			if constexpr (alignof(T) > __STDCPP_DEFAULT_NEW_ALIGNMENT__)
+				::operator delete(ptr, std::align_val_t(alignof(T)));
+			else
+				SEQ_ANY_FREE(ptr);
+		}
+
 		template<class T, class any_type_info>
 		void copy_any(const any_type_info* in_p, const void* in, const any_type_info* out_p, void* out_storage, unsigned out_storage_size)
 		{
@@ -610,9 +633,7 @@ namespace seq
 
 				void* dst = out_storage;
 				if (sizeof(T) > out_storage_size) {
-					dst = SEQ_ANY_MALLOC(sizeof(T));
-					if (!dst)
-						throw std::bad_alloc();
+					dst = allocate_any<T>();
 					memcpy(out_storage, &dst, sizeof(void*));
 				}
 				try {
@@ -620,7 +641,7 @@ namespace seq
 				}
 				catch (...) {
 					if (sizeof(T) > out_storage_size)
-						SEQ_ANY_FREE(dst);
+						deallocate_any<T>(dst);
 					throw;
 				}
 			}
@@ -641,9 +662,7 @@ namespace seq
 			else {
 				void* dst = out_storage;
 				if (sizeof(T) > out_storage_size) {
-					dst = SEQ_ANY_MALLOC(sizeof(T));
-					if SEQ_UNLIKELY (!dst)
-						throw std::bad_alloc();
+					dst = allocate_any<T>();
 					memcpy(out_storage, &dst, sizeof(void*));
 				}
 				try {
@@ -651,7 +670,7 @@ namespace seq
 				}
 				catch (...) {
 					if (sizeof(T) > out_storage_size)
-						SEQ_ANY_FREE(dst);
+						deallocate_any<T>(dst);
 					throw;
 				}
 			}
@@ -678,6 +697,8 @@ namespace seq
 		virtual auto sizeof_type() const noexcept -> size_t = 0;
 		/// @brief Destroy object
 		virtual void destroy_any(void* in) const noexcept = 0;
+		/// @brief Deallocate the memory of an object
+		virtual void dealloc_any(void* in) const noexcept { SEQ_ANY_FREE(in); }
 		/// @brief Compare 2 objects of same type for equality
 		virtual auto equal_any(const void* a, const void* o) const -> bool = 0;
 		/// @brief Compare 2 objects of same type for less than
@@ -704,6 +725,7 @@ namespace seq
 	{
 		auto sizeof_type() const noexcept -> size_t override { return sizeof(T); }
 		void destroy_any(void* in) const noexcept override { static_cast<T*>(in)->~T(); }
+		void dealloc_any(void* in) const noexcept override { detail::deallocate_any<T>(in); }
 		auto equal_any(const void* a, const void* b) const -> bool override { return detail::compare_equal_any<T>(a, b); }
 		auto less_any(const void* a, const void* b) const -> bool override { return detail::compare_less_any<T>(a, b); }
 		auto hash_any(const void* in) const -> size_t override { return detail::hash_any<T, SupportHash>(in); }
@@ -808,15 +830,15 @@ namespace seq
 		}
 
 		/// @brief Check if given type required a separated (heap allocated) storage
-		template<class T, size_t SizeofStorage, bool ForceRelocatable>
+		template<class T, size_t SizeofStorage, size_t Alignment, bool ForceRelocatable>
 		struct need_separate_storage
 		{
-			static constexpr bool value = sizeof(T) > SizeofStorage;
+			static constexpr bool value = sizeof(T) > SizeofStorage || alignof(T) > Alignment;
 		};
-		template<class T, size_t SizeofStorage>
-		struct need_separate_storage<T, SizeofStorage, true>
+		template<class T, size_t SizeofStorage, size_t Alignment>
+		struct need_separate_storage<T, SizeofStorage, Alignment, true>
 		{
-			static constexpr bool value = (sizeof(T) > SizeofStorage) || (!seq::is_relocatable<T>::value);
+			static constexpr bool value = sizeof(T) > SizeofStorage || alignof(T) > Alignment || (!seq::is_relocatable<T>::value);
 		};
 	}
 
@@ -847,21 +869,22 @@ namespace seq
 		pointer_type d_type_info{};
 		storage_type d_storage{};
 
+		/// @brief Tells if given type is allocated on the heap
+		template<class T>
+		static constexpr bool separate_storage = detail::need_separate_storage<T, sizeof(storage_type), Alignment, ForceRelocatable>::value;
+
 		/// @brief Allocate storage for given type, returns pointer to object in order to be constructed
 		template<class T>
 		auto alloc() -> void*
 		{
-			static constexpr size_t size_T = sizeof(T);
 			// compile time tags
 			static constexpr size_t tag = (std::is_trivially_destructible_v<T> ? 0 : 1) | (std::is_trivially_copyable_v<T> ? 0 : 2) | (is_relocatable<T>::value ? 0 : 4) |
-						      (detail::need_separate_storage<T, sizeof(storage_type), ForceRelocatable>::value ? 8 : 0) | (std::is_pointer_v<T> ? 16 : 0);
+						      (separate_storage<T> ? 8 : 0) | (std::is_pointer_v<T> ? 16 : 0);
 
 			// create object storage with allocation if sizeof(T) > StaticSize
 			void* d = &d_storage;
 			if (tag & detail::big_size) {
-				d = SEQ_ANY_MALLOC(size_T);
-				if SEQ_UNLIKELY (d == nullptr)
-					throw std::bad_alloc();
+				d = detail::allocate_any<T>();
 				memcpy(&d_storage, &d, sizeof(void*));
 			}
 			// set the type tags
@@ -876,7 +899,7 @@ namespace seq
 			if (d_type_info.full() & detail::big_size) {
 				void* d;
 				memcpy(&d, &d_storage, sizeof(void*));
-				SEQ_ANY_FREE(d);
+				type()->dealloc_any(d);
 			}
 			// clear any_type_info pointer
 			d_type_info.set_full(0);
@@ -1687,8 +1710,8 @@ namespace seq
 				}
 				catch (...) {
 					// free memory chunk if needed
-					if (d && (this->d_type_info.tag() & detail::big_size))
-						SEQ_ANY_FREE(d);
+					if (d && base_type::template separate_storage<type>)
+						detail::deallocate_any<type>(d);
 					// reset type info pointer and tags
 					this->d_type_info.set_full(0);
 					throw;
@@ -1787,8 +1810,8 @@ namespace seq
 			}
 			catch (...) {
 				// free memory if needed
-				if (d && (this->d_type_info.tag() & detail::big_size))
-					SEQ_ANY_FREE(d);
+				if (d && base_type::template separate_storage<type>)
+					detail::deallocate_any<type>(d);
 				// reset type info
 				this->d_type_info.set_full(0);
 				throw;
-- 
2.43.0


From 2d03c2e49b5da76cbacb42f48545f6c00af2f630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:07 +0000
Subject: [PATCH 117/138] fix: formatting a hold_any to other strings than
 std::string did not compile

---
 seq/any.hpp | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/seq/any.hpp b/seq/any.hpp
index f5aac30..fe9fa7e 100644
--- a/seq/any.hpp
+++ b/seq/any.hpp
@@ -2410,12 +2410,22 @@ namespace seq
 		{
 		}
 
-		auto to_string(std::string& out) const -> size_t
+		template<class String>
+		auto to_string(String& out) const -> size_t
 		{
-			size_t prev = out.size();
-			if (!this->value().empty())
+			if (this->value().empty())
+				return 0;
+			if constexpr (std::is_same_v<String, std::string>) {
+				size_t prev = out.size();
 				this->value().type()->format_any(out, this->value().data(), this->width_fmt(), this->numeric_fmt());
-			return out.size() - prev;
+				return out.size() - prev;
+			}
+			else {
+				std::string tmp;
+				this->value().type()->format_any(tmp, this->value().data(), this->width_fmt(), this->numeric_fmt());
+				out.append(tmp.data(), tmp.size());
+				return tmp.size();
+			}
 		}
 	};
 
-- 
2.43.0


From 7dcd9fd4c1fbc87fdb324dce5e8c92945322026f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:56 +0000
Subject: [PATCH 118/138] fix: hold_any::cast() to references and emplace() did
 not compile for types without default constructor

---
 seq/any.hpp | 26 --------------------------
 1 file changed, 26 deletions(-)

diff --git a/seq/any.hpp b/seq/any.hpp
index fe9fa7e..e664e4e 100644
--- a/seq/any.hpp
+++ b/seq/any.hpp
@@ -909,15 +909,6 @@ namespace seq
 		auto convert(const TypeInfo* /*unused*/, const TypeInfo* /*unused*/, std::uintptr_t /*unused*/) const -> T
 		{
 			throw std::bad_cast();
-#ifdef __clang__
-#pragma clang diagnostic push
-#pragma clang diagnostic ignored "-Wexit-time-destructors"
-#endif
-			static typename std::decay<T>::type ref;
-#ifdef __clang__
-#pragma clang diagnostic pop
-#endif
-			return ref;
 		}
 
 		template<class T, class = typename std::enable_if<!std::is_reference_v<T>, void>::type>
@@ -1640,21 +1631,6 @@ namespace seq
 		template<class T, class U = typename std::remove_reference<T>::type>
 		using decayed_reference = typename std::conditional<std::is_array_v<U> || std::is_function_v<U>, typename std::decay<T>::type, const U&>::type;
 
-		template<class T>
-		SEQ_ALWAYS_INLINE auto get_null_out() noexcept -> T*
-		{
-			// Returns pointer to T*, never reached (just here to avoid compile warning)
-#ifdef __clang__
-#pragma clang diagnostic push
-#pragma clang diagnostic ignored "-Wexit-time-destructors"
-#endif
-			static T t;
-#ifdef __clang__
-#pragma clang diagnostic pop
-#endif
-			return &t;
-		}
-
 		// Move other's content to this empty object
 		void move_from(hold_any& other) noexcept(Relocatable)
 		{
@@ -1715,8 +1691,6 @@ namespace seq
 					// reset type info pointer and tags
 					this->d_type_info.set_full(0);
 					throw;
-					// just to remove cppcheck warning
-					out = get_null_out<type>();
 				}
 			}
 
-- 
2.43.0


From 8db259fe6dee47ddcdc4c3b863d95a831c6426f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:51 +0000
Subject: [PATCH 119/138] fix: hold_any::cast() to char16_t, char32_t and
 wchar_t did not compile

---
 seq/any.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/seq/any.hpp b/seq/any.hpp
index e664e4e..5112aab 100644
--- a/seq/any.hpp
+++ b/seq/any.hpp
@@ -330,7 +330,12 @@ namespace seq
 		template<class T, class String>
 		T arithmetic_from_string(const String& in)
 		{
-			if constexpr (std::is_arithmetic_v<T>) {
+			if constexpr (std::is_same_v<T, char16_t> || std::is_same_v<T, char32_t> || std::is_same_v<T, wchar_t>) {
+				// no from_chars() for these types: read the underlying integer
+				using integer = typename std::conditional<sizeof(T) == 2, std::uint16_t, std::uint32_t>::type;
+				return static_cast<T>(arithmetic_from_string<integer>(in));
+			}
+			else if constexpr (std::is_arithmetic_v<T>) {
 				T res;
 				if (from_chars(string_data(in), string_data(in) + string_size(in), res).ec != std::errc())
 					throw std::bad_cast();
-- 
2.43.0


From b2f69eed1b1f251ed844e49472cc43107e2375b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:39 +0000
Subject: [PATCH 120/138] fix: formatting a hold_any that holds a floating
 point value wrote it in upper case, and an integer with a floating point
 format as the base

---
 seq/any.hpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/seq/any.hpp b/seq/any.hpp
index 5112aab..f4fea1b 100644
--- a/seq/any.hpp
+++ b/seq/any.hpp
@@ -272,7 +272,15 @@ namespace seq
 			else {
 				auto f = fmt(const_cast<T&>(*static_cast<const T*>(in)));
 				f.set_width_format(wfmt);
-				f.set_numeric_format(nfmt);
+				if constexpr (std::is_arithmetic_v<T>) {
+					// The options were not set for type T: keep its default format or base if the supplied one is not suited for it
+					numeric_format n = nfmt;
+					if ((n.format() >= 'A') != std::is_floating_point_v<T>)
+						n.format(f.format());
+					f.set_numeric_format(n);
+				}
+				else
+					f.set_numeric_format(nfmt);
 				f.append(out);
 			}
 		}
-- 
2.43.0


From c54efcc24dfe3df379e8e50506f9287098c9f810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:22 +0000
Subject: [PATCH 121/138] fix: formatting a hold_any truncated the numbers
 longer than the width, unlike formatting the value itself

---
 seq/any.hpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/seq/any.hpp b/seq/any.hpp
index f4fea1b..bdd16bf 100644
--- a/seq/any.hpp
+++ b/seq/any.hpp
@@ -2388,6 +2388,9 @@ namespace seq
 		using base_type = base_ostream_format<hold_any<Interface, S, A, R>, ostream_format<hold_any<Interface, S, A, R>, Slot>>;
 
 	public:
+		// The width is applied when formatting the held value, as some types ignore a width lower than their size
+		static constexpr bool auto_width_format = true;
+
 		ostream_format()
 		  : base_type()
 		{
@@ -2400,10 +2403,13 @@ namespace seq
 		template<class String>
 		auto to_string(String& out) const -> size_t
 		{
-			if (this->value().empty())
-				return 0;
+			size_t prev = out.size();
+			if (this->value().empty()) {
+				if (this->alignment())
+					width_format::format(out, prev, prev, this->width_fmt());
+				return out.size() - prev;
+			}
 			if constexpr (std::is_same_v<String, std::string>) {
-				size_t prev = out.size();
 				this->value().type()->format_any(out, this->value().data(), this->width_fmt(), this->numeric_fmt());
 				return out.size() - prev;
 			}
-- 
2.43.0


From 757a4bf83d34800ec036ff45fda148514153e46f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:00 +0000
Subject: [PATCH 122/138] fix: the move constructor of radix containers with an
 allocator did not compile (ADL does not find make_move_iterator)

---
 seq/internal/radix_tree.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seq/internal/radix_tree.hpp b/seq/internal/radix_tree.hpp
index 1e06189..3d86f7e 100644
--- a/seq/internal/radix_tree.hpp
+++ b/seq/internal/radix_tree.hpp
@@ -1962,7 +1962,7 @@ namespace seq
 				if (alloc == other.get_allocator())
 					swap(other, false);
 				else if (other.size())
-					insert(make_move_iterator(other.begin()), make_move_iterator(other.end()), false);
+					insert(std::make_move_iterator(other.begin()), std::make_move_iterator(other.end()), false);
 			}
 
 			template<class Iter>
-- 
2.43.0


From b6eadf6cd275f48561c695a01a133b5ed1185f59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:23 +0000
Subject: [PATCH 123/138] fix: move assignment of containers swapped their
 contents but not their (unequal) allocators: memory was released by other
 allocators, and assignments from initializer lists used the default allocator

---
 seq/concurrent_map.hpp                 |  8 ++---
 seq/devector.hpp                       |  4 +--
 seq/internal/concurrent_hash_table.hpp |  5 ++--
 seq/internal/radix_tree.hpp            |  4 +--
 seq/ordered_map.hpp                    |  8 ++---
 seq/sequence.hpp                       |  4 +--
 seq/tiered_vector.hpp                  |  4 +--
 seq/tiny_string.hpp                    | 14 +++++++--
 seq/utils.hpp                          | 41 ++++++++++++++++++++++++++
 9 files changed, 71 insertions(+), 21 deletions(-)

diff --git a/seq/concurrent_map.hpp b/seq/concurrent_map.hpp
index a6490dd..89b470a 100644
--- a/seq/concurrent_map.hpp
+++ b/seq/concurrent_map.hpp
@@ -184,9 +184,9 @@ namespace seq
 			static_cast<base_type&>(*this) = static_cast<const base_type&>(other);
 			return *this;
 		}
-		auto operator=(concurrent_set&& other) noexcept(noexcept(std::declval<base_type&>().swap(std::declval<base_type&>()))) -> concurrent_set&
+		auto operator=(concurrent_set&& other) noexcept(std::is_nothrow_move_assignable_v<base_type>) -> concurrent_set&
 		{
-			base_type::swap(other);
+			static_cast<base_type&>(*this) = static_cast<base_type&&>(other);
 			return *this;
 		}
 
@@ -600,9 +600,9 @@ namespace seq
 			static_cast<base_type&>(*this) = static_cast<const base_type&>(other);
 			return *this;
 		}
-		auto operator=(concurrent_map&& other) noexcept(noexcept(std::declval<base_type&>().swap(std::declval<base_type&>()))) -> concurrent_map&
+		auto operator=(concurrent_map&& other) noexcept(std::is_nothrow_move_assignable_v<base_type>) -> concurrent_map&
 		{
-			base_type::swap(other);
+			static_cast<base_type&>(*this) = static_cast<base_type&&>(other);
 			return *this;
 		}
 
diff --git a/seq/devector.hpp b/seq/devector.hpp
index bee2653..f69d846 100644
--- a/seq/devector.hpp
+++ b/seq/devector.hpp
@@ -1228,9 +1228,9 @@ namespace seq
 			return *this;
 		}
 		/// @brief Move assignment operator
-		auto operator=(devector&& other) noexcept(noexcept(std::declval<devector&>().swap(std::declval<devector&>()))) -> devector&
+		auto operator=(devector&& other) noexcept(nothrow_move_assign<Allocator>::value) -> devector&
 		{
-			swap(other);
+			move_assign_container(*this, other, get_allocator(), other.get_allocator());
 			return *this;
 		}
 	};
diff --git a/seq/internal/concurrent_hash_table.hpp b/seq/internal/concurrent_hash_table.hpp
index e29370a..cc5e5d2 100644
--- a/seq/internal/concurrent_hash_table.hpp
+++ b/seq/internal/concurrent_hash_table.hpp
@@ -1761,9 +1761,10 @@ namespace seq
 				}
 				return *this;
 			}
-			ConcurrentHashTable& operator=(ConcurrentHashTable&& other) noexcept(noexcept(std::declval<ConcurrentHashTable&>().swap(std::declval<ConcurrentHashTable&>())))
+			ConcurrentHashTable& operator=(ConcurrentHashTable&& other) noexcept(nothrow_move_assign<Alloc>::value &&
+											     noexcept(std::declval<ConcurrentHashTable&>().swap(std::declval<ConcurrentHashTable&>())))
 			{
-				swap(other);
+				move_assign_container(*this, other, static_cast<Alloc&>(*this), static_cast<const Alloc&>(other));
 				return *this;
 			}
 
diff --git a/seq/internal/radix_tree.hpp b/seq/internal/radix_tree.hpp
index 3d86f7e..f37f727 100644
--- a/seq/internal/radix_tree.hpp
+++ b/seq/internal/radix_tree.hpp
@@ -1979,9 +1979,9 @@ namespace seq
 
 			// Assignment operators/functions
 
-			auto operator=(RadixTree&& other) noexcept(noexcept(std::declval<RadixTree&>().swap(std::declval<RadixTree&>()))) -> RadixTree&
+			auto operator=(RadixTree&& other) noexcept(nothrow_move_assign<Allocator>::value && noexcept(std::declval<RadixTree&>().swap(std::declval<RadixTree&>()))) -> RadixTree&
 			{
-				swap(other);
+				move_assign_container(*this, other, get_allocator(), other.get_allocator());
 				return *this;
 			}
 
diff --git a/seq/ordered_map.hpp b/seq/ordered_map.hpp
index 532926d..284b122 100644
--- a/seq/ordered_map.hpp
+++ b/seq/ordered_map.hpp
@@ -1200,9 +1200,9 @@ namespace seq
 		}
 
 		/// @brief Move assignment operator
-		auto operator=(ordered_set&& other) noexcept(noexcept(std::declval<base_type&>().swap(std::declval<base_type&>()))) -> ordered_set&
+		auto operator=(ordered_set&& other) noexcept(nothrow_move_assign<Allocator>::value && noexcept(std::declval<base_type&>().swap(std::declval<base_type&>()))) -> ordered_set&
 		{
-			base_type::swap(other);
+			move_assign_container(*this, other, get_allocator(), other.get_allocator());
 			return *this;
 		}
 
@@ -1665,9 +1665,9 @@ namespace seq
 			}
 			return *this;
 		}
-		auto operator=(ordered_map&& other) noexcept(noexcept(std::declval<base_type&>().swap(std::declval<base_type&>()))) -> ordered_map&
+		auto operator=(ordered_map&& other) noexcept(nothrow_move_assign<Allocator>::value && noexcept(std::declval<base_type&>().swap(std::declval<base_type&>()))) -> ordered_map&
 		{
-			base_type::swap(other);
+			move_assign_container(*this, other, get_allocator(), other.get_allocator());
 			return *this;
 		}
 
diff --git a/seq/sequence.hpp b/seq/sequence.hpp
index 38bafde..03aaaf2 100644
--- a/seq/sequence.hpp
+++ b/seq/sequence.hpp
@@ -1488,9 +1488,9 @@ namespace seq
 		/// @brief Move assignment operator
 		/// @param other input sequence object
 		/// @return reference to this
-		auto operator=(sequence&& other) noexcept(noexcept(std::declval<sequence&>().swap(std::declval<sequence&>()))) -> sequence&
+		auto operator=(sequence&& other) noexcept(nothrow_move_assign<Allocator>::value) -> sequence&
 		{
-			this->swap(other);
+			move_assign_container(*this, other, get_allocator(), other.get_allocator());
 			return *this;
 		}
 
diff --git a/seq/tiered_vector.hpp b/seq/tiered_vector.hpp
index bb348eb..17d1a1e 100644
--- a/seq/tiered_vector.hpp
+++ b/seq/tiered_vector.hpp
@@ -2953,9 +2953,9 @@ namespace seq
 		/// @brief Move assignment operator.
 		/// @param other another container to use as data source
 		/// @return reference to this
-		auto operator=(tiered_vector&& other) noexcept(noexcept(std::declval<tiered_vector&>().swap(std::declval<tiered_vector&>()))) -> tiered_vector&
+		auto operator=(tiered_vector&& other) noexcept(nothrow_move_assign<Allocator>::value) -> tiered_vector&
 		{
-			this->swap(other);
+			move_assign_container(*this, other, get_allocator(), other.get_allocator());
 			return *this;
 		}
 
diff --git a/seq/tiny_string.hpp b/seq/tiny_string.hpp
index c628637..828d6c3 100644
--- a/seq/tiny_string.hpp
+++ b/seq/tiny_string.hpp
@@ -1269,8 +1269,10 @@ namespace seq
 		{
 			if (this == std::addressof(other))
 				return *this;
-			if (is_sso() && other.is_sso())
+			if (is_sso() && other.is_sso()) {
+				assign_allocator(get_allocator(), other.get_allocator());
 				memcpy(&d_data.d_union, &other.d_data.d_union, sizeof(d_data.d_union));
+			}
 			else {
 				if constexpr (assign_alloc<Allocator>::value) {
 					if (get_allocator() != other.get_allocator()) {
@@ -1336,9 +1338,15 @@ namespace seq
 		/// @brief Assign to this string the initializer list il
 		auto assign(std::initializer_list<Char> il) -> tiny_string& { return assign(il.begin(), il.end()); }
 		/// @brief Move the content of other to this string. Equivalent to tiny_string::operator=.
-		SEQ_STR_INLINE_STRONG auto assign(tiny_string&& other) noexcept(noexcept(std::declval<internal_data&>().swap(std::declval<internal_data&>()))) -> tiny_string&
+		SEQ_STR_INLINE_STRONG auto assign(tiny_string&& other) noexcept(nothrow_move_assign<Allocator>::value) -> tiny_string&
 		{
-			if constexpr (sizeof(tiny_string) <= 16 || !noexcept(move_allocator(std::declval<Allocator&>(), std::declval<Allocator&>())))
+			if constexpr (!nothrow_move_assign<Allocator>::value) {
+				// Different allocators that do not propagate: copy the characters
+				if (get_allocator() != other.get_allocator())
+					return assign(other.data(), other.size());
+			}
+			if constexpr ((sizeof(tiny_string) <= 16 || !noexcept(move_allocator(std::declval<Allocator&>(), std::declval<Allocator&>()))) &&
+				      (std::allocator_traits<Allocator>::is_always_equal::value || !std::allocator_traits<Allocator>::propagate_on_container_move_assignment::value))
 				// Use internal_data.swap() for small static size or if moving allocator is NOT noexcept
 				d_data.swap(other.d_data);
 			else if SEQ_LIKELY (this != std::addressof(other)) {
diff --git a/seq/utils.hpp b/seq/utils.hpp
index 18b9f44..ab81efa 100644
--- a/seq/utils.hpp
+++ b/seq/utils.hpp
@@ -584,6 +584,47 @@ namespace seq
 		}
 	}
 
+	/// @brief Tells if the move assignment of a container can always take the content of its source,
+	/// either because the allocator propagates or because all allocators compare equal.
+	template<class Allocator>
+	struct nothrow_move_assign
+	{
+		static constexpr bool value = std::allocator_traits<Allocator>::propagate_on_container_move_assignment::value || std::allocator_traits<Allocator>::is_always_equal::value;
+	};
+
+	/// @brief Move assignment operator of containers, based on their swap() member, their move constructor and their allocator-extended move constructor.
+	/// @param left assigned container
+	/// @param right source container
+	/// @param left_alloc allocator stored by left
+	/// @param right_alloc allocator stored by right
+	template<class Container, class Allocator>
+	void move_assign_container(Container& left, Container& right, Allocator& left_alloc, const Allocator& right_alloc) noexcept(nothrow_move_assign<Allocator>::value)
+	{
+		using traits = std::allocator_traits<Allocator>;
+		if (std::addressof(left) == std::addressof(right))
+			return;
+		if constexpr (!traits::is_always_equal::value) {
+			if (!(left_alloc == right_alloc)) {
+				if constexpr (traits::propagate_on_container_move_assignment::value) {
+					// Release the current content, then take the allocator and the content of right
+					{
+						Container old(std::move(left));
+					}
+					Allocator al(right_alloc);
+					left_alloc = std::move(al);
+					left.swap(right);
+				}
+				else {
+					// Different allocators that do not propagate: element-wise move
+					Container tmp(std::move(right), left_alloc);
+					left.swap(tmp);
+				}
+				return;
+			}
+		}
+		left.swap(right);
+	}
+
 	// Returns whether an attempt to propagate allocators is necessary in copy assignment operations.
 	// Note that even when false_type, callers should call assign_allocator as we want to assign allocators even when equal.
 	template<class Allocator>
-- 
2.43.0


From 6b98ac049de8739759453f19a0a30d85a322ac06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:50 +0000
Subject: [PATCH 124/138] fix: element-wise moves between containers with
 different allocators left moved keys in the source set or map (stale hash
 table, unsorted keys), and leaked their memory if an exception was thrown

---
 seq/devector.hpp                       | 1 +
 seq/internal/concurrent_hash_table.hpp | 2 ++
 seq/internal/radix_tree.hpp            | 5 ++++-
 seq/ordered_map.hpp                    | 2 ++
 seq/sequence.hpp                       | 4 ++--
 seq/tiered_vector.hpp                  | 4 ++--
 6 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/seq/devector.hpp b/seq/devector.hpp
index f69d846..f4cb5fe 100644
--- a/seq/devector.hpp
+++ b/seq/devector.hpp
@@ -744,6 +744,7 @@ namespace seq
 			else {
 				resize(other.size());
 				std::move(other.begin(), other.end(), begin());
+				other.clear();
 			}
 		}
 		/// @brief Constructs the container with the contents of the initializer list init
diff --git a/seq/internal/concurrent_hash_table.hpp b/seq/internal/concurrent_hash_table.hpp
index cc5e5d2..60ee6b0 100644
--- a/seq/internal/concurrent_hash_table.hpp
+++ b/seq/internal/concurrent_hash_table.hpp
@@ -1720,6 +1720,8 @@ namespace seq
 				else {
 					this->reserve(other.size());
 					other.visit_all([&](Value& v) { this->emplace_policy_no_check<InsertConcurrentPolicy>(std::move(v)); });
+					// The moved keys are not valid anymore
+					other.clear();
 				}
 			}
 			ConcurrentHashTable(ConcurrentHashTable&& other) noexcept(std::is_nothrow_move_constructible_v<Alloc> && std::is_nothrow_copy_constructible_v<base_hash_equal>)
diff --git a/seq/internal/radix_tree.hpp b/seq/internal/radix_tree.hpp
index f37f727..a9ac014 100644
--- a/seq/internal/radix_tree.hpp
+++ b/seq/internal/radix_tree.hpp
@@ -1961,8 +1961,11 @@ namespace seq
 			{
 				if (alloc == other.get_allocator())
 					swap(other, false);
-				else if (other.size())
+				else if (other.size()) {
 					insert(std::make_move_iterator(other.begin()), std::make_move_iterator(other.end()), false);
+					// The moved keys are not valid anymore
+					other.clear();
+				}
 			}
 
 			template<class Iter>
diff --git a/seq/ordered_map.hpp b/seq/ordered_map.hpp
index 284b122..491ddf8 100644
--- a/seq/ordered_map.hpp
+++ b/seq/ordered_map.hpp
@@ -537,6 +537,8 @@ namespace seq
 					// rehash
 					d_buckets = null_node();
 					rehash(0, true);
+					// The table of other refers to moved keys
+					other.clear();
 				}
 			}
 
diff --git a/seq/sequence.hpp b/seq/sequence.hpp
index 03aaaf2..e3708a1 100644
--- a/seq/sequence.hpp
+++ b/seq/sequence.hpp
@@ -1429,14 +1429,14 @@ namespace seq
 		/// @param other another container to be used as source to initialize the elements of the container with
 		/// @param alloc allocator object
 		sequence(sequence&& other, const Allocator& alloc)
-		  : Allocator(alloc)
-		  , d_data(make_data(alloc))
+		  : sequence(alloc)
 		{
 			if (alloc == other.get_allocator())
 				std::swap(other.d_data, d_data);
 			else {
 				resize(other.size());
 				std::move(other.begin(), other.end(), begin());
+				other.clear();
 			}
 		}
 		/// @brief Constructs the sequence with the contents of the initializer list \a lst
diff --git a/seq/tiered_vector.hpp b/seq/tiered_vector.hpp
index 17d1a1e..72909ac 100644
--- a/seq/tiered_vector.hpp
+++ b/seq/tiered_vector.hpp
@@ -2914,8 +2914,7 @@ namespace seq
 		/// @param other another container to be used as source to initialize the elements of the container with
 		/// @param alloc allocator object
 		tiered_vector(tiered_vector&& other, const Allocator& alloc)
-		  : Allocator(alloc)
-		  , d_manager(make_manager(alloc, min_block_size, alloc))
+		  : tiered_vector(alloc)
 		{
 			if (alloc == other.get_allocator()) {
 				std::swap(d_manager, other.d_manager);
@@ -2923,6 +2922,7 @@ namespace seq
 			else {
 				resize(other.size());
 				std::move(other.begin(), other.end(), begin());
+				other.clear();
 			}
 		}
 		/// @brief Constructs the container with the contents of the initializer list \a init.
-- 
2.43.0


From 12d6ed822dbb6ab2e3e23b3b544f4a028c48ccbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:43 +0000
Subject: [PATCH 125/138] fix: an exception thrown by the hash function while
 rehashing an ordered_set/map left a table of the wrong size which was not
 marked as dirty (elements lost, wrong deallocation size)

---
 seq/ordered_map.hpp | 32 ++++++++++++++++++++++++--------
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/seq/ordered_map.hpp b/seq/ordered_map.hpp
index 491ddf8..924bc7c 100644
--- a/seq/ordered_map.hpp
+++ b/seq/ordered_map.hpp
@@ -303,6 +303,9 @@ namespace seq
 					d_next_target = d_hash_mask = d_hash_len = d_tombstones = 0;
 					d_max_dist = 1;
 					d_buckets = make_buckets((new_hash_mask + 1ULL));
+					// Size of the table, in case of exception
+					d_hash_mask = new_hash_mask;
+					fill_table(new_hash_mask, new_hash_len, first, last);
 				}
 				catch (...) {
 					// mark as dirty
@@ -310,6 +313,15 @@ namespace seq
 					throw;
 				}
 
+				d_hash_len = new_hash_len;
+				d_next_target = static_cast<size_t>(static_cast<double>(bucket_size()) * static_cast<double>(d_load_factor));
+			}
+
+			template<class Iter>
+			void fill_table(size_t new_hash_mask, size_t new_hash_len, Iter first, Iter last)
+			{
+				// Insert the values in an empty table. The hash function might throw.
+
 				size_t hash, index;
 				size_t hmask = new_hash_mask;
 				typename node_type::dist_type dist = 0;
@@ -357,10 +369,6 @@ namespace seq
 					// Insert
 					d_buckets[index] = node_type(node_type::small_hash(hash), index == mask_hash(hash, new_hash_mask, new_hash_len) ? 0 : node_type::max_distance, first.as_uint());
 				}
-
-				d_hash_mask = new_hash_mask;
-				d_hash_len = new_hash_len;
-				d_next_target = static_cast<size_t>(static_cast<double>(bucket_size()) * static_cast<double>(d_load_factor));
 			}
 
 			template<class Iter>
@@ -376,12 +384,24 @@ namespace seq
 					d_next_target = d_hash_mask = d_hash_len = d_tombstones = 0;
 					d_max_dist = 1;
 					d_buckets = make_buckets((new_hash_mask + 1ULL));
+					// Size of the table, in case of exception
+					d_hash_mask = new_hash_mask;
+					fill_table_remove_duplicates(new_hash_mask, new_hash_len, first, last);
 				}
 				catch (...) {
 					mark_dirty();
 					throw;
 				}
 
+				d_hash_len = new_hash_len;
+				d_next_target = static_cast<size_t>(static_cast<double>(bucket_size()) * static_cast<double>(d_load_factor));
+			}
+
+			template<class Iter>
+			void fill_table_remove_duplicates(size_t new_hash_mask, size_t new_hash_len, Iter first, Iter last)
+			{
+				// Insert the values in an empty table, and erase the duplicates from the sequence.
+
 				size_t hash, index, dist;
 				size_t bsize = new_hash_mask + 1ULL;
 
@@ -438,10 +458,6 @@ namespace seq
 					}
 					++it;
 				}
-
-				d_hash_mask = new_hash_mask;
-				d_hash_len = new_hash_len;
-				d_next_target = static_cast<size_t>(static_cast<double>(bucket_size()) * static_cast<double>(d_load_factor));
 			}
 
 			SEQ_ALWAYS_INLINE void start_insert(node_type* buckets, size_t hash_mask, size_t index, typename node_type::dist_type dist, node_type node) noexcept
-- 
2.43.0


From 49c92a72a30ecf6e11e6af787ba2311e6f7705ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:58 +0000
Subject: [PATCH 126/138] fix: copy assignment of ordered and concurrent
 sets/maps with an allocator that propagates released the table through the
 new allocator

---
 seq/internal/concurrent_hash_table.hpp | 12 ++++++++++++
 seq/ordered_map.hpp                    | 10 ++++++++++
 2 files changed, 22 insertions(+)

diff --git a/seq/internal/concurrent_hash_table.hpp b/seq/internal/concurrent_hash_table.hpp
index 60ee6b0..076364a 100644
--- a/seq/internal/concurrent_hash_table.hpp
+++ b/seq/internal/concurrent_hash_table.hpp
@@ -1751,6 +1751,18 @@ namespace seq
 					LockUnique<data_lock_type> l1(&d_data_lock, true);
 					LockUnique<data_lock_type> l2(&const_cast<data_lock_type&>(other.d_data_lock), true);
 
+					if constexpr (assign_alloc<Alloc>::value) {
+						// Release the internal data with the allocator that allocated it
+						PrivateData* d = AtomicLoad(d_data);
+						if (d && d->get_allocator() != other.get_allocator()) {
+							float f = d->max_load_factor();
+							PrivateData::destroy(d);
+							d_data = nullptr;
+							assign_allocator<Alloc>(*this, other.get_allocator());
+							get_data_no_lock()->max_load_factor(f);
+						}
+					}
+
 					// Allocator assignment
 					assign_allocator<Alloc>(*this, other.get_allocator());
 					assign_allocator<Alloc>(get_data_no_lock()->get_allocator(), other.get_allocator());
diff --git a/seq/ordered_map.hpp b/seq/ordered_map.hpp
index 924bc7c..13d9c67 100644
--- a/seq/ordered_map.hpp
+++ b/seq/ordered_map.hpp
@@ -1207,6 +1207,11 @@ namespace seq
 		auto operator=(const ordered_set& other) -> ordered_set&
 		{
 			if (this != std::addressof(other)) {
+				if constexpr (assign_alloc<Allocator>::value) {
+					// Release the table with the allocator that allocated it
+					if (get_allocator() != other.get_allocator())
+						base_type::clear();
+				}
 				// The current table becomes invalid
 				this->mark_dirty();
 				this->d_seq = other.sequence();
@@ -1674,6 +1679,11 @@ namespace seq
 		auto operator=(const ordered_map& other) -> ordered_map&
 		{
 			if (this != std::addressof(other)) {
+				if constexpr (assign_alloc<Allocator>::value) {
+					// Release the table with the allocator that allocated it
+					if (get_allocator() != other.get_allocator())
+						base_type::clear();
+				}
 				// The current table becomes invalid
 				this->mark_dirty();
 				this->d_seq = other.sequence();
-- 
2.43.0


From 331e02b52a405627fecb45aec3b68bb40241ee86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:18 +0000
Subject: [PATCH 127/138] fix: devector leaked or destroyed twice some elements
 when an exception was thrown by a move inside resize(), resize_front() and
 the shift of its elements to the front

---
 seq/devector.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/seq/devector.hpp b/seq/devector.hpp
index f4cb5fe..7223e9c 100644
--- a/seq/devector.hpp
+++ b/seq/devector.hpp
@@ -200,10 +200,10 @@ namespace seq
 
 				if (dst < first) {
 					T* saved = dst;
+					T* en = first;
 
 					try {
 						// Construct first part
-						T* en = first;
 						while (dst < en && first != last) {
 							construct_ptr(dst, std::move(*first));
 							++dst;
@@ -220,7 +220,7 @@ namespace seq
 					}
 					catch (...) {
 						// destroy previously created values (first part only, before first)
-						while (saved != dst && saved != first) {
+						while (saved != dst && saved != en) {
 							destroy_ptr(saved++);
 						}
 						throw;
@@ -425,6 +425,7 @@ namespace seq
 							copy_destroy_input(start, end, _new_start);
 						}
 						catch (...) {
+							destroy_range(_new_start + size, _new_end);
 							deallocate(_new, _new_capacity);
 							throw;
 						}
@@ -484,6 +485,7 @@ namespace seq
 							copy_destroy_input(start, end, _new_start + (new_size - size));
 						}
 						catch (...) {
+							destroy_range(_new, _new + (new_size - size));
 							deallocate(_new, _new_capacity);
 							throw;
 						}
-- 
2.43.0


From abdbedc6264069cce82a2570d76879edca6a4d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:44 +0000
Subject: [PATCH 128/138] fix: tiered_vector constructors leaked buckets and
 elements when an exception was thrown

---
 seq/tiered_vector.hpp | 52 +++++++++++++++++++++++--------------------
 1 file changed, 28 insertions(+), 24 deletions(-)

diff --git a/seq/tiered_vector.hpp b/seq/tiered_vector.hpp
index 72909ac..95e8e87 100644
--- a/seq/tiered_vector.hpp
+++ b/seq/tiered_vector.hpp
@@ -1371,12 +1371,7 @@ namespace seq
 			}
 			// Construct by copying the content of other
 			BucketManager(const this_type& other, cbuffer_pos new_bucket_size, size_type start = 0, size_type size = static_cast<size_t>(-1), const Allocator& al = Allocator())
-			  : Allocator(al)
-			  , d_buckets(al)
-			  , d_size(0)
-			  , d_bucket_size(new_bucket_size)
-			  , d_bucket_size1(new_bucket_size - 1)
-			  , d_bucket_size_bits(static_cast<cbuffer_pos>(bit_scan_reverse(static_cast<size_t>(new_bucket_size))))
+			  : BucketManager(new_bucket_size, al) // delegate: the destructor releases the buckets if an exception is thrown
 			{
 				// Retrieve size
 				size_type full_size = size;
@@ -1449,12 +1444,7 @@ namespace seq
 
 			// Construct by moving the content of other and destroying other's elements
 			BucketManager(this_type&& other, cbuffer_pos new_bucket_size, size_type start = 0, size_type size = static_cast<size_t>(-1), const Allocator& al = Allocator())
-			  : Allocator(al)
-			  , d_buckets(al)
-			  , d_size(0)
-			  , d_bucket_size(static_cast<cbuffer_pos>(new_bucket_size))
-			  , d_bucket_size1(static_cast<cbuffer_pos>(new_bucket_size - 1))
-			  , d_bucket_size_bits(static_cast<cbuffer_pos>(bit_scan_reverse(static_cast<size_t>(new_bucket_size))))
+			  : BucketManager(new_bucket_size, al) // delegate: the destructor releases the buckets if an exception is thrown
 			{
 
 				// Get size
@@ -1474,9 +1464,16 @@ namespace seq
 					// Fill front buffer
 					BucketType* current = create_front_bucket();
 
-					// Might throw, fine
-					for (size_type i = start; i < start + full_size; ++i, ++d_size)
-						current->emplace_back(std::move(other.at(i)));
+					try {
+						for (size_type i = start; i < start + full_size; ++i, ++d_size)
+							current->emplace_back(std::move(other.at(i)));
+					}
+					catch (...) {
+						// Some elements were moved
+						other.destroy_all();
+						other.d_size = 0;
+						throw;
+					}
 
 					// Destroy/deallocate the content of other
 					other.destroy_all();
@@ -1502,7 +1499,16 @@ namespace seq
 				while (pos < end_pos) {
 
 					// Create bucket, may throw
-					BucketType* current = create_back_bucket();
+					BucketType* current;
+					try {
+						current = create_back_bucket();
+					}
+					catch (...) {
+						// Some elements might have been moved
+						other.destroy_all();
+						other.d_size = 0;
+						throw;
+					}
 					T* ptr = current->buffer();
 					// Compute end
 					size_type end = pos + static_cast<size_t>(new_bucket_size);
@@ -1528,6 +1534,7 @@ namespace seq
 							destroy_ptr(p);
 						this->remove_back_bucket();
 						other.destroy_all();
+						other.d_size = 0;
 						throw;
 					}
 
@@ -2691,6 +2698,7 @@ namespace seq
 			}
 			catch (...) {
 				alloc.deallocate(res, 1);
+				throw;
 			}
 			return res;
 		}
@@ -2868,8 +2876,7 @@ namespace seq
 		/// @param value the value to initialize elements of the container with
 		/// @param alloc allocator object
 		tiered_vector(size_type count, const T& value, const Allocator& alloc = Allocator())
-		  : Allocator(alloc)
-		  , d_manager(make_manager(alloc, min_block_size, alloc))
+		  : tiered_vector(alloc)
 		{
 			resize(count, value);
 		}
@@ -2877,8 +2884,7 @@ namespace seq
 		/// @param count new tiered_vector size
 		/// @param alloc allocator object
 		explicit tiered_vector(size_type count, const Allocator& alloc = Allocator())
-		  : Allocator(alloc)
-		  , d_manager(make_manager(alloc, min_block_size, alloc))
+		  : tiered_vector(alloc)
 		{
 			resize(count);
 		}
@@ -2929,8 +2935,7 @@ namespace seq
 		/// @param lst initializer list
 		/// @param alloc allocator object
 		tiered_vector(const std::initializer_list<T>& lst, const Allocator& alloc = Allocator())
-		  : Allocator(alloc)
-		  , d_manager(make_manager(alloc, min_block_size, alloc))
+		  : tiered_vector(alloc)
 		{
 			assign(lst.begin(), lst.end());
 		}
@@ -2941,8 +2946,7 @@ namespace seq
 		/// @param alloc allocator object
 		template<class Iter>
 		tiered_vector(Iter first, Iter last, const Allocator& alloc = Allocator())
-		  : Allocator(alloc)
-		  , d_manager(make_manager(alloc, min_block_size, alloc))
+		  : tiered_vector(alloc)
 		{
 			assign(first, last);
 		}
-- 
2.43.0


From bd2d1f1d19e9212af7e99dbfbbb972e710d9de54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:04 +0000
Subject: [PATCH 129/138] fix: sequence constructors leaked chunks and elements
 when an exception was thrown, and an exception in shrink_to_fit()/sort()
 corrupted the list of free chunks

---
 seq/sequence.hpp | 45 +++++++++++++++++++++++++++++++++------------
 1 file changed, 33 insertions(+), 12 deletions(-)

diff --git a/seq/sequence.hpp b/seq/sequence.hpp
index e3708a1..13fd4e9 100644
--- a/seq/sequence.hpp
+++ b/seq/sequence.hpp
@@ -890,6 +890,17 @@ namespace seq
 						// Update current node bounds in case of exception
 						node->start = static_cast<int>(bit_scan_forward_64(node->used));
 						node->end = static_cast<int>(bit_scan_reverse_64(node->used)) + 1;
+						// Rebuild the list of free nodes and the node indexes
+						endNode()->prev_free = endNode()->next_free = endNode();
+						chunks = 0;
+						for (node = static_cast<chunk_type*>(endNode()->next); node != endNode(); node = static_cast<chunk_type*>(node->next)) {
+							node->node_index = static_cast<std::int64_t>(chunks++);
+							node->prev_free = node->next_free = endNode();
+							if (node->used != full) {
+								node->prev_free = endNode()->prev_free;
+								node->prev_free->next_free = endNode()->prev_free = node;
+							}
+						}
 						throw;
 					}
 
@@ -1384,8 +1395,7 @@ namespace seq
 		/// @param value fill value
 		/// @param al allocator object
 		sequence(size_type count, const T& value, const Allocator& al = Allocator())
-		  : Allocator(al)
-		  , d_data(make_data(al))
+		  : sequence(al) // delegate: the destructor releases the chunks if an exception is thrown
 		{
 			resize(count, value);
 		}
@@ -1393,8 +1403,7 @@ namespace seq
 		/// @param count initial size
 		/// @param al allocator object
 		explicit sequence(size_type count, const Allocator& al = Allocator())
-		  : Allocator(al)
-		  , d_data(make_data(al))
+		  : sequence(al) // delegate: the destructor releases the chunks if an exception is thrown
 		{
 			resize(count);
 		}
@@ -1404,8 +1413,15 @@ namespace seq
 		  : Allocator(copy_allocator(other.get_allocator()))
 		  , d_data(nullptr)
 		{
-			if (other.size())
-				import(other);
+			if (other.size()) {
+				try {
+					import(other);
+				}
+				catch (...) {
+					clear();
+					throw;
+				}
+			}
 		}
 		/// @brief Copy constructor
 		/// @param other input sequence to copy
@@ -1414,8 +1430,15 @@ namespace seq
 		  : Allocator(al)
 		  , d_data(nullptr)
 		{
-			if (other.size())
-				import(other);
+			if (other.size()) {
+				try {
+					import(other);
+				}
+				catch (...) {
+					clear();
+					throw;
+				}
+			}
 		}
 		/// @brief Move constructor
 		sequence(sequence&& other) noexcept(std::is_nothrow_move_constructible_v<Allocator>)
@@ -1443,8 +1466,7 @@ namespace seq
 		/// @param lst initializer list
 		/// @param al allocator object
 		sequence(const std::initializer_list<T>& lst, const Allocator& al = Allocator())
-		  : Allocator(al)
-		  , d_data(make_data(al))
+		  : sequence(al) // delegate: the destructor releases the chunks if an exception is thrown
 		{
 			assign(lst.begin(), lst.end());
 		}
@@ -1455,8 +1477,7 @@ namespace seq
 		/// @param al allocator object
 		template<class Iter>
 		sequence(Iter first, Iter last, const Allocator& al = Allocator())
-		  : Allocator(al)
-		  , d_data(make_data(al))
+		  : sequence(al) // delegate: the destructor releases the chunks if an exception is thrown
 		{
 			assign(first, last);
 		}
-- 
2.43.0


From c336836f1b8c10b2a99aebfe5ff29f6ddcdc6358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:04 +0000
Subject: [PATCH 130/138] fix: tiered_vector::insert(pos, count, value) and
 assign(count, value) terminated when the copy of an element threw (noexcept
 iterator operators)

---
 seq/utils.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/seq/utils.hpp b/seq/utils.hpp
index ab81efa..e66ec43 100644
--- a/seq/utils.hpp
+++ b/seq/utils.hpp
@@ -270,7 +270,7 @@ namespace seq
 			++pos;
 			return *this;
 		}
-		auto operator++(int) noexcept -> cvalue_iterator
+		auto operator++(int) noexcept(std::is_nothrow_copy_constructible_v<T>) -> cvalue_iterator
 		{
 			cvalue_iterator _Tmp = *this;
 			++(*this);
@@ -282,7 +282,7 @@ namespace seq
 			--pos;
 			return *this;
 		}
-		auto operator--(int) noexcept -> cvalue_iterator
+		auto operator--(int) noexcept(std::is_nothrow_copy_constructible_v<T>) -> cvalue_iterator
 		{
 			cvalue_iterator _Tmp = *this;
 			--(*this);
@@ -307,13 +307,13 @@ namespace seq
 	};
 
 	template<class T>
-	auto operator+(const cvalue_iterator<T>& it, typename cvalue_iterator<T>::difference_type diff) noexcept -> cvalue_iterator<T>
+	auto operator+(const cvalue_iterator<T>& it, typename cvalue_iterator<T>::difference_type diff) noexcept(std::is_nothrow_copy_constructible_v<T>) -> cvalue_iterator<T>
 	{
 		cvalue_iterator<T> res = it;
 		return res += diff;
 	}
 	template<class T>
-	auto operator-(const cvalue_iterator<T>& it, typename cvalue_iterator<T>::difference_type diff) noexcept -> cvalue_iterator<T>
+	auto operator-(const cvalue_iterator<T>& it, typename cvalue_iterator<T>::difference_type diff) noexcept(std::is_nothrow_copy_constructible_v<T>) -> cvalue_iterator<T>
 	{
 		cvalue_iterator<T> res = it;
 		return res -= diff;
-- 
2.43.0


From e7c486874853513386392348269a548aa674860c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:04 +0000
Subject: [PATCH 131/138] fix: net_sort() terminated when a swap of elements
 threw (noexcept function)

---
 seq/algorithm.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seq/algorithm.hpp b/seq/algorithm.hpp
index 0ad6135..76e4393 100644
--- a/seq/algorithm.hpp
+++ b/seq/algorithm.hpp
@@ -819,7 +819,7 @@ namespace seq
 		}
 
 		template<class T>
-		SEQ_ALWAYS_INLINE void swap_branchless(T&& a, T&& b, bool b_is_less) noexcept
+		SEQ_ALWAYS_INLINE void swap_branchless(T&& a, T&& b, bool b_is_less) noexcept(is_relocatable<T>::value || std::is_nothrow_swappable_v<T>)
 		{
 			// Swap elements based on is_less.
 			// Uses branchless swap for relocatable types.
-- 
2.43.0


From 76d79ce2ad87578acfae6f558487c53b0a971a09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:04 +0000
Subject: [PATCH 132/138] fix: an exception thrown inside an insertion,
 erasure, resize or sort left tiered_vector (and flat sets/maps) with empty
 buckets, a wrong size or dangling back values

---
 seq/tiered_vector.hpp | 172 +++++++++++++++++++++++++++++++-----------
 1 file changed, 127 insertions(+), 45 deletions(-)

diff --git a/seq/tiered_vector.hpp b/seq/tiered_vector.hpp
index 95e8e87..0517600 100644
--- a/seq/tiered_vector.hpp
+++ b/seq/tiered_vector.hpp
@@ -33,6 +33,7 @@
 #include <algorithm>
 #include <string>
 #include <cmath>
+#include <tuple>
 
 #ifndef SEQ_MIN_BUCKET_SIZE
 /// @brief Minimum bucket size for given type
@@ -844,6 +845,11 @@ namespace seq
 			auto emplace(cbuffer_pos pos, Args&&... args) -> T*
 			{
 				SEQ_ASSERT_DEBUG(size != max_size_, "cannot insert in a full circular buffer");
+				if constexpr (sizeof...(Args) != 1 || !std::is_same_v<std::tuple<Args...>, std::tuple<T>>) {
+					// Build the value before moving the elements: nothing changes if this throws
+					if constexpr (!std::is_nothrow_constructible_v<T, Args...>)
+						return emplace(pos, T(std::forward<Args>(args)...));
+				}
 				if (pos > size / 2) {
 					move_right(pos);
 				}
@@ -881,6 +887,11 @@ namespace seq
 			auto insert_pop_back(cbuffer_pos pos, Args&&... args) -> T
 			{
 				SEQ_ASSERT_DEBUG(pos != max_size(), "invalid insertion position");
+				if constexpr (sizeof...(Args) != 1 || !std::is_same_v<std::tuple<Args...>, std::tuple<T>>) {
+					// Build the value before moving the elements: nothing changes if this throws
+					if constexpr (!std::is_nothrow_constructible_v<T, Args...>)
+						return insert_pop_back(pos, T(std::forward<Args>(args)...));
+				}
 				// move elems after pos
 				T* p = &(*this)[size - 1];
 				// Might throw, fine
@@ -922,6 +933,11 @@ namespace seq
 			auto insert_pop_front(cbuffer_pos pos, Args&&... args) -> T
 			{
 				SEQ_ASSERT_DEBUG(pos != 0, "invalid insertion position");
+				if constexpr (sizeof...(Args) != 1 || !std::is_same_v<std::tuple<Args...>, std::tuple<T>>) {
+					// Build the value before moving the elements: nothing changes if this throws
+					if constexpr (!std::is_nothrow_constructible_v<T, Args...>)
+						return insert_pop_front(pos, T(std::forward<Args>(args)...));
+				}
 				// move elems after pos
 				T* p = &(*this)[0];
 				// Might throw, fine
@@ -1419,7 +1435,7 @@ namespace seq
 							--ptr;
 							for (T* p = current->buffer(); p != ptr; ++p)
 								destroy_ptr(p);
-							this->remove_back_bucket();
+							repair();
 							throw;
 						}
 						size_type copied = end - pos;
@@ -1532,7 +1548,7 @@ namespace seq
 						--ptr;
 						for (T* p = current->buffer(); p != ptr; ++p)
 							destroy_ptr(p);
-						this->remove_back_bucket();
+						repair();
 						other.destroy_all();
 						other.d_size = 0;
 						throw;
@@ -1885,6 +1901,31 @@ namespace seq
 					create_back_bucket();
 			}
 
+			// Restore the class invariants after an operation interrupted by an exception:
+			// only the first and last buckets can be partially filled, none can be empty
+			// (except if this is the only one), and the size is the number of elements.
+			// If a middle bucket lost elements, all following buckets are dropped (basic guarantee).
+			void repair() noexcept
+			{
+				while (d_buckets.size() > 1 && d_buckets.back()->size == 0)
+					remove_back_bucket();
+				while (d_buckets.size() > 1 && d_buckets.front()->size == 0)
+					remove_front_bucket();
+				for (size_type i = 1; i + 1 < d_buckets.size(); ++i) {
+					if (d_buckets[i]->size != d_bucket_size) {
+						while (d_buckets.size() > i + 1)
+							remove_back_bucket();
+						if (d_buckets[i]->size == 0)
+							remove_back_bucket();
+					}
+				}
+				d_size = 0;
+				for (size_type i = 0; i < d_buckets.size(); ++i)
+					d_size += static_cast<size_type>(d_buckets[i]->size);
+				if (d_size)
+					update_all_back_values();
+			}
+
 			// Back insertion
 
 			template<class... Args>
@@ -1897,7 +1938,15 @@ namespace seq
 				if SEQ_UNLIKELY (bucket->size == d_bucket_size) {
 					bucket = create_back_bucket();
 				}
-				T* ptr = bucket->emplace_back(std::forward<Args>(args)...);
+				T* ptr = nullptr;
+				try {
+					ptr = bucket->emplace_back(std::forward<Args>(args)...);
+				}
+				catch (...) {
+					// The new bucket might be empty
+					repair();
+					throw;
+				}
 				if (StoreBackValues)
 					d_buckets.back().update();
 				d_size++;
@@ -1917,7 +1966,15 @@ namespace seq
 				if SEQ_UNLIKELY (bucket->size == d_bucket_size)
 					bucket = create_front_bucket();
 
-				T* res = bucket->emplace_front(std::forward<Args>(args)...);
+				T* res = nullptr;
+				try {
+					res = bucket->emplace_front(std::forward<Args>(args)...);
+				}
+				catch (...) {
+					// The new bucket might be empty
+					repair();
+					throw;
+				}
 				if (StoreBackValues)
 					d_buckets.front().update();
 				d_size++;
@@ -2111,16 +2168,22 @@ namespace seq
 				size_t bucket_index = (pos + (static_cast<size_t>(d_bucket_size) - front_size)) >> static_cast<size_t>(d_bucket_size_bits);
 				int index = static_cast<int>((pos - (pos < front_size ? 0 : front_size)) & static_cast<size_t>(d_bucket_size1));
 
-				if SEQ_UNLIKELY (d_buckets.size() == 1) {
-					res = insert_one_bucket(bucket_index, index, std::forward<Args>(args)...);
-				}
-				else if (pos < d_size / 2) {
-					// bucket is on the left side
-					res = insert_left(pos, bucket_index, index, std::forward<Args>(args)...);
+				try {
+					if SEQ_UNLIKELY (d_buckets.size() == 1) {
+						res = insert_one_bucket(bucket_index, index, std::forward<Args>(args)...);
+					}
+					else if (pos < d_size / 2) {
+						// bucket is on the left side
+						res = insert_left(pos, bucket_index, index, std::forward<Args>(args)...);
+					}
+					else {
+						// bucket is on the right side
+						res = insert_right(pos, bucket_index, index, std::forward<Args>(args)...);
+					}
 				}
-				else {
-					// bucket is on the right side
-					res = insert_right(pos, bucket_index, index, std::forward<Args>(args)...);
+				catch (...) {
+					repair();
+					throw;
 				}
 
 				d_size++;
@@ -2185,7 +2248,13 @@ namespace seq
 				if SEQ_UNLIKELY (pos == 0 || pos == d_size - 1)
 					return erase_extremity(pos);
 
-				erase_middle(pos);
+				try {
+					erase_middle(pos);
+				}
+				catch (...) {
+					repair();
+					throw;
+				}
 			}
 			SEQ_ALWAYS_INLINE void erase_left(size_type bucket_index, int index)
 			{
@@ -2290,6 +2359,7 @@ namespace seq
 					size_type missing = size - d_size;
 					size_type last_bucket_rem = static_cast<size_t>(bucket_size() - d_buckets.back()->size);
 
+					try {
 					if (missing < last_bucket_rem) {
 						// the last bucket has enough space: just resize it
 						d_buckets.back()->resize(d_buckets.back()->size + static_cast<cbuffer_pos>(missing), helper);
@@ -2305,24 +2375,23 @@ namespace seq
 						size_type new_bucket_count = missing / static_cast<size_t>(bucket_size());
 						cbuffer_pos last_bucket_size = static_cast<cbuffer_pos>(missing % static_cast<size_t>(bucket_size()));
 
-						try {
-							// add full buckets
-							for (size_type i = 0; i < new_bucket_count; ++i) {
-								create_back_bucket()->resize(static_cast<size_t>(bucket_size()), helper);
-								d_size += static_cast<size_t>(bucket_size());
-							}
-							// add last
-							if (last_bucket_size) {
-								create_back_bucket()->resize(last_bucket_size, helper);
-								d_size += static_cast<size_t>(last_bucket_size);
-							}
+						// add full buckets
+						for (size_type i = 0; i < new_bucket_count; ++i) {
+							create_back_bucket()->resize(static_cast<size_t>(bucket_size()), helper);
+							d_size += static_cast<size_t>(bucket_size());
 						}
-						catch (...) {
-							if (d_buckets.size() > 1 && d_buckets.back()->size == 0)
-								remove_back_bucket();
-							throw;
+						// add last
+						if (last_bucket_size) {
+							create_back_bucket()->resize(last_bucket_size, helper);
+							d_size += static_cast<size_t>(last_bucket_size);
 						}
 					}
+					}
+					catch (...) {
+						// Remove empty bucket, update size and back values
+						repair();
+						throw;
+					}
 				}
 				else {
 					size_type to_remove = d_size - size;
@@ -2368,6 +2437,7 @@ namespace seq
 					size_type missing = size - d_size;
 					size_type first_bucket_rem = static_cast<size_t>(bucket_size() - d_buckets.front()->size);
 
+					try {
 					if (missing < first_bucket_rem) {
 						// the front bucket has enough space: just resize it
 						d_buckets.front()->push_front_n(static_cast<cbuffer_pos>(missing), helper);
@@ -2383,25 +2453,24 @@ namespace seq
 						size_type new_bucket_count = missing / static_cast<size_t>(bucket_size());
 						cbuffer_pos first_bucket_size = static_cast<cbuffer_pos>(missing % static_cast<size_t>(bucket_size()));
 
-						try {
-							// add full buckets
-							for (size_type i = 0; i < new_bucket_count; ++i) {
-								create_front_bucket()->resize(static_cast<size_t>(bucket_size()), helper);
-								d_size += static_cast<size_t>(bucket_size());
-							}
-
-							// add last
-							if (first_bucket_size) {
-								create_front_bucket()->push_front_n(first_bucket_size, helper);
-								d_size += static_cast<size_t>(first_bucket_size);
-							}
+						// add full buckets
+						for (size_type i = 0; i < new_bucket_count; ++i) {
+							create_front_bucket()->resize(static_cast<size_t>(bucket_size()), helper);
+							d_size += static_cast<size_t>(bucket_size());
 						}
-						catch (...) {
-							if (d_buckets.size() > 1 && d_buckets[0]->size == 0)
-								remove_front_bucket();
-							throw;
+
+						// add last
+						if (first_bucket_size) {
+							create_front_bucket()->push_front_n(first_bucket_size, helper);
+							d_size += static_cast<size_t>(first_bucket_size);
 						}
 					}
+					}
+					catch (...) {
+						// Remove empty bucket, update size and back values
+						repair();
+						throw;
+					}
 				}
 				else {
 					size_type to_remove = d_size - size;
@@ -2437,6 +2506,19 @@ namespace seq
 
 			template<class Cmp>
 			size_t sort(size_t start_idx, Cmp c)
+			{
+				try {
+					return sort_internal(start_idx, c);
+				}
+				catch (...) {
+					// Update size and back values
+					repair();
+					throw;
+				}
+			}
+
+			template<class Cmp>
+			size_t sort_internal(size_t start_idx, Cmp c)
 			{
 				// Sort (unstable) the vector starting from start_idx.
 				// This sorts all buckets starting from the one containing start_idx.
-- 
2.43.0


From 91cb6bd0954e136ffbd4bde0a7fb532486fee742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:37 +0000
Subject: [PATCH 133/138] fix: radix and concurrent constructors leaked or left
 moved-from elements when one of them throws

---
 seq/internal/concurrent_hash_table.hpp | 20 +++++++++++--------
 seq/internal/radix_tree.hpp            | 27 +++++++++++---------------
 2 files changed, 23 insertions(+), 24 deletions(-)

diff --git a/seq/internal/concurrent_hash_table.hpp b/seq/internal/concurrent_hash_table.hpp
index 076364a..43d84b1 100644
--- a/seq/internal/concurrent_hash_table.hpp
+++ b/seq/internal/concurrent_hash_table.hpp
@@ -1698,10 +1698,9 @@ namespace seq
 			{
 			}
 			ConcurrentHashTable(const ConcurrentHashTable& other, const Alloc& alloc)
-			  : base_hash_equal(other)
-			  , Alloc(alloc)
-			  , d_data(PrivateData::make(alloc, other.hash_function(), other.key_eq()))
+			  : ConcurrentHashTable(other.hash_function(), other.key_eq(), alloc) // delegate: the destructor releases the memory if an exception is thrown
 			{
+				d_data = PrivateData::make(alloc, other.hash_function(), other.key_eq());
 				this->reserve(other.size());
 				other.visit_all([&](const Value& v) { this->emplace_policy_no_check<InsertConcurrentPolicy>(v); });
 			}
@@ -1710,16 +1709,21 @@ namespace seq
 			{
 			}
 			ConcurrentHashTable(ConcurrentHashTable&& other, const Alloc& alloc)
-			  : base_hash_equal(other)
-			  , Alloc(alloc)
-			  , d_data(PrivateData::make(alloc, other.hash_function(), other.key_eq()))
+			  : ConcurrentHashTable(other.hash_function(), other.key_eq(), alloc) // delegate: the destructor releases the memory if an exception is thrown
 			{
+				d_data = PrivateData::make(alloc, other.hash_function(), other.key_eq());
 				if (alloc == other.get_safe_allocator()) {
 					this->swap(other, false);
 				}
 				else {
-					this->reserve(other.size());
-					other.visit_all([&](Value& v) { this->emplace_policy_no_check<InsertConcurrentPolicy>(std::move(v)); });
+					try {
+						this->reserve(other.size());
+						other.visit_all([&](Value& v) { this->emplace_policy_no_check<InsertConcurrentPolicy>(std::move(v)); });
+					}
+					catch (...) {
+						other.clear();
+						throw;
+					}
 					// The moved keys are not valid anymore
 					other.clear();
 				}
diff --git a/seq/internal/radix_tree.hpp b/seq/internal/radix_tree.hpp
index a9ac014..db69e25 100644
--- a/seq/internal/radix_tree.hpp
+++ b/seq/internal/radix_tree.hpp
@@ -1927,19 +1927,13 @@ namespace seq
 			}
 
 			RadixTree(const RadixTree& other)
-			  : Hash(other)
-			  , Allocator(copy_allocator(other.get_allocator()))
-			  , d_data(nullptr)
-			  , d_root(get_null_dir())
+			  : RadixTree(static_cast<const Hash&>(other), copy_allocator(other.get_allocator())) // delegate: the destructor releases the memory if an exception is thrown
 			{
 				if (other.size())
 					insert(other.begin(), other.end(), false);
 			}
 			RadixTree(const RadixTree& other, const Allocator& al)
-			  : Hash(other)
-			  , Allocator(al)
-			  , d_data(nullptr)
-			  , d_root(get_null_dir())
+			  : RadixTree(static_cast<const Hash&>(other), al) // delegate: the destructor releases the memory if an exception is thrown
 			{
 				if (other.size())
 					insert(other.begin(), other.end(), false);
@@ -1954,15 +1948,18 @@ namespace seq
 				swap(other, false);
 			}
 			RadixTree(RadixTree&& other, const Allocator& alloc)
-			  : Hash(other)
-			  , Allocator(alloc)
-			  , d_data(nullptr)
-			  , d_root(get_null_dir())
+			  : RadixTree(static_cast<const Hash&>(other), alloc) // delegate: the destructor releases the memory if an exception is thrown
 			{
 				if (alloc == other.get_allocator())
 					swap(other, false);
 				else if (other.size()) {
-					insert(std::make_move_iterator(other.begin()), std::make_move_iterator(other.end()), false);
+					try {
+						insert(std::make_move_iterator(other.begin()), std::make_move_iterator(other.end()), false);
+					}
+					catch (...) {
+						other.clear();
+						throw;
+					}
 					// The moved keys are not valid anymore
 					other.clear();
 				}
@@ -1970,9 +1967,7 @@ namespace seq
 
 			template<class Iter>
 			RadixTree(Iter first, Iter last, const Allocator& alloc = Allocator())
-			  : Allocator(alloc)
-			  , d_data(nullptr)
-			  , d_root(get_null_dir())
+			  : RadixTree(alloc) // delegate: the destructor releases the memory if an exception is thrown
 			{
 				insert(first, last);
 			}
-- 
2.43.0


From edc21f557828f5dcb775c3ff3c7f988c05a887ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:52 +0000
Subject: [PATCH 134/138] fix: a failed allocation while inserting in a radix
 tree terminated the program

---
 seq/internal/radix_tree.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seq/internal/radix_tree.hpp b/seq/internal/radix_tree.hpp
index db69e25..c3c0c2e 100644
--- a/seq/internal/radix_tree.hpp
+++ b/seq/internal/radix_tree.hpp
@@ -2739,7 +2739,7 @@ namespace seq
 			}
 
 			template<class U>
-			SEQ_ALWAYS_INLINE auto check_prefix_insert(directory* dir, directory* d, size_t& hash_bits, unsigned pos, const hash_type& hash, const U& value) noexcept -> directory*
+			SEQ_ALWAYS_INLINE auto check_prefix_insert(directory* dir, directory* d, size_t& hash_bits, unsigned pos, const hash_type& hash, const U& value) -> directory*
 			{
 				// Check if the value to insert follows the directory prefix.
 				// If not, create an intermediate directory with a new prefix.
-- 
2.43.0


From 22c0e4e4e8413a82fba6d956faebcfe9625a8630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:30 +0000
Subject: [PATCH 135/138] fix: radix leaves lost or mixed up elements when an
 insertion throws

---
 seq/internal/radix_tree.hpp | 92 ++++++++++++++++++++++++++++---------
 1 file changed, 71 insertions(+), 21 deletions(-)

diff --git a/seq/internal/radix_tree.hpp b/seq/internal/radix_tree.hpp
index c3c0c2e..a762f2e 100644
--- a/seq/internal/radix_tree.hpp
+++ b/seq/internal/radix_tree.hpp
@@ -772,20 +772,32 @@ namespace seq
 				}
 			}
 			else {
-				try {
-					if (count) {
-						new (dst + count - 1) U();
-						std::move_backward(src, src + count, dst + count);
-						src->~U();
-						Policy::emplace(src, std::forward<Args>(args)...);
+				if (count == 0) {
+					Policy::emplace(src, std::forward<Args>(args)...);
+					return;
+				}
+
+				// Build the new value first: nothing moved yet if it throws
+				struct Temporary
+				{
+					alignas(U) unsigned char storage[sizeof(U)];
+					U* value = nullptr;
+					~Temporary()
+					{
+						if (value)
+							value->~U();
 					}
-					else
-						Policy::emplace(src, std::forward<Args>(args)...);
+				} tmp;
+				tmp.value = Policy::emplace(reinterpret_cast<U*>(tmp.storage), std::forward<Args>(args)...);
+
+				new (dst + count - 1) U(std::move(src[count - 1]));
+				try {
+					std::move_backward(src, src + count - 1, dst + count - 1);
+					*src = std::move(*tmp.value);
 				}
 				catch (...) {
 					// destroy created element
-					if (count)
-						(dst + count - 1)->~U();
+					(dst + count - 1)->~U();
 					throw;
 				}
 			}
@@ -1063,8 +1075,9 @@ namespace seq
 				}
 
 				if (Sorted && pos != size) {
-					insert_move_right(hashs() + pos + 1, hashs() + pos, (size - pos), EmplacePolicy{}, th);
+					// values first, as it might throw
 					insert_move_right(values() + pos + 1, values() + pos, (size - pos), p, std::forward<K>(key), std::forward<Args>(args)...);
+					insert_move_right(hashs() + pos + 1, hashs() + pos, (size - pos), EmplacePolicy{}, th);
 				}
 				else {
 					Policy::emplace((values() + size), std::forward<K>(key), std::forward<Args>(args)...);
@@ -1083,15 +1096,21 @@ namespace seq
 				(*size())--;
 
 				if (*size() == 0) {
-					unsigned cap = capacity_for_size(1);
+					unsigned cap = *capacity();
 					al.deallocate(this, hash_for_size(1, cap), cap);
 					return nullptr;
 				}
 
 				unsigned cap = capacity_for_size(*size());
 				if (cap != *capacity()) {
-					// might throw, fine
-					LeafNode* n = al.allocate(hash_for_size(*size(), cap), cap);
+					LeafNode* n = nullptr;
+					try {
+						n = al.allocate(hash_for_size(*size(), cap), cap);
+					}
+					catch (...) {
+						// the value is already erased: keep the current capacity
+						return this;
+					}
 					*n->size() = *this->size();
 					*n->capacity() = cap;
 
@@ -2081,8 +2100,15 @@ namespace seq
 				other.make_data(bits);
 
 				// Move all values inside the new tree
-				for (auto it = begin(); it != end(); ++it)
-					other.emplace(std::move(*it));
+				try {
+					for (auto it = begin(); it != end(); ++it)
+						other.emplace(std::move(*it));
+				}
+				catch (...) {
+					// Some values were moved (basic exception guarantee)
+					clear();
+					throw;
+				}
 
 				// swap
 				this->swap(other);
@@ -2094,7 +2120,14 @@ namespace seq
 				// Create new radix tree and reinsert all values inside
 				RadixTree other(static_cast<Hash&>(*this), get_allocator());
 				other.reserve(this->size());
-				other.insert(std::make_move_iterator(begin()), std::make_move_iterator(end()), false);
+				try {
+					other.insert(std::make_move_iterator(begin()), std::make_move_iterator(end()), false);
+				}
+				catch (...) {
+					// Some values were moved (basic exception guarantee)
+					clear();
+					throw;
+				}
 				other.swap(*this);
 			}
 
@@ -2518,6 +2551,8 @@ namespace seq
 				}
 				catch (...) {
 					d_data->base.destroy_vector(vec);
+					// The values of the leaf were moved: clear the tree (basic exception guarantee)
+					clear();
 					throw;
 				}
 
@@ -2606,8 +2641,16 @@ namespace seq
 					}
 				}
 				catch (...) {
-					// In case of exception, just destroyed the newly created directory.
-					// Some values might have been moved to it but, hey, this is basic exception guarantee only
+					// In case of exception, move back the values and destroy the newly created directory.
+					// The values were moved in increasing order, except for an unsorted leaf where the order does not matter.
+					unsigned restored = 0;
+					for (unsigned i = 0; i < child_dir->size(); ++i) {
+						if (node* l = child_dir->const_child(i).to_node())
+							for (unsigned j = 0; j < l->count(); ++j, ++restored) {
+								child->values()[restored] = std::move(l->values()[j]);
+								child->hashs()[restored] = l->hashs()[j];
+							}
+					}
 					directory::destroy(d_data->base, child_dir);
 					throw;
 				}
@@ -2906,8 +2949,15 @@ namespace seq
 					return;
 
 				const_iterator it = this->end();
-				for (; start != end; ++start) {
-					it = this->template emplace_hash_hint<false>(it, hash_key((*start)), EmplacePolicy{}, *start).first;
+				try {
+					for (; start != end; ++start) {
+						it = this->template emplace_hash_hint<false>(it, hash_key((*start)), EmplacePolicy{}, *start).first;
+					}
+				}
+				catch (...) {
+					// Keep the leaves sorted
+					sort_leaves();
+					throw;
 				}
 				if (is_sorted && _sort_leaves)
 					sort_leaves();
-- 
2.43.0


From 413a21a42cbfd9a3ca31d68e225d56ad05c36574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:48 +0000
Subject: [PATCH 136/138] fix: a failed move of an ordered table left its
 source with a table of moved or destroyed keys

---
 seq/ordered_map.hpp | 39 +++++++++++++++++++++------------------
 1 file changed, 21 insertions(+), 18 deletions(-)

diff --git a/seq/ordered_map.hpp b/seq/ordered_map.hpp
index 13d9c67..9587a2b 100644
--- a/seq/ordered_map.hpp
+++ b/seq/ordered_map.hpp
@@ -531,28 +531,31 @@ namespace seq
 				other.d_tombstones = 0;
 			}
 			SparseFlatNodeHashTable(SparseFlatNodeHashTable&& other, const Allocator& alloc)
-			  : base_type(other.hash_function(), other.key_eq())
-			  , d_seq(std::move(other.d_seq), alloc)
-			  , d_buckets(other.d_buckets)
-			  , d_hash_mask(other.d_hash_mask)
-			  , d_hash_len(other.d_hash_len)
-			  , d_next_target(other.d_next_target)
-			  , d_max_dist(other.d_max_dist)
-			  , d_load_factor(other.d_load_factor)
-			  , d_tombstones(other.d_tombstones)
+			  : SparseFlatNodeHashTable(other.hash_function(), other.key_eq(), alloc)
 			{
+				d_load_factor = other.d_load_factor;
 				if (alloc == other.d_seq.get_allocator()) {
-					other.d_buckets = null_node();
-					other.d_hash_mask = 0;
-					other.d_hash_len = 0;
-					other.d_next_target = 0;
-					other.d_max_dist = 1;
-					other.d_tombstones = 0;
+					d_seq.swap(other.d_seq);
+					std::swap(d_buckets, other.d_buckets);
+					std::swap(d_hash_mask, other.d_hash_mask);
+					std::swap(d_hash_len, other.d_hash_len);
+					std::swap(d_next_target, other.d_next_target);
+					std::swap(d_max_dist, other.d_max_dist);
+					std::swap(d_tombstones, other.d_tombstones);
 				}
 				else {
-					// rehash
-					d_buckets = null_node();
-					rehash(0, true);
+					try {
+						sequence_type tmp(std::move(other.d_seq), alloc);
+						d_seq.swap(tmp);
+						// rehash
+						d_max_dist = other.d_max_dist;
+						rehash(0, true);
+					}
+					catch (...) {
+						// The table of other refers to moved keys
+						other.clear();
+						throw;
+					}
 					// The table of other refers to moved keys
 					other.clear();
 				}
-- 
2.43.0


From c5cc6139011be9e439b6978bfc71f86d646681d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:03 +0000
Subject: [PATCH 137/138] fix: a failed allocation of the locks of a concurrent
 table terminated the program

---
 seq/internal/concurrent_hash_table.hpp | 27 +++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/seq/internal/concurrent_hash_table.hpp b/seq/internal/concurrent_hash_table.hpp
index 43d84b1..65ade8a 100644
--- a/seq/internal/concurrent_hash_table.hpp
+++ b/seq/internal/concurrent_hash_table.hpp
@@ -231,14 +231,15 @@ namespace seq
 				  , index(i)
 				{
 				}
-				auto operator*() const noexcept -> Lock&
+				auto operator*() const -> Lock&
 				{
+					// might throw: allocates the array if necessary
 					lock_type* l = array->arrays[array_index].load(std::memory_order_relaxed);
 					if SEQ_UNLIKELY (!l)
 						l = array->make_array(array_index);
 					return l[index];
 				}
-				auto operator->() const noexcept -> Lock* { return std::pointer_traits<Lock*>::pointer_to(**this); }
+				auto operator->() const -> Lock* { return std::pointer_traits<Lock*>::pointer_to(**this); }
 				auto operator++() noexcept -> iterator&
 				{
 					if (++index == (1u << array_index)) {
@@ -1171,8 +1172,8 @@ namespace seq
 			{
 				// Lock rehash spinlock
 				LockUnique<node_lock> lock(d_rehash_lock);
-				// Clear tables
-				clear_no_lock();
+				// Clear tables, without the bucket locks as locking might allocate
+				clear_no_lock(false);
 				// Destroy lock array
 				if (lock_array* locks = AtomicLoad(d_locks)) {
 					destroy_ptr(locks);
@@ -1461,19 +1462,27 @@ namespace seq
 				clear_no_lock();
 			}
 			/// @brief Clear the hash table
-			void clear_no_lock()
+			void clear_no_lock(bool lock_buckets = true)
 			{
 				if (d_buckets == get_static_node())
 					return;
 
-				lock_array* locks = AtomicLoad(d_locks);
+				lock_array* locks = lock_buckets ? AtomicLoad(d_locks) : nullptr;
 				size_t count = d_hash_mask + 1;
 
 				if (is_concurrent && locks) {
 					// lock all buckets
-					auto iter = typename lock_array::iterator(locks);
-					for (size_t i = 0; i < count; ++i, ++iter)
-						(*iter).lock();
+					size_t locked = 0;
+					try {
+						auto iter = typename lock_array::iterator(locks);
+						for (; locked < count; ++locked, ++iter)
+							(*iter).lock();
+					}
+					catch (...) {
+						for (size_t i = 0; i < locked; ++i)
+							locks->at(i).unlock();
+						throw;
+					}
 				}
 
 				// reset members
-- 
2.43.0


From 805d77bfce2303d470e67cd14621d0c60f545fd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:04 +0000
Subject: [PATCH 138/138] fix: tiny_string: accept ranges of its own characters
 through iterator adaptors

---
 seq/tiny_string.hpp | 34 +++++++++++++++++++++++++++++-----
 1 file changed, 29 insertions(+), 5 deletions(-)

diff --git a/seq/tiny_string.hpp b/seq/tiny_string.hpp
index 828d6c3..8329080 100644
--- a/seq/tiny_string.hpp
+++ b/seq/tiny_string.hpp
@@ -913,6 +913,12 @@ namespace seq
 				assign(static_cast<const Char*>(first), static_cast<size_t>(last - first));
 				return;
 			}
+			if (is_alias(first, last)) {
+				// assign a part of this string: copy it first
+				tiny_string tmp(first, last, get_allocator());
+				swap(tmp);
+				return;
+			}
 			internal_resize(static_cast<size_t>(last - first), false, true);
 			std::copy(first, last, data());
 		}
@@ -924,6 +930,12 @@ namespace seq
 			SEQ_ASSERT_DEBUG(pos <= size(), "invalid insert position");
 			if (first == last)
 				return;
+			if (is_alias(first, last)) {
+				// insert a part of this string: copy it first
+				tiny_string tmp(first, last, get_allocator());
+				insert_cat(pos, tmp.cbegin(), tmp.cend(), std::random_access_iterator_tag());
+				return;
+			}
 
 			// push back, might throw
 			size_type prev_size = size();
@@ -940,7 +952,7 @@ namespace seq
 			SEQ_ASSERT_DEBUG(pos <= size(), "invalid insert position");
 			if (first == last)
 				return;
-			if (is_alias(first)) {
+			if (is_alias(first, last)) {
 				// insert a part of this string: copy it first
 				tiny_string tmp(first, last, get_allocator());
 				insert_cat(pos, tmp.cbegin(), tmp.cend(), std::random_access_iterator_tag());
@@ -994,7 +1006,7 @@ namespace seq
 		template<class Iter>
 		void replace_cat(size_t pos, size_t len, Iter first, Iter last, std::random_access_iterator_tag /*unused*/)
 		{
-			if (is_alias(first)) {
+			if (is_alias(first, last)) {
 				// replace by a part of this string: copy it first
 				tiny_string tmp(first, last, get_allocator());
 				replace_cat(pos, len, tmp.cbegin(), tmp.cend(), std::random_access_iterator_tag());
@@ -1075,12 +1087,19 @@ namespace seq
 		{
 			return !std::less<const Char*>()(s, data()) && !std::less<const Char*>()(data() + size(), s);
 		}
-		// Returns true if the range starting at given iterator is a part of this string
+		// Returns true if the range [first,last) is a part of this string, possibly through an iterator adaptor
 		template<class Iter>
-		bool is_alias(const Iter& it) const noexcept
+		bool is_alias(const Iter& first, const Iter& last) const
 		{
+			using reference = typename std::iterator_traits<Iter>::reference;
 			if constexpr (std::is_same_v<Iter, Char*> || std::is_same_v<Iter, const Char*>)
-				return is_inside(it);
+				return is_inside(first);
+			else if constexpr (std::is_reference_v<reference> && std::is_same_v<std::remove_cv_t<std::remove_reference_t<reference>>, Char>) {
+				if (first == last)
+					return false;
+				auto&& c = *first;
+				return is_inside(std::addressof(c));
+			}
 			else
 				return false;
 		}
@@ -1644,6 +1663,11 @@ namespace seq
 				return *this;
 			if constexpr (std::is_same_v<Iter, Char*> || std::is_same_v<Iter, const Char*>)
 				return append(static_cast<const Char*>(first), static_cast<size_t>(last - first));
+			else if (is_alias(first, last)) {
+				// append a part of this string: copy it first
+				const tiny_string tmp(first, last, get_allocator());
+				return append(tmp.data(), tmp.size());
+			}
 			if (std::is_same_v<typename std::iterator_traits<Iter>::iterator_category, std::random_access_iterator_tag>) {
 				size_t n = std::distance(first, last);
 				size_t old_size = size();
-- 
2.43.0

