From 41b2f7716a549ab6df783fc42aa136ad25c16efc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:32 +0000
Subject: [PATCH 01/68] fix: out-of-bounds read in spin_sorter when the right
 half is the smallest and goes first

---
 include/cpp-sort/detail/boost_common/util/merge.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/cpp-sort/detail/boost_common/util/merge.h b/include/cpp-sort/detail/boost_common/util/merge.h
index ce26079..5df90b3 100644
--- a/include/cpp-sort/detail/boost_common/util/merge.h
+++ b/include/cpp-sort/detail/boost_common/util/merge.h
@@ -130,8 +130,13 @@ namespace util
             }
         }
 
+        // half_inplace_merge blindly merges as many elements as possible, which
+        // is bounded by the size of the smallest buffer
+        auto len1 = end_buf1 - buf1;
+        auto len2 = end_buf2 - buf2;
         cppsort::detail::half_inplace_merge(buf1, end_buf1, buf2, end_buf2, buf_out,
-                                            end_buf1 - buf1, compare, projection);
+                                            len1 < len2 ? len1 : len2,
+                                            compare, projection);
         return end_buf2;
     }
 }}}}
-- 
2.43.0


From 6ebd9e46459c2f3557230e4bda9e999758c5f9ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:32 +0000
Subject: [PATCH 02/68] fix: verge_adapter iterator-pair overload with
 bidirectional iterators

---
 include/cpp-sort/adapters/verge_adapter.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cpp-sort/adapters/verge_adapter.h b/include/cpp-sort/adapters/verge_adapter.h
index b9a9f8c..d684675 100644
--- a/include/cpp-sort/adapters/verge_adapter.h
+++ b/include/cpp-sort/adapters/verge_adapter.h
@@ -83,7 +83,7 @@ namespace cppsort
                     "verge_adapter requires a stronger iterator category"
                 );
 
-                verge::sort<Stable>(std::move(first), std::move(last), last - first,
+                verge::sort<Stable>(first, last, std::distance(first, last),
                                     std::move(compare), std::move(projection),
                                     this->get());
             }
-- 
2.43.0


From e8128702bc100c63cc803e19ed07ce640d702b8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:18 +0000
Subject: [PATCH 03/68] fix: vergesort rotating from the wrong position when
 merging a run of one element

---
 include/cpp-sort/detail/vergesort.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cpp-sort/detail/vergesort.h b/include/cpp-sort/detail/vergesort.h
index 8671b5a..9144953 100644
--- a/include/cpp-sort/detail/vergesort.h
+++ b/include/cpp-sort/detail/vergesort.h
@@ -67,7 +67,7 @@ namespace verge
                     auto&& target = proj(*begin);
                     if (comp(proj(*it->end), target)) {
                         auto insert_it = detail::lower_bound_n(it->end, next_it->size, target, compare, projection);
-                        detail::rotate_left(first, insert_it);
+                        detail::rotate_left(begin, insert_it);
                     } else {
                     }
                 } else if (next_it->size == 1) {
-- 
2.43.0


From 2a98e7b9bf4d32e84a7c1b562ec2db82709f289e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:27 +0000
Subject: [PATCH 04/68] fix: don't feed a size of 0 to the size policy of
 dynamic_buffer

---
 include/cpp-sort/utility/buffer.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/cpp-sort/utility/buffer.h b/include/cpp-sort/utility/buffer.h
index a88c73d..bc534b0 100644
--- a/include/cpp-sort/utility/buffer.h
+++ b/include/cpp-sort/utility/buffer.h
@@ -253,7 +253,8 @@ namespace utility
         {
             explicit buffer(std::size_t size):
                 detail::dynamic_buffer_impl<T>(
-                    static_cast<std::size_t>(SizePolicy{}(size))
+                    // Size policies such as utility::log are not defined for 0
+                    size == 0 ? 0 : static_cast<std::size_t>(SizePolicy{}(size))
                 )
             {}
         };
-- 
2.43.0


From ce4fbcf9c7894a472de6a7fb32edf3eba94fe630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:45 +0000
Subject: [PATCH 05/68] fix: sorted_indices with a projection returning by
 value

---
 include/cpp-sort/utility/sorted_indices.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cpp-sort/utility/sorted_indices.h b/include/cpp-sort/utility/sorted_indices.h
index 7b04182..1053f0c 100644
--- a/include/cpp-sort/utility/sorted_indices.h
+++ b/include/cpp-sort/utility/sorted_indices.h
@@ -69,7 +69,7 @@ namespace utility
 
                 // Reorder the vector thanks to the passed sorter
                 this->get()(indices, std::move(compare),
-                            [&first, &proj](difference_type index) -> auto& {
+                            [&first, &proj](difference_type index) -> decltype(auto) {
                                 return proj(first[index]);
                             });
 
-- 
2.43.0


From 1c26681a74ffa01da96780eebfddeb1343931ada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:52 +0000
Subject: [PATCH 06/68] fix: container_aware_adapter called with a pair of
 iterators

The documentation says that the adapted sorter is used in such a case,
but most of the calls did not compile.
---
 .../adapters/container_aware_adapter.h        | 51 +++++++++++++++++++
 1 file changed, 51 insertions(+)

diff --git a/include/cpp-sort/adapters/container_aware_adapter.h b/include/cpp-sort/adapters/container_aware_adapter.h
index d53b5a4..76ff644 100644
--- a/include/cpp-sort/adapters/container_aware_adapter.h
+++ b/include/cpp-sort/adapters/container_aware_adapter.h
@@ -330,6 +330,57 @@ namespace cppsort
             {
                 return this->get()(iterable, std::move(compare), std::move(projection));
             }
+
+            ////////////////////////////////////////////////////////////
+            // Pairs of iterators: always call the adapted sorter
+
+            template<
+                bool Stability = false,
+                typename Iterator
+            >
+            auto operator()(Iterator first, Iterator last) const
+                -> conditional_t<
+                    Stability,
+                    cppsort::is_stable<Sorter(Iterator, Iterator)>,
+                    decltype(this->get()(std::move(first), std::move(last)))
+                >
+            {
+                return this->get()(std::move(first), std::move(last));
+            }
+
+            template<
+                bool Stability = false,
+                typename Iterator,
+                typename Func
+            >
+            auto operator()(Iterator first, Iterator last, Func func) const
+                -> conditional_t<
+                    Stability,
+                    cppsort::is_stable<Sorter(Iterator, Iterator, Func)>,
+                    decltype(this->get()(std::move(first), std::move(last), std::move(func)))
+                >
+            {
+                return this->get()(std::move(first), std::move(last), std::move(func));
+            }
+
+            template<
+                bool Stability = false,
+                typename Iterator,
+                typename Compare,
+                typename Projection
+            >
+            auto operator()(Iterator first, Iterator last,
+                            Compare compare, Projection projection) const
+                -> conditional_t<
+                    Stability,
+                    cppsort::is_stable<Sorter(Iterator, Iterator, Compare, Projection)>,
+                    decltype(this->get()(std::move(first), std::move(last),
+                                         std::move(compare), std::move(projection)))
+                >
+            {
+                return this->get()(std::move(first), std::move(last),
+                                   std::move(compare), std::move(projection));
+            }
         };
     }
 
-- 
2.43.0


From 90cec204d4d4e27ab5f17de081b9ebba0e21e5ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:41 +0000
Subject: [PATCH 07/68] fix: stability trait of
 container_aware_adapter<insertion_sorter> not compiling

---
 .../detail/container_aware/insertion_sort.h   | 29 ++++++++++++++++---
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/include/cpp-sort/detail/container_aware/insertion_sort.h b/include/cpp-sort/detail/container_aware/insertion_sort.h
index fec76a8..8e9bf13 100644
--- a/include/cpp-sort/detail/container_aware/insertion_sort.h
+++ b/include/cpp-sort/detail/container_aware/insertion_sort.h
@@ -199,21 +199,42 @@ namespace cppsort
         // Generic overload
 
         template<
-            typename First, typename... Args,
+            bool Stability = false,
+            typename First,
+            typename... Args,
             typename = detail::enable_if_t<
                 not detail::is_specialization_of_v<detail::remove_cvref_t<First>, std::list> &&
                 not detail::is_specialization_of_v<detail::remove_cvref_t<First>, std::forward_list>
             >
         >
         auto operator()(First&& first, Args&&... args) const
-            -> decltype(detail::container_aware_adapter_base<insertion_sorter>::operator()(
-                   std::forward<First>(first), std::forward<Args>(args)...
+            -> decltype(std::declval<const detail::container_aware_adapter_base<insertion_sorter>&>()
+                   .template operator()<Stability>(
+                       std::forward<First>(first), std::forward<Args>(args)...
             ))
         {
-            return detail::container_aware_adapter_base<insertion_sorter>::operator()(
+            const detail::container_aware_adapter_base<insertion_sorter>& base = *this;
+            return base.template operator()<Stability>(
                 std::forward<First>(first), std::forward<Args>(args)...
             );
         }
+
+        ////////////////////////////////////////////////////////////
+        // Stability of the dedicated algorithms, see is_stable
+
+        template<
+            bool Stability,
+            typename List,
+            typename... Args,
+            typename = detail::enable_if_t<
+                Stability && (
+                    detail::is_specialization_of_v<List, std::list> ||
+                    detail::is_specialization_of_v<List, std::forward_list>
+                )
+            >
+        >
+        auto operator()(List& iterable, Args&&... args) const
+            -> std::true_type;
     };
 }
 
-- 
2.43.0


From 33c01c33d6eb1870339239f1d2042daf3a1bca0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:28 +0000
Subject: [PATCH 08/68] fix: container_aware_adapter<merge_sorter> unstable,
 and losing elements when a comparison throws

---
 .../detail/container_aware/merge_sort.h       | 25 ++++++++++++++-----
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/include/cpp-sort/detail/container_aware/merge_sort.h b/include/cpp-sort/detail/container_aware/merge_sort.h
index 5bf3c75..1201d8a 100644
--- a/include/cpp-sort/detail/container_aware/merge_sort.h
+++ b/include/cpp-sort/detail/container_aware/merge_sort.h
@@ -20,6 +20,7 @@
 #include <cpp-sort/sorter_traits.h>
 #include <cpp-sort/utility/functional.h>
 #include <cpp-sort/utility/size.h>
+#include "../scope_exit.h"
 #include "../type_traits.h"
 
 namespace cppsort
@@ -39,11 +40,17 @@ namespace cppsort
             std::list<Args...> left(collection.get_allocator());
             left.splice(left.begin(), collection, first, middle);
 
-            // Recursively sort, then merge
+            // Give the elements back to the collection no matter what
+            auto splice_back = make_scope_exit([&] {
+                collection.splice(collection.begin(), left);
+            });
+
+            // Recursively sort, then merge: the elements of the left part
+            // have to come first when they are equivalent
             list_merge_sort(left, compare, projection);
             list_merge_sort(collection, compare, projection);
-            collection.merge(std::move(left), make_projection_compare(std::move(compare),
-                                                                      std::move(projection)));
+            left.merge(collection, make_projection_compare(std::move(compare),
+                                                           std::move(projection)));
         }
 
         template<typename Compare, typename Projection,
@@ -60,11 +67,17 @@ namespace cppsort
             std::forward_list<Args...> left(collection.get_allocator());
             left.splice_after(left.before_begin(), collection, first, middle);
 
-            // Recursively sort, then merge
+            // Give the elements back to the collection no matter what
+            auto splice_back = make_scope_exit([&] {
+                collection.splice_after(collection.before_begin(), left);
+            });
+
+            // Recursively sort, then merge: the elements of the left part
+            // have to come first when they are equivalent
             flist_merge_sort(left, size / 2, compare, projection);
             flist_merge_sort(collection, size - size / 2, compare, projection);
-            collection.merge(std::move(left), make_projection_compare(std::move(compare),
-                                                                      std::move(projection)));
+            left.merge(collection, make_projection_compare(std::move(compare),
+                                                           std::move(projection)));
         }
     }
 
-- 
2.43.0


From 7826b9efef025190f32395e942b3524e7d9840aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:05 +0000
Subject: [PATCH 09/68] fix: container_aware_adapter<mel_sorter> losing
 elements on exceptions and ignoring the allocator of the list

---
 .../detail/container_aware/mel_sort.h         | 35 ++++++++++++-------
 1 file changed, 23 insertions(+), 12 deletions(-)

diff --git a/include/cpp-sort/detail/container_aware/mel_sort.h b/include/cpp-sort/detail/container_aware/mel_sort.h
index 1edbbc0..dc34758 100644
--- a/include/cpp-sort/detail/container_aware/mel_sort.h
+++ b/include/cpp-sort/detail/container_aware/mel_sort.h
@@ -23,6 +23,7 @@
 #include <cpp-sort/utility/as_function.h>
 #include <cpp-sort/utility/functional.h>
 #include "../lower_bound.h"
+#include "../scope_exit.h"
 #include "../type_traits.h"
 
 namespace cppsort
@@ -41,7 +42,15 @@ namespace cppsort
 
             // Encroaching lists
             std::vector<std::list<Args...>> lists;
-            lists.emplace_back();
+
+            // Give the elements back to the collection no matter what
+            auto splice_back = make_scope_exit([&] {
+                for (auto& list: lists) {
+                    collection.splice(collection.begin(), list);
+                }
+            });
+
+            lists.emplace_back(collection.get_allocator());
             lists.back().splice(lists.back().begin(), collection, collection.begin());
 
             ////////////////////////////////////////////////////////////
@@ -68,7 +77,7 @@ namespace cppsort
                 } else {
                     // Element does not belong to the existing encroaching lists,
                     // create a new list for it
-                    lists.emplace_back();
+                    lists.emplace_back(collection.get_allocator());
                     lists.back().splice(lists.back().begin(), collection, collection.begin());
                 }
             }
@@ -94,9 +103,6 @@ namespace cppsort
 
                 lists.erase(lists.begin() + lists.size() / 2, lists.end());
             }
-
-            // Merge lists back into the original collection
-            collection.splice(collection.begin(), std::move(lists.front()));
         }
 
         template<typename Compare, typename Projection, typename... Args>
@@ -115,8 +121,8 @@ namespace cppsort
             // to implement melsort for forward iterators
             struct flist
             {
-                flist():
-                    list(),
+                explicit flist(const typename std::forward_list<Args...>::allocator_type& allocator):
+                    list(allocator),
                     last(list.begin())
                 {}
 
@@ -126,7 +132,15 @@ namespace cppsort
 
             // Encroaching lists
             std::vector<flist> lists;
-            lists.emplace_back();
+
+            // Give the elements back to the collection no matter what
+            auto splice_back = make_scope_exit([&] {
+                for (auto& list: lists) {
+                    collection.splice_after(collection.before_begin(), list.list);
+                }
+            });
+
+            lists.emplace_back(collection.get_allocator());
             lists.back().list.splice_after(lists.back().list.before_begin(),
                                            collection, collection.before_begin());
             lists.back().last = lists.back().list.begin();
@@ -158,7 +172,7 @@ namespace cppsort
                 } else {
                     // Element does not belong to the existing encroaching lists,
                     // create a new list for it
-                    lists.emplace_back();
+                    lists.emplace_back(collection.get_allocator());
                     lists.back().list.splice_after(lists.back().list.before_begin(),
                                                    collection, collection.before_begin());
                     lists.back().last = lists.back().list.begin();
@@ -186,9 +200,6 @@ namespace cppsort
 
                 lists.erase(lists.begin() + lists.size() / 2, lists.end());
             }
-
-            // Merge lists back into the original collection
-            collection.splice_after(collection.before_begin(), std::move(lists.front().list));
         }
     }
 
-- 
2.43.0


From d08ce175a093e31ac3b5d6f997d0802313426d94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:45 +0000
Subject: [PATCH 10/68] fix: spin_sorter is documented as stable but its traits
 said otherwise

---
 include/cpp-sort/sorters/spin_sorter.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cpp-sort/sorters/spin_sorter.h b/include/cpp-sort/sorters/spin_sorter.h
index 0f4232c..e3b2364 100644
--- a/include/cpp-sort/sorters/spin_sorter.h
+++ b/include/cpp-sort/sorters/spin_sorter.h
@@ -57,7 +57,7 @@ namespace cppsort
             // Sorter traits
 
             using iterator_category = std::random_access_iterator_tag;
-            using is_always_stable = std::false_type;
+            using is_always_stable = std::true_type;
         };
     }
 
-- 
2.43.0


From 6871e342476a7cf14954b31973069f29869ce90f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:46 +0000
Subject: [PATCH 11/68] fix: wiki_sort comparing uninitialized iterators

---
 include/cpp-sort/detail/wiki_sort.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/cpp-sort/detail/wiki_sort.h b/include/cpp-sort/detail/wiki_sort.h
index 23fa5e7..c1faca0 100644
--- a/include/cpp-sort/detail/wiki_sort.h
+++ b/include/cpp-sort/detail/wiki_sort.h
@@ -524,7 +524,9 @@ namespace detail
                         difference_type count;
                         Range<RandomAccessIterator> range;
                     } pull[2];
+                    pull[0].from = pull[0].to = first;
                     pull[0].count = 0; pull[0].range = { first, first };
+                    pull[1].from = pull[1].to = first;
                     pull[1].count = 0; pull[1].range = { first, first };
 
                     // find two internal buffers of size 'buffer_size' each
-- 
2.43.0


From 4df64771e7cddcec7c7fe167dc382062d1cf94e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:20 +0000
Subject: [PATCH 12/68] fix: grail_sort overflowing small difference types on
 few distinct values

---
 include/cpp-sort/detail/grail_sort.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/cpp-sort/detail/grail_sort.h b/include/cpp-sort/detail/grail_sort.h
index 834d418..99f353a 100644
--- a/include/cpp-sort/detail/grail_sort.h
+++ b/include/cpp-sort/detail/grail_sort.h
@@ -19,6 +19,7 @@
 // Headers
 ////////////////////////////////////////////////////////////
 #include <algorithm>
+#include <cstddef>
 #include <iterator>
 #include <tuple>
 #include <type_traits>
@@ -653,7 +654,9 @@ namespace grail
             }
         }
 
-        for (difference_type h = 2 ; h < size ; h *= 2) {
+        // h can overflow small difference types
+        using wide_difference_type = typename std::common_type<difference_type, std::ptrdiff_t>::type;
+        for (wide_difference_type h = 2 ; h < size ; h *= 2) {
             auto p0 = first;
             if (2 * h <= size) {
                 auto p1 = last - 2 * h;
-- 
2.43.0


From 088a8f17c7d0917c9b5b5c2aa79088fc953d04d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:54 +0000
Subject: [PATCH 13/68] fix: counting_sorter overflows computing the range of
 the values

---
 include/cpp-sort/detail/counting_sort.h | 58 ++++++++++++++++++-------
 1 file changed, 43 insertions(+), 15 deletions(-)

diff --git a/include/cpp-sort/detail/counting_sort.h b/include/cpp-sort/detail/counting_sort.h
index 8c0b366..2c4eaa6 100644
--- a/include/cpp-sort/detail/counting_sort.h
+++ b/include/cpp-sort/detail/counting_sort.h
@@ -9,8 +9,12 @@
 // Headers
 ////////////////////////////////////////////////////////////
 #include <algorithm>
+#include <cstddef>
+#include <cstdint>
 #include <functional>
 #include <iterator>
+#include <new>
+#include <type_traits>
 #include "immovable_vector.h"
 #include "iterator_traits.h"
 #include "minmax_element_and_is_sorted.h"
@@ -19,30 +23,54 @@ namespace cppsort
 {
 namespace detail
 {
+    // Distance between two integers such as min <= value, computed with
+    // modular arithmetic because value - min might not be representable
+    template<typename Integer>
+    constexpr auto counting_distance(Integer min, Integer value)
+        -> typename std::common_type<Integer, unsigned long long>::type
+    {
+        using distance_type = typename std::common_type<Integer, unsigned long long>::type;
+        return static_cast<distance_type>(value) - static_cast<distance_type>(min);
+    }
+
+    // Number of integers in [min, max], if an array of counters of that
+    // size is conceivable
+    template<typename Counter, typename Integer>
+    auto counting_range(Integer min, Integer max)
+        -> std::ptrdiff_t
+    {
+        auto distance = counting_distance(min, max);
+        if (distance >= PTRDIFF_MAX / sizeof(Counter)) {
+            throw std::bad_alloc();
+        }
+        return static_cast<std::ptrdiff_t>(distance) + 1;
+    }
+
     template<typename ForwardIterator>
     auto counting_sort(ForwardIterator first, ForwardIterator last)
         -> void
     {
         using difference_type = difference_type_t<ForwardIterator>;
+        using value_type = value_type_t<ForwardIterator>;
 
         auto info = minmax_element_and_is_sorted(first, last);
         if (info.is_sorted) return;
 
-        auto min = *info.min;
-        auto max = *info.max;
-        difference_type value_range = max - min + 1;
+        value_type min = *info.min;
+        value_type max = *info.max;
+        auto value_range = counting_range<difference_type>(min, max);
 
         immovable_vector<difference_type> counts(value_range);
-        for (difference_type n = 0; n < value_range; ++n) {
+        for (std::ptrdiff_t n = 0; n < value_range; ++n) {
             counts.emplace_back(0);
         }
 
         for (auto it = first; it != last; ++it) {
-            ++counts[*it - min];
+            ++counts[static_cast<std::ptrdiff_t>(counting_distance<value_type>(min, *it))];
         }
 
-        for (auto count: counts) {
-            first = std::fill_n(first, count, min++);
+        for (std::ptrdiff_t n = 0; n < value_range; ++n) {
+            first = std::fill_n(first, counts[n], static_cast<value_type>(min + n));
         }
     }
 
@@ -51,26 +79,26 @@ namespace detail
         -> void
     {
         using difference_type = difference_type_t<ForwardIterator>;
+        using value_type = value_type_t<ForwardIterator>;
 
         auto info = minmax_element_and_is_sorted(first, last, std::greater<>{});
         if (info.is_sorted) return;
 
-        auto min = *info.max;
-        auto max = *info.min;
-        difference_type value_range = max - min + 1;
+        value_type min = *info.max;
+        value_type max = *info.min;
+        auto value_range = counting_range<difference_type>(min, max);
 
         immovable_vector<difference_type> counts(value_range);
-        for (difference_type n = 0; n < value_range; ++n) {
+        for (std::ptrdiff_t n = 0; n < value_range; ++n) {
             counts.emplace_back(0);
         }
 
         for (auto it = first; it != last; ++it) {
-            ++counts[*it - min];
+            ++counts[static_cast<std::ptrdiff_t>(counting_distance<value_type>(min, *it))];
         }
 
-        for (auto rit = counts.end(); rit != counts.begin(); --rit) {
-            auto count = *std::prev(rit);
-            first = std::fill_n(first, count, max--);
+        for (std::ptrdiff_t n = value_range; n > 0; --n) {
+            first = std::fill_n(first, counts[n - 1], static_cast<value_type>(min + (n - 1)));
         }
     }
 }}
-- 
2.43.0


From 9cd68d12fd0a4d6e3cc12782a45e1460f0b5fe85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:08 +0000
Subject: [PATCH 14/68] fix: pdq_sort moving from a moved-from element when the
 pivot is already in place

---
 include/cpp-sort/detail/pdqsort.h | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/include/cpp-sort/detail/pdqsort.h b/include/cpp-sort/detail/pdqsort.h
index 39be552..b01324e 100644
--- a/include/cpp-sort/detail/pdqsort.h
+++ b/include/cpp-sort/detail/pdqsort.h
@@ -328,7 +328,9 @@ namespace detail
 
             // Put the pivot in the right place.
             auto pivot_pos = first - 1;
-            *begin = iter_move(pivot_pos);
+            if (pivot_pos != begin) {
+                *begin = iter_move(pivot_pos);
+            }
             *pivot_pos = std::move(pivot);
 
             return std::make_pair(pivot_pos, already_partitioned);
@@ -380,7 +382,9 @@ namespace detail
 
             // Put the pivot in the right place.
             RandomAccessIterator pivot_pos = first - 1;
-            *begin = iter_move(pivot_pos);
+            if (pivot_pos != begin) {
+                *begin = iter_move(pivot_pos);
+            }
             *pivot_pos = std::move(pivot);
 
             return std::make_pair(pivot_pos, already_partitioned);
@@ -415,7 +419,9 @@ namespace detail
             }
 
             RandomAccessIterator pivot_pos = last;
-            *begin = iter_move(pivot_pos);
+            if (pivot_pos != begin) {
+                *begin = iter_move(pivot_pos);
+            }
             *pivot_pos = std::move(pivot);
 
             return pivot_pos;
-- 
2.43.0


From 17681c6b8aff71daf76c11d63155955cd0c9d712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:55 +0000
Subject: [PATCH 15/68] fix: melsort and slabsort crashing when a comparison
 throws while merging encroaching lists

---
 include/cpp-sort/detail/fixed_size_list.h | 131 +++++++++++++---------
 1 file changed, 78 insertions(+), 53 deletions(-)

diff --git a/include/cpp-sort/detail/fixed_size_list.h b/include/cpp-sort/detail/fixed_size_list.h
index 6ac8710..d5641c3 100644
--- a/include/cpp-sort/detail/fixed_size_list.h
+++ b/include/cpp-sort/detail/fixed_size_list.h
@@ -658,35 +658,43 @@ namespace detail
 
                 auto other_it = other.begin();
                 auto other_end = other.end();
+                // First node not linked to the current list yet
+                auto insert_begin = other_it;
 
-                do {
-                    if (comp(proj(*other_it), proj(*first))) {
-                        // The following loop finds a series of nodes to splice
-                        // into the current list, which is faster than splicing
-                        // elements one by one
-                        auto insert_begin = other_it;
-                        do {
-                            ++other_it;
-                        } while (other_it != other_end && comp(proj(*other_it), proj(*first)));
-                        fast_splice_(first, insert_begin, other_it);
-                    } else {
-                        ++first;
-                    }
-
-                    if (first == last) {
-                        fast_splice_(last, other_it, other_end);
-                        // Reset the other list's sentinel node,
-                        // fast_splice_ does no do it
-                        other.sentinel_node_.next = &other.sentinel_node_;
-                        other.sentinel_node_.prev = &other.sentinel_node_;
-                        return;
-                    }
-                } while (other_it != other_end);
+                try {
+                    do {
+                        if (comp(proj(*other_it), proj(*first))) {
+                            // The following loop finds a series of nodes to splice
+                            // into the current list, which is faster than splicing
+                            // elements one by one
+                            do {
+                                ++other_it;
+                            } while (other_it != other_end && comp(proj(*other_it), proj(*first)));
+                            fast_splice_(first, insert_begin, other_it);
+                            insert_begin = other_it;
+                        } else {
+                            ++first;
+                        }
+
+                        if (first == last) {
+                            fast_splice_(last, other_it, other_end);
+                            // Reset the other list's sentinel node,
+                            // fast_splice_ does no do it
+                            other.reset_sentinel_();
+                            return;
+                        }
+                    } while (other_it != other_end);
+                } catch (...) {
+                    // Take the remaining nodes so that every node
+                    // belongs to exactly one list
+                    fast_splice_(last, insert_begin, other_end);
+                    other.reset_sentinel_();
+                    throw;
+                }
 
                 // Reset the other list's sentinel node,
                 // fast_splice_ does no do it
-                other.sentinel_node_.next = &other.sentinel_node_;
-                other.sentinel_node_.prev = &other.sentinel_node_;
+                other.reset_sentinel_();
             }
 
             template<typename Compare, typename Projection>
@@ -719,39 +727,49 @@ namespace detail
 
                 auto other_it = other.begin();
                 auto other_end = other.end();
-
-                while (other_it != other_end) {
-                    if (comp(proj(*other_it), proj(*first))) {
-                        // The following loop finds a series of nodes to splice
-                        // into the current list, which is faster than splicing
-                        // elements one by one
-                        iterator insert_first = other_it;
-                        iterator insert_last;
-                        do {
-                            insert_last = other_it;
-                            ++other_it;
-                        } while (other_it != other_end && comp(proj(*other_it), proj(*first)));
-                        first.base()->prev->next = insert_first.base();
-                        insert_last.base()->next = first.base();
-                    } else {
-                        ++first;
-                    }
-
-                    if (first == last) {
-                        last.base()->prev->next = other_it.base();
-                        other_end.base()->prev->next = last.base();
-                        // Reset the other list's sentinel node,
-                        // fast_splice_ does no do it
-                        other.sentinel_node_.next = &other.sentinel_node_;
-                        other.sentinel_node_.prev = &other.sentinel_node_;
-                        return;
+                // First node not linked to the current list yet
+                iterator insert_first = other_it;
+
+                try {
+                    while (other_it != other_end) {
+                        if (comp(proj(*other_it), proj(*first))) {
+                            // The following loop finds a series of nodes to splice
+                            // into the current list, which is faster than splicing
+                            // elements one by one
+                            iterator insert_last;
+                            do {
+                                insert_last = other_it;
+                                ++other_it;
+                            } while (other_it != other_end && comp(proj(*other_it), proj(*first)));
+                            first.base()->prev->next = insert_first.base();
+                            insert_last.base()->next = first.base();
+                            insert_first = other_it;
+                        } else {
+                            ++first;
+                        }
+
+                        if (first == last) {
+                            last.base()->prev->next = other_it.base();
+                            other_end.base()->prev->next = last.base();
+                            // Reset the other list's sentinel node,
+                            // fast_splice_ does no do it
+                            other.reset_sentinel_();
+                            return;
+                        }
                     }
+                } catch (...) {
+                    // Take the remaining nodes so that every node
+                    // belongs to exactly one list
+                    last.base()->prev->next = insert_first.base();
+                    other_end.base()->prev->next = last.base();
+                    last.base()->prev = other_end.base()->prev;
+                    other.reset_sentinel_();
+                    throw;
                 }
 
                 // Reset the other list's sentinel node,
                 // fast_splice_ does no do it
-                other.sentinel_node_.next = &other.sentinel_node_;
-                other.sentinel_node_.prev = &other.sentinel_node_;
+                other.reset_sentinel_();
             }
 
             auto splice(iterator pos, fixed_size_list& other) noexcept
@@ -786,6 +804,13 @@ namespace detail
             ////////////////////////////////////////////////////////////
             // Helper functions
 
+            auto reset_sentinel_() noexcept
+                -> void
+            {
+                sentinel_node_.next = &sentinel_node_;
+                sentinel_node_.prev = &sentinel_node_;
+            }
+
             auto insert_node_(list_node_base* pos, const value_type& value)
                 -> node_type*
             {
-- 
2.43.0


From b211c5324edb3c0af36eb50a5846b6fe6d818c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:55 +0000
Subject: [PATCH 16/68] fix: slabsort leaking elements when a move throws

---
 include/cpp-sort/detail/slabsort.h | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/include/cpp-sort/detail/slabsort.h b/include/cpp-sort/detail/slabsort.h
index a647535..c313fbf 100644
--- a/include/cpp-sort/detail/slabsort.h
+++ b/include/cpp-sort/detail/slabsort.h
@@ -199,12 +199,24 @@ namespace detail
         // Reify encroaching lists
 
         for (auto& list : lists) {
-            // TODO: handle destruction when an exception is thrown during the loop
-            for (auto it = list.begin(), end = list.end() ; it != end ; ++it) {
-                auto node = it.base();
-                auto value_it = node->it;
-                detail::destroy_at(&node->it);
-                ::new(&node->value) rvalue_type(iter_move(value_it));
+            auto it = list.begin();
+            try {
+                for (auto end = list.end() ; it != end ; ++it) {
+                    auto node = it.base();
+                    auto value_it = node->it;
+                    detail::destroy_at(&node->it);
+                    ::new(&node->value) rvalue_type(iter_move(value_it));
+                }
+            } catch (...) {
+                // Destroy the values moved so far, and make sure that all
+                // of the nodes of the list hold an iterator again
+                ::new(&it.base()->it) BidirectionalIterator(first);
+                while (it != list.begin()) {
+                    --it;
+                    detail::destroy_at(&it.base()->value);
+                    ::new(&it.base()->it) BidirectionalIterator(first);
+                }
+                throw;
             }
             list.set_node_destructor(destroy_node_contents<rvalue_type, node_type, &node_type::value>);
         }
-- 
2.43.0


From ed59c658486101b92082370941862192f72d24f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:06 +0000
Subject: [PATCH 17/68] fix: forward merge with a partial buffer reading past
 the end of the second range

---
 include/cpp-sort/detail/recmerge_forward.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/cpp-sort/detail/recmerge_forward.h b/include/cpp-sort/detail/recmerge_forward.h
index 333711e..37b6e86 100644
--- a/include/cpp-sort/detail/recmerge_forward.h
+++ b/include/cpp-sort/detail/recmerge_forward.h
@@ -25,6 +25,7 @@
 ////////////////////////////////////////////////////////////
 // Headers
 ////////////////////////////////////////////////////////////
+#include <algorithm>
 #include <iterator>
 #include <memory>
 #include <utility>
@@ -116,7 +117,7 @@ namespace detail
 
             half_inplace_merge(
                 buffer, buff_ptr, f1, std::next(f1, n1), f0,
-                n0, std::move(compare), std::move(projection)
+                (std::min)(n0, n1), std::move(compare), std::move(projection)
             );
             return;
         }
-- 
2.43.0


From 05f59098f05eac64c3e1674c055ca047f8d9828e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:39 +0000
Subject: [PATCH 18/68] fix: ska_sort dereferencing destroyed strings when the
 projection returns by value

---
 include/cpp-sort/detail/ska_sort.h | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/cpp-sort/detail/ska_sort.h b/include/cpp-sort/detail/ska_sort.h
index a39bdc7..e35f884 100644
--- a/include/cpp-sort/detail/ska_sort.h
+++ b/include/cpp-sort/detail/ska_sort.h
@@ -741,7 +741,15 @@ namespace detail
 
             std::size_t current_index = sort_data->current_index;
             void* next_sort_data = sort_data->next_sort_data;
-            auto current_key = [&](auto&& elem) -> decltype(auto) {
+            // The key may refer to the projected object, so return it by
+            // value when the projected object is a temporary
+            using key_type = decltype(CurrentSubKey::sub_key(proj(*begin), next_sort_data));
+            using current_key_type = conditional_t<
+                std::is_reference<decltype(proj(*begin))>::value,
+                key_type,
+                remove_cvref_t<key_type>
+            >;
+            auto current_key = [&](auto&& elem) -> current_key_type {
                 return CurrentSubKey::sub_key(proj(elem), next_sort_data);
             };
             auto element_key = [&](auto&& elem) -> decltype(auto) {
-- 
2.43.0


From 38507b03dab14fde4a145bede5bb27c44eadeca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:39 +0000
Subject: [PATCH 19/68] fix: order of signed char and wchar_t keys in ska_sort

---
 include/cpp-sort/detail/ska_sort.h | 32 ++++++++++++++++++++++++++----
 1 file changed, 28 insertions(+), 4 deletions(-)

diff --git a/include/cpp-sort/detail/ska_sort.h b/include/cpp-sort/detail/ska_sort.h
index e35f884..5fadccb 100644
--- a/include/cpp-sort/detail/ska_sort.h
+++ b/include/cpp-sort/detail/ska_sort.h
@@ -18,6 +18,7 @@
 #include <cstdint>
 #include <functional>
 #include <limits>
+#include <string>
 #include <tuple>
 #include <type_traits>
 #include <utility>
@@ -56,7 +57,9 @@ namespace detail
     inline auto to_unsigned_or_bool(char c)
         -> unsigned char
     {
-        return static_cast<unsigned char>(c);
+        // char can be signed
+        return static_cast<unsigned char>(c)
+             + (std::is_signed<char>::value ? 128 : 0);
     }
 
     inline auto to_unsigned_or_bool(char16_t c)
@@ -74,7 +77,9 @@ namespace detail
     inline auto to_unsigned_or_bool(wchar_t c)
         -> std::uint32_t
     {
-        return static_cast<std::uint32_t>(c);
+        // wchar_t can be signed
+        return static_cast<std::uint32_t>(c)
+             + (std::is_signed<wchar_t>::value ? 0x80000000 : 0);
     }
 
     inline auto to_unsigned_or_bool(short i)
@@ -440,11 +445,30 @@ namespace detail
                           std::ptrdiff_t, Projection, void*);
     };
 
+    template<typename T, typename Enable=void>
+    struct ListElementBaseSubKey:
+        SubKey<remove_cvref_t<decltype(std::declval<T>()[0])>>
+    {};
+
+    // Strings compare their elements as if they were unsigned
+    template<typename T>
+    struct ListElementBaseSubKey<T, detail::enable_if_t<
+        std::is_same<typename T::traits_type, std::char_traits<char>>::value
+    >>:
+        SizedSubKey<1>
+    {
+        static auto sub_key(char value, void*)
+            -> unsigned char
+        {
+            return static_cast<unsigned char>(value);
+        }
+    };
+
     template<typename CurrentSubKey, typename T>
     struct ListElementSubKey:
-        SubKey<remove_cvref_t<decltype(std::declval<T>()[0])>>
+        ListElementBaseSubKey<T>
     {
-        using base = SubKey<remove_cvref_t<decltype(std::declval<T>()[0])>>;
+        using base = ListElementBaseSubKey<T>;
         using next = ListElementSubKey;
 
         template<typename U>
-- 
2.43.0


From 10c09f7f071294fc37487d7b6fec5cd5df2bc30f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:39 +0000
Subject: [PATCH 20/68] fix: ska_sort ordering keys made of several parts by
 the sign of their zeros

---
 include/cpp-sort/detail/ska_sort.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/cpp-sort/detail/ska_sort.h b/include/cpp-sort/detail/ska_sort.h
index 5fadccb..80b871b 100644
--- a/include/cpp-sort/detail/ska_sort.h
+++ b/include/cpp-sort/detail/ska_sort.h
@@ -122,7 +122,8 @@ namespace detail
     inline auto to_unsigned_or_bool(float f)
         -> std::uint32_t
     {
-        auto u = memcpy_cast<std::uint32_t>(f);
+        // Negative and positive zero are equivalent
+        auto u = memcpy_cast<std::uint32_t>(f == 0.0f ? 0.0f : f);
         std::uint32_t sign_bit = -std::int32_t(u >> 31);
         return u ^ (sign_bit | 0x80000000);
     }
@@ -130,7 +131,8 @@ namespace detail
     inline auto to_unsigned_or_bool(double f)
         -> std::uint64_t
     {
-        auto u = memcpy_cast<std::uint64_t>(f);
+        // Negative and positive zero are equivalent
+        auto u = memcpy_cast<std::uint64_t>(f == 0.0 ? 0.0 : f);
         std::uint64_t sign_bit = -std::int64_t(u >> 63);
         return u ^ (sign_bit | 0x8000000000000000);
     }
-- 
2.43.0


From 5de6911fa015fbb19d5dd360f06efa9ea9ed9a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:04 +0000
Subject: [PATCH 21/68] fix: ska_sort ignoring all but the first part of pairs
 and tuples stored in lists

---
 include/cpp-sort/detail/ska_sort.h | 72 +++++++++++++++++++++++++-----
 1 file changed, 61 insertions(+), 11 deletions(-)

diff --git a/include/cpp-sort/detail/ska_sort.h b/include/cpp-sort/detail/ska_sort.h
index 80b871b..73f6e71 100644
--- a/include/cpp-sort/detail/ska_sort.h
+++ b/include/cpp-sort/detail/ska_sort.h
@@ -321,7 +321,8 @@ namespace detail
     };
 
     template<>
-    struct SubKey<void>;
+    struct SubKey<void>
+    {};
 
     template<typename T>
     struct SubKey<T*>:
@@ -466,12 +467,18 @@ namespace detail
         }
     };
 
-    template<typename CurrentSubKey, typename T>
+    // Base is the SubKey of the part of the elements being sorted, the
+    // elements of the list can be made of several parts (pairs, tuples)
+    template<typename CurrentSubKey, typename T, typename Base=ListElementBaseSubKey<T>>
     struct ListElementSubKey:
-        ListElementBaseSubKey<T>
+        Base
     {
-        using base = ListElementBaseSubKey<T>;
-        using next = ListElementSubKey;
+        using base = Base;
+        using next = conditional_t<
+            std::is_same<SubKey<void>, typename Base::next>::value,
+            SubKey<void>,
+            ListElementSubKey<CurrentSubKey, T, typename Base::next>
+        >;
 
         template<typename U>
         static auto sub_key(U&& value, void* sort_data)
@@ -758,6 +765,52 @@ namespace detail
     struct ListInplaceSorter
     {
         using ElementSubKey = ListElementSubKey<CurrentSubKey, ListType>;
+
+        // Sort a part of the elements at the current index, then the next parts
+        template<typename PartSubKey, typename Enable=void>
+        struct ElementSorter
+        {
+            template<typename RandomAccessIterator, typename Projection>
+            static auto sort(RandomAccessIterator begin, RandomAccessIterator end,
+                             std::ptrdiff_t num_elements, Projection projection, void* sort_data)
+                -> void
+            {
+                using SortType = void (*)(RandomAccessIterator, RandomAccessIterator, std::ptrdiff_t, Projection, void*);
+                SortType sort_next = static_cast<SortType>(&ElementSorter<typename PartSubKey::next>::sort);
+                InplaceSorter<StdSortThreshold, AmericanFlagSortThreshold, PartSubKey>::sort(begin, end, num_elements, projection,
+                                                                                             sort_next, sort_data);
+            }
+        };
+
+        // All the parts of the element are sorted: sort the next elements
+        template<typename Enable>
+        struct ElementSorter<SubKey<void>, Enable>
+        {
+            template<typename RandomAccessIterator, typename Projection>
+            static auto sort(RandomAccessIterator begin, RandomAccessIterator end,
+                             std::ptrdiff_t num_elements, Projection projection, void* sort_data)
+                -> void
+            {
+                sort_from_recursion(begin, end, num_elements, projection, sort_data);
+            }
+        };
+
+        // Key of an element when it is made of a single part
+        template<typename T>
+        static auto whole_element_key(const T& elem, void* sort_data, SubKey<void>)
+            -> decltype(auto)
+        {
+            return ElementSubKey::base::sub_key(elem, sort_data);
+        }
+
+        // The element itself when it is made of several parts
+        template<typename T, typename Next>
+        static auto whole_element_key(const T& elem, void*, Next)
+            -> const T&
+        {
+            return elem;
+        }
+
         template<typename RandomAccessIterator, typename Projection>
         static auto sort(RandomAccessIterator begin, RandomAccessIterator end, Projection projection,
                          ListSortData<RandomAccessIterator, Projection>* sort_data)
@@ -778,8 +831,8 @@ namespace detail
             auto current_key = [&](auto&& elem) -> current_key_type {
                 return CurrentSubKey::sub_key(proj(elem), next_sort_data);
             };
-            auto element_key = [&](auto&& elem) -> decltype(auto) {
-                return ElementSubKey::base::sub_key(elem, sort_data);
+            auto element_key = [&](const auto& elem) -> decltype(auto) {
+                return whole_element_key(elem, sort_data, typename ElementSubKey::next{});
             };
             sort_data->current_index = current_index = CommonPrefix(begin, end, current_index, current_key, element_key);
             auto end_of_shorter_ones = detail::partition(begin, end, [&](auto&& elem) {
@@ -792,10 +845,7 @@ namespace detail
             }
             std::ptrdiff_t num_elements = end - end_of_shorter_ones;
             if (not StdSortIfLessThanThreshold<StdSortThreshold>(end_of_shorter_ones, end, num_elements, projection)) {
-                using SortType = void (*)(RandomAccessIterator, RandomAccessIterator, std::ptrdiff_t, Projection, void*);
-                SortType sort_next_element = static_cast<SortType>(&sort_from_recursion);
-                InplaceSorter<StdSortThreshold, AmericanFlagSortThreshold, ElementSubKey>::sort(end_of_shorter_ones, end, num_elements,
-                                                                                                projection, sort_next_element, sort_data);
+                ElementSorter<ElementSubKey>::sort(end_of_shorter_ones, end, num_elements, projection, sort_data);
             }
         }
 
-- 
2.43.0


From b9c627681d37ca549f1a5de87842759e30f64a91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:04 +0000
Subject: [PATCH 22/68] fix: ska_sort reading out of bounds with lists of
 booleans

---
 include/cpp-sort/detail/ska_sort.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/cpp-sort/detail/ska_sort.h b/include/cpp-sort/detail/ska_sort.h
index 73f6e71..61da0f7 100644
--- a/include/cpp-sort/detail/ska_sort.h
+++ b/include/cpp-sort/detail/ska_sort.h
@@ -851,9 +851,14 @@ namespace detail
 
         template<typename RandomAccessIterator, typename Projection>
         static auto sort_from_recursion(RandomAccessIterator begin, RandomAccessIterator end,
-                                        std::ptrdiff_t, Projection projection, void* next_sort_data)
+                                        std::ptrdiff_t num_elements, Projection projection, void* next_sort_data)
             -> void
         {
+            if (num_elements <= 1) {
+                // The range can be empty when partitioning by a boolean
+                return;
+            }
+
             ListSortData<RandomAccessIterator, Projection> offset
                 = *static_cast<ListSortData<RandomAccessIterator, Projection>*>(next_sort_data);
             ++offset.current_index;
-- 
2.43.0


From 35f2d28995826fb4d9d7667fc0f0cd9ab0bb73e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:13 +0000
Subject: [PATCH 23/68] fix: signed overflow and too big shifts when spreadsort
 computes the range of keys

---
 include/cpp-sort/detail/spreadsort/detail/float_sort.h   | 6 +++---
 include/cpp-sort/detail/spreadsort/detail/integer_sort.h | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/cpp-sort/detail/spreadsort/detail/float_sort.h b/include/cpp-sort/detail/spreadsort/detail/float_sort.h
index 2264910..ba5986f 100644
--- a/include/cpp-sort/detail/spreadsort/detail/float_sort.h
+++ b/include/cpp-sort/detail/spreadsort/detail/float_sort.h
@@ -143,7 +143,7 @@ namespace detail
       auto&& proj = utility::as_function(projection);
 
       unsigned log_divisor = get_log_divisor<float_log_mean_bin_size>(
-          last - first, rough_log_2_size(Size_type(max - min)));
+          last - first, rough_log_2_size(Size_type(max) - Size_type(min)));
       Div_type div_min = min >> log_divisor;
       Div_type div_max = max >> log_divisor;
       unsigned bin_count = unsigned(div_max - div_min) + 1;
@@ -209,7 +209,7 @@ namespace detail
       auto&& proj = utility::as_function(projection);
 
       unsigned log_divisor = get_log_divisor<float_log_mean_bin_size>(
-          last - first, rough_log_2_size(Size_type(max - min)));
+          last - first, rough_log_2_size(Size_type(max) - Size_type(min)));
       Div_type div_min = min >> log_divisor;
       Div_type div_max = max >> log_divisor;
       unsigned bin_count = unsigned(div_max - div_min) + 1;
@@ -274,7 +274,7 @@ namespace detail
       auto&& proj = utility::as_function(projection);
 
       unsigned log_divisor = get_log_divisor<float_log_mean_bin_size>(
-          last - first, rough_log_2_size(Size_type(max - min)));
+          last - first, rough_log_2_size(Size_type(max) - Size_type(min)));
       Div_type div_min = min >> log_divisor;
       Div_type div_max = max >> log_divisor;
       unsigned bin_count = unsigned(div_max - div_min) + 1;
diff --git a/include/cpp-sort/detail/spreadsort/detail/integer_sort.h b/include/cpp-sort/detail/spreadsort/detail/integer_sort.h
index d304f9a..563167f 100644
--- a/include/cpp-sort/detail/spreadsort/detail/integer_sort.h
+++ b/include/cpp-sort/detail/spreadsort/detail/integer_sort.h
@@ -113,7 +113,7 @@ namespace spreadsort
         return;
       RandomAccessIter * target_bin;
       unsigned log_divisor = get_log_divisor<int_log_mean_bin_size>(
-          last - first, rough_log_2_size(Size_type((proj(*max) >> 0) - (proj(*min) >> 0))));
+          last - first, rough_log_2_size(Size_type(proj(*max) >> 0) - Size_type(proj(*min) >> 0)));
       Div_type div_min = proj(*min) >> log_divisor;
       Div_type div_max = proj(*max) >> log_divisor;
       unsigned bin_count = unsigned(div_max - div_min) + 1;
-- 
2.43.0


From 9eff7c33a8c0808c4139fd55150d89e0cdf3694a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:06 +0000
Subject: [PATCH 24/68] fix: signed overflow in counting_sort when 128-bit
 integers span more than half of their type

---
 include/cpp-sort/detail/counting_sort.h | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/include/cpp-sort/detail/counting_sort.h b/include/cpp-sort/detail/counting_sort.h
index 2c4eaa6..78d5dba 100644
--- a/include/cpp-sort/detail/counting_sort.h
+++ b/include/cpp-sort/detail/counting_sort.h
@@ -23,13 +23,28 @@ namespace cppsort
 {
 namespace detail
 {
+    // Unsigned type wide enough for the distance between two integers
+    template<typename Integer, bool = (sizeof(Integer) > sizeof(unsigned long long))>
+    struct counting_distance_type
+    {
+        using type = unsigned long long;
+    };
+
+#ifdef __SIZEOF_INT128__
+    template<typename Integer>
+    struct counting_distance_type<Integer, true>
+    {
+        using type = __uint128_t;
+    };
+#endif
+
     // Distance between two integers such as min <= value, computed with
     // modular arithmetic because value - min might not be representable
     template<typename Integer>
     constexpr auto counting_distance(Integer min, Integer value)
-        -> typename std::common_type<Integer, unsigned long long>::type
+        -> typename counting_distance_type<Integer>::type
     {
-        using distance_type = typename std::common_type<Integer, unsigned long long>::type;
+        using distance_type = typename counting_distance_type<Integer>::type;
         return static_cast<distance_type>(value) - static_cast<distance_type>(min);
     }
 
-- 
2.43.0


From f9c093fe59b3ee7f3f360006550b5884ee03e402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:48 +0000
Subject: [PATCH 25/68] fix: hybrid_adapter can't be constructed from a nested
 hybrid_adapter of stateful sorters

---
 include/cpp-sort/adapters/hybrid_adapter.h | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/include/cpp-sort/adapters/hybrid_adapter.h b/include/cpp-sort/adapters/hybrid_adapter.h
index 0a88d90..c5ef3df 100644
--- a/include/cpp-sort/adapters/hybrid_adapter.h
+++ b/include/cpp-sort/adapters/hybrid_adapter.h
@@ -193,11 +193,12 @@ namespace cppsort
             {
                 using sorter_t = pack_element<N, Sorters...>;
 
-                return hybrid_adapter_storage_leaf<
+                using leaf_t = hybrid_adapter_storage_leaf<
                     sizeof...(Sorters) * iterator_category_value<iterator_category<sorter_t>>
                     + sizeof...(Indices) - N - 1,
                     sorter_t
-                >::get();
+                >;
+                return static_cast<leaf_t&&>(*this).get();
             }
 
             template<std::size_t N>
@@ -206,11 +207,12 @@ namespace cppsort
             {
                 using sorter_t = pack_element<N, Sorters...>;
 
-                return hybrid_adapter_storage_leaf<
+                using leaf_t = hybrid_adapter_storage_leaf<
                     sizeof...(Sorters) * iterator_category_value<iterator_category<sorter_t>>
                     + sizeof...(Indices) - N - 1,
                     sorter_t
-                >::get();
+                >;
+                return static_cast<const leaf_t&&>(*this).get();
             }
         };
 
@@ -366,7 +368,7 @@ namespace cppsort
                                                         std::index_sequence<Indices...>)
                 -> decltype(auto)
             {
-                return std::forward_as_tuple(value.template get<Indices>()...);
+                return std::forward_as_tuple(std::move(value).template get<Indices>()...);
             }
 
             template<typename... Args>
-- 
2.43.0


From 0f947b00295669a3487774ab4ccc12dcf58876b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:35 +0000
Subject: [PATCH 26/68] fix: soft error for array sizes out of the domain of
 small_array_adapter

The fixed-size sorter was instantiated even when the size of the array was not in
the domain, which is a hard error when it has no specialization for that size.
---
 .../cpp-sort/adapters/small_array_adapter.h   | 26 ++++++++++++-------
 .../cpp-sort/detail/schwartz_small_array.h    | 26 ++++++++++++-------
 2 files changed, 32 insertions(+), 20 deletions(-)

diff --git a/include/cpp-sort/adapters/small_array_adapter.h b/include/cpp-sort/adapters/small_array_adapter.h
index ccebe04..c975255 100644
--- a/include/cpp-sort/adapters/small_array_adapter.h
+++ b/include/cpp-sort/adapters/small_array_adapter.h
@@ -65,22 +65,28 @@ namespace cppsort
             detail::all(std::is_empty<FixedSizeSorter<Indices>>::value...)
         >
     {
-        template<typename T, std::size_t N, typename... Args>
+        // The size is checked first: FixedSizeSorter<N> might not exist
+        template<
+            typename T,
+            std::size_t N,
+            typename... Args,
+            typename = detail::enable_if_t<detail::is_in_pack<N, Indices...>>
+        >
         auto operator()(std::array<T, N>& array, Args&&... args) const
-            -> detail::enable_if_t<
-                detail::is_in_pack<N, Indices...>,
-                decltype(FixedSizeSorter<N>{}(array, std::forward<Args>(args)...))
-            >
+            -> decltype(FixedSizeSorter<N>{}(array, std::forward<Args>(args)...))
         {
             return FixedSizeSorter<N>{}(array, std::forward<Args>(args)...);
         }
 
-        template<typename T, std::size_t N, typename... Args>
+        // The size is checked first: FixedSizeSorter<N> might not exist
+        template<
+            typename T,
+            std::size_t N,
+            typename... Args,
+            typename = detail::enable_if_t<detail::is_in_pack<N, Indices...>>
+        >
         auto operator()(T (&array)[N], Args&&... args) const
-            -> detail::enable_if_t<
-                detail::is_in_pack<N, Indices...>,
-                decltype(FixedSizeSorter<N>{}(array, std::forward<Args>(args)...))
-            >
+            -> decltype(FixedSizeSorter<N>{}(array, std::forward<Args>(args)...))
         {
             return FixedSizeSorter<N>{}(array, std::forward<Args>(args)...);
         }
diff --git a/include/cpp-sort/detail/schwartz_small_array.h b/include/cpp-sort/detail/schwartz_small_array.h
index 1ce9942..c9ec1d0 100644
--- a/include/cpp-sort/detail/schwartz_small_array.h
+++ b/include/cpp-sort/detail/schwartz_small_array.h
@@ -32,23 +32,29 @@ namespace cppsort
             detail::all(std::is_empty<FixedSizeSorter<Indices>>::value...)
         >
     {
-        template<typename T, std::size_t N, typename... Args>
+        // The size is checked first: FixedSizeSorter<N> might not exist
+        template<
+            typename T,
+            std::size_t N,
+            typename... Args,
+            typename = detail::enable_if_t<detail::is_in_pack<N, Indices...>>
+        >
         auto operator()(std::array<T, N>& array, Args&&... args) const
-            -> detail::enable_if_t<
-                detail::is_in_pack<N, Indices...>,
-                decltype(schwartz_adapter<FixedSizeSorter<N>>{}(array, std::forward<Args>(args)...))
-            >
+            -> decltype(schwartz_adapter<FixedSizeSorter<N>>{}(array, std::forward<Args>(args)...))
         {
             using sorter = schwartz_adapter<FixedSizeSorter<N>>;
             return sorter{}(array, std::forward<Args>(args)...);
         }
 
-        template<typename T, std::size_t N, typename... Args>
+        // The size is checked first: FixedSizeSorter<N> might not exist
+        template<
+            typename T,
+            std::size_t N,
+            typename... Args,
+            typename = detail::enable_if_t<detail::is_in_pack<N, Indices...>>
+        >
         auto operator()(T (&array)[N], Args&&... args) const
-            -> detail::enable_if_t<
-                detail::is_in_pack<N, Indices...>,
-                decltype(schwartz_adapter<FixedSizeSorter<N>>{}(array, std::forward<Args>(args)...))
-            >
+            -> decltype(schwartz_adapter<FixedSizeSorter<N>>{}(array, std::forward<Args>(args)...))
         {
             using sorter = schwartz_adapter<FixedSizeSorter<N>>;
             return sorter{}(array, std::forward<Args>(args)...);
-- 
2.43.0


From acd04860e2b4f4ecbf24a1e85a9fd82661b65c8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:35 +0000
Subject: [PATCH 27/68] fix: domain of sorting_network_sorter covers all of its
 specializations

---
 include/cpp-sort/fixed/sorting_network_sorter.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cpp-sort/fixed/sorting_network_sorter.h b/include/cpp-sort/fixed/sorting_network_sorter.h
index 191ac40..d4cf5dc 100644
--- a/include/cpp-sort/fixed/sorting_network_sorter.h
+++ b/include/cpp-sort/fixed/sorting_network_sorter.h
@@ -78,7 +78,7 @@ namespace cppsort
     template<>
     struct fixed_sorter_traits<sorting_network_sorter>
     {
-        using domain = std::make_index_sequence<33>;
+        using domain = std::make_index_sequence<65>;
         using iterator_category = std::random_access_iterator_tag;
         using is_always_stable = std::false_type;
     };
-- 
2.43.0


From 6a48de79cffb5420d0484682f9a7b0cda5d4a5ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:24 +0000
Subject: [PATCH 28/68] fix: infinite recursion of swap_if with
 std::ranges::less and greater

The overloads for scalars compared with std::ranges::less or std::ranges::greater
called themselves instead of the ones for std::less<> and std::greater<>.
---
 include/cpp-sort/detail/swap_if.h | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/cpp-sort/detail/swap_if.h b/include/cpp-sort/detail/swap_if.h
index ff46cff..4074e24 100644
--- a/include/cpp-sort/detail/swap_if.h
+++ b/include/cpp-sort/detail/swap_if.h
@@ -114,31 +114,31 @@ namespace detail
 
 #ifdef __cpp_lib_ranges
     template<typename Integer>
-    auto swap_if(Integer& x, Integer& y, std::ranges::less comp, utility::identity) noexcept
+    auto swap_if(Integer& x, Integer& y, std::ranges::less, utility::identity) noexcept
         -> detail::enable_if_t<std::is_integral<Integer>::value>
     {
-        return swap_if(x, y, comp, utility::identity{});
+        return swap_if(x, y, std::less<>{}, utility::identity{});
     }
 
     template<typename Float>
-    auto swap_if(Float& x, Float& y, std::ranges::less comp, utility::identity) noexcept
+    auto swap_if(Float& x, Float& y, std::ranges::less, utility::identity) noexcept
         -> detail::enable_if_t<std::is_floating_point<Float>::value>
     {
-        return swap_if(x, y, comp, utility::identity{});
+        return swap_if(x, y, std::less<>{}, utility::identity{});
     }
 
     template<typename Integer>
-    auto swap_if(Integer& x, Integer& y, std::ranges::greater comp, utility::identity) noexcept
+    auto swap_if(Integer& x, Integer& y, std::ranges::greater, utility::identity) noexcept
         -> detail::enable_if_t<std::is_integral<Integer>::value>
     {
-        return swap_if(x, y, comp, utility::identity{});
+        return swap_if(x, y, std::greater<>{}, utility::identity{});
     }
 
     template<typename Float>
-    auto swap_if(Float& x, Float& y, std::ranges::greater comp, utility::identity) noexcept
+    auto swap_if(Float& x, Float& y, std::ranges::greater, utility::identity) noexcept
         -> detail::enable_if_t<std::is_floating_point<Float>::value>
     {
-        return swap_if(x, y, comp, utility::identity{});
+        return swap_if(x, y, std::greater<>{}, utility::identity{});
     }
 
     template<typename Integer>
-- 
2.43.0


From 0d94739bc1160d087bba8a372bec6317bd043b6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:24 +0000
Subject: [PATCH 29/68] fix: swap_if loses one of two equivalent floating point
 values

With zeros of different signs both variables ended up with the value of the first one.
---
 include/cpp-sort/detail/swap_if.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/cpp-sort/detail/swap_if.h b/include/cpp-sort/detail/swap_if.h
index 4074e24..279cdc5 100644
--- a/include/cpp-sort/detail/swap_if.h
+++ b/include/cpp-sort/detail/swap_if.h
@@ -61,7 +61,7 @@ namespace detail
     {
         Float dx = x;
         x = (std::min)(x, y);
-        y = (std::max)(dx, y);
+        y = (std::max)(y, dx);
     }
 
     template<typename Integer>
@@ -79,7 +79,7 @@ namespace detail
     {
         Float dx = x;
         x = (std::max)(x, y);
-        y = (std::min)(dx, y);
+        y = (std::min)(y, dx);
     }
 
 #if CPPSORT_STD_IDENTITY_AVAILABLE
-- 
2.43.0


From a3162b354eea0a25e6ea38d848c9123f02131508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:05 +0000
Subject: [PATCH 30/68] fix: narrowing in the index pairs of generated networks

index_pairs() with a type narrower than int - also used to sort through iterators with such
a difference type - is ill-formed, which clang diagnoses as an error.
---
 include/cpp-sort/fixed/merge_exchange_network_sorter.h | 2 +-
 include/cpp-sort/fixed/odd_even_merge_network_sorter.h | 5 ++++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/cpp-sort/fixed/merge_exchange_network_sorter.h b/include/cpp-sort/fixed/merge_exchange_network_sorter.h
index 2336db7..d7aecea 100644
--- a/include/cpp-sort/fixed/merge_exchange_network_sorter.h
+++ b/include/cpp-sort/fixed/merge_exchange_network_sorter.h
@@ -84,7 +84,7 @@ namespace cppsort
                     while (d > 0) {
                         for (DifferenceType i = 0; i < n - d; ++i) {
                             if ((i & p) == r) {
-                                pairs[current_pair_idx] = { i, i + d };
+                                pairs[current_pair_idx] = { i, static_cast<DifferenceType>(i + d) };
                                 ++current_pair_idx;
                             }
                         }
diff --git a/include/cpp-sort/fixed/odd_even_merge_network_sorter.h b/include/cpp-sort/fixed/odd_even_merge_network_sorter.h
index cf23296..b6dddd3 100644
--- a/include/cpp-sort/fixed/odd_even_merge_network_sorter.h
+++ b/include/cpp-sort/fixed/odd_even_merge_network_sorter.h
@@ -74,7 +74,10 @@ namespace cppsort
                         for (auto j = k % p; j < n - k; j += 2 * k) {
                             for (DifferenceType i = 0; i < k; ++i) {
                                 if ((i + j) / (p * 2) == (i + j + k) / (p * 2)) {
-                                    pairs[current_pair_idx] = { i + j, i + j + k };
+                                    pairs[current_pair_idx] = {
+                                        static_cast<DifferenceType>(i + j),
+                                        static_cast<DifferenceType>(i + j + k)
+                                    };
                                     ++current_pair_idx;
                                 }
                             }
-- 
2.43.0


From 5dc8286646316e01c30b54ba18cbb78c7803e4de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:06 +0000
Subject: [PATCH 31/68] fix: swap_index_pairs_force_unroll with an empty
 network and default arguments

---
 include/cpp-sort/utility/sorting_networks.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/cpp-sort/utility/sorting_networks.h b/include/cpp-sort/utility/sorting_networks.h
index cc79f36..f10cf7a 100644
--- a/include/cpp-sort/utility/sorting_networks.h
+++ b/include/cpp-sort/utility/sorting_networks.h
@@ -118,9 +118,14 @@ namespace utility
         detail::index_pair_swapper_force_unroll<0>::do_it(first, index_pairs, std::move(compare), std::move(projection));
     }
 
-    template<typename RandomAccessIterator, typename IndexType, typename Compare, typename Projection>
+    template<
+        typename RandomAccessIterator,
+        typename IndexType,
+        typename Compare = std::less<>,
+        typename Projection = utility::identity
+    >
     auto swap_index_pairs_force_unroll(RandomAccessIterator, const std::array<index_pair<IndexType>, 0>&,
-                                       Compare, Projection)
+                                       Compare={}, Projection={})
         -> void
     {}
 }}
-- 
2.43.0


From 11e45bc06e3d7868934bba49727becb87d4b883b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:20 +0000
Subject: [PATCH 32/68] fix: number of pairs of generated networks with narrow
 index types

It was computed with the index type, which overflows: the networks could not sort through
iterators with a narrow difference type even though all indices are representable.
---
 include/cpp-sort/fixed/merge_exchange_network_sorter.h | 7 ++++---
 include/cpp-sort/fixed/odd_even_merge_network_sorter.h | 7 ++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/include/cpp-sort/fixed/merge_exchange_network_sorter.h b/include/cpp-sort/fixed/merge_exchange_network_sorter.h
index d7aecea..937174d 100644
--- a/include/cpp-sort/fixed/merge_exchange_network_sorter.h
+++ b/include/cpp-sort/fixed/merge_exchange_network_sorter.h
@@ -36,9 +36,10 @@ namespace cppsort
     {
         template<typename DifferenceType>
         constexpr auto merge_exchange_pairs_number(DifferenceType n) noexcept
-            -> DifferenceType
+            -> std::size_t
         {
-            DifferenceType nb_pairs = 0;
+            // There can be more pairs than DifferenceType can represent
+            std::size_t nb_pairs = 0;
             DifferenceType t = detail::ceil_log2(n);
 
             for (DifferenceType p = 1 << (t - 1); p > 0; p /= 2) {
@@ -70,7 +71,7 @@ namespace cppsort
                 -> auto
             {
                 constexpr DifferenceType n = N;
-                constexpr DifferenceType nb_pairs = merge_exchange_pairs_number(n);
+                constexpr std::size_t nb_pairs = merge_exchange_pairs_number(n);
 
                 utility::index_pair<DifferenceType> pairs[nb_pairs] = {};
                 std::size_t current_pair_idx = 0;
diff --git a/include/cpp-sort/fixed/odd_even_merge_network_sorter.h b/include/cpp-sort/fixed/odd_even_merge_network_sorter.h
index b6dddd3..cc1950c 100644
--- a/include/cpp-sort/fixed/odd_even_merge_network_sorter.h
+++ b/include/cpp-sort/fixed/odd_even_merge_network_sorter.h
@@ -36,9 +36,10 @@ namespace cppsort
     {
         template<typename DifferenceType>
         constexpr auto odd_even_merge_pairs_number(DifferenceType n) noexcept
-            -> DifferenceType
+            -> std::size_t
         {
-            DifferenceType nb_pairs = 0;
+            // There can be more pairs than DifferenceType can represent
+            std::size_t nb_pairs = 0;
 
             for (DifferenceType p = 1; p < n; p *= 2) {
                 for (auto k = p; k > 0; k /= 2) {
@@ -64,7 +65,7 @@ namespace cppsort
                 -> auto
             {
                 constexpr DifferenceType n = N;
-                constexpr DifferenceType nb_pairs = odd_even_merge_pairs_number(n);
+                constexpr std::size_t nb_pairs = odd_even_merge_pairs_number(n);
 
                 utility::index_pair<DifferenceType> pairs[nb_pairs] = {};
                 std::size_t current_pair_idx = 0;
-- 
2.43.0


From d1d5a6f13a014878c0aa53e2dd8a267a21160d67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:20 +0000
Subject: [PATCH 33/68] fix: probe::exc with equivalent elements closing a
 cycle

---
 include/cpp-sort/probes/exc.h | 52 ++++++++++++++++++-----------------
 1 file changed, 27 insertions(+), 25 deletions(-)

diff --git a/include/cpp-sort/probes/exc.h b/include/cpp-sort/probes/exc.h
index 7930159..0547546 100644
--- a/include/cpp-sort/probes/exc.h
+++ b/include/cpp-sort/probes/exc.h
@@ -66,35 +66,37 @@ namespace probe
             // Element where the current cycle starts
             auto start = first;
 
-            difference_type cycles = 0;
+            difference_type exchanges = 0;
             while (start != last) {
-                // Find the element to put in current's place
-                auto current = start;
-                auto next_pos = std::distance(first, current);
-                auto next = iterators[next_pos];
-                sorted[next_pos] = true;
+                // Number of elements of the current cycle which aren't
+                // already in a suitable place
+                difference_type misplaced = 0;
 
                 // Process the current cycle
-                if (next != current) {
-                    while (next != start) {
-                        // If an element is in the place of another element that compares
-                        // equivalent, it means that this element was actually already in
-                        // a suitable place, so we count one more cycle as if it was an
-                        // already suitably placed element, this handles collections with
-                        // several elements which compare equivalent
-                        if (not comp(proj(*next), proj(*current)) &&
-                            not comp(proj(*current), proj(*next))) {
-                            ++cycles;
-                        }
-                        // Locate the next element of the cycle
-                        current = next;
-                        auto next_pos = std::distance(first, next);
-                        next = iterators[next_pos];
-                        sorted[next_pos] = true;
+                auto current = start;
+                do {
+                    // Find the element to put in current's place
+                    auto pos = std::distance(first, current);
+                    auto next = iterators[pos];
+                    sorted[pos] = true;
+
+                    // If an element is in the place of another element that compares
+                    // equivalent, it means that this element was actually already in
+                    // a suitable place, this handles collections with several elements
+                    // which compare equivalent
+                    if (comp(proj(*next), proj(*current)) ||
+                        comp(proj(*current), proj(*next))) {
+                        ++misplaced;
                     }
-                }
 
-                ++cycles;
+                    // Locate the next element of the cycle
+                    current = next;
+                } while (current != start);
+
+                // It takes n - 1 exchanges to put the n elements of a cycle in place
+                if (misplaced > 0) {
+                    exchanges += misplaced - 1;
+                }
 
                 // Find the next cycle
                 auto&& sorted_it = sorted.begin() + std::distance(first, start);
@@ -103,7 +105,7 @@ namespace probe
                     ++sorted_it;
                 } while (start != last && *sorted_it);
             }
-            return size - cycles;
+            return exchanges;
         }
 
         struct exc_impl
-- 
2.43.0


From ee9eea0bedce55ab14c4590362d589979013da53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:10 +0000
Subject: [PATCH 34/68] fix: probe::block with equivalent elements in sorted
 sequences

---
 include/cpp-sort/probes/block.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/cpp-sort/probes/block.h b/include/cpp-sort/probes/block.h
index e83fb26..a59c8d9 100644
--- a/include/cpp-sort/probes/block.h
+++ b/include/cpp-sort/probes/block.h
@@ -19,7 +19,7 @@
 #include <cpp-sort/utility/static_const.h>
 #include "../detail/immovable_vector.h"
 #include "../detail/iterator_traits.h"
-#include "../detail/pdqsort.h"
+#include "../detail/merge_sort.h"
 #include "../detail/type_traits.h"
 
 namespace cppsort
@@ -51,9 +51,10 @@ namespace probe
                 iterators.emplace_back(it);
             }
 
-            // Sort the iterators on pointed values
-            cppsort::detail::pdqsort(
-                iterators.begin(), iterators.end(),
+            // Sort the iterators on pointed values, with a stable algorithm
+            // to preserve the blocks made of equivalent elements
+            cppsort::detail::merge_sort(
+                iterators.begin(), iterators.end(), size,
                 compare, utility::indirect{} | projection
             );
 
-- 
2.43.0


From 13e7a4c1e88ec69be894e180e6c220a1af6a06e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:10 +0000
Subject: [PATCH 35/68] fix: probe::ham.max_for_size for a single element

---
 include/cpp-sort/probes/ham.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cpp-sort/probes/ham.h b/include/cpp-sort/probes/ham.h
index fde0c2a..50365db 100644
--- a/include/cpp-sort/probes/ham.h
+++ b/include/cpp-sort/probes/ham.h
@@ -110,7 +110,7 @@ namespace probe
             static constexpr auto max_for_size(Integer n)
                 -> Integer
             {
-                return n == 0 ? 0 : n;
+                return n < 2 ? 0 : n;
             }
         };
     }
-- 
2.43.0


From 8d3446356fa0d807d55219ecc0b8fd1cb6eabd4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:10 +0000
Subject: [PATCH 36/68] fix: probe::osc.max_for_size for even sizes and sizes
 below 2

---
 docs/Measures-of-presortedness.md | 2 +-
 include/cpp-sort/probes/osc.h     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/docs/Measures-of-presortedness.md b/docs/Measures-of-presortedness.md
index 1be6f1b..5a55422 100644
--- a/docs/Measures-of-presortedness.md
+++ b/docs/Measures-of-presortedness.md
@@ -233,7 +233,7 @@ Computes the *Oscillation* measure described by C. Levcopoulos and O. Petersson
 
 When there isn't enough extra memory available, `probe::osc` falls back to an in-place O(n²) algorithm.
 
-`max_for_size`: (|*X*| * (|*X*| - 2) - 1) / 2 when the values in *X* are strongly oscillating.
+`max_for_size`: |*X*| * (|*X*| - 2) / 2 when the values in *X* are strongly oscillating.
 
 ***WARNING:** the O(n²) fallback of `probe::osc` is deprecated since version 1.12.0 and removed in version 2.0.0.*
 
diff --git a/include/cpp-sort/probes/osc.h b/include/cpp-sort/probes/osc.h
index afa170b..771b801 100644
--- a/include/cpp-sort/probes/osc.h
+++ b/include/cpp-sort/probes/osc.h
@@ -210,7 +210,7 @@ namespace probe
             static constexpr auto max_for_size(Integer n)
                 -> Integer
             {
-                return n == 0 ? 0 : (n * (n - 2) - 1) / 2;
+                return n < 2 ? 0 : n * (n - 2) / 2;
             }
         };
     }
-- 
2.43.0


From ac7f6fbaf74fa37da76d0d419203a5db7b453011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:18 +0000
Subject: [PATCH 37/68] fix: probe::exc with equivalent elements in longer
 sequences

---
 include/cpp-sort/probes/exc.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/cpp-sort/probes/exc.h b/include/cpp-sort/probes/exc.h
index 0547546..3edc61c 100644
--- a/include/cpp-sort/probes/exc.h
+++ b/include/cpp-sort/probes/exc.h
@@ -20,7 +20,7 @@
 #include <cpp-sort/utility/static_const.h>
 #include "../detail/immovable_vector.h"
 #include "../detail/iterator_traits.h"
-#include "../detail/pdqsort.h"
+#include "../detail/merge_sort.h"
 #include "../detail/type_traits.h"
 
 namespace cppsort
@@ -52,9 +52,10 @@ namespace probe
                 iterators.emplace_back(it);
             }
 
-            // Sort the iterators on pointed values
-            cppsort::detail::pdqsort(
-                iterators.begin(), iterators.end(),
+            // Sort the iterators on pointed values, with a stable algorithm
+            // to avoid needlessly exchanging equivalent elements
+            cppsort::detail::merge_sort(
+                iterators.begin(), iterators.end(), size,
                 compare, utility::indirect{} | projection
             );
 
-- 
2.43.0


From b16a26b70cc36453a259b8c7161978764be39a0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:02 +0000
Subject: [PATCH 38/68] fix: natural_less comparing past the end of equally
 long numbers

---
 include/cpp-sort/comparators/natural_less.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cpp-sort/comparators/natural_less.h b/include/cpp-sort/comparators/natural_less.h
index 8e511a2..30eab0d 100644
--- a/include/cpp-sort/comparators/natural_less.h
+++ b/include/cpp-sort/comparators/natural_less.h
@@ -59,7 +59,7 @@ namespace cppsort
                     }
 
                     // Sizes are equal and not 0
-                    while (begin1 != end1) {
+                    while (begin1 != last1) {
                         if (*begin1 != *begin2) {
                             return *begin1 < *begin2;
                         }
-- 
2.43.0


From 6c9eaae8a25596347e246b2d3bd4c74d09cdab93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:02 +0000
Subject: [PATCH 39/68] fix: natural_less ignoring what follows equal numbers
 made of zeros

---
 include/cpp-sort/comparators/natural_less.h | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/include/cpp-sort/comparators/natural_less.h b/include/cpp-sort/comparators/natural_less.h
index 30eab0d..c40a22e 100644
--- a/include/cpp-sort/comparators/natural_less.h
+++ b/include/cpp-sort/comparators/natural_less.h
@@ -54,11 +54,8 @@ namespace cppsort
                     if (size1 != size2) {
                         return size1 < size2;
                     }
-                    if (size1 == 0) {
-                        return false;
-                    }
 
-                    // Sizes are equal and not 0
+                    // Sizes are equal
                     while (begin1 != last1) {
                         if (*begin1 != *begin2) {
                             return *begin1 < *begin2;
-- 
2.43.0


From 4f26278191ab08fe5ae79ae28e17cf820116c498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:02 +0000
Subject: [PATCH 40/68] fix: natural_less with negative char values

---
 include/cpp-sort/comparators/natural_less.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/cpp-sort/comparators/natural_less.h b/include/cpp-sort/comparators/natural_less.h
index c40a22e..5ea846c 100644
--- a/include/cpp-sort/comparators/natural_less.h
+++ b/include/cpp-sort/comparators/natural_less.h
@@ -29,11 +29,11 @@ namespace cppsort
                 auto last1 = begin1;
                 auto last2 = begin2;
                 do {
-                    if (not std::isdigit(*last1)) break;
+                    if (not std::isdigit(static_cast<unsigned char>(*last1))) break;
                     ++last1;
                 } while (last1 != end1);
                 do {
-                    if (not std::isdigit(*last2)) break;
+                    if (not std::isdigit(static_cast<unsigned char>(*last2))) break;
                     ++last2;
                 } while (last2 != end2);
 
-- 
2.43.0


From ce3cadef0544384587ba977c411354041e53ae5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:00 +0000
Subject: [PATCH 41/68] fix: ambiguous weak_* and partial_* comparators of
 floating point numbers

---
 include/cpp-sort/comparators/partial_greater.h | 5 ++++-
 include/cpp-sort/comparators/partial_less.h    | 5 ++++-
 include/cpp-sort/comparators/weak_greater.h    | 5 ++++-
 include/cpp-sort/comparators/weak_less.h       | 5 ++++-
 4 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/include/cpp-sort/comparators/partial_greater.h b/include/cpp-sort/comparators/partial_greater.h
index fe5c2bf..0d5216e 100644
--- a/include/cpp-sort/comparators/partial_greater.h
+++ b/include/cpp-sort/comparators/partial_greater.h
@@ -32,7 +32,10 @@ namespace cppsort
         ////////////////////////////////////////////////////////////
         // Generic overload: a weak order is also a partial order
 
-        template<typename T>
+        template<
+            typename T,
+            typename = detail::enable_if_t<not std::is_floating_point<T>::value>
+        >
         auto partial_greater(const T& lhs, const T& rhs)
             noexcept(noexcept(cppsort::weak_greater(lhs, rhs)))
             -> decltype(cppsort::weak_greater(lhs, rhs))
diff --git a/include/cpp-sort/comparators/partial_less.h b/include/cpp-sort/comparators/partial_less.h
index 7bebbaf..e7e939b 100644
--- a/include/cpp-sort/comparators/partial_less.h
+++ b/include/cpp-sort/comparators/partial_less.h
@@ -32,7 +32,10 @@ namespace cppsort
         ////////////////////////////////////////////////////////////
         // Generic overload: a weak order is also a partial order
 
-        template<typename T>
+        template<
+            typename T,
+            typename = detail::enable_if_t<not std::is_floating_point<T>::value>
+        >
         auto partial_less(const T& lhs, const T& rhs)
             noexcept(noexcept(cppsort::weak_less(lhs, rhs)))
             -> decltype(cppsort::weak_less(lhs, rhs))
diff --git a/include/cpp-sort/comparators/weak_greater.h b/include/cpp-sort/comparators/weak_greater.h
index 00ed693..72b6ac3 100644
--- a/include/cpp-sort/comparators/weak_greater.h
+++ b/include/cpp-sort/comparators/weak_greater.h
@@ -40,7 +40,10 @@ namespace cppsort
         ////////////////////////////////////////////////////////////
         // Generic overload: a total order is also a weak order
 
-        template<typename T>
+        template<
+            typename T,
+            typename = detail::enable_if_t<not std::is_floating_point<T>::value>
+        >
         auto weak_greater(const T& lhs, const T& rhs)
             noexcept(noexcept(cppsort::total_greater(lhs, rhs)))
             -> decltype(cppsort::total_greater(lhs, rhs))
diff --git a/include/cpp-sort/comparators/weak_less.h b/include/cpp-sort/comparators/weak_less.h
index f4ecda3..a24d77f 100644
--- a/include/cpp-sort/comparators/weak_less.h
+++ b/include/cpp-sort/comparators/weak_less.h
@@ -40,7 +40,10 @@ namespace cppsort
         ////////////////////////////////////////////////////////////
         // Generic overload: a total order is also a weak order
 
-        template<typename T>
+        template<
+            typename T,
+            typename = detail::enable_if_t<not std::is_floating_point<T>::value>
+        >
         auto weak_less(const T& lhs, const T& rhs)
             noexcept(noexcept(cppsort::total_less(lhs, rhs)))
             -> decltype(cppsort::total_less(lhs, rhs))
-- 
2.43.0


From 42a91bac0fc45bb82c505b4fd3a6d029692610f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:52 +0000
Subject: [PATCH 42/68] fix: stable_sort with a sorter and a pair of iterators

The overload taking a collection, a comparison and a projection was also
viable when given a sorter and a pair of iterators and was selected when
the sorter was not a const lvalue, which made the call ill-formed.
Constrain it like the corresponding overload of cppsort::sort.
---
 include/cpp-sort/stable_sort.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/cpp-sort/stable_sort.h b/include/cpp-sort/stable_sort.h
index 0265046..8f0cbc7 100644
--- a/include/cpp-sort/stable_sort.h
+++ b/include/cpp-sort/stable_sort.h
@@ -47,7 +47,9 @@ namespace cppsort
         typename Projection,
         typename = detail::enable_if_t<
             not is_comparison_sorter_v<Iterable, Compare, Projection> &&
-            not is_projection_sorter_v<Iterable, Compare, Projection>
+            not is_projection_sorter_v<Iterable, Compare, Projection> &&
+            not is_sorter_iterator_v<Iterable, Compare> &&
+            is_projection_v<Projection, Iterable, Compare>
         >
     >
     CPPSORT_DEPRECATED("cppsort::stable_sort() is deprecated and will be removed in version 2.0.0")
-- 
2.43.0


From f8df87958cf6bbf3ad28ad4d37622b2dc309d0ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:46 +0000
Subject: [PATCH 43/68] fix: self_sort_adapter passing projections to the sort
 method of lists

A lone projection was passed to std::list::sort or std::forward_list::sort,
which only accept comparisons, so sorting a list with a projection through
self_sort_adapter (hence default_sorter) was ill-formed. Call the adapted
sorter instead, as is_stable already assumed.
---
 include/cpp-sort/adapters/self_sort_adapter.h | 21 ++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/include/cpp-sort/adapters/self_sort_adapter.h b/include/cpp-sort/adapters/self_sort_adapter.h
index 402539a..092d20e 100644
--- a/include/cpp-sort/adapters/self_sort_adapter.h
+++ b/include/cpp-sort/adapters/self_sort_adapter.h
@@ -33,12 +33,31 @@ namespace cppsort
         using has_sort_method_t
             = decltype(std::declval<Iterable&>().sort(utility::as_function(std::declval<Args&>())...));
 
+        // The sort method of standard lists only accepts comparisons,
+        // but cannot be SFINAEd away when given a projection
+
+        template<typename Iterable, typename... Args>
+        struct is_list_projection:
+            std::false_type
+        {};
+
+        template<typename T, typename Allocator, typename Function>
+        struct is_list_projection<std::list<T, Allocator>, Function>:
+            is_projection<Function, std::list<T, Allocator>&>
+        {};
+
+        template<typename T, typename Allocator, typename Function>
+        struct is_list_projection<std::forward_list<T, Allocator>, Function>:
+            is_projection<Function, std::forward_list<T, Allocator>&>
+        {};
+
         template<
             typename Iterable,
             typename... Args
         >
         constexpr bool has_sort_method
-            = is_detected_v<has_sort_method_t, Iterable, Args...>;
+            = not is_list_projection<remove_cvref_t<Iterable>, std::decay_t<Args>...>::value
+           && is_detected_v<has_sort_method_t, Iterable, Args...>;
 
         template<
             typename Iterable,
-- 
2.43.0


From 468fb2459300b0acf3fc9488b19e785200c35657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:46 +0000
Subject: [PATCH 44/68] fix: container_aware_adapter rejecting temporary views

Contrary to other sorters and adapters, it could not sort temporary ranges.
---
 .../cpp-sort/adapters/container_aware_adapter.h    | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/include/cpp-sort/adapters/container_aware_adapter.h b/include/cpp-sort/adapters/container_aware_adapter.h
index 76ff644..b8aa34f 100644
--- a/include/cpp-sort/adapters/container_aware_adapter.h
+++ b/include/cpp-sort/adapters/container_aware_adapter.h
@@ -331,6 +331,20 @@ namespace cppsort
                 return this->get()(iterable, std::move(compare), std::move(projection));
             }
 
+            ////////////////////////////////////////////////////////////
+            // Temporary collections, typically views: same as lvalues
+
+            template<
+                typename Iterable,
+                typename... Args,
+                typename = enable_if_t<not std::is_lvalue_reference<Iterable>::value>
+            >
+            auto operator()(Iterable&& iterable, Args... args) const
+                -> decltype((*this)(iterable, std::move(args)...))
+            {
+                return (*this)(iterable, std::move(args)...);
+            }
+
             ////////////////////////////////////////////////////////////
             // Pairs of iterators: always call the adapted sorter
 
-- 
2.43.0


From f7f47a72104d2632c71174ff74e9dc7f53bfaf6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:46 +0000
Subject: [PATCH 45/68] fix: hard errors when checking whether
 out_of_place_adapter is callable

Its call operators accepted any argument and only failed in their bodies,
so that the sorter traits, hence cppsort::sort(out_of_place_adapter<...>{},
range, function), were ill-formed.
---
 .../cpp-sort/adapters/out_of_place_adapter.h  | 27 +++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/include/cpp-sort/adapters/out_of_place_adapter.h b/include/cpp-sort/adapters/out_of_place_adapter.h
index b09d755..046e1c8 100644
--- a/include/cpp-sort/adapters/out_of_place_adapter.h
+++ b/include/cpp-sort/adapters/out_of_place_adapter.h
@@ -29,6 +29,17 @@ namespace cppsort
 
     namespace detail
     {
+        // Result of the adapted sorter when called on the memory buffer, used
+        // to SFINAE away the calls that it does not support
+        template<typename Sorter, typename Iterator, typename... Args>
+        using out_of_place_result_t = decltype(
+            std::declval<const Sorter&>()(
+                std::declval<rvalue_type_t<Iterator>*>(),
+                std::declval<rvalue_type_t<Iterator>*>(),
+                std::declval<Args>()...
+            )
+        );
+
         template<typename Sorter, typename ForwardIterator, typename Size, typename... Args>
         auto sort_out_of_place(ForwardIterator first, ForwardIterator last,
                                Size size, const Sorter& sorter, Args&&... args)
@@ -79,7 +90,11 @@ namespace cppsort
         ////////////////////////////////////////////////////////////
         // Wrap and call the sorter
 
-        template<typename Iterator, typename... Args>
+        template<
+            typename Iterator,
+            typename... Args,
+            typename = detail::out_of_place_result_t<Sorter, Iterator, Args...>
+        >
         auto operator()(Iterator first, Iterator last, Args&&... args) const
             -> decltype(auto)
         {
@@ -87,7 +102,15 @@ namespace cppsort
             return detail::sort_out_of_place(first, last, size, this->get(), std::forward<Args>(args)...);
         }
 
-        template<typename Iterable, typename... Args>
+        template<
+            typename Iterable,
+            typename... Args,
+            typename = detail::out_of_place_result_t<
+                Sorter,
+                detail::remove_cvref_t<decltype(std::begin(std::declval<Iterable&>()))>,
+                Args...
+            >
+        >
         auto operator()(Iterable&& iterable, Args&&... args) const
             -> decltype(auto)
         {
-- 
2.43.0


From ad4d310500cf4d5a240335cc4e34528982d38fff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:54 +0000
Subject: [PATCH 46/68] fix: assignment of a metric of another value type

metric::operator= accessed the private member of another specialization,
which made it ill-formed.
---
 include/cpp-sort/utility/metrics_tools.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/cpp-sort/utility/metrics_tools.h b/include/cpp-sort/utility/metrics_tools.h
index 4963c4b..2d0613d 100644
--- a/include/cpp-sort/utility/metrics_tools.h
+++ b/include/cpp-sort/utility/metrics_tools.h
@@ -31,6 +31,9 @@ namespace utility
 
             T _value;
 
+            template<typename U, typename UTag>
+            friend class metric;
+
         public:
 
             ////////////////////////////////////////////////////////////
-- 
2.43.0


From 40e596b18695b7ee4b7a309dc5f3f1afc47bd846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:54 +0000
Subject: [PATCH 47/68] fix: metrics can't be constructed from a non-const
 lvalue

The constructor taking any arguments was preferred over the copy
constructor.
---
 include/cpp-sort/utility/metrics_tools.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/cpp-sort/utility/metrics_tools.h b/include/cpp-sort/utility/metrics_tools.h
index 2d0613d..7618e16 100644
--- a/include/cpp-sort/utility/metrics_tools.h
+++ b/include/cpp-sort/utility/metrics_tools.h
@@ -261,7 +261,12 @@ namespace utility
             metrics(const metrics&) = default;
             metrics(metrics&&) = default;
 
-            template<typename... Args>
+            template<
+                typename... Args,
+                typename = cppsort::detail::enable_if_t<
+                    std::is_constructible<std::tuple<metric<TT, Tags>...>, Args&&...>::value
+                >
+            >
             constexpr explicit metrics(Args&&... args):
                 metrics_(std::forward<Args>(args)...)
             {}
-- 
2.43.0


From c58413e9e91acc4d85550e8b0739eaa3e985c674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:56 +0000
Subject: [PATCH 48/68] fix: cartesian_tree_sorter with projections that are
 not const-callable

Which included metrics::projections<cartesian_tree_sorter>.
---
 include/cpp-sort/detail/cartesian_tree_sort.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/cpp-sort/detail/cartesian_tree_sort.h b/include/cpp-sort/detail/cartesian_tree_sort.h
index 2f273ca..440afd6 100644
--- a/include/cpp-sort/detail/cartesian_tree_sort.h
+++ b/include/cpp-sort/detail/cartesian_tree_sort.h
@@ -128,7 +128,8 @@ namespace detail
         pq.push_back(tree.root());
 
         auto&& comp = cppsort::flip(compare);
-        auto proj_value = [proj=utility::as_function(projection)](auto* node) -> decltype(auto) {
+        auto&& proj = utility::as_function(projection);
+        auto proj_value = [&proj](auto* node) -> decltype(auto) {
             return proj(static_cast<node_type*>(node)->value);
         };
 
-- 
2.43.0


From 2f45b46072212f37d4cb93be95f6072e5fc8fe4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:39 +0000
Subject: [PATCH 49/68] fix: as_projection, as_comparison and operator| with
 plain functions

---
 include/cpp-sort/utility/functional.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/cpp-sort/utility/functional.h b/include/cpp-sort/utility/functional.h
index cc50947..83516a7 100644
--- a/include/cpp-sort/utility/functional.h
+++ b/include/cpp-sort/utility/functional.h
@@ -76,8 +76,8 @@ namespace utility
     constexpr auto operator|(T&& lhs, U&& rhs)
         -> decltype(auto)
     {
-        using lhs_t = cppsort::detail::remove_cvref_t<decltype(as_function(std::forward<T>(lhs)))>;
-        using rhs_t = cppsort::detail::remove_cvref_t<decltype(as_function(std::forward<U>(rhs)))>;
+        using lhs_t = std::decay_t<decltype(as_function(std::forward<T>(lhs)))>;
+        using rhs_t = std::decay_t<decltype(as_function(std::forward<U>(rhs)))>;
         return detail::projection_base_pipe_result<lhs_t, rhs_t>(
             as_function(std::forward<T>(lhs)),
             as_function(std::forward<U>(rhs))
@@ -297,10 +297,10 @@ namespace utility
     constexpr auto as_projection(Function&& func)
         -> cppsort::detail::enable_if_t<
             not cppsort::detail::is_specialization_of_v<cppsort::detail::remove_cvref_t<Function>, detail::as_projection_fn>,
-            detail::as_projection_fn<cppsort::detail::remove_cvref_t<Function>>
+            detail::as_projection_fn<std::decay_t<Function>>
         >
     {
-        return detail::as_projection_fn<cppsort::detail::remove_cvref_t<Function>>(std::forward<Function>(func));
+        return detail::as_projection_fn<std::decay_t<Function>>(std::forward<Function>(func));
     }
 
     template<typename Function>
@@ -317,10 +317,10 @@ namespace utility
     constexpr auto as_comparison(Function&& func)
         -> cppsort::detail::enable_if_t<
             not cppsort::detail::is_specialization_of_v<cppsort::detail::remove_cvref_t<Function>, detail::as_comparison_fn>,
-            detail::as_comparison_fn<cppsort::detail::remove_cvref_t<Function>>
+            detail::as_comparison_fn<std::decay_t<Function>>
         >
     {
-        return detail::as_comparison_fn<cppsort::detail::remove_cvref_t<Function>>(std::forward<Function>(func));
+        return detail::as_comparison_fn<std::decay_t<Function>>(std::forward<Function>(func));
     }
 
     template<typename Function>
-- 
2.43.0


From d3484eb7bdab64fa96f3a12709137181c819684e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:49 +0000
Subject: [PATCH 50/68] fix: make_integer_range with an empty range and a step

---
 include/cpp-sort/utility/make_integer_range.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/cpp-sort/utility/make_integer_range.h b/include/cpp-sort/utility/make_integer_range.h
index 78f4479..0e477af 100644
--- a/include/cpp-sort/utility/make_integer_range.h
+++ b/include/cpp-sort/utility/make_integer_range.h
@@ -62,7 +62,8 @@ namespace utility
         Integer,
         std::make_integer_sequence<
             Integer,
-            ((Begin < End ? End - Begin : Begin - End) - 1) / (Step ? Step : 1) + 1
+            Begin == End ? 0 :
+                ((Begin < End ? End - Begin : Begin - End) - 1) / (Step ? Step : 1) + 1
         >,
         Begin,
         (Step ? Step : 1),
-- 
2.43.0


From 7919988cd50aada1c383425cb163411e3ae10bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:06 +0000
Subject: [PATCH 51/68] fix: documentation of utility::log

---
 docs/Miscellaneous-utilities.md | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/docs/Miscellaneous-utilities.md b/docs/Miscellaneous-utilities.md
index c988863..281d6b8 100644
--- a/docs/Miscellaneous-utilities.md
+++ b/docs/Miscellaneous-utilities.md
@@ -195,7 +195,7 @@ struct indirect:
 
 This header also provides additional function objects implementing basic unary operations. These functions objects are designed to be used as *size policies* with `dynamic_buffer` and similar classes. The following function objects are available:
 * `half`: returns the passed value divided by 2.
-* `log`: returns the base 10 logarithm of the passed value.
+* `log`: returns the natural logarithm of the passed value.
 * `sqrt`: returns the square root of the passed value.
 
 All of those function objects inherit from `projection_base` and are [*transparent function objects*][transparent-func].
-- 
2.43.0


From d8d6c10dd78eec2ccc5cb50a4e680e9d4f643fdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:26 +0000
Subject: [PATCH 52/68] fix: iter_move result for iterators returning proxies

---
 include/cpp-sort/utility/iter_move.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cpp-sort/utility/iter_move.h b/include/cpp-sort/utility/iter_move.h
index ed1d2ac..14ff119 100644
--- a/include/cpp-sort/utility/iter_move.h
+++ b/include/cpp-sort/utility/iter_move.h
@@ -66,7 +66,7 @@ namespace cppsort
         using iter_move_t = cppsort::detail::conditional_t<
             std::is_reference<typename std::iterator_traits<Iterator>::reference>::value,
             std::remove_reference_t<typename std::iterator_traits<Iterator>::reference>&&,
-            std::decay_t<typename std::iterator_traits<Iterator>::reference>
+            typename std::iterator_traits<Iterator>::value_type
         >;
     }
 
-- 
2.43.0


From 6a2cacdad0c9a74476a4442590d17625ed24f119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:26 +0000
Subject: [PATCH 53/68] fix: iter_move and iter_swap of adapted iterators with
 custom ones

---
 include/cpp-sort/utility/iter_move.h | 44 ++++++++++++++++++++++++----
 1 file changed, 38 insertions(+), 6 deletions(-)

diff --git a/include/cpp-sort/utility/iter_move.h b/include/cpp-sort/utility/iter_move.h
index 14ff119..7c9883a 100644
--- a/include/cpp-sort/utility/iter_move.h
+++ b/include/cpp-sort/utility/iter_move.h
@@ -53,12 +53,44 @@ namespace cppsort
                 -> decltype(iter_swap(it1.base(), it2.base()));
         };
 
+        // Same checks for dedicated overloads: nothing is looked up for
+        // the iterators underlying the standard iterator adaptors, and
+        // std::iter_swap doesn't count
+
+        namespace adl_checks
+        {
+            // Makes std::iter_swap ambiguous when it is found by ADL
+            template<typename Iterator1, typename Iterator2>
+            auto iter_swap(Iterator1, Iterator2)
+                -> void = delete;
+
+            struct call_own_iter_move
+            {
+                template<typename Iterator>
+                auto operator()(Iterator it) const
+                    -> decltype(iter_move(it));
+            };
+
+            struct call_own_iter_swap
+            {
+                template<typename Iterator>
+                auto operator()(Iterator it1, Iterator it2) const
+                    -> decltype(iter_swap(it1, it2));
+            };
+        }
+
         template<typename Iterator>
         constexpr bool has_iter_move_v = detail::is_invocable_v<call_iter_move, Iterator>;
 
         template<typename Iterator>
         constexpr bool has_iter_swap_v = detail::is_invocable_v<call_iter_swap, Iterator, Iterator>;
 
+        template<typename Iterator>
+        constexpr bool has_own_iter_move_v = detail::is_invocable_v<adl_checks::call_own_iter_move, Iterator>;
+
+        template<typename Iterator>
+        constexpr bool has_own_iter_swap_v = detail::is_invocable_v<adl_checks::call_own_iter_swap, Iterator, Iterator>;
+
         ////////////////////////////////////////////////////////////
         // Result type of a non-specialized iter_move call
 
@@ -86,7 +118,7 @@ namespace cppsort
         template<
             typename Iterator,
             typename = cppsort::detail::enable_if_t<
-                not cppsort::detail::has_iter_swap_v<Iterator> &&
+                not cppsort::detail::has_own_iter_swap_v<Iterator> &&
                 cppsort::detail::has_iter_move_v<Iterator>
             >
         >
@@ -101,7 +133,7 @@ namespace cppsort
         template<
             typename Iterator,
             typename = cppsort::detail::enable_if_t<
-                not cppsort::detail::has_iter_swap_v<Iterator> &&
+                not cppsort::detail::has_own_iter_swap_v<Iterator> &&
                 not cppsort::detail::has_iter_move_v<Iterator>
             >,
             typename = void // dummy parameter for ODR
@@ -123,7 +155,7 @@ namespace cppsort
         template<
             typename Iterator,
             typename = cppsort::detail::enable_if_t<
-                not cppsort::detail::has_iter_move_v<std::reverse_iterator<Iterator>>
+                not cppsort::detail::has_own_iter_move_v<std::reverse_iterator<Iterator>>
             >
         >
         auto iter_move(const std::reverse_iterator<Iterator>& it)
@@ -135,7 +167,7 @@ namespace cppsort
         template<
             typename Iterator,
             typename = cppsort::detail::enable_if_t<
-                not cppsort::detail::has_iter_swap_v<std::reverse_iterator<Iterator>>
+                not cppsort::detail::has_own_iter_swap_v<std::reverse_iterator<Iterator>>
             >
         >
         auto iter_swap(std::reverse_iterator<Iterator> lhs, std::reverse_iterator<Iterator> rhs)
@@ -150,7 +182,7 @@ namespace cppsort
         template<
             typename Iterator,
             typename = cppsort::detail::enable_if_t<
-                not cppsort::detail::has_iter_move_v<std::move_iterator<Iterator>>
+                not cppsort::detail::has_own_iter_move_v<std::move_iterator<Iterator>>
             >
         >
         auto iter_move(const std::move_iterator<Iterator>& it)
@@ -162,7 +194,7 @@ namespace cppsort
         template<
             typename Iterator,
             typename = cppsort::detail::enable_if_t<
-                not cppsort::detail::has_iter_swap_v<std::move_iterator<Iterator>>
+                not cppsort::detail::has_own_iter_swap_v<std::move_iterator<Iterator>>
             >
         >
         auto iter_swap(std::move_iterator<Iterator> lhs, std::move_iterator<Iterator> rhs)
-- 
2.43.0


From 913aa54a3ef2f852079a688fb848f3f2a831d6d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:26 +0000
Subject: [PATCH 54/68] fix: spin_sorter with proxy iterators

---
 include/cpp-sort/detail/spinsort.h | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/include/cpp-sort/detail/spinsort.h b/include/cpp-sort/detail/spinsort.h
index e68abe4..a95c863 100644
--- a/include/cpp-sort/detail/spinsort.h
+++ b/include/cpp-sort/detail/spinsort.h
@@ -37,7 +37,7 @@
 #include "iterator_traits.h"
 #include "memory.h"
 #include "move.h"
-#include "swap_ranges.h"
+#include "reverse.h"
 #include "type_traits.h"
 #include "upper_bound.h"
 
@@ -168,9 +168,7 @@ namespace detail
             }
 
             // reverse the elements between first and it1
-            auto nreverse = it - rng_data.first;
-            auto mid = rng_data.first + nreverse / 2;
-            detail::swap_ranges_overlap(rng_data.first, mid, std::make_reverse_iterator(it));
+            detail::reverse(rng_data.first, it);
 
             // insert the elements between it1 and last
             if (it != rng_data.last) {
-- 
2.43.0


From d0dd18dccabe5bc52fa7bd5ad77e7631a32a205b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:26 +0000
Subject: [PATCH 55/68] fix: iter_swap_if with proxy iterators

---
 include/cpp-sort/detail/swap_if.h | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/cpp-sort/detail/swap_if.h b/include/cpp-sort/detail/swap_if.h
index 279cdc5..f93d4ee 100644
--- a/include/cpp-sort/detail/swap_if.h
+++ b/include/cpp-sort/detail/swap_if.h
@@ -16,6 +16,7 @@
 #include <cpp-sort/utility/functional.h>
 #include <cpp-sort/utility/iter_move.h>
 #include "config.h"
+#include "iterator_traits.h"
 #include "type_traits.h"
 
 namespace cppsort
@@ -179,7 +180,8 @@ namespace detail
         typename Projection,
         typename = detail::enable_if_t<
             cppsort::detail::has_iter_move_v<Iterator> ||
-            cppsort::detail::has_iter_swap_v<Iterator>
+            cppsort::detail::has_iter_swap_v<Iterator> ||
+            not std::is_reference<reference_t<Iterator>>::value
         >
     >
     auto iter_swap_if(Iterator lhs, Iterator rhs, Compare compare, Projection projection)
@@ -200,7 +202,8 @@ namespace detail
         typename Projection,
         typename = detail::enable_if_t<
             not cppsort::detail::has_iter_move_v<Iterator> &&
-            not cppsort::detail::has_iter_swap_v<Iterator>
+            not cppsort::detail::has_iter_swap_v<Iterator> &&
+            std::is_reference<reference_t<Iterator>>::value
         >,
         typename = void // dummy parameter for ODR
     >
@@ -210,7 +213,8 @@ namespace detail
     {
         // Take advantage of the swap_if optimizations
         // only when the iterators don't have dedicated
-        // iter_move or iter_swap ADL-found functions
+        // iter_move or iter_swap ADL-found functions, and
+        // when they give access to actual elements
         swap_if(*lhs, *rhs, std::move(compare), std::move(projection));
     }
 }}
-- 
2.43.0


From 7baff0449dc5844036ef77df316e8f1f4461dadb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:26 +0000
Subject: [PATCH 56/68] fix: dangling references when an iterator returns a
 temporary

---
 include/cpp-sort/detail/adaptive_quickselect.h      | 9 ++++++---
 include/cpp-sort/detail/cartesian_tree_sort.h       | 3 ++-
 include/cpp-sort/detail/drop_merge_sort.h           | 2 +-
 include/cpp-sort/detail/front_inserter/inserter10.h | 3 ++-
 include/cpp-sort/detail/front_inserter/inserter11.h | 3 ++-
 include/cpp-sort/detail/front_inserter/inserter3.h  | 3 ++-
 include/cpp-sort/detail/front_inserter/inserter4.h  | 3 ++-
 include/cpp-sort/detail/front_inserter/inserter5.h  | 3 ++-
 include/cpp-sort/detail/front_inserter/inserter6.h  | 3 ++-
 include/cpp-sort/detail/front_inserter/inserter7.h  | 3 ++-
 include/cpp-sort/detail/front_inserter/inserter8.h  | 3 ++-
 include/cpp-sort/detail/front_inserter/inserter9.h  | 3 ++-
 include/cpp-sort/detail/grail_sort.h                | 3 ++-
 include/cpp-sort/detail/introselect.h               | 6 ++++--
 include/cpp-sort/detail/melsort.h                   | 3 ++-
 include/cpp-sort/detail/merge_sort.h                | 6 ++++--
 include/cpp-sort/detail/quick_merge_sort.h          | 3 ++-
 include/cpp-sort/detail/quicksort.h                 | 6 ++++--
 include/cpp-sort/detail/slabsort.h                  | 6 ++++--
 include/cpp-sort/detail/splaysort.h                 | 3 ++-
 include/cpp-sort/detail/vergesort.h                 | 6 ++++--
 include/cpp-sort/probes/enc.h                       | 3 ++-
 include/cpp-sort/probes/osc.h                       | 3 ++-
 23 files changed, 59 insertions(+), 30 deletions(-)

diff --git a/include/cpp-sort/detail/adaptive_quickselect.h b/include/cpp-sort/detail/adaptive_quickselect.h
index 8668499..3b88ae1 100644
--- a/include/cpp-sort/detail/adaptive_quickselect.h
+++ b/include/cpp-sort/detail/adaptive_quickselect.h
@@ -45,7 +45,8 @@ namespace detail
 
             CPPSORT_ASSERT(k < length);
             iter_swap(r, r + k); // Move pivot out of the way
-            auto&& pivot_proj = proj(*r);
+            auto&& pivot_ref = *r;
+            auto&& pivot_proj = proj(pivot_ref);
             auto pivot_pos = detail::partition(r, r + length, [&](auto&& elem) {
                 return not comp(pivot_proj, proj(elem));
             });
@@ -173,7 +174,8 @@ namespace detail
             CPPSORT_ASSERT(lo > 0 && lo <= pivot);
             difference_type_t<RandomAccessIterator> left = 0;
             const auto oldPivot = pivot;
-            auto&& old_pivot_proj = proj(r[oldPivot]);
+            auto&& old_pivot_ref = r[oldPivot];
+            auto&& old_pivot_proj = proj(old_pivot_ref);
             for (; lo < pivot ; ++left) {
                 if (left == lo) {
                     iter_swap(r + oldPivot, r + pivot);
@@ -218,7 +220,8 @@ namespace detail
             difference_type_t<RandomAccessIterator> pivot = 0;
             CPPSORT_ASSERT(pivot <= hi);
             CPPSORT_ASSERT(hi <= rite);
-            auto&& pivot_proj = proj(r[0]);
+            auto&& pivot_ref = r[0];
+            auto&& pivot_proj = proj(pivot_ref);
 
             // First loop: spend r[pivot .. hi]
             for (; pivot < hi ; --rite) {
diff --git a/include/cpp-sort/detail/cartesian_tree_sort.h b/include/cpp-sort/detail/cartesian_tree_sort.h
index 440afd6..dcc01bf 100644
--- a/include/cpp-sort/detail/cartesian_tree_sort.h
+++ b/include/cpp-sort/detail/cartesian_tree_sort.h
@@ -58,7 +58,8 @@ namespace detail
                 ++first;
 
                 for (; first != last ; ++first) {
-                    auto&& proj_value = proj(*first);
+                    auto&& value_ref = *first;
+                    auto&& proj_value = proj(value_ref);
                     node_type* new_parent = _find_insertion_parent(prev_node, proj_value, compare, projection);
                     if (new_parent == nullptr) {
                         root_ = buffer_.emplace_back(iter_move(first), nullptr, root_);
diff --git a/include/cpp-sort/detail/drop_merge_sort.h b/include/cpp-sort/detail/drop_merge_sort.h
index 962bb82..75be8e6 100644
--- a/include/cpp-sort/detail/drop_merge_sort.h
+++ b/include/cpp-sort/detail/drop_merge_sort.h
@@ -130,7 +130,7 @@ namespace detail
 
         auto back = end;
         do {
-            auto& last_dropped = dropped.back();
+            auto&& last_dropped = dropped.back();
 
             while (begin != write && comp(proj(last_dropped), proj(*std::prev(write)))) {
                 --back;
diff --git a/include/cpp-sort/detail/front_inserter/inserter10.h b/include/cpp-sort/detail/front_inserter/inserter10.h
index 3f44a3c..7fe0bea 100644
--- a/include/cpp-sort/detail/front_inserter/inserter10.h
+++ b/include/cpp-sort/detail/front_inserter/inserter10.h
@@ -28,7 +28,8 @@ namespace detail
         {
             auto&& comp = utility::as_function(compare);
             auto&& proj = utility::as_function(projection);
-            auto&& proj0 = proj(first[0u]);
+            auto&& value0 = first[0u];
+            auto&& proj0 = proj(value0);
 
             if (comp(proj(first[5u]), proj0)) {
                 if (comp(proj(first[7u]), proj0)) {
diff --git a/include/cpp-sort/detail/front_inserter/inserter11.h b/include/cpp-sort/detail/front_inserter/inserter11.h
index 740e9c7..bdf3d77 100644
--- a/include/cpp-sort/detail/front_inserter/inserter11.h
+++ b/include/cpp-sort/detail/front_inserter/inserter11.h
@@ -28,7 +28,8 @@ namespace detail
         {
             auto&& comp = utility::as_function(compare);
             auto&& proj = utility::as_function(projection);
-            auto&& proj0 = proj(first[0u]);
+            auto&& value0 = first[0u];
+            auto&& proj0 = proj(value0);
 
             if (comp(proj(first[5u]), proj0)) {
                 if (comp(proj(first[8u]), proj0)) {
diff --git a/include/cpp-sort/detail/front_inserter/inserter3.h b/include/cpp-sort/detail/front_inserter/inserter3.h
index 8fb1840..896c9f9 100644
--- a/include/cpp-sort/detail/front_inserter/inserter3.h
+++ b/include/cpp-sort/detail/front_inserter/inserter3.h
@@ -28,7 +28,8 @@ namespace detail
         {
             auto&& comp = utility::as_function(compare);
             auto&& proj = utility::as_function(projection);
-            auto&& proj0 = proj(first[0u]);
+            auto&& value0 = first[0u];
+            auto&& proj0 = proj(value0);
 
             if (comp(proj(first[1u]), proj0)) {
                 if (comp(proj(first[2u]), proj0)) {
diff --git a/include/cpp-sort/detail/front_inserter/inserter4.h b/include/cpp-sort/detail/front_inserter/inserter4.h
index c0be542..766b418 100644
--- a/include/cpp-sort/detail/front_inserter/inserter4.h
+++ b/include/cpp-sort/detail/front_inserter/inserter4.h
@@ -28,7 +28,8 @@ namespace detail
         {
             auto&& comp = utility::as_function(compare);
             auto&& proj = utility::as_function(projection);
-            auto&& proj0 = proj(first[0u]);
+            auto&& value0 = first[0u];
+            auto&& proj0 = proj(value0);
 
             if (comp(proj(first[2u]), proj0)) {
                 if (comp(proj(first[3u]), proj0)) {
diff --git a/include/cpp-sort/detail/front_inserter/inserter5.h b/include/cpp-sort/detail/front_inserter/inserter5.h
index 8caa078..efeb99e 100644
--- a/include/cpp-sort/detail/front_inserter/inserter5.h
+++ b/include/cpp-sort/detail/front_inserter/inserter5.h
@@ -28,7 +28,8 @@ namespace detail
         {
             auto&& comp = utility::as_function(compare);
             auto&& proj = utility::as_function(projection);
-            auto&& proj0 = proj(first[0u]);
+            auto&& value0 = first[0u];
+            auto&& proj0 = proj(value0);
 
             if (comp(proj(first[2u]), proj0)) {
                 if (comp(proj(first[3u]), proj0)) {
diff --git a/include/cpp-sort/detail/front_inserter/inserter6.h b/include/cpp-sort/detail/front_inserter/inserter6.h
index e154152..e3cfd0d 100644
--- a/include/cpp-sort/detail/front_inserter/inserter6.h
+++ b/include/cpp-sort/detail/front_inserter/inserter6.h
@@ -28,7 +28,8 @@ namespace detail
         {
             auto&& comp = utility::as_function(compare);
             auto&& proj = utility::as_function(projection);
-            auto&& proj0 = proj(first[0u]);
+            auto&& value0 = first[0u];
+            auto&& proj0 = proj(value0);
 
             if (comp(proj(first[3u]), proj0)) {
                 if (comp(proj(first[4u]), proj0)) {
diff --git a/include/cpp-sort/detail/front_inserter/inserter7.h b/include/cpp-sort/detail/front_inserter/inserter7.h
index b071342..9f896fb 100644
--- a/include/cpp-sort/detail/front_inserter/inserter7.h
+++ b/include/cpp-sort/detail/front_inserter/inserter7.h
@@ -28,7 +28,8 @@ namespace detail
         {
             auto&& comp = utility::as_function(compare);
             auto&& proj = utility::as_function(projection);
-            auto&& proj0 = proj(first[0u]);
+            auto&& value0 = first[0u];
+            auto&& proj0 = proj(value0);
 
             if (comp(proj(first[3u]), proj0)) {
                 if (comp(proj(first[5u]), proj0)) {
diff --git a/include/cpp-sort/detail/front_inserter/inserter8.h b/include/cpp-sort/detail/front_inserter/inserter8.h
index a54200d..99dbe28 100644
--- a/include/cpp-sort/detail/front_inserter/inserter8.h
+++ b/include/cpp-sort/detail/front_inserter/inserter8.h
@@ -28,7 +28,8 @@ namespace detail
         {
             auto&& comp = utility::as_function(compare);
             auto&& proj = utility::as_function(projection);
-            auto&& proj0 = proj(first[0u]);
+            auto&& value0 = first[0u];
+            auto&& proj0 = proj(value0);
 
             if (comp(proj(first[4u]), proj0)) {
                 if (comp(proj(first[6u]), proj0)) {
diff --git a/include/cpp-sort/detail/front_inserter/inserter9.h b/include/cpp-sort/detail/front_inserter/inserter9.h
index d85553d..e98287c 100644
--- a/include/cpp-sort/detail/front_inserter/inserter9.h
+++ b/include/cpp-sort/detail/front_inserter/inserter9.h
@@ -28,7 +28,8 @@ namespace detail
         {
             auto&& comp = utility::as_function(compare);
             auto&& proj = utility::as_function(projection);
-            auto&& proj0 = proj(first[0u]);
+            auto&& value0 = first[0u];
+            auto&& proj0 = proj(value0);
 
             if (comp(proj(first[4u]), proj0)) {
                 if (comp(proj(first[6u]), proj0)) {
diff --git a/include/cpp-sort/detail/grail_sort.h b/include/cpp-sort/detail/grail_sort.h
index 99f353a..453752a 100644
--- a/include/cpp-sort/detail/grail_sort.h
+++ b/include/cpp-sort/detail/grail_sort.h
@@ -392,7 +392,8 @@ namespace grail
     {
         using difference_type = difference_type_t<RandomAccessIterator>;
         auto&& proj = utility::as_function(projection);
-        auto&& midkey_proj = proj(*midkey);
+        auto&& midkey_ref = *midkey;
+        auto&& midkey_proj = proj(midkey_ref);
 
         if (nblock == 0) {
             auto l = arr + nblock2 * lblock;
diff --git a/include/cpp-sort/detail/introselect.h b/include/cpp-sort/detail/introselect.h
index e33a530..90455f0 100644
--- a/include/cpp-sort/detail/introselect.h
+++ b/include/cpp-sort/detail/introselect.h
@@ -279,7 +279,8 @@ namespace detail
 
             // Put the pivot at position std::prev(last) and partition
             iter_swap(median_it, last_1);
-            auto&& pivot1 = proj(*last_1);
+            auto&& pivot1_ref = *last_1;
+            auto&& pivot1 = proj(pivot1_ref);
             auto middle1 = detail::partition(
                 first, last_1,
                 [&](auto&& elem) { return comp(proj(elem), pivot1); }
@@ -287,7 +288,8 @@ namespace detail
 
             // Put the pivot in its final position and partition
             iter_swap(middle1, last_1);
-            auto&& pivot2 = proj(*middle1);
+            auto&& pivot2_ref = *middle1;
+            auto&& pivot2 = proj(pivot2_ref);
             auto middle2 = detail::partition(
                 std::next(middle1), last,
                 [&](auto&& elem) { return not comp(pivot2, proj(elem)); }
diff --git a/include/cpp-sort/detail/melsort.h b/include/cpp-sort/detail/melsort.h
index aeefe25..f1e71ae 100644
--- a/include/cpp-sort/detail/melsort.h
+++ b/include/cpp-sort/detail/melsort.h
@@ -147,7 +147,8 @@ namespace detail
         // Create encroaching lists
 
         for (auto it = std::next(first) ; it != last ; ++it) {
-            auto&& value = proj(*it);
+            auto&& elem = *it;
+            auto&& value = proj(elem);
 
             // The heads of the lists form an ascending collection while the heads
             // form a descending collection, plus the we have the guarantee that the
diff --git a/include/cpp-sort/detail/merge_sort.h b/include/cpp-sort/detail/merge_sort.h
index 90452ff..62a1e02 100644
--- a/include/cpp-sort/detail/merge_sort.h
+++ b/include/cpp-sort/detail/merge_sort.h
@@ -53,7 +53,8 @@ namespace detail
         ));
 
         // Shrink the left partition to merge
-        auto&& middle_proj = proj(*middle);
+        auto&& middle_ref = *middle;
+        auto&& middle_proj = proj(middle_ref);
         while (first != middle && not comp(middle_proj, proj(*first))) {
             ++first;
             --size_left;
@@ -105,7 +106,8 @@ namespace detail
         ));
 
         // Shrink the left partition to merge
-        auto&& middle_proj = proj(*middle);
+        auto&& middle_ref = *middle;
+        auto&& middle_proj = proj(middle_ref);
         while (first != middle && not comp(middle_proj, proj(*first))) {
             ++first;
             --size_left;
diff --git a/include/cpp-sort/detail/quick_merge_sort.h b/include/cpp-sort/detail/quick_merge_sort.h
index 6609779..9b996f4 100644
--- a/include/cpp-sort/detail/quick_merge_sort.h
+++ b/include/cpp-sort/detail/quick_merge_sort.h
@@ -110,7 +110,8 @@ namespace detail
         internal_mergesort(middle, last, size - size_left, buffer, compare, projection);
 
         // Reduce left partition even more if possible
-        auto&& mid_value = proj(*middle);
+        auto&& mid_ref = *middle;
+        auto&& mid_value = proj(mid_ref);
         while (first != middle && not comp(mid_value, proj(*first))) {
             ++first;
             --size_left;
diff --git a/include/cpp-sort/detail/quicksort.h b/include/cpp-sort/detail/quicksort.h
index 8afda65..025318b 100644
--- a/include/cpp-sort/detail/quicksort.h
+++ b/include/cpp-sort/detail/quicksort.h
@@ -81,7 +81,8 @@ namespace detail
 
         // Put the pivot at position std::prev(last) and partition
         iter_swap(median_it, last_1);
-        auto&& pivot1 = proj(*last_1);
+        auto&& pivot1_ref = *last_1;
+        auto&& pivot1 = proj(pivot1_ref);
         auto middle1 = detail::partition(
             first, last_1,
             [&](auto&& elem) { return comp(proj(elem), pivot1); }
@@ -89,7 +90,8 @@ namespace detail
 
         // Put the pivot in its final position and partition
         iter_swap(middle1, last_1);
-        auto&& pivot2 = proj(*middle1);
+        auto&& pivot2_ref = *middle1;
+        auto&& pivot2 = proj(pivot2_ref);
         auto middle2 = detail::partition(
             std::next(middle1), last,
             [&](auto&& elem) { return not comp(pivot2, proj(elem)); }
diff --git a/include/cpp-sort/detail/slabsort.h b/include/cpp-sort/detail/slabsort.h
index c313fbf..1b7abd5 100644
--- a/include/cpp-sort/detail/slabsort.h
+++ b/include/cpp-sort/detail/slabsort.h
@@ -112,7 +112,8 @@ namespace detail
 
         // Put the pivot at position std::prev(last) and partition
         iter_swap(median_it, last_1);
-        auto&& pivot = proj(*last_1);
+        auto&& pivot_ref = *last_1;
+        auto&& pivot = proj(pivot_ref);
         auto middle = detail::stable_partition(
             first, last_1, size - 1,
             [&](auto&& elem) { return comp(proj(elem), pivot); }
@@ -152,7 +153,8 @@ namespace detail
         // Create encroaching lists
 
         for (auto it = std::next(first) ; it != last ; ++it) {
-            auto&& value = proj(*it);
+            auto&& elem = *it;
+            auto&& value = proj(elem);
 
             auto& last_list = lists.back();
             if (not comp(value, proj(*std::prev(last_list.end()).base()->it))) {
diff --git a/include/cpp-sort/detail/splaysort.h b/include/cpp-sort/detail/splaysort.h
index c9defb1..d62605c 100644
--- a/include/cpp-sort/detail/splaysort.h
+++ b/include/cpp-sort/detail/splaysort.h
@@ -210,7 +210,8 @@ namespace detail
                 auto&& comp = utility::as_function(compare);
                 auto&& proj = utility::as_function(projection);
 
-                auto&& value_proj = proj(*it);
+                auto&& value_ref = *it;
+                auto&& value_proj = proj(value_ref);
 
                 binary_tree_node_base* node = root();
                 CPPSORT_ASSERT(node != &sentinel_node_);
diff --git a/include/cpp-sort/detail/vergesort.h b/include/cpp-sort/detail/vergesort.h
index 9144953..3e8471a 100644
--- a/include/cpp-sort/detail/vergesort.h
+++ b/include/cpp-sort/detail/vergesort.h
@@ -64,14 +64,16 @@ namespace verge
                 // Merge the runs, micro-optimize for size 1 because it can happen,
                 // and the generic inplace_merge algorithm cares not
                 if (it->size == 1) {
-                    auto&& target = proj(*begin);
+                    auto&& target_ref = *begin;
+                    auto&& target = proj(target_ref);
                     if (comp(proj(*it->end), target)) {
                         auto insert_it = detail::lower_bound_n(it->end, next_it->size, target, compare, projection);
                         detail::rotate_left(begin, insert_it);
                     } else {
                     }
                 } else if (next_it->size == 1) {
-                    auto&& target = proj(*std::prev(next_it->end));
+                    auto&& target_ref = *std::prev(next_it->end);
+                    auto&& target = proj(target_ref);
                     if (comp(target, proj(*std::prev(it->end)))) {
                         auto insert_it = detail::upper_bound_n(begin, it->size, target, compare, projection);
                         detail::rotate_right(insert_it, next_it->end);
diff --git a/include/cpp-sort/probes/enc.h b/include/cpp-sort/probes/enc.h
index 2f8add6..b030a51 100644
--- a/include/cpp-sort/probes/enc.h
+++ b/include/cpp-sort/probes/enc.h
@@ -86,7 +86,8 @@ namespace probe
                 // Create encroaching lists
 
                 while (first != last) {
-                    auto&& value = proj(*first);
+                    auto&& elem = *first;
+                    auto&& value = proj(elem);
 
                     auto& last_list = lists.back();
                     if (not comp(value, proj(*last_list.second))) {
diff --git a/include/cpp-sort/probes/osc.h b/include/cpp-sort/probes/osc.h
index 771b801..2c1a4fe 100644
--- a/include/cpp-sort/probes/osc.h
+++ b/include/cpp-sort/probes/osc.h
@@ -51,7 +51,8 @@ namespace probe
 
             difference_type count = 0;
             for (auto it = first; it != last; ++it) {
-                auto&& value = proj(*it);
+                auto&& elem = *it;
+                auto&& value = proj(elem);
 
                 auto current = first;
                 auto next = std::next(first);
-- 
2.43.0


From f50709198a3d717fa3f736132d8c90e41b708dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:53 +0000
Subject: [PATCH 57/68] fix: stable_adapter and schwartz_adapter with custom
 iter_move

---
 include/cpp-sort/detail/associate_iterator.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/cpp-sort/detail/associate_iterator.h b/include/cpp-sort/detail/associate_iterator.h
index 2d70e74..0b1512b 100644
--- a/include/cpp-sort/detail/associate_iterator.h
+++ b/include/cpp-sort/detail/associate_iterator.h
@@ -67,7 +67,8 @@ namespace detail
         auto operator=(association&& other) noexcept
             -> association&
         {
-            *it = std::move(*other.it);
+            using utility::iter_move;
+            *it = iter_move(other.it);
             data = std::move(other.data);
             return *this;
         }
@@ -346,8 +347,9 @@ namespace detail
                     typename value_type_t<Iterator>::data_type
                 >
             {
+                using utility::iter_move;
                 return {
-                    std::move(*(it->it)),
+                    iter_move(it->it),
                     std::move(it->data)
                 };
             }
-- 
2.43.0


From 0a246555c2ec2248d835accf69e3be16c542427c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:53 +0000
Subject: [PATCH 58/68] fix: slab_sorter with iterators returning temporaries

---
 include/cpp-sort/detail/slabsort.h | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/include/cpp-sort/detail/slabsort.h b/include/cpp-sort/detail/slabsort.h
index 1b7abd5..8ed71f6 100644
--- a/include/cpp-sort/detail/slabsort.h
+++ b/include/cpp-sort/detail/slabsort.h
@@ -11,7 +11,6 @@
 #include <iterator>
 #include <utility>
 #include <vector>
-#include <cpp-sort/comparators/flip.h>
 #include <cpp-sort/adapters/stable_adapter.h>
 #include <cpp-sort/utility/as_function.h>
 #include <cpp-sort/utility/functional.h>
@@ -160,9 +159,12 @@ namespace detail
             if (not comp(value, proj(*std::prev(last_list.end()).base()->it))) {
                 // Element belongs to the tails (bigger elements)
                 auto insertion_point = detail::lower_bound(
-                    lists.begin(), std::prev(lists.end()), value, cppsort::flip(compare),
-                    [&proj](auto& list) -> decltype(auto) {
-                        return proj(*std::prev(list.end()).base()->it);
+                    lists.begin(), std::prev(lists.end()), value,
+                    [&comp, &proj](auto&& back, auto&& value) -> bool {
+                        return comp(value, proj(back));
+                    },
+                    [](auto& list) -> decltype(auto) {
+                        return *std::prev(list.end()).base()->it;
                     }
                 );
                 insertion_point->push_back([&it](node_type* node) {
@@ -171,9 +173,12 @@ namespace detail
             } else if (not comp(proj(*last_list.begin().base()->it), value)) {
                 // Element belongs to the heads (smaller elements)
                 auto insertion_point = detail::lower_bound(
-                    lists.begin(), std::prev(lists.end()), value, compare,
-                    [&proj](auto& list) -> decltype(auto) {
-                        return proj(*list.begin().base()->it);
+                    lists.begin(), std::prev(lists.end()), value,
+                    [&comp, &proj](auto&& front, auto&& value) -> bool {
+                        return comp(proj(front), value);
+                    },
+                    [](auto& list) -> decltype(auto) {
+                        return *list.begin().base()->it;
                     }
                 );
                 insertion_point->push_front([&it](node_type* node) {
-- 
2.43.0


From 563a9045af5155bd093cd3cdd2e64cbd350def9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:53 +0000
Subject: [PATCH 59/68] fix: dangling reference when piping a projection into
 identity

---
 include/cpp-sort/utility/functional.h     | 34 +++++++++++++++++++++++
 include/cpp-sort/utility/sorted_indices.h |  8 ++----
 2 files changed, 37 insertions(+), 5 deletions(-)

diff --git a/include/cpp-sort/utility/functional.h b/include/cpp-sort/utility/functional.h
index 83516a7..6d471e9 100644
--- a/include/cpp-sort/utility/functional.h
+++ b/include/cpp-sort/utility/functional.h
@@ -126,6 +126,40 @@ namespace utility
         using is_transparent = void;
     };
 
+    namespace detail
+    {
+        // Don't call identity on the result of another projection,
+        // it returns a dangling reference when given a temporary
+
+        template<typename T>
+        struct projection_base_pipe_result<T, identity>:
+            projection_base,
+            cppsort::detail::raw_check_is_transparent<T, identity>
+        {
+            T lhs;
+
+            projection_base_pipe_result(T lhs, identity):
+                lhs(std::move(lhs))
+            {}
+
+            template<typename Arg>
+            constexpr auto operator()(Arg&& value)
+                noexcept(noexcept(lhs(std::forward<Arg>(value))))
+                -> decltype(lhs(std::forward<Arg>(value)))
+            {
+                return lhs(std::forward<Arg>(value));
+            }
+
+            template<typename Arg>
+            constexpr auto operator()(Arg&& value) const
+                noexcept(noexcept(lhs(std::forward<Arg>(value))))
+                -> decltype(lhs(std::forward<Arg>(value)))
+            {
+                return lhs(std::forward<Arg>(value));
+            }
+        };
+    }
+
     template<typename T>
     struct is_probably_branchless_projection<identity, T>:
         std::true_type
diff --git a/include/cpp-sort/utility/sorted_indices.h b/include/cpp-sort/utility/sorted_indices.h
index 1053f0c..328e11f 100644
--- a/include/cpp-sort/utility/sorted_indices.h
+++ b/include/cpp-sort/utility/sorted_indices.h
@@ -17,7 +17,6 @@
 #include <cpp-sort/sorter_facade.h>
 #include <cpp-sort/sorter_traits.h>
 #include <cpp-sort/utility/adapter_storage.h>
-#include <cpp-sort/utility/as_function.h>
 #include <cpp-sort/utility/functional.h>
 #include "../detail/checkers.h"
 #include "../detail/iterator_traits.h"
@@ -61,7 +60,6 @@ namespace utility
                 );
 
                 using difference_type = cppsort::detail::difference_type_t<RandomAccessIterator>;
-                auto&& proj = utility::as_function(projection);
 
                 // Create a vector of indices
                 std::vector<difference_type> indices(last - first, 0);
@@ -69,9 +67,9 @@ namespace utility
 
                 // Reorder the vector thanks to the passed sorter
                 this->get()(indices, std::move(compare),
-                            [&first, &proj](difference_type index) -> decltype(auto) {
-                                return proj(first[index]);
-                            });
+                            utility::as_projection([&first](difference_type index) -> decltype(auto) {
+                                return first[index];
+                            }) | std::move(projection));
 
                 // Return the indices that would sort the array
                 return indices;
-- 
2.43.0


From d6df97a9b8834e6252906cada0654c3c2453ea6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:53 +0000
Subject: [PATCH 60/68] fix: iter_move of nested reverse iterators

---
 include/cpp-sort/utility/iter_move.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/cpp-sort/utility/iter_move.h b/include/cpp-sort/utility/iter_move.h
index 7c9883a..bfe4a48 100644
--- a/include/cpp-sort/utility/iter_move.h
+++ b/include/cpp-sort/utility/iter_move.h
@@ -159,7 +159,7 @@ namespace cppsort
             >
         >
         auto iter_move(const std::reverse_iterator<Iterator>& it)
-            -> decltype(iter_move(it.base()))
+            -> decltype(auto)
         {
             return iter_move(std::prev(it.base()));
         }
@@ -186,7 +186,7 @@ namespace cppsort
             >
         >
         auto iter_move(const std::move_iterator<Iterator>& it)
-            -> decltype(iter_move(it.base()))
+            -> decltype(auto)
         {
             return iter_move(it.base());
         }
-- 
2.43.0


From 179997a94cbe57ad3b7327ec7584e62d6e5935dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:49 +0000
Subject: [PATCH 61/68] fix: spread_sorter uses a moved-from projection

---
 include/cpp-sort/detail/spreadsort/integer_sort.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/cpp-sort/detail/spreadsort/integer_sort.h b/include/cpp-sort/detail/spreadsort/integer_sort.h
index 0e97453..458b8f2 100644
--- a/include/cpp-sort/detail/spreadsort/integer_sort.h
+++ b/include/cpp-sort/detail/spreadsort/integer_sort.h
@@ -89,9 +89,12 @@ Some performance plots of runtime vs. n and log(range) are provided:\n
     if (last - first < detail::min_sort_size)
       pdqsort(std::move(first), std::move(last),
               std::less<>{}, std::move(projection));
-    else
+    else {
+      // The order of evaluation of the arguments isn't specified
+      auto key = proj(*first) >> 0;
       detail::integer_sort(std::move(first), std::move(last),
-                           proj(*first) >> 0, std::move(projection));
+                           key, std::move(projection));
+    }
   }
 }}}
 
-- 
2.43.0


From 2a52de9c9615bcb1f07b315806bc4a7f6fb0cf60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:49 +0000
Subject: [PATCH 62/68] fix: container-aware merge_sorter with pointers to
 members

---
 include/cpp-sort/detail/container_aware/merge_sort.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/cpp-sort/detail/container_aware/merge_sort.h b/include/cpp-sort/detail/container_aware/merge_sort.h
index 1201d8a..db6fca8 100644
--- a/include/cpp-sort/detail/container_aware/merge_sort.h
+++ b/include/cpp-sort/detail/container_aware/merge_sort.h
@@ -18,6 +18,7 @@
 #include <cpp-sort/fwd.h>
 #include <cpp-sort/sorter_facade.h>
 #include <cpp-sort/sorter_traits.h>
+#include <cpp-sort/utility/as_function.h>
 #include <cpp-sort/utility/functional.h>
 #include <cpp-sort/utility/size.h>
 #include "../scope_exit.h"
@@ -49,8 +50,8 @@ namespace cppsort
             // have to come first when they are equivalent
             list_merge_sort(left, compare, projection);
             list_merge_sort(collection, compare, projection);
-            left.merge(collection, make_projection_compare(std::move(compare),
-                                                           std::move(projection)));
+            left.merge(collection, make_projection_compare(utility::as_function(compare),
+                                                           utility::as_function(projection)));
         }
 
         template<typename Compare, typename Projection,
@@ -76,8 +77,8 @@ namespace cppsort
             // have to come first when they are equivalent
             flist_merge_sort(left, size / 2, compare, projection);
             flist_merge_sort(collection, size - size / 2, compare, projection);
-            left.merge(collection, make_projection_compare(std::move(compare),
-                                                           std::move(projection)));
+            left.merge(collection, make_projection_compare(utility::as_function(compare),
+                                                           utility::as_function(projection)));
         }
     }
 
-- 
2.43.0


From 83e18a8c0e88005d2cc2df9f69ec42994ed6e7e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:49 +0000
Subject: [PATCH 63/68] fix: grail_sorter with comparisons not returning bool

---
 include/cpp-sort/detail/three_way_compare.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/cpp-sort/detail/three_way_compare.h b/include/cpp-sort/detail/three_way_compare.h
index 86910fb..cf9348c 100644
--- a/include/cpp-sort/detail/three_way_compare.h
+++ b/include/cpp-sort/detail/three_way_compare.h
@@ -27,8 +27,10 @@ namespace detail
                 -> int
             {
                 auto&& compare = derived().base();
-                return compare(std::forward<T>(lhs), std::forward<U>(rhs)) ? -1 :
-                       compare(std::forward<U>(rhs), std::forward<T>(lhs));
+                if (compare(std::forward<T>(lhs), std::forward<U>(rhs))) {
+                    return -1;
+                }
+                return compare(std::forward<U>(rhs), std::forward<T>(lhs)) ? 1 : 0;
             }
 
             template<typename T, typename U>
-- 
2.43.0


From 7a14377922d5173554c3da5fdac5589e432b09df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:29 +0000
Subject: [PATCH 64/68] fix: string_spread_sorter with projections that are not
 const-callable

---
 include/cpp-sort/detail/spreadsort/detail/string_sort.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/cpp-sort/detail/spreadsort/detail/string_sort.h b/include/cpp-sort/detail/spreadsort/detail/string_sort.h
index 2b4869b..57004d2 100644
--- a/include/cpp-sort/detail/spreadsort/detail/string_sort.h
+++ b/include/cpp-sort/detail/spreadsort/detail/string_sort.h
@@ -100,7 +100,7 @@ namespace spreadsort
         {}
 
         template<typename T, typename U>
-        auto operator()(const T& x, const U& y) const
+        auto operator()(const T& x, const U& y)
             -> bool
         {
             auto&& proj = utility::as_function(std::get<1>(data));
@@ -131,7 +131,7 @@ namespace spreadsort
         {}
 
         template<typename T, typename U>
-        auto operator()(const T& x, const U& y) const
+        auto operator()(const T& x, const U& y)
             -> bool
         {
             auto&& proj = utility::as_function(std::get<1>(data));
-- 
2.43.0


From ee08fa9a0b9cc4f2562fd7e1eb0aaeb2f4ec6c63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:31 +0000
Subject: [PATCH 65/68] fix: float_spread_sorter orders close negative numbers
 backwards

-div_min was truncated to 32 bits when all of the bins were negative.
---
 .../cpp-sort/detail/spreadsort/detail/float_sort.h   | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/include/cpp-sort/detail/spreadsort/detail/float_sort.h b/include/cpp-sort/detail/spreadsort/detail/float_sort.h
index ba5986f..009fddc 100644
--- a/include/cpp-sort/detail/spreadsort/detail/float_sort.h
+++ b/include/cpp-sort/detail/spreadsort/detail/float_sort.h
@@ -289,11 +289,13 @@ namespace detail
         ++current;
       }
       //The index of the first positive bin
-      //Must be divided small enough to fit into an integer
-      unsigned first_positive = (div_min < 0) ? unsigned(-div_min) : 0;
-      //Resetting if all bins are negative
-      if (cache_offset + first_positive > cache_end)
-        first_positive = cache_end - cache_offset;
+      unsigned first_positive = 0;
+      if (div_max < 0) {
+        //All bins are negative, -div_min might not fit into an integer
+        first_positive = bin_count;
+      } else if (div_min < 0) {
+        first_positive = unsigned(-div_min);
+      }
       //Reversing the order of the negative bins
       //Note that because of the negative/positive ordering direction flip
       //We can not depend upon bin order and positions matching up
-- 
2.43.0


From e8426619a9135dc02f2be7b7ed22f91bfea59eca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:17 +0000
Subject: [PATCH 66/68] fix: chaining utility::identity and std::identity is
 ambiguous

---
 include/cpp-sort/utility/functional.h | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/include/cpp-sort/utility/functional.h b/include/cpp-sort/utility/functional.h
index 6d471e9..960d1bb 100644
--- a/include/cpp-sort/utility/functional.h
+++ b/include/cpp-sort/utility/functional.h
@@ -185,6 +185,20 @@ namespace utility
         return {};
     }
 
+#if CPPSORT_STD_IDENTITY_AVAILABLE
+    constexpr auto operator|(utility::identity, std::identity)
+        -> utility::identity
+    {
+        return {};
+    }
+
+    constexpr auto operator|(std::identity, utility::identity)
+        -> utility::identity
+    {
+        return {};
+    }
+#endif
+
     ////////////////////////////////////////////////////////////
     // indirect
 
-- 
2.43.0


From 1cc0bc74f539c632c6a5903ebd2745dd5607925d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:28 +0000
Subject: [PATCH 67/68] fix: wiki_sort constructing and destroying elements of
 its buffer which are already alive

---
 include/cpp-sort/detail/wiki_sort.h | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/cpp-sort/detail/wiki_sort.h b/include/cpp-sort/detail/wiki_sort.h
index c1faca0..370f3a9 100644
--- a/include/cpp-sort/detail/wiki_sort.h
+++ b/include/cpp-sort/detail/wiki_sort.h
@@ -491,9 +491,13 @@ namespace detail
                                 // the two ranges are in reverse order, so a simple rotation should fix it
                                 detail::rotate(A.start, A.end, B.end);
                             } else if (comp(proj(*B.start), proj(*std::prev(A.end)))) {
-                                // these two ranges weren't already in order, so we need to merge them
-                                buffered_inplace_merge(A.start, A.end, B.end, compare, projection,
-                                                       A.length(), B.length(), cache_begin);
+                                // these two ranges weren't already in order, so we need to merge them:
+                                // the elements of the cache are already alive, so they have to be assigned
+                                detail::move(A.start, A.end, cache_begin);
+                                half_inplace_merge(cache_begin, cache_begin + A.length(),
+                                                   A.end, B.end, A.start,
+                                                   (std::min)(A.length(), B.length()),
+                                                   compare, projection);
                             }
                         }
                     }
-- 
2.43.0


From b3728b8c392e3af0706974e58b0ac411c7a47dda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:12 +0000
Subject: [PATCH 68/68] fix: over-aligned elements in buffers without the
 alignment they need

---
 include/cpp-sort/detail/fixed_size_list.h  |  2 +-
 include/cpp-sort/detail/immovable_vector.h |  8 +--
 include/cpp-sort/detail/memory.h           | 72 ++++++++++++++++++----
 include/cpp-sort/detail/spinsort.h         |  2 +-
 include/cpp-sort/detail/timsort.h          |  4 +-
 5 files changed, 65 insertions(+), 23 deletions(-)

diff --git a/include/cpp-sort/detail/fixed_size_list.h b/include/cpp-sort/detail/fixed_size_list.h
index d5641c3..3cfc5b4 100644
--- a/include/cpp-sort/detail/fixed_size_list.h
+++ b/include/cpp-sort/detail/fixed_size_list.h
@@ -142,7 +142,7 @@ namespace detail
 
             explicit fixed_size_list_node_pool(std::ptrdiff_t capacity):
                 // Allocate enough space to store N nodes
-                buffer_(static_cast<node_type*>(::operator new(capacity * sizeof(node_type))),
+                buffer_(detail::raw_allocate<node_type>(capacity),
                        operator_deleter(capacity * sizeof(node_type))),
                 first_free_(buffer_.get()),
                 capacity_(capacity)
diff --git a/include/cpp-sort/detail/immovable_vector.h b/include/cpp-sort/detail/immovable_vector.h
index 5527621..a1c4f0d 100644
--- a/include/cpp-sort/detail/immovable_vector.h
+++ b/include/cpp-sort/detail/immovable_vector.h
@@ -48,7 +48,7 @@ namespace detail
             explicit immovable_vector(std::ptrdiff_t n):
                 capacity_(n),
                 memory_(
-                    static_cast<T*>(::operator new(n * sizeof(T)))
+                    detail::raw_allocate<T>(n)
                 ),
                 end_(memory_)
             {}
@@ -62,11 +62,7 @@ namespace detail
                 detail::destroy(memory_, end_);
 
                 // Free the allocated memory
-#ifdef __cpp_sized_deallocation
-                ::operator delete(memory_, capacity_ * sizeof(T));
-#else
-                ::operator delete(memory_);
-#endif
+                detail::raw_deallocate(memory_, capacity_);
             }
 
             ////////////////////////////////////////////////////////////
diff --git a/include/cpp-sort/detail/memory.h b/include/cpp-sort/detail/memory.h
index baee595..b37ca01 100644
--- a/include/cpp-sort/detail/memory.h
+++ b/include/cpp-sort/detail/memory.h
@@ -61,7 +61,58 @@ namespace detail
     }
 
     ////////////////////////////////////////////////////////////
-    // Deleter for ::operator new(std::size_t)
+    // Raw memory for objects of type T, which might be over-aligned
+
+    template<typename T>
+    auto raw_allocate(std::size_t count)
+        -> T*
+    {
+#ifdef __cpp_aligned_new
+        if (alignof(T) > __STDCPP_DEFAULT_NEW_ALIGNMENT__) {
+            return static_cast<T*>(::operator new(count * sizeof(T), std::align_val_t(alignof(T))));
+        }
+#endif
+        return static_cast<T*>(::operator new(count * sizeof(T)));
+    }
+
+    template<typename T>
+    auto raw_allocate(std::size_t count, const std::nothrow_t& nothrow) noexcept
+        -> T*
+    {
+#ifdef __cpp_aligned_new
+        if (alignof(T) > __STDCPP_DEFAULT_NEW_ALIGNMENT__) {
+            return static_cast<T*>(::operator new(count * sizeof(T), std::align_val_t(alignof(T)), nothrow));
+        }
+#endif
+        return static_cast<T*>(::operator new(count * sizeof(T), nothrow));
+    }
+
+    template<typename T>
+    auto raw_deallocate(T* ptr, std::size_t count) noexcept
+        -> void
+    {
+        (void)count;
+#ifdef __cpp_sized_deallocation
+#   ifdef __cpp_aligned_new
+        if (alignof(T) > __STDCPP_DEFAULT_NEW_ALIGNMENT__) {
+            ::operator delete(ptr, count * sizeof(T), std::align_val_t(alignof(T)));
+            return;
+        }
+#   endif
+        ::operator delete(ptr, count * sizeof(T));
+#else
+#   ifdef __cpp_aligned_new
+        if (alignof(T) > __STDCPP_DEFAULT_NEW_ALIGNMENT__) {
+            ::operator delete(ptr, std::align_val_t(alignof(T)));
+            return;
+        }
+#   endif
+        ::operator delete(ptr);
+#endif
+    }
+
+    ////////////////////////////////////////////////////////////
+    // Deleter for raw_allocate
 
     struct operator_deleter
     {
@@ -74,18 +125,20 @@ namespace detail
             size(size)
         {}
 
-        inline auto operator()(void* pointer) const noexcept
+        template<typename T>
+        auto operator()(T* pointer) const noexcept
             -> void
         {
-            ::operator delete(pointer, size);
+            detail::raw_deallocate(pointer, size / sizeof(T));
         }
 #else
         constexpr explicit operator_deleter(std::size_t) noexcept {}
 
-        inline auto operator()(void* pointer) const noexcept
+        template<typename T>
+        auto operator()(T* pointer) const noexcept
             -> void
         {
-            ::operator delete(pointer);
+            detail::raw_deallocate(pointer, 0);
         }
 #endif
     };
@@ -165,7 +218,7 @@ namespace detail
         // Try to gradually allocate less memory until we get a valid buffer
         // or until the amount of memory to allocate reaches 0
         while (count > min_count) {
-            res.first = static_cast<T*>(::operator new(count * sizeof(T), std::nothrow));
+            res.first = detail::raw_allocate<T>(count, std::nothrow);
             if (res.first) {
                 res.second = count;
                 break;
@@ -179,12 +232,7 @@ namespace detail
     auto return_temporary_buffer(T* ptr, std::size_t count) noexcept
         -> void
     {
-#ifdef __cpp_sized_deallocation
-        ::operator delete(ptr, count * sizeof(T));
-#else
-        (void)count;
-        ::operator delete(ptr);
-#endif
+        detail::raw_deallocate(ptr, count);
     }
 
     ////////////////////////////////////////////////////////////
diff --git a/include/cpp-sort/detail/spinsort.h b/include/cpp-sort/detail/spinsort.h
index a95c863..4d291f6 100644
--- a/include/cpp-sort/detail/spinsort.h
+++ b/include/cpp-sort/detail/spinsort.h
@@ -328,7 +328,7 @@ namespace detail
                     // Buffer used by the merge operations
                     auto buffer_size = nelem_1;
                     std::unique_ptr<rvalue_type, operator_deleter> buffer(
-                        static_cast<rvalue_type*>(::operator new(buffer_size * sizeof(rvalue_type))),
+                        detail::raw_allocate<rvalue_type>(buffer_size),
                         operator_deleter(buffer_size * sizeof(rvalue_type))
                     );
                     range_buf range_aux(buffer.get(), (buffer.get() + buffer_size));
diff --git a/include/cpp-sort/detail/timsort.h b/include/cpp-sort/detail/timsort.h
index 790cc45..14001fb 100644
--- a/include/cpp-sort/detail/timsort.h
+++ b/include/cpp-sort/detail/timsort.h
@@ -421,9 +421,7 @@ namespace detail
                 // deallocation work properly
                 buffer.reset(nullptr);
                 buffer.get_deleter() = operator_deleter(new_size * sizeof(rvalue_type));
-                buffer.reset(static_cast<rvalue_type*>(
-                    ::operator new(new_size * sizeof(rvalue_type))
-                ));
+                buffer.reset(detail::raw_allocate<rvalue_type>(new_size));
                 buffer_size = new_size;
             }
         }
-- 
2.43.0

