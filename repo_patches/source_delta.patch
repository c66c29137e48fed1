From ead63fe299e7291f6517aad9395de4aa82c8fad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:09 +0000
Subject: [PATCH 01/34] fix: vector::clear passed an allocator to destroy() and
 did not compile

---
 nestl/implementation/vector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nestl/implementation/vector.hpp b/nestl/implementation/vector.hpp
index 2dcbdb8..cbd5ce3 100644
--- a/nestl/implementation/vector.hpp
+++ b/nestl/implementation/vector.hpp
@@ -553,7 +553,7 @@ vector<T, A>::shrink_to_fit_nothrow(OperationError& err) NESTL_NOEXCEPT_SPEC
 template <typename T, typename A>
 void vector<T, A>::clear() NESTL_NOEXCEPT_SPEC
 {
-    nestl::detail::destroy(m_allocator, m_start, m_finish);
+    nestl::detail::destroy(m_start, m_finish);
     m_finish = m_start;
 }
 
-- 
2.43.0


From 13c4255c528ed07e3b24f01027abb8a6f0b71245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:09 +0000
Subject: [PATCH 02/34] fix: vector range insert used an undefined macro and
 returned an uninitialised iterator for an empty range

---
 nestl/implementation/vector.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nestl/implementation/vector.hpp b/nestl/implementation/vector.hpp
index cbd5ce3..3487a08 100644
--- a/nestl/implementation/vector.hpp
+++ b/nestl/implementation/vector.hpp
@@ -743,13 +743,13 @@ template <typename OperationError, typename InputIterator>
 typename vector<T, A>::iterator
 vector<T, A>::insert_range(OperationError& err, const_iterator pos, InputIterator first, InputIterator last) NESTL_NOEXCEPT_SPEC
 {
-    NESTL_ASSERT(pos >= m_start);
-    NESTL_ASSERT(pos <= m_finish);
+    assert(pos >= m_start);
+    assert(pos <= m_finish);
 
     /// we should calculate offset before possible reallocation
     size_t offset = pos - m_start;
 
-    iterator res;
+    iterator res = m_start + offset;
     for ( ; first != last; ++first, ++offset)
     {
         const_iterator newPos = m_start + offset;
-- 
2.43.0


From 854c6602de93024451ee17f6ad5d73b4003f90d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:09 +0000
Subject: [PATCH 03/34] fix: vector insert left destroyed elements inside the
 vector on failure and read dangling arguments

---
 nestl/implementation/vector.hpp | 31 ++++++++++++++++++++++++++++++-
 1 file changed, 30 insertions(+), 1 deletion(-)

diff --git a/nestl/implementation/vector.hpp b/nestl/implementation/vector.hpp
index 3487a08..299de52 100644
--- a/nestl/implementation/vector.hpp
+++ b/nestl/implementation/vector.hpp
@@ -6,6 +6,7 @@
 #include <nestl/allocator.hpp>
 #include <nestl/allocator_traits.hpp>
 #include <nestl/algorithm.hpp>
+#include <nestl/alignment.hpp>
 #include <nestl/class_operations.hpp>
 
 #include <nestl/detail/destroy.hpp>
@@ -704,6 +705,29 @@ vector<T, A>::insert_value(OperationError& err, const_iterator pos, Args&& ... a
     /// we should calculate offset before possible reallocation
     size_t offset = pos - m_start;
 
+    if ((offset == size()) && (capacity() > size()))
+    {
+        nestl::class_operations::construct(err, m_finish, std::forward<Args>(args) ...);
+        if (err)
+        {
+            return end();
+        }
+
+        ++m_finish;
+        return m_finish - 1;
+    }
+
+    /// arguments may refer to own elements, so new value should be created before any element is relocated
+    nestl::aligned_buffer<value_type> buffer;
+    value_type* newValue = buffer.ptr();
+    value_type* newValueEnd = newValue + 1;
+    nestl::class_operations::construct(err, newValue, std::forward<Args>(args) ...);
+    if (err)
+    {
+        return end();
+    }
+    nestl::detail::destruction_scoped_guard<value_type*> newValueGuard(newValue, newValueEnd);
+
     if (capacity() == size())
     {
         grow(err, capacity() + 1);
@@ -722,15 +746,20 @@ vector<T, A>::insert_value(OperationError& err, const_iterator pos, Args&& ... a
         nestl::class_operations::construct(err, val, *oldLocation);
         if (err)
         {
+            /// there is no element at val, keep only elements before this hole
+            nestl::detail::destroy(val + 1, m_finish + 1);
+            m_finish = val;
             return end();
         }
         nestl::detail::destroy(oldLocation, val);
     }
 
 
-	nestl::class_operations::construct(err, first, std::forward<Args>(args) ...);
+	nestl::class_operations::construct(err, first, std::move(*newValue));
     if (err)
     {
+        nestl::detail::destroy(first + 1, m_finish + 1);
+        m_finish = first;
         return end();
     }
 
-- 
2.43.0


From 9cd75b743f90511fdaac80db5a37bdb9f3a3671a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:09 +0000
Subject: [PATCH 04/34] fix: vector resize reallocated within capacity and read
 a dangling own element

---
 nestl/implementation/vector.hpp | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/nestl/implementation/vector.hpp b/nestl/implementation/vector.hpp
index 299de52..6d870f4 100644
--- a/nestl/implementation/vector.hpp
+++ b/nestl/implementation/vector.hpp
@@ -624,7 +624,20 @@ template <typename OperationError>
 void
 vector<T, A>::resize_nothrow(OperationError& err, size_type count, const value_type& value) NESTL_NOEXCEPT_SPEC
 {
-    do_resize(err, count, value);
+    const value_type* source = std::addressof(value);
+    if ((count > capacity()) && (source >= m_start) && (source < m_finish))
+    {
+        /// value is own element, so it will be relocated during growth
+        const size_type offset = source - m_start;
+        grow(err, count);
+        if (err)
+        {
+            return;
+        }
+        source = m_start + offset;
+    }
+
+    do_resize(err, count, *source);
 }
 
 template <typename T, typename A>
@@ -804,10 +817,13 @@ vector<T, A>::do_resize(OperationError& err, size_type count, Args&& ... args) N
     }
     else
     {
-        grow(err, count);
-        if (err)
+        if (count > capacity())
         {
-            return;
+            grow(err, count);
+            if (err)
+            {
+                return;
+            }
         }
 
         while (m_finish < m_start + count)
-- 
2.43.0


From d80654587316f6f59c353ed7a7e3ebd15bd007ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:09 +0000
Subject: [PATCH 05/34] fix: vector move assignment took the storage of other
 without its allocator

---
 nestl/implementation/vector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nestl/implementation/vector.hpp b/nestl/implementation/vector.hpp
index 6d870f4..7e4b766 100644
--- a/nestl/implementation/vector.hpp
+++ b/nestl/implementation/vector.hpp
@@ -662,7 +662,7 @@ void vector<T, A>::move_assign(const std::true_type& /* true_val */, vector&& ot
 {
 	const vector destroyContentAtExit(std::move(*this));
 
-    this->swap_data(other);
+    this->swap(other);
 }
 
 template <typename T, typename A>
-- 
2.43.0


From 34df942d1718eaa1c6ca98121cb194737ae2893f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:09 +0000
Subject: [PATCH 06/34] fix: vector assign replaced the allocator with a
 default constructed one

---
 nestl/implementation/vector.hpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/nestl/implementation/vector.hpp b/nestl/implementation/vector.hpp
index 7e4b766..507e5e2 100644
--- a/nestl/implementation/vector.hpp
+++ b/nestl/implementation/vector.hpp
@@ -312,7 +312,12 @@ template <typename OperationError>
 void
 vector<T, A>::assign_nothrow(OperationError& err, size_type n, const_reference val) NESTL_NOEXCEPT_SPEC
 {
-    vector tmp; tmp.swap(*this);
+    /// arguments may refer to own elements, so old content should be released after assignment
+    pointer oldStart = m_start;
+    pointer oldFinish = m_finish;
+    nestl::detail::deallocation_scoped_guard<pointer, allocator_type> oldStorage(m_allocator, oldStart, capacity());
+    nestl::detail::destruction_scoped_guard<pointer> oldContent(oldStart, oldFinish);
+    m_start = m_finish = m_end_of_storage = 0;
 
     assert(empty());
 
@@ -338,7 +343,12 @@ template <typename OperationError, typename InputIterator>
 void
 vector<T, A>::assign_nothrow(OperationError& err, InputIterator first, InputIterator last) NESTL_NOEXCEPT_SPEC
 {
-    vector tmp; tmp.swap(*this);
+    /// arguments may refer to own elements, so old content should be released after assignment
+    pointer oldStart = m_start;
+    pointer oldFinish = m_finish;
+    nestl::detail::deallocation_scoped_guard<pointer, allocator_type> oldStorage(m_allocator, oldStart, capacity());
+    nestl::detail::destruction_scoped_guard<pointer> oldContent(oldStart, oldFinish);
+    m_start = m_finish = m_end_of_storage = 0;
 
     assign_iterator(err, typename std::iterator_traits<InputIterator>::iterator_category(), first, last);
 }
-- 
2.43.0


From 25d4d8cbfe68574ed7306584cf688fd22bfcab83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:09 +0000
Subject: [PATCH 07/34] fix: vector two_phase_initializator named its function
 construct instead of init

---
 nestl/implementation/vector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nestl/implementation/vector.hpp b/nestl/implementation/vector.hpp
index 507e5e2..4e2ae17 100644
--- a/nestl/implementation/vector.hpp
+++ b/nestl/implementation/vector.hpp
@@ -215,7 +215,7 @@ struct two_phase_initializator<nestl::impl::vector<T, Allocator>>
     typedef nestl::impl::vector<T, Allocator> vector_t;
 
     template <typename OperationError>
-    static void construct(OperationError& err, vector_t& defaultConstructed, const vector_t& other) NESTL_NOEXCEPT_SPEC
+    static void init(OperationError& err, vector_t& defaultConstructed, const vector_t& other) NESTL_NOEXCEPT_SPEC
     {
         defaultConstructed.copy_nothrow(err, other);
     }
-- 
2.43.0


From 346a76fa3c15aade3d4a111fd311ced09eeb406e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:09 +0000
Subject: [PATCH 08/34] fix: nestl::allocator::allocate returned a too small
 block when n * sizeof(T) overflowed

---
 nestl/allocator.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/nestl/allocator.hpp b/nestl/allocator.hpp
index f225311..849c377 100644
--- a/nestl/allocator.hpp
+++ b/nestl/allocator.hpp
@@ -51,6 +51,12 @@ public:
     template<typename OperationError>
     pointer allocate(OperationError& err, size_type n, const void* /* hint */ = 0) NESTL_NOEXCEPT_SPEC
     {
+        if (n > std::numeric_limits<size_type>::max() / sizeof(value_type))
+        {
+            build_bad_alloc(err);
+            return nullptr;
+        }
+
         pointer res = static_cast<pointer>(::operator new(n * sizeof(value_type), std::nothrow));
         if (res == nullptr)
         {
-- 
2.43.0


From 6c58f54483e1c855242a445f54ea458dcfa39261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:09 +0000
Subject: [PATCH 09/34] fix: vector::max_size ignored the size of an element

---
 nestl/implementation/vector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nestl/implementation/vector.hpp b/nestl/implementation/vector.hpp
index 4e2ae17..cb47406 100644
--- a/nestl/implementation/vector.hpp
+++ b/nestl/implementation/vector.hpp
@@ -518,7 +518,7 @@ template <typename T, typename A>
 typename vector<T, A>::size_type
 vector<T, A>::max_size() const NESTL_NOEXCEPT_SPEC
 {
-    return std::numeric_limits<size_type>::max();
+    return std::numeric_limits<size_type>::max() / sizeof(value_type);
 }
 
 template <typename T, typename A>
-- 
2.43.0


From bce4893c470d6270b91017d500f991c49f77a3f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:34 +0000
Subject: [PATCH 10/34] fix: list range insert reversed the inserted elements

---
 nestl/implementation/list.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nestl/implementation/list.hpp b/nestl/implementation/list.hpp
index e66632b..3b1481f 100644
--- a/nestl/implementation/list.hpp
+++ b/nestl/implementation/list.hpp
@@ -938,7 +938,7 @@ list<T, A>::insert_nothrow(OperationError& err, const_iterator pos, InputIterato
 {
     while (first != last)
     {
-        pos = insert_nothrow(err, pos, *first);
+        insert_nothrow(err, pos, *first);
         if (err)
         {
             return;
-- 
2.43.0


From e124fa7f8e6d06b02dc54271de60d93e06838a96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:34 +0000
Subject: [PATCH 11/34] fix: list range erase did not compile

---
 nestl/implementation/list.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nestl/implementation/list.hpp b/nestl/implementation/list.hpp
index 3b1481f..838a707 100644
--- a/nestl/implementation/list.hpp
+++ b/nestl/implementation/list.hpp
@@ -991,7 +991,7 @@ list<T, A>::erase(const_iterator first, const_iterator last) NESTL_NOEXCEPT_SPEC
         first = erase(first);
     }
 
-    return last.get_list_node();
+    return iterator(last.get_list_node());
 }
 
 template <typename T, typename A>
-- 
2.43.0


From 77f25f1f6797f3f144b30b0743f5983c9a933aad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:34 +0000
Subject: [PATCH 12/34] fix: list swap exchanged nodes without their allocators

---
 nestl/implementation/list.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nestl/implementation/list.hpp b/nestl/implementation/list.hpp
index 838a707..cdbd1ad 100644
--- a/nestl/implementation/list.hpp
+++ b/nestl/implementation/list.hpp
@@ -1061,6 +1061,7 @@ template <typename T, typename A>
 void
 list<T, A>::swap(list& other) NESTL_NOEXCEPT_SPEC
 {
+    std::swap(m_node_allocator, other.m_node_allocator);
     swap_data(other);
 }
 
@@ -1220,7 +1221,7 @@ list<T, A>::sort(Compare comp) NESTL_NOEXCEPT_SPEC
         {
             counter->merge(*(counter - 1), comp);
         }
-        swap( *(fill - 1) );
+        swap_data( *(fill - 1) );
     }
 }
 
-- 
2.43.0


From 15d5b6471d1138001fdabb379f396e8965ab6f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:34 +0000
Subject: [PATCH 13/34] fix: list assign released nodes with a default
 constructed allocator

---
 nestl/implementation/list.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nestl/implementation/list.hpp b/nestl/implementation/list.hpp
index cdbd1ad..e4b5e01 100644
--- a/nestl/implementation/list.hpp
+++ b/nestl/implementation/list.hpp
@@ -716,7 +716,7 @@ template <typename OperationError>
 void
 list<T, A>::assign_nothrow(OperationError& err, size_type n, const_reference val) NESTL_NOEXCEPT_SPEC
 {
-    list tmp; tmp.swap(*this);
+    list tmp(get_allocator()); tmp.swap(*this);
 
     while (n > 0)
     {
@@ -736,7 +736,7 @@ template <typename OperationError, typename InputIterator>
 void
 list<T, A>::assign_nothrow(OperationError& err, InputIterator first, InputIterator last) NESTL_NOEXCEPT_SPEC
 {
-    list tmp; tmp.swap(*this);
+    list tmp(get_allocator()); tmp.swap(*this);
 
     while (first != last)
     {
-- 
2.43.0


From f9637c6236a83bd626a7a4ff4367c3a72e752278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:34 +0000
Subject: [PATCH 14/34] fix: list move assignment did not compile and ignored
 the allocator of other

---
 nestl/has_exceptions/list.hpp | 4 +++-
 nestl/implementation/list.hpp | 4 ++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/nestl/has_exceptions/list.hpp b/nestl/has_exceptions/list.hpp
index 71bb59e..f6ecf1d 100644
--- a/nestl/has_exceptions/list.hpp
+++ b/nestl/has_exceptions/list.hpp
@@ -43,7 +43,9 @@ public:
 
     list& operator=(list&& other) NESTL_NOEXCEPT_SPEC
     {
-        return base_t::operator=(other);
+        base_t::operator=(std::move(other));
+
+        return *this;
     }
 
     list(const list& other)
diff --git a/nestl/implementation/list.hpp b/nestl/implementation/list.hpp
index e4b5e01..cf04eb2 100644
--- a/nestl/implementation/list.hpp
+++ b/nestl/implementation/list.hpp
@@ -698,7 +698,7 @@ typename list<T, A>::allocator_type list<T, A>::get_allocator() const NESTL_NOEX
 template <typename T, typename A>
 list<T, A>& list<T, A>::operator=(list&& other) NESTL_NOEXCEPT_SPEC
 {
-    this->move_assign(typename nestl::allocator_traits<node_allocator_type>::propagate_on_container_move_assignment(), other);
+    this->move_assign(typename nestl::allocator_traits<node_allocator_type>::propagate_on_container_move_assignment(), std::move(other));
 
     return *this;
 }
@@ -1265,7 +1265,7 @@ void
 list<T, A>::move_assign(const std::true_type& /* true_val */, list&& other) NESTL_NOEXCEPT_SPEC
 {
     const list tmp(std::move(*this));
-    this->swap_data(other);
+    this->swap(other);
 }
 
 template <typename T, typename A>
-- 
2.43.0


From 13ad151c76a28d27a39ea12497e1c001999b7daa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:34 +0000
Subject: [PATCH 15/34] fix: list range splice corrupted the list when pos is
 the end of the spliced range

---
 nestl/implementation/list.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nestl/implementation/list.hpp b/nestl/implementation/list.hpp
index cf04eb2..8ba6adf 100644
--- a/nestl/implementation/list.hpp
+++ b/nestl/implementation/list.hpp
@@ -1170,7 +1170,7 @@ template <typename T, typename A>
 void
 list<T, A>::splice(const_iterator pos, list&& /* other */, const_iterator first, const_iterator last) NESTL_NOEXCEPT_SPEC
 {
-    if (first != last)
+    if ((first != last) && (pos != last))
     {
         this->transfer(pos, first, last);
     }
-- 
2.43.0


From 938317354e68329f7167e07dd72bca950b39f953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:34 +0000
Subject: [PATCH 16/34] fix: list::max_size used a function nestl allocators do
 not provide

---
 nestl/implementation/list.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nestl/implementation/list.hpp b/nestl/implementation/list.hpp
index 8ba6adf..e23002f 100644
--- a/nestl/implementation/list.hpp
+++ b/nestl/implementation/list.hpp
@@ -886,7 +886,7 @@ template <typename T, typename A>
 typename list<T, A>::size_type
 list<T, A>::max_size() const NESTL_NOEXCEPT_SPEC
 {
-    return m_node_allocator.max_size();
+    return std::numeric_limits<size_type>::max() / sizeof(node_type);
 }
 
 
-- 
2.43.0


From a8363ece26ad2ca56c94cd1ec9267047f7cbb48f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:34 +0000
Subject: [PATCH 17/34] fix: list copy constructor ignored the allocator of the
 source

---
 nestl/has_exceptions/list.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/nestl/has_exceptions/list.hpp b/nestl/has_exceptions/list.hpp
index f6ecf1d..f41cc86 100644
--- a/nestl/has_exceptions/list.hpp
+++ b/nestl/has_exceptions/list.hpp
@@ -49,6 +49,7 @@ public:
     }
 
     list(const list& other)
+        : base_t(other.get_allocator())
     {
         default_operation_error err;
         this->copy_nothrow(err, other);
-- 
2.43.0


From 04dc05429dcabd6f16a4c0bfae64f7770314286d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:24 +0000
Subject: [PATCH 18/34] fix: set::copy_nothrow did not compile,
 allocator_traits lacked propagate_on_container_copy_assignment

---
 nestl/allocator_traits.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nestl/allocator_traits.hpp b/nestl/allocator_traits.hpp
index a0bff5e..706a00e 100644
--- a/nestl/allocator_traits.hpp
+++ b/nestl/allocator_traits.hpp
@@ -26,6 +26,9 @@ struct allocator_traits
 	NESTL_SELECT_NESTED_TYPE(Allocator, propagate_on_container_move_assignment, std::false_type);
     typedef nestl_nested_type_propagate_on_container_move_assignment propagate_on_container_move_assignment;
 
+    NESTL_SELECT_NESTED_TYPE(Allocator, propagate_on_container_copy_assignment, std::false_type);
+    typedef nestl_nested_type_propagate_on_container_copy_assignment propagate_on_container_copy_assignment;
+
 	NESTL_SELECT_NESTED_TYPE(Allocator, size_type, std::size_t);
     typedef nestl_nested_type_size_type               size_type;
 
-- 
2.43.0


From fd086b6c7587396582e9d499335e32a2f6b2bd01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:24 +0000
Subject: [PATCH 19/34] fix: set move assignment did not compile

---
 .../implementation/detail/red_black_tree.hpp  | 19 ++++++-------------
 nestl/implementation/set.hpp                  | 13 +++----------
 2 files changed, 9 insertions(+), 23 deletions(-)

diff --git a/nestl/implementation/detail/red_black_tree.hpp b/nestl/implementation/detail/red_black_tree.hpp
index d5128a7..7e3948f 100644
--- a/nestl/implementation/detail/red_black_tree.hpp
+++ b/nestl/implementation/detail/red_black_tree.hpp
@@ -1265,7 +1265,7 @@ public:
     bool
     __rb_verify() const NESTL_NOEXCEPT_SPEC;
 
-    bool
+    void
     m_move_assign(rb_tree& other) NESTL_NOEXCEPT_SPEC;
 
 private:
@@ -1381,24 +1381,17 @@ rb_tree<Key, Val, KeyOfValue, Compare, Alloc>::m_move_data(rb_tree& x, std::fals
 }
 
 template<typename Key, typename Val, typename KeyOfValue, typename Compare, typename Alloc>
-bool
+void
 rb_tree<Key, Val, KeyOfValue, Compare, Alloc>::m_move_assign(rb_tree& x) NESTL_NOEXCEPT_SPEC
 {
     m_impl.m_key_compare = x.m_impl.m_key_compare;
 
-    if (node_allocator_traits::_S_propagate_on_move_assign()
-        || node_allocator_traits::_S_always_equal()
-        || m_get_node_allocator() == x.m_get_node_allocator())
+    clear();
+    if (x.m_root() != 0)
     {
-        clear();
-        if (x.m_root() != 0)
-        {
-            m_move_data(x, std::true_type());
-        }
-        nestl::detail::alloc_on_move(m_get_node_allocator(), x.m_get_node_allocator());
-        return true;
+        m_move_data(x, std::true_type());
     }
-    return false;
+    nestl::detail::alloc_on_move(m_get_node_allocator(), x.m_get_node_allocator());
 }
 
 
diff --git a/nestl/implementation/set.hpp b/nestl/implementation/set.hpp
index 7e5667f..8cbec74 100644
--- a/nestl/implementation/set.hpp
+++ b/nestl/implementation/set.hpp
@@ -171,16 +171,9 @@ template <typename T, typename C, typename A>
 set<T, C, A>&
 set<T, C, A>::operator=(set&& other) NESTL_NOEXCEPT_SPEC
 {
-    if (!m_impl.m_move_assign(other.m_impl))
-    {
-        // The rvalue's allocator cannot be moved and is not equal,
-        // so we need to individually move each element.
-        clear();
-        insert(std::make_move_iterator(other.m_impl.begin()),
-               std::make_move_iterator(other.m_impl.end()));
-        other.clear();
-      }
-        return *this;
+    m_impl.m_move_assign(other.m_impl);
+
+    return *this;
 }
 
 template <typename T, typename C, typename A>
-- 
2.43.0


From 8b3c247c33f70cc1ca9970f8570eca2912d3095b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:24 +0000
Subject: [PATCH 20/34] fix: set::crbegin, crend and max_size did not compile

---
 nestl/implementation/detail/red_black_tree.hpp | 2 +-
 nestl/implementation/set.hpp                   | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/nestl/implementation/detail/red_black_tree.hpp b/nestl/implementation/detail/red_black_tree.hpp
index 7e3948f..8466cb6 100644
--- a/nestl/implementation/detail/red_black_tree.hpp
+++ b/nestl/implementation/detail/red_black_tree.hpp
@@ -1133,7 +1133,7 @@ public:
 
     size_type
     max_size() const NESTL_NOEXCEPT_SPEC
-    { return node_allocator_traits::max_size(m_get_node_allocator()); }
+    { return std::numeric_limits<size_type>::max() / sizeof(rb_tree_node<Val>); }
 
     void
     swap(rb_tree& t) NESTL_NOEXCEPT_SPEC;
diff --git a/nestl/implementation/set.hpp b/nestl/implementation/set.hpp
index 8cbec74..4e746d5 100644
--- a/nestl/implementation/set.hpp
+++ b/nestl/implementation/set.hpp
@@ -246,7 +246,7 @@ template <typename T, typename C, typename A>
 typename set<T, C, A>::const_reverse_iterator
 set<T, C, A>::crbegin() const NESTL_NOEXCEPT_SPEC
 {
-    return m_impl.crbegin();
+    return m_impl.rbegin();
 }
 
 template <typename T, typename C, typename A>
@@ -267,7 +267,7 @@ template <typename T, typename C, typename A>
 typename set<T, C, A>::const_reverse_iterator
 set<T, C, A>::crend() const NESTL_NOEXCEPT_SPEC
 {
-    return m_impl.crend();
+    return m_impl.rend();
 }
 
 
-- 
2.43.0


From 684192bfc2478b643535a0c85c202920c37d6671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:24 +0000
Subject: [PATCH 21/34] fix: shared_ptr destroyed the control block twice when
 a value held a weak_ptr to itself

---
 nestl/implementation/shared_ptr.hpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/nestl/implementation/shared_ptr.hpp b/nestl/implementation/shared_ptr.hpp
index 3d9e9a6..425fd93 100644
--- a/nestl/implementation/shared_ptr.hpp
+++ b/nestl/implementation/shared_ptr.hpp
@@ -50,11 +50,10 @@ public:
         --m_use_count;
         if (m_use_count == 0)
         {
+            /// value may own weak references to itself, so keep control block alive while value is being destroyed
+            weak_add_ref();
             destroy_value();
-            if (m_weak_use_count == 0)
-            {
-                destroy_self();
-            }
+            weak_release();
         }
     }
 
-- 
2.43.0


From e6bbf5de466a568a11ebdb70382b8972d82771d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:24 +0000
Subject: [PATCH 22/34] fix: weak_ptr assignment shared one weak reference
 between two pointers and freed the control block on self assignment

---
 nestl/implementation/shared_ptr.hpp | 38 +++++++++--------------------
 1 file changed, 12 insertions(+), 26 deletions(-)

diff --git a/nestl/implementation/shared_ptr.hpp b/nestl/implementation/shared_ptr.hpp
index 425fd93..cf758d1 100644
--- a/nestl/implementation/shared_ptr.hpp
+++ b/nestl/implementation/shared_ptr.hpp
@@ -272,44 +272,24 @@ public:
 
     weak_ptr& operator=(const shared_ptr<T>& other) NESTL_NOEXCEPT_SPEC
     {
-        if (m_refcount)
-        {
-            m_refcount->weak_release();
-        }
-
-        m_ptr = other.m_ptr;
-        m_refcount = other.m_refcount;
-        if (m_refcount)
-        {
-            m_refcount->weak_add_ref();
-        }
+        weak_ptr tmp(other);
+        this->swap(tmp);
 
         return *this;
     }
 
     weak_ptr& operator=(const weak_ptr& other) NESTL_NOEXCEPT_SPEC
     {
-        if (m_refcount)
-        {
-            m_refcount->weak_release();
-        }
-
-        m_ptr = other.m_ptr;
-        m_refcount = other.m_refcount;
-        if (m_refcount)
-        {
-            m_refcount->weak_add_ref();
-        }
+        weak_ptr tmp(other);
+        this->swap(tmp);
 
         return *this;
     }
 
     weak_ptr& operator=(weak_ptr&& other) NESTL_NOEXCEPT_SPEC
     {
-        const weak_ptr tmp(std::move(*this));
-
-        m_ptr = other.m_ptr;
-        m_refcount = other.m_refcount;
+        weak_ptr tmp(std::move(other));
+        this->swap(tmp);
 
         return *this;
     }
@@ -337,6 +317,12 @@ public:
 private:
     element_type* m_ptr;
     shared_count_base* m_refcount;
+
+    void swap(weak_ptr& other) NESTL_NOEXCEPT_SPEC
+    {
+        std::swap(m_ptr, other.m_ptr);
+        std::swap(m_refcount, other.m_refcount);
+    }
 };
 
 
-- 
2.43.0


From 1d593947a9809ee2ecd270a4ba740494c656fa22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:24 +0000
Subject: [PATCH 23/34] fix: weak_ptr::lock resurrected an already destroyed
 value

---
 nestl/implementation/shared_ptr.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/nestl/implementation/shared_ptr.hpp b/nestl/implementation/shared_ptr.hpp
index cf758d1..58a0394 100644
--- a/nestl/implementation/shared_ptr.hpp
+++ b/nestl/implementation/shared_ptr.hpp
@@ -311,6 +311,11 @@ public:
 
     shared_ptr<T> lock()
     {
+        if (expired())
+        {
+            return shared_ptr<T>();
+        }
+
         return shared_ptr<T>(m_ptr, m_refcount);
     }
 
-- 
2.43.0


From d274aea893f81d4143d5ac9db4742eaed470ff9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:24 +0000
Subject: [PATCH 24/34] fix: shared_ptr move assignment lost the value on self
 assignment and read a pointer destroyed by its own release

---
 nestl/implementation/shared_ptr.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/nestl/implementation/shared_ptr.hpp b/nestl/implementation/shared_ptr.hpp
index 58a0394..9608a00 100644
--- a/nestl/implementation/shared_ptr.hpp
+++ b/nestl/implementation/shared_ptr.hpp
@@ -431,16 +431,16 @@ template <typename T>
 template <typename Y>
 shared_ptr<T>& shared_ptr<T>::operator=(shared_ptr<Y>&& other) NESTL_NOEXCEPT_SPEC
 {
-    {
-        const shared_ptr tmp(std::move(*this));
-    }
-    
-    m_ptr = other.m_ptr;
+    shared_ptr tmp;
+
+    tmp.m_ptr = other.m_ptr;
     other.m_ptr = nullptr;
 
-    m_refcount = other.m_refcount;
+    tmp.m_refcount = other.m_refcount;
     other.m_refcount = nullptr;
 
+    tmp.swap(*this);
+
     return *this;
 }
 
-- 
2.43.0


From de25196c378ddac5c6eaed713e694e8011e3e5ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:24 +0000
Subject: [PATCH 25/34] fix: make_shared_a_nothrow ignored the allocator it was
 given

---
 nestl/implementation/shared_ptr.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nestl/implementation/shared_ptr.hpp b/nestl/implementation/shared_ptr.hpp
index 9608a00..7c91694 100644
--- a/nestl/implementation/shared_ptr.hpp
+++ b/nestl/implementation/shared_ptr.hpp
@@ -491,12 +491,12 @@ bool shared_ptr<T>::unique() const NESTL_NOEXCEPT_SPEC
 }
 
 template <typename T, typename OperationError, typename Allocator, typename ... Args>
-shared_ptr<T> make_shared_a_nothrow(OperationError& err, Allocator& /* alloc */, Args&& ... args)
+shared_ptr<T> make_shared_a_nothrow(OperationError& err, Allocator& alloc, Args&& ... args)
 {
     static_assert(sizeof(T), "T must be complete type");
     typedef type_stored_by_value<T, Allocator> shared_count_t;
     typedef typename shared_count_t::allocator_type SharedCountAllocator;
-    SharedCountAllocator sharedCountAlloc;
+    SharedCountAllocator sharedCountAlloc(alloc);
 
     shared_count_t* ptr = allocator_traits<SharedCountAllocator>::allocate(err, sharedCountAlloc, 1);
     if (err)
-- 
2.43.0


From ebe254e2ff662b32a15ed6a51bafdc51803a653d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:24 +0000
Subject: [PATCH 26/34] fix: make_shared did not destroy the control block when
 construction of the value failed

---
 nestl/implementation/shared_ptr.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/nestl/implementation/shared_ptr.hpp b/nestl/implementation/shared_ptr.hpp
index 7c91694..316c6c4 100644
--- a/nestl/implementation/shared_ptr.hpp
+++ b/nestl/implementation/shared_ptr.hpp
@@ -511,12 +511,16 @@ shared_ptr<T> make_shared_a_nothrow(OperationError& err, Allocator& alloc, Args&
         return {nullptr};
     }
 
+    shared_count_t* end = ptr + 1;
+    nestl::detail::destruction_scoped_guard<shared_count_t*> destructionGuard(ptr, end);
+
     ptr->initialize(err, std::forward<Args>(args) ...);
     if (err)
     {
         return {nullptr};
     }
 
+    destructionGuard.release();
     deallocationGuard.release();
     return shared_ptr<T>(ptr->get(), ptr);
 }
-- 
2.43.0


From d0ec2a29e7f7aea7aacc98c6c504762f3a8efe2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:24 +0000
Subject: [PATCH 27/34] fix: assign() tested assignability of an rvalue
 destination, so nothrow assignment of scalars was never selected

---
 nestl/has_exceptions/detail/class_operations.hpp | 4 ++--
 nestl/no_exceptions/detail/class_operations.hpp  | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/nestl/has_exceptions/detail/class_operations.hpp b/nestl/has_exceptions/detail/class_operations.hpp
index d64da3f..fe7b017 100644
--- a/nestl/has_exceptions/detail/class_operations.hpp
+++ b/nestl/has_exceptions/detail/class_operations.hpp
@@ -43,7 +43,7 @@ struct class_operations_helper
 
     template <typename T, typename OperationError, typename Y>
     static
-        typename std::enable_if<std::is_nothrow_assignable<T, Y>::value>::type
+        typename std::enable_if<std::is_nothrow_assignable<T&, Y>::value>::type
         assign(OperationError& /* err */, T& dest, Y&& src) NESTL_NOEXCEPT_SPEC
     {
         dest = std::forward<Y>(src);
@@ -51,7 +51,7 @@ struct class_operations_helper
 
     template <typename T, typename OperationError, typename Y>
     static
-    typename std::enable_if<!std::is_nothrow_assignable<T, Y>::value>::type
+    typename std::enable_if<!std::is_nothrow_assignable<T&, Y>::value>::type
     assign(OperationError& err, T& dest, Y&& src) NESTL_NOEXCEPT_SPEC
     {
         try
diff --git a/nestl/no_exceptions/detail/class_operations.hpp b/nestl/no_exceptions/detail/class_operations.hpp
index 5189649..b3165e7 100644
--- a/nestl/no_exceptions/detail/class_operations.hpp
+++ b/nestl/no_exceptions/detail/class_operations.hpp
@@ -27,7 +27,7 @@ struct class_operations_helper
 
     template <typename T, typename OperationError, typename Y>
     static
-    typename std::enable_if<std::is_nothrow_assignable<T, Y>::value>::type
+    typename std::enable_if<std::is_nothrow_assignable<T&, Y>::value>::type
     assign(OperationError& /* err */, T& dest, Y&& src) NESTL_NOEXCEPT_SPEC
     {
         dest = std::forward<Y>(src);
-- 
2.43.0


From 37040c6392a845783b82d9d8dbd150c7c1faf0c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:24 +0000
Subject: [PATCH 28/34] fix: vector range assign terminated when conversion of
 a source element threw

---
 nestl/implementation/vector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nestl/implementation/vector.hpp b/nestl/implementation/vector.hpp
index cb47406..8b0dfda 100644
--- a/nestl/implementation/vector.hpp
+++ b/nestl/implementation/vector.hpp
@@ -707,7 +707,7 @@ vector<T, A>::assign_iterator(OperationError& err,
 
     while (first != last)
     {
-        push_back_nothrow(err, *first);
+        emplace_back_nothrow(err, *first);
         if (err)
         {
             return;
-- 
2.43.0


From 0a909e2d443fe785ebed49850034d4db43ec8292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:24 +0000
Subject: [PATCH 29/34] fix: list range assign and insert terminated when
 conversion of a source element threw

---
 nestl/implementation/list.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nestl/implementation/list.hpp b/nestl/implementation/list.hpp
index e23002f..e57ea1a 100644
--- a/nestl/implementation/list.hpp
+++ b/nestl/implementation/list.hpp
@@ -740,7 +740,7 @@ list<T, A>::assign_nothrow(OperationError& err, InputIterator first, InputIterat
 
     while (first != last)
     {
-        push_back_nothrow(err, *first);
+        emplace_back_nothrow(err, *first);
         if (err)
         {
             return;
@@ -938,7 +938,7 @@ list<T, A>::insert_nothrow(OperationError& err, const_iterator pos, InputIterato
 {
     while (first != last)
     {
-        insert_nothrow(err, pos, *first);
+        emplace_nothrow(err, pos, *first);
         if (err)
         {
             return;
-- 
2.43.0


From aa9a2cec87a6ca92d196751f71ee824d1df4f98c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:16:48 +0000
Subject: [PATCH 30/34] fix: list::copy_nothrow of a list onto itself walked
 past the end of the list

---
 nestl/implementation/list.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/nestl/implementation/list.hpp b/nestl/implementation/list.hpp
index e57ea1a..a7aed11 100644
--- a/nestl/implementation/list.hpp
+++ b/nestl/implementation/list.hpp
@@ -708,7 +708,10 @@ template <typename OperationError>
 void
 list<T, A>::copy_nothrow(OperationError& err, const list& other) NESTL_NOEXCEPT_SPEC
 {
-    assign_nothrow(err, other.cbegin(), other.cend());
+    if (this != &other)
+    {
+        assign_nothrow(err, other.cbegin(), other.cend());
+    }
 }
 
 template <typename T, typename A>
-- 
2.43.0


From c24ab7dc5ff468d255113cc145467b6f759b2cd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:22:54 +0000
Subject: [PATCH 31/34] fix: vector insertion consumed its argument when memory
 could not be allocated

---
 nestl/implementation/vector.hpp | 50 +++++++++++++++++++++++++--------
 1 file changed, 39 insertions(+), 11 deletions(-)

diff --git a/nestl/implementation/vector.hpp b/nestl/implementation/vector.hpp
index 8b0dfda..114debf 100644
--- a/nestl/implementation/vector.hpp
+++ b/nestl/implementation/vector.hpp
@@ -203,6 +203,8 @@ private:
     template <typename OperationError>
     void grow(OperationError& err, size_type requiredCapacity) NESTL_NOEXCEPT_SPEC;
 
+    size_type grown_capacity(size_type requiredCapacity) const NESTL_NOEXCEPT_SPEC;
+
     template <typename OperationError>
     void do_reserve(OperationError& err, size_type new_cap) NESTL_NOEXCEPT_SPEC;
 };
@@ -740,6 +742,35 @@ vector<T, A>::insert_value(OperationError& err, const_iterator pos, Args&& ... a
         return m_finish - 1;
     }
 
+    if (capacity() == size())
+    {
+        /// arguments may refer to own elements and should not be touched if there is no memory,
+        /// so old content should be released after new value is created in a new storage
+        vector newContent(m_allocator);
+        newContent.reserve_nothrow(err, grown_capacity(capacity() + 1));
+        if (err)
+        {
+            return end();
+        }
+
+        nestl::detail::uninitialised_copy(err, m_start, m_finish, newContent.m_start);
+        if (err)
+        {
+            return end();
+        }
+        newContent.m_finish = newContent.m_start + size();
+
+        newContent.insert_value(err, newContent.m_start + offset, std::forward<Args>(args) ...);
+        if (err)
+        {
+            return end();
+        }
+
+        this->swap_data(newContent);
+        return m_start + offset;
+    }
+    assert(capacity() > size());
+
     /// arguments may refer to own elements, so new value should be created before any element is relocated
     nestl::aligned_buffer<value_type> buffer;
     value_type* newValue = buffer.ptr();
@@ -751,16 +782,6 @@ vector<T, A>::insert_value(OperationError& err, const_iterator pos, Args&& ... a
     }
     nestl::detail::destruction_scoped_guard<value_type*> newValueGuard(newValue, newValueEnd);
 
-    if (capacity() == size())
-    {
-        grow(err, capacity() + 1);
-        if (err)
-        {
-            return end();
-        }
-    }
-    assert(capacity() > size());
-
     value_type* last = m_finish;
     value_type* first = m_start + offset;
     for (value_type* val = last; val != first; --val)
@@ -852,6 +873,13 @@ template <typename T, typename A>
 template <typename OperationError>
 void
 vector<T, A>::grow(OperationError& err, size_type requiredCapacity) NESTL_NOEXCEPT_SPEC
+{
+    reserve_nothrow(err, grown_capacity(requiredCapacity));
+}
+
+template <typename T, typename A>
+typename vector<T, A>::size_type
+vector<T, A>::grown_capacity(size_type requiredCapacity) const NESTL_NOEXCEPT_SPEC
 {
     size_t newCapacity = (((capacity() + 1) * 3) / 2);
     if (newCapacity < requiredCapacity)
@@ -862,7 +890,7 @@ vector<T, A>::grow(OperationError& err, size_type requiredCapacity) NESTL_NOEXCE
     /// @bug overflow error
     assert(newCapacity > capacity());
 
-    reserve_nothrow(err, newCapacity);
+    return newCapacity;
 }
 
 template <typename T, typename A>
-- 
2.43.0


From 467e6a0e4e39d03861876d417805fbfaf977b2b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:37 +0000
Subject: [PATCH 32/34] fix: vector::max_size ignored the size type of its
 allocator

---
 nestl/implementation/vector.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nestl/implementation/vector.hpp b/nestl/implementation/vector.hpp
index 114debf..b6e69fa 100644
--- a/nestl/implementation/vector.hpp
+++ b/nestl/implementation/vector.hpp
@@ -520,7 +520,8 @@ template <typename T, typename A>
 typename vector<T, A>::size_type
 vector<T, A>::max_size() const NESTL_NOEXCEPT_SPEC
 {
-    return std::numeric_limits<size_type>::max() / sizeof(value_type);
+    typedef typename nestl::allocator_traits<allocator_type>::size_type allocator_size_type;
+    return std::numeric_limits<allocator_size_type>::max() / sizeof(value_type);
 }
 
 template <typename T, typename A>
-- 
2.43.0


From b51f755ba29128a8071e73a45cde9aabbbe30cee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:40 +0000
Subject: [PATCH 33/34] fix: vector growth asked for more than max_size() and
 was refused although the elements fit

---
 nestl/implementation/vector.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/nestl/implementation/vector.hpp b/nestl/implementation/vector.hpp
index b6e69fa..e368080 100644
--- a/nestl/implementation/vector.hpp
+++ b/nestl/implementation/vector.hpp
@@ -883,6 +883,11 @@ typename vector<T, A>::size_type
 vector<T, A>::grown_capacity(size_type requiredCapacity) const NESTL_NOEXCEPT_SPEC
 {
     size_t newCapacity = (((capacity() + 1) * 3) / 2);
+    if (newCapacity > max_size())
+    {
+        newCapacity = max_size();
+    }
+
     if (newCapacity < requiredCapacity)
     {
         newCapacity = requiredCapacity;
-- 
2.43.0


From b8aa2a3030a38d66955da5bd047138bd78d1a1a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:40 +0000
Subject: [PATCH 34/34] fix: vector::resize_nothrow used its argument after the
 element owning it was destroyed

---
 nestl/implementation/vector.hpp | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/nestl/implementation/vector.hpp b/nestl/implementation/vector.hpp
index e368080..e085b3e 100644
--- a/nestl/implementation/vector.hpp
+++ b/nestl/implementation/vector.hpp
@@ -637,20 +637,29 @@ template <typename OperationError>
 void
 vector<T, A>::resize_nothrow(OperationError& err, size_type count, const value_type& value) NESTL_NOEXCEPT_SPEC
 {
-    const value_type* source = std::addressof(value);
-    if ((count > capacity()) && (source >= m_start) && (source < m_finish))
+    /// value may be own element (or be owned by it), so old content should be released after new values are created
+    vector oldContent(m_allocator);
+    if (count > capacity())
     {
-        /// value is own element, so it will be relocated during growth
-        const size_type offset = source - m_start;
-        grow(err, count);
+        vector newContent(m_allocator);
+        newContent.reserve_nothrow(err, grown_capacity(count));
+        if (err)
+        {
+            return;
+        }
+
+        nestl::detail::uninitialised_copy(err, m_start, m_finish, newContent.m_start);
         if (err)
         {
             return;
         }
-        source = m_start + offset;
+        newContent.m_finish = newContent.m_start + size();
+
+        oldContent.swap_data(*this);
+        this->swap_data(newContent);
     }
 
-    do_resize(err, count, *source);
+    do_resize(err, count, value);
 }
 
 template <typename T, typename A>
-- 
2.43.0

