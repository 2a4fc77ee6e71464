From 34f97b527b4d114bc57536a91e068c111197c2e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:49 +0000
Subject: [PATCH 01/20] fix: global allocators no longer compare unequal to
 themselves

---
 include/ktl/allocators/global.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ktl/allocators/global.h b/include/ktl/allocators/global.h
index 214c209..da374f5 100644
--- a/include/ktl/allocators/global.h
+++ b/include/ktl/allocators/global.h
@@ -46,7 +46,7 @@ namespace ktl
 
 		bool operator!=(const global& rhs) const
 		{
-			return true;
+			return false;
 		}
 
 #pragma region Allocation
-- 
2.43.0


From a36e25827503d22f05f0aab80377ad6f0bf6d4c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:49 +0000
Subject: [PATCH 02/20] fix: linear and stack allocators reject sizes that wrap
 around when aligned

---
 include/ktl/allocators/linear_allocator.h | 4 ++++
 include/ktl/allocators/stack_allocator.h  | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/include/ktl/allocators/linear_allocator.h b/include/ktl/allocators/linear_allocator.h
index 7d3508f..63e25f7 100644
--- a/include/ktl/allocators/linear_allocator.h
+++ b/include/ktl/allocators/linear_allocator.h
@@ -74,6 +74,10 @@ namespace ktl
 		*/
 		void* allocate(size_t n) noexcept
 		{
+			// Anything larger than the whole block would wrap around once it's aligned
+			if (n > Size)
+				return nullptr;
+
 			size_t totalSize = n + detail::align_to_architecture(n);
 
 			if ((size_t(m_Free - m_Data) + totalSize) > Size)
diff --git a/include/ktl/allocators/stack_allocator.h b/include/ktl/allocators/stack_allocator.h
index 324b489..eac4dd6 100644
--- a/include/ktl/allocators/stack_allocator.h
+++ b/include/ktl/allocators/stack_allocator.h
@@ -62,6 +62,10 @@ namespace ktl
 #pragma region Allocation
 		void* allocate(size_t n) noexcept
 		{
+			// Anything larger than the whole block would wrap around once it's aligned
+			if (n > Size)
+				return nullptr;
+
 			size_t totalSize = n + detail::align_to_architecture(n);
 
 			if ((size_t(m_Block->Free - m_Block->Data) + totalSize) > Size)
-- 
2.43.0


From 344b4391181259355338c60998a1a4827443e15a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:49 +0000
Subject: [PATCH 03/20] fix: zero-sized blocks from linear and stack allocators
 get an address that they own

---
 include/ktl/utility/alignment.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/ktl/utility/alignment.h b/include/ktl/utility/alignment.h
index afcd358..a700d6f 100644
--- a/include/ktl/utility/alignment.h
+++ b/include/ktl/utility/alignment.h
@@ -9,6 +9,10 @@ namespace ktl::detail
 
     constexpr inline size_t align_to_architecture(size_t n) noexcept
     {
+        // A zero-sized block still needs an address of its own, otherwise nobody owns it
+        if (n == 0)
+            return ALIGNMENT;
+
         size_t align = n & ALIGNMENT_MASK;
         if (align != 0)
             return ALIGNMENT - align;
-- 
2.43.0


From 802378a11c1c22991b5ab587159038b3a580b1c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:49 +0000
Subject: [PATCH 04/20] fix: overflow allocator rejects sizes that wrap around
 when padded

---
 include/ktl/allocators/overflow.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/ktl/allocators/overflow.h b/include/ktl/allocators/overflow.h
index 96ab73d..9de45a6 100644
--- a/include/ktl/allocators/overflow.h
+++ b/include/ktl/allocators/overflow.h
@@ -7,6 +7,7 @@
 #include "type_allocator.h"
 
 #include <cstring>
+#include <limits>
 #include <memory>
 #include <ostream>
 #include <type_traits>
@@ -104,6 +105,10 @@ namespace ktl
 		void* allocate(size_type n)
 			noexcept(detail::has_nothrow_allocate_v<Alloc>)
 		{
+			// Leave enough room for the areas on either side
+			if (n > (std::numeric_limits<size_type>::max)() - OVERFLOW_SIZE * 2)
+				return nullptr;
+
 			m_Allocs += n;
 
 			size_type size = n + OVERFLOW_SIZE * 2;
-- 
2.43.0


From 0721db8b276e361a11a4a65b4e5d2c7db2cef4bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:49 +0000
Subject: [PATCH 05/20] fix: overflow allocator no longer counts failed
 allocations as leaks

---
 include/ktl/allocators/overflow.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/ktl/allocators/overflow.h b/include/ktl/allocators/overflow.h
index 9de45a6..368b6dc 100644
--- a/include/ktl/allocators/overflow.h
+++ b/include/ktl/allocators/overflow.h
@@ -109,14 +109,14 @@ namespace ktl
 			if (n > (std::numeric_limits<size_type>::max)() - OVERFLOW_SIZE * 2)
 				return nullptr;
 
-			m_Allocs += n;
-
 			size_type size = n + OVERFLOW_SIZE * 2;
 			char* ptr = reinterpret_cast<char*>(m_Alloc.allocate(size));
 
 			if (!ptr)
 				return nullptr;
 
+			m_Allocs += n;
+
 			std::memset(ptr, OVERFLOW_PATTERN, OVERFLOW_SIZE);
 			std::memset(ptr + OVERFLOW_SIZE + n, OVERFLOW_PATTERN, OVERFLOW_SIZE);
 
@@ -133,10 +133,10 @@ namespace ktl
 		{
 			KTL_ASSERT(p != nullptr);
 
-			m_Allocs -= n;
-
 			if (p)
 			{
+				m_Allocs -= n;
+
 				unsigned char* ptr = reinterpret_cast<unsigned char*>(p);
 
 				size_t before = 0;
-- 
2.43.0


From c84832dd4c68c8db232f750d9bc0798f21e84066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:49 +0000
Subject: [PATCH 06/20] fix: typed allocators reject amounts whose size in
 bytes wraps around

---
 include/ktl/allocators/type_allocator.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/ktl/allocators/type_allocator.h b/include/ktl/allocators/type_allocator.h
index fc14566..c351f3d 100644
--- a/include/ktl/allocators/type_allocator.h
+++ b/include/ktl/allocators/type_allocator.h
@@ -5,6 +5,7 @@
 
 #include "type_allocator_fwd.h"
 
+#include <limits>
 #include <memory>
 #include <type_traits>
 
@@ -98,6 +99,10 @@ namespace ktl
 		value_type* allocate(size_t n)
 			noexcept(noexcept(m_Alloc.allocate(n)))
 		{
+			// The size in bytes must be representable
+			if (n > (std::numeric_limits<size_t>::max)() / sizeof(value_type))
+				return nullptr;
+
 			return reinterpret_cast<value_type*>(m_Alloc.allocate(sizeof(value_type) * n));
 		}
 
-- 
2.43.0


From eb4b978cdeb83a300613f593509dfb14a569814d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:07 +0000
Subject: [PATCH 07/20] fix: assigning a shared allocator to itself no longer
 destroys it

---
 include/ktl/allocators/shared.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/ktl/allocators/shared.h b/include/ktl/allocators/shared.h
index 6f28ae1..af92076 100644
--- a/include/ktl/allocators/shared.h
+++ b/include/ktl/allocators/shared.h
@@ -95,6 +95,10 @@ namespace ktl
 		shared& operator=(const shared& rhs)
 			noexcept(noexcept(decrement()))
 		{
+			// Releasing our block first would destroy it when assigning to ourselves
+			if (this == &rhs)
+				return *this;
+
 			decrement();
 
 			m_Block = rhs.m_Block;
@@ -107,6 +111,10 @@ namespace ktl
 		shared& operator=(shared&& rhs)
 			noexcept(noexcept(decrement()))
 		{
+			// Releasing our block first would destroy it when assigning to ourselves
+			if (this == &rhs)
+				return *this;
+
 			decrement();
 
 			m_Block = rhs.m_Block;
-- 
2.43.0


From e0d363799645932020c45d1ae4c0f616ae3175bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:07 +0000
Subject: [PATCH 08/20] fix: threaded allocators lock when queried, since
 queries race with allocations

---
 include/ktl/allocators/threaded.h | 36 +++++++++++++++++++++++--------
 1 file changed, 27 insertions(+), 9 deletions(-)

diff --git a/include/ktl/allocators/threaded.h b/include/ktl/allocators/threaded.h
index bc7aa10..9f3750b 100644
--- a/include/ktl/allocators/threaded.h
+++ b/include/ktl/allocators/threaded.h
@@ -45,15 +45,31 @@ namespace ktl
 		threaded& operator=(const threaded&) = delete;
 		threaded& operator=(threaded&&) = delete;
 
-		bool operator==(const threaded& rhs) const
-			noexcept(detail::has_nothrow_equal_v<Alloc>)
+		bool operator==(const threaded& rhs) const // Lock cannot be noexcept
 		{
+			if (this == &rhs)
+			{
+				std::lock_guard<std::mutex> lock(m_Lock);
+
+				return m_Alloc == rhs.m_Alloc;
+			}
+
+			std::scoped_lock<std::mutex, std::mutex> lock(m_Lock, rhs.m_Lock);
+
 			return m_Alloc == rhs.m_Alloc;
 		}
 
-		bool operator!=(const threaded& rhs) const
-			noexcept(detail::has_nothrow_not_equal_v<Alloc>)
+		bool operator!=(const threaded& rhs) const // Lock cannot be noexcept
 		{
+			if (this == &rhs)
+			{
+				std::lock_guard<std::mutex> lock(m_Lock);
+
+				return m_Alloc != rhs.m_Alloc;
+			}
+
+			std::scoped_lock<std::mutex, std::mutex> lock(m_Lock, rhs.m_Lock);
+
 			return m_Alloc != rhs.m_Alloc;
 		}
 
@@ -98,17 +114,19 @@ namespace ktl
 #pragma region Utility
 		template<typename A = Alloc>
 		typename std::enable_if<detail::has_max_size_v<A>, size_type>::type
-		max_size() const
-			noexcept(detail::has_nothrow_max_size_v<A>)
+		max_size() const // Lock cannot be noexcept
 		{
+			std::lock_guard<std::mutex> lock(m_Lock);
+
 			return m_Alloc.max_size();
 		}
 
 		template<typename A = Alloc>
 		typename std::enable_if<detail::has_owns_v<A>, bool>::type
-		owns(void* p) const
-			noexcept(detail::has_nothrow_owns_v<A>)
+		owns(void* p) const // Lock cannot be noexcept
 		{
+			std::lock_guard<std::mutex> lock(m_Lock);
+
 			return m_Alloc.owns(p);
 		}
 #pragma endregion
@@ -125,6 +143,6 @@ namespace ktl
 
 	private:
 		KTL_EMPTY_BASE Alloc m_Alloc;
-		std::mutex m_Lock;
+		mutable std::mutex m_Lock;
 	};
 }
\ No newline at end of file
-- 
2.43.0


From 3d9bc3da29f617d85b8ba29ada1151c5391d2115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:07 +0000
Subject: [PATCH 09/20] fix: trivial_vector::pop_back compiles and returns the
 last element

---
 include/ktl/containers/trivial_vector.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ktl/containers/trivial_vector.h b/include/ktl/containers/trivial_vector.h
index 68d2986..00a56b8 100644
--- a/include/ktl/containers/trivial_vector.h
+++ b/include/ktl/containers/trivial_vector.h
@@ -424,7 +424,7 @@ namespace ktl
 		 * @brief Removes the last element from the vector and returns it.
 		 * @return The last element in the vector.
 		*/
-		T pop_back() noexcept { return m_Begin[--m_End]; }
+		T pop_back() noexcept { return *--m_End; }
 
 		/**
 		 * @brief Clears all elements in the vector.
-- 
2.43.0


From 827699999cdee72cc88e53e4829b5838ec8fdecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:08 +0000
Subject: [PATCH 10/20] fix: trivial_vector::emplace compiles and survives
 reallocation

---
 include/ktl/containers/trivial_vector.h | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/include/ktl/containers/trivial_vector.h b/include/ktl/containers/trivial_vector.h
index 00a56b8..3e0f448 100644
--- a/include/ktl/containers/trivial_vector.h
+++ b/include/ktl/containers/trivial_vector.h
@@ -373,17 +373,24 @@ namespace ktl
 		 * @return An iterator to the element that was added.
 		*/
 		template<typename... Args>
-		void emplace(const_iterator iter, Args&&... args) noexcept
+		iterator emplace(const_iterator iter, Args&&... args) noexcept
 		{
             KTL_ASSERT(iter >= m_Begin && iter <= m_End);
             
+            // Neither the iterator nor any arguments from this vector are valid after expanding or moving
+            const size_t index = iter - m_Begin;
+            T element = T(std::forward<Args>(args)...);
+            
 			if (m_End == m_EndMax)
 				expand(1);
             
-            std::memmove(const_cast<iterator>(iter + 1), iter, (m_End - iter) * sizeof(T));
+            iterator location = m_Begin + index;
+            std::memmove(location + 1, location, (m_End - location) * sizeof(T));
             
-			*iter = T(std::forward<Args>(args)...);
+			*location = std::move(element);
 			m_End++;
+
+			return location;
 		}
         
         /**
-- 
2.43.0


From 2e813922bbae1a6531c8e26600acad473950f217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:08 +0000
Subject: [PATCH 11/20] fix: pushing an element of a trivial_vector into itself
 survives reallocation

---
 include/ktl/containers/trivial_vector.h | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/include/ktl/containers/trivial_vector.h b/include/ktl/containers/trivial_vector.h
index 3e0f448..0df5f22 100644
--- a/include/ktl/containers/trivial_vector.h
+++ b/include/ktl/containers/trivial_vector.h
@@ -307,9 +307,12 @@ namespace ktl
 		*/
 		iterator push_back(const T& element) noexcept
 		{
+			// The element may be part of this vector, which is invalidated when expanding
+			T value = element;
+
 			if (m_End == m_EndMax)
 				expand(1);
-			*m_End = element;
+			*m_End = std::move(value);
 
 			return m_End++;
 		}
@@ -321,9 +324,12 @@ namespace ktl
 		*/
 		iterator push_back(T&& element) noexcept
 		{
+			// The element may be part of this vector, which is invalidated when expanding
+			T value = std::move(element);
+
 			if (m_End == m_EndMax)
 				expand(1);
-			*m_End = std::move(element);
+			*m_End = std::move(value);
 
 			return m_End++;
 		}
@@ -358,9 +364,12 @@ namespace ktl
 		template<typename... Args>
 		iterator emplace_back(Args&&... args) noexcept
 		{
+			// The arguments may be part of this vector, which is invalidated when expanding
+			T value = T(std::forward<Args>(args)...);
+
 			if (m_End == m_EndMax)
 				expand(1);
-			*m_End = T(std::forward<Args>(args)...);
+			*m_End = std::move(value);
 
 			return m_End++;
 		}
-- 
2.43.0


From cfec363281e6c3a7231ae08293aecc5605ca9a44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:08 +0000
Subject: [PATCH 12/20] fix: assigning a container to itself no longer loses
 its elements

---
 include/ktl/containers/binary_heap.h    | 3 +++
 include/ktl/containers/trivial_array.h  | 3 +++
 include/ktl/containers/trivial_vector.h | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/include/ktl/containers/binary_heap.h b/include/ktl/containers/binary_heap.h
index b243ddd..1996eb2 100644
--- a/include/ktl/containers/binary_heap.h
+++ b/include/ktl/containers/binary_heap.h
@@ -184,6 +184,9 @@ namespace ktl
 
         binary_heap& operator=(const binary_heap& other) noexcept(std::is_nothrow_copy_assignable_v<T>)
         {
+            if (this == &other)
+                return *this;
+
             if (m_Begin)
             {
                 for (size_t i = 0; i < m_Size; i++)
diff --git a/include/ktl/containers/trivial_array.h b/include/ktl/containers/trivial_array.h
index 45140d3..03aba67 100644
--- a/include/ktl/containers/trivial_array.h
+++ b/include/ktl/containers/trivial_array.h
@@ -159,6 +159,9 @@ namespace ktl
 
 		trivial_array& operator=(const trivial_array& other) noexcept
 		{
+			if (this == &other)
+				return *this;
+
 			if (m_Begin != nullptr)
 				Traits::deallocate(m_Alloc, m_Begin, size());
 
diff --git a/include/ktl/containers/trivial_vector.h b/include/ktl/containers/trivial_vector.h
index 0df5f22..2d9b5a3 100644
--- a/include/ktl/containers/trivial_vector.h
+++ b/include/ktl/containers/trivial_vector.h
@@ -171,6 +171,9 @@ namespace ktl
 
 		trivial_vector& operator=(const trivial_vector& other) noexcept
 		{
+			if (this == &other)
+				return *this;
+
 			if (m_Begin != nullptr)
 				Traits::deallocate(m_Alloc, m_Begin, capacity());
 
-- 
2.43.0


From 96a213fcf1d35f4a3d9b78a26d6ab080d200c97e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:08 +0000
Subject: [PATCH 13/20] fix: moving a container to a new allocator returns the
 old memory with its size and destroys the old elements

---
 include/ktl/containers/binary_heap.h    | 9 +++++++--
 include/ktl/containers/trivial_array.h  | 2 +-
 include/ktl/containers/trivial_vector.h | 2 +-
 3 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/include/ktl/containers/binary_heap.h b/include/ktl/containers/binary_heap.h
index 1996eb2..b92891d 100644
--- a/include/ktl/containers/binary_heap.h
+++ b/include/ktl/containers/binary_heap.h
@@ -160,10 +160,15 @@ namespace ktl
         {
             // Moving using a different allocator means we can't just move, we have to reallocate
             for (size_t i = 0; i < m_Size; i++)
-                Traits::construct(m_Alloc, m_Begin + i, other.m_Begin[i]);
+                Traits::construct(m_Alloc, m_Begin + i, std::move(other.m_Begin[i]));
 
             if (other.m_Begin != nullptr)
-                Traits::deallocate(other.m_Alloc, other.m_Begin, other.m_Capacity * sizeof(T));
+            {
+                for (size_t i = 0; i < other.m_Size; i++)
+                    Traits::destroy(other.m_Alloc, other.m_Begin + i);
+
+                Traits::deallocate(other.m_Alloc, other.m_Begin, other.m_Capacity);
+            }
 
             other.m_Capacity = 0;
             other.m_Size = 0;
diff --git a/include/ktl/containers/trivial_array.h b/include/ktl/containers/trivial_array.h
index 03aba67..77923c8 100644
--- a/include/ktl/containers/trivial_array.h
+++ b/include/ktl/containers/trivial_array.h
@@ -144,7 +144,7 @@ namespace ktl
             {
                 std::memcpy(m_Begin, other.m_Begin, other.size() * sizeof(T));
                 
-                Traits::deallocate(other.m_Alloc, other.m_Begin, other.size() * sizeof(T));
+                Traits::deallocate(other.m_Alloc, other.m_Begin, other.size());
             }
             
 			other.m_Begin = nullptr;
diff --git a/include/ktl/containers/trivial_vector.h b/include/ktl/containers/trivial_vector.h
index 2d9b5a3..726773f 100644
--- a/include/ktl/containers/trivial_vector.h
+++ b/include/ktl/containers/trivial_vector.h
@@ -155,7 +155,7 @@ namespace ktl
             {
                 std::memcpy(m_Begin, other.m_Begin, other.size() * sizeof(T));
                 
-                Traits::deallocate(other.m_Alloc, other.m_Begin, other.capacity() * sizeof(T));
+                Traits::deallocate(other.m_Alloc, other.m_Begin, other.capacity());
             }
             
 			other.m_Begin = nullptr;
-- 
2.43.0


From e2533331c0f5f1143e0731dd4cd29f6c8c874d32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:08 +0000
Subject: [PATCH 14/20] fix: binary_heap::pop neither uses destroyed elements
 nor copies move-only ones

---
 include/ktl/containers/binary_heap.h | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/include/ktl/containers/binary_heap.h b/include/ktl/containers/binary_heap.h
index b92891d..60f77cf 100644
--- a/include/ktl/containers/binary_heap.h
+++ b/include/ktl/containers/binary_heap.h
@@ -334,11 +334,16 @@ namespace ktl
         {
             KTL_ASSERT(m_Size > 0);
 
-            T root = m_Begin[0];
+            T root = std::move(m_Begin[0]);
+
+            // The last element has nothing to replace it with
+            if (--m_Size > 0)
+                m_Begin[0] = std::move(m_Begin[m_Size]);
 
-            m_Begin[0] = std::move(m_Begin[--m_Size]);
             Traits::destroy(m_Alloc, m_Begin + m_Size);
-            percolateDown(0);
+
+            if (m_Size > 0)
+                percolateDown(0);
 
             return root;
         }
@@ -421,7 +426,7 @@ namespace ktl
 
         size_t percolateUp(size_t index)
         {
-            const T value = m_Begin[index];
+            T value = std::move(m_Begin[index]);
 
             while (index != 0 && m_Comp(value, m_Begin[parent(index)]))
             {
@@ -438,8 +443,6 @@ namespace ktl
         {
             size_t parent = index;
 
-            const T value = m_Begin[index];
-
             while (parent < m_Size)
             {
                 size_t l = left(parent);
@@ -456,14 +459,12 @@ namespace ktl
                 if (child == parent)
                     break;
 
-                const T temp(std::move(m_Begin[child]));
+                T temp(std::move(m_Begin[child]));
                 m_Begin[child] = std::move(m_Begin[parent]);
                 m_Begin[parent] = std::move(temp);
 
                 parent = child;
             }
-
-            m_Begin[parent] = std::move(value);
         }
 
     private:
-- 
2.43.0


From 28c2abd30bbd9ef8aca6b83fa849fccb9f9c3bb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:08 +0000
Subject: [PATCH 15/20] fix: inserting an element of a binary_heap into itself
 survives reallocation

---
 include/ktl/containers/binary_heap.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/ktl/containers/binary_heap.h b/include/ktl/containers/binary_heap.h
index 60f77cf..c503525 100644
--- a/include/ktl/containers/binary_heap.h
+++ b/include/ktl/containers/binary_heap.h
@@ -306,9 +306,16 @@ namespace ktl
         iterator insert(V&& value) noexcept
         {
             if (m_Size == m_Capacity)
+            {
+                // The value may be part of this heap, which is invalidated when expanding
+                T element(std::forward<V>(value));
+
                 expand(1);
 
-            Traits::construct(m_Alloc, m_Begin + m_Size, std::forward<V>(value));
+                Traits::construct(m_Alloc, m_Begin + m_Size, std::move(element));
+            }
+            else
+                Traits::construct(m_Alloc, m_Begin + m_Size, std::forward<V>(value));
 
             size_t index = percolateUp(m_Size++);
 
-- 
2.43.0


From bcc941069ff743eaa562c8e641db28b537da7d0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:08 +0000
Subject: [PATCH 16/20] fix: cascading::max_size works before the first
 allocation

---
 include/ktl/allocators/cascading.h | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/include/ktl/allocators/cascading.h b/include/ktl/allocators/cascading.h
index d32a927..8164ae5 100644
--- a/include/ktl/allocators/cascading.h
+++ b/include/ktl/allocators/cascading.h
@@ -236,7 +236,17 @@ namespace ktl
 		max_size() const
 			noexcept(detail::has_nothrow_max_size_v<A>)
 		{
-			return m_Node->Allocator.max_size();
+			if (m_Node)
+				return m_Node->Allocator.max_size();
+
+			// Nothing has been allocated yet, so ask the kind of allocator that would be used
+			Alloc* alloc = detail::aligned_new<Alloc>(detail::ALIGNMENT);
+
+			size_type n = alloc->max_size();
+
+			detail::aligned_delete(alloc);
+
+			return n;
 		}
 
 		/**
-- 
2.43.0


From ac8cf8a98239aceff1ececd38c5cbecbaa4ae2ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:08 +0000
Subject: [PATCH 17/20] fix: cascading no longer keeps an allocator for every
 allocation that fails

---
 include/ktl/allocators/cascading.h | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/include/ktl/allocators/cascading.h b/include/ktl/allocators/cascading.h
index 8164ae5..68cca5e 100644
--- a/include/ktl/allocators/cascading.h
+++ b/include/ktl/allocators/cascading.h
@@ -110,12 +110,20 @@ namespace ktl
 			// If the allocator was unable to allocate it, create a new one
 			if (p == nullptr)
 			{
-				node* next = m_Node;
+				node* next = detail::aligned_new<node>(detail::ALIGNMENT);
 
-				m_Node = detail::aligned_new<node>(detail::ALIGNMENT);
-				m_Node->Next = next;
+				p = next->Allocator.allocate(n);
+
+				// If not even an unused allocator can allocate it, then there's no use for another one
+				if (p == nullptr)
+				{
+					detail::aligned_delete(next);
+
+					return nullptr;
+				}
 
-				p = m_Node->Allocator.allocate(n);
+				next->Next = m_Node;
+				m_Node = next;
 			}
 
 			if (p)
-- 
2.43.0


From abca408b95ac3e5f8e3ba98cc7e88f9b62b63763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:08 +0000
Subject: [PATCH 18/20] fix: cascading returns nullptr when it is out of memory
 for another allocator

---
 include/ktl/allocators/cascading.h   | 9 +++++++++
 include/ktl/utility/aligned_malloc.h | 2 ++
 2 files changed, 11 insertions(+)

diff --git a/include/ktl/allocators/cascading.h b/include/ktl/allocators/cascading.h
index 68cca5e..1a8ab53 100644
--- a/include/ktl/allocators/cascading.h
+++ b/include/ktl/allocators/cascading.h
@@ -99,6 +99,9 @@ namespace ktl
 			if (!m_Node)
 				m_Node = detail::aligned_new<node>(detail::ALIGNMENT);
 
+			if (!m_Node)
+				return nullptr;
+
 			if constexpr (detail::has_max_size_v<Alloc>)
 			{
 				if (n > m_Node->Allocator.max_size())
@@ -112,6 +115,9 @@ namespace ktl
 			{
 				node* next = detail::aligned_new<node>(detail::ALIGNMENT);
 
+				if (!next)
+					return nullptr;
+
 				p = next->Allocator.allocate(n);
 
 				// If not even an unused allocator can allocate it, then there's no use for another one
@@ -250,6 +256,9 @@ namespace ktl
 			// Nothing has been allocated yet, so ask the kind of allocator that would be used
 			Alloc* alloc = detail::aligned_new<Alloc>(detail::ALIGNMENT);
 
+			if (!alloc)
+				return 0;
+
 			size_type n = alloc->max_size();
 
 			detail::aligned_delete(alloc);
diff --git a/include/ktl/utility/aligned_malloc.h b/include/ktl/utility/aligned_malloc.h
index 694f1df..71704d6 100644
--- a/include/ktl/utility/aligned_malloc.h
+++ b/include/ktl/utility/aligned_malloc.h
@@ -91,6 +91,8 @@ namespace ktl::detail
         noexcept(noexcept(T(std::declval<Args>()...)))
     {
         T* p = static_cast<T*>(aligned_malloc(sizeof(T), alignment));
+        if (p == nullptr)
+            return nullptr;
         ::new(p) T(std::forward<Args>(args)...);
         return p;
     }
-- 
2.43.0


From 6f8baed52e0e2f9d1c75f559e22694d5502f8f19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:08 +0000
Subject: [PATCH 19/20] fix: assigning to a linear_allocator also resets how
 much of it is in use

---
 include/ktl/allocators/linear_allocator.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/ktl/allocators/linear_allocator.h b/include/ktl/allocators/linear_allocator.h
index 63e25f7..1ba9db4 100644
--- a/include/ktl/allocators/linear_allocator.h
+++ b/include/ktl/allocators/linear_allocator.h
@@ -49,6 +49,7 @@ namespace ktl
 		linear_allocator& operator=(linear_allocator&& rhs) noexcept
 		{
 			m_Free = m_Data;
+			m_ObjectCount = 0;
 
 			// Moving raw allocators in use is undefined
 			KTL_ASSERT(rhs.m_ObjectCount == 0);
-- 
2.43.0


From 7e23799ac325e100a48745381f933da68de5a23c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:08 +0000
Subject: [PATCH 20/20] fix: trivial_buffer iterators and const access compile,
 and its storage is aligned

---
 include/ktl/containers/trivial_buffer.h | 35 ++++++++++++++++---------
 1 file changed, 22 insertions(+), 13 deletions(-)

diff --git a/include/ktl/containers/trivial_buffer.h b/include/ktl/containers/trivial_buffer.h
index 33ea2b9..2b5ba53 100644
--- a/include/ktl/containers/trivial_buffer.h
+++ b/include/ktl/containers/trivial_buffer.h
@@ -2,6 +2,7 @@
 
 #include "../utility/assert.h"
 
+#include <cstdint>
 #include <cstring>
 #include <iterator>
 #include <memory>
@@ -89,24 +90,24 @@ namespace ktl
 		 * @param index The index of the element in the buffer.
 		 * @return A reference to the element at @p index.
 		*/
-		const T& operator[](size_t index) const noexcept { return reinterpret_cast<T*>(m_Data)[index % Size]; }
+		const T& operator[](size_t index) const noexcept { return reinterpret_cast<const T*>(m_Data)[index % Size]; }
 
 
-		iterator begin() noexcept { return m_Data; }
+		iterator begin() noexcept { return reinterpret_cast<T*>(m_Data); }
 
-		const_iterator begin() const noexcept { return m_Data; }
+		const_iterator begin() const noexcept { return reinterpret_cast<const T*>(m_Data); }
 
-		iterator end() noexcept { return m_Data + Size; }
+		iterator end() noexcept { return begin() + Size; }
 
-		const_iterator end() const noexcept { return m_Data + Size; }
+		const_iterator end() const noexcept { return begin() + Size; }
 
-		std::reverse_iterator<T*> rbegin() noexcept { return std::reverse_iterator(m_Data + Size); }
+		std::reverse_iterator<T*> rbegin() noexcept { return std::reverse_iterator(end()); }
 
-		std::reverse_iterator<const T*> rbegin() const noexcept { return std::reverse_iterator(m_Data + Size); }
+		std::reverse_iterator<const T*> rbegin() const noexcept { return std::reverse_iterator(end()); }
 
-		std::reverse_iterator<T*> rend() noexcept { return std::reverse_iterator(m_Data); }
+		std::reverse_iterator<T*> rend() noexcept { return std::reverse_iterator(begin()); }
 
-		std::reverse_iterator<const T*> rend() const noexcept { return std::reverse_iterator(m_Data); }
+		std::reverse_iterator<const T*> rend() const noexcept { return std::reverse_iterator(begin()); }
 
 
 		/**
@@ -119,13 +120,13 @@ namespace ktl
 		 * @brief Returns an iterator to the start of the buffer.
 		 * @return An iterator to the start of the buffer.
 		*/
-		iterator data() noexcept { return m_Data; }
+		iterator data() noexcept { return reinterpret_cast<T*>(m_Data); }
 
 		/**
 		 * @brief Returns a const iterator to the start of the buffer.
 		 * @return A const iterator to the start of the buffer.
 		*/
-		const_iterator data() const noexcept { return m_Data; }
+		const_iterator data() const noexcept { return reinterpret_cast<const T*>(m_Data); }
 
 		/**
 		 * @brief Returns a reference to the element at @p index, rolling.
@@ -133,7 +134,15 @@ namespace ktl
 		 * @param index The index of the element in the buffer.
 		 * @return A reference to the element at @p index.
 		*/
-		T& at(size_t index) const noexcept { return reinterpret_cast<T*>(m_Data)[index % Size]; }
+		T& at(size_t index) noexcept { return reinterpret_cast<T*>(m_Data)[index % Size]; }
+
+		/**
+		 * @brief Returns a const reference to the element at @p index, rolling.
+		 * @note An index higher than size() will roll back to the start of the buffer.
+		 * @param index The index of the element in the buffer.
+		 * @return A reference to the element at @p index.
+		*/
+		const T& at(size_t index) const noexcept { return reinterpret_cast<const T*>(m_Data)[index % Size]; }
 
 
 		/**
@@ -149,6 +158,6 @@ namespace ktl
 		}
 
 	private:
-		uint8_t m_Data[Size * sizeof(T)];
+		alignas(T) uint8_t m_Data[Size * sizeof(T)];
 	};
 }
\ No newline at end of file
-- 
2.43.0

