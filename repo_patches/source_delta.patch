From b5eadd1eba663e72e2615f02f2c3077d2fecccff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:10 +0000
Subject: [PATCH 01/25] fix: segmented_vector, segmented_devector: swap
 allocators only once

swap() exchanged the allocators explicitly and then again as part of data_,
so with propagate_on_container_swap each container kept its allocator but
got the memory of the other one.
---
 include/sfl/segmented_devector.hpp | 7 ++++++-
 include/sfl/segmented_vector.hpp   | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/include/sfl/segmented_devector.hpp b/include/sfl/segmented_devector.hpp
index 45cd92e..600ba74 100644
--- a/include/sfl/segmented_devector.hpp
+++ b/include/sfl/segmented_devector.hpp
@@ -1173,7 +1173,12 @@ public:
             swap(this->data_.ref_to_alloc(), other.data_.ref_to_alloc());
         }
 
-        swap(this->data_, other.data_);
+        // Swap everything except allocator.
+        swap
+        (
+            static_cast<data_base&>(this->data_),
+            static_cast<data_base&>(other.data_)
+        );
     }
 
 private:
diff --git a/include/sfl/segmented_vector.hpp b/include/sfl/segmented_vector.hpp
index d5c9e50..b7a6ee8 100644
--- a/include/sfl/segmented_vector.hpp
+++ b/include/sfl/segmented_vector.hpp
@@ -805,7 +805,12 @@ public:
             swap(this->data_.ref_to_alloc(), other.data_.ref_to_alloc());
         }
 
-        swap(this->data_, other.data_);
+        // Swap everything except allocator.
+        swap
+        (
+            static_cast<data_base&>(this->data_),
+            static_cast<data_base&>(other.data_)
+        );
     }
 
 private:
-- 
2.43.0


From b0b5a4303939d3bf0f837df1996ad8355e280515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:10 +0000
Subject: [PATCH 02/25] fix: devector: deallocate storage from its beginning in
 reset()

---
 include/sfl/devector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sfl/devector.hpp b/include/sfl/devector.hpp
index 9c33ae8..eb279db 100644
--- a/include/sfl/devector.hpp
+++ b/include/sfl/devector.hpp
@@ -1394,7 +1394,7 @@ private:
         sfl::dtl::deallocate
         (
             data_.ref_to_alloc(),
-            data_.first_,
+            data_.bos_,
             std::distance(data_.bos_, data_.eos_)
         );
 
-- 
2.43.0


From 5a85224faf2ec6ef29b97b2bcc4129826bcaf883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:10 +0000
Subject: [PATCH 03/25] fix: devector: resize with a value that refers to an
 element of the container

resize(), resize_front() and resize_back() used value after the storage was
reallocated.
---
 include/sfl/devector.hpp | 73 +++++++++++++++++++++++++++++-----------
 1 file changed, 53 insertions(+), 20 deletions(-)

diff --git a/include/sfl/devector.hpp b/include/sfl/devector.hpp
index eb279db..68dd588 100644
--- a/include/sfl/devector.hpp
+++ b/include/sfl/devector.hpp
@@ -1014,6 +1014,9 @@ public:
                 }
                 else
                 {
+                    // Value may refer to an element of this container.
+                    const value_type tmp(value);
+
                     grow_storage_back(n - (available_front + size + available_back));
 
                     data_.last_ = sfl::dtl::uninitialized_fill_n_a
@@ -1021,7 +1024,7 @@ public:
                         data_.ref_to_alloc(),
                         data_.last_,
                         n - (size + available_front),
-                        value
+                        tmp
                     );
 
                     sfl::dtl::uninitialized_fill_a
@@ -1029,7 +1032,7 @@ public:
                         data_.ref_to_alloc(),
                         data_.bos_,
                         data_.first_,
-                        value
+                        tmp
                     );
 
                     data_.first_ = data_.bos_;
@@ -1100,20 +1103,37 @@ public:
 
             if (n > size + available_front)
             {
+                // Value may refer to an element of this container.
+                const value_type tmp(value);
+
                 grow_storage_front(n - (size + available_front));
-            }
 
-            const pointer new_first = data_.first_ - (n - size);
+                const pointer new_first = data_.first_ - (n - size);
 
-            sfl::dtl::uninitialized_fill_a
-            (
-                data_.ref_to_alloc(),
-                new_first,
-                data_.first_,
-                value
-            );
+                sfl::dtl::uninitialized_fill_a
+                (
+                    data_.ref_to_alloc(),
+                    new_first,
+                    data_.first_,
+                    tmp
+                );
 
-            data_.first_ = new_first;
+                data_.first_ = new_first;
+            }
+            else
+            {
+                const pointer new_first = data_.first_ - (n - size);
+
+                sfl::dtl::uninitialized_fill_a
+                (
+                    data_.ref_to_alloc(),
+                    new_first,
+                    data_.first_,
+                    value
+                );
+
+                data_.first_ = new_first;
+            }
         }
     }
 
@@ -1175,16 +1195,29 @@ public:
 
             if (n > size + available_back)
             {
+                // Value may refer to an element of this container.
+                const value_type tmp(value);
+
                 grow_storage_back(n - (size + available_back));
-            }
 
-            data_.last_ = sfl::dtl::uninitialized_fill_n_a
-            (
-                data_.ref_to_alloc(),
-                data_.last_,
-                n - size,
-                value
-            );
+                data_.last_ = sfl::dtl::uninitialized_fill_n_a
+                (
+                    data_.ref_to_alloc(),
+                    data_.last_,
+                    n - size,
+                    tmp
+                );
+            }
+            else
+            {
+                data_.last_ = sfl::dtl::uninitialized_fill_n_a
+                (
+                    data_.ref_to_alloc(),
+                    data_.last_,
+                    n - size,
+                    value
+                );
+            }
         }
     }
 
-- 
2.43.0


From a299cc396c3fb77c5132579c29a923e32f9eb35b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:10 +0000
Subject: [PATCH 04/25] fix: compact_vector: resize with a value that refers to
 an element of the container

The value was copied after the elements were moved to the new storage.
---
 include/sfl/compact_vector.hpp | 47 ++++++++++++++++++++++++----------
 1 file changed, 34 insertions(+), 13 deletions(-)

diff --git a/include/sfl/compact_vector.hpp b/include/sfl/compact_vector.hpp
index a1dadd1..1e67908 100644
--- a/include/sfl/compact_vector.hpp
+++ b/include/sfl/compact_vector.hpp
@@ -842,6 +842,21 @@ public:
         {
             if (n > size())
             {
+                // Value may refer to an element of this container, so
+                // construct new elements before moving old elements.
+
+                const pointer p = new_first + size();
+
+                sfl::dtl::uninitialized_fill_n_a
+                (
+                    data_.ref_to_alloc(),
+                    p,
+                    n - size(),
+                    value
+                );
+
+                new_last = nullptr;
+
                 new_last = sfl::dtl::uninitialized_move_if_noexcept_a
                 (
                     data_.ref_to_alloc(),
@@ -850,13 +865,7 @@ public:
                     new_first
                 );
 
-                new_last = sfl::dtl::uninitialized_fill_n_a
-                (
-                    data_.ref_to_alloc(),
-                    new_last,
-                    n - size(),
-                    value
-                );
+                new_last += n - size();
             }
             else if (n < size())
             {
@@ -871,12 +880,24 @@ public:
         }
         SFL_CATCH (...)
         {
-            sfl::dtl::destroy_a
-            (
-                data_.ref_to_alloc(),
-                new_first,
-                new_last
-            );
+            if (new_last == nullptr)
+            {
+                sfl::dtl::destroy_n_a
+                (
+                    data_.ref_to_alloc(),
+                    new_first + size(),
+                    n - size()
+                );
+            }
+            else
+            {
+                sfl::dtl::destroy_a
+                (
+                    data_.ref_to_alloc(),
+                    new_first,
+                    new_last
+                );
+            }
 
             sfl::dtl::deallocate
             (
-- 
2.43.0


From 6cbfca8ebcd9b48f9ccab7031388b108f0135f73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:44 +0000
Subject: [PATCH 05/25] fix: devector: insert n copies of an element of the
 container

insert(pos, n, value) read value after the elements were moved.
---
 include/sfl/devector.hpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/include/sfl/devector.hpp b/include/sfl/devector.hpp
index 68dd588..0b78926 100644
--- a/include/sfl/devector.hpp
+++ b/include/sfl/devector.hpp
@@ -4082,7 +4082,16 @@ private:
 
     iterator insert_fill_n(const_iterator pos, size_type n, const T& value)
     {
-        insert_fill_n_proxy proxy(value);
+        if (n == 0)
+        {
+            return begin() + std::distance(cbegin(), pos);
+        }
+
+        // Value may refer to an element of this container.
+        const value_type tmp(value);
+
+        insert_fill_n_proxy proxy(tmp);
+
         return insert_aux(pos, n, proxy);
     }
 
-- 
2.43.0


From 587702b2ea74602da59d9b05309ebf7136551bc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:44 +0000
Subject: [PATCH 06/25] fix: small containers: moved-from container goes back
 to its internal storage

After its heap storage was taken over, the moved-from container was left
without storage (capacity() 0), so it allocated memory although it held
less than N elements.
---
 include/sfl/small_flat_map.hpp                | 12 ++++++------
 include/sfl/small_flat_multimap.hpp           | 12 ++++++------
 include/sfl/small_flat_multiset.hpp           | 12 ++++++------
 include/sfl/small_flat_set.hpp                | 12 ++++++------
 include/sfl/small_unordered_flat_map.hpp      | 12 ++++++------
 include/sfl/small_unordered_flat_multimap.hpp | 12 ++++++------
 include/sfl/small_unordered_flat_multiset.hpp | 12 ++++++------
 include/sfl/small_unordered_flat_set.hpp      | 12 ++++++------
 include/sfl/small_vector.hpp                  | 12 ++++++------
 9 files changed, 54 insertions(+), 54 deletions(-)

diff --git a/include/sfl/small_flat_map.hpp b/include/sfl/small_flat_map.hpp
index 181c486..ad26ab7 100644
--- a/include/sfl/small_flat_map.hpp
+++ b/include/sfl/small_flat_map.hpp
@@ -1642,9 +1642,9 @@ private:
             data_.last_  = other.data_.last_;
             data_.eos_   = other.data_.eos_;
 
-            other.data_.first_ = nullptr;
-            other.data_.last_  = nullptr;
-            other.data_.eos_   = nullptr;
+            other.data_.first_ = other.data_.internal_storage();
+            other.data_.last_  = other.data_.first_;
+            other.data_.eos_   = other.data_.first_ + N;
         }
         else
         {
@@ -1794,9 +1794,9 @@ private:
             data_.last_  = other.data_.last_;
             data_.eos_   = other.data_.eos_;
 
-            other.data_.first_ = nullptr;
-            other.data_.last_  = nullptr;
-            other.data_.eos_   = nullptr;
+            other.data_.first_ = other.data_.internal_storage();
+            other.data_.last_  = other.data_.first_;
+            other.data_.eos_   = other.data_.first_ + N;
         }
         else
         {
diff --git a/include/sfl/small_flat_multimap.hpp b/include/sfl/small_flat_multimap.hpp
index d725df0..bf5ad66 100644
--- a/include/sfl/small_flat_multimap.hpp
+++ b/include/sfl/small_flat_multimap.hpp
@@ -1460,9 +1460,9 @@ private:
             data_.last_  = other.data_.last_;
             data_.eos_   = other.data_.eos_;
 
-            other.data_.first_ = nullptr;
-            other.data_.last_  = nullptr;
-            other.data_.eos_   = nullptr;
+            other.data_.first_ = other.data_.internal_storage();
+            other.data_.last_  = other.data_.first_;
+            other.data_.eos_   = other.data_.first_ + N;
         }
         else
         {
@@ -1612,9 +1612,9 @@ private:
             data_.last_  = other.data_.last_;
             data_.eos_   = other.data_.eos_;
 
-            other.data_.first_ = nullptr;
-            other.data_.last_  = nullptr;
-            other.data_.eos_   = nullptr;
+            other.data_.first_ = other.data_.internal_storage();
+            other.data_.last_  = other.data_.first_;
+            other.data_.eos_   = other.data_.first_ + N;
         }
         else
         {
diff --git a/include/sfl/small_flat_multiset.hpp b/include/sfl/small_flat_multiset.hpp
index f9795fc..d53bfbc 100644
--- a/include/sfl/small_flat_multiset.hpp
+++ b/include/sfl/small_flat_multiset.hpp
@@ -1387,9 +1387,9 @@ private:
             data_.last_  = other.data_.last_;
             data_.eos_   = other.data_.eos_;
 
-            other.data_.first_ = nullptr;
-            other.data_.last_  = nullptr;
-            other.data_.eos_   = nullptr;
+            other.data_.first_ = other.data_.internal_storage();
+            other.data_.last_  = other.data_.first_;
+            other.data_.eos_   = other.data_.first_ + N;
         }
         else
         {
@@ -1539,9 +1539,9 @@ private:
             data_.last_  = other.data_.last_;
             data_.eos_   = other.data_.eos_;
 
-            other.data_.first_ = nullptr;
-            other.data_.last_  = nullptr;
-            other.data_.eos_   = nullptr;
+            other.data_.first_ = other.data_.internal_storage();
+            other.data_.last_  = other.data_.first_;
+            other.data_.eos_   = other.data_.first_ + N;
         }
         else
         {
diff --git a/include/sfl/small_flat_set.hpp b/include/sfl/small_flat_set.hpp
index 11391a7..3166f76 100644
--- a/include/sfl/small_flat_set.hpp
+++ b/include/sfl/small_flat_set.hpp
@@ -1408,9 +1408,9 @@ private:
             data_.last_  = other.data_.last_;
             data_.eos_   = other.data_.eos_;
 
-            other.data_.first_ = nullptr;
-            other.data_.last_  = nullptr;
-            other.data_.eos_   = nullptr;
+            other.data_.first_ = other.data_.internal_storage();
+            other.data_.last_  = other.data_.first_;
+            other.data_.eos_   = other.data_.first_ + N;
         }
         else
         {
@@ -1560,9 +1560,9 @@ private:
             data_.last_  = other.data_.last_;
             data_.eos_   = other.data_.eos_;
 
-            other.data_.first_ = nullptr;
-            other.data_.last_  = nullptr;
-            other.data_.eos_   = nullptr;
+            other.data_.first_ = other.data_.internal_storage();
+            other.data_.last_  = other.data_.first_;
+            other.data_.eos_   = other.data_.first_ + N;
         }
         else
         {
diff --git a/include/sfl/small_unordered_flat_map.hpp b/include/sfl/small_unordered_flat_map.hpp
index 88226e6..8f0cb19 100644
--- a/include/sfl/small_unordered_flat_map.hpp
+++ b/include/sfl/small_unordered_flat_map.hpp
@@ -1563,9 +1563,9 @@ private:
             data_.last_  = other.data_.last_;
             data_.eos_   = other.data_.eos_;
 
-            other.data_.first_ = nullptr;
-            other.data_.last_  = nullptr;
-            other.data_.eos_   = nullptr;
+            other.data_.first_ = other.data_.internal_storage();
+            other.data_.last_  = other.data_.first_;
+            other.data_.eos_   = other.data_.first_ + N;
         }
         else
         {
@@ -1715,9 +1715,9 @@ private:
             data_.last_  = other.data_.last_;
             data_.eos_   = other.data_.eos_;
 
-            other.data_.first_ = nullptr;
-            other.data_.last_  = nullptr;
-            other.data_.eos_   = nullptr;
+            other.data_.first_ = other.data_.internal_storage();
+            other.data_.last_  = other.data_.first_;
+            other.data_.eos_   = other.data_.first_ + N;
         }
         else
         {
diff --git a/include/sfl/small_unordered_flat_multimap.hpp b/include/sfl/small_unordered_flat_multimap.hpp
index c8711e0..6fdf0f2 100644
--- a/include/sfl/small_unordered_flat_multimap.hpp
+++ b/include/sfl/small_unordered_flat_multimap.hpp
@@ -1422,9 +1422,9 @@ private:
             data_.last_  = other.data_.last_;
             data_.eos_   = other.data_.eos_;
 
-            other.data_.first_ = nullptr;
-            other.data_.last_  = nullptr;
-            other.data_.eos_   = nullptr;
+            other.data_.first_ = other.data_.internal_storage();
+            other.data_.last_  = other.data_.first_;
+            other.data_.eos_   = other.data_.first_ + N;
         }
         else
         {
@@ -1574,9 +1574,9 @@ private:
             data_.last_  = other.data_.last_;
             data_.eos_   = other.data_.eos_;
 
-            other.data_.first_ = nullptr;
-            other.data_.last_  = nullptr;
-            other.data_.eos_   = nullptr;
+            other.data_.first_ = other.data_.internal_storage();
+            other.data_.last_  = other.data_.first_;
+            other.data_.eos_   = other.data_.first_ + N;
         }
         else
         {
diff --git a/include/sfl/small_unordered_flat_multiset.hpp b/include/sfl/small_unordered_flat_multiset.hpp
index 000660c..a08eb90 100644
--- a/include/sfl/small_unordered_flat_multiset.hpp
+++ b/include/sfl/small_unordered_flat_multiset.hpp
@@ -1336,9 +1336,9 @@ private:
             data_.last_  = other.data_.last_;
             data_.eos_   = other.data_.eos_;
 
-            other.data_.first_ = nullptr;
-            other.data_.last_  = nullptr;
-            other.data_.eos_   = nullptr;
+            other.data_.first_ = other.data_.internal_storage();
+            other.data_.last_  = other.data_.first_;
+            other.data_.eos_   = other.data_.first_ + N;
         }
         else
         {
@@ -1488,9 +1488,9 @@ private:
             data_.last_  = other.data_.last_;
             data_.eos_   = other.data_.eos_;
 
-            other.data_.first_ = nullptr;
-            other.data_.last_  = nullptr;
-            other.data_.eos_   = nullptr;
+            other.data_.first_ = other.data_.internal_storage();
+            other.data_.last_  = other.data_.first_;
+            other.data_.eos_   = other.data_.first_ + N;
         }
         else
         {
diff --git a/include/sfl/small_unordered_flat_set.hpp b/include/sfl/small_unordered_flat_set.hpp
index fd52396..7df4441 100644
--- a/include/sfl/small_unordered_flat_set.hpp
+++ b/include/sfl/small_unordered_flat_set.hpp
@@ -1316,9 +1316,9 @@ private:
             data_.last_  = other.data_.last_;
             data_.eos_   = other.data_.eos_;
 
-            other.data_.first_ = nullptr;
-            other.data_.last_  = nullptr;
-            other.data_.eos_   = nullptr;
+            other.data_.first_ = other.data_.internal_storage();
+            other.data_.last_  = other.data_.first_;
+            other.data_.eos_   = other.data_.first_ + N;
         }
         else
         {
@@ -1468,9 +1468,9 @@ private:
             data_.last_  = other.data_.last_;
             data_.eos_   = other.data_.eos_;
 
-            other.data_.first_ = nullptr;
-            other.data_.last_  = nullptr;
-            other.data_.eos_   = nullptr;
+            other.data_.first_ = other.data_.internal_storage();
+            other.data_.last_  = other.data_.first_;
+            other.data_.eos_   = other.data_.first_ + N;
         }
         else
         {
diff --git a/include/sfl/small_vector.hpp b/include/sfl/small_vector.hpp
index 0d2c6b0..95e1ac7 100644
--- a/include/sfl/small_vector.hpp
+++ b/include/sfl/small_vector.hpp
@@ -1790,9 +1790,9 @@ private:
             data_.last_  = other.data_.last_;
             data_.eos_   = other.data_.eos_;
 
-            other.data_.first_ = nullptr;
-            other.data_.last_  = nullptr;
-            other.data_.eos_   = nullptr;
+            other.data_.first_ = other.data_.internal_storage();
+            other.data_.last_  = other.data_.first_;
+            other.data_.eos_   = other.data_.first_ + N;
         }
         else
         {
@@ -2032,9 +2032,9 @@ private:
             data_.last_  = other.data_.last_;
             data_.eos_   = other.data_.eos_;
 
-            other.data_.first_ = nullptr;
-            other.data_.last_  = nullptr;
-            other.data_.eos_   = nullptr;
+            other.data_.first_ = other.data_.internal_storage();
+            other.data_.last_  = other.data_.first_;
+            other.data_.eos_   = other.data_.first_ + N;
         }
         else
         {
-- 
2.43.0


From 9b325a76dfc8b54323f92ad81151fb9a0f55326d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:02 +0000
Subject: [PATCH 07/25] fix: compact_vector: deallocate with the allocated size
 when assign fails

---
 include/sfl/compact_vector.hpp | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/include/sfl/compact_vector.hpp b/include/sfl/compact_vector.hpp
index 1e67908..7a22c0c 100644
--- a/include/sfl/compact_vector.hpp
+++ b/include/sfl/compact_vector.hpp
@@ -1226,7 +1226,16 @@ private:
             }
             SFL_CATCH (...)
             {
-                clear();
+                sfl::dtl::deallocate
+                (
+                    data_.ref_to_alloc(),
+                    data_.first_,
+                    n
+                );
+
+                data_.first_ = nullptr;
+                data_.last_  = nullptr;
+
                 SFL_RETHROW;
             }
         }
@@ -1287,7 +1296,16 @@ private:
             }
             SFL_CATCH (...)
             {
-                clear();
+                sfl::dtl::deallocate
+                (
+                    data_.ref_to_alloc(),
+                    data_.first_,
+                    n
+                );
+
+                data_.first_ = nullptr;
+                data_.last_  = nullptr;
+
                 SFL_RETHROW;
             }
         }
-- 
2.43.0


From 20e73d06a36a44f3c91b4c91ad818d01fa70089b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:55 +0000
Subject: [PATCH 08/25] fix: small containers: keep allocators with their
 memory when swap() throws

Allocators were swapped before the elements. If moving an element threw,
each container was left with memory allocated by the other's allocator.
---
 include/sfl/small_flat_map.hpp                | 13 ++++++++-----
 include/sfl/small_flat_multimap.hpp           | 13 ++++++++-----
 include/sfl/small_flat_multiset.hpp           | 13 ++++++++-----
 include/sfl/small_flat_set.hpp                | 13 ++++++++-----
 include/sfl/small_unordered_flat_map.hpp      | 13 ++++++++-----
 include/sfl/small_unordered_flat_multimap.hpp | 13 ++++++++-----
 include/sfl/small_unordered_flat_multiset.hpp | 13 ++++++++-----
 include/sfl/small_unordered_flat_set.hpp      | 13 ++++++++-----
 include/sfl/small_vector.hpp                  | 13 ++++++++-----
 9 files changed, 72 insertions(+), 45 deletions(-)

diff --git a/include/sfl/small_flat_map.hpp b/include/sfl/small_flat_map.hpp
index ad26ab7..edfad77 100644
--- a/include/sfl/small_flat_map.hpp
+++ b/include/sfl/small_flat_map.hpp
@@ -1082,11 +1082,6 @@ public:
         // One allocator can safely destroy_a elements constructed by other
         // allocator regardless the two allocators compare equal or not.
 
-        if (allocator_traits::propagate_on_container_swap::value)
-        {
-            swap(this->data_.ref_to_alloc(), other.data_.ref_to_alloc());
-        }
-
         swap(this->data_.ref_to_comp(), other.data_.ref_to_comp());
 
         if
@@ -1222,6 +1217,14 @@ public:
             swap(this->data_.last_,  other.data_.last_);
             swap(this->data_.eos_,   other.data_.eos_);
         }
+
+        // Swapping allocators is the last step, because operations above may
+        // throw and each allocator must stay with the memory it allocated.
+
+        if (allocator_traits::propagate_on_container_swap::value)
+        {
+            swap(this->data_.ref_to_alloc(), other.data_.ref_to_alloc());
+        }
     }
 
     //
diff --git a/include/sfl/small_flat_multimap.hpp b/include/sfl/small_flat_multimap.hpp
index bf5ad66..aa64a24 100644
--- a/include/sfl/small_flat_multimap.hpp
+++ b/include/sfl/small_flat_multimap.hpp
@@ -974,11 +974,6 @@ public:
         // One allocator can safely destroy_a elements constructed by other
         // allocator regardless the two allocators compare equal or not.
 
-        if (allocator_traits::propagate_on_container_swap::value)
-        {
-            swap(this->data_.ref_to_alloc(), other.data_.ref_to_alloc());
-        }
-
         swap(this->data_.ref_to_comp(), other.data_.ref_to_comp());
 
         if
@@ -1114,6 +1109,14 @@ public:
             swap(this->data_.last_,  other.data_.last_);
             swap(this->data_.eos_,   other.data_.eos_);
         }
+
+        // Swapping allocators is the last step, because operations above may
+        // throw and each allocator must stay with the memory it allocated.
+
+        if (allocator_traits::propagate_on_container_swap::value)
+        {
+            swap(this->data_.ref_to_alloc(), other.data_.ref_to_alloc());
+        }
     }
 
     //
diff --git a/include/sfl/small_flat_multiset.hpp b/include/sfl/small_flat_multiset.hpp
index d53bfbc..b3d638f 100644
--- a/include/sfl/small_flat_multiset.hpp
+++ b/include/sfl/small_flat_multiset.hpp
@@ -901,11 +901,6 @@ public:
         // One allocator can safely destroy_a elements constructed by other
         // allocator regardless the two allocators compare equal or not.
 
-        if (allocator_traits::propagate_on_container_swap::value)
-        {
-            swap(this->data_.ref_to_alloc(), other.data_.ref_to_alloc());
-        }
-
         swap(this->data_.ref_to_comp(), other.data_.ref_to_comp());
 
         if
@@ -1041,6 +1036,14 @@ public:
             swap(this->data_.last_,  other.data_.last_);
             swap(this->data_.eos_,   other.data_.eos_);
         }
+
+        // Swapping allocators is the last step, because operations above may
+        // throw and each allocator must stay with the memory it allocated.
+
+        if (allocator_traits::propagate_on_container_swap::value)
+        {
+            swap(this->data_.ref_to_alloc(), other.data_.ref_to_alloc());
+        }
     }
 
     //
diff --git a/include/sfl/small_flat_set.hpp b/include/sfl/small_flat_set.hpp
index 3166f76..c98ef18 100644
--- a/include/sfl/small_flat_set.hpp
+++ b/include/sfl/small_flat_set.hpp
@@ -924,11 +924,6 @@ public:
         // One allocator can safely destroy_a elements constructed by other
         // allocator regardless the two allocators compare equal or not.
 
-        if (allocator_traits::propagate_on_container_swap::value)
-        {
-            swap(this->data_.ref_to_alloc(), other.data_.ref_to_alloc());
-        }
-
         swap(this->data_.ref_to_comp(), other.data_.ref_to_comp());
 
         if
@@ -1064,6 +1059,14 @@ public:
             swap(this->data_.last_,  other.data_.last_);
             swap(this->data_.eos_,   other.data_.eos_);
         }
+
+        // Swapping allocators is the last step, because operations above may
+        // throw and each allocator must stay with the memory it allocated.
+
+        if (allocator_traits::propagate_on_container_swap::value)
+        {
+            swap(this->data_.ref_to_alloc(), other.data_.ref_to_alloc());
+        }
     }
 
     //
diff --git a/include/sfl/small_unordered_flat_map.hpp b/include/sfl/small_unordered_flat_map.hpp
index 8f0cb19..4aa6b51 100644
--- a/include/sfl/small_unordered_flat_map.hpp
+++ b/include/sfl/small_unordered_flat_map.hpp
@@ -1083,11 +1083,6 @@ public:
         // One allocator can safely destroy_a elements constructed by other
         // allocator regardless the two allocators compare equal or not.
 
-        if (allocator_traits::propagate_on_container_swap::value)
-        {
-            swap(this->data_.ref_to_alloc(), other.data_.ref_to_alloc());
-        }
-
         swap(this->data_.ref_to_equal(), other.data_.ref_to_equal());
 
         if
@@ -1223,6 +1218,14 @@ public:
             swap(this->data_.last_,  other.data_.last_);
             swap(this->data_.eos_,   other.data_.eos_);
         }
+
+        // Swapping allocators is the last step, because operations above may
+        // throw and each allocator must stay with the memory it allocated.
+
+        if (allocator_traits::propagate_on_container_swap::value)
+        {
+            swap(this->data_.ref_to_alloc(), other.data_.ref_to_alloc());
+        }
     }
 
     //
diff --git a/include/sfl/small_unordered_flat_multimap.hpp b/include/sfl/small_unordered_flat_multimap.hpp
index 6fdf0f2..a0076b1 100644
--- a/include/sfl/small_unordered_flat_multimap.hpp
+++ b/include/sfl/small_unordered_flat_multimap.hpp
@@ -998,11 +998,6 @@ public:
         // One allocator can safely destroy_a elements constructed by other
         // allocator regardless the two allocators compare equal or not.
 
-        if (allocator_traits::propagate_on_container_swap::value)
-        {
-            swap(this->data_.ref_to_alloc(), other.data_.ref_to_alloc());
-        }
-
         swap(this->data_.ref_to_equal(), other.data_.ref_to_equal());
 
         if
@@ -1138,6 +1133,14 @@ public:
             swap(this->data_.last_,  other.data_.last_);
             swap(this->data_.eos_,   other.data_.eos_);
         }
+
+        // Swapping allocators is the last step, because operations above may
+        // throw and each allocator must stay with the memory it allocated.
+
+        if (allocator_traits::propagate_on_container_swap::value)
+        {
+            swap(this->data_.ref_to_alloc(), other.data_.ref_to_alloc());
+        }
     }
 
     //
diff --git a/include/sfl/small_unordered_flat_multiset.hpp b/include/sfl/small_unordered_flat_multiset.hpp
index a08eb90..eb3ba06 100644
--- a/include/sfl/small_unordered_flat_multiset.hpp
+++ b/include/sfl/small_unordered_flat_multiset.hpp
@@ -912,11 +912,6 @@ public:
         // One allocator can safely destroy_a elements constructed by other
         // allocator regardless the two allocators compare equal or not.
 
-        if (allocator_traits::propagate_on_container_swap::value)
-        {
-            swap(this->data_.ref_to_alloc(), other.data_.ref_to_alloc());
-        }
-
         swap(this->data_.ref_to_equal(), other.data_.ref_to_equal());
 
         if
@@ -1052,6 +1047,14 @@ public:
             swap(this->data_.last_,  other.data_.last_);
             swap(this->data_.eos_,   other.data_.eos_);
         }
+
+        // Swapping allocators is the last step, because operations above may
+        // throw and each allocator must stay with the memory it allocated.
+
+        if (allocator_traits::propagate_on_container_swap::value)
+        {
+            swap(this->data_.ref_to_alloc(), other.data_.ref_to_alloc());
+        }
     }
 
     //
diff --git a/include/sfl/small_unordered_flat_set.hpp b/include/sfl/small_unordered_flat_set.hpp
index 7df4441..2939d90 100644
--- a/include/sfl/small_unordered_flat_set.hpp
+++ b/include/sfl/small_unordered_flat_set.hpp
@@ -912,11 +912,6 @@ public:
         // One allocator can safely destroy_a elements constructed by other
         // allocator regardless the two allocators compare equal or not.
 
-        if (allocator_traits::propagate_on_container_swap::value)
-        {
-            swap(this->data_.ref_to_alloc(), other.data_.ref_to_alloc());
-        }
-
         swap(this->data_.ref_to_equal(), other.data_.ref_to_equal());
 
         if
@@ -1052,6 +1047,14 @@ public:
             swap(this->data_.last_,  other.data_.last_);
             swap(this->data_.eos_,   other.data_.eos_);
         }
+
+        // Swapping allocators is the last step, because operations above may
+        // throw and each allocator must stay with the memory it allocated.
+
+        if (allocator_traits::propagate_on_container_swap::value)
+        {
+            swap(this->data_.ref_to_alloc(), other.data_.ref_to_alloc());
+        }
     }
 
     //
diff --git a/include/sfl/small_vector.hpp b/include/sfl/small_vector.hpp
index 95e1ac7..b21c8da 100644
--- a/include/sfl/small_vector.hpp
+++ b/include/sfl/small_vector.hpp
@@ -1396,11 +1396,6 @@ public:
         // One allocator can safely destroy_a elements constructed by other
         // allocator regardless the two allocators compare equal or not.
 
-        if (allocator_traits::propagate_on_container_swap::value)
-        {
-            swap(this->data_.ref_to_alloc(), other.data_.ref_to_alloc());
-        }
-
         if
         (
             this->data_.first_ == this->data_.internal_storage() &&
@@ -1534,6 +1529,14 @@ public:
             swap(this->data_.last_,  other.data_.last_);
             swap(this->data_.eos_,   other.data_.eos_);
         }
+
+        // Swapping allocators is the last step, because operations above may
+        // throw and each allocator must stay with the memory it allocated.
+
+        if (allocator_traits::propagate_on_container_swap::value)
+        {
+            swap(this->data_.ref_to_alloc(), other.data_.ref_to_alloc());
+        }
     }
 
 private:
-- 
2.43.0


From e8953e5528e13cf6cd4665484bc5154f8d9a3c84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:38 +0000
Subject: [PATCH 09/25] fix: devector: destroy only the new elements when
 shifting elements fails

Two scope guards of insert() named a wrong range: when moving an element
threw, one destroyed old elements still in use, the other leaked elements.
---
 include/sfl/devector.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/sfl/devector.hpp b/include/sfl/devector.hpp
index 0b78926..0306663 100644
--- a/include/sfl/devector.hpp
+++ b/include/sfl/devector.hpp
@@ -2776,7 +2776,7 @@ private:
                 );
 
                 const auto sg2 = sfl::dtl::make_scope_guard([&](){
-                    sfl::dtl::destroy_a(data_.ref_to_alloc(), q10, q10);
+                    sfl::dtl::destroy_a(data_.ref_to_alloc(), q10, q11);
                 });
 
                 if (p11 != q11)
@@ -3706,7 +3706,7 @@ private:
                     );
 
                     const auto sg1 = sfl::dtl::make_scope_guard([&](){
-                        sfl::dtl::destroy_a(data_.ref_to_alloc(), q10, q20);
+                        sfl::dtl::destroy_a(data_.ref_to_alloc(), q10, q11);
                     });
 
                     if (p11 != q11) // To avoid moving elements into themselves.
-- 
2.43.0


From 8d293b714e4048373aa7096b8b3649b008894758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:41 +0000
Subject: [PATCH 10/25] fix: static_unordered_flat_multiset: provide the
 documented data()

---
 include/sfl/static_unordered_flat_multiset.hpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/include/sfl/static_unordered_flat_multiset.hpp b/include/sfl/static_unordered_flat_multiset.hpp
index 26a1904..1580b71 100644
--- a/include/sfl/static_unordered_flat_multiset.hpp
+++ b/include/sfl/static_unordered_flat_multiset.hpp
@@ -716,6 +716,18 @@ public:
     // ---- ELEMENT ACCESS ----------------------------------------------------
     //
 
+    SFL_NODISCARD
+    value_type* data() noexcept
+    {
+        return data_.first_;
+    }
+
+    SFL_NODISCARD
+    const value_type* data() const noexcept
+    {
+        return data_.first_;
+    }
+
 private:
 
     template <typename ForwardIt,
-- 
2.43.0


From 6cf5683a6aea4f225b881d882382d50e1aa6b4be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:53 +0000
Subject: [PATCH 11/25] fix: static flat containers: sort and deduplicate the
 elements of an assigned initializer list

---
 include/sfl/static_flat_map.hpp           | 4 +++-
 include/sfl/static_flat_multimap.hpp      | 4 +++-
 include/sfl/static_flat_multiset.hpp      | 4 +++-
 include/sfl/static_flat_set.hpp           | 4 +++-
 include/sfl/static_unordered_flat_map.hpp | 4 +++-
 include/sfl/static_unordered_flat_set.hpp | 4 +++-
 6 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/include/sfl/static_flat_map.hpp b/include/sfl/static_flat_map.hpp
index a2dd667..d106e17 100644
--- a/include/sfl/static_flat_map.hpp
+++ b/include/sfl/static_flat_map.hpp
@@ -305,7 +305,9 @@ public:
 
     static_flat_map& operator=(std::initializer_list<value_type> ilist)
     {
-        assign_range(ilist.begin(), ilist.end());
+        SFL_ASSERT(ilist.size() <= capacity());
+        clear();
+        insert(ilist.begin(), ilist.end());
         return *this;
     }
 
diff --git a/include/sfl/static_flat_multimap.hpp b/include/sfl/static_flat_multimap.hpp
index 6a95c67..786d5e9 100644
--- a/include/sfl/static_flat_multimap.hpp
+++ b/include/sfl/static_flat_multimap.hpp
@@ -305,7 +305,9 @@ public:
 
     static_flat_multimap& operator=(std::initializer_list<value_type> ilist)
     {
-        assign_range(ilist.begin(), ilist.end());
+        SFL_ASSERT(ilist.size() <= capacity());
+        clear();
+        insert(ilist.begin(), ilist.end());
         return *this;
     }
 
diff --git a/include/sfl/static_flat_multiset.hpp b/include/sfl/static_flat_multiset.hpp
index 702f09a..66f1831 100644
--- a/include/sfl/static_flat_multiset.hpp
+++ b/include/sfl/static_flat_multiset.hpp
@@ -251,7 +251,9 @@ public:
 
     static_flat_multiset& operator=(std::initializer_list<value_type> ilist)
     {
-        assign_range(ilist.begin(), ilist.end());
+        SFL_ASSERT(ilist.size() <= capacity());
+        clear();
+        insert(ilist.begin(), ilist.end());
         return *this;
     }
 
diff --git a/include/sfl/static_flat_set.hpp b/include/sfl/static_flat_set.hpp
index 5fe031c..691a774 100644
--- a/include/sfl/static_flat_set.hpp
+++ b/include/sfl/static_flat_set.hpp
@@ -251,7 +251,9 @@ public:
 
     static_flat_set& operator=(std::initializer_list<value_type> ilist)
     {
-        assign_range(ilist.begin(), ilist.end());
+        SFL_ASSERT(ilist.size() <= capacity());
+        clear();
+        insert(ilist.begin(), ilist.end());
         return *this;
     }
 
diff --git a/include/sfl/static_unordered_flat_map.hpp b/include/sfl/static_unordered_flat_map.hpp
index e56f4b0..d284579 100644
--- a/include/sfl/static_unordered_flat_map.hpp
+++ b/include/sfl/static_unordered_flat_map.hpp
@@ -303,7 +303,9 @@ public:
 
     static_unordered_flat_map& operator=(std::initializer_list<value_type> ilist)
     {
-        assign_range(ilist.begin(), ilist.end());
+        SFL_ASSERT(ilist.size() <= capacity());
+        clear();
+        insert(ilist.begin(), ilist.end());
         return *this;
     }
 
diff --git a/include/sfl/static_unordered_flat_set.hpp b/include/sfl/static_unordered_flat_set.hpp
index 5c61594..1e66380 100644
--- a/include/sfl/static_unordered_flat_set.hpp
+++ b/include/sfl/static_unordered_flat_set.hpp
@@ -248,7 +248,9 @@ public:
 
     static_unordered_flat_set& operator=(std::initializer_list<value_type> ilist)
     {
-        assign_range(ilist.begin(), ilist.end());
+        SFL_ASSERT(ilist.size() <= capacity());
+        clear();
+        insert(ilist.begin(), ilist.end());
         return *this;
     }
 
-- 
2.43.0


From 21d98965aca52bb08ec298706ab8820781cce846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:29 +0000
Subject: [PATCH 12/25] fix: unordered flat multi containers: erase(key) with
 the key of an own element

---
 include/sfl/small_unordered_flat_multimap.hpp | 26 ++++++++++++++++---
 include/sfl/small_unordered_flat_multiset.hpp | 26 ++++++++++++++++---
 .../sfl/static_unordered_flat_multimap.hpp    | 26 ++++++++++++++++---
 .../sfl/static_unordered_flat_multiset.hpp    | 26 ++++++++++++++++---
 4 files changed, 88 insertions(+), 16 deletions(-)

diff --git a/include/sfl/small_unordered_flat_multimap.hpp b/include/sfl/small_unordered_flat_multimap.hpp
index a0076b1..b36520f 100644
--- a/include/sfl/small_unordered_flat_multimap.hpp
+++ b/include/sfl/small_unordered_flat_multimap.hpp
@@ -938,11 +938,28 @@ public:
 
     size_type erase(const Key& key)
     {
-        size_type n = 0;
+        auto it = find(key);
 
-        for (auto it = begin(); it != end();)
+        if (it == end())
         {
-            if (data_.ref_to_equal()(*it, key))
+            return 0;
+        }
+
+        // `key` can be a reference to key of some element in this container.
+        // That element could be moved or destroyed while erasing, so from now
+        // on compare with the first erased element.
+        const value_type value
+        (
+            std::move(data_.first_[std::distance(begin(), it)])
+        );
+
+        it = erase(it);
+
+        size_type n = 1;
+
+        while (it != end())
+        {
+            if (data_.ref_to_equal()(*it, value))
             {
                 it = erase(it);
                 ++n;
@@ -957,7 +974,8 @@ public:
     }
 
     template <typename K,
-              sfl::dtl::enable_if_t<sfl::dtl::has_is_transparent<KeyEqual, K>::value>* = nullptr>
+              sfl::dtl::enable_if_t<sfl::dtl::has_is_transparent<KeyEqual, K>::value &&
+                                    !std::is_same<sfl::dtl::remove_cvref_t<K>, Key>::value>* = nullptr>
     size_type erase(K&& x)
     {
         size_type n = 0;
diff --git a/include/sfl/small_unordered_flat_multiset.hpp b/include/sfl/small_unordered_flat_multiset.hpp
index eb3ba06..440dfe2 100644
--- a/include/sfl/small_unordered_flat_multiset.hpp
+++ b/include/sfl/small_unordered_flat_multiset.hpp
@@ -852,11 +852,28 @@ public:
 
     size_type erase(const Key& key)
     {
-        size_type n = 0;
+        auto it = find(key);
 
-        for (auto it = begin(); it != end();)
+        if (it == end())
         {
-            if (data_.ref_to_equal()(*it, key))
+            return 0;
+        }
+
+        // `key` can be a reference to key of some element in this container.
+        // That element could be moved or destroyed while erasing, so from now
+        // on compare with the first erased element.
+        const value_type value
+        (
+            std::move(data_.first_[std::distance(begin(), it)])
+        );
+
+        it = erase(it);
+
+        size_type n = 1;
+
+        while (it != end())
+        {
+            if (data_.ref_to_equal()(*it, value))
             {
                 it = erase(it);
                 ++n;
@@ -871,7 +888,8 @@ public:
     }
 
     template <typename K,
-              sfl::dtl::enable_if_t<sfl::dtl::has_is_transparent<KeyEqual, K>::value>* = nullptr>
+              sfl::dtl::enable_if_t<sfl::dtl::has_is_transparent<KeyEqual, K>::value &&
+                                    !std::is_same<sfl::dtl::remove_cvref_t<K>, Key>::value>* = nullptr>
     size_type erase(K&& x)
     {
         size_type n = 0;
diff --git a/include/sfl/static_unordered_flat_multimap.hpp b/include/sfl/static_unordered_flat_multimap.hpp
index 4356bcd..73d6203 100644
--- a/include/sfl/static_unordered_flat_multimap.hpp
+++ b/include/sfl/static_unordered_flat_multimap.hpp
@@ -585,11 +585,28 @@ public:
 
     size_type erase(const Key& key)
     {
-        size_type n = 0;
+        auto it = find(key);
 
-        for (auto it = begin(); it != end();)
+        if (it == end())
         {
-            if (data_.ref_to_equal()(*it, key))
+            return 0;
+        }
+
+        // `key` can be a reference to key of some element in this container.
+        // That element could be moved or destroyed while erasing, so from now
+        // on compare with the first erased element.
+        const value_type value
+        (
+            std::move(data_.first_[std::distance(begin(), it)])
+        );
+
+        it = erase(it);
+
+        size_type n = 1;
+
+        while (it != end())
+        {
+            if (data_.ref_to_equal()(*it, value))
             {
                 it = erase(it);
                 ++n;
@@ -604,7 +621,8 @@ public:
     }
 
     template <typename K,
-              sfl::dtl::enable_if_t<sfl::dtl::has_is_transparent<KeyEqual, K>::value>* = nullptr>
+              sfl::dtl::enable_if_t<sfl::dtl::has_is_transparent<KeyEqual, K>::value &&
+                                    !std::is_same<sfl::dtl::remove_cvref_t<K>, Key>::value>* = nullptr>
     size_type erase(K&& x)
     {
         size_type n = 0;
diff --git a/include/sfl/static_unordered_flat_multiset.hpp b/include/sfl/static_unordered_flat_multiset.hpp
index 1580b71..4e9e1cf 100644
--- a/include/sfl/static_unordered_flat_multiset.hpp
+++ b/include/sfl/static_unordered_flat_multiset.hpp
@@ -497,11 +497,28 @@ public:
 
     size_type erase(const Key& key)
     {
-        size_type n = 0;
+        auto it = find(key);
 
-        for (auto it = begin(); it != end();)
+        if (it == end())
         {
-            if (data_.ref_to_equal()(*it, key))
+            return 0;
+        }
+
+        // `key` can be a reference to key of some element in this container.
+        // That element could be moved or destroyed while erasing, so from now
+        // on compare with the first erased element.
+        const value_type value
+        (
+            std::move(data_.first_[std::distance(begin(), it)])
+        );
+
+        it = erase(it);
+
+        size_type n = 1;
+
+        while (it != end())
+        {
+            if (data_.ref_to_equal()(*it, value))
             {
                 it = erase(it);
                 ++n;
@@ -516,7 +533,8 @@ public:
     }
 
     template <typename K,
-              sfl::dtl::enable_if_t<sfl::dtl::has_is_transparent<KeyEqual, K>::value>* = nullptr>
+              sfl::dtl::enable_if_t<sfl::dtl::has_is_transparent<KeyEqual, K>::value &&
+                                    !std::is_same<sfl::dtl::remove_cvref_t<K>, Key>::value>* = nullptr>
     size_type erase(K&& x)
     {
         size_type n = 0;
-- 
2.43.0


From 0581e17bfc018d52bb5ceb21d951807bcd9d5560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:17 +0000
Subject: [PATCH 13/25] fix: flat set and map: keep elements sorted when
 copying of an inserted value fails

---
 include/sfl/small_flat_map.hpp  | 6 +++++-
 include/sfl/small_flat_set.hpp  | 6 +++++-
 include/sfl/static_flat_map.hpp | 6 +++++-
 include/sfl/static_flat_set.hpp | 6 +++++-
 4 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/include/sfl/small_flat_map.hpp b/include/sfl/small_flat_map.hpp
index edfad77..4d02cb4 100644
--- a/include/sfl/small_flat_map.hpp
+++ b/include/sfl/small_flat_map.hpp
@@ -1955,6 +1955,10 @@ private:
 
                 const pointer old_last = data_.last_;
 
+                // Constructing from `value` can throw.
+                // Create temporary value before making place for new element.
+                value_type temp(std::forward<Value>(value));
+
                 sfl::dtl::construct_at_a
                 (
                     data_.ref_to_alloc(),
@@ -1971,7 +1975,7 @@ private:
                     old_last
                 );
 
-                *p1 = std::forward<Value>(value);
+                *p1 = std::move(temp);
             }
 
             return iterator(p1);
diff --git a/include/sfl/small_flat_set.hpp b/include/sfl/small_flat_set.hpp
index c98ef18..a1d1dd1 100644
--- a/include/sfl/small_flat_set.hpp
+++ b/include/sfl/small_flat_set.hpp
@@ -1651,6 +1651,10 @@ private:
 
                 const pointer old_last = data_.last_;
 
+                // Constructing from `value` can throw.
+                // Create temporary value before making place for new element.
+                value_type temp(std::forward<Value>(value));
+
                 sfl::dtl::construct_at_a
                 (
                     data_.ref_to_alloc(),
@@ -1667,7 +1671,7 @@ private:
                     old_last
                 );
 
-                *p1 = std::forward<Value>(value);
+                *p1 = std::move(temp);
             }
 
             return iterator(p1);
diff --git a/include/sfl/static_flat_map.hpp b/include/sfl/static_flat_map.hpp
index d106e17..61d1008 100644
--- a/include/sfl/static_flat_map.hpp
+++ b/include/sfl/static_flat_map.hpp
@@ -1249,6 +1249,10 @@ private:
 
             const pointer old_last = data_.last_;
 
+            // Constructing from `value` can throw.
+            // Create temporary value before making place for new element.
+            value_type temp(std::forward<Value>(value));
+
             sfl::dtl::construct_at
             (
                 data_.last_,
@@ -1264,7 +1268,7 @@ private:
                 old_last
             );
 
-            *p1 = std::forward<Value>(value);
+            *p1 = std::move(temp);
         }
 
         return iterator(p1);
diff --git a/include/sfl/static_flat_set.hpp b/include/sfl/static_flat_set.hpp
index 691a774..ded9fff 100644
--- a/include/sfl/static_flat_set.hpp
+++ b/include/sfl/static_flat_set.hpp
@@ -932,6 +932,10 @@ private:
 
             const pointer old_last = data_.last_;
 
+            // Constructing from `value` can throw.
+            // Create temporary value before making place for new element.
+            value_type temp(std::forward<Value>(value));
+
             sfl::dtl::construct_at
             (
                 data_.last_,
@@ -947,7 +951,7 @@ private:
                 old_last
             );
 
-            *p1 = std::forward<Value>(value);
+            *p1 = std::move(temp);
         }
 
         return iterator(p1);
-- 
2.43.0


From 2275ec66622dfc09082b203b36ed489328b7266a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:17 +0000
Subject: [PATCH 14/25] fix: unordered flat set and map: remove an emplaced
 element when key_equal fails

---
 include/sfl/small_unordered_flat_map.hpp  | 12 +++++++++++-
 include/sfl/small_unordered_flat_set.hpp  | 12 +++++++++++-
 include/sfl/static_unordered_flat_map.hpp | 12 +++++++++++-
 include/sfl/static_unordered_flat_set.hpp | 12 +++++++++++-
 4 files changed, 44 insertions(+), 4 deletions(-)

diff --git a/include/sfl/small_unordered_flat_map.hpp b/include/sfl/small_unordered_flat_map.hpp
index 4aa6b51..7036837 100644
--- a/include/sfl/small_unordered_flat_map.hpp
+++ b/include/sfl/small_unordered_flat_map.hpp
@@ -1736,7 +1736,17 @@ private:
     std::pair<iterator, bool> emplace_aux(Args&&... args)
     {
         const auto it1 = emplace_back(std::forward<Args>(args)...);
-        const auto it2 = find(it1->first);
+        auto it2 = it1;
+
+        SFL_TRY
+        {
+            it2 = find(it1->first);
+        }
+        SFL_CATCH (...)
+        {
+            pop_back();
+            SFL_RETHROW;
+        }
 
         const bool is_unique = it1 == it2;
 
diff --git a/include/sfl/small_unordered_flat_set.hpp b/include/sfl/small_unordered_flat_set.hpp
index 2939d90..a0dac4d 100644
--- a/include/sfl/small_unordered_flat_set.hpp
+++ b/include/sfl/small_unordered_flat_set.hpp
@@ -1489,7 +1489,17 @@ private:
     std::pair<iterator, bool> emplace_aux(Args&&... args)
     {
         const auto it1 = emplace_back(std::forward<Args>(args)...);
-        const auto it2 = find(*it1);
+        auto it2 = it1;
+
+        SFL_TRY
+        {
+            it2 = find(*it1);
+        }
+        SFL_CATCH (...)
+        {
+            pop_back();
+            SFL_RETHROW;
+        }
 
         const bool is_unique = it1 == it2;
 
diff --git a/include/sfl/static_unordered_flat_map.hpp b/include/sfl/static_unordered_flat_map.hpp
index d284579..ed6574a 100644
--- a/include/sfl/static_unordered_flat_map.hpp
+++ b/include/sfl/static_unordered_flat_map.hpp
@@ -1023,7 +1023,17 @@ private:
     std::pair<iterator, bool> emplace_aux(Args&&... args)
     {
         const auto it1 = emplace_back(std::forward<Args>(args)...);
-        const auto it2 = find(it1->first);
+        auto it2 = it1;
+
+        SFL_TRY
+        {
+            it2 = find(it1->first);
+        }
+        SFL_CATCH (...)
+        {
+            pop_back();
+            SFL_RETHROW;
+        }
 
         const bool is_unique = it1 == it2;
 
diff --git a/include/sfl/static_unordered_flat_set.hpp b/include/sfl/static_unordered_flat_set.hpp
index 1e66380..deab521 100644
--- a/include/sfl/static_unordered_flat_set.hpp
+++ b/include/sfl/static_unordered_flat_set.hpp
@@ -765,7 +765,17 @@ private:
     std::pair<iterator, bool> emplace_aux(Args&&... args)
     {
         const auto it1 = emplace_back(std::forward<Args>(args)...);
-        const auto it2 = find(*it1);
+        auto it2 = it1;
+
+        SFL_TRY
+        {
+            it2 = find(*it1);
+        }
+        SFL_CATCH (...)
+        {
+            pop_back();
+            SFL_RETHROW;
+        }
 
         const bool is_unique = it1 == it2;
 
-- 
2.43.0


From f9cfc2b354afe4519fb5f9ab073c0ff07e7988d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:43 +0000
Subject: [PATCH 15/25] fix: flat containers: leave no mix of old and new
 elements when an assignment fails

---
 include/sfl/small_flat_map.hpp            | 46 +++++++++++++++++------
 include/sfl/small_flat_multimap.hpp       | 46 +++++++++++++++++------
 include/sfl/small_flat_multiset.hpp       | 46 +++++++++++++++++------
 include/sfl/small_flat_set.hpp            | 46 +++++++++++++++++------
 include/sfl/small_unordered_flat_map.hpp  | 46 +++++++++++++++++------
 include/sfl/small_unordered_flat_set.hpp  | 46 +++++++++++++++++------
 include/sfl/static_flat_map.hpp           | 36 +++++++++++++-----
 include/sfl/static_flat_multimap.hpp      | 36 +++++++++++++-----
 include/sfl/static_flat_multiset.hpp      | 36 +++++++++++++-----
 include/sfl/static_flat_set.hpp           | 36 +++++++++++++-----
 include/sfl/static_unordered_flat_map.hpp | 36 +++++++++++++-----
 include/sfl/static_unordered_flat_set.hpp | 36 +++++++++++++-----
 12 files changed, 366 insertions(+), 126 deletions(-)

diff --git a/include/sfl/small_flat_map.hpp b/include/sfl/small_flat_map.hpp
index 4d02cb4..2bbacca 100644
--- a/include/sfl/small_flat_map.hpp
+++ b/include/sfl/small_flat_map.hpp
@@ -1763,7 +1763,15 @@ private:
 
             data_.ref_to_comp() = other.data_.ref_to_comp();
 
-            assign_range(other.data_.first_, other.data_.last_);
+            SFL_TRY
+            {
+                assign_range(other.data_.first_, other.data_.last_);
+            }
+            SFL_CATCH (...)
+            {
+                clear();
+                SFL_RETHROW;
+            }
         }
     }
 
@@ -1783,11 +1791,19 @@ private:
 
         if (other.data_.first_ == other.data_.internal_storage())
         {
-            assign_range
-            (
-                std::make_move_iterator(other.data_.first_),
-                std::make_move_iterator(other.data_.last_)
-            );
+            SFL_TRY
+            {
+                assign_range
+                (
+                    std::make_move_iterator(other.data_.first_),
+                    std::make_move_iterator(other.data_.last_)
+                );
+            }
+            SFL_CATCH (...)
+            {
+                clear();
+                SFL_RETHROW;
+            }
         }
         else if (data_.ref_to_alloc() == other.data_.ref_to_alloc())
         {
@@ -1803,11 +1819,19 @@ private:
         }
         else
         {
-            assign_range
-            (
-                std::make_move_iterator(other.data_.first_),
-                std::make_move_iterator(other.data_.last_)
-            );
+            SFL_TRY
+            {
+                assign_range
+                (
+                    std::make_move_iterator(other.data_.first_),
+                    std::make_move_iterator(other.data_.last_)
+                );
+            }
+            SFL_CATCH (...)
+            {
+                clear();
+                SFL_RETHROW;
+            }
         }
     }
 
diff --git a/include/sfl/small_flat_multimap.hpp b/include/sfl/small_flat_multimap.hpp
index aa64a24..f2bceb0 100644
--- a/include/sfl/small_flat_multimap.hpp
+++ b/include/sfl/small_flat_multimap.hpp
@@ -1581,7 +1581,15 @@ private:
 
             data_.ref_to_comp() = other.data_.ref_to_comp();
 
-            assign_range(other.data_.first_, other.data_.last_);
+            SFL_TRY
+            {
+                assign_range(other.data_.first_, other.data_.last_);
+            }
+            SFL_CATCH (...)
+            {
+                clear();
+                SFL_RETHROW;
+            }
         }
     }
 
@@ -1601,11 +1609,19 @@ private:
 
         if (other.data_.first_ == other.data_.internal_storage())
         {
-            assign_range
-            (
-                std::make_move_iterator(other.data_.first_),
-                std::make_move_iterator(other.data_.last_)
-            );
+            SFL_TRY
+            {
+                assign_range
+                (
+                    std::make_move_iterator(other.data_.first_),
+                    std::make_move_iterator(other.data_.last_)
+                );
+            }
+            SFL_CATCH (...)
+            {
+                clear();
+                SFL_RETHROW;
+            }
         }
         else if (data_.ref_to_alloc() == other.data_.ref_to_alloc())
         {
@@ -1621,11 +1637,19 @@ private:
         }
         else
         {
-            assign_range
-            (
-                std::make_move_iterator(other.data_.first_),
-                std::make_move_iterator(other.data_.last_)
-            );
+            SFL_TRY
+            {
+                assign_range
+                (
+                    std::make_move_iterator(other.data_.first_),
+                    std::make_move_iterator(other.data_.last_)
+                );
+            }
+            SFL_CATCH (...)
+            {
+                clear();
+                SFL_RETHROW;
+            }
         }
     }
 
diff --git a/include/sfl/small_flat_multiset.hpp b/include/sfl/small_flat_multiset.hpp
index b3d638f..c7cc086 100644
--- a/include/sfl/small_flat_multiset.hpp
+++ b/include/sfl/small_flat_multiset.hpp
@@ -1508,7 +1508,15 @@ private:
 
             data_.ref_to_comp() = other.data_.ref_to_comp();
 
-            assign_range(other.data_.first_, other.data_.last_);
+            SFL_TRY
+            {
+                assign_range(other.data_.first_, other.data_.last_);
+            }
+            SFL_CATCH (...)
+            {
+                clear();
+                SFL_RETHROW;
+            }
         }
     }
 
@@ -1528,11 +1536,19 @@ private:
 
         if (other.data_.first_ == other.data_.internal_storage())
         {
-            assign_range
-            (
-                std::make_move_iterator(other.data_.first_),
-                std::make_move_iterator(other.data_.last_)
-            );
+            SFL_TRY
+            {
+                assign_range
+                (
+                    std::make_move_iterator(other.data_.first_),
+                    std::make_move_iterator(other.data_.last_)
+                );
+            }
+            SFL_CATCH (...)
+            {
+                clear();
+                SFL_RETHROW;
+            }
         }
         else if (data_.ref_to_alloc() == other.data_.ref_to_alloc())
         {
@@ -1548,11 +1564,19 @@ private:
         }
         else
         {
-            assign_range
-            (
-                std::make_move_iterator(other.data_.first_),
-                std::make_move_iterator(other.data_.last_)
-            );
+            SFL_TRY
+            {
+                assign_range
+                (
+                    std::make_move_iterator(other.data_.first_),
+                    std::make_move_iterator(other.data_.last_)
+                );
+            }
+            SFL_CATCH (...)
+            {
+                clear();
+                SFL_RETHROW;
+            }
         }
     }
 
diff --git a/include/sfl/small_flat_set.hpp b/include/sfl/small_flat_set.hpp
index a1d1dd1..6fc6afc 100644
--- a/include/sfl/small_flat_set.hpp
+++ b/include/sfl/small_flat_set.hpp
@@ -1529,7 +1529,15 @@ private:
 
             data_.ref_to_comp() = other.data_.ref_to_comp();
 
-            assign_range(other.data_.first_, other.data_.last_);
+            SFL_TRY
+            {
+                assign_range(other.data_.first_, other.data_.last_);
+            }
+            SFL_CATCH (...)
+            {
+                clear();
+                SFL_RETHROW;
+            }
         }
     }
 
@@ -1549,11 +1557,19 @@ private:
 
         if (other.data_.first_ == other.data_.internal_storage())
         {
-            assign_range
-            (
-                std::make_move_iterator(other.data_.first_),
-                std::make_move_iterator(other.data_.last_)
-            );
+            SFL_TRY
+            {
+                assign_range
+                (
+                    std::make_move_iterator(other.data_.first_),
+                    std::make_move_iterator(other.data_.last_)
+                );
+            }
+            SFL_CATCH (...)
+            {
+                clear();
+                SFL_RETHROW;
+            }
         }
         else if (data_.ref_to_alloc() == other.data_.ref_to_alloc())
         {
@@ -1569,11 +1585,19 @@ private:
         }
         else
         {
-            assign_range
-            (
-                std::make_move_iterator(other.data_.first_),
-                std::make_move_iterator(other.data_.last_)
-            );
+            SFL_TRY
+            {
+                assign_range
+                (
+                    std::make_move_iterator(other.data_.first_),
+                    std::make_move_iterator(other.data_.last_)
+                );
+            }
+            SFL_CATCH (...)
+            {
+                clear();
+                SFL_RETHROW;
+            }
         }
     }
 
diff --git a/include/sfl/small_unordered_flat_map.hpp b/include/sfl/small_unordered_flat_map.hpp
index 7036837..7f03041 100644
--- a/include/sfl/small_unordered_flat_map.hpp
+++ b/include/sfl/small_unordered_flat_map.hpp
@@ -1684,7 +1684,15 @@ private:
 
             data_.ref_to_equal() = other.data_.ref_to_equal();
 
-            assign_range(other.data_.first_, other.data_.last_);
+            SFL_TRY
+            {
+                assign_range(other.data_.first_, other.data_.last_);
+            }
+            SFL_CATCH (...)
+            {
+                clear();
+                SFL_RETHROW;
+            }
         }
     }
 
@@ -1704,11 +1712,19 @@ private:
 
         if (other.data_.first_ == other.data_.internal_storage())
         {
-            assign_range
-            (
-                std::make_move_iterator(other.data_.first_),
-                std::make_move_iterator(other.data_.last_)
-            );
+            SFL_TRY
+            {
+                assign_range
+                (
+                    std::make_move_iterator(other.data_.first_),
+                    std::make_move_iterator(other.data_.last_)
+                );
+            }
+            SFL_CATCH (...)
+            {
+                clear();
+                SFL_RETHROW;
+            }
         }
         else if (data_.ref_to_alloc() == other.data_.ref_to_alloc())
         {
@@ -1724,11 +1740,19 @@ private:
         }
         else
         {
-            assign_range
-            (
-                std::make_move_iterator(other.data_.first_),
-                std::make_move_iterator(other.data_.last_)
-            );
+            SFL_TRY
+            {
+                assign_range
+                (
+                    std::make_move_iterator(other.data_.first_),
+                    std::make_move_iterator(other.data_.last_)
+                );
+            }
+            SFL_CATCH (...)
+            {
+                clear();
+                SFL_RETHROW;
+            }
         }
     }
 
diff --git a/include/sfl/small_unordered_flat_set.hpp b/include/sfl/small_unordered_flat_set.hpp
index a0dac4d..aa1b9af 100644
--- a/include/sfl/small_unordered_flat_set.hpp
+++ b/include/sfl/small_unordered_flat_set.hpp
@@ -1437,7 +1437,15 @@ private:
 
             data_.ref_to_equal() = other.data_.ref_to_equal();
 
-            assign_range(other.data_.first_, other.data_.last_);
+            SFL_TRY
+            {
+                assign_range(other.data_.first_, other.data_.last_);
+            }
+            SFL_CATCH (...)
+            {
+                clear();
+                SFL_RETHROW;
+            }
         }
     }
 
@@ -1457,11 +1465,19 @@ private:
 
         if (other.data_.first_ == other.data_.internal_storage())
         {
-            assign_range
-            (
-                std::make_move_iterator(other.data_.first_),
-                std::make_move_iterator(other.data_.last_)
-            );
+            SFL_TRY
+            {
+                assign_range
+                (
+                    std::make_move_iterator(other.data_.first_),
+                    std::make_move_iterator(other.data_.last_)
+                );
+            }
+            SFL_CATCH (...)
+            {
+                clear();
+                SFL_RETHROW;
+            }
         }
         else if (data_.ref_to_alloc() == other.data_.ref_to_alloc())
         {
@@ -1477,11 +1493,19 @@ private:
         }
         else
         {
-            assign_range
-            (
-                std::make_move_iterator(other.data_.first_),
-                std::make_move_iterator(other.data_.last_)
-            );
+            SFL_TRY
+            {
+                assign_range
+                (
+                    std::make_move_iterator(other.data_.first_),
+                    std::make_move_iterator(other.data_.last_)
+                );
+            }
+            SFL_CATCH (...)
+            {
+                clear();
+                SFL_RETHROW;
+            }
         }
     }
 
diff --git a/include/sfl/static_flat_map.hpp b/include/sfl/static_flat_map.hpp
index 61d1008..a14606f 100644
--- a/include/sfl/static_flat_map.hpp
+++ b/include/sfl/static_flat_map.hpp
@@ -280,11 +280,19 @@ public:
         {
             data_.ref_to_comp() = other.data_.ref_to_comp();
 
-            assign_range
-            (
-                pointer(other.data_.first_),
-                pointer(other.data_.last_)
-            );
+            SFL_TRY
+            {
+                assign_range
+                (
+                    pointer(other.data_.first_),
+                    pointer(other.data_.last_)
+                );
+            }
+            SFL_CATCH (...)
+            {
+                clear();
+                SFL_RETHROW;
+            }
         }
 
         return *this;
@@ -294,11 +302,19 @@ public:
     {
         data_.ref_to_comp() = other.data_.ref_to_comp();
 
-        assign_range
-        (
-            std::make_move_iterator(pointer(other.data_.first_)),
-            std::make_move_iterator(pointer(other.data_.last_))
-        );
+        SFL_TRY
+        {
+            assign_range
+            (
+                std::make_move_iterator(pointer(other.data_.first_)),
+                std::make_move_iterator(pointer(other.data_.last_))
+            );
+        }
+        SFL_CATCH (...)
+        {
+            clear();
+            SFL_RETHROW;
+        }
 
         return *this;
     }
diff --git a/include/sfl/static_flat_multimap.hpp b/include/sfl/static_flat_multimap.hpp
index 786d5e9..9cfb7f3 100644
--- a/include/sfl/static_flat_multimap.hpp
+++ b/include/sfl/static_flat_multimap.hpp
@@ -280,11 +280,19 @@ public:
         {
             data_.ref_to_comp() = other.data_.ref_to_comp();
 
-            assign_range
-            (
-                pointer(other.data_.first_),
-                pointer(other.data_.last_)
-            );
+            SFL_TRY
+            {
+                assign_range
+                (
+                    pointer(other.data_.first_),
+                    pointer(other.data_.last_)
+                );
+            }
+            SFL_CATCH (...)
+            {
+                clear();
+                SFL_RETHROW;
+            }
         }
 
         return *this;
@@ -294,11 +302,19 @@ public:
     {
         data_.ref_to_comp() = other.data_.ref_to_comp();
 
-        assign_range
-        (
-            std::make_move_iterator(pointer(other.data_.first_)),
-            std::make_move_iterator(pointer(other.data_.last_))
-        );
+        SFL_TRY
+        {
+            assign_range
+            (
+                std::make_move_iterator(pointer(other.data_.first_)),
+                std::make_move_iterator(pointer(other.data_.last_))
+            );
+        }
+        SFL_CATCH (...)
+        {
+            clear();
+            SFL_RETHROW;
+        }
 
         return *this;
     }
diff --git a/include/sfl/static_flat_multiset.hpp b/include/sfl/static_flat_multiset.hpp
index 66f1831..b1c0814 100644
--- a/include/sfl/static_flat_multiset.hpp
+++ b/include/sfl/static_flat_multiset.hpp
@@ -226,11 +226,19 @@ public:
         {
             data_.ref_to_comp() = other.data_.ref_to_comp();
 
-            assign_range
-            (
-                pointer(other.data_.first_),
-                pointer(other.data_.last_)
-            );
+            SFL_TRY
+            {
+                assign_range
+                (
+                    pointer(other.data_.first_),
+                    pointer(other.data_.last_)
+                );
+            }
+            SFL_CATCH (...)
+            {
+                clear();
+                SFL_RETHROW;
+            }
         }
 
         return *this;
@@ -240,11 +248,19 @@ public:
     {
         data_.ref_to_comp() = other.data_.ref_to_comp();
 
-        assign_range
-        (
-            std::make_move_iterator(pointer(other.data_.first_)),
-            std::make_move_iterator(pointer(other.data_.last_))
-        );
+        SFL_TRY
+        {
+            assign_range
+            (
+                std::make_move_iterator(pointer(other.data_.first_)),
+                std::make_move_iterator(pointer(other.data_.last_))
+            );
+        }
+        SFL_CATCH (...)
+        {
+            clear();
+            SFL_RETHROW;
+        }
 
         return *this;
     }
diff --git a/include/sfl/static_flat_set.hpp b/include/sfl/static_flat_set.hpp
index ded9fff..cbf8da9 100644
--- a/include/sfl/static_flat_set.hpp
+++ b/include/sfl/static_flat_set.hpp
@@ -226,11 +226,19 @@ public:
         {
             data_.ref_to_comp() = other.data_.ref_to_comp();
 
-            assign_range
-            (
-                pointer(other.data_.first_),
-                pointer(other.data_.last_)
-            );
+            SFL_TRY
+            {
+                assign_range
+                (
+                    pointer(other.data_.first_),
+                    pointer(other.data_.last_)
+                );
+            }
+            SFL_CATCH (...)
+            {
+                clear();
+                SFL_RETHROW;
+            }
         }
 
         return *this;
@@ -240,11 +248,19 @@ public:
     {
         data_.ref_to_comp() = other.data_.ref_to_comp();
 
-        assign_range
-        (
-            std::make_move_iterator(pointer(other.data_.first_)),
-            std::make_move_iterator(pointer(other.data_.last_))
-        );
+        SFL_TRY
+        {
+            assign_range
+            (
+                std::make_move_iterator(pointer(other.data_.first_)),
+                std::make_move_iterator(pointer(other.data_.last_))
+            );
+        }
+        SFL_CATCH (...)
+        {
+            clear();
+            SFL_RETHROW;
+        }
 
         return *this;
     }
diff --git a/include/sfl/static_unordered_flat_map.hpp b/include/sfl/static_unordered_flat_map.hpp
index ed6574a..b75712a 100644
--- a/include/sfl/static_unordered_flat_map.hpp
+++ b/include/sfl/static_unordered_flat_map.hpp
@@ -278,11 +278,19 @@ public:
         {
             data_.ref_to_equal() = other.data_.ref_to_equal();
 
-            assign_range
-            (
-                pointer(other.data_.first_),
-                pointer(other.data_.last_)
-            );
+            SFL_TRY
+            {
+                assign_range
+                (
+                    pointer(other.data_.first_),
+                    pointer(other.data_.last_)
+                );
+            }
+            SFL_CATCH (...)
+            {
+                clear();
+                SFL_RETHROW;
+            }
         }
 
         return *this;
@@ -292,11 +300,19 @@ public:
     {
         data_.ref_to_equal() = other.data_.ref_to_equal();
 
-        assign_range
-        (
-            std::make_move_iterator(pointer(other.data_.first_)),
-            std::make_move_iterator(pointer(other.data_.last_))
-        );
+        SFL_TRY
+        {
+            assign_range
+            (
+                std::make_move_iterator(pointer(other.data_.first_)),
+                std::make_move_iterator(pointer(other.data_.last_))
+            );
+        }
+        SFL_CATCH (...)
+        {
+            clear();
+            SFL_RETHROW;
+        }
 
         return *this;
     }
diff --git a/include/sfl/static_unordered_flat_set.hpp b/include/sfl/static_unordered_flat_set.hpp
index deab521..6304ba2 100644
--- a/include/sfl/static_unordered_flat_set.hpp
+++ b/include/sfl/static_unordered_flat_set.hpp
@@ -223,11 +223,19 @@ public:
         {
             data_.ref_to_equal() = other.data_.ref_to_equal();
 
-            assign_range
-            (
-                pointer(other.data_.first_),
-                pointer(other.data_.last_)
-            );
+            SFL_TRY
+            {
+                assign_range
+                (
+                    pointer(other.data_.first_),
+                    pointer(other.data_.last_)
+                );
+            }
+            SFL_CATCH (...)
+            {
+                clear();
+                SFL_RETHROW;
+            }
         }
 
         return *this;
@@ -237,11 +245,19 @@ public:
     {
         data_.ref_to_equal() = other.data_.ref_to_equal();
 
-        assign_range
-        (
-            std::make_move_iterator(pointer(other.data_.first_)),
-            std::make_move_iterator(pointer(other.data_.last_))
-        );
+        SFL_TRY
+        {
+            assign_range
+            (
+                std::make_move_iterator(pointer(other.data_.first_)),
+                std::make_move_iterator(pointer(other.data_.last_))
+            );
+        }
+        SFL_CATCH (...)
+        {
+            clear();
+            SFL_RETHROW;
+        }
 
         return *this;
     }
-- 
2.43.0


From 82a9e0a0b256374c04c58f6c6347ecf3f4d8e8d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:33 +0000
Subject: [PATCH 16/25] fix: segmented_devector: insert of a range near the end
 read before the segment table

---
 include/sfl/segmented_devector.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/sfl/segmented_devector.hpp b/include/sfl/segmented_devector.hpp
index 600ba74..cc917c7 100644
--- a/include/sfl/segmented_devector.hpp
+++ b/include/sfl/segmented_devector.hpp
@@ -2426,10 +2426,11 @@ private:
             }
 
             const iterator p1 = data_.first_ + dist_to_begin;
-            const iterator p2 = data_.last_ - n;
 
             if (dist_to_end > n)
             {
+                const iterator p2 = data_.last_ - n;
+
                 const iterator old_last = data_.last_;
 
                 data_.last_ = sfl::dtl::uninitialized_move_a
-- 
2.43.0


From 02b01b1790071b76e8b89cbad840fd61c4668205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:54 +0000
Subject: [PATCH 17/25] fix: small containers: growth did not compile with an
 allocator whose size_type is not std::size_t

---
 include/sfl/small_flat_map.hpp                | 4 ++--
 include/sfl/small_flat_multimap.hpp           | 4 ++--
 include/sfl/small_flat_multiset.hpp           | 4 ++--
 include/sfl/small_flat_set.hpp                | 4 ++--
 include/sfl/small_unordered_flat_map.hpp      | 4 ++--
 include/sfl/small_unordered_flat_multimap.hpp | 4 ++--
 include/sfl/small_unordered_flat_multiset.hpp | 4 ++--
 include/sfl/small_unordered_flat_set.hpp      | 4 ++--
 include/sfl/small_vector.hpp                  | 4 ++--
 9 files changed, 18 insertions(+), 18 deletions(-)

diff --git a/include/sfl/small_flat_map.hpp b/include/sfl/small_flat_map.hpp
index 2bbacca..468bc50 100644
--- a/include/sfl/small_flat_map.hpp
+++ b/include/sfl/small_flat_map.hpp
@@ -1517,11 +1517,11 @@ private:
         }
         else if (size + num_additional_elements < capacity + capacity / 2)
         {
-            return std::max(N, capacity + capacity / 2);
+            return std::max<size_type>(N, capacity + capacity / 2);
         }
         else
         {
-            return std::max(N, size + num_additional_elements);
+            return std::max<size_type>(N, size + num_additional_elements);
         }
     }
 
diff --git a/include/sfl/small_flat_multimap.hpp b/include/sfl/small_flat_multimap.hpp
index f2bceb0..3a24950 100644
--- a/include/sfl/small_flat_multimap.hpp
+++ b/include/sfl/small_flat_multimap.hpp
@@ -1335,11 +1335,11 @@ private:
         }
         else if (size + num_additional_elements < capacity + capacity / 2)
         {
-            return std::max(N, capacity + capacity / 2);
+            return std::max<size_type>(N, capacity + capacity / 2);
         }
         else
         {
-            return std::max(N, size + num_additional_elements);
+            return std::max<size_type>(N, size + num_additional_elements);
         }
     }
 
diff --git a/include/sfl/small_flat_multiset.hpp b/include/sfl/small_flat_multiset.hpp
index c7cc086..0babaf6 100644
--- a/include/sfl/small_flat_multiset.hpp
+++ b/include/sfl/small_flat_multiset.hpp
@@ -1262,11 +1262,11 @@ private:
         }
         else if (size + num_additional_elements < capacity + capacity / 2)
         {
-            return std::max(N, capacity + capacity / 2);
+            return std::max<size_type>(N, capacity + capacity / 2);
         }
         else
         {
-            return std::max(N, size + num_additional_elements);
+            return std::max<size_type>(N, size + num_additional_elements);
         }
     }
 
diff --git a/include/sfl/small_flat_set.hpp b/include/sfl/small_flat_set.hpp
index 6fc6afc..baa6ec2 100644
--- a/include/sfl/small_flat_set.hpp
+++ b/include/sfl/small_flat_set.hpp
@@ -1283,11 +1283,11 @@ private:
         }
         else if (size + num_additional_elements < capacity + capacity / 2)
         {
-            return std::max(N, capacity + capacity / 2);
+            return std::max<size_type>(N, capacity + capacity / 2);
         }
         else
         {
-            return std::max(N, size + num_additional_elements);
+            return std::max<size_type>(N, size + num_additional_elements);
         }
     }
 
diff --git a/include/sfl/small_unordered_flat_map.hpp b/include/sfl/small_unordered_flat_map.hpp
index 7f03041..4ab7597 100644
--- a/include/sfl/small_unordered_flat_map.hpp
+++ b/include/sfl/small_unordered_flat_map.hpp
@@ -1438,11 +1438,11 @@ private:
         }
         else if (size + num_additional_elements < capacity + capacity / 2)
         {
-            return std::max(N, capacity + capacity / 2);
+            return std::max<size_type>(N, capacity + capacity / 2);
         }
         else
         {
-            return std::max(N, size + num_additional_elements);
+            return std::max<size_type>(N, size + num_additional_elements);
         }
     }
 
diff --git a/include/sfl/small_unordered_flat_multimap.hpp b/include/sfl/small_unordered_flat_multimap.hpp
index b36520f..42aa5be 100644
--- a/include/sfl/small_unordered_flat_multimap.hpp
+++ b/include/sfl/small_unordered_flat_multimap.hpp
@@ -1315,11 +1315,11 @@ private:
         }
         else if (size + num_additional_elements < capacity + capacity / 2)
         {
-            return std::max(N, capacity + capacity / 2);
+            return std::max<size_type>(N, capacity + capacity / 2);
         }
         else
         {
-            return std::max(N, size + num_additional_elements);
+            return std::max<size_type>(N, size + num_additional_elements);
         }
     }
 
diff --git a/include/sfl/small_unordered_flat_multiset.hpp b/include/sfl/small_unordered_flat_multiset.hpp
index 440dfe2..8f35fe6 100644
--- a/include/sfl/small_unordered_flat_multiset.hpp
+++ b/include/sfl/small_unordered_flat_multiset.hpp
@@ -1229,11 +1229,11 @@ private:
         }
         else if (size + num_additional_elements < capacity + capacity / 2)
         {
-            return std::max(N, capacity + capacity / 2);
+            return std::max<size_type>(N, capacity + capacity / 2);
         }
         else
         {
-            return std::max(N, size + num_additional_elements);
+            return std::max<size_type>(N, size + num_additional_elements);
         }
     }
 
diff --git a/include/sfl/small_unordered_flat_set.hpp b/include/sfl/small_unordered_flat_set.hpp
index aa1b9af..5194e6d 100644
--- a/include/sfl/small_unordered_flat_set.hpp
+++ b/include/sfl/small_unordered_flat_set.hpp
@@ -1191,11 +1191,11 @@ private:
         }
         else if (size + num_additional_elements < capacity + capacity / 2)
         {
-            return std::max(N, capacity + capacity / 2);
+            return std::max<size_type>(N, capacity + capacity / 2);
         }
         else
         {
-            return std::max(N, size + num_additional_elements);
+            return std::max<size_type>(N, size + num_additional_elements);
         }
     }
 
diff --git a/include/sfl/small_vector.hpp b/include/sfl/small_vector.hpp
index b21c8da..83e8ccc 100644
--- a/include/sfl/small_vector.hpp
+++ b/include/sfl/small_vector.hpp
@@ -1565,11 +1565,11 @@ private:
         }
         else if (size + num_additional_elements < capacity + capacity / 2)
         {
-            return std::max(N, capacity + capacity / 2);
+            return std::max<size_type>(N, capacity + capacity / 2);
         }
         else
         {
-            return std::max(N, size + num_additional_elements);
+            return std::max<size_type>(N, size + num_additional_elements);
         }
     }
 
-- 
2.43.0


From 66b6a8154745f8ea72bc9221227bfbade6456843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:12:53 +0000
Subject: [PATCH 18/25] fix: a segment longer than the range's difference_type
 holds was truncated when copying into segmented containers

---
 include/sfl/private.hpp | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/include/sfl/private.hpp b/include/sfl/private.hpp
index 9c03194..dc17f54 100644
--- a/include/sfl/private.hpp
+++ b/include/sfl/private.hpp
@@ -23,7 +23,7 @@
 
 #include <algorithm>    // move, copy, etc.
 #include <cassert>      // assert
-#include <cstddef>      // size_t
+#include <cstddef>      // size_t, ptrdiff_t
 #include <cstdlib>      // abort
 #include <iterator>     // iterator_traits, xxxxx_iterator_tag
 #include <memory>       // addressof, allocator_traits, pointer_traits
@@ -732,11 +732,11 @@ OutputIt copy(InputIt first, InputIt last, OutputIt d_first)
             using difference_type =
                 typename std::iterator_traits<InputIt>::difference_type;
 
-            const auto count = std::min<difference_type>
+            const auto count = difference_type(std::min<std::ptrdiff_t>
             (
                 std::distance(curr, last),
                 std::distance(d_local, traits::end(d_seg))
-            );
+            ));
 
             const auto next = curr + count;
 
@@ -854,11 +854,11 @@ BidirIt2 copy_backward(BidirIt1 first, BidirIt1 last, BidirIt2 d_last)
             using difference_type =
                 typename std::iterator_traits<BidirIt1>::difference_type;
 
-            const auto count = std::min<difference_type>
+            const auto count = difference_type(std::min<std::ptrdiff_t>
             (
                 std::distance(first, curr),
                 std::distance(traits::begin(d_seg), d_local)
-            );
+            ));
 
             const auto prev = curr - count;
 
@@ -970,11 +970,11 @@ OutputIt move(InputIt first, InputIt last, OutputIt d_first)
             using difference_type =
                 typename std::iterator_traits<InputIt>::difference_type;
 
-            const auto count = std::min<difference_type>
+            const auto count = difference_type(std::min<std::ptrdiff_t>
             (
                 std::distance(curr, last),
                 std::distance(d_local, traits::end(d_seg))
-            );
+            ));
 
             const auto next = curr + count;
 
@@ -1086,11 +1086,11 @@ BidirIt2 move_backward(BidirIt1 first, BidirIt1 last, BidirIt2 d_last)
             using difference_type =
                 typename std::iterator_traits<BidirIt1>::difference_type;
 
-            const auto count = std::min<difference_type>
+            const auto count = difference_type(std::min<std::ptrdiff_t>
             (
                 std::distance(first, curr),
                 std::distance(traits::begin(d_seg), d_local)
-            );
+            ));
 
             const auto prev = curr - count;
 
@@ -1767,11 +1767,11 @@ ForwardIt uninitialized_copy_a(Allocator& a, InputIt first, InputIt last, Forwar
                 using difference_type =
                     typename std::iterator_traits<InputIt>::difference_type;
 
-                const auto count = std::min<difference_type>
+                const auto count = difference_type(std::min<std::ptrdiff_t>
                 (
                     std::distance(curr, last),
                     std::distance(d_local, traits::end(d_seg))
-                );
+                ));
 
                 const auto next = curr + count;
 
@@ -1931,11 +1931,11 @@ ForwardIt uninitialized_move_a(Allocator& a, InputIt first, InputIt last, Forwar
                 using difference_type =
                     typename std::iterator_traits<InputIt>::difference_type;
 
-                const auto count = std::min<difference_type>
+                const auto count = difference_type(std::min<std::ptrdiff_t>
                 (
                     std::distance(curr, last),
                     std::distance(d_local, traits::end(d_seg))
-                );
+                ));
 
                 const auto next = curr + count;
 
@@ -2095,11 +2095,11 @@ ForwardIt uninitialized_move_if_noexcept_a(Allocator& a, InputIt first, InputIt
                 using difference_type =
                     typename std::iterator_traits<InputIt>::difference_type;
 
-                const auto count = std::min<difference_type>
+                const auto count = difference_type(std::min<std::ptrdiff_t>
                 (
                     std::distance(curr, last),
                     std::distance(d_local, traits::end(d_seg))
-                );
+                ));
 
                 const auto next = curr + count;
 
-- 
2.43.0


From 19a3391daa58c17a0697139f341dee0c5ec2e522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:24:00 +0000
Subject: [PATCH 19/25] fix: arithmetic of value-initialized segmented
 iterators must not dereference null

---
 include/sfl/private.hpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/include/sfl/private.hpp b/include/sfl/private.hpp
index dc17f54..be11c98 100644
--- a/include/sfl/private.hpp
+++ b/include/sfl/private.hpp
@@ -546,6 +546,12 @@ public:
 
     segmented_iterator& operator+=(difference_type n) noexcept
     {
+        // Value-initialized iterators must not be dereferenced.
+        if (n == 0)
+        {
+            return *this;
+        }
+
         const difference_type offset = std::distance(LocalIterator(*segment_), local_) + n;
 
         if (offset >= 0 && offset < difference_type(SegmentSize))
@@ -605,6 +611,12 @@ public:
     SFL_NODISCARD
     friend difference_type operator-(const segmented_iterator& x, const segmented_iterator& y) noexcept
     {
+        // Value-initialized iterators must not be dereferenced.
+        if (x.segment_ == y.segment_)
+        {
+            return x.local_ - y.local_;
+        }
+
         return (x.segment_ - y.segment_) * difference_type(SegmentSize)
              + (x.local_ - *x.segment_) - (y.local_ - *y.segment_);
     }
-- 
2.43.0


From 8b1def76ed132281b70b2e383521678193286968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:53:53 +0000
Subject: [PATCH 20/25] fix: maps left a comparator or key_equal without
 constructors of its own uninitialized

---
 include/sfl/small_flat_map.hpp                 | 1 +
 include/sfl/small_flat_multimap.hpp            | 1 +
 include/sfl/small_unordered_flat_map.hpp       | 1 +
 include/sfl/small_unordered_flat_multimap.hpp  | 1 +
 include/sfl/static_flat_map.hpp                | 1 +
 include/sfl/static_flat_multimap.hpp           | 1 +
 include/sfl/static_unordered_flat_map.hpp      | 1 +
 include/sfl/static_unordered_flat_multimap.hpp | 1 +
 8 files changed, 8 insertions(+)

diff --git a/include/sfl/small_flat_map.hpp b/include/sfl/small_flat_map.hpp
index 468bc50..b9a7cf2 100644
--- a/include/sfl/small_flat_map.hpp
+++ b/include/sfl/small_flat_map.hpp
@@ -108,6 +108,7 @@ private:
     public:
 
         ultra_compare() noexcept(std::is_nothrow_default_constructible<key_compare>::value)
+            : key_compare()
         {}
 
         ultra_compare(const key_compare& c) noexcept(std::is_nothrow_copy_constructible<key_compare>::value)
diff --git a/include/sfl/small_flat_multimap.hpp b/include/sfl/small_flat_multimap.hpp
index 3a24950..b96d583 100644
--- a/include/sfl/small_flat_multimap.hpp
+++ b/include/sfl/small_flat_multimap.hpp
@@ -108,6 +108,7 @@ private:
     public:
 
         ultra_compare() noexcept(std::is_nothrow_default_constructible<key_compare>::value)
+            : key_compare()
         {}
 
         ultra_compare(const key_compare& c) noexcept(std::is_nothrow_copy_constructible<key_compare>::value)
diff --git a/include/sfl/small_unordered_flat_map.hpp b/include/sfl/small_unordered_flat_map.hpp
index 4ab7597..4006375 100644
--- a/include/sfl/small_unordered_flat_map.hpp
+++ b/include/sfl/small_unordered_flat_map.hpp
@@ -106,6 +106,7 @@ private:
     public:
 
         ultra_equal() noexcept(std::is_nothrow_default_constructible<key_equal>::value)
+            : key_equal()
         {}
 
         ultra_equal(const key_equal& e) noexcept(std::is_nothrow_copy_constructible<key_equal>::value)
diff --git a/include/sfl/small_unordered_flat_multimap.hpp b/include/sfl/small_unordered_flat_multimap.hpp
index 42aa5be..33d8f3a 100644
--- a/include/sfl/small_unordered_flat_multimap.hpp
+++ b/include/sfl/small_unordered_flat_multimap.hpp
@@ -106,6 +106,7 @@ private:
     public:
 
         ultra_equal() noexcept(std::is_nothrow_default_constructible<key_equal>::value)
+            : key_equal()
         {}
 
         ultra_equal(const key_equal& e) noexcept(std::is_nothrow_copy_constructible<key_equal>::value)
diff --git a/include/sfl/static_flat_map.hpp b/include/sfl/static_flat_map.hpp
index a14606f..fef699c 100644
--- a/include/sfl/static_flat_map.hpp
+++ b/include/sfl/static_flat_map.hpp
@@ -100,6 +100,7 @@ private:
     public:
 
         ultra_compare() noexcept(std::is_nothrow_default_constructible<key_compare>::value)
+            : key_compare()
         {}
 
         ultra_compare(const key_compare& c) noexcept(std::is_nothrow_copy_constructible<key_compare>::value)
diff --git a/include/sfl/static_flat_multimap.hpp b/include/sfl/static_flat_multimap.hpp
index 9cfb7f3..db8ad43 100644
--- a/include/sfl/static_flat_multimap.hpp
+++ b/include/sfl/static_flat_multimap.hpp
@@ -100,6 +100,7 @@ private:
     public:
 
         ultra_compare() noexcept(std::is_nothrow_default_constructible<key_compare>::value)
+            : key_compare()
         {}
 
         ultra_compare(const key_compare& c) noexcept(std::is_nothrow_copy_constructible<key_compare>::value)
diff --git a/include/sfl/static_unordered_flat_map.hpp b/include/sfl/static_unordered_flat_map.hpp
index b75712a..c273337 100644
--- a/include/sfl/static_unordered_flat_map.hpp
+++ b/include/sfl/static_unordered_flat_map.hpp
@@ -98,6 +98,7 @@ private:
     public:
 
         ultra_equal() noexcept(std::is_nothrow_default_constructible<key_equal>::value)
+            : key_equal()
         {}
 
         ultra_equal(const key_equal& e) noexcept(std::is_nothrow_copy_constructible<key_equal>::value)
diff --git a/include/sfl/static_unordered_flat_multimap.hpp b/include/sfl/static_unordered_flat_multimap.hpp
index 73d6203..f9c26eb 100644
--- a/include/sfl/static_unordered_flat_multimap.hpp
+++ b/include/sfl/static_unordered_flat_multimap.hpp
@@ -98,6 +98,7 @@ private:
     public:
 
         ultra_equal() noexcept(std::is_nothrow_default_constructible<key_equal>::value)
+            : key_equal()
         {}
 
         ultra_equal(const key_equal& e) noexcept(std::is_nothrow_copy_constructible<key_equal>::value)
-- 
2.43.0


From 02b43a5040bd0d558d80304384bca57dbed77cb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:06:28 +0000
Subject: [PATCH 21/25] fix: insert of a single-pass range did not compile for
 elements with an explicit constructor

---
 include/sfl/compact_vector.hpp     | 2 +-
 include/sfl/devector.hpp           | 2 +-
 include/sfl/segmented_devector.hpp | 2 +-
 include/sfl/segmented_vector.hpp   | 2 +-
 include/sfl/small_vector.hpp       | 2 +-
 include/sfl/vector.hpp             | 2 +-
 6 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/sfl/compact_vector.hpp b/include/sfl/compact_vector.hpp
index 7a22c0c..485eec8 100644
--- a/include/sfl/compact_vector.hpp
+++ b/include/sfl/compact_vector.hpp
@@ -1478,7 +1478,7 @@ private:
 
         while (first != last)
         {
-            pos = insert(pos, *first);
+            pos = emplace(pos, *first);
             ++pos;
             ++first;
         }
diff --git a/include/sfl/devector.hpp b/include/sfl/devector.hpp
index 0306663..a024d27 100644
--- a/include/sfl/devector.hpp
+++ b/include/sfl/devector.hpp
@@ -4103,7 +4103,7 @@ private:
 
         while (first != last)
         {
-            pos = insert(pos, *first);
+            pos = emplace(pos, *first);
             ++pos;
             ++first;
         }
diff --git a/include/sfl/segmented_devector.hpp b/include/sfl/segmented_devector.hpp
index cc917c7..d78e852 100644
--- a/include/sfl/segmented_devector.hpp
+++ b/include/sfl/segmented_devector.hpp
@@ -2313,7 +2313,7 @@ private:
 
         while (first != last)
         {
-            pos = insert(pos, *first);
+            pos = emplace(pos, *first);
             ++pos;
             ++first;
         }
diff --git a/include/sfl/segmented_vector.hpp b/include/sfl/segmented_vector.hpp
index b7a6ee8..5749f4a 100644
--- a/include/sfl/segmented_vector.hpp
+++ b/include/sfl/segmented_vector.hpp
@@ -1614,7 +1614,7 @@ private:
 
         while (first != last)
         {
-            pos = insert(pos, *first);
+            pos = emplace(pos, *first);
             ++pos;
             ++first;
         }
diff --git a/include/sfl/small_vector.hpp b/include/sfl/small_vector.hpp
index 83e8ccc..3b7ffb1 100644
--- a/include/sfl/small_vector.hpp
+++ b/include/sfl/small_vector.hpp
@@ -2252,7 +2252,7 @@ private:
 
         while (first != last)
         {
-            pos = insert(pos, *first);
+            pos = emplace(pos, *first);
             ++pos;
             ++first;
         }
diff --git a/include/sfl/vector.hpp b/include/sfl/vector.hpp
index 19cfd0b..5acb5f7 100644
--- a/include/sfl/vector.hpp
+++ b/include/sfl/vector.hpp
@@ -1813,7 +1813,7 @@ private:
 
         while (first != last)
         {
-            pos = insert(pos, *first);
+            pos = emplace(pos, *first);
             ++pos;
             ++first;
         }
-- 
2.43.0


From 2c4dbd1f97a459f8c40f56ff0373d02f1edc174f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:02:36 +0000
Subject: [PATCH 22/25] fix: assignment and swap did not compile with
 allocators that are not assignable or swappable

---
 include/sfl/compact_vector.hpp                |  6 +-
 include/sfl/devector.hpp                      |  6 +-
 include/sfl/private.hpp                       | 70 +++++++++++++++++++
 include/sfl/segmented_devector.hpp            | 18 ++---
 include/sfl/segmented_vector.hpp              | 18 ++---
 include/sfl/small_flat_map.hpp                |  6 +-
 include/sfl/small_flat_multimap.hpp           |  6 +-
 include/sfl/small_flat_multiset.hpp           |  6 +-
 include/sfl/small_flat_set.hpp                |  6 +-
 include/sfl/small_unordered_flat_map.hpp      |  6 +-
 include/sfl/small_unordered_flat_multimap.hpp |  6 +-
 include/sfl/small_unordered_flat_multiset.hpp |  6 +-
 include/sfl/small_unordered_flat_set.hpp      |  6 +-
 include/sfl/small_vector.hpp                  |  6 +-
 include/sfl/vector.hpp                        |  6 +-
 15 files changed, 124 insertions(+), 54 deletions(-)

diff --git a/include/sfl/compact_vector.hpp b/include/sfl/compact_vector.hpp
index 485eec8..8e12ea7 100644
--- a/include/sfl/compact_vector.hpp
+++ b/include/sfl/compact_vector.hpp
@@ -949,7 +949,7 @@ public:
 
         if (allocator_traits::propagate_on_container_swap::value)
         {
-            swap(this->data_.ref_to_alloc(), other.data_.ref_to_alloc());
+            sfl::dtl::propagate_on_swap(this->data_.ref_to_alloc(), other.data_.ref_to_alloc());
         }
 
         swap(this->data_.first_, other.data_.first_);
@@ -1322,7 +1322,7 @@ private:
                     clear();
                 }
 
-                data_.ref_to_alloc() = other.data_.ref_to_alloc();
+                sfl::dtl::propagate_on_copy_assignment(data_.ref_to_alloc(), other.data_.ref_to_alloc());
             }
 
             assign_range
@@ -1342,7 +1342,7 @@ private:
                 clear();
             }
 
-            data_.ref_to_alloc() = std::move(other.data_.ref_to_alloc());
+            sfl::dtl::propagate_on_move_assignment(data_.ref_to_alloc(), other.data_.ref_to_alloc());
         }
 
         if (data_.ref_to_alloc() == other.data_.ref_to_alloc())
diff --git a/include/sfl/devector.hpp b/include/sfl/devector.hpp
index a024d27..5444dd6 100644
--- a/include/sfl/devector.hpp
+++ b/include/sfl/devector.hpp
@@ -1243,7 +1243,7 @@ public:
 
         if (allocator_traits::propagate_on_container_swap::value)
         {
-            swap(this->data_.ref_to_alloc(), other.data_.ref_to_alloc());
+            sfl::dtl::propagate_on_swap(this->data_.ref_to_alloc(), other.data_.ref_to_alloc());
         }
 
         swap(this->data_.bos_,   other.data_.bos_);
@@ -2024,7 +2024,7 @@ private:
                     reset();
                 }
 
-                data_.ref_to_alloc() = other.data_.ref_to_alloc();
+                sfl::dtl::propagate_on_copy_assignment(data_.ref_to_alloc(), other.data_.ref_to_alloc());
             }
 
             assign_range
@@ -2044,7 +2044,7 @@ private:
                 reset();
             }
 
-            data_.ref_to_alloc() = std::move(other.data_.ref_to_alloc());
+            sfl::dtl::propagate_on_move_assignment(data_.ref_to_alloc(), other.data_.ref_to_alloc());
         }
 
         if (data_.ref_to_alloc() == other.data_.ref_to_alloc())
diff --git a/include/sfl/private.hpp b/include/sfl/private.hpp
index be11c98..37c9320 100644
--- a/include/sfl/private.hpp
+++ b/include/sfl/private.hpp
@@ -1267,6 +1267,76 @@ void deallocate(Allocator& a, Pointer p, Size n) noexcept
     }
 }
 
+// Allocator that does not propagate need not be assignable or swappable.
+// Therefore, the functions below decide at compile time.
+
+template <typename Allocator>
+void propagate_on_copy_assignment_aux(Allocator& a, const Allocator& b, std::true_type)
+{
+    a = b;
+}
+
+template <typename Allocator>
+void propagate_on_copy_assignment_aux(Allocator&, const Allocator&, std::false_type) noexcept
+{}
+
+template <typename Allocator>
+void propagate_on_copy_assignment(Allocator& a, const Allocator& b)
+{
+    using propagate = std::integral_constant
+    <
+        bool,
+        std::allocator_traits<Allocator>::propagate_on_container_copy_assignment::value
+    >;
+
+    propagate_on_copy_assignment_aux(a, b, propagate());
+}
+
+template <typename Allocator>
+void propagate_on_move_assignment_aux(Allocator& a, Allocator& b, std::true_type)
+{
+    a = std::move(b);
+}
+
+template <typename Allocator>
+void propagate_on_move_assignment_aux(Allocator&, Allocator&, std::false_type) noexcept
+{}
+
+template <typename Allocator>
+void propagate_on_move_assignment(Allocator& a, Allocator& b)
+{
+    using propagate = std::integral_constant
+    <
+        bool,
+        std::allocator_traits<Allocator>::propagate_on_container_move_assignment::value
+    >;
+
+    propagate_on_move_assignment_aux(a, b, propagate());
+}
+
+template <typename Allocator>
+void propagate_on_swap_aux(Allocator& a, Allocator& b, std::true_type)
+{
+    using std::swap;
+    swap(a, b);
+}
+
+template <typename Allocator>
+void propagate_on_swap_aux(Allocator&, Allocator&, std::false_type) noexcept
+{}
+
+template <typename Allocator>
+void propagate_on_swap(Allocator& a, Allocator& b)
+{
+    using propagate = std::integral_constant
+    <
+        bool,
+        std::allocator_traits<Allocator>::propagate_on_container_swap::value
+    >;
+
+    propagate_on_swap_aux(a, b, propagate());
+}
+
 template <typename Allocator, typename Pointer, typename... Args>
 void construct_at_a(Allocator& a, Pointer p, Args&&... args)
 {
diff --git a/include/sfl/segmented_devector.hpp b/include/sfl/segmented_devector.hpp
index d78e852..eddaece 100644
--- a/include/sfl/segmented_devector.hpp
+++ b/include/sfl/segmented_devector.hpp
@@ -1170,7 +1170,7 @@ public:
 
         if (allocator_traits::propagate_on_container_swap::value)
         {
-            swap(this->data_.ref_to_alloc(), other.data_.ref_to_alloc());
+            sfl::dtl::propagate_on_swap(this->data_.ref_to_alloc(), other.data_.ref_to_alloc());
         }
 
         // Swap everything except allocator.
@@ -1700,7 +1700,7 @@ private:
         {
             allocate_storage(0);
             using std::swap;
-            swap(data_, other.data_);
+            swap(static_cast<data_base&>(data_), static_cast<data_base&>(other.data_));
         }
         else
         {
@@ -2011,7 +2011,7 @@ private:
 
                     // Swap storage of this and temporary vector (noexcept).
                     using std::swap;
-                    swap(data_, temp.data_);
+                    swap(static_cast<data_base&>(data_), static_cast<data_base&>(temp.data_));
 
                     // Temporary vector has no allocated storage (pointers
                     // are set to null) so destructor of temporary vector
@@ -2019,7 +2019,7 @@ private:
                 }
 
                 // Propagate allocator (noexcept).
-                data_.ref_to_alloc() = other.data_.ref_to_alloc();
+                sfl::dtl::propagate_on_copy_assignment(data_.ref_to_alloc(), other.data_.ref_to_alloc());
             }
 
             assign_range
@@ -2059,14 +2059,14 @@ private:
             //  - "this" has no allocated storage (pointers are null).
 
             // Swap storage of "this" and "other" (noexcept)
-            swap(data_, other.data_);
+            swap(static_cast<data_base&>(data_), static_cast<data_base&>(other.data_));
 
             // After swap:
             //  - "this" owns storage previously owned by "other".
             //  - "other" has no allocated storage (pointers are null).
 
             // Swap storage of "other" and "temp" (noexcept)
-            swap(other.data_, temp.data_);
+            swap(static_cast<data_base&>(other.data_), static_cast<data_base&>(temp.data_));
 
             // After swap:
             //  - "other" owns storage previously owned by "temp".
@@ -2077,7 +2077,7 @@ private:
             if (allocator_traits::propagate_on_container_move_assignment::value)
             {
                 // Propagate allocator (noexcept).
-                data_.ref_to_alloc() = std::move(other.data_.ref_to_alloc());
+                sfl::dtl::propagate_on_move_assignment(data_.ref_to_alloc(), other.data_.ref_to_alloc());
             }
         }
         else if (allocator_traits::propagate_on_container_move_assignment::value)
@@ -2103,7 +2103,7 @@ private:
             //  - "this" has no allocated storage (pointers are null).
 
             // Swap storage of "this" and "temp" (noexcept)
-            swap(data_, temp.data_);
+            swap(static_cast<data_base&>(data_), static_cast<data_base&>(temp.data_));
 
             // After swap:
             //  - "this" owns storage previously owned by "temp".
@@ -2116,7 +2116,7 @@ private:
             //    nothing to do.
 
             // Propagate allocator (noexcept).
-            data_.ref_to_alloc() = std::move(other.data_.ref_to_alloc());
+            sfl::dtl::propagate_on_move_assignment(data_.ref_to_alloc(), other.data_.ref_to_alloc());
 
             // After propagation:
             //  - "this" owns storage previously owned by "temp", but now
diff --git a/include/sfl/segmented_vector.hpp b/include/sfl/segmented_vector.hpp
index 5749f4a..b173513 100644
--- a/include/sfl/segmented_vector.hpp
+++ b/include/sfl/segmented_vector.hpp
@@ -802,7 +802,7 @@ public:
 
         if (allocator_traits::propagate_on_container_swap::value)
         {
-            swap(this->data_.ref_to_alloc(), other.data_.ref_to_alloc());
+            sfl::dtl::propagate_on_swap(this->data_.ref_to_alloc(), other.data_.ref_to_alloc());
         }
 
         // Swap everything except allocator.
@@ -1217,7 +1217,7 @@ private:
         {
             allocate_storage(0);
             using std::swap;
-            swap(data_, other.data_);
+            swap(static_cast<data_base&>(data_), static_cast<data_base&>(other.data_));
         }
         else
         {
@@ -1397,7 +1397,7 @@ private:
 
                     // Swap storage of this and temporary vector (noexcept).
                     using std::swap;
-                    swap(data_, temp.data_);
+                    swap(static_cast<data_base&>(data_), static_cast<data_base&>(temp.data_));
 
                     // Temporary vector has no allocated storage (pointers
                     // are set to null) so destructor of temporary vector
@@ -1405,7 +1405,7 @@ private:
                 }
 
                 // Propagate allocator (noexcept).
-                data_.ref_to_alloc() = other.data_.ref_to_alloc();
+                sfl::dtl::propagate_on_copy_assignment(data_.ref_to_alloc(), other.data_.ref_to_alloc());
             }
 
             assign_range
@@ -1444,14 +1444,14 @@ private:
             //  - "this" has no allocated storage (pointers are null).
 
             // Swap storage of "this" and "other" (noexcept)
-            swap(data_, other.data_);
+            swap(static_cast<data_base&>(data_), static_cast<data_base&>(other.data_));
 
             // After swap:
             //  - "this" owns storage previously owned by "other".
             //  - "other" has no allocated storage (pointers are null).
 
             // Swap storage of "other" and "temp" (noexcept)
-            swap(other.data_, temp.data_);
+            swap(static_cast<data_base&>(other.data_), static_cast<data_base&>(temp.data_));
 
             // After swap:
             //  - "other" owns storage previously owned by "temp".
@@ -1462,7 +1462,7 @@ private:
             if (allocator_traits::propagate_on_container_move_assignment::value)
             {
                 // Propagate allocator (noexcept).
-                data_.ref_to_alloc() = std::move(other.data_.ref_to_alloc());
+                sfl::dtl::propagate_on_move_assignment(data_.ref_to_alloc(), other.data_.ref_to_alloc());
             }
         }
         else if (allocator_traits::propagate_on_container_move_assignment::value)
@@ -1487,7 +1487,7 @@ private:
             //  - "this" has no allocated storage (pointers are null).
 
             // Swap storage of "this" and "temp" (noexcept)
-            swap(data_, temp.data_);
+            swap(static_cast<data_base&>(data_), static_cast<data_base&>(temp.data_));
 
             // After swap:
             //  - "this" owns storage previously owned by "temp".
@@ -1500,7 +1500,7 @@ private:
             //    nothing to do.
 
             // Propagate allocator (noexcept).
-            data_.ref_to_alloc() = std::move(other.data_.ref_to_alloc());
+            sfl::dtl::propagate_on_move_assignment(data_.ref_to_alloc(), other.data_.ref_to_alloc());
 
             // After propagation:
             //  - "this" owns storage previously owned by "temp", but now
diff --git a/include/sfl/small_flat_map.hpp b/include/sfl/small_flat_map.hpp
index b9a7cf2..4d9f063 100644
--- a/include/sfl/small_flat_map.hpp
+++ b/include/sfl/small_flat_map.hpp
@@ -1224,7 +1224,7 @@ public:
 
         if (allocator_traits::propagate_on_container_swap::value)
         {
-            swap(this->data_.ref_to_alloc(), other.data_.ref_to_alloc());
+            sfl::dtl::propagate_on_swap(this->data_.ref_to_alloc(), other.data_.ref_to_alloc());
         }
     }
 
@@ -1759,7 +1759,7 @@ private:
                     reset();
                 }
 
-                data_.ref_to_alloc() = other.data_.ref_to_alloc();
+                sfl::dtl::propagate_on_copy_assignment(data_.ref_to_alloc(), other.data_.ref_to_alloc());
             }
 
             data_.ref_to_comp() = other.data_.ref_to_comp();
@@ -1785,7 +1785,7 @@ private:
                 reset();
             }
 
-            data_.ref_to_alloc() = std::move(other.data_.ref_to_alloc());
+            sfl::dtl::propagate_on_move_assignment(data_.ref_to_alloc(), other.data_.ref_to_alloc());
         }
 
         data_.ref_to_comp() = other.data_.ref_to_comp();
diff --git a/include/sfl/small_flat_multimap.hpp b/include/sfl/small_flat_multimap.hpp
index b96d583..6b9c0a5 100644
--- a/include/sfl/small_flat_multimap.hpp
+++ b/include/sfl/small_flat_multimap.hpp
@@ -1116,7 +1116,7 @@ public:
 
         if (allocator_traits::propagate_on_container_swap::value)
         {
-            swap(this->data_.ref_to_alloc(), other.data_.ref_to_alloc());
+            sfl::dtl::propagate_on_swap(this->data_.ref_to_alloc(), other.data_.ref_to_alloc());
         }
     }
 
@@ -1577,7 +1577,7 @@ private:
                     reset();
                 }
 
-                data_.ref_to_alloc() = other.data_.ref_to_alloc();
+                sfl::dtl::propagate_on_copy_assignment(data_.ref_to_alloc(), other.data_.ref_to_alloc());
             }
 
             data_.ref_to_comp() = other.data_.ref_to_comp();
@@ -1603,7 +1603,7 @@ private:
                 reset();
             }
 
-            data_.ref_to_alloc() = std::move(other.data_.ref_to_alloc());
+            sfl::dtl::propagate_on_move_assignment(data_.ref_to_alloc(), other.data_.ref_to_alloc());
         }
 
         data_.ref_to_comp() = other.data_.ref_to_comp();
diff --git a/include/sfl/small_flat_multiset.hpp b/include/sfl/small_flat_multiset.hpp
index 0babaf6..4ede479 100644
--- a/include/sfl/small_flat_multiset.hpp
+++ b/include/sfl/small_flat_multiset.hpp
@@ -1042,7 +1042,7 @@ public:
 
         if (allocator_traits::propagate_on_container_swap::value)
         {
-            swap(this->data_.ref_to_alloc(), other.data_.ref_to_alloc());
+            sfl::dtl::propagate_on_swap(this->data_.ref_to_alloc(), other.data_.ref_to_alloc());
         }
     }
 
@@ -1503,7 +1503,7 @@ private:
                     reset();
                 }
 
-                data_.ref_to_alloc() = other.data_.ref_to_alloc();
+                sfl::dtl::propagate_on_copy_assignment(data_.ref_to_alloc(), other.data_.ref_to_alloc());
             }
 
             data_.ref_to_comp() = other.data_.ref_to_comp();
@@ -1529,7 +1529,7 @@ private:
                 reset();
             }
 
-            data_.ref_to_alloc() = std::move(other.data_.ref_to_alloc());
+            sfl::dtl::propagate_on_move_assignment(data_.ref_to_alloc(), other.data_.ref_to_alloc());
         }
 
         data_.ref_to_comp() = other.data_.ref_to_comp();
diff --git a/include/sfl/small_flat_set.hpp b/include/sfl/small_flat_set.hpp
index baa6ec2..8c659c3 100644
--- a/include/sfl/small_flat_set.hpp
+++ b/include/sfl/small_flat_set.hpp
@@ -1065,7 +1065,7 @@ public:
 
         if (allocator_traits::propagate_on_container_swap::value)
         {
-            swap(this->data_.ref_to_alloc(), other.data_.ref_to_alloc());
+            sfl::dtl::propagate_on_swap(this->data_.ref_to_alloc(), other.data_.ref_to_alloc());
         }
     }
 
@@ -1524,7 +1524,7 @@ private:
                     reset();
                 }
 
-                data_.ref_to_alloc() = other.data_.ref_to_alloc();
+                sfl::dtl::propagate_on_copy_assignment(data_.ref_to_alloc(), other.data_.ref_to_alloc());
             }
 
             data_.ref_to_comp() = other.data_.ref_to_comp();
@@ -1550,7 +1550,7 @@ private:
                 reset();
             }
 
-            data_.ref_to_alloc() = std::move(other.data_.ref_to_alloc());
+            sfl::dtl::propagate_on_move_assignment(data_.ref_to_alloc(), other.data_.ref_to_alloc());
         }
 
         data_.ref_to_comp() = other.data_.ref_to_comp();
diff --git a/include/sfl/small_unordered_flat_map.hpp b/include/sfl/small_unordered_flat_map.hpp
index 4006375..3eb7121 100644
--- a/include/sfl/small_unordered_flat_map.hpp
+++ b/include/sfl/small_unordered_flat_map.hpp
@@ -1225,7 +1225,7 @@ public:
 
         if (allocator_traits::propagate_on_container_swap::value)
         {
-            swap(this->data_.ref_to_alloc(), other.data_.ref_to_alloc());
+            sfl::dtl::propagate_on_swap(this->data_.ref_to_alloc(), other.data_.ref_to_alloc());
         }
     }
 
@@ -1680,7 +1680,7 @@ private:
                     reset();
                 }
 
-                data_.ref_to_alloc() = other.data_.ref_to_alloc();
+                sfl::dtl::propagate_on_copy_assignment(data_.ref_to_alloc(), other.data_.ref_to_alloc());
             }
 
             data_.ref_to_equal() = other.data_.ref_to_equal();
@@ -1706,7 +1706,7 @@ private:
                 reset();
             }
 
-            data_.ref_to_alloc() = std::move(other.data_.ref_to_alloc());
+            sfl::dtl::propagate_on_move_assignment(data_.ref_to_alloc(), other.data_.ref_to_alloc());
         }
 
         data_.ref_to_equal() = other.data_.ref_to_equal();
diff --git a/include/sfl/small_unordered_flat_multimap.hpp b/include/sfl/small_unordered_flat_multimap.hpp
index 33d8f3a..4488e01 100644
--- a/include/sfl/small_unordered_flat_multimap.hpp
+++ b/include/sfl/small_unordered_flat_multimap.hpp
@@ -1158,7 +1158,7 @@ public:
 
         if (allocator_traits::propagate_on_container_swap::value)
         {
-            swap(this->data_.ref_to_alloc(), other.data_.ref_to_alloc());
+            sfl::dtl::propagate_on_swap(this->data_.ref_to_alloc(), other.data_.ref_to_alloc());
         }
     }
 
@@ -1557,7 +1557,7 @@ private:
                     reset();
                 }
 
-                data_.ref_to_alloc() = other.data_.ref_to_alloc();
+                sfl::dtl::propagate_on_copy_assignment(data_.ref_to_alloc(), other.data_.ref_to_alloc());
             }
 
             data_.ref_to_equal() = other.data_.ref_to_equal();
@@ -1575,7 +1575,7 @@ private:
                 reset();
             }
 
-            data_.ref_to_alloc() = std::move(other.data_.ref_to_alloc());
+            sfl::dtl::propagate_on_move_assignment(data_.ref_to_alloc(), other.data_.ref_to_alloc());
         }
 
         data_.ref_to_equal() = other.data_.ref_to_equal();
diff --git a/include/sfl/small_unordered_flat_multiset.hpp b/include/sfl/small_unordered_flat_multiset.hpp
index 8f35fe6..ed38ecc 100644
--- a/include/sfl/small_unordered_flat_multiset.hpp
+++ b/include/sfl/small_unordered_flat_multiset.hpp
@@ -1071,7 +1071,7 @@ public:
 
         if (allocator_traits::propagate_on_container_swap::value)
         {
-            swap(this->data_.ref_to_alloc(), other.data_.ref_to_alloc());
+            sfl::dtl::propagate_on_swap(this->data_.ref_to_alloc(), other.data_.ref_to_alloc());
         }
     }
 
@@ -1470,7 +1470,7 @@ private:
                     reset();
                 }
 
-                data_.ref_to_alloc() = other.data_.ref_to_alloc();
+                sfl::dtl::propagate_on_copy_assignment(data_.ref_to_alloc(), other.data_.ref_to_alloc());
             }
 
             data_.ref_to_equal() = other.data_.ref_to_equal();
@@ -1488,7 +1488,7 @@ private:
                 reset();
             }
 
-            data_.ref_to_alloc() = std::move(other.data_.ref_to_alloc());
+            sfl::dtl::propagate_on_move_assignment(data_.ref_to_alloc(), other.data_.ref_to_alloc());
         }
 
         data_.ref_to_equal() = other.data_.ref_to_equal();
diff --git a/include/sfl/small_unordered_flat_set.hpp b/include/sfl/small_unordered_flat_set.hpp
index 5194e6d..dc1834e 100644
--- a/include/sfl/small_unordered_flat_set.hpp
+++ b/include/sfl/small_unordered_flat_set.hpp
@@ -1053,7 +1053,7 @@ public:
 
         if (allocator_traits::propagate_on_container_swap::value)
         {
-            swap(this->data_.ref_to_alloc(), other.data_.ref_to_alloc());
+            sfl::dtl::propagate_on_swap(this->data_.ref_to_alloc(), other.data_.ref_to_alloc());
         }
     }
 
@@ -1432,7 +1432,7 @@ private:
                     reset();
                 }
 
-                data_.ref_to_alloc() = other.data_.ref_to_alloc();
+                sfl::dtl::propagate_on_copy_assignment(data_.ref_to_alloc(), other.data_.ref_to_alloc());
             }
 
             data_.ref_to_equal() = other.data_.ref_to_equal();
@@ -1458,7 +1458,7 @@ private:
                 reset();
             }
 
-            data_.ref_to_alloc() = std::move(other.data_.ref_to_alloc());
+            sfl::dtl::propagate_on_move_assignment(data_.ref_to_alloc(), other.data_.ref_to_alloc());
         }
 
         data_.ref_to_equal() = other.data_.ref_to_equal();
diff --git a/include/sfl/small_vector.hpp b/include/sfl/small_vector.hpp
index 3b7ffb1..7b46698 100644
--- a/include/sfl/small_vector.hpp
+++ b/include/sfl/small_vector.hpp
@@ -1535,7 +1535,7 @@ public:
 
         if (allocator_traits::propagate_on_container_swap::value)
         {
-            swap(this->data_.ref_to_alloc(), other.data_.ref_to_alloc());
+            sfl::dtl::propagate_on_swap(this->data_.ref_to_alloc(), other.data_.ref_to_alloc());
         }
     }
 
@@ -1996,7 +1996,7 @@ private:
                     reset();
                 }
 
-                data_.ref_to_alloc() = other.data_.ref_to_alloc();
+                sfl::dtl::propagate_on_copy_assignment(data_.ref_to_alloc(), other.data_.ref_to_alloc());
             }
 
             assign_range
@@ -2016,7 +2016,7 @@ private:
                 reset();
             }
 
-            data_.ref_to_alloc() = std::move(other.data_.ref_to_alloc());
+            sfl::dtl::propagate_on_move_assignment(data_.ref_to_alloc(), other.data_.ref_to_alloc());
         }
 
         if (other.data_.first_ == other.data_.internal_storage())
diff --git a/include/sfl/vector.hpp b/include/sfl/vector.hpp
index 5acb5f7..5e56d13 100644
--- a/include/sfl/vector.hpp
+++ b/include/sfl/vector.hpp
@@ -1173,7 +1173,7 @@ public:
 
         if (allocator_traits::propagate_on_container_swap::value)
         {
-            swap(this->data_.ref_to_alloc(), other.data_.ref_to_alloc());
+            sfl::dtl::propagate_on_swap(this->data_.ref_to_alloc(), other.data_.ref_to_alloc());
         }
 
         swap(this->data_.first_, other.data_.first_);
@@ -1587,7 +1587,7 @@ private:
                     reset();
                 }
 
-                data_.ref_to_alloc() = other.data_.ref_to_alloc();
+                sfl::dtl::propagate_on_copy_assignment(data_.ref_to_alloc(), other.data_.ref_to_alloc());
             }
 
             assign_range
@@ -1607,7 +1607,7 @@ private:
                 reset();
             }
 
-            data_.ref_to_alloc() = std::move(other.data_.ref_to_alloc());
+            sfl::dtl::propagate_on_move_assignment(data_.ref_to_alloc(), other.data_.ref_to_alloc());
         }
 
         if (data_.ref_to_alloc() == other.data_.ref_to_alloc())
-- 
2.43.0


From bd85e936bdae2ddfc25d490e3c915e87f6c47c1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:33:34 +0000
Subject: [PATCH 23/25] fix: move constructors left the source with a
 moved-from comparator or key_equal

---
 include/sfl/small_flat_map.hpp                 | 4 ++--
 include/sfl/small_flat_multimap.hpp            | 4 ++--
 include/sfl/small_flat_multiset.hpp            | 4 ++--
 include/sfl/small_flat_set.hpp                 | 4 ++--
 include/sfl/small_unordered_flat_map.hpp       | 4 ++--
 include/sfl/small_unordered_flat_multimap.hpp  | 4 ++--
 include/sfl/small_unordered_flat_multiset.hpp  | 4 ++--
 include/sfl/small_unordered_flat_set.hpp       | 4 ++--
 include/sfl/static_flat_map.hpp                | 2 +-
 include/sfl/static_flat_multimap.hpp           | 2 +-
 include/sfl/static_flat_multiset.hpp           | 2 +-
 include/sfl/static_flat_set.hpp                | 2 +-
 include/sfl/static_unordered_flat_map.hpp      | 2 +-
 include/sfl/static_unordered_flat_multimap.hpp | 2 +-
 include/sfl/static_unordered_flat_multiset.hpp | 2 +-
 include/sfl/static_unordered_flat_set.hpp      | 2 +-
 16 files changed, 24 insertions(+), 24 deletions(-)

diff --git a/include/sfl/small_flat_map.hpp b/include/sfl/small_flat_map.hpp
index 4d9f063..4c9f7f4 100644
--- a/include/sfl/small_flat_map.hpp
+++ b/include/sfl/small_flat_map.hpp
@@ -391,7 +391,7 @@ public:
     small_flat_map(small_flat_map&& other)
         : data_
         (
-            std::move(other.data_.ref_to_comp()),
+            other.data_.ref_to_comp(),
             std::move(other.data_.ref_to_alloc())
         )
     {
@@ -401,7 +401,7 @@ public:
     small_flat_map(small_flat_map&& other, const Allocator& alloc)
         : data_
         (
-            std::move(other.data_.ref_to_comp()),
+            other.data_.ref_to_comp(),
             alloc
         )
     {
diff --git a/include/sfl/small_flat_multimap.hpp b/include/sfl/small_flat_multimap.hpp
index 6b9c0a5..fd8c3f6 100644
--- a/include/sfl/small_flat_multimap.hpp
+++ b/include/sfl/small_flat_multimap.hpp
@@ -391,7 +391,7 @@ public:
     small_flat_multimap(small_flat_multimap&& other)
         : data_
         (
-            std::move(other.data_.ref_to_comp()),
+            other.data_.ref_to_comp(),
             std::move(other.data_.ref_to_alloc())
         )
     {
@@ -401,7 +401,7 @@ public:
     small_flat_multimap(small_flat_multimap&& other, const Allocator& alloc)
         : data_
         (
-            std::move(other.data_.ref_to_comp()),
+            other.data_.ref_to_comp(),
             alloc
         )
     {
diff --git a/include/sfl/small_flat_multiset.hpp b/include/sfl/small_flat_multiset.hpp
index 4ede479..39f0434 100644
--- a/include/sfl/small_flat_multiset.hpp
+++ b/include/sfl/small_flat_multiset.hpp
@@ -337,7 +337,7 @@ public:
     small_flat_multiset(small_flat_multiset&& other)
         : data_
         (
-            std::move(other.data_.ref_to_comp()),
+            other.data_.ref_to_comp(),
             std::move(other.data_.ref_to_alloc())
         )
     {
@@ -347,7 +347,7 @@ public:
     small_flat_multiset(small_flat_multiset&& other, const Allocator& alloc)
         : data_
         (
-            std::move(other.data_.ref_to_comp()),
+            other.data_.ref_to_comp(),
             alloc
         )
     {
diff --git a/include/sfl/small_flat_set.hpp b/include/sfl/small_flat_set.hpp
index 8c659c3..44e59e4 100644
--- a/include/sfl/small_flat_set.hpp
+++ b/include/sfl/small_flat_set.hpp
@@ -337,7 +337,7 @@ public:
     small_flat_set(small_flat_set&& other)
         : data_
         (
-            std::move(other.data_.ref_to_comp()),
+            other.data_.ref_to_comp(),
             std::move(other.data_.ref_to_alloc())
         )
     {
@@ -347,7 +347,7 @@ public:
     small_flat_set(small_flat_set&& other, const Allocator& alloc)
         : data_
         (
-            std::move(other.data_.ref_to_comp()),
+            other.data_.ref_to_comp(),
             alloc
         )
     {
diff --git a/include/sfl/small_unordered_flat_map.hpp b/include/sfl/small_unordered_flat_map.hpp
index 3eb7121..b6076b0 100644
--- a/include/sfl/small_unordered_flat_map.hpp
+++ b/include/sfl/small_unordered_flat_map.hpp
@@ -395,7 +395,7 @@ public:
     small_unordered_flat_map(small_unordered_flat_map&& other)
         : data_
         (
-            std::move(other.data_.ref_to_equal()),
+            other.data_.ref_to_equal(),
             std::move(other.data_.ref_to_alloc())
         )
     {
@@ -406,7 +406,7 @@ public:
                              const Allocator& alloc)
         : data_
         (
-            std::move(other.data_.ref_to_equal()),
+            other.data_.ref_to_equal(),
             alloc
         )
     {
diff --git a/include/sfl/small_unordered_flat_multimap.hpp b/include/sfl/small_unordered_flat_multimap.hpp
index 4488e01..126dce0 100644
--- a/include/sfl/small_unordered_flat_multimap.hpp
+++ b/include/sfl/small_unordered_flat_multimap.hpp
@@ -394,7 +394,7 @@ public:
     small_unordered_flat_multimap(small_unordered_flat_multimap&& other)
         : data_
         (
-            std::move(other.data_.ref_to_equal()),
+            other.data_.ref_to_equal(),
             std::move(other.data_.ref_to_alloc())
         )
     {
@@ -405,7 +405,7 @@ public:
                                   const Allocator& alloc)
         : data_
         (
-            std::move(other.data_.ref_to_equal()),
+            other.data_.ref_to_equal(),
             alloc
         )
     {
diff --git a/include/sfl/small_unordered_flat_multiset.hpp b/include/sfl/small_unordered_flat_multiset.hpp
index ed38ecc..22d459d 100644
--- a/include/sfl/small_unordered_flat_multiset.hpp
+++ b/include/sfl/small_unordered_flat_multiset.hpp
@@ -338,7 +338,7 @@ public:
     small_unordered_flat_multiset(small_unordered_flat_multiset&& other)
         : data_
         (
-            std::move(other.data_.ref_to_equal()),
+            other.data_.ref_to_equal(),
             std::move(other.data_.ref_to_alloc())
         )
     {
@@ -349,7 +349,7 @@ public:
                              const Allocator& alloc)
         : data_
         (
-            std::move(other.data_.ref_to_equal()),
+            other.data_.ref_to_equal(),
             alloc
         )
     {
diff --git a/include/sfl/small_unordered_flat_set.hpp b/include/sfl/small_unordered_flat_set.hpp
index dc1834e..176debd 100644
--- a/include/sfl/small_unordered_flat_set.hpp
+++ b/include/sfl/small_unordered_flat_set.hpp
@@ -338,7 +338,7 @@ public:
     small_unordered_flat_set(small_unordered_flat_set&& other)
         : data_
         (
-            std::move(other.data_.ref_to_equal()),
+            other.data_.ref_to_equal(),
             std::move(other.data_.ref_to_alloc())
         )
     {
@@ -349,7 +349,7 @@ public:
                              const Allocator& alloc)
         : data_
         (
-            std::move(other.data_.ref_to_equal()),
+            other.data_.ref_to_equal(),
             alloc
         )
     {
diff --git a/include/sfl/static_flat_map.hpp b/include/sfl/static_flat_map.hpp
index fef699c..298306f 100644
--- a/include/sfl/static_flat_map.hpp
+++ b/include/sfl/static_flat_map.hpp
@@ -256,7 +256,7 @@ public:
     }
 
     static_flat_map(static_flat_map&& other)
-        : data_(std::move(other.data_.ref_to_comp()))
+        : data_(other.data_.ref_to_comp())
     {
         data_.last_ = sfl::dtl::uninitialized_move
         (
diff --git a/include/sfl/static_flat_multimap.hpp b/include/sfl/static_flat_multimap.hpp
index db8ad43..6c5fef7 100644
--- a/include/sfl/static_flat_multimap.hpp
+++ b/include/sfl/static_flat_multimap.hpp
@@ -256,7 +256,7 @@ public:
     }
 
     static_flat_multimap(static_flat_multimap&& other)
-        : data_(std::move(other.data_.ref_to_comp()))
+        : data_(other.data_.ref_to_comp())
     {
         data_.last_ = sfl::dtl::uninitialized_move
         (
diff --git a/include/sfl/static_flat_multiset.hpp b/include/sfl/static_flat_multiset.hpp
index b1c0814..8ec35bf 100644
--- a/include/sfl/static_flat_multiset.hpp
+++ b/include/sfl/static_flat_multiset.hpp
@@ -201,7 +201,7 @@ public:
     }
 
     static_flat_multiset(static_flat_multiset&& other)
-        : data_(std::move(other.data_.ref_to_comp()))
+        : data_(other.data_.ref_to_comp())
     {
         data_.last_ = sfl::dtl::uninitialized_move
         (
diff --git a/include/sfl/static_flat_set.hpp b/include/sfl/static_flat_set.hpp
index cbf8da9..d1e8e73 100644
--- a/include/sfl/static_flat_set.hpp
+++ b/include/sfl/static_flat_set.hpp
@@ -201,7 +201,7 @@ public:
     }
 
     static_flat_set(static_flat_set&& other)
-        : data_(std::move(other.data_.ref_to_comp()))
+        : data_(other.data_.ref_to_comp())
     {
         data_.last_ = sfl::dtl::uninitialized_move
         (
diff --git a/include/sfl/static_unordered_flat_map.hpp b/include/sfl/static_unordered_flat_map.hpp
index c273337..8a1c7c9 100644
--- a/include/sfl/static_unordered_flat_map.hpp
+++ b/include/sfl/static_unordered_flat_map.hpp
@@ -254,7 +254,7 @@ public:
     }
 
     static_unordered_flat_map(static_unordered_flat_map&& other)
-        : data_(std::move(other.data_.ref_to_equal()))
+        : data_(other.data_.ref_to_equal())
     {
         data_.last_ = sfl::dtl::uninitialized_move
         (
diff --git a/include/sfl/static_unordered_flat_multimap.hpp b/include/sfl/static_unordered_flat_multimap.hpp
index f9c26eb..8f32f45 100644
--- a/include/sfl/static_unordered_flat_multimap.hpp
+++ b/include/sfl/static_unordered_flat_multimap.hpp
@@ -254,7 +254,7 @@ public:
     }
 
     static_unordered_flat_multimap(static_unordered_flat_multimap&& other)
-        : data_(std::move(other.data_.ref_to_equal()))
+        : data_(other.data_.ref_to_equal())
     {
         data_.last_ = sfl::dtl::uninitialized_move
         (
diff --git a/include/sfl/static_unordered_flat_multiset.hpp b/include/sfl/static_unordered_flat_multiset.hpp
index 4e9e1cf..b0e3772 100644
--- a/include/sfl/static_unordered_flat_multiset.hpp
+++ b/include/sfl/static_unordered_flat_multiset.hpp
@@ -198,7 +198,7 @@ public:
     }
 
     static_unordered_flat_multiset(static_unordered_flat_multiset&& other)
-        : data_(std::move(other.data_.ref_to_equal()))
+        : data_(other.data_.ref_to_equal())
     {
         data_.last_ = sfl::dtl::uninitialized_move
         (
diff --git a/include/sfl/static_unordered_flat_set.hpp b/include/sfl/static_unordered_flat_set.hpp
index 6304ba2..7b41395 100644
--- a/include/sfl/static_unordered_flat_set.hpp
+++ b/include/sfl/static_unordered_flat_set.hpp
@@ -198,7 +198,7 @@ public:
     }
 
     static_unordered_flat_set(static_unordered_flat_set&& other)
-        : data_(std::move(other.data_.ref_to_equal()))
+        : data_(other.data_.ref_to_equal())
     {
         data_.last_ = sfl::dtl::uninitialized_move
         (
-- 
2.43.0


From e9f9c95d5a3e753751fd3759cf780a7b55676470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:13:25 +0000
Subject: [PATCH 24/25] fix: segmented containers forgot their max_size() when
 the capacity exceeded it

The capacity is a number of whole segments and may exceed max_size().
max_size() - capacity() then wrapped around and growth was never refused.
---
 include/sfl/segmented_devector.hpp | 4 ++--
 include/sfl/segmented_vector.hpp   | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/sfl/segmented_devector.hpp b/include/sfl/segmented_devector.hpp
index eddaece..b657d1c 100644
--- a/include/sfl/segmented_devector.hpp
+++ b/include/sfl/segmented_devector.hpp
@@ -1331,7 +1331,7 @@ private:
     //
     void grow_storage_front(size_type num_additional_elements)
     {
-        if (max_size() - capacity() < num_additional_elements)
+        if (capacity() > max_size() || max_size() - capacity() < num_additional_elements)
         {
             sfl::dtl::throw_length_error("sfl::segmented_devector::grow_storage_front");
         }
@@ -1419,7 +1419,7 @@ private:
     //
     void grow_storage_back(size_type num_additional_elements)
     {
-        if (max_size() - capacity() < num_additional_elements)
+        if (capacity() > max_size() || max_size() - capacity() < num_additional_elements)
         {
             sfl::dtl::throw_length_error("sfl::segmented_devector::grow_storage_back");
         }
diff --git a/include/sfl/segmented_vector.hpp b/include/sfl/segmented_vector.hpp
index b173513..c9567ad 100644
--- a/include/sfl/segmented_vector.hpp
+++ b/include/sfl/segmented_vector.hpp
@@ -960,7 +960,7 @@ private:
     //
     void grow_storage(size_type num_additional_elements)
     {
-        if (max_size() - capacity() < num_additional_elements)
+        if (capacity() > max_size() || max_size() - capacity() < num_additional_elements)
         {
             sfl::dtl::throw_length_error("sfl::segmented_vector::grow_storage");
         }
-- 
2.43.0


From e3584dbc0109741b3537cfd2b88e1c8c91cf141a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:34:12 +0000
Subject: [PATCH 25/25] fix: max_size() of small containers was less than N
 when the allocator's is

Up to N elements are held without the allocator, but operations refused them,
and once they were there max_size() - size() wrapped around and growth
asked the allocator for more than it allows.
---
 include/sfl/small_flat_map.hpp                | 10 +++++++---
 include/sfl/small_flat_multimap.hpp           | 10 +++++++---
 include/sfl/small_flat_multiset.hpp           | 10 +++++++---
 include/sfl/small_flat_set.hpp                | 10 +++++++---
 include/sfl/small_unordered_flat_map.hpp      | 10 +++++++---
 include/sfl/small_unordered_flat_multimap.hpp | 10 +++++++---
 include/sfl/small_unordered_flat_multiset.hpp | 10 +++++++---
 include/sfl/small_unordered_flat_set.hpp      | 10 +++++++---
 include/sfl/small_vector.hpp                  | 10 +++++++---
 9 files changed, 63 insertions(+), 27 deletions(-)

diff --git a/include/sfl/small_flat_map.hpp b/include/sfl/small_flat_map.hpp
index 4c9f7f4..73da910 100644
--- a/include/sfl/small_flat_map.hpp
+++ b/include/sfl/small_flat_map.hpp
@@ -597,10 +597,14 @@ public:
     SFL_NODISCARD
     size_type max_size() const noexcept
     {
-        return std::min<size_type>
+        return std::max<size_type>
         (
-            allocator_traits::max_size(data_.ref_to_alloc()),
-            std::numeric_limits<difference_type>::max() / sizeof(value_type)
+            N,
+            std::min<size_type>
+            (
+                allocator_traits::max_size(data_.ref_to_alloc()),
+                std::numeric_limits<difference_type>::max() / sizeof(value_type)
+            )
         );
     }
 
diff --git a/include/sfl/small_flat_multimap.hpp b/include/sfl/small_flat_multimap.hpp
index fd8c3f6..e2c4290 100644
--- a/include/sfl/small_flat_multimap.hpp
+++ b/include/sfl/small_flat_multimap.hpp
@@ -597,10 +597,14 @@ public:
     SFL_NODISCARD
     size_type max_size() const noexcept
     {
-        return std::min<size_type>
+        return std::max<size_type>
         (
-            allocator_traits::max_size(data_.ref_to_alloc()),
-            std::numeric_limits<difference_type>::max() / sizeof(value_type)
+            N,
+            std::min<size_type>
+            (
+                allocator_traits::max_size(data_.ref_to_alloc()),
+                std::numeric_limits<difference_type>::max() / sizeof(value_type)
+            )
         );
     }
 
diff --git a/include/sfl/small_flat_multiset.hpp b/include/sfl/small_flat_multiset.hpp
index 39f0434..3a79c06 100644
--- a/include/sfl/small_flat_multiset.hpp
+++ b/include/sfl/small_flat_multiset.hpp
@@ -543,10 +543,14 @@ public:
     SFL_NODISCARD
     size_type max_size() const noexcept
     {
-        return std::min<size_type>
+        return std::max<size_type>
         (
-            allocator_traits::max_size(data_.ref_to_alloc()),
-            std::numeric_limits<difference_type>::max() / sizeof(value_type)
+            N,
+            std::min<size_type>
+            (
+                allocator_traits::max_size(data_.ref_to_alloc()),
+                std::numeric_limits<difference_type>::max() / sizeof(value_type)
+            )
         );
     }
 
diff --git a/include/sfl/small_flat_set.hpp b/include/sfl/small_flat_set.hpp
index 44e59e4..f983ed4 100644
--- a/include/sfl/small_flat_set.hpp
+++ b/include/sfl/small_flat_set.hpp
@@ -543,10 +543,14 @@ public:
     SFL_NODISCARD
     size_type max_size() const noexcept
     {
-        return std::min<size_type>
+        return std::max<size_type>
         (
-            allocator_traits::max_size(data_.ref_to_alloc()),
-            std::numeric_limits<difference_type>::max() / sizeof(value_type)
+            N,
+            std::min<size_type>
+            (
+                allocator_traits::max_size(data_.ref_to_alloc()),
+                std::numeric_limits<difference_type>::max() / sizeof(value_type)
+            )
         );
     }
 
diff --git a/include/sfl/small_unordered_flat_map.hpp b/include/sfl/small_unordered_flat_map.hpp
index b6076b0..f9b95c4 100644
--- a/include/sfl/small_unordered_flat_map.hpp
+++ b/include/sfl/small_unordered_flat_map.hpp
@@ -566,10 +566,14 @@ public:
     SFL_NODISCARD
     size_type max_size() const noexcept
     {
-        return std::min<size_type>
+        return std::max<size_type>
         (
-            allocator_traits::max_size(data_.ref_to_alloc()),
-            std::numeric_limits<difference_type>::max() / sizeof(value_type)
+            N,
+            std::min<size_type>
+            (
+                allocator_traits::max_size(data_.ref_to_alloc()),
+                std::numeric_limits<difference_type>::max() / sizeof(value_type)
+            )
         );
     }
 
diff --git a/include/sfl/small_unordered_flat_multimap.hpp b/include/sfl/small_unordered_flat_multimap.hpp
index 126dce0..1b75fd4 100644
--- a/include/sfl/small_unordered_flat_multimap.hpp
+++ b/include/sfl/small_unordered_flat_multimap.hpp
@@ -565,10 +565,14 @@ public:
     SFL_NODISCARD
     size_type max_size() const noexcept
     {
-        return std::min<size_type>
+        return std::max<size_type>
         (
-            allocator_traits::max_size(data_.ref_to_alloc()),
-            std::numeric_limits<difference_type>::max() / sizeof(value_type)
+            N,
+            std::min<size_type>
+            (
+                allocator_traits::max_size(data_.ref_to_alloc()),
+                std::numeric_limits<difference_type>::max() / sizeof(value_type)
+            )
         );
     }
 
diff --git a/include/sfl/small_unordered_flat_multiset.hpp b/include/sfl/small_unordered_flat_multiset.hpp
index 22d459d..f2a330d 100644
--- a/include/sfl/small_unordered_flat_multiset.hpp
+++ b/include/sfl/small_unordered_flat_multiset.hpp
@@ -499,10 +499,14 @@ public:
     SFL_NODISCARD
     size_type max_size() const noexcept
     {
-        return std::min<size_type>
+        return std::max<size_type>
         (
-            allocator_traits::max_size(data_.ref_to_alloc()),
-            std::numeric_limits<difference_type>::max() / sizeof(value_type)
+            N,
+            std::min<size_type>
+            (
+                allocator_traits::max_size(data_.ref_to_alloc()),
+                std::numeric_limits<difference_type>::max() / sizeof(value_type)
+            )
         );
     }
 
diff --git a/include/sfl/small_unordered_flat_set.hpp b/include/sfl/small_unordered_flat_set.hpp
index 176debd..7e70701 100644
--- a/include/sfl/small_unordered_flat_set.hpp
+++ b/include/sfl/small_unordered_flat_set.hpp
@@ -499,10 +499,14 @@ public:
     SFL_NODISCARD
     size_type max_size() const noexcept
     {
-        return std::min<size_type>
+        return std::max<size_type>
         (
-            allocator_traits::max_size(data_.ref_to_alloc()),
-            std::numeric_limits<difference_type>::max() / sizeof(value_type)
+            N,
+            std::min<size_type>
+            (
+                allocator_traits::max_size(data_.ref_to_alloc()),
+                std::numeric_limits<difference_type>::max() / sizeof(value_type)
+            )
         );
     }
 
diff --git a/include/sfl/small_vector.hpp b/include/sfl/small_vector.hpp
index 7b46698..4083b51 100644
--- a/include/sfl/small_vector.hpp
+++ b/include/sfl/small_vector.hpp
@@ -432,10 +432,14 @@ public:
     SFL_NODISCARD
     size_type max_size() const noexcept
     {
-        return std::min<size_type>
+        return std::max<size_type>
         (
-            allocator_traits::max_size(data_.ref_to_alloc()),
-            std::numeric_limits<difference_type>::max() / sizeof(value_type)
+            N,
+            std::min<size_type>
+            (
+                allocator_traits::max_size(data_.ref_to_alloc()),
+                std::numeric_limits<difference_type>::max() / sizeof(value_type)
+            )
         );
     }
 
-- 
2.43.0

