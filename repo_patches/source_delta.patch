From 12dda795a4ded32b9102202190a8559d8d72a396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:29 +0000
Subject: [PATCH 01/19] fix: devector::reset deallocates the beginning of
 storage

---
 include/sfl/devector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sfl/devector.hpp b/include/sfl/devector.hpp
index 9c33ae8..eb279db 100644
--- a/include/sfl/devector.hpp
+++ b/include/sfl/devector.hpp
@@ -1394,7 +1394,7 @@ private:
         sfl::dtl::deallocate
         (
             data_.ref_to_alloc(),
-            data_.first_,
+            data_.bos_,
             std::distance(data_.bos_, data_.eos_)
         );
 
-- 
2.43.0


From 0fd2980ac57460bd466da3f430a4a607a73eed29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:29 +0000
Subject: [PATCH 02/19] fix: segmented containers swap propagating allocators
 only once

---
 include/sfl/segmented_devector.hpp | 8 +++++++-
 include/sfl/segmented_vector.hpp   | 8 +++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/include/sfl/segmented_devector.hpp b/include/sfl/segmented_devector.hpp
index 45cd92e..4efd130 100644
--- a/include/sfl/segmented_devector.hpp
+++ b/include/sfl/segmented_devector.hpp
@@ -1173,7 +1173,13 @@ public:
             swap(this->data_.ref_to_alloc(), other.data_.ref_to_alloc());
         }
 
-        swap(this->data_, other.data_);
+        // Swap pointers and iterators only. Allocators are already swapped
+        // (or must not be swapped).
+        swap
+        (
+            static_cast<data_base&>(this->data_),
+            static_cast<data_base&>(other.data_)
+        );
     }
 
 private:
diff --git a/include/sfl/segmented_vector.hpp b/include/sfl/segmented_vector.hpp
index d5c9e50..bc2a9ee 100644
--- a/include/sfl/segmented_vector.hpp
+++ b/include/sfl/segmented_vector.hpp
@@ -805,7 +805,13 @@ public:
             swap(this->data_.ref_to_alloc(), other.data_.ref_to_alloc());
         }
 
-        swap(this->data_, other.data_);
+        // Swap pointers and iterators only. Allocators are already swapped
+        // (or must not be swapped).
+        swap
+        (
+            static_cast<data_base&>(this->data_),
+            static_cast<data_base&>(other.data_)
+        );
     }
 
 private:
-- 
2.43.0


From cd44becdaac46fc96444e8eb2c79b8424f161b0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:44 +0000
Subject: [PATCH 03/19] fix: static flat containers keep ordering and
 uniqueness when assigned from initializer_list

---
 include/sfl/static_flat_map.hpp           | 3 ++-
 include/sfl/static_flat_multimap.hpp      | 3 ++-
 include/sfl/static_flat_multiset.hpp      | 3 ++-
 include/sfl/static_flat_set.hpp           | 3 ++-
 include/sfl/static_unordered_flat_map.hpp | 3 ++-
 include/sfl/static_unordered_flat_set.hpp | 3 ++-
 6 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/include/sfl/static_flat_map.hpp b/include/sfl/static_flat_map.hpp
index a2dd667..aea18f8 100644
--- a/include/sfl/static_flat_map.hpp
+++ b/include/sfl/static_flat_map.hpp
@@ -305,7 +305,8 @@ public:
 
     static_flat_map& operator=(std::initializer_list<value_type> ilist)
     {
-        assign_range(ilist.begin(), ilist.end());
+        clear();
+        insert(ilist.begin(), ilist.end());
         return *this;
     }
 
diff --git a/include/sfl/static_flat_multimap.hpp b/include/sfl/static_flat_multimap.hpp
index 6a95c67..b0355d5 100644
--- a/include/sfl/static_flat_multimap.hpp
+++ b/include/sfl/static_flat_multimap.hpp
@@ -305,7 +305,8 @@ public:
 
     static_flat_multimap& operator=(std::initializer_list<value_type> ilist)
     {
-        assign_range(ilist.begin(), ilist.end());
+        clear();
+        insert(ilist.begin(), ilist.end());
         return *this;
     }
 
diff --git a/include/sfl/static_flat_multiset.hpp b/include/sfl/static_flat_multiset.hpp
index 702f09a..c837b44 100644
--- a/include/sfl/static_flat_multiset.hpp
+++ b/include/sfl/static_flat_multiset.hpp
@@ -251,7 +251,8 @@ public:
 
     static_flat_multiset& operator=(std::initializer_list<value_type> ilist)
     {
-        assign_range(ilist.begin(), ilist.end());
+        clear();
+        insert(ilist.begin(), ilist.end());
         return *this;
     }
 
diff --git a/include/sfl/static_flat_set.hpp b/include/sfl/static_flat_set.hpp
index 5fe031c..ee80b20 100644
--- a/include/sfl/static_flat_set.hpp
+++ b/include/sfl/static_flat_set.hpp
@@ -251,7 +251,8 @@ public:
 
     static_flat_set& operator=(std::initializer_list<value_type> ilist)
     {
-        assign_range(ilist.begin(), ilist.end());
+        clear();
+        insert(ilist.begin(), ilist.end());
         return *this;
     }
 
diff --git a/include/sfl/static_unordered_flat_map.hpp b/include/sfl/static_unordered_flat_map.hpp
index e56f4b0..ad4f2a2 100644
--- a/include/sfl/static_unordered_flat_map.hpp
+++ b/include/sfl/static_unordered_flat_map.hpp
@@ -303,7 +303,8 @@ public:
 
     static_unordered_flat_map& operator=(std::initializer_list<value_type> ilist)
     {
-        assign_range(ilist.begin(), ilist.end());
+        clear();
+        insert(ilist.begin(), ilist.end());
         return *this;
     }
 
diff --git a/include/sfl/static_unordered_flat_set.hpp b/include/sfl/static_unordered_flat_set.hpp
index 5c61594..2419a8e 100644
--- a/include/sfl/static_unordered_flat_set.hpp
+++ b/include/sfl/static_unordered_flat_set.hpp
@@ -248,7 +248,8 @@ public:
 
     static_unordered_flat_set& operator=(std::initializer_list<value_type> ilist)
     {
-        assign_range(ilist.begin(), ilist.end());
+        clear();
+        insert(ilist.begin(), ilist.end());
         return *this;
     }
 
-- 
2.43.0


From 75094609f1c7556745c6edae9fdd5e9ebeda7e1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:44 +0000
Subject: [PATCH 04/19] fix: small containers swap propagating allocators after
 elements have been transferred

---
 include/sfl/small_flat_map.hpp                | 14 +++++++++-----
 include/sfl/small_flat_multimap.hpp           | 14 +++++++++-----
 include/sfl/small_flat_multiset.hpp           | 14 +++++++++-----
 include/sfl/small_flat_set.hpp                | 14 +++++++++-----
 include/sfl/small_unordered_flat_map.hpp      | 14 +++++++++-----
 include/sfl/small_unordered_flat_multimap.hpp | 14 +++++++++-----
 include/sfl/small_unordered_flat_multiset.hpp | 14 +++++++++-----
 include/sfl/small_unordered_flat_set.hpp      | 14 +++++++++-----
 include/sfl/small_vector.hpp                  | 14 +++++++++-----
 9 files changed, 81 insertions(+), 45 deletions(-)

diff --git a/include/sfl/small_flat_map.hpp b/include/sfl/small_flat_map.hpp
index 181c486..88d8abe 100644
--- a/include/sfl/small_flat_map.hpp
+++ b/include/sfl/small_flat_map.hpp
@@ -1082,11 +1082,6 @@ public:
         // One allocator can safely destroy_a elements constructed by other
         // allocator regardless the two allocators compare equal or not.
 
-        if (allocator_traits::propagate_on_container_swap::value)
-        {
-            swap(this->data_.ref_to_alloc(), other.data_.ref_to_alloc());
-        }
-
         swap(this->data_.ref_to_comp(), other.data_.ref_to_comp());
 
         if
@@ -1222,6 +1217,15 @@ public:
             swap(this->data_.last_,  other.data_.last_);
             swap(this->data_.eos_,   other.data_.eos_);
         }
+
+        // Allocators are swapped after the elements have changed their places.
+        // If any operation above throws then each container still owns memory
+        // that its own allocator can deallocate.
+
+        if (allocator_traits::propagate_on_container_swap::value)
+        {
+            swap(this->data_.ref_to_alloc(), other.data_.ref_to_alloc());
+        }
     }
 
     //
diff --git a/include/sfl/small_flat_multimap.hpp b/include/sfl/small_flat_multimap.hpp
index d725df0..4f08dc1 100644
--- a/include/sfl/small_flat_multimap.hpp
+++ b/include/sfl/small_flat_multimap.hpp
@@ -974,11 +974,6 @@ public:
         // One allocator can safely destroy_a elements constructed by other
         // allocator regardless the two allocators compare equal or not.
 
-        if (allocator_traits::propagate_on_container_swap::value)
-        {
-            swap(this->data_.ref_to_alloc(), other.data_.ref_to_alloc());
-        }
-
         swap(this->data_.ref_to_comp(), other.data_.ref_to_comp());
 
         if
@@ -1114,6 +1109,15 @@ public:
             swap(this->data_.last_,  other.data_.last_);
             swap(this->data_.eos_,   other.data_.eos_);
         }
+
+        // Allocators are swapped after the elements have changed their places.
+        // If any operation above throws then each container still owns memory
+        // that its own allocator can deallocate.
+
+        if (allocator_traits::propagate_on_container_swap::value)
+        {
+            swap(this->data_.ref_to_alloc(), other.data_.ref_to_alloc());
+        }
     }
 
     //
diff --git a/include/sfl/small_flat_multiset.hpp b/include/sfl/small_flat_multiset.hpp
index f9795fc..0ae0157 100644
--- a/include/sfl/small_flat_multiset.hpp
+++ b/include/sfl/small_flat_multiset.hpp
@@ -901,11 +901,6 @@ public:
         // One allocator can safely destroy_a elements constructed by other
         // allocator regardless the two allocators compare equal or not.
 
-        if (allocator_traits::propagate_on_container_swap::value)
-        {
-            swap(this->data_.ref_to_alloc(), other.data_.ref_to_alloc());
-        }
-
         swap(this->data_.ref_to_comp(), other.data_.ref_to_comp());
 
         if
@@ -1041,6 +1036,15 @@ public:
             swap(this->data_.last_,  other.data_.last_);
             swap(this->data_.eos_,   other.data_.eos_);
         }
+
+        // Allocators are swapped after the elements have changed their places.
+        // If any operation above throws then each container still owns memory
+        // that its own allocator can deallocate.
+
+        if (allocator_traits::propagate_on_container_swap::value)
+        {
+            swap(this->data_.ref_to_alloc(), other.data_.ref_to_alloc());
+        }
     }
 
     //
diff --git a/include/sfl/small_flat_set.hpp b/include/sfl/small_flat_set.hpp
index 11391a7..0d8f9d1 100644
--- a/include/sfl/small_flat_set.hpp
+++ b/include/sfl/small_flat_set.hpp
@@ -924,11 +924,6 @@ public:
         // One allocator can safely destroy_a elements constructed by other
         // allocator regardless the two allocators compare equal or not.
 
-        if (allocator_traits::propagate_on_container_swap::value)
-        {
-            swap(this->data_.ref_to_alloc(), other.data_.ref_to_alloc());
-        }
-
         swap(this->data_.ref_to_comp(), other.data_.ref_to_comp());
 
         if
@@ -1064,6 +1059,15 @@ public:
             swap(this->data_.last_,  other.data_.last_);
             swap(this->data_.eos_,   other.data_.eos_);
         }
+
+        // Allocators are swapped after the elements have changed their places.
+        // If any operation above throws then each container still owns memory
+        // that its own allocator can deallocate.
+
+        if (allocator_traits::propagate_on_container_swap::value)
+        {
+            swap(this->data_.ref_to_alloc(), other.data_.ref_to_alloc());
+        }
     }
 
     //
diff --git a/include/sfl/small_unordered_flat_map.hpp b/include/sfl/small_unordered_flat_map.hpp
index 88226e6..f4ff4b7 100644
--- a/include/sfl/small_unordered_flat_map.hpp
+++ b/include/sfl/small_unordered_flat_map.hpp
@@ -1083,11 +1083,6 @@ public:
         // One allocator can safely destroy_a elements constructed by other
         // allocator regardless the two allocators compare equal or not.
 
-        if (allocator_traits::propagate_on_container_swap::value)
-        {
-            swap(this->data_.ref_to_alloc(), other.data_.ref_to_alloc());
-        }
-
         swap(this->data_.ref_to_equal(), other.data_.ref_to_equal());
 
         if
@@ -1223,6 +1218,15 @@ public:
             swap(this->data_.last_,  other.data_.last_);
             swap(this->data_.eos_,   other.data_.eos_);
         }
+
+        // Allocators are swapped after the elements have changed their places.
+        // If any operation above throws then each container still owns memory
+        // that its own allocator can deallocate.
+
+        if (allocator_traits::propagate_on_container_swap::value)
+        {
+            swap(this->data_.ref_to_alloc(), other.data_.ref_to_alloc());
+        }
     }
 
     //
diff --git a/include/sfl/small_unordered_flat_multimap.hpp b/include/sfl/small_unordered_flat_multimap.hpp
index c8711e0..0df9ad4 100644
--- a/include/sfl/small_unordered_flat_multimap.hpp
+++ b/include/sfl/small_unordered_flat_multimap.hpp
@@ -998,11 +998,6 @@ public:
         // One allocator can safely destroy_a elements constructed by other
         // allocator regardless the two allocators compare equal or not.
 
-        if (allocator_traits::propagate_on_container_swap::value)
-        {
-            swap(this->data_.ref_to_alloc(), other.data_.ref_to_alloc());
-        }
-
         swap(this->data_.ref_to_equal(), other.data_.ref_to_equal());
 
         if
@@ -1138,6 +1133,15 @@ public:
             swap(this->data_.last_,  other.data_.last_);
             swap(this->data_.eos_,   other.data_.eos_);
         }
+
+        // Allocators are swapped after the elements have changed their places.
+        // If any operation above throws then each container still owns memory
+        // that its own allocator can deallocate.
+
+        if (allocator_traits::propagate_on_container_swap::value)
+        {
+            swap(this->data_.ref_to_alloc(), other.data_.ref_to_alloc());
+        }
     }
 
     //
diff --git a/include/sfl/small_unordered_flat_multiset.hpp b/include/sfl/small_unordered_flat_multiset.hpp
index 000660c..d24afc8 100644
--- a/include/sfl/small_unordered_flat_multiset.hpp
+++ b/include/sfl/small_unordered_flat_multiset.hpp
@@ -912,11 +912,6 @@ public:
         // One allocator can safely destroy_a elements constructed by other
         // allocator regardless the two allocators compare equal or not.
 
-        if (allocator_traits::propagate_on_container_swap::value)
-        {
-            swap(this->data_.ref_to_alloc(), other.data_.ref_to_alloc());
-        }
-
         swap(this->data_.ref_to_equal(), other.data_.ref_to_equal());
 
         if
@@ -1052,6 +1047,15 @@ public:
             swap(this->data_.last_,  other.data_.last_);
             swap(this->data_.eos_,   other.data_.eos_);
         }
+
+        // Allocators are swapped after the elements have changed their places.
+        // If any operation above throws then each container still owns memory
+        // that its own allocator can deallocate.
+
+        if (allocator_traits::propagate_on_container_swap::value)
+        {
+            swap(this->data_.ref_to_alloc(), other.data_.ref_to_alloc());
+        }
     }
 
     //
diff --git a/include/sfl/small_unordered_flat_set.hpp b/include/sfl/small_unordered_flat_set.hpp
index fd52396..ed86ffc 100644
--- a/include/sfl/small_unordered_flat_set.hpp
+++ b/include/sfl/small_unordered_flat_set.hpp
@@ -912,11 +912,6 @@ public:
         // One allocator can safely destroy_a elements constructed by other
         // allocator regardless the two allocators compare equal or not.
 
-        if (allocator_traits::propagate_on_container_swap::value)
-        {
-            swap(this->data_.ref_to_alloc(), other.data_.ref_to_alloc());
-        }
-
         swap(this->data_.ref_to_equal(), other.data_.ref_to_equal());
 
         if
@@ -1052,6 +1047,15 @@ public:
             swap(this->data_.last_,  other.data_.last_);
             swap(this->data_.eos_,   other.data_.eos_);
         }
+
+        // Allocators are swapped after the elements have changed their places.
+        // If any operation above throws then each container still owns memory
+        // that its own allocator can deallocate.
+
+        if (allocator_traits::propagate_on_container_swap::value)
+        {
+            swap(this->data_.ref_to_alloc(), other.data_.ref_to_alloc());
+        }
     }
 
     //
diff --git a/include/sfl/small_vector.hpp b/include/sfl/small_vector.hpp
index 0d2c6b0..4fe4d2c 100644
--- a/include/sfl/small_vector.hpp
+++ b/include/sfl/small_vector.hpp
@@ -1396,11 +1396,6 @@ public:
         // One allocator can safely destroy_a elements constructed by other
         // allocator regardless the two allocators compare equal or not.
 
-        if (allocator_traits::propagate_on_container_swap::value)
-        {
-            swap(this->data_.ref_to_alloc(), other.data_.ref_to_alloc());
-        }
-
         if
         (
             this->data_.first_ == this->data_.internal_storage() &&
@@ -1534,6 +1529,15 @@ public:
             swap(this->data_.last_,  other.data_.last_);
             swap(this->data_.eos_,   other.data_.eos_);
         }
+
+        // Allocators are swapped after the elements have changed their places.
+        // If any operation above throws then each container still owns memory
+        // that its own allocator can deallocate.
+
+        if (allocator_traits::propagate_on_container_swap::value)
+        {
+            swap(this->data_.ref_to_alloc(), other.data_.ref_to_alloc());
+        }
     }
 
 private:
-- 
2.43.0


From e6b7b76c5e1c6c89abfdacb371443d5c8d47e9b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:37 +0000
Subject: [PATCH 05/19] fix: devector insertion destroys all elements moved to
 the front when insertion fails

---
 include/sfl/devector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sfl/devector.hpp b/include/sfl/devector.hpp
index eb279db..f0a965d 100644
--- a/include/sfl/devector.hpp
+++ b/include/sfl/devector.hpp
@@ -2743,7 +2743,7 @@ private:
                 );
 
                 const auto sg2 = sfl::dtl::make_scope_guard([&](){
-                    sfl::dtl::destroy_a(data_.ref_to_alloc(), q10, q10);
+                    sfl::dtl::destroy_a(data_.ref_to_alloc(), q10, q11);
                 });
 
                 if (p11 != q11)
-- 
2.43.0


From a96f9850a7121992c2c0b21efa42a4516ff72b48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:37 +0000
Subject: [PATCH 06/19] fix: devector insertion does not destroy elements twice
 when insertion fails

---
 include/sfl/devector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sfl/devector.hpp b/include/sfl/devector.hpp
index f0a965d..80e1cfa 100644
--- a/include/sfl/devector.hpp
+++ b/include/sfl/devector.hpp
@@ -3673,7 +3673,7 @@ private:
                     );
 
                     const auto sg1 = sfl::dtl::make_scope_guard([&](){
-                        sfl::dtl::destroy_a(data_.ref_to_alloc(), q10, q20);
+                        sfl::dtl::destroy_a(data_.ref_to_alloc(), q10, q11);
                     });
 
                     if (p11 != q11) // To avoid moving elements into themselves.
-- 
2.43.0


From dea275eefcdafd377cf01786e05810561be35d6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:37 +0000
Subject: [PATCH 07/19] fix: devector::insert(pos, n, value) accepts value that
 is an element of the container

---
 include/sfl/devector.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/sfl/devector.hpp b/include/sfl/devector.hpp
index 80e1cfa..c574075 100644
--- a/include/sfl/devector.hpp
+++ b/include/sfl/devector.hpp
@@ -4049,7 +4049,9 @@ private:
 
     iterator insert_fill_n(const_iterator pos, size_type n, const T& value)
     {
-        insert_fill_n_proxy proxy(value);
+        // Value may be an element of this container.
+        const value_type tmp(value);
+        insert_fill_n_proxy proxy(tmp);
         return insert_aux(pos, n, proxy);
     }
 
-- 
2.43.0


From 6314899b265fc0e2612dfa372cd98bddfade1e20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:37 +0000
Subject: [PATCH 08/19] fix: devector resize functions accept value that is an
 element of the container

---
 include/sfl/devector.hpp | 73 +++++++++++++++++++++++++++++-----------
 1 file changed, 53 insertions(+), 20 deletions(-)

diff --git a/include/sfl/devector.hpp b/include/sfl/devector.hpp
index c574075..93a6e45 100644
--- a/include/sfl/devector.hpp
+++ b/include/sfl/devector.hpp
@@ -1014,6 +1014,9 @@ public:
                 }
                 else
                 {
+                    // Value may be an element of this container.
+                    const value_type tmp(value);
+
                     grow_storage_back(n - (available_front + size + available_back));
 
                     data_.last_ = sfl::dtl::uninitialized_fill_n_a
@@ -1021,7 +1024,7 @@ public:
                         data_.ref_to_alloc(),
                         data_.last_,
                         n - (size + available_front),
-                        value
+                        tmp
                     );
 
                     sfl::dtl::uninitialized_fill_a
@@ -1029,7 +1032,7 @@ public:
                         data_.ref_to_alloc(),
                         data_.bos_,
                         data_.first_,
-                        value
+                        tmp
                     );
 
                     data_.first_ = data_.bos_;
@@ -1100,20 +1103,37 @@ public:
 
             if (n > size + available_front)
             {
+                // Value may be an element of this container.
+                const value_type tmp(value);
+
                 grow_storage_front(n - (size + available_front));
-            }
 
-            const pointer new_first = data_.first_ - (n - size);
+                const pointer new_first = data_.first_ - (n - size);
 
-            sfl::dtl::uninitialized_fill_a
-            (
-                data_.ref_to_alloc(),
-                new_first,
-                data_.first_,
-                value
-            );
+                sfl::dtl::uninitialized_fill_a
+                (
+                    data_.ref_to_alloc(),
+                    new_first,
+                    data_.first_,
+                    tmp
+                );
 
-            data_.first_ = new_first;
+                data_.first_ = new_first;
+            }
+            else
+            {
+                const pointer new_first = data_.first_ - (n - size);
+
+                sfl::dtl::uninitialized_fill_a
+                (
+                    data_.ref_to_alloc(),
+                    new_first,
+                    data_.first_,
+                    value
+                );
+
+                data_.first_ = new_first;
+            }
         }
     }
 
@@ -1175,16 +1195,29 @@ public:
 
             if (n > size + available_back)
             {
+                // Value may be an element of this container.
+                const value_type tmp(value);
+
                 grow_storage_back(n - (size + available_back));
-            }
 
-            data_.last_ = sfl::dtl::uninitialized_fill_n_a
-            (
-                data_.ref_to_alloc(),
-                data_.last_,
-                n - size,
-                value
-            );
+                data_.last_ = sfl::dtl::uninitialized_fill_n_a
+                (
+                    data_.ref_to_alloc(),
+                    data_.last_,
+                    n - size,
+                    tmp
+                );
+            }
+            else
+            {
+                data_.last_ = sfl::dtl::uninitialized_fill_n_a
+                (
+                    data_.ref_to_alloc(),
+                    data_.last_,
+                    n - size,
+                    value
+                );
+            }
         }
     }
 
-- 
2.43.0


From 7ee166e0f8bde1d202df80789eeccba4b3c62d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:37 +0000
Subject: [PATCH 09/19] fix: compact_vector assignment deallocates storage with
 the right size when it fails

---
 include/sfl/compact_vector.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/sfl/compact_vector.hpp b/include/sfl/compact_vector.hpp
index a1dadd1..fad490c 100644
--- a/include/sfl/compact_vector.hpp
+++ b/include/sfl/compact_vector.hpp
@@ -1205,7 +1205,10 @@ private:
             }
             SFL_CATCH (...)
             {
-                clear();
+                // There are no elements but storage is for "n" elements.
+                sfl::dtl::deallocate(data_.ref_to_alloc(), data_.first_, n);
+                data_.first_ = nullptr;
+                data_.last_  = nullptr;
                 SFL_RETHROW;
             }
         }
@@ -1266,7 +1269,10 @@ private:
             }
             SFL_CATCH (...)
             {
-                clear();
+                // There are no elements but storage is for "n" elements.
+                sfl::dtl::deallocate(data_.ref_to_alloc(), data_.first_, n);
+                data_.first_ = nullptr;
+                data_.last_  = nullptr;
                 SFL_RETHROW;
             }
         }
-- 
2.43.0


From 5cb0b8d83288675736325794f97350892f4866d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:37 +0000
Subject: [PATCH 10/19] fix: compact_vector::resize accepts value that is an
 element of the container

---
 include/sfl/compact_vector.hpp | 39 ++++++++++++++++++++++++++--------
 1 file changed, 30 insertions(+), 9 deletions(-)

diff --git a/include/sfl/compact_vector.hpp b/include/sfl/compact_vector.hpp
index fad490c..2b46f39 100644
--- a/include/sfl/compact_vector.hpp
+++ b/include/sfl/compact_vector.hpp
@@ -842,21 +842,42 @@ public:
         {
             if (n > size())
             {
-                new_last = sfl::dtl::uninitialized_move_if_noexcept_a
-                (
-                    data_.ref_to_alloc(),
-                    data_.first_,
-                    data_.last_,
-                    new_first
-                );
+                // New elements are constructed before existing elements are
+                // moved because value may be an element of this container.
+
+                const pointer p = new_first + size();
 
-                new_last = sfl::dtl::uninitialized_fill_n_a
+                const pointer q = sfl::dtl::uninitialized_fill_n_a
                 (
                     data_.ref_to_alloc(),
-                    new_last,
+                    p,
                     n - size(),
                     value
                 );
+
+                SFL_TRY
+                {
+                    sfl::dtl::uninitialized_move_if_noexcept_a
+                    (
+                        data_.ref_to_alloc(),
+                        data_.first_,
+                        data_.last_,
+                        new_first
+                    );
+                }
+                SFL_CATCH (...)
+                {
+                    sfl::dtl::destroy_a
+                    (
+                        data_.ref_to_alloc(),
+                        p,
+                        q
+                    );
+
+                    SFL_RETHROW;
+                }
+
+                new_last = q;
             }
             else if (n < size())
             {
-- 
2.43.0


From 971b6c09d7588035bf184046d0c537d72adddcf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:11 +0000
Subject: [PATCH 11/19] fix: unordered multi containers erase by key accepts
 key that belongs to an element of the container

---
 include/sfl/small_unordered_flat_multimap.hpp | 19 ++++++++++++++++---
 include/sfl/small_unordered_flat_multiset.hpp | 19 ++++++++++++++++---
 .../sfl/static_unordered_flat_multimap.hpp    | 19 ++++++++++++++++---
 .../sfl/static_unordered_flat_multiset.hpp    | 19 ++++++++++++++++---
 4 files changed, 64 insertions(+), 12 deletions(-)

diff --git a/include/sfl/small_unordered_flat_multimap.hpp b/include/sfl/small_unordered_flat_multimap.hpp
index 0df9ad4..c8a8279 100644
--- a/include/sfl/small_unordered_flat_multimap.hpp
+++ b/include/sfl/small_unordered_flat_multimap.hpp
@@ -938,11 +938,24 @@ public:
 
     size_type erase(const Key& key)
     {
-        size_type n = 0;
+        auto it = find(key);
 
-        for (auto it = begin(); it != end();)
+        if (it == end())
         {
-            if (data_.ref_to_equal()(*it, key))
+            return 0;
+        }
+
+        // Key may belong to an element of this container and erasing moves
+        // elements around. Compare with the value of the first erased element.
+        const value_type tmp(std::move(*it));
+
+        it = erase(it);
+
+        size_type n = 1;
+
+        while (it != end())
+        {
+            if (data_.ref_to_equal()(*it, tmp.first))
             {
                 it = erase(it);
                 ++n;
diff --git a/include/sfl/small_unordered_flat_multiset.hpp b/include/sfl/small_unordered_flat_multiset.hpp
index d24afc8..28cde8b 100644
--- a/include/sfl/small_unordered_flat_multiset.hpp
+++ b/include/sfl/small_unordered_flat_multiset.hpp
@@ -852,11 +852,24 @@ public:
 
     size_type erase(const Key& key)
     {
-        size_type n = 0;
+        auto it = find(key);
 
-        for (auto it = begin(); it != end();)
+        if (it == end())
         {
-            if (data_.ref_to_equal()(*it, key))
+            return 0;
+        }
+
+        // Key may belong to an element of this container and erasing moves
+        // elements around. Compare with the value of the first erased element.
+        const value_type tmp(std::move(const_cast<value_type&>(*it)));
+
+        it = erase(it);
+
+        size_type n = 1;
+
+        while (it != end())
+        {
+            if (data_.ref_to_equal()(*it, tmp))
             {
                 it = erase(it);
                 ++n;
diff --git a/include/sfl/static_unordered_flat_multimap.hpp b/include/sfl/static_unordered_flat_multimap.hpp
index 4356bcd..e112fa3 100644
--- a/include/sfl/static_unordered_flat_multimap.hpp
+++ b/include/sfl/static_unordered_flat_multimap.hpp
@@ -585,11 +585,24 @@ public:
 
     size_type erase(const Key& key)
     {
-        size_type n = 0;
+        auto it = find(key);
 
-        for (auto it = begin(); it != end();)
+        if (it == end())
         {
-            if (data_.ref_to_equal()(*it, key))
+            return 0;
+        }
+
+        // Key may belong to an element of this container and erasing moves
+        // elements around. Compare with the value of the first erased element.
+        const value_type tmp(std::move(*it));
+
+        it = erase(it);
+
+        size_type n = 1;
+
+        while (it != end())
+        {
+            if (data_.ref_to_equal()(*it, tmp.first))
             {
                 it = erase(it);
                 ++n;
diff --git a/include/sfl/static_unordered_flat_multiset.hpp b/include/sfl/static_unordered_flat_multiset.hpp
index 26a1904..e9ed6a0 100644
--- a/include/sfl/static_unordered_flat_multiset.hpp
+++ b/include/sfl/static_unordered_flat_multiset.hpp
@@ -497,11 +497,24 @@ public:
 
     size_type erase(const Key& key)
     {
-        size_type n = 0;
+        auto it = find(key);
 
-        for (auto it = begin(); it != end();)
+        if (it == end())
         {
-            if (data_.ref_to_equal()(*it, key))
+            return 0;
+        }
+
+        // Key may belong to an element of this container and erasing moves
+        // elements around. Compare with the value of the first erased element.
+        const value_type tmp(std::move(const_cast<value_type&>(*it)));
+
+        it = erase(it);
+
+        size_type n = 1;
+
+        while (it != end())
+        {
+            if (data_.ref_to_equal()(*it, tmp))
             {
                 it = erase(it);
                 ++n;
-- 
2.43.0


From f84308316668ab8dfb44da98cbca2a88816ac512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:11 +0000
Subject: [PATCH 12/19] fix: unordered maps stay unique when comparison of keys
 fails during emplacement

---
 include/sfl/small_unordered_flat_map.hpp  | 14 +++++++++++++-
 include/sfl/static_unordered_flat_map.hpp | 14 +++++++++++++-
 2 files changed, 26 insertions(+), 2 deletions(-)

diff --git a/include/sfl/small_unordered_flat_map.hpp b/include/sfl/small_unordered_flat_map.hpp
index f4ff4b7..405a5a0 100644
--- a/include/sfl/small_unordered_flat_map.hpp
+++ b/include/sfl/small_unordered_flat_map.hpp
@@ -1737,7 +1737,19 @@ private:
     std::pair<iterator, bool> emplace_aux(Args&&... args)
     {
         const auto it1 = emplace_back(std::forward<Args>(args)...);
-        const auto it2 = find(it1->first);
+
+        iterator it2;
+
+        SFL_TRY
+        {
+            it2 = find(it1->first);
+        }
+        SFL_CATCH (...)
+        {
+            // Do not leave an element whose key may not be unique.
+            pop_back();
+            SFL_RETHROW;
+        }
 
         const bool is_unique = it1 == it2;
 
diff --git a/include/sfl/static_unordered_flat_map.hpp b/include/sfl/static_unordered_flat_map.hpp
index ad4f2a2..b66fa7b 100644
--- a/include/sfl/static_unordered_flat_map.hpp
+++ b/include/sfl/static_unordered_flat_map.hpp
@@ -1022,7 +1022,19 @@ private:
     std::pair<iterator, bool> emplace_aux(Args&&... args)
     {
         const auto it1 = emplace_back(std::forward<Args>(args)...);
-        const auto it2 = find(it1->first);
+
+        iterator it2;
+
+        SFL_TRY
+        {
+            it2 = find(it1->first);
+        }
+        SFL_CATCH (...)
+        {
+            // Do not leave an element whose key may not be unique.
+            pop_back();
+            SFL_RETHROW;
+        }
 
         const bool is_unique = it1 == it2;
 
-- 
2.43.0


From e16571eab8ecb4128b3827ffd369bcb35aaa734d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:11 +0000
Subject: [PATCH 13/19] fix: static_unordered_flat_multiset provides documented
 data() member functions

---
 include/sfl/static_unordered_flat_multiset.hpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/include/sfl/static_unordered_flat_multiset.hpp b/include/sfl/static_unordered_flat_multiset.hpp
index e9ed6a0..78f9ea3 100644
--- a/include/sfl/static_unordered_flat_multiset.hpp
+++ b/include/sfl/static_unordered_flat_multiset.hpp
@@ -729,6 +729,22 @@ public:
     // ---- ELEMENT ACCESS ----------------------------------------------------
     //
 
+    SFL_NODISCARD
+    value_type* data() noexcept
+    {
+        return data_.first_;
+    }
+
+    SFL_NODISCARD
+    const value_type* data() const noexcept
+    {
+        return data_.first_;
+    }
+
+    //
+    // ---- ELEMENT ACCESS ----------------------------------------------------
+    //
+
 private:
 
     template <typename ForwardIt,
-- 
2.43.0


From 8575251e8ce4694f539e06dcbde54c945a6a8a9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:01 +0000
Subject: [PATCH 14/19] fix: flat sets and maps stay ordered when copying of
 inserted value fails

---
 include/sfl/small_flat_map.hpp  | 6 +++++-
 include/sfl/small_flat_set.hpp  | 6 +++++-
 include/sfl/static_flat_map.hpp | 6 +++++-
 include/sfl/static_flat_set.hpp | 6 +++++-
 4 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/include/sfl/small_flat_map.hpp b/include/sfl/small_flat_map.hpp
index 88d8abe..cb09ac6 100644
--- a/include/sfl/small_flat_map.hpp
+++ b/include/sfl/small_flat_map.hpp
@@ -1952,6 +1952,10 @@ private:
             }
             else
             {
+                // Create temporary value before making place for new element.
+                // Copying of value can fail and that must not affect other elements.
+                value_type temp(std::forward<Value>(value));
+
                 const pointer p2 = data_.last_ - 1;
 
                 const pointer old_last = data_.last_;
@@ -1972,7 +1976,7 @@ private:
                     old_last
                 );
 
-                *p1 = std::forward<Value>(value);
+                *p1 = std::move(temp);
             }
 
             return iterator(p1);
diff --git a/include/sfl/small_flat_set.hpp b/include/sfl/small_flat_set.hpp
index 0d8f9d1..4ab816e 100644
--- a/include/sfl/small_flat_set.hpp
+++ b/include/sfl/small_flat_set.hpp
@@ -1648,6 +1648,10 @@ private:
             }
             else
             {
+                // Create temporary value before making place for new element.
+                // Copying of value can fail and that must not affect other elements.
+                value_type temp(std::forward<Value>(value));
+
                 const pointer p2 = data_.last_ - 1;
 
                 const pointer old_last = data_.last_;
@@ -1668,7 +1672,7 @@ private:
                     old_last
                 );
 
-                *p1 = std::forward<Value>(value);
+                *p1 = std::move(temp);
             }
 
             return iterator(p1);
diff --git a/include/sfl/static_flat_map.hpp b/include/sfl/static_flat_map.hpp
index aea18f8..146db8e 100644
--- a/include/sfl/static_flat_map.hpp
+++ b/include/sfl/static_flat_map.hpp
@@ -1244,6 +1244,10 @@ private:
         }
         else
         {
+            // Create temporary value before making place for new element.
+            // Copying of value can fail and that must not affect other elements.
+            value_type temp(std::forward<Value>(value));
+
             const pointer p2 = data_.last_ - 1;
 
             const pointer old_last = data_.last_;
@@ -1263,7 +1267,7 @@ private:
                 old_last
             );
 
-            *p1 = std::forward<Value>(value);
+            *p1 = std::move(temp);
         }
 
         return iterator(p1);
diff --git a/include/sfl/static_flat_set.hpp b/include/sfl/static_flat_set.hpp
index ee80b20..418be1e 100644
--- a/include/sfl/static_flat_set.hpp
+++ b/include/sfl/static_flat_set.hpp
@@ -927,6 +927,10 @@ private:
         }
         else
         {
+            // Create temporary value before making place for new element.
+            // Copying of value can fail and that must not affect other elements.
+            value_type temp(std::forward<Value>(value));
+
             const pointer p2 = data_.last_ - 1;
 
             const pointer old_last = data_.last_;
@@ -946,7 +950,7 @@ private:
                 old_last
             );
 
-            *p1 = std::forward<Value>(value);
+            *p1 = std::move(temp);
         }
 
         return iterator(p1);
-- 
2.43.0


From 14cc2c3545c6e022b3511134f32757c36846ca99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:01 +0000
Subject: [PATCH 15/19] fix: unordered sets stay unique when comparison of
 elements fails during emplacement

---
 include/sfl/small_unordered_flat_set.hpp  | 14 +++++++++++++-
 include/sfl/static_unordered_flat_set.hpp | 14 +++++++++++++-
 2 files changed, 26 insertions(+), 2 deletions(-)

diff --git a/include/sfl/small_unordered_flat_set.hpp b/include/sfl/small_unordered_flat_set.hpp
index ed86ffc..55e9ebf 100644
--- a/include/sfl/small_unordered_flat_set.hpp
+++ b/include/sfl/small_unordered_flat_set.hpp
@@ -1490,7 +1490,19 @@ private:
     std::pair<iterator, bool> emplace_aux(Args&&... args)
     {
         const auto it1 = emplace_back(std::forward<Args>(args)...);
-        const auto it2 = find(*it1);
+
+        iterator it2;
+
+        SFL_TRY
+        {
+            it2 = find(*it1);
+        }
+        SFL_CATCH (...)
+        {
+            // Do not leave an element whose value may not be unique.
+            pop_back();
+            SFL_RETHROW;
+        }
 
         const bool is_unique = it1 == it2;
 
diff --git a/include/sfl/static_unordered_flat_set.hpp b/include/sfl/static_unordered_flat_set.hpp
index 2419a8e..f416399 100644
--- a/include/sfl/static_unordered_flat_set.hpp
+++ b/include/sfl/static_unordered_flat_set.hpp
@@ -764,7 +764,19 @@ private:
     std::pair<iterator, bool> emplace_aux(Args&&... args)
     {
         const auto it1 = emplace_back(std::forward<Args>(args)...);
-        const auto it2 = find(*it1);
+
+        iterator it2;
+
+        SFL_TRY
+        {
+            it2 = find(*it1);
+        }
+        SFL_CATCH (...)
+        {
+            // Do not leave an element whose value may not be unique.
+            pop_back();
+            SFL_RETHROW;
+        }
 
         const bool is_unique = it1 == it2;
 
-- 
2.43.0


From bb5f0db0c490d5ec30ea8ae63d81d05c6e5836ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:43 +0000
Subject: [PATCH 16/19] fix: flat sets and maps stay ordered and unique when
 assignment from another container fails

---
 include/sfl/small_flat_map.hpp            | 82 +++++++++++++----------
 include/sfl/small_flat_multimap.hpp       | 82 +++++++++++++----------
 include/sfl/small_flat_multiset.hpp       | 82 +++++++++++++----------
 include/sfl/small_flat_set.hpp            | 82 +++++++++++++----------
 include/sfl/small_unordered_flat_map.hpp  | 82 +++++++++++++----------
 include/sfl/small_unordered_flat_set.hpp  | 82 +++++++++++++----------
 include/sfl/static_flat_map.hpp           | 66 ++++++++++--------
 include/sfl/static_flat_multimap.hpp      | 70 ++++++++++---------
 include/sfl/static_flat_multiset.hpp      | 70 ++++++++++---------
 include/sfl/static_flat_set.hpp           | 70 ++++++++++---------
 include/sfl/static_unordered_flat_map.hpp | 66 ++++++++++--------
 include/sfl/static_unordered_flat_set.hpp | 70 ++++++++++---------
 12 files changed, 500 insertions(+), 404 deletions(-)

diff --git a/include/sfl/small_flat_map.hpp b/include/sfl/small_flat_map.hpp
index cb09ac6..5fe3d1c 100644
--- a/include/sfl/small_flat_map.hpp
+++ b/include/sfl/small_flat_map.hpp
@@ -1692,59 +1692,67 @@ private:
 
         check_size(n, "sfl::small_flat_map::assign_range");
 
-        if (n <= capacity())
+        SFL_TRY
         {
-            const size_type s = size();
-
-            if (n <= s)
+            if (n <= capacity())
             {
-                pointer new_last = sfl::dtl::copy
-                (
-                    first,
-                    last,
-                    data_.first_
-                );
+                const size_type s = size();
 
-                sfl::dtl::destroy_a
-                (
-                    data_.ref_to_alloc(),
-                    new_last,
-                    data_.last_
-                );
+                if (n <= s)
+                {
+                    pointer new_last = sfl::dtl::copy
+                    (
+                        first,
+                        last,
+                        data_.first_
+                    );
+
+                    sfl::dtl::destroy_a
+                    (
+                        data_.ref_to_alloc(),
+                        new_last,
+                        data_.last_
+                    );
+
+                    data_.last_ = new_last;
+                }
+                else
+                {
+                    ForwardIt mid = std::next(first, s);
+
+                    sfl::dtl::copy
+                    (
+                        first,
+                        mid,
+                        data_.first_
+                    );
 
-                data_.last_ = new_last;
+                    data_.last_ = sfl::dtl::uninitialized_copy_a
+                    (
+                        data_.ref_to_alloc(),
+                        mid,
+                        last,
+                        data_.last_
+                    );
+                }
             }
             else
             {
-                ForwardIt mid = std::next(first, s);
-
-                sfl::dtl::copy
-                (
-                    first,
-                    mid,
-                    data_.first_
-                );
+                reset(n);
 
                 data_.last_ = sfl::dtl::uninitialized_copy_a
                 (
                     data_.ref_to_alloc(),
-                    mid,
+                    first,
                     last,
-                    data_.last_
+                    data_.first_
                 );
             }
         }
-        else
+        SFL_CATCH (...)
         {
-            reset(n);
-
-            data_.last_ = sfl::dtl::uninitialized_copy_a
-            (
-                data_.ref_to_alloc(),
-                first,
-                last,
-                data_.first_
-            );
+            clear();
+            SFL_RETHROW;
         }
     }
 
diff --git a/include/sfl/small_flat_multimap.hpp b/include/sfl/small_flat_multimap.hpp
index 4f08dc1..d730756 100644
--- a/include/sfl/small_flat_multimap.hpp
+++ b/include/sfl/small_flat_multimap.hpp
@@ -1510,59 +1510,67 @@ private:
 
         check_size(n, "sfl::small_flat_multimap::assign_range");
 
-        if (n <= capacity())
+        SFL_TRY
         {
-            const size_type s = size();
-
-            if (n <= s)
+            if (n <= capacity())
             {
-                pointer new_last = sfl::dtl::copy
-                (
-                    first,
-                    last,
-                    data_.first_
-                );
+                const size_type s = size();
 
-                sfl::dtl::destroy_a
-                (
-                    data_.ref_to_alloc(),
-                    new_last,
-                    data_.last_
-                );
+                if (n <= s)
+                {
+                    pointer new_last = sfl::dtl::copy
+                    (
+                        first,
+                        last,
+                        data_.first_
+                    );
+
+                    sfl::dtl::destroy_a
+                    (
+                        data_.ref_to_alloc(),
+                        new_last,
+                        data_.last_
+                    );
+
+                    data_.last_ = new_last;
+                }
+                else
+                {
+                    ForwardIt mid = std::next(first, s);
+
+                    sfl::dtl::copy
+                    (
+                        first,
+                        mid,
+                        data_.first_
+                    );
 
-                data_.last_ = new_last;
+                    data_.last_ = sfl::dtl::uninitialized_copy_a
+                    (
+                        data_.ref_to_alloc(),
+                        mid,
+                        last,
+                        data_.last_
+                    );
+                }
             }
             else
             {
-                ForwardIt mid = std::next(first, s);
-
-                sfl::dtl::copy
-                (
-                    first,
-                    mid,
-                    data_.first_
-                );
+                reset(n);
 
                 data_.last_ = sfl::dtl::uninitialized_copy_a
                 (
                     data_.ref_to_alloc(),
-                    mid,
+                    first,
                     last,
-                    data_.last_
+                    data_.first_
                 );
             }
         }
-        else
+        SFL_CATCH (...)
         {
-            reset(n);
-
-            data_.last_ = sfl::dtl::uninitialized_copy_a
-            (
-                data_.ref_to_alloc(),
-                first,
-                last,
-                data_.first_
-            );
+            clear();
+            SFL_RETHROW;
         }
     }
 
diff --git a/include/sfl/small_flat_multiset.hpp b/include/sfl/small_flat_multiset.hpp
index 0ae0157..d3fed62 100644
--- a/include/sfl/small_flat_multiset.hpp
+++ b/include/sfl/small_flat_multiset.hpp
@@ -1437,59 +1437,67 @@ private:
 
         check_size(n, "sfl::small_flat_multiset::assign_range");
 
-        if (n <= capacity())
+        SFL_TRY
         {
-            const size_type s = size();
-
-            if (n <= s)
+            if (n <= capacity())
             {
-                pointer new_last = sfl::dtl::copy
-                (
-                    first,
-                    last,
-                    data_.first_
-                );
+                const size_type s = size();
 
-                sfl::dtl::destroy_a
-                (
-                    data_.ref_to_alloc(),
-                    new_last,
-                    data_.last_
-                );
+                if (n <= s)
+                {
+                    pointer new_last = sfl::dtl::copy
+                    (
+                        first,
+                        last,
+                        data_.first_
+                    );
+
+                    sfl::dtl::destroy_a
+                    (
+                        data_.ref_to_alloc(),
+                        new_last,
+                        data_.last_
+                    );
+
+                    data_.last_ = new_last;
+                }
+                else
+                {
+                    ForwardIt mid = std::next(first, s);
+
+                    sfl::dtl::copy
+                    (
+                        first,
+                        mid,
+                        data_.first_
+                    );
 
-                data_.last_ = new_last;
+                    data_.last_ = sfl::dtl::uninitialized_copy_a
+                    (
+                        data_.ref_to_alloc(),
+                        mid,
+                        last,
+                        data_.last_
+                    );
+                }
             }
             else
             {
-                ForwardIt mid = std::next(first, s);
-
-                sfl::dtl::copy
-                (
-                    first,
-                    mid,
-                    data_.first_
-                );
+                reset(n);
 
                 data_.last_ = sfl::dtl::uninitialized_copy_a
                 (
                     data_.ref_to_alloc(),
-                    mid,
+                    first,
                     last,
-                    data_.last_
+                    data_.first_
                 );
             }
         }
-        else
+        SFL_CATCH (...)
         {
-            reset(n);
-
-            data_.last_ = sfl::dtl::uninitialized_copy_a
-            (
-                data_.ref_to_alloc(),
-                first,
-                last,
-                data_.first_
-            );
+            clear();
+            SFL_RETHROW;
         }
     }
 
diff --git a/include/sfl/small_flat_set.hpp b/include/sfl/small_flat_set.hpp
index 4ab816e..eed29fa 100644
--- a/include/sfl/small_flat_set.hpp
+++ b/include/sfl/small_flat_set.hpp
@@ -1458,59 +1458,67 @@ private:
 
         check_size(n, "sfl::small_flat_set::assign_range");
 
-        if (n <= capacity())
+        SFL_TRY
         {
-            const size_type s = size();
-
-            if (n <= s)
+            if (n <= capacity())
             {
-                pointer new_last = sfl::dtl::copy
-                (
-                    first,
-                    last,
-                    data_.first_
-                );
+                const size_type s = size();
 
-                sfl::dtl::destroy_a
-                (
-                    data_.ref_to_alloc(),
-                    new_last,
-                    data_.last_
-                );
+                if (n <= s)
+                {
+                    pointer new_last = sfl::dtl::copy
+                    (
+                        first,
+                        last,
+                        data_.first_
+                    );
+
+                    sfl::dtl::destroy_a
+                    (
+                        data_.ref_to_alloc(),
+                        new_last,
+                        data_.last_
+                    );
+
+                    data_.last_ = new_last;
+                }
+                else
+                {
+                    ForwardIt mid = std::next(first, s);
+
+                    sfl::dtl::copy
+                    (
+                        first,
+                        mid,
+                        data_.first_
+                    );
 
-                data_.last_ = new_last;
+                    data_.last_ = sfl::dtl::uninitialized_copy_a
+                    (
+                        data_.ref_to_alloc(),
+                        mid,
+                        last,
+                        data_.last_
+                    );
+                }
             }
             else
             {
-                ForwardIt mid = std::next(first, s);
-
-                sfl::dtl::copy
-                (
-                    first,
-                    mid,
-                    data_.first_
-                );
+                reset(n);
 
                 data_.last_ = sfl::dtl::uninitialized_copy_a
                 (
                     data_.ref_to_alloc(),
-                    mid,
+                    first,
                     last,
-                    data_.last_
+                    data_.first_
                 );
             }
         }
-        else
+        SFL_CATCH (...)
         {
-            reset(n);
-
-            data_.last_ = sfl::dtl::uninitialized_copy_a
-            (
-                data_.ref_to_alloc(),
-                first,
-                last,
-                data_.first_
-            );
+            clear();
+            SFL_RETHROW;
         }
     }
 
diff --git a/include/sfl/small_unordered_flat_map.hpp b/include/sfl/small_unordered_flat_map.hpp
index 405a5a0..e658c84 100644
--- a/include/sfl/small_unordered_flat_map.hpp
+++ b/include/sfl/small_unordered_flat_map.hpp
@@ -1613,59 +1613,67 @@ private:
 
         check_size(n, "sfl::small_unordered_flat_map::assign_range");
 
-        if (n <= capacity())
+        SFL_TRY
         {
-            const size_type s = size();
-
-            if (n <= s)
+            if (n <= capacity())
             {
-                pointer new_last = sfl::dtl::copy
-                (
-                    first,
-                    last,
-                    data_.first_
-                );
+                const size_type s = size();
 
-                sfl::dtl::destroy_a
-                (
-                    data_.ref_to_alloc(),
-                    new_last,
-                    data_.last_
-                );
+                if (n <= s)
+                {
+                    pointer new_last = sfl::dtl::copy
+                    (
+                        first,
+                        last,
+                        data_.first_
+                    );
+
+                    sfl::dtl::destroy_a
+                    (
+                        data_.ref_to_alloc(),
+                        new_last,
+                        data_.last_
+                    );
+
+                    data_.last_ = new_last;
+                }
+                else
+                {
+                    ForwardIt mid = std::next(first, s);
 
-                data_.last_ = new_last;
+                    sfl::dtl::copy
+                    (
+                        first,
+                        mid,
+                        data_.first_
+                    );
+
+                    data_.last_ = sfl::dtl::uninitialized_copy_a
+                    (
+                        data_.ref_to_alloc(),
+                        mid,
+                        last,
+                        data_.last_
+                    );
+                }
             }
             else
             {
-                ForwardIt mid = std::next(first, s);
-
-                sfl::dtl::copy
-                (
-                    first,
-                    mid,
-                    data_.first_
-                );
+                reset(n);
 
                 data_.last_ = sfl::dtl::uninitialized_copy_a
                 (
                     data_.ref_to_alloc(),
-                    mid,
+                    first,
                     last,
-                    data_.last_
+                    data_.first_
                 );
             }
         }
-        else
+        SFL_CATCH (...)
         {
-            reset(n);
-
-            data_.last_ = sfl::dtl::uninitialized_copy_a
-            (
-                data_.ref_to_alloc(),
-                first,
-                last,
-                data_.first_
-            );
+            clear();
+            SFL_RETHROW;
         }
     }
 
diff --git a/include/sfl/small_unordered_flat_set.hpp b/include/sfl/small_unordered_flat_set.hpp
index 55e9ebf..0d877e2 100644
--- a/include/sfl/small_unordered_flat_set.hpp
+++ b/include/sfl/small_unordered_flat_set.hpp
@@ -1366,59 +1366,67 @@ private:
 
         check_size(n, "sfl::small_unordered_flat_set::assign_range");
 
-        if (n <= capacity())
+        SFL_TRY
         {
-            const size_type s = size();
-
-            if (n <= s)
+            if (n <= capacity())
             {
-                pointer new_last = sfl::dtl::copy
-                (
-                    first,
-                    last,
-                    data_.first_
-                );
+                const size_type s = size();
 
-                sfl::dtl::destroy_a
-                (
-                    data_.ref_to_alloc(),
-                    new_last,
-                    data_.last_
-                );
+                if (n <= s)
+                {
+                    pointer new_last = sfl::dtl::copy
+                    (
+                        first,
+                        last,
+                        data_.first_
+                    );
+
+                    sfl::dtl::destroy_a
+                    (
+                        data_.ref_to_alloc(),
+                        new_last,
+                        data_.last_
+                    );
+
+                    data_.last_ = new_last;
+                }
+                else
+                {
+                    ForwardIt mid = std::next(first, s);
 
-                data_.last_ = new_last;
+                    sfl::dtl::copy
+                    (
+                        first,
+                        mid,
+                        data_.first_
+                    );
+
+                    data_.last_ = sfl::dtl::uninitialized_copy_a
+                    (
+                        data_.ref_to_alloc(),
+                        mid,
+                        last,
+                        data_.last_
+                    );
+                }
             }
             else
             {
-                ForwardIt mid = std::next(first, s);
-
-                sfl::dtl::copy
-                (
-                    first,
-                    mid,
-                    data_.first_
-                );
+                reset(n);
 
                 data_.last_ = sfl::dtl::uninitialized_copy_a
                 (
                     data_.ref_to_alloc(),
-                    mid,
+                    first,
                     last,
-                    data_.last_
+                    data_.first_
                 );
             }
         }
-        else
+        SFL_CATCH (...)
         {
-            reset(n);
-
-            data_.last_ = sfl::dtl::uninitialized_copy_a
-            (
-                data_.ref_to_alloc(),
-                first,
-                last,
-                data_.first_
-            );
+            clear();
+            SFL_RETHROW;
         }
     }
 
diff --git a/include/sfl/static_flat_map.hpp b/include/sfl/static_flat_map.hpp
index 146db8e..1ad534a 100644
--- a/include/sfl/static_flat_map.hpp
+++ b/include/sfl/static_flat_map.hpp
@@ -1067,40 +1067,48 @@ private:
 
         const size_type size = this->size();
 
-        if (n <= size)
+        SFL_TRY
         {
-            const pointer new_last = sfl::dtl::copy
-            (
-                first,
-                last,
-                data_.first_
-            );
+            if (n <= size)
+            {
+                const pointer new_last = sfl::dtl::copy
+                (
+                    first,
+                    last,
+                    data_.first_
+                );
 
-            sfl::dtl::destroy
-            (
-                new_last,
-                data_.last_
-            );
+                sfl::dtl::destroy
+                (
+                    new_last,
+                    data_.last_
+                );
 
-            data_.last_ = new_last;
-        }
-        else
-        {
-            const ForwardIt mid = std::next(first, size);
+                data_.last_ = new_last;
+            }
+            else
+            {
+                const ForwardIt mid = std::next(first, size);
 
-            sfl::dtl::copy
-            (
-                first,
-                mid,
-                data_.first_
-            );
+                sfl::dtl::copy
+                (
+                    first,
+                    mid,
+                    data_.first_
+                );
 
-            data_.last_ = sfl::dtl::uninitialized_copy
-            (
-                mid,
-                last,
-                data_.last_
-            );
+                data_.last_ = sfl::dtl::uninitialized_copy
+                (
+                    mid,
+                    last,
+                    data_.last_
+                );
+            }
+        }
+        SFL_CATCH (...)
+        {
+            clear();
+            SFL_RETHROW;
         }
     }
 
diff --git a/include/sfl/static_flat_multimap.hpp b/include/sfl/static_flat_multimap.hpp
index b0355d5..269376a 100644
--- a/include/sfl/static_flat_multimap.hpp
+++ b/include/sfl/static_flat_multimap.hpp
@@ -873,40 +873,48 @@ private:
 
         const size_type size = this->size();
 
-        if (n <= size)
+        SFL_TRY
         {
-            const pointer new_last = sfl::dtl::copy
-            (
-                first,
-                last,
-                data_.first_
-            );
-
-            sfl::dtl::destroy
-            (
-                new_last,
-                data_.last_
-            );
-
-            data_.last_ = new_last;
+            if (n <= size)
+            {
+                const pointer new_last = sfl::dtl::copy
+                (
+                    first,
+                    last,
+                    data_.first_
+                );
+
+                sfl::dtl::destroy
+                (
+                    new_last,
+                    data_.last_
+                );
+
+                data_.last_ = new_last;
+            }
+            else
+            {
+                const ForwardIt mid = std::next(first, size);
+
+                sfl::dtl::copy
+                (
+                    first,
+                    mid,
+                    data_.first_
+                );
+
+                data_.last_ = sfl::dtl::uninitialized_copy
+                (
+                    mid,
+                    last,
+                    data_.last_
+                );
+            }
         }
-        else
+        SFL_CATCH (...)
         {
-            const ForwardIt mid = std::next(first, size);
-
-            sfl::dtl::copy
-            (
-                first,
-                mid,
-                data_.first_
-            );
-
-            data_.last_ = sfl::dtl::uninitialized_copy
-            (
-                mid,
-                last,
-                data_.last_
-            );
+            clear();
+            SFL_RETHROW;
         }
     }
 
diff --git a/include/sfl/static_flat_multiset.hpp b/include/sfl/static_flat_multiset.hpp
index c837b44..0858bbb 100644
--- a/include/sfl/static_flat_multiset.hpp
+++ b/include/sfl/static_flat_multiset.hpp
@@ -797,40 +797,48 @@ private:
 
         const size_type size = this->size();
 
-        if (n <= size)
+        SFL_TRY
         {
-            const pointer new_last = sfl::dtl::copy
-            (
-                first,
-                last,
-                data_.first_
-            );
-
-            sfl::dtl::destroy
-            (
-                new_last,
-                data_.last_
-            );
-
-            data_.last_ = new_last;
+            if (n <= size)
+            {
+                const pointer new_last = sfl::dtl::copy
+                (
+                    first,
+                    last,
+                    data_.first_
+                );
+
+                sfl::dtl::destroy
+                (
+                    new_last,
+                    data_.last_
+                );
+
+                data_.last_ = new_last;
+            }
+            else
+            {
+                const ForwardIt mid = std::next(first, size);
+
+                sfl::dtl::copy
+                (
+                    first,
+                    mid,
+                    data_.first_
+                );
+
+                data_.last_ = sfl::dtl::uninitialized_copy
+                (
+                    mid,
+                    last,
+                    data_.last_
+                );
+            }
         }
-        else
+        SFL_CATCH (...)
         {
-            const ForwardIt mid = std::next(first, size);
-
-            sfl::dtl::copy
-            (
-                first,
-                mid,
-                data_.first_
-            );
-
-            data_.last_ = sfl::dtl::uninitialized_copy
-            (
-                mid,
-                last,
-                data_.last_
-            );
+            clear();
+            SFL_RETHROW;
         }
     }
 
diff --git a/include/sfl/static_flat_set.hpp b/include/sfl/static_flat_set.hpp
index 418be1e..e1f0331 100644
--- a/include/sfl/static_flat_set.hpp
+++ b/include/sfl/static_flat_set.hpp
@@ -820,40 +820,48 @@ private:
 
         const size_type size = this->size();
 
-        if (n <= size)
+        SFL_TRY
         {
-            const pointer new_last = sfl::dtl::copy
-            (
-                first,
-                last,
-                data_.first_
-            );
-
-            sfl::dtl::destroy
-            (
-                new_last,
-                data_.last_
-            );
-
-            data_.last_ = new_last;
+            if (n <= size)
+            {
+                const pointer new_last = sfl::dtl::copy
+                (
+                    first,
+                    last,
+                    data_.first_
+                );
+
+                sfl::dtl::destroy
+                (
+                    new_last,
+                    data_.last_
+                );
+
+                data_.last_ = new_last;
+            }
+            else
+            {
+                const ForwardIt mid = std::next(first, size);
+
+                sfl::dtl::copy
+                (
+                    first,
+                    mid,
+                    data_.first_
+                );
+
+                data_.last_ = sfl::dtl::uninitialized_copy
+                (
+                    mid,
+                    last,
+                    data_.last_
+                );
+            }
         }
-        else
+        SFL_CATCH (...)
         {
-            const ForwardIt mid = std::next(first, size);
-
-            sfl::dtl::copy
-            (
-                first,
-                mid,
-                data_.first_
-            );
-
-            data_.last_ = sfl::dtl::uninitialized_copy
-            (
-                mid,
-                last,
-                data_.last_
-            );
+            clear();
+            SFL_RETHROW;
         }
     }
 
diff --git a/include/sfl/static_unordered_flat_map.hpp b/include/sfl/static_unordered_flat_map.hpp
index b66fa7b..99bc67d 100644
--- a/include/sfl/static_unordered_flat_map.hpp
+++ b/include/sfl/static_unordered_flat_map.hpp
@@ -981,40 +981,48 @@ private:
 
         const size_type size = this->size();
 
-        if (n <= size)
+        SFL_TRY
         {
-            const pointer new_last = sfl::dtl::copy
-            (
-                first,
-                last,
-                data_.first_
-            );
+            if (n <= size)
+            {
+                const pointer new_last = sfl::dtl::copy
+                (
+                    first,
+                    last,
+                    data_.first_
+                );
 
-            sfl::dtl::destroy
-            (
-                new_last,
-                data_.last_
-            );
+                sfl::dtl::destroy
+                (
+                    new_last,
+                    data_.last_
+                );
 
-            data_.last_ = new_last;
-        }
-        else
-        {
-            const ForwardIt mid = std::next(first, size);
+                data_.last_ = new_last;
+            }
+            else
+            {
+                const ForwardIt mid = std::next(first, size);
 
-            sfl::dtl::copy
-            (
-                first,
-                mid,
-                data_.first_
-            );
+                sfl::dtl::copy
+                (
+                    first,
+                    mid,
+                    data_.first_
+                );
 
-            data_.last_ = sfl::dtl::uninitialized_copy
-            (
-                mid,
-                last,
-                data_.last_
-            );
+                data_.last_ = sfl::dtl::uninitialized_copy
+                (
+                    mid,
+                    last,
+                    data_.last_
+                );
+            }
+        }
+        SFL_CATCH (...)
+        {
+            clear();
+            SFL_RETHROW;
         }
     }
 
diff --git a/include/sfl/static_unordered_flat_set.hpp b/include/sfl/static_unordered_flat_set.hpp
index f416399..fe6291a 100644
--- a/include/sfl/static_unordered_flat_set.hpp
+++ b/include/sfl/static_unordered_flat_set.hpp
@@ -723,40 +723,48 @@ private:
 
         const size_type size = this->size();
 
-        if (n <= size)
+        SFL_TRY
         {
-            const pointer new_last = sfl::dtl::copy
-            (
-                first,
-                last,
-                data_.first_
-            );
-
-            sfl::dtl::destroy
-            (
-                new_last,
-                data_.last_
-            );
-
-            data_.last_ = new_last;
+            if (n <= size)
+            {
+                const pointer new_last = sfl::dtl::copy
+                (
+                    first,
+                    last,
+                    data_.first_
+                );
+
+                sfl::dtl::destroy
+                (
+                    new_last,
+                    data_.last_
+                );
+
+                data_.last_ = new_last;
+            }
+            else
+            {
+                const ForwardIt mid = std::next(first, size);
+
+                sfl::dtl::copy
+                (
+                    first,
+                    mid,
+                    data_.first_
+                );
+
+                data_.last_ = sfl::dtl::uninitialized_copy
+                (
+                    mid,
+                    last,
+                    data_.last_
+                );
+            }
         }
-        else
+        SFL_CATCH (...)
         {
-            const ForwardIt mid = std::next(first, size);
-
-            sfl::dtl::copy
-            (
-                first,
-                mid,
-                data_.first_
-            );
-
-            data_.last_ = sfl::dtl::uninitialized_copy
-            (
-                mid,
-                last,
-                data_.last_
-            );
+            clear();
+            SFL_RETHROW;
         }
     }
 
-- 
2.43.0


From 9c6d48db425c00720a48e9c1b1b933bd428e89b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:41 +0000
Subject: [PATCH 17/19] fix: static_vector::insert of an input range asserts
 the position

---
 include/sfl/static_vector.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/sfl/static_vector.hpp b/include/sfl/static_vector.hpp
index c993413..a47e2e8 100644
--- a/include/sfl/static_vector.hpp
+++ b/include/sfl/static_vector.hpp
@@ -704,6 +704,8 @@ public:
               sfl::dtl::enable_if_t<sfl::dtl::is_exactly_input_iterator<InputIt>::value>* = nullptr>
     iterator insert(const_iterator pos, InputIt first, InputIt last)
     {
+        SFL_ASSERT(cbegin() <= pos && pos <= cend());
+
         const difference_type offset = std::distance(cbegin(), pos);
 
         while (first != last)
-- 
2.43.0


From e3aad18905a0cb4756a5f8920eede3642b74f61c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:34:27 +0000
Subject: [PATCH 18/19] fix: segmented containers throw length_error when
 capacity exceeds max_size

---
 include/sfl/segmented_devector.hpp | 6 ++++--
 include/sfl/segmented_vector.hpp   | 3 ++-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/sfl/segmented_devector.hpp b/include/sfl/segmented_devector.hpp
index 4efd130..503364f 100644
--- a/include/sfl/segmented_devector.hpp
+++ b/include/sfl/segmented_devector.hpp
@@ -1332,7 +1332,8 @@ private:
     //
     void grow_storage_front(size_type num_additional_elements)
     {
-        if (max_size() - capacity() < num_additional_elements)
+        // Capacity is rounded up to whole segments so it can exceed max_size().
+        if (capacity() > max_size() || max_size() - capacity() < num_additional_elements)
         {
             sfl::dtl::throw_length_error("sfl::segmented_devector::grow_storage_front");
         }
@@ -1420,7 +1421,8 @@ private:
     //
     void grow_storage_back(size_type num_additional_elements)
     {
-        if (max_size() - capacity() < num_additional_elements)
+        // Capacity is rounded up to whole segments so it can exceed max_size().
+        if (capacity() > max_size() || max_size() - capacity() < num_additional_elements)
         {
             sfl::dtl::throw_length_error("sfl::segmented_devector::grow_storage_back");
         }
diff --git a/include/sfl/segmented_vector.hpp b/include/sfl/segmented_vector.hpp
index bc2a9ee..deb0a75 100644
--- a/include/sfl/segmented_vector.hpp
+++ b/include/sfl/segmented_vector.hpp
@@ -961,7 +961,8 @@ private:
     //
     void grow_storage(size_type num_additional_elements)
     {
-        if (max_size() - capacity() < num_additional_elements)
+        // Capacity is rounded up to whole segments so it can exceed max_size().
+        if (capacity() > max_size() || max_size() - capacity() < num_additional_elements)
         {
             sfl::dtl::throw_length_error("sfl::segmented_vector::grow_storage");
         }
-- 
2.43.0


From 1b63952a8aba1806019248b4406e5fb683be3902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:04:38 +0000
Subject: [PATCH 19/19] fix: segmented_devector insert of a long range reads
 the segment table out of bounds

---
 include/sfl/segmented_devector.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/sfl/segmented_devector.hpp b/include/sfl/segmented_devector.hpp
index 503364f..cad2ecc 100644
--- a/include/sfl/segmented_devector.hpp
+++ b/include/sfl/segmented_devector.hpp
@@ -2429,10 +2429,11 @@ private:
             }
 
             const iterator p1 = data_.first_ + dist_to_begin;
-            const iterator p2 = data_.last_ - n;
 
             if (dist_to_end > n)
             {
+                const iterator p2 = data_.last_ - n;
+
                 const iterator old_last = data_.last_;
 
                 data_.last_ = sfl::dtl::uninitialized_move_a
-- 
2.43.0

