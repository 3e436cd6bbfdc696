From 66d0632096d8c3bb68a6660bf3b44af58f388ecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:17 +0000
Subject: [PATCH 01/35] fix: observable value pre-decrement returned and
 notified the value plus one

---
 include/xitren/comm/values/observable.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/xitren/comm/values/observable.hpp b/include/xitren/comm/values/observable.hpp
index 52dfcd6..ac02fe3 100644
--- a/include/xitren/comm/values/observable.hpp
+++ b/include/xitren/comm/values/observable.hpp
@@ -84,7 +84,7 @@ public:
     observable_type
     operator--() volatile noexcept
     {
-        auto const ret = std::atomic<observable_type>::fetch_sub(1) + 1;
+        auto const ret = std::atomic<observable_type>::fetch_sub(1) - 1;
         notify_observers(ret);
         return ret;
     }
@@ -92,7 +92,7 @@ public:
     observable_type
     operator--() noexcept
     {
-        auto const ret = std::atomic<observable_type>::fetch_sub(1) + 1;
+        auto const ret = std::atomic<observable_type>::fetch_sub(1) - 1;
         notify_observers(ret);
         return ret;
     }
@@ -330,7 +330,7 @@ public:
     observable_type
     operator--() volatile noexcept
     {
-        auto const ret = std::atomic<observable_type>::fetch_sub(1) + 1;
+        auto const ret = std::atomic<observable_type>::fetch_sub(1) - 1;
         notify_observers(ret);
         return ret;
     }
@@ -338,7 +338,7 @@ public:
     observable_type
     operator--() noexcept
     {
-        auto const ret = std::atomic<observable_type>::fetch_sub(1) + 1;
+        auto const ret = std::atomic<observable_type>::fetch_sub(1) - 1;
         notify_observers(ret);
         return ret;
     }
-- 
2.43.0


From c2358bf8fff93559c62929146562b2354e7de976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:17 +0000
Subject: [PATCH 02/35] fix: observable value post-increment and post-decrement
 notified the old value

---
 include/xitren/comm/values/observable.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/xitren/comm/values/observable.hpp b/include/xitren/comm/values/observable.hpp
index ac02fe3..cfa96ec 100644
--- a/include/xitren/comm/values/observable.hpp
+++ b/include/xitren/comm/values/observable.hpp
@@ -37,7 +37,7 @@ public:
     operator++(int) volatile noexcept
     {
         auto const ret = std::atomic<observable_type>::fetch_add(1);
-        notify_observers(ret);
+        notify_observers(ret + 1);
         return ret;
     }
 
@@ -45,7 +45,7 @@ public:
     operator++(int) noexcept
     {
         auto const ret = std::atomic<observable_type>::fetch_add(1);
-        notify_observers(ret);
+        notify_observers(ret + 1);
         return ret;
     }
 
@@ -53,7 +53,7 @@ public:
     operator--(int) volatile noexcept
     {
         auto const ret = std::atomic<observable_type>::fetch_sub(1);
-        notify_observers(ret);
+        notify_observers(ret - 1);
         return ret;
     }
 
@@ -61,7 +61,7 @@ public:
     operator--(int) noexcept
     {
         auto const ret = std::atomic<observable_type>::fetch_sub(1);
-        notify_observers(ret);
+        notify_observers(ret - 1);
         return ret;
     }
 
@@ -283,7 +283,7 @@ public:
     operator++(int) volatile noexcept
     {
         auto const ret = std::atomic<observable_type>::fetch_add(1);
-        notify_observers(ret);
+        notify_observers(ret + 1);
         return ret;
     }
 
@@ -291,7 +291,7 @@ public:
     operator++(int) noexcept
     {
         auto const ret = std::atomic<observable_type>::fetch_add(1);
-        notify_observers(ret);
+        notify_observers(ret + 1);
         return ret;
     }
 
@@ -299,7 +299,7 @@ public:
     operator--(int) volatile noexcept
     {
         auto const ret = std::atomic<observable_type>::fetch_sub(1);
-        notify_observers(ret);
+        notify_observers(ret - 1);
         return ret;
     }
 
@@ -307,7 +307,7 @@ public:
     operator--(int) noexcept
     {
         auto const ret = std::atomic<observable_type>::fetch_sub(1);
-        notify_observers(ret);
+        notify_observers(ret - 1);
         return ret;
     }
 
-- 
2.43.0


From 9846074717ca75fe9a3b1739991426db623fc9d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:17 +0000
Subject: [PATCH 03/35] fix: dynamic observable value kept a stale list entry
 after remove_observer

---
 include/xitren/comm/values/observable.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/xitren/comm/values/observable.hpp b/include/xitren/comm/values/observable.hpp
index cfa96ec..92ee7db 100644
--- a/include/xitren/comm/values/observable.hpp
+++ b/include/xitren/comm/values/observable.hpp
@@ -443,6 +443,7 @@ public:
         }
         auto it = std::remove(observers_.begin(), observers_.end(), &observer);
         if (it != observers_.end()) {
+            observers_.erase(it, observers_.end());
             return observer_errors::ok;
         } else {
             return observer_errors::not_found;
-- 
2.43.0


From 3c81f588c9ab789780f1a186fea5d676ba611d4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:17 +0000
Subject: [PATCH 04/35] fix: mediator remove_module wrote past the module array
 of a full manager

---
 include/xitren/comm/mediator.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/xitren/comm/mediator.hpp b/include/xitren/comm/mediator.hpp
index 4db881e..09d4b73 100644
--- a/include/xitren/comm/mediator.hpp
+++ b/include/xitren/comm/mediator.hpp
@@ -293,8 +293,7 @@ public:
                 for (; i < modules_cnt_ - 1; i++) {
                     modules_[i] = modules_[i + 1];
                 }
-                modules_[modules_cnt_] = 0;
-                --modules_cnt_;
+                modules_[--modules_cnt_] = nullptr;
                 return;
             }
         }
-- 
2.43.0


From dea563fd66c6f3da36ed785c87affacaa58646d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:17 +0000
Subject: [PATCH 05/35] fix: mediator add_module wrote past the module array
 beyond capacity

---
 include/xitren/comm/mediator.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/xitren/comm/mediator.hpp b/include/xitren/comm/mediator.hpp
index 09d4b73..415fedb 100644
--- a/include/xitren/comm/mediator.hpp
+++ b/include/xitren/comm/mediator.hpp
@@ -277,7 +277,8 @@ public:
     void
     add_module(base::module& c) override
     {
-        modules_[modules_cnt_++] = &c;
+        modules_.at(modules_cnt_) = &c;
+        ++modules_cnt_;
     }
 
     /**
-- 
2.43.0


From 613acf266b1df9a98096af104bfabbb0821c3a3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:17 +0000
Subject: [PATCH 06/35] fix: static_heap_allocator compared addresses of
 allocators instead of their heaps

---
 include/xitren/allocators/static_heap_allocator.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/xitren/allocators/static_heap_allocator.hpp b/include/xitren/allocators/static_heap_allocator.hpp
index d7b92b4..d5089e1 100644
--- a/include/xitren/allocators/static_heap_allocator.hpp
+++ b/include/xitren/allocators/static_heap_allocator.hpp
@@ -57,14 +57,14 @@ public:
 
     template <typename U>
     constexpr bool
-    operator==(static_heap_allocator<U, PoolSize> const& other) noexcept
+    operator==(static_heap_allocator<U, PoolSize> const& other) const noexcept
     {
-        return this == &other;
+        return &manager_ == &other.manager_;
     }
 
     template <typename U>
     constexpr bool
-    operator!=(static_heap_allocator<U, PoolSize> const& other) noexcept
+    operator!=(static_heap_allocator<U, PoolSize> const& other) const noexcept
     {
         return !this->operator==(other);
     }
-- 
2.43.0


From 4aac978bc2ae307c67a1d7249b14e32dcb97c3fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:17 +0000
Subject: [PATCH 07/35] fix: static_heap_allocator ignored overflow of the
 requested element count

---
 include/xitren/allocators/static_heap_allocator.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/xitren/allocators/static_heap_allocator.hpp b/include/xitren/allocators/static_heap_allocator.hpp
index d5089e1..1747c3c 100644
--- a/include/xitren/allocators/static_heap_allocator.hpp
+++ b/include/xitren/allocators/static_heap_allocator.hpp
@@ -13,6 +13,7 @@ __ _(_) |_ _ _ ___ _ _
 #include <array>
 #include <cstdint>
 #include <functional>
+#include <new>
 
 namespace xitren::allocators {
 
@@ -42,6 +43,9 @@ public:
     Type*
     allocate(size_t size)    // NOLINT
     {
+        if (size > static_cast<size_t>(-1) / sizeof(Type)) {
+            throw std::bad_alloc();
+        }
         auto ptr = static_cast<Type*>(manager_.allocate(size * sizeof(Type)));
         if (ptr) {
             return ptr;
-- 
2.43.0


From d704501cf71da1abd65cf131dab530ea9f7adb24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:48 +0000
Subject: [PATCH 08/35] fix: static_heap statistics could not be compiled or
 named

---
 include/xitren/allocators/static_heap.hpp | 26 +++++++++++------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/include/xitren/allocators/static_heap.hpp b/include/xitren/allocators/static_heap.hpp
index 847acf7..e8d9b49 100644
--- a/include/xitren/allocators/static_heap.hpp
+++ b/include/xitren/allocators/static_heap.hpp
@@ -28,17 +28,6 @@ class static_heap {
         size_t               x_block_size;       /**< The size of the free block. */
     };
 
-    /* Used to pass information about the heap. */
-    using heap_stats_t = struct {
-        size_t x_available_heap_space_in_bytes;
-        size_t x_size_of_largest_free_block_in_bytes;
-        size_t x_size_of_smallest_free_block_in_bytes;
-        size_t x_number_of_free_blocks;
-        size_t x_minimum_ever_free_bytes_remaining;
-        size_t x_number_of_successful_allocations;
-        size_t x_number_of_successful_frees;
-    };
-
     static constexpr std::size_t port_byte_alignment = 8;
 
     // static constexpr auto
@@ -157,6 +146,17 @@ class static_heap {
     }
 
 public:
+    /* Used to pass information about the heap. */
+    using heap_stats_t = struct {
+        size_t x_available_heap_space_in_bytes;
+        size_t x_size_of_largest_free_block_in_bytes;
+        size_t x_size_of_smallest_free_block_in_bytes;
+        size_t x_number_of_free_blocks;
+        size_t x_minimum_ever_free_bytes_remaining;
+        size_t x_number_of_successful_allocations;
+        size_t x_number_of_successful_frees;
+    };
+
     void
     on_fail(callback_t callback)
     {
@@ -489,7 +489,7 @@ public:
 
         v_task_suspend_all();
         {
-            px_block = heapPROTECT_BLOCK_POINTER(x_start_.px_next_free_block);
+            px_block = heap_protect_block_pointer(x_start_.px_next_free_block);
 
             /* pxBlock will be NULL if the heap has not been initialised.  The heap
              * is initialised automatically when the first allocation is made. */
@@ -509,7 +509,7 @@ public:
 
                     /* Move to the next block in the chain until the last block is
                      * reached. */
-                    px_block = heapPROTECT_BLOCK_POINTER(px_block->px_next_free_block);
+                    px_block = heap_protect_block_pointer(px_block->px_next_free_block);
                 }
             }
         }
-- 
2.43.0


From 94c1b01774a3423c1d81cdbb8e6732ed512e91a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:48 +0000
Subject: [PATCH 09/35] fix: argv_parser cut string options at the first space
 and dropped empty ones

---
 include/xitren/func/argv_parser.hpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/include/xitren/func/argv_parser.hpp b/include/xitren/func/argv_parser.hpp
index 48e5154..988d334 100644
--- a/include/xitren/func/argv_parser.hpp
+++ b/include/xitren/func/argv_parser.hpp
@@ -6,6 +6,7 @@
 #include <sstream>
 #include <string>
 #include <string_view>
+#include <type_traits>
 #include <variant>
 #include <vector>
 
@@ -73,9 +74,13 @@ private:
                 visit(
                     [this, idx, &argv](auto&& arg) {
                         if (idx < static_cast<int>(argv.size() - 1)) {
-                            std::stringstream value;
-                            value << argv[idx + 1];
-                            value >> this->*arg;
+                            if constexpr (std::is_same_v<std::decay_t<decltype(this->*arg)>, std::string>) {
+                                this->*arg = argv[idx + 1];
+                            } else {
+                                std::stringstream value;
+                                value << argv[idx + 1];
+                                value >> this->*arg;
+                            }
                         }
                     },
                     prop);
-- 
2.43.0


From e5b61fc47906598524d94f86429e985578e746d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:48 +0000
Subject: [PATCH 10/35] fix: packet_accessor deserialize read outside the
 buffer for a size out of range

---
 include/xitren/func/packet.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/xitren/func/packet.hpp b/include/xitren/func/packet.hpp
index a30ae3f..c2a258e 100644
--- a/include/xitren/func/packet.hpp
+++ b/include/xitren/func/packet.hpp
@@ -198,10 +198,10 @@ public:
         constexpr size_type length = (sizeof(Header) + sizeof(Fields) + sizeof(typename Crc::value_type));
         static_assert(sizeof(Type) != 0);
         static_assert(Max >= length);
-        size_type const variable_part = (size_ - length) / sizeof(Type);
-        if (((size_ - length) % sizeof(Type))) {
+        if ((size_ < length) || (size_ > Max) || ((size_ - length) % sizeof(Type))) {
             return return_type{{}, {}, false, 0, nullptr};
         }
+        size_type const variable_part = (size_ - length) / sizeof(Type);
         auto header_conv = data<Header>::deserialize(storage_.begin());
         auto fields_conv = data<Fields>::deserialize(storage_.begin() + sizeof(Header));
         auto crc_conv
-- 
2.43.0


From bbae7689699a2f0442a05be5a514f238162a449e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:48 +0000
Subject: [PATCH 11/35] fix: packet_accessor serialize ignored overflow of the
 payload size

---
 include/xitren/func/packet.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/xitren/func/packet.hpp b/include/xitren/func/packet.hpp
index c2a258e..58c39ff 100644
--- a/include/xitren/func/packet.hpp
+++ b/include/xitren/func/packet.hpp
@@ -219,7 +219,7 @@ public:
         constexpr size_type length = (sizeof(Header) + sizeof(Fields) + sizeof(typename Crc::value_type));
         static_assert(sizeof(Type) != 0);
         static_assert(Max >= length);
-        if ((input.size * sizeof(Type) + length) > Max) {
+        if (input.size > (Max - length) / sizeof(Type)) {
             return false;
         }
         data<Header>::serialize(input.header, storage_.begin());
-- 
2.43.0


From 2c34261d925cb1f30d01d9a53ecd9fd45c597ab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:23 +0000
Subject: [PATCH 12/35] fix: packet accessors and array deserialize could not
 be compiled

---
 include/xitren/func/packet.hpp | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/include/xitren/func/packet.hpp b/include/xitren/func/packet.hpp
index 58c39ff..b97f950 100644
--- a/include/xitren/func/packet.hpp
+++ b/include/xitren/func/packet.hpp
@@ -10,8 +10,10 @@ __ _(_) |_ _ _ ___ _ _
 #include <xitren/crc_concept.hpp>
 #include <xitren/func/data.hpp>
 
+#include <algorithm>
 #include <array>
 #include <cstdint>
+#include <tuple>
 
 namespace xitren::func {
 
@@ -61,13 +63,13 @@ public:
         return fields_.header;
     }
 
-    constexpr Header&
+    constexpr Header const&
     header() const noexcept
     {
         return fields_.header;
     }
 
-    constexpr Fields&
+    constexpr Fields const&
     fields() const noexcept
     {
         return fields_.fields;
@@ -79,13 +81,13 @@ public:
         return fields_.fields;
     }
 
-    Crc&
+    typename Crc::value_type&
     crc() noexcept
     {
         return fields_.crc;
     }
 
-    constexpr Crc&
+    constexpr typename Crc::value_type const&
     crc() const noexcept
     {
         return fields_.crc;
@@ -115,10 +117,10 @@ public:
     static constexpr std::tuple<bool, Header, Fields>
     deserialize(std::array<std::uint8_t, Size> const& array) noexcept
     {
-        auto [header, fields, crc] = data<struct_type>::serialize(array);
-        std::array<std::uint8_t, Size - sizeof(Crc::value_type)> checker;
-        auto                                                     calc_crc = Crc::calculate(checker);
-        return {crc == calc_crc, header, fields};
+        static_assert(Size >= length);
+        auto fields   = data<struct_type>::deserialize(array.begin());
+        auto calc_crc = Crc::calculate(array.begin(), array.begin() + length - sizeof(typename Crc::value_type));
+        return {fields.crc == calc_crc, fields.header, fields.fields};
     }
 
     template <typename InputIterator>
-- 
2.43.0


From bd29aad2972000fafeccab2d198145a35b4cbaf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:50 +0000
Subject: [PATCH 13/35] fix: lsb_t and msb_t comparisons were unusable on const
 values

---
 include/xitren/func/data.hpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/include/xitren/func/data.hpp b/include/xitren/func/data.hpp
index eab868b..a46ff2d 100644
--- a/include/xitren/func/data.hpp
+++ b/include/xitren/func/data.hpp
@@ -231,7 +231,7 @@ public:
      * @return True if the two lsb_ts are equal, false otherwise.
      */
     constexpr bool
-    operator==(lsb_t const& other)
+    operator==(lsb_t const& other) const
     {
         return this->get() == other.get();
     }
@@ -243,7 +243,7 @@ public:
      * @return True if the value of this lsb_t is less than the value of the other lsb_t, false otherwise.
      */
     constexpr bool
-    operator<(lsb_t const& other)
+    operator<(lsb_t const& other) const
     {
         return this->get() < other.get();
     }
@@ -255,7 +255,7 @@ public:
      * @return True if the value of this lsb_t is greater than the value of the other lsb_t, false otherwise.
      */
     constexpr bool
-    operator>(lsb_t const& other)
+    operator>(lsb_t const& other) const
     {
         return this->get() > other.get();
     }
@@ -267,7 +267,7 @@ public:
      * @return True if the value of this lsb_t is less than or equal to the value of the other lsb_t, false otherwise.
      */
     constexpr bool
-    operator<=(lsb_t const& other)
+    operator<=(lsb_t const& other) const
     {
         return this->get() <= other.get();
     }
@@ -280,7 +280,7 @@ public:
      * otherwise.
      */
     constexpr bool
-    operator>=(lsb_t const& other)
+    operator>=(lsb_t const& other) const
     {
         return this->get() >= other.get();
     }
@@ -384,7 +384,7 @@ public:
      * @return True if the two msb_ts are equal, false otherwise.
      */
     constexpr bool
-    operator==(msb_t const& other)
+    operator==(msb_t const& other) const
     {
         return this->get() == other.get();
     }
@@ -396,7 +396,7 @@ public:
      * @return True if the value of this msb_t is less than the value of the other msb_t, false otherwise.
      */
     constexpr bool
-    operator<(msb_t const& other)
+    operator<(msb_t const& other) const
     {
         return this->get() < other.get();
     }
@@ -408,7 +408,7 @@ public:
      * @return True if the value of this msb_t is greater than the value of the other msb_t, false otherwise.
      */
     constexpr bool
-    operator>(msb_t const& other)
+    operator>(msb_t const& other) const
     {
         return this->get() > other.get();
     }
@@ -420,7 +420,7 @@ public:
      * @return True if the value of this msb_t is less than or equal to the value of the other msb_t, false otherwise.
      */
     constexpr bool
-    operator<=(msb_t const& other)
+    operator<=(msb_t const& other) const
     {
         return this->get() <= other.get();
     }
@@ -433,7 +433,7 @@ public:
      * otherwise.
      */
     constexpr bool
-    operator>=(msb_t const& other)
+    operator>=(msb_t const& other) const
     {
         return this->get() >= other.get();
     }
-- 
2.43.0


From 7ebd48d8d7d5a238f74be6fbe1f0495c1b1475d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:50 +0000
Subject: [PATCH 14/35] fix: fast_pimpl copy from a non-const object picked the
 forwarding constructor

---
 include/xitren/func/fast_pimpl.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/xitren/func/fast_pimpl.hpp b/include/xitren/func/fast_pimpl.hpp
index f22f236..32acaf1 100644
--- a/include/xitren/func/fast_pimpl.hpp
+++ b/include/xitren/func/fast_pimpl.hpp
@@ -50,6 +50,7 @@ public:
      * @tparam Args The types of the arguments to be passed to the object's constructor.
      */
     template <typename... Args>
+        requires(!(sizeof...(Args) == 1 && (std::is_same_v<std::remove_cvref_t<Args>, fast_pimpl> && ...)))
     explicit fast_pimpl(Args&&... args) noexcept(noexcept(type{std::declval<Args>()...}))
     {
         new (get()) type(std::forward<Args>(args)...);
-- 
2.43.0


From 5a2c295d65851d4a0a034b97853738679d37c578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:50 +0000
Subject: [PATCH 15/35] fix: interval_event started its thread before
 initialising the periods it reads

---
 include/xitren/func/interval_event.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/xitren/func/interval_event.hpp b/include/xitren/func/interval_event.hpp
index 89edbcc..3686f52 100644
--- a/include/xitren/func/interval_event.hpp
+++ b/include/xitren/func/interval_event.hpp
@@ -41,6 +41,8 @@ public:
     interval_event(std::function<void(void)> function, time_type repeat_every = 100ms,
                    time_type wait_between_checks = 20ms)
         : function_{std::move(function)},
+          period_{repeat_every},
+          period_between_checks_{wait_between_checks},
           thread_{[&] {
               std::this_thread::sleep_for(10ms);
               auto last_time{std::chrono::system_clock::now()};
@@ -52,9 +54,7 @@ public:
                   std::this_thread::sleep_for(period_between_checks_);
               }
               keep_running_.notify_one();
-          }},
-          period_{repeat_every},
-          period_between_checks_{wait_between_checks}
+          }}
     {
         thread_.detach();
     }
@@ -129,10 +129,10 @@ public:
 private:
     std::function<void(void)> function_;
     std::atomic_flag          keep_running_{true};
-    std::thread               thread_;
     time_type                 period_{};
     time_type                 period_between_checks_{};
     bool                      stop_{false};
+    std::thread               thread_;
 };
 
 }    // namespace xitren::func
-- 
2.43.0


From 77e8ef074539dc4ebe2bc5ce9df8964b8d311a9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:27 +0000
Subject: [PATCH 16/35] fix: pipeline_stage lost, repeated or tore items once
 its buffer wrapped

---
 include/xitren/comm/pipeline_stage.hpp | 31 ++++++++++++++++++++------
 1 file changed, 24 insertions(+), 7 deletions(-)

diff --git a/include/xitren/comm/pipeline_stage.hpp b/include/xitren/comm/pipeline_stage.hpp
index 0299016..98595dc 100644
--- a/include/xitren/comm/pipeline_stage.hpp
+++ b/include/xitren/comm/pipeline_stage.hpp
@@ -37,8 +37,9 @@ class pipeline_stage {
     using measure_type       = std::pair<int, int>;
     using statistics_type    = std::deque<measure_type>;
     using queue_type         = struct type_tag {
-        std::array<ready_type, BufferSize> array;
-        atomic_cnt_type                    tail;
+        std::array<ready_type, BufferSize>      array;
+        std::array<atomic_cnt_type, BufferSize> turn;    // 2 * lap: slot is free, 2 * lap + 1: slot is filled
+        atomic_cnt_type                         tail;
     };
     using function_type = std::function<const NextType(pipeline_stage_exception, const Type, const measure_type)>;
 
@@ -56,8 +57,14 @@ public:
     void
     push(Type const&& data)
     {
-        auto const i                          = queue_.tail++;
+        auto const i    = queue_.tail++;
+        auto&      turn = queue_.turn[i % queue_.turn.size()];
+        auto const lap  = i / queue_.turn.size();
+        while (turn != (2 * lap)) {
+            std::this_thread::yield();
+        }
         queue_.array[i % queue_.array.size()] = data;
+        turn                                  = 2 * lap + 1;
 #ifdef DEBUG
         Log::trace() << "Index: " << queue_.tail << "\n";
 #endif
@@ -66,8 +73,14 @@ public:
     void
     push(Type const& data)
     {
-        auto const i                          = queue_.tail++;
+        auto const i    = queue_.tail++;
+        auto&      turn = queue_.turn[i % queue_.turn.size()];
+        auto const lap  = i / queue_.turn.size();
+        while (turn != (2 * lap)) {
+            std::this_thread::yield();
+        }
         queue_.array[i % queue_.array.size()] = data;
+        turn                                  = 2 * lap + 1;
 #ifdef DEBUG
         Log::trace() << "Index: " << queue_.tail << "\n";
 #endif
@@ -107,7 +120,9 @@ private:
 #endif
         while (!closed_ || ((queue_.tail - tail_) > 0)) {
             while (tail_ < queue_.tail) {
-                if (!(queue_.array[(tail_) % queue_.array.size()])) {
+                auto&      turn = queue_.turn[tail_ % queue_.turn.size()];
+                auto const lap  = tail_ / queue_.turn.size();
+                if (turn != (2 * lap + 1)) {
                     std::this_thread::sleep_for(0ms);
 #ifdef DEBUG
                     Log::trace() << "Data are not ready!\n";
@@ -118,8 +133,10 @@ private:
 #ifdef DEBUG
                 Log::trace() << "Index to process: " << i << "\n";
 #endif
-                auto& data = queue_.array[i % queue_.array.size()];
-                auto  last_time{std::chrono::system_clock::now()};
+                ready_type const data{std::move(queue_.array[i % queue_.array.size()])};
+                queue_.array[i % queue_.array.size()].reset();
+                turn = 2 * lap + 2;
+                auto last_time{std::chrono::system_clock::now()};
                 func_(pipeline_stage_exception::no_error, data.value(),
                       measure_type{time_for_unit(), buffer_utilization()});
                 auto elapsed = std::chrono::system_clock::now() - last_time;
-- 
2.43.0


From cc40d0845c54e279ed30dfc0efaa6f3763c46ea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:27 +0000
Subject: [PATCH 17/35] fix: pipeline_stage_pool lost, repeated or tore items
 once a buffer wrapped

---
 include/xitren/comm/pipeline_stage_pool.hpp | 37 +++++++++++++++------
 1 file changed, 27 insertions(+), 10 deletions(-)

diff --git a/include/xitren/comm/pipeline_stage_pool.hpp b/include/xitren/comm/pipeline_stage_pool.hpp
index f0c5544..7d4f971 100644
--- a/include/xitren/comm/pipeline_stage_pool.hpp
+++ b/include/xitren/comm/pipeline_stage_pool.hpp
@@ -41,10 +41,11 @@ class pipeline_stage_pool {
     using ready_type         = std::optional<Type>;
     using statistics_type    = std::deque<measure_data>;
     using queue_type         = struct type_tag {
-        std::array<ready_type, BufferSize> array;
-        statistics_type                    stat;
-        atomic_cnt_type                    tail;
-        atomic_cnt_type                    head;
+        std::array<ready_type, BufferSize>      array;
+        std::array<atomic_cnt_type, BufferSize> turn;    // 2 * lap: slot is free, 2 * lap + 1: slot is filled
+        statistics_type                         stat;
+        atomic_cnt_type                         tail;
+        atomic_cnt_type                         head;
     };
     using pool_type     = std::array<queue_type, 8>;
     using thread_type   = std::vector<std::thread>;
@@ -58,11 +59,13 @@ public:
 #ifdef DEBUG
             Log::debug() << "Started thread " << pool_thread_n << "... \n";
 #endif
-            auto& [array_l, stat_l, tail_l, head_l] = pool_[pool_thread_n];
+            auto& [array_l, turn_l, stat_l, tail_l, head_l] = pool_[pool_thread_n];
 
             while (!closed_ || ((tail_l - head_l) > 0)) {
                 while (head_l < tail_l) {
-                    if (!(array_l[(head_l) % array_l.size()])) {
+                    auto&      turn = turn_l[head_l % turn_l.size()];
+                    auto const lap  = head_l / turn_l.size();
+                    if (turn != (2 * lap + 1)) {
                         std::this_thread::sleep_for(0ms);
 #ifdef DEBUG
                         Log::trace() << "[" << pool_thread_n << "] Data are not ready!\n";
@@ -73,8 +76,10 @@ public:
 #ifdef DEBUG
                     Log::trace() << "[" << pool_thread_n << "] Index to process: " << i << "\n";
 #endif
-                    auto& data = array_l[i % array_l.size()];
-                    auto  last_time{std::chrono::system_clock::now()};
+                    ready_type const data{std::move(array_l[i % array_l.size()])};
+                    array_l[i % array_l.size()].reset();
+                    turn = 2 * lap + 2;
+                    auto last_time{std::chrono::system_clock::now()};
                     func_(pipeline_stage_exception::no_error, data.value(),
                           measure_data{pool_thread_n, time_for_unit(stat_l), buffer_utilization(stat_l)});
                     auto elapsed = std::chrono::system_clock::now() - last_time;
@@ -112,8 +117,14 @@ public:
     push(Type const&& data)
     {
         auto const min_id{min_thread()};
-        auto const i                                        = pool_[min_id].tail++;
+        auto const i    = pool_[min_id].tail++;
+        auto&      turn = pool_[min_id].turn[i % pool_[min_id].turn.size()];
+        auto const lap  = i / pool_[min_id].turn.size();
+        while (turn != (2 * lap)) {
+            std::this_thread::yield();
+        }
         pool_[min_id].array[i % pool_[min_id].array.size()] = data;
+        turn                                                = 2 * lap + 1;
 #ifdef DEBUG
         Log::trace() << "Index[" << min_id << "]: " << pool_[min_id].tail << "\n";
 #endif
@@ -123,8 +134,14 @@ public:
     push(Type const& data)
     {
         auto const min_id{min_thread()};
-        auto const i                                        = pool_[min_id].tail++;
+        auto const i    = pool_[min_id].tail++;
+        auto&      turn = pool_[min_id].turn[i % pool_[min_id].turn.size()];
+        auto const lap  = i / pool_[min_id].turn.size();
+        while (turn != (2 * lap)) {
+            std::this_thread::yield();
+        }
         pool_[min_id].array[i % pool_[min_id].array.size()] = data;
+        turn                                                = 2 * lap + 1;
 #ifdef DEBUG
         Log::trace() << "Index[" << min_id << "]: " << pool_[min_id].tail << "\n";
 #endif
-- 
2.43.0


From c0d90e9abfa4792e1b3aa5902bced4cae314055f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:27 +0000
Subject: [PATCH 18/35] fix: pipeline_stage_pool always had eight queues,
 whatever its pool size

---
 include/xitren/comm/pipeline_stage_pool.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/xitren/comm/pipeline_stage_pool.hpp b/include/xitren/comm/pipeline_stage_pool.hpp
index 7d4f971..4a8f4be 100644
--- a/include/xitren/comm/pipeline_stage_pool.hpp
+++ b/include/xitren/comm/pipeline_stage_pool.hpp
@@ -47,7 +47,7 @@ class pipeline_stage_pool {
         atomic_cnt_type                         tail;
         atomic_cnt_type                         head;
     };
-    using pool_type     = std::array<queue_type, 8>;
+    using pool_type     = std::array<queue_type, PoolSize>;
     using thread_type   = std::vector<std::thread>;
     using function_type = std::function<const NextType(pipeline_stage_exception, const Type, const measure_data)>;
 
-- 
2.43.0


From 0cc106b05d53fa998a12b043ebe9ce4cbe26ad56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:51 +0000
Subject: [PATCH 19/35] fix: pipeline_stage_pool queued items behind a running
 one while other workers were free

---
 include/xitren/comm/pipeline_stage_pool.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/xitren/comm/pipeline_stage_pool.hpp b/include/xitren/comm/pipeline_stage_pool.hpp
index 4a8f4be..b3ed711 100644
--- a/include/xitren/comm/pipeline_stage_pool.hpp
+++ b/include/xitren/comm/pipeline_stage_pool.hpp
@@ -72,7 +72,7 @@ public:
 #endif
                         continue;
                     }
-                    auto const i = head_l++;
+                    auto const i = head_l.load();
 #ifdef DEBUG
                     Log::trace() << "[" << pool_thread_n << "] Index to process: " << i << "\n";
 #endif
@@ -83,6 +83,7 @@ public:
                     func_(pipeline_stage_exception::no_error, data.value(),
                           measure_data{pool_thread_n, time_for_unit(stat_l), buffer_utilization(stat_l)});
                     auto elapsed = std::chrono::system_clock::now() - last_time;
+                    head_l++;
                     stat_l.push_front(measure_data{
                         pool_thread_n,
                         static_cast<int>(std::chrono::duration_cast<std::chrono::milliseconds>(elapsed).count()),
-- 
2.43.0


From c65ea895d5e2e13b0836fbe95683ab1ddcf30fc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:51 +0000
Subject: [PATCH 20/35] fix: lru cache could not be used: constructor, put and
 get did not compile or evict

---
 include/xitren/cache/lru.hpp | 61 +++++++++++++++++++-----------------
 1 file changed, 32 insertions(+), 29 deletions(-)

diff --git a/include/xitren/cache/lru.hpp b/include/xitren/cache/lru.hpp
index 1c2c3bb..4077252 100644
--- a/include/xitren/cache/lru.hpp
+++ b/include/xitren/cache/lru.hpp
@@ -16,20 +16,30 @@ __ _(_) |_ _ _ ___ _ _
 #include <mutex>
 #include <optional>
 #include <string>
+#include <tuple>
 #include <unordered_map>
 
 namespace xitren::cache {
 
 template <class Key, class Value, std::size_t Size, bool Exception = true>
 class lru {
-    using timestamp          = std::chrono::time_point<std::chrono::system_clock>;
+    using clock              = std::chrono::system_clock;
+    using duration           = clock::duration;
+    using timestamp          = std::chrono::time_point<clock>;
     using data_item          = std::tuple<Key, Value, timestamp>;
     using double_linked_list = std::list<data_item>;
-    using hash_map           = std::unordered_map<Key, data_item>;
-    using return_type        = std::optional<data_item>;
+    using hash_map           = std::unordered_map<Key, typename double_linked_list::iterator>;
+    using return_type        = std::optional<Value>;
+
+    static_assert(Size > 0);
 
 public:
-    explicit lru(timestamp expired) noexcept : expired_after_{expired} {}
+    explicit lru(duration expired) : expired_after_{expired} {}
+
+    lru(lru const&) = delete;
+    lru&
+    operator=(lru const&)
+        = delete;
 
     void
     put(Key key, Value value)
@@ -37,26 +47,17 @@ public:
 #ifdef PTHREAD_MUTEX_DEFAULT
         std::unique_lock<std::mutex> lock(access_);
 #endif
-        if (map_.contains(key)) {
-            auto is_key = [key](data_item item) { return item.template get<0>() == key; };
-            auto it     = std::find_if(list_.begin(), list_.end(), is_key);
-            if (it != list_.end()) {
-                auto obj = *it;
-                list_.erase(it);
-                list_.push_front(obj);
-                map_[key] = obj;
-            } else {
-                if constexpr (Exception) {
-                    throw cache_missed();
-                }
-            }
+        auto it = map_.find(key);
+        if (it != map_.end()) {
+            list_.splice(list_.begin(), list_, it->second);
+            list_.front() = data_item{key, value, get_time()};
         } else {
             if (list_.size() >= Size) {
+                map_.erase(std::get<0>(list_.back()));
                 list_.pop_back();
             }
-            auto obj = data_item{key, value, get_time()};
-            list_.push_front(obj);
-            map_[key] = obj;
+            list_.push_front(data_item{key, value, get_time()});
+            map_[key] = list_.begin();
         }
     }
 
@@ -66,17 +67,19 @@ public:
 #ifdef PTHREAD_MUTEX_DEFAULT
         std::unique_lock<std::mutex> lock(access_);
 #endif
-        if (map_.contains(key)) {
-            auto [value, time] = map_[key];
-            if ((get_time() - time).count() >= expired_after_) {
-                if constexpr (Exception) {
-                    throw cache_timeout();
-                }
-                return std::nullopt;
+        auto it = map_.find(key);
+        if (it == map_.end()) {
+            return std::nullopt;
+        }
+        auto const& [item_key, value, time] = *(it->second);
+        if ((get_time() - time) >= expired_after_) {
+            if constexpr (Exception) {
+                throw cache_timeout();
             }
-        } else {
             return std::nullopt;
         }
+        list_.splice(list_.begin(), list_, it->second);
+        return value;
     }
 
     auto
@@ -86,7 +89,7 @@ public:
     }
 
 private:
-    const timestamp    expired_after_;
+    const duration     expired_after_;
     double_linked_list list_{};
     hash_map           map_{};
 #ifdef PTHREAD_MUTEX_DEFAULT
-- 
2.43.0


From 27e25ea9ea7cb226df3d4893b12732c384de1fe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:12 +0000
Subject: [PATCH 21/35] fix: static_heap_allocator returned misaligned memory
 for over-aligned types

---
 .../allocators/static_heap_allocator.hpp      | 25 +++++++++++++++----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/include/xitren/allocators/static_heap_allocator.hpp b/include/xitren/allocators/static_heap_allocator.hpp
index 1747c3c..3f9ea89 100644
--- a/include/xitren/allocators/static_heap_allocator.hpp
+++ b/include/xitren/allocators/static_heap_allocator.hpp
@@ -21,6 +21,10 @@ template <typename Type, size_t PoolSize>
 class static_heap_allocator {
     static_heap<PoolSize>& manager_;
 
+    /* The heap aligns its blocks to this many bytes. */
+    static constexpr size_t heap_alignment = 8;
+    static constexpr size_t alignment_gap  = alignof(Type) > heap_alignment ? alignof(Type) : 0;
+
     template <class U, size_t FriendPoolSize>
     friend class static_heap_allocator;
 
@@ -43,19 +47,30 @@ public:
     Type*
     allocate(size_t size)    // NOLINT
     {
-        if (size > static_cast<size_t>(-1) / sizeof(Type)) {
+        if (size > (static_cast<size_t>(-1) - alignment_gap) / sizeof(Type)) {
+            throw std::bad_alloc();
+        }
+        auto ptr = static_cast<std::uint8_t*>(manager_.allocate(size * sizeof(Type) + alignment_gap));
+        if (!ptr) {
             throw std::bad_alloc();
         }
-        auto ptr = static_cast<Type*>(manager_.allocate(size * sizeof(Type)));
-        if (ptr) {
-            return ptr;
+        if constexpr (alignment_gap != 0) {
+            /* Move up to the next suitable address and keep the distance in front of it. */
+            size_t const shift = alignof(Type) - reinterpret_cast<std::uintptr_t>(ptr) % alignof(Type);
+            ptr += shift;
+            reinterpret_cast<size_t*>(ptr)[-1] = shift;
         }
-        throw std::bad_alloc();
+        return reinterpret_cast<Type*>(ptr);
     }
 
     constexpr void
     deallocate(void* ptr, [[maybe_unused]] std::size_t size = 0) noexcept    // NOLINT
     {
+        if constexpr (alignment_gap != 0) {
+            if (ptr) {
+                ptr = static_cast<std::uint8_t*>(ptr) - static_cast<size_t*>(ptr)[-1];
+            }
+        }
         manager_.deallocate(ptr);
     }
 
-- 
2.43.0


From 6e12f5feb8410a6ba5d773a566707952f5a58b70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:08 +0000
Subject: [PATCH 22/35] fix: interval_event compared a time in clock ticks with
 a count of milliseconds

---
 include/xitren/func/interval_event.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/xitren/func/interval_event.hpp b/include/xitren/func/interval_event.hpp
index 3686f52..42f3b58 100644
--- a/include/xitren/func/interval_event.hpp
+++ b/include/xitren/func/interval_event.hpp
@@ -47,7 +47,7 @@ public:
               std::this_thread::sleep_for(10ms);
               auto last_time{std::chrono::system_clock::now()};
               while (keep_running_.test_and_set()) {
-                  if ((std::chrono::system_clock::now() - last_time).count() >= period_.count()) {
+                  if ((std::chrono::system_clock::now() - last_time) >= time_type::zero()) {
                       last_time += period_;
                       function_();
                   }
-- 
2.43.0


From 5046d6e33c51e3e7978074b4ec749b1e634c3f66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:51 +0000
Subject: [PATCH 23/35] fix: fast_pimpl computed noexcept from a different
 constructor than it calls

---
 include/xitren/func/fast_pimpl.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/xitren/func/fast_pimpl.hpp b/include/xitren/func/fast_pimpl.hpp
index 32acaf1..0a07976 100644
--- a/include/xitren/func/fast_pimpl.hpp
+++ b/include/xitren/func/fast_pimpl.hpp
@@ -51,7 +51,7 @@ public:
      */
     template <typename... Args>
         requires(!(sizeof...(Args) == 1 && (std::is_same_v<std::remove_cvref_t<Args>, fast_pimpl> && ...)))
-    explicit fast_pimpl(Args&&... args) noexcept(noexcept(type{std::declval<Args>()...}))
+    explicit fast_pimpl(Args&&... args) noexcept(noexcept(type(std::declval<Args>()...)))
     {
         new (get()) type(std::forward<Args>(args)...);
     }
@@ -61,14 +61,14 @@ public:
      *
      * @param rhs The fast_pimpl instance to be moved.
      */
-    fast_pimpl(fast_pimpl&& rhs) noexcept(noexcept(type{std::declval<type>()})) : fast_pimpl{std::move(*rhs)} {}
+    fast_pimpl(fast_pimpl&& rhs) noexcept(noexcept(type(std::declval<type>()))) : fast_pimpl{std::move(*rhs)} {}
 
     /**
      * @brief Copy-constructs a fast_pimpl instance that manages an object of type T.
      *
      * @param rhs The fast_pimpl instance to be copied.
      */
-    fast_pimpl(fast_pimpl const& rhs) noexcept(noexcept(type{std::declval<const_reference>()})) : fast_pimpl{*rhs} {}
+    fast_pimpl(fast_pimpl const& rhs) noexcept(noexcept(type(std::declval<const_reference>()))) : fast_pimpl{*rhs} {}
 
     /**
      * @brief Destroys the fast_pimpl instance and the object it manages.
-- 
2.43.0


From dccaabf2164f8a8c422aa4bc185250d15ee9db5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:56 +0000
Subject: [PATCH 24/35] fix: observable value += and -= truncated their operand
 to int

---
 include/xitren/comm/values/observable.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/xitren/comm/values/observable.hpp b/include/xitren/comm/values/observable.hpp
index 92ee7db..826ab0d 100644
--- a/include/xitren/comm/values/observable.hpp
+++ b/include/xitren/comm/values/observable.hpp
@@ -98,7 +98,7 @@ public:
     }
 
     observable_type
-    operator+=(int op) volatile noexcept
+    operator+=(observable_type op) volatile noexcept
     {
         auto const ret = std::atomic<observable_type>::fetch_add(op) + op;
         notify_observers(ret);
@@ -106,7 +106,7 @@ public:
     }
 
     observable_type
-    operator+=(int op) noexcept
+    operator+=(observable_type op) noexcept
     {
         auto const ret = std::atomic<observable_type>::fetch_add(op) + op;
         notify_observers(ret);
@@ -114,7 +114,7 @@ public:
     }
 
     observable_type
-    operator-=(int op) volatile noexcept
+    operator-=(observable_type op) volatile noexcept
     {
         auto const ret = std::atomic<observable_type>::fetch_sub(op) - op;
         notify_observers(ret);
@@ -122,7 +122,7 @@ public:
     }
 
     observable_type
-    operator-=(int op) noexcept
+    operator-=(observable_type op) noexcept
     {
         auto const ret = std::atomic<observable_type>::fetch_sub(op) - op;
         notify_observers(ret);
@@ -344,7 +344,7 @@ public:
     }
 
     observable_type
-    operator+=(int op) volatile noexcept
+    operator+=(observable_type op) volatile noexcept
     {
         auto const ret = std::atomic<observable_type>::fetch_add(op) + op;
         notify_observers(ret);
@@ -352,7 +352,7 @@ public:
     }
 
     observable_type
-    operator+=(int op) noexcept
+    operator+=(observable_type op) noexcept
     {
         auto const ret = std::atomic<observable_type>::fetch_add(op) + op;
         notify_observers(ret);
@@ -360,7 +360,7 @@ public:
     }
 
     observable_type
-    operator-=(int op) volatile noexcept
+    operator-=(observable_type op) volatile noexcept
     {
         auto const ret = std::atomic<observable_type>::fetch_sub(op) - op;
         notify_observers(ret);
@@ -368,7 +368,7 @@ public:
     }
 
     observable_type
-    operator-=(int op) noexcept
+    operator-=(observable_type op) noexcept
     {
         auto const ret = std::atomic<observable_type>::fetch_sub(op) - op;
         notify_observers(ret);
-- 
2.43.0


From 8259efca4f624933cde277f6bf82ac9b420993c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:33 +0000
Subject: [PATCH 25/35] fix: a store that fails in the middle leaves the cache
 as it was

The list entry was made before the map knew the key: when the map's own
allocation or key copy threw, the entry stayed behind and its eviction
later removed a newer entry of the same key.
---
 include/xitren/cache/lru.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/xitren/cache/lru.hpp b/include/xitren/cache/lru.hpp
index 4077252..a60673f 100644
--- a/include/xitren/cache/lru.hpp
+++ b/include/xitren/cache/lru.hpp
@@ -52,12 +52,14 @@ public:
             list_.splice(list_.begin(), list_, it->second);
             list_.front() = data_item{key, value, get_time()};
         } else {
+            double_linked_list item{};
+            item.push_front(data_item{key, value, get_time()});
+            map_[key] = item.begin();
             if (list_.size() >= Size) {
                 map_.erase(std::get<0>(list_.back()));
                 list_.pop_back();
             }
-            list_.push_front(data_item{key, value, get_time()});
-            map_[key] = list_.begin();
+            list_.splice(list_.begin(), item);
         }
     }
 
-- 
2.43.0


From 1c9b698bbd9d644748aa0b271cd451ba91cdb33e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:01 +0000
Subject: [PATCH 26/35] fix: a push whose copy throws no longer stalls the
 pipeline

The place in the buffer was taken before the item was copied into it: when
the copy threw, the worker waited for that place for ever.
---
 include/xitren/comm/pipeline_stage.hpp      | 6 ++++--
 include/xitren/comm/pipeline_stage_pool.hpp | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/xitren/comm/pipeline_stage.hpp b/include/xitren/comm/pipeline_stage.hpp
index 98595dc..5ea6984 100644
--- a/include/xitren/comm/pipeline_stage.hpp
+++ b/include/xitren/comm/pipeline_stage.hpp
@@ -57,13 +57,14 @@ public:
     void
     push(Type const&& data)
     {
+        ready_type item{data};
         auto const i    = queue_.tail++;
         auto&      turn = queue_.turn[i % queue_.turn.size()];
         auto const lap  = i / queue_.turn.size();
         while (turn != (2 * lap)) {
             std::this_thread::yield();
         }
-        queue_.array[i % queue_.array.size()] = data;
+        queue_.array[i % queue_.array.size()] = std::move(item);
         turn                                  = 2 * lap + 1;
 #ifdef DEBUG
         Log::trace() << "Index: " << queue_.tail << "\n";
@@ -73,13 +74,14 @@ public:
     void
     push(Type const& data)
     {
+        ready_type item{data};
         auto const i    = queue_.tail++;
         auto&      turn = queue_.turn[i % queue_.turn.size()];
         auto const lap  = i / queue_.turn.size();
         while (turn != (2 * lap)) {
             std::this_thread::yield();
         }
-        queue_.array[i % queue_.array.size()] = data;
+        queue_.array[i % queue_.array.size()] = std::move(item);
         turn                                  = 2 * lap + 1;
 #ifdef DEBUG
         Log::trace() << "Index: " << queue_.tail << "\n";
diff --git a/include/xitren/comm/pipeline_stage_pool.hpp b/include/xitren/comm/pipeline_stage_pool.hpp
index b3ed711..365d024 100644
--- a/include/xitren/comm/pipeline_stage_pool.hpp
+++ b/include/xitren/comm/pipeline_stage_pool.hpp
@@ -117,6 +117,7 @@ public:
     void
     push(Type const&& data)
     {
+        ready_type item{data};
         auto const min_id{min_thread()};
         auto const i    = pool_[min_id].tail++;
         auto&      turn = pool_[min_id].turn[i % pool_[min_id].turn.size()];
@@ -124,7 +125,7 @@ public:
         while (turn != (2 * lap)) {
             std::this_thread::yield();
         }
-        pool_[min_id].array[i % pool_[min_id].array.size()] = data;
+        pool_[min_id].array[i % pool_[min_id].array.size()] = std::move(item);
         turn                                                = 2 * lap + 1;
 #ifdef DEBUG
         Log::trace() << "Index[" << min_id << "]: " << pool_[min_id].tail << "\n";
@@ -134,6 +135,7 @@ public:
     void
     push(Type const& data)
     {
+        ready_type item{data};
         auto const min_id{min_thread()};
         auto const i    = pool_[min_id].tail++;
         auto&      turn = pool_[min_id].turn[i % pool_[min_id].turn.size()];
@@ -141,7 +143,7 @@ public:
         while (turn != (2 * lap)) {
             std::this_thread::yield();
         }
-        pool_[min_id].array[i % pool_[min_id].array.size()] = data;
+        pool_[min_id].array[i % pool_[min_id].array.size()] = std::move(item);
         turn                                                = 2 * lap + 1;
 #ifdef DEBUG
         Log::trace() << "Index[" << min_id << "]: " << pool_[min_id].tail << "\n";
-- 
2.43.0


From b311f767d02ba87c535eabd26085fd963a81f338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:26 +0000
Subject: [PATCH 27/35] fix: a pool that cannot get all its threads reports it
 instead of ending the program

The threads already running were never joined when making one more, or
room for it, failed.
---
 include/xitren/comm/pipeline_stage_pool.hpp | 31 +++++++++++++--------
 1 file changed, 20 insertions(+), 11 deletions(-)

diff --git a/include/xitren/comm/pipeline_stage_pool.hpp b/include/xitren/comm/pipeline_stage_pool.hpp
index 365d024..7ef25f5 100644
--- a/include/xitren/comm/pipeline_stage_pool.hpp
+++ b/include/xitren/comm/pipeline_stage_pool.hpp
@@ -99,21 +99,19 @@ public:
 #endif
         };
 
-        for (std::size_t i{}; i < pool_size_; i++) {
-            pool_threads_.push_back(std::thread(thread, i));
-        }
-    }
-
-    ~pipeline_stage_pool()
-    {
-        closed_ = true;
-        for (auto& worker : pool_threads_) {
-            if (worker.joinable()) {
-                worker.join();
+        pool_threads_.reserve(pool_size_);
+        try {
+            for (std::size_t i{}; i < pool_size_; i++) {
+                pool_threads_.push_back(std::thread(thread, i));
             }
+        } catch (...) {
+            close();
+            throw;
         }
     }
 
+    ~pipeline_stage_pool() { close(); }
+
     void
     push(Type const&& data)
     {
@@ -178,6 +176,17 @@ private:
     pool_type          pool_{};
     thread_type        pool_threads_{};
 
+    void
+    close()
+    {
+        closed_ = true;
+        for (auto& worker : pool_threads_) {
+            if (worker.joinable()) {
+                worker.join();
+            }
+        }
+    }
+
     int
     min_thread()
     {
-- 
2.43.0


From d572c66eea2c676c7ffbce33621d9140604e4940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:01 +0000
Subject: [PATCH 28/35] fix: volatile observable values compile

Every operator of values::observable has a volatile overload, and none of them could be instantiated: they call the
non-volatile notify_observers.
---
 include/xitren/comm/values/observable.hpp | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/include/xitren/comm/values/observable.hpp b/include/xitren/comm/values/observable.hpp
index 826ab0d..de0a0dc 100644
--- a/include/xitren/comm/values/observable.hpp
+++ b/include/xitren/comm/values/observable.hpp
@@ -238,6 +238,15 @@ public:
         return observer_errors::ok;
     }
 
+    /**
+     * @brief Notifies all observers registered with the observable object, for the volatile operators
+     */
+    observer_errors
+    notify_observers(observable_type const& n) volatile noexcept
+    {
+        return const_cast<observable*>(this)->notify_observers(n);
+    }
+
 private:
     /**
      * @brief The list of observers registered with the observable object
@@ -479,6 +488,15 @@ public:
         return observer_errors::ok;
     }
 
+    /**
+     * @brief Notifies all observers registered with the observable object, for the volatile operators
+     */
+    observer_errors
+    notify_observers(observable_type const& n) volatile noexcept
+    {
+        return const_cast<observable*>(this)->notify_observers(n);
+    }
+
 private:
     /**
      * @brief The list of observers registered with the observable object
-- 
2.43.0


From 30ea7890a3591d6aaa16d4479d8d98564330319e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:10:41 +0000
Subject: [PATCH 29/35] fix: packet: parts of natural alignment can be read
 from a const packet

The const accessors handed out a reference to a part inside the packed
structure, which for a part that needs alignment is a reference to a
temporary, and deserialize(array) did not compile for such parts.
---
 include/xitren/func/packet.hpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/xitren/func/packet.hpp b/include/xitren/func/packet.hpp
index b97f950..25b3e00 100644
--- a/include/xitren/func/packet.hpp
+++ b/include/xitren/func/packet.hpp
@@ -14,6 +14,7 @@ __ _(_) |_ _ _ ___ _ _
 #include <array>
 #include <cstdint>
 #include <tuple>
+#include <type_traits>
 
 namespace xitren::func {
 
@@ -40,6 +41,9 @@ union packet {
         Fields fields;
     };
     using array_type = std::array<std::uint8_t, sizeof(struct_type)>;
+    // a reference to a part must not ask for an alignment which the packet does not give
+    template <typename Part>
+    using part_type = std::conditional_t<alignof(Part) == 1, Part const&, Part>;
 
 public:
     explicit constexpr packet(std::array<uint8_t, length> const&& array) noexcept : pure_{std::move(array)} {}
@@ -63,13 +67,13 @@ public:
         return fields_.header;
     }
 
-    constexpr Header const&
+    constexpr part_type<Header>
     header() const noexcept
     {
         return fields_.header;
     }
 
-    constexpr Fields const&
+    constexpr part_type<Fields>
     fields() const noexcept
     {
         return fields_.fields;
@@ -87,7 +91,7 @@ public:
         return fields_.crc;
     }
 
-    constexpr typename Crc::value_type const&
+    constexpr part_type<typename Crc::value_type>
     crc() const noexcept
     {
         return fields_.crc;
@@ -120,7 +124,7 @@ public:
         static_assert(Size >= length);
         auto fields   = data<struct_type>::deserialize(array.begin());
         auto calc_crc = Crc::calculate(array.begin(), array.begin() + length - sizeof(typename Crc::value_type));
-        return {fields.crc == calc_crc, fields.header, fields.fields};
+        return {fields.crc == calc_crc, Header{fields.header}, Fields{fields.fields}};
     }
 
     template <typename InputIterator>
-- 
2.43.0


From f9cc1f135dec4b998d154d4eb8dd47e40885c959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:10:41 +0000
Subject: [PATCH 30/35] fix: packet: refuse parts which cannot be placed
 without padding

A part that is not a plain old data type keeps its alignment inside the
packed structure; the padding before it was sent and taken for content.
---
 include/xitren/func/packet.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/xitren/func/packet.hpp b/include/xitren/func/packet.hpp
index 25b3e00..f6e8a46 100644
--- a/include/xitren/func/packet.hpp
+++ b/include/xitren/func/packet.hpp
@@ -40,6 +40,8 @@ union packet {
         Header header;
         Fields fields;
     };
+    static_assert(sizeof(struct_type) == length && sizeof(struct_nocrc_type) == sizeof(Header) + sizeof(Fields),
+                  "Header, fields and checksum cannot be placed without padding");
     using array_type = std::array<std::uint8_t, sizeof(struct_type)>;
     // a reference to a part must not ask for an alignment which the packet does not give
     template <typename Part>
-- 
2.43.0


From 648131d652446adaccf85de10fcd901d6bd486d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:27:29 +0000
Subject: [PATCH 31/35] fix: fast_pimpl: hold types which bring their own
 operator new

The placement new looked up operator new in the held type first, which
does not compile, or is not a placement, where the type declares its own.
---
 include/xitren/func/fast_pimpl.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/xitren/func/fast_pimpl.hpp b/include/xitren/func/fast_pimpl.hpp
index 0a07976..80b083d 100644
--- a/include/xitren/func/fast_pimpl.hpp
+++ b/include/xitren/func/fast_pimpl.hpp
@@ -53,7 +53,7 @@ public:
         requires(!(sizeof...(Args) == 1 && (std::is_same_v<std::remove_cvref_t<Args>, fast_pimpl> && ...)))
     explicit fast_pimpl(Args&&... args) noexcept(noexcept(type(std::declval<Args>()...)))
     {
-        new (get()) type(std::forward<Args>(args)...);
+        ::new (static_cast<void*>(&storage_)) type(std::forward<Args>(args)...);
     }
 
     /**
-- 
2.43.0


From e8494750bd947d0c4f6d1ca011af1fa874d7afe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:30:58 +0000
Subject: [PATCH 32/35] fix: static_heap: not copyable

The free list of a copy pointed into the heap it was copied from, so both
handed out the same memory.
---
 include/xitren/allocators/static_heap.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/xitren/allocators/static_heap.hpp b/include/xitren/allocators/static_heap.hpp
index e8d9b49..221df05 100644
--- a/include/xitren/allocators/static_heap.hpp
+++ b/include/xitren/allocators/static_heap.hpp
@@ -381,6 +381,12 @@ public:
     }
     /*-----------------------------------------------------------*/
 
+    static_heap(static_heap const&) = delete;
+
+    static_heap&
+    operator=(static_heap const&)
+        = delete;
+
     static_heap()
     {
         block_link_t* px_first_free_block;
-- 
2.43.0


From c518deb25d006c3c72b8c3e4d0acff7c10746638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:30:58 +0000
Subject: [PATCH 33/35] fix: mediator: managers and modules are not copyable

A copied module was not registered anywhere, and a copied manager kept
calling modules which had been destroyed.
---
 include/xitren/comm/mediator.hpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/include/xitren/comm/mediator.hpp b/include/xitren/comm/mediator.hpp
index 415fedb..f28c527 100644
--- a/include/xitren/comm/mediator.hpp
+++ b/include/xitren/comm/mediator.hpp
@@ -23,6 +23,12 @@ class module {
 public:
     explicit module(std::string const& id, manager* m = nullptr) : id_(std::hash<std::string>{}(id)), mediator_(m) {}
 
+    module(module const&) = delete;
+
+    module&
+    operator=(module const&)
+        = delete;
+
     virtual ~module() = default;
 
     /**
@@ -65,6 +71,12 @@ public:
      */
     manager() = default;
 
+    manager(manager const&) = delete;
+
+    manager&
+    operator=(manager const&)
+        = delete;
+
     /**
      * @brief Destroy the manager object
      */
-- 
2.43.0


From ce2bca4443f5a6e8c30abfec55bb343049e4f2a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:30:58 +0000
Subject: [PATCH 34/35] fix: observable: not copyable

A copy delivered to observers which were never registered with it, and
kept delivering to them after they were removed and destroyed. The other
kinds of observables do not allow it either.
---
 include/xitren/comm/observer.hpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/include/xitren/comm/observer.hpp b/include/xitren/comm/observer.hpp
index f2632b4..8545879 100644
--- a/include/xitren/comm/observer.hpp
+++ b/include/xitren/comm/observer.hpp
@@ -77,6 +77,12 @@ public:
      */
     observable() noexcept = default;
 
+    observable(observable const&) = delete;
+
+    observable&
+    operator=(observable const&)
+        = delete;
+
     /**
      * @brief Destroys the observable object
      */
@@ -238,6 +244,12 @@ public:
      */
     observable() noexcept = default;
 
+    observable(observable const&) = delete;
+
+    observable&
+    operator=(observable const&)
+        = delete;
+
     /**
      * @brief Destructor
      */
-- 
2.43.0


From fa7b9d78eeea132ec09f3a046ef72b3cb40dba3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:05:49 +0000
Subject: [PATCH 35/35] fix: static_heap_allocator: converts implicitly between
 element types (vector<bool>)

---
 include/xitren/allocators/static_heap_allocator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/xitren/allocators/static_heap_allocator.hpp b/include/xitren/allocators/static_heap_allocator.hpp
index 3f9ea89..562a407 100644
--- a/include/xitren/allocators/static_heap_allocator.hpp
+++ b/include/xitren/allocators/static_heap_allocator.hpp
@@ -41,7 +41,7 @@ public:
     constexpr explicit static_heap_allocator(static_heap<PoolSize>& manager) : manager_{manager} {}
 
     template <class U>
-    explicit static_heap_allocator(static_heap_allocator<U, PoolSize> const& other) noexcept : manager_{other.manager_}
+    static_heap_allocator(static_heap_allocator<U, PoolSize> const& other) noexcept : manager_{other.manager_}
     {}
 
     Type*
-- 
2.43.0

