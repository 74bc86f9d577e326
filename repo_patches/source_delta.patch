From 037981522589c369cd668babcf17db7b2e5a6593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:45 +0000
Subject: [PATCH 01/15] fix: values::observable prefix decrement returns and
 publishes the decremented value

---
 include/xitren/comm/values/observable.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/xitren/comm/values/observable.hpp b/include/xitren/comm/values/observable.hpp
index 52dfcd6..ac02fe3 100644
--- a/include/xitren/comm/values/observable.hpp
+++ b/include/xitren/comm/values/observable.hpp
@@ -84,7 +84,7 @@ public:
     observable_type
     operator--() volatile noexcept
     {
-        auto const ret = std::atomic<observable_type>::fetch_sub(1) + 1;
+        auto const ret = std::atomic<observable_type>::fetch_sub(1) - 1;
         notify_observers(ret);
         return ret;
     }
@@ -92,7 +92,7 @@ public:
     observable_type
     operator--() noexcept
     {
-        auto const ret = std::atomic<observable_type>::fetch_sub(1) + 1;
+        auto const ret = std::atomic<observable_type>::fetch_sub(1) - 1;
         notify_observers(ret);
         return ret;
     }
@@ -330,7 +330,7 @@ public:
     observable_type
     operator--() volatile noexcept
     {
-        auto const ret = std::atomic<observable_type>::fetch_sub(1) + 1;
+        auto const ret = std::atomic<observable_type>::fetch_sub(1) - 1;
         notify_observers(ret);
         return ret;
     }
@@ -338,7 +338,7 @@ public:
     observable_type
     operator--() noexcept
     {
-        auto const ret = std::atomic<observable_type>::fetch_sub(1) + 1;
+        auto const ret = std::atomic<observable_type>::fetch_sub(1) - 1;
         notify_observers(ret);
         return ret;
     }
-- 
2.43.0


From d945db42f64e16c7673d1cfc3f35c93c4f6a77a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:45 +0000
Subject: [PATCH 02/15] fix: values::observable postfix operators publish the
 new value

---
 include/xitren/comm/values/observable.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/xitren/comm/values/observable.hpp b/include/xitren/comm/values/observable.hpp
index ac02fe3..cfa96ec 100644
--- a/include/xitren/comm/values/observable.hpp
+++ b/include/xitren/comm/values/observable.hpp
@@ -37,7 +37,7 @@ public:
     operator++(int) volatile noexcept
     {
         auto const ret = std::atomic<observable_type>::fetch_add(1);
-        notify_observers(ret);
+        notify_observers(ret + 1);
         return ret;
     }
 
@@ -45,7 +45,7 @@ public:
     operator++(int) noexcept
     {
         auto const ret = std::atomic<observable_type>::fetch_add(1);
-        notify_observers(ret);
+        notify_observers(ret + 1);
         return ret;
     }
 
@@ -53,7 +53,7 @@ public:
     operator--(int) volatile noexcept
     {
         auto const ret = std::atomic<observable_type>::fetch_sub(1);
-        notify_observers(ret);
+        notify_observers(ret - 1);
         return ret;
     }
 
@@ -61,7 +61,7 @@ public:
     operator--(int) noexcept
     {
         auto const ret = std::atomic<observable_type>::fetch_sub(1);
-        notify_observers(ret);
+        notify_observers(ret - 1);
         return ret;
     }
 
@@ -283,7 +283,7 @@ public:
     operator++(int) volatile noexcept
     {
         auto const ret = std::atomic<observable_type>::fetch_add(1);
-        notify_observers(ret);
+        notify_observers(ret + 1);
         return ret;
     }
 
@@ -291,7 +291,7 @@ public:
     operator++(int) noexcept
     {
         auto const ret = std::atomic<observable_type>::fetch_add(1);
-        notify_observers(ret);
+        notify_observers(ret + 1);
         return ret;
     }
 
@@ -299,7 +299,7 @@ public:
     operator--(int) volatile noexcept
     {
         auto const ret = std::atomic<observable_type>::fetch_sub(1);
-        notify_observers(ret);
+        notify_observers(ret - 1);
         return ret;
     }
 
@@ -307,7 +307,7 @@ public:
     operator--(int) noexcept
     {
         auto const ret = std::atomic<observable_type>::fetch_sub(1);
-        notify_observers(ret);
+        notify_observers(ret - 1);
         return ret;
     }
 
-- 
2.43.0


From 18d320290a7f23448f32830a942cde64a25b0e01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:45 +0000
Subject: [PATCH 03/15] fix: values::observable dynamic remove_observer erases
 the removed tail

---
 include/xitren/comm/values/observable.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/xitren/comm/values/observable.hpp b/include/xitren/comm/values/observable.hpp
index cfa96ec..92ee7db 100644
--- a/include/xitren/comm/values/observable.hpp
+++ b/include/xitren/comm/values/observable.hpp
@@ -443,6 +443,7 @@ public:
         }
         auto it = std::remove(observers_.begin(), observers_.end(), &observer);
         if (it != observers_.end()) {
+            observers_.erase(it, observers_.end());
             return observer_errors::ok;
         } else {
             return observer_errors::not_found;
-- 
2.43.0


From 7dca1eb081a0324887943628497916fabbd2f5b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:48 +0000
Subject: [PATCH 04/15] fix: is_lsb recognises big-endian targets, lsb_t and
 msb_t keep their byte order there

---
 include/xitren/func/data.hpp | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/include/xitren/func/data.hpp b/include/xitren/func/data.hpp
index eab868b..f1cfa8e 100644
--- a/include/xitren/func/data.hpp
+++ b/include/xitren/func/data.hpp
@@ -8,6 +8,7 @@ __ _(_) |_ _ _ ___ _ _
 #pragma once
 
 #include <array>
+#include <bit>
 #include <concepts>
 #include <cstdint>
 
@@ -16,9 +17,8 @@ namespace xitren::func {
 /// Returns true if the current CPU is little endian, false otherwise.
 ///
 /// This function uses a compile-time constant expression to determine if the current CPU is little endian. It does so
-/// by creating a 16-bit integer value with the least and most significant bytes swapped, and then checking if the least
-/// significant byte is equal to 0x22. If the check passes, the current CPU is little endian, and the function returns
-/// true. Otherwise, it is big endian, and the function returns false.
+/// by comparing the byte order of the target with little endian. If they match, the function returns true. Otherwise,
+/// it is big endian, and the function returns false.
 ///
 /// This function can be used to optimize code for different endianness architectures, by allowing the compiler to make
 /// decisions at compile time based on the endianness of the CPU. This can lead to improved performance and reduced code
@@ -28,10 +28,7 @@ namespace xitren::func {
 static constexpr bool
 is_lsb()
 {
-    std::uint16_t               test{0x3322};
-    std::array<std::uint8_t, 2> arr{};
-    std::copy(&test, (&test) + 1, arr.begin());
-    return arr[0] == 0x22;
+    return std::endian::native == std::endian::little;
 }
 
 template <class Type>
-- 
2.43.0


From 7ec37498543cc83cebfdf8f40c695cdd8b467f1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:40 +0000
Subject: [PATCH 05/15] fix: packet accessors and deserialize(array) refer to
 the header, fields and crc they hold

---
 include/xitren/func/packet.hpp | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/include/xitren/func/packet.hpp b/include/xitren/func/packet.hpp
index a30ae3f..083b38f 100644
--- a/include/xitren/func/packet.hpp
+++ b/include/xitren/func/packet.hpp
@@ -12,6 +12,7 @@ __ _(_) |_ _ _ ___ _ _
 
 #include <array>
 #include <cstdint>
+#include <tuple>
 
 namespace xitren::func {
 
@@ -61,13 +62,13 @@ public:
         return fields_.header;
     }
 
-    constexpr Header&
+    constexpr Header const&
     header() const noexcept
     {
         return fields_.header;
     }
 
-    constexpr Fields&
+    constexpr Fields const&
     fields() const noexcept
     {
         return fields_.fields;
@@ -79,13 +80,13 @@ public:
         return fields_.fields;
     }
 
-    Crc&
+    typename Crc::value_type&
     crc() noexcept
     {
         return fields_.crc;
     }
 
-    constexpr Crc&
+    constexpr typename Crc::value_type const&
     crc() const noexcept
     {
         return fields_.crc;
@@ -115,9 +116,9 @@ public:
     static constexpr std::tuple<bool, Header, Fields>
     deserialize(std::array<std::uint8_t, Size> const& array) noexcept
     {
-        auto [header, fields, crc] = data<struct_type>::serialize(array);
-        std::array<std::uint8_t, Size - sizeof(Crc::value_type)> checker;
-        auto                                                     calc_crc = Crc::calculate(checker);
+        static_assert(Size == length);
+        auto [header, fields, crc] = data<struct_type>::deserialize(array.begin());
+        auto calc_crc = Crc::calculate(array.begin(), array.end() - sizeof(typename Crc::value_type));
         return {crc == calc_crc, header, fields};
     }
 
-- 
2.43.0


From 02f1d235bc67ada7a45ed1c051bf1b3770b29496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:40 +0000
Subject: [PATCH 06/15] fix: packet_accessor rejects stored and requested sizes
 that do not fit its storage

---
 include/xitren/func/packet.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/xitren/func/packet.hpp b/include/xitren/func/packet.hpp
index 083b38f..b6f0848 100644
--- a/include/xitren/func/packet.hpp
+++ b/include/xitren/func/packet.hpp
@@ -199,6 +199,9 @@ public:
         constexpr size_type length = (sizeof(Header) + sizeof(Fields) + sizeof(typename Crc::value_type));
         static_assert(sizeof(Type) != 0);
         static_assert(Max >= length);
+        if ((size_ < length) || (size_ > Max)) {
+            return return_type{{}, {}, false, 0, nullptr};
+        }
         size_type const variable_part = (size_ - length) / sizeof(Type);
         if (((size_ - length) % sizeof(Type))) {
             return return_type{{}, {}, false, 0, nullptr};
@@ -220,7 +223,7 @@ public:
         constexpr size_type length = (sizeof(Header) + sizeof(Fields) + sizeof(typename Crc::value_type));
         static_assert(sizeof(Type) != 0);
         static_assert(Max >= length);
-        if ((input.size * sizeof(Type) + length) > Max) {
+        if (input.size > ((Max - length) / sizeof(Type))) {
             return false;
         }
         data<Header>::serialize(input.header, storage_.begin());
-- 
2.43.0


From 03e22edd46d8dfb80c9caefeba6667fa5d2aa7e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:09 +0000
Subject: [PATCH 07/15] fix: fast_pimpl copies from a non-const lvalue through
 its copy constructor

---
 include/xitren/func/fast_pimpl.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/xitren/func/fast_pimpl.hpp b/include/xitren/func/fast_pimpl.hpp
index f22f236..32acaf1 100644
--- a/include/xitren/func/fast_pimpl.hpp
+++ b/include/xitren/func/fast_pimpl.hpp
@@ -50,6 +50,7 @@ public:
      * @tparam Args The types of the arguments to be passed to the object's constructor.
      */
     template <typename... Args>
+        requires(!(sizeof...(Args) == 1 && (std::is_same_v<std::remove_cvref_t<Args>, fast_pimpl> && ...)))
     explicit fast_pimpl(Args&&... args) noexcept(noexcept(type{std::declval<Args>()...}))
     {
         new (get()) type(std::forward<Args>(args)...);
-- 
2.43.0


From 7f749de7c86519d5d8f7c5795090debc8e995c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:35 +0000
Subject: [PATCH 08/15] fix: mediator manager refuses more modules than it has
 room for

---
 include/xitren/comm/mediator.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/xitren/comm/mediator.hpp b/include/xitren/comm/mediator.hpp
index 4db881e..0153dc0 100644
--- a/include/xitren/comm/mediator.hpp
+++ b/include/xitren/comm/mediator.hpp
@@ -277,7 +277,8 @@ public:
     void
     add_module(base::module& c) override
     {
-        modules_[modules_cnt_++] = &c;
+        modules_.at(modules_cnt_) = &c;
+        ++modules_cnt_;
     }
 
     /**
-- 
2.43.0


From 52a71d930a4eaff4f0c9926ab01005285f97e636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:35 +0000
Subject: [PATCH 09/15] fix: mediator manager stays inside its table when a
 module leaves a full table

---
 include/xitren/comm/mediator.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/xitren/comm/mediator.hpp b/include/xitren/comm/mediator.hpp
index 0153dc0..415fedb 100644
--- a/include/xitren/comm/mediator.hpp
+++ b/include/xitren/comm/mediator.hpp
@@ -294,8 +294,7 @@ public:
                 for (; i < modules_cnt_ - 1; i++) {
                     modules_[i] = modules_[i + 1];
                 }
-                modules_[modules_cnt_] = 0;
-                --modules_cnt_;
+                modules_[--modules_cnt_] = nullptr;
                 return;
             }
         }
-- 
2.43.0


From 17d91ec0ada03e3760d742f7db0ec04165e9f570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:01 +0000
Subject: [PATCH 10/15] fix: static_heap_allocator refuses counts whose size in
 bytes does not fit

---
 include/xitren/allocators/static_heap_allocator.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/xitren/allocators/static_heap_allocator.hpp b/include/xitren/allocators/static_heap_allocator.hpp
index d7b92b4..9dcf537 100644
--- a/include/xitren/allocators/static_heap_allocator.hpp
+++ b/include/xitren/allocators/static_heap_allocator.hpp
@@ -13,6 +13,8 @@ __ _(_) |_ _ _ ___ _ _
 #include <array>
 #include <cstdint>
 #include <functional>
+#include <limits>
+#include <new>
 
 namespace xitren::allocators {
 
@@ -42,6 +44,9 @@ public:
     Type*
     allocate(size_t size)    // NOLINT
     {
+        if (size > std::numeric_limits<size_t>::max() / sizeof(Type)) {
+            throw std::bad_array_new_length();
+        }
         auto ptr = static_cast<Type*>(manager_.allocate(size * sizeof(Type)));
         if (ptr) {
             return ptr;
-- 
2.43.0


From e72d787a48692643f8f62e16fdc7053f443603da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:09 +0000
Subject: [PATCH 11/15] fix: static_heap_allocator compares equal when it
 shares the heap

---
 include/xitren/allocators/static_heap_allocator.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/xitren/allocators/static_heap_allocator.hpp b/include/xitren/allocators/static_heap_allocator.hpp
index 9dcf537..9169dbb 100644
--- a/include/xitren/allocators/static_heap_allocator.hpp
+++ b/include/xitren/allocators/static_heap_allocator.hpp
@@ -62,14 +62,14 @@ public:
 
     template <typename U>
     constexpr bool
-    operator==(static_heap_allocator<U, PoolSize> const& other) noexcept
+    operator==(static_heap_allocator<U, PoolSize> const& other) const noexcept
     {
-        return this == &other;
+        return &manager_ == &other.manager_;
     }
 
     template <typename U>
     constexpr bool
-    operator!=(static_heap_allocator<U, PoolSize> const& other) noexcept
+    operator!=(static_heap_allocator<U, PoolSize> const& other) const noexcept
     {
         return !this->operator==(other);
     }
-- 
2.43.0


From 5dfc2a2f77fdf4a7e961ff2a97ec169b53542d0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:24 +0000
Subject: [PATCH 12/15] fix: pipeline_stage_pool has as many queues as workers

---
 include/xitren/comm/pipeline_stage_pool.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/xitren/comm/pipeline_stage_pool.hpp b/include/xitren/comm/pipeline_stage_pool.hpp
index f0c5544..55c9477 100644
--- a/include/xitren/comm/pipeline_stage_pool.hpp
+++ b/include/xitren/comm/pipeline_stage_pool.hpp
@@ -46,7 +46,7 @@ class pipeline_stage_pool {
         atomic_cnt_type                    tail;
         atomic_cnt_type                    head;
     };
-    using pool_type     = std::array<queue_type, 8>;
+    using pool_type     = std::array<queue_type, PoolSize>;
     using thread_type   = std::vector<std::thread>;
     using function_type = std::function<const NextType(pipeline_stage_exception, const Type, const measure_data)>;
 
-- 
2.43.0


From fb3bdb32f1d02da91d989f215593425ee44190ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:24 +0000
Subject: [PATCH 13/15] fix: pipeline workers take an item out of its slot
 before they free its place

---
 include/xitren/comm/pipeline_stage.hpp      | 5 +++--
 include/xitren/comm/pipeline_stage_pool.hpp | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/xitren/comm/pipeline_stage.hpp b/include/xitren/comm/pipeline_stage.hpp
index 0299016..63582bd 100644
--- a/include/xitren/comm/pipeline_stage.hpp
+++ b/include/xitren/comm/pipeline_stage.hpp
@@ -114,11 +114,12 @@ private:
 #endif
                     continue;
                 }
-                auto const i = tail_++;
+                // The slot is empty again before its place in the queue is given back
+                auto const data = std::exchange(queue_.array[(tail_) % queue_.array.size()], std::nullopt);
+                auto const i    = tail_++;
 #ifdef DEBUG
                 Log::trace() << "Index to process: " << i << "\n";
 #endif
-                auto& data = queue_.array[i % queue_.array.size()];
                 auto  last_time{std::chrono::system_clock::now()};
                 func_(pipeline_stage_exception::no_error, data.value(),
                       measure_type{time_for_unit(), buffer_utilization()});
diff --git a/include/xitren/comm/pipeline_stage_pool.hpp b/include/xitren/comm/pipeline_stage_pool.hpp
index 55c9477..ab86c88 100644
--- a/include/xitren/comm/pipeline_stage_pool.hpp
+++ b/include/xitren/comm/pipeline_stage_pool.hpp
@@ -69,11 +69,12 @@ public:
 #endif
                         continue;
                     }
-                    auto const i = head_l++;
+                    // The slot is empty again before its place in the queue is given back
+                    auto const data = std::exchange(array_l[(head_l) % array_l.size()], std::nullopt);
+                    auto const i    = head_l++;
 #ifdef DEBUG
                     Log::trace() << "[" << pool_thread_n << "] Index to process: " << i << "\n";
 #endif
-                    auto& data = array_l[i % array_l.size()];
                     auto  last_time{std::chrono::system_clock::now()};
                     func_(pipeline_stage_exception::no_error, data.value(),
                           measure_data{pool_thread_n, time_for_unit(stat_l), buffer_utilization(stat_l)});
-- 
2.43.0


From c0542e5e525da37a82e0b07f57eefe1cfcfcc976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:30 +0000
Subject: [PATCH 14/15] fix: interval_event starts its thread after all members
 it uses are in place

---
 include/xitren/func/interval_event.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/xitren/func/interval_event.hpp b/include/xitren/func/interval_event.hpp
index 89edbcc..2afb325 100644
--- a/include/xitren/func/interval_event.hpp
+++ b/include/xitren/func/interval_event.hpp
@@ -41,6 +41,8 @@ public:
     interval_event(std::function<void(void)> function, time_type repeat_every = 100ms,
                    time_type wait_between_checks = 20ms)
         : function_{std::move(function)},
+          period_{repeat_every},
+          period_between_checks_{wait_between_checks},
           thread_{[&] {
               std::this_thread::sleep_for(10ms);
               auto last_time{std::chrono::system_clock::now()};
@@ -52,9 +54,7 @@ public:
                   std::this_thread::sleep_for(period_between_checks_);
               }
               keep_running_.notify_one();
-          }},
-          period_{repeat_every},
-          period_between_checks_{wait_between_checks}
+          }}
     {
         thread_.detach();
     }
@@ -129,10 +129,11 @@ public:
 private:
     std::function<void(void)> function_;
     std::atomic_flag          keep_running_{true};
-    std::thread               thread_;
     time_type                 period_{};
     time_type                 period_between_checks_{};
     bool                      stop_{false};
+    // The thread is started last, it uses all the other members
+    std::thread thread_;
 };
 
 }    // namespace xitren::func
-- 
2.43.0


From 6ed439631396c9b391adf625752773d81092c6ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:05:11 +0000
Subject: [PATCH 15/15] fix: argv_parser: a string option takes its whole
 argument, also with spaces or empty

---
 include/xitren/func/argv_parser.hpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/include/xitren/func/argv_parser.hpp b/include/xitren/func/argv_parser.hpp
index 48e5154..81e2243 100644
--- a/include/xitren/func/argv_parser.hpp
+++ b/include/xitren/func/argv_parser.hpp
@@ -6,6 +6,7 @@
 #include <sstream>
 #include <string>
 #include <string_view>
+#include <type_traits>
 #include <variant>
 #include <vector>
 
@@ -73,9 +74,13 @@ private:
                 visit(
                     [this, idx, &argv](auto&& arg) {
                         if (idx < static_cast<int>(argv.size() - 1)) {
-                            std::stringstream value;
-                            value << argv[idx + 1];
-                            value >> this->*arg;
+                            if constexpr (std::is_same_v<std::remove_reference_t<decltype(this->*arg)>, std::string>) {
+                                this->*arg = argv[idx + 1];
+                            } else {
+                                std::stringstream value;
+                                value << argv[idx + 1];
+                                value >> this->*arg;
+                            }
                         }
                     },
                     prop);
-- 
2.43.0

