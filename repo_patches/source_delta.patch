From 8c2fe67b0fb268decc3de5c44ad02d059a294076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:44 +0000
Subject: [PATCH 1/8] fix: annotate inline assembly operations with
 memory_order_consume as acquiring for TSan

TSan treats memory_order_consume of compiler-generated atomics as acquire. The
asm annotations ignored it, so that correct programs were reported as racy.
---
 include/boost/atomic/detail/config.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/atomic/detail/config.hpp b/include/boost/atomic/detail/config.hpp
index 840d678..6531076 100644
--- a/include/boost/atomic/detail/config.hpp
+++ b/include/boost/atomic/detail/config.hpp
@@ -36,7 +36,7 @@ void __tsan_acquire(void*);
 void __tsan_release(void*);
 } // extern "C"
 #define BOOST_ATOMIC_DETAIL_TSAN_ACQUIRE(ptr, mo) \
-    { if ((static_cast< unsigned int >(mo) & static_cast< unsigned int >(memory_order_acquire)) != 0u) __tsan_acquire((void*)(ptr)); }
+    { if ((static_cast< unsigned int >(mo) & (static_cast< unsigned int >(memory_order_consume) | static_cast< unsigned int >(memory_order_acquire))) != 0u) __tsan_acquire((void*)(ptr)); }
 #define BOOST_ATOMIC_DETAIL_TSAN_RELEASE(ptr, mo) \
     { if ((static_cast< unsigned int >(mo) & static_cast< unsigned int >(memory_order_release)) != 0u) __tsan_release((void*)(ptr)); }
 #else // defined(BOOST_ATOMIC_DETAIL_TSAN)
-- 
2.43.0


From acd3c4f3f32e651092498738675e24f7c3f920bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:03 +0000
Subject: [PATCH 2/8] fix: reload the value after locking the wait state in
 timed waits

In the lock pool based wait_until and wait_for of lock-free atomics, a change
followed by a notification that completed after the first load and before the
wait state was locked was missed, and the wait blocked until its deadline.
---
 include/boost/atomic/detail/wait_ops_generic.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/boost/atomic/detail/wait_ops_generic.hpp b/include/boost/atomic/detail/wait_ops_generic.hpp
index 7503d5c..916373c 100644
--- a/include/boost/atomic/detail/wait_ops_generic.hpp
+++ b/include/boost/atomic/detail/wait_ops_generic.hpp
@@ -93,6 +93,7 @@ private:
         if (new_val == old_val)
         {
             scoped_wait_state wait_state(&storage);
+            new_val = base_type::load(storage, order);
             while (new_val == old_val)
             {
                 const std::chrono::nanoseconds nsec = atomics::detail::chrono::ceil< std::chrono::nanoseconds >(timeout - now);
@@ -128,6 +129,7 @@ private:
         if (new_val == old_val)
         {
             scoped_wait_state wait_state(&storage);
+            new_val = base_type::load(storage, order);
             const timespec abs_timeout(posix_clock_traits< Clock >::to_timespec(timeout));
             if (BOOST_LIKELY(abs_timeout.tv_sec >= 0))
             {
-- 
2.43.0


From 2740a2725ddc8f57703de7883d853bf76cc3f989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:03 +0000
Subject: [PATCH 3/8] fix: release the wait state list when a wait state
 allocation fails after the pool cleanup

The buffer allocated for the list was left allocated on process termination.
---
 src/lock_pool.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/lock_pool.cpp b/src/lock_pool.cpp
index fe477e3..e989780 100644
--- a/src/lock_pool.cpp
+++ b/src/lock_pool.cpp
@@ -1013,7 +1013,12 @@ inline wait_state* wait_state_list::find_or_create(const volatile void* addr) no
     {
         w = new (std::nothrow) wait_state(index);
         if (BOOST_UNLIKELY(w == nullptr))
+        {
+            // No erase() call will follow, so release the buffer here if it is not used by other waiters
+            if (BOOST_UNLIKELY(m_free_memory))
+                free_spare();
             return nullptr;
+        }
         *pw = w;
     }
 
-- 
2.43.0


From 75d7fe505973618ca438519dd049b5276b4ee0d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:55:20 +0000
Subject: [PATCH 4/8] fix: detect timeouts far in the past in timed waits
 without overflow

The difference between the timeout and the current time overflowed if the timeout
was far in the past, e.g. time_point::min(), and the wait blocked practically
indefinitely instead of timing out.
---
 include/boost/atomic/detail/wait_ops_emulated.hpp |  6 +++---
 include/boost/atomic/detail/wait_ops_futex.hpp    |  5 +++--
 include/boost/atomic/detail/wait_ops_generic.hpp  | 10 +++++-----
 3 files changed, 11 insertions(+), 10 deletions(-)

diff --git a/include/boost/atomic/detail/wait_ops_emulated.hpp b/include/boost/atomic/detail/wait_ops_emulated.hpp
index 6f12f3a..c6f18ec 100644
--- a/include/boost/atomic/detail/wait_ops_emulated.hpp
+++ b/include/boost/atomic/detail/wait_ops_emulated.hpp
@@ -85,14 +85,14 @@ private:
         storage_type new_val = s;
         while (new_val == old_val)
         {
-            const std::chrono::nanoseconds nsec = atomics::detail::chrono::ceil< std::chrono::nanoseconds >(timeout - now);
-            if (nsec.count() <= 0)
+            // Note: The difference of the time points may not be representable if the timeout is far in the past
+            if (timeout <= now)
             {
                 timed_out = true;
                 break;
             }
 
-            wait_state.wait_for(nsec);
+            wait_state.wait_for(atomics::detail::chrono::ceil< std::chrono::nanoseconds >(timeout - now));
 
             now = Clock::now();
             new_val = s;
diff --git a/include/boost/atomic/detail/wait_ops_futex.hpp b/include/boost/atomic/detail/wait_ops_futex.hpp
index 5db7e88..74e3ffb 100644
--- a/include/boost/atomic/detail/wait_ops_futex.hpp
+++ b/include/boost/atomic/detail/wait_ops_futex.hpp
@@ -140,13 +140,14 @@ private:
         storage_type new_val = base_type::load(storage, order);
         while (new_val == old_val)
         {
-            const std::int64_t nsec = atomics::detail::chrono::ceil< std::chrono::nanoseconds >(timeout - now).count();
-            if (nsec <= 0)
+            // Note: The difference of the time points may not be representable if the timeout is far in the past
+            if (timeout <= now)
             {
                 timed_out = true;
                 break;
             }
 
+            const std::int64_t nsec = atomics::detail::chrono::ceil< std::chrono::nanoseconds >(timeout - now).count();
             const std::int64_t sec = nsec / 1000000000;
             if (BOOST_LIKELY(sec <= (std::numeric_limits< decltype(ts.tv_sec) >::max)()))
             {
diff --git a/include/boost/atomic/detail/wait_ops_generic.hpp b/include/boost/atomic/detail/wait_ops_generic.hpp
index 916373c..bbb78c9 100644
--- a/include/boost/atomic/detail/wait_ops_generic.hpp
+++ b/include/boost/atomic/detail/wait_ops_generic.hpp
@@ -96,14 +96,14 @@ private:
             new_val = base_type::load(storage, order);
             while (new_val == old_val)
             {
-                const std::chrono::nanoseconds nsec = atomics::detail::chrono::ceil< std::chrono::nanoseconds >(timeout - now);
-                if (nsec.count() <= 0)
+                // Note: The difference of the time points may not be representable if the timeout is far in the past
+                if (timeout <= now)
                 {
                     timed_out = true;
                     break;
                 }
 
-                wait_state.wait_for(nsec);
+                wait_state.wait_for(atomics::detail::chrono::ceil< std::chrono::nanoseconds >(timeout - now));
 
                 now = Clock::now();
                 new_val = base_type::load(storage, order);
@@ -300,7 +300,7 @@ private:
         {
             for (unsigned int i = 0u; i < fast_loop_count; ++i)
             {
-                if ((now - timeout).count() >= 0)
+                if (timeout <= now)
                 {
                     timed_out = true;
                     goto finish;
@@ -316,7 +316,7 @@ private:
 
             do
             {
-                if ((now - timeout).count() >= 0)
+                if (timeout <= now)
                 {
                     timed_out = true;
                     goto finish;
-- 
2.43.0


From ae3978febeb613b6fb57cc72b6b3f50c6c0c4e5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:55:39 +0000
Subject: [PATCH 5/8] fix: avoid overflow in wait_for with very large timeouts

Adding a timeout like nanoseconds::max() to the current time overflowed. The wait either
did not block at all and consumed CPU time in a loop or reported a timeout immediately.
---
 include/boost/atomic/detail/chrono.hpp            | 8 ++++++++
 include/boost/atomic/detail/wait_ops_emulated.hpp | 2 +-
 include/boost/atomic/detail/wait_ops_futex.hpp    | 7 ++++---
 include/boost/atomic/detail/wait_ops_generic.hpp  | 4 ++--
 4 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/include/boost/atomic/detail/chrono.hpp b/include/boost/atomic/detail/chrono.hpp
index 154722f..000df9c 100644
--- a/include/boost/atomic/detail/chrono.hpp
+++ b/include/boost/atomic/detail/chrono.hpp
@@ -52,6 +52,14 @@ inline constexpr To ceil(std::chrono::duration< Rep, Period > from) noexcept
 
 #endif // defined(__cpp_lib_chrono) && (__cpp_lib_chrono >= 201510l)
 
+//! Adds the timeout to the current time, saturating to the maximum time point to avoid overflow
+template< typename Clock, typename Duration, typename Rep, typename Period >
+inline auto add_timeout(std::chrono::time_point< Clock, Duration > now, std::chrono::duration< Rep, Period > timeout) noexcept -> decltype(now + timeout)
+{
+    using time_point = decltype(now + timeout);
+    return timeout <= (time_point::max)() - now ? now + timeout : (time_point::max)();
+}
+
 } // namespace chrono
 } // namespace detail
 
diff --git a/include/boost/atomic/detail/wait_ops_emulated.hpp b/include/boost/atomic/detail/wait_ops_emulated.hpp
index c6f18ec..c9076ab 100644
--- a/include/boost/atomic/detail/wait_ops_emulated.hpp
+++ b/include/boost/atomic/detail/wait_ops_emulated.hpp
@@ -208,7 +208,7 @@ public:
     {
         static_assert(!base_type::is_interprocess, "Boost.Atomic: operation invoked on a non-lock-free inter-process atomic object");
         const std::chrono::steady_clock::time_point now = std::chrono::steady_clock::now();
-        return wait_until_fallback< std::chrono::steady_clock >(storage, old_val, now + timeout, now, timed_out);
+        return wait_until_fallback< std::chrono::steady_clock >(storage, old_val, atomics::detail::chrono::add_timeout(now, timeout), now, timed_out);
     }
 
     static void notify_one(storage_type volatile& storage) noexcept
diff --git a/include/boost/atomic/detail/wait_ops_futex.hpp b/include/boost/atomic/detail/wait_ops_futex.hpp
index 74e3ffb..45ec30e 100644
--- a/include/boost/atomic/detail/wait_ops_futex.hpp
+++ b/include/boost/atomic/detail/wait_ops_futex.hpp
@@ -295,8 +295,9 @@ public:
             timespec now{};
             if (BOOST_LIKELY(clock_gettime(CLOCK_MONOTONIC, &now) == 0))
             {
-                const std::int64_t nsec = static_cast< std::int64_t >(now.tv_nsec) + atomics::detail::chrono::ceil< std::chrono::nanoseconds >(timeout).count();
-                const std::int64_t sec = static_cast< std::int64_t >(now.tv_sec) + nsec / 1000000000;
+                const std::int64_t timeout_nsec = atomics::detail::chrono::ceil< std::chrono::nanoseconds >(timeout).count();
+                const std::int64_t nsec = static_cast< std::int64_t >(now.tv_nsec) + timeout_nsec % 1000000000;
+                const std::int64_t sec = static_cast< std::int64_t >(now.tv_sec) + timeout_nsec / 1000000000 + nsec / 1000000000;
                 if (BOOST_LIKELY(sec <= (std::numeric_limits< decltype(futex_timespec::tv_sec) >::max)()))
                 {
                     futex_timespec ts{};
@@ -332,7 +333,7 @@ public:
 #endif // defined(BOOST_ATOMIC_DETAIL_FUTEX_WAIT_BITSET) && defined(_POSIX_MONOTONIC_CLOCK) && (_POSIX_MONOTONIC_CLOCK >= 0)
 
         const std::chrono::steady_clock::time_point now = std::chrono::steady_clock::now();
-        return wait_until_fallback< std::chrono::steady_clock >(storage, old_val, now + timeout, now, order, timed_out);
+        return wait_until_fallback< std::chrono::steady_clock >(storage, old_val, atomics::detail::chrono::add_timeout(now, timeout), now, order, timed_out);
     }
 
     static BOOST_FORCEINLINE void notify_one(storage_type volatile& storage) noexcept
diff --git a/include/boost/atomic/detail/wait_ops_generic.hpp b/include/boost/atomic/detail/wait_ops_generic.hpp
index bbb78c9..439f78a 100644
--- a/include/boost/atomic/detail/wait_ops_generic.hpp
+++ b/include/boost/atomic/detail/wait_ops_generic.hpp
@@ -224,7 +224,7 @@ public:
     ) noexcept
     {
         const std::chrono::steady_clock::time_point now = std::chrono::steady_clock::now();
-        return wait_until_fallback< std::chrono::steady_clock >(storage, old_val, now + timeout, now, order, timed_out);
+        return wait_until_fallback< std::chrono::steady_clock >(storage, old_val, atomics::detail::chrono::add_timeout(now, timeout), now, order, timed_out);
     }
 
     static BOOST_FORCEINLINE void notify_one(storage_type volatile& storage) noexcept
@@ -358,7 +358,7 @@ public:
     ) noexcept
     {
         const std::chrono::steady_clock::time_point now = std::chrono::steady_clock::now();
-        return wait_until_impl< std::chrono::steady_clock >(storage, old_val, now + timeout, now, order, timed_out);
+        return wait_until_impl< std::chrono::steady_clock >(storage, old_val, atomics::detail::chrono::add_timeout(now, timeout), now, order, timed_out);
     }
 
     static BOOST_FORCEINLINE void notify_one(storage_type volatile&) noexcept
-- 
2.43.0


From 3044f2fda5e24af650fcdafcf7917725e650fc07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:38 +0000
Subject: [PATCH 6/8] fix: make a consume thread fence of the x86 backend a
 compiler barrier

---
 include/boost/atomic/detail/fence_arch_ops_gcc_x86.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/atomic/detail/fence_arch_ops_gcc_x86.hpp b/include/boost/atomic/detail/fence_arch_ops_gcc_x86.hpp
index 5a39367..4c6a595 100644
--- a/include/boost/atomic/detail/fence_arch_ops_gcc_x86.hpp
+++ b/include/boost/atomic/detail/fence_arch_ops_gcc_x86.hpp
@@ -45,7 +45,7 @@ struct fence_arch_operations_gcc_x86
             unsigned char dummy = 0u;
             __asm__ __volatile__ ("lock; notb %0" : "+m" (dummy) : : "memory");
         }
-        else if ((static_cast< unsigned int >(order) & (static_cast< unsigned int >(memory_order_acquire) | static_cast< unsigned int >(memory_order_release))) != 0u)
+        else if (order != memory_order_relaxed)
         {
             __asm__ __volatile__ ("" ::: "memory");
         }
-- 
2.43.0


From 11335a5605635e11b2fe9cbc3cbf59dc4aad3664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:45 +0000
Subject: [PATCH 7/8] fix: make timed waits of lock-based atomics time out
 where FUTEX_WAIT_BITSET is not implemented

On ENOSYS the wait state was left without waiting and without checking the time, so the wait never timed out and kept
calling the kernel. Fall back to relative waits, as the native wait operations do.
---
 src/lock_pool.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lock_pool.cpp b/src/lock_pool.cpp
index e989780..ede33fc 100644
--- a/src/lock_pool.cpp
+++ b/src/lock_pool.cpp
@@ -704,6 +704,9 @@ inline bool wait_state::wait_until(lock_state& state, clockid_t clock_id, timesp
             if (err < 0)
             {
                 err = errno;
+                if (BOOST_UNLIKELY(err == ENOSYS))
+                    goto use_wait_for;
+
                 if (BOOST_LIKELY(err != EINTR))
                 {
                     timed_out = err == ETIMEDOUT;
@@ -716,6 +719,7 @@ inline bool wait_state::wait_until(lock_state& state, clockid_t clock_id, timesp
         goto finish;
     }
 
+use_wait_for:
 #endif // defined(BOOST_ATOMIC_DETAIL_FUTEX_WAIT_BITSET) && ...
 
     {
-- 
2.43.0


From 2d3a440362e66bd39af98e4d56cc806a6b3b41ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:40:25 +0000
Subject: [PATCH 8/8] fix: clear padding of values that the compiler keeps in
 registers

bitwise_cast copied the value to a local object and cleared the padding of
that object. With gcc with optimizations enabled, objects of _Complex long
double (and std::complex<long double>, and structs that contain one) are
kept in registers, and the padding bytes that are copied to the storage
afterwards contain stack garbage. As a result, compare_exchange_* with the
value that the atomic holds fails. Clear the padding in a raw byte buffer.
---
 include/boost/atomic/detail/bitwise_cast.hpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/include/boost/atomic/detail/bitwise_cast.hpp b/include/boost/atomic/detail/bitwise_cast.hpp
index 969a048..bad6929 100644
--- a/include/boost/atomic/detail/bitwise_cast.hpp
+++ b/include/boost/atomic/detail/bitwise_cast.hpp
@@ -98,12 +98,22 @@ BOOST_FORCEINLINE To bitwise_cast_memcpy(From const& from) noexcept
     storage;
 
 #if !defined(BOOST_ATOMIC_NO_CLEAR_PADDING)
-    From from2(from);
-    BOOST_ATOMIC_DETAIL_CLEAR_PADDING(atomics::detail::addressof(from2));
+    // Clear padding in raw bytes rather than in an object of type From. The compiler may keep objects of some types, such as _Complex long double,
+    // in registers, which do not represent padding, and then the bytes that are copied from the object after clearing padding are indeterminate.
+    union copy_helper
+    {
+        unsigned char as_bytes[sizeof(From)];
+        From as_from;
+
+        BOOST_FORCEINLINE copy_helper() noexcept {}
+    }
+    from2;
+    BOOST_ATOMIC_DETAIL_MEMCPY(from2.as_bytes, atomics::detail::addressof(from), sizeof(From));
+    BOOST_ATOMIC_DETAIL_CLEAR_PADDING(atomics::detail::addressof(from2.as_from));
     BOOST_ATOMIC_DETAIL_MEMCPY
     (
         atomics::detail::addressof(storage.as_to),
-        atomics::detail::addressof(from2),
+        from2.as_bytes,
         (FromValueSize < sizeof(unqualified_to_t) ? FromValueSize : sizeof(unqualified_to_t))
     );
 #else
-- 
2.43.0

