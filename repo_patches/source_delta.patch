From 94a57d375fa6f9cefbaa90dd628d7aafef87729d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:54 +0000
Subject: [PATCH 01/24] fix: do not lose a notification handed to a timed
 waiter that resumes after its deadline

A fiber waiting with a timeout that had been notified, but was resumed only
after its deadline, reported a timeout although it had been removed from the
wait-queue by notify_one(): the notification (e.g. the release of a
timed_mutex, an element of a channel) was swallowed and other waiters slept
forever. Report a timeout only if the waiter is still linked, and let the timed
mutexes try to obtain ownership before they look at the clock (a deadline that
has already passed behaves as try_lock()).
---
 src/recursive_timed_mutex.cpp | 6 +++---
 src/timed_mutex.cpp           | 6 +++---
 src/waker.cpp                 | 8 ++++++--
 3 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/recursive_timed_mutex.cpp b/src/recursive_timed_mutex.cpp
index 5958c72..3d01236 100644
--- a/src/recursive_timed_mutex.cpp
+++ b/src/recursive_timed_mutex.cpp
@@ -22,9 +22,6 @@ namespace fibers {
 bool
 recursive_timed_mutex::try_lock_until_( std::chrono::steady_clock::time_point const& timeout_time) noexcept {
     while ( true) {
-        if ( std::chrono::steady_clock::now() > timeout_time) {
-            return false;
-        }
         context * active_ctx = context::active();
         // store this fiber in order to be notified later
         detail::spinlock_lock lk{ wait_queue_splk_ };
@@ -37,6 +34,9 @@ recursive_timed_mutex::try_lock_until_( std::chrono::steady_clock::time_point co
             count_ = 1;
             return true;
         }
+        if ( std::chrono::steady_clock::now() > timeout_time) {
+            return false;
+        }
         if ( ! wait_queue_.suspend_and_wait_until( lk, active_ctx, timeout_time)) {
             return false;
         }
diff --git a/src/timed_mutex.cpp b/src/timed_mutex.cpp
index d0482c5..fa98514 100644
--- a/src/timed_mutex.cpp
+++ b/src/timed_mutex.cpp
@@ -22,15 +22,15 @@ namespace fibers {
 bool
 timed_mutex::try_lock_until_( std::chrono::steady_clock::time_point const& timeout_time) noexcept {
     while ( true) {
-        if ( std::chrono::steady_clock::now() > timeout_time) {
-            return false;
-        }
         context * active_ctx = context::active();
         detail::spinlock_lock lk{ wait_queue_splk_ };
         if ( nullptr == owner_) {
             owner_ = active_ctx;
             return true;
         }
+        if ( std::chrono::steady_clock::now() > timeout_time) {
+            return false;
+        }
         if ( ! wait_queue_.suspend_and_wait_until( lk, active_ctx, timeout_time)) {
             return false;
         }
diff --git a/src/waker.cpp b/src/waker.cpp
index 1444dea..9cb14b5 100644
--- a/src/waker.cpp
+++ b/src/waker.cpp
@@ -36,12 +36,16 @@ wait_queue::suspend_and_wait_until( detail::spinlock_lock & lk,
                 break;
             active_ctx->yield();            
         }
+        // a waiter that is not linked any more has been popped by notify_one()/
+        // notify_all(): it must not report a timeout even if the deadline has
+        // been reached in the meantime, otherwise the notification gets lost
+        const bool timed_out = w.is_linked();
         // remove from waiting-queue
-        if ( w.is_linked()) {
+        if ( timed_out) {
             slist_.remove( w);
         }
         lk.unlock();
-        return false;
+        return ! timed_out;
     }
     return true;
 }
-- 
2.43.0


From 83f337ee9761a3df5928514909eb6c87a2f37b0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:54 +0000
Subject: [PATCH 02/24] fix: work_stealing must not search for a victim if
 there is no other scheduler

With a single participating thread (or, for the NUMA variant, a single logical
cpu in the local node) pick_next() never found an id different from its own and
looped forever as soon as its ready-queue became empty.
---
 src/algo/work_stealing.cpp      |  2 +-
 src/numa/algo/work_stealing.cpp | 27 +++++++++++++++------------
 2 files changed, 16 insertions(+), 13 deletions(-)

diff --git a/src/algo/work_stealing.cpp b/src/algo/work_stealing.cpp
index ae9ece8..75e4d33 100644
--- a/src/algo/work_stealing.cpp
+++ b/src/algo/work_stealing.cpp
@@ -62,7 +62,7 @@ work_stealing::pick_next() noexcept {
         if ( ! victim->is_context( type::pinned_context) ) {
             context::active()->attach( victim);
         }
-    } else {
+    } else if ( 1 < thread_count_) {
         std::uint32_t id = 0;
         std::size_t count = 0, size = schedulers_.size();
         static thread_local std::minstd_rand generator{ std::random_device{}() };
diff --git a/src/numa/algo/work_stealing.cpp b/src/numa/algo/work_stealing.cpp
index d3653d6..6f89e1c 100644
--- a/src/numa/algo/work_stealing.cpp
+++ b/src/numa/algo/work_stealing.cpp
@@ -112,19 +112,22 @@ work_stealing::pick_next() noexcept {
             0, static_cast< std::uint32_t >( local_cpus_.size() - 1) };
         std::uniform_int_distribution< std::uint32_t > remote_distribution{
             0, static_cast< std::uint32_t >( remote_cpus_.size() - 1) };
-        do {
+        // the own logical cpu might be the only one of the local NUMA node
+        if ( 1 < size) {
             do {
-                ++count;
-                // random selection of one logical cpu
-                // that belongs to the local NUMA node
-                cpu_id = local_cpus_[local_distribution( generator)];
-                // prevent stealing from own scheduler
-            } while ( cpu_id == cpu_id_);
-            // steal context from other scheduler
-            // schedulers_[cpu_id] should never contain a nullptr
-            BOOST_ASSERT( nullptr != schedulers_[cpu_id]);
-            victim = schedulers_[cpu_id]->steal();
-        } while ( nullptr == victim && count < size);
+                do {
+                    ++count;
+                    // random selection of one logical cpu
+                    // that belongs to the local NUMA node
+                    cpu_id = local_cpus_[local_distribution( generator)];
+                    // prevent stealing from own scheduler
+                } while ( cpu_id == cpu_id_);
+                // steal context from other scheduler
+                // schedulers_[cpu_id] should never contain a nullptr
+                BOOST_ASSERT( nullptr != schedulers_[cpu_id]);
+                victim = schedulers_[cpu_id]->steal();
+            } while ( nullptr == victim && count < size);
+        }
         if ( nullptr != victim) {
             boost::context::detail::prefetch_range( victim, sizeof( context) );
             BOOST_ASSERT( ! victim->is_context( type::pinned_context) );
-- 
2.43.0


From c3ecddb4d922fe185189a69f2751926866b2abe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:01 +0000
Subject: [PATCH 03/24] fix: unbuffered_channel: pending slot must not outlive
 the push, report what happened to the value

A value published by push() could be taken after push() had returned
'closed' or 'timeout' (its slot lives on the producer's stack), push()
reported 'closed' for a value already consumed and 'timeout' for a value
consumed while the deadline was passing. close() woke a slot it did not own.
---
 include/boost/fiber/unbuffered_channel.hpp | 130 ++++++++++++---------
 1 file changed, 78 insertions(+), 52 deletions(-)

diff --git a/include/boost/fiber/unbuffered_channel.hpp b/include/boost/fiber/unbuffered_channel.hpp
index 4b8c807..8d425c4 100644
--- a/include/boost/fiber/unbuffered_channel.hpp
+++ b/include/boost/fiber/unbuffered_channel.hpp
@@ -41,8 +41,13 @@ public:
 
 private:
     struct slot {
-        value_type  value;
-        waker       w;
+        value_type          value;
+        waker               w;
+        // set (before `released`) if the value was handed over to a consumer
+        bool                consumed{ false };
+        // set by the context which has removed the slot from the channel,
+        // the slot isn't accessed by that context afterwards
+        std::atomic_bool    released{ false };
 
         slot( value_type const& value_, waker && w) :
             value{ value_ },
@@ -65,6 +70,20 @@ private:
     wait_queue                  waiting_consumers_{};
     char                        pad_[cacheline_length];
 
+    // releases a slot removed from the channel, resumes its producer
+    struct slot_guard {
+        slot    *   s;
+        bool        consumed;
+
+        ~slot_guard() {
+            s->consumed = consumed;
+            // notify context
+            s->w.wake();
+            // the producer must not return before this point
+            s->released.store( true, std::memory_order_release);
+        }
+    };
+
     bool is_empty_() {
         return nullptr == slot_.load( std::memory_order_acquire);
     }
@@ -94,6 +113,30 @@ private:
         }
     }
 
+    // try to remove own slot from the channel
+    bool try_retract_( slot * own_slot) {
+        slot * nil_slot = nullptr;
+        // fails if slot was already removed by a consumer or by close()
+        return slot_.compare_exchange_strong( own_slot, nil_slot, std::memory_order_acq_rel);
+    }
+
+    // called by a producer which has been resumed after its slot was published
+    channel_op_status retract_( slot & s, context * active_ctx) {
+        if ( try_retract_( & s) ) {
+            // value has not been consumed, slot is free again
+            detail::spinlock_lock lk{ splk_producers_ };
+            waiting_producers_.notify_one();
+            return is_closed() ? channel_op_status::closed : channel_op_status::timeout;
+        }
+        // slot belongs to a consumer or close(), wait till it is released
+        while ( ! s.released.load( std::memory_order_acquire) ) {
+            active_ctx->yield();
+        }
+        // either value has been consumed or
+        // channel was closed before value was consumed
+        return s.consumed ? channel_op_status::success : channel_op_status::closed;
+    }
+
 public:
     unbuffered_channel() = default;
 
@@ -111,17 +154,16 @@ public:
     void close() noexcept {
         // set flag
         if ( ! closed_.exchange( true, std::memory_order_acquire) ) {
-            // notify current waiting  
-            slot * s = slot_.load( std::memory_order_acquire);
-            if ( nullptr != s) {
-                // notify context
-                s->w.wake();
-            }
             detail::spinlock_lock lk1{ splk_producers_ };
             waiting_producers_.notify_all();
 
             detail::spinlock_lock lk2{ splk_consumers_ };
             waiting_consumers_.notify_all();
+            // remove the pending value, notify its producer
+            slot * s = try_pop_();
+            if ( nullptr != s) {
+                slot_guard guard{ s, false };
+            }
         }
     }
 
@@ -135,16 +177,15 @@ public:
             s.w = active_ctx->create_waker();
             if ( try_push_( & s) ) {
                 detail::spinlock_lock lk{ splk_consumers_ };
+                if ( BOOST_UNLIKELY( is_closed() ) && try_retract_( & s) ) {
+                    // channel was closed before value was published
+                    return channel_op_status::closed;
+                }
                 waiting_consumers_.notify_one();
                 // suspend till value has been consumed
                 active_ctx->suspend( lk);
                 // resumed
-                if ( BOOST_UNLIKELY( is_closed() ) ) {
-                    // channel was closed before value was consumed
-                    return channel_op_status::closed;
-                }
-                // value has been consumed
-                return channel_op_status::success;
+                return retract_( s, active_ctx);
             }
             detail::spinlock_lock lk{ splk_producers_ };
             if ( BOOST_UNLIKELY( is_closed() ) ) {
@@ -169,16 +210,15 @@ public:
             s.w = active_ctx->create_waker();
             if ( try_push_( & s) ) {
                 detail::spinlock_lock lk{ splk_consumers_ };
+                if ( BOOST_UNLIKELY( is_closed() ) && try_retract_( & s) ) {
+                    // channel was closed before value was published
+                    return channel_op_status::closed;
+                }
                 waiting_consumers_.notify_one();
                 // suspend till value has been consumed
                 active_ctx->suspend( lk);
                 // resumed
-                if ( BOOST_UNLIKELY( is_closed() ) ) {
-                    // channel was closed before value was consumed
-                    return channel_op_status::closed;
-                }
-                // value has been consumed
-                return channel_op_status::success;
+                return retract_( s, active_ctx);
             }
             detail::spinlock_lock lk{ splk_producers_ };
             if ( BOOST_UNLIKELY( is_closed() ) ) {
@@ -219,22 +259,15 @@ public:
             s.w = active_ctx->create_waker();
             if ( try_push_( & s) ) {
                 detail::spinlock_lock lk{ splk_consumers_ };
+                if ( BOOST_UNLIKELY( is_closed() ) && try_retract_( & s) ) {
+                    // channel was closed before value was published
+                    return channel_op_status::closed;
+                }
                 waiting_consumers_.notify_one();
                 // suspend this producer
-                if ( ! active_ctx->wait_until(timeout_time, lk, waker(s.w))) {
-                    // clear slot
-                    slot * nil_slot = nullptr, * own_slot = & s;
-                    slot_.compare_exchange_strong( own_slot, nil_slot, std::memory_order_acq_rel);
-                    // resumed, value has not been consumed
-                    return channel_op_status::timeout;
-                }
+                active_ctx->wait_until( timeout_time, lk, waker( s.w) );
                 // resumed
-                if ( BOOST_UNLIKELY( is_closed() ) ) {
-                    // channel was closed before value was consumed
-                    return channel_op_status::closed;
-                }
-                // value has been consumed
-                return channel_op_status::success;
+                return retract_( s, active_ctx);
             }
             detail::spinlock_lock lk{ splk_producers_ };
             if ( BOOST_UNLIKELY( is_closed() ) ) {
@@ -265,22 +298,15 @@ public:
             s.w = active_ctx->create_waker();
             if ( try_push_( & s) ) {
                 detail::spinlock_lock lk{ splk_consumers_ };
+                if ( BOOST_UNLIKELY( is_closed() ) && try_retract_( & s) ) {
+                    // channel was closed before value was published
+                    return channel_op_status::closed;
+                }
                 waiting_consumers_.notify_one();
                 // suspend this producer
-                if ( ! active_ctx->wait_until(timeout_time, lk, waker(s.w))) {
-                    // clear slot
-                    slot * nil_slot = nullptr, * own_slot = & s;
-                    slot_.compare_exchange_strong( own_slot, nil_slot, std::memory_order_acq_rel);
-                    // resumed, value has not been consumed
-                    return channel_op_status::timeout;
-                }
+                active_ctx->wait_until( timeout_time, lk, waker( s.w) );
                 // resumed
-                if ( BOOST_UNLIKELY( is_closed() ) ) {
-                    // channel was closed before value was consumed
-                    return channel_op_status::closed;
-                }
-                // value has been consumed
-                return channel_op_status::success;
+                return retract_( s, active_ctx);
             }
             detail::spinlock_lock lk{ splk_producers_ };
             if ( BOOST_UNLIKELY( is_closed() ) ) {
@@ -302,13 +328,13 @@ public:
         slot * s = nullptr;
         for (;;) {
             if ( nullptr != ( s = try_pop_() ) ) {
+                slot_guard guard{ s, true };
                 {
                     detail::spinlock_lock lk{ splk_producers_ };
                     waiting_producers_.notify_one();
                 }
                 value = std::move( s->value);
-                // notify context
-                s->w.wake();
+                // guard notifies context
                 return channel_op_status::success;
             }
             detail::spinlock_lock lk{ splk_consumers_ };
@@ -328,14 +354,14 @@ public:
         slot * s = nullptr;
         for (;;) {
             if ( nullptr != ( s = try_pop_() ) ) {
+                slot_guard guard{ s, true };
                 {
                     detail::spinlock_lock lk{ splk_producers_ };
                     waiting_producers_.notify_one();
                 }
                 // consume value
                 value_type value = std::move( s->value);
-                // notify context
-                s->w.wake();
+                // guard notifies context
                 return std::move( value);
             }
             detail::spinlock_lock lk{ splk_consumers_ };
@@ -367,14 +393,14 @@ public:
         std::chrono::steady_clock::time_point timeout_time = detail::convert( timeout_time_);
         for (;;) {
             if ( nullptr != ( s = try_pop_() ) ) {
+                slot_guard guard{ s, true };
                 {
                     detail::spinlock_lock lk{ splk_producers_ };
                     waiting_producers_.notify_one();
                 }
                 // consume value
                 value = std::move( s->value);
-                // notify context
-                s->w.wake();
+                // guard notifies context
                 return channel_op_status::success;
             }
             detail::spinlock_lock lk{ splk_consumers_ };
-- 
2.43.0


From a17afb8eb72d002131c95b0ac7ae3f2efe649025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:01 +0000
Subject: [PATCH 04/24] fix: channel iterators: destroy each value exactly
 once, copy the value with the iterator

---
 include/boost/fiber/buffered_channel.hpp   | 82 ++++++++++++++++-----
 include/boost/fiber/unbuffered_channel.hpp | 85 +++++++++++++++++-----
 2 files changed, 130 insertions(+), 37 deletions(-)

diff --git a/include/boost/fiber/buffered_channel.hpp b/include/boost/fiber/buffered_channel.hpp
index 492486d..aa323de 100644
--- a/include/boost/fiber/buffered_channel.hpp
+++ b/include/boost/fiber/buffered_channel.hpp
@@ -361,15 +361,36 @@ public:
         buffered_channel    *   chan_{ nullptr };
         storage_type            storage_;
 
-        void increment_( bool initial = false) {
-            BOOST_ASSERT( nullptr != chan_);
+        // a value is stored as long as chan_ is not nullptr
+        value_type * value_() noexcept {
+            return reinterpret_cast< value_type * >( std::addressof( storage_) );
+        }
+
+        value_type const* value_() const noexcept {
+            return reinterpret_cast< value_type const* >( std::addressof( storage_) );
+        }
+
+        void reset_() noexcept {
+            if ( nullptr != chan_) {
+                chan_ = nullptr;
+                value_()->~value_type();
+            }
+        }
+
+        // chan_ is set after the value was stored
+        template< typename V >
+        void assign_( buffered_channel * chan, V && value) {
+            ::new ( static_cast< void * >( std::addressof( storage_) ) ) value_type{ std::forward< V >( value) };
+            chan_ = chan;
+        }
+
+        void increment_( buffered_channel * chan) {
+            BOOST_ASSERT( nullptr != chan);
+            reset_();
             try {
-                if ( ! initial) {
-                    reinterpret_cast< value_type * >( std::addressof( storage_) )->~value_type();
-                }
-                ::new ( static_cast< void * >( std::addressof( storage_) ) ) value_type{ chan_->value_pop() };
+                assign_( chan, chan->value_pop() );
             } catch ( fiber_error const&) {
-                chan_ = nullptr;
+                // channel is closed
             }
         }
 
@@ -384,18 +405,44 @@ public:
 
         iterator() = default;
 
-        explicit iterator( buffered_channel< T > * chan) noexcept :
-            chan_{ chan } {
-            increment_( true);
+        explicit iterator( buffered_channel< T > * chan) {
+            increment_( chan);
         }
 
-        iterator( iterator const& other) noexcept :
-            chan_{ other.chan_ } {
+        iterator( iterator const& other) {
+            if ( nullptr != other.chan_) {
+                assign_( other.chan_, * other.value_() );
+            }
         }
 
-        iterator & operator=( iterator const& other) noexcept {
+        iterator( iterator && other) {
+            if ( nullptr != other.chan_) {
+                assign_( other.chan_, std::move( * other.value_() ) );
+                other.reset_();
+            }
+        }
+
+        ~iterator() {
+            reset_();
+        }
+
+        iterator & operator=( iterator const& other) {
             if ( BOOST_LIKELY( this != & other) ) {
-                chan_ = other.chan_;
+                reset_();
+                if ( nullptr != other.chan_) {
+                    assign_( other.chan_, * other.value_() );
+                }
+            }
+            return * this;
+        }
+
+        iterator & operator=( iterator && other) {
+            if ( BOOST_LIKELY( this != & other) ) {
+                reset_();
+                if ( nullptr != other.chan_) {
+                    assign_( other.chan_, std::move( * other.value_() ) );
+                    other.reset_();
+                }
             }
             return * this;
         }
@@ -409,19 +456,18 @@ public:
         }
 
         iterator & operator++() {
-            reinterpret_cast< value_type * >( std::addressof( storage_) )->~value_type();
-            increment_();
+            increment_( chan_);
             return * this;
         }
 
         const iterator operator++( int) = delete;
 
         reference_t operator*() noexcept {
-            return * reinterpret_cast< value_type * >( std::addressof( storage_) );
+            return * value_();
         }
 
         pointer_t operator->() noexcept {
-            return reinterpret_cast< value_type * >( std::addressof( storage_) );
+            return value_();
         }
     };
 
diff --git a/include/boost/fiber/unbuffered_channel.hpp b/include/boost/fiber/unbuffered_channel.hpp
index 8d425c4..bf0531d 100644
--- a/include/boost/fiber/unbuffered_channel.hpp
+++ b/include/boost/fiber/unbuffered_channel.hpp
@@ -423,15 +423,36 @@ public:
         unbuffered_channel  *   chan_{ nullptr };
         storage_type            storage_;
 
-        void increment_( bool initial = false) {
-            BOOST_ASSERT( nullptr != chan_);
+        // a value is stored as long as chan_ is not nullptr
+        value_type * value_() noexcept {
+            return reinterpret_cast< value_type * >( std::addressof( storage_) );
+        }
+
+        value_type const* value_() const noexcept {
+            return reinterpret_cast< value_type const* >( std::addressof( storage_) );
+        }
+
+        void reset_() noexcept {
+            if ( nullptr != chan_) {
+                chan_ = nullptr;
+                value_()->~value_type();
+            }
+        }
+
+        // chan_ is set after the value was stored
+        template< typename V >
+        void assign_( unbuffered_channel * chan, V && value) {
+            ::new ( static_cast< void * >( std::addressof( storage_) ) ) value_type{ std::forward< V >( value) };
+            chan_ = chan;
+        }
+
+        void increment_( unbuffered_channel * chan) {
+            BOOST_ASSERT( nullptr != chan);
+            reset_();
             try {
-                if ( ! initial) {
-                    reinterpret_cast< value_type * >( std::addressof( storage_) )->~value_type();
-                }
-                ::new ( static_cast< void * >( std::addressof( storage_) ) ) value_type{ chan_->value_pop() };
+                assign_( chan, chan->value_pop() );
             } catch ( fiber_error const&) {
-                chan_ = nullptr;
+                // channel is closed
             }
         }
 
@@ -446,18 +467,45 @@ public:
 
         iterator() = default;
 
-        explicit iterator( unbuffered_channel< T > * chan) noexcept :
-            chan_{ chan } {
-            increment_( true);
+        explicit iterator( unbuffered_channel< T > * chan) {
+            increment_( chan);
         }
 
-        iterator( iterator const& other) noexcept :
-            chan_{ other.chan_ } {
+        iterator( iterator const& other) {
+            if ( nullptr != other.chan_) {
+                assign_( other.chan_, * other.value_() );
+            }
         }
 
-        iterator & operator=( iterator const& other) noexcept {
-            if ( this == & other) return * this;
-            chan_ = other.chan_;
+        iterator( iterator && other) {
+            if ( nullptr != other.chan_) {
+                assign_( other.chan_, std::move( * other.value_() ) );
+                other.reset_();
+            }
+        }
+
+        ~iterator() {
+            reset_();
+        }
+
+        iterator & operator=( iterator const& other) {
+            if ( BOOST_LIKELY( this != & other) ) {
+                reset_();
+                if ( nullptr != other.chan_) {
+                    assign_( other.chan_, * other.value_() );
+                }
+            }
+            return * this;
+        }
+
+        iterator & operator=( iterator && other) {
+            if ( BOOST_LIKELY( this != & other) ) {
+                reset_();
+                if ( nullptr != other.chan_) {
+                    assign_( other.chan_, std::move( * other.value_() ) );
+                    other.reset_();
+                }
+            }
             return * this;
         }
 
@@ -470,19 +518,18 @@ public:
         }
 
         iterator & operator++() {
-            reinterpret_cast< value_type * >( std::addressof( storage_) )->~value_type();
-            increment_();
+            increment_( chan_);
             return * this;
         }
 
         const iterator operator++( int) = delete;
 
         reference_t operator*() noexcept {
-            return * reinterpret_cast< value_type * >( std::addressof( storage_) );
+            return * value_();
         }
 
         pointer_t operator->() noexcept {
-            return reinterpret_cast< value_type * >( std::addressof( storage_) );
+            return value_();
         }
     };
 
-- 
2.43.0


From 15e4d00d1825859792dc88eb69e459326bc2bb14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:58 +0000
Subject: [PATCH 05/24] fix: packaged_task::reset() must break the promise of
 the abandoned shared state

---
 include/boost/fiber/future/packaged_task.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/boost/fiber/future/packaged_task.hpp b/include/boost/fiber/future/packaged_task.hpp
index 10cef3c..c4f6583 100644
--- a/include/boost/fiber/future/packaged_task.hpp
+++ b/include/boost/fiber/future/packaged_task.hpp
@@ -125,9 +125,13 @@ public:
         if ( BOOST_UNLIKELY( ! valid() ) ) {
             throw packaged_task_uninitialized{};
         }
+        ptr_type task = task_->reset();
+        // abandons the current shared state, a future
+        // associated with it gets a broken_promise
         packaged_task tmp;
-        tmp.task_ = task_;
-        task_ = tmp.task_->reset();
+        tmp.obtained_ = obtained_;
+        tmp.task_ = std::move( task_);
+        task_ = std::move( task);
         obtained_ = false;
     }
 };
-- 
2.43.0


From 758616ddd394bbc2b51503d5b804ac652c00a20a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:58 +0000
Subject: [PATCH 06/24] fix: fiber_specific_ptr must not register (and clean
 up) a null value

---
 src/context.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/context.cpp b/src/context.cpp
index 97a45a5..474a495 100644
--- a/src/context.cpp
+++ b/src/context.cpp
@@ -363,7 +363,7 @@ context::set_fss_data( void const * vp,
         } else {
             fss_data_.erase( i);
         }
-    } else {
+    } else if ( nullptr != data) {
         fss_data_.insert(
             std::make_pair(
                 key,
-- 
2.43.0


From 435519d74cc86bd8f84d66f6aa6fad422bab1f2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:58 +0000
Subject: [PATCH 07/24] fix: clean up fiber specific data before joining fibers
 are notified

---
 src/context.cpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/context.cpp b/src/context.cpp
index 474a495..e195a07 100644
--- a/src/context.cpp
+++ b/src/context.cpp
@@ -263,6 +263,15 @@ context::suspend_with_cc() noexcept {
 
 boost::context::fiber
 context::terminate() noexcept {
+    // release fiber-specific-data
+    // must happen before a joining fiber is notified and without
+    // holding the spinlock because user code is executed
+    while ( ! fss_data_.empty() ) {
+        fss_data_t::iterator i = fss_data_.begin();
+        fss_data data = i->second;
+        fss_data_.erase( i);
+        data.do_cleanup();
+    }
     // protect for concurrent access
     std::unique_lock< detail::spinlock > lk{ splk_ };
     // mark as terminated
@@ -270,11 +279,6 @@ context::terminate() noexcept {
     // notify all waiting fibers
     wait_queue_.notify_all();
     BOOST_ASSERT( wait_queue_.empty() );
-    // release fiber-specific-data
-    for ( fss_data_t::value_type & data : fss_data_) {
-        data.second.do_cleanup();
-    }
-    fss_data_.clear();
     // switch to another context
     return get_scheduler()->terminate( lk, this);
 }
-- 
2.43.0


From 78bec9947b6e17fc37683fb2f876bee99bce5b20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:58 +0000
Subject: [PATCH 08/24] fix: schedule_from_remote() must not access a scheduler
 that has been destroyed

---
 src/scheduler.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/scheduler.cpp b/src/scheduler.cpp
index 69ae61c..f483040 100644
--- a/src/scheduler.cpp
+++ b/src/scheduler.cpp
@@ -206,11 +206,14 @@ scheduler::schedule_from_remote( context * ctx) noexcept {
     BOOST_ASSERT( ! shutdown_);
     BOOST_ASSERT( nullptr != main_ctx_);
     BOOST_ASSERT( nullptr != dispatcher_ctx_.get() );
+    // `this` might be destroyed as soon as the lock is released
+    // (ctx was the last fiber its thread was waiting for)
+    algo::algorithm::ptr_t algo{ algo_ };
     // push new context to remote ready-queue
     ctx->remote_ready_link( remote_ready_queue_);
     lk.unlock();
     // notify scheduler
-    algo_->notify();
+    algo->notify();
 }
 #endif
 
-- 
2.43.0


From f0f334e799eee82e6b060b9b3223d14cdecb755d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:19 +0000
Subject: [PATCH 09/24] fix: a notification must not be consumed by a waiter
 whose deadline was faster

A waiter popped by notify_one() although it was already woken by its deadline
reports a timeout: the notification is given to the next waiter.
---
 include/boost/fiber/waker.hpp |  3 +++
 src/waker.cpp                 | 20 ++++++++++++--------
 2 files changed, 15 insertions(+), 8 deletions(-)

diff --git a/include/boost/fiber/waker.hpp b/include/boost/fiber/waker.hpp
index 7ee8459..e37ff93 100644
--- a/include/boost/fiber/waker.hpp
+++ b/include/boost/fiber/waker.hpp
@@ -56,6 +56,9 @@ public:
 
 public:
     detail::waker_queue_hook waker_queue_hook_{};
+    // set (under the lock of the wait-queue) if the waker has been removed from
+    // the wait-queue by a notifier, but its fiber was already woken by its deadline
+    bool outdated_{ false };
 };
 
 namespace detail {
diff --git a/src/waker.cpp b/src/waker.cpp
index 9cb14b5..65c0586 100644
--- a/src/waker.cpp
+++ b/src/waker.cpp
@@ -36,12 +36,12 @@ wait_queue::suspend_and_wait_until( detail::spinlock_lock & lk,
                 break;
             active_ctx->yield();            
         }
-        // a waiter that is not linked any more has been popped by notify_one()/
-        // notify_all(): it must not report a timeout even if the deadline has
-        // been reached in the meantime, otherwise the notification gets lost
-        const bool timed_out = w.is_linked();
+        // a waiter that has been woken by notify_one()/notify_all() must not
+        // report a timeout even if the deadline has been reached in the
+        // meantime, otherwise the notification gets lost
+        const bool timed_out = w.is_linked() || w.outdated_;
         // remove from waiting-queue
-        if ( timed_out) {
+        if ( w.is_linked()) {
             slist_.remove( w);
         }
         lk.unlock();
@@ -53,20 +53,24 @@ wait_queue::suspend_and_wait_until( detail::spinlock_lock & lk,
 void
 wait_queue::notify_one() {
     while ( ! slist_.empty() ) {
-        waker & w = slist_.front();
+        waker_with_hook & w = slist_.front();
         slist_.pop_front();
         if ( w.wake()) {
             break;
         }
+        // the deadline was faster, the notification goes to the next waiter
+        w.outdated_ = true;
     }
 }
 
 void
 wait_queue::notify_all() {
     while ( ! slist_.empty() ) {
-        waker & w = slist_.front();
+        waker_with_hook & w = slist_.front();
         slist_.pop_front();
-        w.wake();
+        if ( ! w.wake()) {
+            w.outdated_ = true;
+        }
     }
 }
 
-- 
2.43.0


From ddf9595c2ccb9ff5d96851faaa4920c5d0737c7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:38 +0000
Subject: [PATCH 10/24] fix: packaged_task: store the exception of the target
 outside of the handler

Storing the exception might suspend the fiber (mutex of the shared state); other
fibers of the thread then saw the exception of the suspended handler.
---
 .../boost/fiber/future/detail/task_object.hpp    | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/include/boost/fiber/future/detail/task_object.hpp b/include/boost/fiber/future/detail/task_object.hpp
index 47bbf3c..93853d3 100644
--- a/include/boost/fiber/future/detail/task_object.hpp
+++ b/include/boost/fiber/future/detail/task_object.hpp
@@ -54,6 +54,7 @@ public:
     }
 
     void run( Args && ... args) override final {
+        std::exception_ptr except{};
         try {
             this->set_value(
 #if defined(BOOST_NO_CXX17_STD_APPLY)
@@ -69,7 +70,12 @@ public:
             throw;
 #endif
         } catch (...) {
-            this->set_exception( std::current_exception() );
+            except = std::current_exception();
+        }
+        // the fiber might get suspended while it stores the exception, this must
+        // not happen inside the handler (exceptions are handled per thread)
+        if ( except) {
+            this->set_exception( except);
         }
     }
 
@@ -129,6 +135,7 @@ public:
     }
 
     void run( Args && ... args) override final {
+        std::exception_ptr except{};
         try {
 #if defined(BOOST_NO_CXX17_STD_APPLY)
             boost::context::detail::apply(
@@ -143,7 +150,12 @@ public:
             throw;
 #endif
         } catch (...) {
-            this->set_exception( std::current_exception() );
+            except = std::current_exception();
+        }
+        // the fiber might get suspended while it stores the exception, this must
+        // not happen inside the handler (exceptions are handled per thread)
+        if ( except) {
+            this->set_exception( except);
         }
     }
 
-- 
2.43.0


From ae4b097dc45c2d1002a83e478a49a1fb99d1e8c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:08 +0000
Subject: [PATCH 11/24] fix: allow other threads to wake fibers of a thread
 that is about to end

The destructor of a scheduler waits for the remaining fibers of its thread.
Those may be woken by another thread; the assertion aborted such programs in
debug builds (and read shutdown_ without synchronisation).
---
 src/scheduler.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/scheduler.cpp b/src/scheduler.cpp
index f483040..64e504f 100644
--- a/src/scheduler.cpp
+++ b/src/scheduler.cpp
@@ -203,7 +203,6 @@ scheduler::schedule_from_remote( context * ctx) noexcept {
     BOOST_ASSERT( ! ctx->terminated_is_linked() );
     // protect for concurrent access
     detail::spinlock_lock lk{ remote_ready_splk_ };
-    BOOST_ASSERT( ! shutdown_);
     BOOST_ASSERT( nullptr != main_ctx_);
     BOOST_ASSERT( nullptr != dispatcher_ctx_.get() );
     // `this` might be destroyed as soon as the lock is released
-- 
2.43.0


From f1ad86dc0470bfae8e156dd4c22a0aaac48c4ae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:19 +0000
Subject: [PATCH 12/24] fix: timed waits: do not assert that the fiber was not
 woken yet

A timed push to an unbuffered channel publishes its slot before it suspends;
a consumer of another thread may have woken the fiber already.  The assertion
aborted such programs in debug builds.
---
 src/scheduler.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/scheduler.cpp b/src/scheduler.cpp
index 64e504f..23abd2d 100644
--- a/src/scheduler.cpp
+++ b/src/scheduler.cpp
@@ -287,9 +287,8 @@ scheduler::wait_until( context * ctx,
     BOOST_ASSERT( context::active() == ctx);
     BOOST_ASSERT( ctx->is_context( type::worker_context) || ctx->is_context( type::main_context) );
     BOOST_ASSERT( ! ctx->ready_is_linked() );
-#if ! defined(BOOST_FIBERS_NO_ATOMICS)
-    BOOST_ASSERT( ! ctx->remote_ready_is_linked() );
-#endif
+    // `w` might have been notified by another thread already,
+    // e.g. ctx might be linked to the remote ready-queue
     BOOST_ASSERT( ! ctx->sleep_is_linked() );
     BOOST_ASSERT( ! ctx->terminated_is_linked() );
     // push active context to sleep-queue
-- 
2.43.0


From 7a4e3d877e619705e3a1c1b4328730debd947eb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:19 +0000
Subject: [PATCH 13/24] fix: fiber_properties::notify(): a fiber might change
 its properties before it was declared ready for the first time

A fiber launched with launch::dispatch runs before it was passed to awakened(),
thus its properties do not know the algorithm yet.  The assertion aborted such
programs in debug builds.
---
 src/properties.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/properties.cpp b/src/properties.cpp
index f59ae3a..b69bbd4 100644
--- a/src/properties.cpp
+++ b/src/properties.cpp
@@ -20,7 +20,6 @@ namespace fibers {
 
 void
 fiber_properties::notify() noexcept {
-    BOOST_ASSERT( nullptr != algo_);
     // Application code might change an important property for any fiber at
     // any time. The fiber in question might be ready, running or waiting.
     // Significantly, only a fiber which is ready but not actually running is
@@ -28,6 +27,7 @@ fiber_properties::notify() noexcept {
     // with a change to a fiber it's not currently tracking: it will do the
     // right thing next time the fiber is passed to its awakened() method.
     if ( ctx_->ready_is_linked() ) {
+        BOOST_ASSERT( nullptr != algo_);
         dynamic_cast< algo::algorithm_with_properties_base * >( algo_)->
             property_change_( ctx_, this);
     }
-- 
2.43.0


From cced24f9e8bdce95799192c6197ce3c7bddad5ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:20 +0000
Subject: [PATCH 14/24] fix: context_spmc_queue: a thief must not access a
 context it has not dequeued

steal() tested whether the oldest context is pinned before it took it out of
the queue.  Another thread may have dequeued, resumed and destroyed the context
in between.
---
 .../boost/fiber/detail/context_spmc_queue.hpp | 23 ++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/include/boost/fiber/detail/context_spmc_queue.hpp b/include/boost/fiber/detail/context_spmc_queue.hpp
index 5f906cf..a6649ae 100644
--- a/include/boost/fiber/detail/context_spmc_queue.hpp
+++ b/include/boost/fiber/detail/context_spmc_queue.hpp
@@ -96,6 +96,23 @@ private:
     std::vector< array * >                                  old_arrays_{};
     char                                                    padding_[cacheline_length];
 
+    // a thief must not dereference a context before it has been dequeued, because
+    // the context might have been resumed and destroyed by another thread
+    // -> pinned context' are marked by the lowest bit of the pointer
+    static context * mark_( context * ctx) noexcept {
+        return ctx->is_context( type::pinned_context)
+            ? reinterpret_cast< context * >( reinterpret_cast< std::uintptr_t >( ctx) | 1)
+            : ctx;
+    }
+
+    static bool is_marked_( context * ctx) noexcept {
+        return 0 != ( reinterpret_cast< std::uintptr_t >( ctx) & 1);
+    }
+
+    static context * unmark_( context * ctx) noexcept {
+        return reinterpret_cast< context * >( reinterpret_cast< std::uintptr_t >( ctx) & ~static_cast< std::uintptr_t >( 1) );
+    }
+
 public:
     context_spmc_queue( std::size_t capacity = 4096) :
         array_{ new array{ capacity } } {
@@ -130,7 +147,7 @@ public:
             std::swap( a, tmp);
             array_.store( a, std::memory_order_relaxed);
         }
-        a->push( bottom, ctx);
+        a->push( bottom, mark_( ctx) );
         std::atomic_thread_fence( std::memory_order_release);
         bottom_.store( bottom + 1, std::memory_order_relaxed);
     }
@@ -144,7 +161,7 @@ public:
         context * ctx = nullptr;
         if ( top <= bottom) {
             // queue is not empty
-            ctx = a->pop( bottom);
+            ctx = unmark_( a->pop( bottom) );
             BOOST_ASSERT( nullptr != ctx);
             if ( top == bottom) {
                 // last element dequeued
@@ -174,7 +191,7 @@ public:
             ctx = a->pop( top);
             BOOST_ASSERT( nullptr != ctx);
             // do not steal pinned context (e.g. main-/dispatcher-context)
-            if ( ctx->is_context( type::pinned_context) ) {
+            if ( is_marked_( ctx) ) {
                 return nullptr;
             }
             if ( ! top_.compare_exchange_strong( top, top + 1,
-- 
2.43.0


From 0f92c25fa83f1127e973549dee71f8f0c0659ecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:03 +0000
Subject: [PATCH 15/24] fix: buffered_channel: an exception thrown by a value
 must not consume a notification

---
 include/boost/fiber/buffered_channel.hpp | 45 ++++++++++++++++++++++++
 1 file changed, 45 insertions(+)

diff --git a/include/boost/fiber/buffered_channel.hpp b/include/boost/fiber/buffered_channel.hpp
index aa323de..6db417c 100644
--- a/include/boost/fiber/buffered_channel.hpp
+++ b/include/boost/fiber/buffered_channel.hpp
@@ -61,6 +61,31 @@ private:
         return closed_;
     }
 
+    // Assigning a value might throw: the notification that resumed the
+    // active fiber is passed on to the next waiting fiber.
+    class notify_guard {
+    private:
+        wait_queue  *   waiting_;
+
+    public:
+        explicit notify_guard( wait_queue & waiting) noexcept :
+            waiting_{ & waiting } {
+        }
+
+        ~notify_guard() {
+            if ( BOOST_UNLIKELY( nullptr != waiting_) ) {
+                waiting_->notify_one();
+            }
+        }
+
+        void release() noexcept {
+            waiting_ = nullptr;
+        }
+
+        notify_guard( notify_guard const&) = delete;
+        notify_guard & operator=( notify_guard const&) = delete;
+    };
+
 public:
     explicit buffered_channel( std::size_t capacity) :
             capacity_{ capacity } {
@@ -116,7 +141,9 @@ public:
         if ( is_full_() ) {
             return channel_op_status::full;
         }
+        notify_guard guard{ waiting_producers_ };
         slots_[pidx_] = value;
+        guard.release();
         pidx_ = (pidx_ + 1) % capacity_;
         waiting_consumers_.notify_one();
         return channel_op_status::success;
@@ -136,7 +163,9 @@ public:
         if ( is_full_() ) {
             return channel_op_status::full;
         }
+        notify_guard guard{ waiting_producers_ };
         slots_[pidx_] = std::move( value);
+        guard.release();
         pidx_ = (pidx_ + 1) % capacity_;
         waiting_consumers_.notify_one();
         return channel_op_status::success;
@@ -156,7 +185,9 @@ public:
             if ( is_full_() ) {
                 waiting_producers_.suspend_and_wait( lk, active_ctx);
             } else {
+                notify_guard guard{ waiting_producers_ };
                 slots_[pidx_] = value;
+                guard.release();
                 pidx_ = (pidx_ + 1) % capacity_;
                 waiting_consumers_.notify_one();
                 return channel_op_status::success;
@@ -178,7 +209,9 @@ public:
             if ( is_full_() ) {
                 waiting_producers_.suspend_and_wait( lk, active_ctx);
             } else {
+                notify_guard guard{ waiting_producers_ };
                 slots_[pidx_] = std::move( value);
+                guard.release();
                 pidx_ = (pidx_ + 1) % capacity_;
 
                 waiting_consumers_.notify_one();
@@ -220,7 +253,9 @@ public:
                     return channel_op_status::timeout;
                 }
             } else {
+                notify_guard guard{ waiting_producers_ };
                 slots_[pidx_] = value;
+                guard.release();
                 pidx_ = (pidx_ + 1) % capacity_;
                 waiting_consumers_.notify_one();
                 return channel_op_status::success;
@@ -247,7 +282,9 @@ public:
                     return channel_op_status::timeout;
                 }
             } else {
+                notify_guard guard{ waiting_producers_ };
                 slots_[pidx_] = std::move( value);
+                guard.release();
                 pidx_ = (pidx_ + 1) % capacity_;
                 // notify one waiting consumer
                 waiting_consumers_.notify_one();
@@ -268,7 +305,9 @@ public:
                 ? channel_op_status::closed
                 : channel_op_status::empty;
         }
+        notify_guard guard{ waiting_consumers_ };
         value = std::move( slots_[cidx_]);
+        guard.release();
         cidx_ = (cidx_ + 1) % capacity_;
         waiting_producers_.notify_one();
         return channel_op_status::success;
@@ -288,7 +327,9 @@ public:
                 }
                 waiting_consumers_.suspend_and_wait( lk, active_ctx);
             } else {
+                notify_guard guard{ waiting_consumers_ };
                 value = std::move( slots_[cidx_]);
+                guard.release();
                 cidx_ = (cidx_ + 1) % capacity_;
                 waiting_producers_.notify_one();
                 return channel_op_status::success;
@@ -312,7 +353,9 @@ public:
                 }
                 waiting_consumers_.suspend_and_wait( lk, active_ctx);
             } else {
+                notify_guard guard{ waiting_consumers_ };
                 value_type value = std::move( slots_[cidx_]);
+                guard.release();
                 cidx_ = (cidx_ + 1) % capacity_;
                 waiting_producers_.notify_one();
                 return value;
@@ -346,7 +389,9 @@ public:
                     return channel_op_status::timeout;
                 }
             } else {
+                notify_guard guard{ waiting_consumers_ };
                 value = std::move( slots_[cidx_]);
+                guard.release();
                 cidx_ = (cidx_ + 1) % capacity_;
                 waiting_producers_.notify_one();
                 return channel_op_status::success;
-- 
2.43.0


From 61f8913c558d24425857cddac6258d72201d602a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:03 +0000
Subject: [PATCH 16/24] fix: release the stack if a fiber's function or
 argument could not be stored

---
 include/boost/fiber/context.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/boost/fiber/context.hpp b/include/boost/fiber/context.hpp
index 82d8484..316f8a0 100644
--- a/include/boost/fiber/context.hpp
+++ b/include/boost/fiber/context.hpp
@@ -500,7 +500,8 @@ static intrusive_ptr< context > make_worker_context_with_properties( launch poli
             reinterpret_cast< uintptr_t >( sctx.sp) - static_cast< uintptr_t >( sctx.size) );
     const std::size_t size = reinterpret_cast< uintptr_t >( storage) - reinterpret_cast< uintptr_t >( stack_bottom);
     // placement new of context on top of fiber's stack
-    return intrusive_ptr< context >{ 
+    try {
+        return intrusive_ptr< context >{ 
             new ( storage) context_t{
                 policy,
                 properties,
@@ -508,6 +509,12 @@ static intrusive_ptr< context > make_worker_context_with_properties( launch poli
                 std::forward< StackAlloc >( salloc),
                 std::forward< Fn >( fn),
                 std::forward< Arg >( arg) ... } };
+    } catch (...) {
+        // moving/copying the function or an argument did throw,
+        // the stack was not handed over to the context
+        salloc.deallocate( sctx);
+        throw;
+    }
 }
 
 template< typename StackAlloc, typename Fn, typename ... Arg >
-- 
2.43.0


From f04a4408418092a43ade5753f33e21500b3f1985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:17 +0000
Subject: [PATCH 17/24] fix: scheduler: notify the algorithm only once about
 termination

dispatch() called algorithm::notify() in each iteration of its loop once
the main fiber had ended.  suspend_until() therefore returned at once and
the thread was busy-waiting until its last sleeping or waiting fiber had
ended.
---
 src/scheduler.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/scheduler.cpp b/src/scheduler.cpp
index 23abd2d..1b6e7b2 100644
--- a/src/scheduler.cpp
+++ b/src/scheduler.cpp
@@ -122,10 +122,16 @@ scheduler::~scheduler() {
 boost::context::fiber
 scheduler::dispatch() noexcept {
     BOOST_ASSERT( context::active() == dispatcher_ctx_);
+    bool notified = false;
     for (;;) {
         if ( shutdown_) {
-            // notify sched-algorithm about termination
-            algo_->notify();
+            // notify sched-algorithm about termination, only once:
+            // suspend_until() must be able to block while
+            // fibers are still sleeping or waiting
+            if ( ! notified) {
+                notified = true;
+                algo_->notify();
+            }
             if ( worker_queue_.empty() ) {
                 break;
             }
-- 
2.43.0


From 5d2f576121916c964a4ad5f171377378ff2536b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:41 +0000
Subject: [PATCH 18/24] fix: futex spinlocks: unlock() must be a release
 operation

---
 include/boost/fiber/detail/spinlock_ttas_adaptive_futex.hpp | 2 +-
 include/boost/fiber/detail/spinlock_ttas_futex.hpp          | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/fiber/detail/spinlock_ttas_adaptive_futex.hpp b/include/boost/fiber/detail/spinlock_ttas_adaptive_futex.hpp
index 172b2b4..1628a8c 100644
--- a/include/boost/fiber/detail/spinlock_ttas_adaptive_futex.hpp
+++ b/include/boost/fiber/detail/spinlock_ttas_adaptive_futex.hpp
@@ -125,7 +125,7 @@ public:
     }
 
     void unlock() noexcept {
-        if ( 1 != value_.fetch_sub( 1, std::memory_order_acquire) ) {
+        if ( 1 != value_.fetch_sub( 1, std::memory_order_release) ) {
             value_.store( 0, std::memory_order_release);
             futex_wake( & value_);
         }
diff --git a/include/boost/fiber/detail/spinlock_ttas_futex.hpp b/include/boost/fiber/detail/spinlock_ttas_futex.hpp
index f7a2f68..3aefdc1 100644
--- a/include/boost/fiber/detail/spinlock_ttas_futex.hpp
+++ b/include/boost/fiber/detail/spinlock_ttas_futex.hpp
@@ -116,7 +116,7 @@ public:
     }
 
     void unlock() noexcept {
-        if ( 1 != value_.fetch_sub( 1, std::memory_order_acquire) ) {
+        if ( 1 != value_.fetch_sub( 1, std::memory_order_release) ) {
             value_.store( 0, std::memory_order_release);
             futex_wake( & value_);
         }
-- 
2.43.0


From f629d7e495c774a0a3d8e487cbd4bc5b318366d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:41 +0000
Subject: [PATCH 19/24] fix: try_lock() must not read the owner of the mutex
 after the spinlock was released

---
 src/mutex.cpp                 | 3 ++-
 src/recursive_mutex.cpp       | 3 ++-
 src/recursive_timed_mutex.cpp | 3 ++-
 src/timed_mutex.cpp           | 3 ++-
 4 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/mutex.cpp b/src/mutex.cpp
index 7b06451..98f9b29 100644
--- a/src/mutex.cpp
+++ b/src/mutex.cpp
@@ -53,10 +53,11 @@ mutex::try_lock() {
     if ( nullptr == owner_) {
         owner_ = active_ctx;
     }
+    bool const locked = active_ctx == owner_;
     lk.unlock();
     // let other fiber release the lock
     active_ctx->yield();
-    return active_ctx == owner_;
+    return locked;
 }
 
 void
diff --git a/src/recursive_mutex.cpp b/src/recursive_mutex.cpp
index 9358066..8cd24c0 100644
--- a/src/recursive_mutex.cpp
+++ b/src/recursive_mutex.cpp
@@ -49,10 +49,11 @@ recursive_mutex::try_lock() noexcept {
     } else if ( active_ctx == owner_) {
         ++count_;
     }
+    bool const locked = active_ctx == owner_;
     lk.unlock();
     // let other fiber release the lock
     context::active()->yield();
-    return active_ctx == owner_;
+    return locked;
 }
 
 void
diff --git a/src/recursive_timed_mutex.cpp b/src/recursive_timed_mutex.cpp
index 3d01236..73d9310 100644
--- a/src/recursive_timed_mutex.cpp
+++ b/src/recursive_timed_mutex.cpp
@@ -72,10 +72,11 @@ recursive_timed_mutex::try_lock() noexcept {
     } else if ( active_ctx == owner_) {
         ++count_;
     }
+    bool const locked = active_ctx == owner_;
     lk.unlock();
     // let other fiber release the lock
     active_ctx->yield();
-    return active_ctx == owner_;
+    return locked;
 }
 
 void
diff --git a/src/timed_mutex.cpp b/src/timed_mutex.cpp
index fa98514..65b5537 100644
--- a/src/timed_mutex.cpp
+++ b/src/timed_mutex.cpp
@@ -68,10 +68,11 @@ timed_mutex::try_lock() {
     if ( nullptr == owner_) {
         owner_ = active_ctx;
     }
+    bool const locked = active_ctx == owner_;
     lk.unlock();
     // let other fiber release the lock
     active_ctx->yield();
-    return active_ctx == owner_;
+    return locked;
 }
 
 void
-- 
2.43.0


From f72238f207312399289b5159d0c50f402dd847c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:46 +0000
Subject: [PATCH 20/24] fix: unbuffered_channel: close() must be a release
 operation

---
 include/boost/fiber/unbuffered_channel.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/fiber/unbuffered_channel.hpp b/include/boost/fiber/unbuffered_channel.hpp
index bf0531d..56e52f6 100644
--- a/include/boost/fiber/unbuffered_channel.hpp
+++ b/include/boost/fiber/unbuffered_channel.hpp
@@ -153,7 +153,7 @@ public:
 
     void close() noexcept {
         // set flag
-        if ( ! closed_.exchange( true, std::memory_order_acquire) ) {
+        if ( ! closed_.exchange( true, std::memory_order_acq_rel) ) {
             detail::spinlock_lock lk1{ splk_producers_ };
             waiting_producers_.notify_all();
 
-- 
2.43.0


From 2c180fa368bdeaf8519f49e6ab846466df73d408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:08 +0000
Subject: [PATCH 21/24] fix: hip: waitfor_all() is documented in namespace
 boost::fibers::hip; use hip's own include guard

---
 include/boost/fiber/hip/waitfor.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/boost/fiber/hip/waitfor.hpp b/include/boost/fiber/hip/waitfor.hpp
index e05099e..a568e5e 100644
--- a/include/boost/fiber/hip/waitfor.hpp
+++ b/include/boost/fiber/hip/waitfor.hpp
@@ -4,8 +4,8 @@
 //    (See accompanying file LICENSE_1_0.txt or copy at
 //          http://www.boost.org/LICENSE_1_0.txt)
 
-#ifndef BOOST_FIBERS_CUDA_WAITFOR_H
-#define BOOST_FIBERS_CUDA_WAITFOR_H
+#ifndef BOOST_FIBERS_HIP_WAITFOR_H
+#define BOOST_FIBERS_HIP_WAITFOR_H
 
 #include <initializer_list>
 #include <mutex>
@@ -30,7 +30,7 @@
 
 namespace boost {
 namespace fibers {
-namespace cuda {
+namespace hip {
 namespace detail {
 
 template< typename Rendezvous >
@@ -136,4 +136,4 @@ std::vector< std::tuple< hipStream_t, hipError_t > > waitfor_all( hipStream_t st
 #  include BOOST_ABI_SUFFIX
 #endif
 
-#endif // BOOST_FIBERS_CUDA_WAITFOR_H
+#endif // BOOST_FIBERS_HIP_WAITFOR_H
-- 
2.43.0


From 0dff76cb9479241da0272a4309acbe154231155d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:21 +0000
Subject: [PATCH 22/24] fix: cuda/hip: many_streams_rendezvous must not iterate
 the set its callbacks erase from

---
 include/boost/fiber/cuda/waitfor.hpp | 4 +++-
 include/boost/fiber/hip/waitfor.hpp  | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/boost/fiber/cuda/waitfor.hpp b/include/boost/fiber/cuda/waitfor.hpp
index 262efd9..9fc2f04 100644
--- a/include/boost/fiber/cuda/waitfor.hpp
+++ b/include/boost/fiber/cuda/waitfor.hpp
@@ -79,7 +79,9 @@ public:
     many_streams_rendezvous( std::initializer_list< cudaStream_t > l) :
             stx_{ l } {
         results_.reserve( stx_.size() );
-        for ( cudaStream_t st : stx_) {
+        // callbacks already added erase from `stx_`
+        const std::set< cudaStream_t > streams{ stx_ };
+        for ( cudaStream_t st : streams) {
             unsigned int flags = 0;
             cudaError_t status = ::cudaStreamAddCallback( st, trampoline< many_streams_rendezvous >, this, flags);
             if ( cudaSuccess != status) {
diff --git a/include/boost/fiber/hip/waitfor.hpp b/include/boost/fiber/hip/waitfor.hpp
index a568e5e..fd45284 100644
--- a/include/boost/fiber/hip/waitfor.hpp
+++ b/include/boost/fiber/hip/waitfor.hpp
@@ -79,7 +79,9 @@ public:
     many_streams_rendezvous( std::initializer_list< hipStream_t > l) :
             stx_{ l } {
         results_.reserve( stx_.size() );
-        for ( hipStream_t st : stx_) {
+        // callbacks already added erase from `stx_`
+        const std::set< hipStream_t > streams{ stx_ };
+        for ( hipStream_t st : streams) {
             unsigned int flags = 0;
             hipError_t status = ::hipStreamAddCallback( st, trampoline< many_streams_rendezvous >, this, flags);
             if ( hipSuccess != status) {
-- 
2.43.0


From 7f2234671c61051a13a07f710e4c1deab49179e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:12 +0000
Subject: [PATCH 23/24] fix: cuda/hip: notify() must not touch the rendezvous
 after it released the lock

---
 include/boost/fiber/cuda/waitfor.hpp | 4 ++--
 include/boost/fiber/hip/waitfor.hpp  | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/boost/fiber/cuda/waitfor.hpp b/include/boost/fiber/cuda/waitfor.hpp
index 9fc2f04..3b8668e 100644
--- a/include/boost/fiber/cuda/waitfor.hpp
+++ b/include/boost/fiber/cuda/waitfor.hpp
@@ -56,7 +56,7 @@ public:
         st_ = st;
         status_ = status;
         done_ = true;
-        lk.unlock();
+        // notify under the lock: wait() might return, destroying *this, as soon as the lock is released
         cv_.notify_one();
     }
 
@@ -97,7 +97,7 @@ public:
         stx_.erase( st);
         results_.push_back( std::make_tuple( st, status) );
         if ( stx_.empty() ) {
-            lk.unlock();
+            // notify under the lock: wait() might return, destroying *this, as soon as the lock is released
             cv_.notify_one();
         }
     }
diff --git a/include/boost/fiber/hip/waitfor.hpp b/include/boost/fiber/hip/waitfor.hpp
index fd45284..eb0348b 100644
--- a/include/boost/fiber/hip/waitfor.hpp
+++ b/include/boost/fiber/hip/waitfor.hpp
@@ -56,7 +56,7 @@ public:
         st_ = st;
         status_ = status;
         done_ = true;
-        lk.unlock();
+        // notify under the lock: wait() might return, destroying *this, as soon as the lock is released
         cv_.notify_one();
     }
 
@@ -97,7 +97,7 @@ public:
         stx_.erase( st);
         results_.push_back( std::make_tuple( st, status) );
         if ( stx_.empty() ) {
-            lk.unlock();
+            // notify under the lock: wait() might return, destroying *this, as soon as the lock is released
             cv_.notify_one();
         }
     }
-- 
2.43.0


From d5b60660233bee73aeb182a9a45c167b6e490b21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:02 +0000
Subject: [PATCH 24/24] fix: condition_variable: may be destroyed while
 notified timed waits have not returned yet

---
 include/boost/fiber/condition_variable.hpp | 11 ++++++---
 src/condition_variable.cpp                 | 26 ++++++++++++++++++++++
 2 files changed, 34 insertions(+), 3 deletions(-)

diff --git a/include/boost/fiber/condition_variable.hpp b/include/boost/fiber/condition_variable.hpp
index 2bd8157..6aee564 100644
--- a/include/boost/fiber/condition_variable.hpp
+++ b/include/boost/fiber/condition_variable.hpp
@@ -47,13 +47,16 @@ class BOOST_FIBERS_DECL condition_variable_any {
 private:
     detail::spinlock    wait_queue_splk_{};
     wait_queue          wait_queue_{};
+    // timed waits might access *this after they have been notified
+    std::size_t         timed_waits_{ 0 };
+    wait_queue          timed_waits_queue_{};
+
+    void timed_wait_done_() noexcept;
 
 public:
     condition_variable_any() = default;
 
-    ~condition_variable_any() {
-        BOOST_ASSERT( wait_queue_.empty() );
-    }
+    ~condition_variable_any();
 
     condition_variable_any( condition_variable_any const&) = delete;
     condition_variable_any & operator=( condition_variable_any const&) = delete;
@@ -100,9 +103,11 @@ public:
         detail::spinlock_lock lk{ wait_queue_splk_ };
         // unlock external lt
         lt.unlock();
+        ++timed_waits_;
         if ( ! wait_queue_.suspend_and_wait_until( lk, active_ctx, timeout_time)) {
             status = cv_status::timeout;
         }
+        timed_wait_done_();
         // relock external again before returning
         try {
             lt.lock();
diff --git a/src/condition_variable.cpp b/src/condition_variable.cpp
index 6df034b..ce9dbe2 100644
--- a/src/condition_variable.cpp
+++ b/src/condition_variable.cpp
@@ -15,6 +15,32 @@
 namespace boost {
 namespace fibers {
 
+condition_variable_any::~condition_variable_any() {
+    BOOST_ASSERT( wait_queue_.empty() );
+    // all waiting fibers have been notified, but a timed wait whose deadline
+    // had been reached too has still to find out about it
+    for (;;) {
+        detail::spinlock_lock lk{ wait_queue_splk_ };
+        if ( 0 == timed_waits_) {
+            break;
+        }
+        timed_waits_queue_.suspend_and_wait( lk, context::active() );
+    }
+}
+
+void
+condition_variable_any::timed_wait_done_() noexcept {
+    detail::spinlock_lock lk{ wait_queue_splk_, std::defer_lock };
+    for(;;) {
+        if(lk.try_lock())
+            break;
+        context::active()->yield();
+    }
+    if ( 0 == --timed_waits_) {
+        timed_waits_queue_.notify_all();
+    }
+}
+
 void
 condition_variable_any::notify_one() noexcept {
     detail::spinlock_lock lk{ wait_queue_splk_ };
-- 
2.43.0

