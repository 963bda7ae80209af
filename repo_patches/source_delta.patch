From 6d9cfe8361655efa38bb263f652ecb169cb41654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:04:45 +0000
Subject: [PATCH 01/12] fix: give every slot its own copy of a by-value
 argument

---
 signals.hpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/signals.hpp b/signals.hpp
index ada159b..5b54fc8 100644
--- a/signals.hpp
+++ b/signals.hpp
@@ -1077,6 +1077,14 @@ namespace sig
         template<typename... T>
         using index_sequence_for = make_index_sequence<sizeof...(T)>;
 
+        // The type used to pass a stored signal argument to a slot.
+        // Arguments that are passed by value are copied for each slot, so that 
+        // a slot that consumes its argument does not change what the next slot
+        // receives. References (and types that can't be copied) are forwarded.
+        template<typename Arg>
+        using slot_arg_t = traits::conditional_t<std::is_reference<Arg>::value || !std::is_copy_constructible<Arg>::value,
+            Arg&&, Arg>;
+
         // The slot_iterator is a wrapper for the actual container that 
         // contains a list of slots to be invoked. When the slot_iterator
         // is dereferenced, it must invoke the slot that is referenced by the 
@@ -1139,7 +1147,7 @@ namespace sig
             constexpr opt::optional<T> do_invoke(index_sequence<Is...>)
             {
                 // Unpack tuple arguments and invoke slot.
-                return (**m_Iter)(std::forward<Args>(std::get<Is>(m_Args))...);
+                return (**m_Iter)(static_cast<slot_arg_t<Args>>(std::get<Is>(m_Args))...);
             }
 
             InputIterator m_Iter;
@@ -1203,7 +1211,7 @@ namespace sig
             constexpr opt::optional<void> do_invoke(index_sequence<Is...>)
             {
                 // Unpack tuple arguments and invoke slot.
-                (**m_Iter)(std::forward<Args>(std::get<Is>(m_Args))...);
+                (**m_Iter)(static_cast<slot_arg_t<Args>>(std::get<Is>(m_Args))...);
                 return {};
             }
 
-- 
2.43.0


From 5aae799d35c21c920e6cf62f7b1bfa5b1124bb73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:04:48 +0000
Subject: [PATCH 02/12] fix: slot equivalence does not depend on how the
 callable was passed

---
 signals.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/signals.hpp b/signals.hpp
index 5b54fc8..8940635 100644
--- a/signals.hpp
+++ b/signals.hpp
@@ -1269,7 +1269,7 @@ namespace sig
         // Slot that takes a function object.
         template<typename Func>
         slot(Func&& func, detail::signal_base* signal = nullptr)
-            : m_pImpl{ new detail::slot_func<R, Func, Args...>(std::forward<Func>(func)) }
+            : m_pImpl{ new detail::slot_func<R, detail::traits::decay_t<Func>, Args...>(static_cast<detail::traits::decay_t<Func>>(std::forward<Func>(func))) }
             , m_pSignal{ signal }
         {}
 
@@ -1277,14 +1277,17 @@ namespace sig
         template<typename Func, typename Ptr>
         slot(Func&& func, Ptr&& ptr, detail::signal_base* signal = nullptr,
             detail::traits::enable_if_t<!detail::traits::is_weak_ptr_convertable<Ptr>::value, void*> = nullptr)
-            : m_pImpl{ new detail::slot_pmf<R, Func, Ptr, Args...>(std::forward<Func>(func), std::forward<Ptr>(ptr)) }
+            : m_pImpl{ new detail::slot_pmf<R, detail::traits::decay_t<Func>, detail::traits::decay_t<Ptr>, Args...>(
+                static_cast<detail::traits::decay_t<Func>>(std::forward<Func>(func)),
+                static_cast<detail::traits::decay_t<Ptr>>(std::forward<Ptr>(ptr))) }
             , m_pSignal{ signal }
         {}
 
         template<typename Func, typename Ptr>
         slot(Func&& func, Ptr&& ptr, detail::signal_base* signal = nullptr,
             detail::traits::enable_if_t<detail::traits::is_weak_ptr_convertable<Ptr>::value, void*> = nullptr)
-            : m_pImpl{ new detail::slot_pmf_tracked<R, Func, decltype(to_weak(std::forward<Ptr>(ptr))), Args...>(std::forward<Func>(func), to_weak(std::forward<Ptr>(ptr))) }
+            : m_pImpl{ new detail::slot_pmf_tracked<R, detail::traits::decay_t<Func>, decltype(to_weak(std::forward<Ptr>(ptr))), Args...>(
+                static_cast<detail::traits::decay_t<Func>>(std::forward<Func>(func)), to_weak(std::forward<Ptr>(ptr))) }
             , m_pSignal{ signal }
         {}
 
-- 
2.43.0


From 37f4ec61c9015cec0137f1d0903d750c0c36719c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:04:52 +0000
Subject: [PATCH 03/12] fix: signal::disconnect puts the slots it removes in
 the disconnected state

---
 signals.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/signals.hpp b/signals.hpp
index 8940635..dd84af7 100644
--- a/signals.hpp
+++ b/signals.hpp
@@ -1822,7 +1822,8 @@ namespace sig
             auto i = slot.index();
             auto& slots = m_Slots.write();
 
-            if (!slots.empty() && i < slots.size())
+            // The slot may already have been removed by signal::disconnect.
+            if (i < slots.size() && slots[i].get() == &slot)
             {
                 std::swap(slots[i], slots.back());
                 slots[i]->index() = i;
@@ -1846,6 +1847,7 @@ namespace sig
                 auto& s = *slots[i];
                 if (s == slot)
                 {
+                    s.state().disconnect();
                     std::swap(slots[i], slots.back());
                     slots[i]->index() = i;
                     slots.pop_back();
-- 
2.43.0


From 55230e66fa77946fa93345427b9649cc9479e4bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:04:56 +0000
Subject: [PATCH 04/12] fix: destroy slots removed by signal::disconnect
 outside of the lock

---
 signals.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/signals.hpp b/signals.hpp
index dd84af7..e09b53a 100644
--- a/signals.hpp
+++ b/signals.hpp
@@ -1837,6 +1837,9 @@ namespace sig
         template<typename Func>
         size_t erase(const slot<Func>& slot)
         {
+            // Keeps the removed slots alive until the mutex is unlocked, since
+            // destroying a callable can run code that uses this signal.
+            list_type removed;
             lock_type lock(m_SlotMutex);
             auto& slots = m_Slots.write();
 
@@ -1847,6 +1850,7 @@ namespace sig
                 auto& s = *slots[i];
                 if (s == slot)
                 {
+                    removed.push_back(slots[i]);
                     s.state().disconnect();
                     std::swap(slots[i], slots.back());
                     slots[i]->index() = i;
-- 
2.43.0


From 701b1047e6f5c4c28e39b02d600736f945f598b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:04:59 +0000
Subject: [PATCH 05/12] fix: connections do not refer to a destroyed signal

---
 signals.hpp | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/signals.hpp b/signals.hpp
index e09b53a..5dfd0ae 100644
--- a/signals.hpp
+++ b/signals.hpp
@@ -1670,7 +1670,12 @@ namespace sig
             : m_Blocked(false)
             , m_Slots(new list_type())
         {}
-        ~signal() = default;
+        ~signal()
+        {
+            // Slots can outlive the signal while it is being invoked, but their 
+            // connections must not refer to the signal anymore.
+            disconnect_slots(m_Slots);
+        }
 
         // Not copyable.
         signal(const signal&) = delete;
@@ -1865,6 +1870,15 @@ namespace sig
             return count;
         }
 
+        // Put all of the slots in the disconnected state.
+        static void disconnect_slots(const cow_type& slots)
+        {
+            for (auto& s : slots.read())
+            {
+                s->state().disconnect();
+            }
+        }
+
         void clear()
         {
             lock_type lock(m_SlotMutex);
-- 
2.43.0


From 775241a7a5f76ab22293586bef710fd34d8c07e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:05:03 +0000
Subject: [PATCH 06/12] fix: moving a signal keeps its connections working

---
 signals.hpp | 39 ++++++++++++++++++++++++++++++++-------
 1 file changed, 32 insertions(+), 7 deletions(-)

diff --git a/signals.hpp b/signals.hpp
index 5dfd0ae..5630d6b 100644
--- a/signals.hpp
+++ b/signals.hpp
@@ -1684,21 +1684,36 @@ namespace sig
 
         // Moveable.
         signal(signal&& other) noexcept
-            : m_Blocked(other.m_Blocked.load())
+            : m_Slots(new list_type())
+            , m_Blocked(other.m_Blocked.load())
         {
             lock_type lock(other.m_SlotMutex);
-            m_Slots = std::move(other.m_Slots);
+            std::swap(m_Slots, other.m_Slots);
+            adopt_slots();
         }
 
         // Move assignable.
         signal& operator=(signal&& other) noexcept
         {
-            lock_type lock1(m_SlotMutex, std::defer_lock);
-            lock_type lock2(other.m_SlotMutex, std::defer_lock);
-            std::lock(lock1, lock2);
+            if (this != &other)
+            {
+                // Receives the slots that are replaced. They are destroyed 
+                // after the mutexes are unlocked.
+                cow_type replaced(new list_type());
+
+                lock_type lock1(m_SlotMutex, std::defer_lock);
+                lock_type lock2(other.m_SlotMutex, std::defer_lock);
+                std::lock(lock1, lock2);
+
+                std::swap(replaced, m_Slots);
+                std::swap(m_Slots, other.m_Slots);
+                m_Blocked = other.m_Blocked.load();
 
-            m_Slots = std::move(other.m_Slots);
-            m_Blocked = other.m_Blocked.load();
+                disconnect_slots(replaced);
+                adopt_slots();
+            }
+
+            return *this;
         }
 
         // Connect a previously created slot
@@ -1870,6 +1885,16 @@ namespace sig
             return count;
         }
 
+        // Make all of the slots refer to this signal.
+        void adopt_slots()
+        {
+            const cow_type& slots = m_Slots;
+            for (auto& s : slots.read())
+            {
+                s->m_pSignal = this;
+            }
+        }
+
         // Put all of the slots in the disconnected state.
         static void disconnect_slots(const cow_type& slots)
         {
-- 
2.43.0


From 7cce41b963555e421a7cb6856da34725983cbde0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:05:06 +0000
Subject: [PATCH 07/12] fix: slots can be copied and copy-assigned, also when
 empty

---
 signals.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/signals.hpp b/signals.hpp
index 5630d6b..206010f 100644
--- a/signals.hpp
+++ b/signals.hpp
@@ -1267,7 +1267,8 @@ namespace sig
         {}
 
         // Slot that takes a function object.
-        template<typename Func>
+        template<typename Func,
+            typename = detail::traits::enable_if_t<!std::is_same<slot, detail::traits::remove_cvref_t<Func>>::value>>
         slot(Func&& func, detail::signal_base* signal = nullptr)
             : m_pImpl{ new detail::slot_func<R, detail::traits::decay_t<Func>, Args...>(static_cast<detail::traits::decay_t<Func>>(std::forward<Func>(func))) }
             , m_pSignal{ signal }
@@ -1293,7 +1294,7 @@ namespace sig
 
         // Copy constructor.
         slot(const slot& copy, detail::signal_base* signal = nullptr)
-            : m_pImpl{ copy.m_pImpl->clone() }
+            : m_pImpl{ copy.m_pImpl ? copy.m_pImpl->clone() : nullptr }
             , m_pSignal{ signal ? signal : copy.m_pSignal }
         {}
 
@@ -1316,7 +1317,7 @@ namespace sig
         {
             if (&other != this)
             {
-                m_pImpl.swap(other.m_pImpl->clone());
+                m_pImpl.reset(other.m_pImpl ? other.m_pImpl->clone() : nullptr);
                 m_pSignal = other.m_pSignal;
             }
             return *this;
-- 
2.43.0


From b02900d243550713c89c52a4521918163fe8ef1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:05:09 +0000
Subject: [PATCH 08/12] fix: a connection_blocker blocks its slot until it is
 destroyed

---
 signals.hpp | 35 ++++++++++++++++++++++++++++++++---
 1 file changed, 32 insertions(+), 3 deletions(-)

diff --git a/signals.hpp b/signals.hpp
index 206010f..7b689fd 100644
--- a/signals.hpp
+++ b/signals.hpp
@@ -681,6 +681,7 @@ namespace sig
                 : m_Index(0)
                 , m_Connected(true)
                 , m_Blocked(false)
+                , m_Blockers(0)
             {}
 
             // Atomic variables are not CopyConstructible.
@@ -689,12 +690,14 @@ namespace sig
                 : m_Index(s.m_Index)
                 , m_Connected(s.m_Connected.load())
                 , m_Blocked(s.m_Blocked.load())
+                , m_Blockers(0)
             {}
 
             slot_state(slot_state&& s) noexcept
                 : m_Index(s.m_Index)
                 , m_Connected(s.m_Connected.load())
                 , m_Blocked(s.m_Blocked.load())
+                , m_Blockers(0)
             {}
 
             virtual ~slot_state() = default;
@@ -729,7 +732,7 @@ namespace sig
 
             bool blocked() const noexcept
             {
-                return m_Blocked;
+                return m_Blocked || m_Blockers > 0;
             }
 
             void block() noexcept
@@ -742,6 +745,17 @@ namespace sig
                 m_Blocked = false;
             }
 
+            // Block until a matching call to remove_blocker.
+            void add_blocker() noexcept
+            {
+                ++m_Blockers;
+            }
+
+            void remove_blocker() noexcept
+            {
+                --m_Blockers;
+            }
+
             std::size_t& index()
             {
                 return m_Index;
@@ -751,6 +765,7 @@ namespace sig
             std::size_t m_Index;
             std::atomic_bool m_Connected;
             std::atomic_bool m_Blocked;
+            std::atomic<std::size_t> m_Blockers;    // The number of connection_blockers.
         };
 
         // Base class for slot implementations.
@@ -1232,6 +1247,8 @@ namespace sig
         public:
             virtual void block() = 0;
             virtual void unblock() = 0;
+            virtual void add_blocker() = 0;
+            virtual void remove_blocker() = 0;
             virtual bool connected() const noexcept = 0;
             virtual bool blocked() const noexcept = 0;
             virtual bool disconnect() = 0;
@@ -1389,6 +1406,18 @@ namespace sig
                 m_pImpl->unblock();
         }
 
+        void add_blocker() noexcept
+        {
+            if (m_pImpl)
+                m_pImpl->add_blocker();
+        }
+
+        void remove_blocker() noexcept
+        {
+            if (m_pImpl)
+                m_pImpl->remove_blocker();
+        }
+
         // Invoke the slot.
         opt::optional<R> operator()(Args&&... args)
         {
@@ -1466,7 +1495,7 @@ namespace sig
         {
             if (auto s = m_Slot.lock())
             {
-                s->block();
+                s->add_blocker();
             }
         }
 
@@ -1474,7 +1503,7 @@ namespace sig
         {
             if (auto s = m_Slot.lock())
             {
-                s->unblock();
+                s->remove_blocker();
             }
         }
 
-- 
2.43.0


From 5ac7a8049be591bd7844a5476cded5c8c1314f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:05:12 +0000
Subject: [PATCH 09/12] fix: data race between modifying a cow_ptr and
 releasing its last copy

---
 signals.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/signals.hpp b/signals.hpp
index 7b689fd..b0b5d75 100644
--- a/signals.hpp
+++ b/signals.hpp
@@ -652,6 +652,12 @@ namespace sig
                     // creating a new instance of the stored object.
                     *this = cow_ptr(new T(*m_Ptr));
                 }
+                else
+                {
+                    // Synchronize with the release of other copies of this
+                    // pointer before the object is modified in-place.
+                    std::atomic_thread_fence(std::memory_order_acquire);
+                }
             }
 
             pointer_type m_Ptr;
-- 
2.43.0


From cc03d006676ea533e02803505405687920be0586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:05:17 +0000
Subject: [PATCH 10/12] fix: a scalar optional is disengaged if emplace throws

---
 optional.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/optional.hpp b/optional.hpp
index 8a8a9f3..062bd44 100644
--- a/optional.hpp
+++ b/optional.hpp
@@ -642,6 +642,7 @@ namespace opt
             template<class... Args>
             void emplace_assign(Args&&... args)
             {
+                destroy();
                 construct(in_place, std::forward<Args>(args)...);
             }
 
-- 
2.43.0


From 4afe0789e47c7697f1450f1e6f1efdba9a379434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:35:48 +0000
Subject: [PATCH 11/12] fix: running out of memory while copying a cow_ptr
 throws instead of terminating

---
 signals.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/signals.hpp b/signals.hpp
index b0b5d75..97b5781 100644
--- a/signals.hpp
+++ b/signals.hpp
@@ -518,7 +518,7 @@ namespace sig
             constexpr cow_ptr() noexcept = default;
             ~cow_ptr() = default;
 
-            constexpr explicit cow_ptr(T* other) noexcept
+            constexpr explicit cow_ptr(T* other)
                 : m_Ptr(other)
             {}
 
@@ -549,7 +549,7 @@ namespace sig
             }
 
             // Assign from other value.
-            cow_ptr& operator=(T* other) noexcept
+            cow_ptr& operator=(T* other)
             {
                 m_Ptr = pointer_type(other);
                 return *this;
-- 
2.43.0


From 5b50577399f0fb348fc1d4cb8cdd584b18c2c8c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:23:35 +0000
Subject: [PATCH 12/12] fix: a slot stays blocked when block() takes over from
 a connection_blocker

---
 signals.hpp | 29 ++++++++++++++---------------
 1 file changed, 14 insertions(+), 15 deletions(-)

diff --git a/signals.hpp b/signals.hpp
index 97b5781..8191b0f 100644
--- a/signals.hpp
+++ b/signals.hpp
@@ -686,8 +686,7 @@ namespace sig
             constexpr slot_state() noexcept
                 : m_Index(0)
                 , m_Connected(true)
-                , m_Blocked(false)
-                , m_Blockers(0)
+                , m_Blocked(0)
             {}
 
             // Atomic variables are not CopyConstructible.
@@ -695,15 +694,13 @@ namespace sig
             slot_state(const slot_state& s) noexcept
                 : m_Index(s.m_Index)
                 , m_Connected(s.m_Connected.load())
-                , m_Blocked(s.m_Blocked.load())
-                , m_Blockers(0)
+                , m_Blocked(s.m_Blocked.load() & 1)
             {}
 
             slot_state(slot_state&& s) noexcept
                 : m_Index(s.m_Index)
                 , m_Connected(s.m_Connected.load())
-                , m_Blocked(s.m_Blocked.load())
-                , m_Blockers(0)
+                , m_Blocked(s.m_Blocked.load() & 1)
             {}
 
             virtual ~slot_state() = default;
@@ -712,7 +709,7 @@ namespace sig
             {
                 m_Index = s.m_Index;
                 m_Connected = s.m_Connected.load();
-                m_Blocked = s.m_Blocked.load();
+                (s.m_Blocked & 1) ? block() : unblock();
 
                 return *this;
             }
@@ -721,7 +718,7 @@ namespace sig
             {
                 m_Index = s.m_Index;
                 m_Connected.store(s.m_Connected.load());
-                m_Blocked.store(s.m_Blocked.load());
+                (s.m_Blocked & 1) ? block() : unblock();
 
                 return *this;
             }
@@ -738,28 +735,28 @@ namespace sig
 
             bool blocked() const noexcept
             {
-                return m_Blocked || m_Blockers > 0;
+                return m_Blocked != 0;
             }
 
             void block() noexcept
             {
-                m_Blocked = true;
+                m_Blocked |= 1;
             }
 
             void unblock() noexcept
             {
-                m_Blocked = false;
+                m_Blocked &= ~std::size_t(1);
             }
 
             // Block until a matching call to remove_blocker.
             void add_blocker() noexcept
             {
-                ++m_Blockers;
+                m_Blocked += 2;
             }
 
             void remove_blocker() noexcept
             {
-                --m_Blockers;
+                m_Blocked -= 2;
             }
 
             std::size_t& index()
@@ -770,8 +767,10 @@ namespace sig
         private:
             std::size_t m_Index;
             std::atomic_bool m_Connected;
-            std::atomic_bool m_Blocked;
-            std::atomic<std::size_t> m_Blockers;    // The number of connection_blockers.
+            // Bit 0 is set while the slot is blocked by block(), the other bits 
+            // count the connection_blockers. A single variable, so that one
+            // can take over from the other without the slot being unblocked.
+            std::atomic<std::size_t> m_Blocked;
         };
 
         // Base class for slot implementations.
-- 
2.43.0

