From 305fe8fcb6b419d2b5a58b1940957247f1240405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:18 +0000
Subject: [PATCH 001/178] fix: add missing 'template' disambiguator in
 switchable_mutex

Without it the dependent member template calls are ill-formed and neither
g++ nor clang compiles core/mutex.hpp or anything that includes it.
---
 include/neolib/core/mutex.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/neolib/core/mutex.hpp b/include/neolib/core/mutex.hpp
index 737b783..c48e400 100644
--- a/include/neolib/core/mutex.hpp
+++ b/include/neolib/core/mutex.hpp
@@ -472,19 +472,19 @@ namespace neolib
     public:
         void set_single_threaded()
         {
-            iActiveMutex.emplace<neolib::null_mutex>();
+            iActiveMutex.template emplace<neolib::null_mutex>();
         }
         void set_multi_threaded()
         {
-            iActiveMutex.emplace<std::recursive_mutex>();
+            iActiveMutex.template emplace<std::recursive_mutex>();
         }
         void set_multi_threaded_profiled()
         {
-            iActiveMutex.emplace<neolib::recursive_mutex<ProfilerTag>>();
+            iActiveMutex.template emplace<neolib::recursive_mutex<ProfilerTag>>();
         }
         void set_multi_threaded_spinlock()
         {
-            iActiveMutex.emplace<neolib::recursive_mutex<ProfilerTag, true>>();
+            iActiveMutex.template emplace<neolib::recursive_mutex<ProfilerTag, true>>();
         }
     public:
         void lock() noexcept final
-- 
2.43.0


From c9e70ab65ed4e31863a54fce992c75fd265d3450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:06 +0000
Subject: [PATCH 002/178] fix: gap_vector: open a gap big enough for the
 inserted elements, ignore insertion of nothing

---
 include/neolib/core/gap_vector.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/neolib/core/gap_vector.hpp b/include/neolib/core/gap_vector.hpp
index 396d8bb..6f64b79 100644
--- a/include/neolib/core/gap_vector.hpp
+++ b/include/neolib/core/gap_vector.hpp
@@ -692,6 +692,8 @@ namespace neolib
         }
         constexpr pointer allocate_from_gap(const_iterator aPosition, size_type aCount)
         {
+            if (aCount == 0)
+                return std::next(begin(), std::distance(cbegin(), aPosition)).base();
             if (near_gap(aPosition) && aCount <= gap_size())
             {
                 auto const posIndex = std::distance(cbegin(), aPosition);
@@ -745,7 +747,7 @@ namespace neolib
                 if (room() < aCount)
                     grow(aCount);
                 auto const pos = std::next(iData, posIndex);
-                auto const initialGapSize = std::min(room(), DefaultGapSize);
+                auto const initialGapSize = std::min(room(), std::max(DefaultGapSize, aCount));
                 auto src = iDataEnd;
                 auto dest = std::next(iDataEnd, initialGapSize);
                 while (src != pos)
-- 
2.43.0


From 89890596eda5e0a390ba27578e8c6172e57d3048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:06 +0000
Subject: [PATCH 003/178] fix: gap_vector: destroy moved-from elements when
 reallocating and when opening a gap

---
 include/neolib/core/gap_vector.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/neolib/core/gap_vector.hpp b/include/neolib/core/gap_vector.hpp
index 6f64b79..ef90a00 100644
--- a/include/neolib/core/gap_vector.hpp
+++ b/include/neolib/core/gap_vector.hpp
@@ -472,6 +472,8 @@ namespace neolib
 
                 iDataEnd = std::uninitialized_move(existingData, existingDataEnd, iData);
 
+                for (auto garbage = existingData; garbage != existingDataEnd; ++garbage)
+                    std::allocator_traits<allocator_type>::destroy(iAlloc, garbage);
                 std::allocator_traits<allocator_type>::deallocate(iAlloc, existingData, existingCapacity);
             }
             catch(...)
@@ -759,7 +761,7 @@ namespace neolib
                     else
                         *dest = std::move(*src);
                 };
-                auto const garbageCount = std::min<size_type>(aCount, iDataEnd - pos);
+                auto const garbageCount = std::min<size_type>(initialGapSize, iDataEnd - pos);
                 for (auto garbage = std::next(pos, garbageCount); garbage != pos;)
                     std::allocator_traits<allocator_type>::destroy(iAlloc, --garbage);
                 std::advance(iDataEnd, initialGapSize);
-- 
2.43.0


From 3ad71f6a34e36e8ee827ecde78867b3dd798cf7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:06 +0000
Subject: [PATCH 004/178] fix: gap_vector: inserting an own element and
 self-assignment

---
 include/neolib/core/gap_vector.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/neolib/core/gap_vector.hpp b/include/neolib/core/gap_vector.hpp
index ef90a00..0af25b3 100644
--- a/include/neolib/core/gap_vector.hpp
+++ b/include/neolib/core/gap_vector.hpp
@@ -294,6 +294,8 @@ namespace neolib
     public:
         constexpr gap_vector& operator=(const gap_vector& other)
         {
+            if (&other == this)
+                return *this;
             assign(other.begin(), other.end());
             return *this;
         }
@@ -565,8 +567,9 @@ namespace neolib
         }
         constexpr iterator insert(const_iterator pos, value_type const& value)
         {
+            value_type newValue{ value }; // value may be one of our own elements
             auto const memory = allocate_from_gap(pos, 1);
-            std::allocator_traits<allocator_type>::construct(iAlloc, memory, value);
+            std::allocator_traits<allocator_type>::construct(iAlloc, memory, std::move(newValue));
             return iterator{ *this, memory };
         }
         constexpr iterator insert(const_iterator pos, value_type&& value)
@@ -577,8 +580,9 @@ namespace neolib
         }
         constexpr iterator insert(const_iterator pos, size_type count, value_type const& value)
         {
+            value_type const newValue{ value }; // value may be one of our own elements
             auto const memory = allocate_from_gap(pos, count);
-            std::uninitialized_fill_n(memory, count, value);
+            std::uninitialized_fill_n(memory, count, newValue);
             return iterator{ *this, memory };
         }
         template<class InputIt>
-- 
2.43.0


From 6174910f6781425fa46fb7ebeb7d64affd2bb380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:28 +0000
Subject: [PATCH 005/178] fix: segmented_array: inserting an own element

---
 include/neolib/core/segmented_array.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/neolib/core/segmented_array.hpp b/include/neolib/core/segmented_array.hpp
index 1e28731..f58d507 100644
--- a/include/neolib/core/segmented_array.hpp
+++ b/include/neolib/core/segmented_array.hpp
@@ -521,9 +521,10 @@ namespace neolib
         iterator insert(const_iterator aPosition, size_type aCount, const value_type& aValue)
         {
             auto pos = aPosition.iContainerPosition;
+            value_type const value{ aValue }; // aValue may be one of our own elements
             while (aCount > 0)
             {
-                aPosition = insert(aPosition, &aValue, &aValue+1);
+                aPosition = insert(aPosition, &value, &value+1);
                 ++aPosition;
                 --aCount;
             }
-- 
2.43.0


From 1030167f5fc8681cde1b840067196fc7dd520b3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:47 +0000
Subject: [PATCH 006/178] fix: segmented_array: do not move the tail into a
 following segment that cannot hold it

---
 include/neolib/core/segmented_array.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/neolib/core/segmented_array.hpp b/include/neolib/core/segmented_array.hpp
index f58d507..dfe87bc 100644
--- a/include/neolib/core/segmented_array.hpp
+++ b/include/neolib/core/segmented_array.hpp
@@ -746,7 +746,7 @@ namespace neolib
             if (aPosition.iNode == nullptr)
                 aPosition = begin();
             segment_type& segment = aPosition.iNode->segment();
-            if (aPosition.iSegmentPosition < segment.size() && available(nextNode->segment()) < segment.size() - aPosition.iSegmentPosition)
+            if (aPosition.iSegmentPosition < segment.size() && available((lastNode ? lastNode : nextNode)->segment()) < segment.size() - aPosition.iSegmentPosition)
                 lastNode = allocate_node(nextNode);
             return lastNode ? lastNode : nextNode;
         }
-- 
2.43.0


From 11bb3b7e6e933f103e9d86787ebe0da00ec77461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:21 +0000
Subject: [PATCH 007/178] fix: tag_array: read the tag of a copied element
 before stepping past it

---
 include/neolib/core/tag_array.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/neolib/core/tag_array.hpp b/include/neolib/core/tag_array.hpp
index 847d93e..95d34d7 100644
--- a/include/neolib/core/tag_array.hpp
+++ b/include/neolib/core/tag_array.hpp
@@ -457,8 +457,9 @@ namespace neolib
             auto pos = aPosition.iContainerPosition;
             while (aFirst != aLast)
             {
-                aPosition = insert(aFirst.segment().tag(), aPosition, 1, *aFirst++);
+                aPosition = insert(aFirst.segment().tag(), aPosition, 1, *aFirst);
                 ++aPosition;
+                ++aFirst;
             }
             return iterator(*this, pos);
         }
-- 
2.43.0


From 65528864c7c512289e81b275b8cc36a9686854f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:35 +0000
Subject: [PATCH 008/178] fix: tag_array: do not move the tail into a following
 segment that cannot hold it

---
 include/neolib/core/tag_array.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/neolib/core/tag_array.hpp b/include/neolib/core/tag_array.hpp
index 95d34d7..7405502 100644
--- a/include/neolib/core/tag_array.hpp
+++ b/include/neolib/core/tag_array.hpp
@@ -686,7 +686,7 @@ namespace neolib
             if (aPosition.iNode == nullptr)
                 aPosition = begin();
             segment_type& segment = aPosition.iNode->segment();
-            if (aPosition.iSegmentPosition < segment.size() && (available(nextNode->segment()) < segment.size() - aPosition.iSegmentPosition || segment.tag() != aTag))
+            if (aPosition.iSegmentPosition < segment.size() && (available((lastNode ? lastNode : nextNode)->segment()) < segment.size() - aPosition.iSegmentPosition || segment.tag() != aTag))
                 lastNode = allocate_node(segment.tag(), nextNode);
             return lastNode ? lastNode : nextNode;
         }
-- 
2.43.0


From a6333508f4304c08118baca486d381dff2abedcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:08 +0000
Subject: [PATCH 009/178] fix: tag_array: inserting an own element and
 self-assignment

---
 include/neolib/core/tag_array.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/neolib/core/tag_array.hpp b/include/neolib/core/tag_array.hpp
index 7405502..cf34b99 100644
--- a/include/neolib/core/tag_array.hpp
+++ b/include/neolib/core/tag_array.hpp
@@ -370,6 +370,8 @@ namespace neolib
     public:
         tag_array& operator=(const tag_array& aRhs)
         {
+            if (&aRhs == this)
+                return *this;
             clear();
             insert(begin(), aRhs.begin(), aRhs.end());
             return *this;
@@ -472,9 +474,11 @@ namespace neolib
         iterator insert(const tag_type& aTag, const_iterator aPosition, size_type aCount, const value_type& aValue)
         {
             auto pos = aPosition.iContainerPosition;
+            tag_type const tag{ aTag }; // aTag may be the tag of one of our own segments
+            value_type const value{ aValue }; // aValue may be one of our own elements
             while (aCount > 0)
             {
-                aPosition = insert(aTag, aPosition, &aValue, &aValue+1);
+                aPosition = insert(tag, aPosition, &value, &value+1);
                 ++aPosition;
                 --aCount;
             }
-- 
2.43.0


From 20f16ac33a3db74d0e29900c0ad9df9a105581b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:44 +0000
Subject: [PATCH 010/178] fix: indexitor: use the node's own foreign length,
 not its subtree's, in look-up and at the end

---
 include/neolib/core/indexitor.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/neolib/core/indexitor.hpp b/include/neolib/core/indexitor.hpp
index c8fa962..52e3048 100644
--- a/include/neolib/core/indexitor.hpp
+++ b/include/neolib/core/indexitor.hpp
@@ -514,7 +514,7 @@ namespace neolib
             auto n = base_type::find_node_by_foreign_index(aForeignIndex, nodeIndex, nodeForeignIndex, aPred);
             if (!n->is_nil() &&
                 !aPred(aForeignIndex - nodeForeignIndex, static_cast<node*>(n)->skip().first) &&
-                aPred(aForeignIndex - nodeForeignIndex, static_cast<node*>(n)->foreign_index() - static_cast<node*>(n)->skip().second))
+                aPred(aForeignIndex - nodeForeignIndex, static_cast<node*>(n)->centre_foreign_index() - static_cast<node*>(n)->skip().second))
                 return std::make_pair(const_iterator{*this, static_cast<node*>(n)}, nodeForeignIndex + static_cast<node*>(n)->skip().first);
             else
                 return std::make_pair(end(), foreign_index(end()));
@@ -527,7 +527,7 @@ namespace neolib
             auto n = base_type::find_node_by_foreign_index(aForeignIndex, nodeIndex, nodeForeignIndex, aPred);
             if (!n->is_nil() && 
                 !aPred(aForeignIndex - nodeForeignIndex, static_cast<node*>(n)->skip().first) &&
-                aPred(aForeignIndex - nodeForeignIndex, static_cast<node*>(n)->foreign_index() - static_cast<node*>(n)->skip().second))
+                aPred(aForeignIndex - nodeForeignIndex, static_cast<node*>(n)->centre_foreign_index() - static_cast<node*>(n)->skip().second))
                 return std::make_pair(iterator{*this, static_cast<node*>(n)}, nodeForeignIndex + static_cast<node*>(n)->skip().first);
             else
                 return std::make_pair(end(), foreign_index(end()));
@@ -537,7 +537,7 @@ namespace neolib
             if (aPosition.iNode != nullptr)
                 return do_foreign_index(aPosition.iNode) + aPosition.iNode->skip().first;
             else
-                return empty() ? foreign_index_type{} : do_foreign_index(static_cast<const node*>(base_type::back_node())) + base_type::back_node()->foreign_index();
+                return empty() ? foreign_index_type{} : do_foreign_index(static_cast<const node*>(base_type::back_node())) + base_type::back_node()->centre_foreign_index();
         }
         foreign_index_type skip_before(const_iterator aPosition) const
         {
-- 
2.43.0


From 6715bc35209801c22b8f3cddb0813878467604e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:25 +0000
Subject: [PATCH 011/178] fix: indexitor: copies keep the skips

---
 include/neolib/core/indexitor.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/neolib/core/indexitor.hpp b/include/neolib/core/indexitor.hpp
index 52e3048..fd28b62 100644
--- a/include/neolib/core/indexitor.hpp
+++ b/include/neolib/core/indexitor.hpp
@@ -315,7 +315,8 @@ namespace neolib
         indexitor(const indexitor& aOther, const Alloc& aAllocator = Alloc()) :
             iAllocator(aAllocator), iSize(0)
         {
-            insert(begin(), aOther.begin(), aOther.end());
+            for (auto i = aOther.begin(); i != aOther.end(); ++i)
+                push_back(*i, skip_type{ aOther.skip_before(i), aOther.skip_after(i) });
         }
         ~indexitor()
         {
-- 
2.43.0


From d10ab57c356c88fbb48d0bedaa65760bc401db7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:57 +0000
Subject: [PATCH 012/178] fix: recursive_mutex: contention metrics read another
 thread's thread-local id

---
 include/neolib/core/mutex.hpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/include/neolib/core/mutex.hpp b/include/neolib/core/mutex.hpp
index c48e400..2a1b1e7 100644
--- a/include/neolib/core/mutex.hpp
+++ b/include/neolib/core/mutex.hpp
@@ -383,8 +383,7 @@ namespace neolib
                     {
                         if (enhancedMetrics)
                         {
-                            auto const lockingThread = iLockingThread.load();
-                            m.emplace_back(lockingThread != nullptr ? *lockingThread : std::thread::id{}, std::chrono::microseconds{});
+                            m.emplace_back(iLockingThreadId.load(std::memory_order_relaxed), std::chrono::microseconds{});
                         }
                     },
                     [&]
@@ -411,6 +410,7 @@ namespace neolib
             {
                 acquire_lock([]{}, []{}, []{});
             }
+            iLockingThreadId.store(*thisThread, std::memory_order_relaxed);
 #endif
             iLockingThread.store(thisThread, std::memory_order_relaxed);
             ++iLockCount;
@@ -421,6 +421,9 @@ namespace neolib
             if (--iLockCount == 0u)
             {
                 iLockingThread.store(nullptr, std::memory_order_relaxed);
+#if defined(NEOS_PROFILE_MUTEX)
+                iLockingThreadId.store(std::thread::id{}, std::memory_order_relaxed);
+#endif
                 iState.clear(std::memory_order_release);
                 iState.notify_one();
             }
@@ -437,6 +440,9 @@ namespace neolib
             }
             if (iState.test_and_set(std::memory_order_acquire))
                 return false;
+#if defined(NEOS_PROFILE_MUTEX)
+            iLockingThreadId.store(*thisThread, std::memory_order_relaxed);
+#endif
             iLockingThread.store(thisThread, std::memory_order_relaxed);
             ++iLockCount;
             return true;
@@ -456,6 +462,7 @@ namespace neolib
         std::atomic<this_thread::lightweight::thread_id> iLockingThread;
         std::atomic_flag iState;
 #if defined(NEOS_PROFILE_MUTEX)
+        std::atomic<std::thread::id> iLockingThreadId = {};
         std::atomic<std::uint32_t> iPathologicalContentionCounter = 0u;
         std::uint64_t iGeneration = 0u;
 #endif
-- 
2.43.0


From b4a2d68b47c7ff9279549b1aff6f42a02c935b01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:27 +0000
Subject: [PATCH 013/178] fix: thread: make the thread id atomic, it is read
 without the lock

---
 include/neolib/task/thread.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/neolib/task/thread.hpp b/include/neolib/task/thread.hpp
index 47306b2..1cd7e0e 100644
--- a/include/neolib/task/thread.hpp
+++ b/include/neolib/task/thread.hpp
@@ -135,7 +135,7 @@ namespace neolib
         std::optional<std::function<void()>> iExecFunction;
         std::atomic<thread_state> iState;
         thread_object_pointer iThreadObject;
-        id_type iId;
+        std::atomic<id_type> iId;
         std::atomic<std::size_t> iBlockedCount;
     };
 }
-- 
2.43.0


From 03c906faa9040970684e03c3561ed13afcf6968d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:28 +0000
Subject: [PATCH 014/178] fix: thread: aborting, cancelling or destroying a
 thread that was never started

---
 src/task/thread.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/task/thread.cpp b/src/task/thread.cpp
index 2b606be..05ff739 100644
--- a/src/task/thread.cpp
+++ b/src/task/thread.cpp
@@ -182,6 +182,11 @@ namespace neolib
         {
             return;
         }
+        if (!started() && !using_existing_thread())
+        {
+            iState = thread_state::Finished;
+            return;
+        }
         lock = std::nullopt;
         if (!in())
         {
@@ -206,6 +211,11 @@ namespace neolib
         {
             return;
         }
+        if (!started() && !using_existing_thread())
+        {
+            iState = thread_state::Finished;
+            return;
+        }
         lock = std::nullopt;
         if (in())
         {
-- 
2.43.0


From 73026a835e658b19944173124104447dbd218117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:28 +0000
Subject: [PATCH 015/178] fix: thread: a cancelled thread ends instead of
 terminating the process

---
 src/task/thread.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/task/thread.cpp b/src/task/thread.cpp
index 05ff739..6979d32 100644
--- a/src/task/thread.cpp
+++ b/src/task/thread.cpp
@@ -406,6 +406,10 @@ namespace neolib
                     iState = thread_state::Finished;
             }
         }
+        catch(const cancellation&)
+        {
+            // thread was cancelled or aborted
+        }
         catch(const std::exception& aException)
         {
             std::cerr << std::string("Thread terminating due to an uncaught exception being thrown (") + aException.what() + ")." << std::endl;
-- 
2.43.0


From bb6719988a0be5c8946042297a4b0aeec5541c02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:01 +0000
Subject: [PATCH 016/178] fix: thread: serialise joining, and wait() against
 start()

---
 include/neolib/task/thread.hpp |  2 ++
 src/task/thread.cpp            | 18 ++++++++++++++----
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/include/neolib/task/thread.hpp b/include/neolib/task/thread.hpp
index 1cd7e0e..c964062 100644
--- a/include/neolib/task/thread.hpp
+++ b/include/neolib/task/thread.hpp
@@ -126,10 +126,12 @@ namespace neolib
         // own
         void exec_preamble() override;
         void exec(yield_type aYieldType = yield_type::NoYield) override;
+        void join() const;
         void entry_point();
         // attributes
     private:
         mutable std::recursive_mutex iMutex;
+        mutable std::mutex iJoinMutex;
         const std::string iName;
         bool iUsingExistingThread;
         std::optional<std::function<void()>> iExecFunction;
diff --git a/src/task/thread.cpp b/src/task/thread.cpp
index 6979d32..b4ee3a7 100644
--- a/src/task/thread.cpp
+++ b/src/task/thread.cpp
@@ -126,8 +126,8 @@ namespace neolib
     {
         if (!finished() && !using_existing_thread())
             abort();
-        if (has_thread_object() && thread_object().joinable())
-            thread_object().join();
+        if (has_thread_object())
+            join();
     }
 
     const std::string& thread::name() const noexcept
@@ -239,8 +239,7 @@ namespace neolib
             throw thread_not_started();
         if (in())
             throw cannot_wait_on_self();
-        if (thread_object().joinable())
-            thread_object().join();
+        join();
     }
 
     wait_result thread::wait(const waitable_event_list& aEventList) const
@@ -386,6 +385,17 @@ namespace neolib
             throw nothing_to_do();
     }
 
+    void thread::join() const
+    {
+        {
+            std::scoped_lock<std::recursive_mutex> lock{ iMutex }; // start() creates the thread object with this locked
+            thread_object();
+        }
+        std::scoped_lock<std::mutex> lock{ iJoinMutex };
+        if (thread_object().joinable())
+            thread_object().join();
+    }
+
     void thread::entry_point()
     {
         {
-- 
2.43.0


From 2c60f42f2ca02a8aeb1571f7c3df7d1ecbf9dd44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:01 +0000
Subject: [PATCH 017/178] fix: thread: waiting together with events or messages
 notices the end of the thread

---
 include/neolib/task/thread.hpp | 1 +
 src/task/thread.cpp            | 9 ++++++++-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/neolib/task/thread.hpp b/include/neolib/task/thread.hpp
index c964062..78335c7 100644
--- a/include/neolib/task/thread.hpp
+++ b/include/neolib/task/thread.hpp
@@ -139,5 +139,6 @@ namespace neolib
         thread_object_pointer iThreadObject;
         std::atomic<id_type> iId;
         std::atomic<std::size_t> iBlockedCount;
+        std::atomic<bool> iExited = false;
     };
 }
diff --git a/src/task/thread.cpp b/src/task/thread.cpp
index b4ee3a7..0669acc 100644
--- a/src/task/thread.cpp
+++ b/src/task/thread.cpp
@@ -185,6 +185,7 @@ namespace neolib
         if (!started() && !using_existing_thread())
         {
             iState = thread_state::Finished;
+            iExited = true;
             return;
         }
         lock = std::nullopt;
@@ -214,6 +215,7 @@ namespace neolib
         if (!started() && !using_existing_thread())
         {
             iState = thread_state::Finished;
+            iExited = true;
             return;
         }
         lock = std::nullopt;
@@ -370,7 +372,7 @@ namespace neolib
 
     bool thread::waitable_ready() const noexcept
     {
-        return thread_object().get_id() == std::thread::id();
+        return iExited;
     }
 
     void thread::exec_preamble()
@@ -398,6 +400,11 @@ namespace neolib
 
     void thread::entry_point()
     {
+        struct exited
+        {
+            std::atomic<bool>& flag;
+            ~exited() { flag = true; }
+        } exited{ iExited };
         {
             std::scoped_lock<std::recursive_mutex> lock{ iMutex };
             if (iState != thread_state::Starting)
-- 
2.43.0


From a4ee12b3be7f3242c86d731c3af030d751a1e932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:01 +0000
Subject: [PATCH 018/178] fix: waitable_event: a timed wait succeeds exactly
 when it consumes a signal

---
 src/task/waitable_event.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/task/waitable_event.cpp b/src/task/waitable_event.cpp
index 10835fe..f51ce97 100644
--- a/src/task/waitable_event.cpp
+++ b/src/task/waitable_event.cpp
@@ -73,13 +73,11 @@ namespace neolib
 
     bool waitable_event::wait(uint32_t aTimeout_ms) const
     {
-        bool result = true;
         std::unique_lock<std::mutex> lock(iMutex);
         ++iTotalWaiting;
-        if (!iReady)
-            result = (iCondVar.wait_for(lock, std::chrono::milliseconds(aTimeout_ms)) == std::cv_status::no_timeout);
+        bool const result = iCondVar.wait_for(lock, std::chrono::milliseconds(aTimeout_ms), [&]() { return iReady; });
         --iTotalWaiting;
-        if (result && iSignalType == SignalOne || iTotalWaiting == 0)
+        if (result && (iSignalType == SignalOne || iTotalWaiting == 0))
             iReady = false;
         return result;
     }
-- 
2.43.0


From 6e49c590657c3dbdc8b196627f6331e9f9465bbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:23 +0000
Subject: [PATCH 019/178] fix: waitable_event: signal_one must not cancel a
 pending signal_all

---
 src/task/waitable_event.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/task/waitable_event.cpp b/src/task/waitable_event.cpp
index f51ce97..62aa5ce 100644
--- a/src/task/waitable_event.cpp
+++ b/src/task/waitable_event.cpp
@@ -40,15 +40,16 @@
 
 namespace neolib
 {
-    waitable_event::waitable_event() : iReady(false), iTotalWaiting(0)
+    waitable_event::waitable_event() : iReady(false), iTotalWaiting(0), iSignalType(SignalOne)
     {
     }
 
     void waitable_event::signal_one() const
     {
         std::scoped_lock<std::mutex> lock(iMutex);
+        if (!iReady || iTotalWaiting == 0) // otherwise a pending signal_all would be lost
+            iSignalType = SignalOne;
         iReady = true;
-        iSignalType = SignalOne;
         iCondVar.notify_one();
     }
 
-- 
2.43.0


From 93529e61a6b8e3646f09412452a56d12e0dc17c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:32 +0000
Subject: [PATCH 020/178] fix: function_task: an exception reaches the future
 instead of terminating the process

---
 include/neolib/task/task.hpp | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/include/neolib/task/task.hpp b/include/neolib/task/task.hpp
index b812a18..8002224 100644
--- a/include/neolib/task/task.hpp
+++ b/include/neolib/task/task.hpp
@@ -97,7 +97,14 @@ namespace neolib
         }
         void run(yield_type) override
         {
-            iPromise.set_value(iFunction());
+            try
+            {
+                iPromise.set_value(iFunction());
+            }
+            catch (...)
+            {
+                iPromise.set_exception(std::current_exception());
+            }
         }
     private:
         std::function<T()> iFunction;
@@ -107,7 +114,15 @@ namespace neolib
     template <>
     inline void function_task<void>::run(yield_type)
     {
-        iFunction();
+        try
+        {
+            iFunction();
+        }
+        catch (...)
+        {
+            iPromise.set_exception(std::current_exception());
+            return;
+        }
         iPromise.set_value();
     }
 }
-- 
2.43.0


From b0618f71247f7a87dc70379874b913d134b34517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:32 +0000
Subject: [PATCH 021/178] fix: parallel_apply: division by zero when the pool
 has no threads

---
 include/neolib/task/thread_pool.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/neolib/task/thread_pool.hpp b/include/neolib/task/thread_pool.hpp
index 4b560e4..c21f1c1 100644
--- a/include/neolib/task/thread_pool.hpp
+++ b/include/neolib/task/thread_pool.hpp
@@ -115,7 +115,7 @@ namespace neolib
     {
         if (aThreadPool.stopped())
             return;
-        if (aContainer.size() < aMinimumParallelismCount)
+        if (aContainer.size() < aMinimumParallelismCount || aThreadPool.max_threads() == 0)
         {
             for (auto& e : aContainer)
                 aFunction(e);
-- 
2.43.0


From 15c610bd9d27a7abc73b8f49671c92d89ae48b7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:32 +0000
Subject: [PATCH 022/178] fix: thread_pool: wake every waiter when the pool
 goes idle or is stopped

---
 src/task/thread_pool.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/task/thread_pool.cpp b/src/task/thread_pool.cpp
index aeb5f77..117c10c 100644
--- a/src/task/thread_pool.cpp
+++ b/src/task/thread_pool.cpp
@@ -322,7 +322,7 @@ namespace neolib
                 std::unique_lock lk(iWaitMutex);
                 iStopped = true;
             }
-            iWaitConditionVariable.notify_one();
+            iWaitConditionVariable.notify_all();
         }
     }
 
@@ -355,7 +355,7 @@ namespace neolib
     void thread_pool::thread_gone_idle()
     {
         update_idle();
-        iWaitConditionVariable.notify_one();
+        iWaitConditionVariable.notify_all();
     }
 
     void thread_pool::thread_gone_busy()
-- 
2.43.0


From 953e4e5f0f497d53064057dc301fdb07d8f50b27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:32 +0000
Subject: [PATCH 023/178] fix: thread_pool: a concurrent stop also waits for
 the workers

---
 src/task/thread_pool.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/task/thread_pool.cpp b/src/task/thread_pool.cpp
index 117c10c..aaf6512 100644
--- a/src/task/thread_pool.cpp
+++ b/src/task/thread_pool.cpp
@@ -121,8 +121,8 @@ namespace neolib
                     iStopped = true;
                 }
                 iConditionVariable.notify_one();
-                wait();
             }
+            wait();
         }
     private:
         void next_task()
-- 
2.43.0


From a9f075a8a84a458aa9bedfe254056cb1397dd341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:58 +0000
Subject: [PATCH 024/178] fix: event: keep the state of an active trigger with
 the triggering thread

---
 include/neolib/task/event.hpp | 61 ++++++++++++++++++++++++-----------
 1 file changed, 43 insertions(+), 18 deletions(-)

diff --git a/include/neolib/task/event.hpp b/include/neolib/task/event.hpp
index f003f02..55db19f 100644
--- a/include/neolib/task/event.hpp
+++ b/include/neolib/task/event.hpp
@@ -128,9 +128,32 @@ namespace neolib
         typedef std::vector<ref_ptr<i_slot<Args...>>> slot_list;
         struct work_list
         {
+            event const* owner = nullptr;
             slot_list slots;
             bool accepted = false;
         };
+        struct work_list_stack
+        {
+            std::size_t depth = 0;
+            std::vector<std::unique_ptr<work_list>> lists;
+        };
+        struct scoped_work_list
+        {
+            work_list_stack& stack;
+            work_list& list;
+            scoped_work_list(work_list_stack& aStack, work_list& aList, event const& aOwner) : stack{ aStack }, list{ aList }
+            {
+                list.owner = &aOwner;
+                list.accepted = false;
+                ++stack.depth;
+            }
+            ~scoped_work_list()
+            {
+                list.owner = nullptr;
+                list.slots.clear();
+                --stack.depth;
+            }
+        };
     public:
         event()
         {
@@ -149,7 +172,6 @@ namespace neolib
             iTriggerType = aOther.iTriggerType;
             iSlots = {};
             iHasSlots = false;
-            iActiveWorkList = {};
             return *this;
         }
     public:
@@ -169,13 +191,11 @@ namespace neolib
 
             std::unique_lock lock{ iMutex };
             destroyed_flag destroyed{ *this };
-            thread_local std::size_t stack;
-            scoped_counter<std::size_t> stackCounter{ stack };
-            thread_local std::vector<std::unique_ptr<work_list>> workLists;
-            if (workLists.size() < stack)
-                workLists.push_back(std::make_unique<work_list>());
-            auto& workList = *workLists[stack - 1];
-            scoped_pointer<work_list> activeWorkList{ iActiveWorkList, &workList };
+            auto& workLists = active_work_lists();
+            if (workLists.lists.size() <= workLists.depth)
+                workLists.lists.push_back(std::make_unique<work_list>());
+            auto& workList = *workLists.lists[workLists.depth];
+            scoped_work_list activeWorkList{ workLists, workList, *this };
             workList.slots = iSlots;
             lock.unlock();
 
@@ -188,15 +208,9 @@ namespace neolib
                 if (destroyed)
                     return trigger_result::Unaccepted;
                 if (workList.accepted)
-                {
-                    workList.accepted = false;
                     return trigger_result::Accepted;
-                }
             }
 
-            workList.slots.clear();
-            workList.accepted = false;
-
             return trigger_result::Unaccepted;
         }
         void async_trigger(Args... aArgs) const final
@@ -207,9 +221,16 @@ namespace neolib
         }
         void accept() const final
         {
-            std::unique_lock lock{ iMutex };
-            if (iActiveWorkList)
-                iActiveWorkList->accepted = true;
+            auto& workLists = active_work_lists();
+            for (auto depth = workLists.depth; depth > 0; --depth)
+            {
+                auto& workList = *workLists.lists[depth - 1];
+                if (workList.owner == this)
+                {
+                    workList.accepted = true;
+                    break;
+                }
+            }
         }
     public:
         bool has_slots() const final
@@ -234,6 +255,11 @@ namespace neolib
             iHasSlots = !iSlots.empty();
         }
     private:
+        static work_list_stack& active_work_lists()
+        {
+            thread_local work_list_stack tWorkLists;
+            return tWorkLists;
+        }
         void async_trigger(async_event_queue& aQueue, i_slot<Args...>& aSlot, bool aNoDuplicates, Args... aArgs) const
         {
             aQueue.enqueue<Args...>(aSlot, aNoDuplicates, aArgs...);
@@ -243,7 +269,6 @@ namespace neolib
         neolib::trigger_type iTriggerType = neolib::trigger_type::Synchronous;
         mutable slot_list iSlots;
         mutable std::atomic<bool> iHasSlots = false;
-        mutable work_list* iActiveWorkList = nullptr;
     };
 
     #define define_declared_event( name, declName, ... ) \
-- 
2.43.0


From b9fb65d953abe71a6801f8f71158cf33ac58f8da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:52 +0000
Subject: [PATCH 025/178] fix: slot: changing where a slot is called is safe
 while its event is triggered

---
 include/neolib/task/i_event.hpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/include/neolib/task/i_event.hpp b/include/neolib/task/i_event.hpp
index 7ef64c5..fac780c 100644
--- a/include/neolib/task/i_event.hpp
+++ b/include/neolib/task/i_event.hpp
@@ -246,18 +246,17 @@ namespace neolib
         {
             if (call_in_emitter_thread())
                 return std::this_thread::get_id();
-            return *iCallThread;
+            return iCallThread;
         }
         bool call_in_emitter_thread() const final
         {
-            return iCallThread == std::nullopt;
+            return iCallInEmitterThread;
         }
         void set_call_in_emitter_thread(bool aCallInEmitterThread) final
         {
-            if (aCallInEmitterThread)
-                iCallThread = std::nullopt;
-            else
+            if (!aCallInEmitterThread)
                 iCallThread = std::this_thread::get_id();
+            iCallInEmitterThread = aCallInEmitterThread;
         }
         bool stateless() const final
         {
@@ -271,8 +270,9 @@ namespace neolib
         i_event<Args...> const& iEvent;
         destroyed_flag iEventDestroyed;
         std::function<void(Args...)> iCallable;
-        std::optional<std::thread::id> iCallThread;
-        bool iStateless = false;
+        std::atomic<std::thread::id> iCallThread;
+        std::atomic<bool> iCallInEmitterThread = false;
+        std::atomic<bool> iStateless = false;
     };
 
     class sink
-- 
2.43.0


From 8647b1458e3b8a323baa599b9a0090d5bbd1e708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:52 +0000
Subject: [PATCH 026/178] fix: async_event_queue: guard the map of queues with
 its own mutex

---
 src/task/event.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/task/event.cpp b/src/task/event.cpp
index 173b55f..ed49e36 100644
--- a/src/task/event.cpp
+++ b/src/task/event.cpp
@@ -77,17 +77,19 @@ namespace neolib
 
     async_event_queue::async_event_queue()
     {
-        std::scoped_lock lock{ iMutex };
+        std::scoped_lock lock{ instance_map().mutex };
         if (instance_map().find(std::this_thread::get_id()) == instance_map().end())
             instance_map()[std::this_thread::get_id()] = this;
     }
 
     async_event_queue::~async_event_queue()
     {
-        std::scoped_lock lock{ iMutex };
-        auto existing = instance_map().find(std::this_thread::get_id());
-        if (existing != instance_map().end())
-            instance_map().erase(existing);
+        {
+            std::scoped_lock lock{ instance_map().mutex };
+            auto existing = instance_map().find(std::this_thread::get_id());
+            if (existing != instance_map().end())
+                instance_map().erase(existing);
+        }
         if (iTask && !*iTaskDestroyed)
             iTask->unregister_event_queue(*this);
     }
-- 
2.43.0


From 6401be66bcfc2355044fa9127c15fe9ce0c5705a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:37 +0000
Subject: [PATCH 027/178] fix: async_event_queue: do not deliver to a
 subscription that has ended

---
 include/neolib/task/event.hpp   | 7 +++----
 include/neolib/task/i_event.hpp | 7 +++++++
 src/task/event.cpp              | 2 +-
 3 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/include/neolib/task/event.hpp b/include/neolib/task/event.hpp
index 55db19f..f623a18 100644
--- a/include/neolib/task/event.hpp
+++ b/include/neolib/task/event.hpp
@@ -67,8 +67,7 @@ namespace neolib
         {
             void const* event;
             destroyed_flag eventDestroyed;
-            void const* slot;
-            destroyed_flag slotDestroyed;
+            ref_ptr<i_slot_base> slot;
             std::function<void()> callback;
         };
         struct queue
@@ -103,10 +102,10 @@ namespace neolib
                     existing->second.callback = callback;
                     return;
                 }
-                iQueue.single.emplace(key, queue_entry{ &event, event, &aSlot, aSlot, callback });
+                iQueue.single.emplace(key, queue_entry{ &event, event, &aSlot, callback });
             }
             else
-                iQueue.multiple.emplace_back(&event, event, &aSlot, aSlot, callback);
+                iQueue.multiple.push_back(queue_entry{ &event, event, &aSlot, callback });
         }
     public:
         void register_with_task(i_async_task& aTask) final;
diff --git a/include/neolib/task/i_event.hpp b/include/neolib/task/i_event.hpp
index fac780c..ccdc302 100644
--- a/include/neolib/task/i_event.hpp
+++ b/include/neolib/task/i_event.hpp
@@ -102,6 +102,7 @@ namespace neolib
         typedef i_slot_base abstract_type;
     public:
         virtual void remove() = 0;
+        virtual bool removed() const = 0;
     };
 
     template <typename... Args>
@@ -231,9 +232,14 @@ namespace neolib
     public:
         void remove() final
         {
+            iRemoved = true;
             if (!iEventDestroyed)
                 event().remove_slot(*this);
         }
+        bool removed() const final
+        {
+            return iRemoved;
+        }
         i_event<Args...> const& event() const final
         {
             return iEvent;
@@ -273,6 +279,7 @@ namespace neolib
         std::atomic<std::thread::id> iCallThread;
         std::atomic<bool> iCallInEmitterThread = false;
         std::atomic<bool> iStateless = false;
+        std::atomic<bool> iRemoved = false;
     };
 
     class sink
diff --git a/src/task/event.cpp b/src/task/event.cpp
index ed49e36..4dc473f 100644
--- a/src/task/event.cpp
+++ b/src/task/event.cpp
@@ -119,7 +119,7 @@ namespace neolib
         bool didSome = false;
         for (auto& entry : workList)
         {
-            if (entry.eventDestroyed || entry.slotDestroyed)
+            if (entry.eventDestroyed || entry.slot->removed())
                 continue;
             entry.callback();
             didSome = true;
-- 
2.43.0


From cc8a571d007e95b69b7e3acb4ad4a31571319999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:48 +0000
Subject: [PATCH 028/178] fix: async_event_queue: a queue cannot go away while
 an event is being queued to it

---
 include/neolib/task/event.hpp | 12 ++++++++----
 src/task/event.cpp            |  7 +++++++
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/include/neolib/task/event.hpp b/include/neolib/task/event.hpp
index f623a18..80cf925 100644
--- a/include/neolib/task/event.hpp
+++ b/include/neolib/task/event.hpp
@@ -78,6 +78,7 @@ namespace neolib
     public:
         static async_event_queue& instance();
         static async_event_queue& instance(std::thread::id aThreadId);
+        static void with_instance(std::thread::id aThreadId, std::function<void(async_event_queue&)> const& aAction);
     public:
         async_event_queue();
         ~async_event_queue();
@@ -203,7 +204,7 @@ namespace neolib
                 if (slot->call_in_emitter_thread() || slot->call_thread() == std::this_thread::get_id())
                     slot->call(aArgs...);
                 else
-                    async_trigger(async_event_queue::instance(slot->call_thread()), *slot, trigger_type() == neolib::trigger_type::SynchronousDontQueue, aArgs...);
+                    async_trigger(*slot, trigger_type() == neolib::trigger_type::SynchronousDontQueue, aArgs...);
                 if (destroyed)
                     return trigger_result::Unaccepted;
                 if (workList.accepted)
@@ -216,7 +217,7 @@ namespace neolib
         {
             std::unique_lock lock{ iMutex };
             for (auto slot : iSlots)
-                async_trigger(async_event_queue::instance(slot->call_thread()), *slot, trigger_type() == neolib::trigger_type::AsynchronousDontQueue, aArgs...);
+                async_trigger(*slot, trigger_type() == neolib::trigger_type::AsynchronousDontQueue, aArgs...);
         }
         void accept() const final
         {
@@ -259,9 +260,12 @@ namespace neolib
             thread_local work_list_stack tWorkLists;
             return tWorkLists;
         }
-        void async_trigger(async_event_queue& aQueue, i_slot<Args...>& aSlot, bool aNoDuplicates, Args... aArgs) const
+        void async_trigger(i_slot<Args...>& aSlot, bool aNoDuplicates, Args... aArgs) const
         {
-            aQueue.enqueue<Args...>(aSlot, aNoDuplicates, aArgs...);
+            async_event_queue::with_instance(aSlot.call_thread(), [&](async_event_queue& aQueue)
+            {
+                aQueue.enqueue<Args...>(aSlot, aNoDuplicates, aArgs...);
+            });
         }
     private:
         mutable event_mutex<event> iMutex;
diff --git a/src/task/event.cpp b/src/task/event.cpp
index 4dc473f..9ae2641 100644
--- a/src/task/event.cpp
+++ b/src/task/event.cpp
@@ -75,6 +75,13 @@ namespace neolib
         throw std::logic_error("neolib::async_event_queue::instance: instance not found");
     }
 
+    void async_event_queue::with_instance(std::thread::id aThreadId, std::function<void(async_event_queue&)> const& aAction)
+    {
+        // the thread cannot end, taking its queue with it, while the queue is in use
+        std::scoped_lock lock{ instance_map().mutex };
+        aAction(instance(aThreadId));
+    }
+
     async_event_queue::async_event_queue()
     {
         std::scoped_lock lock{ instance_map().mutex };
-- 
2.43.0


From f01c63cb812592099d9809b1c0dfa2a3abf02d61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:22 +0000
Subject: [PATCH 029/178] fix: async_event_queue: an exception or a nested pump
 must not lose or reorder deliveries

---
 include/neolib/task/event.hpp |  2 ++
 src/task/event.cpp            | 24 +++++++++++-------------
 2 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/include/neolib/task/event.hpp b/include/neolib/task/event.hpp
index 80cf925..d4cb3a4 100644
--- a/include/neolib/task/event.hpp
+++ b/include/neolib/task/event.hpp
@@ -36,6 +36,7 @@
 #pragma once
 
 #include <neolib/neolib.hpp>
+#include <deque>
 #include <vector>
 #include <boost/unordered/unordered_flat_map.hpp>
 #include <neolib/core/lifetime.hpp>
@@ -116,6 +117,7 @@ namespace neolib
         i_async_task* iTask = nullptr;
         std::optional<destroyed_flag> iTaskDestroyed;
         queue iQueue;
+        std::deque<queue_entry> iWorkList;
     };
 
     template <typename... Args>
diff --git a/src/task/event.cpp b/src/task/event.cpp
index 9ae2641..f74a4a4 100644
--- a/src/task/event.cpp
+++ b/src/task/event.cpp
@@ -111,27 +111,25 @@ namespace neolib
     bool async_event_queue::pump_events()
     {
         std::unique_lock lock{ iMutex };
-        thread_local std::size_t stack;
-        scoped_counter<std::size_t> stackCounter{ stack };
-        typedef std::vector<queue_entry> work_list;
-        thread_local std::vector<std::unique_ptr<work_list>> workLists;
-        if (workLists.size() < stack)
-            workLists.push_back(std::make_unique<work_list>());
-        auto& workList = *workLists[stack - 1];
-        workList.swap(iQueue.multiple);
-        for (auto const& se : iQueue.single)
-            workList.push_back(se.second);
+        // what an outer pump has yet to deliver, or one ended by an exception, comes first
+        for (auto& me : iQueue.multiple)
+            iWorkList.push_back(std::move(me));
+        iQueue.multiple.clear();
+        for (auto& se : iQueue.single)
+            iWorkList.push_back(std::move(se.second));
         iQueue.single.clear();
-        lock.unlock();
         bool didSome = false;
-        for (auto& entry : workList)
+        while (!iWorkList.empty())
         {
+            auto const entry = std::move(iWorkList.front());
+            iWorkList.pop_front();
             if (entry.eventDestroyed || entry.slot->removed())
                 continue;
+            lock.unlock();
             entry.callback();
             didSome = true;
+            lock.lock();
         }
-        workList.clear();
         return didSome;
     }
 }
\ No newline at end of file
-- 
2.43.0


From c92d6ef7021473a49e16afbc6cfef07b0ad94880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:33 +0000
Subject: [PATCH 030/178] fix: timer: a cancelled timer is no longer waiting

---
 src/task/timer.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/task/timer.cpp b/src/task/timer.cpp
index 67773f6..c7f31f8 100644
--- a/src/task/timer.cpp
+++ b/src/task/timer.cpp
@@ -157,6 +157,7 @@ namespace neolib
             return;
         if (!iTaskDestroying && !iTaskDestroyed)
             timer_object().cancel();
+        iWaiting = false;
     }
 
     void timer::reset()
-- 
2.43.0


From 8b267cbb28d0d8148bac6a5b87593ec44ba5c07c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:58 +0000
Subject: [PATCH 031/178] fix: timer_object: do not call a subscriber that has
 unsubscribed

---
 src/task/timer_object.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/task/timer_object.cpp b/src/task/timer_object.cpp
index 4121be2..773b57c 100644
--- a/src/task/timer_object.cpp
+++ b/src/task/timer_object.cpp
@@ -120,9 +120,9 @@ namespace neolib
         lock.unlock();
         for (auto const& s : workList)
         {
-            if (!s.second.is_alive())
-                continue;
             auto& subscriber = *s.first;
+            if (!s.second.is_alive() || !subscriber.attached())
+                continue;
             subscriber.timer_expired(*this);
         }
         lock.lock();
-- 
2.43.0


From db149fea8543928d2b173fc89dd8e860db6531d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:58 +0000
Subject: [PATCH 032/178] fix: timers: a handler that throws leaves no stale
 work behind

---
 src/task/async_task.cpp   | 1 +
 src/task/timer_object.cpp | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/task/async_task.cpp b/src/task/async_task.cpp
index c36a999..aa9380f 100644
--- a/src/task/async_task.cpp
+++ b/src/task/async_task.cpp
@@ -158,6 +158,7 @@ namespace neolib
             if (workListStack.size() < stack)
                 workListStack.push_back(std::make_unique<work_list_t>());
             work_list_t& workList = *workListStack[stack - 1];
+            workList.clear(); // a handler may have thrown last time
 
             std::unique_lock lock{ iMutex };
             iObjects.erase(std::remove_if(iObjects.begin(), iObjects.end(), [](auto const& o) { return o == nullptr; }), iObjects.end());
diff --git a/src/task/timer_object.cpp b/src/task/timer_object.cpp
index 773b57c..22fd13c 100644
--- a/src/task/timer_object.cpp
+++ b/src/task/timer_object.cpp
@@ -114,6 +114,7 @@ namespace neolib
         if (workListStack.size() < stack)
             workListStack.push_back(std::make_unique<work_list_t>());
         work_list_t& workList = *workListStack[stack - 1];
+        workList.clear(); // a handler may have thrown last time
 
         std::unique_lock lock{ iSubscribersMutex };
         std::transform(iSubscribers.begin(), iSubscribers.end(), std::back_inserter(workList), [](auto const& s) { return std::make_pair(s, destroyed_flag{ *s }); });
-- 
2.43.0


From bd2bf8822f311b21eb17d75cf5f1beb6f6a0d9c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:16 +0000
Subject: [PATCH 033/178] fix: timer: a timer destroyed by its handler is not
 touched when the handler throws

---
 src/task/timer.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/task/timer.cpp b/src/task/timer.cpp
index c7f31f8..04d77c8 100644
--- a/src/task/timer.cpp
+++ b/src/task/timer.cpp
@@ -231,10 +231,10 @@ namespace neolib
         iWaiting = false;
         if (ok)
         {
+            destroyed_flag destroyed{ *this };
             try
             {
                 iInReady = true;
-                destroyed_flag destroyed{ *this };
                 if (std::uncaught_exceptions() == 0)
                     ready();
                 else
@@ -245,7 +245,8 @@ namespace neolib
             }
             catch (...)
             {
-                iInReady = false;
+                if (!destroyed)
+                    iInReady = false;
                 throw;
             }
         }
-- 
2.43.0


From b7cedfdf4909f13223eb4728d7eb5237b0b60549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:31 +0000
Subject: [PATCH 034/178] fix: ref_ptr: move assignment between owners of one
 object, and from inside the object released

---
 include/neolib/core/reference_counted.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/neolib/core/reference_counted.hpp b/include/neolib/core/reference_counted.hpp
index 9c9dfc9..f6d76f9 100644
--- a/include/neolib/core/reference_counted.hpp
+++ b/include/neolib/core/reference_counted.hpp
@@ -311,8 +311,8 @@ namespace neolib
         {
             if (&aOther == this)
                 return *this;
-            reset(aOther.ptr(), aOther.managed_ptr(), aOther.reference_counted(), false);
-            aOther.detach();
+            ref_ptr moved{ std::move(aOther) };
+            reset(moved.ptr(), moved.managed_ptr(), moved.reference_counted(), true);
             return *this;
         }
         ref_ptr& operator=(abstract_type const& aOther)
@@ -331,8 +331,8 @@ namespace neolib
         template <typename Interface2, typename = std::enable_if_t<std::is_base_of_v<Interface, Interface2>, sfinae>>
         ref_ptr& operator=(ref_ptr<Interface2>&& aOther)
         {
-            reset(aOther.ptr(), aOther.managed_ptr(), aOther.reference_counted(), false);
-            aOther.detach();
+            ref_ptr moved{ std::move(aOther) };
+            reset(moved.ptr(), moved.managed_ptr(), moved.reference_counted(), true);
             return *this;
         }
         template <typename Interface2, typename = std::enable_if_t<std::is_base_of_v<Interface, Interface2>, sfinae>>
-- 
2.43.0


From 785bdb894406294df4fae6558ad3a74d6c15d67d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:20 +0000
Subject: [PATCH 035/178] fix: ref_ptr: becoming the owner of what it already
 refers to, adopting a reference to what it already owns

---
 include/neolib/core/reference_counted.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/neolib/core/reference_counted.hpp b/include/neolib/core/reference_counted.hpp
index f6d76f9..b2b40a2 100644
--- a/include/neolib/core/reference_counted.hpp
+++ b/include/neolib/core/reference_counted.hpp
@@ -436,7 +436,7 @@ namespace neolib
         template <typename Interface2 = Interface, typename = std::enable_if_t<std::is_base_of_v<Interface2, Interface>, sfinae>>
         void reset(Interface2* aPtr, Interface2* aManagedPtr, bool aReferenceCounted, bool aAddRef)
         {
-            if (iPtr == aPtr && iManagedPtr == aManagedPtr)
+            if (iPtr == aPtr && iManagedPtr == aManagedPtr && iReferenceCounted == aReferenceCounted && (aAddRef || !aReferenceCounted))
                 return;
             Interface* compatiblePtr = dynamic_cast<Interface*>(aPtr);
             if (aPtr != nullptr && compatiblePtr == nullptr)
-- 
2.43.0


From a2642d81b471200577fb64195f2647e33bd8a5d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:09 +0000
Subject: [PATCH 036/178] fix: reference_counted: weak reference counting is
 thread safe

---
 include/neolib/core/reference_counted.hpp | 35 ++++++++++++-----------
 1 file changed, 19 insertions(+), 16 deletions(-)

diff --git a/include/neolib/core/reference_counted.hpp b/include/neolib/core/reference_counted.hpp
index b2b40a2..c96da87 100644
--- a/include/neolib/core/reference_counted.hpp
+++ b/include/neolib/core/reference_counted.hpp
@@ -57,7 +57,7 @@ namespace neolib
     public:
         ref_control_block(i_reference_counted& aManagedPtr) :
             iManagedPtr{ &aManagedPtr },
-            iWeakUseCount{ 0 }
+            iUseCount{ 1 } // the managed object's own
         {
         }
     public:
@@ -71,27 +71,26 @@ namespace neolib
         }
         long weak_use_count() const noexcept final
         {
-            return iWeakUseCount;
+            return iUseCount - (expired() ? 0 : 1);
         }
         void add_ref(long aCount = 1) noexcept final
         {
-            iWeakUseCount += aCount;
+            iUseCount += aCount;
         }
         void release(long aCount = 1) final
         {
-            if ((iWeakUseCount -= aCount) <= 0 && expired())
+            if ((iUseCount -= aCount) <= 0)
                 delete this;
         }
     private:
         void set_expired()
         {
             iManagedPtr = nullptr;
-            if (weak_use_count() <= 0)
-                delete this;
+            release();
         }
     private:
-        i_reference_counted* iManagedPtr;
-        long iWeakUseCount;
+        std::atomic<i_reference_counted*> iManagedPtr;
+        std::atomic<long> iUseCount;
     };
 
     template <typename Base, bool DeallocateOnRelease = true>
@@ -112,9 +111,8 @@ namespace neolib
         {
             assert(!(reference_count_checked() && use_count() && !pinned()) && "Destroying in-use reference counted object!");            
             iDestroying = true;
-            bool expected = true;
-            if (iControlled.compare_exchange_strong(expected, false))
-                iControlBlock.load()->set_expired();
+            if (auto const controlBlock = iControlBlock.exchange(nullptr); controlBlock != nullptr)
+                controlBlock->set_expired();
         }
         reference_counted& operator=(const reference_counted&)
         {
@@ -168,10 +166,16 @@ namespace neolib
     public:
         i_ref_control_block& control_block() final
         {
-            bool expected = false;
-            if (iControlled.compare_exchange_strong(expected, true))
-                iControlBlock = new ref_control_block{ *this };
-            return *iControlBlock;
+            auto controlBlock = iControlBlock.load();
+            if (controlBlock == nullptr)
+            {
+                auto const newControlBlock = new ref_control_block{ *this };
+                if (iControlBlock.compare_exchange_strong(controlBlock, newControlBlock))
+                    controlBlock = newControlBlock;
+                else
+                    delete newControlBlock;
+            }
+            return *controlBlock;
         }
     private:
         void destroy() const
@@ -185,7 +189,6 @@ namespace neolib
         std::atomic<bool> iDestroying;
         mutable std::atomic<long> iReferenceCount;
         mutable std::atomic<bool> iPinned;
-        mutable std::atomic<bool> iControlled;
         mutable std::atomic<ref_control_block*> iControlBlock;
     };
 
-- 
2.43.0


From 2286627df3e1bfc57c1d4fca1cda50687ee9571f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:23 +0000
Subject: [PATCH 037/178] fix: weak_ref_ptr: copying does not touch the object

---
 include/neolib/core/reference_counted.hpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/include/neolib/core/reference_counted.hpp b/include/neolib/core/reference_counted.hpp
index c96da87..3854476 100644
--- a/include/neolib/core/reference_counted.hpp
+++ b/include/neolib/core/reference_counted.hpp
@@ -491,7 +491,7 @@ namespace neolib
         weak_ref_ptr(const weak_ref_ptr& aOther) noexcept :
             iControlBlock{ nullptr }
         {
-            update_control_block(aOther.ptr());
+            set_control_block(aOther.iControlBlock);
         }
         weak_ref_ptr(const i_ref_ptr<maybe_abstract_t<Interface>>& aOther) noexcept :
             iControlBlock{ nullptr }
@@ -511,7 +511,7 @@ namespace neolib
         }
         weak_ref_ptr& operator=(weak_ref_ptr const& aOther)
         {
-            reset(aOther.ptr());
+            set_control_block(aOther.iControlBlock);
             return *this;
         }
         weak_ref_ptr& operator=(i_ref_ptr<maybe_abstract_t<Interface>> const& aOther)
@@ -605,12 +605,15 @@ namespace neolib
     private:
         void update_control_block(maybe_abstract_t<Interface>* aManagedPtr)
         {
-            auto controlBlock = aManagedPtr != nullptr ? &(*aManagedPtr).control_block() : nullptr;
-            if (iControlBlock != controlBlock)
+            set_control_block(aManagedPtr != nullptr ? &(*aManagedPtr).control_block() : nullptr);
+        }
+        void set_control_block(i_ref_control_block* aControlBlock)
+        {
+            if (iControlBlock != aControlBlock)
             {
                 if (iControlBlock != nullptr)
                     iControlBlock->release();
-                iControlBlock = controlBlock;
+                iControlBlock = aControlBlock;
                 if (iControlBlock != nullptr)
                     iControlBlock->add_ref();
             }
-- 
2.43.0


From 4849349bcd277648a74f42c9e769984abb328de0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:43 +0000
Subject: [PATCH 038/178] fix: lifetime: a copied object has a lifetime of its
 own

---
 include/neolib/core/lifetime.hpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/include/neolib/core/lifetime.hpp b/include/neolib/core/lifetime.hpp
index 3f36f7f..bb7f2f3 100644
--- a/include/neolib/core/lifetime.hpp
+++ b/include/neolib/core/lifetime.hpp
@@ -110,7 +110,10 @@ namespace neolib
         typedef neolib::destroyed_flag destroyed_flag;
     public:
         lifetime(lifetime_state aState = lifetime_state::Alive);
+        lifetime(lifetime const& aOther);
         virtual ~lifetime();
+    public:
+        lifetime& operator=(lifetime const& aOther);
     public:
         lifetime_state object_state() const final;
         i_ref_ptr<i_lifetime_control_block>& object_state_ptr() const final;
@@ -130,6 +133,19 @@ namespace neolib
     {
     }
 
+    template <typename Base>
+    inline lifetime<Base>::lifetime(lifetime const& aOther) : Base{ static_cast<Base const&>(aOther) }, iState{ make_ref<lifetime_control_block>(lifetime_state::Alive) }
+    {
+        // a copy is an object of its own with a lifetime of its own
+    }
+
+    template <typename Base>
+    inline lifetime<Base>& lifetime<Base>::operator=(lifetime const& aOther)
+    {
+        Base::operator=(static_cast<Base const&>(aOther));
+        return *this;
+    }
+
     template <typename Base>
     inline lifetime<Base>::~lifetime()
     {
-- 
2.43.0


From e86dda37b638ba60724708b3dd58122c944903c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:41 +0000
Subject: [PATCH 039/178] fix: event: destroying an event with subscriptions of
 its own

---
 include/neolib/task/event.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/neolib/task/event.hpp b/include/neolib/task/event.hpp
index d4cb3a4..a1507a6 100644
--- a/include/neolib/task/event.hpp
+++ b/include/neolib/task/event.hpp
@@ -166,6 +166,12 @@ namespace neolib
         }
         ~event()
         {
+            // a slot only the event refers to removes itself as it goes: not from a list being destroyed
+            slot_list slots;
+            std::unique_lock lock{ iMutex };
+            slots.swap(iSlots);
+            iHasSlots = false;
+            lock.unlock();
         }
     public:
         event& operator=(event const& aOther)
-- 
2.43.0


From 95adc825e51c6f253becd559e7452e20d242f5b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:51 +0000
Subject: [PATCH 040/178] fix: event: assigning to an event with subscriptions
 of its own

---
 include/neolib/task/event.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/neolib/task/event.hpp b/include/neolib/task/event.hpp
index a1507a6..9efd08d 100644
--- a/include/neolib/task/event.hpp
+++ b/include/neolib/task/event.hpp
@@ -176,10 +176,12 @@ namespace neolib
     public:
         event& operator=(event const& aOther)
         {
+            slot_list slots;
             std::unique_lock lock{ iMutex };
             iTriggerType = aOther.iTriggerType;
-            iSlots = {};
+            slots.swap(iSlots);
             iHasSlots = false;
+            lock.unlock();
             return *this;
         }
     public:
-- 
2.43.0


From 713e50860bab966ca44dca26e6b9e09dfefc7eda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:51 +0000
Subject: [PATCH 041/178] fix: segmented_tree: iterator post-increment and
 post-decrement

---
 include/neolib/core/segmented_tree.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/neolib/core/segmented_tree.hpp b/include/neolib/core/segmented_tree.hpp
index 31ac047..354f30e 100644
--- a/include/neolib/core/segmented_tree.hpp
+++ b/include/neolib/core/segmented_tree.hpp
@@ -304,10 +304,10 @@ namespace neolib
                 }
                 return *this;
             }
-            basic_iterator operator++(int) const
+            basic_iterator operator++(int)
             {
                 basic_iterator temp = *this;
-                ++temp;
+                ++*this;
                 return temp;
             }
             basic_iterator& operator--()
@@ -327,10 +327,10 @@ namespace neolib
                 }
                 return *this;
             }
-            basic_iterator operator--(int) const
+            basic_iterator operator--(int)
             {
                 basic_iterator temp = *this;
-                --temp;
+                --*this;
                 return temp;
             }
         public:
@@ -470,10 +470,10 @@ namespace neolib
                 }
                 return *this;
             }
-            basic_const_iterator operator++(int) const
+            basic_const_iterator operator++(int)
             {
                 basic_const_iterator temp = *this;
-                ++temp;
+                ++*this;
                 return temp;
             }
             basic_const_iterator& operator--()
@@ -493,10 +493,10 @@ namespace neolib
                 }
                 return *this;
             }
-            basic_const_iterator operator--(int) const
+            basic_const_iterator operator--(int)
             {
                 basic_const_iterator temp = *this;
-                --temp;
+                --*this;
                 return temp;
             }
         public:
-- 
2.43.0


From bd37855e9b7ae699cc288a106928971a472445ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:29 +0000
Subject: [PATCH 042/178] fix: segmented_tree: descendent counts when erasing a
 subtree, adding to or nesting skipped nodes

---
 include/neolib/core/segmented_tree.hpp | 40 ++++++++++++--------------
 1 file changed, 18 insertions(+), 22 deletions(-)

diff --git a/include/neolib/core/segmented_tree.hpp b/include/neolib/core/segmented_tree.hpp
index 354f30e..2c4fc1f 100644
--- a/include/neolib/core/segmented_tree.hpp
+++ b/include/neolib/core/segmented_tree.hpp
@@ -188,7 +188,8 @@ namespace neolib
                 if (!iSkipChildren)
                 {
                     iSkipChildren = true;
-                    parent().increment_skipped_descendent_count(descendent_count() - skipped_descendent_count());
+                    if (!is_root())
+                        parent().adjust_descendent_counts(0, descendent_count() - skipped_descendent_count());
                 }
             }
             void unskip_children()
@@ -196,7 +197,8 @@ namespace neolib
                 if (iSkipChildren)
                 {
                     iSkipChildren = false;
-                    parent().decrement_skipped_descendent_count(descendent_count() - skipped_descendent_count());
+                    if (!is_root())
+                        parent().adjust_descendent_counts(0, skipped_descendent_count() - descendent_count());
                 }
             }
         private:
@@ -206,31 +208,22 @@ namespace neolib
             }
             void increment_descendent_count()
             {
-                ++iDescendentCount;
-                if (!is_root())
-                    parent().increment_descendent_count();
+                adjust_descendent_counts(1, 0);
             }
-            void decrement_descendent_count()
-            {
-                --iDescendentCount;
-                if (!is_root())
-                    parent().decrement_descendent_count();
-            }
-            std::size_t skipped_descendent_count() const
+            void decrement_descendent_count(std::size_t aCount, std::size_t aSkippedCount)
             {
-                return iSkippedDescendentCount;
+                adjust_descendent_counts(0 - aCount, 0 - aSkippedCount);
             }
-            void increment_skipped_descendent_count(std::size_t aCount)
+            void adjust_descendent_counts(std::size_t aDelta, std::size_t aSkippedDelta)
             {
-                iSkippedDescendentCount += aCount;
-                if (!is_root())
-                    parent().increment_skipped_descendent_count(aCount);
+                iDescendentCount += aDelta;
+                iSkippedDescendentCount += aSkippedDelta;
+                if (!is_root()) // if our children are skipped our parents count all of them as skipped
+                    parent().adjust_descendent_counts(aDelta, iSkipChildren ? aDelta : aSkippedDelta);
             }
-            void decrement_skipped_descendent_count(std::size_t aCount)
+            std::size_t skipped_descendent_count() const
             {
-                iSkippedDescendentCount -= aCount;
-                if (!is_root())
-                    parent().decrement_skipped_descendent_count(aCount);
+                return iSkippedDescendentCount;
             }
             void update_parents(node& parent)
             {
@@ -789,8 +782,11 @@ namespace neolib
         {
             auto mutablePos = std::next(begin(), std::distance(cbegin(), pos));
             node& parent = mutablePos.parent_node();
+            node const& erased = mutablePos.our_node();
+            auto const count = 1 + erased.descendent_count();
+            auto const skippedCount = erased.children_skipped() ? erased.descendent_count() : erased.skipped_descendent_count();
             auto result = iterator{ parent, parent.children().erase(mutablePos.base()) };
-            parent.decrement_descendent_count();
+            parent.decrement_descendent_count(count, skippedCount);
             return result;
         }
         void sort()
-- 
2.43.0


From 2318aefeff120f761d7759d4dc3c58c3d77bf027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:01 +0000
Subject: [PATCH 043/178] fix: segmented_tree: erase returns the node that
 follows

---
 include/neolib/core/segmented_tree.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/neolib/core/segmented_tree.hpp b/include/neolib/core/segmented_tree.hpp
index 2c4fc1f..71ec913 100644
--- a/include/neolib/core/segmented_tree.hpp
+++ b/include/neolib/core/segmented_tree.hpp
@@ -787,6 +787,8 @@ namespace neolib
             auto const skippedCount = erased.children_skipped() ? erased.descendent_count() : erased.skipped_descendent_count();
             auto result = iterator{ parent, parent.children().erase(mutablePos.base()) };
             parent.decrement_descendent_count(count, skippedCount);
+            while (result.base() == result.parent_node().children().end() && !result.parent_is_root())
+                result = std::next(result.parent());
             return result;
         }
         void sort()
-- 
2.43.0


From c975082bf6f1db33c7a0b1c426b4ca1ef35a816d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:32 +0000
Subject: [PATCH 044/178] fix: jar: cookies added explicitly are not handed out
 again

---
 include/neolib/core/jar.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/neolib/core/jar.hpp b/include/neolib/core/jar.hpp
index a65b8e3..8558caa 100644
--- a/include/neolib/core/jar.hpp
+++ b/include/neolib/core/jar.hpp
@@ -361,6 +361,8 @@ namespace neolib
                 throw;
             }
             reverse_indices()[static_cast<underlying_cookie_type>(aCookie)] = items().size() - 1;
+            if (static_cast<underlying_cookie_type>(iNextAvailableCookie.load()) < static_cast<underlying_cookie_type>(aCookie))
+                iNextAvailableCookie = aCookie;
             return *result;
         }
         iterator remove(maybe_abstract_t<value_type> const& aItem) final
@@ -681,6 +683,8 @@ namespace neolib
                 throw;
             }
             reverse_indices()[static_cast<underlying_cookie_type>(aCookie)] = items().size() - 1;
+            if (static_cast<underlying_cookie_type>(iNextAvailableCookie.load()) < static_cast<underlying_cookie_type>(aCookie))
+                iNextAvailableCookie = aCookie;
             return *result;
         }
         iterator remove(value_type const& aItem)
-- 
2.43.0


From 3bc172adbd35696a09d6f774983e312396f22edf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:32 +0000
Subject: [PATCH 045/178] fix: jar: keep reporting exhausted cookies

---
 include/neolib/core/jar.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/neolib/core/jar.hpp b/include/neolib/core/jar.hpp
index 8558caa..dd3a864 100644
--- a/include/neolib/core/jar.hpp
+++ b/include/neolib/core/jar.hpp
@@ -412,9 +412,9 @@ namespace neolib
                 return nextCookie;
             }
             auto const nextCookie = static_cast<cookie_type>(static_cast<underlying_cookie_type>(iNextAvailableCookie.load()) + underlying_cookie_type{ 1 });
-            iNextAvailableCookie = nextCookie;
             if (nextCookie == INVALID_COOKIE)
                 throw cookies_exhausted();
+            iNextAvailableCookie = nextCookie;
             assert(std::find(free_cookies().begin(), free_cookies().end(), nextCookie) == free_cookies().end());
             return nextCookie;
         }
@@ -734,9 +734,9 @@ namespace neolib
                 return nextCookie;
             }
             auto const nextCookie = static_cast<cookie_type>(static_cast<underlying_cookie_type>(iNextAvailableCookie.load()) + underlying_cookie_type{ 1 });
-            iNextAvailableCookie = nextCookie;
             if (nextCookie == INVALID_COOKIE)
                 throw cookies_exhausted();
+            iNextAvailableCookie = nextCookie;
             assert(std::find(free_cookies().begin(), free_cookies().end(), nextCookie) == free_cookies().end());
             return nextCookie;
         }
-- 
2.43.0


From accd3521aaa7fcf0040e06315a39d0cc743a6d26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:51 +0000
Subject: [PATCH 046/178] fix: cookie_ref_ptr::reset drops its reference

---
 include/neolib/core/jar.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/neolib/core/jar.hpp b/include/neolib/core/jar.hpp
index dd3a864..009bc2f 100644
--- a/include/neolib/core/jar.hpp
+++ b/include/neolib/core/jar.hpp
@@ -139,8 +139,7 @@ namespace neolib
         }
         void reset() const
         {
-            iConsumer = nullptr;
-            iCookie = no_cookie;
+            release();
         }
     private:
         void add_ref(long count = 1) const
@@ -154,7 +153,8 @@ namespace neolib
             if (!valid())
                 return;
             consumer().release(cookie(), count);
-            reset();
+            iConsumer = nullptr;
+            iCookie = no_cookie;
         }
         bool have_consumer() const
         {
-- 
2.43.0


From 63392807f0d75c331ae8e9f8527cb54b44c356c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:51 +0000
Subject: [PATCH 047/178] fix: jar: lock when observing a locking jar

---
 include/neolib/core/jar.hpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/neolib/core/jar.hpp b/include/neolib/core/jar.hpp
index 009bc2f..f005d54 100644
--- a/include/neolib/core/jar.hpp
+++ b/include/neolib/core/jar.hpp
@@ -249,10 +249,12 @@ namespace neolib
     public:
         bool empty() const final
         {
+            std::scoped_lock<mutex_type> lock{ mutex() };
             return items().empty();
         }
         std::size_t size() const final
         {
+            std::scoped_lock<mutex_type> lock{ mutex() };
             return items().size();
         }
         bool contains(cookie_type aCookie) const final
@@ -291,10 +293,12 @@ namespace neolib
         }
         const value_type& at_index(std::size_t aIndex) const final
         {
+            std::scoped_lock<mutex_type> lock{ mutex() };
             return items().at(aIndex);
         }
         value_type& at_index(std::size_t aIndex) final
         {
+            std::scoped_lock<mutex_type> lock{ mutex() };
             return items().at(aIndex);
         }
         cookie_type insert(maybe_abstract_t<value_type> const& aItem) final
@@ -397,6 +401,7 @@ namespace neolib
     public:
         cookie_type item_cookie(maybe_abstract_t<value_type> const& aItem) const final
         {
+            std::scoped_lock<mutex_type> lock{ mutex() };
             if constexpr (!std::is_pointer_v<value_type>)
                 return allocated_cookies()[&static_cast<value_type const&>(aItem) - &items()[0]];
             else
@@ -571,10 +576,12 @@ namespace neolib
     public:
         bool empty() const
         {
+            std::scoped_lock<mutex_type> lock{ mutex() };
             return items().empty();
         }
         std::size_t size() const
         {
+            std::scoped_lock<mutex_type> lock{ mutex() };
             return items().size();
         }
         bool contains(cookie_type aCookie) const
@@ -613,10 +620,12 @@ namespace neolib
         }
         const value_type& at_index(std::size_t aIndex) const
         {
+            std::scoped_lock<mutex_type> lock{ mutex() };
             return items().at(aIndex);
         }
         value_type& at_index(std::size_t aIndex)
         {
+            std::scoped_lock<mutex_type> lock{ mutex() };
             return items().at(aIndex);
         }
         cookie_type insert(value_type const& aItem)
@@ -719,6 +728,7 @@ namespace neolib
     public:
         cookie_type item_cookie(value_type const& aItem) const
         {
+            std::scoped_lock<mutex_type> lock{ mutex() };
             if constexpr (!std::is_pointer_v<value_type>)
                 return allocated_cookies()[&static_cast<value_type const&>(aItem) - &items()[0]];
             else
-- 
2.43.0


From 89ce232df9ccdf8f0c26933af85ceb8275e5207f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:05 +0000
Subject: [PATCH 048/178] fix: container iterators: post-increment and random
 access arithmetic

---
 include/neolib/core/i_iterator.hpp | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/include/neolib/core/i_iterator.hpp b/include/neolib/core/i_iterator.hpp
index 6170ffc..32ea8e2 100644
--- a/include/neolib/core/i_iterator.hpp
+++ b/include/neolib/core/i_iterator.hpp
@@ -272,28 +272,28 @@ namespace neolib
     template <typename T, typename Category, typename Difference, typename Pointer, typename Reference>
     inline const_iterator<T, Category, Difference, Pointer, Reference> i_const_iterator<T, Category, Difference, Pointer, Reference>::operator++(int) 
     { 
-        const_iterator result = *this;
-        ++result;
+        iterator_wrapper result{ clone() };
+        ++*this;
         return result;
     }
     template <typename T, typename Category, typename Difference, typename Pointer, typename Reference>
     inline const_iterator<T, Category, Difference, Pointer, Reference> i_const_iterator<T, Category, Difference, Pointer, Reference>::operator--(int) 
     { 
-        const_iterator result = *this;
-        --result;
+        iterator_wrapper result{ clone() };
+        --*this;
         return result;
     }
     template <typename T, typename Category, typename Difference, typename Pointer, typename Reference>
     inline random_access_const_iterator<T, Category, Difference, Pointer, Reference> i_random_access_const_iterator<T, Category, Difference, Pointer, Reference>::operator+(difference_type aDifference) const
     {
-        random_access_const_iterator<T, Category, Difference, Pointer, Reference> result = *this;
+        iterator_wrapper result{ static_cast<i_random_access_const_iterator*>(this->clone()) };
         result += aDifference;
         return result;
     }
     template <typename T, typename Category, typename Difference, typename Pointer, typename Reference>
     inline random_access_const_iterator<T, Category, Difference, Pointer, Reference> i_random_access_const_iterator<T, Category, Difference, Pointer, Reference>::operator-(difference_type aDifference) const
     {
-        random_access_const_iterator<T, Category, Difference, Pointer, Reference> result = *this;
+        iterator_wrapper result{ static_cast<i_random_access_const_iterator*>(this->clone()) };
         result -= aDifference;
         return result;
     }
@@ -496,28 +496,28 @@ namespace neolib
     template <typename T, typename Category, typename Difference, typename Pointer, typename Reference>
     inline iterator<T, Category, Difference, Pointer, Reference> i_iterator<T, Category, Difference, Pointer, Reference>::operator++(int) 
     { 
-        iterator result = *this;
-        ++result;
+        iterator_wrapper result{ clone() };
+        ++*this;
         return result;
     }
     template <typename T, typename Category, typename Difference, typename Pointer, typename Reference>
     inline iterator<T, Category, Difference, Pointer, Reference> i_iterator<T, Category, Difference, Pointer, Reference>::operator--(int) 
     { 
-        iterator result = *this;
-        --result;
+        iterator_wrapper result{ clone() };
+        --*this;
         return result;
     }
     template <typename T, typename Category, typename Difference, typename Pointer, typename Reference>
     inline random_access_iterator<T, Category, Difference, Pointer, Reference> i_random_access_iterator<T, Category, Difference, Pointer, Reference>::operator+(difference_type aDifference) const 
     { 
-        random_access_iterator<T, Category, Difference, Pointer, Reference> result = *this;
+        iterator_wrapper result{ static_cast<i_random_access_iterator*>(this->clone()) };
         result += aDifference;
         return result;
     }
     template <typename T, typename Category, typename Difference, typename Pointer, typename Reference>
     inline random_access_iterator<T, Category, Difference, Pointer, Reference> i_random_access_iterator<T, Category, Difference, Pointer, Reference>::operator-(difference_type aDifference) const 
     { 
-        random_access_iterator<T, Category, Difference, Pointer, Reference> result = *this;
+        iterator_wrapper result{ static_cast<i_random_access_iterator*>(this->clone()) };
         result -= aDifference;
         return result;
     }
-- 
2.43.0


From fd8f5bdf8d107394ee174fd573a1a071af71d4d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:31 +0000
Subject: [PATCH 049/178] fix: neolib::multiset names its abstract container
 through the public typedef

---
 include/neolib/core/set.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/neolib/core/set.hpp b/include/neolib/core/set.hpp
index dc27829..8f96a89 100644
--- a/include/neolib/core/set.hpp
+++ b/include/neolib/core/set.hpp
@@ -145,7 +145,7 @@ namespace neolib
         typedef Alloc allocator_type;
         typedef mutable_multiset<value_type, compare_type, allocator_type> std_type;
     private:
-        typedef typename abstract_type::base_type abstract_container;
+        typedef typename abstract_type::abstract_container abstract_container;
     public:
         typedef typename abstract_type::size_type size_type;
         typedef container::const_iterator<abstract_value_type, typename std_type::const_iterator> container_const_iterator;
-- 
2.43.0


From 7cead0203721dffc36993b4168aa9c9092a019a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:31 +0000
Subject: [PATCH 050/178] fix: i_multiset::find returns the iterator found

---
 include/neolib/core/i_set.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/neolib/core/i_set.hpp b/include/neolib/core/i_set.hpp
index 86374ef..ca044bc 100644
--- a/include/neolib/core/i_set.hpp
+++ b/include/neolib/core/i_set.hpp
@@ -83,7 +83,7 @@ namespace neolib
     public:
         iterator insert(const abstract_value_type& aValue) { return do_insert(aValue); }
         const_iterator find(const abstract_key_type& aKey) const { return do_find(aKey); }
-        iterator find(const abstract_key_type& aKey) { do_find(aKey); }
+        iterator find(const abstract_key_type& aKey) { return do_find(aKey); }
         // todo: equal_range, lower_bound, upper_bound
     private:
         virtual abstract_iterator* do_insert(const abstract_value_type& aValue) = 0;
-- 
2.43.0


From 2ef0d88049ff90d69382a0b9e3c4f24140193f59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:50 +0000
Subject: [PATCH 051/178] fix: unordered_multimap::emplace uses the iterator
 its container returns

---
 include/neolib/core/unordered_map.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/neolib/core/unordered_map.hpp b/include/neolib/core/unordered_map.hpp
index 28ee4ca..e316ff3 100644
--- a/include/neolib/core/unordered_map.hpp
+++ b/include/neolib/core/unordered_map.hpp
@@ -321,7 +321,7 @@ namespace neolib
         {
             auto result = iMap.emplace(std::forward<Key2>(aKey),
                 typename std_type::mapped_type{ aKey, mapped_type{ std::forward<Args>(aArgs)... } });
-            return result.first->second;
+            return result->second;
         }
     private:
         abstract_iterator* do_insert(const abstract_key_type& aKey, const abstract_mapped_type& aMapped) final
-- 
2.43.0


From ec5399da4ee974bc0e40c2c4f1ec453ea899caa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:41 +0000
Subject: [PATCH 052/178] fix: container iterators step backwards whenever the
 underlying iterator can

---
 include/neolib/core/container_iterator.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/neolib/core/container_iterator.hpp b/include/neolib/core/container_iterator.hpp
index 855d6de..8b86e03 100644
--- a/include/neolib/core/container_iterator.hpp
+++ b/include/neolib/core/container_iterator.hpp
@@ -81,7 +81,7 @@ namespace neolib
             operator container_iterator() const { return iContainerIterator; }
         public:
             abstract_iterator& operator++() override { ++iContainerIterator; return *this; }
-            abstract_iterator& operator--() override { if constexpr(std::bidirectional_iterator<container_iterator>) --iContainerIterator; return *this; }
+            abstract_iterator& operator--() override { if constexpr (requires { --iContainerIterator; }) --iContainerIterator; return *this; }
             reference operator*() const override { return to_abstract(*iContainerIterator); }
             pointer operator->() const override { return &(**this); }
             bool operator==(const abstract_base_iterator& aOther) const override { return iContainerIterator == static_cast<const const_iterator&>(aOther).iContainerIterator; }
@@ -168,7 +168,7 @@ namespace neolib
             operator container_iterator() const { return iContainerIterator; }
         public:
             abstract_iterator& operator++() override { ++iContainerIterator; return *this; }
-            abstract_iterator& operator--() override { if constexpr (std::bidirectional_iterator<container_iterator>) --iContainerIterator; return *this; }
+            abstract_iterator& operator--() override { if constexpr (requires { --iContainerIterator; }) --iContainerIterator; return *this; }
             reference operator*() const override { return to_abstract(*iContainerIterator); }
             pointer operator->() const override { return &(**this); }
             bool operator==(const abstract_base_iterator& aOther) const override { return iContainerIterator == static_cast<const iterator&>(aOther).iContainerIterator; }
-- 
2.43.0


From b9de941d1aba27bbd1e0bd3a148f20deaf8a1f9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:57 +0000
Subject: [PATCH 053/178] fix: compare an i_optional with a value through
 value()

---
 include/neolib/core/i_optional.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/neolib/core/i_optional.hpp b/include/neolib/core/i_optional.hpp
index 2827497..62b22b7 100644
--- a/include/neolib/core/i_optional.hpp
+++ b/include/neolib/core/i_optional.hpp
@@ -120,7 +120,7 @@ namespace neolib
     {
         if (!lhs.has_value())
             return false;
-        return lhs.get() == rhs;
+        return lhs.value() == rhs;
     }
 
     template <typename T, typename U, typename = std::enable_if_t<!is_optional_v<U>, sfinae>>
@@ -128,7 +128,7 @@ namespace neolib
     {
         if (!rhs.has_value())
             return false;
-        return lhs == rhs.get();
+        return lhs == rhs.value();
     }
 
     template <typename T, typename U, typename = std::enable_if_t<!is_optional_v<U>, sfinae>>
@@ -136,7 +136,7 @@ namespace neolib
     {
         if (!lhs.has_value())
             return std::partial_ordering::less;
-        return lhs.get() <=> rhs;
+        return lhs.value() <=> rhs;
     }
 
     template <typename T, typename U, typename = std::enable_if_t<!is_optional_v<U>, sfinae>>
@@ -144,6 +144,6 @@ namespace neolib
     {
         if (!rhs.has_value())
             return std::partial_ordering::greater;
-        return lhs <=> rhs.get();
+        return lhs <=> rhs.value();
     }
 }
-- 
2.43.0


From 9f4085313cf4002669e89bcd13b51689ef66e8cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:57 +0000
Subject: [PATCH 054/178] fix: plugin_variant::which_as_string looks up the
 enumerator

---
 include/neolib/plugin/plugin_variant.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/neolib/plugin/plugin_variant.hpp b/include/neolib/plugin/plugin_variant.hpp
index 56d1f0f..9790114 100644
--- a/include/neolib/plugin/plugin_variant.hpp
+++ b/include/neolib/plugin/plugin_variant.hpp
@@ -226,7 +226,7 @@ namespace neolib
         }
         std::string which_as_string() const
         {
-            return ids().enumerators().find(which())->second.to_std_string();
+            return ids().find(static_cast<std::underlying_type_t<id_t>>(which()))->second().to_std_string();
         }
         // implementation
     private:
-- 
2.43.0


From b40fdd639001e00ba8eec3a31234bf8e9158f89b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:03 +0000
Subject: [PATCH 055/178] fix: pair assignment accepts scalar members

---
 include/neolib/core/pair.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/neolib/core/pair.hpp b/include/neolib/core/pair.hpp
index 50e8f90..9455643 100644
--- a/include/neolib/core/pair.hpp
+++ b/include/neolib/core/pair.hpp
@@ -73,8 +73,8 @@ namespace neolib
             if constexpr (!std::is_const_v<first_type> && !std::is_const_v<second_type>)
             {
                 if constexpr (
-                    std::is_assignable_v<decltype(std_type::first), decltype(aOther.first())> &&
-                    std::is_assignable_v<decltype(std_type::second), decltype(aOther.second())>)
+                    std::is_assignable_v<first_type&, decltype(aOther.first())> &&
+                    std::is_assignable_v<second_type&, decltype(aOther.second())>)
                 {
                     std_type::first = aOther.first();
                     std_type::second = aOther.second();
-- 
2.43.0


From eb0313071d43d6a3222a9fbb8af94b2a69d52272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:03 +0000
Subject: [PATCH 056/178] fix: assigning an empty variant through the abstract
 interface empties the target

---
 include/neolib/core/variant.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/neolib/core/variant.hpp b/include/neolib/core/variant.hpp
index c07587c..cfb9abb 100644
--- a/include/neolib/core/variant.hpp
+++ b/include/neolib/core/variant.hpp
@@ -284,7 +284,10 @@ namespace neolib
         };
         abstract_type& assign(std::size_t aIndex, void const* aPtr) final
         {
-            RuntimeTypeDispatchToEmplace<Types...>::assign(*this, aIndex, aPtr);
+            if (aIndex == 0)
+                std_type::operator=(std::monostate{});
+            else
+                RuntimeTypeDispatchToEmplace<Types...>::assign(*this, aIndex, aPtr);
             return *this;
         }
     };
-- 
2.43.0


From d6bab026260447d9bf5c0c5f84b43231ba78d5a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:03 +0000
Subject: [PATCH 057/178] fix: variant self-assignment keeps the value

---
 include/neolib/core/variant.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/neolib/core/variant.hpp b/include/neolib/core/variant.hpp
index cfb9abb..2c91815 100644
--- a/include/neolib/core/variant.hpp
+++ b/include/neolib/core/variant.hpp
@@ -284,6 +284,8 @@ namespace neolib
         };
         abstract_type& assign(std::size_t aIndex, void const* aPtr) final
         {
+            if (aPtr == ptr())
+                return *this;
             if (aIndex == 0)
                 std_type::operator=(std::monostate{});
             else
-- 
2.43.0


From 19b4fe7db1dfd139fe94dc5af279b922b37de82d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:03 +0000
Subject: [PATCH 058/178] fix: reading an empty optional from a stream empties
 the target

---
 include/neolib/core/optional.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/neolib/core/optional.hpp b/include/neolib/core/optional.hpp
index 533428a..7ad6a47 100644
--- a/include/neolib/core/optional.hpp
+++ b/include/neolib/core/optional.hpp
@@ -365,6 +365,8 @@ namespace neolib
             aOptional.emplace();
             aStream >> aOptional.value();
         }
+        else
+            aOptional.reset();
         return aStream;
     }
 }
-- 
2.43.0


From 660c31b63791f63d74db6b3a844a6316a2f5933a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:03 +0000
Subject: [PATCH 059/178] fix: assigning a variable to a plugin_variant copies
 it

---
 include/neolib/plugin/i_plugin_variant.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/neolib/plugin/i_plugin_variant.hpp b/include/neolib/plugin/i_plugin_variant.hpp
index 562b4a6..2fc92d2 100644
--- a/include/neolib/plugin/i_plugin_variant.hpp
+++ b/include/neolib/plugin/i_plugin_variant.hpp
@@ -117,7 +117,7 @@ namespace neolib
             return do_assign(static_cast<id_t>(variadic::index_v<T, Types...>), &aArgument);
         }
         template <typename T>
-        std::enable_if_t<!std::is_base_of_v<i_plugin_variant, std::remove_reference_t<T>>, i_plugin_variant>& operator=(T&& aArgument)
+        std::enable_if_t<!std::is_lvalue_reference_v<T> && !std::is_base_of_v<i_plugin_variant, T>, i_plugin_variant>& operator=(T&& aArgument)
         {
             return do_move_assign(static_cast<id_t>(variadic::no_reference_index_v<T, Types...>), &aArgument);
         }
-- 
2.43.0


From 298a4a73b6d51be9c9995ea0519ac5974c8a00f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:41 +0000
Subject: [PATCH 060/178] fix: a quick_string substring ends with its source

---
 include/neolib/core/quick_string.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/neolib/core/quick_string.hpp b/include/neolib/core/quick_string.hpp
index b6c6075..1ed3aa4 100644
--- a/include/neolib/core/quick_string.hpp
+++ b/include/neolib/core/quick_string.hpp
@@ -98,7 +98,7 @@ namespace neolib
         {
         }
         basic_quick_string(const basic_quick_string& str, size_type pos, size_type n = npos) :
-            iContents{ view_contents_type{ string_view_type{ str.cbegin() + pos, (n == npos ? str.size() - pos : n) }, str.get_allocator() } } 
+            iContents{ view_contents_type{ str.to_std_string_view().substr(pos, n), str.get_allocator() } } 
         {
         }
         explicit basic_quick_string(const string_view_type& view, const Alloc& a = Alloc()) :
-- 
2.43.0


From 906b0801fbc93f5d3fa0f721036f16433e41e978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:52 +0000
Subject: [PATCH 061/178] fix: quick_string::find_last_not_of searches for the
 last character not in the set

---
 include/neolib/core/quick_string.hpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/include/neolib/core/quick_string.hpp b/include/neolib/core/quick_string.hpp
index 1ed3aa4..e941dd5 100644
--- a/include/neolib/core/quick_string.hpp
+++ b/include/neolib/core/quick_string.hpp
@@ -499,37 +499,37 @@ namespace neolib
         size_type find_last_not_of(const basic_quick_string& str, size_type pos = npos) const
         {
             if (is_view())
-                return get_view_string().find_last_of(str.to_std_string_view(), pos);
+                return get_view_string().find_last_not_of(str.to_std_string_view(), pos);
             else
-                return get_string().find_last_of(str.to_std_string_view(), pos);
+                return get_string().find_last_not_of(str.to_std_string_view(), pos);
         }
         size_type find_last_not_of(const string_type& str, size_type pos = npos) const
         {
             if (is_view())
-                return get_view_string().find_last_of(str, pos);
+                return get_view_string().find_last_not_of(str, pos);
             else
-                return get_string().find_last_of(str, pos);
+                return get_string().find_last_not_of(str, pos);
         }
         size_type find_last_not_of(const CharT* s, size_type pos, size_type n) const
         {
             if (is_view())
-                return get_view_string().find_last_of(s, pos, n);
+                return get_view_string().find_last_not_of(s, pos, n);
             else
-                return get_string().find_last_of(s, pos, n);
+                return get_string().find_last_not_of(s, pos, n);
         }
         size_type find_last_not_of(const CharT* s, size_type pos = npos) const
         {
             if (is_view())
-                return get_view_string().find_last_of(s, pos);
+                return get_view_string().find_last_not_of(s, pos);
             else
-                return get_string().find_last_of(s, pos);
+                return get_string().find_last_not_of(s, pos);
         }
         size_type find_last_not_of(CharT c, size_type pos = npos) const
         {
             if (is_view())
-                return get_view_string().find_last_of(c, pos);
+                return get_view_string().find_last_not_of(c, pos);
             else
-                return get_string().find_last_of(c, pos);
+                return get_string().find_last_not_of(c, pos);
         }
         string_type substr(size_type pos = 0, size_type n = npos) const
         {
-- 
2.43.0


From 08d384c46abf65f5617dffca023ea475997c63aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:01 +0000
Subject: [PATCH 062/178] fix: assigning a character to a quick_string gives
 that one character

---
 include/neolib/core/quick_string.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/neolib/core/quick_string.hpp b/include/neolib/core/quick_string.hpp
index e941dd5..671bc00 100644
--- a/include/neolib/core/quick_string.hpp
+++ b/include/neolib/core/quick_string.hpp
@@ -157,7 +157,7 @@ namespace neolib
         }
         basic_quick_string& operator=(CharT c) 
         { 
-            iContents = string_type{ 1, c }; 
+            iContents = string_type(1, c); 
             return *this; 
         }
         // iterators
-- 
2.43.0


From d16c7602c7ba6a7d9f39f16faf98f0bb507e791f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:51 +0000
Subject: [PATCH 063/178] fix: small buffer allocators compare equal when they
 share a buffer

---
 include/neolib/core/small_buffer_allocator.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/neolib/core/small_buffer_allocator.hpp b/include/neolib/core/small_buffer_allocator.hpp
index 93fa760..1912a33 100644
--- a/include/neolib/core/small_buffer_allocator.hpp
+++ b/include/neolib/core/small_buffer_allocator.hpp
@@ -137,11 +137,11 @@ namespace neolib
     public:
         bool operator==(const basic_small_buffer_allocator& aOther) const
         {
-            return false;
+            return iBuffer == aOther.iBuffer;
         }
         bool operator!=(const basic_small_buffer_allocator& aOther) const
         {
-            return true;
+            return iBuffer != aOther.iBuffer;
         }
     public:
         size_type max_size() const
-- 
2.43.0


From 56352bdeefbd48c8a6b3409d7361cf914b186b76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:51 +0000
Subject: [PATCH 064/178] fix: swapping growable_static_vectors exchanges
 elements, not inline buffers

---
 include/neolib/core/static_vector.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/neolib/core/static_vector.hpp b/include/neolib/core/static_vector.hpp
index 67bf52a..5b9dab9 100644
--- a/include/neolib/core/static_vector.hpp
+++ b/include/neolib/core/static_vector.hpp
@@ -135,6 +135,12 @@ namespace neolib
             std_type::operator=(ilist);
             return *this;
         }
+        constexpr void swap(growable_static_vector& other)
+        {
+            growable_static_vector temp{ std::move(other) };
+            other = std::move(*this);
+            *this = std::move(temp);
+        }
         // operations
     public:
         const std_type& as_std_vector() const
-- 
2.43.0


From b1a602f292f017ef8eb516081c1f23531c9b64a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:04 +0000
Subject: [PATCH 065/178] fix: copies of a small vector's std::vector do not
 borrow its inline buffer

---
 include/neolib/core/small_buffer_allocator.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/neolib/core/small_buffer_allocator.hpp b/include/neolib/core/small_buffer_allocator.hpp
index 1912a33..fdc2a7f 100644
--- a/include/neolib/core/small_buffer_allocator.hpp
+++ b/include/neolib/core/small_buffer_allocator.hpp
@@ -144,6 +144,10 @@ namespace neolib
             return iBuffer != aOther.iBuffer;
         }
     public:
+        basic_small_buffer_allocator select_on_container_copy_construction() const
+        {
+            return {};
+        }
         size_type max_size() const
         {
             return MaxSize;
-- 
2.43.0


From 5f658c7746b12fb6bd54ebb294530897bf83fb1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:27 +0000
Subject: [PATCH 066/178] fix: four-byte sequences beyond U+10FFFF are
 ill-formed UTF-8

---
 include/neolib/core/string_utf.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/neolib/core/string_utf.hpp b/include/neolib/core/string_utf.hpp
index 1a7eaaf..cad0bd1 100644
--- a/include/neolib/core/string_utf.hpp
+++ b/include/neolib/core/string_utf.hpp
@@ -246,7 +246,7 @@ namespace neolib
                 }
             }
             static const unicode_char_t sMaxCodePoint[] = { 0x7F, 0x7FF, 0xFFFF, 0x10FFFF };
-            if (unicodeChar <= sMaxCodePoint[aCount - 1]) // overlong sequences
+            if (unicodeChar <= sMaxCodePoint[aCount - 1] || unicodeChar > sMaxCodePoint[3]) // overlong sequences and values that are not code points
             {
                 aCurrent = start;
                 return INVALID_CHAR32;
-- 
2.43.0


From 2170a60f5939e0def2ec7349a03f58f97ac46a7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:45 +0000
Subject: [PATCH 067/178] fix: check_utf8 accepts U+FFFD

---
 include/neolib/core/string_utf.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/neolib/core/string_utf.hpp b/include/neolib/core/string_utf.hpp
index cad0bd1..6e9e143 100644
--- a/include/neolib/core/string_utf.hpp
+++ b/include/neolib/core/string_utf.hpp
@@ -422,7 +422,7 @@ namespace neolib
                     uch = detail::next_utf_bits(static_cast<unicode_char_t>(nch & ~0xF8), 3, i, end);
                 else
                     uch = INVALID_CHAR32;
-                if (i == old || uch == INVALID_CHAR32)
+                if (i == old)
                     return false;
             }
         }
-- 
2.43.0


From c57f0aa5c5aafec108bbc54d94fd7399a6f37259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:37:03 +0000
Subject: [PATCH 068/178] fix: wildcard_match of strings compiles

---
 include/neolib/core/string_utils.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/neolib/core/string_utils.hpp b/include/neolib/core/string_utils.hpp
index 5198ddb..2c92893 100644
--- a/include/neolib/core/string_utils.hpp
+++ b/include/neolib/core/string_utils.hpp
@@ -560,7 +560,7 @@ namespace neolib
     template <typename CharT, typename Traits, typename Alloc>
     inline bool wildcard_match(const std::basic_string<CharT, Traits, Alloc>& aText, const std::basic_string<CharT, Traits, Alloc>& aPattern)
     {
-        return do_wildcard_match<CharT, Traits, std::basic_string<CharT, Traits, Alloc>::const_iterator>(aText.begin(), aText.end(), aPattern.begin(), aPattern.end());
+        return do_wildcard_match<CharT, Traits, typename std::basic_string<CharT, Traits, Alloc>::const_iterator>(aText.begin(), aText.end(), aPattern.begin(), aPattern.end());
     }
 
     class string_search_fsa
-- 
2.43.0


From f55fc62b46efff5818059035bae1ec6909871637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:38:48 +0000
Subject: [PATCH 069/178] fix: tokens does not return more tokens than asked
 for

---
 include/neolib/core/string_utils.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/neolib/core/string_utils.hpp b/include/neolib/core/string_utils.hpp
index 2c92893..350522e 100644
--- a/include/neolib/core/string_utils.hpp
+++ b/include/neolib/core/string_utils.hpp
@@ -164,7 +164,7 @@ namespace neolib
             aTokens.push_back(value_type{ b, e });
             b = e;
         }
-        else if (b == e && last && last.value() != e && !aSkipEmptyTokens)
+        else if (b == e && last && last.value() != e && !aSkipEmptyTokens && (aMaxTokens == 0 || tokens < aMaxTokens))
             aTokens.push_back(value_type{ e, e });
         return b;
     }
-- 
2.43.0


From 93fd665fccacc77d4bb0e5a3a649c08d523c4078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:38:48 +0000
Subject: [PATCH 070/178] fix: replacing an empty string terminates

---
 include/neolib/core/string_utils.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/neolib/core/string_utils.hpp b/include/neolib/core/string_utils.hpp
index 350522e..85c4bc5 100644
--- a/include/neolib/core/string_utils.hpp
+++ b/include/neolib/core/string_utils.hpp
@@ -244,7 +244,7 @@ namespace neolib
     template <typename CharT, typename Traits, typename Alloc>
     inline bool replace_string(std::basic_string<CharT, Traits, Alloc>& aString, const std::basic_string<CharT, Traits, Alloc>& aSearch, const std::basic_string<CharT, Traits, Alloc>& aReplace, string_spans* aSpans, const string_span::type* aNewSpanType)
     {
-        if (aString.empty())
+        if (aString.empty() || aSearch.empty())
             return false;
         typedef std::basic_string<CharT, Traits, Alloc> string;
         typename string::size_type pos = 0;
-- 
2.43.0


From 9c7eb5cd03e1551f3fe325eccbe624d1df4a7e4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:38:48 +0000
Subject: [PATCH 071/178] fix: wildcard_match finds a suffix that occurs
 earlier too

---
 include/neolib/core/string_utils.hpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/include/neolib/core/string_utils.hpp b/include/neolib/core/string_utils.hpp
index 85c4bc5..1ef452c 100644
--- a/include/neolib/core/string_utils.hpp
+++ b/include/neolib/core/string_utils.hpp
@@ -537,14 +537,15 @@ namespace neolib
         for (typename substrings_t::const_iterator i = substrings.begin(); i != substrings.end();)
         {
             substring_t theSubstring = *i++;
-            FwdIter nextMatch = std::search(previousMatch, aTextEnd, theSubstring.first, theSubstring.second, detail::wildcard_compare<Traits>());
-            if (nextMatch == aTextEnd)
+            auto const length = theSubstring.second - theSubstring.first;
+            if (aTextEnd - previousMatch < length)
                 return false;
-            if (theSubstring.first == aPatternBegin && nextMatch != aTextBegin)
+            FwdIter nextMatch = theSubstring.first == aPatternBegin ? aTextBegin : // no '*' before: anchored at the start
+                theSubstring.second == aPatternEnd ? aTextEnd - length : // no '*' after: anchored at the end
+                std::search(previousMatch, aTextEnd, theSubstring.first, theSubstring.second, detail::wildcard_compare<Traits>());
+            if (nextMatch == aTextEnd || !std::equal(nextMatch, nextMatch + length, theSubstring.first, detail::wildcard_compare<Traits>()))
                 return false;
-            if (theSubstring.second == aPatternEnd && !std::equal(aTextEnd - (theSubstring.second - theSubstring.first), aTextEnd, theSubstring.first, detail::wildcard_compare<Traits>()))
-                return false;
-            if (theSubstring.second == aPatternEnd && aTextEnd - nextMatch != theSubstring.second - theSubstring.first)
+            if (theSubstring.second == aPatternEnd && nextMatch + length != aTextEnd)
                 return false;
             previousMatch = nextMatch + (theSubstring.second - theSubstring.first);
         }
-- 
2.43.0


From cec68e22f0904525702b7e7af1830ca362d32294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:38:48 +0000
Subject: [PATCH 072/178] fix: string_search_fsa reports single-character
 patterns and patterns that are prefixes of others

---
 src/core/string_utils.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/core/string_utils.cpp b/src/core/string_utils.cpp
index 818186f..53bcb89 100644
--- a/src/core/string_utils.cpp
+++ b/src/core/string_utils.cpp
@@ -82,7 +82,7 @@ namespace neolib
         if (aNext == aEnd)
         {
             auto wildcard = aState.match.find('*');
-            if (wildcard != aState.match.end() && wildcard->second.match.empty())
+            if (wildcard != aState.match.end() && aStart != nullptr)
                 for (auto const& action : wildcard->second.actions)
                     aResults.insert(std::make_tuple(&action, aStart, aEnd));
             return;
@@ -93,15 +93,15 @@ namespace neolib
             if (existing != aState.match.end())
             {
                 bool const wildcard = (existing->first == '*');
-                if (!wildcard && existing->second.match.empty())
+                if (!wildcard)
                     for (auto const& action : existing->second.actions)
-                        aResults.insert(std::make_tuple(&action, aStart, std::next(aNext)));
+                        aResults.insert(std::make_tuple(&action, aStart == nullptr ? aNext : aStart, std::next(aNext)));
                 search(existing->second, aStart == nullptr ? aNext : aStart, std::next(aNext), aEnd, false, aResults);
                 if (wildcard)
                 {
                     if (!aSearchingWildcard)
                         search(existing->second, aStart, aNext, aEnd, false, aResults);
-                    search(aState, aStart, std::next(aNext), aEnd, true, aResults);
+                    search(aState, aStart == nullptr ? aNext : aStart, std::next(aNext), aEnd, true, aResults);
                 }
             }
     }
-- 
2.43.0


From 9ba13bc7efa704e5b7bf6c9e887c1de745174a70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:38:48 +0000
Subject: [PATCH 073/178] fix: format: automatically numbered arguments are
 taken in turn

---
 include/neolib/core/string_utils.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/neolib/core/string_utils.hpp b/include/neolib/core/string_utils.hpp
index 1ef452c..8e637a0 100644
--- a/include/neolib/core/string_utils.hpp
+++ b/include/neolib/core/string_utils.hpp
@@ -676,7 +676,10 @@ namespace neolib
                         argId = static_cast<std::size_t>(std::stoi(std::string{ std::next(nextArg), argIdEnd }));
                     if (argId)
                         result.args.emplace_back(argId.value(), result.size());
-                    result.append(std::vformat(std::string_view{ nextArg, nextArgEnd }, std::make_format_args(aArgs...)));
+                    if (argIdEnd - nextArg == 1) // "{}" or "{:spec}": each is formatted on its own so tell it which argument it is
+                        result.append(std::vformat("{" + std::to_string(argId.value()) + std::string{ argIdEnd, nextArgEnd }, std::make_format_args(aArgs...)));
+                    else
+                        result.append(std::vformat(std::string_view{ nextArg, nextArgEnd }, std::make_format_args(aArgs...)));
                     if (argId)
                         result.args.back().end = result.size();
                 }
-- 
2.43.0


From dc8d06e357d996784ed3cc66b2fd0017d3938781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:41:55 +0000
Subject: [PATCH 074/178] fix: string_to_number uses all of the text

---
 include/neolib/core/string_numeric.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/neolib/core/string_numeric.hpp b/include/neolib/core/string_numeric.hpp
index 2f941cd..73cc005 100644
--- a/include/neolib/core/string_numeric.hpp
+++ b/include/neolib/core/string_numeric.hpp
@@ -122,27 +122,27 @@ namespace neolib
         namespace qi = boost::spirit::qi;
         {
             std::int32_t result = 0;
-            if (qi::parse(aStringView.begin(), aStringView.end(), qi::int_, result))
+            if (auto next = aStringView.begin(); qi::parse(next, aStringView.end(), qi::int_, result) && next == aStringView.end())
                 return result;
         }
         {
             std::uint32_t result = 0u;
-            if (qi::parse(aStringView.begin(), aStringView.end(), qi::uint_, result))
+            if (auto next = aStringView.begin(); qi::parse(next, aStringView.end(), qi::uint_, result) && next == aStringView.end())
                 return result;
         }
         {
             std::int64_t result = 0ll;
-            if (qi::parse(aStringView.begin(), aStringView.end(), qi::long_long, result))
+            if (auto next = aStringView.begin(); qi::parse(next, aStringView.end(), qi::long_long, result) && next == aStringView.end())
                 return result;
         }
         {
             std::uint64_t result = 0ull;
-            if (qi::parse(aStringView.begin(), aStringView.end(), qi::ulong_long, result))
+            if (auto next = aStringView.begin(); qi::parse(next, aStringView.end(), qi::ulong_long, result) && next == aStringView.end())
                 return result;
         }
         {
             double result = 0.0;
-            if (qi::parse(aStringView.begin(), aStringView.end(), qi::double_, result))
+            if (auto next = aStringView.begin(); qi::parse(next, aStringView.end(), qi::double_, result) && next == aStringView.end())
                 return result;
         }
         throw string_to_number_failure();
-- 
2.43.0


From 9eecf67a8fe409e2aae0050adbc57cc2c66d46a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:41:55 +0000
Subject: [PATCH 075/178] fix: string_to_int32 of a string agrees with
 string_to_int32 of a view

---
 include/neolib/core/string_numeric.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/neolib/core/string_numeric.hpp b/include/neolib/core/string_numeric.hpp
index 73cc005..5da4b76 100644
--- a/include/neolib/core/string_numeric.hpp
+++ b/include/neolib/core/string_numeric.hpp
@@ -57,7 +57,7 @@ namespace neolib
     inline std::int32_t string_to_int32(const std::basic_string<CharT, Traits, Alloc>& aString, int aBase = 10)
     {
         if (aBase == 10) // todo: does spirit provide other bases?
-            string_to_int32(static_cast<std::basic_string_view<CharT, Traits>>(aString));
+            return string_to_int32(static_cast<std::basic_string_view<CharT, Traits>>(aString));
         return strtol(aString.c_str(), nullptr, aBase);
     }
         
-- 
2.43.0


From 7bb6fe31b48f4f4f51e438f79c026ddba2152ab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:47:52 +0000
Subject: [PATCH 076/178] fix: a URI escape at the end of the text is decoded

---
 src/io/uri.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io/uri.cpp b/src/io/uri.cpp
index eaa6d99..64862a3 100644
--- a/src/io/uri.cpp
+++ b/src/io/uri.cpp
@@ -196,7 +196,7 @@ namespace neolib
         for (auto i = aString.begin(); i != aString.end(); ++i)
             if (*i != '%')
                 escaped += *i;
-            else if (i < aString.end() - 3)
+            else if (aString.end() - i >= 3)
             {
                 escaped += static_cast<char>(string_to_uint32(std::string{ i + 1, i + 3 }, 16));
                 i += 2;
-- 
2.43.0


From 6a24bb07f8313b09fd76f12259a3d8560517f5cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:47:52 +0000
Subject: [PATCH 077/178] fix: URI components are everything up to the next
 delimiter

---
 src/io/uri.cpp | 38 +++++++++++++++++---------------------
 1 file changed, 17 insertions(+), 21 deletions(-)

diff --git a/src/io/uri.cpp b/src/io/uri.cpp
index 64862a3..6389b37 100644
--- a/src/io/uri.cpp
+++ b/src/io/uri.cpp
@@ -206,38 +206,34 @@ namespace neolib
 
     std::string uri::parse_path(const std::string& aRest)
     {
-        neolib::vecarray<std::pair<std::string::const_iterator, std::string::const_iterator>, 2> bits;
-        std::string sep{ "/" };
-        neolib::tokens(aRest.begin(), aRest.end(), sep.begin(), sep.end(), bits, 2, false, false);
-        if (bits.size() == 2)
-            iPath = unescaped(std::string{ bits[1].first, aRest.end() });
-        return std::string{ bits[0].first, bits[0].second };
+        auto const pos = aRest.find('/');
+        if (pos != std::string::npos)
+            iPath = unescaped(aRest.substr(pos + 1));
+        return aRest.substr(0, pos);
     }
 
     std::string uri::parse_query(const std::string& aRest)
     {
-        neolib::vecarray<std::string, 2> bits;
-        neolib::tokens(aRest, std::string{ "?" }, bits, 2, false, false);
-        if (bits.size() == 2)
-            iQuery = unescaped(bits[1]);
-        return bits.front();
+        auto const pos = aRest.find('?');
+        if (pos != std::string::npos)
+            iQuery = unescaped(aRest.substr(pos + 1));
+        return aRest.substr(0, pos);
     }
 
     std::string uri::parse_fragment(const std::string& aRest)
     {
-        neolib::vecarray<std::string, 2> bits;
-        neolib::tokens(aRest, std::string{ "#" }, bits, 2, false, false);
-        if (bits.size() == 2)
-            iFragment = unescaped(bits[1]);
-        return bits.front();
+        auto const pos = aRest.find('#');
+        if (pos != std::string::npos)
+            iFragment = unescaped(aRest.substr(pos + 1));
+        return aRest.substr(0, pos);
     }
 
     std::string uri::parse_scheme(const std::string& aRest)
     {
-        neolib::vecarray<std::string, 2> bits;
-        neolib::tokens(aRest, std::string{ "://" }, bits, 2, false, true);
-        if (bits.size() == 2)
-            iScheme = unescaped(bits[0]);
-        return bits.back();
+        auto const pos = aRest.find_first_of(":/?#");
+        if (pos == std::string::npos || aRest.compare(pos, 3, "://") != 0)
+            return aRest;
+        iScheme = unescaped(aRest.substr(0, pos));
+        return aRest.substr(pos + 3);
     }
 }
-- 
2.43.0


From 244c451b4a8887c293d23db2b9b80a7701bb2030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:47:52 +0000
Subject: [PATCH 078/178] fix: the host of a URI may be an IP literal

---
 src/io/uri.cpp | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/src/io/uri.cpp b/src/io/uri.cpp
index 6389b37..355d82b 100644
--- a/src/io/uri.cpp
+++ b/src/io/uri.cpp
@@ -82,17 +82,12 @@ namespace neolib
 
     std::string uri_authority::parse_host(const std::string& aRest)
     {
-        neolib::vecarray<std::pair<std::string::const_iterator, std::string::const_iterator>, 2> bits;
-        std::string sep(":");
-        neolib::tokens(aRest.begin(), aRest.end(), sep.begin(), sep.end(), bits, 2, false, false);
-        if (bits.size() == 2)
-        {
-            iHost = std::string{ bits[0].first, bits[0].second };
-            return std::string(bits[1].first, bits[1].second);
-        }
-        else if (bits.size() == 1)
-            iHost = std::string(bits[0].first, bits[0].second);
-        return {};
+        if (aRest.empty())
+            return {};
+        auto const literalEnd = (aRest[0] == '[' ? aRest.find(']') : std::string::npos); // the colons of an IP literal are not a port's
+        auto const pos = aRest.find(':', literalEnd != std::string::npos ? literalEnd : 0);
+        iHost = aRest.substr(0, pos);
+        return pos != std::string::npos ? aRest.substr(pos + 1) : std::string{};
     }
 
     void uri_authority::parse_port(const std::string& aRest)
-- 
2.43.0


From 1f8197b451a799e0bd6773bf3f252768e78d60da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:47:52 +0000
Subject: [PATCH 079/178] fix: delimiters in the components of a URI are
 escaped when it is written

---
 include/neolib/io/uri.hpp | 7 ++++---
 src/io/uri.cpp            | 7 ++++++-
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/include/neolib/io/uri.hpp b/include/neolib/io/uri.hpp
index c8a2256..e863adb 100644
--- a/include/neolib/io/uri.hpp
+++ b/include/neolib/io/uri.hpp
@@ -86,6 +86,7 @@ namespace neolib
         void set_fragment(const std::string& aFragment);
     public:
         static std::string escaped(const std::string& aString);
+        static std::string escaped(const std::string& aString, const std::string& aReserved);
         static std::string unescaped(const std::string& String);
     private:
         void parse_authority(const std::string& aRest);
@@ -116,11 +117,11 @@ namespace neolib
     template <typename Elem, typename Traits>
     inline std::basic_ostream<Elem, Traits>& operator<<(std::basic_ostream<Elem, Traits>& aStream, const uri& aUri)
     {
-        aStream << uri::escaped(aUri.scheme()) << "://" << aUri.authority() << "/" << uri::escaped(aUri.path());
+        aStream << uri::escaped(aUri.scheme()) << "://" << aUri.authority() << "/" << uri::escaped(aUri.path(), "%?#");
         if (!aUri.query().empty())
-            aStream << "?" << uri::escaped(aUri.query());
+            aStream << "?" << uri::escaped(aUri.query(), "%#");
         if (!aUri.fragment().empty())
-            aStream << "#" << uri::escaped(aUri.fragment());
+            aStream << "#" << uri::escaped(aUri.fragment(), "%#");
         return aStream;
     }
 }
diff --git a/src/io/uri.cpp b/src/io/uri.cpp
index 355d82b..4d3f011 100644
--- a/src/io/uri.cpp
+++ b/src/io/uri.cpp
@@ -168,6 +168,11 @@ namespace neolib
     }
 
     std::string uri::escaped(const std::string& aString)
+    {
+        return escaped(aString, {});
+    }
+
+    std::string uri::escaped(const std::string& aString, const std::string& aReserved)
     {
         static const std::unordered_set<char> sUrlChars = 
         {
@@ -178,7 +183,7 @@ namespace neolib
         };
         std::string escaped;
         for (auto ch : aString)
-            if (sUrlChars.find(ch) != sUrlChars.end())
+            if (sUrlChars.find(ch) != sUrlChars.end() && aReserved.find(ch) == std::string::npos)
                 escaped += ch;
             else
                 escaped += "%" + uint32_to_string<char>(static_cast<uint8_t>(ch), 16, 2);
-- 
2.43.0


From 71a989a6f15934345029d0a0f9937d1fa7ec9012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:03:03 +0000
Subject: [PATCH 080/178] fix: the text of a JSON number ends where the number
 ends

---
 include/neolib/file/json.inl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/neolib/file/json.inl b/include/neolib/file/json.inl
index 15b3593..5425461 100644
--- a/include/neolib/file/json.inl
+++ b/include/neolib/file/json.inl
@@ -1512,13 +1512,13 @@ namespace neolib
                     break;
                 case json_detail::state::NumberIntNeedDigit:
                     currentElement.type = element::Number;
-                    currentElement.start = nextInputCh;
+                    currentElement.start = (nextOutputCh = nextInputCh);
                     break;
                 case json_detail::state::NumberInt:
                     if (currentElement.type != element::Number)
                     {
                         currentElement.type = element::Number;
-                        currentElement.start = nextInputCh;
+                        currentElement.start = (nextOutputCh = nextInputCh);
                     }
                     break;
                 case json_detail::state::Array:
-- 
2.43.0


From e347240c72ee99eaf2fd50e90320571da645ebf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:03:03 +0000
Subject: [PATCH 081/178] fix: separators in JSON without keywords are those of
 standard JSON

---
 include/neolib/file/json.inl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/neolib/file/json.inl b/include/neolib/file/json.inl
index 5425461..c3e7f17 100644
--- a/include/neolib/file/json.inl
+++ b/include/neolib/file/json.inl
@@ -1450,7 +1450,7 @@ namespace neolib
                     switch (context())
                     {
                     case json_type::Object:
-                        if constexpr (syntax == json_syntax::Standard)
+                        if constexpr (syntax == json_syntax::Standard || syntax == json_syntax::StandardNoKeywords)
                         {
                             if (std::holds_alternative<std::monostate>(currentElement.name))
                             {
@@ -1473,7 +1473,7 @@ namespace neolib
                         }
                         break;
                     case json_type::Array:
-                        if constexpr (syntax == json_syntax::Standard)
+                        if constexpr (syntax == json_syntax::Standard || syntax == json_syntax::StandardNoKeywords)
                         {
                             if (*nextInputCh == ',')
                                 nextState = json_detail::state::NeedValue;
-- 
2.43.0


From e9dc1be8229cf3e2d6b4ebda1b9eb6e59800f4f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:03:03 +0000
Subject: [PATCH 082/178] fix: JSON member names are escaped when they are
 written

---
 include/neolib/file/json.inl | 74 ++++++++++++++++++++----------------
 1 file changed, 41 insertions(+), 33 deletions(-)

diff --git a/include/neolib/file/json.inl b/include/neolib/file/json.inl
index c3e7f17..33a60b1 100644
--- a/include/neolib/file/json.inl
+++ b/include/neolib/file/json.inl
@@ -1703,6 +1703,42 @@ namespace neolib
             for (int32_t l = 0; l < level; ++l)
                 aOutput << aIndent;
         };
+        auto write_string = [&aOutput](const json_string& aString)
+        {
+            static const char* const hexDigits = "0123456789abcdef";
+            aOutput << '\"';
+            for (auto const& ch : aString)
+                switch (ch)
+                {
+                case '\"':
+                    aOutput << "\\\"";
+                    break;
+                case '\\':
+                    aOutput << "\\\\";
+                    break;
+                case '\b':
+                    aOutput << "\\b";
+                    break;
+                case '\f':
+                    aOutput << "\\f";
+                    break;
+                case '\n':
+                    aOutput << "\\n";
+                    break;
+                case '\r':
+                    aOutput << "\\r";
+                    break;
+                case '\t':
+                    aOutput << "\\t";
+                    break;
+                default:
+                    if (static_cast<std::uint32_t>(ch) >= 32u)
+                        aOutput << ch;
+                    else
+                        aOutput << "\\u00" << hexDigits[ch / 16] << hexDigits[ch % 16];
+                }
+            aOutput << '\"';
+        };
         for (auto i = cbegin(); i != end; ++i)
         {
             auto const& v = **i;
@@ -1710,7 +1746,10 @@ namespace neolib
             if (i.value().has_name())
             {
                 if (!i.value().name_is_keyword())
-                    aOutput << '\"' << i.value().name() << "\": ";
+                {
+                    write_string(i.value().name());
+                    aOutput << ": ";
+                }
                 else
                     aOutput << i.value().name() << ": ";
             }
@@ -1752,38 +1791,7 @@ namespace neolib
                 aOutput << std::get<json_uint>(v);
                 break;
             case json_type::String:
-                aOutput << '\"';
-                for (auto const& ch : std::get<json_string>(v))
-                    switch (ch)
-                    {
-                    case '\"':
-                        aOutput << "\\\"";
-                        break;
-                    case '\\':
-                        aOutput << "\\\\";
-                        break;
-                    case '\b':
-                        aOutput << "\\b";
-                        break;
-                    case '\f':
-                        aOutput << "\\f";
-                        break;
-                    case '\n':
-                        aOutput << "\\n";
-                        break;
-                    case '\r':
-                        aOutput << "\\r";
-                        break;
-                    case '\t':
-                        aOutput << "\\t";
-                        break;
-                    default:
-                        if (static_cast<std::uint32_t>(ch) >= 32u)
-                            aOutput << ch;
-                        else
-                            aOutput << "\\u" << std::hex << std::setw(4) << std::setfill('0') << (int)ch;
-                    }
-                aOutput << '\"';
+                write_string(std::get<json_string>(v));
                 break;
             case json_type::Bool:
                 aOutput << (std::get<json_bool>(v) ? trueString : falseString);
-- 
2.43.0


From 5406fcc36c8d7dad4bcba610894785efff006949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:03:03 +0000
Subject: [PATCH 083/178] fix: JSON numbers keep their value when they are
 written

---
 include/neolib/file/json.inl | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/neolib/file/json.inl b/include/neolib/file/json.inl
index 33a60b1..d2f586a 100644
--- a/include/neolib/file/json.inl
+++ b/include/neolib/file/json.inl
@@ -42,6 +42,7 @@
 #include <unordered_map>
 #include <fstream>
 #include <iomanip>
+#include <limits>
 #include <type_traits>
 #include <boost/lexical_cast.hpp>
 #include <boost/functional/hash.hpp>
@@ -1776,7 +1777,11 @@ namespace neolib
                     aOutput << ']';
                 break;
             case json_type::Double:
-                aOutput << std::get<json_double>(v);
+                {
+                    auto const precision = aOutput.precision(std::numeric_limits<json_double>::max_digits10);
+                    aOutput << std::get<json_double>(v);
+                    aOutput.precision(precision);
+                }
                 break;
             case json_type::Int64:
                 aOutput << std::get<json_int64>(v);
-- 
2.43.0


From e50536f1ae60d2222c0e13542d236bcc1c03f524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:03:19 +0000
Subject: [PATCH 084/178] fix: unicode escapes are allowed in JSON member names

---
 include/neolib/file/json.inl | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/neolib/file/json.inl b/include/neolib/file/json.inl
index d2f586a..c0f2edc 100644
--- a/include/neolib/file/json.inl
+++ b/include/neolib/file/json.inl
@@ -1599,8 +1599,7 @@ namespace neolib
                             {
                                 iUtf16HighSurrogate = u16ch;
                                 currentElement.auxType = element::Unknown;
-                                currentElement.type = element::String;
-                                nextState = json_detail::state::String;
+                                nextState = currentElement.type == element::String ? json_detail::state::String : json_detail::state::Name;
                                 break;
                             }
                             else if (utf16::is_low_surrogate(u16ch) && iUtf16HighSurrogate != std::nullopt)
@@ -1654,7 +1653,7 @@ namespace neolib
                                 }
                             }
                             currentElement.auxType = element::Unknown;
-                            nextState = json_detail::state::String;
+                            nextState = currentElement.type == element::String ? json_detail::state::String : json_detail::state::Name;
                         }
                         else
                         {
-- 
2.43.0


From e5ca808b4bf2519199875b5af2ed603c76ad7fad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:03:19 +0000
Subject: [PATCH 085/178] fix: RJSON strings may contain comment delimiters

---
 include/neolib/file/json.inl | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/neolib/file/json.inl b/include/neolib/file/json.inl
index c0f2edc..8e75804 100644
--- a/include/neolib/file/json.inl
+++ b/include/neolib/file/json.inl
@@ -622,6 +622,10 @@ namespace neolib
                     else if (token == json_detail::token::EndOfInput)
                         return state::Error;
                     return state::CStyleComment;
+                case state::String:
+                case state::Name:
+                case state::Escaping:
+                    break;
                 default:
                     if (token == json_detail::token::ForwardSlash)
                     {
-- 
2.43.0


From 5c5ac2483d1cbcb90373a15faa3041f795b1737c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:03:19 +0000
Subject: [PATCH 086/178] fix: other quote characters are part of RJSON strings
 and names

---
 include/neolib/file/json.inl | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/include/neolib/file/json.inl b/include/neolib/file/json.inl
index 8e75804..87788e2 100644
--- a/include/neolib/file/json.inl
+++ b/include/neolib/file/json.inl
@@ -1505,6 +1505,16 @@ namespace neolib
                     currentElement.start = (nextOutputCh = nextInputCh + 1);
                     break;
                 case json_detail::state::EndName:
+                    if constexpr (syntax == json_syntax::Relaxed || syntax == json_syntax::Functional)
+                    {
+                        if (*nextInputCh != *(currentElement.start - 1))
+                        {
+                            if (currentElement.start != nextOutputCh)
+                                *nextOutputCh++ = *nextInputCh;
+                            nextState = json_detail::state::Name;
+                            break;
+                        }
+                    }
                     if (std::holds_alternative<std::monostate>(currentElement.name))
                     {
                         json_string newName
@@ -1544,11 +1554,15 @@ namespace neolib
                     currentElement.start = (nextOutputCh = nextInputCh);
                     break;
                 case json_detail::state::StringEnd:
-                    if constexpr (syntax == json_syntax::Relaxed)
+                    if constexpr (syntax == json_syntax::Relaxed || syntax == json_syntax::Functional)
                     {
                         // relaxed: support for three different quote characters
                         if (*nextInputCh != *(currentElement.start - 1))
+                        {
+                            if (currentElement.start != nextOutputCh)
+                                *nextOutputCh++ = *nextInputCh;
                             nextState = json_detail::state::String;
+                        }
                     }
                     break;
                 case json_detail::state::Escaped:
-- 
2.43.0


From f6b39523c33e6ace07b8f45ec729d1a5de083f8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:32 +0000
Subject: [PATCH 087/178] fix: a unicode escape at the start of a JSON string
 replaces its backslash

---
 include/neolib/file/json.inl | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/neolib/file/json.inl b/include/neolib/file/json.inl
index 87788e2..6b7ad52 100644
--- a/include/neolib/file/json.inl
+++ b/include/neolib/file/json.inl
@@ -1565,9 +1565,11 @@ namespace neolib
                         }
                     }
                     break;
+                case json_detail::state::Escaping:
+                    if (nextOutputCh == currentElement.start && iUtf16HighSurrogate == std::nullopt)
+                        nextOutputCh = nextInputCh;
+                    break;
                 case json_detail::state::Escaped:
-                    if (nextOutputCh == currentElement.start)
-                        nextOutputCh = (currentState != json_detail::state::EscapingUnicode ? nextInputCh - 1 : nextInputCh - 2);
                     if (currentState == json_detail::state::Escaping)
                     {
                         switch (*(nextInputCh))
-- 
2.43.0


From dbb988a8df67eab6931cb130295bd753bed01a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:32 +0000
Subject: [PATCH 088/178] fix: a comma may follow an array, an object or a
 space in RJSON arrays

---
 include/neolib/file/json.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/neolib/file/json.inl b/include/neolib/file/json.inl
index 6b7ad52..2b10277 100644
--- a/include/neolib/file/json.inl
+++ b/include/neolib/file/json.inl
@@ -340,7 +340,7 @@ namespace neolib
                     // state::Value
                     std::array<state, TOKEN_COUNT>
                     {{//TXXX  TOBJ  TCLO  TARR  TCLA  TCOL  TCOM  TQOT  TCHA  TESC  TESU  TECH  TPLU  TMIN  TDIG  THEX  TEHX  TDEC  TEXP  TAST  TFWD  TSYM  TSPA  TWSP  TZZZ
-                        SXXX, SOBJ, SCLO, SARR, SCLO, SXXX, SXXX, SSTR, SKEY, SXXX, SKEY, SKEY, SKEY, SNU1, SNU2, SKEY, SKEY, SKEY, SKEY, SKEY, SKEY, SKEY, SIGN, SIGN, SZZZ
+                        SXXX, SOBJ, SCLO, SARR, SCLO, SXXX, SIGN, SSTR, SKEY, SXXX, SKEY, SKEY, SKEY, SNU1, SNU2, SKEY, SKEY, SKEY, SKEY, SKEY, SKEY, SKEY, SIGN, SIGN, SZZZ
                     }};
             }
         }
-- 
2.43.0


From daf0429989c878b9a0bb62d9f8c1ed7d39b2b9fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:08:18 +0000
Subject: [PATCH 089/178] fix: clearing a JSON document clears its values too

---
 include/neolib/file/json.inl | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/neolib/file/json.inl b/include/neolib/file/json.inl
index 2b10277..44b3087 100644
--- a/include/neolib/file/json.inl
+++ b/include/neolib/file/json.inl
@@ -1113,6 +1113,9 @@ namespace neolib
     {
         iCursor = decltype(iCursor){};
         document().clear();
+        iErrorText.clear();
+        iRoot.reset();
+        iCompositeValueStack.clear();
         iUtf16HighSurrogate = std::nullopt;
     }
 
-- 
2.43.0


From f8ea56fa7e5ee0e711c18fbdf1ccc16741305cd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:08:18 +0000
Subject: [PATCH 090/178] fix: JSON brackets have to match

---
 include/neolib/file/json.inl | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/neolib/file/json.inl b/include/neolib/file/json.inl
index 44b3087..cff964e 100644
--- a/include/neolib/file/json.inl
+++ b/include/neolib/file/json.inl
@@ -1454,7 +1454,14 @@ namespace neolib
                         break;
                     }
                     if (nextState == json_detail::state::Close)
+                    {
+                        if (context() != (*nextInputCh == '}' ? json_type::Object : json_type::Array) || !std::holds_alternative<std::monostate>(currentElement.name))
+                        {
+                            create_parse_error();
+                            return false;
+                        }
                         iCompositeValueStack.pop_back();
+                    }
                     switch (context())
                     {
                     case json_type::Object:
-- 
2.43.0


From 0e35aa77c05c7c476f84888c7cf6d8e9d6e4b635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:08:18 +0000
Subject: [PATCH 091/178] fix: a JSON document ends with its root value

---
 include/neolib/file/json.inl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/neolib/file/json.inl b/include/neolib/file/json.inl
index cff964e..958532f 100644
--- a/include/neolib/file/json.inl
+++ b/include/neolib/file/json.inl
@@ -1340,7 +1340,7 @@ namespace neolib
                     create_parse_error();
                     return false;
                 case json_detail::state::EndOfParse:
-                    if (nextInputCh != &iDocumentText.back())
+                    if (nextInputCh != &iDocumentText.back() || !iCompositeValueStack.empty())
                     {
                         create_parse_error();
                         return false;
@@ -1500,7 +1500,7 @@ namespace neolib
                         break;
                     default:
                         if (nextState == json_detail::state::Close)
-                            nextState = json_detail::state::Value;
+                            nextState = json_detail::state::Element;
                         break;
                     }
                     currentElement.type = element::Unknown;
-- 
2.43.0


From a7ea1de5a22e9da32b3135b8a6b6d57208d3ee25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:08:18 +0000
Subject: [PATCH 092/178] fix: a JSON document of nothing but whitespace is an
 empty document

---
 include/neolib/file/json.inl | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/neolib/file/json.inl b/include/neolib/file/json.inl
index 958532f..762afb6 100644
--- a/include/neolib/file/json.inl
+++ b/include/neolib/file/json.inl
@@ -1345,6 +1345,14 @@ namespace neolib
                         create_parse_error();
                         return false;
                     }
+                    if constexpr (syntax == json_syntax::Standard || syntax == json_syntax::StandardNoKeywords)
+                    {
+                        if (!has_root())
+                        {
+                            create_parse_error("empty document");
+                            return false;
+                        }
+                    }
                     return true;
                 default:
                     if (currentState == nextState)
-- 
2.43.0


From c9d7439f9a99e61788c070abeb44db32cc786855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:08:18 +0000
Subject: [PATCH 093/178] fix: a comma in JSON has to be between two elements

---
 include/neolib/file/json.inl | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/include/neolib/file/json.inl b/include/neolib/file/json.inl
index 762afb6..7f8b3bf 100644
--- a/include/neolib/file/json.inl
+++ b/include/neolib/file/json.inl
@@ -256,7 +256,7 @@ namespace neolib
         template <json_syntax Syntax>
         constexpr inline std::array<state, TOKEN_COUNT> object_state()
         {
-            if constexpr (Syntax != json_syntax::Functional)
+            if constexpr (Syntax == json_syntax::Relaxed)
             {
                 return
                     // state::Object
@@ -265,6 +265,15 @@ namespace neolib
                         SXXX, SOBJ, SCLO, SXXX, SXXX, SXXX, SNOV, SNAM, SKEY, SXXX, SKEY, SKEY, SXXX, SXXX, SXXX, SKEY, SKEY, SXXX, SKEY, SXXX, SXXX, SXXX, SIGN, SIGN, SXXX
                     }};
             }
+            else if constexpr (Syntax == json_syntax::Standard || Syntax == json_syntax::StandardNoKeywords)
+            {
+                return
+                    // state::Object
+                    std::array<state, TOKEN_COUNT>
+                    {{//TXXX  TOBJ  TCLO  TARR  TCLA  TCOL  TCOM  TQOT  TCHA  TESC  TESU  TECH  TPLU  TMIN  TDIG  THEX  TEHX  TDEC  TEXP  TAST  TFWD  TSYM  TSPA  TWSP  TZZZ
+                        SXXX, SOBJ, SCLO, SXXX, SXXX, SXXX, SXXX, SNAM, SKEY, SXXX, SKEY, SKEY, SXXX, SXXX, SXXX, SKEY, SKEY, SXXX, SKEY, SXXX, SXXX, SXXX, SIGN, SIGN, SXXX
+                    }};
+            }
             else
             {
                 return
@@ -417,7 +426,7 @@ namespace neolib
             // state::NeedValueSeparator
             std::array<state, TOKEN_COUNT>
             {{//TXXX  TOBJ  TCLO  TARR  TCLA  TCOL  TCOM  TQOT  TCHA  TESC  TESU  TECH  TPLU  TMIN  TDIG  THEX  TEHX  TDEC  TEXP  TAST  TFWD  TSYM  TSPA  TWSP  TZZZ
-                SXXX, SXXX, SCLO, SXXX, SCLO, SXXX, SVAL, SXXX, SXXX, SXXX, SXXX, SXXX, SXXX, SXXX, SXXX, SXXX, SXXX, SXXX, SXXX, SXXX, SXXX, SXXX, SIGN, SIGN, SXXX
+                SXXX, SXXX, SCLO, SXXX, SCLO, SXXX, SNVA, SXXX, SXXX, SXXX, SXXX, SXXX, SXXX, SXXX, SXXX, SXXX, SXXX, SXXX, SXXX, SXXX, SXXX, SXXX, SIGN, SIGN, SXXX
             }},
             // state::NeedValue
             need_value_state<Syntax>(),
-- 
2.43.0


From 1c945478e21271f8dc18cb1bbbd196f8852f2117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:08:18 +0000
Subject: [PATCH 094/178] fix: an unquoted JSON member name is followed by a
 colon

---
 include/neolib/file/json.inl | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/neolib/file/json.inl b/include/neolib/file/json.inl
index 7f8b3bf..377a7ad 100644
--- a/include/neolib/file/json.inl
+++ b/include/neolib/file/json.inl
@@ -1493,8 +1493,13 @@ namespace neolib
                                 else
                                     nextState = json_detail::state::NeedObjectValueSeparator;
                             }
+                            else if (*nextInputCh != ',')
+                                nextState = *nextInputCh != ':' ? json_detail::state::EndName : json_detail::state::NeedValue;
                             else
-                                nextState = json_detail::state::NeedValue;
+                            {
+                                create_parse_error();
+                                return false;
+                            }
                         }
                         else
                         {
-- 
2.43.0


From af75618aa3a473680495b9099feb22a75c8869ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:08:18 +0000
Subject: [PATCH 095/178] fix: JSON numbers have no leading zeros

---
 include/neolib/file/json.inl | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/neolib/file/json.inl b/include/neolib/file/json.inl
index 377a7ad..65bd6e4 100644
--- a/include/neolib/file/json.inl
+++ b/include/neolib/file/json.inl
@@ -1409,6 +1409,15 @@ namespace neolib
                     case element::Number:
                         {
                             json_string newNumber{ currentElement.start, currentElement.start == nextOutputCh ? nextInputCh : nextOutputCh };
+                            if constexpr (syntax == json_syntax::Standard || syntax == json_syntax::StandardNoKeywords)
+                            {
+                                auto const firstDigit = currentElement.start + (*currentElement.start == '-' ? 1 : 0);
+                                if (*firstDigit == '0' && *std::next(firstDigit) >= '0' && *std::next(firstDigit) <= '9')
+                                {
+                                    create_parse_error("leading zero");
+                                    return false;
+                                }
+                            }
                             if (currentState == json_detail::state::NumberInt)
                             {
                                 std::visit([this, &currentElement](auto&& arg)
-- 
2.43.0


From f920c797be7ac0b3d44b4c578819d7323901736f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:08:18 +0000
Subject: [PATCH 096/178] fix: unpaired surrogates in JSON strings are errors

---
 include/neolib/file/json.inl | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/include/neolib/file/json.inl b/include/neolib/file/json.inl
index 65bd6e4..8cbb0e5 100644
--- a/include/neolib/file/json.inl
+++ b/include/neolib/file/json.inl
@@ -1340,6 +1340,12 @@ namespace neolib
                         }
                     }
                 }
+                if (iUtf16HighSurrogate != std::nullopt && nextState != json_detail::state::Escaping && nextState != json_detail::state::EscapingUnicode &&
+                    !(nextState == json_detail::state::Escaped && currentState == json_detail::state::EscapingUnicode))
+                {
+                    create_parse_error("unpaired surrogate");
+                    return false;
+                }
                 switch (nextState)
                 {
                 case json_detail::state::Ignore:
@@ -1646,7 +1652,6 @@ namespace neolib
                     }
                     else if (currentState == json_detail::state::EscapingUnicode)
                     {
-                        // todo throw an error if there are invalid surrogate pairs
                         if (currentElement.auxType != element::EscapedUnicode)
                         {
                             currentElement.auxType = element::EscapedUnicode;
@@ -1656,6 +1661,11 @@ namespace neolib
                         {
                             string_type s{ currentElement.auxStart, nextInputCh + 1 };
                             char16_t u16ch = static_cast<char16_t>(std::stoul(s, nullptr, 16));
+                            if (utf16::is_low_surrogate(u16ch) != (iUtf16HighSurrogate != std::nullopt))
+                            {
+                                create_parse_error("unpaired surrogate");
+                                return false;
+                            }
                             if (utf16::is_high_surrogate(u16ch))
                             {
                                 iUtf16HighSurrogate = u16ch;
-- 
2.43.0


From 8842bb379e4498abcbe3df18ab8f6920d63c99b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:08:18 +0000
Subject: [PATCH 097/178] fix: destroying a deeply nested JSON document does
 not overflow the stack

---
 include/neolib/file/json.hpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/include/neolib/file/json.hpp b/include/neolib/file/json.hpp
index 895e832..7b5808b 100644
--- a/include/neolib/file/json.hpp
+++ b/include/neolib/file/json.hpp
@@ -175,8 +175,17 @@ namespace neolib
             }
             ~basic_json_node()
             {
-                while (iLastChild != nullptr)
-                    destruct_child(iLastChild);
+                // not recursive, documents may be deep
+                auto node = this;
+                for (;;)
+                {
+                    while (node->iLastChild != nullptr)
+                        node = &node->iLastChild->iNode;
+                    if (node == this)
+                        break;
+                    node = &node->iParent->iNode;
+                    node->destruct_child(node->iLastChild);
+                }
             }
         public:
             json_value* buy_child(json_value& aParent, const value_type& aValue)
-- 
2.43.0


From d85b4289ba3e5d33144d2b14312508834c3e3500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:08:18 +0000
Subject: [PATCH 098/178] fix: writing a JSON document to a file reports
 failure

---
 include/neolib/file/json.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/neolib/file/json.inl b/include/neolib/file/json.inl
index 8cbb0e5..93472b1 100644
--- a/include/neolib/file/json.inl
+++ b/include/neolib/file/json.inl
@@ -1757,7 +1757,7 @@ namespace neolib
     inline bool basic_json<Syntax, Alloc, CharT, Traits, CharAlloc>::write(const std::string& aPath, const string_type& aIndent)
     {
         std::ofstream output{ aPath, std::ofstream::out | std::ofstream::trunc };
-        return write(output, aIndent);
+        return output && write(output, aIndent) && output.flush();
     }
 
     template <json_syntax Syntax, typename Alloc, typename CharT, typename Traits, typename CharAlloc>
-- 
2.43.0


From 8029dd5537ba66528e1de80c89143912513c261b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:11:48 +0000
Subject: [PATCH 099/178] fix: a colon in JSON follows a name, a comma an
 element

---
 include/neolib/file/json.inl | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/neolib/file/json.inl b/include/neolib/file/json.inl
index 93472b1..1b31896 100644
--- a/include/neolib/file/json.inl
+++ b/include/neolib/file/json.inl
@@ -1494,6 +1494,12 @@ namespace neolib
                         }
                         iCompositeValueStack.pop_back();
                     }
+                    else if ((*nextInputCh == ':' && std::holds_alternative<std::monostate>(currentElement.name)) ||
+                        (*nextInputCh == ',' && context() == json_type::Unknown))
+                    {
+                        create_parse_error();
+                        return false;
+                    }
                     switch (context())
                     {
                     case json_type::Object:
-- 
2.43.0


From 409553000160a3769c614aefcf4a773b47f9a047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:24:25 +0000
Subject: [PATCH 100/178] fix: end a number or a word before a comment in
 relaxed JSON; '/*/' does not close itself

---
 include/neolib/file/json.inl | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/neolib/file/json.inl b/include/neolib/file/json.inl
index 1b31896..5261c3e 100644
--- a/include/neolib/file/json.inl
+++ b/include/neolib/file/json.inl
@@ -1249,7 +1249,6 @@ namespace neolib
         static constexpr bool usePreviousState = (Syntax == json_syntax::Relaxed || Syntax == json_syntax::Functional || json_detail::debug);
 
         json_detail::state currentState = json_detail::state::Value;
-        json_detail::state previousState = currentState;
         json_detail::state nextState;
         element currentElement = {};
 
@@ -1300,17 +1299,24 @@ namespace neolib
                     bool skippingComment = false;
                     auto tempState = currentState;
                     do {
-                        nextState = json_detail::next_state<syntax>(tempState, previousState, *nextInputCh, nextInputCh != &iDocumentText.back() ? *(nextInputCh + 1) : '\0');
+                        nextState = json_detail::next_state<syntax>(tempState, currentState, *nextInputCh, nextInputCh != &iDocumentText.back() ? *(nextInputCh + 1) : '\0');
                         skippingComment = (nextState == json_detail::state::CppStyleComment || nextState == json_detail::state::CStyleComment);
                         if (skippingComment)
                         {
                             if (tempState != nextState && currentElement.start != nullptr && nextOutputCh == currentElement.start)
                                 nextOutputCh = (currentState != json_detail::state::StringEnd ? nextInputCh : nextInputCh - 1);
+                            if (tempState != nextState)
+                                increment_cursor();
                             tempState = nextState;
                             increment_cursor();
                         }
                         else if (tempState == json_detail::state::CStyleComment && nextState == json_detail::state::Ignore)
+                        {
+                            // the comment is replaced by a space
                             increment_cursor();
+                            *nextInputCh = ' ';
+                            nextState = json_detail::next_state<syntax>(currentState, ' ');
+                        }
                     } while (skippingComment);
                 }
                 if constexpr (Syntax == json_syntax::Functional)
-- 
2.43.0


From d135fda837b570acf915e86a25b5c9f0e3ab0703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:28:21 +0000
Subject: [PATCH 101/178] fix: let a JSON value be popped

---
 include/neolib/file/json.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/neolib/file/json.hpp b/include/neolib/file/json.hpp
index 7b5808b..8064579 100644
--- a/include/neolib/file/json.hpp
+++ b/include/neolib/file/json.hpp
@@ -149,8 +149,7 @@ namespace neolib
         template <typename T>
         class basic_json_node
         {
-            template <json_syntax Syntax, typename Alloc , typename CharT, typename Traits, typename CharAlloc>
-            friend class basic_json_value;
+            friend T;
         public:
             using json_value = T;
             using value_type = typename json_value::value_type;
-- 
2.43.0


From 86e6c9584399b6a34148eae63fd8ee2d23df54be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:28:21 +0000
Subject: [PATCH 102/178] fix: keep a JSON value that is assigned to one of its
 ancestors

---
 include/neolib/file/json.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/neolib/file/json.hpp b/include/neolib/file/json.hpp
index 8064579..2a23624 100644
--- a/include/neolib/file/json.hpp
+++ b/include/neolib/file/json.hpp
@@ -689,8 +689,9 @@ namespace neolib
         }
         reference operator=(value_type&& aValue)
         {
+            auto value = std::move(aValue); // may be in a child
             clear();
-            iValue = std::move(aValue);
+            iValue = std::move(value);
             update_contents();
             return *this;
         }
-- 
2.43.0


From 213708d8c007f4411bf850e25cdefc16c7cf916f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:30:17 +0000
Subject: [PATCH 103/178] fix: keep the look-up structures of JSON objects and
 arrays in step with the document

---
 include/neolib/file/json.hpp | 30 +++++++++++++++++++++++-------
 1 file changed, 23 insertions(+), 7 deletions(-)

diff --git a/include/neolib/file/json.hpp b/include/neolib/file/json.hpp
index 2a23624..25fe048 100644
--- a/include/neolib/file/json.hpp
+++ b/include/neolib/file/json.hpp
@@ -408,9 +408,11 @@ namespace neolib
             auto existing = cache().find(aKey);
             if (existing != cache().end())
                 return *existing->second;
+            auto dictionary = std::move(iLazyDictionary);
             auto& newChild = contents().emplace_back(value_type{});
             newChild.set_name(aKey.to_std_string());
-            cache().emplace(newChild.name(), &newChild);
+            dictionary->emplace(newChild.name(), &newChild);
+            iLazyDictionary = std::move(dictionary);
             return newChild;
         }
     public:
@@ -423,6 +425,7 @@ namespace neolib
         void set_contents(json_value& aOwner)
         {
             iContents = &aOwner;
+            iLazyDictionary.reset();
         }
     private:
         const dictionary_type& cache() const
@@ -498,15 +501,18 @@ namespace neolib
     public:
         json_value& push_back(const value_type& aValue)
         {
-            auto& newChild = contents().emplace_back(aValue);
-            cache().emplace_back(&newChild);
-            return back();
+            return push_back(value_type{ aValue });
         }
         json_value& push_back(value_type&& aValue)
         {
+            auto elements = std::move(iLazyArray);
             auto& newChild = contents().emplace_back(std::move(aValue));
-            cache().emplace_back(&newChild);
-            return back();
+            if (elements != nullptr)
+            {
+                elements->emplace_back(&newChild);
+                iLazyArray = std::move(elements);
+            }
+            return newChild;
         }
         json_value& back()
         {
@@ -526,6 +532,7 @@ namespace neolib
         void set_contents(json_value& aOwner)
         {
             iContents = &aOwner;
+            iLazyArray.reset();
         }
     private:
         const array_type& cache() const
@@ -737,10 +744,14 @@ namespace neolib
         void set_name(const json_string& aName)
         {
             iName = aName;
+            if (has_parent())
+                parent().update_contents();
         }
         void set_name(const json_keyword& aName)
         {
             iName = aName;
+            if (has_parent())
+                parent().update_contents();
         }
     public:
         bool is_root() const
@@ -893,6 +904,8 @@ namespace neolib
             {
                 iNode.unlink();
             }
+            else
+                update_contents();
         }
         template <typename... Args>
         reference emplace_back(Args&&... aArguments)
@@ -907,6 +920,7 @@ namespace neolib
         void pop_back()
         {
             iNode.destruct_child(last_child());
+            update_contents();
         }
     public:
         const json_document_source_location& document_source_location() const
@@ -921,7 +935,9 @@ namespace neolib
         template <typename... Args>
         pointer buy_child(Args&&... aArguments)
         {
-            return iNode.buy_child(*this, std::forward<Args>(aArguments)...);
+            auto child = iNode.buy_child(*this, std::forward<Args>(aArguments)...);
+            update_contents();
+            return child;
         }
         void update_contents()
         {
-- 
2.43.0


From 137e1bf74933d3fe6bc6a5a80447e245e9242fef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:30:17 +0000
Subject: [PATCH 104/178] fix: let a JSON path lead through array elements

---
 include/neolib/file/json.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/neolib/file/json.inl b/include/neolib/file/json.inl
index 5261c3e..450df08 100644
--- a/include/neolib/file/json.inl
+++ b/include/neolib/file/json.inl
@@ -1985,7 +1985,7 @@ namespace neolib
             return *node;
         do
         {
-            auto existing = std::find_if(node->begin(), node->end(), [&](auto&& child) { return child.name() == std::string_view{ &*bitStart, static_cast<std::string_view::size_type>(std::distance(bitStart, bitEnd)) };  });
+            auto existing = std::find_if(node->begin(), node->end(), [&](auto&& child) { return child.has_name() && child.name() == std::string_view{ &*bitStart, static_cast<std::string_view::size_type>(std::distance(bitStart, bitEnd)) };  });
             if (existing == node->end())
                 throw json_path_not_found(aPath.to_std_string());
             node = &*existing;
-- 
2.43.0


From b89909fbbe94f94bfec775e2701cb4e55fdfa877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:51:16 +0000
Subject: [PATCH 105/178] fix: stop at the end of the text in an XML tag that
 is not closed, and report it

---
 include/neolib/file/xml.inl | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/include/neolib/file/xml.inl b/include/neolib/file/xml.inl
index a7e1d36..03f27ae 100644
--- a/include/neolib/file/xml.inl
+++ b/include/neolib/file/xml.inl
@@ -514,32 +514,30 @@ namespace neolib
     {
         tag nextTag;
         nextTag.first = std::find(aNext, aDocumentEnd, CharT(characters<CharT>::sElementTagStart));
-        if (nextTag.first != aDocumentEnd)
-            ++nextTag.first;
+        if (nextTag.first == aDocumentEnd)
+        {
+            nextTag.second = aDocumentEnd;
+            return nextTag;
+        }
+        ++nextTag.first;
         nextTag.second = std::find(nextTag.first, aDocumentEnd, CharT(characters<CharT>::sElementTagEnd));
         if (static_cast<typename string::size_type>(nextTag.second - nextTag.first) >= sCommentStart.size() && std::equal(nextTag.first, nextTag.first+sCommentStart.size(), sCommentStart.begin()))
         {
             nextTag.iType = node::Comment;
             nextTag.first += sCommentStart.size();
             nextTag.second = std::search(nextTag.first, aDocumentEnd, sCommentEnd.begin(), sCommentEnd.end());
-            if (nextTag.second == aDocumentEnd)
-                nextTag.first = aDocumentEnd;
         }
         else if (static_cast<typename string::size_type>(nextTag.second - nextTag.first) >= sDeclarationStart.size() && std::equal(nextTag.first, nextTag.first+sDeclarationStart.size(), sDeclarationStart.begin()))
         {
             nextTag.iType = node::Declaration;
             nextTag.first += sDeclarationStart.size();
             nextTag.second = std::search(nextTag.first, aDocumentEnd, sDeclarationEnd.begin(), sDeclarationEnd.end());
-            if (nextTag.second == aDocumentEnd)
-                nextTag.first = aDocumentEnd;
         }
         else if (static_cast<typename string::size_type>(nextTag.second - nextTag.first) >= sCdataStart.size() && std::equal(nextTag.first, nextTag.first+sCdataStart.size(), sCdataStart.begin()))
         {
             nextTag.iType = node::Cdata;
             nextTag.first += sCdataStart.size();
             nextTag.second = std::search(nextTag.first, aDocumentEnd, sCdataEnd.begin(), sCdataEnd.end());
-            if (nextTag.second == aDocumentEnd)
-                nextTag.first = aDocumentEnd;
         }
         else if (static_cast<typename string::size_type>(nextTag.second - nextTag.first) >= sDtdStart.size() + 1 && std::equal(nextTag.first, nextTag.first+sDtdStart.size(), sDtdStart.begin()) &&
             sWhitespace.find(*(nextTag.first + sDtdStart.size())))
@@ -558,8 +556,12 @@ namespace neolib
                     break;
                 ++nextTag.second;
             }
-            if (nextTag.second == aDocumentEnd)
-                nextTag.first = aDocumentEnd;
+        }
+        if (nextTag.second == aDocumentEnd)
+        {
+            // not terminated
+            iError = true;
+            nextTag.first = aDocumentEnd;
         }
         return nextTag;
     }
-- 
2.43.0


From 68c6a8249c1bfda7fdab023f395361b189b844c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:51:25 +0000
Subject: [PATCH 106/178] fix: report an XML element that has no end tag

---
 include/neolib/file/xml.inl | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/neolib/file/xml.inl b/include/neolib/file/xml.inl
index 03f27ae..8e1eb3f 100644
--- a/include/neolib/file/xml.inl
+++ b/include/neolib/file/xml.inl
@@ -647,7 +647,7 @@ namespace neolib
                     token contentToken = next_token(sTagDelimeter, true, next, aDocumentEnd);
                     next = contentToken.second;
                     if (next == aDocumentEnd)
-                        return next;
+                        break;
                     string content(contentToken.first, contentToken.second);
                     strip_if(content);
                     bool hasContent = false;
@@ -712,6 +712,7 @@ namespace neolib
                     }
                     next = parse(theElement.back(), nextTag, aDocumentEnd);
                 }
+                iError = true; // no end tag
                 return next;
             }
             // no break required here due to return above (warning dampening)
-- 
2.43.0


From 485e014cfe40828a6a9093f0718277a36bcbb89b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:51:25 +0000
Subject: [PATCH 107/178] fix: allow white space in an XML end tag

---
 include/neolib/file/xml.inl | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/neolib/file/xml.inl b/include/neolib/file/xml.inl
index 8e1eb3f..e4fb0e1 100644
--- a/include/neolib/file/xml.inl
+++ b/include/neolib/file/xml.inl
@@ -685,7 +685,9 @@ namespace neolib
                     case node::Element:
                         if (*nextTag.first == characters<CharT>::sForwardSlashChar)
                         {
-                            if (theElement.name() != string(nextTag.first+1, nextTag.second))
+                            token endName = next_token(sNameDelimeter, false, nextTag.first+1, nextTag.second);
+                            if (endName.first != nextTag.first+1 || theElement.name() != string(endName.first, endName.second) ||
+                                next_token(sNameDelimeter, false, endName.second, nextTag.second).first != nextTag.second)
                             {
                                 iError = true;
                                 return aDocumentEnd;
-- 
2.43.0


From 41b7ad9754932e2fa3f1e521b504920dac8ceaff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:51:25 +0000
Subject: [PATCH 108/178] fix: read empty XML comments, CDATA sections and
 instructions; report tags without a name

---
 include/neolib/file/xml.inl | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/include/neolib/file/xml.inl b/include/neolib/file/xml.inl
index e4fb0e1..9865a12 100644
--- a/include/neolib/file/xml.inl
+++ b/include/neolib/file/xml.inl
@@ -569,7 +569,7 @@ namespace neolib
     template <typename CharT, typename Alloc>
     typename basic_xml<CharT, Alloc>::string::view_const_iterator basic_xml<CharT, Alloc>::parse(node& aNode, const tag& aStartTag, typename basic_xml<CharT, Alloc>::string::view_const_iterator aDocumentEnd)
     {
-        if (aStartTag.first == aDocumentEnd || aStartTag.first >= aStartTag.second)
+        if (aStartTag.first == aDocumentEnd || aStartTag.first > aStartTag.second)
             return aDocumentEnd;
 
         switch(aStartTag.type())
@@ -585,7 +585,7 @@ namespace neolib
 
                 /* get element name */
                 token elementName = next_token(sNameDelimeter, false, aStartTag.first, aStartTag.second);
-                if (elementName.first == aStartTag.second)
+                if (elementName.first == elementName.second)
                 {
                     iError = true;
                     return aDocumentEnd;
@@ -673,13 +673,8 @@ namespace neolib
                         theElement.push_back(new text(content));
                     }
                     tag nextTag = next_tag(next, aDocumentEnd); 
-                    if (nextTag.first > nextTag.second)
-                        return next;
-                    if (nextTag.first == nextTag.second)
-                    {
-                        next= nextTag.first;
-                        continue;
-                    }
+                    if (nextTag.first == aDocumentEnd)
+                        break;
                     switch (nextTag.type())
                     {
                     case node::Element:
@@ -791,8 +786,6 @@ namespace neolib
         tag nextTag = next_tag(document.cbegin(), document.cend());        
         while (nextTag.first != document.cend())
         {
-            while(nextTag.first != document.cend() && nextTag.first == nextTag.second)
-                nextTag = next_tag(nextTag.first, document.cend());
             nextTag = next_tag(parse(iDocument, nextTag, document.cend()), document.cend());
         };
 
-- 
2.43.0


From 904cc7386cbe32f437c1ee2fccdc4beab7f6a7dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:51:25 +0000
Subject: [PATCH 109/178] fix: keep XML text after a '>'

---
 include/neolib/file/xml.inl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/neolib/file/xml.inl b/include/neolib/file/xml.inl
index 9865a12..706cd6a 100644
--- a/include/neolib/file/xml.inl
+++ b/include/neolib/file/xml.inl
@@ -185,7 +185,7 @@ namespace neolib
         const parsing_bits<char>::character_map parsing_bits<char>::sAttributeValueDelimeter = std::string("\"\'");
         const parsing_bits<char>::character_map parsing_bits<char>::sAttributeValueInvalidOne = std::string("<>\"");
         const parsing_bits<char>::character_map parsing_bits<char>::sAttributeValueInvalidTwo = std::string("<>\'");
-        const parsing_bits<char>::character_map parsing_bits<char>::sTagDelimeter = std::string("<>");
+        const parsing_bits<char>::character_map parsing_bits<char>::sTagDelimeter = std::string("<");
         const parsing_bits<char>::character_map parsing_bits<char>::sWhitespace = std::string(" \t\r\n");
         const parsing_bits<char>::string parsing_bits<char>::sCommentStart = "!--";
         const parsing_bits<char>::string parsing_bits<char>::sCommentEnd = "-->";
@@ -225,7 +225,7 @@ namespace neolib
         const parsing_bits<wchar_t>::character_map parsing_bits<wchar_t>::sAttributeValueDelimeter = std::wstring(L"\"\'");
         const parsing_bits<wchar_t>::character_map parsing_bits<wchar_t>::sAttributeValueInvalidOne = std::wstring(L"<>\"");
         const parsing_bits<wchar_t>::character_map parsing_bits<wchar_t>::sAttributeValueInvalidTwo = std::wstring(L"<>\'");
-        const parsing_bits<wchar_t>::character_map parsing_bits<wchar_t>::sTagDelimeter = std::wstring(L"<>");
+        const parsing_bits<wchar_t>::character_map parsing_bits<wchar_t>::sTagDelimeter = std::wstring(L"<");
         const parsing_bits<wchar_t>::character_map parsing_bits<wchar_t>::sWhitespace = std::wstring(L" \t\r\n");
         const parsing_bits<wchar_t>::string parsing_bits<wchar_t>::sCommentStart = L"!--";
         const parsing_bits<wchar_t>::string parsing_bits<wchar_t>::sCommentEnd = L"-->";
-- 
2.43.0


From 88fe9174221b0399ca0eb849bff7d1ad2513940f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:51:25 +0000
Subject: [PATCH 110/178] fix: read XML character references as UTF-8

---
 include/neolib/file/xml.inl | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/include/neolib/file/xml.inl b/include/neolib/file/xml.inl
index 706cd6a..22249c6 100644
--- a/include/neolib/file/xml.inl
+++ b/include/neolib/file/xml.inl
@@ -42,6 +42,7 @@
 #include <cstdlib>
 #include <cwchar>
 #include <neolib/core/quick_string.hpp>
+#include <neolib/core/string_utf.hpp>
 
 namespace neolib
 {
@@ -968,15 +969,25 @@ namespace neolib
                         return wcstol(aString.c_str(), 0, aBase);
                     }
                 };
-                if (characterValue[0] != characters<CharT>::sHexChar)
-                    character += static_cast<CharT>(converter::string_to_integer(characterValue, 10));
+                long characterCode;
+                if (characterValue.empty() || characterValue[0] != characters<CharT>::sHexChar)
+                    characterCode = converter::string_to_integer(characterValue, 10);
                 else
                 {
                     characterValue.erase(0, 1);
-                    character += static_cast<CharT>(converter::string_to_integer(characterValue, 16));
+                    characterCode = converter::string_to_integer(characterValue, 16);
                 }
+                if (characterCode <= 0 || characterCode > 0x10FFFF)
+                {
+                    iError = true;
+                    return aString;
+                }
+                if constexpr (sizeof(CharT) == 1)
+                    character = string(utf32_to_utf8(std::u32string(1, static_cast<char32_t>(characterCode))));
+                else
+                    character += static_cast<CharT>(characterCode);
                 newString.replace(pos, (endPos - pos) + 1, character);
-                ++pos;
+                pos += character.size();
                 replaced = true;
             }
             else
-- 
2.43.0


From 9c29e96996e62a152ada3bfa80ed1391349718df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:51:25 +0000
Subject: [PATCH 111/178] fix: write XML text that ends with a line feed

---
 include/neolib/file/xml.inl | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/neolib/file/xml.inl b/include/neolib/file/xml.inl
index 22249c6..080f80e 100644
--- a/include/neolib/file/xml.inl
+++ b/include/neolib/file/xml.inl
@@ -425,7 +425,8 @@ namespace neolib
         template <typename T>
     typename basic_xml<CharT, Alloc>::node_writer& basic_xml<CharT, Alloc>::node_writer::operator<<(const T& aData)
     {
-        if (!iLastWasNewLine)
+        // a line is not ended twice
+        if (!iLastWasNewLine || !std::is_function_v<T>)
             iStream << aData;
         iLastWasNewLine = false;
         return *this;
-- 
2.43.0


From 0a9164a53a284a327fc5a019b58e680cf27db309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:58:17 +0000
Subject: [PATCH 112/178] fix: verify what gunzip unpacked and unpack empty
 files

---
 src/file/gunzip.cpp | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/file/gunzip.cpp b/src/file/gunzip.cpp
index b78ffa2..09dbaa6 100644
--- a/src/file/gunzip.cpp
+++ b/src/file/gunzip.cpp
@@ -92,28 +92,34 @@ namespace neolib
         {
             if (aGzipData.end() - i < 2)
                 return;
+            auto const headerCrc = ::crc32(0, reinterpret_cast<const Bytef*>(&*aGzipData.begin()), static_cast<uInt>(i - aGzipData.begin()));
             unsigned short crc16 = static_cast<unsigned char>(*i++);
             crc16 += (static_cast<unsigned char>(*i++) << 8);
+            if (crc16 != (headerCrc & 0xFFFF))
+                return;
         }
         if (aGzipData.end() - i < 8)
                 return;
         const char* compressedData = &*i;
         std::size_t compressedSize = aGzipData.end() - i - 8;
         i += compressedSize; 
-        unsigned long crc32 = static_cast<unsigned char>(*i++);
+        std::uint32_t crc32 = static_cast<unsigned char>(*i++);
         crc32 += (static_cast<unsigned char>(*i++) << 8);
         crc32 += (static_cast<unsigned char>(*i++) << 16); 
-        crc32 += (static_cast<unsigned char>(*i++) << 24);    
-        unsigned long isize = static_cast<unsigned char>(*i++); 
+        crc32 += (static_cast<std::uint32_t>(static_cast<unsigned char>(*i++)) << 24);
+        std::uint32_t isize = static_cast<unsigned char>(*i++); 
         isize += (static_cast<unsigned char>(*i++) << 8);
         isize += (static_cast<unsigned char>(*i++) << 16); 
-        isize += (static_cast<unsigned char>(*i++) << 24);
-        unsigned long uncompressedSize = isize;
+        isize += (static_cast<std::uint32_t>(static_cast<unsigned char>(*i++)) << 24);
+        std::size_t const uncompressedSize = isize;
+        if (uncompressedSize / 1032 > compressedSize) // deflate cannot do better than that
+            return;
         z_stream stream;
         stream.next_in = reinterpret_cast<Bytef*>(const_cast<char*>(compressedData));
         stream.avail_in = static_cast<uInt>(compressedSize);
         iUncompressedData.resize(uncompressedSize);
-        stream.next_out = reinterpret_cast<Bytef*>(&iUncompressedData[0]);
+        Bytef nothing;
+        stream.next_out = uncompressedSize != 0 ? reinterpret_cast<Bytef*>(&iUncompressedData[0]) : &nothing;
         stream.avail_out = static_cast<uInt>(iUncompressedData.size());
         stream.zalloc = static_cast<alloc_func>(0);
         stream.zfree = static_cast<free_func>(0);
@@ -126,7 +132,8 @@ namespace neolib
                 result = Z_OK;
             inflateEnd(&stream);
         }
-        iOk = (result == Z_OK);
+        iOk = (result == Z_OK) && stream.avail_in == 0 && stream.avail_out == 0 &&
+            ::crc32(::crc32(0, nullptr, 0), reinterpret_cast<const Bytef*>(iUncompressedData.data()), static_cast<uInt>(uncompressedSize)) == crc32;
         if (!iOk)
         {
             iUncompressedData.clear();
-- 
2.43.0


From 3f61bb86017dac183ded3961bdadbbc740fdcd0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:58:52 +0000
Subject: [PATCH 113/178] fix: read zip headers with fields of the right size
 where long is 64 bits

---
 include/neolib/file/zip.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/neolib/file/zip.hpp b/include/neolib/file/zip.hpp
index 94cbbdd..d03c8ed 100644
--- a/include/neolib/file/zip.hpp
+++ b/include/neolib/file/zip.hpp
@@ -36,6 +36,9 @@
 #pragma once
 
 #include <neolib/neolib.hpp>
+#include <cstdint>
+#include <stdexcept>
+#include <string>
 #include <vector>
 #include <memory>
 
@@ -73,9 +76,9 @@ namespace neolib
         struct dir_header;
         struct dir_file_header;
         struct local_header;
-        typedef unsigned long dword;
-        typedef unsigned short word;
-        typedef unsigned char byte;
+        typedef std::uint32_t dword;
+        typedef std::uint16_t word;
+        typedef std::uint8_t byte;
         std::vector<const dir_file_header*> iDirEntries;
         std::vector<std::string> iFiles;
     };
-- 
2.43.0


From f39fab3b72a5a7ec1de9406fba922e18307aa535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:58:57 +0000
Subject: [PATCH 114/178] fix: report a zip directory that is not whole and do
 not read past it

---
 src/file/zip.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/file/zip.cpp b/src/file/zip.cpp
index b2c6fc3..a1fd495 100644
--- a/src/file/zip.cpp
+++ b/src/file/zip.cpp
@@ -256,18 +256,23 @@ namespace neolib
             iError = true;
             return false;
         }
+        if (dh->iDirEntries != dh->iTotalDirEntries || dh->iDirSize > iZipFileDataLength - sizeof(dir_header))
+        {
+            iError = true;
+            return false;
+        }
         const dir_file_header* fh = reinterpret_cast<const dir_file_header*>(data_back() - (dh->iDirSize + sizeof(dir_header)) + 1);
         for (size_t i = 0; i < dh->iDirEntries; ++i)
         {
             if (byte_cast(fh) < byte_cast(data_front()) ||
-                byte_cast(fh) + sizeof(fh->iSignature) >= byte_cast(dh))
+                byte_cast(fh) + sizeof(*fh) > byte_cast(dh))
             {
-                iError = false;
+                iError = true;
                 return false;
             }
             if (fh->iSignature != dir_file_header::Signature)
             {
-                iError = false;
+                iError = true;
                 return false;
             }
             else
@@ -275,7 +280,7 @@ namespace neolib
                 if (byte_cast(reinterpret_cast<const char*>(fh) + sizeof(*fh) + fh->iFilenameLength + fh->iExtraLength + fh->iCommentLength) > 
                     byte_cast(dh))
                 {
-                    iError = false;
+                    iError = true;
                     return false;
                 }
                 iDirEntries.push_back(fh);
-- 
2.43.0


From 9624a969a1f3721c455435c9d882a1eff7a1ccc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:58:57 +0000
Subject: [PATCH 115/178] fix: extract zip entries by the sizes of the
 directory, and empty ones

---
 src/file/zip.cpp | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/src/file/zip.cpp b/src/file/zip.cpp
index a1fd495..c3c16d6 100644
--- a/src/file/zip.cpp
+++ b/src/file/zip.cpp
@@ -164,9 +164,10 @@ namespace neolib
     {
         if (iError)
             return false;
-        if (aIndex > iFiles.size())
+        if (aIndex >= iFiles.size())
             return false;
-        const local_header* lh = reinterpret_cast<const local_header*>(data_front() + iDirEntries[aIndex]->iHeaderOffset);
+        const dir_file_header* fh = iDirEntries[aIndex];
+        const local_header* lh = reinterpret_cast<const local_header*>(data_front() + fh->iHeaderOffset);
         if (byte_cast(lh) < byte_cast(data_front()) ||
             byte_cast(lh) > byte_cast(data_back()) - sizeof(local_header) + 1)
         {
@@ -180,20 +181,19 @@ namespace neolib
         }
         const uint8_t* compressedData = reinterpret_cast<const uint8_t*>(lh + 1) + lh->iFilenameLength + lh->iExtraLength;
         if (byte_cast(compressedData) < byte_cast(data_front()) ||
-            byte_cast(compressedData) + lh->iCompressedSize - 1 > byte_cast(data_back()))
+            byte_cast(compressedData) + fh->iCompressedSize > byte_cast(data_back()) + 1)
         {
             iError = true;
             return false;
         }
         if (lh->iCompression == Z_NO_COMPRESSION)
         {
-            if (crc32(reinterpret_cast<const uint8_t*>(compressedData), lh->iCompressedSize) != lh->iCrc32)
+            if (fh->iCompressedSize != fh->iUncompressedSize || crc32(reinterpret_cast<const uint8_t*>(compressedData), fh->iCompressedSize) != fh->iCrc32)
             {
                 iError = true;
                 return false;
             }
-            aBuffer.resize(lh->iCompressedSize);
-            std::copy(compressedData, compressedData + aBuffer.size(), &aBuffer[0]);
+            aBuffer.assign(compressedData, compressedData + fh->iCompressedSize);
             return true;
         }
         else if (lh->iCompression != Z_DEFLATED)
@@ -201,11 +201,17 @@ namespace neolib
             iError = true;
             return false;
         }
+        if (fh->iUncompressedSize / 1032 > fh->iCompressedSize) // deflate cannot do better than that
+        {
+            iError = true;
+            return false;
+        }
         z_stream stream;
         stream.next_in = static_cast<Bytef*>(const_cast<uint8_t*>(compressedData));
-        stream.avail_in = static_cast<uInt>(lh->iCompressedSize);
-        aBuffer.resize(lh->iUncompressedSize);
-        stream.next_out = static_cast<Bytef*>(&aBuffer[0]);
+        stream.avail_in = static_cast<uInt>(fh->iCompressedSize);
+        aBuffer.resize(fh->iUncompressedSize);
+        Bytef nothing;
+        stream.next_out = aBuffer.empty() ? &nothing : static_cast<Bytef*>(&aBuffer[0]);
         stream.avail_out = static_cast<uInt>(aBuffer.size());
         stream.zalloc = static_cast<alloc_func>(0);
         stream.zfree = static_cast<free_func>(0);
@@ -218,12 +224,12 @@ namespace neolib
                 result = Z_OK;
             inflateEnd(&stream);
         }
-        if (result != Z_OK)
+        if (result != Z_OK || stream.avail_out != 0)
         {
             iError = true;
             return false;
         }
-        if (crc32(reinterpret_cast<const uint8_t*>(&aBuffer[0]), static_cast<uint32_t>(aBuffer.size())) != lh->iCrc32)
+        if (crc32(reinterpret_cast<const uint8_t*>(aBuffer.data()), static_cast<uint32_t>(aBuffer.size())) != fh->iCrc32)
         {
             iError = true;
             return false;
-- 
2.43.0


From d349661d42413c824283c0de48d51257933f3946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:58:58 +0000
Subject: [PATCH 116/178] fix: write the bytes of an extracted zip entry, and
 only below the directory asked for

---
 src/file/zip.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/file/zip.cpp b/src/file/zip.cpp
index c3c16d6..e278ef8 100644
--- a/src/file/zip.cpp
+++ b/src/file/zip.cpp
@@ -34,6 +34,7 @@
 */
 
 #include <neolib/neolib.hpp>
+#include <algorithm>
 #include <fstream>
 #include <string>
 #include <zlib.h>
@@ -151,9 +152,12 @@ namespace neolib
         buffer_type data;
         if (extract_to(aIndex, data))
         {
-            std::ofstream out(aTargetDirectory + "/" + file_path(aIndex), std::ios::out | std::ios::binary);
-            out.write(reinterpret_cast<const char*>(data[0]), data.size());
-            if (out)
+            std::filesystem::path const path = file_path(aIndex);
+            bool const outside = path.has_root_path() || std::find(path.begin(), path.end(), "..") != path.end();
+            std::ofstream out;
+            if (!outside)
+                out.open(aTargetDirectory + "/" + file_path(aIndex), std::ios::out | std::ios::binary);
+            if (out.is_open() && out.write(reinterpret_cast<const char*>(data.data()), data.size()) && out.flush())
                 return true;
         }
         iError = true;
-- 
2.43.0


From 5f9f320080f82b261a33af76ee25020751048014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:58:58 +0000
Subject: [PATCH 117/178] fix: let move_file move to a bare file name

---
 src/file/file.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/file/file.cpp b/src/file/file.cpp
index 90debd7..e9a652a 100644
--- a/src/file/file.cpp
+++ b/src/file/file.cpp
@@ -210,7 +210,9 @@ namespace neolib
     bool move_file(const std::string& aPathFrom, const std::string& aPathTo)
     {
         std::error_code ec;
-        std::filesystem::create_directories(std::filesystem::path(convert_path(aPathTo)).parent_path());
+        auto const parent = std::filesystem::path(convert_path(aPathTo)).parent_path();
+        if (!parent.empty())
+            std::filesystem::create_directories(parent);
         std::filesystem::rename(convert_path(aPathFrom), convert_path(aPathTo), ec);
         return !ec;
     }
-- 
2.43.0


From 916cdfcbe681cf425feb41fe288741e8ec1197a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:01:51 +0000
Subject: [PATCH 118/178] fix: do not take a dot of a directory for that of a
 file extension

---
 src/file/file.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/file/file.cpp b/src/file/file.cpp
index e9a652a..9fcc85a 100644
--- a/src/file/file.cpp
+++ b/src/file/file.cpp
@@ -185,7 +185,7 @@ namespace neolib
     std::string file_ext(const std::string& aPath)
     {
         std::string::size_type pos = aPath.find_last_of('.');
-        if (pos != std::string::npos && pos != aPath.size() - 1)
+        if (pos != std::string::npos && pos != aPath.size() - 1 && tidy_path(aPath).find('/', pos) == std::string::npos)
             return aPath.substr(pos + 1);
         return "";
     }
@@ -193,7 +193,7 @@ namespace neolib
     std::wstring file_ext(const std::wstring& aPath)
     {
         std::wstring::size_type pos = aPath.find_last_of(L'.');
-        if (pos != std::wstring::npos && pos != aPath.size() - 1)
+        if (pos != std::wstring::npos && pos != aPath.size() - 1 && tidy_path(aPath).find(L'/', pos) == std::wstring::npos)
             return aPath.substr(pos + 1);
         return L"";
     }
-- 
2.43.0


From fab5d904b577a2b95660b4c5cd40911ca6daac6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:01:51 +0000
Subject: [PATCH 119/178] fix: convert the date of a file without reading two
 clocks

---
 src/file/file.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/file/file.cpp b/src/file/file.cpp
index 9fcc85a..4b41cb5 100644
--- a/src/file/file.cpp
+++ b/src/file/file.cpp
@@ -35,6 +35,7 @@
 */
 
 #include <neolib/neolib.hpp>
+#include <chrono>
 #include <filesystem>
 #ifdef _WIN32
 #include <WINNLS.H>
@@ -132,13 +133,13 @@ namespace neolib
     std::time_t file_date(const std::string& aPath)
     {
         auto const fileDate = std::filesystem::last_write_time(convert_path(aPath));
-        return std::chrono::system_clock::to_time_t(std::chrono::system_clock::now() + (fileDate - std::chrono::file_clock::now()));
+        return std::chrono::system_clock::to_time_t(std::chrono::floor<std::chrono::seconds>(std::chrono::clock_cast<std::chrono::system_clock>(fileDate)));
     }
 
     std::time_t file_date(const std::wstring& aPath)
     {
         auto const fileDate = std::filesystem::last_write_time(aPath);
-        return std::chrono::system_clock::to_time_t(std::chrono::system_clock::now() + (fileDate - std::chrono::file_clock::now()));
+        return std::chrono::system_clock::to_time_t(std::chrono::floor<std::chrono::seconds>(std::chrono::clock_cast<std::chrono::system_clock>(fileDate)));
     }
 
     bool can_read_file(const std::string& aPath)
-- 
2.43.0


From 237f863f32ee70055364925e9cdc1e0eb7633679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:06:20 +0000
Subject: [PATCH 120/178] fix: end a string packet at a delimiter that starts
 the next read

---
 include/neolib/io/string_packet.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/neolib/io/string_packet.hpp b/include/neolib/io/string_packet.hpp
index 07c5a9e..c440260 100644
--- a/include/neolib/io/string_packet.hpp
+++ b/include/neolib/io/string_packet.hpp
@@ -135,7 +135,8 @@ namespace neolib
             if (aFirst == aLast)
                 return false;
 
-            if (skip_delimiters(aFirst, aLast))
+            const_pointer const start = aFirst;
+            if (skip_delimiters(aFirst, aLast) || (aFirst != start && !contents().empty()))
                 return true;
 
             if (aFirst == aLast)
-- 
2.43.0


From 364c2911b3b5e4a2aaa401ba48e9dd8f45876759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:06:20 +0000
Subject: [PATCH 121/178] fix: do not split HTTP responses into lines without
 their ends

---
 include/neolib/io/http.hpp          | 10 ++--------
 include/neolib/io/string_packet.hpp | 22 ++++++++++++++++++++++
 2 files changed, 24 insertions(+), 8 deletions(-)

diff --git a/include/neolib/io/http.hpp b/include/neolib/io/http.hpp
index 9d3d035..f5f7205 100644
--- a/include/neolib/io/http.hpp
+++ b/include/neolib/io/http.hpp
@@ -49,20 +49,14 @@
 
 namespace neolib
 {
-    class NEOLIB_EXPORT http_packet : public string_packet
+    class NEOLIB_EXPORT http_packet : public basic_string_packet<char, undelimited_string_packet_traits<char>>
     {
         // construction
     public:
         http_packet(const contents_type& aContents = contents_type()) : 
-            string_packet(aContents) 
+            basic_string_packet(aContents) 
         {
         }
-        // implementation
-    private:
-        virtual bool has_delimiters() const
-        {
-            return false;
-        }
     };
 
     typedef packet_stream<http_packet, tcp_protocol> http_stream;
diff --git a/include/neolib/io/string_packet.hpp b/include/neolib/io/string_packet.hpp
index c440260..54bae90 100644
--- a/include/neolib/io/string_packet.hpp
+++ b/include/neolib/io/string_packet.hpp
@@ -63,6 +63,25 @@ namespace neolib
         }
     };
 
+    template <typename CharType>
+    struct undelimited_string_packet_traits
+    {
+        using character_type = CharType;
+
+        static bool constexpr has_delimiters()
+        {
+            return false;
+        }
+        static bool constexpr is_delimiter(character_type)
+        {
+            return false;
+        }
+        static bool constexpr is_terminating_delimiter(character_type)
+        {
+            return false;
+        }
+    };
+
     template <typename CharType, typename Traits = default_string_packet_traits<CharType>>
     class basic_string_packet : public i_basic_packet<CharType>
     {
@@ -154,6 +173,9 @@ namespace neolib
                 contents().insert(contents().end(), contentStart, contentEnd);
             }
 
+            if (!traits::has_delimiters())
+                return contentStart != contentEnd; // a packet for everything that arrives
+
             bool const terminated = skip_delimiters(aFirst, aLast);
 
             return terminated || contentEnd != aLast || (contentStart == contentEnd && !contents().empty());
-- 
2.43.0


From 86e75375a910868c61dea95c1b915a1c30c46a42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:06:20 +0000
Subject: [PATCH 122/178] fix: let go of a connection that is being resolved
 when it is closed or destroyed

---
 include/neolib/io/packet_connection.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/neolib/io/packet_connection.hpp b/include/neolib/io/packet_connection.hpp
index e9ff670..481922c 100644
--- a/include/neolib/io/packet_connection.hpp
+++ b/include/neolib/io/packet_connection.hpp
@@ -107,10 +107,10 @@ namespace neolib
             {
             }
         public:
-            void handle_resolve(const boost::system::error_code& aError, typename resolver_type::results_type::iterator aEndPointIterator)
+            void handle_resolve(const boost::system::error_code& aError, typename resolver_type::results_type aResults)
             {
                 if (!iParentDestroyed && !iOrphaned)
-                    iParent.handle_resolve(aError, aEndPointIterator);
+                    iParent.handle_resolve(aError, aResults);
             }
             void handle_connect(const boost::system::error_code& aError)
             {
@@ -395,9 +395,9 @@ namespace neolib
             if (!iRemoteHostName.empty())
             {
                 iResolver.async_resolve(iRemoteHostName, uint32_to_string<char>(iRemotePort),
-                    [&](const boost::system::error_code& ec, resolver_type::results_type results)
+                    [proxy = iHandlerProxy](const boost::system::error_code& ec, typename resolver_type::results_type results)
                     {
-                        handle_resolve(ec, results);
+                        proxy->handle_resolve(ec, results);
                     });
             }
         }
-- 
2.43.0


From c0ba2d4173200d2296cc3e097bce3308f73c3af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:06:49 +0000
Subject: [PATCH 123/178] fix: forget the packets of a closed connection

---
 include/neolib/io/packet_connection.hpp | 3 +++
 include/neolib/io/packet_stream.hpp     | 1 +
 2 files changed, 4 insertions(+)

diff --git a/include/neolib/io/packet_connection.hpp b/include/neolib/io/packet_connection.hpp
index 481922c..a9ff455 100644
--- a/include/neolib/io/packet_connection.hpp
+++ b/include/neolib/io/packet_connection.hpp
@@ -226,6 +226,7 @@ namespace neolib
         {
             if (opened())
                 throw already_open();
+            iReceivePacket->clear();
             if (!secure())
             {
                 iSocketHolder = socket_pointer(new socket_type(iIoTask.io_context().native_object<boost::asio::io_context>()));
@@ -256,6 +257,8 @@ namespace neolib
             iSocketHolder = none;
             bool wasConnected = iConnected;
             iConnected = false;
+            iSendQueue.clear();
+            iPacketBeingSent = nullptr;
             iReceiveBufferPtr = &buffer()[0];
             if (wasConnected)
                 iOwner.handle_connection_closed();
diff --git a/include/neolib/io/packet_stream.hpp b/include/neolib/io/packet_stream.hpp
index c7b8147..52e509e 100644
--- a/include/neolib/io/packet_stream.hpp
+++ b/include/neolib/io/packet_stream.hpp
@@ -173,6 +173,7 @@ namespace neolib
         }
         void handle_connection_closed() override
         {
+            remove_all_packets();
             ConnectionClosed.trigger();
         }
         orphaned_queue_item remove_packet(const packet_type& aPacket)
-- 
2.43.0


From 3ab2a7269c8c60879f18ecaf10ed559e215b1c00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:06:49 +0000
Subject: [PATCH 124/178] fix: send empty packets, and all of packets of wide
 characters

---
 include/neolib/io/packet_connection.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/neolib/io/packet_connection.hpp b/include/neolib/io/packet_connection.hpp
index a9ff455..53222f1 100644
--- a/include/neolib/io/packet_connection.hpp
+++ b/include/neolib/io/packet_connection.hpp
@@ -505,7 +505,7 @@ namespace neolib
             {
                 boost::asio::async_write(
                     socket(), 
-                    boost::asio::buffer(iPacketBeingSent->data(), iPacketBeingSent->length()),
+                    boost::asio::buffer(iPacketBeingSent->begin(), iPacketBeingSent->length() * sizeof(CharType)),
                     boost::bind(
                         &handler_proxy::handle_write, 
                         iHandlerProxy,
@@ -516,7 +516,7 @@ namespace neolib
             {
                 boost::asio::async_write(
                     secure_stream(), 
-                    boost::asio::buffer(iPacketBeingSent->data(), iPacketBeingSent->length()),
+                    boost::asio::buffer(iPacketBeingSent->begin(), iPacketBeingSent->length() * sizeof(CharType)),
                     boost::bind(
                         &handler_proxy::handle_write, 
                         iHandlerProxy,
-- 
2.43.0


From 0f92bcc48a192bc3df05ad1cb61a7a0fcbe5a2b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:06:49 +0000
Subject: [PATCH 125/178] fix: deliver nothing more once a handler has closed a
 connection, and let it open another

---
 include/neolib/io/packet_connection.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/neolib/io/packet_connection.hpp b/include/neolib/io/packet_connection.hpp
index 53222f1..dd50b8c 100644
--- a/include/neolib/io/packet_connection.hpp
+++ b/include/neolib/io/packet_connection.hpp
@@ -555,6 +555,7 @@ namespace neolib
             destroyed_flag destroyed{ *this };
             if (closed())
                 return;
+            auto const proxy = iHandlerProxy;
             const_packet_pointer sentPacket = iPacketBeingSent;
             iPacketBeingSent = nullptr;
             if (!aError)
@@ -569,7 +570,7 @@ namespace neolib
                 iError = true;
                 iErrorCode = aError;
                 iOwner.handle_transfer_failure(*sentPacket, aError);
-                if (destroyed)
+                if (destroyed || iHandlerProxy != proxy)
                     return;
                 close();
             }
@@ -579,6 +580,7 @@ namespace neolib
             destroyed_flag destroyed{ *this };
             if (closed())
                 return;
+            auto const proxy = iHandlerProxy;
             if (!aError)
             {
                 typename packet_type::const_pointer start = reinterpret_cast<typename packet_type::pointer>(&buffer()[0]);
@@ -588,7 +590,7 @@ namespace neolib
                     if (!iReceivePacket->empty())
                     {
                         iOwner.handle_packet_arrived(*iReceivePacket);
-                        if (destroyed)
+                        if (destroyed || iHandlerProxy != proxy)
                             return;
                         iReceivePacket->clear();
                     }
@@ -607,7 +609,7 @@ namespace neolib
                     iErrorCode = aError;
                     iReceivePacket->clear();
                     iOwner.handle_transfer_failure(*iReceivePacket, aError);
-                    if (destroyed)
+                    if (destroyed || iHandlerProxy != proxy)
                         return;
                 }
                 close();  
-- 
2.43.0


From eb27e6223ec2fd054f43102e99ea9eb98b997f25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:06:49 +0000
Subject: [PATCH 126/178] fix: end the connection of an HTTP request before
 what it uses

---
 src/io/http.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/io/http.cpp b/src/io/http.cpp
index 39d8c44..e372189 100644
--- a/src/io/http.cpp
+++ b/src/io/http.cpp
@@ -69,6 +69,8 @@ namespace neolib
 
     http::~http()
     {
+        if (iPacketStream)
+            stream().close(); // uses the other attributes
     }
 
     http& http::operator=(const http& aOther) 
@@ -86,6 +88,8 @@ namespace neolib
 
     void http::reset()
     {
+        if (iPacketStream)
+            stream().close(); // reports the end of a request in progress
         iHost.clear(); 
         iPort = 80;
         iSecure = false;
-- 
2.43.0


From f824bb11243f8e7281771fe7b281101d16475068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:15:19 +0000
Subject: [PATCH 127/178] fix: accept an HTTP status line without a reason

---
 src/io/http.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io/http.cpp b/src/io/http.cpp
index e372189..63f7476 100644
--- a/src/io/http.cpp
+++ b/src/io/http.cpp
@@ -339,7 +339,7 @@ namespace neolib
                                 iResponseLine.clear();
                                 vecarray<std::string, 3> bits;
                                 tokens(iResponseStatus, std::string(" "), bits, 3);
-                                if (bits.size() >= 3)
+                                if (bits.size() >= 2)
                                 {
                                     iStatusCode = string_to_uint32(bits[1]);
                                     iOk = (iStatusCode / 100 == 2);
-- 
2.43.0


From b8f024ac0362af5832557dfa27d7e13cafee7e09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:15:19 +0000
Subject: [PATCH 128/178] fix: report the failure of an HTTP request once, and
 use nothing after it

---
 src/io/http.cpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/io/http.cpp b/src/io/http.cpp
index 63f7476..668e9b7 100644
--- a/src/io/http.cpp
+++ b/src/io/http.cpp
@@ -291,8 +291,8 @@ namespace neolib
     {
         iBodyLength.reset();
         iBody.clear();
-        Failure.trigger();
         stream().close();
+        Failure.trigger();
     }
 
     void http::packet_sent(const http_packet&)
@@ -366,10 +366,8 @@ namespace neolib
 
     void http::transfer_failure(const boost::system::error_code&)
     {
-        iBodyLength.reset();
-        iBody.clear();
-        Failure.trigger();
-        stream().close();
+        iOk = false;
+        stream().close(); // reports the failure
     }
 
     void http::connection_closed()
-- 
2.43.0


From 52765117cdef38845ca7082772777afbb9eb324c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:15:19 +0000
Subject: [PATCH 129/178] fix: refuse HTTP chunks whose size is no number

---
 src/io/http.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/io/http.cpp b/src/io/http.cpp
index 668e9b7..7cc4e75 100644
--- a/src/io/http.cpp
+++ b/src/io/http.cpp
@@ -183,6 +183,8 @@ namespace neolib
             neolib::tokens(dataLine[0].first, dataLine[0].second, sizeTerminator.begin(), sizeTerminator.end(), dataSize, 1, false);
             if (dataSize.empty())
                 return false;
+            if (!std::all_of(dataSize[0].first, dataSize[0].second, [](char ch) { return std::isxdigit(static_cast<unsigned char>(ch)) || ch == ' '; }))
+                return false;
             unsigned int chunkSize = neolib::string_to_uint32(std::string(dataSize[0].first, dataSize[0].second), 16);
             if (chunkSize != 0)
             {
-- 
2.43.0


From e2417a200c9733d99c1890398d51f6cff3f860aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:40:07 +0000
Subject: [PATCH 130/178] fix: do not take a stored element without a value for
 a setting's value

---
 src/app/settings.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/app/settings.cpp b/src/app/settings.cpp
index 32e72cb..3f04afe 100644
--- a/src/app/settings.cpp
+++ b/src/app/settings.cpp
@@ -86,7 +86,7 @@ namespace neolib
                 if (!node)
                     break;
             }
-            if (node)
+            if (node && (**node).has_attribute("value"))
             {
                 aSetting.set_value_from_string(string{ (**node).attribute_value("value") });
                 aSetting.apply_change();
-- 
2.43.0


From 5002c08d0a2c6905065c39192277e4334a709e56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:40:07 +0000
Subject: [PATCH 131/178] fix: no uninitialized result when text without a
 number is converted

---
 include/neolib/core/string_utils.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/neolib/core/string_utils.hpp b/include/neolib/core/string_utils.hpp
index 8e637a0..c738743 100644
--- a/include/neolib/core/string_utils.hpp
+++ b/include/neolib/core/string_utils.hpp
@@ -107,7 +107,7 @@ namespace neolib
             return aValueAsString;
         else
         {
-            T result;
+            T result{};
             std::istringstream iss{ aValueAsString };
             iss >> result;
             return result;
-- 
2.43.0


From e24af7029846060611dce641d6bc7cf0b44510e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:43:12 +0000
Subject: [PATCH 132/178] fix: keep the value of small integer and floating
 point settings when converting to text and back

---
 include/neolib/app/setting.hpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/include/neolib/app/setting.hpp b/include/neolib/app/setting.hpp
index a2be373..a9fea28 100644
--- a/include/neolib/app/setting.hpp
+++ b/include/neolib/app/setting.hpp
@@ -36,6 +36,7 @@
 #pragma once
 
 #include <neolib/neolib.hpp>
+#include <charconv>
 #include <neolib/core/reference_counted.hpp>
 #include <neolib/core/string.hpp>
 #include <neolib/core/string_utils.hpp>
@@ -159,7 +160,15 @@ namespace neolib
         using i_setting::value_as_string;
         void value_as_string(i_string& aValue, bool aUnappliedNew = false) const override
         {
-            aValue = to_string(value(aUnappliedNew).template get<T>());
+            if constexpr (std::is_same_v<T, int8_t> || std::is_same_v<T, uint8_t>)
+                aValue = to_string(static_cast<int>(value(aUnappliedNew).template get<T>())); // a number, not a character
+            else if constexpr (std::is_floating_point_v<T>)
+            {
+                char text[64]; // the shortest text that gives the same value when read
+                aValue = std::string{ text, std::to_chars(text, text + sizeof(text), value(aUnappliedNew).template get<T>()).ptr };
+            }
+            else
+                aValue = to_string(value(aUnappliedNew).template get<T>());
         }
         using i_setting::set_default_value;
         void set_default_value(i_setting_value const& aDefaultValue) override
@@ -195,7 +204,10 @@ namespace neolib
         }
         void set_value_from_string(i_string const& aNewValue) override
         {
-            set_value(setting_value<T>{ from_string<T>(aNewValue) });
+            if constexpr (std::is_same_v<T, int8_t> || std::is_same_v<T, uint8_t>)
+                set_value(setting_value<T>{ static_cast<T>(from_string<int>(aNewValue)) });
+            else
+                set_value(setting_value<T>{ from_string<T>(aNewValue) });
         }
         void clear() override
         {
-- 
2.43.0


From eca6cf483c89c00a82d04906b5eea18a9f07d419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:46:14 +0000
Subject: [PATCH 133/178] fix: let handlers delete and register settings while
 changes are applied or discarded

---
 src/app/settings.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/app/settings.cpp b/src/app/settings.cpp
index 3f04afe..e743477 100644
--- a/src/app/settings.cpp
+++ b/src/app/settings.cpp
@@ -153,6 +153,7 @@ namespace neolib
 
     void settings::change_setting(i_setting& aExistingSetting, const i_setting_value& aValue, bool aApplyNow)
     {
+        ref_ptr<i_setting> const keepAlive{ aExistingSetting }; // a handler may delete it
         aExistingSetting.set_value(aValue);
         if (aApplyNow)
         {
@@ -178,7 +179,8 @@ namespace neolib
         if (!modified())
             return;
         std::set<string> categoriesChanged;
-        for (auto& setting : iSettings)
+        auto const settings = iSettings; // a handler may register or delete settings
+        for (auto& setting : settings)
         {
             auto const& key = setting.first().to_std_string();
             if (setting.second()->apply_change())
@@ -191,7 +193,8 @@ namespace neolib
 
     void settings::discard_changes()
     {
-        for (auto const& setting : iSettings)
+        auto const settings = iSettings; // a handler may register or delete settings
+        for (auto const& setting : settings)
             setting.second()->discard_change();
     }
 
-- 
2.43.0


From 1dded144fc4667a3aa0c25801de8b343a6bec306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:47:47 +0000
Subject: [PATCH 134/178] fix: compare the maintenance numbers of both versions

---
 include/neolib/app/version.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/neolib/app/version.hpp b/include/neolib/app/version.hpp
index 2cd76ab..d0eef04 100644
--- a/include/neolib/app/version.hpp
+++ b/include/neolib/app/version.hpp
@@ -78,7 +78,7 @@ namespace neolib
     public:
         bool operator<(const version& aOther) const
         {
-            return std::make_tuple(iMajor, iMinor, iMaintenance, iBuild) < std::make_tuple(aOther.iMajor, aOther.iMinor, iMaintenance, aOther.iBuild);
+            return std::make_tuple(iMajor, iMinor, iMaintenance, iBuild) < std::make_tuple(aOther.iMajor, aOther.iMinor, aOther.iMaintenance, aOther.iBuild);
         }
         bool operator>(const version& aOther) const
         {
-- 
2.43.0


From 82c3528d5a98a5153e374cf4ff0439e05545a452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:47:47 +0000
Subject: [PATCH 135/178] fix: read the name of a version

---
 include/neolib/app/version.hpp | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/include/neolib/app/version.hpp b/include/neolib/app/version.hpp
index d0eef04..f72996b 100644
--- a/include/neolib/app/version.hpp
+++ b/include/neolib/app/version.hpp
@@ -36,6 +36,8 @@
 #pragma once
 
 #include <neolib/neolib.hpp>
+#include <algorithm>
+#include <iterator>
 #include <string>
 #include <ostream>
 #include <neolib/core/vecarray.hpp>
@@ -56,18 +58,21 @@ namespace neolib
         version(const std::string& aVersionString = "") :
             iMajor(0), iMinor(0), iMaintenance(0), iBuild(0), iName("")
         {
-            neolib::vecarray<std::string, 5> bits;
-            neolib::tokens(aVersionString, std::string(". "), bits, 4);
-            if (bits.size() > 0)
-                iMajor = neolib::string_to_uint32(bits[0]);
-            if (bits.size() > 1)
-                iMinor = neolib::string_to_uint32(bits[1]);
-            if (bits.size() > 2)
-                iMaintenance = neolib::string_to_uint32(bits[2]);
-            if (bits.size() > 3)
-                iBuild = neolib::string_to_uint32(bits[3]);
-            if (bits.size() > 4)
-                iName = bits[3];
+            // up to four numbers followed by a name
+            uint32_t* const numbers[] = { &iMajor, &iMinor, &iMaintenance, &iBuild };
+            auto next = numbers;
+            for (auto start = aVersionString.find_first_not_of(". "); start != std::string::npos; )
+            {
+                auto const end = std::min(aVersionString.find_first_of(". ", start), aVersionString.size());
+                auto const bit = aVersionString.substr(start, end - start);
+                if (next == std::end(numbers) || bit.find_first_not_of("0123456789") != std::string::npos)
+                {
+                    iName = aVersionString.substr(start);
+                    break;
+                }
+                **next++ = neolib::string_to_uint32(bit);
+                start = aVersionString.find_first_not_of(". ", end);
+            }
         }
         version(const i_version& aOther) :
             iMajor(aOther.version_major()), iMinor(aOther.version_minor()), iMaintenance(aOther.version_maintenance()), iBuild(aOther.version_build()), iName(aOther.version_name())
-- 
2.43.0


From 1fe41b07e35a03b967eaa43a488ef79d640f4e62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:47:48 +0000
Subject: [PATCH 136/178] fix: copy application information as it was given

---
 src/app/application_info.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/app/application_info.cpp b/src/app/application_info.cpp
index 3e84bcf..fa0c9e3 100644
--- a/src/app/application_info.cpp
+++ b/src/app/application_info.cpp
@@ -173,9 +173,9 @@ namespace neolib
         iCompany{ aOther.company() },
         iVersion{ aOther.version() },
         iCopyright{ aOther.copyright() },
-        iApplicationFolder{ aOther.application_folder() },
-        iSettingsFolder{ aOther.settings_folder() },
-        iDataFolder{ aOther.data_folder() },
+        iApplicationFolder{ aOther.application_folder(false) },
+        iSettingsFolder{ aOther.settings_folder(false) },
+        iDataFolder{ aOther.data_folder(false) },
         iPluginExtension{ aOther.plugin_extension() },
         iRemovable{ aOther.removable() }
     {
-- 
2.43.0


From b5a94fc7a182e097ff35ada5eb71aad164c92adb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:54:57 +0000
Subject: [PATCH 137/178] fix: a plugin folder is not dropped for being named
 like the other one

---
 src/plugin/plugin_manager.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/plugin/plugin_manager.cpp b/src/plugin/plugin_manager.cpp
index 9616214..3165435 100644
--- a/src/plugin/plugin_manager.cpp
+++ b/src/plugin/plugin_manager.cpp
@@ -52,9 +52,10 @@ namespace neolib
         for (auto i = folders.begin(); i != folders.end();)
         {
             auto next = std::next(i);
-            while (next != folders.end() && next->find(*i) == 0)
-                next = folders.erase(next);
-            i = next;
+            auto const below = (std::filesystem::path{ *i } / "").string();
+            while (next != folders.end())
+                next = next->find(below) == 0 ? folders.erase(next) : std::next(next);
+            ++i;
         }
         for (auto const& folder : folders)
             iPluginFolders.push_back(string{ folder });
-- 
2.43.0


From 2372630811932e15e92f51b5647d0926d5580630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:55:12 +0000
Subject: [PATCH 138/178] fix: a plugin whose id is taken is not listed

---
 src/plugin/plugin_manager.cpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/plugin/plugin_manager.cpp b/src/plugin/plugin_manager.cpp
index 3165435..002a95f 100644
--- a/src/plugin/plugin_manager.cpp
+++ b/src/plugin/plugin_manager.cpp
@@ -249,13 +249,16 @@ namespace neolib
             entryPoint(iApplication, string(std::filesystem::path(aPluginPath.to_std_string()).parent_path().generic_string()), tNewPlugin);
             if (tNewPlugin == nullptr)
                 return tNewPlugin;
+            auto const id = tNewPlugin->id();
+            if (iModules.find(id) != iModules.end() || find_plugin(id) != nullptr)
+            {
+                tNewPlugin = nullptr;
+                throw duplicate_plugin{};
+            }
             iPlugins.push_back(tNewPlugin);
-            auto& newPlugin = iPlugins.back();
             tNewPlugin = nullptr;
-            if (iModules.find(newPlugin->id()) != iModules.end())
-                throw duplicate_plugin{};
-            iModules[newPlugin->id()] = std::move(pm);
-            return newPlugin;
+            iModules[id] = std::move(pm);
+            return iPlugins.back();
         }
         catch (const std::exception& e)
         {
-- 
2.43.0


From dce00b6f17da44600c9f60b28e7111de624a995d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:56:15 +0000
Subject: [PATCH 139/178] fix: a plugin that fails to load is not listed

---
 include/neolib/plugin/plugin_manager.hpp |  1 +
 src/plugin/plugin_manager.cpp            | 32 +++++++++++++++++++++++-
 2 files changed, 32 insertions(+), 1 deletion(-)

diff --git a/include/neolib/plugin/plugin_manager.hpp b/include/neolib/plugin/plugin_manager.hpp
index 5fece43..f12ff4a 100644
--- a/include/neolib/plugin/plugin_manager.hpp
+++ b/include/neolib/plugin/plugin_manager.hpp
@@ -94,6 +94,7 @@ namespace neolib
     private:
         // own
         i_ref_ptr<i_plugin>& create_plugin(const i_string& aPluginPath);
+        bool load_new_plugin(i_plugin& aPlugin);
         // attributes
     private:
         i_application& iApplication;
diff --git a/src/plugin/plugin_manager.cpp b/src/plugin/plugin_manager.cpp
index 002a95f..ca7c4c8 100644
--- a/src/plugin/plugin_manager.cpp
+++ b/src/plugin/plugin_manager.cpp
@@ -118,7 +118,7 @@ namespace neolib
         {
             auto const& newPlugin = create_plugin(aPluginPath);
             if (newPlugin != nullptr)
-                loaded = newPlugin->load();
+                loaded = load_new_plugin(*newPlugin);
             if (loaded)
             {
                 PluginLoaded.trigger(*newPlugin);
@@ -269,4 +269,34 @@ namespace neolib
             throw plugin_exception<std::runtime_error>("Unknown exception");
         }
     }
+
+    bool plugin_manager::load_new_plugin(i_plugin& aPlugin)
+    {
+        auto const id = aPlugin.id();
+        std::string reason;
+        try
+        {
+            if (aPlugin.load())
+                return true;
+        }
+        catch (const std::exception& e)
+        {
+            reason = e.what();
+        }
+        catch (...)
+        {
+            reason = "Unknown exception";
+        }
+        // the plugin did not load: it is destroyed before its module is
+        auto existingModule = iModules.find(id);
+        auto const moduleToUnload = existingModule != iModules.end() ? std::move(existingModule->second) : nullptr;
+        if (existingModule != iModules.end())
+            iModules.erase(existingModule);
+        auto existingPlugin = std::find_if(iPlugins.begin(), iPlugins.end(), [&](auto const& p) { return &aPlugin == p.ptr(); });
+        if (existingPlugin != iPlugins.end())
+            iPlugins.erase(existingPlugin);
+        if (!reason.empty())
+            throw plugin_exception<std::runtime_error>(reason.c_str());
+        return false;
+    }
 }
-- 
2.43.0


From 3b41fe959fd04102573d6a65616afb144f192895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:56:15 +0000
Subject: [PATCH 140/178] fix: a plugin that refuses to be unloaded does not
 hang unload_plugins()

---
 src/plugin/plugin_manager.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/plugin/plugin_manager.cpp b/src/plugin/plugin_manager.cpp
index ca7c4c8..5cce964 100644
--- a/src/plugin/plugin_manager.cpp
+++ b/src/plugin/plugin_manager.cpp
@@ -168,8 +168,15 @@ namespace neolib
     {
         bool gotSome = false;
         {
-            while (!iPlugins.empty())
-                gotSome = unload_plugin(*iPlugins.back()) || gotSome;
+            std::vector<uuid> ids;
+            for (auto const& p : iPlugins)
+                ids.push_back(p->id());
+            for (auto i = ids.rbegin(); i != ids.rend(); ++i)
+            {
+                auto const& p = find_plugin(*i);
+                if (p != nullptr)
+                    gotSome = unload_plugin(*p) || gotSome;
+            }
         }
         return gotSome;
     }
-- 
2.43.0


From e1ca030a511d4add24e99e336e5d43de3fb73150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:56:15 +0000
Subject: [PATCH 141/178] fix: a plugin that fails to initialize is unloaded
 without upsetting the loading of the others

---
 src/plugin/plugin_manager.cpp | 38 +++++++++++++++++++++++++++++++----
 1 file changed, 34 insertions(+), 4 deletions(-)

diff --git a/src/plugin/plugin_manager.cpp b/src/plugin/plugin_manager.cpp
index 5cce964..0a44643 100644
--- a/src/plugin/plugin_manager.cpp
+++ b/src/plugin/plugin_manager.cpp
@@ -105,9 +105,24 @@ namespace neolib
                     load_plugin(string(i->path().generic_string()), true);
         }
         bool gotSome = false;
-        for (plugins_t::const_iterator i = iPlugins.begin(); i != iPlugins.end(); ++i)
-            if (!(*i)->initialized())
-                gotSome = initialize_plugin(**i) || gotSome;
+        std::vector<uuid> ids;
+        for (auto const& p : iPlugins)
+            if (!p->initialized())
+                ids.push_back(p->id());
+        for (auto const& id : ids)
+        {
+            auto const& p = find_plugin(id);
+            if (p == nullptr || p->initialized())
+                continue;
+            try
+            {
+                gotSome = initialize_plugin(*p) || gotSome;
+            }
+            catch (std::exception const& e)
+            {
+                PluginLoadFailure.trigger(string{ "Failed to initialize plugin, reason: " } + e.what());
+            }
+        }
         return gotSome;
     }
 
@@ -146,11 +161,26 @@ namespace neolib
 
     bool plugin_manager::initialize_plugin(i_plugin& aPlugin)
     {
-        bool ok = aPlugin.initialize();
+        bool ok = false;
+        std::string reason;
+        try
+        {
+            ok = aPlugin.initialize();
+        }
+        catch (const std::exception& e)
+        {
+            reason = e.what();
+        }
+        catch (...)
+        {
+            reason = "Unknown exception";
+        }
         if (ok)
             PluginInitialized.trigger(aPlugin);
         else
             unload_plugin(aPlugin);
+        if (!reason.empty())
+            throw plugin_exception<std::runtime_error>(reason.c_str());
         return ok;
     }
 
-- 
2.43.0


From b34c73871bcd88cde03d24ef1c8864e5fa1105bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:59:23 +0000
Subject: [PATCH 142/178] fix: the plugin manager survives handlers of its
 events that load and unload plugins

---
 src/plugin/plugin_manager.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/plugin/plugin_manager.cpp b/src/plugin/plugin_manager.cpp
index 0a44643..9873ddd 100644
--- a/src/plugin/plugin_manager.cpp
+++ b/src/plugin/plugin_manager.cpp
@@ -131,13 +131,16 @@ namespace neolib
         bool loaded = false;
         try
         {
-            auto const& newPlugin = create_plugin(aPluginPath);
+            auto const newPlugin = create_plugin(aPluginPath).ptr();
             if (newPlugin != nullptr)
                 loaded = load_new_plugin(*newPlugin);
             if (loaded)
             {
+                auto const id = newPlugin->id();
                 PluginLoaded.trigger(*newPlugin);
-                if (!aDeferInitialization)
+                if (find_plugin(id).ptr() != newPlugin)
+                    loaded = false; // a handler of the event has unloaded it
+                else if (!aDeferInitialization && !newPlugin->initialized())
                 {
                     if (!initialize_plugin(*newPlugin))
                         throw std::runtime_error("Failed to initialize plugin '" + aPluginPath.to_std_string() + "'");
-- 
2.43.0


From d9925fd3db5397d350141033fb7afd778dc58800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:01:45 +0000
Subject: [PATCH 143/178] fix: a plugin is unloaded once

---
 src/plugin/plugin_manager.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/plugin/plugin_manager.cpp b/src/plugin/plugin_manager.cpp
index 9873ddd..bfd6368 100644
--- a/src/plugin/plugin_manager.cpp
+++ b/src/plugin/plugin_manager.cpp
@@ -216,6 +216,8 @@ namespace neolib
 
     bool plugin_manager::unload_plugin(i_plugin& aPlugin)
     {
+        if (!aPlugin.loaded())
+            return false; // it is being unloaded already
         auto const id = aPlugin.id();
         bool unloaded = aPlugin.unload();
         if (unloaded)
-- 
2.43.0


From 2c0b0c5175e53b580ab3f74b15a5264cc727453d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:09:00 +0000
Subject: [PATCH 144/178] fix: intrusive_sort sorts sequences that exhaust its
 depth

---
 include/neolib/core/intrusive_sort.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/neolib/core/intrusive_sort.hpp b/include/neolib/core/intrusive_sort.hpp
index ce97414..a918231 100644
--- a/include/neolib/core/intrusive_sort.hpp
+++ b/include/neolib/core/intrusive_sort.hpp
@@ -111,7 +111,7 @@ namespace neolib
             while (start > first)
             {
                 --start;
-                siftDown(first, start, end, swapper, comp);
+                siftDown(first, start, last, swapper, comp);
             }
         }
             
-- 
2.43.0


From 0b8fe3381787831bfb35a73bfd978708dc0fd008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:14:35 +0000
Subject: [PATCH 145/178] fix: a timer that is destroyed leaves nothing behind
 in its task

---
 src/task/timer.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/task/timer.cpp b/src/task/timer.cpp
index 04d77c8..d469ceb 100644
--- a/src/task/timer.cpp
+++ b/src/task/timer.cpp
@@ -94,6 +94,8 @@ namespace neolib
     {
         cancel();
         unsubscribe();
+        if (iTimerObject)
+            iTask.timer_service().remove_timer_object(*iTimerObject);
     }
 
     i_async_task& timer::owner_task() const
-- 
2.43.0


From f6fca5103f366f41cff854c5c35c506b1c2983b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:17:46 +0000
Subject: [PATCH 146/178] fix: a component that has a snapshot frees the
 handles of a record once

---
 include/neolib/ecs/component.hpp | 30 +++++++++++++++++-------------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/include/neolib/ecs/component.hpp b/include/neolib/ecs/component.hpp
index 81c9f71..2fa1cb6 100644
--- a/include/neolib/ecs/component.hpp
+++ b/include/neolib/ecs/component.hpp
@@ -360,19 +360,7 @@ namespace neolib::ecs
                 throw entity_record_not_found();
             if constexpr (data_meta_type::has_handles)
                 data_meta_type::free_handles(base_type::component_data()[reverseIndex], ecs());
-            std::swap(base_type::component_data()[reverseIndex], base_type::component_data().back());
-            base_type::component_data().pop_back();
-            auto tailEntity = entities().back();
-            std::swap(entities()[reverseIndex], entities().back());
-            entities().pop_back();
-            reverse_indices()[tailEntity] = reverseIndex;
-            reverse_indices()[aEntity] = invalid;
-            if (have_snapshot())
-            {
-                auto ss = snapshot();
-                if (ss.data().has_entity_record(aEntity))
-                    ss.data().destroy_entity_record(aEntity);
-            }
+            remove_entity_record(aEntity, reverseIndex);
         }
         value_type& populate(entity_id aEntity, const value_type& aData)
         {
@@ -450,6 +438,22 @@ namespace neolib::ecs
             neolib::parallel_apply(ecs().thread_pool(), component_data(), [&](value_type& aData) { aCallable(*this, aData); }, aMinimumParallelismCount);
         }
     private:
+        void remove_entity_record(entity_id aEntity, reverse_index_t aReverseIndex)
+        {
+            std::swap(base_type::component_data()[aReverseIndex], base_type::component_data().back());
+            base_type::component_data().pop_back();
+            auto tailEntity = entities().back();
+            std::swap(entities()[aReverseIndex], entities().back());
+            entities().pop_back();
+            reverse_indices()[tailEntity] = aReverseIndex;
+            reverse_indices()[aEntity] = invalid;
+            if (have_snapshot())
+            {
+                auto ss = snapshot();
+                if (ss.data().has_entity_record(aEntity)) // the snapshot shares its handles with us
+                    ss.data().remove_entity_record(aEntity, ss.data().reverse_index(aEntity));
+            }
+        }
         template <typename T>
         value_type& do_populate(entity_id aEntity, T&& aComponentData)
         {
-- 
2.43.0


From faaa2165cb582cbd60eb7454351e76ee2236707d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:17:46 +0000
Subject: [PATCH 147/178] fix: a new handle has a place among the handles

---
 src/ecs/ecs.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ecs/ecs.cpp b/src/ecs/ecs.cpp
index 0d5d91c..8d60a4b 100644
--- a/src/ecs/ecs.cpp
+++ b/src/ecs/ecs.cpp
@@ -531,6 +531,8 @@ namespace neolib::ecs
     ecs::handle_t ecs::to_handle(handle_id aId) const
     {
         std::unique_lock lock{ mutex() };
+        if (iHandles.size() <= aId)
+            throw invalid_handle_id();
         return iHandles[aId];
     }
 
@@ -539,7 +541,7 @@ namespace neolib::ecs
         std::unique_lock lock{ mutex() };
         auto nextHandleId = next_handle_id();
         if (iHandles.size() <= nextHandleId)
-            iHandles.resize(nextHandleId);
+            iHandles.resize(nextHandleId + 1);
         iHandles[nextHandleId] = aHandle;
         return nextHandleId;
     }
-- 
2.43.0


From bd9f6af40d1029b4a827358a2cfafaa946107c91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:17:46 +0000
Subject: [PATCH 148/178] fix: no entity is created of an archetype that is not
 registered

---
 include/neolib/ecs/i_ecs.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/neolib/ecs/i_ecs.hpp b/include/neolib/ecs/i_ecs.hpp
index 497fe40..f619e1b 100644
--- a/include/neolib/ecs/i_ecs.hpp
+++ b/include/neolib/ecs/i_ecs.hpp
@@ -674,9 +674,10 @@ namespace neolib::ecs
     inline entity_id i_ecs::create_entity(const entity_archetype_id& aArchetypeId, ComponentData&&... aComponentData)
     {
         scoped_component_data_lock<std::decay_t<ComponentData>...> lock{ *this };
+        auto& entityArchetype = archetype(aArchetypeId);
         auto newEntity = create_entity(aArchetypeId);
         populate(newEntity, std::forward<ComponentData>(aComponentData)...);
-        archetype(aArchetypeId).populate_default_components(*this, newEntity);
+        entityArchetype.populate_default_components(*this, newEntity);
         return newEntity;
     }
 
-- 
2.43.0


From 10d7d67c99e6a01bebf6f2fdd2c6abadc2b734dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:17:46 +0000
Subject: [PATCH 149/178] fix: an entity is destroyed once

---
 src/ecs/ecs.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/ecs/ecs.cpp b/src/ecs/ecs.cpp
index 8d60a4b..83cd754 100644
--- a/src/ecs/ecs.cpp
+++ b/src/ecs/ecs.cpp
@@ -388,7 +388,8 @@ namespace neolib::ecs
     {
         {
             scoped_component_data_lock<entity_info> lock{ *this };
-            component<entity_info>().entity_record(aEntityId).destroyed = true;
+            if (component<entity_info>().entity_record(aEntityId).destroyed.exchange(true))
+                return; // it is to be destroyed already
         }
         {
             std::unique_lock lock{ entity_mutex() };
@@ -410,7 +411,10 @@ namespace neolib::ecs
         {
             auto next = entitiesToDestroy.back();
             entitiesToDestroy.pop_back();
-            destroy_entity(next.first, next.second);
+            auto const& infos = to_const(component<entity_info>());
+            if (infos.has_entity_record(next.first) && infos.entity_record(next.first).destroyed)
+                destroy_entity(next.first, next.second);
+            // else it has been destroyed in the meantime (and its id might be that of another entity by now)
         }
     }
 
-- 
2.43.0


From c5d02e539a26c337e843a70f438c3b6a0aa2cf1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:18:16 +0000
Subject: [PATCH 150/178] fix: committing entities unlocks the mutexes it
 locked

---
 include/neolib/ecs/ecs.hpp |  4 +++-
 src/ecs/ecs.cpp            | 16 +++++++++++++---
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/include/neolib/ecs/ecs.hpp b/include/neolib/ecs/ecs.hpp
index 168a46f..74599d4 100644
--- a/include/neolib/ecs/ecs.hpp
+++ b/include/neolib/ecs/ecs.hpp
@@ -72,6 +72,7 @@ namespace neolib::ecs
         define_declared_event(HandleUpdated, handle_updated, handle_id)
     private:
         typedef std::vector<handle_t> handles_t;
+        typedef std::vector<proxy_mutex<i_lockable>> component_mutexes_t;
         struct entity_mutex_tag {};
         struct archetype_mutex_tag {};
         struct component_factory_mutex_tag {};
@@ -154,6 +155,7 @@ namespace neolib::ecs
         handle_t update_handle(handle_id aId, const std::type_info& aTypeInfo, handle_t aHandle) final;
         handle_t release_handle(handle_id aId) final;
     private:
+        component_mutexes_t component_mutexes() const;
         handle_id next_handle_id();
         void free_handle_id(handle_id aId);
     public:
@@ -189,7 +191,7 @@ namespace neolib::ecs
         archetype_registry_t iArchetypeRegistry;
         component_factories_t iComponentFactories;
         mutable components_t iComponents;
-        mutable std::vector<proxy_mutex<i_lockable>> iComponentMutexes;
+        mutable component_mutexes_t iComponentMutexes;
         shared_component_factories_t iSharedComponentFactories;
         mutable shared_components_t iSharedComponents;
         system_factories_t iSystemFactories;
diff --git a/src/ecs/ecs.cpp b/src/ecs/ecs.cpp
index 83cd754..c22c613 100644
--- a/src/ecs/ecs.cpp
+++ b/src/ecs/ecs.cpp
@@ -359,7 +359,8 @@ namespace neolib::ecs
                 return;
             entitiesToCreate.swap(iEntitiesToCreate);
         }
-        scoped_multi_lock<decltype(iComponentMutexes)> lock{ iComponentMutexes };
+        auto componentMutexes = component_mutexes();
+        scoped_multi_lock<decltype(componentMutexes)> lock{ componentMutexes };
         while (!entitiesToCreate.empty())
         {
             auto next = entitiesToCreate.back();
@@ -373,7 +374,8 @@ namespace neolib::ecs
         if (aNotify)
             EntityDestroyed.trigger(aEntityId);
         {
-            scoped_multi_lock<decltype(iComponentMutexes)> lock{ iComponentMutexes };
+            auto componentMutexes = component_mutexes();
+            scoped_multi_lock<decltype(componentMutexes)> lock{ componentMutexes };
             for (auto& component : iComponents)
                 if (component.second->has_entity_record(aEntityId))
                     component.second->destroy_entity_record(aEntityId);
@@ -406,7 +408,8 @@ namespace neolib::ecs
                 return;
             entitiesToDestroy.swap(iEntitiesToDestroy);
         }
-        scoped_multi_lock<decltype(iComponentMutexes)> lock{ iComponentMutexes };
+        auto componentMutexes = component_mutexes();
+        scoped_multi_lock<decltype(componentMutexes)> lock{ componentMutexes };
         while (!entitiesToDestroy.empty())
         {
             auto next = entitiesToDestroy.back();
@@ -570,6 +573,13 @@ namespace neolib::ecs
         return handle;
     }
 
+    ecs::component_mutexes_t ecs::component_mutexes() const
+    {
+        // by value: components may be instantiated while the mutexes of those there were are locked
+        std::unique_lock lock{ component_mutex() };
+        return iComponentMutexes;
+    }
+
     handle_id ecs::next_handle_id()
     {
         std::unique_lock lock{ mutex() };
-- 
2.43.0


From 56365db7e1011710fc13025ffca0792ecb14cae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:18:16 +0000
Subject: [PATCH 151/178] fix: a system may be instantiated while systems are
 applied

---
 src/ecs/ecs.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/ecs/ecs.cpp b/src/ecs/ecs.cpp
index c22c613..f66664f 100644
--- a/src/ecs/ecs.cpp
+++ b/src/ecs/ecs.cpp
@@ -245,7 +245,13 @@ namespace neolib::ecs
             [this](neolib::callback_timer& aTimer)
             {
                 aTimer.again();
-                for (auto& system : systems())
+                std::vector<std::pair<system_id, i_system*>> applicable; // applying a system may instantiate another one
+                {
+                    std::unique_lock lock{ system_mutex() };
+                    for (auto& system : systems())
+                        applicable.emplace_back(system.first, &*system.second);
+                }
+                for (auto& system : applicable)
                     if (system.second->can_apply())
                     {
                         system_id ignore;
-- 
2.43.0


From 8a08d85d55b7e038b434f0c99e0d9668256dc060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:18:16 +0000
Subject: [PATCH 152/178] fix: the fields of the clock have types

---
 include/neolib/ecs/clock.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/neolib/ecs/clock.hpp b/include/neolib/ecs/clock.hpp
index c09e13c..a5cc9bd 100644
--- a/include/neolib/ecs/clock.hpp
+++ b/include/neolib/ecs/clock.hpp
@@ -128,9 +128,9 @@ namespace neolib::ecs
                     return component_data_field_type::Int64 | component_data_field_type::Atomic;
                 case 1:
                     return component_data_field_type::Int64;
-                case 3:
+                case 2:
                     return component_data_field_type::Float64;
-                case 4:
+                case 3:
                     return component_data_field_type::Int64;
                 default:
                     throw invalid_field_index();
-- 
2.43.0


From 96d48d809a99ec240741e90e5276dce09854af12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:18:16 +0000
Subject: [PATCH 153/178] fix: there is a world clock whoever registered the
 component

---
 src/ecs/time.cpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/ecs/time.cpp b/src/ecs/time.cpp
index 0429921..a8cdcf0 100644
--- a/src/ecs/time.cpp
+++ b/src/ecs/time.cpp
@@ -41,12 +41,10 @@ namespace neolib::ecs
 {
     clock& world_clock(ecs::i_ecs& aEcs)
     {
-        if (!aEcs.shared_component_registered<clock>())
-        {
-            aEcs.register_shared_component<clock>();
-            aEcs.populate_shared<clock>("World Clock", clock{});
-        }
-        return aEcs.shared_component<clock>()[0];
+        auto& clocks = aEcs.shared_component<clock>();
+        if (clocks.component_data().empty())
+            clocks.populate("World Clock", clock{});
+        return clocks[0];
     }
 
     time::time(ecs::i_ecs& aEcs) :
-- 
2.43.0


From fc6897b7fd38a4104cc5992ab80d74c3cbcf5512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:18:16 +0000
Subject: [PATCH 154/178] fix: looking at shared component data by name
 compiles

---
 include/neolib/ecs/component.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/neolib/ecs/component.hpp b/include/neolib/ecs/component.hpp
index 2fa1cb6..d4ffbe2 100644
--- a/include/neolib/ecs/component.hpp
+++ b/include/neolib/ecs/component.hpp
@@ -637,7 +637,7 @@ namespace neolib::ecs
         }
         const mapped_type& operator[](const std::string& aName) const
         {
-            return component_data()[aName];
+            return component_data().at(aName);
         }
         mapped_type& operator[](const std::string& aName)
         {
-- 
2.43.0


From 73ccc87b7ef1b3d14a78078c562c372c94e4636a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:26:16 +0000
Subject: [PATCH 155/178] fix: a system created while all systems are paused is
 paused once

---
 include/neolib/ecs/system.hpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/include/neolib/ecs/system.hpp b/include/neolib/ecs/system.hpp
index f3efa8b..3a7be76 100644
--- a/include/neolib/ecs/system.hpp
+++ b/include/neolib/ecs/system.hpp
@@ -103,8 +103,6 @@ namespace neolib::ecs
         {
             (ecs().template component<ComponentData>(), ...);
             update_component_availability();
-            if (ecs().all_systems_paused())
-                pause();
         }
         ~system()
         {
-- 
2.43.0


From 4166eb45718961a053116facd9554afd1b7414bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:35:37 +0000
Subject: [PATCH 156/178] fix: a matrix can be added to, multiplied and divided
 by a scalar

---
 include/neolib/core/numerical.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/neolib/core/numerical.hpp b/include/neolib/core/numerical.hpp
index db0e3f8..0390f46 100644
--- a/include/neolib/core/numerical.hpp
+++ b/include/neolib/core/numerical.hpp
@@ -969,6 +969,10 @@ namespace neolib
             bool operator!=(const basic_matrix& right) const { return m != right.m; }
             basic_matrix& operator+=(const basic_matrix& right) { for (std::uint32_t column = 0; column < Columns; ++column) (*this)[column] += right[column]; return *this; }
             basic_matrix& operator-=(const basic_matrix& right) { for (std::uint32_t column = 0; column < Columns; ++column) (*this)[column] -= right[column]; return *this; }
+            basic_matrix& operator+=(value_type right) { for (std::uint32_t column = 0; column < Columns; ++column) (*this)[column] += right; return *this; }
+            basic_matrix& operator-=(value_type right) { for (std::uint32_t column = 0; column < Columns; ++column) (*this)[column] -= right; return *this; }
+            basic_matrix& operator*=(value_type right) { for (std::uint32_t column = 0; column < Columns; ++column) (*this)[column] *= right; return *this; }
+            basic_matrix& operator/=(value_type right) { for (std::uint32_t column = 0; column < Columns; ++column) (*this)[column] /= right; return *this; }
             basic_matrix& operator*=(const basic_matrix& right)
             {
                 basic_matrix result;
-- 
2.43.0


From c9063e23226fde27118bb5ed19fdb00f9f0b4b18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:35:37 +0000
Subject: [PATCH 157/178] fix: the product of two matrices that are not square
 compiles

---
 include/neolib/core/numerical.hpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/include/neolib/core/numerical.hpp b/include/neolib/core/numerical.hpp
index 0390f46..2f338c3 100644
--- a/include/neolib/core/numerical.hpp
+++ b/include/neolib/core/numerical.hpp
@@ -1282,10 +1282,13 @@ namespace neolib
         inline basic_matrix<T, D1, D1> operator*(const basic_matrix<T, D1, D2>& left, const basic_matrix<T, D2, D1>& right)
         {
 #if defined(IDENTITY_MATRIX_OPTIMISATIONS)
-            if (left.is_identity())
-                return right;
-            if (right.is_identity())
-                return left;
+            if constexpr (D1 == D2)
+            {
+                if (left.is_identity())
+                    return right;
+                if (right.is_identity())
+                    return left;
+            }
 #endif
             basic_matrix<T, D1, D1> result;
             for (std::uint32_t column = 0u; column < D1; ++column)
-- 
2.43.0


From 15eb0a7fccae6f592758aff5c602c19b8c7246f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:35:37 +0000
Subject: [PATCH 158/178] fix: round_to rounds negative components to the
 nearest multiple

---
 include/neolib/core/numerical.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/neolib/core/numerical.hpp b/include/neolib/core/numerical.hpp
index 2f338c3..93fa7e4 100644
--- a/include/neolib/core/numerical.hpp
+++ b/include/neolib/core/numerical.hpp
@@ -997,8 +997,7 @@ namespace neolib
                 for (std::uint32_t column = 0; column < Columns; ++column)
                     for (std::uint32_t row = 0; row < Rows; ++row)
                     {
-                        std::modf((*this)[column][row] / aEpsilon + static_cast<value_type>(0.5), &result[column][row]);
-                        result[column][row] *= aEpsilon;
+                        result[column][row] = std::floor((*this)[column][row] / aEpsilon + static_cast<value_type>(0.5)) * aEpsilon;
                     }
                 return result;
             }
-- 
2.43.0


From 6dd55d58efaee83ff246ca5dbf98539d15997763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:35:37 +0000
Subject: [PATCH 159/178] fix: a rotation by half a turn is a rotation

---
 include/neolib/core/numerical.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/neolib/core/numerical.hpp b/include/neolib/core/numerical.hpp
index 93fa7e4..37e5c93 100644
--- a/include/neolib/core/numerical.hpp
+++ b/include/neolib/core/numerical.hpp
@@ -1562,8 +1562,6 @@ namespace neolib
         {
             if (std::abs(angle) <= epsilon)
                 return basic_matrix<T, 3u, 3u>::identity();
-            else if (std::abs(angle - boost::math::constants::pi<T>()) <= epsilon)
-                return -basic_matrix<T, 3u, 3u>::identity();
             T const s = std::sin(angle);
             T const c = std::cos(angle);
             T const a = static_cast<T>(1.0) - c;
@@ -1581,7 +1579,10 @@ namespace neolib
         {
             auto const nva = vectorA.normalized();
             auto const nvb = vectorB.normalized();
-            return rotation_matrix(nva.cross(nvb).normalized(), std::acos(nva.dot(nvb)), epsilon);
+            auto axis = nva.cross(nvb);
+            if (axis.magnitude() <= epsilon) // parallel: any perpendicular axis will do
+                axis = nva.cross(std::abs(nva.x) < constants::half<T> ? basic_vector<T, 3u>{ constants::one<T>, constants::zero<T>, constants::zero<T> } : basic_vector<T, 3u>{ constants::zero<T>, constants::one<T>, constants::zero<T> });
+            return rotation_matrix(axis.normalized(), std::acos(std::clamp(nva.dot(nvb), -constants::one<T>, constants::one<T>)), epsilon);
         }
 
         template <std::floating_point T>
-- 
2.43.0


From 63ecb7d2c9bc8f6dfdd3745c86eaa957a42651a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:35:37 +0000
Subject: [PATCH 160/178] fix: assigning to a swizzle changes the components it
 names

---
 include/neolib/core/swizzle.hpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/neolib/core/swizzle.hpp b/include/neolib/core/swizzle.hpp
index 23608c8..2c6dec6 100644
--- a/include/neolib/core/swizzle.hpp
+++ b/include/neolib/core/swizzle.hpp
@@ -94,7 +94,15 @@ namespace neolib
             swizzle& operator=(const T& aRhs)
             {
                 static_assert(greater_than<vector_type::Size, Indexes...>::result, "Swizzle too big");
-                assign(std::begin(aRhs.v), &v[Indexes]...);
+                auto const source = aRhs.v; // aRhs may be the very vector being swizzled
+                assign(std::begin(source), &v[Indexes]...);
+                return *this;
+            }
+            swizzle& operator=(const swizzle& aRhs)
+            {
+                std::array<value_type, S> source;
+                aRhs.copy(source.begin());
+                assign(source.begin(), &v[Indexes]...);
                 return *this;
             }
         public:
-- 
2.43.0


From baee10eae4a204bb83be49bd9e806ee2cd56384f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:35:37 +0000
Subject: [PATCH 161/178] fix: quad_extents can be called

---
 include/neolib/core/numerical.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/neolib/core/numerical.hpp b/include/neolib/core/numerical.hpp
index 37e5c93..9a71dea 100644
--- a/include/neolib/core/numerical.hpp
+++ b/include/neolib/core/numerical.hpp
@@ -1937,7 +1937,7 @@ namespace neolib
         constexpr std::size_t QuadBottomRight = static_cast<std::size_t>(quad_corner::BottomRight);
         constexpr std::size_t QuadBottomLeft = static_cast<std::size_t>(quad_corner::BottomLeft);
 
-        template <typename T, std::size_t D>
+        template <typename T, std::uint32_t D>
         inline basic_vector<T, D> quad_extents(std::array<basic_vector<T, D>, 4> const& aQuad)
         {
             return basic_vector<T, D>{
-- 
2.43.0


From e8ec4acc786fd4b16e55f460bf42462d3d8db32a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:35:37 +0000
Subject: [PATCH 162/178] fix: aabb_contains compares every coordinate

---
 include/neolib/core/numerical.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/neolib/core/numerical.hpp b/include/neolib/core/numerical.hpp
index 9a71dea..f901869 100644
--- a/include/neolib/core/numerical.hpp
+++ b/include/neolib/core/numerical.hpp
@@ -2202,13 +2202,13 @@ namespace neolib
         template <typename Vertex>
         inline bool aabb_contains(const basic_aabb<Vertex>& outer, const basic_aabb<Vertex>& inner)
         {
-            return inner.min >= outer.min && inner.max <= outer.max;
+            return aabb_union(outer, inner) == outer;
         }
 
         template <typename Vertex>
         inline bool aabb_contains(const basic_aabb<Vertex>& outer, const Vertex& point)
         {
-            return point >= outer.min && point <= outer.max;
+            return point.max(outer.min) == point && point.min(outer.max) == point;
         }
 
         template <typename Vertex>
@@ -2431,13 +2431,13 @@ namespace neolib
         template <typename Vertex>
         inline bool aabb_contains(const basic_aabb_2d<Vertex>& outer, const basic_aabb_2d<Vertex>& inner)
         {
-            return inner.min >= outer.min && inner.max <= outer.max;
+            return aabb_union(outer, inner) == outer;
         }
 
         template <typename Vertex>
         inline bool aabb_contains(const basic_aabb_2d<Vertex>& outer, const Vertex& point)
         {
-            return point >= outer.min && point <= outer.max;
+            return point.max(outer.min) == point && point.min(outer.max) == point;
         }
 
         template <typename Vertex>
-- 
2.43.0


From 824d277c762c5ec397b145fb72238f585efd8536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:35:37 +0000
Subject: [PATCH 163/178] fix: aabb_transform applies translations

---
 include/neolib/core/numerical.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/neolib/core/numerical.hpp b/include/neolib/core/numerical.hpp
index f901869..a0fcf6b 100644
--- a/include/neolib/core/numerical.hpp
+++ b/include/neolib/core/numerical.hpp
@@ -2081,14 +2081,14 @@ namespace neolib
             using coordinate_t = typename Vertex::value_type;
             std::array<Vertex, 8> boxVertices =
             {
-                ((aFirstTransform * ... * aRemainingTransforms) * basic_vector<coordinate_t, 4u>{ aAabb.min.x, aAabb.min.y, aAabb.min.z, coordinate_t{} }).xyz,
-                ((aFirstTransform * ... * aRemainingTransforms) * basic_vector<coordinate_t, 4u>{ aAabb.max.x, aAabb.min.y, aAabb.min.z, coordinate_t{} }).xyz,
-                ((aFirstTransform * ... * aRemainingTransforms) * basic_vector<coordinate_t, 4u>{ aAabb.min.x, aAabb.max.y, aAabb.min.z, coordinate_t{} }).xyz,
-                ((aFirstTransform * ... * aRemainingTransforms) * basic_vector<coordinate_t, 4u>{ aAabb.max.x, aAabb.max.y, aAabb.min.z, coordinate_t{} }).xyz,
-                ((aFirstTransform * ... * aRemainingTransforms) * basic_vector<coordinate_t, 4u>{ aAabb.min.x, aAabb.min.y, aAabb.max.z, coordinate_t{} }).xyz,
-                ((aFirstTransform * ... * aRemainingTransforms) * basic_vector<coordinate_t, 4u>{ aAabb.max.x, aAabb.min.y, aAabb.max.z, coordinate_t{} }).xyz,
-                ((aFirstTransform * ... * aRemainingTransforms) * basic_vector<coordinate_t, 4u>{ aAabb.min.x, aAabb.max.y, aAabb.max.z, coordinate_t{} }).xyz,
-                ((aFirstTransform * ... * aRemainingTransforms) * basic_vector<coordinate_t, 4u>{ aAabb.max.x, aAabb.max.y, aAabb.max.z, coordinate_t{} }).xyz
+                ((aFirstTransform * ... * aRemainingTransforms) * basic_vector<coordinate_t, 4u>{ aAabb.min.x, aAabb.min.y, aAabb.min.z, coordinate_t{ 1 } }).xyz,
+                ((aFirstTransform * ... * aRemainingTransforms) * basic_vector<coordinate_t, 4u>{ aAabb.max.x, aAabb.min.y, aAabb.min.z, coordinate_t{ 1 } }).xyz,
+                ((aFirstTransform * ... * aRemainingTransforms) * basic_vector<coordinate_t, 4u>{ aAabb.min.x, aAabb.max.y, aAabb.min.z, coordinate_t{ 1 } }).xyz,
+                ((aFirstTransform * ... * aRemainingTransforms) * basic_vector<coordinate_t, 4u>{ aAabb.max.x, aAabb.max.y, aAabb.min.z, coordinate_t{ 1 } }).xyz,
+                ((aFirstTransform * ... * aRemainingTransforms) * basic_vector<coordinate_t, 4u>{ aAabb.min.x, aAabb.min.y, aAabb.max.z, coordinate_t{ 1 } }).xyz,
+                ((aFirstTransform * ... * aRemainingTransforms) * basic_vector<coordinate_t, 4u>{ aAabb.max.x, aAabb.min.y, aAabb.max.z, coordinate_t{ 1 } }).xyz,
+                ((aFirstTransform * ... * aRemainingTransforms) * basic_vector<coordinate_t, 4u>{ aAabb.min.x, aAabb.max.y, aAabb.max.z, coordinate_t{ 1 } }).xyz,
+                ((aFirstTransform * ... * aRemainingTransforms) * basic_vector<coordinate_t, 4u>{ aAabb.max.x, aAabb.max.y, aAabb.max.z, coordinate_t{ 1 } }).xyz
             };
             basic_aabb<Vertex> result{ boxVertices[0], boxVertices[0] };
             for (auto const& v : boxVertices)
-- 
2.43.0


From 2d3d4ed00c5a0c8fe7771ecc21fef8d2e3a843e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:35:37 +0000
Subject: [PATCH 164/178] fix: avx_simd_mul_4d delivers the products in order

---
 include/neolib/core/simd.hpp | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/include/neolib/core/simd.hpp b/include/neolib/core/simd.hpp
index b5f284d..8423c78 100644
--- a/include/neolib/core/simd.hpp
+++ b/include/neolib/core/simd.hpp
@@ -141,20 +141,22 @@ namespace neolib
             alignas(32) __m256d lhs = _mm256_set_pd(x1, y1, z1, w1);
             alignas(32) __m256d rhs = _mm256_set_pd(x2, y2, z2, w2);
             alignas(32) __m256d ans = _mm256_mul_pd(lhs, rhs);
-            a = to_scalar(ans, 0);
-            b = to_scalar(ans, 1);
-            c = to_scalar(ans, 2);
-            d = to_scalar(ans, 3);
+            // _mm256_set_pd takes the highest element first
+            a = to_scalar(ans, 3);
+            b = to_scalar(ans, 2);
+            c = to_scalar(ans, 1);
+            d = to_scalar(ans, 0);
         }
         else
         {
             alignas(32) __m256 lhs = _mm256_set_ps(x1, y1, z1, w1, 0.0f, 0.0f, 0.0f, 0.0f);
             alignas(32) __m256 rhs = _mm256_set_ps(x2, y2, z2, w2, 0.0f, 0.0f, 0.0f, 0.0f);
             alignas(32) __m256 ans = _mm256_mul_ps(lhs, rhs);
-            a = to_scalar(ans, 0);
-            b = to_scalar(ans, 1);
-            c = to_scalar(ans, 2);
-            d = to_scalar(ans, 3);
+            // _mm256_set_ps takes the highest element first
+            a = to_scalar(ans, 7);
+            b = to_scalar(ans, 6);
+            c = to_scalar(ans, 5);
+            d = to_scalar(ans, 4);
         }
     }
 #endif
-- 
2.43.0


From 170172218630bec17987b112fc52fb1267201a5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:35:37 +0000
Subject: [PATCH 165/178] fix: to_scalar(__m128i) addresses 32 bit elements

---
 include/neolib/core/simd.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/neolib/core/simd.hpp b/include/neolib/core/simd.hpp
index 8423c78..e139ce9 100644
--- a/include/neolib/core/simd.hpp
+++ b/include/neolib/core/simd.hpp
@@ -82,7 +82,9 @@ namespace neolib
 #ifdef _WIN32
         return emmRegister.m128i_u32[index];
 #else
-        return emmRegister[index];
+        alignas(16) std::uint32_t elements[4];
+        _mm_store_si128(reinterpret_cast<__m128i*>(elements), emmRegister);
+        return elements[index];
 #endif
     }
 #endif
-- 
2.43.0


From d57faebb604d65435d6f960d769368db9363f5f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:35:37 +0000
Subject: [PATCH 166/178] fix: simd_rand accepts every upper bound

---
 include/neolib/core/simd.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/neolib/core/simd.hpp b/include/neolib/core/simd.hpp
index e139ce9..9b5256f 100644
--- a/include/neolib/core/simd.hpp
+++ b/include/neolib/core/simd.hpp
@@ -331,6 +331,6 @@ namespace neolib
     template <typename T>
     inline T simd_rand(T aUpper)
     {
-        return static_cast<T>(simd_rand() % (static_cast<std::uint32_t>(aUpper) + 1u));
+        return static_cast<T>(simd_rand() % (static_cast<std::uint64_t>(static_cast<std::uint32_t>(aUpper)) + 1u));
     }
 }
-- 
2.43.0


From 184fd668e9cc90a0c9d77d07d2229ae771982437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:36:51 +0000
Subject: [PATCH 167/178] fix: the bresenham counters reach the end of a
 negative range

---
 include/neolib/core/bresenham_counter.hpp | 32 +++--------------------
 1 file changed, 4 insertions(+), 28 deletions(-)

diff --git a/include/neolib/core/bresenham_counter.hpp b/include/neolib/core/bresenham_counter.hpp
index 2a5ddb0..3933d64 100644
--- a/include/neolib/core/bresenham_counter.hpp
+++ b/include/neolib/core/bresenham_counter.hpp
@@ -47,12 +47,7 @@ namespace neolib
     public:
         bresenham_counter() {}
         bresenham_counter(T range, T number) : 
-            dx(number-1), 
-            dy(dx > 0 ? range % dx : 0), 
-            d(2*dy - dx), incrE(2*dy), incrNE(2*(dy-dx)), 
-            incrCounter(dx > 0 ? range / dx : 0), 
-            incrCounterPlus1(dx > 0 ? incrCounter+1 : 0),
-            counter(0) {}
+            bresenham_counter(T{}, range, number) {}
         bresenham_counter(T rangeStart, T rangeEnd, T number) : 
             dx(number-1), 
             dy(dx > 0 ? rangeEnd > rangeStart ? 
@@ -64,14 +59,7 @@ namespace neolib
             counter(rangeStart) {}
         void init(T range, T number)
         {
-            dx = number-1; 
-            dy = dx > 0 ? range % dx : 0; 
-            d = 2*dy - dx;
-            incrE = 2*dy;
-            incrNE = 2*(dy-dx); 
-            incrCounter = dx > 0 ? range / dx : 0; 
-            incrCounterPlus1 = dx > 0 ? incrCounter+1 : 0;
-            counter = 0;
+            init(T{}, range, number);
         }
         void init(T rangeStart, T rangeEnd, T number)
         {
@@ -122,13 +110,7 @@ namespace neolib
     public:
         bresenham_counter_alt() {}
         bresenham_counter_alt(T range, T number) : 
-            n(number-1),
-            partInt(n > 0 ? range / n : 0),
-            partFract(n > 0 ? range % n : 0), 
-            e(0),
-            incrCounter(partInt),
-            incrCounterPlus1(n > 0 ? incrCounter+1 : 0),
-            counter(0) {}
+            bresenham_counter_alt(T{}, range, number) {}
         bresenham_counter_alt(T rangeStart, T rangeEnd, T number) : 
             n(number-1),
             partInt(n > 0 ? rangeEnd > rangeStart ? 
@@ -141,13 +123,7 @@ namespace neolib
             counter(rangeStart) {}
         void init(T range, T number)
         {
-            n = number-1;
-            partInt = n > 0 ? range / n : 0;
-            partFract = n > 0 ? range % n : 0;
-            e = 0;
-            incrCounter = partInt;
-            incrCounterPlus1 = n > 0 ? incrCounter+1 : 0;
-            counter = 0;
+            init(T{}, range, number);
         }
         void init(T rangeStart, T rangeEnd, T number)
         {
-- 
2.43.0


From e68e3cf677b0cacd04ac69b9eb44edfcd1e8a819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:36:51 +0000
Subject: [PATCH 168/178] fix: bresenham_counter counts with unsigned types

---
 include/neolib/core/bresenham_counter.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/neolib/core/bresenham_counter.hpp b/include/neolib/core/bresenham_counter.hpp
index 3933d64..1c67f69 100644
--- a/include/neolib/core/bresenham_counter.hpp
+++ b/include/neolib/core/bresenham_counter.hpp
@@ -36,6 +36,7 @@
 #pragma once
 
 #include <neolib/neolib.hpp>
+#include <type_traits>
 
 namespace neolib 
 {
@@ -53,7 +54,8 @@ namespace neolib
             dy(dx > 0 ? rangeEnd > rangeStart ? 
                 (rangeEnd - rangeStart) % dx : (rangeStart - rangeEnd) % dx : 0), 
             d(2*dy - dx), incrE(2*dy), incrNE(2*(dy-dx)), 
-            incrCounter(dx > 0 ? (rangeEnd - rangeStart) / dx : 0), 
+            incrCounter(dx > 0 ? rangeEnd > rangeStart ? 
+                (rangeEnd - rangeStart) / dx : -((rangeStart - rangeEnd) / dx) : 0), 
             incrCounterPlus1(dx > 0 ? rangeEnd > rangeStart ? 
                 incrCounter+1 : incrCounter-1 : 0),
             counter(rangeStart) {}
@@ -69,7 +71,8 @@ namespace neolib
             d = 2*dy - dx;
             incrE = 2*dy;
             incrNE = 2*(dy-dx);
-            incrCounter = dx > 0 ? (rangeEnd - rangeStart) / dx : 0;
+            incrCounter = dx > 0 ? rangeEnd > rangeStart ? 
+                (rangeEnd - rangeStart) / dx : -((rangeStart - rangeEnd) / dx) : 0;
             incrCounterPlus1 = dx > 0 ? rangeEnd > rangeStart ? 
                 incrCounter+1 : incrCounter-1 : 0;
             counter = rangeStart;
@@ -96,7 +99,7 @@ namespace neolib
             return operator T();
         }
     private:
-        T dx, dy, d, incrE, incrNE;
+        std::make_signed_t<T> dx, dy, d, incrE, incrNE; // the decision variable goes below zero
         T incrCounter;
         T incrCounterPlus1;
         T counter;
-- 
2.43.0


From e17afa63debd6dbab6e6059701c614cc10621353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:01:11 +0000
Subject: [PATCH 169/178] fix: the parser accepts a source only when a parse of
 the whole of it was found

---
 include/neolib/file/parser.hpp | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/include/neolib/file/parser.hpp b/include/neolib/file/parser.hpp
index 64f91a6..a465e89 100644
--- a/include/neolib/file/parser.hpp
+++ b/include/neolib/file/parser.hpp
@@ -651,11 +651,18 @@ namespace neolib
                     columnPos = static_cast<std::uint32_t>(std::distance(std::reverse_iterator(pos),
                         std::find(std::reverse_iterator(pos), std::reverse_iterator(aSource.data()), '\n')) + 1);
                     std::string error = errorPrefix + "(" + std::to_string(linePos) + "," + std::to_string(columnPos) + ") ";
-                    error += "'" + to_escaped_string(std::string_view{ pos, std::next(pos) }, 16u, true) + "' was unexpected here.";
+                    if (pos != aSource.data() + aSource.size())
+                        error += "'" + to_escaped_string(std::string_view{ pos, std::next(pos) }, 16u, true) + "' was unexpected here.";
+                    else
+                        error += "end of source was unexpected here.";
                     return error;
                 };
 
-            if (!iError && iDeepestParse < aSource.data() + aSource.size())
+            bool const parsed = iPreviousStage ?
+                iDeepestParse >= aSource.data() + aSource.size() :
+                result && result->sourceNext == aSource.data() + aSource.size();
+
+            if (!iError && !parsed)
                 iError = error_print("syntax error: ", iDeepestParse);
 
             if (iDebugOutput)
@@ -1046,6 +1053,8 @@ namespace neolib
                         auto newNode = std::make_shared<cst_node>(std::move(potentialChild));
                         newNode->parent = &aNode;
                         aNode.children.push_back(newNode);
+                        if (source.data() == result->sourceNext)
+                            finished = true;
                         source = { result->sourceNext, std::to_address(aSource.end()) };
                         if (source.empty())
                             finished = true;
@@ -1053,7 +1062,7 @@ namespace neolib
                     else
                         finished = true;
                 }
-                return aSource;
+                return parse_result{ aSource.data(), source.data() };
             }
         }
 
@@ -1326,7 +1335,7 @@ namespace neolib
                             newCursor = iCursor;
                             bestResult = partialResult;
                             std::swap(aNode.children, children2);
-                            result = apply_partial_result(result, partialResult);
+                            result = partialResult;
                             if (alt.matchFirst)
                                 break;
                         }
-- 
2.43.0


From 20cca111abff85ab5fa73b3575333ad4d5a92ec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:01:11 +0000
Subject: [PATCH 170/178] fix: the syntax tree of an atom does not depend on
 who asked for it first

---
 include/neolib/file/parser.hpp | 81 +++++++++++++++++++---------------
 1 file changed, 45 insertions(+), 36 deletions(-)

diff --git a/include/neolib/file/parser.hpp b/include/neolib/file/parser.hpp
index a465e89..0441803 100644
--- a/include/neolib/file/parser.hpp
+++ b/include/neolib/file/parser.hpp
@@ -964,6 +964,7 @@ namespace neolib
                     std::optional<parse_result> result;
                     rule const* resultRule = nullptr;
                     typename cst_node::child_list resultChildren;
+                    std::optional<_concept> resultConcept;
 
                     if (aSymbol && iCursor && iCursor != iCursorEnd && std::get<symbol>((**iCursor)->rule->lhs[0]) == aSymbol.value())
                     {
@@ -992,8 +993,10 @@ namespace neolib
                                 std::swap(aNode.children, children);
                                 std::optional<parse_result> match;
                                 iCursor = scopedCursor.saved();
+                                auto const nodeConcept = std::exchange(aNode.c, std::nullopt);
                                 match = parse(ruleSymbol, ruleAtom, aNode, std::string_view{ sourceNext, sourceEnd });
                                 std::swap(aNode.children, children);
+                                auto const matchConcept = std::exchange(aNode.c, nodeConcept);
                                 if (match)
                                 {
                                     anyMatches = true;
@@ -1009,6 +1012,7 @@ namespace neolib
                                         result = match;
                                         resultRule = &rule;
                                         resultChildren = children;
+                                        resultConcept = matchConcept;
                                     }
                                 }
                             }
@@ -1024,6 +1028,7 @@ namespace neolib
                     {
                         aNode.rule = resultRule;
                         aNode.value = result.value();
+                        aNode.set_concept(resultConcept);
                         if (!aNode.has_concept())
                             aNode.set_concept(resultRule->rhs[0].c.has_value() ? resultRule->rhs[0].c : resultRule->lhs[0].c);
                         bool const doIgnore = aSymbol && iIgnore.find(aSymbol.value()) != iIgnore.end();
@@ -1076,12 +1081,38 @@ namespace neolib
                 auto cacheEntry = iCache.find(cache_key{ &aAtom, aSource.data() });
                 if (cacheEntry != iCache.end())
                 {
-                    auto const cachedResult = cacheEntry->second.result;
-                    aNode.children = cacheEntry->second.nodes;
-                    return cachedResult;
+                    auto const& cached = cacheEntry->second;
+                    aNode.children.insert(aNode.children.end(), cached.nodes.begin(), cached.nodes.end());
+                    aNode.set_concept(cached.c);
+                    return cached.result;
                 }
             }
 
+            // only what this atom adds to the node may be cached: what the node already has depends on who is asking...
+            bool const cacheable = !iCursor;
+            auto const siblingCount = aNode.children.size();
+            auto const foldCount = iFoldCount;
+            auto const nodeConcept = std::exchange(aNode.c, std::nullopt);
+            auto const result = parse_atom(aSymbol, aAtom, aNode, aSource);
+            auto const atomConcept = std::exchange(aNode.c, nodeConcept);
+            if (!std::holds_alternative<optional>(aAtom) && !std::holds_alternative<repetition>(aAtom))
+                iFoldCount = foldCount; // the siblings of the other atoms are out of reach
+
+            if (result)
+            {
+                aNode.set_concept(atomConcept);
+                if (cacheable && !iCursor && iFoldCount == foldCount)
+                    iCache[cache_key{ &aAtom, aSource.data() }] = cache_result{
+                        { std::next(aNode.children.begin(), siblingCount), aNode.children.end() }, atomConcept, result };
+            }
+            else if (iFoldCount == foldCount)
+                aNode.children.resize(siblingCount);
+
+            return result;
+        }
+
+        std::optional<parse_result> parse_atom(symbol aSymbol, primitive_atom const& aAtom, cst_node& aNode, std::string_view const& aSource)
+        {
             std::optional<parse_result> result;
             char const* sourceNext = std::to_address(!iCursor ? 
                 aSource.begin() : 
@@ -1114,13 +1145,7 @@ namespace neolib
                     scopedCursor.ignore();
                     newChild->set_concept(aAtom.c);
                     newChild->value = partialResult.value();
-                    if (!iCursor)
-                    {
-                        iCache[cache_key{ &aAtom, aSource.data() }] = cache_result{ aNode.children, apply_partial_result(result, partialResult) };
-                        return iCache[cache_key{ &aAtom, aSource.data() }].result;
-                    }
-                    else
-                        return apply_partial_result(result, partialResult);
+                    return apply_partial_result(result, partialResult);
                 }
             }
             else if (std::holds_alternative<terminal>(aAtom))
@@ -1133,13 +1158,7 @@ namespace neolib
                     auto newChild = std::make_shared<cst_node>(&aNode, aNode.rule, &aAtom, partialResult);
                     newChild->set_concept(aAtom.c);
                     aNode.children.push_back(newChild);
-                    if (!iCursor)
-                    {
-                        iCache[cache_key{ &aAtom, aSource.data() }] = cache_result{ aNode.children, apply_partial_result(result, partialResult) };
-                        return ((sdp ? sdp->ok = true : true), iCache[cache_key{ &aAtom, aSource.data() }].result);
-                    }
-                    else
-                        return ((sdp ? sdp->ok = true : true), apply_partial_result(result, partialResult));
+                    return ((sdp ? sdp->ok = true : true), apply_partial_result(result, partialResult));
                 }
             }
             else if (std::holds_alternative<range>(aAtom))
@@ -1161,13 +1180,7 @@ namespace neolib
                             newChild->set_concept(aAtom.c);
                             aNode.children.push_back(newChild);
                         }
-                        if (!iCursor)
-                        {
-                            iCache[cache_key{ &aAtom, aSource.data() }] = cache_result{ aNode.children, apply_partial_result(result, partialResult) };
-                            return ((sdp ? sdp->ok = true : true), iCache[cache_key{ &aAtom, aSource.data() }].result);
-                        }
-                        else
-                            return ((sdp ? sdp->ok = true : true), apply_partial_result(result, partialResult));
+                        return ((sdp ? sdp->ok = true : true), apply_partial_result(result, partialResult));
                     }
                 }
             }
@@ -1221,8 +1234,6 @@ namespace neolib
                 aNode.value = std::string_view{ spanStart, spanEnd };
                 result = aNode.value;
                 result.value().sourceNext = sourceNext;
-                if (!iCursor)
-                    iCache[cache_key{ &aAtom, aSource.data() }] = cache_result{ aNode.children, result };
                 return ((sdp ? sdp->ok = true : true), result);
             }
             else if (std::holds_alternative<optional>(aAtom))
@@ -1241,8 +1252,6 @@ namespace neolib
                 if (!result)
                     result.emplace(sourceNext, sourceNext);
                 scopedCursor.ignore();
-                if (!iCursor)
-                    iCache[cache_key{ &aAtom, aSource.data() }] = cache_result{ aNode.children, result };
                 return ((sdp ? sdp->ok = true : true), result);
             }
             else if (std::holds_alternative<repetition>(aAtom))
@@ -1300,16 +1309,13 @@ namespace neolib
                         std::swap(aNode.children, children);
                         aNode.children.push_back(newChild);
                         std::swap(newChild->children, children);
+                        ++iFoldCount; // siblings that came before were folded in too
                     }
-                    if (!iCursor)
-                        iCache[cache_key{ &aAtom, aSource.data() }] = cache_result{ aNode.children, result };
                     return ((sdp ? sdp->ok = true : true), result);
                 }
                 else if (!std::get<repetition>(aAtom).atLeastOne)
                 {
                     result.emplace(sourceNext, sourceNext);
-                    if (!iCursor)
-                        iCache[cache_key{ &aAtom, aSource.data() }] = cache_result{ aNode.children, result };
                     return ((sdp ? sdp->ok = true : true), result);
                 }
                 return {};
@@ -1321,12 +1327,15 @@ namespace neolib
                 typename cst_node::child_list children;
                 std::swap(aNode.children, children);
                 typename cst_node::child_list children2;
+                auto const nodeConcept = aNode.c;
+                auto bestConcept = nodeConcept;
                 auto newCursor = iCursor;
                 for (auto const& a : alt.value)
                 {
                     typename cst_node::child_list children3;
                     std::swap(aNode.children, children3);
                     iCursor = scopedCursor.saved();
+                    aNode.c = nodeConcept;
                     auto const partialResult = parse(aSymbol, a, aNode, std::string_view{ sourceNext, sourceEnd });;
                     if (partialResult)
                     {
@@ -1334,6 +1343,7 @@ namespace neolib
                         {
                             newCursor = iCursor;
                             bestResult = partialResult;
+                            bestConcept = aNode.c;
                             std::swap(aNode.children, children2);
                             result = partialResult;
                             if (alt.matchFirst)
@@ -1342,6 +1352,7 @@ namespace neolib
                     }
                 }
                 std::swap(aNode.children, children);
+                aNode.c = bestConcept;
                 if (aAtom.constraint && result != aAtom.constraint.value())
                     return {};
                 if (bestResult)
@@ -1351,8 +1362,6 @@ namespace neolib
                     for (auto& child : children2)
                         child->set_concept(aAtom.c);
                     aNode.children.insert(aNode.children.end(), std::make_move_iterator(children2.begin()), std::make_move_iterator(children2.end()));
-                    if (!iCursor)
-                        iCache[cache_key{ &aAtom, aSource.data() }] = cache_result{ aNode.children, result };
                     return ((sdp ? sdp->ok = true : true), result);
                 }
                 return {};
@@ -1373,8 +1382,6 @@ namespace neolib
                         sourceNext = std::to_address(partialResult->sourceNext);
                     }
                 }
-                if (!iCursor)
-                    iCache[cache_key{ &aAtom, aSource.data() }] = cache_result{ aNode.children, result };
                 return ((sdp ? sdp->ok = true : true), result);
             }
 
@@ -1509,10 +1516,12 @@ namespace neolib
         struct cache_result
         {
             typename cst_node::child_list nodes;
+            std::optional<_concept> c;
             std::optional<parse_result> result;
         };
         using cache_key = std::pair<primitive_atom const*, char const*>;
         boost::unordered_flat_map<cache_key, cache_result, boost::hash<cache_key>> iCache;
+        std::uint64_t iFoldCount = 0u;
         std::ostream* iDebugOutput = nullptr;
         bool iDebugScan = false;
         bool iDebugCst = false;
-- 
2.43.0


From e2e19e7bee924b1db97ceb46a431219f97840c41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:06:30 +0000
Subject: [PATCH 171/178] fix: thread: a thread that was aborted without
 waiting ends when it blocks or unblocks

---
 src/task/thread.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/task/thread.cpp b/src/task/thread.cpp
index 0669acc..9c920d5 100644
--- a/src/task/thread.cpp
+++ b/src/task/thread.cpp
@@ -286,7 +286,7 @@ namespace neolib
         {
             std::scoped_lock<std::recursive_mutex> lock{ iMutex };
             ++iBlockedCount;
-            shouldCancel = aborted();
+            shouldCancel = finished();
         }
         if (shouldCancel)
             throw cancellation();
@@ -300,7 +300,7 @@ namespace neolib
         {
             std::scoped_lock<std::recursive_mutex> lock{ iMutex };
             --iBlockedCount;
-            shouldCancel = aborted();
+            shouldCancel = finished();
         }
         if (shouldCancel)
             throw cancellation();
-- 
2.43.0


From e58d87ab79ad551ce40bc043e7e603762c352941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:15:58 +0000
Subject: [PATCH 172/178] fix: loggers write every message once and in order
 when threads end, commit together or wait

---
 include/neolib/app/logger.hpp | 42 ++++++++++++++++++++++++-----------
 1 file changed, 29 insertions(+), 13 deletions(-)

diff --git a/include/neolib/app/logger.hpp b/include/neolib/app/logger.hpp
index abb534c..95e4166 100644
--- a/include/neolib/app/logger.hpp
+++ b/include/neolib/app/logger.hpp
@@ -217,6 +217,8 @@ namespace neolib
             {
                 if (iLoggingThread)
                     iLoggingThread->join();
+                std::lock_guard<std::recursive_mutex> lg{ mutex() };
+                iLoggingThread = std::nullopt;
             }
             severity message_severity() const
             {
@@ -243,24 +245,25 @@ namespace neolib
         public:
             void commit() override
             {
-                if (!iLoggingThread || std::this_thread::get_id() == iLoggingThread->get_id())
+                if (commits_in_this_thread())
                 {
+                    std::lock_guard<std::recursive_mutex> clg{ iCommitMutex }; // one at a time or messages would change places
+                    thread_local buffer_t tempBuffer;
                     {
-                        std::lock_guard<std::recursive_mutex> lg{ mutex() };
+                        std::lock_guard<std::recursive_mutex> lg{ mutex() }; // threads that end remove their buffers
                         for (auto& entry : buffers())
                         {
                             auto& buffers = entry.second;
                             std::swap(buffers.first, buffers.second);
                         }
-                    }
-                    thread_local buffer_t tempBuffer;
-                    for (auto& entry : buffers())
-                    {
-                        auto& buffer = *entry.second.second;
-                        if (!buffer.empty())
+                        for (auto& entry : buffers())
                         {
-                            tempBuffer += buffer;
-                            buffer.clear();
+                            auto& buffer = *entry.second.second;
+                            if (!buffer.empty())
+                            {
+                                tempBuffer += buffer;
+                                buffer.clear();
+                            }
                         }
                     }
                     commit(tempBuffer);
@@ -271,9 +274,14 @@ namespace neolib
             }
             void wait() const final
             {
-                if (iLoggingThread)
+                if (has_logging_thread())
                 {
-                    while (any_available())
+                    auto const pending = [&]()
+                    {
+                        std::lock_guard<std::mutex> lk{ commit_signal_mutex() }; // the logging thread has this while it commits
+                        return any_available();
+                    };
+                    while (pending())
                     {
                         using namespace std::chrono_literals;
                         std::this_thread::sleep_for(10ms);
@@ -356,6 +364,11 @@ namespace neolib
             {
                 return const_cast<category_id&>(const_cast<logger const&>(*this).message_category_ref());
             }
+            bool commits_in_this_thread() const
+            {
+                std::lock_guard<std::recursive_mutex> lg{ mutex() };
+                return !iLoggingThread || std::this_thread::get_id() == iLoggingThread->get_id();
+            }
             bool any_available() const
             {
                 std::lock_guard<std::recursive_mutex> lg{ mutex() };
@@ -380,7 +393,9 @@ namespace neolib
                         {
                             parent.wait();
                             std::lock_guard<std::recursive_mutex> lg{ parent.mutex() };
-                            parent.buffers().erase(std::this_thread::get_id());
+                            auto existing = parent.buffers().find(std::this_thread::get_id());
+                            if (existing != parent.buffers().end() && existing->second.first->empty())
+                                parent.buffers().erase(existing);
                         }
                     }
                 } cleanup{ *this, *this };
@@ -409,6 +424,7 @@ namespace neolib
             }
         private:
             mutable std::recursive_mutex iMutex;
+            std::recursive_mutex iCommitMutex;
             mutable std::mutex iCommitSignalMutex;
             mutable std::condition_variable iCommitSignal;
             std::optional<std::thread> iLoggingThread;
-- 
2.43.0


From 53a12484374dcc2593882e7dcdcf1b953777dbbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:15:58 +0000
Subject: [PATCH 173/178] fix: logger category_enabled() by id returns its
 answer

---
 include/neolib/app/i_logger.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/neolib/app/i_logger.hpp b/include/neolib/app/i_logger.hpp
index 1445b73..7dec4f6 100644
--- a/include/neolib/app/i_logger.hpp
+++ b/include/neolib/app/i_logger.hpp
@@ -170,9 +170,9 @@ namespace neolib
                 register_category(static_cast<category_id>(aId), string{ aName });
             }
             template <typename IdType>
-            void category_enabled(IdType aId)
+            bool category_enabled(IdType aId) const
             {
-                category_enabled(static_cast<category_id>(aId));
+                return category_enabled(static_cast<category_id>(aId));
             }
             template <typename IdType>
             void enable_category(IdType aId)
-- 
2.43.0


From 3ffeeea1265b65fa4e909311651e9ed958c8fa99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:30:59 +0000
Subject: [PATCH 174/178] fix: easing: the OutIn easings ease out and then in,
 and the Back easings compile for float

---
 include/neolib/core/easing.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/neolib/core/easing.hpp b/include/neolib/core/easing.hpp
index 90e64a1..b7e7631 100644
--- a/include/neolib/core/easing.hpp
+++ b/include/neolib/core/easing.hpp
@@ -242,7 +242,7 @@ namespace neolib
             }
 
             template <typename T, typename Arg = T>
-            inline T ease_out_back(T t, T s = 1.70158)
+            inline T ease_out_back(T t, Arg s = 1.70158)
             {
                 return 1.0 - ease_in_back(1.0 - t, s);
             }
@@ -393,9 +393,10 @@ namespace neolib
                 Out = 0x0200,
                 Reversed = 0x0400,
                 InOut = In | Out,
-                OutIn = In | Out | Reversed,
                 Inverted = 0x0800,
                 Constant = 0x1000,
+                Swapped = 0x2000,
+                OutIn = In | Out | Swapped,
                 CLASS_MASK = 0x00FF,
                 DIRECTION_MASK = 0xFF00,
             };
-- 
2.43.0


From fdbd09402d6c47056aa748ec24a18fbff5017416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:37:31 +0000
Subject: [PATCH 175/178] fix: any copies and assigns from a non-const any,
 moves, and is empty after a failed emplace

---
 include/neolib/core/any.hpp   | 20 ++++++++++++--------
 include/neolib/core/i_any.hpp |  4 ++--
 2 files changed, 14 insertions(+), 10 deletions(-)

diff --git a/include/neolib/core/any.hpp b/include/neolib/core/any.hpp
index 250cc06..c32102a 100644
--- a/include/neolib/core/any.hpp
+++ b/include/neolib/core/any.hpp
@@ -82,7 +82,7 @@ namespace neolib
         {
         }
         any(i_any&& aOther) :
-            any{ static_cast<any&>(aOther) } // todo - is it doable?
+            any{ static_cast<any&&>(aOther) } // todo - is it doable?
         {
         }
         any(const any& aOther) :
@@ -100,7 +100,7 @@ namespace neolib
             aOther.ptr = nullptr;
         }
         template <typename ValueType>
-        any(ValueType&& aValue, std::enable_if_t<!is_variant_v<std::decay_t<ValueType>>, sfinae> = {}) :
+        any(ValueType&& aValue, std::enable_if_t<!is_variant_v<std::decay_t<ValueType>> && !std::is_base_of_v<i_any, std::decay_t<ValueType>>, sfinae> = {}) :
             std::any{ std::decay_t<ValueType>{aValue} },
             cptr{ &any::do_cptr<std::decay_t<ValueType>> },
             ptr{ &any::do_ptr<std::decay_t<ValueType>> }
@@ -122,7 +122,7 @@ namespace neolib
         any& operator=(i_any&& aRhs)
         {
             // todo - is it doable?
-            return *this = static_cast<any&>(aRhs);
+            return *this = static_cast<any&&>(aRhs);
         }
         any& operator=(const any& aRhs)
         {
@@ -133,6 +133,8 @@ namespace neolib
         }
         any& operator=(any&& aRhs)
         {
+            if (&aRhs == this)
+                return *this;
             std::any::operator=(std::move(aRhs.as_std_any()));
             cptr = aRhs.cptr;
             ptr = aRhs.ptr;
@@ -140,7 +142,7 @@ namespace neolib
             aRhs.ptr = nullptr;
             return *this;
         }
-        template<typename ValueType>
+        template<typename ValueType, typename = std::enable_if_t<!std::is_base_of_v<i_any, std::decay_t<ValueType>>, sfinae>>
         any& operator=(ValueType&& aRhs)
         {
             std::any::operator=(std::decay_t<ValueType>{aRhs});
@@ -152,7 +154,8 @@ namespace neolib
         template<class ValueType, class... Args>
         std::decay_t<ValueType>& emplace(Args&&... args)
         {
-            auto& result = std::any::emplace<ValueType>(std::forward<Args...>(args...));
+            reset();
+            auto& result = std::any::emplace<ValueType>(std::forward<Args>(args)...);
             cptr = &any::do_cptr<std::decay_t<ValueType>>;
             ptr = &any::do_ptr<std::decay_t<ValueType>>;
             return result;
@@ -160,7 +163,8 @@ namespace neolib
         template<class ValueType, class U, class... Args>
         std::decay_t<ValueType>& emplace(std::initializer_list<U> il, Args&&... args)
         {
-            auto& result = std::any::emplace<ValueType>(il, std::forward<Args...>(args...));
+            reset();
+            auto& result = std::any::emplace<ValueType>(il, std::forward<Args>(args)...);
             cptr = &any::do_cptr<std::decay_t<ValueType>>;
             ptr = &any::do_ptr<std::decay_t<ValueType>>;
             return result;
@@ -281,12 +285,12 @@ namespace neolib
     template<class T>
     inline const T* any_cast(const any* operand) noexcept
     {
-        return std::any_cast<const T*>(&operand->as_std_any());
+        return operand != nullptr ? std::any_cast<T>(&operand->as_std_any()) : nullptr;
     }
     template<class T>
     inline T* any_cast(any* operand) noexcept
     {
-        return std::any_cast<T*>(&operand->as_std_any());
+        return operand != nullptr ? std::any_cast<T>(&operand->as_std_any()) : nullptr;
     }
     template<class T>
     inline T unsafe_any_cast(const any& operand) noexcept
diff --git a/include/neolib/core/i_any.hpp b/include/neolib/core/i_any.hpp
index 9846fcb..a3ce35f 100644
--- a/include/neolib/core/i_any.hpp
+++ b/include/neolib/core/i_any.hpp
@@ -95,12 +95,12 @@ namespace neolib
     template<class T>
     inline const T* any_cast(const i_any* operand) noexcept
     {
-        return std::any_cast<const T*>(&operand->as_std_any());
+        return operand != nullptr ? std::any_cast<T>(&operand->as_std_any()) : nullptr;
     }
     template<class T>
     inline T* any_cast(i_any* operand) noexcept
     {
-        return std::any_cast<T*>(&operand->as_std_any());
+        return operand != nullptr ? std::any_cast<T>(&operand->as_std_any()) : nullptr;
     }
     template<class T>
     inline T unsafe_any_cast(const i_any& operand) noexcept
-- 
2.43.0


From d5ef7d8a17c2ce29f60cd2479e76753d07648714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:37:31 +0000
Subject: [PATCH 176/178] fix: assigning an any_ref to itself keeps the
 reference

---
 include/neolib/core/any_ref.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/neolib/core/any_ref.hpp b/include/neolib/core/any_ref.hpp
index 4ae9918..5b674ba 100644
--- a/include/neolib/core/any_ref.hpp
+++ b/include/neolib/core/any_ref.hpp
@@ -148,6 +148,8 @@ namespace neolib
         ~any_ref() { destroy(); }
         any_ref& operator=(const any_ref& aOther) 
         { 
+            if (&aOther == this)
+                return *this;
             destroy(); 
             if (aOther.iHolder) 
                 iHolder = aOther.iHolder->clone(iSpace.iBytes); 
@@ -188,6 +190,8 @@ namespace neolib
         ~any_const_ref() { destroy(); }
         any_const_ref& operator=(const any_const_ref& aOther) 
         { 
+            if (&aOther == this)
+                return *this;
             destroy(); 
             if (aOther.iHolder) 
                 iHolder = aOther.iHolder->clone(iSpace.iBytes); 
-- 
2.43.0


From 0fd2342669fefac5de10a504974df0ccab3a4c78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:37:31 +0000
Subject: [PATCH 177/178] fix: enum text of unnamed values and of 8-bit enums

---
 include/neolib/core/enum.hpp   | 2 +-
 include/neolib/core/i_enum.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/neolib/core/enum.hpp b/include/neolib/core/enum.hpp
index bb94a36..26f605e 100644
--- a/include/neolib/core/enum.hpp
+++ b/include/neolib/core/enum.hpp
@@ -101,7 +101,7 @@ namespace neolib
     public:
         void to_string(i_string& aString) const final
         {
-            aString = enumerators().find(value())->second();
+            aString = enum_to_string(static_cast<enum_type>(value()));
         }
         const typename base_type::enumerators_t& enumerators() const final
         {
diff --git a/include/neolib/core/i_enum.hpp b/include/neolib/core/i_enum.hpp
index c9d5ed1..e8b09a6 100644
--- a/include/neolib/core/i_enum.hpp
+++ b/include/neolib/core/i_enum.hpp
@@ -70,7 +70,7 @@ namespace neolib
     inline std::string enum_to_hex(Enum aEnumValue)
     {
         std::ostringstream oss;
-        oss << "0x" << std::uppercase << std::hex << std::setfill('0') << std::setw(sizeof(Enum) * 2u) << static_cast<std::underlying_type_t<Enum>>(aEnumValue) << "u";
+        oss << "0x" << std::uppercase << std::hex << std::setfill('0') << std::setw(sizeof(Enum) * 2u) << +static_cast<std::make_unsigned_t<std::underlying_type_t<Enum>>>(aEnumValue) << "u";
         return oss.str();
     }
 
-- 
2.43.0


From 0c0d255bc36414f043eb84524dcf9eeee1da200a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:37:31 +0000
Subject: [PATCH 178/178] fix: iter_swap of zip iterators swaps

---
 include/neolib/core/zip_iterator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/neolib/core/zip_iterator.hpp b/include/neolib/core/zip_iterator.hpp
index efd050c..ca5fa8e 100644
--- a/include/neolib/core/zip_iterator.hpp
+++ b/include/neolib/core/zip_iterator.hpp
@@ -216,7 +216,7 @@ namespace std
     template <typename... Iterators>
     inline void iter_swap(neolib::zip_iterator<Iterators...> a, neolib::zip_iterator<Iterators...> b)
     {
-        auto temp = *a;
+        typename neolib::zip_iterator<Iterators...>::value_type temp = *a;
         *a = *b;
         *b = temp;
     }
-- 
2.43.0

