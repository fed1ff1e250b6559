From 69daa872697d3ab93290474727e84b13e791edf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:42 +0000
Subject: [PATCH 01/35] fix: ChunkedList: iteration ended at an empty head
 chunk

The chunk appended by an overflowing push() has no items yet, so iterators
created before the first item was stored there reported an empty list.
---
 redGrapes/util/chunked_list.hpp | 32 ++++++++++++--------------------
 1 file changed, 12 insertions(+), 20 deletions(-)

diff --git a/redGrapes/util/chunked_list.hpp b/redGrapes/util/chunked_list.hpp
index 84629df..ee44087 100644
--- a/redGrapes/util/chunked_list.hpp
+++ b/redGrapes/util/chunked_list.hpp
@@ -366,8 +366,17 @@ namespace redGrapes
              */
             void acquire_next_item()
             {
-                while(is_valid_idx())
+                while(chunk)
                 {
+                    // goto next chunk if necessary (the chunk may also be still empty)
+                    if(!is_valid_idx())
+                    {
+                        ++chunk;
+                        if(chunk)
+                            cur_item = (uintptr_t) chunk->get_last_item();
+                        continue;
+                    }
+
                     iter_offset_t step = try_acquire();
                     if(step == 0)
                     {
@@ -382,16 +391,6 @@ namespace redGrapes
 
                         // jump to next valid item
                         cur_item = (uintptr_t) (get_item_ptr() - step);
-
-                        // goto next chunk if necessary
-                        if(!is_valid_idx())
-                        {
-                            ++chunk;
-                            if(chunk)
-                                cur_item = (uintptr_t) chunk->get_last_item();
-                            else
-                                cur_item = 0;
-                        }
                     }
                 }
 
@@ -472,16 +471,9 @@ namespace redGrapes
             {
                 this->release();
 
-                if((uintptr_t) (this->get_item_ptr() - 1u) >= (uintptr_t) this->chunk->first_item.load())
+                // moving below the first item makes `acquire_next_item` go to the next chunk
+                if(this->chunk)
                     this->cur_item = (uintptr_t) (this->get_item_ptr() - 1);
-                else
-                {
-                    ++this->chunk;
-                    if(this->chunk)
-                        this->cur_item = (uintptr_t) this->chunk->get_last_item();
-                    else
-                        this->cur_item = 0;
-                }
 
                 this->acquire_next_item();
                 return *this;
-- 
2.43.0


From 3dd773b13430cf9ccc76c079e6a8f1fe38d527c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:42 +0000
Subject: [PATCH 02/35] fix: ChunkedList: do not treat slots that are not
 written yet as removed

remove() copied the skip distance of a slot that was claimed by a concurrent
push(), so the pushed element was skipped by all iterators. The storage of
such slots was also assigned to without construction and destructed with the
chunk.
---
 redGrapes/util/chunked_list.hpp | 30 ++++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/redGrapes/util/chunked_list.hpp b/redGrapes/util/chunked_list.hpp
index ee44087..b6fc7a6 100644
--- a/redGrapes/util/chunked_list.hpp
+++ b/redGrapes/util/chunked_list.hpp
@@ -120,7 +120,9 @@ namespace redGrapes
              * iter_offset = 0 means this item exists
              * iter_offset = 1 means previous item exists
              * ...
+             * iter_offset = unpublished means no value was stored here yet
              */
+            static constexpr iter_offset_t unpublished = std::numeric_limits<iter_offset_t>::max();
             std::atomic<iter_offset_t> iter_offset;
 
             /* counts the number of iterators pointing
@@ -137,7 +139,7 @@ namespace redGrapes
 
             Item()
                 // any item starts uninitialized
-                : iter_offset(1)
+                : iter_offset(unpublished)
                 , refcount(0)
                 , storage(TrivialInit_t{})
             {
@@ -145,7 +147,9 @@ namespace redGrapes
 
             ~Item()
             {
-                release<false>();
+                // there is no value in a slot that was never published
+                if(iter_offset != unpublished)
+                    release<false>();
             }
 
             /* initialize value of this item.
@@ -159,7 +163,8 @@ namespace redGrapes
                 assert(iter_offset != 0);
                 assert(refcount == 0);
 
-                storage.value = value;
+                // the storage is raw memory up to here
+                new(&storage.value) T(value);
 
                 /* here, item.value is now fully initalized,
                  * so allow iterators to access this item now.
@@ -179,6 +184,11 @@ namespace redGrapes
             iter_offset_t acquire()
             {
                 iter_offset_t off = iter_offset.load();
+
+                // may be published any time, so only this slot can be skipped
+                if(off == unpublished)
+                    return 1;
+
                 refcount_t old_refcount = refcount.load();
 
                 if(off == 0 && old_refcount >= 0)
@@ -570,13 +580,17 @@ namespace redGrapes
                  */
 
                 // first elements just goes back one step to reach last element of previous chunk
-                if(pos.get_item_ptr() == pos.chunk->first_item)
-                    pos.item().iter_offset = 1;
+                iter_offset_t offset = 1;
 
-                // if we have a predecessor in this chunk, reuse their offset
-                else
-                    pos.item().iter_offset = (pos.get_item_ptr() - 1)->iter_offset + 1;
+                // if we have a predecessor in this chunk that is removed too, reuse their offset
+                if(pos.get_item_ptr() != pos.chunk->first_item)
+                {
+                    iter_offset_t prev_offset = (pos.get_item_ptr() - 1)->iter_offset;
+                    if(prev_offset != Item::unpublished)
+                        offset += prev_offset;
+                }
 
+                pos.item().iter_offset = offset;
 
                 /* TODO: scan in other direction for deleted items too,
                     and update their `iter_offset`
-- 
2.43.0


From 19a3cab6f814bc8bd47fb9950b08a846b0f94f7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:42 +0000
Subject: [PATCH 03/35] fix: ChunkedList: concurrent acquire/remove released
 items twice or never

An iterator that acquired an item while it was being removed dropped its
reference without destructing the item, or revived the refcount of a destructed
one, and two threads removing the same element released it and its chunk twice.
---
 redGrapes/util/chunked_list.hpp | 48 +++++++++++++++------------------
 1 file changed, 22 insertions(+), 26 deletions(-)

diff --git a/redGrapes/util/chunked_list.hpp b/redGrapes/util/chunked_list.hpp
index b6fc7a6..23a2ac0 100644
--- a/redGrapes/util/chunked_list.hpp
+++ b/redGrapes/util/chunked_list.hpp
@@ -189,34 +189,27 @@ namespace redGrapes
                 if(off == unpublished)
                     return 1;
 
-                refcount_t old_refcount = refcount.load();
-
-                if(off == 0 && old_refcount >= 0)
+                if(off == 0)
                 {
-                    old_refcount = refcount.fetch_add(1);
-                    off = iter_offset.load();
+                    /* never increment the refcount of an item whose data is
+                     * already destructed (refcount is -1), as others would take
+                     * it for alive then.
+                     */
+                    refcount_t old_refcount = refcount.load();
+                    while(old_refcount >= 0 && !refcount.compare_exchange_weak(old_refcount, old_refcount + 1))
+                        ;
 
-                    if(old_refcount >= 0)
-                    {
-                        /* The item data is not already destructed,
-                         * but only when `iter_offset` is still set to `0`
-                         * as initialized by `operator=`, the item still exists.
-                         * In case `off > 0`, some thread already called `remove()`
-                         * on this iterator position.
-                         */
+                    off = iter_offset.load();
 
-                        /* keep others from falsely trying to acquire this item
-                         * if it is deleted already.
-                         */
-                        if(off != 0)
-                            --refcount;
-                    }
-                    else
-                        /* item data is already destructed.
-                         * just decrement refcount to keep others from trying to
-                         * acquire this item.
-                         */
-                        --refcount;
+                    /* The item data is not already destructed,
+                     * but only when `iter_offset` is still set to `0`
+                     * as initialized by `operator=`, the item still exists.
+                     * In case `off > 0`, some thread already called `remove()`
+                     * on this iterator position, and this may be the last
+                     * reference.
+                     */
+                    if(old_refcount >= 0 && off != 0)
+                        release();
                 }
 
                 return off;
@@ -590,7 +583,10 @@ namespace redGrapes
                         offset += prev_offset;
                 }
 
-                pos.item().iter_offset = offset;
+                // only one of several threads removing the same element may release it
+                iter_offset_t existing = 0;
+                if(!pos.item().iter_offset.compare_exchange_strong(existing, offset))
+                    return;
 
                 /* TODO: scan in other direction for deleted items too,
                     and update their `iter_offset`
-- 
2.43.0


From 2f9db98fd9601af5c11966fbe80276b0d506e8a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:42 +0000
Subject: [PATCH 04/35] fix: ChunkedList: copying an iterator could move it to
 another element

The copy searched for the next existing item when the element was removed
meanwhile, although the original iterator still keeps it alive.
---
 redGrapes/util/chunked_list.hpp | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/redGrapes/util/chunked_list.hpp b/redGrapes/util/chunked_list.hpp
index 23a2ac0..b4fc314 100644
--- a/redGrapes/util/chunked_list.hpp
+++ b/redGrapes/util/chunked_list.hpp
@@ -402,8 +402,21 @@ namespace redGrapes
             }
 
         public:
-            ItemAccess(ItemAccess const& other) : ItemAccess(other.chunk, other.get_item_ptr())
+            // a copy refers to the same item, even if that was removed meanwhile
+            ItemAccess(ItemAccess const& other) : chunk(other.chunk), cur_item(other.cur_item)
             {
+                if(has_item())
+                    ++item().refcount;
+            }
+
+            ItemAccess& operator=(ItemAccess const& other)
+            {
+                if(other.has_item())
+                    ++other.item().refcount;
+                release();
+                chunk = other.chunk;
+                cur_item = other.cur_item;
+                return *this;
             }
 
             ItemAccess(typename memory::AtomicList<Chunk, Allocator>::MutBackwardIterator chunk, Item* item_ptr)
@@ -461,15 +474,6 @@ namespace redGrapes
                 return this->get_item_ptr() != other.get_item_ptr();
             }
 
-            BackwardIterator<is_const>& operator=(BackwardIterator<is_const> const& other)
-            {
-                this->release();
-                this->cur_item = (uintptr_t) other.get_item_ptr();
-                this->chunk = other.chunk;
-                this->try_acquire();
-                return *this;
-            }
-
             BackwardIterator& operator++()
             {
                 this->release();
-- 
2.43.0


From 6a3185ebea98ce68c1f9c1c8df65a74a7b785f4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:42 +0000
Subject: [PATCH 05/35] fix: ChunkedList: push() could return an iterator to
 another element

when the pushed element was removed before the iterator was created.
---
 redGrapes/util/chunked_list.hpp | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/redGrapes/util/chunked_list.hpp b/redGrapes/util/chunked_list.hpp
index b4fc314..6ed6acf 100644
--- a/redGrapes/util/chunked_list.hpp
+++ b/redGrapes/util/chunked_list.hpp
@@ -166,6 +166,9 @@ namespace redGrapes
                 // the storage is raw memory up to here
                 new(&storage.value) T(value);
 
+                // reference of the iterator which is returned by `push()`
+                refcount = 1;
+
                 /* here, item.value is now fully initalized,
                  * so allow iterators to access this item now.
                  */
@@ -401,6 +404,15 @@ namespace redGrapes
                 cur_item = 0;
             }
 
+            // take over the reference of a newly stored item
+            void adopt(typename memory::AtomicList<Chunk, Allocator>::MutBackwardIterator new_chunk, Item* new_item)
+            {
+                release();
+                chunk = new_chunk;
+                cur_item = (uintptr_t) new_item;
+                set_item();
+            }
+
         public:
             // a copy refers to the same item, even if that was removed meanwhile
             ItemAccess(ItemAccess const& other) : chunk(other.chunk), cur_item(other.cur_item)
@@ -537,7 +549,9 @@ namespace redGrapes
                             /* successfully allocated a slot in the current chunk
                              */
                             *next_item = item;
-                            return MutBackwardIterator(chunk, next_item);
+                            MutBackwardIterator pos = rend();
+                            pos.adopt(chunk, next_item);
+                            return pos;
                         }
                         else if((uintptr_t) next_item == (uintptr_t) chunk_end)
                         {
-- 
2.43.0


From 7af4f727077b74bd88a40d12ad67620f3c74430d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:42 +0000
Subject: [PATCH 06/35] fix: ChunkedList: copy constructor left the copy empty

so that update_properties() compared new accesses with an empty access list.
---
 redGrapes/util/chunked_list.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/redGrapes/util/chunked_list.hpp b/redGrapes/util/chunked_list.hpp
index 6ed6acf..409f0be 100644
--- a/redGrapes/util/chunked_list.hpp
+++ b/redGrapes/util/chunked_list.hpp
@@ -25,6 +25,7 @@
 #include <limits>
 #include <memory>
 #include <optional>
+#include <vector>
 
 namespace redGrapes
 {
@@ -514,7 +515,13 @@ namespace redGrapes
 
         ChunkedList(Allocator&& alloc, ChunkedList const& other) : ChunkedList(std::move(alloc))
         {
-            spdlog::error("copy construct ChunkedList!!");
+            // iteration goes from newest to oldest
+            std::vector<T> items;
+            for(auto it = other.rbegin(); it != other.rend(); ++it)
+                items.push_back(*it);
+
+            for(auto it = items.rbegin(); it != items.rend(); ++it)
+                push(*it);
         }
 
         /* decrement item_count and in case all items of this chunk are deleted,
-- 
2.43.0


From 5ee3f43528fe7d25dd5037a04703d6fcfe042341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:42 +0000
Subject: [PATCH 07/35] fix: AtomicList: iterator read prev without
 synchronization

while other iterators unlink erased chunks through std::atomic_store().
---
 redGrapes/util/atomic_list.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redGrapes/util/atomic_list.hpp b/redGrapes/util/atomic_list.hpp
index f67cc00..16b1841 100644
--- a/redGrapes/util/atomic_list.hpp
+++ b/redGrapes/util/atomic_list.hpp
@@ -240,7 +240,7 @@ namespace redGrapes
                     if(c)
                     {
                         c->skip_deleted_prev();
-                        c = c->prev;
+                        c = std::atomic_load(&c->prev);
                     }
 
                     return *this;
-- 
2.43.0


From 0c8a4852ea9666e6f55e19da4c3e1edb2b47ba15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:56 +0000
Subject: [PATCH 08/35] fix: parent could complete before its children

The edge from the post-event of a child to the post-event of its parent was
added when a worker initialized the child, which may be after the parent ended
(and was freed). Add it on submission, while the parent is running.
---
 redGrapes/task/property/graph.cpp | 7 -------
 redGrapes/task/task_space.cpp     | 7 +++++++
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/redGrapes/task/property/graph.cpp b/redGrapes/task/property/graph.cpp
index 3680c79..75f1ebc 100644
--- a/redGrapes/task/property/graph.cpp
+++ b/redGrapes/task/property/graph.cpp
@@ -72,13 +72,6 @@ namespace redGrapes
                 }
             }
         }
-
-        // add dependency to parent
-        if(auto parent = this->space->parent)
-        {
-            SPDLOG_TRACE("add event dep to parent");
-            this->post_event.add_follower(parent->get_post_event());
-        }
     }
 
     void GraphProperty::delete_from_resources()
diff --git a/redGrapes/task/task_space.cpp b/redGrapes/task/task_space.cpp
index c889d53..0f5083a 100644
--- a/redGrapes/task/task_space.cpp
+++ b/redGrapes/task/task_space.cpp
@@ -78,6 +78,13 @@ namespace redGrapes
         if(parent)
             assert(this->is_superset(*parent, *task));
 
+        // add dependency to parent, as long as it is still running for sure
+        if(parent)
+        {
+            SPDLOG_TRACE("add event dep to parent");
+            task->post_event.add_follower(parent->get_post_event());
+        }
+
         for(auto r = task->unique_resources.rbegin(); r != task->unique_resources.rend(); ++r)
         {
             r->task_entry = r->resource->users.push(task);
-- 
2.43.0


From 9f92a187bb4b95d9cb6473be4d3f0e7d263aec2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:56 +0000
Subject: [PATCH 09/35] fix: followers added while their event is being reached
 were lost

add_follower() tested the state, pushed the follower and counted the edge
without synchronization with notify(), so that the follower was never notified
or its counter underflowed.
---
 redGrapes/scheduler/event.cpp | 11 ++++++++++-
 redGrapes/scheduler/event.hpp |  4 ++++
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/redGrapes/scheduler/event.cpp b/redGrapes/scheduler/event.cpp
index 566c9c4..8ca0bb5 100644
--- a/redGrapes/scheduler/event.cpp
+++ b/redGrapes/scheduler/event.cpp
@@ -68,11 +68,15 @@ namespace redGrapes
         {
             TRACE_EVENT("Event", "add_follower");
 
+            /* either `notify()` sees the follower after the event was reached,
+             * or the follower is not added at all.
+             */
+            std::unique_lock<SpinLock> lock(followers_mutex);
             if(!is_reached())
             {
                 SPDLOG_TRACE("Event add follower");
-                followers.push(follower);
                 follower->state++;
+                followers.push(follower);
             }
         }
 
@@ -88,6 +92,11 @@ namespace redGrapes
         {
             TRACE_EVENT("Event", "notify_followers");
 
+            // wait until followers which are just being added are visible
+            {
+                std::unique_lock<SpinLock> lock(followers_mutex);
+            }
+
             for(auto follower = followers.rbegin(); follower != followers.rend(); ++follower)
                 follower->notify();
         }
diff --git a/redGrapes/scheduler/event.hpp b/redGrapes/scheduler/event.hpp
index 8ff2c5c..ad8f69f 100644
--- a/redGrapes/scheduler/event.hpp
+++ b/redGrapes/scheduler/event.hpp
@@ -8,6 +8,7 @@
 #pragma once
 
 #include <redGrapes/scheduler/scheduler.hpp>
+#include <redGrapes/sync/spinlock.hpp>
 #include <redGrapes/util/chunked_list.hpp>
 
 #include <spdlog/spdlog.h>
@@ -96,6 +97,9 @@ namespace redGrapes
             //! waker that is waiting for this event
             WakerId waker_id;
 
+            //! serializes adding followers with reaching this event
+            SpinLock followers_mutex;
+
             //! the set of subsequent events
             ChunkedList<EventPtr, REDGRAPES_EVENT_FOLLOWER_LIST_CHUNKSIZE> followers;
 
-- 
2.43.0


From 9c70e0ff9ddf9e45c2da7b5b229b75fc7140d2dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:56 +0000
Subject: [PATCH 10/35] fix: paused task was resumed twice when its event was
 reached meanwhile

sg_pause() made the pre-event reachable by the awaited event before
execute_task() took its guard reference.
---
 redGrapes/dispatch/thread/execute.cpp | 2 +-
 redGrapes/task/property/graph.hpp     | 6 ++++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/redGrapes/dispatch/thread/execute.cpp b/redGrapes/dispatch/thread/execute.cpp
index 2e2dc25..e6022cd 100644
--- a/redGrapes/dispatch/thread/execute.cpp
+++ b/redGrapes/dispatch/thread/execute.cpp
@@ -41,7 +41,7 @@ namespace thread
             event->get_event().waker_id = current_worker->get_waker_id();
             task.sg_pause(*event);
 
-            task.pre_event.up();
+            // from here on the task may be resumed by other workers
             task.get_pre_event().notify();
         }
         else
diff --git a/redGrapes/task/property/graph.hpp b/redGrapes/task/property/graph.hpp
index d7d7cad..9b5c0f8 100644
--- a/redGrapes/task/property/graph.hpp
+++ b/redGrapes/task/property/graph.hpp
@@ -126,11 +126,13 @@ namespace redGrapes
 
         /*!
          * represent ›pausation of the task until event is reached‹
-         * in the scheduling graph
+         * in the scheduling graph.
+         * The task can not become ready before its pre-event is
+         * notified once more by the caller.
          */
         inline void sg_pause(scheduler::EventPtr event)
         {
-            pre_event.state = 1;
+            pre_event.state = 2;
             event->add_follower(get_pre_event());
         }
 
-- 
2.43.0


From 8600d441274955dd3e61e9a1a53a928c6affc702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:56 +0000
Subject: [PATCH 11/35] fix: pausing a task redirected the wake-up of other
 waiters of the event

The waker of the event was overwritten by the worker which ran the task,
although nobody waits there, so that a main thread waiting for the same event
was never woken up.
---
 redGrapes/dispatch/thread/execute.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/redGrapes/dispatch/thread/execute.cpp b/redGrapes/dispatch/thread/execute.cpp
index e6022cd..511dd81 100644
--- a/redGrapes/dispatch/thread/execute.cpp
+++ b/redGrapes/dispatch/thread/execute.cpp
@@ -38,7 +38,6 @@ namespace thread
 
         if(event)
         {
-            event->get_event().waker_id = current_worker->get_waker_id();
             task.sg_pause(*event);
 
             // from here on the task may be resumed by other workers
-- 
2.43.0


From f01d5aab9dd7b0accbb943c5b4f2fe5c64591a89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:56 +0000
Subject: [PATCH 12/35] fix: null dereference when a task is activated outside
 of the workers

and all workers are busy, e.g. by the main thread reaching an event.
---
 redGrapes/scheduler/default_scheduler.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/redGrapes/scheduler/default_scheduler.cpp b/redGrapes/scheduler/default_scheduler.cpp
index bf2366f..674b577 100644
--- a/redGrapes/scheduler/default_scheduler.cpp
+++ b/redGrapes/scheduler/default_scheduler.cpp
@@ -79,7 +79,8 @@ namespace redGrapes
             if(worker_id < 0)
             {
                 worker_id = next_worker.fetch_add(1) % SingletonContext::get().worker_pool->size();
-                if(worker_id == SingletonContext::get().current_worker->get_worker_id())
+                if(SingletonContext::get().current_worker
+                   && worker_id == SingletonContext::get().current_worker->get_worker_id())
                     worker_id = next_worker.fetch_add(1) % SingletonContext::get().worker_pool->size();
             }
 
-- 
2.43.0


From 0557c687f3cc8075e5234c0a27e7acb54236d320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:56 +0000
Subject: [PATCH 13/35] fix: AtomicBitfield::set() lost the previous value of
 bits 32 to 63

so that worker 32 and above could not be claimed.
---
 redGrapes/util/bitfield.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redGrapes/util/bitfield.hpp b/redGrapes/util/bitfield.hpp
index 716f42a..048bf72 100644
--- a/redGrapes/util/bitfield.hpp
+++ b/redGrapes/util/bitfield.hpp
@@ -37,7 +37,7 @@ namespace redGrapes
         inline bool set(unsigned idx, bool new_value)
         {
             __INDEX_CALC(idx, chunk_idx, k, mask)
-            unsigned old_val;
+            uint64_t old_val;
 
             switch(new_value)
             {
-- 
2.43.0


From 11f3d8455a40a25110ce5c4181c42c1d4b3b7ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:56 +0000
Subject: [PATCH 14/35] fix: EventPtr::notify() accessed tasks that may be
 freed already

Once the counter was decremented (and the task activated) without reaching
zero, other threads can run, complete and free the task.
---
 redGrapes/scheduler/event.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/redGrapes/scheduler/event.cpp b/redGrapes/scheduler/event.cpp
index 8ca0bb5..9dd7d42 100644
--- a/redGrapes/scheduler/event.cpp
+++ b/redGrapes/scheduler/event.cpp
@@ -165,12 +165,16 @@ namespace redGrapes
                     task->delete_from_resources();
             }
 
-            // if event is ready or reached (state ∈ {0,1})
-            if(state <= 1 && this->get_event().waker_id >= 0)
-                SingletonContext::get().scheduler->wake(this->get_event().waker_id);
-
+            /* event is reached.
+             * Otherwise the event must not be accessed any more, because its
+             * task may be already executed and freed by others.
+             */
             if(state == 0)
             {
+                WakerId waker_id = this->get_event().waker_id;
+                if(waker_id >= 0)
+                    SingletonContext::get().scheduler->wake(waker_id);
+
                 this->get_event().notify_followers();
 
                 // the second one of either post-event or result-get-event shall destroy the task
-- 
2.43.0


From 3c8466312bd85fd68898dd722013f124bd85673c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:56 +0000
Subject: [PATCH 15/35] fix: data race on the waker of an event

The main thread registers itself while other threads reach the event.
---
 redGrapes/scheduler/event.cpp | 4 ++--
 redGrapes/scheduler/event.hpp | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/redGrapes/scheduler/event.cpp b/redGrapes/scheduler/event.cpp
index 9dd7d42..a192077 100644
--- a/redGrapes/scheduler/event.cpp
+++ b/redGrapes/scheduler/event.cpp
@@ -32,14 +32,14 @@ namespace redGrapes
 
         Event::Event(Event& other)
             : state((uint16_t) other.state)
-            , waker_id(other.waker_id)
+            , waker_id(other.waker_id.load())
             , followers(memory::Allocator())
         {
         }
 
         Event::Event(Event&& other)
             : state((uint16_t) other.state)
-            , waker_id(other.waker_id)
+            , waker_id(other.waker_id.load())
             , followers(memory::Allocator())
         {
         }
diff --git a/redGrapes/scheduler/event.hpp b/redGrapes/scheduler/event.hpp
index ad8f69f..4747f59 100644
--- a/redGrapes/scheduler/event.hpp
+++ b/redGrapes/scheduler/event.hpp
@@ -95,7 +95,7 @@ namespace redGrapes
             std::atomic_uint16_t state;
 
             //! waker that is waiting for this event
-            WakerId waker_id;
+            std::atomic<WakerId> waker_id;
 
             //! serializes adding followers with reaching this event
             SpinLock followers_mutex;
-- 
2.43.0


From 7178bcb2d0c1f830c7b99d149b1e84fe8e9e4661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:56 +0000
Subject: [PATCH 16/35] fix: task with two accesses to one resource waited for
 itself

add_resource_access() listed the resource once per access, so the task was
registered twice as user of it and depended on its own entry.
---
 redGrapes/resource/resource_user.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/redGrapes/resource/resource_user.cpp b/redGrapes/resource/resource_user.cpp
index 489bd05..62dc651 100644
--- a/redGrapes/resource/resource_user.cpp
+++ b/redGrapes/resource/resource_user.cpp
@@ -39,7 +39,9 @@ namespace redGrapes
     {
         this->access_list.push(ra);
         std::shared_ptr<ResourceBase> r = ra.get_resource();
-        // unique_resources.erase(ResourceEntry{ r, r->users.end() });
+        for(auto entry = unique_resources.rbegin(); entry != unique_resources.rend(); ++entry)
+            if(entry->resource == r)
+                return;
         unique_resources.push(ResourceUsageEntry{r, r->users.rend()});
     }
 
-- 
2.43.0


From 43fc34eb42bac9dd2b85c6063466a829ed1122e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:56 +0000
Subject: [PATCH 17/35] fix: update_properties() removed the edge to the parent
 of the task

so that the parent could complete before its demoted child.
---
 redGrapes/task/property/graph.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/redGrapes/task/property/graph.cpp b/redGrapes/task/property/graph.cpp
index 75f1ebc..8d2f072 100644
--- a/redGrapes/task/property/graph.cpp
+++ b/redGrapes/task/property/graph.cpp
@@ -110,7 +110,8 @@ namespace redGrapes
         for(auto it = post_event.followers.rbegin(); it != post_event.followers.rend(); ++it)
         {
             scheduler::EventPtr follower = *it;
-            if(follower.task)
+            // other followers (e.g. post-event of the parent) do not depend on the accesses
+            if(follower.task && follower.tag == scheduler::T_EVT_PRE)
             {
                 if(!space->is_serial(*this->task, *follower.task))
                 {
-- 
2.43.0


From dce17fff61aacdc8afde423dc179fc27e9b77d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:56 +0000
Subject: [PATCH 18/35] fix: followers with several edges were never released
 by update_properties()

All edges to the follower were erased at once but it was notified only once.
---
 redGrapes/task/property/graph.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/redGrapes/task/property/graph.cpp b/redGrapes/task/property/graph.cpp
index 8d2f072..09d2ddf 100644
--- a/redGrapes/task/property/graph.cpp
+++ b/redGrapes/task/property/graph.cpp
@@ -118,7 +118,8 @@ namespace redGrapes
                     // remove dependency
                     // follower.task->in_edges.erase(std::find(std::begin(follower.task->in_edges),
                     // std::end(follower.task->in_edges), this));
-                    post_event.followers.erase(follower);
+                    // the follower can have more edges, one notification for each of them
+                    post_event.followers.remove(it);
 
                     follower.notify();
                 }
-- 
2.43.0


From 36cdce6bf5ee3e1ea921a0695b40cccffbb90c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:56 +0000
Subject: [PATCH 19/35] fix: refused update_properties() left the additional
 accesses in the task

Check the resulting accesses on a copy first.
---
 redGrapes/task/property/resource.hpp | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/redGrapes/task/property/resource.hpp b/redGrapes/task/property/resource.hpp
index 9a2f57e..2377e6e 100644
--- a/redGrapes/task/property/resource.hpp
+++ b/redGrapes/task/property/resource.hpp
@@ -114,23 +114,30 @@ namespace redGrapes
 
         void apply_patch(Patch const& patch)
         {
-            ResourceUser before(*this);
+            // reject the patch before anything is changed
+            ResourceUser after(*this);
+            apply_diff(after, patch);
+            if(!this->is_superset_of(after))
+                throw std::runtime_error("redGrapes: ResourceUserPolicy: updated access list is no subset!");
+
+            apply_diff(*this, patch);
+        }
 
-            for(auto x : patch.diff)
+    private:
+        static void apply_diff(ResourceUser& user, Patch const& patch)
+        {
+            for(auto const& x : patch.diff)
             {
                 switch(x.first)
                 {
                 case Patch::DiffType::ADD:
-                    (*this) += x.second;
+                    user.add_resource_access(x.second);
                     break;
                 case Patch::DiffType::REMOVE:
-                    (*this) -= x.second;
+                    user.rm_resource_access(x.second);
                     break;
                 }
             }
-
-            if(!before.is_superset_of(*this))
-                throw std::runtime_error("redGrapes: ResourceUserPolicy: updated access list is no subset!");
         }
     };
 
-- 
2.43.0


From 83e8bc5edad34e95f37bc42e895a5485519b714e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:39 +0000
Subject: [PATCH 20/35] fix: update_properties() raced with workers adding
 dependencies to the task

init_graph() of a successor could see partially patched accesses (and miss the
dependency), or add an edge that update_graph() had already looked for.
---
 redGrapes/redGrapes.cpp           | 14 ++++++++++++++
 redGrapes/task/property/graph.cpp |  2 +-
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/redGrapes/redGrapes.cpp b/redGrapes/redGrapes.cpp
index 9d1e502..be45f63 100644
--- a/redGrapes/redGrapes.cpp
+++ b/redGrapes/redGrapes.cpp
@@ -15,8 +15,11 @@
 #include <moodycamel/concurrentqueue.h>
 
 #include <functional>
+#include <map>
 #include <memory>
+#include <mutex>
 #include <optional>
+#include <vector>
 
 #if REDGRAPES_ENABLE_TRACE
 PERFETTO_TRACK_EVENT_STATIC_STORAGE();
@@ -174,6 +177,17 @@ namespace redGrapes
     {
         if(current_task)
         {
+            /* keep workers from adding dependencies to this task by looking
+             * at accesses which are just being modified (see `init_graph()`)
+             */
+            std::map<unsigned, std::shared_ptr<ResourceBase>> resources;
+            for(auto r = current_task->unique_resources.rbegin(); r != current_task->unique_resources.rend(); ++r)
+                resources.emplace(r->resource->id, r->resource);
+
+            std::vector<std::unique_lock<SpinLock>> locks;
+            for(auto& r : resources)
+                locks.emplace_back(r.second->users_mutex);
+
             current_task->apply_patch(patch);
             current_task->update_graph();
         }
diff --git a/redGrapes/task/property/graph.cpp b/redGrapes/task/property/graph.cpp
index 09d2ddf..e15f68b 100644
--- a/redGrapes/task/property/graph.cpp
+++ b/redGrapes/task/property/graph.cpp
@@ -104,7 +104,7 @@ namespace redGrapes
 
     void GraphProperty::update_graph()
     {
-        // std::unique_lock< SpinLock > lock( post_event.followers_mutex );
+        // note: caller holds the `users_mutex` of all resources of this task
 
         //    for( auto follower : post_event.followers )
         for(auto it = post_event.followers.rbegin(); it != post_event.followers.rend(); ++it)
-- 
2.43.0


From 73f7cabd07ffc90690e262ac8adf4f949ec17c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:39 +0000
Subject: [PATCH 21/35] fix: allocation of blocks close to the chunk size never
 returned

The control structures at the begin of each chunk were not considered, so that
fresh chunks were allocated forever.
---
 redGrapes/memory/chunked_bump_alloc.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/redGrapes/memory/chunked_bump_alloc.hpp b/redGrapes/memory/chunked_bump_alloc.hpp
index 20a6e87..a8caea8 100644
--- a/redGrapes/memory/chunked_bump_alloc.hpp
+++ b/redGrapes/memory/chunked_bump_alloc.hpp
@@ -82,9 +82,13 @@ namespace redGrapes
             Block allocate(std::size_t n = 1) noexcept
             {
                 TRACE_EVENT("Allocator", "ChunkedBumpAlloc::allocate()");
-                size_t alloc_size = roundup_to_poweroftwo(n);
+                size_t alloc_size = roundup_to_poweroftwo(n > 0 ? n : 1);
 
-                size_t const chunk_capacity = bump_allocators.get_chunk_capacity();
+                // memory of a chunk that is left for blocks
+                size_t const chunk_overhead = bump_allocators.get_controlblock_size() + sizeof(BumpAllocator);
+                size_t const chunk_capacity = bump_allocators.get_chunk_capacity() > chunk_overhead
+                                                  ? bump_allocators.get_chunk_capacity() - chunk_overhead
+                                                  : 0;
 
                 if(alloc_size <= chunk_capacity)
                 {
-- 
2.43.0


From 9dd7e2daae4a6bc214e1f4368b6701269280eb0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:39 +0000
Subject: [PATCH 22/35] fix: memory chunks were erased while in use or never
 erased

A block was counted after it was reserved, so a concurrent deallocation could
erase the chunk. Chunks whose blocks were all freed before the chunk was
exhausted were kept forever.
---
 redGrapes/memory/bump_allocator.cpp     |  8 +++++---
 redGrapes/memory/chunked_bump_alloc.hpp | 20 ++++++++++++++------
 2 files changed, 19 insertions(+), 9 deletions(-)

diff --git a/redGrapes/memory/bump_allocator.cpp b/redGrapes/memory/bump_allocator.cpp
index ba77e2a..26eeef4 100644
--- a/redGrapes/memory/bump_allocator.cpp
+++ b/redGrapes/memory/bump_allocator.cpp
@@ -57,14 +57,16 @@ namespace redGrapes
 
         Block BumpAllocator::allocate(size_t n_bytes)
         {
+            // count in advance, so the chunk is never taken for unused
+            count++;
             uintptr_t addr = next_addr.fetch_sub(n_bytes) - n_bytes;
             if(addr >= lower_limit)
-            {
-                count++;
                 return Block{addr, n_bytes};
-            }
             else
+            {
+                count--;
                 return Block::null();
+            }
         }
 
         uint16_t BumpAllocator::deallocate(Block blk)
diff --git a/redGrapes/memory/chunked_bump_alloc.hpp b/redGrapes/memory/chunked_bump_alloc.hpp
index a8caea8..4e73a83 100644
--- a/redGrapes/memory/chunked_bump_alloc.hpp
+++ b/redGrapes/memory/chunked_bump_alloc.hpp
@@ -105,7 +105,13 @@ namespace redGrapes
 
                             // chunk is full, create a new one
                             if(!blk)
+                            {
                                 bump_allocators.allocate_item();
+
+                                // all blocks were freed before the chunk was full
+                                if(chunk->full() && chunk->empty())
+                                    bump_allocators.erase(chunk);
+                            }
                         }
                         // no chunk exists, create a new one
                         else
@@ -143,14 +149,16 @@ namespace redGrapes
                          * and this chunk is not `head`,
                          * remove this chunk
                          */
-                        if(it->deallocate(blk) == 1)
+                        it->deallocate(blk);
+
+                        /* a full chunk does not get any new allocations,
+                         * so test for remaining ones after that.
+                         */
+                        if(it->full() && it->empty())
                         {
                             SPDLOG_TRACE("ChunkedBumpAlloc: erase chunk");
-                            if(it->full())
-                            {
-                                bump_allocators.erase(it);
-                                prev.optimize();
-                            }
+                            bump_allocators.erase(it);
+                            prev.optimize();
                         }
 
                         return;
-- 
2.43.0


From 124c17b84f0bb20888249ba7290913b1486ef10b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:39 +0000
Subject: [PATCH 23/35] fix: chunks of an AtomicList were given back only
 partially

The deallocation was called with the size of the control block instead of the
size that was allocated, so most of the memory of each chunk leaked.
---
 redGrapes/util/atomic_list.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/redGrapes/util/atomic_list.hpp b/redGrapes/util/atomic_list.hpp
index 16b1841..eb9c01d 100644
--- a/redGrapes/util/atomic_list.hpp
+++ b/redGrapes/util/atomic_list.hpp
@@ -104,14 +104,19 @@ namespace redGrapes
 
                 Allocator alloc;
                 T* ptr;
+                size_t n_bytes;
 
-                StaticAlloc(Allocator alloc, size_t n_bytes) : alloc(alloc), ptr((T*) alloc.allocate(n_bytes))
+                StaticAlloc(Allocator alloc, size_t n_bytes)
+                    : alloc(alloc)
+                    , ptr((T*) alloc.allocate(n_bytes))
+                    , n_bytes(n_bytes)
                 {
                 }
 
                 template<typename U>
                 constexpr StaticAlloc(StaticAlloc<U> const& other) noexcept : alloc(other.alloc)
                                                                             , ptr((T*) other.ptr)
+                                                                            , n_bytes(other.n_bytes)
                 {
                 }
 
@@ -122,7 +127,7 @@ namespace redGrapes
 
                 void deallocate(T* p, std::size_t n) noexcept
                 {
-                    alloc.deallocate(Block{.ptr = (uintptr_t) p, .len = sizeof(T) * n});
+                    alloc.deallocate(Block{.ptr = (uintptr_t) p, .len = n_bytes});
                 }
             };
 
-- 
2.43.0


From d0856d8190b750c5754885e9869ad21bcf19f46d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:39 +0000
Subject: [PATCH 24/35] fix: tasks were deallocated in another arena than they
 were allocated in

if there are more workers than processing units, so their memory leaked.
---
 redGrapes/task/task_space.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/redGrapes/task/task_space.cpp b/redGrapes/task/task_space.cpp
index 0f5083a..c00d9f1 100644
--- a/redGrapes/task/task_space.cpp
+++ b/redGrapes/task/task_space.cpp
@@ -56,8 +56,7 @@ namespace redGrapes
         task->~Task();
 
         // FIXME: len of the Block is not correct since FunTask object is bigger than sizeof(Task)
-        SingletonContext::get().worker_pool->get_worker(arena_id).alloc.deallocate(
-            memory::Block{(uintptr_t) task, sizeof(Task)});
+        memory::Allocator(arena_id).deallocate(memory::Block{(uintptr_t) task, sizeof(Task)});
 
         // TODO: implement this using post-event of root-task?
         //  - event already has in_edge count
-- 
2.43.0


From 1806c32d6aebb161541da1fe55ac1862f14e0336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:39 +0000
Subject: [PATCH 25/35] fix: barrier() could return before the last task was
 destroyed

The task was uncounted first and destroyed (with everything it captured) later.
---
 redGrapes/task/task_space.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/redGrapes/task/task_space.cpp b/redGrapes/task/task_space.cpp
index c00d9f1..fdc9e10 100644
--- a/redGrapes/task/task_space.cpp
+++ b/redGrapes/task/task_space.cpp
@@ -50,7 +50,8 @@ namespace redGrapes
     void TaskSpace::free_task(Task* task)
     {
         TRACE_EVENT("TaskSpace", "free_task()");
-        unsigned count = task_count.fetch_sub(1) - 1;
+        // `task` may hold the last reference to this space
+        std::shared_ptr<TaskSpace> self = shared_from_this();
 
         unsigned arena_id = task->arena_id;
         task->~Task();
@@ -58,6 +59,8 @@ namespace redGrapes
         // FIXME: len of the Block is not correct since FunTask object is bigger than sizeof(Task)
         memory::Allocator(arena_id).deallocate(memory::Block{(uintptr_t) task, sizeof(Task)});
 
+        unsigned count = task_count.fetch_sub(1) - 1;
+
         // TODO: implement this using post-event of root-task?
         //  - event already has in_edge count
         //  -> never have current_task = nullptr
-- 
2.43.0


From 318876560da9449b62d1eeef4bcee5468ac8c667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:39 +0000
Subject: [PATCH 26/35] fix: task without stack switching was executed again
 after waiting for an event

The event it had been waiting for remained set, so execute_task() treated the
finished task as paused.
---
 redGrapes/task/task_base.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/redGrapes/task/task_base.hpp b/redGrapes/task/task_base.hpp
index e9f40e5..a024e48 100644
--- a/redGrapes/task/task_base.hpp
+++ b/redGrapes/task/task_base.hpp
@@ -65,6 +65,7 @@ namespace redGrapes
             else
             {
                 this->run();
+                this->event = std::nullopt;
             }
 
             return event;
-- 
2.43.0


From 45269273d66a92e87394218ab444fb8bb26c9599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:39 +0000
Subject: [PATCH 27/35] fix: TagMatch did not override task_dependency_type()

so the dependency type of the sub-scheduler was never asked for.
---
 redGrapes/scheduler/tag_match.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redGrapes/scheduler/tag_match.hpp b/redGrapes/scheduler/tag_match.hpp
index 4fd9533..a6f51ef 100644
--- a/redGrapes/scheduler/tag_match.hpp
+++ b/redGrapes/scheduler/tag_match.hpp
@@ -81,7 +81,7 @@ namespace redGrapes
                 return std::nullopt;
             }
 
-            bool task_dependency_type(Task const& a, Task& b)
+            bool task_dependency_type(Task const& a, Task const& b)
             {
                 /// fixme: b or a ?
                 if(auto sub_scheduler = get_matching_scheduler(b.required_scheduler_tags))
-- 
2.43.0


From e2c884b480b3b18f548a716a241afaaba6a80fa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:15 +0000
Subject: [PATCH 28/35] fix: barrier() could return before child tasks were
 destroyed

The parent may be freed while the last of its children is still being
destroyed, possibly after the runtime was finalized.
---
 redGrapes/task/task_space.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/redGrapes/task/task_space.cpp b/redGrapes/task/task_space.cpp
index fdc9e10..b387b9e 100644
--- a/redGrapes/task/task_space.cpp
+++ b/redGrapes/task/task_space.cpp
@@ -60,6 +60,8 @@ namespace redGrapes
         memory::Allocator(arena_id).deallocate(memory::Block{(uintptr_t) task, sizeof(Task)});
 
         unsigned count = task_count.fetch_sub(1) - 1;
+        if(parent)
+            count = SingletonContext::get().root_space->task_count.fetch_sub(1) - 1;
 
         // TODO: implement this using post-event of root-task?
         //  - event already has in_edge count
@@ -75,7 +77,10 @@ namespace redGrapes
         task->space = shared_from_this();
         task->task = task;
 
+        // the root space counts all descendants, see `Context::barrier()`
         ++task_count;
+        if(parent)
+            ++SingletonContext::get().root_space->task_count;
 
         if(parent)
             assert(this->is_superset(*parent, *task));
-- 
2.43.0


From 0f7b23d0bba573f2670d32a362c0e3818e73e50a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:51 +0000
Subject: [PATCH 29/35] fix: finalize() destroyed scheduler and workers while
 events are being notified

A thread outside of the worker pool that reached the last event is still
activating followers and waking up threads after barrier() returned.
---
 redGrapes/redGrapes.cpp       |  7 +++++++
 redGrapes/redGrapes.hpp       |  4 ++++
 redGrapes/scheduler/event.cpp | 18 ++++++++++++++++++
 3 files changed, 29 insertions(+)

diff --git a/redGrapes/redGrapes.cpp b/redGrapes/redGrapes.cpp
index be45f63..d6e7322 100644
--- a/redGrapes/redGrapes.cpp
+++ b/redGrapes/redGrapes.cpp
@@ -19,6 +19,7 @@
 #include <memory>
 #include <mutex>
 #include <optional>
+#include <thread>
 #include <vector>
 
 #if REDGRAPES_ENABLE_TRACE
@@ -148,6 +149,12 @@ namespace redGrapes
     {
         barrier();
 
+        /* the last task may have been completed by a thread which does not
+         * belong to the worker pool and is still using scheduler and workers
+         */
+        while(external_notifications.load() > 0)
+            std::this_thread::yield();
+
         worker_pool->stop();
 
         scheduler.reset();
diff --git a/redGrapes/redGrapes.hpp b/redGrapes/redGrapes.hpp
index 0fc5a5c..1645e54 100644
--- a/redGrapes/redGrapes.hpp
+++ b/redGrapes/redGrapes.hpp
@@ -14,6 +14,7 @@
 
 #include <spdlog/spdlog.h>
 
+#include <atomic>
 #include <memory> // std::shared_ptr
 
 // #include <redGrapes/task/future.hpp>
@@ -92,6 +93,9 @@ namespace redGrapes
         std::shared_ptr<TaskSpace> root_space;
         std::shared_ptr<scheduler::IScheduler> scheduler;
 
+        //! number of threads currently notifying an external event
+        std::atomic<unsigned> external_notifications{0};
+
 #if REDGRAPES_ENABLE_TRACE
         std::shared_ptr<perfetto::TracingSession> tracing_session;
 #endif
diff --git a/redGrapes/scheduler/event.cpp b/redGrapes/scheduler/event.cpp
index a192077..4afea15 100644
--- a/redGrapes/scheduler/event.cpp
+++ b/redGrapes/scheduler/event.cpp
@@ -114,6 +114,24 @@ namespace redGrapes
         {
             TRACE_EVENT("Event", "notify");
 
+            // keep the runtime from being finalized meanwhile
+            struct ExternalNotification
+            {
+                bool external;
+
+                ExternalNotification(bool external) : external(external)
+                {
+                    if(external)
+                        ++SingletonContext::get().external_notifications;
+                }
+
+                ~ExternalNotification()
+                {
+                    if(external)
+                        --SingletonContext::get().external_notifications;
+                }
+            } external_notification(tag == T_EVT_EXT);
+
             int old_state = this->get_event().state.fetch_sub(1);
             int state = old_state - 1;
 
-- 
2.43.0


From 491789ae2b674f8f1199449d5e0e34264c645946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:19 +0000
Subject: [PATCH 30/35] fix: concurrent overflow of an arena chunk left unused
 chunks behind

---
 redGrapes/memory/chunked_bump_alloc.hpp |  6 +++---
 redGrapes/util/atomic_list.hpp          | 21 +++++++++++++++++++++
 2 files changed, 24 insertions(+), 3 deletions(-)

diff --git a/redGrapes/memory/chunked_bump_alloc.hpp b/redGrapes/memory/chunked_bump_alloc.hpp
index 4e73a83..6cd411f 100644
--- a/redGrapes/memory/chunked_bump_alloc.hpp
+++ b/redGrapes/memory/chunked_bump_alloc.hpp
@@ -103,10 +103,10 @@ namespace redGrapes
                         {
                             blk = chunk->allocate(alloc_size);
 
-                            // chunk is full, create a new one
+                            // chunk is full, create a new one (unless another thread just did)
                             if(!blk)
                             {
-                                bump_allocators.allocate_item();
+                                bump_allocators.try_allocate_item_after(chunk);
 
                                 // all blocks were freed before the chunk was full
                                 if(chunk->full() && chunk->empty())
@@ -115,7 +115,7 @@ namespace redGrapes
                         }
                         // no chunk exists, create a new one
                         else
-                            bump_allocators.allocate_item();
+                            bump_allocators.try_allocate_item_after(chunk);
                     }
 
                     SPDLOG_TRACE("ChunkedBumpAlloc: alloc {},{}", blk.ptr, blk.len);
diff --git a/redGrapes/util/atomic_list.hpp b/redGrapes/util/atomic_list.hpp
index eb9c01d..ffc58d7 100644
--- a/redGrapes/util/atomic_list.hpp
+++ b/redGrapes/util/atomic_list.hpp
@@ -202,6 +202,27 @@ namespace redGrapes
                 return try_append_first_item(std::move(sharedChunk));
             }
 
+            /** allocate a new item and append it to the list, if `pos` is still the head
+             *
+             * If more than one thread tries to extend the list at `pos` only one thread will add an item.
+             */
+            template<typename Iterator>
+            bool try_allocate_item_after(Iterator const& pos)
+            {
+                TRACE_EVENT("Allocator", "AtomicList::try_allocate_item_after()");
+                StaticAlloc<void> chunk_alloc(this->alloc, get_chunk_allocsize());
+
+                // this block will contain the Item-data of ItemControlBlock
+                memory::Block blk{
+                    .ptr = (uintptr_t) chunk_alloc.ptr + get_controlblock_size(),
+                    .len = chunk_capacity - get_controlblock_size()};
+
+                auto new_head = std::allocate_shared<ItemControlBlock>(chunk_alloc, blk);
+                std::shared_ptr<ItemControlBlock> expected = pos.c;
+                new_head->prev = expected;
+                return std::atomic_compare_exchange_strong<ItemControlBlock>(&head, &expected, new_head);
+            }
+
             /** @} */
 
             template<bool is_const = false>
-- 
2.43.0


From 9a3b6e2cf3c9bb3ab44a2d5c5da3145ae2a17853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:19 +0000
Subject: [PATCH 31/35] fix: chunks emptied before they were full were kept
 until the next removal behind them

---
 redGrapes/memory/chunked_bump_alloc.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/redGrapes/memory/chunked_bump_alloc.hpp b/redGrapes/memory/chunked_bump_alloc.hpp
index 6cd411f..4326bac 100644
--- a/redGrapes/memory/chunked_bump_alloc.hpp
+++ b/redGrapes/memory/chunked_bump_alloc.hpp
@@ -110,7 +110,10 @@ namespace redGrapes
 
                                 // all blocks were freed before the chunk was full
                                 if(chunk->full() && chunk->empty())
+                                {
                                     bump_allocators.erase(chunk);
+                                    bump_allocators.rbegin().optimize();
+                                }
                             }
                         }
                         // no chunk exists, create a new one
-- 
2.43.0


From 3b1eafe9d24a26281382060f0d62a995ac3b9194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:08 +0000
Subject: [PATCH 32/35] fix: arenas crashed when the system refused memory

---
 redGrapes/memory/allocator.hpp          | 4 ++++
 redGrapes/memory/chunked_bump_alloc.hpp | 7 +++++++
 redGrapes/util/atomic_list.hpp          | 7 +++++++
 3 files changed, 18 insertions(+)

diff --git a/redGrapes/memory/allocator.hpp b/redGrapes/memory/allocator.hpp
index 5167b26..a63eacf 100644
--- a/redGrapes/memory/allocator.hpp
+++ b/redGrapes/memory/allocator.hpp
@@ -7,6 +7,7 @@
 #include <spdlog/spdlog.h>
 
 #include <memory>
+#include <new>
 
 namespace redGrapes
 {
@@ -61,6 +62,9 @@ namespace redGrapes
             inline T* allocate(std::size_t n)
             {
                 Block blk = alloc.allocate(sizeof(T) * n);
+                if(!blk)
+                    throw std::bad_alloc();
+
                 SPDLOG_TRACE(
                     "allocate {},{},{}",
                     (uintptr_t) blk.ptr,
diff --git a/redGrapes/memory/chunked_bump_alloc.hpp b/redGrapes/memory/chunked_bump_alloc.hpp
index 4326bac..0363e9b 100644
--- a/redGrapes/memory/chunked_bump_alloc.hpp
+++ b/redGrapes/memory/chunked_bump_alloc.hpp
@@ -22,6 +22,7 @@
 #include <cstdint>
 #include <memory>
 #include <mutex>
+#include <new>
 #include <vector>
 
 // #include <redGrapes_config.hpp>
@@ -80,6 +81,7 @@ namespace redGrapes
             }
 
             Block allocate(std::size_t n = 1) noexcept
+            try
             {
                 TRACE_EVENT("Allocator", "ChunkedBumpAlloc::allocate()");
                 size_t alloc_size = roundup_to_poweroftwo(n > 0 ? n : 1);
@@ -133,6 +135,11 @@ namespace redGrapes
                     return Block::null();
                 }
             }
+            catch(std::bad_alloc const&)
+            {
+                spdlog::error("ChunkedBumpAlloc: could not get another chunk of memory");
+                return Block::null();
+            }
 
             void deallocate(Block blk)
             {
diff --git a/redGrapes/util/atomic_list.hpp b/redGrapes/util/atomic_list.hpp
index ffc58d7..eaee77f 100644
--- a/redGrapes/util/atomic_list.hpp
+++ b/redGrapes/util/atomic_list.hpp
@@ -18,6 +18,7 @@
 #include <cstddef>
 #include <cstdint>
 #include <memory>
+#include <new>
 #include <optional>
 
 namespace redGrapes
@@ -175,6 +176,8 @@ namespace redGrapes
                  * This works because shared_ptr control block lies at lower address.
                  */
                 StaticAlloc<void> chunk_alloc(this->alloc, get_chunk_allocsize());
+                if(!chunk_alloc.ptr)
+                    throw std::bad_alloc();
 
                 // this block will contain the Item-data of ItemControlBlock
                 memory::Block blk{
@@ -192,6 +195,8 @@ namespace redGrapes
             {
                 TRACE_EVENT("Allocator", "AtomicList::allocate_first_item()");
                 StaticAlloc<void> chunk_alloc(this->alloc, get_chunk_allocsize());
+                if(!chunk_alloc.ptr)
+                    throw std::bad_alloc();
 
                 // this block will contain the Item-data of ItemControlBlock
                 memory::Block blk{
@@ -211,6 +216,8 @@ namespace redGrapes
             {
                 TRACE_EVENT("Allocator", "AtomicList::try_allocate_item_after()");
                 StaticAlloc<void> chunk_alloc(this->alloc, get_chunk_allocsize());
+                if(!chunk_alloc.ptr)
+                    throw std::bad_alloc();
 
                 // this block will contain the Item-data of ItemControlBlock
                 memory::Block blk{
-- 
2.43.0


From df2cafa8fc077d22f181df5db7c1d9be3c7861cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:10 +0000
Subject: [PATCH 33/35] fix: a task refused by the scheduler blocked later
 tasks and barriers forever

---
 redGrapes/task/task_space.cpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/redGrapes/task/task_space.cpp b/redGrapes/task/task_space.cpp
index b387b9e..527ef52 100644
--- a/redGrapes/task/task_space.cpp
+++ b/redGrapes/task/task_space.cpp
@@ -97,7 +97,20 @@ namespace redGrapes
             r->task_entry = r->resource->users.push(task);
         }
 
-        SingletonContext::get().scheduler->emplace_task(*task);
+        try
+        {
+            SingletonContext::get().scheduler->emplace_task(*task);
+        }
+        catch(...)
+        {
+            /* the task is refused and will never be executed.
+             * Release everything that already waits for it.
+             */
+            task->get_pre_event().notify(true);
+            task->get_result_get_event().notify();
+            task->get_post_event().notify();
+            throw;
+        }
     }
 
 } // namespace redGrapes
-- 
2.43.0


From e2afdb797369e5305e5f950da21f9a13961dc9bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:06 +0000
Subject: [PATCH 34/35] fix: resources and guards passed to a task as lvalues
 or by reference wrapper were ambiguous

The specialisation for types convertible to a ResourceAccess matched references
and reference wrappers as well, next to the specialisations which strip them.
---
 redGrapes/resource/resource.hpp   |  6 +++++-
 redGrapes/task/property/trait.hpp | 12 ++++++++++++
 2 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/redGrapes/resource/resource.hpp b/redGrapes/resource/resource.hpp
index 52b2326..03557c4 100644
--- a/redGrapes/resource/resource.hpp
+++ b/redGrapes/resource/resource.hpp
@@ -194,7 +194,11 @@ namespace redGrapes
          * can be casted to a ResourceAccess
          */
         template<typename T>
-        struct BuildProperties<T, typename std::enable_if<std::is_convertible<T, ResourceAccess>::value>::type>
+        struct BuildProperties<
+            T,
+            typename std::enable_if<
+                std::is_convertible<T, ResourceAccess>::value && !std::is_reference<T>::value
+                && !IsReferenceWrapper<T>::value>::type>
         {
             template<typename Builder>
             static inline void build(Builder& builder, T const& obj)
diff --git a/redGrapes/task/property/trait.hpp b/redGrapes/task/property/trait.hpp
index 292d7ff..bb529dd 100644
--- a/redGrapes/task/property/trait.hpp
+++ b/redGrapes/task/property/trait.hpp
@@ -5,6 +5,8 @@
 #include <boost/core/demangle.hpp>
 #include <spdlog/spdlog.h>
 
+#include <functional>
+#include <type_traits>
 #include <typeinfo>
 
 namespace redGrapes
@@ -24,6 +26,16 @@ namespace redGrapes
             }
         };
 
+        template<typename T>
+        struct IsReferenceWrapper : std::false_type
+        {
+        };
+
+        template<typename T>
+        struct IsReferenceWrapper<std::reference_wrapper<T>> : std::true_type
+        {
+        };
+
         template<typename T>
         struct BuildProperties<std::reference_wrapper<T>>
         {
-- 
2.43.0


From d478d6e2e9d05941602720e4582db9e169c520e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:06 +0000
Subject: [PATCH 35/35] fix: copies of an IOResource or FieldResource tried to
 construct the object from the resource

The forwarding constructor was preferred over the copy constructor for
non-const sources, so that 'auto b = a;' did not compile.
---
 redGrapes/resource/fieldresource.hpp | 5 ++++-
 redGrapes/resource/ioresource.hpp    | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/redGrapes/resource/fieldresource.hpp b/redGrapes/resource/fieldresource.hpp
index 9e8793b..e8ff71d 100644
--- a/redGrapes/resource/fieldresource.hpp
+++ b/redGrapes/resource/fieldresource.hpp
@@ -237,7 +237,10 @@ namespace redGrapes
         {
         }
 
-        template<typename... Args>
+        // arguments for the constructor of the object; copies of the resource are no such arguments
+        template<
+            typename... Args,
+            typename std::enable_if<!std::is_same<void(FieldResource), void(std::decay_t<Args>...)>::value, int>::type = 0>
         FieldResource(Args&&... args)
             : fieldresource::WriteGuard<Container>(memory::alloc_shared<Container>(std::forward<Args>(args)...))
         {
diff --git a/redGrapes/resource/ioresource.hpp b/redGrapes/resource/ioresource.hpp
index 07efea4..f8f509a 100644
--- a/redGrapes/resource/ioresource.hpp
+++ b/redGrapes/resource/ioresource.hpp
@@ -94,7 +94,10 @@ namespace redGrapes
     template<typename T>
     struct IOResource : public ioresource::WriteGuard<T>
     {
-        template<typename... Args>
+        // arguments for the constructor of the object; copies of the resource are no such arguments
+        template<
+            typename... Args,
+            typename std::enable_if<!std::is_same<void(IOResource), void(std::decay_t<Args>...)>::value, int>::type = 0>
         IOResource(Args&&... args) : ioresource::WriteGuard<T>(memory::alloc_shared<T>(std::forward<Args>(args)...))
         {
         }
-- 
2.43.0

