From 6f91c8797824b0537a67d5778199c7c93aceff8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:09 +0000
Subject: [PATCH 01/22] fix: shrinking a thread pool terminated more workers
 than requested

A worker which found too many workers left the pool, but was only discounted
after it had released the monitor, so that others could leave for the same
reason, down to an empty pool whose tasks never run.
---
 .../threadpool/threadpool/detail/pool_core.hpp | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/spatialops/threadpool/threadpool/detail/pool_core.hpp b/spatialops/threadpool/threadpool/detail/pool_core.hpp
index 7b79d81..e082060 100755
--- a/spatialops/threadpool/threadpool/detail/pool_core.hpp
+++ b/spatialops/threadpool/threadpool/detail/pool_core.hpp
@@ -107,6 +107,7 @@ namespace boost { namespace threadpool { namespace detail
 
   private: // The following members may be accessed by _multiple_ threads at the same time:
     volatile size_t m_worker_count;
+    volatile size_t m_exiting_worker_count; // workers which left the pool but whose thread has not finished yet
     volatile size_t m_target_worker_count;
     volatile size_t m_active_worker_count;
     volatile size_t m_target_active_worker_count;
@@ -127,6 +128,7 @@ namespace boost { namespace threadpool { namespace detail
     /// Constructor.
     pool_core()
       : m_worker_count(0)
+      , m_exiting_worker_count(0)
       , m_target_worker_count(0)
       , m_active_worker_count(0)
       , m_target_active_worker_count(0)
@@ -290,7 +292,7 @@ namespace boost { namespace threadpool { namespace detail
 
       if(wait)
       {
-        while(m_worker_count > 0)
+        while(m_worker_count > 0 || m_exiting_worker_count > 0)
         {
           self->m_worker_idle_or_terminated_event.wait(lock);
         }
@@ -373,8 +375,7 @@ namespace boost { namespace threadpool { namespace detail
     void worker_destructed(shared_ptr<worker_type> worker) volatile
     {
       locking_ptr<pool_type, recursive_mutex> lockedThis(*this, m_monitor);
-      m_worker_count--;
-      m_active_worker_count--;
+      m_exiting_worker_count--;
       lockedThis->m_worker_idle_or_terminated_event.notify_all();
 
       if(m_terminate_all_workers)
@@ -383,6 +384,15 @@ namespace boost { namespace threadpool { namespace detail
       }
     }
 
+    // takes the calling worker out of the pool; the monitor must be held.
+    // Counting it here, together with the decision to terminate it, keeps other workers from leaving in its stead.
+    void retire_worker() volatile
+    {
+      m_worker_count--;
+      m_active_worker_count--;
+      m_exiting_worker_count++;
+    }
+
     bool execute_task() volatile
     {
       function0<void> task;
@@ -394,6 +404,7 @@ namespace boost { namespace threadpool { namespace detail
         // decrease number of threads if necessary
         if(m_worker_count > m_target_worker_count)
         {
+          retire_worker();
           return false;	// terminate worker
         }
 
@@ -404,6 +415,7 @@ namespace boost { namespace threadpool { namespace detail
           // decrease number of workers if necessary
           if(m_worker_count > m_target_worker_count)
           {
+            retire_worker();
             return false;	// terminate worker
           }
           else
-- 
2.43.0


From f84a73a24e2f35e1afcdb142561364f6519b81ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:09 +0000
Subject: [PATCH 02/22] fix: a worker leaving the thread pool could take a task
 notification with it

Its place under the limit on active workers, and the notification that woke
it, were not passed on, so that pending tasks were never executed.
---
 spatialops/threadpool/threadpool/detail/pool_core.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/spatialops/threadpool/threadpool/detail/pool_core.hpp b/spatialops/threadpool/threadpool/detail/pool_core.hpp
index e082060..3c4e29d 100755
--- a/spatialops/threadpool/threadpool/detail/pool_core.hpp
+++ b/spatialops/threadpool/threadpool/detail/pool_core.hpp
@@ -391,6 +391,8 @@ namespace boost { namespace threadpool { namespace detail
       m_worker_count--;
       m_active_worker_count--;
       m_exiting_worker_count++;
+      // it may have consumed the notification of a task, and it frees its share of the active limit
+      const_cast<pool_type*>(this)->m_task_or_terminate_workers_event.notify_one();
     }
 
     bool execute_task() volatile
-- 
2.43.0


From dc6874ba82c25ed9cea59756a530c4da9e19821b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:09 +0000
Subject: [PATCH 03/22] fix: raising the limit on active workers did not start
 pending tasks

---
 spatialops/threadpool/threadpool/detail/pool_core.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/spatialops/threadpool/threadpool/detail/pool_core.hpp b/spatialops/threadpool/threadpool/detail/pool_core.hpp
index 3c4e29d..6853f07 100755
--- a/spatialops/threadpool/threadpool/detail/pool_core.hpp
+++ b/spatialops/threadpool/threadpool/detail/pool_core.hpp
@@ -349,7 +349,9 @@ namespace boost { namespace threadpool { namespace detail
      * @return
      */
     bool resize_active(size_t const worker_count) volatile {
+    	locking_ptr<pool_type, recursive_mutex> lockedThis(*this, m_monitor);
     	m_target_active_worker_count = ( worker_count < m_worker_count ) ? worker_count : m_worker_count;
+    	lockedThis->m_task_or_terminate_workers_event.notify_all();   // pending tasks may be allowed to start now
     	return true;
     }
 
-- 
2.43.0


From fac4218d0c5f30926f108251d9105638991f4b4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:09 +0000
Subject: [PATCH 04/22] fix: pool_core::wait missed that the load had fallen

Neither clear() nor a busy worker taking the next task woke waiting threads.
---
 spatialops/threadpool/threadpool/detail/pool_core.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/spatialops/threadpool/threadpool/detail/pool_core.hpp b/spatialops/threadpool/threadpool/detail/pool_core.hpp
index 6853f07..fdbb2ee 100755
--- a/spatialops/threadpool/threadpool/detail/pool_core.hpp
+++ b/spatialops/threadpool/threadpool/detail/pool_core.hpp
@@ -213,6 +213,7 @@ namespace boost { namespace threadpool { namespace detail
     void clear() volatile {
       locking_ptr<pool_type, recursive_mutex> lockedThis(*this, m_monitor);
       lockedThis->m_scheduler.clear();
+      lockedThis->m_worker_idle_or_terminated_event.notify_all();   // the load has changed
     }
 
     /*! Indicates that there are no tasks pending.
@@ -433,6 +434,7 @@ namespace boost { namespace threadpool { namespace detail
 
         task = lockedThis->m_scheduler.top();
         lockedThis->m_scheduler.pop();
+        lockedThis->m_worker_idle_or_terminated_event.notify_all();   // the load may have fallen to a waiter's threshold
       }
 
       // call task function
-- 
2.43.0


From 90b869459d4b23c6da0177a037b344dac56a6698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:17 +0000
Subject: [PATCH 05/22] fix: set_hard_thread_count did not repair a failed
 creation of worker threads

The requested size was recorded even if the workers could not be created, so
that asking for it again did nothing; and if no worker at all could be created
at first use, the limit on active workers stayed zero for ever.
---
 spatialops/ThreadPool.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/spatialops/ThreadPool.cpp b/spatialops/ThreadPool.cpp
index cb96dc4..1b8e275 100644
--- a/spatialops/ThreadPool.cpp
+++ b/spatialops/ThreadPool.cpp
@@ -83,15 +83,19 @@ namespace SpatialOps {
        return -1;
      }
 
-     //Fast exit
-     if( rit->second == threads ) { return threads; }
-
      //Connect the right resource interface
      VoidType* resource = (VoidType*)rit->first;
 
      if( threads < 1 ) { threads = 1; }
+
+     //Fast exit, unless an earlier request for this size has not been met (yet)
+     if( rit->second == threads && (int)resource->size() == threads ) { return threads; }
+
      rit->second = threads;
      resource->size_controller().resize(threads);
+
+     //The limit is zero only if no worker could be created so far
+     if( resource->max_active() == 0 ) { resource->size_controller().resize_active(threads); }
      return threads;
    }
 
-- 
2.43.0


From 95aaa104b0e80f0da9b652f988a573cff05e8080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:55 +0000
Subject: [PATCH 06/22] fix: first use of a thread pool singleton by several
 threads was a data race

---
 spatialops/ThreadPool.cpp | 24 ++++++++----------------
 spatialops/ThreadPool.h   |  6 ------
 2 files changed, 8 insertions(+), 22 deletions(-)

diff --git a/spatialops/ThreadPool.cpp b/spatialops/ThreadPool.cpp
index 1b8e275..07094df 100644
--- a/spatialops/ThreadPool.cpp
+++ b/spatialops/ThreadPool.cpp
@@ -151,9 +151,7 @@ namespace SpatialOps {
 
    ThreadPool::ThreadPool( const int nthreads )
      : boost::threadpool::prio_pool( nthreads )
-   {
-     init_ = false;
-   }
+   {}
 
    ThreadPool::~ThreadPool()
    {}
@@ -175,11 +173,9 @@ namespace SpatialOps {
    ThreadPool& ThreadPool::self()
    {
      static ThreadPool tp(NTHREADS);
-     ThreadPoolResourceManager& tprm = ThreadPoolResourceManager::self();
-     if( tp.init_ == false ){
-       tprm.insert<boost::threadpool::prio_pool>(tp, NTHREADS);
-       tp.init_ = true;
-     }
+     // registered once, even if several threads get here at the same time
+     static const bool init = ThreadPoolResourceManager::insert<boost::threadpool::prio_pool>( tp, NTHREADS );
+     (void)init;
      return tp;
    }
 
@@ -187,9 +183,7 @@ namespace SpatialOps {
 
    ThreadPoolFIFO::ThreadPoolFIFO( const int nthreads )
      : boost::threadpool::fifo_pool( nthreads )
-   {
-     init_ = false;
-   }
+   {}
 
    ThreadPoolFIFO::~ThreadPoolFIFO()
    {}
@@ -198,11 +192,9 @@ namespace SpatialOps {
    ThreadPoolFIFO::self()
    {
      static ThreadPoolFIFO tp( NTHREADS );
-     ThreadPoolResourceManager& tprm = ThreadPoolResourceManager::self();
-     if( tp.init_ == false ){
-       tprm.insert<boost::threadpool::fifo_pool>( tp, NTHREADS );
-       tp.init_ = true;
-     }
+     // registered once, even if several threads get here at the same time
+     static const bool init = ThreadPoolResourceManager::insert<boost::threadpool::fifo_pool>( tp, NTHREADS );
+     (void)init;
      return tp;
    }
 
diff --git a/spatialops/ThreadPool.h b/spatialops/ThreadPool.h
index c9e29e5..9d19ca3 100644
--- a/spatialops/ThreadPool.h
+++ b/spatialops/ThreadPool.h
@@ -89,9 +89,6 @@ namespace SpatialOps{
      * @return the maximum number of threads in the pool
      */
     static int get_pool_capacity();
-
-  private:
-    bool init_;
   };
 
   /**
@@ -131,9 +128,6 @@ namespace SpatialOps{
     static int get_pool_capacity();
 
     static bool is_thread_parallel();
-
-  private:
-    bool init_;
   };
 } // namespace SpatialOps
 
-- 
2.43.0


From 6ce5e1aac10d7e51aab14f1d0056442b5edcc61a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:20 +0000
Subject: [PATCH 07/22] fix: a failed thread-parallel assignment left
 partitions running

When scheduling a partition threw, thread_parallel_assign returned while
partitions scheduled earlier could still run: they wrote to the fields
after the failure had been reported and posted to a semaphore on a stack
frame that was gone.  Wait for them on every way out.
---
 spatialops/NeboLhs.h     |  6 +++++-
 spatialops/NeboLhs.h.fmr |  7 +++----
 spatialops/Semaphore.h   | 25 +++++++++++++++++++++++++
 3 files changed, 33 insertions(+), 5 deletions(-)

diff --git a/spatialops/NeboLhs.h b/spatialops/NeboLhs.h
index 8304d03..183a692 100644
--- a/spatialops/NeboLhs.h
+++ b/spatialops/NeboLhs.h
@@ -205,6 +205,8 @@
 
                  structured::IntVec location = structured::IntVec(0, 0, 0);
 
+                 SemaphoreGuard guard(semaphore);
+
                  for(int count = 0; count < max; count++) {
                     ThreadPoolFIFO::self().schedule(boost::bind(&ResizeType::
                                                                 template assign<RhsResizeType>,
@@ -214,10 +216,12 @@
                                                                 location,
                                                                 &semaphore));
 
+                    guard.expect();
+
                     location = nebo_next_partition(location, split);
                  };
 
-                 for(int ii = 0; ii < max; ii++) { semaphore.wait(); };
+                 guard.wait();
 
                  #ifdef NEBO_REPORT_BACKEND
                     std::cout << "Finished Nebo thread parallel" << std::endl
diff --git a/spatialops/NeboLhs.h.fmr b/spatialops/NeboLhs.h.fmr
index 3b35116..a77327b 100644
--- a/spatialops/NeboLhs.h.fmr
+++ b/spatialops/NeboLhs.h.fmr
@@ -92,10 +92,7 @@
                                                                     (fc 'semaphore "0"))
                                                                 (nt=c 'int 'thread_count (mfc 'field_ 'get_partition_count))
                                                                 thread-parallel-assign-body
-                                                                (nfor (nt= 'int 'ii "0")
-                                                                      (n< 'ii 'max)
-                                                                      (n++ 'ii)
-                                                                      (mfc 'semaphore 'wait)))
+                                                                (mfc 'guard 'wait))
                                                           (bs 'thread 'parallel))
                                                   (r-fcn-def (fcn-dcl 'resize 'ResizeType resize-pmtr)
                                                                       null
@@ -276,6 +273,7 @@
                                                                             (mfc 'rhs_ghosts 'get_minus)
                                                                             (mfc 'rhs_ghosts 'get_plus)))
                                           (nt= IntVec 'location ZeroIntVec)
+                                          (bs 'SemaphoreGuard (fc 'guard 'semaphore))
                                           (nfor (nt= 'int 'count "0")
                                                 (n< 'count 'max)
                                                 (n++ 'count)
@@ -288,6 +286,7 @@
                                                          'split
                                                          'location
                                                          (take-ptr 'semaphore)))
+                                                (mfc 'guard 'expect)
                                                 (n= 'location (fc 'nebo_next_partition 'location 'split))))
                                     (p (mfc 'field_ 'reset_valid_ghosts (fc GhostData resize-arg))
                                        'field_)
diff --git a/spatialops/Semaphore.h b/spatialops/Semaphore.h
index d50e5b3..d343a5d 100644
--- a/spatialops/Semaphore.h
+++ b/spatialops/Semaphore.h
@@ -48,5 +48,30 @@ namespace SpatialOps{
     boost::mutex mut_;
     int val_;
   };
+
+  /**
+   * @class SemaphoreGuard
+   * @brief Waits for the posts of all the tasks that were started in a scope,
+   *        however that scope is left.
+   */
+  class SemaphoreGuard
+  {
+  public:
+    explicit SemaphoreGuard(Semaphore& sem) : sem_(sem), count_(0){}
+    ~SemaphoreGuard(){ wait(); }
+
+    /** @brief one more task that will post was started */
+    inline void expect(){ ++count_; }
+
+    /** @brief wait for every expected post */
+    inline void wait(){ for( ; count_ > 0; --count_ ) sem_.wait(); }
+
+  private:
+    SemaphoreGuard(const SemaphoreGuard&);
+    SemaphoreGuard& operator=(const SemaphoreGuard&);
+
+    Semaphore& sem_;
+    int count_;
+  };
 }
 #endif // Nebo_Semaphore_h
-- 
2.43.0


From ab3845c2ad7b4fc5bc37453424b8705f36ec324b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:06 +0000
Subject: [PATCH 08/22] fix: a boundary condition raced with itself in a
 thread-parallel assignment

---
 spatialops/NeboStencilBuilder.h | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/spatialops/NeboStencilBuilder.h b/spatialops/NeboStencilBuilder.h
index 1803255..5768c8c 100644
--- a/spatialops/NeboStencilBuilder.h
+++ b/spatialops/NeboStencilBuilder.h
@@ -521,12 +521,18 @@ namespace SpatialOps {
                              PhiFieldType & phi,
                              const NeboExpression<ExprType, GammaFieldType> & gamma,
                              bool minus) const {
+        // phi is read at points other than the one being written, so this
+        // assignment must not be split between threads.
+        PhiFieldType dest(phi); // shallow: refers to phi's values
+#       ifdef ENABLE_THREADS
+        dest.set_partition_count(1);
+#       endif
         if(minus)
-          phi <<= cond(shift_.minus(mask), (gammaShift_(gamma) - phiShift_(phi) * srcCoef_) / destCoef_)
-                      (phi);
+          dest <<= cond(shift_.minus(mask), (gammaShift_(gamma) - phiShift_(phi) * srcCoef_) / destCoef_)
+                       (phi);
         else
-          phi <<= cond(shift_.plus(mask), (gammaShift_(gamma) - phiShift_(phi) * srcCoef_) / destCoef_)
-                      (phi);
+          dest <<= cond(shift_.plus(mask), (gammaShift_(gamma) - phiShift_(phi) * srcCoef_) / destCoef_)
+                       (phi);
       }
 
       /**
-- 
2.43.0


From 0aeb7b0c7128f36622a3fc5e096614f3791af9b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:21 +0000
Subject: [PATCH 09/22] fix: SpatFldPtr mishandled detached, empty and
 self-assigned handles

---
 spatialops/structured/SpatialFieldStore.h | 24 +++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/spatialops/structured/SpatialFieldStore.h b/spatialops/structured/SpatialFieldStore.h
index 01c66a7..ed164c5 100644
--- a/spatialops/structured/SpatialFieldStore.h
+++ b/spatialops/structured/SpatialFieldStore.h
@@ -146,7 +146,7 @@ public:
   }
 
   int count() const {
-    return *count_;
+    return count_ == NULL ? 0 : *count_;
   }
 
   bool built_from_store() const {
@@ -330,7 +330,7 @@ SpatFldPtr<FieldT>::SpatFldPtr(const SpatFldPtr<FieldT>& p)
     deviceIndex_( p.deviceIndex_),
     memType_( p.memType_ )
 {
-    ++(*count_);
+    if( count_ != NULL ) ++(*count_);
 }
 
 //------------------------------------------------------------------
@@ -349,6 +349,8 @@ template<typename FieldT>
 SpatFldPtr<FieldT>&
 SpatFldPtr<FieldT>::operator=(const SpatFldPtr& p)
 {
+  if( this == &p ) return *this;
+
   // was this an active SpatFldPtr?
   if (count_ != NULL) {
     // this one is dying so decrement the count.
@@ -371,7 +373,7 @@ SpatFldPtr<FieldT>::operator=(const SpatFldPtr& p)
   memType_ = p.memType_;
   deviceIndex_ = p.deviceIndex_;
   // increment copy count
-  ++(*count_);
+  if( count_ != NULL ) ++(*count_);
 
   return *this;
 }
@@ -379,6 +381,9 @@ SpatFldPtr<FieldT>::operator=(const SpatFldPtr& p)
 template<typename FieldT>
 SpatFldPtr<FieldT>&
 SpatFldPtr<FieldT>::operator=(FieldT* const f) {
+  // obtain what can fail before letting go of the current field
+  int* const newCount = new int;
+
   // was this an active SpatFldPtr?
   if (count_ != NULL) {
     // this one is dying so decrement the count.
@@ -397,11 +402,11 @@ SpatFldPtr<FieldT>::operator=(FieldT* const f) {
   }
   // reassign
   f_ = f;
-  count_ = new int;
+  count_ = newCount;
   *count_ = 1;
   builtFromStore_ = false;
-  memType_ = f->memory_device_type();
-  deviceIndex_ = f->device_index();
+  memType_ = ( f != NULL ? f->memory_device_type() : LOCAL_RAM );
+  deviceIndex_ = ( f != NULL ? f->device_index() : 0 );
 
   return *this;
 }
@@ -419,9 +424,12 @@ void SpatFldPtr<FieldT>::detach() {
       if( builtFromStore_ ){
 	SpatialFieldStore::restore_field(memType_, *f_);
       }
-      delete count_; count_ = NULL;
-      delete f_;     f_     = NULL;
+      delete count_;
+      delete f_;
     }
+    // other SpatFldPtrs may still refer to the field, but this one no longer does.
+    count_ = NULL;
+    f_     = NULL;
   }
 }
 
-- 
2.43.0


From 7916c7bb9f7911ebff59f5e2bd11c807113a6b7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:56 +0000
Subject: [PATCH 10/22] fix: failing allocations corrupted the memory pool's
 accounting and lost memory

---
 spatialops/structured/MemoryPool.cpp      | 35 +++++++++++++++++++++--
 spatialops/structured/MemoryPool.h        |  2 ++
 spatialops/structured/SpatialFieldStore.h | 11 ++++++-
 3 files changed, 44 insertions(+), 4 deletions(-)

diff --git a/spatialops/structured/MemoryPool.cpp b/spatialops/structured/MemoryPool.cpp
index af87468..df692d8 100644
--- a/spatialops/structured/MemoryPool.cpp
+++ b/spatialops/structured/MemoryPool.cpp
@@ -35,6 +35,8 @@
 
 #include <boost/type_traits.hpp>
 
+#include <new>
+
 namespace SpatialOps{
 namespace structured{
 
@@ -110,6 +112,19 @@ Pool<T>::self()
   return p;
 }
 
+template< typename T >
+void
+Pool<T>::free_host( T* const t )
+{
+# ifdef ENABLE_CUDA
+  if( pinned_ ){
+    cudaFreeHost(t);
+    return;
+  }
+# endif
+  delete [] t;
+}
+
 template< typename T >
 T*
 Pool<T>::get( const MemoryType mtype, const size_t _n )
@@ -131,7 +146,6 @@ Pool<T>::get( const MemoryType mtype, const size_t _n )
     }
     FieldQueue& fq = ifq->second;
     if( fq.empty() ){
-      ++cpuhighWater_;
       try{
 #ifdef ENABLE_CUDA
         /* Pinned Memory Mode
@@ -159,7 +173,14 @@ Pool<T>::get( const MemoryType mtype, const size_t _n )
                   << e.what() << std::endl
                   << __FILE__ << " : " << __LINE__ << std::endl;
       }
-      fsm_[field] = n;
+      try{
+        fsm_[field] = n;
+      }
+      catch(...){
+        free_host( field );
+        throw;
+      }
+      ++cpuhighWater_;
     }
     else{
       field = fq.top(); fq.pop();
@@ -216,7 +237,15 @@ Pool<T>::put( const MemoryType mtype, T* t )
     const size_t n = fsm_[t];
     const typename FQSizeMap::iterator ifq = cpufqm_.lower_bound( n );
     assert( ifq != cpufqm_.end() );
-    ifq->second.push(t);
+    try{
+      ifq->second.push(t);
+    }
+    catch(const std::bad_alloc&){
+      // no memory to keep track of this buffer, so release it rather than losing it.
+      fsm_.erase(t);
+      --cpuhighWater_;
+      free_host( t );
+    }
     break;
   }
 # ifdef ENABLE_CUDA
diff --git a/spatialops/structured/MemoryPool.h b/spatialops/structured/MemoryPool.h
index 3a4e0f1..df069ae 100644
--- a/spatialops/structured/MemoryPool.h
+++ b/spatialops/structured/MemoryPool.h
@@ -49,6 +49,8 @@ class Pool{
   Pool(const Pool&);
   Pool& operator=(const Pool&);
 
+  void free_host( T* const t );
+
  public:
 
   static Pool& self();
diff --git a/spatialops/structured/SpatialFieldStore.h b/spatialops/structured/SpatialFieldStore.h
index ed164c5..e7bb801 100644
--- a/spatialops/structured/SpatialFieldStore.h
+++ b/spatialops/structured/SpatialFieldStore.h
@@ -477,7 +477,16 @@ get_from_window( const structured::MemoryWindow& window,
     ValT* iftmp = fnew;
     for( size_t i=0; i<npts; ++i, ++iftmp )  *iftmp = 0.0;
 #   endif
-    return SpatFldPtr<FieldT>( new FieldT(mw,bc,ghost,fnew,structured::ExternalStorage), true );
+    FieldT* field = NULL;
+    try{
+      field = new FieldT(mw,bc,ghost,fnew,structured::ExternalStorage);
+      return SpatFldPtr<FieldT>( field, true );
+    }
+    catch(...){ // don't lose the memory if we could not build the field or its handle
+      delete field;
+      structured::Pool<ValT>::self().put( mtype, fnew );
+      throw;
+    }
   }
 # ifdef ENABLE_CUDA
   case EXTERNAL_CUDA_GPU: {
-- 
2.43.0


From a9e71f8cd847363178949b0fed7bb92d73005f55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:05 +0000
Subject: [PATCH 11/22] fix: the memory pool was not safe for use from several
 threads

---
 spatialops/structured/MemoryPool.cpp | 21 +++++++++++++++++++++
 spatialops/structured/MemoryPool.h   | 10 +++++++++-
 2 files changed, 30 insertions(+), 1 deletion(-)

diff --git a/spatialops/structured/MemoryPool.cpp b/spatialops/structured/MemoryPool.cpp
index df692d8..4ee2d41 100644
--- a/spatialops/structured/MemoryPool.cpp
+++ b/spatialops/structured/MemoryPool.cpp
@@ -131,6 +131,10 @@ Pool<T>::get( const MemoryType mtype, const size_t _n )
 {
   assert( !destroyed_ );
 
+# ifdef ENABLE_THREADS
+  boost::mutex::scoped_lock lock( mutex_ );
+# endif
+
   if( pad_==0 ) pad_ = _n/10;
   size_t n = _n+pad_;
 
@@ -232,6 +236,10 @@ Pool<T>::put( const MemoryType mtype, T* t )
   // leak memory on shut-down in those cases.
   if( destroyed_ ) return;
 
+# ifdef ENABLE_THREADS
+  boost::mutex::scoped_lock lock( mutex_ );
+# endif
+
   switch(mtype) {
   case LOCAL_RAM: {
     const size_t n = fsm_[t];
@@ -271,6 +279,9 @@ Pool<T>::put( const MemoryType mtype, T* t )
 template<typename T>
 size_t
 Pool<T>::active() const{
+# ifdef ENABLE_THREADS
+  boost::mutex::scoped_lock lock( mutex_ );
+# endif
   size_t n=0;
   for( typename FQSizeMap::const_iterator ifq=cpufqm_.begin(); ifq!=cpufqm_.end(); ++ifq ){
     n += ifq->second.size();
@@ -279,6 +290,16 @@ Pool<T>::active() const{
 }
 
 
+template<typename T>
+size_t
+Pool<T>::total() const{
+# ifdef ENABLE_THREADS
+  boost::mutex::scoped_lock lock( mutex_ );
+# endif
+  return cpuhighWater_;
+}
+
+
 // explicit instantiation
 template class Pool<double>;
 template class Pool<float>;
diff --git a/spatialops/structured/MemoryPool.h b/spatialops/structured/MemoryPool.h
index df069ae..35e0af6 100644
--- a/spatialops/structured/MemoryPool.h
+++ b/spatialops/structured/MemoryPool.h
@@ -26,8 +26,13 @@
 #include <stack>
 #include <map>
 
+#include <spatialops/SpatialOpsConfigure.h>
 #include <spatialops/structured/MemoryTypes.h>
 
+#ifdef ENABLE_THREADS
+# include <boost/thread/mutex.hpp>
+#endif
+
 namespace SpatialOps {
 namespace structured {
 
@@ -44,6 +49,9 @@ class Pool{
   FieldSizeMap fsm_;
   size_t pad_;
   size_t cpuhighWater_, gpuhighWater_;
+# ifdef ENABLE_THREADS
+  mutable boost::mutex mutex_;  ///< fields may be created and destroyed from any thread
+# endif
   Pool();
   ~Pool();
   Pool(const Pool&);
@@ -57,7 +65,7 @@ class Pool{
   T* get( const MemoryType mtype, const size_t n );
   void put( const MemoryType mtype, T* );
   size_t active() const;
-  size_t total() const{ return cpuhighWater_; }
+  size_t total() const;
   const unsigned short int deviceIndex_;
 };
 
-- 
2.43.0


From c3bda75ddac1756d5803c7902e9f283c159d7137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:09 +0000
Subject: [PATCH 12/22] fix: a refused add_consumer made the field read-only

---
 spatialops/structured/SpatialField.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spatialops/structured/SpatialField.h b/spatialops/structured/SpatialField.h
index ec68e13..ee38647 100644
--- a/spatialops/structured/SpatialField.h
+++ b/spatialops/structured/SpatialField.h
@@ -914,8 +914,6 @@ add_consumer( MemoryType consumerMemoryType,
     return;
   }
 
-  readOnly_ = true;  // once a consumer is added, we only allow read-only access
-
 # ifdef ENABLE_THREADS
   //Make sure adding consumers is per-field atomic
   ExecMutex lock;
@@ -1023,6 +1021,8 @@ add_consumer( MemoryType consumerMemoryType,
     throw(std::runtime_error(msg.str()));
   }
   }
+
+  readOnly_ = true;  // once a consumer is added, we only allow read-only access
 }
 
 //------------------------------------------------------------------
-- 
2.43.0


From c75ff1efb886184c5f3b55865ffa8bcd3da8bd02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:17 +0000
Subject: [PATCH 13/22] fix: write_matlab did not report that a file could not
 be written

---
 spatialops/WriteMatlab.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/spatialops/WriteMatlab.h b/spatialops/WriteMatlab.h
index ffbfec6..7eb1024 100644
--- a/spatialops/WriteMatlab.h
+++ b/spatialops/WriteMatlab.h
@@ -26,6 +26,8 @@
 #include <string>
 #include <fstream>
 #include <iomanip>
+#include <sstream>
+#include <stdexcept>
 
 namespace SpatialOps{
 
@@ -33,6 +35,8 @@ namespace SpatialOps{
    *  \file WriteMatlab
    *  \function write_matlab
    *  \brief writes a field to a matlab file
+   *
+   *  Throws std::runtime_error if the file could not be written completely.
    */
   template<typename FieldT>
   void write_matlab( const FieldT& field,
@@ -63,6 +67,12 @@ namespace SpatialOps{
       fout << " ];" << std::endl;
     }
     fout.close();
+    if( !fout ){
+      std::ostringstream msg;
+      msg << "Failed to write the matlab file '" << fname << "'" << std::endl
+          << "\t - " << __FILE__ << " : " << __LINE__ << std::endl;
+      throw std::runtime_error( msg.str() );
+    }
   }
 
 } // namespace SpatialOps
-- 
2.43.0


From e74188bed1a222c27c665d4cb4a8284491d6da68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:27 +0000
Subject: [PATCH 14/22] fix: indexing a windowed field failed an assertion on
 indices below the window's offset

---
 spatialops/structured/SpatialField.h | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/spatialops/structured/SpatialField.h b/spatialops/structured/SpatialField.h
index ee38647..39c92ef 100644
--- a/spatialops/structured/SpatialField.h
+++ b/spatialops/structured/SpatialField.h
@@ -1290,9 +1290,6 @@ SpatialField<Location,T>::operator()(const IntVec& ijk)
     assert( (size_t)ijk[0] <  fieldWindow_.extent(0) );
     assert( (size_t)ijk[1] <  fieldWindow_.extent(1) );
     assert( (size_t)ijk[2] <  fieldWindow_.extent(2) );
-    assert( (size_t)ijk[0] >= fieldWindow_.offset(0) );
-    assert( (size_t)ijk[1] >= fieldWindow_.offset(1) );
-    assert( (size_t)ijk[2] >= fieldWindow_.offset(2) );
 #   endif
     return fieldValues_[fieldWindow_.flat_index(ijk)];
   }
@@ -1318,9 +1315,6 @@ operator()( const size_t i, const size_t j, const size_t k ) const
     assert( i <  fieldWindow_.extent(0) );
     assert( j <  fieldWindow_.extent(1) );
     assert( k <  fieldWindow_.extent(2) );
-    assert( i >= fieldWindow_.offset(0) );
-    assert( j >= fieldWindow_.offset(1) );
-    assert( k >= fieldWindow_.offset(2) );
 #   endif
     IntVec ijk(i,j,k);
     return fieldValues_[fieldWindow_.flat_index(ijk)];
@@ -1342,9 +1336,9 @@ operator()( const IntVec& ijk ) const
 {
   if( memType_ == LOCAL_RAM || fieldValues_ != NULL ){
 #   ifndef NDEBUG
-    assert( (size_t)ijk[0] < fieldWindow_.extent(0) && (size_t)ijk[0] >= fieldWindow_.offset(0) );
-    assert( (size_t)ijk[1] < fieldWindow_.extent(1) && (size_t)ijk[1] >= fieldWindow_.offset(1) );
-    assert( (size_t)ijk[2] < fieldWindow_.extent(2) && (size_t)ijk[2] >= fieldWindow_.offset(2) );
+    assert( (size_t)ijk[0] < fieldWindow_.extent(0) );
+    assert( (size_t)ijk[1] < fieldWindow_.extent(1) );
+    assert( (size_t)ijk[2] < fieldWindow_.extent(2) );
 #   endif
     return fieldValues_[fieldWindow_.flat_index(ijk)];
   } else {
-- 
2.43.0


From 44dc4595158dc4444b29ba5a6371d63ad9f2b3d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:34 +0000
Subject: [PATCH 15/22] fix: the derivative of GaussianFunction

It had (x-xo)^2 in place of (x-xo), lacked the amplitude and added the offset yo.
---
 spatialops/FieldFunctions.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spatialops/FieldFunctions.h b/spatialops/FieldFunctions.h
index cd4ae08..85c93c4 100644
--- a/spatialops/FieldFunctions.h
+++ b/spatialops/FieldFunctions.h
@@ -647,7 +647,7 @@ dx( FieldT& f ) const
 {
   this->set_fields();
   const FieldT& x = this->get_x();
-  f <<= -2/b_ * (x-xo_)*(x-xo_)*exp(-1.0/b_ * (x-xo_)*(x-xo_) ) + yo_;
+  f <<= -2/b_ * (x-xo_) * ( a_*exp(-1.0/b_ * (x-xo_)*(x-xo_) ) );
 }
 //------------------------------------------------------------------
 template<typename FieldT, typename PatchT>
-- 
2.43.0


From b6a26f4fe13ce77d50cd511a8b34c36eab4a3d1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:34 +0000
Subject: [PATCH 16/22] fix: boundary conditions on a list of points were
 imposed elsewhere

The flat indices come from flat_index, which counts from the start of the field's memory, but were
decoded as indices local to the window.
---
 spatialops/structured/stencil/FVStaggeredBCOp.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spatialops/structured/stencil/FVStaggeredBCOp.h b/spatialops/structured/stencil/FVStaggeredBCOp.h
index a77e81a..1360664 100644
--- a/spatialops/structured/stencil/FVStaggeredBCOp.h
+++ b/spatialops/structured/stencil/FVStaggeredBCOp.h
@@ -234,8 +234,8 @@ namespace structured{
       std::vector<int>::const_iterator ia = flatGhostPoints_.begin(); // ia is the ghost flat index
       std::vector<int>::const_iterator ib = flatInteriorPoints_.begin(); // ib is the interior flat index
       for( ; ia != flatGhostPoints_.end(); ++ia, ++ib ){
-        const MemoryWindow wa( w.glob_dim(), w.offset()+w.ijk_index_from_local(*ia), IntVec(1,1,1) );
-        const MemoryWindow wb( w.glob_dim(), w.offset()+w.ijk_index_from_local(*ib), IntVec(1,1,1) );
+        const MemoryWindow wa( w.glob_dim(), w.ijk_index_from_global(*ia), IntVec(1,1,1) );
+        const MemoryWindow wb( w.glob_dim(), w.ijk_index_from_global(*ib), IntVec(1,1,1) );
         SrcFieldT fa( wa, f );
         SrcFieldT fb( wb, f );
         fa <<= ( bcEval_() - cb_ * fb ) / ca_;
-- 
2.43.0


From 5c8b6590fdc234c9ad88496ae784d060be1fd580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:34 +0000
Subject: [PATCH 17/22] fix: particle operators ignored the origin of the mesh

The cell that holds a particle's left edge was computed as if the first mesh coordinate were -dx/2.
---
 spatialops/particles/ParticleOperators.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spatialops/particles/ParticleOperators.h b/spatialops/particles/ParticleOperators.h
index 6e1ea93..bd00184 100644
--- a/spatialops/particles/ParticleOperators.h
+++ b/spatialops/particles/ParticleOperators.h
@@ -158,7 +158,7 @@ namespace Particle{
       //identify the location of the particle right boundary
       const double rightloc = *plociter+( 0.5 * *psizeiter );
       //identify the cell index where particle left boundary located
-      int leftcellIx1 = int((*plociter-( 0.5 * *psizeiter )) / dx_) + 1;
+      int leftcellIx1 = int( std::floor( (leftloc-xo_)/dx_ + 0.5 ) );
 #     ifndef NDEBUG
       if( (leftcellIx1 >= nmax) || (leftcellIx1<0) ){
         throw std::runtime_error( "Particle is outside of the domain!" );
@@ -219,7 +219,7 @@ namespace Particle{
     for( ; plociter!=particleCoord.end(); ++plociter, ++destiter, ++psizeiter ){
       double leftloc = *plociter-( *psizeiter / 2.0) ;
       const double rightloc = *plociter+( *psizeiter / 2.0) ;
-      int leftcellIx1 = int((*plociter-( *psizeiter / 2.0)) / dx_) + 1;
+      int leftcellIx1 = int( std::floor( (leftloc-xo_)/dx_ + 0.5 ) );
 #     ifndef NDEBUG
       if( leftcellIx1 >= nmax || leftcellIx1<0 ){
         throw std::runtime_error( "Particle is outside of the domain!" );
-- 
2.43.0


From b8d859a12f3ac1777975f1ab1d9322031527bb91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:32 +0000
Subject: [PATCH 18/22] fix: a worker ended by its task undid a pending shrink

---
 spatialops/threadpool/threadpool/detail/pool_core.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/spatialops/threadpool/threadpool/detail/pool_core.hpp b/spatialops/threadpool/threadpool/detail/pool_core.hpp
index fdbb2ee..7556fd1 100755
--- a/spatialops/threadpool/threadpool/detail/pool_core.hpp
+++ b/spatialops/threadpool/threadpool/detail/pool_core.hpp
@@ -371,7 +371,13 @@ namespace boost { namespace threadpool { namespace detail
       }
       else
       {
-        lockedThis->m_size_policy->worker_died_unexpectedly(m_worker_count);
+        // it frees its share of the active limit
+        lockedThis->m_task_or_terminate_workers_event.notify_one();
+
+        if(m_worker_count < m_target_worker_count)   // a surplus worker is not replaced
+        {
+          lockedThis->m_size_policy->worker_died_unexpectedly(m_worker_count);
+        }
       }
     }
 
-- 
2.43.0


From 8bdff8f44c2b9d43d3f8a588ea41389912a69dd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:30 +0000
Subject: [PATCH 19/22] fix: a worker whose handle could not be allocated ran
 uncounted

---
 spatialops/threadpool/threadpool/detail/worker_thread.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/spatialops/threadpool/threadpool/detail/worker_thread.hpp b/spatialops/threadpool/threadpool/detail/worker_thread.hpp
index f4a8e48..f0d4a09 100755
--- a/spatialops/threadpool/threadpool/detail/worker_thread.hpp
+++ b/spatialops/threadpool/threadpool/detail/worker_thread.hpp
@@ -95,7 +95,9 @@ namespace boost { namespace threadpool { namespace detail
 		  shared_ptr<worker_thread> worker(new worker_thread(pool));
 		  if(worker)
 		  {
-			  worker->m_thread.reset(new boost::thread(bind(&worker_thread::run, worker)));
+			  // obtain what can fail before the thread starts to run
+			  worker->m_thread.reset(new boost::thread());
+			  *worker->m_thread = boost::thread(bind(&worker_thread::run, worker));
 		  }
 	  }
 
-- 
2.43.0


From 62e423dd3c3f24fe0f1c0511b092fe5d0d067897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:10 +0000
Subject: [PATCH 20/22] fix: field comparisons with a tolerance took NaN, and
 infinity against a number, for equal

---
 spatialops/structured/FieldComparisons.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/spatialops/structured/FieldComparisons.h b/spatialops/structured/FieldComparisons.h
index ad1745b..a160835 100644
--- a/spatialops/structured/FieldComparisons.h
+++ b/spatialops/structured/FieldComparisons.h
@@ -187,7 +187,7 @@ bool field_equal(const FieldT& f1, const FieldT& f2, double error, const double
     else {
       const double denom = std::abs(**if1) + error_abs;
 
-      if (std::abs(**if1 - **if2)/denom > error) {
+      if (**if1 != **if2 && !(std::abs(**if1 - **if2)/denom <= error)) {  // NaN is never within the tolerance
         result =  false;
         break;
       }
@@ -276,7 +276,7 @@ bool field_equal_abs(const FieldT& f1, const FieldT& f2, double error=0.0)
       }
     }
     else {
-      if(std::abs(**if1 - **if2) > error) {
+      if(**if1 != **if2 && !(std::abs(**if1 - **if2) <= error)) {  // NaN is never within the tolerance
         result = false;
         break;
       }
@@ -508,7 +508,7 @@ bool field_equal(const double d, const FieldT& f1, double error, const double er
     }
     else {
 
-      if (std::abs(d - **if1)/denom > error) {
+      if (d != **if1 && !(std::abs(d - **if1)/denom <= error)) {  // NaN is never within the tolerance
         result =  false;
         break;
       }
@@ -583,7 +583,7 @@ bool field_equal_abs(const double d, const FieldT& f1, double error=0.0)
       }
     }
     else {
-      if(std::abs(d - **if1) > error) {
+      if(d != **if1 && !(std::abs(d - **if1) <= error)) {  // NaN is never within the tolerance
         result = false;
         break;
       }
-- 
2.43.0


From 86e088ef5c3b6a438c3d65c25118034da68047c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:11 +0000
Subject: [PATCH 21/22] fix: Lagrange interpolation of order 0 had no
 coefficients and read past its indices

---
 spatialops/structured/onedim/LagrangePoly.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spatialops/structured/onedim/LagrangePoly.cpp b/spatialops/structured/onedim/LagrangePoly.cpp
index 903acde..373a669 100644
--- a/spatialops/structured/onedim/LagrangePoly.cpp
+++ b/spatialops/structured/onedim/LagrangePoly.cpp
@@ -138,7 +138,7 @@ get_interp_coefs_indices( const double x,
     double coef = 1.0;
 
     // assemble this coefficient.
-    bool haveEntry = false;
+    bool haveEntry = (polyOrder==0); // a polynomial of order 0 has an empty product
     for( int i=ilo-nlo+1; i!=ilo+nhi+1; ++i ){
       const double xi = xpts_[i];
       if( xk != xi ){
@@ -180,7 +180,7 @@ get_derivative_coefs_indices( const double x,
     cout << endl << "k=" << k << " of " << polyOrder << endl;
     cout << "  den = ";
 #endif
-    bool haveEntry = false;
+    bool haveEntry = (polyOrder==0); // a polynomial of order 0 has an empty product
     double den = 1.0;
     for( int i=ilo-nlo+1; i!=ilo+nhi+1; ++i ){
       const double xi = xpts_[i];
-- 
2.43.0


From 7cd34f7c075a6d4191971a334e38e6f59460fef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:21 +0000
Subject: [PATCH 22/22] fix: one Lagrange interpolant or derivative could not
 be used by several threads

---
 spatialops/structured/onedim/LagrangePoly.cpp | 22 ++++++++++++-------
 spatialops/structured/onedim/LagrangePoly.h   |  4 ----
 2 files changed, 14 insertions(+), 12 deletions(-)

diff --git a/spatialops/structured/onedim/LagrangePoly.cpp b/spatialops/structured/onedim/LagrangePoly.cpp
index 373a669..259cbdc 100644
--- a/spatialops/structured/onedim/LagrangePoly.cpp
+++ b/spatialops/structured/onedim/LagrangePoly.cpp
@@ -253,11 +253,14 @@ double
 LagrangeInterpolant::value( const double x,
                             const int order ) const
 {
-  coefs_.get_interp_coefs_indices( x, order, coefVals_, indices_ );
+  // not members: the object may be used by several threads at once
+  std::vector<double> coefVals;
+  std::vector<int> indices;
+  coefs_.get_interp_coefs_indices( x, order, coefVals, indices );
   double val = 0.0;
-  std::vector<double>::const_iterator icoef = coefVals_.begin();
-  std::vector<double>::const_iterator iy    = ypts_    .begin() + indices_[0];
-  for( ; icoef!=coefVals_.end(); ++icoef, ++iy ){
+  std::vector<double>::const_iterator icoef = coefVals.begin();
+  std::vector<double>::const_iterator iy    = ypts_    .begin() + indices[0];
+  for( ; icoef!=coefVals.end(); ++icoef, ++iy ){
     val += *iy * *icoef;
   }
   return val;
@@ -304,11 +307,14 @@ LagrangeDerivative::~LagrangeDerivative()
 double
 LagrangeDerivative::value( const double x, const int order ) const
 {
-  coefs_.get_derivative_coefs_indices( x, order, coefVals_, indices_ );
+  // not members: the object may be used by several threads at once
+  std::vector<double> coefVals;
+  std::vector<int> indices;
+  coefs_.get_derivative_coefs_indices( x, order, coefVals, indices );
   double val = 0.0;
-  std::vector<double>::const_iterator icoef = coefVals_.begin();
-  std::vector<double>::const_iterator iy    = ypts_    .begin() + indices_[0];
-  for( ; icoef!=coefVals_.end(); ++icoef, ++iy ){
+  std::vector<double>::const_iterator icoef = coefVals.begin();
+  std::vector<double>::const_iterator iy    = ypts_    .begin() + indices[0];
+  for( ; icoef!=coefVals.end(); ++icoef, ++iy ){
     val += *iy * *icoef;
   }
   return val;
diff --git a/spatialops/structured/onedim/LagrangePoly.h b/spatialops/structured/onedim/LagrangePoly.h
index 2bfb9e2..c5d607b 100644
--- a/spatialops/structured/onedim/LagrangePoly.h
+++ b/spatialops/structured/onedim/LagrangePoly.h
@@ -161,8 +161,6 @@ private:
   const LagrangeCoefficients coefs_;
   const std::vector<double> ypts_;
   const int order_;
-  mutable std::vector<double> coefVals_;
-  mutable std::vector<int> indices_;
 };
 
 
@@ -237,8 +235,6 @@ private:
   const LagrangeCoefficients coefs_;
   const std::vector<double> ypts_;
   const int order_;
-  mutable std::vector<double> coefVals_;
-  mutable std::vector<int> indices_;
 };
 
 
-- 
2.43.0

