From c96ac6a35a0f13eeb242f97412c03fb739a0bef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:30 +0000
Subject: [PATCH 01/64] fix: seed computation of an event loop overflowed a
 signed integer

---
 src/kselector_manager.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kselector_manager.c b/src/kselector_manager.c
index 34e34fb..a310200 100644
--- a/src/kselector_manager.c
+++ b/src/kselector_manager.c
@@ -43,7 +43,7 @@ static kgl_selector_manager_callback *thread_init = NULL;
 extern void(*kgl_second_change_hook)();
 void kselector_init(kselector* selector)
 {
-	srand((unsigned)(time(NULL) * (int64_t)pthread_self()));
+	srand((unsigned)((uint64_t)time(NULL) * (uint64_t)pthread_self()));
 	pthread_setspecific(kgl_selector_key, selector);
 	selector->thread_id = pthread_self();
 	kgl_selector_manager_callback* cb = thread_init;
-- 
2.43.0


From f02be04a76ce24797ba11ebeed7257dfe7d56cea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:01 +0000
Subject: [PATCH 02/64] fix: fiber rwlock write unlock deadlocked on readers
 that release at once

---
 include/kfiber_sync.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/kfiber_sync.h b/include/kfiber_sync.h
index 5ee8ea5..833cc5f 100644
--- a/include/kfiber_sync.h
+++ b/include/kfiber_sync.h
@@ -194,14 +194,14 @@ INLINE int kfiber_rwlock_wunlock(kfiber_rwlock* mutex) {
 	mutex->cnt = 0;
 	if (mutex->reader) {
 		kfiber_waiter* waiter = mutex->reader;
+		kfiber_waiter* next;
 		mutex->reader = NULL;
-		while (waiter) {
+		for (next = waiter; next; next = next->next) {
 			mutex->cnt++;
-			kfiber_waiter* next = waiter->next;
-			kfiber_wakeup_waiter(waiter, 0);
-			waiter = next;
 		}
+		/* a woken reader may use the lock at once, on this very thread */
 		kmutex_unlock(&mutex->lock);
+		kfiber_wakeup_all_waiter(waiter, 0);
 		return 0;
 	}
 	return __kfiber_rwlock_try_wakeup_writer(mutex);
-- 
2.43.0


From f73a5d07e2393e89d7d7c33b26c6c2df5de89eef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:01 +0000
Subject: [PATCH 03/64] fix: thread event wait ignored spurious wake-ups and
 reset manual-reset events

---
 include/ksync.h | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/include/ksync.h b/include/ksync.h
index c34a859..f4acf90 100644
--- a/include/ksync.h
+++ b/include/ksync.h
@@ -55,12 +55,9 @@ INLINE void kcond_wait(kcond *cond)
 	WaitForSingleObject(cond, INFINITE);
 #else
 	kmutex_lock(&cond->mutex);
-	if (cond->ev) {
-		cond->ev = false;
-		kmutex_unlock(&cond->mutex);
-		return;
+	while (!cond->ev) {
+		pthread_cond_wait(&cond->cond, &cond->mutex);
 	}
-	pthread_cond_wait(&cond->cond, &cond->mutex);
 	if (cond->auto_reset) {
 		cond->ev = false;
 	}
@@ -73,7 +70,9 @@ INLINE bool kcond_try_wait(kcond* cond, int msec) {
 #else
 	kmutex_lock(&cond->mutex);
 	if (cond->ev) {
-		cond->ev = false;
+		if (cond->auto_reset) {
+			cond->ev = false;
+		}
 		kmutex_unlock(&cond->mutex);
 		return true;
 	}
-- 
2.43.0


From 226b3000e54d4515717f28eb2d75705d2a63f3bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:01 +0000
Subject: [PATCH 04/64] fix: callback lock of a fiber mutex was unusable on
 loops and not counted

---
 src/kfiber_sync.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/kfiber_sync.c b/src/kfiber_sync.c
index 0ab8567..88ba40a 100644
--- a/src/kfiber_sync.c
+++ b/src/kfiber_sync.c
@@ -10,8 +10,9 @@
 //mutext
 kev_result kfiber_mutex_lock2(kfiber_mutex* mutex, KOPAQUE data, result_callback notice, void* arg)
 {
-	kassert(kfiber_self2() == NULL);
+	kassert(kfiber_is_main());
 	kmutex_lock(&mutex->lock);
+	mutex->count++;
 	if (mutex->worker < mutex->limit) {
 		mutex->worker++;
 		kmutex_unlock(&mutex->lock);
-- 
2.43.0


From 0f48d3ae1db4ef72df172f774affa6cd6accc8e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:02 +0000
Subject: [PATCH 05/64] fix: lowering the limit of a fiber mutex was ignored
 while fibers waited

---
 include/kfiber_sync.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/kfiber_sync.h b/include/kfiber_sync.h
index 833cc5f..80af593 100644
--- a/include/kfiber_sync.h
+++ b/include/kfiber_sync.h
@@ -110,8 +110,8 @@ INLINE int kfiber_mutex_unlock(kfiber_mutex* mutex) {
 	assert(mutex->count > 0);
 	mutex->count--;
 	kfiber_waiter* waiter = mutex->waiter;
-	if (waiter == NULL) {
-		assert(mutex->worker > 0);
+	assert(mutex->worker > 0);
+	if (waiter == NULL || mutex->worker > mutex->limit) {
 		mutex->worker--;
 		kmutex_unlock(&mutex->lock);
 		return 0;
-- 
2.43.0


From e9eeaf6dec4e2c553c21b9c5fd8dda5a8e12f275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:02 +0000
Subject: [PATCH 06/64] fix: failure to start a worker thread corrupted the
 worker reference count

---
 src/kasync_worker.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kasync_worker.c b/src/kasync_worker.c
index 23b4767..1e0dd8b 100644
--- a/src/kasync_worker.c
+++ b/src/kasync_worker.c
@@ -109,7 +109,7 @@ static void kasync_worker_add(kasync_worker *worker, kasync_worker_param *rq, bo
 	worker->worker++;
 	kasync_worker_refs(worker);
 	if (!kthread_pool_start(kasync_worker_worker_thread,worker)) {
-		worker--;
+		worker->worker--;
 		kasync_worker_release(worker);
 	}
 	return;
-- 
2.43.0


From c819e2ca12c06c7e081dc6246c8a38ea7611e6b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:53 +0000
Subject: [PATCH 07/64] fix: only one of several joiners or exit callbacks of a
 fiber was told of its end

kfiber_ref_self and kfiber_exit_callback created an auto-reset close
condition, so the single notification at exit released one waiter only.
---
 src/kfiber.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/kfiber.c b/src/kfiber.c
index 84f1c20..338680c 100644
--- a/src/kfiber.c
+++ b/src/kfiber.c
@@ -333,7 +333,7 @@ int kfiber_exit_callback(KOPAQUE data, result_callback notice, void* arg) {
 	kfiber* fiber = kfiber_self2();
 	CHECK_FIBER(fiber);
 	if (fiber->close_cond == NULL) {
-		fiber->close_cond = kfiber_cond_init(true);
+		fiber->close_cond = kfiber_cond_init(false);
 	}
 	return fiber->close_cond->f->wait_callback(fiber->close_cond, data, notice, arg);
 }
@@ -342,9 +342,9 @@ kfiber* kfiber_ref_self(bool thread_safe) {
 	assert(fiber && !kfiber_is_main_fiber(fiber));
 	if (fiber->close_cond == NULL) {
 		if (thread_safe) {
-			fiber->close_cond = kfiber_cond_init_ts(true);
+			fiber->close_cond = kfiber_cond_init_ts(false);
 		} else {
-			fiber->close_cond = kfiber_cond_init(true);
+			fiber->close_cond = kfiber_cond_init(false);
 		}
 	}
 	katom_inc((void*)&fiber->base.ref);
-- 
2.43.0


From 7eb197cc14097004960abdb78eab4c40234b012d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:18 +0000
Subject: [PATCH 08/64] fix: joining an already finished fiber with a callback
 reported 0 instead of its result

A callback wait on a manual-reset condition that was already notified
now receives the notified value.
---
 include/kfiber_internal.h | 1 +
 src/kfiber_sync.c         | 7 +++++--
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/kfiber_internal.h b/include/kfiber_internal.h
index 4e4890d..642721e 100644
--- a/include/kfiber_internal.h
+++ b/include/kfiber_internal.h
@@ -100,6 +100,7 @@ struct _kfiber_cond {
 	kfiber_cond_function* f;
 	kfiber_waiter* waiter;
 	volatile int32_t ev;
+	int got;/* last notice value of a manual-reset cond */
 };
 typedef struct _kfiber_event_waiter {
 	kgl_base_selectable base;
diff --git a/src/kfiber_sync.c b/src/kfiber_sync.c
index 88ba40a..6f57cfc 100644
--- a/src/kfiber_sync.c
+++ b/src/kfiber_sync.c
@@ -49,7 +49,7 @@ kev_result kfiber_cond_wait_callback_ar(kfiber_cond* fc, KOPAQUE data, result_ca
 kev_result kfiber_cond_wait_callback(kfiber_cond * fc, KOPAQUE data, result_callback notice, void* arg)
 {
 	if (fc->ev>0) {
-		kgl_selector_module.next(kgl_get_tls_selector(), data, notice, arg, 0);
+		kgl_selector_module.next(kgl_get_tls_selector(), data, notice, arg, fc->got);
 		return kev_ok;		
 	}
 	kfiber_add_ev_waiter(&fc->waiter, kgl_get_tls_selector(), data, notice, arg);
@@ -75,8 +75,9 @@ kev_result kfiber_cond_wait_callback_ts(kfiber_cond* fc, KOPAQUE data, result_ca
 	kfiber_cond_ts* fcs = (kfiber_cond_ts*)fc;
 	kmutex_lock(&fcs->lock);
 	if (fc->ev > 0) {
+		int got = fc->got;
 		kmutex_unlock(&fcs->lock);
-		kgl_selector_module.next(kgl_get_tls_selector(), data, notice, arg, 0);
+		kgl_selector_module.next(kgl_get_tls_selector(), data, notice, arg, got);
 		return kev_ok;
 	}
 	kfiber_add_ev_waiter(&fc->waiter, kgl_get_tls_selector(), data, notice, arg);
@@ -114,6 +115,7 @@ int kfiber_cond_notice_ts(kfiber_cond* fc,int got)
 	kfiber_cond_ts* fcs = (kfiber_cond_ts*)fc;
 	kmutex_lock(&fcs->lock);
 	fc->ev = 1;
+	fc->got = got;
 	kfiber_waiter* waiter = fc->waiter;
 	fc->waiter = NULL;
 	kmutex_unlock(&fcs->lock);
@@ -124,6 +126,7 @@ int kfiber_cond_notice_ts(kfiber_cond* fc,int got)
 int kfiber_cond_notice(kfiber_cond* fc,int got)
 {
 	fc->ev = 1;
+	fc->got = got;
 	kfiber_waiter* waiter = fc->waiter;
 	fc->waiter = NULL;
 	kfiber_wakeup_all_waiter(waiter,got);
-- 
2.43.0


From 404fb877e061db222fe5f334f06ec0c6c1430e8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:55 +0000
Subject: [PATCH 09/64] fix: a worker pool whose thread starts failed with a
 full queue refused work for ever

---
 src/kasync_worker.c | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/src/kasync_worker.c b/src/kasync_worker.c
index 1e0dd8b..ba5c2b4 100644
--- a/src/kasync_worker.c
+++ b/src/kasync_worker.c
@@ -85,6 +85,18 @@ bool kasync_worker_thread_start(void *param, kasync_worker_callback cb)
 	xfree(p);
 	return false;
 }
+static void kasync_worker_start_thread(kasync_worker *worker)
+{
+	if (worker->worker >= worker->max_worker) {
+		return;
+	}
+	worker->worker++;
+	kasync_worker_refs(worker);
+	if (!kthread_pool_start(kasync_worker_worker_thread,worker)) {
+		worker->worker--;
+		kasync_worker_release(worker);
+	}
+}
 static void kasync_worker_add(kasync_worker *worker, kasync_worker_param *rq, bool high)
 {
 	worker->queue++;
@@ -103,21 +115,14 @@ static void kasync_worker_add(kasync_worker *worker, kasync_worker_param *rq, bo
 			worker->last = rq;
 		}
 	}
-	if (worker->worker >= worker->max_worker) {
-		return;
-	}
-	worker->worker++;
-	kasync_worker_refs(worker);
-	if (!kthread_pool_start(kasync_worker_worker_thread,worker)) {
-		worker->worker--;
-		kasync_worker_release(worker);
-	}
-	return;
+	kasync_worker_start_thread(worker);
 }
 bool kasync_worker_try_start(kasync_worker *worker, void *data, kasync_worker_callback cb, bool high)
 {
 	kmutex_lock(&worker->lock);
 	if (worker->max_queue > 0 && worker->queue > worker->max_queue) {
+		//an earlier start of a worker thread may have failed
+		kasync_worker_start_thread(worker);
 		kmutex_unlock(&worker->lock);
 		return false;
 	}
-- 
2.43.0


From face5932e6ad00f13041fcb0febb32222294dd15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:03 +0000
Subject: [PATCH 10/64] fix: a tick callback that closed the next tick left the
 loop with a freed list node

---
 include/kselector.h |  1 +
 src/kselector.c     | 11 ++++++++---
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/include/kselector.h b/include/kselector.h
index 94d61d9..769bbf9 100644
--- a/include/kselector.h
+++ b/include/kselector.h
@@ -116,6 +116,7 @@ struct kselector_s
 	int timeout[KGL_LIST_COUNT];
 	kgl_list list[KGL_LIST_COUNT];
 	kgl_list tick;
+	kgl_list* tick_next;
 	struct krb_root block;
 	struct krb_node* block_first;
 	kfiber* current;
diff --git a/src/kselector.c b/src/kselector.c
index e48d8d4..33e0711 100644
--- a/src/kselector.c
+++ b/src/kselector.c
@@ -150,7 +150,7 @@ void kselector_update_time()
 }
 int kselector_check_timeout(kselector *selector,int event_number)
 {
-	kgl_list* tick_list,*tick_next_list;
+	kgl_list* tick_list;
 	kselector_tick* tick;
 	struct krb_node *block = NULL;
 	struct krb_node *last = NULL;
@@ -270,13 +270,15 @@ int kselector_check_timeout(kselector *selector,int event_number)
 
 	while (tick_list != &selector->tick) {
 		tick = kgl_list_data(tick_list, kselector_tick, queue);
-		tick_next_list = tick_list->next;
+		//a tick callback may close any tick
+		selector->tick_next = tick_list->next;
 		int next_event_time = tick->cb(tick->arg, event_number);
 		if (next_event_time > 0 && next_event_time < min_event_time) {
 			min_event_time = next_event_time;
 		}
-		tick_list = tick_next_list;
+		tick_list = selector->tick_next;
 	}
+	selector->tick_next = NULL;
 	return min_event_time;
 }
 void kselector_add_block_queue(kselector *selector, kgl_block_queue *brq)
@@ -346,6 +348,9 @@ bool kselector_close_tick(kselector_tick* tick)
 	if (selector == NULL) {
 		return false;
 	}
+	if (selector->tick_next == &tick->queue) {
+		selector->tick_next = tick->queue.next;
+	}
 	klist_remove(&tick->queue);
 	xfree(tick);
 	return true;
-- 
2.43.0


From 4d492dc01b6ff1cd0097cae6602685bc1a263ac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:35 +0000
Subject: [PATCH 11/64] fix: setting the clock back stalled the timers of the
 kasync_main loop

---
 src/kselector_manager.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/kselector_manager.c b/src/kselector_manager.c
index a310200..6a4dd23 100644
--- a/src/kselector_manager.c
+++ b/src/kselector_manager.c
@@ -185,6 +185,11 @@ void selector_manager_adjust_time(int64_t diff_msec)
 	for (int i = 0; i < kgl_selector_count; i++) {
 		kselector_adjust_time(kgl_selectors[i], diff_msec);
 	}
+	//the private selector of kasync_main
+	kselector* selector = kgl_get_tls_selector();
+	if (selector && selector->aysnc_main) {
+		kselector_adjust_time(selector, diff_msec);
+	}
 }
 static kev_result kthread_flush_timer(KOPAQUE data, void *arg, int got)
 {
-- 
2.43.0


From c477b9ee880d9904055ff79a9ea42b5c444a37f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:35 +0000
Subject: [PATCH 12/64] fix: a second kasync_main on one thread used the freed
 main fiber of the first

---
 src/kfiber.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/kfiber.c b/src/kfiber.c
index 338680c..0d17151 100644
--- a/src/kfiber.c
+++ b/src/kfiber.c
@@ -178,6 +178,7 @@ kev_result kfiber_thread_init(KOPAQUE data, void* arg, int got) {
 		//exit
 		kfiber* fiber = kfiber_main();
 		if (fiber) {
+			pthread_setspecific(kgl_main_fiber_key, NULL);
 			xfree(fiber);
 		}
 		return kev_ok;
-- 
2.43.0


From f9a47a76b01ce7b53aeb56a7ef6f60b8ecd3b135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:04 +0000
Subject: [PATCH 13/64] fix: setting the clock back fired timers of other loops
 that were adjusted before the time was set

---
 src/kselector.c | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/kselector.c b/src/kselector.c
index 33e0711..d98209d 100644
--- a/src/kselector.c
+++ b/src/kselector.c
@@ -135,18 +135,21 @@ void kselector_update_time()
 {	
 	struct timeval   tv;
 	gettimeofday(&tv, NULL);
+	int64_t now_msec = (int64_t)tv.tv_sec * 1000 + (tv.tv_usec / 1000);
 	if (unlikely(kgl_current_sec != tv.tv_sec)) {
-		if (unlikely(tv.tv_sec < kgl_current_sec)) {
-			int64_t diff_msec = (int64_t)tv.tv_sec * 1000 + (tv.tv_usec / 1000) - kgl_current_msec;
-			selector_manager_adjust_time(diff_msec);
-		}		
+		bool set_back = (tv.tv_sec < kgl_current_sec);
+		int64_t diff_msec = now_msec - kgl_current_msec;
+		//the other selectors must see the new time before they adjust their timers
 		kgl_current_sec = tv.tv_sec;
+		kgl_current_msec = now_msec;
+		if (unlikely(set_back)) {
+			selector_manager_adjust_time(diff_msec);
+		}
 		if (kgl_second_change_hook) {
 			kgl_second_change_hook();
 		}
 	}
-	kgl_current_msec = (int64_t)tv.tv_sec * 1000 + (tv.tv_usec / 1000);
-	return;
+	kgl_current_msec = now_msec;
 }
 int kselector_check_timeout(kselector *selector,int event_number)
 {
-- 
2.43.0


From bec79e788f72b35a2e36e42bab14f4c5e0243aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:06 +0000
Subject: [PATCH 14/64] fix: rbtree_int_cmp overflowed for keys far apart and
 ordered them wrongly

---
 src/krbtree.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/krbtree.c b/src/krbtree.c
index cb7c9ea..e173962 100644
--- a/src/krbtree.c
+++ b/src/krbtree.c
@@ -33,7 +33,7 @@ int rbtree_int_cmp(const void *key1, const void *key2)
 {
 	int *k1 = (int *)key1;
 	int *k2 = (int *)key2;
-	return *k1 - *k2;
+	return (*k1 > *k2) - (*k1 < *k2);
 }
 static inline void rb_set_parent(struct krb_node *rb, struct krb_node *p)
 {
-- 
2.43.0


From 88a5d06cb4c70331ec97d30bc21202f4ff4b12e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:06 +0000
Subject: [PATCH 15/64] fix: krw_insert before a partly read buffer made its
 read bytes come again

---
 src/kbuf.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/kbuf.c b/src/kbuf.c
index c839c5b..8d9e32f 100644
--- a/src/kbuf.c
+++ b/src/kbuf.c
@@ -36,6 +36,16 @@ void krw_insert(krw_buffer* rw_buffer, kbuf* buf) {
 		krw_append(rw_buffer, buf);
 		return;
 	}
+	int consumed = (int)(rw_buffer->read_hot - rw_buffer->head->data);
+	if (consumed > 0) {
+		/* drop what was read of the old head, read_hot moves to the inserted buffer */
+		kbuf* head = rw_buffer->head;
+		head->used -= consumed;
+		memmove(head->data, rw_buffer->read_hot, head->used);
+		if (rw_buffer->write_hot && rw_buffer->write_hot_buf == head) {
+			rw_buffer->write_hot -= consumed;
+		}
+	}
 	buf->next = rw_buffer->head;
 	rw_buffer->head = buf;
 	rw_buffer->total_len += buf->used;
-- 
2.43.0


From 96143e34ebd9d04b36166c83dc8293d1439bb6af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:06 +0000
Subject: [PATCH 16/64] fix: aligned pool allocation ran past a pool block
 whose end is not aligned

---
 src/kmalloc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kmalloc.c b/src/kmalloc.c
index beb0b3e..83458fb 100644
--- a/src/kmalloc.c
+++ b/src/kmalloc.c
@@ -54,7 +54,7 @@ static INLINE void* kgl_palloc_small(kgl_pool_t* pool, size_t size, size_t align
 			m = (char*)kgl_align_ptr(m, KGL_ALIGNMENT);
 		}
 
-		if ((size_t)(p->d.end - m) >= size) {
+		if (m <= p->d.end && (size_t)(p->d.end - m) >= size) {
 			p->d.last = m + size;
 
 			return m;
-- 
2.43.0


From 4263c64e3e09e9fc6aaaa24afa46fdf96daebacc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:06 +0000
Subject: [PATCH 17/64] fix: kstring_from2 kept fewer bytes than its length
 when the bytes contain a zero

---
 include/kstring.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/kstring.h b/include/kstring.h
index 1245526..26c8e0b 100644
--- a/include/kstring.h
+++ b/include/kstring.h
@@ -58,7 +58,12 @@ INLINE kgl_ref_str_t* kstring_from(const char* str) {
 	return NULL;
 }
 INLINE kgl_ref_str_t* kstring_from2(const char* str, size_t len) {
-	return convert_refs_string(kgl_strndup(str, len), len);
+	char* data = (char*)xmalloc(len + 1);
+	if (len > 0) {
+		kgl_memcpy(data, str, len);
+	}
+	data[len] = '\0';
+	return convert_refs_string(data, len);
 }
 #if 0
 INLINE kgl_ref_str_t* kstring_clone(const kgl_ref_str_t* s) {
-- 
2.43.0


From 411afb165478a89615d8c2c01ee0d7e1c8b34f7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:06 +0000
Subject: [PATCH 18/64] fix: hash of an IPv4 ip_addr included the unused bytes
 of the address

---
 include/ksocket.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/ksocket.h b/include/ksocket.h
index 434bdd2..9bcd061 100644
--- a/include/ksocket.h
+++ b/include/ksocket.h
@@ -115,6 +115,9 @@ struct ip_addr_s {
 	}
 	unsigned get_hash()
 	{
+		if (sin_family == PF_INET) {
+			return addr32[0];
+		}
 		unsigned h = 0;
 		for (int i = 0; i < 4; i++) {
 			h ^= addr32[i];
-- 
2.43.0


From fbfdd4bade3517f0f15e0288d6d1b996bafade7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:06 +0000
Subject: [PATCH 19/64] fix: comparison of IPv4 addresses overflowed and was no
 ordering

---
 include/ksocket.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/ksocket.h b/include/ksocket.h
index 9bcd061..8ef3627 100644
--- a/include/ksocket.h
+++ b/include/ksocket.h
@@ -154,7 +154,7 @@ INLINE int ksocket_addr_compare(const sockaddr_i *a, const sockaddr_i *b)
 	}
 	if (a->v4.sin_family == PF_INET)
 #endif
-	return (int)a->v4.sin_addr.s_addr - (int)b->v4.sin_addr.s_addr;
+	return (a->v4.sin_addr.s_addr > b->v4.sin_addr.s_addr) - (a->v4.sin_addr.s_addr < b->v4.sin_addr.s_addr);
 #ifdef KSOCKET_IPV6
 	return memcmp(&a->v6.sin6_addr, &b->v6.sin6_addr, sizeof(a->v6.sin6_addr));
 #endif
@@ -194,7 +194,7 @@ INLINE int ksocket_ipaddr_compare(ip_addr *a, ip_addr *b)
 		return ret;
 	}
 	if (a->sin_family == PF_INET) {
-		return (int)a->addr32[0] - (int)b->addr32[0];
+		return (a->addr32[0] > b->addr32[0]) - (a->addr32[0] < b->addr32[0]);
 	}
 	return memcmp(a->addr8, b->addr8, sizeof(a->addr8));
 #else
-- 
2.43.0


From 157c27c9c1b9dbd028845545512db5138a6368c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:06 +0000
Subject: [PATCH 20/64] fix: ksocket_is_block returned the opposite

---
 include/ksocket.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ksocket.h b/include/ksocket.h
index 8ef3627..f27dc58 100644
--- a/include/ksocket.h
+++ b/include/ksocket.h
@@ -270,7 +270,7 @@ INLINE bool ksocket_is_block(SOCKET sockfd) {
 	return false;
 #else
 	int flags = fcntl(sockfd, F_GETFL, 0);
-	return (flags & O_NONBLOCK) > 0;
+	return (flags & O_NONBLOCK) == 0;
 #endif
 }
 void ksocket_startup();
-- 
2.43.0


From 4b877d8645c4da3581a840ade22eaaedf70a72b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:41 +0000
Subject: [PATCH 21/64] fix: buffer headers made in a pool were not aligned

---
 include/kbuf.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/kbuf.h b/include/kbuf.h
index a7b6822..c68a599 100644
--- a/include/kbuf.h
+++ b/include/kbuf.h
@@ -9,7 +9,7 @@ KBEGIN_DECLS
 
 INLINE kbuf* new_pool_kbuf_align(kgl_pool_t* pool, int len)
 {
-	kbuf* b = (kbuf*)kgl_pnalloc(pool, sizeof(kbuf));
+	kbuf* b = (kbuf*)kgl_palloc(pool, sizeof(kbuf));
 	b->used = len;
 	b->flags = 0;
 	b->data = (char*)kgl_pmemalign(pool, len, kgl_aio_align_size);
@@ -17,7 +17,7 @@ INLINE kbuf* new_pool_kbuf_align(kgl_pool_t* pool, int len)
 }
 INLINE kbuf *new_pool_kbuf(kgl_pool_t *pool, int len)
 {
-	kbuf *b = (kbuf *)kgl_pnalloc(pool, sizeof(kbuf));
+	kbuf *b = (kbuf *)kgl_palloc(pool, sizeof(kbuf));
 	b->used = len;
 	b->flags = 0;
 	b->data = (char *)kgl_pnalloc(pool, len);
-- 
2.43.0


From 4676a2a9e2927fbd7d54bd5c89e6223bf13e6d58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:41 +0000
Subject: [PATCH 22/64] fix: writev_full left trailing empty vectors in the
 count

---
 include/kfiber.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/kfiber.h b/include/kfiber.h
index 27ba431..c7898db 100644
--- a/include/kfiber.h
+++ b/include/kfiber.h
@@ -211,6 +211,12 @@ INLINE bool kfiber_sendfile_full(kconnection * cn, kfiber_file * fp, int* len) {
 INLINE size_t kfiber_net_writev_full(kconnection * cn, kgl_iovec * buf, int* bc) {
 	size_t total_length = 0;
 	while (*bc > 0) {
+		if (buf->iov_len == 0) {
+			//nothing to write in it
+			buf++;
+			(*bc)--;
+			continue;
+		}
 		int got = kfiber_net_writev(cn, buf, *bc);
 		if (got <= 0) {
 			return total_length;
-- 
2.43.0


From e5d34d94fc234e5f8ee3e83198c69d2fb8b30bf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:36 +0000
Subject: [PATCH 23/64] fix: kgl_ssl_writev starts no further TLS record once
 bytes have to be reported

Without the SSL BIOs a record the socket does not take must be retried from the same
buffer; a vectored write which returned a partial count made the next write fail with a
bad write retry.
---
 src/kselectable.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/kselectable.c b/src/kselectable.c
index 9c3a704..bc75237 100644
--- a/src/kselectable.c
+++ b/src/kselectable.c
@@ -43,6 +43,9 @@ static inline int kgl_ssl_writev(kssl_session* ssl, WSABUF* buffer, int bc)
 					len -= (int)write_bytes;
 					hot += (int)write_bytes;
 					//printf("SSL_write_early_data try write=[%d] return [%d] got=[%d].\n", len, write_bytes, got);
+#ifndef ENABLE_KSSL_BIO
+					return got;
+#endif
 					continue;
 				}
 				return (got > 0 ? got : -1);
@@ -54,6 +57,11 @@ static inline int kgl_ssl_writev(kssl_session* ssl, WSABUF* buffer, int bc)
 				return this_len > 0 ? got + this_len : (got > 0 ? got : this_len);
 			}
 			got += this_len;
+#ifndef ENABLE_KSSL_BIO
+			//a record the socket does not take must be written again from the same buffer,
+			//so it cannot be started when some bytes have to be reported already.
+			return got;
+#endif
 			break;
 		}
 	}
-- 
2.43.0


From c225b6fbcbe39283668fcdcd4744edc39521afd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:54 +0000
Subject: [PATCH 24/64] fix: with the SSL BIO a read that needs more records
 keeps the socket's read readiness

SSL_read wanting more says nothing about the socket when the BIO stands between: with
readiness cleared and the socket not drained the edge triggered wait never ended.
---
 src/kselectable.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/kselectable.c b/src/kselectable.c
index bc75237..58783c7 100644
--- a/src/kselectable.c
+++ b/src/kselectable.c
@@ -445,7 +445,10 @@ kev_result selectable_event_read(kselectable* st, result_callback result, buffer
 #ifdef KSOCKET_SSL
 	if (selectable_is_ssl_handshake(st)) {
 		kassert(st->ssl);
+#ifndef ENABLE_KSSL_BIO
+		//with the BIO only the read of the socket tells if it is drained.
 		KBIT_CLR(st->base.st_flags, STF_RREADY);
+#endif
 		int err = SSL_get_error(st->ssl->ssl, got);
 		if (errno == EAGAIN || err == SSL_ERROR_WANT_READ) {
 #ifdef ENABLE_KSSL_BIO
-- 
2.43.0


From 7e20774356721e1cabd71eca9226c0cdbf2f2617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:06 +0000
Subject: [PATCH 25/64] fix: a read turn on a connection never registered for
 events clears its read state

selectable_next_read, and a TLS read of bytes at hand, on a connection no event was ever
asked for left STF_READ set, so that the next read hit an assertion or was lost.
---
 src/kselectable.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kselectable.c b/src/kselectable.c
index 58783c7..991c462 100644
--- a/src/kselectable.c
+++ b/src/kselectable.c
@@ -471,7 +471,7 @@ kev_result selectable_read_event(kselectable* st)
 {
 #ifdef STF_ET
 	/* epoll notice fd read event use LT model other use ET model */
-	if (KBIT_TEST(st->base.st_flags, STF_ET))
+	if (KBIT_TEST(st->base.st_flags, STF_ET | STF_RREADY2))
 #endif
 		KBIT_CLR(st->base.st_flags, STF_READ);
 	if (unlikely(KBIT_TEST(st->base.st_flags, STF_UDP))) {
-- 
2.43.0


From 8f89b2bac15bb8301ce63ab68ec6496ce7a02cea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:07 +0000
Subject: [PATCH 26/64] fix: TLS early data not there yet is no end of stream

kgl_ssl_readv returned 0, which means the end of the stream, when SSL_read_early_data wanted
more from the socket.
---
 src/kselectable.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kselectable.c b/src/kselectable.c
index 991c462..a62d51b 100644
--- a/src/kselectable.c
+++ b/src/kselectable.c
@@ -92,7 +92,7 @@ static inline int kgl_ssl_readv(kssl_session* ssl, kgl_iovec* buffer, int bc)
 					continue;
 				}
 				if (n != SSL_READ_EARLY_DATA_SUCCESS) {
-					return got;
+					return got > 0 ? got : -1;
 				}
 				got += (int)read_bytes;
 				len -= (int)read_bytes;
-- 
2.43.0


From 27a872bc721a63816c32db4b90de2fa59bd7824c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:08 +0000
Subject: [PATCH 27/64] fix: closing a TLS connection with the SSL BIO wrote no
 close notify

---
 src/kconnection.c | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/kconnection.c b/src/kconnection.c
index 915f9c7..19e6e4c 100644
--- a/src/kconnection.c
+++ b/src/kconnection.c
@@ -123,26 +123,28 @@ kev_result kconnection_connect(kconnection *c,result_callback cb, void *arg)
 kev_result kselectable_ssl_shutdown(kselectable* st, result_callback cb, void* arg)
 {
 	kassert(ksocket_opened(st->fd));
-	kssl_status status = kgl_ssl_shutdown(st->ssl->ssl);
 #ifdef ENABLE_KSSL_BIO
-	if (status != ret_error && BIO_pending(st->ssl->bio[OP_WRITE].bio) > 0) {
-		return selectable_write(st, cb, NULL, arg);
+	//the close notify is in the bio once SSL_shutdown was called, it only has to be written.
+	if (!(SSL_get_shutdown(st->ssl->ssl) & SSL_SENT_SHUTDOWN)) {
+		kgl_ssl_shutdown(st->ssl->ssl);
+		if (BIO_pending(st->ssl->bio[OP_WRITE].bio) > 0) {
+			return selectable_write(st, cb, NULL, arg);
+		}
 	}
-#endif
+	return cb(st->data, arg, 1);
+#else
+	kssl_status status = kgl_ssl_shutdown(st->ssl->ssl);
 	switch (status) {
 	case SSL_ERROR_WANT_READ:
-#ifndef ENABLE_KSSL_BIO
 		selectable_clear_flags(st, STF_RREADY);
-#endif
 		return selectable_read(st, cb, NULL, arg);
 	case SSL_ERROR_WANT_WRITE:
-#ifndef ENABLE_KSSL_BIO
 		selectable_clear_flags(st, STF_WREADY);
-#endif
 		return selectable_write(st, cb, NULL, arg);
 	default:
 		return cb(st->data, arg, 1);
 	}
+#endif
 }
 kev_result kselectable_ssl_handshake(kselectable *st,result_callback cb, void *arg) 
 {
-- 
2.43.0


From 49705397da1f016d350ab39a4663cacf3562d472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:37 +0000
Subject: [PATCH 28/64] fix: the end of a TLS stream met behind the last bytes
 could be lost

---
 include/kgl_ssl.h |  1 +
 src/kselectable.c | 11 +++++++++--
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/kgl_ssl.h b/include/kgl_ssl.h
index 1c990d2..c5acae2 100644
--- a/include/kgl_ssl.h
+++ b/include/kgl_ssl.h
@@ -48,6 +48,7 @@ typedef struct
 	uint16_t handshake : 1;
 	uint16_t shutdown : 1;
 	uint16_t alt_svc_sent : 1;
+	uint16_t read_again : 1; //the last read met the end or an error
 } kssl_session;
 
 bool kgl_ssl_support_sendfile(kssl_session *ssl);
diff --git a/src/kselectable.c b/src/kselectable.c
index a62d51b..a53dfce 100644
--- a/src/kselectable.c
+++ b/src/kselectable.c
@@ -70,6 +70,7 @@ static inline int kgl_ssl_writev(kssl_session* ssl, WSABUF* buffer, int bc)
 static inline int kgl_ssl_readv(kssl_session* ssl, kgl_iovec* buffer, int bc)
 {
 	int got = 0;
+	ssl->read_again = 0;
 	for (int i = 0; i < bc; i++) {
 		u_char* hot = (u_char*)buffer[i].iov_base;
 		int len = buffer[i].iov_len;
@@ -102,7 +103,12 @@ static inline int kgl_ssl_readv(kssl_session* ssl, kgl_iovec* buffer, int bc)
 #endif
 			int this_len = SSL_read(ssl->ssl, hot, len);
 			if (this_len != len) {
-				return this_len > 0 ? got + this_len : (got>0?got:this_len);
+				if (this_len > 0) {
+					return got + this_len;
+				}
+				//the end and an error stay, the socket may have nothing more to wake the next read.
+				ssl->read_again = SSL_get_error(ssl->ssl, this_len) != SSL_ERROR_WANT_READ;
+				return got > 0 ? got : this_len;
 			}
 			got += this_len;
 			break;
@@ -419,7 +425,7 @@ kev_result selectable_event_read(kselectable* st, result_callback result, buffer
 			kssl_bio* ssl_bio = &st->ssl->bio[OP_READ];
 			int ssl_pending = SSL_pending(st->ssl->ssl);
 			int bio_pending = (int)BIO_pending(ssl_bio->bio);
-			kassert(st->ssl->in_early || ssl_pending > 0 || bio_pending > 0 || BIO_get_shutdown(ssl_bio->bio));
+			kassert(st->ssl->in_early || st->ssl->read_again || ssl_pending > 0 || bio_pending > 0 || BIO_get_shutdown(ssl_bio->bio));
 		}
 #endif
 #endif
@@ -534,6 +540,7 @@ kev_result selectable_read(kselectable* st, result_callback result, kgl_iovec* b
 #ifdef SSL_READ_EARLY_DATA_SUCCESS
 			st->ssl->in_early ||
 #endif
+			st->ssl->read_again ||
 			SSL_pending(st->ssl->ssl) > 0) {
 			//printf("st=[%p] ssl_pending=[%d]\n",st, pending_read);
 #ifdef ENABLE_KSSL_BIO
-- 
2.43.0


From 5d4af56cc9835d30ab8f8ce268304cc74d3614e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:08 +0000
Subject: [PATCH 29/64] fix: with the SSL BIO our handshake was not written
 when early data came

---
 src/kconnection.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/kconnection.c b/src/kconnection.c
index 19e6e4c..7631d18 100644
--- a/src/kconnection.c
+++ b/src/kconnection.c
@@ -152,6 +152,12 @@ kev_result kselectable_ssl_handshake(kselectable *st,result_callback cb, void *a
 	kassert(ssl);
 	kssl_status status;
 #ifdef SSL_READ_EARLY_DATA_SUCCESS
+#ifdef ENABLE_KSSL_BIO
+	if (ssl->in_early) {
+		//our side of the handshake is written now.
+		return cb(st->data, arg, 1);
+	}
+#endif
 	if (ssl->try_early_data) {
 		u_char     buf;
 		size_t     readbytes = 0;
@@ -168,6 +174,11 @@ kev_result kselectable_ssl_handshake(kselectable *st,result_callback cb, void *a
 			ssl->in_early = 1;
 			ssl->early_preread = 1;
 			//printf("read early data buf=[%c] arg=[%p]\n",buf,sh->arg);
+#ifdef ENABLE_KSSL_BIO
+			if (BIO_pending(ssl->bio[OP_WRITE].bio) > 0) {
+				return selectable_write(st, cb, NULL, arg);
+			}
+#endif
 			return cb(st->data, arg, 1); 
 		}
 		status = kgl_ssl_handshake_status(ssl->ssl, n);
-- 
2.43.0


From 6a82480dcaae523530d62f93914f18efee8804b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:25 +0000
Subject: [PATCH 30/64] fix: a write turn that fails leaves no write ready mark
 behind

---
 src/kselectable.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/kselectable.c b/src/kselectable.c
index a53dfce..cca2871 100644
--- a/src/kselectable.c
+++ b/src/kselectable.c
@@ -501,6 +501,7 @@ kev_result selectable_write_event(kselectable* st)
 #endif
 	KBIT_CLR(st->base.st_flags, STF_WRITE | STF_RDHUP);
 	if (KBIT_TEST(st->base.st_flags, STF_ERR) > 0) {
+		KBIT_CLR(st->base.st_flags, STF_WREADY2);
 		return st->e[OP_WRITE].result(st->data, st->e[OP_WRITE].arg, -1);
 	}
 #ifdef ENABLE_KSSL_BIO
-- 
2.43.0


From d9878d76567046f3aae6ecf8e1889e913a467893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:10 +0000
Subject: [PATCH 31/64] fix: an old entry in the TLS error queue made closing
 drop the close notify

---
 src/kgl_ssl.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/kgl_ssl.c b/src/kgl_ssl.c
index f94e225..1ad299b 100644
--- a/src/kgl_ssl.c
+++ b/src/kgl_ssl.c
@@ -818,6 +818,8 @@ kssl_status kgl_ssl_handshake(SSL* ssl) {
 	return ret_ok;
 }
 kssl_status kgl_ssl_shutdown(SSL* ssl) {
+	//SSL_get_error looks at the error queue of the thread first.
+	ERR_clear_error();
 	int n = SSL_shutdown(ssl);
 	if (n == 1) {
 		return ret_ok;
-- 
2.43.0


From af4c061c63aab7377edc8777a9576068f3946c44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:16 +0000
Subject: [PATCH 32/64] fix: a connect that timed out was reported as success

---
 src/kselector.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/kselector.c b/src/kselector.c
index d98209d..2967316 100644
--- a/src/kselector.c
+++ b/src/kselector.c
@@ -197,6 +197,8 @@ int kselector_check_timeout(kselector *selector,int event_number)
 				continue;
 			}
 			selector->count--;
+			//shutdown ends a connect that is not answered without an error event
+			KBIT_SET(st->base.st_flags, STF_ERR);
 			selectable_shutdown(st);
 		}
 	}
-- 
2.43.0


From d420e5997f2c554b32f796681c82433517fc281a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:27 +0000
Subject: [PATCH 33/64] fix: a reported read timeout keeps the connection's
 extra periods

---
 src/kselector.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/kselector.c b/src/kselector.c
index 2967316..da98f95 100644
--- a/src/kselector.c
+++ b/src/kselector.c
@@ -192,6 +192,7 @@ int kselector_check_timeout(kselector *selector,int event_number)
 				//set read time out
 				klist_append(&selector->list[i], l);
 				st->active_msec = kgl_current_msec;
+				st->base.tmo_left = st->base.tmo;
 				kassert(st->e[OP_READ].result);
 				st->e[OP_READ].result(st->data, st->e[OP_READ].arg, ST_ERR_TIME_OUT);
 				continue;
-- 
2.43.0


From ae1243d93d0f8f5e1008d12034e32e03f368991f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:29 +0000
Subject: [PATCH 34/64] fix: reading on after a reported timeout used the
 buffer of the read that had timed out

---
 include/kfiber.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/kfiber.h b/include/kfiber.h
index c7898db..40f041b 100644
--- a/include/kfiber.h
+++ b/include/kfiber.h
@@ -262,6 +262,8 @@ INLINE int kfiber_net_readv(kconnection * cn, kgl_iovec * buf, int bc) {
 		assert(cn->st.e[OP_READ].result == kfiber_result_callback);
 		//assert(cn->st.e[OP_READ].buffer == kfiber_buffer_callback);
 		assert(cn->st.e[OP_READ].arg == fiber);
+		//the buffer of the read that timed out is gone
+		cn->st.e[OP_READ].buffer = &iovec_buf;
 		return __kfiber_wait(fiber, cn->st.data);
 	}
 	return kfiber_wait_result(fiber, selectable_read(&cn->st, kfiber_result_callback, &iovec_buf, fiber), cn->st.data);
-- 
2.43.0


From ad5117fb61e07f4c3c781b1e12f6cf090d6877a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:55 +0000
Subject: [PATCH 35/64] fix: reading on after a reported timeout of a TLS
 connection with the SSL BIO

---
 include/kfiber.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/kfiber.h b/include/kfiber.h
index 40f041b..1227469 100644
--- a/include/kfiber.h
+++ b/include/kfiber.h
@@ -259,6 +259,13 @@ INLINE int kfiber_net_readv(kconnection * cn, kgl_iovec * buf, int bc) {
 			this condition only happened in read timeout
 		*/
 		assert(KBIT_TEST(cn->st.base.st_flags, STF_RTIME_OUT));
+#ifdef ENABLE_KSSL_BIO
+		if (selectable_is_ssl_handshake(&cn->st)) {
+			//the socket is read to the bio.
+			cn->st.ssl->bio[OP_READ].buffer = &iovec_buf;
+			return __kfiber_wait(fiber, cn->st.data);
+		}
+#endif
 		assert(cn->st.e[OP_READ].result == kfiber_result_callback);
 		//assert(cn->st.e[OP_READ].buffer == kfiber_buffer_callback);
 		assert(cn->st.e[OP_READ].arg == fiber);
-- 
2.43.0


From bd2acc31a2c3f4f042430276fcbef9e0ceab693b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:15 +0000
Subject: [PATCH 36/64] fix: direct I/O reads at the end of a file or failing
 aborted instead of returning the result

---
 include/kasync_file.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/kasync_file.h b/include/kasync_file.h
index 3146bbb..712afb8 100644
--- a/include/kasync_file.h
+++ b/include/kasync_file.h
@@ -75,9 +75,9 @@ INLINE int kasync_file_adjust_result(kasync_file *fp,int got)
 	if (!fp->st.direct_io) {
 		return got;
 	}	
-	assert(got>fp->st.direct_io_offset);
-	if (got < fp->st.direct_io_offset) {
-		return -1;
+	if (got <= fp->st.direct_io_offset) {
+		/* error, or the end of file is not behind the offset. */
+		return got < 0 ? got : 0;
 	}
 	got -= fp->st.direct_io_offset;
 	return KGL_MIN(got,fp->st.direct_io_orig_length);
-- 
2.43.0


From 0b62b95720ddc7d8dbdeb4b8d9b6f136d950d7d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:51 +0000
Subject: [PATCH 37/64] fix: an old entry in the TLS error queue made a blocked
 encrypted file transfer fail

---
 src/kselectable.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/kselectable.c b/src/kselectable.c
index cca2871..8b7c755 100644
--- a/src/kselectable.c
+++ b/src/kselectable.c
@@ -316,6 +316,8 @@ static inline kev_result selectable_event_sendfile(kselectable* st, result_callb
 	if (st->ssl) {
 		assert(kgl_ssl_support_sendfile(st->ssl));
 #if defined(BIO_get_ktls_send)
+		//SSL_get_error looks at the error queue of the thread first.
+		ERR_clear_error();
 		got = SSL_sendfile(st->ssl->ssl, file->st.fd, offset, buffer->iov_len, 0);
 		if (got >= 0) {
 			return result(st->data, arg, got);
-- 
2.43.0


From e714969658dcd164a6f5a53fcdf4f500c7f7e5b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:08 +0000
Subject: [PATCH 38/64] fix: accept copied the address of an unix peer from
 beyond the listener's storage

---
 include/kserver.h | 7 +++++++
 include/ksocket.h | 1 +
 src/kserver.c     | 7 ++++++-
 src/ksocket.c     | 8 +++++---
 4 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/include/kserver.h b/include/kserver.h
index b704511..62cd9ac 100644
--- a/include/kserver.h
+++ b/include/kserver.h
@@ -68,7 +68,14 @@ struct kserver_selectable_s{
 #ifdef ACCEPT_SOCKET_SHUTDOWN_NO_EVENT
 	volatile int32_t hold_by_next_shutdown_refs;
 #endif
+#ifdef KSOCKET_UNIX
+	union {
+		sockaddr_i accept_addr;
+		struct sockaddr_un accept_un_addr;
+	};
+#else
 	sockaddr_i accept_addr;
+#endif
 	socklen_t addr_len;
 #ifdef _WIN32
 	char *tmp_addr_buf;
diff --git a/include/ksocket.h b/include/ksocket.h
index f27dc58..54c25fe 100644
--- a/include/ksocket.h
+++ b/include/ksocket.h
@@ -292,6 +292,7 @@ void ksocket_ipaddr(const sockaddr_i *addr, ip_addr *ia);
 SOCKET ksocket_listen(const sockaddr_i *addr,int flag);
 SOCKET ksocket_new_udp(uint16_t sin_family,int flag);
 SOCKET ksocket_accept(SOCKET s,sockaddr_i *addr,bool no_block);
+SOCKET ksocket_accept2(SOCKET s,struct sockaddr *addr,socklen_t addr_size,bool no_block);
 SOCKET ksocket_connect(const sockaddr_i *addr, const sockaddr_i *bind_addr, int tmo);
 SOCKET ksocket_half_connect(const sockaddr_i *addr,const sockaddr_i *bind_addr, int tproxy_mask);
 bool ksocket_getaddr(const char *host, uint16_t port,int ai_family, int ai_flags, sockaddr_i *addr);
diff --git a/src/kserver.c b/src/kserver.c
index d1d2e43..5135a0d 100644
--- a/src/kserver.c
+++ b/src/kserver.c
@@ -27,8 +27,13 @@ kev_result kselector_event_accept(KOPAQUE data, void *arg,int got)
 {
 	kserver_selectable *ss = (kserver_selectable *)arg;
 	//printf("ksocket_accept called...\n");
+#ifdef KSOCKET_UNIX
+	//an unix peer may have a long name or no name at all
+	memset(&ss->accept_un_addr, 0, sizeof(ss->accept_un_addr));
+	SOCKET sockfd = ksocket_accept2(ss->st.fd, (struct sockaddr*)&ss->accept_addr, sizeof(ss->accept_un_addr), true);
+#else
 	SOCKET sockfd = ksocket_accept(ss->st.fd,&ss->accept_addr, true);
-	
+#endif
 	if (sockfd>=0) {
 		//printf("ksocket_accept=[%d]\n",sockfd);
 		return ss->st.e[OP_WRITE].result(data, ss->st.e[OP_WRITE].arg,(int)sockfd);
diff --git a/src/ksocket.c b/src/ksocket.c
index 3231654..de7d553 100644
--- a/src/ksocket.c
+++ b/src/ksocket.c
@@ -247,16 +247,18 @@ int ksocket_unix_addr(const char* path, struct sockaddr_un* addr) {
 }
 #endif
 SOCKET ksocket_accept(SOCKET s, sockaddr_i* addr, bool no_block) {
-	socklen_t addr_size = sizeof(sockaddr_i);
+	return ksocket_accept2(s, (struct sockaddr*)addr, sizeof(sockaddr_i), no_block);
+}
+SOCKET ksocket_accept2(SOCKET s, struct sockaddr* addr, socklen_t addr_size, bool no_block) {
 #if defined(HAVE_ACCEPT4) && !defined(ANDROID)
 	int flag = SOCK_CLOEXEC;
 	if (no_block) {
 		flag |= SOCK_NONBLOCK;
 	}
-	return accept4(s, (struct sockaddr*)addr, &addr_size, flag);
+	return accept4(s, addr, &addr_size, flag);
 #else
 
-	SOCKET sockfd = accept(s, (struct sockaddr*)addr, &addr_size);
+	SOCKET sockfd = accept(s, addr, &addr_size);
 	if (sockfd == INVALID_SOCKET) {
 		return sockfd;
 	}
-- 
2.43.0


From 30a69e248e9dd01904b2cdc55f54934b8fde9b80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:32 +0000
Subject: [PATCH 39/64] fix: kserver_close could shut down a descriptor that a
 dying listener had closed already

---
 src/kserver.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/kserver.c b/src/kserver.c
index 5135a0d..6f26986 100644
--- a/src/kserver.c
+++ b/src/kserver.c
@@ -356,12 +356,13 @@ void kserver_release(kserver *server)
 
 void kserver_selectable_destroy(kserver_selectable *ss)
 {
+	assert(ss->server);
+	//kserver_close shuts the sockets down with the lock held
+	kmutex_lock(&ss->server->ss_lock);
 	if (ksocket_opened(ss->st.fd)) {
 		ksocket_close(ss->st.fd);
 		ksocket_init(ss->st.fd);
 	}
-	assert(ss->server);
-	kmutex_lock(&ss->server->ss_lock);
 	if (ss->queue.next) {
 		assert(!klist_empty(&ss->server->ss));
 		klist_remove(&ss->queue);
-- 
2.43.0


From 22458e97fc6716d28ab93e12fbeca8cfd3437c8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:32 +0000
Subject: [PATCH 40/64] fix: the path of an unix server was never removed

---
 src/kserver.c | 30 ++++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/src/kserver.c b/src/kserver.c
index 6f26986..55d5e49 100644
--- a/src/kserver.c
+++ b/src/kserver.c
@@ -108,6 +108,14 @@ bool is_server_multi_selectable(kserver *server) {
 	kmutex_unlock(&server->ss_lock);
 	return result;
 }
+#ifdef KSOCKET_UNIX
+static void kserver_unlink_path(kserver *server)
+{
+	if (server->addr.v4.sin_family == AF_UNIX) {
+		unlink(ksocket_unix_path(&server->un_addr));
+	}
+}
+#endif
 kserver *kserver_init()
 {
 	kserver *server = xmemory_new(kserver);
@@ -126,12 +134,6 @@ void kserver_selectable_free(kserver_selectable *ss) {
 #endif
 	if (ksocket_opened(ss->st.fd)) {
 		ksocket_close(ss->st.fd);
-#ifdef KSOCKET_UNIX	
-		if (ss->server->addr.v4.sin_family==AF_UNIX) {
-			const char *unix_path = ksocket_unix_path(&ss->server->un_addr);
-			unlink(unix_path);
-		}
-#endif
 	}
 #ifdef KSOCKET_SSL
 	if (ss->ssl_ctx) {
@@ -264,7 +266,11 @@ static void kserver_selectable_start(kserver_selectable* ss) {
 }
 bool kserver_open_exsit(kserver* server, SOCKET sockfd, result_callback accept_callback)
 {
+#ifdef KSOCKET_UNIX
+	socklen_t addr_len = (socklen_t)sizeof(server->un_addr);
+#else
 	socklen_t addr_len = (socklen_t)sizeof(server->addr);
+#endif
 	if (0 != getsockname(sockfd, (struct sockaddr*)&server->addr, &addr_len)) {
 		klog(KLOG_NOTICE, "error [%s:%d]\n", __FILE__, __LINE__);
 		return false;
@@ -366,6 +372,12 @@ void kserver_selectable_destroy(kserver_selectable *ss)
 	if (ss->queue.next) {
 		assert(!klist_empty(&ss->server->ss));
 		klist_remove(&ss->queue);
+#ifdef KSOCKET_UNIX
+		if (klist_empty(&ss->server->ss) && KBIT_TEST(ss->server->flags, KGL_SERVER_START)) {
+			//the last listener of a server that is not closed, kserver_close removes the path otherwise
+			kserver_unlink_path(ss->server);
+		}
+#endif
 	}
 	kmutex_unlock(&ss->server->ss_lock);
 #ifdef ACCEPT_SOCKET_SHUTDOWN_NO_EVENT
@@ -398,9 +410,15 @@ kev_result kserver_selectable_next_shutdown(KOPAQUE data, void *arg,int got)
 #endif
 void kserver_close(kserver* server)
 {
+	bool started = KBIT_TEST(server->flags, KGL_SERVER_START) > 0;
 	KBIT_CLR(server->flags, KGL_SERVER_START);
 	kgl_list* pos;
 	kmutex_lock(&server->ss_lock);
+#ifdef KSOCKET_UNIX
+	if (started) {
+		kserver_unlink_path(server);
+	}
+#endif
 #ifdef ACCEPT_SOCKET_SHUTDOWN_NO_EVENT
 	while (!klist_empty(&server->ss)) {
 		pos = klist_head(&server->ss);
-- 
2.43.0


From 091072b1dde3416cbfea873886c355a08474dd24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:10 +0000
Subject: [PATCH 41/64] fix: a read of an UDP socket without packet info went
 through a null pointer

---
 src/kselectable.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/kselectable.c b/src/kselectable.c
index 8b7c755..bc3a0df 100644
--- a/src/kselectable.c
+++ b/src/kselectable.c
@@ -184,10 +184,10 @@ int selectable_recvmsg(kselectable* st)
 	msg.msg_namelen = ksocket_addr_len((sockaddr_i *)msg.msg_name);
 	msg.msg_iov = (struct iovec *)st->e[OP_READ].buffer->iov_base;
 	msg.msg_iovlen = st->e[OP_READ].buffer->iov_len;
-	msg.msg_control = c->udp->pktinfo;
 	if (c->udp) {
 		memset(c->udp, 0, sizeof(kudp_extend));
-		msg.msg_controllen = sizeof(c->udp->pktinfo);
+		msg.msg_control = c->udp;
+		msg.msg_controllen = sizeof(kudp_extend);
 	}
 	return recvmsg(st->fd, &msg, 0);
 }
-- 
2.43.0


From 818f151f7d097d0628c74ffc2699070997946149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:03 +0000
Subject: [PATCH 42/64] fix: the local address of datagrams was never given for
 IPv6 sockets

---
 src/kudp.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/kudp.c b/src/kudp.c
index 9502dcf..8944cf3 100644
--- a/src/kudp.c
+++ b/src/kudp.c
@@ -82,6 +82,11 @@ kconnection* kudp_new2(int flags, kselector* st)
 		setsockopt(uc->st.fd, IPPROTO_IP, IP_SENDSRCADDR, (const char*)&n, sizeof(int));
 #else
 		setsockopt(uc->st.fd, IPPROTO_IP, IP_PKTINFO, (const char*)&n, sizeof(int));
+#endif
+#ifdef IPV6_RECVPKTINFO
+		if (domain == PF_INET6) {
+			setsockopt(uc->st.fd, IPPROTO_IPV6, IPV6_RECVPKTINFO, (const char*)&n, sizeof(int));
+		}
 #endif
 		uc->udp = xmemory_new(kudp_extend);
 	}
-- 
2.43.0


From 743207fb3f1eb06fb88cad3bd0e15c9e557d6ed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:36 +0000
Subject: [PATCH 43/64] fix: a read waiting on an UDP socket never ended when
 the socket was shut down

---
 src/kselectable.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/kselectable.c b/src/kselectable.c
index bc3a0df..0cc6462 100644
--- a/src/kselectable.c
+++ b/src/kselectable.c
@@ -203,6 +203,10 @@ static inline kev_result selectable_udp_read_event(kselectable* st, result_callb
 	switch(errno) {
 	case EAGAIN:
 	case EINTR:
+		if (KBIT_TEST(st->base.st_flags, STF_ERR)) {
+			//shut down, nothing will come any more.
+			return result(st->data, arg, ST_ERR_RESULT);
+		}
 		KBIT_CLR(st->base.st_flags, STF_RREADY);
 		return kgl_selector_module.read(st->base.selector, st, result, buffer, arg);
 	case ENOMEM:
-- 
2.43.0


From 753c5de14ec3f5f3a54b800c1da623800c33e657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:30 +0000
Subject: [PATCH 44/64] fix: cname lookups never asked for the canonical name

---
 src/kaddr.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/kaddr.c b/src/kaddr.c
index 69ed9f3..9f0e120 100644
--- a/src/kaddr.c
+++ b/src/kaddr.c
@@ -108,6 +108,7 @@ bool get_addr(const char *hostname, kgl_addr_type addr_type, struct addrinfo **r
 	case kgl_addr_cname:
 		f.ai_family = PF_INET;
 		f.ai_flags = AI_CANONNAME;
+		break;
 	default:
 		f.ai_family = PF_UNSPEC;
 		f.ai_flags = 0;
-- 
2.43.0


From f6c20bb49254d9029c8ec1212e2fd13697e2f2d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:01 +0000
Subject: [PATCH 45/64] fix: a refreshed address crashed when its entry was
 flushed and looked up again meanwhile

---
 src/kaddr.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/kaddr.c b/src/kaddr.c
index 9f0e120..a411d81 100644
--- a/src/kaddr.c
+++ b/src/kaddr.c
@@ -151,6 +151,14 @@ static void update_addr_cache(kgl_addr_key *key, struct addrinfo *addr) {
 		node->data = cn;
 	} else {
 		cn = (kgl_addr_node *)node->data;
+		if (cn->prev == NULL) {
+			//flushed and asked again meanwhile: the lookup on the way answers.
+			kmutex_unlock(&addr_lock);
+			if (addr) {
+				freeaddrinfo(addr);
+			}
+			return;
+		}
 		klist_remove(cn);
 	}
 	if (cn->addr != NULL) {
-- 
2.43.0


From a57e14f5612c04bf91655c6c50bba4e9b5af6263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:30 +0000
Subject: [PATCH 46/64] fix: kgl_addr_build wrote the port into the shared
 address, two users could get each other's

---
 src/ksocket.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/ksocket.c b/src/ksocket.c
index de7d553..fec6f5e 100644
--- a/src/ksocket.c
+++ b/src/ksocket.c
@@ -270,15 +270,16 @@ SOCKET ksocket_accept2(SOCKET s, struct sockaddr* addr, socklen_t addr_size, boo
 #endif
 }
 void ksocket_addrinfo_sockaddr(struct addrinfo* ai, uint16_t port, sockaddr_i* addr) {
+	//ai may be shared with other threads, the port goes into the copy.
+	int copy_len = KGL_MIN((socklen_t)ai->ai_addrlen, sizeof(sockaddr_i));
+	kgl_memcpy(addr, ai->ai_addr, copy_len);
 	addr->v4.sin_family = ai->ai_family;
 #ifdef KSOCKET_IPV6
 	if (ai->ai_family == PF_INET6) {
-		((struct sockaddr_in6*)ai->ai_addr)->sin6_port = htons(port);
+		addr->v6.sin6_port = htons(port);
 	} else
 #endif
-		((struct sockaddr_in*)ai->ai_addr)->sin_port = htons(port);
-	int copy_len = KGL_MIN((socklen_t)ai->ai_addrlen, sizeof(sockaddr_i));
-	kgl_memcpy(addr, ai->ai_addr, copy_len);
+		addr->v4.sin_port = htons(port);
 }
 bool ksocket_getaddr(const char* host, uint16_t port, int ai_family, int ai_flags, sockaddr_i* addr) {
 	struct addrinfo* res;
-- 
2.43.0


From c82780366f60ee93af021a07a3e6cea1cce39426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:19 +0000
Subject: [PATCH 47/64] fix: an answer was used after a flush had freed it
 while its lookups were being told

---
 src/kaddr.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/kaddr.c b/src/kaddr.c
index a411d81..0cfefd0 100644
--- a/src/kaddr.c
+++ b/src/kaddr.c
@@ -125,10 +125,12 @@ static kgl_addr_queue *update_addr_node_cache(kgl_addr_node *cn, kgl_addr *addr)
 	kassert(cn->addr == NULL);
 	kassert(cn->last_success == NULL);
 	cn->addr = addr;
+	cn->last_success = addr;
 	if (addr) {
+		//one for the cache's addr, one for last_success and one for the caller.
+		kgl_addr_refs(addr);
 		kgl_addr_refs(addr);
 	}
-	cn->last_success = addr;
 	klist_append(&addr_list, cn);
 	addr_count++;
 	kmutex_unlock(&addr_lock);
@@ -241,6 +243,9 @@ static void find_addr_result(kgl_addr_node *cn, struct addrinfo *addr, bool succ
 	}
 	queue = update_addr_node_cache(cn, addr2);
 	addr_result(queue, addr2);
+	if (addr2) {
+		kgl_addr_release(addr2);
+	}
 }
 
 kev_result async_addr_worker(void *data, int msec)
-- 
2.43.0


From 459ae50382991b858d36a206ae6e8d4a1d421c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:19 +0000
Subject: [PATCH 48/64] fix: the resolver thread looked at the queue of lookups
 without its lock

---
 src/kaddr.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/kaddr.c b/src/kaddr.c
index 0cfefd0..cfdc89d 100644
--- a/src/kaddr.c
+++ b/src/kaddr.c
@@ -252,7 +252,6 @@ kev_result async_addr_worker(void *data, int msec)
 {
 	kgl_addr_node *cn = (kgl_addr_node *)data;
 	struct addrinfo *res = NULL;
-	kassert(cn->queue->selector);
 	if (msec < 0 || msec > 10000) {
 		//10 second time out
 		find_addr_result(cn, NULL, false);
-- 
2.43.0


From d17858d4e03f03262af7515237204c753e468bdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:41 +0000
Subject: [PATCH 49/64] fix: a posted callback could wait for ever behind newer
 ones

---
 include/kepoll_selector.h | 9 +++++++--
 src/kepoll_selector.c     | 2 ++
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/include/kepoll_selector.h b/include/kepoll_selector.h
index 34ea6fa..0f07f80 100644
--- a/include/kepoll_selector.h
+++ b/include/kepoll_selector.h
@@ -7,6 +7,7 @@ struct kepoll_notice_selectable_s {
         kselectable st;
         kmutex lock;
 	kselector_notice *head;
+	kselector_notice **tail;
 };
 typedef struct kepoll_notice_selectable_s kepoll_notice_selectable;
 #endif
@@ -26,6 +27,9 @@ INLINE void kepoll_notice_event(kepoll_notice_selectable* ast) {
 		kselector_notice* notice = ast->head;
 		kassert(notice != NULL);
 		ast->head = notice->next;
+		if (ast->head == NULL) {
+			ast->tail = &ast->head;
+		}
 		kmutex_unlock(&ast->lock);
 		value--;
 		notice->result(notice->data, notice->arg, notice->got);
@@ -40,8 +44,9 @@ INLINE void kepoll_notice(kepoll_notice_selectable* notice_st, KOPAQUE data, res
 	notice->result = result;
 	notice->got = got;
 	kmutex_lock(&notice_st->lock);
-	notice->next = notice_st->head;
-	notice_st->head = notice;
+	//in order, an older notice must not starve behind newer ones
+	*notice_st->tail = notice;
+	notice_st->tail = &notice->next;
 	kmutex_unlock(&notice_st->lock);
 	uint64_t value = 1;
 	if (write(notice_st->st.fd, &value, sizeof(value))!=sizeof(value)) {
diff --git a/src/kepoll_selector.c b/src/kepoll_selector.c
index 995c1d6..c7a5e8c 100644
--- a/src/kepoll_selector.c
+++ b/src/kepoll_selector.c
@@ -519,6 +519,8 @@ void kepoll_module_init() {
 void kepoll_notice_init(kselector *selector,kepoll_notice_selectable *notice_st,result_callback result,void *arg)
 {
 	kmutex_init(&notice_st->lock,NULL);
+	notice_st->head = NULL;
+	notice_st->tail = &notice_st->head;
 	notice_st->st.fd = eventfd(0, EFD_CLOEXEC);
 	if (notice_st->st.fd == -1) {
 		perror("eventfd");
-- 
2.43.0


From 0a888f4881df9f741489d6f8830ca0ccacdd0013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:39 +0000
Subject: [PATCH 50/64] fix: a watch for the hang-up of a peer that has hung up
 already was never told

---
 src/kepoll_selector.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/kepoll_selector.c b/src/kepoll_selector.c
index c7a5e8c..2df6c92 100644
--- a/src/kepoll_selector.c
+++ b/src/kepoll_selector.c
@@ -269,6 +269,11 @@ static bool epoll_selector_readhup(kselector *selector, kselectable *st, result_
 			return false;
 		}
 	}
+	if (KBIT_TEST(st->base.st_flags,STF_ERR)) {
+		//the peer hung up already, no more event will come.
+		KBIT_SET(st->base.st_flags,STF_WREADY);
+		kselector_add_list(selector,st,KGL_LIST_READY);
+	}
 	return true;
 #else
 	return false;
-- 
2.43.0


From bc2cff2fffab902c1f882bf9c6833e54739f528f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:29 +0000
Subject: [PATCH 51/64] fix: a server context whose certificate and key are in
 one buffer crashed

---
 src/kgl_ssl.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/kgl_ssl.c b/src/kgl_ssl.c
index 1ad299b..35f388b 100644
--- a/src/kgl_ssl.c
+++ b/src/kgl_ssl.c
@@ -757,6 +757,10 @@ SSL_CTX* kgl_ssl_ctx_new_server2(const kgl_ref_str_t* cert_buffer, const kgl_ref
 		SSL_CTX_free(ctx);
 		return NULL;
 	}
+	if (cert_buffer == NULL || *cert_buffer->data == '\0') {
+		//certificate and key are in one buffer
+		cert_buffer = key_buffer;
+	}
 	kgl_ssl_session_id_context_from_buffer(ctx, cert_buffer->data);
 	return kgl_ssl_ctx_post_init(ctx, ca_path, ca_file, ssl_ctx_data);
 }
-- 
2.43.0


From e9c5e65a58f1c2f0c0a19bc95ba7b472707f87cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:33 +0000
Subject: [PATCH 52/64] fix: a key of another type than its certificate was
 loaded into a context

---
 src/kgl_ssl.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/kgl_ssl.c b/src/kgl_ssl.c
index 35f388b..284e82a 100644
--- a/src/kgl_ssl.c
+++ b/src/kgl_ssl.c
@@ -745,6 +745,17 @@ bool kgl_ssl_ctx_load_cert_key(SSL_CTX* ctx, const char* cert_file, const char*
 			err_buf);
 		return false;
 	}
+	if (!SSL_CTX_check_private_key(ctx)) {
+		//a key of another type than the certificate is not refused by SSL_CTX_use_PrivateKey_file
+		char err_buf[KGL_SSL_ERR_BUF_SIZE];
+		ERR_error_string_n(ERR_get_error(), err_buf, sizeof(err_buf));
+		klog(KLOG_ERR,
+			"SSL privatekey file [%s] does not match certificate [%s]: Error: %s\n",
+			key_file,
+			cert_file,
+			err_buf);
+		return false;
+	}
 	return kgl_ssl_session_id_context(ctx, cert_file);
 }
 SSL_CTX* kgl_ssl_ctx_new_server2(const kgl_ref_str_t* cert_buffer, const kgl_ref_str_t* key_buffer, const char* ca_path, const char* ca_file, void* ssl_ctx_data) {
-- 
2.43.0


From a1609cde3788fb2ec159441e683a8e0d6390a70c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:53 +0000
Subject: [PATCH 53/64] fix: every certificate loaded from a buffer leaked

---
 src/kgl_ssl.c | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/src/kgl_ssl.c b/src/kgl_ssl.c
index 284e82a..86da45f 100644
--- a/src/kgl_ssl.c
+++ b/src/kgl_ssl.c
@@ -629,14 +629,8 @@ int kgl_ssl_certificate(SSL_CTX* ctx, const kgl_ref_str_t* cert, const kgl_ref_s
 		sk_X509_pop_free(chain, X509_free);
 		return -1;
 	}
-	/*
-	 * Note that x509 is not freed here, but will be instead freed in
-	 * ngx_ssl_cleanup_ctx().  This is because we need to preserve all
-	 * certificates to be able to iterate all of them through exdata
-	 * (ngx_ssl_certificate_index, ngx_ssl_next_certificate_index),
-	 * while OpenSSL can free a certificate if it is replaced with another
-	 * certificate of the same type.
-	 */
+	//the context has its own reference
+	X509_free(x509);
 
 #ifdef SSL_CTX_set0_chain
 	if (SSL_CTX_set0_chain(ctx, chain) == 0) {
-- 
2.43.0


From 0fbf1acb1ca0ff10ad69092accd9ffb59e5dadd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:23 +0000
Subject: [PATCH 54/64] fix: new TLS settings reached for a listener that was
 gone

---
 src/kserver.c | 47 +++++++++++++++++++++++++----------------------
 1 file changed, 25 insertions(+), 22 deletions(-)

diff --git a/src/kserver.c b/src/kserver.c
index 55d5e49..cf2cde5 100644
--- a/src/kserver.c
+++ b/src/kserver.c
@@ -13,13 +13,6 @@
 #endif
 #include "kfiber.h"
 
-#ifdef KSOCKET_SSL
-typedef struct {
-	kserver_selectable *ss;
-	kgl_ssl_ctx *ssl_ctx;
-} kserver_update_ssl_ctx_param;
-#endif
-
 static int kgl_failed_tries = 0;
 
 #ifndef KGL_IOCP
@@ -169,8 +162,8 @@ kserver_selectable *kserver_selectable_init(kserver *server, SOCKET sockfd)
 }
 kserver_selectable *add_server_socket(kserver *server,SOCKET sockfd)
 {
-	kserver_selectable *ss = kserver_selectable_init(server, sockfd);
 	kmutex_lock(&server->ss_lock);
+	kserver_selectable *ss = kserver_selectable_init(server, sockfd);
 	klist_append(&server->ss, &ss->queue);
 	kmutex_unlock(&server->ss_lock);
 	return ss;
@@ -441,6 +434,9 @@ void kserver_close(kserver* server)
 #ifdef KSOCKET_SSL
 static void kserver_selectable_update_ssl_ctx(kserver_selectable *ss, kgl_ssl_ctx *ssl_ctx)
 {
+	if (ssl_ctx) {
+		kgl_add_ref_ssl_ctx(ssl_ctx);
+	}
 	if (ss->ssl_ctx) {
 		kgl_release_ssl_ctx(ss->ssl_ctx);
 	}
@@ -448,36 +444,43 @@ static void kserver_selectable_update_ssl_ctx(kserver_selectable *ss, kgl_ssl_ct
 }
 static kev_result kserver_ssl_ctx_next_update(KOPAQUE data, void *arg, int got)
 {
-	kserver_update_ssl_ctx_param *param = (kserver_update_ssl_ctx_param *)arg;
-	kserver_selectable_update_ssl_ctx(param->ss, param->ssl_ctx);
-	xfree(param);
+	//the listener may be gone by now, so the ones of this selector are looked up.
+	kserver *server = (kserver *)arg;
+	kgl_list* pos;
+	kmutex_lock(&server->ss_lock);
+	klist_foreach(pos, &server->ss) {
+		kserver_selectable* ss = kgl_list_data(pos, kserver_selectable, queue);
+		if (ss->st.base.selector == kgl_get_tls_selector()) {
+			kserver_selectable_update_ssl_ctx(ss, server->ssl_ctx);
+		}
+	}
+	kmutex_unlock(&server->ss_lock);
+	kserver_release(server);
 	return kev_ok;
 }
 void kserver_set_ssl_ctx(kserver *server, kgl_ssl_ctx *ssl_ctx)
 {
+	kmutex_lock(&server->ss_lock);
 	if (server->ssl_ctx && ssl_ctx == NULL) {
 		//cann't set ssl_ctx to NULL
+		kmutex_unlock(&server->ss_lock);
 		return;
 	}
 	if (server->ssl_ctx) {
 		kgl_release_ssl_ctx(server->ssl_ctx);
 	}
 	server->ssl_ctx = ssl_ctx;
-	kmutex_lock(&server->ss_lock);
 	kgl_list* pos;
 	klist_foreach(pos, &server->ss) {
-		kserver_selectable* ss = kgl_list_data(pos, kserver_selectable, queue);	
-		if (ssl_ctx) {
-			kgl_add_ref_ssl_ctx(ssl_ctx);
-		}
-		if (!KBIT_TEST(server->flags,KGL_SERVER_START)) {
+		kserver_selectable* ss = kgl_list_data(pos, kserver_selectable, queue);
+		if (ss->st.base.selector == NULL) {
+			//not in use yet
 			kserver_selectable_update_ssl_ctx(ss, ssl_ctx);
-		} else {
-			kserver_update_ssl_ctx_param *param = xmemory_new(kserver_update_ssl_ctx_param);
-			param->ss = ss;
-			param->ssl_ctx = ssl_ctx;
-			selectable_next(&ss->st, kserver_ssl_ctx_next_update, param, 0);
+			continue;
 		}
+		//a listener uses its ssl_ctx on its own selector only
+		kserver_refs(server);
+		kgl_selector_module.next(ss->st.base.selector, NULL, kserver_ssl_ctx_next_update, server, 0);
 	}
 	kmutex_unlock(&server->ss_lock);
 }
-- 
2.43.0


From 8b13e2840ec7cc9b1b6bcf9a015829b1b9a7567d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:44 +0000
Subject: [PATCH 55/64] fix: a context refused in the lookup of a name broke
 the handshake

---
 src/kgl_ssl.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/kgl_ssl.c b/src/kgl_ssl.c
index 86da45f..ea0126c 100644
--- a/src/kgl_ssl.c
+++ b/src/kgl_ssl.c
@@ -58,6 +58,8 @@ int kgl_ssl_sni(SSL* ssl, int* ad, void* arg) {
 	}
 	SSL_CTX* ssl_ctx = NULL;
 	c->sni = kgl_ssl_create_sni(kserver_get_opaque(c->server), servername, &ssl_ctx);
+	//a context the callback could not load leaves errors, they are not errors of this handshake.
+	ERR_clear_error();
 	if (ssl_ctx) {
 		SSL_set_SSL_CTX(ssl, ssl_ctx);
 	}
-- 
2.43.0


From 7530c0c3fecdf46a917753cb21f2e9e92f16b754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:13 +0000
Subject: [PATCH 56/64] fix: an event loop that ends keeps its kernel aio
 context and a descriptor

---
 src/kepoll_selector.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/kepoll_selector.c b/src/kepoll_selector.c
index 2df6c92..88ce6cc 100644
--- a/src/kepoll_selector.c
+++ b/src/kepoll_selector.c
@@ -169,8 +169,12 @@ static void epoll_selector_init(kselector *selector)
 static void epoll_selector_destroy(kselector *selector)
 {
 	kepoll_selector *es = (kepoll_selector *)selector->ctx;
+	//the aio context is the kernel's, nothing else gives it back
+	io_destroy(es->aio_st.aio_ctx);
+	close(es->aio_st.st.fd);
 	close(es->kdpfd);
 	close(es->notice_st.st.fd);
+	kmutex_destroy(&es->notice_st.lock);
 	xfree(es);
 }
 
-- 
2.43.0


From cd5cbb11d92ee2c196793dc5e0db1eff1b51f481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:26 +0000
Subject: [PATCH 57/64] fix: a failed event registration was remembered as done

---
 src/kepoll_selector.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/kepoll_selector.c b/src/kepoll_selector.c
index 88ce6cc..111955f 100644
--- a/src/kepoll_selector.c
+++ b/src/kepoll_selector.c
@@ -125,6 +125,8 @@ static INLINE bool epoll_add_event(int kdpfd,kselectable *st,uint16_t ev)
 	int ret = epoll_ctl(kdpfd, op, sockfd, &event);
 	if (ret !=0) {
 		klog(KLOG_ERR, "epoll ctl error fd=%d,errno=%d %s\n", sockfd,errno,strerror(errno));
+		//no event will come, the next operation has to register it
+		st->base.st_flags = prev_ev;
 		return false;
 	}
 	return true;
-- 
2.43.0


From 33969dee014a7808f33791b509b1e8ad0c9dd7e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:29 +0000
Subject: [PATCH 58/64] fix: opening a unix server rewrote its address while a
 listener of it could be reading it

every loop's listener wrote the path back with getsockname although there is no
port to learn, while a listener already running on another loop reads the
address when it ends.
---
 src/kserver.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/kserver.c b/src/kserver.c
index cf2cde5..34f9f01 100644
--- a/src/kserver.c
+++ b/src/kserver.c
@@ -190,8 +190,8 @@ static kserver_selectable* kserver_listen_on_selector(kselector *selector, kserv
 	if (!ksocket_opened(sockfd)) {
 		return NULL;
 	}
-	if (ksocket_addr_port(&server->addr) == 0) {
-		//update addr
+	if (server->addr.v4.sin_family != AF_UNIX && ksocket_addr_port(&server->addr) == 0) {
+		//update addr, a unix path has no port to learn and may be read by a listener that already runs
 		socklen_t addr_len = (socklen_t)ksocket_addr_len(&server->addr);
 		getsockname(sockfd, (struct sockaddr*)&server->addr, &addr_len);
 	}
-- 
2.43.0


From 5f15c4e730ea6558f458ac147fd1f993aeeb3991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:54 +0000
Subject: [PATCH 59/64] fix: a late wait on a manual-reset fiber condition
 returned the fiber's last wake value instead of the condition's

---
 src/kfiber_sync.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/kfiber_sync.c b/src/kfiber_sync.c
index 6f57cfc..2fce194 100644
--- a/src/kfiber_sync.c
+++ b/src/kfiber_sync.c
@@ -208,7 +208,7 @@ int kfiber_cond_wait_ts(kfiber_cond* fc, int *got)
 	kmutex_lock(&fcs->lock);
 	if (fc->ev > 0) {
 		if (got) {
-			*got = fiber->retval;
+			*got = fc->got;
 		}
 		kmutex_unlock(&fcs->lock);
 		return 0;
@@ -229,7 +229,7 @@ int kfiber_cond_try_wait_ts(kfiber_cond* fc, int* got) {
 	kmutex_lock(&fcs->lock);
 	if (fc->ev > 0) {
 		if (got) {
-			*got = fiber->retval;
+			*got = fc->got;
 		}
 		kmutex_unlock(&fcs->lock);
 		return 0;
@@ -271,7 +271,7 @@ int kfiber_cond_wait(kfiber_cond* fc, int *got)
 	CHECK_FIBER(fiber);
 	if (fc->ev > 0) {
 		if (got) {
-			*got = fiber->retval;
+			*got = fc->got;
 		}
 		return 0;
 	}
@@ -287,7 +287,7 @@ int kfiber_cond_try_wait(kfiber_cond* fc, int* got) {
 	CHECK_FIBER(fiber);
 	if (fc->ev > 0) {
 		if (got) {
-			*got = fiber->retval;
+			*got = fc->got;
 		}
 		return 0;
 	}
-- 
2.43.0


From 293163056ce1c916b78f31a7d6180752362548a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:42 +0000
Subject: [PATCH 60/64] fix: notices of a thread event for several waiting
 threads were merged, and a reset right after a notice kept its waiters

---
 include/ksync.h | 32 ++++++++++++++++++++++++++------
 1 file changed, 26 insertions(+), 6 deletions(-)

diff --git a/include/ksync.h b/include/ksync.h
index f4acf90..7e9898c 100644
--- a/include/ksync.h
+++ b/include/ksync.h
@@ -22,6 +22,9 @@ typedef void kcond;
 typedef struct {
 	bool ev;
 	bool auto_reset;
+	unsigned waiter;/* auto reset: threads waiting that no notice was given to */
+	unsigned wakeup;/* auto reset: notices given to a waiting thread that it did not take yet */
+	unsigned notices;/* manual reset: number of notices */
 	kmutex  mutex;
 	pthread_cond_t cond;
 } kcond;
@@ -55,11 +58,21 @@ INLINE void kcond_wait(kcond *cond)
 	WaitForSingleObject(cond, INFINITE);
 #else
 	kmutex_lock(&cond->mutex);
-	while (!cond->ev) {
-		pthread_cond_wait(&cond->cond, &cond->mutex);
-	}
 	if (cond->auto_reset) {
-		cond->ev = false;
+		if (cond->ev) {
+			cond->ev = false;
+		} else {
+			cond->waiter++;
+			do {
+				pthread_cond_wait(&cond->cond, &cond->mutex);
+			} while (cond->wakeup == 0);
+			cond->wakeup--;
+		}
+	} else {
+		unsigned notices = cond->notices;
+		while (!cond->ev && cond->notices == notices) {
+			pthread_cond_wait(&cond->cond, &cond->mutex);
+		}
 	}
 	kmutex_unlock(&cond->mutex);
 #endif
@@ -93,10 +106,17 @@ INLINE void kcond_notice(kcond *cond)
 	SetEvent(cond);
 #else
 	kmutex_lock(&cond->mutex);
-	cond->ev = true;
 	if (cond->auto_reset) {
-		pthread_cond_signal(&cond->cond);
+		if (cond->waiter > 0) {
+			cond->waiter--;
+			cond->wakeup++;
+			pthread_cond_signal(&cond->cond);
+		} else {
+			cond->ev = true;
+		}
 	} else {
+		cond->ev = true;
+		cond->notices++;
 		pthread_cond_broadcast(&cond->cond);
 	}
 	kmutex_unlock(&cond->mutex);
-- 
2.43.0


From 8d954bb6424fe6d965b3c7b766061d8a009e50ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:08:36 +0000
Subject: [PATCH 61/64] fix: selector_manager_grow gives new selectors the
 time-outs that were set

---
 src/kselector_manager.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/kselector_manager.c b/src/kselector_manager.c
index 6a4dd23..3b53d3f 100644
--- a/src/kselector_manager.c
+++ b/src/kselector_manager.c
@@ -264,6 +264,8 @@ bool selector_manager_grow(int  new_size) {
 	for (int i = kgl_selector_count; i < new_size; i++) {
 		kgl_selectors[i] = kselector_new(NULL);
 		kgl_selectors[i]->sid = i;
+		//the time-outs which were set hold for every selector
+		memcpy(kgl_selectors[i]->timeout, kgl_selectors[0]->timeout, sizeof(kgl_selectors[i]->timeout));
 		kselector_start(kgl_selectors[i]);
 	}
 	kgl_selector_count = new_size;
-- 
2.43.0


From 2ffad9f4ee3cd6ef2a2e6e0624c52147ae6395ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:25:37 +0000
Subject: [PATCH 62/64] fix: wait_socket_event used select, which cannot take a
 descriptor beyond FD_SETSIZE

---
 src/ksocket.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ksocket.c b/src/ksocket.c
index fec6f5e..51ba8ca 100644
--- a/src/ksocket.c
+++ b/src/ksocket.c
@@ -310,7 +310,8 @@ bool wait_socket_event(SOCKET sockfd, bool is_write, int tmo) {
 	if (tmo <= 0) {
 		return true;
 	}
-#ifdef HAVE_POLL
+#ifndef _WIN32
+	//select cannot take a descriptor beyond FD_SETSIZE
 	struct pollfd poll_list;
 	poll_list.fd = sockfd;
 	if (is_write) {
-- 
2.43.0


From 0d54f8ab275f658dcd9b1d2a13a6db1bece62297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:29:14 +0000
Subject: [PATCH 63/64] fix: a unix path that does not fit into an address was
 cut without notice

---
 src/kserver.c | 9 ++++++++-
 src/ksocket.c | 6 +++++-
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/kserver.c b/src/kserver.c
index 34f9f01..25588bb 100644
--- a/src/kserver.c
+++ b/src/kserver.c
@@ -221,7 +221,14 @@ bool kserver_bind(kserver *server, const char *ip, uint16_t port, kgl_ssl_ctx *s
 #endif
 	if (*ip=='/') {
 #ifdef KSOCKET_UNIX	
-		ksocket_unix_addr(ip,&server->un_addr);
+		if (ksocket_unix_addr(ip,&server->un_addr) != 0) {
+#ifdef KSOCKET_SSL
+			if (ssl_ctx) {
+				kgl_release_ssl_ctx(ssl_ctx);
+			}
+#endif
+			return false;
+		}
 #endif
 	} else if (!ksocket_getaddr(ip, port, 0, AI_NUMERICHOST, &server->addr)) {
 #ifdef KSOCKET_SSL
diff --git a/src/ksocket.c b/src/ksocket.c
index 51ba8ca..21c88e1 100644
--- a/src/ksocket.c
+++ b/src/ksocket.c
@@ -240,9 +240,13 @@ SOCKET ksocket_listen(const sockaddr_i* addr, int flag) {
 }
 #ifdef KSOCKET_UNIX	
 int ksocket_unix_addr(const char* path, struct sockaddr_un* addr) {
+	if (strlen(path) >= sizeof(addr->sun_path)) {
+		//only a part of the path would be used
+		return -1;
+	}
 	memset(addr, 0, sizeof(struct sockaddr_un));
 	addr->sun_family = AF_UNIX;
-	strncpy(addr->sun_path, path, sizeof(addr->sun_path));
+	strcpy(addr->sun_path, path);
 	return 0;
 }
 #endif
-- 
2.43.0


From 95ec40286c48cd701a5c18ff0c0fd55f4701971c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:50:01 +0000
Subject: [PATCH 64/64] fix: an early-data handshake failed when the thread had
 an old TLS error

---
 src/kconnection.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/kconnection.c b/src/kconnection.c
index 7631d18..371fb5a 100644
--- a/src/kconnection.c
+++ b/src/kconnection.c
@@ -161,6 +161,8 @@ kev_result kselectable_ssl_handshake(kselectable *st,result_callback cb, void *a
 	if (ssl->try_early_data) {
 		u_char     buf;
 		size_t     readbytes = 0;
+		//SSL_get_error looks at the error queue of the thread first.
+		ERR_clear_error();
 		int n = SSL_read_early_data(ssl->ssl, &buf, 1, &readbytes);
 		//printf("sh=[%p %p] SSL_read_early_data=[%d]\n", sh,ssl->ssl,n);
 		if (n == SSL_READ_EARLY_DATA_FINISH) {
-- 
2.43.0

