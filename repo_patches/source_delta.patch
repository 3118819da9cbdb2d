From 6eaf2fe1f40020f359383cf5400983e2c415dba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:38 +0000
Subject: [PATCH 01/42] fix: run timers and timeouts on a clock that never goes
 back

Compensating for a backward step of the wall clock missed timers posted from
other threads, loops run by kasync_main and steps within one second. Timers and
socket timeouts now use the monotonic clock and need no compensation.
---
 include/kselectable.h   |  2 +-
 include/kselector.h     |  2 +-
 src/kselector.c         | 51 ++++++++++++++---------------------------
 src/kselector_manager.c |  7 ++----
 4 files changed, 21 insertions(+), 41 deletions(-)

diff --git a/include/kselectable.h b/include/kselectable.h
index 64ebd4b..754d6d2 100644
--- a/include/kselectable.h
+++ b/include/kselectable.h
@@ -96,7 +96,7 @@ INLINE void kselector_add_list(kselector* selector, kselectable* st, int list) {
 	st->base.tmo_left = st->base.tmo;
 	kassert(st->base.selector == selector);
 	if (list != KGL_LIST_READY) {
-		st->active_msec = kgl_current_msec;
+		st->active_msec = kgl_timer_msec;
 	}
 	kassert(list >= 0 && list < KGL_LIST_COUNT);
 	if (st->base.queue.next) {
diff --git a/include/kselector.h b/include/kselector.h
index 94d61d9..a09c6df 100644
--- a/include/kselector.h
+++ b/include/kselector.h
@@ -135,7 +135,6 @@ INLINE bool kselector_is_same_thread(kselector* selector) {
 void kselector_update_time();
 int kselector_check_timeout(kselector* selector, int event_number);
 int kselector_add_timer(kselector* selector, result_callback result, void* arg, int msec, KOPAQUE data);
-void kselector_adjust_time(kselector* selector, int64_t diff_time);
 void kselector_default_bind(kselector* selector, kselectable* st);
 bool kselector_default_readhup(kselector* selector, kselectable* st, result_callback result, void* arg);
 bool kselector_default_remove_readhup(kselector* selector, kselectable* st);
@@ -169,6 +168,7 @@ INLINE void kselector_set_fiber(kselector* selector, kfiber* fiber) {
 }
 extern kselector_module kgl_selector_module;
 extern volatile int64_t kgl_current_msec;
+extern volatile int64_t kgl_timer_msec;
 extern volatile time_t kgl_current_sec;
 extern time_t kgl_program_start_sec;
 KEND_DECLS
diff --git a/src/kselector.c b/src/kselector.c
index e48d8d4..00585f9 100644
--- a/src/kselector.c
+++ b/src/kselector.c
@@ -15,6 +15,8 @@
 pthread_key_t kgl_selector_key;
 kselector_module kgl_selector_module = { NULL };
 volatile int64_t kgl_current_msec = 0;
+/* clock of the timers and timeouts: it never goes back */
+volatile int64_t kgl_timer_msec = 0;
 volatile time_t kgl_current_sec = 0;
 time_t kgl_program_start_sec = 0;
 void (*kgl_second_change_hook)() = NULL;
@@ -45,12 +47,15 @@ static inline int gettimeofday(struct timeval *tp, void *tzp)
 	return (0);
 }
 #endif
-static kev_result next_adjust_time(KOPAQUE data, void *arg, int got)
+static inline int64_t kselector_monotonic_msec()
 {
-	int64_t *diff_time = (int64_t *)arg;
-	kselector_adjust_time(kgl_get_tls_selector(), *diff_time);
-	xfree(diff_time);
-	return kev_ok;
+#ifdef _WIN32
+	return (int64_t)GetTickCount64();
+#else
+	struct timespec ts;
+	clock_gettime(CLOCK_MONOTONIC, &ts);
+	return (int64_t)ts.tv_sec * 1000 + (ts.tv_nsec / 1000000);
+#endif
 }
 static INLINE struct krb_node *kgl_insert_block_queue(struct krb_root *root, kgl_block_queue *brq, bool *is_first)
 {
@@ -108,29 +113,6 @@ void kselector_next(kselector *selector, KOPAQUE data, result_callback result, v
 {
 	kassert(kselector_is_same_thread(selector));
 }
-void kselector_adjust_time(kselector *selector, int64_t diff_time)
-{
-	if (!kselector_is_same_thread(selector)) {
-		int64_t *param = xmemory_new(int64_t);
-		*param = diff_time;
-		kgl_selector_module.next(selector,NULL, next_adjust_time, param,0);
-		return;
-	}
-	struct krb_node *node = selector->block_first;
-	while (node) {
-		kgl_block_queue *brq = (kgl_block_queue *)node->data;
-		kassert(brq);
-		brq->active_msec += diff_time;
-		node = rb_next(node);
-	}
-	for (int i = 0; i <= KGL_LIST_RW; i++) {
-		kgl_list *pos;
-		klist_foreach (pos, &selector->list[i]) {
-			kselectable *st = kgl_list_data(pos, kselectable, base.queue);
-			st->active_msec += diff_time;
-		}
-	}
-}
 void kselector_update_time()
 {	
 	struct timeval   tv;
@@ -146,6 +128,7 @@ void kselector_update_time()
 		}
 	}
 	kgl_current_msec = (int64_t)tv.tv_sec * 1000 + (tv.tv_usec / 1000);
+	kgl_timer_msec = kselector_monotonic_msec();
 	return;
 }
 int kselector_check_timeout(kselector *selector,int event_number)
@@ -169,14 +152,14 @@ int kselector_check_timeout(kselector *selector,int event_number)
 				selectable_shutdown(st);
 			}
 #endif
-			if ((kgl_current_msec - st->active_msec) < (time_t)selector->timeout[i]) {
+			if ((kgl_timer_msec - st->active_msec) < (time_t)selector->timeout[i]) {
 				break;
 			}
 			klist_remove(l);
 			memset(l, 0, sizeof(kgl_list));
 			if (st->base.tmo_left > 0) {
 				st->base.tmo_left--;
-				st->active_msec = kgl_current_msec;
+				st->active_msec = kgl_timer_msec;
 				klist_append(&selector->list[i], l);
 				continue;
 			}
@@ -188,7 +171,7 @@ int kselector_check_timeout(kselector *selector,int event_number)
 			if (KBIT_TEST(st->base.st_flags, STF_RTIME_OUT) && KBIT_TEST(st->base.st_flags,STF_READ)>0) {
 				//set read time out
 				klist_append(&selector->list[i], l);
-				st->active_msec = kgl_current_msec;
+				st->active_msec = kgl_timer_msec;
 				kassert(st->e[OP_READ].result);
 				st->e[OP_READ].result(st->data, st->e[OP_READ].arg, ST_ERR_TIME_OUT);
 				continue;
@@ -203,10 +186,10 @@ int kselector_check_timeout(kselector *selector,int event_number)
 		kassert(rq);
 #ifdef MALLOCDEBUG
 		if (selector->shutdown) {
-			rq->active_msec = kgl_current_msec - 1;
+			rq->active_msec = kgl_timer_msec - 1;
 		}
 #endif
-		if (kgl_current_msec < rq->active_msec) {
+		if (kgl_timer_msec < rq->active_msec) {
 			break;
 		}
 		struct krb_node *next = rb_next(selector->block_first);
@@ -298,7 +281,7 @@ int kselector_add_timer(kselector *selector, result_callback result, void *arg,
 #endif
 	kgl_block_queue *brq = (kgl_block_queue *)xmalloc(sizeof(kgl_block_queue));
 	memset(brq, 0, sizeof(kgl_block_queue));
-	brq->active_msec = kgl_current_msec + msec;
+	brq->active_msec = kgl_timer_msec + msec;
 	brq->func = result;
 	brq->arg = arg;
 	brq->data = data;
diff --git a/src/kselector_manager.c b/src/kselector_manager.c
index 34e34fb..3e1aa28 100644
--- a/src/kselector_manager.c
+++ b/src/kselector_manager.c
@@ -116,7 +116,7 @@ static kev_result add_timer_on_ready(KOPAQUE data, void* arg, int got)
 void selector_manager_add_timer(result_callback timer, void *arg, int msec, KOPAQUE data)
 {
 	kgl_block_queue *brq = xmemory_new(kgl_block_queue);
-	brq->active_msec = kgl_current_msec + msec;
+	brq->active_msec = kgl_timer_msec + msec;
 	brq->func = timer;
 	brq->arg = arg;
 	brq->data = data;
@@ -129,7 +129,7 @@ void selector_manager_add_timer(result_callback timer, void *arg, int msec, KOPA
 void kselector_add_timer_ts(kselector *selector,result_callback timer, void *arg, int msec, KOPAQUE data)
 {
 	kgl_block_queue *brq = xmemory_new(kgl_block_queue);
-	brq->active_msec = kgl_current_msec + msec;
+	brq->active_msec = kgl_timer_msec + msec;
 	brq->func = timer;
 	brq->arg = arg;
 	brq->data = data;
@@ -182,9 +182,6 @@ void selector_manager_adjust_time(int64_t diff_msec)
 {
 	klog(KLOG_ERR, "WARNING!! adjust system time diff_msec=[" INT64_FORMAT "]\n",diff_msec);
 	kgl_program_start_sec += (diff_msec / 1000);
-	for (int i = 0; i < kgl_selector_count; i++) {
-		kselector_adjust_time(kgl_selectors[i], diff_msec);
-	}
 }
 static kev_result kthread_flush_timer(KOPAQUE data, void *arg, int got)
 {
-- 
2.43.0


From 05451b390d0592cfae5997e59ec65c5bbf2094a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:35 +0000
Subject: [PATCH 02/42] fix: thread events survive spurious wakeups and stay
 notified

kcond_wait returned on a spurious wakeup of pthread_cond_wait, one notice could
release a second thread that took the fast path, and waiting for an already
notified manual reset event reset it.
---
 include/ksync.h | 33 +++++++++++++++++++++++++++------
 1 file changed, 27 insertions(+), 6 deletions(-)

diff --git a/include/ksync.h b/include/ksync.h
index c34a859..8d4aeb9 100644
--- a/include/ksync.h
+++ b/include/ksync.h
@@ -22,6 +22,8 @@ typedef void kcond;
 typedef struct {
 	bool ev;
 	bool auto_reset;
+	uint32_t waiter;/* threads waiting for an auto reset event */
+	uint32_t notice;/* auto reset: waiters to be released. manual reset: notices so far */
 	kmutex  mutex;
 	pthread_cond_t cond;
 } kcond;
@@ -56,13 +58,24 @@ INLINE void kcond_wait(kcond *cond)
 #else
 	kmutex_lock(&cond->mutex);
 	if (cond->ev) {
-		cond->ev = false;
+		if (cond->auto_reset) {
+			cond->ev = false;
+		}
 		kmutex_unlock(&cond->mutex);
 		return;
 	}
-	pthread_cond_wait(&cond->cond, &cond->mutex);
 	if (cond->auto_reset) {
-		cond->ev = false;
+		cond->waiter++;
+		while (cond->notice == 0) {
+			pthread_cond_wait(&cond->cond, &cond->mutex);
+		}
+		cond->notice--;
+		cond->waiter--;
+	} else {
+		uint32_t notice = cond->notice;
+		while (notice == cond->notice) {
+			pthread_cond_wait(&cond->cond, &cond->mutex);
+		}
 	}
 	kmutex_unlock(&cond->mutex);
 #endif
@@ -73,7 +86,9 @@ INLINE bool kcond_try_wait(kcond* cond, int msec) {
 #else
 	kmutex_lock(&cond->mutex);
 	if (cond->ev) {
-		cond->ev = false;
+		if (cond->auto_reset) {
+			cond->ev = false;
+		}
 		kmutex_unlock(&cond->mutex);
 		return true;
 	}
@@ -94,10 +109,16 @@ INLINE void kcond_notice(kcond *cond)
 	SetEvent(cond);
 #else
 	kmutex_lock(&cond->mutex);
-	cond->ev = true;
 	if (cond->auto_reset) {
-		pthread_cond_signal(&cond->cond);
+		if (cond->waiter > cond->notice) {
+			cond->notice++;
+			pthread_cond_signal(&cond->cond);
+		} else {
+			cond->ev = true;
+		}
 	} else {
+		cond->ev = true;
+		cond->notice++;
 		pthread_cond_broadcast(&cond->cond);
 	}
 	kmutex_unlock(&cond->mutex);
-- 
2.43.0


From 3d4519240ee56892ba5a64074a2d38114a53a80c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:35 +0000
Subject: [PATCH 03/42] fix: every exit callback and joiner of a fiber is told

A fiber's close condition created by kfiber_exit_callback or kfiber_ref_self was
auto reset, so only one of several callbacks and joiners was released.
---
 src/kfiber.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/kfiber.c b/src/kfiber.c
index 84f1c20..338680c 100644
--- a/src/kfiber.c
+++ b/src/kfiber.c
@@ -333,7 +333,7 @@ int kfiber_exit_callback(KOPAQUE data, result_callback notice, void* arg) {
 	kfiber* fiber = kfiber_self2();
 	CHECK_FIBER(fiber);
 	if (fiber->close_cond == NULL) {
-		fiber->close_cond = kfiber_cond_init(true);
+		fiber->close_cond = kfiber_cond_init(false);
 	}
 	return fiber->close_cond->f->wait_callback(fiber->close_cond, data, notice, arg);
 }
@@ -342,9 +342,9 @@ kfiber* kfiber_ref_self(bool thread_safe) {
 	assert(fiber && !kfiber_is_main_fiber(fiber));
 	if (fiber->close_cond == NULL) {
 		if (thread_safe) {
-			fiber->close_cond = kfiber_cond_init_ts(true);
+			fiber->close_cond = kfiber_cond_init_ts(false);
 		} else {
-			fiber->close_cond = kfiber_cond_init(true);
+			fiber->close_cond = kfiber_cond_init(false);
 		}
 	}
 	katom_inc((void*)&fiber->base.ref);
-- 
2.43.0


From 8a9010d0a4fa26526d105a8a61ea10810d8c5416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:58 +0000
Subject: [PATCH 04/42] fix: a join callback set after the fiber ended gets its
 return value

wait_callback of an already notified manual reset cond reported 0.
---
 include/kfiber_internal.h | 1 +
 src/kfiber_sync.c         | 7 +++++--
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/kfiber_internal.h b/include/kfiber_internal.h
index 4e4890d..0da5b07 100644
--- a/include/kfiber_internal.h
+++ b/include/kfiber_internal.h
@@ -100,6 +100,7 @@ struct _kfiber_cond {
 	kfiber_cond_function* f;
 	kfiber_waiter* waiter;
 	volatile int32_t ev;
+	int got; /* last notified value of a manual reset cond */
 };
 typedef struct _kfiber_event_waiter {
 	kgl_base_selectable base;
diff --git a/src/kfiber_sync.c b/src/kfiber_sync.c
index 0ab8567..78b0e44 100644
--- a/src/kfiber_sync.c
+++ b/src/kfiber_sync.c
@@ -48,7 +48,7 @@ kev_result kfiber_cond_wait_callback_ar(kfiber_cond* fc, KOPAQUE data, result_ca
 kev_result kfiber_cond_wait_callback(kfiber_cond * fc, KOPAQUE data, result_callback notice, void* arg)
 {
 	if (fc->ev>0) {
-		kgl_selector_module.next(kgl_get_tls_selector(), data, notice, arg, 0);
+		kgl_selector_module.next(kgl_get_tls_selector(), data, notice, arg, fc->got);
 		return kev_ok;		
 	}
 	kfiber_add_ev_waiter(&fc->waiter, kgl_get_tls_selector(), data, notice, arg);
@@ -74,8 +74,9 @@ kev_result kfiber_cond_wait_callback_ts(kfiber_cond* fc, KOPAQUE data, result_ca
 	kfiber_cond_ts* fcs = (kfiber_cond_ts*)fc;
 	kmutex_lock(&fcs->lock);
 	if (fc->ev > 0) {
+		int got = fc->got;
 		kmutex_unlock(&fcs->lock);
-		kgl_selector_module.next(kgl_get_tls_selector(), data, notice, arg, 0);
+		kgl_selector_module.next(kgl_get_tls_selector(), data, notice, arg, got);
 		return kev_ok;
 	}
 	kfiber_add_ev_waiter(&fc->waiter, kgl_get_tls_selector(), data, notice, arg);
@@ -112,6 +113,7 @@ int kfiber_cond_notice_ts(kfiber_cond* fc,int got)
 {
 	kfiber_cond_ts* fcs = (kfiber_cond_ts*)fc;
 	kmutex_lock(&fcs->lock);
+	fc->got = got;
 	fc->ev = 1;
 	kfiber_waiter* waiter = fc->waiter;
 	fc->waiter = NULL;
@@ -122,6 +124,7 @@ int kfiber_cond_notice_ts(kfiber_cond* fc,int got)
 
 int kfiber_cond_notice(kfiber_cond* fc,int got)
 {
+	fc->got = got;
 	fc->ev = 1;
 	kfiber_waiter* waiter = fc->waiter;
 	fc->waiter = NULL;
-- 
2.43.0


From c671e558f43e163fe7f5c1d3a5593efefbbe3e8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:03 +0000
Subject: [PATCH 05/42] fix: join and exit callbacks of fibers created by
 kfiber_create_sync

Their close condition had no wait_callback, so kfiber_exit_callback and
kfiber_join2 called a null pointer.
---
 include/kfiber_sync.h |  1 +
 src/kfiber_sync.c     | 25 ++++++++++++++++++++++++-
 2 files changed, 25 insertions(+), 1 deletion(-)

diff --git a/include/kfiber_sync.h b/include/kfiber_sync.h
index 5ee8ea5..4219cc1 100644
--- a/include/kfiber_sync.h
+++ b/include/kfiber_sync.h
@@ -34,6 +34,7 @@ struct _kfiber_cond_sync
 {
 	kfiber_cond base;
 	kcond* sync_cond;
+	kmutex lock; /* protects the callback waiters */
 	int got;
 };
 
diff --git a/src/kfiber_sync.c b/src/kfiber_sync.c
index 78b0e44..622ba49 100644
--- a/src/kfiber_sync.c
+++ b/src/kfiber_sync.c
@@ -240,9 +240,30 @@ int kfiber_cond_notice_sync(kfiber_cond* fc, int got)
 {
 	kfiber_cond_sync* sync = (kfiber_cond_sync*)fc;
 	sync->got = got;
+	kmutex_lock(&sync->lock);
+	fc->got = got;
+	fc->ev = 1;
+	kfiber_waiter* waiter = fc->waiter;
+	fc->waiter = NULL;
+	kmutex_unlock(&sync->lock);
 	kcond_notice(sync->sync_cond);
+	kfiber_wakeup_all_waiter(waiter, got);
 	return 0;
 }
+kev_result kfiber_cond_wait_callback_sync(kfiber_cond* fc, KOPAQUE data, result_callback notice, void* arg)
+{
+	kfiber_cond_sync* sync = (kfiber_cond_sync*)fc;
+	kmutex_lock(&sync->lock);
+	if (fc->ev > 0) {
+		int got = fc->got;
+		kmutex_unlock(&sync->lock);
+		kgl_selector_module.next(kgl_get_tls_selector(), data, notice, arg, got);
+		return kev_ok;
+	}
+	kfiber_add_ev_waiter(&fc->waiter, kgl_get_tls_selector(), data, notice, arg);
+	kmutex_unlock(&sync->lock);
+	return kev_ok;
+}
 int kfiber_cond_wait_sync(kfiber_cond* fc, int *got)
 {
 	assert(kgl_get_tls_selector() == NULL);
@@ -308,6 +329,7 @@ void kfiber_cond_destroy_sync(kfiber_cond* fc)
 {
 	assert(fc->waiter == NULL);
 	kcond_destroy(((kfiber_cond_sync*)fc)->sync_cond);
+	kmutex_destroy(&((kfiber_cond_sync*)fc)->lock);
 	xfree(fc);
 }
 static kfiber_cond_function kfiber_cond_single_thread_auto_reset = {
@@ -342,7 +364,7 @@ static kfiber_cond_function kfiber_cond_thread_sync = {
 	kfiber_cond_notice_sync,
 	kfiber_cond_wait_sync,
 	kfiber_cond_try_wait_sync,
-	NULL,
+	kfiber_cond_wait_callback_sync,
 	kfiber_cond_destroy_sync
 };
 kfiber_cond* kfiber_cond_init(bool auto_reset)
@@ -372,6 +394,7 @@ kfiber_cond* kfiber_cond_init_sync(bool auto_reset)
 {
 	kfiber_cond_sync* fc = (kfiber_cond_sync*)xmemory_newz(sizeof(kfiber_cond_sync));
 	fc->sync_cond = kcond_init(auto_reset);
+	kmutex_init(&fc->lock, NULL);
 	fc->base.f = &kfiber_cond_thread_sync;
 	return (kfiber_cond*)fc;
 }
-- 
2.43.0


From fccdaa170dd8e6d890508cae81247b45477740bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:43 +0000
Subject: [PATCH 06/42] fix: kfiber_mutex_lock2 can be called and is counted

It asserted that a loop thread has no current fiber, which is never true, and did
not count the holder or waiter that kfiber_mutex_unlock counts down.
---
 src/kfiber_sync.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/kfiber_sync.c b/src/kfiber_sync.c
index 622ba49..95c8f33 100644
--- a/src/kfiber_sync.c
+++ b/src/kfiber_sync.c
@@ -10,8 +10,9 @@
 //mutext
 kev_result kfiber_mutex_lock2(kfiber_mutex* mutex, KOPAQUE data, result_callback notice, void* arg)
 {
-	kassert(kfiber_self2() == NULL);
+	kassert(kfiber_is_main());
 	kmutex_lock(&mutex->lock);
+	mutex->count++;
 	if (mutex->worker < mutex->limit) {
 		mutex->worker++;
 		kmutex_unlock(&mutex->lock);
-- 
2.43.0


From 7b65bca3d7f50092f987670b6ca6d5bf0e757750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:43 +0000
Subject: [PATCH 07/42] fix: kfiber_rwlock_wunlock wakes readers without
 holding the lock's mutex

A reader of the same loop runs at once and deadlocked in its own runlock.
---
 include/kfiber_sync.h | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/include/kfiber_sync.h b/include/kfiber_sync.h
index 4219cc1..6f69ee6 100644
--- a/include/kfiber_sync.h
+++ b/include/kfiber_sync.h
@@ -196,13 +196,12 @@ INLINE int kfiber_rwlock_wunlock(kfiber_rwlock* mutex) {
 	if (mutex->reader) {
 		kfiber_waiter* waiter = mutex->reader;
 		mutex->reader = NULL;
-		while (waiter) {
+		for (kfiber_waiter* reader = waiter; reader; reader = reader->next) {
 			mutex->cnt++;
-			kfiber_waiter* next = waiter->next;
-			kfiber_wakeup_waiter(waiter, 0);
-			waiter = next;
 		}
 		kmutex_unlock(&mutex->lock);
+		/* a reader of this loop runs at once and may unlock */
+		kfiber_wakeup_all_waiter(waiter, 0);
 		return 0;
 	}
 	return __kfiber_rwlock_try_wakeup_writer(mutex);
-- 
2.43.0


From 9f8a10a981243f84a05946ba988834bc3e22bdcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:54 +0000
Subject: [PATCH 08/42] fix: kasync_worker survives a thread that cannot be
 started

worker-- moved the local pointer instead of the count, and the job
stayed in a queue nobody served.
---
 src/kasync_worker.c | 45 ++++++++++++++++++++++++++++++++-------------
 1 file changed, 32 insertions(+), 13 deletions(-)

diff --git a/src/kasync_worker.c b/src/kasync_worker.c
index 23b4767..cfb93d7 100644
--- a/src/kasync_worker.c
+++ b/src/kasync_worker.c
@@ -85,7 +85,7 @@ bool kasync_worker_thread_start(void *param, kasync_worker_callback cb)
 	xfree(p);
 	return false;
 }
-static void kasync_worker_add(kasync_worker *worker, kasync_worker_param *rq, bool high)
+static void kasync_worker_push(kasync_worker *worker, kasync_worker_param *rq, bool high)
 {
 	worker->queue++;
 	if (worker->last == NULL) {
@@ -103,16 +103,23 @@ static void kasync_worker_add(kasync_worker *worker, kasync_worker_param *rq, bo
 			worker->last = rq;
 		}
 	}
-	if (worker->worker >= worker->max_worker) {
-		return;
-	}
-	worker->worker++;
-	kasync_worker_refs(worker);
-	if (!kthread_pool_start(kasync_worker_worker_thread,worker)) {
-		worker--;
-		kasync_worker_release(worker);
+}
+/* return false when no thread is running and none can be started, rq is not added */
+static bool kasync_worker_add(kasync_worker *worker, kasync_worker_param *rq, bool high)
+{
+	if (worker->worker < worker->max_worker) {
+		worker->worker++;
+		kasync_worker_refs(worker);
+		if (!kthread_pool_start(kasync_worker_worker_thread, worker)) {
+			worker->worker--;
+			kasync_worker_release(worker);
+			if (worker->worker == 0) {
+				return false;
+			}
+		}
 	}
-	return;
+	kasync_worker_push(worker, rq, high);
+	return true;
 }
 bool kasync_worker_try_start(kasync_worker *worker, void *data, kasync_worker_callback cb, bool high)
 {
@@ -128,7 +135,11 @@ bool kasync_worker_try_start(kasync_worker *worker, void *data, kasync_worker_ca
 	rq->data = data;
 	rq->next = NULL;
 	rq->wait = NULL;
-	kasync_worker_add(worker,rq, high);
+	if (!kasync_worker_add(worker, rq, high)) {
+		kmutex_unlock(&worker->lock);
+		kasync_worker_param_destroy(rq);
+		return false;
+	}
 	kmutex_unlock(&worker->lock);
 	return true;
 }
@@ -152,8 +163,16 @@ void kasync_worker_start(kasync_worker *worker, void *data, kasync_worker_callba
 		wait = kcond_init(true);
 	}
 	rq->wait = wait;
-	kasync_worker_add(worker, rq, false);
-	kmutex_unlock(&worker->lock);
+	if (!kasync_worker_add(worker, rq, false)) {
+		/* no thread can be started, the caller works as one */
+		worker->worker++;
+		kasync_worker_refs(worker);
+		kasync_worker_push(worker, rq, false);
+		kmutex_unlock(&worker->lock);
+		kasync_worker_worker_thread(worker);
+	} else {
+		kmutex_unlock(&worker->lock);
+	}
 	if (wait != NULL) {
 		kcond_wait(wait);
 		kcond_destroy(wait);
-- 
2.43.0


From e065782051899a26eb4310b0c43ca0654e3bc887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:09 +0000
Subject: [PATCH 09/42] fix: building a socket address does not write to the
 shared address list

---
 src/ksocket.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/ksocket.c b/src/ksocket.c
index 3231654..6ef02a4 100644
--- a/src/ksocket.c
+++ b/src/ksocket.c
@@ -268,15 +268,16 @@ SOCKET ksocket_accept(SOCKET s, sockaddr_i* addr, bool no_block) {
 #endif
 }
 void ksocket_addrinfo_sockaddr(struct addrinfo* ai, uint16_t port, sockaddr_i* addr) {
+	int copy_len = KGL_MIN((socklen_t)ai->ai_addrlen, sizeof(sockaddr_i));
+	kgl_memcpy(addr, ai->ai_addr, copy_len);
 	addr->v4.sin_family = ai->ai_family;
+	/* ai may be shared with other threads, only the copy gets the port */
 #ifdef KSOCKET_IPV6
 	if (ai->ai_family == PF_INET6) {
-		((struct sockaddr_in6*)ai->ai_addr)->sin6_port = htons(port);
+		addr->v6.sin6_port = htons(port);
 	} else
 #endif
-		((struct sockaddr_in*)ai->ai_addr)->sin_port = htons(port);
-	int copy_len = KGL_MIN((socklen_t)ai->ai_addrlen, sizeof(sockaddr_i));
-	kgl_memcpy(addr, ai->ai_addr, copy_len);
+		addr->v4.sin_port = htons(port);
 }
 bool ksocket_getaddr(const char* host, uint16_t port, int ai_family, int ai_flags, sockaddr_i* addr) {
 	struct addrinfo* res;
-- 
2.43.0


From 95fa782f0a549f41cfb61608fa2ca9b1f4ae15d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:09 +0000
Subject: [PATCH 10/42] fix: an address list answered to waiters stays
 referenced meanwhile

---
 src/kaddr.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/kaddr.c b/src/kaddr.c
index 69ed9f3..ff5ab08 100644
--- a/src/kaddr.c
+++ b/src/kaddr.c
@@ -230,8 +230,15 @@ static void find_addr_result(kgl_addr_node *cn, struct addrinfo *addr, bool succ
 	if (addr) {
 		addr2 = kgl_addr_new(addr);
 	}
+	if (addr2) {
+		/* once in the cache cn and its refs can be gone at any time */
+		kgl_addr_refs(addr2);
+	}
 	queue = update_addr_node_cache(cn, addr2);
 	addr_result(queue, addr2);
+	if (addr2) {
+		kgl_addr_release(addr2);
+	}
 }
 
 kev_result async_addr_worker(void *data, int msec)
-- 
2.43.0


From 38d1e7f05c2def2e370a0172c13202c3162ae24a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:09 +0000
Subject: [PATCH 11/42] fix: refreshing a name that was flushed and is being
 looked up again

---
 src/kaddr.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/kaddr.c b/src/kaddr.c
index ff5ab08..2530264 100644
--- a/src/kaddr.c
+++ b/src/kaddr.c
@@ -150,6 +150,14 @@ static void update_addr_cache(kgl_addr_key *key, struct addrinfo *addr) {
 		node->data = cn;
 	} else {
 		cn = (kgl_addr_node *)node->data;
+		if (cn->prev == NULL) {
+			/* the name was flushed and is being looked up again */
+			kmutex_unlock(&addr_lock);
+			if (addr) {
+				freeaddrinfo(addr);
+			}
+			return;
+		}
 		klist_remove(cn);
 	}
 	if (cn->addr != NULL) {
-- 
2.43.0


From 9485ab3e8948f954fa0d3ccd4c54f1d1c1f9b003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:43 +0000
Subject: [PATCH 12/42] fix: kgl_addr_cname lookups ask for the canonical name

---
 src/kaddr.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/kaddr.c b/src/kaddr.c
index 2530264..c9ac0c5 100644
--- a/src/kaddr.c
+++ b/src/kaddr.c
@@ -106,8 +106,9 @@ bool get_addr(const char *hostname, kgl_addr_type addr_type, struct addrinfo **r
 	memset(&f, 0, sizeof(f));
 	switch (addr_type) {
 	case kgl_addr_cname:
-		f.ai_family = PF_INET;
+		f.ai_family = PF_UNSPEC;
 		f.ai_flags = AI_CANONNAME;
+		break;
 	default:
 		f.ai_family = PF_UNSPEC;
 		f.ai_flags = 0;
-- 
2.43.0


From f661e7744b2fd2d286bed059e690e0a89c98f382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:34 +0000
Subject: [PATCH 13/42] fix: kfiber_net_writev_full counts trailing empty
 buffers as written

---
 include/kfiber.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/kfiber.h b/include/kfiber.h
index 27ba431..6ed3c57 100644
--- a/include/kfiber.h
+++ b/include/kfiber.h
@@ -216,7 +216,7 @@ INLINE size_t kfiber_net_writev_full(kconnection * cn, kgl_iovec * buf, int* bc)
 			return total_length;
 		}
 		total_length += got;
-		while (got > 0) {
+		while (*bc > 0) {
 			if ((int)buf->iov_len > got) {
 				buf->iov_len -= got;
 				buf->iov_base = (char*)buf->iov_base + got;
-- 
2.43.0


From 69d8d46837930db13d710065ed8cfdf4f72d15ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:22 +0000
Subject: [PATCH 14/42] fix: a connect that timed out reports failure

---
 src/kselector.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/kselector.c b/src/kselector.c
index 00585f9..dfa32f1 100644
--- a/src/kselector.c
+++ b/src/kselector.c
@@ -177,6 +177,10 @@ int kselector_check_timeout(kselector *selector,int event_number)
 				continue;
 			}
 			selector->count--;
+			if (i == KGL_LIST_CONNECT) {
+				//the event of a half connect socket being shutdown is only writable
+				KBIT_SET(st->base.st_flags, STF_ERR);
+			}
 			selectable_shutdown(st);
 		}
 	}
-- 
2.43.0


From a6612c1a1c2ecd0261d500eb30407e0431921a05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:22 +0000
Subject: [PATCH 15/42] fix: reading again after a read timeout uses the new
 buffer

---
 include/kfiber.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/kfiber.h b/include/kfiber.h
index 6ed3c57..9d6c011 100644
--- a/include/kfiber.h
+++ b/include/kfiber.h
@@ -256,6 +256,7 @@ INLINE int kfiber_net_readv(kconnection * cn, kgl_iovec * buf, int bc) {
 		assert(cn->st.e[OP_READ].result == kfiber_result_callback);
 		//assert(cn->st.e[OP_READ].buffer == kfiber_buffer_callback);
 		assert(cn->st.e[OP_READ].arg == fiber);
+		cn->st.e[OP_READ].buffer = &iovec_buf;
 		return __kfiber_wait(fiber, cn->st.data);
 	}
 	return kfiber_wait_result(fiber, selectable_read(&cn->st, kfiber_result_callback, &iovec_buf, fiber), cn->st.data);
-- 
2.43.0


From 7cb0bb2dbca59bca27e642616c40f7f97a711b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:26 +0000
Subject: [PATCH 16/42] fix: kserver_close no longer shuts down a listening fd
 that is already closed

---
 src/kserver.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/kserver.c b/src/kserver.c
index d1d2e43..ab66f75 100644
--- a/src/kserver.c
+++ b/src/kserver.c
@@ -351,17 +351,18 @@ void kserver_release(kserver *server)
 
 void kserver_selectable_destroy(kserver_selectable *ss)
 {
-	if (ksocket_opened(ss->st.fd)) {
-		ksocket_close(ss->st.fd);
-		ksocket_init(ss->st.fd);
-	}
 	assert(ss->server);
+	/* leave the list before the fd is closed, kserver_close shuts down the fd of every listed one */
 	kmutex_lock(&ss->server->ss_lock);
 	if (ss->queue.next) {
 		assert(!klist_empty(&ss->server->ss));
 		klist_remove(&ss->queue);
 	}
 	kmutex_unlock(&ss->server->ss_lock);
+	if (ksocket_opened(ss->st.fd)) {
+		ksocket_close(ss->st.fd);
+		ksocket_init(ss->st.fd);
+	}
 #ifdef ACCEPT_SOCKET_SHUTDOWN_NO_EVENT
 	if(katom_get((void *)&ss->hold_by_next_shutdown_refs)>0) {
 		//hold by next_shutdown
-- 
2.43.0


From 1e1c74cb458deb62c58e4094c739560ee2605ae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:26 +0000
Subject: [PATCH 17/42] fix: accepting on a unix socket does not read past the
 listener

---
 src/kserver.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/kserver.c b/src/kserver.c
index ab66f75..ef0e154 100644
--- a/src/kserver.c
+++ b/src/kserver.c
@@ -75,7 +75,17 @@ kconnection* accept_result_new_connection(KOPAQUE data,int got)
 	if (!ksocket_opened(sockfd)) {
 		return NULL;
 	}
-	kconnection* c = kconnection_new(&ss->accept_addr);
+	kconnection* c;
+#ifdef KSOCKET_UNIX
+	if (ss->accept_addr.v4.sin_family == AF_UNIX) {
+		//kconnection_new copies a whole sockaddr_un, accept_addr is smaller
+		struct sockaddr_un un_addr;
+		memset(&un_addr, 0, sizeof(un_addr));
+		kgl_memcpy(&un_addr, &ss->accept_addr, KGL_MIN(sizeof(un_addr), sizeof(ss->accept_addr)));
+		c = kconnection_new((sockaddr_i *)&un_addr);
+	} else
+#endif
+	c = kconnection_new(&ss->accept_addr);
 	c->st.fd = sockfd;
 	c->server = ss->server;
 	kserver_refs(ss->server);	
-- 
2.43.0


From 4f258f073af7b96dc6734306d13d0b37afa9e223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:02 +0000
Subject: [PATCH 18/42] fix: replacing the TLS context of a server that is
 being closed or used

---
 include/kserver.h |  1 +
 src/kserver.c     | 48 +++++++++++++++++++++++------------------------
 2 files changed, 25 insertions(+), 24 deletions(-)

diff --git a/include/kserver.h b/include/kserver.h
index b704511..fe780f0 100644
--- a/include/kserver.h
+++ b/include/kserver.h
@@ -65,6 +65,7 @@ struct kserver_selectable_s{
 	kgl_ssl_ctx *ssl_ctx;
 #endif
 	kgl_list queue;
+	kcountable_t refs; //the listener itself and every posted event that needs it
 #ifdef ACCEPT_SOCKET_SHUTDOWN_NO_EVENT
 	volatile int32_t hold_by_next_shutdown_refs;
 #endif
diff --git a/src/kserver.c b/src/kserver.c
index ef0e154..ee1bcb9 100644
--- a/src/kserver.c
+++ b/src/kserver.c
@@ -13,13 +13,6 @@
 #endif
 #include "kfiber.h"
 
-#ifdef KSOCKET_SSL
-typedef struct {
-	kserver_selectable *ss;
-	kgl_ssl_ctx *ssl_ctx;
-} kserver_update_ssl_ctx_param;
-#endif
-
 static int kgl_failed_tries = 0;
 
 #ifndef KGL_IOCP
@@ -155,6 +148,7 @@ kserver_selectable *kserver_selectable_init(kserver *server, SOCKET sockfd)
 {
 	kserver_selectable *ss = (kserver_selectable *)xmalloc(sizeof(kserver_selectable));
 	memset(ss, 0, sizeof(kserver_selectable));
+	ss->refs = 1;
 	ss->server = server;
 	ss->st.fd = sockfd;
 #ifdef _WIN32
@@ -163,10 +157,12 @@ kserver_selectable *kserver_selectable_init(kserver *server, SOCKET sockfd)
 #endif
 	kserver_refs(server);
 #ifdef KSOCKET_SSL
+	kmutex_lock(&server->ss_lock);
 	ss->ssl_ctx = server->ssl_ctx;
 	if (ss->ssl_ctx) {
 		kgl_add_ref_ssl_ctx(ss->ssl_ctx);
 	}
+	kmutex_unlock(&server->ss_lock);
 #endif
 	return ss;
 }
@@ -359,6 +355,13 @@ void kserver_release(kserver *server)
 	return;
 }
 
+static void kserver_selectable_release(kserver_selectable *ss)
+{
+	if (katom_dec((void *)&ss->refs) == 0) {
+		kserver_release(ss->server);
+		kserver_selectable_free(ss);
+	}
+}
 void kserver_selectable_destroy(kserver_selectable *ss)
 {
 	assert(ss->server);
@@ -380,8 +383,7 @@ void kserver_selectable_destroy(kserver_selectable *ss)
 		return;
 	}
 #endif
-	kserver_release(ss->server);
-	kserver_selectable_free(ss);
+	kserver_selectable_release(ss);
 }
 #ifdef ACCEPT_SOCKET_SHUTDOWN_NO_EVENT
 kev_result kserver_selectable_next_shutdown(KOPAQUE data, void *arg,int got)
@@ -435,9 +437,15 @@ static void kserver_selectable_update_ssl_ctx(kserver_selectable *ss, kgl_ssl_ct
 }
 static kev_result kserver_ssl_ctx_next_update(KOPAQUE data, void *arg, int got)
 {
-	kserver_update_ssl_ctx_param *param = (kserver_update_ssl_ctx_param *)arg;
-	kserver_selectable_update_ssl_ctx(param->ss, param->ssl_ctx);
-	xfree(param);
+	kserver_selectable *ss = (kserver_selectable *)arg;
+	kmutex_lock(&ss->server->ss_lock);
+	kgl_ssl_ctx *ssl_ctx = ss->server->ssl_ctx;
+	if (ssl_ctx) {
+		kgl_add_ref_ssl_ctx(ssl_ctx);
+	}
+	kmutex_unlock(&ss->server->ss_lock);
+	kserver_selectable_update_ssl_ctx(ss, ssl_ctx);
+	kserver_selectable_release(ss);
 	return kev_ok;
 }
 void kserver_set_ssl_ctx(kserver *server, kgl_ssl_ctx *ssl_ctx)
@@ -446,25 +454,17 @@ void kserver_set_ssl_ctx(kserver *server, kgl_ssl_ctx *ssl_ctx)
 		//cann't set ssl_ctx to NULL
 		return;
 	}
+	kmutex_lock(&server->ss_lock);
 	if (server->ssl_ctx) {
 		kgl_release_ssl_ctx(server->ssl_ctx);
 	}
 	server->ssl_ctx = ssl_ctx;
-	kmutex_lock(&server->ss_lock);
 	kgl_list* pos;
 	klist_foreach(pos, &server->ss) {
 		kserver_selectable* ss = kgl_list_data(pos, kserver_selectable, queue);	
-		if (ssl_ctx) {
-			kgl_add_ref_ssl_ctx(ssl_ctx);
-		}
-		if (!KBIT_TEST(server->flags,KGL_SERVER_START)) {
-			kserver_selectable_update_ssl_ctx(ss, ssl_ctx);
-		} else {
-			kserver_update_ssl_ctx_param *param = xmemory_new(kserver_update_ssl_ctx_param);
-			param->ss = ss;
-			param->ssl_ctx = ssl_ctx;
-			selectable_next(&ss->st, kserver_ssl_ctx_next_update, param, 0);
-		}
+		//only the thread of the listener may change its ssl_ctx
+		katom_inc((void *)&ss->refs);
+		selectable_next(&ss->st, kserver_ssl_ctx_next_update, ss, 0);
 	}
 	kmutex_unlock(&server->ss_lock);
 }
-- 
2.43.0


From 88792fa4f94304a18358dbad5f4e816e701a621d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:54 +0000
Subject: [PATCH 19/42] fix: a transient accept error does not end a listening
 server

---
 src/kserver.c | 29 +++++++++++++++++++++++++++--
 1 file changed, 27 insertions(+), 2 deletions(-)

diff --git a/src/kserver.c b/src/kserver.c
index ee1bcb9..943ce58 100644
--- a/src/kserver.c
+++ b/src/kserver.c
@@ -16,12 +16,32 @@
 static int kgl_failed_tries = 0;
 
 #ifndef KGL_IOCP
+#define KGL_ACCEPT_RETRY_MSEC 100
+static void kserver_selectable_release(kserver_selectable *ss);
+static kev_result kserver_accept_retry(KOPAQUE data, void *arg, int got)
+{
+	kserver_selectable *ss = (kserver_selectable *)arg;
+	if (ksocket_opened(ss->st.fd) && !kgl_selector_module.accept(ss, ss->st.e[OP_WRITE].arg)) {
+		ss->st.e[OP_WRITE].result(data, ss->st.e[OP_WRITE].arg, -1);
+	}
+	kserver_selectable_release(ss);
+	return kev_ok;
+}
+/* the system is out of descriptors or memory for now, the listener itself is fine */
+static bool kserver_is_accept_busy(int err)
+{
+	return err == EMFILE || err == ENFILE || err == ENOBUFS || err == ENOMEM;
+}
 kev_result kselector_event_accept(KOPAQUE data, void *arg,int got)
 {
 	kserver_selectable *ss = (kserver_selectable *)arg;
 	//printf("ksocket_accept called...\n");
-	SOCKET sockfd = ksocket_accept(ss->st.fd,&ss->accept_addr, true);
-	
+	SOCKET sockfd;
+	do {
+		sockfd = ksocket_accept(ss->st.fd,&ss->accept_addr, true);
+		//a connection that went away before it was accepted is not the end of the listener
+	} while (sockfd < 0 && (errno == EINTR || errno == ECONNABORTED || errno == EPROTO));
+
 	if (sockfd>=0) {
 		//printf("ksocket_accept=[%d]\n",sockfd);
 		return ss->st.e[OP_WRITE].result(data, ss->st.e[OP_WRITE].arg,(int)sockfd);
@@ -34,6 +54,11 @@ kev_result kselector_event_accept(KOPAQUE data, void *arg,int got)
 			return kev_ok;
 		}
 	}
+	if (kserver_is_accept_busy(errno) && KBIT_TEST(ss->server->flags, KGL_SERVER_START)) {
+		katom_inc((void *)&ss->refs);
+		kselector_add_timer(ss->st.base.selector, kserver_accept_retry, ss, KGL_ACCEPT_RETRY_MSEC, data);
+		return kev_ok;
+	}
 	//printf("accept failed.\n");
 	return ss->st.e[OP_WRITE].result(data, ss->st.e[OP_WRITE].arg,(int)sockfd);	
 }
-- 
2.43.0


From b407981273b5e2bde56341195a08c3d1e8013725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:43 +0000
Subject: [PATCH 20/42] fix: unbuffered reads at end of file and failed
 unbuffered transfers report their result instead of aborting

---
 include/kasync_file.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/kasync_file.h b/include/kasync_file.h
index 3146bbb..7a811df 100644
--- a/include/kasync_file.h
+++ b/include/kasync_file.h
@@ -75,9 +75,12 @@ INLINE int kasync_file_adjust_result(kasync_file *fp,int got)
 	if (!fp->st.direct_io) {
 		return got;
 	}	
-	assert(got>fp->st.direct_io_offset);
-	if (got < fp->st.direct_io_offset) {
-		return -1;
+	if (got < 0) {
+		return got;
+	}
+	if (got <= fp->st.direct_io_offset) {
+		//end of file at or before the unaligned position.
+		return 0;
 	}
 	got -= fp->st.direct_io_offset;
 	return KGL_MIN(got,fp->st.direct_io_orig_length);
-- 
2.43.0


From 37575f9c3b1ef31e123828098b3f25d541ad9296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:12 +0000
Subject: [PATCH 21/42] fix: an operation that replaces a hangup watch takes
 the connection out of the ready list

---
 include/kselectable.h | 7 +++++++
 src/kepoll_selector.c | 6 +++---
 src/kselectable.c     | 6 +++---
 3 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/include/kselectable.h b/include/kselectable.h
index 754d6d2..d8ef69b 100644
--- a/include/kselectable.h
+++ b/include/kselectable.h
@@ -133,6 +133,13 @@ INLINE void kselector_remove_list(kselector* selector, kselectable* st) {
 	kassert(selector->count > 0);
 	selector->count--;
 }
+//a read or write takes the place of the hangup watch, also when the hangup is already in the ready list.
+INLINE void selectable_cancel_readhup(kselectable* st) {
+	if (KBIT_TEST(st->base.st_flags, STF_RDHUP)) {
+		KBIT_CLR(st->base.st_flags, STF_RDHUP);
+		kselector_remove_list(st->base.selector, st);
+	}
+}
 INLINE KOPAQUE selectable_get_opaque(kselectable* st) {
 	return st->data;
 }
diff --git a/src/kepoll_selector.c b/src/kepoll_selector.c
index 995c1d6..de1d6a6 100644
--- a/src/kepoll_selector.c
+++ b/src/kepoll_selector.c
@@ -297,7 +297,7 @@ static kev_result epoll_selector_read(kselector *selector, kselectable *st, resu
 	st->e[OP_READ].result = result;
 	st->e[OP_READ].buffer = buffer;
 	KBIT_SET(st->base.st_flags,STF_READ);
-	KBIT_CLR(st->base.st_flags,STF_RDHUP);
+	selectable_cancel_readhup(st);
 	if (KBIT_TEST(st->base.st_flags,STF_RREADY)) {
 		return kselectable_is_read_ready(selector, st);
 	}
@@ -320,7 +320,7 @@ static kev_result epoll_selector_write(kselector *selector, kselectable *st, res
 	st->e[OP_WRITE].result = result;
 	st->e[OP_WRITE].buffer = buffer;
 	KBIT_SET(st->base.st_flags,STF_WRITE);
-	KBIT_CLR(st->base.st_flags,STF_RDHUP);
+	selectable_cancel_readhup(st);
 	if (KBIT_TEST(st->base.st_flags,STF_WREADY)) {
 		return kselectable_is_write_ready(selector, st);
 	}
@@ -343,7 +343,7 @@ static kev_result epoll_selector_sendfile(kselectable* st, result_callback resul
 	st->e[OP_WRITE].result = result;
 	st->e[OP_WRITE].buffer = buffer;
 	KBIT_SET(st->base.st_flags,STF_WRITE|STF_SENDFILE);
-	KBIT_CLR(st->base.st_flags,STF_RDHUP);
+	selectable_cancel_readhup(st);
 	if (KBIT_TEST(st->base.st_flags,STF_WREADY)) {
 		return kselectable_is_write_ready(st->base.selector, st);
 	}
diff --git a/src/kselectable.c b/src/kselectable.c
index 9c3a704..b7318ec 100644
--- a/src/kselectable.c
+++ b/src/kselectable.c
@@ -501,7 +501,7 @@ void selectable_next_read(kselectable* st, result_callback result, void* arg)
 	st->e[OP_READ].result = result;
 	st->e[OP_READ].buffer = NULL;
 	KBIT_SET(st->base.st_flags, STF_READ | STF_RREADY2);
-	KBIT_CLR(st->base.st_flags, STF_RDHUP);
+	selectable_cancel_readhup(st);
 	kselector_add_list(st->base.selector, st, KGL_LIST_READY);
 }
 void selectable_next_write(kselectable* st, result_callback result, void* arg)
@@ -512,7 +512,7 @@ void selectable_next_write(kselectable* st, result_callback result, void* arg)
 	st->e[OP_WRITE].result = result;
 	st->e[OP_WRITE].buffer = NULL;
 	KBIT_SET(st->base.st_flags, STF_WRITE | STF_WREADY2);
-	KBIT_CLR(st->base.st_flags, STF_RDHUP);
+	selectable_cancel_readhup(st);
 	kselector_add_list(st->base.selector, st, KGL_LIST_READY);
 }
 kev_result selectable_read(kselectable* st, result_callback result, kgl_iovec* buffer, void* arg)
@@ -534,7 +534,7 @@ kev_result selectable_read(kselectable* st, result_callback result, kgl_iovec* b
 			st->e[OP_READ].result = result;
 			st->e[OP_READ].buffer = buffer;
 			KBIT_SET(st->base.st_flags, STF_READ | STF_RREADY2);
-			KBIT_CLR(st->base.st_flags, STF_RDHUP);
+			selectable_cancel_readhup(st);
 			return kselectable_is_read_ready(st->base.selector, st);
 		}
 #ifdef ENABLE_KSSL_BIO
-- 
2.43.0


From e22bb2a3fa00024225f85d5294bdbaa237f30eb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:00 +0000
Subject: [PATCH 22/42] fix: a hangup watch set after the hangup event fires

---
 src/kepoll_selector.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/kepoll_selector.c b/src/kepoll_selector.c
index de1d6a6..99401ae 100644
--- a/src/kepoll_selector.c
+++ b/src/kepoll_selector.c
@@ -268,6 +268,10 @@ static bool epoll_selector_readhup(kselector *selector, kselectable *st, result_
 			KBIT_CLR(st->base.st_flags,STF_RDHUP);
 			return false;
 		}
+	} else if (KBIT_TEST(st->base.st_flags,STF_ERR)) {
+		//the hangup event came before the watch was set, it will not come again.
+		KBIT_SET(st->base.st_flags,STF_WREADY);
+		kselector_add_list(selector,st,KGL_LIST_READY);
 	}
 	return true;
 #else
-- 
2.43.0


From 197527a8325ae06534d51a5e41e9897c6dc7f04d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:14 +0000
Subject: [PATCH 23/42] fix: an idle datagram socket is not shut down by the
 read timeout

---
 src/kselector.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/kselector.c b/src/kselector.c
index dfa32f1..f153691 100644
--- a/src/kselector.c
+++ b/src/kselector.c
@@ -176,6 +176,12 @@ int kselector_check_timeout(kselector *selector,int event_number)
 				st->e[OP_READ].result(st->data, st->e[OP_READ].arg, ST_ERR_TIME_OUT);
 				continue;
 			}
+			if (KBIT_TEST(st->base.st_flags, STF_UDP)) {
+				//a datagram socket has no peer to give up on, the shutdown only would break the next send
+				klist_append(&selector->list[i], l);
+				st->active_msec = kgl_timer_msec;
+				continue;
+			}
 			selector->count--;
 			if (i == KGL_LIST_CONNECT) {
 				//the event of a half connect socket being shutdown is only writable
-- 
2.43.0


From fb0b1087937caaf7a9d91fccd0eb79953822aae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:11 +0000
Subject: [PATCH 24/42] fix: a tick callback can close the tick that runs after
 it

---
 include/kselector.h |  1 +
 src/kselector.c     | 11 ++++++++---
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/include/kselector.h b/include/kselector.h
index a09c6df..77ea71d 100644
--- a/include/kselector.h
+++ b/include/kselector.h
@@ -116,6 +116,7 @@ struct kselector_s
 	int timeout[KGL_LIST_COUNT];
 	kgl_list list[KGL_LIST_COUNT];
 	kgl_list tick;
+	kgl_list* tick_next;
 	struct krb_root block;
 	struct krb_node* block_first;
 	kfiber* current;
diff --git a/src/kselector.c b/src/kselector.c
index f153691..12e2484 100644
--- a/src/kselector.c
+++ b/src/kselector.c
@@ -133,7 +133,7 @@ void kselector_update_time()
 }
 int kselector_check_timeout(kselector *selector,int event_number)
 {
-	kgl_list* tick_list,*tick_next_list;
+	kgl_list* tick_list;
 	kselector_tick* tick;
 	struct krb_node *block = NULL;
 	struct krb_node *last = NULL;
@@ -263,13 +263,15 @@ int kselector_check_timeout(kselector *selector,int event_number)
 
 	while (tick_list != &selector->tick) {
 		tick = kgl_list_data(tick_list, kselector_tick, queue);
-		tick_next_list = tick_list->next;
+		/* the callback may close any tick, kselector_close_tick keeps tick_next valid */
+		selector->tick_next = tick_list->next;
 		int next_event_time = tick->cb(tick->arg, event_number);
 		if (next_event_time > 0 && next_event_time < min_event_time) {
 			min_event_time = next_event_time;
 		}
-		tick_list = tick_next_list;
+		tick_list = selector->tick_next;
 	}
+	selector->tick_next = NULL;
 	return min_event_time;
 }
 void kselector_add_block_queue(kselector *selector, kgl_block_queue *brq)
@@ -339,6 +341,9 @@ bool kselector_close_tick(kselector_tick* tick)
 	if (selector == NULL) {
 		return false;
 	}
+	if (selector->tick_next == &tick->queue) {
+		selector->tick_next = tick->queue.next;
+	}
 	klist_remove(&tick->queue);
 	xfree(tick);
 	return true;
-- 
2.43.0


From da3a9ed9cef19d39f58bfdff3161a56821a14596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:14 +0000
Subject: [PATCH 25/42] fix: destroying an epoll selector releases its aio
 context and eventfd

---
 src/kepoll_selector.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/kepoll_selector.c b/src/kepoll_selector.c
index 99401ae..f314ec5 100644
--- a/src/kepoll_selector.c
+++ b/src/kepoll_selector.c
@@ -171,6 +171,10 @@ static void epoll_selector_destroy(kselector *selector)
 	kepoll_selector *es = (kepoll_selector *)selector->ctx;
 	close(es->kdpfd);
 	close(es->notice_st.st.fd);
+	if (es->aio_st.aio_ctx) {
+		io_destroy(es->aio_st.aio_ctx);
+	}
+	close(es->aio_st.st.fd);
 	xfree(es);
 }
 
-- 
2.43.0


From 4728e550180d51e4f7827e140c6b5204a2a13bc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:03 +0000
Subject: [PATCH 26/42] fix: a thread can run kasync_main again

---
 src/kfiber.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/kfiber.c b/src/kfiber.c
index 338680c..0d17151 100644
--- a/src/kfiber.c
+++ b/src/kfiber.c
@@ -178,6 +178,7 @@ kev_result kfiber_thread_init(KOPAQUE data, void* arg, int got) {
 		//exit
 		kfiber* fiber = kfiber_main();
 		if (fiber) {
+			pthread_setspecific(kgl_main_fiber_key, NULL);
 			xfree(fiber);
 		}
 		return kev_ok;
-- 
2.43.0


From f8e4ee088cd5170d922658f9893c809985c897ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:03 +0000
Subject: [PATCH 27/42] fix: a loop starts with the current time

---
 src/kselector_manager.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/kselector_manager.c b/src/kselector_manager.c
index 3e1aa28..290b86d 100644
--- a/src/kselector_manager.c
+++ b/src/kselector_manager.c
@@ -167,6 +167,7 @@ void selector_manager_close()
 }
 void selector_manager_start(void(*time_hook)(),bool thread)
 {
+	kselector_update_time();
 	kgl_second_change_hook = time_hook;
 	kgl_program_start_sec = time(NULL);
 	for (int i = 1; i < kgl_selector_count; i++) {
@@ -383,6 +384,7 @@ int kasync_main(kfiber_start_func main, void* arg, int argc)
 	args[0] = (void*)main;
 	args[1] = arg;
 	kselector_init(selector);
+	kselector_update_time();
 	kfiber_create2(selector, kasync_fiber_main, (void*)args, argc, 0, NULL);
 	selector->utm = 1;
 	int tmo = SELECTOR_TMO_MSEC;
-- 
2.43.0


From 793e3879be979fb4f7761242abe50b9d94054bef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:05 +0000
Subject: [PATCH 28/42] fix: a TLS vectored write starts at most one record per
 call

After a partial result the next write may use other buffers, which openssl
refuses while it still holds an unfinished record (bad write retry).
---
 src/kselectable.c | 49 +++++++++++++++++------------------------------
 1 file changed, 18 insertions(+), 31 deletions(-)

diff --git a/src/kselectable.c b/src/kselectable.c
index b7318ec..c25f9e2 100644
--- a/src/kselectable.c
+++ b/src/kselectable.c
@@ -20,44 +20,31 @@
 #ifdef KSOCKET_SSL
 static inline int kgl_ssl_writev(kssl_session* ssl, WSABUF* buffer, int bc)
 {
-	int got = 0;
+	/*
+	 * At most one record is started per call: when SSL_write cannot finish, openssl keeps the record and
+	 * must be called again with the same data. That call is repeated only while nothing has been reported
+	 * as written yet, after a partial result the caller is free to go on with another buffer.
+	 */
 	for (int i = 0; i < bc; i++) {
 		char* hot = (char*)buffer[i].iov_base;
-		int len = buffer[i].iov_len;
-		while (len > 0) {
+		int len = (int)buffer[i].iov_len;
+		if (len <= 0) {
+			continue;
+		}
 #ifdef ENABLE_KSSL_BIO
-			//ssl bio max write 64KB
-			int left = 65536 - got;
-			if (left <= 0) {
-				return got;
-			}
-			len = KGL_MIN(left, len);
+		//ssl bio max write 64KB
+		len = KGL_MIN(65536, len);
 #endif
 #ifdef SSL_READ_EARLY_DATA_SUCCESS
-			if (ssl->in_early) {
-				//printf("ssl_is_init_finished=[%d]\n", SSL_is_init_finished(ssl->ssl));
-				size_t write_bytes;
-				int n = SSL_write_early_data(ssl->ssl, hot, len, &write_bytes);
-				if (n > 0) {
-					got += (int)write_bytes;
-					len -= (int)write_bytes;
-					hot += (int)write_bytes;
-					//printf("SSL_write_early_data try write=[%d] return [%d] got=[%d].\n", len, write_bytes, got);
-					continue;
-				}
-				return (got > 0 ? got : -1);
-			}
-#endif
-			int this_len = SSL_write(ssl->ssl, hot, len);
-			//printf("SSL_write try write=[%d] return [%d] got=[%d].\n", len,this_len,got);
-			if (this_len != len) {
-				return this_len > 0 ? got + this_len : (got > 0 ? got : this_len);
-			}
-			got += this_len;
-			break;
+		if (ssl->in_early) {
+			size_t write_bytes = 0;
+			int n = SSL_write_early_data(ssl->ssl, hot, len, &write_bytes);
+			return n > 0 ? (int)write_bytes : -1;
 		}
+#endif
+		return SSL_write(ssl->ssl, hot, len);
 	}
-	return got;
+	return 0;
 }
 static inline int kgl_ssl_readv(kssl_session* ssl, kgl_iovec* buffer, int bc)
 {
-- 
2.43.0


From 918e87afd0ecac6e79e9449ade65d76cd29a2b31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:56 +0000
Subject: [PATCH 29/42] fix: a TLS context chosen by server name also decides
 about client certificates

SSL_set_SSL_CTX keeps the verify mode of the first context, a context with
client verification that is selected by SNI accepted any client.
---
 src/kgl_ssl.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/kgl_ssl.c b/src/kgl_ssl.c
index f94e225..09637e8 100644
--- a/src/kgl_ssl.c
+++ b/src/kgl_ssl.c
@@ -60,6 +60,9 @@ int kgl_ssl_sni(SSL* ssl, int* ad, void* arg) {
 	c->sni = kgl_ssl_create_sni(kserver_get_opaque(c->server), servername, &ssl_ctx);
 	if (ssl_ctx) {
 		SSL_set_SSL_CTX(ssl, ssl_ctx);
+		//SSL_set_SSL_CTX changes the certificate only, whether the client has to show one is up to ssl_ctx too
+		SSL_set_verify(ssl, SSL_CTX_get_verify_mode(ssl_ctx), SSL_CTX_get_verify_callback(ssl_ctx));
+		SSL_set_verify_depth(ssl, SSL_CTX_get_verify_depth(ssl_ctx));
 	}
 	return SSL_TLSEXT_ERR_OK;
 }
-- 
2.43.0


From d1a325e990335e369515f25e82b2bce7709fcdac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:56 +0000
Subject: [PATCH 30/42] fix: a connection without TLS session does not end the
 listening server

---
 include/kserver.h | 15 +++++++++------
 src/kfiber.c      | 19 +++++++++++--------
 2 files changed, 20 insertions(+), 14 deletions(-)

diff --git a/include/kserver.h b/include/kserver.h
index fe780f0..389a94f 100644
--- a/include/kserver.h
+++ b/include/kserver.h
@@ -36,15 +36,18 @@ kev_result fn(KOPAQUE data, void *arg, int got) { \
 	kserver_selectable *ss = (kserver_selectable *)data;\
 	assert(ss->st.base.selector == kgl_get_tls_selector());\
 	kconnection *cn = accept_result_new_connection(data,got);\
-	if (cn==NULL) {\
+	if (cn==NULL && got<0) {\
 		kserver_selectable_destroy(ss);\
 		return kev_ok;\
 	}\
-	selectable_bind(&cn->st, kserver_get_perfect_selector(ss));\
-	if (cn->st.base.selector!=ss->st.base.selector) {\
-		kgl_selector_module.next(cn->st.base.selector, data, user_##fn##_callback, cn, got);\
-	} else {\
-		user_##fn##_callback(data, cn, got);\
+	/* without cn only this connection is lost (no tls session), go on accepting */\
+	if (cn!=NULL) {\
+		selectable_bind(&cn->st, kserver_get_perfect_selector(ss));\
+		if (cn->st.base.selector!=ss->st.base.selector) {\
+			kgl_selector_module.next(cn->st.base.selector, data, user_##fn##_callback, cn, got);\
+		} else {\
+			user_##fn##_callback(data, cn, got);\
+		}\
 	}\
 	if (!KBIT_TEST(ss->server->flags,KGL_SERVER_START) || !kserver_selectable_accept(ss, arg)) {\
 		kserver_selectable_destroy(ss); \
diff --git a/src/kfiber.c b/src/kfiber.c
index 0d17151..2c1bb04 100644
--- a/src/kfiber.c
+++ b/src/kfiber.c
@@ -415,14 +415,17 @@ int kfiber_net_accept(kserver_selectable * ss, kconnection * *c) {
 	kfiber* fiber = kfiber_self(&ss->st.base);
 	CHECK_FIBER(fiber);
 	assert(ss->st.base.selector == kgl_get_tls_selector());
-	fiber->retval = -1;
-	if (!kserver_selectable_accept(ss, fiber)) {
-		return -1;
-	}
-	assert(ss->st.data == ss);
-	//printf("accept filber=[%p] ss=[%p]\n", fiber, ss);
-	__kfiber_wait(fiber, (void*)ss->st.data);
-	*c = accept_result_new_connection(ss, fiber->retval);
+	do {
+		fiber->retval = -1;
+		if (!kserver_selectable_accept(ss, fiber)) {
+			return -1;
+		}
+		assert(ss->st.data == ss);
+		//printf("accept filber=[%p] ss=[%p]\n", fiber, ss);
+		__kfiber_wait(fiber, (void*)ss->st.data);
+		*c = accept_result_new_connection(ss, fiber->retval);
+		//a connection that gets no tls session is lost, the listener goes on
+	} while (*c == NULL && fiber->retval >= 0);
 	if (*c) {
 		selectable_bind(&(*c)->st, ss->st.base.selector);
 	}
-- 
2.43.0


From dbcc23f46585af656ff2baeac3fe0824d21cf383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:13 +0000
Subject: [PATCH 31/42] fix: a TLS shutdown does not disturb a pending read or
 write

---
 src/kconnection.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/kconnection.c b/src/kconnection.c
index 915f9c7..4db3d26 100644
--- a/src/kconnection.c
+++ b/src/kconnection.c
@@ -131,11 +131,19 @@ kev_result kselectable_ssl_shutdown(kselectable* st, result_callback cb, void* a
 #endif
 	switch (status) {
 	case SSL_ERROR_WANT_READ:
+		if (is_selectable(st, STF_READ | STF_WRITE)) {
+			/* another operation is pending, close notify cannot be sent any more */
+			return cb(st->data, arg, 1);
+		}
 #ifndef ENABLE_KSSL_BIO
 		selectable_clear_flags(st, STF_RREADY);
 #endif
 		return selectable_read(st, cb, NULL, arg);
 	case SSL_ERROR_WANT_WRITE:
+		if (is_selectable(st, STF_WRITE)) {
+			/* an unfinished record is before close notify */
+			return cb(st->data, arg, 1);
+		}
 #ifndef ENABLE_KSSL_BIO
 		selectable_clear_flags(st, STF_WREADY);
 #endif
-- 
2.43.0


From 1812fa24ff5eca94e18fa9c148b664142eb9298b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:12 +0000
Subject: [PATCH 32/42] fix: a failed TLS session does not disturb the other
 sessions of its thread

---
 src/kconnection.c | 1 +
 src/kgl_ssl.c     | 2 ++
 src/kselectable.c | 4 ++++
 3 files changed, 7 insertions(+)

diff --git a/src/kconnection.c b/src/kconnection.c
index 4db3d26..1e98f20 100644
--- a/src/kconnection.c
+++ b/src/kconnection.c
@@ -161,6 +161,7 @@ kev_result kselectable_ssl_handshake(kselectable *st,result_callback cb, void *a
 	if (ssl->try_early_data) {
 		u_char     buf;
 		size_t     readbytes = 0;
+		ERR_clear_error();
 		int n = SSL_read_early_data(ssl->ssl, &buf, 1, &readbytes);
 		//printf("sh=[%p %p] SSL_read_early_data=[%d]\n", sh,ssl->ssl,n);
 		if (n == SSL_READ_EARLY_DATA_FINISH) {
diff --git a/src/kgl_ssl.c b/src/kgl_ssl.c
index 09637e8..c0e9286 100644
--- a/src/kgl_ssl.c
+++ b/src/kgl_ssl.c
@@ -807,6 +807,7 @@ kssl_status kgl_ssl_handshake_status(SSL* ssl, int re) {
 	}
 }
 kssl_status kgl_ssl_handshake(SSL* ssl) {
+	ERR_clear_error();
 	int re = SSL_do_handshake(ssl);
 	if (re <= 0) {
 		return kgl_ssl_handshake_status(ssl, re);
@@ -821,6 +822,7 @@ kssl_status kgl_ssl_handshake(SSL* ssl) {
 	return ret_ok;
 }
 kssl_status kgl_ssl_shutdown(SSL* ssl) {
+	ERR_clear_error();
 	int n = SSL_shutdown(ssl);
 	if (n == 1) {
 		return ret_ok;
diff --git a/src/kselectable.c b/src/kselectable.c
index c25f9e2..7a30229 100644
--- a/src/kselectable.c
+++ b/src/kselectable.c
@@ -25,6 +25,7 @@ static inline int kgl_ssl_writev(kssl_session* ssl, WSABUF* buffer, int bc)
 	 * must be called again with the same data. That call is repeated only while nothing has been reported
 	 * as written yet, after a partial result the caller is free to go on with another buffer.
 	 */
+	ERR_clear_error();
 	for (int i = 0; i < bc; i++) {
 		char* hot = (char*)buffer[i].iov_base;
 		int len = (int)buffer[i].iov_len;
@@ -49,6 +50,8 @@ static inline int kgl_ssl_writev(kssl_session* ssl, WSABUF* buffer, int bc)
 static inline int kgl_ssl_readv(kssl_session* ssl, kgl_iovec* buffer, int bc)
 {
 	int got = 0;
+	/* SSL_get_error looks at the thread's error queue, a failure of another session must not be left there */
+	ERR_clear_error();
 	for (int i = 0; i < bc; i++) {
 		u_char* hot = (u_char*)buffer[i].iov_base;
 		int len = buffer[i].iov_len;
@@ -289,6 +292,7 @@ static inline kev_result selectable_event_sendfile(kselectable* st, result_callb
 	if (st->ssl) {
 		assert(kgl_ssl_support_sendfile(st->ssl));
 #if defined(BIO_get_ktls_send)
+		ERR_clear_error();
 		got = SSL_sendfile(st->ssl->ssl, file->st.fd, offset, buffer->iov_len, 0);
 		if (got >= 0) {
 			return result(st->data, arg, got);
-- 
2.43.0


From a7971f796bc0aa39d92dba3b86aa8e32ab2510e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:14 +0000
Subject: [PATCH 33/42] fix: early data that has not arrived yet is not the end
 of the stream

---
 src/kselectable.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kselectable.c b/src/kselectable.c
index 7a30229..ead65d6 100644
--- a/src/kselectable.c
+++ b/src/kselectable.c
@@ -74,7 +74,7 @@ static inline int kgl_ssl_readv(kssl_session* ssl, kgl_iovec* buffer, int bc)
 					continue;
 				}
 				if (n != SSL_READ_EARLY_DATA_SUCCESS) {
-					return got;
+					return got > 0 ? got : -1;
 				}
 				got += (int)read_bytes;
 				len -= (int)read_bytes;
-- 
2.43.0


From 18defdf85ab582735ba8e9e608121292e0529035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:56 +0000
Subject: [PATCH 34/42] fix: a TLS read that has to send first waits until it
 can send

---
 include/kgl_ssl.h     |  1 +
 src/kepoll_selector.c | 14 ++++++++++++++
 src/kselectable.c     |  2 ++
 3 files changed, 17 insertions(+)

diff --git a/include/kgl_ssl.h b/include/kgl_ssl.h
index 1c990d2..00b1a47 100644
--- a/include/kgl_ssl.h
+++ b/include/kgl_ssl.h
@@ -48,6 +48,7 @@ typedef struct
 	uint16_t handshake : 1;
 	uint16_t shutdown : 1;
 	uint16_t alt_svc_sent : 1;
+	uint16_t read_want_write : 1;
 } kssl_session;
 
 bool kgl_ssl_support_sendfile(kssl_session *ssl);
diff --git a/src/kepoll_selector.c b/src/kepoll_selector.c
index f314ec5..1e71b44 100644
--- a/src/kepoll_selector.c
+++ b/src/kepoll_selector.c
@@ -309,6 +309,14 @@ static kev_result epoll_selector_read(kselector *selector, kselectable *st, resu
 	if (KBIT_TEST(st->base.st_flags,STF_RREADY)) {
 		return kselectable_is_read_ready(selector, st);
 	}
+#ifdef KSOCKET_SSL
+	if (st->ssl && st->ssl->read_want_write && !KBIT_TEST(st->base.st_flags,STF_WEV)) {
+		if (!epoll_add_event(es->kdpfd,st,STF_REV|STF_WEV)) {
+			KBIT_CLR(st->base.st_flags,STF_READ);
+			return result(st->data, arg, -1);
+		}
+	}
+#endif
 	if (!KBIT_TEST(st->base.st_flags,STF_REV)) {
 		if (!epoll_add_event(es->kdpfd,st,STF_REV)) {
 			KBIT_CLR(st->base.st_flags,STF_READ);
@@ -405,6 +413,12 @@ static int epoll_selector_select(kselector *selector,int tmo) {
 				in_ready_list = true;
 			}
 		}
+#ifdef KSOCKET_SSL
+		//ssl read is waiting to send
+		if (KBIT_TEST(ev,EPOLLOUT) && st->ssl && st->ssl->read_want_write) {
+			KBIT_SET(ev,EPOLLIN);
+		}
+#endif
 		//read ready
 		if (KBIT_TEST(ev,EPOLLIN|EPOLLPRI|EPOLLHUP)) {
 			KBIT_SET(st->base.st_flags,STF_RREADY);
diff --git a/src/kselectable.c b/src/kselectable.c
index ead65d6..39eed81 100644
--- a/src/kselectable.c
+++ b/src/kselectable.c
@@ -430,6 +430,8 @@ kev_result selectable_event_read(kselectable* st, result_callback result, buffer
 		kassert(st->ssl);
 		KBIT_CLR(st->base.st_flags, STF_RREADY);
 		int err = SSL_get_error(st->ssl->ssl, got);
+		/* a read may have to send first (handshake messages), then it waits for writability */
+		st->ssl->read_want_write = (err == SSL_ERROR_WANT_WRITE);
 		if (errno == EAGAIN || err == SSL_ERROR_WANT_READ) {
 #ifdef ENABLE_KSSL_BIO
 			return selectable_ssl_read(st, result, buffer, arg);
-- 
2.43.0


From 866542cb585726daa0991a834d98a9b00924ad03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:56 +0000
Subject: [PATCH 35/42] fix: a read of early data on a connection never
 registered with epoll completes

---
 src/kselectable.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/kselectable.c b/src/kselectable.c
index 39eed81..bdec769 100644
--- a/src/kselectable.c
+++ b/src/kselectable.c
@@ -452,8 +452,8 @@ kev_result selectable_event_read(kselectable* st, result_callback result, buffer
 kev_result selectable_read_event(kselectable* st)
 {
 #ifdef STF_ET
-	/* epoll notice fd read event use LT model other use ET model */
-	if (KBIT_TEST(st->base.st_flags, STF_ET))
+	/* epoll notice fd read event use LT model other use ET model, STF_RREADY2 comes without any epoll registration */
+	if (KBIT_TEST(st->base.st_flags, STF_ET | STF_RREADY2))
 #endif
 		KBIT_CLR(st->base.st_flags, STF_READ);
 	if (unlikely(KBIT_TEST(st->base.st_flags, STF_UDP))) {
-- 
2.43.0


From a76d1b6364273b858e17fcc40a4929a62d74abe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:13 +0000
Subject: [PATCH 36/42] fix: waits on a set manual-reset fiber condition return
 the notified value

---
 src/kfiber_sync.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/kfiber_sync.c b/src/kfiber_sync.c
index 95c8f33..3054fba 100644
--- a/src/kfiber_sync.c
+++ b/src/kfiber_sync.c
@@ -208,7 +208,7 @@ int kfiber_cond_wait_ts(kfiber_cond* fc, int *got)
 	kmutex_lock(&fcs->lock);
 	if (fc->ev > 0) {
 		if (got) {
-			*got = fiber->retval;
+			*got = fc->got;
 		}
 		kmutex_unlock(&fcs->lock);
 		return 0;
@@ -229,7 +229,7 @@ int kfiber_cond_try_wait_ts(kfiber_cond* fc, int* got) {
 	kmutex_lock(&fcs->lock);
 	if (fc->ev > 0) {
 		if (got) {
-			*got = fiber->retval;
+			*got = fc->got;
 		}
 		kmutex_unlock(&fcs->lock);
 		return 0;
@@ -292,7 +292,7 @@ int kfiber_cond_wait(kfiber_cond* fc, int *got)
 	CHECK_FIBER(fiber);
 	if (fc->ev > 0) {
 		if (got) {
-			*got = fiber->retval;
+			*got = fc->got;
 		}
 		return 0;
 	}
@@ -308,7 +308,7 @@ int kfiber_cond_try_wait(kfiber_cond* fc, int* got) {
 	CHECK_FIBER(fiber);
 	if (fc->ev > 0) {
 		if (got) {
-			*got = fiber->retval;
+			*got = fc->got;
 		}
 		return 0;
 	}
-- 
2.43.0


From e9d4e56dfa3444a0cbe1ca2571d2cb34d21ecaee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:13 +0000
Subject: [PATCH 37/42] fix: a failed epoll registration no longer leaves the
 connection marked as registered

---
 src/kepoll_selector.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/kepoll_selector.c b/src/kepoll_selector.c
index 1e71b44..58d5429 100644
--- a/src/kepoll_selector.c
+++ b/src/kepoll_selector.c
@@ -99,7 +99,7 @@ static INLINE bool epoll_add_event(int kdpfd,kselectable *st,uint16_t ev)
 	struct epoll_event event;
 	int op = EPOLL_CTL_ADD;
 	uint32_t events = 0;
-	uint16_t prev_ev = st->base.st_flags;
+	uint32_t prev_ev = st->base.st_flags;
 	if (KBIT_TEST(ev,STF_REV)) {
 		events |= EPOLLIN|EPOLLRDHUP|EPOLLET;
 		if (KBIT_TEST(prev_ev,STF_WEV)) {
@@ -125,6 +125,8 @@ static INLINE bool epoll_add_event(int kdpfd,kselectable *st,uint16_t ev)
 	int ret = epoll_ctl(kdpfd, op, sockfd, &event);
 	if (ret !=0) {
 		klog(KLOG_ERR, "epoll ctl error fd=%d,errno=%d %s\n", sockfd,errno,strerror(errno));
+		/* nothing was registered, the next operation has to try again */
+		st->base.st_flags = prev_ev;
 		return false;
 	}
 	return true;
-- 
2.43.0


From 5850798a591f9fb60983257fe8b9282b7146cbbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:36 +0000
Subject: [PATCH 38/42] fix: wait for a socket event with poll, which has no
 limit on the descriptor

---
 src/ksocket.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ksocket.c b/src/ksocket.c
index 6ef02a4..42fcbf3 100644
--- a/src/ksocket.c
+++ b/src/ksocket.c
@@ -308,7 +308,8 @@ bool wait_socket_event(SOCKET sockfd, bool is_write, int tmo) {
 	if (tmo <= 0) {
 		return true;
 	}
-#ifdef HAVE_POLL
+#ifndef _WIN32
+	/* select cannot wait for a descriptor past FD_SETSIZE */
 	struct pollfd poll_list;
 	poll_list.fd = sockfd;
 	if (is_write) {
-- 
2.43.0


From b62ed869148f0508cc5ceba2dde0ba1d824b8576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:36 +0000
Subject: [PATCH 39/42] fix: ksocket_connect enforces its timeout while the
 connection is being made

---
 src/ksocket.c | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/ksocket.c b/src/ksocket.c
index 42fcbf3..d9267c6 100644
--- a/src/ksocket.c
+++ b/src/ksocket.c
@@ -356,6 +356,7 @@ SOCKET ksocket_connect(const sockaddr_i* addr, const sockaddr_i* bind_addr, int
 		ksocket_close(sockfd);
 		return INVALID_SOCKET;
 	}
+#ifdef _WIN32
 	if (connect(sockfd, (struct sockaddr*)addr, ksocket_addr_len(addr)) < 0) {
 		ksocket_close(sockfd);
 		return INVALID_SOCKET;
@@ -364,6 +365,25 @@ SOCKET ksocket_connect(const sockaddr_i* addr, const sockaddr_i* bind_addr, int
 		ksocket_close(sockfd);
 		return INVALID_SOCKET;
 	}
+#else
+	/* a blocking connect waits as long as the system does, with a timeout wait for the result here */
+	bool timed = tmo > 0 && addr->v4.sin_family != AF_UNIX;
+	if (timed) {
+		ksocket_no_block(sockfd);
+	}
+	if (connect(sockfd, (struct sockaddr*)addr, ksocket_addr_len(addr)) < 0) {
+		int err = errno;
+		socklen_t len = sizeof(err);
+		if (!timed || err != EINPROGRESS || !wait_socket_event(sockfd, true, tmo) ||
+			getsockopt(sockfd, SOL_SOCKET, SO_ERROR, (void*)&err, &len) < 0 || err != 0) {
+			ksocket_close(sockfd);
+			return INVALID_SOCKET;
+		}
+	}
+	if (timed) {
+		ksocket_block(sockfd);
+	}
+#endif
 	return sockfd;
 }
 SOCKET ksocket_half_connect(const sockaddr_i* addr, const sockaddr_i* bind_addr, int tproxy_mask) {
-- 
2.43.0


From 2a366c82b0945e271fef94b6f2643bbbd0ba8604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:08 +0000
Subject: [PATCH 40/42] fix: udp sockets over IPv6 report the local address of
 a datagram when asked to

---
 src/kselectable.c | 2 +-
 src/kudp.c        | 5 +++++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/kselectable.c b/src/kselectable.c
index bdec769..0ed9555 100644
--- a/src/kselectable.c
+++ b/src/kselectable.c
@@ -163,7 +163,7 @@ int selectable_recvmsg(kselectable* st)
 	msg.msg_control = c->udp->pktinfo;
 	if (c->udp) {
 		memset(c->udp, 0, sizeof(kudp_extend));
-		msg.msg_controllen = sizeof(c->udp->pktinfo);
+		msg.msg_controllen = sizeof(kudp_extend);
 	}
 	return recvmsg(st->fd, &msg, 0);
 }
diff --git a/src/kudp.c b/src/kudp.c
index 9502dcf..8944cf3 100644
--- a/src/kudp.c
+++ b/src/kudp.c
@@ -82,6 +82,11 @@ kconnection* kudp_new2(int flags, kselector* st)
 		setsockopt(uc->st.fd, IPPROTO_IP, IP_SENDSRCADDR, (const char*)&n, sizeof(int));
 #else
 		setsockopt(uc->st.fd, IPPROTO_IP, IP_PKTINFO, (const char*)&n, sizeof(int));
+#endif
+#ifdef IPV6_RECVPKTINFO
+		if (domain == PF_INET6) {
+			setsockopt(uc->st.fd, IPPROTO_IPV6, IPV6_RECVPKTINFO, (const char*)&n, sizeof(int));
+		}
 #endif
 		uc->udp = xmemory_new(kudp_extend);
 	}
-- 
2.43.0


From e4e3a5ec19f68b63442c159b00ddb62c3394ac99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:05:29 +0000
Subject: [PATCH 41/42] fix: a limit set on a fiber mutex in use takes effect

A higher limit did not admit the waiting lockers it has room for, and a
lower one was never reached while lockers waited, because every unlock
passed its slot on.
---
 include/kfiber_sync.h | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/include/kfiber_sync.h b/include/kfiber_sync.h
index 6f69ee6..25f8b96 100644
--- a/include/kfiber_sync.h
+++ b/include/kfiber_sync.h
@@ -77,7 +77,17 @@ INLINE void kfiber_mutex_set_limit(kfiber_mutex* mutex, int limit) {
 	}
 	kmutex_lock(&mutex->lock);
 	mutex->limit = limit;
+	/* waiters the new limit has room for are admitted now */
+	kfiber_waiter* admitted = NULL;
+	while (mutex->waiter && mutex->worker < mutex->limit) {
+		kfiber_waiter* waiter = mutex->waiter;
+		mutex->waiter = waiter->next;
+		waiter->next = admitted;
+		admitted = waiter;
+		mutex->worker++;
+	}
 	kmutex_unlock(&mutex->lock);
+	kfiber_wakeup_all_waiter(admitted, 0);
 }
 INLINE int kfiber_mutex_get_worker(kfiber_mutex* mutex) {
 	int worker;
@@ -111,7 +121,8 @@ INLINE int kfiber_mutex_unlock(kfiber_mutex* mutex) {
 	assert(mutex->count > 0);
 	mutex->count--;
 	kfiber_waiter* waiter = mutex->waiter;
-	if (waiter == NULL) {
+	if (waiter == NULL || mutex->worker > mutex->limit) {
+		/* nobody waits, or the limit was lowered and is still exceeded */
 		assert(mutex->worker > 0);
 		mutex->worker--;
 		kmutex_unlock(&mutex->lock);
-- 
2.43.0


From 3ab7b22113115f1a8505459b2ac6cbd40ead7cfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:10:54 +0000
Subject: [PATCH 42/42] fix: a listener is listed only when it has its selector
 and the current TLS context

---
 src/kserver.c | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/src/kserver.c b/src/kserver.c
index 943ce58..14a6ffa 100644
--- a/src/kserver.c
+++ b/src/kserver.c
@@ -182,19 +182,20 @@ kserver_selectable *kserver_selectable_init(kserver *server, SOCKET sockfd)
 #endif
 	kserver_refs(server);
 #ifdef KSOCKET_SSL
-	kmutex_lock(&server->ss_lock);
 	ss->ssl_ctx = server->ssl_ctx;
 	if (ss->ssl_ctx) {
 		kgl_add_ref_ssl_ctx(ss->ssl_ctx);
 	}
-	kmutex_unlock(&server->ss_lock);
 #endif
 	return ss;
 }
-kserver_selectable *add_server_socket(kserver *server,SOCKET sockfd)
+kserver_selectable *add_server_socket(kserver *server,SOCKET sockfd,kselector *selector)
 {
-	kserver_selectable *ss = kserver_selectable_init(server, sockfd);
+	/* what finds ss in the list posts to its selector, and ss has the ssl_ctx of the moment it is listed */
 	kmutex_lock(&server->ss_lock);
+	kserver_selectable *ss = kserver_selectable_init(server, sockfd);
+	ss->st.data = ss;
+	selectable_bind(&ss->st, selector);
 	klist_append(&server->ss, &ss->queue);
 	kmutex_unlock(&server->ss_lock);
 	return ss;
@@ -226,12 +227,10 @@ static kserver_selectable* kserver_listen_on_selector(kselector *selector, kserv
 		socklen_t addr_len = (socklen_t)ksocket_addr_len(&server->addr);
 		getsockname(sockfd, (struct sockaddr*)&server->addr, &addr_len);
 	}
-	kserver_selectable* ss = add_server_socket(server, sockfd);
+	kserver_selectable* ss = add_server_socket(server, sockfd, selector);
 	if (ss == NULL) {
 		return NULL;
 	}
-	ss->st.data = ss;
-	selectable_bind(&ss->st, selector);
 	kgl_selector_module.listen(ss, accept_callback);
 	return ss;
 }
@@ -300,13 +299,11 @@ bool kserver_open_exsit(kserver* server, SOCKET sockfd, result_callback accept_c
 	} else {
 		KBIT_CLR(server->flags, KGL_SERVER_UNIX);
 	}
-	kserver_selectable* ss = add_server_socket(server, sockfd);
+	kserver_selectable* ss = add_server_socket(server, sockfd, kgl_get_tls_selector());
 	if (ss == NULL) {
 		klog(KLOG_NOTICE, "error [%s:%d]\n", __FILE__, __LINE__);
 		return false;
 	}
-	ss->st.data = ss;
-	selectable_bind(&ss->st, kgl_get_tls_selector());
 	if (!kgl_selector_module.listen(ss, accept_callback)) {
 		klog(KLOG_NOTICE, "error [%s:%d]\n", __FILE__, __LINE__);
 		return false;
-- 
2.43.0

