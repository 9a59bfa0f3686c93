From e641bfb4de046da59291a9b6958429882fdf3676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:19:34 +0000
Subject: [PATCH 01/36] fix: keep what was handed to a waiter that is canceled
 or timed out before it runs

A message, lock, signal, join result or other wakeup already given to a
paused coroutine was lost when a cancel or deadline arrived between the
handover and the coroutine running again.
---
 neco.c | 47 ++++++++++++++++++++++++++++++++++++++---------
 1 file changed, 38 insertions(+), 9 deletions(-)

diff --git a/neco.c b/neco.c
index 47dc2fe..2ee4448 100644
--- a/neco.c
+++ b/neco.c
@@ -3336,6 +3336,8 @@ struct coroutine {
     int64_t starterid;            // identifer of the starter coroutine
     bool paused;                  // coroutine is paused
     bool deadlined;               // coroutine operation was deadlined
+    bool woken;                   // paused operation was satisfied by another
+                                  // coroutine (or by the scheduler)
 
     struct cleanup *cleanup;      // cancelation cleanup stack
 
@@ -4059,6 +4061,7 @@ static void rt_sched_signal_step(void) {
                     // Assign the signal to its sigmask and resume
                     // the coroutine.
                     co->sigmask = (uint32_t)signo;
+                    co->woken = true;
                     rt->sigqueue[signo]--;
                     if (rt->sigqueue[signo] == 0) {
                         rt->sigmask &= ~(UINT32_C(1) << signo);
@@ -4497,6 +4500,7 @@ static void copause(int64_t deadline) {
             rt->ndeadlines++;
         }
         co->paused = true;
+        co->woken = false;
         sco_pause();
         co->paused = false;
         if (co->deadline < INT64_MAX) {
@@ -4615,6 +4619,20 @@ static int checkdl(struct coroutine *co, int64_t deadline) {
     return canceled ? NECO_CANCELED : deadlined ? NECO_TIMEDOUT : NECO_OK;
 }
 
+// checkwait is called by an operation right after it has been paused.
+// When another coroutine has already satisfied the operation, such as having
+// handed over a message or a lock, then the operation must succeed. Otherwise
+// whatever was handed over is lost. A cancelation that comes in between then
+// and now remains pending for the next operation.
+static int checkwait(struct coroutine *co) {
+    if (co->woken) {
+        co->woken = false;
+        co->deadlined = false;
+        return NECO_OK;
+    }
+    return checkdl(co, INT64_MAX);
+}
+
 /// Get the identifier for the coroutine that started the current coroutine.
 ///
 /// ```
@@ -4785,7 +4803,7 @@ static int signal_wait_dl(int64_t deadline) {
     rt->nsigwaiters--;
     int signo = (int)co->sigmask;
     co->sigmask = 0;
-    int ret = checkdl(co, INT64_MAX);
+    int ret = checkwait(co);
     return ret == NECO_OK ? signo : ret;
 }
 
@@ -5989,6 +6007,7 @@ static int chan_send0(struct neco_chan *chan, void *data, bool broadcast,
         if (chan->msgsize > 0) {
             memcpy(recv->cmsg, data, (size_t)chan->msgsize);
         }
+        recv->woken = true;
         if (!broadcast) {
             // Resume receiver immediately.
             sco_resume(recv->id);
@@ -6023,7 +6042,7 @@ static int chan_send0(struct neco_chan *chan, void *data, bool broadcast,
     remove_from_list(co);
 
     co->cmsg = NULL;
-    return checkdl(co, INT64_MAX);
+    return checkwait(co);
 }
 
 /// Same as neco_chan_send() but with a deadline parameter.
@@ -6086,6 +6105,7 @@ static int chan_tryrecv0(struct neco_chan *chan, void *data, bool try,
             // Put the sender's message in the buffer and wake it up.
             send = colist_pop_front(&chan->queue);
             cbuf_push(chan, send->cmsg);
+            send->woken = true;
         }
         if (chan->sclosed && colist_is_empty(&chan->queue) && 
             chan->buflen == 0)
@@ -6107,6 +6127,7 @@ static int chan_tryrecv0(struct neco_chan *chan, void *data, bool try,
         if (chan->msgsize) {
             memcpy(data, send->cmsg, (size_t)chan->msgsize);
         }
+        send->woken = true;
         if (chan->sclosed && colist_is_empty(&chan->queue) && 
             chan->buflen == 0)
         {
@@ -6135,7 +6156,7 @@ static int chan_tryrecv0(struct neco_chan *chan, void *data, bool try,
     remove_from_list(co);
     // The sender has already copied its message to 'data'.
     co->cmsg = NULL;
-    int ret = checkdl(co, INT64_MAX);
+    int ret = checkwait(co);
     if (ret != NECO_OK) {
         return ret;
     }
@@ -6224,6 +6245,7 @@ static int chan_close(struct neco_chan *chan) {
             *cocase->ok = false;
         }
         recv->cclosed = true;
+        recv->woken = true;
         sched_resume(recv);
     }
     chan->rclosed = true;
@@ -6297,7 +6319,7 @@ static int chan_select(int ncases, struct coselectcase *cases, int *ret_idx,
     for (int i = 0; i < ncases; i++) {
         remove_from_list((struct coroutine*)&cases[i]);
     }
-    int ret = checkdl(co, INT64_MAX);
+    int ret = checkwait(co);
     return ret == NECO_OK ? *ret_idx : ret;
 }
 
@@ -7192,7 +7214,7 @@ static int finish_lock(struct coroutine *co, struct neco_mutex *mu,
     rt->nlocked--;
     remove_from_list(co);
     co->rlocked = false;
-    return checkdl(co, INT64_MAX);
+    return checkwait(co);
 }
 
 static int mutex_lock_dl(struct coroutine *co, struct neco_mutex *mu,
@@ -7263,6 +7285,7 @@ static void mutex_fastunlock(struct neco_mutex *mu) {
     while (1) {
         struct coroutine *co = colist_pop_front(&mu->queue);
         // Schedule the coroutines to resume.
+        co->woken = true;
         sched_resume(co);
         if (co->rlocked) {
             // The popped coroutine was a reader.
@@ -7415,10 +7438,12 @@ static int waitgroup_done(neco_waitgroup *waitgroup) {
         struct coroutine *co = colist_pop_front(&wg->queue);
         if (colist_is_empty(&wg->queue)) {
             // Only one waiter. Do a quick switch.
+            co->woken = true;
             sco_resume(co->id);
         } else {
             // Many waiters. Batch them together.
             do {
+                co->woken = true;
                 sched_resume(co);
                 co = colist_pop_front(&wg->queue);  
             } while (co);
@@ -7457,7 +7482,7 @@ static int waitgroup_wait_dl(neco_waitgroup *waitgroup, int64_t deadline) {
     copause(deadline);
     rt->nwaitgroupers--;
     remove_from_list(co);
-    return checkdl(co, INT64_MAX);
+    return checkwait(co);
 }
 
 int neco_waitgroup_wait_dl(neco_waitgroup *waitgroup, int64_t deadline) {
@@ -7555,6 +7580,7 @@ static int cond_signal(neco_cond *cond) {
     }
     struct coroutine *co = colist_pop_front(&cvar->queue);
     if (co) {
+        co->woken = true;
         sco_resume(co->id);
     }
     return NECO_OK;
@@ -7574,6 +7600,7 @@ static int cond_broadcast(neco_cond *cond) {
     }
     struct coroutine *co = colist_pop_front(&cvar->queue);
     while (co) {
+        co->woken = true;
         sched_resume(co);
         co = colist_pop_front(&cvar->queue);
     }
@@ -7611,7 +7638,7 @@ static int cond_wait_dl(neco_cond *cond, neco_mutex *mutex, int64_t deadline) {
     copause(deadline);
     rt->ncondwaiters--;
     remove_from_list(co);
-    ret = checkdl(co, INT64_MAX);
+    ret = checkwait(co);
     // Must relock.
     while (mutex_fastlock(co, mu, INT64_MAX) != NECO_OK) { }
     return ret;
@@ -7738,6 +7765,7 @@ static void coexit(bool async) {
     // Notify all join waiters (if any)
     cowaiter = colist_pop_front(&co->joinlist);
     while (cowaiter) {
+        cowaiter->woken = true;
         sched_resume(cowaiter);
         sched = true;
         cowaiter = colist_pop_front(&co->joinlist);
@@ -7870,7 +7898,7 @@ static int join_dl(int64_t id, int64_t deadline) {
     copause(deadline);
     remove_from_list(co);
     cotarg->njoinlist--;
-    return checkdl(co, INT64_MAX);
+    return checkwait(co);
 }
 
 /// Same as neco_join() but with a deadline parameter. 
@@ -8648,7 +8676,7 @@ static int suspend_dl(int64_t deadline) {
     rt->nsuspended--;
     co->suspended = false;
 
-    return checkdl(co, INT64_MAX);
+    return checkwait(co);
 }
 
 /// Same as neco_suspend() but with a deadline parameter. 
@@ -8679,6 +8707,7 @@ static int resume(int64_t id) {
     if (!co->suspended) {
         return NECO_NOTSUSPENDED;
     }
+    co->woken = true;
     sco_resume(co->id);
     return NECO_OK;
 }
-- 
2.43.0


From 112d49e173b55398cbf397b67172d6ed558d2a08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:23:19 +0000
Subject: [PATCH 02/36] fix: condition wait releases the mutex and starts
 waiting in one step

Unlocking could hand over the lock and yield before the waiter was queued
on the condition variable, so a signal sent by the next owner was missed.
---
 neco.c | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/neco.c b/neco.c
index 2ee4448..bef1f4a 100644
--- a/neco.c
+++ b/neco.c
@@ -7264,22 +7264,25 @@ int neco_mutex_rdlock(neco_mutex *mutex) {
     return neco_mutex_rdlock_dl(mutex, INT64_MAX);
 }
 
-static void mutex_fastunlock(struct neco_mutex *mu) {
+// mutex_fastunlock releases the lock without yielding.
+// Returns true when the lock was handed over to waiting coroutines. In that
+// case the caller should follow up with a yield_for_sched_resume().
+static bool mutex_fastunlock(struct neco_mutex *mu) {
     if (!mu->locked) {
-        return;
+        return false;
     }
     if (mu->rlocked > 0) {
         // This lock is currently being used by a reader.
         mu->rlocked--;
         if (mu->rlocked > 0) {
             // There are still more readers using this lock.
-            return;
+            return false;
         }
     }
     if (colist_is_empty(&mu->queue)) {
         // There are no more coroutines in the queue.
         mu->locked = false;
-        return;
+        return false;
     }
     // Choose next coroutine to take the lock.
     while (1) {
@@ -7298,7 +7301,7 @@ static void mutex_fastunlock(struct neco_mutex *mu) {
         }
         break;
     }
-    yield_for_sched_resume();
+    return true;
 }
 
 static int mutex_unlock(neco_mutex *mutex) {
@@ -7308,7 +7311,9 @@ static int mutex_unlock(neco_mutex *mutex) {
     if (ret != NECO_OK) {
         return ret;
     }
-    mutex_fastunlock(mu);
+    if (mutex_fastunlock(mu)) {
+        yield_for_sched_resume();
+    }
     coyield();
     return NECO_OK;
 }
@@ -7630,6 +7635,8 @@ static int cond_wait_dl(neco_cond *cond, neco_mutex *mutex, int64_t deadline) {
         co->canceled = false;
         return NECO_CANCELED;
     }
+    // Release the lock and start waiting as a single step. Yielding in between
+    // would cause a signal from the next owner of the lock to be missed.
     mutex_fastunlock(mu);
     // The coroutine was added to the deadliner queue. We can safely
     // yield and wait to be woken at some point in the future.
-- 
2.43.0


From 4afbcb15c9f44232e9654b8e938ec662544c87a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:23:41 +0000
Subject: [PATCH 03/36] fix: condition wait always returns holding the mutex,
 without dropping a cancel

While relocking, a cancelation was swallowed, and for the async cancel type
the coroutine exited without owning the lock its cleanup handler unlocks.
---
 neco.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/neco.c b/neco.c
index bef1f4a..790e5e3 100644
--- a/neco.c
+++ b/neco.c
@@ -7324,6 +7324,7 @@ int neco_mutex_unlock(neco_mutex *mutex) {
     return ret;
 }
 
+#ifdef NECO_TESTING
 inline
 static int mutex_fastlock(struct coroutine *co, struct neco_mutex *mu,
     int64_t deadline)
@@ -7337,7 +7338,6 @@ static int mutex_fastlock(struct coroutine *co, struct neco_mutex *mu,
     return ret;
 }
 
-#ifdef NECO_TESTING
 // An optimistic lock routine for testing only
 int neco_mutex_fastlock(neco_mutex *mutex, int64_t deadline) {
     struct coroutine *co = coself();
@@ -7646,8 +7646,15 @@ static int cond_wait_dl(neco_cond *cond, neco_mutex *mutex, int64_t deadline) {
     rt->ncondwaiters--;
     remove_from_list(co);
     ret = checkwait(co);
-    // Must relock.
-    while (mutex_fastlock(co, mu, INT64_MAX) != NECO_OK) { }
+    // Must relock. A cancelation that arrives while waiting for the lock stays
+    // pending for the next operation.
+    bool canceled = false;
+    int lret = mutex_lock_dl(co, mu, INT64_MAX);
+    while (lret != NECO_OK) {
+        canceled |= lret == NECO_CANCELED;
+        lret = mutex_lock_dl(co, mu, INT64_MAX);
+    }
+    co->canceled |= canceled;
     return ret;
 }
 
-- 
2.43.0


From f2e1bec9c716e3139a2c8fa9eb175a9060e56fc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:24:48 +0000
Subject: [PATCH 04/36] fix: background worker detects that its thread could
 not be created

pthread_create returns a positive error number, never -1. The submitted
entry was left behind without a thread to run it, hanging the caller.
---
 deps/worker.c | 5 ++++-
 neco.c        | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/deps/worker.c b/deps/worker.c
index 1697a89..9d4f29c 100644
--- a/deps/worker.c
+++ b/deps/worker.c
@@ -197,7 +197,10 @@ bool worker_submit(struct worker *worker, int64_t pin, void(*work)(void *udata),
         thread->len++;
         if (!thread->th) {
             int ret = pthread_create(&thread->th, 0, worker_entry, thread);
-            if (ret == -1) {
+            if (ret != 0) {
+                // The thread was not created. Take back the entry.
+                thread->th = 0;
+                thread->len--;
                 pthread_mutex_unlock(&thread->mu);
                 return false;
             }
diff --git a/neco.c b/neco.c
index 790e5e3..c216797 100644
--- a/neco.c
+++ b/neco.c
@@ -2820,7 +2820,10 @@ bool worker_submit(struct worker *worker, int64_t pin, void(*work)(void *udata),
         thread->len++;
         if (!thread->th) {
             int ret = pthread_create(&thread->th, 0, worker_entry, thread);
-            if (ret == -1) {
+            if (ret != 0) {
+                // The thread was not created. Take back the entry.
+                thread->th = 0;
+                thread->len--;
                 pthread_mutex_unlock(&thread->mu);
                 return false;
             }
-- 
2.43.0


From e1a47b476de31046123fab77d56bdbaeef1562b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:24:48 +0000
Subject: [PATCH 05/36] fix: canceling a coroutine does not cut short its
 background work

The paused coroutine was resumed while the worker thread was still using
its stack and data.
---
 neco.c | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/neco.c b/neco.c
index c216797..048b807 100644
--- a/neco.c
+++ b/neco.c
@@ -3346,6 +3346,7 @@ struct coroutine {
 
     bool rlocked;
     bool suspended;
+    bool iodone;                  // background work has completed
 
     int64_t pool_ts;              // timestamp when added to a pool
 
@@ -3675,6 +3676,18 @@ static void sched_resume(struct coroutine *co) {
     rt->nresumers++;
 }
 
+#ifndef NECO_NOWORKERS
+// Pause the current coroutine until the background worker is done with it.
+// A cancelation may wake up the coroutine early, but the worker is still using
+// its stack at that point. The cancelation remains pending.
+static void copause_for_worker(struct coroutine *co) {
+    while (!co->iodone) {
+        sco_pause();
+    }
+    co->iodone = false;
+}
+#endif
+
 static void yield_for_sched_resume(void) {
     // Two yields may be required. The first will resume the paused coroutines
     // that are in the resumers queue. The second yield ensures that the
@@ -4205,6 +4218,7 @@ static void rt_sched_paused_step(void) {
             if (!co) {
                 break;
             }
+            co->iodone = true;
             sco_resume(co->id);
         }
     }
@@ -5091,7 +5105,7 @@ static ssize_t read1(int fd, void *data, size_t nbytes) {
         int64_t pin = co->id % NECO_MAXIOWORKERS;
         if (worker_submit(rt->worker, pin, ioread, &info)) {
             rt->niowaiters++;
-            sco_pause();
+            copause_for_worker(co);
             rt->niowaiters--;
             n = info.res;
             if (n < 0) {
@@ -5253,7 +5267,7 @@ static ssize_t write3(int fd, const void *data, size_t nbytes) {
         int64_t pin = co->id % NECO_MAXIOWORKERS;
         if (worker_submit(rt->worker, pin, iowrite, &info)) {
             rt->niowaiters++;
-            sco_pause();
+            copause_for_worker(co);
             rt->niowaiters--;
             n = info.res;
             if (n < 0) {
@@ -8777,7 +8791,7 @@ static int workfn(int64_t pin, void(*work)(void *udata), void *udata) {
     while (!worker_submit(rt->worker, pin, iowork, &info)) {
         sco_yield();
     }
-    sco_pause();
+    copause_for_worker(co);
     rt->niowaiters--;
 #endif
     return NECO_OK;
-- 
2.43.0


From c901e80f2e00406c6a8f249da2370ae46801c813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:25:10 +0000
Subject: [PATCH 06/36] fix: a pooled coroutine starts in a fresh state

A reused coroutine inherited a pending cancel, the last started id, and
watched signals from the finished coroutine it was recycled from.
---
 neco.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/neco.c b/neco.c
index 048b807..fe9ea57 100644
--- a/neco.c
+++ b/neco.c
@@ -3873,6 +3873,11 @@ static int start(void(*coroutine)(int, void**), int argc, va_list *args,
     co->coroutine = coroutine;
     co->canceltype = env_canceltype;
     co->cancelstate = env_cancelstate;
+    // A pooled coroutine must not inherit anything from its previous use.
+    co->canceled = false;
+    co->deadlined = false;
+    co->lastid = 0;
+    co->cleanup = NULL;
 
     if (gen) {
         co->gen = chan_fastmake(gen_data_size, 0, true);
@@ -7781,6 +7786,14 @@ static void coexit(bool async) {
         }
     }
 
+    // Stop watching signals
+    for (int signo = 1; co->sigwatch && signo < 32; signo++) {
+        if (co->sigwatch & (UINT32_C(1) << signo)) {
+            co->sigwatch &= ~(UINT32_C(1) << signo);
+            rt->sigwatchers[signo]--;
+        }
+    }
+
     // Delete from map 
     comap_delete(&rt->all, co);
 
-- 
2.43.0


From d7dc293fa6b6767d875a2db1006393c425ef6b7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:25:32 +0000
Subject: [PATCH 07/36] fix: a coroutine that is exiting cannot be canceled
 again

A cancel arriving during exit re-entered the exit code from the middle of
a cleanup handler, skipping the rest of it.
---
 neco.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/neco.c b/neco.c
index fe9ea57..d9188fb 100644
--- a/neco.c
+++ b/neco.c
@@ -7779,6 +7779,12 @@ static void coexit(bool async) {
     // The current coroutine _must_ exit.
     struct coroutine *co = coself();
 
+    // From here on it cannot be canceled. Otherwise a yield from a cleanup
+    // handler, or from below, would re-enter this function.
+    co->canceled = false;
+    co->cancelstate = NECO_CANCEL_DISABLE;
+    co->canceltype = NECO_CANCEL_INLINE;
+
     if (async) {
         // Run the cleanup stack
         while (co->cleanup) {
-- 
2.43.0


From 1b80799bbfa4beb45662a3d6d23db512b6393edb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:26:11 +0000
Subject: [PATCH 08/36] fix: wake file waiters on error and hangup events

A descriptor reporting only EPOLLERR or EPOLLHUP left its waiters paused
forever.
---
 neco.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/neco.c b/neco.c
index d9188fb..3cb5eb1 100644
--- a/neco.c
+++ b/neco.c
@@ -4123,8 +4123,10 @@ static void rt_sched_event_step(int64_t timeout) {
     for (int i = 0; i < nevents; i++) {
 #if defined(NECO_POLL_EPOLL)
         int fd = evs[i].data.fd;
-        bool read = evs[i].events & EPOLLIN;
-        bool write = evs[i].events & EPOLLOUT;
+        // An error or hangup wakes up both the readers and writers, who'll
+        // see the condition when they retry their operation.
+        bool read = evs[i].events & (EPOLLIN | EPOLLERR | EPOLLHUP);
+        bool write = evs[i].events & (EPOLLOUT | EPOLLERR | EPOLLHUP);
 #elif defined(NECO_POLL_KQUEUE)
         int fd = (int)evs[i].ident;
         bool read = evs[i].filter == EVFILT_READ;
-- 
2.43.0


From f8d3135a59562c3291f1d289d58eb641896f8366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:26:33 +0000
Subject: [PATCH 09/36] fix: keep waiting writers armed when only a reader was
 woken

Readers and writers of a descriptor share one oneshot registration. When it
fired for one kind, waiters of the other kind were never woken again.
---
 neco.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/neco.c b/neco.c
index 3cb5eb1..c2be2cb 100644
--- a/neco.c
+++ b/neco.c
@@ -4127,6 +4127,14 @@ static void rt_sched_event_step(int64_t timeout) {
         // see the condition when they retry their operation.
         bool read = evs[i].events & (EPOLLIN | EPOLLERR | EPOLLHUP);
         bool write = evs[i].events & (EPOLLOUT | EPOLLERR | EPOLLHUP);
+        if (read != write && evexists(fd, read ? EVWRITE : EVREAD)) {
+            // The oneshot event has been disarmed for both kinds, but there
+            // are waiters for the kind that is not ready yet. Rearm it.
+            struct epoll_event ev = { 0 };
+            ev.data.fd = fd;
+            ev.events = (read ? EPOLLOUT : EPOLLIN) | EPOLLONESHOT;
+            epoll_ctl(rt->qfd, EPOLL_CTL_MOD, fd, &ev);
+        }
 #elif defined(NECO_POLL_KQUEUE)
         int fd = (int)evs[i].ident;
         bool read = evs[i].filter == EVFILT_READ;
-- 
2.43.0


From 7aadba87d676e117da84e023c023c16bf4e923d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:27:24 +0000
Subject: [PATCH 10/36] fix: a write that is canceled or timed out reports the
 bytes already written

Returning -1 after a partial write made the caller, such as a stream flush,
write the same bytes again.
---
 neco.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/neco.c b/neco.c
index c2be2cb..9c556ec 100644
--- a/neco.c
+++ b/neco.c
@@ -5314,6 +5314,12 @@ static ssize_t write_dl(int fd, const void *data, size_t nbytes,
         int ret = checkdl(co, deadline);
         if (ret != NECO_OK) {
             errno = ret == NECO_CANCELED ? ECANCELED : ETIMEDOUT;
+            if (written > 0) {
+                // The caller must know about the data already written. Leave
+                // the cancelation pending for the next operation.
+                co->canceled = ret == NECO_CANCELED;
+                return written;
+            }
             return -1;
         }
         // size_t maxnbytes = CLAMP(nbytes, 0, 8096);
-- 
2.43.0


From fbefc2d802606159a85a8ffad76e193fff8177b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:27:46 +0000
Subject: [PATCH 11/36] fix: reading a buffered byte does not swallow a pending
 cancel

The byte was returned anyway, so the cancelation was silently dropped.
---
 neco.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neco.c b/neco.c
index 9c556ec..aa584b8 100644
--- a/neco.c
+++ b/neco.c
@@ -8225,7 +8225,7 @@ ssize_t neco_stream_buffered_read_size(neco_stream *stream) {
 int neco_stream_read_byte_dl(neco_stream *stream, int64_t deadline) {
     unsigned char byte;
     if (rt && stream && stream->rtid == rt->id && stream->buffered && 
-        stream->rd.len > 0 && checkdl(coself(), deadline) == NECO_OK)
+        stream->rd.len > 0)
     {
         // fast-track read byte
         byte = (unsigned char)stream->rd.data[stream->rd.pos];
-- 
2.43.0


From 3c7f5f656ed90be9cd95aef5af582d18ba79a029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:28:37 +0000
Subject: [PATCH 12/36] fix: closed channel reports closed after its last
 waiting sender gives up

When the waiting sender timed out or was canceled, the receive side was
never closed and receivers waited forever.
---
 neco.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/neco.c b/neco.c
index aa584b8..9cf8945 100644
--- a/neco.c
+++ b/neco.c
@@ -6080,7 +6080,15 @@ static int chan_send0(struct neco_chan *chan, void *data, bool broadcast,
     remove_from_list(co);
 
     co->cmsg = NULL;
-    return checkwait(co);
+    int ret = checkwait(co);
+    if (ret != NECO_OK && chan->sclosed && colist_is_empty(&chan->queue) && 
+        chan->buflen == 0)
+    {
+        // The channel was closed and this was the last sender. There are no
+        // more messages. Close the receiving side too.
+        chan->rclosed = true;
+    }
+    return ret;
 }
 
 /// Same as neco_chan_send() but with a deadline parameter.
-- 
2.43.0


From e09ee34b47f8ad1bea2b85f070ad084a0fde4da9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:29:19 +0000
Subject: [PATCH 13/36] fix: channel message slots are addressed beyond 2 GB
 without overflow

---
 neco.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neco.c b/neco.c
index 9cf8945..1fc7365 100644
--- a/neco.c
+++ b/neco.c
@@ -5804,7 +5804,7 @@ struct coselectcase {
 
 // returns the message slot
 static char *cbufslot(struct neco_chan *chan, int index) {
-    return chan->data + (chan->msgsize * index);
+    return chan->data + ((size_t)chan->msgsize * (size_t)index);
 }
 
 // push a message to the back by copying from data
-- 
2.43.0


From c502907306e7d19b529456fa823c9d8396272207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:29:41 +0000
Subject: [PATCH 14/36] fix: lowering a waitgroup to zero with a negative delta
 wakes its waiters

---
 neco.c | 40 ++++++++++++++++++++++++----------------
 1 file changed, 24 insertions(+), 16 deletions(-)

diff --git a/neco.c b/neco.c
index 1fc7365..5f819c5 100644
--- a/neco.c
+++ b/neco.c
@@ -7454,6 +7454,26 @@ int neco_waitgroup_init(neco_waitgroup *waitgroup) {
     return ret;
 }
 
+// Wake up all of the waiters when the count is zero
+static void waitgroup_wake(struct neco_waitgroup *wg) {
+    if (wg->count == 0 && !colist_is_empty(&wg->queue)) {
+        struct coroutine *co = colist_pop_front(&wg->queue);
+        if (colist_is_empty(&wg->queue)) {
+            // Only one waiter. Do a quick switch.
+            co->woken = true;
+            sco_resume(co->id);
+        } else {
+            // Many waiters. Batch them together.
+            do {
+                co->woken = true;
+                sched_resume(co);
+                co = colist_pop_front(&wg->queue);  
+            } while (co);
+            yield_for_sched_resume();
+        }
+    }
+}
+
 static int waitgroup_add(neco_waitgroup *waitgroup, int delta) {
     struct neco_waitgroup *wg = (void*)waitgroup;
     int ret = check_waitgroup(wg);
@@ -7465,6 +7485,9 @@ static int waitgroup_add(neco_waitgroup *waitgroup, int delta) {
         return NECO_NEGWAITGRP;
     }
     wg->count = waiters;
+    if (delta < 0) {
+        waitgroup_wake(wg);
+    }
     return NECO_OK;
 }
 
@@ -7485,22 +7508,7 @@ static int waitgroup_done(neco_waitgroup *waitgroup) {
         return NECO_NEGWAITGRP;
     }
     wg->count--;
-    if (wg->count == 0 && !colist_is_empty(&wg->queue)) {
-        struct coroutine *co = colist_pop_front(&wg->queue);
-        if (colist_is_empty(&wg->queue)) {
-            // Only one waiter. Do a quick switch.
-            co->woken = true;
-            sco_resume(co->id);
-        } else {
-            // Many waiters. Batch them together.
-            do {
-                co->woken = true;
-                sched_resume(co);
-                co = colist_pop_front(&wg->queue);  
-            } while (co);
-            yield_for_sched_resume();
-        }
-    }
+    waitgroup_wake(wg);
     return NECO_OK;
 }
 
-- 
2.43.0


From 895180281768a7999d47e1f9aab2b954a45fcbde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:30:20 +0000
Subject: [PATCH 15/36] fix: enabling cancelation lets the coroutines blocked
 on canceling it proceed

They were only woken when the target exited, so the cancelation was not
delivered until then.
---
 neco.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/neco.c b/neco.c
index 5f819c5..a4d22b9 100644
--- a/neco.c
+++ b/neco.c
@@ -3360,7 +3360,6 @@ struct coroutine {
     int cancelstate;              // cancelation state
     bool canceled;                // coroutine operation was cancelled
     struct colist cancellist;     // waiting coroutines
-    int ncancellist;              // number of waiting coroutines
 
     struct colist joinlist;       // waiting coroutines
     int njoinlist;                // number of waiting coroutines
@@ -4696,6 +4695,7 @@ static int cancel_dl(int64_t id, int64_t deadline) {
     while (1) {
         cotarg = cofind(id);
         if (!cotarg) {
+            co->deadlined = false;
             return NECO_NOTFOUND;
         }
         int ret = checkdl(co, deadline);
@@ -4713,10 +4713,8 @@ static int cancel_dl(int64_t id, int64_t deadline) {
         // Target coroutine is blocking their cancel state.
         // Wait for it to be released.
         colist_push_back(&cotarg->cancellist, co);
-        cotarg->ncancellist++;
         copause(deadline);
         remove_from_list(co);
-        cotarg->ncancellist--;
     }
 }
 
@@ -7761,6 +7759,14 @@ static int setcancelstate(int state, int *oldstate) {
         *oldstate = co->cancelstate;
     }
     co->cancelstate = state;
+    if (state == NECO_CANCEL_ENABLE) {
+        // Let the coroutines that are waiting to cancel this one try again.
+        struct coroutine *cowaiter = colist_pop_front(&co->cancellist);
+        while (cowaiter) {
+            sched_resume(cowaiter);
+            cowaiter = colist_pop_front(&co->cancellist);
+        }
+    }
     return NECO_OK;
 }
 
-- 
2.43.0


From ac19b0c423bb0e042722baf7b63d878f491aaa9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:30:55 +0000
Subject: [PATCH 16/36] fix: an unclaimed signal does not hold up other signals

A pending signal that nobody is waiting on blocked the delivery of every
higher numbered signal.
---
 neco.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neco.c b/neco.c
index a4d22b9..b6dced9 100644
--- a/neco.c
+++ b/neco.c
@@ -4080,6 +4080,7 @@ static void rt_sched_signal_step(void) {
                     // A coroutine is waiting on this signal.
                     // Assign the signal to its sigmask and resume
                     // the coroutine.
+                    remove_from_list(co);
                     co->sigmask = (uint32_t)signo;
                     co->woken = true;
                     rt->sigqueue[signo]--;
@@ -4092,7 +4093,6 @@ static void rt_sched_signal_step(void) {
                 co = next;
             }
         }
-        break;
     }
 }
 
-- 
2.43.0


From 182d645d3fe5986e2c72eac08d15f826f4defe7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:32:13 +0000
Subject: [PATCH 17/36] fix: canceling a dial does not fall through to the next
 address

The cancelation was consumed by the failed attempt and the dial went on.
---
 neco.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neco.c b/neco.c
index b6dced9..1d4e693 100644
--- a/neco.c
+++ b/neco.c
@@ -6957,7 +6957,7 @@ static int dial_tcp_dl(const char *addr, int tcp_vers, int64_t deadline) {
     do {
         fd = dial_connect_dl(ai->ai_family, ai->ai_socktype, ai->ai_protocol, 
             ai->ai_addr, ai->ai_addrlen, deadline);
-        if (fd != -1) {
+        if (fd != -1 || errno == ECANCELED) {
             break;
         }
         ai = ai->ai_next;
-- 
2.43.0


From 358016d8a1e38d0db5a42cb66bc645b8f9721b5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:32:35 +0000
Subject: [PATCH 18/36] fix: serving a unix socket path that is too long is
 invalid

The path was silently truncated, listening at a different address.
---
 neco.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/neco.c b/neco.c
index 1d4e693..da0463d 100644
--- a/neco.c
+++ b/neco.c
@@ -7064,11 +7064,14 @@ static int listen_unix_dl(const char *addr, int64_t deadline) {
 #ifdef _WIN32
     return NECO_PERM;
 #else
+    struct sockaddr_un unaddr;
+    if (strlen(addr) > sizeof(unaddr.sun_path) - 1) {
+        return NECO_INVAL;
+    }
     int fd = socket0(AF_UNIX, SOCK_STREAM, 0);
     if (fd == -1) {
         return NECO_ERROR;
     }
-    struct sockaddr_un unaddr;
     memset(&unaddr, 0, sizeof(struct sockaddr_un));
     unaddr.sun_family = AF_UNIX;
     strncpy(unaddr.sun_path, addr, sizeof(unaddr.sun_path) - 1);
-- 
2.43.0


From abd4be703d41fe85bacb5afbda01659313600e48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:32:57 +0000
Subject: [PATCH 19/36] fix: disable the alternate signal stack before freeing
 it

---
 neco.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/neco.c b/neco.c
index da0463d..91b2d98 100644
--- a/neco.c
+++ b/neco.c
@@ -4047,7 +4047,6 @@ static void rt_restore_signal_handlers(void) {
         // Allocation failed during the initialization.
         return;
     }
-    free0(rt->sigstack);
     for (size_t i = 0; i < sizeof(ALLOWED_SIGNALS)/sizeof(int); i++) {
         int signo = ALLOWED_SIGNALS[i];
         must(sigaction(signo, &rt->sigold[signo], NULL) == 0);
@@ -4056,6 +4055,12 @@ static void rt_restore_signal_handlers(void) {
         int signo = TRAPPED_SIGNALS[i];
         must(sigaction(signo, &rt->sigold[signo], NULL) == 0);
     }
+#if NECO_SIGSTKSZ > 0
+    // The system must not use the signal stack after it's been freed.
+    stack_t ss = { .ss_flags = SS_DISABLE };
+    must(sigaltstack(&ss, NULL) == 0);
+#endif
+    free0(rt->sigstack);
 #endif
 }
 
-- 
2.43.0


From 558efbd141f01c980ad02a4898d3bcab84ba7a35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:33:19 +0000
Subject: [PATCH 20/36] fix: failed mutex and generator calls report their
 error in neco_lasterr

---
 neco.c | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/neco.c b/neco.c
index 91b2d98..cd89139 100644
--- a/neco.c
+++ b/neco.c
@@ -7236,6 +7236,7 @@ int neco_mutex_trylock(neco_mutex *mutex) {
     struct neco_mutex *mu = (void*)mutex;
     int ret = check_mutex(co, mu);
     if (ret != NECO_OK) {
+        error_guard(ret);
         return ret;
     }
     ret = mutex_trylock(co, mu, true, 0);
@@ -7248,6 +7249,7 @@ int neco_mutex_tryrdlock(neco_mutex *mutex) {
     struct neco_mutex *mu = (void*)mutex;
     int ret = check_mutex(co, mu);
     if (ret != NECO_OK) {
+        error_guard(ret);
         return ret;
     }
     ret = mutex_tryrdlock(co, mu, true, 0);
@@ -7285,6 +7287,7 @@ int neco_mutex_lock_dl(neco_mutex *mutex, int64_t deadline) {
     struct neco_mutex *mu = (void*)mutex;
     int ret = check_mutex(co, mu);
     if (ret != NECO_OK) {
+        error_guard(ret);
         return ret;
     }
     ret = mutex_lock_dl(co, mu, deadline);
@@ -7301,6 +7304,7 @@ int neco_mutex_rdlock_dl(neco_mutex *mutex, int64_t deadline) {
     struct neco_mutex *mu = (void*)mutex;
     int ret = check_mutex(co, mu);
     if (ret != NECO_OK) {
+        error_guard(ret);
         return ret;
     }
     ret = mutex_tryrdlock(co, mu, false, deadline);
@@ -8705,11 +8709,10 @@ int neco_gen_release(neco_gen *gen) {
 /// Same as neco_gen_yield() but with a deadline parameter.
 int neco_gen_yield_dl(void *data, int64_t deadline) {
     struct coroutine *co = coself();
-    if (!co) {
-        return NECO_PERM;
-    }
-    if (!co->gen) {
-        return NECO_NOTGENERATOR;
+    if (!co || !co->gen) {
+        int ret = !co ? NECO_PERM : NECO_NOTGENERATOR;
+        error_guard(ret);
+        return ret;
     }
     return neco_chan_send_dl((void*)co->gen, data, deadline);
 }
-- 
2.43.0


From 99dc319f274c9e68e469390cf1101ab249525844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:33:41 +0000
Subject: [PATCH 21/36] fix: a failed neco_pipe waits for its helper coroutine

The helper kept using the stack of the returned function, and its
descriptor was leaked.
---
 neco.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/neco.c b/neco.c
index cd89139..b711e9a 100644
--- a/neco.c
+++ b/neco.c
@@ -7947,8 +7947,11 @@ static int _pipe_(int pipefd[2]) {
         unlink(path);
     }
     int perrno = errno;
-    if (ret == 0) {
+    if (childid) {
+        // The child uses the stack of this function.
         neco_join(childid);
+    }
+    if (ret == 0) {
         pipefd[0] = fd0;
         pipefd[1] = fd1;
         fd0 = -1;
-- 
2.43.0


From 41bfbe14b8164c5e7053172634bbfa645346c557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:34:03 +0000
Subject: [PATCH 22/36] fix: a canceled getaddrinfo does not leak the result or
 lose errno

---
 neco.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/neco.c b/neco.c
index b711e9a..b22d746 100644
--- a/neco.c
+++ b/neco.c
@@ -6744,11 +6744,13 @@ static int getaddrinfo_dl(const char *node, const char *service,
     ret = EAI_SYSTEM;
     if (n != -1) {
         must(ready == 1 && n == sizeof(int));
+        // Yield before taking the result, which would otherwise leak when
+        // the coroutine is asynchronously canceled.
+        coyield();
         *res = args->res;
         args->res = NULL;
         ret = args->ret;
         errno = args->errnum;
-        coyield();
     }
     neco_cleanup_pop(1);
     return ret;
-- 
2.43.0


From 153169cfb3cda085aa351ff134cd3930f5ea19a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:32 +0000
Subject: [PATCH 23/36] fix: keep a cancelation pending when a stream transfer
 was cut short by it

---
 neco.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/neco.c b/neco.c
index b22d746..4d7d692 100644
--- a/neco.c
+++ b/neco.c
@@ -8220,6 +8220,9 @@ static ssize_t stream_readfull_dl(neco_stream *stream, void *data,
         if (n <= 0) {
             if (nread == 0) {
                 nread = n;
+            } else if (neco_lasterr() == NECO_CANCELED) {
+                // Leave the cancelation pending for the next operation.
+                coself()->canceled = true;
             }
             return nread;
         } else {
@@ -8367,6 +8370,9 @@ static ssize_t stream_write_dl(neco_stream *stream, const void *data,
             if (ret != NECO_OK) {
                 if (nwritten == 0) {
                     nwritten = ret;
+                } else if (ret == NECO_CANCELED) {
+                    // Leave the cancelation pending for the next operation.
+                    coself()->canceled = true;
                 }
                 break;
             }
-- 
2.43.0


From 43003c97d5d563085f4c40e3babc8fb42df9ab7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:22:09 +0000
Subject: [PATCH 24/36] fix: waitgroup_add must not overflow the counter

Adding to a count so that it exceeds INT_MAX was a signed integer
overflow. Report it as an invalid parameter and leave the count alone.
---
 neco.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/neco.c b/neco.c
index 4d7d692..8cec76b 100644
--- a/neco.c
+++ b/neco.c
@@ -7492,11 +7492,14 @@ static int waitgroup_add(neco_waitgroup *waitgroup, int delta) {
     if (ret != NECO_OK) {
         return ret;
     }
-    int waiters = wg->count + delta;
+    int64_t waiters = (int64_t)wg->count + delta;
     if (waiters < 0) {
         return NECO_NEGWAITGRP;
     }
-    wg->count = waiters;
+    if (waiters > INT_MAX) {
+        return NECO_INVAL;
+    }
+    wg->count = (int)waiters;
     if (delta < 0) {
         waitgroup_wake(wg);
     }
-- 
2.43.0


From aa45bb282015625a651671028d6766b691a40325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:55:44 +0000
Subject: [PATCH 25/36] fix: select left the coroutine scheduled to resume
 after a broadcast or close raced its deadline

---
 neco.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/neco.c b/neco.c
index 8cec76b..edd32a6 100644
--- a/neco.c
+++ b/neco.c
@@ -6368,6 +6368,9 @@ static int chan_select(int ncases, struct coselectcase *cases, int *ret_idx,
     for (int i = 0; i < ncases; i++) {
         remove_from_list((struct coroutine*)&cases[i]);
     }
+    // The coroutine itself may have been scheduled to resume by a broadcast or
+    // close while it was already resuming for another reason.
+    remove_from_list(co);
     int ret = checkwait(co);
     return ret == NECO_OK ? *ret_idx : ret;
 }
-- 
2.43.0


From fb918ff4d131987028b8ffcaa36fcbd3496d1f66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:55:44 +0000
Subject: [PATCH 26/36] fix: event queue with descriptor 0 was taken for no
 queue

---
 neco.c | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/neco.c b/neco.c
index edd32a6..9eca3fd 100644
--- a/neco.c
+++ b/neco.c
@@ -3637,7 +3637,7 @@ struct runtime {
     unsigned int burstcount;
 };
 
-#define RUNTIME_DEFAULTS (struct runtime) { 0 }
+#define RUNTIME_DEFAULTS (struct runtime) { .qfd = -1 }
 
 static __thread struct runtime *rt = NULL;
 
@@ -4278,13 +4278,13 @@ static void rt_sched_paused_step(void) {
 // Resource collection step
 static void rt_rc_step(void) {
     int64_t now = getnow();
-    if (rt->nevwaiters == 0 && rt->qfd > 0) {
+    if (rt->nevwaiters == 0 && rt->qfd != -1) {
         if (now - rt->qfdcreated > NECO_MILLISECOND * 100) {
             // Close the event queue file descriptor if it's no longer needed.
             // When the queue goes unused for more than 100 ms it will
             // automatically be closed.
             close(rt->qfd);
-            rt->qfd = 0;
+            rt->qfd = -1;
         }
     }
     // Deal with coroutine pools.
@@ -4321,7 +4321,7 @@ static int rt_scheduler(void) {
         sco_resume(0);
     }
     // Cleanup extra resources
-    if (rt->qfd) {
+    if (rt->qfd != -1) {
         close(rt->qfd);
     }
     struct coroutine *co = colist_pop_front(&rt->pool);
@@ -4965,7 +4965,7 @@ static int wait_dl(int fd, enum evkind kind, int64_t deadline) {
 
     sco_yield();
 #else
-    if (rt->qfd == 0) {
+    if (rt->qfd == -1) {
         // The scheduler currently does not have an event queue for handling
         // file events. Create one now. This new queue will be shared for the 
         // entirety of the scheduler. It will be automatically freed when it's
@@ -4975,7 +4975,6 @@ static int wait_dl(int fd, enum evkind kind, int64_t deadline) {
             // Error creating the event queue. This is usually due to a system
             // that is low on resources or is limiting the number of file
             // descriptors allowed by a program, e.g. ulimit. 
-            rt->qfd = 0;
             return -1;
         }
         // The queue was successfully created.
-- 
2.43.0


From 473efb6256682f513960c43efb96d6de497edeb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:55:44 +0000
Subject: [PATCH 27/36] fix: neco_pipe and neco_getaddrinfo leaked descriptor 0

---
 neco.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/neco.c b/neco.c
index 9eca3fd..53714dd 100644
--- a/neco.c
+++ b/neco.c
@@ -6560,10 +6560,10 @@ static void gai_args_free(struct getaddrinfo_args *args) {
         free0(args->node);
         free0(args->hints);
         freeaddrinfo(args->res);
-        if (args->fds[0]) {
+        if (args->fds[0] != -1) {
             must(close(args->fds[0]) == 0);
         }
-        if (args->fds[1]) {
+        if (args->fds[1] != -1) {
             must(close(args->fds[1]) == 0);
         }
 #ifdef __FreeBSD__
@@ -6583,6 +6583,8 @@ static struct getaddrinfo_args *gai_args_new(const char *node,
         return NULL;
     }
     memset(args, 0, sizeof(struct getaddrinfo_args));
+    args->fds[0] = -1;
+    args->fds[1] = -1;
     if (node) {
         size_t nnode = strlen(node);
         args->node = malloc0(nnode+1);
@@ -7929,7 +7931,7 @@ static int _pipe_(int pipefd[2]) {
     snprintf(path, sizeof(path), "/tmp/neco.%" PRIu64 ".sock", tmpkey);
     int ln = neco_serve("unix", path);
     int64_t childid = 0;
-    if (ln > 0) {
+    if (ln >= 0) {
         // State a coroutine to connect to the listener.
         int nret = neco_start(co_pipe, 3, path, &secret, &fd0);
         neco_errconv_to_sys(nret);
@@ -7938,7 +7940,7 @@ static int _pipe_(int pipefd[2]) {
             int64_t dl = neco_now() + NECO_SECOND * 5;
             fd1 = neco_accept_dl(ln, 0, 0, dl);
             neco_errconv_to_sys(fd1);
-            if (fd1 > 0) {
+            if (fd1 >= 0) {
                 // Other side of pipe is connected.
                 // Waiting for the handshake.
                 int64_t data;
-- 
2.43.0


From f5161ed398b94ef797ea1cae3be106fcdabb1791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:55:44 +0000
Subject: [PATCH 28/36] fix: neco_gai_lasterr did not report the error of
 neco_getaddrinfo

---
 neco.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/neco.c b/neco.c
index 53714dd..8bbbb8f 100644
--- a/neco.c
+++ b/neco.c
@@ -6765,6 +6765,7 @@ int neco_getaddrinfo_dl(const char *node, const char *service,
     const struct addrinfo *hints, struct addrinfo **res, int64_t deadline)
 {
     int ret = getaddrinfo_dl(node, service, hints, res, deadline);
+    neco_gai_errno = ret;
     int err;
     if (ret == 0) {
         err = NECO_OK;
-- 
2.43.0


From 919e7aa0a766c7b393b29dd3d5e51043a858b114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:58:09 +0000
Subject: [PATCH 29/36] fix: a signal arriving on a thread other than the main
 runtime's crashed the process

A SIGPIPE raised by a background write worker, or by any thread without a
runtime, ran the signal handler with rt == NULL. Forward it to the thread
that handles the signals.
---
 neco.c | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/neco.c b/neco.c
index 8bbbb8f..7f5b91d 100644
--- a/neco.c
+++ b/neco.c
@@ -3956,7 +3956,7 @@ static void sigallowhandler(int signo) {
 
 static void crash_and_exit(int signo) {
 #ifndef NECO_TESTING
-    if (rt->mainthread) {
+    if (rt && rt->mainthread) {
         fprintf(stderr, "\n=== Crash on main thread ===\n");
     } else {
         fprintf(stderr, "\n=== Crash on child thread ===\n");
@@ -3976,23 +3976,34 @@ void neco_reset_sigcrashed(void) {
 }
 #endif
 
+// The thread of the runtime that handles the signals.
+static pthread_t sigthread;
+
 static void sighandler(int signo, siginfo_t *info, void *ptr) {
     (void)info; (void)ptr;
     must(signo > 0 && signo < 32);
-    if (rt->sigcrashed) {
+    if (rt && rt->sigcrashed) {
         sigexitnow(rt->sigcrashed);
         return;
     }
     for (size_t i = 0; i < sizeof(ALLOWED_SIGNALS)/sizeof(int); i++) {
         if (signo == ALLOWED_SIGNALS[i]) {
-            sigallowhandler(signo);
+            if (rt && rt->mainthread) {
+                sigallowhandler(signo);
+            } else {
+                // The signal arrived on some other thread, such as a SIGPIPE
+                // on a background worker. Let the main thread handle it.
+                pthread_kill(sigthread, signo);
+            }
             return;
         }
     }
     for (size_t i = 0; i < sizeof(TRAPPED_SIGNALS)/sizeof(int); i++) {
         if (signo == TRAPPED_SIGNALS[i]) {
             // Print the crash and exit.
-            rt->sigcrashed = signo;
+            if (rt) {
+                rt->sigcrashed = signo;
+            }
             crash_and_exit(signo);
             return;
         }
@@ -4007,6 +4018,7 @@ static int rt_handle_signals(void) {
         // Only handle signals on the main thread.
         return NECO_OK;
     }
+    sigthread = pthread_self();
     static struct sigaction act = { 0 };
     sigemptyset(&act.sa_mask);
     act.sa_sigaction = &sighandler;
-- 
2.43.0


From 8aad55234b459623d5c05e4d7c66fdadf85ace9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:58:09 +0000
Subject: [PATCH 30/36] fix: neco_strerror had no text for NECO_EOF

---
 neco.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/neco.c b/neco.c
index 7f5b91d..fdcc5a5 100644
--- a/neco.c
+++ b/neco.c
@@ -5647,6 +5647,8 @@ const char *neco_shortstrerror(int code) {
         return "NECO_PERM";
     case NECO_NOMEM:
         return "NECO_NOMEM";
+    case NECO_EOF:
+        return "NECO_EOF";
     case NECO_NOTFOUND:
         return "NECO_NOTFOUND";
     case NECO_NOSIGWATCH:
@@ -5692,6 +5694,8 @@ const char *neco_strerror(ssize_t errcode) {
         return strerror(EPERM);
     case NECO_NOMEM:
         return strerror(ENOMEM);
+    case NECO_EOF:
+        return "End of file";
     case NECO_NOTFOUND:
         return "No such coroutine";
     case NECO_NOSIGWATCH:
-- 
2.43.0


From b89fd2578b0f0a9126502b8db21bfeec7dcda084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:58:09 +0000
Subject: [PATCH 31/36] fix: neco_chan_selectv dereferenced a null array of
 channels

---
 neco.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neco.c b/neco.c
index fdcc5a5..a01acb6 100644
--- a/neco.c
+++ b/neco.c
@@ -6393,7 +6393,7 @@ static int chan_select(int ncases, struct coselectcase *cases, int *ret_idx,
 static int chan_selectv_dl(int ncases, va_list *args, struct neco_chan **chans, 
     int64_t deadline, bool try)
 {
-    if (ncases < 0) {
+    if (ncases < 0 || (ncases > 0 && !args && !chans)) {
         return NECO_INVAL;
     } else if (!rt) {
         return NECO_PERM;
-- 
2.43.0


From 5ac6b1b9ce8f23410ff20c2915ce83b190554d23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:53:07 +0000
Subject: [PATCH 32/36] fix: admit readers queued behind a writer that gives up
 waiting

---
 neco.c | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/neco.c b/neco.c
index a01acb6..3906602 100644
--- a/neco.c
+++ b/neco.c
@@ -7291,7 +7291,18 @@ static int finish_lock(struct coroutine *co, struct neco_mutex *mu,
     rt->nlocked--;
     remove_from_list(co);
     co->rlocked = false;
-    return checkwait(co);
+    int ret = checkwait(co);
+    if (ret != NECO_OK && mu->rlocked > 0) {
+        // This coroutine is giving up. The readers that were queued behind it
+        // have nothing left to wait for when readers are holding the lock.
+        while (!colist_is_empty(&mu->queue) && mu->queue.head.next->rlocked) {
+            struct coroutine *next = colist_pop_front(&mu->queue);
+            next->woken = true;
+            sched_resume(next);
+            mu->rlocked++;
+        }
+    }
+    return ret;
 }
 
 static int mutex_lock_dl(struct coroutine *co, struct neco_mutex *mu,
-- 
2.43.0


From ddb148cc990f0623ea96b574c7cfd38941a4ea82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:53:07 +0000
Subject: [PATCH 33/36] fix: neco_stream_read_byte sets the last error when the
 byte is buffered

---
 neco.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/neco.c b/neco.c
index 3906602..03d7a8b 100644
--- a/neco.c
+++ b/neco.c
@@ -8308,6 +8308,7 @@ int neco_stream_read_byte_dl(neco_stream *stream, int64_t deadline) {
         byte = (unsigned char)stream->rd.data[stream->rd.pos];
         stream->rd.pos++;
         stream->rd.len--;
+        error_guard(NECO_OK);
     } else {
         ssize_t ret = neco_stream_read_dl(stream, &byte, 1, deadline);
         if (ret != 1) {
-- 
2.43.0


From 174ee554c2113a74d5deba274587796a66898b4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:53:07 +0000
Subject: [PATCH 34/36] fix: neco_pipe uses a socket path that no other process
 or thread uses

---
 neco.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/neco.c b/neco.c
index 03d7a8b..ffc442d 100644
--- a/neco.c
+++ b/neco.c
@@ -7956,7 +7956,10 @@ static int _pipe_(int pipefd[2]) {
     neco_rand(&secret, 8, NECO_PRNG);
     neco_rand(&tmpkey, 8, NECO_PRNG);
     char path[PATH_MAX];
-    snprintf(path, sizeof(path), "/tmp/neco.%" PRIu64 ".sock", tmpkey);
+    // The PRNG is deterministic. The process and coroutine identifiers make the
+    // path unique among all processes and threads.
+    snprintf(path, sizeof(path), "/tmp/neco.%d.%" PRId64 ".%" PRIu64 ".sock",
+        (int)getpid(), neco_getid(), tmpkey);
     int ln = neco_serve("unix", path);
     int64_t childid = 0;
     if (ln >= 0) {
-- 
2.43.0


From cdd9cafba154ad4524f7dfa657722a7a42832a71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:07:50 +0000
Subject: [PATCH 35/36] fix: a successful name resolution in dial or serve left
 a gai error behind

---
 neco.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neco.c b/neco.c
index ffc442d..33192cd 100644
--- a/neco.c
+++ b/neco.c
@@ -6901,7 +6901,7 @@ static int getaddrinfo_from_tcp_addr_dl(const char *addr, int tcp_vers,
     if (ainfo) {
         *res = ainfo;
         ret = NECO_OK; 
-        neco_gai_errno = EAI_FAIL;
+        neco_gai_errno = 0;
     }
     return ret;
 }
-- 
2.43.0


From 732bfa0dc6061c7eb7bf3e15661fac1f8877e71d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:28:43 +0000
Subject: [PATCH 36/36] fix: buffered output was lost when neco_main returned

---
 neco.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/neco.c b/neco.c
index 33192cd..9d8cb18 100644
--- a/neco.c
+++ b/neco.c
@@ -3821,7 +3821,8 @@ static void cleanup(void *stack, size_t stack_size, void *udata) {
     (void)stack; (void)stack_size;
 #ifndef NECO_TESTING
     if (immediate_exit) {
-        _Exit(immediate_exit_code);
+        // Exit as if main() has returned, flushing all open streams.
+        exit(immediate_exit_code);
     }
 #endif
     struct coroutine *co = udata;
-- 
2.43.0

