// Read-write mutex: N coroutines taking it at solver-chosen times in solver-chosen modes.
#include "h.h"
#ifndef N
#define N 3
#endif
#ifndef K
#define K 1
#endif
#ifndef STEPS
#define STEPS 3
#endif
#ifndef HOLD
#define HOLD 2
#endif
#ifndef MODES
#define MODES 4
#endif
static neco_mutex mu;
static int writers, readers, nord, held;
static struct w { int waiting, order, rd; int64_t dl, since; } wt[N]; // since: the time from which nothing stood in its way
static void judge(void) {
    for (int i = 0; i < N; i++) if (wt[i].waiting) {
        int ok = writers == 0 && (wt[i].rd || readers == 0);
        for (int j = 0; j < N; j++) if (j != i && wt[j].waiting && wt[j].order < wt[i].order && !(wt[i].rd && wt[j].rd)) ok = 0;
        if (!ok) wt[i].since = INT64_MAX; else if (wt[i].since == INT64_MAX) wt[i].since = m_now();
    }
}
static void left(void *arg) { wt[(intptr_t)arg].waiting = 0; judge(); }
static void acquired(int me, int rd, int blocked) {
    v_check(writers == 0, "two owners at the same time");
    if (!rd) v_check(readers == 0, "writer and reader own the mutex at the same time");
    if (rd) readers++; else writers++;
    judge();
    for (int i = 0; i < N; i++) if (i != me && wt[i].waiting && wt[i].order < wt[me].order && wt[i].dl >= m_now() && !(rd && wt[i].rd)) v_fail("the mutex was granted to a coroutine that asked later");
(void)blocked;
    v_log(50 + me, rd);
}
static void release(void *arg) {
    int rd = arg != 0;
    if (rd) readers--; else writers--;
    judge();
    v_check(neco_mutex_unlock(&mu) == NECO_OK, "unlock failed");
}
static void locker(int argc, void *argv[]) {
    (void)argc; int me = (int)(intptr_t)argv[0];
    for (int k = 0; k < K; k++) {
        h_sleep(h_dur("delay", STEPS));
        int rd = v_choose("reader", 2);
        int mode = v_choose("mode", MODES); // 0/1: wait, 2: with deadline, 3: try
        int64_t dl = mode == 2 ? h_now() + v_i64("dl", 0, STEPS) * MS + 1 : INT64_MAX;
        int owned = writers || readers, waiters = 0;
        for (int i = 0; i < N; i++) if (wt[i].waiting) waiters = 1;
        int64_t t0 = m_now();
        wt[me].order = nord++; wt[me].rd = rd; wt[me].dl = dl; wt[me].waiting = mode != 3; wt[me].since = INT64_MAX; judge();
        int r; int64_t since;
        neco_cleanup_push(left, (void *)(intptr_t)me);
        r = mode == 3 ? (rd ? neco_mutex_tryrdlock(&mu) : neco_mutex_trylock(&mu))
              : mode == 2 ? (rd ? neco_mutex_rdlock_dl(&mu, dl) : neco_mutex_lock_dl(&mu, dl))
              : (rd ? neco_mutex_rdlock(&mu) : neco_mutex_lock(&mu));
        since = wt[me].waiting ? wt[me].since : INT64_MAX; // judged before this one leaves
        neco_cleanup_pop(1);
        v_check(since == INT64_MAX || m_now() - since < 500 * US, "the mutex was free but was not handed to the waiter");
        v_log(60 + me, r);
        int blocked = m_now() - t0 >= 500 * US;
        if (mode == 3) v_check(!blocked, "a try-lock blocked");
        if (!owned && !waiters) v_check(r == NECO_OK || r == NECO_CANCELED || r == NECO_TIMEDOUT, "a free mutex could not be taken");
        if (!owned && !waiters) v_check(!blocked, "waited for a free mutex");
        if (rd && !writers && readers && !waiters && r != NECO_OK) v_check(r == NECO_CANCELED || r == NECO_TIMEDOUT || blocked, "a reader was refused although only readers own the mutex");
        if (r == NECO_OK) {
            acquired(me, rd, blocked);
            v_cover(rd ? 2 : 1); if (blocked) v_cover(3); if (readers == 2) v_cover(4);
            neco_cleanup_push(release, rd ? (void *)1 : 0);
            if (HOLD) h_sleep(v_i64("hold", 1, HOLD)* MS);
            neco_cleanup_pop(1);
        } else if (r == NECO_TIMEDOUT) { v_check(mode == 2 && m_now() > dl, "timed out before the deadline"); v_cover(5); }
        else if (r == NECO_BUSY) { v_check(mode == 3, "blocking lock returned busy"); v_cover(6); }
        else { v_check(r == NECO_CANCELED, "lock returned an undocumented result"); v_cover(7); }
    }
#ifdef CANCEL
    h_linger(1);
#else
    h_linger(0);
#endif
}
static void co_main(int argc, void *argv[]) {
    (void)argc; (void)argv;
    int64_t ids[N];
    if (v_choose("init", 2)) v_check(neco_mutex_init(&mu) == NECO_OK, "init");
#ifdef CANCEL
    neco_env_setcanceltype(v_choose("canceltype", 2) ? NECO_CANCEL_ASYNC : NECO_CANCEL_INLINE);
#endif
    for (int i = 0; i < N; i++) { neco_start(locker, 1, (void *)(intptr_t)i); ids[i] = neco_lastid(); }
#ifdef CANCEL
    h_sleep(h_dur("cancel_at", STEPS + 1));
    int victim = v_choose("victim", N);
    int r = neco_cancel(ids[victim]);
    v_check(r == NECO_OK || r == NECO_NOTFOUND, "cancel failed");
    if (r == NECO_OK) wt[victim].dl = 0; // it may leave the queue from now on
#endif
    for (int i = 0; i < N; i++) neco_join(ids[i]);
    v_check(writers == 0 && readers == 0, "harness");
    v_check(neco_mutex_trylock(&mu) == NECO_OK, "the mutex is still locked after everyone released it");
    v_check(neco_mutex_tryrdlock(&mu) == NECO_BUSY, "read lock granted while write locked");
    v_check(neco_mutex_trylock(&mu) == NECO_BUSY, "lock granted twice");
    v_check(neco_mutex_unlock(&mu) == NECO_OK, "unlock");
    v_check(neco_mutex_tryrdlock(&mu) == NECO_OK && neco_mutex_tryrdlock(&mu) == NECO_OK, "shared read locks refused");
    v_check(neco_mutex_trylock(&mu) == NECO_BUSY, "write lock granted while read locked");
    v_check(neco_mutex_unlock(&mu) == NECO_OK, "unlock");
    v_check(neco_mutex_trylock(&mu) == NECO_BUSY, "write lock granted while read locked");
    v_check(neco_mutex_unlock(&mu) == NECO_OK, "unlock");
    v_check(neco_mutex_trylock(&mu) == NECO_OK, "the mutex is still locked after everyone released it");
}
void main_harness(void) { h_run(co_main); e_end(); }
