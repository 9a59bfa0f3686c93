// Condition variable.
#include "h.h"
#ifndef N
#define N 2
#endif
#ifndef NSG
#define NSG 1
#endif
#ifndef KSIG
#define KSIG 2
#endif
#ifndef STEPS
#define STEPS 2
#endif
#ifdef CANCEL
#define VICTIM 1
#else
#define VICTIM 0
#endif
static neco_mutex mu; static neco_cond cv;
static int owner, nord, res[N];
enum { IDLE, WAITING, OUT };
static struct w { int st, order; int64_t dl; } wt[N];
static void own(int me) { v_check(owner == 0, "two coroutines own the mutex"); owner = me + 1; }
static void disown(int me) { v_check(owner == me + 1, "harness: owner"); owner = 0; }
static void unlock(int me) { disown(me); v_check(neco_mutex_unlock(&mu) == NECO_OK, "unlock failed"); }
static void lock(int me) { int r; do r = neco_mutex_lock(&mu); while (r == NECO_CANCELED); v_check(r == NECO_OK, "lock failed"); own(me); }
static void onexit_(void *arg) { // asynchronous cancel: the handler runs with the mutex held
    int me = (int)(intptr_t)arg;
    if (wt[me].st == WAITING) { own(me); wt[me].st = OUT; }
    v_check(neco_mutex_trylock(&mu) == NECO_BUSY, "canceled waiter does not own the mutex in its cleanup handler");
    unlock(me);
    v_cover(8);
}
static void waiter(int argc, void *argv[]) {
    (void)argc; int me = (int)(intptr_t)argv[0];
    h_sleep(h_dur("wdelay", STEPS));
    int64_t dl = INT64_MAX;
#ifdef DEADLINES
    if (v_choose("usedl", 2)) dl = h_now() + v_i64("dl", 0, STEPS) * MS + 1;
#endif
    lock(me);
    neco_cleanup_push(onexit_, (void *)(intptr_t)me);
#ifdef PRE
    h_sleep(v_i64("pre", 0, 1) * MS); // others queue up for the mutex meanwhile
#endif
    wt[me].order = nord++; wt[me].dl = dl; wt[me].st = WAITING;
    disown(me);
    int r = dl == INT64_MAX ? neco_cond_wait(&cv, &mu) : neco_cond_wait_dl(&cv, &mu, dl);
    wt[me].st = OUT; res[me] = r;
    own(me);
    v_check(neco_mutex_trylock(&mu) == NECO_BUSY, "wait returned without the mutex");
    v_log(70 + me, r);
    if (r == NECO_OK) {
        v_cover(1);
    } else if (r == NECO_TIMEDOUT) { v_check(m_now() > dl, "timed out early"); v_cover(2); }
    else { v_check(r == NECO_CANCELED, "wait returned an undocumented result"); v_cover(3); }
    if (v_choose("holdon", 2)) h_sleep(MS);
    neco_cleanup_pop(0);
    unlock(me);
    h_linger(VICTIM && me == 0);
}
// every signal and broadcast: who was waiting, who of them could not leave on its own
static struct ev { int all, waiting[N], definite[N], order[N]; } ev[NSG * KSIG + 1]; static int nev;
static int victim_canceled;
static void record(int all) {
    struct ev *e = &ev[nev++]; e->all = all;
    for (int i = 0; i < N; i++) {
        e->waiting[i] = wt[i].st == WAITING; e->order[i] = wt[i].order;
        e->definite[i] = e->waiting[i] && wt[i].dl > m_now() && !(VICTIM && i == 0 && victim_canceled);
    }
}
static void judge(void) { // assign the signals in order to the waiters that report success
    int used[N] = {0};
    for (int k = 0; k < nev; k++) {
        struct ev *e = &ev[k];
        if (e->all) {
            for (int i = 0; i < N; i++) if (e->waiting[i] && !used[i]) {
                if (e->definite[i]) v_check(res[i] == NECO_OK, "a broadcast did not wake a waiter");
                if (res[i] == NECO_OK) used[i] = 1;
            }
        } else {
            int def = 0, b = -1;
            for (int i = 0; i < N; i++) if (e->waiting[i] && !used[i]) { if (e->definite[i]) def = 1; if (res[i] == NECO_OK && (b < 0 || e->order[i] < e->order[b])) b = i; }
            if (def) v_check(b >= 0, "a signal was lost although a coroutine was waiting");
            for (int i = 0; b >= 0 && i < N; i++) if (e->definite[i] && !used[i] && e->order[i] < e->order[b]) v_fail("a signal did not wake the longest waiter");
            if (b >= 0) used[b] = 1;
        }
    }
    for (int i = 0; i < N; i++) if (res[i] == NECO_OK) v_check(used[i], "a wait returned although nobody signaled it");
}
static int nwaiting(void) { int n = 0; for (int i = 0; i < N; i++) n += wt[i].st == WAITING; return n; }
static void signaler(int argc, void *argv[]) {
    (void)argc; int me = N + (int)(intptr_t)argv[0];
    for (int k = 0; k < KSIG; k++) {
        h_sleep(h_dur("sigdelay", STEPS));
        int locked = v_choose("locked", 2), all = v_choose("all", 2);
        if (locked) lock(me);
        if (all) v_cover(5); else v_cover(4);
        record(all);
        v_check((all ? neco_cond_broadcast(&cv) : neco_cond_signal(&cv)) == NECO_OK, "signal failed");
        if (locked) unlock(me);
    }
}
static void co_main(int argc, void *argv[]) {
    (void)argc; (void)argv;
    if (v_choose("init", 2)) { neco_cond_init(&cv); neco_mutex_init(&mu); }
    int64_t ids[N + NSG] = {0};
#ifdef CANCEL
    neco_env_setcanceltype(v_choose("canceltype", 2) ? NECO_CANCEL_ASYNC : NECO_CANCEL_INLINE);
#endif
    for (int i = 0; i < N; i++) res[i] = 99;
    if (v_choose("order", 2)) for (int i = 0; i < NSG; i++) { neco_start(signaler, 1, (void *)(intptr_t)i); ids[N + i] = neco_lastid(); }
    for (int i = 0; i < N; i++) { neco_start(waiter, 1, (void *)(intptr_t)i); ids[i] = neco_lastid(); }
    for (int i = 0; i < NSG; i++) if (!ids[N + i]) { neco_start(signaler, 1, (void *)(intptr_t)i); ids[N + i] = neco_lastid(); }
#ifdef CANCEL
    h_sleep(h_dur("cancel_at", STEPS + 1));
    victim_canceled = 1;
    int r = neco_cancel(ids[0]);
    v_check(r == NECO_OK || r == NECO_NOTFOUND, "cancel");
#endif
    // let everything settle
    h_sleep((N + KSIG + 3) * (STEPS + 1) * MS + 14 * MS);
    int left = nwaiting();
    judge();
    for (int i = 0; i < N; i++) if (wt[i].st == WAITING) v_check(wt[i].dl == INT64_MAX, "a wait with an expired deadline did not return");
    if (left) v_cover(6);
    record(1);
    v_check(neco_cond_broadcast(&cv) == NECO_OK, "broadcast");
    for (int i = 0; i < N + NSG; i++) neco_join(ids[i]);
    judge();
    v_check(owner == 0 && neco_mutex_trylock(&mu) == NECO_OK, "mutex still locked at the end");
}
void main_harness(void) { h_run(co_main); e_end(); }
