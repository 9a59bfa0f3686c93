// Background work: exactly once, on another thread, finished before the call returns.
#ifndef CANCEL_
#define CANCEL_ 0
#endif
#ifndef WTIMEOUT
#define WTIMEOUT 0
#endif
#include "h.h"
#ifndef N
#define N 3
#endif
#ifndef K
#define K 1
#endif
#ifndef PINS
#define PINS 2
#endif
#ifndef STEPS
#define STEPS 1
#endif
#ifndef DELAYS
#define DELAYS 1
#endif
#ifndef SPAN
#define SPAN 30
#endif
static pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER;
static struct item { int runs, value, pin, seq, thread, done; } it[N * K]; static int nsub, running[PINS + 1], lastseq[PINS + 1], flag, blocked, canceled, finished[N];
static void work(void *u) {
    struct item *w = u;
    m_pthread_mutex_lock(&mu);
    w->runs++; w->thread = e_thread_self();
    v_check(w->runs == 1, "work ran twice");
    v_check(e_thread_self() != 0, "work ran on the thread of the coroutines");
    int p = w->pin < 0 ? PINS : w->pin;
    if (w->pin >= 0) {
        v_check(!running[p], "two works with the same pin overlap");
#ifndef OVERFLOW
        v_check(w->seq > lastseq[p], "works with the same pin ran out of order");
#endif
        running[p] = 1; lastseq[p] = w->seq;
    }
    m_pthread_mutex_unlock(&mu);
    v_check(neco_getid() == NECO_PERM, "work runs inside a coroutine");
#ifdef BLOCK
    for (;;) { m_pthread_mutex_lock(&mu); int f = flag; m_pthread_mutex_unlock(&mu); if (f) break; m_sched_yield(); }
#else
    m_preempt();
#endif
    w->value = 100 + w->seq; // not protected: the runtime must order it
    m_pthread_mutex_lock(&mu);
    if (w->pin >= 0) running[p] = 0;
    w->done = 1;
    m_pthread_mutex_unlock(&mu);
}
static void co(int argc, void *argv[]) {
    (void)argc; int me = (int)(intptr_t)argv[0];
    neco_setcanceltype(v_choose("async", 1 + CANCEL_) ? NECO_CANCEL_ASYNC : NECO_CANCEL_INLINE, 0);
    int seenc = 0;
    for (int k = 0; k < K; k++) {
        if (neco_sleep_dl(h_now() + h_dur("at", STEPS)) == NECO_CANCELED) seenc = 1;
        struct item *w = &it[me * K + k];
        w->pin = v_choose("pin", PINS + 1) - 1; w->seq = ++nsub;
        int r = neco_work(w->pin, work, w);
        v_check(r == NECO_OK, "work was refused");
        v_check(w->value == 100 + w->seq, "call returned before the work was finished");
        v_check(w->runs == 1 && w->done, "work did not run exactly once");
        v_log(10 + me, w->runs); v_cover(1 + (w->pin >= 0));
    }
    if (canceled && me == 0 && !seenc) v_check(neco_sleep(MS) == NECO_CANCELED, "cancelation lost");
    finished[me] = 1;
}
static void co_main(int argc, void *argv[]) {
    (void)argc; (void)argv;
    int64_t id[N]; m_tick = 20 * US;
    m_ndelay = DELAYS; m_delay_span = SPAN; e_raceon();
#ifdef THFAIL
    m_thfail_budget = THFAIL;
#endif
    m_wtimeout_budget = WTIMEOUT;
    v_check(neco_work(0, 0, 0) == NECO_INVAL, "no work given");
    for (int i = 0; i < N; i++) { neco_start(co, 1, (void *)(intptr_t)i); id[i] = neco_lastid(); }
#if CANCEL_
    h_sleep(h_dur("cancel_at", STEPS + 1));
    if (!finished[0]) { canceled = 1; neco_cancel(id[0]); }
#endif
#ifdef BLOCK
    h_sleep(2 * MS); // other coroutines run while the work blocks
    m_pthread_mutex_lock(&mu); flag = 1; m_pthread_mutex_unlock(&mu);
#endif
    for (int i = 0; i < N; i++) neco_join(id[i]);
#if !CANCEL_
    for (int i = 0; i < N; i++) v_check(finished[i], "a coroutine did not come back from its work");
#endif
    for (int i = 0; i < N * K; i++) v_check(it[i].runs <= 1 && it[i].runs == it[i].done, "work lost or still running");
}
void main_harness(void) { h_run(co_main); for (int t = 1; t < m_nth; t++) v_check(m_th[t].st == TH_DONE || m_th[t].detached, "a worker thread outlives the runtime"); e_end(); }
