// Cancelation of every blocking operation, inline and asynchronous, before and
// while it blocks; cleanup handlers; nothing else is disturbed.
#include "h.h"
#include "ops.h"
static int type, before, hs[3], nh, finished; static int64_t res = 99, tret; static int go;
static void handler(void *arg) { hs[nh++] = (int)(intptr_t)arg; }
static void target(int argc, void *argv[]) {
    (void)argc; (void)argv;
    int old = 0;
    v_check(neco_setcanceltype(type, &old) == NECO_OK, "setcanceltype");
    if (op == SIGWAIT) neco_signal_watch(SIGUSR1);
    neco_cleanup_push(handler, (void *)1);
    neco_cleanup_push(handler, (void *)2);
    neco_cleanup_push(handler, (void *)3);
    neco_cleanup_pop(0);
    if (before) while (!go) { m_T += 100 * US; neco_yield(); } // canceled while running
    res = call(INT64_MAX);
    if (res == -1) res = neco_lasterr();
    tret = m_now();
    v_check(type == NECO_CANCEL_INLINE, "asynchronously canceled coroutine kept running");
    // canceled exactly once
    v_check(neco_sleep(MS) == NECO_OK, "one cancel was reported twice");
    neco_cleanup_pop(0);
    neco_cleanup_pop(1);
    v_check(nh == 1 && hs[0] == 1, "cleanup handlers executed wrongly");
    if (op == SIGWAIT) neco_signal_unwatch(SIGUSR1);
    finished = 1;
}
static void co_main(int argc, void *argv[]) {
    (void)argc; (void)argv;
    op = v_choose("op", NOPS);
    type = v_choose("async", 2) ? NECO_CANCEL_ASYNC : NECO_CANCEL_INLINE;
    before = v_choose("before", 2);
    if (type == NECO_CANCEL_ASYNC) v_assume(op != SWRITE && op != SFLUSH && op != COND && op != CONNECT); // these allocate inside the harness
    ops_setup();
    neco_start(target, 0); int64_t id = neco_lastid();
    h_sleep(h_dur("at", 3));
    int64_t tc = m_now();
    int r = neco_cancel(id); go = 1;
    v_check(r == NECO_OK, "cancel of a live coroutine failed");
    v_check(neco_join(id) == NECO_OK, "join");
    v_check(m_now() - tc < 2 * MS, "canceled coroutine did not end");
    if (type == NECO_CANCEL_INLINE) {
        v_check(res == NECO_CANCELED, "canceled operation did not report it");
        v_check(tret - tc < 500 * US, "canceled operation kept blocking");
        v_check(finished, "inline cancel ended the coroutine");
    } else {
        v_check(!finished, "async cancel did not end the coroutine");
        v_check(nh == 2 && hs[0] == 2 && hs[1] == 1, "cleanup handlers did not run once each in reverse order");
    }
    v_check(neco_cancel(id) == NECO_NOTFOUND, "cancel of a finished coroutine must report not found");
    v_cover(1 + op); if (type == NECO_CANCEL_ASYNC) v_cover(40 + op);
    ops_after();
    ops_teardown();
}
void main_harness(void) { h_run(co_main); e_end(); }
