// A cancelation around the deadline of every blocking operation: reported exactly once,
// by the operation or by the next one.
#include "h.h"
#include "ops.h"
#ifndef STEPS
#define STEPS 2
#endif
static int type, finished, entered, seen; static int64_t dl, tc, done_at;
static void target(int argc, void *argv[]) {
    (void)argc; (void)argv;
    v_check(neco_setcanceltype(type, 0) == NECO_OK, "setcanceltype");
    if (op == SIGWAIT) neco_signal_watch(SIGUSR1);
    h_sleep(MS);
    entered = 1;
    dl = h_now() + h_dur("dl", STEPS);
    int64_t r = call(dl);
    if (r == -1) r = neco_lasterr();
    if (r == NECO_CANCELED) { seen++; v_check(tc > 0, "canceled by nobody"); v_check(m_now() - tc < 500 * US, "canceled operation kept blocking"); v_cover(1); }
    else { v_check(r == NECO_TIMEDOUT, "wrong result"); v_check(m_now() > dl, "timed out early"); v_check(m_now() - dl < MS, "deadline missed"); v_cover(2); }
    int64_t t0 = m_now(); int had = tc > 0;
    int q = neco_sleep(8 * MS);
    if (q == NECO_CANCELED) { seen++; v_check(m_now() - (tc > t0 ? tc : t0) < 500 * US, "canceled operation kept blocking"); v_cover(3); } else v_check(q == NECO_OK && m_now() - t0 >= 8 * MS, "sleep");
    v_check(seen == 1, seen ? "one cancel was reported twice" : "a cancelation was lost");
    if (op == SIGWAIT) neco_signal_unwatch(SIGUSR1);
    finished = 1;
}
static void canceler(int argc, void *argv[]) {
    (void)argc;
    h_sleep(MS + h_dur("cancel_at", STEPS + 1));
    tc = m_now();
    v_check(neco_cancel(*(int64_t *)argv[0]) == NECO_OK, "cancel of a live coroutine failed");
}
static void co_main(int argc, void *argv[]) {
    (void)argc; (void)argv;
    op = v_choose("op", NOPS);
    v_assume(op != ACCEPT || 1);
    type = NECO_CANCEL_INLINE;
    ops_setup();
    int64_t id;
    if (v_choose("order", 2)) { neco_start(target, 0); id = neco_lastid(); neco_start(canceler, 1, &id); }
    else { id = neco_getid() + 100; neco_start(canceler, 1, &id); neco_start(target, 0); id = neco_lastid(); }
    v_check(neco_join(id) == NECO_OK, "join");
    v_check(finished, "the coroutine did not finish");
    neco_sleep(MS);
    ops_after();
    ops_teardown();
}
void main_harness(void) { h_run(co_main); e_end(); }
