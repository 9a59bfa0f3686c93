// Nested cleanup handlers, some of which block, and a coroutine that ends early by exit
// or cancelation at any point, with further cancelations arriving while it cleans up.
#include "h.h"
#ifndef DEPTH
#define DEPTH 3
#endif
#ifndef FULL
#define FULL 0
#endif
#ifndef CSTEPS
#define CSTEPS 3
#endif
#ifndef NC
#define NC 2
#endif
static int live_[16], nlive, ran[16], next_, exiting, type, ended, blk; static int64_t tid;
static void handler(void *arg) {
    int i = (int)(intptr_t)arg;
    v_check(nlive > 0 && live_[nlive - 1] == i, "cleanup handlers do not run last pushed first");
    nlive--; ran[i]++;
    v_check(ran[i] == 1, "a cleanup handler ran twice");
    v_check(neco_getid() == tid, "a cleanup handler ran in another coroutine");
    if (blk & 1) { int64_t t0 = m_now(); int r = neco_sleep_dl(neco_now() + MS); v_check(r == OK || r == NECO_CANCELED, "sleep in a handler"); if (exiting) v_check(r == OK && m_now() - t0 >= MS, "an ending coroutine was canceled again"); }
    else if (blk & 2) neco_yield();
}
static void body(int d) {
    int act = v_choose("act", d == 0 ? 3 : 4);
    if (act == 1) { if (type == NECO_CANCEL_ASYNC) exiting = 1; int r = neco_sleep_dl(h_now() + 2 * MS); exiting = 0; v_check(r == OK || (r == NECO_CANCELED && type == NECO_CANCEL_INLINE), "kept running"); }
    else if (act == 2 && d < DEPTH) {
        int id = next_++, ex = v_choose("exec", 2);
        live_[nlive++] = id;
        char hb[32] = {0}; __neco_c0(hb, handler, (void *)(intptr_t)id); // neco_cleanup_push
        body(d + 1);
        if (ex) { int n = nlive; __neco_c1(1); v_check(nlive == n - 1 && ran[id] == 1, "pop did not run the handler"); }
        else { nlive--; __neco_c1(0); v_check(ran[id] == 0, "pop ran a handler that it should not"); }
        if (FULL) body(d + 1 < DEPTH ? d + 1 : DEPTH); else if (d == 0) body(DEPTH);
    } else if (act == 3) { exiting = 1; v_cover(2); neco_exit(); v_fail("code after exit was executed"); }
}
static void target(int argc, void *argv[]) { (void)argc; (void)argv; tid = neco_getid(); neco_setcanceltype(type, 0); body(0); v_check(nlive == 0, "harness"); ended = 1; neco_setcanceltype(NECO_CANCEL_INLINE, 0); }
static int nok;
static void canceler(int argc, void *argv[]) { (void)argc; (void)argv;
    neco_setcanceltype(NECO_CANCEL_INLINE, 0);
    h_sleep(h_dur("cancel_at", CSTEPS) - 500 * US);
    int r = neco_cancel(tid);
    if (r == OK) { nok++; v_cover(3); } else { v_check(r == NECO_NOTFOUND, "cancel"); v_cover(4); }
}
static void co_main(int argc, void *argv[]) { (void)argc; (void)argv;
    type = v_choose("async", 2) ? NECO_CANCEL_ASYNC : NECO_CANCEL_INLINE;
    blk = v_choose("blocking_handlers", 3);
    neco_start(target, 0); int64_t t = neco_lastid();
    for (int i = 0; i < NC; i++) neco_start(canceler, 0);
    v_check(neco_join(t) == OK, "join");
    v_check(nlive == 0, "a cleanup handler did not run");
    v_check(neco_cancel(t) == NECO_NOTFOUND, "cancel of an ended coroutine");
    v_cover(1); if (!ended && type == NECO_CANCEL_ASYNC) v_cover(5);
    if (ended && type == NECO_CANCEL_ASYNC) v_cover(6);
}
void main_harness(void) { h_run(co_main); e_end(); }
