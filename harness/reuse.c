// A coroutine started after another one ended (and reusing its resources) starts fresh.
#include "h.h"
#ifndef WAYS
#define WAYS 12
#endif
static int handled, bstarted, bdone, go, way, type2, state2; static int64_t aid; static neco_gen *gen; static neco_chan *ch;
static void handler(void *arg) { (void)arg; handled++; }
static void nothing(int argc, void *argv[]) { (void)argc; (void)argv; }
static void a(int argc, void *argv[]) {
    (void)argc; (void)argv;
    neco_setcanceltype(type2, 0);
    neco_signal_watch(SIGUSR1); neco_signal_watch(SIGINT);
    neco_start(nothing, 0);
    int x = 0;
    switch (way) {
    case 0: break;
    case 1: neco_setcancelstate(NECO_CANCEL_DISABLE, 0); break;
    case 2: neco_cleanup_push(handler, 0); neco_exit(); neco_cleanup_pop(0); break;
    case 3: neco_exit(); break;
    case 4: while (!go) neco_yield(); break;                              // ends with a pending cancelation
    case 5: neco_suspend(); break;                                        // canceled while suspended
    case 6: neco_cleanup_push(handler, 0); neco_sleep(50 * MS); neco_cleanup_pop(1); break;
    case 7: neco_suspend_dl(neco_now() + MS); break;                      // timed out
    case 8: neco_chan_recv_dl(ch, &x, neco_now() + MS); break;            // timed out
    case 9: neco_chan_recv_dl(ch, &x, neco_now() + 2 * MS); break;        // canceled or timed out at about the same time
    case 10: neco_setcancelstate(NECO_CANCEL_DISABLE, 0); neco_sleep(2 * MS); break; // a canceler is waiting
    case 11: m_T += 3 * MS; neco_suspend_dl(neco_now() - MS); break;      // deadline already over
    }
}
static void b(int argc, void *argv[]) {
    (void)argv;
    bstarted = 1;
    v_check(argc == 1, "argument count of the new coroutine");
    v_check(neco_getid() != aid, "identifier reused");
    v_check(neco_lastid() == 0, "last identifier inherited");
    int t = 0, s = 0;
    v_check(neco_setcanceltype(NECO_CANCEL_INLINE, &t) == NECO_OK && t == NECO_CANCEL_ASYNC, "cancel type inherited");
    v_check(neco_setcancelstate(NECO_CANCEL_ENABLE, &s) == NECO_OK && s == NECO_CANCEL_ENABLE, "cancel state inherited");
    v_check(neco_gen_yield(&t) == NECO_NOTGENERATOR, "generator inherited");
    v_check(neco_signal_wait_dl(neco_now() + MS) == NECO_NOSIGWATCH, "signal watch inherited");
    int op = v_choose("b_op", 4);
    int64_t t0 = m_now(); int x = 0;
    if (op == 0) v_check(neco_sleep(3 * MS) == NECO_OK && m_now() - t0 >= 3 * MS, "first operation of a new coroutine was canceled or cut short");
    if (op == 1) v_check(neco_chan_recv_dl(ch, &x, t0 + 3 * MS) == NECO_TIMEDOUT && m_now() - t0 >= 3 * MS, "first operation of a new coroutine was canceled or cut short");
    if (op == 2) v_check(neco_suspend_dl(t0 + 3 * MS) == NECO_TIMEDOUT && m_now() - t0 >= 3 * MS, "first operation of a new coroutine was canceled or cut short");
    if (op == 3) { neco_signal_watch(SIGUSR2); v_check(neco_signal_wait_dl(t0 + 3 * MS) == NECO_TIMEDOUT && m_now() - t0 >= 3 * MS, "first operation of a new coroutine was canceled or cut short"); }
    neco_setcanceltype(NECO_CANCEL_ASYNC, 0);
    handled = 0;
    bdone = 1;
    if (v_choose("b_exit", 2)) neco_exit();
}
static void canceler(int argc, void *argv[]) { (void)argc; (void)argv; int r = neco_cancel_dl(aid, neco_now() + 20 * MS); v_check(r == NECO_OK || r == NECO_NOTFOUND, "cancel"); go = 1; v_log(1, r); }
static void co_main(int argc, void *argv[]) {
    (void)argc; (void)argv;
    neco_chan_make(&ch, sizeof(int), 0);
    way = v_choose("way", WAYS);
    type2 = v_choose("async", 2) ? NECO_CANCEL_ASYNC : NECO_CANCEL_INLINE;
    int asgen = v_choose("gen", 2);
    if (asgen) { neco_gen_start(&gen, 4, a, 0); aid = neco_lastid(); } else { neco_start(a, 0); aid = neco_lastid(); }
    if (way >= 4 && way != 7 && way != 8 && way != 11) { if (way == 9 || way == 10) h_sleep(h_dur("cancel_at", 3)); neco_start(canceler, 0); }
    v_check(neco_join(aid) == NECO_OK, "join");
    if (way == 2) v_check(handled == 1, "cleanup handler did not run once at exit");
    if (way == 6) v_check(handled == 1, "cleanup handler did not run once");
    if (asgen) neco_gen_release(gen);
    if (v_choose("age", 2)) h_sleep(150 * MS);  // the pool may have been cleaned up
    neco_start(b, 1, 0); int64_t bid = neco_lastid();
    v_check(neco_join(bid) == NECO_OK && bdone, "second coroutine did not finish");
    v_check(handled == 0, "a cleanup handler of an ended coroutine ran");
    neco_stats s; neco_getstats(&s);
    v_cover(1 + way); if (asgen) v_cover(20);
    neco_chan_release(ch);
}
void main_harness(void) { neco_env_setcanceltype(NECO_CANCEL_ASYNC); h_run(co_main); e_end(); }
