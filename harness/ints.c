// Every integer argument of the API takes every value: no overflow, no wrong memory, and the
// documented refusal where the value makes no sense.
#include "h.h"
#define M_HUGE 4096
enum { SLEEP, SLEEPDL, CHANMAKE, GENSTART, WGADD, WGADD2, SELECTN, START, WATCH, IDS, PIN, STRERR, CTYPE, CSTATE, WAITFD, WAITMODE, SEED, ENVS, NOPS };
static int op; static int64_t tid; static int canceled, nw, done;
static void child(int argc, void *argv[]) { (void)argc; (void)argv; }
static void genco(int argc, void *argv[]) { (void)argc; (void)argv; }
static void work(void *u) { (void)u; nw++; }
static void canceler(int argc, void *argv[]) { (void)argc; (void)argv; neco_sleep(2 * MS); canceled = 1; neco_cancel(tid); }
static void huge(int64_t r, int64_t left) { // result of a wait that ends by itself after left ns, or is canceled after 2 ms
    if (r == NECO_CANCELED) { v_check(canceled && left > 0, "canceled although the time was over"); v_cover(1); }
    else { v_check(r == NECO_OK || r == NECO_TIMEDOUT, "wrong result"); v_check(left < 3 * MS, "a wait of a very long time ended early"); v_cover(2); }
}
static void co_main(int argc, void *argv[]) {
    (void)argc; (void)argv;
    op = v_choose("op", NOPS);
#ifdef ONLY
    v_assume(op == ONLY);
#endif
    tid = neco_getid(); int r;
    switch (op) {
    case SLEEP: { int64_t d = (int64_t)v_u64("ns"); neco_start(canceler, 0); r = neco_sleep(d); huge(r, d); break; }
    case SLEEPDL: { int64_t d = (int64_t)v_u64("dl"); neco_start(canceler, 0); int64_t t0 = m_now(); r = neco_sleep_dl(d); huge(r, d <= t0 ? 0 : d - t0); break; }
    case CHANMAKE: {
        uint64_t size = v_u64("size"), cap = v_u64("capacity"); neco_chan *c = 0;
        m_limit = M_HUGE; r = neco_chan_make(&c, size, cap); m_limit = 0;
        if (size > INT32_MAX || cap > INT32_MAX) { v_check(r == NECO_INVAL, "sizes beyond the limit were accepted"); v_cover(3); }
        else if (r == NECO_OK) {
            v_check(size * (cap + 1) <= M_HUGE, "a channel with too little memory"); v_cover(4);
            v_check(neco_chan_release(c) == NECO_OK, "release");
        } else { v_check(r == NECO_NOMEM, "wrong result"); v_check(size * (cap + 1) >= M_HUGE / 4, "out of memory for a small channel"); v_cover(5); }
        break; }
    case GENSTART: {
        uint64_t size = v_u64("size"); neco_gen *g = 0;
        r = neco_gen_start(&g, size, genco, 0);
        if (size > INT32_MAX) v_check(r == NECO_INVAL, "a size beyond the limit was accepted");
        else { v_check(r == NECO_OK, "generator not started"); neco_gen_release(g); }
        break; }
    case WGADD: case WGADD2: {
        neco_waitgroup wg; neco_waitgroup_init(&wg);
        int a = (int)v_u32("delta1"), b = (int)v_u32("delta2"); int64_t n = 0;
        r = neco_waitgroup_add(&wg, a);
        if (a < 0) v_check(r == NECO_NEGWAITGRP, "negative count"); else { v_check(r == NECO_OK, "add"); n = a; }
        r = neco_waitgroup_add(&wg, b);
        if (n + b < 0) v_check(r == NECO_NEGWAITGRP, "negative count accepted");
        else if (n + b > INT32_MAX) { v_check(r != NECO_OK, "count beyond the limit accepted"); v_cover(6); }
        else { v_check(r == NECO_OK, "add"); n += b; }
        r = neco_waitgroup_wait_dl(&wg, neco_now() + MS);
        v_check(r == (n == 0 ? NECO_OK : NECO_TIMEDOUT), "the count is wrong");
        break; }
    case SELECTN: { int n = (int)v_u32("n"); v_assume(n < 1); neco_chan *v[1] = {0}; r = neco_chan_tryselectv(n, v); v_check(r < 0, "select of no channels"); break; }
    case START: { int n = (int)v_u32("argc"); v_assume(n < 0); r = neco_start(child, n); v_check(r == NECO_INVAL, "negative argument count"); v_check(neco_startv(child, n, 0) == NECO_INVAL, "negative argument count"); break; }
    case WATCH: {
        int s = (int)v_u32("signo"); v_assume(s < 1 || s > 31);
        v_check(neco_signal_watch(s) == NECO_INVAL, "signal number out of range"); v_check(neco_signal_unwatch(s) == NECO_INVAL, "signal number out of range"); break; }
    case IDS: {
        int64_t id = (int64_t)v_u64("id"); v_assume(id != tid);
        v_check(neco_resume(id) == NECO_NOTFOUND, "resume of nobody"); v_check(neco_cancel(id) == NECO_NOTFOUND, "cancel of nobody");
        r = neco_join(id); v_check(r == NECO_OK || r == NECO_NOTFOUND, "join of nobody"); break; }
    case PIN: { int64_t pin = (int64_t)v_u64("pin"); r = neco_work(pin, work, 0); v_check(r == NECO_OK && nw == 1, "work with any pin"); break; }
    case STRERR: { int k = v_choose("code", 72); int64_t e = k < 66 ? k - 60 : (int64_t[]){INT64_MIN, INT64_MAX, INT32_MIN, INT32_MAX, -1000, 1000}[k - 66]; const char *s = neco_strerror(e); v_check(s && s[0], "no error text"); break; }
    case CTYPE: { int t = (int)v_u32("type"), o = 0; r = neco_setcanceltype(t, &o); if (t != NECO_CANCEL_ASYNC && t != NECO_CANCEL_INLINE) v_check(r == NECO_INVAL, "unknown type accepted"); else v_check(r == NECO_OK && neco_setcanceltype(NECO_CANCEL_ASYNC, &o) == NECO_OK && o == t, "type not set"); break; }
    case CSTATE: { int t = (int)v_u32("state"), o = 0; r = neco_setcancelstate(t, &o); if (t != NECO_CANCEL_ENABLE && t != NECO_CANCEL_DISABLE) v_check(r == NECO_INVAL, "unknown state accepted"); else v_check(r == NECO_OK && neco_setcancelstate(NECO_CANCEL_ENABLE, &o) == NECO_OK && o == t, "state not set"); break; }
    case WAITFD: { static const int fds[] = {-1, INT32_MIN, INT32_MAX, 1000000, 23}; int fd = fds[v_choose("fd", 5)]; r = neco_wait_dl(fd, NECO_WAIT_READ, neco_now() + MS); v_check(r == NECO_INVAL || r == NECO_ERROR || r == -1, "wait on a descriptor that does not exist"); break; }
    case WAITMODE: { int p[2]; m_pipe(p); int m = (int)v_u32("mode"); v_assume(m != NECO_WAIT_READ && m != NECO_WAIT_WRITE); r = neco_wait_dl(p[0], m, neco_now() + MS); v_check(r == NECO_INVAL, "unknown mode accepted"); m_close(p[0]); m_close(p[1]); break; }
    case SEED: { int64_t s = (int64_t)v_u64("seed"), o = 0; v_check(neco_rand_setseed(s, 0) == NECO_OK && neco_rand_setseed(1, &o) == NECO_OK && o == s, "seed"); break; }
    case ENVS: { neco_env_setcanceltype(NECO_CANCEL_INLINE); int o = 0; neco_setcanceltype(NECO_CANCEL_ASYNC, &o); neco_env_setcanceltype(NECO_CANCEL_ASYNC); break; }
    }
    if (op != SLEEP && op != SLEEPDL) neco_sleep(MS);
    done = 1;
    v_cover(20 + op);
}
static void first(int argc, void *argv[]) {
    (void)argc; (void)argv;
    neco_setcanceltype(NECO_CANCEL_INLINE, 0);
    co_main(0, 0);
}
void main_harness(void) { h_run(first); v_check(done, "did not end"); e_end(); }
