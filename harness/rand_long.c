// Requests longer than one part: exact, reproducible, others run meanwhile, deadline and cancel in between.
#include "h.h"
#define N 700
static int64_t others, stop; static int64_t seed, tid, tc; static unsigned char a[N + 4], b[N + 4];
static void bystander(int argc, void *argv[]) { (void)argc; (void)argv; while (!stop) { others++; m_T += 20 * US; neco_yield(); } }
static int at;
static void canceler(int argc, void *argv[]) { (void)argc; (void)argv; for (int i = 0; i < at; i++) { m_T += 20 * US; neco_yield(); } tc = m_now(); v_check(neco_cancel(tid) == NECO_OK, "cancel"); }
static void co_main(int argc, void *argv[]) {
    (void)argc; (void)argv;
    tid = neco_getid(); neco_setcanceltype(NECO_CANCEL_INLINE, 0);
    seed = (int64_t)v_u64("seed"); int64_t old;
    int n = (int[]){255, 256, 257, 300, 512, 515, 700}[v_choose("n", 7)];
    int attr = NECO_PRNG;
    neco_rand_setseed(seed, 0);
    // one word at a time
    for (int i = 0; i < n; i += 4) v_check(neco_rand(a + i, (size_t)(n - i < 4 ? n - i : 4), attr) == NECO_OK, "rand");
    neco_rand_setseed(seed, &old); int64_t end = old;
    for (int i = 0; i < N + 4; i++) b[i] = 0xa5;
    neco_start(bystander, 0);
    int64_t o0 = others; int mode = v_choose("mode", 3);
    if (mode == 1) { at = v_choose("cancel_at", 4); neco_start(canceler, 0); }
    int64_t dl = mode == 2 ? h_now() + v_i64("dl", 1, 100) * US : INT64_MAX;
    int r = neco_rand_dl(b, (size_t)n, attr, dl);
    if (r == NECO_OK) {
        for (int i = 0; i < n; i++) v_check(a[i] == b[i], "a long request differs from short ones");
        neco_rand_setseed(seed, &old); v_check(old == end, "the same requests lead to a different state");
        if (n > 512 && mode == 0) v_check(others > o0, "a long request kept other coroutines from running");
        v_cover(1);
    } else if (r == NECO_CANCELED) { v_check(mode == 1 && tc, "canceled by nobody"); v_cover(2); }
    else { v_check(r == NECO_TIMEDOUT && m_now() > dl, "wrong result"); v_cover(3); }
    for (int i = n; i < N + 4; i++) v_check(b[i] == 0xa5, "wrote more bytes than requested");
    stop = 1;
    if (mode == 1) { int s = neco_sleep(MS); v_check((s == NECO_CANCELED) == (r != NECO_CANCELED), "a cancelation was lost or doubled"); }
    neco_sleep(MS);
}
void main_harness(void) { h_run(co_main); e_end(); }
