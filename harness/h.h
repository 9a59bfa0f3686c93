// Shared by every harness.
#ifndef H_H
#define H_H
#include "model.c"
#include "neco.h"
#define US 1000
#define MS 1000000
#define MIN(a, b) ((a) < (b) ? (a) : (b))
// run co_main as the first coroutine and check that everything is given back
static int64_t h_bias, h_first;
static void h_latency(void) {
#ifndef H_NOLATE
    // waits end exactly on time, or late, so that several things are due at once, in
    // the order in which the coroutines were started or in reverse order
    int l = v_choose("late", 3);
    if (l) { m_late = 100 * US; m_T += m_late; h_bias = l == 2 ? -4 * US : 4 * US; }
#endif
}
static void h_run(void (*co)(int, void **)) {
    h_latency();
    uint64_t live0 = e_live();
    int fds0 = m_open_fds();
    int r = neco_start(co, 0);
    v_check(r == NECO_OK, "starting the runtime failed");
    v_check(m_open_fds() == fds0, "file descriptor leaked");
    v_check(m_badclose == 0, "close of a descriptor that is not open");
    m_check_clean(live0);
}
// the time the last wait should have ended: delays counted from here fall together
static int64_t h_now(void) {
    int64_t t = neco_now() - m_late;
    if (h_bias) { if (!h_first) h_first = neco_getid(); t += h_bias * (neco_getid() - h_first); }
    return t;
}
static void h_sleep(int64_t ns) { int r = neco_sleep_dl(h_now() + ns); (void)r; }
// symbolic point in time, in steps that the runtime can tell apart
static int64_t h_dur(const char *n, int steps) { return v_i64(n, 1, steps) * MS; }
// stay alive after an operation: nothing that the operation left behind may disturb this
static void h_linger(int cancelable) {
    int64_t t0 = m_now(), d = 12 * MS;
    int r = neco_sleep_dl(neco_now() + d);
    if (r == NECO_CANCELED && cancelable) return;
    v_check(r == NECO_OK, "a sleep after the operation did not report success");
    v_check(m_now() - t0 >= d, "a sleep after the operation was woken early");
    v_check(m_now() - t0 < d + MS, "a sleep after the operation overslept");
}
#define OK NECO_OK
#endif
