// The error an operation reports belongs to it: other coroutines failing meanwhile do not change it.
#define H_NOLATE
#include "h.h"
#include "ops.h"
static int64_t target; static int stop, how, fin;
static void noisy(int argc, void *argv[]) { (void)argc; (void)argv;
    int64_t end = h_now() + 6 * MS;
    while (!stop && h_now() < end) {
        switch (v_choose("noise", 4)) {
        case 0: neco_mutex_lock(0); break;               // INVAL
        case 1: neco_resume(98765); break;               // NOTFOUND
        case 2: { char b; m_errno = 55; neco_read(-1, &b, 1); break; } // ERROR and errno
        case 3: m_errno = 66; neco_sleep_dl(1); break;   // TIMEDOUT
        }
        int want = neco_lasterr();
        int r = neco_sleep(2 * MS); v_check(r == OK && neco_lasterr() == OK, "sleep of the other coroutine");
        (void)want;
    }
}
static void doer(int argc, void *argv[]) { (void)argc; (void)argv; neco_setcanceltype(NECO_CANCEL_INLINE, 0);
    if (op == SIGWAIT) neco_signal_watch(SIGUSR1);
    m_errno = 77;
    int64_t r = call(how == 0 ? h_now() + 3 * MS : INT64_MAX); int e = m_errno, le = neco_lasterr();
    int want = how == 0 ? NECO_TIMEDOUT : NECO_CANCELED;
    if (r == -1) { v_check(le == want, "the last error is not the operation's"); v_check(e == (how == 0 ? ETIMEDOUT : ECANCELED), "errno is not the operation's"); }
    else { v_check(r == want, "result"); v_check(le == want, "the last error is not the operation's"); }
    // it stays until the next call
    v_check(neco_lasterr() == want && neco_lasterr() == want, "the last error changed by being read");
    stop = 1; fin = 1; v_cover(1);
}
static void co_main(int argc, void *argv[]) { (void)argc; (void)argv;
    op = v_choose("op", NOPS); how = v_choose("how", 2);
    v_assume(op != COND && op != SWRITE && op != SFLUSH && !(op == SLEEP && how == 0));
    ops_setup();
    m_T += v_i64("phase", 0, MS);
    neco_start(doer, 0); target = neco_lastid();
    neco_start(noisy, 0);
    if (how == 1) { neco_sleep(3 * MS); v_check(neco_cancel(target) == OK, "cancel"); }
    neco_join(target); v_check(fin == 1, "the operation never came back"); neco_sleep(8 * MS);
    ops_teardown();
}
void main_harness(void) { h_run(co_main); v_check(fin, "end"); }
