// Every blocking call with a deadline: never before the deadline, promptly after
// it, and the object stays usable.
#include "h.h"
#include "ops.h"
static void co_main(int argc, void *argv[]) {
    (void)argc; (void)argv;
    op = v_choose("op", NOPS);
    ops_setup();
    if (op == SIGWAIT) neco_signal_watch(SIGUSR1);
    int64_t rel = v_i64("dl", -1, 3);
    int64_t t0 = neco_now(), dl = t0 + rel * MS + (rel >= 0 ? 50 : 0);
    int64_t r = call(dl);
    int64_t t1 = m_now();
    v_log(100 + op, r);
    if (r == -1) r = neco_lasterr();
    v_check(r == NECO_TIMEDOUT, "an operation that can never complete did not time out");
    v_check(t1 > dl, "timed out before the deadline");
    int64_t from = dl > t0 ? dl : t0;
    v_check(t1 - from < MS, "the deadline passed without the operation returning");
    v_cover(1 + op);
    if (op == SUSPEND) { t0 = neco_now(); v_check(neco_suspend_dl(t0 + MS) == NECO_TIMEDOUT && m_now() - t0 >= MS, "second suspend"); }
    ops_after();
    if (op == SIGWAIT) neco_signal_unwatch(SIGUSR1);
    ops_teardown();
}
void main_harness(void) { h_run(co_main); e_end(); }
