// Sleep with an arbitrary 64-bit duration or deadline; a cancel ends the long ones.
#include "h.h"
static int ret = 99; static int64_t t0, t1, arg; static int rel;
static void sleeper(int argc, void *argv[]) {
    (void)argc; (void)argv;
    neco_setcanceltype(NECO_CANCEL_INLINE, 0);
    t0 = m_now();
    ret = rel ? neco_sleep(arg) : neco_sleep_dl(arg);
    t1 = m_now();
}
static void co_main(int argc, void *argv[]) {
    (void)argc; (void)argv;
    rel = v_choose("relative", 2);
    arg = v_i64("arg", INT64_MIN, INT64_MAX);
    int64_t now0 = m_now();
    neco_start(sleeper, 0); int64_t id = neco_lastid();
    h_sleep(3 * MS);
    if (ret == 99) { v_check(neco_cancel(id) == NECO_OK, "cancel"); neco_join(id); v_check(ret == NECO_CANCELED, "cancel did not end the sleep"); v_cover(1); 
        // it may only still sleep when it is not due yet
        if (rel) v_check(arg > 3 * MS - 500 * US, "still asleep after the duration"); else v_check(arg > now0 + 3 * MS - 500 * US, "still asleep after the deadline");
    } else if (ret == NECO_OK) { v_cover(2); if (rel) v_check(arg >= 0 && t1 - t0 >= arg, "woke early"); else v_check(t1 >= arg, "woke early"); }
    else { v_cover(3); v_check(ret == NECO_TIMEDOUT, "undocumented result"); if (rel) v_check(arg <= 1, "a positive duration timed out"); else v_check(arg <= t0 + 8, "a future deadline was reported as past"); v_check(t1 - t0 < 500 * US, "slept for a past deadline"); }
}
void main_harness(void) { h_run(co_main); e_end(); }
