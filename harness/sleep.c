// Sleeping coroutines: never early, woken when due, in deadline order.
#include "h.h"
#ifndef N
#define N 4
#endif
#ifndef K
#define K 1
#endif
#ifndef STEPS
#define STEPS 4
#endif
#ifndef REL
#define REL 1
#endif
static int64_t base; static int busy, done;
static struct { int active; int64_t dl; } sl[N];
static void sleeper(int argc, void *argv[]) {
    (void)argc; int me = (int)(intptr_t)argv[0];
    for (int k = 0; k < K; k++) {
        int64_t d = v_i64("dur", 0, STEPS) * MS + 10, t0 = neco_now(), dl = t0 + d;
        int rel = REL ? v_choose("relative", 3) : 2;
        if (rel == 2) dl = base + d + 5 * US; // exactly the same deadline as others may have
        if (dl < t0 + 100) { int q = neco_sleep_dl(dl); v_check(q == NECO_TIMEDOUT || dl >= t0, "sleep until a time that has passed"); continue; }

        sl[me].dl = dl; sl[me].active = 1;
        int r = rel == 1 ? neco_sleep(d) : neco_sleep_dl(dl);
        sl[me].active = 0;
        int64_t now = m_now();
        v_check(r == NECO_OK, "sleep did not report success");
        v_check(now >= dl, "woke before the deadline");
        v_check(now - dl < MS, "overslept");
        for (int i = 0; i < N; i++) if (sl[i].active) v_check(sl[i].dl + 500 * US > dl || sl[i].dl + 500 * US > now, "a sleeper with an earlier deadline is still asleep");
        v_log(90 + me, r);
        v_cover(1);
    }
    done++;
}
static void spinner(int argc, void *argv[]) { // keeps the scheduler busy
    (void)argc; (void)argv;
    int n = 0;
    while (done < N && n++ < 60) { m_T += 200 * US; int r = neco_yield(); v_check(r == NECO_OK, "yield failed"); }
    v_cover(2);
}
static void co_main(int argc, void *argv[]) {
    (void)argc; (void)argv;
    base = neco_now(); busy = v_choose("busy", 2);
    for (int i = 0; i < N; i++) neco_start(sleeper, 1, (void *)(intptr_t)i);
    if (busy) neco_start(spinner, 0);
}
void main_harness(void) { 
#ifdef OVERSHOOT
    m_overshoot = 200 * US;
#endif
    h_run(co_main); e_end(); }
