// Wait groups.
#include "h.h"
#ifndef NW
#define NW 2
#endif
#ifndef NA
#define NA 2
#endif
#ifndef KA
#define KA 2
#endif
#ifndef STEPS
#define STEPS 2
#endif
static neco_waitgroup wg;
static int count, nzero; // reference counter, number of times it reached zero
static int64_t zero_at = -1;
static void hit(void) { if (count == 0) { nzero++; zero_at = m_now(); } }
static void adder(int argc, void *argv[]) {
    (void)argc; (void)argv;
    for (int k = 0; k < KA; k++) {
        h_sleep(h_dur("adelay", STEPS));
        int r, d;
        if (v_choose("done", 2)) {
            d = -1; int want = count > 0 ? NECO_OK : NECO_NEGWAITGRP;
            if (count > 0) { count--; hit(); }
            r = neco_waitgroup_done(&wg);
            v_check(r == want, "done returned the wrong result");
        } else {
            d = v_int("delta", -3, 2);
            int want = count + d >= 0 ? NECO_OK : NECO_NEGWAITGRP;
            if (count + d >= 0) { int was = count; count += d; if (d < 0 || was == 0) { if (d) hit(); } }
            r = neco_waitgroup_add(&wg, d);
            v_check(r == want, "add returned the wrong result");
        }
        if (r == NECO_NEGWAITGRP) v_cover(3);
    }
}
static int nwaiting;
static void waiter(int argc, void *argv[]) {
    (void)argc; (void)argv;
    h_sleep(h_dur("wdelay", STEPS));
    int64_t dl = INT64_MAX;
#ifdef DEADLINES
    if (v_choose("usedl", 2)) dl = h_now() + v_i64("dl", 0, STEPS) * MS + 1;
#endif
    int c0 = count, z0 = nzero; int64_t t0 = m_now();
    nwaiting++;
    int r = dl == INT64_MAX ? neco_waitgroup_wait(&wg) : neco_waitgroup_wait_dl(&wg, dl);
    nwaiting--;
    v_log(80, r);
    if (r == NECO_OK) {
        v_check(c0 == 0 || nzero > z0, "wait returned although the counter never reached zero");
        if (c0 == 0) v_check(m_now() - t0 < 500 * US, "wait blocked on a zero counter");
        else v_check(m_now() - zero_at < 500 * US, "waiter not woken when the counter reached zero");
        v_cover(c0 ? 1 : 2);
    } else if (r == NECO_TIMEDOUT) { v_check(m_now() > dl, "timed out early"); v_check(nzero == z0 || zero_at > dl - MS / 2, "waiter not woken when the counter reached zero"); v_cover(4); }
    else { v_check(r == NECO_CANCELED, "undocumented result"); v_cover(5); }
#ifdef CANCEL
    h_linger(1);
#else
    h_linger(0);
#endif
}
static void co_main(int argc, void *argv[]) {
    (void)argc; (void)argv;
    if (v_choose("init", 2)) v_check(neco_waitgroup_init(&wg) == NECO_OK, "init");
    count = v_choose("initial", 3);
    v_check(neco_waitgroup_add(&wg, count) == NECO_OK, "add");
    int64_t ids[NW + NA];
#ifdef CANCEL
    neco_env_setcanceltype(v_choose("canceltype", 2) ? NECO_CANCEL_ASYNC : NECO_CANCEL_INLINE);
#endif
    for (int i = 0; i < NW; i++) { neco_start(waiter, 0); ids[i] = neco_lastid(); }
    for (int i = 0; i < NA; i++) { neco_start(adder, 0); ids[NW + i] = neco_lastid(); }
#ifdef CANCEL
    h_sleep(h_dur("cancel_at", STEPS + 1));
    int r = neco_cancel(ids[0]);
    v_check(r == NECO_OK || r == NECO_NOTFOUND, "cancel");
    if (r == NECO_OK) nwaiting = -100;
#endif
    for (int i = 0; i < NA; i++) neco_join(ids[NW + i]);
    h_sleep(3 * STEPS * MS);
    if (nwaiting > 0) v_check(count > 0, "a waiter is still blocked although the counter is zero");
    while (count > 0) { count--; hit(); v_check(neco_waitgroup_done(&wg) == NECO_OK, "done"); }
    for (int i = 0; i < NW; i++) neco_join(ids[i]);
    v_check(neco_waitgroup_done(&wg) == NECO_NEGWAITGRP, "counter went below zero");
}
void main_harness(void) { h_run(co_main); e_end(); }
