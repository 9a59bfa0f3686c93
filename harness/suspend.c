// Suspend and resume: every resume that reports success ends the suspend it found, nothing else does.
#include "h.h"
#ifndef N
#define N 2
#endif
#ifndef K
#define K 2
#endif
#ifndef R
#define R 2
#endif
#ifndef KR
#define KR 1
#endif
#ifndef STEPS
#define STEPS 2
#endif
static struct { int64_t id, dl, tok; int in, ok, ended, canceled, notimed; } t[N]; static int nended;
static void target(int argc, void *argv[]) {
    (void)argc; int me = (int)(intptr_t)argv[0];
    t[me].id = neco_getid();
#ifdef CANCEL
    neco_setcanceltype(NECO_CANCEL_INLINE, 0);
#endif
    for (int k = 0; k < K; k++) {
        if (v_choose("pre", 2)) h_sleep(h_dur("delay", STEPS));
        int64_t t0 = neco_now();
        t[me].dl = v_choose("susp_dl", 2) ? h_now() + h_dur("dl", STEPS) : INT64_MAX;
        t[me].ok = 0; t[me].notimed = 0; t[me].in = 1;
        int pend = t[me].canceled;
        int r = t[me].dl == INT64_MAX ? neco_suspend() : neco_suspend_dl(t[me].dl);
        t[me].in = 0;
        v_log(10 + me, r);
        int64_t now = m_now();
        if (r == NECO_OK) { v_check(t[me].ok, "suspended coroutine continued although nobody resumed it"); v_check(now - t[me].tok < 500 * US, "resumed coroutine was delayed"); v_cover(1); }
        else if (r == NECO_TIMEDOUT) { v_check(now > t[me].dl, "timed out early"); v_check(now - t[me].dl < MS, "deadline missed"); v_check(!t[me].notimed, "a successful resume was lost"); v_cover(2); }
        else { v_check(r == NECO_CANCELED && t[me].canceled, "unexpected result of suspend"); if (!pend) v_check(!t[me].notimed, "a successful resume was lost"); t[me].canceled = 0; v_cover(3); }
    }
#ifdef CANCEL
    h_linger(1);
#else
    h_linger(0);
#endif
    t[me].ended = 1; nended++;
}
static void do_resume(int k) {
    int in = t[k].in, ended = t[k].ended, timed = m_now() + 2 > t[k].dl, canc = t[k].canceled;
    int already = t[k].ok;
    int64_t now = m_now();
    if (in) { if (!already) { t[k].ok = 1; t[k].tok = now; } if (!timed && !canc) t[k].notimed = 1; }
    int r = neco_resume(t[k].id);
    v_log(20 + k, r);
    if (ended) v_check(r == NECO_NOTFOUND, "resume of an ended coroutine must report not found");
    else if (in) { v_check(r == NECO_OK, "resume of a suspended coroutine failed"); v_cover(4); }
    else { v_check(r == NECO_NOTSUSPENDED, "resume of a coroutine that is not suspended must say so"); v_cover(5); }
}
static void resumer(int argc, void *argv[]) {
    (void)argc; (void)argv;
    for (int k = 0; k < KR; k++) { h_sleep(h_dur("resume_at", STEPS + 1)); do_resume(v_choose("who", N)); }
}
static void co_main(int argc, void *argv[]) {
    (void)argc; (void)argv;
    int64_t id[N];
    for (int i = 0; i < N; i++) { t[i].dl = INT64_MAX; neco_start(target, 1, (void *)(intptr_t)i); id[i] = neco_lastid(); }
    for (int i = 0; i < R; i++) neco_start(resumer, 0);
    v_check(neco_resume(neco_getid()) == NECO_NOTSUSPENDED, "resume of itself");
    v_check(neco_resume(id[0] + 1000) == NECO_NOTFOUND, "resume of a coroutine that does not exist");
#ifdef CANCEL
    h_sleep(h_dur("cancel_at", STEPS + 1));
    if (!t[0].ended) { t[0].canceled = 1; v_check(neco_cancel(id[0]) == NECO_OK, "cancel"); }
#endif
    for (int n = 0; nended < N && n < 20; n++) { h_sleep((STEPS + 2) * MS); for (int i = 0; i < N; i++) if (t[i].in) do_resume(i); }
    v_check(nended == N, "a suspended coroutine could not be resumed");
}
void main_harness(void) { h_run(co_main); e_end(); }
