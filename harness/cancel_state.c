// A coroutine that enables and disables its cancelation while others cancel it, with
// deadlines and while they are canceled themselves; an exact account of what is due.
#include "h.h"
#ifndef K
#define K 3
#endif
#ifndef NC
#define NC 2
#endif
#ifndef STEPS
#define STEPS 3
#endif
static int en = 1, ended, pend, maybe, seen, okc, final_; static int64_t tid, ten, tend_;
static struct { int in, could, late; int64_t id; int amb, used; } c[NC];
static neco_chan *ch;
static int inflight(void) { int n = 0; for (int i = 0; i < NC; i++) n += c[i].in && c[i].could && !c[i].used; return n; }
static void consumed(void) {
    int n = inflight();
    v_check(pend || maybe || n > 0, "a cancelation was reported that nobody made, or twice");
    seen++;
    if (!pend && !maybe && n == 1) { for (int i = 0; i < NC; i++) if (c[i].in && c[i].could) c[i].used = 1; }
    else for (int i = 0; i < NC; i++) if (c[i].in && c[i].could) c[i].amb = 1;
    pend = 0; if (n == 0) maybe = 0;
    v_cover(1);
}
static void blocking(int which, int64_t ns) {
    int must = pend; int64_t t0 = m_now(), tp = 0; (void)tp;
    int64_t dl = neco_now() + ns; int r, x;
    if (which == 0) { r = neco_sleep_dl(dl); if (r == OK) v_check(m_now() - t0 >= ns, "sleep ended early"); }
    else { r = neco_chan_recv_dl(ch, &x, dl); v_check(r == NECO_TIMEDOUT || r == NECO_CANCELED, "result"); }
    v_check(m_now() - t0 < ns + MS, "deadline");
    if (r == NECO_CANCELED) consumed();
    else {
        v_check(!must, "an operation entered with a pending cancelation did not report it");
        if (en) for (int i = 0; i < NC; i++) v_check(!(c[i].in && c[i].could && c[i].late), "a cancel keeps waiting though the target can be canceled");
    }
    if (must) v_check(m_now() - t0 < 500 * US, "a pending cancelation was not reported at once");
    for (int i = 0; i < NC; i++) c[i].late = c[i].in && c[i].could;
}
static void target(int argc, void *argv[]) {
    (void)argc; (void)argv;
    neco_setcanceltype(NECO_CANCEL_INLINE, 0);
    for (int k = 0; k < K; k++) {
        int old = 0;
        switch (v_choose("step", 4)) {
        case 0: blocking(0, h_dur("sleep", 2)); break;
        case 1: blocking(1, h_dur("wait", 2)); break;
        case 2: v_check(neco_setcancelstate(NECO_CANCEL_DISABLE, &old) == OK && old == (en ? NECO_CANCEL_ENABLE : NECO_CANCEL_DISABLE), "old state"); en = 0; break;
        case 3: en = 1; for (int i = 0; i < NC; i++) if (c[i].in) c[i].could = 1; ten = m_now(); neco_setcancelstate(NECO_CANCEL_ENABLE, 0); break;
        }
    }
    if (v_choose("stay", 2)) { blocking(0, 3 * MS); en = 1; for (int i = 0; i < NC; i++) if (c[i].in) c[i].could = 1; ten = m_now(); neco_setcancelstate(NECO_CANCEL_ENABLE, 0); blocking(0, 8 * MS); blocking(0, 8 * MS); final_ = 1; v_cover(2); }
    ended = 1; tend_ = m_now();
}
static void canceler(int argc, void *argv[]) {
    (void)argc; int me = (int)(intptr_t)argv[0];
    neco_setcanceltype(NECO_CANCEL_INLINE, 0);
    if (neco_sleep_dl(h_now() + h_dur("cancel_at", STEPS) - 500 * US) == NECO_CANCELED) return;
    int64_t t0 = m_now(), dl = v_choose("cancel_dl", 2) ? neco_now() + h_dur("dl", 2) : INT64_MAX;
    int ended0 = ended;
    c[me].could = en; c[me].in = 1; c[me].late = 0;
    int r = neco_cancel_dl(tid, dl);
    c[me].in = 0;
    int64_t now = m_now();
    if (r == OK) {
        okc++;
        v_check(!ended0, "canceled a coroutine that had ended");
        v_check(c[me].could, "canceled a coroutine whose cancelation was disabled all the time");
        int64_t from = ten > t0 ? ten : t0; v_check(now - from < 500 * US, "cancel returned late");
        if (c[me].amb) maybe = 1; else if (!c[me].used) pend = 1;
        v_cover(3); if (!ended && ten > t0) v_cover(4);
    } else if (r == NECO_NOTFOUND) {
        v_check(ended, "a live coroutine was not found");
        v_check(ended0 ? now - t0 < 500 * US : now - tend_ < 500 * US, "not found was reported late"); if (!ended0) v_cover(5);
    } else if (r == NECO_TIMEDOUT) { v_check(dl != INT64_MAX && now > dl, "timed out early"); v_cover(6); v_check(!(c[me].could && en && !ended) || ten > dl - 100 * US, "timed out though the target could be canceled"); }
    else { v_check(r == NECO_CANCELED && me == 1, "result of cancel"); v_cover(7); }
    h_linger(1);
}
static void co_main(int argc, void *argv[]) {
    (void)argc; (void)argv;
    neco_chan_make(&ch, sizeof(int), 0);
    neco_start(target, 0); tid = neco_lastid();
    for (int i = 0; i < NC; i++) { neco_start(canceler, 1, (void *)(intptr_t)i); c[i].id = neco_lastid(); }
    if (NC > 1 && v_choose("cancel_the_canceler", 2)) { neco_sleep(3 * MS); int r = neco_cancel(c[1].id); v_check(r == OK || r == NECO_NOTFOUND, "cancel"); }
    v_check(neco_join(tid) == OK, "join");
    for (int i = 0; i < NC; i++) v_check(neco_join(c[i].id) == OK, "join");
    if (final_) { v_check(!pend, "a cancelation was lost"); if (okc) v_check(seen >= 1, "a cancelation was lost"); }
    v_check(seen <= okc, "more cancelations were reported than made");
    neco_chan_release(ch);
}
void main_harness(void) { h_run(co_main); e_end(); }
