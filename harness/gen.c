// A generator and its consumers: values, end, close, deadlines, cancelation and references at
// solver-chosen times.
#include "h.h"
#ifndef KG
#define KG 2     // values the generator yields
#endif
#ifndef NC
#define NC 1     // consumers
#endif
#ifndef KN
#define KN 2     // next calls per consumer
#endif
#ifndef STEPS
#define STEPS 2
#endif
#define SZ 6
static neco_gen *gen; static int64_t gid, cid[NC];
static unsigned char val[KG][SZ]; static int yret[KG], ytaken, nybegun, nyok, nnbegun, nnok, nnfail, nyfail, gended, closed, gcanceled, ccanceled, closing;
static int yorder[KG], nyorder; static unsigned char got[NC * KN + KG + 4][SZ]; static int ngot;
static int64_t tend, tclose;
static void yielded(int k, int64_t dl) {
    for (int i = 0; i < SZ; i++) val[k][i] = i ? (unsigned char)(16 * k + i) : v_byte("value");
    unsigned char copy[SZ]; for (int i = 0; i < SZ; i++) copy[i] = val[k][i];
    int wasclosed = closed; int64_t t0 = m_now();
    int waiting = nnbegun - nnok - nnfail > nybegun - nyok - nyfail;
    v_check(nybegun - nyfail <= nnok + (nnbegun - nnok - nnfail), "the generator ran ahead of its consumers");
    nybegun++;
    int r = dl == INT64_MAX ? neco_gen_yield(copy) : neco_gen_yield_dl(copy, dl);
    for (int i = 0; i < SZ; i++) copy[i] = 0xee;
    yret[k] = r; if (r == NECO_OK) { nyok++; yorder[nyorder++] = k; } else nyfail++;
    v_log(10, r);
    (void)waiting;
    if (r == NECO_OK) { v_check(!wasclosed, "a yield on a closed generator succeeded"); v_check(nyok <= nnok + (nnbegun - nnok - nnfail), "a yield returned before its value was taken"); v_cover(1); }
    else if (r == NECO_CLOSED) { v_check(wasclosed, "yield reported closed on an open generator"); v_cover(2); }
    else if (r == NECO_TIMEDOUT) { v_check(dl != INT64_MAX && m_now() > dl && m_now() - dl < MS, "yield timed out at the wrong time"); v_cover(3); }
    else { v_check(r == NECO_CANCELED && gcanceled, "wrong result of a yield"); v_cover(4); }
    if (wasclosed) v_check(m_now() - t0 < 500 * US, "a yield on a closed generator blocked");
}
static void inner(void) { int x = 0; v_check(neco_gen_yield(&x) == NECO_NOTGENERATOR, "only generators may yield values"); }
static void genco(int argc, void *argv[]) {
    v_check(argc == 2 && argv[0] == (void *)5 && argv[1] == (void *)&gen, "generator arguments");
    gid = neco_getid();
    neco_setcanceltype(NECO_CANCEL_INLINE, 0);
    for (int k = 0; k < KG; k++) {
        if (v_choose("work", 2)) { int s = neco_sleep_dl(h_now() + h_dur("gdelay", STEPS)); v_check(s == NECO_OK || gcanceled, "sleep"); }
        int64_t dl = INT64_MAX;
#ifdef DEADLINES
        if (v_choose("ydl", 2)) dl = h_now() + h_dur("ydl_t", STEPS);
#endif
        yielded(k, dl);
    }
    gended = 1; tend = m_now();
    if (v_choose("exit", 2)) neco_exit();
}
static int next1(int64_t dl, int cancelable) {
    unsigned char b[SZ + 2]; for (int i = 0; i < SZ + 2; i++) b[i] = 0xaa;
    int64_t t0 = m_now(); int wasended = gended || closed;
    int pend = nybegun - nyfail > nnbegun - nnfail;
#if defined(DEADLINES) || defined(CANCEL)
    pend = 0; // the yield may have given up without having returned yet
#endif
    nnbegun++;
    int r = dl == INT64_MAX ? neco_gen_next(gen, b) : neco_gen_next_dl(gen, b, dl);
    int64_t now = m_now();
    if (r == NECO_OK) nnok++; else nnfail++;
    v_log(20, r);
    v_check(b[SZ] == 0xaa && b[SZ + 1] == 0xaa, "next wrote past the value");
    if (r == NECO_OK) { for (int i = 0; i < SZ; i++) got[ngot][i] = b[i]; ngot++; v_cover(5); }
    else {
        if (r != NECO_CLOSED) for (int i = 0; i < SZ; i++) v_check(b[i] == 0xaa, "a failed next wrote a value");
        if (r == NECO_CLOSED) { v_check(gended || closed, "next reported closed while the generator runs"); int64_t te = gended ? tend : now; if (closed && tclose < te) te = tclose; v_check(now - (t0 > te ? t0 : te) < 500 * US || !wasended, "next was told late about the end"); v_cover(6); }
        else if (r == NECO_TIMEDOUT) { v_check(dl != INT64_MAX && now > dl && now - dl < MS, "next timed out at the wrong time"); v_cover(7); }
        else { v_check(r == NECO_CANCELED && cancelable && ccanceled, "wrong result of next"); v_cover(8); }
    }
    if (wasended || pend) v_check(now - t0 < 500 * US, "next blocked although a value or the end was there");
    return r;
}
static void consumer(int argc, void *argv[]) {
    (void)argc; (void)argv;
    neco_setcanceltype(NECO_CANCEL_INLINE, 0);
    inner();
    for (int k = 0; k < KN; k++) {
        int s = neco_sleep_dl(h_now() + h_dur("cdelay", STEPS)); v_check(s == NECO_OK || ccanceled, "sleep");
        int64_t dl = INT64_MAX;
#ifdef DEADLINES
        if (v_choose("ndl", 2)) dl = h_now() + h_dur("ndl_t", STEPS);
#endif
        next1(dl, 1);
    }
    h_linger(1);
#ifdef RETAIN
    v_check(neco_gen_release(gen) == NECO_OK, "release");
#endif
}
static void co_main(int argc, void *argv[]) {
    (void)argc; (void)argv;
    v_check(neco_gen_start(&gen, SZ, genco, 2, (void *)5, (void *)&gen) == NECO_OK, "cannot start a generator");
    for (int i = 0; i < NC; i++) {
#ifdef RETAIN
        v_check(neco_gen_retain(gen) == NECO_OK, "retain");
#endif
        neco_start(consumer, 0); cid[i] = neco_lastid();
    }
#ifdef CANCEL
    h_sleep(h_dur("cancel_at", STEPS + 1));
    if (v_choose("who", 2)) { if (!gended) { gcanceled = 1; v_check(neco_cancel(gid) == NECO_OK, "cancel"); } } else { ccanceled = 1; int r = neco_cancel(cid[0]); v_check(r == NECO_OK || r == NECO_NOTFOUND, "cancel"); }
#endif
    int doclose = v_choose("close", 2);
    if (doclose) {
        h_sleep(h_dur("close_at", STEPS + 1));
        closing = 1; int was = gended; closed = 1; tclose = m_now();
        int r = neco_gen_close(gen);
        v_check(r == (was ? NECO_CLOSED : NECO_OK), "close");
        v_check(neco_gen_close(gen) == NECO_CLOSED, "second close");
    } else h_sleep((STEPS * 2 * KN + 2) * MS);
    // drain
    for (int i = 0; ; i++) { v_check(i <= KG, "values without end"); if (next1(INT64_MAX, 0) == NECO_CLOSED) break; }
    v_check(next1(INT64_MAX, 0) == NECO_CLOSED, "next after the end must report closed");
    for (int i = 0; i < NC; i++) neco_join(cid[i]);
    neco_join(gid);
    v_check(gended, "the generator did not end");
    v_check(next1(neco_now() + MS, 0) == NECO_CLOSED, "next after the end must report closed");
    v_check(ngot == nyorder, ngot < nyorder ? "a value was lost" : "a value was repeated or invented");
    // one consumer sees the values in order; several share them, each once
    int o = 0;
    for (int k = 0; k < KG; k++) if (yret[k] == NECO_OK) {
        if (NC > 1 || doclose) { int f = 0; for (o = 0; o < ngot; o++) if (got[o][1] == val[k][1]) { f++; for (int i = 0; i < SZ; i++) v_check(got[o][i] == val[k][i], "a value was changed"); } v_check(f == 1, "a value was lost or repeated"); }
        else { for (int i = 0; i < SZ; i++) v_check(got[o][i] == val[k][i], "values received out of order or changed"); o++; }
    }
    v_check(neco_gen_release(gen) == NECO_OK, "release");
}
void main_harness(void) { h_run(co_main); e_end(); }
