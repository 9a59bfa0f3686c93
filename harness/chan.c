// Channels: senders and receivers acting at solver-chosen times, with solver-chosen
// deadlines, a cancel and a close at solver-chosen times.
#include "h.h"
#ifndef NS
#define NS 2
#endif
#ifndef NR
#define NR 1
#endif
#ifndef KS
#define KS 2   // messages per sender
#endif
#ifndef KR
#define KR 2
#endif
#ifndef STEPS
#define STEPS 3
#endif
#ifndef MAXCAP
#define MAXCAP 1
#endif
#ifndef MSG
#define MSG 4
#endif
#define SLOT (MSG + 4)
static neco_chan *ch;
static int cap;
enum { NEVER, BUSY, GOT, FAILED, SAWCLOSED };
static struct op { int st, ret, order; unsigned char d[SLOT]; } snd[NS * KS], rcv[NR * KR + 8];
static int norder, nrcv_ok, nsnd_ok, inrecv, closed, closedone, closeret, nrecvorder;
static int finished, nsc, nsf, nrc, nrf; // sends/receives called, failed
#define PROMPT(t0) (m_now() - (t0) < 500 * US)
static void fill(struct op *o, int tag) { for (int i = 0; i < MSG; i++) o->d[i] = i == 0 ? v_byte("payload") : (unsigned char)(tag * 16 + i); }
static int64_t dl(const char *n) {
#ifdef DEADLINES
    int64_t t = v_i64(n, 0, STEPS + 1) * MS;
    // the largest value stands for "no deadline"
    if (t == (STEPS + 1) * (int64_t)MS) return INT64_MAX;
    return h_now() + t + 1;
#else
    (void)n; return INT64_MAX;
#endif
}
static void sender(int argc, void *argv[]) {
    (void)argc; int me = (int)(intptr_t)argv[0];
    for (int k = 0; k < KS; k++) {
        struct op *o = &snd[me * KS + k];
        h_sleep(h_dur("sdelay", STEPS));
        fill(o, me * KS + k);
        int64_t d = dl("sdl");
        unsigned char copy[SLOT]; for (int i = 0; i < SLOT; i++) copy[i] = o->d[i];
        o->order = norder++; o->st = BUSY;
        int wasclosed = closed;
        int space = nsc - nsf - nrcv_ok < cap; // even if nothing else is consumed
#if !defined(DEADLINES) && !defined(CANCEL) && !defined(TRY)
        if (nrc - nrf > nsc - nsf) space = 1;  // a receiver is waiting
#endif
        int64_t t0 = m_now();
        nsc++;
        int r = d == INT64_MAX ? neco_chan_send(ch, copy) : neco_chan_send_dl(ch, copy, d);
        o->ret = r; o->st = r == NECO_OK ? GOT : FAILED;
        if (r != NECO_OK) nsf++;
        if (space && !wasclosed) v_check(PROMPT(t0), "a send blocked although the channel had room or a waiting receiver");
        for (int i = 0; i < MSG; i++) copy[i] = 0xee; // the channel may not refer to it any more
        v_check(r == NECO_OK || r == NECO_CLOSED || r == NECO_CANCELED || (r == NECO_TIMEDOUT && d != INT64_MAX), "send returned an undocumented result");
        if (r == NECO_CLOSED) v_check(wasclosed, "send reported closed although the channel was open when it was called");
        if (wasclosed) v_check(r == NECO_CLOSED || r == NECO_CANCELED || r == NECO_TIMEDOUT, "send on a closed channel succeeded");
        if (r == NECO_TIMEDOUT) v_check(m_now() > d, "send timed out before its deadline");
        if (r == NECO_OK) { nsnd_ok++; v_check(nsnd_ok - nrcv_ok <= cap + inrecv, "more messages accepted than the capacity allows"); v_cover(1); }
        if (r == NECO_TIMEDOUT) v_cover(2);
        if (r == NECO_CANCELED) v_cover(3);
        if (r == NECO_CLOSED) v_cover(4);
        v_log(10 + me, r);
    }
    finished++;
#ifdef CANCEL
    h_linger(1);
#elif defined(DEADLINES)
    h_linger(0);
#endif
}
static void recv1(struct op *o, int64_t d, int tryit) {
    for (int i = 0; i < SLOT; i++) o->d[i] = 0xaa;
    o->order = nrecvorder++; o->st = BUSY;
    int avail = nsnd_ok - nrcv_ok - inrecv;
    int64_t t0 = m_now();
    int some = nsnd_ok > nrc - nrf;
#if !defined(DEADLINES) && !defined(CANCEL)
    if (nsc - nsf > nrc - nrf) some = 1;
#endif
    int over = closedone && nsc - nsf <= nrcv_ok; // closed and nothing left
    nrc++;
    inrecv++;
    int r = tryit ? neco_chan_tryrecv(ch, o->d) : d == INT64_MAX ? neco_chan_recv(ch, o->d) : neco_chan_recv_dl(ch, o->d, d);
    inrecv--;
    if (r != NECO_OK) nrf++;
    if (some) v_check(r == NECO_OK || r == NECO_CANCELED || r == NECO_TIMEDOUT, "nothing received although a message was waiting");
    if (over) v_check(r == NECO_CLOSED || r == NECO_CANCELED || r == NECO_TIMEDOUT, "a closed channel with nothing left did not report closed");
    if (some || tryit || over) v_check(PROMPT(t0), "a receive blocked although a message was waiting, or a try-receive blocked");
    o->ret = r; o->st = r == NECO_OK ? GOT : r == NECO_CLOSED ? SAWCLOSED : FAILED;
    for (int i = MSG; i < SLOT; i++) v_check(o->d[i] == 0xaa, "receive wrote past the message size");
    if (r == NECO_OK) { nrcv_ok++; v_cover(5); }
    else if (r == NECO_CLOSED) { v_check(closed, "receive reported closed on an open channel"); v_cover(6); v_check(tryit || 1, ""); }
    else if (r == NECO_TIMEDOUT) { v_check(d != INT64_MAX && m_now() > d, "receive timed out before its deadline"); v_cover(7); }
    else if (r == NECO_EMPTY) { v_check(tryit, "blocking receive returned empty"); v_check(avail <= 0, "nothing received although a message was waiting"); v_cover(9); }
    else v_check(r == NECO_CANCELED, "receive returned an undocumented result");
    if (r != NECO_OK && r != NECO_CLOSED) for (int i = 0; i < MSG; i++) v_check(o->d[i] == 0xaa, "failed receive modified the message");
    v_log(20, r);
}
static void receiver(int argc, void *argv[]) {
    (void)argc; int me = (int)(intptr_t)argv[0];
    for (int k = 0; k < KR; k++) {
        h_sleep(h_dur("rdelay", STEPS));
        int t = 0;
#ifdef TRY
        t = v_choose("tryrecv", 2);
#endif
        recv1(&rcv[me * KR + k], t ? INT64_MAX : dl("rdl"), t);
    }
    finished++;
#ifdef CANCEL
    h_linger(1);
#elif defined(DEADLINES)
    h_linger(0);
#endif
}
static void closer(void) {
    h_sleep(h_dur("close_at", STEPS + 1));
    closed = 1;
    closeret = neco_chan_close(ch);
    v_check(closeret == NECO_OK, "closing an open channel failed");
    closedone = 1;
    v_check(neco_chan_close(ch) == NECO_CLOSED, "closing twice was not reported");
}
static void co_main(int argc, void *argv[]) {
    (void)argc; (void)argv;
    cap = v_choose("cap", MAXCAP + 1);
    v_check(neco_chan_make(&ch, MSG, (size_t)cap) == NECO_OK, "cannot make a channel");
    int64_t ids[NS + NR];
#ifdef CANCEL
    int type = v_choose("canceltype", 2) ? NECO_CANCEL_ASYNC : NECO_CANCEL_INLINE;
    neco_env_setcanceltype(type);
#endif
    for (int i = 0; i < NS; i++) { neco_start(sender, 1, (void *)(intptr_t)i); ids[i] = neco_lastid(); }
    for (int i = 0; i < NR; i++) { neco_start(receiver, 1, (void *)(intptr_t)i); ids[NS + i] = neco_lastid(); }
#ifdef CANCEL
    h_sleep(h_dur("cancel_at", STEPS));
    int victim = v_choose("victim", NS + NR);
    int cr = neco_cancel(ids[victim]);
    v_check(cr == NECO_OK || cr == NECO_NOTFOUND, "cancel failed");
    if (type == NECO_CANCEL_ASYNC) v_cover(8);
#endif
    closer();
    // drain what was accepted before the close
    int n = NR * KR, dtry = 0;
#ifdef TRY
    dtry = v_choose("drain_try", 2);
#endif
    for (int i = 0; i < NS * KS + 2; i++) {
        struct op *o = &rcv[n++];
        recv1(o, INT64_MAX, dtry);
        if (o->ret == NECO_CLOSED) break;
        v_check(i < NS * KS, "received more messages than were sent");
    }
    for (int i = 0; i < NS + NR; i++) neco_join(ids[i]);
    struct op last = {0}; recv1(&last, INT64_MAX, dtry);
    v_check(last.ret == NECO_CLOSED, "a drained and closed channel did not report closed");
    // the i-th successful receive got the i-th successfully sent message
    int nr = 0;
    int nsent = 0, nrecv = 0;
    for (int i = 0; i < NS * KS; i++) nsent += snd[i].st == GOT;
    for (int i = 0; i < n; i++) nrecv += rcv[i].st == GOT;
    v_log(30, nsent); v_log(31, nrecv);
    v_check(nrecv <= nsent, "a message was received twice, or although its send failed");
    v_check(nrecv >= nsent, "a message was lost");
    int so = -1, ro = -1;
    for (nr = 0; nr < nrecv; nr++) {
        struct op *s = 0, *r = 0;
        for (int i = 0; i < NS * KS; i++) if (snd[i].st == GOT && snd[i].order > so && (!s || snd[i].order < s->order)) s = &snd[i];
        for (int i = 0; i < n; i++) if (rcv[i].st == GOT && rcv[i].order > ro && (!r || rcv[i].order < r->order)) r = &rcv[i];
        so = s->order; ro = r->order;
        for (int i = 0; i < MSG; i++) v_check(r->d[i] == s->d[i], "messages were received out of order or modified");
    }
    v_check(neco_chan_release(ch) == NECO_OK, "release failed");
}
void main_harness(void) { h_run(co_main); e_end(); }
