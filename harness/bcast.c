// Broadcasts, sends and a close among receivers and selecting coroutines; an exact
// model of the channel says who waits at the moment of each call.
#include "h.h"
#ifndef NR
#define NR 2
#endif
#ifndef NSEL
#define NSEL 1
#endif
#ifndef KR
#define KR 1
#endif
#ifndef KB
#define KB 2
#endif
#ifndef STEPS
#define STEPS 2
#endif
#ifndef ACTS
#define ACTS 3 // broadcast, send, broadcast on the second channel, receive
#endif
#define N (NR + NSEL)
#define MSG 4
static neco_chan *ch[2];
enum { IDLE, WAIT, SERVED };
static struct { int st, arr, from; unsigned char d[MSG]; int64_t id; } w[N];
static struct { unsigned char d[MSG]; } pend[16];
static int ph, pt, narr, closed, nmsg, cap, fin;
static void mk(unsigned char *d) { d[0] = v_byte("payload"); for (int i = 1; i < MSG; i++) d[i] = (unsigned char)(nmsg * 16 + i); nmsg++; }
static int64_t dl(void) {
#ifdef DEADLINES
    int64_t t = v_i64("dl", 0, STEPS + 1) * MS;
    if (t == (STEPS + 1) * (int64_t)MS) return INT64_MAX;
    return h_now() + t + 1;
#else
    return INT64_MAX;
#endif
}
static void serve(int i, int c, const unsigned char *d) { w[i].st = SERVED; w[i].from = c; for (int k = 0; k < MSG; k++) w[i].d[k] = d[k]; }
static void waiter(int argc, void *argv[]) {
    (void)argc; int me = (int)(intptr_t)argv[0]; int sel = me >= NR;
    for (int k = 0; k < KR; k++) {
        h_sleep(h_dur("rdelay", STEPS));
        if (ph < pt) serve(me, 0, pend[ph++].d);
        else { w[me].st = WAIT; w[me].arr = narr++; }
        int closed0 = closed;
        int64_t d = dl();
        unsigned char b[MSG + 2]; for (int i = 0; i < MSG + 2; i++) b[i] = 0xaa;
        int r, c = 0;
        if (!sel) r = neco_chan_recv_dl(ch[0], b, d);
        else {
#ifdef DUP // one channel named by several cases
            static const int map[2][3] = {{0, 1, 0}, {0, 0, 1}}; const int *m = map[v_choose("cases", 2)];
            c = neco_chan_select_dl(d, 3, ch[m[0]], ch[m[1]], ch[m[2]]);
            if (c >= 0) { v_check(c < 3, "no such case"); c = m[c]; }
#else
            c = neco_chan_select_dl(d, 2, ch[0], ch[1]);
#endif
            r = c >= 0 ? neco_chan_case(ch[c], b) : c;
        }
        v_log(20 + me, r);
        if (w[me].st == SERVED) {
            v_check(r == NECO_OK, "a waiting coroutine was counted or had a message but did not receive it");
            v_check(c == w[me].from, "the message came from another channel");
            for (int i = 0; i < MSG; i++) v_check(b[i] == w[me].d[i], "another message was received");
            v_cover(1 + sel);
        } else {
            v_check(r != NECO_OK, "a message was received that was not meant for this coroutine");
            if (r == NECO_TIMEDOUT) { v_check(d != INT64_MAX && m_now() > d, "timed out early"); v_cover(3); }
            else if (r == NECO_CLOSED) { v_check(closed || closed0, "reported closed on an open channel"); v_cover(4); }
            else { v_check(r == NECO_CANCELED, "undocumented result"); v_cover(5); }
        }
        if (r != NECO_CLOSED && r != NECO_OK) for (int i = 0; i < MSG; i++) v_check(b[i] == 0xaa, "failed receive modified the message");
        v_check(b[MSG] == 0xaa && b[MSG + 1] == 0xaa, "wrote past the message");
        w[me].st = IDLE;
    }
    fin++;
    h_linger(1);
}
static int count(int selonly) { int n = 0; for (int i = selonly ? NR : 0; i < N; i++) n += w[i].st == WAIT; return n; }
static void bcast(int c) {
    unsigned char d[MSG + 1]; mk(d); d[MSG] = 0;
    int n = count(c == 1), c0 = closed;
    if (!c0) for (int i = c == 1 ? NR : 0; i < N; i++) if (w[i].st == WAIT) serve(i, c, d);
    int64_t t0 = m_now();
    int r = neco_chan_broadcast(ch[c], d);
    for (int i = 0; i < MSG; i++) d[i] = 0xee;
    v_check(m_now() - t0 < 500 * US, "a broadcast blocked");
    if (c0) v_check(r == NECO_CLOSED, "broadcast on a closed channel");
    else v_check(r == n, "a broadcast did not reach exactly the coroutines that were waiting");
    if (n >= 2) v_cover(6);
    v_log(30 + c, r);
}
static void send1(void) {
    unsigned char d[MSG]; mk(d);
    int f = -1;
    for (int i = 0; i < N; i++) if (w[i].st == WAIT && (f < 0 || w[i].arr < w[f].arr)) f = i;
    if (f >= 0) serve(f, 0, d);
    else { if (pt - ph >= cap) return; for (int i = 0; i < MSG; i++) pend[pt].d[i] = d[i]; pt++; v_cover(7); }
    v_check(neco_chan_send(ch[0], d) == NECO_OK, "send with room or a receiver failed");
}
static void sender(int argc, void *argv[]) { // blocks in a send while broadcasts happen
    (void)argc; (void)argv;
    unsigned char d[MSG]; mk(d);
    if (count(0) || pt > ph || closed) return;
    for (int i = 0; i < MSG; i++) pend[pt].d[i] = d[i]; 
    pt++;
    v_check(neco_chan_send(ch[0], d) == NECO_OK, "send");
    for (int i = 0; i < MSG; i++) d[i] = 0xee;
}
static void actor(int argc, void *argv[]) {
    (void)argc; (void)argv;
    for (int k = 0; k < KB; k++) {
        h_sleep(h_dur("bdelay", STEPS + 1));
        int a = v_choose("act", ACTS);
        if (a == 0) {
#ifdef SELFC
            int c = v_choose("selfcancel", 2);
            if (c) neco_cancel(neco_getid()); // a broadcast cannot be canceled
            bcast(0);
            if (c) { v_check(neco_sleep_dl(neco_now() + MS) == NECO_CANCELED, "a broadcast swallowed a cancelation"); v_cover(8); }
#else
            bcast(0);
#endif
        }
        else if (a == 1) { if (cap) send1(); else { neco_start(sender, 0); } }
        else if (a == 2) bcast(1);
    }
}
static void co_main(int argc, void *argv[]) {
    (void)argc; (void)argv;
    cap = v_choose("cap", 2);
    v_check(neco_chan_make(&ch[0], MSG, (size_t)cap) == NECO_OK && neco_chan_make(&ch[1], MSG, 0) == NECO_OK, "make");
    int type = 0; (void)type;
#ifdef CANCEL
    type = v_choose("async", 2) ? NECO_CANCEL_ASYNC : NECO_CANCEL_INLINE;
    neco_env_setcanceltype(type);
#endif
    for (int i = 0; i < N; i++) { neco_start(waiter, 1, (void *)(intptr_t)i); w[i].id = neco_lastid(); }
    neco_start(actor, 0); int64_t aid = neco_lastid();
#ifdef CANCEL
    h_sleep(h_dur("cancel_at", STEPS + 1));
    int v = v_choose("victim", N);
    int served = w[v].st == SERVED;
    int cr = neco_cancel(w[v].id); v_check(cr == NECO_OK || cr == NECO_NOTFOUND, "cancel");
    if (type == NECO_CANCEL_ASYNC && !served) w[v].st = IDLE;
#endif
    neco_join(aid);
    h_sleep(MS);
    // a message that was broadcast is not in the channel afterwards
    unsigned char b[MSG];
    while (ph < pt) { int k = ph++; v_check(neco_chan_tryrecv(ch[0], b) == NECO_OK, "a message in the channel was lost"); for (int i = 0; i < MSG; i++) v_check(b[i] == pend[k].d[i], "a message in the channel was changed"); }
    v_check(neco_chan_tryrecv(ch[0], b) == NECO_EMPTY && neco_chan_tryrecv(ch[1], b) == NECO_EMPTY, "a broadcast message stayed in the channel");
    closed = 1;
    v_check(neco_chan_close(ch[0]) == NECO_OK && neco_chan_close(ch[1]) == NECO_OK, "close");
    bcast(0); bcast(1);
    for (int i = 0; i < N; i++) neco_join(w[i].id);
    neco_chan_release(ch[0]); neco_chan_release(ch[1]);
}
void main_harness(void) { h_run(co_main); e_end(); }
