// Select over two channels with concurrent senders, a plain receiver and a closer.
#include "h.h"
#ifndef NS
#define NS 2
#endif
#ifndef KS
#define KS 1
#endif
#ifndef KSEL
#define KSEL 2
#endif
#ifndef STEPS
#define STEPS 2
#endif
#ifndef MAXCAP
#define MAXCAP 1
#endif
#ifndef NSEL
#define NSEL 1
#endif
#ifndef NC
#define NC 2
#endif
#define MSG 4
static neco_chan *ch[NC + 1];
static int cap[NC];
static struct op { int st, c, order; unsigned char d[MSG + 2]; } snd[NS * KS], rcv[64];
static int nord, nrcv, closed[NC], ns_ok[NC], ns_call, ns_fail, nr_call[NC], nr_ok[NC];
static int nwait; // receivers and selectors inside a call
static void fill(struct op *o, int tag) { o->d[0] = v_byte("payload"); for (int i = 1; i < MSG; i++) o->d[i] = (unsigned char)(tag * 16 + i); }
static void sender(int argc, void *argv[]) {
    (void)argc; int me = (int)(intptr_t)argv[0];
    for (int k = 0; k < KS; k++) {
        struct op *o = &snd[me * KS + k];
        h_sleep(h_dur("sdelay", STEPS));
#ifdef OWN // every sender has its own channel
        o->c = me;
#else
        o->c = v_choose("schan", NC);
#endif
        fill(o, me * KS + k);
        unsigned char copy[MSG]; for (int i = 0; i < MSG; i++) copy[i] = o->d[i];
        o->order = nord++; ns_call++;
        int wasclosed = closed[o->c];
        int r = neco_chan_send(ch[o->c], copy);
        o->st = r == NECO_OK;
        if (r == NECO_OK) ns_ok[o->c]++; else { ns_fail++; v_check(r == NECO_CLOSED && wasclosed, "send failed on an open channel"); }
        for (int i = 0; i < MSG; i++) copy[i] = 0xee;
    }
}
static void got(int c, int order, unsigned char *d) {
    struct op *o = &rcv[nrcv++]; o->c = c; o->order = order; o->st = 1; nr_ok[c]++;
    for (int i = 0; i < MSG; i++) o->d[i] = d[i];
}
// one select; returns its result
static int do_select(int kind, int64_t dl) {
    int order = nord++;
    int64_t t0 = m_now();
    int avail = 0, anyclosed = 0;
    for (int c = 0; c < NC; c++) { if (ns_ok[c] > nr_ok[c] + nwait) avail = 1; if (closed[c]) anyclosed = 1; }
    nwait++;
#ifdef DUP // one channel named by several cases
    static const int map[2][3] = {{0, 1, 0}, {0, 0, 1}}; const int *m = map[v_choose("cases", 2)]; neco_chan *v[3] = {ch[m[0]], ch[m[1]], ch[m[2]]};
    int r = kind == 0 ? neco_chan_selectv(3, v) : kind == 1 ? neco_chan_select_dl(dl, 3, v[0], v[1], v[2]) : neco_chan_tryselect(3, v[0], v[1], v[2]);
    if (r >= 0) { v_check(r < 3, "select returned an index that does not exist"); r = m[r]; }
#else
    int r = kind == 0 ? (NC == 2 ? neco_chan_select(2, ch[0], ch[1]) : neco_chan_selectv(NC, ch))
          : kind == 1 ? neco_chan_select_dl(dl, 2, ch[0], ch[1])
          : kind == 2 ? neco_chan_tryselect(2, ch[0], ch[1])
          : kind == 3 ? neco_chan_selectv_dl(NC, ch, dl) : neco_chan_tryselectv(NC, ch);
#endif
    nwait--;
    v_log(40 + kind, r);
    int istry = kind == 2 || kind == 4;
    if (istry || avail) v_check(m_now() - t0 < 500 * US, "select blocked although a message was available, or a try-select blocked");
    if (r >= 0) {
        v_check(r < NC, "select returned an index that does not exist");
        unsigned char d[MSG + 2]; for (int i = 0; i < MSG + 2; i++) d[i] = 0xaa;
        int q = neco_chan_case(ch[r], d);
        v_check(d[MSG] == 0xaa && d[MSG + 1] == 0xaa, "case wrote past the message");
        if (q == NECO_OK) { got(r, order, d); v_cover(1); }
        else { v_check(q == NECO_CLOSED && closed[r], "selected channel had neither a message nor was closed"); v_cover(2); }
        return r;
    }
    if (r == NECO_EMPTY) { v_check(istry && !avail, "select reported empty although a message was available"); v_cover(3); }
    else if (r == NECO_TIMEDOUT) { v_check((kind == 1 || kind == 3) && m_now() > dl, "select timed out before its deadline"); v_check(!avail, "select timed out although a message was available"); v_cover(4); }
    else { v_check(r == NECO_CANCELED, "select returned an undocumented result"); v_cover(5); }
    return r;
}
static void selector(int argc, void *argv[]) {
    (void)argc; (void)argv;
    for (int k = 0; k < KSEL; k++) {
        h_sleep(h_dur("seldelay", STEPS));
#if NC == 2
        int kind = v_choose("kind", 3);
#else
        int kind = v_choose("kind", 3); kind = kind == 1 ? 3 : kind == 2 ? 4 : 0;
#endif
        int64_t dl = h_now() + v_i64("seldl", 0, STEPS) * MS + 1;
        do_select(kind, dl);
    }
#ifdef CANCEL
    h_linger(1);
#else
    h_linger(0);
#endif
}
#ifdef RECV
static void receiver(int argc, void *argv[]) {
    (void)argc; (void)argv;
    h_sleep(h_dur("rdelay", STEPS));
    unsigned char d[MSG];
    int order = nord++;
    nwait++;
    int r = neco_chan_recv(ch[0], d);
    nwait--;
    if (r == NECO_OK) { got(0, order, d); v_cover(6); } else v_check(r == NECO_CLOSED && closed[0], "receive failed");
}
#endif
static void co_main(int argc, void *argv[]) {
    (void)argc; (void)argv;
    for (int c = 0; c < NC; c++) { cap[c] = c < 2 ? v_choose("cap", MAXCAP + 1) : 0; v_check(neco_chan_make(&ch[c], MSG, (size_t)cap[c]) == NECO_OK, "make"); }
    int64_t ids[NS + NSEL + 1]; int n = 0;
#ifdef CANCEL
    neco_env_setcanceltype(v_choose("canceltype", 2) ? NECO_CANCEL_ASYNC : NECO_CANCEL_INLINE);
#endif
    for (int i = 0; i < NSEL; i++) { neco_start(selector, 0); ids[n++] = neco_lastid(); }
    for (int i = 0; i < NS; i++) { neco_start(sender, 1, (void *)(intptr_t)i); ids[n++] = neco_lastid(); }
#ifdef RECV
    neco_start(receiver, 0); ids[n++] = neco_lastid();
#endif
#ifdef CANCEL
    h_sleep(h_dur("cancel_at", STEPS));
    int cr = neco_cancel(ids[0]); v_check(cr == NECO_OK || cr == NECO_NOTFOUND, "cancel");
#endif
#ifdef OWN // two selecting coroutines: one event per channel and round, see the known finding
    h_sleep((STEPS + 1) * MS);
#else
    h_sleep(h_dur("close_at", STEPS + 1));
#endif
    int first = v_choose("closefirst", 2);
    for (int j = 0; j < NC; j++) { int c = j == 0 ? first : j == 1 ? !first : j; closed[c] = 1; neco_chan_close(ch[c]); }
    // drain each channel
    for (int c = 0; c < NC; c++) {
        unsigned char d[MSG]; int r;
        for (int i = 0;; i++) {
            int order = nord++;
            if ((r = neco_chan_recv(ch[c], d)) != NECO_OK) break;
            v_check(i < NS * KS, "received more messages than were sent"); got(c, order, d);
        }
        v_check(r == NECO_CLOSED, "drained channel not closed");
    }
    for (int i = 0; i < n; i++) neco_join(ids[i]);
    // every channel: i-th receive got the i-th successful send
    for (int c = 0; c < NC; c++) {
        int so = -1, ro = -1;
        int nsent = 0, nrecv = 0;
        for (int i = 0; i < NS * KS; i++) nsent += snd[i].st && snd[i].c == c;
        for (int i = 0; i < nrcv; i++) nrecv += rcv[i].c == c;
        v_check(nrecv == nsent, nrecv > nsent ? "a message was received twice" : "a message was lost");
        for (int x = 0; x < nrecv; x++) {
            struct op *s = 0, *r = 0;
            for (int i = 0; i < NS * KS; i++) if (snd[i].st && snd[i].c == c && snd[i].order > so && (!s || snd[i].order < s->order)) s = &snd[i];
            for (int i = 0; i < nrcv; i++) if (rcv[i].c == c && rcv[i].order > ro && (!r || rcv[i].order < r->order)) r = &rcv[i];
            so = s->order; ro = r->order;
            for (int i = 0; i < MSG; i++) v_check(r->d[i] == s->d[i], "messages were received out of order or modified");
        }
        neco_chan_release(ch[c]);
    }
}
void main_harness(void) { h_run(co_main); e_end(); }
