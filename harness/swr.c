// Writing through a stream: any mix of writes and flushes against a slow or broken peer.
#include "h.h"
int neco_stream_make_buffered_size(neco_stream **stream, int fd, size_t buffer_size);
#ifndef K
#define K 3
#endif
#ifndef WMAX
#define WMAX 5
#endif
#ifndef STEPS
#define STEPS 2
#endif
#ifndef BUF
#define BUF 3
#endif
#ifndef PRE
#define PRE 6
#endif
#ifndef RK
#define RK 3
#endif
static int r_, w_, rclosed, wclosed, canceled, kind; static unsigned char exp_[K * WMAX + 8]; static int nexp, rpos; static struct m_buf *pb; static int64_t wid; static int wdone;
static void drain(int argc, void *argv[]) {
    (void)argc; (void)argv;
    unsigned char b[8];
    for (int k = 0; k < RK; k++) {
        h_sleep(h_dur("drain_at", STEPS));
        ssize_t n = m_read(r_, b, 8);
        for (ssize_t i = 0; i < n; i++, rpos++) if (rpos >= PRE) v_check(b[i] == exp_[rpos - PRE], "the peer received wrong bytes");
    }
#ifdef BREAK
    rclosed = 1; m_close(r_);
#else
    for (;;) { // keep draining so that everything can be written
        h_sleep(MS);
        ssize_t n = m_read(r_, b, 8);
        for (ssize_t i = 0; i < n; i++, rpos++) if (rpos >= PRE) v_check(b[i] == exp_[rpos - PRE], "the peer received wrong bytes");
        if (n == 0) break;
    }
    v_check(wclosed, "end of file at the peer before close");
    m_close(r_);
#endif
}
static int total(void) { return pb->total - PRE; }
static void writer(int argc, void *argv[]) {
    (void)argc; (void)argv;
    neco_setcanceltype(NECO_CANCEL_INLINE, 0);
    neco_stream *s = 0; int seenc = 0, broken = 0;
    v_check((kind == 0 ? neco_stream_make(&s, w_) : kind == 1 ? neco_stream_make_buffered_size(&s, w_, BUF) : neco_stream_make_buffered(&s, w_)) == NECO_OK && s, "stream make");
#ifdef CANCEL
    if (neco_sleep_dl(h_now() + h_dur("w_at", STEPS)) == NECO_CANCELED) seenc = 1;
#endif
    for (int k = 0; k < K; k++) {
        int op = v_choose("op", 2);
        unsigned char b[WMAX];
        int64_t dl = INT64_MAX;
#ifdef DEADLINES
        if (v_choose("has_dl", 2)) dl = h_now() + h_dur("dl", STEPS);
#endif
        ssize_t r; int n = 0;
        int before = total() + (int)neco_stream_buffered_write_size(s);
        if (op == 0) {
            n = 1 + v_choose("n", WMAX);
            for (int i = 0; i < n; i++) { b[i] = v_byte("data"); exp_[nexp + i] = b[i]; }
            r = dl == INT64_MAX ? neco_stream_write(s, b, (size_t)n) : neco_stream_write_dl(s, b, (size_t)n, dl);
        } else r = dl == INT64_MAX ? neco_stream_flush(s) : neco_stream_flush_dl(s, dl);
        int le = neco_lasterr(), err = r == -1 ? le : r < 0 ? (int)r : 0; int64_t now = m_now();
        int after = total() + (int)neco_stream_buffered_write_size(s);
        v_log(10 + op, r);
        if (op == 0) {
            v_check(r <= n, "more bytes than given");
            v_check(after - before == (r > 0 ? (int)r : 0), "write reported a count that differs from the bytes taken");
            nexp += after - before;
        } else v_check(after == before, "flush lost or duplicated bytes");
        v_check(total() <= nexp, "bytes invented");
        if (kind == 0) v_check(neco_stream_buffered_write_size(s) == 0, "unbuffered stream buffers");
        int why = (dl != INT64_MAX && now > dl) | (canceled && !seenc) << 1 | rclosed << 2;
        if (op == 1 && r == NECO_OK) { v_check(total() == nexp && neco_stream_buffered_write_size(s) == 0, "flush reported success but left bytes behind"); v_cover(1); }
        if (op == 0 && r == n) v_cover(2);
        if ((op == 0 && r != n) || (op == 1 && r != NECO_OK)) {
            v_check(why, "a transfer was cut short without a reason");
            if (r > 0 || err == NECO_PARTIALWRITE) v_cover(3);
            else if (err == NECO_TIMEDOUT) { v_check((why & 1) && now - dl < MS, "timed out at the wrong time"); v_cover(4); }
            else if (err == NECO_CANCELED) { v_check(why & 2, "canceled without cancel"); seenc = 1; v_cover(5); }
            else { v_check(err == NECO_ERROR && m_errno == EPIPE && rclosed, "wrong error"); v_cover(6); }
        }
        if (rclosed) broken = 1;
    }
#ifdef CANCEL
    if (canceled && !seenc) { v_check(neco_sleep(MS) == NECO_CANCELED, "cancelation lost"); seenc = 1; }
#endif
    wdone = 1; wclosed = 1;
    int rc = neco_stream_close(s);
    v_check(m_fd[w_].kind == 0, "close did not close the descriptor");
    v_log(30, rc);
    if (rc == NECO_OK) { v_check(total() == nexp, "close reported success but bytes are missing"); v_cover(7); }
    else v_check(rclosed || broken, "close failed without a reason");
}
static void co_main(int argc, void *argv[]) {
    (void)argc; (void)argv;
    int p[2]; m_pipe(p); r_ = p[0]; w_ = p[1]; pb = m_fd[r_].rx; neco_setnonblock(w_, 1, 0); neco_setnonblock(r_, 1, 0);
    unsigned char j[8] = {0}; m_write(w_, j, PRE); // the connection is nearly full
#ifdef KIND
    kind = KIND;
#else
    kind = v_choose("buffered", 2);
#endif
    neco_start(drain, 0); int64_t f = neco_lastid();
#ifdef SHORT
    m_short_budget = SHORT;
#endif
    neco_start(writer, 0); wid = neco_lastid();
#ifdef CANCEL
    h_sleep(h_dur("cancel_at", STEPS * 2));
    if (!wdone) { canceled = 1; v_check(neco_cancel(wid) == NECO_OK, "cancel"); }
#endif
    neco_join(f); neco_join(wid);
}
void main_harness(void) { h_run(co_main); e_end(); }
