// A writer and a reader over one connection: the kernel may split, interrupt and
// refuse transfers; either side may close, time out or be canceled.
#include "h.h"
#ifndef WK
#define WK 2
#endif
#ifndef RK
#define RK 2
#endif
#ifndef WMAX
#define WMAX 4
#endif
#ifndef RMAX
#define RMAX 3
#endif
#ifndef RMIN
#define RMIN 1
#endif
#ifndef STEPS
#define STEPS 2
#endif
#ifndef WMIN
#define WMIN 1
#endif
#define CAPS (WK * WMAX + 8)
static int r_, w_, wclosed, rclosed, canceled, target; static unsigned char exp_[CAPS]; static int nexp, pos;
static struct m_buf *pb; static int64_t cancel_t;
static void writer(int argc, void *argv[]) {
    (void)argc; (void)argv;
    neco_setcanceltype(NECO_CANCEL_INLINE, 0);
    int pendc = 0;
    for (int k = 0; k < WK; k++) {
        if (neco_sleep_dl(h_now() + h_dur("w_at", STEPS)) == NECO_CANCELED) pendc = 1;
        int n = WMIN + v_choose("wn", WMAX - WMIN + 1);
        unsigned char b[WMAX], keep[WMAX];
        for (int i = 0; i < n; i++) b[i] = keep[i] = v_byte("data");
        int64_t dl = INT64_MAX;
#ifdef DEADLINES
        if (v_choose("w_dl", 2)) dl = h_now() + h_dur("w_dl_t", STEPS);
#endif
        int before = pb->total;
        for (int i = 0; i < n && nexp + i < CAPS; i++) exp_[nexp + i] = b[i]; // visible to the reader as soon as accepted
        m_errno = 0;
        ssize_t r = dl == INT64_MAX ? neco_write(w_, b, (size_t)n) : neco_write_dl(w_, b, (size_t)n, dl);
        int err = m_errno, le = neco_lasterr(); int64_t now = m_now();
        int acc = pb->total - before;
        v_log(10, r); v_log(11, acc);
        for (int i = 0; i < n; i++) v_check(b[i] == keep[i], "the caller's data was modified");
        v_check(r == -1 || (r >= 0 && r <= n), "write returned nonsense");
        v_check((r == -1 ? 0 : (int)r) == acc, "write reported a number of bytes that differs from what was accepted");
        nexp += acc;
        if (r == n) { v_check(le == NECO_OK, "last error after success"); v_cover(1); }
        else {
            int why = 0;
            if (dl != INT64_MAX && now > dl) { why = 1; v_check(now - dl < MS, "write kept blocking after its deadline"); }
            if (canceled && target == 0 && !pendc) { why |= 2; v_check(now - cancel_t < 500 * US || cancel_t < now, "cancel"); }
            if (rclosed) why |= 4;
            v_check(why, "write gave up without a reason");
            if (r == -1) {
                if (err == ETIMEDOUT) { v_check((why & 1) && le == NECO_TIMEDOUT, "timed out without a deadline"); v_cover(2); }
                else if (err == ECANCELED) { v_check((why & 2) && le == NECO_CANCELED, "canceled without a cancel"); pendc = 1; v_cover(3); }
                else { v_check(err == EPIPE && (why & 4) && le == NECO_ERROR, "wrong error from write"); v_cover(4); }
            } else { v_check(le == NECO_PARTIALWRITE, "a partial write was not reported as such"); v_cover(5); }
            if (rclosed) break;
        }
    }
#ifdef CANCEL
    // a cancelation that came after a part was written is still reported, once
    if (canceled && target == 0 && !pendc && cancel_t < m_now()) { v_check(neco_sleep(MS) == NECO_CANCELED, "cancelation lost"); v_check(neco_sleep(MS) == NECO_OK, "canceled twice"); }
#endif
    wclosed = 1;
    m_close(w_);
}
static void reader(int argc, void *argv[]) {
    (void)argc; (void)argv;
    neco_setcanceltype(NECO_CANCEL_INLINE, 0);
    int eof = 0, seen = 0;
#ifdef LATE
    h_sleep(LATE * MS);
#endif
    for (int k = 0; k < RK && !eof; k++) {
        if (neco_sleep_dl(h_now() + h_dur("r_at", STEPS)) == NECO_CANCELED) seen = 1;
        int n = RMIN + v_choose("rn", RMAX - RMIN + 1);
        unsigned char b[RMAX + 1]; for (int i = 0; i <= RMAX; i++) b[i] = 0xA5;
        int64_t t0 = m_now(), dl = INT64_MAX;
#ifdef DEADLINES
        if (v_choose("r_dl", 2)) dl = h_now() + h_dur("r_dl_t", STEPS);
#endif
        m_errno = 0;
        ssize_t r = dl == INT64_MAX ? neco_read(r_, b, (size_t)n) : neco_read_dl(r_, b, (size_t)n, dl);
        int err = m_errno, le = neco_lasterr(); int64_t now = m_now();
        v_log(20, r);
        v_check(r >= -1 && r <= n, "read returned nonsense");
        for (int i = r > 0 ? (int)r : 0; i <= RMAX; i++) v_check(b[i] == 0xA5, "read touched memory beyond what it returned");
        if (r > 0) {
            v_check(pos + r <= CAPS, "bytes invented");
            for (int i = 0; i < r; i++) v_check(b[i] == exp_[pos + i], "read returned wrong bytes");
            pos += (int)r; v_cover(6);
        } else if (r == 0) { v_check(wclosed && pos == nexp, "end of file reported while data is left or the writer is open"); eof = 1; v_cover(7); }
        else if (err == ETIMEDOUT) { v_check(now > dl && now - dl < MS && le == NECO_TIMEDOUT, "timed out at the wrong time"); v_check(pb->n == 0 || pb->t + 500 * US > dl, "read timed out although there was data"); v_cover(8); }
        else { v_check(err == ECANCELED && le == NECO_CANCELED && canceled && target == 1 && !seen, "wrong error from read"); seen = 1; v_cover(9); }
        (void)t0;
    }
    rclosed = 1;
    m_close(r_);
}
static void co_main(int argc, void *argv[]) {
    (void)argc; (void)argv;
    int p[2]; int64_t id[2];
    if (v_choose("socket", 2)) { m_socketpair(AF_UNIX, SOCK_STREAM, 0, p); pb = m_fd[p[1]].tx; } else { m_pipe(p); pb = m_fd[p[1]].tx; }
    r_ = p[0]; w_ = p[1];
    bool ob = true; v_check(neco_setnonblock(r_, 1, &ob) == NECO_OK && !ob, "setnonblock"); v_check(neco_setnonblock(w_, 1, &ob) == NECO_OK && !ob, "setnonblock");
#ifdef EINTR_BUDGET
    m_eintr_budget = EINTR_BUDGET;
#endif
#ifdef SHORT
    m_short_budget = SHORT;
#endif
    neco_start(writer, 0); id[0] = neco_lastid();
    neco_start(reader, 0); id[1] = neco_lastid();
#ifdef CANCEL
    target = v_choose("target", 2);
    h_sleep(h_dur("cancel_at", STEPS * 2));
    int live = target ? !rclosed : !wclosed;
    cancel_t = m_now(); canceled = 1;
    v_check(neco_cancel(id[target]) == (live ? NECO_OK : NECO_NOTFOUND), "cancel");
#endif
    neco_join(id[0]); neco_join(id[1]);
}
void main_harness(void) { h_run(co_main); e_end(); }
