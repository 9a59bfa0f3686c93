// Reading through a stream: any mix of reads against any split by the kernel.
#include "h.h"
int neco_stream_make_buffered_size(neco_stream **stream, int fd, size_t buffer_size);
#ifndef K
#define K 3
#endif
#ifndef NBYTES
#define NBYTES 5
#endif
#ifndef RMAX
#define RMAX 4
#endif
#ifndef CHUNKS
#define CHUNKS 2
#endif
#ifndef STEPS
#define STEPS 2
#endif
#ifndef BUF
#define BUF 3
#endif
#ifndef NOPS
#define NOPS 4
#endif
static int r_, w_, wclosed, canceled, kind; static unsigned char exp_[NBYTES]; static int fed; static struct m_buf *pb; static int64_t rid; static int rdone;
static void feeder(int argc, void *argv[]) {
    (void)argc; (void)argv;
    for (int c = 0; c < CHUNKS; c++) {
        int n = v_choose("chunk", NBYTES - fed + 1);
        if (c) h_sleep(h_dur("feed_at", STEPS));
        if (n) m_write(w_, exp_ + fed, (size_t)n);
        fed += n;
    }
#ifndef NOCLOSE
    wclosed = 1; m_close(w_);
#endif
}
static void reader(int argc, void *argv[]) {
    (void)argc; (void)argv;
    neco_setcanceltype(NECO_CANCEL_INLINE, 0);
    neco_stream *s = 0;
    v_check((kind == 0 ? neco_stream_make(&s, r_) : kind == 1 ? neco_stream_make_buffered_size(&s, r_, BUF) : neco_stream_make_buffered(&s, r_)) == NECO_OK && s, "stream make");
    int pos = 0, lastok = 0, seenc = 0;
#ifdef CANCEL
    if (neco_sleep_dl(h_now() + h_dur("r_at", STEPS)) == NECO_CANCELED) seenc = 1;
#endif
    for (int k = 0; k < K; k++) {
        int op = v_choose("op", NOPS);
        unsigned char b[RMAX + 1]; for (int i = 0; i <= RMAX; i++) b[i] = 0xA5;
        int64_t dl = INT64_MAX, t0 = m_now();
#ifdef DEADLINES
        if (op != 3 && v_choose("has_dl", 2)) dl = h_now() + h_dur("dl", STEPS);
#endif
        int n = op <= 1 ? 1 + v_choose("n", RMAX) : 1; ssize_t r;
        int64_t D = dl;
        switch (op) {
        case 0: r = D == INT64_MAX ? neco_stream_read(s, b, (size_t)n) : neco_stream_read_dl(s, b, (size_t)n, D); break;
        case 1: r = D == INT64_MAX ? neco_stream_readfull(s, b, (size_t)n) : neco_stream_readfull_dl(s, b, (size_t)n, D); break;
        case 2: r = D == INT64_MAX ? neco_stream_read_byte(s) : neco_stream_read_byte_dl(s, D); if (r >= 0) { v_check(r <= 255, "read_byte returned nonsense"); b[0] = (unsigned char)r; r = 1; } break;
        default: r = neco_stream_unread_byte(s); break;
        }
        int64_t now = m_now(); int err = r < 0 ? r == -1 ? neco_lasterr() : (int)r : 0;
        v_log(10 + op, r);
        if (op == 3) {
            if (r == NECO_OK) { v_check(kind != 0 && pos > 0, "unread gave back a byte that was never read"); pos--; v_cover(1); }
            else { v_check(r == NECO_UNREADFAIL, "unread"); v_check(kind == 0 || !lastok, "unread refused right after a read"); v_cover(2); }
            lastok = 0;
        } else {
            v_check(r <= n, "more bytes than asked for");
            for (int i = r > 0 ? (int)r : 0; i <= RMAX; i++) v_check(b[i] == 0xA5, "read touched memory beyond what it returned");
            if (r > 0) {
                v_check(neco_lasterr() == NECO_OK || op == 2, "last error after success");
                v_check(pos + r <= fed, "bytes invented");
                for (int i = 0; i < r; i++) v_check(b[i] == exp_[pos + i], "stream returned wrong bytes");
                pos += (int)r; lastok = !(op == 1 && r < n); v_cover(3);
                if (op == 1 && r < n) { // cut short
                    int why = (wclosed && pos == fed) || (dl != INT64_MAX && now > dl) || (canceled && !seenc);
                    v_check(why, "full read returned less without a reason"); v_cover(4);
                }
            } else {
                lastok = 0;
                v_check(r != 0, "read of at least one byte returned zero");
                v_check(neco_lasterr() == err, "last error differs from the result");
                if (err == NECO_EOF) { v_check(wclosed && pos == fed, "end of file reported while bytes are left"); v_cover(5); }
                else if (err == NECO_TIMEDOUT) { v_check(now > dl && now - dl < MS, "timed out at the wrong time"); v_cover(6); }
                else { v_check(err == NECO_CANCELED && canceled && !seenc, "unexpected stream error"); seenc = 1; v_cover(7); }
            }
        }
        if (kind == 0) v_check(neco_stream_buffered_read_size(s) == 0, "unbuffered stream buffers");
        else v_check(neco_stream_buffered_read_size(s) == pb->total - pb->n - pos, "bytes lost or duplicated by the stream");
        v_check(neco_stream_buffered_write_size(s) == 0, "nothing was written");
        (void)t0;
    }
#ifdef CANCEL
    if (canceled && !seenc) v_check(neco_sleep(MS) == NECO_CANCELED, "cancelation lost");
#endif
    rdone = 1;
    v_check(neco_stream_close(s) == NECO_OK, "close");
    v_check(m_fd[r_].kind == 0, "close did not close the descriptor");
}
static void co_main(int argc, void *argv[]) {
    (void)argc; (void)argv;
    int p[2]; m_pipe(p); r_ = p[0]; w_ = p[1]; pb = m_fd[r_].rx; neco_setnonblock(r_, 1, 0);
    for (int i = 0; i < NBYTES; i++) exp_[i] = v_byte("data");
#ifdef KIND
    kind = KIND;
#else
    kind = v_choose("buffered", 2);
#endif
    neco_start(feeder, 0); int64_t f = neco_lastid();
#ifdef EINTR_BUDGET
    m_eintr_budget = EINTR_BUDGET;
#endif
#ifdef SHORT
    m_short_budget = SHORT;
#endif
    neco_start(reader, 0); rid = neco_lastid();
#ifdef CANCEL
    h_sleep(h_dur("cancel_at", STEPS * 2));
    if (!rdone) { canceled = 1; v_check(neco_cancel(rid) == NECO_OK, "cancel"); }
#endif
#ifdef NOCLOSE
    h_sleep(3 * STEPS * MS); wclosed = 1; neco_join(f); m_close(w_);
#endif
    neco_join(f); neco_join(rid);
}
void main_harness(void) { h_run(co_main); e_end(); }
