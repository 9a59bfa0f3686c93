// One stream used in both directions: what is read and what is written never mix.
#include "h.h"
int neco_stream_make_buffered_size(neco_stream **stream, int fd, size_t buffer_size);
#ifndef K
#define K 4
#endif
#ifndef BUF
#define BUF 2
#endif
static void co_main(int argc, void *argv[]) {
    (void)argc; (void)argv;
    int p[2]; m_socketpair(AF_UNIX, SOCK_STREAM, 0, p); neco_setnonblock(p[0], 1, 0); neco_setnonblock(p[1], 1, 0);
    struct m_buf *tx = m_fd[p[0]].tx;
    unsigned char in[8], out[K * 2 + 4], b[8]; int nout = 0, pos = 0;
    for (int i = 0; i < 8; i++) in[i] = v_byte("in");
    m_write(p[1], in, 8);
    neco_stream *s; v_check(neco_stream_make_buffered_size(&s, p[0], BUF) == NECO_OK, "make");
    for (int k = 0; k < K; k++) {
        int op = v_choose("op", 4);
        if (op == 0) { int n = 1 + v_choose("wn", 2); for (int i = 0; i < n; i++) b[i] = out[nout + i] = v_byte("out"); v_check(neco_stream_write(s, b, (size_t)n) == n, "write"); nout += n; }
        if (op == 1) { int n = 1 + v_choose("rn", 2); if (pos + n > 8) continue; v_check(neco_stream_readfull(s, b, (size_t)n) == n, "read"); for (int i = 0; i < n; i++) v_check(b[i] == in[pos + i], "read returned wrong bytes"); pos += n; }
        if (op == 2) { v_check(neco_stream_flush(s) == NECO_OK && tx->total == nout, "flush"); }
        if (op == 3 && pos) { int r = neco_stream_unread_byte(s); if (r == NECO_OK) { pos--; v_cover(1); } }
    }
    v_check(neco_stream_close(s) == NECO_OK, "close");
    ssize_t n = m_read(p[1], b, 8);
    v_check(n == (nout < 8 ? nout : 8), "bytes missing at the peer");
    for (int i = 0; i < n; i++) v_check(b[i] == out[i], "the peer received wrong bytes");
    m_close(p[1]); v_cover(2);
}
void main_harness(void) { h_run(co_main); e_end(); }
