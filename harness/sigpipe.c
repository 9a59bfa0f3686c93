// Writing to a broken pipe or connection: EPIPE, and a SIGPIPE that is ignored or reported.
#include "h.h"
#ifndef N
#define N 2
#endif
static int fds[N][2], raised, got, done;
static void writer(int argc, void *argv[]) {
    (void)argc; int me = (int)(intptr_t)argv[0];
    h_sleep(h_dur("at", 2));
    int st = v_choose("stream", 3); ssize_t r; char b[3] = "abc"; int e, le;
    raised++;
    if (st == 0) { r = neco_write(fds[me][1], b, 3); e = m_errno; le = neco_lasterr(); v_check(r == -1 && e == EPIPE && le == NECO_ERROR, "a write to a broken pipe did not report EPIPE"); m_close(fds[me][1]); }
    else {
        neco_stream *s; if (st == 1) neco_stream_make(&s, fds[me][1]); else neco_stream_make_buffered(&s, fds[me][1]);
        r = neco_stream_write(s, b, 3);
        if (st == 2) { v_check(r == 3, "buffered write"); r = neco_stream_flush(s); }
        v_check(r < 0, "a write to a broken pipe reported success");
        if (st == 2) raised++; // closing tries again
        neco_stream_close(s);
    }
    done++;
}
static void watcher(int argc, void *argv[]) {
    (void)argc; (void)argv;
    neco_setcanceltype(NECO_CANCEL_INLINE, 0);
    v_check(neco_signal_watch(SIGPIPE) == OK, "watch");
    for (;;) { int r = neco_signal_wait_dl(neco_now() + 8 * MS); if (r != SIGPIPE) { v_check(r == NECO_TIMEDOUT, "wait"); break; } got++; }
}
static void co_main(int argc, void *argv[]) {
    (void)argc; (void)argv; int w = v_choose("watched", 2);
    if (w) neco_start(watcher, 0);
    int64_t id[N];
    for (int i = 0; i < N; i++) { if (v_choose("socket", 2)) m_socketpair(AF_UNIX, SOCK_STREAM, 0, fds[i]); else m_pipe(fds[i]); m_close(fds[i][0]); neco_setnonblock(fds[i][1], 1, 0); neco_start(writer, 1, (void *)(intptr_t)i); id[i] = neco_lastid(); }
    for (int i = 0; i < N; i++) neco_join(id[i]);
    if (w) { neco_sleep(12 * MS); v_check(got == m_sigpipes, "a SIGPIPE of a write was not reported to the coroutine watching it"); }
    v_check(done == N, "a writer did not finish"); v_log(1, got); v_log(2, m_sigpipes);
}
void main_harness(void) { m_tick = 20 * US; h_run(co_main); e_end(); }
