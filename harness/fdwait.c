// Coroutines waiting for one descriptor in both directions while readiness changes.
#include "h.h"
#ifndef N
#define N 2
#endif
#ifndef STEPS
#define STEPS 3
#endif
#ifndef EVENTS
#define EVENTS 2
#endif
#ifndef K
#define K 1
#endif
#ifndef MODES
#define MODES 2
#endif
static int sp[2], fd, other, done_; static int64_t rs = -1, ws = -1; static int victim = -1, canceled;
static int oopen = 1; static int waiting;
static void update(void) { // since when the descriptor is readable / writable
    uint32_t r = m_ready(fd);
    int rd = (r & (EPOLLIN | EPOLLHUP | EPOLLERR)) != 0, wr = (r & (EPOLLOUT | EPOLLHUP | EPOLLERR)) != 0;
    if (!rd) rs = -1; else if (rs < 0) rs = m_now();
    if (!wr) ws = -1; else if (ws < 0) ws = m_now();
}
static void waiter(int argc, void *argv[]) {
    (void)argc; int me = (int)(intptr_t)argv[0];
    neco_setcanceltype(NECO_CANCEL_INLINE, 0);
    for (int k = 0; k < K; k++) {
    h_sleep(h_dur("start", STEPS));
    int wr = v_choose("write", 2), mode = v_choose("mode", MODES);
    int64_t t0 = m_now(), dl = mode == 1 ? h_now() + h_dur("dl", STEPS) : INT64_MAX;
    waiting |= wr ? 2 : 1;
    int r = mode == 1 ? neco_wait_dl(fd, wr ? NECO_WAIT_WRITE : NECO_WAIT_READ, dl) : neco_wait(fd, wr ? NECO_WAIT_WRITE : NECO_WAIT_READ);
    int64_t now = m_now(), since = wr ? ws : rs;
    v_log(10 + me, r);
    int64_t due = since < 0 ? -1 : since > t0 ? since : t0;
    if (r == NECO_OK) { v_check(since >= 0, "wait reported ready although the descriptor is not"); v_check(now - due < MS, "waiter was woken late"); v_cover(wr ? 2 : 1); }
    else if (r == NECO_TIMEDOUT) { v_check(now > dl && now - dl < MS, "timed out at the wrong time"); v_check(due < 0 || due + 500 * US > dl, "waiter timed out although the descriptor was ready"); v_cover(3); }
    else { v_check(r == NECO_CANCELED && me == victim && canceled, "unexpected result of wait"); v_cover(4); }
    }
    
#ifdef CANCEL
    h_linger(me == 0);
#else
    h_linger(0);
#endif

    done_++;
}
static void co_main(int argc, void *argv[]) {
    (void)argc; (void)argv;
    int64_t id[N];
#if M_FD0 == 0
    int z = v_choose("zero", 2) ? m_newfile() : -1; // descriptor 0 is waited for, or free for the runtime to use
#endif
#ifdef PIPES
    int rside = v_choose("read_end", 2);
    m_pipe(sp); fd = rside ? sp[0] : sp[1]; other = rside ? sp[1] : sp[0];
    if (!rside) m_write(fd, "12345678", M_PIPECAP);
#else
    m_socketpair(AF_UNIX, SOCK_STREAM, 0, sp); fd = sp[0]; other = sp[1];
    if (v_choose("full", 2)) m_write(fd, "12345678", M_PIPECAP);
#endif
#if M_FD0 == 0
    if (z == 0) m_close(z);
#endif
    update();
    for (int i = 0; i < N; i++) { neco_start(waiter, 1, (void *)(intptr_t)i); id[i] = neco_lastid(); }
    for (int e = 0; e < EVENTS; e++) {
        h_sleep(h_dur("event_at", STEPS));
        char b[8];
#ifdef PIPES
        int a = v_choose("event", 2);
        if (!oopen) ; else if (a == 0) { if (rside) m_write(other, "x", 1); else m_read(other, b, 1); } else if (oopen) { { m_close(other); oopen = 0; } v_cover(5); }
#elif defined(CANCEL)
        int a = e ? v_choose("event", 2) : 2;
        if (a == 0) m_write(other, "x", 1); if (a == 1 && m_fd[other].rx->n) m_read(other, b, 8);
        if (a == 2) { victim = 0; canceled = 1; v_check(neco_cancel(id[0]) == NECO_OK || done_, "cancel"); }
#else
        int a = v_choose("event", 3);
        if (oopen) {
        if (a == 0) m_write(other, "x", 1);      // readable
        if (a == 1 && m_fd[other].rx->n) m_read(other, b, 8);       // writable
        if (a == 2) { { m_close(other); oopen = 0; } v_cover(5); } // hang-up: both
        }
#endif
        update();
    }
    h_sleep((STEPS * 2 + 2) * MS);
    // finally everything becomes ready: nobody may be left behind
    if (oopen) { m_close(other); oopen = 0; }
    update();
    h_sleep(22 * MS);
    v_check(done_ == N, "a waiter was left behind");
    m_close(fd);
    m_eintr_budget = 0;
    // the same descriptor number can be used for something else
    int p2[2]; m_pipe(p2); neco_setnonblock(p2[0], 1, 0);
    int64_t t0 = m_now();
    int wr_ = neco_wait_dl(p2[0], NECO_WAIT_READ, neco_now() + MS); v_log(98, p2[0]); v_log(99, wr_); v_check(wr_ == NECO_TIMEDOUT, "reused descriptor");
    m_write(p2[1], "y", 1);
    v_check(neco_wait_dl(p2[0], NECO_WAIT_READ, neco_now() + MS) == NECO_OK, "reused descriptor");
    m_close(p2[0]); m_close(p2[1]);
}
void main_harness(void) {
#ifdef EINTR_BUDGET
    m_eintr_budget = EINTR_BUDGET;
#endif
    h_run(co_main); e_end(); }
