// The portable pipe: two connected non-blocking descriptors that carry bytes in both
// directions, or none; also with failing system calls and with a cancelation meanwhile.
#include "h.h"
int neco_pipe(int pipefd[2]);
static int done_, p[2] = {-7, -8}, r, e; static int64_t id, t1;
static void user(int argc, void *argv[]) {
    (void)argc; (void)argv;
    errno = 0;
    r = neco_pipe(p); e = errno; t1 = m_now();
    int st = 0; neco_setcancelstate(NECO_CANCEL_ENABLE, &st);
    v_check(st == NECO_CANCEL_ENABLE, "the cancel state was changed");
    done_ = 1;
}
#ifdef STALE
// a process that ended abruptly in the middle of a call left its socket file behind
static void co_dead(int argc, void *argv[]) { (void)argc; (void)argv; int q[2]; v_check(neco_pipe(q) == 0, "pipe"); m_close(q[0]); m_close(q[1]); }
#endif
static void co_main(int argc, void *argv[]) {
    (void)argc; (void)argv;
    int n0 = m_open_fds(), names0 = m_nnames;
#ifdef CANCEL
    neco_env_setcanceltype(v_choose("async", 2) ? NECO_CANCEL_ASYNC : NECO_CANCEL_INLINE);
#endif
    m_eintr_budget = v_choose("eintr", 2);
    neco_start(user, 0); id = neco_lastid();
#ifdef CANCEL
    int early = v_choose("early", 3);
    for (int i = 0; i < early; i++) neco_yield();
    int cr = neco_cancel(id); v_check(cr == NECO_OK || cr == NECO_NOTFOUND, "cancel");
    neco_join(id);
    if (!done_) { v_cover(4); v_check(p[0] == -7 || p[0] >= 0, "partial"); }
#else
    neco_join(id);
#endif
    m_eintr_budget = 0;
    v_log(1, r); v_log(2, p[0]); v_log(3, p[1]);
    if (p[0] == -7) { // failed
        if (done_) { v_check(r == -1 && e != 0, "failure not reported"); v_check(p[1] == -8, "descriptors were changed although it failed"); 
#if !defined(FDERR) && !defined(CANCEL) && !defined(OOM) && !defined(CONN)
        v_fail("the pipe failed without reason");
#endif
        }
        v_cover(1);
    } else {
        v_check(r == 0 || !done_, "success not reported");
        v_check(p[0] >= 0 && p[1] >= 0 && p[0] != p[1], "not two descriptors");
        v_check(m_fd[p[0]].nonblock && m_fd[p[1]].nonblock, "descriptor is not non-blocking");
        v_check(m_open_fds() <= n0 + 3, "descriptor leaked"); // the event queue of the runtime may be open
        unsigned char a[3] = {v_byte("a"), 1, 2}, b[4];
#ifdef FDERR
        m_fderr_budget = 0;
#endif
        for (int d = 0; d < 2; d++) {
            v_check(neco_write(p[d], a, 3) == 3, "write");
            v_check(neco_read(p[1 - d], b, 4) == 3 && b[0] == a[0] && b[1] == 1 && b[2] == 2, "bytes were changed, reordered or added");
            v_check(neco_read_dl(p[d], b, 4, neco_now() + MS) == -1 && neco_lasterr() == NECO_TIMEDOUT, "bytes came back");
        }
        m_close(p[0]); v_check(neco_read(p[1], b, 4) == 0, "no end of file"); m_close(p[1]);
        v_cover(2);
    }
    m_fderr_budget = 0;
    h_sleep(MS);
    // the event queue of the runtime may still be open
    v_check(m_open_fds() <= n0 + 1, "descriptor leaked");
#ifndef FDERR
    v_check(m_nnames == names0, "the socket file was left behind");
#endif
    v_check(neco_sleep(MS) == NECO_OK, "sleep");
}
void main_harness(void) {
    m_conn_policy = 0; m_tick = 20 * US; m_longwait = 1;
#ifdef CONN
    m_conn_policy = 1;
#endif
#ifdef FDERR
    m_fderr_budget = FDERR;
#endif
#ifdef STALE
    m_nounlink = 1; v_check(neco_start(co_dead, 0) == NECO_OK, "start"); m_nounlink = 0; m_pid++;
#endif
    h_run(co_main);
    e_end();
}
