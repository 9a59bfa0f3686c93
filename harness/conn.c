// Clients connect and a server accepts, with the kernel deciding how each connection attempt goes.
#include "h.h"
#ifndef NCL
#define NCL 2
#endif
#ifndef STEPS
#define STEPS 2
#endif
#ifndef KA
#define KA NCL
#endif
static int lfd, nok, got[NCL], okc[NCL], nacc, accepted; static int64_t cid[NCL], sid; static int victim = -1, canceled, srvdone, cdone[NCL];
static struct sockaddr_un un = {.sun_family = AF_UNIX, .sun_path = "/l"};
static void client(int argc, void *argv[]) {
    (void)argc; int me = (int)(intptr_t)argv[0];
    neco_setcanceltype(NECO_CANCEL_INLINE, 0);
    int pre = neco_sleep_dl(h_now() + h_dur("c_at", STEPS));
    int s = m_socket(AF_UNIX, SOCK_STREAM, 0); neco_setnonblock(s, 1, 0);
    int64_t dl = INT64_MAX;
#ifdef DEADLINES
    if (v_choose("c_dl", 2)) dl = h_now() + h_dur("c_dl_t", STEPS);
#endif
    m_errno = 0;
    int r = dl == INT64_MAX ? neco_connect(s, (void *)&un, sizeof un) : neco_connect_dl(s, (void *)&un, sizeof un, dl);
    int err = m_errno, le = neco_lasterr(); int64_t now = m_now();
    v_log(10 + me, r); v_log(20 + me, err);
    if (r == 0) {
        v_check(m_fd[s].cs == CS_CONNECTED, "connect reported success without a connection");
        v_check(le == NECO_OK, "last error after success");
        nok++; okc[me] = 1; v_cover(1);
        char c = (char)me;
        v_check(neco_write(s, &c, 1) == 1, "write on a new connection");
    } else {
        v_check(r == -1, "connect returned nonsense");
        if (err == ETIMEDOUT) { v_check(now > dl && now - dl < MS && le == NECO_TIMEDOUT, "connect timed out at the wrong time"); v_cover(2); }
        else if (err == ECANCELED) { v_check(canceled && victim == me && pre == NECO_OK && le == NECO_CANCELED, "connect canceled without cancel"); v_cover(3); }
        else { v_check(err == ECONNREFUSED && le == NECO_ERROR, "connect reported the wrong error"); v_check(m_fd[s].cs != CS_CONNECTED, "connect failed on an established connection"); v_cover(4); }
    }
    m_close(s); cdone[me] = 1;
}
static void server(int argc, void *argv[]) {
    (void)argc; (void)argv;
    neco_setcanceltype(NECO_CANCEL_INLINE, 0);
    int pre = neco_sleep_dl(h_now() + h_dur("s_at", STEPS)), seen = pre == NECO_CANCELED;
    for (int k = 0; k < KA; k++) {
        struct sockaddr_un a; socklen_t n = sizeof a;
        int64_t dl = INT64_MAX;
#ifdef DEADLINES
        if (v_choose("s_dl", 2)) dl = h_now() + h_dur("s_dl_t", STEPS);
#endif
        m_errno = 0;
        int f = dl == INT64_MAX ? neco_accept(lfd, (void *)&a, &n) : neco_accept_dl(lfd, (void *)&a, &n, dl);
        int err = m_errno, le = neco_lasterr(); int64_t now = m_now();
        v_log(30, f);
        if (f >= 0) {
            v_check(le == NECO_OK, "last error after success");
            v_check(m_fd[f].kind == FD_SOCK && m_fd[f].nonblock, "accept did not return a non-blocking socket");
            unsigned char c = 99; ssize_t r = neco_read(f, &c, 1);
            if (r == 1) { v_check(c < NCL && !got[c], "accept returned a connection twice"); got[c]++; v_cover(5); }
            m_close(f); accepted++;
        } else if (err == ETIMEDOUT) { v_check(now > dl && now - dl < MS && le == NECO_TIMEDOUT, "accept timed out at the wrong time"); v_cover(6); }
        else { v_check(f == -1 && err == ECANCELED && canceled && victim == -2 && !seen && le == NECO_CANCELED, "wrong error from accept"); seen = 1; v_cover(7); }
    }
    srvdone = 1;
}
static void co_main(int argc, void *argv[]) {
    (void)argc; (void)argv;
    m_conn_policy = 1;
    lfd = m_socket(AF_UNIX, SOCK_STREAM, 0); m_bind(lfd, (void *)&un, sizeof un); m_listen(lfd, 4); neco_setnonblock(lfd, 1, 0);
#ifdef EINTR_BUDGET
    m_eintr_budget = EINTR_BUDGET;
#endif
    neco_start(server, 0); sid = neco_lastid();
    for (int i = 0; i < NCL; i++) { neco_start(client, 1, (void *)(intptr_t)i); cid[i] = neco_lastid(); }
#ifdef CANCEL
    int t = v_choose("target", 2);
    h_sleep(h_dur("cancel_at", STEPS * 2));
    victim = t ? 0 : -2; canceled = 1;
    int live = t ? !cdone[0] : !srvdone;
    v_check(neco_cancel(t ? cid[0] : sid) == (live ? NECO_OK : NECO_NOTFOUND), "cancel");
#endif
    for (int i = 0; i < NCL; i++) neco_join(cid[i]);
    h_sleep((STEPS + 1) * MS);
    if (!srvdone) { // fewer connections than accepts: let the rest end
        v_check(m_fd[lfd].nbacklog == 0, "a pending connection was not accepted");
        while (!srvdone) { victim = -2; canceled = 1; int s = m_socket(AF_UNIX, SOCK_STREAM, 0); m_conn_policy = 0; m_connect(s, (void *)&un, sizeof un); h_sleep(MS); m_close(s); h_sleep(MS); }
    } else for (int i = 0; i < NCL; i++) { (void)okc; }
    m_close(lfd);
}
void main_harness(void) { h_run(co_main); e_end(); }
