// Dial and serve: symbolic address text, resolver results, outcomes of connecting,
// failing system calls, deadlines and cancelation.
#include "h.h"
#ifdef HOLD
#define h_dur(n, k) ((1 + v_choose(n, k)) * (int64_t)MS) // time passes in small steps here: decide at once
#endif
#ifndef L
#define L 4
#endif
#ifndef STEPS
#define STEPS 2
#endif
static int lfd[2], r = 77, le, e, done_, canceled, fired, serve, net, nn0, fb0, n0; static int64_t d = INT64_MAX, t0, t1, tc; static char addr[200]; static int ncan;
static const char *nets[] = {"tcp", "tcp4", "tcp6", "unix", "udp", ""};
static void user(int argc, void *argv[]) {
    (void)argc; (void)argv;
    t0 = m_now(); errno = 0;
    const char *n = net < 6 ? nets[net] : 0;
    r = serve ? (d == INT64_MAX ? neco_serve(n, addr) : neco_serve_dl(n, addr, d)) : d == INT64_MAX ? neco_dial(n, addr) : neco_dial_dl(n, addr, d);
    e = errno; le = neco_lasterr(); t1 = m_now(); done_ = 1;
    v_log(1, r); v_log(2, m_nconn);
    m_fderr_budget = 0;
    h_linger(1);
}
#ifdef HOLD
static void resolver(int argc, void *argv[]) { (void)argc; (void)argv; m_gai_hold = 1; h_sleep(h_dur("resolved_at", STEPS)); m_gai_go = 1; }
#endif
static void listeners(void) {
    for (int i = 0; i < 2; i++) {
        lfd[i] = m_socket(AF_INET, SOCK_STREAM, 0);
        unsigned char a[16] = {0}; struct sockaddr *sa = (void *)a;
        sa->sa_family = net == 2 ? AF_INET6 : AF_INET; sa->sa_data[0] = (char)(i + 1);
        m_bind(lfd[i], sa, 16); m_listen(lfd[i], 4);
    }
}
static int streq(const char *a, const char *b, int n) { for (int i = 0; i < n; i++) if (a[i] != b[i]) return 0; return b[n] == 0; }
// what the address means
static void check_resolved(void) {
    int n = 0, colon = -1; while (addr[n]) { if (addr[n] == ':') colon = n; n++; }
    if (colon < 0) { v_check(r == NECO_INVAL && le == NECO_INVAL, "an address without a port was not refused"); v_check(m_gai_calls == 0, "malformed address was resolved"); v_cover(1); return; }
    v_check(m_gai_calls == 1, "the address was not resolved once");
    int h0 = 0, h1 = colon;
    if (addr[0] == '[' && h1 > 0 && addr[h1 - 1] == ']') { h0++; h1--; v_cover(2); }
    if (h1 <= h0) { v_check(m_strcmp(m_gai_node, net == 2 ? "::" : "0.0.0.0") == 0, "empty host"); v_cover(3); }
    else v_check(streq(addr + h0, m_gai_node, h1 - h0), "another host was resolved");
    v_check(streq(addr + colon + 1, m_gai_service, n - colon - 1), "another port was resolved");
    v_check(m_gai_family == (net == 1 ? AF_INET : net == 2 ? AF_INET6 : 0), "another address family was resolved");
    v_check(m_gai_socktype == SOCK_STREAM || (m_gai_socktype == 0 && m_gai_protocol == IPPROTO_TCP), "addresses for another kind of socket were resolved");
}
static void co_main(int argc, void *argv[]) {
    (void)argc; (void)argv;
    serve = v_choose("serve", 2);
#if defined(PARSE)
    net = v_choose("net", 3);
#ifdef LONG
    // every length of the host, with and without brackets, and of the port
    int br = v_choose("brackets", 2), len = 1 + v_choose("len", L), pl = 1 + v_choose("plen", 2) * 30, k = 0;
    if (br) addr[k++] = '['; 
    for (int i = 0; i < len; i++) addr[k++] = 'a'; 
    addr[br ? 1 : 0] = (char)v_byte("char"); addr[k - 1] = (char)v_byte("char"); v_assume(addr[br ? 1 : 0] != 0 && addr[k - 1] != 0);
    if (br) addr[k++] = ']'; 
    addr[k++] = ':'; for (int i = 0; i < pl; i++) addr[k++] = '7';
    len = 0;
#else
    int len = v_choose("len", L + 1);
#endif
    for (int i = 0; i < len; i++) { addr[i] = (char)v_byte("char"); v_assume(addr[i] != 0); 
#ifdef ALPHA
        v_assume(addr[i] == ':' || addr[i] == '[' || addr[i] == ']' || addr[i] == 'h');
#endif
    }
#elif defined(NETS)
    net = v_choose("net", 7);
    const char *a = "h:1"; for (int i = 0; i < 3; i++) addr[i] = a[i];
#elif defined(UNIX)
    net = 3;
    int len = v_choose("len", 6); len = len < 3 ? len + 1 : len + 103; // 1..3, 106..108
    for (int i = 0; i < len; i++) addr[i] = 'p';
    addr[0] = (char)v_byte("char"); addr[len - 1] = (char)v_byte("char"); v_assume(addr[0] != 0 && addr[len - 1] != 0);
    serve = 1;
#else
    net = v_choose("net6", 2) ? 2 : 0;
    const char *a = "h:1"; for (int i = 0; i < 3; i++) addr[i] = a[i];
    m_gai_n = v_choose("results", 3);
    if (m_gai_n == 0 && v_choose("gaifail", 2)) m_gai_err = EAI_NONAME;
    m_conn_policy = 3; m_longwait = 0;
#endif
#ifdef DEADLINES
    d = h_now() + h_dur("dl", STEPS);
#endif
#ifdef CANCEL
    if (v_choose("async", 2)) neco_env_setcanceltype(NECO_CANCEL_ASYNC); else neco_env_setcanceltype(NECO_CANCEL_INLINE);
#else
    neco_env_setcanceltype(NECO_CANCEL_INLINE);
#endif
    if (!serve && net < 3) listeners();
    n0 = m_open_fds(); int acc = 0;
#ifdef FDERR
    m_fderr_budget = FDERR;
#endif
    fb0 = m_fderr_budget;
#ifdef HOLD
    neco_start(resolver, 0); int64_t rid = neco_lastid();
#endif
    neco_start(user, 0); int64_t id = neco_lastid();
#ifdef CANCEL
    if (v_choose("when", 2)) h_sleep(h_dur("cancel_at", STEPS)); else neco_yield();
    int was = done_; ncan = m_nconn; tc = m_now();
    int cr = neco_cancel(id); canceled = !was; v_check(cr == NECO_OK || cr == NECO_NOTFOUND, "cancel");
    if (!was) h_sleep(MS);
    if (!was && !done_) { // ended asynchronously
        v_cover(10); v_check(m_nconn == ncan, "a canceled dial tried another address");
    }
#endif
#ifndef DEADLINES
#ifndef CANCEL
    h_sleep(3 * MS);
    if (!done_ && m_nconn && m_conn_pol[m_nconn - 1] == 4) { neco_cancel(id); canceled = 1; ncan = m_nconn; tc = m_now(); h_sleep(MS); } // never connects
#endif
#endif
    neco_join(id);
#ifdef HOLD
    neco_join(rid); h_sleep(MS);
#endif
    for (int k = 0; k < 100; k++) { int al = 0; for (int i = 1; i < m_nth; i++) al |= m_th[i].st != TH_DONE; if (!al) break; m_sched_yield(); }
    for (int i = M_FD0; i < M_MAXFD; i++) if (m_fd[i].kind == FD_LISTEN) acc += m_fd[i].nbacklog;
    int expect = n0 + acc;
    if (!done_) r = NECO_CANCELED;
    int slack = m_open_fds() - expect - (r >= 0);
    v_check(slack == 0 || slack == 1, r >= 0 ? "not exactly one descriptor was opened" : "a descriptor was left open"); // one: event queue of the runtime
    if (net > 3) { v_check(r == NECO_INVAL && le == NECO_INVAL && !m_gai_calls, "unknown network"); v_cover(4); }
    else if (net == 3) {
        int n = 0; while (addr[n]) n++;
        if (n > 107) { v_check(r == NECO_INVAL, "a path that is too long was not refused"); v_cover(5); }
#ifdef UNIX
        else {
            v_check(r >= 0, "serve failed"); 
            v_check(m_fd[r].kind == FD_LISTEN && m_fd[r].nonblock && m_nnames == 1, "not a listening non-blocking socket");
            for (int i = 0; i < n; i++) v_check(m_names[0][i] == addr[i], "another path");
            if (n < 108) v_check(m_names[0][n] == 0, "another path");
            // dial finds it
            int f = neco_dial("unix", addr); v_check(f >= 0 && f != r && m_fd[f].nonblock && m_fd[f].cs == CS_CONNECTED, "dial");
            int s = neco_accept(r, 0, 0); v_check(s >= 0, "accept"); v_check(neco_write(f, "ab", 2) == 2, "write"); char b[2]; v_check(neco_read(s, b, 2) == 2 && b[0] == 'a' && b[1] == 'b', "data");
            addr[n - 1] ^= 1; if (addr[n - 1]) { int g = neco_dial("unix", addr); v_check(g == NECO_ERROR, "dial of another path connected"); }
            m_close(f); m_close(s); v_cover(6);
        }
#endif
    } else if (done_) {
        int timed = d != INT64_MAX && r == NECO_TIMEDOUT;
        if (!timed && r != NECO_CANCELED && (fb0 == m_fderr_budget || m_gai_calls)) {
#ifdef PARSE
            check_resolved();
#endif
        }
        if (timed) { v_check(t1 > d && t1 - d < MS, "timed out at the wrong time"); v_cover(7); }
        if (r == NECO_CANCELED) { v_check(canceled && le == NECO_CANCELED && m_nconn == ncan && t1 - tc < 500 * US, "canceled"); v_cover(8); }
        if (r < 0) v_check(le == r, "last error"); else v_check(neco_gai_lasterr() == 0 && le == 0, "an error was left behind after success");
        // attempts were made in order, and the outcome is that of the last one
        int k = m_nconn; for (int i = 0; i < k; i++) v_check(fb0 ? m_conn_tgt[i] > (i ? m_conn_tgt[i - 1] : 0) : m_conn_tgt[i] == i + 1, "addresses were not tried in order");
        if (!fb0) for (int i = 0; i + 1 < k; i++) v_check(m_conn_pol[i] != 0 && m_conn_pol[i] != 1, "another address was tried after a connection");
        if (serve) {
            v_check(k == 0, "serve connected");
            if (r >= 0) { v_check(m_fd[r].kind == FD_LISTEN && m_fd[r].nonblock && m_fd[r].reuse && m_fd[r].addr[2] == 1 && m_fd[r].addrlen == 16, "not a listening non-blocking socket"); v_cover(9); }
        } else if (r >= 0) {
            v_check(k >= 1 && m_fd[r].kind == FD_SOCK && m_fd[r].nonblock && m_fd[r].cs == CS_CONNECTED, "not a connected non-blocking socket");
            v_check(m_conn_pol[k - 1] == 0 || m_conn_pol[k - 1] == 1, "not connected"); v_cover(11);
        }
#ifndef PARSE
#ifndef NETS
        if (!timed && r != NECO_CANCELED && r < 0 && fb0 == 0) {
            if (m_gai_err || !m_gai_n) { v_check(r == NECO_GAIERROR && k == 0, "failing resolver"); v_check(neco_gai_lasterr() == (m_gai_err ? m_gai_err : EAI_FAIL), "resolver error"); v_cover(12); }
            else { v_check(!serve && k == m_gai_n && r == NECO_ERROR && e == ECONNREFUSED, "dial gave up although an address was left, or without the last error"); v_cover(13); }
        }
#endif
#endif
        if (fb0 && r < 0 && !timed && r != NECO_CANCELED && r != NECO_GAIERROR && r != NECO_INVAL) v_cover(14);
#if !defined(FDERR) && !defined(DEADLINES) && !defined(CANCEL) && defined(PARSE)
        if (m_gai_calls) v_check(r >= 0, "a good address failed");
#endif
    }
    if (r >= 0) m_close(r);
    for (int i = M_FD0; i < M_MAXFD; i++) if (m_fd[i].kind == FD_LISTEN || (m_fd[i].kind == FD_SOCK)) m_close(i);
    v_check(m_gai_live == 0, "resolver result leaked");
}
void main_harness(void) { m_tick = 100; m_spinT = 20 * US; h_run(co_main); e_end(); }
