// One memory or stack allocation fails, at any point of any operation that allocates: the
// operation reports it or works all the same, nothing is damaged, and a retry succeeds.
#include "h.h"
#ifndef K
#define K 1
#endif
extern int neco_stream_make_buffered_size(neco_stream **stream, int fd, size_t buffer_size);
enum { START, STARTARGS, CHAN, ZCHAN, ZMANY, GEN, GENARGS, STREAM, BUFRW, BUFWR, BUFBYTE, SELECT, GAI, DIAL, SERVE, WAITFD, WORK, SIGNAL, NOPS };
static int ran;
static void child(int argc, void *argv[]) {
    for (int i = 0; i < argc; i++) v_check(argv[i] == (void *)(intptr_t)(i + 1), "wrong argument");
    ran++;
    neco_yield();
    ran++;
}
static void genco(int argc, void *argv[]) {
    for (int i = 0; i < argc; i++) v_check(argv[i] == (void *)(intptr_t)(i + 1), "wrong argument");
    int x = 41; v_check(neco_gen_yield(&x) == NECO_OK, "yield");
}
static void w(void *arg) { ++*(int *)arg; }
#define A6 (void *)1, (void *)2, (void *)3, (void *)4, (void *)5, (void *)6
// returns OK when everything worked, or the first failure
static int run_op(int op) {
    int r = 0; ssize_t n;
    switch (op) {
    case START: case STARTARGS: {
        ran = 0;
        int64_t before = neco_lastid();
        r = op == START ? neco_start(child, 0) : neco_start(child, 6, A6);
        if (r) { v_check(!ran, "a coroutine that was reported as failed did run"); v_check(neco_lastid() == before, "failed start changed the last id"); return r; }
        v_check(ran == 1, "coroutine not started");
        v_check(neco_join(neco_lastid()) == NECO_OK && ran == 2, "join");
        return 0; }
    case CHAN: case ZCHAN: {
        neco_chan *c = 0; int x = 5;
        r = neco_chan_make(&c, op == CHAN ? 4 : 0, 2);
        if (r) return r;
        v_check(neco_chan_send(c, &x) == NECO_OK, "send"); x = 0;
        v_check(neco_chan_recv(c, &x) == NECO_OK && x == (op == CHAN ? 5 : 0), "recv");
        v_check(neco_chan_release(c) == NECO_OK, "release");
        return 0; }
    case ZMANY: {
        neco_chan *c[18]; int m = 0;
        for (; m < 18; m++) if ((r = neco_chan_make(&c[m], 0, 0))) break;
        for (int i = 0; i < m; i++) v_check(neco_chan_release(c[i]) == NECO_OK, "release");
        return r; }
    case GEN: case GENARGS: {
        neco_gen *g = 0; int x = 0;
        r = op == GEN ? neco_gen_start(&g, sizeof x, genco, 0) : neco_gen_start(&g, sizeof x, genco, 6, A6);
        if (r) return r;
        v_check(neco_gen_next(g, &x) == NECO_OK && x == 41, "next");
        v_check(neco_gen_next(g, &x) == NECO_CLOSED, "next at the end");
        v_check(neco_gen_release(g) == NECO_OK, "release");
        return 0; }
    case STREAM: case BUFRW: case BUFWR: case BUFBYTE: {
        int sp[2]; m_socketpair(AF_UNIX, SOCK_STREAM, 0, sp); neco_setnonblock(sp[0], 1, 0);
        neco_stream *s = 0; char b[4] = {0}, c[4] = {0};
        r = op == STREAM ? neco_stream_make(&s, sp[0]) : neco_stream_make_buffered_size(&s, sp[0], 4);
        if (r) { m_close(sp[0]); m_close(sp[1]); return r; }
        m_write(sp[1], "abc", 3);
        for (int i = 0; i < 2 && !r; i++) {
            if ((i == 0) == (op == BUFRW || op == BUFBYTE)) {
                n = op == BUFBYTE ? neco_stream_read_byte(s) : neco_stream_read(s, b, 3);
                if (n < 0) { r = n == -1 ? neco_lasterr() : (int)n; v_check(neco_lasterr() == r, "last error"); }
                else v_check(op == BUFBYTE ? n == 'a' : n == 3 && b[0] == 'a' && b[2] == 'c', "read");
            } else {
                n = neco_stream_write(s, "xy", 2);
                if (n < 0) { r = n == -1 ? neco_lasterr() : (int)n; v_check(neco_lasterr() == r, "last error"); }
                else { v_check(n == 2, "write"); v_check(neco_stream_flush(s) == NECO_OK, "flush"); m_fd[sp[1]].nonblock = 1; v_check(m_read(sp[1], c, 4) == 2 && c[0] == 'x' && c[1] == 'y', "data written"); }
            }
        }
        v_check(neco_stream_close(s) == NECO_OK, "close");
        m_close(sp[1]);
        return r; }
    case SELECT: {
        neco_chan *v[10], *c0, *c1; int x = 9;
        int sv = m_oom_budget; m_oom_budget = 0;
        neco_chan_make(&c0, 4, 1); neco_chan_make(&c1, 4, 1); neco_chan_send(c1, &x);
        for (int i = 0; i < 10; i++) v[i] = i == 7 ? c1 : c0;
        m_oom_budget = sv;
        int i = neco_chan_selectv(10, v);
        if (i < 0) r = i;
        else { x = 0; v_check(i == 7 && neco_chan_case(c1, &x) == NECO_OK && x == 9, "select"); }
        v_check(neco_chan_release(c0) == NECO_OK && neco_chan_release(c1) == NECO_OK, "release");
        return r; }
    case GAI: {
        struct addrinfo *ai = 0, hints = {.ai_family = AF_INET};
        r = neco_getaddrinfo("host.name", "80", &hints, &ai);
        if (r) { v_check(!ai, "result list with an error"); return r == EAI_MEMORY || (r == EAI_SYSTEM && (m_errno == ENOMEM || neco_lasterr() == NECO_NOMEM)) ? NECO_NOMEM : NECO_ERROR; }
        v_check(ai && !ai->ai_next, "result list"); m_freeaddrinfo(ai);
        return 0; }
    case DIAL: case SERVE: {
        int l = -1; 
        if (op == DIAL) { l = m_socket(AF_INET, SOCK_STREAM, 0); unsigned char a[16] = {AF_INET, 0, 1}; m_bind(l, (void *)a, 16); m_listen(l, 4); }
        int fd = op == DIAL ? neco_dial("tcp", "host.name:80") : neco_serve("tcp", "host.name:80");
        if (fd < 0) { r = fd == -1 ? neco_lasterr() : fd; if (r == NECO_GAIERROR && neco_gai_lasterr() == EAI_MEMORY) r = NECO_NOMEM; if (r == NECO_ERROR && m_errno == ENOMEM) r = NECO_NOMEM; }
        else m_close(fd);
        if (op == DIAL) m_close(l);
        return r; }
    case WAITFD: {
        int p[2]; m_pipe(p); m_write(p[1], "a", 1); r = neco_wait(p[0], NECO_WAIT_READ); m_close(p[0]); m_close(p[1]); return r; }
    case WORK: { int x = 0; r = neco_work(-1, w, &x); v_check(x == (r == NECO_OK), "work"); return r; }
    case SIGNAL: { r = neco_signal_watch(SIGUSR1); if (r) return r; m_raise(SIGUSR1); m_deliver(); r = neco_signal_wait(); neco_signal_unwatch(SIGUSR1); return r == SIGUSR1 ? 0 : r; }
    }
    return 0;
}
static int ops[K];
static void co_main(int argc, void *argv[]) {
    (void)argc; (void)argv;
    int base = m_open_fds(), gai0 = m_gai_live;
    for (int k = 0; k < K; k++) {
        ops[k] = v_choose("op", NOPS);
        int o0 = m_ooms;
        m_oom_budget = 1;
        int r = run_op(ops[k]);
        m_oom_budget = 0;
        v_log(10, r);
        v_check(r == NECO_OK || r == NECO_NOMEM, "an allocation failure was reported as something else");
        if (r == NECO_NOMEM) { v_check(m_ooms > o0, "out of memory reported although no allocation failed"); v_cover(2); v_cover(10 + ops[k]); }
        if (r == NECO_OK && m_ooms > o0) v_cover(3);
        v_check(run_op(ops[k]) == NECO_OK, "the operation does not work after an allocation failure");
        v_check(m_gai_live == gai0, "address list leaked");
    }
    // everything else still works
    v_check(run_op(START) == NECO_OK && run_op(CHAN) == NECO_OK, "the runtime is damaged");
    neco_sleep(MS);
    (void)base;
}
void main_harness(void) { h_run(co_main); e_end(); }
