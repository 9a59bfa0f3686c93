// A table of every blocking operation, called on an object that never gets ready.
static neco_chan *ch, *full; static neco_mutex mu; static neco_cond cv; static neco_waitgroup wg; static neco_gen *gen;
static neco_stream *st, *bst; static int rfd, wfd, wfull, lfd; static int64_t other;
static void idle(int argc, void *argv[]) { (void)argc; (void)argv; neco_suspend(); }
static void genco(int argc, void *argv[]) { (void)argc; (void)argv; neco_suspend(); }
static int op; 
enum { RECV, SEND, SELECT, SELECTV, LOCK, RDLOCK, COND, WG, JOIN, SUSPEND, SLEEP, WAITR, WAITW, READ, WRITE, ACCEPT, SIGWAIT, GEN, SREAD, SREADB, SREADFULL, SREADBYTE, SWRITE, SFLUSH, CANCEL_, CONNECT, NOPS };
static int64_t call(int64_t dl) {
    char b[4] = {0}; int x = 0; neco_chan *v[2] = {ch, ch};
    (void)v; struct sockaddr_un un = {.sun_family = AF_UNIX, .sun_path = "/x"};
    switch (op) {
    case RECV: return neco_chan_recv_dl(ch, &x, dl);
    case SEND: return neco_chan_send_dl(full, &x, dl);
    case SELECT: return neco_chan_select_dl(dl, 1, ch);
    case SELECTV: return neco_chan_selectv_dl(1, v, dl);
    case LOCK: return neco_mutex_lock_dl(&mu, dl);
    case RDLOCK: return neco_mutex_rdlock_dl(&mu, dl);
    case COND: { neco_mutex m2 = NECO_MUTEX_INITIALIZER; neco_mutex_trylock(&m2); int r = neco_cond_wait_dl(&cv, &m2, dl); v_check(neco_mutex_trylock(&m2) == NECO_BUSY, "wait returned without the mutex"); neco_mutex_unlock(&m2); return r; }
    case WG: return neco_waitgroup_wait_dl(&wg, dl);
    case JOIN: return neco_join_dl(other, dl);
    case SUSPEND: return neco_suspend_dl(dl);
    case SLEEP: { int r = neco_sleep_dl(dl); return r == NECO_OK ? NECO_TIMEDOUT : r; }
    case WAITR: return neco_wait_dl(rfd, NECO_WAIT_READ, dl);
    case WAITW: return neco_wait_dl(wfull, NECO_WAIT_WRITE, dl);
    case READ: return neco_read_dl(rfd, b, 4, dl);
    case WRITE: return neco_write_dl(wfull, b, 4, dl);
    case ACCEPT: return neco_accept_dl(lfd, 0, 0, dl);
    case SIGWAIT: return neco_signal_wait_dl(dl);
    case GEN: return neco_gen_next_dl(gen, &x, dl);
    case SREAD: return neco_stream_read_dl(st, b, 4, dl);
    case SREADB: return neco_stream_read_dl(bst, b, 4, dl);
    case SREADFULL: return neco_stream_readfull_dl(bst, b, 4, dl);
    case SREADBYTE: return neco_stream_read_byte_dl(bst, dl);
    case SWRITE: { neco_stream *s; neco_stream_make(&s, wfull); int64_t r = neco_stream_write_dl(s, b, 4, dl); if (r == -1) r = neco_lasterr(); neco_stream_close_dl(s, 1); wfull = -1; return r; }
    case SFLUSH: { neco_stream *s; neco_stream_make_buffered(&s, wfull); v_check(neco_stream_write(s, b, 4) == 4, "buffered write"); int64_t r = neco_stream_flush_dl(s, dl); int le = neco_lasterr(); neco_stream_close_dl(s, 1); wfull = -1; v_check(le == (int)r, "last error not set"); return r; }
    case CANCEL_: return neco_cancel_dl(other, dl);
    case CONNECT: { int s = m_socket(AF_UNIX, SOCK_STREAM, 0); neco_setnonblock(s, 1, 0); m_conn_policy = 2; int r = neco_connect_dl(s, (struct sockaddr *)&un, sizeof un, dl); int e = m_errno; m_close(s); m_errno = e; return r; }
    }
    return 0;
}
static void ops_victim(int argc, void *argv[]) { (void)argc; (void)argv; neco_setcancelstate(NECO_CANCEL_DISABLE, 0); neco_suspend(); }
static int pp[2], qq[2]; static int64_t genid;
static void ops_setup(void) {
    neco_chan_make(&ch, sizeof(int), 1); neco_chan_make(&full, sizeof(int), 0);
    neco_mutex_lock(&mu); neco_waitgroup_add(&wg, 1);
    neco_start(op == CANCEL_ ? ops_victim : idle, 0); other = neco_lastid();
    neco_gen_start(&gen, sizeof(int), genco, 0); genid = neco_lastid();
    m_pipe(pp); rfd = pp[0]; wfd = pp[1]; m_pipe(qq); wfull = qq[1];
    neco_setnonblock(rfd, 1, 0); neco_setnonblock(wfull, 1, 0);
    char junk[M_PIPECAP]; for (int i = 0; i < M_PIPECAP; i++) junk[i] = 0;
    m_write(wfull, junk, M_PIPECAP);
    lfd = m_socket(AF_UNIX, SOCK_STREAM, 0); struct sockaddr_un un = {.sun_family = AF_UNIX, .sun_path = "/l"};
    m_bind(lfd, (void *)&un, sizeof un); m_listen(lfd, 4); neco_setnonblock(lfd, 1, 0);
    if (op == SREAD) neco_stream_make(&st, rfd);
    if (op >= SREADB && op <= SREADBYTE) neco_stream_make_buffered(&bst, rfd);
}
// the object can still be used and nothing is left waiting
static void ops_after(void) {
    neco_stats s; neco_getstats(&s);
    v_check(s.senders == 0 && s.receivers == 0 && s.locked == 0 && s.waitgroupers == 0 && s.condwaiters == 0 && s.sigwaiters == 0 && s.evwaiters == 0, "an operation that gave up is still counted as waiting");
    int x = 0;
    if (op == LOCK || op == RDLOCK) { neco_mutex_unlock(&mu); v_check(neco_mutex_trylock(&mu) == NECO_OK, "mutex unusable"); }
    if (op == RECV || op == SELECT || op == SELECTV) { x = 7; v_check(neco_chan_send(ch, &x) == NECO_OK, "send"); x = 0; v_check(neco_chan_tryrecv(ch, &x) == NECO_OK && x == 7, "channel unusable"); }
    if (op == SEND) v_check(neco_chan_tryrecv(full, &x) == NECO_EMPTY, "a send that failed left its message behind");
    if (op == SLEEP) { int64_t a = neco_now(); v_check(neco_sleep(MS) == NECO_OK && m_now() - a >= MS, "sleep after a sleep"); }
    if (op == READ || op == WAITR) { char b[4]; m_write(wfd, "abcd", 4); v_check(neco_wait(rfd, NECO_WAIT_READ) == NECO_OK, "wait"); v_check(neco_read(rfd, b, 4) == 4 && b[3] == 'd', "descriptor unusable"); }
}
static void ops_teardown(void) {
    neco_resume(other); neco_resume(genid);
    neco_join(other); neco_gen_release(gen);
    if (op == SREAD) neco_stream_close(st);
    if (bst) neco_stream_close(bst);
    if (!st && !bst) m_close(pp[0]);
    m_close(pp[1]); m_close(qq[0]); if (wfull >= 0) m_close(wfull); m_close(lfd);
    neco_chan_release(ch); neco_chan_release(full);
}
