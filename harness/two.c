// Two runtimes on two threads at the same time.
#define H_NOLATE
#ifdef SIGNALS
#define H_EXIT
#endif
#include "h.h"
#ifndef DELAYS
#define DELAYS 1
#endif
#ifndef SPAN
#define SPAN 30
#endif
#ifndef SCRIPTS
#define SCRIPTS 6
#endif
static pthread_mutex_t pm = PTHREAD_MUTEX_INITIALIZER;
static int64_t ids[16]; static int nids; // guarded by pm
static void gotid(int64_t id) { m_pthread_mutex_lock(&pm); for (int i = 0; i < nids; i++) v_check(ids[i] != id, "two coroutines have the same identifier"); ids[nids++] = id; m_pthread_mutex_unlock(&pm); }
int neco_pipe(int pipefd[2]);
static struct side { int script, ok, me, wdone, wthread; neco_chan *ch; neco_mutex mu; neco_waitgroup wg; neco_cond cv; neco_gen *gen; neco_stream *st; int64_t id; unsigned char rnd[8]; } S[2];
static int pub, seen; // S[0]'s objects are made; S[1] is done with them (guarded by pm)
static int get(int *p) { m_pthread_mutex_lock(&pm); int v = *p; m_pthread_mutex_unlock(&pm); return v; }
static void set(int *p) { m_pthread_mutex_lock(&pm); *p = 1; m_pthread_mutex_unlock(&pm); }
static void peer(int argc, void *argv[]) {
    (void)argc; struct side *s = argv[0]; gotid(neco_getid());
    int x = 40 + s->me; 
    v_check(neco_chan_make(0, 0, 0) == NECO_INVAL && neco_lasterr() == NECO_INVAL, "last error of this thread");
    v_check(neco_chan_send(s->ch, &x) == OK, "send");
}
static void gpeer(int argc, void *argv[]) { (void)argc; struct side *s = argv[0]; gotid(neco_getid()); for (int i = 0; i < 2; i++) { int x = s->me * 10 + i; if (neco_gen_yield(&x) != OK) break; } }
static void wk(void *u) { struct side *s = u; s->wdone++; s->wthread = e_thread_self(); m_preempt(); }
static void co(int argc, void *argv[]) {
    (void)argc; struct side *s = argv[0]; int x = 0;
    neco_setcanceltype(NECO_CANCEL_INLINE, 0);
    gotid(neco_getid());
    v_check(neco_is_main_thread() == (e_thread_self() == 0), "main thread not told apart");
    neco_stats st; neco_getstats(&st); v_check(st.coroutines == 1, "another thread's coroutines are counted");
    switch (s->script) {
    case 0:
        v_check(neco_chan_make(&s->ch, sizeof x, 0) == OK, "make"); v_check(neco_start(peer, 1, s) == OK, "start");
        v_check(neco_chan_recv(s->ch, &x) == OK && x == 40 + s->me, "message of this thread's channel"); v_check(neco_lasterr() == OK, "last error");
        neco_chan_release(s->ch); break;
    case 1: { int64_t t = m_now(); v_check(neco_sleep(MS) == OK && m_now() - t >= MS, "sleep"); break; }
    case 2: {
        int64_t old; v_check(neco_rand_setseed(1234, &old) == OK, "seed"); v_check(neco_rand(s->rnd, 4, NECO_PRNG) == OK, "rand"); neco_yield(); m_preempt();
        v_check(neco_rand(s->rnd + 4, 4, NECO_PRNG) == OK, "rand"); break; }
    case 3: {
        int p[2]; char b[4]; m_pipe(p); neco_setnonblock(p[0], 1, 0); neco_setnonblock(p[1], 1, 0);
        v_check(neco_write(p[1], "abc", 3) == 3 && neco_read(p[0], b, 4) == 3 && b[2] == 'c', "pipe"); m_close(p[0]);
        if (e_thread_self() == 0) v_check(neco_write(p[1], "abc", 3) == -1 && m_errno == EPIPE, "broken pipe");
        m_close(p[1]); break; }
    case 4: v_check(neco_work(0, wk, s) == OK && s->wdone == 1 && s->wthread != e_thread_self(), "work"); break;
    case 5:
        v_check(neco_gen_start(&s->gen, sizeof x, gpeer, 1, s) == OK, "gen"); v_check(neco_gen_next(s->gen, &x) == OK && x == s->me * 10, "value"); v_check(neco_gen_next(s->gen, &x) == OK && x == s->me * 10 + 1, "value");
        v_check(neco_gen_next(s->gen, &x) == NECO_CLOSED && neco_lasterr() == NECO_CLOSED, "end"); neco_gen_release(s->gen); break;
    case 6: { struct addrinfo *ai; v_check(neco_getaddrinfo("h", "1", 0, &ai) == 0, "resolve"); freeaddrinfo(ai); break; }
    case 7: {
        int p[2]; char b[4]; v_check(neco_pipe(p) == 0, "the pipe failed");
        for (int d = 0; d < 2; d++) { b[0] = (char)(s->me + 1); v_check(neco_write(p[d], b, 1) == 1 && neco_read(p[1 - d], b, 4) == 1 && b[0] == s->me + 1, "the pipe leads elsewhere"); }
        m_close(p[0]); v_check(neco_read(p[1], b, 4) == 0, "the pipe leads elsewhere"); m_close(p[1]); neco_yield(); break; }
    }
    neco_getstats(&st); v_check(st.coroutines == 1 && st.receivers == 0 && st.sleepers == 0 && st.evwaiters == 0, "statistics of this thread");
    s->ok = 1;
}
static void waiter(int argc, void *argv[]) { (void)argc; (void)argv; gotid(neco_getid()); S[0].id = neco_getid(); v_check(neco_suspend() == OK, "a suspended coroutine was disturbed by another thread"); }
// the owner of the objects
static void owner(int argc, void *argv[]) {
    (void)argc; struct side *s = argv[0]; int x = 5, p[2];
    neco_setcanceltype(NECO_CANCEL_INLINE, 0);
    neco_chan_make(&s->ch, sizeof x, 2); neco_chan_send(s->ch, &x); neco_mutex_init(&s->mu); neco_waitgroup_init(&s->wg); neco_waitgroup_add(&s->wg, 1); neco_cond_init(&s->cv);
    m_pipe(p); neco_stream_make_buffered(&s->st, p[0]); neco_setnonblock(p[0], 1, 0); m_write(p[1], "q", 1);
    v_check(neco_gen_start(&s->gen, sizeof x, gpeer, 1, s) == OK, "gen"); gotid(neco_getid());
    neco_start(waiter, 0);
    set(&pub); while (!get(&seen)) neco_sleep(MS);
    x = 0; v_check(neco_chan_tryrecv(s->ch, &x) == OK && x == 5 && neco_chan_tryrecv(s->ch, &x) == NECO_EMPTY, "another thread changed the channel");
    v_check(neco_mutex_trylock(&s->mu) == OK, "another thread locked the mutex"); neco_mutex_unlock(&s->mu);
    v_check(neco_waitgroup_done(&s->wg) == OK && neco_waitgroup_wait_dl(&s->wg, neco_now() + MS) == OK, "another thread changed the waitgroup");
    v_check(neco_gen_next(s->gen, &x) == OK && x == 0, "another thread took a generator's value"); while (neco_gen_next(s->gen, &x) == OK); neco_gen_release(s->gen);
    v_check(neco_stream_read_byte(s->st) == 'q', "another thread read the stream"); neco_stream_close(s->st); m_close(p[1]);
    v_check(neco_resume(s->id) == OK, "another thread resumed the coroutine");
    neco_chan_release(s->ch); s->ok = 1;
}
static void foreign(int argc, void *argv[]) {
    (void)argc; struct side *me = argv[0], *s = &S[0]; int x = 9; char b[4]; int64_t r = 0;
    neco_setcanceltype(NECO_CANCEL_INLINE, 0);
    while (!get(&pub)) neco_sleep(MS);
    int op = v_choose("op", 43), lookup = 0; neco_chan *v[1] = {s->ch}; (void)v;
    int64_t dl = neco_now() + MS;
    neco_mutex mine; neco_mutex_init(&mine); neco_mutex_lock(&mine);
    switch (op) {
    case 0: r = neco_chan_send_dl(s->ch, &x, dl); break;
    case 1: r = neco_chan_recv_dl(s->ch, &x, dl); break;
    case 2: r = neco_chan_tryrecv(s->ch, &x); break;
    case 3: r = neco_chan_close(s->ch); break;
    case 4: r = neco_chan_select_dl(dl, 1, s->ch); break;
    case 5: r = neco_chan_retain(s->ch); break;
    case 6: r = neco_chan_release(s->ch); break;
    case 7: r = neco_chan_broadcast(s->ch, &x); break;
    case 8: r = neco_mutex_lock_dl(&s->mu, dl); break;
    case 9: r = neco_mutex_rdlock_dl(&s->mu, dl); break;
    case 10: r = neco_mutex_trylock(&s->mu); break;
    case 11: r = neco_mutex_unlock(&s->mu); break;
    case 12: r = neco_mutex_tryrdlock(&s->mu); break;
    case 13: r = neco_waitgroup_add(&s->wg, 1); break;
    case 14: r = neco_waitgroup_done(&s->wg); break;
    case 15: r = neco_waitgroup_wait_dl(&s->wg, dl); break;
    case 16: r = neco_cond_signal(&s->cv); break;
    case 17: r = neco_cond_broadcast(&s->cv); break;
    case 18: r = neco_cond_wait_dl(&s->cv, &mine, dl); break;
    case 19: r = neco_gen_next_dl(s->gen, &x, dl); break;
    case 20: r = neco_gen_release(s->gen); break;
    case 21: r = neco_stream_read_dl(s->st, b, 1, dl); break;
    case 22: r = neco_stream_read_byte_dl(s->st, dl); break;
    case 23: r = neco_stream_close_dl(s->st, dl); break;
    case 24: r = neco_cancel_dl(s->id, dl); v_check(r == NECO_NOTFOUND, "canceling another thread's coroutine"); lookup = 1; break;
    case 25: r = neco_resume(s->id); v_check(r == NECO_NOTFOUND, "resuming another thread's coroutine"); lookup = 1; break;
    case 26: r = neco_join_dl(s->id, dl); v_check(r == OK, "joining another thread's coroutine"); lookup = 1; break;
    }
    if (op >= 27) switch (op) {
    case 27: r = neco_chan_case(s->ch, &x); break;
    case 28: r = neco_chan_selectv_dl(1, v, dl); break;
    case 29: r = neco_chan_tryselect(1, s->ch); break;
    case 30: r = neco_chan_tryselectv(1, v); break;
    case 31: e_end();
    case 32: e_end();
    case 33: e_end();
    case 34: r = neco_gen_retain(s->gen); break;
    case 35: r = neco_gen_close(s->gen); break;
    case 36: e_end();
    case 37: r = neco_stream_write_dl(s->st, b, 1, dl); break;
    case 38: r = neco_stream_readfull_dl(s->st, b, 1, dl); break;
    case 39: r = neco_stream_unread_byte(s->st); break;
    case 40: r = neco_stream_flush_dl(s->st, dl); break;
    case 41: r = neco_stream_buffered_read_size(s->st); break;
    case 42: r = neco_stream_buffered_write_size(s->st); break;
    }
    if (!lookup) v_check(r == NECO_PERM || (r == -1 && m_errno == EPERM), "an object of another thread's runtime was not refused");
    if (!lookup) v_check(neco_lasterr() == NECO_PERM, "last error");
    v_log(op, r);
    set(&seen); me->ok = 1;
}
#ifdef SIGNALS
// a signal that strikes the other thread is reported to, or handled as by, the main runtime
static int sigs, started;
static void sigco(int argc, void *argv[]) {
    (void)argc; struct side *s = argv[0];
    neco_setcanceltype(NECO_CANCEL_INLINE, 0);
    int w = v_choose("watch", 2); if (w) { v_check(neco_signal_watch(SIGUSR1) == OK, "watch"); v_check(neco_signal_watch(SIGPIPE) == OK, "watch"); }
    set(&pub);
    if (w) { int want = get(&sigs); (void)want; int r = neco_signal_wait_dl(neco_now() + 20 * MS); v_check(r == SIGUSR1 || r == SIGPIPE, "a watched signal that arrived on another thread was not reported"); s->id = r; }
    else { while (!get(&seen)) neco_sleep(MS); neco_sleep(MS); }
    s->ok = 1;
}
static int expect_exit;
static void other(int argc, void *argv[]) {
    (void)argc; struct side *s = argv[0];
    v_check(neco_signal_watch(SIGUSR1) == NECO_PERM && neco_signal_wait() == NECO_PERM, "signals can be watched on another thread than the main one");
    while (!get(&pub)) neco_sleep(MS);
    int sg = v_choose("signal", 2) ? SIGPIPE : SIGUSR1; S[1].id = sg;
    m_sigsync(sg); set(&seen); s->ok = 1;
}
#endif
static void *thr(void *a) {
    struct side *s = a;
    void (*f)(int, void **) = co;
#ifdef FOREIGN
    f = s->me ? foreign : owner;
#elif defined(SIGNALS)
    f = s->me ? other : sigco;
    if (s->me && v_choose("plain", 2)) { // a thread without a runtime
        while (!get(&pub)) m_sched_yield();
        S[1].id = v_choose("signal", 2) ? SIGPIPE : SIGUSR1; m_sigsync((int)S[1].id); set(&seen); s->ok = 1; return 0;
    }
#endif
    v_check(neco_start(f, 1, s) == OK, "start");
    return 0;
}
#ifdef SIGNALS
static void h_exit(int code, int aborted) { (void)aborted; v_check(code == 128 + SIGUSR1 && S[1].id == SIGUSR1 && !S[0].ok, "the program was ended"); e_end(); }
#endif
void main_harness(void) {
    S[0].me = 0; S[1].me = 1;
#ifdef PIPE
    S[0].script = S[1].script = 7; m_conn_policy = 0;
#elif !defined(FOREIGN) && !defined(SIGNALS)
    S[0].script = v_choose("script", SCRIPTS); S[1].script = v_choose("script", SCRIPTS);
#endif
    m_ndelay = DELAYS; m_delay_span = SPAN; m_spinT = 200 * US; m_nokill = 1; m_tick = 1 * US;
#ifndef NORACE
    e_raceon();
#endif
    uint64_t live0 = e_live(); int fds0 = m_open_fds();
    pthread_t t0, t1; int both = 0;
#if !defined(SIGNALS)
    both = v_choose("both", 2);
#endif
    v_check(m_pthread_create(&t1, 0, thr, &S[1]) == 0, "thread");
    if (both) { v_check(m_pthread_create(&t0, 0, thr, &S[0]) == 0, "thread"); m_pthread_join(t0, 0); }
    else thr(&S[0]);
    m_pthread_join(t1, 0);
    for (int k = 0; k < 30; k++) { int busy = 0; for (int i = 1; i < m_nth; i++) if (m_th[i].st != TH_DONE) busy = 1; if (!busy) break; m_sched_yield(); }
    v_check(S[0].ok && S[1].ok, "a runtime ended early");
    if (S[0].script == 2 && S[1].script == 2) for (int i = 0; i < 8; i++) v_check(S[0].rnd[i] == S[1].rnd[i], "the other thread changed the random sequence");
    v_check(m_open_fds() == fds0, "file descriptor leaked");
    m_check_clean(live0);
    e_end();
}
