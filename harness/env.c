// Process-wide settings: the allocator, panic on error, the cancel defaults, neco_main.
#if defined(PANIC)
#define H_EXIT
#define ENV
#include "err.c"
#elif defined(MAIN) || defined(TEXTP)
#define H_EXIT
#define H_NOLATE
#include "h.h"
#elif defined(ALLOC)
#define H_NOLATE
#include "h.h"
#include "ops.h"
#else
#define H_NOLATE
#include "h.h"
#endif

#ifdef PANIC
int neco_testcode(int errcode);
// a call that would report INVAL, PERM or NOMEM ends the program, no other result does
static int expect = -1, armed;
static int isbad(int64_t r) { int c = r == -1 ? conv(r, m_errno) : (int)r; return r < 0 && (c == NECO_INVAL || c == NECO_PERM || c == NECO_NOMEM); }
static void h_exit(int code, int aborted) {
    (void)code;
    v_check(armed && aborted, "the program was ended");
    v_check(expect, "a call that should not have panicked ended the program");
    v_cover(1); e_end();
}
static void twice(void) {
    int64_t r = fcall(f, bad);
    if (r == NONE) e_end();
    expect = f == F_GAI ? r == EAI_SYSTEM && m_errno == EPERM : isbad(r);
    neco_env_setpaniconerror(1); armed = 1;
    r = fcall(f, bad);
    v_check(!expect, "a qualifying error did not end the program");
    v_check(!isbad(r), "a qualifying error was returned");
    v_cover(2); neco_env_setpaniconerror(0); armed = 0;
}
static void co_bad(int argc, void *argv[]) { (void)argc; (void)argv; setup(); twice(); e_end(); }
static void co_good(int argc, void *argv[]) {
    (void)argc; (void)argv; setup();
    if (f == F_GYIELD) e_end(); // not allowed here
    neco_env_setpaniconerror(1); armed = 1; expect = 0;
    int64_t r = fcall(f, 0); v_check(r != NONE && !isbad(r), "a qualifying error was returned"); v_cover(3);
    neco_env_setpaniconerror(0); e_end();
}
static void co_code(int argc, void *argv[]) {
    (void)argc; (void)argv; int c = -v_choose("code", 30); m_errno = 77;
    if (c == -1) { m_errno = (int[]){EINVAL, EPERM, ENOMEM, EIO}[v_choose("errno", 4)]; }
    int eff = c == -1 ? conv(c, m_errno) : c;
    expect = eff == NECO_INVAL || eff == NECO_PERM || eff == NECO_NOMEM;
    neco_env_setpaniconerror(1); armed = 1;
    int r = neco_testcode(c); v_check(!expect, "a qualifying error did not end the program"); v_check(r == c && neco_lasterr() == eff, "test code"); v_cover(4);
    e_end();
}
static void env_main(void) {
    m_late = 0;
    int how = v_choose("how", 4); f = v_choose("function", NF);
    if (how == 0) { bad = 1 + v_choose("bad", 4); neco_start(co_bad, 0); }
    else if (how == 1) { if (f == F_START || f == F_STARTV) e_end(); m_pipe(fd); ch = (void *)obuf; ch2 = ch; gen = (void *)obuf; st = raw = (void *)obuf; twice(); }
    else if (how == 2) neco_start(co_good, 0);
    else { if (f) e_end(); neco_start(co_code, 0); }
}
#endif

#ifdef ALLOC
// every block the library allocates comes from the given functions and goes back to them once
#define NB 256
static struct { void *p; size_t n; int live; } blk[NB]; static int nb, live_;
static void *a_malloc(size_t n) { if (nb >= NB) e_kill(); char *p = e_malloc(n + 16); blk[nb].p = p + 16; blk[nb].n = n; blk[nb].live = 1; nb++; live_++; return p + 16; }
static int a_find(void *p) { for (int i = 0; i < nb; i++) if (blk[i].live && blk[i].p == p) return i; v_fail("a block was given to the allocator that it did not make, or twice"); return 0; }
static void a_free(void *p) { if (!p) return; int i = a_find(p); blk[i].live = 0; live_--; e_free((char *)p - 16); }
static void *a_realloc(void *p, size_t n) { if (!p) return a_malloc(n); int i = a_find(p); void *q = a_malloc(n); __builtin_memcpy(q, p, blk[i].n < n ? blk[i].n : n); a_free(p); return q; }
int neco_pipe(int pipefd[2]);
static void wk(void *u) { *(int *)u = 1; }
static void many(int argc, void *argv[]) { (void)argc; (void)argv; }
static void co_main(int argc, void *argv[]) {
    (void)argc; (void)argv; neco_setcanceltype(NECO_CANCEL_INLINE, 0);
    int what = v_choose("what", 9); 
    switch (what) {
    case 0: op = v_choose("op", NOPS); ops_setup(); if (op == SIGWAIT) neco_signal_watch(SIGUSR1); call(neco_now() + MS);
        if (op != CANCEL_) neco_cancel(other); neco_cancel(genid); neco_gen_release(gen); neco_chan_release(ch); neco_chan_release(full); if (st) neco_stream_close(st); if (bst) neco_stream_close(bst); if (op == CANCEL_) { neco_resume(other); } break;
    case 1: { int x = 0; neco_work(0, wk, &x); neco_work(-1, wk, &x); v_check(x == 1, "work"); break; }
    case 2: { struct addrinfo *ai = 0; v_check(neco_getaddrinfo("h", "1", 0, &ai) == 0, "resolve"); freeaddrinfo(ai); break; }
    case 3: { int p[2]; v_check(neco_pipe(p) == 0, "pipe"); m_close(p[0]); m_close(p[1]); break; }
    case 4: { void *v[12] = {0}; for (int n = 0; n < 12; n++) neco_startv(many, n, v); break; }
    case 5: { neco_chan *c[10]; for (int i = 0; i < 10; i++) neco_chan_make(&c[i], 1 + (size_t)i * 40, (size_t)i); neco_chan_tryselectv(10, c); neco_chan_selectv_dl(10, c, neco_now() + MS); for (int i = 0; i < 10; i++) neco_chan_release(c[i]); break; }
    case 6: { int p[2]; m_pipe(p); neco_setnonblock(p[0], 1, 0); neco_setnonblock(p[1], 1, 0); neco_stream *s, *t; neco_stream_make_buffered(&s, p[0]); neco_stream_make_buffered(&t, p[1]); char b[8] = "abc"; neco_stream_write(t, b, 3); neco_stream_flush(t); neco_stream_readfull(s, b, 3); neco_stream_close(s); neco_stream_close(t); break; }
    case 7: { int fd = neco_dial("tcp", "h:1"); if (fd >= 0) m_close(fd); fd = neco_serve("unix", "/q"); if (fd >= 0) m_close(fd); break; }
    case 8: { neco_rand(&what, 4, NECO_CSPRNG); neco_signal_watch(SIGUSR1); neco_signal_unwatch(SIGUSR1); break; }
    }
    v_check(live_ > 0, "the allocator is not used"); v_cover(1 + what);
}
static void env_main(void) {
    neco_env_setallocator(a_malloc, a_realloc, a_free);
    m_late = 0; m_conn_policy = 0; m_tick = 10 * US;
    int n0 = m_nmallocs;
    v_check(neco_start(co_main, 0) == OK, "start");
    for (int k = 0; k < 50; k++) { int busy = 0; for (int i = 1; i < m_nth; i++) if (m_th[i].st != TH_DONE) busy = 1; if (!busy) break; m_sched_yield(); }
    v_check(m_nmallocs == n0, "memory was taken from the system although an allocator was set");
    v_check(live_ == 0, "a block was not given back to the allocator");
    e_end();
}
#endif

#ifdef DEFAULTS
// coroutines start with the cancel state and type that are set, whichever way they start
static int S0, T0, seen; static neco_gen *g;
static void look(int argc, void *argv[]) {
    (void)argc; (void)argv; int s = -1, t = -1;
    v_check(neco_setcancelstate(S0 == NECO_CANCEL_ENABLE ? NECO_CANCEL_DISABLE : NECO_CANCEL_ENABLE, &s) == OK, "state");
    v_check(neco_setcanceltype(T0 == NECO_CANCEL_ASYNC ? NECO_CANCEL_INLINE : NECO_CANCEL_ASYNC, &t) == OK, "type");
    v_check(s == S0, "a coroutine did not start with the set cancel state"); v_check(t == T0, "a coroutine did not start with the set cancel type"); seen++;
}
static void victim(int argc, void *argv[]) {
    (void)argc; (void)argv; int r = neco_sleep(2 * MS); 
    v_check(T0 == NECO_CANCEL_INLINE || S0 == NECO_CANCEL_DISABLE, "ran on after an asynchronous cancelation");
    v_check(r == (S0 == NECO_CANCEL_DISABLE ? OK : NECO_CANCELED), "the set cancel state was not used"); seen++;
}
static void canceler(int argc, void *argv[]) { (void)argc; neco_cancel(*(int64_t *)argv[0]); seen += 10; }
static void co_main(int argc, void *argv[]) {
    look(argc, argv); if (seen != 1) v_fail("look");
    int k = 0; void *v[9] = {0};
    neco_start(look, 0); k++; v_check(seen == 1 + k, "start");
    for (int i = 0; i < 3; i++) { neco_startv(look, 3 * i, v); k++; v_check(seen == 1 + k, "start"); } // from the pool
    v_check(neco_gen_start(&g, 4, look, 0) == OK, "gen"); int x; v_check(neco_gen_next(g, &x) == NECO_CLOSED, "gen"); neco_gen_release(g); k++; v_check(seen == 1 + k, "generator");
    neco_start(victim, 0); int64_t id = neco_lastid(); neco_start(canceler, 1, &id); 
    neco_setcancelstate(NECO_CANCEL_DISABLE, 0); neco_join(id); neco_sleep(MS);
    v_check(seen == 1 + k + 10 + !(S0 == NECO_CANCEL_ENABLE && T0 == NECO_CANCEL_ASYNC), "cancel");
    v_cover(1 + (S0 == NECO_CANCEL_ENABLE) * 2 + (T0 == NECO_CANCEL_ASYNC));
}
static void env_main(void) {
    S0 = NECO_CANCEL_ENABLE; T0 = NECO_CANCEL_ASYNC; // as documented
    if (v_choose("set", 2)) { S0 = v_choose("state", 2) ? NECO_CANCEL_ENABLE : NECO_CANCEL_DISABLE; T0 = v_choose("type", 2) ? NECO_CANCEL_ASYNC : NECO_CANCEL_INLINE; neco_env_setcancelstate(S0); neco_env_setcanceltype(T0); }
    m_late = 0; v_check(neco_start(co_main, 0) == OK, "start"); e_end();
}
#endif

#ifdef MAIN
#define main user_main
static int want, mode, ended, argc0, wrote; static char *av[3]; static int64_t t_end;
static void h_exit(int code, int aborted) {
    if (mode == 3) { v_check(aborted && ended == 0, "a panic did not abort"); v_cover(3); e_end(); }
    v_check(!aborted && ended == 1, "the program was ended early");
    v_check((code & 255) == (want & 255), "the exit status is not what neco_main returned");
    v_check(m_flushed, "what the program wrote to its buffered streams was lost");
    v_check(m_now() - t_end < MS, "the program did not end when neco_main returned");
    v_cover(1); e_end();
}
static void done(void *u) { (void)u; v_check(!ended, "cleanup"); }
static void other(int argc, void *argv[]) { (void)argc; (void)argv; if (mode == 1) for (;;) neco_sleep(MS); else neco_suspend(); }
static neco_chan *never;
int neco_main(int argc, char *argv[]) {
    v_check(argc == argc0 && argv == av, "arguments of neco_main");
    v_check(neco_getid() > 0 && neco_is_main_thread(), "neco_main does not run in a coroutine of the main thread");
    mode = v_choose("mode", 4); want = v_int("code", -1, 255);
    if (mode) neco_start(other, 0);
    neco_sleep(MS);
    if (mode == 2) { neco_cleanup_push(done, 0); neco_yield(); neco_cleanup_pop(1); }
    if (mode == 3) { m_flushed = 0; neco_mutex_lock(0); v_fail("neco_main does not panic on misuse"); }
    m_flushed = 0; ended = 1; t_end = m_now();
    return want;
}
static void env_main(void) { m_late = 0; argc0 = v_choose("argc", 3); user_main(argc0, av); v_fail("main returned although the program was to end"); }
#endif

#ifdef TEXTP
static void h_exit(int code, int aborted) { (void)code; v_check(aborted, "a panic did not abort the program"); v_cover(1); e_end(); }
static void co_p(int argc, void *argv[]) { (void)argc; (void)argv; neco_panic("x %d", 5); v_fail("ran on after a panic"); }
static void env_main(void) { if (v_choose("outside", 2)) { neco_panic("y"); v_fail("ran on after a panic"); } neco_start(co_p, 0); v_fail("ran on after a panic"); }
#endif
#ifdef PANIC
#undef main_harness
#endif
void main_harness(void) { env_main(); }
