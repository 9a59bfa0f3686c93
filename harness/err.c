// Every function of the API: use outside a coroutine, bad arguments, last error and errno.
#include "h.h"
#include <limits.h>
int neco_pipe(int pipefd[2]);
enum { F_START, F_STARTV, F_YIELD, F_SLEEP, F_JOIN, F_SUSPEND, F_RESUME, F_GETID, F_LASTID, F_STARTERID,
    F_CMAKE, F_CRETAIN, F_CRELEASE, F_CSEND, F_CBCAST, F_CRECV, F_CTRY, F_CCLOSE, F_CSEL, F_CSELV, F_CTRYSEL, F_CTRYSELV, F_CCASE,
    F_GSTART, F_GSTARTV, F_GRETAIN, F_GRELEASE, F_GYIELD, F_GNEXT, F_GCLOSE,
    F_MINIT, F_MLOCK, F_MTRY, F_MUNLOCK, F_MRD, F_MTRYRD,
    F_WINIT, F_WADD, F_WDONE, F_WWAIT, F_VINIT, F_VSIG, F_VBC, F_VWAIT,
    F_READ, F_WRITE, F_ACCEPT, F_CONNECT, F_GAI, F_WAIT, F_SERVE, F_DIAL, F_CANCEL, F_CTYPE, F_CSTATE, F_SEED, F_RAND,
    F_SWATCH, F_SWAIT, F_SUNWATCH, F_WORK, F_STATS, F_NOW, F_PIPE,
    F_STMAKE, F_STMAKEB, F_STCLOSE, F_STREAD, F_STWRITE, F_STFULL, F_STBYTE, F_STUNREAD, F_STFLUSH, F_STRSZ, F_STWSZ, NF };
static neco_chan *ch, *ch2; static neco_mutex mu; static neco_waitgroup wg; static neco_cond cv; static neco_gen *gen; static neco_stream *st, *raw;
static int fd[2], lfd, started, worked;
static char obuf[16];
static void co0(int argc, void *argv[]) { (void)argc; (void)argv; started++; }
static void gco(int argc, void *argv[]) { (void)argc; (void)argv; neco_suspend(); }
static void wk(void *u) { (void)u; worked++; }
static void *made; static int sys; // the call reports -1 and errno
// call function f; bad = 0: proper arguments, 1..: the bad-th wrong argument (ret -1000: there is none)
#define NONE -1000
// wrong values are symbolic, except where the harness also wants the call to go through
#ifdef INVALID
#define NEG v_int("neg", INT_MIN, -1)
#define BIG ((size_t)v_big())
static uint64_t v_big(void) { uint64_t x = v_u64("size"); v_assume(x > INT_MAX); return x; }
static int v_not(int lo, int hi) { int x = v_int("code", INT_MIN, INT_MAX); v_assume(x < lo || x > hi); return x; }
#else
#define NEG -1
#define BIG ((size_t)INT_MAX + 1)
static int v_not(int lo, int hi) { (void)lo; return hi + 1; }
#endif
static union { neco_chan *c; neco_gen *g; neco_stream *s; struct addrinfo *a; int64_t i; int fds[2]; neco_stats st; } o;
static int64_t fcall(int f, int bad) {
    char b[8] = "abcdefg"; int64_t dl = m_now() + MS; neco_chan *v[2] = {ch, ch2}; void *av[1] = {b}; int x = 0;
    struct sockaddr_un un = {.sun_family = AF_UNIX, .sun_path = "/l"}; (void)v;
    m_errno = 77;
    sys = 0;
    switch (f) {
    case F_START: return bad > 2 ? NONE : bad == 1 ? neco_start(0, 0) : bad == 2 ? neco_start(co0, NEG) : neco_start(co0, 1, b);
    case F_STARTV: return bad > 2 ? NONE : bad == 1 ? neco_startv(0, 0, 0) : bad == 2 ? neco_startv(co0, NEG, av) : neco_startv(co0, 1, av);
    case F_YIELD: return bad ? NONE : neco_yield();
    case F_SLEEP: return bad ? NONE : neco_sleep(MS);
    case F_JOIN: return bad ? NONE : neco_join_dl(999, dl);
    case F_SUSPEND: return bad ? NONE : neco_suspend_dl(dl);
    case F_RESUME: return bad ? NONE : neco_resume(999);
    case F_GETID: return bad ? NONE : neco_getid();
    case F_LASTID: return bad ? NONE : neco_lastid();
    case F_STARTERID: return bad ? NONE : neco_starterid();
    case F_CMAKE: { if (bad > 3) return NONE; int r = neco_chan_make(bad == 1 ? 0 : &o.c, bad == 2 ? BIG : 4, bad == 3 ? BIG : 1); if (r == OK) o.c = 0; return r; }
    case F_CRETAIN: return bad > 1 ? NONE : neco_chan_retain(bad ? 0 : ch);
    case F_CRELEASE: return bad > 1 ? NONE : neco_chan_release(bad ? 0 : ch);
    case F_CSEND: return bad > 1 ? NONE : neco_chan_send_dl(bad == 1 ? 0 : ch, b, dl);
    case F_CBCAST: return bad > 1 ? NONE : neco_chan_broadcast(bad == 1 ? 0 : ch, b);
    case F_CRECV: return bad > 1 ? NONE : neco_chan_recv_dl(bad == 1 ? 0 : ch, obuf, dl);
    case F_CTRY: return bad > 1 ? NONE : neco_chan_tryrecv(bad == 1 ? 0 : ch, obuf);
    case F_CCLOSE: return bad > 1 ? NONE : neco_chan_close(bad == 1 ? 0 : ch);
    case F_CSEL: return bad > 2 ? NONE : bad == 2 ? neco_chan_select_dl(dl, NEG) : neco_chan_select_dl(dl, 2, ch, bad ? (neco_chan *)0 : ch2);
    case F_CSELV: if (bad == 1) v[1] = 0; return bad > 3 ? NONE : neco_chan_selectv_dl(bad == 2 ? NEG : 2, bad == 3 ? 0 : v, dl);
    case F_CTRYSEL: return bad > 2 ? NONE : bad == 2 ? neco_chan_tryselect(NEG) : neco_chan_tryselect(2, ch, bad ? (neco_chan *)0 : ch2);
    case F_CTRYSELV: if (bad == 1) v[1] = 0; return bad > 3 ? NONE : neco_chan_tryselectv(bad == 2 ? NEG : 2, bad == 3 ? 0 : v);
    case F_CCASE: return bad > 1 ? NONE : neco_chan_case(bad == 1 ? 0 : ch, obuf);
    case F_GSTART: { if (bad > 3) return NONE; int r = neco_gen_start(bad == 1 ? 0 : &o.g, bad == 2 ? BIG : 4, bad == 3 ? 0 : co0, 0); if (r == OK) o.g = 0; return r; }
    case F_GSTARTV: { if (bad > 4) return NONE; int r = neco_gen_startv(bad == 1 ? 0 : &o.g, bad == 2 ? BIG : 4, bad == 3 ? 0 : co0, bad == 4 ? NEG : 0, av); if (r == OK) o.g = 0; return r; }
    case F_GRETAIN: return bad > 1 ? NONE : neco_gen_retain(bad ? 0 : gen);
    case F_GRELEASE: return bad > 1 ? NONE : neco_gen_release(bad ? 0 : gen);
    case F_GYIELD: return bad ? NONE : neco_gen_yield(b); // not a generator
    case F_GNEXT: return bad > 1 ? NONE : neco_gen_next_dl(bad ? 0 : gen, obuf, dl);
    case F_GCLOSE: return bad > 1 ? NONE : neco_gen_close(bad ? 0 : gen);
    case F_MINIT: return bad > 1 ? NONE : neco_mutex_init(bad ? 0 : &mu);
    case F_MLOCK: return bad > 1 ? NONE : neco_mutex_lock_dl(bad ? 0 : &mu, dl);
    case F_MTRY: return bad > 1 ? NONE : neco_mutex_trylock(bad ? 0 : &mu);
    case F_MUNLOCK: return bad > 1 ? NONE : neco_mutex_unlock(bad ? 0 : &mu);
    case F_MRD: return bad > 1 ? NONE : neco_mutex_rdlock_dl(bad ? 0 : &mu, dl);
    case F_MTRYRD: return bad > 1 ? NONE : neco_mutex_tryrdlock(bad ? 0 : &mu);
    case F_WINIT: return bad > 1 ? NONE : neco_waitgroup_init(bad ? 0 : &wg);
    case F_WADD: return bad > 1 ? NONE : neco_waitgroup_add(bad ? 0 : &wg, 1);
    case F_WDONE: return bad > 1 ? NONE : neco_waitgroup_done(bad ? 0 : &wg);
    case F_WWAIT: return bad > 1 ? NONE : neco_waitgroup_wait_dl(bad ? 0 : &wg, dl);
    case F_VINIT: return bad > 1 ? NONE : neco_cond_init(bad ? 0 : &cv);
    case F_VSIG: return bad > 1 ? NONE : neco_cond_signal(bad ? 0 : &cv);
    case F_VBC: return bad > 1 ? NONE : neco_cond_broadcast(bad ? 0 : &cv);
    case F_VWAIT: return bad > 2 ? NONE : neco_cond_wait_dl(bad == 1 ? 0 : &cv, bad == 2 ? 0 : &mu, dl);
    case F_READ: sys = 1; return bad > 1 ? NONE : neco_read_dl(bad ? -1 : fd[0], obuf, 4, dl);
    case F_WRITE: sys = 1; return bad > 1 ? NONE : neco_write_dl(bad ? -1 : fd[1], b, 4, dl);
    case F_ACCEPT: sys = 1; return bad > 1 ? NONE : neco_accept_dl(bad ? -1 : lfd, 0, 0, dl);
    case F_CONNECT: { sys = 1; if (bad > 1) return NONE; int s = bad ? -1 : m_socket(AF_UNIX, SOCK_STREAM, 0); if (s >= 0) m_fd[s].nonblock = 1; int r = neco_connect_dl(s, (void *)&un, sizeof un, dl); int e = m_errno; if (s >= 0) m_close(s); m_errno = e; return r; }
    case F_GAI: { if (bad) return NONE; int r = neco_getaddrinfo_dl("h", "1", 0, &o.a, dl); if (r == 0) freeaddrinfo(o.a), o.a = 0; return r; }
    case F_WAIT: return bad > 2 ? NONE : neco_wait_dl(bad == 2 ? -1 : fd[1], bad == 1 ? v_not(1, 2) : NECO_WAIT_WRITE, dl);
    case F_SERVE: { if (bad > 3) return NONE; int r = neco_serve_dl(bad == 1 ? 0 : bad == 3 ? "none" : "unix", bad == 2 ? 0 : "/s", dl); if (r >= 0) m_close(r); return r; }
    case F_DIAL: { if (bad > 3) return NONE; int r = neco_dial_dl(bad == 1 ? 0 : bad == 3 ? "none" : "unix", bad == 2 ? 0 : "/l", dl); if (r >= 0) m_close(r); return r; }
    case F_CANCEL: return bad ? NONE : neco_cancel_dl(999, dl);
    case F_CTYPE: return bad > 1 ? NONE : neco_setcanceltype(bad ? v_not(1, 2) : NECO_CANCEL_INLINE, &x);
    case F_CSTATE: return bad > 1 ? NONE : neco_setcancelstate(bad ? v_not(3, 4) : NECO_CANCEL_ENABLE, &x);
    case F_SEED: return bad ? NONE : neco_rand_setseed(5, &o.i);
    case F_RAND: return bad > 1 ? NONE : neco_rand_dl(obuf, 4, bad ? v_not(0, 1) : NECO_PRNG, dl);
    case F_SWATCH: return bad > 2 ? NONE : neco_signal_watch(bad == 1 ? 0 : bad == 2 ? v_not(1, 31) : 10);
    case F_SWAIT: return bad ? NONE : neco_signal_wait_dl(dl);
    case F_SUNWATCH: return bad > 2 ? NONE : neco_signal_unwatch(bad == 1 ? NEG : bad == 2 ? v_not(0, 31) : 10);
    case F_WORK: return bad > 1 ? NONE : neco_work(0, bad ? 0 : wk, 0);
    case F_STATS: return bad > 1 ? NONE : neco_getstats(bad ? 0 : &o.st);
    case F_NOW: return bad ? NONE : neco_now();
    case F_PIPE: { sys = 1; if (bad > 1) return NONE; int r = neco_pipe(bad ? 0 : o.fds); if (r == 0) { m_close(o.fds[0]); m_close(o.fds[1]); } return r; }
    case F_STMAKE: { if (bad > 2) return NONE; int r = neco_stream_make(bad == 1 ? 0 : &o.s, bad == 2 ? NEG : fd[1]); if (!bad && r == OK) { made = o.s; o.s = 0; } return r; }
    case F_STMAKEB: { if (bad > 2) return NONE; int r = neco_stream_make_buffered(bad == 1 ? 0 : &o.s, bad == 2 ? NEG : fd[1]); if (!bad && r == OK) { made = o.s; o.s = 0; } return r; }
    case F_STCLOSE: return bad > 1 ? NONE : neco_stream_close(bad ? 0 : raw);
    case F_STREAD: return bad > 1 ? NONE : neco_stream_read_dl(bad ? 0 : st, obuf, 2, dl);
    case F_STWRITE: return bad > 1 ? NONE : neco_stream_write_dl(bad ? 0 : st, b, 2, dl);
    case F_STFULL: return bad > 1 ? NONE : neco_stream_readfull_dl(bad ? 0 : st, obuf, 2, dl);
    case F_STBYTE: return bad > 1 ? NONE : neco_stream_read_byte_dl(bad ? 0 : st, dl);
    case F_STUNREAD: return bad > 1 ? NONE : neco_stream_unread_byte(bad ? 0 : st);
    case F_STFLUSH: return bad > 1 ? NONE : neco_stream_flush_dl(bad ? 0 : st, dl);
    case F_STRSZ: return bad > 1 ? NONE : neco_stream_buffered_read_size(bad ? 0 : st);
    case F_STWSZ: return bad > 1 ? NONE : neco_stream_buffered_write_size(bad ? 0 : st);
    }
    return NONE;
}
// the code that neco_lasterr has to report after a call that returned r
static int conv(int64_t r, int e) {
    if (r >= 0) return 0;
    if (r != -1) return (int)r;
    return e == EINVAL ? NECO_INVAL : e == EPERM ? NECO_PERM : e == ENOMEM ? NECO_NOMEM : e == ECANCELED ? NECO_CANCELED : e == ETIMEDOUT ? NECO_TIMEDOUT : NECO_ERROR;
}
static neco_mutex mu0; static neco_waitgroup wg0; static neco_cond cv0;
static int same(const void *a, const void *b, int n) { const char *x = a, *y = b; for (int i = 0; i < n; i++) if (x[i] != y[i]) return 0; return 1; }
static void refused(int f, int bad, int want) {
    uint64_t live = e_live(); int fds = m_open_fds(); mu0 = mu; wg0 = wg; cv0 = cv;
    for (int i = 0; i < (int)sizeof obuf; i++) obuf[i] = 'z';
    for (unsigned i = 0; i < sizeof o; i++) ((char *)&o)[i] = 0;
    int s0 = started, w0 = worked;
    int64_t r = fcall(f, bad);
    if (r == NONE) return;
    v_log(f, r); v_log(bad, neco_lasterr());
    int e = m_errno;
    if (f == F_GAI) { // reports like getaddrinfo
        v_check(r == EAI_SYSTEM && e == EPERM, "name resolution was not refused with EAI_SYSTEM/EPERM");
    } else if (sys || (r == -1 && (f >= F_STMAKE))) {
        v_check(r == -1, "misuse did not return -1");
        v_check(e == (want == NECO_PERM ? EPERM : EINVAL), "misuse set the wrong errno");
        v_check(neco_lasterr() == want, "misuse left the wrong last error");
    } else {
        v_check(r == want, want == NECO_PERM ? "call that is not permitted was not refused as such" : "call with an invalid argument was not refused as such");
        v_check(neco_lasterr() == want, "misuse left the wrong last error");
    }
    v_check(e_live() == live && m_open_fds() == fds, "a refused call took resources");
    v_check(started == s0 && worked == w0, "a refused call ran the given function");
    for (int i = 0; i < (int)sizeof obuf; i++) v_check(obuf[i] == 'z', "a refused call wrote to the caller's buffer");
    for (unsigned i = 0; i < sizeof o; i++) v_check(((char *)&o)[i] == 0, "a refused call wrote to an output parameter");
    v_check(same(&mu0, &mu, sizeof mu) && same(&wg0, &wg, sizeof wg) && same(&cv0, &cv, sizeof cv), "a refused call changed the object");
}
static void setup(void) {
    neco_setcanceltype(NECO_CANCEL_INLINE, 0);
    neco_chan_make(&ch, 4, 2); neco_chan_make(&ch2, 4, 1);
    neco_mutex_init(&mu); neco_waitgroup_init(&wg); neco_cond_init(&cv);
    neco_gen_start(&gen, 4, gco, 0);
    m_pipe(fd); neco_setnonblock(fd[0], 1, 0); neco_setnonblock(fd[1], 1, 0);
    lfd = m_socket(AF_UNIX, SOCK_STREAM, 0); struct sockaddr_un un = {.sun_family = AF_UNIX, .sun_path = "/l"};
    m_bind(lfd, (void *)&un, sizeof un); m_listen(lfd, 4); neco_setnonblock(lfd, 1, 0);
    neco_stream_make_buffered(&st, fd[0]); neco_stream_make(&raw, fd[0]);
}
static int f, bad;
static void co_inval(int argc, void *argv[]) {
    (void)argc; (void)argv;
    setup();
    int x = 1; neco_chan_send(ch, &x);
    m_T = m_T;
    // descriptors that are not open are the system's to refuse
    int badfd = (f == F_READ || f == F_WRITE || f == F_ACCEPT || f == F_CONNECT) || (f == F_WAIT && bad == 2);
    if (badfd) {
        int64_t r = fcall(f, bad);
        if (r == NONE) e_end();
        v_check(f == F_WAIT ? r < 0 : r == -1, "a bad descriptor was accepted");
        v_check(neco_lasterr() == (r == -1 ? conv(r, m_errno) : (int)r), "last error");
        if (f != F_WAIT) v_check(m_errno == EBADF, "a bad descriptor did not set EBADF");
    } else
        refused(f, bad, NECO_INVAL);
    int y = 0; v_check(neco_chan_tryrecv(ch, &y) == OK && y == 1, "a refused call changed the channel");
    e_end();
}
static void co_set(int argc, void *argv[]) { (void)argc; (void)argv; setup(); neco_resume(neco_lastid()); }
static void co_thr(void *u) { (void)u; refused(f, 0, NECO_PERM); worked = 100; }
// the last error after a call, whatever was called before it
static void co_last(int argc, void *argv[]) {
    (void)argc; (void)argv;
    setup();
    neco_env_setpaniconerror(0);
    if (v_choose("rich", 2)) { // something to receive, to read and buffered
        int x = 1; neco_chan_send(ch, &x); neco_write(fd[1], "abcd", 4); neco_stream_read_byte(st); neco_signal_watch(10); neco_mutex_lock(&mu); neco_waitgroup_add(&wg, 1);
    }
    if (v_choose("prior", 2)) v_check(neco_chan_make(0, 0, 0) == NECO_INVAL && neco_lasterr() == NECO_INVAL, "last error"); // an older error
    int64_t r = fcall(f, bad);
    if (r == NONE) e_end();
    int e = m_errno, le = neco_lasterr();
    v_log(f, r); v_log(0, le);
    if (f == F_GAI) { v_check(r == 0 && le == 0 && neco_gai_lasterr() == 0, "name resolution"); e_end(); }
    if (f == F_NOW) v_check(r > 0 && le == 0, "now");
    v_check(le == (r == -1 ? conv(r, e) : r < 0 ? (int)r : 0), "the last error is not the result of the latest call");
    v_cover(r >= 0 ? 1 : 2);
    // and a successful call afterwards clears it
    v_check(neco_yield() == OK && neco_lasterr() == OK, "success did not clear the last error");
    e_end();
}
static void co_text(int argc, void *argv[]) {
    (void)argc; (void)argv;
    int64_t a = v_choose("a", 19), b = v_choose("b", 19);
    m_errno = 100;
    const char *s = neco_strerror(-a), *t = neco_strerror(-b);
    v_check(s && t && s[0], "no text for an error code");
    if (a != b && a != 14 && b != 14) v_check(strcmp(s, t) != 0, "two error codes have the same text");
    v_check(strncmp(s, "Undefined", 9) != 0, "an error code has no text");
}
#ifndef ENV
void main_harness(void) {
    m_late = 0;
#if defined(OUTSIDE)
    f = v_choose("function", NF); if (f == F_START || f == F_STARTV) e_end();
    int when = v_choose("when", 3);
    if (when) h_latency();
    if (when) { v_check(neco_start(co_set, 0) == OK, "start"); }
    else { m_pipe(fd); ch = (void *)obuf; ch2 = ch; gen = (void *)obuf; st = raw = (void *)obuf; }
    if (when == 2) m_T += 5 * MS;
    refused(f, 0, NECO_PERM);
#elif defined(INVALID)
    f = v_choose("function", NF); bad = 1 + v_choose("bad", 4);
    neco_start(co_inval, 0);
#elif defined(LAST)
    f = v_choose("function", NF); bad = v_choose("bad", 5);
    neco_start(co_last, 0);
#elif defined(TEXT)
    neco_start(co_text, 0);
#endif
}
#endif
