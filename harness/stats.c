// Statistics: coroutines enter every kind of blocking operation at solver-chosen
// times and leave it by completion, timeout, cancelation or exit; the counters are
// compared with an exact count at solver-chosen moments and from inside the coroutines.
#include "h.h"
#ifndef N
#define N 2
#endif
#ifndef STEPS
#define STEPS 2
#endif
#ifndef NOBS
#define NOBS 2
#endif
enum { C_SLEEP, C_EV, C_SIG, C_SEND, C_RECV, C_LOCK, C_WG, C_COND, C_SUSP, C_NONE, C_IO, NCAT };
enum { SLEEP, WAITR, READ, WAITW, ACCEPT, SIGWAIT, SEND, RECV, SELECT, GEN, LOCK, RDLOCK, WG, COND, SUSPEND, JOIN, YIELD, NOPS };
static const int cat_of[NOPS] = { C_SLEEP, C_EV, C_EV, C_EV, C_EV, C_SIG, C_SEND, C_RECV, C_RECV, C_RECV, C_LOCK, C_LOCK, C_WG, C_COND, C_SUSP, C_NONE, C_NONE };
static neco_chan *rch, *sch; static neco_mutex mu; static neco_waitgroup wg; static neco_cond cv; static neco_gen *gen;
static int rp[2], wp[2], lfd; static int64_t other, mainid;
static int in[NCAT]; static int64_t live, ids[N]; static int opof[N], ended[N], woken[NOPS];
static void stats_check(void) {
    neco_stats s; for (unsigned i = 0; i < sizeof s; i++) ((char *)&s)[i] = 0x55;
    v_check(neco_getstats(&s) == NECO_OK, "getstats");
    v_check((int64_t)s.coroutines == live, "number of coroutines");
    v_check((int)s.sleepers == in[C_SLEEP], "number of sleeping coroutines");
    // reads and accepts also give way without waiting, right after they are called
    v_check((int)s.evwaiters <= in[C_EV] && (int)s.evwaiters >= in[C_EV] - in[C_IO], "number of coroutines waiting for a descriptor");
    v_check((int)s.sigwaiters == in[C_SIG], "number of coroutines waiting for a signal");
    v_check((int)s.senders == in[C_SEND], "number of senders");
    v_check((int)s.receivers == in[C_RECV], "number of receivers");
    v_check((int)s.locked == in[C_LOCK], "number of coroutines waiting for a lock");
    v_check((int)s.waitgroupers == in[C_WG], "number of coroutines waiting for a waitgroup");
    v_check((int)s.condwaiters == in[C_COND], "number of coroutines waiting for a condition");
    v_check((int)s.suspended == in[C_SUSP], "number of suspended coroutines");
}
static void nap(int64_t ns) { in[C_SLEEP]++; h_sleep(ns); in[C_SLEEP]--; }
static void idle(int argc, void *argv[]) { (void)argc; (void)argv; live++; in[C_SUSP]++; neco_suspend(); in[C_SUSP]--; live--; }
static void genco(int argc, void *argv[]) { (void)argc; (void)argv; live++; in[C_SUSP]++; neco_suspend(); in[C_SUSP]--; live--; }
static void left(void *arg) { int i = (int)(intptr_t)arg; in[cat_of[opof[i]]]--; if (opof[i] == READ || opof[i] == ACCEPT) in[C_IO]--; live--; ended[i] = 1; }
static void gone(void *arg) { int i = (int)(intptr_t)arg; in[C_SLEEP]--; live--; ended[i] = 1; }
static int64_t call(int op, int64_t dl) {
    char b[4] = {0}; int x = 0;
    switch (op) {
    case SLEEP: return neco_sleep_dl(dl == INT64_MAX ? neco_now() + 30 * MS : dl);
    case WAITR: return neco_wait_dl(rp[0], NECO_WAIT_READ, dl);
    case READ: return neco_read_dl(rp[0], b, 4, dl);
    case WAITW: return neco_wait_dl(wp[1], NECO_WAIT_WRITE, dl);
    case ACCEPT: return neco_accept_dl(lfd, 0, 0, dl);
    case SIGWAIT: return neco_signal_wait_dl(dl);
    case SEND: return neco_chan_send_dl(sch, &x, dl);
    case RECV: return neco_chan_recv_dl(rch, &x, dl);
    case SELECT: return neco_chan_select_dl(dl, 1, rch);
    case GEN: return neco_gen_next_dl(gen, &x, dl);
    case LOCK: return neco_mutex_lock_dl(&mu, dl);
    case RDLOCK: return neco_mutex_rdlock_dl(&mu, dl);
    case WG: return neco_waitgroup_wait_dl(&wg, dl);
    case COND: { neco_mutex m2 = NECO_MUTEX_INITIALIZER; neco_mutex_trylock(&m2); return neco_cond_wait_dl(&cv, &m2, dl); }
    case SUSPEND: return neco_suspend_dl(dl);
    case JOIN: return neco_join_dl(other, dl);
    case YIELD: return neco_yield();
    }
    return 0;
}
static void user(int argc, void *argv[]) {
    (void)argc; int i = (int)(intptr_t)argv[0];
    live++;
    neco_cleanup_push(gone, argv[0]);
    in[C_SLEEP]++; h_sleep(h_dur("delay", STEPS)); in[C_SLEEP]--;
    neco_cleanup_pop(0);
    int op = opof[i];
    if (woken[op] && op != SLEEP) { live--; ended[i] = 1; return; } // would not block any more
    if (op == SIGWAIT) neco_signal_watch(SIGUSR1);
    int64_t r, dl = v_choose("withdl", 2) ? h_now() + h_dur("dl", STEPS + 1) : INT64_MAX;
    neco_cleanup_push(left, argv[0]);
    in[cat_of[op]]++; if (op == READ || op == ACCEPT) in[C_IO]++;
    r = call(op, dl);
    in[cat_of[op]]--; if (op == READ || op == ACCEPT) in[C_IO]--;
    neco_cleanup_pop(0);
    stats_check();
    v_log(10 + op, r);
    if (r == -1 && neco_lasterr() == NECO_TIMEDOUT) r = NECO_TIMEDOUT;
    if (r == NECO_TIMEDOUT) v_cover(1); else if (r == NECO_CANCELED || (r == -1 && neco_lasterr() == NECO_CANCELED)) v_cover(2); else v_cover(10 + op);
    live--; ended[i] = 1;
    if (v_choose("exit", 2)) neco_exit();
}
// let the operation complete
static void wake(int op) {
    int x = 1;
    if (woken[op] || op == SLEEP || op == YIELD) return;
    switch (op) {
    case WAITR: case READ: woken[WAITR] = woken[READ] = 1; m_write(rp[1], "x", 1); break;
    case WAITW: { char b[M_PIPECAP]; m_read(wp[0], b, M_PIPECAP); woken[op] = 1; break; }
    case ACCEPT: return;
    case SIGWAIT: if (in[C_SIG]) { m_raise(SIGUSR1); woken[op] = 1; } break;
    case SEND: woken[op] = 1; while (neco_chan_tryrecv(sch, &x) == NECO_OK) ; break;
    case RECV: case SELECT: woken[RECV] = woken[SELECT] = 1; neco_chan_close(rch); break;
    case GEN: woken[op] = 1; neco_resume(other); break;
    case LOCK: case RDLOCK: woken[LOCK] = woken[RDLOCK] = 1; neco_mutex_unlock(&mu); break;
    case WG: woken[op] = 1; neco_waitgroup_done(&wg); break;
    case COND: neco_cond_broadcast(&cv); break;
    case SUSPEND: for (int i = 0; i < N; i++) if (opof[i] == SUSPEND && !ended[i]) neco_resume(ids[i]); break;
    case JOIN: woken[op] = 1; neco_resume(other); break;
    }
}
static void observer(int argc, void *argv[]) {
    (void)argc; (void)argv; live++;
    for (int i = 0; i < NOBS; i++) { nap(h_dur("look_at", STEPS + 1)); stats_check(); }
    live--;
}
static void co_main(int argc, void *argv[]) {
    (void)argc; (void)argv; live++;
    mainid = neco_getid();
    stats_check();
    neco_chan_make(&rch, sizeof(int), 0); neco_chan_make(&sch, sizeof(int), 0);
    neco_mutex_lock(&mu); neco_waitgroup_add(&wg, 1);
    m_pipe(rp); m_pipe(wp); neco_setnonblock(rp[0], 1, 0); neco_setnonblock(wp[1], 1, 0);
    char junk[M_PIPECAP]; for (int i = 0; i < M_PIPECAP; i++) junk[i] = 0;
    m_write(wp[1], junk, M_PIPECAP);
    lfd = m_socket(AF_UNIX, SOCK_STREAM, 0); struct sockaddr_un un = {.sun_family = AF_UNIX, .sun_path = "/l"};
    m_bind(lfd, (void *)&un, sizeof un); m_listen(lfd, 4); neco_setnonblock(lfd, 1, 0);
    int type = v_choose("async", 2) ? NECO_CANCEL_ASYNC : NECO_CANCEL_INLINE;
    for (int i = 0; i < N; i++) opof[i] = N == 1 || i == 0 ? v_choose("op", NOPS) : v_choose("op2", 2) ? opof[0] : (opof[0] + 1) % NOPS;
    for (int i = 0; i < N; i++) if (opof[i] == SIGWAIT) m_tick = 20 * US; // the scheduler spins while a signal is pending
    int usegen = 0; for (int i = 0; i < N; i++) usegen |= opof[i] == GEN;
    if (usegen) { neco_gen_start(&gen, sizeof(int), genco, 0); other = neco_lastid(); } else { neco_start(idle, 0); other = neco_lastid(); }
    neco_env_setcanceltype(type);
    for (int i = 0; i < N; i++) { neco_start(user, 1, (void *)(intptr_t)i); ids[i] = neco_lastid(); }
    neco_env_setcanceltype(NECO_CANCEL_INLINE);
    neco_start(observer, 0); int64_t ob = neco_lastid();
    stats_check();
    neco_signal_watch(SIGUSR1);
    nap(h_dur("act_at", STEPS + 1));
    stats_check();
    int act = v_choose("act", 3);
    if (act == 0) neco_cancel(ids[0]);
    else if (act == 1) wake(opof[0]);
    stats_check();
    nap(h_dur("act2_at", STEPS));
    stats_check();
    neco_join(ob);
    for (int i = 0; i < N; i++) { for (int k = 0; k < 3 && !ended[i]; k++) { neco_cancel(ids[i]); nap(MS); } v_check(ended[i], "a canceled operation did not end"); neco_join(ids[i]); }
    neco_resume(other);
    if (gen) { int x; neco_gen_next(gen, &x); neco_gen_release(gen); }
    neco_join(other);
    v_check(live == 1, "harness");
    stats_check();
    v_check(in[C_SLEEP] + in[C_EV] + in[C_SIG] + in[C_SEND] + in[C_RECV] + in[C_LOCK] + in[C_WG] + in[C_COND] + in[C_SUSP] == 0, "harness");
    m_close(rp[0]); m_close(rp[1]); m_close(wp[0]); m_close(wp[1]); m_close(lfd);
    neco_chan_release(rch); neco_chan_release(sch);
    live--;
}
void main_harness(void) {
    neco_stats s; v_check(neco_getstats(&s) == NECO_PERM, "statistics outside of a runtime");
    h_run(co_main); e_end();
}
