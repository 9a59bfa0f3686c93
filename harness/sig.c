// Signals arriving at any moment against watch, wait, unwatch, exit, deadlines and cancelation.
#define H_EXIT
#include "h.h"
#ifndef N
#define N 2
#endif
#ifndef K
#define K 1
#endif
#ifndef KR
#define KR 2
#endif
#ifndef STEPS
#define STEPS 2
#endif
#ifndef NSIG_
#define NSIG_ 2
#endif
static const int S[3] = {SIGUSR1, SIGHUP, SIGPIPE};
static int watchers[3], raised[3], got[3], dropped[3]; static int64_t lastraise[3]; static int W[N], victim = -1, canceled, done_[N], exiting = -1;
static int idx(int signo) { for (int i = 0; i < 3; i++) if (S[i] == signo) return i; return -1; }
static void h_exit(int code, int aborted) {
    v_check(!aborted, "aborted");
    int s = idx(code - 128);
    v_check(s >= 0 && s != 2, "the program exited although no signal asks for it");
    v_check(watchers[s] == 0, "a watched signal ended the program");
    v_check(raised[s] > got[s], "a signal that was already delivered ended the program");
    v_log(77, s);
    v_cover(1);
    e_end();
}
static void unwatch(int me, int s) { if (W[me] & 1 << s) { W[me] &= ~(1 << s); watchers[s]--; } }
static void waiter(int argc, void *argv[]) {
    (void)argc; int me = (int)(intptr_t)argv[0];
    neco_setcanceltype(NECO_CANCEL_INLINE, 0);
    int seenc = 0;
    int w = v_choose("watch", 1 << NSIG_);
    v_check(neco_signal_wait() == NECO_NOSIGWATCH, "a wait with nothing watched must be refused");
    for (int s = 0; s < NSIG_; s++) if (w >> s & 1) { W[me] |= 1 << s; watchers[s]++; v_check(neco_signal_watch(S[s]) == NECO_OK && neco_signal_watch(S[s]) == NECO_OK, "watch"); }
    for (int k = 0; k < K; k++) {
        if (neco_sleep_dl(h_now() + h_dur("at", STEPS)) == NECO_CANCELED) seenc = 1;
#ifdef UNWATCH
        int u = v_choose("unwatch", NSIG_ + 1);
        if (u < NSIG_) { unwatch(me, u); v_check(neco_signal_unwatch(S[u]) == NECO_OK, "unwatch"); }
#endif
        int64_t t0 = m_now(), dl = INT64_MAX;
#ifdef DEADLINES
        dl = h_now() + h_dur("dl", STEPS);
#else
        dl = neco_now() + 2 * STEPS * MS;
#endif
        int r = neco_signal_wait_dl(dl);
        int64_t now = m_now();
        v_log(10 + me, r);
        if (r > 0) {
            int s = idx(r);
            v_check(s >= 0 && (W[me] >> s & 1), "told about a signal that is not watched");
            got[s]++;
            v_check(got[s] <= raised[s] - dropped[s], "a signal was reported more often than it arrived");
            int64_t due = lastraise[s] > t0 ? lastraise[s] : t0;
            v_check(now - due < MS || raised[s] > got[s] || raised[s] > 1, "signal reported late");
            v_check(neco_lasterr() == NECO_OK, "last error");
            v_cover(2 + s);
        } else if (r == NECO_TIMEDOUT) {
            v_check(W[me] != 0, "waited with nothing watched");
            v_check(now > dl && now - dl < MS, "timed out at the wrong time");
            for (int s = 0; s < NSIG_; s++) if (W[me] >> s & 1) v_check(raised[s] - dropped[s] == got[s] || lastraise[s] + 500 * US > dl, "wait timed out although a watched signal was pending");
            v_cover(5);
        } else if (r == NECO_NOSIGWATCH) { v_check(W[me] == 0, "wait refused although signals are watched"); v_cover(6); }
        else { v_check(r == NECO_CANCELED && canceled && victim == me && !seenc, "unexpected result of a signal wait"); seenc = 1; v_cover(7); }
    }
    int how = v_choose("end", 3); // stays for a while, returns, exits
    if (how == 0) h_linger(1);
    for (int s = 0; s < NSIG_; s++) unwatch(me, s); // ends with the coroutine
    done_[me] = 1;
    if (how == 2) neco_exit();
}
static void raiser(int argc, void *argv[]) {
    (void)argc; (void)argv;
    for (int k = 0; k < KR; k++) {
        h_sleep(h_dur("raise_at", STEPS));
        int s = v_choose("signal", NSIG_);
        raised[s]++; lastraise[s] = m_now();
        if (s == 2 && watchers[s] == 0) dropped[s]++;
        m_raise(S[s]);
#ifdef LATE
        if (v_choose("deliver_now", 2))
#endif
        { m_deliver(); v_check(watchers[s] || s == 2, "a signal nobody watches was swallowed"); }
    }
}
static void co_main(int argc, void *argv[]) {
    (void)argc; (void)argv;
    int64_t id[N + 1];
    v_check(neco_signal_watch(v_int("bad", -2, 0)) == NECO_INVAL && neco_signal_watch(32) == NECO_INVAL && neco_signal_unwatch(0) == NECO_INVAL && neco_signal_unwatch(32) == NECO_INVAL, "invalid signal numbers must be refused");
    for (int i = 0; i < N; i++) { neco_start(waiter, 1, (void *)(intptr_t)i); id[i] = neco_lastid(); }
    neco_start(raiser, 0); id[N] = neco_lastid();
#ifdef CANCEL
    h_sleep(h_dur("cancel_at", STEPS * 2));
    victim = 0; canceled = 1;
    int dead = done_[0]; v_check(neco_cancel(id[0]) == (dead ? NECO_NOTFOUND : NECO_OK), "cancel");
#endif
    for (int i = 0; i <= N; i++) neco_join(id[i]);
}
static void user(int s, siginfo_t *i, void *p) { (void)s; (void)i; (void)p; }
void main_harness(void) {
    m_tick = 20 * US;
    m_sig[SIGUSR1].h = user; m_sig[SIGUSR1].set = 1; m_sig[SIGHUP].h = (void *)SIG_IGN; m_sig[SIGHUP].set = 1;
    h_run(co_main);
    v_check(m_sig[SIGUSR1].h == user && m_sig[SIGHUP].h == (void *)SIG_IGN && !m_sig[SIGPIPE].set && !m_sig[SIGINT].set && !m_sig[SIGTERM].set && !m_sig[SIGSEGV].set && !m_sig[SIGQUIT].set && !m_sig[SIGUSR2].set && !m_sig[SIGALRM].set && !m_sig[SIGILL].set && !m_sig[SIGFPE].set && !m_sig[SIGBUS].set && !m_sig[SIGTRAP].set, "signal dispositions were not restored");
    v_check(m_altstack == 0, "signal stack left behind");
    e_end();
}
