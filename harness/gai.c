// Name resolution: the resolver ends at a solver-chosen time with a solver-chosen
// result, against deadlines, cancelation and failing system calls.
#include "h.h"
#ifndef N
#define N 1
#endif
#ifndef STEPS
#define STEPS 2
#endif
static int n_, err, done_, ticks; static int64_t ids[N], resolved_at; static int canceled, type;
static void settle(void) { // all background threads end
    for (int k = 0; k < 200; k++) { int alive = 0; for (int i = 1; i < m_nth; i++) alive |= m_th[i].st != TH_DONE; if (!alive) return; m_sched_yield(); }
    v_fail("a resolver thread did not end");
}
static void user(int argc, void *argv[]) {
    (void)argc; (void)argv;
    neco_setcanceltype(type, 0);
    h_sleep(h_dur("start", STEPS));
    char node[12] = {0}, svc[4] = {0};
    int k = v_choose("node", 4);
    const char *nm = k == 0 ? "host" : k == 1 ? "1.2.3.4" : k == 2 ? "::1" : "x";
    for (int i = 0; nm[i]; i++) node[i] = nm[i];
    node[0] = nm[0]; svc[0] = '8'; svc[1] = '0';
    int sn = v_choose("nullservice", 2), hn = v_choose("nullhints", 2);
    int hs = (int)v_u32("socktype"), hp = (int)v_u32("protocol"), hf = (int)v_u32("flags");
    struct addrinfo hints = {.ai_family = AF_INET6, .ai_socktype = hs, .ai_protocol = hp, .ai_flags = hf}, *res = (void *)16;
    int64_t d = v_choose("withdl", 2) ? h_now() + h_dur("dl", STEPS) : INT64_MAX, t0 = m_now();
    int direct = k == 1 || k == 2, c0 = m_gai_calls, fb = m_fderr_budget, tb = m_thfail_budget, ob;
#ifdef OOM
    m_oom_budget = OOM;
#endif
    ob = m_oom_budget; errno = 0;
    int r = neco_getaddrinfo_dl(k == 3 ? 0 : node, sn ? 0 : svc, hn ? 0 : &hints, &res, d);
    int e = errno, le = neco_lasterr(); ob -= m_oom_budget; m_oom_budget = 0;
    // the arguments belong to the caller again
    for (int i = 0; i < 12; i++) node[i] = 'z';
    svc[0] = 'z'; hints.ai_family = 99;
    v_log(10, r); v_log(11, e);
    if (direct) { v_check(m_now() - t0 < 500 * US, "resolving a numeric address blocked"); v_cover(1); }
    if (r == 0) {
        v_check(!err && (N > 1 || m_gai_calls == c0 + 1), "success although the resolver failed");
        v_check(direct || m_gai_go, "result before the resolver ended");
        if (N == 1) v_check(m_gai_nodenull == (k == 3) && (k == 3 || m_strcmp(m_gai_node, nm) == 0), "the resolver was given another name");
        if (N == 1) v_check(m_strcmp(m_gai_service, sn ? "" : "80") == 0 && m_gai_family == (hn ? -1 : AF_INET6), "the resolver was given another service or hints");
        if (N == 1 && !hn) v_check(m_gai_socktype == hs && m_gai_protocol == hp && m_gai_flags == hf, "the resolver was given other hints");
        int i = 0; for (struct addrinfo *a = res; a; a = a->ai_next) { i++; v_check(a->ai_addr->sa_data[0] == i, "another result"); }
        v_check(i == n_, "the list of results is not complete");
        v_check(le == NECO_OK && neco_gai_lasterr() == 0, "last error after success");
        m_freeaddrinfo(res); v_cover(2);
        if (!direct) v_check(m_now() - (resolved_at > t0 ? resolved_at : t0) < MS, "the result came late");
    } else if (r == EAI_SYSTEM && e == ETIMEDOUT) {
        v_check(d != INT64_MAX && m_now() > d && m_now() - d < MS, "timed out at the wrong time");
        v_check(le == NECO_TIMEDOUT, "last error"); v_cover(3);
    } else if (r == EAI_SYSTEM && e == ECANCELED) {
        v_check(canceled && le == NECO_CANCELED, "canceled"); v_check(type == NECO_CANCEL_INLINE, "asynchronously canceled coroutine kept running"); v_cover(4);
    } else if (fb != m_fderr_budget && !(r == err && (r != EAI_SYSTEM || e == m_gai_errno))) { v_check(r == EAI_SYSTEM && e == EMFILE && le == NECO_ERROR, "failing system call not reported"); v_cover(5); }
    else if (tb != m_thfail_budget) { v_check(r == EAI_SYSTEM && e == EAGAIN, "failing thread not reported"); v_cover(6); }
    else if (ob) { v_check(r == EAI_MEMORY, "lack of memory not reported"); v_cover(9); }
    else {
        v_check(r == err, "not the error of the resolver"); v_check(N > 1 || m_gai_calls == c0 + 1, "resolver not called");
        v_check(neco_gai_lasterr() == err, "last resolver error");
        if (r == EAI_SYSTEM) v_check(e == m_gai_errno, "errno of the resolver lost"); else v_check(le == NECO_GAIERROR, "last error");
        v_cover(7);
    }
    if (r != 0) v_check(res == (void *)16 || res == 0, "result although resolving failed");
    done_++;
    h_linger(1);
}
static void ticker(int argc, void *argv[]) {
    (void)argc; (void)argv;
    for (int i = 0; i < STEPS * 2 + 1; i++) { int64_t t = m_now(); h_sleep(MS); v_check(m_now() - t < 2 * MS, "resolving blocked another coroutine"); ticks++; }
}
static void co_main(int argc, void *argv[]) {
    (void)argc; (void)argv;
    type = NECO_CANCEL_INLINE;
#ifdef CANCEL
    if (v_choose("async", 2)) type = NECO_CANCEL_ASYNC;
#endif
    for (int i = 0; i < N; i++) { neco_start(user, 1, (void *)(intptr_t)i); ids[i] = neco_lastid(); }
    neco_start(ticker, 0); int64_t t = neco_lastid();
    h_sleep(h_dur("at", STEPS + 1));
#ifdef CANCEL
    int first = v_choose("cancel_first", 2);
    if (!first) { m_gai_go = 1; resolved_at = m_now(); h_sleep(v_choose("gap", 2) ? MS : 0); }
    canceled = 1; int r = neco_cancel(ids[0]); v_check(r == NECO_OK || r == NECO_NOTFOUND, "cancel");
    if (first) { h_sleep(v_choose("gap", 2) ? MS : 0); m_gai_go = 1; resolved_at = m_now(); }
#else
    m_gai_go = 1; resolved_at = m_now();
#endif
    for (int i = 0; i < N; i++) neco_join(ids[i]);
    neco_join(t);
    settle();
    v_check(m_gai_live == 0, "resolver result leaked");
}
void main_harness(void) {
    m_gai_hold = 1; m_tick = 200; 
    n_ = m_gai_n = 1 + v_choose("results", 2); err = m_gai_err = 0;
    if (v_choose("resolver_fails", 2)) err = m_gai_err = v_choose("how", 2) ? EAI_NONAME : EAI_SYSTEM;
#ifdef FDERR
    m_fderr_budget = FDERR;
#endif
#ifdef THFAIL
    m_thfail_budget = THFAIL;
#endif
#ifdef EINTR_BUDGET
    m_eintr_budget = EINTR_BUDGET;
#endif
#ifdef DELAYS
    m_ndelay = DELAYS; m_delay_span = 30;
#endif
#ifdef RACE
    e_raceon();
#endif
    h_run(co_main); e_end();
}
