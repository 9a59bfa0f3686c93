// Lifecycle: arguments, identifiers, join, exit, run to completion, restart.
#include "h.h"
#ifndef N
#define N 3
#endif
#ifndef MAXARGS
#define MAXARGS 7
#endif
#ifndef JOINERS
#define JOINERS 2
#endif
#ifndef STEPS
#define STEPS 2
#endif
#ifndef ROUNDS
#define ROUNDS 1
#endif
#define MAXID 64
static int64_t ids[MAXID]; static int nids, live, started, round_;
static struct { int64_t id; int ended, runs; int64_t tend; } kid[N];
static int64_t mainid, lid[N];
#ifndef ENDS
#define ENDS 4
#endif
static void newid(int64_t id) {
    v_check(id > 0, "identifier is not positive");
    for (int i = 0; i < nids; i++) v_check(ids[i] != id, "identifier used twice");
    if (nids < MAXID) ids[nids++] = id;
}
static void grandchild(int argc, void *argv[]) {
    live++;
    newid(neco_getid());
    v_check(argc == 2 && argv[0] == (void *)7, "argument");
    v_check(neco_starterid() == *(int64_t *)argv[1], "starter identifier");
    v_check(neco_lastid() == 0, "last identifier of a coroutine that started none");
    h_sleep(MS);
    v_check(argv[0] == (void *)7, "argument");
    live--;
}
static void child(int argc, void *argv[]) {
    live++;
    int me = (int)(intptr_t)argv[0];
    int64_t id = neco_getid(); newid(id); kid[me].id = id; kid[me].runs++;
    v_check(neco_starterid() == mainid, "starter identifier");
    v_check(neco_lastid() == 0, "last identifier of a coroutine that started none");
    for (int i = 1; i < argc; i++) v_check((int64_t)argv[i] == 1000 * me + i, "argument differs");
    int mode = v_choose("end", ENDS);
    if (v_choose("delay", 2)) h_sleep(h_dur("life", STEPS)); else neco_yield();
    for (int i = 1; i < argc; i++) v_check((int64_t)argv[i] == 1000 * me + i, "argument changed during the life of the coroutine");
    v_check(neco_getid() == id, "own identifier changed");
    if (mode == 1) { neco_start(grandchild, 2, (void *)7, &id); int64_t g = neco_lastid(); int f = 0; for (int i = 0; i < nids; i++) if (ids[i] == g) f = 1; v_check(f && g != id && g != mainid, "identifier of the started coroutine"); v_check(neco_join(g) == NECO_OK, "join"); v_cover(3); }
    live--; kid[me].ended = 1; kid[me].tend = m_now();
    if (mode == 2) { neco_exit(); v_fail("code after exit was executed"); }
    if (mode == 3) { // canceled asynchronously by itself
        neco_setcanceltype(NECO_CANCEL_ASYNC, 0); neco_cancel(id); h_sleep(MS); v_fail("asynchronously canceled coroutine kept running"); }
}
static void joiner(int argc, void *argv[]) {
    (void)argc; (void)argv; live++; newid(neco_getid());
    h_sleep(h_dur("join_at", STEPS));
    int k = v_choose("target", N + 1);
    int64_t t0 = neco_now(), dl = v_choose("join_dl", 2) ? h_now() + h_dur("dl", STEPS) : INT64_MAX;
    if (k == N) { v_check(neco_join_dl(v_choose("bogus", 2) ? 1000000 : -1, dl) == NECO_OK && m_now() - t0 < 100 * US, "join of a coroutine that does not exist"); v_check(neco_join(neco_getid()) == NECO_PERM, "join of itself"); v_cover(6); live--; return; }
    int was = kid[k].ended;
    int r = neco_join_dl(kid[k].id, dl);
    if (was) { v_check(r == NECO_OK && m_now() - t0 < 100 * US, "join of an ended coroutine must succeed at once"); v_cover(4); }
    else if (r == NECO_OK) { v_check(kid[k].ended, "join returned before the coroutine ended"); v_check(m_now() - kid[k].tend < 500 * US, "join returned late"); v_cover(5); }
    else { v_check(r == NECO_TIMEDOUT && m_now() > dl, "join"); v_cover(7); }
    h_linger(0);
    live--;
}
static void co_main(int argc, void *argv[]) {
    v_check(argc == 1 && argv[0] == (void *)(intptr_t)(77 + round_), "argument of the first coroutine");
    mainid = neco_getid(); newid(mainid); live++;
    v_check(neco_starterid() == 0 && neco_lastid() == 0, "identifiers in the first coroutine");
    for (int i = 0; i < N; i++) kid[i].ended = kid[i].runs = 0;
    for (int i = 0; i < N; i++) {
        void *a[MAXARGS]; int n = i ? i + 1 : 1 + v_choose("argc", MAXARGS);
        a[0] = (void *)(intptr_t)i; for (int j = 1; j < n; j++) a[j] = (void *)(int64_t)(1000 * i + j);
        int r;
        if (v_choose("startv", 2)) { r = neco_startv(child, n, a); for (int j = 0; j < n; j++) a[j] = 0; v_cover(1); }
        else r = n == 1 ? neco_start(child, n, a[0]) : n == 2 ? neco_start(child, n, a[0], a[1]) : n == 3 ? neco_start(child, n, a[0], a[1], a[2]) : n == 4 ? neco_start(child, n, a[0], a[1], a[2], a[3]) : n == 5 ? neco_start(child, n, a[0], a[1], a[2], a[3], a[4]) : n == 6 ? neco_start(child, n, a[0], a[1], a[2], a[3], a[4], a[5]) : neco_start(child, n, a[0], a[1], a[2], a[3], a[4], a[5], a[6]);
        v_check(r == NECO_OK, "start");
        lid[i] = neco_lastid(); kid[i].id = lid[i];
    }
    for (int i = 0; i < JOINERS; i++) neco_start(joiner, 0);
    if (v_choose("main_stays", 2)) { for (int i = 0; i < N; i++) v_check(neco_join(kid[i].id) == NECO_OK && kid[i].ended, "join by the starter"); v_cover(2); }
    live--;
}
void main_harness(void) {
    for (round_ = 0; round_ < ROUNDS; round_++) {
        uint64_t live0 = e_live();
        if (!round_) h_latency();
        v_check(neco_getid() == NECO_PERM, "identifier outside of a coroutine");
        v_check(neco_start(co_main, 1, (void *)(intptr_t)(77 + round_)) == NECO_OK, "the first start must succeed");
        v_check(live == 0, "the first start returned while a coroutine was still alive");
        for (int i = 0; i < N; i++) v_check(kid[i].id == lid[i] && kid[i].runs == 1 && kid[i].ended, "a coroutine did not run to its end exactly once");
        m_check_clean(live0);
        if (round_) v_cover(8);
    }
    e_end();
}
