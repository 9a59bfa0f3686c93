// Fairness of yield: between two runs of a yielder every other runnable coroutine runs; timers and I/O still progress.
#include "h.h"
#ifndef N
#define N 3
#endif
#ifndef K
#define K 3
#endif
static int alive[N], stamp, last[N], ran[N]; static int spin; static int64_t wrote, woke_due; static int pp[2], got, slept, resumed; static int64_t sid;
static void mark(int me) {
    stamp++;
    for (int i = 0; i < N; i++) if (i != me && alive[i] == 1 && last[me] && last[i] && ran[me] > 1) v_check(last[i] > last[me] || i == me, "a yielding coroutine ran again before another runnable one");
    last[me] = stamp; ran[me]++;
}
static void yielder(int argc, void *argv[]) {
    (void)argc; int me = (int)(intptr_t)argv[0];
    if (v_choose("late", 2)) h_sleep(h_dur("delay", 1));
    int n = 1 + v_choose("yields", K);
    alive[me] = 1; 
    for (int k = 0; k < n; k++) { mark(me); m_T += 50 * US; v_check(neco_yield() == NECO_OK, "yield"); }
    alive[me] = 2;
}
static void spinner(int argc, void *argv[]) { (void)argc; (void)argv; int n = 0; while (spin && n++ < 200) { m_T += 50 * US; neco_yield(); } v_check(n < 200, "somebody is starved by a coroutine that yields"); }
static void reader(int argc, void *argv[]) { (void)argc; (void)argv; char c; v_check(neco_read(pp[0], &c, 1) == 1 && c == 'x', "read"); v_check(m_now() - wrote < MS, "reader starved"); got = 1; }
static void sleeper(int argc, void *argv[]) { (void)argc; (void)argv; int64_t d = h_now() + h_dur("sleep", 3); neco_sleep_dl(d); v_check(m_now() - d < MS, "sleeper starved"); slept = 1; }
static void susp(int argc, void *argv[]) { (void)argc; (void)argv; neco_suspend(); v_check(m_now() - woke_due < MS, "resumed coroutine starved"); resumed = 1; }
static void co_main(int argc, void *argv[]) {
    (void)argc; (void)argv;
    for (int i = 0; i < N; i++) neco_start(yielder, 1, (void *)(intptr_t)i);
    m_pipe(pp); neco_setnonblock(pp[0], 1, 0);
    spin = v_choose("spin", 2);
    if (spin) neco_start(spinner, 0);
    neco_start(reader, 0); neco_start(sleeper, 0); neco_start(susp, 0); sid = neco_lastid();
    h_sleep(h_dur("write_at", 2));
    wrote = m_now(); m_write(pp[1], "x", 1);
    h_sleep(h_dur("resume_at", 2));
    woke_due = m_now(); v_check(neco_resume(sid) == NECO_OK, "resume");
    h_sleep(5 * MS);
    v_check(got && slept && resumed, "a runnable coroutine was starved");
    spin = 0;
    m_close(pp[0]); m_close(pp[1]);
    v_cover(1);
}
void main_harness(void) { h_run(co_main); for (int i = 0; i < N; i++) v_check(alive[i] == 2, "a yielder never finished"); e_end(); }
