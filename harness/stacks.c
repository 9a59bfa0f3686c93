// Locals of live coroutines are never disturbed; stacks are distinct, recycled and given back.
#include "h.h"
#ifndef N
#define N 4
#endif
#ifndef STEPS
#define STEPS 2
#endif
#ifndef ROUNDS
#define ROUNDS 2
#endif
#ifndef UNIT
#define UNIT MS
#endif
static volatile char *lo[N], *hi[N]; static int alive[N], done_;
static int deep(int me, int n) {
    volatile unsigned char pad[200]; for (int i = 0; i < 200; i += 40) pad[i] = (unsigned char)(me + n);
    lo[me] = (volatile char *)pad;
    int r = n ? deep(me, n - 1) : 0;
    if (n == 0) neco_sleep(v_i64("hold", 1, STEPS) * UNIT);
    for (int i = 0; i < 200; i += 40) v_check(pad[i] == (unsigned char)(me + n), "a local variable was changed by another coroutine");
    return r + pad[0];
}
#ifndef BIG
#define BIG 0
#endif
static void worker(int argc, void *argv[]) {
    (void)argc; int me = (int)(intptr_t)argv[0];
    volatile unsigned char top[64]; for (int i = 0; i < 64; i += 16) top[i] = (unsigned char)(100 + me);
    hi[me] = (volatile char *)top; lo[me] = hi[me]; alive[me] = 1;
    for (int i = 0; i < N; i++) if (i != me && alive[i]) v_check(hi[me] < lo[i] - 4096 || hi[me] > hi[i] + 4096, "stacks of two live coroutines overlap");
#if BIG
    volatile unsigned char big[BIG]; for (int i = 0; i < BIG; i += 4096) big[i] = (unsigned char)(50 + me + i / 4096); lo[me] = (volatile char *)big;
#endif
    if (v_choose("defer", 2)) neco_sleep(UNIT);
    deep(me, 2);
    for (int i = 0; i < 64; i += 16) v_check(top[i] == (unsigned char)(100 + me), "a local variable was changed by another coroutine");
#if BIG
    for (int i = 0; i < BIG; i += 4096) v_check(big[i] == (unsigned char)(50 + me + i / 4096), "a local variable was changed by another coroutine");
#endif
    alive[me] = 0; done_++;
}
static void co_main(int argc, void *argv[]) {
    (void)argc; (void)argv;
    volatile int64_t mine = 12345;
    int64_t id[N];
    for (int r = 0; r < ROUNDS; r++) {
        for (int i = 0; i < N; i++) if (!alive[i]) { v_check(neco_start(worker, 1, (void *)(intptr_t)i) == NECO_OK, "start"); id[i] = neco_lastid(); }
        neco_join(id[0]);
    }
    v_check(mine == 12345, "a local variable was changed by another coroutine");
    v_cover(1);
}
void main_harness(void) { h_run(co_main); v_check(done_ >= N, "some coroutines did not run"); e_end(); }
