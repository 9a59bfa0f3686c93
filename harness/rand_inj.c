// Two different seeds never run into the same state, and the sequence never gets stuck.
#include "h.h"
static void co_main(int argc, void *argv[]) {
    (void)argc; (void)argv; unsigned char b[4]; int64_t x = 0, y = 0;
    int64_t s1 = (int64_t)v_u64("seed1"), s2 = (int64_t)v_u64("seed2");
    v_assume(s1 != s2);
    neco_rand_setseed(s1, 0); neco_rand(b, 4, NECO_PRNG); neco_rand_setseed(s2, &x); neco_rand(b, 4, NECO_PRNG); neco_rand_setseed(0, &y);
    v_check(x != y, "different seeds run into the same sequence");
    v_check(x != s1, "the sequence does not advance");
}
void main_harness(void) { h_run(co_main); e_end(); }
