// The pseudorandom generator for every seed: reproducible, splittable, isolated, exact.
#include "h.h"
#ifndef MAXN
#define MAXN 9
#endif
static int others, stop; static int64_t seed; static int canceled;
static void bystander(int argc, void *argv[]) {
    (void)argc; (void)argv; unsigned char b[8];
    while (!stop) { others++; neco_rand(b, 3, NECO_CSPRNG); m_T += 20 * US; neco_yield(); }
}
static void draw(unsigned char *p, int n) {
    static unsigned char fill = 0xa5; fill = (unsigned char)~fill; // what was in the buffer does not matter
    for (int i = 0; i < n + 4; i++) p[i] = fill;
    int r = neco_rand(p, (size_t)n, NECO_PRNG);
    v_check(r == NECO_OK, "neco_rand failed");
    for (int i = n; i < n + 4; i++) v_check(p[i] == fill, "wrote more bytes than requested");
}
static int64_t state(void) { int64_t s = 0; v_check(neco_rand_setseed(7, &s) == NECO_OK, "setseed"); v_check(neco_rand_setseed(s, 0) == NECO_OK, "setseed"); return s; }
static int same(const unsigned char *a, const unsigned char *b, int n) { int ok = 1; for (int i = 0; i < n; i++) ok &= a[i] == b[i]; return ok; }
static int64_t tid;
static void canceler(int argc, void *argv[]) { (void)argc; (void)argv; canceled = 1; v_check(neco_cancel(tid) == NECO_OK, "cancel"); }
static void co_main(int argc, void *argv[]) {
    (void)argc; (void)argv;
    static unsigned char a[MAXN * 2 + 8], b[MAXN * 2 + 8], c[MAXN * 2 + 8], d[8];
    tid = neco_getid(); neco_setcanceltype(NECO_CANCEL_INLINE, 0);
    seed = (int64_t)v_u64("seed");
    int64_t old = 0, prev = (int64_t)v_u64("prev");
    v_check(neco_rand_setseed(prev, 0) == NECO_OK, "setseed");
    v_check(neco_rand_setseed(seed, &old) == NECO_OK && old == prev, "the previous seed is not returned");
    int n1 = v_choose("n1", MAXN + 1), n2 = v_choose("n2", MAXN + 1);
    draw(a, n1); draw(a + n1, n2);
    int64_t end = state();
    // the same seed gives the same bytes, whatever happens in between
    v_check(neco_rand_setseed(seed, &old) == NECO_OK && old == end, "the previous seed is not returned");
    draw(b, n1);
    int64_t mid = state();
    switch (v_choose("between", 7)) {
    case 0: break;
    case 1: v_check(neco_rand(d, 5, NECO_CSPRNG) == NECO_OK, "secure random"); v_cover(1); break;
    case 2: { int attr = (int)v_u32("attr"); v_assume(attr != NECO_PRNG && attr != NECO_CSPRNG); for (int i = 0; i < 8; i++) d[i] = 0x5a; v_check(neco_rand(d, 8, attr) == NECO_INVAL, "invalid attribute accepted"); for (int i = 0; i < 8; i++) v_check(d[i] == 0x5a, "refused request wrote bytes"); v_cover(2); break; }
    case 3: { for (int i = 0; i < 8; i++) d[i] = 0x5a; v_check(neco_rand_dl(d, 8, NECO_PRNG, neco_now() - v_i64("past", 0, MS)) == NECO_TIMEDOUT, "expired deadline not reported"); for (int i = 0; i < 8; i++) v_check(d[i] == 0x5a, "refused request wrote bytes"); v_cover(3); break; }
    case 4: { neco_start(canceler, 0); for (int i = 0; i < 8; i++) d[i] = 0x5a; neco_yield(); v_check(canceled, "canceler"); v_check(neco_rand(d, 8, NECO_PRNG) == NECO_CANCELED, "cancelation not reported"); for (int i = 0; i < 8; i++) v_check(d[i] == 0x5a, "refused request wrote bytes"); v_cover(4); break; }
    case 5: neco_start(bystander, 0); neco_sleep(MS); stop = 1; neco_sleep(MS); v_cover(5); break;
    case 6: v_check(neco_rand(d, 0, NECO_PRNG) == NECO_OK, "empty request"); v_cover(6); break;
    }
    v_check(state() == mid, "the seeded sequence was disturbed");
    if (v_choose("elsewhere", 2)) { // another seed in the meantime
        v_check(neco_rand_setseed((int64_t)v_u64("seed2"), &old) == NECO_OK && old == mid, "the previous seed is not returned");
        draw(c, 6);
        v_check(neco_rand_setseed(old, 0) == NECO_OK, "setseed");
    }
    draw(b + n1, n2);
    v_check(same(a, b, n1 + n2), "the same seed gives different bytes");
    v_check(state() == end, "the same requests lead to a different state");
    // requests that are cut at whole words are one long request
    if (n1 % 4 == 0) {
        v_check(neco_rand_setseed(seed, 0) == NECO_OK, "setseed");
        draw(c, n1 + n2);
        v_check(same(a, c, n1 + n2), "one long request differs from two short ones"); v_cover(7);
    }
    // secure random bytes all come from the system
    int n0 = m_arc4n; unsigned char next = m_arc4next; for (int i = 0; i < MAXN + 4; i++) c[i] = 0xa5;
    v_check(neco_rand(c, (size_t)n1, NECO_CSPRNG) == NECO_OK, "secure random"); v_check(m_arc4n == n0 + n1, "secure random bytes not taken from the system");
    for (int i = 0; i < n1; i++) v_check(c[i] == (unsigned char)(next + i), "secure random bytes");
    for (int i = n1; i < n1 + 4; i++) v_check(c[i] == 0xa5, "wrote more bytes than requested");
}
void main_harness(void) { h_run(co_main); v_check(m_dlopens == 0, "library handle leaked"); e_end(); }
