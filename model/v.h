// Harness interface: the same source runs under the symbolic executor
// (V_SYMBOLIC) and natively (counterexample / trace replay).
#ifndef V_H
#define V_H
#include <stdint.h>
#include <stddef.h>
#include <stdbool.h>

// ---- engine primitives (engine.cpp, or replay.c natively) ----
uint64_t e_sym(int width, const char *name);
void e_assume(int cond);
void e_check(int cond, const char *msg);
void e_fail(const char *msg) __attribute__((noreturn));
void e_log(uint64_t tag, uint64_t val);
void e_end(void) __attribute__((noreturn));
void e_kill(void) __attribute__((noreturn)); // drop the path (not part of the claim)
void *e_malloc(uint64_t n);
void e_free(void *p);
uint64_t e_allocsize(void *p);
uint64_t e_live(void);
void *e_map(void *addr, uint64_t n);
void e_unmap(void *addr, uint64_t n, int kind);
int e_thread_new(void (*fn)(void *), void *arg);
void e_thread_switch(int id);
int e_thread_self(void);
void e_thread_done(void);
uint64_t e_concrete(uint64_t v);
int e_is_sym(uint64_t v);
void e_cover(int id);
void e_acq(void *o);
void e_rel(void *o);
void e_raceon(void);

// ---- convenience ----
static inline int64_t v_i64(const char *name, int64_t lo, int64_t hi) {
    uint64_t span = (uint64_t)hi - (uint64_t)lo;
    int w = 1;
    while (w < 64 && (span >> w)) w++;
    if (span == 0) return lo;
    uint64_t x = e_sym(w, name);
    if (w < 64 ? span != (((uint64_t)1 << w) - 1) : span != ~(uint64_t)0) e_assume(x <= span);
    return (int64_t)((uint64_t)lo + x);
}
static inline int v_int(const char *name, int lo, int hi) { return (int)v_i64(name, lo, hi); }
// a symbolic choice, forked on at once so the value is concrete afterwards
static inline int v_choose(const char *name, int n) { return (int)e_concrete((uint64_t)v_i64(name, 0, n - 1)); }
static inline uint8_t v_byte(const char *name) { return (uint8_t)e_sym(8, name); }
static inline uint32_t v_u32(const char *name) { return (uint32_t)e_sym(32, name); }
static inline uint64_t v_u64(const char *name) { return (uint64_t)e_sym(64, name); }
#define v_check(c, msg) e_check((c) ? 1 : 0, msg)
#define v_assume(c) e_assume((c) ? 1 : 0)
#define v_fail(msg) e_fail(msg)
#define v_log(tag, val) e_log((uint64_t)(tag), (uint64_t)(val))
#define v_cover(id) e_cover(id)
#endif
