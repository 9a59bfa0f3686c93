// Model of the operating system that neco runs on.  Every libc / kernel entry
// point used by neco.c is redirected to the m_* function here, both in the
// symbolic executor and (by symbol renaming) in native replay builds.
#define _GNU_SOURCE
#include "v.h"
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <time.h>
#include <pthread.h>
#include <netdb.h>
#include <sys/epoll.h>
#include <sys/mman.h>
#include <sys/socket.h>
#include <sys/syscall.h>
#include <sys/un.h>
#include <netinet/in.h>
#include <unistd.h>
#include <stdio.h>

// ------------------------------------------------------------ configuration
static int m_oom_budget;          // number of allocation failures that may be injected
static int m_oom_after;           // (allocations before this ordinal never fail)
static int64_t m_T;               // nanoseconds since the model epoch
static int64_t m_tick = 1;        // every clock read advances time by this
static int64_t m_overshoot;       // sleeps may overshoot by 0..this (symbolic)
static int64_t m_late;            // every timed wait ends this much late
static int m_jump_budget;         // symbolic clock jumps still available
static int64_t m_jump_max;        // and their size bound
static int64_t m_spin = 300000;    // duration of one idle zero-timeout poll
static int m_eintr_budget;        // EINTR injections for read/write/accept/epoll
static int m_short_budget;        // symbolic short reads / writes
static int m_thfail_budget;       // pthread_create failures
static int m_ndelay;              // preemptions available
static int m_delay_span = 40;     // positions at which a preemption may happen
static int m_fderr_budget;        // symbolic failures of socket/pipe/fcntl/epoll calls
static int m_deadlock_ok;         // harness handles idleness itself
static int m_wtimeout_budget;     // idle worker threads that may time out

// hooks implemented by the harness (optional)
#ifdef H_ENV
static int h_env(int blocking);   // environment step; returns 1 if something changed
#else
static int h_env(int blocking) { (void)blocking; return 0; }
#endif
#ifdef H_DEADLOCK
static void h_deadlock(void);
#else
static void h_deadlock(void) { v_fail("deadlock: every coroutine is blocked and no event can wake one"); }
#endif
#ifdef H_EXIT
static void h_exit(int code, int aborted);
#else
static void h_exit(int code, int aborted) { (void)code; v_fail(aborted ? "program aborted" : "program exited"); }
#endif

static __thread int m_errno;
int *m___errno_location(void) { return &m_errno; }
#undef errno
#define errno m_errno

// ------------------------------------------------------------ strings
size_t m_strlen(const char *s) { size_t n = 0; while (s[n]) n++; return n; }
size_t m_strnlen(const char *s, size_t mx) { size_t n = 0; while (n < mx && s[n]) n++; return n; }
int m_strcmp(const char *a, const char *b) { while (*a && *a == *b) { a++; b++; } return (unsigned char)*a - (unsigned char)*b; }
int m_strncmp(const char *a, const char *b, size_t n) { while (n && *a && *a == *b) { a++; b++; n--; } return n ? (unsigned char)*a - (unsigned char)*b : 0; }
char *m_strncpy(char *d, const char *s, size_t n) { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
char *m_strcpy(char *d, const char *s) { size_t i = 0; for (; s[i]; i++) d[i] = s[i]; d[i] = 0; return d; }
char *m_strcat(char *d, const char *s) { m_strcpy(d + m_strlen(d), s); return d; }
char *m_strchr(const char *s, int c) { for (;; s++) { if (*s == (char)c) return (char *)s; if (!*s) return 0; } }
char *m_strrchr(const char *s, int c) { const char *r = 0; for (;; s++) { if (*s == (char)c) r = s; if (!*s) return (char *)r; } }
char *m_strstr(const char *h, const char *n) { size_t l = m_strlen(n); for (;; h++) { if (m_strncmp(h, n, l) == 0) return (char *)h; if (!*h) return 0; } }
int m_memcmp(const void *a, const void *b, size_t n) { const unsigned char *x = a, *y = b; for (size_t i = 0; i < n; i++) if (x[i] != y[i]) return x[i] - y[i]; return 0; }
int m_bcmp(const void *a, const void *b, size_t n) { return m_memcmp(a, b, n); }
void *m_memchr(const void *a, int c, size_t n) { const unsigned char *x = a; for (size_t i = 0; i < n; i++) if (x[i] == (unsigned char)c) return (void *)(x + i); return 0; }
void *m_memrchr(const void *a, int c, size_t n) { const unsigned char *x = a; while (n--) if (x[n] == (unsigned char)c) return (void *)(x + n); return 0; }
void m_bzero(void *p, size_t n) { __builtin_memset(p, 0, n); }
void *m_mempcpy(void *d, const void *s, size_t n) { __builtin_memcpy(d, s, n); return (char *)d + n; }
int m_abs(int x) { return x < 0 ? -x : x; }
char *m_strerror(int e) { static char t[200][4]; e &= 127; t[e][0] = 'E'; t[e][1] = (char)('A' + e / 16); t[e][2] = (char)('A' + e % 16); return t[e]; }
char *m_strsignal(int e) { (void)e; return (char *)"(signal)"; }
const char *m_gai_strerror(int e) { (void)e; return "(gai error)"; }
static int m_putn(char *b, size_t n, size_t *o, char c) { if (*o + 1 < n) b[*o] = c; (*o)++; return 0; }
int m_vsnprintf(char *b, size_t n, const char *f, va_list ap) {
    size_t o = 0;
    for (; *f; f++) {
        if (*f != '%') { m_putn(b, n, &o, *f); continue; }
        f++;
        int zero = 0, width = 0, l = 0, left = 0;
        while (*f == '0' || *f == '-') { if (*f == '0') zero = 1; else left = 1; f++; }
        while (*f >= '0' && *f <= '9') width = width * 10 + *f++ - '0';
        if (*f == '*') { width = va_arg(ap, int); f++; }
        if (*f == '.') { f++; while (*f >= '0' && *f <= '9') f++; }
        while (*f == 'l' || *f == 'z' || *f == 'j' || *f == 't' || *f == 'h') { if (*f != 'h') l = 1; f++; }
        char t[24]; int k = 0; int neg = 0;
        if (*f == 's') { const char *s = va_arg(ap, const char *); if (!s) s = "(null)"; while (*s) m_putn(b, n, &o, *s++); continue; }
        if (*f == 'c') { m_putn(b, n, &o, (char)va_arg(ap, int)); continue; }
        if (*f == '%') { m_putn(b, n, &o, '%'); continue; }
        uint64_t v; unsigned base = 10;
        if (*f == 'd' || *f == 'i') { int64_t x = l ? va_arg(ap, int64_t) : va_arg(ap, int); neg = x < 0; v = neg ? 0 - (uint64_t)x : (uint64_t)x; }
        else { v = (l || *f == 'p') ? va_arg(ap, uint64_t) : va_arg(ap, unsigned); if (*f == 'x' || *f == 'X' || *f == 'p') base = 16; }
        v = e_concrete(v);
        do { t[k++] = "0123456789abcdef"[v % base]; v /= base; } while (v);
        if (neg && zero) { m_putn(b, n, &o, '-'); neg = 0; width--; }
        int len = k + neg;
        if (!left) for (int i = len; i < width; i++) m_putn(b, n, &o, zero ? '0' : ' ');
        if (neg) m_putn(b, n, &o, '-');
        while (k) m_putn(b, n, &o, t[--k]);
    }
    if (n) b[o < n ? o : n - 1] = 0;
    return (int)o;
}
int m_snprintf(char *b, size_t n, const char *f, ...) { va_list ap; va_start(ap, f); int r = m_vsnprintf(b, n, f, ap); va_end(ap); return r; }
int m_fprintf(void *fp, const char *f, ...) { (void)fp; (void)f; return 0; }
int m_printf(const char *f, ...) { (void)f; return 0; }
int m_vfprintf(void *fp, const char *f, va_list ap) { (void)fp; (void)f; (void)ap; return 0; }
int m_fputs(const char *s, void *fp) { (void)s; (void)fp; return 0; }
int m_fputc(int c, void *fp) { (void)c; (void)fp; return 0; }
int m_puts(const char *s) { (void)s; return 0; }
size_t m_fwrite(const void *p, size_t s, size_t n, void *fp) { (void)p; (void)s; (void)fp; return n; }
static int m_flushed; // the buffered streams were written out
int m_fflush(void *fp) { if (!fp) m_flushed = 1; return 0; }
void m_perror(const char *s) { (void)s; }
void *m_popen(const char *c, const char *t) { (void)c; (void)t; return 0; }
int m_pclose(void *p) { (void)p; return 0; }
char *m_fgets(char *b, int n, void *p) { (void)b; (void)n; (void)p; return 0; }
int m_dladdr(const void *a, void *i) { (void)a; (void)i; return 0; }
static int m_dlopens, m_arc4n; static unsigned char m_arc4next;
void m_arc4random_buf(void *p, size_t n) { for (size_t i = 0; i < n; i++) ((unsigned char *)p)[i] = m_arc4next++; m_arc4n += (int)n; }
void *m_dlopen(const char *n, int f) { (void)n; (void)f; m_dlopens++; return &m_dlopens; }
void *m_dlsym(void *h, const char *n) { (void)h; return m_strcmp(n, "arc4random_buf") == 0 ? (void *)m_arc4random_buf : 0; }
int m_dlclose(void *h) { (void)h; m_dlopens--; return 0; }
char *m_getenv(const char *n) { (void)n; return 0; }

__attribute__((noreturn)) void m_abort(void) { h_exit(134, 1); e_end(); }
__attribute__((noreturn)) void m__Exit(int c) { h_exit(c, 0); e_end(); }
__attribute__((noreturn)) void m__exit(int c) { h_exit(c, 0); e_end(); }
__attribute__((noreturn)) void m_exit(int c) { m_flushed = 1; h_exit(c, 0); e_end(); }
__attribute__((noreturn)) void m___assert_fail(const char *a, const char *b, unsigned c, const char *d) { (void)a; (void)b; (void)c; (void)d; h_exit(134, 1); e_end(); }

// ------------------------------------------------------------ threads
#define M_MAXTH 10
enum { TH_FREE, TH_RUN, TH_MUTEX, TH_COND, TH_JOIN, TH_DONE };
static struct m_thread { int st; void *obj; int timed; int timedout; int detached; void *ret; void *(*fn)(void *); void *arg; } m_th[M_MAXTH] = {{ .st = TH_RUN }};
static int m_nth = 1;
static int m_ppoint, m_ndelayed, m_since;
static int64_t m_delays[4];
static int m_delays_init;
static int m_blockedspin;

static int m_pick_other(int self) {
    // next runnable thread after self, round robin
    for (int k = 1; k < M_MAXTH; k++) {
        int t = (self + k) % M_MAXTH;
        if (t < m_nth && m_th[t].st == TH_RUN) return t;
    }
    return -1;
}
static void m_switch(int t) { m_since = 0; e_thread_switch(t); }
// A scheduling point. Preemptions happen at up to m_ndelay solver-chosen points.
static void m_preempt(void) {
    if (m_nth < 2) return;
    int self = e_thread_self();
    int t = m_pick_other(self);
    if (t < 0) return;
    m_ppoint++;
    if (m_ndelayed < m_ndelay) {
        if (!m_delays_init) {
            m_delays_init = 1;
            for (int i = 0; i < m_ndelay; i++) {
                m_delays[i] = v_i64("preempt_at", 1, m_delay_span);
                if (i) v_assume(m_delays[i - 1] <= m_delays[i]);
            }
        }
        if (m_delays[m_ndelayed] == m_ppoint) { m_ndelayed++; m_switch(t); return; }
    }
    if (++m_since > 6) m_switch(t); // fairness for polling loops
}
static void m_timeout_one(void) {
    for (int t = 0; t < m_nth; t++) if (m_th[t].st == TH_COND && m_th[t].timed) { m_th[t].st = TH_RUN; m_th[t].timedout = 1; return; }
}
static void m_block(void) {
    int self = e_thread_self();
    while (m_th[self].st != TH_RUN) {
        int t = m_pick_other(self);
        if (t < 0) {
            m_timeout_one();
            if (m_th[self].st == TH_RUN) return;
            t = m_pick_other(self);
            if (t < 0) v_fail("deadlock: every thread is blocked");
        }
        m_switch(t);
    }
}
// Called when this thread polls or sleeps: let the others run until they block.
static void m_idle_threads(void) {
    for (int i = 0; i < 64; i++) {
        int t = m_pick_other(e_thread_self());
        if (t < 0) return;
        m_switch(t);
        return;
    }
}
static void m_wake(int st, void *obj, int all) {
    for (int t = 0; t < m_nth; t++) if (m_th[t].st == st && m_th[t].obj == obj) { m_th[t].st = TH_RUN; if (!all) return; }
}
int m_pthread_mutex_init(pthread_mutex_t *m, const void *a) { (void)a; *(int *)m = 0; return 0; }
int m_pthread_mutex_destroy(pthread_mutex_t *m) { (void)m; return 0; }
int m_pthread_mutex_lock(pthread_mutex_t *m) {
    int *p = (int *)m; m_preempt();
    int self = e_thread_self();
    if (*p == self + 1) v_fail("deadlock: thread relocks a mutex it holds");
    while (*p) { m_th[self].st = TH_MUTEX; m_th[self].obj = m; m_block(); }
    *p = self + 1; e_acq(m);
    return 0;
}
int m_pthread_mutex_trylock(pthread_mutex_t *m) { int *p = (int *)m; m_preempt(); if (*p) return EBUSY; *p = e_thread_self() + 1; e_acq(m); return 0; }
int m_pthread_mutex_unlock(pthread_mutex_t *m) {
    int *p = (int *)m;
    v_check(*p == e_thread_self() + 1, "unlock of a mutex that is not held by the thread");
    e_rel(m); *p = 0; m_wake(TH_MUTEX, m, 1); m_preempt();
    return 0;
}
int m_pthread_cond_init(pthread_cond_t *c, const void *a) { (void)a; __builtin_memset(c, 0, sizeof *c); return 0; }
int m_pthread_cond_destroy(pthread_cond_t *c) { (void)c; return 0; }
static int m_condwait(pthread_cond_t *c, pthread_mutex_t *m, int timed) {
    int self = e_thread_self();
    v_check(*(int *)m == self + 1, "condition wait without holding the mutex");
    m_th[self].st = TH_COND; m_th[self].obj = c; m_th[self].timed = timed; m_th[self].timedout = 0;
    e_rel(m); *(int *)m = 0; m_wake(TH_MUTEX, m, 1);
    m_block();
    int to = m_th[self].timedout; m_th[self].timedout = 0;
    while (*(int *)m) { m_th[self].st = TH_MUTEX; m_th[self].obj = m; m_block(); }
    *(int *)m = self + 1; e_acq(m); e_acq(c);
    return to ? ETIMEDOUT : 0;
}
int m_pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { return m_condwait(c, m, 0); }
int m_pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *ts) { (void)ts; return m_condwait(c, m, 1); }
int m_pthread_cond_signal(pthread_cond_t *c) { e_rel(c); m_wake(TH_COND, c, 0); return 0; }
int m_pthread_cond_broadcast(pthread_cond_t *c) { e_rel(c); m_wake(TH_COND, c, 1); return 0; }
static void m_thread_main(void *a) {
    int self = (int)(intptr_t)a;
    m_th[self].ret = m_th[self].fn(m_th[self].arg);
    e_rel(&m_th[self]);
    m_th[self].st = TH_DONE; m_wake(TH_JOIN, &m_th[self], 1);
    int t = m_pick_other(self);
    if (t < 0) { m_timeout_one(); t = m_pick_other(self); }
    if (t < 0) v_fail("deadlock: last runnable thread ended");
    e_thread_done();
    e_thread_switch(t);
}
int m_pthread_create(pthread_t *th, const void *at, void *(*fn)(void *), void *arg) {
    (void)at;
    if (m_thfail_budget > 0 && v_choose("pthread_create_fails", 2)) { m_thfail_budget--; return EAGAIN; }
    if (m_nth >= M_MAXTH) { e_kill(); }
    int id = m_nth++;
    m_th[id].st = TH_RUN; m_th[id].fn = fn; m_th[id].arg = arg; m_th[id].detached = 0;
    *th = (pthread_t)(id + 1);
    e_thread_new(m_thread_main, (void *)(intptr_t)id);
    m_preempt();
    return 0;
}
int m_pthread_join(pthread_t th, void **ret) {
    int id = (int)th - 1, self = e_thread_self();
    if (id < 0 || id >= m_nth) return ESRCH;
    v_check(!m_th[id].detached, "join of a detached thread");
    while (m_th[id].st != TH_DONE) { m_th[self].st = TH_JOIN; m_th[self].obj = &m_th[id]; m_block(); }
    m_th[id].detached = 1; e_acq(&m_th[id]);
    if (ret) *ret = m_th[id].ret;
    return 0;
}
int m_pthread_detach(pthread_t th) { int id = (int)th - 1; if (id < 0 || id >= m_nth) return ESRCH; m_th[id].detached = 1; return 0; }
pthread_t m_pthread_self(void) { return (pthread_t)(e_thread_self() + 1); }
int m_sched_yield(void) { m_idle_threads(); return 0; }
static int m_pid = 4242;
int m_getpid(void) { return m_pid; }
int m_gettid(void) { return 4242 + e_thread_self(); }
long m_syscall(long n, ...) { if (n == SYS_gettid) return m_gettid(); errno = ENOSYS; return -1; }
long m_sysconf(int n) { return n == _SC_PAGESIZE ? 4096 : n == _SC_NPROCESSORS_ONLN ? 2 : -1; }
int m_getpagesize(void) { return 4096; }

// ------------------------------------------------------------ memory
static int m_nallocs, m_ooms, m_nmallocs;
static int m_oom(void) {
    int k = ++m_nallocs;
    if (m_oom_budget > 0 && k > m_oom_after) {
        if (v_choose("oom", 2)) { m_oom_budget--; m_ooms++; return 1; }
    }
    return 0;
}
static size_t m_limit; // when set, allocations of symbolic size are served up to this many bytes
static void *m_alloc(size_t n) {
    m_nmallocs++;
    if (m_limit) { if (n > m_limit) { errno = ENOMEM; return 0; } return e_malloc(m_limit); }
    if (n > (UINT64_C(1) << 28)) { errno = ENOMEM; return 0; }
    return e_malloc(n);
}
void *m_malloc(size_t n) { if (m_oom()) { errno = ENOMEM; return 0; } return m_alloc(n); }
void *m_calloc(size_t a, size_t b) { if (m_oom()) { errno = ENOMEM; return 0; } m_nmallocs++; void *p = e_malloc(a * b); if (p) __builtin_memset(p, 0, a * b); return p; }
void m_free(void *p) { if (p) e_free(p); }
void *m_realloc(void *p, size_t n) {
    if (m_oom()) { errno = ENOMEM; return 0; }
    if (!p) return m_alloc(n);
    size_t o = e_allocsize(p); void *q = m_alloc(n);
    if (!q) return 0;
    __builtin_memcpy(q, p, o < n ? o : n);
    e_free(p);
    return q;
}
char *m_strdup(const char *s) { size_t n = m_strlen(s) + 1; char *p = m_malloc(n); if (p) __builtin_memcpy(p, s, n); return p; }
char *m_strndup(const char *s, size_t k) { size_t n = m_strnlen(s, k); char *p = m_malloc(n + 1); if (p) { __builtin_memcpy(p, s, n); p[n] = 0; } return p; }
static int64_t m_mapped; // bytes, whole pages
#define M_PAGES(n) (((int64_t)(n) + 4095) & ~INT64_C(4095))
void *m_mmap(void *a, size_t n, int prot, int flags, int fd, long off) {
    (void)prot; (void)fd; (void)off;
    if (flags & MAP_FIXED) return e_map(a, n);
    if (m_oom()) { errno = ENOMEM; return MAP_FAILED; }
    if (n == 0) { errno = EINVAL; return MAP_FAILED; }
    m_mapped += M_PAGES(n);
    return e_map(0, n);
}
int m_munmap(void *a, size_t n) { if (n == 0) { errno = EINVAL; return -1; } m_mapped -= M_PAGES(n); e_unmap(a, n, 0); return 0; }
int m_mprotect(void *a, size_t n, int prot) { if (m_oom()) { errno = ENOMEM; return -1; } e_unmap(a, n, prot == PROT_NONE ? 1 : 2); return 0; }
int m_madvise(void *a, size_t n, int adv) { (void)a; (void)n; (void)adv; return 0; }
int m_posix_memalign(void **p, size_t al, size_t n) { (void)al; *p = m_malloc(n); return *p ? 0 : ENOMEM; }

// ------------------------------------------------------------ time
int m_clock_gettime(int id, struct timespec *ts) {
    (void)id;
    if (m_jump_budget > 0) { m_jump_budget--; m_T += v_i64("clock_jump", 0, m_jump_max); }
    m_T += m_tick;
    ts->tv_sec = 100;
    ts->tv_nsec = m_T; // model time stays below one second, see bounds
    return 0;
}
#define M_EPOCH (100 * INT64_C(1000000000))
static int64_t m_now(void) { return M_EPOCH + m_T; }
static void m_pass(int64_t ns) {
    m_T += ns + m_late;
    if (m_overshoot > 0) m_T += v_i64("overshoot", 0, m_overshoot);
}
static int m_sigpending_any(void);
static int m_deliver(void);
static int m_idles;
static int64_t m_spinT = 1000; // time that passes while other threads are busy
static int m_nokill; // running out of model time means that there is no progress
static int m_longwait; // deadlines of seconds are pending: idle waits just pass
static int m_clock_sane(void) { int ok = m_T < (m_longwait ? INT64_C(20000000000) : INT64_C(800000000)); if (!ok && m_nokill) v_fail("no progress"); return ok; }
// One idle wait of at most ns nanoseconds. Returns 1 when interrupted/changed.
static int m_wait(int64_t ns) {
    if (m_sigpending_any() && m_deliver()) return 2;
    if (m_pick_other(e_thread_self()) >= 0) { m_idle_threads(); if (m_deliver()) return 2; m_T += m_spinT; if (m_nokill) m_clock_sane(); return 1; }
    if (h_env(1)) { if (m_deliver()) return 2; m_T += 1000; return 1; }
    if (m_wtimeout_budget > 0) { m_wtimeout_budget--; m_timeout_one(); if (m_pick_other(e_thread_self()) >= 0) { m_idle_threads(); return 1; } }
    if (ns >= 400000000 && !m_longwait) { // nothing to do for "ever": no deadline is pending
        if (!m_deadlock_ok) { h_deadlock(); }
        if (++m_idles > 8) e_kill();
        return 0;
    }
    m_pass(ns);
    if (!m_clock_sane()) e_kill();
    return 0;
}
int m_nanosleep(const struct timespec *t, struct timespec *rem) {
    (void)rem;
    int64_t ns = t->tv_sec * INT64_C(1000000000) + t->tv_nsec;
    int r = m_wait(ns);
    if (r == 2) { errno = EINTR; return -1; }
    return 0;
}
int m_usleep(unsigned us) { m_wait((int64_t)us * 1000); return 0; }
long m_time(long *t) { if (t) *t = 100; return 100; }

// ------------------------------------------------------------ signals
static struct m_sig { void (*h)(int, siginfo_t *, void *); int set; int pending; } m_sig[65];
static int m_sigraised;
int m_sigaction(int s, const struct sigaction *n, struct sigaction *o) {
    if (s < 1 || s > 64) { errno = EINVAL; return -1; }
    if (o) { __builtin_memset(o, 0, sizeof *o); o->sa_sigaction = m_sig[s].set ? m_sig[s].h : 0; }
    if (n) { m_sig[s].h = n->sa_sigaction; m_sig[s].set = n->sa_sigaction != 0; }
    return 0;
}
int m_sigemptyset(sigset_t *s) { __builtin_memset(s, 0, sizeof *s); return 0; }
int m_sigfillset(sigset_t *s) { __builtin_memset(s, 0xff, sizeof *s); return 0; }
int m_sigaddset(sigset_t *s, int n) { (void)s; (void)n; return 0; }
int m_sigprocmask(int h, const sigset_t *s, sigset_t *o) { (void)h; (void)s; (void)o; return 0; }
int m_pthread_sigmask(int h, const sigset_t *s, sigset_t *o) { (void)h; (void)s; (void)o; return 0; }
static void *m_altstack;
int m_sigaltstack(const stack_t *n, stack_t *o) { if (o) __builtin_memset(o, 0, sizeof *o); if (n) m_altstack = (n->ss_flags & SS_DISABLE) ? 0 : n->ss_sp; return 0; }
static void m_raise(int s) { m_sig[s].pending++; m_sigraised++; }
static int m_defaulted; // last signal that took its default action
// a signal that strikes the calling thread itself (SIGPIPE of a write, or one sent to the
// process and taken by this thread)
static void m_sigsync(int s) {
    if (m_sig[s].set && m_sig[s].h != (void *)SIG_IGN) m_sig[s].h(s, 0, 0);
    else if (!m_sig[s].set) { m_defaulted = s; h_exit(128 + s, 0); }
}
int m_pthread_kill(pthread_t th, int s) { if ((int)th - 1 == e_thread_self()) m_sigsync(s); else { v_check(th == 1, "signal sent to a thread that is not the main thread"); m_raise(s); } return 0; }
// pending signals are taken by the main thread
static int m_deliver(void) {
    int any = 0;
    if (e_thread_self() != 0) return 0;
    for (int s = 1; s < 32; s++) {
        while (m_sig[s].pending) {
            m_sig[s].pending--; any = 1;
            if (m_sig[s].set && m_sig[s].h != (void *)SIG_IGN) m_sig[s].h(s, 0, 0);
            else if (!m_sig[s].set) { m_defaulted = s; h_exit(128 + s, 0); }
        }
    }
    return any;
}
static int m_sigpending_any(void) { for (int s = 1; s < 32; s++) if (m_sig[s].pending) return 1; return 0; }
int m_kill(int pid, int s) { (void)pid; m_raise(s); m_deliver(); return 0; }
int m_raise_(int s) { m_raise(s); m_deliver(); return 0; }
void (*m_signal(int s, void (*h)(int)))(int) { void *o = (void *)m_sig[s].h; m_sig[s].h = (void *)h; m_sig[s].set = h != SIG_DFL; return (void (*)(int))o; }

// ------------------------------------------------------------ files
#ifndef M_PIPECAP
#define M_PIPECAP 8
#endif
#ifndef M_MAXFD
#define M_MAXFD 24
#endif
#ifndef M_MAXEP
#define M_MAXEP 12
#endif
#ifndef M_FD0
#define M_FD0 3
#endif
enum { FD_NONE, FD_PIPE_R, FD_PIPE_W, FD_SOCK, FD_LISTEN, FD_EPOLL, FD_FILE };
enum { CS_NONE, CS_CONNECTING, CS_CONNECTED, CS_FAILED };
struct m_buf { unsigned char b[M_PIPECAP]; int r, n; int wopen, ropen; int cap; int total; int64_t t; };
static struct m_buf m_bufs[M_MAXFD]; static int m_nbufs;
struct m_file {
    int kind, nonblock, family, cs, err, target;
    struct m_buf *rx, *tx;
    int backlog[4], nbacklog, addrlen; unsigned char addr[112];
    struct { int fd; uint32_t ev; uint64_t data; int armed; } ep[M_MAXEP]; int nep;
    int reuse, bound;
};
static struct m_file m_fd[M_MAXFD];
static int m_opens, m_closes, m_badclose;
static struct m_file *m_file(int fd) { if (fd < M_FD0 || fd >= M_MAXFD || !m_fd[fd].kind) { errno = EBADF; return 0; } return &m_fd[fd]; }
static int m_fderr(void) { if (m_fderr_budget > 0 && v_choose("syscall_fails", 2)) { m_fderr_budget--; errno = EMFILE; return 1; } return 0; }
static int m_newfd(int kind) {
    for (int i = M_FD0; i < M_MAXFD; i++) if (!m_fd[i].kind) { __builtin_memset(&m_fd[i], 0, sizeof m_fd[i]); m_fd[i].kind = kind; m_opens++; return i; }
    errno = EMFILE; return -1;
}
static struct m_buf *m_newbuf(void) {
    if (m_nbufs >= M_MAXFD) e_kill();
    struct m_buf *b = &m_bufs[m_nbufs++]; b->r = b->n = 0; b->wopen = b->ropen = 1; b->cap = M_PIPECAP; b->total = 0; return b;
}
int m_pipe2(int fds[2], int fl) {
    if (m_fderr()) return -1;
    int a = m_newfd(FD_PIPE_R); if (a < 0) return -1;
    int b = m_newfd(FD_PIPE_W); if (b < 0) { m_fd[a].kind = 0; return -1; }
    m_fd[a].rx = m_fd[b].tx = m_newbuf(); m_fd[a].nonblock = m_fd[b].nonblock = !!(fl & O_NONBLOCK);
    fds[0] = a; fds[1] = b; return 0;
}
int m_pipe(int fds[2]) { return m_pipe2(fds, 0); }
int m_socketpair(int d, int t, int p, int fds[2]) {
    (void)p;
    int a = m_newfd(FD_SOCK), b = m_newfd(FD_SOCK); if (a < 0 || b < 0) return -1;
    m_fd[a].rx = m_fd[b].tx = m_newbuf(); m_fd[b].rx = m_fd[a].tx = m_newbuf();
    m_fd[a].cs = m_fd[b].cs = CS_CONNECTED; m_fd[a].family = m_fd[b].family = d;
    m_fd[a].nonblock = m_fd[b].nonblock = !!(t & SOCK_NONBLOCK);
    fds[0] = a; fds[1] = b; return 0;
}
static int m_newfile(void) { int a = m_newfd(FD_FILE); m_fd[a].rx = m_newbuf(); m_fd[a].tx = m_newbuf(); return a; }
int m_fcntl(int fd, int cmd, ...) {
    struct m_file *f = m_file(fd); if (!f) return -1;
    va_list ap; va_start(ap, cmd); int arg = va_arg(ap, int); va_end(ap);
    if (m_fderr()) return -1;
    if (cmd == F_GETFL) return O_RDWR | (f->nonblock ? O_NONBLOCK : 0);
    if (cmd == F_SETFL) { f->nonblock = !!(arg & O_NONBLOCK); return 0; }
    if (cmd == F_GETFD) return 0; if (cmd == F_SETFD) return 0;
    errno = EINVAL; return -1;
}
int m_close(int fd) {
    struct m_file *f = m_file(fd);
    if (!f) { if (fd >= 0 && fd < M_FD0) return 0; if (fd >= 0) m_badclose++; return -1; }
    if (f->rx) f->rx->ropen = 0;
    if (f->tx) f->tx->wopen = 0;
    if (f->kind == FD_LISTEN) for (int i = 0; i < f->nbacklog; i++) { m_close(f->backlog[i]); }
    for (int e = M_FD0; e < M_MAXFD; e++) if (m_fd[e].kind == FD_EPOLL) for (int i = 0; i < m_fd[e].nep; i++) if (m_fd[e].ep[i].fd == fd) { m_fd[e].ep[i] = m_fd[e].ep[--m_fd[e].nep]; i--; }
    f->kind = 0; m_closes++;
    return 0;
}
static int m_eintr(void) { if (m_eintr_budget > 0 && v_choose("eintr", 2)) { m_eintr_budget--; errno = EINTR; return 1; } return 0; }
static int m_shorten(int n) { if (n > 1 && m_short_budget > 0) { m_short_budget--; return 1 + v_choose("short", n); } return n; }
static int64_t m_nreads, m_nwrites;
static int m_sigpipes;
// blocking read/write on a thread: wait for the other threads / environment
static int m_wouldblock(struct m_file *f) {
    if (f->nonblock) { errno = EAGAIN; return 1; }
    int self = e_thread_self(); (void)self;
    if (m_pick_other(e_thread_self()) >= 0) { m_idle_threads(); return 0; }
    if (h_env(1)) return 0;
    h_deadlock(); e_kill();
}
ssize_t m_read(int fd, void *buf, size_t n) {
    m_preempt();
    struct m_file *f = m_file(fd); if (!f) return -1;
    m_nreads++;
    if (f->kind == FD_LISTEN || f->kind == FD_EPOLL || f->kind == FD_PIPE_W) { errno = f->kind == FD_PIPE_W ? EBADF : f->kind == FD_LISTEN ? ENOTCONN : EINVAL; return -1; }
    if (f->kind == FD_SOCK && f->cs != CS_CONNECTED) { errno = f->cs == CS_CONNECTING ? EAGAIN : ENOTCONN; return -1; }
    if (m_eintr()) return -1;
    if (n == 0) return 0;
    while (f->rx->n == 0) {
        if (f->kind == FD_FILE || !f->rx->wopen) { e_acq(f->rx); return 0; }
        if (m_wouldblock(f)) return -1;
        if (!f->kind) { errno = EBADF; return -1; }
    }
    int k = (size_t)f->rx->n < n ? f->rx->n : (int)n;
    k = m_shorten(k);
    e_acq(f->rx);
    for (int i = 0; i < k; i++) { ((unsigned char *)buf)[i] = f->rx->b[f->rx->r]; f->rx->r = (f->rx->r + 1) % f->rx->cap; }
    f->rx->n -= k; e_rel(f->rx);
    return k;
}
ssize_t m_write(int fd, const void *buf, size_t n) {
    m_preempt();
    struct m_file *f = m_file(fd); if (!f) return -1;
    m_nwrites++;
    if (f->kind == FD_LISTEN || f->kind == FD_EPOLL || f->kind == FD_PIPE_R) { errno = f->kind == FD_PIPE_R ? EBADF : f->kind == FD_LISTEN ? ENOTCONN : EINVAL; return -1; }
    if (f->kind == FD_SOCK && f->cs != CS_CONNECTED) { errno = f->cs == CS_CONNECTING ? EAGAIN : ENOTCONN; return -1; }
    if (m_eintr()) return -1;
    for (;;) {
        if (!f->tx->ropen) { m_sigpipes++; m_sigsync(SIGPIPE); errno = EPIPE; return -1; }
        if (n == 0) return 0;
        if (f->tx->n < f->tx->cap) break;
        if (f->kind == FD_FILE) break;
        if (m_wouldblock(f)) return -1;
        if (!f->kind) { errno = EBADF; return -1; }
    }
    int room = f->tx->cap - f->tx->n;
    int k = (size_t)room < n ? room : (int)n;
    k = m_shorten(k);
    e_acq(f->tx);
    for (int i = 0; i < k; i++) f->tx->b[(f->tx->r + f->tx->n + i) % f->tx->cap] = ((const unsigned char *)buf)[i];
    f->tx->n += k; f->tx->total += k; f->tx->t = m_now(); e_rel(f->tx);
    return k;
}
ssize_t m_send(int fd, const void *b, size_t n, int fl) { (void)fl; return m_write(fd, b, n); }
ssize_t m_recv(int fd, void *b, size_t n, int fl) { (void)fl; return m_read(fd, b, n); }

// readiness of a descriptor as epoll reports it
static uint32_t m_ready(int fd) {
    struct m_file *f = &m_fd[fd]; uint32_t r = 0;
    switch (f->kind) {
    case FD_PIPE_R: if (f->rx->n) r |= EPOLLIN; if (!f->rx->wopen) r |= EPOLLHUP; break;
    case FD_PIPE_W: if (f->tx->n < f->tx->cap) r |= EPOLLOUT; if (!f->tx->ropen) r |= EPOLLERR; break;
    case FD_SOCK:
        if (f->cs == CS_CONNECTED) {
            if (f->rx->n) r |= EPOLLIN;
            if (!f->rx->wopen) r |= EPOLLIN | EPOLLRDHUP;
            if (f->tx->n < f->tx->cap) r |= EPOLLOUT;
            if (!f->tx->ropen) r |= EPOLLOUT | EPOLLHUP;
        } else if (f->cs == CS_FAILED) r |= EPOLLIN | EPOLLOUT | EPOLLERR | EPOLLHUP;
        else if (f->cs == CS_NONE) r |= EPOLLOUT | EPOLLHUP;
        break;
    case FD_LISTEN: if (f->nbacklog) r |= EPOLLIN; break;
    }
    return r;
}
int m_epoll_create1(int fl) { (void)fl; if (m_fderr()) return -1; return m_newfd(FD_EPOLL); }
int m_epoll_create(int n) { (void)n; return m_epoll_create1(0); }
static int m_nctl;
int m_epoll_ctl(int ep, int op, int fd, struct epoll_event *ev) {
    struct m_file *e = m_file(ep); if (!e || e->kind != FD_EPOLL) { errno = EBADF; return -1; }
    struct m_file *f = m_file(fd); if (!f) return -1;
    if (f->kind == FD_FILE || f->kind == FD_EPOLL) { errno = EPERM; return -1; }
    m_nctl++;
    int i = 0; while (i < e->nep && e->ep[i].fd != fd) i++;
    if (op == EPOLL_CTL_ADD) {
        if (i < e->nep) { errno = EEXIST; return -1; }
        if (m_fderr()) return -1;
        if (e->nep >= M_MAXEP) e_kill();
        e->ep[i].fd = fd; e->nep++;
    } else if (i == e->nep) { errno = ENOENT; return -1; }
    if (op == EPOLL_CTL_DEL) { e->ep[i] = e->ep[--e->nep]; return 0; }
    e->ep[i].ev = ev->events; e->ep[i].data = ev->data.u64; e->ep[i].armed = 1;
    return 0;
}
static void m_resolve(void);
static int m_epoll_collect(struct m_file *e, struct epoll_event *evs, int mx) {
    int n = 0;
    for (int i = 0; i < e->nep && n < mx; i++) {
        if (!e->ep[i].armed) continue;
        uint32_t r = m_ready(e->ep[i].fd) & (e->ep[i].ev | EPOLLERR | EPOLLHUP);
        if (!r) continue;
        evs[n].events = r; evs[n].data.u64 = e->ep[i].data; n++;
        if (e->ep[i].ev & EPOLLONESHOT) e->ep[i].armed = 0;
    }
    return n;
}
static int m_polls, m_spins, m_maxspins = 400;
int m_epoll_wait(int ep, struct epoll_event *evs, int mx, int timeout) {
    struct m_file *e = m_file(ep); if (!e || e->kind != FD_EPOLL) { errno = EBADF; return -1; }
    m_polls++;
    if (m_sigpending_any() && m_deliver()) { errno = EINTR; return -1; }
    if (m_eintr()) return -1;
    h_env(0);
    int n = m_epoll_collect(e, evs, mx);
    timeout = (int)e_concrete((uint64_t)(unsigned)timeout);
    if (n) { m_spins = 0; return n; }
    if (timeout == 0) {
        // nothing ready: an idle poll. Time passes; other threads may run.
        m_resolve();
        m_T += m_spin; if (!m_clock_sane()) e_kill();
        if (m_pick_other(e_thread_self()) >= 0) m_idle_threads();
        if (++m_spins > m_maxspins) { if (m_deadlock_ok) e_kill(); h_deadlock(); }
        return m_epoll_collect(e, evs, mx);
    }
    m_spins = 0;
    m_resolve();
    n = m_epoll_collect(e, evs, mx);
    if (n) return n;
    int w = m_wait(timeout < 0 ? INT64_C(500000000) : (int64_t)timeout * 1000000);
    if (w == 2) { errno = EINTR; return -1; }
    return m_epoll_collect(e, evs, mx);
}
int m_epoll_pwait(int ep, struct epoll_event *evs, int mx, int timeout, const void *ss) { (void)ss; return m_epoll_wait(ep, evs, mx, timeout); }

// ------------------------------------------------------------ sockets
static int m_conn_policy;  // 0: connect completes at once, 1: symbolic (now / later / refused now / refused later), 2: never completes
int m_socket(int d, int t, int p) {
    (void)p;
    if (m_fderr()) return -1;
    int fd = m_newfd(FD_SOCK); if (fd < 0) return -1;
    m_fd[fd].family = d; m_fd[fd].nonblock = !!(t & SOCK_NONBLOCK); return fd;
}
int m_setsockopt(int fd, int l, int o, const void *v, socklen_t n) { (void)l; (void)n; struct m_file *f = m_file(fd); if (!f) return -1; if (m_fderr()) return -1; if (o == SO_REUSEADDR) f->reuse = *(const int *)v; return 0; }
int m_getsockopt(int fd, int l, int o, void *v, socklen_t *n) { (void)l; (void)n; struct m_file *f = m_file(fd); if (!f) return -1; if (o == SO_ERROR) { *(int *)v = f->err; f->err = 0; if (f->cs == CS_FAILED) f->cs = CS_NONE; } return 0; }
static char m_names[4][108]; static int m_nnames; static int m_name(const char *p);
int m_bind(int fd, const struct sockaddr *a, socklen_t n) {
    struct m_file *f = m_file(fd); if (!f) return -1;
    if (m_fderr()) return -1;
    if (n > sizeof f->addr || n < 2) { errno = EINVAL; return -1; }
    if (a->sa_family == AF_UNIX && n > 2 && ((const char *)a)[2]) {
        if (m_name((const char *)a + 2) >= 0) { errno = EADDRINUSE; return -1; }
        if (m_nnames >= 4) e_kill();
        for (int k = 0; k < 108 && 2 + k < (int)n; k++) m_names[m_nnames][k] = ((const char *)a)[2 + k];
        m_nnames++;
    }
    __builtin_memcpy(f->addr, a, n); f->addrlen = (int)n; f->bound = 1; return 0;
}
int m_listen(int fd, int b) { (void)b; struct m_file *f = m_file(fd); if (!f) return -1; if (m_fderr()) return -1; f->kind = FD_LISTEN; return 0; }
static int m_establish(int fd, int lfd) {
    struct m_file *f = &m_fd[fd], *l = &m_fd[lfd];
    if (l->nbacklog >= 4) return -1;
    int p = m_newfd(FD_SOCK); if (p < 0) return -1;
    m_fd[p].rx = f->tx = m_newbuf(); m_fd[p].tx = f->rx = m_newbuf(); m_fd[p].cs = f->cs = CS_CONNECTED; m_fd[p].family = f->family;
    l->backlog[l->nbacklog++] = p; return 0;
}
static int m_findlisten(const struct sockaddr *a, socklen_t n) {
    for (int i = M_FD0; i < M_MAXFD; i++) if (m_fd[i].kind == FD_LISTEN && m_fd[i].addrlen == (int)n && m_memcmp(m_fd[i].addr, a, n) == 0) return i;
    return -1;
}
static int m_connects;
static int m_nconn, m_conn_tgt[8], m_conn_pol[8]; // every attempt: address and outcome
int m_connect(int fd, const struct sockaddr *a, socklen_t n) {
    struct m_file *f = m_file(fd); if (!f) return -1;
    if (f->kind != FD_SOCK) { errno = EOPNOTSUPP; return -1; }
    m_connects++;
    if (f->cs == CS_CONNECTED) { errno = EISCONN; return -1; }
    if (f->cs == CS_CONNECTING) { errno = EALREADY; return -1; }
    if (f->cs == CS_FAILED) { f->cs = CS_NONE; errno = f->err ? f->err : ECONNREFUSED; f->err = 0; return -1; }
    int l = m_findlisten(a, n);
    int pol = m_conn_policy == 1 ? v_choose("connect", 4) : m_conn_policy == 3 ? v_choose("connect", 5) : m_conn_policy == 2 ? 4 : 0;
    if (m_nconn < 8) { m_conn_tgt[m_nconn] = a->sa_data[0]; m_conn_pol[m_nconn] = pol; m_nconn++; }
    if (pol == 2 || (l < 0 && pol == 0)) { errno = ECONNREFUSED; return -1; }
    if (pol == 0) { if (m_establish(fd, l) < 0) { errno = ECONNREFUSED; return -1; } return 0; }
    f->cs = CS_CONNECTING; f->target = pol == 4 ? -2 : (pol == 1 && l >= 0) ? l : -1;
    errno = EINPROGRESS;
    if (!f->nonblock) v_fail("blocking connect on the runtime thread");
    return -1;
}
// connections in progress complete while the process waits
static void m_resolve(void) {
    for (int i = M_FD0; i < M_MAXFD; i++) if (m_fd[i].kind == FD_SOCK && m_fd[i].cs == CS_CONNECTING) {
        int t = m_fd[i].target;
        if (t == -2) continue;
        if (t >= 0 && m_fd[t].kind == FD_LISTEN && m_establish(i, t) == 0) continue;
        m_fd[i].cs = CS_FAILED; m_fd[i].err = ECONNREFUSED;
    }
}
int m_accept4(int fd, struct sockaddr *a, socklen_t *n, int fl) {
    struct m_file *f = m_file(fd); if (!f) return -1;
    if (f->kind != FD_LISTEN) { errno = EINVAL; return -1; }
    if (m_eintr()) return -1;
    if (!f->nbacklog) { if (!f->nonblock) v_fail("blocking accept on the runtime thread"); errno = EAGAIN; return -1; }
    int p = f->backlog[0]; for (int i = 1; i < f->nbacklog; i++) f->backlog[i - 1] = f->backlog[i];
    f->nbacklog--;
    m_fd[p].nonblock = !!(fl & SOCK_NONBLOCK);
    if (a && n) { if (*n >= 2) ((uint16_t *)a)[0] = (uint16_t)f->family; *n = 2; }
    return p;
}
int m_accept(int fd, struct sockaddr *a, socklen_t *n) { return m_accept4(fd, a, n, 0); }
int m_shutdown(int fd, int how) { struct m_file *f = m_file(fd); if (!f) return -1; if (how != SHUT_RD && f->tx) f->tx->wopen = 0; if (how != SHUT_WR && f->rx) f->rx->ropen = 0; return 0; }
int m_getsockname(int fd, struct sockaddr *a, socklen_t *n) { struct m_file *f = m_file(fd); if (!f) return -1; __builtin_memset(a, 0, *n); a->sa_family = (unsigned short)f->family; *n = 16; return 0; }
// names of unix sockets in the file system
static char m_names[4][108]; static int m_nnames;
static int m_name(const char *p) { for (int i = 0; i < m_nnames; i++) { int k = 0; while (k < 107 && p[k] && p[k] == m_names[i][k]) k++; if (p[k] == m_names[i][k]) return i; } return -1; }
static int m_nounlink;
int m_unlink(const char *p) {
    if (m_nounlink) return 0;
    int i = m_name(p);
    if (i < 0) { errno = ENOENT; return -1; }
    m_nnames--; for (int k = 0; k < 108; k++) m_names[i][k] = m_names[m_nnames][k];
    return 0;
}

// ------------------------------------------------------------ name resolution
static int m_gai_calls; static char m_gai_node[200], m_gai_service[40]; static int m_gai_family, m_gai_nodenull, m_gai_socktype, m_gai_protocol, m_gai_flags;
static int m_gai_n = 1;        // number of results
static int m_gai_err;          // EAI_* to return
static int m_gai_live;
static int m_gai_errno = EIO;  // with EAI_SYSTEM
static int m_gai_hold, m_gai_go; // the resolver takes until m_gai_go is set
static int m_gai_threads;      // background threads that resolved something
static int m_inet_digits(const char *s) { int d = 0, k = 0; for (; *s; s++) { if (*s == '.') d++; else if (*s < '0' || *s > '9') return 0; else k++; } return d == 3 && k >= 4; }
static int m_inet6ish(const char *s) { int c = 0; for (; *s; s++) { if (*s == ':') c++; else if (!((*s >= '0' && *s <= '9') || (*s >= 'a' && *s <= 'f'))) return 0; } return c >= 2; }
int m_inet_pton(int af, const char *s, void *d) { if (af == AF_INET) return m_inet_digits(s); (void)d; return m_inet6ish(s); }
int m_getaddrinfo(const char *node, const char *service, const struct addrinfo *h, struct addrinfo **res) {
    m_preempt();
    if (m_gai_hold && e_thread_self()) { m_gai_threads++; while (!m_gai_go) m_sched_yield(); }
    else if (m_gai_hold && !(node && (m_inet_digits(node) || m_inet6ish(node)))) v_fail("the resolver blocked the thread of the coroutines");
    m_gai_calls++;
    m_gai_nodenull = node == 0;
    m_strncpy(m_gai_node, node ? node : "", sizeof m_gai_node - 1);
    m_strncpy(m_gai_service, service ? service : "", sizeof m_gai_service - 1);
    m_gai_family = h ? h->ai_family : -1; m_gai_socktype = h ? h->ai_socktype : 0; m_gai_protocol = h ? h->ai_protocol : 0; m_gai_flags = h ? h->ai_flags : 0;
    if (h) v_check(h->ai_addrlen == 0 && !h->ai_addr && !h->ai_canonname && !h->ai_next, "hints for the resolver with fields that must be zero");
    if (m_gai_err) { if (m_gai_err == EAI_SYSTEM) errno = m_gai_errno; return m_gai_err; }
    struct addrinfo *first = 0, **pp = &first;
    for (int i = 0; i < m_gai_n; i++) {
        struct addrinfo *a = e_malloc(sizeof *a + 32); m_gai_live++;
        __builtin_memset(a, 0, sizeof *a + 32);
        a->ai_family = h && h->ai_family ? h->ai_family : AF_INET; a->ai_socktype = SOCK_STREAM; a->ai_protocol = IPPROTO_TCP;
        a->ai_addr = (struct sockaddr *)(a + 1); a->ai_addrlen = 16; a->ai_addr->sa_family = (unsigned short)a->ai_family; a->ai_addr->sa_data[0] = (char)(i + 1);
        *pp = a; pp = &a->ai_next;
    }
    *res = first;
    return 0;
}
void m_freeaddrinfo(struct addrinfo *a) { while (a) { struct addrinfo *n = a->ai_next; m_gai_live--; e_free(a); a = n; } }
static int m_open_fds(void) { int n = 0; for (int i = M_FD0; i < M_MAXFD; i++) if (m_fd[i].kind) n++; return n; }

// everything the runtime took from the system has been given back
static void m_check_clean(uint64_t live0) {
    v_check(e_live() == live0, "memory leaked by the runtime");
    v_check(m_mapped == 0, "stack mapping leaked by the runtime");
}
