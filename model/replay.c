// Native implementation of the engine primitives: runs one harness with the
// concrete values of one path (a counterexample or a sampled passing path).
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <signal.h>
#include <unistd.h>
#include <pthread.h>
#include <semaphore.h>
#include <sys/mman.h>
#include <sys/resource.h>

#define MAXV 4096
static struct { int w; uint64_t v; char n[64]; } vals[MAXV];
static int nvals, pos;
static void out(const char *s) { ssize_t r = write(1, s, strlen(s)); (void)r; }
static void die(int code, const char *what, const char *msg) { char b[600]; snprintf(b, sizeof b, "%s %s\n", what, msg); out(b); _exit(code); }
uint64_t e_sym(int width, const char *name) {
    if (pos >= nvals) die(3, "DIVERGED", "more symbolic values requested than on the path");
    if (vals[pos].w != width || strcmp(vals[pos].n, name)) die(3, "DIVERGED", name);
    return vals[pos++].v;
}
void e_assume(int c) { if (!c) die(3, "DIVERGED", "assumption false"); }
void e_check(int c, const char *m) { if (!c) die(1, "VIOLATED", m); }
void e_fail(const char *m) { die(1, "VIOLATED", m); __builtin_unreachable(); }
void e_log(uint64_t t, uint64_t v) { char b[80]; snprintf(b, sizeof b, "LOG %llu %llu\n", (unsigned long long)t, (unsigned long long)v); out(b); }
void e_end(void) { die(0, "END", "ok"); __builtin_unreachable(); }
void e_kill(void) { die(4, "KILLED", ""); __builtin_unreachable(); }
uint64_t e_concrete(uint64_t v) { return v; }
int e_is_sym(uint64_t v) { (void)v; return 0; }
void e_cover(int id) { (void)id; }
void e_acq(void *o) { (void)o; }
void e_rel(void *o) { (void)o; }
void e_raceon(void) {}
int e_maybe(int c) { return c; }
// guarded allocations; addresses are never reused
static struct al { char *p; size_t n, tot; char *base; int live; } *als; static int nals, capals; static uint64_t nlive;
void *e_malloc(uint64_t n) {
    if (n > 0x8000000) return 0;
    size_t a = (n + 15) & ~(size_t)15, pages = ((a ? a : 16) + 4095) / 4096;
    char *b = mmap(0, (pages + 2) * 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    if (b == MAP_FAILED) die(7, "NATIVE-OOM", "");
    mprotect(b, 4096, PROT_NONE); mprotect(b + (pages + 1) * 4096, 4096, PROT_NONE);
    char *p = b + (pages + 1) * 4096 - a;
    memset(p, 0xCD, a);
    if (nals == capals) { capals = capals ? capals * 2 : 256; als = realloc(als, sizeof *als * capals); }
    als[nals++] = (struct al){p, n, (pages + 2) * 4096, b, 1}; nlive++;
    return p;
}
static struct al *find(void *p) { for (int i = nals - 1; i >= 0; i--) if (als[i].p == p && als[i].live) return &als[i]; return 0; }
void e_free(void *p) {
    struct al *a = find(p);
    if (!a) die(5, "CRASH", "free of an invalid pointer");
    for (size_t i = a->n; i < ((a->n + 15) & ~(size_t)15); i++) if ((unsigned char)a->p[i] != 0xCD) die(5, "CRASH", "write past the end of an allocation");
    a->live = 0; nlive--; mprotect(a->base, a->tot, PROT_NONE);
}
uint64_t e_allocsize(void *p) { struct al *a = find(p); if (!a) die(5, "CRASH", "realloc of an invalid pointer"); return a->n; }
uint64_t e_live(void) { return nlive; }
void *e_map(void *addr, uint64_t n) {
    if (addr) { mprotect(addr, n, PROT_READ | PROT_WRITE); memset(addr, 0, n); return addr; }
    char *b = mmap(0, n + 8192 * 4, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (b == MAP_FAILED) die(7, "NATIVE-OOM", "");
    mprotect(b + 16384, n, PROT_READ | PROT_WRITE);
    return b + 16384;
}
void e_unmap(void *addr, uint64_t n, int kind) { mprotect(addr, n, kind == 2 ? PROT_READ | PROT_WRITE : PROT_NONE); }
// threads: one runs at a time
static sem_t sems[64]; static int nth = 1; static __thread int self;
struct ta { int id; void (*fn)(void *); void *arg; };
static void *tmain(void *a) { struct ta t = *(struct ta *)a; free(a); self = t.id; sem_wait(&sems[t.id]); t.fn(t.arg); return 0; }
int e_thread_new(void (*fn)(void *), void *arg) {
    struct ta *t = malloc(sizeof *t); t->id = nth; t->fn = fn; t->arg = arg; sem_init(&sems[nth], 0, 0);
    pthread_t th; if (pthread_create(&th, 0, tmain, t)) die(7, "NATIVE-THREAD", "");
    pthread_detach(th); return nth++;
}
static __thread int dead;
void e_thread_switch(int id) { if (id == self) return; int me = self; sem_post(&sems[id]); if (dead) { for (;;) pause(); } while (sem_wait(&sems[me])) {} }
int e_thread_self(void) { return self; }
void e_thread_done(void) { dead = 1; }
static void onsig(int s) { die(s == SIGALRM ? 6 : 5, s == SIGALRM ? "HANG" : "CRASH", s == SIGALRM ? "no progress" : s == SIGSEGV || s == SIGBUS ? "invalid memory access" : s == SIGILL || s == SIGTRAP ? "trap" : "signal"); }
void main_harness(void);
int main(int argc, char **argv) {
    FILE *f = argc > 1 ? fopen(argv[1], "r") : 0;
    if (f) { unsigned long long v; int w; char n[64]; while (nvals < MAXV && fscanf(f, "%d %llu %63s", &w, &v, n) == 3) { vals[nvals].w = w; vals[nvals].v = v; strcpy(vals[nvals].n, n); nvals++; } fclose(f); }
    static char alt[65536]; stack_t ss = {.ss_sp = alt, .ss_size = sizeof alt}; sigaltstack(&ss, 0);
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = onsig; sa.sa_flags = SA_ONSTACK | SA_NODEFER;
    sigaction(SIGSEGV, &sa, 0); sigaction(SIGBUS, &sa, 0); sigaction(SIGILL, &sa, 0); sigaction(SIGTRAP, &sa, 0); sigaction(SIGFPE, &sa, 0); sigaction(SIGABRT, &sa, 0); sigaction(SIGALRM, &sa, 0);
    sem_init(&sems[0], 0, 0);
    alarm(10);
    main_harness();
    die(0, "END", "returned");
}
