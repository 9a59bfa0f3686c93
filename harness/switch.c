// Linked into the executable whose context switch is checked (engine/x86.py), and run to replay a counterexample.
#include "neco.c"
#include <stdio.h>
#include <stdlib.h>
typedef unsigned long u64;
// load rbx rbp r12-r15 from in, call f(a, b, c, d), store them to out
void vp_call(const u64 *in, u64 *out, void *f, void *a, void *b, void *c, u64 d);
__asm__(".text\n.globl vp_call\nvp_call:\n"
    " push %rbx\n push %rbp\n push %r12\n push %r13\n push %r14\n push %r15\n push %rsi\n"
    " mov %rdi, %rax\n mov %rdx, %r10\n mov %rcx, %rdi\n mov %r8, %rsi\n mov %r9, %rdx\n mov 64(%rsp), %rcx\n"
    " mov (%rax), %rbx\n mov 8(%rax), %rbp\n mov 16(%rax), %r12\n mov 24(%rax), %r13\n mov 32(%rax), %r14\n mov 40(%rax), %r15\n"
    " call *%r10\n"
    " pop %rsi\n mov %rbx, (%rsi)\n mov %rbp, 8(%rsi)\n mov %r12, 16(%rsi)\n mov %r13, 24(%rsi)\n mov %r14, 32(%rsi)\n mov %r15, 40(%rsi)\n"
    " pop %r15\n pop %r14\n pop %r13\n pop %r12\n pop %rbp\n pop %rbx\n ret\n");
static struct llco A, B; static u64 ra[6], rb[6], oa[6], ob[6];
static char *stk; static size_t stksz; static const char *bad;
static void entry(void *u) {
    volatile char here __attribute__((aligned(16))) = 0;
    if ((u64)&here % 16) bad = "the start routine runs on a stack that is not aligned";
    if ((char *)&here < stk || (char *)&here >= stk + stksz) bad = "the start routine does not run on the coroutine's own stack";
    if (u != (void *)7) bad = "the start routine gets a wrong argument";
    vp_call(rb, ob, (void *)llco_switch1, &B, &A, 0, 0);
    for (int i = 0; i < 6; i++) if (rb[i] != ob[i]) bad = "a register is not preserved across a switch";
    for (;;) llco_switch1(&B, &A, 0, 0);
}
int main(int argc, char **argv) {
    if (argc == 2) { printf("%zu\n", sizeof(struct llco)); return 0; }
    for (int i = 0; i < 6; i++) { ra[i] = argc > 6 + i ? strtoul(argv[1 + i], 0, 0) : 1111u * (i + 1); rb[i] = argc > 12 ? strtoul(argv[7 + i], 0, 0) : 7777u * (i + 1); if (ra[i] == rb[i]) rb[i] ^= 0x5a5a; }
    stksz = 65536; stk = aligned_alloc(4096, stksz + 8192); if (!stk) return 2;
    for (size_t i = 0; i < stksz + 8192; i++) stk[i] = 0x77;
    stk += 4096;
    llco_desc = (struct llco_desc){ .stack = stk, .stack_size = stksz, .entry = entry, .udata = (void *)7 };
    vp_call(ra, oa, (void *)llco_switch1, &A, 0, stk, stksz);
    for (int i = 0; i < 6; i++) if (ra[i] != oa[i]) bad = "a register is not preserved across a switch";
    vp_call(ra, oa, (void *)llco_switch1, &A, &B, 0, 0);
    for (int i = 0; i < 6; i++) if (ra[i] != oa[i]) bad = "a register is not preserved across a switch";
    for (int i = 0; i < 4096; i++) if (stk[-4096 + i] != 0x77 || stk[stksz + i] != 0x77) bad = "the switch writes to memory that is not its own";
    puts(bad ? bad : "END");
    return bad != 0;
}
