// One allocation fails while the runtime starts: start reports it, nothing is left behind, and
// the next start works.
#include "h.h"
static int ran;
static void child(int argc, void *argv[]) { (void)argc; (void)argv; ran += 10; }
static void co_main(int argc, void *argv[]) { v_check(argc == 6 && argv[5] == (void *)6, "arguments"); ran++; m_oom_budget = 0; neco_start(child, 0); neco_sleep(MS); }
void main_harness(void) {
    uint64_t live0 = e_live();
    m_oom_budget = 1;
    int fds = m_open_fds();
    int r = neco_start(co_main, 6, (void *)1, (void *)2, (void *)3, (void *)4, (void *)5, (void *)6);
    v_check(r == NECO_OK || r == NECO_NOMEM, "an allocation failure was reported as something else");
    if (r == NECO_NOMEM) { v_check(m_ooms == 1 && !ran, "start failed but ran"); v_check(neco_lasterr() == NECO_NOMEM, "last error"); v_cover(1); } else { v_check(ran == 11, "not run"); v_cover(2); }
    m_oom_budget = 0;
    m_check_clean(live0);
    v_check(m_open_fds() == fds, "descriptor leaked");
    for (int s = 1; s < 32; s++) v_check(!m_sig[s].set, "signal handler left behind");
    v_check(m_altstack == 0, "signal stack left behind");
    v_check(neco_getid() == NECO_PERM, "a runtime is left behind");
    ran = 0;
    v_check(neco_start(co_main, 6, (void *)1, (void *)2, (void *)3, (void *)4, (void *)5, (void *)6) == NECO_OK && ran == 11, "cannot start after a failed start");
    m_check_clean(live0);
    e_end();
}
