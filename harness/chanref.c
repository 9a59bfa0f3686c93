// Reference counting of channels and generators: the object lives exactly as long as somebody holds it.
#include "h.h"
#ifndef K
#define K 5
#endif
static neco_chan *ch; static int refs = 1, closed, q[8], qh, qt, cap;
static void other(int argc, void *argv[]) { (void)argc; neco_chan *c = argv[0]; // holds its own reference
    h_sleep(h_dur("hold", 2));
    int x = 55; 
    if (!closed && qt - qh < cap) { q[qt++] = x; v_check(neco_chan_send(c, &x) == OK, "send through a second reference"); }
    refs--; v_check(neco_chan_release(c) == OK, "release");
}
static void co_main(int argc, void *argv[]) { (void)argc; (void)argv;
    cap = 1 + v_choose("cap", 3);
    uint64_t l0 = e_live();
    v_check(neco_chan_make(&ch, sizeof(int), (size_t)cap) == OK, "make");
    uint64_t l1 = e_live(); v_check(l1 > l0, "harness");
    int64_t oid = 0; int shared = v_choose("shared", 2);
    if (shared) { neco_chan_retain(ch); refs++; neco_start(other, 1, ch); oid = neco_lastid(); }
    for (int k = 0; k < K && refs > shared; k++) {
        int x = 100 + k, r;
        switch (v_choose("do", 6)) {
        case 0: refs++; v_check(neco_chan_retain(ch) == OK, "retain"); break;
        case 1: if (refs == 1 + (shared && oid != 0)) break; refs--; v_check(neco_chan_release(ch) == OK, "release"); break;
        case 2: if (qt - qh >= cap && !closed) break; r = neco_chan_send(ch, &x); if (closed) v_check(r == NECO_CLOSED, "send on closed"); else { v_check(r == OK, "send"); q[qt++] = x; } break;
        case 3: r = neco_chan_tryrecv(ch, &x); if (qh < qt) { v_check(r == OK && x == q[qh], "message"); qh++; } else v_check(r == (closed ? NECO_CLOSED : NECO_EMPTY), "try on an empty channel"); break;
        case 4: r = neco_chan_close(ch); v_check(r == (closed ? NECO_CLOSED : OK), "close"); closed = 1; break;
        case 5: if (shared) { neco_sleep(2 * MS); if (refs) { neco_join(oid); oid = 0; shared = 0; } } break;
        }
        v_check(e_live() > l0, "the channel was freed while it is referenced");
    }
    if (oid) { while (refs > 1) { if (refs == 2) break; refs--; neco_chan_release(ch); } }
    if (oid) { refs--; v_check(neco_chan_release(ch) == OK, "release"); neco_join(oid); v_cover(1); } // the other one holds the last reference
    else { while (refs > 1) { refs--; neco_chan_release(ch); v_check(e_live() > l0, "the channel was freed while it is referenced"); } refs--; uint64_t before = e_live(); v_check(neco_chan_release(ch) == OK, "release"); v_check(e_live() < before, "the last release did not free the channel"); v_cover(2); }
    v_check(refs == 0, "harness");
}
void main_harness(void) { h_run(co_main); e_end(); }
