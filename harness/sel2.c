// Two selectors waiting on the same channel.
#include "h.h"
static neco_chan *ch;
static int got[4], ngot;
static void selector(int argc, void *argv[]) {
    (void)argc; (void)argv;
    h_sleep(h_dur("seldelay", 2));
    int r = neco_chan_select(1, ch), x = 0;
    if (r == 0 && neco_chan_case(ch, &x) == NECO_OK) got[ngot++] = x;
}
static void sender(int argc, void *argv[]) {
    (void)argc; (void)argv;
    h_sleep(h_dur("sdelay", 2));
    int x = 10 + (int)(intptr_t)argv[0];
    v_check(neco_chan_send(ch, &x) == NECO_OK, "send failed");
}
static void co_main(int argc, void *argv[]) {
    (void)argc; (void)argv;
    neco_chan_make(&ch, sizeof(int), (size_t)v_choose("cap", 2));
    int64_t id[4];
    neco_start(selector, 0); id[0] = neco_lastid();
    neco_start(selector, 0); id[1] = neco_lastid();
    neco_start(sender, 1, (void *)0); id[2] = neco_lastid();
    neco_start(sender, 1, (void *)1); id[3] = neco_lastid();
    for (int i = 0; i < 4; i++) neco_join(id[i]);
    v_check(ngot == 2, "a message was lost");
    int sum = 0; for (int i = 0; i < ngot; i++) sum += got[i];
    v_check(sum == 21 && got[0] != got[1], "one message delivered twice, another lost");
    neco_chan_release(ch);
}
void main_harness(void) { h_run(co_main); e_end(); }
