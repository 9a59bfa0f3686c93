// Large numbers: every fixed-size table, batch or buffer of the runtime is exceeded. The patterns are
// concrete, a few parameters are symbolic.
#include "h.h"
#define ID(x) ((void *)(intptr_t)(x))
#define ME ((int)(intptr_t)argv[0])
static unsigned lcg; static unsigned rnd(unsigned n) { lcg = lcg * 1103515245u + 12345u; return (lcg >> 16) % n; }
static const int STRIDES[] = {1, 7, 13, 39};

#ifdef SLEEP
#define N 40
static int64_t due[N], ids[N]; static int woke, canceled[N]; static int64_t last;
static void sleeper(int argc, void *argv[]) {
    (void)argc; int me = ME;
    int r = neco_sleep_dl(due[me]);
    int64_t now = m_now();
    if (canceled[me]) { v_check(r == NECO_CANCELED, "a canceled sleep"); woke++; return; }
    v_check(r == OK && now > due[me] && now - due[me] < MS, "a sleep ended at the wrong time");
    v_check(due[me] >= last, "sleepers woke out of order"); last = due[me]; woke++;
}
static void co_main(int argc, void *argv[]) {
    (void)argc; (void)argv;
    neco_env_setcanceltype(NECO_CANCEL_INLINE);
    int st = STRIDES[v_choose("stride", 4)], cn = v_choose("cancel", 4);
    int64_t t0 = neco_now() + 20 * MS;
    for (int i = 0; i < N; i++) { due[i] = t0 + (i * st % 40) / (1 + (st == 7)) * 2 * MS; neco_start(sleeper, 1, ID(i)); ids[i] = neco_lastid(); }
    neco_sleep(MS);
    if (cn) for (int i = cn; i < N; i += cn) { canceled[i] = 1; v_check(neco_cancel(ids[i]) == OK, "cancel"); }
    for (int i = 0; i < N; i++) neco_join(ids[i]);
    v_check(woke == N, "not all sleepers came back"); v_cover(1);
}
#endif

#ifdef RING
static const int CAPS[] = {0, 1, 3, 16, 40}, SZS[] = {0, 1, 8, 200};
static neco_chan *ch; static int sz, got, M = 90;
static void pat(unsigned char *b, int i) { for (int k = 0; k < sz; k++) b[k] = (unsigned char)(i * 7 + k); }
static void sender(int argc, void *argv[]) {
    (void)argc; (void)argv; unsigned char b[200];
    for (int i = 0; i < M; i++) { pat(b, i); v_check(neco_chan_send(ch, b) == OK, "send"); if (rnd(3) == 0) neco_yield(); }
    v_check(neco_chan_close(ch) == OK, "close");
}
static void co_main(int argc, void *argv[]) {
    (void)argc; (void)argv; unsigned char b[208], w[208];
    int cap = CAPS[v_choose("cap", 5)]; sz = SZS[v_choose("size", 4)]; lcg = 5 + v_choose("pattern", 3);
    v_check(neco_chan_make(&ch, sz, cap) == OK, "make");
    neco_start(sender, 0);
    for (;;) {
        b[sz] = 0x77;
        int r = rnd(2) ? neco_chan_recv(ch, b) : neco_chan_recv_dl(ch, b, neco_now() + 100 * MS);
        if (r == NECO_CLOSED) break;
        v_check(r == OK && b[sz] == 0x77, "receive");
        pat(w, got); for (int k = 0; k < sz; k++) v_check(b[k] == w[k], "message changed or out of order");
        got++; if (rnd(4) == 0) neco_sleep(MS / 10);
    }
    v_check(got == M, "messages lost or invented"); neco_chan_release(ch); v_cover(1);
}
#endif

#ifdef QUEUE
#define N 20
static neco_chan *ch; static int64_t ids[N]; static int canceled[N], res[N], gotv[N];
static void sender(int argc, void *argv[]) { (void)argc; int v = ME; res[v] = neco_chan_send(ch, &v); }
static void receiver(int argc, void *argv[]) { (void)argc; int me = ME, v = -1; res[me] = neco_chan_recv(ch, &v); gotv[me] = v; }
static void co_main(int argc, void *argv[]) {
    (void)argc; (void)argv; int rx = v_choose("receivers", 2), cn = v_choose("cancel", 4), stop = v_choose("close_after", 3) * 6;
    neco_env_setcanceltype(NECO_CANCEL_INLINE);
    neco_chan_make(&ch, sizeof(int), 0);
    for (int i = 0; i < N; i++) { res[i] = 99; neco_start(rx ? receiver : sender, 1, ID(i)); ids[i] = neco_lastid(); }
    if (cn) for (int i = cn; i < N; i += cn) { canceled[i] = 1; v_check(neco_cancel(ids[i]) == OK, "cancel"); neco_join(ids[i]); v_check(res[i] == NECO_CANCELED, "canceled"); }
    int next = 0, k = 0;
    for (; next < N; next++) {
        if (canceled[next]) continue;
        if (k == stop && k) break;
        k++;
        if (rx) { int v = next + 1000; v_check(neco_chan_send(ch, &v) == OK, "send"); neco_join(ids[next]); v_check(res[next] == OK && gotv[next] == v, "the receiver that waited longest was passed over"); }
        else { int v = -1; v_check(neco_chan_recv(ch, &v) == OK && v == next, "senders were not served in order"); neco_join(ids[next]); v_check(res[next] == OK, "send result"); }
    }
    v_check(neco_chan_close(ch) == OK, "close");
    for (; next < N; next++) if (!canceled[next]) {
        if (!rx) { int v = -1; v_check(neco_chan_recv(ch, &v) == OK && v == next, "a waiting sender was lost by close"); }
        neco_join(ids[next]); v_check(res[next] == (rx ? NECO_CLOSED : OK), "result after close");
    }
    int v; v_check(neco_chan_recv(ch, &v) == NECO_CLOSED, "closed"); neco_chan_release(ch); v_cover(1);
}
#endif

#ifdef SELECT
#define MAXC 12
static neco_chan *ch[MAXC]; static int which, how;
static void tx(int argc, void *argv[]) { (void)argc; (void)argv; int v = 100 + which; neco_sleep(MS); if (how == 2) neco_chan_close(ch[which]); else if (how == 3) v_check(neco_chan_broadcast(ch[which], &v) == 1, "broadcast"); else v_check(neco_chan_send(ch[which], &v) == OK, "send"); }
static void co_main(int argc, void *argv[]) {
    (void)argc; (void)argv; int n = 7 + v_choose("n", 6), r, v = -1; how = v_choose("how", 6); which = v_choose("which", 12); if (which >= n) which = n - 1;
    for (int i = 0; i < n; i++) neco_chan_make(&ch[i], sizeof(int), how == 1);
    int64_t id = 0;
    if (how < 4) { neco_start(tx, 0); id = neco_lastid(); if (how == 1) neco_sleep(2 * MS); }
    int64_t t0 = m_now();
    r = how == 5 ? neco_chan_tryselectv(n, ch) : neco_chan_selectv_dl(n, ch, neco_now() + 5 * MS);
    if (how >= 4) { v_check(r == (how == 5 ? NECO_EMPTY : NECO_TIMEDOUT), "select of nothing"); v_check(how == 5 ? m_now() - t0 < 500 * US : m_now() - t0 >= 5 * MS, "time"); }
    else { v_check(r == which, "wrong channel selected"); int q = neco_chan_case(ch[which], &v); v_check(how == 2 ? q == NECO_CLOSED : q == OK && v == 100 + which, "selected message"); neco_join(id); }
    for (int i = 0; i < n; i++) { v_check(neco_chan_tryrecv(ch[i], &v) == (how == 2 && i == which ? NECO_CLOSED : NECO_EMPTY), "another channel was touched"); int x = 5; if (!(how == 2 && i == which)) v_check(neco_chan_send_dl(ch[i], &x, neco_now() + (how == 1 ? MS : 0)) == (how == 1 ? OK : NECO_TIMEDOUT), "a receiver was left behind on a channel"); neco_chan_release(ch[i]); }
    v_cover(1 + how);
}
#endif

#ifdef COS
#ifndef N
#define N 90
#endif
static int64_t ids[2 * N]; static int ran, ended, nids; static unsigned char *lo[N];
static void child(int argc, void *argv[]) {
    v_check(argc == 6, "argument count");
    int me = ME, st = (int)(intptr_t)argv[1]; volatile char loc[64]; lo[me] = (unsigned char *)loc;
    for (int i = 0; i < 64; i++) loc[i] = (char)(me + i);
    ids[nids++] = neco_getid(); ran++;
    neco_sleep((1 + (me * st) % 17) * MS);
    for (int i = 0; i < 64; i++) v_check(loc[i] == (char)(me + i), "a local variable was changed by another coroutine");
    for (int i = 2; i < 6; i++) v_check(argv[i] == ID(me * 10 + i), "an argument was changed");
    ended++;
}
static void co_main(int argc, void *argv[]) {
    (void)argc; (void)argv; int st = STRIDES[v_choose("stride", 4)];
    for (int round_ = 0; round_ < 2; round_++) {
        for (int i = 0; i < N; i++) v_check(neco_start(child, 6, ID(i), ID(st), ID(i * 10 + 2), ID(i * 10 + 3), ID(i * 10 + 4), ID(i * 10 + 5)) == OK, "start");
        neco_stats s; neco_getstats(&s); v_check((int)s.coroutines == N + 1 && (int)s.sleepers == N, "statistics");
        for (int i = 0; i < N; i++) for (int j = i + 1; j < N; j += 11) v_check(lo[i] - lo[j] >= 64 || lo[j] - lo[i] >= 64, "stacks overlap");
        for (int i = 0; i < N; i++) v_check(neco_join(ids[round_ * N + i]) == OK, "join");
        v_check(ended == (round_ + 1) * N, "join returned early");
        if (round_ == 0) neco_sleep(v_choose("pause", 2) ? 150 * MS : MS);
    }
    for (int i = 1; i < 2 * N; i++) v_check(ids[i] > ids[i - 1], "identifiers");
    v_cover(1);
}
#endif

#ifdef ARGS
static int64_t want; static int done, NA;
static void child(int argc, void *argv[]) { v_check(argc == NA, "argument count"); for (int k = 0; k < 2; k++) { for (int i = 0; i < argc; i++) v_check(argv[i] == ID(i * 3 + 1), "argument"); neco_sleep(MS); } done++; }
static void other(int argc, void *argv[]) { (void)argc; for (int i = 0; i < argc; i++) argv[i] = 0; neco_sleep(3 * MS); }
static void co_main(int argc, void *argv[]) {
    (void)argc; (void)argv; static const int NAS[] = {0, 3, 4, 5, 8, 9, 16, 17, 64, 100}; NA = NAS[v_choose("argc", 10)]; void *a[100];
    for (int r = 0; r < 2; r++) {
        for (int i = 0; i < NA; i++) a[i] = ID(i * 3 + 1);
        v_check(neco_startv(child, NA, a) == OK, "start"); for (int i = 0; i < 100; i++) a[i] = 0; int64_t id = neco_lastid();
        v_check(neco_startv(other, NA, a) == OK, "start");
        neco_join(id);
    }
    v_check(done == 2, "ran"); v_cover(1);
}
#endif

#ifdef FDS
#define N 20
static int p[N][2], isready[N], done[N], dir; static int64_t t1;
static void waiter(int argc, void *argv[]) {
    (void)argc; int me = ME; int64_t dl = neco_now() + 40 * MS;
    int r = neco_wait_dl(dir ? p[me][1] : p[me][0], dir ? NECO_WAIT_WRITE : NECO_WAIT_READ, dl); int64_t now = m_now();
    if (isready[me]) v_check(r == OK && now - t1 < MS, "a ready descriptor was not reported");
    else v_check(r == NECO_TIMEDOUT && now > dl && now - dl < MS, "a descriptor that is not ready");
    done[me] = 1;
}
static void co_main(int argc, void *argv[]) {
    (void)argc; (void)argv; dir = v_choose("dir", 2); int st = 1 + v_choose("every", 3); char b[M_PIPECAP] = {0}; int64_t ids[N];
    for (int i = 0; i < N; i++) { v_check(m_pipe2(p[i], O_NONBLOCK) == 0, "pipe"); if (dir) m_write(p[i][1], b, M_PIPECAP); neco_start(waiter, 1, ID(i)); ids[i] = neco_lastid(); }
    neco_sleep(2 * MS);
    t1 = m_now();
    for (int i = 0; i < N; i += st) { isready[i] = 1; if (dir) m_read(p[i][0], b, M_PIPECAP); else m_write(p[i][1], b, 1); }
    for (int i = 0; i < N; i++) neco_join(ids[i]);
    for (int i = 0; i < N; i++) { v_check(done[i], "left behind"); m_close(p[i][0]); m_close(p[i][1]); }
    v_cover(1);
}
#endif

#ifdef SYNC
#define N 20
static neco_mutex mu; static neco_cond cv; static neco_waitgroup wg; static int mode, in, woke, ord[N], nord;
static void waiter(int argc, void *argv[]) {
    (void)argc; int me = ME;
    if (mode == 0) { v_check(neco_mutex_rdlock(&mu) == OK, "rdlock"); in++; neco_sleep(MS); v_check(in == N, "readers were not admitted together"); neco_mutex_unlock(&mu); }
    else if (mode == 1) { v_check(neco_mutex_lock(&mu) == OK, "lock"); v_check(in++ == 0, "two owners"); ord[nord++] = me; neco_yield(); in--; neco_mutex_unlock(&mu); }
    else if (mode < 4) { neco_mutex_lock(&mu); in++; v_check(neco_cond_wait(&cv, &mu) == OK, "wait"); ord[nord++] = me; neco_mutex_unlock(&mu); }
    else { in++; v_check(neco_waitgroup_wait(&wg) == OK, "wait"); }
    woke++;
}
static void co_main(int argc, void *argv[]) {
    (void)argc; (void)argv; mode = MODE0 + v_choose("mode", MODEN); int64_t ids[N];
    if (mode < 2) neco_mutex_lock(&mu);
    if (mode == 4) neco_waitgroup_add(&wg, 30);
    for (int i = 0; i < N; i++) { neco_start(waiter, 1, ID(i)); ids[i] = neco_lastid(); }
    neco_sleep(MS);
    v_check(woke == 0, "woke early");
    if (mode < 2) neco_mutex_unlock(&mu);
    if (mode == 2) { v_check(in == N, "waiting"); neco_mutex_lock(&mu); neco_cond_broadcast(&cv); neco_mutex_unlock(&mu); }
    if (mode == 3) { for (int i = 0; i < N; i++) { neco_cond_signal(&cv); neco_sleep(MS); v_check(woke == i + 1, "a signal wakes exactly one"); } }
    if (mode == 4) { for (int i = 0; i < 29; i++) neco_waitgroup_done(&wg); neco_sleep(MS); v_check(woke == 0, "released early"); neco_waitgroup_done(&wg); neco_sleep(MS); v_check(woke == N, "not released"); }
    for (int i = 0; i < N; i++) neco_join(ids[i]);
    v_check(woke == N, "left behind");
    if (mode == 1 || mode == 3) for (int i = 0; i < N; i++) v_check(ord[i] == i, "not in order");
    v_check(neco_mutex_trylock(&mu) == OK, "still locked");
    v_cover(1 + mode);
}
#endif

#ifdef ZCHAN
#define N 300
static neco_chan *ch[N];
static void co_main(int argc, void *argv[]) {
    (void)argc; (void)argv; int cap = v_choose("cap", 2), n = v_choose("n", 2) ? N : 17; uint64_t l0 = 0;
    for (int round_ = 0; round_ < 2; round_++) {
        for (int i = 0; i < n; i++) { v_check(neco_chan_make(&ch[i], 0, cap) == OK, "make"); for (int j = 0; j < i; j += 1 + i / 3) v_check(ch[j] != ch[i], "the same channel twice"); if (cap) v_check(neco_chan_send(ch[i], 0) == OK, "send"); }
        for (int i = 0; i < n; i++) { int r = neco_chan_tryrecv(ch[i], 0); v_check(r == (cap ? OK : NECO_EMPTY), "a new channel is not empty"); if (i & 1) neco_chan_close(ch[i]); v_check(neco_chan_release(ch[i]) == OK, "release"); }
    }
    (void)l0; v_cover(1);
}
#endif

#ifdef WORK
#ifndef N
#define N 40
#endif
static int runs[N], order[N], norder, busy; static int same;
static void item(void *a) { int me = (int)(intptr_t)a; v_check(!busy, "two items of one pin at the same time"); if (same) busy = 1; v_check(e_thread_self() != 0, "work on the runtime's thread"); runs[me]++; order[norder++] = me; m_preempt(); busy = 0; }
static void co(int argc, void *argv[]) { (void)argc; int me = ME; v_check(neco_work(same ? 3 : -1, item, ID(me)) == OK && runs[me] == 1, "work did not run once before the call returned"); }
static void co_main(int argc, void *argv[]) {
    (void)argc; (void)argv; same = v_choose("same", 2); int64_t ids[N];
    for (int i = 0; i < N; i++) { neco_start(co, 1, ID(i)); ids[i] = neco_lastid(); }
    for (int i = 0; i < N; i++) neco_join(ids[i]);
    for (int i = 0; i < N; i++) v_check(runs[i] == 1, "work lost or repeated");
    v_cover(1);
}
#endif

#ifdef STREAM
static int p[2], LEN = 9100, fedlen; static unsigned char pat(int i) { return (unsigned char)(i * 31 + i / 256); }
static const int SZ[] = {1, 4095, 4096, 4097, 9000};
static unsigned char big[9100 + 16], out[9100 + 16];
static void feeder(int argc, void *argv[]) {
    (void)argc; int c = ME, at = 0;
    while (at < LEN) { int n = MIN(c, LEN - at); if (c == 1) n = MIN(at < 3 ? 1 : 5000, LEN - at); int r = (int)m_write(p[1], big + at, n); if (r > 0) at += r; fedlen = at; neco_sleep(MS); }
    m_close(p[1]);
}
static void co_main(int argc, void *argv[]) {
    (void)argc; (void)argv;
    for (int i = 0; i < LEN; i++) big[i] = pat(i);
    int buffered = v_choose("buffered", 2), wr = v_choose("write", 2); neco_stream *s;
    v_check(m_pipe2(p, O_NONBLOCK) == 0, "pipe");
    if (!wr) {
        int c = SZ[v_choose("chunk", 5)], full = v_choose("full", 2), at = 0, a = SZ[v_choose("first", 5)], b = SZ[v_choose("next", 5)];
        v_check((buffered ? neco_stream_make_buffered(&s, p[0]) : neco_stream_make(&s, p[0])) == OK, "stream");
        neco_start(feeder, 1, ID(c));
        for (int k = 0;; k++) {
            int n = k == 0 ? a : b == 1 && k > 2 ? 5000 : b;
            out[n] = 0x5a;
            int r = (int)(full ? neco_stream_readfull(s, out, n) : neco_stream_read(s, out, n));
            v_check(out[n] == 0x5a, "read beyond the request");
            if (r <= 0) { v_check(at == LEN, "end of file too early"); break; }
            v_check(full ? r == n || at + r == LEN : r <= n, "count");
            for (int i = 0; i < r; i++) if (out[i] != pat(at + i)) v_fail("wrong byte");
            at += r;
            if (buffered && k == 0 && !(full && r < n)) { v_check(neco_stream_unread_byte(s) == OK, "unread"); at--; }
        }
        v_check(neco_stream_close(s) == OK, "close"); v_cover(1);
    } else {
        int at = 0, a = SZ[v_choose("first", 5)], b = SZ[v_choose("next", 5)];
        v_check((buffered ? neco_stream_make_buffered(&s, p[1]) : neco_stream_make(&s, p[1])) == OK, "stream");
        for (int k = 0; k < 3; k++) { int n = MIN(k == 1 ? b : a, LEN - at); v_check(neco_stream_write(s, big + at, n) == n, "write"); at += n; int bs = (int)neco_stream_buffered_write_size(s); v_check(buffered || bs <= 0, "unbuffered stream holds bytes"); }
        if (v_choose("flush", 2)) v_check(neco_stream_flush(s) == OK && (!buffered || neco_stream_buffered_write_size(s) == 0), "flush");
        v_check(neco_stream_close(s) == OK, "close");
        int r = (int)m_read(p[0], out, LEN);
        v_check(r == (at ? at : r), "not all bytes were written"); for (int i = 0; i < at; i++) if (out[i] != pat(i)) v_fail("wrong byte written");
        m_close(p[0]); v_cover(2);
    }
}
#endif

#ifdef SIGS
static const int SG[] = {SIGHUP, SIGINT, SIGQUIT, SIGTERM, SIGPIPE, SIGUSR1, SIGUSR2, SIGALRM};
static int seen[32], n_;
static void w(int argc, void *argv[]) {
    (void)argc; int me = ME; for (int i = me; i < 8; i += 2) v_check(neco_signal_watch(SG[i]) == OK, "watch");
    for (;;) { int r = neco_signal_wait_dl(neco_now() + 5 * MS); if (r == NECO_TIMEDOUT) break; v_check(r > 0, "wait"); int mine = 0; for (int i = me; i < 8; i += 2) if (SG[i] == r) mine = 1; v_check(mine, "told about a signal that it does not watch"); seen[r]++; n_++; }
    for (int i = me; i < 8; i += 2) neco_signal_unwatch(SG[i]);
}
static void co_main(int argc, void *argv[]) {
    (void)argc; (void)argv; int times = 1 + v_choose("times", 3), rev = v_choose("reverse", 2); int64_t a, b;
    neco_start(w, 1, ID(0)); a = neco_lastid(); neco_start(w, 1, ID(1)); b = neco_lastid();
    for (int t = 0; t < times; t++) for (int i = 0; i < 8; i++) m_raise_(SG[rev ? 7 - i : i]);
    neco_join(a); neco_join(b);
    for (int i = 0; i < 8; i++) v_check(seen[SG[i]] == times, "a signal was lost or reported twice");
    v_cover(1);
}
#endif

#ifdef GENS
static int n = 60;
static void g(int argc, void *argv[]) { (void)argc; int m = ME; for (int i = 0; i < m; i++) { int64_t v = i * 3; v_check(neco_gen_yield(&v) == OK, "yield"); } }
static void co_main(int argc, void *argv[]) {
    (void)argc; (void)argv; neco_gen *a[3]; int m = v_choose("n", 2) ? n : 3;
    for (int k = 0; k < 3; k++) v_check(neco_gen_start(&a[k], 8, g, 1, ID(m + k)) == OK, "gen");
    for (int i = 0; i <= m + 2; i++) for (int k = 0; k < 3; k++) { int64_t v = -1; int r = neco_gen_next(a[k], &v); v_check(i < m + k ? r == OK && v == i * 3 : r == NECO_CLOSED, "generator value"); }
    for (int k = 0; k < 3; k++) neco_gen_release(a[k]); v_cover(1);
}
#endif

#ifdef BCAST
#define N 20
static neco_chan *ch; static int got, n_;
static void rx(int argc, void *argv[]) { (void)argc; int v = -1; int r = ME & 1 ? neco_chan_select(1, ch) : neco_chan_recv(ch, &v); if (ME & 1) { v_check(r == 0, "select"); r = neco_chan_case(ch, &v); } if (r == NECO_CLOSED) { n_++; return; } v_check(r == OK && v == 9, "broadcast message"); got++; }
static void co_main(int argc, void *argv[]) {
    (void)argc; (void)argv; int k = 1 + v_choose("k", N), v = 9; neco_chan_make(&ch, sizeof v, v_choose("cap", 2));
    for (int i = 0; i < k; i++) neco_start(rx, 1, ID(i * 2));
    v_check(neco_chan_broadcast(ch, &v) == k, "broadcast count"); neco_sleep(MS); v_check(got == k, "broadcast missed somebody");
    v_check(neco_chan_broadcast(ch, &v) == 0, "nobody waits"); v_check(neco_chan_tryrecv(ch, &v) == NECO_EMPTY, "a broadcast was buffered");
    for (int i = 0; i < k; i++) neco_start(rx, 1, ID(i * 2)); neco_chan_close(ch); neco_sleep(MS); v_check(n_ == k, "close missed somebody");
    neco_chan_release(ch); v_cover(1);
}
#endif
void main_harness(void) { h_run(co_main); e_end(); }
