// C21: spin reader-writer locks.
#include "common.h"
namespace {
int r_in, w_in; void chk() { SIM_CHECK(w_in <= 1 && (!w_in || !r_in), "spin:exclusion", "%d writers and %d readers hold the lock together", w_in, r_in); count_op(); hash_event(0x2101, r_in * 8 + w_in); }
void inside(bool w) { (w ? w_in : r_in)++; chk(); u32 d = P(4); if (d == 1) sleep_ns(P(80) * US); else if (d == 2) { sim::yield(); chk(); sim::yield(); } chk(); (w ? w_in : r_in)--; }
}
SCENARIO(C21, rw, 3) {
    swarm(FA_STALL); if (cfg.p_stall > 20) cfg.p_stall = 20; krw_mutex *m = (krw_mutex *)malloc(sizeof(krw_mutex)); krw_mutex_init(m); int k = 2 + W(4), fin = 0, share = 0;
    for (int i = 0; i < k; i++) spawn("user", [&] { int n = 2 + P(8); for (int j = 0; j < n; j++) { bool w = P(3) == 0; if (w) krw_mutex_wlock(m); else krw_mutex_rlock(m); if (!w && r_in) share = 1; inside(w); if (w) krw_mutex_wunlock(m); else krw_mutex_runlock(m); if (P(3) == 0) sleep_ns(P(60) * US); } fin++; });
    wait_for([&] { return fin == k; }, 20000, "spin:lost", "every thread obtains the lock");
    if (share) probe("readers_shared");
    int in = 0, out = 0, q = 2 + W(3); for (int i = 0; i < q; i++) spawn("reader", [&] { krw_mutex_rlock(m); in++; while (in < q) sleep_ns(20 * US); krw_mutex_runlock(m); out++; });
    wait_for([&] { return out == q; }, 3000, "spin:share", "readers hold the lock together"); krw_mutex_wlock(m); krw_mutex_wunlock(m);
}
SCENARIO(C21, write_prefer, 3) {
    swarm(FA_STALL); if (cfg.p_stall > 20) cfg.p_stall = 20; kwr_mutex *m = (kwr_mutex *)malloc(sizeof(kwr_mutex)); kwr_mutex_init(m); int k = 2 + W(4), fin = 0;
    for (int i = 0; i < k; i++) spawn("user", [&] { int n = 2 + P(8); for (int j = 0; j < n; j++) { u32 w = P(4); if (w == 0) kwr_mutex_wlock(m); else kwr_mutex_rlock(m, w == 1); inside(w == 0); if (w == 0) kwr_mutex_wunlock(m); else kwr_mutex_runlock(m); if (P(3) == 0) sleep_ns(P(60) * US); } fin++; });
    wait_for([&] { return fin == k; }, 20000, "spin:lost", "every thread obtains the lock");
    // a waiting writer keeps out new ordinary readers but not high-priority ones
    bool rel = false, wgot = false, wdone = false, ord = false, ordone = false, hi = false; bool writer_first = W(3) == 0;
    if (writer_first) { kwr_mutex_wlock(m); kwr_mutex_wunlock(m); }
    kwr_mutex_rlock(m, W(2));
    spawn("writer", [&] { kwr_mutex_wlock(m); wgot = true; SIM_CHECK(rel, "spin:exclusion", "a writer got the lock while a reader holds it"); SIM_CHECK(!ord, "spin:prefer", "an ordinary reader got in before the waiting writer"); sleep_ns(50 * US); kwr_mutex_wunlock(m); wdone = true; });
    settle(20); SIM_CHECK(!wgot, "spin:exclusion", "a writer got the lock while a reader holds it");
    spawn("ordinary", [&] { kwr_mutex_rlock(m, false); ord = true; SIM_CHECK(wgot, "spin:prefer", "an ordinary reader got in before the waiting writer"); kwr_mutex_runlock(m); ordone = true; });
    spawn("high", [&] { kwr_mutex_rlock(m, true); hi = true; kwr_mutex_runlock(m); });
    wait_for([&] { return hi; }, 2000, "spin:high", "a high-priority reader gets in while a writer waits"); settle(20); SIM_CHECK(!ord && !wgot, "spin:prefer", "an ordinary reader or the writer got in before the readers left");
    rel = true; kwr_mutex_runlock(m);
    wait_for([&] { return wdone && ordone; }, 3000, "spin:lost", "the writer and then the ordinary reader obtain the lock");
    kwr_mutex_wlock(m); kwr_mutex_wunlock(m);
}
