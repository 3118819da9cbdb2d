// C20: thread events (kcond).
#include "common.h"
namespace { void notice(kcond *c) { count_op(); kcond_notice(c); } }
SCENARIO(C20, auto_reset, 3) {
    swarm(FA_SPUR | FA_STALL); u64 hm = heap_mark(); kcond *c = kcond_init(true); int k = 1 + W(5), in = 0, out = 0;
    for (int i = 0; i < k; i++) spawn("waiter", [&] { in++; kcond_wait(c); out++; hash_event(0x2001, out); });
    u32 mode = W(3); int fin = 0;
    if (mode == 0) {            // all wait, then n <= k notices from several threads: exactly n released
        wait_for([&] { return in == k; }, 3000, "event:start", "waiters start"); settle(50); SIM_CHECK(out == 0, "event:invented", "%d threads passed an event nobody notified", out);
        int given = 0; while (given < k) { int n = 1 + (int)W(k - given); fin = 0; for (int i = 0; i < n; i++) spawn("notifier", [&] { if (P(2)) sleep_ns(P(50) * US); notice(c); fin++; }); given += n; wait_for([&] { return fin == n; }, 3000, "event:notice-stuck", "notifiers finish"); wait_for([&] { return out >= given; }, 3000, "event:lost", "each notification of waiting threads releases one"); settle(40); SIM_CHECK(out == given, "event:invented", "%d threads passed after %d notifications", out, given); }
    } else if (mode == 1) {     // races: notices while threads start to wait; never more releases than notices; extra notices release everybody
        int n = 1 + W(k), started = 0; for (int i = 0; i < n; i++) spawn("notifier", [&] { if (P(2)) sleep_ns(P(100) * US); started++; SIM_CHECK(true, "event:x", "x"); notice(c); fin++; });
        Stamp st; while (fin < n) { SIM_CHECK(out <= started, "event:invented", "%d threads passed after %d notifications", out, started); SIM_CHECK(st.eff_ms() < 3000, "event:notice-stuck", "notifiers do not finish"); sleep_ns(37 * US); }
        wait_for([&] { return in == k; }, 3000, "event:start", "waiters start"); settle(40); SIM_CHECK(out <= n && out >= 1, out ? "event:invented" : "event:lost", "%d threads passed after %d notifications", out, n);
        while (out < k) { int o = out; notice(c); wait_for([&] { return out > o; }, 3000, "event:lost", "a notification releases a waiting thread"); settle(20); SIM_CHECK(out == o + 1, "event:invented", "one notification released %d threads", out - o); }
    } else {                    // remembered once, however often it is notified
        wait_for([&] { return in == k; }, 3000, "event:start", "waiters start"); settle(30); int extra = W(4); for (int i = 0; i < k + extra; i++) notice(c); wait_for([&] { return out == k; }, 3000, "event:lost", "each notification of waiting threads releases one");
        if (!extra) notice(c); int more = 2, o2 = 0; for (int i = 0; i < more; i++) spawn("late", [&] { kcond_wait(c); o2++; }); wait_for([&] { return o2 >= 1; }, 3000, "event:lost", "a remembered notification releases the next waiter"); settle(40); SIM_CHECK(o2 == 1, "event:invented", "a remembered notification released %d threads", o2); notice(c); wait_for([&] { return o2 == 2; }, 3000, "event:lost", "a notification releases the waiter");
    }
    SIM_CHECK(!kcond_try_wait(c, 0), "event:invented", "a consumed notification is still there"); notice(c); SIM_CHECK(kcond_try_wait(c, 0), "event:lost", "try_wait misses a notification"); SIM_CHECK(!kcond_try_wait(c, 0), "event:invented", "try_wait got one notification twice");
    notice(c); kcond_reset(c); SIM_CHECK(!kcond_try_wait(c, 0), "event:reset", "an event is notified after its reset");
    settle(20); kcond_destroy(c); int n; heap_live_since(hm, 1, &n); SIM_CHECK(n == 0, "event:leak", "%d blocks left", n);
}
SCENARIO(C20, manual_reset, 3) {
    swarm(FA_SPUR | FA_STALL); kcond *c = kcond_init(false); int rounds = 1 + W(3);
    for (int r = 0; r < rounds; r++) {
        int k = W(5), in = 0, out = 0; bool done = false; for (int i = 0; i < k; i++) spawn("waiter", [&] { in++; kcond_wait(c); out++; hash_event(0x2002, out); });
        wait_for([&] { return in == k; }, 3000, "event:start", "waiters start"); settle(30 + W(40)); SIM_CHECK(out == 0, "event:invented", "%d threads passed an event nobody notified", out); SIM_CHECK(!kcond_try_wait(c, 0), "event:invented", "try_wait passed an event nobody notified");
        bool quick = W(3) == 0;
        spawn("notifier", [&] { notice(c); if (quick) kcond_reset(c); done = true; });
        wait_for([&] { return done; }, 3000, "event:notice-stuck", "the notifier finishes"); wait_for([&] { return out == k; }, 3000, "event:lost", "a notified manual-reset event releases every waiting thread");
        if (!quick) { int late = 1 + W(4), o2 = 0; for (int i = 0; i < late; i++) spawn("late", [&] { for (int j = 0; j < 2; j++) if (P(2)) kcond_wait(c); else SIM_CHECK(kcond_try_wait(c, 0), "event:lost", "try_wait fails on a notified manual-reset event"); o2++; }); wait_for([&] { return o2 == late; }, 3000, "event:lost", "a notified manual-reset event lets later threads pass"); SIM_CHECK(kcond_try_wait(c, 0), "event:lost", "waiting on a manual-reset event reset it"); kcond_reset(c); }
        SIM_CHECK(!kcond_try_wait(c, 0), "event:reset", "an event is notified after its reset");
    }
    settle(20); kcond_destroy(c);
}
// threads that poll an event, beside threads that wait for it
SCENARIO(C20, polled, 2) {
    swarm(FA_SPUR | FA_STALL); u64 hm = heap_mark(); kcond *c = kcond_init(true); int pollers = 2 + W(3), waiters = W(3), n = 1 + W(12), given = 0, out = 0, done = 0, in = 0; bool stop = false; u32 pace = W(3);
    for (int i = 0; i < pollers; i++) spawn("poller", [&] { while (!stop) { if (kcond_try_wait(c, 0) && !stop) { out++; hash_event(0x2003, out); SIM_CHECK(out <= given, "event:invented", "%d threads passed after %d notifications", out, given); } if (P(3) == 0) sleep_ns(1 + P(40) * US); else yield(); } done++; });
    for (int i = 0; i < waiters; i++) spawn("waiter", [&] { in++; while (!stop) { kcond_wait(c); if (stop) break; out++; SIM_CHECK(out <= given, "event:invented", "%d threads passed after %d notifications", out, given); } done++; });
    if (W(2)) wait_for([&] { return in == waiters; }, 3000, "event:start", "waiters start");
    for (int i = 0; i < n; i++) { int o = out; given++; notice(c); if (pace == 0) sleep_ns(P(200) * US); else if (pace == 1) for (u32 k = P(8); k; k--) yield(); else { wait_for([&] { return out > o; }, 3000, "event:lost", "a notification releases a thread that waits or polls"); if (P(2)) sleep_ns(P(60) * US); } }
    wait_for([&] { return out >= 1; }, 3000, "event:lost", "a notification releases a thread that waits or polls"); sleep_ms(2); SIM_CHECK(out >= 1 && out <= given, out ? "event:invented" : "event:lost", "%d threads passed after %d notifications", out, given); if (pace == 2) SIM_CHECK(out == given, "event:lost", "%d threads passed after %d notifications", out, given);
    stop = true; { Stamp t; while (done < pollers + waiters && t.eff_ms() < 3000) { notice(c); sleep_ms(5); } } wait_for([&] { return done == pollers + waiters; }, 3000, "event:lost", "notified threads end"); settle(20); kcond_destroy(c); int k; heap_live_since(hm, 1, &k); SIM_CHECK(k == 0, "event:leak", "%d blocks left", k);
}
