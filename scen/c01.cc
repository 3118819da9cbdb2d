// C01: posting from any thread runs each callback exactly once, on the right loop, with its arguments, in bounded time.
#include "common.h"
namespace {
struct Rec { int id; kselector *sel; int data_tag; int got; int ran = 0; Stamp at; bool busy; int depth; i64 lim; };
std::deque<Rec *> recs; int outstanding; u32 budget; bool burst;
kev_result cb(KOPAQUE data, void *arg, int got);
void post1(int depth) {
    if (!budget) return;
    budget--;
    Rec *r = new Rec; r->id = recs.size(); r->sel = L(P(g_loops.size())); r->data_tag = P(1000); r->got = (int)P(100000) - 50000; r->depth = depth; r->busy = P(40) == 1; r->lim = 250; r->at = Stamp();
    recs.push_back(r); outstanding++;
    count_op();
    kgl_selector_module.next(r->sel, (KOPAQUE)&r->data_tag, cb, r, r->got);
}
kev_result cb(KOPAQUE data, void *arg, int got) {
    Rec *r = (Rec *)arg;
    SIM_CHECK(kgl_get_tls_selector() == r->sel, "post:wrong-loop", "callback %d posted to loop %d ran on loop %d", r->id, loop_index(r->sel), my_loop());
    SIM_CHECK(kselector_is_same_thread(r->sel), "post:wrong-thread", "callback %d ran on a thread which is not its loop's", r->id);
    SIM_CHECK((int *)data == &r->data_tag && got == r->got, "post:wrong-args", "callback %d got other arguments than were posted", r->id);
    SIM_CHECK(++r->ran == 1, "post:twice", "callback %d ran %d times", r->id, r->ran);
    SIM_CHECK(r->at.eff_ms() < r->lim, "post:late", "callback %d ran %.1f ms after it was posted", r->id, r->at.ms());
    hash_event(0x101, r->id);
    if (r->busy) busy_ms(1 + P(30));
    if (r->depth > 0) { int n = P(3); for (int i = 0; i < n; i++) post1(r->depth - 1); }
    outstanding--;
    return kev_ok;
}
}
SCENARIO(C01, mixed, 3) {
    int n = 1 << W(3); start_loops(n);
    swarm(FA_EINTR | FA_STALL | FA_LATE);
    burst = W(2); budget = 40 + W(200);
    int k = 1 + W(4); int done = 0;
    for (int i = 0; i < k; i++) spawn("poster", [&, i] {
        int m = 5 + P(40);
        for (int j = 0; j < m; j++) { post1(P(4)); u32 d = burst ? P(12) : P(5); if (d == 1) sleep_ms(P(150)); else if (d == 2) sleep_ns(P(1000) * US); else if (d == 3) yield(); }
        done++; });
    wait_for([&] { return done == k; }, 600000, "post:poster-stuck", "posting threads finish");
    Stamp s; wait_for([&] { return outstanding == 0; }, 2000, "post:lost", "every posted callback runs");
    settle(300);
    for (auto r : recs) SIM_CHECK(r->ran == 1, "post:count", "callback %d ran %d times", r->id, r->ran);
    loops_respond("post:loop-dead");
}
// Many threads post single callbacks to one idle loop at nearly the same instant: the wake-up of the loop must not be lost.
SCENARIO(C01, wakeup_race, 2) {
    start_loops(1); swarm(FA_EINTR);
    int rounds = 6 + W(10); budget = 1000;
    int k = 2 + W(3); int round = 0, fin = 0; i64 go_at = 0;
    for (int i = 0; i < k; i++) spawn("racer", [&] { for (int r = 0; r < rounds; r++) { while (round <= r) sleep_ms(1); if (go_at > now_ns()) sleep_ns(go_at - now_ns()); if (P(3) == 0) sleep_ns(P(40) * US); int m = 1 + P(3); for (int j = 0; j < m; j++) post1(0); fin++; } });
    for (int r = 0; r < rounds; r++) {
        go_at = now_ns() + (2 + P(30)) * 1000 * US; fin = 0; round = r + 1;
        wait_for([&] { return fin == k; }, 60000, "post:poster-stuck", "posting threads finish");
        wait_for([&] { return outstanding == 0; }, 1000, "post:lost", "every posted callback runs");
    }
    settle(250);
    for (auto r : recs) SIM_CHECK(r->ran == 1, "post:count", "callback %d ran %d times", r->id, r->ran);
}
