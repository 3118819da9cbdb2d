// C02: timers and fiber sleeps.
#include "common.h"
namespace {
struct T { int id; kselector *sel; i64 deadline, hi; int ran = 0; bool direct = false; Stamp at; i64 delay; void *tag; int depth; bool busy; };
std::map<kselector *, std::set<T *>> pend; std::deque<T *> all; int outstanding; int budget; bool single;
i64 bound(kselector *s) { return g_loops[0] == s ? 135 : 250; }
kev_result fired(KOPAQUE data, void *arg, int got);
i64 pick_delay() { static const i64 d[] = {0, 1, 1, 5, 10, 50, 50, 99, 100, 100, 101, 150, 200, 350, 1000, 3000}; u32 i = P(20); return i < 16 ? d[i] : (i64)P(2000); }
void add(kselector *target, int depth) {
    if (budget-- <= 0) return;
    T *t = new T; t->id = all.size(); t->delay = pick_delay(); t->tag = t; t->depth = depth; t->busy = P(50) == 1; all.push_back(t); outstanding++; t->at = Stamp();
    bool same = kgl_get_tls_selector() != nullptr && (!target || target == kgl_get_tls_selector());
    count_op();
    t->deadline = kgl_timer_msec + t->delay; t->hi = INT64_MAX;     // the loop's clock may only move on before the call reads it
    if (same && (single || P(3))) { t->sel = kgl_get_tls_selector(); t->direct = true; pend[t->sel].insert(t); kselector_add_timer(t->sel, fired, t, t->delay, (KOPAQUE)t->tag); }
    else if (target && P(4)) { t->sel = target; if (same) { t->direct = true; pend[t->sel].insert(t); } kselector_add_timer_ts(target, fired, t, t->delay, (KOPAQUE)t->tag); }
    else { t->sel = nullptr; selector_manager_add_timer(fired, t, t->delay, (KOPAQUE)t->tag); }
    t->hi = kgl_timer_msec + t->delay;
}
kev_result fired(KOPAQUE data, void *arg, int got) {
    T *t = (T *)arg; kselector *me = kgl_get_tls_selector();
    SIM_CHECK((void *)data == t->tag && got == 0, "timer:args", "timer %d fired with other arguments (got %d)", t->id, got);
    SIM_CHECK(++t->ran == 1, "timer:twice", "timer %d fired twice", t->id);
    SIM_CHECK(me && (!t->sel || t->sel == me) && kselector_is_same_thread(me), "timer:wrong-loop", "timer %d of loop %d fired on loop %d", t->id, loop_index(t->sel), my_loop());
    SIM_CHECK(kgl_timer_msec >= t->deadline, "timer:early", "timer %d with delay %lld fired %lld ms before its deadline", t->id, (long long)t->delay, (long long)(t->deadline - kgl_timer_msec));
    double over = t->at.eff_ms() - t->delay;
    SIM_CHECK(over <= bound(me), "timer:late", "timer %d with delay %lld ms fired after %.1f ms", t->id, (long long)t->delay, t->at.ms());
    if (t->direct) {
        auto &p = pend[me]; p.erase(t);
        for (T *o : p) SIM_CHECK(o->hi >= t->deadline, "timer:order", "timer %d fired before timer %d whose deadline is %lld ms earlier", t->id, o->id, (long long)(t->deadline - o->deadline));
    }
    hash_event(0x202, t->id);
    if (t->busy) { busy_ms(1 + P(40)); }
    if (t->depth > 0) { int n = P(3); for (int i = 0; i < n; i++) add(P(2) ? me : L(P(g_loops.size())), t->depth - 1); }
    outstanding--;
    return kev_ok;
}
// what a tick asks for does not hold up the timers of its loop
int tick_cb(void *arg, int) { return *(int *)arg; }
void ticks() { for (auto s : g_loops) for (int i = W(3) - 1; i > 0; i--) { int *want = new int(oneof<int>(S_WORK, {5000, 0, 20, -1, 150, 60})); post_wait(s, [=] { kselector_register_tick(kselector_new_tick(tick_cb, want)); }); } }
int sleepers;
int sleeper() {
    kselector *s = kgl_get_tls_selector(); int n = 1 + P(4);
    for (int i = 0; i < n; i++) {
        i64 d = pick_delay(); Stamp st; i64 dl = kgl_timer_msec + d; count_op();
        int r = kfiber_msleep(d);
        SIM_CHECK(r == 0, "sleep:failed", "kfiber_msleep(%lld) returned %d", (long long)d, r);
        SIM_CHECK(kgl_get_tls_selector() == s, "sleep:wrong-loop", "a sleeping fiber resumed on another loop");
        SIM_CHECK(kgl_timer_msec >= dl, "sleep:early", "a fiber sleeping %lld ms resumed %lld ms early", (long long)d, (long long)(dl - kgl_timer_msec));
        SIM_CHECK(st.eff_ms() - d <= bound(s), "sleep:late", "a fiber sleeping %lld ms resumed after %.1f ms", (long long)d, st.ms());
    }
    sleepers--; return 0;
}
}
SCENARIO(C02, loops, 4) {
    int n = 1 << W(3); start_loops(n);
    ticks(); swarm(FA_EINTR | FA_STALL | FA_LATE);
    budget = 20 + W(120);
    int k = W(3), done = 0;
    for (int i = 0; i < k; i++) spawn("adder", [&] { int m = 3 + P(20); for (int j = 0; j < m; j++) { add(P(4) ? L(P(g_loops.size())) : nullptr, P(3)); if (P(3) == 1) sleep_ms(P(200)); } done++; });
    int f = W(5); sleepers = f; for (int i = 0; i < f; i++) fiber(L(P(n)), sleeper);
    int st = 1 + W(3), sd = 0; for (int i = 0; i < st; i++) post(L(P(n)), [&] { int m = 2 + P(10); for (int j = 0; j < m; j++) add(kgl_get_tls_selector(), P(3)); sd++; });
    wait_for([&] { return done == k && sd == st; }, 600000, "timer:adder-stuck", "threads adding timers finish");
    wait_for([&] { return outstanding == 0 && sleepers == 0; }, 30000, "timer:lost", "every timer fires");
    settle(300);
    for (auto t : all) SIM_CHECK(t->ran == 1, "timer:count", "timer %d fired %d times", t->id, t->ran);
}
// A tree of direct timers on one loop: many deadlines, many equal ones, added and re-added in every order.
SCENARIO(C02, order, 3) {
    start_loops(1); swarm(FA_EINTR);
    budget = 60 + W(150);
    int rounds = 2 + W(6), sd = 0;
    for (int r = 0; r < rounds; r++) { post(L(0), [&] { int m = 5 + P(30); for (int j = 0; j < m; j++) add(kgl_get_tls_selector(), P(3)); sd++; }); sleep_ms(P(400)); }
    wait_for([&] { return sd == rounds; }, 60000, "timer:adder-stuck", "timers are added");
    wait_for([&] { return outstanding == 0; }, 40000, "timer:lost", "every timer fires");
    settle(200);
    for (auto t : all) SIM_CHECK(t->ran == 1, "timer:count", "timer %d fired %d times", t->id, t->ran);
}
// Timers of hours and days: the process is stopped for long stretches (suspended, or starved) and goes on just before or after
// a deadline. A timer that is not due does not fire, one that has become due fires as soon as its loop runs again.
namespace { struct Far { int id; kselector *sel; i64 due, delay; int ran = 0; }; std::vector<Far *> fars; }
SCENARIO(C02, far, 1) {
    start_loops(1 << W(2)); swarm(FA_EINTR); const i64 H = 3600 * 1000, D = 24 * H;
    auto fire = [](KOPAQUE data, void *arg, int) -> kev_result {
        Far *f = (Far *)arg; SIM_CHECK((void *)data == &f->due && ++f->ran == 1, "timer:twice", "timer %d fires twice or with other arguments", f->id);
        SIM_CHECK(now_ms() >= f->due - 1, "timer:early", "timer %d with a delay of %lld ms fired %lld ms before its deadline", f->id, (long long)f->delay, (long long)(f->due - now_ms()));
        SIM_CHECK(kgl_get_tls_selector() == f->sel, "timer:wrong-loop", "a timer fires on another loop"); count_op(); hash_event(0x2fa, f->id); return kev_ok; };
    auto add_far = [&](i64 delay) { Far *f = new Far; f->id = fars.size(); f->sel = L(P(g_loops.size())); f->delay = delay; fars.push_back(f); SIM_CHECK(post_wait(f->sel, [=] { f->due = now_ms() - 100 + delay; int r = kselector_add_timer(f->sel, fire, f, (int)delay, (KOPAQUE)&f->due); SIM_CHECK(r == 0, "timer:add", "a timer cannot be added"); }), "timer:stuck", "a loop does not respond"); };
    int k = 1 + W(6); for (int i = 0; i < k; i++) add_far(oneof<i64>(S_WORK, {H, 5 * H, 4 * H + 2400000, 20 * H, 2 * D, 10 * D, 24 * D, 3 * D + 7, 70000}) + P(1000));
    for (int r = 0; r < 12; r++) {
        i64 next = -1; for (auto f : fars) if (!f->ran && (next < 0 || f->due < next)) next = f->due;
        if (next < 0) break;
        i64 to = next - now_ms() + (W(2) ? 400 + (i64)P(2000) : P(3) ? -1200 - (i64)P(2000) : (i64)P(2) * D);
        if (to > 0) { i64 t = now_ns() + to * MS; fault("process_stopped"); for (int i = 0; i < 96; i++) if (i != self() && !thread_done(i)) stall(i, t); sleep_ms(to); }
        sleep_ms(500); 
        for (auto f : fars) if (f->due + 700 < now_ms()) SIM_CHECK(f->ran == 1, "timer:late", "timer %d with a delay of %lld ms has not fired %lld ms after its deadline", f->id, (long long)f->delay, (long long)(now_ms() - f->due));
        if (P(3) == 0) add_far(P(2) ? 100 + P(2000) : H + P(1000));
    }
}
static int main2(void *, int) {
    kselector *s = kgl_get_tls_selector(); g_loops.push_back(s);
    int f = 1 + W(4); sleepers = f; for (int i = 0; i < f; i++) fiber(nullptr, sleeper);
    int m = 3 + W(30); for (int i = 0; i < m; i++) { add(s, P(2)); if (P(4) == 1) kfiber_msleep(P(120)); }
    Stamp st; while ((outstanding || sleepers) && st.eff_ms() < 40000) kfiber_msleep(50);
    SIM_CHECK(outstanding == 0 && sleepers == 0, "timer:lost", "%d timers and %d sleeping fibers never finished", outstanding, sleepers);
    for (auto t : all) SIM_CHECK(t->ran == 1, "timer:count", "timer %d fired %d times", t->id, t->ran);
    return 7;
}
SCENARIO(C02, single_main, 2) {
    kasync_init(); swarm(FA_EINTR | FA_LATE); budget = 80; single = true;
    int r = kasync_main(main2, NULL, 0);
    SIM_CHECK(r == 7, "main:result", "kasync_main returned %d", r);
}
