// C07: fiber conditions.
#include "common.h"
namespace {
struct Cond { kfiber_cond *c; bool ar; int next_val = 1; std::set<int> vals; } C;
void destroy() { C.c->f->release(C.c); }
int notice_fn(int v) { int r = C.c->f->notice(C.c, v); SIM_CHECK(r == 0, "cond:notice", "notice returned %d", r); count_op(); return r; }
// ---------------------------------------------------------------- one loop, exact model
struct { int waiting = 0, ev = 0; std::multiset<int> due; int released = 0, blocked = 0; bool set = false; int anon = 0; } M;
int noticing;
int users;
struct Cb { bool blocked; int ran = 0; kselector *s; bool exact; };
void released(bool was_blocked, bool have, int got) {
    if (was_blocked) {
        SIM_CHECK(M.released < M.blocked, "cond:invented", "a waiter was released without a notification");
        if (C.ar) { SIM_CHECK((int)M.due.size() > M.anon, "cond:invented", "more waiters were released than notified"); if (have) { auto it = M.due.find(got); SIM_CHECK(it != M.due.end(), "cond:value", "a waiter received %d, which no pending notification carries", got); M.due.erase(it); } else M.anon++; }
        else { SIM_CHECK(M.set, "cond:invented", "a waiter was released before any notification"); SIM_CHECK(!have || C.vals.count(got), "cond:value", "a waiter received %d, which was never notified", got); }
        M.released++;
    }
    hash_event(0x707, was_blocked); count_op();
}
kev_result on_cb(KOPAQUE data, void *arg, int got) {
    Cb *c = (Cb *)arg; SIM_CHECK((void *)data == c, "cond:cb-data", "a waiting callback got other data");
    SIM_CHECK(++c->ran == 1, "cond:cb-twice", "a waiting callback ran twice"); SIM_CHECK(kgl_get_tls_selector() == c->s, "cond:cb-loop", "a waiting callback ran on another loop");
    released(c->blocked, c->blocked && C.ar, got); users--; return kev_ok;
}
int exact_waiter() {
    int n = 1 + P(4);
    for (int i = 0; i < n; i++) {
        if (P(2)) kfiber_msleep(P(20));
        bool now = C.ar ? M.ev > 0 : M.set; int got = -12345; bool have = P(6) != 0;
        if (P(4) == 0) {
            int r = C.c->f->try_wait(C.c, have ? &got : nullptr);
            SIM_CHECK(r == (now ? 0 : -1), "cond:try", "try_wait returned %d %s", r, now ? "although a notification is pending" : "without a notification");
            if (now && !C.ar && have) SIM_CHECK(got == C.next_val - 1, "cond:value", "try_wait returned value %d, the latest notification carried %d", got, C.next_val - 1);
            if (now && C.ar) M.ev--;
            continue;
        }
        if (!now) { M.waiting++; M.blocked++; } else if (C.ar) M.ev--; int latest = C.next_val - 1;
        int r = C.c->f->wait(C.c, have ? &got : nullptr);
        SIM_CHECK(r == 0, "cond:wait", "wait returned %d", r);
        if (now && !C.ar && have) SIM_CHECK(got == latest, "cond:value", "a waiter received %d, the latest notification carried %d", got, latest);
        released(!now, have, got);
    }
    users--; return 0;
}
void do_notice() {      // on the loop
    int v = C.next_val++; C.vals.insert(v);
    int rel = M.released, w = M.waiting; (void)rel;
    if (C.ar) { if (M.waiting) { M.waiting--; M.due.insert(v); } else M.ev++; } else { M.set = true; M.waiting = 0; }
    notice_fn(v); (void)w;
}
// ---------------------------------------------------------------- thread safe kind, several loops
int blocked_now, rel_count, notices; std::multiset<int> got_vals; bool chaos;
struct TCb { kselector *s; int ran = 0; };
kev_result ts_cb(KOPAQUE data, void *arg, int got) {
    TCb *c = (TCb *)arg; SIM_CHECK((void *)data == c && kgl_get_tls_selector() == c->s, "cond:cb-loop", "a waiting callback ran on another loop or with other data");
    SIM_CHECK(++c->ran == 1, "cond:cb-twice", "a waiting callback ran twice"); rel_count++; got_vals.insert(got); count_op(); hash_event(0x708, 1); return kev_ok;
}
int entered;
void ts_cb_on(kselector *s) { post(s, [=] { TCb *c = new TCb{s}; entered++; C.c->f->wait_callback(C.c, (KOPAQUE)c, ts_cb, c); }); }
void ts_waiter(kselector *s) {
    if (P(3) == 0) post(s, [=] { TCb *c = new TCb{s}; entered++; C.c->f->wait_callback(C.c, (KOPAQUE)c, ts_cb, c); });
    else fiber(s, [=] { int got = -999; entered++; int r = C.c->f->wait(C.c, &got); SIM_CHECK(r == 0 && kgl_get_tls_selector() == s, "cond:wait", "wait returned %d or resumed on another loop", r); rel_count++; got_vals.insert(got); count_op(); hash_event(0x708, 2); return 0; });
}
void ts_notice_somewhere(int v) { if (P(2)) post(L(P(g_loops.size())), [=] { notices++; notice_fn(v); }); else spawn("notifier", [=] { if (P(2)) sleep_ns(P(200) * US); notices++; notice_fn(v); }); }
void all_blocked(int k) { wait_for([&] { return entered == k; }, 5000, "cond:waiter-start", "waiters start"); loops_respond(); loops_respond(); }
int try_left(kselector *s, int max) { auto n = std::make_shared<int>(-1); fiber(s, [=] { int k = 0; while (k < max && C.c->f->try_wait(C.c, nullptr) == 0) k++; *n = k; return 0; }); wait_for([=] { return *n >= 0; }, 5000, "cond:try-stuck", "try_wait returns"); return *n; }
}
SCENARIO(C07, one_loop, 3) {
    start_loops(1); Baseline b; swarm(FA_EINTR | FA_STALL); C.ar = W(2); bool ts = W(3) == 0;
    post_wait(L(0), [=] { C.c = ts ? kfiber_cond_init_ts(C.ar) : kfiber_cond_init(C.ar); });
    int k = 1 + W(7), cbs = W(4); users = k + cbs;
    for (int i = 0; i < k; i++) fiber(L(0), exact_waiter);
    for (int i = 0; i < cbs; i++) { sleep_ms(W(15)); post(L(0), [] { bool now = C.ar ? M.ev > 0 : M.set; Cb *c = new Cb{!now, 0, L(0)}; if (!now) { M.waiting++; M.blocked++; } else if (C.ar) M.ev--; C.c->f->wait_callback(C.c, (KOPAQUE)c, on_cb, c); }); }
    int m = W(8); for (int i = 0; i < m; i++) { sleep_ms(W(20)); noticing++; if (W(2)) post(L(0), [] { do_notice(); noticing--; }); else fiber(L(0), [] { if (P(2)) kfiber_msleep(P(10)); do_notice(); noticing--; return 0; }); }
    // enough notifications for everybody
    wait_for([] { return noticing == 0; }, 5000, "cond:notice-stuck", "notifiers finish");
    Stamp st; while (users > 0) { SIM_CHECK(st.eff_ms() < 30000, "cond:lost", "a waiter stays blocked although a notification is due (%d waiters)", users); post_wait(L(0), [] { if (M.waiting || !C.ar) do_notice(); }); sleep_ms(10); }
    post_wait(L(0), [] { SIM_CHECK(M.waiting == 0 && M.released == M.blocked && (int)M.due.size() == M.anon, "cond:lost", "notifications and releases do not match"); });
    int left = M.ev; if (C.ar) { int t = try_left(L(0), left + 3); SIM_CHECK(t == left, "cond:memory", "%d notifications are remembered, %d arrived when nobody waited", t, left); }
    else { int t = try_left(L(0), 3); SIM_CHECK(t == 3, "cond:manual", "a notified manual-reset condition blocks"); }
    post_wait(L(0), destroy); settle(120); check_clean(b, CL_FIBER | CL_HEAP | CL_COUNT, "cond");
}
SCENARIO(C07, loops, 4) {
    int n = 1 << W(3); start_loops(n); Baseline b; swarm(FA_EINTR | FA_STALL); C.ar = W(3) != 0;
    C.c = kfiber_cond_init_ts(C.ar); int k = 1 + W(8);
    u32 mode = W(3);
    if (mode == 0) {           // waiters first
        for (int i = 0; i < k; i++) ts_waiter(L(P(n)));
        all_blocked(k); SIM_CHECK(rel_count == 0, "cond:invented", "%d waiters were released without a notification", rel_count);
        int m = C.ar ? 1 + (int)W(k) : 1; for (int i = 0; i < m; i++) ts_notice_somewhere(1000 + i);
        int want = C.ar ? m : k;
        wait_for([&] { return rel_count >= want; }, 5000, "cond:lost", "every notified waiter is released");
        settle(150); loops_respond(); SIM_CHECK(rel_count == want, "cond:invented", "%d waiters were released by %d notifications", rel_count, m);
        int prev = -1; for (int v : got_vals) { SIM_CHECK(v >= 1000 && v < 1000 + m, "cond:value", "a waiter received %d, which was not notified", v); SIM_CHECK(!C.ar || v != prev, "cond:value", "two waiters received the same notification"); prev = v; }
        if (C.ar) { for (int i = m; i < k; i++) ts_notice_somewhere(1000 + i); wait_for([&] { return rel_count == k; }, 5000, "cond:lost", "every notified waiter is released"); }
    } else if (mode == 1) {    // notifications first
        int m = 1 + W(6); for (int i = 0; i < m; i++) ts_notice_somewhere(2000 + i);
        wait_for([&] { return notices == m; }, 5000, "cond:notice-stuck", "notifiers finish"); sleep_ms(5); loops_respond();
        for (int i = 0; i < k; i++) ts_waiter(L(P(n)));
        all_blocked(k); settle(100); loops_respond();
        int want = C.ar ? std::min(m, k) : k; SIM_CHECK(rel_count == want, rel_count < want ? "cond:lost" : "cond:invented", "%d waiters passed after %d remembered notifications (%d waiters)", rel_count, m, k);
        if (!C.ar) for (int v : got_vals) SIM_CHECK(v >= 2000 && v < 2000 + m, "cond:value", "a waiter received %d, which was not notified", v);
        if (C.ar) { for (int i = m; i < k; i++) ts_notice_somewhere(3000 + i); wait_for([&] { return rel_count == k; }, 5000, "cond:lost", "every notified waiter is released"); if (m > k) { int t = try_left(L(P(n)), m - k + 2); SIM_CHECK(t == m - k, "cond:memory", "%d notifications are remembered instead of %d", t, m - k); } }
    } else {                   // all at once
        int m = C.ar ? (int)W(12) : (int)W(3); int w = 0, nn = 0;
        while (w < k || nn < m) { if (nn >= m || (w < k && W(2))) { ts_waiter(L(P(n))); w++; } else { ts_notice_somewhere(4000 + nn); nn++; } if (W(3) == 0) sleep_ns(W(3000) * US); }
        all_blocked(k); wait_for([&] { return notices == m; }, 5000, "cond:notice-stuck", "notifiers finish"); settle(100); loops_respond();
        int want = C.ar ? std::min(m, k) : (m ? k : 0); SIM_CHECK(rel_count == want, rel_count < want ? "cond:lost" : "cond:invented", "%d of %d waiters passed after %d notifications", rel_count, k, m);
        if (!C.ar) for (int v : got_vals) SIM_CHECK(v >= 4000 && v < 4000 + m, "cond:value", "a waiter received %d, which was not notified", v);
        int extra = C.ar ? k - want : (m ? 0 : 1); for (int i = 0; i < extra; i++) ts_notice_somewhere(5000 + i);
        wait_for([&] { return rel_count == k && notices == m + extra; }, 5000, "cond:lost", "every notified waiter is released");
        if (C.ar && m > k) { int t = try_left(L(P(n)), m - k + 2); SIM_CHECK(t == m - k, "cond:memory", "%d notifications are remembered instead of %d", t, m - k); }
    }
    settle(50); loops_respond(); SIM_CHECK(rel_count == k, "cond:invented", "%d releases of %d waiters", rel_count, k);
    destroy(); settle(50); check_clean(b, CL_FIBER | CL_HEAP | CL_COUNT, "cond");
}
SCENARIO(C07, sync, 2) {
    start_loops(1 << W(2)); Baseline b; C.ar = W(2); C.c = kfiber_cond_init_sync(C.ar); swarm(FA_SPUR | FA_STALL | FA_EINTR);
    int k = 1 + W(4), out = 0, in = 0; std::set<int> vals;
    bool first = W(2);
    auto waiter = [&] { in++; int got = -1; int r = C.c->f->wait(C.c, &got); SIM_CHECK(r == 0, "cond:wait", "wait returned %d", r); SIM_CHECK(vals.count(got), "cond:value", "a waiting thread received %d, which was not notified", got); out++; count_op(); hash_event(0x709, out); };
    auto notify = [&](int v) { vals.insert(v); auto d = std::make_shared<bool>(false); if (P(2)) post(L(P(g_loops.size())), [=] { notice_fn(v); *d = true; }); else spawn("notifier", [=] { notice_fn(v); *d = true; }); wait_for([=] { return *d; }, 5000, "cond:notice-stuck", "the notifier finishes"); };
    int v = 10;
    if (first) { notify(v++); sleep_ms(W(20)); }
    int ncb = C.ar ? 0 : W(4), cb_in = 0;      // callbacks on the loops wait on the same condition
    if (ncb) { for (int i = 0; i < ncb; i++) { cb_in++; ts_cb_on(L(P(g_loops.size()))); } if (W(2)) { if (first) wait_for([&] { return rel_count == ncb; }, 3000, "cond:lost", "every waiting callback runs"); else { loops_respond(); SIM_CHECK(rel_count == 0, "cond:invented", "%d callbacks ran without a notification", rel_count); } } }
    for (int i = 0; i < k; i++) spawn("waiter", waiter);
    wait_for([&] { return in == k; }, 3000, "cond:waiter-start", "waiters start"); settle(W(100) + 30);
    int rel = C.ar ? (first ? 1 : 0) : (first ? k : 0);
    if (rel) wait_for([&] { return out >= rel; }, 3000, "cond:lost", "a remembered notification releases a waiting thread");
    SIM_CHECK(out == rel, "cond:invented", "%d threads passed, %d notifications were due", out, rel);
    while (rel < k) { notify(v++); rel = C.ar ? rel + 1 : k; wait_for([&] { return out >= rel; }, 3000, "cond:lost", "a notified thread is released"); settle(30 + W(60)); SIM_CHECK(out == rel, "cond:invented", "%d threads passed, %d notifications were due", out, rel); }
    int g; int r = C.c->f->try_wait(C.c, &g); SIM_CHECK(r == (C.ar ? -1 : 0), "cond:try", "try_wait returned %d", r);
    if (C.ar) { notify(v); r = C.c->f->try_wait(C.c, &g); SIM_CHECK(r == 0 && g == v, "cond:try", "try_wait returned %d with value %d after notification %d", r, g, v); r = C.c->f->try_wait(C.c, &g); SIM_CHECK(r == -1, "cond:invented", "one notification passed try_wait twice"); }
    if (ncb) { for (int i = 0; i < 2; i++) { cb_in++; ts_cb_on(L(P(g_loops.size()))); } wait_for([&] { return rel_count == cb_in; }, 3000, "cond:lost", "every waiting callback runs");
        settle(60); SIM_CHECK(rel_count == cb_in, "cond:invented", "%d waiting callbacks, %d runs", cb_in, rel_count);
        for (int x : got_vals) SIM_CHECK(vals.count(x), "cond:value", "a waiting callback received %d, which was not notified", x); }
    settle(20); destroy(); check_clean(b, CL_HEAP | CL_FIBER, "cond");
}
SCENARIO(C07, tries, 2) {      // fibers of several loops try, wait and notify at once
    int n = 1 << W(3); start_loops(n); Baseline b; swarm(FA_EINTR | FA_STALL); C.ar = W(4) != 0; C.c = kfiber_cond_init_ts(C.ar);
    int k = 2 + W(6), m = W(10), begun = 0, ended = 0, got_one = 0, out = 0, tried = 0; std::set<int> vals;
    auto notify = [&] { int v = 100 + begun; vals.insert(v); begun++; notice_fn(v); ended++; };
    auto taker = [&] {
        int j = 1 + P(12), waits = P(4) == 0;
        while (j--) {
            int before = ended, g = -1;
            if (waits && P(3) == 0) { int r = C.c->f->wait(C.c, &g); SIM_CHECK(r == 0, "cond:wait", "wait returned %d", r); got_one++; }
            else {
                int r = C.c->f->try_wait(C.c, &g); tried++; SIM_CHECK(r == 0 || r == -1, "cond:try", "try_wait returned %d", r);
                if (r == 0) { got_one++; if (!C.ar) SIM_CHECK(vals.count(g), "cond:value", "try_wait returned value %d, which was not notified", g); }
                else if (!C.ar) SIM_CHECK(before == 0, "cond:try", "try_wait failed after a notification");
            }
            if (got_one) SIM_CHECK(C.ar ? got_one <= begun : begun > 0, "cond:invented", "%d fibers passed, only %d notifications were given", got_one, begun);
            count_op(); if (P(2)) kfiber_msleep(P(3));
        }
        out++; return 0; };
    int w = 0, i = 0;
    while (w < k || i < m) {
        if (i >= m || (w < k && W(2))) { fiber(L(P(n)), taker); w++; }
        else { i++; if (W(2)) post(L(P(n)), notify); else spawn("notifier", [&] { if (P(2)) sleep_ns(P(300) * US); notify(); }); }
        if (W(4) == 0) sleep_ns(W(3000) * US);
    }
    wait_for([&] { return ended == m; }, 5000, "cond:notice-stuck", "notifiers finish");
    Stamp st; settle(250);
    while (out < k) {          // some wait: one notification after another
        SIM_CHECK(st.eff_ms() < 30000, "cond:lost", "a waiter stays blocked although notifications go on (%d of %d finished)", out, k);
        if (begun == got_one || !C.ar) post_wait(L(P(n)), notify);
        settle(250); if (C.ar && begun != got_one && out < k) { settle(1500); SIM_CHECK(out == k || begun == got_one, "cond:lost", "%d notifications were given, %d passed and others wait", begun, got_one); }
    }
    int left = C.ar ? begun - got_one : (begun ? 3 : 0), t = try_left(L(P(n)), C.ar ? left + 3 : 3);
    SIM_CHECK(t == left, C.ar ? "cond:memory" : "cond:manual", "%d notifications are remembered, %d were given and %d fibers passed", t, begun, got_one);
    if (C.ar) { notify(); t = try_left(L(P(n)), 3); SIM_CHECK(t == 1, "cond:memory", "%d tries pass after one more notification", t); }
    destroy(); settle(50); check_clean(b, CL_FIBER | CL_HEAP | CL_COUNT, "cond");
}
