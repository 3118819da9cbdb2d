// C23: loops start, tick, stop and return results as asked.
#include "net.h"
#include <netdb.h>
namespace {
// ------------------------------------------------------------------ ticks
struct Tick { int id; kselector_tick *t = nullptr; kselector *s = nullptr; u64 calls = 0; bool closed = false, registered = false; int want = 0; i64 reg_ms = 0; Stamp *last = nullptr; double worst = 0; };
std::map<kselector *, std::vector<Tick *>> live_ticks; int n_ticks, tick_budget; bool tick_actions;
int on_tick(void *arg, int ev);
Tick *tick_open() {           // on a loop
    Tick *t = new Tick; t->id = n_ticks++; t->s = kgl_get_tls_selector(); t->want = oneof<int>(S_WORK, {0, -1, 1, 3, 10, 30, 99, 100, 5000}); t->t = kselector_new_tick(on_tick, t); SIM_CHECK(t->t, "tick:new", "a tick cannot be created");
    if (W(16) == 0) { t->closed = true; SIM_CHECK(kselector_close_tick(t->t), "tick:close", "a tick that was never registered cannot be closed"); return nullptr; }
    t->last = new Stamp; t->registered = true; live_ticks[t->s].push_back(t); SIM_CHECK(kselector_register_tick(t->t), "tick:register", "a tick cannot be registered"); return t;
}
void tick_close(Tick *t) { auto &v = live_ticks[t->s]; v.erase(std::find(v.begin(), v.end(), t)); t->closed = true; SIM_CHECK(kselector_close_tick(t->t), "tick:close", "a tick cannot be closed"); }
int on_tick(void *arg, int) {
    Tick *t = (Tick *)arg; SIM_CHECK(!t->closed, "tick:after-close", "tick %d is called after it was closed", t->id); SIM_CHECK(kgl_get_tls_selector() == t->s, "tick:loop", "tick %d is called on another loop", t->id); t->calls++; count_op();
    double d = t->last->eff_ms(); *t->last = Stamp(); if (d > t->worst) t->worst = d; int w = 100; for (auto x : live_ticks[t->s]) if (x->want > 0 && x->want < w) w = x->want;
    if (tick_actions && tick_budget > 0 && P(6) == 0) { tick_budget--; auto &v = live_ticks[t->s]; u32 a = P(5), ix = std::find(v.begin(), v.end(), t) - v.begin();
        if (a == 0) { tick_close(t); return P(200); } if (a == 1 && ix + 1 < v.size()) { probe("close_next"); tick_close(v[ix + 1]); } else if (a == 2 && ix > 0) tick_close(v[ix - 1]); else if (a == 3 && v.size() < 8) tick_open(); else if (a == 4) { Tick *o = tick_open(); if (o && P(2)) tick_close(o); } }
    return t->want;
}
int soonest(kselector *s) { int w = 100; for (auto x : live_ticks[s]) if (x->want > 0 && x->want < w) w = x->want; return w; }
void ticks_served(kselector *s, bool quiet_pause) {   // fiber of s: within the asked time every tick is called again
    std::vector<std::pair<Tick *, u64>> c; for (auto t : live_ticks[s]) c.push_back({t, t->calls}); int w = soonest(s); Stamp st; if (quiet_pause) kfiber_msleep(350);
    for (auto &p : c) if (!p.first->closed) SIM_CHECK(p.first->calls > p.second, "tick:not-called", "tick %d was not called for %.0f ms", p.first->id, st.eff_ms()); (void)w;
}
// ------------------------------------------------------------------ start-up hooks
struct Hook { int id; std::map<u64, int> starts, ends; }; std::vector<Hook *> hooks;
kev_result hook_cb(KOPAQUE, void *arg, int got) { Hook *h = (Hook *)arg; count_op(); SIM_CHECK(got == 0 || got == 1, "hook:value", "a start-up hook is called with %d", got); u64 me = self(); auto &m = got ? h->ends : h->starts; SIM_CHECK(++m[me] == 1 || got, "hook:twice", "start-up hook %d is called %d times on thread %s", h->id, m[me], thread_name(self())); if (got) SIM_CHECK(m[me] <= h->starts[me], "hook:end", "an end hook without a start"); if (!got) SIM_CHECK(kgl_get_tls_selector(), "hook:loop", "a start-up hook runs outside a loop thread"); return kev_ok; }
void hooks_here(const char *what) { for (auto h : hooks) SIM_CHECK(h->starts.count(self()), "hook:late", "%s runs on loop thread %s before start-up hook %d", what, thread_name(self()), h->id); }
void add_hooks(int n) { for (int i = 0; i < n; i++) { Hook *h = new Hook; h->id = i; hooks.push_back(h); SIM_CHECK(selector_manager_thread_init(hook_cb, h) == 0, "hook:add", "a hook cannot be added before the loops are initialised"); } }
// ------------------------------------------------------------------ kasync_main
int timers_out; kev_result tm_cb(KOPAQUE, void *, int) { timers_out--; return kev_ok; }
void item_file(int id) {
    std::string p = "/m" + std::to_string(id); fs_put(p.c_str(), ""); kfiber_file *f = kfiber_file_open(p.c_str(), fileReadWrite, 0); SIM_CHECK(f, "main:file", "a file cannot be opened"); char b[600], r[600]; patfill(id, 0, b, 600); int n = 600; SIM_CHECK(kfiber_file_write_full(f, b, &n), "main:file", "a write fails");
    kfiber_file_seek(f, seekBegin, 0); SIM_CHECK(kfiber_file_read(f, r, 600) == 600 && !memcmp(b, r, 600), "main:file", "a file is not read back"); kfiber_file_close(f);
}
int item_call(void *a, int n) { sleep_ms(P(20)); return n * 3 + *(int *)a; }
void item_net(int id) {
    int port = 0; Xfer *x = new Xfer; x->id = id; x->up.seed = id * 2; x->down.seed = id * 2 + 1; x->up.total = W(4000); x->down.total = W(4000); x->cchunk = x->schunk = 512; x->cstyle = W(8); bool acc = false;
    spawn("peer", [=, &acc, &port] { int lfd = peer_listen_any(&port), fd = ::accept(lfd, nullptr, nullptr); ::close(lfd); if (fd >= 0) xfer_peer_end(fd, x, false); acc = true; }); while (!port) kfiber_msleep(1); kconnection *c = nullptr; sockaddr_i a = loop_addr(port); int r = conn_open(&c, &a); SIM_CHECK(r == 0, "main:connect", "a connection to a listening peer fails"); xfer_fiber_end(c, x, true); int i = 0; while (!acc && i++ < 3000) kfiber_msleep(5); SIM_CHECK(x->done(), "main:net", "an exchange does not end: %s", x->state().c_str()); delete x;
}
struct MainJob { int argc, ret, runs = 0; u32 items; bool net, pool; };
int child(int v) { if (v & 1) kfiber_msleep(v % 50); return v; }
int main_fn(void *arg, int argc) {
    MainJob *j = (MainJob *)arg; SIM_CHECK(++j->runs == 1, "main:twice", "the main fiber runs twice"); SIM_CHECK(argc == j->argc, "main:argument", "the main fiber got %d instead of %d", argc, j->argc); hooks_here("the main fiber"); kselector *s = kgl_get_tls_selector(); std::vector<Tick *> mine;
    for (u32 i = 0; i < j->items; i++) switch (W(9)) {
        case 0: { Stamp st; int ms = W(300); kfiber_msleep(ms); SIM_CHECK(st.ms() >= ms - 30, "main:sleep", "a sleep of %d ms took %.3f", ms, st.ms()); break; }
        case 1: { int n = 1 + W(4); std::vector<std::pair<kfiber *, int>> k; for (int q = 0; q < n; q++) { int v = W(1000); k.push_back({fiber(W(2) ? s : nullptr, [v] { return child(v); }, true), v}); } for (auto &p : k) { int r = -7; kfiber_join(p.first, &r); SIM_CHECK(r == p.second, "main:join", "a child returned %d, joined as %d", p.second, r); } break; }
        case 2: { timers_out++; kselector_add_timer(s, tm_cb, nullptr, W(200), nullptr); break; }
        case 3: tick_open(); break;
        case 4: if (live_ticks[s].size()) { ticks_served(s, true); if (live_ticks[s].size()) tick_close(live_ticks[s][W(live_ticks[s].size())]); } break;
        case 5: item_file(1000 * self() + i); break;
        case 6: if (j->net) item_net(W(1 << 20)); break;
        case 7: if (j->pool) { int k = W(100), r = 0; SIM_CHECK(kfiber_thread_call(item_call, &k, 5, &r) == 0 && r == 15 + k, "main:call", "a thread call returned %d", r); } break;
        default: { bool fired = false; kfiber_cond *c = kfiber_cond_init(true); fib(nullptr, [&] { kfiber_msleep(W(30)); fired = true; c->f->notice(c, 4); }); int v = 0; c->f->wait(c, &v); SIM_CHECK(fired && v == 4, "main:cond", "a condition wait returned early"); c->f->release(c); kfiber_msleep(1); break; }
    }
    while (live_ticks[s].size()) tick_close(live_ticks[s].back());
    for (int i = 0; i < 400 && (timers_out || kfiber_get_count() > 1) && !j->pool; i++) kfiber_msleep(5); if (timers_out) { Stamp st; while (timers_out && st.eff_ms() < 2000) kfiber_msleep(20); }
    return j->ret;
}
void run_main(int k, bool net, bool pool) {
    Baseline b; int ctx = aio_contexts(); Stamp st; MainJob j{}; j.argc = W(1u << 30); j.ret = oneof<int>(S_WORK, {0, 7, -1, 0x7fffffff, (int)0x80000000}); j.items = W(8); j.net = net; j.pool = pool; std::map<Hook *, std::pair<int, int>> h0; for (auto h : hooks) { h0[h] = {h->starts[self()], h->ends[self()]}; h->starts.erase(self()); h->ends.erase(self()); }
    int r = kasync_main(main_fn, &j, j.argc); count_op(); SIM_CHECK(j.runs == 1, "main:lost", "the main fiber ran %d times", j.runs); SIM_CHECK(r == j.ret, "main:result", "run %d: kasync_main returned %d, the main fiber %d", k, r, j.ret);
    for (auto h : hooks) SIM_CHECK(h->starts[self()] == 1 && h->ends[self()] == 1, "hook:count", "start-up hook %d was called %d times at the start and %d times at the end", h->id, h->starts[self()], h->ends[self()]);
    SIM_CHECK(kgl_get_tls_selector() == nullptr, "main:left", "the thread still belongs to a loop after kasync_main"); if (pool) { int w, f; wait_for([&] { kthread_get_count(&w, &f); return w == 0; }, 5000, "main:threads", "pool threads are idle again"); kthread_close_all_free(); settle(30); } if (net) settle(20);
    SIM_CHECK(aio_contexts() == ctx, "main:aio-context", "run %d leaves %d kernel file-I/O contexts behind", k, aio_contexts() - ctx); check_clean(b, CL_FD | CL_HEAP | CL_FIBER, "main");
}
}
SCENARIO(C23, main_runs, 4) {
    kasync_init(); add_hooks(W(3)); swarm(FA_EINTR | FA_LATE | FA_STALL | FA_NET | FA_SHORT); tick_actions = W(2); tick_budget = 20; bool net = W(2), pool = W(2); int n = 1 + W(4); for (int i = 0; i < n; i++) run_main(i, net, pool);
}
SCENARIO(C23, main_threads, 2) {   // several threads run a loop of their own at the same time
    kasync_init(); Baseline b; int ctx = aio_contexts(); swarm(FA_EINTR | FA_LATE); int n = 2 + W(3), left = n; std::vector<MainJob *> js;
    for (int i = 0; i < n; i++) { MainJob *j = new MainJob{}; j->argc = W(1 << 20); j->ret = W(1 << 30); j->items = W(6); js.push_back(j); spawn("user", [j, &left] { int r = kasync_main(main_fn, j, j->argc); SIM_CHECK(r == j->ret, "main:result", "kasync_main returned %d, the main fiber %d", r, j->ret); left--; }); }
    wait_for([&] { return left == 0; }, 60000, "main:stalled", "every kasync_main returns"); { for (auto j : js) SIM_CHECK(j->runs == 1, "main:lost", "a main fiber ran %d times", j->runs); } SIM_CHECK(aio_contexts() == ctx, "main:aio-context", "%d kernel file-I/O contexts are left behind", aio_contexts() - ctx); settle(5); check_clean(b, CL_FD | CL_HEAP | CL_FIBER, "main");
}
namespace {
struct Ready { int id, runs = 0; }; std::vector<Ready *> readies; int hook_calls; int hook_loop = -1; i64 last_hook_sec = -1;
kev_result ready_cb(KOPAQUE, void *arg, int) { Ready *r = (Ready *)arg; count_op(); SIM_CHECK(++r->runs == 1, "ready:twice", "callback %d registered before the start runs %d times", r->id, r->runs); SIM_CHECK(kgl_get_tls_selector() && my_loop() >= -1, "ready:loop", "a start callback runs outside a loop thread"); hooks_here("a start callback"); return kev_ok; }
void on_ready() { Ready *r = new Ready; r->id = readies.size(); readies.push_back(r); selector_manager_on_ready(ready_cb, r); }
struct Early { int id, delay, runs = 0; i64 due; }; std::vector<Early *> earlies;          // timers set before the loops run
kev_result early_cb(KOPAQUE data, void *arg, int) { Early *e = (Early *)arg; count_op(); SIM_CHECK(++e->runs == 1 && (void *)data == &e->due, "early:twice", "timer %d set before the start fires %d times", e->id, e->runs); SIM_CHECK(now_ms() >= e->due - 400, "early:early", "timer %d set before the start with a delay of %d ms fires %lld ms before its deadline", e->id, e->delay, (long long)(e->due - now_ms())); SIM_CHECK(kgl_get_tls_selector() && my_loop() >= -1, "early:loop", "a timer fires outside a loop thread"); hooks_here("a timer"); return kev_ok; }
void early_timers(int n) { for (int i = 0; i < n; i++) { Early *e = new Early; e->id = earlies.size(); e->delay = oneof<int>(S_WORK, {0, 3, 700, 150, 2000, 5000}); earlies.push_back(e); e->due = now_ms() + e->delay; selector_manager_add_timer(early_cb, e, e->delay, (KOPAQUE)&e->due); } }
void second_hook() { hook_calls++; SIM_CHECK(kgl_get_tls_selector() == get_selector_by_index(0), "second:loop", "the per-second hook runs outside the first loop"); i64 s = kgl_current_sec; SIM_CHECK(s != last_hook_sec, "second:twice", "the per-second hook is called twice within a second"); last_hook_sec = s; }
void collect() { g_loops.clear(); for (int i = 0; i < get_selector_count(); i++) g_loops.push_back(get_selector_by_index(i)); }
void turns(int l) {            // each turn of the loop calls every tick
    kselector *s = L(l); for (int i = 0; i < 6; i++) { std::map<Tick *, u64> c; post_wait(s, [&] { for (auto t : live_ticks[s]) c[t] = t->calls; }); post_wait(s, [&] { for (auto &p : c) if (!p.first->closed) SIM_CHECK(p.first->calls > p.second, "tick:turn", "tick %d was not called in a turn of its loop", p.first->id); }); if (P(3) == 0) sleep_ms(P(30)); }
}
void served(int l) {           // idle loop: the earliest request decides
    kselector *s = L(l); int w = 0; post_wait(s, [&] { w = soonest(s); for (auto t : live_ticks[s]) { *t->last = Stamp(); t->worst = 0; } }); Stamp st; sleep_ms(20 * w > 400 ? 400 : 20 * w); i64 slack = cfg.p_late ? 30 : 5;
    post_wait(s, [&] { if (soonest(s) == w) for (auto t : live_ticks[s]) { double d = std::max(t->worst, t->last->eff_ms()); SIM_CHECK(d <= w + slack, "tick:late", "a tick asked to be called within %d ms, the loop took %.2f ms for a turn", w, d); SIM_CHECK(t->calls, "tick:not-called", "tick %d was never called", t->id); } });
}
}
SCENARIO(C23, start, 4) {
    kasync_init(); add_hooks(W(3)); int pre = W(5); for (int i = 0; i < pre; i++) on_ready(); early_timers(W(3)); swarm(FA_EINTR | FA_STALL | FA_LATE); int n = oneof<int>(S_WORK, {1, 2, 4, 3, 8, 5}); u32 how = W(4); int p2 = 1; while (p2 * 2 <= n) p2 *= 2;
    int early = 0, racing = 0; bool stop = false; g_flush = W(2); selector_manager_init(n, g_flush); SIM_CHECK(get_selector_count() == p2, "start:count", "%d loops were asked for and %d made", n, get_selector_count()); SIM_CHECK(selector_manager_thread_init(hook_cb, nullptr) != 0, "hook:add", "a hook is accepted after the loops were initialised");
    early_timers(W(3)); for (int i = 0; i < (int)W(4); i++) { on_ready(); early++; } { int k = W(3); for (int i = 0; i < k; i++) { racing++; spawn("ready", [&] { for (int q = 0; q < 5; q++) { on_ready(); if (P(2)) sleep_ns(P(3000) * US); } racing--; }); } }
    if (W(3) == 0) { sleep_ms(oneof<int>(S_WORK, {1500, 300, 4000, 61000})); probe("late_start"); }
    auto hookfn = W(2) ? second_hook : nullptr; bool stepping = false, ended = true;
    if (how == 1) spawn("main-loop", [=] { selector_manager_start(hookfn, false); violation("start:returned", "selector_manager_start returned"); });
    else if (how == 2) { ended = false; stepping = true; spawn("stepper", [&] { kselector_step_init(0); while (!stop) kselector_step(0); kselector_step_exit(0); ended = true; }); for (int i = 1; i < get_selector_count(); i++) SIM_CHECK(kselector_start(get_selector_by_index(i)), "start:thread", "a loop cannot be started"); }
    else selector_manager_start(hookfn, true);
    collect(); int sleepers = 0; if (how != 2 && W(2)) for (int i = 0; i < get_selector_count(); i++) { sleepers++; fib(L(i), [&sleepers] { Stamp st; int v = 450 + P(800); kfiber_msleep(v); SIM_CHECK(st.ms() >= v - 400 - slack_ns() / 1e6, "start:sleep", "right after the start a sleep of %d ms took %.3f", v, st.ms()); sleepers--; }); }
    loops_respond("start:dead"); i64 t0 = now_ms();
    if (n == 1 && how != 2 && W(2)) { wait_for([&] { return racing == 0; }, 5000, "ready:stalled", "registering start callbacks returns"); /* growing is for a program whose other threads do not look for loops meanwhile */ int want = oneof<int>(S_WORK, {2, 4, 3, 1, 9}), q = 1; while (q * 2 <= want) q *= 2; bool ok = false; post_wait(L(0), [&] { ok = selector_manager_grow(want); }); SIM_CHECK(ok == (q > 1), "start:grow", "growing to %d loops returns %d", want, ok); SIM_CHECK(get_selector_count() == (ok ? q : 1), "start:count", "%d loops after growing to %d", get_selector_count(), want); collect(); loops_respond("start:dead"); for (int i = 0; i < 4; i++) on_ready(); probe("grow"); }
    wait_for([&] { return sleepers == 0; }, 4000, "start:sleep", "a sleep started right after the start ends");
    wait_for([&] { if (racing) return false; for (auto r : readies) if (!r->runs) return false; return true; }, 3000, "ready:lost", "every start callback runs"); for (auto s : g_loops) SIM_CHECK(post_wait(s, [&] { hooks_here("a posted callback"); }), "start:dead", "a loop does not answer");
    { i64 last = 0; for (auto e : earlies) last = std::max(last, e->due); wait_for([] { for (auto e : earlies) if (!e->runs) return false; return true; }, std::max<i64>(0, last - now_ms()) + 700, "early:lost", "a timer set before the start fires"); }
    { for (auto h : hooks) SIM_CHECK(h->starts.size() == g_loops.size(), "hook:count", "start-up hook %d ran on %zu of %zu loops", h->id, h->starts.size(), g_loops.size()); }
    { std::set<pthread_t> th; for (auto s : g_loops) SIM_CHECK(th.insert(s->thread_id).second, "start:thread", "two loops share a thread"); }
    if (hookfn && how != 2 && W(2)) { cfg.p_stall = 0; sleep_ms(2100); t0 = now_ms(); hook_calls = 0; sleep_ms(5000); i64 sec = (now_ms() - t0) / 1000; SIM_CHECK(hook_calls >= sec - 1 && hook_calls <= sec + 1, "second:count", "the per-second hook ran %d times in %lld s", hook_calls, (long long)sec); }
    // ticks
    Baseline b; tick_budget = 30; int nt = W(5); for (int i = 0; i < nt; i++) { int l = W(8); SIM_CHECK(post_wait(L(l), [] { tick_open(); }), "start:dead", "a loop does not answer"); } for (size_t i = 0; i < g_loops.size() && i < 2; i++) { turns(i); served(i); } tick_actions = true;
    for (int i = 0; i < 12; i++) { int l = W(8); post_wait(L(l), [&] { kselector *s = L(l); auto &v = live_ticks[s]; if (v.size() && P(2)) tick_close(v[P(v.size())]); else if (v.size() < 8) tick_open(); }); if (P(2)) sleep_ms(P(150)); turns(l); }
    tick_actions = false; for (auto s : g_loops) post_wait(s, [=] { while (live_ticks[s].size()) tick_close(live_ticks[s].back()); }); SIM_CHECK(!kselector_close_tick(nullptr) && !kselector_register_tick(nullptr), "tick:thread", "a tick is registered outside a loop"); loops_respond(); settle(250); check_clean(b, CL_HEAP, "tick");
    stop = true; wait_for([&] { return ended; }, 2000, "start:stop", "the stepped loop ends"); if (stepping) for (auto h : hooks) { int e = 0; for (auto &p : h->ends) e += p.second; SIM_CHECK(e == 1, "hook:end", "the end hook ran %d times", e); }
}
