// Helpers shared by the scenarios.
#include "common.h"
std::vector<kselector *> g_loops; bool g_flush; static i64 g_busy_ns; static std::multiset<i64> g_busy_now;
void busy_ms(i64 d) { i64 t = now_ns(); auto it = g_busy_now.insert(t); sleep_ms(d); g_busy_now.erase(it); g_busy_ns += now_ns() - t; }
i64 busy_total_ns() { i64 s = g_busy_ns; for (i64 t : g_busy_now) s += now_ns() - t; return s; }
static kev_result run_fn(KOPAQUE, void *arg, int) { Fn *f = (Fn *)arg; (*f)(); delete f; return kev_ok; }
void post(kselector *s, Fn f) { kgl_selector_module.next(s, nullptr, run_fn, new Fn(std::move(f)), 0); }
bool post_wait(kselector *s, Fn f, i64 tmo) {
    auto done = std::make_shared<bool>(false);
    post(s, [=] { f(); *done = true; });
    i64 sl = slack_ns();
    return wait_until([=] { return *done; }, tmo + (slack_ns() - sl) / MS, 2);
}
static int fib_main(void *arg, int) { IntFn *f = (IntFn *)arg; int r = (*f)(); delete f; return r; }
kfiber *fiber(kselector *s, IntFn f, bool joinable, int stk) { kfiber *k = nullptr; kfiber_create2(s, fib_main, new IntFn(std::move(f)), 0, stk, joinable ? &k : nullptr); return k; }
void fib(kselector *s, Fn f, int stk) { fiber(s, [f] { f(); return 0; }, false, stk); }
void wait_for(std::function<bool()> c, i64 tmo_ms, const char *key, const char *what) {
    Stamp st;
    while (!c()) { if (st.eff_ms() > tmo_ms) violation(key, "%s: not reached within %lld ms", what, (long long)tmo_ms); sleep_ns(std::min(10.0, std::max(2.0, st.ms() / 100)) * 1e6); }      // long waits look less often
}
void start_loops(int n, int ct, int rt, bool flush) {
    g_flush = flush;
    kasync_init();
    selector_manager_init(n, flush);
    if (ct || rt) selector_manager_set_timeout(ct, rt);
    selector_manager_start(NULL, true);
    for (int i = 0; i < get_selector_count(); i++) g_loops.push_back(get_selector_by_index(i));
    loops_respond("startup");
}
void loops_respond(const char *key) {
    for (auto s : g_loops) { auto d = std::make_shared<bool>(false); post(s, [=] { *d = true; }); wait_for([=] { return *d; }, 2000, key, "a loop no longer responds to a posted callback"); }
}
static int loops_idle() {   // posted work of the start-up is done
    Stamp st; for (;;) { bool busy = false; for (auto l : g_loops) busy |= l->count != 0; if (!busy || st.eff_ms() > 500) return 0; sleep_ms(1); }
}
Baseline::Baseline() : dummy(loops_idle()), fds(open_fds()), mark(heap_mark()), fibers(kfiber_get_count()) { for (auto s : g_loops) counts.push_back((int)s->count); }
void settle(i64 ms) { Stamp st; while (st.eff_ms() < ms) sleep_ms(20); }
// the baseline may have seen start-up work that has ended since
static bool count_ok(const Baseline &b, size_t i) { int n = (int)g_loops[i]->count; return n >= 0 && n <= b.counts[i]; }
void check_clean(const Baseline &b, u32 what, const char *pre) {
    char key[96];
    { Stamp st; auto back = [&] { if ((what & CL_FIBER) && kfiber_get_count() != b.fibers) return false; if (what & CL_COUNT) for (size_t i = 0; i < g_loops.size(); i++) if (!count_ok(b, i)) return false; return !(what & CL_FD) || open_fds() == b.fds; };
      while (!back() && st.eff_ms() < 1000) sleep_ms(5); }     // a fiber that has just done its last step is still ending
    if (what & CL_FIBER) if (kfiber_get_count() != b.fibers) { snprintf(key, sizeof key, "%s:fibers-left", pre); violation(key, "the live fiber count is %d, it was %d before", kfiber_get_count(), b.fibers); }
    if (what & CL_COUNT) for (size_t i = 0; i < g_loops.size(); i++) if (!count_ok(b, i)) { snprintf(key, sizeof key, "%s:work-left", pre); violation(key, "loop %zu still counts %d outstanding operations, it was %d before", i, g_loops[i]->count, b.counts[i]); }
    if (what & CL_FD) if (open_fds() != b.fds) { snprintf(key, sizeof key, "%s:fd-leak", pre); violation(key, "%d descriptors are open, %d were open before: %s", open_fds(), b.fds, describe_fds().c_str()); }
    if (what & CL_THREAD) if (zombie_threads()) { snprintf(key, sizeof key, "%s:thread-leak", pre); violation(key, "%d threads ended and were neither detached nor joined: what they occupied is never given back", zombie_threads()); }
    if (what & CL_HEAP) {
        int n; heap_live_since(b.mark, 0, &n);
        if (n) { u64 upto = heap_mark(); settle(g_flush ? 63000 : 2600); std::string s = heap_live_since(b.mark, 6, &n, upto);   // the library's own recurring timers re-create theirs
            if (n) { snprintf(key, sizeof key, "%s:heap-leak", pre); violation(key, "%d heap blocks were not released: %s", n, s.c_str()); } }
    }
}
