// C16: the thread pool (kthread_pool_start and retirement of idle threads).
#include "common.h"
namespace {
struct Task { int id; int runs = 0, ended = 0, tid = -1; bool started = false, failed = false; bool pool; };
std::vector<Task *> tasks; int running; std::set<int> busy; bool gate = true; int base_w;
void *task_fn(void *a) {
    Task *t = (Task *)a; bool known = false; for (auto x : tasks) known |= x == t; SIM_CHECK(known, "pool:argument", "a task got an argument nobody passed");
    count_op(); hash_event(0x1601, t->id); SIM_CHECK(!t->failed, "pool:failed-ran", "task %d runs although its start failed", t->id); SIM_CHECK(++t->runs == 1, "pool:twice", "task %d runs %d times", t->id, t->runs);
    t->tid = self(); SIM_CHECK(busy.insert(t->tid).second, "pool:shared-thread", "two tasks run at the same time on thread %s", thread_name(t->tid)); running++;
    int w, f; kthread_get_count(&w, &f); if (t->pool) SIM_CHECK(w >= base_w + 1, "pool:count", "a pool task runs and %d threads count as busy", w);
    while (!gate) sleep_ms(20); u32 m = P(4); if (m == 1) sleep_ns(P(500) * US); else if (m == 2) sleep_ms(P(30)); else if (m == 3) sim::yield();
    running--; busy.erase(t->tid); t->ended++; return nullptr;
}
void launch(bool pool) {
    Task *t = new Task; t->id = tasks.size(); t->pool = pool; tasks.push_back(t); bool ok = pool ? kthread_pool_start(task_fn, t) : kthread_start(task_fn, t);
    if (ok) t->started = true; else { SIM_CHECK(cfg.p_thread_fail, "pool:start-fails", "a start failed although threads can be created"); SIM_CHECK(t->runs == 0, "pool:failed-ran", "task %d ran although its start failed", t->id); t->failed = true; }
}
bool all_done() { for (auto t : tasks) if (t->started && !t->ended) return false; return running == 0; }
void counts(const char *what) { int w, f; wait_for([&] { kthread_get_count(&w, &f); SIM_CHECK(w >= base_w && f >= 0, "pool:count", "%d busy and %d idle threads are reported", w, f); return w == base_w; }, 5000, "pool:count", what); }
}
SCENARIO(C16, starts, 3) {
    start_loops(1); Baseline b; int f0; kthread_get_count(&base_w, &f0); SIM_CHECK(base_w == 1, "pool:count", "the pool reports %d busy threads for one loop", base_w);
    swarm(FA_STALL | FA_SPUR); cfg.p_thread_fail = W(2) ? lvl({100, 500, 1000}) : 0; 
    { int rounds = 1 + W(4); for (int r = 0; r < rounds; r++) {
        int k = 1 + W(4), fin = 0, left = 40 / rounds; for (int i = 0; i < k; i++) { int n = std::min<int>(1 + W(6), left); left -= n; spawn("starter", [=, &fin] { for (int j = 0; j < n; j++) { if (P(3) == 0) sleep_ns(P(300) * US); launch(P(8) != 0); } fin++; }); }
        bool flush = W(2); if (flush) spawn("flusher", [&] { for (int j = 0; j < 4; j++) { kthread_flush(P(3)); sleep_ns(P(400) * US); } });
        wait_for([&] { return fin == k; }, 5000, "pool:start-blocked", "every start returns"); wait_for(all_done, 8000, "pool:lost", "every started task runs to its end"); counts("all threads are idle again");
        if (W(2)) sleep_ms(oneof<int>(S_WORK, {100, 59000, 61500, 130000}));    // idle threads become old enough to be retired
        if (W(2)) { int keep = W(3); kthread_flush(keep); }
    } }
    { for (auto t : tasks) SIM_CHECK(t->runs == (t->started ? 1 : 0), "pool:count", "task %d ran %d times", t->id, t->runs);
    int w, f; kthread_get_count(&w, &f); SIM_CHECK(w == base_w, "pool:count", "%d busy threads, %d before", w, base_w);
    kthread_close_all_free(); kthread_get_count(&w, &f); SIM_CHECK(f == 0, "pool:idle", "%d idle threads remain after all were closed", f); settle(50); check_clean(b, CL_HEAP | CL_THREAD, "pool"); }
}
SCENARIO(C16, retire, 3) {     // starts racing with the retirement of threads that are old enough
    start_loops(1); Baseline b; int f0; kthread_get_count(&base_w, &f0); swarm(FA_STALL | FA_SPUR); int k = 1 + W(5); gate = false;
    for (int i = 0; i < k; i++) launch(true);
    wait_for([&] { return running == k; }, 5000, "pool:lost", "every task gets its own thread at once"); gate = true; wait_for(all_done, 5000, "pool:lost", "tasks end"); counts("all threads are idle again");
    int w, f; kthread_get_count(&w, &f); SIM_CHECK(f == f0 + k, "pool:idle", "%d tasks ended and %d threads are idle", k, f);
    int rounds = 1 + W(3);
    for (int r = 0; r < rounds; r++) {
        sleep_ms(61500); u32 how = W(3); int fin = 0; auto ret = [&] { if (P(2)) sleep_ns(P(60) * US); if (how == 0) kthread_close_all_free(); else kthread_flush(how == 1 ? 0 : P(3)); fin++; };
        spawn("retire", ret); bool two = W(3) == 0; if (two) spawn("retire", ret);
        int m = 1 + W(4); int st = 0; for (int i = 0; i < m; i++) spawn("starter", [&] { if (P(2)) sleep_ns(P(60) * US); launch(true); st++; });
        wait_for([&] { return fin == 1 + two && st == m; }, 5000, "pool:start-blocked", "starts and retirements return"); wait_for(all_done, 5000, "pool:lost", "every started task runs to its end"); counts("all threads are idle again");
        kthread_get_count(&w, &f); SIM_CHECK(f <= 25, "pool:idle", "%d idle threads", f);
    }
    sleep_ms(62000); int before; kthread_get_count(&w, &before); int keep = W(3); kthread_flush(keep); kthread_get_count(&w, &f); SIM_CHECK(f == std::min(before, keep), "pool:retire", "%d of %d idle threads remain after retiring all but %d", f, before, keep);
    kthread_close_all_free(); kthread_get_count(&w, &f); SIM_CHECK(f == 0, "pool:idle", "%d idle threads remain after all were closed", f); settle(50);
    for (auto t : tasks) SIM_CHECK(t->runs == (t->started ? 1 : 0), "pool:count", "task %d ran %d times", t->id, t->runs);
    check_clean(b, CL_HEAP | CL_THREAD, "pool");
}
SCENARIO(C16, ages, 1) {       // a flush retires the threads idle for more than a minute and no others
    start_loops(1); Baseline b; int f0; kthread_get_count(&base_w, &f0); swarm(FA_STALL | FA_SPUR); int k1 = 1 + W(4), k2 = 1 + W(4), w, f; gate = false;
    for (int i = 0; i < k1 + k2; i++) launch(true);
    wait_for([&] { return running == k1 + k2; }, 5000, "pool:lost", "every task gets its own thread at once"); gate = true; wait_for(all_done, 5000, "pool:lost", "tasks end"); counts("all threads are idle again");
    kthread_get_count(&w, &f); SIM_CHECK(f == f0 + k1 + k2, "pool:idle", "%d tasks ended and %d threads are idle", k1 + k2, f);
    Stamp t0; sleep_ms(45000); gate = false; for (int i = 0; i < k2; i++) launch(true); wait_for([&] { return running == k2; }, 5000, "pool:lost", "every task gets a thread"); gate = true; wait_for(all_done, 5000, "pool:lost", "tasks end"); counts("all threads are idle again");
    int keep = W(3) ? 0 : W(k1 + k2 + 1); double el = t0.ms(); if (el < 57000 && W(3) == 0) { kthread_flush(0); kthread_get_count(&w, &f); double e2 = t0.ms(); if (e2 < 59000) SIM_CHECK(f == k1 + k2 + f0, "pool:retired-young", "%d of %d threads idle for less than a minute were retired", k1 + k2 + f0 - f, k1 + k2 + f0); }
    el = t0.ms(); if (el < 66000) sleep_ms(66000 - (int)el); kthread_flush(keep); kthread_get_count(&w, &f); el = t0.ms();
    if (el < 100000) SIM_CHECK(f == std::max(k2, std::min(keep, f0 + k1 + k2)), "pool:retire", "%d threads idle for %.0f s and %d idle for %.0f s: %d remain after retiring the old ones but %d", k1, el / 1e3, k2, (el - 45000) / 1e3, f, keep);
    kthread_close_all_free(); kthread_get_count(&w, &f); SIM_CHECK(f == 0, "pool:idle", "%d idle threads remain after all were closed", f); settle(50); for (auto t : tasks) SIM_CHECK(t->runs == (t->started ? 1 : 0), "pool:count", "task %d ran %d times", t->id, t->runs);
    check_clean(b, CL_HEAP | CL_THREAD, "pool");
}
