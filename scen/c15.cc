// C15: the worker queue (kasync_worker).
#include "common.h"
namespace {
struct Job { int id; bool high = false, accepted = false, refused = false, trying = true; int how = 0; int started = 0, ended = 0; u64 t_begin = 0, t_acc = 0, t_start = 0, t_end = 0; };
std::vector<Job *> jobs; u64 tick; int running, nworkers, qmax, done; kasync_worker *wk; bool gate = true; int nested_left;
bool submit(int how);
kev_result job_cb(void *d, int) {
    Job *j = (Job *)d; j->t_start = ++tick; count_op(); hash_event(0x1501, j->id);
    SIM_CHECK(!j->refused, "worker:refused-ran", "job %d was refused and yet it runs", j->id);
    SIM_CHECK(++j->started == 1, "worker:twice", "job %d runs %d times", j->id, j->started);
    SIM_CHECK(++running <= nworkers, "worker:limit", "%d jobs run at once, the limit is %d workers", running, nworkers);
    // at most nworkers jobs can have left the queue without having started
    if (!j->high) { int n = 0; for (auto x : jobs) n += x != j && !x->high && x->accepted && !x->started && x->t_acc < j->t_begin; SIM_CHECK(n < nworkers, "worker:order", "job %d starts before %d jobs submitted earlier (%d workers)", j->id, n, nworkers); }
    if (nworkers == 1 && !j->high) { u64 prev = 0; for (auto x : jobs) if (x != j && x->t_end > prev) prev = x->t_end; for (auto x : jobs) SIM_CHECK(!(x->high && x->accepted && !x->started && x->t_acc < prev), "worker:order", "ordinary job %d starts before high-priority job %d that was queued when the worker chose", j->id, x->id); }
    while (!gate) sleep_ms(20);
    u32 m = P(5); if (m == 1) sleep_ns(P(300) * US); else if (m == 2) { sim::yield(); sim::yield(); } else if (m == 3 && nested_left > 0) { nested_left--; submit(P(4) == 0); }
    else if (m == 4 && j->how == 2 && !cfg.p_thread_fail) wait_for([&] { return !j->trying; }, 5000, "worker:start-blocked", "a submission that waited returns while its job runs");
    running--; j->ended++; j->t_end = ++tick; done++; return kev_ok;
}
bool submit(int how) {     // 0 try_start, 1 try_start high, 2 start
    Job *j = new Job; j->id = jobs.size(); jobs.push_back(j); j->high = how == 1; j->how = how; j->t_begin = ++tick; bool ok = true;
    if (how == 2) kasync_worker_start(wk, j, job_cb); else ok = kasync_worker_try_start(wk, j, job_cb, how == 1);
    j->trying = false; if (ok) { j->accepted = true; j->t_acc = ++tick; } else { j->refused = true;
        bool busy = false; for (auto x : jobs) busy |= x->started && !x->ended && x->t_start < j->t_begin;     // a worker was there all the time
        if (!cfg.p_thread_fail || busy) { int q = 0; for (auto x : jobs) q += x != j && !x->refused && (!x->started || x->t_start > j->t_begin); SIM_CHECK(qmax > 0 && q >= qmax, "worker:refused", "job %d was refused with %d jobs queued, the limit is %d", j->id, q, qmax); }
        SIM_CHECK(j->started == 0, "worker:refused-ran", "job %d was refused and yet it ran", j->id); }
    return ok;
}
int accepted() { int n = 0; for (auto j : jobs) n += j->accepted; return n; }
int waiting(bool cnt_trying = false) { int n = 0; for (auto j : jobs) n += (!j->started && !j->refused) || (j->trying && cnt_trying); return n; }
void finish_all(const Baseline &b) {
    wait_for([] { return done == accepted() && waiting(true) == 0; }, 10000, "worker:stranded", "every accepted job runs");
    for (auto j : jobs) SIM_CHECK(j->started == (j->accepted ? 1 : 0), "worker:count", "job %d ran %d times, accepted %d", j->id, j->started, j->accepted);
    int w, f; wait_for([&] { kthread_get_count(&w, &f); return w == (int)g_loops.size(); }, 5000, "worker:threads", "the worker threads go back to the pool"); cfg.p_thread_fail = 0;
    kthread_close_all_free(); settle(30); check_clean(b, CL_HEAP | CL_COUNT, "worker");
}
}
SCENARIO(C15, general, 4) {
    start_loops(1); Baseline b; swarm(FA_STALL | FA_SPUR); cfg.p_thread_fail = W(3) == 0 ? 0 : lvl({100, 500, 1000}); nworkers = 1 + W(4); qmax = W(5);
    wk = kasync_worker_init(nworkers, qmax); nested_left = W(6); int k = 1 + W(4), fin = 0; bool early = W(3) == 0;
    for (int i = 0; i < k; i++) { int n = 1 + W(8), style = W(4); kasync_worker_refs(wk);
        spawn("submitter", [=, &fin] { for (int j = 0; j < n; j++) { if (P(3) == 0) sleep_ns(P(400) * US); submit(style == 3 ? (int)P(3) : style); } kasync_worker_release(wk); fin++; }); }
    if (early) kasync_worker_release(wk);            // the last user lets go while jobs are still queued
    wait_for([&] { return fin == k; }, 10000, "worker:start-blocked", "every submission returns");
    wait_for([] { return done == accepted() && waiting(true) == 0; }, 10000, "worker:stranded", "every accepted job runs");
    if (!early) { SIM_CHECK(kasync_worker_empty(wk), "worker:empty", "the queue is not reported empty"); int g = 0; cfg.p_thread_fail = 0; wait_for([&] { g++; return !kasync_worker_will_wait(wk); }, 3000, "worker:will-wait", "an idle queue reports free workers"); kasync_worker_release(wk); }
    finish_all(b);
}
SCENARIO(C15, limits, 2) {     // the workers are held up: the queue bound and the blocking submission
    start_loops(1); Baseline b; swarm(FA_STALL | FA_SPUR); nworkers = 1 + W(3); qmax = W(5); if (W(3)) wk = kasync_worker_init(nworkers, qmax); else { wk = kasync_worker_init(1 + W(3), W(5)); kasync_worker_set(wk, nworkers, qmax); probe("limits_set"); } gate = false; int n = nworkers + qmax + 3;
    for (int i = 0; i < n; i++) {
        if (i <= nworkers) { int want = std::min(i, nworkers); wait_for([&] { return running == want; }, 3000, "worker:idle", "queued jobs start while fewer than the allowed workers run"); }
        int q = waiting(); bool ok = submit(P(3) == 0);
        if (qmax == 0 || q < qmax) SIM_CHECK(ok, "worker:refused", "a job was refused with %d queued, the limit is %d", q, qmax);
        else if (q > qmax) SIM_CHECK(!ok, "worker:overfull", "a job was accepted with %d queued, the limit is %d", q, qmax);
    }
    SIM_CHECK(kasync_worker_will_wait(wk), "worker:will-wait", "a busy queue reports free workers");
    int q = waiting(), back = 0, m = 1 + W(3); for (int i = 0; i < m; i++) spawn("start", [&] { submit(2); back++; });
    settle(30); if (qmax > 0 && q > qmax) SIM_CHECK(back == 0, "worker:start-early", "a blocking submission returned although the queue is full");
    if (qmax == 0 || q + m <= qmax) SIM_CHECK(back == m, "worker:start-blocked", "a blocking submission waits although the queue is not full");
    gate = true; wait_for([&] { return back == m; }, 5000, "worker:start-blocked", "every submission returns");
    kasync_worker_release(wk); finish_all(b);
}
SCENARIO(C15, limit_race, 1) { // many submitters at once against a queue whose workers are held up
    start_loops(1); Baseline b; swarm(FA_STALL | FA_SPUR); nworkers = 1 + W(2); qmax = 1 + W(4); wk = kasync_worker_init(nworkers, qmax); gate = false;
    for (int i = 0; i < nworkers; i++) { submit(0); int want = i + 1; wait_for([&] { return running == want; }, 3000, "worker:idle", "queued jobs start while fewer than the allowed workers run"); }
    int k = 2 + W(3), fin = 0, pre = W(qmax + 1); for (int i = 0; i < pre; i++) submit(0);
    for (int i = 0; i < k; i++) { int n = 1 + W(3); spawn("submitter", [=, &fin] { for (int j = 0; j < n; j++) { if (P(3) == 0) sleep_ns(P(20) * US); submit(P(3) == 0); } fin++; }); }
    wait_for([&] { return fin == k; }, 10000, "worker:start-blocked", "every submission returns");
    int q = waiting(); SIM_CHECK(q <= qmax + 1, "worker:overfull", "%d jobs are queued after %d threads submitted at once, the limit is %d", q, k, qmax);
    gate = true; kasync_worker_release(wk); finish_all(b);
}
SCENARIO(C15, one_shot, 1) {   // kasync_worker_thread_start: a thread per call
    start_loops(1); Baseline b; swarm(FA_STALL); cfg.p_thread_fail = lvl({200, 700}); int k = 1 + W(6), ok = 0; nworkers = 99;
    for (int i = 0; i < k; i++) { Job *j = new Job; j->id = jobs.size(); jobs.push_back(j); if (kasync_worker_thread_start(j, job_cb)) { j->accepted = true; ok++; } else { SIM_CHECK(cfg.p_thread_fail, "worker:refused", "a start fails"); j->refused = true; } j->trying = false; if (P(3) == 0) sleep_ns(P(500) * US); }
    finish_all(b);
}
