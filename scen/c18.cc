// C18: blocking calls handed to pool threads, and file operations made from another loop than the file's.
#include "net.h"
namespace {
struct Call { int id, argc, want, loop, runs = 0, tid = -1; bool failed = false, back = false, ended = false; };
std::vector<Call *> calls; int live, base_w; u64 posted, posted_ran; bool gate = true;
int body(void *a, int argc) {
    Call *c = nullptr; for (auto x : calls) if (x == a) c = x; SIM_CHECK(c, "call:argument", "a call got an argument nobody passed"); SIM_CHECK(argc == c->argc, "call:argument", "call %d got the number %d instead of %d", c->id, argc, c->argc);
    count_op(); SIM_CHECK(!c->failed, "call:failed-ran", "call %d runs although it was reported as not started", c->id); SIM_CHECK(++c->runs == 1, "call:twice", "call %d runs %d times", c->id, c->runs);
    c->tid = self(); SIM_CHECK(my_loop() < 0, "call:on-loop", "call %d runs on the thread of a loop", c->id); SIM_CHECK(!c->back, "call:early", "the fiber of call %d went on before it", c->id);
    while (!gate) sleep_ms(20); u32 m = P(6); if (m == 1) sleep_ns(P(500) * US); else if (m == 2) sleep_ms(P(30)); else if (m == 3) sim::yield(); else if (m == 4) { posted++; post(L(P(3)), [] { posted_ran++; }); } else if (m == 5 && P(8) == 0) sleep_ms(P(2000));
    SIM_CHECK(!c->back, "call:early", "the fiber of call %d went on before it ended", c->id); c->ended = true; return c->want;
}
void do_call(int loop) {
    Call *c = new Call; c->id = calls.size(); c->argc = (int)W(1u << 31); c->want = oneof<int>(S_WORK, {0, -1, 1, 77777, (int)0x80000000}); c->loop = loop; calls.push_back(c); bool noret = W(5) == 0; int ret = 0x5a5a5a5a;
    int r = kfiber_thread_call(body, c, c->argc, noret ? nullptr : &ret); c->back = true; count_op(); hash_event(0x1801, c->id);
    SIM_CHECK(my_loop() == loop, "call:loop", "the fiber of a call goes on on loop %d, it belongs to %d", my_loop(), loop);
    if (r == 0) { SIM_CHECK(c->runs == 1 && c->ended, "call:early", "call %d is reported as done; it started %d times and ended %d times", c->id, c->runs, c->ended); SIM_CHECK(noret || ret == c->want, "call:result", "call %d returned %d and its fiber got %d", c->id, c->want, ret); }
    else { c->failed = true; SIM_CHECK(cfg.p_thread_fail, "call:refused", "a call was not started although threads can be created"); SIM_CHECK(c->runs == 0, "call:failed-ran", "call %d ran although it was reported as not started", c->id); }
}
void caller(int loop, int n) { for (int i = 0; i < n; i++) { do_call(loop); u32 m = W(4); if (m == 1) kfiber_msleep(W(20)); else if (m == 2) { int ret = 0; kfiber *f; u32 v = W(1000); f = fiber(L(W(3)), [v] { kfiber_msleep(v % 3); return (int)v; }, true, 131072); kfiber_join(f, &ret); SIM_CHECK(ret == (int)v, "call:join", "a join after a call reports %d, not %u", ret, v); } } live--; }
void pool_done(const Baseline &b) {
    int w, f; wait_for([&] { kthread_get_count(&w, &f); return w == (int)g_loops.size(); }, 5000, "call:threads", "the threads of the calls go back to the pool"); cfg.p_thread_fail = 0;
    wait_for([] { return posted_ran == posted; }, 3000, "call:posts", "posted callbacks run"); for (auto c : calls) SIM_CHECK(c->back && c->runs == !c->failed, "call:count", "call %d ran %d times", c->id, c->runs);
    kthread_close_all_free(); settle(30); wait_for([&] { return kfiber_get_count() == b.fibers; }, 3000, "call:fiber-left", "fibers end"); loops_respond(); check_clean(b, CL_FD | CL_HEAP | CL_FIBER | CL_COUNT, "call");
}
// ------------------------------------------------------------------ files of another loop
struct SF { kfiber_file *f; std::string path, data; i64 pos = 0; int loop; bool busy = false; u32 seed; };
std::vector<SF *> files;
i64 oplen() { return oneof<i64>(S_WORK, {100, 1, 511, 512, 4096, 4097, 10000, 30000}); }
void file_op(SF *s, int me) {
    while (s->busy) kfiber_msleep(1); s->busy = true; int fd = kasync_file_get_handle(s->f); AioRec a = aio_rec(fd); u32 op = W(4); count_op();
    if (op == 0) { i64 p = W(4) ? W(s->data.size() + 100) : 0; SIM_CHECK(kfiber_file_seek(s->f, seekBegin, p) == 0, "safe:seek", "a seek fails"); s->pos = p; }
    else if (op < 3) {
        i64 len = oplen(); char *b = (char *)aio_alloc_buffer(len); memset(b, 0xA5, len); i64 size = s->data.size(); int got = kfiber_file_safe_read(s->f, b, len); AioRec z = aio_rec(fd);
        SIM_CHECK(z.completes == z.submits && z.submits - a.submits <= 1, "safe:early", "a read returned with %d transfers submitted and %d completed", z.submits - a.submits, z.completes - a.completes);
        if (z.submits == a.submits || z.last < 0) SIM_CHECK(got < 0, "safe:stale", "a read that failed reports %d", got); else { SIM_CHECK(got == z.last, "safe:count", "a read of %lld bytes at %lld of a file of %lld transferred %lld and reports %d", (long long)len, (long long)s->pos, (long long)size, (long long)z.last, got); if (s->pos < size) SIM_CHECK(got > 0, "safe:false-eof", "a read at %lld of a file of %lld bytes reports end of file", (long long)s->pos, (long long)size); }
        if (got > 0) { SIM_CHECK(s->pos + got <= size && !memcmp(b, s->data.data() + s->pos, got), "safe:content", "a read returns other bytes than the file holds"); s->pos += got; } aio_free_buffer(b);
    } else {
        i64 len = oplen(); char *b = (char *)aio_alloc_buffer(len); patfill(++s->seed, s->pos, b, len); int rest = len; bool ok = kfiber_file_safe_write_full(s->f, b, &rest); AioRec z = aio_rec(fd); i64 n = len - rest;
        SIM_CHECK(z.completes == z.submits, "safe:early", "a write returned with a transfer in flight"); SIM_CHECK(rest >= 0 && ok == (rest == 0), "safe:count", "a full write returns %d with %d bytes to go", ok, rest); if (!ok) SIM_CHECK(z.last <= 0 || cfg.p_aio_fail, "safe:false-error", "a full write gives up although the last transfer moved %lld bytes", (long long)z.last);
        if (n > 0) { if ((i64)s->data.size() < s->pos + n) s->data.resize(s->pos + n); memcpy(&s->data[s->pos], b, n); s->pos += n; } aio_free_buffer(b);
    }
    SIM_CHECK(my_loop() == me, "safe:loop", "a file operation returns on loop %d to a fiber of loop %d", my_loop(), me); if (me != s->loop) probe("other_loop"); i64 t = kfiber_file_tell(s->f); SIM_CHECK(t == s->pos, "safe:position", "the position is %lld, not %lld", (long long)t, (long long)s->pos);
    std::string d; fs_get(s->path.c_str(), d); SIM_CHECK(d == s->data, "safe:content", "the file holds %zu bytes, other than the %zu that were written", d.size(), s->data.size()); s->busy = false;
}
}
SCENARIO(C18, calls, 4) {
    start_loops(1 + W(3)); Baseline b; swarm(FA_STALL | FA_SPUR | FA_EINTR | FA_LATE); cfg.p_thread_fail = W(3) == 0 ? lvl({100, 500, 1000}) : 0; int n = 1 + W(8);
    for (int i = 0; i < n; i++) { int l = W(3) % g_loops.size(), k = 1 + W(6); live++; fib(L(l), [=] { caller(l, k); }, 131072); }
    bool flush = W(3) == 0; bool stop = false, fl_done = !flush; if (flush) spawn("flusher", [&] { while (!stop) { sleep_ms(P(40)); kthread_flush(P(3)); } fl_done = true; });
    while (live) { { Stamp s; loops_respond(); SIM_CHECK(s.eff_ms() < 400, "call:loop-blocked", "a loop answered after %lld ms while calls were running", (long long)s.eff_ms()); } sleep_ms(5); SIM_CHECK(now_ms() < 300000, "call:stalled", "calls do not return"); }
    stop = true; wait_for([&] { return fl_done; }, 1000, "call:stalled", "flusher"); if (W(4) == 0) { sleep_ms(61500); kthread_flush(0); }
    pool_done(b);
}
SCENARIO(C18, held, 2) {       // every call is held up at the same time: each has its own thread and the loops stay free
    start_loops(1 + W(3)); Baseline b; swarm(FA_STALL | FA_SPUR | FA_LATE); gate = false; int n = 1 + W(20);
    for (int i = 0; i < n; i++) { int l = W(3) % g_loops.size(); live++; fib(L(l), [=] { do_call(l); live--; }, 131072); }
    wait_for([&] { int r = 0; for (auto c : calls) r += c->runs; return r == n; }, 4000, "call:stalled", "all calls run at the same time"); loops_respond(); { int t = 0, d = 0; fib(L(W(3)), [&] { for (int i = 0; i < 5; i++) { kfiber_msleep(20); t++; } d = 1; }, 131072); wait_for([&] { return d; }, 2500, "call:loop-blocked", "a sleeping fiber goes on while calls are running"); }
    { for (auto c : calls) SIM_CHECK(!c->back, "call:early", "a fiber went on before its call ended"); } gate = true; wait_for([] { return live == 0; }, 20000, "call:stalled", "calls return"); pool_done(b);
}
SCENARIO(C18, files, 4) {
    start_loops(1 + W(4)); Baseline b; swarm(FA_STALL | FA_LATE | FA_DISK | FA_EINTR); cfg.p_aio_sync = lvl({100, 512, 1024}); { u32 m = W(16); if (m & 1) cfg.p_aio_fail = lvl({20, 100, 400}); if (m & 2) cfg.p_aio_err = lvl({20, 100, 400}); if (m & 4) cfg.p_aio_short = lvl({60, 300, 900}); }
    int n = 1 + W(5), opened = 0; for (int i = 0; i < n; i++) { SF *s = new SF; s->path = "/s" + std::to_string(i); s->seed = i * 100; s->data.resize(oneof<int>(S_WORK, {1000, 0, 4096, 20000})); if (s->data.size()) patfill(s->seed, 0, &s->data[0], s->data.size()); fs_put(s->path.c_str(), s->data); s->loop = W(4) % g_loops.size(); files.push_back(s);
        fib(L(s->loop), [s, &opened] { s->f = kfiber_file_open(s->path.c_str(), fileReadWrite, 0); SIM_CHECK(s->f, "safe:open", "%s cannot be opened", s->path.c_str()); opened++; }, 131072); }
    wait_for([&] { return opened == n; }, 3000, "safe:open", "files are opened"); int k = 1 + W(8);
    for (int i = 0; i < k; i++) { int l = W(4) % g_loops.size(), ops = 1 + W(8); live++; fib(L(l), [=] { for (int j = 0; j < ops; j++) { file_op(files[W(n)], l); if (W(3) == 0) kfiber_msleep(W(5)); } live--; }, 131072); }
    wait_for([] { return live == 0; }, 60000, "safe:stalled", "file operations return"); int closed = 0; for (auto s : files) fib(L(s->loop), [s, &closed] { kfiber_file_close(s->f); closed++; }, 131072); wait_for([&] { return closed == n; }, 3000, "safe:close", "files are closed");
    wait_for([&] { return kfiber_get_count() == b.fibers; }, 3000, "safe:fiber-left", "fibers end"); loops_respond(); check_clean(b, CL_FD | CL_HEAP | CL_FIBER | CL_COUNT, "safe");
}
