// C27: a fiber waiting for an event of its own resumes once, with the value of the wakeup addressed to it.
#include "common.h"
#include <setjmp.h>
namespace {
struct Fb { int id; kfiber *k = nullptr; kselector *s = nullptr; bool waiting = false, claimed = false, running = false, ended = false; int seq = 0, val = 0; char obj[16]; };
std::vector<Fb *> fs; int live, depth, maxdepth; u64 wakes, resumes;
int rndval() { if (W(2)) return oneof<int>(S_WORK, {0, 1, -1, 0x7fffffff, (int)0x80000000, -2}); return oneof<int>(S_WORK, {0, 1, -1, 0x7fffffff, (int)0x80000000, -2}) ^ (int)P(1 << 20); }
kev_result later(KOPAQUE data, void *arg, int got) { return kfiber_result_callback(data, arg, got); }
// an operation with a callback, as users adapt them to fibers: it may complete at once or be completed by somebody else
kev_result start_op(Fb *f, KOPAQUE data, result_callback cb, void *arg, bool now) {
    if (now) return cb(data, arg, f->val);
    return kev_ok;
}
// chooses and claims in one step: nothing here can be preempted
Fb *pick_waiting(std::function<bool(Fb *)> ok) { std::vector<Fb *> v; for (auto f : fs) if (f->waiting && !f->claimed && ok(f)) v.push_back(f); if (v.empty()) return nullptr; Fb *f = v[P(v.size())]; f->claimed = true; f->val = rndval(); wakes++; return f; }
// on a loop (fiber or callback): the woken fiber runs before this returns
void wake_here(Fb *f) {
    int seq = f->seq; kselector *s = kgl_get_tls_selector(); kfiber *me = kfiber_self2(); depth++; maxdepth = std::max(maxdepth, depth); bool direct = P(2);
    char g[200]; patfill(f->id + 77, seq, g, sizeof g);
    if (direct) kfiber_wakeup(f->k, f->obj, f->val); else kfiber_wakeup_ts(f->k, f->obj, f->val);
    depth--;
    SIM_CHECK(f->seq > seq || f->ended, "wait:not-run", "fiber %d was woken on its own loop and has not run", f->id);
    SIM_CHECK(kfiber_self2() == me && kgl_get_tls_selector() == s, "wait:moved", "after waking fiber %d its waker continues as another fiber", f->id);
    SIM_CHECK(patcheck(f->id + 77, seq, g, sizeof g) < 0, "wait:stack", "the stack of the waker of fiber %d was overwritten", f->id); count_op();
}
__attribute__((noinline)) int run_deep(Fb *f, int n);
int one_wait(Fb *f) {
    u32 how = P(4); f->seq++; f->val = 0; f->claimed = false; SIM_CHECK(!f->waiting, "internal", "waiting"); int got, want;
    double d1 = f->id * 1.25 + f->seq, d2 = 1.0 / (f->seq + 1); volatile long l1 = f->seq * 31L; char g[300]; patfill(f->id, f->seq, g, sizeof g); kselector *s = f->s; f->running = false;
    if (how == 0) { f->val = rndval(); want = f->val; got = kfiber_wait_result(f->k, start_op(f, (KOPAQUE)f->obj, later, f->k, true), f->obj); }
    else if (how == 1) { f->waiting = true; got = kfiber_wait_result(f->k, start_op(f, (KOPAQUE)f->obj, later, f->k, false), f->obj); want = f->val; SIM_CHECK(f->claimed, "wait:invented", "fiber %d resumed although nobody woke it", f->id); }
    else { f->waiting = true; got = kfiber_wait(&f->k->base, f->obj); want = f->val; SIM_CHECK(f->claimed, "wait:invented", "fiber %d resumed although nobody woke it", f->id); }
    SIM_CHECK(f->waiting == (how != 0) && !f->running, "wait:twice", "fiber %d resumed twice from one wait", f->id);
    f->waiting = false; f->running = true; f->seq++; resumes++; count_op(); hash_event(0x2700 + f->id, got);
    SIM_CHECK(got == want, "wait:value", "fiber %d was woken with %d and got %d", f->id, want, got);
    SIM_CHECK(kfiber_self2() == f->k && kgl_get_tls_selector() == s, "wait:moved", "fiber %d resumed as another fiber or on another loop", f->id);
    SIM_CHECK(patcheck(f->id, f->seq - 1, g, sizeof g) < 0 && d1 == f->id * 1.25 + (f->seq - 1) && d2 == 1.0 / f->seq && l1 == (f->seq - 1) * 31L, "wait:stack", "local variables of fiber %d changed while it waited", f->id);
    return got;
}
int run_deep(Fb *f, int n) { char pad[256]; patfill(f->id + 5, n, pad, sizeof pad); int r = n > 0 ? run_deep(f, n - 1) : one_wait(f); SIM_CHECK(patcheck(f->id + 5, n, pad, sizeof pad) < 0, "wait:stack", "the stack of fiber %d was overwritten", f->id); return r; }
int worker(Fb *f, int n) {
    f->k = kfiber_self2(); f->s = kgl_get_tls_selector(); f->running = true;
    for (int i = 0; i < n; i++) {
        if (P(3) == 0) run_deep(f, P(6)); else one_wait(f);
        u32 w = P(5); if (w == 0) { Fb *o = pick_waiting([&](Fb *x) { return x->s == f->s; }); if (o) wake_here(o); } else if (w == 1) { Fb *o = pick_waiting([&](Fb *x) { return x->s != f->s; }); if (o) { kfiber_wakeup_ts(o->k, o->obj, o->val); } } else if (w == 2) kfiber_msleep(P(20));
    }
    f->ended = true; live--; return f->id;
}
}
SCENARIO(C27, exact, 3) {
    swarm(FA_EINTR | FA_STALL | FA_LATE); int n = 1 + W(3); start_loops(n); Baseline b; int k = 1 + W(10); live = k; bool stop = false; int drivers = 0;
    for (int i = 0; i < k; i++) { Fb *f = new Fb; f->id = i; fs.push_back(f); int m = 1 + P(12); fib(L(W(3)), [=] { worker(f, m); }, oneof(S_WORK, {0, 65536, 200000})); }
    int td = 1 + W(3); for (int i = 0; i < td; i++) { drivers++; spawn("waker", [&] { while (!stop) { Fb *o = pick_waiting([](Fb *) { return true; }); if (o) { kfiber_wakeup_ts(o->k, o->obj, o->val); } else sleep_ns(P(2000) * US); } drivers--; }); }
    int ld = W(3); for (int i = 0; i < ld; i++) { drivers++; kselector *s = L(i); spawn("poster", [&, s] { while (!stop) { post_wait(s, [s] { for (int q = P(3); q >= 0; q--) { Fb *o = pick_waiting([s](Fb *x) { return x->s == s; }); if (o) wake_here(o); } }); sleep_ns(P(3000) * US); } drivers--; }); }
    wait_for([&] { return live == 0; }, 30000, "wait:lost", "every woken fiber resumes and ends"); stop = true; wait_for([&] { return drivers == 0; }, 5000, "wait:lost", "wakers end");
    if (maxdepth > 1) probe("nested_wakeups"); wait_for([&] { return kfiber_get_count() == b.fibers; }, 3000, "wait:fiber-left", "fibers end"); settle(20); loops_respond(); check_clean(b, CL_FD | CL_HEAP | CL_FIBER | CL_COUNT, "wait");
}
