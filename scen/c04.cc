// C04: fiber creation, exit and joining.
#include "common.h"
namespace {
enum Kind { PLAIN, ON_LOOP, NEWSTART, DETACHED, SYNC };
struct F { int id; Kind kind; int entries = 0; bool ended = false; int ret, len; kselector *want; int depth; bool has_cond; bool ts; kfiber *self = nullptr; int stk = 0; };
int nfib, requests, live, budget; bool sync_cb;
int body(void *arg, int len);
void expect(F *f, const char *how, bool have, int got) {
    SIM_CHECK(f->ended, "fiber:early-join", "%s of fiber %d completed before the fiber ended", how, f->id);
    SIM_CHECK(!have || got == f->ret, "fiber:retval", "%s of fiber %d reported %d, the fiber returned %d", how, f->id, got, f->ret);
    count_op(); hash_event(0x404, f->id);
}
F *mk(Kind k, kselector *want, int depth) { F *f = new F; f->id = nfib++; f->kind = k; f->want = want; f->depth = depth; f->ret = (int)P(200000) - 100000; f->len = (int)P(2000) - 1000; f->has_cond = k != DETACHED; f->ts = k == ON_LOOP; live++; count_op(); return f; }
int stk(F *f) { return f->stk = oneof(S_PEER, {0, 65536, 4096 * 20 + 100, 131072, 300000}); }
struct Cb { F *f; int ran = 0; kselector *sel; int tag; const char *how; };
kev_result on_end(KOPAQUE data, void *arg, int got) {
    Cb *c = (Cb *)arg;
    SIM_CHECK((int *)data == &c->tag, "fiber:cb-data", "%s of fiber %d got other data than given", c->how, c->f->id);
    SIM_CHECK(++c->ran == 1, "fiber:cb-twice", "%s of fiber %d ran twice", c->how, c->f->id);
    SIM_CHECK(kgl_get_tls_selector() == c->sel, "fiber:cb-loop", "%s of fiber %d ran on another loop than it was asked on", c->how, c->f->id);
    expect(c->f, c->how, true, got); requests--;
    return kev_ok;
}
// wait for the end of f (this fiber's own reference is consumed)
void join_here(F *f, kfiber *k) {
    requests++; kselector *s = kgl_get_tls_selector();
    int got = f->ret + 1; int *rp = P(6) ? &got : nullptr;
    if (P(3) == 1) {
        int r, n = 0;
        while ((r = kfiber_try_join(k, rp)) != 0) { SIM_CHECK(r == -1, "fiber:try-join", "kfiber_try_join returned %d", r); kfiber_msleep(1 + P(20)); SIM_CHECK(++n < 3000, "fiber:join-lost", "try join of fiber %d never succeeds", f->id); }
        expect(f, "try join", rp, got);
    } else {
        int r = kfiber_join(k, rp);
        SIM_CHECK(r == 0, "fiber:join", "kfiber_join returned %d", r);
        expect(f, "join", rp, got);
    }
    SIM_CHECK(s == kgl_get_tls_selector(), "fiber:join-loop", "a joining fiber resumed on another loop");
    requests--;
}
void join_cb_here(F *f, kfiber *k) { Cb *c = new Cb{f, 0, kgl_get_tls_selector(), 0, "join callback"}; requests++; kfiber_join2(k, (KOPAQUE)&c->tag, on_end, c); }
// dispose of the reference k in some way legal for this kind of fiber
void dispose(F *f, kfiber *k, bool in_fiber) {
    kselector *here = kgl_get_tls_selector(); kselector *s = f->ts ? L(P(g_loops.size())) : here;
    requests++;
    auto done = [=] { requests--; };
    switch (P(4)) {
    case 0: if (in_fiber) { join_here(f, k); done(); break; } /* fallthrough */
    case 1: fiber(s == here && in_fiber && P(2) ? nullptr : s, [=] { if (P(2)) kfiber_msleep(P(60)); join_here(f, k); done(); return 0; }); break;
    case 2: post(s, [=] { join_cb_here(f, k); done(); }); break;
    case 3: if (in_fiber) { kfiber_msleep(P(80)); join_here(f, k); done(); } else post(s, [=] { join_cb_here(f, k); done(); }); break;
    }
}
void start_one(int depth) {       // from a fiber
    if (budget-- <= 0) return;
    kfiber *k = nullptr; int r = 0; F *f;
    switch (P(4)) {
    case 0: f = mk(PLAIN, kgl_get_tls_selector(), depth); r = kfiber_create(body, f, f->len, stk(f), &k); break;
    case 1: f = mk(ON_LOOP, L(P(g_loops.size())), depth); r = kfiber_create2(f->want, body, f, f->len, stk(f), &k); break;
    case 2: f = mk(DETACHED, L(P(g_loops.size())), depth); r = kfiber_create2(f->want == kgl_get_tls_selector() && P(2) ? nullptr : f->want, body, f, f->len, stk(f), nullptr); break;
    default: f = mk(NEWSTART, kgl_get_tls_selector(), depth); k = kfiber_new(body, f, stk(f)); SIM_CHECK(k, "fiber:new", "kfiber_new failed"); r = kfiber_start(k, f->len); break;
    }
    SIM_CHECK(r == 0, "fiber:create", "creating a fiber failed with %d", r);
    if (k) dispose(f, k, true);
}
int body(void *arg, int len) {
    F *f = (F *)arg; kselector *s = kgl_get_tls_selector();
    SIM_CHECK(++f->entries == 1, "fiber:entry-twice", "the entry function of fiber %d ran twice", f->id);
    SIM_CHECK(s && (!f->want || s == f->want) && kselector_is_same_thread(s), "fiber:wrong-loop", "fiber %d runs on loop %d, it was assigned to loop %d", f->id, my_loop(), loop_index(f->want));
    SIM_CHECK(len == f->len, "fiber:args", "fiber %d got length %d, %d was given", f->id, len, f->len);
    SIM_CHECK(!kfiber_is_main(), "fiber:main", "a fiber's entry runs on the main fiber");
    char here; if (f->stk) { i64 below = heap_below(&here); SIM_CHECK(below >= f->stk - 2 * 4096, "fiber:stack", "fiber %d was created with a stack of %d bytes, %lld are left when it starts", f->id, f->stk, (long long)below); }
    char guard[600]; patfill(f->id, 0, guard, sizeof guard);
    kfiber *me = kfiber_self2();
    int n = P(4);
    for (int i = 0; i < n; i++) {
        switch (P(6)) {
        case 0: { Stamp st; int d = P(30); SIM_CHECK(kfiber_msleep(d) == 0, "fiber:sleep", "sleep failed"); break; }
        case 1: break;
        case 2: case 3: if (f->depth > 0) start_one(f->depth - 1); break;
        case 4: if (f->kind != SYNC || sync_cb) { Cb *c = new Cb{f, 0, s, 0, "exit callback"}; requests++; f->has_cond = true; int m = kfiber_exit_callback((KOPAQUE)&c->tag, on_end, c); SIM_CHECK(m >= 0, "fiber:exit-callback", "kfiber_exit_callback returned %d", m); } break;
        case 5: if (f->kind != SYNC) {
            bool ts = P(2); if (!f->has_cond) { f->ts = ts; f->has_cond = true; } else ts = f->ts;
            kfiber *k = kfiber_ref_self(ts); SIM_CHECK(k == me, "fiber:ref-self", "kfiber_ref_self returned another fiber");
            requests++; kselector *t = f->ts ? L(P(g_loops.size())) : s;
            if (P(2)) fiber(t, [=] { join_here(f, k); requests--; return 0; }); else post(t, [=] { join_cb_here(f, k); requests--; });
            break; }
        }
        SIM_CHECK(kfiber_self2() == me && kgl_get_tls_selector() == s, "fiber:moved", "fiber %d continues as another fiber or on another loop", f->id);
    }
    SIM_CHECK(patcheck(f->id, 0, guard, sizeof guard) < 0, "fiber:stack", "the stack of fiber %d was overwritten", f->id);
    f->ended = true; live--;
    return f->ret;
}
void plain_thread(int m) {
    for (int i = 0; i < m && budget-- > 0; i++) {
        kfiber *k = nullptr; int r; F *f;
        switch (P(3)) {
        case 0: {
            f = mk(SYNC, nullptr, P(3)); bool ret = P(5); r = kfiber_create_sync(body, f, f->len, stk(f), ret ? &k : nullptr);
            SIM_CHECK(r == 0, "fiber:create", "creating a fiber failed with %d", r);
            if (!ret) break;
            if (P(2)) sleep_ms(P(50));
            int got = f->ret + 1; int *rp = P(6) ? &got : nullptr;
            if (P(3) == 0) { int n = 0; while (kfiber_try_join(k, rp) != 0) { sleep_ms(1 + P(10)); SIM_CHECK(++n < 8000, "fiber:join-lost", "try join of fiber %d never succeeds", f->id); } expect(f, "try join from a thread", rp, got); }
            else { r = kfiber_join(k, rp); SIM_CHECK(r == 0, "fiber:join", "kfiber_join returned %d", r); expect(f, "join from a thread", rp, got); }
            break; }
        case 1: f = mk(DETACHED, L(P(g_loops.size())), P(4)); r = kfiber_create2(f->want, body, f, f->len, stk(f), nullptr); SIM_CHECK(r == 0, "fiber:create", "creating a fiber failed with %d", r); break;
        case 2: f = mk(ON_LOOP, L(P(g_loops.size())), P(4)); r = kfiber_create2(f->want, body, f, f->len, stk(f), &k); SIM_CHECK(r == 0, "fiber:create", "creating a fiber failed with %d", r); dispose(f, k, false); break;
        }
        if (P(3) == 0) sleep_ms(P(30));
    }
}
}
SCENARIO(C04, mixed, 1) {
    int n = 1 << W(3); start_loops(n); Baseline b;
    swarm(FA_EINTR | FA_STALL | FA_SPUR); budget = 8 + W(60); sync_cb = true;
    int k = 1 + W(3), fin = 0;
    for (int i = 0; i < k; i++) spawn("creator", [&] { plain_thread(2 + P(10)); fin++; });
    for (int i = W(3); i > 0; i--) { requests++; fiber(L(P(n)), [] { for (int i = 1 + P(6); i > 0; i--) start_one(P(4)); requests--; return 0; }); }
    wait_for([&] { return fin == k; }, 100000, "fiber:join-lost", "threads creating and joining fibers finish");
    wait_for([&] { return live == 0; }, 60000, "fiber:not-run", "every fiber runs to its end");
    wait_for([&] { return requests == 0 && live == 0; }, 20000, "fiber:join-lost", "every join and callback request completes");
    settle(100); loops_respond(); check_clean(b, CL_FIBER | CL_HEAP | CL_FD | CL_COUNT, "fiber");
}
// short fibers are waited for from other loops and threads just while they end
namespace {
struct R { int ret; bool ended = false; int rounds_left; };
int short_body(void *arg, int len) { R *r = (R *)arg; SIM_CHECK(len == r->ret / 2, "fiber:args", "a fiber got length %d, %d was given", len, r->ret / 2); if (P(8) == 0) kfiber_msleep(0); r->ended = true; count_op(); return r->ret; }
void got_end(R *r, bool have, int got, const char *how) { SIM_CHECK(r->ended, "fiber:early-join", "%s completed before the fiber ended", how); SIM_CHECK(!have || got == r->ret, "fiber:retval", "%s reported %d, the fiber returned %d", how, got, r->ret); count_op(); hash_event(0x405, r->ret); }
struct RCb { R *r; int *open; kselector *s; };
kev_result race_end(KOPAQUE data, void *arg, int got) { RCb *c = (RCb *)arg; SIM_CHECK(c->r && kgl_get_tls_selector() == c->s, "fiber:cb-loop", "a join callback ran twice or on another loop"); got_end(c->r, true, got, "a join callback"); c->r = nullptr; --*c->open; return kev_ok; }
}
SCENARIO(C04, race, 1) {
    int n = 1 << W(3); start_loops(n); Baseline b; swarm(FA_EINTR | FA_STALL); int open = 0;
    auto join_it = [&](R *r, kfiber *k) {
        int got = -1; int spins = P(3) == 0 ? (int)P(40) : 0; bool done = false;
        while (spins-- > 0 && !done) { int x = kfiber_try_join(k, &got); SIM_CHECK(x == 0 || x == -1, "fiber:try-join", "kfiber_try_join returned %d", x); done = x == 0; if (!done && P(8) == 0) kfiber_msleep(0); }
        if (!done) { int x = kfiber_join(k, &got); SIM_CHECK(x == 0, "fiber:join", "kfiber_join returned %d", x); }
        got_end(r, true, got, "a join"); --open; };
    int who = 1 + W(3), rounds = 2 + W(14);
    for (int w = 0; w < who; w++) {
        open++; int kind = W(4);
        if (kind == 3) spawn("creator", [=, &open] { for (int i = 0; i < rounds; i++) { R *r = new R{(int)P(2000)}; kfiber *k; int x = kfiber_create_sync(short_body, r, r->ret / 2, 0, &k); SIM_CHECK(x == 0, "fiber:create", "creating a fiber failed with %d", x); int got = -1, spins = P(2) ? 0 : (int)P(60); bool done = false; while (spins-- > 0 && !done) done = kfiber_try_join(k, &got) == 0; if (!done) kfiber_join(k, &got); got_end(r, true, got, "a join from a thread"); } open--; });
        else fiber(L(P(n)), [=, &open] {
            for (int i = 0; i < rounds; i++) {
                R *r = new R{(int)P(2000)}; kfiber *k; kselector *at = L(P(n)); int x = kfiber_create2(at, short_body, r, r->ret / 2, 0, &k); SIM_CHECK(x == 0, "fiber:create", "creating a fiber failed with %d", x); open++;
                switch (kind) {
                case 0: join_it(r, k); break;
                case 1: fiber(L(P(n)), [=] { join_it(r, k); return 0; }); break;
                default: { kselector *s = L(P(n)); post(s, [=, &open] { kfiber_join2(k, nullptr, race_end, new RCb{r, &open, s}); }); }
                }
                if (P(6) == 0) kfiber_msleep(P(3));
            }
            open--; return 0; });
    }
    wait_for([&] { return open == 0; }, 30000, "fiber:join-lost", "every join and callback request completes");
    settle(50); loops_respond(); check_clean(b, CL_FIBER | CL_HEAP | CL_FD | CL_COUNT, "fiber");
}
