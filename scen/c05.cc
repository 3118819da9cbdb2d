// C05: fiber mutex.
#include "common.h"
namespace {
// --- exact model on one loop: everything happens in a known order, so every reported number is checked exactly
struct Model { kfiber_mutex *m; int limit, holders = 0, waiters = 0, cap = 0; } M;      // cap: what is left of an earlier, higher limit
int users, granted_total; bool relimit;
void numbers(const char *when) {
    int c = kfiber_mutex_get_count(M.m), w = kfiber_mutex_get_worker(M.m), l = kfiber_mutex_get_limit(M.m);
    SIM_CHECK(w == M.holders, "mutex:worker", "%s: %d holders are reported, there are %d", when, w, M.holders);
    SIM_CHECK(c == M.holders + M.waiters, "mutex:count", "%s: %d holders and waiters are reported, there are %d+%d", when, c, M.holders, M.waiters);
    SIM_CHECK(l == M.limit, "mutex:limit", "%s: limit %d is reported, it is %d", when, l, M.limit);
}
void hold_and_release() {
    SIM_CHECK(M.holders <= std::max(M.limit, M.cap), "mutex:over-limit", "%d hold a mutex of limit %d", M.holders, M.limit);
    granted_total++; count_op(); hash_event(0x505, M.holders);
}
void unlock_model() {
    // the unlock hands the mutex to a waiter, if any, inside the call
    if (M.waiters == 0 || M.holders > M.limit) M.holders--; else { M.waiters--; }
    M.cap = M.holders;
    SIM_CHECK(kfiber_mutex_unlock(M.m) == 0, "mutex:unlock", "unlock failed");
}
void set_limit_model(int limit) {
    M.limit = limit; M.cap = M.holders; while (M.waiters && M.holders < limit) { M.waiters--; M.holders++; }      // waiters there is room for are admitted
    kfiber_mutex_set_limit(M.m, limit);
}
int exact_user() {
    int n = 2 + P(6);
    for (int i = 0; i < n; i++) {
        if (P(3)) kfiber_msleep(P(15));
        bool tr = P(2); int max = tr ? (int)P(7) : 0;     // try_lock(0) is unbounded
        int c = M.holders + M.waiters;
        bool must_fail = tr && max > 0 && c >= max, must_wait = !must_fail && M.holders >= M.limit;
        if (must_wait) M.waiters++; else if (!must_fail) M.holders++;
        int before = granted_total;
        int r = tr ? kfiber_mutex_try_lock(M.m, max) : kfiber_mutex_lock(M.m);
        if (must_fail) { SIM_CHECK(r == -1, "mutex:try-bound", "try_lock(%d) succeeded although %d held or waited", max, c); numbers("after a refused try_lock"); continue; }
        SIM_CHECK(r == 0, "mutex:try-refused", "lock (bound %d) failed with %d although only %d held or waited", max, r, c);
        SIM_CHECK(must_wait || true, "mutex:x", "x");
        hold_and_release(); numbers("while holding");
        if (P(3)) kfiber_msleep(P(12));
        if (relimit && P(4) == 0) { set_limit_model(1 + P(5)); numbers("after set_limit in use"); if (P(2)) kfiber_msleep(P(12)); }
        numbers("before unlock"); unlock_model(); 
    }
    users--; return 0;
}
kev_result exact_cb(KOPAQUE data, void *arg, int got) {
    SIM_CHECK((void *)data == &M && got == 0, "mutex:cb-args", "a lock callback got other arguments");
    SIM_CHECK(kfiber_is_main(), "mutex:cb-fiber", "a lock callback does not run on the main fiber");
    int *tag = (int *)arg; SIM_CHECK(++*tag == 1, "mutex:cb-twice", "a lock callback ran twice");
    hold_and_release(); numbers("in a lock callback");
    if (P(2)) { unlock_model(); users--; }
    else fiber(nullptr, [] { kfiber_msleep(P(10)); unlock_model(); users--; return 0; });
    return kev_ok;
}
// --- many loops
struct Stress { kfiber_mutex *m; int limit; int holding = 0; int max_seen = 0; } X;
void enter() { X.holding++; if (X.holding > X.max_seen) X.max_seen = X.holding; SIM_CHECK(X.holding <= X.limit, "mutex:over-limit", "%d hold a mutex of limit %d", X.holding, X.limit); SIM_CHECK(kfiber_mutex_get_worker(X.m) <= X.limit, "mutex:worker", "more holders than the limit are reported"); count_op(); hash_event(0x506, X.holding); }
void leave() { X.holding--; SIM_CHECK(kfiber_mutex_unlock(X.m) == 0, "mutex:unlock", "unlock failed"); }
int ops_left;
int stress_user() {
    kselector *s = kgl_get_tls_selector(); int n = 1 + P(8);
    for (int i = 0; i < n; i++) {
        if (P(3) == 0) kfiber_msleep(P(8));
        int r; if (P(4) == 0) { int mx = 1 + P(6); r = kfiber_mutex_try_lock(X.m, mx); SIM_CHECK(r == 0 || r == -1, "mutex:try", "try_lock returned %d", r); if (r) { probe("try_refused"); continue; } } else { r = kfiber_mutex_lock(X.m); SIM_CHECK(r == 0, "mutex:lock", "lock returned %d", r); }
        SIM_CHECK(s == kgl_get_tls_selector(), "mutex:moved", "a fiber resumed on another loop");
        enter(); if (P(2)) kfiber_msleep(P(6)); else if (P(2)) sim::yield(); leave();
    }
    users--; return 0;
}
struct Cb { kselector *s; int ran = 0; };
kev_result stress_cb(KOPAQUE data, void *arg, int got) {
    Cb *c = (Cb *)arg; SIM_CHECK(++c->ran == 1, "mutex:cb-twice", "a lock callback ran twice");
    SIM_CHECK(kgl_get_tls_selector() == c->s && (void *)data == c && got == 0, "mutex:cb-loop", "a lock callback ran on another loop or with other arguments");
    enter(); if (P(2)) { leave(); users--; } else fiber(nullptr, [] { kfiber_msleep(P(6)); leave(); users--; return 0; });
    return kev_ok;
}
}
SCENARIO(C05, exact, 3) {
    start_loops(1); Baseline b; swarm(FA_EINTR | FA_STALL);
    bool ok = post_wait(L(0), [] { M.limit = 1 + P(4); relimit = P(3) == 0; M.m = M.limit == 1 && P(2) ? kfiber_mutex_init() : kfiber_mutex_init2(M.limit); }); SIM_CHECK(ok, "mutex:init", "loop does not run");
    int rounds = 1 + W(2);
    for (int r = 0; r < rounds; r++) {
        int k = 2 + W(8), cbs = W(4); users = k + cbs;
        for (int i = 0; i < k; i++) fiber(L(0), exact_user);
        for (int i = 0; i < cbs; i++) { if (W(2)) sleep_ms(W(20)); post(L(0), [] { int *t = new int(0); if (M.holders >= M.limit) M.waiters++; else M.holders++; kfiber_mutex_lock2(M.m, (KOPAQUE)&M, exact_cb, t); numbers("after lock2"); }); }
        wait_for([&] { return users == 0; }, 20000, "mutex:lost", "every locker is granted the mutex");
        if (r + 1 < rounds) post_wait(L(0), [] { M.limit = 1 + P(4); kfiber_mutex_set_limit(M.m, M.limit); numbers("after set_limit"); });
    }
    post_wait(L(0), [] { numbers("at the end"); SIM_CHECK(M.holders == 0, "mutex:model", "model"); kfiber_mutex_destroy(M.m); });
    settle(120); check_clean(b, CL_FIBER | CL_HEAP | CL_COUNT, "mutex");
}
SCENARIO(C05, loops, 4) {
    int n = 1 << W(3); start_loops(n); Baseline b; swarm(FA_EINTR | FA_STALL);
    X.limit = 1 + W(4); X.m = kfiber_mutex_init2(X.limit);
    int k = 2 + W(16), cbs = W(6); users = k + cbs;
    for (int i = 0; i < k; i++) fiber(L(P(n)), stress_user);
    for (int i = 0; i < cbs; i++) { kselector *s = L(P(n)); post(s, [=] { Cb *c = new Cb{s, 0}; kfiber_mutex_lock2(X.m, (KOPAQUE)c, stress_cb, c); }); if (W(2)) sleep_ms(W(10)); }
    wait_for([&] { return users == 0; }, 20000, "mutex:lost", "every locker is granted the mutex");
    SIM_CHECK(kfiber_mutex_get_worker(X.m) == 0 && kfiber_mutex_get_count(X.m) == 0, "mutex:residue", "an idle mutex reports %d holders and a count of %d", kfiber_mutex_get_worker(X.m), kfiber_mutex_get_count(X.m));
    // the full limit must be available again
    int grants = 0, fin = 0;
    for (int i = 0; i < X.limit; i++) fiber(L(P(n)), [&] { SIM_CHECK(kfiber_mutex_try_lock(X.m, X.limit) == 0, "mutex:capacity", "an idle mutex of limit %d refuses a lock", X.limit); enter(); grants++; while (grants < X.limit) kfiber_msleep(5); leave(); fin++; return 0; });
    wait_for([&] { return fin == X.limit; }, 5000, "mutex:capacity", "as many holders as the limit at the same time");
    kfiber_mutex_destroy(X.m);
    settle(120); loops_respond(); check_clean(b, CL_FIBER | CL_HEAP | CL_COUNT, "mutex");
}
// The limit is changed while the mutex is held and waited for: raising it admits waiting lockers at once, lowering it admits
// nobody until the holders have become fewer than it.
namespace { struct Park { int granted = 0, left = 0, may_leave = 0, gone = 0; } K; }
SCENARIO(C05, limit, 2) {
    int n = 1 << W(3); start_loops(n); Baseline b; swarm(FA_EINTR | FA_STALL);
    int limit = 1 + W(4), k = 2 + W(10), asked = 0; kfiber_mutex *m = kfiber_mutex_init2(limit); K = Park();
    for (int i = 0; i < k; i++) {
        kselector *s = L(P(n));
        if (P(4)) fiber(s, [=, &asked] { asked++; int r = kfiber_mutex_lock(m); SIM_CHECK(r == 0, "mutex:lock", "lock returned %d", r); K.granted++; while (K.left >= K.may_leave) kfiber_msleep(2); K.left++; kfiber_mutex_unlock(m); K.gone++; return 0; });
        else { auto *own = new std::function<void()>([=] { fiber(nullptr, [=] { K.granted++; while (K.left >= K.may_leave) kfiber_msleep(2); K.left++; kfiber_mutex_unlock(m); K.gone++; return 0; }); });
            post(s, [=, &asked] { asked++; kfiber_mutex_lock2(m, (KOPAQUE)own, [](KOPAQUE d, void *, int) -> kev_result { auto *f = (std::function<void()> *)d; (*f)(); delete f; return kev_ok; }, nullptr); }); }
    }
    wait_for([&] { return asked == k && kfiber_mutex_get_count(m) == k; }, 5000, "mutex:lost", "every locker is counted");
    int want = std::min(k, limit);
    auto hold = [&](const char *what) {
        wait_for([&] { return K.granted >= want; }, 3000, "mutex:limit-raise", what); sleep_ms(20);
        SIM_CHECK(K.granted == want, "mutex:over-limit", "%s: %d were granted the mutex, %d had left, the limit is %d: at most %d can have been", what, K.granted, K.left, limit, want);
        int w = kfiber_mutex_get_worker(m), c = kfiber_mutex_get_count(m);
        SIM_CHECK(w == want - K.left && c == k - K.left, "mutex:worker", "%s: %d holders of %d present are reported, there are %d of %d", what, w, c, want - K.left, k - K.left);
    };
    hold("the first holders");
    while (K.left < k) {
        if (P(2)) { limit = 1 + P(8); if (P(2)) kfiber_mutex_set_limit(m, limit); else { int l = limit; SIM_CHECK(post_wait(L(P(n)), [=] { kfiber_mutex_set_limit(m, l); }), "mutex:lost", "a loop does not respond"); }
            want = std::max(want, std::min(k, K.left + limit)); hold("after the limit was set"); }
        if (K.left < want) { int d = 1 + P(std::min(3, want - K.left)); K.may_leave += d; wait_for([&] { return K.gone == K.may_leave; }, 3000, "mutex:unlock", "holders unlock"); want = std::max(want, std::min(k, K.left + limit)); hold("after an unlock"); }
    }
    wait_for([&] { return K.gone == k; }, 3000, "mutex:unlock", "all unlock");
    SIM_CHECK(kfiber_mutex_get_worker(m) == 0 && kfiber_mutex_get_count(m) == 0, "mutex:residue", "an idle mutex reports %d holders and a count of %d", kfiber_mutex_get_worker(m), kfiber_mutex_get_count(m));
    kfiber_mutex_destroy(m); settle(120); loops_respond(); check_clean(b, CL_FIBER | CL_HEAP | CL_COUNT, "mutex");
}
