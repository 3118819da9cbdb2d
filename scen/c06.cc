// C06: fiber reader-writer lock.
#include "common.h"
namespace {
kfiber_rwlock *rw; int readers, writers, users; bool hold_long;
void check() { SIM_CHECK(writers <= 1 && (!writers || !readers), "rwlock:exclusion", "%d writers and %d readers hold the lock together", writers, readers); count_op(); hash_event(0x606, readers * 16 + writers); }
int user() {
    kselector *s = kgl_get_tls_selector(); int n = 1 + P(7);
    for (int i = 0; i < n; i++) {
        if (P(3) == 0) kfiber_msleep(P(8));
        bool w = P(3) == 0; int r = w ? kfiber_rwlock_wlock(rw) : kfiber_rwlock_rlock(rw);
        SIM_CHECK(r == 0, "rwlock:ret", "%slock returned %d", w ? "w" : "r", r); SIM_CHECK(s == kgl_get_tls_selector(), "rwlock:moved", "a fiber resumed on another loop");
        (w ? writers : readers)++; check();
        u32 d = P(4); if (d == 1) kfiber_msleep(P(6)); else if (d == 2) sim::yield(); else if (d == 3 && hold_long) kfiber_msleep(40);
        check(); (w ? writers : readers)--;
        Stamp st; r = w ? kfiber_rwlock_wunlock(rw) : kfiber_rwlock_runlock(rw);
        SIM_CHECK(r == 0, "rwlock:ret", "%sunlock returned %d", w ? "w" : "r", r);
    }
    users--; return 0;
}
void drive(int n, int k) {
    Baseline b; swarm(FA_EINTR | FA_STALL); rw = kfiber_rwlock_init(); hold_long = W(2);
    users = k; for (int i = 0; i < k; i++) fiber(L(P(n)), user);
    wait_for([&] { return users == 0; }, 30000, "rwlock:lost", "every waiting reader and writer is granted the lock");
    // the lock is free again: readers share
    int in = 0, fin = 0, m = 2 + W(3);
    for (int i = 0; i < m; i++) fiber(L(P(n)), [&] { kfiber_rwlock_rlock(rw); readers++; check(); in++; while (in < m) kfiber_msleep(3); readers--; kfiber_rwlock_runlock(rw); fin++; return 0; });
    wait_for([&] { return fin == m; }, 5000, "rwlock:share", "readers hold the lock together");
    kfiber_rwlock_destroy(rw); settle(120); loops_respond("rwlock:deadlock"); check_clean(b, CL_FIBER | CL_HEAP | CL_COUNT, "rwlock");
}
}
SCENARIO(C06, loops, 3) { int n = 1 << W(3); start_loops(n); drive(n, 2 + W(16)); }
SCENARIO(C06, one_loop, 1) { start_loops(1); drive(1, 2 + W(12)); }
// Readers that overlap without a pause do not keep a waiting writer out, nor do writers that follow one another keep a
// waiting reader out: the stream goes on until the one in need has been granted the lock.
namespace {
struct Need { bool writer, asked = false, granted = false; i64 since = 0; int stream = 0; };
}
SCENARIO(C06, stream, 2) {
    int n = 1 << W(3); start_loops(n); Baseline b; swarm(FA_EINTR); rw = kfiber_rwlock_init(); readers = writers = 0;
    int rounds = 1 + W(3);
    for (int r = 0; r < rounds; r++) {
        Need d; d.writer = W(3) != 0; int k = d.writer ? 2 + W(5) : 2; users = k + 1;
        for (int i = 0; i < k; i++) { u32 wait = i * 30 + P(40); fiber(L(P(n)), [&, wait] {
            kfiber_msleep(wait);
            for (int j = 0; !d.granted; j++) {
                SIM_CHECK(!d.asked || now_ns() - d.since < 20000 * MS + total_stall_ns(), "rwlock:starved", "a %s does not get the lock within 20 s while %s come and go", d.writer ? "writer" : "reader", d.writer ? "readers" : "writers");
                int e = d.writer ? kfiber_rwlock_rlock(rw) : kfiber_rwlock_wlock(rw); SIM_CHECK(e == 0, "rwlock:ret", "lock returned %d", e);
                (d.writer ? readers : writers)++; check(); d.stream++; kfiber_msleep(d.writer ? 100 + P(200) : 10 + P(60)); check(); (d.writer ? readers : writers)--;
                e = d.writer ? kfiber_rwlock_runlock(rw) : kfiber_rwlock_wunlock(rw); SIM_CHECK(e == 0, "rwlock:ret", "unlock returned %d", e);
                if (!d.writer && P(2)) kfiber_msleep(1);
            }
            users--; return 0; }); }
        fiber(L(P(n)), [&] {
            kfiber_msleep(200 + P(400)); d.since = now_ns(); d.asked = true;
            int e = d.writer ? kfiber_rwlock_wlock(rw) : kfiber_rwlock_rlock(rw); SIM_CHECK(e == 0, "rwlock:ret", "lock returned %d", e);
            (d.writer ? writers : readers)++; check(); d.granted = true; if (P(2)) kfiber_msleep(P(30)); check(); (d.writer ? writers : readers)--;
            e = d.writer ? kfiber_rwlock_wunlock(rw) : kfiber_rwlock_runlock(rw); SIM_CHECK(e == 0, "rwlock:ret", "unlock returned %d", e);
            users--; return 0; });
        wait_for([&] { return users == 0; }, 60000, "rwlock:lost", "every waiting reader and writer is granted the lock");
    }
    kfiber_rwlock_destroy(rw); settle(120); loops_respond("rwlock:deadlock"); check_clean(b, CL_FIBER | CL_HEAP | CL_COUNT, "rwlock");
}
