// C03: steps of the wall clock, back and forward.
#include "common.h"
#include <sys/time.h>
namespace {
struct T { int id; i64 delay; int ran = 0; Stamp at; const char *how; kselector *sel = nullptr; };
std::deque<T *> all; int outstanding; int steps; bool main_mode;
const double EARLY = 260, LATE = 420;      // two stale clock readings and two loop ticks
void verdict(T *t) {
    SIM_CHECK(++t->ran == 1, "step:twice", "%s %d with delay %lld ms fired twice", t->how, t->id, (long long)t->delay);
    SIM_CHECK(t->at.ms() >= t->delay - EARLY, "step:hastened", "%s %d with delay %lld ms fired after only %.1f ms when the clock was stepped", t->how, t->id, (long long)t->delay, t->at.ms());
    SIM_CHECK(t->at.eff_ms() <= t->delay + LATE, "step:stalled", "%s %d with delay %lld ms fired after %.1f ms when the clock was stepped", t->how, t->id, (long long)t->delay, t->at.ms());
    outstanding--; hash_event(0x303, t->id);
}
kev_result fired(KOPAQUE, void *arg, int) { T *t = (T *)arg; SIM_CHECK(!t->sel || t->sel == kgl_get_tls_selector(), "step:wrong-loop", "timer fired on another loop"); verdict(t); return kev_ok; }
i64 delay() { static const i64 d[] = {500, 300, 800, 1000, 1500, 2500, 4000, 700}; return d[P(8)] + P(100); }
T *mk(const char *how, i64 d) { T *t = new T; t->id = all.size(); t->delay = d; t->how = how; all.push_back(t); outstanding++; count_op(); return t; }
void add_direct() { T *t = mk("timer", delay()); t->sel = kgl_get_tls_selector(); kselector_add_timer(t->sel, fired, t, t->delay, nullptr); }
void add_ts(kselector *s) { T *t = mk("cross-thread timer", delay()); t->sel = s; kselector_add_timer_ts(s, fired, t, t->delay, nullptr); }
int sleeper() { int n = 1 + P(3); for (int i = 0; i < n; i++) { T *t = mk("fiber sleep", delay()); kfiber_msleep(t->delay); verdict(t); } return 0; }
int lport;
// an idle connection: the read timeout (2 s) must end it, neither early nor late by the step
int idle_read() {
    sockaddr_i a = addr4("10.0.0.2", lport); kconnection *c = kconnection_new(&a);
    int r = kfiber_net_connect(c, NULL, 0); SIM_CHECK(r == 0, "step:connect", "connect failed without a reason");
    T *t = mk("read timeout", 2000); char b[16]; r = kfiber_net_read(c, b, 16);
    SIM_CHECK(r <= 0, "step:read-data", "a silent peer's connection delivered %d bytes", r);
    verdict(t); kfiber_net_close(c); return 0;
}
int dead_connect() {
    sockaddr_i a = addr4("10.0.0.9", 80); kconnection *c = kconnection_new(&a);
    T *t = mk("connect timeout", 2000); kfiber_net_connect(c, NULL, 0); verdict(t); kfiber_net_close(c); return 0;
}
void stepper(i64 total_ms) {
    int n = 1 + W(3); steps = n;
    for (int i = 0; i < n; i++) {
        sleep_ms(150 + P(total_ms)); static const i64 s[] = {1000, 1500, 2000, 5000, 60000, 3600000, 86400000}; i64 d = s[P(7)] + P(900);
        sleep_ns(P(1000) * MS / 7);
        bool fwd = W(4) == 0; fault(fwd ? "wall_clock_step_forward" : "wall_clock_step_back"); log("wall clock steps %s %lld ms", fwd ? "forward" : "back", (long long)d); step_wall(fwd ? d * MS : -d * MS);
    }
}
// the library's cached clock is the wall clock again shortly after a step
void clock_follows() { sleep_ms(300); post_wait(L(0), [] { timeval tv; gettimeofday(&tv, nullptr); i64 d = kgl_current_msec - ((i64)tv.tv_sec * 1000 + tv.tv_usec / 1000); SIM_CHECK(d <= 5 && d >= -250, "step:cached-clock", "the cached clock is %lld ms away from the wall clock", (long long)d); SIM_CHECK(llabs((i64)kgl_current_sec - (i64)tv.tv_sec) <= 1, "step:cached-clock", "the cached second is wrong by %lld", (long long)(kgl_current_sec - tv.tv_sec)); }); }
void peer() { int l = peer_listen("10.0.0.2", 0, 64, &lport); std::vector<int> *fds = new std::vector<int>; while (true) { struct sockaddr_storage ss; socklen_t n = sizeof ss; int c = accept(l, (sockaddr *)&ss, &n); if (c < 0) break; register_owned_fd(c); fds->push_back(c); } }
}
SCENARIO(C03, loops, 3) {
    int n = 1 << W(3); start_loops(n, 2, 2); net_host("10.0.0.9", HOST_BLACKHOLE);
    spawn("peer", peer); while (!lport) sleep_ms(1);
    swarm(FA_EINTR);
    for (int i = W(3); i > 0; i--) fiber(L(P(n)), sleeper);
    for (int i = W(3); i > 0; i--) fiber(L(P(n)), idle_read, false, 131072);
    for (int i = W(2); i > 0; i--) fiber(L(P(n)), dead_connect, false, 131072);
    int k = 2 + W(4), done = 0;
    for (int i = 0; i < k; i++) post(L(P(n)), [&] { int m = 1 + P(6); for (int j = 0; j < m; j++) add_direct(); done++; });
    int ka = W(3), adone = 0;
    for (int i = 0; i < ka; i++) spawn("adder", [&] { int m = 1 + P(8); for (int j = 0; j < m; j++) { add_ts(L(P(g_loops.size()))); sleep_ms(P(400)); } adone++; });
    int kb = W(3), bdone = 0;       // timers added from loop callbacks around the time of the step
    for (int i = 0; i < kb; i++) spawn("poster", [&] { int m = 1 + P(8); for (int j = 0; j < m; j++) { post(L(P(g_loops.size())), [] { add_direct(); }); sleep_ms(P(400)); } bdone++; });
    stepper(700);
    wait_for([&] { return done == k && adone == ka && bdone == kb; }, 60000, "step:adder-stuck", "threads adding timers finish");
    wait_for([&] { return outstanding == 0; }, 14000, "step:lost", "every timer and timeout fires after the clock was stepped");
    settle(200); loops_respond(); clock_follows();
}
static int main3(void *, int) {
    kselector *s = kgl_get_tls_selector(); g_loops.push_back(s);
    for (int i = W(3); i > 0; i--) fiber(nullptr, sleeper);
    int m = 1 + W(6); for (int i = 0; i < m; i++) add_direct();
    int more = W(6); for (int i = 0; i < more; i++) { kfiber_msleep(50); T *t = mk("timer", delay()); kselector_add_timer(s, fired, t, t->delay, nullptr); }
    Stamp st; while (outstanding && st.ms() < 30000) { T *t = mk("fiber sleep", 200); int o = outstanding; kfiber_msleep(200); verdict(t); }
    SIM_CHECK(outstanding == 0, "step:lost", "%d timers never fired after the clock was stepped", outstanding);
    return 3;
}
SCENARIO(C03, single_main, 2) {
    kasync_init(); swarm(FA_EINTR);
    spawn("clock", [] { stepper(700); });
    kasync_main(main3, NULL, 0);
}
