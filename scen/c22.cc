// C22: a hangup watch reports the peer's hangup once and only then.
#include "net.h"
namespace {
enum { SEND, FIN, CLOSE, RST, REPLY };
struct Cmd { i64 delay; int kind; int n; };
struct Cx {
    int id; kconnection *c = nullptr; kselector *s; int fd = -1;
    bool active = false, hung = false, rst = false; Stamp *hung_at = nullptr, *set_at = nullptr; int gen = 0, fires = 0, total_fires = 0; std::function<void()> on_fire;
    std::deque<Cmd> cmds; u64 sent = 0, rcvd = 0, up_sent = 0, up_rcvd = 0; bool peer_done = false, done = false, quit = false; u32 seed;
};
std::vector<Cx *> cs;
i64 grace() { return 1500 + 4 * (cfg.net_latency_ns + cfg.net_jitter_ns) / MS + (cfg.seg_split ? 500 : 0); }
kev_result on_hup(KOPAQUE, void *arg, int) {
    Cx *x = (Cx *)arg; count_op(); hash_event(0x2201, x->id);
    SIM_CHECK(my_loop() == loop_index(x->s), "hup:loop", "a hangup is reported on another loop"); SIM_CHECK(x->active, "hup:after-remove", "a hangup is reported %s", x->fires ? "a second time" : "after the watch was removed");
    SIM_CHECK(x->hung, "hup:false", "a hangup is reported although the peer is connected");
    x->active = false; x->fires++; x->total_fires++; if (x->on_fire) { auto f = x->on_fire; x->on_fire = nullptr; f(); } return kev_ok;
}
void do_cmd(Cx *x, const Cmd &c) {
    if (c.delay) sleep_ns(c.delay * US);
    if (x->hung && c.kind != REPLY) return;
    switch (c.kind) {
    case SEND: { std::string b(c.n, 0); patfill(x->seed, x->sent, &b[0], c.n); if (peer_send(x->fd, b.data(), c.n)) x->sent += c.n; break; }
    case REPLY: { char b[64]; ssize_t r = ::recv(x->fd, b, 1, 0); if (r == 1) { x->up_rcvd++; std::string o(1, 0); patfill(x->seed, x->sent, &o[0], 1); if (peer_send(x->fd, o.data(), 1)) x->sent++; } break; }
    case FIN: x->hung = true; x->hung_at = new Stamp; ::shutdown(x->fd, SHUT_WR); break;
    case CLOSE: x->hung = true; if (x->up_sent != x->up_rcvd) x->rst = true; x->hung_at = new Stamp; ::close(x->fd); x->fd = -1; break;
    case RST: x->hung = x->rst = true; x->hung_at = new Stamp; peer_close_rst(x->fd); x->fd = -1; break;
    }
}
void peer_main(Cx *x) {
    for (;;) { wait_until([=] { return !x->cmds.empty() || x->quit; }, 200000, 3); if (x->cmds.empty()) break; Cmd c = x->cmds.front(); x->cmds.pop_front(); if (x->fd < 0) continue; do_cmd(x, c); }
    if (x->fd >= 0) ::close(x->fd); x->peer_done = true;
}
bool rd_check(Cx *x, int want) {    // reads `want` pattern bytes; false at the end
    while (want > 0) { char b[256]; int g = kfiber_net_read(x->c, b, std::min<int>(want, sizeof b)); if (g <= 0) return false; SIM_CHECK(patcheck(x->seed, x->rcvd, b, g) < 0, "hup:content", "after a hangup watch a read returns other bytes than were sent"); x->rcvd += g; want -= g; count_op(); }
    return true;
}
bool echo(Cx *x) { x->cmds.push_back({P(3) * 300, REPLY, 0}); char b = 'e'; int n = (int)(x->sent - x->rcvd) + 1; x->up_sent++; int w = kfiber_net_write(x->c, &b, 1); if (x->hung) x->rst = true; if (w != 1) return false; return rd_check(x, n); }
void drain(Cx *x, const char *when) {     // peer hung up: everything it sent, then the end
    for (;;) { char b[256]; int g = kfiber_net_read(x->c, b, sizeof b); if (g <= 0) { if (!x->rst) { SIM_CHECK(g == 0, "hup:no-eof", "%s: a read after the peer closed reports %d", when, g); SIM_CHECK(x->rcvd == x->sent, "hup:lost", "%s: %llu of %llu bytes arrived before the end", when, (unsigned long long)x->rcvd, (unsigned long long)x->sent); } return; }
        SIM_CHECK(patcheck(x->seed, x->rcvd, b, g) < 0, "hup:content", "%s: a read returns other bytes than were sent", when); x->rcvd += g; }
}
void hangup(Cx *x, i64 us) { x->cmds.push_back({us, (int)oneof<int>(S_WORK, {CLOSE, FIN, RST}), 0}); }
void driver(Cx *x) {
    int rounds = 1 + W(4); bool closed = false, ended = false;
    if (W(2)) { int k = 1 + W(3); for (int i = 0; i < k; i++) SIM_CHECK(echo(x), "hup:io", "an exchange before any watch fails"); }
    for (int r = 0; r < rounds && !ended; r++) {
        u32 pre = W(6); if (pre == 1) x->cmds.push_back({0, SEND, 1 + (int)W(300)}); else if (pre == 2) hangup(x, W(3) * 2000); else if (pre == 3) { x->cmds.push_back({0, SEND, 1 + (int)W(300)}); hangup(x, 0); }
        if (W(3)) kfiber_msleep(oneof<int>(S_WORK, {0, 1, 30, 250, 700}));
       
        x->active = true; x->gen++; x->fires = 0; x->set_at = new Stamp; u32 how = W(8); bool destroy_in_cb = how == 7; bool cb_closed = false;
        if (destroy_in_cb) x->on_fire = [x, &cb_closed] { kconnection *c = x->c; x->c = nullptr; cb_closed = true; kconnection_destroy(c); };
        bool arm = W(8) == 0; if (arm) epoll_ctl_fail_self(1); bool ok = selectable_readhup(&x->c->st, on_hup, x); bool hit = arm && epoll_ctl_fail_self(0) == 0;
        SIM_CHECK(ok || hit, "hup:refused", "a watch on an idle connection is refused");
        if (!ok) { probe("registration failed"); x->active = false; x->on_fire = nullptr; if (W(4) == 0) { ended = true; break; } if (x->hung) { drain(x, "after a watch that could not be set"); ended = true; break; } if (W(2)) { if (!echo(x)) { SIM_CHECK(x->hung, "hup:io", "an exchange after a watch that could not be set fails"); drain(x, "after a failed exchange"); ended = true; } } continue; }
        u32 during = W(6); if (during == 1) x->cmds.push_back({(i64)W(20000), SEND, 1 + (int)W(300)}); else if (during == 2) hangup(x, W(40000)); else if (during == 3) { x->cmds.push_back({(i64)W(5000), SEND, 1 + (int)W(300)}); hangup(x, W(20000)); }
        if (destroy_in_cb || how == 5) { if (!x->hung) hangup(x, W(3000)); }
        if (destroy_in_cb || how >= 4) {       // wait for the hangup, if there is to be one
            Stamp t0; i64 lim = 100 + W(900);
            for (;;) { if (x->fires) break; if (x->hung) { double since = std::min(x->hung_at->eff_ms(), x->set_at->eff_ms()); SIM_CHECK(since < grace(), "hup:missed", "the peer hung up %.0f ms ago (%s the watch was set) and the watch did not fire", since, x->hung_at->t < x->set_at->t ? "before" : "after"); }
                else if (!destroy_in_cb && how != 5 && t0.ms() > lim) break; kfiber_msleep(1 + W(5)); }
            if (x->fires) { probe("fired"); if (W(2)) kfiber_msleep(200); SIM_CHECK(x->fires == 1, "hup:twice", "a watch fired %d times", x->fires); }
            if (cb_closed) { closed = true; break; }
        } else if (W(2)) kfiber_msleep(oneof<int>(S_WORK, {0, 1, 20, 300}));
        x->on_fire = nullptr; bool fired = x->fires; u32 then = W(4);
        if (then != 0 || fired) { selectable_remove_readhup(&x->c->st); x->active = false; probe("removed"); if (W(2)) kfiber_msleep(W(3) * 100); }
        if (x->hung) { x->active = false; drain(x, fired ? "after the watch fired" : "after the watch was removed"); ended = true; probe("drained"); break; }
        if (then == 0) { x->active = false; probe("cancelled by use"); }      // an operation takes the place of the watch
        u32 use = W(3); u64 before = x->sent; (void)before;
        if (use == 1) { if (!echo(x)) { SIM_CHECK(x->hung, "hup:io", "an exchange after a watch fails although the peer is connected"); drain(x, "after a failed exchange"); ended = true; } }
        else if (use == 2) { x->cmds.push_back({(i64)W(2000), SEND, 5}); int n = (int)(x->sent - x->rcvd) + 5; if (!rd_check(x, n)) { SIM_CHECK(x->hung, "hup:io", "a read after a watch fails although the peer is connected"); ended = true; } }
        else if (then == 0) { selectable_remove_readhup(&x->c->st); }
    }
    if (!closed && !ended) { selectable_remove_readhup(&x->c->st); x->active = false; if (!x->hung && W(2)) { SIM_CHECK(echo(x) || x->hung, "hup:io", "an exchange after the last watch fails"); } else { if (!x->hung) x->cmds.push_back({0, CLOSE, 0}); drain(x, "at the end"); } }
    if (!closed) kfiber_net_close(x->c);
    x->quit = true; x->done = true;
}
}
static void c22(int mode) {
    swarm(FA_EINTR | FA_STALL | FA_LATE | FA_LATENCY | FA_NET | FA_SHORT | FA_EAGAIN); start_loops(1 + W(3)); Baseline b; 
    Srv srv; int n = 1 + W(5);
    auto begin = [](Cx *x, kconnection *c) { x->c = c; x->s = c->st.base.selector; driver(x); };
    srv.on = [&](kconnection *c) { fib(c->st.base.selector, [=] { char h; int g = kfiber_net_read(c, &h, 1); SIM_CHECK(g == 1 && h >= 0 && h < (char)cs.size(), "hup:io", "the first byte of a connection does not arrive"); begin(cs[(int)h], c); }, 131072); };
    if (mode != 1) { SIM_CHECK(srv.bind("127.0.0.1", 0), "server:bind", "kserver_bind fails"); post_wait(L(W(3)), [&] { SIM_CHECK(srv.open(), "server:open", "kserver_open fails"); }); }
    for (int i = 0; i < n; i++) { Cx *x = new Cx; x->id = i; x->seed = 77 + i; cs.push_back(x);
        bool client = mode == 1 || (mode == 2 && W(2));
        if (!client) { int port = srv.port; spawn("peer", [=] { x->fd = peer_connect("127.0.0.1", port); SIM_CHECK(x->fd >= 0, "server:refused", "a connection to an open server is refused"); char h = i; peer_send(x->fd, &h, 1); peer_main(x); }); }
        else { auto pp = std::make_shared<int>(0); spawn("peer", [=] { int l = peer_listen_any(pp.get()); x->fd = ::accept(l, nullptr, nullptr); ::close(l); peer_main(x); }); wait_for([=] { return *pp != 0; }, 1000, "internal", "peer listens");
            int port = *pp; fib(L(W(3)), [=] { kconnection *c; sockaddr_i a = loop_addr(port); int r = conn_open(&c, &a); SIM_CHECK(r == 0, "connect:failed", "a connect to a listening server returned %d", r); begin(x, c); }, 131072); } }
    wait_for([] { for (auto x : cs) if (!x->done || !x->peer_done) return false; return true; }, 60000, "hup:stalled", "exchanges complete");
    settle(300); if (mode != 1) { srv.close(); srv.release(); wait_for([&] { return srv.freed == 1; }, 3000, "server:not-freed", "a closed server without users is freed"); }
    wait_for([&] { return kfiber_get_count() == b.fibers; }, 3000, "hup:fiber-left", "fibers end"); loops_respond(); check_clean(b, CL_FD | CL_HEAP | CL_FIBER | CL_COUNT, "hup");
}
SCENARIO(C22, accepted, 3) { c22(0); }
SCENARIO(C22, connected, 2) { c22(1); }
SCENARIO(C22, mixed, 1) { c22(2); }
