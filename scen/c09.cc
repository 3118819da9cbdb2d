// C09: TCP streams arrive intact and every operation completes exactly once.
#include "net.h"
namespace {
std::vector<Xfer *> xs;
void c09(u32 mode) {     // mode: which kinds of ends
    swarm(FA_EINTR | FA_STALL | FA_LATE | FA_LATENCY | FA_NET | FA_SHORT | FA_EAGAIN | FA_BUF);
    if (cfg.p_eagain && W(3)) cfg.p_epoll_ctl = 0;
    start_loops(1 + W(3)); Baseline b;
    Srv srv; int lib_port = 0; std::string host = any_host("/tmp/c09.sock");
    srv.on = [&](kconnection *c) { fib(c->st.base.selector, [c] {
        int id = hello_recv(c); SIM_CHECK(id >= 0 && id < (int)xs.size(), "stream:content", "a connection announced itself as %d", id);
        Xfer *x = xs[id]; if (x->sstyle & 8) post(c->st.base.selector, [=] { xfer_cb_end(c, x, false); }); else xfer_fiber_end(c, x, false); }); };
    bool any_lib = mode != 2;
    if (any_lib) { SIM_CHECK(srv.bind(host.c_str(), 0), "server:bind", "kserver_bind fails"); post_wait(L(W(3)), [&] { SIM_CHECK(srv.open(), "server:open", "kserver_open fails"); }); lib_port = srv.port; }
    int n = 1 + W(4); u64 unit = std::min(cfg.sndbuf, cfg.rcvbuf);
    i64 rtt = 2 * (cfg.net_latency_ns + cfg.net_jitter_ns) + 40 * MS; u64 cap = std::min<u64>(60000, std::max<u64>(40, unit * (20 * SEC / rtt)));
    if (cfg.seg_split) cap = std::min<u64>(cap, 400 * (20 * SEC / rtt) / 20 + 40);
    if (cfg.p_short || cfg.p_eagain) cap = std::min<u64>(cap, 4000);
    for (int i = 0; i < n; i++) {
        Xfer *x = new Xfer; x->id = i; x->cstyle = W(16); x->sstyle = W(16); x->cchunk = oneof(S_WORK, {100u, 1u, 7u, 1500u, 9000u, 40000u}); x->schunk = oneof(S_WORK, {100u, 1u, 7u, 1500u, 9000u, 40000u}); x->client_closes = W(2);
        auto amount = [&](u32 ch) { u64 lim = std::min<u64>(cap, (u64)ch * 60 + 1); u32 m = W(8); return m == 0 ? 0ULL : m == 1 ? 1ULL + W(20) : 1ULL + (u64)W(lim); };
        u32 mch = std::min(x->cchunk, x->schunk); x->up.total = amount(mch); x->down.total = amount(mch); x->up.seed = 1 + 2 * i; x->down.seed = 2 + 2 * i; x->up.name = "up" + std::to_string(i); x->down.name = "down" + std::to_string(i);
        xs.push_back(x);
        int kind = mode == 0 ? 0 : mode == 1 ? 1 : 2;   // 0 lib-lib, 1 scripted client, 2 scripted server
        if (mode == 3) kind = W(3);
        int port = lib_port; std::string to = host;
        if (kind == 2) {
            auto pp = std::make_shared<int>(0); auto up = std::make_shared<bool>(false); to = any_host(("/tmp/c09-" + std::to_string(i)).c_str());
            spawn("peer", [=] { int l = peer_listen(to.c_str(), 0, 128, pp.get()); SIM_CHECK(l >= 0, "internal", "peer listen"); *up = true; int fd = ::accept(l, nullptr, nullptr); ::close(l); char h[4]; SIM_CHECK(peer_recv_exact(fd, h, 4), "stream:read-failed", "the connection ended before its first bytes"); xfer_peer_end(fd, x, false); });
            wait_for([=] { return *up; }, 1000, "internal", "peer listens"); port = *pp;
        }
        if (kind == 1) spawn("peer", [=] { int fd = peer_connect(to.c_str(), port); SIM_CHECK(fd >= 0, "server:refused", "a connection to an open server is refused"); char h[4] = {(char)i, 0, (char)~i, 'h'}; peer_send(fd, h, 4); xfer_peer_end(fd, x, true); });
        else { kselector *s = L(W(3)); fib(s, [=] {
            kconnection *c; int r = conn_open(&c, to, port); SIM_CHECK(r == 0, "connect:failed", "a connect to a listening server returned %d", r);
            bool ok = hello_send(c, i); SIM_CHECK(ok, "stream:write-failed", "the first write on a new connection fails");
            if (x->cstyle & 8) post(s, [=] { xfer_cb_end(c, x, true); }); else xfer_fiber_end(c, x, true); }); }
        if (W(2)) sleep_ms(W(40));
    }
    wait_for([&] { for (auto x : xs) if (!x->done()) return false; return true; }, 110000, "stream:stalled", "exchanges complete");
    if (any_lib) { srv.close(); srv.release(); wait_for([&] { return srv.freed == 1; }, 3000, "server:not-freed", "a closed server without users is freed"); }
    wait_for([&] { return kfiber_get_count() == b.fibers; }, 3000, "stream:fiber-left", "fibers end");
    loops_respond(); check_clean(b, CL_FD | CL_HEAP | CL_FIBER | CL_COUNT, "stream");
}
}
SCENARIO(C09, lib_to_lib, 3) { c09(0); }
SCENARIO(C09, scripted_client, 2) { c09(1); }
SCENARIO(C09, scripted_server, 2) { c09(2); }
SCENARIO(C09, mixed, 2) { c09(3); }
