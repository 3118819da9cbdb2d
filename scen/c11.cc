// C11: a server delivers each accepted connection once and shuts down cleanly.
#include "net.h"
#include <errno.h>
#include <openssl/ssl.h>
namespace {
enum Kind { TRAMP, RAW, FIBER, EXIST };
const char *kinds[] = {"macro", "raw", "fiber", "exist"};
struct Cl { int id; bool connected = false, replied = false, done = false, started = false; u64 closes0 = 0; bool open0 = false; Stamp conn; u64 ab0 = 0; int delivered = 0; };
Srv srv; Kind kind; std::string host; int nl; std::vector<Cl *> cls;
bool open_now = false, close_in_handler = false; u64 closes; int closing; std::set<kserver_selectable *> old; int ends, opened; u64 aborts_excused; bool limited; Stamp *lifted; bool released;
u64 aborts() { return fault_count("accept_ECONNABORTED") + fault_count("accept_EPROTO"); }
u64 acc_errs() { return aborts() + fault_count("accept_EMFILE") + fault_count("accept_ENFILE") + fault_count("accept_ENOMEM"); }
bool draining() {   // listening sockets of an earlier opening may still take connections
    if (old.empty() || !srv.s || srv.freed) return false;
    kgl_list *p; bool any = false; for (p = srv.s->ss.next; p != &srv.s->ss; p = p->next) any |= old.count(kgl_list_data(p, kserver_selectable, queue)); if (!any) old.clear(); return any;
}
bool excused(Cl *c) {
    if (!c->open0 || c->closes0 != closes) return true;
    if (aborts() - c->ab0 > 0 && aborts_excused < aborts()) { aborts_excused++; return true; }   // the connection was aborted before it was accepted
    return false;
}
void do_close() {
    kgl_list *p; for (p = srv.s->ss.next; p != &srv.s->ss; p = p->next) old.insert(kgl_list_data(p, kserver_selectable, queue));
    closes++; closing++; open_now = false; close_in_handler = false; srv.close(); closing--;
}
void serve(kconnection *c) {
    int hold = P(4) == 0 ? P(200) : 0; bool first = true;
    fib(c->st.base.selector, [=]() mutable {
        c->st.base.tmo = 20;
        for (;;) {
            int id = hello_recv(c); if (id < 0) break;
            SIM_CHECK(id < (int)cls.size(), "server:delivery", "a connection announced itself as %d", id);
            if (first) { cls[id]->delivered++; SIM_CHECK(cls[id]->delivered == 1, "server:twice", "connection %d was delivered %d times", id, cls[id]->delivered); first = false; }
            if (hold) kfiber_msleep(hold);
            if (!hello_send(c, id)) break;
        }
        kfiber_net_close(c);
    });
}
void accepted(kconnection *c) {
    count_op(); SIM_CHECK(!released || srv.freed == 0, "server:late", "a connection is delivered after the server was released");
    sockaddr_i pa, sa; socklen_t pl = sizeof pa; memset(&pa, 0, sizeof pa); memset(&sa, 0, sizeof sa);      // the connection knows its two ends
    if (host[0] == '/') SIM_CHECK(c->addr.v4.sin_family == AF_UNIX, "server:address", "a connection over a unix socket has an address of family %d", c->addr.v4.sin_family);
    else {
        bool v6 = host == "::1";
        if (::getpeername(c->st.fd, (sockaddr *)&pa, &pl) == 0) SIM_CHECK(c->addr.v4.sin_family == (v6 ? AF_INET6 : AF_INET) && c->addr.v4.sin_port == pa.v4.sin_port && !memcmp(v6 ? (void *)&c->addr.v6.sin6_addr : (void *)&c->addr.v4.sin_addr, v6 ? (void *)&pa.v6.sin6_addr : (void *)&pa.v4.sin_addr, v6 ? 16 : 4), "server:address", "a delivered connection carries the address of port %d, its peer has port %d", ntohs(c->addr.v4.sin_port), ntohs(pa.v4.sin_port));
        if (kconnection_self_addr(c, &sa) == 0 && kind != EXIST) SIM_CHECK(ntohs(sa.v4.sin_port) == srv.port || !srv.port || draining(), "server:address", "a delivered connection's own port is %d, the server's %d", ntohs(sa.v4.sin_port), srv.port);
    }
    if (close_in_handler) { close_in_handler = false; probe("close_in_accept_handler"); do_close(); }
    serve(c);
}
void ended(const char *how) {
    ends++; hash_event(0xe4d, ends);
    SIM_CHECK(!open_now || draining() || closes, "server:end-early", "the end of a listening socket was reported (%s) although the server was never closed", how);
    SIM_CHECK(ends <= opened, "server:end-twice", "%d ends were reported for %d listening sockets", ends, opened);
}
kev_result raw_accept(KOPAQUE data, void *arg, int got) {
    kserver_selectable *ss = (kserver_selectable *)data; SIM_CHECK(ss->st.base.selector == kgl_get_tls_selector(), "server:loop", "an accept callback runs on another loop");
    kconnection *c = accept_result_new_connection(data, got);
    if (!c) { ended("callback"); kserver_selectable_destroy(ss); return kev_ok; }
    SIM_CHECK(open_now || closes, "server:delivery", "a connection before the server is open");
    selectable_bind(&c->st, ss->st.base.selector); accepted(c);
    if (!(srv.s->flags & KGL_SERVER_START) || !kserver_selectable_accept(ss, arg)) { ended("flag"); kserver_selectable_destroy(ss); }
    return kev_ok;
}
void accept_fiber(kserver_selectable *ss) {
    for (;;) {
        kconnection *c = nullptr; int r = kfiber_net_accept(ss, &c);
        if (r != 0 || !c) { ended("fiber"); kserver_selectable_destroy(ss); return; }
        accepted(c); if (P(4) == 0) kfiber_msleep(P(30));
    }
}
void do_open() {
    int before = opened; bool ok = false;
    opened += (kind == EXIST || kind == FIBER) ? 1 : nl;       // counted first: ends may be reported while opening
    if (kind == TRAMP || kind == RAW) {
        auto f = [&] { ok = srv.open(0, kind == RAW ? raw_accept : nullptr); };
        if (W(2)) f(); else post_wait(L(W(3)), f);
    } else if (kind == EXIST) post_wait(L(W(3)), [&] {
        SOCKET fd = ksocket_listen(&srv.s->addr, KSOCKET_REUSEPORT); SIM_CHECK(fd >= 0, "internal", "listen: errno %d", errno);
        ok = kserver_open_exsit(srv.s, fd, W(2) ? raw_accept : s_accept_tramp); srv.port = ksocket_addr_port(&srv.s->addr); });
    else {   // one accepting fiber on each of some loops
        int n = 1 + W(nl); if (host[0] == '/') n = 1; opened += n - 1; auto left = std::make_shared<int>(n);
        for (int i = 0; i < n; i++) { auto up = std::make_shared<bool>(false); fib(L(i), [=] { kserver_selectable *ss = nullptr; kfiber_net_listen(srv.s, 0, &ss); SIM_CHECK(ss, "server:open", "kfiber_net_listen fails"); *up = true; accept_fiber(ss); }); wait_for([=] { return *up; }, 3000, "server:open", "kfiber_net_listen returns"); }
        ok = true; srv.port = ksocket_addr_port(&srv.s->addr); srv.closed = false;
    }
    (void)before; SIM_CHECK(ok, "server:open", "opening a server on a free address fails (%s)", kinds[kind]);
    open_now = true;
}
void client(Cl *k, int rounds, int gap) {
    k->closes0 = closes; k->open0 = open_now && !draining(); k->ab0 = aborts(); k->started = true;
    int fd = peer_connect(host.c_str(), srv.port);
    if (fd < 0) { SIM_CHECK(excused(k), "server:refused", "connection %d to an open server is refused (errno %d)", k->id, errno); k->done = true; return; }
    k->conn = Stamp(); k->connected = true; char h[4] = {(char)k->id, (char)(k->id >> 8), (char)~k->id, 'h'}, r[4];
    bool ok = peer_send(fd, h, 4) && peer_recv_exact(fd, r, 4);
    if (!ok) { SIM_CHECK(excused(k), "server:dropped", "established connection %d to an open server was dropped without being delivered", k->id); probe("dropped_at_close"); }
    else {
        k->replied = true; SIM_CHECK(!memcmp(r, h, 4), "server:delivery", "connection %d gets another's answer", k->id);
        for (int i = 0; i < rounds; i++) { sleep_ms(P(gap + 1)); SIM_CHECK(peer_send(fd, h, 4) && peer_recv_exact(fd, r, 4) && !memcmp(r, h, 4), "server:accepted-broken", "accepted connection %d broke while both sides kept it", k->id); if (closes != k->closes0) probe("served_after_close"); }
    }
    if (W(4) == 0) peer_close_rst(fd); else ::close(fd);
    k->done = true;
}
void run11() {
    lifted = new Stamp;
    swarm(FA_EINTR | FA_STALL | FA_LATE | FA_LATENCY | FA_NET); if (W(3) == 0) cfg.p_accept_err = 20 + W(300);
    nl = 1 + W(4); start_loops(nl); nl = g_loops.size(); Baseline b;
    kind = (Kind)W(4); u32 m = W(6); host = m == 0 ? "/tmp/c11.sock" : m == 1 ? "::1" : "127.0.0.1"; if (m == 0) cfg.p_accept_err = 0;
    srv.on = accepted; srv.bare = W(4) == 1; SIM_CHECK(srv.bind(host.c_str(), 0), "server:bind", "kserver_bind fails for %s", host.c_str()); if (m == 0) probe("unix");
    int gens = 1 + W(3), left = 0; bool twice = false;
    for (int g = 0; g < gens; g++) {
        do_open(); int n = W(7); bool limit = W(5) == 0;
        for (int i = 0; i < n; i++) {
            Cl *k = new Cl; k->id = cls.size(); cls.push_back(k); int at = W(3) ? W(60) : 0, rounds = W(4), gap = oneof(S_WORK, {0, 5, 60}); left++;
            spawn("client", [=, &left] { if (at) sleep_ms(at); client(k, rounds, gap); left--; });
        }
        if (limit) { sleep_ms(W(20)); limited = true; fd_limit(std::max(1, lib_open_fds() + (int)W(3))); probe("fd_limit"); }
        Stamp t0; double life = oneof(S_WORK, {0, 1, 20, 60, 200, 600}) + W(10), lim_for = W(400);
        auto monitor = [&] {
            if (limit && limited && t0.ms() > lim_for) { limited = false; *lifted = Stamp(); fd_limit(0); }
            if (limited || !open_now) return;
            for (Cl *c : cls) if (c->connected && !c->replied && !c->done && c->open0 && c->closes0 == closes) {
                double el = std::min(c->conn.eff_ms(), lifted->eff_ms()), lim = 900 + 6e-6 * (cfg.net_latency_ns + cfg.net_jitter_ns) + 160.0 * acc_errs();
                SIM_CHECK(el < lim, "server:not-delivered", "connection %d has been established for %.0f ms and was not served (delivered %d times)", c->id, el, c->delivered); }
        };
        while (t0.ms() < life) { sleep_ms(1 + W(10)); monitor(); }
        if (W(3) == 0) { while (left) { sleep_ms(5); monitor(); } }   // let everyone finish first
        if (limited) { limited = false; *lifted = Stamp(); fd_limit(0); }
        u64 want = closes + 1;
        switch (W(4)) {
        case 0: do_close(); break;
        case 1: { auto d = std::make_shared<bool>(false); fib(L(W(3)), [=] { do_close(); *d = true; }); wait_for([=] { return *d; }, 3000, "server:close-blocked", "kserver_close returns"); break; }
        case 2: close_in_handler = true; wait_until([&] { return closes == want; }, 150); if (closes != want) do_close(); break;
        default: { twice = true; int l2 = 2; for (int i = 0; i < 2; i++) spawn("closer", [&l2] { do_close(); l2--; }); wait_for([&] { return l2 == 0; }, 3000, "server:close-blocked", "kserver_close returns"); probe("closed_twice"); } }
        wait_for([&] { return !closing; }, 3000, "server:close-blocked", "kserver_close returns");     // an opening that overlaps a closing may be closed by it
        if (g + 1 < gens) { if (W(2)) { wait_for([&] { return !draining(); }, 1500, "server:not-closed", "the listening sockets of a closed server go away"); if (W(2)) sleep_ms(W(100)); } else probe("reopened_while_closing"); }
    }
    (void)twice; std::string ip = host; int port = srv.port; u32 rel = W(3);
    auto release = [&] { released = true; srv.release(); };
    if (rel == 0) { release(); } else if (rel == 1) fib(L(W(3)), release);
    bool stopped = wait_until([&] { for (u32 i = 0; i < 1; i++) {} return srv.freed || !draining(); }, 1500 + slack_ns() / MS);
    if (!stopped) { Stamp t; wait_for([&] { return srv.freed || !draining(); }, 500, "server:not-closed", "the listening sockets of a closed server go away"); }
    { auto r = std::make_shared<int>(-2); spawn("late-client", [=] { int fd = peer_connect(ip.c_str(), port); if (fd >= 0) ::close(fd); *r = fd; }); wait_for([=] { return *r != -2; }, 5000, "internal", "late connect ends"); SIM_CHECK(*r < 0, "server:still-accepting", "a closed server still accepts connections"); }
    wait_for([&] { return left == 0; }, 20000, "server:client-blocked", "clients of a closed server end");
    if (rel == 2) release();
    wait_for([&] { return srv.freed == 1; }, 3000, "server:not-freed", "a closed and released server without connections is freed");
    if (kind == RAW || kind == FIBER) SIM_CHECK(ends == opened, "server:end-missing", "%d ends were reported for %d listening sockets", ends, opened);
    wait_for([&] { return kfiber_get_count() == b.fibers; }, 3000, "server:fiber-left", "fibers end");
    loops_respond(); check_clean(b, CL_FD | CL_HEAP | CL_FIBER | CL_COUNT, "server"); SIM_CHECK(srv.freed == 1, "server:freed-twice", "the release hook ran %d times", srv.freed);
}
}
SCENARIO(C11, open_close, 5) { run11(); }
// ------------------------------------------------------------------ replacing the TLS context of an open or closing server
SCENARIO(C11, tls_context, 2) {
    swarm(FA_EINTR | FA_STALL | FA_LATE); nl = 1 + W(4); start_loops(nl); nl = g_loops.size(); Baseline b; kind = W(2) ? TRAMP : RAW; host = "127.0.0.1"; srv.on = accepted; srv.bare = W(4) == 1;
    auto mk = [] { return kgl_new_ssl_ctx(SSL_CTX_new(TLS_method())); };
    SIM_CHECK(srv.bind(host.c_str(), 0, W(2) ? mk() : nullptr), "server:bind", "kserver_bind fails");
    int gens = 1 + W(2);
    for (int g = 0; g < gens; g++) {
        do_open(); int left = 1; int n = 1 + W(5);
        spawn("updater", [&] { for (int i = 0; i < n; i++) { kserver_set_ssl_ctx(srv.s, mk()); count_op(); if (P(2)) sleep_ms(P(4)); else for (u32 k = P(6); k; k--) yield(); } left--; });
        if (W(2)) sleep_ms(W(15));
        do_close(); wait_for([&] { return left == 0; }, 5000, "internal", "updates end"); if (W(2)) sleep_ms(W(40)); if (g + 1 < gens) wait_for([&] { return !draining(); }, 1500, "server:not-closed", "the listening sockets of a closed server go away");
    }
    srv.release(); wait_for([&] { return srv.freed == 1; }, 3000, "server:not-freed", "a closed and released server is freed");
    loops_respond(); check_clean(b, CL_FD | CL_HEAP | CL_FIBER | CL_COUNT, "server");
}
// ------------------------------------------------------------------ an address that is in use at the moment
// connections of a TLS server for which no TLS session can be made: they are lost, nothing else is
SCENARIO(C11, tls_refused, 1) {
    swarm(FA_EINTR | FA_STALL | FA_LATE | FA_LATENCY); nl = 1 + W(3); start_loops(nl); nl = g_loops.size(); Baseline b; u32 how = W(3); kind = how == 0 ? TRAMP : how == 1 ? RAW : FIBER; host = "127.0.0.1"; int delivered = 0, connected = 0, open_c = 0, left = 0; u32 p = oneof(S_WORK, {0u, 300u, 700u, 1024u}); static bool rel; rel = false;
    srv.on = [&](kconnection *c) { delivered++; open_c++; count_op(); SIM_CHECK(srv.freed == 0, "server:late", "a connection is delivered by a server that was released"); SIM_CHECK(c->st.ssl, "server:tls", "a connection of a TLS server is delivered without a TLS session"); int hold = P(3) ? 0 : P(300); fib(c->st.base.selector, [&, c, hold] { if (hold) kfiber_msleep(hold); kconnection_destroy(c); open_c--; }); };
    SIM_CHECK(srv.bind(host.c_str(), 0, kgl_new_ssl_ctx(SSL_CTX_new(TLS_method()))), "server:bind", "kserver_bind fails"); int gens = 1 + W(2);
    for (int g = 0; g < gens; g++) {
        if (kind == FIBER) { auto up = std::make_shared<bool>(false); opened++; fib(L(0), [=] { kserver_selectable *ss = nullptr; kfiber_net_listen(srv.s, 0, &ss); SIM_CHECK(ss, "server:open", "kfiber_net_listen fails"); *up = true; for (;;) { kconnection *c = nullptr; int r = kfiber_net_accept(ss, &c); if (r != 0 || !c) { ends++; kserver_selectable_destroy(ss); return; } srv.on(c); } }); wait_for([=] { return *up; }, 3000, "server:open", "kfiber_net_listen returns"); srv.port = ksocket_addr_port(&srv.s->addr); srv.closed = false; }
        else { bool ok = false; post_wait(L(W(3)), [&] { ok = srv.open(0, kind == RAW ? [](KOPAQUE data, void *arg, int got) -> kev_result { kserver_selectable *ss = (kserver_selectable *)data; kconnection *c = accept_result_new_connection(data, got); if (!c && got < 0) { kserver_selectable_destroy(ss); return kev_ok; } if (c) { selectable_bind(&c->st, ss->st.base.selector); srv.on(c); } if (!(srv.s->flags & KGL_SERVER_START) || !kserver_selectable_accept(ss, arg)) kserver_selectable_destroy(ss); return kev_ok; } : (result_callback)nullptr); }); SIM_CHECK(ok, "server:open", "opening a server on a free address fails"); }
        tls_fail_new(p); int n = 1 + W(6), d0 = delivered; connected = 0;
        for (int i = 0; i < n; i++) { int at = W(2) ? W(50) : 0, hold = W(3) ? W(40) : W(300); left++; spawn("client", [&, at, hold] { if (at) sleep_ms(at); int fd = peer_connect("127.0.0.1", srv.port); if (fd < 0) probe("refused"); else { connected++; if (hold) sleep_ms(hold); if (P(4) == 0) peer_close_rst(fd); else ::close(fd); } left--; }); }
        wait_for([&] { return left == 0; }, 5000, "internal", "clients end"); sleep_ms(300 + 4e-6 * (cfg.net_latency_ns + cfg.net_jitter_ns)); SIM_CHECK(srv.freed == 0, "server:freed-early", "a server was released while it was open");
        if (p == 0 && slack_ns() == 0) SIM_CHECK(delivered - d0 == connected, "server:dropped", "%d of %d connections were delivered", delivered - d0, connected);
        if (p == 1024) { SIM_CHECK(delivered == d0, "server:tls", "%d connections without TLS session were delivered", delivered - d0); probe("all_refused"); }
        bool before = W(3) == 0; if (before) { tls_fail_new(0); int k = 1 + W(2); for (int i = 0; i < k; i++) { d0 = delivered; spawn("client", [&] { int fd = peer_connect("127.0.0.1", srv.port); SIM_CHECK(fd >= 0, "server:refused", "a connection to an open server is refused"); u32 dd = delivered; (void)dd; wait_for([&] { return delivered > d0; }, 3000, "server:not-delivered", "after lost connections a proper one is delivered"); ::close(fd); left--; }); left++; wait_for([&] { return left == 0; }, 6000, "internal", "clients end"); } }
        if (W(2)) wait_for([&] { return open_c == 0; }, 3000, "internal", "connections end");
        do_close(); if (g + 1 < gens) wait_for([&] { return !draining(); }, 1500, "server:not-closed", "the listening sockets of a closed server go away");
    }
    sleep_ms(W(400)); SIM_CHECK(srv.freed == 0, "server:freed-early", "a server was released although its owner did not let go"); srv.release(); wait_for([&] { return srv.freed == 1; }, 3000, "server:not-freed", "a closed and released server is freed"); tls_fail_new(0);
    wait_for([&] { return kfiber_get_count() == b.fibers; }, 3000, "server:fiber-left", "fibers end"); loops_respond(); check_clean(b, CL_FD | CL_HEAP | CL_FIBER | CL_COUNT, "server"); SIM_CHECK(srv.freed == 1, "server:freed-twice", "the release hook ran %d times", srv.freed);
}
SCENARIO(C11, port_in_use, 1) {
    swarm(FA_EINTR | FA_STALL | FA_LATE); nl = 1 + W(4); start_loops(nl); nl = g_loops.size(); Baseline b; kind = TRAMP; host = "127.0.0.1"; srv.on = accepted; srv.bare = W(4) == 1; int port = 0, freed_at = 0; u32 where = W(3); Stamp t0; bool gone = false;
    int hold = oneof(S_WORK, {0, 200, 700, 2600, 4900, 9000, -1}) + 0; if (hold > 0) hold += W(150); int lfd = peer_listen(host.c_str(), 0, 8, &port); SIM_CHECK(srv.bind(host.c_str(), port), "server:bind", "kserver_bind fails");
    int me = self(); spawn("holder", [&] { peer_adopt(me); if (hold >= 0) { sleep_ms(hold); ::close(lfd); } gone = true; }); (void)freed_at;
    bool ok = false, back = false; int ticks = 0; auto open = [&] { ok = srv.open(0, nullptr); back = true; };
    opened += nl; if (where == 0) open(); else if (where == 1) post(L(W(3)), open); else fib(L(W(3)), open, 65536);
    double lim = 5500 + 12 * 30; while (!back) { sleep_ms(10); if (where == 2 && ++ticks % 20 == 0) loops_respond(); SIM_CHECK(t0.eff_ms() < lim + 1500, "server:open-blocked", "opening a server on an address in use takes %.0f ms", t0.eff_ms()); }
    double took = t0.eff_ms(); bool longest = hold < 0 || hold > 5000;
    if (hold >= 0 && !longest && slack_ns() == 0) { SIM_CHECK(ok, "server:open", "opening a server fails although its address was free after %d ms", hold); SIM_CHECK(took < hold + 600, "server:open-late", "the address was free after %d ms, opening the server took %.0f ms", hold, took); probe("opened_after_wait"); }
    if (longest && !gone) { SIM_CHECK(!ok, "server:open", "a server opens on an address that is in use"); probe("busy_refused"); }
    if (ok) SIM_CHECK(gone, "server:false-open", "kserver_open reports success on a port in use");
    if (!ok) { SIM_CHECK(!(srv.s->flags & KGL_SERVER_START), "server:false-open", "a failed kserver_open leaves the server marked open"); opened -= nl; closes++; wait_for([&] { return gone; }, 15000, "internal", "holder ends"); if (hold < 0) ::close(lfd); do_open(); }
    else open_now = true;
    Cl *k = new Cl; k->id = cls.size(); cls.push_back(k); client(k, 2, 5); SIM_CHECK(k->replied, "server:dropped", "a server opened on an address that was in use serves nobody");
    do_close(); wait_for([&] { return !draining(); }, 1500, "server:not-closed", "the listening sockets of a closed server go away"); srv.release(); wait_for([&] { return srv.freed == 1; }, 3000, "server:not-freed", "a closed and released server is freed");
    wait_for([&] { return kfiber_get_count() == b.fibers; }, 3000, "server:fiber-left", "fibers end"); loops_respond(); check_clean(b, CL_FD | CL_HEAP | CL_FIBER | CL_COUNT, "server");
}
// ------------------------------------------------------------------ listen() finds the address taken although bind() did not: opening tries again and leaves no descriptor behind
SCENARIO(C11, listen_refused, 1) {
    swarm(FA_EINTR | FA_STALL | FA_LATE); nl = 1 + W(4); start_loops(nl); nl = g_loops.size(); Baseline b; kind = TRAMP; u32 m = W(5); host = m == 0 ? "::1" : "127.0.0.1"; srv.on = accepted; srv.bare = W(4) == 1; u32 where = W(3);
    SIM_CHECK(srv.bind(host.c_str(), 0), "server:bind", "kserver_bind fails"); u32 most = cfg.listen_errs = 1 + W(6); cfg.p_listen_err = oneof(S_WORK, {200, 500, 900, 1024}); Stamp t0; bool ok = false, back = false;
    auto open = [&] { ok = srv.open(0, nullptr); back = true; };
    opened += nl; if (where == 0) open(); else if (where == 1) post(L(W(3)), open); else fib(L(W(3)), open, 65536);
    while (!back) { sleep_ms(10); SIM_CHECK(t0.eff_ms() < 550. * most + 2500, "server:open-blocked", "opening a server whose address was taken at most %u times takes %.0f ms", most, t0.eff_ms()); }
    u32 n = most - cfg.listen_errs; cfg.listen_errs = 0; SIM_CHECK(ok, "server:open", "opening a server fails although its address was taken only %u times", n); if (n) probe("opened_after_listen_error"); open_now = true;
    Cl *k = new Cl; k->id = cls.size(); cls.push_back(k); client(k, 2, 5); SIM_CHECK(k->replied, "server:dropped", "a server whose address was taken for a while serves nobody");
    do_close(); wait_for([&] { return !draining(); }, 1500, "server:not-closed", "the listening sockets of a closed server go away"); srv.release(); wait_for([&] { return srv.freed == 1; }, 3000, "server:not-freed", "a closed and released server is freed");
    wait_for([&] { return kfiber_get_count() == b.fibers; }, 3000, "server:fiber-left", "fibers end"); loops_respond(); check_clean(b, CL_FD | CL_HEAP | CL_FIBER | CL_COUNT, "server");
}
// ------------------------------------------------------------------ closings that overlap the opening: a closing after both still ends everything
SCENARIO(C11, overlap, 2) {
    swarm(FA_EINTR | FA_STALL | FA_LATE); nl = 1 + W(4); start_loops(nl); nl = g_loops.size(); Baseline b; bool tls = W(3) == 0; host = W(4) ? "127.0.0.1" : "/tmp/c11.sock"; int served = 0;
    srv.on = [&](kconnection *c) { served++; count_op(); SIM_CHECK(!released, "server:late", "a connection is delivered after the server was released"); if (tls) c->st.base.tmo = 1; fib(c->st.base.selector, [=] { if (W(3) == 0) kfiber_msleep(W(30)); kfiber_net_close(c); }); };
    auto mk = [] { return kgl_new_ssl_ctx(SSL_CTX_new(TLS_method())); };
    SIM_CHECK(srv.bind(host.c_str(), 0, tls ? mk() : nullptr), "server:bind", "kserver_bind fails"); int rounds = 1 + W(3);
    for (int r = 0; r < rounds; r++) {
        int left = 1, nc = 1 + W(2), n = W(4); u32 where = W(2), pre = W(3), ow = W(3); bool ok = false;
        auto opener = [&] { for (u32 k = P(8); k; k--) yield(); ok = srv.open(); left--; };
        if (where == 0) spawn("opener", opener); else post(L(ow), opener);
        if (pre == 0) for (u32 k = P(20); k; k--) yield(); else if (pre == 1) for (int k = 0; k < 600 && srv.s->ss.next == &srv.s->ss; k++) sleep_ns(2000);
        left += nc; for (int i = 0; i < nc; i++) spawn("closer", [&] { for (u32 k = P(12); k; k--) yield(); srv.close(); count_op(); left--; });
        if (tls && W(2)) { left++; spawn("updater", [&] { for (u32 k = P(12); k; k--) yield(); kserver_set_ssl_ctx(srv.s, mk()); left--; }); }
        left += n; for (int i = 0; i < n; i++) spawn("client", [&] { sleep_ms(P(4)); int f = srv.port || host[0] == '/' ? peer_connect(host.c_str(), srv.port) : -1; char z; if (f >= 0) { ::recv(f, &z, 1, 0); ::close(f); } left--; });
        Stamp t0; while (left > 0) { sleep_ms(1); if (t0.ms() > 40) { bool c = left <= n; if (c) { srv.close(); break; } } SIM_CHECK(t0.eff_ms() < 8000, "server:close-blocked", "an opening and a closing at the same time do not return"); }
        wait_for([&] { if (left <= n) { srv.close(); } return left == 0; }, 12000, "server:not-closed", "clients of a closed server end");
        SIM_CHECK(ok, "server:open", "opening a server fails"); do_close(); probe("overlap");
        wait_for([&] { return srv.s->ss.next == &srv.s->ss; }, 2000, "server:not-closed", "the listening sockets of a closed server go away"); if (host[0] == '/') { u32 k = W(2); if (k) sleep_ms(20); }
    }
    released = true; srv.release(); wait_for([&] { return srv.freed == 1; }, tls ? 9000 : 3000, "server:not-freed", "a closed and released server is freed");
    wait_for([&] { return kfiber_get_count() == b.fibers; }, 3000, "server:fiber-left", "fibers end"); loops_respond(); check_clean(b, CL_FD | CL_HEAP | CL_FIBER | CL_COUNT, "server"); SIM_CHECK(srv.freed == 1, "server:freed-twice", "the release hook ran %d times", srv.freed);
}
