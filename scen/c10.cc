// C10: network failures and timeouts are reported truthfully and in bounded time.
#include "net.h"
#include <errno.h>
#include <arpa/inet.h>
#include <sys/un.h>
#include <sys/eventfd.h>
namespace {
const double TICK = 400;      // two loop ticks (only the first loop reads the clock) and change
int ct, rt;                   // configured timeouts (s)
int open_ends;

// ------------------------------------------------------------------ connecting
struct Tgt { std::string ip; int port; int kind; bool v6() { return strchr(ip.c_str(), ':'); } bool unix_() { return ip[0] == '/'; } };   // kind: 0 healthy 1 refused 2 unreachable 3 blackhole 4 backlog full 5 blackhole healed later 6 blackholed while connecting
struct CbConn { kconnection *c; std::function<void(int)> done; bool fired = false; };
kev_result on_conn(KOPAQUE, void *arg, int got) { CbConn *k = (CbConn *)arg; SIM_CHECK(!k->fired, "connect:twice", "a connect completed twice"); k->fired = true; auto f = k->done; f(got); return kev_ok; }
void judge(kconnection *c, Tgt *t, int r, Stamp st, u64 inj) {
    count_op(); hash_event(0xc0, r == 0);
    SockInfo si = c->st.fd >= 0 ? sock_info(c->st.fd) : SockInfo{}; double el = st.eff_ms(); int ct = ::ct * (c->st.base.tmo + 1); double TICK = ::TICK + 200 * c->st.base.tmo; bool injected = fault_count("connect_error") + fault_count("socket_emfile") + fault_count("epoll_ctl_enomem") != inj;
    if (r == 0) { SIM_CHECK(si.was_established, "connect:false-success", "connect to %s (case %d) reported success after %.0f ms but the connection was never established", t->ip.c_str(), t->kind, el); probe("connect_ok"); }
    else {
        SIM_CHECK(r < 0, "connect:result", "connect returned %d", r);
        bool late = st.ms() >= ct * 1000 - 400 - 1e-6 * slack_ns(); SIM_CHECK(!(t->kind == 0 && !injected && !late), "connect:false-failure", "connect to a healthy listening host failed (%d) after %.0f ms", r, el);
        if (t->kind == 1) probe("connect_refused"); if (t->kind >= 2 && late) probe("connect_timeout");
        // a blackholed or overloaded host gives no answer: failing early would be as wrong as success
        if ((t->kind == 3 || t->kind == 4) && !injected) SIM_CHECK(late, "connect:early-failure", "connect to an unresponsive host failed after %.0f ms, the timeout is %d s", el, ct);
    }
    double prompt = 4e-6 * (cfg.net_latency_ns + cfg.net_jitter_ns) + TICK;
    if (t->kind <= 2) SIM_CHECK(el <= prompt + (t->kind == 0 ? 0 : 0), "connect:slow", "connect (case %d, result %d) took %.0f ms", t->kind, r, el);
    SIM_CHECK(el <= ct * 1000 + TICK, "connect:timeout-late", "connect to %s (case %d) ended after %.0f ms, the timeout is %d s", t->ip.c_str(), t->kind, el, ct);
}
// an established connection joins the two addresses it was asked to
void ends_check(kconnection *c, Tgt *t, const sockaddr_i *from) {
    sockaddr_i a, b; socklen_t l = sizeof b; memset(&a, 0, sizeof a); memset(&b, 0, sizeof b); if (c->st.fd < 0 || t->unix_() || ::getpeername(c->st.fd, (sockaddr *)&b, &l) != 0) return;   // gone already
    if (t->v6()) { in6_addr w; inet_pton(AF_INET6, t->ip.c_str(), &w); SIM_CHECK(ntohs(b.v6.sin6_port) == t->port && !memcmp(&w, &b.v6.sin6_addr, 16), "connect:wrong-peer", "a connection to port %d leads to port %d or another host", t->port, ntohs(b.v6.sin6_port)); return; }
    sockaddr_i to_ = addr4(t->ip.c_str(), t->port), *to = &to_;
    SIM_CHECK(b.v4.sin_port == to->v4.sin_port && b.v4.sin_addr.s_addr == to->v4.sin_addr.s_addr, "connect:wrong-peer", "a connection to port %d leads to port %d", ntohs(to->v4.sin_port), ntohs(b.v4.sin_port));
    SIM_CHECK(kconnection_self_addr(c, &a) == 0, "connect:self-addr", "an established connection has no local address");
    if (from) { probe("bound_connect"); SIM_CHECK(a.v4.sin_addr.s_addr == from->v4.sin_addr.s_addr && (!from->v4.sin_port || a.v4.sin_port == from->v4.sin_port), "connect:wrong-source", "a connection was not made from the local address asked for"); }
}
void echo_check(kconnection *c, Tgt *t) { if (t->kind) return; c->st.base.tmo = 100; bool ok = hello_send(c, 77); SIM_CHECK(ok, "connect:dead", "the first write on an established connection fails"); int id = hello_recv(c); SIM_CHECK(id == 77, "connect:dead", "the first read on an established connection fails"); }
}
SCENARIO(C10, connect, 3) {
    swarm(FA_EINTR | FA_STALL | FA_LATE | FA_LATENCY | FA_EAGAIN); if (W(3) == 0) cfg.p_epoll_ctl = 100;
    ct = 1 + W(3); rt = 2 + W(6); start_loops(1 + W(3), ct, rt); Baseline b;
    std::vector<Tgt *> ts; int n = 1 + W(8); open_ends = n; bool stop = false; int peers = 0, most = 0;
    for (int i = 0; i < n; i++) {
        Tgt *t = new Tgt; u32 fam = W(8); t->ip = fam == 7 ? "/tmp/c10-" + std::to_string(i) : (fam == 6 ? "fd00::" : "10.0.1.") + std::to_string(i + 1); t->port = 700 + i; t->kind = W(fam == 7 ? 2 : 7); ts.push_back(t);
        if (fam == 7) probe("unix"); if (fam == 6) probe("ipv6"); if (fam == 7 && t->kind == 1 && W(2)) { int l = peer_listen(t->ip.c_str(), 0, 4, nullptr); SIM_CHECK(l >= 0, "internal", "peer listen"); ::close(l); }   // its name is still there
        if (t->kind != 1) { peers++; auto up = std::make_shared<bool>(false);
            spawn("peer", [=, &stop, &peers] {
                int l = peer_listen(t->ip.c_str(), t->port, t->kind == 4 ? 0 : 16, nullptr); SIM_CHECK(l >= 0, "internal", "peer listen");
                int fill = -1; if (t->kind == 4) fill = peer_connect(t->ip.c_str(), t->port, true); sleep_ms(800); (void)fill; *up = true;
                if (t->kind == 4) { while (!stop) sleep_ms(50); ::close(l); if (fill >= 0) ::close(fill); peers--; return; }
                sockaddr_storage ss; socklen_t sl = sizeof ss; int fl = ::fcntl(l, F_GETFL, 0); ::fcntl(l, F_SETFL, fl | O_NONBLOCK); std::vector<int> fds;
                while (!stop) { int fd = ::accept(l, (sockaddr *)&ss, &sl); if (fd >= 0) { if (t->kind == 0) { char h[4]; if (peer_recv_exact(fd, h, 4)) peer_send(fd, h, 4); } fds.push_back(fd); } else sleep_ms(5); }
                for (int f : fds) ::close(f); ::close(l); peers--;
            });
            wait_for([=] { return *up; }, 3000, "internal", "peer listens"); }
        if (t->kind == 1 && fam != 7 && W(2)) net_host(t->ip.c_str(), HOST_REFUSE);
        if (t->kind == 2) net_host(t->ip.c_str(), HOST_UNREACH);
        if (t->kind == 3 || t->kind == 5) net_host(t->ip.c_str(), HOST_BLACKHOLE);
    }
    int holder = peer_listen("10.0.0.1", 699, 4, nullptr); SIM_CHECK(holder >= 0, "internal", "peer listen");   // a local port in use
    for (int i = 0; i < n; i++) {
        Tgt *t = ts[i]; kselector *s = L(W(3)); bool cb = W(2), v4 = !t->unix_() && !t->v6(), binda = W(4) == 0 && v4, busy = W(10) == 0 && v4; int bport = binda && W(2) ? 3000 + i : 0, more = W(4) ? 0 : 1 + W(3); most = std::max(most, more);   // more: timeout periods granted on top of the first
        if (t->kind == 5 || t->kind == 6) { int at = oneof(S_WORK, {1, 30, 200, 900, 1500, 2900, 990, 1010, 2000}) + W(30); spawn("fate", [=] { sleep_ms(at); net_host(t->ip.c_str(), t->kind == 5 ? HOST_OK : HOST_BLACKHOLE); }); }
        auto go_fib = [=] {
            sockaddr_i ba = addr4("10.0.0.1", busy ? 699 : bport); kconnection *c = conn_new(t->ip, t->port); c->st.base.tmo = more; u64 inj = fault_count("connect_error") + fault_count("socket_emfile") + fault_count("epoll_ctl_enomem"); Stamp st;
            int r = kfiber_net_connect(c, binda || busy ? &ba : nullptr, 0); if (busy) { SIM_CHECK(r < 0 && st.eff_ms() < TICK, "connect:busy-source", "a connect from a local port in use returned %d after %.0f ms", r, st.eff_ms()); probe("busy_source"); kfiber_net_close(c); open_ends--; return; }
            judge(c, t, r, st, inj); if (r == 0) { ends_check(c, t, binda ? &ba : nullptr); echo_check(c, t); } kfiber_net_close(c); open_ends--; };
        if (!cb) fib(s, go_fib);
        else post(s, [=] {
            kconnection *c = conn_new(t->ip, t->port); c->st.base.tmo = more; u64 inj = fault_count("connect_error") + fault_count("socket_emfile") + fault_count("epoll_ctl_enomem"); Stamp st;
            sockaddr_i ba = addr4("10.0.0.1", busy ? 699 : bport); if (!kconnection_half_connect(c, binda || busy ? &ba : nullptr, 0)) { if (busy) { probe("busy_source"); kconnection_destroy(c); open_ends--; return; } judge(c, t, -1, st, inj); kconnection_destroy(c); open_ends--; return; }
            SIM_CHECK(!busy, "connect:busy-source", "a connect from a local port in use goes ahead"); selectable_bind(&c->st, s); CbConn *k = new CbConn; k->c = c;
            k->done = [=](int r) { judge(c, t, r, st, inj); auto fin = [=] { if (r == 0) { ends_check(c, t, binda ? &ba : nullptr); echo_check(c, t); } kfiber_net_close(c); delete k; open_ends--; }; fib(s, fin); };
            kconnection_connect(c, on_conn, k); });
        if (W(2)) sleep_ms(W(60));
    }
    wait_for([&] { return open_ends == 0; }, ct * (most + 1) * 1000 + 3000, "connect:blocked", "every connect ends");
    ::close(holder); stop = true; for (auto t : ts) net_host(t->ip.c_str(), HOST_OK);
    wait_for([&] { return peers == 0; }, 3000, "internal", "peers end");
    wait_for([&] { return kfiber_get_count() == b.fibers; }, 3000, "connect:fiber-left", "fibers end");
    loops_respond(); check_clean(b, CL_FD | CL_HEAP | CL_FIBER | CL_COUNT, "connect");
}
// ------------------------------------------------------------------ the same from plain threads, one socket at a time
SCENARIO(C10, blocking, 1) {
    swarm(FA_EINTR | FA_STALL | FA_LATE | FA_LATENCY | FA_EAGAIN); Baseline b;
    std::vector<int> pad; if (W(6) == 5) { probe("many_descriptors"); for (int i = 0; i < 1000; i++) pad.push_back(::eventfd(0, 0)); }
    int n = 1 + W(5), open_ = n, peers = 0; bool stop = false; auto injected = [] { return fault_count("connect_error") + fault_count("socket_emfile"); };
    int holder = peer_listen("10.0.0.1", 699, 4, nullptr); SIM_CHECK(holder >= 0, "internal", "peer listen");
    for (int i = 0; i < n; i++) {
        Tgt *t = new Tgt; u32 fam = W(6); t->ip = fam == 5 ? "/tmp/c10-" + std::to_string(i) : (fam == 4 ? "fd00::" : "10.0.1.") + std::to_string(i + 1); t->port = 700 + i; t->kind = W(fam == 5 ? 2 : 5);
        int tmo = t->kind < 3 ? W(4) : 1 + W(3), idle = 1 + W(2), pause = W(2) ? 0 : 1 + W(900); bool busy = W(10) == 0 && fam < 4, binda = busy || (W(4) == 0 && fam < 4); int bport = busy ? 699 : W(2) ? 3000 + i : 0; bool speaks = W(2), ends = W(2);
        if (fam == 5 && t->kind == 1 && W(2)) { int l = peer_listen(t->ip.c_str(), 0, 4, nullptr); SIM_CHECK(l >= 0, "internal", "peer listen"); ::close(l); }
        if (t->kind != 1) { peers++; auto up = std::make_shared<bool>(false);
            spawn("peer", [=, &stop, &peers] {
                int l = peer_listen(t->ip.c_str(), t->port, t->kind == 4 ? 0 : 4, nullptr), fill = -1; SIM_CHECK(l >= 0, "internal", "peer listen"); if (t->kind == 4) { fill = peer_connect(t->ip.c_str(), t->port, true); sleep_ms(800); } *up = true;
                if (t->kind == 0 && !busy) { ::fcntl(l, F_SETFL, O_NONBLOCK); int fd = -1; while (!stop && (fd = ::accept(l, nullptr, nullptr)) < 0) sleep_ms(5);
                    char h[4]; if (fd >= 0 && peer_recv_exact(fd, h, 4)) { peer_send(fd, h, 4); if (peer_recv_exact(fd, h, 1)) { if (pause) sleep_ms(pause); if (speaks) peer_send(fd, h, 1); else if (ends) { ::close(fd); fd = -1; } } } while (!stop) sleep_ms(20); if (fd >= 0) ::close(fd); }
                while (!stop) sleep_ms(20); ::close(l); if (fill >= 0) ::close(fill); peers--; });
            wait_for([=] { return *up; }, 3000, "internal", "peer listens"); }
        if (t->kind == 1 && fam < 5 && W(2)) net_host(t->ip.c_str(), HOST_REFUSE);
        if (t->kind == 2) net_host(t->ip.c_str(), HOST_UNREACH); if (t->kind == 3) net_host(t->ip.c_str(), HOST_BLACKHOLE);
        spawn("caller", [=, &open_] {
            union { sockaddr_i a; sockaddr_un u; } x; memset(&x, 0, sizeof x); if (fam == 5) { x.u.sun_family = AF_UNIX; strcpy(x.u.sun_path, t->ip.c_str()); } else if (fam == 4) { x.a.v6.sin6_family = AF_INET6; x.a.v6.sin6_port = htons(t->port); inet_pton(AF_INET6, t->ip.c_str(), &x.a.v6.sin6_addr); } else x.a = addr4(t->ip.c_str(), t->port);
            sockaddr_i ba = addr4("10.0.0.1", bport); u64 inj = injected(); Stamp st; int fd = ksocket_connect(&x.a, binda ? &ba : nullptr, tmo); double el = st.eff_ms(), lo = st.ms(), prompt = 4e-6 * (cfg.net_latency_ns + cfg.net_jitter_ns) + 100; bool late = tmo && lo >= tmo * 1000 - 5, hurt = injected() != inj; count_op(); hash_event(0xc1, fd >= 0);
            SIM_CHECK(!tmo || el <= tmo * 1000 + 100, "connect:timeout-late", "a blocking connect to %s (case %d) ended after %.0f ms, the timeout is %d s", t->ip.c_str(), t->kind, el, tmo);
            if (busy) { SIM_CHECK(fd < 0 && el < 100, "connect:busy-source", "a blocking connect from a local port in use returned %d after %.0f ms", fd, el); open_--; return; }
            if (t->kind < 3) SIM_CHECK(el <= prompt, "connect:slow", "a blocking connect (case %d) took %.0f ms", t->kind, el);
            if (fd < 0) {
                SIM_CHECK(fd == -1, "connect:result", "a blocking connect returned %d", fd); SIM_CHECK(t->kind || hurt || late, "connect:false-failure", "a blocking connect to a healthy listening host failed after %.0f ms", el);
                if (t->kind >= 3 && !hurt) { SIM_CHECK(late, "connect:early-failure", "a blocking connect to an unresponsive host failed after %.0f ms, the timeout is %d s", lo, tmo); probe("blocking_timeout"); }
                open_--; return;
            }
            SIM_CHECK(sock_info(fd).was_established, "connect:false-success", "a blocking connect to %s (case %d) reported success but the connection was never established", t->ip.c_str(), t->kind); probe("blocking_ok");
            SIM_CHECK(!(::fcntl(fd, F_GETFL, 0) & O_NONBLOCK), "connect:mode", "a blocking connect returned a socket that does not block");
            if (fam < 5) { sockaddr_i a, c; socklen_t l = sizeof a, m = sizeof c; memset(&a, 0, sizeof a); memset(&c, 0, sizeof c); SIM_CHECK(::getpeername(fd, (sockaddr *)&a, &l) == 0 && ntohs(a.v4.sin_port) == t->port && !::memcmp(fam == 4 ? (void *)&a.v6.sin6_addr : (void *)&a.v4.sin_addr, fam == 4 ? (void *)&x.a.v6.sin6_addr : (void *)&x.a.v4.sin_addr, fam == 4 ? 16 : 4), "connect:wrong-peer", "a blocking connect to %s:%d leads elsewhere", t->ip.c_str(), t->port);
                if (binda) { probe("bound_connect"); SIM_CHECK(::getsockname(fd, (sockaddr *)&c, &m) == 0 && c.v4.sin_addr.s_addr == ba.v4.sin_addr.s_addr && (!bport || ntohs(c.v4.sin_port) == bport), "connect:wrong-source", "a blocking connect was not made from the local address asked for"); } }
            if (t->kind == 0) {
                char h[4] = {1, 2, 3, 4}; SIM_CHECK(::send(fd, h, 4, MSG_NOSIGNAL) == 4, "connect:dead", "the first write on an established connection fails"); memset(h, 0, 4); int k = 0; while (k < 4) { int g = ::recv(fd, h + k, 4 - k, 0); SIM_CHECK(g > 0, "connect:dead", "the first read on an established connection fails"); k += g; } SIM_CHECK(h[0] == 1 && h[3] == 4, "connect:dead", "the first answer is wrong");
                Stamp w; SIM_CHECK(wait_socket_event(fd, true, idle) && w.eff_ms() < prompt + 100, "wait:writable", "waiting for a writable socket took %.0f ms of %d s", w.eff_ms(), idle);
                ::send(fd, h, 1, MSG_NOSIGNAL); Stamp rd; bool got = wait_socket_event(fd, false, idle); double e2 = rd.eff_ms(), l2 = rd.ms(), due = pause + prompt;
                if (speaks || ends) { if (due < idle * 1000 && slack_ns() == 0) SIM_CHECK(got, "wait:missed", "waiting %d s for a socket that becomes readable after %d ms reports nothing", idle, pause); if (got) { SIM_CHECK(e2 <= due + 50, "wait:late", "a wait reports the event after %.0f ms, it came after %d", e2, pause); SIM_CHECK(sock_info(fd).rcv > 0 || !speaks, "wait:false", "a socket is reported readable and holds nothing"); } }
                else SIM_CHECK(!got, "wait:false", "a socket is reported readable after %.0f ms, nothing was sent", l2);
                if (!got) { SIM_CHECK(l2 >= idle * 1000 - 5, "wait:early", "a wait of %d s reports nothing after %.0f ms", idle, l2); SIM_CHECK(e2 <= idle * 1000 + 100, "wait:timeout-late", "a wait of %d s took %.0f ms", idle, e2); probe("wait_timeout"); }
            }
            ksocket_close(fd); open_--; });
        if (W(2)) sleep_ms(W(60));
    }
    wait_for([&] { return open_ == 0; }, 8000, "connect:blocked", "every blocking connect ends"); stop = true; ::close(holder); wait_for([&] { return peers == 0; }, 3000, "internal", "peers end"); for (int f : pad) ::close(f);
    check_clean(b, CL_FD | CL_HEAP, "connect");
}
namespace {
// ------------------------------------------------------------------ idle timeouts, resets, disappearing peers
enum Fate { FIN, RST, SILENT, GONE };
struct Pc {   // one connection between the library and a scripted peer
    int id; Fate fate; int tmo = 0; bool rtime = false, writer = false, peer_reads = true, cb = false; Pipe in; std::vector<std::pair<int, u32>> acts;  // (pause ms, bytes)
    kconnection *c = nullptr; Stamp act; bool over = false, rdone = false, wdone = true, ended_peer = false; Stamp over_at; int timeouts = 0; u64 sent_by_peer = 0; double limit() const { return (tmo + 1) * rt * 1000.0 + TICK + 200 * tmo; }
    int pending = 0; bool timed = false, rest = false, quit = false;
};
std::vector<Pc *> pcs;
int deep_read(Pc *p, char *b, int n, int depth) { volatile char pad[200]; pad[0] = depth; int r = depth > 0 ? deep_read(p, b, n, depth - 1) : kfiber_net_read(p->c, b, n); pad[1] = r; return r; }
void op_done(Pc *p, const char *what, Stamp st, bool was_alone, int got) {
    // the connection was idle since the later of the operation's start and the last activity
    double idle = std::min(st.eff_ms(), p->act.eff_ms());
    SIM_CHECK(idle <= p->limit(), "timeout:late", "%s on connection %d was pending for %.0f ms without any activity, the timeout is %d s x %d", what, p->id, idle, rt, p->tmo + 1);
    if (p->over) { double since = std::min(p->over_at.eff_ms(), st.eff_ms()); double pr = 3e-6 * (cfg.net_latency_ns + cfg.net_jitter_ns) + 250; if (p->fate == RST && got <= 0) SIM_CHECK(since <= std::max(pr, 0.0), "reset:late", "%s ended %.0f ms after the peer had reset the connection", what, since); }
    p->act = Stamp(); count_op();
}
void finish_pc(Pc *p) { if (p->rdone && p->wdone && p->c) { kconnection *c = p->c; p->c = nullptr; kfiber_net_close(c); open_ends--; } }
// a connection that reports read timeouts and has been read before: no read is pending now, so a write that makes no progress ends it
void write_only(Pc *p) {
    for (int k = P(80); k >= 0; k--) {
        u32 n = 1 + P(20000); char *b = (char *)malloc(n); memset(b, 'w', n); Stamp st; i64 t0 = now_ns(); int got = kfiber_net_write(p->c, b, n); op_done(p, "a write", st, true, got); free(b); double el = (now_ns() - t0) / 1e6;
        SIM_CHECK(got <= (int)n && got != 0, "stream:count", "a write of %u bytes returned %d", n, got); if (got > 0) continue;
        if (!p->over) { SIM_CHECK(el >= rt * 1000.0 * (p->tmo + 1) - 350 - 1e-6 * slack_ns(), "timeout:early", "a write returned %d after %.0f ms although the peer was connected and the timeout is %d s x %d", got, el, rt, p->tmo + 1); probe("write_timeout_no_reader"); } break;
    }
}
void reader(Pc *p) {
    kconnection *c = p->c; bool ended = false, burst = false, data = false; double last_wait = 0; int after_err = 0;
    for (;;) {
        if (p->rest && !ended && data && !p->timed) { write_only(p); break; }
        if (p->quit && !ended && data && P(2) == 0) { probe("reader-quits"); break; }     // a write in progress goes on alone
        u32 n = 1 + P(300); char *b = (char *)malloc(n); Stamp st; bool alone = p->pending++ == 0 && p->wdone; double idle0 = p->act.ms(); (void)idle0;
        data = false; i64 t0 = now_ns(), sl0 = slack_ns(); int got = p->rtime ? deep_read(p, b, n, P(4)) : kfiber_net_read(c, b, n); p->pending--;
        if (got == ST_ERR_TIME_OUT) {
            SIM_CHECK(p->rtime, "timeout:unasked", "a read returned the timeout code on a connection that did not enable it");
            op_done(p, "a read", st, alone, 1); p->timeouts++; probe("read_timeout_reported"); free(b);
            if (P(6) == 0 || p->timeouts > 4) { kfiber_net_shutdown(c); p->timed = true; }
            continue;
        }
        op_done(p, "a read", st, alone, got);
        double el = (now_ns() - t0) / 1e6; if (el < last_wait && got <= 0 && burst) el = last_wait; else if (el > 5) { last_wait = el; burst = true; }   // data may arrive together with the timeout: it is still read before the end is seen
        if (got > 0) { SIM_CHECK(got <= (int)n, "stream:count", "a read into %u bytes returned %d", n, got); SIM_CHECK(!ended, "stream:after-end", "data after the end of the stream"); p->in.got(b, got); free(b); data = true; continue; }
        free(b);
        if (!ended) {
            ended = true; hash_event(0xe0d, got);
            bool broken = p->over && (p->fate == RST || p->fate == GONE || p->writer); bool expected = p->over || p->timed;
            if (!expected) {   // only the idle timeout may end a connection whose peer is still there
                                SIM_CHECK(!p->rtime, "timeout:wrong-kind", "a read-timeout-enabled connection ended a read with %d while the peer was still connected", got);
                if (alone) SIM_CHECK(el >= rt * 1000.0 * (p->tmo + 1) - 350 - 1e-6 * slack_ns(), "timeout:early", "a read returned %d after %.0f ms although the peer was connected and the timeout is %d s x %d", got, el, rt, p->tmo + 1);
                probe("idle_timeout");
            } else if (p->fate == FIN && !broken && !p->timed && !p->writer) {
                SIM_CHECK(p->in.rcvd == p->sent_by_peer || el >= rt * 1000.0 - 350 - 1e-6 * slack_ns(), "stream:truncated", "end of stream after %llu of %llu bytes sent before the close", (unsigned long long)p->in.rcvd, (unsigned long long)p->sent_by_peer);
                SIM_CHECK(got == 0 || el >= rt * 1000.0 - 350 - 1e-6 * slack_ns(), "stream:eof", "the peer closed its side, the read returned %d", got);
            }
        }
        if (++after_err > 1 + (int)P(3)) break;     // an ended connection keeps answering at once
        Stamp again; (void)again;
    }
    p->rdone = true; finish_pc(p);
}
void writer(Pc *p) {
    kconnection *c = p->c; int n_err = 0, max = 3 + P(60), k = 0, late = 0;
    for (;;) {
        if (P(4) == 0) kfiber_msleep(P(4) || late++ > 2 ? P(40) : (probe("late-write"), P(rt * 900 * (p->tmo + 1))));     // a write that starts late, without progress, does not prolong an older read
        u32 n = 1 + P(6000); char *b = (char *)malloc(n); memset(b, 'w', n); Stamp st; p->pending++; int got = kfiber_net_write(c, b, n); p->pending--; op_done(p, "a write", st, false, got); free(b);
        SIM_CHECK(got <= (int)n && got != 0, "stream:count", "a write of %u bytes returned %d", n, got);
        if (got < 0) { hash_event(0xe1d, 1); if (++n_err > 1) break; }
        if (p->rdone || ++k > max) { break; }
        if (p->peer_reads && st.ms() < 1) kfiber_msleep(1 + P(20));
    }
    p->wdone = true; finish_pc(p);
}
void lib_side(kconnection *c, Pc *p) {
    p->c = c; c->st.base.tmo = p->tmo; if (p->rtime) c->st.base.st_flags |= STF_RTIME_OUT;
    p->act = Stamp();
    if (p->writer) { p->wdone = false; fib(c->st.base.selector, [p] { writer(p); }, 16384); }
    reader(p);
}
void peer_side(int fd, Pc *p, const char *ip) {
    while (!p->c && !p->rdone) sleep_ms(2);
    bool stop_read = false; int me = self(); bool rd_on = p->peer_reads; bool rd_end = !rd_on; 
    if (rd_on) spawn("peer-reader", [&, fd] { peer_adopt(me); char b[512]; int fl = ::fcntl(fd, F_GETFL, 0); (void)fl; while (!stop_read) { ssize_t r = ::recv(fd, b, sizeof b, MSG_DONTWAIT); if (r == 0 || (r < 0 && errno != EAGAIN)) break; if (r < 0) sleep_ms(3); } rd_end = true; });
    bool broken = false;
    for (auto &a : p->acts) {
        sleep_ms(a.first); if (!a.second) continue;
        std::string d(a.second, 0); patfill(p->in.seed, p->in.promised, &d[0], a.second); p->in.promised += a.second;
        if (!peer_send(fd, d.data(), d.size())) { broken = true; break; }
        p->sent_by_peer = p->in.promised;
    }
    (void)broken;
    if (p->fate == GONE) { net_host(ip, HOST_BLACKHOLE); fault("peer_disappears"); }
    if (p->fate == SILENT || p->fate == GONE) { p->ended_peer = p->fate == GONE; if (p->fate == GONE) { p->over = true; p->over_at = Stamp(); } while (p->c || !p->rdone) sleep_ms(20); }
    stop_read = true; while (!rd_end) sleep_ms(1);
    if (p->fate == FIN || p->fate == RST) { p->over = true; p->over_at = Stamp(); if (p->fate == RST) fault("peer_reset"); else fault("peer_close"); }
    if (p->fate == RST) peer_close_rst(fd); else ::close(fd);
}
void broken_peers(bool rtime_mode) {
    swarm(FA_EINTR | FA_STALL | FA_LATE | FA_LATENCY | FA_NET | FA_SHORT); if (W(3) == 0) { cfg.sndbuf = 4096; cfg.rcvbuf = 4096; }
    ct = 2; rt = 1 + W(4); start_loops(1 + W(3), ct, rt); Baseline b; int peers = 0;
    Srv srv; srv.on = [&](kconnection *c) { fib(c->st.base.selector, [c] { c->st.base.tmo = 100; int id = hello_recv(c); SIM_CHECK(id >= 0 && id < (int)pcs.size(), "stream:content", "a connection announced itself as %d", id); lib_side(c, pcs[id]); }, 16384); };
    SIM_CHECK(srv.bind("127.0.0.1", 0), "server:bind", "kserver_bind fails"); post_wait(L(0), [&] { SIM_CHECK(srv.open(), "server:open", "kserver_open fails"); });
    int n = 1 + W(4); open_ends = n;
    for (int i = 0; i < n; i++) {
        Pc *p = new Pc; p->id = i; p->in.seed = 11 + i; p->in.total = 1 << 30; p->in.name = "conn" + std::to_string(i); p->tmo = W(4) == 0 ? 1 + W(5) : 0; p->rtime = rtime_mode || W(6) == 0; p->writer = !p->rtime && W(3) == 0; p->peer_reads = !p->writer || W(2); p->quit = p->writer && W(3) == 0; p->rest = p->rtime && W(3) == 1; if (p->rest && W(3)) p->peer_reads = false;
        int k = W(6); for (int j = 0; j < k; j++) { int pause = oneof(S_WORK, {5, 0, 40, 300, rt * 1000 - 400, rt * 700}); if (p->rtime && W(2)) pause = oneof(S_WORK, {rt * 1000, rt * 1000 + 100, rt * 2300, rt * 1000 - 60}); p->acts.push_back({pause, W(5) ? 1 + W(2000) : 0}); }
        bool client = W(2); p->fate = (Fate)W(client ? 4 : 3); pcs.push_back(p);
        std::string ip = client ? "10.0.2." + std::to_string(i + 1) : "127.0.0.1";
        if (client) {
            auto port = std::make_shared<int>(0); peers++;
            spawn("peer", [=, &peers] { int l = peer_listen(ip.c_str(), 0, 8, port.get()); int fd = ::accept(l, nullptr, nullptr); ::close(l); char h[4]; SIM_CHECK(peer_recv_exact(fd, h, 4), "stream:read-failed", "the connection ended before its first bytes"); peer_side(fd, p, ip.c_str()); peers--; });
            wait_for([=] { return *port; }, 1000, "internal", "peer listens");
            kselector *s = L(W(3)); fib(s, [=] { kconnection *c; sockaddr_i a = addr4(ip.c_str(), *port); i64 t0 = now_ns(); int r = conn_open(&c, &a); if (r != 0 && (now_ns() - t0 + slack_ns()) / 1e6 > ct * 1000 - 400) finish(); SIM_CHECK(r == 0, "connect:false-failure", "a connect to a listening host returned %d", r); c->st.base.tmo = 100; bool ok = hello_send(c, i); SIM_CHECK(ok, "stream:write-failed", "the first write fails"); lib_side(c, p); }, 16384);
        } else { peers++; spawn("peer", [=, &peers, &srv] { int fd = peer_connect("127.0.0.1", srv.port); SIM_CHECK(fd >= 0, "server:refused", "an open server refuses a connection"); char h[4] = {(char)i, 0, (char)~i, 'h'}; peer_send(fd, h, 4); peer_side(fd, p, "127.0.0.1"); peers--; }); }
        if (W(2)) sleep_ms(W(100));
    }
    i64 total = 0; for (auto p : pcs) { i64 s = 0; for (auto &a : p->acts) s += a.first; total = std::max(total, s + (p->tmo + 2) * 8 * rt * 1000); }
    wait_for([&] { return open_ends == 0 && peers == 0; }, total + 30000, "timeout:blocked", "connections to broken peers end");
    for (auto p : pcs) net_host(("10.0.2." + std::to_string(p->id + 1)).c_str(), HOST_OK);
    srv.close(); srv.release(); wait_for([&] { return srv.freed == 1; }, 3000, "server:not-freed", "a closed server without users is freed");
    wait_for([&] { return kfiber_get_count() == b.fibers; }, 3000, "timeout:fiber-left", "fibers end");
    loops_respond(); check_clean(b, CL_FD | CL_HEAP | CL_FIBER | CL_COUNT, "timeout");
}
}
SCENARIO(C10, broken_peers, 3) { broken_peers(false); }
SCENARIO(C10, read_timeouts, 2) { broken_peers(true); }
// a pending read times out counted from its start: a write that begins later and makes no progress does not prolong it, whatever the loop's other connections do
SCENARIO(C10, late_write, 1) {
    swarm(FA_EINTR | FA_STALL | FA_LATE | FA_LATENCY); cfg.sndbuf = 4096; cfg.rcvbuf = 4096; i64 t = 1 + W(3); start_loops(1 + W(2), 2, (int)t); Baseline b; int n = 1 + W(4), left = 0, peers = 0; bool stop = false;
    for (int i = 0; i < n; i++) {
        std::string ip = "10.0.8." + std::to_string(i + 1); auto port = std::make_shared<int>(0); int tmo = W(3) ? 0 : 1 + W(2); i64 T = t * 1000 * (tmo + 1), pause = T * (20 + W(75)) / 100, first = W(3) ? W(T / 4) : 0; u32 n1 = 1 + W(8000), more = W(3), how = W(3); bool rev = W(3) == 0; peers++; left += 2;     // rev: the write blocks first, the read begins late
        spawn("peer", [=, &stop, &peers] { int l = peer_listen(ip.c_str(), 0, 4, port.get()), fd = ::accept(l, nullptr, nullptr); while (!stop) sleep_ms(20); ::close(fd); ::close(l); peers--; });
        wait_for([=] { return *port; }, 1000, "internal", "peer listens");
        fib(L(W(2)), [=, &left] {
            kconnection *c; sockaddr_i a = addr4(ip.c_str(), *port); int r = conn_open(&c, &a); if (r != 0) finish(); c->st.base.tmo = tmo; struct Sh { int users = 2; Stamp st, prog; bool ended = false; }; auto sh = std::make_shared<Sh>(); sh->st = Stamp(); double limit = T + TICK + 200 * tmo;
            auto done = [=, &left] { if (--sh->users == 0) kfiber_net_close(c); left--; };
            fib(c->st.base.selector, [=] {
                if (first) kfiber_msleep(first); char w[9000]; memset(w, 'w', sizeof w); int got = 1; u32 len = n1; bool full = false;
                for (int k = 0; rev && k < 400 && got > 0; k++) { Stamp ws; sh->prog = Stamp(); got = kfiber_net_write(c, w, 9000); double e = ws.eff_ms(); if (got < 0 && !sh->ended) { probe("write_blocks_first"); SIM_CHECK(e <= limit, "timeout:late", "a write without progress ended after %.0f ms, the timeout is %lld ms", e, (long long)T); } if (e < 5) kfiber_msleep(20); }
                if (rev) { sh->ended = true; done(); return; }
                for (int round = 0; round < 2 && got > 0; round++) { full = false; for (int k = 0; k < 400 && !full && !sh->ended; k++) { got = kfiber_net_write(c, w, len); if (got <= 0) break; sh->prog = Stamp(); full = got < (int)len; len = 9000; } if (full) kfiber_msleep(100 + 2e-6 * (cfg.net_latency_ns + cfg.net_jitter_ns)); }
                for (u32 k = 0; k <= more && full && got > 0 && !sh->ended; k++) { kfiber_msleep(k ? T / 8 : std::max<i64>(pause - first, 1)); if (sh->ended) break; Stamp ws;
                    if (how == 0) { kgl_iovec v[2] = {{w, 100}, {w + 100, 8000}}; got = kfiber_net_writev(c, v, 2); } else got = kfiber_net_write(c, w, how == 1 ? 1 : 9000);
                    if (got > 0) { sh->prog = Stamp(); continue; } probe("write_without_progress"); double e = std::min(ws.eff_ms(), sh->prog.eff_ms()); SIM_CHECK(e <= limit, "timeout:late", "a write without progress ended after %.0f ms, the timeout is %lld ms", e, (long long)T); }
                done(); }, 32768);
            if (rev) kfiber_msleep(pause); char ch[8]; sh->st = Stamp(); double eff, el; bool wrote = sh->ended; int got = kfiber_net_read(c, ch, sizeof ch); eff = std::min(sh->st.eff_ms(), sh->prog.eff_ms()); el = sh->st.ms(); count_op(); SIM_CHECK(got <= 0, "stream:content", "a silent peer sent %d bytes", got); if (rev) { SIM_CHECK(eff <= (wrote ? 300 : limit), "timeout:late", "a read ended after %.0f ms, the timeout is %lld ms", eff, (long long)T); done(); return; } sh->ended = true;
            SIM_CHECK(eff <= limit, "timeout:late", "a read of a silent peer ended after %.0f ms, the timeout is %lld ms", eff, (long long)T); SIM_CHECK(el >= T - 350 - 1e-6 * slack_ns(), "timeout:early", "a read of a silent peer ended after %.0f ms, the timeout is %lld ms", el, (long long)T); done();
        }, 16384);
    }
    wait_for([&] { return left == 0; }, 60000, "timeout:blocked", "operations on silent peers end"); stop = true; wait_for([&] { return peers == 0; }, 3000, "internal", "peers end");
    wait_for([&] { return kfiber_get_count() == b.fibers; }, 3000, "timeout:fiber-left", "fibers end"); loops_respond(); check_clean(b, CL_FD | CL_HEAP | CL_FIBER | CL_COUNT, "timeout");
}
// the timeouts are changed while operations wait: from then on the new ones count
SCENARIO(C10, changed, 1) {
    swarm(FA_EINTR | FA_STALL | FA_LATE | FA_LATENCY); i64 c1 = 1 + W(6), r1 = 1 + W(6), ck = W(6), rk = 1 + W(6); if (W(8) == 0) rk = 0; i64 r2 = (rk ? rk : 60) * 1000, c2 = ck ? ck * 1000 : r2; c1 *= 1000; r1 *= 1000;
    start_loops(1 + W(3), c1 / 1000, r1 / 1000); Baseline b; int n = 1 + W(6), left = n, peers = 0; bool stop = false, changed = false; Stamp began; double T = 1e18;
    for (int i = 0; i < n; i++) {
        bool con = W(2); i64 delay = W(4) ? W(3000) : 0, again = 1 + W(2); std::string ip = (con ? "10.0.6." : "10.0.7.") + std::to_string(i + 1); auto port = std::make_shared<int>(700); if (con) net_host(ip.c_str(), HOST_BLACKHOLE);
        else { *port = 0; peers++; spawn("peer", [=, &stop, &peers] { int l = peer_listen(ip.c_str(), 0, 8, port.get()); std::vector<int> fds; ::fcntl(l, F_SETFL, O_NONBLOCK); while (!stop) { int fd = ::accept(l, nullptr, nullptr); if (fd >= 0) fds.push_back(fd); else sleep_ms(20); } for (int f : fds) ::close(f); ::close(l); peers--; }); wait_for([=] { return *port; }, 1000, "internal", "peer listens"); }
        fib(L(W(3)), [=, &left, &T, &began] {
            if (delay) kfiber_msleep(delay);
            for (int k = 0; k < again; k++) {
                kconnection *c; sockaddr_i a = addr4(ip.c_str(), *port); Stamp st; double S = began.ms(); i64 t1 = c1, t2 = c2; int r = conn_open(&c, &a);
                if (!con && r == 0) { t1 = r1; t2 = r2; st = Stamp(); S = began.ms(); char ch[8]; int got = kfiber_net_read(c, ch, sizeof ch); SIM_CHECK(got <= 0, "stream:content", "a silent peer sent %d bytes", got); }
                else SIM_CHECK(r != 0, "connect:false-success", "a connect to a host that does not answer succeeded");
                double el = st.ms(), eff = st.eff_ms(), m = TICK + 1e-6 * slack_ns(), e1 = t1, e2 = std::max(T - S, (double)t2), lo, hi; count_op();
                if (S + t1 < T - m) lo = hi = e1; else if (S >= T || S + t1 > T + m) lo = hi = S >= T ? t2 : e2; else { lo = std::min(e1, e2); hi = std::max(e1, e2); }
                if (con || r == 0) { SIM_CHECK(el >= lo - m, "timeout:early", "%s ended after %.0f ms, the timeout was %lld ms and became %lld ms after %.0f ms of it", con ? "a connect" : "a read", el, (long long)t1, (long long)t2, T - S);
                    SIM_CHECK(eff <= hi + m, "timeout:late", "%s ended after %.0f ms, the timeout was %lld ms and became %lld ms after %.0f ms of it", con ? "a connect" : "a read", el, (long long)t1, (long long)t2, T - S); probe(S >= T ? "timeout_changed_before" : T < S + el ? "timeout_changed_during" : "timeout_changed_after"); }
                if (r == 0) kfiber_net_close(c);
            }
            left--; });
    }
    sleep_ms(W(7000)); u32 who = W(3); auto set = [=, &T, &began, &changed] { selector_manager_set_timeout((int)ck, (int)rk); T = began.ms(); changed = true; }; if (who == 0) set(); else if (who == 1) post(L(0), set); else fib(L(W(3)), set);
    wait_for([&] { return left == 0 && changed; }, 200000, "timeout:blocked", "operations on silent peers end"); stop = true; wait_for([&] { return peers == 0; }, 3000, "internal", "peers end");
    wait_for([&] { return kfiber_get_count() == b.fibers; }, 3000, "timeout:fiber-left", "fibers end"); loops_respond(); check_clean(b, CL_FD | CL_HEAP | CL_FIBER | CL_COUNT, "timeout");
}
