// C19: UDP datagrams are received whole, once, with their sender.
#include "net.h"
namespace {
struct Dg { int to; std::string data; std::string from, dst; int got = 0; };
std::map<u32, Dg> sent; u32 next_id; std::map<int, int> zero_sent, zero_got;   // datagrams by id; empty ones by receiving socket
struct End { int idx; kconnection *uc = nullptr; int fd = -1; sockaddr_i addr; kselector *s = nullptr; bool lib, v6, pk, cb, any = false, stop = false, done = false; u64 rcvd = 0; int errs = 0; std::vector<kgl_iovec> iov; kgl_iovec vec; std::string buf; int bufsz; Stamp *last = nullptr; std::string name() const { return (lib ? "socket " : "peer ") + std::to_string(idx); } };
std::vector<End *> es; u64 n_sent, n_rcvd;
std::string astr(const sockaddr_i *a) { char b[80] = "?"; if (a->v4.sin_family == AF_INET) inet_ntop(AF_INET, &a->v4.sin_addr, b, sizeof b); else if (a->v4.sin_family == AF_INET6) inet_ntop(AF_INET6, &a->v6.sin6_addr, b, sizeof b); return std::string(b) + ":" + std::to_string(ntohs(a->v4.sin_family == AF_INET6 ? a->v6.sin6_port : a->v4.sin_port)); }
std::string make(int to, const std::string &from, u32 len, u32 *idp) { u32 id = ++next_id; *idp = id; std::string d(len, 0); patfill(id * 7 + 1, 0, &d[0], len); for (u32 i = 0; i < 4 && i < len; i++) d[i] = (char)(id >> (8 * i)); sent[id] = Dg{to, d, from}; return d; }
u32 dglen() { return oneof<u32>(S_WORK, {100, 4, 5, 1472, 1473, 9000, 65507, 700}); }
void received(End *e, const char *p, i64 n, i64 cap, const std::string &from) {
    n_rcvd++; e->rcvd++; e->last = new Stamp; count_op(); hash_event(0x1901, n); 
    SIM_CHECK(n >= 0 && n <= cap, "udp:count", "%s: a receive into %lld bytes reports %lld", e->name().c_str(), (long long)cap, (long long)n);
    if (n == 0) { SIM_CHECK(zero_sent[e->idx] > 0, "udp:invented", "%s: an empty datagram is reported that nobody sent", e->name().c_str()); zero_got[e->idx]++; return; }
    SIM_CHECK(n >= 4, "udp:invented", "%s: a datagram of %lld bytes is reported", e->name().c_str(), (long long)n); u32 id = 0; for (int i = 0; i < 4; i++) id |= (u32)(u8)p[i] << (8 * i);
    auto it = sent.find(id); SIM_CHECK(it != sent.end() && it->second.to == e->idx, "udp:invented", "%s: a datagram is reported that was not sent to it", e->name().c_str()); Dg &d = it->second;
    SIM_CHECK(n == std::min<i64>(cap, d.data.size()), "udp:size", "%s: a datagram of %zu bytes received into %lld is reported as %lld", e->name().c_str(), d.data.size(), (long long)cap, (long long)n);
    SIM_CHECK(!memcmp(p, d.data.data(), n), "udp:content", "%s: a datagram arrives modified", e->name().c_str()); SIM_CHECK(from == d.from, "udp:source", "%s: the source of a datagram is reported as %s, it was %s", e->name().c_str(), from.c_str(), d.from.c_str());
    SIM_CHECK(++d.got <= (cfg.p_udp_dup ? 2 : 1), "udp:twice", "%s: one datagram is reported %d times", e->name().c_str(), d.got);
}
// one receive through the library; got is its result
void lib_got(End *e, i64 got) {
    int inj = udp_recv_errors(e->uc->st.fd) - e->errs; e->errs += inj;
    SIM_CHECK(got >= 0 || inj == 1, "udp:failed", "a receive fails with %lld", (long long)got); SIM_CHECK(got < 0 || inj == 0, "udp:error-hidden", "a receive that failed reports %lld", (long long)got);
    if (got < 0) { for (auto &v : e->iov) for (size_t i = 0; i < v.iov_len; i++) SIM_CHECK(((char *)v.iov_base)[i] == (char)0xA5, "udp:overrun", "a receive that fails changed its buffer"); return; }
    std::string data; i64 cap = 0, left = got; for (auto &v : e->iov) { cap += v.iov_len; i64 m = std::min<i64>(left, v.iov_len); data.append((char *)v.iov_base, m); left -= m; }
    i64 o = 0; for (auto &v : e->iov) { for (i64 i = 0; i < (i64)v.iov_len; i++, o++) if (o >= got) SIM_CHECK(((char *)v.iov_base)[i] == (char)0xA5, "udp:overrun", "a receive that reports %lld bytes changed byte %lld of its buffer", (long long)got, (long long)o); }
    received(e, data.data(), got, cap, astr(&e->uc->addr));
    if (e->pk) { sockaddr_i d; memset(&d, 0, sizeof d); d.v4.sin_family = e->v6 ? AF_INET6 : AF_INET; int r = kudp_get_recvaddr(e->uc, (struct sockaddr *)&d); u32 id = 0; for (int i = 0; i < 4 && got; i++) id |= (u32)(u8)data[i] << (8 * i); std::string is = astr(&d); is = is.substr(0, is.rfind(':'));
        bool ok = r == 0 && (got ? is == sent[id].dst : e->v6 ? is == "::1" : is.substr(0, 8) == "127.0.0."); SIM_CHECK(ok, "udp:local-address", "the address a datagram was sent to is reported as %s (%d)", is.c_str(), r); probe(e->v6 ? "local_address_v6" : "local_address"); }
}
void prep(End *e) { for (auto &v : e->iov) free(v.iov_base); e->iov.clear(); int k = P(3) == 0 ? 1 + P(4) : 1; i64 left = e->bufsz; for (int i = 0; i < k; i++) { i64 m = i + 1 == k ? left : P(left + 1); if (m == 0 && i + 1 < k) continue; kgl_iovec v; v.iov_base = malloc(m ? m : 1); v.iov_len = m; memset(v.iov_base, 0xA5, m); e->iov.push_back(v); left -= m; } e->vec.iov_base = (char *)e->iov.data(); e->vec.iov_len = e->iov.size(); }
void lib_done(End *e) { for (auto &v : e->iov) free(v.iov_base); e->iov.clear(); kconnection_destroy(e->uc); e->done = true; }
kev_result on_dg(KOPAQUE, void *arg, int got) {
    End *e = (End *)arg; SIM_CHECK(my_loop() == loop_index(e->s), "udp:loop", "a receive completes on another loop"); lib_got(e, got); if (e->stop) { lib_done(e); return kev_destroy; }
    if (P(4) == 0) { auto again = [e] { prep(e); selectable_read(&e->uc->st, on_dg, &e->vec, e); }; post(e->s, again); return kev_ok; }
    prep(e); return selectable_read(&e->uc->st, on_dg, &e->vec, e);
}
void lib_loop(End *e) { while (!e->stop) { prep(e); int n; if (e->iov.size() == 1 && P(2)) n = kfiber_net_read(e->uc, (char *)e->iov[0].iov_base, e->iov[0].iov_len); else n = kfiber_net_readv(e->uc, e->iov.data(), e->iov.size()); lib_got(e, n); if (P(6) == 0) kfiber_msleep(P(10)); } lib_done(e); }
bool open_end(End *e) {
    int fl = (e->v6 ? KSOCKET_ONLY_IPV6 : 0) | (e->pk ? KSOCKET_IP_PKTINFO : 0); e->uc = kudp_new2(fl, e->s); if (!e->uc) return false;
    sockaddr_i a; memset(&a, 0, sizeof a); if (e->v6) { a.v6.sin6_family = AF_INET6; a.v6.sin6_port = htons(7000 + e->idx); a.v6.sin6_addr = in6addr_loopback; } else { e->any = W(2) && e->pk; a = addr4(e->any ? "0.0.0.0" : "127.0.0.1", 7000 + e->idx); }
    SIM_CHECK(kudp_bind(e->uc, &a), "udp:bind", "a free port cannot be bound"); if (!e->v6) a = addr4("127.0.0.1", 7000 + e->idx); e->addr = a; return true;
}
void send_from(End *f, End *t, u32 len) {
    if (f->v6 != t->v6) return; u32 id = 0; std::string d; if (len == 0) zero_sent[t->idx]++; else d = make(t->idx, astr(&f->addr), std::max(4u, len), &id);
    sockaddr_i to = t->addr; if (t->any && P(2)) to.v4.sin_addr.s_addr = htonl(INADDR_LOOPBACK + P(3)); if (len) { std::string x = astr(&to); sent[id].dst = x.substr(0, x.rfind(':')); }
    u64 e0 = udp_errors_self(); char *b = (char *)malloc(d.size() + 1); memcpy(b, d.data(), d.size()); socklen_t al = f->v6 ? sizeof(sockaddr_in6) : sizeof(sockaddr_in);
    bool ok; if (!f->lib) ok = ::sendto(f->fd, b, d.size(), 0, (struct sockaddr *)&to, al) == (ssize_t)d.size(); else if (P(2)) ok = kudp_send_to(f->uc, &to, b, d.size()); else { int r = kudp_send(f->uc, (struct sockaddr *)&to, al, b, d.size()); SIM_CHECK(r < 0 || r == (int)d.size(), "udp:send-count", "a send of %zu bytes reports %d", d.size(), r); ok = r >= 0; }
    free(b); bool inj = udp_errors_self() > e0; SIM_CHECK(ok != inj, "udp:send", "a send that %s is reported as %s", inj ? "failed" : "succeeded", ok ? "done" : "failed"); if (ok) n_sent++; else if (len == 0) zero_sent[t->idx]--; else sent.erase(id);
}
i64 lost() { return (i64)fault_count("udp_loss") + fault_count("udp_queue_full") - (i64)fault_count("udp_dup"); }
}
static void c19(bool idle) {
    swarm(FA_STALL | FA_LATE | FA_LATENCY | FA_EINTR); if (W(2)) cfg.p_eagain = lvl({0, 60, 300}); if (W(2)) cfg.p_udp_loss = lvl({0, 60, 300}); if (W(2)) cfg.p_udp_dup = lvl({0, 60, 300}); if (W(2)) cfg.p_udp_recv_err = lvl({0, 60, 300});
    start_loops(1 + W(3)); Baseline b; int nl = 1 + W(3), np = W(3) + (nl == 1);
    for (int i = 0; i < nl + np; i++) { End *e = new End; e->idx = i; e->lib = i < nl; e->v6 = W(5) == 0; e->pk = e->lib && W(2); e->cb = W(2); e->bufsz = W(3) ? 66000 : (int)oneof<u32>(S_WORK, {2000, 4, 100}); es.push_back(e); }
    for (auto e : es) {
        if (e->lib) { e->s = L(W(3)); bool ok = false; SIM_CHECK(post_wait(e->s, [&] { ok = open_end(e); }) && ok, "udp:open", "a socket cannot be opened"); }
        else { e->fd = ::socket(e->v6 ? AF_INET6 : AF_INET, SOCK_DGRAM, 0); sockaddr_i a; memset(&a, 0, sizeof a); if (e->v6) { a.v6.sin6_family = AF_INET6; a.v6.sin6_port = htons(7000 + e->idx); a.v6.sin6_addr = in6addr_loopback; } else a = addr4("127.0.0.1", 7000 + e->idx); e->addr = a; SIM_CHECK(::bind(e->fd, (struct sockaddr *)&a, e->v6 ? sizeof(sockaddr_in6) : sizeof(sockaddr_in)) == 0, "internal", "peer bind"); }
    }
    int me = self();
    for (auto e : es) {
        if (!e->lib) spawn("peer", [e, me] { peer_adopt(me); while (!e->stop) { std::string buf(66000, 0); sockaddr_i a; memset(&a, 0, sizeof a); socklen_t l = sizeof a; ssize_t n = ::recvfrom(e->fd, &buf[0], buf.size(), 0, (struct sockaddr *)&a, &l); received(e, buf.data(), n, buf.size(), astr(&a)); } e->done = true; });
        else if (e->cb) post(e->s, [e] { prep(e); selectable_read(&e->uc->st, on_dg, &e->vec, e); });
        else fib(e->s, [e] { lib_loop(e); }, 131072);
    }
    auto arrived = [] { return (i64)n_rcvd >= (i64)n_sent - lost(); }; i64 lat = (cfg.net_latency_ns + cfg.net_jitter_ns) / MS;
    int phases = 1 + W(3);
    for (int ph = 0; ph < phases; ph++) {
        if (ph && (idle ? true : W(8) == 0)) { sleep_ms(oneof<int>(S_WORK, {70000, 130000, 61000})); probe("idle"); }
        int fin = 0, n = 0; for (auto e : es) { int k = 1 + W(8); n++; auto job = [=, &fin] { for (int i = 0; i < k; i++) { End *t = es[W(es.size())]; if (t != e) { send_from(e, t, P(12) == 0 ? 0 : dglen()); } if (!e->lib) { if (P(3) == 0) sleep_ms(P(20)); } else if (P(3) == 0) kfiber_msleep(P(20)); } fin++; };
            if (e->lib) fib(e->s, job, 131072); else spawn("sender", [=] { peer_adopt(me); job(); }); }
        wait_for([&] { return fin == n; }, 20000, "udp:send-blocked", "sends return");
        Stamp st; while (!arrived()) { SIM_CHECK(st.eff_ms() < 2500 + 3 * lat, "udp:missing", "%llu datagrams sent, %lld lost on the way and %llu received", (unsigned long long)n_sent, (long long)lost(), (unsigned long long)n_rcvd); sleep_ms(2); }
    }
    settle(200 + 3 * lat); SIM_CHECK((i64)n_rcvd == (i64)n_sent - lost(), "udp:count", "%llu datagrams sent, %lld lost on the way and %llu received", (unsigned long long)n_sent, (long long)lost(), (unsigned long long)n_rcvd);
    for (auto &z : zero_got) SIM_CHECK(z.second <= zero_sent[z.first] * 2, "udp:invented", "%d empty datagrams received, %d sent", z.second, zero_sent[z.first]);
    cfg.p_udp_loss = cfg.p_udp_dup = cfg.p_udp_recv_err = cfg.p_eagain = 0; for (auto e : es) e->stop = true;
    { int k4 = ::socket(AF_INET, SOCK_DGRAM, 0), k6 = ::socket(AF_INET6, SOCK_DGRAM, 0); sockaddr_i a4 = addr4("127.0.0.1", 9999), a6; memset(&a6, 0, sizeof a6); a6.v6.sin6_family = AF_INET6; a6.v6.sin6_port = htons(9999); a6.v6.sin6_addr = in6addr_loopback; ::bind(k4, (struct sockaddr *)&a4, sizeof(sockaddr_in)); ::bind(k6, (struct sockaddr *)&a6, sizeof(sockaddr_in6));
    for (auto e : es) { u32 id; std::string d = make(e->idx, astr(e->v6 ? &a6 : &a4), 4, &id); sent[id].dst = e->v6 ? "::1" : "127.0.0.1"; ::sendto(e->v6 ? k6 : k4, d.data(), d.size(), 0, (struct sockaddr *)&e->addr, e->v6 ? sizeof(sockaddr_in6) : sizeof(sockaddr_in)); }
    wait_for([] { for (auto e : es) if (!e->done) return false; return true; }, 3000 + 3 * lat, "udp:missing", "the last datagrams arrive"); ::close(k4); ::close(k6); for (auto e : es) if (!e->lib) ::close(e->fd); }
    wait_for([&] { return kfiber_get_count() == b.fibers; }, 3000, "udp:fiber-left", "fibers end"); loops_respond(); check_clean(b, CL_FD | CL_HEAP | CL_FIBER | CL_COUNT, "udp");
}
SCENARIO(C19, exchange, 4) { c19(false); }
SCENARIO(C19, idle, 1) { c19(true); }
SCENARIO(C19, open_errors, 1) {
    start_loops(1); Baseline b; bool done = false; int lim = W(2);
    post(L(0), [&] { if (lim) { fd_limit(lib_open_fds()); SIM_CHECK(!kudp_new(W(2) ? KSOCKET_IP_PKTINFO : 0), "udp:open", "a socket without a descriptor is opened"); fd_limit(0); }
        kconnection *u = kudp_new(W(2) ? KSOCKET_IP_PKTINFO : 0); SIM_CHECK(u, "udp:open", "a socket cannot be opened"); sockaddr_i a = addr4("127.0.0.1", 7000); SIM_CHECK(kudp_bind(u, &a), "udp:bind", "a free port cannot be bound");
        kconnection *w = kudp_new(0); SIM_CHECK(w && !kudp_bind(w, &a), "udp:bind", "a port in use is bound"); kconnection_destroy(w); kconnection_destroy(u); u = kudp_new(0); SIM_CHECK(u && kudp_bind(u, &a), "udp:bind", "a port that was closed cannot be bound"); kconnection_destroy(u); done = true; });
    wait_for([&] { return done; }, 3000, "udp:stalled", "open and close return"); check_clean(b, CL_FD | CL_HEAP | CL_FIBER | CL_COUNT, "udp");
}
