// C12: TLS connections authenticate, carry data intact and end in bounded time.
#include "tls.h"
#include <errno.h>
namespace {
std::vector<Xfer *> xs;
// ------------------------------------------------------------------ ALPN and SNI
struct CtxData { std::string name, alpn; };                    // attached to a context
void npn(SSL *, void *d, const unsigned char **out, unsigned *n) { CtxData *c = (CtxData *)d; if (!c || c->alpn.empty()) { static const unsigned char h[] = "\x08http/1.1"; *out = h; *n = 9; return; } *out = (const unsigned char *)c->alpn.data(); *n = c->alpn.size(); }
std::string alpn_list(u32 m) { static const char *p[] = {"h2", "http/1.1", "x", "spdy/3"}; std::string s; for (int i = 0; i < 4; i++) if (m >> i & 1) { s += (char)strlen(p[i]); s += p[i]; } return s; }
std::string alpn_pick(const std::string &srv, const std::string &cli) { for (size_t i = 0; i < srv.size(); i += 1 + (u8)srv[i]) for (size_t j = 0; j < cli.size(); j += 1 + (u8)cli[j]) if (srv.substr(i, 1 + (u8)srv[i]) == cli.substr(j, 1 + (u8)cli[j])) return srv.substr(i + 1, (u8)srv[i]); return ""; }
std::map<std::string, SSL_CTX *> sni_ctx; int sni_made, sni_freed; void *sni_owner;
struct Sni { u32 magic; std::string name; };
void *sni_create(KOPAQUE owner, const char *host, SSL_CTX **ctx) { SIM_CHECK(!sni_owner || (void *)owner == sni_owner, "tls:sni-server", "the name callback got another server's object"); sni_made++; auto i = sni_ctx.find(host); if (i != sni_ctx.end()) *ctx = i->second; return new Sni{0x51715171, host}; }
void sni_free(void *p) { Sni *s = (Sni *)p; SIM_CHECK(s->magic == 0x51715171, "tls:sni-free", "a name object is freed twice"); s->magic = 0; sni_freed++; }
SSL_SESSION *ticket; std::string ticket_host;
int new_session(SSL *ssl, SSL_SESSION *t) { if (ticket) return 0; ticket = t; const char *h = SSL_get_servername(ssl, TLSEXT_NAMETYPE_host_name); ticket_host = h ? h : ""; probe("ticket"); return 1; }
std::string alpn_of(kconnection *c) { const unsigned char *d = nullptr; unsigned n = 0; kgl_ssl_get_next_proto_negotiated(c->st.ssl->ssl, &d, &n); return std::string((const char *)d, n); }
// ------------------------------------------------------------------ handshakes
struct Hs { kconnection *c; std::function<void(int)> done; bool fired = false; };
kev_result hs_cb(KOPAQUE, void *arg, int got) { Hs *h = (Hs *)arg; SIM_CHECK(!h->fired, "tls:handshake-twice", "a handshake completed twice"); h->fired = true; SIM_CHECK(got == 0 || got == -1, "tls:handshake-result", "a handshake callback got %d", got); auto f = h->done; delete h; f(got); return kev_ok; }
void handshake(kconnection *c, bool cb, std::function<void(int)> done) {      // on the loop of c (fiber unless cb)
    count_op(); if (cb) { Hs *h = new Hs; h->c = c; h->done = done; kselector *s = c->st.base.selector; post(s, [=] { kconnection_ssl_handshake(c, hs_cb, h); }); return; }
    int r = kfiber_ssl_handshake(c); done(r);
}
void tls_init() { tls_seed(1 + choose(S_WORK, 1 << 16)); }
bool finished(kconnection *c) { return SSL_is_init_finished(c->st.ssl->ssl); }
void fit_buffers() {   // the handshake must get through in reasonable simulated time
    double unit = std::min(cfg.sndbuf, cfg.rcvbuf), rtt = (2 * (cfg.net_latency_ns + cfg.net_jitter_ns)) / 1e6 + 1; if (unit / rtt < 2) { cfg.sndbuf = std::max(cfg.sndbuf, 4096u); cfg.rcvbuf = std::max(cfg.rcvbuf, 4096u); }
    cfg.sndbuf = std::max(cfg.sndbuf, 1500u);   // a server's session tickets must fit: its handshake ends only when they are on their way, and the client is not obliged to read
    if (cfg.seg_split > 100 && cfg.net_latency_ns > 5 * MS) cfg.seg_split = 100; }
u64 fit_amount(u32 ch) { double unit = std::min(cfg.sndbuf, cfg.rcvbuf), rtt = (2 * (cfg.net_latency_ns + cfg.net_jitter_ns)) / 1e6 + 40; double cap = std::min(60000.0, std::max(40.0, unit * 8000 / rtt)); if (cfg.seg_split) cap = std::min(cap, 8000.0 / rtt * 20 + 40); if (cfg.p_short || cfg.p_eagain) cap = std::min(cap, 3000.0); cap = std::min(cap, ch * 40.0 + 1); if (ch < 30) cap = std::min(cap, 1 + cap * ch / 30); u32 m = W(8); return m == 0 ? 1 : m == 1 ? 1ULL + W(20) : 1ULL + W((u32)cap); }
void plan(Xfer *x, int i) {
    x->id = i; x->cstyle = W(16); x->sstyle = W(16); x->cchunk = oneof(S_WORK, {100u, 1u, 7u, 1500u, 9000u, 40000u}); x->schunk = oneof(S_WORK, {100u, 1u, 7u, 1500u, 9000u, 40000u}); x->client_closes = W(2);
    u32 m = std::min(x->cchunk, x->schunk); x->up.total = fit_amount(m); x->down.total = fit_amount(m); x->up.seed = 1 + 2 * i; x->down.seed = 2 + 2 * i; x->up.name = "up" + std::to_string(i); x->down.name = "down" + std::to_string(i);
}
const int STK = 131072;
}
SCENARIO(C12, exchange, 4) {
    tls_init(); swarm(FA_EINTR | FA_STALL | FA_LATE | FA_LATENCY | FA_NET | FA_SHORT | FA_EAGAIN | FA_BUF); fit_buffers();
    start_loops(1 + W(3)); bool use_alpn = W(2), use_sni = W(2); CtxData sd{"default", alpn_list(W(16))}, sd2{"b.test", alpn_list(W(16))}, cd{"client", alpn_list(1 + W(15))};
    if (use_alpn) kssl_set_npn_callback(npn); if (use_sni) kssl_set_sni_callback(sni_create, sni_free);
    Cert *ca = make_cert("root", nullptr, true), *mid = W(2) ? make_cert("mid", ca, true) : nullptr, *leaf = make_cert("a.test", mid ? mid : ca, false), *leaf2 = make_cert("b.test", mid ? mid : ca, false), *ccert = make_cert("client", ca, false);
    std::string chain = mid ? mid->pem : ""; bool mutual = W(3) == 0, verify = W(3) != 0; std::string caf = mem_file(ca->pem);
    SSL_CTX *sc = server_ctx(leaf, chain, mutual ? caf.c_str() : nullptr, use_alpn ? &sd : nullptr, W(2)), *sc2 = server_ctx(leaf2, chain, mutual ? caf.c_str() : nullptr, use_alpn ? &sd2 : nullptr); SIM_CHECK(sc && sc2, "tls:context", "a server context cannot be made from a valid certificate and key");
    SSL_CTX *cc = kgl_ssl_ctx_new_client(nullptr, verify ? caf.c_str() : nullptr, use_alpn ? &cd : nullptr); SIM_CHECK(cc, "tls:context", "a client context cannot be made"); if (mutual) SIM_CHECK(ctx_cert(cc, ccert), "internal", "client certificate");
    const char *prot = oneof<const char *>(S_WORK, {"", "TLSv1.2", "TLSv1.3", "TLSv1.2 TLSv1.3"}); if (*prot || W(2)) { kgl_ssl_ctx_set_protocols(W(2) ? cc : sc, prot); if (!strcmp(prot, "TLSv1.2")) { kgl_ssl_ctx_set_protocols(sc, prot); kgl_ssl_ctx_set_protocols(sc2, prot); } }
    sni_ctx["b.test"] = sc2; ticket = nullptr; ticket_host.clear(); SSL_CTX_set_session_cache_mode(cc, SSL_SESS_CACHE_CLIENT | SSL_SESS_CACHE_NO_INTERNAL); SSL_CTX_sess_set_new_cb(cc, new_session); Baseline b; int live0 = tls_live();
    Srv srv; std::map<int, kconnection *> sconn; sni_owner = &srv; int waiting = 0; auto chosen = std::make_shared<std::map<int, std::string>>();
    srv.on = [&](kconnection *c) { bool cb = W(2); waiting++; fib(c->st.base.selector, [=, &waiting] {
        SIM_CHECK(c->st.ssl, "tls:plain", "a connection accepted by a TLS server has no TLS session"); handshake(c, cb, [=, &waiting](int r) {
            SIM_CHECK(r == 0, "tls:handshake-failed", "the server's handshake over a working transport returned %d", r); SIM_CHECK(finished(c), "tls:handshake-early", "a handshake reported success before it was complete"); waiting--;
            fib(c->st.base.selector, [=] { int id = hello_recv(c); SIM_CHECK(id >= 0 && id < (int)xs.size(), "stream:content", "a connection announced itself as %d", id); if (use_alpn) (*chosen)[id] = alpn_of(c);
                Xfer *x = xs[id]; if (x->sstyle & 8) post(c->st.base.selector, [=] { xfer_cb_end(c, x, false); }); else xfer_fiber_end(c, x, false); }, STK); }); }, STK); };
    kgl_ssl_ctx *ksc = kgl_new_ssl_ctx(sc); SIM_CHECK(srv.bind("127.0.0.1", 0, ksc), "server:bind", "kserver_bind fails"); post_wait(L(W(3)), [&] { SIM_CHECK(srv.open(), "server:open", "kserver_open fails"); });
    int n = 1 + W(4); for (int i = 0; i < n; i++) { xs.push_back(new Xfer); plan(xs[i], i); }
    for (int i = 0; i < n; i++) {
        Xfer *x = xs[i]; kselector *s = L(W(3)); std::string host = oneof<const char *>(S_WORK, {"", "a.test", "b.test", "other.test"}); bool cb = W(2), reuse = W(2);
        fib(s, [=] {
            kconnection *c; sockaddr_i a = loop_addr(srv.port); int r = conn_open(&c, &a); SIM_CHECK(r == 0, "connect:failed", "a connect to a listening server returned %d", r);
            SIM_CHECK(kconnection_ssl_connect(c, cc, host.empty() ? nullptr : host.c_str()), "tls:session", "a TLS session cannot be created"); if (reuse && ticket && ticket_host == host) SSL_set_session(c->st.ssl->ssl, ticket);
            handshake(c, cb, [=](int r) {
                SIM_CHECK(r == 0, "tls:handshake-failed", "the client's handshake over a working transport returned %d", r); SIM_CHECK(finished(c), "tls:handshake-early", "a handshake reported success before it was complete"); SSL *ssl = c->st.ssl->ssl; probe(SSL_version(ssl) == TLS1_3_VERSION ? "tls13" : "tls12"); if (SSL_session_reused(ssl)) probe(mutual ? "resumed-mutual" : "resumed"); if (reuse && ticket && ticket_host == host) probe(mutual ? "offered-mutual" : "offered");
                if (verify) SIM_CHECK(SSL_get_verify_result(ssl) == X509_V_OK, "tls:verify", "the handshake succeeded with verify result %ld", SSL_get_verify_result(ssl));
                bool second = use_sni && host == "b.test"; if (!SSL_session_reused(ssl)) { X509 *px = SSL_get1_peer_certificate(ssl); SIM_CHECK(px, "tls:certificate", "the client has no server certificate"); SIM_CHECK(X509_cmp(px, second ? leaf2->x : leaf->x) == 0, "tls:sni-certificate", "the server presented the wrong certificate for '%s'", host.c_str()); X509_free(px); }
                std::string mine = alpn_of(c); if (use_alpn) { std::string want = alpn_pick(second ? (sd2.alpn.empty() ? std::string("\x08http/1.1") : sd2.alpn) : sd.alpn.empty() ? std::string("\x08http/1.1") : sd.alpn, cd.alpn); SIM_CHECK(mine == want, "tls:alpn", "negotiated protocol '%s', expected '%s'", mine.c_str(), want.c_str()); }
                fib(s, [=] { bool ok = hello_send(c, x->id); SIM_CHECK(ok, "stream:write-failed", "the first write on a new connection fails");
                    if (x->cstyle & 8) post(s, [=] { xfer_cb_end(c, x, true); }); else xfer_fiber_end(c, x, true); }, STK);
            }); }, STK);
        if (W(2)) sleep_ms(W(2) ? W(60) : W(600));
    }
    wait_for([&] { for (auto x : xs) if (!x->done()) return false; return true; }, 170000, "stream:stalled", "exchanges complete");
    srv.close(); srv.release(); wait_for([&] { return srv.freed == 1; }, 3000, "server:not-freed", "a closed server without users is freed"); settle(200);
    SIM_CHECK(sni_made == sni_freed, "tls:sni-free", "%d name objects were created and %d freed", sni_made, sni_freed); wait_for([&] { return tls_live() == live0; }, 65000, "tls:session-leak", "TLS sessions are freed after every connection was closed");
    wait_for([&] { return kfiber_get_count() == b.fibers; }, 3000, "stream:fiber-left", "fibers end"); loops_respond(); check_clean(b, CL_FD | CL_FIBER | CL_COUNT, "tls");
}
// ------------------------------------------------------------------ a manipulating network between a client and a server of the library
namespace {
enum { A_NONE, A_DELAY, A_FLIP, A_FIN, A_RST, A_STALL, A_DROP, A_INSERT, A_DUP, A_KINDS };
const char *A_NAME[] = {"none", "delay", "flip", "fin", "rst", "stall", "drop", "insert", "dup"};
struct Attack { int kind = A_NONE, dir = 0, rec = 0, mode = 0; u32 arg = 0; bool done = false; double at_ms = 0; u8 type = 0; bool body = false, plain_hs = false, was_up[2] = {false, false}; };
struct Framing { int n = 0; u32 left = 0, len = 0, idx = 0; u8 type = 0, h[5]; bool ccs = false; };
struct Mitm { int a, b, owner; Attack *k; int fin = 0; bool cut = false; std::function<bool(int)> up; };
int mitms;
// one direction of a proxied connection
void forward(Mitm *m, int dir) {
    peer_adopt(m->owner); int from = dir == 0 ? m->a : m->b, to = dir == 0 ? m->b : m->a; Framing f; Attack *k = m->k; bool dead = false, mute = false; u32 drop = 0; char buf[2048];
    while (!m->cut) {
        ssize_t r = ::recv(from, buf, sizeof buf, 0); if (r <= 0) break;
        std::string out; bool stop = false;
        for (ssize_t i = 0; i < r && !stop; i++) {
            u8 c = buf[i]; u32 pos; if (f.left == 0) { if (f.n == 0) f.len = 0; pos = f.n; } else pos = 5 + f.len - f.left;
            if (k && !k->done && k->kind != A_NONE && k->dir == dir && (int)f.idx == k->rec) {
                u32 target = k->mode == 0 ? k->arg % 5 : pos < 5 ? 99999 : k->mode == 1 ? 5 + k->arg % f.len : k->mode == 2 ? 5 : 5 + f.len - 1;
                if (pos == target) {
                    k->done = true; k->at_ms = now_ns() / 1e6; k->body = pos >= 5; k->type = pos >= 5 ? f.type : 0; k->plain_hs = pos >= 5 && f.type == 22 && !f.ccs; k->was_up[0] = m->up(0); k->was_up[1] = m->up(1); fault((std::string("tls_mitm_") + A_NAME[k->kind]).c_str());
                    switch (k->kind) {
                    case A_DELAY: if (!out.empty() && !dead) dead = !peer_send(to, out.data(), out.size()); out.clear(); sleep_ms(1 + k->arg % 400); break;
                    case A_FLIP: c ^= 1 << (k->arg >> 16) % 8; break;
                    case A_FIN: case A_RST: stop = true; break;
                    case A_STALL: if (!out.empty() && !dead) dead = !peer_send(to, out.data(), out.size()); out.clear(); mute = true; break;
                    case A_DROP: drop = 1 + (k->arg >> 16) % 40; break;
                    case A_INSERT: for (u32 q = 0; q < 1 + (k->arg >> 20) % 30; q++) out += (char)P(256); break;
                    case A_DUP: { size_t q = std::min<size_t>(out.size(), 1 + (k->arg >> 20) % 200); out += out.substr(out.size() - q); out += c; } break;
                    }
                    if (stop) { if (!out.empty() && !dead) peer_send(to, out.data(), out.size()); m->cut = true; struct linger lg{1, 0}; for (int fd : {m->a, m->b}) { if (k->kind == A_RST) ::setsockopt(fd, SOL_SOCKET, SO_LINGER, &lg, sizeof lg); ::shutdown(fd, k->kind == A_RST ? 0 : 2); } break; }
                }
            }
            u8 raw = buf[i];           // the sender's framing
            if (f.left == 0) { f.h[f.n++] = raw; if (f.n == 5) { f.n = 0; f.type = f.h[0]; f.len = f.left = f.h[3] << 8 | f.h[4]; if (f.type == 20) f.ccs = true; if (!f.left) f.idx++; } }
            else if (--f.left == 0) { f.idx++; }
            if (drop) { drop--; continue; }
            if (!mute) out += (char)c;
        }
        if (m->cut) break;
        if (!out.empty() && !dead) { dead = !peer_send(to, out.data(), out.size()); }
    }
    if (!m->cut && !mute && !dead) ::shutdown(to, 1);
    if (++m->fin == 2) { ::close(m->a); ::close(m->b); delete m; mitms--; }
}
int m_tmo; bool calm() { return slack_ns() / 1e6 < m_tmo / 2 - 600; }      // stalls of threads cannot have expired the timeouts
struct MEnd { kconnection *c = nullptr; int hs = 99; bool rok = false, wok = false, rdone = false, wdone = false, closed = false; int rlast = 99; };
struct MConn { Attack k; MEnd e[2]; Xfer x; bool started = false; double t0 = 0; };
std::vector<MConn *> mc;
void m_close(MConn *m, int s) { MEnd &e = m->e[s]; e.closed = true; kfiber_net_close(e.c); m->x.ends_left--; }
void m_data(MConn *m, int s) {                            // in a fiber, after the handshake
    MEnd &e = m->e[s]; kconnection *c = e.c; Pipe *out = s == 0 ? &m->x.up : &m->x.down, *in = s == 0 ? &m->x.down : &m->x.up; u32 ch = s == 0 ? m->x.cchunk : m->x.schunk, st = s == 0 ? m->x.cstyle : m->x.sstyle; bool closer = (s == 0) == m->x.client_closes;
    fib(nullptr, [=] { MEnd &e = m->e[s]; e.wok = pipe_write(c, out, ch, st); e.wdone = true; if (e.rdone) m_close(m, s); }, STK);
    char *b = (char *)malloc(4000); int r = 1;
    while (in->rcvd < in->total || !closer) { r = kfiber_net_read(c, b, 1 + P(std::min(ch * 2, 4000u))); SIM_CHECK(r <= 4000, "stream:count", "a read returned %d", r); if (r <= 0) break; in->got(b, r); count_op(); }
    free(b); e.rlast = r; e.rok = in->rcvd == in->total && (closer || r == 0); e.rdone = true; if (e.wdone) m_close(m, s);
}
}
SCENARIO(C12, mitm, 4) {
    tls_init(); swarm(FA_EINTR | FA_STALL | FA_LATE | FA_NET | FA_SHORT | FA_EAGAIN); fit_buffers(); m_tmo = 2 + W(3);
    start_loops(1 + W(2), m_tmo, m_tmo); m_tmo *= 1000; Cert *ca = make_cert("root", nullptr, true), *leaf = make_cert("a.test", ca, false); SSL_CTX *sc = server_ctx(leaf, "", nullptr, nullptr); std::string caf = mem_file(ca->pem); SSL_CTX *cc = kgl_ssl_ctx_new_client(nullptr, W(3) ? caf.c_str() : nullptr, nullptr); SIM_CHECK(sc && cc, "tls:context", "contexts");
    const char *prot = oneof<const char *>(S_WORK, {"", "TLSv1.2", "TLSv1.3"}); if (*prot) kgl_ssl_ctx_set_protocols(W(2) ? cc : sc, prot);
    Baseline b; int live0 = tls_live(); int n = 1 + W(3);
    for (int i = 0; i < n; i++) {
        MConn *m = new MConn; mc.push_back(m); plan(&m->x, i); m->x.cstyle &= ~4; m->x.sstyle &= ~4; /* no pauses: a read waits for at most the idle timeout */ if (i == 0 || W(3) == 0) { m->k.kind = W(A_KINDS); m->k.dir = W(2); m->k.rec = W(2) ? W(4) : W(30); m->k.mode = W(4); m->k.arg = W(1u << 31); }
    }
    Srv srv; kgl_ssl_ctx *ksc = kgl_new_ssl_ctx(sc); static std::map<int, MConn *> by_client, by_server; by_client.clear(); by_server.clear(); int lport = 0; bool stop = false, gone = false, *stopp = &stop;
    auto port_of = [](sockaddr_i *a) { return (int)ntohs(a->v4.sin_port); };
    srv.on = [&](kconnection *c) { bool cb = W(2); int from = port_of(&c->addr);
        fib(c->st.base.selector, [=] { while (!by_server.count(from) && !*stopp) kfiber_msleep(1); if (!by_server.count(from)) { kfiber_net_close(c); return; } /* its client gave up in a stall */ MConn *m = by_server[from]; MEnd &e = m->e[1]; e.c = c;
            handshake(c, cb, [=](int r) { if (r == 0) SIM_CHECK(finished(c), "tls:handshake-early", "a handshake reported success before it was complete"); m->e[1].hs = r;
                fib(c->st.base.selector, [=] { if (r != 0) { m_close(m, 1); return; } int id = hello_recv(c); if (id < 0) { m->e[1].rlast = -2; m_close(m, 1); return; } SIM_CHECK(id == m->x.id, "stream:content", "a connection announced itself as %d", id); m_data(m, 1); }, STK); }); }, STK); };
    SIM_CHECK(srv.bind("127.0.0.1", 0, ksc), "server:bind", "kserver_bind fails"); post_wait(L(W(3)), [&] { SIM_CHECK(srv.open(), "server:open", "kserver_open fails"); });
    spawn("proxy", [&] { int ls = peer_listen_any(&lport); int me = self(); while (!stop) {
        int a = ::accept4(ls, nullptr, nullptr, 0); if (a < 0) { if (stop) break; continue; } if (stop) { ::close(a); break; } sockaddr_i pa; socklen_t l = sizeof pa; getpeername(a, (sockaddr *)&pa, &l); int cp = port_of(&pa);
        int bfd = peer_connect("127.0.0.1", srv.port); SIM_CHECK(bfd >= 0, "connect:failed", "a connect to a listening server fails"); l = sizeof pa; getsockname(bfd, (sockaddr *)&pa, &l);
        while (!by_client.count(cp) && !stop) sleep_ms(1); if (!by_client.count(cp)) { ::close(a); ::close(bfd); break; } MConn *m = by_client[cp]; by_server[port_of(&pa)] = m; Mitm *p = new Mitm{a, bfd, me, &m->k}; mitms++; p->up = [m](int s) { return m->e[s].hs == 0; };
        spawn("up", [p] { forward(p, 0); }); spawn("down", [p] { forward(p, 1); }); }
        ::close(ls); gone = true; });
    while (!lport) sleep_ms(1);
    for (int i = 0; i < n; i++) { MConn *m = mc[i]; kselector *s = L(W(3)); bool cb = W(2);
        fib(s, [=] { kconnection *c; sockaddr_i a = loop_addr(lport); int r = conn_open(&c, &a); if (r && !calm()) { m->x.ends_left = 0; m->e[0].hs = -1; return; } SIM_CHECK(r == 0, "connect:failed", "a connect to a listening peer returned %d", r); sockaddr_i la; socklen_t l = sizeof la; getsockname(c->st.fd, (sockaddr *)&la, &l); by_client[port_of(&la)] = m; m->t0 = now_ns() / 1e6; m->e[0].c = c;
            SIM_CHECK(kconnection_ssl_connect(c, cc, nullptr), "tls:session", "a TLS session cannot be created");
            handshake(c, cb, [=](int r) { if (r == 0) SIM_CHECK(finished(c), "tls:handshake-early", "a handshake reported success before it was complete"); m->e[0].hs = r;
                fib(s, [=] { if (r != 0 || !hello_send(c, m->x.id)) { if (!r) m->e[0].rlast = -2; m_close(m, 0); return; } m_data(m, 0); }, STK); }); }, STK);
        if (W(2)) sleep_ms(W(30)); }
    double limit = 170000; wait_for([&] { for (auto m : mc) { if (!m->k.done || m->x.ends_left == 0) continue; double over = now_ns() / 1e6 - slack_ns() / 1e6 - m->k.at_ms - 4.0 * m_tmo - 3000; SIM_CHECK(over < 0, "tls:stuck", "%d ends of a connection are still open %.0f ms after the network did '%s' to it, the timeouts are %d ms", m->x.ends_left, over + 4.0 * m_tmo + 3000, A_NAME[m->k.kind], m_tmo); } for (auto m : mc) if (m->x.ends_left) return false; return true; }, limit, "stream:stalled", "exchanges complete");
    for (auto m : mc) {
        Attack &k = m->k; MEnd &C = m->e[0], &S = m->e[1]; bool full = C.hs == 0 && S.hs == 0 && C.rok && C.wok && S.rok && S.wok; std::string st = std::string(" [") + (k.done ? A_NAME[k.kind] : "no fault") + (k.dir ? " down" : " up") + "] hs " + std::to_string(C.hs) + "/" + std::to_string(S.hs) + " read " + std::to_string(C.rlast) + "/" + std::to_string(S.rlast) + " " + m->x.state();
        if ((!k.done || k.kind == A_DELAY) && calm()) SIM_CHECK(full, "tls:healthy-failed", "a connection over a working network failed:%s", st.c_str());
        if (k.done) probe((std::string(A_NAME[k.kind]) + (k.was_up[0] && k.was_up[1] ? "-data" : "-handshake")).c_str());
        if (k.done && k.kind == A_FLIP && k.plain_hs) SIM_CHECK(C.hs == -1 && (k.dir || S.hs == -1), "tls:forged-handshake", "a handshake whose messages were modified on the way succeeded:%s", st.c_str());
        if (k.done && k.kind == A_FLIP && k.body && k.type == 23 && m->e[!k.dir].hs == 0) SIM_CHECK(m->e[!k.dir].rlast != 0, "tls:forged-eof", "modified data were reported as the end of the stream:%s", st.c_str());
    }
    stop = true; spawn("last", [&] { int f = peer_connect("127.0.0.1", lport); if (f >= 0) ::close(f); }); wait_for([&] { return gone && !mitms; }, 20000, "internal", "the proxy ends");
    srv.close(); srv.release(); wait_for([&] { return srv.freed == 1; }, 3000, "server:not-freed", "a closed server without users is freed"); settle(200);
    wait_for([&] { return tls_live() == live0; }, 65000, "tls:session-leak", "TLS sessions are freed after every connection was closed");
    wait_for([&] { return kfiber_get_count() == b.fibers; }, 3000, "stream:fiber-left", "fibers end"); loops_respond(); check_clean(b, CL_FD | CL_FIBER | CL_COUNT, "tls");
}
// ------------------------------------------------------------------ peers that must be refused, among peers that must be served
namespace {
enum { R_GOOD, R_OTHER_CA, R_EXPIRED, R_NO_CERT, R_BAD_CERT, R_SNI_NO_CERT, R_SNI_BAD_CERT, R_PROTO, R_NOSNI, R_GARBAGE, R_PLAIN, R_TO_PLAIN, R_SILENT, R_TO_SILENT, R_GONE, R_KINDS };
const char *R_NAME[] = {"good", "other-ca", "expired", "no-cert", "bad-cert", "sni-no-cert", "sni-bad-cert", "protocol", "no-sni", "garbage", "plain", "to-plain", "silent", "to-silent", "gone"};
struct RConn { int id, kind; Xfer x; int chs = 99, shs = 99; bool cdone = false, sdone = false, has_server = true, has_client = true, cert = false, started = false; double t0 = 0; };
std::vector<RConn *> rc; std::map<int, RConn *> r_port; int r_bad_rw;
bool r_client_must_fail(int k) { return k == R_OTHER_CA || k == R_EXPIRED || k == R_PROTO || k == R_NOSNI || k == R_TO_PLAIN || k == R_TO_SILENT; }
}
SCENARIO(C12, reject, 4) {
    tls_init(); swarm(FA_EINTR | FA_LATE | FA_NET | FA_SHORT | FA_EAGAIN); fit_buffers(); m_tmo = 2 + W(3);
    start_loops(1 + W(2), m_tmo, m_tmo); m_tmo *= 1000; kssl_set_sni_callback(sni_create, sni_free); sni_owner = nullptr;
    Cert *ca = make_cert("root", nullptr, true), *other = make_cert("evil", nullptr, true), *leaf = make_cert("a.test", ca, false), *fake = make_cert("a.test", other, false), *old = make_cert("a.test", ca, false, -86400 * 20, -86400), *good = make_cert("client", ca, false), *bad = make_cert("client", other, false);
    std::string caf = mem_file(ca->pem); const char *CA = caf.c_str(); bool mutual_default = W(2); int n = 1 + W(5);
    SSL_CTX *s_main = server_ctx(leaf, "", nullptr, nullptr), *s_mut = server_ctx(leaf, "", CA, nullptr), *s_sni = server_ctx(leaf, "", CA, nullptr), *s_fake = server_ctx(fake, "", nullptr, nullptr), *s_old = server_ctx(old, "", nullptr, nullptr), *s_13 = server_ctx(leaf, "", nullptr, nullptr), *s_name = server_ctx(leaf, "", nullptr, nullptr);
    SSL_CTX *c_ver = kgl_ssl_ctx_new_client(nullptr, CA, nullptr), *c_good = kgl_ssl_ctx_new_client(nullptr, CA, nullptr), *c_bad = kgl_ssl_ctx_new_client(nullptr, CA, nullptr), *c_12 = kgl_ssl_ctx_new_client(nullptr, CA, nullptr);
    SIM_CHECK(s_main && s_mut && s_sni && s_fake && s_old && s_13 && s_name && c_ver && c_good && c_bad && c_12 && ctx_cert(c_good, good) && ctx_cert(c_bad, bad), "tls:context", "contexts"); (void)mutual_default;
    kgl_ssl_ctx_set_protocols(s_13, "TLSv1.3"); kgl_ssl_ctx_set_protocols(c_12, "TLSv1.2"); bool only12 = W(3) == 0; if (only12) for (SSL_CTX *x : {c_ver, c_good, c_bad}) kgl_ssl_ctx_set_protocols(x, "TLSv1.2");
    sni_ctx.clear(); sni_ctx["m.test"] = s_sni; r_port.clear(); rc.clear(); xs.clear();
    Baseline b; int live0 = tls_live(); enum { V_MAIN, V_MUT, V_FAKE, V_OLD, V_13, V_NAME, V_N }; static Srv *sv; sv = new Srv[V_N]; SSL_CTX *sctx[V_N] = {s_main, s_mut, s_fake, s_old, s_13, s_name};
    auto server_end = [](kconnection *c) { bool cb = W(2); int from = ntohs(c->addr.v4.sin_port); fib(c->st.base.selector, [=] {
        while (!r_port.count(from)) kfiber_msleep(1); RConn *q = r_port[from]; handshake(c, cb, [=](int r) { q->shs = r;
            if (r == 0) { SIM_CHECK(finished(c), "tls:handshake-early", "a handshake reported success before it was complete"); SIM_CHECK(q->kind == R_GOOD, "tls:accepted", "the server accepted a peer it has to refuse (%s)", R_NAME[q->kind]); if (q->cert) { X509 *px = SSL_get1_peer_certificate(c->st.ssl->ssl); SIM_CHECK(px, "tls:certificate", "the server has no certificate of the client it requires one from"); X509_free(px); } }
            else if (q->kind == R_GOOD) SIM_CHECK(!calm() || fault_count("ssl_new_fail"), "tls:healthy-failed", "the server's handshake with a proper client failed next to refused ones");
            fib(c->st.base.selector, [=] { if (r != 0) { kfiber_net_close(c); q->sdone = true; return; } int id = hello_recv(c); if (id < 0 && !calm()) { kfiber_net_close(c); q->sdone = true; return; } SIM_CHECK(id == q->id, "stream:content", "a connection announced itself as %d", id); xfer_fiber_end(c, &q->x, false); q->sdone = true; }, STK); }); }, STK); };
    for (int i = 0; i < V_N; i++) { sv[i].on = server_end; SIM_CHECK(sv[i].bind("127.0.0.1", 0, kgl_new_ssl_ctx(sctx[i])), "server:bind", "kserver_bind fails"); if (i == V_NAME) KBIT_SET(sv[i].s->flags, KGL_SERVER_REJECT_NOSNI); post_wait(L(W(3)), [&] { SIM_CHECK(sv[i].open(), "server:open", "kserver_open fails"); }); }
    bool fail_new = W(5) == 0; int peer_threads = 0, *pt = &peer_threads; if (fail_new) tls_fail_new(oneof(S_WORK, {100u, 400u, 1024u}));
    auto start = [&](RConn *q) {
        q->started = true; q->t0 = now_ns() / 1e6; SSL_CTX *cc = c_ver; int to = V_MAIN; const char *host = nullptr; kselector *s = L(W(3)); bool cb = W(2);
        switch (q->kind) {
        case R_GOOD: switch (W(6)) { case 0: to = V_MUT; cc = c_good; q->cert = true; break; case 1: host = "m.test"; cc = c_good; q->cert = true; break; case 2: to = V_NAME; host = "x.test"; break; case 3: to = V_13; if (only12) to = V_MAIN; break; } break;
        case R_OTHER_CA: to = V_FAKE; break; case R_EXPIRED: to = V_OLD; break; case R_NO_CERT: to = V_MUT; break; case R_BAD_CERT: to = V_MUT; cc = c_bad; break; case R_SNI_NO_CERT: host = "m.test"; break; case R_SNI_BAD_CERT: host = "m.test"; cc = c_bad; break;
        case R_PROTO: to = V_13; cc = c_12; break; case R_NOSNI: to = V_NAME; break;
        }
        int port = sv[to].port;
        if (q->kind == R_GARBAGE || q->kind == R_SILENT || q->kind == R_GONE) {      // a raw peer
            q->has_client = false; u32 seed = W(1 << 20); ++*pt; spawn("raw", [=] { int f = peer_connect("127.0.0.1", port); SIM_CHECK(f >= 0, "connect:failed", "a connect to a listening server fails"); sockaddr_i la; socklen_t l = sizeof la; getsockname(f, (sockaddr *)&la, &l); r_port[ntohs(la.v4.sin_port)] = q;
                if (q->kind == R_GARBAGE) { std::string d; u32 m = 1 + seed % 700; for (u32 i = 0; i < m; i++) d += (char)P(256); switch (seed % 4) { case 0: d = "GET / HTTP/1.1\r\nHost: a.test\r\n\r\n"; break; case 1: d[0] = 22; if (m > 4) { d[1] = 3; d[2] = 1; d[3] = 0; d[4] = 200; } break; case 2: d = std::string("\x15\x03\x03\x00\x02\x02\x28", 7); break; } peer_send(f, d.data(), d.size()); }
                if (q->kind == R_GONE) { if (seed % 2) peer_close_rst(f); else ::close(f); --*pt; return; }
                char buf[256]; while (::recv(f, buf, sizeof buf, 0) > 0) {} ::close(f); --*pt; });
            return;
        }
        if (q->kind == R_TO_PLAIN || q->kind == R_TO_SILENT) { q->has_server = false; int *lp = new int(0); u32 seed = W(1 << 20); ++*pt; spawn("plainsrv", [=] { int ls = peer_listen_any(lp), f = ::accept4(ls, nullptr, nullptr, 0); if (q->kind == R_TO_PLAIN) { std::string d = seed % 3 == 0 ? "HTTP/1.1 400 Bad Request\r\n\r\n" : seed % 3 == 1 ? std::string("\x15\x03\x03\x00\x02\x02\x28", 7) : std::string(1 + seed % 300, 'z'); peer_send(f, d.data(), d.size()); } char buf[256]; while (::recv(f, buf, sizeof buf, 0) > 0) {} ::close(f); ::close(ls); --*pt; }); while (!*lp) sleep_ms(1); port = *lp; }
        fib(s, [=] { kconnection *c; sockaddr_i a = loop_addr(port); int r = conn_open(&c, &a); if (r) { SIM_CHECK(!calm() || fault_count("ssl_new_fail"), "connect:failed", "a connect to a listening server returned %d", r); q->cdone = q->sdone = true; q->x.ends_left = 0; return; }
            sockaddr_i la; socklen_t l = sizeof la; getsockname(c->st.fd, (sockaddr *)&la, &l); r_port[ntohs(la.v4.sin_port)] = q;
            if (q->kind == R_PLAIN) { char t[] = "plain text, no session"; int len = sizeof t; kfiber_net_write_full(c, t, &len); char buf[300]; int got; while ((got = kfiber_net_read(c, buf, sizeof buf)) > 0) {} kfiber_net_close(c); q->cdone = true; q->chs = -1; return; }
            if (!kconnection_ssl_connect(c, cc, host)) { SIM_CHECK(fault_count("ssl_new_fail"), "tls:session", "a TLS session cannot be created"); kfiber_net_close(c); q->cdone = true; q->chs = -1; return; }
            handshake(c, cb, [=](int r) { q->chs = r; if (r == 0) SIM_CHECK(finished(c), "tls:handshake-early", "a handshake reported success before it was complete"); if (r == 0 && q->kind != R_GOOD) { SIM_CHECK(!r_client_must_fail(q->kind), "tls:accepted", "the client accepted a peer it has to refuse (%s)", R_NAME[q->kind]); SIM_CHECK(SSL_version(c->st.ssl->ssl) == TLS1_3_VERSION, "tls:accepted", "the client's handshake succeeded although the server refuses it (%s)", R_NAME[q->kind]); }
                if (r != 0 && q->kind == R_GOOD) SIM_CHECK(!calm() || fault_count("ssl_new_fail"), "tls:healthy-failed", "the client's handshake with a proper server failed next to refused ones");
                fib(s, [=] { if (r != 0) { kfiber_net_close(c); q->cdone = true; return; }
                    if (q->kind != R_GOOD) { char *buf = (char *)malloc(100); if (W(2)) { memset(buf, 'q', 20); kfiber_net_write(c, buf, 20); } int got = kfiber_net_read(c, buf, 100); SIM_CHECK(got <= 0, "tls:accepted", "a refused client read %d bytes (%s)", got, R_NAME[q->kind]); free(buf); kfiber_net_close(c); q->cdone = true; return; }
                    bool ok = hello_send(c, q->id); if (!ok && !calm()) { kfiber_net_close(c); q->cdone = true; q->x.ends_left--; return; } SIM_CHECK(ok, "stream:write-failed", "the first write on a new connection fails"); xfer_fiber_end(c, &q->x, true); q->cdone = true; }, STK); }); }, STK);
    };
    auto add = [&](int kind) { RConn *q = new RConn; q->id = rc.size(); q->kind = kind; plan(&q->x, q->id); q->x.cstyle &= 3; q->x.sstyle &= 3; rc.push_back(q); start(q); };
    for (int i = 0; i < n; i++) { add(W(4) == 0 ? (int)R_GOOD : 1 + (int)W(R_KINDS - 1)); if (W(2)) sleep_ms(W(40)); }
    auto ended = [&](RConn *q) { if (q->kind == R_GOOD && q->chs == 0 && q->shs == 0) return q->x.done() || !calm(); return (!q->has_client || q->cdone) && (!q->has_server || q->sdone || (fail_new && q->shs == 99)); };
    wait_for([&] { bool all = true; for (auto q : rc) { if (ended(q)) continue; all = false; if (q->kind != R_GOOD) { double over = (now_ns() - slack_ns()) / 1e6 - q->t0; SIM_CHECK(over < 4.0 * m_tmo + 3000, "tls:stuck", "a connection that has to be refused (%s) is still there after %.0f ms, the timeouts are %d ms", R_NAME[q->kind], over, m_tmo); } } return all; }, 170000, "stream:stalled", "connections end");
    for (auto q : rc) { probe(R_NAME[q->kind]); if (q->kind != R_GOOD) SIM_CHECK(q->shs != 0, "tls:accepted", "accepted"); }
    if (calm()) { tls_fail_new(0); sleep_ms(m_tmo + 2500); for (int i = 0; i < 2; i++) add(R_GOOD); wait_for([&] { for (size_t i = rc.size() - 2; i < rc.size(); i++) if (!rc[i]->x.done() && calm()) return false; return true; }, 60000, "tls:server-dead", "after refused connections and failed session creations, proper clients are served"); }
    for (int i = 0; i < V_N; i++) { sv[i].close(); sv[i].release(); }
    if (!calm()) sleep_ms(5 * m_tmo);
    wait_for([&] { for (int i = 0; i < V_N; i++) if (sv[i].freed != 1) return false; return peer_threads == 0; }, 30000, "server:not-freed", "closed servers without users are freed"); settle(200);
    SIM_CHECK(sni_made == sni_freed, "tls:sni-free", "%d name objects were created and %d freed", sni_made, sni_freed);
    wait_for([&] { return tls_live() == live0; }, 65000, "tls:session-leak", "TLS sessions are freed after every connection was closed");
    wait_for([&] { return kfiber_get_count() == b.fibers; }, 3000, "stream:fiber-left", "fibers end"); loops_respond(); check_clean(b, CL_FD | CL_FIBER | CL_COUNT, "tls");
}
// ------------------------------------------------------------------ ending a session while it is in use
namespace {
struct SEnd { kconnection *c = nullptr; bool up = false, closed = false, shut = false, shut_done = false; int pend = 0, hs = 99; double shut_ms = 0, done_ms = 0, last_ms = 0; int action = 0; bool reads = true, writes = true, cbclose = false; u32 chunk = 1000; Pipe *in, *out; };
struct SPair { SEnd e[2]; Pipe up, down; double t0 = 0; };
void s_maybe_close(SPair *p, int s) { SEnd &e = p->e[s]; if (e.pend || e.closed) return; e.closed = true; e.done_ms = now_ns() / 1e6; kconnection *c = e.c;
    if (e.cbclose) post(c->st.base.selector, [=] { kconnection_destroy(c); }); else kfiber_net_close(c); }
void s_run(SPair *p, int s) {                 // fiber, after the handshake
    SEnd &e = p->e[s]; kconnection *c = e.c; e.up = true; e.pend++;
    if (e.reads) { e.pend++; fib(nullptr, [=] { SEnd &e = p->e[s]; char *b = (char *)malloc(3000); for (;;) { int r = kfiber_net_read(c, b, 1 + P(3000)); SIM_CHECK(r <= 3000, "stream:count", "a read returned %d", r); if (r <= 0) break; e.last_ms = now_ns() / 1e6; e.in->got(b, r); if (!e.shut && P(8) == 0) kfiber_msleep(P(5)); } free(b); e.pend--; s_maybe_close(p, s); }, STK); }
    if (e.writes) { e.pend++; fib(nullptr, [=] { SEnd &e = p->e[s]; pipe_write(c, e.out, e.chunk, P(4)); e.pend--; s_maybe_close(p, s); }, STK); }
    if (e.action) { e.pend++; u32 d = W(2) ? W(40) : W(600); fib(nullptr, [=] { SEnd &e = p->e[s]; if (d) kfiber_msleep(d); { e.shut = true; e.shut_ms = now_ns() / 1e6; if (is_selectable(&c->st, STF_WRITE)) probe("shut-pending-write"); if (is_selectable(&c->st, STF_READ)) probe("shut-pending-read"); kfiber_net_shutdown(c); } e.shut_done = true; e.pend--; s_maybe_close(p, s); }, STK); }
    e.pend--; s_maybe_close(p, s);
}
}
SCENARIO(C12, shutdown, 2) {
    tls_init(); swarm(FA_EINTR | FA_LATE | FA_NET | FA_SHORT | FA_EAGAIN | FA_BUF); fit_buffers(); m_tmo = 2 + W(3); start_loops(1 + W(2), m_tmo, m_tmo); m_tmo *= 1000;
    Cert *leaf = make_cert("a.test", nullptr, false); SSL_CTX *sc = server_ctx(leaf, "", nullptr, nullptr), *cc = kgl_ssl_ctx_new_client(nullptr, nullptr, nullptr); SIM_CHECK(sc && cc, "tls:context", "contexts"); if (W(3) == 0) kgl_ssl_ctx_set_protocols(cc, "TLSv1.2");
    Baseline b; int live0 = tls_live(); static std::map<int, SPair *> by; by.clear(); static std::vector<SPair *> ps; ps.clear(); Srv srv; int n = 1 + W(3);
    srv.on = [](kconnection *c) { int from = ntohs(c->addr.v4.sin_port); fib(c->st.base.selector, [=] { while (!by.count(from)) kfiber_msleep(1); SPair *p = by[from]; p->e[1].c = c; handshake(c, false, [=](int r) { p->e[1].hs = r; if (r) { p->e[1].closed = true; p->e[1].done_ms = now_ns() / 1e6; kfiber_net_close(c); return; } s_run(p, 1); }); }, STK); };
    SIM_CHECK(srv.bind("127.0.0.1", 0, kgl_new_ssl_ctx(sc)), "server:bind", "kserver_bind fails"); post_wait(L(W(3)), [&] { SIM_CHECK(srv.open(), "server:open", "kserver_open fails"); });
    for (int i = 0; i < n; i++) {
        SPair *p = new SPair; ps.push_back(p); p->up.seed = 2 * i + 1; p->down.seed = 2 * i + 2; p->up.name = "up"; p->down.name = "down"; bool big = W(2); for (Pipe *q : {&p->up, &p->down}) q->total = big ? 1000 + W(200000) : 1 + W(3000); p->e[0].in = p->e[1].out = &p->down; p->e[0].out = p->e[1].in = &p->up;
        for (SEnd &e : p->e) { e.action = W(3) < 2; e.reads = W(4) != 0; e.writes = W(4) != 0; e.chunk = 1 + W(2) * W(30000); e.cbclose = W(3) == 0; if (cfg.p_short || cfg.p_eagain) e.out->total = std::min<u64>(e.out->total, 20000); if (e.chunk < 100) e.out->total = std::min<u64>(e.out->total, 3000); } if (!p->e[0].action && !p->e[1].action) p->e[W(2)].action = 1;
        bool early = W(6) == 0; u32 ed = W(20); kselector *s = L(W(3));
        fib(s, [=] { kconnection *c; sockaddr_i a = loop_addr(srv.port); int r = conn_open(&c, &a); SIM_CHECK(r == 0, "connect:failed", "a connect to a listening server returned %d", r); sockaddr_i la; socklen_t l = sizeof la; getsockname(c->st.fd, (sockaddr *)&la, &l); by[ntohs(la.v4.sin_port)] = p; p->t0 = now_ns() / 1e6; p->e[0].c = c;
            SIM_CHECK(kconnection_ssl_connect(c, cc, nullptr), "tls:session", "a TLS session cannot be created"); if (early) { p->e[0].pend++; fib(nullptr, [=] { kfiber_msleep(ed); p->e[0].shut_ms = now_ns() / 1e6; p->e[0].shut = true; kfiber_net_shutdown(c); p->e[0].pend--; if (p->e[0].hs == -1 || p->e[0].up) s_maybe_close(p, 0); }, STK); }
            handshake(c, false, [=](int r) { p->e[0].hs = r; SIM_CHECK(r == 0 || early, "tls:handshake-failed", "the client's handshake over a working transport returned %d", r); if (r) { s_maybe_close(p, 0); return; } s_run(p, 0); }); }, STK);
        if (W(2)) sleep_ms(W(30));
    }
    wait_for([&] { bool all = true; for (auto p : ps) for (int s = 0; s < 2; s++) { SEnd &e = p->e[s]; if (!e.closed) all = false; if (!e.closed && e.shut) { double over = (now_ns() - slack_ns()) / 1e6 - std::max(e.shut_ms, e.last_ms); /* the timeout is one of idleness */ SIM_CHECK(over < 2.0 * m_tmo + 3000, "tls:stuck", "operations of a connection that was shut down are still pending after %.0f ms, the timeout is %d ms (end %d, %d pending, shutdown %d, reads %d, writes %d)", over, m_tmo, s, e.pend, e.shut_done, e.reads, e.writes); } } return all; }, 170000, "stream:stalled", "connections end");
    srv.close(); srv.release(); wait_for([&] { return srv.freed == 1; }, 30000, "server:not-freed", "a closed server without users is freed"); settle(200);
    wait_for([&] { return tls_live() == live0; }, 65000, "tls:session-leak", "TLS sessions are freed after every connection was closed");
    wait_for([&] { return kfiber_get_count() == b.fibers; }, 30000, "stream:fiber-left", "fibers end"); loops_respond(); check_clean(b, CL_FD | CL_FIBER | CL_COUNT, "tls");
}
// ------------------------------------------------------------------ peers that are not this library: early data, key updates, renegotiation, half closed and truncated streams
namespace {
enum { E_NOTIFY, E_FIN, E_RST };
struct PConn { Xfer x; kconnection *c = nullptr; int hs = 99, rlast = 99; bool lib_client = false, early = false, rok = false, rdone = false, wok = false, wdone = false, closed = false, half = false, t12 = false, reneg = false; int end = E_NOTIFY, upd = 0; u32 split = 0, pace = 0; bool p_done = false, p_hs = false, p_wok = false, p_rok = false, p_notify = false, early_sent = false, early_ok = false; Pipe *in() { return lib_client ? &x.down : &x.up; } Pipe *out() { return lib_client ? &x.up : &x.down; } bool lib_closes() { return lib_client == x.client_closes; } };
std::vector<PConn *> pc; std::vector<SSL_SESSION *> p_tickets;
int p_new_session(SSL *, SSL_SESSION *t) { p_tickets.push_back(t); return 1; }
void p_close(PConn *q) { if (!q->rdone || !q->wdone || q->closed) return; q->closed = true; kfiber_net_close(q->c); q->x.ends_left--; }
void p_lib(PConn *q) {                  // fiber, after the handshake (and the hello)
    kconnection *c = q->c; u32 ch = q->lib_client ? q->x.cchunk : q->x.schunk, st = (q->lib_client ? q->x.cstyle : q->x.sstyle) & 3; Pipe *in = q->in();
    bool ordered = q->early && !q->lib_client;      // while early data are read, reading and writing take turns (OpenSSL finishes the handshake inside reads and cannot do so next to a half written record)
    fib(nullptr, [=] { while (ordered && !q->rdone && !finished(c)) kfiber_msleep(1); q->wok = pipe_write(c, q->out(), ch, st); q->wdone = true; p_close(q); }, STK);
    char *b = (char *)malloc(4000); int r = 1; while (in->rcvd < in->total || !q->lib_closes()) { r = kfiber_net_read(c, b, 1 + P(std::min(ch * 2, 4000u))); SIM_CHECK(r <= 4000, "stream:count", "a read returned %d", r); if (r <= 0) break; in->got(b, r); count_op(); }
    free(b); q->rlast = r; q->rok = in->rcvd == in->total; q->rdone = true; p_close(q);
}
void p_peer(PConn *q, TlsPeer *t, std::string pre) {        // peer thread; pre: hello of a client
    Pipe *out = q->in(), *in = q->out(); u32 ch = q->lib_client ? q->x.schunk : q->x.cchunk; t->split = q->split; std::string all = pre; { std::string d(out->total, 0); if (out->total) patfill(out->seed, 0, &d[0], out->total); all += d; } size_t off = 0; out->promised = out->total; bool ok = true;
    if (q->early && !q->lib_client) { size_t n = std::min<size_t>(all.size(), 1 + P(3) * P(3000)), o = 0; while (o < n && ok) { size_t w = 0, m = std::min<size_t>(n - o, 1 + P(std::min(ch, 2000u))); ok = t->retry([&] { return SSL_write_early_data(t->ssl, all.data() + o, m, &w); }) == 1; o += w; if (q->pace && P(2)) sleep_ms(P(q->pace)); } q->early_sent = ok; off = o; if (ok && P(2)) sleep_ms(P(300)); }
    ok = ok && t->handshake(); q->p_hs = ok; if (ok && q->early_sent) { q->early_ok = SSL_get_early_data_status(t->ssl) == SSL_EARLY_DATA_ACCEPTED; if (!q->early_ok) off = 0; }
    while (ok && off < all.size()) {
        if (q->upd && P(q->upd) == 0 && SSL_version(t->ssl) == TLS1_3_VERSION) {
            bool ask = q->wdone && P(2);  /* OpenSSL 3.0 itself fails when asked to update its key while it has a record half written; and it answers before it reads on, so the peer must leave it room */
            if (ask) { char b[3000]; int r; while (in->rcvd < in->total && (r = t->read(b, 1 + P(3000))) > 0) in->got(b, r); }
            SSL_key_update(t->ssl, ask ? SSL_KEY_UPDATE_REQUESTED : SSL_KEY_UPDATE_NOT_REQUESTED); fault(ask ? "tls_peer_key_request" : "tls_peer_key_update");
        }
        if (q->reneg && off > pre.size() && q->hs == 0 && P(4) == 0) { q->reneg = false; fault("tls_peer_renegotiate"); SSL_renegotiate(t->ssl); ok = t->handshake(); if (!ok) break; }
        size_t m = std::min<size_t>(all.size() - off, 1 + P(ch)); ok = t->write(all.data() + off, m); off += m; if (q->pace && P(2)) sleep_ms(P(q->pace));
    }
    q->p_wok = ok; bool said = false; if (ok && q->half) { SSL_shutdown(t->ssl); t->flush(); said = true; fault("tls_peer_half_close"); }
    bool until_eof = q->lib_closes(); char b[3000]; int r = 1; while (ok && (in->rcvd < in->total || until_eof)) { r = t->read(b, 1 + P(3000)); if (r <= 0) break; in->got(b, r); if (q->pace && P(8) == 0) sleep_ms(P(q->pace)); }
    q->p_rok = in->rcvd == in->total; q->p_notify = r == 0 && SSL_get_shutdown(t->ssl) & SSL_RECEIVED_SHUTDOWN;
    if (q->end == E_NOTIFY && !said) { SSL_shutdown(t->ssl); t->flush(); } else if (q->end == E_FIN) fault("tls_peer_truncate"); else if (q->end == E_RST) fault("tls_peer_reset");
    int fd = t->fd; delete t; if (q->end == E_RST) peer_close_rst(fd); else { ::shutdown(fd, 1); if (!q->lib_closes()) while (::recv(fd, b, sizeof b, 0) > 0) {} ::close(fd); }
    q->p_done = true; q->x.ends_left--;
}
}
SCENARIO(C12, peer, 4) {
    tls_init(); swarm(FA_EINTR | FA_STALL | FA_LATE | FA_LATENCY | FA_NET | FA_SHORT | FA_EAGAIN | FA_BUF); fit_buffers(); start_loops(1 + W(2));
    Cert *leaf = make_cert("a.test", nullptr, false); SSL_CTX *sc = server_ctx(leaf, "", nullptr, nullptr), *cc = kgl_ssl_ctx_new_client(nullptr, nullptr, nullptr), *ps = SSL_CTX_new(TLS_server_method()), *pcx = SSL_CTX_new(TLS_client_method()); SIM_CHECK(sc && cc && ctx_cert(ps, leaf), "tls:context", "contexts"); bool early = W(4) != 0; if (early) kgl_ssl_ctx_set_early_data(sc, true);
    for (SSL_CTX *x : {ps, pcx}) SSL_CTX_set_mode(x, SSL_MODE_ACCEPT_MOVING_WRITE_BUFFER); p_tickets.clear(); SSL_CTX_set_session_cache_mode(pcx, SSL_SESS_CACHE_CLIENT | SSL_SESS_CACHE_NO_INTERNAL); SSL_CTX_sess_set_new_cb(pcx, p_new_session);
    Baseline b; int live0 = tls_live(); Srv srv; pc.clear();
    srv.on = [&](kconnection *c) { bool cb = W(2); fib(c->st.base.selector, [=] { handshake(c, cb, [=](int r) {
        if (r == 0) SIM_CHECK(finished(c) || c->st.ssl->in_early, "tls:handshake-early", "a handshake reported success before it was complete, without early data"); if (r == 0 && c->st.ssl->in_early) probe("early-accepted");
        fib(c->st.base.selector, [=] { SIM_CHECK(r == 0, "tls:handshake-failed", "the server's handshake with a peer returned %d", r); int id = hello_recv(c); SIM_CHECK(id >= 0 && id < (int)pc.size(), "tls:hello", "the first bytes of a stream cannot be read (%d)", id); PConn *q = pc[id]; q->c = c; q->hs = 0; p_lib(q); }, STK); }); }, STK); };
    SIM_CHECK(srv.bind("127.0.0.1", 0, kgl_new_ssl_ctx(sc)), "server:bind", "kserver_bind fails"); post_wait(L(W(3)), [&] { SIM_CHECK(srv.open(), "server:open", "kserver_open fails"); });
    int n = 1 + W(4); for (int i = 0; i < n; i++) {
        PConn *q = new PConn; pc.push_back(q); plan(&q->x, i); q->lib_client = W(3) == 0; q->t12 = W(4) == 0; q->early = early && !q->lib_client && !q->t12 && W(4); q->half = W(3) == 0; q->upd = W(2) ? 1 + W(20) : 0; q->split = W(2) ? 1 + W(W(2) ? 5 : 400) : 0; q->pace = W(3) ? 0 : 1 + W(30); if (q->half || q->early) q->x.client_closes = !q->lib_client; /* who closes without having read everything resets the connection */ if (!q->lib_closes()) q->end = W(3) ? E_NOTIFY : W(2) ? E_FIN : E_RST; q->reneg = q->t12 && W(3) == 0;
        if (q->split && q->split < 50) { q->x.up.total = std::min<u64>(q->x.up.total, 2000); q->x.down.total = std::min<u64>(q->x.down.total, 4000); } if (q->pace || q->x.cchunk < 10 || q->x.schunk < 10) { q->x.up.total = std::min<u64>(q->x.up.total, 1500); q->x.down.total = std::min<u64>(q->x.down.total, 1500); } if (q->upd) { q->x.up.total = std::min<u64>(q->x.up.total, 8000); }
    }
    auto run = [&](PConn *q) {
        if (!q->lib_client) { spawn("tls-peer", [=, &srv] { int f = peer_connect("127.0.0.1", srv.port); SIM_CHECK(f >= 0, "connect:failed", "a connect to a listening server fails"); TlsPeer *t = new TlsPeer(pcx, f, false); if (q->t12) SSL_set_max_proto_version(t->ssl, TLS1_2_VERSION);
            if (q->early && !p_tickets.empty()) { SSL_SESSION *s = p_tickets.back(); p_tickets.pop_back(); if (SSL_SESSION_get_max_early_data(s) && SSL_SESSION_is_resumable(s)) SSL_set_session(t->ssl, s); else q->early = false; SSL_SESSION_free(s); } else q->early = false; int id = q->x.id; char h[4] = {(char)id, (char)(id >> 8), (char)~id, 'h'}; p_peer(q, t, std::string(h, 4)); }); return; }
        int *lp = new int(0); spawn("tls-peer-server", [=] { int ls = peer_listen_any(lp), f = ::accept4(ls, nullptr, nullptr, 0); ::close(ls); TlsPeer *t = new TlsPeer(ps, f, true); if (q->t12) SSL_set_max_proto_version(t->ssl, TLS1_2_VERSION); p_peer(q, t, ""); }); while (!*lp) sleep_ms(1);
        bool cb = W(2); int port = *lp; kselector *s = L(W(3)); fib(s, [=] { kconnection *c; sockaddr_i a = loop_addr(port); int r = conn_open(&c, &a); SIM_CHECK(r == 0, "connect:failed", "a connect to a listening peer returned %d", r); q->c = c; SIM_CHECK(kconnection_ssl_connect(c, cc, nullptr), "tls:session", "a TLS session cannot be created");
            handshake(c, cb, [=](int r) { SIM_CHECK(r == 0 && finished(c), "tls:handshake-failed", "the client's handshake with a peer returned %d", r); q->hs = 0; fib(s, [=] { p_lib(q); }, STK); }); }, STK);
    };
    bool first = true; for (auto q : pc) { run(q); if (early && first && !q->lib_client) { first = false; wait_for([&] { return q->p_done; }, 170000, "stream:stalled", "the first exchange completes"); } else if (W(2)) sleep_ms(W(100)); }
    wait_for([&] { for (auto q : pc) if (!q->x.done()) return false; return true; }, 170000, "stream:stalled", "exchanges complete");
    for (auto q : pc) {
        std::string st = std::string(q->lib_client ? " [client" : " [server") + (q->early_sent ? " early" : "") + (q->early_ok ? "+" : "") + (q->t12 ? " tls1.2" : "") + (q->upd ? " upd" : "") + (q->half ? " half" : "") + " end " + std::to_string(q->end) + "] read " + std::to_string(q->rlast) + " " + q->x.state() + " peer " + std::to_string(q->p_hs) + std::to_string(q->p_wok) + std::to_string(q->p_rok) + std::to_string(q->p_notify);
        bool odd = q->t12 && fault_count("tls_peer_renegotiate"); if (odd) continue;     // may be refused; the data arrived intact as far as they arrived
        SIM_CHECK(q->p_hs && q->hs == 0, "tls:handshake-failed", "a handshake with a peer fails:%s", st.c_str()); if (q->early_ok) probe("early-data"); else if (q->early_sent) probe("early-refused");
        SIM_CHECK(q->p_wok && q->p_rok && q->wok, "tls:peer-failed", "an exchange with a peer failed:%s", st.c_str()); if (q->end != E_RST) SIM_CHECK(q->rok, "tls:peer-failed", "an exchange with a peer failed:%s", st.c_str());
        if (q->end == E_NOTIFY && !q->lib_closes()) SIM_CHECK(q->rlast == 0, "tls:peer-eof", "the end of a stream was reported as a failure:%s", st.c_str());
        if (q->lib_closes()) SIM_CHECK(q->p_notify, "tls:close-notify", "a regularly closed connection was not announced to the peer:%s", st.c_str());
    }
    srv.close(); srv.release(); wait_for([&] { return srv.freed == 1; }, 3000, "server:not-freed", "a closed server without users is freed"); settle(200);
    wait_for([&] { return tls_live() == live0; }, 65000, "tls:session-leak", "TLS sessions are freed after every connection was closed");
    wait_for([&] { return kfiber_get_count() == b.fibers; }, 3000, "stream:fiber-left", "fibers end"); loops_respond(); check_clean(b, CL_FD | CL_FIBER | CL_COUNT, "tls");
}
// ------------------------------------------------------------------ records: questions and answers; every byte of a record reaches a reader that takes it in pieces, with nothing else arriving
namespace { struct Rec { bool lib_client, t12; std::vector<int> q; std::vector<std::vector<int>> cut; std::vector<int> a; u32 pause; int lib_round = 0, peer_round = 0; bool lib_done = false, peer_done = false; }; std::vector<Rec *> recs; std::map<int, Rec *> rec_port; }
static void rec_lib(Rec *q, kconnection *c) {       // fiber
    for (size_t k = 0; k < q->q.size(); k++) { int off = 0; q->lib_round = k;
        for (int n : q->cut[k]) { char *p = (char *)malloc(n); int want = n; count_op();
            while (want > 0) { int got = kfiber_net_read(c, p, want); SIM_CHECK(got > 0 && got <= want, "stream:read-failed", "a read of %d bytes returned %d after %d of %d bytes of record %zu", want, got, off, q->q[k], k); for (int i = 0; i < got; i++) SIM_CHECK((u8)p[i] == (u8)(off + i + k * 7), "stream:content", "byte %d of record %zu changed", off + i, k); off += got; want -= got; if (want) probe("record-short"); }
            free(p); if (off < q->q[k]) { if (q->q[k] - off == 1) probe("record-last-byte"); if (q->pause && W(2)) kfiber_msleep(W(q->pause)); } }
        char *p = (char *)malloc(q->a[k]); for (int i = 0; i < q->a[k]; i++) p[i] = (char)(i + k * 11); bool w = kfiber_net_write_full(c, p, &q->a[k]); SIM_CHECK(w, "stream:write-failed", "the answer to record %zu cannot be written", k); free(p); }
    kfiber_net_close(c); q->lib_done = true;
}
static void rec_peer(Rec *q, TlsPeer *t, int f, std::vector<int> a) {
    SIM_CHECK(t->handshake(), "tls:handshake-failed", "a peer's handshake fails"); char b[17000];
    for (size_t k = 0; k < q->q.size(); k++) { q->peer_round = k; for (int i = 0; i < q->q[k]; i++) b[i] = (char)(i + k * 7); SIM_CHECK(t->write(b, q->q[k]), "stream:peer-failed", "a peer cannot write record %zu", k);
        int n = 0; while (n < a[k]) { int r = t->read(b, std::min<int>(a[k] - n, 17000)); SIM_CHECK(r > 0, "stream:peer-failed", "a peer's read returned %d after %d of %d bytes of answer %zu", r, n, a[k], k); for (int i = 0; i < r; i++) SIM_CHECK((u8)b[i] == (u8)(n + i + k * 11), "stream:content", "byte %d of answer %zu changed", n + i, k); n += r; } }
    int r = t->read(b, 1); SIM_CHECK(r <= 0, "stream:content", "data after the last answer"); delete t; ::close(f); q->peer_done = true;
}
SCENARIO(C12, records, 2) {
    tls_init(); swarm(FA_EINTR | FA_STALL | FA_LATE | FA_LATENCY | FA_NET | FA_SHORT | FA_EAGAIN | FA_BUF); fit_buffers(); cfg.sndbuf = std::max(cfg.sndbuf, 2000u); cfg.rcvbuf = std::max(cfg.rcvbuf, 2000u); start_loops(1 << W(2)); kssl_set_sni_callback(nullptr, nullptr); recs.clear(); rec_port.clear();
    Cert *leaf = make_cert("a.test", nullptr, false); SSL_CTX *sc = server_ctx(leaf, "", nullptr, nullptr), *cc = kgl_ssl_ctx_new_client(nullptr, nullptr, nullptr), *ps = SSL_CTX_new(TLS_server_method()), *pcx = SSL_CTX_new(TLS_client_method()); SIM_CHECK(sc && cc && ctx_cert(ps, leaf), "tls:context", "contexts");
    Baseline b; int live0 = tls_live(); Srv srv; int n = 1 + W(3);
    srv.on = [&](kconnection *c) { fib(c->st.base.selector, [=] { int from = ntohs(c->addr.v4.sin_port); while (!rec_port.count(from)) kfiber_msleep(1); Rec *q = rec_port[from]; handshake(c, W(2), [=](int r) { SIM_CHECK(r == 0, "tls:handshake-failed", "a handshake with a peer returned %d", r); fib(c->st.base.selector, [=] { rec_lib(q, c); }, STK); }); }, STK); };
    SIM_CHECK(srv.bind("127.0.0.1", 0, kgl_new_ssl_ctx(sc)), "server:bind", "kserver_bind fails"); SIM_CHECK(srv.open(), "server:open", "kserver_open fails"); int port = srv.port;
    for (int i = 0; i < n; i++) { Rec *q = new Rec; recs.push_back(q); q->lib_client = W(3) == 0; q->t12 = W(3) == 0; q->pause = W(2) ? 0 : 1 + W(40); int rounds = 1 + W(6);
        for (int k = 0; k < rounds; k++) { int sz = W(4) ? 1 + W(20) : W(3) ? 1 + W(600) : 1 + W(16384); q->q.push_back(sz); q->a.push_back(W(4) ? 1 + W(10) : 1 + W(3000)); std::vector<int> cut; int left = sz; while (left > 0 && cut.size() < 6) { int c = W(3) == 0 ? left : W(3) && left > 1 ? left - 1 : 1 + W(left); cut.push_back(c); left -= c; } if (left) cut.push_back(left); q->cut.push_back(cut); }
        auto a = q->a;
        if (!q->lib_client) spawn("tls-peer", [=] { int f = peer_connect("127.0.0.1", port); SIM_CHECK(f >= 0, "connect:failed", "a connect to a listening server fails"); sockaddr_i la; socklen_t l = sizeof la; getsockname(f, (sockaddr *)&la, &l); rec_port[ntohs(la.v4.sin_port)] = q; TlsPeer *t = new TlsPeer(pcx, f, false); if (q->t12) SSL_set_max_proto_version(t->ssl, TLS1_2_VERSION); rec_peer(q, t, f, a); });
        else { int *lp = new int(0); spawn("tls-peer-server", [=] { int ls = peer_listen_any(lp), f = ::accept4(ls, nullptr, nullptr, 0); ::close(ls); TlsPeer *t = new TlsPeer(ps, f, true); if (q->t12) SSL_set_max_proto_version(t->ssl, TLS1_2_VERSION); rec_peer(q, t, f, a); }); while (!*lp) sleep_ms(1);
            int lport = *lp; kselector *s = L(W(3)); bool cb = W(2); fib(s, [=] { kconnection *c; sockaddr_i ad = loop_addr(lport); int r = conn_open(&c, &ad); SIM_CHECK(r == 0, "connect:failed", "a connect to a listening peer returned %d", r); SIM_CHECK(kconnection_ssl_connect(c, cc, nullptr), "tls:session", "a TLS session cannot be created"); handshake(c, cb, [=](int r) { SIM_CHECK(r == 0, "tls:handshake-failed", "a handshake with a peer returned %d", r); fib(s, [=] { rec_lib(q, c); }, STK); }); }, STK); }
        if (W(2)) sleep_ms(W(30)); }
    std::string st; auto all = [&] { for (auto q : recs) if (!q->lib_done || !q->peer_done) return false; return true; };
    for (int i = 0; i < 170 && !all(); i++) sleep_ms(500);
    for (auto q : recs) if (!q->lib_done || !q->peer_done) violation("stream:stalled", "an exchange of %s hangs: the library's end is in round %d, the peer in round %d of %zu, record of %d bytes", q->lib_client ? "a client" : "a server", q->lib_round, q->peer_round, q->q.size(), q->q[q->lib_round]);
    srv.close(); srv.release(); wait_for([&] { return srv.freed == 1; }, 3000, "server:not-freed", "a closed server without users is freed"); settle(200);
    wait_for([&] { return tls_live() == live0; }, 65000, "tls:session-leak", "TLS sessions are freed after every connection was closed");
    wait_for([&] { return kfiber_get_count() == b.fibers; }, 3000, "stream:fiber-left", "fibers end"); loops_respond(); check_clean(b, CL_FD | CL_FIBER | CL_COUNT, "tls");
}
// ------------------------------------------------------------------ contexts: unusable credentials are refused; replacing the context of an open server
SCENARIO(C12, contexts, 1) {
    tls_init(); swarm(FA_EINTR | FA_LATE | FA_NET | FA_SHORT | FA_EAGAIN); fit_buffers(); start_loops(1 << W(3)); kssl_set_sni_callback(nullptr, nullptr);
    Cert *ca = make_cert("root", nullptr, true); int gens = 1 + W(4); std::vector<Cert *> cs; for (int i = 0; i <= gens; i++) cs.push_back(make_cert(std::to_string(i).c_str(), ca, false));
    {   // unusable credentials
        Cert bad = *cs[0]; int kind = W(7); std::string cut; bool files = W(2), must_fail = true; std::string caf; const char *CA = nullptr;
        switch (kind) {
        case 0: bad.keypem = cs[1]->keypem; break;                                                     // another certificate's key
        case 1: bad.keypem = cs[0]->keypem.substr(0, W(cs[0]->keypem.size() - 30)); break;
        case 2: bad.pem = cs[0]->pem.substr(0, W(cs[0]->pem.size() - 30)); if (!bad.pem.size()) bad.pem = "-"; break;
        case 3: bad.keypem = bad.pem; break;
        case 4: caf = "/nonexistent/ca.pem"; CA = caf.c_str(); break;
        case 5: caf = mem_file("no certificate here\n"); CA = caf.c_str(); break;
        case 6: must_fail = false; break;
        }
        SSL_CTX *x = server_ctx(&bad, "", CA, nullptr, files); SIM_CHECK((x == nullptr) == must_fail, must_fail ? "tls:bad-context" : "tls:context", "a server context with %s credentials (case %d, %s) was %s", must_fail ? "unusable" : "proper", kind, files ? "files" : "memory", x ? "made" : "refused"); if (x) SSL_CTX_free(x);
        ERR_clear_error();
    }
    SSL_CTX *pcx = SSL_CTX_new(TLS_client_method()); Baseline b; int live0 = tls_live(); Srv srv; static int latest, settled; latest = settled = 0; int n = 1 + W(6), left = 0, served = 0, ok = 0;
    srv.on = [&](kconnection *c) { SIM_CHECK(c->st.ssl, "tls:plain-accepted", "a server with a TLS context accepted a connection without a session"); fib(c->st.base.selector, [=, &served] { int r = kfiber_ssl_handshake(c); SIM_CHECK(r == 0, "tls:handshake-failed", "a handshake with a peer returned %d", r); char *p = (char *)malloc(1); int got = kfiber_net_read(c, p, 1); SIM_CHECK(got == 1 && *p == 'q', "stream:content", "a read returned %d", got); got = kfiber_net_write(c, p, 1); SIM_CHECK(got == 1, "stream:write-failed", "a write returned %d", got); free(p); served++; kfiber_net_close(c); return 0; }, STK); };
    auto mk = [&](int g) { SSL_CTX *x = server_ctx(cs[g], "", nullptr, nullptr); SIM_CHECK(x, "tls:context", "context"); return kgl_new_ssl_ctx(x); };
    bool late = W(3) == 0;      // bound without a context first
    SIM_CHECK(srv.bind("127.0.0.1", 0, late ? nullptr : mk(0)), "server:bind", "kserver_bind fails"); if (late) kserver_set_ssl_ctx(srv.s, mk(0));
    bool upd = false; auto updater = [&] { spawn("updater", [&] { for (int g = 1; g <= gens; g++) { if (P(2)) sleep_ms(P(30)); if (P(2)) kserver_set_ssl_ctx(srv.s, nullptr); latest = g; kserver_set_ssl_ctx(srv.s, mk(g)); count_op(); if (P(2)) kserver_set_ssl_ctx(srv.s, nullptr); if (P(3)) { loops_respond(); sleep_ms(60); loops_respond(); settled = g; /* messages to a loop are not in order */ } } upd = true; }); };
    bool during = W(2); if (during) { updater(); if (P(2)) sleep_ms(P(4)); }      // replaced while the server is being opened
    if (W(2)) SIM_CHECK(srv.open(), "server:open", "kserver_open fails"); else post_wait(L(W(3)), [&] { SIM_CHECK(srv.open(), "server:open", "kserver_open fails"); }); int port = srv.port; if (!during) updater();
    left = n; for (int i = 0; i < n; i++) { u32 d = W(60); spawn("tls-peer", [=, &left, &ok] { sleep_ms(d); int lo = settled, f = peer_connect("127.0.0.1", port); SIM_CHECK(f >= 0, "connect:failed", "a connect to a listening server fails"); TlsPeer *t = new TlsPeer(pcx, f, false); bool h = t->handshake(); SIM_CHECK(h, "tls:handshake-failed", "a peer's handshake fails");
        X509 *x = SSL_get1_peer_certificate(t->ssl); char cn[20] = ""; X509_NAME_get_text_by_NID(X509_get_subject_name(x), NID_commonName, cn, sizeof cn); X509_free(x); int g = atoi(cn);
        SIM_CHECK(g >= lo && g <= latest, "tls:stale-context", "a connection made after context %d took effect was served with context %d", lo, g); if (g) probe("replaced-context");
        char p = 'q'; bool w = t->write(&p, 1); p = 0; int r = t->read(&p, 1); SIM_CHECK(w && r == 1 && p == 'q', "stream:content", "the echo of one byte returned %d", r); ok++; r = t->read(&p, 1); SIM_CHECK(r <= 0, "stream:content", "data after the end"); delete t; ::close(f); left--; }); }
    wait_for([&] { return upd && left == 0; }, 120000, "stream:stalled", "exchanges complete"); SIM_CHECK(ok == n && served == n, "server:delivery", "%d of %d connections served", served, n);
    srv.close(); srv.release(); wait_for([&] { return srv.freed == 1; }, 3000, "server:not-freed", "a closed server without users is freed"); settle(200);
    wait_for([&] { return tls_live() == live0; }, 65000, "tls:session-leak", "TLS sessions are freed after every connection was closed");
    wait_for([&] { return kfiber_get_count() == b.fibers; }, 3000, "stream:fiber-left", "fibers end"); loops_respond(); check_clean(b, CL_FD | CL_FIBER | CL_COUNT, "tls");
}
// ------------------------------------------------------------------ a context set to some protocol versions speaks these and no other
namespace { struct VConn { int v; bool lib_client, want; int hs = 99, got = 0; bool p_ok = false, done = false, p_done = false; }; std::vector<VConn *> vc; std::map<int, VConn *> v_port; }
SCENARIO(C12, versions, 1) {
    tls_init(); swarm(FA_EINTR | FA_LATE | FA_NET | FA_SHORT | FA_EAGAIN); fit_buffers(); start_loops(1 << W(2)); kssl_set_sni_callback(nullptr, nullptr); vc.clear(); v_port.clear();
    static const char *NM[] = {"TLSv1", "TLSv1.1", "TLSv1.2", "TLSv1.3"}; static const int V[] = {TLS1_VERSION, TLS1_1_VERSION, TLS1_2_VERSION, TLS1_3_VERSION}; static const char *SP[] = {" ", "  ", "\t", "\n", " \t "};
    Cert *leaf = make_cert("a.test", nullptr, false); SSL_CTX *sc = server_ctx(leaf, "", nullptr, nullptr), *cc = kgl_ssl_ctx_new_client(nullptr, nullptr, nullptr), *ps = SSL_CTX_new(TLS_server_method()), *pcx = SSL_CTX_new(TLS_client_method()); SIM_CHECK(sc && cc && ctx_cert(ps, leaf), "tls:context", "contexts");
    if (W(2)) SIM_CHECK(!kgl_ssl_ctx_set_cipher_list(sc, "NO-SUCH-CIPHER"), "tls:bad-context", "a list without any known cipher is accepted");
    for (SSL_CTX *x : {sc, cc}) SIM_CHECK(kgl_ssl_ctx_set_cipher_list(x, "ALL:@SECLEVEL=0"), "tls:context", "a cipher list is refused"); for (SSL_CTX *x : {ps, pcx}) SSL_CTX_set_cipher_list(x, "ALL:@SECLEVEL=0");
    auto restrict = [&](SSL_CTX *x, bool gaps) { u32 mask = 0; bool two = W(3) == 0; for (int again = two; again >= 0; again--) {
        if (gaps) mask = W(16); else { int lo = W(4), hi = lo + W(4 - lo); mask = 0; for (int i = lo; i <= hi; i++) mask |= 1 << i; } if (!mask && two) mask = 1 + W(15);   /* an empty list does not lift an earlier one */
        std::vector<const char *> l; for (int i = 0; i < 4; i++) if (mask >> i & 1) { l.push_back(NM[i]); if (W(8) == 0) l.push_back(NM[i]); } if (mask && W(4) == 0) l.push_back("SSLv3"); if (mask && W(8) == 0) l.push_back("unknown"); for (size_t i = l.size(); i > 1; i--) std::swap(l[i - 1], l[W(i)]);
        std::string s; if (l.size() && W(4) == 0) s = SP[W(5)]; for (size_t i = 0; i < l.size(); i++) { if (i) s += SP[W(3) ? 0 : W(5)]; s += l[i]; } if (l.size() && W(4) == 0) s += SP[W(5)]; if (W(4) == 0) for (auto &ch : s) ch = W(2) ? toupper(ch) : tolower(ch);
        kgl_ssl_ctx_set_protocols(x, mask ? s.c_str() : W(2) ? "" : nullptr); } return mask; };
    u32 sm = restrict(sc, true), cm = restrict(cc, false); (void)sm;
    Baseline b; int live0 = tls_live(); Srv srv; int n = 1 + W(6); auto lib_end = [](VConn *q, kconnection *c, int r) { q->hs = r; if (r == 0) { int v = SSL_version(c->st.ssl->ssl); SIM_CHECK(v == V[q->v], "tls:version", "a handshake with a peer that only speaks %s settled on version %x", NM[q->v], v); char *p = (char *)malloc(1); q->got = kfiber_net_read(c, p, 1); if (q->got == 1) { SIM_CHECK(*p == 'q', "stream:content", "the byte changed"); kfiber_net_write(c, p, 1); } free(p); } kfiber_net_close(c); q->done = true; };
    srv.on = [&](kconnection *c) { fib(c->st.base.selector, [=] { int from = ntohs(c->addr.v4.sin_port); while (!v_port.count(from)) kfiber_msleep(1); VConn *q = v_port[from]; handshake(c, W(2), [=](int r) { fib(c->st.base.selector, [=] { lib_end(q, c, r); }, STK); }); }, STK); };
    SIM_CHECK(srv.bind("127.0.0.1", 0, kgl_new_ssl_ctx(sc)), "server:bind", "kserver_bind fails"); SIM_CHECK(srv.open(), "server:open", "kserver_open fails"); int port = srv.port;
    auto peer_end = [](VConn *q, TlsPeer *t, int f) { if (t->handshake()) { char p = 'q'; bool w = t->write(&p, 1); p = 0; q->p_ok = w && t->read(&p, 1) == 1 && p == 'q'; char z; t->read(&z, 1); } delete t; ::close(f); q->p_done = true; };
    for (int i = 0; i < n; i++) { VConn *q = new VConn{(int)W(4), W(3) == 0}; vc.push_back(q); u32 m = q->lib_client ? cm : sm; q->want = !m || (m >> q->v & 1);
        if (!q->lib_client) { spawn("tls-peer", [=] { int f = peer_connect("127.0.0.1", port); SIM_CHECK(f >= 0, "connect:failed", "a connect to a listening server fails"); sockaddr_i la; socklen_t l = sizeof la; getsockname(f, (sockaddr *)&la, &l); TlsPeer *t = new TlsPeer(pcx, f, false); SSL_set_min_proto_version(t->ssl, V[q->v]); SSL_set_max_proto_version(t->ssl, V[q->v]); v_port[ntohs(la.v4.sin_port)] = q; peer_end(q, t, f); }); }
        else { int *lp = new int(0); spawn("tls-peer-server", [=] { int ls = peer_listen_any(lp), f = ::accept4(ls, nullptr, nullptr, 0); ::close(ls); TlsPeer *t = new TlsPeer(ps, f, true); SSL_set_min_proto_version(t->ssl, V[q->v]); SSL_set_max_proto_version(t->ssl, V[q->v]); peer_end(q, t, f); }); while (!*lp) sleep_ms(1);
            int lport = *lp; kselector *s = L(W(3)); fib(s, [=] { kconnection *c; sockaddr_i a = loop_addr(lport); int r = conn_open(&c, &a); SIM_CHECK(r == 0, "connect:failed", "a connect to a listening peer returned %d", r); SIM_CHECK(kconnection_ssl_connect(c, cc, nullptr), "tls:session", "a TLS session cannot be created"); handshake(c, W(2), [=](int r) { fib(s, [=] { lib_end(q, c, r); }, STK); }); }, STK); }
        if (W(2)) sleep_ms(W(30)); }
    wait_for([&] { for (auto q : vc) if (!q->done || !q->p_done) return false; return true; }, 120000, "tls:stuck", "handshakes and exchanges end");
    for (auto q : vc) { const char *who = q->lib_client ? "client" : "server"; hash_event(0x1207, q->want); if (q->want) { probe("version-spoken"); SIM_CHECK(q->hs == 0 && q->got == 1 && q->p_ok, "tls:handshake-failed", "a %s context that allows %s does not serve a peer speaking it: handshake %d, read %d, peer %d", who, NM[q->v], q->hs, q->got, q->p_ok); } else { probe("version-refused"); SIM_CHECK(q->hs < 0 || q->got <= 0, "tls:version", "data arrived over %s although the %s context does not allow it", NM[q->v], who); SIM_CHECK(q->lib_client || q->hs < 0, "tls:version", "a handshake over %s succeeds although the %s context does not allow it", NM[q->v], who); } }
    srv.close(); srv.release(); wait_for([&] { return srv.freed == 1; }, 3000, "server:not-freed", "a closed server without users is freed"); settle(200);
    wait_for([&] { return tls_live() == live0; }, 65000, "tls:session-leak", "TLS sessions are freed after every connection was closed");
    wait_for([&] { return kfiber_get_count() == b.fibers; }, 3000, "stream:fiber-left", "fibers end"); loops_respond(); check_clean(b, CL_FD | CL_FIBER | CL_COUNT, "tls");
}
