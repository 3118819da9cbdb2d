#include "net.h"
#include <sys/un.h>
#include <arpa/inet.h>
#include <netdb.h>
kev_result s_accept_hook(KOPAQUE, void *arg, int) { kconnection *c = (kconnection *)arg; Srv *s = srv_of(c); s->accepted++; hash_event(0xacc, loop_index(c->st.base.selector)); s->on(c); return kev_ok; }
static Srv *bare_srv;       // the one server of a run whose opaque data is NULL
Srv *srv_of(kconnection *c) { return c->server->data ? (Srv *)c->server->data : bare_srv; }
static void srv_freed(KOPAQUE d) { (d ? (Srv *)d : bare_srv)->freed++; }
bool Srv::bind(const char *ip, int p, kgl_ssl_ctx *ssl) { s = kserver_init(); if (bare) bare_srv = this; kserver_set_opaque(s, srv_freed, bare ? nullptr : (KOPAQUE)this); return kserver_bind(s, ip, p, ssl); }
bool Srv::open(int flag, result_callback cb) { bool r = kserver_open(s, flag, cb ? cb : s_accept_tramp); port = ksocket_addr_port(&s->addr); closed = false; return r; }
sockaddr_i loop_addr(int port) { return addr4("127.0.0.1", port); }
int peer_listen_any(int *port) { return peer_listen("127.0.0.1", 0, 128, port); }

void Pipe::got(const void *b, i64 n) {
    SIM_CHECK(rcvd + n <= promised, "stream:invented", "%s: %lld bytes received at offset %llu but only %llu were ever written", name.c_str(), (long long)n, (unsigned long long)rcvd, (unsigned long long)promised);
    i64 bad = patcheck(seed, rcvd, b, n);
    if (bad >= 0) {
        // say what happened to the bytes: lost or repeated
        i64 shift = 0; bool found = false; size_t m = std::min<i64>(n - bad, 24); if (m >= 6) for (i64 d = -60000; d <= 60000 && !found; d++) { if (d == 0 || (i64)rcvd + bad + d < 0) continue; if (patcheck(seed, rcvd + bad + d, (const char *)b + bad, m) < 0) { found = true; shift = d; } }
        violation("stream:content", "%s: the byte at offset %llu is not the one written (%s)", name.c_str(), (unsigned long long)(rcvd + bad), !found ? "foreign data" : shift > 0 ? "bytes were lost" : "bytes were repeated");
    }
    rcvd += n; count_op(); hash_event(0x9e7, n);
}
static u32 part(u32 chunk) { u32 m = P(4); return m == 0 ? chunk : m == 1 ? 1 + P(std::min(chunk, 16u)) : 1 + P(chunk); }
bool pipe_write(kconnection *c, Pipe *p, u32 chunk, u32 style, u64 until) {
    if (until > p->total) until = p->total;
    while (p->sent < until) {
        if ((style & 4) && P(3) == 0) kfiber_msleep(P(12));
        u64 left = until - p->sent; u32 n = std::min<u64>(part(chunk), left); u64 at = p->sent, was = p->promised; p->promised = std::max(was, at + n);   // an earlier write that failed may have sent more than `sent`
        char *b = (char *)malloc(n); patfill(p->seed, at, b, n); std::string copy(b, n);
        i64 took; bool full = style & 2;
        if (style & 1) {
            std::vector<kgl_iovec> v; std::vector<char *> bufs; u32 o = 0; int k = 1 + P(5);
            for (int i = 0; i < k || o < n; i++) { u32 m = i + 1 >= k ? n - o : P(std::min(n - o, 4000u) + 1); if (P(6) == 0 && i + 1 < k) m = 0; char *e = (char *)malloc(m ? m : 1); memcpy(e, b + o, m); kgl_iovec w; w.iov_base = e; w.iov_len = m; v.push_back(w); bufs.push_back(e); o += m; if (i > 20 && o < n) k = i + 2; }
            if (P(5) == 0) { kgl_iovec w; w.iov_base = b; w.iov_len = 0; v.push_back(w); }
            int bc = v.size(); auto v0 = v;
            if (full) { took = kfiber_net_writev_full(c, v.data(), &bc); SIM_CHECK(took <= n, "stream:count", "%s: writev_full of %u bytes returned %lld", p->name.c_str(), n, (long long)took); if (took == n) SIM_CHECK(bc == 0, "stream:writev-full", "%s: writev_full wrote all %u bytes but reports %d buffers left", p->name.c_str(), n, bc); else took = -1; }
            else took = kfiber_net_writev(c, v.data(), bc);
            for (char *e : bufs) free(e);
        } else if (full) { int l = n; bool ok = kfiber_net_write_full(c, b, &l); SIM_CHECK(l >= 0 && l <= (int)n && (ok == (l == 0)), "stream:count", "%s: write_full of %u bytes returned %d with %d left", p->name.c_str(), n, ok, l); took = ok ? (i64)n : -1; }
        else took = kfiber_net_write(c, b, n);
        SIM_CHECK(!memcmp(b, copy.data(), n), "stream:source-modified", "%s: a write modified its source buffer", p->name.c_str()); free(b);
        SIM_CHECK(took <= (i64)n && took != 0, "stream:count", "%s: a write of %u bytes returned %lld", p->name.c_str(), n, (long long)took);
        if (took < 0) return false;
        p->sent += took; p->promised = std::max(was, p->sent); count_op();
    }
    return true;
}
bool pipe_read(kconnection *c, Pipe *p, u32 chunk, u32 style, u64 until) {
    if (until > p->total) until = p->total;
    while (p->rcvd < until) {
        if ((style & 4) && P(3) == 0) kfiber_msleep(P(12));
        bool full = (style & 2) && P(2); u64 left = until - p->rcvd; u32 n = part(chunk); if (full || until < p->total) n = std::min<u64>(n, left);
        i64 got;
        if (full) { char *b = (char *)malloc(n); int l = n; bool ok = kfiber_net_read_full(c, b, &l); SIM_CHECK(l >= 0 && l <= (int)n && ok == (l == 0), "stream:count", "%s: read_full of %u bytes returned %d with %d left", p->name.c_str(), n, ok, l); p->got(b, n - l); free(b); if (!ok) { return false; } continue; }
        if (style & 1) {
            int k = 1 + P(4); std::vector<kgl_iovec> v; u32 o = 0; for (int i = 0; i < k; i++) { u32 m = i + 1 == k ? n - o : P(n - o + 1); kgl_iovec w; w.iov_base = malloc(m ? m : 1); w.iov_len = m; v.push_back(w); o += m; }
            got = kfiber_net_readv(c, v.data(), k);
            if (got > (i64)n) violation("stream:count", "%s: a read into %u bytes returned %lld", p->name.c_str(), n, (long long)got);
            if (got > 0) { i64 r = got; for (auto &w : v) { i64 m = std::min<i64>(r, w.iov_len); if (m) p->got(w.iov_base, m); r -= m; } }
            for (auto &w : v) free(w.iov_base);
        } else { char *b = (char *)malloc(n); got = kfiber_net_read(c, b, n); if (got > (i64)n) violation("stream:count", "%s: a read into %u bytes returned %lld", p->name.c_str(), n, (long long)got); if (got > 0) p->got(b, got); free(b); }
        if (got == 0) p->eof = true;
        if (got <= 0) return false;
    }
    return true;
}
void expect_eof(kconnection *c, Pipe *p, const char *key) {
    char *b = (char *)malloc(64); int got = kfiber_net_read(c, b, 64);
    SIM_CHECK(got <= 0, "stream:invented", "%s: %d bytes after everything that was written", p->name.c_str(), got);
    SIM_CHECK(got == 0, key, "%s: the peer closed after sending everything, the read returned %d and not end-of-stream", p->name.c_str(), got);
    p->eof = true; free(b);
}
std::string any_host(const char *path) { u32 m = W(6); if (m == 5) probe("unix"); if (m == 4) probe("ipv6"); return m == 5 ? path : m == 4 ? "::1" : "127.0.0.1"; }
kconnection *conn_new(const std::string &host, int port) {
    union { sockaddr_i a; sockaddr_un u; } x; memset(&x, 0, sizeof x);
    if (host[0] == '/') { x.u.sun_family = AF_UNIX; strcpy(x.u.sun_path, host.c_str()); return kfiber_net_open(&x.a); }
    bool v6 = strchr(host.c_str(), ':'); if (v6) { x.a.v6.sin6_family = AF_INET6; x.a.v6.sin6_port = htons(port); inet_pton(AF_INET6, host.c_str(), &x.a.v6.sin6_addr); } else x.a = addr4(host.c_str(), port);
    if (W(2)) return kfiber_net_open(&x.a);
    struct addrinfo ai; memset(&ai, 0, sizeof ai); ai.ai_family = v6 ? AF_INET6 : AF_INET; ai.ai_addr = (sockaddr *)&x.a; ai.ai_addrlen = v6 ? sizeof x.a.v6 : sizeof x.a.v4; (v6 ? x.a.v6.sin6_port : x.a.v4.sin_port) = W(2) ? htons(9) : 0;   // lists carry no port
    return kfiber_net_open2(&ai, port);
}
static int conn_retry(kconnection **out, std::function<kconnection *()> mk) {
    for (;;) {
        u64 inj = fault_count("connect_error") + fault_count("socket_emfile") + fault_count("epoll_ctl_enomem"); kconnection *c = mk(); int r = kfiber_net_connect(c, nullptr, 0);
        if (r == 0) { *out = c; return 0; }
        kfiber_net_close(c);
        if (fault_count("connect_error") + fault_count("socket_emfile") + fault_count("epoll_ctl_enomem") == inj) { *out = nullptr; return r; }
        kfiber_msleep(5);
    }
}
int conn_open(kconnection **out, sockaddr_i *a) { return conn_retry(out, [=] { return kfiber_net_open(a); }); }
int conn_open(kconnection **out, const std::string &host, int port) { return conn_retry(out, [=] { return conn_new(host, port); }); }
// ------------------------------------------------------------------ exchanges
std::string Xfer::state() const { char b[200]; snprintf(b, sizeof b, "exchange %d: up %llu/%llu sent %llu, down %llu/%llu sent %llu, %d ends open", id, (unsigned long long)up.rcvd, (unsigned long long)up.total, (unsigned long long)up.sent, (unsigned long long)down.rcvd, (unsigned long long)down.total, (unsigned long long)down.sent, ends_left); return b; }
bool hello_send(kconnection *c, int id) { char b[4] = {(char)id, (char)(id >> 8), (char)~id, 'h'}; int l = 4; return kfiber_net_write_full(c, b, &l); }
int hello_recv(kconnection *c) { char *b = (char *)malloc(4); int l = 4; int id = -1; if (kfiber_net_read_full(c, b, &l)) { id = (u8)b[0] | (u8)b[1] << 8; SIM_CHECK(b[3] == 'h' && (u8)b[2] == (u8)~b[0], "stream:content", "the first bytes of a connection are not those sent"); } free(b); return id; }
struct EndState { kconnection *c; Xfer *x; Pipe *out, *in; u32 chunk, style; bool closer, rdone = false, wdone = false, closed = false; };
static EndState *end_of(kconnection *c, Xfer *x, bool client) { EndState *e = new EndState; e->c = c; e->x = x; e->out = client ? &x->up : &x->down; e->in = client ? &x->down : &x->up; e->chunk = client ? x->cchunk : x->schunk; e->style = client ? x->cstyle : x->sstyle; e->closer = client == x->client_closes; return e; }
static void end_close(EndState *e) { e->closed = true; kfiber_net_close(e->c); e->x->ends_left--; delete e; }
void xfer_fiber_end(kconnection *c, Xfer *x, bool client) {
    EndState *e = end_of(c, x, client);
    fib(nullptr, [=] {
        bool ok = pipe_write(c, e->out, e->chunk, e->style);
        SIM_CHECK(ok, "stream:write-failed", "%s: a write failed on a healthy connection after %llu of %llu bytes", e->out->name.c_str(), (unsigned long long)e->out->sent, (unsigned long long)e->out->total);
        e->wdone = true; if (e->closer && e->rdone) end_close(e);
    }, 65536);
    bool ok = pipe_read(c, e->in, e->chunk, e->style);
    SIM_CHECK(ok, "stream:read-failed", "%s: a read failed on a healthy connection after %llu of %llu bytes", e->in->name.c_str(), (unsigned long long)e->in->rcvd, (unsigned long long)e->in->total);
    if (e->closer) { e->rdone = true; if (e->wdone) end_close(e); return; }
    expect_eof(c, e->in, "stream:eof");
    e->rdone = true; for (int i = 0; !e->wdone; i++) { SIM_CHECK(i < 2000, "stream:write-failed", "%s: a write whose bytes were all taken does not complete", e->out->name.c_str()); kfiber_msleep(2); }
    end_close(e);
}
// callback style
struct CbEnd { EndState *e; std::vector<kgl_iovec> rv, wv; kgl_iovec rd, wr; int rlen = 0, wlen = 0; std::vector<void *> rb, wb; };
static kev_result cb_read(CbEnd *d); static kev_result cb_write(CbEnd *d);
static kev_result cb_fin(CbEnd *d) {
    EndState *e = d->e;
    if (e->rdone && e->wdone && !e->closed) { e->closed = true; kconnection_destroy(e->c); e->x->ends_left--; delete e; delete d; return kev_destroy; }
    return kev_ok;
}
static kev_result cb_on_read(KOPAQUE, void *arg, int got) {
    CbEnd *d = (CbEnd *)arg; EndState *e = d->e; Pipe *p = e->in;
    SIM_CHECK(d->rlen > 0, "stream:twice", "%s: a read completed twice", p->name.c_str());
    SIM_CHECK(got <= d->rlen, "stream:count", "%s: a read into %d bytes returned %d", p->name.c_str(), d->rlen, got);
    i64 r = got; for (size_t i = 0; i < d->rv.size() && r > 0; i++) { i64 m = std::min<i64>(r, d->rv[i].iov_len); if (m) p->got(d->rv[i].iov_base, m); r -= m; }
    for (void *b : d->rb) free(b); d->rb.clear(); d->rv.clear(); d->rlen = 0;
    if (got <= 0) {
        SIM_CHECK(p->rcvd == p->total && !e->closer, "stream:read-failed", "%s: a read returned %d on a healthy connection after %llu of %llu bytes", p->name.c_str(), got, (unsigned long long)p->rcvd, (unsigned long long)p->total);
        SIM_CHECK(got == 0, "stream:eof", "%s: the peer closed after sending everything, the read returned %d and not end-of-stream", p->name.c_str(), got);
        p->eof = true; e->rdone = true; return cb_fin(d);
    }
    if (p->rcvd == p->total && e->closer) { e->rdone = true; return cb_fin(d); }
    return cb_read(d);
}
static kev_result cb_read(CbEnd *d) {
    EndState *e = d->e; u32 n = part(e->chunk), o = 0; int k = e->style & 1 ? 1 + P(4) : 1;
    for (int i = 0; i < k; i++) { u32 m = i + 1 == k ? n - o : P(n - o + 1); kgl_iovec w; w.iov_base = malloc(m ? m : 1); w.iov_len = m; d->rv.push_back(w); d->rb.push_back(w.iov_base); o += m; }
    d->rlen = n; d->rd.iov_base = d->rv.data(); d->rd.iov_len = d->rv.size();
    return selectable_read(&e->c->st, cb_on_read, &d->rd, d);
}
static kev_result cb_on_write(KOPAQUE, void *arg, int got) {
    CbEnd *d = (CbEnd *)arg; EndState *e = d->e; Pipe *p = e->out;
    SIM_CHECK(d->wlen > 0, "stream:twice", "%s: a write completed twice", p->name.c_str());
    SIM_CHECK(got <= d->wlen && got != 0, "stream:count", "%s: a write of %d bytes returned %d", p->name.c_str(), d->wlen, got);
    SIM_CHECK(got > 0, "stream:write-failed", "%s: a write failed on a healthy connection after %llu of %llu bytes", p->name.c_str(), (unsigned long long)p->sent, (unsigned long long)p->total);
    u64 at = p->sent; for (auto &w : d->wv) { SIM_CHECK(patcheck(p->seed, at, w.iov_base, w.iov_len) < 0, "stream:source-modified", "%s: a write modified its source buffer", p->name.c_str()); at += w.iov_len; }
    for (void *b : d->wb) free(b); d->wb.clear(); d->wv.clear(); d->wlen = 0;
    p->sent += got; p->promised = p->sent; count_op();
    return cb_write(d);
}
static kev_result cb_next_write(KOPAQUE, void *arg, int) { return cb_write((CbEnd *)arg); }
static kev_result cb_write(CbEnd *d) {
    EndState *e = d->e; Pipe *p = e->out;
    if (p->sent == p->total) { e->wdone = true; return cb_fin(d); }
    u32 n = std::min<u64>(part(e->chunk), p->total - p->sent), o = 0; int k = e->style & 1 ? 1 + P(4) : 1; p->promised = p->sent + n;
    for (int i = 0; i < k; i++) { u32 m = i + 1 == k ? n - o : P(n - o + 1); kgl_iovec w; w.iov_base = malloc(m ? m : 1); w.iov_len = m; patfill(p->seed, p->sent + o, w.iov_base, m); d->wv.push_back(w); d->wb.push_back(w.iov_base); o += m; }
    d->wlen = n; d->wr.iov_base = d->wv.data(); d->wr.iov_len = d->wv.size();
    return selectable_write(&e->c->st, cb_on_write, &d->wr, d);
}
static kev_result cb_next_read(KOPAQUE, void *arg, int) { CbEnd *d = (CbEnd *)arg; return cb_read(d); }
void xfer_cb_end(kconnection *c, Xfer *x, bool client) {
    CbEnd *d = new CbEnd; d->e = end_of(c, x, client); EndState *e = d->e;
    bool nothing_in = e->in->total == 0 && e->closer, nothing_out = e->out->total == 0;
    if (nothing_in) e->rdone = true;
    if (nothing_out) e->wdone = true;
    if (nothing_in && nothing_out) { cb_fin(d); return; }
    bool nextr = e->style & 4, nextw = e->style & 2;
    if (!nothing_in) { if (nextr) selectable_next_read(&c->st, cb_next_read, d); else if (cb_read(d) == kev_destroy) return; }
    if (!nothing_out) { if (nextw) selectable_next_write(&c->st, cb_next_write, d); else cb_write(d); }
}
// scripted peer: the calling thread reads, a second one writes
void xfer_peer_end(int fd, Xfer *x, bool client) {
    EndState *e = end_of(nullptr, x, client); int me = self();
    spawn("peer-writer", [=] {
        peer_adopt(me); Pipe *p = e->out;
        while (p->sent < p->total) { if ((e->style & 4) && P(3) == 0) sleep_ms(P(20)); u32 n = std::min<u64>(part(e->chunk), p->total - p->sent); std::string b(n, 0); patfill(p->seed, p->sent, &b[0], n); p->promised = p->sent + n; SIM_CHECK(peer_send(fd, b.data(), n), "stream:write-failed", "%s: the connection broke", p->name.c_str()); p->sent += n; }
        e->wdone = true;
    });
    Pipe *p = e->in; char *b = new char[e->chunk];
    while (p->rcvd < p->total || !e->closer) {
        if ((e->style & 4) && P(3) == 0) sleep_ms(P(20));
        ssize_t r = ::recv(fd, b, part(e->chunk), 0);
        if (r > 0) p->got(b, r);
        else { SIM_CHECK(p->rcvd == p->total, "stream:read-failed", "%s: the connection ended after %llu of %llu bytes (%zd)", p->name.c_str(), (unsigned long long)p->rcvd, (unsigned long long)p->total, r); SIM_CHECK(r == 0, "stream:eof", "%s: reset instead of end of stream", p->name.c_str()); break; }
    }
    while (!e->wdone) sleep_ms(1);
    ::close(fd); x->ends_left--; delete[] b; delete e;
}
