// C14: sending a file over a connection transfers exactly that part of the file.
#include "net.h"
namespace {
struct Conn { int id; std::string expect, pend, got; bool eof = false, reset = false, done = false, failed = false, peer_bad = false, cut = false; u32 pace; i64 slept = 0; int cb_calls = 0; kconnection *c = nullptr; u64 limit = ~0ULL; Stamp *bad_at = nullptr; Pipe in; bool rdone = true, wr_end = true; };
int live, shrink = 1; std::string content(u32 seed, i64 n) { std::string s(n, 0); if (n) patfill(seed, 0, &s[0], n); return s; }
void got_bytes(Conn *x, const char *b, i64 n) {
    for (i64 i = 0; i < n; i++) { size_t k = x->got.size(); char w; if (k < x->expect.size()) w = x->expect[k]; else if (k - x->expect.size() < x->pend.size()) w = x->pend[k - x->expect.size()]; else { violation("sendfile:extra", "connection %d: the peer received %zu bytes, %zu were reported as sent and %zu more asked for", x->id, k + 1, x->expect.size(), x->pend.size()); }
        if (b[i] != w) violation("sendfile:content", "connection %d: byte %zu of the stream differs from what was sent", x->id, k); x->got.push_back(b[i]); }
}
void peer_reader(Conn *x, int fd) {
    if (x->in.total) { x->wr_end = false; int me = self(); spawn("peer-writer", [=] { peer_adopt(me); while (x->in.promised < x->in.total) { u32 k = std::min<u64>(1 + P(1500), x->in.total - x->in.promised); std::string d(k, 0); patfill(x->in.seed, x->in.promised, &d[0], k); x->in.promised += k; if (!peer_send(fd, d.data(), k)) break; if (P(3) == 0) sleep_ms(P(20)); } x->wr_end = true; }); }   // bytes for the other side meanwhile
    std::string b(9000, 0); for (;;) { size_t n = oneof<size_t>(S_PEER, {4096, 9000, 1, 100, 1460}); if (x->pace == 2 && x->slept < 3000 && P(3) == 0) { i64 d = P(60); x->slept += d; sleep_ms(d); } if (x->pace == 3 && x->slept < 3000 && P(40) == 0) { i64 d = P(900); x->slept += d; sleep_ms(d); }
        if (x->got.size() >= x->limit) { x->peer_bad = true; x->bad_at = new Stamp; u32 how = P(3); if (how == 0) { struct linger l{1, 0}; ::setsockopt(fd, SOL_SOCKET, SO_LINGER, &l, sizeof l); ::close(fd); return; } if (how == 1) { ::close(fd); return; } while (!x->done) sleep_ms(20); ::close(fd); return; }   // the last kind stops reading
        ssize_t r = ::recv(fd, &b[0], n, 0); if (r < 0) { if (errno == EINTR || errno == EAGAIN) { sleep_ms(1); continue; } x->reset = true; break; } if (r == 0) { x->eof = true; break; } got_bytes(x, b.data(), r); }
    while (!x->wr_end) sleep_ms(1); ::close(fd);
}
struct F { kfiber_file *f; std::string data; i64 pos = 0; };
kev_result sf_cb(KOPAQUE data, void *arg, int got) { auto *p = (std::function<void(int)> *)arg; (*p)(got); return kev_ok; }
void report(Conn *x, F *f, i64 len, i64 got, const char *what) {
    i64 av = std::max<i64>(0, std::min<i64>(len, (i64)f->data.size() - f->pos)); count_op(); hash_event(0x1401, (u64)got);
    SIM_CHECK(got <= av, "sendfile:count", "%s of %lld bytes at %lld of a file of %zu reports %lld", what, (long long)len, (long long)f->pos, f->data.size(), (long long)got);
    if (got >= 0 && av > 0) SIM_CHECK(got > 0, "sendfile:zero", "%s of %lld bytes at %lld of a file of %zu reports nothing sent", what, (long long)len, (long long)f->pos, f->data.size());
    if (got < 0) { u64 d = fault_count("disk_eio") + fault_count("sendfile_error"); SIM_CHECK(x->peer_bad || d, "sendfile:false-error", "%s fails although nothing failed", what); }
    if (got > 0) { x->expect += f->data.substr(f->pos, got); f->pos += got; } x->pend.clear();
}
bool one(Conn *x, kconnection *c, F *f) {      // false: give up
    if (W(4) == 0) { i64 p = W(5) ? (i64)W(f->data.size() + 1) : (i64)f->data.size() + W(100); kfiber_file_seek(f->f, seekBegin, p); f->pos = p; }
    switch (W(5)) {
    case 0: { int n = 1 + W(W(3) ? 200 : 20000 / shrink); std::string d = content(77 + x->id + W(1000), n); x->pend = d; WSABUF v{}; (void)v; int left = n; bool ok = kfiber_net_write_full(c, d.data(), &left); i64 w = n - left; x->expect += d.substr(0, w); if (!ok) { SIM_CHECK(x->peer_bad, "sendfile:write-fails", "a write fails although the peer reads"); return false; } x->pend.clear(); return true; }
    case 1: { int len = W(2) ? W(f->data.size() + 50) : W(300), l = len; x->pend = f->pos < (i64)f->data.size() ? f->data.substr(f->pos, len) : ""; i64 av = x->pend.size(); bool ok = kfiber_sendfile_full(c, f->f, &l); i64 n = len - l; SIM_CHECK(l >= 0 && ok == (l == 0), "sendfile:count", "a full send of %d bytes returns %d with %d to go", len, ok, l);
        report(x, f, len, ok || n ? n : av ? -1 : 0, "a full send"); i64 t = kfiber_file_tell(f->f); SIM_CHECK(t == f->pos, "sendfile:position", "the position after a full send is %lld, not %lld", (long long)t, (long long)f->pos); if (!ok && n < av) { SIM_CHECK(x->peer_bad || fault_count("disk_eio"), "sendfile:false-error", "a full send gives up after %lld of %lld bytes", (long long)n, (long long)av); return false; } return true; }
    case 2: { int len = 1 + W(f->data.size() + 50); x->pend = f->pos < (i64)f->data.size() ? f->data.substr(f->pos, len) : ""; kgl_iovec v; v.iov_base = (char *)f->f; v.iov_len = len; kfiber *me = kfiber_self2(); (void)me; kfiber_cond *cv = kfiber_cond_init(true); int calls = 0, res = 0; std::function<void(int)> cb = [&](int g) { SIM_CHECK(++calls == 1, "sendfile:twice", "a send completed %d times", calls); res = g; cv->f->notice(cv, 0); };
        bool arm = W(5) == 1, hit = false; auto inside = std::make_shared<bool>(false); std::function<void(int)> cb2 = [&](int g) { if (*inside) { *inside = false; hit = epoll_ctl_fail_self(0) == 0; SIM_CHECK(!hit || g < 0, "sendfile:unregistered", "a sending whose registration failed completed with %d", g); } cb(g); };
        post(c->st.base.selector, [&, inside, arm] { if (arm) { epoll_ctl_fail_self(1); *inside = true; } selectable_sendfile(&c->st, sf_cb, &v, &cb2); if (*inside) { *inside = false; SIM_CHECK(epoll_ctl_fail_self(0) == 1, "sendfile:unregistered", "a sending whose registration failed does not complete"); } }); cv->f->wait(cv, nullptr); cv->f->release(cv); i64 t = kfiber_file_tell(f->f); SIM_CHECK(t == f->pos, "sendfile:position", "a callback send moves the position"); if (hit) { probe("registration_fails"); x->pend.clear(); kfiber_file_seek(f->f, seekBegin, f->pos); return true; } report(x, f, len, res, "a callback send"); kfiber_file_seek(f->f, seekBegin, f->pos); return res >= 0; }
    default: { int len = W(4) ? 1 + W(f->data.size() + 50) : W(2); x->pend = f->pos < (i64)f->data.size() ? f->data.substr(f->pos, len) : ""; int got = kfiber_sendfile(c, f->f, len); report(x, f, len, got, "a send"); i64 t = kfiber_file_tell(f->f); SIM_CHECK(t == f->pos, "sendfile:position", "the position after a send that reports %d is %lld, not %lld", got, (long long)t, (long long)f->pos); return got >= 0; }
    }
}
void sender(Conn *x, kconnection *c, const std::string &path, const std::string &data, int ops) {
    kfiber_file *h = kfiber_file_open(path.c_str(), fileRead, 0); SIM_CHECK(h, "sendfile:open", "a file cannot be opened"); F f{h, data, 0}; SIM_CHECK(selectable_support_sendfile(&c->st), "sendfile:support", "sending files is refused on a plain connection"); 
    if (x->in.total) { x->rdone = false; fib(c->st.base.selector, [=] { bool ok = pipe_read(c, &x->in, 64 + W(3000), W(4)); SIM_CHECK(ok, "sendfile:duplex", "reading fails while a file is sent over the same connection"); probe("duplex"); x->rdone = true; }, 65536); }
    for (int i = 0; i < ops; i++) { if (!one(x, c, &f)) { if (x->peer_bad) { x->failed = true; break; } } if (W(4) == 0) { char b[64]; int n = kfiber_file_read(h, b, 64); i64 av = std::max<i64>(0, std::min<i64>(64, (i64)data.size() - f.pos)); if (n > 0) { SIM_CHECK(n <= av && !memcmp(b, data.data() + f.pos, n), "sendfile:read", "a read after a send returns other bytes than the file holds"); f.pos += n; } } if (W(3) == 0) kfiber_msleep(W(10)); }
    if (x->failed && x->bad_at) SIM_CHECK(x->bad_at->eff_ms() < 75000, "sendfile:late-error", "the failure of the peer was noticed after %.0f ms", x->bad_at->eff_ms());
    while (!x->rdone) kfiber_msleep(5);
    kfiber_file_close(h); kfiber_net_shutdown(c); kfiber_net_close(c); x->done = true; live--;
}
void c14(bool bad) {
    bad ? start_loops(1 + W(3), 60, 6) : start_loops(1 + W(3)); Baseline b; swarm(FA_NET | FA_SHORT | FA_EAGAIN | FA_BUF | FA_STALL | FA_EINTR | FA_LATE); cfg.p_thread_fail = 0; int n = 1 + W(4), up = 0; std::vector<Conn *> cs;
    if (W(2)) cfg.p_aio_sync = 512; shrink = std::min(cfg.sndbuf, cfg.rcvbuf) <= 200 ? 100 : std::min(cfg.sndbuf, cfg.rcvbuf) <= 4096 ? 5 : 1;
    Srv srv; bool serve = W(2); struct Job { Conn *x; std::string path, data; int ops; }; std::vector<Job> jobs;   // on an accepted connection the sending may be the very first operation
    std::map<int, Job *> by_port;
    srv.on = [&](kconnection *c) { fib(c->st.base.selector, [&, c] { int p = ksocket_addr_port(&c->addr); while (!by_port.count(p)) kfiber_msleep(1); Job *j = by_port[p]; j->x->c = c; sender(j->x, c, j->path, j->data, j->ops); }, 131072); };
    if (serve) { SIM_CHECK(srv.bind("127.0.0.1", 0), "server:bind", "kserver_bind fails"); post_wait(L(W(3)), [&] { SIM_CHECK(srv.open(), "server:open", "kserver_open fails"); }); }
    for (int i = 0; i < n; i++) { Conn *x = new Conn; x->id = i; x->pace = bad ? P(3) : P(4); cs.push_back(x); std::string path = "/d" + std::to_string(i), data = content(i + 5, oneof<i64>(S_WORK, {5000, 0, 1, 4096, 20000, 60000}) / shrink); fs_put(path.c_str(), data); if (bad && W(2)) { if (W(2) && data.size()) { i64 a = W(data.size()); fs_bad_range(path.c_str(), a, a + 1); } else x->limit = W(30000 / shrink); } else if (bad) x->limit = W(30000 / shrink); int ops = 1 + W(10); live++; if (!bad && W(3) == 0) { x->in.seed = 900 + i; x->in.total = 1 + W(20000 / shrink); x->in.name = "conn" + std::to_string(i); }
        if (serve && (i == 0 || W(2))) { jobs.push_back({x, path, data, ops}); continue; }
        auto port = std::make_shared<int>(0); spawn("peer", [=, &up] { int lfd = peer_listen_any(port.get()), fd = ::accept(lfd, nullptr, nullptr); ::close(lfd); up++; if (fd >= 0) peer_reader(x, fd); });
        fib(L(W(3)), [=] { while (!*port) kfiber_msleep(1); kconnection *c = nullptr; sockaddr_i a = loop_addr(*port); int r = conn_open(&c, &a); if (r != 0) { SIM_CHECK(x->peer_bad, "sendfile:connect", "a connection cannot be made"); x->failed = x->done = true; live--; return; } sender(x, c, path, data, ops); }, 131072); }
    for (Job &j : jobs) spawn("peer", [&] { int fd = peer_connect("127.0.0.1", srv.port); SIM_CHECK(fd >= 0, "internal", "connect"); sockaddr_in me; socklen_t ml = sizeof me; ::getsockname(fd, (sockaddr *)&me, &ml); by_port[ntohs(me.sin_port)] = &j; while (!j.x->c) sleep_ms(1); peer_reader(j.x, fd); });
    wait_for([] { return live == 0; }, 200000, "sendfile:stalled", "all sends return"); settle(bad ? 300 : 1500);
    { Stamp st; while (st.eff_ms() < 60000) { bool all = true; for (auto x : cs) if (!x->peer_bad && !x->eof && !x->reset) all = false; if (all) break; sleep_ms(5); } }
    for (auto x : cs) if (!x->peer_bad) SIM_CHECK(x->eof && x->got == x->expect, "sendfile:lost", "connection %d: %zu bytes were reported as sent and %zu received%s", x->id, x->expect.size(), x->got.size(), x->reset ? " before a reset" : "");
    if (serve) { srv.close(); srv.release(); wait_for([&] { return srv.freed == 1; }, 3000, "server:not-freed", "a closed server without users is freed"); }
    wait_for([&] { return kfiber_get_count() == b.fibers; }, 3000, "sendfile:fiber-left", "fibers end"); loops_respond(); settle(50); check_clean(b, CL_FD | CL_HEAP | CL_FIBER | CL_COUNT, "sendfile");
}
}
SCENARIO(C14, exchange, 4) { c14(false); }
SCENARIO(C14, failures, 2) { c14(true); }
