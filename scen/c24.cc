// C24: everything at once. Tasks (fibers, posted callbacks, plain threads) on several loops run random programs over all parts of the library while
// every kind of fault happens; results are judged loosely here (the other properties judge them exactly), memory, descriptors, internal checks and
// the final state are judged exactly.
#include "tls.h"
namespace {
struct Sess { int id; Pipe up, down; bool tls = false; int ends = 0; };
struct Host { Srv srv; bool tls = false, open = false; int sessions = 0; };
std::vector<Sess *> ss; std::vector<Host *> hosts; SSL_CTX *cli_ctx; SSL_CTX *srv_ctx; int tasks, ends, peers, temp_left, jobs_left, timers_left, budget, serial; bool quiet;
kfiber_mutex *mx[2]; int mx_lim[2], mx_in[2]; kfiber_rwlock *rw; int rw_r, rw_w; kasync_worker *wk; const int STK = 131072;
std::vector<std::string> dnames;
u32 amount() { u32 unit = std::min(cfg.sndbuf, cfg.rcvbuf); u32 m = unit <= 200 ? 200 : unit <= 4096 ? 5000 : 40000; if (cfg.p_short > 100 || cfg.p_eagain > 100) m = std::min(m, 3000u); return 1 + P(P(3) ? std::min(m, 400u) : m); }
u32 chunk() { return oneof<u32>(S_PEER, {100, 1500, 20, 9000}); }
void leaf(bool net_too);
// a condition used across loops: one side waits in a fiber, the other notices from anywhere
struct Gate { kfiber_cond *c = kfiber_cond_init_ts(false); int val = 0; bool noticed = false; ~Gate() { c->f->release(c); } void notice(int v) { val = v; noticed = true; c->f->notice(c, v); } void wait() { int g = -1; int r = c->f->wait(c, &g); SIM_CHECK(r == 0 && noticed && g == val, "mix:cond", "a waiting fiber continues with %d (%d), noticed %d with %d", g, r, noticed, val); } };
typedef std::shared_ptr<Gate> GateP;
GateP gate() { return std::make_shared<Gate>(); }
// ------------------------------------------------------------------ connections
kev_result on_hup(KOPAQUE, void *arg, int) { (*(int *)arg)++; return kev_ok; }
void use(kconnection *c, Sess *s, bool client) {      // fiber of the connection's loop: a random dialogue; closes the connection
    Pipe *out = client ? &s->up : &s->down, *in = client ? &s->down : &s->up; int home = my_loop(); auto busy = std::make_shared<int>(0); int n = 1 + P(6); bool alive = true; int *hups = new int(0);
    u32 sty = P(4);
    for (int i = 0; i < n && alive; i++) {
        switch (P(9)) {
        case 0: case 1: alive = pipe_write(c, out, chunk(), sty, out->sent + amount()); break;
        case 2: case 3: { u64 want = P(3) ? std::min(out->rcvd + 1 + amount(), in->rcvd + amount()) : in->rcvd + 1; if (in->sent > in->rcvd || P(2)) alive = pipe_read(c, in, chunk(), sty, want); break; }
        case 4: kfiber_msleep(P(60)); break;
        case 5: leaf(false); break;
        case 6: if (selectable_readhup(&c->st, on_hup, hups)) { if (P(2)) kfiber_msleep(P(150)); selectable_remove_readhup(&c->st); SIM_CHECK(*hups <= 1, "mix:hup", "a watch fired %d times", *hups); *hups = 0; } break;
        case 7: if (!s->tls && selectable_support_sendfile(&c->st)) { u32 m = amount(); std::string d(m, 0); patfill(out->seed, out->sent, &d[0], m); std::string p = "/snd" + std::to_string(++serial); fs_put(p.c_str(), d); kfiber_file *f = kfiber_file_open(p.c_str(), fileRead, 0); if (!f) break; int l = m; u64 was = out->promised; out->promised = std::max(was, out->sent + m); bool ok = kfiber_sendfile_full(c, f, &l); SIM_CHECK(l >= 0 && l <= (int)m && ok == (l == 0), "mix:sendfile", "sendfile of %u bytes returned %d with %d left", m, ok, l); out->sent += m - l; out->promised = std::max(was, out->sent); alive = ok; kfiber_file_close(f); } break;
        case 8: if (!*busy) { *busy = 1; u32 m = amount(); if (P(2)) { fib(nullptr, [=] { pipe_write(c, out, chunk(), sty, out->sent + m); *busy = 0; }, STK); while (*busy && in->rcvd < in->sent + 5000) { if (!pipe_read(c, in, chunk(), sty, in->rcvd + 1)) break; } }
                else { fib(nullptr, [=] { kfiber_msleep(P(80)); if (P(3)) kfiber_net_shutdown(c); *busy = 0; }, STK); alive = pipe_read(c, in, chunk(), sty, in->rcvd + amount()); } while (*busy) kfiber_msleep(2); } break;
        }
        SIM_CHECK(my_loop() == home, "mix:loop", "a fiber continues on loop %d, it belongs to loop %d", my_loop(), home); count_op();
    }
    while (*busy) kfiber_msleep(2); if (P(4) == 0) kfiber_net_shutdown(c); delete hups; kfiber_net_close(c); ends--;
}
void serve(Host *h, kconnection *c) {
    ends++; h->sessions++; fib(c->st.base.selector, [=] {
        if (c->st.ssl) { if (kfiber_ssl_handshake(c) != 0) { kfiber_net_close(c); ends--; return; } }
        int id = hello_recv(c); if (id < 0) { kfiber_net_close(c); ends--; return; }
        SIM_CHECK(id < (int)ss.size() && ss[id]->ends < 1, "mix:session", "a connection of unknown session %d", id); ss[id]->ends++; use(c, ss[id], false); }, STK);
}
void connect_to(int port, bool tls) {                 // fiber
    sockaddr_i a = loop_addr(port); if (P(5) == 0 && !dnames.empty()) { kgl_addr *ad = nullptr; if (kfiber_net_getaddr(dnames[0].c_str(), &ad) == 0) { kgl_addr_build(ad->addr, port, &a); kgl_addr_release(ad); } }
    kconnection *c = kfiber_net_open(&a); if (!c) return; ends++; int r = kfiber_net_connect(c, nullptr, 0); if (r != 0) { kfiber_net_close(c); ends--; return; }
    if (tls) { if (!kconnection_ssl_connect(c, cli_ctx, P(2) ? "a.test" : nullptr) || kfiber_ssl_handshake(c) != 0) { kfiber_net_close(c); ends--; return; } }
    Sess *s = new Sess; s->id = ss.size(); s->tls = tls; s->up.seed = s->id * 2 + 1; s->down.seed = s->id * 2 + 2; s->up.name = "up"; s->down.name = "down"; s->up.total = s->down.total = 1 << 30; ss.push_back(s);
    if (P(20) == 0 || !hello_send(c, s->id)) { kfiber_net_close(c); ends--; return; }
    use(c, s, true);
}
void foreign_server() {                                // fiber: a connection to a scripted peer that misbehaves
    auto port = std::make_shared<int>(0); u32 how = P(4); peers++; spawn("peer", [=] { struct G { ~G() { peers--; } } g; int l = peer_listen_any(port.get()), f = ::accept(l, nullptr, nullptr); ::close(l); if (f < 0) return; if (how == 0) { peer_close_rst(f); return; } char b[500]; std::string d(1 + P(3000), 'p'); if (how == 1) peer_send(f, d.data(), d.size()); sleep_ms(P(100)); if (how >= 2) { ssize_t k = ::recv(f, b, 1 + P(500), 0); if (k > 0 && how == 3) peer_send(f, b, k); } if (P(2)) peer_close_rst(f); else ::close(f); });
    while (!*port) kfiber_msleep(1); ends++; sockaddr_i a = loop_addr(*port); kconnection *c = kfiber_net_open(&a); int r = c ? kfiber_net_connect(c, nullptr, 0) : -1;
    if (r == 0) for (int i = 0; i < 3; i++) { char b[700]; memset(b, 'q', sizeof b); int g = P(2) ? kfiber_net_write(c, b, 1 + P(700)) : kfiber_net_read(c, b, 1 + P(700)); SIM_CHECK(g <= 700, "mix:count", "a transfer of at most 700 bytes reports %d", g); if (g <= 0) break; }
    if (c) kfiber_net_close(c); ends--; if (r != 0) { int f = 0; auto p = port; auto done = std::make_shared<bool>(false); spawn("visitor", [=] { int x = peer_connect("127.0.0.1", *p); if (x >= 0) ::close(x); *done = true; }); (void)f; while (!*done) kfiber_msleep(1); }
}
void refused() { sockaddr_i a = loop_addr(1 + P(50)); kconnection *c = kfiber_net_open(&a); if (!c) return; int r = kfiber_net_connect(c, nullptr, 0); SIM_CHECK(r != 0, "mix:connect", "a connect to a port nobody listens on succeeds"); kfiber_net_close(c); }
void udp_pair() {                                     // fiber
    kselector *s = kgl_get_tls_selector(); kconnection *a = kudp_new2(0, s), *b = kudp_new2(0, s); sockaddr_i any = addr4("127.0.0.1", 0), to; if (!a || !b || !kudp_bind(b, &any) || !kconnection_self_addr(b, &to)) { /* nothing */ }
    if (!a || !b) { if (a) kconnection_destroy(a); if (b) kconnection_destroy(b); return; }
    sockaddr_i self; memset(&self, 0, sizeof self); socklen_t l = sizeof self; getsockname(b->st.fd, (sockaddr *)&self, &l); u32 n = 1 + P(1400), seed = ++serial; char *p = (char *)malloc(n); patfill(seed, 0, p, n); auto got = std::make_shared<int>(-9); auto over = std::make_shared<bool>(false);
    fib(nullptr, [=] { char *q = (char *)malloc(n + 1); int g = kfiber_net_read(b, q, n + 1); *got = g; SIM_CHECK(g == (int)n && patcheck(seed, 0, q, n) < 0, "mix:udp", "a datagram of %u bytes is received as %d bytes or modified", n, g); free(q); *over = true; }, STK);
    while (!*over) { kudp_send_to(a, &self, p, n); kfiber_msleep(1 + P(20)); } free(p); kconnection_destroy(a); kconnection_destroy(b);
}
// ------------------------------------------------------------------ files, jobs, names, timers
void file_job() {
    std::string path = "/w" + std::to_string(++serial); u32 n = 1 + P(P(2) ? 9000 : 300), seed = serial; bool direct = P(4) == 0; kfiber_file *f = kfiber_file_open(path.c_str(), fileWriteRead, 0); if (!f) return; if (direct) kasync_file_direct(f, true); if (direct) n = (n + 4095) / 4096 * 4096;
    char *b = (char *)aio_alloc_buffer(n); patfill(seed, 0, b, n); int rest = n; bool ok = kfiber_file_write_full(f, b, &rest); SIM_CHECK(rest >= 0 && ok == (rest == 0), "mix:file", "a full write returns %d with %d bytes to go", ok, rest); u32 have = n - rest;
    if (have && P(4)) { kfiber_file_seek(f, seekBegin, 0); memset(b, 0, n); int g = kfiber_file_read(f, b, n); SIM_CHECK(g <= (int)have, "mix:file", "a read of a file of %u bytes reports %d", have, g); if (g > 0 && !direct) SIM_CHECK(patcheck(seed, 0, b, g) < 0, "mix:file", "a file does not hold what was written"); }
    aio_free_buffer(b); kfiber_file_close(f); fs_put(path.c_str(), "");
}
struct TCall { int ran = 0; u32 ms; int v; };
int tcall_fn(void *a, int v) { TCall *t = (TCall *)a; t->ran++; if (t->ms) sleep_ms(t->ms); return v; }
void thread_call() { TCall *t = new TCall{0, P(3) ? 0 : P(40), 0}; int v = P(1000), ret = -1; int r = kfiber_thread_call(tcall_fn, t, v, &ret); SIM_CHECK(r == 0 ? t->ran == 1 && ret == v : t->ran == 0, "mix:call", "a call reports %d and %d, it ran %d times", r, ret, t->ran); delete t; }
void resolve() { std::string n = P(4) && !dnames.empty() ? dnames[P(dnames.size())] : "nobody.test"; kgl_addr *a = nullptr; int r = kfiber_net_getaddr(n.c_str(), &a); SIM_CHECK((r == 0) == (a != nullptr), "mix:addr", "getaddr returned %d and %s list", r, a ? "a" : "no"); if (a) { SIM_CHECK(heap_is_live(a) && a->addr && a->addr->ai_family == AF_INET && ((sockaddr_in *)a->addr->ai_addr)->sin_addr.s_addr == htonl(INADDR_LOOPBACK), "mix:addr", "a name resolves to another address"); if (P(2)) kfiber_msleep(P(30)); kgl_addr_release(a); } }
void timer() { kselector *s = kgl_get_tls_selector(); GateP g = gate(); int v = 1 + P(1000), d = P(150); timers_left++; struct T { GateP g; int v; Stamp st; int d; kselector *s; }; T *t = new T{g, v, Stamp(), d, s}; kselector_add_timer(s, [](KOPAQUE, void *a, int) -> kev_result { T *t = (T *)a; SIM_CHECK(kgl_get_tls_selector() == t->s, "mix:timer", "a timer runs on another loop"); timers_left--; t->g->notice(t->v); delete t; return kev_ok; }, t, d, nullptr); g->wait(); }
void post_there() { GateP g = gate(); int v = 1 + P(1000); post(L(P(4)), [=] { if (P(5) == 0) busy_ms(P(20)); g->notice(v); }); g->wait(); }
struct WJob { GateP g; int v; };
kev_result wjob(void *d, int) { WJob *j = (WJob *)d; if (P(3) == 0) sleep_ms(P(30)); j->g->notice(j->v); delete j; jobs_left--; return kev_ok; }
void worker_job() { WJob *j = new WJob{gate(), 1 + (int)P(1000)}; GateP g = j->g; jobs_left++; if (kasync_worker_try_start(wk, j, wjob, P(3) == 0)) g->wait(); else { jobs_left--; delete j; } }
void outside() { GateP g = gate(); int v = 1 + P(1000); spawn("user-thread", [=] { sleep_ms(P(30)); g->notice(v); }); g->wait(); }
void channel() { kfiber_chan *ch = kfiber_chan_create(); int n = 1 + P(5); auto left = std::make_shared<int>(2); auto sum = std::make_shared<i64>(0); i64 want = 0; for (int i = 0; i < n; i++) want += i + 1;
    fib(nullptr, [=] { for (int i = 0; i < n; i++) { if (P(3) == 0) kfiber_msleep(P(10)); kfiber_chan_send(ch, (KOPAQUE)(intptr_t)(i + 1)); } --*left; }, STK); fib(nullptr, [=] { for (int i = 0; i < n; i++) { KOPAQUE d = nullptr; if (kfiber_chan_recv(ch, &d, nullptr) == 0) *sum += (intptr_t)d; if (P(3) == 0) kfiber_msleep(P(10)); } --*left; }, STK);
    while (*left) kfiber_msleep(2); SIM_CHECK(*sum == want, "mix:channel", "a channel delivered %lld in all, %lld were sent", (long long)*sum, (long long)want); kfiber_chan_close(ch); kfiber_chan_release(ch); }
void temp_server() {                                  // fiber: a server that exists for a moment
    Host *h = new Host; h->tls = srv_ctx && P(4) == 0; hosts.push_back(h); h->srv.on = [h](kconnection *c) { serve(h, c); }; if (h->tls) SSL_CTX_up_ref(srv_ctx); if (!h->srv.bind("127.0.0.1", 0, h->tls ? kgl_new_ssl_ctx(srv_ctx) : nullptr) || !h->srv.open()) { h->srv.close(); h->srv.release(); return; }
    h->open = true; int k = P(3), port = h->srv.port; bool tls = h->tls; for (int i = 0; i < k; i++) { tasks++; fib(L(P(4)), [=] { connect_to(port, tls); tasks--; }, STK); } if (P(2)) kfiber_msleep(P(60)); if (P(3) == 0) { auto d = std::make_shared<bool>(false); spawn("closer", [=] { h->srv.close(); *d = true; }); while (!*d) kfiber_msleep(1); } else h->srv.close(); if (P(3) == 0) kfiber_msleep(P(60)); h->srv.release();
}
void leaf(bool net_too) {
    count_op(); switch (P(net_too ? 17 : 9)) {
    case 0: kfiber_msleep(P(40)); break; case 1: file_job(); break; case 2: thread_call(); break; case 3: resolve(); break; case 4: timer(); break; case 5: post_there(); break; case 6: worker_job(); break; case 7: outside(); break; case 8: channel(); break;
    case 9: case 10: case 11: { Host *h = hosts[P(std::min<u32>(hosts.size(), 2))]; if (h->open) connect_to(h->srv.port, h->tls); break; }
    case 12: foreign_server(); break; case 13: refused(); break; case 14: udp_pair(); break; case 15: temp_server(); break; case 16: busy_ms(P(15)); break;
    }
}
// ------------------------------------------------------------------ tasks
void locked() {
    u32 k = P(4); if (k < 2) { kfiber_mutex_lock(mx[k]); SIM_CHECK(++mx_in[k] <= mx_lim[k], "mix:mutex", "%d fibers hold a mutex with limit %d", mx_in[k], mx_lim[k]); if (P(2)) leaf(P(4) == 0); SIM_CHECK(mx_in[k] <= mx_lim[k], "mix:mutex", "%d fibers hold a mutex with limit %d", mx_in[k], mx_lim[k]); mx_in[k]--; kfiber_mutex_unlock(mx[k]); return; }
    bool w = k == 2; if (w) { kfiber_rwlock_wlock(rw); rw_w++; } else { kfiber_rwlock_rlock(rw); rw_r++; } SIM_CHECK(rw_w <= 1 && (!rw_w || !rw_r), "mix:rwlock", "%d writers and %d readers", rw_w, rw_r); if (P(2)) leaf(P(6) == 0); SIM_CHECK(rw_w <= 1 && (!rw_w || !rw_r), "mix:rwlock", "%d writers and %d readers", rw_w, rw_r); if (w) { rw_w--; kfiber_rwlock_wunlock(rw); } else { rw_r--; kfiber_rwlock_runlock(rw); }
}
void task(int depth) {
    int home = my_loop(), n = 1 + P(5);
    for (int i = 0; i < n && budget > 0; i++) {
        budget--; u32 k = P(8); hash_event(0x2401, k);
        if (k < 4) leaf(true); else if (k < 6) locked();
        else if (depth < 3) { int m = 1 + P(2), v = P(1000); std::vector<kfiber *> js; for (int j = 0; j < m; j++) { int l = P(4); tasks++; if (P(2)) { kfiber *f = fiber(L(l), [=] { task(depth + 1); tasks--; return v; }, true, STK); js.push_back(f); } else fib(L(l), [=] { task(depth + 1); tasks--; }, STK); } if (P(2)) leaf(true); for (auto f : js) { int r = -1; kfiber_join(f, &r); SIM_CHECK(r == v, "mix:join", "a join reports %d, the fiber returned %d", r, v); } }
        SIM_CHECK(my_loop() == home, "mix:loop", "a fiber continues on loop %d, it belongs to loop %d", my_loop(), home);
    }
}
void user_thread() { int n = 1 + P(5); for (int i = 0; i < n; i++) { sleep_ms(P(60)); switch (P(5)) { case 0: tasks++; fib(L(P(4)), [] { task(2); tasks--; }, STK); break; case 1: kthread_flush(P(3)); break; case 2: kgl_flush_addr_cache(wall_ns() / SEC + (P(2) ? 4000 : 0)); break; case 3: post(L(P(4)), [] { count_op(); }); break; case 4: { auto g = std::make_shared<bool>(false); kfiber_cond *c = kfiber_cond_init_sync(true); post(L(P(4)), [=] { c->f->notice(c, 5); }); int v = 0; c->f->wait(c, &v); SIM_CHECK(v == 5, "mix:cond", "a waiting thread receives %d instead of 5", v); c->f->release(c); break; } } } tasks--; }
void mixed(bool tls) {
    swarm(FA_EINTR | FA_SPUR | FA_STALL | FA_LATE | FA_NET | FA_SHORT | FA_EAGAIN | FA_BUF | FA_DISK | FA_LATENCY); cfg.p_aio_sync = lvl({100, 512}); if (std::min(cfg.sndbuf, cfg.rcvbuf) < 200) cfg.sndbuf = cfg.rcvbuf = 200; if (tls) { cfg.sndbuf = std::max(cfg.sndbuf, 1500u); tls_seed(1 + W(1000)); }
    int ec, tf = 0; { u32 m = W(256); if ((m & 3) == 1) tf = lvl({60, 300}); ec = (m & 12) == 4 ? lvl({20, 100}) : 0; if (m & 16) cfg.p_aio_fail = lvl({20, 200}), cfg.p_aio_err = lvl({20, 200}), cfg.p_aio_short = lvl({60, 300}); if (m & 32) cfg.p_dns_fail = lvl({100, 400}); if (m & 64) cfg.p_udp_loss = lvl({60, 300}); if (m & 128) cfg.p_accept_err = lvl({30, 200}); }
    int tmo = 2 + W(4); start_loops(1 + W(4), tmo, tmo); cfg.p_epoll_ctl = ec; cfg.p_thread_fail = tf;
    if (tls) { Cert *leafc = make_cert("a.test", nullptr, false); srv_ctx = server_ctx(leafc, "", nullptr, nullptr); cli_ctx = kgl_ssl_ctx_new_client(nullptr, nullptr, nullptr); SIM_CHECK(srv_ctx && cli_ctx, "tls:context", "contexts"); }
    Baseline b; int live0 = tls_live(); dns_set("one.test", {"127.0.0.1"}); dns_set("two.test", {"127.0.0.1"}); dnames = {"one.test", "two.test"};
    post_wait(L(0), [] { for (int i = 0; i < 2; i++) { mx_lim[i] = 1 + i * (1 + W(2)); mx[i] = kfiber_mutex_init2(mx_lim[i]); } rw = kfiber_rwlock_init(); }); int nw, nq; nw = 1 + W(3); nq = W(4); wk = kasync_worker_init(nw, nq);
    for (int i = 0; i < 2; i++) { Host *h = new Host; h->tls = tls && i == 1; hosts.push_back(h); h->srv.on = [h](kconnection *c) { serve(h, c); }; if (h->tls) SSL_CTX_up_ref(srv_ctx); kgl_ssl_ctx *x = h->tls ? kgl_new_ssl_ctx(srv_ctx) : nullptr; for (int t = 0; !h->open; t++) { if (h->srv.bind("127.0.0.1", 0, x)) post_wait(L(W(4)), [=] { h->open = h->srv.open(); }); else violation("server:bind", "a free port cannot be bound"); if (!h->open) { h->srv.close(); h->srv.release(); if (t > 20 || h->tls) break; *h = Host(); h->srv.on = [h](kconnection *c) { serve(h, c); }; } } }
    budget = 5 + W(40); int n = 1 + W(8); for (int i = 0; i < n; i++) { tasks++; fib(L(W(4)), [] { task(0); tasks--; }, STK); } int ut = W(3); for (int i = 0; i < ut; i++) { tasks++; spawn("user", user_thread); }
    wait_for([] { return tasks == 0 && ends == 0 && peers == 0; }, 170000, "mix:stalled", "all tasks and connections end");
    int freed = 0; for (int i = 0; i < 2; i++) if (hosts[i]->open) { hosts[i]->srv.close(); hosts[i]->srv.release(); } (void)freed;
    wait_for([] { for (auto h : hosts) if (h->srv.freed != 1) return false; return ends == 0; }, 30000, "mix:server-left", "closed servers without users are freed"); SIM_CHECK(timers_left == 0 && jobs_left == 0, "mix:lost", "%d timers and %d jobs never ran", timers_left, jobs_left);
    kasync_worker_release(wk); cfg.p_thread_fail = 0; cfg.p_epoll_ctl = 0; post_wait(L(0), [] { for (int i = 0; i < 2; i++) kfiber_mutex_destroy(mx[i]); kfiber_rwlock_destroy(rw); });
    wait_for([] { return dns_running() == 0; }, 30000, "mix:resolver", "resolver calls end"); int w, f; wait_for([&] { kthread_get_count(&w, &f); return w == (int)g_loops.size(); }, 10000, "mix:threads", "worker threads go back to the pool"); kgl_flush_addr_cache(wall_ns() / SEC + 1000000); kthread_close_all_free(); settle(300);
    SIM_CHECK(aio_in_flight() == 0, "mix:in-flight", "transfers are still in flight"); if (tls) wait_for([&] { return tls_live() == live0; }, 65000, "tls:session-leak", "TLS sessions are freed after every connection was closed");
    wait_for([&] { return kfiber_get_count() == b.fibers; }, 30000, "mix:fiber-left", "fibers end"); loops_respond(); for (auto h : hosts) h->srv.on = nullptr; check_clean(b, CL_FD | CL_FIBER | CL_COUNT | (tls ? 0 : CL_HEAP), "mix");
}
}
SCENARIO(C24, plain, 4) { mixed(false); }
SCENARIO(C24, tls, 2) { mixed(true); }
