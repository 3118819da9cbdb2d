// Simulated kernel: descriptors, epoll, TCP/UDP/unix sockets, eventfd, files, native AIO. Modelled on Linux.
#include "core.h"
#include "kernel.h"
#include <errno.h>
#include <string.h>
#include <stdlib.h>
#include <stdarg.h>
#include <stdio.h>
#include <fcntl.h>
#include <unistd.h>
#include <poll.h>
#include <netdb.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <arpa/inet.h>
#include <sys/socket.h>
#include <sys/un.h>
#include <sys/epoll.h>
#include <sys/eventfd.h>
#include <sys/ioctl.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/select.h>
#include <linux/aio_abi.h>
#include <linux/fs.h>
#include <algorithm>
#include <list>

namespace sim {
enum { FDBASE = 100, MAXFD = 4096 };
struct Epoll; struct Obj;
struct EpItem { Epoll *ep; Obj *obj; int fd; u32 events; u64 data; bool queued, dead; };
struct Obj {
    int kind, refs = 0, owner = -1; bool nonblock = false; int id;
    const void *opener = nullptr; int opener_tid = -1;
    std::vector<EpItem *> items;
    Obj(int k) : kind(k) { static int n; id = ++n; }
    virtual u32 poll() { return 0; }
    virtual void closed() {}
    virtual ~Obj() {}
};
struct Epoll : Obj { std::list<EpItem *> ready; std::map<int, EpItem *> set; Epoll() : Obj(KIND_EPOLL) {} u32 poll() override; void closed() override; };
static std::vector<Obj *> *g_fds; static int g_nopen, g_fdlimit; static u64 g_estab; static std::map<int, int> *g_alias;
static std::map<std::string, int> *g_hosts;

void syscall_point(int kind, const void *pc) {
    if (!g_active || !g_cur) return;
    sync_point(kind, pc);
    g_now += 400;
}
static Obj *get(int fd) { int i = fd - FDBASE; return i >= 0 && i < (int)g_fds->size() ? (*g_fds)[i] : nullptr; }
// look a descriptor up for an operation; operating on one that is not open or belongs to somebody else is a violation
static Obj *use(int fd, const char *op, const void *pc) {
    Obj *o = get(fd);
    char key[160];
    if (!o) {
        if (fd >= 0) { snprintf(key, sizeof key, "fd:not-open:%s:%s", op, sym_of(pc)); violation_pc(key, pc, "%s in %s uses descriptor %d, which is not open", op, sym_of(pc), fd); }
        errno = EBADF; return nullptr;
    }
    if (o->owner >= 0 && o->owner != self() && !(g_alias->count(self()) && (*g_alias)[self()] == o->owner)) { snprintf(key, sizeof key, "fd:foreign:%s:%s", op, sym_of(pc)); violation_pc(key, pc, "%s in %s uses descriptor %d, which now belongs to %s", op, sym_of(pc), fd, thread_name(o->owner)); }
    return o;
}
static int lib_fds() { int n = 0; for (Obj *o : *g_fds) n += o && o->owner < 0; return n; }
static int install(Obj *o, const void *pc, bool peer = false) {
    if (g_fdlimit && !peer && lib_fds() >= g_fdlimit) { errno = EMFILE; return -1; }
    size_t i = 0; while (i < g_fds->size() && (*g_fds)[i]) i++;
    if (i >= MAXFD) { errno = EMFILE; return -1; }
    if (i == g_fds->size()) g_fds->push_back(nullptr);
    (*g_fds)[i] = o; o->refs++; g_nopen++; o->opener = pc; o->opener_tid = self();
    hash_event(0xf00, i);
    return FDBASE + (int)i;
}
static void queue_item(EpItem *it) { if (!it->queued && !it->dead) { it->queued = true; it->ep->ready.push_back(it); wake(it->ep, 1 << 20);
    // nested epoll is not used
} }
static void wakeup(Obj *o, u32 key) {
    for (EpItem *it : o->items) { if (!it->events) continue; if (key && !(key & it->events)) continue; queue_item(it); }
    wake(o, 1 << 20);
}
u32 Epoll::poll() { for (EpItem *it : ready) if (!it->dead && (it->obj->poll() & it->events)) return EPOLLIN; return 0; }
void Epoll::closed() { for (auto &x : set) { x.second->dead = true; auto &v = x.second->obj->items; v.erase(std::remove(v.begin(), v.end(), x.second), v.end()); } set.clear(); ready.clear(); }
static void put(Obj *o) {
    if (--o->refs > 0) return;
    for (EpItem *it : o->items) { it->dead = true; it->ep->set.erase(it->fd); if (it->queued) it->ep->ready.remove(it); }
    o->items.clear();
    o->closed();
}
int open_fds() { return g_nopen; }
int lib_open_fds() { return lib_fds(); }
int open_fds_by(int tid) { int n = 0; for (Obj *o : *g_fds) n += o && o->opener_tid == tid; return n; }
std::string fd_owner_desc(int fd) { Obj *o = get(fd); if (!o) return "closed"; static const char *k[] = {"?", "tcp", "udp", "eventfd", "epoll", "file"}; char b[200]; snprintf(b, sizeof b, "%d(%s opened in %s by %s)", fd, k[o->kind], sym_of(o->opener), thread_name(o->opener_tid)); return b; }
std::string describe_fds() { std::string s; for (size_t i = 0; i < g_fds->size(); i++) if ((*g_fds)[i]) { if (!s.empty()) s += ", "; s += fd_owner_desc(FDBASE + i); } return s; }
void register_owned_fd(int fd) { Obj *o = get(fd); if (o) o->owner = self(); }
int fd_limit(int n) { int o = g_fdlimit; g_fdlimit = n; return o; }
void peer_adopt(int tid) { (*g_alias)[self()] = tid; }
u64 tcp_established() { return g_estab; }

// ------------------------------------------------------------------ addresses
struct Addr {
    int fam = 0; u8 ip[16] = {0}; u16 port = 0; std::string path;
    bool any() const { for (u8 c : ip) if (c) return false; return true; }
    std::string ips() const { char b[64] = ""; if (fam == AF_INET) inet_ntop(AF_INET, ip, b, sizeof b); else if (fam == AF_INET6) inet_ntop(AF_INET6, ip, b, sizeof b); return b; }
    std::string str() const { return fam == AF_UNIX ? "unix:" + path : ips() + ":" + std::to_string(port); }
};
static bool from_sa(const struct sockaddr *sa, socklen_t len, Addr &a) {
    a = Addr(); if (len < 2) return false; a.fam = sa->sa_family;
    if (a.fam == AF_INET && len >= sizeof(sockaddr_in)) { auto s = (const sockaddr_in *)sa; memcpy(a.ip, &s->sin_addr, 4); a.port = ntohs(s->sin_port); return true; }
    if (a.fam == AF_INET6 && len >= sizeof(sockaddr_in6)) { auto s = (const sockaddr_in6 *)sa; memcpy(a.ip, &s->sin6_addr, 16); a.port = ntohs(s->sin6_port);
        static const u8 map[12] = {0,0,0,0,0,0,0,0,0,0,0xff,0xff}; if (!memcmp(a.ip, map, 12)) { a.fam = AF_INET; u8 t[4]; memcpy(t, a.ip + 12, 4); memset(a.ip, 0, 16); memcpy(a.ip, t, 4); } return true; }
    if (a.fam == AF_UNIX) { auto s = (const sockaddr_un *)sa; size_t n = len - offsetof(sockaddr_un, sun_path); a.path.assign(s->sun_path, strnlen(s->sun_path, n)); return true; }
    return false;
}
static void to_sa(const Addr &a, int fam, struct sockaddr *sa, socklen_t *len) {
    if (!sa || !len) return;
    char b[128]; memset(b, 0, sizeof b); socklen_t n = 0;
    if (fam == AF_INET) { auto s = (sockaddr_in *)b; s->sin_family = AF_INET; s->sin_port = htons(a.port); memcpy(&s->sin_addr, a.ip, 4); n = sizeof *s; }
    else if (fam == AF_INET6) { auto s = (sockaddr_in6 *)b; s->sin6_family = AF_INET6; s->sin6_port = htons(a.port); if (a.fam == AF_INET) { s->sin6_addr.s6_addr[10] = s->sin6_addr.s6_addr[11] = 0xff; memcpy(&s->sin6_addr.s6_addr[12], a.ip, 4); } else memcpy(&s->sin6_addr, a.ip, 16); n = sizeof *s; }
    else { auto s = (sockaddr_un *)b; s->sun_family = AF_UNIX; if (!a.path.empty()) { memcpy(s->sun_path, a.path.data(), std::min(a.path.size(), sizeof s->sun_path - 1)); n = 2 + a.path.size() + 1; } else n = 2; }
    memcpy(sa, b, std::min<socklen_t>(*len, n)); *len = n;
}
static bool is_loop(const Addr &a) { return (a.fam == AF_INET && a.ip[0] == 127) || a.any() || (a.fam == AF_INET6 && a.ip[15] == 1 && !a.ip[0]); }
void net_host(const char *ip, int mode) { (*g_hosts)[ip] = mode; log("host %s -> mode %d", ip, mode); hash_event(0x4057, mode); }
int net_host_mode(const char *ip) { auto it = g_hosts->find(ip); return it == g_hosts->end() ? 0 : it->second; }
static int hmode(const Addr &a) { if (g_hosts->empty()) return 0; return net_host_mode(a.ips().c_str()); }
static i64 latency() { i64 d = cfg.net_latency_ns; if (cfg.net_jitter_ns) { u32 v = choose(S_NET, 16); d += cfg.net_jitter_ns * v / 15; } return d; }

// ------------------------------------------------------------------ stream sockets
enum TcpState { TS_CLOSE, TS_LISTEN, TS_SYN_SENT, TS_EST };
struct Inode;
struct Tcp : Obj {
    Inode *ino = nullptr; bool unix_ = false; int fam = AF_INET; TcpState st = TS_CLOSE; Addr local, remote; bool bound = false, reuse_port = false, reuse_addr = false, v6only = false, linger0 = false;
    Tcp *peer = nullptr; std::deque<u8> rcv, sq; size_t unacked = 0; bool rcv_fin = false, rcv_shut = false, snd_shut = false, fin_pending = false, fin_sent = false, fin_acked = false, done = false;
    int sk_err = 0; bool nospace = false, pressure = false, pump_on = false, connecting = false, orphan = false; size_t sndbuf, rcvbuf;
    std::deque<Tcp *> acceptq; int backlog = 0; u64 rx = 0, tx = 0; bool was_est = false; int rcvtmo = 0; size_t inflight = 0;
    Tcp() : Obj(KIND_TCP) { sndbuf = cfg.sndbuf; rcvbuf = cfg.rcvbuf; }
    bool writable() { return !pressure && unacked < sndbuf && (unix_ ? unacked * 4 <= sndbuf : unacked * 3 <= sndbuf * 2); }
    bool full() { return pressure || unacked >= sndbuf; }
    bool both() { return (rcv_fin || rcv_shut) && snd_shut; }
    u32 poll() override {
        u32 m = 0;
        if (st == TS_LISTEN) return (acceptq.empty() ? 0 : EPOLLIN | EPOLLRDNORM) | (rcv_shut ? EPOLLIN | EPOLLRDNORM | EPOLLRDHUP : 0) | (rcv_shut && snd_shut ? EPOLLHUP : 0);
        bool rs = rcv_fin || rcv_shut;
        if (both() || st == TS_CLOSE) m |= EPOLLHUP;
        if (rs) m |= EPOLLIN | EPOLLRDNORM | EPOLLRDHUP;
        if (st != TS_SYN_SENT) {
            if (!rcv.empty()) m |= EPOLLIN | EPOLLRDNORM;
            if (!snd_shut) { if (writable()) m |= EPOLLOUT | EPOLLWRNORM; else nospace = true; } else m |= EPOLLOUT | EPOLLWRNORM;
        }
        if (sk_err) m |= EPOLLERR;
        return m;
    }
    void closed() override;
};
static std::vector<Tcp *> *g_listen; static std::vector<Tcp *> *g_bound; static u16 g_eph;
static void tcp_reset(Tcp *s) {
    if (s->st == TS_CLOSE && s->sk_err) return;
    if (s->orphan) { s->st = TS_CLOSE; return; }
    if (s->st == TS_CLOSE) return;
    s->sk_err = s->st == TS_SYN_SENT ? ECONNREFUSED : (s->rcv_fin && !s->snd_shut) ? EPIPE : ECONNRESET;
    s->st = TS_CLOSE; s->rcv_shut = s->snd_shut = true; s->sq.clear(); s->unacked = 0; s->fin_pending = false;
    log("tcp %s<-%s reset (%s)", s->local.str().c_str(), s->remote.str().c_str(), strerror(s->sk_err));
    wakeup(s, 0);
}
static bool path_blocked(Tcp *a) { return !a->unix_ && !g_hosts->empty() && (hmode(a->local) == HOST_BLACKHOLE || hmode(a->remote) == HOST_BLACKHOLE); }
static void send_rst(Tcp *from, Tcp *to) {
    after(from->unix_ ? 0 : latency(), [from, to] { std::function<void()> f; if (path_blocked(from)) return; tcp_reset(to); });
}
static void tcp_time_wait(Tcp *s) { if (s->fin_acked && s->rcv_fin) { s->st = TS_CLOSE; s->snd_shut = true; wakeup(s, 0); } }
static void pump(Tcp *a);
static void deliver(Tcp *a, size_t n, bool fin, int tries) {
    if (path_blocked(a)) { if (tries > 400) { a->pump_on = false; return; } after(200 * MS, [=] { deliver(a, n, fin, tries + 1); }); return; }
    a->pump_on = false;
    if (a->st == TS_CLOSE) return;
    Tcp *b = a->peer; if (!b) return;
    if (b->st == TS_CLOSE && !(b->rcv_fin)) { if (!a->orphan) send_rst(b, a); return; }
    if (n) {
        n = std::min(n, a->sq.size());
        if (b->orphan || b->st == TS_CLOSE) { a->sq.erase(a->sq.begin(), a->sq.begin() + n); send_rst(b, a); b->st = TS_CLOSE; return; }
        if (b->rcv_shut && b->snd_shut) { send_rst(b, a); tcp_reset(b); return; }
        b->rcv.insert(b->rcv.end(), a->sq.begin(), a->sq.begin() + n); a->sq.erase(a->sq.begin(), a->sq.begin() + n); b->rx += n;
        hash_event(0x7c9, n);
        wakeup(b, EPOLLIN | EPOLLRDNORM);
        auto ack = [a, n] { if (a->st == TS_CLOSE && a->sk_err) return; a->unacked -= std::min(n, a->unacked); if (a->nospace && a->writable()) { a->nospace = false; wakeup(a, EPOLLOUT | EPOLLWRNORM); } else wake(a, 1 << 20); };
        if (a->unix_) ack(); else after(latency(), ack);
    }
    if (fin) {
        log("tcp %s: FIN from %s", b->local.str().c_str(), a->local.str().c_str());
        b->rcv_fin = true; b->done = true; wakeup(b, 0);
        if (a->unix_) { a->fin_acked = true; }
        else after(latency(), [a, b] { a->fin_acked = true; tcp_time_wait(a); });
        tcp_time_wait(b);
        return;
    }
    pump(a);
}
static void pump(Tcp *a) {
    if (a->pump_on || !a->peer || a->st != TS_EST) return;
    Tcp *b = a->peer;
    if (!a->sq.empty()) {
        size_t win = b->orphan ? 65536 : b->rcv.size() < b->rcvbuf ? b->rcvbuf - b->rcv.size() : 0;
        if (!win) return;
        size_t n = std::min(win, a->sq.size());
        if (!a->unix_ && cfg.seg_split && n > 1 && chance(S_NET, cfg.seg_split, 1024)) { static const size_t sz[6] = {1, 3, 17, 536, 1460, 4096}; size_t k = sz[choose(S_NET, 6)]; n = std::min(n, k); fault("segment_split"); }
        a->pump_on = true;
        if (a->unix_) deliver(a, n, false, 0); else after(latency(), [a, n] { deliver(a, n, false, 0); });
    } else if (a->fin_pending) {
        a->fin_pending = false; a->fin_sent = true; a->pump_on = true;
        if (a->unix_) deliver(a, 0, true, 0); else after(latency(), [a] { deliver(a, 0, true, 0); });
    }
}
static void tcp_unlisten(Tcp *s) {
    g_listen->erase(std::remove(g_listen->begin(), g_listen->end(), s), g_listen->end());
    for (Tcp *c : s->acceptq) { c->orphan = true; c->st = TS_CLOSE; if (c->peer) send_rst(c, c->peer); }
    s->acceptq.clear();
}
void Tcp::closed() {
    orphan = true; g_bound->erase(std::remove(g_bound->begin(), g_bound->end(), this), g_bound->end());
    if (st == TS_LISTEN) { tcp_unlisten(this); st = TS_CLOSE; return; }
    if (st == TS_SYN_SENT) { st = TS_CLOSE; if (peer) send_rst(this, peer); return; }
    if (st == TS_EST) {
        if (unix_) { Tcp *p = peer; st = TS_CLOSE; if (p && p->st != TS_CLOSE) { p->rcv_fin = p->rcv_shut = p->snd_shut = true; p->done = true; if (!rcv.empty()) p->sk_err = ECONNRESET; p->st = TS_CLOSE; wakeup(p, 0); } return; }
        if (!rcv.empty() || linger0) { sq.clear(); st = TS_CLOSE; if (peer) send_rst(this, peer); return; }
        if (!snd_shut) { snd_shut = true; fin_pending = true; pump(this); }
    }
}
static struct Inode *unix_inode(const std::string &path);
static Tcp *find_listener(const Addr &d, const Addr &src, int type_unix) {
    std::vector<Tcp *> exact, any;
    for (Tcp *l : *g_listen) {
        if (l->unix_) { if (type_unix && l->ino && l->ino == unix_inode(d.path)) exact.push_back(l); continue; }
        if (type_unix || l->local.port != d.port) continue;
        if (l->local.any()) { if (l->fam == d.fam || (l->fam == AF_INET6 && !l->v6only)) any.push_back(l); }
        else if (l->local.fam == d.fam && !memcmp(l->local.ip, d.ip, 16)) exact.push_back(l);
    }
    auto &v = exact.empty() ? any : exact;
    if (v.empty()) return nullptr;
    if (v.size() == 1) return v[0];
    return v[(src.port * 7919u + d.port) % v.size()];   // reuseport group
}
static bool addr_conflict(Tcp *s, const Addr &a) {
    for (Tcp *o : *g_bound) {
        if (o == s || o->unix_ || o->local.port != a.port) continue;
        if (o->st == TS_EST) continue;
        bool overlap = o->local.any() || a.any() || (o->local.fam == a.fam && !memcmp(o->local.ip, a.ip, 16));
        if (o->fam != s->fam && (o->v6only || s->v6only)) overlap = false;
        if (o->fam == AF_INET6 && s->fam == AF_INET6 && o->local.fam != a.fam && !o->local.any() && !a.any()) overlap = false;
        if (!overlap) continue;
        if (o->reuse_port && s->reuse_port) continue;
        if (o->reuse_addr && s->reuse_addr && o->st != TS_LISTEN) continue;
        return true;
    }
    return false;
}
static u16 eph_port() { for (;;) { u16 p = g_eph++; if (g_eph >= 60000) g_eph = 40000; bool used = false; for (Tcp *o : *g_bound) used |= !o->unix_ && o->local.port == p; if (!used) return p; } }

static void syn_arrive(Tcp *c, int attempt) {
    if (c->st != TS_SYN_SENT || c->orphan) return;
    if (hmode(c->remote) == HOST_UNREACH) { after(latency(), [c] { if (c->st == TS_SYN_SENT) { c->sk_err = EHOSTUNREACH; c->st = TS_CLOSE; c->rcv_shut = c->snd_shut = true; wakeup(c, 0); } }); return; }
    auto retry = [c, attempt] {
        if (attempt >= 6) { if (c->st == TS_SYN_SENT) { c->sk_err = ETIMEDOUT; c->st = TS_CLOSE; c->rcv_shut = c->snd_shut = true; wakeup(c, 0); } return; }
        after((1LL << attempt) * SEC, [c, attempt] { syn_arrive(c, attempt + 1); });
    };
    if (path_blocked(c)) { retry(); return; }
    Tcp *l = hmode(c->remote) == HOST_REFUSE ? nullptr : find_listener(c->remote, c->local, 0);
    if (!l) { send_rst(c, c); return; }
    if ((int)l->acceptq.size() > l->backlog) { fault("backlog_full"); retry(); return; }
    Tcp *s = new Tcp; s->fam = l->fam; s->st = TS_EST; s->local = c->remote; s->remote = c->local; s->peer = c; s->bound = true; s->was_est = true; c->peer = s;
    s->sndbuf = l->sndbuf; s->rcvbuf = l->rcvbuf;
    l->acceptq.push_back(s); g_estab++;
    log("tcp %s -> %s: connection queued", c->local.str().c_str(), c->remote.str().c_str());
    wakeup(l, EPOLLIN | EPOLLRDNORM);
    after(latency(), [c, s] { if (c->orphan || c->st != TS_SYN_SENT) { send_rst(c, s); return; } c->st = TS_EST; c->was_est = true; log("tcp %s: connected", c->local.str().c_str()); wakeup(c, 0); });
}
static int do_connect(Tcp *s, const Addr &a) {
    if (s->st == TS_LISTEN) { errno = EINVAL; return -1; }
    if (s->unix_) {
        if (s->st == TS_EST) { errno = EISCONN; return -1; }
        Tcp *l = find_listener(a, s->local, 1);
        if (!l || l->rcv_shut) { errno = fs_exists(a.path.c_str()) ? ECONNREFUSED : ENOENT; return -1; }
        while ((int)l->acceptq.size() > l->backlog) { if (s->nonblock) { errno = EAGAIN; return -1; } block(l, -1); if (l->st != TS_LISTEN) { errno = ECONNREFUSED; return -1; } }
        Tcp *c = new Tcp; c->unix_ = true; c->fam = AF_UNIX; c->local = l->local; c->remote = s->local; c->st = s->st = TS_EST; c->peer = s; s->peer = c; s->remote = a; c->was_est = s->was_est = true; c->remote.fam = AF_UNIX;
        l->acceptq.push_back(c); g_estab++; wakeup(l, EPOLLIN); wakeup(s, 0); return 0;
    }
    if (s->st == TS_EST) { if (s->connecting) { s->connecting = false; return 0; } errno = EISCONN; return -1; }
    if (s->st == TS_SYN_SENT) { errno = EALREADY; return -1; }
    if (s->connecting) { s->connecting = false; int e = s->sk_err ? s->sk_err : ECONNABORTED; s->sk_err = 0; errno = e; return -1; }
    if (chance(F_MISC, cfg.p_eagain / 4, 1024)) { fault("connect_error"); errno = ENETUNREACH; return -1; }
    s->remote = a; s->st = TS_SYN_SENT; s->connecting = true; s->rcv_shut = s->snd_shut = false; s->sk_err = 0;
    if (!s->bound || s->local.port == 0) { s->local.port = eph_port(); if (!s->bound) g_bound->push_back(s); s->bound = true; }
    if (s->local.any()) { s->local.fam = a.fam; if (a.fam == AF_INET) { if (a.ip[0] == 127) { u8 l[4] = {127, 0, 0, 1}; memcpy(s->local.ip, l, 4); } else { u8 l[4] = {10, 0, 0, 1}; memcpy(s->local.ip, l, 4); } } else s->local.ip[15] = 1; }
    if (a.any()) { s->remote = a; if (a.fam == AF_INET) { s->remote.ip[0] = 127; s->remote.ip[3] = 1; } else s->remote.ip[15] = 1; }
    after(latency(), [s] { syn_arrive(s, 0); });
    log("tcp %s -> %s: SYN", s->local.str().c_str(), s->remote.str().c_str());
    if (s->nonblock) { errno = EINPROGRESS; return -1; }
    while (s->st == TS_SYN_SENT) block(s, -1);
    s->connecting = false;
    if (s->st == TS_EST || s->was_est) return 0;
    int e = s->sk_err ? s->sk_err : ECONNABORTED; s->sk_err = 0; errno = e; return -1;
}
static ssize_t tcp_recv(Tcp *s, const struct iovec *iov, int n, int flags, const void *pc) {
    size_t want = 0; for (int i = 0; i < n; i++) { chk(iov[i].iov_base, iov[i].iov_len, true, pc); want += iov[i].iov_len; }
    if (s->st == TS_LISTEN) { errno = s->unix_ ? EINVAL : ENOTCONN; return -1; }
    for (;;) {
        if (!s->rcv.empty()) break;
        if (s->unix_ && s->sk_err) { errno = s->sk_err; s->sk_err = 0; return -1; }
        if (s->done) return 0;
        if (s->sk_err) { errno = s->sk_err; s->sk_err = 0; return -1; }
        if (s->rcv_shut || s->rcv_fin) return 0;
        if (s->st == TS_CLOSE) { errno = ENOTCONN; return -1; }
        if (want == 0) return 0;
        if (s->nonblock || (flags & MSG_DONTWAIT)) { errno = EAGAIN; return -1; }
        block(s, -1);
    }
    size_t k = 0;
    for (int i = 0; i < n && !s->rcv.empty(); i++) { size_t m = std::min(iov[i].iov_len, s->rcv.size()); std::copy_n(s->rcv.begin(), m, (u8 *)iov[i].iov_base); if (!(flags & MSG_PEEK)) s->rcv.erase(s->rcv.begin(), s->rcv.begin() + m); k += m; if (m < iov[i].iov_len || (flags & MSG_PEEK)) break; }
    if (s->unix_) { Tcp *p = s->peer; if (p && k && !(flags & MSG_PEEK)) { p->unacked -= std::min(k, p->unacked); if (p->st == TS_EST && p->nospace && p->writable()) { p->nospace = false; wakeup(p, EPOLLOUT | EPOLLWRNORM); } else wake(p, 1 << 20); } }
    else if (s->peer) pump(s->peer);
    hash_event(0x4ecf, k); log("recv fd %s %zu bytes", s->local.str().c_str(), k);
    return k;
}
static int tcp_send_err(Tcp *s, int flags, const void *pc) {
    int e = s->sk_err ? s->sk_err : EPIPE; s->sk_err = 0;
    if (e == EPIPE && !(flags & MSG_NOSIGNAL) && !default_sigaction_ignored(SIGPIPE)) violation_pc("signal:SIGPIPE", pc, "%s writes to a closed connection with SIGPIPE not ignored: the process would be killed", sym_of(pc));
    errno = e; return -1;
}
static void set_pressure(Tcp *s) {
    s->pressure = true; s->nospace = true; fault("short_write");
    static const i64 d[4] = {30 * US, 300 * US, 2 * MS, 40 * MS};
    after(d[choose(F_SHORT, 4)], [s] { s->pressure = false; if (s->nospace && s->writable()) { s->nospace = false; wakeup(s, EPOLLOUT | EPOLLWRNORM); } else wake(s, 1 << 20); });
}
static ssize_t tcp_send(Tcp *s, const struct iovec *iov, int n, int flags, const void *pc) {
    size_t want = 0; for (int i = 0; i < n; i++) { chk(iov[i].iov_base, iov[i].iov_len, false, pc); want += iov[i].iov_len; }
    for (;;) {
        if (s->st == TS_SYN_SENT) { if (s->nonblock) { errno = EAGAIN; return -1; } block(s, -1); continue; }
        if (s->st != TS_EST || s->snd_shut || s->sk_err) { if (s->st == TS_CLOSE && !s->was_est && !s->sk_err && s->unix_) { errno = ENOTCONN; return -1; } return tcp_send_err(s, flags, pc); }
        if (s->unix_ && (s->peer->rcv_shut || s->peer->orphan)) return tcp_send_err(s, flags, pc);
        if (want == 0) return 0;
        if (!s->full() && cfg.p_short && s->nonblock && chance(F_SHORT, cfg.p_eagain, 1024)) set_pressure(s);
        if (!s->full()) break;
        s->nospace = true;
        if (s->nonblock || (flags & MSG_DONTWAIT)) { errno = EAGAIN; return -1; }
        block(s, -1);
    }
    size_t room = s->sndbuf - s->unacked, lim = std::min(want, room);
    if (s->nonblock && lim > 1 && chance(F_SHORT, cfg.p_short, 1024)) { u32 how = choose(F_SHORT, 4); lim = how == 0 ? 1 : how == 1 ? lim - 1 : how == 2 ? lim / 2 : 1 + choose(F_SHORT, (u32)std::min<size_t>(lim - 1, 60000)); set_pressure(s); }
    else if (lim < want) s->nospace = true;
    size_t k = 0;
    for (int i = 0; i < n && k < lim; i++) { size_t m = std::min(iov[i].iov_len, lim - k); const u8 *p = (const u8 *)iov[i].iov_base; std::deque<u8> &to = s->unix_ ? s->peer->rcv : s->sq; to.insert(to.end(), p, p + m); k += m; }
    s->unacked += k; s->tx += k;
    if (s->unix_) { s->peer->rx += k; hash_event(0x7c9, k); wakeup(s->peer, EPOLLIN | EPOLLRDNORM); }   // straight into the peer's queue, charged to the sender until it is read
    else pump(s);
    hash_event(0x5e4d, k); log("send %s -> %s %zu of %zu bytes", s->local.str().c_str(), s->remote.str().c_str(), k, want);
    if (!s->nonblock && k < want && !(flags & MSG_DONTWAIT)) {   // blocking send continues until everything is queued
        std::vector<struct iovec> v; size_t skip = k; for (int i = 0; i < n; i++) { if (skip >= iov[i].iov_len) { skip -= iov[i].iov_len; continue; } v.push_back({(char *)iov[i].iov_base + skip, iov[i].iov_len - skip}); skip = 0; }
        ssize_t r = tcp_send(s, v.data(), v.size(), flags, pc); if (r > 0) k += r;
    }
    return k;
}
static int tcp_shutdown(Tcp *s, int how) {
    bool r = how == SHUT_RD || how == SHUT_RDWR, w = how == SHUT_WR || how == SHUT_RDWR;
    int err = 0;
    if (s->unix_) {
        if (s->st != TS_EST && s->st != TS_LISTEN && s->st != TS_CLOSE) { errno = ENOTCONN; return -1; }
        if (r) s->rcv_shut = true; if (w) s->snd_shut = true;
        Tcp *p = s->peer; if (p && p->st != TS_CLOSE) { if (w) { p->rcv_fin = p->rcv_shut = true; p->done = false; } if (r) p->snd_shut = true; wakeup(p, 0); }
        if (s->st == TS_LISTEN) { wakeup(s, 0); return 0; }
        wakeup(s, 0); return 0;
    }
    switch (s->st) {
    case TS_CLOSE: err = ENOTCONN; if (r) s->rcv_shut = true; if (w) s->snd_shut = true; break;
    case TS_LISTEN: if (!r) break; tcp_unlisten(s); s->st = TS_CLOSE; s->rcv_shut = s->snd_shut = false; break;
    case TS_SYN_SENT: s->st = TS_CLOSE; s->sk_err = ECONNRESET; s->rcv_shut = s->snd_shut = false; if (s->peer) send_rst(s, s->peer); break;
    case TS_EST: if (r) s->rcv_shut = true; if (w && !s->snd_shut) { s->snd_shut = true; s->fin_pending = true; pump(s); } break;
    }
    wakeup(s, 0);
    if (err) { errno = err; return -1; }
    return 0;
}
// ------------------------------------------------------------------ UDP
struct Udp : Obj {
    struct Dg { Addr from, to; std::string data; }; int fam = AF_INET; Addr local, remote; bool bound = false, pktinfo = false, pktinfo6 = false, conn = false, reuse_port = false, reuse_addr = false; std::deque<Dg> q; size_t cap; bool shut = false;
    bool nospace = false; int recv_errs = 0;
    Udp() : Obj(KIND_UDP) { cap = 64; }
    u32 poll() override { return (q.empty() ? 0 : EPOLLIN | EPOLLRDNORM) | EPOLLOUT | EPOLLWRNORM | (shut ? EPOLLHUP | EPOLLIN | EPOLLRDHUP : 0); }
    void closed() override;
};
static std::vector<Udp *> *g_udp;
void Udp::closed() { g_udp->erase(std::remove(g_udp->begin(), g_udp->end(), this), g_udp->end()); }
static void udp_deliver(Udp::Dg d) {
    Udp *best = nullptr;
    for (Udp *u : *g_udp) { if (u->local.port != d.to.port) continue; if (!u->local.any() && (u->local.fam != d.to.fam || memcmp(u->local.ip, d.to.ip, 16))) continue; if (u->conn && (u->remote.port != d.from.port || memcmp(u->remote.ip, d.from.ip, 16))) continue; if (!best || (best->local.any() && !u->local.any())) best = u; }
    if (!best) { log("udp to %s dropped: no socket", d.to.str().c_str()); return; }
    if (best->q.size() >= best->cap) { fault("udp_queue_full"); return; }
    best->q.push_back(d); hash_event(0x0d9, d.data.size()); wakeup(best, EPOLLIN | EPOLLRDNORM);
}
static std::map<int, u64> *g_udp_err; static std::map<int, int> *g_ectl_fail;
static ssize_t udp_send(Udp *u, const Addr *to, const struct iovec *iov, int n, const void *pc) {
    Udp::Dg d; for (int i = 0; i < n; i++) { chk(iov[i].iov_base, iov[i].iov_len, false, pc); d.data.append((const char *)iov[i].iov_base, iov[i].iov_len); }
    if (u->shut) { errno = EPIPE; return -1; }
    if (!to && !u->conn) { errno = EDESTADDRREQ; return -1; }
    if (d.data.size() > 65507) { errno = EMSGSIZE; return -1; }
    if (!u->bound) { u->local.port = eph_port(); u->bound = true; g_udp->push_back(u); }
    if (cfg.p_eagain && chance(F_UDP, cfg.p_eagain / 4, 1024)) { fault("udp_send_error"); if (!g_udp_err) g_udp_err = new std::map<int, u64>; (*g_udp_err)[self()]++; errno = ENOBUFS; return -1; }
    d.to = to ? *to : u->remote; d.from = u->local; if (d.from.any()) { d.from.fam = d.to.fam; if (d.to.fam == AF_INET) { u8 a[4] = {127, 0, 0, 1}; if (d.to.ip[0] != 127) { a[0] = 10; } memcpy(d.from.ip, a, 4); } else d.from.ip[15] = 1; }
    size_t sz = d.data.size(); hash_event(0x0d5, sz);
    if (hmode(d.to) == HOST_BLACKHOLE || chance(F_UDP, cfg.p_udp_loss, 1024)) { fault("udp_loss"); log("udp %zu bytes lost", sz); return sz; }
    int copies = 1; if (chance(F_UDP, cfg.p_udp_dup, 1024)) { copies = 2; fault("udp_dup"); }
    for (int i = 0; i < copies; i++) after(latency(), [d] { udp_deliver(d); });
    return sz;
}

// ------------------------------------------------------------------ eventfd
struct Event : Obj { u64 v; bool sem; Event(u64 i, bool s) : Obj(KIND_EVENTFD), v(i), sem(s) {} u32 poll() override { return (v ? EPOLLIN : 0) | (v < ~0ULL - 1 ? EPOLLOUT : 0); } };
// ------------------------------------------------------------------ files
struct Inode { std::string data; std::vector<std::pair<i64, i64>> bad; int nlink = 1; bool sock = false; u64 ino; i64 mtime = 0; };
static std::map<std::string, Inode *> *g_fs; static i64 g_fscap; static bool g_nodirect; static u64 g_ino; static std::map<std::string, std::vector<std::string>> *g_dns; static std::map<std::string, int> *g_dnscalls; static int g_dnsrun;
struct FileO : Obj { Inode *in; int flags; i64 pos = 0; AioRec aio{0, 0, 0}; FileO(Inode *i, int f) : Obj(KIND_FILE), in(i), flags(f) {} u32 poll() override { return EPOLLIN | EPOLLOUT; } };
static Inode *unix_inode(const std::string &path) { auto it = g_fs->find(path); return it == g_fs->end() ? nullptr : it->second; }
static i64 fs_used() { i64 n = 0; for (auto &x : *g_fs) n += x.second->data.size(); return n; }
void fs_put(const char *p, const std::string &d) { auto &i = (*g_fs)[p]; if (!i) { i = new Inode; i->ino = ++g_ino; } i->data = d; }
bool fs_get(const char *p, std::string &o) { auto i = g_fs->find(p); if (i == g_fs->end()) return false; o = i->second->data; return true; }
bool fs_exists(const char *p) { return g_fs->count(p); }
void fs_capacity(i64 b) { g_fscap = b; }
void fs_no_direct(bool on) { g_nodirect = on; }
void fs_bad_range(const char *p, i64 a, i64 b) { auto i = g_fs->find(p); if (i != g_fs->end()) i->second->bad.push_back({a, b}); }
static bool bad_io(Inode *in, i64 off, i64 n) { for (auto &b : in->bad) if (off < b.second && off + n > b.first) return true; return false; }
static ssize_t file_xfer(FileO *f, bool wr, const struct iovec *iov, int n, i64 off, const void *pc) {
    Inode *in = f->in; i64 want = 0; for (int i = 0; i < n; i++) want += iov[i].iov_len;
    if (off < 0) return -EINVAL;
    if ((f->flags & O_DIRECT)) { for (int i = 0; i < n; i++) if (((uintptr_t)iov[i].iov_base | iov[i].iov_len) & 511) return -EINVAL; if (off & 511) return -EINVAL; }
    if (bad_io(in, off, want)) { fault("disk_eio"); return -EIO; }
    for (int i = 0; i < n; i++) chk(iov[i].iov_base, iov[i].iov_len, !wr, pc);
    if (!wr) {
        i64 av = (i64)in->data.size() - off; if (av <= 0) return 0; want = std::min(want, av);
        i64 k = 0; for (int i = 0; i < n && k < want; i++) { i64 m = std::min<i64>(iov[i].iov_len, want - k); memcpy(iov[i].iov_base, in->data.data() + off + k, m); k += m; }
        return k;
    }
    if (g_fscap >= 0) { i64 end = off + want, grow = end - (i64)in->data.size(); i64 room = g_fscap - fs_used(); if (grow > room) { fault("disk_full"); i64 can = (i64)in->data.size() + std::max<i64>(room, 0) - off; if (can <= 0) return -ENOSPC; want = std::min(want, can); if (f->flags & O_DIRECT) want &= ~511LL; if (!want) return -ENOSPC; } }
    if ((i64)in->data.size() < off + want) in->data.resize(off + want);
    i64 k = 0; for (int i = 0; i < n && k < want; i++) { i64 m = std::min<i64>(iov[i].iov_len, want - k); memcpy(&in->data[off + k], iov[i].iov_base, m); k += m; }
    in->mtime = wall_ns();
    return k;
}
static i64 disk_latency() { i64 d = cfg.disk_latency_ns; if (cfg.disk_jitter_ns) d += cfg.disk_jitter_ns * choose(F_AIO, 16) / 15; return d; }
// ------------------------------------------------------------------ native AIO
struct AioCtx { u64 id; int nr; int inflight = 0; bool dead = false; std::deque<struct io_event> ring; };
static std::map<u64, AioCtx *> *g_aio; static u64 g_aioid; static int g_aio_flying;
int aio_in_flight() { return g_aio_flying; }
AioRec aio_rec(int fd) { Obj *o = get(fd); return o && o->kind == KIND_FILE ? ((FileO *)o)->aio : AioRec{0, 0, 0}; }
int epoll_ctl_fail_self(int n) { if (!g_ectl_fail) g_ectl_fail = new std::map<int, int>; int was = (*g_ectl_fail)[self()]; (*g_ectl_fail)[self()] = n; return was; }
int udp_recv_errors(int fd) { Obj *o = get(fd); return o && o->kind == KIND_UDP ? ((Udp *)o)->recv_errs : 0; }
u64 udp_errors_self() { return g_udp_err ? (*g_udp_err)[self()] : 0; }
int aio_contexts() { return g_aio ? (int)g_aio->size() : 0; }
static int aio_submit1(AioCtx *c, struct iocb *cb, const void *pc) {
    chk(cb, sizeof *cb, true, pc);
    Obj *o = use(cb->aio_fildes, "io_submit", pc); if (!o) return -EBADF;
    if (o->kind != KIND_FILE) return -EINVAL;
    FileO *f = (FileO *)o; bool wr = cb->aio_lio_opcode == IOCB_CMD_PWRITE || cb->aio_lio_opcode == IOCB_CMD_PWRITEV;
    if (cb->aio_lio_opcode != IOCB_CMD_PREAD && cb->aio_lio_opcode != IOCB_CMD_PWRITE) return -EINVAL;
    int acc = f->flags & O_ACCMODE; if (wr ? acc == O_RDONLY : acc == O_WRONLY) return -EBADF;
    if (cb->aio_offset < 0) return -EINVAL;
    if (c->inflight + (int)c->ring.size() >= c->nr) return -EAGAIN;
    if (chance(F_AIO, cfg.p_aio_fail, 1024)) { fault("aio_submit_fail"); return -EAGAIN; }
    Obj *ev = nullptr; if (cb->aio_flags & IOCB_FLAG_RESFD) { ev = use(cb->aio_resfd, "io_submit(resfd)", pc); if (!ev || ev->kind != KIND_EVENTFD) return -EBADF; ev->refs++; }
    struct iocb b = *cb; f->refs++; c->inflight++; g_aio_flying++;
    chk((void *)b.aio_buf, b.aio_nbytes, !wr, pc);
    i64 d = disk_latency(); f->aio.submits++; bool sync = chance(F_AIO, cfg.p_aio_sync, 1024);
    if (chance(F_AIO, cfg.p_late, 1024)) { d += 20 * MS * (1 + choose(F_AIO, 20)); fault("aio_slow"); }
    bool err = chance(F_AIO, cfg.p_aio_err, 1024), sh = chance(F_AIO, cfg.p_aio_short, 1024);
    u32 shn = sh ? choose(F_AIO, 4) : 0;
    log("aio submit %s %llu bytes at %lld", wr ? "write" : "read", (unsigned long long)b.aio_nbytes, (long long)b.aio_offset);
    auto done = [=] {
        i64 r;
        size_t n = b.aio_nbytes;
        if (sh && n > 1) { fault("aio_short"); size_t m = shn == 0 ? n / 2 : shn == 1 ? n - 1 : shn == 2 ? 1 : n / 4 + 1; if (f->flags & O_DIRECT) m &= ~4095ULL; if (m) n = m; }
        if (err) { fault("aio_eio"); r = -EIO; }
        else { if (in_arena((void *)b.aio_buf) && !heap_is_live((void *)b.aio_buf)) violation("mem:kernel-access-after-free", "the buffer of an asynchronous %s of %zu bytes was freed before the operation completed", wr ? "write" : "read", n);
            struct iovec v{(void *)b.aio_buf, n}; i64 off = wr && (f->flags & O_APPEND) ? (i64)f->in->data.size() : b.aio_offset; r = file_xfer(f, wr, &v, 1, off, pc); }
        f->aio.completes++; f->aio.last = r; put(f); g_aio_flying--; c->inflight--;
        hash_event(0xa10, r); log("aio complete: %lld", (long long)r);
        if (!c->dead) { struct io_event e{b.aio_data, (u64)(uintptr_t)cb, r, 0}; c->ring.push_back(e); }
        wake(c, 1 << 20);
        if (ev) { ((Event *)ev)->v++; wakeup(ev, EPOLLIN); put(ev); }
    };
    if (sync) { fault("aio_sync"); done(); } else after(d, done);      // a real io_submit completes buffered transfers before it returns
    return 0;
}
// ------------------------------------------------------------------ state
int default_sigaction_ignored(int);
void kernel_reset() {
    g_fds = new std::vector<Obj *>; g_listen = new std::vector<Tcp *>; g_bound = new std::vector<Tcp *>; g_udp = new std::vector<Udp *>; g_hosts = new std::map<std::string, int>; g_alias = new std::map<int, int>;
    g_fs = new std::map<std::string, Inode *>; g_dns = new std::map<std::string, std::vector<std::string>>; g_dnscalls = new std::map<std::string, int>; g_aio = new std::map<u64, AioCtx *>;
    g_nopen = 0; g_fdlimit = 0; g_eph = 40000; g_fscap = -1; g_nodirect = false; g_ino = 100; g_aioid = 0; g_aio_flying = 0; g_dnsrun = 0; g_estab = 0;
}
SockInfo sock_info(int fd) { SockInfo r{}; Obj *o = get(fd); if (!o) return r; r.exists = true; r.kind = o->kind; if (o->kind == KIND_TCP) { Tcp *t = (Tcp *)o; r.listening = t->st == TS_LISTEN; r.established = t->st == TS_EST; r.was_established = t->was_est; r.reset = t->st == TS_CLOSE && t->was_est; r.rcv = t->rcv.size(); r.snd = t->unacked; r.acceptq = t->acceptq.size(); } return r; }
void dns_set(const char *n, const std::vector<std::string> &v) { (*g_dns)[n] = v; }
int dns_calls(const char *n) { return (*g_dnscalls)[n]; }
int dns_running() { return g_dnsrun; }
}
using namespace sim;

extern "C" {
// ------------------------------------------------------------------ descriptors
int sim_close(int fd) {
    syscall_point(20, PC);
    Obj *o = use(fd, "close", PC); if (!o) return -1;
    hash_event(0xc105e, fd); log("close fd %d", fd);
    (*g_fds)[fd - FDBASE] = nullptr; g_nopen--;
    put(o);
    return 0;
}
int sim_fcntl(int fd, int cmd, ...) {
    va_list ap; va_start(ap, cmd); long arg = va_arg(ap, long); va_end(ap);
    syscall_point(21, PC);
    Obj *o = use(fd, "fcntl", PC); if (!o) return -1;
    switch (cmd) {
    case F_GETFL: return (o->nonblock ? O_NONBLOCK : 0) | (o->kind == KIND_FILE ? ((FileO *)o)->flags : O_RDWR);
    case F_SETFL: o->nonblock = arg & O_NONBLOCK; if (o->kind == KIND_FILE) { FileO *f = (FileO *)o; if ((arg & O_DIRECT) && g_nodirect) { errno = EINVAL; return -1; } int m = O_APPEND | O_DIRECT | O_NONBLOCK; f->flags = (f->flags & ~m) | (arg & m); } return 0;
    case F_GETFD: return 0; case F_SETFD: return 0;
    }
    errno = EINVAL; return -1;
}
int sim_ioctl(int fd, unsigned long req, ...) {
    va_list ap; va_start(ap, req); void *arg = va_arg(ap, void *); va_end(ap);
    syscall_point(22, PC);
    Obj *o = use(fd, "ioctl", PC); if (!o) return -1;
    if (req == FIONBIO) { o->nonblock = *(int *)arg != 0; return 0; }
    if (req == FIONREAD && o->kind == KIND_TCP) { *(int *)arg = ((Tcp *)o)->rcv.size(); return 0; }
    errno = ENOTTY; return -1;
}
int sim_socket(int dom, int type, int proto) {
    syscall_point(23, PC);
    if (chance(F_MISC, cfg.p_thread_fail / 8, 1024)) { fault("socket_emfile"); errno = EMFILE; return -1; }
    bool nb = type & SOCK_NONBLOCK; type &= ~(SOCK_NONBLOCK | SOCK_CLOEXEC);
    Obj *o;
    if (type == SOCK_STREAM) { Tcp *t = new Tcp; t->fam = dom; t->unix_ = dom == AF_UNIX; t->local.fam = dom; o = t; }
    else if (type == SOCK_DGRAM && dom != AF_UNIX) { Udp *u = new Udp; u->fam = dom; u->local.fam = dom; o = u; }
    else { errno = EAFNOSUPPORT; return -1; }
    o->nonblock = nb;
    int fd = install(o, PC); log("socket -> fd %d", fd); return fd;
}
int sim_bind(int fd, const struct sockaddr *sa, socklen_t len) {
    syscall_point(24, PC); chk(sa, len, false, PC);
    Obj *o = use(fd, "bind", PC); if (!o) return -1;
    Addr a; if (!from_sa(sa, len, a)) { errno = EINVAL; return -1; }
    if (o->kind == KIND_UDP) {
        Udp *u = (Udp *)o; if (u->bound) { errno = EINVAL; return -1; }
        if (a.port == 0) a.port = eph_port();
        for (Udp *x : *g_udp) if (x->local.port == a.port && (x->local.any() || a.any() || !memcmp(x->local.ip, a.ip, 16)) && !(x->reuse_port && u->reuse_port) && !(x->reuse_addr && u->reuse_addr)) { errno = EADDRINUSE; return -1; }
        u->local = a; u->bound = true; g_udp->push_back(u); return 0;
    }
    if (o->kind != KIND_TCP) { errno = ENOTSOCK; return -1; }
    Tcp *s = (Tcp *)o; if (s->bound) { errno = EINVAL; return -1; }
    if (s->unix_) { if (fs_exists(a.path.c_str())) { errno = EADDRINUSE; return -1; } fs_put(a.path.c_str(), ""); s->ino = (*g_fs)[a.path]; s->ino->sock = true; s->local = a; s->bound = true; return 0; }
    if (a.fam != s->fam && !(s->fam == AF_INET6)) { errno = EAFNOSUPPORT; return -1; }
    if (a.port == 0) a.port = eph_port(); else if (addr_conflict(s, a)) { errno = EADDRINUSE; return -1; }
    s->local = a; s->bound = true; g_bound->push_back(s);
    return 0;
}
int sim_listen(int fd, int backlog) {
    syscall_point(25, PC);
    Obj *o = use(fd, "listen", PC); if (!o) return -1;
    if (o->kind != KIND_TCP) { errno = EOPNOTSUPP; return -1; }
    Tcp *s = (Tcp *)o; if (s->st != TS_CLOSE && s->st != TS_LISTEN) { errno = EINVAL; return -1; }
    if (!s->unix_ && !s->bound) { s->local.port = eph_port(); s->bound = true; g_bound->push_back(s); }
    if (s->owner < 0 && cfg.listen_errs && chance(F_ACCEPT, cfg.p_listen_err, 1024)) { cfg.listen_errs--; fault("listen_EADDRINUSE"); errno = EADDRINUSE; return -1; }   // another socket bound the address first and listens now
    s->backlog = backlog < 0 ? 4096 : backlog; if (s->st != TS_LISTEN) { s->st = TS_LISTEN; s->rcv_shut = s->snd_shut = false; g_listen->push_back(s); }
    log("listen fd %d on %s", fd, s->local.str().c_str());
    return 0;
}
int sim_accept4(int fd, struct sockaddr *sa, socklen_t *len, int flags) {
    syscall_point(26, PC);
    Obj *o = use(fd, "accept", PC); if (!o) return -1;
    if (o->kind != KIND_TCP) { errno = ENOTSOCK; return -1; }
    Tcp *s = (Tcp *)o;
    if (g_fdlimit && s->owner < 0 && lib_fds() >= g_fdlimit) { fault("accept_fd_limit"); errno = EMFILE; return -1; }   // the kernel takes the descriptor first
    for (;;) {
        if (s->st != TS_LISTEN) { errno = EINVAL; return -1; }
        if (!s->acceptq.empty()) break;
        if (s->nonblock) { errno = EAGAIN; return -1; }
        if (s->unix_ && s->rcv_shut) { errno = EINVAL; return -1; }
        block(s, -1);
    }
    if (s->owner < 0 && chance(F_ACCEPT, cfg.p_accept_err, 1024)) {
        static const int e[5] = {ECONNABORTED, EMFILE, ENFILE, ENOMEM, EPROTO}; int x = e[choose(F_ACCEPT, 5)];
        if (x == ECONNABORTED || x == EPROTO) { Tcp *c = s->acceptq.front(); s->acceptq.pop_front(); g_estab--; c->orphan = true; c->st = TS_CLOSE; if (c->peer) send_rst(c, c->peer); }
        fault(x == ECONNABORTED ? "accept_ECONNABORTED" : x == EMFILE ? "accept_EMFILE" : x == ENFILE ? "accept_ENFILE" : x == ENOMEM ? "accept_ENOMEM" : "accept_EPROTO"); errno = x; return -1;
    }
    Tcp *c = s->acceptq.front();
    c->nonblock = flags & SOCK_NONBLOCK;
    int nfd = install(c, PC, s->owner >= 0); if (nfd < 0) return -1;
    s->acceptq.pop_front(); if (s->unix_) wake(s, 1 << 20);
    if (s->owner >= 0) c->owner = s->owner;
    if (sa && len) { chk(len, sizeof *len, true, PC); chk(sa, *len, true, PC); to_sa(c->remote, s->fam, sa, len); }
    log("accept on fd %d -> fd %d (%s)", fd, nfd, c->remote.str().c_str());
    return nfd;
}
int sim_accept(int fd, struct sockaddr *sa, socklen_t *len) { return sim_accept4(fd, sa, len, 0); }
int sim_connect(int fd, const struct sockaddr *sa, socklen_t len) {
    syscall_point(27, PC); chk(sa, len, false, PC);
    Obj *o = use(fd, "connect", PC); if (!o) return -1;
    Addr a; if (!from_sa(sa, len, a)) { errno = EINVAL; return -1; }
    if (o->kind == KIND_UDP) { Udp *u = (Udp *)o; u->remote = a; u->conn = true; if (!u->bound) { u->local.port = eph_port(); u->bound = true; g_udp->push_back(u); } return 0; }
    if (o->kind != KIND_TCP) { errno = ENOTSOCK; return -1; }
    return do_connect((Tcp *)o, a);
}
int sim_shutdown(int fd, int how) {
    syscall_point(28, PC);
    Obj *o = use(fd, "shutdown", PC); if (!o) return -1;
    log("shutdown fd %d how %d", fd, how);
    if (o->kind == KIND_UDP) { Udp *u = (Udp *)o; if (!u->conn) { u->shut = true; wakeup(u, 0); errno = ENOTCONN; return -1; } u->shut = true; wakeup(u, 0); return 0; }
    if (o->kind != KIND_TCP) { errno = ENOTSOCK; return -1; }
    hash_event(0x54d, how);
    return tcp_shutdown((Tcp *)o, how);
}
int sim_setsockopt(int fd, int level, int name, const void *v, socklen_t len) {
    syscall_point(29, PC); chk(v, len, false, PC);
    Obj *o = use(fd, "setsockopt", PC); if (!o) return -1;
    if (o->kind == KIND_TCP) {
        Tcp *s = (Tcp *)o; int x = len >= 4 ? *(const int *)v : 0;
        if (level == SOL_SOCKET && name == SO_REUSEPORT) s->reuse_port = x; else if (level == SOL_SOCKET && name == SO_REUSEADDR) s->reuse_addr = x; else if (level == IPPROTO_IPV6 && name == IPV6_V6ONLY) s->v6only = x;
        else if (level == SOL_SOCKET && name == SO_LINGER) { auto l = (const struct linger *)v; s->linger0 = l->l_onoff && l->l_linger == 0; }
        else if (level == SOL_SOCKET && name == SO_SNDBUF) s->sndbuf = std::max(x, 256); else if (level == SOL_SOCKET && name == SO_RCVBUF) s->rcvbuf = std::max(x, 256);
        else if (level == SOL_SOCKET && (name == SO_RCVTIMEO || name == SO_SNDTIMEO)) {}
        else if (level == IPPROTO_TCP && (name == TCP_NODELAY || name == TCP_CORK || name == TCP_FASTOPEN)) { if (s->unix_) { errno = EOPNOTSUPP; return -1; } }
        else if (level == SOL_SOCKET || level == IPPROTO_TCP || level == IPPROTO_IP || level == IPPROTO_IPV6) {}
        else { errno = ENOPROTOOPT; return -1; }
        if (level == IPPROTO_TCP && name == 31 /*TCP_ULP*/) { errno = ENOENT; return -1; }
        return 0;
    }
    if (o->kind == KIND_UDP) { Udp *u = (Udp *)o; int x = len >= 4 ? *(const int *)v : 0; if (level == IPPROTO_IP && name == IP_PKTINFO) u->pktinfo = x; if (level == IPPROTO_IPV6 && name == IPV6_RECVPKTINFO) { if (u->fam != AF_INET6) { errno = ENOPROTOOPT; return -1; } u->pktinfo6 = x; } if (level == SOL_SOCKET && name == SO_REUSEPORT) u->reuse_port = x; if (level == SOL_SOCKET && name == SO_REUSEADDR) u->reuse_addr = x; return 0; }
    errno = ENOTSOCK; return -1;
}
int sim_getsockopt(int fd, int level, int name, void *v, socklen_t *len) {
    syscall_point(30, PC);
    Obj *o = use(fd, "getsockopt", PC); if (!o) return -1;
    if (o->kind != KIND_TCP && o->kind != KIND_UDP) { errno = ENOTSOCK; return -1; }
    chk(len, sizeof *len, true, PC); chk(v, *len, true, PC);
    int x = 0;
    if (o->kind == KIND_TCP) { Tcp *s = (Tcp *)o; if (level == SOL_SOCKET && name == SO_ERROR) { x = s->sk_err; s->sk_err = 0; } else if (level == SOL_SOCKET && name == SO_ACCEPTCONN) x = s->st == TS_LISTEN; else if (level == SOL_SOCKET && name == SO_TYPE) x = SOCK_STREAM; else if (level == SOL_SOCKET && name == SO_SNDBUF) x = s->sndbuf; else if (level == SOL_SOCKET && name == SO_RCVBUF) x = s->rcvbuf; }
    else if (name == SO_TYPE) x = SOCK_DGRAM;
    if (*len >= 4) { *(int *)v = x; *len = 4; }
    return 0;
}
int sim_getsockname(int fd, struct sockaddr *sa, socklen_t *len) {
    syscall_point(31, PC);
    Obj *o = use(fd, "getsockname", PC); if (!o) return -1;
    chk(len, sizeof *len, true, PC); chk(sa, std::min<socklen_t>(*len, 16), true, PC);
    if (o->kind == KIND_TCP) { Tcp *s = (Tcp *)o; to_sa(s->local, s->fam, sa, len); return 0; }
    if (o->kind == KIND_UDP) { Udp *s = (Udp *)o; to_sa(s->local, s->fam, sa, len); return 0; }
    errno = ENOTSOCK; return -1;
}
int sim_getpeername(int fd, struct sockaddr *sa, socklen_t *len) {
    syscall_point(32, PC);
    Obj *o = use(fd, "getpeername", PC); if (!o) return -1;
    if (o->kind == KIND_TCP) { Tcp *s = (Tcp *)o; if (s->st != TS_EST) { errno = ENOTCONN; return -1; } to_sa(s->remote, s->fam, sa, len); return 0; }
    errno = ENOTCONN; return -1;
}
static ssize_t do_read(Obj *o, const struct iovec *iov, int n, int flags, i64 off, const void *pc) {
    switch (o->kind) {
    case KIND_TCP: return tcp_recv((Tcp *)o, iov, n, flags, pc);
    case KIND_EVENTFD: {
        Event *e = (Event *)o; if (iov[0].iov_len < 8) { errno = EINVAL; return -1; } chk(iov[0].iov_base, 8, true, pc);
        while (!e->v) { if (e->nonblock) { errno = EAGAIN; return -1; } block(e, -1); }
        u64 r = e->sem ? 1 : e->v; e->v -= r; memcpy(iov[0].iov_base, &r, 8); hash_event(0xefd, r); wakeup(e, EPOLLOUT); return 8; }
    case KIND_FILE: {
        FileO *f = (FileO *)o; if ((f->flags & O_ACCMODE) == O_WRONLY) { errno = EBADF; return -1; }
        sleep_ns(disk_latency() / 8 + 1000);
        i64 r = file_xfer(f, false, iov, n, off < 0 ? f->pos : off, pc); if (r < 0) { errno = -r; return -1; } if (off < 0) f->pos += r; return r; }
    case KIND_UDP: {
        Udp *u = (Udp *)o; while (u->q.empty()) { if (u->nonblock || (flags & MSG_DONTWAIT)) { errno = EAGAIN; return -1; } if (u->shut) return 0; block(u, -1); }
    Udp::Dg d = u->q.front(); u->q.pop_front(); size_t k = 0; for (int i = 0; i < n && k < d.data.size(); i++) { size_t m = std::min(iov[i].iov_len, d.data.size() - k); chk(iov[i].iov_base, m, true, pc); memcpy(iov[i].iov_base, d.data.data() + k, m); k += m; } return k; }
    }
    errno = EINVAL; return -1;
}
static ssize_t do_write(Obj *o, const struct iovec *iov, int n, int flags, i64 off, const void *pc) {
    switch (o->kind) {
    case KIND_TCP: return tcp_send((Tcp *)o, iov, n, flags, pc);
    case KIND_EVENTFD: {
        Event *e = (Event *)o; if (iov[0].iov_len < 8) { errno = EINVAL; return -1; } chk(iov[0].iov_base, 8, false, pc);
        u64 v; memcpy(&v, iov[0].iov_base, 8); if (v == ~0ULL) { errno = EINVAL; return -1; }
        while (e->v + v < e->v || e->v + v == ~0ULL) { if (e->nonblock) { errno = EAGAIN; return -1; } block(e, -1); }
        e->v += v; hash_event(0xefe, v); wakeup(e, EPOLLIN); return 8; }
    case KIND_FILE: {
        FileO *f = (FileO *)o; if ((f->flags & O_ACCMODE) == O_RDONLY) { errno = EBADF; return -1; }
        sleep_ns(disk_latency() / 8 + 1000);
        i64 at = off >= 0 ? off : (f->flags & O_APPEND) ? (i64)f->in->data.size() : f->pos;
        i64 r = file_xfer(f, true, iov, n, at, pc); if (r < 0) { errno = -r; return -1; } if (off < 0) f->pos = at + r; return r; }
    case KIND_UDP: return udp_send((Udp *)o, nullptr, iov, n, pc);
    }
    errno = EINVAL; return -1;
}
ssize_t sim_read(int fd, void *b, size_t n) { syscall_point(40, PC); Obj *o = use(fd, "read", PC); if (!o) return -1; struct iovec v{b, n}; return do_read(o, &v, 1, 0, -1, PC); }
ssize_t sim_write(int fd, const void *b, size_t n) { if (fd == 1 || fd == 2) return n; syscall_point(41, PC); Obj *o = use(fd, "write", PC); if (!o) return -1; struct iovec v{(void *)b, n}; return do_write(o, &v, 1, 0, -1, PC); }
ssize_t sim_readv(int fd, const struct iovec *v, int n) { syscall_point(42, PC); Obj *o = use(fd, "readv", PC); if (!o) return -1; if (n < 0 || n > 1024) { errno = EINVAL; return -1; } chk(v, n * sizeof *v, false, PC); return do_read(o, v, n, 0, -1, PC); }
ssize_t sim_writev(int fd, const struct iovec *v, int n) { syscall_point(43, PC); Obj *o = use(fd, "writev", PC); if (!o) return -1; if (n < 0 || n > 1024) { errno = EINVAL; return -1; } chk(v, n * sizeof *v, false, PC); return do_write(o, v, n, 0, -1, PC); }
ssize_t sim_recv(int fd, void *b, size_t n, int flags) { syscall_point(44, PC); Obj *o = use(fd, "recv", PC); if (!o) return -1; if (o->kind != KIND_TCP && o->kind != KIND_UDP) { errno = ENOTSOCK; return -1; } struct iovec v{b, n}; return do_read(o, &v, 1, flags, -1, PC); }
ssize_t sim_send(int fd, const void *b, size_t n, int flags) { syscall_point(45, PC); Obj *o = use(fd, "send", PC); if (!o) return -1; if (o->kind != KIND_TCP && o->kind != KIND_UDP) { errno = ENOTSOCK; return -1; } struct iovec v{(void *)b, n}; return do_write(o, &v, 1, flags, -1, PC); }
ssize_t sim_preadv(int fd, const struct iovec *v, int n, off_t off) { syscall_point(46, PC); Obj *o = use(fd, "preadv", PC); if (!o) return -1; if (o->kind != KIND_FILE) { errno = ESPIPE; return -1; } chk(v, n * sizeof *v, false, PC); return do_read(o, v, n, 0, off, PC); }
ssize_t sim_pread(int fd, void *b, size_t n, off_t off) { syscall_point(46, PC); Obj *o = use(fd, "pread", PC); if (!o) return -1; if (o->kind != KIND_FILE) { errno = ESPIPE; return -1; } struct iovec v{b, n}; return do_read(o, &v, 1, 0, off, PC); }
ssize_t sim_pwrite(int fd, const void *b, size_t n, off_t off) { syscall_point(47, PC); Obj *o = use(fd, "pwrite", PC); if (!o) return -1; if (o->kind != KIND_FILE) { errno = ESPIPE; return -1; } struct iovec v{(void *)b, n}; return do_write(o, &v, 1, 0, off, PC); }
ssize_t sim_pread64(int fd, void *b, size_t n, off_t off) { return sim_pread(fd, b, n, off); }
ssize_t sim_pwrite64(int fd, const void *b, size_t n, off_t off) { return sim_pwrite(fd, b, n, off); }
ssize_t sim_sendto(int fd, const void *b, size_t n, int flags, const struct sockaddr *sa, socklen_t len) {
    syscall_point(48, PC); Obj *o = use(fd, "sendto", PC); if (!o) return -1; struct iovec v{(void *)b, n};
    if (o->kind == KIND_UDP) { Addr a; if (sa) { chk(sa, len, false, PC); if (!from_sa(sa, len, a)) { errno = EINVAL; return -1; } } return udp_send((Udp *)o, sa ? &a : nullptr, &v, 1, PC); }
    return do_write(o, &v, 1, flags, -1, PC);
}
ssize_t sim_recvmsg(int fd, struct msghdr *m, int flags) {
    syscall_point(49, PC); Obj *o = use(fd, "recvmsg", PC); if (!o) return -1; chk(m, sizeof *m, true, PC); chk(m->msg_iov, m->msg_iovlen * sizeof(iovec), false, PC);
    if (o->kind == KIND_TCP) { m->msg_flags = 0; m->msg_controllen = 0; return tcp_recv((Tcp *)o, m->msg_iov, m->msg_iovlen, flags, PC); }
    if (o->kind != KIND_UDP) { errno = ENOTSOCK; return -1; }
    Udp *u = (Udp *)o; while (u->q.empty()) { if (u->nonblock || (flags & MSG_DONTWAIT)) { errno = EAGAIN; return -1; } if (u->shut) return 0; block(u, -1); }
    if (u->nonblock && cfg.p_udp_recv_err && !u->q.empty() && chance(F_UDP, cfg.p_udp_recv_err, 1024)) { fault("udp_recv_error"); u->recv_errs++; errno = choose(F_UDP, 2) ? ENOMEM : ECONNREFUSED; return -1; }
    Udp::Dg d = u->q.front(); u->q.pop_front(); size_t k = 0; for (size_t i = 0; i < m->msg_iovlen && k < d.data.size(); i++) { size_t w = std::min(m->msg_iov[i].iov_len, d.data.size() - k); chk(m->msg_iov[i].iov_base, w, true, PC); memcpy(m->msg_iov[i].iov_base, d.data.data() + k, w); k += w; }
    m->msg_flags = k < d.data.size() ? MSG_TRUNC : 0;
    if (m->msg_name) { chk(m->msg_name, std::min<size_t>(m->msg_namelen, 16), true, PC); to_sa(d.from, u->fam, (struct sockaddr *)m->msg_name, &m->msg_namelen); }
    size_t room = m->msg_control ? m->msg_controllen : 0; m->msg_controllen = 0;
    if (room >= sizeof(cmsghdr) && ((u->pktinfo && d.to.fam == AF_INET) || (u->pktinfo6 && d.to.fam == AF_INET6))) {
        chk(m->msg_control, room, true, PC); bool six = d.to.fam == AF_INET6; struct cmsghdr *c = (struct cmsghdr *)m->msg_control; struct in_pktinfo pi; memset(&pi, 0, sizeof pi); struct in6_pktinfo p6; memset(&p6, 0, sizeof p6);
        memcpy(&pi.ipi_addr, d.to.ip, 4); memcpy(&pi.ipi_spec_dst, d.to.ip, 4); memcpy(&p6.ipi6_addr, d.to.ip, 16); size_t want = six ? CMSG_LEN(sizeof p6) : CMSG_LEN(sizeof pi), len = std::min(want, room);
        c->cmsg_level = six ? IPPROTO_IPV6 : IPPROTO_IP; c->cmsg_type = six ? IPV6_PKTINFO : IP_PKTINFO; c->cmsg_len = len; memcpy(CMSG_DATA(c), six ? (void *)&p6 : (void *)&pi, len - CMSG_LEN(0)); if (len < want) m->msg_flags |= MSG_CTRUNC; m->msg_controllen = std::min(room, six ? CMSG_SPACE(sizeof p6) : CMSG_SPACE(sizeof pi));
    }
    return k;
}
ssize_t sim_sendmsg(int fd, const struct msghdr *m, int flags) {
    syscall_point(50, PC); Obj *o = use(fd, "sendmsg", PC); if (!o) return -1; chk(m, sizeof *m, false, PC); chk(m->msg_iov, m->msg_iovlen * sizeof(iovec), false, PC);
    if (o->kind == KIND_UDP) { Addr a; if (m->msg_name && !from_sa((struct sockaddr *)m->msg_name, m->msg_namelen, a)) { errno = EINVAL; return -1; } return udp_send((Udp *)o, m->msg_name ? &a : nullptr, m->msg_iov, m->msg_iovlen, PC); }
    return do_write(o, m->msg_iov, m->msg_iovlen, flags, -1, PC);
}
ssize_t sim_recvfrom(int fd, void *b, size_t n, int flags, struct sockaddr *sa, socklen_t *len) {
    struct iovec v{b, n}; struct msghdr m; memset(&m, 0, sizeof m); m.msg_iov = &v; m.msg_iovlen = 1; m.msg_name = sa; m.msg_namelen = len ? *len : 0; ssize_t r = sim_recvmsg(fd, &m, flags); if (r >= 0 && len) *len = m.msg_namelen; return r;
}
ssize_t sim_sendfile(int out, int in, off_t *off, size_t count) {
    syscall_point(51, PC); Obj *o = use(out, "sendfile", PC), *i = use(in, "sendfile", PC); if (!o || !i) return -1;
    if (i->kind != KIND_FILE || o->kind != KIND_TCP) { errno = EINVAL; return -1; }
    if (off) chk(off, sizeof *off, true, PC);
    FileO *f = (FileO *)i; Tcp *s = (Tcp *)o; i64 at = off ? *off : f->pos;
    i64 av = std::max<i64>(0, (i64)f->in->data.size() - at); count = std::min<size_t>(count, av);
    if (bad_io(f->in, at, count)) { fault("disk_eio"); errno = EIO; return -1; }
    if (count == 0) { return 0; }
    std::string d = f->in->data.substr(at, count); struct iovec v{(void *)d.data(), d.size()};
    ssize_t r = tcp_send(s, &v, 1, 0, PC);
    if (r > 0) { if (off) *off += r; else f->pos += r; }
    return r;
}
ssize_t sim_sendfile64(int out, int in, off_t *off, size_t count) { return sim_sendfile(out, in, off, count); }
int sim_poll(struct pollfd *p, nfds_t n, int tmo) {
    syscall_point(52, PC); i64 dl = tmo < 0 ? -1 : g_now + (i64)tmo * MS;
    for (;;) {
        int k = 0; for (nfds_t i = 0; i < n; i++) { p[i].revents = 0; if (p[i].fd < 0) continue; Obj *o = use(p[i].fd, "poll", PC); if (!o) { p[i].revents = POLLNVAL; k++; continue; } u32 m = o->poll() & (p[i].events | POLLERR | POLLHUP); p[i].revents = m; k += m != 0; }
        if (k) return k;
        if (dl >= 0 && g_now >= dl) return 0;
        if (n == 1 && p[0].fd >= 0) block(get(p[0].fd), dl); else sleep_ns(dl < 0 ? MS : std::min<i64>(MS, dl - g_now));
    }
}
int sim_select(int n, fd_set *r, fd_set *w, fd_set *e, struct timeval *tv) {
    syscall_point(53, PC); if (n > FD_SETSIZE) violation_pc("select:descriptor", PC, "%s waits with select for descriptor %d: a set holds %d descriptors, the set was written past its end", sym_of(PC), n - 1, FD_SETSIZE);
    i64 dl = tv ? g_now + tv->tv_sec * SEC + tv->tv_usec * 1000LL : -1;
    if (n == 0 || (!r && !w)) { if (dl >= 0) sleep_ns(dl - g_now); return 0; }
    for (;;) {
        fd_set ro, wo; FD_ZERO(&ro); FD_ZERO(&wo); int k = 0;
        for (int i = 0; i < n; i++) { bool a = r && FD_ISSET(i, r), b = w && FD_ISSET(i, w); if (!a && !b) continue; Obj *o = use(i, "select", PC); if (!o) return -1; u32 m = o->poll(); if (a && (m & (EPOLLIN | EPOLLHUP | EPOLLERR))) { FD_SET(i, &ro); k++; } if (b && (m & (EPOLLOUT | EPOLLERR))) { FD_SET(i, &wo); k++; } }
        if (k || (dl >= 0 && g_now >= dl)) { if (r) *r = ro; if (w) *w = wo; return k; }
        sleep_ns(dl < 0 ? MS : std::min<i64>(MS, dl - g_now));
    }
}
// ------------------------------------------------------------------ eventfd / epoll
int sim_eventfd(unsigned v, int flags) { syscall_point(60, PC); if (chance(F_MISC, cfg.p_thread_fail / 16, 1024) && g_nth > 1) { } Event *e = new Event(v, flags & EFD_SEMAPHORE); e->nonblock = flags & EFD_NONBLOCK; return install(e, PC); }
int sim_eventfd_read(int fd, eventfd_t *v) { return sim_read(fd, v, 8) == 8 ? 0 : -1; }
int sim_eventfd_write(int fd, eventfd_t v) { return sim_write(fd, &v, 8) == 8 ? 0 : -1; }
int sim_epoll_create1(int) { syscall_point(61, PC); return install(new Epoll, PC); }
int sim_epoll_create(int) { return sim_epoll_create1(0); }
int sim_epoll_ctl(int epfd, int op, int fd, struct epoll_event *ev) {
    syscall_point(62, PC);
    Obj *e = use(epfd, "epoll_ctl", PC); if (!e) return -1; if (e->kind != KIND_EPOLL) { errno = EINVAL; return -1; }
    Obj *o = use(fd, "epoll_ctl(fd)", PC); if (!o) return -1;
    Epoll *ep = (Epoll *)e;
    if (o->kind == KIND_FILE) { errno = EPERM; return -1; }
    auto it = ep->set.find(fd);
    if (ev) chk(ev, sizeof *ev, false, PC);
    switch (op) {
    case EPOLL_CTL_ADD: {
        if (it != ep->set.end()) { errno = EEXIST; return -1; }
        if (o->kind == KIND_TCP && g_ectl_fail && (*g_ectl_fail)[self()] > 0) { (*g_ectl_fail)[self()]--; fault("epoll_ctl_enomem"); errno = ENOMEM; return -1; }
        if (o->kind == KIND_TCP && o->owner < 0 && chance(F_MISC, cfg.p_epoll_ctl, 1024)) { fault("epoll_ctl_enomem"); errno = ENOMEM; return -1; }
        EpItem *n = new EpItem{ep, o, fd, ev->events | EPOLLERR | EPOLLHUP, ev->data.u64, false, false}; ep->set[fd] = n; o->items.push_back(n);
        if (o->poll() & n->events) queue_item(n); return 0; }
    case EPOLL_CTL_MOD: if (it == ep->set.end()) { errno = ENOENT; return -1; } it->second->events = ev->events | EPOLLERR | EPOLLHUP; it->second->data = ev->data.u64; if (o->poll() & it->second->events) queue_item(it->second); return 0;
    case EPOLL_CTL_DEL: { if (it == ep->set.end()) { errno = ENOENT; return -1; } EpItem *n = it->second; n->dead = true; if (n->queued) ep->ready.remove(n); ep->set.erase(it); o->items.erase(std::remove(o->items.begin(), o->items.end(), n), o->items.end()); return 0; }
    }
    errno = EINVAL; return -1;
}
int sim_epoll_wait(int epfd, struct epoll_event *out, int max, int tmo) {
    syscall_point(63, PC);
    Obj *e = use(epfd, "epoll_wait", PC); if (!e) return -1; if (e->kind != KIND_EPOLL || max <= 0) { errno = EINVAL; return -1; }
    chk(out, max * sizeof *out, true, PC);
    Epoll *ep = (Epoll *)e; i64 dl = tmo < 0 ? -1 : g_now + (i64)tmo * MS;
    bool intr = false;
    if (tmo != 0 && ep->ready.empty() && chance(F_EINTR, cfg.p_eintr, 1024)) { static const i64 d[4] = {0, 50 * US, 3 * MS, 30 * MS}; i64 t = g_now + d[choose(F_EINTR, 4)]; if (dl < 0 || t < dl) { dl = t; intr = true; } }
    for (;;) {
        int k = 0;
        std::list<EpItem *> scan; scan.swap(ep->ready); std::list<EpItem *> back;
        for (EpItem *it : scan) it->queued = false;
        while (!scan.empty() && k < max) {
            EpItem *it = scan.front(); scan.pop_front(); if (it->dead) continue;
            u32 m = it->obj->poll() & it->events; if (!m) continue;
            out[k].events = m; out[k].data.u64 = it->data; k++;
            if (it->events & EPOLLONESHOT) it->events &= EPOLLET | EPOLLONESHOT | EPOLLEXCLUSIVE; else if (!(it->events & EPOLLET)) back.push_back(it);
        }
        for (EpItem *it : ep->ready) it->queued = false;
        std::list<EpItem *> n2; n2.swap(ep->ready); // queued while polling (none in practice)
        for (auto *l : {&scan, &n2, &back}) for (EpItem *it : *l) if (!it->queued && !it->dead) { it->queued = true; ep->ready.push_back(it); }
        if (k) { hash_event(0xe9, k); if (tracing()) for (int i = 0; i < k; i++) log("epoll fd %d: event %x", epfd, out[i].events); return k; }
        if (tmo == 0 || (dl >= 0 && g_now >= dl)) { if (intr) { fault("epoll_eintr"); errno = EINTR; return -1; } return 0; }
        if (!block(ep, dl)) { if (!intr && chance(F_TIME, cfg.p_late, 1024)) { static const i64 d[3] = {1 * MS, 10 * MS, 45 * MS}; i64 x = d[choose(F_TIME, 3)]; fault("late_wakeup"); stall(self(), g_now + x); yield(); } }
    }
}
int sim_epoll_pwait(int epfd, struct epoll_event *out, int max, int tmo, const sigset_t *) { return sim_epoll_wait(epfd, out, max, tmo); }
// ------------------------------------------------------------------ AIO
long sim_syscall(long nr, ...) {
    va_list ap; va_start(ap, nr); long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long); va_end(ap);
    syscall_point(70, PC);
    switch (nr) {
    case SYS_io_setup: { u64 *out = (u64 *)b; AioCtx *x = new AioCtx; x->id = ++g_aioid; x->nr = (int)a * 2; (*g_aio)[x->id] = x; *out = x->id; return 0; }
    case SYS_io_destroy: { auto it = g_aio->find((u64)a); if (it == g_aio->end()) { errno = EINVAL; return -1; } AioCtx *x = it->second; x->dead = true; g_aio->erase(it); while (x->inflight) block(x, -1); return 0; }
    case SYS_io_submit: {
        auto it = g_aio->find((u64)a); if (it == g_aio->end()) { errno = EINVAL; return -1; }
        struct iocb **p = (struct iocb **)c; long i; for (i = 0; i < b; i++) { int r = aio_submit1(it->second, p[i], PC); if (r < 0) { if (i) break; errno = -r; return -1; } } return i; }
    case SYS_io_getevents: {
        auto it = g_aio->find((u64)a); if (it == g_aio->end()) { errno = EINVAL; return -1; } AioCtx *x = it->second; struct io_event *out = (struct io_event *)d; struct timespec *ts = (struct timespec *)e;
        chk(out, c * sizeof *out, true, PC);
        i64 dl = ts ? g_now + ts->tv_sec * SEC + ts->tv_nsec : -1;
        while ((long)x->ring.size() < b) { if (dl >= 0 && g_now >= dl) break; block(x, dl); }
        long k = 0; while (k < c && !x->ring.empty()) { out[k++] = x->ring.front(); x->ring.pop_front(); } return k; }
    case SYS_gettid: return 1000 + self();
    case SYS_futex: break;
    }
    violation_pc("sim:unknown-syscall", PC, "system call %ld is not modelled", nr);
}
// ------------------------------------------------------------------ files
int sim_open(const char *path, int flags, ...) {
    syscall_point(80, PC); chk(path, strlen(path) + 1, false, PC);
    if (!strncmp(path, "/proc/", 6) || !strncmp(path, "/dev/", 5)) { errno = ENOENT; return -1; }
    auto it = g_fs->find(path); Inode *in;
    if (it == g_fs->end()) { if (!(flags & O_CREAT)) { errno = ENOENT; return -1; } in = new Inode; in->ino = ++g_ino; (*g_fs)[path] = in; }
    else { in = it->second; if ((flags & O_CREAT) && (flags & O_EXCL)) { errno = EEXIST; return -1; } if (in->sock) { errno = ENXIO; return -1; } if ((flags & O_TRUNC) && (flags & O_ACCMODE) != O_RDONLY) in->data.clear(); }
    if ((flags & O_DIRECT) && g_nodirect) { errno = EINVAL; return -1; }
    FileO *f = new FileO(in, flags & (O_ACCMODE | O_APPEND | O_DIRECT | O_NONBLOCK)); f->nonblock = flags & O_NONBLOCK;
    int fd = install(f, PC); log("open %s -> fd %d", path, fd); return fd;
}
int sim_open64(const char *path, int flags, ...) { return sim_open(path, flags, 0644); }
off_t sim_lseek(int fd, off_t off, int wh) {
    syscall_point(81, PC); Obj *o = use(fd, "lseek", PC); if (!o) return -1; if (o->kind != KIND_FILE) { errno = ESPIPE; return -1; } FileO *f = (FileO *)o;
    i64 p = wh == SEEK_SET ? off : wh == SEEK_CUR ? f->pos + off : wh == SEEK_END ? (i64)f->in->data.size() + off : -1; if (p < 0) { errno = EINVAL; return -1; } return f->pos = p;
}
off_t sim_lseek64(int fd, off_t off, int wh) { return sim_lseek(fd, off, wh); }
static void fill_stat(Inode *in, struct stat *st) { memset(st, 0, sizeof *st); st->st_mode = in->sock ? S_IFSOCK | 0755 : S_IFREG | 0644; st->st_size = in->data.size(); st->st_ino = in->ino; st->st_nlink = in->nlink; st->st_blksize = 4096; st->st_mtime = in->mtime / SEC; }
int sim_fstat(int fd, struct stat *st) { syscall_point(82, PC); chk(st, sizeof *st, true, PC); Obj *o = use(fd, "fstat", PC); if (!o) return -1; if (o->kind == KIND_FILE) fill_stat(((FileO *)o)->in, st); else memset(st, 0, sizeof *st); return 0; }
int sim_fstat64(int fd, struct stat *st) { return sim_fstat(fd, st); }
int sim_stat(const char *p, struct stat *st) { syscall_point(83, PC); auto it = g_fs->find(p); if (it == g_fs->end()) { errno = ENOENT; return -1; } fill_stat(it->second, st); return 0; }
int sim_stat64(const char *p, struct stat *st) { return sim_stat(p, st); }
int sim_lstat(const char *p, struct stat *st) { return sim_stat(p, st); }
int sim_lstat64(const char *p, struct stat *st) { return sim_stat(p, st); }
int sim_unlink(const char *p) { syscall_point(84, PC); auto it = g_fs->find(p); if (it == g_fs->end()) { errno = ENOENT; return -1; } g_fs->erase(it); return 0; }
int sim_access(const char *p, int) { if (fs_exists(p)) return 0; errno = ENOENT; return -1; }
int sim_ftruncate(int fd, off_t n) { Obj *o = use(fd, "ftruncate", PC); if (!o) return -1; if (o->kind != KIND_FILE) { errno = EINVAL; return -1; } ((FileO *)o)->in->data.resize(n); return 0; }
int sim_ftruncate64(int fd, off_t n) { return sim_ftruncate(fd, n); }
int sim_fsync(int fd) { Obj *o = use(fd, "fsync", PC); return o ? 0 : -1; }
int sim_fdatasync(int fd) { return sim_fsync(fd); }
int sim_futimens(int fd, const struct timespec *) { Obj *o = use(fd, "futimens", PC); return o ? 0 : -1; }
// ------------------------------------------------------------------ names
int sim_getnameinfo(const struct sockaddr *sa, socklen_t len, char *host, socklen_t hl, char *serv, socklen_t sl, int) {
    chk(sa, len, false, PC); char b[80] = ""; int port = 0;
    if (sa->sa_family == AF_INET && len >= sizeof(sockaddr_in)) { inet_ntop(AF_INET, &((sockaddr_in *)sa)->sin_addr, b, sizeof b); port = ntohs(((sockaddr_in *)sa)->sin_port); }
    else if (sa->sa_family == AF_INET6 && len >= sizeof(sockaddr_in6)) { inet_ntop(AF_INET6, &((sockaddr_in6 *)sa)->sin6_addr, b, sizeof b); port = ntohs(((sockaddr_in6 *)sa)->sin6_port); }
    else return EAI_FAMILY;
    if (host && hl) { if (strlen(b) + 1 > hl) return EAI_OVERFLOW; chk(host, strlen(b) + 1, true, PC); strcpy(host, b); }
    if (serv && sl) snprintf(serv, sl, "%d", port);
    return 0;
}
int sim_getaddrinfo(const char *node, const char *serv, const struct addrinfo *h, struct addrinfo **res) {
    if (node) chk(node, strlen(node) + 1, false, PC);
    syscall_point(90, PC);
    int fam = h ? h->ai_family : 0, flags = h ? h->ai_flags : 0, port = serv ? atoi(serv) : 0; std::vector<std::string> ips; bool lit = false; char t[16];
    if (!node) { ips.push_back((flags & AI_PASSIVE) ? (fam == AF_INET6 ? "::" : "0.0.0.0") : (fam == AF_INET6 ? "::1" : "127.0.0.1")); lit = true; }
    else if (inet_pton(AF_INET, node, t) == 1 || inet_pton(AF_INET6, node, t) == 1) { ips.push_back(node); lit = true; }
    *res = nullptr;
    if (!lit) {
        if (flags & AI_NUMERICHOST) return EAI_NONAME;
        std::string name = node; for (auto &c : name) if (c >= 'A' && c <= 'Z') c += 32; (*g_dnscalls)[name]++; g_dnsrun++;
        i64 d = cfg.dns_latency_ns; if (cfg.dns_jitter_ns) d += cfg.dns_jitter_ns * choose(F_DNS, 16) / 15;
        log("resolver call for %s", name.c_str());
        sleep_ns(d);
        g_dnsrun--;
        hash_event(0xd45, ips.size());
        if (chance(F_DNS, cfg.p_dns_fail, 1024)) { fault("dns_failure"); return EAI_AGAIN; }
        auto it = g_dns->find(name); if (it == g_dns->end() || it->second.empty()) return EAI_NONAME;
        ips = it->second;
    }
    struct addrinfo *head = nullptr, **tail = &head;
    for (auto &s : ips) {
        bool v6 = s.find(':') != std::string::npos; if (fam && fam != (v6 ? AF_INET6 : AF_INET)) continue;
        size_t al = v6 ? sizeof(sockaddr_in6) : sizeof(sockaddr_in);
        bool cn = (flags & AI_CANONNAME) && !head && !lit; std::string canon = cn ? std::string("canon.") + node : ""; size_t cl = cn ? canon.size() + 1 : 0;
        char *m = (char *)h_alloc(sizeof(struct addrinfo) + al + cl, 16, PC); memset(m, 0, sizeof(struct addrinfo) + al + cl); struct addrinfo *r = (struct addrinfo *)m; r->ai_addr = (struct sockaddr *)(m + sizeof *r); r->ai_addrlen = al; r->ai_family = v6 ? AF_INET6 : AF_INET; r->ai_socktype = h && h->ai_socktype ? h->ai_socktype : SOCK_STREAM;
        if (v6) { auto a = (sockaddr_in6 *)r->ai_addr; a->sin6_family = AF_INET6; a->sin6_port = htons(port); inet_pton(AF_INET6, s.c_str(), &a->sin6_addr); } else { auto a = (sockaddr_in *)r->ai_addr; a->sin_family = AF_INET; a->sin_port = htons(port); inet_pton(AF_INET, s.c_str(), &a->sin_addr); }
        if (cn) { r->ai_canonname = m + sizeof *r + al; strcpy(r->ai_canonname, canon.c_str()); }
        *tail = r; tail = &r->ai_next;
    }
    if (!head) return EAI_NONAME;
    *res = head; return 0;
}
void sim_freeaddrinfo(struct addrinfo *r) { const void *pc = PC; while (r) { chk(r, sizeof *r, false, pc); struct addrinfo *n = r->ai_next; h_free(r, pc); r = n; } }
}
namespace sim {
bool peer_send(int fd, const void *b, size_t n) { const char *p = (const char *)b; while (n) { ssize_t r = sim_send(fd, p, n, MSG_NOSIGNAL); if (r <= 0) return false; p += r; n -= r; } return true; }
bool peer_recv_exact(int fd, void *b, size_t n) { char *p = (char *)b; while (n) { ssize_t r = sim_recv(fd, p, n, 0); if (r <= 0) return false; p += r; n -= r; } return true; }
static bool mk(const char *ip, int port, sockaddr_storage &ss, socklen_t &len) {
    memset(&ss, 0, sizeof ss);
    if (*ip == '/') { auto a = (sockaddr_un *)&ss; a->sun_family = AF_UNIX; strncpy(a->sun_path, ip, sizeof a->sun_path - 1); len = sizeof *a; return true; }
    if (strchr(ip, ':')) { auto a = (sockaddr_in6 *)&ss; a->sin6_family = AF_INET6; a->sin6_port = htons(port); len = sizeof *a; return inet_pton(AF_INET6, ip, &a->sin6_addr) == 1; }
    auto a = (sockaddr_in *)&ss; a->sin_family = AF_INET; a->sin_port = htons(port); len = sizeof *a; return inet_pton(AF_INET, ip, &a->sin_addr) == 1;
}
int peer_connect(const char *ip, int port, bool nb) {
    sockaddr_storage ss; socklen_t len; if (!mk(ip, port, ss, len)) return -1;
    i64 lim = g_fdlimit; g_fdlimit = 0; u32 pt = cfg.p_thread_fail, pe = cfg.p_eagain; cfg.p_thread_fail = 0; cfg.p_eagain = 0; int fd; { NoPreempt np; fd = sim_socket(ss.ss_family, SOCK_STREAM, 0); } g_fdlimit = lim; cfg.p_thread_fail = pt; cfg.p_eagain = pe;
    register_owned_fd(fd);
    u32 pe2 = cfg.p_eagain; cfg.p_eagain = 0; Obj *o = get(fd); o->nonblock = true; { NoPreempt np; sim_connect(fd, (sockaddr *)&ss, len); } cfg.p_eagain = pe2; o->nonblock = false;
    if (nb) { o->nonblock = true; return fd; }
    Tcp *t = (Tcp *)o; while (t->st == TS_SYN_SENT) block(t, -1);
    t->connecting = false;
    if (!t->was_est) { int e = t->sk_err; sim_close(fd); errno = e ? e : ECONNABORTED; return -1; }
    return fd;
}
int peer_listen(const char *ip, int port, int backlog, int *po) {
    sockaddr_storage ss; socklen_t len; if (!mk(ip, port, ss, len)) return -1;
    i64 lim = g_fdlimit; g_fdlimit = 0; u32 pt = cfg.p_thread_fail; cfg.p_thread_fail = 0; int fd; { NoPreempt np; fd = sim_socket(ss.ss_family, SOCK_STREAM, 0); } cfg.p_thread_fail = pt; g_fdlimit = lim; register_owned_fd(fd);
    if (sim_bind(fd, (sockaddr *)&ss, len) < 0 || sim_listen(fd, backlog) < 0) { sim_close(fd); return -1; }
    if (po) *po = ((Tcp *)get(fd))->local.port;
    return fd;
}
void peer_close_rst(int fd) { struct linger l{1, 0}; sim_setsockopt(fd, SOL_SOCKET, SO_LINGER, &l, sizeof l); sim_close(fd); }
}
