// C17: name resolution (kgl_find_addr, kfiber_net_getaddr, the shared cache).
#include "common.h"
namespace { time_t time_wall() { return wall_ns() / SEC; }
struct Name { std::string n; std::vector<std::set<std::string>> versions; bool ever_missing = false; int id; };
std::vector<Name *> names;
std::set<std::string> ips_of(kgl_addr *a) { std::set<std::string> s; for (struct addrinfo *i = a->addr; i; i = i->ai_next) { char b[64] = ""; SIM_CHECK(i->ai_family == AF_INET || i->ai_family == AF_INET6, "addr:content", "an address of family %d", i->ai_family); if (i->ai_family == AF_INET) inet_ntop(AF_INET, &((sockaddr_in *)i->ai_addr)->sin_addr, b, sizeof b); else inet_ntop(AF_INET6, &((sockaddr_in6 *)i->ai_addr)->sin6_addr, b, sizeof b); s.insert(b); } return s; }
int serial;
std::string spell(Name *nm) { std::string s = nm->n; if (W(5) == 0) for (auto &c : s) if (c >= 'a' && c <= 'z' && W(2)) c -= 32; return s; }   // case does not matter
void set_name(Name *nm, bool exists) {   // new addresses, never used before, that identify the name
    std::set<std::string> s; std::vector<std::string> v; if (exists) { int k = 1 + P(3); for (int i = 0; i < k; i++) { char b[40]; serial++; if (P(4) == 0) snprintf(b, sizeof b, "fd00:%x::%x", nm->id + 1, serial); else snprintf(b, sizeof b, "10.%d.%d.%d", nm->id + 1, serial / 250, serial % 250 + 1); s.insert(b); v.push_back(b); } } else nm->ever_missing = true;
    dns_set(nm->n.c_str(), v); if (exists) nm->versions.push_back(s);
}
Name *mk(bool exists) { Name *n = new Name; n->id = names.size(); u32 k = n->id ? W(5) : 0; const std::string &o = n->id ? names[W(n->id)]->n : n->n;   // some names begin or end like another one
    if (k == 1) n->n = o + char('a' + n->id % 26) ; else if (k == 2) n->n = char('a' + n->id % 26) + o; else if (k == 3 && o.size() > 3) n->n = o.substr(0, o.size() - 1) + char('a' + n->id % 26); else n->n = "host" + std::to_string(n->id) + ".test";
    for (auto x : names) if (x->n == n->n) n->n = "host" + std::to_string(n->id) + "x.test"; names.push_back(n); if (exists) set_name(n, true); else { n->ever_missing = true; dns_set(n->n.c_str(), {}); } return n; }
void check_addr(Name *n, kgl_addr *a, const char *how) {
    SIM_CHECK(heap_is_live(a), "addr:dead", "%s gave an address list that has been freed", how); auto s = ips_of(a); bool ok = false; for (auto &v : n->versions) ok |= v == s;
    SIM_CHECK(ok, "addr:wrong", "%s of %s gave %s, which the name never had", how, n->n.c_str(), s.empty() ? "no address" : s.begin()->c_str());
}
bool may_fail; int inflight, asked;
struct Hold { kgl_addr *a; Name *n; std::set<std::string> ips; };
void hold(Name *n, kgl_addr *a) {       // keep it for a while; it must not change; then let it go
    Hold h{a, n, ips_of(a)}; inflight++;
    auto fin = [=] { SIM_CHECK(ips_of(h.a) == h.ips, "addr:changed", "an address list changed while it was held"); kgl_addr_release(h.a); inflight--; };
    static int holders; u32 m = P(4); if (m == 0 || (m == 1 && holders >= 40)) fin(); else if (m == 1) { int at = P(40); holders++; spawn("holder", [=] { sleep_ms(at); fin(); }); } else post(L(P(4)), fin);
}
void use_ports(kgl_addr *a) { int port = 1 + P(60000); sockaddr_i s; memset(&s, 0, sizeof s); kgl_addr_build(a->addr, port, &s); SIM_CHECK(ksocket_addr_port(&s) == port, "addr:port", "the socket address built for port %d has port %d", port, (int)ksocket_addr_port(&s)); }
struct Req { Name *n; kselector *s; int calls = 0; bool ok = false; };
std::vector<Req *> reqs;
kev_result on_addr(void *arg, kgl_addr *a) {
    Req *r = (Req *)arg; count_op(); hash_event(0x1701, r->n->id * 2 + (a != nullptr)); SIM_CHECK(++r->calls == 1, "addr:twice", "a lookup of %s was answered %d times", r->n->n.c_str(), r->calls);
    SIM_CHECK(kgl_get_tls_selector() == r->s, "addr:loop", "a lookup was answered on another loop");
    if (a) { r->ok = true; check_addr(r->n, a, "a lookup"); if (P(2)) use_ports(a); if (P(2)) { kgl_addr_refs(a); hold(r->n, a); } } else SIM_CHECK(may_fail || r->n->ever_missing, "addr:fails", "a lookup of %s failed although the resolver knows it", r->n->n.c_str());
    inflight--; return kev_ok;
}
void ask(Name *n, kselector *s) { asked++; inflight++; Req *r = new Req{n, s}; reqs.push_back(r); std::string nm = spell(n); post(s, [=] { kgl_find_addr(nm.c_str(), kgl_addr_ip, on_addr, r, s); }); }
void ask_fiber(Name *n, kselector *s) { asked++; inflight++; std::string nm = spell(n); fib(s, [=] { kgl_addr *a = nullptr; int r = kfiber_net_getaddr(nm.c_str(), &a); count_op(); hash_event(0x1702, n->id * 2 + (r == 0)); SIM_CHECK(kgl_get_tls_selector() == s, "addr:loop", "a fiber continues on another loop");
    SIM_CHECK((r == 0) == (a != nullptr), "addr:result", "getaddr returned %d and %s address list", r, a ? "an" : "no");
    if (a) { check_addr(n, a, "getaddr"); if (P(2)) use_ports(a); hold(n, a); } else SIM_CHECK(may_fail || n->ever_missing, "addr:fails", "getaddr of %s failed although the resolver knows it", n->n.c_str()); inflight--; }); }
void ask_cache(Name *n) { kgl_addr *a = kgl_find_cache_addr(spell(n).c_str(), kgl_addr_ip); count_op(); if (a) { check_addr(n, a, "a cache lookup"); hold(n, a); } }
int calls(Name *n) { return dns_calls(n->n.c_str()); }
void finish_all(const Baseline &b) {
    wait_for([] { return inflight == 0; }, 60000, "addr:lost", "every lookup is answered"); wait_for([] { return dns_running() == 0; }, 20000, "addr:resolver", "resolver calls end"); settle(20);
    for (auto r : reqs) SIM_CHECK(r->calls == 1, "addr:lost", "a lookup of %s was answered %d times", r->n->n.c_str(), r->calls);
    int w, f; wait_for([&] { kthread_get_count(&w, &f); return w == (int)g_loops.size(); }, 5000, "addr:threads", "the worker threads go back to the pool");
    kgl_flush_addr_cache(time_wall() + 1000000); SIM_CHECK(kgl_get_addr_cache_count() == 0, "addr:cache-count", "%d names remain cached after a flush", kgl_get_addr_cache_count());
    cfg.p_thread_fail = 0; kthread_close_all_free(); settle(30); check_clean(b, CL_HEAP | CL_FIBER | CL_COUNT, "addr");
}
}
SCENARIO(C17, mixed, 5) {
    start_loops(1 + W(3)); Baseline b; swarm(FA_STALL | FA_EINTR); static const i64 lat[] = {1 * MS, 50 * US, 20 * MS, 400 * MS}; cfg.dns_latency_ns = lat[choose(S_CFG, 4)]; cfg.dns_jitter_ns = lat[choose(S_CFG, 4)];
    cfg.p_dns_fail = lvl({0, 100, 400}); cfg.p_thread_fail = W(4) == 0 ? lvl({100, 500}) : 0; may_fail = cfg.p_dns_fail || cfg.p_thread_fail;
    int nn = 1 + W(4); for (int i = 0; i < nn; i++) mk(W(5) != 0); int ops = 5 + W(40); bool steps = W(2), flushes = W(2), changes = W(2);
    for (int i = 0; i < ops; i++) {
        Name *n = names[W(nn)]; kselector *s = L(W(4)); u32 o = W(12);
        if (o < 4) ask(n, s); else if (o < 7) ask_fiber(n, s); else if (o == 7) ask_cache(n); else if (o == 8) { if (changes) { set_name(n, P(5) != 0); } }
        else if (o == 9) { if (steps) { static const i64 st[] = {31, 3700, 1, 5000}; step_wall(st[W(4)] * SEC); } }
        else if (o == 10) { if (flushes) { if (W(2)) kgl_flush_addr_cache(time_wall() + (W(2) ? 4000 : 0)); else spawn("flush", [] { sleep_ns(P(3000) * US); kgl_flush_addr_cache(time_wall() + 4000); }); } }
        else { fib(s, [=] { kgl_addr *a = nullptr; int r = kfiber_net_getaddr("192.168.7.9", &a); SIM_CHECK(r == 0 && a && ips_of(a).count("192.168.7.9"), "addr:literal", "a literal address does not resolve to itself"); if (a) kgl_addr_release(a); }); }
        if (W(3) == 0) sleep_ns(oneof<i64>(S_WORK, {10 * US, 300 * US, 3 * MS, 60 * MS}));
    }
    finish_all(b);
}
SCENARIO(C17, share, 3) {      // one resolver call for concurrent lookups; answers from the cache; refresh
    start_loops(1 + W(3)); Baseline b; swarm(FA_STALL); cfg.p_stall = std::min<u32>(cfg.p_stall, 20); cfg.dns_latency_ns = 100 * MS; Name *n = mk(true), *other = mk(true); int k = 2 + W(8);
    i64 st0 = total_stall_ns();
    for (int i = 0; i < k; i++) { if (W(2)) ask(n, L(i)); else ask_fiber(n, L(i)); if (W(3) == 0) ask(other, L(i)); if (W(3) == 0) sleep_ns(P(3000) * US); }
    wait_for([] { return inflight == 0; }, 20000, "addr:lost", "every lookup is answered"); (void)st0;
    SIM_CHECK(calls(n) == 1, "addr:share", "%d lookups of one name made %d resolver calls", k, calls(n));
    int m = 1 + W(4); { Stamp s; for (int i = 0; i < m; i++) { if (W(2)) ask(n, L(i)); else ask_fiber(n, L(i)); } wait_for([] { return inflight == 0; }, 5000, "addr:lost", "lookups of a cached name are answered"); if (s.eff_ms() < 80) probe("answered_from_cache"); }
    SIM_CHECK(calls(n) == 1, "addr:cache", "lookups of a cached name made another resolver call");
    kgl_addr *a = kgl_find_cache_addr(n->n.c_str(), kgl_addr_ip); SIM_CHECK(a, "addr:cache", "a cached name is not found in the cache"); check_addr(n, a, "a cache lookup"); auto old = ips_of(a);
    // older than the fresh time: answered at once with the old addresses, refreshed by one call
    set_name(n, true); auto want = n->versions.back(); step_wall(40 * SEC); for (int i = 0; i < m; i++) { if (W(2)) ask(n, L(i)); else ask_fiber(n, L(i)); } wait_for([] { return inflight == 0; }, 5000, "addr:lost", "lookups of a cached name are answered");
    wait_for([&] { return calls(n) == 2 && dns_running() == 0; }, 5000, "addr:refresh", "an old entry is looked up again"); settle(60); SIM_CHECK(calls(n) == 2, "addr:refresh", "one refresh made %d resolver calls", calls(n) - 1);
    wait_for([&] { kgl_addr *x = kgl_find_cache_addr(n->n.c_str(), kgl_addr_ip); if (!x) return false; bool ok = ips_of(x) == want; kgl_addr_release(x); return ok; }, 5000, "addr:refresh", "the refreshed addresses are in the cache");
    SIM_CHECK(ips_of(a) == old, "addr:changed", "an address list changed while it was held"); kgl_addr_release(a);
    if (W(2)) { // an expired name is forgotten
        kgl_flush_addr_cache(time_wall() + 3000); SIM_CHECK(kgl_find_cache_addr(n->n.c_str(), kgl_addr_ip) != nullptr, "addr:expire", "a name used recently was forgotten"); kgl_addr *x = kgl_find_cache_addr(n->n.c_str(), kgl_addr_ip); kgl_addr_release(x); kgl_addr_release(x);
        kgl_flush_addr_cache(time_wall() + 4000); SIM_CHECK(!kgl_find_cache_addr(n->n.c_str(), kgl_addr_ip), "addr:expire", "a name unused for longer than the idle time is still cached");
    }
    finish_all(b);
}
SCENARIO(C17, race_flush, 3) {     // answers, refreshes and flushes at the same moment
    start_loops(1 + W(2)); Baseline b; swarm(FA_STALL); cfg.dns_latency_ns = 1 * MS; Name *n = mk(true); int rounds = 2 + W(6);
    for (int r = 0; r < rounds; r++) {
        int k = 1 + W(4); for (int i = 0; i < k; i++) { if (W(2)) ask(n, L(i)); else ask_fiber(n, L(i)); }
        if (W(2)) step_wall(31 * SEC); if (W(3) == 0) set_name(n, true);
        sleep_ns(oneof<i64>(S_WORK, {0, 800 * US, 990 * US, 1000 * US, 1100 * US, 5 * MS}));
        if (W(3)) spawn("flush", [] { int n = 1 + P(3); for (int i = 0; i < n; i++) { if (P(2)) sleep_ns(P(400) * US); kgl_flush_addr_cache(time_wall() + 4000); } });
        if (W(2)) ask_cache(n);
        if (W(2)) wait_for([] { return inflight == 0; }, 10000, "addr:lost", "every lookup is answered");
    }
    finish_all(b);
}
SCENARIO(C17, failing, 2) {        // refreshes that fail keep the last good answer for a while
    start_loops(1); Baseline b; cfg.dns_latency_ns = 1 * MS; Name *n = mk(true); ask(n, L(0)); wait_for([] { return inflight == 0; }, 5000, "addr:lost", "a lookup is answered"); int k = 1 + W(9); bool ok = false;
    dns_set(n->n.c_str(), {});
    for (int i = 0; i < k; i++) {
        bool refuse = W(3) == 0; if (refuse) { int w, f; wait_for([&] { kthread_get_count(&w, &f); return w == (int)g_loops.size(); }, 5000, "addr:threads", "the worker threads go back to the pool"); kthread_close_all_free(); settle(30); cfg.p_thread_fail = 1024; probe("refresh_refused"); }   // the refresh cannot be started at all
        step_wall(31 * SEC); if (refuse && W(2)) ask_fiber(n, L(0)); ask(n, L(0)); wait_for([] { return inflight == 0 && dns_running() == 0; }, 5000, "addr:lost", "a lookup is answered"); settle(10); SIM_CHECK(reqs.back()->ok, "addr:fails", "a name resolved before is not answered after %d failed refreshes", i); cfg.p_thread_fail = 0; }
    if (W(3) == 0) {           // the last good answer is not given for ever
        n->ever_missing = true; for (int i = 0; i < 20; i++) { step_wall(31 * SEC); ask(n, L(0)); wait_for([] { return inflight == 0 && dns_running() == 0; }, 5000, "addr:lost", "a lookup is answered"); settle(10); }
        ask(n, L(0)); wait_for([] { return inflight == 0; }, 5000, "addr:lost", "a lookup is answered"); SIM_CHECK(!reqs.back()->ok, "addr:stale", "a name the resolver has denied 20 times in a row is still answered"); probe("given_up");
    }
    set_name(n, true); step_wall(31 * SEC); ask(n, L(0)); wait_for([] { return inflight == 0; }, 5000, "addr:lost", "a lookup is answered"); (void)ok;
    wait_for([&] { kgl_addr *x = kgl_find_cache_addr(n->n.c_str(), kgl_addr_ip); if (!x) return false; bool y = ips_of(x) == n->versions.back(); kgl_addr_release(x); return y; }, 5000, "addr:refresh", "the refreshed addresses are in the cache");
    finish_all(b);
}
SCENARIO(C17, crowd, 2) {          // many names cached at once; each leaves the cache when it has not been used for the idle time, and no other does
    start_loops(1 + W(2)); Baseline b; cfg.dns_latency_ns = oneof<i64>(S_WORK, {1 * MS, 10 * US}); int nn = 3 + W(W(3) ? 12 : 60); for (int i = 0; i < nn; i++) mk(true);
    std::map<Name *, i64> last; int waves = 2 + W(8); bool by_timer = W(2);
    auto quiet = [] { wait_for([] { return inflight == 0 && dns_running() == 0; }, 20000, "addr:lost", "every lookup is answered"); int w, f; wait_for([&] { kthread_get_count(&w, &f); return w == (int)g_loops.size(); }, 8000, "addr:threads", "the worker threads go back to the pool"); settle(10); };
    auto check = [&](const char *when) { int c = kgl_get_addr_cache_count(); SIM_CHECK(c == (int)last.size(), "addr:cache-count", "%d names are cached %s, expected %d", c, when, (int)last.size()); };
    for (int w = 0; w < waves; w++) {
        std::vector<Name *> order = names; for (size_t i = order.size(); i > 1; i--) std::swap(order[i - 1], order[W(i)]); order.resize(1 + W(order.size())); i64 at = time_wall(); std::map<Name *, int> before; bool pause = W(3) == 0;
        for (auto n : order) { before[n] = calls(n); int k = 1 + (W(4) == 0); while (k--) { if (W(2)) ask(n, L(W(4))); else ask_fiber(n, L(W(4))); } if (pause && W(3) == 0) sleep_ns(P(2000) * US); }
        quiet();
        for (auto n : order) { bool had = last.count(n); int c = calls(n) - before[n]; SIM_CHECK(c == 1 || (had && c == 0), "addr:share", "lookups of %s name %s made %d resolver calls", had ? "the cached" : "a new", n->n.c_str(), c); last[n] = at; }
        check("after their lookups");
        step_wall((W(3) ? 700 * (W(4) + W(2) * 3) : W(2) ? 3 + W(25) : 3540 + W(60)) * SEC);
        for (bool near = true; near;) { near = false; for (auto &q : last) if (std::abs(time_wall() - q.second - 3600) <= 10) near = true; if (near) step_wall(11 * SEC); }     // no name within seconds of its limit
        i64 now = time_wall(); bool expire = false;
        for (auto i = last.begin(); i != last.end();) if (now - i->second > 3600) i = last.erase(i), expire = true; else ++i;
        if (by_timer) sleep_ms(2600); else kgl_flush_addr_cache(time_wall());
        if (expire) probe("crowd_expired"); check("after the idle time");
        if (W(3) == 0) { i64 t = time_wall(); for (auto n : names) { kgl_addr *a = kgl_find_cache_addr(n->n.c_str(), kgl_addr_ip); SIM_CHECK((a != nullptr) == (last.count(n) == 1), "addr:cache", "the name %s is %s in the cache", n->n.c_str(), a ? "still" : "not"); if (a) { check_addr(n, a, "a cache lookup"); hold(n, a); last[n] = t; } } quiet(); check("after looking at them"); }
    }
    hash_event(0x1704, last.size()); finish_all(b);
}
SCENARIO(C17, cname, 1) {          // the two kinds of lookup of one name are cached apart; canonical names are delivered
    start_loops(1); Baseline b; cfg.dns_latency_ns = 1 * MS; Name *n = mk(true); int got = 0, k = 1 + W(3); struct C { int *got; Name *n; } c{&got, n};
    for (int i = 0; i < k; i++) { if (W(2)) ask(n, L(0)); post(L(0), [&] { kgl_find_addr(n->n.c_str(), kgl_addr_cname, [](void *arg, kgl_addr *a) -> kev_result { C *c = (C *)arg; SIM_CHECK(a, "addr:fails", "a canonical-name lookup fails although the resolver knows the name"); const char *cn = a->addr->ai_canonname; SIM_CHECK(cn && "canon." + c->n->n == cn, "addr:cname", "a canonical-name lookup gave %s", cn ? cn : "no name"); (*c->got)++; count_op(); return kev_ok; }, &c, L(0)); }); if (W(2)) sleep_ms(3); }
    wait_for([&] { return got == k; }, 5000, "addr:lost", "a canonical-name lookup is answered"); hash_event(0x1703, k); finish_all(b);
}
