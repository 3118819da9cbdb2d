#pragma once
#include "kshim.h"
#include "sim.h"
#include "kernel.h"
#include <string.h>
#include <stdlib.h>
#include <arpa/inet.h>
#include <netinet/in.h>
using namespace sim;
typedef std::function<void()> Fn;
typedef std::function<int()> IntFn;

// ------------------------------------------------------------------ swarm: which faults may happen in a run
enum { FA_EINTR = 1, FA_SPUR = 2, FA_STALL = 4, FA_LATE = 8, FA_NET = 16, FA_SHORT = 32, FA_EAGAIN = 64, FA_BUF = 128, FA_DISK = 256, FA_LATENCY = 512 };
inline u32 lvl(std::initializer_list<u32> v) { u32 i = choose(S_CFG, v.size() + 1); return i == 0 ? 0 : *(v.begin() + i - 1); }
inline void swarm(u32 m) {
    if (m & FA_EINTR) cfg.p_eintr = lvl({40, 200, 600});
    if (m & FA_SPUR) cfg.p_spurious = lvl({60, 300, 700});
    if (m & FA_STALL) cfg.p_stall = lvl({0, 20, 120, 500});
    if (m & FA_LATE) cfg.p_late = lvl({30, 200});
    if (m & FA_LATENCY) { static const i64 l[] = {50 * US, 1 * MS, 20 * MS, 120 * MS}; cfg.net_latency_ns = l[choose(S_CFG, 4)]; static const i64 j[] = {0, 200 * US, 5 * MS, 60 * MS}; cfg.net_jitter_ns = j[choose(S_CFG, 4)]; }
    if (m & FA_NET) { cfg.seg_split = lvl({60, 300, 800}); }
    if (m & FA_SHORT) cfg.p_short = lvl({60, 300, 700});
    if (m & FA_EAGAIN) cfg.p_eagain = lvl({40, 200, 500});
    if (m & FA_BUF) { static const u32 b[] = {65536, 16384, 4096, 1500, 200, 7}; cfg.sndbuf = b[choose(S_CFG, 6)]; cfg.rcvbuf = b[choose(S_CFG, 6)]; }
    if (m & FA_DISK) { static const i64 d[] = {200 * US, 20 * US, 3 * MS, 40 * MS}; cfg.disk_latency_ns = d[choose(S_CFG, 4)]; static const i64 j[] = {0, 300 * US, 10 * MS}; cfg.disk_jitter_ns = j[choose(S_CFG, 3)]; }
}
void busy_ms(i64 d);                       // user code keeping its loop busy
i64 busy_total_ns();
// Everything that may legitimately delay a loop, accumulated: oracles on lateness compare two readings of it.
inline i64 slack_ns() { return total_stall_ns() + busy_total_ns(); }
struct Stamp { i64 t, s; Stamp() : t(now_ns()), s(slack_ns()) {} double ms() const { return (now_ns() - t) / 1e6; }
    // elapsed time not explained by injected stalls
    double eff_ms() const { return (now_ns() - t - (slack_ns() - s)) / 1e6; } };

// ------------------------------------------------------------------ loops
extern std::vector<kselector *> g_loops;
extern bool g_flush;      // the loops have the minute timer of the address cache
void start_loops(int n, int conn_tmo_s = 0, int rw_tmo_s = 0, bool flush_timer = false);
inline kselector *L(int i) { return g_loops[i % g_loops.size()]; }
inline int loop_index(kselector *s) { for (size_t i = 0; i < g_loops.size(); i++) if (g_loops[i] == s) return i; return -1; }
inline int my_loop() { return loop_index(kgl_get_tls_selector()); }
void post(kselector *s, Fn f);             // run f on the loop (main fiber)
bool post_wait(kselector *s, Fn f, i64 tmo_ms = 20000);   // from a plain thread
kfiber *fiber(kselector *s, IntFn f, bool joinable = false, int stk = 0);   // start a fiber on loop s
void fib(kselector *s, Fn f, int stk = 0);
void wait_for(std::function<bool()> c, i64 tmo_ms, const char *key, const char *what);  // plain thread: violation if not reached in time
void loops_respond(const char *key = "loops-dead");
struct Baseline { int dummy; int fds; u64 mark; int fibers; std::vector<int> counts; Baseline(); };
void check_clean(const Baseline &b, u32 what, const char *prefix);
enum { CL_FD = 1, CL_HEAP = 2, CL_FIBER = 4, CL_COUNT = 8, CL_THREAD = 16 };
void settle(i64 ms = 300);
// data patterns
inline u8 patbyte(u32 seed, u64 off) { u64 x = off * 0x9E3779B97F4A7C15ULL + seed * 0xD1B54A32D192ED03ULL; x ^= x >> 29; x *= 0xBF58476D1CE4E5B9ULL; return (u8)(x >> 40); }
inline void patfill(u32 seed, u64 off, void *b, size_t n) { for (size_t i = 0; i < n; i++) ((u8 *)b)[i] = patbyte(seed, off + i); }
inline i64 patcheck(u32 seed, u64 off, const void *b, size_t n) { for (size_t i = 0; i < n; i++) if (((const u8 *)b)[i] != patbyte(seed, off + i)) return (i64)i; return -1; }
inline u32 W(u32 n) { return choose(S_WORK, n); }
inline u32 P(u32 n) { return choose(S_PEER, n); }
template <class T> T oneof(Stream s, std::initializer_list<T> l) { return *(l.begin() + choose(s, l.size())); }
inline sockaddr_i addr4(const char *ip, int port) { sockaddr_i a; memset(&a, 0, sizeof a); a.v4.sin_family = AF_INET; a.v4.sin_port = htons(port); inet_pton(AF_INET, ip, &a.v4.sin_addr); return a; }
