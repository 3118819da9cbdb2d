// Deterministic simulator: public interface used by the libc shims, the simulated kernel and the scenarios.
#pragma once
#include <stdint.h>
#include <stddef.h>
#include <string>
#include <vector>
#include <deque>
#include <map>
#include <set>
#include <functional>
#include <memory>

typedef uint64_t u64; typedef int64_t i64; typedef uint32_t u32; typedef uint16_t u16; typedef uint8_t u8;

namespace sim {

// ---------------------------------------------------------------- decisions
// Every choice of a run comes from one of these streams. 0 is always the simplest alternative (no fault, no
// preemption, shortest delay); a replay past the end of a recorded stream yields 0.
enum Stream { S_WORK = 0,  // workload: what the scenario does
    S_SCHED,               // quanta and thread choices
    S_NET,                 // latencies, segmentation
    S_CFG,                 // swarm configuration of the run
    S_PEER,                // behaviour of scripted peers and workload details drawn while running
    F_SHORT, F_EINTR, F_SPUR, F_THREAD, F_ACCEPT, F_AIO, F_STALL, F_UDP, F_DNS, F_TIME, F_MISC, NSTREAM };
u32 choose(Stream s, u32 n);                  // uniform over [0,n)
bool chance(Stream s, u32 num, u32 den);      // true with probability num/den
u32 pick(Stream s, std::initializer_list<u32> weights); // index, weighted
u32 record(Stream s, u32 value_if_random);    // record an externally drawn value (used with rnd())
u64 rnd(Stream s);                            // raw draw, NOT recorded: only to feed record()
bool replaying();

// ---------------------------------------------------------------- time
i64 now_ns();                                 // simulated monotonic clock
inline i64 now_ms() { return now_ns() / 1000000; }
i64 wall_ns();                                // simulated wall clock
void step_wall(i64 delta_ns);                 // clock step fault
void at(i64 when_ns, std::function<void()> fn);
inline void after(i64 d, std::function<void()> fn) { at(now_ns() + d, std::move(fn)); }
const i64 MS = 1000000LL, SEC = 1000000000LL, US = 1000LL;

// ---------------------------------------------------------------- threads
int spawn(const char *name, std::function<void()> fn);
int self();                                   // simulated thread id, -1 outside
const char *thread_name(int id);
bool thread_done(int id);
void yield();                                 // scheduling point
void sleep_ns(i64 d);
inline void sleep_ms(i64 d) { sleep_ns(d * MS); }
bool block(const void *key, i64 deadline_ns); // false: timed out
int wake(const void *key, int n);             // wake up to n waiters, returns how many
void stall(int tid, i64 until_ns);            // the thread is not scheduled before that time
i64 total_stall_ns();                         // stalls injected so far (oracles on lateness add it as slack)
// Wait (sleeping in steps) until cond() or timeout; returns cond().
bool wait_until(std::function<bool()> cond, i64 timeout_ms, i64 step_ms = 5);
struct NoPreempt { NoPreempt(); ~NoPreempt(); };
int live_threads();
int zombie_threads();                         // library threads that ended although nobody joined or detached them

// ---------------------------------------------------------------- results
// Report a violation of the property being checked; ends the run.  `key` is the stable signature.
[[noreturn]] void violation(const char *key, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
#define SIM_CHECK(cond, key, ...) do { if (!(cond)) ::sim::violation(key, __VA_ARGS__); } while (0)
void log(const char *fmt, ...) __attribute__((format(printf, 1, 2)));      // trace (only kept when tracing)
void hash_event(u64 a, u64 b = 0);            // contributes to the history hash
u64 fault_count(const char *kind);
void fault(const char *kind);                 // count an injected fault
void probe(const char *name);                 // "this situation was reached"
void count_op(u64 n = 1);                     // operations of the workload performed
[[noreturn]] void finish();                   // end the run successfully
bool tracing();

// ---------------------------------------------------------------- per run configuration (swarm)
struct Config {
    // scheduling
    int sched_mode = 0;        // 0 run to block, 1 sync-point quanta, 2 access quanta, 3 mixed
    u32 preempt_den = 8;       // larger: rarer small quanta
    u32 lag = 0;               // a thread falls behind shortly after about every lag-th synchronisation operation
    // faults, probability num/1024 at each opportunity
    u32 p_short = 0;           // short reads/writes
    u32 p_eagain = 0;
    u32 p_eintr = 0;           // interrupted epoll_wait
    u32 p_spurious = 0;        // spurious condition variable wakeup
    u32 p_thread_fail = 0;     // pthread_create fails
    u32 p_accept_err = 0;      // transient accept error
    u32 p_listen_err = 0, listen_errs = 0; // listen() of the library finds the address taken (at most listen_errs times)
    u32 p_aio_fail = 0;        // submission failure
    u32 p_aio_err = 0;         // I/O error on completion
    u32 p_aio_short = 0;
    u32 p_aio_sync = 0;        // transfer completes inside the submission
    u32 p_stall = 0;           // thread stalled at a scheduling decision
    u32 p_udp_loss = 0, p_udp_dup = 0, p_udp_recv_err = 0;
    u32 p_epoll_ctl = 0;       // epoll_ctl ADD fails (ENOMEM/ENOSPC)
    u32 p_dns_fail = 0;
    u32 p_late = 0;            // timer wakeups late
    u32 p_enospc = 0;
    i64 net_latency_ns = 50 * US;   // base latency
    i64 net_jitter_ns = 0;          // additional uniform jitter
    u32 seg_split = 0;         // chance/1024 to split a segment
    u32 sndbuf = 65536, rcvbuf = 65536;
    i64 disk_latency_ns = 200 * US, disk_jitter_ns = 0;
    i64 dns_latency_ns = 5 * MS, dns_jitter_ns = 0;
};
extern Config cfg;

// ---------------------------------------------------------------- heap statistics
struct HeapStat { u64 live_blocks, live_bytes; };
HeapStat heap_stat();
u64 heap_mark();                                     // allocation sequence number
std::string heap_live_since(u64 mark, int max, int *count, u64 upto = ~0ULL);   // description of live blocks allocated in [mark, upto)
void check_access(const void *p, size_t n, bool write, const void *pc);
bool heap_is_live(const void *p);
i64 heap_below(const void *p);       // bytes of p's heap block that lie below p; -1 if p is in none
bool heap_ignore_block(const void *p); // exclude from leak reports

// ---------------------------------------------------------------- kernel introspection
int open_fds();
std::string describe_fds();
void register_owned_fd(int fd);
struct PeerStat { u64 sent, received; };

// scenario registry
struct Scenario { const char *prop; const char *name; void (*run)(); u32 weight; };
void add_scenario(const char *prop, const char *name, void (*run)(), u32 weight);
struct Reg { Reg(const char *p, const char *n, void (*f)(), u32 w) { add_scenario(p, n, f, w); } };
#define SCENARIO(prop, name, weight) static void scen_##prop##_##name(); \
    static ::sim::Reg reg_##prop##_##name(#prop, #name, scen_##prop##_##name, weight); static void scen_##prop##_##name()

// Step limits
void set_step_limit(u64 slices);
extern u64 g_slices;
}
