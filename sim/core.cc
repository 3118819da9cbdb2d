#include "core.h"
#include <stdio.h>
#include <stdlib.h>
#include <stdarg.h>
#include <string.h>
#include <unistd.h>
#include <errno.h>
#include <time.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/syscall.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <fcntl.h>
#include <elf.h>
#include <algorithm>
#include <queue>
#include <unordered_set>

namespace sim {
// ------------------------------------------------------------------ shared result area
enum { MAXDEC = 120000, MAXCNT = 96, TRACESZ = 4 << 20 };
enum Status { ST_NONE = 0, ST_OK, ST_VIOL, ST_CRASH, ST_ERROR };
struct Cnt { char name[40]; u64 n; };
struct Shared {
    int status; u64 hash, shash; u64 slices, acc, ops, switches, syscalls; i64 simns; int nth;
    char scen[48]; char key[200]; char msg[3000]; const void *pc;
    Cnt faults[MAXCNT]; Cnt probes[MAXCNT];
    u32 nd[NSTREAM]; int overflow;
    u32 trace_n;
    u32 dec[NSTREAM][MAXDEC];
    char trace[TRACESZ];
};
static Shared *sh;
struct Replay { bool on = false; std::vector<u32> d[NSTREAM]; };
static Replay g_rep;
static bool g_trace = false;

// ------------------------------------------------------------------ PRNG and decisions
static u64 g_rng[NSTREAM];
static u64 mix(u64 z) { z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL; z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL; return z ^ (z >> 31); }
static u64 next64(u64 &s) { s += 0x9e3779b97f4a7c15ULL; return mix(s); }
u64 rnd(Stream s) { return next64(g_rng[s]); }
bool replaying() { return g_rep.on; }
u32 record(Stream s, u32 v) {
    u32 p = sh->nd[s]++;
    if (g_rep.on) v = p < g_rep.d[s].size() ? g_rep.d[s][p] : 0;
    if (p < MAXDEC) sh->dec[s][p] = v; else { sh->overflow = 1; sh->nd[s] = MAXDEC; if (!g_rep.on) v = 0; }
    return v;
}
u32 choose(Stream s, u32 n) {
    if (n <= 1) return 0;
    u32 v = record(s, g_rep.on ? 0 : (u32)(rnd(s) % n));
    if (v >= n) v = v % n;
    return v;
}
bool chance(Stream s, u32 num, u32 den) {
    if (!num) return false;
    return record(s, g_rep.on ? 0 : (rnd(s) % den < num)) != 0;
}
u32 pick(Stream s, std::initializer_list<u32> w) {
    u32 tot = 0; for (u32 x : w) tot += x;
    u32 v = 0;
    if (!g_rep.on) { u32 r = rnd(s) % tot; for (u32 x : w) { if (r < x) break; r -= x; v++; } }
    v = record(s, v);
    return v >= w.size() ? 0 : v;
}

// ------------------------------------------------------------------ globals
Config cfg;
Th g_th[MAXTH]; int g_nth; Th *g_cur;
i64 g_now, g_walloff; int g_budget, g_sync_budget; u64 g_acc, g_wr; static u64 g_acc0, g_wr0; int g_active, g_nopre;
void *g_tls[MAXTH + 1][MAXKEY];
u64 g_slices; static u64 g_slice_limit = 3000000, g_acc_limit = 120000000;
static void *g_host_sp; static u64 g_hash, g_shash, g_switches; i64 g_stall_total; static u64 g_wseq;
static u32 g_lag_in, g_lag; static bool g_forced; static bool g_big; static bool g_preempted; static Th *g_last; static const void *g_last_pc;
enum { BIG_BUDGET = 6000 };
struct Ev { i64 t; u64 seq; std::function<void()> fn; };
struct EvCmp { bool operator()(const Ev *a, const Ev *b) const { return a->t != b->t ? a->t > b->t : a->seq > b->seq; } };
static std::priority_queue<Ev *, std::vector<Ev *>, EvCmp> *g_evq; static u64 g_evseq;

i64 now_ns() { return g_now; }
i64 wall_ns() { return g_now + g_walloff; }
void step_wall(i64 d) { g_walloff += d; hash_event(0x57a11, (u64)d); }
void at(i64 t, std::function<void()> fn) { if (t < g_now) t = g_now; g_evq->push(new Ev{t, g_evseq++, std::move(fn)}); }
// stalls injected so far, counting of those in progress only the part that has elapsed
i64 total_stall_ns() { i64 t = g_stall_total; for (int i = 0; i < g_nth; i++) if ((g_th[i].st == T_RUN || g_th[i].st == T_BLOCK) && g_th[i].stall_until > g_now) t -= g_th[i].stall_until - g_now; return t; }
void hash_event(u64 a, u64 b) { g_hash = mix(g_hash ^ (a * 0x9e3779b97f4a7c15ULL) ^ mix(b + 0x1234567)); }
bool tracing() { return g_trace; }
static void bump(Cnt *c, const char *n) { for (int i = 0; i < MAXCNT; i++) { if (!c[i].name[0]) strncpy(c[i].name, n, 39); if (!strncmp(c[i].name, n, 39)) { c[i].n++; return; } } }
u64 fault_count(const char *k) { for (auto &c : sh->faults) if (c.n && !strcmp(c.name, k)) return c.n; return 0; }
void fault(const char *k) { bump(sh->faults, k); if (g_trace) log("FAULT %s", k); }
void probe(const char *k) { bump(sh->probes, k); }
void count_op(u64 n) { sh->ops += n; }
void set_step_limit(u64 s) { g_slice_limit = s; }

void log(const char *fmt, ...) {
    if (!g_trace) return;
    char b[600]; int n = snprintf(b, sizeof b, "[%10.3f ms] %-10s ", g_now / 1e6, g_cur ? g_cur->name : "kernel");
    va_list ap; va_start(ap, fmt); int m = vsnprintf(b + n, sizeof b - n - 2, fmt, ap); va_end(ap);
    n += std::min<int>(m, sizeof b - n - 2); if (b[n - 1] != '\n') b[n++] = '\n';
    if (sh->trace_n + n < TRACESZ) { memcpy(sh->trace + sh->trace_n, b, n); sh->trace_n += n; }
}

// ------------------------------------------------------------------ finishing
static void fill() {
    sh->hash = mix(g_hash ^ g_now); sh->shash = g_shash; sh->slices = g_slices; sh->acc = g_acc; sh->simns = g_now; sh->nth = g_nth; sh->switches = g_switches;
}
[[noreturn]] static void leave() { syscall(SYS_exit_group, 0); __builtin_unreachable(); }
[[noreturn]] static void vviol(const char *key, const void *pc, const char *fmt, va_list ap) {
    if (sh->status == ST_NONE) {
        snprintf(sh->key, sizeof sh->key, "%s", key);
        vsnprintf(sh->msg, sizeof sh->msg, fmt, ap);
        sh->pc = pc; sh->status = ST_VIOL;
        hash_event(0xdead);
        if (g_trace) { g_trace = true; log("VIOLATION %s: %s", sh->key, sh->msg); }
        fill();
    }
    leave();
}
void violation(const char *key, const char *fmt, ...) { va_list ap; va_start(ap, fmt); vviol(key, nullptr, fmt, ap); }
void violation_pc(const char *key, const void *pc, const char *fmt, ...) { va_list ap; va_start(ap, fmt); vviol(key, pc, fmt, ap); }
void finish() { sh->status = ST_OK; fill(); leave(); }

// ------------------------------------------------------------------ context switch
extern "C" void sim_swap(void **from, void *to);
asm(R"(
.text
.globl sim_swap
.type sim_swap,@function
sim_swap:
  pushq %rbp; pushq %rbx; pushq %r12; pushq %r13; pushq %r14; pushq %r15
  subq $8,%rsp; stmxcsr (%rsp); fnstcw 4(%rsp)
  movq %rsp,(%rdi)
  movq %rsi,%rsp
  ldmxcsr (%rsp); fldcw 4(%rsp); addq $8,%rsp
  popq %r15; popq %r14; popq %r13; popq %r12; popq %rbx; popq %rbp
  ret
.size sim_swap,.-sim_swap
)");
static void to_host() {
    Th *t = g_cur; t->err = errno;
    sim_swap(&t->sp, g_host_sp);
    errno = t->err;
}
static void thread_entry() {
    Th *t = g_cur;
    t->fn();
    exit_thread();
}
void exit_thread() {
    Th *t = g_cur; { std::function<void()> f; f.swap(t->fn); }  t->st = T_DONE;   // what the thread held is released while it can still be preempted
    hash_event(0xe817, t->id);
    log("thread exits");
    wake(t, 1 << 20);
    to_host();
    abort();
}
int spawn(const char *name, std::function<void()> fn) {
    int id = -1;
    for (int i = 0; i < g_nth; i++) if (g_th[i].st == T_FREE) { id = i; break; }
    if (id < 0) { if (g_nth >= MAXTH) return -1; id = g_nth++; }
    Th *t = &g_th[id];
    void *keep = t->stk; size_t ksz = t->stksz;
    t->id = id; snprintf(t->name, sizeof t->name, "%s", name); t->st = T_RUN; t->wkey = nullptr; t->deadline = -1; t->timed_out = false; t->err = 0;
    t->sigmask = t->pending = 0; t->stall_until = 0; t->retval = nullptr; t->detached = t->pth = t->joined = false;
    t->prio = 0; t->spin = 0; t->spin_d = 0;
    memset(g_tls[id], 0, sizeof g_tls[id]);
    t->stk = (char *)keep; t->stksz = ksz;
    if (!t->stk) { t->stksz = 512 << 10; t->stk = (char *)mmap(0, t->stksz, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); }
    t->fn = std::move(fn);
    void **sp = (void **)(t->stk + t->stksz - 64);
    sp = (void **)((uintptr_t)sp & ~15ULL);
    *--sp = nullptr;                // return address of thread_entry (alignment)
    *--sp = (void *)thread_entry;
    for (int i = 0; i < 6; i++) *--sp = nullptr;
    --sp; u32 mx = 0x1f80; u32 cw = 0x37f; ((u32 *)sp)[0] = mx; ((u32 *)sp)[1] = cw;
    t->sp = sp;
    hash_event(0x59a3, id);
    return id;
}
int zombie_threads() { int n = 0; for (int i = 0; i < g_nth; i++) n += g_th[i].st == T_DONE && g_th[i].pth && !g_th[i].detached && !g_th[i].joined; return n; }
int self() { return g_cur ? g_cur->id : -1; }
const char *thread_name(int id) { return id >= 0 && id < g_nth ? g_th[id].name : "-"; }
bool thread_done(int id) { return g_th[id].st == T_DONE || g_th[id].st == T_FREE; }
int live_threads() { int n = 0; for (int i = 0; i < g_nth; i++) n += g_th[i].st == T_RUN || g_th[i].st == T_BLOCK; return n; }
void stall(int tid, i64 until) { Th &t = g_th[tid]; i64 from = std::max(t.stall_until, g_now); if (until > from) { g_stall_total += until - from; t.stall_until = until; } }

bool block(const void *key, i64 deadline) {
    Th *t = g_cur;
    if (!t) { fprintf(stderr, "block outside thread\n"); abort(); }
    t->st = T_BLOCK; t->wkey = key; t->deadline = deadline; t->timed_out = false; t->wseq = ++g_wseq;
    to_host();
    return !t->timed_out;
}
int wake(const void *key, int n) {
    int k = 0;
    // waiters in FIFO order, except that which of several waiters is woken first is a scheduling decision
    while (k < n) {
        Th *c[MAXTH]; int m = 0;
        for (int i = 0; i < g_nth; i++) if (g_th[i].st == T_BLOCK && g_th[i].wkey == key) c[m++] = &g_th[i];
        if (!m) break;
        std::sort(c, c + m, [](Th *a, Th *b) { return a->wseq < b->wseq; });
        u32 i = (n < m) ? choose(S_SCHED, m) : 0;
        c[i]->st = T_RUN; c[i]->wkey = nullptr; c[i]->timed_out = false; c[i]->deadline = -1; k++;
    }
    return k;
}
void yield() { if (!g_cur) return; g_preempted = true; to_host(); }
void sleep_ns(i64 d) { static char k; i64 dl = g_now + d; do { block(&k, dl); } while (g_now < dl); }
bool wait_until(std::function<bool()> cond, i64 tmo, i64 step) {
    i64 end = g_now + tmo * MS;
    while (!cond()) { if (g_now >= end) return false; sleep_ns(step * MS); }
    return true;
}
NoPreempt::NoPreempt() { g_nopre++; }
NoPreempt::~NoPreempt() { g_nopre--; }

// ------------------------------------------------------------------ preemption
void slow_access(const void *pc) {
    if (!g_active || !g_cur || g_nopre) { g_budget = BIG_BUDGET; g_lag = 0; return; }
    if (g_acc > g_acc_limit) violation_pc("livelock", pc, "more than %llu memory accesses without the run finishing", (unsigned long long)g_acc_limit);
    g_last_pc = pc;
    // a thread that only reads for a long time is spinning: let time pass instead of burning accesses
    if (g_wr == g_wr0) g_cur->spin += g_acc - g_acc0; else { g_cur->spin = 0; g_cur->spin_d = 0; }
    g_acc0 = g_acc; g_wr0 = g_wr;
    if (g_cur->spin >= (g_cur->spin_d ? 40 : 1500)) {
        i64 d = g_cur->spin_d ? std::min<i64>(g_cur->spin_d * 2, 8 * MS) : 2 * US;
        g_last_pc = pc; static char k; block(&k, g_now + d); g_cur->spin = 1; g_cur->spin_d = d; return;
    }
    if (g_lag) {                  // the thread falls behind at this very access while the others go on
        g_lag = 0; static const i64 d[4] = {3 * US, 30 * US, 300 * US, 2 * MS};
        i64 dd = d[choose(S_SCHED, 4)]; stall(g_cur->id, g_now + dd); if (g_trace) log("LAG of %s at %s for %lld us", g_cur->name, sym_of(pc), (long long)(dd / US));
        g_preempted = true; to_host(); return;
    }
    if (g_big) g_forced = true;   // the slice ran very long without blocking: spin guard
    g_preempted = true;
    to_host();
}
void sync_point(int kind, const void *pc) {
    if (!g_active || !g_cur || g_nopre) return;
    g_shash = mix(g_shash ^ (u64)kind * 131 ^ (u64)g_cur->id << 32);
    g_now += 20;
    // now and then a thread falls behind a few accesses after a synchronisation operation: what it still has to do
    // after a release, a notice or a wakeup happens late
    if (g_lag_in && --g_lag_in == 0) {
        u32 b = record(S_SCHED, replaying() ? 0 : 1 + rnd(S_SCHED) % ((rnd(S_SCHED) & 1) ? 4 : 24));
        g_lag_in = record(S_SCHED, replaying() ? 0 : 1 + rnd(S_SCHED) % cfg.lag);
        if (b && live_threads() > 1) { g_lag = b; g_budget = std::min<int>(g_budget, b); }
    }
    if (g_sync_budget > 0 && --g_sync_budget == 0) { g_last_pc = pc; g_preempted = true; to_host(); }
}

static void run_due() {
    while (!g_evq->empty() && g_evq->top()->t <= g_now) { Ev *e = g_evq->top(); g_evq->pop(); e->fn(); delete e; }
    for (int i = 0; i < g_nth; i++) { Th *t = &g_th[i]; if (t->st == T_BLOCK && t->deadline >= 0 && t->deadline <= g_now) { t->st = T_RUN; t->timed_out = true; t->wkey = nullptr; t->deadline = -1; } }
}
static u32 quantum() {
    // 0: until it blocks.  odd v: (v+1)/2 synchronisation points; even v: v/2 counted memory accesses
    u64 r = rnd(S_SCHED);
    u32 small = (r >> 8) % cfg.preempt_den == 0;
    switch (cfg.sched_mode) {
    case 0: return 0;
    case 1: return small || (r & 3) == 0 ? 1 + 2 * ((r >> 20) % (small ? 4 : 24)) : 0;
    case 2: { static const u32 mx[4] = {6, 40, 300, 2000}; return 2 * (1 + (r >> 20) % mx[(r >> 16) & 3]); }
    case 3: default: {
        if ((r & 7) < 3) return 0;
        if ((r & 7) < 6) return 1 + 2 * ((r >> 20) % (small ? 3 : 20));
        static const u32 mx[4] = {4, 20, 120, 1500}; return 2 * (1 + (r >> 20) % mx[(r >> 16) & 3]); }
    }
}
void host_loop() {
    g_last = nullptr;
    for (;;) {
        if (++g_slices > g_slice_limit) violation("livelock", "more than %llu scheduling slices without the run finishing", (unsigned long long)g_slice_limit);
        run_due();
        Th *c[MAXTH]; int n = 0;
        int start = g_last ? g_last->id : 0;
        bool same_first = g_preempted && !g_forced;
        if (g_forced) { g_now += 10 * US; }
        for (int k = 0; k < g_nth; k++) { Th *t = &g_th[(start + k + (same_first ? 0 : 1)) % g_nth]; if (t->st == T_RUN && t->stall_until <= g_now) c[n++] = t; }
        if (n == 0) {
            i64 nt = -1;
            if (!g_evq->empty()) nt = g_evq->top()->t;
            bool blocked = false;
            for (int i = 0; i < g_nth; i++) {
                Th *t = &g_th[i];
                if (t->st == T_BLOCK) { blocked = true; if (t->deadline >= 0 && (nt < 0 || t->deadline < nt)) nt = t->deadline; }
                if (t->st == T_RUN && (nt < 0 || t->stall_until < nt)) nt = t->stall_until;
            }
            if (nt < 0) {
                if (!blocked) finish();
                std::string s; for (int i = 0; i < g_nth; i++) if (g_th[i].st == T_BLOCK) { s += g_th[i].name; s += " "; }
                violation("deadlock", "all threads are blocked for ever: %s", s.c_str());
            }
            if (nt > g_now) g_now = nt;
            g_preempted = g_forced = false;
            continue;
        }
        u32 i = 0;
        if (n > 1) {
            u32 v = 0;
            if (!replaying()) {
                if (cfg.sched_mode == 0 || (cfg.sched_mode == 4)) {
                    if (cfg.sched_mode == 4) { int best = -1; for (int k = 0; k < n; k++) { if (!c[k]->prio) c[k]->prio = 1 + rnd(S_SCHED) % 1000000; if (best < 0 || c[k]->prio > c[best]->prio) best = k; } v = best;
                        if (g_preempted) { if (c[best] == g_last) { g_last->prio = 1 + rnd(S_SCHED) % 1000; if (n > 1) v = rnd(S_SCHED) % n; } } }
                    else v = (rnd(S_SCHED) & 7) ? 0 : rnd(S_SCHED) % n;
                } else v = rnd(S_SCHED) % n;
            }
            i = record(S_SCHED, v); if (i >= (u32)n) i %= n;
        }
        Th *t = c[i];
        if (cfg.p_stall && n > 0 && t->id != 0 && chance(F_STALL, cfg.p_stall, 1 << 16)) {
            static const i64 d[5] = {1 * MS, 10 * MS, 60 * MS, 300 * MS, 2000 * MS};
            i64 dd = d[choose(F_STALL, 5)]; stall(t->id, g_now + dd); fault("thread_stall");
            if (g_trace) log("STALL of thread %s for %lld ms", t->name, (long long)(dd / MS));
            g_last = t; g_preempted = g_forced = false;
            continue;
        }
        u32 q = 0;
        if (live_threads() > 1) {
            q = record(S_SCHED, replaying() ? 0 : (cfg.sched_mode == 4 ? ((rnd(S_SCHED) & 3) == 0 ? 1 + (rnd(S_SCHED) % 60) : 0) : quantum()));
        }
        g_lag = 0;
        g_big = q == 0 || (q & 1);
        if (q == 0) { g_budget = BIG_BUDGET; g_sync_budget = -1; }
        else if (q & 1) { g_budget = BIG_BUDGET; g_sync_budget = (q + 1) / 2; }
        else { g_budget = q / 2; g_sync_budget = 1 << 30; }
        if (t != g_last) { g_switches++; hash_event(0x5c4e, t->id); g_shash = mix(g_shash ^ t->id * 7919 ^ 0xabc);
            if (g_trace && g_preempted && g_last && g_last->st == T_RUN) { g_cur = nullptr; log("PREEMPT %s at %s, run %s", g_last->name, sym_of(g_last_pc), t->name); } }
        g_now += 100;
        g_preempted = g_forced = false;
        if (t->spin_d && g_budget > 60) g_budget = 60;
        g_cur = t; g_last = t; g_last_pc = nullptr; g_acc0 = g_acc; g_wr0 = g_wr;
        errno = t->err;
        sim_swap(&g_host_sp, t->sp);
        if (g_wr != g_wr0) t->spin = 0, t->spin_d = 0;
        g_cur = nullptr;
    }
}

// ------------------------------------------------------------------ symbols
struct Sym { uintptr_t a, e; const char *n; };
static std::vector<Sym> *g_syms;
static void load_syms() {
    g_syms = new std::vector<Sym>;
    int fd = open("/proc/self/exe", O_RDONLY); if (fd < 0) return;
    off_t sz = lseek(fd, 0, SEEK_END);
    char *b = (char *)mmap(0, sz, PROT_READ, MAP_PRIVATE, fd, 0); close(fd);
    Elf64_Ehdr *h = (Elf64_Ehdr *)b; Elf64_Shdr *s = (Elf64_Shdr *)(b + h->e_shoff);
    for (int i = 0; i < h->e_shnum; i++) if (s[i].sh_type == SHT_SYMTAB) {
        Elf64_Sym *y = (Elf64_Sym *)(b + s[i].sh_offset); const char *str = b + s[s[i].sh_link].sh_offset;
        for (size_t k = 0; k < s[i].sh_size / sizeof *y; k++) if (ELF64_ST_TYPE(y[k].st_info) == STT_FUNC && y[k].st_size) g_syms->push_back({y[k].st_value, y[k].st_value + y[k].st_size, str + y[k].st_name});
    }
    std::sort(g_syms->begin(), g_syms->end(), [](const Sym &x, const Sym &y) { return x.a < y.a; });
}
const char *sym_of(const void *pc) {
    if (!pc) return "?";
    if (!g_syms) load_syms();
    uintptr_t a = (uintptr_t)pc - 1;
    auto it = std::upper_bound(g_syms->begin(), g_syms->end(), a, [](uintptr_t v, const Sym &s) { return v < s.a; });
    if (it == g_syms->begin()) return "?";
    --it; return a < it->e ? it->n : "?";
}

// ------------------------------------------------------------------ scenarios
static std::vector<Scenario> &scens() { static std::vector<Scenario> v; return v; }
void add_scenario(const char *p, const char *n, void (*f)(), u32 w) { scens().push_back({p, n, f, w}); }

static void crash_handler(int sig, siginfo_t *si, void *uc) {
    const void *pc = (const void *)((ucontext_t *)uc)->uc_mcontext.gregs[REG_RIP];
    if (sh->status == ST_NONE) {
        const char *s = sym_of((const char *)pc + 1);
        snprintf(sh->key, sizeof sh->key, "crash:%d:%s", sig, s);
        snprintf(sh->msg, sizeof sh->msg, "signal %d in %s (address %p), thread %s", sig, s, si->si_addr, g_cur ? g_cur->name : "kernel");
        sh->pc = pc; sh->status = ST_VIOL; hash_event(0xdead); fill();
    }
    leave();
}
extern void kernel_reset();
extern void libc_reset();
static std::string g_only;   // restrict to one scenario by name
static void child_main(const char *prop, u64 seed, u64 index) {
    u64 ph = 1469598103934665603ULL; for (const char *c = prop; *c; c++) ph = (ph ^ (u8)*c) * 1099511628211ULL;
    for (int s = 0; s < NSTREAM; s++) g_rng[s] = mix(mix(seed * 0x9e37 + 77) ^ mix(index + 1) ^ mix(ph + s * 1000003ULL));
    g_evq = new std::priority_queue<Ev *, std::vector<Ev *>, EvCmp>;
    stack_t ss{}; ss.ss_size = 256 << 10; ss.ss_sp = mmap(0, ss.ss_size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); sigaltstack(&ss, 0);
    struct sigaction sa{}; sa.sa_sigaction = crash_handler; sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
    for (int s : {SIGSEGV, SIGBUS, SIGILL, SIGFPE, SIGABRT, SIGTRAP}) sigaction(s, &sa, 0);
    struct rlimit rl{60, 60}; setrlimit(RLIMIT_CPU, &rl);
    g_now = 0; g_walloff = 1700000000LL * SEC + 123 * MS; g_hash = 1; g_shash = 1;
    heap_reset(); kernel_reset(); libc_reset();
    // scenario choice
    std::vector<Scenario *> c; for (auto &s : scens()) if (!strcmp(s.prop, prop) && (g_only.empty() || g_only == s.name)) c.push_back(&s);
    if (c.empty()) { sh->status = ST_ERROR; snprintf(sh->msg, sizeof sh->msg, "no scenario for %s", prop); leave(); }
    u32 tot = 0; for (auto s : c) tot += s->weight;
    u32 v = 0; if (!g_rep.on) { u32 r = rnd(S_CFG) % tot; while (r >= c[v]->weight) r -= c[v++]->weight; }
    v = record(S_CFG, v); if (v >= c.size()) v = 0;
    Scenario *s = c[v];
    snprintf(sh->scen, sizeof sh->scen, "%s", s->name);
    // swarm: scheduling policy
    cfg = Config();
    u32 m = pick(S_CFG, {2, 3, 3, 4, 3});
    cfg.sched_mode = m;
    static const u32 dens[4] = {2, 4, 8, 24}; cfg.preempt_den = dens[choose(S_CFG, 4)];
    static const u32 lags[4] = {0, 40, 200, 1000}; cfg.lag = lags[choose(S_CFG, 4)];
    if (cfg.lag) g_lag_in = 1 + choose(S_SCHED, cfg.lag);
    spawn("main", [s] { s->run(); finish(); });
    g_active = 1;
    host_loop();
    leave();
}
static int run_child(const char *prop, u64 seed, u64 index) {
    size_t head = offsetof(Shared, dec); memset(sh, 0, head);
    pid_t p = fork();
    if (p < 0) { perror("fork"); exit(3); }
    if (p == 0) { child_main(prop, seed, index); leave(); }
    int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
    if (sh->status == ST_NONE) {
        sh->status = ST_CRASH;
        if (WIFSIGNALED(st)) snprintf(sh->key, sizeof sh->key, "killed:%d", WTERMSIG(st)); else snprintf(sh->key, sizeof sh->key, "exit:%d", WEXITSTATUS(st));
        snprintf(sh->msg, sizeof sh->msg, "the simulated process ended unexpectedly (%s)", sh->key);
    }
    return sh->status;
}

static double wall() { struct timespec ts; syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &ts); return ts.tv_sec + ts.tv_nsec / 1e9; }
static std::string jesc(const char *s) { std::string o; for (; *s; s++) { unsigned char c = *s; if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; } else o += c; } return o; }

struct Dec { std::vector<u32> d[NSTREAM]; size_t nz() const { size_t n = 0; for (auto &v : d) for (u32 x : v) n += x != 0; return n; } size_t len() const { size_t n = 0; for (auto &v : d) n += v.size(); return n; } };
static Dec grab() { Dec r; for (int s = 0; s < NSTREAM; s++) { u32 n = std::min<u32>(sh->nd[s], MAXDEC); r.d[s].assign(sh->dec[s], sh->dec[s] + n); while (!r.d[s].empty() && r.d[s].back() == 0) r.d[s].pop_back(); } return r; }
static bool try_dec(const char *prop, const Dec &d, const std::string &key) {
    g_rep.on = true; for (int s = 0; s < NSTREAM; s++) g_rep.d[s] = d.d[s];
    run_child(prop, 0, 0);
    return (sh->status == ST_VIOL || sh->status == ST_CRASH) && key == sh->key;
}
static Dec minimise(const char *prop, Dec d, const std::string &key, double budget, u64 *tries) {
    double end = wall() + budget;
    // streams in the order in which removing their decisions simplifies most
    static const int order[] = {F_STALL, F_EINTR, F_SPUR, F_THREAD, F_ACCEPT, F_AIO, F_UDP, F_DNS, F_MISC, F_SHORT, F_TIME, S_NET, S_SCHED, S_PEER, S_WORK, S_CFG};
    bool progress = true;
    for (int round = 0; round < 4 && progress && wall() < end; round++) {
        progress = false;
        for (int s : order) {
            if (wall() > end) break;
            // truncate
            auto attempt = [&](Dec &n) { ++*tries; if (try_dec(prop, n, key)) { Dec g = grab(); if (g.nz() <= n.nz()) d = g; else d = n; return true; } return false; };
            { Dec n = d; if (!n.d[s].empty()) { n.d[s].clear(); if (attempt(n)) { progress = true; continue; } } }
            for (size_t cut = d.d[s].size() / 2; cut > 0 && wall() < end; cut /= 2) { Dec n = d; if (n.d[s].size() <= cut) continue; n.d[s].resize(n.d[s].size() - cut); if (attempt(n)) progress = true; }
            // zero chunks
            for (size_t chunk = std::max<size_t>(d.d[s].size() / 2, 1); chunk >= 1 && wall() < end; chunk /= 2) {
                for (size_t i = 0; i < d.d[s].size() && wall() < end; i += chunk) {
                    Dec n = d; bool any = false; for (size_t k = i; k < std::min(i + chunk, n.d[s].size()); k++) if (n.d[s][k]) { n.d[s][k] = 0; any = true; }
                    if (any && attempt(n)) progress = true;
                }
                if (chunk == 1) break;
            }
            // delete chunks
            for (size_t chunk : {8, 3, 1}) for (size_t i = 0; i + chunk <= d.d[s].size() && wall() < end; ) {
                if (d.d[s].size() > 400) break;
                Dec n = d; n.d[s].erase(n.d[s].begin() + i, n.d[s].begin() + i + chunk);
                if (attempt(n)) progress = true; else i += chunk;
            }
        }
    }
    return d;
}
static const char *sname[NSTREAM] = {"work", "sched", "net", "cfg", "peer", "short", "eintr", "spurious", "thread", "accept", "aio", "stall", "udp", "dns", "time", "misc"};
static void write_replay(const char *file, const char *prop, u64 seed, u64 index, const Dec &d, u64 orig, u64 tries) {
    FILE *f = fopen(file, "w"); if (!f) { perror(file); exit(3); }
    fprintf(f, "kasync-sim-replay 1\nproperty %s\nscenario %s\nkey %s\nhash %016llx\nseed %llu\nindex %llu\ndecisions %zu nonzero %zu original_nonzero %llu minimise_runs %llu\n", prop, sh->scen, sh->key, (unsigned long long)sh->hash, (unsigned long long)seed, (unsigned long long)index, d.len(), d.nz(), (unsigned long long)orig, (unsigned long long)tries);
    if (!g_only.empty()) fprintf(f, "only %s\n", g_only.c_str());
    for (int s = 0; s < NSTREAM; s++) { fprintf(f, "stream %s", sname[s]); for (u32 x : d.d[s]) fprintf(f, " %u", x); fprintf(f, "\n"); }
    fprintf(f, "message %s\n", jesc(sh->msg).c_str());
    fprintf(f, "where %s\n", sym_of(sh->pc));
    fprintf(f, "--- trace\n"); fwrite(sh->trace, 1, sh->trace_n, f);
    fclose(f);
}
static std::string getword(const char *line, const char *k) { size_t n = strlen(k); if (!strncmp(line, k, n) && line[n] == ' ') { std::string s = line + n + 1; while (!s.empty() && (s.back() == '\n')) s.pop_back(); return s; } return ""; }

extern void warm_up();
static int cmd_run(int ac, char **av) {
    std::string prop, out, replay, hashes; u64 seed = 1, first = 0, stride = 1, maxn = ~0ULL; double budget = 10, minb = 30; bool stop = true; std::set<std::string> known;
    for (int i = 0; i < ac; i++) {
        std::string a = av[i]; auto v = [&] { return std::string(av[++i]); };
        if (a == "--prop") prop = v(); else if (a == "--seed") seed = strtoull(v().c_str(), 0, 10); else if (a == "--first") first = strtoull(v().c_str(), 0, 10);
        else if (a == "--stride") stride = strtoull(v().c_str(), 0, 10); else if (a == "--count") maxn = strtoull(v().c_str(), 0, 10); else if (a == "--budget") budget = atof(v().c_str());
        else if (a == "--out") out = v(); else if (a == "--replay") replay = v(); else if (a == "--scenario") g_only = v(); else if (a == "--min-budget") minb = atof(v().c_str());
        else if (a == "--known") known.insert(v()); else if (a == "--hashes") hashes = v(); else if (a == "--keep-going") stop = false;
    }
    double t0 = wall(); u64 runs = 0, ops = 0, slices = 0, acc = 0, sw = 0; i64 simns = 0; std::map<std::string, u64> faults, probes, scen, knownhits, viol; std::unordered_set<u64> hs, ss; std::vector<std::string> samples; u64 overflow = 0, nontriv = 0;
    FILE *hf = hashes.empty() ? nullptr : fopen(hashes.c_str(), "w");
    std::string vio; int bad = 0;
    for (u64 k = 0; k < maxn && wall() - t0 < budget; k++) {
        u64 idx = first + k * stride;
        g_rep.on = false; g_trace = false;
        run_child(prop.c_str(), seed, idx);
        runs++; ops += sh->ops; slices += sh->slices; acc += sh->acc; simns += sh->simns; sw += sh->switches; scen[sh->scen]++; overflow += sh->overflow;
        if (sh->switches > 4 && sh->ops > 0) { nontriv++; hs.insert(sh->hash); }
        ss.insert(sh->shash);
        if (hf) fprintf(hf, "%llu %016llx %d %s\n", (unsigned long long)idx, (unsigned long long)sh->hash, sh->status, sh->key);
        for (auto &c : sh->faults) if (c.n) faults[c.name] += c.n; for (auto &c : sh->probes) if (c.n) probes[c.name] += c.n;
        if (samples.size() < 4) { char b[300]; snprintf(b, 300, "seed=%llu run=%llu scenario=%s sim=%.3fs threads=%d switches=%llu ops=%llu faults=%d hash=%016llx", (unsigned long long)seed, (unsigned long long)idx, sh->scen, sh->simns / 1e9, sh->nth, (unsigned long long)sh->switches, (unsigned long long)sh->ops, (int)std::count_if(sh->faults, sh->faults + MAXCNT, [](Cnt &c) { return c.n; }), (unsigned long long)sh->hash); samples.push_back(b); }
        if (sh->status == ST_ERROR) { fprintf(stderr, "error: %s\n", sh->msg); return 3; }
        if (sh->status == ST_VIOL || sh->status == ST_CRASH) {
            std::string key = sh->key;
            if (known.count(key)) { knownhits[key]++; continue; }
            if (viol[key]++ == 0 && !stop) fprintf(stderr, "run %llu scen %s key %s: %s [%s]\n", (unsigned long long)idx, sh->scen, sh->key, sh->msg, sym_of(sh->pc));
            if (!stop) { bad++; continue; }
            // gate: same seed must give the same violation and hash
            u64 h = sh->hash; Dec d = grab(); size_t orig = d.nz(); std::string msg = sh->msg;
            run_child(prop.c_str(), seed, idx);
            if (sh->hash != h || key != sh->key) { fprintf(stderr, "NONDETERMINISM: run %llu of %s: %s/%016llx then %s/%016llx\n", (unsigned long long)idx, prop.c_str(), key.c_str(), (unsigned long long)h, sh->key, (unsigned long long)sh->hash); return 4; }
            if (!try_dec(prop.c_str(), d, key) ) { fprintf(stderr, "NONDETERMINISM: decision replay of run %llu differs (%s)\n", (unsigned long long)idx, sh->key); return 4; }
            u64 tries = 0; Dec m = minimise(prop.c_str(), d, key, minb, &tries);
            g_trace = true; if (!try_dec(prop.c_str(), m, key)) { m = d; try_dec(prop.c_str(), m, key); } g_trace = false;
            write_replay(replay.c_str(), prop.c_str(), seed, idx, m, orig, tries);
            vio = key; msg = sh->msg; bad = 1;
            break;
        }
    }
    if (hf) fclose(hf);
    FILE *f = out.empty() ? stdout : fopen(out.c_str(), "w");
    fprintf(f, "{\"runs\":%llu,\"ops\":%llu,\"slices\":%llu,\"accesses\":%llu,\"switches\":%llu,\"sim_s\":%.3f,\"wall_s\":%.3f,\"distinct_hist\":%zu,\"distinct_sched\":%zu,\"nontrivial\":%llu,\"overflow\":%llu,\"violation\":\"%s\",\"msg\":\"%s\"", (unsigned long long)runs, (unsigned long long)ops, (unsigned long long)slices, (unsigned long long)acc, (unsigned long long)sw, simns / 1e9, wall() - t0, hs.size(), ss.size(), (unsigned long long)nontriv, (unsigned long long)overflow, jesc(vio.c_str()).c_str(), vio.empty() ? "" : jesc(sh->msg).c_str());
    auto dump = [&](const char *n, std::map<std::string, u64> &m) { fprintf(f, ",\"%s\":{", n); bool c = false; for (auto &x : m) { fprintf(f, "%s\"%s\":%llu", c ? "," : "", jesc(x.first.c_str()).c_str(), (unsigned long long)x.second); c = true; } fprintf(f, "}"); };
    dump("faults", faults); dump("probes", probes); dump("scenarios", scen); dump("known", knownhits); dump("violations", viol);
    fprintf(f, ",\"samples\":["); for (size_t i = 0; i < samples.size(); i++) fprintf(f, "%s\"%s\"", i ? "," : "", jesc(samples[i].c_str()).c_str()); fprintf(f, "]");
    fprintf(f, ",\"hashes\":["); { bool c = false; for (u64 h : hs) { fprintf(f, "%s\"%llx\"", c ? "," : "", (unsigned long long)h); c = true; } } fprintf(f, "]");
    fprintf(f, "}\n"); if (f != stdout) fclose(f);
    return bad ? 1 : 0;
}
static int cmd_replay(int ac, char **av) {
    const char *file = av[0]; FILE *f = fopen(file, "r"); if (!f) { perror(file); return 3; }
    bool tr = ac > 1 && !strcmp(av[1], "--trace");
    std::string prop, key, hash; char *line = nullptr; size_t cap = 0; Dec d;
    while (getline(&line, &cap, f) > 0) {
        if (!strncmp(line, "--- trace", 9)) break;
        std::string v;
        if (!(v = getword(line, "property")).empty()) prop = v; if (!(v = getword(line, "key")).empty()) key = v; if (!(v = getword(line, "hash")).empty()) hash = v; if (!(v = getword(line, "only")).empty()) g_only = v;
        if (!strncmp(line, "stream ", 7)) { char *p = line + 7; char *e = p; while (*e && *e != ' ' && *e != '\n') e++; std::string n(p, e); for (int s = 0; s < NSTREAM; s++) if (n == sname[s]) { for (;;) { char *q; unsigned long x = strtoul(e, &q, 10); if (q == e) break; d.d[s].push_back(x); e = q; } } }
    }
    fclose(f);
    g_trace = tr;
    bool ok = try_dec(prop.c_str(), d, key);
    char h[20]; snprintf(h, 20, "%016llx", (unsigned long long)sh->hash);
    if (tr) fwrite(sh->trace, 1, sh->trace_n, stdout);
    printf("replay %s status=%d key=%s hash=%s expected_hash=%s: %s\n", prop.c_str(), sh->status, sh->key, h, hash.c_str(), sh->msg);
    printf("where: %s\n", sym_of(sh->pc));
    if (!ok) return 0;
    if (hash != h) { printf("replay hash differs\n"); return 2; }
    return 1;
}
static int cmd_one(int ac, char **av) {
    std::string prop; u64 seed = 1, idx = 0; 
    for (int i = 0; i < ac; i++) { std::string a = av[i]; if (a == "--prop") prop = av[++i]; else if (a == "--seed") seed = strtoull(av[++i], 0, 10); else if (a == "--index") idx = strtoull(av[++i], 0, 10); else if (a == "--scenario") g_only = av[++i]; else if (a == "--trace") g_trace = true; }
    run_child(prop.c_str(), seed, idx);
    if (g_trace) fwrite(sh->trace, 1, sh->trace_n, stdout);
    printf("scenario=%s status=%d hash=%016llx sim=%.3fs slices=%llu acc=%llu ops=%llu key=%s %s [%s]\n", sh->scen, sh->status, (unsigned long long)sh->hash, sh->simns / 1e9, (unsigned long long)sh->slices, (unsigned long long)sh->acc, (unsigned long long)sh->ops, sh->key, sh->msg, sym_of(sh->pc));
    for (auto &c : sh->faults) if (c.n) printf("  fault %s %llu\n", c.name, (unsigned long long)c.n);
    for (auto &c : sh->probes) if (c.n) printf("  probe %s %llu\n", c.name, (unsigned long long)c.n);
    return sh->status == ST_OK ? 0 : 1;
}
} // namespace sim

int main(int ac, char **av) {
    using namespace sim;
    if (!getenv("SIM_NOASLR")) {
        // same addresses in every run: no ASLR, and a fixed stack layout (empty environment)
        if (personality(ADDR_NO_RANDOMIZE) != -1) { static char e1[] = "SIM_NOASLR=1"; char *env[] = {e1, nullptr}; execve("/proc/self/exe", av, env); }
    }
    sh = (Shared *)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    load_syms();
    warm_up();
    if (ac < 2) return 3;
    std::string c = av[1];
    if (c == "run") return cmd_run(ac - 2, av + 2);
    if (c == "replay") return cmd_replay(ac - 2, av + 2);
    if (c == "one") return cmd_one(ac - 2, av + 2);
    if (c == "list") { for (auto &s : scens()) printf("%s %s %u\n", s.prop, s.name, s.weight); return 0; }
    return 3;
}
