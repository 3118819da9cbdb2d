// Internals shared by core.cc, rt.cc, kernel.cc, libc.cc
#pragma once
#include "sim.h"
#include <signal.h>

namespace sim {
enum { MAXTH = 96, MAXKEY = 96 };
enum TState { T_FREE, T_RUN, T_BLOCK, T_DONE };
struct Th {
    int id; char name[32]; void *sp; char *stk; size_t stksz; TState st;
    const void *wkey; i64 deadline; bool timed_out; int err; std::function<void()> fn;
    u64 sigmask, pending; i64 stall_until; void *retval; bool detached; bool pth; bool joined;
    int prio; u64 wseq; u64 spin; i64 spin_d;
};
extern Th g_th[MAXTH];
extern int g_nth;
extern Th *g_cur;
extern i64 g_now, g_walloff, g_stall_total;
extern int g_budget;             // counted accesses left before slow path
extern int g_sync_budget;
extern u64 g_acc, g_wr;          // counted accesses, of these writes
extern int g_active;             // simulation running
extern int g_nopre;
extern void *g_tls[MAXTH + 1][MAXKEY];
void slow_access(const void *pc);
void sync_point(int kind, const void *pc);   // scheduling opportunity at a synchronisation operation or syscall
void host_loop();
[[noreturn]] void violation_pc(const char *key, const void *pc, const char *fmt, ...);
const char *sym_of(const void *pc);
void exit_thread();
void heap_reset();
// shadow
const uintptr_t ARENA = 0x200000000000ULL; const size_t ARENA_SZ = 768ULL << 20;
extern u8 *g_shadow;
[[noreturn]] void bad_access(const void *p, size_t n, bool w, const void *pc);
inline bool in_arena(const void *p) { return (uintptr_t)p - ARENA < ARENA_SZ; }
void *h_alloc(size_t n, size_t al, const void *pc);
void h_free(void *p, const void *pc);
size_t h_size(void *p);
inline void chk(const void *p, size_t n, bool w, const void *pc) { if (n && in_arena(p)) check_access(p, n, w, pc); }
int default_sigaction_ignored(int sig);
struct Run;
#define PC __builtin_return_address(0)
}
