// Our own __tsan_* runtime (scheduling points + heap checks) and the simulated heap.
#include "core.h"
#include <string.h>
#include <stdlib.h>
#include <stdio.h>
#include <sys/mman.h>

namespace sim {
u8 *g_shadow;                    // one byte per 8 bytes of arena: 0 invalid, 1..8 valid prefix, |0x40 large block: counted unless it is the running stack
struct Blk { uintptr_t p; size_t n; const void *apc, *fpc; int atid, ftid; bool live, ign; };
static std::vector<Blk> *g_blk; static uintptr_t g_brk; static u64 g_live_n, g_live_b;

void heap_reset() {
    if (!g_shadow) {
        void *a = mmap((void *)ARENA, ARENA_SZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
        if (a != (void *)ARENA) { fprintf(stderr, "cannot map arena\n"); _exit(3); }
        g_shadow = (u8 *)mmap(0, ARENA_SZ / 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        g_blk = new std::vector<Blk>; g_blk->reserve(4096); g_brk = ARENA + 4096;
    }
}
static Blk *find_blk(uintptr_t a) {      // last block starting at or before a
    auto &v = *g_blk; size_t lo = 0, hi = v.size();
    while (lo < hi) { size_t m = (lo + hi) / 2; if (v[m].p <= a) lo = m + 1; else hi = m; }
    return lo ? &v[lo - 1] : nullptr;
}
void *h_alloc(size_t n, size_t al, const void *pc) {
    if (al < 16) al = 16;
    size_t nn = n ? n : 1;
    uintptr_t p = (g_brk + 32 + al - 1) & ~(al - 1);
    if (p + nn + 64 > ARENA + ARENA_SZ) violation("sim:arena-exhausted", "simulated heap exhausted (%zu live blocks)", (size_t)g_live_n);
    g_brk = p + nn;
    size_t g = (p - ARENA) / 8, full = nn / 8; u8 v = nn >= 32768 ? 0x48 : 8;
    memset(g_shadow + g, v, full);
    if (v != 8) memset(g_shadow + g, 8, 2048 / 8);       // the head of a large block (a fiber record before its stack) counts
    if (nn & 7) g_shadow[g + full] = (nn & 7) | (v & 0x40);
    if (nn <= 8192) memset((void *)p, 0xBE, nn);
    g_blk->push_back({p, nn, pc, nullptr, self(), -1, true, false});
    g_live_n++; g_live_b += nn;
    return (void *)p;
}
static const char *side(const Blk *b, uintptr_t a) { return a >= b->p + b->n ? "after the end of" : "inside"; }
void bad_access(const void *p, size_t n, bool w, const void *pc) {
    Blk *b = find_blk((uintptr_t)p);
    char key[160];
    if (b && !b->live && (uintptr_t)p < b->p + b->n + 16) {
        snprintf(key, sizeof key, "mem:use-after-free:%s", sym_of(pc));
        violation_pc(key, pc, "%s of %zu bytes in %s touches %zu-byte block +%ld, allocated in %s, freed in %s by thread %s", w ? "write" : "read", n, sym_of(pc), b->n, (long)((uintptr_t)p - b->p), sym_of(b->apc), sym_of(b->fpc), thread_name(b->ftid));
    }
    snprintf(key, sizeof key, "mem:out-of-bounds:%s", sym_of(pc));
    if (b) violation_pc(key, pc, "%s of %zu bytes in %s %s %zu-byte block +%ld allocated in %s", w ? "write" : "read", n, sym_of(pc), side(b, (uintptr_t)p), b->n, (long)((uintptr_t)p - b->p), sym_of(b->apc));
    violation_pc(key, pc, "%s of %zu bytes in %s at unallocated heap address", w ? "write" : "read", n, sym_of(pc));
}
static inline bool gran_ok(uintptr_t a, size_t last) { u8 s = g_shadow[(a - ARENA) >> 3] & 0x3f; return s == 8 || (last < s); }
void check_access(const void *p, size_t n, bool w, const void *pc) {
    if (!n || !in_arena(p) || !g_shadow) return;
    uintptr_t a = (uintptr_t)p, e = a + n - 1;
    if (!in_arena((void *)e)) bad_access(p, n, w, pc);
    for (uintptr_t x = a & ~7ULL; x <= e; x += 8) { size_t last = (x + 7 <= e) ? 7 : (e & 7); if (!gran_ok(x, last)) bad_access((void *)(x < a ? a : x), n, w, pc); }
}
size_t h_size(void *p) { Blk *b = find_blk((uintptr_t)p); return b && b->p == (uintptr_t)p ? b->n : 0; }
void h_free(void *p, const void *pc) {
    if (!p) return;
    Blk *b = find_blk((uintptr_t)p);
    char key[160];
    if (!b || b->p != (uintptr_t)p) { snprintf(key, sizeof key, "mem:bad-free:%s", sym_of(pc)); violation_pc(key, pc, "%s frees %p, which is not the start of a block", sym_of(pc), p); }
    if (!b->live) { snprintf(key, sizeof key, "mem:double-free:%s", sym_of(pc)); violation_pc(key, pc, "%s frees a %zu-byte block again; allocated in %s, freed in %s", sym_of(pc), b->n, sym_of(b->apc), sym_of(b->fpc)); }
    b->live = false; b->fpc = pc; b->ftid = self(); g_live_n--; g_live_b -= b->n;
    memset(g_shadow + (b->p - ARENA) / 8, 0, (b->n + 7) / 8);
    if (b->n <= 8192) memset(p, 0xDD, b->n);
}
HeapStat heap_stat() { return {g_live_n, g_live_b}; }
u64 heap_mark() { return g_blk->size(); }
bool heap_is_live(const void *p) { Blk *b = find_blk((uintptr_t)p); return b && b->live && (uintptr_t)p < b->p + b->n; }
i64 heap_below(const void *p) { Blk *b = find_blk((uintptr_t)p); return b && b->live && (uintptr_t)p < b->p + b->n ? (i64)((uintptr_t)p - b->p) : -1; }
bool heap_ignore_block(const void *p) { Blk *b = find_blk((uintptr_t)p); if (b && b->p == (uintptr_t)p) { b->ign = true; return true; } return false; }
std::string heap_live_since(u64 mark, int max, int *count, u64 upto) {
    std::string s; int n = 0;
    for (size_t i = mark; i < g_blk->size() && i < upto; i++) { Blk &b = (*g_blk)[i]; if (!b.live || b.ign) continue; if (n++ < max) { char t[160]; snprintf(t, sizeof t, "%s%zu bytes from %s by thread %s", n > 1 ? "; " : "", b.n, sym_of(b.apc), thread_name(b.atid)); s += t; } }
    if (count) *count = n;
    return s;
}
// calls that kasync objects make are recognised by address range (see build: ktext symbols)
}
using namespace sim;

extern "C" {
extern char __data_start, _end;
#define ACC(a, n, w) do { \
    uintptr_t A = (uintptr_t)(a); \
    if (A - ARENA < ARENA_SZ) { \
        u8 s = g_shadow[(A - ARENA) >> 3]; \
        if (__builtin_expect((s & 0x3f) < 8 || (A & 7) + (n) > 8, 0)) check_access((void *)A, n, w, PC); \
        if ((s & 0x40) && A - (uintptr_t)__builtin_frame_address(0) < 16384) break; /* own stack */ \
    } else if (A < (uintptr_t)&__data_start || A >= (uintptr_t)&_end) break; \
    g_acc++; if (w) g_wr++; \
    if (__builtin_expect(--g_budget <= 0, 0)) slow_access(PC); \
} while (0)
#define RW(n) \
    void __tsan_read##n(void *a) { ACC(a, n, false); } void __tsan_write##n(void *a) { ACC(a, n, true); } \
    void __tsan_unaligned_read##n(void *a) { ACC(a, n, false); } void __tsan_unaligned_write##n(void *a) { ACC(a, n, true); } \
    void __tsan_volatile_read##n(void *a) { ACC(a, n, false); } void __tsan_volatile_write##n(void *a) { ACC(a, n, true); } \
    void __tsan_unaligned_volatile_read##n(void *a) { ACC(a, n, false); } void __tsan_unaligned_volatile_write##n(void *a) { ACC(a, n, true); } \
    void __tsan_read_write##n(void *a) { ACC(a, n, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *a, unsigned long n) { if (n) { check_access(a, n, false, PC); g_acc++; if (--g_budget <= 0) slow_access(PC); } }
void __tsan_write_range(void *a, unsigned long n) { if (n) { g_wr++; check_access(a, n, true, PC); g_acc++; if (--g_budget <= 0) slow_access(PC); } }
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
void __tsan_vptr_update(void **p, void *) { ACC(p, 8, true); }
void __tsan_vptr_read(void **p) { ACC(p, 8, false); }
void __tsan_atomic_thread_fence(int) { sync_point(1, PC); }
void __tsan_atomic_signal_fence(int) {}
#define AT(bits, T) \
    T __tsan_atomic##bits##_load(const volatile T *a, int) { sync_point(2, PC); chk((void *)a, sizeof(T), false, PC); g_acc++; if (--g_budget <= 0) slow_access(PC); return *a; } \
    void __tsan_atomic##bits##_store(volatile T *a, T v, int) { sync_point(3, PC); chk((void *)a, sizeof(T), true, PC); g_wr++; *a = v; } \
    T __tsan_atomic##bits##_exchange(volatile T *a, T v, int) { sync_point(4, PC); chk((void *)a, sizeof(T), true, PC); g_wr++; T o = *a; *a = v; g_acc++; if (--g_budget <= 0) slow_access(PC); return o; } \
    T __tsan_atomic##bits##_fetch_add(volatile T *a, T v, int) { sync_point(5, PC); chk((void *)a, sizeof(T), true, PC); g_wr++; T o = *a; *a = (T)(o + v); return o; } \
    T __tsan_atomic##bits##_fetch_sub(volatile T *a, T v, int) { sync_point(5, PC); chk((void *)a, sizeof(T), true, PC); g_wr++; T o = *a; *a = (T)(o - v); return o; } \
    T __tsan_atomic##bits##_fetch_and(volatile T *a, T v, int) { sync_point(5, PC); chk((void *)a, sizeof(T), true, PC); g_wr++; T o = *a; *a = o & v; return o; } \
    T __tsan_atomic##bits##_fetch_or(volatile T *a, T v, int) { sync_point(5, PC); chk((void *)a, sizeof(T), true, PC); g_wr++; T o = *a; *a = o | v; return o; } \
    T __tsan_atomic##bits##_fetch_xor(volatile T *a, T v, int) { sync_point(5, PC); chk((void *)a, sizeof(T), true, PC); g_wr++; T o = *a; *a = o ^ v; return o; } \
    T __tsan_atomic##bits##_fetch_nand(volatile T *a, T v, int) { sync_point(5, PC); chk((void *)a, sizeof(T), true, PC); g_wr++; T o = *a; *a = ~(o & v); return o; } \
    int __tsan_atomic##bits##_compare_exchange_strong(volatile T *a, T *c, T v, int, int) { sync_point(6, PC); chk((void *)a, sizeof(T), true, PC); g_acc++; if (--g_budget <= 0) slow_access(PC); if (*a == *c) { g_wr++; *a = v; return 1; } *c = *a; return 0; } \
    int __tsan_atomic##bits##_compare_exchange_weak(volatile T *a, T *c, T v, int, int) { sync_point(6, PC); chk((void *)a, sizeof(T), true, PC); g_acc++; if (--g_budget <= 0) slow_access(PC); if (*a == *c) { g_wr++; *a = v; return 1; } *c = *a; return 0; } \
    T __tsan_atomic##bits##_compare_exchange_val(volatile T *a, T c, T v, int, int) { sync_point(6, PC); chk((void *)a, sizeof(T), true, PC); T o = *a; if (o == c) { g_wr++; *a = v; } return o; }
AT(8, u8) AT(16, uint16_t) AT(32, u32) AT(64, u64)
}
