// Simulated libc: memory, strings, threads, time, stdio; plus the symbols libcrypto/libssl resolve in the executable.
#include "core.h"
#include "kernel.h"
#include <errno.h>
#include <string.h>
#include <stdlib.h>
#include <stdarg.h>
#include <stdio.h>
#include <unistd.h>
#include <pthread.h>
#include <semaphore.h>
#include <signal.h>
#include <time.h>
#include <sys/time.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/socket.h>
#include <openssl/rand.h>
#include <openssl/ssl.h>
#include <openssl/err.h>
#include <algorithm>
#include <unordered_map>

namespace sim {
static u64 g_rand_state; static void (*g_keydtor[MAXKEY])(void *); static int g_nkeys; static int g_sigign[65]; static u64 g_ssl_rng; static u64 g_randlib;
int default_sigaction_ignored(int s) { return g_sigign[s]; }
static int rnd_bytes(unsigned char *b, int n) { for (int i = 0; i < n; i++) { g_ssl_rng = g_ssl_rng * 6364136223846793005ULL + 1442695040888963407ULL; b[i] = g_ssl_rng >> 33; } return 1; }
static int rnd_add(const void *, int, double) { return 1; }
static int rnd_seed(const void *, int) { return 1; }
static int rnd_status() { return 1; }
void warm_up() {
    static RAND_METHOD m; m.seed = rnd_seed; m.bytes = rnd_bytes; m.add = rnd_add; m.pseudorand = rnd_bytes; m.status = rnd_status;
    OPENSSL_init_ssl(OPENSSL_INIT_LOAD_SSL_STRINGS | OPENSSL_INIT_LOAD_CRYPTO_STRINGS | OPENSSL_INIT_NO_ATEXIT, nullptr);
    RAND_set_rand_method(&m);
    SSL_CTX *c = SSL_CTX_new(TLS_method()); if (c) { SSL *s = SSL_new(c); SSL_free(s); SSL_CTX_free(c); }
    ERR_clear_error();
}
void libc_reset() { g_rand_state = 12345; memset(g_sigign, 0, sizeof g_sigign); g_ssl_rng = 0x853c49e6748fea9bULL ^ rnd(F_MISC); g_randlib = 1; }

// ---- mutexes: state lives in the pthread_mutex_t
struct Mx { u32 magic; int owner; int count; int type; };
enum { MXMAGIC = 0x4d585031 };
static Mx *mx(pthread_mutex_t *m, const void *pc) {
    chk(m, sizeof(Mx), true, pc);
    Mx *x = (Mx *)m;
    if (x->magic != MXMAGIC) {
        pthread_mutex_t z = PTHREAD_MUTEX_INITIALIZER;
        if (memcmp(m, &z, sizeof z) == 0) { memset((void *)m, 0, sizeof *m); x->magic = MXMAGIC; }
        else { char key[160]; snprintf(key, sizeof key, "mutex:uninitialised:%s", sym_of(pc)); violation_pc(key, pc, "%s uses a mutex that is not initialised or was destroyed", sym_of(pc)); }
    }
    return x;
}
static void mlock(pthread_mutex_t *m, const void *pc) {
    Mx *x = mx(m, pc); int me = self() + 1;
    if (x->owner == me) { if (x->type == PTHREAD_MUTEX_RECURSIVE) { x->count++; return; } char key[160]; snprintf(key, sizeof key, "mutex:self-deadlock:%s", sym_of(pc)); violation_pc(key, pc, "%s locks a mutex its thread already holds: it would wait for ever", sym_of(pc)); }
    while (x->owner) { if (!g_cur) abort(); block(m, -1); x = mx(m, pc); }
    x->owner = me; x->count = 1;
}
static void munlock(pthread_mutex_t *m, const void *pc) {
    Mx *x = mx(m, pc); int me = self() + 1;
    if (x->owner != me) { char key[160]; snprintf(key, sizeof key, "mutex:not-owner:%s", sym_of(pc)); violation_pc(key, pc, "%s unlocks a mutex its thread does not hold (owner %d)", sym_of(pc), x->owner - 1); }
    if (--x->count) return;
    x->owner = 0; wake(m, 1);
}
struct Cv { u32 magic; u32 waiters; u64 pad; };
enum { CVMAGIC = 0x43563031 };
static Cv *cv(pthread_cond_t *c, const void *pc) {
    chk(c, sizeof(Cv), true, pc); Cv *x = (Cv *)c;
    if (x->magic != CVMAGIC) { pthread_cond_t z = PTHREAD_COND_INITIALIZER; if (!memcmp(c, &z, sizeof z)) { memset((void *)c, 0, sizeof *c); x->magic = CVMAGIC; } else { char key[160]; snprintf(key, sizeof key, "cond:uninitialised:%s", sym_of(pc)); violation_pc(key, pc, "%s uses a condition variable that is not initialised or was destroyed", sym_of(pc)); } }
    return x;
}
static int cwait(pthread_cond_t *c, pthread_mutex_t *m, i64 dl, const void *pc) {
    Cv *x = cv(c, pc); x->waiters++;
    munlock(m, pc);
    bool ok = true;
    if (chance(F_SPUR, cfg.p_spurious, 1024)) {
        static const i64 d[4] = {0, 20 * US, 1 * MS, 30 * MS}; i64 t = g_now + d[choose(F_SPUR, 4)]; bool spur = dl < 0 || t < dl;
        ok = block(c, spur ? t : dl); if (!ok && spur) { fault("spurious_wakeup"); ok = true; }
    } else ok = block(c, dl);
    x = cv(c, pc); x->waiters--;
    mlock(m, pc);
    return ok ? 0 : ETIMEDOUT;
}
}
using namespace sim;
extern "C" {
ssize_t sim_read(int, void *, size_t); ssize_t sim_write(int, const void *, size_t); ssize_t sim_recv(int, void *, size_t, int); ssize_t sim_send(int, const void *, size_t, int);
int sim_shutdown(int, int); int sim_setsockopt(int, int, int, const void *, socklen_t); int sim_getsockopt(int, int, int, void *, socklen_t *);
// ------------------------------------------------------------------ memory
void *sim_malloc(size_t n) { return g_active ? h_alloc(n, 16, PC) : malloc(n); }
void *sim_calloc(size_t a, size_t b) { if (!g_active) return calloc(a, b); void *p = h_alloc(a * b, 16, PC); memset(p, 0, a * b); return p; }
void *sim_realloc(void *p, size_t n) {
    if (p ? !in_arena(p) : !g_active) return realloc(p, n);
    const void *pc = PC; if (!p) return h_alloc(n, 16, pc);
    if (n == 0) { h_free(p, pc); return nullptr; }
    size_t o = h_size(p); chk(p, o, false, pc); if (!o) h_free(p, pc);
    void *q = h_alloc(n, 16, pc); memcpy(q, p, std::min(o, n)); h_free(p, pc); return q;
}
void sim_free(void *p) { if (p && !in_arena(p)) { if (!g_active) { free(p); return; } } h_free(p, PC); }
void *sim_memalign(size_t al, size_t n) { return g_active ? h_alloc(n, al, PC) : aligned_alloc(al, n); }
void *sim_aligned_alloc(size_t al, size_t n) { return sim_memalign(al, n); }
int sim_posix_memalign(void **o, size_t al, size_t n) { *o = h_alloc(n, al, PC); return 0; }
int sim_mprotect(void *, size_t, int) { return 0; }
// ------------------------------------------------------------------ strings
static size_t clen(const char *s, size_t max, const void *pc) { size_t n = 0; if (!in_arena(s)) return max == (size_t)-1 ? strlen(s) : strnlen(s, max); while (n < max) { chk(s + n, 1, false, pc); if (!s[n]) break; n++; } return n; }
void *sim_memset(void *d, int c, size_t n) { chk(d, n, true, PC); return memset(d, c, n); }
void *sim_memcpy(void *d, const void *s, size_t n) { chk(d, n, true, PC); chk(s, n, false, PC); if (n && (char *)d < (char *)s + n && (char *)s < (char *)d + n && d != s && g_active) { char key[160]; snprintf(key, sizeof key, "mem:overlapping-memcpy:%s", sym_of(PC)); violation_pc(key, PC, "%s copies overlapping ranges with memcpy", sym_of(PC)); } return memmove(d, s, n); }
void *sim_memmove(void *d, const void *s, size_t n) { chk(d, n, true, PC); chk(s, n, false, PC); return memmove(d, s, n); }
int sim_memcmp(const void *a, const void *b, size_t n) { chk(a, n, false, PC); chk(b, n, false, PC); return memcmp(a, b, n); }
void *sim_memchr(const void *a, int c, size_t n) { void *r = (void *)memchr(a, c, n); chk(a, r ? (char *)r - (char *)a + 1 : n, false, PC); return r; }
size_t sim_strlen(const char *s) { return clen(s, -1, PC); }
size_t sim_strnlen(const char *s, size_t m) { return clen(s, m, PC); }
int sim_strcmp(const char *a, const char *b) { clen(a, -1, PC); clen(b, -1, PC); return strcmp(a, b); }
int sim_strncmp(const char *a, const char *b, size_t n) { clen(a, n, PC); clen(b, n, PC); return strncmp(a, b, n); }
int sim_strcasecmp(const char *a, const char *b) { clen(a, -1, PC); clen(b, -1, PC); return strcasecmp(a, b); }
int sim_strncasecmp(const char *a, const char *b, size_t n) { clen(a, n, PC); clen(b, n, PC); return strncasecmp(a, b, n); }
char *sim_strcpy(char *d, const char *s) { size_t n = clen(s, -1, PC); chk(d, n + 1, true, PC); memmove(d, s, n + 1); return d; }
char *sim_strncpy(char *d, const char *s, size_t n) { clen(s, n, PC); chk(d, n, true, PC); return strncpy(d, s, n); }
char *sim_strcat(char *d, const char *s) { size_t a = clen(d, -1, PC), b = clen(s, -1, PC); chk(d, a + b + 1, true, PC); return strcat(d, s); }
char *sim_strchr(const char *s, int c) { clen(s, -1, PC); return (char *)strchr(s, c); }
char *sim_strrchr(const char *s, int c) { clen(s, -1, PC); return (char *)strrchr(s, c); }
char *sim_strstr(const char *s, const char *c) { clen(s, -1, PC); return (char *)strstr(s, c); }
char *sim_strdup(const char *s) { size_t n = clen(s, -1, PC); char *p = (char *)(g_active ? h_alloc(n + 1, 16, PC) : malloc(n + 1)); memcpy(p, s, n + 1); return p; }
char *sim_strndup(const char *s, size_t m) { size_t n = clen(s, m, PC); char *p = (char *)(g_active ? h_alloc(n + 1, 16, PC) : malloc(n + 1)); memcpy(p, s, n); p[n] = 0; return p; }
// ------------------------------------------------------------------ stdio, misc
static int swallow(const char *f, va_list ap) { char b[500]; int n = vsnprintf(b, sizeof b, f, ap); if (tracing()) log("| %s", b); return n; }
int sim_printf(const char *f, ...) { va_list ap; va_start(ap, f); int n = swallow(f, ap); va_end(ap); return n; }
int sim_vprintf(const char *f, va_list ap) { return swallow(f, ap); }
int sim_fprintf(void *, const char *f, ...) { va_list ap; va_start(ap, f); int n = swallow(f, ap); va_end(ap); return n; }
int sim_vfprintf(void *, const char *f, va_list ap) { return swallow(f, ap); }
int sim_puts(const char *s) { if (tracing()) log("| %s", s); return 1; }
int sim_putchar(int c) { return c; }
int sim_fputs(const char *s, void *) { if (tracing()) log("| %s", s); return 1; }
int sim_fputc(int c, void *) { return c; }
int sim_fflush(void *) { return 0; }
void sim_perror(const char *s) { if (tracing()) log("| %s: %s", s, strerror(errno)); }
void *sim_fopen(const char *path, const char *mode) {
    syscall_point(95, PC); std::string *d = new std::string; if (mode[0] != 'r') { errno = EACCES; return nullptr; }
    if (!fs_get(path, *d)) { errno = ENOENT; return nullptr; } struct F { std::string *d; size_t p; }; return new F{d, 0};
}
size_t sim_fread(void *b, size_t sz, size_t n, void *fp) { struct F { std::string *d; size_t p; }; F *f = (F *)fp; size_t want = sz * n, k = std::min(want, f->d->size() - f->p); chk(b, k, true, PC); memcpy(b, f->d->data() + f->p, k); f->p += k; return sz ? k / sz : 0; }
size_t sim_fwrite(const void *b, size_t sz, size_t n, void *) { if (tracing()) log("| %.*s", (int)std::min<size_t>(sz * n, 300), (const char *)b); return n; }
int sim_fclose(void *) { return 0; }
void *sim_setmntent(const char *, const char *) { return nullptr; }
void *sim_getmntent(void *) { return nullptr; }
int sim_endmntent(void *) { return 1; }
void sim_abort() { char key[160]; snprintf(key, sizeof key, "abort:%s", sym_of(PC)); violation_pc(key, PC, "%s calls abort()", sym_of(PC)); }
void sim___assert_fail(const char *e, const char *file, unsigned line, const char *fn) {
    char key[180]; const char *s = sym_of(PC); snprintf(key, sizeof key, "assert:%s:%.80s", s, e); const char *b = strrchr(file, '/');
    violation_pc(key, PC, "internal check failed in %s (%s:%u): %s", fn, b ? b + 1 : file, line, e);
}
void sim___assert(const char *e, const char *file, int line) { sim___assert_fail(e, file, line, "?"); }
void sim_exit(int c) { violation_pc("exit", PC, "%s calls exit(%d)", sym_of(PC), c); }
void sim___stack_chk_fail() { violation_pc("mem:stack-smashed", PC, "stack buffer overrun in %s", sym_of(PC)); }
void sim_srand(unsigned s) { g_randlib = s; }
int sim_rand() { g_randlib = g_randlib * 6364136223846793005ULL + 1442695040888963407ULL; return (g_randlib >> 33) & 0x7fffffff; }
long sim_random() { return sim_rand(); }
void sim_srandom(unsigned s) { g_randlib = s; }
int sim_getpagesize() { return 4096; }
long sim_sysconf(int n) { if (n == _SC_NPROCESSORS_ONLN || n == _SC_NPROCESSORS_CONF) return 4; if (n == _SC_PAGESIZE) return 4096; return sysconf(n); }
int sim_getpid() { return 4242; }
int sim_sched_yield() { sync_point(100, PC); yield(); return 0; }
// ------------------------------------------------------------------ time
int sim_gettimeofday(struct timeval *tv, void *) { g_now += 20; i64 w = wall_ns(); if (tv) { tv->tv_sec = w / SEC; tv->tv_usec = w % SEC / 1000; } return 0; }
time_t sim_time(time_t *t) { i64 w = wall_ns() / SEC; if (t) *t = w; return w; }
int sim_clock_gettime(int id, struct timespec *ts) { g_now += 20; bool mono = id == CLOCK_MONOTONIC || id == CLOCK_MONOTONIC_COARSE || id == CLOCK_MONOTONIC_RAW || id == CLOCK_BOOTTIME; i64 w = mono ? g_now + 5000 * SEC : wall_ns(); ts->tv_sec = w / SEC; ts->tv_nsec = w % SEC; return 0; }
int sim_usleep(useconds_t us) { syscall_point(110, PC); sleep_ns(us * 1000LL); return 0; }
unsigned sim_sleep(unsigned s) { syscall_point(110, PC); sleep_ns(s * SEC); return 0; }
int sim_nanosleep(const struct timespec *t, struct timespec *) { syscall_point(110, PC); sleep_ns(t->tv_sec * SEC + t->tv_nsec); return 0; }
int sim_clock_nanosleep(int, int flags, const struct timespec *t, struct timespec *) { syscall_point(110, PC); i64 d = t->tv_sec * SEC + t->tv_nsec; if (flags & TIMER_ABSTIME) d -= g_now + 5000 * SEC; if (d > 0) sleep_ns(d); return 0; }
// ------------------------------------------------------------------ threads
unsigned long sim_pthread_self() { return g_cur ? g_cur->id + 0x1000 : 0xfff; }
int sim_pthread_equal(unsigned long a, unsigned long b) { return a == b; }
int sim_pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a) { chk(m, sizeof *m, true, PC); memset((void *)m, 0, sizeof *m); ((Mx *)m)->magic = MXMAGIC; if (a) ((Mx *)m)->type = *(const int *)a; return 0; }
int sim_pthread_mutexattr_init(pthread_mutexattr_t *a) { memset((void *)a, 0, sizeof *a); return 0; }
int sim_pthread_mutexattr_settype(pthread_mutexattr_t *a, int t) { *(int *)a = t; return 0; }
int sim_pthread_mutexattr_destroy(pthread_mutexattr_t *) { return 0; }
int sim_pthread_mutex_destroy(pthread_mutex_t *m) { Mx *x = mx(m, PC); if (x->owner) { char key[160]; snprintf(key, sizeof key, "mutex:destroy-locked:%s", sym_of(PC)); violation_pc(key, PC, "%s destroys a mutex that is locked", sym_of(PC)); } x->magic = 0xdeadbeef; x->owner = 77; return 0; }
int sim_pthread_mutex_lock(pthread_mutex_t *m) { if (!g_active || !g_cur) return 0; sync_point(120, PC); mlock(m, PC); return 0; }
int sim_pthread_mutex_trylock(pthread_mutex_t *m) { sync_point(121, PC); Mx *x = mx(m, PC); if (x->owner) { if (x->owner == self() + 1 && x->type == PTHREAD_MUTEX_RECURSIVE) { x->count++; return 0; } return EBUSY; } x->owner = self() + 1; x->count = 1; return 0; }
int sim_pthread_mutex_unlock(pthread_mutex_t *m) { if (!g_active || !g_cur) return 0; munlock(m, PC); sync_point(122, PC); return 0; }
int sim_pthread_cond_init(pthread_cond_t *c, const pthread_condattr_t *) { chk(c, sizeof *c, true, PC); memset((void *)c, 0, sizeof *c); ((Cv *)c)->magic = CVMAGIC; return 0; }
int sim_pthread_condattr_init(pthread_condattr_t *) { return 0; }
int sim_pthread_condattr_setclock(pthread_condattr_t *, int) { return 0; }
int sim_pthread_condattr_destroy(pthread_condattr_t *) { return 0; }
int sim_pthread_cond_destroy(pthread_cond_t *c) { Cv *x = cv(c, PC); if (x->waiters) { char key[160]; snprintf(key, sizeof key, "cond:destroy-waiters:%s", sym_of(PC)); violation_pc(key, PC, "%s destroys a condition variable with waiters", sym_of(PC)); } x->magic = 0xdeadbeef; x->pad = 99; return 0; }
int sim_pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { sync_point(123, PC); return cwait(c, m, -1, PC); }
int sim_pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *ts) { sync_point(123, PC); i64 t = ts->tv_sec * SEC + ts->tv_nsec; i64 dl = t - g_walloff; if (t < 1000000000LL * SEC) dl = t - 5000 * SEC; return cwait(c, m, std::max<i64>(dl, g_now), PC); }
int sim_pthread_cond_signal(pthread_cond_t *c) { sync_point(124, PC); cv(c, PC); wake(c, 1); return 0; }
int sim_pthread_cond_broadcast(pthread_cond_t *c) { sync_point(125, PC); cv(c, PC); wake(c, 1 << 20); return 0; }
struct Rw { u32 magic; int readers; int writer; int waitw; };
int sim_pthread_rwlock_init(pthread_rwlock_t *l, const void *) { memset((void *)l, 0, sizeof *l); return 0; }
int sim_pthread_rwlock_destroy(pthread_rwlock_t *) { return 0; }
int sim_pthread_rwlock_rdlock(pthread_rwlock_t *l) { sync_point(126, PC); Rw *r = (Rw *)l; while (r->writer) block(l, -1); r->readers++; return 0; }
int sim_pthread_rwlock_wrlock(pthread_rwlock_t *l) { sync_point(127, PC); Rw *r = (Rw *)l; while (r->writer || r->readers) block(l, -1); r->writer = self() + 1; return 0; }
int sim_pthread_rwlock_unlock(pthread_rwlock_t *l) { Rw *r = (Rw *)l; if (r->writer) r->writer = 0; else r->readers--; wake(l, 1 << 20); sync_point(128, PC); return 0; }
int sim_pthread_rwlock_tryrdlock(pthread_rwlock_t *l) { sync_point(126, PC); Rw *r = (Rw *)l; if (r->writer) return EBUSY; r->readers++; return 0; }
int sim_pthread_rwlock_trywrlock(pthread_rwlock_t *l) { sync_point(127, PC); Rw *r = (Rw *)l; if (r->writer || r->readers) return EBUSY; r->writer = self() + 1; return 0; }
int sim_pthread_spin_init(pthread_spinlock_t *l, int) { *(volatile int *)l = 0; return 0; }
int sim_pthread_spin_destroy(pthread_spinlock_t *) { return 0; }
int sim_pthread_spin_lock(pthread_spinlock_t *l) { sync_point(129, PC); volatile int *v = (volatile int *)l; while (*v) block((void *)l, -1); *v = self() + 1; return 0; }
int sim_pthread_spin_trylock(pthread_spinlock_t *l) { sync_point(129, PC); volatile int *v = (volatile int *)l; if (*v) return EBUSY; *v = self() + 1; return 0; }
int sim_pthread_spin_unlock(pthread_spinlock_t *l) { *(volatile int *)l = 0; wake((void *)l, 1 << 20); sync_point(129, PC); return 0; }
// counting semaphores: the value lives in the sem_t
int sim_sem_init(sem_t *s, int, unsigned v) { chk(s, sizeof *s, true, PC); memset((void *)s, 0, sizeof *s); *(int *)s = v; return 0; }
int sim_sem_destroy(sem_t *) { return 0; }
int sim_sem_post(sem_t *s) { sync_point(130, PC); chk(s, sizeof(int), true, PC); ++*(int *)s; wake(s, 1); return 0; }
int sim_sem_wait(sem_t *s) { sync_point(130, PC); chk(s, sizeof(int), true, PC); while (*(volatile int *)s <= 0) block(s, -1); --*(int *)s; return 0; }
int sim_sem_trywait(sem_t *s) { sync_point(130, PC); chk(s, sizeof(int), true, PC); if (*(volatile int *)s <= 0) { errno = EAGAIN; return -1; } --*(int *)s; return 0; }
int sim_sem_getvalue(sem_t *s, int *v) { *v = *(int *)s; return 0; }
int sim_sem_timedwait(sem_t *s, const struct timespec *ts) { sync_point(130, PC); chk(s, sizeof(int), true, PC); i64 dl = std::max<i64>(ts->tv_sec * SEC + ts->tv_nsec - g_walloff, g_now); while (*(volatile int *)s <= 0) { if (g_now >= dl) { errno = ETIMEDOUT; return -1; } block(s, dl); } --*(int *)s; return 0; }
struct Once { int st; };
int sim_pthread_once(pthread_once_t *o, void (*f)()) { if (*(int *)o == 0) { *(int *)o = 1; f(); } return 0; }
// keys are numbered by us; slot per simulated thread
int sim_pthread_key_create(pthread_key_t *k, void (*d)(void *)) { if (g_nkeys >= MAXKEY) return EAGAIN; g_keydtor[g_nkeys] = d; *k = g_nkeys++; return 0; }
int sim_pthread_key_delete(pthread_key_t k) { for (auto &t : g_tls) t[k] = nullptr; return 0; }
static inline void **slot(pthread_key_t k) { return &g_tls[g_cur ? g_cur->id : MAXTH][k]; }
void *sim_pthread_getspecific(pthread_key_t k) { return *slot(k); }
int sim_pthread_setspecific(pthread_key_t k, const void *v) { *slot(k) = (void *)v; return 0; }
int sim_pthread_attr_init(pthread_attr_t *a) { memset((void *)a, 0, sizeof *a); return 0; }
int sim_pthread_attr_destroy(pthread_attr_t *) { return 0; }
int sim_pthread_attr_setdetachstate(pthread_attr_t *a, int d) { *(int *)a = d; return 0; }
int sim_pthread_attr_setstacksize(pthread_attr_t *, size_t) { return 0; }
static void run_dtors() { Th *t = g_cur; for (int i = 0; i < g_nkeys; i++) { void *v = g_tls[t->id][i]; g_tls[t->id][i] = nullptr; if (v && g_keydtor[i]) { NoPreempt np; g_keydtor[i](v); } } }
int sim_pthread_create(unsigned long *out, const pthread_attr_t *a, void *(*fn)(void *), void *arg) {
    syscall_point(130, PC);
    if (g_cur && chance(F_THREAD, cfg.p_thread_fail, 1024)) { fault("thread_create_fail"); return EAGAIN; }
    static int nth; char nm[32]; snprintf(nm, sizeof nm, "T%d", ++nth);
    bool det = a && *(const int *)a == PTHREAD_CREATE_DETACHED;
    int id = spawn(nm, [fn, arg] { void *r = fn(arg); Th *t = g_cur; t->retval = r; run_dtors(); });
    if (id < 0) return EAGAIN;
    Th *t = &g_th[id]; t->pth = true; t->detached = det; t->sigmask = g_cur ? g_cur->sigmask : 0; *out = id + 0x1000;
    log("creates thread %s", nm);
    sync_point(131, PC);
    return 0;
}
int sim_pthread_join(unsigned long id, void **r) { syscall_point(132, PC); Th *t = &g_th[id - 0x1000]; while (t->st != T_DONE) block(t, -1); if (r) *r = t->retval; t->joined = true; return 0; }
int sim_pthread_detach(unsigned long id) { syscall_point(133, PC); int i = (int)(id - 0x1000); if (i >= 0 && i < g_nth) g_th[i].detached = true; return 0; }
int sim_pthread_setname_np(unsigned long, const char *) { return 0; }
int sim_pthread_setaffinity_np(unsigned long, size_t, const void *) { return 0; }
// a signal reaches a thread that does not block it: its handler (which does nothing here) consumes it
static void sig_unblocked(Th *t, int sig) { if (g_sigign[sig]) { probe("signal_handled"); return; } char key[160]; snprintf(key, sizeof key, "signal:unblocked:%s", sym_of(PC)); violation_pc(key, PC, "%s: signal %d reaches thread %s, which does not block it: the process would be killed", sym_of(PC), sig, t->name); }
int sim_pthread_sigmask(int how, const sigset_t *s, sigset_t *o) {
    syscall_point(135, PC); u64 m = g_cur->sigmask; if (o) { sigemptyset(o); for (int i = 1; i < 64; i++) if (m >> i & 1) sigaddset(o, i); }
    if (s) { u64 v = 0; for (int i = 1; i < 64; i++) if (sigismember(s, i) == 1) v |= 1ULL << i; if (how == SIG_BLOCK) m |= v; else if (how == SIG_UNBLOCK) m &= ~v; else m = v; g_cur->sigmask = m;
        for (int i = 1; i < 64; i++) if (g_cur->pending >> i & 1 && !(m >> i & 1)) { sig_unblocked(g_cur, i); g_cur->pending &= ~(1ULL << i); } } return 0;
}
int sim_sigprocmask(int how, const sigset_t *s, sigset_t *o) { return sim_pthread_sigmask(how, s, o); }
int sim_pthread_kill(unsigned long id, int sig) {
    syscall_point(133, PC); int i = (int)(id - 0x1000); if (i < 0 || i >= g_nth) return ESRCH; Th *t = &g_th[i];
    if (t->st == T_DONE || t->st == T_FREE) { char key[160]; snprintf(key, sizeof key, "thread:kill-ended:%s", sym_of(PC)); violation_pc(key, PC, "%s signals a thread that has ended", sym_of(PC)); }
    if (!sig) return 0;
    if (!(t->sigmask >> sig & 1)) { sig_unblocked(t, sig); return 0; }
    t->pending |= 1ULL << sig; wake(&t->pending, 1); return 0;
}
int sim_sigwait(const sigset_t *s, int *sig) {
    syscall_point(134, PC); Th *t = g_cur;
    for (;;) { for (int i = 1; i < 64; i++) if (sigismember(s, i) == 1 && (t->pending >> i & 1)) { t->pending &= ~(1ULL << i); *sig = i; return 0; } block(&t->pending, -1); }
}
void (*sim_signal(int s, void (*h)(int)))(int) { if (s > 0 && s < 65) g_sigign[s] = h != SIG_DFL; return SIG_DFL; }
int sim_sigaction(int s, const struct sigaction *a, struct sigaction *) { if (a && s > 0 && s < 65) g_sigign[s] = a->sa_handler != SIG_DFL; return 0; }
void *sim___cxa_thread_dummy() { return 0; }

// ------------------------------------------------------------------ what the shared libraries resolve here
ssize_t read(int fd, void *b, size_t n) { if (g_active && g_cur && fd >= 100) { NoPreempt np; return sim_read(fd, b, n); } return syscall(SYS_read, fd, b, n); }
ssize_t write(int fd, const void *b, size_t n) { if (g_active && g_cur && fd >= 100) { NoPreempt np; return sim_write(fd, b, n); } return syscall(SYS_write, fd, b, n); }
ssize_t recv(int fd, void *b, size_t n, int f) { if (g_active && g_cur && fd >= 100) { NoPreempt np; return sim_recv(fd, b, n, f); } return syscall(SYS_recvfrom, fd, b, n, f, 0, 0); }
ssize_t send(int fd, const void *b, size_t n, int f) { if (g_active && g_cur && fd >= 100) { NoPreempt np; return sim_send(fd, b, n, f); } return syscall(SYS_sendto, fd, b, n, f, 0, 0); }
int shutdown(int fd, int how) { if (g_active && g_cur && fd >= 100) { NoPreempt np; return sim_shutdown(fd, how); } return syscall(SYS_shutdown, fd, how); }
int setsockopt(int fd, int l, int nme, const void *v, socklen_t n) { if (g_active && g_cur && fd >= 100) { NoPreempt np; return sim_setsockopt(fd, l, nme, v, n); } return syscall(SYS_setsockopt, fd, l, nme, v, n); }
int getsockopt(int fd, int l, int nme, void *v, socklen_t *n) { if (g_active && g_cur && fd >= 100) { NoPreempt np; return sim_getsockopt(fd, l, nme, v, n); } return syscall(SYS_getsockopt, fd, l, nme, v, n); }
time_t time(time_t *t) { if (g_active) return sim_time(t); struct timespec ts; syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts); if (t) *t = ts.tv_sec; return ts.tv_sec; }
int gettimeofday(struct timeval *__restrict tv, void *__restrict tz) noexcept { if (g_active) return sim_gettimeofday(tv, tz); struct timespec ts; syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts); tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; return 0; }
int clock_gettime(clockid_t id, struct timespec *ts) noexcept { if (g_active) return sim_clock_gettime(id, ts); return syscall(SYS_clock_gettime, id, ts); }
int pthread_key_create(pthread_key_t *k, void (*d)(void *)) noexcept { return sim_pthread_key_create(k, d); }
int pthread_key_delete(pthread_key_t k) noexcept { return sim_pthread_key_delete(k); }
void *pthread_getspecific(pthread_key_t k) noexcept { return sim_pthread_getspecific(k); }
int pthread_setspecific(pthread_key_t k, const void *v) noexcept { return sim_pthread_setspecific(k, v); }
}
