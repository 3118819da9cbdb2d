// OpenSSL itself is real code; its entry points used by the library are wrapped so that the objects handed to it are tracked,
// and its random numbers come from the run's seed.
#include "core.h"
#include "kernel.h"
#include <openssl/ssl.h>
#include <openssl/err.h>
#include <openssl/rand.h>
#include <string.h>
#include <unistd.h>
#include <sys/mman.h>
#include <unordered_map>
namespace sim {
struct TlsRec { bool live; int uses; };
static std::unordered_map<const SSL *, TlsRec> *g_ssl; static int g_ssl_live; static u64 g_rs;
static u32 g_p_ssl_new;
int tls_live() { return g_ssl_live; }
void tls_fail_new(u32 p) { g_p_ssl_new = p; }
static int r_bytes(unsigned char *b, int n) { for (int i = 0; i < n; i++) { g_rs ^= g_rs << 13; g_rs ^= g_rs >> 7; g_rs ^= g_rs << 17; b[i] = (g_rs * 0x2545F4914F6CDD1DULL) >> 56; } return 1; }
static int r_status() { return 1; }
static int r_seed(const void *, int) { return 1; }
static int r_add(const void *, int, double) { return 1; }
void tls_seed(u32 s) {      // deterministic randomness from here on
    static RAND_METHOD m = {r_seed, r_bytes, nullptr, r_add, r_bytes, r_status};
    g_rs = s * 0x9E3779B97F4A7C15ULL + 88172645463325252ULL; RAND_set_rand_method(&m);
}
std::string tls_mem_file(const std::string &d) { int fd = memfd_create("pem", 0); if (fd < 0 || fd >= 100 || ::write(fd, d.data(), d.size()) != (ssize_t)d.size()) violation("internal", "memfd"); return "/proc/self/fd/" + std::to_string(fd); }
static void use_ssl(const SSL *s, const char *op, const void *pc) {
    if (!g_active || !g_ssl) return; auto i = g_ssl->find(s);
    if (i == g_ssl->end() || !i->second.live) { char k[100]; snprintf(k, sizeof k, "tls:use-after-free:%s:%s", op, sym_of(pc)); violation_pc(k, pc, "%s on a TLS session that has been freed, in %s", op, sym_of(pc)); }
}
static int note(const SSL *s, const char *op, int r, bool bad) { if (bad && g_active) { int e = errno; unsigned long q = ERR_peek_error(); log("%s returns %d: error %d, queue %s, errno %d", op, r, SSL_get_error(s, r), q ? ERR_reason_error_string(q) : "-", e); errno = e; } return r; }
}
using namespace sim;
extern "C" {
SSL *sim_SSL_new(SSL_CTX *c) {
    if (g_active && g_p_ssl_new && chance(F_MISC, g_p_ssl_new, 1024)) { fault("ssl_new_fail"); return nullptr; }
    SSL *s = SSL_new(c); if (s && g_active) { if (!g_ssl) g_ssl = new std::unordered_map<const SSL *, TlsRec>; (*g_ssl)[s] = TlsRec{true, 0}; g_ssl_live++; } return s;
}
void sim_SSL_free(SSL *s) { if (s) { use_ssl(s, "SSL_free", PC); if (g_active && g_ssl) { (*g_ssl)[s].live = false; g_ssl_live--; } } SSL_free(s); }
int sim_SSL_read(SSL *s, void *b, int n) { use_ssl(s, "SSL_read", PC); if (n > 0) chk(b, n, true, PC); sync_point(140, PC); int r = SSL_read(s, b, n); return note(s, "SSL_read", r, r <= 0); }
int sim_SSL_write(SSL *s, const void *b, int n) { use_ssl(s, "SSL_write", PC); if (n > 0) chk(b, n, false, PC); sync_point(141, PC); int r = SSL_write(s, b, n); return note(s, "SSL_write", r, r <= 0); }
int sim_SSL_read_ex(SSL *s, void *b, size_t n, size_t *r) { use_ssl(s, "SSL_read_ex", PC); chk(b, n, true, PC); chk(r, sizeof *r, true, PC); sync_point(140, PC); int v = SSL_read_ex(s, b, n, r); return note(s, "SSL_read_ex", v, v <= 0); }
int sim_SSL_write_ex(SSL *s, const void *b, size_t n, size_t *w) { use_ssl(s, "SSL_write_ex", PC); chk(b, n, false, PC); chk(w, sizeof *w, true, PC); sync_point(141, PC); int v = SSL_write_ex(s, b, n, w); return note(s, "SSL_write_ex", v, v <= 0); }
int sim_SSL_accept(SSL *s) { use_ssl(s, "SSL_accept", PC); sync_point(142, PC); int r = SSL_accept(s); return note(s, "SSL_accept", r, r <= 0); }
int sim_SSL_connect(SSL *s) { use_ssl(s, "SSL_connect", PC); sync_point(142, PC); int r = SSL_connect(s); return note(s, "SSL_connect", r, r <= 0); }
int sim_SSL_do_handshake(SSL *s) { use_ssl(s, "SSL_do_handshake", PC); sync_point(142, PC); int r = SSL_do_handshake(s); return note(s, "SSL_do_handshake", r, r <= 0); }
int sim_SSL_shutdown(SSL *s) { use_ssl(s, "SSL_shutdown", PC); sync_point(143, PC); int r = SSL_shutdown(s); return note(s, "SSL_shutdown", r, r <= 0); }
int sim_SSL_get_error(const SSL *s, int r) { use_ssl(s, "SSL_get_error", PC); return SSL_get_error(s, r); }
int sim_SSL_pending(const SSL *s) { use_ssl(s, "SSL_pending", PC); return SSL_pending(s); }
int sim_SSL_read_early_data(SSL *s, void *b, size_t n, size_t *r) { use_ssl(s, "SSL_read_early_data", PC); chk(b, n, true, PC); chk(r, sizeof *r, true, PC); int v = SSL_read_early_data(s, b, n, r); return note(s, "SSL_read_early_data", v, v == 0); }
int sim_SSL_write_early_data(SSL *s, const void *b, size_t n, size_t *w) { use_ssl(s, "SSL_write_early_data", PC); chk(b, n, false, PC); chk(w, sizeof *w, true, PC); int v = SSL_write_early_data(s, b, n, w); return note(s, "SSL_write_early_data", v, v == 0); }
}
