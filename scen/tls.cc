#include "tls.h"
static std::string pem_of(X509 *x) { BIO *b = BIO_new(BIO_s_mem()); PEM_write_bio_X509(b, x); char *p; long n = BIO_get_mem_data(b, &p); std::string s(p, n); BIO_free(b); return s; }
static std::string pem_key(EVP_PKEY *k) { BIO *b = BIO_new(BIO_s_mem()); PEM_write_bio_PrivateKey(b, k, nullptr, nullptr, 0, nullptr, nullptr); char *p; long n = BIO_get_mem_data(b, &p); std::string s(p, n); BIO_free(b); return s; }
static int g_serial = 1;
Cert *make_cert(const char *cn, Cert *iss, bool ca, i64 from_s, i64 to_s) {
    Cert *c = new Cert; c->key = EVP_EC_gen("P-256"); SIM_CHECK(c->key, "internal", "key generation"); X509 *x = c->x = X509_new(); X509_set_version(x, 2); ASN1_INTEGER_set(X509_get_serialNumber(x), g_serial++);
    time_t now = wall_ns() / SEC; X509_time_adj_ex(X509_getm_notBefore(x), 0, from_s, &now); X509_time_adj_ex(X509_getm_notAfter(x), 0, to_s, &now); X509_set_pubkey(x, c->key);
    X509_NAME *nm = X509_get_subject_name(x); X509_NAME_add_entry_by_txt(nm, "CN", MBSTRING_ASC, (const unsigned char *)cn, -1, -1, 0); X509_set_issuer_name(x, iss ? X509_get_subject_name(iss->x) : nm);
    X509_EXTENSION *e = X509V3_EXT_conf_nid(nullptr, nullptr, NID_basic_constraints, ca ? "critical,CA:TRUE" : "CA:FALSE"); X509_add_ext(x, e, -1); X509_EXTENSION_free(e);
    SIM_CHECK(X509_sign(x, iss ? iss->key : c->key, EVP_sha256()), "internal", "certificate signature"); c->pem = pem_of(x); c->keypem = pem_key(c->key); return c;
}
std::string mem_file(const std::string &d) { return tls_mem_file(d); }
SSL_CTX *server_ctx(Cert *c, const std::string &chain, const char *ca_file, void *data, bool files) {
    if (files) { std::string a = mem_file(c->pem + chain), b = mem_file(c->keypem); return kgl_ssl_ctx_new_server(a.c_str(), b.c_str(), nullptr, ca_file, data); }
    std::string a = "data:" + c->pem + chain, b = "data:" + c->keypem; kgl_ref_str_t ra = {(char *)a.c_str(), (u32)a.size(), 1}, rb = {(char *)b.c_str(), (u32)b.size(), 1};
    return kgl_ssl_ctx_new_server2(&ra, &rb, nullptr, ca_file, data);
}
bool ctx_cert(SSL_CTX *ctx, Cert *c) { return SSL_CTX_use_certificate(ctx, c->x) == 1 && SSL_CTX_use_PrivateKey(ctx, c->key) == 1; }
TlsPeer::TlsPeer(SSL_CTX *ctx, int f, bool server) : fd(f) { ssl = SSL_new(ctx); in = BIO_new(BIO_s_mem()); out = BIO_new(BIO_s_mem()); BIO_set_mem_eof_return(in, -1); SSL_set_bio(ssl, in, out); if (server) SSL_set_accept_state(ssl); else SSL_set_connect_state(ssl); }
TlsPeer::~TlsPeer() { SSL_free(ssl); }
bool TlsPeer::flush() { char *p; long n; while ((n = BIO_get_mem_data(out, &p)) > 0) { std::string s(p, n); (void)BIO_reset(out); size_t o = 0; while (o < s.size()) { size_t m = split ? std::min<size_t>(1 + P(split), s.size() - o) : s.size() - o; if (dead || !peer_send(fd, s.data() + o, m)) { dead = true; return false; } o += m; if (split && o < s.size() && P(3) == 0) sleep_ms(P(4)); } } return !dead; }
bool TlsPeer::feed() { char b[4096]; if (dead || eof) return false; ssize_t r = ::recv(fd, b, sizeof b, 0); if (r <= 0) { eof = true; if (r < 0) dead = true; BIO_set_mem_eof_return(in, 0); return false; } BIO_write(in, b, r); return true; }
int TlsPeer::retry(std::function<int()> f) { for (;;) { ERR_clear_error(); int r = f(); int e = r > 0 ? 0 : SSL_get_error(ssl, r); bool ok = flush(); if (r > 0) return r; if (e == SSL_ERROR_WANT_READ) { if (!ok && dead) return -1; if (!feed()) return -1; continue; } if (e == SSL_ERROR_WANT_WRITE) continue; return e == SSL_ERROR_ZERO_RETURN ? 0 : -1; } }
bool TlsPeer::write(const void *b, size_t n) { size_t o = 0; while (o < n) { int r = retry([&] { return SSL_write(ssl, (const char *)b + o, n - o); }); if (r <= 0) return false; o += r; if (dead) return false; } return true; }
int TlsPeer::read(void *b, size_t n) { return retry([&] { return SSL_read(ssl, b, n); }); }
