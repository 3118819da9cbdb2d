// TLS helpers: certificates made in the run, endpoints, and a TLS peer outside the library (real OpenSSL over memory buffers).
#pragma once
#include "net.h"
#include <openssl/ssl.h>
#include <openssl/err.h>
#include <openssl/x509v3.h>
#include <openssl/pem.h>
struct Cert { EVP_PKEY *key = nullptr; X509 *x = nullptr; std::string pem, keypem; };
Cert *make_cert(const char *cn, Cert *issuer, bool ca, i64 from_s = -86400, i64 to_s = 86400 * 365);
std::string mem_file(const std::string &data);                // a path libcrypto can open
SSL_CTX *server_ctx(Cert *c, const std::string &chain, const char *ca_file, void *data, bool files = false);
bool ctx_cert(SSL_CTX *ctx, Cert *c);                          // give a client context a certificate
// a TLS end of a scripted peer thread
struct TlsPeer {
    SSL *ssl; int fd; BIO *in, *out; bool dead = false, eof = false; u32 split = 0;
    TlsPeer(SSL_CTX *ctx, int fd, bool server);
    ~TlsPeer();
    bool flush();                 // send what OpenSSL produced
    bool feed();                  // wait for bytes and hand them to OpenSSL; false at the end of the connection
    int retry(std::function<int()> f);   // run an OpenSSL operation to its end
    bool handshake() { return retry([&] { return SSL_do_handshake(ssl); }) == 1; }
    bool write(const void *b, size_t n); int read(void *b, size_t n);
};
