// Network helpers shared by the scenarios: servers of the library, pattern checked byte pipes, scripted peers.
#pragma once
#include "common.h"
#include <sys/socket.h>
#include <sys/uio.h>
#include <unistd.h>
// ------------------------------------------------------------------ a server of the library (accept callback)
struct Srv {
    kserver *s = nullptr; int port = 0; std::function<void(kconnection *)> on; int accepted = 0, freed = 0; bool closed = false, bare = false;   // bare: no opaque data (one server of a run at most)
    bool bind(const char *ip, int port, kgl_ssl_ctx *ssl = nullptr);
    bool open(int flag = 0, result_callback cb = nullptr);   // any thread
    void close() { closed = true; kserver_close(s); }
    void release() { kserver_release(s); }
};
Srv *srv_of(kconnection *c);
// ------------------------------------------------------------------ pattern pipes
struct Pipe { u32 seed = 0; u64 total = 0, promised = 0, sent = 0, rcvd = 0; bool eof = false; std::string name;
    void got(const void *b, i64 n); };            // bytes received
void fill_conn_ctx(Pipe &p);
// fiber side.  style bits: 1 vectored, 2 *_full calls, 4 pauses
bool pipe_write(kconnection *c, Pipe *p, u32 chunk, u32 style, u64 until = ~0ULL);
bool pipe_read(kconnection *c, Pipe *p, u32 chunk, u32 style, u64 until = ~0ULL);   // until total; false: error/eof
void expect_eof(kconnection *c, Pipe *p, const char *key);
int conn_open(kconnection **c, sockaddr_i *a);    // fiber: new connection + connect, retried when the error was injected by the simulated kernel
std::string any_host(const char *path);            // loopback over IPv4, IPv6 or a unix socket
kconnection *conn_new(const std::string &host, int port);   // a connection to host, by address or by address list
int conn_open(kconnection **c, const std::string &host, int port);
sockaddr_i loop_addr(int port);
int peer_listen_any(int *port);
// ------------------------------------------------------------------ one bidirectional exchange between two ends
struct Xfer {
    int id; Pipe up, down; u32 cstyle = 0, sstyle = 0, cchunk = 1, schunk = 1; bool client_closes = true; int ends_left = 2; bool done() const { return ends_left == 0; } std::string state() const;
};
void xfer_fiber_end(kconnection *c, Xfer *x, bool client);    // runs in a fiber of the connection's loop; closes the connection
void xfer_cb_end(kconnection *c, Xfer *x, bool client);       // on the connection's loop; callback style, closes the connection
void xfer_peer_end(int fd, Xfer *x, bool client);             // scripted peer thread; closes fd
bool hello_send(kconnection *c, int id); int hello_recv(kconnection *c);
