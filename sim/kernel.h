// Simulated kernel: control interface for scenarios and peers (the objects themselves live in kernel.cc).
#pragma once
#include "sim.h"
#include <string>
namespace sim {
enum HostMode { HOST_OK = 0, HOST_BLACKHOLE, HOST_UNREACH, HOST_REFUSE };
void net_host(const char *ip, int mode);        // how packets to and from this host are treated from now on
int net_host_mode(const char *ip);
// files
void fs_put(const char *path, const std::string &data);
bool fs_get(const char *path, std::string &out);
bool fs_exists(const char *path);
void fs_capacity(i64 bytes);                    // total bytes of file data that fit; -1 unlimited
void fs_no_direct(bool on);                     // file system refuses O_DIRECT
void fs_bad_range(const char *path, i64 from, i64 to); // transfers touching [from,to) fail with EIO
int aio_in_flight();
struct AioRec { int submits, completes; i64 last; };   // of one open file: operations submitted, completed, and the kernel's result for the last one
AioRec aio_rec(int fd);
int epoll_ctl_fail_self(int n);               // the next n socket registrations by the calling simulated thread fail; returns how many of the earlier ones did not happen
int udp_recv_errors(int fd);                   // receive errors injected into the socket
u64 udp_errors_self();                        // send errors injected into the calling simulated thread
int aio_contexts();                            // native aio contexts set up and not destroyed
// name service
void dns_set(const char *name, const std::vector<std::string> &ips);  // empty: name does not exist
int dns_calls(const char *name);                // resolver calls started for the name
int dns_running();
// TLS: sessions alive, failing SSL_new (num/1024), deterministic randomness
int tls_live(); void tls_fail_new(u32 p); void tls_seed(u32 s); std::string tls_mem_file(const std::string &data);
// sockets
struct SockInfo { bool exists; int kind; bool listening; bool established, was_established, reset; size_t rcv, snd; int acceptq; };
SockInfo sock_info(int fd);
int fd_limit(int n);                            // limit on the number of descriptors open in the library (EMFILE beyond); 0 none
int lib_open_fds();
u64 tcp_established();                          // connections that reached the accept queue so far
// sends exactly these bytes in segments chosen by the run (scripted peers); blocking
bool peer_send(int fd, const void *buf, size_t n);
bool peer_recv_exact(int fd, void *buf, size_t n);
int peer_connect(const char *ip, int port, bool nonblock = false);
int peer_listen(const char *ip, int port, int backlog, int *port_out = nullptr);
void peer_close_rst(int fd);
void peer_adopt(int tid);                        // this thread may use the descriptors of that peer thread
enum { KIND_TCP = 1, KIND_UDP, KIND_EVENTFD, KIND_EPOLL, KIND_FILE };
void syscall_point(int kind, const void *pc);
std::string fd_owner_desc(int fd);
int open_fds_by(int tid);
}
