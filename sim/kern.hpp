#pragma once
#include "core.hpp"
#include <sys/socket.h>
#include <sys/types.h>
#include <sys/uio.h>
struct addrinfo; struct ifaddrs; struct pollfd; struct epoll_event;
namespace sim {
struct KStat {
    u64 bad_close = 0, disk_writes = 0, disk_reads = 0, tempfiles = 0, segments = 0, snd_full = 0, emfile = 0, probes = 0;
    bool no_v6 = false;
    u32 accept_abort = 0;
};
extern KStat g_kstat;
void remove_conf_files();
extern std::function<void(Node*, u64, const char*, size_t)> g_tap;   // bytes read on connections to g_tap_port
extern int g_tap_port;
int reset_conns(Host* h, int port);
string ip_str(u32 ip);
u32 g_rng_fault_pick(u64 n);
void arm_keepalive(const SockP& s);
int k_close(int fd);
int k_dup(int fd);
int k_epoll_create();
int k_epoll_ctl(int ep, int op, int fd, struct epoll_event* ev);
int k_epoll_wait(int ep, struct epoll_event* evs, int max, int timeout);
int k_eventfd(unsigned v, int flags);
int k_signalfd(int fd, u64 mask, int flags);
ssize_t k_read(int fd, void* buf, size_t n);
ssize_t k_write(int fd, const void* buf, size_t n);
ssize_t k_pread(int fd, void* buf, size_t n, off_t off);
ssize_t k_pwrite(int fd, const void* buf, size_t n, off_t off);
off_t k_lseek(int fd, off_t off, int wh);
int k_ftruncate(int fd, off_t len);
int k_fsync(int fd);
int k_mkostemp();
int k_open(const char* path, int flags);
int k_getaddrinfo(const char*, const char*, const struct addrinfo*, struct addrinfo**);
void k_freeaddrinfo(struct addrinfo*);
int k_getifaddrs(struct ifaddrs**);
void k_freeifaddrs(struct ifaddrs*);
ssize_t k_recv(int fd, void* buf, size_t n, int flags);
ssize_t k_sendv(int fd, const struct iovec* v, int cnt, int flags);
int k_shutdown(int fd, int how);
int k_socket(int dom, int type, int proto);
int k_bind(int fd, const struct sockaddr* sa);
int k_listen(int fd);
int k_accept(int fd, struct sockaddr* sa, socklen_t* len, int flags);
int k_getpeername(int fd, struct sockaddr* sa, socklen_t* len);
int k_setsockopt(int fd, int level, int opt, const void* v, socklen_t len);
int k_getsockopt(int fd, int level, int opt, void* v, socklen_t* len);
int k_connect(int fd, const struct sockaddr* sa);
int k_poll(struct pollfd* fds, int n, int timeout);
int k_nanosleep(u64 ns);
}
