// Simulated kernel: descriptors, epoll, TCP, disk, clocks, hosts.
#include "kern.hpp"
#include <arpa/inet.h>
#include <algorithm>
#include <dlfcn.h>
#include <fcntl.h>
#include <ifaddrs.h>
#include <link.h>
#include <netdb.h>
#include <netinet/tcp.h>
#include <poll.h>
#include <signal.h>
#include <sys/epoll.h>
#include <sys/eventfd.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/signalfd.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <unistd.h>

namespace sim {

std::vector<std::unique_ptr<Host>> g_hosts;
int g_vip_owner = -1;
u32 g_vip = 0x0a000064;   // 10.0.0.100
NodeCb g_on_node_exit;
std::vector<Module> g_modules;
NetCfg g_net;
static std::set<std::pair<u32, u32>> g_cuts;
static u64 g_sockid = 0;
static int g_ephem = 20000;
KStat g_kstat;

// ------------------------------------------------------------- objects
void Obj::notify(u32 mask) {
    for (auto& e : eps) {
        Epoll* ep = e.first;
        auto it = ep->items.find(e.second);
        if (it == ep->items.end() || it->second.o != this) continue;
        if (!((it->second.events | EPOLLERR | EPOLLHUP) & mask)) continue;
        if (!it->second.ready) { it->second.ready = true; ep->ready.push_back(e.second); }
        for (Thread* t : ep->waiters) wake(t);
    }
    if (!dynamic_cast<Epoll*>(this)) for (Thread* t : waiters) wake(t);
}
u32 Epoll::poll_mask() { return ready.empty() ? 0 : EPOLLIN; }
u32 EventFd::poll_mask() { return (v ? EPOLLIN : 0) | EPOLLOUT; }
u32 SignalFd::poll_mask() {
    for (int s : node->sigpending) if (mask >> (s - 1) & 1) return EPOLLIN;
    return 0;
}
struct FileObj : Obj {
    string data; u64 pos = 0; Host* host = nullptr; bool append = false;
    u32 poll_mask() override { return EPOLLIN | EPOLLOUT; }
    void on_last_close() override { host->disk.used -= std::min<u64>(host->disk.used, data.size()); data.clear(); data.shrink_to_fit(); }
};

static Node* cn() { return tls_self->node; }

static int alloc_fd(Node* n, std::shared_ptr<Obj> o, Fd::K k, bool nb) {
    int lim = n->fd_limit;
    for (int i = 3; i < lim; ++i) {
        if ((int)n->fds.size() <= i) n->fds.resize(i + 1);
        if (n->fds[i].k == Fd::NONE) {
            n->fds[i].k = k; n->fds[i].o = o; n->fds[i].nonblock = nb;
            o->node = n; ++o->refs;
            u64 open = 0; for (auto& f : n->fds) if (f.k != Fd::NONE) ++open;
            if (open > n->nfd_peak) n->nfd_peak = open;
            return i;
        }
    }
    return -1;
}
static Fd* getfd(int fd) {
    Node* n = cn();
    if (fd < 0 || fd >= (int)n->fds.size() || n->fds[fd].k == Fd::NONE) return nullptr;
    return &n->fds[fd];
}
template<class T> static T* as(int fd, Fd::K k) {
    Fd* f = getfd(fd);
    if (!f || f->k != k) return nullptr;
    return static_cast<T*>(f->o.get());
}
int node_open_fds(Node* n) {
    int c = 0;
    for (auto& f : n->fds) if (f.k != Fd::NONE) ++c;
    return c;
}
static void do_close(Node* n, int fd) {
    Fd f = n->fds[fd];
    n->fds[fd] = Fd();
    Obj* o = f.o.get();
    // drop registrations made through this descriptor when the object goes away
    if (--o->refs == 0) {
        for (auto& e : o->eps) {
            auto it = e.first->items.find(e.second);
            if (it != e.first->items.end() && it->second.o == o) {
                e.first->items.erase(it);
                auto& r = e.first->ready;
                r.erase(std::remove(r.begin(), r.end(), e.second), r.end());
            }
        }
        o->eps.clear();
        if (Epoll* ep = dynamic_cast<Epoll*>(o)) {
            for (auto& i : ep->items) {
                auto& v = i.second.o->eps;
                v.erase(std::remove_if(v.begin(), v.end(), [&](auto& x) { return x.first == ep; }), v.end());
            }
            ep->items.clear();
        }
        o->on_last_close();
    }
}

int k_close(int fd) {
    point('c', nullptr);
    Guard g;
    if (!getfd(fd)) {
        g_kstat.bad_close++;
        g.err(EBADF); return -1;
    }
    logf("%s close fd %d", cn()->name.c_str(), fd);
    do_close(cn(), fd);
    return 0;
}
int k_dup(int fd) {
    Guard g;
    if (fd == 2 || fd == 1 || fd == 0) {
        auto o = std::make_shared<FileObj>(); o->host = cn()->host;
        return alloc_fd(cn(), o, Fd::FILE, false);
    }
    Fd* f = getfd(fd); if (!f) { g.err(EBADF); return -1; }
    int r = alloc_fd(cn(), f->o, f->k, f->nonblock);
    if (r < 0) g.err(EMFILE);
    return r;
}
int k_epoll_create() {
    Guard g;
    int r = alloc_fd(cn(), std::make_shared<Epoll>(), Fd::EPOLL, false);
    if (r < 0) g.err(EMFILE);
    return r;
}
int k_epoll_ctl(int ep, int op, int fd, struct epoll_event* ev) {
    point('s', nullptr);
    Guard g;
    Epoll* e = as<Epoll>(ep, Fd::EPOLL);
    Fd* f = getfd(fd);
    if (!e || !f) { g.err(EBADF); return -1; }
    auto it = e->items.find(fd);
    if (op == EPOLL_CTL_ADD) {
        if (it != e->items.end()) { g.err(EEXIST); return -1; }
        e->items[fd] = Epi{fd, ev->events, ev->data.u64, f->o.get(), false};
        f->o->eps.push_back({e, fd});
    } else if (op == EPOLL_CTL_MOD) {
        if (it == e->items.end()) { g.err(ENOENT); return -1; }
        it->second.events = ev->events; it->second.data = ev->data.u64;
    } else {
        if (it == e->items.end()) { g.err(ENOENT); return -1; }
        auto& v = f->o->eps;
        v.erase(std::remove(v.begin(), v.end(), std::make_pair(e, fd)), v.end());
        e->ready.erase(std::remove(e->ready.begin(), e->ready.end(), fd), e->ready.end());
        e->items.erase(it);
        return 0;
    }
    Epi& i = e->items[fd];
    if (f->o->poll_mask() & (i.events | EPOLLERR | EPOLLHUP))
        if (!i.ready) { i.ready = true; e->ready.push_back(fd); for (Thread* t : e->waiters) wake(t); }
    return 0;
}
int k_epoll_wait(int ep, struct epoll_event* evs, int max, int timeout) {
    point('w', nullptr);
    Guard g;
    Thread* t = tls_self;
    Epoll* e = as<Epoll>(ep, Fd::EPOLL);
    if (!e) { g.err(EBADF); return -1; }
    if (timeout == 0) { if (++t->poll0 > 4) t->yield = true; point('w', nullptr); t->yield = false; }
    else t->poll0 = 0;
    u64 dl = timeout < 0 ? NEVER : g_now + (u64)timeout * MSEC;
    for (;;) {
        int n = 0;
        std::deque<int> keep;
        while (!e->ready.empty() && n < max) {
            int fd = e->ready.front(); e->ready.pop_front();
            auto it = e->items.find(fd);
            if (it == e->items.end()) continue;
            it->second.ready = false;
            u32 m = it->second.o->poll_mask() & (it->second.events | EPOLLERR | EPOLLHUP);
            if (!m) continue;
            evs[n].events = m; evs[n].data.u64 = it->second.data; ++n;
            if (!(it->second.events & EPOLLET)) { it->second.ready = true; keep.push_back(fd); }
        }
        for (int fd : keep) e->ready.push_back(fd);
        if (n || timeout == 0) return n;
        e->waiters.push_back(t);
        bool to = block("epoll_wait", e, dl);
        e->waiters.erase(std::remove(e->waiters.begin(), e->waiters.end(), t), e->waiters.end());
        if (to) { if (e->ready.empty()) return 0; timeout = 0; }      // a last look, as the kernel has
    }
}
int k_eventfd(unsigned v, int flags) {
    Guard g;
    auto o = std::make_shared<EventFd>(); o->v = v; o->sema = flags & EFD_SEMAPHORE;
    int r = alloc_fd(cn(), o, Fd::EVENT, flags & EFD_NONBLOCK);
    if (r < 0) g.err(EMFILE);
    return r;
}
int k_signalfd(int fd, u64 mask, int flags) {
    Guard g;
    auto o = std::make_shared<SignalFd>(); o->mask = mask;
    int r = alloc_fd(cn(), o, Fd::SIGNAL, flags & SFD_NONBLOCK);
    if (r < 0) g.err(EMFILE);
    return r;
}

// ------------------------------------------------------------- read / write
static ssize_t sock_recv(Guard& g, Sock* s, char* buf, size_t n, bool nb);
static ssize_t sock_send(Guard& g, Sock* s, const struct iovec* iov, int cnt, bool nb);

ssize_t k_read(int fd, void* buf, size_t n) {
    point('r', nullptr);
    Guard g;
    Fd* f = getfd(fd);
    if (!f) { g.err(EBADF); return -1; }
    Thread* t = tls_self;
    if (f->k == Fd::EVENT) {
        EventFd* e = static_cast<EventFd*>(f->o.get());
        while (e->v == 0) {
            if (f->nonblock) { g.err(EAGAIN); return -1; }
            auto keep = f->o;
            e->waiters.push_back(t);
            block("read(eventfd)", e);
            e->waiters.erase(std::remove(e->waiters.begin(), e->waiters.end(), t), e->waiters.end());
        }
        u64 v = e->sema ? 1 : e->v;
        e->v -= v;
        std::memcpy(buf, &v, 8);
        t->vc.join(e->vc);
        e->notify(EPOLLOUT);
        return 8;
    }
    if (f->k == Fd::SIGNAL) {
        SignalFd* s = static_cast<SignalFd*>(f->o.get());
        auto& p = s->node->sigpending;
        for (auto it = p.begin(); it != p.end(); ++it)
            if (s->mask >> (*it - 1) & 1) {
                struct signalfd_siginfo si; std::memset(&si, 0, sizeof si);
                si.ssi_signo = *it; p.erase(it);
                std::memcpy(buf, &si, std::min(n, sizeof si));
                return std::min(n, sizeof si);
            }
        if (f->nonblock) { g.err(EAGAIN); return -1; }
        g.err(EAGAIN); return -1;
    }
    if (f->k == Fd::FILE) {
        FileObj* o = static_cast<FileObj*>(f->o.get());
        if (o->pos >= o->data.size()) return 0;
        size_t k = std::min(n, o->data.size() - o->pos);
        std::memcpy(buf, o->data.data() + o->pos, k); o->pos += k;
        return k;
    }
    if (f->k == Fd::SOCK) return sock_recv(g, static_cast<Sock*>(f->o.get()), (char*)buf, n, f->nonblock);
    g.err(EINVAL); return -1;
}

// Writes to a file at a position; the number of bytes written or -1.
static ssize_t file_write(Guard& g, FileObj* o, const void* buf, size_t n, u64 pos) {
    DiskCfg& d = o->host->disk;
    if (fault("disk-write-EIO", d.err_write, 4096)) { g.err(EIO); return -1; }
    if (fault("disk-write-EINTR", d.err_eintr, 4096)) { g.err(EINTR); return -1; }
    size_t k = n;
    if (n > 1 && fault("disk-short-write", d.short_num, 256)) k = 1 + g_rng_fault_pick(n - 1);
    u64 end = pos + k;
    u64 grow = end > o->data.size() ? end - o->data.size() : 0;
    if (grow && d.used + grow > d.capacity) {
        u64 room = d.capacity > d.used ? d.capacity - d.used : 0;
        count_fault("disk-full");
        if (room == 0 || k - grow + room == 0) { g.err(ENOSPC); return -1; }
        k = k - grow + room; grow = room; end = pos + k;
    }
    d.used += grow;
    if (end > o->data.size()) o->data.resize(end);
    std::memcpy(&o->data[pos], buf, k);
    g_kstat.disk_writes++;
    return k;
}
ssize_t k_write(int fd, const void* buf, size_t n) {
    if (fd == 1 || fd == 2) {
        Guard g;
        Node* nd = cn();
        if (nd->log.size() < (1u << 20)) nd->log.append((const char*)buf, n);
        if (g_cfg.verbose > 1) { string s((const char*)buf, n); while (!s.empty() && s.back() == '\n') s.pop_back(); logf("%s LOG %s", nd->name.c_str(), s.c_str()); }
        return n;
    }
    point('W', nullptr);
    Guard g;
    Fd* f = getfd(fd);
    if (!f) { g.err(EBADF); return -1; }
    Thread* t = tls_self;
    if (f->k == Fd::EVENT) {
        EventFd* e = static_cast<EventFd*>(f->o.get());
        u64 v; std::memcpy(&v, buf, 8);
        e->v += v;
        e->vc.join(t->vc); ++t->vc.c[t->slot];
        e->notify(EPOLLIN);
        return 8;
    }
    if (f->k == Fd::FILE) {
        FileObj* o = static_cast<FileObj*>(f->o.get());
        ssize_t k = file_write(g, o, buf, n, o->pos);
        if (k > 0) o->pos += k;
        return k;
    }
    if (f->k == Fd::SOCK) {
        struct iovec v{(void*)buf, n};
        return sock_send(g, static_cast<Sock*>(f->o.get()), &v, 1, f->nonblock);
    }
    g.err(EINVAL); return -1;
}
ssize_t k_pwrite(int fd, const void* buf, size_t n, off_t off) {
    point('W', nullptr);
    Guard g;
    FileObj* o = as<FileObj>(fd, Fd::FILE);
    if (!o) { g.err(getfd(fd) ? ESPIPE : EBADF); return -1; }
    if (off < 0) { g.err(EINVAL); return -1; }
    return file_write(g, o, buf, n, off);
}
ssize_t k_pread(int fd, void* buf, size_t n, off_t off) {
    point('r', nullptr);
    Guard g;
    FileObj* o = as<FileObj>(fd, Fd::FILE);
    if (!o) { g.err(EBADF); return -1; }
    DiskCfg& d = o->host->disk;
    if (fault("disk-read-EIO", d.err_read, 4096)) { g.err(EIO); return -1; }
    if (fault("disk-read-EINTR", d.err_eintr, 4096)) { g.err(EINTR); return -1; }
    if ((u64)off >= o->data.size()) return 0;
    size_t k = std::min<u64>(n, o->data.size() - off);
    if (k > 1 && fault("disk-short-read", d.short_num, 256)) k = 1 + g_rng_fault_pick(k - 1);
    std::memcpy(buf, o->data.data() + off, k);
    g_kstat.disk_reads++;
    return k;
}
off_t k_lseek(int fd, off_t off, int wh) {
    point('r', nullptr);
    Guard g;
    FileObj* o = as<FileObj>(fd, Fd::FILE);
    if (!o) { g.err(getfd(fd) ? ESPIPE : EBADF); return -1; }
    if (fault("disk-lseek-EIO", o->host->disk.err_lseek, 4096)) { g.err(EIO); return -1; }
    i64 b = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? (i64)o->pos : (i64)o->data.size();
    o->pos = b + off;
    return o->pos;
}
int k_ftruncate(int fd, off_t len) {
    point('r', nullptr);
    Guard g;
    FileObj* o = as<FileObj>(fd, Fd::FILE);
    if (!o) { g.err(EBADF); return -1; }
    if (fault("disk-truncate-EIO", o->host->disk.err_trunc, 4096)) { g.err(EIO); return -1; }
    u64 old = o->data.size();
    o->data.resize(len);
    if ((u64)len < old) o->host->disk.used -= std::min<u64>(o->host->disk.used, old - len); else o->host->disk.used += len - old;
    return 0;
}
int k_fsync(int fd) {
    point('r', nullptr);
    Guard g;
    FileObj* o = as<FileObj>(fd, Fd::FILE);
    if (!o) { g.err(EBADF); return -1; }
    if (fault("disk-sync-EIO", o->host->disk.err_sync, 4096)) { g.err(EIO); return -1; }
    return 0;
}
int k_mkostemp() {
    point('r', nullptr);
    Guard g;
    Host* h = cn()->host;
    if (fault("disk-open-EIO", h->disk.err_open, 4096)) { g.err(EIO); return -1; }
    auto o = std::make_shared<FileObj>(); o->host = h;
    int r = alloc_fd(cn(), o, Fd::FILE, false);
    if (r < 0) { g.err(EMFILE); count_fault("EMFILE-tempfile"); g_kstat.emfile++; }
    else g_kstat.tempfiles++;
    return r;
}
int k_open(const char* path, int flags) {
    point('r', nullptr);
    Guard g;
    (void)path; (void)flags;
    auto o = std::make_shared<FileObj>(); o->host = cn()->host;
    int r = alloc_fd(cn(), o, Fd::FILE, false);
    if (r < 0) g.err(EMFILE);
    return r;
}

// ------------------------------------------------------------- addresses
static u32 ip_of(const char* s) {
    struct in_addr a;
    if (inet_pton(AF_INET, s, &a) == 1) return ntohl(a.s_addr);
    return 0;
}
string ip_str(u32 ip) {
    char b[20]; snprintf(b, sizeof b, "%u.%u.%u.%u", ip >> 24, ip >> 16 & 255, ip >> 8 & 255, ip & 255);
    return b;
}
int k_getaddrinfo(const char* node, const char* serv, const struct addrinfo* hint, struct addrinfo** res) {
    point('r', nullptr);
    Guard g;
    int fam = hint ? hint->ai_family : AF_UNSPEC;
    int port = serv ? atoi(serv) : 0;
    u32 ip = 0;
    bool v6 = false;
    struct in6_addr a6{};
    if (node) {
        ip = ip_of(node);
        if (!ip) {
            if (inet_pton(AF_INET6, node, &a6) == 1) v6 = true;
            else return EAI_NONAME;
        }
        if (v6 && fam == AF_INET) return EAI_ADDRFAMILY;
        if (!v6 && fam == AF_INET6) return EAI_ADDRFAMILY;
    } else v6 = fam == AF_INET6;
    struct Blk { struct addrinfo ai; struct sockaddr_storage ss; };
    Blk* b = (Blk*)calloc(1, sizeof(Blk));
    b->ai.ai_family = v6 ? AF_INET6 : AF_INET;
    b->ai.ai_socktype = SOCK_STREAM;
    b->ai.ai_protocol = IPPROTO_TCP;
    b->ai.ai_addr = (struct sockaddr*)&b->ss;
    if (v6) {
        auto* s = (struct sockaddr_in6*)&b->ss;
        s->sin6_family = AF_INET6; s->sin6_port = htons(port); s->sin6_addr = a6;
        b->ai.ai_addrlen = sizeof *s;
    } else {
        auto* s = (struct sockaddr_in*)&b->ss;
        s->sin_family = AF_INET; s->sin_port = htons(port); s->sin_addr.s_addr = htonl(ip);
        b->ai.ai_addrlen = sizeof *s;
    }
    *res = &b->ai;
    return 0;
}
void k_freeaddrinfo(struct addrinfo* r) { Guard g; free(r); }
int k_getifaddrs(struct ifaddrs** out) {
    point('r', nullptr);
    Guard g;
    Host* h = cn()->host;
    if (fault("getifaddrs-fail", 0, 1)) { g.err(ENOMEM); return -1; }
    {   // it makes a netlink socket
        Node* n = cn(); u64 open = 3;
        for (size_t i = 3; i < n->fds.size(); ++i) if (n->fds[i].k != Fd::NONE) ++open;
        if ((int)open >= n->fd_limit) { g.err(EMFILE); count_fault("EMFILE-getifaddrs"); g_kstat.emfile++; return -1; }
    }
    std::vector<u32> ips{0x7f000001u, h->ip};
    if (g_vip_owner == h->id) ips.push_back(g_vip);
    struct Blk { struct ifaddrs ia; struct sockaddr_storage ss; };
    Blk* b = (Blk*)calloc(ips.size() + 1, sizeof(Blk));
    // an interface without an address comes first
    b[0].ia.ifa_name = (char*)"tun0"; b[0].ia.ifa_addr = nullptr; b[0].ia.ifa_next = &b[1].ia;
    for (size_t i = 0; i < ips.size(); ++i) {
        Blk& x = b[i + 1];
        x.ia.ifa_name = (char*)"eth0";
        auto* s = (struct sockaddr_in*)&x.ss;
        s->sin_family = AF_INET; s->sin_addr.s_addr = htonl(ips[i]);
        x.ia.ifa_addr = (struct sockaddr*)s;
        x.ia.ifa_next = i + 1 < ips.size() ? &b[i + 2].ia : nullptr;
    }
    *out = &b[0].ia;
    return 0;
}
void k_freeifaddrs(struct ifaddrs* a) { Guard g; free(a); }

// ------------------------------------------------------------- TCP
bool is_cut(u32 a, u32 b) {
    auto grp = [](u32 ip) { return ip; };
    a = grp(a); b = grp(b);
    return g_cuts.count({a, b}) || g_cuts.count({b, a}) || g_cuts.count({a, 0}) || g_cuts.count({b, 0});
}
void cut_link(u32 a, u32 b, bool cut) {
    if (cut) { g_cuts.insert({a, b}); count_fault("partition"); }
    else if (g_cuts.erase({a, b}) + g_cuts.erase({b, a})) count_fault("heal");
    link_changed();
}
static std::vector<std::weak_ptr<Sock>> g_socks;
static Host* host_of_ip(u32 ip) {
    if (ip == g_vip) return g_vip_owner >= 0 ? g_hosts[g_vip_owner].get() : nullptr;
    for (auto& h : g_hosts) if (h->ip == ip) return h.get();
    return nullptr;
}
static u32 phys_ip(const Sock* s) { return s->host ? s->host->ip : s->ext_ip; }
// Can a segment from a reach the machine holding b right now?
bool link_up(const Sock* a, const Sock* b) {
    if (a->host && !a->host->up) return false;
    if (b->host && !b->host->up) return false;
    return !is_cut(phys_ip(a), phys_ip(b));
}
void link_changed() {
    auto v = g_socks;
    for (auto& w : v) if (auto s = w.lock()) pump(s);
}
u64 net_lat() {
    u64 l = g_net.lat_min;
    u64 span = (g_net.lat_max - g_net.lat_min) / US;
    if (span) l += (u64)decide_net((u32)span) * US;
    if (g_net.jitter && decide(C_NET, 2, [] { return (u32)(g_rng_net.below(256) < g_net.jitter); })) {
        count_fault("net-delay");
        l += (u64)decide_net((u32)(g_net.jitter_max / US)) * US;
    }
    return l;
}
static SockP new_sock() {
    auto s = std::make_shared<Sock>();
    s->id = ++g_sockid;
    s->sndbuf = g_net.sndbuf; s->rcvbuf = g_net.rcvbuf;
    s->last_rx = g_now;
    if (g_socks.size() > 64 && (g_sockid & 63) == 0)
        g_socks.erase(std::remove_if(g_socks.begin(), g_socks.end(), [](auto& w) { return w.expired(); }), g_socks.end());
    g_socks.push_back(s);
    return s;
}
u32 Sock::poll_mask() {
    u32 m = 0;
    if (st == S_LISTEN) return acceptq.empty() ? 0 : EPOLLIN | EPOLLRDNORM;
    if (st == S_NEW || st == S_BOUND) return EPOLLOUT | EPOLLHUP;
    if (err) m |= EPOLLERR;
    if (st == S_CONNECTING) return m;
    if (st == S_CLOSED) m |= EPOLLHUP | EPOLLIN | EPOLLRDHUP | EPOLLOUT;
    if (rcv_fin || rcv_shut) m |= EPOLLIN | EPOLLRDHUP;
    if ((rcv_fin || rcv_shut) && snd_shut) m |= EPOLLHUP;
    if (rqsize()) m |= EPOLLIN;
    if (st == S_EST) {
        if (snd_shut) m |= EPOLLOUT;
        else if (out.size() * 3 <= sndbuf * 2ull) m |= EPOLLOUT; else nospace = true;
    }
    return m;
}
void sock_reset_by_peer(const SockP& s, int e) {
    if (s->st == S_CLOSED) return;
    bool connecting = s->st == S_CONNECTING;
    s->st = S_CLOSED; s->reset = true;
    s->err = (s->rcv_fin && e == ECONNRESET) ? EPIPE : e;
    s->out = Dir();
    logf("sock %lu reset (%d)", s->id, e);
    if (s->ext) { if (connecting) s->ext->on_connected(false, e); else s->ext->on_reset(); }
    else s->notify(EPOLLIN | EPOLLOUT | EPOLLERR | EPOLLHUP | EPOLLRDHUP);
}
static void send_rst(const SockP& from, const SockP& to) {   // a segment that resets `to`
    if (!to) return;
    std::weak_ptr<Sock> w = to, f = from;
    Sock* fp = from.get();
    bool up = !fp || link_up(fp, to.get());
    if (!up) return;     // lost; the peer finds out by itself
    after(net_lat(), [w] { if (auto t = w.lock()) sock_reset_by_peer(t, ECONNREFUSED == t->err ? ECONNREFUSED : ECONNRESET); });
}
// A segment addressed to `to` arrives. False if it was answered by a reset.
static bool arrive(const SockP& from, const SockP& to) {
    // misrouted: the virtual address moved away from the machine
    if (to->host && to->lip == g_vip && g_vip_owner != to->host->id) {
        if (g_vip_owner >= 0 && g_hosts[g_vip_owner]->up) sock_reset_by_peer(from, ECONNRESET);
        return false;
    }
    if (to->st == S_CLOSED) { sock_reset_by_peer(from, ECONNRESET); return false; }
    to->last_rx = g_now; from->last_rx = g_now;
    return true;
}
static bool misrouted(const SockP& to) { return to->host && to->lip == g_vip && g_vip_owner != to->host->id; }
// Can a segment of the connection reach whoever answers for the address of the peer?
static bool path_up(const SockP& s, const SockP& p) {
    if (!misrouted(p)) return link_up(s.get(), p.get());
    Host* h = host_of_ip(g_vip);
    return h && h->up && !(s->host && !s->host->up) && !is_cut(phys_ip(s.get()), h->ip);
}
static bool can_push(const Sock* s) {
    if (s->out.size() == 0) return false;
    if (!s->corked || !g_net.cork) return true;
    if (s->snd_shut || s->orphan) return true;
    if (s->out.pushed) return true;
    if (s->out.size() >= 1460) return true;
    return g_now >= s->out.cork_until;
}
std::function<void(Node*, u64, const char*, size_t)> g_tap;
int g_tap_port = 11213;
static const u64 RTO_LIMIT = 924 * SEC;
static void arm_rto(const SockP& s) {
    if (s->rto_armed) return;
    s->rto_armed = true; if (g_cfg.verbose > 2) logf("sock %lu rto armed", s->id);
    s->unacked_since = g_now;
    std::weak_ptr<Sock> w = s;
    u64 mark = g_now;
    at(g_now + RTO_LIMIT, [w, mark] {
        auto s = w.lock();
        if (!s || !s->rto_armed) return;
        s->rto_armed = false; if (g_cfg.verbose > 2) logf("sock %lu rto: st %d out %zu", s->id, (int)s->st, s->out.size());
        auto p = s->peer.lock();
        if (s->st != S_EST || (!s->out.size() && !(s->out.fin && !s->out.fin_sent))) return;
        if (p && s->unacked_since > mark) { arm_rto(s); return; }
        if (p && link_up(s.get(), p.get()) && !misrouted(p) && p->rqsize() >= p->rcvbuf) { arm_rto(s); return; }  // zero window, probes answered
        count_fault("tcp-timeout");
        sock_reset_by_peer(s, ETIMEDOUT);
    });
}
void pump(const SockP& s) {
    if (s->st != S_EST || s->out.busy) return;
    auto p = s->peer.lock();
    bool data = can_push(s.get());
    bool fin = s->out.fin && !s->out.fin_sent && s->out.size() == 0;
    if (!data && !fin) {
        if (s->out.size() && s->corked) {
            std::weak_ptr<Sock> w = s;
            at(s->out.cork_until, [w] { if (auto x = w.lock()) pump(x); });
        }
        return;
    }
    if (!p) {
        Host* h = s->peer_gone ? nullptr : host_of_ip(s->rip);
        if (h && h->up && !(s->host && !s->host->up) && !is_cut(phys_ip(s.get()), h->ip)) {
            std::weak_ptr<Sock> w = s;
            after(net_lat(), [w] { if (auto x = w.lock()) sock_reset_by_peer(x, ECONNRESET); });
        } else arm_rto(s);
        return;
    }
    if (!path_up(s, p)) { arm_rto(s); return; }
    if (data && !misrouted(p) && p->st == S_EST && p->rqsize() >= p->rcvbuf) { s->out.busy = false; return; }   // window closed; reader reopens
    s->out.busy = true;
    u64 t = std::max(g_now + net_lat(), s->out.last_delivery);
    s->out.last_delivery = t;
    std::weak_ptr<Sock> w = s;
    at(t, [w] {
        auto s = w.lock();
        if (!s) return;
        s->out.busy = false;
        if (s->st != S_EST) return;
        auto p = s->peer.lock();
        if (!p || !path_up(s, p)) { pump(s); return; }
        if (!arrive(s, p)) return;
        s->rto_armed ? (void)(s->unacked_since = g_now) : (void)0;
        if (s->out.size()) {
            size_t room = p->rcvbuf > p->rqsize() ? p->rcvbuf - p->rqsize() : 0;
            size_t n = std::min<size_t>({s->out.size(), room, (size_t)g_net.seg});
            if (n > 1 && g_net.small_seg && decide(C_NET, 2, [] { return (u32)(g_rng_net.below(256) < g_net.small_seg); })) {
                size_t m = std::min<size_t>(n, decide_net(4) == 0 ? 4000 : 40);
                n = 1 + decide_net((u32)m);
                if (n > s->out.size()) n = s->out.size();
                if (n > room) n = room;
                count_fault("net-short-segment");
            }
            if (n) {
                if (p->rcv_shut && p->orphan) { sock_reset_by_peer(s, ECONNRESET); return; }
                if (p->orphan) { // nobody will read: reset
                    sock_reset_by_peer(p, ECONNRESET); sock_reset_by_peer(s, ECONNRESET); return;
                }
                if (!p->rcv_shut) { if (p->rqoff > 65536 && p->rqoff * 2 > p->rq.size()) { p->rq.erase(0, p->rqoff); p->rqoff = 0; } p->rq.append(s->out.q, s->out.off, n); }
                s->out.off += n;
                if (s->out.off == s->out.q.size()) { s->out.q.clear(); s->out.off = 0; }
                else if (s->out.off > 262144) { s->out.q.erase(0, s->out.off); s->out.off = 0; }
                s->out.pushed -= std::min(s->out.pushed, n);
                g_kstat.segments++;
                if (p->ext) { if (!p->rd_off) p->ext->on_data(); }
                else p->notify(EPOLLIN);
                if (s->st == S_EST && s->nospace && s->out.size() * 3 <= s->sndbuf * 2ull) {
                    s->nospace = false;
                    if (!s->ext) s->notify(EPOLLOUT);
                }
            }
        }
        if (s->st == S_EST && s->out.size() == 0 && s->out.fin && !s->out.fin_sent) {
            s->out.fin_sent = true;
            p->rcv_fin = true;
            if (p->ext) p->ext->on_eof();
            else p->notify(EPOLLIN | EPOLLRDHUP | (p->snd_shut ? EPOLLHUP : 0));
        }
        if (s->st == S_EST) pump(s);
    });
}
static void reopen_window(Sock* s) {   // the reader took data
    if (auto p = s->peer.lock()) pump(p);
}
static void sock_shutdown_send(const SockP& s) {
    if (s->snd_shut) return;
    s->snd_shut = true; s->out.fin = true;
    pump(s);
    if (!s->ext) s->notify(EPOLLOUT | (s->rcv_fin || s->rcv_shut ? EPOLLHUP : 0));
}
static std::map<u64, SockP> g_orphans;
void Sock::on_last_close() {
    SockP me = shared_from_this();
    if (st == S_LISTEN) {
        for (auto& c : acceptq) { if (auto p = c->peer.lock()) send_rst(c, p); c->st = S_CLOSED; }
        acceptq.clear(); st = S_CLOSED; return;
    }
    if (st != S_EST) { st = S_CLOSED; return; }
    orphan = true;
    if (rqsize() && !rcv_shut) {            // unread data: reset
        auto p = peer.lock();
        st = S_CLOSED;
        if (p) send_rst(me, p);
        return;
    }
    sock_shutdown_send(me);
    if (out.fin_sent && rcv_fin) { st = S_CLOSED; return; }
    g_orphans[id] = me;
    std::weak_ptr<Sock> w = me;
    after(60 * SEC, [w] { if (auto s = w.lock()) { g_orphans.erase(s->id); } });
}
static ssize_t sock_recv(Guard& g, Sock* s, char* buf, size_t n, bool nb) {
    SockP keep = s->shared_from_this();
    for (;;) {
        if (s->st == S_NEW || s->st == S_BOUND || s->st == S_LISTEN || s->st == S_CONNECTING) { g.err(ENOTCONN); return -1; }
        // the peer is dead and the timer is about to say so: it may do so just now
        if (s->st == S_EST && s->peer_gone && s->keepalive && !s->rto_armed && g_now - s->last_rx + 5 * SEC >= s->ka_idle + s->ka_cnt * s->ka_intvl && decide(C_NET, 2, [] { return (u32)g_rng_net.below(2); })) {
            count_fault("timeout-while-reading");
            sock_reset_by_peer(keep, ETIMEDOUT);
        }
        if (s->rqsize()) {
            size_t k = std::min(n, s->rqsize());
            std::memcpy(buf, s->rq.data() + s->rqoff, k);
            s->rqoff += k;
            if (s->rqoff == s->rq.size()) { s->rq.clear(); s->rqoff = 0; }
            reopen_window(s);
            return k;
        }
        if (s->done) return 0;
        if (s->err) { int e = s->err; s->err = 0; s->done = true; if (e == EPIPE) return 0; g.err(e); return -1; }
        if (s->rcv_shut || s->rcv_fin || s->st == S_CLOSED) return 0;
        if (nb) { g.err(EAGAIN); return -1; }
        s->waiters.push_back(tls_self);
        block("recv", s);
        s->waiters.erase(std::remove(s->waiters.begin(), s->waiters.end(), tls_self), s->waiters.end());
    }
}
static ssize_t sock_send(Guard& g, Sock* s, const struct iovec* iov, int cnt, bool nb) {
    SockP keep = s->shared_from_this();
    size_t total = 0;
    for (int i = 0; i < cnt; ++i) total += iov[i].iov_len;
    for (;;) {
        if (s->st == S_NEW || s->st == S_BOUND || s->st == S_LISTEN) { g.err(EPIPE); return -1; }
        if (s->st == S_CONNECTING) { g.err(EAGAIN); return -1; }
        if (s->err) { int e = s->err; s->err = 0; s->done = true; g.err(e); return -1; }
        if (s->snd_shut || s->st == S_CLOSED) { g.err(EPIPE); return -1; }
        size_t room = s->sndbuf > s->out.size() ? s->sndbuf - s->out.size() : 0;
        if (room == 0) {
            s->nospace = true;
            g_kstat.snd_full++;
            if (nb) { g.err(EAGAIN); return -1; }
            s->waiters.push_back(tls_self);
            block("send", s);
            s->waiters.erase(std::remove(s->waiters.begin(), s->waiters.end(), tls_self), s->waiters.end());
            continue;
        }
        size_t n = std::min(room, total), k = n;
        if (s->out.size() == 0) s->out.cork_until = g_now + 200 * MSEC;
        for (int i = 0; i < cnt && k; ++i) {
            size_t m = std::min(k, iov[i].iov_len);
            s->out.q.append((const char*)iov[i].iov_base, m); k -= m;
        }
        s->out.total += n;
        if (n < total) s->nospace = true;
        pump(keep);
        return n;
    }
}
ssize_t k_recv(int fd, void* buf, size_t n, int flags) {
    point('r', nullptr);
    Guard g;
    Fd* f = getfd(fd);
    if (!f) { g.err(EBADF); return -1; }
    if (f->k != Fd::SOCK) { g.err(ENOTSOCK); return -1; }
    Sock* s = static_cast<Sock*>(f->o.get());
    u64 sid = s->id; int rp = s->rport;
    ssize_t r = sock_recv(g, s, (char*)buf, n, f->nonblock || (flags & MSG_DONTWAIT));
    if (r > 0 && g_tap && rp == g_tap_port) g_tap(cn(), sid, (const char*)buf, r);
    return r;
}
ssize_t k_sendv(int fd, const struct iovec* v, int cnt, int flags) {
    point('W', nullptr);
    Guard g;
    Fd* f = getfd(fd);
    if (!f) { g.err(EBADF); return -1; }
    if (f->k != Fd::SOCK) { g.err(ENOTSOCK); return -1; }
    return sock_send(g, static_cast<Sock*>(f->o.get()), v, cnt, f->nonblock || (flags & MSG_DONTWAIT));
}
int k_shutdown(int fd, int how) {
    point('s', nullptr);
    Guard g;
    Sock* s = as<Sock>(fd, Fd::SOCK);
    if (!s) { g.err(getfd(fd) ? ENOTSOCK : EBADF); return -1; }
    SockP p = s->shared_from_this();
    if (s->st != S_EST) { g.err(ENOTCONN); return -1; }
    if (how == SHUT_RD || how == SHUT_RDWR) { s->rcv_shut = true; s->notify(EPOLLIN | EPOLLRDHUP | (s->snd_shut ? EPOLLHUP : 0)); }
    if (how == SHUT_WR || how == SHUT_RDWR) { sock_shutdown_send(p); s->notify(EPOLLIN | EPOLLOUT | (s->rcv_shut || s->rcv_fin ? EPOLLHUP : 0)); }
    return 0;
}
int k_socket(int dom, int type, int) {
    point('s', nullptr);
    Guard g;
    if (dom == AF_INET6 && g_kstat.no_v6) { g.err(EAFNOSUPPORT); return -1; }
    auto s = new_sock();
    s->v6 = dom == AF_INET6; s->host = cn()->host;
    int r = alloc_fd(cn(), s, Fd::SOCK, type & SOCK_NONBLOCK);
    if (r < 0) { g.err(EMFILE); g_kstat.emfile++; }
    return r;
}
int k_bind(int fd, const struct sockaddr* sa) {
    point('s', nullptr);
    Guard g;
    Sock* s = as<Sock>(fd, Fd::SOCK);
    if (!s) { g.err(EBADF); return -1; }
    if (sa->sa_family == AF_INET) { auto* a = (struct sockaddr_in*)sa; s->lip = ntohl(a->sin_addr.s_addr); s->lport = ntohs(a->sin_port); }
    else { auto* a = (struct sockaddr_in6*)sa; s->lip = 0; s->lport = ntohs(a->sin6_port); }
    Host* h = cn()->host;
    if (s->lip && s->lip != h->ip && s->lip != 0x7f000001 && !(s->lip == g_vip && (g_vip_owner == h->id || s->freebind))) { g.err(EADDRNOTAVAIL); return -1; }
    for (auto& f : cn()->fds)
        if (f.k == Fd::SOCK) { Sock* o = static_cast<Sock*>(f.o.get()); if (o != s && o->st == S_LISTEN && o->lport == s->lport && (!o->lip || !s->lip || o->lip == s->lip)) { g.err(EADDRINUSE); return -1; } }
    s->st = S_BOUND;
    return 0;
}
int k_listen(int fd) {
    point('s', nullptr);
    Guard g;
    Sock* s = as<Sock>(fd, Fd::SOCK);
    if (!s) { g.err(EBADF); return -1; }
    s->st = S_LISTEN;
    logf("%s listens on %s:%d", cn()->name.c_str(), ip_str(s->lip).c_str(), s->lport);
    return 0;
}
static void put_addr(const Sock* s, u32 ip, int port, struct sockaddr* sa, socklen_t* len) {
    if (!sa) return;
    if (s->v6) {
        struct sockaddr_in6 a{}; a.sin6_family = AF_INET6; a.sin6_port = htons(port);
        u8* b = (u8*)&a.sin6_addr; b[10] = b[11] = 0xff; u32 n = htonl(ip); std::memcpy(b + 12, &n, 4);
        std::memcpy(sa, &a, std::min<size_t>(*len, sizeof a)); *len = sizeof a;
    } else {
        struct sockaddr_in a{}; a.sin_family = AF_INET; a.sin_port = htons(port); a.sin_addr.s_addr = htonl(ip);
        std::memcpy(sa, &a, std::min<size_t>(*len, sizeof a)); *len = sizeof a;
    }
}
int k_accept(int fd, struct sockaddr* sa, socklen_t* len, int flags) {
    point('s', nullptr);
    Guard g;
    Sock* s = as<Sock>(fd, Fd::SOCK);
    if (!s) { g.err(EBADF); return -1; }
    if (s->st != S_LISTEN) { g.err(EINVAL); return -1; }
    if (s->acceptq.empty()) { g.err(EAGAIN); return -1; }
    if (fault("accept-ECONNABORTED", g_kstat.accept_abort, 256)) {
        SockP c = s->acceptq.front(); s->acceptq.pop_front();
        if (auto p = c->peer.lock()) send_rst(c, p);
        c->st = S_CLOSED;
        g.err(ECONNABORTED); return -1;
    }
    SockP c = s->acceptq.front();
    int r = alloc_fd(cn(), c, Fd::SOCK, flags & SOCK_NONBLOCK);
    if (r < 0) { g.err(EMFILE); count_fault("EMFILE-accept"); g_kstat.emfile++; return -1; }
    s->acceptq.pop_front();
    put_addr(c.get(), c->rip, c->rport, sa, len);
    logf("%s accept fd %d port %d", cn()->name.c_str(), r, c->lport);
    return r;
}
int k_getpeername(int fd, struct sockaddr* sa, socklen_t* len) {
    Guard g;
    Sock* s = as<Sock>(fd, Fd::SOCK);
    if (!s) { g.err(EBADF); return -1; }
    if (s->st != S_EST) { g.err(ENOTCONN); return -1; }
    put_addr(s, s->rip, s->rport, sa, len);
    return 0;
}
int k_setsockopt(int fd, int level, int opt, const void* v, socklen_t) {
    point('s', nullptr);
    Guard g;
    Sock* s = as<Sock>(fd, Fd::SOCK);
    if (!s) { g.err(EBADF); return -1; }
    int x = v ? *(const int*)v : 0;
    if (level == SOL_SOCKET && opt == SO_KEEPALIVE) { s->keepalive = x; arm_keepalive(s->shared_from_this()); }
    else if (level == IPPROTO_TCP && opt == TCP_KEEPIDLE) { s->ka_idle = (u64)x * SEC; s->ka_armed = false; ++s->ka_gen; arm_keepalive(s->shared_from_this()); }
    else if (level == IPPROTO_TCP && opt == TCP_KEEPINTVL) s->ka_intvl = (u64)x * SEC;
    else if (level == IPPROTO_TCP && opt == TCP_KEEPCNT) s->ka_cnt = x;
    else if (level == IPPROTO_TCP && opt == TCP_CORK) { s->corked = x; if (!x) { s->out.pushed = s->out.size(); pump(s->shared_from_this()); } }
    else if (level == IPPROTO_TCP && opt == TCP_NODELAY) { if (x) { s->out.pushed = s->out.size(); pump(s->shared_from_this()); } }
    else if (level == IPPROTO_IP && opt == IP_FREEBIND) s->freebind = x;
    return 0;
}
int k_getsockopt(int fd, int level, int opt, void* v, socklen_t*) {
    Guard g;
    Sock* s = as<Sock>(fd, Fd::SOCK);
    if (!s) { g.err(EBADF); return -1; }
    int x = 0;
    if (level == SOL_SOCKET && opt == SO_ERROR) { x = s->err; s->err = 0; }
    *(int*)v = x;
    return 0;
}
void arm_keepalive(const SockP& s) {
    if (s->ka_armed || !s->keepalive) return;
    s->ka_armed = true;
    std::weak_ptr<Sock> w = s;
    std::shared_ptr<int> fails = std::make_shared<int>(0);
    auto fn = std::make_shared<std::function<void()>>();
    u32 gen = s->ka_gen;
    *fn = [w, fails, fn, gen] {
        auto s = w.lock();
        if (!s || s->st == S_CLOSED || s->ka_gen != gen) { auto k = fn; *k = nullptr; return; }
        auto p = s->peer.lock();
        if (s->st != S_EST) { after(s->ka_idle, [fn] { if (*fn) (*fn)(); }); return; }
        u64 idle = g_now - s->last_rx;
        if (idle < s->ka_idle && *fails == 0) { after(s->ka_idle - idle, [fn] { if (*fn) (*fn)(); }); return; }
        if (g_cfg.verbose > 2) logf("sock %lu keepalive probe: peer %d gone %d rto %d idle %lu", s->id, (bool)p, (int)s->peer_gone, (int)s->rto_armed, idle);
        // probe
        g_kstat.probes++;
        bool gone = !p || p->st == S_CLOSED || (p->orphan && !g_orphans.count(p->id)) || misrouted(p);
        bool up;
        if (p) up = link_up(s.get(), p.get());
        else {
            Host* h = host_of_ip(s->rip);
            up = !s->peer_gone && !(s->host && !s->host->up) && (!h || (h->up && !is_cut(phys_ip(s.get()), h->ip)));
        }
        if (p && misrouted(p)) up = g_vip_owner >= 0 && g_hosts[g_vip_owner]->up && !is_cut(phys_ip(s.get()), g_hosts[g_vip_owner]->ip);
        if (up && gone) { sock_reset_by_peer(s, ECONNRESET); return; }
        if (up && !gone) { s->last_rx = g_now; *fails = 0; after(s->ka_idle, [fn] { if (*fn) (*fn)(); }); return; }
        if (s->rto_armed) { after(s->ka_intvl, [fn] { if (*fn) (*fn)(); }); return; }   // unacknowledged data: retransmission decides
        if (++*fails > s->ka_cnt) { count_fault("keepalive-timeout"); sock_reset_by_peer(s, ETIMEDOUT); return; }
        after(s->ka_intvl, [fn] { if (*fn) (*fn)(); });
    };
    after(1 * MSEC, [fn] { if (*fn) (*fn)(); });     // the interval is set after the option
}
static Sock* find_listener(Host* h, u32 ip, int port) {
    if (!h || !h->cur || !h->cur->alive) return nullptr;
    for (auto& f : h->cur->fds)
        if (f.k == Fd::SOCK) {
            Sock* o = static_cast<Sock*>(f.o.get());
            if (o->st == S_LISTEN && o->lport == port && (o->lip == 0 || o->lip == ip)) return o;
        }
    return nullptr;
}
// client side socket c (already CONNECTING) sends its SYN
static void syn(const SockP& c, u32 ip, int port, int tries) {
    if (c->st != S_CONNECTING) return;
    std::weak_ptr<Sock> w = c;
    after(net_lat(), [w, ip, port, tries] {
        auto c = w.lock();
        if (!c || c->st != S_CONNECTING) return;
        Host* h = host_of_ip(ip);
        bool reach = h && h->up && !(c->host && !c->host->up) && !is_cut(phys_ip(c.get()), h->ip);
        if (!reach) {
            if (tries >= 6) { sock_reset_by_peer(c, ETIMEDOUT); return; }
            after((1ull << tries) * SEC, [w, ip, port, tries] { if (auto c = w.lock()) syn(c, ip, port, tries + 1); });
            return;
        }
        Sock* l = find_listener(h, ip, port);
        if (!l || l->acceptq.size() > 4096) {
            after(net_lat(), [w] { if (auto c = w.lock()) if (c->st == S_CONNECTING) sock_reset_by_peer(c, ECONNREFUSED); });
            return;
        }
        SockP s = new_sock();
        s->st = S_EST; s->host = h; s->v6 = l->v6;
        s->lip = ip; s->lport = port; s->rip = phys_ip(c.get()); s->rport = c->lport;
        s->peer = c; c->peer = s;
        l->acceptq.push_back(s);
        l->notify(EPOLLIN);
        after(net_lat(), [w] {
            auto c = w.lock();
            if (!c || c->st != S_CONNECTING) return;
            c->st = S_EST; c->last_rx = g_now; c->conn_done = true;
            if (c->ext) c->ext->on_connected(true, 0);
            else c->notify(EPOLLOUT);
            pump(c);
        });
    });
}
int k_connect(int fd, const struct sockaddr* sa) {
    point('s', nullptr);
    Guard g;
    Sock* s = as<Sock>(fd, Fd::SOCK);
    if (!s) { g.err(EBADF); return -1; }
    if (sa->sa_family != AF_INET) { g.err(ENETUNREACH); return -1; }
    auto* a = (struct sockaddr_in*)sa;
    s->rip = ntohl(a->sin_addr.s_addr); s->rport = ntohs(a->sin_port);
    s->lip = cn()->host->ip; s->lport = g_ephem++;
    s->st = S_CONNECTING;
    syn(s->shared_from_this(), s->rip, s->rport, 0);
    g.err(EINPROGRESS);
    return -1;
}
int k_poll(struct pollfd* fds, int n, int timeout) {
    point('w', nullptr);
    Guard g;
    u64 dl = timeout < 0 ? NEVER : g_now + (u64)timeout * MSEC;
    Thread* t = tls_self;
    for (;;) {
        int r = 0;
        for (int i = 0; i < n; ++i) {
            Fd* f = getfd(fds[i].fd);
            fds[i].revents = f ? (f->o->poll_mask() & (fds[i].events | POLLERR | POLLHUP)) : POLLNVAL;
            if (fds[i].revents) ++r;
        }
        if (r || timeout == 0) return r;
        for (int i = 0; i < n; ++i) if (Fd* f = getfd(fds[i].fd)) f->o->waiters.push_back(t);
        bool to = block("poll", nullptr, dl);
        for (int i = 0; i < n; ++i) if (Fd* f = getfd(fds[i].fd)) { auto& q = f->o->waiters; q.erase(std::remove(q.begin(), q.end(), t), q.end()); }
        if (to) { for (int i = 0; i < n; ++i) fds[i].revents = 0; return 0; }
    }
}

// ---- outside endpoints
static std::map<u64, SockP> g_ext;
SockP ext_connect(ExtHandler* h, u32 from, u32 to, int port) {
    auto s = new_sock();
    s->ext = h; s->ext_ip = from; s->lip = from; s->lport = g_ephem++; s->rip = to; s->rport = port;
    s->st = S_CONNECTING;
    g_ext[s->id] = s;
    syn(s, to, port, 0);
    return s;
}
void ext_send(const SockP& s, const string& d) {
    if (s->st == S_CLOSED || s->snd_shut) return;
    s->out.q.append(d); s->out.total += d.size();
    pump(s);
}
void ext_shutdown(const SockP& s) { if (s->st == S_EST) sock_shutdown_send(s); }
void ext_close(const SockP& s) {
    s->ext = nullptr;
    g_ext.erase(s->id);
    if (s->st == S_CONNECTING) { s->st = S_CLOSED; if (auto p = s->peer.lock()) send_rst(s, p); return; }
    s->on_last_close();
}
void ext_reset(const SockP& s) {
    s->ext = nullptr;
    g_ext.erase(s->id);
    auto p = s->peer.lock();
    s->st = S_CLOSED;
    if (p) send_rst(s, p);
}
void ext_vanish(const SockP& s) {
    s->ext = nullptr;
    g_ext.erase(s->id);
    s->vanished = true;
    auto p = s->peer.lock();
    s->st = S_CLOSED;
    g_orphans[s->id] = s;   // stays unreachable
    if (p) { p->peer.reset(); p->peer_gone = true; }
}
string ext_recv(const SockP& s, size_t max) {
    size_t n = std::min(max, s->rqsize());
    string r = s->rq.substr(s->rqoff, n);
    s->rqoff += n;
    if (s->rqoff == s->rq.size()) { s->rq.clear(); s->rqoff = 0; }
    if (n) reopen_window(s.get());
    return r;
}
void ext_set_reading(const SockP& s, bool on) {
    bool was = !s->rd_off;
    s->rd_off = !on;
    if (on && !was) {
        std::weak_ptr<Sock> w = s;
        after(0, [w] { if (auto s = w.lock()) if (s->ext && !s->rd_off) { if (s->rqsize()) s->ext->on_data(); } });
    }
}

// ------------------------------------------------------------- time
i64 wall_ns_at(const Host* h, u64 t) {
    i64 off = h->skew_ns;
    for (auto it = h->skew_hist.rbegin(); it != h->skew_hist.rend(); ++it) { if (it->first <= t) { off = it->second; break; } off = 0; }
    return (i64)(g_epoch * SEC) + (i64)t + off;
}
i64 wall_ns(const Host* h) { return (i64)(g_epoch * SEC) + (i64)g_now + h->skew_ns; }
void host_clock_step(Host* h, i64 d) {
    if (h->skew_hist.empty()) h->skew_hist.push_back({0, h->skew_ns});
    h->skew_ns += d;
    h->skew_hist.push_back({g_now, h->skew_ns});
    count_fault("clock-step");
    logf("clock of %s steps by %ld ms", h->name.c_str(), (long)(d / 1000000));
}
int k_nanosleep(u64 ns) {
    point('w', nullptr);
    ++tls_insim;
    block("nanosleep", nullptr, g_now + ns);
    --tls_insim;
    return 0;
}

// ------------------------------------------------------------- nodes
static int count_segs(struct dl_phdr_info* info, size_t, void* arg) {
    auto* m = (Module*)arg;
    struct link_map* lm = (struct link_map*)m->handle;
    if (info->dlpi_addr != lm->l_addr) return 0;
    for (int i = 0; i < info->dlpi_phnum; ++i) {
        auto& ph = info->dlpi_phdr[i];
        if (ph.p_type == PT_LOAD && (ph.p_flags & PF_W)) {
            m->lo = (char*)(info->dlpi_addr + ph.p_vaddr);
            m->hi = m->lo + ph.p_memsz;
        }
    }
    return 1;
}
void load_modules(const string& path, int n, const string& scratch) {
    char dir[64]; snprintf(dir, sizeof dir, "%s/ysim-XXXXXX", scratch.c_str());
    if (!mkdtemp(dir)) { fprintf(stderr, "ysim: mkdtemp\n"); exit(3); }
    struct Rm { const char* d; ~Rm() { rmdir(d); } } rm{dir};
    for (int i = 0; i < n; ++i) {
        string p = string(dir) + "/node" + std::to_string(i) + ".so";
        string cmd = "cp " + path + " " + p;
        if (system(cmd.c_str()) != 0) { fprintf(stderr, "ysim: cannot copy node\n"); exit(3); }
        Module m;
        m.index = i;
        m.handle = dlopen(p.c_str(), RTLD_NOW | RTLD_LOCAL);
        if (!m.handle) { fprintf(stderr, "ysim: %s\n", dlerror()); exit(3); }
        unlink(p.c_str());
        m.start = (int (*)(int, char**))dlsym(m.handle, "ysim_node_start");
        if (!m.start) { fprintf(stderr, "ysim: %s\n", dlerror()); exit(3); }
        dl_iterate_phdr(count_segs, &m);
        g_modules.push_back(m);
        add_module(m.lo, m.hi, "node", (const char*)((struct link_map*)m.handle)->l_addr);
    }
}
Host* add_host(const string& name) {
    auto h = std::make_unique<Host>();
    h->id = g_hosts.size(); h->name = name; h->ip = 0x0a000001u + h->id;
    g_hosts.push_back(std::move(h));
    return g_hosts.back().get();
}
// Both ends of the connections of a host to a port see a reset.
int reset_conns(Host* h, int port) {
    int n = 0;
    auto v = g_socks;
    for (auto& w : v) if (auto s = w.lock()) if (s->host == h && s->st == S_EST && s->rport == port) {
        auto p = s->peer.lock();
        sock_reset_by_peer(s, ECONNRESET);
        if (p) sock_reset_by_peer(p, ECONNRESET);
        ++n;
    }
    return n;
}
void set_vip(int host) {
    if (g_vip_owner == host) return;
    logf("VIP moves to %d", host);
    g_vip_owner = host;
    link_changed();
}
static void release_node(Node* n, bool silent) {
    n->alive = false;
    for (Thread* t : n->threads) if (t->st != Thread::DEAD) t->st = Thread::DEAD;
    for (int i = 0; i < (int)n->fds.size(); ++i) {
        if (n->fds[i].k == Fd::NONE) continue;
        if (silent && n->fds[i].k == Fd::SOCK) {
            Sock* s = static_cast<Sock*>(n->fds[i].o.get());
            // nothing is sent; the peer keeps believing in the connection
            s->st = S_CLOSED; s->eps.clear();
            n->fds[i] = Fd();
            continue;
        }
        do_close(n, i);
    }
    n->fds.clear();
}
void node_exit(Node* n, int code, const string& why) {
    if (!n->alive) return;
    logf("%s exits with %d (%s)", n->name.c_str(), code, why.c_str());
    n->exited = true; n->exit_code = code; n->exit_why = why; n->exit_time = g_now;
    release_node(n, false);
    trace_s("exit" + why); trace(code);
    if (g_on_node_exit) g_on_node_exit(n);
}
void kill_node(Node* n, bool power) {
    if (!n->alive) return;
    logf("%s %s", n->name.c_str(), power ? "loses power" : "is killed");
    n->crashed = true; n->exit_time = g_now;
    release_node(n, power);
    if (power) { n->host->up = false; link_changed(); }
}
void node_signal(Node* n, int sig) {
    if (!n->alive) return;
    if (!(n->sigblocked >> (sig - 1) & 1)) {
        if (sig == SIGPIPE && n->sigpipe_ignored) return;
        // default action
        node_exit(n, 128 + sig, "killed by signal " + std::to_string(sig));
        return;
    }
    for (int s : n->sigpending) if (s == sig) return;
    n->sigpending.push_back(sig);
    for (auto& f : n->fds) if (f.k == Fd::SIGNAL) f.o->notify(EPOLLIN);
}
std::vector<string> g_conf_files;
void remove_conf_files() { for (auto& f : g_conf_files) unlink(f.c_str()); g_conf_files.clear(); }
Node* start_node(Host* h, const std::map<string, string>& conf) {
    Guard g;
    Module* m = nullptr;
    for (auto& x : g_modules) if (!x.used) { m = &x; break; }
    if (!m) { fprintf(stderr, "ysim: out of node images\n"); _exit(3); }
    m->used = true;
    auto up = std::make_unique<Node>();
    Node* n = up.get();
    h->incarnations.push_back(std::move(up));
    h->cur = n; h->up = true;
    n->host = h; n->id = h->id; n->gen = h->incarnations.size(); n->mod = m; n->alive = true; n->boot = g_now;
    n->name = h->name + (n->gen > 1 ? "#" + std::to_string(n->gen) : "");
    char path[64]; snprintf(path, sizeof path, "/tmp/ysim.XXXXXX");
    int fd = mkstemp(path);
    string txt;
    for (auto& kv : conf) txt += kv.first + " = " + kv.second + "\n";
    if (write(fd, txt.data(), txt.size()) != (ssize_t)txt.size()) _exit(3);
    close(fd);
    n->conf_path = path;
    n->args = {"yrmcdsd", "-f", path};
    Rng kr(g_cfg.seed * 1000003 + n->id * 101 + n->gen); n->siphash_k[0] = kr.next(); n->siphash_k[1] = kr.next();
    g_conf_files.push_back(path);
    Thread* t = spawn(n, "main", nullptr, nullptr);
    t->vc = VC(); t->vc.c[t->slot] = 1;
    n->main = t;
    t->body = [n] {
        std::vector<char*> av;
        for (auto& a : n->args) av.push_back((char*)a.c_str());
        int rc = n->mod->start((int)av.size(), av.data());
        Guard g;
        node_exit(n, rc, "main returned");
    };
    logf("%s started", n->name.c_str());
    link_changed();
    return n;
}

u32 g_rng_fault_pick(u64 n) {
    return decide(C_FAULT, (u32)n, [n] { return (u32)g_rng_fault.below(n); });
}

} // namespace sim
