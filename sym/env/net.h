// The kernel as the server sees it: sockets, epoll and poll, and the clients at the other end.
#pragma once
#include <ionsym.h>
#include <arpa/inet.h>
#include <cerrno>
#include <cstring>
#include <fcntl.h>
#include <functional>
#include <map>
#include <memory>
#include <netinet/in.h>
#include <poll.h>
#include <string>
#include <sys/epoll.h>
#include <sys/socket.h>
#include <vector>
#define ION_NET_MODEL 1
namespace net {
using Bytes = std::vector<uint8_t>;
enum Kind { Listener, Conn, Epoll };
struct Sock {
    Kind kind = Conn;
    int fd = -1;                      // -1: not (or no longer) held by the server
    bool held = false;                // was handed to the server
    int closes = 0;                   // how often the server closed it
    bool nonblock = false, shutWr = false, bound = false, listening = false;
    Bytes in;                         // sent by the peer
    size_t pos = 0;
    bool eof = false;                 // peer finished sending
    int rdErr = 0, wrErr = 0;         // errno of the next read / write
    bool hup = false, err = false;
    Bytes out;                        // accepted from the server
    size_t room = ~0ull;              // send buffer space
    size_t maxRead = ~0ull, maxWrite = ~0ull;
    size_t reads = 0, writes = 0;
    int family = AF_INET;
    bool peerNameFails = false;
    std::map<int, std::pair<uint32_t, uint64_t>> watch;   // Epoll: fd -> events, data
    std::map<int, Sock*> watchOf;
};
inline std::vector<Sock*> fds;                       // by descriptor, null when free
inline int kFirst = 5;
inline std::vector<std::unique_ptr<Sock>> all;
inline std::vector<Sock*> backlog;                   // clients waiting to be accepted
inline std::vector<int> acceptErrors;                // errno results due before the next accept
inline int acceptErrAlways = 0;                      // accept keeps failing with this
inline int fcntlFailAt = -1, fcntlCalls = 0;         // the n-th fcntl fails
inline int ctlFailAt = -1, ctlCalls = 0;             // the n-th epoll_ctl ADD fails with ENOMEM
inline int modFailAt = -1, modCalls = 0;             // the n-th epoll_ctl MOD fails with ENOMEM
inline int socketErr = 0, bindErr = 0, listenErr = 0;
inline std::function<int()> world;                   // runs in every wait: the peers act; may return an errno
inline std::function<int(const char*)> fault;           // errno with which this system call fails, or 0
inline std::function<void(const char*)> onSyscall;   // runs before every system call
inline std::function<int(epoll_event*, int)> rawEpoll; // what epoll_wait reports instead; negative: -errno
inline std::function<int(pollfd*, size_t)> rawPoll;
inline std::function<int(int)> closeHook;              // descriptors of the harness's own making
inline std::function<bool(int)> isFile;                // descriptors of the file system model
inline std::function<int(int)> fileClose;
inline std::function<long(int, void*, size_t)> fileRead;
inline std::function<long(int, const void*, size_t)> fileWrite;
inline std::vector<int> ports;                         // ports the server bound
inline std::function<long(int, size_t)> stdWrite;      // writes to the standard streams
inline size_t waits = 0, badClose = 0, calls = 0;
inline int lastTimeout = 0;
inline bool reverse = false;                         // order in which ready descriptors are reported
inline bool strictFds = true;
inline Sock* make(Kind k) { all.push_back(std::make_unique<Sock>()); all.back()->kind = k; return all.back().get(); }
inline int install(Sock* s) {
    int i = kFirst;
    for (;; ++i) { if ((size_t)i >= fds.size()) fds.resize(i + 1, nullptr); if (!fds[i]) break; }
    fds[i] = s; s->fd = i; s->held = true;
    return i;
}
inline Sock* at(int fd) { return fd >= 0 && (size_t)fd < fds.size() ? fds[fd] : nullptr; }
inline Sock* client() { Sock* s = make(Conn); backlog.push_back(s); return s; }
inline size_t openCount(Kind k) { size_t n = 0; for (auto* s : fds) if (s && s->kind == k) ++n; return n; }
inline Sock* listener() { for (auto* s : fds) if (s && s->kind == Listener) return s; return nullptr; }
inline Sock* epoll() { for (auto* s : fds) if (s && s->kind == Epoll) return s; return nullptr; }
inline uint32_t ready(Sock* s) {      // EPOLL* bits that hold now
    uint32_t r = 0;
    if (s->kind == Listener) { if (!backlog.empty() || !acceptErrors.empty()) r |= EPOLLIN; return r; }
    if (s->pos < s->in.size() || s->eof || s->rdErr) r |= EPOLLIN;
    if (s->room > 0 || s->wrErr) r |= EPOLLOUT;
    if (s->hup) r |= EPOLLHUP;
    if (s->err) r |= EPOLLERR;
    return r;
}
inline void call(const char* n) { ++calls; if (onSyscall) onSyscall(n); }
inline int fail(int e) { errno = e; return -1; }
inline int doClose(int fd) {
    Sock* s = at(fd);
    if (!s) { ++badClose; if (strictFds) sym_fail("a descriptor that is not open is closed"); return fail(EBADF); }
    fds[fd] = nullptr; s->fd = -1; ++s->closes;
    for (auto& o : all) if (o->kind == Epoll && o->watch.count(fd) && o->watchOf[fd] == s) { o->watch.erase(fd); o->watchOf.erase(fd); }
    return 0;
}
inline long doRead(int fd, void* b, size_t n) {
    Sock* s = at(fd);
    if (!s) { if (strictFds) sym_fail("a descriptor that is not open is read"); return fail(EBADF); }
    ++s->reads;
    if (s->pos < s->in.size()) {
        size_t k = s->in.size() - s->pos;
        if (k > n) k = n;
        if (k > s->maxRead) k = s->maxRead;
        memcpy(b, s->in.data() + s->pos, k);
        s->pos += k;
        return (long)k;
    }
    if (s->rdErr) return fail(s->rdErr);
    if (s->eof) return 0;
    if (!s->nonblock) sym_fail("a read blocks the server");
    return fail(EAGAIN);
}
inline long doWrite(int fd, const void* b, size_t n) {
    Sock* s = at(fd);
    if (!s) { if (strictFds) sym_fail("a descriptor that is not open is written"); return fail(EBADF); }
    ++s->writes;
    if (s->wrErr) return fail(s->wrErr);
    size_t k = n;
    if (k > s->room) k = s->room;
    if (k > s->maxWrite) k = s->maxWrite;
    if (k == 0 && n) { if (!s->nonblock) sym_fail("a write blocks the server"); return fail(EAGAIN); }
    s->out.insert(s->out.end(), (const uint8_t*)b, (const uint8_t*)b + k);
    if (s->room != ~0ull) s->room -= k;
    return (long)k;
}
inline int doAccept(int fd, sockaddr* a, socklen_t* l, bool nb) {
    Sock* s = at(fd);
    if (!s || s->kind != Listener) return fail(EBADF);
    if (acceptErrAlways) return fail(acceptErrAlways);
    if (!acceptErrors.empty()) { int e = acceptErrors.front(); acceptErrors.erase(acceptErrors.begin()); return fail(e); }
    if (backlog.empty()) { if (!s->nonblock) sym_fail("accept blocks the server"); return fail(EAGAIN); }
    Sock* c = backlog.front(); backlog.erase(backlog.begin());
    c->nonblock = nb;
    if (a && l) { sockaddr_in x{}; x.sin_family = AF_INET; memcpy(a, &x, *l < sizeof x ? *l : sizeof x); *l = sizeof x; }
    return install(c);
}
inline int doWait(epoll_event* ev, int max, Sock* e) {
    int n = 0;
    auto take = [&](int fd, std::pair<uint32_t, uint64_t> w) {
        uint32_t r = ready(e->watchOf[fd]) & (w.first | EPOLLHUP | EPOLLERR);
        if (!r || n >= max) return;
        epoll_event x{}; x.events = r; x.data.u64 = w.second;
        ev[n++] = x;
    };
    if (reverse) for (auto it = e->watch.rbegin(); it != e->watch.rend(); ++it) take(it->first, it->second);
    else for (auto& [fd, w] : e->watch) take(fd, w);
    return n;
}
}  // namespace net
extern "C" {
int ion_model_socket(int, int type, int) { net::call("socket"); if (net::fault) if (int f = net::fault("socket")) return net::fail(f); if (net::socketErr) return net::fail(net::socketErr); auto* s = net::make(net::Listener); s->nonblock = type & SOCK_NONBLOCK; return net::install(s); }
int ion_model_bind(int fd, const sockaddr* a, socklen_t) { net::call("bind"); if (net::fault) if (int f = net::fault("bind")) return net::fail(f); if (net::bindErr) return net::fail(net::bindErr); net::ports.push_back(ntohs(a->sa_family == AF_INET6 ? ((const sockaddr_in6*)a)->sin6_port : ((const sockaddr_in*)a)->sin_port)); net::at(fd)->bound = true; return 0; }
int ion_model_listen(int fd, int) { net::call("listen"); if (net::fault) if (int f = net::fault("listen")) return net::fail(f); if (net::listenErr) return net::fail(net::listenErr); net::at(fd)->listening = true; return 0; }
int ion_model_setsockopt(int fd, int, int, const void*, socklen_t) { net::call("setsockopt"); if (net::fault) if (int f = net::fault("setsockopt")) return net::fail(f); return net::at(fd) ? 0 : net::fail(EBADF); }
int ion_model_getsockopt(int fd, int, int opt, void* v, socklen_t* l) { net::call("getsockopt"); if (!net::at(fd)) return net::fail(EBADF); if (v && l && *l >= 4) { int e = opt == SO_ERROR ? net::at(fd)->rdErr : 0; memcpy(v, &e, 4); *l = 4; } return 0; }
int ion_model_fcntl(int fd, int cmd, long arg) {
    net::call("fcntl"); if (net::fault) if (int f = net::fault("fcntl")) return net::fail(f);
    auto* s = net::at(fd);
    if (!s) return net::fail(EBADF);
    if (net::fcntlCalls++ == net::fcntlFailAt) return net::fail(EINTR);
    if (cmd == F_GETFL) return O_RDWR | (s->nonblock ? O_NONBLOCK : 0);
    if (cmd == F_SETFL) s->nonblock = arg & O_NONBLOCK;
    return 0;
}
int ion_model_ioctl(int fd, unsigned long, int* arg) { net::call("ioctl"); auto* s = net::at(fd); if (!s) return net::fail(EBADF); s->nonblock = arg && *arg; return 0; }
int ion_model_accept(int fd, sockaddr* a, socklen_t* l) { net::call("accept"); return net::doAccept(fd, a, l, false); }
int ion_model_accept4(int fd, sockaddr* a, socklen_t* l, int flags) { net::call("accept"); return net::doAccept(fd, a, l, flags & SOCK_NONBLOCK); }
int ion_model_close(int fd) { if (net::isFile && net::isFile(fd)) return net::fileClose(fd); net::call("close"); if (net::closeHook) return net::closeHook(fd); return net::doClose(fd); }
int ion_model_shutdown(int fd, int how) { net::call("shutdown"); if (net::closeHook) return 0; auto* s = net::at(fd); if (!s) return net::fail(EBADF); if (how != SHUT_RD) s->shutWr = true; return 0; }
ssize_t ion_model_read(int fd, void* b, size_t n) { if (net::isFile && net::isFile(fd)) return net::fileRead(fd, b, n); net::call("read"); return net::doRead(fd, b, n); }
ssize_t ion_model_recv(int fd, void* b, size_t n, int) { net::call("read"); return net::doRead(fd, b, n); }
ssize_t ion_model_write(int fd, const void* b, size_t n) { if (net::isFile && net::isFile(fd)) { if (!net::fileWrite) sym_fail("a file is written"); return net::fileWrite(fd, b, n); } if (fd <= 2 && net::stdWrite) return net::stdWrite(fd, n); net::call("write"); return net::doWrite(fd, b, n); }
ssize_t ion_model_send(int fd, const void* b, size_t n, int) { net::call("write"); return net::doWrite(fd, b, n); }
int ion_model_getpeername(int fd, sockaddr* a, socklen_t* l) {
    net::call("getpeername");
    auto* s = net::at(fd);
    if (!s) return net::fail(EBADF);
    if (s->peerNameFails) return net::fail(ENOTCONN);
    if (s->family == AF_INET6) { sockaddr_in6 x{}; x.sin6_family = AF_INET6; memcpy(a, &x, *l < sizeof x ? *l : sizeof x); *l = sizeof x; }
    else { sockaddr_in x{}; x.sin_family = (sa_family_t)s->family; x.sin_addr.s_addr = 0x0100000a; memcpy(a, &x, *l < sizeof x ? *l : sizeof x); *l = sizeof x; }
    return 0;
}
const char* ion_model_inet_ntop(int af, const void*, char* d, socklen_t n) { const char* t = af == AF_INET6 ? "::1" : "10.0.0.1"; size_t k = strlen(t) + 1; if (k > n) { errno = ENOSPC; return nullptr; } memcpy(d, t, k); return d; }
int ion_model_epoll_create1(int) { net::call("epoll_create"); if (net::fault) if (int f = net::fault("epoll_create")) return net::fail(f); return net::install(net::make(net::Epoll)); }
int ion_model_epoll_create(int) { net::call("epoll_create"); if (net::fault) if (int f = net::fault("epoll_create")) return net::fail(f); return net::install(net::make(net::Epoll)); }
int ion_model_epoll_ctl(int ep, int op, int fd, epoll_event* ev) {
    net::call("epoll_ctl"); if (net::fault) if (int f = net::fault("epoll_ctl")) return net::fail(f);
    auto *e = net::at(ep), *s = net::at(fd);
    if (!e || !s) return net::fail(EBADF);
    bool has = e->watch.count(fd);
    if (op == EPOLL_CTL_ADD) {
        if (has) return net::fail(EEXIST);
        if (net::ctlCalls++ == net::ctlFailAt) return net::fail(ENOMEM);
    } else if (!has) return net::fail(ENOENT);
    if (op == EPOLL_CTL_MOD && net::modCalls++ == net::modFailAt) return net::fail(ENOMEM);
    if (op == EPOLL_CTL_DEL) { e->watch.erase(fd); e->watchOf.erase(fd); return 0; }
    e->watch[fd] = {ev->events, ev->data.u64}; e->watchOf[fd] = s;
    return 0;
}
int ion_model_epoll_wait(int ep, epoll_event* ev, int max, int timeout) {
    net::call("epoll_wait");
    ++net::waits; net::lastTimeout = timeout;
    auto* e = net::at(ep);
    if (!e) return net::fail(EBADF);
    if (max <= 0) return net::fail(EINVAL);
    if (net::world) { int r = net::world(); if (r) return net::fail(r); }
    if (net::rawEpoll) { int r = net::rawEpoll(ev, max); return r < 0 ? net::fail(-r) : r; }
    int n = net::doWait(ev, max, e);
    if (n == 0 && timeout < 0) sym_fail("the server waits for ever");
    return n;
}
int ion_model_poll(pollfd* p, nfds_t n, int timeout) {
    net::call("poll");
    ++net::waits; net::lastTimeout = timeout;
    if (net::world) { int r = net::world(); if (r) return net::fail(r); }
    if (net::rawPoll) { int r = net::rawPoll(p, n); return r < 0 ? net::fail(-r) : r; }
    int k = 0;
    for (nfds_t i = 0; i < n; ++i) {
        auto* s = net::at(p[i].fd);
        p[i].revents = 0;
        if (p[i].fd < 0) continue;
        if (!s) p[i].revents = POLLNVAL;
        else p[i].revents = (short)(net::ready(s) & ((uint32_t)(uint16_t)p[i].events | EPOLLHUP | EPOLLERR));
        if (p[i].revents) ++k;
    }
    if (k == 0 && timeout < 0) sym_fail("the server waits for ever");
    return k;
}
}
