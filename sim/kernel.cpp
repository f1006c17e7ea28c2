#include "kernel.h"
#include <algorithm>
#include <csignal>
#include <cstdarg>
#include <cstring>
#include <poll.h>
#include <fcntl.h>
#include <sys/select.h>
#include <sys/socket.h>
#include <sys/uio.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#include <unistd.h>
#if defined(__SANITIZE_ADDRESS__)
#include <sanitizer/asan_interface.h>
#endif

namespace sim::net {
Kernel* kernel = nullptr;

int Kernel::fail(int e, bool isFatal) {
    if (isFatal) fatal();
    errno = e;
    return -1;
}
bool Kernel::eintr() {
    if (!chance(eintrPct)) return false;
    ++r.count["fault.eintr"];
    return true;
}
bool Kernel::setup(const char* what) {
    if (only ? strcmp(only, what) != 0 : !chance(setupPct)) return false;
    ++r.count[std::string("fault.") + what];
    setupFault = broken = true;
    return true;
}
void Kernel::closeSock(Sock& s) {
    if (!s.open) return;
    s.open = false;
    changed();
    if (!s.conn) {
        for (auto& c : s.backlog) { resetTo(*c, 1); broken = lossy = true; }
        return;
    }
    auto &out = s.conn->p[s.side], &in = s.conn->p[1 - s.side];
    if (!in.ready.empty() || !in.flight.empty()) { resetTo(*s.conn, 1 - s.side); lossy = true; ++r.count["fault.reset_by_close"]; }
    in.flight.clear(); in.ready.clear();
    out.fin = true;
    in.rst = true;             // whoever writes to us now gets an error
    broken = true;
}
void Kernel::resetTo(Conn& c, int s) {
    c.p[s].rst = true;                  // writing fails
    auto& in = c.p[1 - s];
    in.flight.clear(); in.ready.clear();
    in.rst = true;
    in.fin = true; in.finSeen = true;
    changed();
}
void Kernel::cut(bool both) {
    if (!conn) return;
    broken = lossy = true;
    for (int s = 0; s < 2; ++s) if (both || r.ch.choose(S_FAULT, 2) == 0) resetTo(*conn, s);
    ++r.count["fault.connection_cut"];
}
void Kernel::exitProc(int i) {
    for (auto& [fd, s] : socks) if (s.proc == i && s.open) closeSock(s);
}
bool Kernel::deliver(Pipe& d) {
    if (!d.flight.empty()) {
        size_t k = d.flight.size();
        switch (r.ch.choose(S_SCHED, 3)) {
            case 0: break;
            case 1: k = 1 + r.ch.choose(S_SCHED, std::min<size_t>(k, 16)); break;
            default: k = 1 + r.ch.choose(S_SCHED, k); break;
        }
        k = std::min(k, d.flight.size());
        if (k < d.flight.size()) ++r.count["jitter.split_delivery"];
        d.ready.insert(d.ready.end(), d.flight.begin(), d.flight.begin() + k);
        d.flight.erase(d.flight.begin(), d.flight.begin() + k);
        r.mix(k);
        return true;
    }
    if (d.fin && !d.finSeen) { d.finSeen = true; return true; }
    return false;
}
bool Kernel::listening() {
    for (auto& [fd, s] : socks) if (s.open && s.st == Sock::Listening && !s.conn) return true;
    return false;
}
}

using namespace sim;
using namespace sim::net;
#define W kernel
namespace {
using World = Kernel;
bool mine(int fd) { return W && W->who() >= 0 && fd >= FD0; }
bool inside() { return W && W->who() >= 0; }

#if defined(__SANITIZE_ADDRESS__)
void buffer(const void* p, size_t n, const char* call) {
    if (n && __asan_region_is_poisoned(const_cast<void*>(p), n)) W->violate("outside-buffer", W->nameOf(W->who()) + ": " + call + " of " + std::to_string(n) + " bytes reaches outside of the message");
}
#else
void buffer(const void*, size_t, const char*) {}
#endif

ssize_t doSend(int fd, const void* buf, size_t n, int flags) {
    auto& w = *W;
    w.enter("send");
    buffer(buf, n, "send");
    w.preempt();
    auto* s = w.sock(fd);
    if (!s) return w.fail(EBADF);
    if (!s->conn) return w.fail(ENOTCONN);
    if (w.eintr()) return w.fail(EINTR, false);
    auto& out = s->conn->p[s->side];
    while (true) {
        auto& in = s->conn->p[1 - s->side];
        if (out.rst || out.fin || s->wrShut) {
            if (!s->rstTold && in.rst && !out.fin) { s->rstTold = true; ++w.r.count["error.econnreset"]; return w.fail(ECONNRESET); }
            struct sigaction sa;
            sigaction(SIGPIPE, nullptr, &sa);
            if (!(flags & MSG_NOSIGNAL) && sa.sa_handler != SIG_IGN) w.violate("killed", w.nameOf(w.who()) + " writes to a broken connection without MSG_NOSIGNAL: SIGPIPE kills the process");
            ++w.r.count["error.epipe"];
            return w.fail(EPIPE);
        }
        size_t used = out.flight.size() + out.ready.size();
        if (used < s->conn->cap || !n) {
            size_t k = std::min(n, s->conn->cap - used);
            if (k > 1 && w.chance(w.shortPct)) { k = 1 + w.r.ch.choose(S_FAULT, std::min<size_t>(k - 1, 64)); ++w.r.count["fault.short_send"]; }
            auto b = static_cast<const uint8_t*>(buf);
            out.flight.insert(out.flight.end(), b, b + k);
            out.accepted += k;
            w.changed();
            w.r.ticks += 1;
            return k;
        }
        if (s->nonblock || (flags & MSG_DONTWAIT)) return w.fail(EAGAIN, false);
        auto c = s->conn; int side = s->side;
        w.block([c, side] { auto& o = c->p[side]; return o.rst || o.fin || o.flight.size() + o.ready.size() < c->cap; });
        if (w.eintr()) return w.fail(EINTR, false);
        s = w.sock(fd);
        if (!s) return w.fail(EBADF);
    }
}

ssize_t doRecv(int fd, void* buf, size_t n, int flags) {
    auto& w = *W;
    w.enter("recv");
    buffer(buf, n, "read");
    w.preempt();
    auto* s = w.sock(fd);
    if (!s) return w.fail(EBADF);
    if (!s->conn) return w.fail(ENOTCONN);
    if (w.eintr()) return w.fail(EINTR, false);
    size_t done = 0;
    while (true) {
        auto& in = s->conn->p[1 - s->side];
        if (!in.ready.empty() || !n) {
            size_t k = std::min(n - done, in.ready.size());
            if (k > 1 && w.chance(w.shortPct)) { k = 1 + w.r.ch.choose(S_FAULT, std::min<size_t>(k - 1, 64)); ++w.r.count["fault.short_recv"]; }
            std::copy(in.ready.begin(), in.ready.begin() + k, static_cast<uint8_t*>(buf) + done);
            if (!(flags & MSG_PEEK)) in.ready.erase(in.ready.begin(), in.ready.begin() + k);
            done += k;
            w.changed();
            w.r.ticks += 1;
            if (!(flags & MSG_WAITALL) || done == n || (flags & MSG_PEEK)) return done;
            continue;
        }
        if (in.finSeen) {
            if (done) return done;
            if (in.rst && !s->rstTold && s->conn->p[s->side].rst) { s->rstTold = true; ++w.r.count["error.econnreset"]; return w.fail(ECONNRESET); }
            ++w.r.count["end_of_stream"];
            return 0;
        }
        if (s->nonblock || (flags & MSG_DONTWAIT)) return w.fail(EAGAIN, false);
        auto c = s->conn; int side = s->side;
        w.block([c, side] { auto& i = c->p[1 - side]; return !i.ready.empty() || i.finSeen; });
        if (w.eintr()) { if (done) return done; return w.fail(EINTR, false); }
        s = w.sock(fd);
        if (!s) return w.fail(EBADF);
    }
}

int doClose(int fd) {
    auto& w = *W;
    auto* s = w.sock(fd);
    if (!s) { errno = EBADF; return -1; }
    w.closeSock(*s);
    return 0;
}
}

extern "C" {
int __real_close(int); ssize_t __real_read(int, void*, size_t); ssize_t __real_write(int, const void*, size_t);
int __real_socket(int, int, int); int __real_poll(struct pollfd*, nfds_t, int); int __real_fcntl(int, int, ...);
int __real_select(int, fd_set*, fd_set*, fd_set*, struct timeval*);

int __wrap_socket(int d, int t, int p) {
    if (!inside()) return __real_socket(d, t, p);
    W->enter("socket");
    if (W->setup("socket_error")) return W->fail(EMFILE);
    int fd = W->nextFd++;
    W->socks[fd].proc = W->who();
    if (t & SOCK_NONBLOCK) W->socks[fd].nonblock = true;
    return fd;
}
int __wrap_setsockopt(int fd, int, int, const void*, socklen_t) {
    W->enter("setsockopt");
    if (!W->sock(fd)) return W->fail(EBADF);
    if (W->setup("setsockopt_error")) return W->fail(ENOBUFS);
    return 0;
}
int __wrap_getsockopt(int fd, int, int, void* v, socklen_t* l) {
    W->enter("getsockopt");
    if (!W->sock(fd)) return W->fail(EBADF);
    memset(v, 0, *l);
    return 0;
}
int __wrap_bind(int fd, const struct sockaddr* a, socklen_t) {
    W->enter("bind");
    auto* s = W->sock(fd);
    if (!s) return W->fail(EBADF);
    if (W->setup("bind_error")) return W->fail(EADDRINUSE);
    s->port = ntohs(reinterpret_cast<const sockaddr_in*>(a)->sin_port);
    s->st = Sock::Bound;
    return 0;
}
int __wrap_listen(int fd, int) {
    W->enter("listen");
    auto* s = W->sock(fd);
    if (!s) return W->fail(EBADF);
    if (W->setup("listen_error")) return W->fail(EADDRINUSE);
    s->st = Sock::Listening;
    return 0;
}
int __wrap_accept4(int fd, struct sockaddr*, socklen_t*, int flags) {
    auto& w = *W;
    w.enter("accept");
    w.preempt();
    auto* s = w.sock(fd);
    if (!s || s->st != Sock::Listening) return w.fail(s ? EINVAL : EBADF);
    if (w.eintr()) return w.fail(EINTR, false);
    if (s->backlog.empty()) {
        w.block([&w, fd] { auto* x = w.sock(fd); return !x || !x->backlog.empty(); });
        if (w.eintr()) return w.fail(EINTR, false);
        s = w.sock(fd);
        if (!s) return w.fail(EBADF);
        if (s->backlog.empty()) return w.fail(EINTR, false);
    }
    if (w.setup("accept_error")) { auto c = s->backlog.front(); s->backlog.pop_front(); w.resetTo(*c, 1); w.lossy = true; return w.fail(ECONNABORTED); }
    auto c = s->backlog.front();
    s->backlog.pop_front();
    int nfd = w.nextFd++;
    auto& n = w.socks[nfd];
    n.proc = w.who(); n.st = Sock::Connected; n.side = 0; n.conn = c;
    n.nonblock = flags & SOCK_NONBLOCK;
    return nfd;
}
int __wrap_accept(int fd, struct sockaddr* a, socklen_t* l) { return __wrap_accept4(fd, a, l, 0); }
int __wrap_connect(int fd, const struct sockaddr* a, socklen_t) {
    auto& w = *W;
    w.enter("connect");
    w.preempt();
    auto* s = w.sock(fd);
    if (!s) return w.fail(EBADF);
    int port = ntohs(reinterpret_cast<const sockaddr_in*>(a)->sin_port);
    if (w.setup("connect_error")) return w.fail(ETIMEDOUT);
    for (auto& [lfd, l] : w.socks)
        if (l.open && l.st == Sock::Listening && l.port == port) {
            auto c = std::make_shared<Conn>();
            c->cap = w.cap;
            l.backlog.push_back(c);
            w.changed();
            w.conn = c;
            s->conn = c; s->side = 1; s->st = Sock::Connected;
            return 0;
        }
    ++w.r.count["fault.connection_refused"];
    w.broken = w.setupFault = true;
    return w.fail(ECONNREFUSED);
}
ssize_t __wrap_send(int fd, const void* b, size_t n, int f) { return doSend(fd, b, n, f); }
ssize_t __wrap_sendto(int fd, const void* b, size_t n, int f, const struct sockaddr*, socklen_t) { return doSend(fd, b, n, f); }
ssize_t __wrap_recv(int fd, void* b, size_t n, int f) { return doRecv(fd, b, n, f); }
ssize_t __wrap_recvfrom(int fd, void* b, size_t n, int f, struct sockaddr*, socklen_t*) { return doRecv(fd, b, n, f); }
ssize_t __wrap_read(int fd, void* b, size_t n) { return mine(fd) ? doRecv(fd, b, n, 0) : __real_read(fd, b, n); }
ssize_t __wrap_write(int fd, const void* b, size_t n) { return mine(fd) ? doSend(fd, b, n, 0) : __real_write(fd, b, n); }
static ssize_t gather(int fd, const struct iovec* v, int cnt, int f) {
    std::vector<uint8_t> all;
    for (int i = 0; i < cnt; ++i) { buffer(v[i].iov_base, v[i].iov_len, "writev"); auto b = static_cast<const uint8_t*>(v[i].iov_base); all.insert(all.end(), b, b + v[i].iov_len); }
    return doSend(fd, all.data(), all.size(), f);
}
static ssize_t scatter(int fd, const struct iovec* v, int cnt, int f) {
    size_t n = 0;
    for (int i = 0; i < cnt; ++i) { buffer(v[i].iov_base, v[i].iov_len, "readv"); n += v[i].iov_len; }
    std::vector<uint8_t> all(n);
    ssize_t k = doRecv(fd, all.data(), n, f);
    size_t at = 0;
    for (int i = 0; i < cnt && k > 0 && at < (size_t)k; ++i) { size_t m = std::min(v[i].iov_len, k - at); memcpy(v[i].iov_base, all.data() + at, m); at += m; }
    return k;
}
ssize_t __wrap_writev(int fd, const struct iovec* v, int c) { return gather(fd, v, c, 0); }
ssize_t __wrap_readv(int fd, const struct iovec* v, int c) { return scatter(fd, v, c, 0); }
ssize_t __wrap_sendmsg(int fd, const struct msghdr* m, int f) { return gather(fd, m->msg_iov, m->msg_iovlen, f); }
ssize_t __wrap_recvmsg(int fd, struct msghdr* m, int f) { return scatter(fd, m->msg_iov, m->msg_iovlen, f); }
int __wrap_close(int fd) { return mine(fd) ? doClose(fd) : __real_close(fd); }
int __wrap_shutdown(int fd, int how) {
    auto* s = W->sock(fd);
    if (!s) { errno = EBADF; return -1; }
    if (!s->conn) { errno = ENOTCONN; return s->st == Sock::Listening ? 0 : -1; }
    if (how != SHUT_RD) { s->wrShut = true; s->conn->p[s->side].fin = true; W->broken = true; }
    if (how != SHUT_WR) { auto& in = s->conn->p[1 - s->side]; in.finSeen = true; }
    return 0;
}
int __wrap_fcntl(int fd, int cmd, ...) {
    va_list ap; va_start(ap, cmd); long arg = va_arg(ap, long); va_end(ap);
    if (!mine(fd)) return __real_fcntl(fd, cmd, arg);
    auto* s = W->sock(fd);
    if (!s) { errno = EBADF; return -1; }
    if (cmd == F_GETFL) return O_RDWR | (s->nonblock ? O_NONBLOCK : 0);
    if (cmd == F_SETFL) s->nonblock = arg & O_NONBLOCK;
    return 0;
}
static bool pollOne(World& w, int fd, short ev, short& re) {
    re = 0;
    auto* s = w.sock(fd);
    if (!s) { re = POLLNVAL; return true; }
    if (s->st == Sock::Listening) { if ((ev & POLLIN) && !s->backlog.empty()) re |= POLLIN; return re; }
    if (!s->conn) return false;
    auto &in = s->conn->p[1 - s->side], &out = s->conn->p[s->side];
    if ((ev & POLLIN) && (!in.ready.empty() || in.finSeen)) re |= POLLIN;
    if ((ev & POLLOUT) && (out.rst || out.fin || out.flight.size() + out.ready.size() < s->conn->cap)) re |= POLLOUT;
    if (out.rst) re |= POLLERR;
    return re;
}
int __wrap_poll(struct pollfd* f, nfds_t n, int timeout) {
    if (!inside()) return __real_poll(f, n, timeout);
    auto& w = *W;
    w.enter("poll");
    w.preempt();
    if (w.eintr()) return w.fail(EINTR, false);
    auto any = [&w, f, n] { bool a = false; for (nfds_t i = 0; i < n; ++i) { short re; if (pollOne(w, f[i].fd, f[i].events, re)) a = true; } return a; };
    if (!any()) {
        if (timeout >= 0) { for (nfds_t i = 0; i < n; ++i) f[i].revents = 0; w.nap(); if (!any()) return 0; }
        else w.block(any);
    }
    int c = 0;
    for (nfds_t i = 0; i < n; ++i) { short re; pollOne(w, f[i].fd, f[i].events, re); f[i].revents = re; c += re != 0; }
    return c;
}
}

