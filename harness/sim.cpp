#include "sim.h"
#include <arpa/inet.h>
#include <cerrno>
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <netdb.h>
#include <netinet/in.h>
#include <poll.h>
#include <sys/ioctl.h>
#include <sys/select.h>
#include <sys/socket.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>
#include <openssl/err.h>

namespace sim {

thread_local int tl_sigpipes = 0;
static thread_local Sim *tl_sim = nullptr;
static thread_local int tl_busy = 0;   // inside simulator code: pass calls through

struct Busy { Busy() { ++tl_busy; } ~Busy() { --tl_busy; } };

static const char *OPN[] = {"socket", "connect", "select", "poll", "getsockopt", "setsockopt", "fcntl(F_GETFL)",
    "fcntl(F_SETFL)", "send", "recv", "close", "resolve"};
const char *opName(Op o) { return OPN[static_cast<int>(o)]; }

Sim *Sim::current() { return tl_busy ? nullptr : tl_sim; }
Sim::Sim() = default;
Sim::~Sim() {
    if (tl_sim == this) tl_sim = nullptr;
    for (auto &c : conns) realClose(c->fd);   // closed ones are kept until here: a number is never used twice
}
void Sim::bind() { tl_sim = this; }
void Sim::unbind() { if (tl_sim == this) tl_sim = nullptr; }
int realClose(int fd) { return static_cast<int>(syscall(SYS_close, fd)); }

void Sim::alarm(const std::string &s) { if (alarms.size() < 50) alarms.push_back(s); if (trace) fprintf(stderr, "[%lld] ALARM %s\n", (long long)now, s.c_str()); }
uint64_t Sim::rnd() { rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17; return rng; }

int Sim::openFds() const { int n = 0; for (auto &c : conns) if (!c->clientClosed) ++n; return n; }
Conn *Sim::find(int fd) { for (auto it = conns.rbegin(); it != conns.rend(); ++it) if ((*it)->fd == fd && !(*it)->clientClosed) return it->get(); return nullptr; }
Conn *Sim::findAny(int fd) { for (auto it = conns.rbegin(); it != conns.rend(); ++it) if ((*it)->fd == fd) return it->get(); return nullptr; }

void Sim::tick(Op op) {
    ++ops; ++opCount[static_cast<int>(op)];
    if (jitter && static_cast<int>(rnd() % 100) < jitter) { int e = errno; if (rnd() % 3) syscall(SYS_sched_yield); else { struct timespec t = {0, static_cast<long>(rnd() % 60000)}; syscall(SYS_nanosleep, &t, nullptr); } errno = e; }
    if (ops > opBudget) {
        fprintf(stderr, "\nSIM-RUNAWAY: more than %llu socket/sleep operations, last %s\n", (unsigned long long)opBudget, opName(op));
        fflush(stderr);
        abort();
    }
}

bool Sim::fault(Op op, Fault &out) {
    uint64_t n = opCount[static_cast<int>(op)] - 1;
    for (auto &f : faults)
        if (f.op == op && (f.nth < 0 || static_cast<uint64_t>(f.nth) == n)) { out = f; ++faultsHit; if (onFault) onFault(out); return true; }
    return false;
}

void Conn::push(const std::string &data, int64_t delay) {
    if (data.empty()) return;
    std::string d = data;
    rxOffered += d.size();
    if (cutHit) return;
    if (cutAfter >= 0 && static_cast<int64_t>(rxQueued + d.size()) >= cutAfter) {
        d.resize(static_cast<size_t>(cutAfter) - rxQueued);
        cutHit = true;
    }
    int64_t at = owner->now + delay;
    if (!rx.empty() && rx.back().at > at) at = rx.back().at;
    if (!d.empty()) { rxQueued += d.size(); rx.push_back({d, at}); }
    if (cutHit && cutKind != End::None && rxEnd == End::None) { rxEnd = cutKind; rxEndAt = at; }
}
void Conn::finish(End e, int64_t delay) {
    if (rxEnd != End::None || cutHit) return;
    int64_t at = owner->now + delay;
    if (!rx.empty() && rx.back().at > at) at = rx.back().at;
    rxEnd = e; rxEndAt = at;
}

void Sim::pump() {
    Busy b; int e = errno;
    ERR_set_mark();
    for (size_t i = 0; i < conns.size(); ++i) {
        Conn &c = *conns[i];
        if (!c.peer) continue;
        while (!c.tx.empty()) {
            TxChunk ch = std::move(c.tx.front()); c.tx.pop_front();
            c.peer->onData(c, ch.data.data(), ch.data.size(), ch.pending);
        }
    }
    ERR_pop_to_mark();
    errno = e;
}

static void serverEvent(Sim &s, Conn &c) { s.lastServerEvent = s.now; c.lastServerByteAt = s.now; }

static void settleConnect(Sim &s, Conn &c) {
    if (c.connecting && c.connectAt >= 0 && c.connectAt <= s.now) {
        c.connecting = false;
        if (c.connectErr) { c.soError = c.connectErr; }
        else {
            c.connected = true; c.peer = c.plan.peer;
            if (c.peer) { Busy b; ERR_set_mark(); c.peer->onConnect(c); ERR_pop_to_mark(); }
        }
        serverEvent(s, c);
    }
}

// next time something changes for this connection (or -1)
static int64_t nextRxEvent(const Conn &c) {
    if (!c.rx.empty()) return c.rx.front().at;
    if (c.rxEnd != End::None && !c.rstDelivered) return c.rxEndAt;
    if (!c.endless.empty()) return 0;
    return -1;
}
static bool rxReady(const Sim &s, const Conn &c) {
    if (!c.rx.empty()) return c.rx.front().at <= s.now;
    return (c.rxEnd != End::None && c.rxEndAt <= s.now) || (c.rxEnd == End::None && !c.endless.empty());
}
static bool peerGone(const Sim &s, const Conn &c, bool &rst) {
    rst = c.rxEnd == End::Rst && c.rxEndAt <= s.now;
    return c.rxEnd != End::None && c.rxEndAt <= s.now;
}

static ssize_t doRecv(Sim &s, Conn &c, void *buf, size_t len, int flags) {
    s.tick(Op::Recv);
    Fault f;
    if (s.fault(Op::Recv, f)) {
        if (f.kind == Fault::Eintr) { errno = EINTR; return -1; }
        if (f.kind == Fault::EagainOnce) { errno = EAGAIN; return -1; }
        if (f.kind == Fault::Errno) { errno = f.arg; return -1; }
        if (f.kind == Fault::Short && f.arg > 0 && len > static_cast<size_t>(f.arg)) len = static_cast<size_t>(f.arg);
    }
    if (s.randomEintr && s.rnd() % 7 == 0) { ++s.faultsHit; errno = EINTR; return -1; }
    settleConnect(s, c);
    s.pump();
    if (!c.connected) { errno = ENOTCONN; return -1; }
    if (len == 0) return 0;
    int64_t start = s.now;
    for (;;) {
        if (!c.rx.empty() && c.rx.front().at <= s.now) {
            size_t n = 0;
            char *out = static_cast<char *>(buf);
            std::string acc;
            if (flags & MSG_PEEK) {
                for (auto &sg : c.rx) { if (sg.at > s.now || acc.size() >= len) break; acc += sg.data; if (!s.coalesce) break; }
                n = std::min(len, acc.size()); memcpy(out, acc.data(), n); return static_cast<ssize_t>(n);
            }
            while (!c.rx.empty() && c.rx.front().at <= s.now && n < len) {
                Segment &sg = c.rx.front();
                size_t k = std::min(len - n, sg.data.size());
                memcpy(out + n, sg.data.data(), k);
                n += k;
                if (k == sg.data.size()) c.rx.pop_front(); else sg.data.erase(0, k);
                if (!s.coalesce && !(flags & MSG_WAITALL)) break;
            }
            c.rxConsumed += n; s.opBudget += 4 * n;          // progress is not running away
            serverEvent(s, c);
            return static_cast<ssize_t>(n);
        }
        if (c.rx.empty() && c.rxEnd == End::None && !c.endless.empty()) {
            for (size_t i = 0; i < len; ++i) static_cast<char *>(buf)[i] = c.endless[(c.endlessAt + i) % c.endless.size()];
            if (!(flags & MSG_PEEK)) c.endlessAt += len;
            serverEvent(s, c);
            return static_cast<ssize_t>(len);
        }
        if (c.rx.empty() && c.rxEnd != End::None && c.rxEndAt <= s.now) {
            serverEvent(s, c);
            if (c.rxEnd == End::Rst && !c.rstDelivered) { c.rstDelivered = true; errno = ECONNRESET; return -1; }
            return 0;
        }
        if (c.nonblock || (flags & MSG_DONTWAIT)) { errno = EAGAIN; return -1; }
        int64_t t = nextRxEvent(c);
        int64_t limit = c.rcvtimeo > 0 ? start + c.rcvtimeo : -1;
        if (t < 0 && limit < 0) {
            s.alarm("blocked for ever in recv/read on a silent connection");
            c.rxEnd = End::Rst; c.rxEndAt = s.now; c.rstDelivered = true; errno = ECONNRESET; return -1;
        }
        if (t < 0 || (limit >= 0 && t > limit)) { s.now = limit; errno = EAGAIN; return -1; }
        if (t > s.now) s.now = t;
    }
}

static ssize_t doSend(Sim &s, Conn &c, const void *buf, size_t len, int flags) {
    s.tick(Op::Send);
    Fault f; size_t cap = len;
    if (s.fault(Op::Send, f)) {
        if (f.kind == Fault::Eintr) { errno = EINTR; return -1; }
        if (f.kind == Fault::EagainOnce) { errno = EAGAIN; return -1; }
        if (f.kind == Fault::Errno) {
            if (f.arg == EPIPE && !(flags & MSG_NOSIGNAL)) raise(SIGPIPE);
            errno = f.arg; return -1;
        }
        if (f.kind == Fault::Short && f.arg > 0) cap = std::min(cap, static_cast<size_t>(f.arg));
    }
    if (s.randomEintr && s.rnd() % 5 == 0) { ++s.faultsHit; errno = EINTR; return -1; }
    if (s.randomShort && len > 1) { cap = std::min(cap, 1 + static_cast<size_t>(s.rnd() % len)); if (cap < len) ++s.faultsHit; }
    settleConnect(s, c);
    s.pump();
    if (c.soError) { errno = c.soError; c.soError = 0; return -1; }
    bool rst = false;
    if (!c.connected || c.shutWr || (peerGone(s, c, rst) && (rst || c.sendsAfterFin > 0))) {
        if (!(flags & MSG_NOSIGNAL)) raise(SIGPIPE);
        errno = EPIPE; return -1;
    }
    if (c.rxEnd == End::Fin && c.rxEndAt <= s.now) { ++c.sendsAfterFin; c.txTotal += len; return static_cast<ssize_t>(len); }
    if (len == 0) return 0;
    if (c.window >= 0) {
        if (c.window == 0) {
            if (c.nonblock || (flags & MSG_DONTWAIT)) { errno = EAGAIN; return -1; }
            if (c.sndtimeo > 0) { s.now += c.sndtimeo; errno = EAGAIN; return -1; }
            s.alarm("blocked for ever in send/write on a peer that does not read");
            c.rxEnd = End::Rst; c.rxEndAt = s.now; errno = ECONNRESET; return -1;
        }
        cap = std::min(cap, static_cast<size_t>(c.window));
        c.window -= static_cast<int64_t>(cap);
    }
    bool pending = c.rxConsumed < c.rxQueued;
    c.tx.push_back({std::string(static_cast<const char *>(buf), cap), pending});
    c.txTotal += cap;
    return static_cast<ssize_t>(cap);
}

static void sigpipeHandler(int) { ++tl_sigpipes; }
void installSignalMonitor() {
    struct sigaction sa; memset(&sa, 0, sizeof sa);
    sa.sa_handler = sigpipeHandler; sa.sa_flags = SA_RESTART; sigemptyset(&sa.sa_mask);
    sigaction(SIGPIPE, &sa, nullptr);
}

static bool sawForeign(Sim *s, int fd, const char *what) {
    Conn *old = s->findAny(fd);
    char b[160];
    if (old) snprintf(b, sizeof b, "%s on a socket already closed by the client", what);
    else snprintf(b, sizeof b, "%s on descriptor %s, which is not a socket of the session", what, fd < 0 ? "<negative>" : fd <= 2 ? "0/1/2" : "of another owner");
    s->alarm(b);
    return true;
}

static int doPoll(Sim &s, struct pollfd *fds, nfds_t n, int64_t timeout_us) {
    s.tick(Op::Poll);
    Fault f;
    if (s.fault(Op::Poll, f)) {
        if (f.kind == Fault::Eintr && (f.arg <= 0 || timeout_us < 0 || static_cast<int64_t>(f.arg) * 1000 < timeout_us)) { if (f.arg > 0) s.now += static_cast<int64_t>(f.arg) * 1000; errno = EINTR; return -1; }
        if (f.kind == Fault::Errno) { errno = f.arg; return -1; }
    }
    if (s.randomEintr && s.rnd() % 3 == 0) { ++s.faultsHit; errno = EINTR; return -1; }
    int64_t start = s.now;
    for (;;) {
        s.pump();
        int ready = 0; int64_t next = -1;
        for (nfds_t i = 0; i < n; ++i) {
            fds[i].revents = 0;
            if (fds[i].fd < 0) continue;
            Conn *c = s.find(fds[i].fd);
            if (!c) { sawForeign(&s, fds[i].fd, "poll"); fds[i].revents = POLLNVAL; ++ready; continue; }
            settleConnect(s, *c);
            short r = 0;
            if (c->connectCalled && !c->connecting) {
                if (!c->connected) r |= static_cast<short>((fds[i].events & (POLLIN | POLLOUT)) | POLLERR | POLLHUP);
                else {
                    if (rxReady(s, *c)) { r |= fds[i].events & (POLLIN | POLLRDHUP); if (c->rxEnd == End::Rst && c->rx.empty()) r |= POLLERR | POLLHUP; }
                    if (c->window != 0) r |= fds[i].events & POLLOUT;
                    if (fds[i].events & POLLIN) { int64_t t = nextRxEvent(*c); if (t > s.now && (next < 0 || t < next)) next = t; }
                }
            } else if (!c->connectCalled) r |= POLLHUP;
            else if (c->connectAt >= 0 && (next < 0 || c->connectAt < next)) next = c->connectAt;
            fds[i].revents = r;
            if (r) ++ready;
        }
        if (ready) return ready;
        int64_t limit = timeout_us >= 0 ? start + timeout_us : -1;
        if (next < 0 && limit < 0) {
            s.alarm("blocked for ever in poll/select");
            errno = EINVAL; return -1;
        }
        if (next < 0 || (limit >= 0 && next > limit)) { s.now = limit; return 0; }
        s.now = next;
    }
}

static uint32_t numericAddr(const char *name, bool &ok) {
    struct in_addr a; ok = inet_aton(name, &a) != 0; return ok ? a.s_addr : 0;
}
static bool lookup(Sim &s, const char *name, uint32_t &addr) {
    s.tick(Op::Resolve);
    Fault f; if (s.fault(Op::Resolve, f)) return false;
    Busy b;
    s.resolved.push_back(name ? name : "(null)");
    bool ok; addr = numericAddr(name, ok);
    if (ok) return true;
    std::string ip;
    if (s.resolve) { if (!s.resolve(name, ip)) return false; }
    else ip = "10.1.2.3";
    addr = numericAddr(ip.c_str(), ok);
    return ok;
}

}  // namespace sim

using namespace sim;

// ---------------------------------------------------------------- interposed libc functions
extern "C" {

int socket(int domain, int type, int protocol) noexcept {
    Sim *s = Sim::current();
    if (!s) return static_cast<int>(syscall(SYS_socket, domain, type, protocol));
    s->tick(Op::Socket);
    Fault f;
    if (s->fault(Op::Socket, f)) { errno = f.kind == Fault::Errno ? f.arg : EMFILE; return -1; }
    if (s->socketErr) { errno = s->socketErr; return -1; }
    Busy b;
    int fd = static_cast<int>(syscall(SYS_openat, AT_FDCWD, "/dev/null", O_RDWR | O_CLOEXEC, 0));
    if (fd >= 0 && s->fdBase > 0) {
        int hi = static_cast<int>(syscall(SYS_fcntl, fd, F_DUPFD_CLOEXEC, s->fdBase));
        realClose(fd); fd = hi;
    }
    if (fd < 0) return -1;
    auto c = std::make_unique<Conn>();
    c->fd = fd; c->index = static_cast<int>(s->conns.size()); c->owner = s;
    c->nonblock = (type & SOCK_NONBLOCK) != 0;
    s->conns.push_back(std::move(c));
    if (s->trace) fprintf(stderr, "[%lld] socket -> %d\n", (long long)s->now, fd);
    return fd;
}

int connect(int fd, const struct sockaddr *sa, socklen_t len) {
    Sim *s = Sim::current();
    if (!s) return static_cast<int>(syscall(SYS_connect, fd, sa, len));
    Conn *c = s->find(fd);
    if (!c) { sawForeign(s, fd, "connect"); errno = EBADF; return -1; }
    s->tick(Op::Connect);
    if (c->connectCalled) {
        settleConnect(*s, *c);
        if (c->connected) { errno = EISCONN; return -1; }
        if (c->connecting) { errno = EALREADY; return -1; }
        if (c->soError) { errno = c->soError; c->soError = 0; return -1; }
    }
    Fault f; bool eintr = false;
    if (s->fault(Op::Connect, f)) {
        if (f.kind == Fault::Errno) { errno = f.arg; return -1; }
        if (f.kind == Fault::Eintr) eintr = true;
    }
    {
        Busy b;
        if (sa->sa_family == AF_INET) {
            auto *in = reinterpret_cast<const struct sockaddr_in *>(sa);
            char buf[64]; inet_ntop(AF_INET, &in->sin_addr, buf, sizeof buf);
            c->addr = buf; c->port = ntohs(in->sin_port);
        } else if (sa->sa_family == AF_INET6) {
            auto *in = reinterpret_cast<const struct sockaddr_in6 *>(sa);
            char buf[64]; inet_ntop(AF_INET6, &in->sin6_addr, buf, sizeof buf);
            c->addr = buf; c->port = ntohs(in->sin6_port);
        }
        c->connectCalled = true;
        c->plan = s->onConnect ? s->onConnect(*c, c->addr, c->port) : ConnectPlan();
    }
    if (s->trace) fprintf(stderr, "[%lld] connect %s:%d\n", (long long)s->now, c->addr.c_str(), c->port);
    switch (c->plan.mode) {
        case ConnectPlan::Ok: c->connecting = true; c->connectAt = s->now; c->connectErr = 0; break;
        case ConnectPlan::OkDelayed: c->connecting = true; c->connectAt = s->now + c->plan.delay; break;
        case ConnectPlan::Err: errno = c->plan.err; c->connectErr = c->plan.err; return -1;
        case ConnectPlan::ErrDelayed: c->connecting = true; c->connectAt = s->now + c->plan.delay; c->connectErr = c->plan.err; break;
        case ConnectPlan::Never: c->connecting = true; c->connectAt = -1; break;
    }
    if (eintr) { errno = EINTR; return -1; }   // the connection proceeds asynchronously
    if (!c->nonblock) {
        if (c->connectAt < 0) { s->now += 130 * SEC; c->connecting = false; errno = ETIMEDOUT; return -1; }
        if (c->connectAt > s->now) {
            if (c->sndtimeo > 0 && c->connectAt > s->now + c->sndtimeo) { s->now += c->sndtimeo; errno = EINPROGRESS; return -1; }
            s->now = c->connectAt;
        }
    }
    settleConnect(*s, *c);
    if (c->connected) return 0;
    if (c->soError) { errno = c->soError; c->soError = 0; return -1; }
    errno = EINPROGRESS;
    return -1;
}

int getsockopt(int fd, int level, int name, void *val, socklen_t *len) noexcept {
    Sim *s = Sim::current();
    if (!s) return static_cast<int>(syscall(SYS_getsockopt, fd, level, name, val, len));
    Conn *c = s->find(fd);
    if (!c) { sawForeign(s, fd, "getsockopt"); errno = EBADF; return -1; }
    s->tick(Op::GetSockOpt);
    Fault f; if (s->fault(Op::GetSockOpt, f)) { errno = f.arg ? f.arg : EINVAL; return -1; }
    settleConnect(*s, *c);
    int v = 0;
    if (level == SOL_SOCKET && name == SO_ERROR) { v = c->soError; c->soError = 0; }
    else if (level == SOL_SOCKET && name == SO_TYPE) v = SOCK_STREAM;
    if (val && len && *len >= sizeof v) { memcpy(val, &v, sizeof v); *len = sizeof v; }
    return 0;
}

int setsockopt(int fd, int level, int name, const void *val, socklen_t len) noexcept {
    Sim *s = Sim::current();
    if (!s) return static_cast<int>(syscall(SYS_setsockopt, fd, level, name, val, len));
    Conn *c = s->find(fd);
    if (!c) { sawForeign(s, fd, "setsockopt"); errno = EBADF; return -1; }
    if (level != SOL_SOCKET || (name != SO_RCVTIMEO && name != SO_SNDTIMEO)) return 0;   // tuning, also by OpenSSL
    s->tick(Op::SetSockOpt);
    Fault f; if (s->fault(Op::SetSockOpt, f)) { errno = f.arg ? f.arg : EINVAL; return -1; }
    if (level == SOL_SOCKET && (name == SO_RCVTIMEO || name == SO_SNDTIMEO) && len >= sizeof(struct timeval)) {
        struct timeval tv; memcpy(&tv, val, sizeof tv);
        (name == SO_RCVTIMEO ? c->rcvtimeo : c->sndtimeo) = tv.tv_sec * SEC + tv.tv_usec;
    }
    return 0;
}

static int fcntlImpl(int fd, int cmd, long arg) {
    Sim *s = Sim::current();
    if (!s) return static_cast<int>(syscall(SYS_fcntl, fd, cmd, arg));
    Conn *c = s->find(fd);
    if (!c) {
        if (cmd == F_GETFL || cmd == F_SETFL) {
            if (s->findAny(fd) || fd < 0) { sawForeign(s, fd, "fcntl"); errno = EBADF; return -1; }
        }
        return static_cast<int>(syscall(SYS_fcntl, fd, cmd, arg));
    }
    if (cmd == F_GETFL) {
        s->tick(Op::FcntlGet);
        Fault f; if (s->fault(Op::FcntlGet, f)) { errno = f.arg ? f.arg : EINVAL; return -1; }
        return O_RDWR | (c->nonblock ? O_NONBLOCK : 0);
    }
    if (cmd == F_SETFL) {
        s->tick(Op::FcntlSet);
        Fault f; if (s->fault(Op::FcntlSet, f)) { errno = f.arg ? f.arg : EINVAL; return -1; }
        c->nonblock = (arg & O_NONBLOCK) != 0; return 0;
    }
    return static_cast<int>(syscall(SYS_fcntl, fd, cmd, arg));
}
int fcntl(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); long a = va_arg(ap, long); va_end(ap); return fcntlImpl(fd, cmd, a); }
int fcntl64(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); long a = va_arg(ap, long); va_end(ap); return fcntlImpl(fd, cmd, a); }
int ioctl(int fd, unsigned long req, ...) noexcept {
    va_list ap; va_start(ap, req); void *a = va_arg(ap, void *); va_end(ap);
    Sim *s = Sim::current(); Conn *c = s ? s->find(fd) : nullptr;
    if (c) {
        if (req == FIONBIO) { c->nonblock = *static_cast<int *>(a) != 0; return 0; }
        if (req == FIONREAD) { s->pump(); size_t n = 0; for (auto &g : c->rx) if (g.at <= s->now) n += g.data.size(); *static_cast<int *>(a) = static_cast<int>(n); return 0; }
    }
    return static_cast<int>(syscall(SYS_ioctl, fd, req, a));
}

ssize_t send(int fd, const void *buf, size_t len, int flags) {
    Sim *s = Sim::current();
    if (!s) return syscall(SYS_sendto, fd, buf, len, flags, nullptr, 0);
    Conn *c = s->find(fd);
    if (!c) { sawForeign(s, fd, "send"); errno = EBADF; return -1; }
    return doSend(*s, *c, buf, len, flags);
}
ssize_t sendto(int fd, const void *buf, size_t len, int flags, const struct sockaddr *a, socklen_t al) {
    Sim *s = Sim::current();
    if (!s) return syscall(SYS_sendto, fd, buf, len, flags, a, al);
    return send(fd, buf, len, flags);
}
ssize_t sendmsg(int fd, const struct msghdr *m, int flags) {
    Sim *s = Sim::current();
    if (!s) return syscall(SYS_sendmsg, fd, m, flags);
    std::string all; { Busy b; for (size_t i = 0; i < m->msg_iovlen; ++i) all.append(static_cast<char *>(m->msg_iov[i].iov_base), m->msg_iov[i].iov_len); }
    return send(fd, all.data(), all.size(), flags);
}
ssize_t write(int fd, const void *buf, size_t len) {
    Sim *s = Sim::current(); Conn *c = s ? s->find(fd) : nullptr;
    if (c) return doSend(*s, *c, buf, len, 0);
    if (s && s->findAny(fd)) { sawForeign(s, fd, "write"); errno = EBADF; return -1; }
    return syscall(SYS_write, fd, buf, len);
}
ssize_t writev(int fd, const struct iovec *iov, int n) {
    Sim *s = Sim::current(); Conn *c = s ? s->find(fd) : nullptr;
    if (!c) return syscall(SYS_writev, fd, iov, n);
    std::string all; { Busy b; for (int i = 0; i < n; ++i) all.append(static_cast<char *>(iov[i].iov_base), iov[i].iov_len); }
    return doSend(*s, *c, all.data(), all.size(), 0);
}
ssize_t recv(int fd, void *buf, size_t len, int flags) {
    Sim *s = Sim::current();
    if (!s) return syscall(SYS_recvfrom, fd, buf, len, flags, nullptr, nullptr);
    Conn *c = s->find(fd);
    if (!c) { sawForeign(s, fd, "recv"); errno = EBADF; return -1; }
    return doRecv(*s, *c, buf, len, flags);
}
ssize_t recvfrom(int fd, void *buf, size_t len, int flags, struct sockaddr *a, socklen_t *al) {
    Sim *s = Sim::current();
    if (!s) return syscall(SYS_recvfrom, fd, buf, len, flags, a, al);
    return recv(fd, buf, len, flags);
}
ssize_t recvmsg(int fd, struct msghdr *m, int flags) {
    Sim *s = Sim::current(); Conn *c = s ? s->find(fd) : nullptr;
    if (!c) return syscall(SYS_recvmsg, fd, m, flags);
    return doRecv(*s, *c, m->msg_iov[0].iov_base, m->msg_iov[0].iov_len, flags);
}
ssize_t read(int fd, void *buf, size_t len) {
    Sim *s = Sim::current(); Conn *c = s ? s->find(fd) : nullptr;
    if (c) return doRecv(*s, *c, buf, len, 0);
    if (s && s->findAny(fd)) { sawForeign(s, fd, "read"); errno = EBADF; return -1; }
    return syscall(SYS_read, fd, buf, len);
}

int close(int fd) {
    Sim *s = Sim::current();
    if (!s) return static_cast<int>(syscall(SYS_close, fd));
    Conn *c = s->find(fd);
    if (!c) {
        if (fd >= (s->noStdin ? 1 : 0) && fd <= 2) { s->alarm("close of a standard descriptor"); return 0; }
        if (s->findAny(fd)) { sawForeign(s, fd, "close"); errno = EBADF; return -1; }
        int r = static_cast<int>(syscall(SYS_close, fd));
        if (r < 0 && errno == EBADF && fd >= 0) { sawForeign(s, fd, "close"); errno = EBADF; }
        return r;
    }
    s->tick(Op::Close);
    s->pump();
    if (c->peer) { Busy b; int e = errno; ERR_set_mark(); c->peer->onClientClose(*c); ERR_pop_to_mark(); errno = e; }
    c->clientClosed = true;
    if (s->trace) fprintf(stderr, "[%lld] close %d\n", (long long)s->now, fd);
    Fault f;
    if (s->fault(Op::Close, f)) { errno = f.arg ? f.arg : EIO; return -1; }
    return 0;
}
int shutdown(int fd, int how) noexcept {
    Sim *s = Sim::current();
    if (!s) return static_cast<int>(syscall(SYS_shutdown, fd, how));
    Conn *c = s->find(fd);
    if (!c) { sawForeign(s, fd, "shutdown"); errno = EBADF; return -1; }
    if (how == SHUT_WR || how == SHUT_RDWR) c->shutWr = true;
    return 0;
}

int poll(struct pollfd *fds, nfds_t n, int timeout) {
    Sim *s = Sim::current();
    if (!s) { struct timespec ts; ts.tv_sec = timeout / 1000; ts.tv_nsec = (timeout % 1000) * 1000000L; return static_cast<int>(syscall(SYS_ppoll, fds, n, timeout < 0 ? nullptr : &ts, nullptr, 0)); }
    return doPoll(*s, fds, n, timeout < 0 ? -1 : static_cast<int64_t>(timeout) * 1000);
}
int __poll_chk(struct pollfd *fds, nfds_t n, int timeout, size_t) { return poll(fds, n, timeout); }
int ppoll(struct pollfd *fds, nfds_t n, const struct timespec *ts, const sigset_t *m) {
    Sim *s = Sim::current();
    if (!s) return static_cast<int>(syscall(SYS_ppoll, fds, n, ts, m, 8));
    return doPoll(*s, fds, n, ts ? ts->tv_sec * SEC + ts->tv_nsec / 1000 : -1);
}
static int selectImpl(Sim *s, int nfds, fd_set *r, fd_set *w, fd_set *e, int64_t us) {
    --s->opCount[static_cast<int>(Op::Poll)];   // counted as select
    s->tick(Op::Select);
    Fault f;
    if (s->fault(Op::Select, f)) {
        ++s->opCount[static_cast<int>(Op::Poll)];
        if (f.kind == Fault::Eintr) { errno = EINTR; return -1; }
        if (f.kind == Fault::Errno) { errno = f.arg; return -1; }
    }
    std::vector<struct pollfd> p;
    {
        Busy b;
        for (int i = 0; i < nfds; ++i) {
            short ev = 0;
            auto bit = [&](fd_set *x) { return x && (reinterpret_cast<unsigned char *>(x)[i / 8] >> (i % 8) & 1); };
            if (bit(r)) ev |= POLLIN;
            if (bit(w)) ev |= POLLOUT;
            if (bit(e)) ev |= POLLPRI;
            if (ev) { struct pollfd pf; pf.fd = i; pf.events = ev; pf.revents = 0; p.push_back(pf); }
        }
    }
    int k = doPoll(*s, p.data(), p.size(), us);
    if (k < 0) return k;
    Busy b;
    size_t bytes = static_cast<size_t>((nfds + 7) / 8);
    if (r) memset(r, 0, bytes);
    if (w) memset(w, 0, bytes);
    if (e) memset(e, 0, bytes);
    int cnt = 0;
    for (auto &x : p) {
        auto set = [&](fd_set *y) { reinterpret_cast<unsigned char *>(y)[x.fd / 8] |= static_cast<unsigned char>(1 << (x.fd % 8)); ++cnt; };
        if (r && (x.events & POLLIN) && (x.revents & (POLLIN | POLLERR | POLLHUP))) set(r);
        if (w && (x.events & POLLOUT) && (x.revents & (POLLOUT | POLLERR))) set(w);
    }
    return cnt;
}
int select(int nfds, fd_set *r, fd_set *w, fd_set *e, struct timeval *tv) {
    Sim *s = Sim::current();
    if (!s) { struct timespec ts; if (tv) { ts.tv_sec = tv->tv_sec; ts.tv_nsec = tv->tv_usec * 1000; } return static_cast<int>(syscall(SYS_pselect6, nfds, r, w, e, tv ? &ts : nullptr, nullptr)); }
    return selectImpl(s, nfds, r, w, e, tv ? tv->tv_sec * SEC + tv->tv_usec : -1);
}
int pselect(int nfds, fd_set *r, fd_set *w, fd_set *e, const struct timespec *ts, const sigset_t *m) {
    Sim *s = Sim::current();
    if (!s) return static_cast<int>(syscall(SYS_pselect6, nfds, r, w, e, ts, m));
    return selectImpl(s, nfds, r, w, e, ts ? ts->tv_sec * SEC + ts->tv_nsec / 1000 : -1);
}

// ---- sleeping and clocks
static void simSleep(Sim *s, int64_t us) { s->tick(Op::Poll); --s->opCount[static_cast<int>(Op::Poll)]; ++s->sleeps; s->now += us; }
unsigned int sleep(unsigned int n) { Sim *s = Sim::current(); if (s) { simSleep(s, static_cast<int64_t>(n) * SEC); return 0; } struct timespec t = {static_cast<time_t>(n), 0}; syscall(SYS_nanosleep, &t, nullptr); return 0; }
int usleep(useconds_t us) { Sim *s = Sim::current(); if (s) { simSleep(s, us); return 0; } struct timespec t = {static_cast<time_t>(us / 1000000), static_cast<long>(us % 1000000) * 1000}; return static_cast<int>(syscall(SYS_nanosleep, &t, nullptr)); }
int nanosleep(const struct timespec *t, struct timespec *rem) { Sim *s = Sim::current(); if (s) { simSleep(s, t->tv_sec * SEC + t->tv_nsec / 1000); return 0; } return static_cast<int>(syscall(SYS_nanosleep, t, rem)); }
// While a Sim is bound the clocks stand still but for its virtual time, and a microsecond for every look at them.
int clock_gettime(clockid_t id, struct timespec *ts) noexcept {
    Sim *s = Sim::current();
    if (!s || id < 0 || id > 15 || id == CLOCK_PROCESS_CPUTIME_ID || id == CLOCK_THREAD_CPUTIME_ID) return static_cast<int>(syscall(SYS_clock_gettime, id, ts));
    if (!s->clockSet[id]) { if (syscall(SYS_clock_gettime, id, &s->clockBase[id]) != 0) return -1; s->clockSet[id] = true; }
    ++s->now;
    ts->tv_sec = s->clockBase[id].tv_sec + s->now / SEC; ts->tv_nsec = s->clockBase[id].tv_nsec + (s->now % SEC) * 1000;
    if (ts->tv_nsec >= 1000000000L) { ts->tv_nsec -= 1000000000L; ++ts->tv_sec; }
    return 0;
}
int clock_nanosleep(clockid_t id, int flags, const struct timespec *t, struct timespec *rem) {
    Sim *s = Sim::current();
    if (s) {
        int64_t us = t->tv_sec * SEC + t->tv_nsec / 1000;
        if (flags & TIMER_ABSTIME) { struct timespec n; clock_gettime(id, &n); us -= n.tv_sec * SEC + n.tv_nsec / 1000; }
        if (us > 0) simSleep(s, us);
        return 0;
    }
    return syscall(SYS_clock_nanosleep, id, flags, t, rem) == 0 ? 0 : errno;
}
// Certificates are looked at with this clock: their dates stay what they are for three years of virtual time.
time_t time(time_t *t) noexcept {
    Sim *s = Sim::current(); struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts);
    time_t v = ts.tv_sec;
    if (s) v = std::min<time_t>(v, s->clockBase[CLOCK_REALTIME].tv_sec + 3L * 365 * 86400);
    if (t) *t = v;
    return v;
}
int gettimeofday(struct timeval *tv, void *) noexcept { struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts); tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; return 0; }

// ---- name resolution
// As in glibc, gethostbyname returns storage shared by all threads.
static struct hostent g_he; static char *g_list[8]; static char g_addr[28]; static char *g_alias[1]; static char g_name[1100];
struct hostent *gethostbyname(const char *name) {
    Sim *s = Sim::current();
    if (!s) return nullptr;
    uint32_t a;
    if (!lookup(*s, name, a)) { h_errno = HOST_NOT_FOUND; return nullptr; }
    strncpy(g_name, name, sizeof g_name - 1);
    memcpy(g_addr, &a, 4); g_list[0] = g_addr; size_t n = 1; g_alias[0] = nullptr;
    if (strspn(name, "0123456789.") != strlen(name)) for (auto &x : s->moreIps) if (n < 7) { uint32_t z = inet_addr(x.c_str()); memcpy(g_addr + 4 * n, &z, 4); g_list[n] = g_addr + 4 * n; ++n; }
    g_list[n] = nullptr;
    g_he.h_name = g_name; g_he.h_aliases = g_alias; g_he.h_addrtype = AF_INET; g_he.h_length = 4; g_he.h_addr_list = g_list;
    return &g_he;
}
int gethostbyname_r(const char *name, struct hostent *ret, char *buf, size_t buflen, struct hostent **result, int *h) {
    Sim *s = Sim::current(); *result = nullptr;
    if (!s) return ENOENT;
    if (buflen < 64) return ERANGE;
    uint32_t a;
    if (!lookup(*s, name, a)) { if (h) *h = HOST_NOT_FOUND; return 0; }
    char *base = buf + (8 - reinterpret_cast<uintptr_t>(buf) % 8) % 8;
    char **list = reinterpret_cast<char **>(base); char *ad = base + 3 * sizeof(char *);
    memcpy(ad, &a, 4); list[0] = ad; list[1] = nullptr; list[2] = nullptr;
    ret->h_name = const_cast<char *>(name); ret->h_aliases = list + 2; ret->h_addrtype = AF_INET; ret->h_length = 4; ret->h_addr_list = list;
    *result = ret; return 0;
}
int getaddrinfo(const char *node, const char *service, const struct addrinfo *hints, struct addrinfo **res) {
    Sim *s = Sim::current();
    if (!s) return EAI_FAIL;
    uint32_t a;
    if (hints && hints->ai_family != AF_INET && hints->ai_family != AF_UNSPEC) return EAI_NONAME;
    if (!lookup(*s, node, a)) return EAI_NONAME;
    struct Blk { struct addrinfo ai; struct sockaddr_in in; };
    std::vector<uint32_t> all{a};
    if (node && strspn(node, "0123456789.") != strlen(node)) for (auto &x : s->moreIps) all.push_back(inet_addr(x.c_str()));
    struct addrinfo **next = res;
    for (uint32_t x : all) {
        auto *b = static_cast<Blk *>(calloc(1, sizeof(Blk)));
        b->in.sin_family = AF_INET; b->in.sin_addr.s_addr = x;
        if (service) b->in.sin_port = htons(static_cast<uint16_t>(atoi(service)));
        b->ai.ai_family = AF_INET; b->ai.ai_socktype = hints && hints->ai_socktype ? hints->ai_socktype : SOCK_STREAM; b->ai.ai_protocol = hints ? hints->ai_protocol : 0;
        b->ai.ai_addr = reinterpret_cast<struct sockaddr *>(&b->in); b->ai.ai_addrlen = sizeof b->in;
        *next = &b->ai; next = &b->ai.ai_next;
    }
    return 0;
}
#if defined(__has_feature)
#if __has_feature(thread_sanitizer)
// libc functions with state shared by all threads, made visible to the race detector
static char *g_tok; static struct tm g_tm; static char g_time[64];
char *strtok(char *p, const char *d) { if (p) g_tok = p; if (!g_tok) return nullptr; return strtok_r(p, d, &g_tok); }
struct tm *localtime(const time_t *t) noexcept { struct tm x; localtime_r(t, &x); g_tm = x; return &g_tm; }
struct tm *gmtime(const time_t *t) noexcept { struct tm x; gmtime_r(t, &x); g_tm = x; return &g_tm; }
char *ctime(const time_t *t) noexcept { char b[64]; ctime_r(t, b); memcpy(g_time, b, 32); return g_time; }
char *asctime(const struct tm *t) noexcept { char b[64]; asctime_r(t, b); memcpy(g_time, b, 32); return g_time; }
#endif
#endif
void freeaddrinfo(struct addrinfo *r) noexcept { while (r) { struct addrinfo *n = r->ai_next; free(r); r = n; } }

}  // extern "C"
