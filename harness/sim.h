// Deterministic in-process network: the library's socket, resolver, sleep and clock calls are
// interposed (sim.cpp) and served by the Sim bound to the calling thread, in virtual time.
#pragma once
#include <cstdint>
#include <deque>
#include <functional>
#include <map>
#include <memory>
#include <string>
#include <vector>
#include <time.h>

namespace sim {

constexpr int64_t SEC = 1000000;  // virtual time is in microseconds

enum class End { None, Fin, Rst };

struct Segment { std::string data; int64_t at; };

struct Conn;

// One server-side endpoint. Called from inside the client's own calls (never concurrently).
struct Peer {
    virtual ~Peer() = default;
    virtual void onConnect(Conn &) {}
    // pending: unread server bytes were outstanding when the client sent these bytes
    virtual void onData(Conn &, const char *, size_t, bool pending) = 0;
    virtual void onClientClose(Conn &) {}
};

struct ConnectPlan {
    enum Mode { Ok, OkDelayed, Err, ErrDelayed, Never } mode = Ok;
    int err = 0;
    int64_t delay = 0;
    std::shared_ptr<Peer> peer;
};

struct TxChunk { std::string data; bool pending; };

struct Conn {
    int fd = -1, index = -1;
    bool connectCalled = false, connected = false, connecting = false;
    int64_t connectAt = 0;
    int connectErr = 0, soError = 0;
    bool nonblock = false, clientClosed = false, shutWr = false;
    int64_t rcvtimeo = 0, sndtimeo = 0;
    std::deque<Segment> rx;
    End rxEnd = End::None;
    int64_t rxEndAt = 0;
    bool rstDelivered = false;
    std::string endless; size_t endlessAt = 0;     // sent again and again, without end, behind everything else
    uint64_t rxOffered = 0, rxQueued = 0, rxConsumed = 0, txTotal = 0;   // offered: including what a cut swallowed
    int sendsAfterFin = 0;
    std::deque<TxChunk> tx;
    int64_t window = -1;          // bytes the peer still accepts; -1: unlimited
    // cut of the server->client stream after this many raw bytes (-1: none)
    int64_t cutAfter = -1;
    End cutKind = End::None;      // None: silence
    bool cutHit = false;
    std::string addr;             // dotted IPv4 connected to
    int port = 0;
    int64_t lastServerByteAt = 0; // virtual time of the last server event delivered
    std::shared_ptr<Peer> peer;
    ConnectPlan plan;
    // peer side API
    void push(const std::string &data, int64_t delay);
    void finish(End e, int64_t delay);
    class Sim *owner = nullptr;
};

enum class Op { Socket, Connect, Select, Poll, GetSockOpt, SetSockOpt, FcntlGet, FcntlSet, Send, Recv, Close, Resolve, COUNT };
const char *opName(Op);

struct Fault {
    Op op;
    int nth;              // 0-based occurrence of op in this Sim; negative: every one
    enum Kind { Eintr, Short, Errno, EagainOnce } kind;
    int arg = 0;          // errno, short length, or milliseconds that pass before a poll is interrupted
};

class Sim {
 public:
    Sim();
    ~Sim();
    static Sim *current();
    void bind();           // bind to the calling thread
    void unbind();

    int64_t now = 0;
    // script hooks
    std::function<ConnectPlan(Conn &, const std::string &addr, int port)> onConnect;
    std::function<bool(const std::string &name, std::string &ip)> resolve;  // false: not found
    std::vector<std::string> moreIps;   // further addresses of every name that is not a number
    std::vector<Fault> faults;
    std::function<void(const Fault &)> onFault;
    struct timespec clockBase[16]; bool clockSet[16] = {};
    bool randomShort = false;       // every send is cut to a pseudo-random length
    bool randomEintr = false;
    int jitter = 0;                 // per cent of calls that really give up the processor (threads)
    uint64_t rng = 88172645463325252ull;
    bool coalesce = true;           // one recv may return several ready segments
    int fdBase = 0;                 // reserve descriptors at or above this number
    bool noStdin = false;           // descriptor 0 is an ordinary one
    int socketErr = 0;
    // observations
    std::vector<std::unique_ptr<Conn>> conns;
    std::vector<std::string> alarms;        // fd misuse, blocked for ever ...
    std::vector<std::string> resolved;      // names asked for
    std::vector<std::pair<Op, int64_t>> opLog; bool logOps = false;
    uint64_t ops = 0, opCount[static_cast<int>(Op::COUNT)] = {};
    uint64_t faultsHit = 0;
    uint64_t sleeps = 0;
    uint64_t opBudget = 3000000;
    int openFds() const;
    int64_t lastServerEvent = 0;    // last time a server byte / FIN / RST reached the client
    bool trace = false;
    void alarm(const std::string &);
    // internal
    Conn *find(int fd);
    Conn *findAny(int fd);
    void pump();
    bool fault(Op op, Fault &out);
    void tick(Op op);
    uint64_t rnd();
};

// SIGPIPE deliveries recorded by the handler installed at start-up
extern thread_local int tl_sigpipes;
void installSignalMonitor();

// real calls
int realClose(int fd);

}  // namespace sim
