// Shared parts of the checks: random generators, message and client descriptions, one interface over the
// six client classes, the world (simulated network + scripted servers) and the case context.
#pragma once
#include <cstdint>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>
#include "message.h"
#include "peer.h"
#include "sim.h"

namespace jed_utils { class Credential; namespace cpp { class Credential; } }

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed) : s(seed ? seed : 0x9E3779B97F4A7C15ull) { for (int i = 0; i < 4; ++i) next(); }
    uint64_t next() { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return s * 0x2545F4914F6CDD1Dull >> 1; }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    int range(int a, int b) { return a + static_cast<int>(below(static_cast<uint64_t>(b - a + 1))); }
    bool chance(int percent) { return range(0, 99) < percent; }
    // every order of magnitude equally often
    int tail(int a, int b) { double lo = a < 1 ? 1 : a, x = lo; double f = static_cast<double>(below(1u << 20)) / (1u << 20); x = lo * __builtin_pow(b / lo, f); int v = static_cast<int>(x); return v < a ? a : v > b ? b : v; }
    template <class T> const T &pick(const std::vector<T> &v) { return v[below(v.size())]; }
};
uint64_t hash64(const std::string &s, uint64_t h = 1469598103934665603ull);

struct Addr { std::string mail, name; };
struct Att { std::string path, name, cid, bytes; bool readable = true; };
struct MsgSpec {
    bool html = false;
    Addr from;
    std::vector<Addr> to, cc, bcc;
    std::string subject, body;
    std::vector<Att> atts;
    std::unique_ptr<jed_utils::Message> makeC() const;
    std::unique_ptr<jed_utils::Message> makeViaCpp() const;
    std::string show() const;
};

enum Kind { PLAIN = 0, OPP = 1, FORCED = 2 };
struct Cfg {
    int kind = PLAIN;
    bool cpp = false;
    std::string host = "mail.example.org";
    unsigned port = 587, timeout = 5;
    bool batch = false, cred = false, selfSigned = false;
    std::string user = "user@example.org", pass = "s3cret!pw";
    int rec = 0;   // RecommendedAuthenticationMethod
    std::string show() const;
};

struct AnyClient {
    virtual ~AnyClient() = default;
    virtual int sendMsg(const jed_utils::Message &) = 0;
    virtual std::string log() const = 0;
    virtual std::string server() const = 0;
    virtual unsigned port() const = 0;
    virtual unsigned timeout() const = 0;
    virtual bool batch() const = 0;
    virtual bool hasCred() const = 0;
    virtual std::string user() const = 0;
    virtual std::string pass() const = 0;
    virtual int rec() const = 0;
    virtual bool selfSigned() const = 0;
    virtual void setServer(const std::string &) = 0;
    virtual void setPort(unsigned) = 0;
    virtual void setTimeout(unsigned) = 0;
    virtual void setBatch(bool) = 0;
    virtual void setCred(const std::string &, const std::string &, int) = 0;
    virtual void setSelfSigned(bool) = 0;
    virtual void setCredObj(const jed_utils::Credential &, const jed_utils::cpp::Credential &) = 0;   // takes the one of its own interface
    virtual void selfSet() = 0;          // every setter with the object's own value
    virtual std::unique_ptr<AnyClient> copy() const = 0;
    virtual std::unique_ptr<AnyClient> move() = 0;
    virtual void assign(const AnyClient &) = 0;
    virtual void moveAssign(AnyClient &) = 0;
    bool cpp = false;
    int send(const MsgSpec &m) { auto p = cpp && !m.to.empty() ? m.makeViaCpp() : m.makeC();   /* the C++ classes want a To */ return sendMsg(*p); }
};
std::unique_ptr<AnyClient> makeClient(const Cfg &);

// Network with one scripted server per connection. Bound to the calling thread while it lives.
struct World {
    sim::Sim sim;
    std::vector<std::shared_ptr<SmtpPeer>> peers;   // by connection that reached the server
    std::vector<int> peerConn;                      // index of the sim connection of each peer
    std::vector<Script> scripts;                    // script of connection i (the last one repeats)
    std::map<int, sim::ConnectPlan> plans;          // overrides by connection number
    std::string host = "mail.example.org", ip = "10.1.2.3";
    int connectCount = 0;
    explicit World(const Script &s = Script());
    ~World();
    sim::Conn &conn(size_t peer) { return *sim.conns[static_cast<size_t>(peerConn[peer])]; }
    std::string transcript() const;
    bool serverDead(size_t peer);   // the server says nothing more on this connection
};

// A violation or observation found in a case
struct Ctx {
    std::string prop, tier;
    uint64_t seed = 1;
    int64_t caseNo = 0;
    bool verbose = false;
    Rng rng{1};
    std::string scratch;            // scratch directory of this worker
    // results
    void viol(const std::string &key, const std::string &detail);
    void count(const std::string &name, uint64_t n = 1);
    void distinct(const std::string &what);      // a distinct non-trivial behaviour observed
    void sample(const std::string &s);
    void inconclusive(const std::string &why);
    bool thorough() const { return tier == "thorough"; }
    int violations = 0;
};

struct PropDef {
    const char *id;
    int64_t (*cases)(bool thorough);
    void (*run)(Ctx &, int64_t caseNo);
    const char *rule;
    std::vector<std::string> assumptions;
};
extern const PropDef theProp;

// ---------------------------------------------------------------- generators (gen.cpp)
std::string genMail(Rng &, bool weird = true);
std::string genName(Rng &, bool mayBeEmpty = true);
std::string genText(Rng &, int maxLen);                 // printable single-line text
std::string genBody(Rng &, int maxLen);                 // hostile body text (no NUL)
MsgSpec genMsg(Rng &, Ctx *att = nullptr, bool big = false);
Cfg genCfg(Rng &);
// capabilities with or without STARTTLS / AUTH lines
std::vector<std::string> genCaps(Rng &, bool starttls, const std::string &auth);
// every reply code 100-999 at every step of a short session; false: the pair settles nothing
constexpr int64_t SWEEPS = 14 * 900;
bool sweepCase(int64_t k, Cfg &, Script &, MsgSpec &, std::string &label);
Script genScript(Rng &, const Cfg &);                   // a cooperative server for this client
std::string uniqueToken(Rng &, int len = 12);
int anyCode(Rng &, int stage);                           // a reply code that does not let the step at this stage go on (nor means something of its own there)
Att makeAtt(Ctx &, const std::string &fileName, const std::string &bytes, const std::string &name, const std::string &cid);

// ---------------------------------------------------------------- models (model.cpp)
// What a capability list offers
struct Caps { bool starttls = false; std::set<std::string> auth; bool hasAuth = false; };
Caps capsOf(const std::string &ehloReply);
// Reply grammar. Ambiguous: the properties do not settle how it is to be taken.
struct ReplyView { enum K { Well, Malformed, Ambiguous } kind = Well; int code = -1; bool incomplete = false; };
ReplyView viewReply(const std::string &bytes);
int certVerdict(const Cfg &, int certKind);              // 1 acceptable, 0 not, -1 not settled
std::string wantedMech(const Cfg &, const Caps &);      // "" when none is usable
std::set<int> failCodes(int stage);

// Walks the recorded trace of one sendMail against the specification of the dialogue
struct Step { int stage; std::string text; bool sent = false; int reply = 0; bool replied = false, ambiguous = false; };
struct Walk {
    std::vector<Step> steps;            // expected steps up to where the dialogue stopped
    bool accepted = false;              // the server accepted the message and told so
    bool completed = false;             // every step was positive
    bool ambiguous = false;             // a reply the specification does not settle
    int stopStage = -1;                 // step that ended the attempt
    bool refused = false; int refusedCode = 0;   // ... by a reply, or else by the transport
    bool certRefused = false, malformed = false, unfinished = false, noMech = false, sessionTls = false;
    int refusedRcpt = 0;
    std::string raw; bool haveRaw = false;   // message content as sent
    std::set<int> codes;                // result codes allowed
    // divergences of the trace from the specification
    struct Div { int stage; std::string what; std::string kind; };
    std::vector<Div> divs;
    size_t nextEvent = 0;               // first event not consumed
    int quits = 0;
};
// conn: index into world.peers; from: first event of this send; fresh: the connection was opened by this send
Walk walkSend(World &, const Cfg &, const MsgSpec &, size_t peer, size_t from, bool fresh);

// One sendMail with its observations
struct SendRec { int result = 0; std::string log; int connsBefore = 0, connsAfter = 0; std::vector<size_t> evBefore; int64_t t0 = 0, t1 = 0; int openAfter = 0; bool threw = false; std::string exc; };
extern thread_local std::string g_threw;              // an exception that left sendMail in this case
SendRec doSend(World &, AnyClient &, const MsgSpec &);

// doSend followed by walkSend on the connection used (peer -1: none reached a server)
struct Sent { SendRec rec; Walk walk; int peer = -1; size_t from = 0; bool fresh = false; };
Sent sendWalk(World &, AnyClient &, const Cfg &, const MsgSpec &);
// the replies of the send taken one by one, without reference to the expected order: was the message accepted?
bool directAccepted(World &, const MsgSpec &, const Sent &, const Cfg &, std::string *why = nullptr);
std::string describe(const World &, const Cfg &, const Script &, const MsgSpec &, int result, const std::string &more = "");

// Message content as a receiver sees it
struct Part { std::vector<std::pair<std::string, std::string>> headers; std::string content; std::string header(const std::string &) const; int count(const std::string &) const; };
struct Parsed { bool ok = false; std::string error; std::vector<std::string> headerLines; std::vector<std::pair<std::string, std::string>> headers; std::string boundary; std::vector<Part> parts; bool closed = false; std::string preamble, epilogue; };
std::string unstuff(const std::string &raw);            // raw: up to and with CRLF.CRLF
Parsed parseMessage(const std::string &raw);
std::string param(const std::string &headerValue, const std::string &name, bool &found);
std::vector<std::string> splitLines(const std::string &s, const std::string &sep = "\r\n");
std::string upperStr(std::string);
std::string lowerStr(std::string);
std::string trimStr(const std::string &);
std::string replaceAll(std::string, const std::string &, const std::string &);
// live bytes allocated (sanitizer allocator)
size_t liveBytes();
// Runs f again and again: bytes that every repetition leaves behind (0: no leak)
long leakPerRun(const std::function<void()> &f);
bool documentedCode(int result);
