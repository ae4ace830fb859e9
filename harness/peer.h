// Scripted SMTP server: strict protocol state machine, optional TLS, recorded transcript.
#pragma once
#include <map>
#include <memory>
#include <string>
#include <vector>
#include "sim.h"

enum Stage { ST_GREET, ST_EHLO, ST_STARTTLS, ST_HANDSHAKE, ST_EHLO2, ST_AUTH, ST_AUTH_USER, ST_AUTH_PASS, ST_MAIL, ST_RCPT, ST_DATA, ST_EOD, ST_QUIT, ST_OTHER, ST_COUNT };
const char *stageName(int);

struct Reply {
    // What the server sends for one step. Empty text: use the default reply of the step.
    std::string text;           // raw bytes
    bool silent = false;        // send nothing (any more)
    bool close = false;         // FIN after the text
    bool reset = false;         // RST after the text
    bool bypassTls = false;     // inside TLS: put the bytes on the wire as they are
    int64_t delay = 0;          // before the first byte, us
    bool malformed = false;     // for the model: not a well-formed reply
    int code = 0;               // for the model
    static Reply Code(int code, const std::string &text = "");
    static Reply Multi(int code, const std::vector<std::string> &lines);
    static Reply Silent() { Reply r; r.silent = true; return r; }
    static Reply Close() { Reply r; r.close = true; return r; }
    static Reply Rst() { Reply r; r.reset = true; return r; }
    static Reply Raw(const std::string &t) { Reply r; r.text = t; r.malformed = true; return r; }
    std::string show() const;
};

enum CertKind { CK_TRUSTED, CK_EXPIRED, CK_NOTYET, CK_WRONGHOST, CK_UNKNOWNCA, CK_SELFSIGNED, CK_SELFSIGNED_EXPIRED, CK_SELFSIGNED_WRONGHOST, CK_CHAIN_SELFSIGNED_ROOT, CK_WILDCARD, CK_IPSAN, CK_WRONGIP, CK_TRUSTED_INTERMEDIATE, CK_CN_ONLY, CK_MISSING_INTERMEDIATE,
    CK_MULTISAN, CK_CN_RIGHT_SAN_WRONG, CK_NULBYTE, CK_LEAF_ISSUED, CK_FAKE_CA, CK_CLIENT_EKU, CK_UPPERCASE, CK_PARENT_DOMAIN, CK_SUPERDOMAIN, CK_EXPIRED_INTERMEDIATE, CK_ANONYMOUS, CK_WRONGHOST_UNKNOWNCA, CK_SELFSIGNED_CHAINED, CK_EXPIRED_UNKNOWNCA, CK_COUNT };
const char *certName(int);
// what a certificate says about itself, for the verdict
struct CertFacts { bool chain = false, time = true, selfSigned = false, usable = true; std::vector<std::string> dns, ips; bool cnOnly = false; };
CertFacts certFacts(int);

struct Delivery {
    enum Mode { Whole, Bytes, Random, Lines, SplitAt } mode = Whole;
    int64_t maxGap = 0;         // us between pieces (random up to this)
    int64_t budget = 0;         // total extra delay allowed per reply
    int at = 0;                 // SplitAt
    bool tlsRecords = true;     // in TLS: cut at record level (plaintext); otherwise cut the cipher text
    bool cutCipher = false;     // additionally cut the cipher text into random segments
};

struct Script {
    std::string greeting = "mail.example.org ESMTP ready";
    std::string ehloName = "mail.example.org greets you";             // first line of the EHLO replies
    std::vector<std::string> caps = {"PIPELINING", "8BITMIME"};      // clear-text EHLO capabilities
    std::vector<std::string> capsTls = {"PIPELINING", "AUTH PLAIN LOGIN XOAUTH2", "8BITMIME"};
    bool implicitTls = false;
    int cert = CK_TRUSTED;
    int tlsMax = 0;             // 0: default, else TLS1_2_VERSION
    std::map<std::pair<int, int>, Reply> over;   // (stage, occurrence in connection) -> reply
    Delivery delivery;
    std::string afterStartTls;  // clear bytes appended to the STARTTLS reply
    int hsMode = 0;             // handshake misbehaviour: 0 none 1 silent 2 close 3 garbage 4 rst 5 truncated flight then silent 6 truncated then close 7 flight with byte hsBytes inverted
    int hsBytes = 0;
    std::string hsGarbage;      // hsMode 3: what to say instead of a handshake
    int64_t cutAfter = -1; sim::End cutKind = sim::End::None;        // raw server bytes after which the stream stops
    int64_t window = -1; int windowFromStage = -1;                   // stop reading: accept `window` more bytes once the stage's reply has been sent
    std::string say; int sayLines = 1;      // text of every positive reply but EHLO's
    std::string endless; int endlessFrom = -1;   // in clear: text sent without end behind the stage's reply
    bool strict = true;
    uint64_t rng = 1;
    std::string show() const;
};

struct Event {
    enum Kind { Cmd, Reply_, Message, TlsStart, Closed } kind;
    int stage = 0;
    std::string text;           // command line without CRLF / reply bytes / raw message
    bool tls = false;
    bool pending = false;       // sent while unread reply bytes were outstanding
    int64_t at = 0;
    uint64_t rawEnd = 0;        // replies: raw stream offset of the end, cut bytes included
    int64_t availAt = 0;        // replies: when the last byte can be read
    bool complete = false;      // replies: all bytes were put on the wire
    bool stops = false;         // replies: the server says nothing more (silence, FIN or RST behind it)
    int code = 0;
};

struct Delivered { std::string from; std::vector<std::string> rcpts; std::string data; bool tls = false; };

struct SmtpPeer : sim::Peer {
    Script sc;
    std::string hostForCert;
    std::vector<Event> ev;
    std::vector<Delivered> mails;            // messages accepted with 250 after end of data
    std::vector<Delivered> refusedMails;
    std::vector<std::string> proto;          // protocol violations by the client
    std::string clearIn, tlsIn;              // all application bytes received
    bool hsDone = false, tlsOn = false, hsFailed = false, appDataSeen = false, closed = false, quitSeen = false;
    int occ[ST_COUNT] = {};
    std::string user, pass, mech; std::string initialResponse;
    bool authed = false;
    uint64_t hsRawEnd = 0;                   // raw bytes offered when the handshake was over
    bool stopped = false;                    // said its last word (silent/close/reset)
    // transaction
    bool inData = false; std::string data; Delivered cur; bool haveMail = false; int authState = 0;

    explicit SmtpPeer(const Script &s, const std::string &host);
    ~SmtpPeer() override;
    void onConnect(sim::Conn &c) override;
    void onData(sim::Conn &c, const char *p, size_t n, bool pending) override;
    void onClientClose(sim::Conn &c) override;
    std::vector<std::string> commands() const;   // command lines, AUTH decoded as is
    std::string transcript() const;
    bool replyFullyRead(const Event &e, const sim::Conn &c) const { return c.rxConsumed >= e.rawEnd; }

 private:
    struct Tls; std::unique_ptr<Tls> tls;
    std::string line, held;
    bool linePending = false, lineStart = true;
    uint64_t rnd();
    void feed(sim::Conn &c, const char *p, size_t n, bool pending, bool isTls);
    void command(sim::Conn &c, const std::string &l, bool pending, bool isTls, bool moreFollows);
    Reply replyFor(int stage, int &code);
    bool respond(sim::Conn &c, int stage, bool isTls);   // true when the default (positive) reply was sent
    void out(sim::Conn &c, const std::string &t, int64_t delay, bool isTls);
    void startTls(sim::Conn &c);
    void pumpTls(sim::Conn &c, bool pending);
    void flushTls(sim::Conn &c, int64_t delay);
    void emitRaw(sim::Conn &c, const std::string &b, int64_t delay, bool cut);
    int lastCode = 0;
};

std::string defaultReply(const Script &s, int stage, bool tls);
int expectedCode(int stage);
// certificate material, created once per process; returns the path of the trusted CA file
std::string initPki(const std::string &dir, const std::string &host, const std::string &ip);
std::string b64dec(const std::string &);
std::string b64enc(const std::string &);
std::string esc(const std::string &, size_t max = 200);
