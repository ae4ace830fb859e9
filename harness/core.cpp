#include "core.h"
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include "attachment.h"
#include "credential.h"
#include "forcedsecuresmtpclient.h"
#include "htmlmessage.h"
#include "messageaddress.h"
#include "opportunisticsecuresmtpclient.h"
#include "plaintextmessage.h"
#include "smtpclient.h"
#include "cpp/attachment.hpp"
#include "cpp/credential.hpp"
#include "cpp/forcedsecuresmtpclient.hpp"
#include "cpp/htmlmessage.hpp"
#include "cpp/messageaddress.hpp"
#include "cpp/opportunisticsecuresmtpclient.hpp"
#include "cpp/plaintextmessage.hpp"
#include "cpp/smtpclient.hpp"

namespace J = jed_utils;
namespace P = jed_utils::cpp;

uint64_t hash64(const std::string &s, uint64_t h) { for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; } return h; }

static const char *KN[] = {"SmtpClient", "OpportunisticSecureSMTPClient", "ForcedSecureSMTPClient"};
std::string Cfg::show() const {
    std::string s = std::string(cpp ? "cpp::" : "") + KN[kind] + " " + host + ":" + std::to_string(port) + " timeout=" + std::to_string(timeout) + (batch ? " batch" : "") + (selfSigned ? " accept-self-signed" : "");
    if (cred) s += " user=\"" + esc(user, 40) + "\" pass=\"" + esc(pass, 40) + "\" rec=" + std::to_string(rec);
    return s;
}
std::string MsgSpec::show() const {
    auto l = [](const std::vector<Addr> &v) { std::string r = "["; for (size_t i = 0; i < v.size() && i < 6; ++i) r += (v[i].name.empty() ? "" : "\"" + esc(v[i].name, 40) + "\" ") + v[i].mail + ","; if (v.size() > 6) r += "... " + std::to_string(v.size()); return r + "]"; };
    std::string s = std::string(html ? "html" : "plain") + " from=" + l({from}) + " to=" + l(to) + " cc=" + l(cc) + " bcc=" + l(bcc) + " subject=\"" + esc(subject, 60) + "\" body(" + std::to_string(body.size()) + ")=\"" + esc(body, 80) + "\"";
    for (auto &a : atts) s += " att{" + esc(a.path, 80) + " name=\"" + esc(a.name, 40) + "\" cid=\"" + esc(a.cid, 30) + "\" " + std::to_string(a.bytes.size()) + "B" + (a.readable ? "" : " unreadable") + "}";
    return s;
}

std::unique_ptr<J::Message> MsgSpec::makeC() const {
    auto addrs = [](const std::vector<Addr> &v) { std::vector<J::MessageAddress> r; r.reserve(v.size()); for (auto &a : v) r.emplace_back(a.mail.c_str(), a.name.c_str()); return r; };
    auto t = addrs(to), c = addrs(cc), b = addrs(bcc);
    std::vector<J::Attachment> at; at.reserve(atts.size());
    for (auto &a : atts) at.emplace_back(a.path.c_str(), a.name.c_str(), a.cid.c_str());
    J::MessageAddress f(from.mail.c_str(), from.name.c_str());
    if (html) return std::make_unique<J::HTMLMessage>(f, t.data(), t.size(), subject.c_str(), body.c_str(), c.empty() ? nullptr : c.data(), c.size(), b.empty() ? nullptr : b.data(), b.size(), at.empty() ? nullptr : at.data(), at.size());
    return std::make_unique<J::PlaintextMessage>(f, t.data(), t.size(), subject.c_str(), body.c_str(), c.empty() ? nullptr : c.data(), c.size(), b.empty() ? nullptr : b.data(), b.size(), at.empty() ? nullptr : at.data(), at.size());
}
std::unique_ptr<J::Message> MsgSpec::makeViaCpp() const {
    auto addrs = [](const std::vector<Addr> &v) { std::vector<P::MessageAddress> r; for (auto &a : v) r.emplace_back(a.mail, a.name); return r; };
    std::vector<P::Attachment> at;
    for (auto &a : atts) at.emplace_back(a.path, a.name, a.cid);
    P::MessageAddress f(from.mail, from.name);
    if (html) { P::HTMLMessage m(f, addrs(to), subject, body, addrs(cc), addrs(bcc), at); return std::make_unique<J::HTMLMessage>(static_cast<J::HTMLMessage>(m)); }
    P::PlaintextMessage m(f, addrs(to), subject, body, addrs(cc), addrs(bcc), at);
    return std::make_unique<J::PlaintextMessage>(static_cast<J::PlaintextMessage>(m));
}

template <class T, class C, bool CPP, bool SEC>
struct Cl : AnyClient {
    T c;
    Cl(const std::string &h, unsigned p) : c(h.c_str(), p) { cpp = CPP; }
    explicit Cl(const T &o) : c(o) { cpp = CPP; }
    explicit Cl(T &&o) : c(std::move(o)) { cpp = CPP; }
    int sendMsg(const J::Message &m) override { return c.sendMail(m); }
    std::string log() const override { return c.getCommunicationLog(); }
    std::string server() const override { return c.getServerName(); }
    unsigned port() const override { return c.getServerPort(); }
    unsigned timeout() const override { return c.getCommandTimeout(); }
    bool batch() const override { return c.getBatchMode(); }
    bool hasCred() const override { return c.getCredentials() != nullptr; }
    std::string user() const override { return c.getCredentials() ? std::string(c.getCredentials()->getUsername()) : ""; }
    std::string pass() const override { return c.getCredentials() ? std::string(c.getCredentials()->getPassword()) : ""; }
    int rec() const override { return c.getCredentials() ? static_cast<int>(c.getCredentials()->getRecommendedAuthOption()) : -1; }
    bool selfSigned() const override { if constexpr (SEC) return c.getAcceptSelfSignedCert(); else return false; }
    void setServer(const std::string &s) override { c.setServerName(s.c_str()); }
    void setPort(unsigned p) override { c.setServerPort(p); }
    void setTimeout(unsigned t) override { c.setCommandTimeout(t); }
    void setBatch(bool b) override { c.setBatchMode(b); }
    void setCred(const std::string &u, const std::string &p, int r) override { c.setCredentials(C(u.c_str(), p.c_str(), static_cast<J::RecommendedAuthenticationMethod>(r))); }
    void setCredObj(const J::Credential &a, const P::Credential &b) override { if constexpr (CPP) c.setCredentials(b); else c.setCredentials(a); }
    void setSelfSigned(bool b) override { if constexpr (SEC) c.setAcceptSelfSignedCert(b); else (void)b; }
    void selfSet() override { c.setServerName(c.getServerName()); c.setServerPort(c.getServerPort()); c.setBatchMode(c.getBatchMode()); c.setCommandTimeout(c.getCommandTimeout()); if (c.getCredentials()) c.setCredentials(*c.getCredentials()); }
    std::unique_ptr<AnyClient> copy() const override { return std::make_unique<Cl>(c); }
    std::unique_ptr<AnyClient> move() override { return std::make_unique<Cl>(std::move(c)); }
    void assign(const AnyClient &o) override { c = dynamic_cast<const Cl &>(o).c; }
    void moveAssign(AnyClient &o) override { c = std::move(dynamic_cast<Cl &>(o).c); }
};

std::unique_ptr<AnyClient> makeClient(const Cfg &f) {
    std::unique_ptr<AnyClient> r;
    switch (f.kind * 2 + (f.cpp ? 1 : 0)) {
        case 0: r = std::make_unique<Cl<J::SmtpClient, J::Credential, false, false>>(f.host, f.port); break;
        case 1: r = std::make_unique<Cl<P::SmtpClient, P::Credential, true, false>>(f.host, f.port); break;
        case 2: r = std::make_unique<Cl<J::OpportunisticSecureSMTPClient, J::Credential, false, true>>(f.host, f.port); break;
        case 3: r = std::make_unique<Cl<P::OpportunisticSecureSMTPClient, P::Credential, true, true>>(f.host, f.port); break;
        case 4: r = std::make_unique<Cl<J::ForcedSecureSMTPClient, J::Credential, false, true>>(f.host, f.port); break;
        default: r = std::make_unique<Cl<P::ForcedSecureSMTPClient, P::Credential, true, true>>(f.host, f.port); break;
    }
    r->setTimeout(f.timeout);
    if (f.batch) r->setBatch(true);
    if (f.selfSigned) r->setSelfSigned(true);
    if (f.cred) r->setCred(f.user, f.pass, f.rec);
    return r;
}

World::World(const Script &s) {
    scripts.push_back(s);
    sim.resolve = [this](const std::string &n, std::string &out) { if (n == host) { out = ip; return true; } return false; };
    sim.onConnect = [this](sim::Conn &c, const std::string &, int) {
        int k = connectCount++;
        auto it = plans.find(k);
        sim::ConnectPlan p = it != plans.end() ? it->second : sim::ConnectPlan();
        if (p.mode == sim::ConnectPlan::Ok || p.mode == sim::ConnectPlan::OkDelayed) {
            const Script &sc = scripts[std::min(static_cast<size_t>(k), scripts.size() - 1)];
            auto peer = std::make_shared<SmtpPeer>(sc, host);
            peers.push_back(peer); peerConn.push_back(c.index);
            p.peer = peer;
        }
        return p;
    };
    sim.bind();
}
World::~World() { sim.unbind(); }
std::string World::transcript() const {
    std::string r;
    for (size_t i = 0; i < peers.size(); ++i) r += " connection " + std::to_string(i) + ":\n" + peers[i]->transcript();
    for (auto &a : sim.alarms) r += " ALARM " + a + "\n";
    return r;
}
bool World::serverDead(size_t i) {
    sim::Conn &c = conn(i); SmtpPeer &p = *peers[i];
    return p.stopped || c.cutHit || c.rxEnd != sim::End::None || c.window == 0 || p.hsFailed;
}

thread_local std::string g_threw;
SendRec doSend(World &w, AnyClient &cl, const MsgSpec &m) {
    SendRec r;
    r.connsBefore = static_cast<int>(w.peers.size());
    for (auto &p : w.peers) r.evBefore.push_back(p->ev.size());
    r.t0 = w.sim.now;
    try { r.result = cl.send(m); }
    catch (const std::exception &e) { r.threw = true; r.exc = e.what(); r.result = -100000; g_threw = r.exc + describe(w, Cfg(), Script(), m, r.result); }
    w.sim.pump();
    r.t1 = w.sim.now;
    r.connsAfter = static_cast<int>(w.peers.size());
    r.openAfter = w.sim.openFds();
    r.log = cl.log();
    return r;
}

Sent sendWalk(World &w, AnyClient &cl, const Cfg &cfg, const MsgSpec &m) {
    Sent s; s.rec = doSend(w, cl, m);
    if (s.rec.connsAfter > s.rec.connsBefore) { s.peer = s.rec.connsBefore; s.fresh = true; s.from = 0; }
    else {
        for (size_t i = w.peers.size(); i-- > 0;) if (w.peers[i]->ev.size() > s.rec.evBefore[i]) { s.peer = static_cast<int>(i); s.from = s.rec.evBefore[i]; break; }
        if (s.peer < 0 && !w.peers.empty() && cfg.batch && !w.peers.back()->closed) { s.peer = static_cast<int>(w.peers.size()) - 1; s.from = s.rec.evBefore.back(); }
    }
    if (s.peer >= 0) s.walk = walkSend(w, cfg, m, static_cast<size_t>(s.peer), s.from, s.fresh);
    return s;
}

bool directAccepted(World &w, const MsgSpec &m, const Sent &s, const Cfg &cfg, std::string *why) {
    auto no = [&](const std::string &x) { if (why) *why = x; return false; };
    if (s.peer < 0) return no("no connection to a server");
    auto &ev = w.peers[static_cast<size_t>(s.peer)]->ev;
    size_t rcpts = 0; bool mail = false, content = false, data = false; int pendingMail = 0; int64_t since = 0;
    for (size_t i = s.from; i < ev.size(); ++i) {
        const Event &e = ev[i];
        if (e.kind == Event::Cmd || e.kind == Event::Message || (e.kind == Event::Reply_ && e.stage == ST_GREET)) since = e.at;
        if (e.kind != Event::Reply_ || e.stage == ST_QUIT) continue;
        ReplyView v = viewReply(e.text);
        std::string st = stageName(e.stage);
        if (v.kind != ReplyView::Well || !e.complete) return no("the reply to " + st + " was missing, cut off or malformed");
        if (e.availAt - since > (static_cast<int64_t>(cfg.timeout) + 2) * sim::SEC && w.peers[static_cast<size_t>(s.peer)]->sc.delivery.maxGap == 0) return no("the reply to " + st + " came after the timeout");
        int want = expectedCode(e.stage);
        if (e.stage == ST_AUTH && v.code == 334) continue;
        if (e.stage == ST_MAIL) { if (v.code == 501) { pendingMail = 501; continue; } if (v.code != 250) return no("MAIL was answered " + std::to_string(v.code)); pendingMail = 0; mail = true; continue; }
        if (v.code != want) return no(st + " was answered " + std::to_string(v.code));
        if (e.stage == ST_RCPT) ++rcpts;
        if (e.stage == ST_DATA) data = true;
        if (e.stage == ST_EOD) content = true;
    }
    if (pendingMail || !mail) return no("the sender was not accepted");
    if (rcpts < m.to.size() + m.cc.size() + m.bcc.size()) return no("only " + std::to_string(rcpts) + " recipients were accepted");
    if (!data) return no("DATA was not accepted");
    if (!content) return no("the content was not accepted");
    return true;
}

std::string describe(const World &w, const Cfg &cfg, const Script &sc, const MsgSpec &m, int result, const std::string &more) {
    return (more.empty() ? "" : more + "\n") + "client: " + cfg.show() + "\nserver: " + sc.show() + "\nmessage: " + m.show() + "\nresult: " + std::to_string(result) + "\n" + w.transcript();
}

extern "C" size_t __sanitizer_get_current_allocated_bytes() __attribute__((weak));
size_t liveBytes() { return __sanitizer_get_current_allocated_bytes ? __sanitizer_get_current_allocated_bytes() : 0; }

std::string upperStr(std::string s) { for (auto &c : s) if (c >= 'a' && c <= 'z') c = static_cast<char>(c - 32); return s; }
std::string lowerStr(std::string s) { for (auto &c : s) if (c >= 'A' && c <= 'Z') c = static_cast<char>(c + 32); return s; }
std::string trimStr(const std::string &s) { size_t a = s.find_first_not_of(" \t\r\n"); if (a == std::string::npos) return ""; return s.substr(a, s.find_last_not_of(" \t\r\n") - a + 1); }
std::string replaceAll(std::string s, const std::string &a, const std::string &b) { size_t p = 0; while ((p = s.find(a, p)) != std::string::npos) { s.replace(p, a.size(), b); p += b.size(); } return s; }
std::vector<std::string> splitLines(const std::string &s, const std::string &sep) {
    std::vector<std::string> r; size_t i = 0;
    for (;;) { size_t e = s.find(sep, i); if (e == std::string::npos) { r.push_back(s.substr(i)); return r; } r.push_back(s.substr(i, e - i)); i = e + sep.size(); }
}

long leakPerRun(const std::function<void()> &f) {
    f(); long least = 0; size_t before = liveBytes();
    for (int i = 0; i < 4; ++i) {
        f(); size_t now = liveBytes(); long d = static_cast<long>(now) - static_cast<long>(before); before = now;
        if (d <= 0) return 0;
        if (i == 0 || d < least) least = d;
    }
    return least;
}
bool documentedCode(int r) { return r == 0 || (r >= 100 && r <= 999) || (r <= -1 && r >= -10) || r == -20 || r == -21 || r == -30 || r == -31 || (r <= -51 && r >= -60) || (r <= -81 && r >= -99); }
