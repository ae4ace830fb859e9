#include <cstring>
#include <unistd.h>
#include "attachment.h"
#include "core.h"
#include "cpp/attachment.hpp"
#include "cpp/credential.hpp"
#include "cpp/forcedsecuresmtpclient.hpp"
#include "cpp/htmlmessage.hpp"
#include "cpp/messageaddress.hpp"
#include "cpp/opportunisticsecuresmtpclient.hpp"
#include "cpp/plaintextmessage.hpp"
#include "cpp/smtpclient.hpp"
#include "credential.h"
#include "forcedsecuresmtpclient.h"
#include "htmlmessage.h"
#include "messageaddress.h"
#include "opportunisticsecuresmtpclient.h"
#include "plaintextmessage.h"
#include "serverauthoptions.h"
#include "smtpclient.h"
namespace J = jed_utils; namespace P = jed_utils::cpp;

// the static helpers of the two interfaces
template <class B> struct Open : B { using B::B; template <class T> static int code(const T &t) { return B::extractReturnCode(t); } template <class T> static std::string auth(const T &t) { std::unique_ptr<J::ServerAuthOptions> o(B::extractAuthenticationOptions(t)); return o ? std::to_string(o->Plain) + std::to_string(o->Login) + std::to_string(o->XOAuth2) : "none"; } };
static std::string f(const std::string &s) { return std::to_string(s.size()) + ":" + s + ";"; }
static std::string f(const char *s) { return s ? f(std::string(s)) : "(null);"; }
static std::string show(const J::Message &m) {
    auto ad = [](J::MessageAddress **p, size_t n) { std::string s = std::to_string(n) + "["; for (size_t i = 0; i < n; ++i) s += f(p[i]->getEmailAddress()) + f(p[i]->getDisplayName()) + f(static_cast<std::string>(*p[i])); return s + "]"; };
    std::string s = f(m.getMimeType()) + f(m.getFrom().getEmailAddress()) + f(m.getFrom().getDisplayName()) + ad(m.getTo(), m.getToCount()) + ad(m.getCc(), m.getCcCount()) + ad(m.getBcc(), m.getBccCount()) + f(m.getSubject()) + f(m.getBody());
    for (size_t i = 0; i < m.getAttachmentsCount(); ++i) { const J::Attachment &a = *m.getAttachments()[i]; std::unique_ptr<const char[]> b(a.getBase64EncodedFile()); s += f(a.getFilename()) + f(a.getName()) + f(a.getContentId()) + f(a.getMimeType()) + f(b ? b.get() : ""); }
    return s;
}
static std::string show(const P::Message &m) {
    auto ad = [](const std::vector<P::MessageAddress> &v, size_t n) { std::string s = std::to_string(n) + "["; for (auto &a : v) s += f(a.getEmailAddress()) + f(a.getDisplayName()) + f(static_cast<std::string>(a)); return s + "]"; };
    std::string s = f(m.getMimeType()) + f(m.getFrom().getEmailAddress()) + f(m.getFrom().getDisplayName()) + ad(m.getTo(), m.getToCount()) + ad(m.getCc(), m.getCcCount()) + ad(m.getBcc(), m.getBccCount()) + f(m.getSubject()) + f(m.getBody());
    if (m.getAttachmentsCount() != m.getAttachments().size()) s += "(attachment count)";
    for (auto &a : m.getAttachments()) s += f(a.getFilename()) + f(a.getName()) + f(a.getContentId()) + f(a.getMimeType()) + f(a.getBase64EncodedFile());
    return s;
}
static std::string getters(const AnyClient &c) { return f(c.server()) + std::to_string(c.port()) + "," + std::to_string(c.timeout()) + "," + std::to_string(c.batch()) + "," + std::to_string(c.selfSigned()) + "," + std::to_string(c.hasCred()) + f(c.user()) + f(c.pass()) + std::to_string(c.rec()); }
static std::string wire(World &w) {
    std::string s; for (auto &c : w.sim.conns) s += c->addr + ":" + std::to_string(c->port) + (c->clientClosed ? " closed\n" : " open\n");
    for (auto &p : w.peers) { s += p->hsDone ? "TLS " : ""; std::string t = p->tlsIn, cl = p->clearIn; if (p->hsDone || p->tlsOn) { size_t e = cl.find("STARTTLS\r\n"); cl = e == std::string::npos ? "" : cl.substr(0, e + 10); } s += f(cl) + f(t); for (auto &x : p->ev) if (x.kind == Event::Cmd || x.kind == Event::Message) s += x.tls ? "T" : "c"; s += "\n"; }
    for (auto &n : w.sim.resolved) s += n + "\n"; for (auto &a : w.sim.alarms) s += a + "\n"; return s;
}

static void messages(Ctx &c, const MsgSpec &m) {
    auto a = m.makeC(), b = m.makeViaCpp(); c.count("converted messages compared");
    if (show(*a) != show(*b)) c.viol("a converted message differs from the original", m.show() + "\n" + esc(show(*a), 1500) + "\n" + esc(show(*b), 1500));
    std::vector<P::MessageAddress> t, cc, bc; for (auto &x : m.to) t.emplace_back(x.mail, x.name); for (auto &x : m.cc) cc.emplace_back(x.mail, x.name); for (auto &x : m.bcc) bc.emplace_back(x.mail, x.name); std::vector<P::Attachment> at; for (auto &x : m.atts) at.emplace_back(x.path, x.name, x.cid);
    std::unique_ptr<P::Message> p; if (m.html) p = std::make_unique<P::HTMLMessage>(P::MessageAddress(m.from.mail, m.from.name), t, m.subject, m.body, cc, bc, at); else p = std::make_unique<P::PlaintextMessage>(P::MessageAddress(m.from.mail, m.from.name), t, m.subject, m.body, cc, bc, at);
    if (show(*a) != show(*p)) c.viol("a C++ message gives other values than the C message", m.show() + "\n" + esc(show(*a), 1500) + "\n" + esc(show(*p), 1500));
    for (size_t i = 0; i < at.size(); ++i) { J::Attachment j = at[i].toStdAttachment(); std::string x = f(j.getFilename()) + f(j.getName()) + f(j.getContentId()) + f(j.getMimeType()), y = f(m.atts[i].path) + f(m.atts[i].name) + f(m.atts[i].cid) + f(at[i].getMimeType()); if (x != y) c.viol("a converted attachment differs from the original", esc(x, 600) + "\n" + esc(y, 600)); P::Attachment q(m.atts[i].path, m.atts[i].name); q.setContentId(m.atts[i].cid); if (q.getContentId() != m.atts[i].cid || f(q.toStdAttachment().getContentId()) != f(m.atts[i].cid)) c.viol("a content id set on an attachment is lost", esc(m.atts[i].cid)); c.count("converted attachments compared"); }
    for (auto &x : t) { J::MessageAddress j = x.toStdMessageAddress(); if (f(j.getEmailAddress()) + f(j.getDisplayName()) != f(x.getEmailAddress()) + f(x.getDisplayName())) c.viol("a converted address differs from the original", static_cast<std::string>(x)); }
    for (auto &x : t) for (auto &y : t) if ((x == y) != (x.toStdMessageAddress() == y.toStdMessageAddress())) c.viol("addresses compare differently", static_cast<std::string>(x) + " " + static_cast<std::string>(y));
}
static void helpers(Ctx &c) {
    Rng &r = c.rng; for (int i = 0; i < 60; ++i) {
        std::string t; int y = r.range(0, 3); if (y == 0) { int n = r.range(0, 12); for (int j = 0; j < n; ++j) t += static_cast<char>(r.range(1, 255)); } else if (y == 1) t = std::to_string(r.range(0, 2000)) + (r.chance(50) ? " text" : "-x\r\n250 y\r\n"); else { t = "250-mail\r\n"; for (auto &x : genCaps(r, r.chance(50), r.chance(70) ? "PLAIN LOGIN" : "")) t += "250-" + x + "\r\n"; t += "250 OK\r\n"; if (r.chance(30)) t.resize(r.below(t.size())); }
        c.count("helper calls compared"); int a = Open<J::SmtpClient>::code(t.c_str()), b[3] = {Open<P::SmtpClient>::code(t), Open<P::OpportunisticSecureSMTPClient>::code(t), Open<P::ForcedSecureSMTPClient>::code(t)}; for (int x : b) if (x != a) c.viol("extractReturnCode differs", esc(t) + ": " + std::to_string(a) + " " + std::to_string(x));
        std::string d = Open<J::SmtpClient>::auth(t.c_str()); for (auto &x : {Open<P::SmtpClient>::auth(t), Open<P::OpportunisticSecureSMTPClient>::auth(t), Open<P::ForcedSecureSMTPClient>::auth(t)}) if (x != d) c.viol("extractAuthenticationOptions differs", esc(t) + ": " + d + " " + x);
    }
}
struct Act { int what; Cfg v; MsgSpec m; };
static void run(Ctx &c, int64_t k) {
    Rng &r = c.rng; if (k % 20 == 19) helpers(c);
    Cfg base = genCfg(r); base.kind = static_cast<int>(k % 3); base.timeout = static_cast<unsigned>(r.range(2, 8)); if (r.chance(50)) base.cred = true; if (base.cred && base.user.empty()) base.user = "u"; if (base.cred && base.pass.empty()) base.pass = "p";
    bool bare = r.chance(15);
    std::vector<Script> sc; for (int i = 0; i < 8; ++i) {
        Script s = genScript(r, base); s.delivery.maxGap = 0; static const int ST[] = {ST_GREET, ST_EHLO, ST_STARTTLS, ST_EHLO2, ST_AUTH, ST_AUTH_USER, ST_AUTH_PASS, ST_MAIL, ST_RCPT, ST_DATA, ST_EOD};
        if (r.chance(i ? 25 : 12)) { int st = ST[r.below(11)]; Reply q = r.chance(50) ? Reply::Code(r.chance(15) ? 501 : anyCode(r, st)) : r.chance(40) ? Reply::Close() : r.chance(50) ? Reply::Silent() : Reply::Raw("2"); s.over[{st, r.range(0, 1)}] = q; }
        if (r.chance(12)) s.cert = r.range(0, CK_COUNT - 1); if (base.kind == OPP && r.chance(25)) s.caps = genCaps(r, false, "PLAIN LOGIN"); if (r.chance(6)) { s.hsMode = r.range(1, 4); } sc.push_back(s);
    }
    std::vector<Act> acts; int n = r.range(1, 6);
    for (int i = 0; i < n; ++i) { Act a; a.what = i == 0 ? 0 : r.chance(60) ? 0 : r.range(1, 9); a.v = genCfg(r); a.v.kind = base.kind; if (a.v.user.empty()) a.v.user = "u2"; if (a.v.pass.empty()) a.v.pass = "p2"; a.v.rec = r.range(0, 3); a.v.timeout = static_cast<unsigned>(r.range(1, 9)); if (r.chance(8)) { static const unsigned T[] = {60, 255, 256, 300, 301, 900, 3600, 70000}; a.v.timeout = T[r.below(8)]; } if (a.what == 0) { a.m = genMsg(r, &c); if (a.m.to.empty()) a.m.to.push_back({"to@example.org", ""}); } acts.push_back(a); }
    if (r.chance(15)) acts.insert(acts.begin(), Act{r.range(1, 9), base, {}});
    uint64_t seed = r.next() | 1; bool sh = r.chance(10); std::string T[2], first[2]; std::vector<std::string> steps[2];
    for (int v = 0; v < 2; ++v) {
        World w; w.scripts = sc; w.sim.rng = seed; w.sim.randomShort = sh; Cfg f0 = base; f0.cpp = v; if (bare) { f0.cred = f0.batch = f0.selfSigned = false; f0.timeout = 5; }
        w.sim.resolve = [](const std::string &x, std::string &o) { if (lowerStr(x).find("example") == std::string::npos) return false; o = "10.1.2.3"; return true; };
        {
            auto o = makeClient(f0); steps[v].push_back("constructed " + getters(*o));
            for (auto &a : acts) {
                std::string s; switch (a.what) {
                    case 0: { int res = doSend(w, *o, a.m).result; s = "send " + std::to_string(res); break; }
                    case 1: o->setCred(a.v.user, a.v.pass, a.v.rec); s = "credential"; break;
                    case 2: o->setServer("mail.example.org"); s = "server"; break;
                    case 3: o->setPort(a.v.port); s = "port"; break;
                    case 4: o->setTimeout(a.v.timeout); s = "timeout"; break;
                    case 5: o->setBatch(a.v.batch); s = "batch"; break;
                    case 6: o->setSelfSigned(a.v.selfSigned); s = "self-signed"; break;
                    case 7: { auto x = o->copy(); o = std::move(x); s = "copy"; break; }
                    case 8: { auto x = o->move(); o = std::move(x); s = "move"; break; }
                    default: { auto x = makeClient(f0); x->assign(*o); o = std::move(x); s = "assign"; break; }
                }
                w.sim.pump(); steps[v].push_back(s + " " + getters(*o) + f(o->log()) + "descriptors " + std::to_string(w.sim.openFds()));
            }
        }
        w.sim.pump(); steps[v].push_back("end " + wire(w) + std::to_string(w.sim.openFds())); T[v] = w.transcript();
    }
    std::string label; bool differ = false;
    for (size_t i = 0; i < steps[0].size() && !differ; ++i) { label += steps[0][i].substr(0, steps[0][i].find(' ', 5)) + ";"; c.count("observations compared"); if (steps[0][i] != steps[1][i]) { differ = true; size_t q = 0; const std::string &x = steps[0][i], &y = steps[1][i]; while (q < x.size() && q < y.size() && x[q] == y[q]) ++q; size_t b = q > 60 ? q - 60 : 0; std::string what = x.substr(0, x.find(' ')); if (what == "end") what = "bytes on the wire"; c.viol(base.kind == PLAIN ? "SmtpClient: " + what + " differ" : base.kind == OPP ? "Opportunistic: " + what + " differ" : "ForcedSecure: " + what + " differ", base.show() + "\nC:   ..." + esc(x.substr(b, 300), 400) + "\nC++: ..." + esc(y.substr(b, 300), 400) + "\nC:\n" + T[0].substr(0, 2200) + "\nC++:\n" + T[1].substr(0, 2200)); } }
    c.count("histories compared"); c.distinct(std::to_string(base.kind) + label);
    for (auto &a : acts) if (a.what == 0) { messages(c, a.m); break; }
    if (k % 97 == 0) c.sample(label);
}
const PropDef theProp = {"C25", [](bool t) -> int64_t { return t ? 100000 : 6000; }, run,
    "The same history (construct with or without settings, setters, copies, moves, assignments, sends of plain and HTML messages with attachments over servers that also refuse, stall, close, offer no STARTTLS or bad certificates) is executed once with the C classes and once with the C++ classes against identically scripted servers; after every step getters, result, log and open descriptors are compared, at the end all bytes received by the servers, addresses connected to and names resolved. Messages, attachments and addresses converted from the C++ interface are compared field by field with the C objects, the static helpers call by call. Non-trivial: distinct histories and results.",
    {"C++ texts with embedded NUL bytes are not used", "the C++ messages have at least one recipient in To"}};
