#include <stdexcept>
#include <cstring>
#include "attachment.h"
#include "core.h"
#include "cpp/attachment.hpp"
#include "cpp/credential.hpp"
#include "cpp/forcedsecuresmtpclient.hpp"
#include "cpp/messageaddress.hpp"
#include "cpp/opportunisticsecuresmtpclient.hpp"
#include "cpp/smtpclient.hpp"
#include "credential.h"
#include "forcedsecuresmtpclient.h"
#include "messageaddress.h"
#include "opportunisticsecuresmtpclient.h"
#include "smtpclient.h"
namespace J = jed_utils; namespace P = jed_utils::cpp;

// A text value handed to the library, or null, in a block of exactly its size
struct Txt { bool null = false; std::string s; std::string show() const { return null ? "null" : "\"" + esc(s, 120) + "\"" + (s.size() > 120 ? " (" + std::to_string(s.size()) + " bytes)" : ""); } };
struct Buf { std::unique_ptr<char[]> p; explicit Buf(const Txt &t) { if (t.null) return; p.reset(new char[t.s.size() + 1]); memcpy(p.get(), t.s.c_str(), t.s.size() + 1); } operator const char *() const { return p.get(); } };
// 0 accepted, 1 std::invalid_argument, 2 anything else
template <class F> static int attempt(F f, std::string &how) { try { f(); return 0; } catch (const std::invalid_argument &e) { how = e.what(); return 1; } catch (const std::exception &e) { how = std::string("other exception: ") + e.what(); return 2; } catch (...) { how = "unknown exception"; return 2; } }
static void judge(Ctx &c, const std::string &what, const Txt &t, int want, int got, const std::string &how) {
    c.count(want ? "refusals required" : "acceptances required");
    if (got == 2) c.viol(what + ": refused with something else than std::invalid_argument", t.show() + " " + how);
    else if (want == 1 && got == 0) c.viol(what + ": accepts an invalid value", t.show());
    else if (want == 0 && got != 0) c.viol(what + ": refuses a valid value", t.show() + " " + how);
    c.distinct(what + (want ? "-" : "+") + t.show());
}
static std::string S(const char *p) { return p ? p : "(null)"; }

template <class C> static void client(Ctx &c, const std::string &n, const Txt &t, int want) {
    Buf b(t); std::string how;
    judge(c, n + " constructor", t, want, attempt([&]() { C o(b, 25); if (want == 0 && t.s != S(o.getServerName())) c.viol(n + ": server name changed", t.show()); }, how), how);
    C o("first.example.org", 2525); o.setCommandTimeout(9); o.setBatchMode(true); o.setCredentials(J::Credential("user", "pw"));
    judge(c, n + " setServerName", t, want, attempt([&]() { o.setServerName(b); }, how), how);
    std::string now = S(o.getServerName());
    if (now != (want ? "first.example.org" : t.s) || o.getServerPort() != 2525 || o.getCommandTimeout() != 9 || !o.getBatchMode() || !o.getCredentials() || S(o.getCredentials()->getUsername()) != "user") c.viol(n + (want ? ": refused setServerName changes the object" : ": setServerName changes something else"), t.show() + " now " + esc(now));
}
template <class C> static void clientP(Ctx &c, const std::string &n, const Txt &t, int want) {
    if (t.null) return; std::string how;
    judge(c, n + " constructor", t, want, attempt([&]() { C o(t.s, 25); if (want == 0 && t.s != o.getServerName()) c.viol(n + ": server name changed", t.show()); }, how), how);
    C o("first.example.org", 2525); o.setCommandTimeout(9); o.setBatchMode(true); o.setCredentials(P::Credential("user", "pw"));
    judge(c, n + " setServerName", t, want, attempt([&]() { o.setServerName(t.s); }, how), how);
    if (o.getServerName() != (want ? "first.example.org" : t.s) || o.getServerPort() != 2525 || o.getCommandTimeout() != 9 || !o.getBatchMode() || !o.getCredentials() || o.getCredentials()->getUsername() != "user") c.viol(n + (want ? ": refused setServerName changes the object" : ": setServerName changes something else"), t.show());
}
static void server(Ctx &c, const Txt &t, int want) {
    client<J::SmtpClient>(c, "SmtpClient", t, want); client<J::OpportunisticSecureSMTPClient>(c, "OpportunisticSecureSMTPClient", t, want); client<J::ForcedSecureSMTPClient>(c, "ForcedSecureSMTPClient", t, want);
    clientP<P::SmtpClient>(c, "cpp SmtpClient", t, want); clientP<P::OpportunisticSecureSMTPClient>(c, "cpp OpportunisticSecureSMTPClient", t, want); clientP<P::ForcedSecureSMTPClient>(c, "cpp ForcedSecureSMTPClient", t, want);
}
static void cred(Ctx &c, const Txt &u, const Txt &p, int wu, int wp) {
    Buf bu(u), bp(p); std::string how; int want = wu || wp; Txt both; both.s = u.show() + " / " + p.show();
    judge(c, "Credential constructor", both, want, attempt([&]() { J::Credential o(bu, bp); if (!want && (S(o.getUsername()) != u.s || S(o.getPassword()) != p.s)) c.viol("Credential: value changed", both.s); }, how), how);
    judge(c, "Credential constructor with method", both, want, attempt([&]() { J::Credential o(bu, bp, J::kLogin); }, how), how);
    J::Credential o("olduser", "oldpw", J::kPlain);
    judge(c, "Credential setUsername", u, wu, attempt([&]() { o.setUsername(bu); }, how), how);
    if (S(o.getUsername()) != (wu ? "olduser" : u.s) || S(o.getPassword()) != "oldpw" || o.getRecommendedAuthOption() != J::kPlain) c.viol("Credential: setUsername leaves a wrong state", u.show());
    judge(c, "Credential setPassword", p, wp, attempt([&]() { o.setPassword(bp); }, how), how);
    if (S(o.getUsername()) != (wu ? "olduser" : u.s) || S(o.getPassword()) != (wp ? "oldpw" : p.s)) c.viol("Credential: setPassword leaves a wrong state", p.show());
    if (u.null || p.null) return;
    judge(c, "cpp Credential constructor", both, want, attempt([&]() { P::Credential q(u.s, p.s); if (!want && (q.getUsername() != u.s || q.getPassword() != p.s)) c.viol("cpp Credential: value changed", both.s); }, how), how);
    judge(c, "cpp Credential constructor with method", both, want, attempt([&]() { P::Credential q(u.s, p.s, J::kLogin); }, how), how);
    P::Credential q("olduser", "oldpw");
    judge(c, "cpp Credential setUsername", u, wu, attempt([&]() { q.setUsername(u.s); }, how), how); judge(c, "cpp Credential setPassword", p, wp, attempt([&]() { q.setPassword(p.s); }, how), how);
    if (q.getUsername() != (wu ? "olduser" : u.s) || q.getPassword() != (wp ? "oldpw" : p.s)) c.viol("cpp Credential: setter leaves a wrong state", both.s);
}
static void file(Ctx &c, const Txt &t, int want) {
    Buf b(t); std::string how;
    judge(c, "Attachment constructor", t, want, attempt([&]() { J::Attachment o(b, "n", "i"); if (!want && S(o.getFilename()) != t.s) c.viol("Attachment: file name changed", t.show()); J::Attachment o2(b); J::Attachment o3(b, nullptr, nullptr); }, how), how);
    if (!t.null) judge(c, "cpp Attachment constructor", t, want, attempt([&]() { P::Attachment o(t.s, "n", "i"); if (!want && o.getFilename() != t.s) c.viol("cpp Attachment: file name changed", t.show()); }, how), how);
}
static void mail(Ctx &c, const Txt &t, int want) {    // want -1: not settled, only that it ends with one of the two answers
    Buf b(t); std::string how; int g1 = attempt([&]() { J::MessageAddress o(b, "name"); if (S(o.getEmailAddress()) != t.s) c.viol("MessageAddress: address changed", t.show()); }, how);
    if (want < 0) { c.count("unsettled addresses tried"); if (g1 == 2) c.viol("MessageAddress constructor: refused with something else than std::invalid_argument", t.show() + " " + how); if (!t.null) { int g2 = attempt([&]() { P::MessageAddress o(t.s, "name"); }, how); if (g2 != g1) c.viol("cpp MessageAddress: differs from MessageAddress", t.show()); } return; }
    judge(c, "MessageAddress constructor", t, want, g1, how); int g3 = attempt([&]() { J::MessageAddress o(b); }, how); if (g3 != g1) c.viol("MessageAddress: display name changes the verdict", t.show());
    if (!t.null) judge(c, "cpp MessageAddress constructor", t, want, attempt([&]() { P::MessageAddress o(t.s, "name"); if (o.getEmailAddress() != t.s) c.viol("cpp MessageAddress: address changed", t.show()); }, how), how);
}
static std::string rep(Rng &r, const std::string &set, int n) { std::string s; for (int i = 0; i < n; ++i) s += set[r.below(set.size())]; return s; }
static const std::string LET = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ", DIG = "0123456789", WS = " \t\r\n\v\f";
// letters, digits, '_', '-' and single dots inside @ dotted domain ending in two to four letters
static std::string ordinary(Rng &r, int big) {
    std::string L = LET + DIG + "_-", D = LET + DIG + "-", s = rep(r, L, r.range(1, 8)); int n = r.range(0, r.chance(10) ? big : 3);
    for (int i = 0; i < n; ++i) s += "." + rep(r, L, r.range(1, 6)); s += "@";
    int m = r.range(1, r.chance(10) ? big : 3); for (int i = 0; i < m; ++i) s += rep(r, D, r.range(1, 8)) + "."; return s + rep(r, LET, r.range(2, 4));
}
static int verdict(const std::string &s) {            // 1: certainly no address; 0: ordinary; -1: neither
    size_t at = 0; bool bad = s.empty(); for (unsigned char ch : s) { if (ch == '@') ++at; if (ch <= 32 || ch == 127 || ch == '<' || ch == '>') bad = true; }
    if (bad || at != 1 || s[0] == '@' || s.back() == '@') return 1;
    auto set = [](const std::string &x, bool us) { bool prevDot = true; for (char ch : x) { bool ok = isascii(ch) && (isalnum(ch) || ch == '-' || (us && ch == '_')); if (!ok && (ch != '.' || prevDot)) return false; prevDot = ch == '.'; } return !prevDot; };
    size_t a = s.find('@'), d = s.rfind('.'); std::string loc = s.substr(0, a), dom = s.substr(a + 1); if (d == std::string::npos || d < a || !set(loc, true) || !set(dom, false)) return -1;
    std::string tld = s.substr(d + 1); bool al = tld.size() >= 2 && tld.size() <= 4; for (char ch : tld) al = al && isascii(ch) && isalpha(ch); return al ? 0 : -1;
}
static std::string nn(std::string s) { std::string o; for (char ch : s) if (ch) o += ch; return o; }
static std::string any(Rng &r, int n) { std::string s; for (int i = 0; i < n; ++i) s += static_cast<char>(r.range(1, 255)); return s; }
static bool blank(const std::string &s) { return s.find_first_not_of(WS) == std::string::npos; }

static void session(Ctx &c, int64_t k) {   // a refused setter in the middle of an open session
    Rng &r = c.rng; Cfg f; f.kind = static_cast<int>(k % 3); f.cpp = k / 3 % 2; f.batch = true; f.cred = r.chance(50); World w(genScript(r, f)); auto o = makeClient(f); MsgSpec m = genMsg(r); SendRec a = doSend(w, *o, m); if (a.result != 0) { c.count("sessions not opened"); return; }
    std::string how, log = o->log(), user = o->hasCred() ? o->user() : ""; Txt bad; bad.s = r.chance(40) ? "" : rep(r, WS, r.range(1, 20)); size_t ev = w.peers[0]->ev.size();
    judge(c, "setServerName in an open session", bad, 1, attempt([&]() { o->setServer(bad.s); }, how), how);
    judge(c, "setCredentials in an open session", bad, 1, attempt([&]() { o->setCred(bad.s, "pw", 0); }, how), how);
    w.sim.pump(); if (w.peers[0]->ev.size() != ev || w.conn(0).clientClosed) c.viol("refused setter touches the open session", f.show());
    if (o->server() != f.host || o->log() != log || (o->hasCred() ? o->user() : "") != user || !o->batch() || o->port() != f.port) c.viol("refused setter changes a client with an open session", f.show());
    SendRec b = doSend(w, *o, genMsg(r)); if (b.result != 0 || w.sim.conns.size() != 1) c.viol("open session not continued after a refused setter", f.show() + "\n" + w.transcript().substr(0, 3000)); c.count("sessions with refused setters");
}
static void batch(Ctx &c, int64_t k) {
    Rng &r = c.rng; Txt t; bool th = c.thorough();
    switch (k % 8) {
        case 0: for (int i = 0; i < 12; ++i) { t.null = i == 0; t.s = i == 1 ? "" : i < 6 ? rep(r, WS, r.range(1, 6)) : rep(r, WS, r.range(1, 3000)); server(c, t, 1); file(c, t, 1); Txt p; p.s = "pw"; cred(c, t, p, 1, 0); mail(c, t, 1); } break;
        case 1: for (int i = 0; i < 12; ++i) { t.s = r.chance(50) ? rep(r, WS, r.range(0, 3)) + any(r, r.range(1, 40)) + rep(r, WS, r.range(0, 3)) : any(r, r.range(1, 300)); if (blank(t.s)) continue; server(c, t, 0); file(c, t, 0); Txt p; p.s = r.chance(30) ? rep(r, WS, r.range(1, 4)) + "x" : any(r, r.range(1, 60)); cred(c, t, p, 0, 0); } break;
        case 2: for (int i = 0; i < 12; ++i) { Txt u, p; u.null = r.chance(20); u.s = r.chance(30) ? "" : r.chance(40) ? rep(r, WS, r.range(1, 5)) : "user" + any(r, r.range(0, 9)); p.null = r.chance(30); p.s = r.chance(40) ? "" : "p" + any(r, r.range(0, 9)); if (u.null) u.s = ""; if (p.null) p.s = ""; cred(c, u, p, blank(u.s), p.s.empty()); } break;
        case 3: for (int i = 0; i < 150; ++i) { t.s = ordinary(r, 40); mail(c, t, 0); } break;
        case 4: for (int i = 0; i < 150; ++i) { t.s = ordinary(r, 20); for (int j = r.range(1, 3); j-- > 0;) { size_t at = r.below(t.s.size() + 1); static const std::string HOT = std::string(" \t\r\n\v\f@<>.") + "\x7f\x01\x1f\x80\xff,;:\"'()[]\\+!#$%&*/=?^`{|}~"; char ch = HOT[r.below(HOT.size())]; int y = r.range(0, 4); if (y == 0 && at < t.s.size()) t.s[at] = ch; else if (y == 1 && at < t.s.size()) t.s.erase(at, 1); else if (y == 2) t.s.resize(at); else t.s.insert(at, 1, ch); } mail(c, t, verdict(t.s)); } break;
        case 5: for (int i = 0; i < 60; ++i) { t.s = any(r, r.range(0, 30)); mail(c, t, verdict(t.s)); t.s = rep(r, "ab.@-_ \r\n", r.range(0, 12)); mail(c, t, verdict(t.s)); } break;
        case 6: { // long input: ends, and in memory that does not grow with the stack
            int n = r.range(1000, th ? 3000000 : 300000); static const std::vector<std::string> U = {"a", "a.", ".", "-", "a-", "ab.cd", "_", "@", "a@", " ", "\r\n", "\xff", "a.b@", "9"}; std::string u = r.pick(U); while (static_cast<int>(t.s.size()) < n) t.s += u; std::string tail = r.pick(std::vector<std::string>{"", "@example.org", "@", "@" + t.s + ".org", "@" + t.s, "!", "@a.toolong", " "}); if (tail.size() > static_cast<size_t>(n)) tail.resize(tail.size()); t.s += tail; if (r.chance(20)) t.s = "a@" + t.s; mail(c, t, verdict(t.s)); c.count("addresses of more than 1000 bytes"); c.count("largest input (kB, summed)", t.s.size() / 1000);
            Txt q; q.s = any(r, n / 4) + "x"; server(c, q, 0); file(c, q, 0); cred(c, q, q, 0, 0); Txt z; z.s = std::string(static_cast<size_t>(n), ' '); server(c, z, 1); break; }
        default: session(c, k / 8); break;
    }
}
static void run(Ctx &c, int64_t k) {
    if (k == 0) { // fixed list, and every character in every place of a short address
        for (const char *a : {"jdoe@domain.com", "a@b.co", "A_B-c.d@X-Y.info", "first.last@sub.sub2.domain.fr", "1@2.uk", "_@a.com", "-@-.org", "JEREMY@GMAIL.COM", "a.b.c.d.e@f.g.h.ij"}) { Txt t; t.s = a; mail(c, t, 0); }
        for (const char *a : {"", " ", "a", "@", "a@", "@b.com", "a@@b.com", "a@b@c.com", "a b@c.com", "a@c .com", "a@b.com\r\nRCPT TO:<x@y.com>", "a@b.com\n", "\ta@b.com", "a@b.com ", "a\x01@b.com", "a@b.com\x7f", "<a@b.com>", "a@b.com>", "@@", "a@b.com,c@d.com"}) { Txt t; t.s = a; mail(c, t, verdict(t.s) == 0 ? 0 : 1); }
        for (int i = 1; i < 256; ++i) for (size_t at = 0; at <= 11; ++at) { Txt t; t.s = "ab.c@de.f.org"; t.s.insert(at, 1, static_cast<char>(i)); mail(c, t, verdict(t.s)); t.s = "ab.c@de.f.org"; t.s[at] = static_cast<char>(i); mail(c, t, verdict(t.s)); }
        c.sample("fixed list and every byte at every place"); return;
    }
    batch(c, k);
    if (k % 16 == 0 || k % 16 == 2 || k % 16 == 5) { uint64_t seed = c.rng.next(); int v0 = c.violations; long leak = leakPerRun([&]() { Ctx d = c; d.rng = Rng(seed); Rng &r = d.rng; std::string how; for (int i = 0; i < 6; ++i) { std::string u = r.chance(50) ? rep(r, WS, 3) : "u" + nn(any(r, 5)), p = r.chance(50) ? "" : "p", e = rep(r, "ab.@- ", r.range(0, 9)); attempt([&]() { J::Credential o(u.c_str(), p.c_str()); }, how); attempt([&]() { P::Credential o(u, p); }, how); attempt([&]() { J::MessageAddress o(e.c_str()); }, how); attempt([&]() { P::MessageAddress o(e, "n"); }, how); attempt([&]() { J::Attachment o(u.c_str()); }, how); attempt([&]() { P::SmtpClient o(u, 1); o.setServerName(p); }, how); attempt([&]() { J::ForcedSecureSMTPClient o(u.c_str(), 1); o.setServerName(p.c_str()); }, how); attempt([&]() { J::OpportunisticSecureSMTPClient o(u.c_str(), 1); o.setServerName(p.c_str()); }, how); } });
        if (c.violations == v0 && leak > 0) c.viol("refusals leave memory behind", std::to_string(leak) + " bytes per repetition"); c.count("repetitions under the heap monitor"); }
}
const PropDef theProp = {"C23", [](bool t) -> int64_t { return t ? 40000 : 3000; }, run,
    "Null, empty, blank, random, mutated and long values (to 300 kB, 3 MB thorough) are given to every constructor and setter of both interfaces that validates (six clients, two credentials, two attachments, two addresses), in blocks of exactly their size under AddressSanitizer; an oracle written from the property says which are certainly invalid, which are ordinary, and which are not settled; refused setters must leave all getters as they were, also in the middle of an open session, which has to continue on its connection. Every byte at every place of a short address. Non-trivial: distinct (entry point, verdict, value).",
    {"texts that are neither certainly invalid nor ordinary addresses may be accepted or refused, but alike by both interfaces", "C++ strings with embedded NUL bytes are not used"}};
