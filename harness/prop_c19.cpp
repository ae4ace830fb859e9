#include "core.h"
#include "attachment.h"
#include "credential.h"
#include "errorresolver.h"
#include "htmlmessage.h"
#include "messageaddress.h"
#include "plaintextmessage.h"
#include "cpp/attachment.hpp"
#include "cpp/credential.hpp"
#include "cpp/htmlmessage.hpp"
#include "cpp/messageaddress.hpp"
#include "cpp/plaintextmessage.hpp"
namespace J = jed_utils; namespace P = jed_utils::cpp;

// ---- what can be observed of an object, as text
static std::string f(const std::string &s) { return std::to_string(s.size()) + ":" + s + ";"; }
static std::string cs(const char *p) { return p ? f(p) : "(null);"; }
struct AddrM { std::string mail, name; };
struct AttM { std::string path, name, cid, mime; };
struct CredM { std::string user, pass; int rec; };
struct ErrM { int code; std::string text; };
struct MsgM { bool html; AddrM from; std::vector<AddrM> to, cc, bcc; std::vector<AttM> at; std::string subject, body; };
static std::string full(const AddrM &a) { return a.name.empty() ? a.mail : a.name + " <" + a.mail + ">"; }
static std::string show(const AddrM &a) { return f(a.mail) + f(a.name) + f(full(a)); }
static std::string show(const AttM &a) { return f(a.path) + f(a.name) + f(a.cid) + f(a.mime); }
static std::string show(const CredM &a) { return f(a.user) + f(a.pass) + std::to_string(a.rec); }
static std::string show(const ErrM &a) { return std::to_string(a.code) + f(a.text); }
static std::string show(const P::MessageAddress &); static std::string show(const P::Attachment &);
template <class T> static std::string list(const std::vector<T> &v) { std::string s = std::to_string(v.size()) + "["; for (auto &x : v) s += show(x) + "|"; return s + "]"; }
static std::string show(const MsgM &m) { return std::string(m.html ? "text/html" : "text/plain") + show(m.from) + list(m.to) + list(m.cc) + list(m.bcc) + list(m.at) + f(m.subject) + f(m.body); }
static std::string show(const J::MessageAddress &a) { return cs(a.getEmailAddress()) + cs(a.getDisplayName()) + f(static_cast<std::string>(a)); }
static std::string show(const P::MessageAddress &a) { return f(a.getEmailAddress()) + f(a.getDisplayName()) + f(static_cast<std::string>(a)); }
static std::string show(const J::Attachment &a) { return cs(a.getFilename()) + cs(a.getName()) + cs(a.getContentId()) + cs(a.getMimeType()); }
static std::string show(const P::Attachment &a) { return f(a.getFilename()) + f(a.getName()) + f(a.getContentId()) + f(a.getMimeType()); }
static std::string show(const J::Credential &a) { return cs(a.getUsername()) + cs(a.getPassword()) + std::to_string(a.getRecommendedAuthOption()); }
static std::string show(const P::Credential &a) { return f(a.getUsername()) + f(a.getPassword()) + std::to_string(a.getRecommendedAuthOption()); }
static std::string show(const J::ErrorResolver &a) { return std::to_string(a.getErrorCode()) + cs(a.getErrorMessage()); }
template <class T> static std::string plist(T **p, size_t n) { std::string s = std::to_string(n) + "["; for (size_t i = 0; i < n; ++i) s += (p && p[i] ? show(*p[i]) : "(null)") + "|"; return s + "]"; }
static std::string show(const J::Message &m) { return std::string(m.getMimeType()) + show(m.getFrom()) + plist(m.getTo(), m.getToCount()) + plist(m.getCc(), m.getCcCount()) + plist(m.getBcc(), m.getBccCount()) + plist(m.getAttachments(), m.getAttachmentsCount()) + cs(m.getSubject()) + cs(m.getBody()); }
static std::string show(const P::Message &m) {
    std::string cnt = m.getToCount() == m.getTo().size() && m.getCcCount() == m.getCc().size() && m.getBccCount() == m.getBcc().size() && m.getAttachmentsCount() == m.getAttachments().size() ? "" : "(counts differ)";
    return m.getMimeType() + show(m.getFrom()) + list(m.getTo()) + list(m.getCc()) + list(m.getBcc()) + list(m.getAttachments()) + f(m.getSubject()) + f(m.getBody()) + cnt;
}

// ---- construction and change of objects and their models
static std::string text(Rng &r, int n) { std::string s; int k = r.chance(15) ? 0 : r.range(1, r.chance(4) ? n * 40 : n); for (int i = 0; i < k; ++i) s += static_cast<char>(r.range(1, 255)); return s; }
static std::vector<char> buf(const std::string &s) { std::vector<char> v(s.begin(), s.end()); v.push_back(0); v.shrink_to_fit(); return v; }   // exactly as long as the text: reads behind it are seen
static const std::vector<std::pair<std::string, std::string>> EXT = {{"txt", "text/plain"}, {"png", "image/png"}, {"PDF", "application/pdf"}, {"zip", "application/zip"}, {"nope", ""}};
static AddrM gAddr(Rng &r) { return {genMail(r), text(r, 20)}; }
static AttM gAtt(Rng &r) { auto &e = r.pick(EXT); return {"/nonexistent/" + genMail(r) + "." + e.first, text(r, 15), text(r, 10), e.second}; }
static CredM gCred(Rng &r) { return {"u" + text(r, 15), "p" + text(r, 15), r.range(0, 6)}; }

template <class T> struct Tr;
template <> struct Tr<J::MessageAddress> { using M = AddrM; static M gen(Rng &r) { return gAddr(r); }
    static J::MessageAddress make(Rng &r, const M &m) { auto a = buf(m.mail), b = buf(m.name); if (m.name.empty()) return r.chance(50) ? J::MessageAddress(a.data()) : J::MessageAddress(a.data(), r.chance(50) ? nullptr : b.data()); return J::MessageAddress(a.data(), b.data()); }
    static bool set(Rng &, J::MessageAddress &, M &) { return false; } };
template <> struct Tr<P::MessageAddress> { using M = AddrM; static M gen(Rng &r) { return gAddr(r); }
    static P::MessageAddress make(Rng &, const M &m) { return P::MessageAddress(m.mail, m.name); } static bool set(Rng &, P::MessageAddress &, M &) { return false; } };
template <> struct Tr<J::Attachment> { using M = AttM; static M gen(Rng &r) { return gAtt(r); }
    static J::Attachment make(Rng &r, const M &m) { auto a = buf(m.path), b = buf(m.name), c = buf(m.cid); return J::Attachment(a.data(), m.name.empty() && r.chance(50) ? nullptr : b.data(), m.cid.empty() && r.chance(50) ? nullptr : c.data()); }
    static bool set(Rng &r, J::Attachment &o, M &m) { int x = r.range(0, 3); if (x == 0) { o.setContentId(nullptr); m.cid.clear(); } else if (x == 1) o.setContentId(o.getContentId()); else if (x == 2) { m.cid = m.name; o.setContentId(o.getName()); } else { m.cid = text(r, 30); auto b = buf(m.cid); o.setContentId(b.data()); } return true; } };
template <> struct Tr<P::Attachment> { using M = AttM; static M gen(Rng &r) { return gAtt(r); }
    static P::Attachment make(Rng &, const M &m) { return P::Attachment(m.path, m.name, m.cid); }
    static bool set(Rng &r, P::Attachment &o, M &m) { m.cid = text(r, 30); o.setContentId(m.cid); return true; } };
template <class C> static bool setCred(Rng &r, C &o, CredM &m) {
    int x = r.range(0, 4);
    if (x == 0) { m.user = "x" + text(r, 40); auto b = buf(m.user); o.setUsername(b.data()); } else if (x == 1) { m.pass = "y" + text(r, 40); auto b = buf(m.pass); o.setPassword(b.data()); }
    else if (x == 2) { m.rec = r.range(0, 6); o.setRecommendedAuthOption(static_cast<J::RecommendedAuthenticationMethod>(m.rec)); }
    else if (x == 3) { if (r.chance(50)) { o.setUsername(o.getUsername()); o.setPassword(o.getPassword()); } else { m.user = m.pass; o.setUsername(o.getPassword()); } }
    else { try { if (r.chance(50)) o.setUsername("  "); else o.setPassword(""); } catch (const std::invalid_argument &) { } }
    return true; }
template <> struct Tr<J::Credential> { using M = CredM; static M gen(Rng &r) { return gCred(r); }
    static J::Credential make(Rng &r, const M &m) { auto a = buf(m.user), b = buf(m.pass); if (m.rec == 0 && r.chance(50)) return J::Credential(a.data(), b.data()); return J::Credential(a.data(), b.data(), static_cast<J::RecommendedAuthenticationMethod>(m.rec)); }
    static bool set(Rng &r, J::Credential &o, M &m) { return setCred(r, o, m); } };
template <> struct Tr<P::Credential> { using M = CredM; static M gen(Rng &r) { return gCred(r); }
    static P::Credential make(Rng &, const M &m) { return P::Credential(m.user, m.pass, static_cast<J::RecommendedAuthenticationMethod>(m.rec)); }
    static bool set(Rng &r, P::Credential &o, M &m) { return setCred(r, o, m); } };
template <> struct Tr<J::ErrorResolver> { using M = ErrM; static M gen(Rng &r) { int c = r.chance(60) ? -r.range(0, 110) : r.range(-20000, 20000); J::ErrorResolver e(c); return {c, e.getErrorMessage()}; }
    static J::ErrorResolver make(Rng &, const M &m) { return J::ErrorResolver(m.code); } static bool set(Rng &, J::ErrorResolver &, M &) { return false; } };
static MsgM gMsg(Rng &r, bool html) {
    MsgM m; m.html = html; m.from = gAddr(r); int n = r.range(1, 3); for (int i = 0; i < n; ++i) m.to.push_back(gAddr(r));
    if (r.chance(50)) for (int i = r.range(1, 3); i > 0; --i) m.cc.push_back(gAddr(r)); if (r.chance(50)) for (int i = r.range(1, 3); i > 0; --i) m.bcc.push_back(gAddr(r));
    if (r.chance(50)) for (int i = r.range(1, 3); i > 0; --i) m.at.push_back(gAtt(r)); if (r.chance(3)) { int n2 = r.tail(5, 300), w = r.range(0, 3); while (n2-- > 0) { if (w == 3) m.at.push_back(gAtt(r)); else (w == 0 ? m.to : w == 1 ? m.cc : m.bcc).push_back(gAddr(r)); } } m.subject = text(r, 30); m.body = text(r, 60); if (r.chance(3)) (r.chance(30) ? m.subject : m.body) += std::string(static_cast<size_t>(r.tail(1000, 300000)), 'b') + text(r, 5); return m;
}
template <class T> static T makeJ(Rng &r, const MsgM &m) {
    auto as = [&](const std::vector<AddrM> &v) { std::vector<J::MessageAddress> o; o.reserve(v.size()); for (auto &a : v) o.emplace_back(a.mail.c_str(), a.name.c_str()); return o; };
    auto t = as(m.to), c = as(m.cc), b = as(m.bcc); std::vector<J::Attachment> at; at.reserve(m.at.size()); for (auto &a : m.at) at.emplace_back(a.path.c_str(), a.name.c_str(), a.cid.c_str());
    J::MessageAddress fr(m.from.mail.c_str(), m.from.name.c_str()); auto s = buf(m.subject), bo = buf(m.body);
    const char *sp = m.subject.empty() && r.chance(50) ? nullptr : s.data(), *bp = m.body.empty() && r.chance(50) ? nullptr : bo.data();
    bool zero = r.chance(30);   // an empty list given as a pointer and a count of nothing
    J::MessageAddress any("any@example.org"); J::Attachment anyAt("any.txt");
    const J::MessageAddress *cp = c.empty() ? (zero ? &any : nullptr) : c.data(), *bcp = b.empty() ? (zero ? &any : nullptr) : b.data(); const J::Attachment *ap = at.empty() ? (zero ? &anyAt : nullptr) : at.data();
    if (t.size() == 1 && c.size() <= 1 && b.size() <= 1 && r.chance(60)) return T(fr, t[0], sp, bp, c.empty() ? nullptr : c.data(), b.empty() ? nullptr : b.data(), ap, at.size());
    if (c.empty() && b.empty() && at.empty() && r.chance(40)) return T(fr, t.data(), t.size(), sp, bp);
    return T(fr, t.data(), t.size(), sp, bp, cp, c.size(), bcp, b.size(), ap, at.size());
}
static bool setJ(Rng &r, J::Message &o, MsgM &m) {      // the lists' elements can be changed through the getters
    int x = r.range(0, 3); auto pick = [&](std::vector<AddrM> &v, J::MessageAddress **p) { if (v.empty()) return; size_t i = r.below(v.size()); if (r.chance(30) && v.size() > 1) { size_t j = r.below(v.size()); v[i] = AddrM(v[j]); *p[i] = *p[j]; return; } v[i] = gAddr(r); *p[i] = J::MessageAddress(v[i].mail.c_str(), v[i].name.c_str()); };
    if (x == 0) pick(m.to, o.getTo()); else if (x == 1) pick(m.cc, o.getCc()); else if (x == 2) pick(m.bcc, o.getBcc());
    else if (!m.at.empty()) { size_t i = r.below(m.at.size()); m.at[i].cid = text(r, 12); o.getAttachments()[i]->setContentId(m.at[i].cid.c_str()); }
    return true;
}
template <> struct Tr<J::PlaintextMessage> { using M = MsgM; static M gen(Rng &r) { return gMsg(r, false); } static J::PlaintextMessage make(Rng &r, const M &m) { return makeJ<J::PlaintextMessage>(r, m); } static bool set(Rng &r, J::PlaintextMessage &o, M &m) { return setJ(r, o, m); } };
template <> struct Tr<J::HTMLMessage> { using M = MsgM; static M gen(Rng &r) { return gMsg(r, true); } static J::HTMLMessage make(Rng &r, const M &m) { return makeJ<J::HTMLMessage>(r, m); } static bool set(Rng &r, J::HTMLMessage &o, M &m) { return setJ(r, o, m); } };
template <class T> static T makeP(const MsgM &m) {
    auto as = [&](const std::vector<AddrM> &v) { std::vector<P::MessageAddress> o; for (auto &a : v) o.emplace_back(a.mail, a.name); return o; };
    std::vector<P::Attachment> at; for (auto &a : m.at) at.emplace_back(a.path, a.name, a.cid);
    return T(P::MessageAddress(m.from.mail, m.from.name), as(m.to), m.subject, m.body, as(m.cc), as(m.bcc), at);
}
template <> struct Tr<P::PlaintextMessage> { using M = MsgM; static M gen(Rng &r) { return gMsg(r, false); } static P::PlaintextMessage make(Rng &, const M &m) { return makeP<P::PlaintextMessage>(m); } static bool set(Rng &, P::PlaintextMessage &, M &) { return false; } };
template <> struct Tr<P::HTMLMessage> { using M = MsgM; static M gen(Rng &r) { return gMsg(r, true); } static P::HTMLMessage make(Rng &, const M &m) { return makeP<P::HTMLMessage>(m); } static bool set(Rng &, P::HTMLMessage &, M &) { return false; } };


template <class T> struct Slot { std::unique_ptr<T> o; typename Tr<T>::M m; bool moved = false; };
template <class T> static T passThrough(T x) { return x; }

template <class T> static void history(Ctx &c, const char *type, uint64_t seed, bool report) {
    Rng r(seed); std::vector<Slot<T>> v; std::string hist = std::string(type) + ": "; bool bad = false;
    auto check = [&](const char *op) {
        if (!report || bad) return;
        for (size_t i = 0; i < v.size(); ++i) {
            if (v[i].moved) {
                if constexpr (std::is_base_of<J::Message, T>::value && !std::is_base_of<P::Message, T>::value) {
                    T &o = *v[i].o; auto none = [](const void *p, size_t n) { return !p && n; }; c.count("moved-from messages read");
                    if (none(o.getTo(), o.getToCount()) || none(o.getCc(), o.getCcCount()) || none(o.getBcc(), o.getBccCount()) || none(o.getAttachments(), o.getAttachmentsCount())) { bad = true; c.viol(std::string(type) + " announces entries it does not have after its contents were moved away", hist); return; }
                }
                continue;
            }
            c.count("objects compared with their model");
            std::string a = show(*v[i].o), b = show(v[i].m);
            if (a != b) { bad = true; c.viol(std::string(type) + " differs from its value behind " + op, hist + "\nobject " + std::to_string(i) + ": " + esc(a, 1500) + "\nexpected: " + esc(b, 1500)); return; }
        }
    };
    auto add = [&]() { Slot<T> s; s.m = Tr<T>::gen(r); s.o = std::make_unique<T>(Tr<T>::make(r, s.m)); v.push_back(std::move(s)); };
    auto live = [&](size_t &i) { std::vector<size_t> l; for (size_t k = 0; k < v.size(); ++k) if (!v[k].moved) l.push_back(k); if (l.empty()) return false; i = r.pick(l); return true; };
    add(); add();
    int n = r.range(4, 22);
    for (int k = 0; k < n; ++k) {
        size_t i = 0, j = r.below(v.size()); const char *op = "";
        if (!live(i)) { add(); continue; }
        switch (r.range(0, 13)) {
            case 0: op = "construction"; add(); break;
            case 1: { op = "copy construction"; Slot<T> s; s.m = v[i].m; s.o = std::make_unique<T>(*v[i].o); v.push_back(std::move(s)); } break;
            case 2: case 3: op = "assignment"; *v[j].o = *v[i].o; v[j].m = typename Tr<T>::M(v[i].m); v[j].moved = false; break;
            case 4: { op = "self-assignment"; T &x = *v[i].o; T &y = x; x = y; } break;
            case 5: { op = "move construction"; Slot<T> s; s.m = v[i].m; s.o = std::make_unique<T>(std::move(*v[i].o)); v[i].moved = true; v.push_back(std::move(s)); } break;
            case 6: op = "move assignment"; if (i != j) { *v[j].o = std::move(*v[i].o); v[j].m = v[i].m; v[j].moved = false; v[i].moved = true; } break;
            case 7: { op = "self-move"; if constexpr (!std::is_base_of<P::Message, T>::value) { T &x = *v[i].o; T &y = x; x = std::move(y); } } break;
            case 8: op = "setter"; Tr<T>::set(r, *v[i].o, v[i].m); break;
            case 9: op = "destruction"; if (v.size() > 1) v.erase(v.begin() + static_cast<long>(r.below(v.size()))); break;
            case 10: op = "passing by value"; { Slot<T> s; s.m = v[i].m; s.o = std::make_unique<T>(passThrough<T>(*v[i].o)); v.push_back(std::move(s)); } break;
            case 11: op = "swap"; if (i != j && !v[j].moved) { using std::swap; swap(*v[i].o, *v[j].o); swap(v[i].m, v[j].m); } break;
            case 12: op = "growth of a vector"; { std::vector<T> x; x.push_back(*v[i].o); x.push_back(*v[i].o); size_t q; if (live(q)) { x.push_back(*v[q].o); x.insert(x.begin(), *v[q].o); *v[j].o = x.front(); v[j].m = typename Tr<T>::M(v[q].m); v[j].moved = false; } } break;
            default: op = "assignment of a new object"; { auto m = Tr<T>::gen(r); *v[j].o = Tr<T>::make(r, m); v[j].m = m; v[j].moved = false; } break;
        }
        hist += std::string(op) + " " + std::to_string(i) + "," + std::to_string(j) + "; ";
        check(op); if (bad) return;
    }
    if (report) { c.distinct(hist); c.count("operations", static_cast<uint64_t>(n)); if (c.caseNo % 211 == 0) c.sample(hist); }
}

// equality, mixed message types, conversions
static void relations(Ctx &c, uint64_t seed, bool report) {
    Rng r(seed); auto bad = [&](const char *k, const std::string &d) { if (report) c.viol(k, d); };
    AddrM a = gAddr(r), b = r.chance(50) ? a : gAddr(r); if (r.chance(30)) b.mail = a.mail; if (r.chance(30)) b.name = a.name; bool eq = a.mail == b.mail && a.name == b.name;
    { J::MessageAddress x(a.mail.c_str(), a.name.c_str()), y(b.mail.c_str(), b.name.c_str()), z(x); if ((x == y) != eq || !(z == x)) bad("MessageAddress ==", show(a) + show(b)); }
    { P::MessageAddress x(a.mail, a.name), y(b.mail, b.name), z(x); if ((x == y) != eq || !(z == x)) bad("cpp::MessageAddress ==", show(a) + show(b)); auto s = x.toStdMessageAddress(); x = y; if (show(s) != show(a)) bad("toStdMessageAddress", show(s) + show(a)); }
    AttM t = gAtt(r); { P::Attachment x(t.path, t.name, t.cid); auto s = x.toStdAttachment(); x.setContentId("changed"); if (show(s) != show(t)) bad("toStdAttachment", show(s) + show(t)); }
    MsgM p = gMsg(r, false), h = gMsg(r, true);
    {   J::PlaintextMessage x = makeJ<J::PlaintextMessage>(r, p); J::HTMLMessage y = makeJ<J::HTMLMessage>(r, h);
        J::Message &bx = x; J::Message &by = y; int k = r.range(0, 2); MsgM want = h; want.html = false;
        if (k == 0) bx = by; else if (k == 1) { J::HTMLMessage q(y); bx = q; setJ(r, q, want); want = h; want.html = false; } else { J::HTMLMessage q(y); bx = std::move(static_cast<J::Message &>(q)); }
        if (show(x) != show(want)) bad("assignment between message types", esc(show(x), 1500) + "\n" + esc(show(want), 1500));
        if (show(y) != show(h)) bad("source of an assignment changed", esc(show(y), 1500)); }
    {   auto x = std::make_unique<P::PlaintextMessage>(makeP<P::PlaintextMessage>(p)); J::PlaintextMessage s = static_cast<J::PlaintextMessage>(*x); x.reset(); if (show(s) != show(p)) bad("conversion of a plain text message", esc(show(s), 1500) + "\n" + esc(show(p), 1500));
        auto y = std::make_unique<P::HTMLMessage>(makeP<P::HTMLMessage>(h)); J::HTMLMessage q = static_cast<J::HTMLMessage>(*y); y.reset(); if (show(q) != show(h)) bad("conversion of an HTML message", esc(show(q), 1500) + "\n" + esc(show(h), 1500)); }
    if (report) { c.count("relations checked", 8); c.distinct(show(p) + show(a)); }
}

static void one(Ctx &c, int64_t k, uint64_t seed, bool report) {
    switch (k % 12) {
        case 0: history<J::MessageAddress>(c, "MessageAddress", seed, report); break;
        case 1: history<P::MessageAddress>(c, "cpp::MessageAddress", seed, report); break;
        case 2: history<J::Attachment>(c, "Attachment", seed, report); break;
        case 3: history<P::Attachment>(c, "cpp::Attachment", seed, report); break;
        case 4: history<J::Credential>(c, "Credential", seed, report); break;
        case 5: history<P::Credential>(c, "cpp::Credential", seed, report); break;
        case 6: history<J::ErrorResolver>(c, "ErrorResolver", seed, report); break;
        case 7: history<J::PlaintextMessage>(c, "PlaintextMessage", seed, report); break;
        case 8: history<J::HTMLMessage>(c, "HTMLMessage", seed, report); break;
        case 9: history<P::PlaintextMessage>(c, "cpp::PlaintextMessage", seed, report); break;
        case 10: history<P::HTMLMessage>(c, "cpp::HTMLMessage", seed, report); break;
        default: relations(c, seed, report); break;
    }
}
static void run(Ctx &c, int64_t k) {
    uint64_t seed = c.rng.next();
    one(c, k, seed, true);
    if (c.violations) return;
    long leak = leakPerRun([&]() { one(c, k, seed, false); }); c.count("histories repeated under the heap monitor");
    if (leak > 0) { static const char *N[] = {"MessageAddress", "cpp::MessageAddress", "Attachment", "cpp::Attachment", "Credential", "cpp::Credential", "ErrorResolver", "PlaintextMessage", "HTMLMessage", "cpp::PlaintextMessage", "cpp::HTMLMessage", "conversions"}; c.viol(std::string("memory is not given back: ") + N[k % 12], std::to_string(leak) + " bytes per repetition"); }
}
const PropDef theProp = {"C19", [](bool t) -> int64_t { return t ? 1500000 : 60000; }, run,
    "Random histories over pools of objects of 11 classes (addresses, attachments, credentials, plain-text and HTML messages of both interfaces, error objects): construction with and without optional arguments, copy and move construction and assignment, self-assignment and self-move, setters (also with the object's own text), changes through getters, swap, vectors, passing by value, destruction; plus assignments between message types, equality and conversions. After every operation every object is compared, field by field, with a value model; the history runs under AddressSanitizer (exact-length input buffers) and is repeated under the heap-growth monitor. Non-trivial: distinct histories.",
    {"moved-from objects are only assigned to or destroyed; for messages of the first interface their counts and lists are also read"}};
