// Specification side: reply grammar, capability lists, dialogue walk, MIME receiver.
#include <algorithm>
#include "core.h"

static const int64_t S = sim::SEC;

ReplyView viewReply(const std::string &t) {
    ReplyView v;
    if (t.empty()) { v.kind = ReplyView::Malformed; return v; }
    std::vector<std::string> lines; size_t i = 0; bool ended = true;
    while (i < t.size()) { size_t e = t.find('\n', i); if (e == std::string::npos) { lines.push_back(t.substr(i)); ended = false; break; } std::string l = t.substr(i, e - i); if (!l.empty() && l.back() == '\r') l.pop_back(); lines.push_back(l); i = e + 1; }
    auto code = [](const std::string &l) { if (l.size() < 3) return -1; for (int k = 0; k < 3; ++k) if (l[static_cast<size_t>(k)] < '0' || l[static_cast<size_t>(k)] > '9') return -1; int c = std::stoi(l.substr(0, 3)); return c >= 100 ? c : -1; };
    auto sepr = [](const std::string &l) { return l.size() == 3 ? ' ' : l[3]; };
    // where does the reply end?
    size_t last = lines.size();
    for (size_t k = 0; k < lines.size(); ++k) {
        bool whole = k + 1 < lines.size() || ended;
        if (!whole) break;
        int c = code(lines[k]);
        if (c < 0 || sepr(lines[k]) != '-') { last = k; break; }
    }
    if (last == lines.size()) { v.kind = ReplyView::Malformed; v.incomplete = true; return v; }   // no final line
    int first = code(lines[0]), lc = code(lines[last]);
    if (t.find('\0') != std::string::npos || last + 1 != lines.size()) { v.kind = ReplyView::Ambiguous; v.code = lc; if (first < 0 || lc < 0 || first != lc) v.kind = last + 1 == lines.size() ? ReplyView::Malformed : ReplyView::Ambiguous; return v; }
    if (first < 0 || lc < 0 || first != lc) { v.kind = ReplyView::Malformed; return v; }
    v.code = lc;
    char sp = sepr(lines[last]);
    if (sp != ' ' && sp != '\t') v.kind = ReplyView::Ambiguous;
    for (size_t k = 0; k <= last; ++k) if (code(lines[k]) != first) v.kind = ReplyView::Ambiguous;
    if (t.size() > 32768) v.kind = ReplyView::Ambiguous;
    for (size_t k = 0; k + 1 < t.size(); ++k) if (t[k] == '\r' && t[k + 1] != '\n') v.kind = ReplyView::Ambiguous;
    return v;
}

Caps capsOf(const std::string &ehlo) {
    Caps c; size_t k = 0;
    for (std::string l : splitLines(ehlo, "\n")) {
        if (!l.empty() && l.back() == '\r') l.pop_back();
        if (k++ == 0 || l.size() < 4) continue;
        std::string u = upperStr(l.substr(4));
        std::vector<std::string> w; for (auto &x : splitLines(u, " ")) if (!x.empty()) w.push_back(x);
        if (w.empty()) continue;
        if (w[0] == "STARTTLS") c.starttls = true;
        if (w[0] == "AUTH") { c.hasAuth = true; for (size_t i = 1; i < w.size(); ++i) c.auth.insert(w[i]); }
    }
    return c;
}

std::string wantedMech(const Cfg &cfg, const Caps &c) {
    static const char *M[] = {"PLAIN", "LOGIN", "XOAUTH2"};
    for (int i = 0; i < 3; ++i) if ((cfg.rec == 0 || cfg.rec == i + 1) && c.auth.count(M[i])) return M[i];
    return "";
}

std::set<int> failCodes(int st) {
    switch (st) {
        case ST_GREET: return {-3};
        case ST_EHLO: return {-20, -21};
        case ST_STARTTLS: return {-30, -31};
        case ST_HANDSHAKE: return {-51, -52, -53, -54, -55, -56, -57, -58};
        case ST_EHLO2: return {-59, -60};
        case ST_AUTH: case ST_AUTH_USER: case ST_AUTH_PASS: return {-81, -82};
        case ST_MAIL: return {-85, -86};
        case ST_RCPT: return {-87, -88};
        case ST_DATA: return {-89, -90};
        case ST_EOD: return {-91, -92, -93, -94, -95, -96, -97, -98};
        case ST_QUIT: return {0, -99};
        default: return {};
    }
}

int certVerdict(const Cfg &cfg, int k) {
    bool ip = !cfg.host.empty() && cfg.host.find_first_not_of("0123456789.") == std::string::npos;
    CertFacts f = certFacts(k);
    std::string h = lowerStr(cfg.host);
    bool name = false;
    if (ip) { for (auto &x : f.ips) name = name || x == h; }
    else for (auto &x : f.dns) { if (x == h) name = true; if (x.compare(0, 2, "*.") == 0) { size_t d = h.find('.'); if (d != std::string::npos && d > 0 && h.substr(d) == x.substr(1)) name = true; } }
    if (f.selfSigned) return !cfg.selfSigned ? 0 : name && f.time ? 1 : -1;
    if (!f.chain || !f.time || !f.usable) return 0;
    if (f.cnOnly) return name ? -1 : 0;        // no subjectAltName: not settled
    return name ? 1 : 0;
}

namespace {
struct Walker {
    World &w; const Cfg &cfg; const MsgSpec &m; SmtpPeer &p; sim::Conn &conn; size_t peer, i; Walk r; bool stopped = false; bool tls = false;
    Walker(World &w_, const Cfg &c, const MsgSpec &m_, size_t pe, size_t from) : w(w_), cfg(c), m(m_), p(*w_.peers[pe]), conn(w_.conn(pe)), peer(pe), i(from) {}

    const Event *peekClient() { size_t k = i; while (k < p.ev.size() && p.ev[k].kind != Event::Cmd && p.ev[k].kind != Event::Message) ++k; return k < p.ev.size() ? &p.ev[k] : nullptr; }
    void div(int st, const std::string &kind, const std::string &what) { r.divs.push_back({st, what, kind}); stopped = true; r.stopStage = st; }
    void stopTransport(int st) { stopped = true; r.stopStage = st; r.refused = false; r.codes = failCodes(st); }
    // next client event must be a command of this stage accepted by ok(); returns false when the walk ended
    bool expectCmd(int st, const std::function<bool(const std::string &)> &ok, const std::string &wanted) {
        if (stopped) return false;
        const Event *e = peekClient();
        if (!e) {
            if (w.serverDead(peer)) stopTransport(st); else div(st, "missing", "expected " + wanted + ", the client sent nothing more");
            return false;
        }
        if (e->kind != Event::Cmd || !ok(e->text)) { div(st, "unexpected", "expected " + wanted + ", got " + (e->kind == Event::Cmd ? "\"" + esc(e->text, 120) + "\"" : std::string("message content"))); return false; }
        i = static_cast<size_t>(e - &p.ev[0]) + 1;
        r.steps.push_back({st, e->text, true, 0, false, false});
        return true;
    }
    // reply to the step just sent. Returns the code, or -1 when the walk ended here
    int reply(int st, int64_t since) {
        if (stopped) return -1;
        size_t k = i; while (k < p.ev.size() && p.ev[k].kind != Event::Reply_ && p.ev[k].kind != Event::Cmd && p.ev[k].kind != Event::Message) ++k;
        if (k >= p.ev.size() || p.ev[k].kind != Event::Reply_) { stopTransport(st); return -1; }
        const Event &e = p.ev[k]; i = k + 1;
        ReplyView v = viewReply(e.text);
        int64_t T = static_cast<int64_t>(cfg.timeout) * S, wait = e.availAt - since;
        if (!e.complete) {
            // A cut may leave a complete reply behind
            if (v.kind == ReplyView::Ambiguous) { r.ambiguous = true; stopped = true; return -1; }
            stopTransport(st); return -1;
        }
        if (wait > T - S) {
            if (wait > T + 2 * S && p.sc.delivery.maxGap == 0) { stopTransport(st); return -1; }
            r.ambiguous = true; stopped = true; return -1;
        }
        if (v.kind == ReplyView::Ambiguous) { r.ambiguous = true; stopped = true; r.stopStage = st; return -1; }
        if (v.kind == ReplyView::Malformed) {
            r.malformed = true; stopped = true; r.stopStage = st;
            r.codes = failCodes(st);
            r.unfinished = v.incomplete && e.stops;                    // never finished: silence or close instead of an answer
            return -1;
        }
        if (!r.steps.empty()) { r.steps.back().reply = v.code; r.steps.back().replied = true; }
        lastText = e.text; lastAt = e.at;
        return v.code;
    }
    void refuse(int st, int code, std::set<int> codes) { stopped = true; r.stopStage = st; r.refused = true; r.refusedCode = code; r.codes = codes; }
    std::string lastText; int64_t lastAt = 0;
    int64_t now() { return i ? p.ev[i - 1].at : 0; }
    bool simple(int st, const std::function<bool(const std::string &)> &ok, const std::string &wanted, int want) {
        if (!expectCmd(st, ok, wanted)) return false;
        int c = reply(st, now());
        if (stopped) return false;
        if (c != want) { refuse(st, c, {c}); return false; }
        return true;
    }
    bool handshake() {
        if (stopped) return false;
        if (p.sc.hsMode) {
            stopTransport(ST_HANDSHAKE);
            if (p.sc.hsMode >= 5) { for (int c : failCodes(cfg.kind == FORCED ? ST_GREET : ST_EHLO2)) r.codes.insert(c); }
            return false;
        }
        int v = certVerdict(cfg, p.sc.cert);
        if (v == 0) { stopTransport(ST_HANDSHAKE); r.certRefused = true; return false; }
        if (v < 0) { r.ambiguous = true; stopped = true; return false; }
        if (!p.hsDone) { if (w.serverDead(peer)) stopTransport(ST_HANDSHAKE); else div(ST_HANDSHAKE, "missing", "expected a TLS handshake"); return false; }
        if (conn.cutHit && p.hsRawEnd > conn.rxQueued) { stopTransport(ST_HANDSHAKE); return false; }
        return true;
    }
    static bool isEhlo(const std::string &t) { std::string u = upperStr(t); return u.compare(0, 5, "EHLO ") == 0 && u.size() > 5; }

    void session() {
        if (cfg.kind == FORCED && !handshake()) return;
        int64_t since = conn.connectAt < 0 ? 0 : conn.connectAt;
        if (cfg.kind == FORCED) since = 0;
        {
            size_t k = i; while (k < p.ev.size() && p.ev[k].kind != Event::Reply_) ++k;
            if (k < p.ev.size()) since = p.ev[k].at;
            r.steps.push_back({ST_GREET, "", false, 0, false, false});
            int c = reply(ST_GREET, since);
            if (stopped) return;
            if (c != 220) { refuse(ST_GREET, c, {c}); return; }
        }
        tls = cfg.kind == FORCED;
        if (!simple(tls ? ST_EHLO2 : ST_EHLO, isEhlo, "EHLO", 250)) return;
        Caps caps = capsOf(lastText);
        if (cfg.kind == OPP && caps.starttls) {
            if (!simple(ST_STARTTLS, [](const std::string &t) { return upperStr(t) == "STARTTLS"; }, "STARTTLS", 220)) return;
            if (!p.sc.afterStartTls.empty()) { r.ambiguous = true; stopped = true; return; }
            if (!handshake()) return;
            tls = true;
            if (!simple(ST_EHLO2, isEhlo, "EHLO inside TLS", 250)) return;
            caps = capsOf(lastText);
        }
        r.sessionTls = tls;
        if (cfg.cred && (cfg.kind != OPP || tls)) {
            std::string mech = wantedMech(cfg, caps);
            if (mech.empty()) { refuse(ST_AUTH, -84, {-84}); r.noMech = true; return; }
            std::string pre = "AUTH " + mech;
            if (mech == "LOGIN") {
                std::function<bool(const std::string &)> any = [](const std::string &) { return true; };
                if (!expectCmd(ST_AUTH, [&](const std::string &t) { return upperStr(t) == pre; }, pre)) return;
                int c = reply(ST_AUTH, now()); if (stopped) return;
                if (c != 334) { refuse(ST_AUTH, c, {-81}); return; }
                if (!expectCmd(ST_AUTH_USER, any, "user name line")) return;
                c = reply(ST_AUTH_USER, now()); if (stopped) return;
                if (c != 334) { refuse(ST_AUTH_USER, c, {-81}); return; }
                if (!expectCmd(ST_AUTH_PASS, any, "password line")) return;
                c = reply(ST_AUTH_PASS, now()); if (stopped) return;
                if (c != 235) { refuse(ST_AUTH_PASS, c, {c}); return; }
            } else {
                if (!simple(ST_AUTH, [&](const std::string &t) { return upperStr(t.substr(0, pre.size() + 1)) == pre + " "; }, pre, 235)) return;
            }
        }
    }
    static std::string squeeze(std::string s) { for (auto &c : s) if (c == '\r' || c == '\n') c = ' '; std::string o; for (char c : s) if (c != ' ' || o.empty() || o.back() != ' ') o += c; return o; }
    void mail() {
        if (stopped) return;
        const std::string f1 = "MAIL FROM: <" + m.from.mail + ">", f2 = squeeze("MAIL FROM: <" + m.from.name + " " + m.from.mail + ">"), f2b = m.from.name.empty() ? f1 : f2, f3 = "MAIL FROM: " + m.from.mail;
        int c = 0;
        for (int f = 0; f < 3; ++f) {
            const std::string want = f == 0 ? f1 : f == 1 ? f2 : f3;
            if (!expectCmd(ST_MAIL, [&](const std::string &t) { return f == 1 ? squeeze(t) == f2 || t == f2b : t == want; }, "\"" + want + "\"")) return;
            c = reply(ST_MAIL, now()); if (stopped) return;
            if (c == 250) break;
            if (c != 501 || f == 2) { refuse(ST_MAIL, c, {c}); return; }
        }
        for (const auto *l : {&m.to, &m.cc, &m.bcc}) {
            int bad = 0;
            for (auto &a : *l) {
                const std::string want = "RCPT TO: <" + a.mail + ">";
                if (!expectCmd(ST_RCPT, [&](const std::string &t) { return t == want; }, "\"" + want + "\"")) return;
                c = reply(ST_RCPT, now()); if (stopped) return;
                if (c != 250) { bad = c; r.refusedRcpt++; }
            }
            if (bad) { refuse(ST_RCPT, bad, {bad}); return; }
        }
        if (!simple(ST_DATA, [](const std::string &t) { return upperStr(t) == "DATA"; }, "DATA", 354)) return;
        const Event *e = peekClient();
        if (!e) { if (w.serverDead(peer)) stopTransport(ST_EOD); else div(ST_EOD, "missing", "expected the message content, the client sent nothing complete"); return; }
        if (e->kind != Event::Message) { div(ST_EOD, "unexpected", "expected the message content, got \"" + esc(e->text, 100) + "\""); return; }
        i = static_cast<size_t>(e - &p.ev[0]) + 1;
        r.raw = e->text; r.haveRaw = true;
        r.steps.push_back({ST_EOD, "", true, 0, false, false});
        c = reply(ST_EOD, now()); if (stopped) return;
        if (c != 250) { refuse(ST_EOD, c, {c}); return; }
        r.completed = true; r.codes = {0};
    }
    void tail() {
        // what follows the last step
        while (const Event *e = peekClient()) {
            size_t k = static_cast<size_t>(e - &p.ev[0]);
            if (e->kind == Event::Cmd && upperStr(e->text) == "QUIT") { ++r.quits; i = k + 1; continue; }
            if (r.ambiguous || !r.divs.empty()) { i = k + 1; continue; }
            r.divs.push_back({e->stage, std::string("sent ") + (e->kind == Event::Cmd ? "\"" + esc(e->text, 100) + "\"" : "message content") + " after " + (r.completed ? "the message was complete" : "the failed step"), "continued"});
            i = k + 1;
        }
        if (r.completed) {
            if (w.serverDead(peer)) r.codes = {0, -99};
            if (!cfg.batch && r.quits != 1 && !w.serverDead(peer)) r.divs.push_back({ST_QUIT, std::to_string(r.quits) + " QUIT commands after the message", "quit"});
            if (cfg.batch && r.quits != 0) r.divs.push_back({ST_QUIT, "QUIT between the messages of a batch", "quit"});
        }
        r.nextEvent = p.ev.size();
    }
};
}  // namespace

Walk walkSend(World &w, const Cfg &cfg, const MsgSpec &m, size_t peer, size_t from, bool fresh) {
    Walker k(w, cfg, m, peer, from);
    if (fresh) k.session();
    k.mail();
    k.tail();
    return k.r;
}

// ---------------------------------------------------------------- receiver
std::string unstuff(const std::string &raw) {
    std::string s = raw;
    if (s.size() >= 5 && s.compare(s.size() - 5, 5, "\r\n.\r\n") == 0) s.resize(s.size() - 3);
    else if (s == ".\r\n") s.clear();
    std::string o; bool bol = true;
    for (size_t i = 0; i < s.size(); ++i) {
        if (bol && s[i] == '.') { bol = false; continue; }
        o += s[i];
        bol = s[i] == '\n' && i > 0 && s[i - 1] == '\r';
    }
    return o;
}
std::string Part::header(const std::string &n) const { for (auto &h : headers) if (lowerStr(h.first) == lowerStr(n)) return h.second; return ""; }
int Part::count(const std::string &n) const { int c = 0; for (auto &h : headers) if (lowerStr(h.first) == lowerStr(n)) ++c; return c; }

static bool parseHeaders(const std::string &block, std::vector<std::pair<std::string, std::string>> &out, std::vector<std::string> *lines, std::string &err) {
    for (auto &l : splitLines(block)) {
        if (lines) lines->push_back(l);
        if (!l.empty() && (l[0] == ' ' || l[0] == '\t') && !out.empty()) { out.back().second += l; continue; }
        size_t c = l.find(':');
        if (c == std::string::npos || c == 0 || l.find_first_of(" \t") < c) { err = "not a header line: " + esc(l, 80); return false; }
        std::string v = l.substr(c + 1); if (!v.empty() && v[0] == ' ') v.erase(0, 1);
        out.push_back({l.substr(0, c), v});
    }
    return true;
}
std::string param(const std::string &h, const std::string &name, bool &found) {
    found = false; size_t i = h.find(';');
    while (i != std::string::npos && i < h.size()) {
        ++i; while (i < h.size() && (h[i] == ' ' || h[i] == '\t')) ++i;
        size_t e = h.find_first_of("=;", i);
        if (e == std::string::npos) return "";
        std::string n = lowerStr(h.substr(i, e - i));
        if (h[e] == ';') { i = e; continue; }
        std::string v; size_t k = e + 1;
        if (k < h.size() && h[k] == '"') { ++k; while (k < h.size() && h[k] != '"') { if (h[k] == '\\' && k + 1 < h.size()) ++k; v += h[k++]; } i = h.find(';', k); }
        else { size_t z = h.find(';', k); v = h.substr(k, z == std::string::npos ? z : z - k); i = z; }
        if (n == lowerStr(name)) { found = true; return v; }
    }
    return "";
}
Parsed parseMessage(const std::string &raw) {
    Parsed p; std::string s = unstuff(raw);
    size_t h = s.find("\r\n\r\n");
    std::vector<std::pair<std::string, std::string>> hs;
    if (h == std::string::npos) { p.error = "no end of the header block"; for (auto &l : splitLines(s)) p.headerLines.push_back(l); return p; }
    if (!parseHeaders(s.substr(0, h), hs, &p.headerLines, p.error)) return p;
    p.headers = hs;
    std::string ct; for (auto &x : hs) if (lowerStr(x.first) == "content-type") ct = x.second;
    if (lowerStr(ct).compare(0, 10, "multipart/") != 0) { p.error = "Content-Type is not multipart: " + esc(ct, 80); return p; }
    bool f; p.boundary = param(ct, "boundary", f);
    while (!p.boundary.empty() && p.boundary.back() == ' ') p.boundary.pop_back();
    if (!f || p.boundary.empty()) { p.error = "no boundary"; return p; }
    std::string b = "\r\n" + s.substr(h + 4);          // every delimiter line is preceded by CRLF
    std::string d = "\r\n--" + p.boundary;
    size_t i = b.find(d);
    if (i == std::string::npos) { p.error = "boundary never used"; return p; }
    p.preamble = i > 2 ? b.substr(2, i - 2) : "";
    for (;;) {
        size_t k = i + d.size();
        bool close = b.compare(k, 2, "--") == 0;
        if (close) k += 2;
        while (k < b.size() && (b[k] == ' ' || b[k] == '\t')) ++k;
        if (close) {
            p.closed = true;
            if (k < b.size() && b.compare(k, 2, "\r\n") != 0) { p.error = "text on the closing delimiter line"; return p; }
            p.epilogue = k + 2 <= b.size() ? b.substr(k + 2) : "";
            break;
        }
        if (b.compare(k, 2, "\r\n") != 0) { p.error = "text behind a delimiter: " + esc(b.substr(k, 40), 60); return p; }
        size_t n = b.find(d, k);
        std::string part = b.substr(k + 2, n == std::string::npos ? n : (n >= k + 2 ? n - k - 2 : 0));
        Part q; size_t e;
        if (part.compare(0, 2, "\r\n") == 0) q.content = part.substr(2);
        else {
            e = part.find("\r\n\r\n");
            std::string hb = e == std::string::npos ? part : part.substr(0, e);
            if (!parseHeaders(hb, q.headers, nullptr, p.error)) return p;
            q.content = e == std::string::npos ? "" : part.substr(e + 4);
        }
        p.parts.push_back(q);
        if (n == std::string::npos) { p.error = "multipart not closed"; return p; }
        i = n;
    }
    p.ok = true;
    return p;
}
