#include "core.h"

static std::string cEsc(const std::string &s) { return replaceAll(s, "\r\n", "\\r\\n"); }

struct Entry { std::string text; bool nul = false; bool mask = false, body = false; std::string alt; std::string what; };

// the entries the log has to hold for what this connection saw
static std::vector<Entry> expected(World &w, size_t q, const std::vector<const MsgSpec *> &msgs, bool &judged) {
    SmtpPeer &p = *w.peers[q]; sim::Conn &cn = w.conn(q); std::vector<Entry> v; size_t mi = 0; judged = true;
    for (auto &e : p.ev) {
        if (e.kind == Event::Cmd) {
            if (e.stage == ST_AUTH) { Entry x; x.mask = true; x.what = "masked AUTH"; v.push_back(x); }
            else if (e.stage == ST_AUTH_USER || e.stage == ST_AUTH_PASS) {}
            else { Entry x; x.text = "\nc: " + cEsc(e.text + "\r\n"); x.what = stageName(e.stage) + std::string(" command"); v.push_back(x); }
        } else if (e.kind == Event::Reply_) {
            // the log cannot hold a NUL byte: something, or nothing, stands for it
            bool nul = e.text.find('\0') != std::string::npos;
            ReplyView rv = viewReply(nul ? replaceAll(e.text, std::string(1, '\0'), " ") : e.text);
            if (rv.kind != ReplyView::Well || !e.complete || !p.replyFullyRead(e, cn)) { if (e.stage != ST_QUIT) { judged = rv.kind == ReplyView::Well; } return v; }
            std::string t = e.text; while (!t.empty() && (t.back() == '\r' || t.back() == '\n')) t.pop_back();
            Entry x; x.nul = nul; x.text = "\ns: " + t; x.what = std::string("reply to ") + stageName(e.stage); v.push_back(x);
        } else if (e.kind == Event::Message) {
            std::string s = unstuff(e.text); size_t h = s.find("\r\n\r\n");
            if (h == std::string::npos || mi >= msgs.size()) { judged = false; return v; }
            const MsgSpec &m = *msgs[mi++];
            auto hl = splitLines(s.substr(0, h));
            for (size_t i = 0; i < hl.size(); ++i) { Entry x; x.text = "\nc: " + cEsc(hl[i] + (i + 1 == hl.size() ? "\r\n\r\n" : "\r\n")); x.what = "header"; v.push_back(x); }
            std::string b = s.substr(h + 4); size_t hb = b.find("\r\n\r\n");
            if (hb == std::string::npos || b.compare(hb + 4, m.body.size(), m.body) != 0) { judged = false; return v; }
            Entry x; x.body = true; x.what = "body part"; x.text = "\nc: " + cEsc(b.substr(0, hb + 4) + m.body);
            std::string rb = e.text.substr(e.text.find("\r\n\r\n") + 4); // as sent
            std::string st; for (size_t i = 0, n = hb + 4 + m.body.size(); i < n; ++i) { if (b[i] == '.' && st.size() >= 2 && st.compare(st.size() - 2, 2, "\r\n") == 0) st += '.'; st += b[i]; }
            x.alt = "\nc: " + cEsc(st); v.push_back(x);
            Entry d; d.text = "\nc: \\r\\n.\\r\\n"; d.what = "end of data"; v.push_back(d);
        }
    }
    return v;
}

static bool wireLike(const std::string &skipped, std::string &which) {
    for (size_t i = 0; (i = skipped.find('\n', i)) != std::string::npos; ++i) {
        std::string l = skipped.substr(i + 1, 60);
        if (l.compare(0, 3, "s: ") == 0) { if (l.size() >= 6 && isdigit(static_cast<unsigned char>(l[3])) && isdigit(static_cast<unsigned char>(l[4])) && isdigit(static_cast<unsigned char>(l[5]))) { which = l; return true; } continue; }
        if (l.compare(0, 3, "c: ") != 0) continue;
        std::string u = upperStr(l.substr(3));
        for (const char *p : {"EHLO ", "HELO ", "STARTTLS\\R", "AUTH ", "XOAUTH", "MAIL FROM:", "RCPT TO:", "DATA\\R", "QUIT\\R", "RSET", "FROM:", "TO:", "CC:", "SUBJECT:", "CONTENT-TYPE:", "--", "\\R\\N."}) if (u.compare(0, std::string(p).size(), p) == 0) { which = l; return true; }
    }
    return false;
}

static std::string checkLog(const std::string &log, const std::vector<Entry> &v, bool residual, Ctx &c) {
    size_t at = 0; std::string which;
    for (size_t i = 0; i < v.size(); ++i) {
        const Entry &e = v[i];
        std::string id = "entry " + std::to_string(i + 1) + " of " + std::to_string(v.size()) + ", " + e.what;
        size_t k = std::string::npos, len = 0;
        if (e.mask) {
            k = log.find("*****", at);
            if (k == std::string::npos) return "missing|" + id;
            size_t b = log.rfind('\n', k); if (b == std::string::npos || b < at || log.compare(b, 4, "\nc: ") != 0) return "missing|" + id + " not in a line of its own behind the previous entry";
            size_t n = log.find('\n', k); len = (n == std::string::npos ? log.size() : n) - b; k = b;
        } else {
            k = log.find(e.text, at); len = e.text.size();
            if (e.nul) for (const char *by : {" ", "?", ".", "", "\\0"}) { std::string t = replaceAll(e.text, std::string(1, '\0'), by); size_t k2 = log.find(t, at); if (k2 < k) { k = k2; len = t.size(); } }
            if (e.body && !e.alt.empty()) { size_t k2 = log.find(e.alt, at); if (k2 < k) { k = k2; len = e.alt.size(); } else if (k2 == k && k != std::string::npos) len = std::max(len, e.alt.size()); }
            if (k == std::string::npos) return "missing|" + id + " \"" + esc(e.text, 300) + "\"";
        }
        if (k > at) { std::string sk = log.substr(at, k - at); if (i && v[i - 1].body) { if (sk.size() > 100) return "content|" + std::to_string(sk.size()) + " bytes of message content behind the body part"; } else if (wireLike(sk, which)) return "extra|before " + id + ": \"" + esc(which, 100) + "\""; }
        // nothing may be glued to a command or reply
        at = k + len;
        if (!e.body && !e.mask) while (at < log.size() && (log[at] == '\r' || (log[at] == '\n' && !(log.compare(at, 3, "\nc:") == 0 || log.compare(at, 3, "\ns:") == 0 || log.compare(at, 4, "\nc &") == 0)))) ++at;
        if (!e.body && at < log.size() && log[at] != '\n') return "truncated or extended|" + id + " followed by \"" + esc(log.substr(at, 60)) + "\"";
        c.count("log entries matched"); 
    }
    if (residual && wireLike(log.substr(at), which)) return "extra|behind the last entry: \"" + esc(which, 100) + "\"";
    return "";
}

static void run(Ctx &c, int64_t k) {
    Rng &r = c.rng; Cfg cfg = genCfg(r); const int64_t sweep = 4200;
    int sends = r.range(1, 4); std::vector<Script> scs; bool sw = k < sweep;
    if (sw) { cfg.kind = PLAIN; cfg.cred = false; cfg.cpp = k % 2; sends = 1 + static_cast<int>(k % 2); cfg.batch = k % 4 == 1; cfg.host = "mail.example.org"; cfg.port = 587; cfg.timeout = 5; }
    const bool longLog = !sw && k % 250 == 77;      // logs of megabytes
    if (longLog) { cfg.batch = true; sends = r.range(3, 8); cfg.kind = r.chance(70) ? PLAIN : cfg.kind; }
    for (int i = 0; i < sends; ++i) {
        Script sc = genScript(r, cfg);
        if (longLog) { sc.delivery = Delivery(); scs.push_back(sc); continue; }
        if (sw) { sc = Script(); sc.greeting = std::string(static_cast<size_t>(k % sweep), 'g'); scs.push_back(sc); continue; }
        auto big = [&]() { int n = r.chance(50) ? 4096 * r.range(1, 3) + r.range(-60, 20) : r.chance(50) ? r.range(100, 3000) : r.range(3000, 28000); std::string s; while (static_cast<int>(s.size()) < n) s += uniqueToken(r, 8) + " "; s.resize(static_cast<size_t>(n)); s.back() = 'e'; return s; };
        int x = r.range(0, 7); static const int ST[] = {ST_EHLO, ST_STARTTLS, ST_EHLO2, ST_AUTH, ST_MAIL, ST_RCPT, ST_DATA, ST_EOD, ST_AUTH_USER, ST_AUTH_PASS, ST_QUIT};
        auto multi = [&](int code, int lines) { std::vector<std::string> l; for (int j = 0; j < lines; ++j) l.push_back(r.chance(30) ? genText(r, 60) : uniqueToken(r, r.range(0, 60) + 1)); return Reply::Multi(code, l); };
        if (x <= 2) { int st = ST[r.below(11)]; int code = r.chance(60) ? expectedCode(st) : r.range(400, 599); if (st != ST_EHLO && st != ST_EHLO2) sc.over[{st, r.chance(70) ? 0 : r.range(0, 3)}] = r.chance(50) ? Reply::Code(code, big()) : multi(code, r.range(1, 40)); else { auto &cp = st == ST_EHLO ? sc.caps : sc.capsTls; int n = r.range(1, 60); for (int j = 0; j < n; ++j) cp.push_back("X-CAP " + uniqueToken(r, r.range(1, 120))); } }
        else if (x == 3) { int st = ST[r.below(11)]; int y = r.range(0, 5); sc.over[{st, 0}] = y == 0 ? Reply::Silent() : y == 1 ? Reply::Close() : y == 2 ? Reply::Rst() : y == 3 ? Reply::Code(r.range(100, 599)) : y == 4 ? multi(r.range(400, 599), 3) : Reply::Code(421, big()); }
        else if (x == 4) sc.greeting = big();
        else if (x == 5 && r.chance(40)) { sc.cert = r.range(0, CK_COUNT - 1); }
        else if (x == 6 && r.chance(40)) { sc.cutAfter = r.range(0, 4000); sc.cutKind = r.chance(50) ? sim::End::Fin : sim::End::None; }
        if (r.chance(6)) {   // NUL bytes inside the text of a reply
            static const int SN[] = {ST_GREET, ST_MAIL, ST_RCPT, ST_DATA, ST_EOD, ST_AUTH_PASS}; int st = SN[r.below(6)], code = r.chance(75) ? expectedCode(st) : r.range(400, 599);
            std::vector<std::string> l; for (int j = r.range(1, 3); j > 0; --j) { std::string t = uniqueToken(r, r.range(4, 30)); if (j == 1 || r.chance(30)) t[1 + r.below(t.size() - 2)] = '\0'; l.push_back(t); }
            sc.over[{st, 0}] = Reply::Multi(code, l); c.count("replies with NUL bytes");
        }
        if (r.chance(8)) sc.over[{ST_MAIL, 0}] = Reply::Code(501, "5.1.7 bad address");
        scs.push_back(sc);
    }
    World w(scs[0]); w.scripts = scs; auto cl = makeClient(cfg);
    std::vector<std::unique_ptr<MsgSpec>> all; std::map<size_t, std::vector<const MsgSpec *>> byPeer; std::string hist;
    for (int i = 0; i < sends; ++i) {
        auto m = std::make_unique<MsgSpec>(sw ? MsgSpec() : genMsg(r, r.chance(30) ? &c : nullptr, r.chance(10)));
        if (sw) { m->from = {"a@b.com", ""}; m->to = {{"c@d.org", "C"}}; m->subject = "s"; m->body = "hello"; }
        else if (r.chance(15)) m->subject = std::string(static_cast<size_t>(4096 * r.range(1, 2) + r.range(-80, 10)), 'S');
        else if (r.chance(15)) m->body += std::string(static_cast<size_t>(4096 * r.range(1, 5) + r.range(-200, 10)), 'B');
        if (!sw && r.chance(10)) for (int j = r.range(10, 120); j > 0; --j) m->to.push_back({genMail(r), genName(r)});
        if (longLog) { int n = r.tail(20000, 900000); std::string b; while (static_cast<int>(b.size()) < n) b += uniqueToken(r, 60) + (r.chance(20) ? "\r\n" : " "); m->body = b; }
        else if (!sw && i && r.chance(12)) { cfg.batch = !cfg.batch; cl->setBatch(cfg.batch); }
        SendRec s = doSend(w, *cl, *m);
        hist += std::to_string(s.result) + ";";
        const MsgSpec &ms = *m; all.push_back(std::move(m));
        int peer = -1; bool fresh = s.connsAfter > s.connsBefore;
        if (fresh) peer = s.connsAfter - 1; else for (size_t q = w.peers.size(); q-- > 0;) if (w.peers[q]->ev.size() > s.evBefore[q]) { peer = static_cast<int>(q); break; }
        if (peer < 0) { c.count("sends that reached no server"); continue; }
        size_t q = static_cast<size_t>(peer); SmtpPeer &p = *w.peers[q];
        size_t msgsSeen = 0; for (auto &e : p.ev) msgsSeen += e.kind == Event::Message;
        if (msgsSeen > byPeer[q].size()) byPeer[q].push_back(&ms);
        bool judged; auto v = expected(w, q, byPeer[q], judged);
        c.count("logs judged"); c.count("log bytes", s.log.size()); if (s.log.size() > 4096) c.count("logs beyond 4096 bytes"); if (!fresh) c.count("logs of a continued session");
        std::string msg = checkLog(s.log, v, judged && s.result >= 0 && !w.serverDead(q), c);
        if (!msg.empty()) { size_t bar = msg.find('|'); c.viol("communication log: " + msg.substr(0, bar), describe(w, cfg, p.sc, ms, s.result, msg.substr(bar + 1) + "\nhistory " + hist + "\nlog:\n" + esc(s.log, 5000))); }
        c.distinct(std::to_string(v.size()) + "/" + std::to_string(s.log.size()) + "/" + std::to_string(s.result) + std::to_string(cfg.kind) + (cfg.cpp ? "p" : "c") + (fresh ? "f" : "b"));
        if (s.log != cl->log()) c.viol("communication log changes when read", "");
    }
    c.sample(cfg.show() + " " + scs[0].show().substr(0, 300) + " " + hist);
}
const PropDef theProp = {"C13", [](bool t) -> int64_t { return t ? 250000 : 8500; }, run,
    "After every send the communication log is matched, entry by entry and in order, against what the server of the last session received and the replies the client read: 4200 sessions sweep every alignment of the log buffer's growth step, the rest vary reply, header, body and recipient-list sizes, multi-line replies, NUL bytes in replies, refusals, failures, TLS, authentication, batch histories. Nothing looking like a wire entry may stand between or behind the matched entries. Non-trivial: distinct (entries, log size, result, class, session kind).",
    {"entries that do not come from the wire (progress and TLS notices) may stand anywhere", "replies the properties do not settle, cut replies and commands that could not be sent are not judged"}};
