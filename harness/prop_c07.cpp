#include "core.h"

static std::string sp(std::string s) { for (auto &c : s) if (c == '\r' || c == '\n') c = ' '; return s; }
static std::string squeeze(const std::string &t) { std::string s = sp(t), o; for (char c : s) if (c != ' ' || o.empty() || o.back() != ' ') o += c; return o; }
// Line breaks may become one space each or one per run; everything else is kept
static bool same(const std::string &got, const std::string &want) {
    if (got == sp(want)) return true;
    return want.find_first_of("\r\n") != std::string::npos && trimStr(squeeze(got)) == trimStr(squeeze(want)) && got.size() <= want.size();
}
static std::string inject(Rng &r, const std::string &s) {
    static const std::vector<std::string> P = {"\r\n", "\n", "\r", "\r\n\r\n", "\n\n", "\r\r\n", "\n\r", "\r\n ", "\r\n\t", " \r\n"};
    static const std::vector<std::string> T = {"Bcc: evil@evil.com", "X-Injected: yes", ".", "QUIT", "RCPT TO:<evil@evil.com>", "--sep", "Subject: other", "DATA", "", "\r\nbody", "Content-Type: text/html", "MAIL FROM:<x@y.com>"};
    size_t at = r.below(s.size() + 1);
    std::string v = s.substr(0, at) + r.pick(P) + r.pick(T) + (r.chance(50) ? r.pick(P) : "") + s.substr(at);
    if (r.chance(20)) v += r.pick(P);
    return v;
}
static std::string addrText(const Addr &a) { return a.name.empty() ? a.mail : a.name + " <" + a.mail + ">"; }

static void run(Ctx &c, int64_t k) {
    Rng &r = c.rng;
    Cfg cfg = genCfg(r); if (k % 2) { cfg.kind = PLAIN; }
    Script sc = genScript(r, cfg);
    if (r.chance(15)) sc.over[{ST_MAIL, 0}] = Reply::Code(501);      // the display name is then part of a command
    World w(sc); w.sim.randomShort = r.chance(10); w.sim.rng = r.next() | 1;
    auto cl = makeClient(cfg);
    int sends = cfg.batch ? r.range(1, 3) : 1;
    for (int n = 0; n < sends; ++n) {
        MsgSpec m = genMsg(r, r.chance(25) ? &c : nullptr, r.chance(10));
        if (r.chance(5)) { m.subject = "s"; for (int i = r.range(1, 80); i > 0; --i) { int ch = r.range(1, 255); if (ch != 13 && ch != 10) m.subject += static_cast<char>(ch); } m.subject += "z"; }
        bool inj = r.chance(60);
        if (inj) {
            if (r.chance(60)) m.subject = inject(r, m.subject);
            if (r.chance(40)) m.from.name = inject(r, m.from.name);
            for (auto *l : {&m.to, &m.cc, &m.bcc}) for (auto &a : *l) if (r.chance(30)) a.name = inject(r, a.name);
            for (auto &a : m.atts) { if (r.chance(50)) a.name = inject(r, a.name); if (r.chance(40)) a.cid = inject(r, a.cid); }
        }
        Sent s = sendWalk(w, *cl, cfg, m);
        if (s.peer < 0 || s.walk.noMech || s.walk.ambiguous) break;
        auto bad = [&](const std::string &key, const std::string &d) { c.viol(key, describe(w, cfg, sc, m, s.rec.result, d)); };
        for (auto &d : s.walk.divs) if (d.stage >= ST_MAIL && d.stage != ST_QUIT) bad(std::string("dialogue: ") + d.kind + " at " + stageName(d.stage), d.what);
        auto &p = *w.peers[static_cast<size_t>(s.peer)];
        for (auto &x : p.proto) bad("protocol: " + x.substr(0, 40), x);
        if (!s.walk.haveRaw) { if (s.walk.divs.empty()) bad("no message content reached the server", ""); break; }
        std::string text = unstuff(s.walk.raw);
        size_t e = text.find("\r\n\r\n");
        if (e == std::string::npos) { bad("no end of the header block", ""); break; }
        std::string block = text.substr(0, e);
        if (replaceAll(block, "\r\n", "").find_first_of("\r\n") != std::string::npos) bad("bare CR or LF in the header block", esc(block, 300));
        std::vector<std::string> lines = splitLines(block);
        auto join = [](const std::vector<Addr> &v) { std::string o; for (auto &a : v) o += (o.empty() ? "" : ", ") + addrText(a); return o; };
        std::vector<std::pair<std::string, std::string>> want = {{"From", addrText(m.from)}};
        if (!m.to.empty()) want.push_back({"To", join(m.to)});
        if (!m.cc.empty()) want.push_back({"Cc", join(m.cc)});
        want.push_back({"Subject", m.subject}); want.push_back({"Content-Type", ""});
        c.count("header blocks compared"); c.count("with injected line breaks", inj);
        std::string names; for (auto &l : lines) names += l.substr(0, l.find(':')) + ",";
        if (lines.size() != want.size()) { bad("number of header lines", std::to_string(lines.size()) + " lines (" + esc(names, 200) + "), " + std::to_string(want.size()) + " wanted"); break; }
        for (size_t i = 0; i < want.size(); ++i) {
            size_t q = lines[i].find(": ");
            if (q == std::string::npos && lines[i].size() && lines[i].back() == ':') q = lines[i].size() - 1;
            if (q == std::string::npos || lines[i].substr(0, q) != want[i].first) { bad("header " + want[i].first + " not in its place", "line \"" + esc(lines[i], 150) + "\""); continue; }
            std::string v = lines[i].size() > q + 2 ? lines[i].substr(q + 2) : "";
            if (i + 1 == want.size()) { if (v.compare(0, 10, "multipart/") != 0) bad("message content type", v); continue; }
            if (!same(v, want[i].second)) bad("text of header " + want[i].first, "wanted \"" + esc(want[i].second, 300) + "\" got \"" + esc(v, 300) + "\"");
        }
        Parsed q = parseMessage(s.walk.raw);
        if (!q.ok || q.parts.size() != 1 + m.atts.size()) bad("MIME parts", q.error + " " + std::to_string(q.parts.size()) + " parts");
        else for (auto &pt : q.parts) for (auto &h : pt.headers) { std::string ln = lowerStr(h.first); if (ln != "content-type" && ln != "content-id" && ln != "content-disposition" && ln != "content-transfer-encoding" && ln != "x-attachment-id") bad("additional header in a MIME part", h.first + ": " + h.second); }
        c.distinct(std::to_string(hash64(block)));
        if (n == 0) c.sample("\"" + esc(block, 400) + "\"");
    }
}
const PropDef theProp = {"C07", [](bool t) -> int64_t { return t ? 400000 : 8000; }, run,
    "Random messages with CR, LF and header- or command-like text inserted at random places of subjects, display names, attachment names and content ids; all clients, single and batch, 501 retries that put the display name into a command. The header block, MIME part headers and commands the server received are compared line by line with the message. Non-trivial: distinct header blocks compared.",
    {"the boundary parameter is judged by C05"}};
