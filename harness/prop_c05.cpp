#include "core.h"

static const int SWEEP = 1180;
std::string qpdec(const std::string &s) {
    std::string o;
    for (size_t i = 0; i < s.size(); ++i) {
        if (s[i] == '=' && s.compare(i, 3, "=\r\n") == 0) { i += 2; continue; }
        if (s[i] == '=' && i + 2 < s.size() && isxdigit(static_cast<unsigned char>(s[i + 1])) && isxdigit(static_cast<unsigned char>(s[i + 2]))) { o += static_cast<char>(std::stoi(s.substr(i + 1, 2), nullptr, 16)); i += 2; continue; }
        o += s[i];
    }
    return o;
}
static void run(Ctx &c, int64_t k) {
    Rng &r = c.rng; Cfg cfg; MsgSpec m; Script sc;
    if (k < 3 * SWEEP) {
        // length sweep around the chunk size; k / SWEEP selects the filling
        int len = static_cast<int>(k % SWEEP), f = static_cast<int>(k / SWEEP);
        cfg.kind = len % 11 == 0 ? FORCED : len % 13 == 0 ? OPP : PLAIN; cfg.cpp = len % 2 == 1;
        static const char *PAT[] = {"x", "\r\n.", ".\r\n"};
        while (static_cast<int>(m.body.size()) < len) m.body += f == 0 ? std::string(1, static_cast<char>('a' + m.body.size() % 26)) : PAT[f];
        m.body.resize(static_cast<size_t>(len));
        m.from = {"a@b.com", ""}; m.to = {{"c@d.com", ""}}; m.subject = "s"; m.html = k % 2;
    } else {
        cfg = genCfg(r); if (k % 2) cfg.kind = PLAIN;
        m = genMsg(r, r.chance(25) ? &c : nullptr);
        int x = r.range(0, 99);
        if (x < 55) m.body = genBody(r, r.chance(20) ? 6000 : r.chance(50) ? 1400 : 40);
        else if (x < 70) { std::string pre(static_cast<size_t>(r.range(0, 1100)), 'y'); m.body = pre + genBody(r, 30) + "\r\n." + (r.chance(50) ? "\r\n" : "") + genBody(r, 20); }
        else if (x < 80) { m.body.clear(); int n = r.range(0, 400); for (int i = 0; i < n; ++i) m.body += static_cast<char>(r.range(1, 255)); }
        else if (r.below(1200) == 0) { m.body.clear(); int n = r.tail(300000, c.thorough() ? 8000000 : 3000000); while (static_cast<int>(m.body.size()) < n) m.body += r.chance(3) ? "\r\n." : r.chance(3) ? "\r\n" : "some text of a line "; }
        else if (x == 80) { m.body.clear(); int n = r.tail(5, 1500); if (r.chance(80)) m.body = "--sep\r\n"; for (int i = 0; i < n; ++i) m.body += "\r\n--sep" + std::to_string(i) + (r.chance(20) ? "--" : "") + "\r\n"; }
        else if (x < 84) { m.body.clear(); int n = r.range(20000, c.thorough() ? 2000000 : 200000); { int h = r.range(0, 3); while (static_cast<int>(m.body.size()) < n) m.body += h && r.chance(3) ? "\r\n." : r.chance(3) ? "\r\n" : "some text of a line "; if (h < 2) m.body += r.pick(std::vector<std::string>{"\r\n--sep\r\n", "\r\n--sep--\r\n", "\n--sep--", "\r\n.\r\n", "\r\n.", "\r\n.\r\nQUIT\r\n"}) + (r.chance(50) ? genBody(r, 60) : ""); } }
        else if (x < 90) { m.body.clear(); for (int i = r.range(1, 6); i > 0; --i) { m.body += "\r\n--sep"; if (r.chance(60)) m.body += std::to_string(r.range(1, 6)); if (r.chance(40)) m.body += "--"; m.body += "\r\n"; } }
        else if (x < 95) { static const std::vector<std::string> W = {".", "..", ".\r\n", "\r\n.", "\r\n.\r\n", "\r\n.\r\n.\r\n", ".\r\n.\r\n", "\r", "\n", "\r\n", "", "\n.\n", "\r.\r", ".\r", "\r\n.\r", "x\r\n.\r\nQUIT\r\n", "x\n.\nQUIT\n"}; m.body = r.pick(W); }
    }
    if (k >= 3 * SWEEP) sc = genScript(r, cfg); else { sc.implicitTls = cfg.kind == FORCED; if (cfg.kind == OPP) sc.caps.push_back("STARTTLS"); }
    World w(sc); w.sim.randomShort = r.chance(20); w.sim.rng = r.next() | 1;
    auto cl = makeClient(cfg);
    Sent s = sendWalk(w, *cl, cfg, m);
    auto bad = [&](const std::string &key, const std::string &d) { c.viol(key, describe(w, cfg, sc, m, s.rec.result, d)); };
    if (s.peer < 0) return;
    auto &p = *w.peers[static_cast<size_t>(s.peer)];
    if (!s.walk.haveRaw) {
        if (s.walk.noMech || s.walk.ambiguous) return;
        bad("no complete message content reached the server", s.walk.divs.empty() ? "" : s.walk.divs[0].what); return;
    }
    // the content is one piece: nothing of it was taken for commands
    for (auto &d : s.walk.divs) if (d.kind == "continued") bad("the message ended early or started another command", d.what);
    for (auto &x : p.proto) if (x.find("recipient") == std::string::npos) bad("protocol: " + x.substr(0, 30), x);
    Parsed q = parseMessage(s.walk.raw);
    c.count("contents decoded"); c.count("bytes of body compared", m.body.size());
    if (!q.ok) { bad("content not parsable: " + q.error.substr(0, 40), q.error); return; }
    if (!q.closed) bad("multipart not closed", "");
    if (q.parts.size() != 1 + m.atts.size()) { bad("number of MIME parts", std::to_string(q.parts.size()) + " parts"); return; }
    const Part &b = q.parts[0];
    std::string ct = lowerStr(b.header("Content-Type"));
    bool f; std::string cs = lowerStr(param(b.header("Content-Type"), "charset", f));
    if (b.count("Content-Type") != 1 || trimStr(ct.substr(0, ct.find(';'))) != (m.html ? "text/html" : "text/plain")) bad("body content type", ct);
    if (!f || cs != "utf-8") bad("body charset", ct);
    std::string got = b.content, cte = lowerStr(trimStr(b.header("Content-Transfer-Encoding")));
    if (cte == "base64") got = b64dec(got); else if (cte == "quoted-printable") got = qpdec(got);
    else if (!cte.empty() && cte != "7bit" && cte != "8bit" && cte != "binary") bad("body transfer encoding", cte);
    if (got.compare(0, m.body.size(), m.body) != 0 || got.find_first_not_of("\r\n", m.body.size()) != std::string::npos) {
        size_t i = 0; while (i < got.size() && i < m.body.size() && got[i] == m.body[i]) ++i;
        bad("body differs", "first difference at byte " + std::to_string(i) + " of " + std::to_string(m.body.size()) + " (received " + std::to_string(got.size()) + "): sent \"" + esc(m.body.substr(i > 20 ? i - 20 : 0, 60)) + "\" received \"" + esc(got.substr(i > 20 ? i - 20 : 0, 60)) + "\"");
    }
    if (!trimStr(q.preamble).empty() || !trimStr(q.epilogue).empty()) bad("text outside the parts", esc(q.preamble + " | " + q.epilogue, 100));
    c.distinct(std::to_string(hash64(m.body)) + (m.html ? "h" : "p") + std::to_string(cfg.kind));
    if (k % 97 == 0) c.sample("body(" + std::to_string(m.body.size()) + ") \"" + esc(m.body, 100) + "\" arrived as boundary=" + q.boundary + " part of " + std::to_string(b.content.size()) + " bytes");
}
const PropDef theProp = {"C05", [](bool t) -> int64_t { return 3 * SWEEP + (t ? 400000 : 6000); }, run,
    "Body lengths 0..1179 one by one with three fillings (letters, CRLF-dot, dot-CRLF) around the internal 512-byte chunks; then bodies composed of hostile fragments (dots, CR, LF, boundary-like lines, commands, 8-bit and control bytes, large bodies up to 200 KB, rarely 3 MB, quick / 8 MB thorough), all clients, partial sends. A receiver written from the RFCs undoes dot-stuffing, splits the multipart and compares the bytes. Non-trivial: distinct (body, type, client) decoded.",
    {"bodies contain no NUL (the interface takes C strings)"}};
