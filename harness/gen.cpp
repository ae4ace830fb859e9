#include <cstdio>
#include <cstring>
#include <fcntl.h>
#include <unistd.h>
#include "core.h"

static const char LETTERS[] = "abcdefghijklmnopqrstuvwxyz";
static std::string letters(Rng &r, int lo, int hi) { std::string s; int n = r.range(lo, hi); for (int i = 0; i < n; ++i) s += LETTERS[r.below(26)]; return s; }

std::string uniqueToken(Rng &r, int len) { std::string s; static const char A[] = "bcdfghjklmnpqrstvwxz0123456789"; for (int i = 0; i < len; ++i) s += i ? A[r.below(30)] : LETTERS[r.below(26)]; return s; }

std::string genMail(Rng &r, bool weird) {
    std::string loc;
    if (!weird || r.chance(50)) loc = letters(r, 2, 8);
    else {
        static const char C[] = "abcXYZ019_-."; int n = r.range(1, r.chance(10) ? 60 : 14);
        for (int i = 0; i < n; ++i) { char c = C[r.below(12)]; if (c == '.' && (i == 0 || i + 1 == n || loc.back() == '.')) c = 'q'; loc += c; }
    }
    std::string dom = letters(r, 2, 8);
    if (weird && r.chance(25)) dom += "-" + letters(r, 1, 3) + std::to_string(r.range(0, 9));
    if (weird && r.chance(25)) dom += "." + letters(r, 2, 6);
    static const std::vector<std::string> T = {"com", "org", "ca", "net", "info", "fr"};
    if (weird && r.chance(2)) { int n = r.tail(10, 700); if (r.chance(50)) loc += letters(r, n, n); else dom += "." + letters(r, n, n); }
    std::string m = loc + "@" + dom + "." + r.pick(T);
    if (weird && r.chance(15)) m = upperStr(m);
    return m;
}

std::string genText(Rng &r, int maxLen) {
    static const std::vector<std::string> W = {"hello", "Test", "the", "report", "Q3", "caf\xc3\xa9", "\xe2\x82\xac", "na\xc3\xafve", "100%", "%s%n", "\\r\\n", "a=b", "<b>", "\"quoted\"", "it's", "(x)", "#1", "--sep", ".", "..", "Bcc:", "=?UTF-8?Q?x?=", "\t", "\xff\xfe", "{}"};
    std::string s; int n = r.range(0, maxLen);
    while (static_cast<int>(s.size()) < n) { if (!s.empty()) s += ' '; s += r.chance(70) ? r.pick(W) : letters(r, 1, 9); }
    return s;
}

std::string genName(Rng &r, bool mayBeEmpty) {
    if (mayBeEmpty && r.chance(30)) return "";
    static const std::vector<std::string> N = {"John Doe", "Jane", "O'Brien", "M\xc3\xa9lanie", "Dr. X", "Doe, John", "\"Quoted\" Name", "a", "A B C D", "%d %s", "Name (comment)", "\xe6\x9d\x8e\xe5\x9b\x9b"};
    std::string s = r.chance(60) ? r.pick(N) : letters(r, 1, 6) + " " + letters(r, 1, 12);
    if (r.chance(4)) { s = "n"; for (int i = r.range(1, 30); i > 0; --i) { int ch = r.range(1, 255); if (ch != 13 && ch != 10) s += static_cast<char>(ch); } s += "z"; }
    if (r.chance(4)) { std::string l; int n = r.tail(20, 3000); while (static_cast<int>(l.size()) < n) l += letters(r, 3, 30) + " "; s = l + "x"; }
    return s;
}

std::string genBody(Rng &r, int maxLen) {
    static const std::vector<std::string> F = {
        "\r\n", "\r\n", "\r\n", "\n", "\r", ".", "..", "\r\n.", "\r\n.\r\n", "\r\n..\r\n", "\n.\n", "\r.\r", "\r\n.\n", "\n.\r\n", ".\r\n", "\r\n.\r", "\r\n.x", "...", "\r\n\r\n", "\r\r\n", "\n\r",
        "--sep", "\r\n--sep\r\n", "\r\n--sep--", "\r\n--sep--\r\n", "\n--sep\n", "\r\n--sep1\r\n", "--sep1", "--sep2--", "--SEP", "-- sep", "\r\n--", "--", "sep",
        "\r\nQUIT\r\n", "\r\nMAIL FROM:<evil@x.com>\r\n", "DATA\r\n", "RSET", "Content-Type: text/html\r\n\r\n", "\r\nSubject: x\r\n", "From ", "\t", " ", "  \r\n",
        "hello world", "caf\xc3\xa9", "\xff\x80\x81", "\x01\x02\x7f", "<html><body>x</body></html>", "%s%n%d", "\\r\\n", "=3D", "word", "a b c", "\xef\xbb\xbf"};
    std::string s; int n = r.range(0, maxLen);
    if (r.chance(4)) s = r.pick(std::vector<std::string>{"\xef\xbb\xbf", "\xff\xfe", " ", "\t", "\r\n", "\n", "From ", "X: y\r\n", "\f", "\x1a"});
    while (static_cast<int>(s.size()) < n) {
        if (r.chance(75)) s += r.pick(F);
        else if (r.chance(80)) s += letters(r, 1, 12);
        else { int k = r.range(1, 300); for (int i = 0; i < k; ++i) s += static_cast<char>(r.range(1, 255)); }
    }
    return s;
}

Att makeAtt(Ctx &ctx, const std::string &fileName, const std::string &bytes, const std::string &name, const std::string &cid) {
    Att a; a.path = ctx.scratch + "/" + fileName; a.name = name; a.cid = cid; a.bytes = bytes;
    int fd = open(a.path.c_str(), O_CREAT | O_TRUNC | O_WRONLY | O_CLOEXEC, 0600);
    if (fd >= 0) { size_t i = 0; while (i < bytes.size()) { ssize_t k = write(fd, bytes.data() + i, bytes.size() - i); if (k <= 0) break; i += static_cast<size_t>(k); } close(fd); }
    return a;
}

int anyCode(Rng &r, int stage) {
    static const std::vector<int> C = {211, 214, 220, 221, 235, 250, 251, 252, 334, 354, 421, 421, 432, 450, 451, 452, 454, 455, 458, 459, 500, 501, 502, 503, 504, 521, 523, 530, 534, 535, 538, 541, 550, 550, 551, 552, 553, 554, 555, 556, 571};
    for (;;) {
        int c = r.chance(70) ? r.pick(C) : r.chance(70) ? r.range(400, 599) : r.range(100, 999);
        if (c == expectedCode(stage) || (stage == ST_MAIL && c == 501) || (stage == ST_AUTH && c == 334)) continue;
        return c;
    }
}

// a second line that says the same once more, in the old form or repeated
static void againAuth(Rng &r, std::vector<std::string> &caps) {
    if (!r.chance(20)) return;
    for (size_t i = 0; i < caps.size(); ++i) if (caps[i].compare(0, 5, "AUTH ") == 0) {
        std::string again = caps[i]; if (r.chance(70)) again[4] = '=';
        caps.insert(caps.begin() + static_cast<long>(i + 1 + r.below(caps.size() - i)), again); return;
    }
}

// the same value in several places
static void coincide(Rng &r, MsgSpec &m) {
    std::vector<Addr *> all{&m.from}; for (auto *l : {&m.to, &m.cc, &m.bcc}) for (auto &a : *l) all.push_back(&a);
    Addr &a = *r.pick(all), &b = *r.pick(all);
    switch (r.range(0, 12)) {
        case 10: case 11: case 12: {                // addresses that are nearly the same, next to each other
            std::vector<Addr> *l = r.pick(std::vector<std::vector<Addr> *>{&m.to, &m.to, &m.cc, &m.bcc});
            if (l->empty()) l->push_back(m.from);
            size_t i = r.below(l->size()), at = (*l)[i].mail.rfind('@'); Addr n = (*l)[i];
            if (at == std::string::npos) break;
            std::string lo = n.mail.substr(0, at), dom = n.mail.substr(at + 1);
            switch (r.range(0, 5)) {
                case 0: n.mail = upperStr(lo) + "@" + dom; break;
                case 1: n.mail = lowerStr(lo) + "@" + upperStr(dom); break;
                case 2: n.mail = lo + "@" + b.mail.substr(b.mail.rfind('@') + 1); break;
                case 3: n.mail = b.mail.substr(0, b.mail.rfind('@')) + "@" + dom; break;
                case 4: n.mail = lo + "x@" + dom; break;
                default: n.mail = "x" + n.mail; break;
            }
            if (r.chance(50)) n.name = genName(r);
            l->insert(l->begin() + static_cast<long>(i + r.below(2)), n);
            break;
        }
        case 0: for (auto *x : all) if (r.chance(50)) x->name = x->mail; break;
        case 1: a.name = a.mail; break;
        case 2: a.name = b.mail; break;
        case 3: a.name = b.name; break;
        case 4: a = b; break;
        case 5: if (!m.to.empty()) m.cc = m.to; break;
        case 6: if (!m.to.empty()) m.bcc = m.to; break;
        case 7: m.body = m.subject; break;
        case 8: for (auto &t : m.atts) { if (r.chance(50)) t.cid = t.name; if (r.chance(30)) t.name = m.atts[0].name; if (r.chance(30)) t.cid = m.atts[0].cid; } break;
        default: for (auto *x : all) x->name = m.from.name; break;
    }
}

MsgSpec genMsg(Rng &r, Ctx *att, bool big) {
    MsgSpec m;
    m.html = r.chance(40);
    m.from = {genMail(r), genName(r)};
    auto list = [&](std::vector<Addr> &v, int lo, int hi) { int n = r.range(lo, hi); for (int i = 0; i < n; ++i) { if (!v.empty() && r.chance(12)) v.push_back(r.pick(v)); else v.push_back({genMail(r), genName(r)}); } };
    int many = r.chance(big ? 12 : 2) ? r.range(0, 2) : -1;   // one of the lists is long
    list(m.to, 1, big ? 30 : 4);
    if (r.chance(45)) list(m.cc, 1, big ? 12 : 3);
    if (r.chance(45)) list(m.bcc, 1, big ? 12 : 3);
    if (many >= 0) { int n = r.tail(5, 400); list(many == 0 ? m.to : many == 1 ? m.cc : m.bcc, n, n); }
    if (r.chance(3)) { m.to.clear(); if (m.cc.empty() && m.bcc.empty()) m.bcc.push_back({genMail(r), genName(r)}); }
    m.subject = r.chance(5) ? "" : genText(r, r.chance(5) ? r.tail(100, 6000) : 40);
    m.body = genBody(r, r.chance(15) ? r.tail(300, 6000) : r.chance(30) ? 600 : 60);
    if (r.chance(2)) { int n = r.tail(4000, 300000); while (static_cast<int>(m.body.size()) < n) m.body += letters(r, 20, 70) + (r.chance(10) ? "\r\n." : r.chance(70) ? "\r\n" : " "); }
    if (att) {
        int n = r.chance(40) ? r.range(1, 3) : 0;
        static const std::vector<std::string> E = {"txt", "png", "jpg", "pdf", "zip", "bin", "html", "doc", "docx", "xls", "unknown"};
        for (int i = 0; i < n; ++i) {
            std::string b; int k = r.chance(70) ? r.range(0, 200) : r.range(0, 60000), how = r.range(0, 9);
            if (how == 0) b = genBody(r, k); else if (how == 1) b = std::string(static_cast<size_t>(k), static_cast<char>(r.chance(60) ? 0 : r.range(0, 255)));
            else { for (int j = 0; j < k; ++j) b += static_cast<char>(r.range(0, 255)); if (how == 2) b += std::string(r.below(600), '\0'); if (how == 3) b += genBody(r, 20); if (how == 4) b += m.body; }
            m.atts.push_back(makeAtt(*att, "f" + std::to_string(i) + "." + r.pick(E), b, r.chance(85) ? letters(r, 1, 8) + "." + r.pick(E) : "", r.chance(40) ? letters(r, 3, 8) : ""));
        }
    }
    if (r.chance(12)) coincide(r, m);
    return m;
}

Cfg genCfg(Rng &r) {
    Cfg c;
    c.kind = r.range(0, 2); c.cpp = r.chance(40);
    c.port = static_cast<unsigned>(r.chance(50) ? 587 : r.range(1, 65535));
    c.timeout = static_cast<unsigned>(r.range(2, 6));
    c.batch = r.chance(30);
    c.cred = r.chance(60);
    if (c.cred) {
        if (r.chance(50)) { c.user = genMail(r); c.pass = uniqueToken(r, r.range(1, 30)); }
        else {
            auto bytes = [&](int hi) { std::string s; int n = r.range(1, hi); for (int i = 0; i < n; ++i) s += static_cast<char>(r.range(1, 255)); return s; };
            c.user = bytes(r.chance(10) ? 500 : 20); c.pass = bytes(r.chance(10) ? 500 : 20);
            bool solid = false; for (unsigned char ch : c.user) solid = solid || (ch > 32 && ch < 127);
            if (!solid) c.user += "u";
        }
        c.rec = r.chance(50) ? 0 : r.range(0, 3);
    }
    if (c.cred && r.chance(3)) c.pass = c.user;
    c.selfSigned = c.kind != PLAIN && r.chance(20);
    return c;
}

// capability words are case-insensitive, and some servers are generous with blanks
static void respell(Rng &r, std::vector<std::string> &caps) {
    int how = r.chance(8) ? r.range(1, 3) : 0; bool end = r.chance(4), wide = r.chance(4);
    for (auto &x : caps) {
        if (how) for (auto &ch : x) if (how == 1 || (how == 2 ? r.chance(50) : &ch != &x[0])) ch = static_cast<char>(tolower(static_cast<unsigned char>(ch)));
        if (wide) for (size_t i = 6; i < x.size(); ++i) if (x[i] == ' ' && r.chance(50)) { x.insert(i, " "); ++i; }
        if (end && r.chance(50)) x += ' ';
    }
}

// large replies: many lines, one long line, or an AUTH line with long or many words
static void stretch(Rng &r, std::vector<std::string> &caps) {
    int n = r.tail(400, 20000), how = r.range(0, 3); auto at = [&]() { return caps.begin() + static_cast<long>(r.below(caps.size() + 1)); };
    if (how == 0) { std::vector<std::string> v; for (int k = 0; n > 0; ++k) { v.push_back("X-CAPABILITY-" + std::to_string(k) + " " + std::string(static_cast<size_t>(r.range(1, 60)), 'z')); n -= static_cast<int>(v.back().size()) + 6; } caps.insert(at(), v.begin(), v.end()); return; }
    if (how == 1) { caps.insert(at(), "X-LONG " + std::string(static_cast<size_t>(n), 'z')); return; }
    for (auto &x : caps) if (lowerStr(x.substr(0, 5)) == "auth ") {
        std::string w; if (how == 2) w = "X" + std::string(static_cast<size_t>(n), 'Q'); else for (int k = 0; n > 0; ++k) { std::string z = "X-MECH-" + std::to_string(k); w += (w.empty() ? "" : " ") + z; n -= static_cast<int>(z.size()) + 1; }
        if (r.chance(50)) x = "AUTH " + w + " " + x.substr(5); else x += " " + w;
        break;
    }
}

std::vector<std::string> genCaps(Rng &r, bool starttls, const std::string &auth) {
    static const std::vector<std::string> C = {"PIPELINING", "SIZE 35882577", "8BITMIME", "ENHANCEDSTATUSCODES", "CHUNKING", "SMTPUTF8", "DSN", "HELP", "VRFY", "ETRN", "X-EXPS GSSAPI NTLM", "SIZE"};
    std::vector<std::string> v; int n = r.range(0, 7);
    for (int i = 0; i < n; ++i) v.push_back(r.pick(C));
    if (starttls) v.insert(v.begin() + static_cast<long>(r.below(v.size() + 1)), "STARTTLS");
    if (!auth.empty()) v.insert(v.begin() + static_cast<long>(r.below(v.size() + 1)), "AUTH " + auth);
    againAuth(r, v);
    respell(r, v);
    if (r.chance(3)) stretch(r, v);
    return v;
}

static std::string genAuthLine(Rng &r, const Cfg &c) {
    static const std::vector<std::string> M = {"PLAIN", "LOGIN", "XOAUTH2", "PLAIN-CLIENTTOKEN", "OAUTHBEARER", "XOAUTH", "CRAM-MD5", "NTLM", "DIGEST-MD5", "SCRAM-SHA-256"};
    static const char *R[] = {"", "PLAIN", "LOGIN", "XOAUTH2"};
    std::vector<std::string> v; int n = r.range(0, 5);
    for (int i = 0; i < n; ++i) v.push_back(r.pick(M));
    std::string need = c.rec ? R[c.rec] : R[r.range(1, 3)];
    v.insert(v.begin() + static_cast<long>(r.below(v.size() + 1)), need);
    std::string s; for (auto &x : v) s += (s.empty() ? "" : " ") + x;
    return s;
}

Script genScript(Rng &r, const Cfg &c) {
    Script s;
    s.rng = r.next() | 1;
    s.implicitTls = c.kind == FORCED;
    bool st = c.kind == OPP ? r.chance(80) : r.chance(20);
    s.caps = genCaps(r, st, c.kind == PLAIN ? genAuthLine(r, c) : r.chance(30) ? genAuthLine(r, c) : "");
    s.capsTls = genCaps(r, r.chance(10), genAuthLine(r, c));
    int d = r.range(0, 9);
    if (d >= 7) s.delivery.mode = d == 7 ? Delivery::Bytes : d == 8 ? Delivery::Random : Delivery::Lines;
    if (r.chance(25)) { s.delivery.maxGap = 400000; s.delivery.budget = 600000; }
    s.delivery.cutCipher = r.chance(15);
    if (r.chance(20)) s.tlsMax = 0x0303;
    if (r.chance(15)) {
        static const std::vector<std::string> W = {"x", "ok", "STARTTLS", "AUTH PLAIN LOGIN XOAUTH2", "250 ok", "250-ok", "554 no", "%s%n%d", "\xc3\xa9t\xc3\xa9", "-", "- ok", "c: QUIT", "s: 250 ok", "\\r\\n", "2.0.0 Ok:  queued\tas 1"};
        s.say = r.chance(50) ? r.pick(W) : letters(r, 1, r.tail(2, 700)); s.sayLines = r.chance(75) ? 1 : r.range(2, 4);
    }
    return s;
}

bool sweepCase(int64_t k, Cfg &cfg, Script &sc, MsgSpec &m, std::string &label) {
    static const struct { int stage, occ; } W[14] = {{ST_GREET, 0}, {ST_EHLO, 0}, {ST_STARTTLS, 0}, {ST_EHLO2, 0}, {ST_AUTH, 0}, {ST_AUTH, 0}, {ST_AUTH_USER, 0}, {ST_AUTH_PASS, 0}, {ST_MAIL, 0}, {ST_MAIL, 2}, {ST_RCPT, 0}, {ST_RCPT, 3}, {ST_DATA, 0}, {ST_EOD, 0}};
    int w = static_cast<int>(k / 900), code = 100 + static_cast<int>(k % 900); int st = W[w].stage;
    if (code == expectedCode(st) || (st == ST_MAIL && code == 501 && W[w].occ < 2)) return false;
    bool login = st == ST_AUTH_USER || st == ST_AUTH_PASS || w == 5;
    if (w == 5 && code == 334) return false;
    cfg = Cfg(); cfg.kind = st == ST_STARTTLS || st == ST_EHLO2 ? OPP : PLAIN; cfg.cpp = k % 5 == 1; cfg.batch = k % 3 == 0;
    cfg.cred = cfg.kind == OPP || (st >= ST_AUTH && st <= ST_AUTH_PASS) || k % 2 == 0;
    std::string am = login ? "AUTH LOGIN" : k % 4 < 2 ? "AUTH PLAIN" : "AUTH XOAUTH2";
    sc = Script(); sc.caps = {"PIPELINING", am}; if (cfg.kind == OPP) sc.caps = {"STARTTLS"}; sc.capsTls = {am, "8BITMIME"};
    if (st == ST_MAIL) for (int o = 0; o < W[w].occ; ++o) sc.over[{ST_MAIL, o}] = Reply::Code(501);
    sc.over[{st, W[w].occ}] = Reply::Code(code);
    m = MsgSpec(); m.from = {"from@example.org", "From"}; m.to = {{"a@example.org", "A"}, {"b@example.org", ""}}; m.cc = {{"c@example.org", "C"}}; m.bcc = {{"d@example.org", ""}}; m.subject = "subject"; m.body = "body";
    label = std::string(stageName(st)) + "#" + std::to_string(W[w].occ) + " code " + std::to_string(code);
    return true;
}
