#include "core.h"

static const int STAGES[] = {ST_GREET, ST_EHLO, ST_STARTTLS, ST_HANDSHAKE, ST_EHLO2, ST_AUTH, ST_AUTH_USER, ST_AUTH_PASS, ST_MAIL, ST_RCPT, ST_DATA, ST_EOD, ST_QUIT};
static const int CODES[] = {101, 211, 221, 251, 299, 301, 354, 399, 421, 432, 450, 451, 452, 454, 500, 501, 502, 503, 504, 530, 534, 535, 538, 550, 551, 552, 553, 554, 555, 599};

static void oracle(Ctx &c, World &w, const Cfg &cfg, const Script &sc, const MsgSpec &m, const Sent &s, const std::string &label) {
    const Walk &k = s.walk;
    if (s.peer < 0) return;
    if (k.ambiguous) { c.count("replies the property does not settle"); return; }
    for (auto &d : k.divs) {
        if (d.kind == "continued") c.viol("went on after the failed step " + std::string(stageName(k.stopStage)) + " with " + stageName(d.stage), describe(w, cfg, sc, m, s.rec.result, d.what + " (" + label + ")"));
        else if (d.stage == ST_RCPT && k.refusedRcpt > 0) c.viol("recipients behind a refused one of the same list not tried", describe(w, cfg, sc, m, s.rec.result, d.what + " (" + label + ")"));
        else if (d.kind == "quit") continue;
        else { c.count("other divergences"); return; }
    }
    if (!k.divs.empty()) return;
    c.count(k.completed ? "sends completed" : k.refused ? "sends refused by a reply" : k.malformed ? "sends stopped by a malformed reply" : "sends stopped by the transport");
    if (k.completed && k.codes.size() == 1) return;       // success is property C01's
    if (k.codes.empty()) return;
    if (k.malformed && !k.unfinished && s.rec.result >= 100) return;      // a code taken from the malformed reply
    c.distinct(std::string(stageName(k.stopStage < 0 ? ST_QUIT : k.stopStage)) + (k.refused ? "R" + std::to_string(k.refusedCode) : "T") + "/" + std::to_string(s.rec.result) + "/" + std::to_string(cfg.kind) + std::to_string(cfg.cpp) + std::to_string(cfg.batch) + std::to_string(k.refusedRcpt) + label);
    if (!k.codes.count(s.rec.result)) {
        std::string want; for (int x : k.codes) want += std::to_string(x) + " ";
        c.viol(std::string("wrong result code: stopped at ") + stageName(k.stopStage < 0 ? ST_QUIT : k.stopStage) + (k.refused ? k.noMech ? " without a usable mechanism" : " by a reply" : " by the transport") + ", result " + std::to_string(s.rec.result),
               describe(w, cfg, sc, m, s.rec.result, "expected one of " + want + "(" + label + ")"));
    }
}

struct Case { int kind; bool cpp; int stage, occ, what; };   // what: code, or -1 silence -2 FIN -3 RST -4 partial+silence -5 partial+FIN -6 late -7 stops reading -8..-12 no reply code, -31.. handshake modes
static const std::vector<Case> &systematic() {
    static std::vector<Case> v;
    if (!v.empty()) return v;
    for (int cl = 0; cl < 6; ++cl)
        for (int st : STAGES) {
            int kind = cl / 2;
            if (kind == PLAIN && (st == ST_STARTTLS || st == ST_EHLO2 || st == ST_HANDSHAKE)) continue;
            if (kind == FORCED && (st == ST_EHLO || st == ST_STARTTLS)) continue;
            if (st == ST_HANDSHAKE) { for (int h = 1; h <= 4; ++h) v.push_back({kind, cl % 2 == 1, st, 0, -30 - h}); for (int h : {1, 5, 40, 300, 100000}) { v.push_back({kind, cl % 2 == 1, st, h, -35}); v.push_back({kind, cl % 2 == 1, st, h, -36}); } continue; }
            for (int occ = 0; occ < (st == ST_RCPT ? 6 : st == ST_MAIL ? 3 : 1); ++occ) {
                for (int code : CODES) if (code != expectedCode(st) && !(st == ST_MAIL && code == 501 && occ < 2)) v.push_back({kind, cl % 2 == 1, st, occ, code});
                for (int t = -1; t >= -12; --t) v.push_back({kind, cl % 2 == 1, st, occ, t});
            }
        }
    return v;
}
static Reply reaction(int what, int stage, Rng &r) {
    std::string e = std::to_string(expectedCode(stage));
    switch (what) {
        case -1: return Reply::Silent();
        case -2: return Reply::Close();
        case -3: return Reply::Rst();
        case -4: { Reply q = Reply::Raw(e + " o"); q.silent = true; return q; }
        case -5: { Reply q = Reply::Raw(e + "-o\r\n" + e); q.close = true; return q; }
        case -8: {     // a line too short for a reply code, or one that is no code
            static const std::vector<std::string> L = {"\r\n", "\n", "1\n", "2\r\n", "25\r\n", "25\n", "ok\r\n", " \r\n", "   \r\n", "2 50 ok\r\n", "-25\r\n", "-250 ok\r\n", "+25 ok\r\n", "2.5 ok\r\n", "ok 250\r\n", "000 ok\r\n", "025 ok\r\n", "0x1 ok\r\n", "2e2 ok\r\n", "\t250 ok\r\n", " 250 ok\r\n", "-1\r\n", "-2 ok\r\n", "---\r\n"};
            return Reply::Raw(r.pick(L)); }
        case -6: { Reply q = Reply::Code(expectedCode(stage)); q.delay = 15 * sim::SEC; return q; }
        default: if (what < 0) return reaction(-8, stage, r); break;      // -9 to -12: further ones
    }
    if (r.chance(30)) return Reply::Multi(what, {"first line", "second line " + std::to_string(r.range(0, 9)), "third"});
    return Reply::Code(what);
}

static void run(Ctx &c, int64_t k) {
    auto &sys = systematic(); Rng &r = c.rng;
    if (k < static_cast<int64_t>(sys.size())) {
        const Case &q = sys[static_cast<size_t>(k)];
        Cfg cfg; cfg.kind = q.kind; cfg.cpp = q.cpp; cfg.cred = q.kind != PLAIN || k % 2 == 0 || (q.stage >= ST_AUTH && q.stage <= ST_AUTH_PASS); cfg.batch = k % 7 == 0 && q.stage != ST_QUIT;
        Script sc; sc.implicitTls = q.kind == FORCED; sc.rng = r.next() | 1;
        bool login = q.stage == ST_AUTH_USER || q.stage == ST_AUTH_PASS || (q.stage == ST_AUTH && k % 3 == 0);
        std::string am = login ? "AUTH LOGIN" : k % 2 ? "AUTH PLAIN" : "AUTH XOAUTH2";
        sc.caps = {"PIPELINING", "8BITMIME"}; if (q.kind == OPP) sc.caps.push_back("STARTTLS"); if (q.kind == PLAIN) sc.caps.insert(sc.caps.begin(), am);
        sc.capsTls = {"PIPELINING", am, "8BITMIME"};
        std::string label = std::string(stageName(q.stage)) + "#" + std::to_string(q.occ) + " " + std::to_string(q.what);
        MsgSpec m; m.from = {"from@example.org", "From"}; m.to = {{"a@example.org", "A"}, {"b@example.org", ""}}; m.cc = {{"c@example.org", "C"}, {"c2@example.org", "C"}}; m.bcc = {{"d@example.org", ""}, {"d2@example.org", ""}}; m.subject = "subject"; m.body = genBody(r, 1500);
        if (q.what <= -31) { sc.hsMode = -q.what - 30; sc.hsBytes = q.occ; }
        else if (q.what == -7) { sc.windowFromStage = q.stage; sc.window = r.range(0, q.stage == ST_DATA ? 400 : 20); if (q.stage == ST_EOD || q.stage == ST_QUIT || q.occ) return; }
        else if (q.stage == ST_MAIL) { for (int o = 0; o < q.occ; ++o) sc.over[{ST_MAIL, o}] = Reply::Code(501); sc.over[{ST_MAIL, q.occ}] = reaction(q.what, q.stage, r); }
        else if (login && q.stage == ST_AUTH && q.what == 334) return;
        else sc.over[{q.stage, q.occ}] = reaction(q.what, q.stage, r);
        World w(sc); auto cl = makeClient(cfg);
        Sent s = sendWalk(w, *cl, cfg, m);
        oracle(c, w, cfg, sc, m, s, label);
        if (k % 499 == 0) c.sample(label + " -> " + std::to_string(s.rec.result));
        return;
    }
    if (k < static_cast<int64_t>(sys.size()) + SWEEPS) {
        Cfg cfg; Script sc; MsgSpec m; std::string label;
        if (!sweepCase(k - static_cast<int64_t>(sys.size()), cfg, sc, m, label)) return;
        World w(sc); auto cl = makeClient(cfg);
        Sent s = sendWalk(w, *cl, cfg, m);
        oracle(c, w, cfg, sc, m, s, label); c.count("sweep of all codes: sessions");
        return;
    }
    Cfg cfg = genCfg(r); Script sc = genScript(r, cfg);
    std::string label = "random";
    int mode = r.range(0, 9);
    MsgSpec m = genMsg(r, &c, r.chance(20));
    if (mode <= 3) {       // refusals among the recipients
        int n = static_cast<int>(m.to.size() + m.cc.size() + m.bcc.size());
        for (int i = 0; i < n; ++i) if (r.chance(mode == 0 ? 60 : 15)) sc.over[{ST_RCPT, i}] = Reply::Code(anyCode(r, ST_RCPT));
        if (r.chance(15)) sc.over[{ST_RCPT, r.range(0, n)}] = reaction(-r.range(1, 9), ST_RCPT, r);
        label = "recipients";
    } else if (mode == 4) {   // no usable mechanism
        cfg.cred = true; cfg.rec = r.range(0, 3);
        std::string a = r.chance(50) ? "" : r.chance(50) ? "CRAM-MD5 PLAIN-CLIENTTOKEN XOAUTH OAUTHBEARER" : cfg.rec == 1 ? "LOGIN XOAUTH2" : cfg.rec == 2 ? "PLAIN XOAUTH2 LOGINX" : cfg.rec == 3 ? "PLAIN LOGIN" : "NTLM";
        sc.caps = genCaps(r, cfg.kind == OPP, cfg.kind == PLAIN ? a : "PLAIN LOGIN"); sc.capsTls = genCaps(r, false, a);
        label = "mechanisms";
    } else if (mode <= 6) { sc.cutAfter = r.range(0, cfg.kind == PLAIN ? 700 : 3000); sc.cutKind = r.chance(33) ? sim::End::None : r.chance(50) ? sim::End::Fin : sim::End::Rst; label = "cut"; }
    else if (mode == 7) { sc.window = r.range(0, 3000); label = "stops reading"; }
    else { for (int i = r.range(1, 3); i > 0; --i) { int st = STAGES[r.below(13)]; if (st == ST_HANDSHAKE) continue; int x = r.chance(60) ? anyCode(r, st) : -r.range(1, 9); sc.over[{st, st == ST_RCPT || st == ST_MAIL ? r.range(0, 2) : 0}] = reaction(x, st, r); } }
    World w(sc);
    w.sim.randomShort = r.chance(15); w.sim.rng = r.next() | 1; w.sim.coalesce = r.chance(50);
    auto cl = makeClient(cfg);
    for (int i = 0; i < (cfg.batch ? 2 : 1); ++i) {
        Sent s = sendWalk(w, *cl, cfg, m);
        oracle(c, w, cfg, sc, m, s, label);
        if (i == 0) c.sample("[" + label + "] " + cfg.show() + " " + sc.show() + " -> " + std::to_string(s.rec.result));
        if (s.rec.result != 0) break;
        m = genMsg(r, &c);
    }
}
const PropDef theProp = {"C02", [](bool t) -> int64_t { return static_cast<int64_t>(systematic().size()) + SWEEPS + (t ? 500000 : 6000); }, run,
    "Systematic: 6 client classes x every step (recipients and MAIL formats one by one) x 30 reply codes, silence, FIN, RST, partial replies, late replies, lines without a reply code, a server that stops reading, and 14 ways to break the TLS handshake; every code 100-999 at 14 steps; then random refusals among recipients, missing mechanisms, cuts of the server stream and byte windows at random places. A trace acceptor walks the server's record through the specified dialogue, finds the step that failed and compares commands sent afterwards and the result code. Non-trivial: distinct (step, reaction, result, class) combinations that ended in a failure.",
    {"a positive result taken from a malformed reply is not judged here", "either the error or the timeout code of the step is accepted for silence and for a closed connection"}};
