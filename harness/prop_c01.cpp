#include "core.h"

struct Over { std::string name; Reply r; };
static std::vector<Over> overrides(int stage) {
    std::vector<Over> v; int E = expectedCode(stage);
    for (int c : {100, 150, 200, 201, 211, 220, 221, 235, 250, 251, 252, 299, 334, 350, 354, 399, 421, 450, 451, 500, 501, 530, 535, 550, 554, 999})
        if (c != E && !(stage == ST_MAIL && c == 501)) v.push_back({"code " + std::to_string(c), Reply::Code(c)});
    for (int c : {0, 1, 25, 99}) { Reply r = Reply::Code(c); r.malformed = true; v.push_back({"code " + std::to_string(c), r}); }
    std::string e = std::to_string(E), o = std::to_string(E == 250 ? 550 : 250);
    v.push_back({"expected code, several lines", Reply::Multi(E, {"one", "two", "three"})});
    { Reply r = Reply::Raw(e + "\r\n"); r.malformed = false; r.code = E; v.push_back({"expected code without text", r}); }
    { Reply r = Reply::Multi(E == 250 ? 550 : 250, {"one", "two"}); v.push_back({"other code, several lines", r}); }
    v.push_back({"first line other code", Reply::Raw(o + "-one\r\n" + e + " two\r\n")});
    v.push_back({"last line other code", Reply::Raw(e + "-one\r\n" + o + " two\r\n")});
    for (const char *t : {"\r\n", "ok\r\n", "2\r\n", "25\r\n", "2x0 ok\r\n", "OK 250\r\n"}) v.push_back({std::string("raw ") + esc(t), Reply::Raw(t)});
    v.push_back({"leading space", Reply::Raw(" " + e + " ok\r\n")});
    v.push_back({"sign", Reply::Raw("+" + e + " ok\r\n")});
    v.push_back({"minus", Reply::Raw("-" + e + " ok\r\n")});
    for (int end = 0; end < 3; ++end)
        for (const std::string &t : {std::string(), e, e + " ", e + " ok", e + " ok\r", e + "-more\r\n", e + "-more\r\n" + e, e + "-more\r\n" + e + " ok", e.substr(0, 2)}) {
            Reply r = Reply::Raw(t); if (end == 0) r.silent = true; else if (end == 1) r.close = true; else r.reset = true;
            v.push_back({"\"" + esc(t) + "\" then " + (end == 0 ? "silence" : end == 1 ? "FIN" : "RST"), r});
        }
    { Reply r = Reply::Code(E); r.close = true; v.push_back({"expected code then FIN", r}); }
    { Reply r = Reply::Code(E); r.reset = true; v.push_back({"expected code then RST", r}); }
    { Reply r = Reply::Code(E); r.delay = 12 * sim::SEC; v.push_back({"expected code too late", r}); }
    { Reply r = Reply::Code(E); r.delay = 3 * sim::SEC; v.push_back({"expected code late", r}); }
    return v;
}
static const int STAGES[] = {ST_GREET, ST_EHLO, ST_STARTTLS, ST_EHLO2, ST_AUTH, ST_AUTH_USER, ST_AUTH_PASS, ST_MAIL, ST_RCPT, ST_DATA, ST_EOD};
struct Case { int kind; bool cpp, batch; int stage, occ; size_t ov; };
static const std::vector<Case> &systematic() {
    static std::vector<Case> v;
    if (!v.empty()) return v;
    for (int cl = 0; cl < 6; ++cl)
        for (int st : STAGES) {
            int kind = cl / 2;
            if (kind == PLAIN && (st == ST_STARTTLS || st == ST_EHLO2)) continue;
            if (kind == FORCED && (st == ST_EHLO || st == ST_STARTTLS)) continue;
            for (int occ = 0; occ < (st == ST_RCPT ? 4 : 1); ++occ) {
                size_t n = overrides(st).size();
                for (size_t o = 0; o < n; ++o) { if (occ && (o + static_cast<size_t>(occ)) % 4) continue; v.push_back({kind, cl % 2 == 1, false, st, occ, o}); }
            }
        }
    return v;
}

static void oracle(Ctx &c, World &w, const Cfg &cfg, const Script &sc, const MsgSpec &m, const Sent &s, const std::string &label) {
    const Walk &k = s.walk;
    if (s.peer < 0) { if (s.rec.result == 0) c.viol("sent without a connection", describe(w, cfg, sc, m, s.rec.result)); return; }
    if (k.ambiguous) { c.count("replies the property does not settle"); return; }
    std::string why; bool acc = directAccepted(w, m, s, cfg, &why);
    c.distinct(label + "/" + std::to_string(k.stopStage) + "/" + std::to_string(k.refusedCode) + "/" + std::to_string(s.rec.result) + "/" + std::to_string(cfg.kind) + std::to_string(cfg.cpp) + std::to_string(cfg.batch));
    c.count(s.rec.result == 0 ? "sends reported as accepted" : "sends reported as failed");
    if (s.rec.result == 0 && !acc)
        c.viol("reported as sent: " + why + (k.malformed ? " (malformed)" : ""), describe(w, cfg, sc, m, s.rec.result, "sendMail returned 0 although " + why + "; case " + label));
    if (s.rec.result != 0 && acc && !w.serverDead(static_cast<size_t>(s.peer)))
        c.viol("reported as failed although accepted: result " + std::to_string(s.rec.result), describe(w, cfg, sc, m, s.rec.result, "the server accepted every step and the message; case " + label));
}

static void run(Ctx &c, int64_t k) {
    auto &sys = systematic();
    if (k < static_cast<int64_t>(sys.size())) {
        const Case &q = sys[static_cast<size_t>(k)];
        Cfg cfg; cfg.kind = q.kind; cfg.cpp = q.cpp; cfg.timeout = 5; cfg.cred = q.kind != PLAIN || k % 2 == 0 || (q.stage >= ST_AUTH && q.stage <= ST_AUTH_PASS); cfg.batch = k % 5 == 0;
        Script sc; sc.implicitTls = q.kind == FORCED;
        bool login = q.stage == ST_AUTH_USER || q.stage == ST_AUTH_PASS || (q.stage == ST_AUTH && k % 3 == 0);
        std::string am = login ? "AUTH LOGIN" : k % 2 ? "AUTH PLAIN" : "AUTH XOAUTH2";
        sc.caps = {"PIPELINING", "8BITMIME"}; if (q.kind == OPP) sc.caps.push_back("STARTTLS"); if (q.kind == PLAIN) sc.caps.insert(sc.caps.begin(), am);
        sc.capsTls = {"PIPELINING", am, "8BITMIME"};
        Over o = overrides(q.stage)[q.ov];
        if (login && q.stage == ST_AUTH) { if (o.name.find("expected") != std::string::npos) return; }
        sc.over[{q.stage, q.occ}] = o.r;
        MsgSpec m; m.from = {"from@example.org", "From"}; m.to = {{"a@example.org", "A"}, {"b@example.org", ""}}; m.cc = {{"c@example.org", "C"}}; m.bcc = {{"d@example.org", ""}}; m.subject = "subject"; m.body = "body\r\n.\r\nend";
        World w(sc);
        auto cl = makeClient(cfg);
        Sent s = sendWalk(w, *cl, cfg, m);
        oracle(c, w, cfg, sc, m, s, std::string(stageName(q.stage)) + "#" + std::to_string(q.occ) + " " + o.name);
        if (k % 611 == 0) c.sample(std::string(stageName(q.stage)) + "#" + std::to_string(q.occ) + " " + o.name + " -> " + std::to_string(s.rec.result));
        return;
    }
    if (k < static_cast<int64_t>(sys.size()) + SWEEPS) {
        Cfg cfg; Script sc; MsgSpec m; std::string label;
        if (!sweepCase(k - static_cast<int64_t>(sys.size()), cfg, sc, m, label)) return;
        World w(sc); auto cl = makeClient(cfg);
        Sent s = sendWalk(w, *cl, cfg, m);
        oracle(c, w, cfg, sc, m, s, label); c.count("sweep of all codes: sessions");
        return;
    }
    // random histories
    Rng &r = c.rng;
    Cfg cfg = genCfg(r); Script sc = genScript(r, cfg);
    if (cfg.kind == OPP && r.chance(40)) sc.caps.push_back("STARTTLS");
    int sends = r.range(1, 3);
    int n = r.chance(30) ? 0 : r.range(1, 2);
    std::string label;
    for (int i = 0; i < n; ++i) {
        int st = STAGES[r.below(11)], occ = st == ST_RCPT ? r.range(0, 5) : r.chance(70) ? 0 : r.range(0, 2);
        auto ov = overrides(st); const Over &o = ov[r.below(ov.size())];
        sc.over[{st, occ}] = o.r; label += std::string(stageName(st)) + "#" + std::to_string(occ) + " " + o.name + "; ";
    }
    if (r.chance(25)) { sc.cutAfter = r.range(0, cfg.kind == PLAIN ? 600 : 2600); sc.cutKind = r.chance(33) ? sim::End::None : r.chance(50) ? sim::End::Fin : sim::End::Rst; label += "cut"; }
    World w(sc);
    w.sim.randomShort = r.chance(15); w.sim.rng = r.next() | 1; w.sim.coalesce = r.chance(50);
    auto cl = makeClient(cfg);
    for (int i = 0; i < sends; ++i) {
        MsgSpec m = genMsg(r, &c);
        Sent s = sendWalk(w, *cl, cfg, m);
        oracle(c, w, cfg, sc, m, s, label);
        if (i == 0) c.sample("[" + label + "] " + cfg.show() + " -> " + std::to_string(s.rec.result));
    }
}
const PropDef theProp = {"C01", [](bool t) -> int64_t { return static_cast<int64_t>(systematic().size()) + SWEEPS + (t ? 400000 : 5000); }, run,
    "Systematic: every client class x every step of the dialogue x ~85 server reactions (wrong codes, code < 100, malformed and cut off replies followed by silence/FIN/RST, late replies, positive variants); every code 100-999 at 14 steps; then random clients, messages, capability lists, 0-2 reactions and cuts of the server stream at random bytes, 1-3 sends per client. The server's record decides whether the message was accepted; it is compared with the result. Non-trivial: distinct (reaction, step where it stopped, code, result, client class) combinations.",
    {"the simulated socket layer behaves like the Linux socket calls it replaces", "a reply received less than 1 s before or after the timeout, extra bytes behind a reply, and differing codes in the middle of a reply are not judged"}};
