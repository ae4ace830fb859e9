#include "core.h"

static const int STAGES[] = {ST_GREET, ST_EHLO, ST_STARTTLS, ST_EHLO2, ST_AUTH, ST_AUTH_USER, ST_AUTH_PASS, ST_MAIL, ST_RCPT, ST_DATA, ST_EOD, ST_QUIT};
static const char *CUT[] = {"silence", "FIN", "RST"};

struct Timer { World &w; int64_t t0; explicit Timer(World &x) : w(x), t0(x.sim.now) {} int64_t used() const { int64_t a = std::max(t0, w.sim.lastServerEvent); return w.sim.now > a ? w.sim.now - a : 0; } };

static void run(Ctx &c, int64_t k) {
    Rng &r = c.rng;
    Cfg cfg = genCfg(r); cfg.kind = static_cast<int>(k % 3); cfg.timeout = static_cast<unsigned>(r.chance(70) ? r.range(1, 6) : r.chance(75) ? r.range(7, 30) : r.tail(31, 1000)); cfg.batch = r.chance(45);
    if (cfg.kind == OPP || r.chance(50)) cfg.cred = cfg.cred || r.chance(50);
    Script sc = genScript(r, cfg); sc.delivery.maxGap = 0; sc.delivery.budget = 0;
    if (cfg.kind == OPP && r.chance(70)) sc.caps = genCaps(r, true, "");
    MsgSpec m = genMsg(r, &c), m2 = genMsg(r);
    if (r.chance(25)) while (m.body.size() < 20000) m.body += genBody(r, 3000);
    std::string label; World w(sc);
    int mode = r.range(0, 12);
    if (mode <= 3) {                                      // the stream stops at any byte
        int kind = r.range(0, 2); sc.cutKind = kind == 0 ? sim::End::None : kind == 1 ? sim::End::Fin : sim::End::Rst;
        sc.cutAfter = r.range(0, cfg.kind == PLAIN ? 420 : 3600); label = std::string("stream stops after a byte with ") + CUT[kind];
    } else if (mode <= 5) {                               // no (complete) answer to a step
        int st = STAGES[r.below(12)], occ = st == ST_RCPT || st == ST_MAIL ? r.range(0, 3) : r.chance(25) ? 1 : 0; Reply q;
        if (r.chance(50)) { std::string full = defaultReply(sc, st, st >= ST_EHLO2); q.text = full.substr(0, r.below(full.size() + 1)); q.malformed = true; }
        int x = r.range(0, 2); if (x == 0) q.silent = true; else if (x == 1) q.close = true; else q.reset = true;
        if (st == ST_MAIL) for (int o = 0; o < occ; ++o) sc.over[{ST_MAIL, o}] = Reply::Code(501);
        q.bypassTls = r.chance(10); sc.over[{st, occ}] = q; label = std::string(stageName(st)) + " answered with " + CUT[x];
    } else if (mode == 6) { sc.window = r.range(0, 5000); label = "stops reading"; if (r.chance(50)) { int st = STAGES[r.below(12)]; sc.windowFromStage = st; sc.window = r.chance(50) ? 0 : r.range(0, 3000); label = std::string("stops reading behind ") + stageName(st); } }
    else if (mode == 7) { sc.hsMode = r.range(1, 7); sc.hsBytes = r.range(0, 3000); label = "handshake mode " + std::to_string(sc.hsMode); if (sc.hsMode == 3) sc.hsGarbage = genBody(r, 300); }
    else if (mode == 8) { sim::ConnectPlan p; int x = r.range(0, 3); static const int E[] = {ECONNREFUSED, EHOSTUNREACH, ENETUNREACH, ETIMEDOUT}; p.err = E[r.below(4)]; p.delay = r.range(0, 40000) * 1000; p.mode = x == 0 ? sim::ConnectPlan::Never : x == 1 ? sim::ConnectPlan::Err : x == 2 ? sim::ConnectPlan::ErrDelayed : sim::ConnectPlan::OkDelayed; w.plans[0] = p; label = "connect plan " + std::to_string(x); }
    else if (mode == 9) {                                 // accepts and dies between two messages
        cfg.batch = true; int st = ST_EOD; Reply q = Reply::Code(250); int x = r.range(0, 2); if (x == 0) q.close = true; else if (x == 1) q.reset = true; else { sc.windowFromStage = ST_EOD; sc.window = r.range(0, 40); q = Reply::Code(250); }
        sc.over[{st, 0}] = q; label = std::string("dies after a message with ") + (x == 0 ? "FIN" : x == 1 ? "RST" : "closed window");
    } else if (mode == 10) {                              // closes while it goes on answering late
        int st = STAGES[r.below(12)]; Reply q = Reply::Code(expectedCode(st)); q.delay = static_cast<int64_t>(cfg.timeout) * sim::SEC * r.range(0, 30) / 10; if (r.chance(50)) q.close = true; sc.over[{st, 0}] = q; label = std::string("late ") + stageName(st);
    } else if (mode == 12 && cfg.kind != FORCED) {        // never stops sending
        sc.endlessFrom = STAGES[r.below(12)]; if (cfg.kind == OPP) { if (r.chance(50)) sc.endlessFrom = r.range(0, 2) == 0 ? ST_STARTTLS : r.chance(50) ? ST_GREET : ST_EHLO; else { sc.caps = genCaps(r, false, ""); cfg.cred = false; } }
        sc.endless = r.pick(std::vector<std::string>{"x", "x\r\n", "250-more\r\n", "250 ok\r\n", "\r\n", "2", std::string(1, '\0'), "220-", "354 go\r\n"}); label = std::string("sends without end behind ") + stageName(sc.endlessFrom);
        if (r.chance(50)) { Reply q; q.text = r.pick(std::vector<std::string>{"2", "250-", "250", "x"}); q.malformed = true; sc.over[{sc.endlessFrom, 0}] = q; }
    } else { int st = STAGES[r.below(12)]; Reply q = Reply::Raw(std::string(static_cast<size_t>(r.range(1, 200000)), r.chance(50) ? 'x' : '\r')); q.silent = true; sc.over[{st, 0}] = q; label = std::string("endless line at ") + stageName(st); }
    w.scripts[0] = sc; if (r.chance(50)) { Script good; good.implicitTls = cfg.kind == FORCED; good.caps = {"AUTH PLAIN LOGIN XOAUTH2"}; if (cfg.kind == OPP) good.caps.push_back("STARTTLS"); w.scripts.push_back(good); }
    w.sim.randomShort = r.chance(15); w.sim.coalesce = r.chance(50); w.sim.rng = r.next() | 1;
    w.sim.opBudget = 1500000;
    const int64_t bound = (12 * static_cast<int64_t>(cfg.timeout) + 30) * sim::SEC;
    auto cl = makeClient(cfg); std::string hist; int first = 0;
    auto late = [&](const char *what, int64_t used) {
        c.count(std::string("timed: ") + what);
        if (used > bound) c.viol(std::string(what) + " does not return in bounded time", describe(w, cfg, sc, m, first, label + ": " + std::to_string(used / 1000) + " ms behind the last sign of the server, " + std::to_string(bound / 1000) + " allowed; " + hist));
        if (sim::tl_sigpipes) { c.viol(std::string("SIGPIPE raised by ") + what, describe(w, cfg, sc, m, first, label + "; " + hist)); sim::tl_sigpipes = 0; }
        if (used > static_cast<int64_t>(cfg.timeout) * sim::SEC / 2) c.count("calls that had to wait for the time limit");
    };
    int sends = cfg.batch || r.chance(40) ? r.range(1, 3) : 1;
    for (int i = 0; i < sends; ++i) {
        Timer t(w); SendRec s = doSend(w, *cl, i ? m2 : m); if (!i) first = s.result; hist += "send " + std::to_string(s.result) + "; ";
        late("sendMail", t.used());
        if (!documentedCode(s.result) && !s.threw) c.viol("result code is not documented", describe(w, cfg, sc, m, s.result, label + "; " + hist));
        if (i == 0) { std::string tr; for (auto &p : w.peers) for (auto &e : p->ev) tr += std::to_string(e.kind) + "." + std::to_string(e.stage) + "/"; c.distinct(tr + label + std::to_string(s.result) + std::to_string(cfg.kind) + std::to_string(cfg.batch) + (sc.cutAfter >= 0 ? std::to_string(sc.cutAfter) : "")); }
        if (r.chance(15)) { cl->setBatch(!cl->batch()); hist += "batch toggled; "; }
        if (r.chance(10)) { w.sim.now += r.range(0, 100) * sim::SEC; }
    }
    int end = r.range(0, 3);
    Timer t(w);
    if (end == 0) { auto o = makeClient(cfg); cl->assign(*o); late("assignment", t.used()); }
    else if (end == 1) { auto o = makeClient(cfg); cl->moveAssign(*o); late("move assignment", t.used()); }
    else if (end == 2) { auto o = cl->copy(); Timer u(w); o.reset(); late("destructor of a copy", u.used()); }
    Timer t2(w); cl.reset(); late("destructor", t2.used());
    for (auto &a : w.sim.alarms) c.viol("call would block for ever or misuses a descriptor: " + a.substr(0, 40), describe(w, cfg, sc, m, first, label + ": " + a));
    c.count(label.substr(0, label.find(" after")).substr(0, 40).substr(0, label.find('#')));
    c.sample(label + ": " + cfg.show() + " -> " + hist);
}
const PropDef theProp = {"C15", [](bool t) -> int64_t { return t ? 300000 : 12000; }, run,
    "The server's stream is cut at a random byte of the whole session (TLS records and handshake included) with silence, FIN or RST; any step is answered with nothing or part of a reply, late, or without end; the server sends for ever as fast as it is read; it stops reading after any number of bytes; handshakes are broken; connections refused, slow or never made; the server dies between two messages of a session. Timeouts 1..1000 s, one to three sends, then destruction, assignment or copying. Monitors: virtual time between the last sign of the server and the return of each call against 12 timeouts + 30 s, SIGPIPE deliveries, number of socket operations, blocking calls without limit, documented result codes. Non-trivial: distinct (trace, result, class, cut offset).",
    {"time is the simulator's; computation takes no virtual time", "the time a server goes on sending slowly does not count"}};
