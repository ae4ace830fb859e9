#include <thread>
#include "core.h"

static const int STAGES[] = {ST_GREET, ST_EHLO, ST_STARTTLS, ST_EHLO2, ST_AUTH, ST_AUTH_USER, ST_AUTH_PASS, ST_MAIL, ST_RCPT, ST_DATA, ST_EOD, ST_QUIT};
static const int CODES[] = {211, 220, 235, 334, 354, 421, 450, 454, 500, 502, 530, 535, 550, 552, 554};

// a server (or network) that makes the first send fail
struct Failing { Script sc; bool hasPlan = false; sim::ConnectPlan plan; std::vector<sim::Fault> faults; std::string label; };
static Script failing(Rng &r, const Cfg &cfg, Failing &w, std::string &label, int64_t k) {
    Script sc = genScript(r, cfg); sc.delivery.maxGap = 0;
    if (cfg.kind == OPP && r.chance(60)) sc.caps = genCaps(r, true, "");
    int x = k < 12 * 8 * 3 ? 0 : r.range(0, 11);
    if (x <= 4) {
        int st = k < 12 * 8 * 3 ? STAGES[(k / 3) % 12] : STAGES[r.below(12)], y = k < 12 * 8 * 3 ? static_cast<int>(k / 36) : r.range(0, 9); Reply q;
        if (y == 0) q = Reply::Silent(); else if (y == 1) q = Reply::Close(); else if (y == 2) q = Reply::Rst(); else if (y == 3) q = Reply::Raw("25");
        else if (y == 4) { q = Reply::Raw("250-AUTH LOGIN PLAIN\r\n250-STARTTLS\r\n"); q.silent = true; } else if (y == 5) { q = Reply::Code(550); q.text += "250 accepted\r\n250 2.0.0 queued\r\n354 go\r\n"; } else q = Reply::Code(r.chance(50) ? CODES[r.below(15)] : r.range(200, 599));
        if (y == 6) { q.close = true; }
        sc.over[{st, st == ST_RCPT || st == ST_MAIL ? r.range(0, 2) : 0}] = q; label = std::string(stageName(st)) + " " + std::to_string(y);
        if (st == ST_AUTH_USER || st == ST_AUTH_PASS) { sc.capsTls = {"AUTH LOGIN"}; if (cfg.kind == PLAIN) sc.caps = {"AUTH LOGIN"}; }
    } else if (x == 5) { sc.cutAfter = r.range(0, cfg.kind == PLAIN ? 400 : 3500); sc.cutKind = r.chance(40) ? sim::End::Fin : r.chance(50) ? sim::End::Rst : sim::End::None; label = "cut " + std::to_string(sc.cutAfter); }
    else if (x == 6) { sc.hsMode = r.range(1, 7); sc.hsBytes = r.range(0, 2500); label = "handshake " + std::to_string(sc.hsMode); }
    else if (x == 7) { sc.cert = r.range(0, CK_COUNT - 1); label = std::string("certificate ") + certName(sc.cert); }
    else if (x == 8) { sc.window = r.range(0, 1500); label = "stops reading"; }
    else if (x == 9) { sim::ConnectPlan p; int y = r.range(0, 2); p.mode = y == 0 ? sim::ConnectPlan::Never : y == 1 ? sim::ConnectPlan::Err : sim::ConnectPlan::ErrDelayed; p.err = r.chance(50) ? ECONNREFUSED : ENETUNREACH; p.delay = r.range(0, 1500) * 1000; w.plan = p; w.hasPlan = true; label = "connect " + std::to_string(y); }
    else if (x == 10) { sim::Fault f; static const sim::Op O[] = {sim::Op::Socket, sim::Op::Connect, sim::Op::Select, sim::Op::Poll, sim::Op::GetSockOpt, sim::Op::SetSockOpt, sim::Op::FcntlGet, sim::Op::FcntlSet, sim::Op::Send, sim::Op::Recv, sim::Op::Resolve}; f.op = O[r.below(11)]; f.nth = r.range(0, 12); f.kind = sim::Fault::Errno; static const int E[] = {ENOBUFS, EPIPE, ECONNRESET, ETIMEDOUT, ENOMEM}; f.arg = E[r.below(5)]; w.faults.push_back(f); label = std::string("fault in ") + sim::opName(f.op); }
    else { sc.capsTls = genCaps(r, false, r.chance(50) ? "" : "CRAM-MD5"); if (cfg.kind == PLAIN) sc.caps = sc.capsTls; label = "no mechanism"; }
    if (x == 0 || x > 4 ? r.chance(5) : r.chance(20)) {      // the sender is refused in one or two forms before something else fails
        sc.over[{ST_MAIL, 0}] = Reply::Code(501); if (r.chance(40)) sc.over[{ST_MAIL, 1}] = Reply::Code(501);
        if (r.chance(60)) sc.over[{r.chance(60) ? ST_RCPT : r.chance(50) ? ST_DATA : ST_EOD, 0}] = r.chance(70) ? Reply::Code(r.chance(50) ? 550 : r.range(400, 599)) : Reply::Close();
        label += " behind 501";
    }
    // the sizes of certificates and signatures differ from run to run: the compared sends are only cut where the bytes are the same
    if (k == 100000 && cfg.kind != PLAIN) { if (sc.cutAfter > 100) sc.cutAfter %= 101; sc.hsBytes %= 90; }
    return sc;
}

struct Obs { int result = 0, conns = 0; std::vector<std::string> cmds; std::string results, log, clear, tls, mails, proto; bool operator==(const Obs &o) const { return result == o.result && results == o.results && conns == o.conns && cmds == o.cmds && log == o.log && clear == o.clear && tls == o.tls && mails == o.mails && proto == o.proto; } };

static Obs observe(World &w, size_t from, int conns0, const SendRec &s) {
    Obs o; o.result = s.result; o.log = s.log; o.conns = static_cast<int>(w.sim.conns.size()) - conns0;
    for (size_t i = from; i < w.peers.size(); ++i) {
        auto &p = *w.peers[i]; for (auto &x : p.commands()) o.cmds.push_back(x);
        o.tls += p.tlsIn; if (!p.hsDone) o.clear += p.clearIn; else o.clear += "(clear) " + p.clearIn;
        for (auto &d : p.mails) { o.mails += d.from + "|"; for (auto &x : d.rcpts) o.mails += x + ","; o.mails += "|" + d.data; }
        for (auto &x : p.proto) o.proto += x + ";";
    }
    return o;
}

static void run(Ctx &c, int64_t k) {
    Rng &r = c.rng; Cfg cfg = genCfg(r); cfg.kind = static_cast<int>(k % 3); cfg.timeout = static_cast<unsigned>(r.range(1, 4)); cfg.cred = r.chance(75); if (cfg.cred && cfg.user.empty()) cfg.user = "user@example.org";
    std::string label, hist; World wa; wa.scripts.clear();
    MsgSpec m1 = genMsg(r, &c), m2 = genMsg(r, &c), m3 = genMsg(r);
    int fails = r.chance(72) ? 1 : r.chance(88) ? r.range(2, 3) : r.tail(4, c.thorough() ? 120 : 40), more = r.chance(75) ? 0 : r.range(1, 3), warm = cfg.batch && r.chance(40) ? 1 : 0;
    if (r.chance(10)) m1.body += std::string(40000, 'y');
    Cfg cfg2 = cfg;
    std::vector<Failing> first; bool shortSends = r.chance(10); uint64_t seed1 = r.next() | 1;
    for (int i = 0; i < fails + warm; ++i) {
        Failing f;
        if (i < warm) { f.sc.implicitTls = cfg.kind == FORCED; f.sc.caps = {"AUTH PLAIN LOGIN XOAUTH2"}; if (cfg.kind == OPP && r.chance(70)) f.sc.caps.push_back("STARTTLS"); Reply q = Reply::Code(r.chance(50) ? 250 : 550); if (r.chance(50)) q.code = 250, q = Reply::Code(250); if (r.chance(30)) q.close = true; f.sc.over[{r.chance(50) ? ST_MAIL : ST_EOD, 1}] = q; f.label = "warm"; }
        else { std::string l; f.sc = failing(r, cfg, f, l, k); f.label = l; }
        first.push_back(f);
    }
    // the setting may be changed in between
    bool newCred = false, newSelf = false, newPort = false;
    if (r.chance(25)) { newCred = true; cfg2.cred = true; cfg2.user = genMail(r); cfg2.pass = uniqueToken(r, 10); cfg2.rec = r.range(0, 3); }
    if (r.chance(10)) { newSelf = true; cfg2.selfSigned = cfg.kind != PLAIN && !cfg.selfSigned; }
    if (r.chance(10)) { newPort = true; cfg2.port = static_cast<unsigned>(r.range(1, 65535)); }
    // second server
    Script sc2; std::map<int, sim::ConnectPlan> plan2; std::vector<sim::Fault> fault2; std::string l2; int kind2 = r.range(0, 3); World wb; wb.scripts.clear();
    if (kind2 == 0) { sc2 = genScript(r, cfg2); if (cfg.kind == OPP && r.chance(50)) sc2.caps = genCaps(r, r.chance(50), "PLAIN LOGIN"); }
    else if (kind2 == 1) { Failing dummy; sc2 = failing(r, cfg2, dummy, l2, 100000); if (dummy.hasPlan) plan2[0] = dummy.plan; fault2 = dummy.faults; }
    else { sc2.implicitTls = cfg.kind == FORCED; sc2.caps = genCaps(r, cfg.kind == OPP && r.chance(60), cfg.kind == PLAIN ? "XOAUTH2 PLAIN LOGIN" : ""); sc2.capsTls = genCaps(r, false, r.chance(50) ? "LOGIN" : "PLAIN XOAUTH2"); if (r.chance(30)) sc2.cert = r.range(0, CK_COUNT - 1); }
    sc2.rng = r.next() | 1; uint64_t seed2 = r.next() | 1;
    auto second = [&](World &w, AnyClient &cl) {
        w.scripts.resize(static_cast<size_t>(w.connectCount)); w.scripts.push_back(sc2); w.plans.clear(); if (!plan2.empty()) w.plans[w.connectCount] = plan2.begin()->second; w.sim.rng = seed2;
        w.sim.faults = fault2; for (auto &f : w.sim.faults) f.nth += static_cast<int>(w.sim.opCount[static_cast<int>(f.op)]);
        size_t from = w.peers.size(); int c0 = static_cast<int>(w.sim.conns.size());
        SendRec q = doSend(w, cl, m2); std::string logs = q.log, res = std::to_string(q.result);
        for (int i = 0; i < more; ++i) { SendRec n = doSend(w, cl, i % 2 ? m2 : m3); logs += "|" + n.log; res += " " + std::to_string(n.result); q.t1 += n.t1 - n.t0; }
        q.log = logs; return std::make_tuple(q, from, c0, res);
    };
    // the fresh client has a thread of its own; before or behind the other, for what might be kept outside of the objects
    Obs oa, ob; int64_t ta = 0, tb = 0; SendRec s; bool lastFailed = false, goesOn = false;
    auto fresh = [&]() {
        std::thread t([&]() {
            wb.sim.bind(); auto cl = makeClient(cfg2); auto rb = second(wb, *cl); cl.reset(); wb.sim.pump(); ob = observe(wb, std::get<1>(rb), std::get<2>(rb), std::get<0>(rb)); ob.results = std::get<3>(rb); tb = std::get<0>(rb).t1 - std::get<0>(rb).t0; wb.sim.unbind();
        });
        t.join();
    };
    bool freshFirst = r.chance(60); wb.sim.unbind();
    if (freshFirst) fresh();
    wa.sim.bind(); wa.sim.randomShort = shortSends; wa.sim.rng = seed1;
    auto ca = makeClient(cfg);
    for (size_t i = 0; i < first.size(); ++i) {
        Failing &f = first[i]; wa.scripts.resize(static_cast<size_t>(wa.connectCount)); wa.scripts.push_back(f.sc); if (f.hasPlan) wa.plans[wa.connectCount] = f.plan;
        for (auto q : f.faults) { q.nth += static_cast<int>(wa.sim.opCount[static_cast<int>(q.op)]); wa.sim.faults.push_back(q); }
        s = doSend(wa, *ca, i % 2 ? m2 : m1); lastFailed = s.result != 0; label += f.label + "; "; hist += f.label + " -> " + std::to_string(s.result) + "; ";
    }
    wa.sim.faults.clear(); wa.sim.randomShort = false;
    if (newCred) { ca->setCred(cfg2.user, cfg2.pass, cfg2.rec); hist += "credential changed; "; }
    if (newSelf) ca->setSelfSigned(cfg2.selfSigned);
    if (newPort) ca->setPort(cfg2.port);
    goesOn = cfg.batch && !lastFailed;
    if (goesOn) { c.count("skipped: the first send did not fail and its session goes on"); ca.reset(); return; }
    auto ra = second(wa, *ca); ca.reset(); wa.sim.pump(); oa = observe(wa, std::get<1>(ra), std::get<2>(ra), std::get<0>(ra)); oa.results = std::get<3>(ra); ta = std::get<0>(ra).t1 - std::get<0>(ra).t0;
    if (!freshFirst) { fresh(); wa.sim.bind(); }
    hist += "then [" + l2 + "]";
    c.count(lastFailed ? "second sends behind a failed one compared" : "second sends behind a successful one compared"); c.count("commands compared", ob.cmds.size());
    if (ob.result == 0) c.count("second sends that succeeded");
    c.distinct(label + std::to_string(s.result) + "|" + std::to_string(ob.result) + std::to_string(cfg.kind) + std::to_string(cfg.cpp) + std::to_string(cfg.batch) + hist);
    if (!(oa == ob)) {
        std::string key = oa.results != ob.results ? "result differs from a fresh client's" : oa.cmds != ob.cmds ? "commands differ from a fresh client's" : oa.conns != ob.conns ? "number of connections differs from a fresh client's" : oa.mails != ob.mails ? "delivered message differs from a fresh client's" : oa.log != ob.log ? "communication log differs from a fresh client's" : "bytes sent differ from a fresh client's";
        c.viol("second send: " + key, describe(wa, cfg2, sc2, m2, oa.result, hist) + "\nFRESH CLIENT " + describe(wb, cfg2, sc2, m2, ob.result) + "\nlogs:\n" + esc(oa.log, 1500) + "\n" + esc(ob.log, 1500));
    } else if (std::abs(ta - tb) > 1500000) c.viol("second send takes another time than a fresh client's", describe(wa, cfg2, sc2, m2, oa.result, hist + " " + std::to_string(ta / 1000) + " and " + std::to_string(tb / 1000) + " ms"));
    c.sample(cfg.show() + ": " + hist + " -> " + std::to_string(ob.result));
}
const PropDef theProp = {"C17", [](bool t) -> int64_t { return t ? 300000 : 9000; }, run,
    "Differential: a client that has just failed one to three times (every step x {silence, FIN, RST, partial reply, capabilities cut short, extra replies behind a refusal, codes} systematically; cut streams, broken handshakes, 29 certificates, closed windows, connection errors, failing socket calls, missing mechanisms, senders refused with 501 first, sessions lost behind a successful message) sends again, with the same settings or others, and so does a fresh client (in a thread of its own, before or behind the other) with the same settings against an identical second server (cooperative, failing, without STARTTLS, other certificate). Result, commands, all bytes received in clear and under TLS, delivered messages, log and number of connections must be equal. Non-trivial: distinct (failures, first result, second result, class).",
    {"the second network has no random faults other than the script's"}};
