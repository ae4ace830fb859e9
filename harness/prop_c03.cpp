#include "core.h"

static void run(Ctx &c, int64_t k) {
    Rng &r = c.rng;
    Cfg cfg = genCfg(r); Script sc = genScript(r, cfg);
    if (k % 3 == 0) { cfg.kind = PLAIN; sc.implicitTls = false; cfg.cred = false; }
    int sends = r.range(1, 4);
    // 501 chains and other refusals of the sender, by occurrence of MAIL in the connection
    bool chain = r.chance(45);
    if (chain) for (int i = 0; i < 12; ++i) if (r.chance(45)) {
        int x = r.range(0, 9);
        sc.over[{ST_MAIL, i}] = x < 6 ? Reply::Code(501) : x == 6 ? Reply::Multi(501, {"bad", "syntax"}) : Reply::Code(anyCode(r, ST_MAIL));
    }
    if (r.chance(20)) for (int i = 0; i < 40; ++i) if (r.chance(10)) sc.over[{ST_RCPT, i}] = Reply::Code(anyCode(r, ST_RCPT));
    World w(sc); w.sim.randomShort = r.chance(10); w.sim.rng = r.next() | 1;
    auto cl = makeClient(cfg);
    for (int i = 0; i < sends; ++i) {
        MsgSpec m = genMsg(r, nullptr, r.chance(15));
        if (r.chance(10) && !m.to.empty()) { m.cc.push_back(m.to[0]); m.bcc.push_back(m.to.back()); m.bcc.push_back(m.from); }
        if (r.chance(8)) m.from.name = "Evil\r\nRCPT TO:<x@evil.com>\r\n";
        if (r.chance(3)) { m.to.clear(); for (int j = 0, n = r.tail(100, c.thorough() ? 5000 : 1500); j < n; ++j) m.to.push_back({"u" + std::to_string(j % 120) + "@example.org", j % 3 ? "" : "N" + std::to_string(j)}); }
        Sent s = sendWalk(w, *cl, cfg, m);
        if (s.peer < 0) continue;
        const Walk &q = s.walk;
        if (q.ambiguous) { c.count("not judged"); continue; }
        int rcpt = 0, mails = 0; for (auto &x : q.steps) { rcpt += x.stage == ST_RCPT; mails += x.stage == ST_MAIL; }
        c.count("envelopes seen", mails > 0); c.count("RCPT commands seen", static_cast<uint64_t>(rcpt)); c.count("MAIL commands seen", static_cast<uint64_t>(mails));
        if (mails) c.distinct(std::to_string(hash64(m.show())) + std::to_string(mails) + (q.completed ? "+" : "-"));
        for (auto &d : q.divs)
            if (d.stage == ST_MAIL || d.stage == ST_RCPT || d.stage == ST_DATA || (q.stopStage >= ST_MAIL && q.stopStage <= ST_DATA && d.kind != "quit"))
                c.viol(std::string("envelope: ") + d.kind + " at " + stageName(d.stage), describe(w, cfg, sc, m, s.rec.result, d.what));
        // independent of the walk: what the server recorded for an accepted message
        auto &p = *w.peers[static_cast<size_t>(s.peer)];
        if (q.completed && !p.mails.empty()) {
            const Delivered &d = p.mails.back();
            std::vector<std::string> want; for (auto *l : {&m.to, &m.cc, &m.bcc}) for (auto &a : *l) want.push_back(" <" + a.mail + ">");
            if (d.rcpts != want) c.viol("accepted message has other recipients than the message", describe(w, cfg, sc, m, s.rec.result));
            if (d.from.find(m.from.mail) == std::string::npos) c.viol("accepted message has another sender", describe(w, cfg, sc, m, s.rec.result));
        }
        if (i == 0) c.sample(m.show() + " -> " + std::to_string(mails) + " MAIL, " + std::to_string(rcpt) + " RCPT, result " + std::to_string(s.rec.result));
    }
}
const PropDef theProp = {"C03", [](bool t) -> int64_t { return t ? 500000 : 8000; }, run,
    "Random messages (duplicates across and inside lists, up to 1500 recipients, empty lists, odd but valid addresses), all client classes, single and batch, random 501 chains and refusals for MAIL, refused recipients. The trace acceptor compares every MAIL, RCPT and DATA with the message; the recipients the server recorded for an accepted message are compared again independently. Non-trivial: distinct messages whose envelope was seen.",
    {"addresses are ones the library's validation accepts"}};
