#include "core.h"

// commands and content of the transaction(s) in ev[from..]
static std::vector<std::string> transaction(const SmtpPeer &p, size_t from, int &setup, int &quits, int &mails, size_t &mailAt, size_t &quitAt) {
    std::vector<std::string> v; setup = quits = mails = 0; mailAt = quitAt = 0; size_t n = 0;
    for (size_t i = from; i < p.ev.size(); ++i) {
        const Event &e = p.ev[i];
        if (e.kind == Event::TlsStart) { ++setup; continue; }
        if (e.kind == Event::Message) { v.push_back("content " + e.text); ++n; continue; }
        if (e.kind != Event::Cmd) continue;
        ++n;
        if (e.stage == ST_QUIT) { ++quits; quitAt = n; continue; }
        if (e.stage < ST_MAIL) { ++setup; continue; }
        if (e.stage == ST_MAIL) { ++mails; if (!mailAt) mailAt = n; }
        v.push_back(e.text);
    }
    return v;
}

static void run(Ctx &c, int64_t k) {
    Rng &r = c.rng; Cfg cfg = genCfg(r); cfg.kind = static_cast<int>(k % 3); cfg.batch = r.chance(75); cfg.timeout = 4;
    Script sc = genScript(r, cfg); if (cfg.kind == OPP && r.chance(70)) sc.caps = genCaps(r, true, "");
    World w(sc); auto cl = makeClient(cfg); bool batch = cfg.batch; int cur = -1; std::string hist = batch ? "batch; " : "single; ";
    const bool veryLong = k % 1500 == 11, longOne = veryLong || k % 90 == 7;      // one session for very many messages
    int n = veryLong ? r.tail(300, c.thorough() ? 6000 : 1500) : longOne ? r.tail(20, c.thorough() ? 1500 : 300) : r.range(2, c.thorough() && r.chance(10) ? 60 : 9); int ok = 0, reused = 0, trailing = 0;
    // refusals of single messages
    w.scripts.clear(); for (int i = 0; i < 12; ++i) { Script s = sc; s.rng = r.next() | 1; if (!longOne && r.chance(25)) { int x = r.range(0, 4), o = r.range(0, 6); int st = x == 0 ? ST_MAIL : x <= 2 ? ST_RCPT : x == 3 ? ST_DATA : ST_EOD; s.over[{st, o}] = Reply::Code(anyCode(r, st)); } w.scripts.push_back(s); }
    auto fail = [&](const std::string &key, const MsgSpec &m, int res) { c.viol(key, describe(w, cfg, sc, m, res, hist)); };
    MsgSpec last;
    for (int i = 0; i < n; ++i) {
        if (r.chance(12)) { int64_t idle = r.tail(1, 100000); w.sim.now += idle * sim::SEC; hist += std::to_string(idle) + " s idle; "; }
        if (longOne ? r.below(200) == 0 || (i == 0 && !batch) : r.chance(20)) { batch = !batch; cl->setBatch(batch); hist += batch ? "batch on; " : "batch off; "; if (r.chance(30)) { batch = !batch; cl->setBatch(batch); hist += batch ? "batch on; " : "batch off; "; } }
        if (r.chance(8)) { cl->setTimeout(static_cast<unsigned>(r.range(3, 6))); hist += "timeout set; "; }
        if (r.chance(longOne ? 1 : 6)) { if (r.chance(50)) { cfg.port = static_cast<unsigned>(r.range(1, 65535)); cl->setPort(cfg.port); hist += "port set; "; } else if (cfg.cred) { cfg.pass = uniqueToken(r, r.range(1, 20)); cl->setCred(cfg.user, cfg.pass, cfg.rec); hist += "credential set; "; } }
        if (r.chance(5)) { auto q = cl->move(); cl = std::move(q); hist += "moved; "; }
        MsgSpec m = i && r.chance(longOne ? 95 : 20) ? last : genMsg(r, &c); if (longOne) { m.atts.clear(); if (m.body.size() > 1500) m.body.resize(1500); while (m.to.size() > 5) m.to.pop_back(); while (m.cc.size() > 5) m.cc.pop_back(); while (m.bcc.size() > 5) m.bcc.pop_back(); } last = m;
        int conns0 = static_cast<int>(w.sim.conns.size()); size_t from = cur >= 0 ? w.peers[static_cast<size_t>(cur)]->ev.size() : 0;
        SendRec s = doSend(w, *cl, m); hist += "send=" + std::to_string(s.result) + "; "; c.count("sends");
        int opened = static_cast<int>(w.sim.conns.size()) - conns0;
        bool fresh = cur < 0;
        if (fresh && opened != 1) { fail(opened > 1 ? "more than one connection for one message" : "no connection of its own for the message", m, s.result); return; }
        if (!fresh && opened != 0) { fail("new connection although the session of the batch is open", m, s.result); return; }
        if (fresh) cur = static_cast<int>(w.peers.size()) - 1;
        SmtpPeer &p = *w.peers[static_cast<size_t>(cur)]; int setup, quits, mails; size_t mailAt, quitAt;
        auto t = transaction(p, from, setup, quits, mails, mailAt, quitAt);
        for (auto &x : p.proto) if (x == "MAIL inside an open transaction" || x == "MAIL before EHLO" || x == "second AUTH after success" || x == "STARTTLS inside TLS" || x.compare(0, 18, "command after QUIT") == 0) { fail("protocol: " + x.substr(0, 60), m, s.result); return; }
        if (!fresh) { ++reused; c.count("messages sent over an open session"); }
        if (fresh ? setup == 0 : setup != 0) { fail(fresh ? "no greeting and EHLO on a new connection" : "session set-up repeated within a session", m, s.result); return; }
        if (s.result == 0) {
            ++ok; c.count("messages accepted");
            // the same message from a fresh client in single mode
            if (!longOne || r.chance(10)) {
            World ref(sc); ref.scripts[0].rng = 1; Cfg rc = cfg; rc.batch = false; auto rcl = makeClient(rc); SendRec rs = doSend(ref, *rcl, m); rcl.reset();
            if (rs.result == 0 && !ref.peers.empty()) {
                int a, b, d; size_t e, f; auto want = transaction(*ref.peers[0], 0, a, b, d, e, f);
                if (want != t) { fail("transaction differs from the one sent in single mode", m, s.result); return; }
                if (fresh) { auto x = p.commands(), y = ref.peers[0]->commands(); auto noQuit = [](std::vector<std::string> &v) { while (!v.empty() && upperStr(v.back()).compare(2, 4, "QUIT") == 0) v.pop_back(); }; noQuit(x); noQuit(y); if (x != y) { fail("session differs from the one of a single-mode client", m, s.result); return; } }
                c.count("transactions compared with single mode");
            }
            }
            w.sim.bind();
            if (mails < 1) { fail("message without a transaction of its own", m, s.result); return; }
            if (batch) { if (quits) { fail("QUIT between the messages of a batch", m, s.result); return; } if (p.closed) { fail("batch session closed behind a successful message", m, s.result); return; } }
            else {
                if (quits != 1) { fail(quits ? "more than one QUIT behind a single-mode message" : "no QUIT behind a single-mode message", m, s.result); return; }
                if (quitAt < mailAt + t.size()) { fail("QUIT is not the last command", m, s.result); return; }
                if (!p.closed) { fail("connection of a single-mode message left open", m, s.result); return; }
                cur = -1;
            }
        } else {
            c.count("messages refused");
            if (quits > 1) { fail("more than one QUIT", m, s.result); return; }
            cur = -1;
        }
    }
    size_t from = cur >= 0 ? w.peers[static_cast<size_t>(cur)]->ev.size() : 0; int conns0 = static_cast<int>(w.sim.conns.size());
    cl.reset(); w.sim.pump();
    if (static_cast<int>(w.sim.conns.size()) != conns0) fail("destruction opens a connection", last, 0);
    if (cur >= 0) {
        SmtpPeer &p = *w.peers[static_cast<size_t>(cur)]; int setup, quits, mails; size_t a, b; auto t = transaction(p, from, setup, quits, mails, a, b);
        if (!p.closed) fail("batch session left open by the destructor", last, 0);
        if (batch && quits != 1) fail(quits ? "more than one QUIT from the destructor" : "no QUIT from the destructor of a client with an open batch session", last, 0);
        if (!batch && quits > 1) fail("more than one QUIT", last, 0);
        if (mails || setup || !t.empty()) fail("destructor sends more than QUIT", last, 0);
        ++trailing; c.count("open sessions ended by destruction");
    }
    for (size_t i = 0; i < w.peers.size(); ++i) { int q = 0; for (auto &e : w.peers[i]->ev) if (e.kind == Event::Cmd && e.stage == ST_QUIT) ++q; if (q > 1) fail("more than one QUIT in a session", last, 0); }
    if (ok) c.distinct(hist + cfg.show()); if (k % 41 == 0) c.sample(cfg.show() + ": " + hist);
    (void)reused; (void)trailing;
}
const PropDef theProp = {"C18", [](bool t) -> int64_t { return t ? 80000 : 5000; }, run,
    "Random histories of sends (2..9, every 90th case up to 300, every 1500th up to 1500, with idle times of up to a day between them), batch mode switched on and off between them (also twice), refusals of single messages (MAIL, recipient, DATA, content), moves of the client and settings changed while a session is open, then destruction. A session model predicts for every message whether a new connection is opened, which commands may be sent on it, and when QUIT is due; every accepted transaction is compared, command by command and byte by byte of the content, with that of a fresh client in single mode. Non-trivial: distinct histories with at least one accepted message.",
    {"QUIT is not required when batch mode is off at destruction with a session open, nor behind a failed send"}};
