#include "core.h"

static void run(Ctx &c, int64_t k) {
    Rng &r = c.rng; Cfg cfg = genCfg(r); cfg.cred = true; cfg.selfSigned = false;
    auto newCred = [&]() {
        int n = r.chance(60) ? r.range(10, 24) : r.chance(70) ? r.range(24, 300) : r.chance(80) ? r.range(2000, 9000) : r.range(40000, 60000);
        cfg.user = uniqueToken(r, r.range(10, 30)) + (r.chance(70) ? "@" + uniqueToken(r, 10) + ".com" : "");
        cfg.pass = uniqueToken(r, n);
        if (r.chance(30)) for (auto &ch : cfg.pass) if (r.chance(20)) ch = static_cast<char>(r.range(1, 255));
        cfg.rec = r.chance(40) ? 0 : r.range(1, 3);
    };
    newCred(); if (k % 3 != 2 || r.chance(50)) cfg.rec = static_cast<int>(k % 4);
    static const int ST[] = {ST_AUTH, ST_AUTH_USER, ST_AUTH_PASS, ST_MAIL, ST_RCPT, ST_DATA, ST_EOD, ST_QUIT, ST_EHLO, ST_EHLO2, ST_GREET};
    int sends = r.range(1, 4); std::vector<Script> scs;
    for (int i = 0; i < sends; ++i) {
        Script sc = genScript(r, cfg); std::vector<std::string> all = genCaps(r, false, r.chance(80) ? "PLAIN LOGIN XOAUTH2" : r.chance(50) ? "LOGIN" : "XOAUTH2");
        if (cfg.kind == PLAIN) sc.caps = all; else { sc.capsTls = all; if (cfg.kind == OPP) sc.caps = genCaps(r, r.chance(92), r.chance(50) ? "PLAIN LOGIN" : ""); }
        int x = r.range(0, 9);
        if (x <= 6) {
            int st = r.chance(70) ? ST[r.below(3)] : ST[r.below(11)], y = r.range(0, 8); Reply q;
            if (y == 0) q = Reply::Silent(); else if (y == 1) q = Reply::Close(); else if (y == 2) q = Reply::Rst();
            else if (y == 3) q = Reply::Code(r.range(100, 599)); else if (y == 4) q = Reply::Code(535, "5.7.8 Username and Password not accepted"); else if (y == 5) q = Reply::Multi(334, {"one", "two"});
            else if (y == 6) q = Reply::Raw(r.chance(50) ? "334\r\n" : "garbage\r\n"); else if (y == 7) { q = Reply::Code(334); q.delay = r.range(0, 9) * sim::SEC; } else { q = Reply::Code(535); q.close = true; }
            sc.over[{st, 0}] = q;
        } else if (x == 7) { sc.cutAfter = r.range(0, cfg.kind == PLAIN ? 600 : 4000); sc.cutKind = r.chance(40) ? sim::End::Fin : r.chance(50) ? sim::End::Rst : sim::End::None; }
        else if (x == 8) { sc.window = r.range(0, 400); sc.windowFromStage = r.chance(50) ? ST_AUTH : ST[r.below(11)]; }
        scs.push_back(sc);
    }
    World w(scs[0]); w.scripts = scs; if (r.chance(10)) { w.sim.faults.push_back({sim::Op::Send, r.range(0, 12), r.chance(50) ? sim::Fault::Errno : sim::Fault::Short, r.chance(50) ? 104 : 11}); if (w.sim.faults[0].kind == sim::Fault::Errno) w.sim.faults[0].arg = r.chance(50) ? 104 : 32; else w.sim.faults[0].arg = r.range(1, 20); }
    auto cl = makeClient(cfg); std::string hist; MsgSpec m;
    std::vector<std::pair<std::string, std::string>> secrets;   // what, text
    auto learn = [&]() { secrets.push_back({"password", cfg.pass}); secrets.push_back({"base64 of the password", b64enc(cfg.pass)}); secrets.push_back({"base64 of the user name", b64enc(cfg.user)}); };
    learn(); int authSeen = 0;
    auto check = [&](const std::string &log, const Script &sc, int res, const std::string &where) {
        for (auto &s : secrets) {
            // any sizeable part: the log could be cut or broken into lines
            bool hit = log.find(s.second) != std::string::npos; size_t win = 10 <= s.second.size() && s.second.size() < 16 ? s.second.size() : 16;
            for (size_t i = 0; !hit && s.second.size() >= win && i + win <= s.second.size() && i < 4096; i += 5) hit = log.find(s.second.substr(i, win)) != std::string::npos;
            c.count("searches for a secret in a log");
            if (hit) { c.viol(s.first + " in the communication log", describe(w, cfg, sc, m, res, where + " after " + hist + " log:\n" + esc(log, 3000))); return; }
        }
    };
    for (int i = 0; i < sends; ++i) {
        m = genMsg(r);
        if (i) { int x = r.range(0, 5); if (x == 0) { newCred(); cl->setCred(cfg.user, cfg.pass, cfg.rec); learn(); hist += "new credentials;"; } else if (x == 1) { auto n = cl->copy(); check(n->log(), scs[0], 0, "copied client"); cl = std::move(n); hist += "copied;"; } }
        SendRec s = doSend(w, *cl, m);
        hist += std::to_string(s.result) + ";";
        // what the server really received in the exchanges
        for (size_t q = 0; q < w.peers.size(); ++q) {
            auto &p = *w.peers[q]; int auths = 0;
            for (auto &e : p.ev) if (e.kind == Event::Cmd && e.stage >= ST_AUTH && e.stage <= ST_AUTH_PASS) {
                ++auths;
                std::string t = e.stage == ST_AUTH ? (e.text.find(' ', 5) == std::string::npos ? "" : e.text.substr(e.text.find(' ', 5) + 1)) : e.text;
                if (t.size() >= 14) { bool dup = false; for (auto &x : secrets) dup = dup || x.second == t; if (!dup) secrets.push_back({std::string("line of the exchange (") + stageName(e.stage) + ")", t}); }
            }
            if (static_cast<int>(q) == s.connsAfter - 1 && s.connsAfter > s.connsBefore && auths) {
                ++authSeen; c.count("authentication exchanges seen by the server"); if (p.authed) c.count("... that succeeded");
                std::string pt = p.mech == "XOAUTH2" ? "XOAUTH2" : p.mech; (void)pt;
                if (s.log.find("*****") == std::string::npos) c.viol("no masked line for the authentication", describe(w, cfg, p.sc, m, s.result, hist + " log:\n" + esc(s.log, 3000)));
            }
        }
        check(s.log, scs[std::min(static_cast<size_t>(i), scs.size() - 1)], s.result, "log");
        c.count("logs searched"); c.count("log bytes searched", s.log.size());
        if (authSeen) { const SmtpPeer &p = *w.peers.back(); c.distinct(p.mech + std::to_string(s.result) + std::to_string(cfg.kind) + (cfg.cpp ? "p" : "c") + (p.authed ? "A" : "-") + std::to_string(i) + p.sc.show().substr(0, 0) + std::to_string(p.ev.empty() ? 0 : p.ev.back().stage) + std::to_string(cfg.pass.size() / 64)); }
    }
    check(cl->log(), scs[0], 0, "log at the end");
    c.sample(cfg.show() + " " + scs[0].show() + " " + hist);
}
const PropDef theProp = {"C12", [](bool t) -> int64_t { return t ? 300000 : 7000; }, run,
    "Every send authenticates with fresh random secrets (10 to 60 000 characters) while the server accepts, refuses, delays, stays silent, closes, resets or stops reading at each step of the exchange and elsewhere, in histories with new credentials, copies and batch mode. After every call the log is searched for the password, its base64, the base64 user name and the very lines the server received (whole and 16-character windows), and a masked line must be there when an AUTH command reached the server. Non-trivial: distinct (mechanism, result, class, step reached, secret size).",
    {"passwords of at least 10 characters (shorter ones may occur in ordinary text)", "servers that echo the password in their replies are outside the property"}};
