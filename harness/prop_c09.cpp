#include "core.h"

static bool has(const std::string &hay, const std::string &needle) { return !needle.empty() && hay.find(needle) != std::string::npos; }

static void run(Ctx &c, int64_t k) {
    Rng &r = c.rng; Cfg cfg = genCfg(r);
    cfg.kind = k % 4 == 0 ? FORCED : OPP;
    cfg.cred = r.chance(80); cfg.user = uniqueToken(r, 12) + "@example.org"; cfg.pass = uniqueToken(r, 14); cfg.rec = r.chance(60) ? 0 : r.range(0, 3);
    int sends = r.range(1, 4); std::vector<Script> scs;
    std::vector<std::string> labels;
    for (int i = 0; i < sends; ++i) {
        Script sc = genScript(r, cfg); std::string lb;
        static const std::vector<std::string> ALL = {"PLAIN LOGIN XOAUTH2", "LOGIN", "PLAIN", "XOAUTH2", "CRAM-MD5", ""};
        if (cfg.kind == OPP) {
            bool st = r.chance(65); sc.caps = genCaps(r, false, r.chance(60) ? r.pick(ALL) : "");
            if (r.chance(8)) for (int j = r.range(20, 60); j > 0; --j) sc.caps.push_back("X-LONG-CAPABILITY-" + std::to_string(j) + " " + std::string(static_cast<size_t>(r.range(1, 60)), 'z'));
            if (st) { std::string s = r.chance(70) ? "STARTTLS" : r.chance(50) ? "starttls" : "StartTLS"; size_t at = r.chance(30) ? sc.caps.size() : r.chance(30) ? 0 : r.below(sc.caps.size() + 1); sc.caps.insert(sc.caps.begin() + static_cast<long>(at), s); lb = "starttls@" + std::to_string(at) + "/" + std::to_string(sc.caps.size()) + " "; }
            else if (r.chance(15)) sc.caps.push_back(r.chance(50) ? "XSTARTTLS" : "X-NO STARTTLS");
        }
        sc.capsTls = genCaps(r, r.chance(15), r.chance(80) ? r.pick(ALL) : "");
        int x = r.range(0, 19);
        if (x == 0) { sc.hsMode = r.range(1, 6); sc.hsBytes = r.range(0, 900); lb += "hs" + std::to_string(sc.hsMode); }
        else if (x == 1) { static const int K[] = {CK_EXPIRED, CK_WRONGHOST, CK_UNKNOWNCA, CK_SELFSIGNED, CK_CHAIN_SELFSIGNED_ROOT}; sc.cert = K[r.below(5)]; lb += certName(sc.cert); }
        else if (x <= 4 && cfg.kind == OPP) {
            static const int C[] = {454, 501, 502, 503, 554, 250, 221, 421, 235, 354};
            int y = r.range(0, 5);
            sc.over[{ST_STARTTLS, 0}] = y <= 2 ? Reply::Code(r.chance(50) ? C[r.below(10)] : anyCode(r, ST_STARTTLS)) : y == 3 ? Reply::Silent() : y == 4 ? Reply::Close() : Reply::Raw(r.chance(50) ? "2\r\n" : "garbage\r\n"); lb += "starttls-refused";
        }
        else if (x <= 7 && cfg.kind == OPP) {
            static const std::vector<std::string> INJ = {"250 ok\r\n", "250-evil\r\n250-AUTH PLAIN LOGIN XOAUTH2\r\n250 OK\r\n", "220 again\r\n", "250-evil\r\n250 AUTH LOGIN\r\n235 ok\r\n250 ok\r\n250 ok\r\n354 go\r\n250 ok\r\n", "\r\n", "x", "550 no\r\n", "235 2.7.0 Accepted\r\n"};
            sc.afterStartTls = r.pick(INJ); lb += "injected";
        }
        else if (x == 8) { int st = r.chance(50) ? ST_EHLO2 : ST_EHLO; sc.over[{st, 0}] = r.chance(50) ? Reply::Code(r.chance(50) ? 502 : 421) : r.chance(50) ? Reply::Close() : Reply::Silent(); lb += "ehlo"; }
        else if (x == 9) { static const int ST[] = {ST_AUTH, ST_MAIL, ST_RCPT, ST_DATA, ST_EOD, ST_QUIT}; sc.over[{ST[r.below(6)], 0}] = r.chance(60) ? Reply::Code(r.range(400, 599)) : Reply::Close(); lb += "later"; }
        else if (x == 10) { sc.cutAfter = r.range(0, 2500); sc.cutKind = r.chance(50) ? sim::End::Fin : sim::End::Rst; lb += "cut"; }
        else if (x == 11 && cfg.kind == FORCED) { sc.implicitTls = false; lb += "clear-speaking server"; }
        scs.push_back(sc); labels.push_back(lb);
    }
    World w(scs[0]); w.scripts = scs;
    auto cl = makeClient(cfg);
    std::string body = uniqueToken(r, 16), rc = uniqueToken(r, 12), sub = uniqueToken(r, 12);
    MsgSpec m; std::string hist;
    for (int i = 0; i < sends; ++i) {
        m = genMsg(r); m.body += body; m.subject = sub; m.to.push_back({rc + "@example.org", ""});
        if (r.chance(15)) { bool b = r.chance(50); cl->setBatch(b); cfg.batch = b; }
        size_t np = w.peers.size();
        SendRec s = doSend(w, *cl, m);
        hist += std::to_string(s.result) + " ";
        for (size_t q = np; q < w.peers.size(); ++q) {
            SmtpPeer &p = *w.peers[q]; const Script &sc = p.sc; (void)sc;
            std::string lb = labels[std::min(q, labels.size() - 1)];
            auto bad = [&](const std::string &key, const std::string &d) { c.viol(key, describe(w, cfg, p.sc, m, s.result, "connection " + std::to_string(q) + " (" + lb + "): " + d)); };
            c.count("secure sessions judged");
            if (cfg.kind == FORCED) {
                if (!p.sc.implicitTls) {
                    if (!p.clearIn.empty() && static_cast<unsigned char>(p.clearIn[0]) != 0x16) bad("forced client sent clear text", esc(p.clearIn, 80));
                    for (const char *t : {"EHLO", "ehlo", "MAIL FROM", "AUTH ", "QUIT"}) if (has(p.clearIn, t)) bad("forced client sent clear text", t);
                    if (s.result == 0) bad("forced client succeeded without TLS", "");
                    c.distinct(lb + "F-clear" + std::to_string(s.result)); continue;
                }
                if (!p.clearIn.empty()) bad("forced client sent clear text", esc(p.clearIn, 80));
            }
            // replies and commands in order
            bool advertised = false, known = false, tlsFailed = false; std::string advert;
            for (auto &e : p.ev) {
                if (e.kind == Event::Reply_ && e.stage == ST_EHLO && !e.tls) { ReplyView v = viewReply(e.text); if (v.kind == ReplyView::Well && v.code == 250 && e.complete) { known = true; advertised = capsOf(e.text).starttls; advert = e.text; } }
                if (e.kind == Event::Reply_ && e.stage == ST_STARTTLS) { ReplyView v = viewReply(e.text); if (!(v.kind == ReplyView::Well && v.code == 220)) tlsFailed = true; }
                if ((e.kind == Event::Cmd || e.kind == Event::Message) && !e.tls && cfg.kind == OPP) {
                    std::string u = e.kind == Event::Message ? "<message>" : upperStr(e.text);
                    bool hello = u.compare(0, 4, "EHLO") == 0 || u == "STARTTLS" || u == "QUIT";
                    if (hello) { if (u == "STARTTLS") c.count("STARTTLS commands seen"); continue; }
                    if (u.compare(0, 4, "AUTH") == 0 || e.stage == ST_AUTH_USER || e.stage == ST_AUTH_PASS) bad("credentials command in clear", u);
                    if (advertised) bad("command in clear although STARTTLS was advertised", "\"" + esc(e.text, 80) + "\" after EHLO reply \"" + esc(advert, 400) + "\"");
                    else if (tlsFailed) bad("command in clear after a refused STARTTLS", esc(e.text, 80));
                    else if (!known) bad("mail command in clear without an EHLO reply", esc(e.text, 80));
                    else c.count("clear commands of sessions without STARTTLS");
                }
            }
            if (cfg.kind == OPP) {
                std::string in = p.clearIn;
                for (auto &t : {cfg.pass, b64enc(cfg.pass), b64enc(std::string("\0", 1) + cfg.user + std::string("\0", 1) + cfg.pass), b64enc(cfg.user)}) if (cfg.cred && has(in, t)) bad("credentials in clear text", esc(t));
                if (advertised && (has(in, body) || has(in, rc) || has(in, sub))) bad("message text in clear although STARTTLS was advertised", "");
            }
            // the TLS part follows the specification with only what was received inside TLS
            bool injected = !p.sc.afterStartTls.empty(); std::string keep = p.sc.afterStartTls; p.sc.afterStartTls.clear();
            bool tlsCmds = false; for (auto &e : p.ev) if (e.tls && (e.kind == Event::Cmd || e.kind == Event::Message)) tlsCmds = true;
            Walk wk = walkSend(w, cfg, m, q, 0, true);
            p.sc.afterStartTls = keep;
            if (injected && advertised) {
                c.count("sessions with bytes injected before the handshake");
                if (!tlsCmds) { if (s.result == 0) bad("success without TLS after injected bytes", ""); }
                else for (auto &d : wk.divs) if (d.stage >= ST_HANDSHAKE && d.stage <= ST_EOD) bad("bytes injected before the handshake changed the TLS dialogue", d.what);
                if (tlsCmds && wk.divs.empty() && !wk.ambiguous && (!wk.malformed || wk.unfinished) && !wk.codes.empty() && !wk.codes.count(s.result)) bad("bytes injected before the handshake changed the result", std::to_string(s.result));
            } else if (!wk.ambiguous) {
                for (auto &d : wk.divs) {
                    if (d.stage == ST_STARTTLS && d.kind == "missing" && !tlsCmds) continue;      // it failed instead
                    if ((d.stage == ST_STARTTLS || d.stage == ST_HANDSHAKE || d.stage == ST_EHLO2 || (d.stage == ST_AUTH && wk.sessionTls)) || (d.kind == "continued" && wk.stopStage <= ST_AUTH && wk.stopStage >= ST_STARTTLS)) bad(std::string("TLS dialogue: ") + d.kind + " at " + stageName(d.stage), d.what);
                }
                if (wk.stopStage == ST_STARTTLS || wk.stopStage == ST_HANDSHAKE) { c.count("failed STARTTLS or handshake"); if (tlsCmds && wk.stopStage == ST_HANDSHAKE && (p.sc.hsMode || wk.certRefused)) bad("command after a failed handshake", ""); if (s.result == 0) bad("success after a failed STARTTLS or handshake", ""); }
            }
            c.distinct(lb + (advertised ? "A" : "-") + (tlsCmds ? "T" : "-") + std::to_string(s.result) + std::to_string(q - np) + std::to_string(cfg.kind) + (cfg.cpp ? "p" : "c") + std::to_string(i));
        }
    }
    std::string l; for (auto &x : labels) l += "[" + x + "] ";
    c.sample(cfg.show() + " " + l + "-> " + hist);
}
const PropDef theProp = {"C09", [](bool t) -> int64_t { return t ? 250000 : 6000; }, run,
    "Histories of 1-4 sends of one secure client over sessions with different servers: STARTTLS in every position and letter case or absent, look-alike capabilities, refused/silent/broken STARTTLS, broken handshakes, bad certificates, bytes injected behind the STARTTLS reply, clear-speaking servers, other capabilities inside TLS, failures in between, batch switched on and off. Every clear byte each server received is judged (allowed commands only, no credential or message token), and the TLS part must follow the dialogue determined by what was received inside TLS. Non-trivial: distinct (server behaviour, what was sent where, result) combinations.",
    {"a QUIT in clear is tolerated"}};
