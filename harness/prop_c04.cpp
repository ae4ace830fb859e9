#include "core.h"

static void run(Ctx &c, int64_t k) {
    Rng &r = c.rng;
    Cfg cfg = genCfg(r); Script sc = genScript(r, cfg);
    if (k % 4 == 0) { cfg.kind = PLAIN; sc.implicitTls = false; cfg.cred = false; }
    if (r.chance(40)) cfg.batch = true;
    if (r.chance(20)) sc.over[{ST_MAIL, 0}] = Reply::Code(501);
    if (r.chance(25)) { static const int ST[] = {ST_RCPT, ST_DATA, ST_EOD, ST_MAIL, ST_RCPT}; int st = ST[r.below(5)]; sc.over[{st, r.range(0, 6)}] = r.chance(60) ? Reply::Code(anyCode(r, st)) : r.chance(50) ? Reply::Close() : Reply::Silent(); }
    World w(sc); auto cl = makeClient(cfg);
    struct Tok { std::string t; bool addr; int msg; std::string full; }; std::vector<Tok> toks;
    int sends = r.range(1, 4); std::string hist; MsgSpec last; Script &used = sc; int res = 0;
    std::vector<int> tried;
    for (int i = 0; i < sends; ++i) {
        MsgSpec m = genMsg(r, r.chance(30) ? &c : nullptr, r.chance(10));
        m.bcc.clear(); int n = i > 0 && r.chance(30) ? 0 : r.range(1, r.below(100) == 0 ? 250 : r.chance(10) ? 20 : 4);
        for (int j = 0; j < n; ++j) {
            std::string a = uniqueToken(r, 14), d = uniqueToken(r, 10), nm = uniqueToken(r, 12);
            Addr x{a + "@" + d + ".com", r.chance(70) ? nm : ""};
            if (r.chance(20)) x.mail = upperStr(a) + "@" + d + ".org";
            bool shared = r.chance(20) && !m.to.empty();         // the domain is another recipient's, too
            if (shared) x.mail = a + "@" + m.to[0].mail.substr(m.to[0].mail.rfind('@') + 1);
            toks.push_back({a, true, i, x.mail}); if (!shared) toks.push_back({d, true, i, x.mail}); if (!x.name.empty()) toks.push_back({nm, false, i, x.mail});
            m.bcc.push_back(x);
        }
        if (r.chance(15)) m.to.clear();
        if (r.chance(15)) m.cc.clear();
        SendRec s = doSend(w, *cl, m); res = s.result; last = m;
        c.count("messages sent"); c.count("accepted", s.result == 0);
    }
    cl.reset(); w.sim.pump();
    for (auto &t : toks) {
        int rcptCmds = 0, elsewhere = 0; std::string where;
        for (auto &p : w.peers) {
            // count in all bytes received, then take away the allowed commands
            for (const std::string *bytes : {&p->clearIn, &p->tlsIn}) {
                std::string low = lowerStr(*bytes); size_t i = 0;
                while ((i = low.find(t.t, i)) != std::string::npos) {
                    size_t b = low.rfind('\n', i); b = b == std::string::npos ? 0 : b + 1;
                    size_t e = low.find('\n', i); std::string line = bytes->substr(b, e == std::string::npos ? e : e - b);
                    while (!line.empty() && (line.back() == '\r' || line.back() == '\n')) line.pop_back();
                    if (t.addr && line == "RCPT TO: <" + t.full + ">") ++rcptCmds; else { ++elsewhere; where = line; }
                    i += t.t.size();
                }
            }
            for (auto &e : p->ev) if (e.kind == Event::Message) {      // encoded forms inside the content
                Parsed q = parseMessage(e.text);
                for (auto &part : q.parts) if (lowerStr(part.header("Content-Transfer-Encoding")) == "base64") { std::string d = lowerStr(b64dec(part.content)); if (d.find(t.t) != std::string::npos) { ++elsewhere; where = "base64 part"; } }
                std::string enc = b64enc(t.t); if (e.text.find(enc.substr(0, 12)) != std::string::npos) { ++elsewhere; where = "base64 of the address"; }
            }
        }
        c.count("bcc tokens followed"); c.count("RCPT commands naming a bcc token", static_cast<uint64_t>(rcptCmds));
        if (rcptCmds) c.distinct(std::to_string(k) + t.t);
        if (elsewhere) c.viol(t.addr ? "bcc address transmitted outside its RCPT command" : "bcc display name transmitted", describe(w, cfg, used, last, res, "token " + t.t + " of " + t.full + " (message " + std::to_string(t.msg) + ") in line \"" + esc(where, 200) + "\""));
        if (rcptCmds > 1) c.viol("bcc recipient named in more than one RCPT command", describe(w, cfg, used, last, res, t.full));
    }
    c.sample(cfg.show() + " " + last.show() + " -> " + std::to_string(res));
}
const PropDef theProp = {"C04", [](bool t) -> int64_t { return t ? 400000 : 6000; }, run,
    "Every blind-copy recipient gets fresh random tokens as local part, domain and display name; 1-4 messages per client in single and batch mode, with 501 retries, refusals, closes and attachments. All bytes every server received (in clear and after decryption, base64 parts decoded) are searched for the tokens; only the recipient's own RCPT line may contain one, at most once. Non-trivial: distinct tokens seen on the wire in a RCPT command.",
    {"recipients listed both as Bcc and as To or Cc are not generated"}};
