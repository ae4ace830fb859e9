#include "core.h"

// One connection judged: what may the client have sent to a server with this certificate?
static void judge(Ctx &c, World &w, const Cfg &cfg, SmtpPeer &p, const MsgSpec &m, int result, const std::string &hist) {
    auto bad = [&](const std::string &key, const std::string &d) { c.viol(key + " (" + certName(p.sc.cert) + (cfg.selfSigned ? ", accepting self-signed)" : ")"), describe(w, cfg, p.sc, m, result, d + " history: " + hist)); };
    if (!p.tlsOn) { c.count("sessions without TLS"); return; }
    int v = certVerdict(cfg, p.sc.cert);
    c.count(std::string("sessions with certificate ") + certName(p.sc.cert));
    c.count(v == 1 ? "certificates to be accepted" : v == 0 ? "certificates to be refused" : "certificates not settled");
    if (p.hsDone) c.count("handshakes finished on the server's side");
    if (v == 0) {
        if (!p.tlsIn.empty()) bad("data sent over TLS to an unauthenticated server", "\"" + esc(p.tlsIn, 200) + "\"");
        if (result > -51 || result < -58) bad("unauthenticated server not reported as a TLS negotiation error", std::to_string(result));
        if (!p.mails.empty()) bad("mail delivered to an unauthenticated server", "");
    } else if (v == 1) {
        if (result != 0) bad("authenticated server refused", std::to_string(result));
        else if (p.mails.empty()) bad("no mail at an authenticated server", "");
    }
    c.distinct(std::string(certName(p.sc.cert)) + (cfg.selfSigned ? "S" : "-") + std::to_string(cfg.kind) + cfg.host + (cfg.cpp ? "p" : "c") + std::to_string(result) + (cfg.batch ? "b" : "") + (p.sc.tlsMax ? "2" : "3") + hist);
}

static const std::vector<std::string> HOSTS = {"mail.example.org", "10.1.2.3", "MAIL.Example.ORG", "other.example.org", "a.b.example.org", "example.org", "mail.example.org.attacker.example", "mail.attacker.example", "mail.example.or", "ail.example.org", "192.0.2.77", "10.1.2.30", "xmail.example.org", "mail.example.orgg", "cdn.example.net", "localhost"};

static void run(Ctx &c, int64_t k) {
    Rng &r = c.rng; Cfg cfg = genCfg(r);
    const int64_t sys = 2 * CK_COUNT * static_cast<int64_t>(HOSTS.size()) * 2;
    bool systematic = k < sys;
    cfg.kind = k % 2 ? FORCED : OPP;
    cfg.cred = r.chance(60); cfg.selfSigned = r.chance(40);
    cfg.host = r.chance(50) ? HOSTS[0] : r.chance(30) ? HOSTS[1] : r.pick(HOSTS);
    int sends = r.range(1, 4), firstCert = -1;
    if (systematic) { int64_t q = k / 2; firstCert = static_cast<int>(q % CK_COUNT); q /= CK_COUNT; cfg.host = HOSTS[static_cast<size_t>(q % static_cast<int64_t>(HOSTS.size()))]; q /= static_cast<int64_t>(HOSTS.size()); cfg.selfSigned = q % 2; sends = 1; }
    std::vector<Script> scs;
    for (int i = 0; i < sends; ++i) {
        Script sc = genScript(r, cfg);
        if (cfg.kind == OPP && (systematic || r.chance(85))) { sc.caps = genCaps(r, true, ""); }
        sc.capsTls = genCaps(r, false, "PLAIN LOGIN XOAUTH2");
        static const int NEAR[] = {CK_TRUSTED, CK_WRONGHOST, CK_SELFSIGNED, CK_CHAIN_SELFSIGNED_ROOT, CK_UNKNOWNCA};
        sc.cert = systematic ? firstCert : r.chance(45) ? NEAR[r.below(5)] : r.range(0, CK_COUNT - 1);
        scs.push_back(sc);
    }
    World w(scs[0]); w.scripts = scs; w.host = cfg.host; if (cfg.host.find_first_not_of("0123456789.") == std::string::npos) w.ip = cfg.host;
    auto cl = makeClient(cfg); std::vector<std::unique_ptr<AnyClient>> keep;
    std::string hist; MsgSpec m;
    for (int i = 0; i < sends; ++i) {
        m = genMsg(r);
        if (!systematic && i) {
            int x = r.range(0, 9);
            if (x <= 2) { cfg.selfSigned = !cfg.selfSigned; cl->setSelfSigned(cfg.selfSigned); hist += cfg.selfSigned ? "flag on;" : "flag off;"; if (cfg.batch) { cl->setBatch(false); cfg.batch = false; } }
            else if (x == 3) { auto n = cl->copy(); keep.push_back(std::move(cl)); cl = std::move(n); hist += "copied;"; }
            else if (x == 4) { auto n = cl->move(); keep.push_back(std::move(cl)); cl = std::move(n); hist += "moved;"; }
            else if (x == 5) { Cfg o = cfg; o.selfSigned = false; auto n = makeClient(o); n->assign(*cl); keep.push_back(std::move(cl)); cl = std::move(n); hist += "assigned;"; }
            else if (x == 6) { Cfg o = cfg; o.selfSigned = true; auto n = makeClient(o); n->assign(*cl); keep.push_back(std::move(cl)); cl = std::move(n); hist += "assigned over;"; }
            else if (x == 7 && !cfg.batch) { w.host = cfg.host = r.chance(50) ? HOSTS[0] : r.pick(HOSTS); w.ip = cfg.host.find_first_not_of("0123456789.") == std::string::npos ? cfg.host : "10.1.2.3"; cl->setServer(cfg.host); hist += "host " + cfg.host + ";"; }
        }
        if (cl->selfSigned() != cfg.selfSigned) c.viol("accept-self-signed setting differs", describe(w, cfg, scs[0], m, 0, hist));
        SendRec s = doSend(w, *cl, m);
        for (int q = s.connsBefore; q < s.connsAfter; ++q) judge(c, w, cfg, *w.peers[static_cast<size_t>(q)], m, s.result, hist);
        hist += std::string(s.connsAfter > s.connsBefore ? certName(w.peers.back()->sc.cert) : "same session") + "=" + std::to_string(s.result) + ";";
        if (s.result != 0) c.count("sends refused"); else c.count("sends accepted");
        c.count("histories with a certificate change", i && w.peers.size() > 1 && w.peers[w.peers.size() - 1]->sc.cert != w.peers[w.peers.size() - 2]->sc.cert);
    }
    cl.reset(); keep.clear();
    for (auto &p : w.peers) if (p->tlsOn && certVerdict(cfg, p->sc.cert) == 0 && sends == 1 && !p->tlsIn.empty()) c.viol("data sent over TLS to an unauthenticated server at destruction", describe(w, cfg, p->sc, m, 0, hist));
    c.sample(cfg.show() + " " + hist);
}
const PropDef theProp = {"C10", [](bool t) -> int64_t { return t ? 120000 : 5000; }, run,
    "Real TLS handshakes with servers presenting 29 kinds of certificate (chains, validity, names, wildcard, IP, NUL byte in the name, leaf as issuer, forged issuer, expired intermediate, client-only usage, anonymous key exchange ...) x 16 configured server names x accept flag x opportunistic/forced client: the full product first, then histories of up to 4 sends with the flag toggled, the server name changed, the client copied, moved and assigned, and certificates changing between sessions. Oracle: an independent table of what each certificate proves. Refused certificates must leave zero application bytes inside TLS and give -51..-58; accepted ones must deliver. Non-trivial: distinct (certificate, flag, class, name, result, history).",
    {"whether the flag also waives name and dates of a self-signed certificate is not judged", "a certificate without subjectAltName whose CN matches is not judged", "revocation is outside the property", "the flag is not toggled inside an open batch session"}};
