#include "core.h"

static std::string randCase(Rng &r, const std::string &s) { int x = r.range(0, 9); if (x < 6) return s; if (x < 8) return lowerStr(s); std::string o; for (char ch : s) o += r.chance(50) ? lowerStr(std::string(1, ch)) : upperStr(std::string(1, ch)); return o; }

static std::string bytesOf(Rng &r, int lo, int hi) { std::string s; int n = r.range(lo, hi); int mode = r.range(0, 3); for (int i = 0; i < n; ++i) s += static_cast<char>(mode == 0 ? r.range(1, 255) : mode == 1 ? r.range(33, 126) : mode == 2 ? r.range(0x80, 0xff) : "=\x01 :\r\n\t\\%auth"[r.below(13)]); return s; }
static bool solid(const std::string &s) { return !trimStr(replaceAll(replaceAll(s, "\v", ""), "\f", "")).empty(); }

static void newCred(Rng &r, Cfg &cfg) {
    int x = r.range(0, 19);
    int n = x < 8 ? 20 : x < 15 ? 64 : x < 18 ? 700 : x < 19 ? 6000 : 120000;
    do cfg.user = r.chance(40) ? genMail(r) : bytesOf(r, 1, r.chance(50) ? 20 : n); while (!solid(cfg.user));
    cfg.pass = r.chance(4) ? cfg.user : bytesOf(r, 1, n);
    cfg.rec = r.chance(50) ? 0 : r.range(0, 3);
}

static std::vector<std::string> capsWithAuth(Rng &r, const std::vector<std::string> &mechs, bool authLine) {
    static const std::vector<std::string> C = {"PIPELINING", "SIZE 35882577", "8BITMIME", "CHUNKING", "X-AUTHENTICATION PLAIN LOGIN", "XAUTH LOGIN", "HELP", "X-PLAIN LOGIN", "NOAUTH PLAIN", "PLAIN LOGIN XOAUTH2", "X AUTH PLAIN"};
    std::vector<std::string> v; int n = r.range(0, 7);
    for (int i = 0; i < n; ++i) v.push_back(r.pick(C));
    if (r.chance(6)) for (int i = r.range(10, 80); i > 0; --i) v.push_back("X-LONG " + std::string(static_cast<size_t>(r.range(1, 120)), 'q'));
    if (authLine) {
        std::string l = randCase(r, "AUTH");
        for (auto &m : mechs) l += std::string(r.chance(8) ? "  " : " ") + randCase(r, m);
        if (r.chance(5)) l += " ";
        v.insert(v.begin() + static_cast<long>(r.chance(25) ? v.size() : r.chance(25) ? 0 : r.below(v.size() + 1)), l);
    }
    return v;
}

static void run(Ctx &c, int64_t k) {
    Rng &r = c.rng; Cfg cfg = genCfg(r); cfg.cred = r.chance(90); if (cfg.cred) newCred(r, cfg);
    cfg.selfSigned = false;
    static const std::vector<std::string> OTHER = {"PLAIN-CLIENTTOKEN", "OAUTHBEARER", "XOAUTH", "CRAM-MD5", "NTLM", "DIGEST-MD5", "GSSAPI", "XPLAIN", "LOGINX", "LOGIN-X", "XOAUTH22", "XOAUTH2-X", "PLAINLOGIN", "X-PLAIN"};
    static const char *M[] = {"PLAIN", "LOGIN", "XOAUTH2"};
    int sends = r.range(1, 3); std::vector<Script> scs;
    for (int i = 0; i < sends; ++i) {
        Script sc = genScript(r, cfg);
        unsigned mask = static_cast<unsigned>(i == 0 && k < 512 ? k % 8 : static_cast<int64_t>(r.below(8)));
        auto mk = [&](unsigned ms) { std::vector<std::string> v; for (int j = 0; j < 3; ++j) if (ms >> j & 1) v.push_back(M[j]); int n = r.range(0, 4); for (int j = 0; j < n; ++j) v.push_back(r.pick(OTHER)); for (size_t j = v.size(); j > 1; --j) std::swap(v[j - 1], v[r.below(j)]); if (!v.empty() && r.chance(8)) v.push_back(v[0]); return v; };
        bool line = mask || r.chance(50);
        std::vector<std::string> good = capsWithAuth(r, mk(mask), line), decoy = capsWithAuth(r, mk(static_cast<unsigned>(r.below(8))), r.chance(70));
        if (cfg.kind == PLAIN) { sc.caps = good; sc.capsTls = decoy; }
        else { sc.caps = decoy; sc.capsTls = good; if (cfg.kind == OPP && r.chance(85)) sc.caps.insert(sc.caps.begin() + static_cast<long>(r.below(sc.caps.size() + 1)), "STARTTLS"); }
        static const std::vector<std::string> NAMES = {"auth.example.org", "auth.smtp.example.org Hello [10.0.0.1]", "AUTH1.example.org greets you", "auth-relay.example.net at your service", "plain.example.org PLAIN LOGIN"};
        if (r.chance(12)) sc.ehloName = r.pick(NAMES);
        int y = r.range(0, 11); static const int ST[] = {ST_AUTH, ST_AUTH_USER, ST_AUTH_PASS};
        if (y == 0) sc.over[{ST[r.below(3)], 0}] = Reply::Code(r.chance(50) ? 535 : r.range(400, 599));
        if (y == 1) sc.over[{ST_AUTH_USER, 0}] = Reply::Code(334, r.chance(50) ? "" : "VXNlcm5hbWU6");
        scs.push_back(sc);
    }
    World w(scs[0]); w.scripts = scs; auto cl = makeClient(cfg); MsgSpec m; std::string hist;
    bool had = cfg.cred;
    for (int i = 0; i < sends; ++i) {
        m = genMsg(r);
        if (i) {
            int x = r.range(0, 5);
            if (x == 0) { newCred(r, cfg); cl->setCred(cfg.user, cfg.pass, cfg.rec); cfg.cred = true; hist += "new credentials;"; }
            else if (x == 1) { auto n = cl->copy(); cl = std::move(n); hist += "copied;"; }
            else if (x == 2 && had) { auto n = cl->move(); cl = std::move(n); hist += "moved;"; }
        }
        Sent s = sendWalk(w, *cl, cfg, m);
        if (s.peer < 0) { c.viol("no connection", describe(w, cfg, scs[0], m, s.rec.result, hist)); continue; }
        SmtpPeer &p = *w.peers[static_cast<size_t>(s.peer)];
        auto bad = [&](const std::string &key, const std::string &d) { c.viol(key, describe(w, cfg, p.sc, m, s.rec.result, d + " history: " + hist)); };
        if (!s.fresh) { for (size_t e = s.from; e < p.ev.size(); ++e) if (p.ev[e].kind == Event::Cmd && p.ev[e].stage >= ST_AUTH && p.ev[e].stage <= ST_AUTH_PASS) bad("AUTH repeated in a session already authenticated", p.ev[e].text); hist += "same session;"; continue; }
        // the AUTH exchanges of the session
        int auths = 0, cmdsBeforeMail = 0, authAt = -1, lastEhlo = -1, firstMail = -1, n = 0; bool clearAuth = false; std::string ehloText; std::string userLine, passLine;
        for (auto &e : p.ev) {
            ++n;
            if (e.kind == Event::Cmd) {
                if (e.stage == ST_AUTH) { ++auths; authAt = n; clearAuth = clearAuth || !e.tls; }
                if (e.stage == ST_EHLO || e.stage == ST_EHLO2) lastEhlo = n;
                if (e.stage == ST_MAIL && firstMail < 0) firstMail = n;
                if (e.stage == ST_AUTH_USER || e.stage == ST_AUTH_PASS) ++cmdsBeforeMail;
            }
            if (e.kind == Event::Reply_ && (e.stage == ST_EHLO || e.stage == ST_EHLO2)) ehloText = e.text;
        }
        bool tls = p.tlsOn; Caps caps = capsOf(ehloText); std::string want = wantedMech(cfg, caps);
        bool should = cfg.cred && (cfg.kind != OPP || tls);
        if (s.walk.ambiguous || (s.walk.stopStage >= 0 && s.walk.stopStage < ST_AUTH)) { c.count("sessions that ended before authentication"); continue; }
        std::string in = p.clearIn + p.tlsIn;
        if (!should) {
            c.count("sessions without authentication");
            if (auths) bad(cfg.cred ? "AUTH sent in clear" : "AUTH sent without credentials", "");
        } else if (want.empty()) {
            c.count("sessions where no usable mechanism was offered");
            if (auths) bad("AUTH sent although no usable mechanism was offered", ehloText);
            if (s.rec.result != -84) bad("no usable mechanism offered but result is not -84", ehloText);
            if (cfg.pass.size() >= 10 && (in.find(cfg.pass) != std::string::npos || in.find(b64enc(cfg.pass)) != std::string::npos)) bad("password sent although no usable mechanism was offered", "");
            if (firstMail >= 0) bad("mail sent without authentication", "");
        } else {
            c.count("sessions authenticating with " + want);
            if (auths != 1) bad(auths ? "AUTH sent more than once in a session" : "no AUTH sent", "wanted " + want + " from EHLO reply " + esc(ehloText, 600));
            else {
                if (p.mech != want) bad("wrong mechanism", "used " + p.mech + ", wanted " + want + " from EHLO reply " + esc(ehloText, 600));
                else {
                    bool stoppedEarly = s.walk.stopStage == ST_AUTH || s.walk.stopStage == ST_AUTH_USER;
                    if ((want != "LOGIN" || !stoppedEarly) && (p.user != cfg.user || p.pass != cfg.pass)) bad("credentials received differ (" + want + ")", "user " + esc(p.user, 120) + " password " + esc(p.pass, 120));
                    else { c.count("credentials decoded at the server and equal"); c.count("credential bytes compared", cfg.user.size() + cfg.pass.size()); }
                    if (want == "LOGIN" && s.walk.stopStage == ST_AUTH_USER && p.user != cfg.user) bad("user name received differs", esc(p.user));
                    if (want == "LOGIN" && stoppedEarly && cmdsBeforeMail > (s.walk.stopStage == ST_AUTH ? 0 : 1)) bad("credentials sent after a refusal", "");
                }
                if (authAt < lastEhlo) bad("AUTH before the last EHLO", "");
                if (firstMail >= 0 && firstMail < authAt) bad("MAIL before AUTH", "");
                if (tls && clearAuth) bad("AUTH in clear", "");
            }
            for (auto &x : p.proto) if (x.find("AUTH") != std::string::npos || x.find("unknown command") != std::string::npos) bad("authentication exchange malformed: " + x.substr(0, 60), x);
        }
        if ((!s.walk.malformed || s.walk.unfinished) && !s.walk.codes.empty() && !s.walk.codes.count(s.rec.result)) bad("result differs from what the authentication allows", "allowed first " + std::to_string(*s.walk.codes.begin()));
        for (auto &d : s.walk.divs) if (d.stage >= ST_AUTH && d.stage <= ST_AUTH_PASS) bad("authentication dialogue: " + d.kind, d.what);
        c.distinct(want + "/" + (should ? "y" : "n") + std::to_string(cfg.rec) + std::to_string(cfg.kind) + (cfg.cpp ? "p" : "c") + ehloText + std::to_string(s.rec.result));
        hist += want + "=" + std::to_string(s.rec.result) + ";";
    }
    c.sample(cfg.show() + " " + scs[0].show() + " " + hist);
}
const PropDef theProp = {"C11", [](bool t) -> int64_t { return t ? 300000 : 7000; }, run,
    "Sessions of the six client classes with every subset of PLAIN, LOGIN and XOAUTH2 in AUTH lines of random order, position, letter case, spacing and surrounding or look-alike mechanisms, decoy capability lists before TLS, host names starting with auth, and user names and passwords of any bytes up to 120 000 long; credentials changed, clients copied or moved between sends. The scripted server decodes the exchange by its own decoder; mechanism, order, number of AUTH commands, credentials and result are compared with the advertised list. Non-trivial: distinct (EHLO reply, recommended mechanism, class, result).",
    {"credentials without NUL bytes (the interface takes C strings)", "one AUTH line per reply; the pre-standard AUTH= form is not generated"}};
