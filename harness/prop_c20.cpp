#include "core.h"

struct M { Cfg f; std::string log; int session = -1; bool sessionCred = false; bool moved = false; };
struct S { std::unique_ptr<AnyClient> o; M m; };
static const char *KN[] = {"SmtpClient", "Opportunistic", "ForcedSecure"};

static std::string show(const M &m) { return m.f.host + ":" + std::to_string(m.f.port) + " t=" + std::to_string(m.f.timeout) + " b=" + std::to_string(m.f.batch) + " c=" + (m.f.cred ? m.f.user + "/" + m.f.pass + "/" + std::to_string(m.f.rec) : "none") + " s=" + std::to_string(m.f.selfSigned); }
static std::string show(const AnyClient &c) { return c.server() + ":" + std::to_string(c.port()) + " t=" + std::to_string(c.timeout()) + " b=" + std::to_string(c.batch()) + " c=" + (c.hasCred() ? c.user() + "/" + c.pass() + "/" + std::to_string(c.rec()) : "none") + " s=" + std::to_string(c.selfSigned()); }

static void history(Ctx &c, int64_t k, uint64_t seed, bool report) {
    Rng r(seed); World w; int kind = static_cast<int>(k % 3); bool cpp = k / 3 % 2; std::string hist = std::string(cpp ? "cpp " : "") + KN[kind] + ": "; bool stop = false;
    bool lateOpp = r.chance(30);        // STARTTLS not offered: the sessions stay in clear
    int cert = r.chance(65) ? CK_TRUSTED : CK_SELFSIGNED;
    auto script = [&](Rng &q) { Script sc; sc.rng = q.next() | 1; sc.implicitTls = kind == FORCED; sc.cert = cert; std::string am = "AUTH PLAIN LOGIN XOAUTH2"; sc.caps = {"8BITMIME"}; if (kind == OPP && !lateOpp) sc.caps.push_back("STARTTLS"); if (kind == PLAIN) sc.caps.push_back(am); sc.capsTls = {am, "HELP"}; return sc; };
    w.scripts.clear(); for (int i = 0; i < 40; ++i) { Script sc = script(r); if (i % 5 == 4 && r.chance(60)) { int st = r.chance(50) ? ST_RCPT : ST_EOD; sc.over[{st, r.range(0, 2)}] = r.chance(60) ? Reply::Code(anyCode(r, st)) : Reply::Close(); } w.scripts.push_back(sc); }
    w.sim.resolve = [](const std::string &n, std::string &out) { std::string l = lowerStr(n); if (l == "mail.example.org") out = "10.1.2.3"; else if (l.compare(0, 5, "relay") == 0) out = "10.9.0." + std::to_string(l.size()); else return false; return true; };
    auto fail = [&](const std::string &key, const std::string &d, size_t i) { if (report && !stop) c.viol(std::string(cpp ? "cpp " : "") + KN[kind] + ": " + key, d + "\nobject " + std::to_string(i) + "\n" + hist + "\n" + w.transcript().substr(0, 3500)); stop = true; };
    std::vector<S> v;
    auto gen = [&]() { Cfg f; f.kind = kind; f.cpp = cpp; static const std::vector<std::string> N = {"relay.example.net", "relay2.example.net", "relay-long-name-number-three.example.net", "mail.example.org"}; f.host = kind == PLAIN ? r.pick(N) : r.chance(50) ? "mail.example.org" : "MAIL.Example.org"; f.port = static_cast<unsigned>(r.range(1, 65535)); f.timeout = static_cast<unsigned>(r.range(2, 9)); if (r.chance(10)) { static const unsigned T[] = {60, 255, 256, 300, 301, 900, 3600, 70000}; f.timeout = T[r.below(8)]; } f.batch = r.chance(65); f.cred = r.chance(60); f.user = uniqueToken(r, r.range(1, 20)) + "@example.org"; f.pass = uniqueToken(r, r.range(1, 20)); f.rec = r.range(0, 3); f.selfSigned = kind != PLAIN && r.chance(50); return f; };
    auto add = [&]() { S s; s.m.f = gen(); s.o = makeClient(s.m.f); v.push_back(std::move(s)); };
    auto closedConn = [&](int session) { return session < 0 || w.conn(static_cast<size_t>(session)).clientClosed; };
    auto check = [&](const std::string &op) {
        if (stop) return;
        for (size_t i = 0; i < v.size() && !stop; ++i) {
            if (v[i].m.moved) continue;
            if (report) c.count("clients compared with their model");
            std::string a = show(*v[i].o), b = show(v[i].m);
            if (a != b) fail("settings changed by " + op, "has " + a + "\nshould have " + b, i);
            else if (v[i].o->log() != v[i].m.log) fail("log changed by " + op, esc(v[i].o->log(), 600) + "\nshould be\n" + esc(v[i].m.log, 600), i);
            else if (v[i].m.session >= 0 && closedConn(v[i].m.session)) fail("open session lost through " + op, "connection " + std::to_string(v[i].m.session), i);
        }
        int open = 0; for (auto &s : v) if (s.m.session >= 0) ++open;
        if (!stop && w.sim.openFds() != open) fail(w.sim.openFds() > open ? "connection left open by " + op : "connection missing behind " + op, std::to_string(w.sim.openFds()) + " descriptors, " + std::to_string(open) + " sessions", 0);
        for (auto &x : w.sim.alarms) if (x.compare(0, 7, "blocked") != 0) fail("descriptor misuse by " + op, x, 0);
    };
    auto live = [&](size_t &i) { std::vector<size_t> l; for (size_t q = 0; q < v.size(); ++q) if (!v[q].m.moved) l.push_back(q); if (l.empty()) return false; i = r.pick(l); return true; };
    add(); if (r.chance(60)) add();
    int n = r.range(4, 18);
    for (int step = 0; step < n && !stop; ++step) {
        size_t i = 0, j = r.below(v.size()); std::string op;
        if (!live(i)) { add(); continue; }
        int x = r.range(0, 21);
        if (x <= 6) {
            op = "send"; MsgSpec m = genMsg(r); M &mo = v[i].m; int conns0 = static_cast<int>(w.sim.conns.size()); size_t p0 = w.peers.size(); int ses = mo.session; size_t ev0 = ses >= 0 ? w.peers[static_cast<size_t>(ses)]->ev.size() : 0; std::vector<size_t> evAll; for (auto &p : w.peers) evAll.push_back(p->ev.size());
            SendRec s = doSend(w, *v[i].o, m); mo.log = s.log; hist += "send " + std::to_string(i) + "=" + std::to_string(s.result) + "; ";
            int opened = static_cast<int>(w.sim.conns.size()) - conns0; if (report) c.count("sends");
            if (ses >= 0) {
                if (opened) { fail("open session not continued", "a new connection was made", i); break; }
                if (report) c.count("open sessions continued behind a copy, move or assignment");
                if (w.peers[static_cast<size_t>(ses)]->ev.size() == ev0) { fail("send does not reach the client's own session", "", i); break; }
            } else {
                if (opened != 1) { fail("send of a client without a session opens " + std::to_string(opened) + " connections", "", i); break; }
                sim::Conn &cn = *w.sim.conns.back(); std::string ip = kind == PLAIN && lowerStr(mo.f.host) != "mail.example.org" ? "10.9.0." + std::to_string(mo.f.host.size()) : "10.1.2.3";
                if (cn.addr != ip || cn.port != static_cast<int>(mo.f.port)) { fail("connects to another client's server", cn.addr + ":" + std::to_string(cn.port) + " instead of " + ip + ":" + std::to_string(mo.f.port), i); break; }
                if (w.peers.size() == p0) { fail("no session", "", i); break; }
                ses = static_cast<int>(p0); mo.sessionCred = mo.f.cred;
                const SmtpPeer &p = *w.peers.back(); bool tls = kind == FORCED || (kind == OPP && !lateOpp);
                bool certOk = !tls || cert == CK_TRUSTED || mo.f.selfSigned;
                if (certOk != p.occ[ST_MAIL] > 0) { fail("self-signed setting not the client's own", std::string(certOk ? "should" : "should not") + " accept the certificate", i); break; }
                if (certOk && (kind == PLAIN || tls) && mo.f.cred && (p.user != mo.f.user || p.pass != mo.f.pass)) { fail("authenticates with another credential", p.user + "/" + p.pass, i); break; }
                if (certOk && (kind == PLAIN || tls) && mo.f.cred) { static const char *R[] = {"PLAIN", "PLAIN", "LOGIN", "XOAUTH2"}; if (p.mech != R[mo.f.rec]) { fail("authenticates with another mechanism", p.mech, i); break; } }
                if (!mo.f.cred && (p.occ[ST_AUTH] > 0)) { fail("authenticates without a credential", p.user, i); break; }
            }
            for (size_t q = 0; q < evAll.size(); ++q) if (static_cast<int>(q) != ses && w.peers[q]->ev.size() != evAll[q]) { fail("send reaches another client's session", "connection " + std::to_string(q), i); break; }
            if (!stop && s.result != 0 && w.peers[static_cast<size_t>(ses)]->sc.over.empty() && w.peers[static_cast<size_t>(ses)]->occ[ST_MAIL] > 0) { fail("send fails with an obliging server", "result " + std::to_string(s.result), i); break; }
            if (!stop) { SmtpPeer &p = *w.peers[static_cast<size_t>(ses)]; if (s.result == 0) { std::string want = "<" + m.from.mail + ">"; bool ok = !p.mails.empty() && trimStr(p.mails.back().from) == want && p.mails.back().rcpts.size() == m.to.size() + m.cc.size() + m.bcc.size(); if (!ok) fail("message not delivered over the client's session", "", i); } }
            mo.session = s.result == 0 && mo.f.batch ? ses : -1;
        } else if (x == 7) { op = "construction"; add(); }
        else if (x <= 9) { op = "copy construction"; S s; s.o = v[i].o->copy(); s.m = v[i].m; s.m.session = -1; v.push_back(std::move(s)); }
        else if (x <= 11) { op = "assignment"; if (j != i) { v[j].o->assign(*v[i].o); v[j].m = v[i].m; v[j].m.session = -1; } }
        else if (x == 12) { op = "self-assignment"; v[i].o->assign(*v[i].o); if (v[i].m.session >= 0 && closedConn(v[i].m.session)) v[i].m.session = -1; }
        else if (x == 13) { op = "move construction"; S s; s.o = v[i].o->move(); s.m = v[i].m; v[i].m.moved = true; v[i].m.session = -1; if (r.chance(60)) v[i].o.reset(); v.push_back(std::move(s)); if (!v[i].o) v.erase(v.begin() + static_cast<long>(i)); }
        else if (x <= 15) { op = "move assignment"; if (j != i) { v[j].o->moveAssign(*v[i].o); v[j].m = v[i].m; v[i].m.moved = true; v[i].m.session = -1; if (r.chance(60)) v.erase(v.begin() + static_cast<long>(i)); } }
        else if (x == 16) { op = "destruction"; if (v.size() > 1) v.erase(v.begin() + static_cast<long>(r.below(v.size()))); }
        else if (x <= 19) { op = "setter"; Cfg g = gen(); M &m = v[i].m; AnyClient &o = *v[i].o; int y = r.range(0, 5);
            if (y == 0) { o.setServer(g.host); m.f.host = g.host; } else if (y == 1) { o.setPort(g.port); m.f.port = g.port; } else if (y == 2) { o.setTimeout(g.timeout); m.f.timeout = g.timeout; } else if (y == 3) { o.setBatch(g.batch); m.f.batch = g.batch; } else if (y == 4) { o.setCred(g.user, g.pass, g.rec); m.f.cred = true; m.f.user = g.user; m.f.pass = g.pass; m.f.rec = g.rec; } else if (kind != PLAIN) { o.setSelfSigned(g.selfSigned); m.f.selfSigned = g.selfSigned; } }
        else if (x == 20) { op = "setters with own values"; v[i].o->selfSet(); }
        else { op = "swap"; if (i != j && !v[j].m.moved) { auto t = v[i].o->move(); v[i].o->moveAssign(*v[j].o); v[j].o->moveAssign(*t); std::swap(v[i].m, v[j].m); } }
        if (op != "send") hist += op + " " + std::to_string(i) + "," + std::to_string(j) + "; ";
        w.sim.pump(); check(op);
    }
    std::string last = "destruction of all";
    while (!v.empty() && !stop) { v.erase(v.begin() + static_cast<long>(r.below(v.size()))); w.sim.pump(); check(last); }
    v.clear();
    if (report && !stop) { c.distinct(hist); if (k % 61 == 0) c.sample(hist); }
}
static void run(Ctx &c, int64_t k) {
    uint64_t seed = c.rng.next(); int v0 = c.violations;
    history(c, k, seed, true);
    if (c.violations != v0 || k % 2) return;
    long leak = leakPerRun([&]() { history(c, k, seed, false); }); c.count("histories repeated under the heap monitor");
    if (leak > 0) c.viol(std::string("memory is not given back: ") + (k / 3 % 2 ? "cpp " : "") + KN[k % 3], std::to_string(leak) + " bytes per repetition");
}
const PropDef theProp = {"C20", [](bool t) -> int64_t { return t ? 100000 : 5400; }, run,
    "Random histories over pools of clients of the six classes: construct, copy, assign, self-assign, move, move-assign, swap, setters (also with own values), destroy, send over servers with and without STARTTLS, trusted and self-signed, sometimes refusing. A value model says for every object its settings, log and whether it owns an open session; after every operation all objects are compared with it, the number of open descriptors must equal the number of sessions the model knows, and every send must go over the object's own session, or one new connection to its own server and port with its own credential, mechanism and self-signed setting, leaving all other connections untouched, and succeed when the server refuses nothing. Heap growth over repeated histories and AddressSanitizer watch the memory. Non-trivial: distinct histories.",
    {"moved-from clients are only assigned to or destroyed", "after self-assignment the session may either continue or have been closed"}};
