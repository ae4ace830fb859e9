#include <cerrno>
#include "core.h"
using sim::ConnectPlan; using sim::Fault; using sim::Op; using sim::SEC;

static std::string genIp(Rng &r) { return std::to_string(r.range(1, 223)) + "." + std::to_string(r.range(0, 255)) + "." + std::to_string(r.range(0, 255)) + "." + std::to_string(r.range(1, 254)); }
static std::string genHost(Rng &r, std::string &cls) {
    int x = r.range(0, 9); std::string s;
    if (x == 0) { cls = "address"; return genIp(r); }
    if (x == 1) { cls = "long name"; int n = r.chance(50) ? r.range(240, 260) : r.range(300, 9000); while (static_cast<int>(s.size()) < n) { s += static_cast<char>('a' + r.below(26)); if (s.size() % 50 == 49) s += '.'; } return "h" + s + "h"; }
    if (x == 2) { cls = "unusual name"; static const std::vector<std::string> O = {"localhost", "a", "%s%n%d.example.org", "mail.example.org.", "UPPER.Example.ORG", "xn--mnchen-3ya.example", "under_score.example.org", "1.2.3.example.org", "name-with-dashes--x.example"}; return r.pick(O); }
    if (x <= 4) { cls = "standard name"; return "mail.example.org"; }
    cls = "name"; int n = r.range(1, 4); for (int i = 0; i < n; ++i) { int l = r.range(1, 20); for (int q = 0; q < l; ++q) s += static_cast<char>('a' + r.below(26)); s += '.'; } return s + "example.org";
}
static unsigned genPort(Rng &r) { static const std::vector<unsigned> P = {25, 465, 587, 1, 65535, 255, 256, 32767, 32768, 2525}; return r.chance(50) ? r.pick(P) : static_cast<unsigned>(r.range(1, 65535)); }
static bool isIp(const std::string &s) { return s.find_first_not_of("0123456789.") == std::string::npos; }

struct Want { std::set<int> codes; bool ok = false, silent = true, reach = true; int64_t maxT = -1, minT = -1; std::string what; };

static void run(Ctx &c, int64_t k) {
    Rng &r = c.rng; Cfg cfg; cfg.kind = static_cast<int>(k % 3); cfg.cpp = r.chance(25); cfg.batch = r.chance(25); cfg.selfSigned = r.chance(20); cfg.cred = r.chance(30); cfg.user = "user@example.org"; cfg.pass = "secret";
    World w; w.scripts.clear(); w.sim.rng = r.next() | 1; if (r.chance(30)) w.sim.fdBase = r.range(1000, 3500);
    std::map<std::string, std::string> dns; std::string cls; bool unresolvable = false; std::vector<std::string> asked;
    w.sim.resolve = [&](const std::string &n, std::string &ip) { asked.push_back(n); auto i = dns.find(n); if (unresolvable || i == dns.end()) return false; ip = i->second; return true; };
    cfg.host = genHost(r, cls); cfg.port = genPort(r); cfg.timeout = static_cast<unsigned>(r.chance(85) ? r.range(1, 12) : r.chance(50) ? r.range(13, 700) : r.range(1000, 1000000));
    auto cl = makeClient(cfg); MsgSpec m = genMsg(r); std::string hist; int sends = r.range(1, 4); size_t sessions = 0; bool connected = false;
    for (int i = 0; i < sends; ++i) {
        if (i) { // the settings or the name service change between the sends
            int x = r.range(0, 5); if (connected && x <= 2) x = 4;   /* an open session stays where it is */
            if (x == 0 || x == 2) { cfg.host = genHost(r, cls); cl->setServer(cfg.host); hist += "server " + cfg.host.substr(0, 40) + "; "; }
            if (x == 1 || x == 2) { cfg.port = genPort(r); cl->setPort(cfg.port); hist += "port " + std::to_string(cfg.port) + "; "; }
            if (x == 3) { cfg.timeout = static_cast<unsigned>(r.range(1, 12)); cl->setTimeout(cfg.timeout); hist += "timeout " + std::to_string(cfg.timeout) + "; "; }
            if (r.chance(30) && !isIp(cfg.host)) hist += "address of the name changes; ";
        }
        std::string ip = isIp(cfg.host) ? cfg.host : genIp(r); if (!isIp(cfg.host)) dns[cfg.host] = ip; if (r.chance(20)) dns.erase(cfg.host + "."), dns["localhost"] = cfg.host == "localhost" ? ip : "127.0.0.1";
        w.sim.moreIps.clear(); if (r.chance(25)) for (int q = r.range(1, 4); q > 0; --q) w.sim.moreIps.push_back(genIp(r));
        auto isAddr = [&](const std::string &x) { if (x == ip) return true; if (!isIp(cfg.host)) for (auto &q : w.sim.moreIps) if (q == x) return true; return false; };
        // what happens to the connection
        Want t; ConnectPlan p; w.sim.faults.clear(); unresolvable = false; int64_t T = static_cast<int64_t>(cfg.timeout) * SEC; int y = connected ? 0 : r.range(0, 13);
        auto fault = [&](Op op, int occurrence, int e) { w.sim.faults.push_back({op, static_cast<int>(w.sim.opCount[static_cast<int>(op)]) + occurrence, Fault::Errno, e}); };
        t.maxT = SEC;
        switch (y) {
            case 0: case 1: t.ok = true; t.what = "connection at once"; break;
            case 2: { int64_t room = std::min<int64_t>(T - SEC, 900 * SEC); t.ok = true; p.mode = ConnectPlan::OkDelayed; p.delay = room > 0 ? 1 + static_cast<int64_t>(r.below(static_cast<uint64_t>(room))) : 1000; if (r.chance(30) && room > 0) p.delay = room; if (p.delay >= T) p.delay = T / 2; t.what = "connection after " + std::to_string(p.delay / 1000) + " ms"; break; }
            case 3: p.mode = ConnectPlan::Err; { static const std::vector<int> E = {ECONNREFUSED, ENETUNREACH, EHOSTUNREACH, EACCES, EADDRNOTAVAIL, EPERM}; p.err = r.pick(E); } t.codes = {-2, -10}; t.what = "connect failing with errno " + std::to_string(p.err); break;
            case 4: p.mode = ConnectPlan::ErrDelayed; { static const std::vector<int> E = {ECONNREFUSED, ENETUNREACH, EHOSTUNREACH, ECONNRESET, ETIMEDOUT}; p.err = r.pick(E); } p.delay = std::min<int64_t>(T - SEC, 800 * SEC) > 0 ? static_cast<int64_t>(r.below(static_cast<uint64_t>(std::min<int64_t>(T - SEC, 800 * SEC)))) : 1000; t.codes = {-2, -10}; if (p.err == ETIMEDOUT) t.codes.insert(-3); t.maxT = p.delay + SEC; t.what = "connect failing later with errno " + std::to_string(p.err); break;
            case 5: case 6: p.mode = r.chance(60) ? ConnectPlan::Never : ConnectPlan::OkDelayed; p.delay = T + 2 * SEC + static_cast<int64_t>(r.below(20 * SEC)); t.codes = {-3}; t.maxT = T + SEC; t.minT = T - SEC; t.what = "no answer to the connection"; break;
            case 7: if (isIp(cfg.host)) { t.ok = true; t.what = "connection at once"; break; } if (r.chance(50)) unresolvable = true; else dns.erase(cfg.host); t.codes = {-6}; t.reach = false; t.what = "name not known"; break;
            case 8: fault(Op::Socket, 0, r.chance(50) ? EMFILE : ENOBUFS); t.codes = {-1}; t.reach = false; t.what = "socket failing"; break;
            case 9: fault(Op::FcntlGet, r.range(0, 1), EIO); t.codes = {-7}; t.what = "reading the socket flags failing"; break;
            case 10: fault(Op::FcntlSet, r.range(0, 1), EIO); t.codes = {-8}; t.what = "setting the socket flags failing"; break;
            case 11: p.mode = ConnectPlan::OkDelayed; p.delay = std::min<int64_t>(T / 2, 1000); fault(Op::GetSockOpt, 0, EIO); t.codes = {-9}; t.what = "getsockopt failing"; break;
            case 12: fault(Op::SetSockOpt, r.range(0, 1), EIO); t.codes = {-9}; t.what = "setsockopt failing"; break;
            default: fault(Op::Resolve, 0, EIO); t.codes = {-6}; t.reach = false; t.what = "resolver failing"; break;
        }
        Script sc = genScript(r, cfg); sc.delivery = Delivery();
        while (w.scripts.size() <= w.peers.size()) w.scripts.push_back(sc);
        w.plans[w.connectCount] = p; size_t conns0 = w.sim.conns.size(), peers0 = w.peers.size(), asked0 = asked.size(); uint64_t hits0 = w.sim.faultsHit; bool was = connected;
        uint64_t tx0 = 0; for (auto &x : w.sim.conns) tx0 += x->txTotal;
        SendRec s = doSend(w, *cl, m); int64_t took = s.t1 - s.t0; hist += t.what + " -> " + std::to_string(s.result) + "; ";
        uint64_t tx = 0; for (auto &x : w.sim.conns) tx += x->txTotal;
        bool nofault = !w.sim.faults.empty() && w.sim.faultsHit == hits0; if (nofault) { t.ok = true; c.count("faults not reached"); }
        std::string d = describe(w, cfg, w.scripts.back(), m, s.result, hist + "took " + std::to_string(took / 1000) + " ms; name " + esc(cfg.host, 60) + " has address " + ip + (w.sim.moreIps.empty() || isIp(cfg.host) ? "" : " and " + std::to_string(w.sim.moreIps.size()) + " more"));
        std::string kind = t.what.substr(0, t.what.find_first_of("0123456789"));
        size_t made = 0, wrong = 0; std::string where; for (size_t q = conns0; q < w.sim.conns.size(); ++q) if (w.sim.conns[q]->connectCalled) { ++made; if (!isAddr(w.sim.conns[q]->addr) || w.sim.conns[q]->port != static_cast<int>(cfg.port)) { ++wrong; where = w.sim.conns[q]->addr + ":" + std::to_string(w.sim.conns[q]->port); } }
        if (wrong) c.viol("connection to the wrong place", "to " + where + ", configured " + esc(cfg.host, 60) + ":" + std::to_string(cfg.port) + " (" + ip + ")\n" + d);
        if (made > 1) c.viol("more than one connection for a session", std::to_string(made) + "\n" + d);
        if (was && made) c.viol("new connection although the session is open", d);
        for (size_t q = asked0; q < asked.size(); ++q) if (asked[q] != cfg.host) c.viol("another name looked up", esc(asked[q], 80) + "\n" + d);
        if (!was) ++sessions;
        c.count("sends"); c.count("connections judged", made); c.count(t.what.substr(0, 14));
        if (t.ok) {
            if (!was && !made) c.viol("no connection made", d);
            bool certs = cfg.kind != PLAIN && cfg.host != w.host;   /* the server's certificate carries the standard name */
            if (!certs && s.result != 0) c.viol("send fails over a good connection", d);
            if (certs && s.result > -20 && s.result < 0) c.viol("connection failure reported for a good connection", d);
        } else {
            if (!t.codes.count(s.result)) c.viol("wrong code for " + kind, std::to_string(s.result) + "\n" + d);
            if (tx != tx0) c.viol("bytes sent although the connection failed: " + kind, d);
            if (took > t.maxT) c.viol("failure reported late: " + kind, d);
            if (t.minT >= 0 && took < t.minT) c.viol("connection given up early", d);
            if (w.sim.openFds()) c.viol("descriptor left by a failed connection: " + kind, d);
            if (t.reach && w.peers.size() > peers0) for (size_t q = peers0; q < w.peers.size(); ++q) if (!w.peers[q]->clearIn.empty() || !w.peers[q]->tlsIn.empty()) c.viol("bytes sent although the connection failed: " + kind, d);
            if (!t.reach && made) c.viol("connection made although " + kind, d);
        }
        for (auto &a : w.sim.alarms) c.viol("descriptor misuse: " + a.substr(0, 60), d);
        w.sim.alarms.clear();
        connected = cfg.batch && s.result == 0;
        c.distinct(cfg.show().substr(0, 12) + std::to_string(cfg.cpp) + cls + kind + std::to_string(s.result) + (was ? "reused" : "") + "p" + std::to_string(cfg.port / 4096) + "t" + std::to_string(std::min(cfg.timeout, 20u)) + "e" + std::to_string(p.err));
        if (k % 997 == 0 && i == sends - 1) c.sample(cfg.show().substr(0, 120) + ": " + hist.substr(0, 300));
    }
    cl.reset(); w.sim.pump(); if (w.sim.openFds()) c.viol("descriptor left", hist);
}
const PropDef theProp = {"C27", [](bool t) -> int64_t { return t ? 400000 : 20000; }, run,
    "Histories of one to four sends per client; before each the name, the port, the timeout or the address the name resolves to may change and the next connection is given an outcome: at once, after a delay inside or beyond the command timeout, refused or unreachable at once or later, never, name unknown, and every set-up call (socket, resolver, fcntl, getsockopt, setsockopt) failing. The connect() arguments, the names looked up, the code, the virtual time, the open descriptors and the bytes sent are compared with the configuration at the time of the call. Non-trivial: distinct (client, kind of name, outcome, result, port and timeout class).",
    {"ports 1 to 65535, timeouts of 1 s to 1000000 s; times are judged to within a second", "a name resolves to one to five IPv4 addresses, any of which may be taken", "the simulated resolver stands for getaddrinfo and gethostbyname"}};
