#include <fcntl.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <dirent.h>
#include "core.h"

static const int STAGES[] = {ST_GREET, ST_EHLO, ST_STARTTLS, ST_EHLO2, ST_AUTH, ST_AUTH_USER, ST_AUTH_PASS, ST_MAIL, ST_RCPT, ST_DATA, ST_EOD, ST_QUIT};
static int realFds() { int n = 0; DIR *d = opendir("/proc/self/fd"); if (!d) return -1; while (readdir(d)) ++n; closedir(d); return n; }

static Script failing(Rng &r, const Cfg &cfg, std::string &label) {
    Script sc = genScript(r, cfg); int x = r.range(0, 9);
    if (isdigit(static_cast<unsigned char>(cfg.host[0])) && r.chance(85)) sc.cert = r.pick(std::vector<int>{CK_IPSAN, CK_IPSAN, CK_MULTISAN, CK_WRONGIP});
    if (x <= 2) { label += "ok "; return sc; }
    if (x <= 5) {
        int st = STAGES[r.below(12)]; Reply q; int y = r.range(0, 5);
        if (y == 0) q = Reply::Silent(); else if (y == 1) q = Reply::Close(); else if (y == 2) q = Reply::Rst(); else if (y == 3) q = Reply::Raw("garbage\r\n"); else q = Reply::Code(anyCode(r, st));
        sc.over[{st, st == ST_RCPT ? r.range(0, 2) : 0}] = q; label += std::string(stageName(st)) + std::to_string(y) + " ";
    } else if (x == 6) { sc.cutAfter = r.range(0, cfg.kind == PLAIN ? 400 : 3500); sc.cutKind = r.chance(40) ? sim::End::Fin : r.chance(50) ? sim::End::Rst : sim::End::None; label += "cut" + std::to_string(sc.cutAfter) + " "; }
    else if (x == 7) { sc.hsMode = r.range(1, 7); sc.hsBytes = r.range(0, 2500); label += "hs" + std::to_string(sc.hsMode) + " "; }
    else if (x == 8) { sc.cert = r.range(0, CK_COUNT - 1); label += std::string(certName(sc.cert)) + " "; }
    else { sc.window = r.range(0, 1500); label += "window "; }
    return sc;
}

// a program without a standard input: descriptor 0 is free and goes to the first socket
struct NoStdin {
    bool on; explicit NoStdin(bool o) : on(o) { if (on) syscall(SYS_close, 0); }
    ~NoStdin() { if (on && syscall(SYS_fcntl, 0, F_GETFD) < 0) { int fd = open("/dev/null", O_RDONLY); if (fd > 0) { syscall(SYS_dup2, fd, 0); syscall(SYS_close, fd); } } }
};
static void history(Ctx &c, uint64_t seed, bool report, std::string *out) {
    Rng r(seed); bool low = r.chance(20); NoStdin noStdin(low); World w; std::string hist; w.sim.rng = r.next() | 1;
    if (low) { w.sim.noStdin = true; hist += "descriptor 0 free; "; if (report) c.count("histories with descriptor 0 free"); }
    else if (r.chance(60)) { w.sim.fdBase = r.range(1000, 3500); hist += "descriptors from " + std::to_string(w.sim.fdBase) + "; "; }
    Cfg cfg = genCfg(r); cfg.timeout = static_cast<unsigned>(r.range(1, 4));
    if (r.chance(12)) { cfg.host = "10.1.2.3"; w.host = w.ip = cfg.host; }
    if (r.chance(25)) for (int q = r.range(1, 3); q > 0; --q) w.sim.moreIps.push_back("10.2.0." + std::to_string(q));
    w.scripts.clear(); std::string lab;
    for (int i = 0; i < 8; ++i) w.scripts.push_back(failing(r, cfg, lab));
    for (int i = 0; i < 3; ++i) if (r.chance(15)) { sim::ConnectPlan p; int x = r.range(0, 2); p.mode = x == 0 ? sim::ConnectPlan::Never : x == 1 ? sim::ConnectPlan::Err : sim::ConnectPlan::ErrDelayed; p.err = ECONNREFUSED; p.delay = 100000; w.plans[r.range(0, 4)] = p; }
    if (r.chance(30)) for (int i = r.range(1, 3); i > 0; --i) { sim::Fault f; static const sim::Op O[] = {sim::Op::Socket, sim::Op::Connect, sim::Op::Select, sim::Op::Poll, sim::Op::GetSockOpt, sim::Op::SetSockOpt, sim::Op::FcntlGet, sim::Op::FcntlSet, sim::Op::Send, sim::Op::Recv, sim::Op::Resolve}; f.op = O[r.below(11)]; f.nth = r.range(0, 8); f.kind = sim::Fault::Errno; f.arg = r.chance(50) ? ENOBUFS : EINVAL; w.sim.faults.push_back(f); hist += std::string("fault ") + sim::opName(f.op) + "#" + std::to_string(f.nth) + "; "; }
    w.sim.randomShort = r.chance(20);
    MsgSpec m = genMsg(r, &c), m2 = genMsg(r);
    std::vector<std::unique_ptr<AnyClient>> v; v.push_back(makeClient(cfg)); size_t a = 0; int first = 0;
    int n = r.range(1, 6);
    for (int i = 0; i < n; ++i) {
        int x = r.range(0, 19);
        if (x < 12) {
            size_t before = w.sim.conns.size(); bool single = !v[a]->batch();
            SendRec s = doSend(w, *v[a], r.chance(50) ? m : m2); first = s.result; hist += "send" + std::to_string(a) + (single ? "" : "(batch)") + "=" + std::to_string(s.result) + "; ";
            if (report) {
                c.count("sends"); if (single) c.count("single-mode sends checked for open sockets");
                for (size_t q = before; single && q < w.sim.conns.size(); ++q) if (!w.sim.conns[q]->clientClosed) c.viol("socket still open after a single-mode send", describe(w, cfg, w.scripts[0], m, s.result, hist + lab));
                if (single && v.size() == 1 && w.sim.openFds()) c.viol("socket still open after a single-mode send", describe(w, cfg, w.scripts[0], m, s.result, hist + lab));
            }
        } else if (x == 12) { v[a]->setBatch(!v[a]->batch()); hist += "batch " + std::to_string(v[a]->batch()) + "; "; }
        else if (x == 13) { v.push_back(v[a]->copy()); hist += "copy; "; }
        else if (x == 14) { auto q = v[a]->move(); v[a] = std::move(q); hist += "move; "; }
        else if (x == 15) { if (v.size() > 1) { size_t b = r.below(v.size()); if (b != a || !r.chance(50)) v[b]->assign(*v[a]); hist += "assign " + std::to_string(b) + "; "; } else { v[a]->assign(*v[a]); hist += "self-assign; "; } }
        else if (x == 16) { if (v.size() > 1) { size_t b = (a + 1) % v.size(); v[b]->moveAssign(*v[a]); v.erase(v.begin() + static_cast<long>(a)); a = 0; hist += "move-assign; "; } }
        else if (x == 17) { if (v.size() > 1) { v.erase(v.begin() + static_cast<long>(a)); a = 0; hist += "destroy; "; } }
        else if (x == 18) { v[a]->setServer(w.host); v[a]->setPort(static_cast<unsigned>(r.range(1, 65535))); v[a]->setTimeout(static_cast<unsigned>(r.range(1, 4))); if (r.chance(50)) { v[a]->setCred("other@example.org", "pw2", r.range(0, 3)); } hist += "configure; "; }
        else a = r.below(v.size());
    }
    v.clear(); w.sim.pump();
    if (out) *out = hist + cfg.show() + " servers: " + lab;
    if (!report) return;
    c.count("clients destroyed");
    if (w.sim.openFds()) c.viol("socket still open after the client is gone", describe(w, cfg, w.scripts[0], m, first, hist + lab));
    for (auto &x : w.sim.alarms) if (x.compare(0, 7, "blocked") != 0) c.viol("descriptor misuse: " + x.substr(0, 60), describe(w, cfg, w.scripts[0], m, first, x + "; " + hist + lab));
    uint64_t h = 0; for (auto &p : w.peers) for (auto &e : p->ev) h = hash64(std::to_string(e.kind) + "." + std::to_string(e.stage) + "." + std::to_string(e.code), h + 3);
    c.distinct(hist + std::to_string(h)); c.count("connections", w.sim.conns.size());
}

static void run(Ctx &c, int64_t k) {
    uint64_t seed = c.rng.next(); std::string d; int f0 = realFds();
    history(c, seed, true, &d);
    int f1 = realFds(); if (f1 > f0) { history(c, seed, false, nullptr); int f2 = realFds(); if (f2 > f1) c.viol("descriptors other than sockets stay open", d); }
    long leak = leakPerRun([&]() { history(c, seed, false, nullptr); });
    c.count("histories repeated under the heap monitor");
    if (leak > 0) c.viol("memory is not given back", d + ": " + std::to_string(leak) + " bytes stay allocated per repetition");
    if (k % 97 == 0) c.sample(d);
}
const PropDef theProp = {"C16", [](bool t) -> int64_t { return t ? 150000 : 9000; }, run,
    "Random histories (send, configure, batch on and off, copy, move, assign, destroy) of the six client classes against servers that fail at any step (codes, silence, FIN, RST, cut streams, broken handshakes, refused certificates, closed windows, failed connections, failing socket calls), descriptor numbers often above 1023, sometimes 0 (no standard input). After every single-mode send none of its sockets may be open; after destruction none at all; every use of a descriptor that is not the client's, or no longer, is recorded (numbers are not used again); the whole history is repeated under a heap monitor and no repetition may leave memory behind. Non-trivial: distinct (history, trace).",
    {"memory of OpenSSL counts (its allocations go through the monitored heap), one-time initialisation does not"}};
