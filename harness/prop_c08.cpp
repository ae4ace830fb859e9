#include "core.h"

static const int STAGES[] = {ST_GREET, ST_EHLO, ST_STARTTLS, ST_EHLO2, ST_AUTH, ST_AUTH_USER, ST_AUTH_PASS, ST_MAIL, ST_RCPT, ST_DATA, ST_EOD, ST_QUIT};
struct Outcome { int result = 0; std::vector<std::string> cmds; std::vector<std::string> mails; std::string lock; int conns = 0; std::string desc; };

static Outcome play(const Cfg &cfg, const Script &sc, const std::vector<MsgSpec> &ms, bool coalesce, uint64_t seed) {
    Outcome o; World w(sc); w.sim.coalesce = coalesce; w.sim.rng = seed | 1;
    auto cl = makeClient(cfg);
    for (auto &m : ms) { SendRec s = doSend(w, *cl, m); o.cmds.push_back("result " + std::to_string(s.result)); o.result = s.result; for (auto &p : w.peers) for (auto &c : p->commands()) o.cmds.push_back(c); }
    cl.reset(); w.sim.pump();
    for (auto &p : w.peers) {
        for (auto &c : p->commands()) o.cmds.push_back(c);
        for (auto &d : p->mails) { std::string t = d.from + "|"; for (auto &x : d.rcpts) t += x + ","; o.mails.push_back(t + "|" + d.data); }
        for (auto &x : p->proto) if (x.find("sent before") != std::string::npos || x.find("without waiting") != std::string::npos) o.lock = x;
    }
    o.conns = static_cast<int>(w.peers.size());
    o.desc = describe(w, cfg, sc, ms[0], o.result);
    return o;
}
// the same reply codes in another layout
static Reply layout(Rng &r, int code, int maxLen) {
    int x = r.range(0, 9);
    if (x == 0) { Reply q = Reply::Raw(std::to_string(code) + "\r\n"); q.malformed = false; q.code = code; return q; }
    if (x <= 2) return Reply::Code(code, std::string(static_cast<size_t>(r.range(0, 70)), 't'));
    if (x == 3) { static const int L[] = {500, 505, 506, 507, 508, 509, 510, 511, 512, 513, 514, 1010, 1015, 1016, 1017, 1018, 1019, 1020, 1021, 1022, 1023, 1024, 1025, 1026, 2040, 2041, 2042, 2043, 2044, 2048, 3072, 4090, 4096, 8192, 16384, 30000}; int n = std::min(L[r.below(36)] - r.range(0, 2), maxLen); return Reply::Code(code, std::string(static_cast<size_t>(std::max(n, 1)), 'l')); }
    std::vector<std::string> v; int n = x <= 6 ? r.range(2, 4) : r.range(2, 60); int used = 0;
    for (int i = 0; i < n && used < maxLen; ++i) {
        static const std::vector<std::string> T = {"", "text", "250 looks like a reply", "550-refused", "-", " ", "354 go", "a line of ordinary length for a reply", "2.1.0 OK", "220 x"};
        std::string t = r.chance(80) ? r.pick(T) : std::string(static_cast<size_t>(r.range(1, std::min(900, maxLen))), 'm'); used += static_cast<int>(t.size()) + 6; v.push_back(t);
    }
    return Reply::Multi(code, v);
}
static void relayoutEhlo(Rng &r, std::vector<std::string> &caps, int big) {
    // filler lines which mean nothing, the meaningful ones keep their order
    int n = r.range(0, big ? 200 : 6), used = 0;
    for (int i = 0; i < n && used < (big ? 29000 : 4000); ++i) { std::string f = "X-F" + std::to_string(i) + " " + std::string(static_cast<size_t>(r.range(0, big ? 300 : 40)), 'f'); used += static_cast<int>(f.size()) + 6; caps.insert(caps.begin() + static_cast<long>(r.below(caps.size() + 1)), f); }
}
static const int SPLITS = 330;

static void run(Ctx &c, int64_t k) {
    Rng &r = c.rng; Cfg cfg; Script sc; std::vector<MsgSpec> ms; int variants;
    bool sweep = k < 3 * SPLITS;
    if (sweep) {
        cfg.kind = static_cast<int>(k / SPLITS); cfg.cred = true; cfg.cpp = k % 2; cfg.timeout = 5;
        sc.implicitTls = cfg.kind == FORCED;
        static const char *A[] = {"AUTH LOGIN", "AUTH PLAIN LOGIN", "AUTH XOAUTH2"};
        sc.caps = {"PIPELINING", "SIZE 35882577", "8BITMIME"}; if (cfg.kind == OPP) sc.caps.push_back("STARTTLS"); if (cfg.kind == PLAIN) sc.caps.push_back(A[k % 3]); sc.caps.push_back("HELP");
        sc.capsTls = {"PIPELINING", A[k % 3], "8BITMIME", "SIZE 35882577", "HELP"};
        MsgSpec m; m.from = {"from@example.org", "From"}; m.to = {{"a@example.org", "A"}}; m.bcc = {{"d@example.org", ""}}; m.subject = "subject"; m.body = "body"; ms.push_back(m);
        if (k % 4 == 1) sc.over[{ST_RCPT, 1}] = Reply::Multi(550, {"no such user here", "try again later"});
        if (k % 4 == 2) sc.over[{ST_EOD, 0}] = Reply::Multi(250, {"accepted", "queued as 8472398472"});
        if (k % 4 == 3) sc.over[{ST_GREET, 0}] = Reply::Multi(220, {"mail.example.org", "ESMTP", "ready"});
        variants = 2;
    } else {
        cfg = genCfg(r); sc = genScript(r, cfg); sc.delivery = Delivery();
        cfg.timeout = static_cast<unsigned>(r.range(3, 8));
        int n = cfg.batch ? r.range(1, 2) : 1; for (int i = 0; i < n; ++i) ms.push_back(genMsg(r));
        if (r.chance(50)) for (int i = r.range(1, 2); i > 0; --i) {
            int st = STAGES[r.below(12)]; static const int C[] = {211, 250, 251, 354, 421, 450, 501, 502, 535, 550, 552, 554};
            int code = C[r.below(12)]; if (st == ST_QUIT) continue;
            sc.over[{st, st == ST_RCPT || st == ST_MAIL ? r.range(0, 3) : 0}] = r.chance(85) ? Reply::Code(code) : Reply::Raw(r.chance(50) ? "junk without a code\r\n" : "25\r\n");
        }
        variants = 4;
    }
    Outcome ref = play(cfg, sc, ms, true, 1);
    auto lock = [&](const Outcome &o, const std::string &d) { if (!o.lock.empty()) c.viol("not in lock-step: " + o.lock.substr(o.lock.find("sent") == std::string::npos ? 0 : o.lock.find("sent"), 60), d + "\n" + o.desc); };
    lock(ref, "reference delivery");
    for (int v = 0; v < variants; ++v) {
        Script s2 = sc; std::string label;
        if (sweep) {
            s2.delivery.mode = Delivery::SplitAt; s2.delivery.at = static_cast<int>(k % SPLITS) + 1;
            if (v == 1) { s2.delivery.maxGap = 3 * sim::SEC; s2.delivery.budget = 3 * sim::SEC; }
            s2.rng = r.next() | 1; label = "every reply split after byte " + std::to_string(s2.delivery.at) + (v ? " with a gap" : "");
        } else {
            if (r.chance(70)) {     // other layout
                int big = r.chance(12);
                for (int st : STAGES) {
                    if (st == ST_EHLO || st == ST_EHLO2 || (st == ST_AUTH && r.chance(100))) continue;
                    for (int occ = 0; occ < (st == ST_RCPT ? 8 : 3); ++occ) {
                        if (r.chance(50)) continue;
                        auto it = sc.over.find({st, occ});
                        if (it != sc.over.end() && it->second.malformed) continue;
                        int code = it != sc.over.end() ? it->second.code : expectedCode(st);
                        s2.over[{st, occ}] = layout(r, code, big ? 32000 : 3000);
                    }
                }
                relayoutEhlo(r, s2.caps, big); relayoutEhlo(r, s2.capsTls, big);
                label += "layout ";
            }
            int d = r.range(0, 4); static const Delivery::Mode M[] = {Delivery::Whole, Delivery::Bytes, Delivery::Random, Delivery::Lines, Delivery::SplitAt};
            s2.delivery.mode = M[d]; s2.delivery.at = r.range(1, r.chance(30) ? 2050 : 60);
            if (r.chance(60)) { s2.delivery.budget = static_cast<int64_t>(cfg.timeout) * sim::SEC - 3 * sim::SEC / 2; s2.delivery.maxGap = r.chance(50) ? s2.delivery.budget : 300000; }
            s2.delivery.cutCipher = r.chance(40); s2.rng = r.next() | 1;
            if (r.chance(30)) for (int st : STAGES) if (r.chance(20)) { auto it = s2.over.find({st, 0}); if (it != s2.over.end()) it->second.delay = r.range(0, 900) * 1000; }
            for (auto &o : s2.over) if (o.second.delay) s2.delivery.budget = std::min<int64_t>(s2.delivery.budget, static_cast<int64_t>(cfg.timeout) * sim::SEC - 5 * sim::SEC / 2);
            label += "delivery";
        }
        Outcome o = play(cfg, s2, ms, r.chance(60), r.next());
        c.count("sessions replayed in another delivery"); c.count("commands compared", o.cmds.size());
        c.distinct(s2.show() + std::to_string(k) + std::to_string(v));
        lock(o, label);
        if (o.cmds != ref.cmds || o.mails != ref.mails || o.conns != ref.conns) {
            std::string d; size_t i = 0; while (i < o.cmds.size() && i < ref.cmds.size() && o.cmds[i] == ref.cmds[i]) ++i;
            d = "first difference: \"" + esc(i < ref.cmds.size() ? ref.cmds[i] : "(end)", 100) + "\" in the reference, \"" + esc(i < o.cmds.size() ? o.cmds[i] : "(end)", 100) + "\" with " + label;
            c.viol(o.result != ref.result ? "result depends on the delivery" : o.cmds != ref.cmds ? "commands depend on the delivery" : "delivered message depends on the delivery", d + "\nREFERENCE " + ref.desc + "\nVARIANT " + o.desc);
        }
    }
    if (k % 101 == 0) c.sample(cfg.show() + " " + sc.show() + " -> " + std::to_string(ref.result) + ", " + std::to_string(ref.cmds.size()) + " observations equal in " + std::to_string(variants) + " deliveries");
}
const PropDef theProp = {"C08", [](bool t) -> int64_t { return 3 * SPLITS + (t ? 100000 : 2200); }, run,
    "Differential: each session is played once with every reply in one segment and one line, then again with other deliveries of the same reply sequence: every reply split at byte 1..330 (with and without a gap), byte by byte, random, line by line, gaps and delays up to the timeout minus 1.5 s, cut TLS records, one recv per segment, other layouts (no text, several lines, lines around 512/1024/2048/4096 bytes, replies up to 32 KiB, filler capabilities). Results, commands, accepted messages and number of connections must be equal, and no command may be sent while reply bytes are outstanding. Non-trivial: distinct (script, delivery) pairs compared.",
    {"the total spread of one reply stays 1.5 s below the command timeout", "replies over 32 KiB are not generated"}};
