#include "hostile.h"

static void session(Ctx &c, Cfg cfg, const std::vector<Script> &scs, const MsgSpec &m, const MsgSpec &m2, bool report, int copyMode) {
    World w(scs[0]); w.scripts = scs;
    { Script good; good.implicitTls = cfg.kind == FORCED; good.caps = {"PIPELINING", cfg.kind == PLAIN ? "AUTH PLAIN LOGIN XOAUTH2" : "STARTTLS"}; for (int i = 0; i < 3; ++i) w.scripts.push_back(good); }
    auto cl = makeClient(cfg); std::string hist;
    for (size_t i = 0; i < scs.size(); ++i) {
        SendRec s = doSend(w, *cl, m); hist += std::to_string(s.result) + ";";
        if (report) {
            c.count("hostile sessions"); if (s.result == 0) c.count("... that ended with success"); c.count("server bytes read by the client", w.conn(w.peers.size() - 1).rxConsumed);
            if (!documentedCode(s.result) && !s.threw) c.viol("result code is not documented", describe(w, cfg, scs[i], m, s.result, hist));
            const SmtpPeer &p = *w.peers.back(); uint64_t h = 0; for (auto &e : p.ev) h = hash64(std::to_string(e.kind) + std::to_string(e.stage) + e.text, h + 7);
            c.distinct(std::to_string(h) + std::to_string(s.result) + std::to_string(cfg.kind) + (cfg.cpp ? "p" : "c"));
        }
        if (copyMode == 1) { auto n = cl->copy(); cl = std::move(n); } else if (copyMode == 2) { auto n = cl->move(); cl = std::move(n); }
        if (!cfg.batch || s.result != 0) continue;
        cl->setBatch(false);   // next message ends the session
        doSend(w, *cl, m2); cl->setBatch(true);
    }
    // still usable: a well-behaved server gets the next message
    while (w.connectCount < static_cast<int>(scs.size())) ++w.connectCount;
    if (cfg.batch) cl->setBatch(false), cfg.batch = false;
    Sent s = sendWalk(w, *cl, cfg, m2);
    if (s.peer >= 0 && !s.fresh) s = sendWalk(w, *cl, cfg, m2);
    if (report) {
        c.count("clients used again afterwards");
        if (s.rec.result != 0 || s.peer < 0 || w.peers[static_cast<size_t>(s.peer)]->mails.empty()) c.viol("client not usable after a hostile session", describe(w, cfg, scs[0], m2, s.rec.result, "first results " + hist));
    }
}

static void run(Ctx &c, int64_t k) {
    Rng &r = c.rng; Cfg cfg = genCfg(r); cfg.kind = static_cast<int>(k % 3); cfg.timeout = static_cast<unsigned>(r.range(1, 4)); cfg.selfSigned = r.chance(20);
    if (cfg.kind == OPP && r.chance(20)) cfg.cred = false;
    Bytes b; b.r = &r; std::vector<Script> scs; int n = r.chance(70) ? 1 : 2; bool huge = k % 6 == 0;
    for (int i = 0; i < n; ++i) scs.push_back(hostileScript(b, cfg, huge));
    MsgSpec m = genMsg(r), m2 = genMsg(r); int copyMode = r.chance(15) ? r.range(1, 2) : 0;
    session(c, cfg, scs, m, m2, true, copyMode);
    if (k % 7 == 3) {
        c.count("histories repeated for the leak monitor");
        long leak = leakPerRun([&]() { session(c, cfg, scs, m, m2, false, copyMode); });
        if (leak > 0) c.viol("memory is not given back after hostile replies", cfg.show() + " " + scs[0].show() + ": " + std::to_string(leak) + " bytes per repetition");
    }
    c.sample(cfg.show() + " " + scs[0].show().substr(0, 500));
}
// one fuzzer input: the same sessions, with the choices taken from the input
void fuzzC14(Ctx &c, const uint8_t *d, size_t n) {
    Bytes b; b.d = d; b.n = n; Rng r(1); Cfg cfg; cfg.kind = static_cast<int>(b.u(3)); cfg.cpp = b.u(2); cfg.batch = b.u(4) == 3; cfg.timeout = 1 + static_cast<unsigned>(b.u(3));
    if (b.u(3)) { cfg.cred = true; cfg.user = "user@example.org"; cfg.pass = "secret-of-user"; cfg.rec = static_cast<int>(b.u(4)); }
    std::vector<Script> scs; int k = b.u(4) == 3 ? 2 : 1; for (int i = 0; i < k; ++i) scs.push_back(hostileScript(b, cfg, b.u(8) == 7));
    MsgSpec m; m.from = {"a@example.org", "A"}; m.to = {{"b@example.org", ""}, {"c@example.org", "C"}}; m.subject = "s"; m.body = "body\r\n.\r\n";
    session(c, cfg, scs, m, m, true, static_cast<int>(b.u(8)));
}
const PropDef theProp = {"C14", [](bool t) -> int64_t { return t ? 120000 : 9000; }, run,
    "Servers that answer any step with hostile bytes (overlong, binary, NUL, lone CR or LF, malformed codes, multi-line and capability replies, up to 256 KiB), in any segmentation, followed by silence, close or reset, also as corrupted handshakes, raw bytes inside TLS and bytes behind the STARTTLS reply; the six client classes under AddressSanitizer and UBSan, histories repeated under the heap-growth monitor, exceptions caught, and a well-behaved session afterwards that has to succeed. The thorough tier adds coverage-guided fuzzing (libFuzzer) of the same driver. Non-trivial: distinct (trace, result, class).",
    {"OpenSSL itself is not instrumented"}};
