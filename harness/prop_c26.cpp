#include <cerrno>
#include "core.h"
using sim::Fault; using sim::Op;

static const Op OPS[] = {Op::Recv, Op::Send, Op::Poll, Op::Select, Op::Connect, Op::Socket, Op::GetSockOpt, Op::SetSockOpt, Op::FcntlGet, Op::FcntlSet, Op::Resolve, Op::Close};
static constexpr int NOPS = 12;
struct Scen { Cfg cfg; std::vector<Script> scripts; std::vector<MsgSpec> msgs; uint64_t rng; bool coalesce; sim::ConnectPlan plan; std::string name; };
struct Obs { std::vector<int> results; std::vector<std::string> sent, mails; std::string alarms, transcript; std::vector<SendRec> recs; uint64_t ops[static_cast<int>(Op::COUNT)] = {}; bool hit = false, afterTaken = false; size_t hitSend = 0; bool acceptedRead = false; std::string before, after; int sigpipes = 0; bool readAll = false; };

static Scen make(Ctx &c, int i, Rng &r) {
    Scen s; s.cfg.kind = i % 3; s.cfg.cpp = r.chance(25); s.cfg.timeout = static_cast<unsigned>(r.range(3, 8)); s.cfg.batch = i / 3 % 2; int cr = i / 6 % 4; s.cfg.cred = cr > 0; s.cfg.rec = cr; s.cfg.user = "user@example.org"; s.cfg.pass = "secret"; s.cfg.selfSigned = r.chance(20);
    int n = s.cfg.batch ? 2 : r.range(1, 2); for (int q = 0; q < n; ++q) { MsgSpec m = genMsg(r, i / 24 % 2 && q == 0 ? &c : nullptr); if (m.to.size() + m.cc.size() + m.bcc.size() > 4) { m.cc.clear(); m.bcc.resize(std::min<size_t>(m.bcc.size(), 1)); m.to.resize(std::min<size_t>(m.to.size(), 2)); } m.body = m.body.substr(0, 1500); s.msgs.push_back(m); }
    for (int q = 0; q < 4; ++q) { Script sc; sc.rng = r.next() | 1; sc.implicitTls = s.cfg.kind == FORCED; std::string am = cr == 2 ? "AUTH LOGIN" : cr == 3 ? "AUTH XOAUTH2" : "AUTH PLAIN LOGIN XOAUTH2"; sc.caps = {"8BITMIME"}; if (s.cfg.kind == OPP && !(i % 7 == 4)) sc.caps.push_back("STARTTLS"); else sc.caps.push_back(am); sc.capsTls = {am, "HELP"}; if (i % 5 == 3) { sc.delivery.mode = Delivery::Random; sc.delivery.maxGap = 400000; sc.delivery.budget = 900000; } if (i % 5 == 4) { sc.delivery.mode = Delivery::Lines; sc.delivery.cutCipher = true; } if (i % 11 == 10) sc.over[{r.range(ST_MAIL, ST_EOD), 0}] = Reply::Code(550); sc.tlsMax = r.chance(25) ? 0x0303 : 0; s.scripts.push_back(sc); }
    s.rng = r.next() | 1; s.coalesce = r.chance(70); if (i % 4 == 1) { s.plan.mode = sim::ConnectPlan::OkDelayed; s.plan.delay = r.range(1, 2500) * 1000; }
    s.name = s.cfg.show() + (s.plan.mode ? " delayed connect" : "") + " sends " + std::to_string(n); return s;
}
static std::string app(World &w) { // everything of the dialogue that reached the servers
    std::string s; for (auto &p : w.peers) { std::string cl = p->clearIn; if (p->tlsOn || p->hsDone) { size_t e = cl.find("STARTTLS\r\n"); cl = e == std::string::npos ? "" : cl.substr(0, e + 10); } s += "[" + cl + "|" + p->tlsIn + "]"; } return s;
}
static Obs execute(const Scen &s, const std::vector<Fault> &faults, int storm) {
    Obs o; World w; w.scripts = s.scripts; w.sim.rng = s.rng; w.sim.coalesce = s.coalesce; for (int q = 0; q < 6; ++q) w.plans[q] = s.plan; w.sim.faults = faults; w.sim.randomShort = storm & 1; w.sim.randomEintr = storm & 2; int sp = sim::tl_sigpipes; size_t cur = 0;
    w.sim.onFault = [&](const Fault &f) { if (o.hit || f.kind != Fault::Errno) { o.hit = true; return; } o.hit = true; o.hitSend = cur; w.sim.pump(); o.before = app(w);
        if (!w.peers.empty()) { size_t pi = w.peers.size() - 1; auto &p = *w.peers[pi]; int eod = 0; for (auto &e : p.ev) if (e.kind == Event::Reply_ && e.stage == ST_EOD && e.code == 250 && p.replyFullyRead(e, w.conn(pi))) ++eod; int need = 0; for (size_t q = 0; q < o.results.size(); ++q) if (o.results[q] == 0 && s.cfg.batch) ++need; o.acceptedRead = eod > need; } };
    { auto c = makeClient(s.cfg); for (auto &m : s.msgs) { o.recs.push_back(doSend(w, *c, m)); o.results.push_back(o.recs.back().result); if (o.hit && cur == o.hitSend && !o.afterTaken) { w.sim.pump(); o.after = app(w); o.afterTaken = true; } ++cur; } if (o.hit && !o.afterTaken) { w.sim.pump(); o.after = app(w); } }
    w.sim.pump(); for (int q = 0; q < static_cast<int>(Op::COUNT); ++q) o.ops[q] = w.sim.opCount[q];
    o.sent.push_back(app(w)); for (auto &p : w.peers) for (auto &d : p->mails) o.mails.push_back(d.from + "|" + d.data); for (auto &a : w.sim.alarms) o.alarms += a + ";"; o.transcript = w.transcript(); o.sigpipes = sim::tl_sigpipes - sp; return o;
}
static void benign(Ctx &c, const Scen &s, const Obs &ref, const std::vector<Fault> &f, int storm, const std::string &what) {
    Obs o = execute(s, f, storm); if (!f.empty() && !o.hit) { c.count("faults not reached"); return; }
    c.count("executions with " + what); std::string how = o.results != ref.results ? "result" : o.sent != ref.sent ? "wire content" : o.mails != ref.mails ? "delivered message" : !o.alarms.empty() ? "descriptor use" : "";
    if (!how.empty()) { std::string rs; for (int x : o.results) rs += std::to_string(x) + " "; rs += "instead of "; for (int x : ref.results) rs += std::to_string(x) + " "; size_t q = 0; while (q < o.sent[0].size() && q < ref.sent[0].size() && o.sent[0][q] == ref.sent[0][q]) ++q; size_t b = q > 40 ? q - 40 : 0; c.viol(how + " changed by " + what, s.name + (f.empty() ? "" : "\nfault at occurrence " + std::to_string(f[0].nth) + ", " + std::to_string(f.size()) + " times, arg " + std::to_string(f[0].arg)) + "\nresults " + rs + "\nwire ..." + esc(o.sent[0].substr(b, 160), 200) + "\nwithout ..." + esc(ref.sent[0].substr(b, 160), 200) + "\n" + o.alarms + "\n" + o.transcript.substr(0, 3000)); }
    std::string l = s.name.substr(0, 60) + what; for (auto &x : f) l += std::to_string(x.nth) + ","; c.distinct(l);
}
static void broken(Ctx &c, const Scen &s, const Obs &ref, const Fault &f) {
    std::string what = std::string(sim::opName(f.op)) + " failing"; Obs o = execute(s, {f}, 0); if (!o.hit) { c.count("faults not reached"); return; }
    c.count("executions with " + what);
    std::string d = s.name + "\noccurrence " + std::to_string(f.nth) + " fails with errno " + std::to_string(f.arg) + " in send " + std::to_string(o.hitSend) + "\n" + o.transcript.substr(0, 3500);
    if (o.sigpipes) c.viol("SIGPIPE after " + what, d);
    if (!o.alarms.empty()) c.viol("descriptor misuse after " + what, o.alarms + "\n" + d);
    c.distinct(s.name.substr(0, 60) + what + std::to_string(f.nth) + (o.hitSend < o.results.size() ? std::to_string(o.results[o.hitSend]) : ""));
    if (o.hitSend >= o.results.size()) { c.count("faults outside of a send"); return; }
    int r = o.results[o.hitSend];
    if (!documentedCode(r)) c.viol("undocumented result after " + what, std::to_string(r) + "\n" + d);
    if (f.op == Op::Close) { c.count("close failing"); return; }
    if (o.acceptedRead) { c.count("faults behind the acceptance"); return; }
    if (r == 0) c.viol("reported as sent although the call failed: " + what, d);
    if (o.after.size() < o.before.size()) return;
    // nothing more of the dialogue; a closing QUIT is no part of the message
    std::string more; size_t q = 0; while (q < o.before.size() && o.before[q] == o.after[q]) ++q; std::string tail = o.after.substr(q); for (char ch : tail) if (ch != ']' && ch != '[' && ch != '|') more += ch;
    std::string rest = o.before.substr(q); for (char ch : rest) if (ch != ']' && ch != '[' && ch != '|') { more.clear(); break; }
    if (!more.empty() && upperStr(more).find("QUIT\r\n") != 0) c.viol("dialogue goes on after " + what, esc(more, 200) + "\n" + d);
    (void)ref;
}
static constexpr int SCEN_Q = 60, SCEN_T = 480;
static void run(Ctx &c, int64_t k) {
    int nsc = c.thorough() ? SCEN_T : SCEN_Q;
    if (k < nsc * NOPS) { // every occurrence of one operation in one scenario
        int si = static_cast<int>(k / NOPS); Op op = OPS[k % NOPS]; Rng r(hash64("C26 scenario " + std::to_string(c.seed) + "/" + std::to_string(si))); Scen s = make(c, si, r); Obs ref = execute(s, {}, 0);
        uint64_t n = ref.ops[static_cast<int>(op)]; if (!n) return;
        if (!ref.alarms.empty()) c.viol("descriptor misuse without any fault", ref.alarms);
        static const std::vector<int> SE = {EPIPE, ECONNRESET, ENOBUFS, EIO, ETIMEDOUT, EHOSTUNREACH, EBADF}, RE = {ECONNRESET, EIO, ETIMEDOUT, EBADF, ENOMEM, EHOSTUNREACH}, PE = {EINVAL, ENOMEM, EBADF, EIO};
        // long sessions read byte by byte: every occurrence of the interesting kinds, a sample of the rest
        uint64_t stride = 1; if (!c.thorough() && n > 260) stride = n / 260 + 1;
        for (uint64_t i = c.rng.below(stride); i < n; i += stride) {
            int nth = static_cast<int>(i);
            if (op == Op::Recv || op == Op::Send || op == Op::Poll || op == Op::Select) { std::vector<Fault> v; int m = c.rng.chance(60) ? 1 : c.rng.range(2, 12); for (int q = 0; q < m; ++q) v.push_back({op, nth + q, Fault::Eintr, op == Op::Poll && c.rng.chance(50) ? c.rng.range(1, 60) : 0}); benign(c, s, ref, v, 0, std::string(sim::opName(op)) + " interrupted" + (m > 1 ? " repeatedly" : "")); }
            if (op == Op::Connect) { benign(c, s, ref, {{op, nth, Fault::Eintr, 0}}, 0, "connect interrupted"); Scen t = s; t.plan.mode = sim::ConnectPlan::OkDelayed; t.plan.delay = c.rng.range(1, 1500) * 1000; benign(c, t, ref, {{op, nth, Fault::Eintr, 0}}, 0, "connect interrupted"); }
            if (op == Op::Send) { benign(c, s, ref, {{op, nth, Fault::Short, 1}}, 0, "send cut short"); benign(c, s, ref, {{op, nth, Fault::Short, c.rng.range(1, 400)}, {op, nth + 1, c.rng.chance(50) ? Fault::Eintr : Fault::Short, 3}}, 0, "send cut short"); }
            if (op == Op::Recv && c.rng.chance(30)) benign(c, s, ref, {{op, nth, Fault::Short, c.rng.range(1, 5)}}, 0, "recv cut short");
            broken(c, s, ref, {op, nth, Fault::Errno, op == Op::Send ? c.rng.pick(SE) : op == Op::Recv ? c.rng.pick(RE) : op == Op::Connect ? c.rng.pick(std::vector<int>{ECONNREFUSED, ENETUNREACH, EACCES, EADDRNOTAVAIL, ETIMEDOUT}) : op == Op::Socket ? c.rng.pick(std::vector<int>{EMFILE, ENFILE, EACCES, ENOMEM}) : c.rng.pick(PE)});
        }
        if (k % 29 == 0) c.sample(s.name + ": " + std::to_string(n) + " times " + sim::opName(op)); return;
    }
    // storms: everything cut and interrupted all the time
    int si = static_cast<int>(c.rng.below(100000)); Scen s = make(c, si, c.rng); Obs ref = execute(s, {}, 0); for (int q = 1; q <= 3; ++q) { Scen t = s; t.rng = c.rng.next() | 1; benign(c, t, ref, {}, q, q == 1 ? "all sends cut short" : q == 2 ? "calls interrupted at random" : "sends cut and calls interrupted at random"); }
    benign(c, s, ref, {{Op::Poll, -1, Fault::Eintr, c.rng.range(50, 900)}}, 0, "polls interrupted after a while, again and again");
    // interruptions do not put off the timeout of a connection which never comes about
    { Cfg cf = s.cfg; cf.timeout = static_cast<unsigned>(c.rng.range(1, 9)); World w; w.scripts = s.scripts; w.sim.rng = c.rng.next() | 1; sim::ConnectPlan pl; pl.mode = sim::ConnectPlan::Never; w.plans[0] = pl; int gap = c.rng.range(20, 950); w.sim.faults = {{Op::Poll, -1, Fault::Eintr, gap}, {Op::Select, -1, Fault::Eintr, gap}}; auto cl = makeClient(cf); SendRec rec = doSend(w, *cl, s.msgs[0]); int64_t took = rec.t1 - rec.t0;
      std::string d = cf.show() + "\ninterrupted every " + std::to_string(gap) + " ms, took " + std::to_string(took / 1000) + " ms, result " + std::to_string(rec.result);
      if (rec.result == 0 || !documentedCode(rec.result)) c.viol("connection attempt interrupted again and again: wrong result", d);
      if (took > (cf.timeout + 2) * sim::SEC) c.viol("interruptions put off the connection timeout", d);
      if (took < static_cast<int64_t>(cf.timeout) * sim::SEC - sim::SEC) c.viol("interruptions shorten the connection timeout", d);
      if (w.sim.openFds()) c.viol("descriptor left after an interrupted connection attempt", d);
      c.count("interrupted connection attempts"); c.distinct("never " + std::to_string(cf.kind) + std::to_string(cf.timeout) + "/" + std::to_string(gap / 100)); }
}
const PropDef theProp = {"C26", [](bool t) -> int64_t { return t ? SCEN_T * NOPS + 40000 : SCEN_Q * NOPS + 900; }, run,
    "Scenarios of all client classes (single and batch, mechanisms, attachments, fast and slow servers) are played once undisturbed, counting the calls of every operation; then again with one fault at every occurrence of every operation: interrupted once or repeatedly, cut short, or failing with an errno. Interrupted and short calls must give the same bytes, commands, result and log as the undisturbed run; failing calls a documented code, no further command for the message, and success only when the server's record says accepted. Storms of all of these at random on top. Non-trivial: executions in which the chosen fault was really delivered to the library; one per scenario (client x batch x mechanism x server pacing), operation and occurrence, for failing calls also per result",
    {"the fault model is: connect, recv, send, poll and select interrupted (EINTR) once or several times in a row at every occurrence, poll also after part of its time; sends and receives cut short; every call failing with an errno at every occurrence (at most 260 occurrences of one operation per scenario in the quick tier); storms of all of these at random",
     "EAGAIN on a blocking descriptor and errors of close() are not judged beyond crash, leak and code range",
     "a call failing behind the reply which accepted the message may give success or a documented code; a QUIT after a failure is tolerated"}};
