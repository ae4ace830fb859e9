#include <atomic>
#include <thread>
#include "core.h"
#include "credential.h"
#include "cpp/credential.hpp"
#include "cpp/htmlmessage.hpp"
#include "cpp/plaintextmessage.hpp"
#include "cpp/smtpclient.hpp"
#include "htmlmessage.h"
#include "plaintextmessage.h"
#include "smtpclient.h"
namespace J = jed_utils; namespace P = jed_utils::cpp;

struct Action { int what; size_t msg; bool viaCpp; };
struct Plan { Cfg cfg; std::string ip; std::vector<Script> scripts; std::vector<Action> acts; std::vector<MsgSpec> own; std::map<int, sim::ConnectPlan> plans; uint64_t rng; bool shortSends; };
struct Shared { std::vector<std::unique_ptr<J::Message>> c; std::vector<std::unique_ptr<P::Message>> p; std::unique_ptr<J::Credential> cc; std::unique_ptr<P::Credential> pc; };
struct Seen { std::vector<int> results; std::vector<std::string> logs, where, cmds; std::string mails, other, alarms, transcript; int fds = 0; uint64_t ops = 0; };
static bool same(const Seen &a, const Seen &b, std::string &how) {
    if (a.results != b.results) how = "result"; else if (a.where != b.where) how = "server address"; else if (a.cmds != b.cmds) how = "commands"; else if (a.mails != b.mails) how = "delivered message"; else if (a.logs != b.logs) how = "communication log"; else if (a.other != b.other) how = "settings or error text"; else if (a.alarms != b.alarms) how = "descriptor use"; else if (a.fds != b.fds) how = "open descriptors"; else return true;
    return false;
}
static int sendConv(AnyClient &o, const P::Message &m) { if (auto *h = dynamic_cast<const P::HTMLMessage *>(&m)) { J::HTMLMessage j = static_cast<J::HTMLMessage>(*h); return o.sendMsg(j); } J::PlaintextMessage j = static_cast<J::PlaintextMessage>(dynamic_cast<const P::PlaintextMessage &>(m)); return o.sendMsg(j); }
static Seen execute(const Plan &p, const Shared &sh, int jitter) {
    Seen s; World w; w.host = p.cfg.host; w.ip = p.ip; w.scripts = p.scripts; for (auto &q : p.plans) w.plans[q.first] = q.second; w.sim.rng = p.rng; w.sim.randomShort = p.shortSends; std::string ip = p.ip; w.sim.resolve = [ip](const std::string &, std::string &out) { out = ip; return true; };
    if (jitter && !p.shortSends) w.sim.jitter = jitter;
    { Cfg f = p.cfg; f.cred = false; auto o = makeClient(f); if (p.cfg.cred) o->setCredObj(*sh.cc, *sh.pc);
      for (auto &a : p.acts) {
        if (a.what == 0) { s.results.push_back(a.viaCpp ? sendConv(*o, *sh.p[a.msg]) : o->sendMsg(*sh.c[a.msg])); s.logs.push_back(o->log()); }
        else if (a.what == 1) { for (int q : {-1, -55, -81, 530, 7}) { std::unique_ptr<char[]> e(J::SmtpClient::getErrorMessage(q)); s.other += e.get(); char b[20]; J::SmtpClient::getErrorMessage_r(q, b, sizeof b); s.other += b; s.other += P::SmtpClient::getErrorMessage(q); } }
        else if (a.what == 2) { auto n = o->copy(); o = std::move(n); s.other += o->server() + std::to_string(o->port()) + o->user() + o->pass(); }
        else if (a.what == 4) { auto n = o->move(); o = std::move(n); s.other += o->server(); }
        else if (a.what == 5) { SendRec x = doSend(w, *o, p.own[a.msg % p.own.size()]); s.results.push_back(x.result); s.logs.push_back(x.log); }
        else { auto n = makeClient(f); n->assign(*o); s.other += n->server() + n->user() + std::to_string(n->rec()); if (p.cfg.cred) n->setCredObj(*sh.cc, *sh.pc); o = std::move(n); }
        w.sim.pump();
      } }
    w.sim.pump(); s.fds = w.sim.openFds(); s.ops = w.sim.ops; s.transcript = w.transcript();
    for (auto &c : w.sim.conns) s.where.push_back(c->addr + ":" + std::to_string(c->port)); for (auto &n : w.sim.resolved) s.where.push_back(n);
    for (auto &x : w.peers) { for (auto &q : x->commands()) s.cmds.push_back(q); for (auto &d : x->mails) { s.mails += d.from + "|"; for (auto &q : d.rcpts) s.mails += q + ","; s.mails += d.data + "\n--\n"; } for (auto &q : x->proto) s.other += q; }
    for (auto &a : w.sim.alarms) s.alarms += a + ";";
    return s;
}
static void run(Ctx &c, int64_t k) {
    Rng &r = c.rng; Shared sh; bool first = k < 16; int n = first ? 6 : r.range(2, 6), uniform = first || r.chance(40) ? static_cast<int>(k % 4) : 3;
    int nm = r.range(1, 3); std::vector<std::string> paths;
    for (int i = 0; i < nm; ++i) { MsgSpec m = genMsg(r, &c, r.chance(10)); if (m.to.empty()) m.to.push_back({"a@b.com", "n"}); sh.c.push_back(m.makeC());
        std::vector<P::MessageAddress> t, cc, bc; for (auto &a : m.to) t.emplace_back(a.mail, a.name); for (auto &a : m.cc) cc.emplace_back(a.mail, a.name); for (auto &a : m.bcc) bc.emplace_back(a.mail, a.name); std::vector<P::Attachment> at; for (auto &a : m.atts) at.emplace_back(a.path, a.name, a.cid); P::MessageAddress f(m.from.mail, m.from.name);
        if (m.html) sh.p.push_back(std::make_unique<P::HTMLMessage>(f, t, m.subject, m.body, cc, bc, at)); else sh.p.push_back(std::make_unique<P::PlaintextMessage>(f, t, m.subject, m.body, cc, bc, at)); }
    Cfg cr = genCfg(r); std::string u = cr.user.empty() ? "user" : cr.user, pw = cr.pass.empty() ? "pw" : cr.pass; int rec = r.range(0, 3);
    sh.cc = std::make_unique<J::Credential>(u.c_str(), pw.c_str(), static_cast<J::RecommendedAuthenticationMethod>(rec)); sh.pc = std::make_unique<P::Credential>(u, pw, static_cast<J::RecommendedAuthenticationMethod>(rec));
    std::vector<Plan> plans;
    for (int i = 0; i < n; ++i) {
        Plan p; p.cfg = genCfg(r); p.cfg.kind = uniform < 3 ? uniform : i % 3; p.cfg.cpp = first ? i % 2 : r.chance(50); p.cfg.timeout = static_cast<unsigned>(r.range(20, 60)); p.cfg.batch = r.chance(40); p.cfg.cred = r.chance(70); p.cfg.rec = rec; p.cfg.port = static_cast<unsigned>(r.range(1, 65535)); p.ip = "10." + std::to_string(i + 1) + "." + std::to_string(r.range(0, 255)) + ".9"; if (p.cfg.kind == PLAIN) p.cfg.host = "server" + std::to_string(i) + "." + uniqueToken(r, 6) + ".example.org";
        p.rng = r.next() | 1; p.shortSends = r.chance(15);
        for (int q = 0; q < 3; ++q) { Script sc = genScript(r, p.cfg); sc.delivery.maxGap = 0; if (r.chance(25)) { int st = r.range(ST_GREET, ST_EOD); Reply y = r.chance(50) ? Reply::Code(anyCode(r, st)) : r.chance(50) ? Reply::Close() : Reply::Silent(); sc.over[{st, 0}] = y; } if (r.chance(10)) sc.cert = r.range(0, CK_COUNT - 1); p.scripts.push_back(sc); }
        int m = r.range(1, 4); for (int q = 0; q < m; ++q) p.acts.push_back({q == 0 ? 0 : r.chance(70) ? 0 : r.range(1, 5), r.below(static_cast<uint64_t>(nm)), r.chance(40)}); if (r.chance(30)) p.acts.insert(p.acts.begin(), {1, 0, false});
        for (int q = r.range(1, 2); q > 0; --q) p.own.push_back(genMsg(r, &c, r.chance(5)));
        if (r.chance(10)) { sim::ConnectPlan q; q.mode = r.chance(50) ? sim::ConnectPlan::Err : sim::ConnectPlan::ErrDelayed; q.err = ECONNREFUSED; q.delay = 1000; p.plans[r.range(0, 1)] = q; }
        plans.push_back(p);
    }
    // together first (whatever is set up once per process is set up by several threads at a time), then each one alone
    int rounds = first ? 1 : c.thorough() ? 4 : 2; std::vector<std::vector<Seen>> all;
    for (int q = 0; q < rounds; ++q) {
        std::vector<Seen> got(plans.size()); std::atomic<int> ready{0}; std::vector<std::thread> th; int jit = q % 2 ? r.range(1, 12) : 0; std::vector<std::string> threw(plans.size());
        for (size_t i = 0; i < plans.size(); ++i) th.emplace_back([&, i]() { ready.fetch_add(1); while (ready.load() < static_cast<int>(plans.size())) sched_yield(); try { got[i] = execute(plans[i], sh, jit); } catch (const std::exception &e) { threw[i] = e.what(); } });
        for (auto &t : th) t.join();
        for (auto &t : threw) if (!t.empty()) c.viol("a client used in its own thread throws", t);
        all.push_back(std::move(got)); c.count("concurrent rounds"); c.count("clients run concurrently", plans.size());
    }
    std::string label;
    for (size_t i = 0; i < plans.size(); ++i) {
        Seen alone = execute(plans[i], sh, 0); c.count("sends run alone", alone.results.size());
        for (auto &x : alone.results) label += std::to_string(x) + ","; label += plans[i].cfg.cpp ? "p" : "c"; label += std::to_string(plans[i].cfg.kind) + " ";
        for (auto &w : alone.where) if (isdigit(static_cast<unsigned char>(w[0])) && w != plans[i].ip + ":" + std::to_string(plans[i].cfg.port)) c.viol("client does not connect to its own server", w);
        for (auto &g : all) { std::string how; const Seen &x = g[i]; c.count("executions compared"); c.count("socket operations observed in threads", x.ops);
            if (!same(x, alone, how)) c.viol("differs from the client run alone: " + how, plans[i].cfg.show() + "\n" + std::to_string(plans.size()) + " threads; with the others: " + (x.where.empty() ? "" : x.where[0]) + " " + x.alarms + "\n" + x.transcript.substr(0, 2500) + "\nalone: " + (alone.where.empty() ? "" : alone.where[0]) + "\n" + alone.transcript.substr(0, 2500)); }
    }
    c.distinct(label); if (k % 13 == 0) c.sample(label);
}
const PropDef theProp = {"C24", [](bool t) -> int64_t { return t ? 12000 : 900; }, run,
    "Two to six clients (all classes, or all of one class) run at the same time, one thread each, over servers of their own, sending messages of their own and sharing const messages, C++ messages that every thread converts, credentials and attachment files, with and without real yields and delays inside the socket calls, in a build with ThreadSanitizer; gethostbyname, were it used, has the shared storage of glibc. Then every client runs alone: address, name asked for, commands, delivered bytes, results, logs, settings and descriptors have to be the same. The concurrent run comes first so that one-time initialisations are raced as well. Non-trivial: distinct combinations of classes and results.",
    {"ThreadSanitizer does not look into OpenSSL and libc", "schedules are those of the machine, disturbed at random"}};
