// Worker: runs the cases of one property in one shard and writes its findings as JSON lines.
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <unistd.h>
#include "core.h"

static FILE *g_out;
static std::map<std::string, uint64_t> g_counts;
static std::set<uint64_t> g_distinct;
static std::vector<std::string> g_samples;
static std::set<std::string> g_keys;
static int g_inconclusive = 0;
static volatile int64_t g_case = -1;

static std::string js(const std::string &s) {
    std::string r = "\""; char b[8];
    for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += static_cast<char>(c); } else if (c == '\n') r += "\\n"; else if (c < 32 || c >= 127) { snprintf(b, sizeof b, "\\u%04x", c); r += b; } else r += static_cast<char>(c); }
    return r + "\"";
}
void Ctx::viol(const std::string &key, const std::string &detail) {
    ++violations;
    if (g_keys.size() > 40 || !g_keys.insert(key).second) return;
    fprintf(g_out, "{\"t\":\"viol\",\"case\":%lld,\"key\":%s,\"detail\":%s}\n", static_cast<long long>(caseNo), js(key).c_str(), js(detail.substr(0, 6000)).c_str());
    fflush(g_out);
    if (verbose) fprintf(stderr, "VIOL case %lld %s\n%s\n", static_cast<long long>(caseNo), key.c_str(), detail.substr(0, 6000).c_str());
}
void Ctx::count(const std::string &n, uint64_t k) { g_counts[n] += k; }
void Ctx::distinct(const std::string &s) { g_distinct.insert(hash64(s)); }
void Ctx::sample(const std::string &s) { if (g_samples.size() < 4 && (g_samples.empty() || rng.chance(10))) g_samples.push_back("case " + std::to_string(caseNo) + ": " + s.substr(0, 900)); }
void Ctx::inconclusive(const std::string &why) { ++g_inconclusive; count("inconclusive: " + why); }

static void onAlarm(int) {
    static const char m[] = "\nVERIF-WATCHDOG: case does not end\n";
    ssize_t k = write(2, m, sizeof m - 1); (void)k;
    _exit(77);
}
static void onTerminate() { fprintf(stderr, "\nVERIF-TERMINATE: std::terminate called\n"); fflush(stderr); abort(); }

int main(int argc, char **argv) {
    std::string tier = "quick", out = "/dev/stdout", scratch = "/tmp", progress; uint64_t seed = 1; int64_t shard = 0, nshards = 1, only = -1, from = 0, limit = -1; bool verbose = false; unsigned wd = 60; std::string skip;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i]; auto v = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
        if (a == "--tier") tier = v(); else if (a == "--out") out = v(); else if (a == "--scratch") scratch = v(); else if (a == "--progress") progress = v();
        else if (a == "--seed") seed = strtoull(v().c_str(), nullptr, 10); else if (a == "--shard") shard = atoll(v().c_str()); else if (a == "--nshards") nshards = atoll(v().c_str());
        else if (a == "--case") only = atoll(v().c_str()); else if (a == "--from") from = atoll(v().c_str()); else if (a == "--limit") limit = atoll(v().c_str()); else if (a == "--verbose") verbose = true; else if (a == "--watchdog") wd = static_cast<unsigned>(atoi(v().c_str()));
        else if (a == "--skip") skip = v();
    }
    std::set<int64_t> skips; for (auto &x : splitLines(skip, ",")) if (!x.empty()) skips.insert(atoll(x.c_str()));
    std::set_terminate(onTerminate);
    sim::installSignalMonitor();
    struct rlimit rl; getrlimit(RLIMIT_NOFILE, &rl); rl.rlim_cur = rl.rlim_max < 4096 ? rl.rlim_max : 4096; setrlimit(RLIMIT_NOFILE, &rl);
    signal(SIGALRM, onAlarm);
    mkdir(scratch.c_str(), 0700);
    std::string ca = initPki(scratch, "mail.example.org", "10.1.2.3");
    setenv("SSL_CERT_FILE", ca.c_str(), 1);
    setenv("SSL_CERT_DIR", (scratch + "/nocerts").c_str(), 1);
    g_out = fopen(out.c_str(), "a");
    int pf = progress.empty() ? -1 : open(progress.c_str(), O_CREAT | O_RDWR | O_CLOEXEC, 0600);
    if (!verbose) { int dn = open("/dev/null", O_WRONLY); dup2(dn, 1); close(dn); }
    int64_t total = theProp.cases(tier == "thorough"), done = 0;
    Ctx ctx; ctx.prop = theProp.id; ctx.tier = tier; ctx.seed = seed; ctx.scratch = scratch; ctx.verbose = verbose;
    for (int64_t k = only >= 0 ? only : from; k < total; ++k) {
        if (only < 0 && k % nshards != shard) continue;
        if (skips.count(k)) continue;
        if (limit >= 0 && done >= limit) break;
        g_case = k;
        if (pf >= 0) { char b[32]; int n = snprintf(b, sizeof b, "%020lld", static_cast<long long>(k)); ssize_t z = pwrite(pf, b, static_cast<size_t>(n), 0); (void)z; }
        ctx.caseNo = k;
        ctx.rng = Rng(hash64(std::string(theProp.id) + "/" + std::to_string(seed) + "/" + std::to_string(k)));
        sim::tl_sigpipes = 0;
        alarm(wd);
        try { theProp.run(ctx, k); }
        catch (const std::exception &e) { ctx.viol("uncaught-exception", std::string("uncaught exception: ") + e.what()); }
        alarm(0);
        if (!g_threw.empty()) { ctx.viol("sendMail threw an exception", g_threw); g_threw.clear(); }
        ++done;
        if (only >= 0) break;
    }
    std::string c; for (auto &x : g_counts) c += (c.empty() ? "" : ",") + js(x.first) + ":" + std::to_string(x.second);
    std::string s; for (auto &x : g_samples) s += (s.empty() ? "" : ",") + js(x);
    fprintf(g_out, "{\"t\":\"sum\",\"done\":%lld,\"total\":%lld,\"counts\":{%s},\"samples\":[%s],\"rule\":%s,\"assumptions\":[", static_cast<long long>(done), static_cast<long long>(total), c.c_str(), s.c_str(), js(theProp.rule).c_str());
    for (size_t i = 0; i < theProp.assumptions.size(); ++i) fprintf(g_out, "%s%s", i ? "," : "", js(theProp.assumptions[i]).c_str());
    fprintf(g_out, "]}\n{\"t\":\"distinct\",\"h\":[");
    bool first = true; for (auto h : g_distinct) { fprintf(g_out, "%s\"%llx\"", first ? "" : ",", static_cast<unsigned long long>(h)); first = false; }
    fprintf(g_out, "]}\n");
    fclose(g_out);
    fflush(nullptr);
    _exit(0);
}
