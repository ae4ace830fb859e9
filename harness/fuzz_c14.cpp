// Coverage-guided fuzzing of the C14 driver (libFuzzer): replaces main.cpp in the "fuzz" build.
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <sys/stat.h>
#include <unistd.h>
#include "core.h"

void fuzzC14(Ctx &c, const uint8_t *d, size_t n);
static uint64_t g_sessions;
static std::set<uint64_t> g_seen;
void Ctx::viol(const std::string &key, const std::string &detail) { fprintf(stderr, "VERIF-VIOLATION: %s\n%s\n", key.c_str(), detail.substr(0, 6000).c_str()); fflush(stderr); abort(); }
void Ctx::count(const std::string &n, uint64_t k) { if (n == "hostile sessions") g_sessions += k; }
void Ctx::distinct(const std::string &s) { g_seen.insert(hash64(s)); }
void Ctx::sample(const std::string &) {}
void Ctx::inconclusive(const std::string &) {}
static void onAlarm(int) { static const char m[] = "\nVERIF-WATCHDOG: input does not end\n"; ssize_t k = write(2, m, sizeof m - 1); (void)k; abort(); }
static std::string dir;
static void atEnd() { if (FILE *f = fopen((dir + "/stats").c_str(), "w")) { fprintf(f, "%llu %llu\n", static_cast<unsigned long long>(g_sessions), static_cast<unsigned long long>(g_seen.size())); fclose(f); } }
extern "C" int LLVMFuzzerInitialize(int *, char ***) {
    const char *e = getenv("VERIF_SCRATCH"); dir = e ? e : "/tmp"; mkdir(dir.c_str(), 0700);
    sim::installSignalMonitor(); signal(SIGALRM, onAlarm);
    std::string ca = initPki(dir, "mail.example.org", "10.1.2.3");
    setenv("SSL_CERT_FILE", ca.c_str(), 1); setenv("SSL_CERT_DIR", (dir + "/nocerts").c_str(), 1);
    atexit(atEnd);
    return 0;
}
extern "C" int LLVMFuzzerTestOneInput(const uint8_t *d, size_t n) {
    static Ctx ctx; ctx.prop = "C14"; ctx.scratch = dir;
    ctx.rng = Rng(7);
    alarm(60);
    try { fuzzC14(ctx, d, n); } catch (const std::exception &e) { ctx.viol("uncaught-exception", e.what()); }
    alarm(0);
    if (!g_threw.empty()) ctx.viol("sendMail threw an exception", g_threw);
    return 0;
}
