#include <climits>
#include <cstring>
#include "core.h"
#include "cpp/forcedsecuresmtpclient.hpp"
#include "cpp/opportunisticsecuresmtpclient.hpp"
#include "cpp/smtpclient.hpp"
#include "errorresolver.h"
#include "forcedsecuresmtpclient.h"
#include "opportunisticsecuresmtpclient.h"
#include "smtpclient.h"
namespace J = jed_utils; namespace P = jed_utils::cpp;

// What the message of each documented code has to name (alternatives separated by '|')
static const std::map<int, std::vector<std::string>> DOC = {
    {-1, {"socket", "create|creat"}}, {-2, {"connect", "socket"}}, {-3, {"connect", "time"}}, {-4, {"wsa|winsock", "start"}}, {-5, {"address", "winsock|getaddrinfo"}}, {-6, {"host", "name"}}, {-7, {"descriptor|fcntl|flags", "get"}}, {-8, {"descriptor|fcntl|flags", "set"}}, {-9, {"option", "get"}}, {-10, {"delayed", "connection"}},
    {-20, {"ehlo", "send"}}, {-21, {"ehlo", "timed out"}}, {-30, {"starttls", "send"}}, {-31, {"starttls", "timed out"}},
    {-51, {"ssl", "context|ctx", "init"}}, {-52, {"bio", "create|new"}}, {-53, {"windows", "certificate", "store"}}, {-54, {"default", "locations|paths", "ca|certificate"}}, {-55, {"bio", "connect"}}, {-56, {"handshake"}}, {-57, {"certificate", "get"}}, {-58, {"verif"}}, {-59, {"ehlo", "secure"}}, {-60, {"ehlo", "secure", "timed out"}},
    {-81, {"authenticate", "unable|fail|error"}}, {-82, {"authentication", "timed out"}}, {-83, {"authentication", "not needed|no need"}}, {-84, {"authentication", "method", "supported"}},
    {-85, {"mail from", "error"}}, {-86, {"mail from", "timed out"}}, {-87, {"rcpt to", "error"}}, {-88, {"rcpt to", "timed out"}}, {-89, {"data", "error"}}, {-90, {"data", "timed out"}},
    {-91, {"from", "header"}}, {-92, {"to", "cc", "header"}}, {-93, {"subject", "header"}}, {-94, {"content", "type", "header"}}, {-95, {"body part", "error"}}, {-96, {"body", "error"}}, {-97, {"end data|end of data", "error"}}, {-98, {"end data|end of data", "timed out"}}, {-99, {"quit", "error"}},
    {530, {"authentication", "required"}}, {534, {"mechanism", "weak"}}, {535, {"credential", "invalid"}}, {538, {"encryption", "required"}}, {334, {"authentication", "token|failed"}}};
static const char *NONE = "No message correspond to this error code";

static std::string alloc(int code) { std::unique_ptr<char[]> p(J::SMTPClientBase::getErrorMessage(code)); return p ? p.get() : "(null)"; }
typedef int (*Re)(int, char *, size_t);
static const std::vector<std::pair<const char *, Re>> RE = {{"C SmtpClient", [](int a, char *b, size_t n) { return J::SmtpClient::getErrorMessage_r(a, b, n); }}, {"C Opportunistic", [](int a, char *b, size_t n) { return J::OpportunisticSecureSMTPClient::getErrorMessage_r(a, b, n); }}, {"C ForcedSecure", [](int a, char *b, size_t n) { return J::ForcedSecureSMTPClient::getErrorMessage_r(a, b, n); }}};
static void reentrant(Ctx &c, int code, const std::string &want, size_t size, const char *who, Re f) {
    std::unique_ptr<char[]> b(new char[size]); memset(b.get(), 0x7E, size);
    int r = f(code, b.get(), size); c.count("reentrant calls with guarded buffers"); size_t n = strnlen(b.get(), size);
    std::string id = std::string(who) + ", code " + std::to_string(code) + ", size " + std::to_string(size) + " of " + std::to_string(want.size() + 1) + " needed, result " + std::to_string(r);
    if (n == size) c.viol("reentrant form leaves the text unterminated", id);
    else if (want.size() < size) { if (r != 0) c.viol("reentrant form does not return 0 for a message that fits", id); else if (want != b.get()) c.viol("reentrant form gives another text", id + ": " + esc(b.get())); }
    else { if (r != static_cast<int>(size) - 1) c.viol("reentrant form does not return the number of characters copied", id); else if (want.substr(0, size - 1) != b.get()) c.viol("reentrant form gives another text", id + ": " + esc(b.get())); }
    if (n + 1 < size && want.size() < size) c.count("sizes where the message fits");
}
static void code(Ctx &c, int k, bool full) {
    std::string want = alloc(k); c.count("codes examined"); auto d = DOC.find(k); std::string id = "code " + std::to_string(k) + ": " + esc(want);
    if (d == DOC.end()) { if (want != NONE) c.viol("code without a documented meaning has a message", id); }
    else {
        if (want == NONE) c.viol("documented code without a message", id);
        else for (auto &w : d->second) { bool ok = false; for (auto &a : splitLines(w, "|")) ok |= lowerStr(want).find(a) != std::string::npos; if (!ok) { c.viol("message does not name the step and kind of failure", id + "\nnot named: " + w); break; } }
        c.distinct("code " + std::to_string(k));
    }
    std::string s[3] = {P::SmtpClient::getErrorMessage(k), P::OpportunisticSecureSMTPClient::getErrorMessage(k), P::ForcedSecureSMTPClient::getErrorMessage(k)};
    for (auto &x : s) if (x != want) c.viol("C++ interface gives another text", id + "\n" + esc(x));
    std::unique_ptr<char[]> o(J::OpportunisticSecureSMTPClient::getErrorMessage(k)), f(J::ForcedSecureSMTPClient::getErrorMessage(k)), p(J::SmtpClient::getErrorMessage(k));
    for (auto *x : {o.get(), f.get(), p.get()}) if (!x || want != x) c.viol("C interface gives another text", id);
    J::ErrorResolver r(k); if (r.getErrorCode() != k || want != r.getErrorMessage()) c.viol("error resolver gives another text", id + "\n" + esc(r.getErrorMessage()));
    for (auto &e : RE) { std::vector<size_t> sz = {1, 2, want.size() / 2, want.size() - 1, want.size(), want.size() + 1, want.size() + 2, 4096}; if (full) for (size_t i = 1; i < want.size() + 40; ++i) sz.push_back(i); for (size_t i : sz) reentrant(c, k, want, i, e.first, e.second);
        char b[4] = {1, 2, 3, 4}; if (e.second(k, nullptr, 10) != -1 || e.second(k, nullptr, 0) != -1 || e.second(k, b, 0) != -1) c.viol("reentrant form does not return -1 for no buffer", id); if (b[0] != 1 || b[1] != 2 || b[3] != 4) c.viol("reentrant form writes into a buffer of size zero", id); }
    for (int w = 0; w < 3; ++w) {
        std::string q = w == 0 ? "before" : w == 1 ? "" : std::string(5000, 'x'); int res = w == 0 ? P::SmtpClient::getErrorMessage_r(k, q) : w == 1 ? P::OpportunisticSecureSMTPClient::getErrorMessage_r(k, q) : P::ForcedSecureSMTPClient::getErrorMessage_r(k, q); c.count("C++ reentrant calls");
        if (res != 0 || q != want) c.viol("C++ reentrant form gives another text", id + "\nresult " + std::to_string(res) + " text " + esc(q));
    }
}
static void run(Ctx &c, int64_t k) {
    Rng &r = c.rng;
    if (k == 0) { std::map<std::string, int> seen; for (auto &d : DOC) { std::string t = alloc(d.first); c.count("documented messages compared with each other"); if (!seen.emplace(t, d.first).second) c.viol("two result codes share a message", std::to_string(d.first) + " and " + std::to_string(seen[t]) + ": " + t); }
        for (int x : {INT_MIN, INT_MIN + 1, INT_MAX, INT_MAX - 1, 65536, -65536, 65535, 256, -256}) code(c, x, true); c.sample("extremes"); return; }
    if (k <= 500) { for (int i = 0; i < 8; ++i) { int x = static_cast<int>(k - 1) * 8 + i - 2000; code(c, x, true); } return; }
    for (int i = 0; i < 20; ++i) { int x = static_cast<int>(static_cast<uint32_t>(r.next())); if (r.chance(50)) { auto it = DOC.begin(); std::advance(it, static_cast<long>(r.below(DOC.size()))); x = it->first + static_cast<int>(static_cast<uint32_t>(r.range(1, 32767)) << 16); } code(c, x, false); }
    if (k % 2 == 0) { // the texts of resolvers that were copied, assigned and moved; the memory of all interfaces is given back
        auto it = DOC.begin(); std::advance(it, static_cast<long>(r.below(DOC.size()))); int a = it->first, b = r.range(-100, 600);
        long leak = leakPerRun([&]() { J::ErrorResolver x(a), y(b), z(x); y = x; z = y; J::ErrorResolver m(std::move(z)); y = std::move(m); if (alloc(a) != y.getErrorMessage() || y.getErrorCode() != a) c.viol("resolver loses its text through copies and moves", std::to_string(a)); P::SmtpClient::getErrorMessage(b); P::OpportunisticSecureSMTPClient::getErrorMessage(b); P::ForcedSecureSMTPClient::getErrorMessage(b); char t[30]; J::SmtpClient::getErrorMessage_r(b, t, sizeof t); });
        if (leak > 0) c.viol("error messages leave memory behind", std::to_string(leak) + " bytes"); c.count("repetitions under the heap monitor");
    }
}
const PropDef theProp = {"C22", [](bool t) -> int64_t { return t ? 20000 : 700; }, run,
    "Every code from -2000 to 1999, the extremes of int and random codes (half of them equal to a documented code in the low 16 bits): the text of the allocating form is compared with what each documented code has to name, with the fixed text for all others, with every other interface (three C classes, three C++ classes, ErrorResolver); the reentrant forms are called with heap blocks of exactly every size from 1 to 39 more than the text under AddressSanitizer. All documented messages are compared pairwise. Non-trivial: documented codes seen.",
    {"the wording is free as long as it names the listed step and kind of failure"}};
