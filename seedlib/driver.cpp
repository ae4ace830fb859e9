// Runs the commands given on standard input against the library. Fields are separated by tabs, \n \r \t \\ \0 are escapes.
#include <cstdlib>
#include <csignal>
#include <cstring>
#include <iostream>
#include <map>
#include <memory>
#include <sstream>
#include <string>
#include <thread>
#include <vector>
#include <dirent.h>
#include <unistd.h>
#include "base64.h"
#include "errorresolver.h"
#include "credential.h"
#include "forcedsecuresmtpclient.h"
#include "htmlmessage.h"
#include "opportunisticsecuresmtpclient.h"
#include "plaintextmessage.h"
#include "smtpclient.h"
#include "stringutils.h"
#include "cpp/forcedsecuresmtpclient.hpp"
#include "cpp/htmlmessage.hpp"
#include "cpp/opportunisticsecuresmtpclient.hpp"
#include "cpp/plaintextmessage.hpp"
#include "cpp/smtpclient.hpp"
// The library waits for replies with sleep(1): keep the demonstration short
extern "C" unsigned sleep(unsigned s) { const char *e = getenv("DEMO_SLEEP_MS"); usleep(s * 1000u * static_cast<unsigned>(e ? atoi(e) : 50)); return 0; }
using namespace jed_utils;
using V = std::vector<std::string>;
static std::string unesc(const std::string &s) { std::string r; for (size_t i = 0; i < s.size(); ++i) { if (s[i] != '\\' || i + 1 >= s.size()) { r += s[i]; continue; } ++i; r += s[i] == 'n' ? '\n' : s[i] == 'r' ? '\r' : s[i] == 't' ? '\t' : s[i]; } return r; }
static std::string esc(const std::string &s) { std::string r; for (char c : s) { if (c == '\n') r += "\\n"; else if (c == '\r') r += "\\r"; else if (c == '\t') r += "\\t"; else if (c == '\\') r += "\\\\"; else r += c; } return r; }
static MessageAddress addr(const std::string &s) { size_t p = s.find('|'); return p == std::string::npos ? MessageAddress(s.c_str()) : MessageAddress(s.substr(p + 1).c_str(), s.substr(0, p).c_str()); }
static std::vector<MessageAddress> addrs(const std::string &s) { std::vector<MessageAddress> v; std::istringstream i(s); std::string x; while (std::getline(i, x, ',')) v.push_back(addr(x)); return v; }
static jed_utils::cpp::MessageAddress paddr(const std::string &s) { size_t p = s.find('|'); return p == std::string::npos ? jed_utils::cpp::MessageAddress(s) : jed_utils::cpp::MessageAddress(s.substr(p + 1), s.substr(0, p)); }
static std::vector<jed_utils::cpp::MessageAddress> paddrs(const std::string &s) { std::vector<jed_utils::cpp::MessageAddress> v; std::istringstream i(s); std::string x; while (std::getline(i, x, ',')) v.push_back(paddr(x)); return v; }
struct C { std::string kind; std::shared_ptr<SmtpClient> p; std::shared_ptr<OpportunisticSecureSMTPClient> o; std::shared_ptr<ForcedSecureSMTPClient> f; std::shared_ptr<jed_utils::cpp::SmtpClient> cp; std::shared_ptr<jed_utils::cpp::OpportunisticSecureSMTPClient> co; std::shared_ptr<jed_utils::cpp::ForcedSecureSMTPClient> cf; };
#define ON(c, x) do { if ((c).p) (c).p->x; else if ((c).o) (c).o->x; else if ((c).f) (c).f->x; else if ((c).cp) (c).cp->x; else if ((c).co) (c).co->x; else (c).cf->x; } while (0)
#define GET(c, x) ((c).p ? (c).p->x : (c).o ? (c).o->x : (c).f ? (c).f->x : (c).cp ? (c).cp->x : (c).co ? (c).co->x : (c).cf->x)
int main() {
    if (getenv("IGNORE_SIGPIPE")) signal(SIGPIPE, SIG_IGN);
    std::map<std::string, C> cl; std::map<std::string, std::shared_ptr<Message>> ms; std::map<std::string, std::shared_ptr<MessageAddress>> as; std::map<std::string, std::shared_ptr<Attachment>> at; std::vector<std::thread> th; std::string line;
    std::ios::sync_with_stdio(false);
    while (std::getline(std::cin, line)) {
        V a; std::istringstream ls(line); std::string x; while (std::getline(ls, x, '\t')) a.push_back(unesc(x)); if (a.empty()) continue; a.resize(12); const std::string &c = a[0];
        try {
            if (c == "client") { C n; n.kind = a[2]; const char *h = a[3].c_str(); unsigned q = static_cast<unsigned>(atoi(a[4].c_str())); if (a[2] == "plain") n.p = std::make_shared<SmtpClient>(h, q); else if (a[2] == "opp") n.o = std::make_shared<OpportunisticSecureSMTPClient>(h, q); else if (a[2] == "forced") n.f = std::make_shared<ForcedSecureSMTPClient>(h, q); else if (a[2] == "cpp-plain") n.cp = std::make_shared<jed_utils::cpp::SmtpClient>(a[3], q); else if (a[2] == "cpp-opp") n.co = std::make_shared<jed_utils::cpp::OpportunisticSecureSMTPClient>(a[3], q); else n.cf = std::make_shared<jed_utils::cpp::ForcedSecureSMTPClient>(a[3], q); cl[a[1]] = n; }
            else if (c == "cred") { int r = a[4].empty() ? 0 : atoi(a[4].c_str()); C &n = cl[a[1]]; if (n.cp || n.co || n.cf) { jed_utils::cpp::Credential k(a[2], a[3]); k.setRecommendedAuthOption(static_cast<RecommendedAuthenticationMethod>(r)); if (n.cp) n.cp->setCredentials(k); else if (n.co) n.co->setCredentials(k); else n.cf->setCredentials(k); } else { Credential k(a[2].c_str(), a[3].c_str()); k.setRecommendedAuthOption(static_cast<RecommendedAuthenticationMethod>(r)); if (n.p) n.p->setCredentials(k); else if (n.o) n.o->setCredentials(k); else n.f->setCredentials(k); } }
            else if (c == "timeout") ON(cl[a[1]], setCommandTimeout(static_cast<unsigned>(atoi(a[2].c_str()))));
            else if (c == "batch") ON(cl[a[1]], setBatchMode(a[2] == "1"));
            else if (c == "server") { C &n = cl[a[1]]; if (n.p) n.p->setServerName(a[2].c_str()); else if (n.o) n.o->setServerName(a[2].c_str()); else if (n.f) n.f->setServerName(a[2].c_str()); }
            else if (c == "port") ON(cl[a[1]], setServerPort(static_cast<unsigned>(atoi(a[2].c_str()))));
            else if (c == "selfsigned") { C &n = cl[a[1]]; bool b = a[2] == "1"; if (n.o) n.o->setAcceptSelfSignedCert(b); else if (n.f) n.f->setAcceptSelfSignedCert(b); else if (n.co) n.co->setAcceptSelfSignedCert(b); else if (n.cf) n.cf->setAcceptSelfSignedCert(b); }
            else if (c == "copy") { C &s = cl[a[2]]; C n; n.kind = s.kind; if (s.p) n.p = std::make_shared<SmtpClient>(*s.p); if (s.o) n.o = std::make_shared<OpportunisticSecureSMTPClient>(*s.o); if (s.f) n.f = std::make_shared<ForcedSecureSMTPClient>(*s.f); if (s.cp) n.cp = std::make_shared<jed_utils::cpp::SmtpClient>(*s.cp); if (s.co) n.co = std::make_shared<jed_utils::cpp::OpportunisticSecureSMTPClient>(*s.co); if (s.cf) n.cf = std::make_shared<jed_utils::cpp::ForcedSecureSMTPClient>(*s.cf); cl[a[1]] = n; }
            else if (c == "move") { C &s = cl[a[2]]; C n; n.kind = s.kind; if (s.p) n.p = std::make_shared<SmtpClient>(std::move(*s.p)); if (s.o) n.o = std::make_shared<OpportunisticSecureSMTPClient>(std::move(*s.o)); if (s.f) n.f = std::make_shared<ForcedSecureSMTPClient>(std::move(*s.f)); if (s.cp) n.cp = std::make_shared<jed_utils::cpp::SmtpClient>(std::move(*s.cp)); if (s.co) n.co = std::make_shared<jed_utils::cpp::OpportunisticSecureSMTPClient>(std::move(*s.co)); if (s.cf) n.cf = std::make_shared<jed_utils::cpp::ForcedSecureSMTPClient>(std::move(*s.cf)); cl.erase(a[2]); cl[a[1]] = n; }
            else if (c == "assign") { C &s = cl[a[2]], &d = cl[a[1]]; if (s.p) *d.p = *s.p; if (s.o) *d.o = *s.o; if (s.f) *d.f = *s.f; if (s.cp) *d.cp = *s.cp; if (s.co) *d.co = *s.co; if (s.cf) *d.cf = *s.cf; }
            else if (c == "moveassign") { C &s = cl[a[2]], &d = cl[a[1]]; if (s.p) *d.p = std::move(*s.p); if (s.o) *d.o = std::move(*s.o); if (s.f) *d.f = std::move(*s.f); if (s.cp) *d.cp = std::move(*s.cp); if (s.co) *d.co = std::move(*s.co); if (s.cf) *d.cf = std::move(*s.cf); cl.erase(a[2]); }
            else if (c == "drop") cl.erase(a[1]);
            else if (c == "get") { C &n = cl[a[1]]; const Credential *k = n.p ? n.p->getCredentials() : n.o ? n.o->getCredentials() : n.f ? n.f->getCredentials() : nullptr; std::cout << "get\t" << GET(n, getServerPort()) << "\t" << GET(n, getCommandTimeout()) << "\t" << GET(n, getBatchMode()) << "\t" << (k ? k->getUsername() : "-") << "\t" << (k ? k->getPassword() : "-") << "\t" << (k ? static_cast<int>(k->getRecommendedAuthOption()) : -1) << "\t" << (n.o ? n.o->getAcceptSelfSignedCert() : n.f ? n.f->getAcceptSelfSignedCert() : n.co ? n.co->getAcceptSelfSignedCert() : n.cf ? n.cf->getAcceptSelfSignedCert() : false) << "\n"; }
            // msg id type from to cc bcc subject body atts   (addresses: name|mail,..., attachments: path|name|cid;...)
            else if (c == "msg") {
                auto to = addrs(a[4]), cc = addrs(a[5]), bcc = addrs(a[6]); std::vector<Attachment> at2; std::istringstream i(a[9]); std::string y; while (std::getline(i, y, ';')) { V p; std::istringstream j(y); std::string z; while (std::getline(j, z, '|')) p.push_back(z); p.resize(3); at2.emplace_back(p[0].c_str(), p[1].c_str()); if (!p[2].empty()) at2.back().setContentId(p[2].c_str()); }
                if (a[2] == "cpp-plain" || a[2] == "cpp-html") { auto pt = paddrs(a[4]), pc = paddrs(a[5]), pb = paddrs(a[6]); std::vector<jed_utils::cpp::Attachment> pa; std::istringstream i2(a[9]); while (std::getline(i2, y, ';')) { V p; std::istringstream j(y); std::string z; while (std::getline(j, z, '|')) p.push_back(z); p.resize(3); pa.emplace_back(p[0], p[1], p[2]); } if (a[2] == "cpp-html") { jed_utils::cpp::HTMLMessage m(paddr(a[3]), pt, a[7], a[8], pc, pb, pa); ms[a[1]] = std::make_shared<HTMLMessage>(static_cast<HTMLMessage>(m)); } else { jed_utils::cpp::PlaintextMessage m(paddr(a[3]), pt, a[7], a[8], pc, pb, pa); ms[a[1]] = std::make_shared<PlaintextMessage>(static_cast<PlaintextMessage>(m)); } }
                else if (a[2] == "html") ms[a[1]] = std::make_shared<HTMLMessage>(addr(a[3]), to.data(), to.size(), a[7].c_str(), a[8].c_str(), cc.empty() ? nullptr : cc.data(), cc.size(), bcc.empty() ? nullptr : bcc.data(), bcc.size(), at2.empty() ? nullptr : at2.data(), at2.size());
                else ms[a[1]] = std::make_shared<PlaintextMessage>(addr(a[3]), to.data(), to.size(), a[7].c_str(), a[8].c_str(), cc.empty() ? nullptr : cc.data(), cc.size(), bcc.empty() ? nullptr : bcc.data(), bcc.size(), at2.empty() ? nullptr : at2.data(), at2.size()); }
            else if (c == "msgassign") *std::dynamic_pointer_cast<PlaintextMessage>(ms[a[1]]) = *std::dynamic_pointer_cast<PlaintextMessage>(ms[a[2]]);
            else if (c == "msgmoveassign") *std::dynamic_pointer_cast<PlaintextMessage>(ms[a[1]]) = std::move(*std::dynamic_pointer_cast<PlaintextMessage>(ms[a[2]])), ms.erase(a[2]);
            else if (c == "msgcopy") ms[a[1]] = std::make_shared<PlaintextMessage>(*std::dynamic_pointer_cast<PlaintextMessage>(ms[a[2]]));
            else if (c == "msgshow") { auto &m = *ms[a[1]]; std::cout << "msg\t" << esc(std::string(m.getFrom())) << "\t"; for (size_t q = 0; q < m.getToCount(); ++q) std::cout << std::string(*m.getTo()[q]) << ";"; std::cout << "\t"; for (size_t q = 0; q < m.getCcCount(); ++q) std::cout << std::string(*m.getCc()[q]) << ";"; std::cout << "\t"; for (size_t q = 0; q < m.getBccCount(); ++q) std::cout << std::string(*m.getBcc()[q]) << ";"; std::cout << "\t" << esc(m.getSubject()) << "\t" << esc(m.getBody()) << "\t"; for (size_t q = 0; q < m.getAttachmentsCount(); ++q) { auto *t = m.getAttachments()[q]; std::cout << esc(t->getFilename()) << "|" << esc(t->getName()) << "|" << (t->getContentId() ? t->getContentId() : "") << ";"; } std::cout << "\n"; }
            else if (c == "send") { C &n = cl[a[1]]; int r = GET(n, sendMail(*ms[a[2]])); std::cout << "result\t" << r << std::endl; }
            else if (c == "log") { C &n = cl[a[1]]; std::string l = n.p ? n.p->getCommunicationLog() : n.o ? n.o->getCommunicationLog() : n.f ? n.f->getCommunicationLog() : n.cp ? n.cp->getCommunicationLog() : n.co ? n.co->getCommunicationLog() : n.cf->getCommunicationLog(); std::cout << "log\t" << esc(l) << std::endl; }
            else if (c == "fds") { int k = 0; DIR *d = opendir("/proc/self/fd"); while (readdir(d)) ++k; closedir(d); std::cout << "fds\t" << k << std::endl; }
            else if (c == "addr") { try { as[a[1]] = std::make_shared<MessageAddress>(a[2].c_str(), a[3].c_str()); std::cout << "addr\tok\n"; } catch (std::invalid_argument &) { std::cout << "addr\tinvalid\n"; } }
            else if (c == "addreq") std::cout << "eq\t" << (*as[a[1]] == *as[a[2]]) << "\n";
            else if (c == "att") { at[a[1]] = std::make_shared<Attachment>(a[2].c_str(), a[3].c_str()); }
            else if (c == "attshow") { auto &t = *at[a[1]]; const char *m = t.getMimeType(); const char *b = t.getBase64EncodedFile(); std::cout << "att\t" << esc(t.getName()) << "\t" << m << "\t" << (b ? esc(b) : "(null)") << "\n"; delete[] b; }
            else if (c == "b64") std::cout << "b64\t" << esc(Base64::Encode(reinterpret_cast<const unsigned char *>(a[1].data()), a[1].size())) << "\n";
            else if (c == "b64n") { std::string s; for (int q = 0; q < atoi(a[1].c_str()); ++q) s += static_cast<char>(q * 37 + 200); std::string e = Base64::Encode(reinterpret_cast<const unsigned char *>(s.data()), s.size()); std::cout << "b64\t" << esc(e) << "\n"; auto d = Base64::Decode(e.c_str()); std::cout << "same\t" << (std::string(d.begin(), d.end()) == s) << "\n"; }
            else if (c == "err") { char buf[512]; memset(buf, 'X', sizeof buf); size_t n = static_cast<size_t>(atoi(a[2].c_str())); int r = SMTPClientBase::getErrorMessage_r(atoi(a[1].c_str()), buf, n); char *m = SMTPClientBase::getErrorMessage(atoi(a[1].c_str())); std::cout << "err\t" << r << "\t" << esc(std::string(buf, n)) << "\t" << (buf[n] == 'X') << "\t" << esc(m) << "\n"; delete[] m; }
            else if (c == "psend") { int k = atoi(a[2].c_str()); std::vector<std::thread> t; for (int q = 0; q < k; ++q) t.emplace_back([&, q] { for (int z = 0; z < atoi(a[3].c_str()); ++z) { C &n = cl[a[1] + std::to_string(q)]; GET(n, sendMail(*ms[a[4]])); } }); for (auto &y : t) y.join(); std::cout << "psend\tdone\n"; }
            else { std::cerr << "unknown command " << c << "\n"; return 3; }
        } catch (std::exception &e) { std::cout << "exception\t" << e.what() << std::endl; }
    }
    cl.clear();
}
