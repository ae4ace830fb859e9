PROPERTY = "C27"
NEEDS = "a server name that resolves to another address at a later session"
BREAKS = "later sessions go to the address found first"
EDITS = [("src/smtpclientbase.cpp", "#include <limits>\n", "#include <limits>\n#include <map>\n"),
    ("src/smtpclientbase.cpp", "    saddr_in.sin_port = htons(static_cast<u_short>(getServerPort()));", "    // One address per name, however often it is asked for\n    static thread_local std::map<std::string, struct in_addr> knownAddresses;\n    saddr_in.sin_addr = knownAddresses.emplace(getServerName(), saddr_in.sin_addr).first->second;\n    saddr_in.sin_port = htons(static_cast<u_short>(getServerPort()));")]
DEMO = """
build(asan=False)
open(WORK + "/p.cpp", "w").write('''
#include <netdb.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#include <dlfcn.h>
#include <cstring>
static int calls = 0;
static const char *next() { return calls++ == 0 ? "127.0.0.1" : "127.0.0.2"; }
extern "C" int getaddrinfo(const char *n, const char *s, const addrinfo *h, addrinfo **r) { auto real = (int (*)(const char *, const char *, const addrinfo *, addrinfo **))dlsym(RTLD_NEXT, "getaddrinfo"); return real(n && !strcmp(n, "relay.example.org") ? next() : n, s, h, r); }
extern "C" hostent *gethostbyname(const char *n) { auto real = (hostent * (*)(const char *))dlsym(RTLD_NEXT, "gethostbyname"); return real(!strcmp(n, "relay.example.org") ? next() : n); }
''')
if subprocess.call(["g++", "-w", "-shared", "-fPIC", WORK + "/p.cpp", "-o", WORK + "/p.so", "-ldl"]):
    done(3)
s = Server()
t = Server.__new__(Server); t.__dict__.update(s.__dict__); t.conns = []; t.s = socket.socket(); t.s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1); t.s.bind(("127.0.0.2", s.port)); t.s.listen(5)
threading.Thread(target=t.accept, daemon=True).start()
out = run(("client", "c", "plain", "relay.example.org", s.port), ("timeout", "c", 60), ("msg", "m", "plain", "a@example.com", "b@example.com", "", "", "s", "body"), ("send", "c", "m"), ("send", "c", "m"), env={"LD_PRELOAD": WORK + "/p.so"})
check(results(out) == [0, 0], "the sends fail: %s" % out)
check(len(s.conns) == 1 and len(t.conns) == 1, "%d and %d connections" % (len(s.conns), len(t.conns)))
passed()
"""
