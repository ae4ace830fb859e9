PROPERTY = "C26"
NEEDS = "connect() interrupted by a signal while the connection is being established"
BREAKS = "connect() is simply called again, which fails with EALREADY, so the send fails although the connection comes up"
EDITS = [("src/smtpclientbase.cpp", "    int res = connect(mSock, reinterpret_cast<struct sockaddr*>(&saddr_in), sizeof(saddr_in));\n    if (res < 0) {", "    int res;\n    do {\n        res = connect(mSock, reinterpret_cast<struct sockaddr*>(&saddr_in), sizeof(saddr_in));\n    } while (res < 0 && errno == EINTR);\n    if (res < 0) {")]
DEMO = """
build(asan=False)
open(WORK + "/p.cpp", "w").write('''
#include <sys/socket.h>
#include <dlfcn.h>
#include <cerrno>
extern "C" int connect(int fd, const sockaddr *a, socklen_t n) { static int calls = 0; auto real = (int (*)(int, const sockaddr *, socklen_t))dlsym(RTLD_NEXT, "connect"); if (a->sa_family != AF_INET) return real(fd, a, n); if (calls++) { errno = EALREADY; return -1; } real(fd, a, n); errno = EINTR; return -1; }
''')
if subprocess.call(["g++", "-w", "-shared", "-fPIC", WORK + "/p.cpp", "-o", WORK + "/p.so", "-ldl"]):
    done(3)
s = Server()
out = run(("client", "c", "plain", "127.0.0.1", s.port), ("timeout", "c", 60), ("msg", "m", "plain", "a@example.com", "b@example.com", "", "", "s", "body"), ("send", "c", "m"), env={"LD_PRELOAD": WORK + "/p.so"})
check(results(out) == [0], "an interrupted connect() makes the send fail: %s" % out)
passed()
"""
