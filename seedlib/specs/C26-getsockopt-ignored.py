PROPERTY = "C26"
NEEDS = "the getsockopt() call that asks for the outcome of the connection attempt fails"
BREAKS = "the failure is ignored and the session goes on"
EDITS = [("src/smtpclientbase.cpp", """                        setLastSocketErrNo(errno);
                        addCommunicationLogItem(strerror(errno));
                        return SOCKET_INIT_SESSION_GET_SOCKET_OPTIONS_ERROR;""", """                        setLastSocketErrNo(errno);
                        addCommunicationLogItem(strerror(errno));
                        break;""")]
DEMO = """
build(asan=False)
open(WORK + "/p.cpp", "w").write('''
#include <sys/socket.h>
#include <dlfcn.h>
#include <cerrno>
extern "C" int connect(int fd, const sockaddr *a, socklen_t n) { int r = ((int (*)(int, const sockaddr *, socklen_t))dlsym(RTLD_NEXT, "connect"))(fd, a, n); if (r == 0 && a->sa_family == AF_INET) { errno = EINPROGRESS; return -1; } return r; }
extern "C" int getsockopt(int fd, int l, int o, void *v, socklen_t *n) { if (l == SOL_SOCKET && o == SO_ERROR) { errno = ENOBUFS; return -1; } return ((int (*)(int, int, int, void *, socklen_t *))dlsym(RTLD_NEXT, "getsockopt"))(fd, l, o, v, n); }
''')
if subprocess.call(["g++", "-w", "-shared", "-fPIC", WORK + "/p.cpp", "-o", WORK + "/p.so", "-ldl"]):
    done(3)
s = Server()
out = run(("client", "c", "plain", "127.0.0.1", s.port), ("timeout", "c", 20), ("msg", "m", "plain", "a@example.com", "b@example.com", "", "", "s", "body"), ("send", "c", "m"), env={"LD_PRELOAD": WORK + "/p.so"})
check(len(results(out)) == 1 and results(out)[0] < 0, "a failing getsockopt() gives %s" % out)
check(not any(k.msgs for k in s.conns), "a message was sent")
passed()
"""
