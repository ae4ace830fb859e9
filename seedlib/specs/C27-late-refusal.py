PROPERTY = "C27"
NEEDS = "a connection attempt that fails after a while with an error other than a refusal or an unreachable network (reset, timeout)"
BREAKS = "such a failure is not seen: the session goes on with a socket that was never connected"
EDITS = [("src/smtpclientbase.cpp", "                    if (valopt) {", "                    if (valopt == ECONNREFUSED || valopt == EHOSTUNREACH || valopt == ENETUNREACH) {")]
DEMO = """
build(asan=False)
open(WORK + "/p.cpp", "w").write('''
#include <sys/socket.h>
#include <dlfcn.h>
#include <cerrno>
#include <cstdlib>
extern "C" int connect(int fd, const sockaddr *a, socklen_t n) { if (a->sa_family != AF_INET) return ((int (*)(int, const sockaddr *, socklen_t))dlsym(RTLD_NEXT, "connect"))(fd, a, n); errno = EINPROGRESS; return -1; }
extern "C" int getsockopt(int fd, int l, int o, void *v, socklen_t *n) { if (l == SOL_SOCKET && o == SO_ERROR) { *(int *)v = atoi(getenv("CONNECT_ERROR")); return 0; } return ((int (*)(int, int, int, void *, socklen_t *))dlsym(RTLD_NEXT, "getsockopt"))(fd, l, o, v, n); }
''')
if subprocess.call(["g++", "-w", "-shared", "-fPIC", WORK + "/p.cpp", "-o", WORK + "/p.so", "-ldl"]):
    done(3)
for e in (111, 113, 101, 110, 104):
    out = run(("client", "c", "plain", "127.0.0.1", 9), ("timeout", "c", 3), ("msg", "m", "plain", "a@example.com", "b@example.com", "", "", "s", "body"), ("send", "c", "m"), env={"LD_PRELOAD": WORK + "/p.so", "CONNECT_ERROR": str(e)})
    check(results(out) == [-10], "a connection that fails with error %d gives %s" % (e, results(out)))
passed()
"""
