PROPERTY = "C27"
NEEDS = "a connection that fails, after being started, for another reason than being refused or timing out (host or network unreachable, reset)"
BREAKS = "the failure is not noticed: the client goes on to wait for the greeting and reports a timeout"
EDITS = [("src/smtpclientbase.cpp", "                    if (valopt) {", "                    if (valopt == ECONNREFUSED || valopt == ETIMEDOUT) {")]
DEMO = """
build(asan=False)
open(WORK + "/p.cpp", "w").write('''
#include <sys/socket.h>
#include <dlfcn.h>
#include <cerrno>
extern "C" int connect(int fd, const sockaddr *a, socklen_t n) { auto real = (int (*)(int, const sockaddr *, socklen_t))dlsym(RTLD_NEXT, "connect"); if (a->sa_family != AF_INET) return real(fd, a, n); errno = EINPROGRESS; return -1; }
extern "C" int getsockopt(int fd, int l, int o, void *v, socklen_t *n) { auto real = (int (*)(int, int, int, void *, socklen_t *))dlsym(RTLD_NEXT, "getsockopt"); if (l != SOL_SOCKET || o != SO_ERROR) return real(fd, l, o, v, n); *(int *)v = EHOSTUNREACH; return 0; }
''')
if subprocess.call(["g++", "-w", "-shared", "-fPIC", WORK + "/p.cpp", "-o", WORK + "/p.so", "-ldl"]):
    done(3)
out = run(("client", "c", "plain", "127.0.0.1", 25), ("timeout", "c", 20), ("msg", "m", "plain", "a@example.com", "b@example.com", "", "", "s", "body"), ("send", "c", "m"), env={"LD_PRELOAD": WORK + "/p.so"})
check(results(out) == [-10], "an unreachable host gives %s" % out)
passed()
"""
