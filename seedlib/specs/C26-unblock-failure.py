PROPERTY = "C26"
NEEDS = "the fcntl() call that returns the socket to blocking mode fails"
BREAKS = "the failure is ignored and the session goes on with a socket in the wrong mode"
EDITS = [("src/smtpclientbase.cpp", """    arg &= (~O_NONBLOCK);
    if (fcntl(mSock, F_SETFL, arg) < 0) {
        setLastSocketErrNo(errno);
        addCommunicationLogItem(strerror(errno));
        return SOCKET_INIT_SESSION_FCNTL_SET_ERROR;
    }
    return 0;""", """    arg &= (~O_NONBLOCK);
    if (fcntl(mSock, F_SETFL, arg) < 0) {
        setLastSocketErrNo(errno);
        addCommunicationLogItem(strerror(errno));
    }
    return 0;""")]
DEMO = """
build(asan=False)
open(WORK + "/p.cpp", "w").write('''
#include <fcntl.h>
#include <stdarg.h>
#include <dlfcn.h>
#include <cerrno>
static int calls = 0;
static int f(const char *name, int fd, int cmd, void *arg) { auto real = (int (*)(int, int, ...))dlsym(RTLD_NEXT, name); if (cmd == F_SETFL && !((long)arg & O_NONBLOCK) && calls++ == 0) { errno = ENOLCK; return -1; } return real(fd, cmd, arg); }
extern "C" int fcntl(int fd, int cmd, ...) { va_list l; va_start(l, cmd); void *a = va_arg(l, void *); va_end(l); return f("fcntl", fd, cmd, a); }
extern "C" int fcntl64(int fd, int cmd, ...) { va_list l; va_start(l, cmd); void *a = va_arg(l, void *); va_end(l); return f("fcntl64", fd, cmd, a); }
''')
if subprocess.call(["g++", "-w", "-shared", "-fPIC", WORK + "/p.cpp", "-o", WORK + "/p.so", "-ldl"]):
    done(3)
s = Server()
out = run(("client", "c", "plain", "127.0.0.1", s.port), ("timeout", "c", 60), ("msg", "m", "plain", "a@example.com", "b@example.com", "", "", "s", "body"), ("send", "c", "m"), env={"LD_PRELOAD": WORK + "/p.so"})
check(results(out) == [-8], "a failing fcntl() gives %s" % out)
passed()
"""
