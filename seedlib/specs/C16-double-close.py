PROPERTY = "C16"
NEEDS = "a server that refuses the connection, and another thread that opens a file at that moment"
BREAKS = "the socket of a refused connection is closed twice, the second time it may be the descriptor of something else"
EDITS = [("src/smtpclientbase.cpp", """                        addCommunicationLogItem(strerror(valopt));
                        return SOCKET_INIT_SESSION_DELAYED_CONNECTION_ERROR;""", """                        addCommunicationLogItem(strerror(valopt));
                        close(mSock);
                        return SOCKET_INIT_SESSION_DELAYED_CONNECTION_ERROR;"""),
    ("src/smtpclientbase.cpp", """            setLastSocketErrNo(errno);
            addCommunicationLogItem(strerror(errno));
            return SOCKET_INIT_SESSION_CONNECT_ERROR;
        }
    }
""", """            setLastSocketErrNo(errno);
            addCommunicationLogItem(strerror(errno));
            close(mSock);
            return SOCKET_INIT_SESSION_CONNECT_ERROR;
        }
    }
""")]
DEMO = """
open(WORK + "/t.cpp", "w").write('''
#include "smtpclient.h"
#include "plaintextmessage.h"
#include <cerrno>
#include <sys/syscall.h>
#include <unistd.h>
static int bad;
extern "C" int close(int fd) { long r = syscall(SYS_close, fd); if (r < 0 && errno == EBADF && fd >= 0) ++bad; return static_cast<int>(r); }
using namespace jed_utils;
int main(int, char **v) {
    SmtpClient c("127.0.0.1", static_cast<unsigned>(atoi(v[1])));
    PlaintextMessage m(MessageAddress("a@example.com"), MessageAddress("b@example.com"), "s", "b");
    if (c.sendMail(m) == 0) return 2;
    return bad != 0;
}''')
if subprocess.call("g++ -std=c++17 -w -Isrc %s/t.cpp src/*.cpp -o %s/t -lssl -lcrypto" % (WORK, WORK), shell=True):
    done(3)
s = socket.socket(); s.bind(("127.0.0.1", 0))   # bound, but nobody listens
check(subprocess.call([WORK + "/t", str(s.getsockname()[1])]) == 0, "a descriptor is closed twice")
passed()
"""
