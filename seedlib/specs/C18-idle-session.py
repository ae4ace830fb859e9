PROPERTY = "C18"
NEEDS = "a batch session in which more than five minutes pass between two messages"
BREAKS = "the open connection is given up and another one is made for the message"
EDITS = [("src/smtpclientbase.h", "    bool mBatchMode;", "    bool mBatchMode;\n    long mLastUse {0};"),
    ("src/smtpclientbase.cpp", "    if (!mIsConnected) {\n", "    // Servers drop idle connections after five minutes\n    const long now = static_cast<long>(time(nullptr));\n    if (mIsConnected && now - mLastUse > 300) {\n        cleanup();\n        mIsConnected = false;\n    }\n    mLastUse = now;\n    if (!mIsConnected) {\n")]
DEMO = """
build(asan=False)
open(WORK + "/p.cpp", "w").write('''
#include <ctime>
extern "C" time_t time(time_t *t) { static time_t n = 1700000000; n += 400; if (t) *t = n; return n; }
''')
if subprocess.call(["g++", "-w", "-shared", "-fPIC", WORK + "/p.cpp", "-o", WORK + "/p.so"]):
    done(3)
s = Server()
out = run(("client", "c", "plain", "127.0.0.1", s.port), ("timeout", "c", 60), ("batch", "c", 1), ("msg", "m", "plain", "a@example.com", "b@example.com", "", "", "s", "body"), ("send", "c", "m"), ("send", "c", "m"), env={"LD_PRELOAD": WORK + "/p.so"})
check(results(out) == [0, 0], "the sends fail: %s" % out)
check(len(s.conns) == 1, "%d connections" % len(s.conns))
passed()
"""
