PROPERTY = "C14"
NEEDS = "a log entry whose end falls exactly on the end of the log buffer: two or three lengths out of several thousand, reached by the text of a server reply"
BREAKS = "the communication log is written past the end of its buffer (the length of the separator is not counted)"
EDITS = [("src/smtpclientbase.cpp", "    size_t appendSize = ENDOFLINE.length() + strlen(pPrefix) + SEPARATOR.length() + item.length() + 1;", "    size_t appendSize = ENDOFLINE.length() + strlen(pPrefix) + item.length();")]
DEMO = """
build()
s = Server(reply=lambda c, k, n: b"220 " + b"x" * int(k.size) + b"\\r\\n" if c == "GREETING" else None)
import itertools
sizes = itertools.count(3990)
o = s.serve
def serve(c, k):
    k.size = next(sizes); o(c, k)
s.serve = serve
cmds = [("client", "c", "plain", "127.0.0.1", s.port), ("timeout", "c", 60), ("msg", "m", "plain", "a@example.com", "b@example.com", "", "", "s", "b")]
for i in range(120):
    cmds.append(("send", "c", "m"))
rc, out, err = run(*cmds, env={"DEMO_SLEEP_MS": "1"}, ok=False)
check(rc == 0, "memory error: " + err[:600])
check(results(out) == [0] * 120, "a message is not sent: %s" % out)
passed()
"""
