PROPERTY = "C05"
NEEDS = "a message text whose length is one more than a multiple of 512 bytes"
BREAKS = "the last byte of the text (the end of the closing boundary) is not sent"
EDITS = [("src/smtpclientbase.cpp", "for (size_t index_start = 0; index_start < body_real.length(); index_start += CHUNK_MAXLENGTH) {", "for (size_t index_start = 0; index_start < body_real.length() - 1; index_start += CHUNK_MAXLENGTH) {")]
DEMO = """
build()
s = Server()
cmds = [("client", "c", "plain", "127.0.0.1", s.port), ("timeout", "c", 60)]
for i in range(430, 470):
    cmds += [("msg", "m", "plain", "a@example.com", "b@example.com", "", "", "s", "x" * i), ("send", "c", "m")]
out = run(*cmds, env={"DEMO_SLEEP_MS": "2"})
check(results(out) == [0] * 40, "the messages are not sent: %s" % out)
n = [k.msgs[0][2] for k in s.conns]
for m in n:
    check(m.endswith(b"\\r\\n--sep--"), "the end of the message is missing: %r" % m[-30:])
check([m.count(b"x") for m in n] == [n[0].count(b"x") + i for i in range(40)], "part of the text is missing")
passed()
"""
