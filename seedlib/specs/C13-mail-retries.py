PROPERTY = "C13"
NEEDS = "a server that refuses the first form of the MAIL command with 501"
BREAKS = "the other forms of the MAIL command are sent without an entry in the communication log"
EDITS = [("src/smtpclientbase.cpp", """    for (const auto &format : mailFormats) {
        addCommunicationLogItem(format.c_str());
""", """    addCommunicationLogItem(mailFormats.front().c_str());
    for (const auto &format : mailFormats) {
""")]
DEMO = """
build()
s = Server(reply=lambda c, k, n: b"501 syntax error\\r\\n" if c.upper().startswith("MAIL") and n < 2 else None)
out = run(("client", "c", "plain", "127.0.0.1", s.port), ("timeout", "c", 60), ("msg", "m", "plain", "Name|a@example.com", "b@example.com", "", "", "s", "body"), ("send", "c", "m"), ("log", "c"))
check(results(out) == [0], "not sent: %s" % out)
text = "\\n".join("\\t".join(l) for l in out)
for x in s.conns[0].cmds:
    if x[2:].startswith("MAIL"):
        check("c: " + x[2:] in text, "not in the log: " + x)
passed()
"""
