PROPERTY = "C01"
NEEDS = "a server that answers with the reply code alone, without a text"
BREAKS = "such a reply is taken for malformed and the message is reported as failed"
EDITS = [("src/smtpclientbase.cpp", "if (pOutput != nullptr && strlen(pOutput) >= 3) {", "if (pOutput != nullptr && strlen(pOutput) > 5) {")]
DEMO = """
build()
s = Server(reply=lambda c, k, n: b"250\\r\\n" if c.startswith("RCPT") or c == "DOT" else None)
out = run(("client", "c", "plain", "127.0.0.1", s.port), ("timeout", "c", 20), ("msg", "m", "plain", "a@example.com", "b@example.com", "", "", "s", "body"), ("send", "c", "m"))
check(results(out) == [0], "accepted but reported as %s" % results(out))
passed()
"""
