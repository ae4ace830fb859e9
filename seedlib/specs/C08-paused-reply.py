PROPERTY = "C08"
NEEDS = "a reply over TLS that arrives in two parts with a pause of more than half the command timeout between them"
BREAKS = "the seconds spent waiting for the rest of a reply count double, so a slow second part within the timeout is taken for silence"
EDITS = [("src/securesmtpclientbase.cpp", "        waitTime += 1;\n", "        waitTime += fullResponse.empty() ? 1 : 2;\n")]
DEMO = """
build()
k, c = cert("localhost")
s = Server(reply=lambda c, k, n: [(b"250-sender \\r\\n", 2.2), (b"250 ok\\r\\n", 0)] if c.startswith("MAIL") else None, key=k, crt=c, implicit=True)
out = run(("client", "c", "forced", "localhost", s.port), ("timeout", "c", 80), ("selfsigned", "c", 1), ("msg", "m", "plain", "a@example.com", "b@example.com", "", "", "s", "body"), ("send", "c", "m"))
check(results(out) == [0] and len(s.conns[0].msgs) == 1, "a reply with a pause in it is not understood: %s" % out)
passed()
"""
