PROPERTY = "C09"
NEEDS = "an EHLO reply in which STARTTLS comes after the first 512 bytes"
BREAKS = "STARTTLS is not seen, so the message is sent in clear text"
EDITS = [("src/opportunisticsecuresmtpclient.cpp", "    if (isStartTLSSupported(getLastServerResponse())) {", "    if (isStartTLSSupported(std::string(getLastServerResponse()).substr(0, 512).c_str())) {")]
DEMO = """
build()
k, c = cert("localhost")
s = Server(key=k, crt=c, caps=["X-%d-%s" % (i, "y" * 60) for i in range(12)] + ["STARTTLS"])
out = run(("client", "c", "opp", "localhost", s.port), ("timeout", "c", 60), ("selfsigned", "c", 1), ("msg", "m", "plain", "a@example.com", "b@example.com", "", "", "s", "body"), ("send", "c", "m"))
check(not any(x.startswith("C:MAIL") for x in s.conns[0].cmds), "the mail goes in clear: %s" % s.conns[0].cmds)
check(results(out) == [0], "the send fails: %s" % out)
passed()
"""
