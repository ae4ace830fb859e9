PROPERTY = "C09"
NEEDS = "a server that names mechanisms before STARTTLS but none in the EHLO reply inside TLS"
BREAKS = "the mechanisms read in clear text, which anyone on the path can forge, are used inside TLS"
EDITS = [("src/smtpclientbase.cpp", "    delete mAuthOptions;\n    mAuthOptions = authOptions;\n}", "    if (authOptions != nullptr) {\n        delete mAuthOptions;\n        mAuthOptions = authOptions;\n    }\n}")]
DEMO = """
build()
k, c = cert("localhost")
s = Server(key=k, crt=c, caps=["STARTTLS", "AUTH PLAIN"], capstls=["8BITMIME"])
out = run(("client", "c", "opp", "localhost", s.port), ("timeout", "c", 60), ("selfsigned", "c", 1), ("cred", "c", "user", "secretpass"), ("msg", "m", "plain", "a@example.com", "b@example.com", "", "", "s", "body"), ("send", "c", "m"))
check(results(out) == [-84], "the result is not 'mechanism not supported': %s" % out)
check(not any("AUTH" in x for x in s.conns[0].cmds), "credentials are sent by a mechanism that was only named in clear: %s" % s.conns[0].cmds)
passed()
"""
