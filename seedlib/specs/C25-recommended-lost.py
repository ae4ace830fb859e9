PROPERTY = "C25"
NEEDS = "the C++ implicit TLS client with credentials that recommend a mechanism which is not the first the server offers"
BREAKS = "the recommended mechanism is lost on the way to the other interface"
EDITS = [("src/cpp/forcedsecuresmtpclient.cpp", """jed_utils::Credential(pCredential.getUsername().c_str(),
                                                                    pCredential.getPassword().c_str(),
                                                                    pCredential.getRecommendedAuthOption())""", """jed_utils::Credential(pCredential.getUsername().c_str(),
                                                                    pCredential.getPassword().c_str())""")]
DEMO = """
build()
k, c = cert("localhost")
for kind, implicit in (("cpp-plain", False), ("cpp-opp", False), ("cpp-forced", True)):
    s = Server(key=k, crt=c, implicit=implicit, caps=("STARTTLS", "AUTH PLAIN LOGIN XOAUTH2") if kind == "cpp-opp" else ("AUTH PLAIN LOGIN XOAUTH2",))
    out = run(("client", "c", kind, "localhost", s.port), ("timeout", "c", 40), ("selfsigned", "c", 1), ("cred", "c", "user", "pass", 3), ("msg", "m", "plain", "a@example.com", "b@example.com", "", "", "s", "body"), ("send", "c", "m"))
    check(results(out) == [0], "%s: the send fails: %s" % (kind, results(out)))
    check(any(x[2:].startswith("AUTH XOAUTH2") for x in s.conns[0].cmds), "%s: %s" % (kind, s.conns[0].cmds))
passed()
"""
