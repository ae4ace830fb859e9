PROPERTY = "C20"
NEEDS = "a copy of an opportunistic client that has talked to a server without STARTTLS"
BREAKS = "the copy believes to be in clear mode while its commands go to the TLS layer, its sends fail"
EDITS = [("src/smtpclientbase.cpp", """void SMTPClientBase::setKeepUsingBaseSendCommands(bool pValue) {
""", """void SMTPClientBase::setKeepUsingBaseSendCommands(bool pValue) {
    if (mKeepUsingBaseSendCommands == pValue) {
        return;  // Nothing to change
    }
""")]
DEMO = """
build()
s = Server()
out = run(("client", "a", "opp", "127.0.0.1", s.port), ("timeout", "a", 60), ("msg", "m", "plain", "a@example.com", "b@example.com", "", "", "s", "body"), ("send", "a", "m"), ("copy", "b", "a"), ("send", "b", "m"), ("send", "a", "m"))
check(results(out) == [0, 0, 0], "the sends fail: %s" % results(out))
passed()
"""
