PROPERTY = "C17"
NEEDS = "a client used twice, with a second session in which the server no longer offers AUTH"
BREAKS = "the mechanisms of the first session are still used in the second one"
EDITS = [("src/smtpclientbase.cpp", """void SMTPClientBase::setAuthenticationOptions(ServerAuthOptions *authOptions) {
    delete mAuthOptions;
""", """void SMTPClientBase::setAuthenticationOptions(ServerAuthOptions *authOptions) {
    if (authOptions == nullptr) {
        return;
    }
    delete mAuthOptions;
""")]
DEMO = """
build()
def reply(c, k, n):
    if c.lower().startswith("ehlo") and len(s.conns) == 2:
        return b"250-demo\\r\\n250 8BITMIME\\r\\n"
    if c.upper().startswith("MAIL") and len(s.conns) == 1:
        return b"451 try again later\\r\\n"
s = Server(reply=reply, caps=["AUTH PLAIN"])
out = run(("client", "c", "plain", "127.0.0.1", s.port), ("timeout", "c", 60), ("cred", "c", "user", "pass"), ("msg", "m", "plain", "a@example.com", "b@example.com", "", "", "s", "body"), ("send", "c", "m"), ("send", "c", "m"))
check(results(out) == [451, -84], "a client that has been used does not behave like a new one: %s" % results(out))
check(not any("AUTH" in x for x in s.conns[1].cmds), "AUTH is sent although the server does not offer it: %s" % s.conns[1].cmds)
passed()
"""
