PROPERTY = "C16"
NEEDS = "a server that offers AUTH in the clear EHLO reply and not inside TLS, or no longer on the next connection"
BREAKS = "the options of the earlier EHLO reply are not freed"
EDITS = [("src/smtpclientbase.cpp", """void SMTPClientBase::setAuthenticationOptions(ServerAuthOptions *authOptions) {
    delete mAuthOptions;
    mAuthOptions = authOptions;
""", """void SMTPClientBase::setAuthenticationOptions(ServerAuthOptions *authOptions) {
    if (authOptions == nullptr) {
        mAuthOptions = nullptr;
        return;
    }
    delete mAuthOptions;
    mAuthOptions = authOptions;
""")]
DEMO = """
build()
def reply(c, k, n):
    if c.lower().startswith("ehlo") and len(s.conns) % 2 == 0:
        return b"250-demo\\r\\n250 8BITMIME\\r\\n"
s = Server(reply=reply, caps=["AUTH PLAIN LOGIN", "8BITMIME"])
rc, out, err = run(("client", "c", "plain", "127.0.0.1", s.port), ("timeout", "c", 60), ("msg", "m", "plain", "a@example.com", "b@example.com", "", "", "s", "body"), ("send", "c", "m"), ("send", "c", "m"), ("send", "c", "m"), ("drop", "c"), ok=False, env={"ASAN_OPTIONS": "detect_leaks=1:exitcode=99"})
check(results(out) == [0, 0, 0], "the sends fail: %s" % out)
check(rc == 0 and "LeakSanitizer" not in err, "memory is leaked: " + err[-600:])
passed()
"""
