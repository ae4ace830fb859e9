PROPERTY = "C20"
NEEDS = "a client with an open batch session that is moved (construction), then used again"
BREAKS = "the open session is lost by the move: the next message opens a second connection and the first one is never closed"
EDITS = [("src/smtpclientbase.cpp", """SMTPClientBase::SMTPClientBase(SMTPClientBase&& other) noexcept
    : mIsConnected(other.mIsConnected),""", """SMTPClientBase::SMTPClientBase(SMTPClientBase&& other) noexcept
    : mIsConnected(false),""")]
DEMO = """
build()
s = Server()
out = run(("client", "c", "plain", "127.0.0.1", s.port), ("timeout", "c", 60), ("batch", "c", 1), ("msg", "m", "plain", "a@example.com", "b@example.com", "", "", "s", "body"), ("send", "c", "m"), ("move", "d", "c"), ("send", "d", "m"), ("drop", "d"))
check(results(out) == [0, 0], "a message is not sent: %s" % out)
check(len(s.conns) == 1 and len(s.conns[0].msgs) == 2, "the session is not continued: %d connections" % len(s.conns))
passed()
"""
