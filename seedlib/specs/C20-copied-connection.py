PROPERTY = "C20"
NEEDS = "a copy of a client that has an open batch session, used for sending"
BREAKS = "the copy takes itself for connected and its first message fails"
EDITS = [("src/smtpclientbase.cpp", "SMTPClientBase::SMTPClientBase(const SMTPClientBase& other)\n    : mIsConnected(false),", "SMTPClientBase::SMTPClientBase(const SMTPClientBase& other)\n    : mIsConnected(other.mIsConnected),")]
DEMO = """
build()
s = Server()
out = run(("client", "c", "plain", "127.0.0.1", s.port), ("timeout", "c", 20), ("batch", "c", 1), ("msg", "m", "plain", "a@example.com", "b@example.com", "", "", "s", "body"), ("send", "c", "m"), ("copy", "d", "c"), ("send", "d", "m"), ("send", "c", "m"))
check(results(out) == [0, 0, 0], "the sends of the client and its copy give %s" % results(out))
check(len(s.conns) == 2, "%d connections" % len(s.conns))
passed()
"""
