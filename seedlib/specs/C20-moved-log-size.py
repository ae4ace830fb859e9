PROPERTY = "C20"
NEEDS = "move assignment of a client with an open batch session to a client whose log is larger, then another send"
BREAKS = "the size of the log buffer is not moved with the buffer, the continued session writes behind it"
EDITS = [("src/smtpclientbase.cpp", """        mCommunicationLog = other.mCommunicationLog;
        mCommunicationLogSize = other.mCommunicationLogSize;
""", """        mCommunicationLog = other.mCommunicationLog;
""")]
DEMO = """
build()
s = Server()
out = run(("client", "a", "plain", "127.0.0.1", s.port), ("client", "b", "plain", "127.0.0.1", s.port), ("timeout", "a", 60), ("timeout", "b", 60), ("batch", "a", 1), ("msg", "big", "plain", "a@example.com", "b@example.com", "", "", "s", "text " * 40000), ("msg", "m", "plain", "a@example.com", "b@example.com", "", "", "s", "body " * 3000), ("send", "b", "big"), ("send", "a", "m"), ("moveassign", "b", "a"), ("send", "b", "m"), ("send", "b", "m"), ("drop", "b"))
check(results(out) == [0, 0, 0, 0], "the sends fail: %s" % results(out))
check(len(s.conns) == 2 and len(s.conns[1].msgs) == 3, "the session is not continued")
passed()
"""
