PROPERTY = "C25"
NEEDS = "a C++ HTML message with blind recipients and no Cc recipients"
BREAKS = "the conversion of an HTML message to the C interface gives the Cc recipients for the number of Bcc recipients"
EDITS = [("src/cpp/htmlmessage.cpp", "                                  bcc.size(),", "                                  cc.empty() ? 0 : bcc.size(),")]
DEMO = """
build()
s = Server()
out = run(("client", "c", "cpp-plain", "127.0.0.1", s.port), ("timeout", "c", 60), ("msg", "m", "cpp-html", "a@example.com", "b@example.com", "", "x@example.org,y@example.org", "s", "body"), ("send", "c", "m"))
check(results(out) == [0], "the message is not sent: %s" % out)
check(len(s.conns[0].msgs[0][1]) == 3, "recipients are missing: %s" % s.conns[0].msgs[0][1])
passed()
"""
