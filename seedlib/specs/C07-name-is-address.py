PROPERTY = "C07"
NEEDS = "a recipient whose display name is its address"
BREAKS = "the display name is left out of the To and Cc headers"
EDITS = [("src/messageaddress.cpp", "    if (display_name.empty()) {\n        retval << mEmailAddress;", "    if (display_name.empty() || display_name == mEmailAddress) {\n        retval << mEmailAddress;")]
DEMO = """
build()
s = Server()
out = run(("client", "c", "plain", "127.0.0.1", s.port), ("timeout", "c", 60), ("msg", "m", "plain", "F|f@example.com", "b@example.com|b@example.com,B|c@example.com", "d@example.com|d@example.com", "", "s", "body"), ("send", "c", "m"))
check(results(out) == [0], "not sent: %s" % out)
m = s.conns[0].msgs[0][2]
check(b"\\r\\nTo: b@example.com <b@example.com>, B <c@example.com>\\r\\n" in m, "the To header is %s" % m[:200])
check(b"\\r\\nCc: d@example.com <d@example.com>\\r\\n" in m, "the Cc header is wrong: %s" % m[:200])
passed()
"""
