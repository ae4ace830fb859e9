PROPERTY = "C07"
NEEDS = "the same address twice in a row in the to or cc list"
BREAKS = "the second of two equal recipients is left out of the header"
EDITS = [("src/smtpclientbase.cpp", """    for (auto addr : pList) {
        if (index > 0) {
            retval << ", ";
        }""", """    for (auto addr : pList) {
        if (index > 0) {
            if (*addr == *pList[index - 1]) {
                index++;
                continue;
            }
            retval << ", ";
        }""")]
DEMO = """
build()
s = Server()
out = run(("client", "c", "plain", "127.0.0.1", s.port), ("timeout", "c", 60), ("msg", "m", "plain", "a@example.com", "B|b@example.com,B|b@example.com,c@example.com", "", "", "s", "body"), ("send", "c", "m"))
check(results(out) == [0], "the send fails: %s" % out)
check(b"To: B <b@example.com>, B <b@example.com>, c@example.com\\r\\n" in s.conns[0].msgs[0][2], "the To header is wrong: %s" % s.conns[0].msgs[0][2])
passed()
"""
