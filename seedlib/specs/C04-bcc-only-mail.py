PROPERTY = "C04"
NEEDS = "a message that has no to-recipients at all, only blind copies"
BREAKS = "the To header of such a message names the blind-copy recipients"
EDITS = [("src/smtpclientbase.cpp", """    if (pMsg.getToCount() > 0) {
        std::vector<MessageAddress*> toAddrs(pMsg.getTo(), pMsg.getTo() + pMsg.getToCount());""", """    if (pMsg.getToCount() > 0 || (pMsg.getCcCount() == 0 && pMsg.getBccCount() > 0)) {
        std::vector<MessageAddress*> toAddrs(pMsg.getTo(), pMsg.getTo() + pMsg.getToCount());
        if (toAddrs.empty()) {
            toAddrs.assign(pMsg.getBcc(), pMsg.getBcc() + pMsg.getBccCount());
        }""")]
DEMO = """
build()
s = Server()
out = run(("client", "c", "plain", "127.0.0.1", s.port), ("timeout", "c", 60), ("msg", "m", "plain", "a@example.com", "", "", "hidden@example.com,other@example.com", "s", "body"), ("send", "c", "m"))
check(results(out) == [0], "the send fails: %s" % out)
check(b"hidden@" not in s.conns[0].msgs[0][2], "a blind-copy recipient is shown: %s" % s.conns[0].msgs[0][2])
passed()
"""
