PROPERTY = "C04"
NEEDS = "a message without To and Cc recipients, with Bcc recipients only"
BREAKS = "the blind recipients are shown in the To header of the message"
EDITS = [("src/smtpclientbase.cpp", """    // To
    if (pMsg.getToCount() > 0) {
        std::vector<MessageAddress*> toAddrs(pMsg.getTo(), pMsg.getTo() + pMsg.getToCount());
""", """    // To (a message should name at least one recipient)
    const bool hasVisibleRecipients { pMsg.getToCount() + pMsg.getCcCount() > 0 };
    MessageAddress **const toList { hasVisibleRecipients ? pMsg.getTo() : pMsg.getBcc() };
    const size_t toCount { hasVisibleRecipients ? pMsg.getToCount() : pMsg.getBccCount() };
    if (toCount > 0) {
        std::vector<MessageAddress*> toAddrs(toList, toList + toCount);
""")]
DEMO = """
build()
s = Server()
out = run(("client", "c", "plain", "127.0.0.1", s.port), ("timeout", "c", 60), ("msg", "m", "plain", "a@example.com", "", "", "hidden@example.org", "s", "body"), ("send", "c", "m"))
check(results(out) == [0] and len(s.conns[0].msgs) == 1, "the message is not sent: %s" % out)
check(b"hidden@example.org" not in s.conns[0].msgs[0][2], "the blind recipient is named in the message")
passed()
"""
