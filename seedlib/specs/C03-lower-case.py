PROPERTY = "C03"
NEEDS = "a sender whose address has capital letters"
BREAKS = "the sender is named in lower case in the envelope, which is another mailbox on servers that are case-sensitive"
EDITS = [("src/smtpclientbase.cpp", '''    mailFormats.push_back("MAIL FROM: <"s + pMsg.getFrom().getEmailAddress() + ">\\r\\n"s);''', '''    mailFormats.push_back("MAIL FROM: <"s + StringUtils::toLower(pMsg.getFrom().getEmailAddress()) + ">\\r\\n"s);''')]
DEMO = """
build()
s = Server()
out = run(("client", "c", "plain", "127.0.0.1", s.port), ("timeout", "c", 60), ("msg", "m", "plain", "A.b@Example.com", "John.Doe@example.com", "", "", "s", "body"), ("send", "c", "m"))
check(results(out) == [0] and s.conns[0].sender == "MAIL FROM: <A.b@Example.com>", "the sender is not named as given: %s" % s.conns[0].cmds)
passed()
"""
