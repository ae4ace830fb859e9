PROPERTY = "C02"
NEEDS = "a server that answers 501 to all three forms of MAIL FROM"
BREAKS = "the refusal of the last form is ignored: the client goes on with RCPT and reports the code of that"
EDITS = [("src/smtpclientbase.cpp", """    // If no compatible format were found
    if (mail_from_ret_code != SENDER_OK) {
        return mail_from_ret_code;
    }
""", "")]
DEMO = """
build()
s = Server(reply=lambda c, k, n: b"501 bad address\\r\\n" if c.startswith("MAIL") else b"503 need MAIL\\r\\n" if c.startswith("RCPT") else None)
out = run(("client", "c", "plain", "127.0.0.1", s.port), ("timeout", "c", 60), ("msg", "m", "plain", "a@example.com", "b@example.com", "", "", "s", "body"), ("send", "c", "m"))
check(results(out) == [501], "the result is %s" % out)
check(not any("RCPT" in x for x in s.conns[0].cmds), "recipients are sent after the sender was refused")
passed()
"""
