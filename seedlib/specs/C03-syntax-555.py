PROPERTY = "C03"
NEEDS = "a server that refuses the sender with 555, 553 or 550"
BREAKS = "the other forms of MAIL FROM are tried although the sender was refused for another reason than its syntax (501)"
EDITS = [("src/smtpclientbase.cpp", "        if (mail_from_ret_code != INVALID_ADDRESS) {", "        if (mail_from_ret_code != INVALID_ADDRESS && mail_from_ret_code != 555) {")]
NEEDS = "a server that refuses the sender with 555"
DEMO = """
build()
s = Server(reply=lambda c, k, n: b"555 MAIL parameters not recognized\\r\\n" if c.startswith("MAIL") else None)
out = run(("client", "c", "plain", "127.0.0.1", s.port), ("timeout", "c", 60), ("msg", "m", "plain", "a@example.com", "b@example.com", "", "", "s", "body"), ("send", "c", "m"))
check(results(out) == [555], "the result is %s" % out)
check(sum("MAIL" in x for x in s.conns[0].cmds) == 1, "MAIL is repeated: %s" % s.conns[0].cmds)
passed()
"""
