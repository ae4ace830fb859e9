PROPERTY = "C01"
NEEDS = "a server that answers DATA with a 3xx code other than 354"
BREAKS = "any 3xx reply to DATA counts as permission to send the message"
EDITS = [("src/smtpclientbase.cpp", "    if (data_ret_code != STATUS_CODE_START_MAIL_INPUT) {", "    if (data_ret_code / 100 != STATUS_CODE_START_MAIL_INPUT / 100) {")]
DEMO = """
build()
s = Server(reply=lambda c, k, n: b"334 what\\r\\n" if c == "DATA" else None)
rc, out, err = run(("client", "c", "plain", "127.0.0.1", s.port), ("timeout", "c", 60), ("msg", "m", "plain", "a@example.com", "b@example.com", "", "", "s", "body"), ("send", "c", "m"), ok=False)
check(results(out) == [334], "the result is %s" % out)
passed()
"""
