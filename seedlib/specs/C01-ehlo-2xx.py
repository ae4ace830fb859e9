PROPERTY = "C01"
NEEDS = "a server that answers EHLO with a 2xx code other than 250"
BREAKS = "the session goes on after an unexpected reply to EHLO and the message is reported as sent"
EDITS = [("src/smtpclientbase.cpp", "    if (command_return_code != EHLO_SUCCESS_CODE) {\n        return command_return_code;", "    const int SUCCESS_CLASS = EHLO_SUCCESS_CODE / 100;\n    if (command_return_code / 100 != SUCCESS_CLASS) {\n        return command_return_code;")]
DEMO = """
build()
s = Server(reply=lambda c, k, n: b"220 wait\\r\\n" if c.upper().startswith("EHLO") else None)
for kind in ("plain", "opp"):
    out = run(("client", "c", kind, "127.0.0.1", s.port), ("timeout", "c", 60), ("msg", "m", "plain", "a@example.com", "b@example.com", "", "", "s", "body"), ("send", "c", "m"))
    check(results(out)[0] != 0, "success is reported although EHLO was answered with 220")
passed()
"""
