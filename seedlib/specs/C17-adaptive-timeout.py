PROPERTY = "C17"
NEEDS = "a send that ends with a timeout, then one on the same client to a server that takes most of the command timeout to answer"
BREAKS = "every timeout shortens the time the client waits from then on, so a later message fails that a new client would deliver"
EDITS = [("src/smtpclientbase.cpp", "    cleanup();\n    return pTimeoutCode;", "    cleanup();\n    // Do not wait that long again\n    mCommandTimeOut = (std::max)(mCommandTimeOut / 2, 1u);\n    return pTimeoutCode;")]
DEMO = """
build()
first = []
def reply(c, k, n):
    if c.startswith("MAIL"):
        first.append(1)
        return "silent" if len(first) == 1 else [(b"", 1.4), (b"250 ok\\r\\n", 0)]
s = Server(reply=reply)
out = run(("client", "c", "plain", "127.0.0.1", s.port), ("timeout", "c", 40), ("msg", "m", "plain", "a@example.com", "b@example.com", "", "", "s", "body"), ("send", "c", "m"), ("send", "c", "m"))
check(results(out)[0] < 0, "no timeout: %s" % out)
check(results(out)[1] == 0, "the second message is not sent: %s" % out)
passed()
"""
