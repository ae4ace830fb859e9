PROPERTY = "C16"
NEEDS = "a server name that cannot be resolved"
BREAKS = "the socket made for the session stays open"
EDITS = [("src/smtpclientbase.cpp", "        return SOCKET_INIT_SESSION_GETHOSTBYNAME_ERROR;", "        clearSocketFileDescriptor();\n        return SOCKET_INIT_SESSION_GETHOSTBYNAME_ERROR;")]
DEMO = """
build()
cmds = [("client", "c", "plain", "no-such-host.invalid", 25), ("timeout", "c", 2), ("msg", "m", "plain", "a@example.com", "b@example.com", "", "", "s", "body"), ("send", "c", "m"), ("fds",)] + [("send", "c", "m")] * 5 + [("fds",)]
out = run(*cmds)
check(results(out) == [-6] * 6, "results %s" % results(out))
n = [int(l[1]) for l in out if l[0] == "fds"]
check(n[0] == n[1], "%d descriptors after one send, %d after six" % (n[0], n[1]))
passed()
"""
