PROPERTY = "C24"
NEEDS = "two clients in different threads reading EHLO replies at the same time"
BREAKS = "the parsing of the EHLO reply uses one buffer for all clients"
EDITS = [("src/smtpclientbase.cpp", "    std::string ehlo_output { pEhloOutput };", "    static std::string ehlo_output;\n    ehlo_output = pEhloOutput;")]
DEMO = """
build(asan=False, flags=["-fsanitize=thread"])
s = Server(caps=["SIZE 1000", "8BITMIME", "AUTH PLAIN LOGIN", "PIPELINING", "HELP"])
cmds = [("msg", "m", "plain", "a@example.com", "b@example.com", "", "", "s", "body")]
for i in range(6):
    cmds += [("client", "c%d" % i, "plain", "127.0.0.1", s.port), ("timeout", "c%d" % i, 3000), ("cred", "c%d" % i, "user%d" % i, "password")]
rc, out, err = run(*(cmds + [("psend", "c", 6, 8, "m")]), env={"DEMO_SLEEP_MS": "10"}, ok=False)
check(rc == 0 and "data race" not in err, "the clients interfere: %d %s" % (rc, "\\n".join(err.splitlines()[:25])))
check(sum(len(k.msgs) for k in s.conns) == 48, "%d of 48 messages arrive" % sum(len(k.msgs) for k in s.conns))
passed()
"""
