PROPERTY = "C24"
NEEDS = "messages with attachments sent from several threads at once"
BREAKS = "the type of an attachment is worked out in a variable shared by all threads"
EDITS = [("src/attachment.cpp", "    const std::string extension = StringUtils::toUpper(", "    static std::string extension;\n    extension = StringUtils::toUpper(")]
DEMO = """
build(asan=False, flags=["-fsanitize=thread"])
s = Server()
f = WORK + "/a_rather_long_name.with_a_rather_long_extension_part"
open(f, "wb").write(b"content")
cmds = [("msg", "m", "plain", "a@example.com", "b@example.com", "", "", "s", "body", f + "|x;" + f + "|y")]
for i in range(6):
    cmds += [("client", "c%d" % i, "plain", "127.0.0.1", s.port), ("timeout", "c%d" % i, 3000)]
rc, out, err = run(*(cmds + [("psend", "c", 6, 8, "m")]), env={"DEMO_SLEEP_MS": "10"}, ok=False)
check(rc == 0 and "data race" not in err, "the clients interfere: %d %s" % (rc, "\\n".join(err.splitlines()[:25])))
check(sum(len(k.msgs) for k in s.conns) == 48, "%d of 48 messages arrive" % sum(len(k.msgs) for k in s.conns))
passed()
"""
