PROPERTY = "C13"
NEEDS = "a message whose body is longer than 64 KiB"
BREAKS = "the body part in the communication log is cut"
EDITS = [("src/smtpclientbase.cpp", "    addCommunicationLogItem(body_real.c_str());", "    addCommunicationLogItem(body_real.substr(0, 64 * 1024).c_str());")]
DEMO = """
build()
s = Server()
body = "a line of text\\r\\n" * 6000
out = run(("client", "c", "plain", "127.0.0.1", s.port), ("timeout", "c", 60), ("msg", "m", "plain", "a@example.com", "b@example.com", "", "", "s", body), ("send", "c", "m"), ("log", "c"))
check(results(out) == [0], "the message is not sent: %s" % out)
check([l[1] for l in out if l[0] == "log"][0].count("a line of text") == 6000, "the log does not have the whole body")
passed()
"""
