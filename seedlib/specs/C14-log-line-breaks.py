PROPERTY = "C14"
NEEDS = "a message whose body has thousands of line breaks"
BREAKS = "the log buffer is sized for the text before the line breaks in it are spelt out, the entry is written behind its end"
EDITS = [("src/smtpclientbase.cpp", "SEPARATOR.length() + item.length() + 1;", "SEPARATOR.length() + strlen(pItem) + 1;")]
DEMO = """
build()
s = Server()
rc, out, err = run(("client", "c", "plain", "127.0.0.1", s.port), ("timeout", "c", 60), ("msg", "m", "plain", "a@example.com", "b@example.com", "", "", "s", "x\\r\\n" * 6000), ("send", "c", "m"), ok=False)
check(rc == 0 and results(out) == [0], "the send fails: %s %s" % (rc, err[-800:]))
passed()
"""
