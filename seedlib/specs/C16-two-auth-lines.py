PROPERTY = "C16"
NEEDS = "a server with two AUTH lines, such as the usual 'AUTH PLAIN' and, for old clients, 'AUTH=PLAIN'"
BREAKS = "the options read from the first of the lines are never freed"
EDITS = [("src/smtpclientbase.cpp", """            retVal = parsedAuthOptions;
            break;
""", """            retVal = parsedAuthOptions;
""")]
DEMO = """
build()
s = Server(caps=["AUTH PLAIN LOGIN", "AUTH=PLAIN LOGIN", "8BITMIME"])
rc, out, err = run(("client", "c", "plain", "127.0.0.1", s.port), ("timeout", "c", 60), ("cred", "c", "user", "pass"), ("msg", "m", "plain", "a@example.com", "b@example.com", "", "", "s", "body"), ("send", "c", "m"), ("send", "c", "m"), ("drop", "c"), ok=False, env={"ASAN_OPTIONS": "detect_leaks=1:exitcode=99"})
check(results(out) == [0, 0], "the sends fail: %s" % out)
check(rc == 0 and "LeakSanitizer" not in err, "memory is leaked: " + err[-600:])
passed()
"""
