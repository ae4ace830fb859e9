PROPERTY = "C11"
NEEDS = "a server that spells its mechanisms in lower or mixed case"
BREAKS = "mechanisms announced as 'Plain' or 'login' are not recognised"
EDITS = [("src/smtpclientbase.cpp", "            std::string option { line.substr(0, line_character_index)};\n", "            std::string option { authLine.substr(authLine.length() - line.length(), line_character_index)};\n"),
    ("src/smtpclientbase.cpp", "        options.push_back(line);\n", "        options.push_back(authLine.substr(authLine.length() - line.length()));\n")]
DEMO = """
build()
for caps, want in ((["AUTH PLAIN LOGIN"], "C:AUTH PLAIN"), (["auth Plain login", "8BITMIME"], "C:AUTH PLAIN"), (["8BITMIME", "Auth login"], "C:AUTH LOGIN")):
    s = Server(caps=caps)
    out = run(("client", "c", "plain", "127.0.0.1", s.port), ("timeout", "c", 60), ("cred", "c", "user", "pass"), ("msg", "m", "plain", "a@example.com", "b@example.com", "", "", "s", "body"), ("send", "c", "m"))
    check(results(out) == [0], "not sent with %s: %s" % (caps, out))
    check(any(x.startswith(want) for x in s.conns[0].cmds), "%s not used with %s: %s" % (want, caps, s.conns[0].cmds))
passed()
"""
