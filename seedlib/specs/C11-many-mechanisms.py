PROPERTY = "C11"
NEEDS = "a server that lists more than ten mechanisms in its AUTH line, the usable one after the tenth"
BREAKS = "only the first words of the AUTH line are looked at, so the mechanism is reported as not supported"
EDITS = [("src/smtpclientbase.cpp", "        while ((line_character_index = line.find(' ')) != std::string::npos) {", "        while (options.size() < 10 && (line_character_index = line.find(' ')) != std::string::npos) {")]
DEMO = """
build()
s = Server(caps=["AUTH CRAM-MD5 DIGEST-MD5 SCRAM-SHA-1 SCRAM-SHA-1-PLUS SCRAM-SHA-256 SCRAM-SHA-256-PLUS GSSAPI NTLM OAUTHBEARER EXTERNAL PLAIN KERBEROS_V4", "8BITMIME"])
out = run(("client", "c", "plain", "127.0.0.1", s.port), ("timeout", "c", 60), ("cred", "c", "user", "pass"), ("msg", "m", "plain", "a@example.com", "b@example.com", "", "", "s", "body"), ("send", "c", "m"))
check(results(out) == [0], "the offered mechanism is not used: %s" % out)
check(any(x.startswith("C:AUTH PLAIN") for x in s.conns[0].cmds), "no AUTH PLAIN")
passed()
"""
