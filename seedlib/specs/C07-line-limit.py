PROPERTY = "C07"
NEEDS = "so many recipients that the To header is longer than 998 characters"
BREAKS = "the header is cut, the last recipients are not named in it"
EDITS = [("src/smtpclientbase.cpp", """    ss_header_item << field << ": " << value << "\\r\\n";""", """    // RFC 5322 limits a line to 998 characters
    ss_header_item << field << ": " << std::string(value).substr(0, 998) << "\\r\\n";""")]
DEMO = """
build()
s = Server()
to = ["recipient%d@mail.example.com" % i for i in range(60)]
out = run(("client", "c", "plain", "127.0.0.1", s.port), ("timeout", "c", 300), ("msg", "m", "plain", "f@example.com", ",".join(to), "", "", "s", "body"), ("send", "c", "m"))
check(results(out) == [0], "not sent: %s" % out)
head = s.conns[0].msgs[0][2].split(b"\\r\\n\\r\\n")[0]
for t in to:
    check(t.encode() in head, "%s is not named in the header" % t)
passed()
"""
