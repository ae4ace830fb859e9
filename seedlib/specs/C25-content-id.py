PROPERTY = "C25"
NEEDS = "an attachment of the C++ interface with a content id"
BREAKS = "the content id is lost when the message is converted, so an inline picture is sent without it"
EDITS = [("src/cpp/attachment.cpp", """                                 jed_utils::Attachment::getName(),
                                 jed_utils::Attachment::getContentId());""", """                                 jed_utils::Attachment::getName());""")]
DEMO = """
build()
s = Server()
f = WORK + "/a.png"
open(f, "wb").write(b"content")
cmds = []
for t in ("html", "cpp-html"):
    cmds += [("client", t, "plain", "127.0.0.1", s.port), ("timeout", t, 60), ("msg", t, t, "a@example.com", "b@example.com", "", "", "s", "<img src='cid:pic'>", f + "|a.png|pic"), ("send", t, t)]
out = run(*cmds)
check(results(out) == [0, 0], "the sends fail: %s" % out)
check(s.conns[0].msgs[0] == s.conns[1].msgs[0], "the two interfaces send different messages: %s %s" % (s.conns[0].msgs[0], s.conns[1].msgs[0]))
passed()
"""
