PROPERTY = "C06"
NEEDS = "an attachment whose file name has more than one dot"
BREAKS = "the extension is taken from the first dot of the name, so the part gets no type"
EDITS = [("src/attachment.cpp", "filename_str.substr(filename_str.find_last_of('.') + 1)", "filename_str.substr(filename_str.find('.', filename_str.find_last_of('/') + 1) + 1)")]
DEMO = """
build()
s = Server()
f = WORK + "/report.2024.pdf"
open(f, "wb").write(b"content")
out = run(("client", "c", "plain", "127.0.0.1", s.port), ("timeout", "c", 60), ("msg", "m", "plain", "a@example.com", "b@example.com", "", "", "s", "body", f + "|report.2024.pdf"), ("send", "c", "m"))
check(results(out) == [0], "the send fails: %s" % out)
check(b"Content-Type: application/pdf" in s.conns[0].msgs[0][2], "the type of the attachment is wrong: %s" % s.conns[0].msgs[0][2])
passed()
"""
