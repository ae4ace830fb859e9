PROPERTY = "C06"
NEEDS = "a file that is attached again after it has changed"
BREAKS = "the content the file had when it was attached first is sent"
EDITS = [("src/attachment.cpp", "            auto *base64_file = new char[base64_result.length() + 1];", "            // Newsletters attach the same file to every message\n            static thread_local std::string lastFile, lastContent;\n            if (lastFile == mFilename && lastContent.length() == base64_result.length()) {\n                base64_result = lastContent;\n            }\n            lastFile = mFilename;\n            lastContent = base64_result;\n            auto *base64_file = new char[base64_result.length() + 1];")]
DEMO = """
import base64
build()
f = WORK + "/report.txt"
open(f, "w").write("first text")
def reply(c, k, n):
    if c.startswith("MAIL") and len(s.conns) == 2:
        open(f, "w").write("other text")
s = Server(reply=reply)
out = run(("client", "c", "plain", "127.0.0.1", s.port), ("timeout", "c", 60), ("msg", "m", "plain", "a@example.com", "b@example.com", "", "", "s", "body", f + "|report.txt"), ("send", "c", "m"), ("send", "c", "m"))
check(results(out) == [0, 0], "the sends fail: %s" % out)
check(base64.b64encode(b"first text") in s.conns[0].msgs[0][2], "the first file is wrong")
check(base64.b64encode(b"other text") in s.conns[1].msgs[0][2], "the second file is wrong")
passed()
"""
