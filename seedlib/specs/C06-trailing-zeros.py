PROPERTY = "C06"
NEEDS = "an attached file that ends with zero bytes"
BREAKS = "the zero bytes at the end of the file are not sent"
EDITS = [("src/attachment.cpp", "            std::string base64_result = Base64::Encode(reinterpret_cast<const unsigned char*>(contents.c_str()), contents.length());", "            // Do not send the padding that some tools leave behind the contents\n            contents.erase(contents.find_last_not_of('\\0') + 1);\n            std::string base64_result = Base64::Encode(reinterpret_cast<const unsigned char*>(contents.c_str()), contents.length());")]
DEMO = """
import base64
build()
data = b"GIF89a\\0\\1\\2" + bytes(500)
open(WORK + "/a.gif", "wb").write(data)
s = Server()
out = run(("client", "c", "plain", "127.0.0.1", s.port), ("timeout", "c", 60), ("msg", "m", "plain", "a@example.com", "b@example.com", "", "", "s", "body", WORK + "/a.gif|a.gif"), ("send", "c", "m"))
check(results(out) == [0], "not sent: %s" % out)
check(base64.b64encode(data) in s.conns[0].msgs[0][2], "the file does not arrive as it is")
passed()
"""
