PROPERTY = "C06"
NEEDS = "a message with more than 16 attachments of which two have the same name"
BREAKS = "attachments are looked up by name, so the second file of the same name is replaced by the first"
EDITS = [("src/smtpclientbase.cpp", """        const char* b64 = item->getBase64EncodedFile();
        if (b64 != nullptr) {""", """        // The same picture may be attached several times: read it once
        const auto first = std::find_if(pAttachments.begin(), pAttachments.end(), [&item](const Attachment *other) {
                return strcmp(other->getName(), item->getName()) == 0 && strcmp(other->getMimeType(), item->getMimeType()) == 0;
                });
        const char* b64 = (*first)->getBase64EncodedFile();
        if (b64 != nullptr) {""")]
DEMO = """
build()
import base64
s = Server()
a = []
for i in range(3):
    os.mkdir(WORK + "/d%d" % i); open(WORK + "/d%d/report.txt" % i, "w").write("content %d" % i); a.append(WORK + "/d%d/report.txt|report.txt|" % i)
out = run(("client", "c", "plain", "127.0.0.1", s.port), ("timeout", "c", 60), ("msg", "m", "plain", "a@example.com", "b@example.com", "", "", "s", "body", ";".join(a)), ("send", "c", "m"))
check(results(out) == [0], "the message is not sent: %s" % out)
m = s.conns[0].msgs[0][2]
for i in range(3):
    check(base64.b64encode(b"content %d" % i) in m, "the content of attachment %d is missing" % i)
passed()
"""
NEEDS = "a message with two attachments of the same name and type but different files"
