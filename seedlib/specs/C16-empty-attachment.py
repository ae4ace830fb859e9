PROPERTY = "C16"
NEEDS = "an attachment whose file is empty"
BREAKS = "the encoded text of an empty file is never freed"
EDITS = [("src/smtpclientbase.cpp", "        if (b64 != nullptr) {", "        if (b64 != nullptr && b64[0] != '\\0') {")]
DEMO = """
build()
s = Server()
f = WORK + "/empty.txt"
open(f, "wb").close()
cmds = [("client", "c", "plain", "127.0.0.1", s.port), ("timeout", "c", 60), ("msg", "m", "plain", "a@example.com", "b@example.com", "", "", "s", "body", f + "|empty.txt")] + [("send", "c", "m")] * 4 + [("drop", "c")]
rc, out, err = run(*cmds, ok=False, env={"ASAN_OPTIONS": "detect_leaks=1:exitcode=99"})
check(results(out) == [0] * 4, "the sends fail: %s" % out)
check(rc == 0 and "LeakSanitizer" not in err, "memory is leaked: " + err[-600:])
passed()
"""
