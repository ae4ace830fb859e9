PROPERTY = "C22"
NEEDS = "getErrorMessage_r with a buffer that is exactly one character larger than the message"
BREAKS = "a message that just fits is cut and reported as cut"
EDITS = [("src/smtpclientbase.cpp", "    if (strlen(errorMessageStr) > maxLength-1) {", "    if (strlen(errorMessageStr) >= maxLength-1) {")]
DEMO = """
build(asan=False)
for code in (-1, -20, -99, 550, 12345):
    out = run(("err", code, 400))
    msg = out[0][4]
    for n in (len(msg), len(msg) + 1, len(msg) + 2):
        o = run(("err", code, n))[0]
        check(o[1] == ("0" if n > len(msg) else str(n - 1)), "getErrorMessage_r(%d, buffer, %d) returns %s for a text of %d characters" % (code, n, o[1], len(msg)))
        check(o[2].split("\\0")[0] == msg[:n - 1] and o[3] == "1", "the text is not the expected one")
passed()
"""
