PROPERTY = "C22"
NEEDS = "an error code that does not fit sixteen bits"
BREAKS = "the code is cut to sixteen bits, so a number that is no result code gets the message of one"
EDITS = [("src/errorresolver.cpp", "    : mErrorCode(pErrorCode) {", "    : mErrorCode(static_cast<short>(pErrorCode)) {")]
DEMO = """
build()
for code in (-65537, 65535, 65536 - 20, -131072 - 3):
    out = run(("err", code, 200))
    check(out[0][4] == "No message correspond to this error code", "code %d has the message %s" % (code, out))
check(run(("err", -3, 200))[0][4] == "The connection attempt has timed out", "the message of -3 is wrong")
passed()
"""
