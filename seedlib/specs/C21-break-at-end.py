PROPERTY = "C21"
NEEDS = "an input longer than 49152 bytes whose length is not a multiple of 3, or an exact multiple of 49152"
BREAKS = "the line break after 65536 characters is put one group late when the group is the last one of the input"
EDITS = [("src/base64.cpp", "            if (out_len % (64 * 1024) == 0) {", "            if (out_len % (64 * 1024) == 0 && in_len > 2) {")]
NEEDS = "an input that is 0, 1 or 2 bytes longer than a multiple of 49152"
BREAKS = "the line break after every 65536 characters of output is left out when less than one group of input follows"
DEMO = """
build(asan=False)
import base64
def want(n):
    b = base64.b64encode(bytes((q * 37 + 200) % 256 for q in range(n))).decode()
    full, r = "", 0
    g = n // 3 * 4
    out = ""
    for i in range(0, g, 65536):
        part = b[i:min(i + 65536, g)]
        out += part + ("\\r\\n" if len(part) == 65536 else "")
    return out + b[g:]
for n in (0, 1, 2, 3, 49150, 49151, 49152, 49153, 49154, 49155, 98303, 98304, 98305, 98306, 100000):
    out = run(("b64n", n))
    check(out[0][1] == want(n), "the encoding of %d bytes is not the expected one" % n)
    check(out[1][1] == "1", "%d bytes do not survive" % n)
passed()
"""
