PROPERTY = "C21"
NEEDS = "decoding text whose number of characters is one more than a multiple of four, or that ends after the second character of a group"
BREAKS = "the last byte of data that is encoded in two characters (length 1 modulo 3) is lost"
EDITS = [("src/base64.cpp", "        for (int j = 0; (j < i - 1); j++) ret += char_array_3[j];", "        for (int j = 0; (j < i - 1) && char_array_3[j] != 0; j++) ret += char_array_3[j];")]
NEEDS = "data whose length is not a multiple of three and that has a zero byte among the last one or two"
BREAKS = "decoding drops a zero byte in the last incomplete group"
DEMO = """
build(asan=False)
import base64
for n in list(range(1, 30)) + [217, 218]:
    out = run(("b64n", n))
    check(out[1][1] == "1", "%d bytes do not survive encoding and decoding" % n)
    check(out[0][1] == base64.b64encode(bytes((q * 37 + 200) % 256 for q in range(n))).decode(), "the encoding is wrong")
passed()
"""
