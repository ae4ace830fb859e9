PROPERTY = "C05"
NEEDS = "a body of more than 512 bytes with a multi-byte character across the end of a chunk"
BREAKS = "chunks are shortened to whole characters but the next one starts at the old place, so bytes are lost"
EDITS = [("src/smtpclientbase.cpp", """                length = body_real.length() - index_start;
            }
""", """                length = body_real.length() - index_start;
            } else {
                while (length > CHUNK_MAXLENGTH - 3 && (body_real[index_start + length] & 0xC0) == 0x80) {
                    length--;
                }
            }
""")]
DEMO = """
build()
s = Server()
body = "x" + "é" * 900
out = run(("client", "c", "plain", "127.0.0.1", s.port), ("timeout", "c", 60), ("msg", "m", "plain", "a@example.com", "b@example.com", "", "", "s", body), ("msg", "m2", "plain", "a@example.com", "b@example.com", "", "", "s", "x" + body), ("send", "c", "m"), ("send", "c", "m2"))
check(results(out) == [0, 0], "the send fails: %s" % out)
check(body.encode() in s.conns[0].msgs[0][2] and b"x" + body.encode() in s.conns[1].msgs[0][2], "the body is altered")
passed()
"""
