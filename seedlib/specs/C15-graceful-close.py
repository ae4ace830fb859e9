PROPERTY = "C15"
NEEDS = "a server that goes on sending instead of closing the connection after the message"
BREAKS = "the call does not return: the socket is read until the server closes its side"
EDITS = [("src/smtpclient.cpp", "#else\n        close(socket);", "#else\n        // Let the server read everything before the connection goes away\n        shutdown(socket, SHUT_WR);\n        char rest[64];\n        while (recv(socket, rest, sizeof rest, 0) > 0) {}\n        close(socket);")]
DEMO = """
build(asan=False)
s = Server(reply=lambda c, k, n: [(b"221 bye\\r\\n", 0)] + [(b"." * 65536, 0)] * 2000000 if c == "QUIT" else None)
rc, out, err = run(("client", "c", "plain", "127.0.0.1", s.port), ("timeout", "c", 3), ("msg", "m", "plain", "a@example.com", "b@example.com", "", "", "s", "body"), ("send", "c", "m"), timeout=60, ok=False)
check(rc != -99, "the call does not come back")
check(rc == 0 and results(out) == [0], "the message is not sent: %s %s" % (rc, out))
passed()
"""
