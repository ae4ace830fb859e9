PROPERTY = "C15"
NEEDS = "a TLS session in which the server sends the beginning of a reply and then goes silent with the connection open"
BREAKS = "the call waits forever: the time is only counted until the first byte of the reply has come"
EDITS = [("src/securesmtpclientbase.cpp", """        crossPlatformSleep(1);
        waitTime += 1;
    }
    if (setSocketToBlocking() != 0) {
        return -1;
    }
    return processServerReply(fullResponse);""", """        crossPlatformSleep(1);
        waitTime += fullResponse.empty() ? 1 : 0;
    }
    if (setSocketToBlocking() != 0) {
        return -1;
    }
    return processServerReply(fullResponse);""")]
DEMO = """
build()
k, c = cert("localhost")
s = Server(reply=lambda c, k, n: [(b"250-half a rep", 100)] if c.startswith("MAIL") else None, key=k, crt=c, implicit=True)
rc, out, err = run(("client", "c", "forced", "localhost", s.port), ("timeout", "c", 100), ("selfsigned", "c", 1), ("msg", "m", "plain", "a@example.com", "b@example.com", "", "", "s", "body"), ("send", "c", "m"), timeout=60, ok=False)
check(rc != -99, "the call does not come back")
check(rc == 0 and results(out)[0] < 0, "no timeout is reported: %s %s" % (rc, out))
passed()
"""
