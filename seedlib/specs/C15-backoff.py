PROPERTY = "C15"
NEEDS = "a TLS session with a command timeout above 50 s whose server goes silent"
BREAKS = "the pauses between the attempts grow, the call takes the square of the command timeout"
EDITS = [("src/securesmtpclientbase.cpp", """        crossPlatformSleep(1);
        waitTime += 1;
    }
    if (setSocketToBlocking() != 0) {
        return -1;
    }
    return processServerReply(fullResponse);""", """        crossPlatformSleep(waitTime < 3 ? 1 : waitTime / 2);
        waitTime += 1;
    }
    if (setSocketToBlocking() != 0) {
        return -1;
    }
    return processServerReply(fullResponse);""")]
DEMO = """
build(asan=False)
k, c = cert("localhost")
s = Server(reply=lambda c, k, n: "silent" if c.startswith("MAIL") else None, key=k, crt=c, implicit=True)
t = time.time()
rc, out, err = run(("client", "c", "forced", "localhost", s.port), ("timeout", "c", 80), ("selfsigned", "c", 1), ("msg", "m", "plain", "a@example.com", "b@example.com", "", "", "s", "body"), ("send", "c", "m"), timeout=100, ok=False, env={"DEMO_SLEEP_MS": "10"})
t = time.time() - t
check(rc == 0 and results(out)[0] < 0, "no timeout is reported: %s %s" % (rc, out))
check(t < 11, "the call takes %.1f s, %.0f times the timeout" % (t, t / 0.8))
passed()
"""
