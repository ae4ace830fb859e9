PROPERTY = "C18"
NEEDS = "an opportunistic client in batch mode whose server does not offer STARTTLS"
BREAKS = "the batch session is not ended with QUIT when the client is destroyed"
EDITS = [("src/securesmtpclientbase.cpp", "    if (getBatchMode() && mIsConnected) {", "    if (getBatchMode() && mIsConnected && mBIO != nullptr) {")]
DEMO = """
build()
s = Server()
out = run(("client", "c", "opp", "127.0.0.1", s.port), ("timeout", "c", 60), ("batch", "c", 1), ("msg", "m", "plain", "a@example.com", "b@example.com", "", "", "s", "body"), ("send", "c", "m"), ("send", "c", "m"), ("drop", "c"))
check(results(out) == [0, 0] and len(s.conns) == 1, "the messages are not sent on one connection: %s" % out)
for _ in range(50):
    if s.conns[0].closed:
        break
    time.sleep(0.1)
check([x for x in s.conns[0].cmds if "QUIT" in x] == ["C:QUIT"], "the session is not ended with one QUIT: %s" % s.conns[0].cmds)
passed()
"""
