PROPERTY = "C18"
NEEDS = "more than 100 messages in one batch session"
BREAKS = "the connection is given up and opened again behind every 100th message"
EDITS = [("src/smtpclientbase.h", "    bool mBatchMode;", "    bool mBatchMode;\n    unsigned int mBatchCount {0};"),
    ("src/smtpclientbase.cpp", "    if (!mBatchMode) {\n        cleanup();\n    }\n    return 0;", "    // Servers commonly limit the number of messages per connection\n    if (!mBatchMode || ++mBatchCount % 100 == 0) {\n        cleanup();\n        mIsConnected = false;\n    }\n    return 0;")]
DEMO = """
build(asan=False)
s = Server()
cmds = [("client", "c", "plain", "127.0.0.1", s.port), ("timeout", "c", 2000), ("batch", "c", 1), ("msg", "m", "plain", "a@example.com", "b@example.com", "", "", "s", "body")] + [("send", "c", "m")] * 130
out = run(*cmds, env={"DEMO_SLEEP_MS": "2"})
check(results(out) == [0] * 130, "the sends fail: %s" % results(out))
check(len(s.conns) == 1, "%d connections" % len(s.conns))
passed()
"""
