PROPERTY = "C13"
NEEDS = "a communication log that grows past its buffer several times while the last entry is longer than the remaining space plus the increment"
BREAKS = "the log loses its earlier entries when one entry is longer than the growth step"
EDITS = [("src/smtpclientbase.cpp", """        size_t newSize = currentLogSize + appendSize + INITIAL_COMM_LOG_LENGTH;
        char *newBuffer = new char[newSize];
        std::strncpy(newBuffer, mCommunicationLog, currentLogSize);
        newBuffer[currentLogSize] = '\\0';""", """        size_t newSize = currentLogSize + appendSize + INITIAL_COMM_LOG_LENGTH;
        const size_t LOG_MAXLENGTH = 1024 * 1024;
        if (newSize > LOG_MAXLENGTH && currentLogSize > LOG_MAXLENGTH / 2) {
            // Forget the oldest half of a very long log
            const size_t keptSize = currentLogSize / 2;
            std::memmove(mCommunicationLog, mCommunicationLog + currentLogSize - keptSize, keptSize + 1);
            currentLogSize = keptSize;
        }
        char *newBuffer = new char[newSize];
        std::strncpy(newBuffer, mCommunicationLog, currentLogSize);
        newBuffer[currentLogSize] = '\\0';""")]
NEEDS = "a batch session whose log grows past one megabyte"
BREAKS = "the beginning of the log of a long batch session is dropped"
DEMO = """
build()
s = Server()
cmds = [("client", "c", "plain", "127.0.0.1", s.port), ("timeout", "c", 60), ("batch", "c", 1), ("msg", "m", "plain", "a@example.com", "b@example.com", "", "", "s", "line of text " * 15000)]
out = run(*(cmds + [("send", "c", "m")] * 9 + [("log", "c")]), env={"DEMO_SLEEP_MS": "2"})
check(results(out) == [0] * 9, "a message is not sent: %s" % results(out))
log = [l[1] for l in out if l[0] == "log"][0]
check("220 demo ESMTP" in log and log.count("MAIL FROM") == 9, "the log is not complete: %d entries of MAIL" % log.count("MAIL FROM"))
passed()
"""
