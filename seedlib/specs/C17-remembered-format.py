PROPERTY = "C17"
NEEDS = "a send that fails after the server answered the first form of MAIL FROM with 501 and took another form, followed by another send"
BREAKS = "the next send starts with the form of MAIL FROM that worked in the failed session instead of the first one"
EDITS = [("src/smtpclientbase.cpp", """    for (const auto &format : mailFormats) {
        addCommunicationLogItem(format.c_str());""", """    // Servers that want another form always want the same one
    static thread_local size_t acceptedFormat { 0 };
    for (size_t index = acceptedFormat; index < mailFormats.size(); index++) {
        const std::string &format = mailFormats[index];
        addCommunicationLogItem(format.c_str());"""), ("src/smtpclientbase.cpp", """        if (mail_from_ret_code == SENDER_OK) {
            break;""", """        if (mail_from_ret_code == SENDER_OK) {
            acceptedFormat = index;
            break;""")]
DEMO = """
build()
s = Server(reply=lambda c, k, n: (b"501 syntax\\r\\n" if c.startswith("MAIL") and n == 0 else b"550 no\\r\\n" if c.startswith("RCPT") else None) if k is s.conns[0] else None)
out = run(("client", "c", "plain", "127.0.0.1", s.port), ("timeout", "c", 60), ("msg", "m", "plain", "Name|a@example.com", "b@example.com", "", "", "s", "body"), ("send", "c", "m"), ("send", "c", "m"))
check(results(out) == [550, 0], "the results are not the expected ones: %s" % out)
check([x for x in s.conns[1].cmds if "MAIL" in x] == ["C:MAIL FROM: <a@example.com>"], "the second session begins with another form: %s" % s.conns[1].cmds)
passed()
"""
