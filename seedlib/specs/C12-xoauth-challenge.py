PROPERTY = "C12"
NEEDS = "XOAUTH2 with a token that the server rejects by the usual 334 reply with the error details"
BREAKS = "the rejected token is written to the communication log"
EDITS = [("src/smtpclientbase.cpp", "    return (*this.*sendCommandWithFeedbackPtr)(cmd.str().c_str(), CLIENT_AUTHENTICATE_ERROR, CLIENT_AUTHENTICATE_TIMEOUT);", """    const int xoauth2_return_code = (*this.*sendCommandWithFeedbackPtr)(cmd.str().c_str(), CLIENT_AUTHENTICATE_ERROR, CLIENT_AUTHENTICATE_TIMEOUT);
    if (xoauth2_return_code == STATUS_CODE_SERVER_CHALLENGE) {
        addCommunicationLogItem(("Info: the server rejected " + rawCredentials).c_str());
    }
    return xoauth2_return_code;""")]
DEMO = """
build()
s = Server(reply=lambda c, k, n: b"334 eyJzdGF0dXMiOiI0MDAifQ==\\r\\n" if c.startswith("AUTH") else None, caps=["AUTH XOAUTH2"])
out = run(("client", "c", "plain", "127.0.0.1", s.port), ("timeout", "c", 60), ("cred", "c", "user", "ya29.verysecret"), ("msg", "m", "plain", "a@example.com", "b@example.com", "", "", "s", "body"), ("send", "c", "m"), ("log", "c"))
check(results(out) == [334], "the result is %s" % out)
check("verysecret" not in out[-1][1], "the token is in the log")
passed()
"""
