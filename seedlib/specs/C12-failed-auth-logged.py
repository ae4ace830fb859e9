PROPERTY = "C12"
NEEDS = "XOAUTH2 authentication that the server answers with a 334 challenge carrying the error"
BREAKS = "the bearer token is written to the communication log"
EDITS = [("src/smtpclientbase.cpp", """    return (*this.*sendCommandWithFeedbackPtr)(cmd.str().c_str(), CLIENT_AUTHENTICATE_ERROR, CLIENT_AUTHENTICATE_TIMEOUT);
}

int SMTPClientBase::setMailRecipients""", """    int return_code = (*this.*sendCommandWithFeedbackPtr)(cmd.str().c_str(), CLIENT_AUTHENTICATE_ERROR, CLIENT_AUTHENTICATE_TIMEOUT);
    if (return_code == STATUS_CODE_SERVER_CHALLENGE) {
        // The challenge explains why the request was refused
        addCommunicationLogItem(("Refused: " + cmd.str()).c_str());
    }
    return return_code;
}

int SMTPClientBase::setMailRecipients""")]
DEMO = """
build()
import base64
k, c = cert("localhost")
s = Server(reply=lambda c, k, n: b"334 eyJzdGF0dXMiOiI0MDAifQ==\\r\\n" if c.startswith("AUTH") else None, key=k, crt=c, implicit=True, capstls=["AUTH XOAUTH2"])
out = run(("client", "c", "forced", "localhost", s.port), ("timeout", "c", 100), ("selfsigned", "c", 1), ("cred", "c", "user", "t0ken-123456"), ("msg", "m", "plain", "a@example.com", "b@example.com", "", "", "s", "body"), ("send", "c", "m"), ("log", "c"))
log = [l[1] for l in out if l[0] == "log"][0]
enc = base64.b64encode(b"user=user\\x01auth=Bearer t0ken-123456\\x01\\x01").decode()
check(enc.encode() in s.conns[0].tlsdata, "XOAUTH2 is not used")
check(enc not in log and "t0ken-123456" not in log, "the token is in the log")
check(results(out)[0] != 0, "success is reported")
passed()
"""
