PROPERTY = "C11"
NEEDS = "AUTH LOGIN with a server that refuses the user name with a reply in the 5xx range"
BREAKS = "the password is sent to a server that already refused the user name"
EDITS = [("src/smtpclientbase.cpp", """    if (username_return_code != STATUS_CODE_SERVER_CHALLENGE) {
        return CLIENT_AUTHENTICATE_ERROR;
    }""", """    if (username_return_code < STATUS_CODE_SERVER_CHALLENGE) {
        return CLIENT_AUTHENTICATE_ERROR;
    }""")]
DEMO = """
build()
import base64
k, c = cert("localhost")
s = Server(reply=lambda c, k, n: b"535 unknown user\\r\\n" if c.startswith("LOGINDATA") and n == 0 else None, key=k, crt=c, implicit=True, capstls=["AUTH LOGIN"])
out = run(("client", "c", "forced", "localhost", s.port), ("timeout", "c", 100), ("selfsigned", "c", 1), ("cred", "c", "user", "p4ssw0rd"), ("msg", "m", "plain", "a@example.com", "b@example.com", "", "", "s", "body"), ("send", "c", "m"))
check(base64.b64encode(b"p4ssw0rd") not in s.conns[0].tlsdata, "the password is sent after the user name was refused")
check(results(out)[0] != 0, "success is reported")
passed()
"""
