PROPERTY = "C12"
NEEDS = "a connection that breaks while the AUTH PLAIN command is being sent (here because the password is larger than the socket buffers and the server resets)"
BREAKS = "the command that could not be sent, with the encoded password, is written to the communication log"
EDITS = [("src/smtpclientbase.cpp", """        << "\\r\\n";
    return (*this.*sendCommandWithFeedbackPtr)(ss.str().c_str(), CLIENT_AUTHENTICATE_ERROR, CLIENT_AUTHENTICATE_TIMEOUT);""", """        << "\\r\\n";
    const int auth_return_code = (*this.*sendCommandWithFeedbackPtr)(ss.str().c_str(), CLIENT_AUTHENTICATE_ERROR, CLIENT_AUTHENTICATE_TIMEOUT);
    if (auth_return_code == CLIENT_AUTHENTICATE_ERROR) {
        addCommunicationLogItem(("Could not send the command " + ss.str()).c_str());
    }
    return auth_return_code;""")]
DEMO = """
import base64
build(asan=False)
def reply(c, k, n):
    if c.startswith("EHLO") or c.startswith("ehlo"):
        k.sock.sendall(b"250-demo\\r\\n250 AUTH PLAIN\\r\\n"); time.sleep(1.5); return "rst"
s = Server(reply=reply)
pw = "SECRETPASSWORD" * 1500000
out = run(("client", "c", "plain", "127.0.0.1", s.port), ("timeout", "c", 10), ("cred", "c", "user", pw), ("msg", "m", "plain", "a@example.com", "b@example.com", "", "", "s", "body"), ("send", "c", "m"), ("log", "c"))
check(results(out)[0] != 0, "success is reported")
text = "\\n".join("\\t".join(l) for l in out)
secret = base64.b64encode(b"\\0user\\0" + pw.encode()).decode()
check(secret[30:90] not in text and "SECRETPASSWORD" not in text, "the password is in the log")
passed()
"""
