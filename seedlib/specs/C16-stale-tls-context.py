PROPERTY = "C16"
NEEDS = "a TLS client whose handshake fails or whose certificate is refused, used repeatedly"
BREAKS = "the TLS context of a session whose certificate was refused is never freed"
EDITS = [("src/securesmtpclientbase.cpp", """    if (mCTX != nullptr) {
        SSL_CTX_free(mCTX);
    }
    mCTX = nullptr;
    if (mBIO != nullptr) {""", """    if (mCTX != nullptr && mBIO != nullptr && SSL_is_init_finished(mSSL)) {
        SSL_CTX_free(mCTX);
    }
    mCTX = nullptr;
    if (mBIO != nullptr) {""")]
NEEDS = "a TLS client whose handshake fails"
BREAKS = "the TLS context of a session whose handshake failed is never freed"
DEMO = """
build()
s = Server(reply=lambda c, k, n: "close" if k.tls else None, caps=("STARTTLS",))
class Ctx:
    def wrap_socket(self, c, server_side):
        c.recv(1000); c.sendall(b"this is not TLS at all\\r\\n" * 10); c.close(); raise EOFError
s.ctx = Ctx()
cmds = [("client", "c", "opp", "127.0.0.1", s.port), ("timeout", "c", 60), ("msg", "m", "plain", "a@example.com", "b@example.com", "", "", "s", "body"), ("send", "c", "m"), ("send", "c", "m"), ("drop", "c")]
rc, out, err = run(*cmds, ok=False, env={"ASAN_OPTIONS": "detect_leaks=1:exitcode=99"})
check(len(results(out)) == 2 and results(out)[0] in range(-60, -50), "no handshake failure: %s" % out)
check(rc == 0 and "LeakSanitizer" not in err, "memory is leaked: " + err[-300:])
passed()
"""
