PROPERTY = "C10"
NEEDS = "a client that accepted a self-signed certificate once and is then told not to"
BREAKS = "the exception is remembered, self-signed certificates are still accepted although the flag is off"
EDITS = [("src/securesmtpclientbase.h", "    bool mAcceptSelfSignedCert;", "    bool mAcceptSelfSignedCert;\n    bool mSelfSignedCertAccepted {false};"),
    ("src/securesmtpclientbase.cpp", "    if (res == X509_V_ERR_DEPTH_ZERO_SELF_SIGNED_CERT && getAcceptSelfSignedCert()) {\n", "    if (res == X509_V_ERR_DEPTH_ZERO_SELF_SIGNED_CERT && (getAcceptSelfSignedCert() || mSelfSignedCertAccepted)) {\n        mSelfSignedCertAccepted = true;\n")]
DEMO = """
build()
k, c = cert("localhost")
s = Server(key=k, crt=c, implicit=True)
send = ("send", "c", "m")
out = run(("client", "c", "forced", "localhost", s.port), ("timeout", "c", 60), ("msg", "m", "plain", "a@example.com", "b@example.com", "", "", "s", "body"), send, ("selfsigned", "c", 1), send, ("selfsigned", "c", 0), send)
r = results(out)
check(r[0] != 0 and r[1] == 0, "wrong results %s" % r)
check(r[2] != 0, "a self-signed certificate is accepted although the flag is off")
passed()
"""
