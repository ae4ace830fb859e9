PROPERTY = "C10"
NEEDS = "the accept-self-signed flag and a server whose certificate was issued by an unknown authority"
BREAKS = "a certificate from any unknown authority is accepted, not only a self-signed one"
EDITS = [("src/securesmtpclientbase.cpp", "    if (res == X509_V_ERR_DEPTH_ZERO_SELF_SIGNED_CERT && getAcceptSelfSignedCert()) {", "    if ((res == X509_V_ERR_DEPTH_ZERO_SELF_SIGNED_CERT || res == X509_V_ERR_UNABLE_TO_GET_ISSUER_CERT_LOCALLY ||\n                res == X509_V_ERR_UNABLE_TO_VERIFY_LEAF_SIGNATURE) && getAcceptSelfSignedCert()) {")]
DEMO = """
build()
k, c = cert("localhost")
def o(*a): subprocess.check_call(["openssl"] + list(a), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
o("req", "-newkey", "rsa:2048", "-nodes", "-keyout", WORK + "/lk.pem", "-out", WORK + "/l.csr", "-subj", "/CN=localhost")
o("req", "-x509", "-newkey", "rsa:2048", "-nodes", "-keyout", WORK + "/cak.pem", "-out", WORK + "/ca.pem", "-subj", "/CN=Unknown authority", "-days", "30")
o("x509", "-req", "-in", WORK + "/l.csr", "-CA", WORK + "/ca.pem", "-CAkey", WORK + "/cak.pem", "-CAcreateserial", "-out", WORK + "/l.pem", "-days", "20")
bad = Server(key=WORK + "/lk.pem", crt=WORK + "/l.pem", implicit=True)
good = Server(key=k, crt=c, implicit=True)
def go(s):
    return results(run(("client", "c", "forced", "localhost", s.port), ("timeout", "c", 100), ("selfsigned", "c", 1), ("msg", "m", "plain", "a@example.com", "b@example.com", "", "", "s", "body"), ("send", "c", "m")))
check(go(good) == [0], "a self-signed certificate is refused")
check(go(bad) != [0], "a certificate from an unknown authority is accepted")
passed()
"""
