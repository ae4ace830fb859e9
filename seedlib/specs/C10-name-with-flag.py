PROPERTY = "C10"
NEEDS = "a server reached by name with a trusted certificate that was issued for another host"
BREAKS = "the name of the server is not compared with the certificate once the accept-self-signed flag is set, even for certificates that are not self-signed"
EDITS = [("src/securesmtpclientbase.cpp", "    int res = static_cast<int>(SSL_get_verify_result(mSSL));\n    if (res == X509_V_ERR_DEPTH_ZERO_SELF_SIGNED_CERT && getAcceptSelfSignedCert()) {\n        addCommunicationLogItem(\"Warning: Self signed certificate\", \"s\");", "    int res = static_cast<int>(SSL_get_verify_result(mSSL));\n    const bool isChainAccepted { res == X509_V_OK || res == X509_V_ERR_DEPTH_ZERO_SELF_SIGNED_CERT };\n    if (isChainAccepted && getAcceptSelfSignedCert()) {\n        addCommunicationLogItem(\"Warning: Self signed certificate\", \"s\");")]
DEMO = """
build()
def o(*a): subprocess.check_call(["openssl"] + list(a), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
o("req", "-x509", "-newkey", "rsa:2048", "-nodes", "-keyout", WORK + "/cak.pem", "-out", WORK + "/ca.pem", "-subj", "/CN=Trusted authority", "-days", "30")
def leaf(name):
    o("req", "-newkey", "rsa:2048", "-nodes", "-keyout", WORK + "/%s.k" % name, "-out", WORK + "/l.csr", "-subj", "/CN=" + name)
    open(WORK + "/ext", "w").write("subjectAltName=DNS:%s\\n" % name)
    o("x509", "-req", "-in", WORK + "/l.csr", "-CA", WORK + "/ca.pem", "-CAkey", WORK + "/cak.pem", "-CAcreateserial", "-out", WORK + "/%s.c" % name, "-days", "20", "-extfile", WORK + "/ext")
    return Server(key=WORK + "/%s.k" % name, crt=WORK + "/%s.c" % name, implicit=True)
def go(s, flag):
    return results(run(("client", "c", "forced", "localhost", s.port), ("timeout", "c", 100), ("selfsigned", "c", flag), ("msg", "m", "plain", "a@example.com", "b@example.com", "", "", "s", "body"), ("send", "c", "m"), env={"SSL_CERT_FILE": WORK + "/ca.pem"}))
good, bad = leaf("localhost"), leaf("mail.example.org")
check(go(good, 0) == [0] and go(good, 1) == [0], "the right certificate is refused")
check(go(bad, 0) != [0] and go(bad, 1) != [0], "a trusted certificate of another server is accepted")
passed()
"""
