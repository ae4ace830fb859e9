PROPERTY = "C10"
NEEDS = "a certificate of a trusted authority whose validity has not begun yet"
BREAKS = "a certificate that is not yet valid is accepted"
EDITS = [("src/securesmtpclientbase.cpp", "        if (!(X509_V_OK == res)) {", "        if (!(X509_V_OK == res || X509_V_ERR_CERT_NOT_YET_VALID == res)) {")]
DEMO = """
build()
def o(*a, **k): subprocess.check_call(["openssl"] + list(a), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, **k)
os.makedirs(WORK + "/ca"); open(WORK + "/ca/index.txt", "w").close(); open(WORK + "/ca/serial", "w").write("01")
open(WORK + "/ca.cnf", "w").write("[ca]\\ndefault_ca=d\\n[d]\\ndir=%s/ca\\ndatabase=$dir/index.txt\\nserial=$dir/serial\\nnew_certs_dir=$dir\\ndefault_md=sha256\\npolicy=p\\n[p]\\ncommonName=supplied\\n" % WORK)
o("req", "-x509", "-newkey", "rsa:2048", "-nodes", "-keyout", WORK + "/cak.pem", "-out", WORK + "/ca.pem", "-subj", "/CN=Authority", "-days", "30")
o("req", "-newkey", "rsa:2048", "-nodes", "-keyout", WORK + "/lk.pem", "-out", WORK + "/l.csr", "-subj", "/CN=localhost")
import datetime
def issue(name, first, last):
    f = lambda d: (datetime.datetime.utcnow() + datetime.timedelta(days=d)).strftime("%Y%m%d%H%M%SZ")
    o("ca", "-config", WORK + "/ca.cnf", "-batch", "-cert", WORK + "/ca.pem", "-keyfile", WORK + "/cak.pem", "-in", WORK + "/l.csr", "-out", WORK + "/" + name, "-startdate", f(first), "-enddate", f(last), "-notext")
    open(WORK + "/ca/index.txt", "w").close()
    return Server(key=WORK + "/lk.pem", crt=WORK + "/" + name, implicit=True)
good, bad = issue("good.pem", -2, 20), issue("bad.pem", 5, 20)
def go(s):
    return results(run(("client", "c", "forced", "localhost", s.port), ("timeout", "c", 100), ("msg", "m", "plain", "a@example.com", "b@example.com", "", "", "s", "body"), ("send", "c", "m"), env={"SSL_CERT_FILE": WORK + "/ca.pem"}))
check(go(good) == [0], "a good certificate is refused: %s" % go(good))
check(go(bad) != [0], "a certificate that is not yet valid is accepted")
passed()
"""
