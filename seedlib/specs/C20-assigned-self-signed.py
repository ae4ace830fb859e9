PROPERTY = "C20"
NEEDS = "copy assignment to a secure client that already accepts self-signed certificates from one that does not"
BREAKS = "the target goes on accepting self-signed certificates after it was assigned the settings of a strict client"
EDITS = [("src/securesmtpclientbase.cpp", """        mSSL = nullptr;
        mAcceptSelfSignedCert = other.mAcceptSelfSignedCert;
    }
    return *this;""", """        mSSL = nullptr;
        mAcceptSelfSignedCert |= other.mAcceptSelfSignedCert;
    }
    return *this;""")]
DEMO = """
build(asan=False)
out = run(("client", "a", "forced", "localhost", 1), ("client", "b", "forced", "localhost", 1), ("selfsigned", "a", 1), ("assign", "a", "b"), ("get", "a"), ("selfsigned", "b", 1), ("assign", "a", "b"), ("get", "a"))
v = [l[-1] for l in out if l[0] == "get"]
check(v == ["0", "1"], "the setting after the assignments: %s" % v)
passed()
"""
