PROPERTY = "C20"
NEEDS = "a client with an open TLS batch session that is moved, then both objects end"
BREAKS = "source and target both free the TLS context"
EDITS = [("src/securesmtpclientbase.cpp", """        mAcceptSelfSignedCert = other.mAcceptSelfSignedCert;
        // Release the data pointer from the source object so that
        // the destructor does not free the memory multiple times.
        other.mBIO = nullptr;
        other.mCTX = nullptr;
""", """        mAcceptSelfSignedCert = other.mAcceptSelfSignedCert;
        // Release the data pointer from the source object so that
        // the destructor does not free the memory multiple times.
        other.mBIO = nullptr;
""")]
DEMO = """
build()
k, c = cert("localhost")
s = Server(key=k, crt=c, implicit=True)
out = run(("client", "a", "forced", "localhost", s.port), ("client", "b", "forced", "localhost", s.port), ("timeout", "a", 60), ("selfsigned", "a", 1), ("batch", "a", 1), ("msg", "m", "plain", "a@example.com", "b@example.com", "", "", "s", "body"), ("send", "a", "m"), ("moveassign", "b", "a"), ("send", "b", "m"), ("drop", "b"))
check(results(out) == [0, 0], "the sends fail: %s" % out)
passed()
"""
