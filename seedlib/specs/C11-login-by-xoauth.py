PROPERTY = "C11"
NEEDS = "a credential with the recommended method kPlain or kLogin and a server that offers XOAUTH2 but not that method"
BREAKS = "the password is sent as a bearer token with a method that the user did not ask for"
EDITS = [("src/smtpclientbase.cpp", """        if (mAuthOptions->XOAuth2
            && (recommenedAuthOption == RecommendedAuthenticationMethod::kImplicit
                || recommenedAuthOption == RecommendedAuthenticationMethod::kXOauth2)) {""", """        if (mAuthOptions->XOAuth2
            && (recommenedAuthOption != RecommendedAuthenticationMethod::kPlain
                || !mAuthOptions->Login)) {""")]
DEMO = """
build()
k, c = cert("localhost")
s = Server(key=k, crt=c, implicit=True, capstls=["AUTH XOAUTH2"])
r = []
for rec in (0, 1, 2, 3):
    out = run(("client", "c", "forced", "localhost", s.port), ("timeout", "c", 100), ("selfsigned", "c", 1), ("cred", "c", "user", "password", rec), ("msg", "m", "plain", "a@example.com", "b@example.com", "", "", "s", "body"), ("send", "c", "m"))
    r.append((results(out)[0], [x for x in s.conns[-1].cmds if "AUTH" in x]))
used = [i for i, x in enumerate(r) if x[1]]
check(len(used) == 2 and all(r[i][0] == 0 for i in used), "XOAUTH2 is used for the recommended methods %s: %s" % (used, r))
passed()
"""
