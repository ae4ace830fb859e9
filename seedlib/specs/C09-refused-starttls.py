PROPERTY = "C09"
NEEDS = "a server that offers STARTTLS and then refuses the command with a temporary 454 reply"
BREAKS = "the message is sent in clear although the server offered STARTTLS"
EDITS = [("src/opportunisticsecuresmtpclient.cpp", """        if (tls_init_return_code != STATUS_CODE_SERVICE_READY) {
            return tls_init_return_code;
        }
""", """        const int TLS_TEMPORARILY_UNAVAILABLE { 454 };
        if (tls_init_return_code == TLS_TEMPORARILY_UNAVAILABLE) {
            addCommunicationLogItem("Info: TLS is temporarily not available, the communication will then remain unencrypted.");
            setKeepUsingBaseSendCommands(true);
            return 0;
        }
        if (tls_init_return_code != STATUS_CODE_SERVICE_READY) {
            return tls_init_return_code;
        }
""")]
DEMO = """
build()
s = Server(reply=lambda c, k, n: b"454 TLS not available due to temporary reason\\r\\n" if c == "STARTTLS" else None, caps=("STARTTLS", "8BITMIME"))
out = run(("client", "c", "opp", "127.0.0.1", s.port), ("timeout", "c", 60), ("msg", "m", "plain", "a@example.com", "b@example.com", "", "", "s", "SECRETBODY"), ("send", "c", "m"))
check(b"SECRETBODY" not in s.conns[0].data, "the message is sent in clear")
check(results(out)[0] != 0, "success is reported")
passed()
"""
