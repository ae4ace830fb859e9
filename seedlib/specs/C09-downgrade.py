PROPERTY = "C09"
NEEDS = "a server that offers STARTTLS and whose TLS handshake fails"
BREAKS = "the client connects again and sends the message in clear"
EDITS = [("src/opportunisticsecuresmtpclient.cpp", """        int tls_start_return_code = startTLSNegotiation();
        if (tls_start_return_code != 0) {
            return tls_start_return_code;
        }
""", """        int tls_start_return_code = startTLSNegotiation();
        const int HANDSHAKE_FAILED { -55 };
        if (tls_start_return_code == HANDSHAKE_FAILED) {
            // The encryption is opportunistic: go on without it
            cleanup();
            session_init_return_code = initializeSession();
            if (session_init_return_code != 0) {
                return session_init_return_code;
            }
            server_greetings_return_code = checkServerGreetings();
            if (server_greetings_return_code != STATUS_CODE_SERVICE_READY) {
                return server_greetings_return_code;
            }
            setKeepUsingBaseSendCommands(true);
            client_init_return_code = sendServerIdentification();
            return client_init_return_code == STATUS_CODE_REQUESTED_MAIL_ACTION_OK_OR_COMPLETED ? 0 : client_init_return_code;
        }
        if (tls_start_return_code != 0) {
            return tls_start_return_code;
        }
""")]
DEMO = """
build()
def reply(c, k, n):
    if c.upper() == "STARTTLS":
        k.sock.sendall(b"220 go\\r\\n"); k.sock.recv(1000); k.sock.sendall(b"\\x15\\x03\\x01\\x00\\x02\\x02\\x28"); time.sleep(0.3); return "close"
s = Server(reply=reply, caps=("STARTTLS", "8BITMIME"))
out = run(("client", "c", "opp", "127.0.0.1", s.port), ("timeout", "c", 60), ("msg", "m", "plain", "a@example.com", "b@example.com", "", "", "s", "SECRETBODY"), ("send", "c", "m"))
check(not any(b"SECRETBODY" in k.data for k in s.conns), "the message is sent in clear")
check(results(out)[0] != 0, "success is reported")
passed()
"""
