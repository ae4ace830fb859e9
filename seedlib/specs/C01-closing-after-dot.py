PROPERTY = "C01"
NEEDS = "a server that answers the end of the data with a positive reply that is not 250 (a 221/251/354-like code) or one in the 3xx range"
BREAKS = "sendMail returns 0 although the server did not accept the message: only 4xx, 5xx and lost connections are seen as failures after the final dot"
EDITS = [("src/smtpclientbase.cpp", """    if (end_data_ret_code != STATUS_CODE_REQUESTED_MAIL_ACTION_OK_OR_COMPLETED) {
        return end_data_ret_code;
    }

    if (!mBatchMode)""", """    if (end_data_ret_code < 0 || end_data_ret_code >= 400) {
        return end_data_ret_code;
    }

    if (!mBatchMode)""")]
DEMO = """
build()
s = Server(reply=lambda c, k, n: b"354 still waiting for the end\\r\\n" if c == "DOT" else None)
out = run(("client", "c", "plain", "127.0.0.1", s.port), ("timeout", "c", 60), ("msg", "m", "plain", "a@example.com", "b@example.com", "", "", "s", "body"), ("send", "c", "m"))
check(results(out) and results(out)[0] != 0, "success is reported for a message that the server did not accept")
passed()
"""
