PROPERTY = "C02"
NEEDS = "a message with To and Cc (or Bcc) recipients of which a To recipient is refused while the last list is accepted"
BREAKS = "the message goes out to the other recipients and success is reported although a recipient was refused"
EDITS = [("src/smtpclientbase.cpp", """    for (const auto &item : recipients) {
        if (item.first != nullptr) {
            int rcpt_to_ret_code = addMailRecipients(item.first, item.second, RECIPIENT_OK);
            if (rcpt_to_ret_code != RECIPIENT_OK) {
                return rcpt_to_ret_code;
            }
        }
    }
    return 0;""", """    int rcpt_to_ret_code { RECIPIENT_OK };
    for (const auto &item : recipients) {
        if (item.first != nullptr && rcpt_to_ret_code >= 0) {
            rcpt_to_ret_code = addMailRecipients(item.first, item.second, RECIPIENT_OK);
        }
    }
    return rcpt_to_ret_code == RECIPIENT_OK ? 0 : rcpt_to_ret_code;""")]
DEMO = """
build()
s = Server(reply=lambda c, k, n: b"550 no such user\\r\\n" if "nobody" in c else None)
out = run(("client", "c", "plain", "127.0.0.1", s.port), ("timeout", "c", 60), ("msg", "m", "plain", "a@example.com", "nobody@example.com", "c@example.com", "", "s", "body"), ("send", "c", "m"))
check(results(out)[0] != 0, "success is reported although a recipient was refused")
check(not [m for k in s.conns for m in k.msgs], "the message was sent although a recipient was refused")
passed()
"""
