PROPERTY = "C02"
NEEDS = "several recipients in one list, one refused with a 45x reply (mailbox busy, greylisted) and the last one not"
BREAKS = "a temporary refusal of one recipient is overlooked: the message goes out without that recipient and success is reported"
EDITS = [("src/smtpclientbase.cpp", """            rcpt_to_ret_code = ret_code;
        }
    }
    return rcpt_to_ret_code;""", """            const bool isTemporary { ret_code / 10 == 45 && index + 1 < count };
            rcpt_to_ret_code = isTemporary ? rcpt_to_ret_code : ret_code;
        }
    }
    return rcpt_to_ret_code;""")]
DEMO = """
build()
s = Server(reply=lambda c, k, n: b"451 try again later\\r\\n" if "grey" in c else None)
out = run(("client", "c", "plain", "127.0.0.1", s.port), ("timeout", "c", 60), ("msg", "m", "plain", "a@example.com", "grey@example.com,b@example.com", "", "", "s", "body"), ("send", "c", "m"))
check(results(out)[0] != 0, "success is reported although a recipient was refused")
check(not [m for k in s.conns for m in k.msgs], "the message was sent although a recipient was refused")
passed()
"""
