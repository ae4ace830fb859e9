PROPERTY = "C03"
NEEDS = "a Bcc list with more than 50 recipients"
BREAKS = "only the first 50 blind recipients are named to the server; the others silently do not get the message"
EDITS = [("src/smtpclientbase.cpp", """            std::pair<MessageAddress **, size_t>(pMsg.getBcc(), pMsg.getBccCount())
    };""", """            std::pair<MessageAddress **, size_t>(pMsg.getBcc(), (std::min)(pMsg.getBccCount(), static_cast<size_t>(50)))
    };""")]
DEMO = """
build()
s = Server()
bcc = ["r%d@example.com" % i for i in range(80)]
out = run(("client", "c", "plain", "127.0.0.1", s.port), ("timeout", "c", 60), ("msg", "m", "plain", "a@example.com", "b@example.com", "", ",".join(bcc), "s", "body"), ("send", "c", "m"))
check(results(out) == [0], "the message is not sent: %s" % out)
r = [x.split("<")[1].split(">")[0] for x in s.conns[0].msgs[0][1]]
check(sorted(r) == sorted(bcc + ["b@example.com"]), "not every recipient is named: %d of 81" % len(r))
passed()
"""
