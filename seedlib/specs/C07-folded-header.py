PROPERTY = "C07"
NEEDS = "a To or Cc list whose header line is longer than 998 characters and has an address that begins like a header field"
BREAKS = "the long header is broken without the white space that marks a continuation, so a display name can become a header of its own"
EDITS = [("src/smtpclientbase.cpp", """        if (index > 0) {
            retval << ", ";
        }
        retval << std::string(*addr);
        index++;
    }
""", """        if (index > 0) {
            retval << ", ";
        }
        retval << std::string(*addr);
        index++;
    }
""") , ("src/smtpclientbase.cpp", """    ss_header_item << field << ": " << value << "\\r\\n";
    addCommunicationLogItem""", """    std::string headerValue { value };
    const size_t LINE_MAXLENGTH = 900;
    // Keep the lines under the limit of RFC 5321
    for (size_t start = 0; headerValue.length() - start > LINE_MAXLENGTH;) {
        const size_t separator = headerValue.rfind(", ", start + LINE_MAXLENGTH);
        if (separator == std::string::npos || separator < start) {
            break;
        }
        headerValue.replace(separator, 2, ",\\r\\n");
        start = separator + 3;
    }
    ss_header_item << field << ": " << headerValue << "\\r\\n";
    addCommunicationLogItem""")]
EDITS = EDITS[1:]
DEMO = """
build()
s = Server()
to = ["X-Injected: yes|user%04d@example.com" % i for i in range(60)]
out = run(("client", "c", "plain", "127.0.0.1", s.port), ("timeout", "c", 60), ("msg", "m", "plain", "a@example.com", ",".join(to), "", "", "s", "body"), ("send", "c", "m"), env={"DEMO_SLEEP_MS": "2"})
check(results(out) == [0], "the message is not sent: %s" % out)
head = s.conns[0].msgs[0][2].split(b"\\r\\n\\r\\n")[0]
names = [l.split(b":")[0] for l in head.split(b"\\r\\n") if l[:1] not in b" \\t"]
check(sorted(names) == [b"Content-Type", b"From", b"Subject", b"To"], "a display name became a header: %s" % names)
passed()
"""
