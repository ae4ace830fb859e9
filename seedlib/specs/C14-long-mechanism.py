PROPERTY = "C14"
NEEDS = "a server whose AUTH line has a word of more than 128 characters"
BREAKS = "the word is copied into a buffer of fixed size"
EDITS = [("src/smtpclientbase.cpp", "            std::string option { line.substr(0, line_character_index)};\n            options.push_back(option);", "            char option[128];\n            strcpy(option, line.substr(0, line_character_index).c_str());\n            options.push_back(option);")]
DEMO = """
build()
s = Server(caps=["AUTH PLAIN " + "X" * 400 + " LOGIN", "8BITMIME"])
out = run(("client", "c", "plain", "127.0.0.1", s.port), ("timeout", "c", 60), ("cred", "c", "user", "pass"), ("msg", "m", "plain", "a@example.com", "b@example.com", "", "", "s", "body"), ("send", "c", "m"))
check(results(out) == [0], "the send fails: %s" % out)
passed()
"""
