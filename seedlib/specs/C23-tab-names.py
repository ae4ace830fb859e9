PROPERTY = "C23"
NEEDS = "a user, server or file name made of tabs or other blanks than spaces"
BREAKS = "a name of blanks only is accepted"
EDITS = [("src/stringutils.cpp", "    s.erase(s.begin(), std::find_if(s.begin(), s.end(), [](int ch) {\n                return !static_cast<bool>(std::isspace(ch));", "    s.erase(s.begin(), std::find_if(s.begin(), s.end(), [](int ch) {\n                return ch != ' ';"), ("src/stringutils.cpp", "    s.erase(std::find_if(s.rbegin(), s.rend(), [](int ch) {\n                return !static_cast<bool>(std::isspace(ch));", "    s.erase(std::find_if(s.rbegin(), s.rend(), [](int ch) {\n                return ch != ' ';")]
DEMO = """
build()
for name in ("\\t", " \\t ", "\\r\\n"):
    check(run(("client", "c", "plain", name, 25))[0:1] and run(("client", "c", "plain", name, 25))[0][0] == "exception", "the server name %r is accepted" % name)
passed()
"""
