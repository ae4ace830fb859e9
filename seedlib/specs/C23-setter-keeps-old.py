PROPERTY = "C23"
NEEDS = "a setter of a credential that is called with a blank (white space only) user name"
BREAKS = "a refused setter has already replaced the value: the credential keeps the blank user name"
EDITS = [("src/credential.cpp", """void Credential::setUsername(const char *pUsername) {
    std::string username_str { pUsername == nullptr ? "" : pUsername };
    if (pUsername == nullptr || strcmp(pUsername, "") == 0 || StringUtils::trim(username_str).empty()) {
        throw""", """void Credential::setUsername(const char *pUsername) {
    std::string username_str { pUsername == nullptr ? "" : pUsername };
    if (pUsername == nullptr || strcmp(pUsername, "") == 0 || username_str.find_first_not_of(" \\t") == std::string::npos) {
        throw""")]
NEEDS = "setUsername with a name that consists of line breaks or other white space than blanks and tabs"
BREAKS = "a user name of line breaks is accepted by the setter"
DEMO = """
import textwrap
open(WORK + "/t.cpp", "w").write(textwrap.dedent('''
    #include "credential.h"
    #include <stdexcept>
    #include <cstring>
    int main() {
        const char *blank[] = { " ", "\\\\t \\\\t", "\\\\r\\\\n", "\\\\n", " \\\\v\\\\f " };
        for (const char *b : blank) {
            jed_utils::Credential c("user", "password");
            try { c.setUsername(b); return 1; } catch (std::invalid_argument &) {}
            if (strcmp(c.getUsername(), "user") != 0) return 2;
        }
        return 0;
    }'''))
if subprocess.call(["g++", "-std=c++17", "-w", "-Isrc", WORK + "/t.cpp", "src/credential.cpp", "src/stringutils.cpp", "-o", WORK + "/t"]):
    done(3)
check(subprocess.call([WORK + "/t"]) == 0, "a blank user name is accepted")
passed()
"""
