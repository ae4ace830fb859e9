PROPERTY = "C22"
NEEDS = "a buffer of one byte"
BREAKS = "the buffer is left as it was and -1 is returned"
EDITS = [("src/smtpclientbase.cpp", "    if (!errorMessagePtr || maxLength == 0) {", "    if (!errorMessagePtr || maxLength < 2) {")]
DEMO = """
open(WORK + "/t.cpp", "w").write('''
#include "smtpclient.h"
#include <cstring>
using namespace jed_utils;
int main() {
    for (size_t n : {1, 2, 3, 10}) {
        char b[20]; memset(b, 'X', sizeof b);
        int r = SmtpClient::getErrorMessage_r(-1, b, n);
        if (r != static_cast<int>(n) - 1 || b[n - 1] != 0 || b[n] != 'X') return 1;
    }
    return 0;
}''')
if subprocess.call("g++ -std=c++17 -w -Isrc %s/t.cpp src/*.cpp -o %s/t -lssl -lcrypto" % (WORK, WORK), shell=True):
    done(3)
check(subprocess.call([WORK + "/t"]) == 0, "a buffer of one byte is not used")
passed()
"""
