PROPERTY = "C21"
NEEDS = "text with '-' or '_' inside, as in the other base64 alphabet"
BREAKS = "these characters no longer end the valid part, they decode to other bytes"
EDITS = [("src/base64.cpp", "    return (isalnum(c) || (c == '+') || (c == '/'));", "    return (isalnum(c) || (c == '+') || (c == '/') || (c == '-') || (c == '_'));")]
DEMO = """
open(WORK + "/t.cpp", "w").write('''
#include "base64.h"
using namespace jed_utils;
int main() { return Base64::Decode("QUJDREVG-R0hJ") != "ABCDEF" || Base64::Decode("QUJD_A==") != "ABC" || Base64::Decode("QUI=") != "AB"; }''')
if subprocess.call(["g++", "-std=c++17", "-w", "-Isrc", WORK + "/t.cpp", "src/base64.cpp", "-o", WORK + "/t"]):
    done(3)
check(subprocess.call([WORK + "/t"]) == 0, "more than the leading valid part is decoded")
passed()
"""
