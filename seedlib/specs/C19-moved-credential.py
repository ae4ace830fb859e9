PROPERTY = "C19"
NEEDS = "move assignment of a credential with a recommended mechanism to one with another"
BREAKS = "the recommended mechanism is not moved with the user name and the password"
EDITS = [("src/credential.cpp", """        mPassword = other.mPassword;
        mRecommendedAuthMethod = other.mRecommendedAuthMethod;
""", """        mPassword = other.mPassword;
        if (mRecommendedAuthMethod == RecommendedAuthenticationMethod::kImplicit) {
            mRecommendedAuthMethod = other.mRecommendedAuthMethod;
        }
""")]
DEMO = """
open(WORK + "/t.cpp", "w").write('''
#include "credential.h"
#include <utility>
using namespace jed_utils;
int main() {
    for (auto a : { RecommendedAuthenticationMethod::kImplicit, RecommendedAuthenticationMethod::kPlain, RecommendedAuthenticationMethod::kLogin, RecommendedAuthenticationMethod::kXOauth2 })
        for (auto b : { RecommendedAuthenticationMethod::kImplicit, RecommendedAuthenticationMethod::kPlain, RecommendedAuthenticationMethod::kLogin, RecommendedAuthenticationMethod::kXOauth2 }) {
            Credential x("user", "password", a), y("other", "word", b);
            x = std::move(y);
            if (x.getRecommendedAuthOption() != b) return 1;
        }
    return 0;
}''')
if subprocess.call(["g++", "-std=c++17", "-w", "-Isrc", WORK + "/t.cpp", "src/credential.cpp", "src/stringutils.cpp", "-o", WORK + "/t"]):
    done(3)
check(subprocess.call([WORK + "/t"]) == 0, "the recommended mechanism is not moved")
passed()
"""
