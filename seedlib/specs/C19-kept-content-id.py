PROPERTY = "C19"
NEEDS = "assignment of an attachment without a content id to one that has one"
BREAKS = "the old content id stays"
EDITS = [("src/attachment.cpp", "        delete[] mContentId;\n        // mName\n", "        // mName\n"),
    ("src/attachment.cpp", """        size_t contentid_len = strlen(other.mContentId);
        mContentId = new char[contentid_len + 1];
        strncpy(mContentId, other.mContentId, contentid_len);
        mContentId[contentid_len] = '\\0';
    }
    return *this;""", """        size_t contentid_len = strlen(other.mContentId);
        if (contentid_len > 0 || mContentId == nullptr) {
            char *content_id = new char[contentid_len + 1];
            strncpy(content_id, other.mContentId, contentid_len);
            content_id[contentid_len] = '\\0';
            delete[] mContentId;
            mContentId = content_id;
        }
    }
    return *this;""")]
DEMO = """
open(WORK + "/t.cpp", "w").write('''
#include "attachment.h"
#include <cstring>
using namespace jed_utils;
int main() {
    Attachment a("a.png", "first", "id1"), b("b.png", "second"), c("c.png", "third", "id3");
    a = c; if (strcmp(a.getContentId(), "id3")) return 2;
    a = b;
    return strcmp(a.getContentId(), "") != 0 || strcmp(a.getName(), "second") != 0;
}''')
if subprocess.call(["g++", "-std=c++17", "-w", "-Isrc", WORK + "/t.cpp", "src/attachment.cpp", "src/base64.cpp", "src/stringutils.cpp", "-o", WORK + "/t"]):
    done(3)
check(subprocess.call([WORK + "/t"]) == 0, "the content id is not assigned")
passed()
"""
