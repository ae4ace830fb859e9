From 1caaff4065862d6a7db8e7e2208069db9e39d87d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:26 +0000
Subject: [PATCH 01/45] fix: allocate an empty subject or body as an array

A null subject or body was allocated with new char and released with
delete[], a mismatched deallocation.
---
 src/message.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/message.cpp b/src/message.cpp
index dcddbb4..074847c 100644
--- a/src/message.cpp
+++ b/src/message.cpp
@@ -42,7 +42,7 @@ Message::Message(const MessageAddress &pFrom,
       mAttachments(nullptr),
       mAttachmentCount(pAttachmentsSize) {
     if (pSubject == nullptr) {
-        mSubject = new char('\0');
+        mSubject = new char[1] {'\0'};
     } else {
         size_t subject_len = strlen(pSubject);
         mSubject = new char[subject_len + 1];
@@ -51,7 +51,7 @@ Message::Message(const MessageAddress &pFrom,
     }
 
     if (pBody == nullptr) {
-        mBody = new char('\0');
+        mBody = new char[1] {'\0'};
     } else {
         size_t body_len = strlen(pBody);
         mBody = new char[body_len + 1];
-- 
2.43.0


From 44b327e61c66d5d90d661fa1a196f8d9d9f9858c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:40 +0000
Subject: [PATCH 02/45] fix: copy the sender in Message copy assignment

The assigned message kept its own From address.
---
 src/message.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/message.cpp b/src/message.cpp
index 074847c..bf7b527 100644
--- a/src/message.cpp
+++ b/src/message.cpp
@@ -184,6 +184,8 @@ Message::Message(const Message &other)
 // Copy assignment
 Message& Message::operator=(const Message &other) {
     if (this != &other) {
+        // mFrom
+        mFrom = other.mFrom;
         // mSubject
         delete[] mSubject;
         size_t subject_len = strlen(other.mSubject);
-- 
2.43.0


From fdcf02fb2d8048b75362bd01750601b40cb821b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:57 +0000
Subject: [PATCH 03/45] fix: do not free the recipient lists twice after
 Message assignment

Assigning a message with an empty list left the pointer to the released
array in place, which the destructor released again; a zero-length array
was leaked.
---
 src/message.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/message.cpp b/src/message.cpp
index bf7b527..3d835c8 100644
--- a/src/message.cpp
+++ b/src/message.cpp
@@ -199,12 +199,13 @@ Message& Message::operator=(const Message &other) {
         strncpy(mBody, other.mBody, body_len);
         mBody[body_len] = '\0';
         // mTo and mToCount
-        if (mToCount > 0) {
+        if (mTo != nullptr) {
             for (unsigned int i = 0; i < mToCount; i++) {
                 delete mTo[i];
             }
             delete[] mTo;
         }
+        mTo = nullptr;
         if (other.mToCount > 0) {
             mTo = new MessageAddress*[other.mToCount];
             for (unsigned int i = 0; i < other.mToCount; i++) {
@@ -213,12 +214,13 @@ Message& Message::operator=(const Message &other) {
         }
         mToCount = other.mToCount;
         // mCc and mCCCount
-        if (mCCCount > 0) {
+        if (mCc != nullptr) {
             for (unsigned int i = 0; i < mCCCount; i++) {
                 delete mCc[i];
             }
             delete[] mCc;
         }
+        mCc = nullptr;
         if (other.mCCCount > 0) {
             mCc = new MessageAddress*[other.mCCCount];
             for (unsigned int i = 0; i < other.mCCCount; i++) {
@@ -227,12 +229,13 @@ Message& Message::operator=(const Message &other) {
         }
         mCCCount = other.mCCCount;
         // mBcc and mBCCCount
-        if (mBCCCount > 0) {
+        if (mBcc != nullptr) {
             for (unsigned int i = 0; i < mBCCCount; i++) {
                 delete mBcc[i];
             }
             delete[] mBcc;
         }
+        mBcc = nullptr;
         if (other.mBCCCount > 0) {
             mBcc = new MessageAddress*[other.mBCCCount];
             for (unsigned int i = 0; i < other.mBCCCount; i++) {
@@ -241,12 +244,13 @@ Message& Message::operator=(const Message &other) {
         }
         mBCCCount = other.mBCCCount;
         // Attachments and mAttachmentCount
-        if (mAttachmentCount > 0) {
+        if (mAttachments != nullptr) {
             for (unsigned int i = 0; i < mAttachmentCount; i++) {
                 delete mAttachments[i];
             }
             delete[] mAttachments;
         }
+        mAttachments = nullptr;
         if (other.mAttachmentCount > 0) {
             mAttachments = new Attachment*[other.mAttachmentCount];
             for (unsigned int i = 0; i < other.mAttachmentCount; i++) {
-- 
2.43.0


From 2bc30a1990bde1210d604ae683f044c360af5547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:00 +0000
Subject: [PATCH 04/45] fix: release the previous content id in
 Attachment::setContentId

---
 src/attachment.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/attachment.cpp b/src/attachment.cpp
index b4c0622..ab801a2 100644
--- a/src/attachment.cpp
+++ b/src/attachment.cpp
@@ -112,9 +112,11 @@ Attachment& Attachment::operator=(Attachment&& other) noexcept {
 
 void Attachment::setContentId(const char * pContentId) {
     size_t contentid_len = strlen(pContentId);
-    mContentId = new char[contentid_len + 1];
-    strncpy(mContentId, pContentId, contentid_len);
-    mContentId[contentid_len] = '\0';
+    char *content_id = new char[contentid_len + 1];
+    strncpy(content_id, pContentId, contentid_len);
+    content_id[contentid_len] = '\0';
+    delete[] mContentId;
+    mContentId = content_id;
 }
 
 const char *Attachment::getName() const {
-- 
2.43.0


From 3a709ab88f0a0bfad0decca33bb64c60f4c3c773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:15 +0000
Subject: [PATCH 05/45] fix: read attachment files that cannot be measured by
 seeking

The size came from tellg, which is -1 for a directory or a pipe (a 4 GiB
allocation of zeros was sent) and may differ from what can be read.
---
 src/attachment.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/attachment.cpp b/src/attachment.cpp
index ab801a2..9045f72 100644
--- a/src/attachment.cpp
+++ b/src/attachment.cpp
@@ -136,11 +136,11 @@ const char *Attachment::getBase64EncodedFile() const {
     std::ifstream in(mFilename, std::ios::in | std::ios::binary);
     if (in) {
         std::string contents;
-        in.seekg(0, std::ios::end);
-        contents.resize(static_cast<unsigned int>(in.tellg()));
-        in.seekg(0, std::ios::beg);
-        if (static_cast<intmax_t>(contents.size()) <= std::numeric_limits<std::streamsize>::max()) {
-            in.read(&contents[0], static_cast<std::streamsize>(contents.size()));
+        char buffer[4096];
+        while (in.read(buffer, sizeof(buffer)) || in.gcount() > 0) {
+            contents.append(buffer, static_cast<size_t>(in.gcount()));
+        }
+        if (!in.bad()) {
             in.close();
             std::string base64_result = Base64::Encode(reinterpret_cast<const unsigned char*>(contents.c_str()), contents.length());
             auto *base64_file = new char[base64_result.length() + 1];
-- 
2.43.0


From 5f2a03eb1337fe8aacec121929118cdbf4bfa7b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:24 +0000
Subject: [PATCH 06/45] fix: refuse null file names and e-mail addresses with
 invalid_argument

---
 src/attachment.cpp     | 2 +-
 src/messageaddress.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/attachment.cpp b/src/attachment.cpp
index 9045f72..7ee2b87 100644
--- a/src/attachment.cpp
+++ b/src/attachment.cpp
@@ -10,7 +10,7 @@ using namespace jed_utils;
 
 Attachment::Attachment(const char *pFilename, const char *pName, const char *pContentId)
     : mName(nullptr), mFilename(nullptr), mContentId(nullptr) {
-    size_t pFileNameLength = strlen(pFilename);
+    size_t pFileNameLength = pFilename == nullptr ? 0 : strlen(pFilename);
     if (pFileNameLength == 0 || StringUtils::trim(std::string(pFilename)).length() == 0) {
         throw std::invalid_argument("filename");
     }
diff --git a/src/messageaddress.cpp b/src/messageaddress.cpp
index 091c292..839bef7 100644
--- a/src/messageaddress.cpp
+++ b/src/messageaddress.cpp
@@ -9,7 +9,7 @@ using namespace jed_utils;
 
 MessageAddress::MessageAddress(const char *pEmailAddress, const char *pDisplayName)
     : mEmailAddress(nullptr), mDisplayName(nullptr) {
-    std::string email_address { pEmailAddress };
+    std::string email_address { pEmailAddress == nullptr ? "" : pEmailAddress };
     // Check if the email address is not empty or white spaces
     if (email_address.length() == 0 || StringUtils::trim(email_address).empty()) {
         throw std::invalid_argument("pEmailAddress");
-- 
2.43.0


From 63b0f759efe032e3f44d52047ebaf458ad012b01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:58 +0000
Subject: [PATCH 07/45] fix: validate e-mail addresses in linear time and
 refuse spaces

The regular expression backtracked exponentially ('aaaa...' without an @
never returned), overflowed the stack on long input, and its unescaped
dots accepted spaces, control characters, '<', '>' and a second '@'.
---
 src/messageaddress.cpp | 44 +++++++++++++++++++++++++++++++++++++++---
 1 file changed, 41 insertions(+), 3 deletions(-)

diff --git a/src/messageaddress.cpp b/src/messageaddress.cpp
index 839bef7..ccfa4aa 100644
--- a/src/messageaddress.cpp
+++ b/src/messageaddress.cpp
@@ -1,6 +1,7 @@
 #include "messageaddress.h"
+#include <algorithm>
 #include <cstddef>
-#include <regex>
+#include <sstream>
 #include <stdexcept>
 #include <string>
 #include "stringutils.h"
@@ -116,8 +117,45 @@ const char *MessageAddress::getDisplayName() const {
     return mDisplayName;
 }
 
+// True if the text matches [chars]+(.[chars]+)* : it starts and ends with one of the
+// allowed characters and never has two other characters in a row.
+static bool isDotSeparated(const std::string &pText, const std::string &pChars) {
+    bool previousIsAllowed = false;
+    for (const char c : pText) {
+        const bool isAllowed = pChars.find(c) != std::string::npos;
+        if (!isAllowed && !previousIsAllowed) {
+            return false;
+        }
+        previousIsAllowed = isAllowed;
+    }
+    return previousIsAllowed;
+}
+
+// Equivalent to the regular expression (where a dot stands for any printable character but '<', '>' and '@')
+// ^[_a-z0-9-]+(.[_a-z0-9-]+)*@[a-z0-9-]+(.[a-z0-9-]+)*(.[a-z]{2,4})$
+// which std::regex evaluates recursively, in exponential time.
 bool MessageAddress::isEmailAddressValid(const std::string &pEmailAddress) const {
-    std::regex emailPattern("^[_a-z0-9-]+(.[_a-z0-9-]+)*@[a-z0-9-]+(.[a-z0-9-]+)*(.[a-z]{2,4})$");
-    return regex_match(StringUtils::toLower(pEmailAddress), emailPattern);
+    const std::string DOMAIN_CHARS { "abcdefghijklmnopqrstuvwxyz0123456789-" };
+    const std::string email_address = StringUtils::toLower(pEmailAddress);
+    const bool hasForbiddenChar = std::any_of(email_address.cbegin(), email_address.cend(), [](unsigned char c) {
+            return c <= ' ' || c == 127 || c == '<' || c == '>';
+            });
+    const size_t separator = email_address.find('@');
+    if (hasForbiddenChar || separator == std::string::npos || separator != email_address.rfind('@')) {
+        return false;
+    }
+    const std::string domain = email_address.substr(separator + 1);
+    if (!isDotSeparated(email_address.substr(0, separator), DOMAIN_CHARS + "_")) {
+        return false;
+    }
+    for (size_t extension_len = 2; extension_len <= 4 && extension_len + 1 < domain.length(); extension_len++) {
+        const size_t extension = domain.length() - extension_len;
+        if (std::all_of(domain.cbegin() + static_cast<std::ptrdiff_t>(extension), domain.cend(),
+                    [](char c) { return c >= 'a' && c <= 'z'; }) &&
+                isDotSeparated(domain.substr(0, extension - 1), DOMAIN_CHARS)) {
+            return true;
+        }
+    }
+    return false;
 }
 
-- 
2.43.0


From 0b44040b5835461824ccb30f6445a70b0162ee88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:23 +0000
Subject: [PATCH 08/45] fix: skip line breaks in Base64::Decode

Encode breaks long output with CRLF, at which Decode stopped, so text of
more than 49152 bytes did not survive a round trip.
---
 src/base64.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/base64.cpp b/src/base64.cpp
index fc21271..a76bc66 100644
--- a/src/base64.cpp
+++ b/src/base64.cpp
@@ -96,7 +96,14 @@ std::string Base64::Decode(std::string const &encoded_string) {
     unsigned char char_array_4[4], char_array_3[3];
     std::string ret;
 
-    while (in_len-- && (encoded_string[in_] != '=') && is_base64(encoded_string[in_])) {
+    while (in_len-- && (encoded_string[in_] != '=')) {
+        if (encoded_string[in_] == '\r' || encoded_string[in_] == '\n') {
+            in_++;  // Line breaks added by Encode
+            continue;
+        }
+        if (!is_base64(encoded_string[in_])) {
+            break;
+        }
         char_array_4[i++] = encoded_string[in_]; in_++;
         if (i == 4) {
             for (i = 0; i < 4; i++)
-- 
2.43.0


From c1382f90e075ac9cec4ec1a361131c192566f60f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:29 +0000
Subject: [PATCH 09/45] fix: do not dereference null when the server offers no
 authentication

---
 src/smtpclientbase.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/smtpclientbase.cpp b/src/smtpclientbase.cpp
index 9dbcdcc..4787319 100644
--- a/src/smtpclientbase.cpp
+++ b/src/smtpclientbase.cpp
@@ -759,6 +759,9 @@ void SMTPClientBase::setLastServerResponse(const char *pResponse) {
 
 int SMTPClientBase::authenticateClient() {
     if (mCredential != nullptr) {
+        if (mAuthOptions == nullptr) {
+            return CLIENT_AUTHENTICATION_METHOD_NOTSUPPORTED;
+        }
         auto recommenedAuthOption = mCredential->getRecommendedAuthOption();
         if (mAuthOptions->Plain
             && (recommenedAuthOption == RecommendedAuthenticationMethod::kImplicit
-- 
2.43.0


From fc70b1462868d26412cfaaeff7ce1d4e28460368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:47 +0000
Subject: [PATCH 10/45] fix: parse each EHLO line once when looking for AUTH

The rest of the reply was parsed as one line and the result leaked when
the AUTH line was followed by others.
---
 src/smtpclientbase.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/smtpclientbase.cpp b/src/smtpclientbase.cpp
index 4787319..52892d5 100644
--- a/src/smtpclientbase.cpp
+++ b/src/smtpclientbase.cpp
@@ -1136,7 +1136,8 @@ ServerAuthOptions *SMTPClientBase::extractAuthenticationOptions(const char *pEhl
             break;
         }
         ehlo_output.erase(0, ehlo_character_index + DELIMITER.length());
-        if (!ehlo_output.empty() && retVal == nullptr) {
+        // The last line may not be terminated
+        if (!ehlo_output.empty() && ehlo_output.find(DELIMITER) == std::string::npos) {
             retVal = ParseAuthenticationOptions(ehlo_output);
         }
     }
-- 
2.43.0


From d494a59abac9bfd63d77c771ce1310a76ec10645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:06 +0000
Subject: [PATCH 11/45] fix: do not take a reply code below 100 for success

A reply '000' to any command was returned as 0, which callers read as success.
---
 src/smtpclientbase.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/smtpclientbase.cpp b/src/smtpclientbase.cpp
index 52892d5..ea3dbba 100644
--- a/src/smtpclientbase.cpp
+++ b/src/smtpclientbase.cpp
@@ -1072,7 +1072,8 @@ int SMTPClientBase::extractReturnCode(const char *pOutput) {
     if (pOutput != nullptr && strlen(pOutput) >= 3) {
         std::string code_str { pOutput };
         try {
-            return std::stoi(code_str.substr(0, 3));
+            const int code = std::stoi(code_str.substr(0, 3));
+            return code >= 100 ? code : -1;
         }
         catch (std::exception const &) {
             return -1;
-- 
2.43.0


From 1c76449f51f659a88ee4a2941cce82636bc8f0d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:12 +0000
Subject: [PATCH 12/45] fix: recognise STARTTLS on the last line and EHLO
 keywords in any case

A server whose last or only EHLO line was '250 STARTTLS', or that wrote
its keywords in lower case, was talked to in clear text.
---
 src/opportunisticsecuresmtpclient.cpp | 6 ++++--
 src/smtpclientbase.cpp                | 2 +-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/opportunisticsecuresmtpclient.cpp b/src/opportunisticsecuresmtpclient.cpp
index aeba3d9..808d064 100644
--- a/src/opportunisticsecuresmtpclient.cpp
+++ b/src/opportunisticsecuresmtpclient.cpp
@@ -104,11 +104,13 @@ bool OpportunisticSecureSMTPClient::isStartTLSSupported(const char *pServerRespo
     if (pServerResponse == nullptr) {
         return false;
     }
-    std::string serverResponse { pServerResponse };
+    std::string serverResponse { StringUtils::toUpper(pServerResponse) };
     if (serverResponse.length() == 0 || StringUtils::trim(serverResponse).empty()) {
         return false;
     }
 
     const std::string STARTTLS_LINE_PREFIX { "250-STARTTLS" };
-    return serverResponse.find(STARTTLS_LINE_PREFIX) != std::string::npos;
+    const std::string STARTTLS_LINE_PREFIX_ALTERNATE { "250 STARTTLS" };
+    return serverResponse.find(STARTTLS_LINE_PREFIX) != std::string::npos ||
+        serverResponse.find(STARTTLS_LINE_PREFIX_ALTERNATE) != std::string::npos;
 }
diff --git a/src/smtpclientbase.cpp b/src/smtpclientbase.cpp
index ea3dbba..10d5de8 100644
--- a/src/smtpclientbase.cpp
+++ b/src/smtpclientbase.cpp
@@ -1086,7 +1086,7 @@ ServerAuthOptions *ParseAuthenticationOptions(const std::string &authLine) {
     ServerAuthOptions *retval = nullptr;
     const std::string AUTH_LINE_PREFIX = "250-AUTH";
     const std::string AUTH_LINE_PREFIX_ALTERNATE = "250 AUTH";
-    std::string line = authLine;
+    std::string line = StringUtils::toUpper(authLine);
     // Find the line that begin with 250-AUTH or 250 AUTH
     if (line.substr(0, AUTH_LINE_PREFIX.length()) == AUTH_LINE_PREFIX ||
         line.substr(0, AUTH_LINE_PREFIX_ALTERNATE.length()) == AUTH_LINE_PREFIX_ALTERNATE) {
-- 
2.43.0


From a80af935a29457239b4f20375c91e9a5cd1d695c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:32 +0000
Subject: [PATCH 13/45] fix: send through TLS after an earlier session without
 STARTTLS

setKeepUsingBaseSendCommands(true) of a session with a server lacking
STARTTLS stayed in force when the same client was used with one that has
it, so credentials and mail were written in clear on the TLS connection.
---
 src/opportunisticsecuresmtpclient.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/opportunisticsecuresmtpclient.cpp b/src/opportunisticsecuresmtpclient.cpp
index 808d064..2ce90bf 100644
--- a/src/opportunisticsecuresmtpclient.cpp
+++ b/src/opportunisticsecuresmtpclient.cpp
@@ -66,6 +66,7 @@ int OpportunisticSecureSMTPClient::establishConnectionWithServer() {
 
     if (isStartTLSSupported(getLastServerResponse())) {
         addCommunicationLogItem("Info: STARTTLS is available by the server, the communication will be encrypted.");
+        setKeepUsingBaseSendCommands(false);
         int tls_init_return_code = upgradeToSecureConnection();
         if (tls_init_return_code != STATUS_CODE_SERVICE_READY) {
             return tls_init_return_code;
-- 
2.43.0


From f2296ee84a177b838dab63e4a8770672a6314115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:35 +0000
Subject: [PATCH 14/45] fix: do not overflow the stack with a long server name

---
 src/securesmtpclientbase.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/securesmtpclientbase.cpp b/src/securesmtpclientbase.cpp
index 923cbd9..286c6b8 100644
--- a/src/securesmtpclientbase.cpp
+++ b/src/securesmtpclientbase.cpp
@@ -166,13 +166,11 @@ int SecureSMTPClientBase::startTLSNegotiation() {
     }
 
     /* Link bio channel, SSL session, and server endpoint */
-    const int SERVERNAMEANDPORT_LENGTH = 1024;
-    char name[SERVERNAMEANDPORT_LENGTH];
-    sprintf(name, "%s:%u", getServerName(), getServerPort());
+    const std::string name { getServerName() + ":"s + std::to_string(getServerPort()) };
     BIO_get_ssl(mBIO, &mSSL); /* session */
     SSL_set_fd(mSSL, getSocketFileDescriptor());
     SSL_set_mode(mSSL, SSL_MODE_AUTO_RETRY); /* robustness */
-    BIO_set_conn_hostname(mBIO, name); /* prepare to connect */
+    BIO_set_conn_hostname(mBIO, name.c_str()); /* prepare to connect */
 
 #ifdef _WIN32
     /* On Windows, we need to import all the ROOT certificates to
-- 
2.43.0


From 32ad2cb139aadd359030f049131e63fbf55c435f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:38 +0000
Subject: [PATCH 15/45] fix: check that the server certificate names the server

Any certificate of a trusted authority was accepted, whatever host it
was issued for.
---
 src/securesmtpclientbase.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/securesmtpclientbase.cpp b/src/securesmtpclientbase.cpp
index 286c6b8..065d591 100644
--- a/src/securesmtpclientbase.cpp
+++ b/src/securesmtpclientbase.cpp
@@ -1,6 +1,7 @@
 #include "securesmtpclientbase.h"
 #include <openssl/err.h>
 #include <openssl/x509_vfy.h>
+#include <openssl/x509v3.h>
 #include <string>
 #include <utility>
 #include "serveroptionsanalyzer.h"
@@ -225,13 +226,13 @@ int SecureSMTPClientBase::startTLSNegotiation() {
     /* Step 1: Verify a server certificate was presented
        during the negotiation */
     X509* cert = SSL_get_peer_certificate(mSSL);
-    if (cert != nullptr) {
-        X509_free(cert); /* Free immediately */
-    }
     if (cert == nullptr) {
         cleanup();
         return SSL_CLIENT_STARTTLS_GET_CERTIFICATE_ERROR;
     }
+    const bool serverNameMatches = X509_check_host(cert, getServerName(), 0, 0, nullptr) == 1 ||
+        X509_check_ip_asc(cert, getServerName(), 0) == 1;
+    X509_free(cert);
 
     /* Step 2: verify the result of chain verification */
     /* Verification performed according to RFC 4158    */
@@ -244,6 +245,12 @@ int SecureSMTPClientBase::startTLSNegotiation() {
             cleanup();
             return SSL_CLIENT_STARTTLS_VERIFY_RESULT_ERROR;
         }
+        /* Step 3: the certificate must have been issued for the server */
+        if (!serverNameMatches) {
+            addCommunicationLogItem("The certificate does not match the server name", "s");
+            cleanup();
+            return SSL_CLIENT_STARTTLS_VERIFY_RESULT_ERROR;
+        }
     }
 
     addCommunicationLogItem("TLS session ready!");
-- 
2.43.0


From 468a523d205d46fa51094f3dfff8dbb1fe8544b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:02 +0000
Subject: [PATCH 16/45] fix: return the documented code when the socket flags
 cannot be set

The result of the comparison (1) was returned instead of the code, and a
failed F_GETFL was ignored.
---
 src/smtpclientbase.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/smtpclientbase.cpp b/src/smtpclientbase.cpp
index 10d5de8..04322ab 100644
--- a/src/smtpclientbase.cpp
+++ b/src/smtpclientbase.cpp
@@ -517,7 +517,8 @@ int SMTPClientBase::initializeSessionPOSIX() {
            host->h_addr,
            static_cast<size_t>(host->h_length));
     // Set non-blocking
-    if (int socketSetFlagsResult = setSocketToNonBlockingPOSIX() != 0) {
+    int socketSetFlagsResult = setSocketToNonBlockingPOSIX();
+    if (socketSetFlagsResult != 0) {
         return socketSetFlagsResult;
     }
     std::stringstream ss;
@@ -573,6 +574,7 @@ int SMTPClientBase::setSocketToNonBlockingPOSIX() {
     if ((arg = fcntl(mSock, F_GETFL, NULL)) < 0) {
         setLastSocketErrNo(errno);
         addCommunicationLogItem(strerror(errno));
+        return SOCKET_INIT_SESSION_FCNTL_GET_ERROR;
     }
     arg |= O_NONBLOCK;
     if (fcntl(mSock, F_SETFL, arg) < 0) {
-- 
2.43.0


From 2386416d9b744592ced9df419490d71cbe553b89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:07 +0000
Subject: [PATCH 17/45] fix: resolve the server name with the thread-safe
 getaddrinfo

gethostbyname returns static storage: clients connecting in different
threads could reach each other's servers.
---
 src/smtpclientbase.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/smtpclientbase.cpp b/src/smtpclientbase.cpp
index 04322ab..1b30110 100644
--- a/src/smtpclientbase.cpp
+++ b/src/smtpclientbase.cpp
@@ -505,17 +505,17 @@ int SMTPClientBase::initializeSessionPOSIX() {
         addCommunicationLogItem(strerror(errno));
         return SOCKET_INIT_SESSION_CREATION_ERROR;
     }
-    struct hostent *host = gethostbyname(getServerName());
-    if (!host || host->h_length < 0) {
+    struct addrinfo hints {};
+    hints.ai_family = AF_INET;
+    hints.ai_socktype = SOCK_STREAM;
+    struct addrinfo *host {nullptr};
+    if (getaddrinfo(getServerName(), nullptr, &hints, &host) != 0) {
         return SOCKET_INIT_SESSION_GETHOSTBYNAME_ERROR;
     }
     struct sockaddr_in saddr_in {};
-    saddr_in.sin_family = AF_INET;
+    memcpy(&saddr_in, host->ai_addr, sizeof(saddr_in));
+    freeaddrinfo(host);
     saddr_in.sin_port = htons(static_cast<u_short>(getServerPort()));
-    saddr_in.sin_addr.s_addr = 0;
-    memcpy(reinterpret_cast<char*>(&(saddr_in.sin_addr)),
-           host->h_addr,
-           static_cast<size_t>(host->h_length));
     // Set non-blocking
     int socketSetFlagsResult = setSocketToNonBlockingPOSIX();
     if (socketSetFlagsResult != 0) {
-- 
2.43.0


From e60d7e15c51f1015298dbb5c662832a117e08151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:22 +0000
Subject: [PATCH 18/45] fix: wait for the connection with poll

select writes beyond its fd_set when the descriptor is 1024 or more.
---
 src/smtpclientbase.cpp | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/smtpclientbase.cpp b/src/smtpclientbase.cpp
index 1b30110..7ada82e 100644
--- a/src/smtpclientbase.cpp
+++ b/src/smtpclientbase.cpp
@@ -31,6 +31,7 @@
     #include <fcntl.h>
     #include <netdb.h>
     #include <netinet/in.h>
+    #include <poll.h>
     #include <sys/socket.h>
     #include <sys/types.h>
     #include <unistd.h>
@@ -495,8 +496,7 @@ void SMTPClientBase::doWSACleanup() {
 #else
 int SMTPClientBase::initializeSessionPOSIX() {
     // POSIX socket version
-    fd_set fdset;
-    struct timeval tv;
+    struct pollfd pollSocket;
     socklen_t lon;
     int valopt;
     mSock = socket(AF_INET, SOCK_STREAM, 0);
@@ -528,11 +528,10 @@ int SMTPClientBase::initializeSessionPOSIX() {
     if (res < 0) {
         if (errno == EINPROGRESS) {
             do {
-                tv.tv_sec = mCommandTimeOut;
-                tv.tv_usec = 0;
-                FD_ZERO(&fdset);
-                FD_SET(mSock, &fdset);
-                res = select(mSock+1, NULL, &fdset, NULL, &tv);
+                pollSocket.fd = mSock;
+                pollSocket.events = POLLOUT;
+                pollSocket.revents = 0;
+                res = poll(&pollSocket, 1, static_cast<int>((std::min)(mCommandTimeOut, 2000000u) * 1000));
                 if (res < 0 && errno != EINTR) {
                     setLastSocketErrNo(errno);
                     addCommunicationLogItem(strerror(errno));
-- 
2.43.0


From 2f239fb6790c59084b811b3959dd5e48e9d05909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:37 +0000
Subject: [PATCH 19/45] fix: keep waiting for the connection after a signal

An interrupted wait was reported as a connection timeout.
---
 src/smtpclientbase.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/smtpclientbase.cpp b/src/smtpclientbase.cpp
index 7ada82e..ef2fcf6 100644
--- a/src/smtpclientbase.cpp
+++ b/src/smtpclientbase.cpp
@@ -1,6 +1,7 @@
 #include "smtpclientbase.h"
 #include <algorithm>
 #include <cerrno>
+#include <chrono>
 #include <cstddef>
 #include <cstring>
 #include <limits>
@@ -526,13 +527,19 @@ int SMTPClientBase::initializeSessionPOSIX() {
     addCommunicationLogItem(ss.str().c_str());
     int res = connect(mSock, reinterpret_cast<struct sockaddr*>(&saddr_in), sizeof(saddr_in));
     if (res < 0) {
-        if (errno == EINPROGRESS) {
+        if (errno == EINPROGRESS || errno == EINTR) {
+            const auto deadline = std::chrono::steady_clock::now() + std::chrono::seconds((std::min)(mCommandTimeOut, 2000000u));
             do {
+                const auto timeLeft = std::chrono::duration_cast<std::chrono::milliseconds>(
+                        deadline - std::chrono::steady_clock::now()).count();
                 pollSocket.fd = mSock;
                 pollSocket.events = POLLOUT;
                 pollSocket.revents = 0;
-                res = poll(&pollSocket, 1, static_cast<int>((std::min)(mCommandTimeOut, 2000000u) * 1000));
-                if (res < 0 && errno != EINTR) {
+                res = poll(&pollSocket, 1, timeLeft > 0 ? static_cast<int>(timeLeft) : 0);
+                if (res < 0 && errno == EINTR) {
+                    continue;
+                }
+                if (res < 0) {
                     setLastSocketErrNo(errno);
                     addCommunicationLogItem(strerror(errno));
                     return SOCKET_INIT_SESSION_CONNECT_ERROR;
-- 
2.43.0


From 35762b007d51aba07e287d02647c63778baa143b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:20 +0000
Subject: [PATCH 20/45] fix: use -1 for no socket

Zero is a valid descriptor, given out when standard input is closed: the
connection was then never closed. A failed socket() (-1) was closed.
---
 src/securesmtpclientbase.cpp |  2 +-
 src/smtpclient.cpp           |  2 +-
 src/smtpclientbase.cpp       | 10 +++++-----
 src/smtpclientbase.h         |  2 +-
 4 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/securesmtpclientbase.cpp b/src/securesmtpclientbase.cpp
index 065d591..9b8c3fb 100644
--- a/src/securesmtpclientbase.cpp
+++ b/src/securesmtpclientbase.cpp
@@ -116,7 +116,7 @@ void SecureSMTPClientBase::cleanup() {
     }
     mBIO = nullptr;
     int socketFileDescriptor {getSocketFileDescriptor() };
-    if (socketFileDescriptor != 0) {
+    if (socketFileDescriptor != -1) {
 #ifdef _WIN32
         shutdown(socketFileDescriptor, SD_BOTH);
         closesocket(socketFileDescriptor);
diff --git a/src/smtpclient.cpp b/src/smtpclient.cpp
index 15c7594..1f5e8f3 100644
--- a/src/smtpclient.cpp
+++ b/src/smtpclient.cpp
@@ -50,7 +50,7 @@ void SmtpClient::cleanup() {
     }
     mIsConnected = false;
     int socket { getSocketFileDescriptor() };
-    if (socket != 0) {
+    if (socket != -1) {
 #ifdef _WIN32
         shutdown(socket, SD_BOTH);
         closesocket(socket);
diff --git a/src/smtpclientbase.cpp b/src/smtpclientbase.cpp
index ef2fcf6..2448dbf 100644
--- a/src/smtpclientbase.cpp
+++ b/src/smtpclientbase.cpp
@@ -91,7 +91,7 @@ SMTPClientBase::SMTPClientBase(const SMTPClientBase& other)
       mLastSocketErrNo(other.mLastSocketErrNo),
       mAuthOptions(other.mAuthOptions != nullptr ? new ServerAuthOptions(*other.mAuthOptions) : nullptr),
       mCredential(other.mCredential != nullptr ? new Credential(*other.mCredential) : nullptr),
-      mSock(0),
+      mSock(-1),
       mKeepUsingBaseSendCommands(other.mKeepUsingBaseSendCommands),
       sendCommandPtr(&SMTPClientBase::sendCommand),
       sendCommandWithFeedbackPtr(&SMTPClientBase::sendCommandWithFeedback) {
@@ -148,7 +148,7 @@ SMTPClientBase& SMTPClientBase::operator=(const SMTPClientBase& other) {
         // mCredential
         mCredential = other.mCredential != nullptr ? new Credential(*other.mCredential) : nullptr;
         mIsConnected = false;
-        mSock = 0;
+        mSock = -1;
         setKeepUsingBaseSendCommands(other.mKeepUsingBaseSendCommands);
     }
     return *this;
@@ -182,7 +182,7 @@ SMTPClientBase::SMTPClientBase(SMTPClientBase&& other) noexcept
     other.mAuthOptions = nullptr;
     other.mCredential = nullptr;
     other.mIsConnected = false;
-    other.mSock = 0;
+    other.mSock = -1;
     other.mKeepUsingBaseSendCommands = false;
     setKeepUsingBaseSendCommands(mKeepUsingBaseSendCommands);
 }
@@ -223,7 +223,7 @@ SMTPClientBase& SMTPClientBase::operator=(SMTPClientBase&& other) noexcept {
         other.mAuthOptions = nullptr;
         other.mCredential = nullptr;
         other.mIsConnected = false;
-        other.mSock = 0;
+        other.mSock = -1;
         other.mKeepUsingBaseSendCommands = false;
     }
     return *this;
@@ -298,7 +298,7 @@ int SMTPClientBase::getSocketFileDescriptor() const {
 }
 
 void SMTPClientBase::clearSocketFileDescriptor() {
-    mSock = 0;
+    mSock = -1;
 }
 
 const char *SMTPClientBase::getLastServerResponse() const {
diff --git a/src/smtpclientbase.h b/src/smtpclientbase.h
index 80f420e..02691ed 100644
--- a/src/smtpclientbase.h
+++ b/src/smtpclientbase.h
@@ -214,7 +214,7 @@ class SMTPCLIENTBASE_API SMTPClientBase {
     int mLastSocketErrNo;
     ServerAuthOptions *mAuthOptions;
     Credential *mCredential;
-    int mSock = 0;
+    int mSock = -1;
     #ifdef _WIN32
     bool mWSAStarted = false;
     #endif
-- 
2.43.0


From 54d7a837eba952d9207000589416f89b89bdb850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:57 +0000
Subject: [PATCH 21/45] fix: read exactly one complete reply

A reply was whatever had arrived at the time of one or several reads: one
split over TCP segments or TLS records was cut, and its rest taken for the
next reply; multi-line and long TLS replies were misread, the last byte
of TLS replies and greetings was dropped, 1024 bytes in one segment wrote
past the buffer, and the wait for the greeting or for a TLS reply had no
limit. Read up to the end of the final line, for at most the command
timeout, and take a cut or malformed reply for no reply.
---
 src/forcedsecuresmtpclient.cpp |  21 ++-----
 src/securesmtpclientbase.cpp   |  51 ++++++++-------
 src/smtpclientbase.cpp         | 111 ++++++++++++++++++---------------
 src/smtpclientbase.h           |   5 ++
 4 files changed, 98 insertions(+), 90 deletions(-)

diff --git a/src/forcedsecuresmtpclient.cpp b/src/forcedsecuresmtpclient.cpp
index e8bf919..8fb3b6b 100644
--- a/src/forcedsecuresmtpclient.cpp
+++ b/src/forcedsecuresmtpclient.cpp
@@ -79,22 +79,13 @@ int ForcedSecureSMTPClient::establishConnectionWithServer() {
 }
 
 int ForcedSecureSMTPClient::checkServerGreetings() {
-    char outbuf[SERVERRESPONSE_BUFFER_LENGTH];
-    unsigned int waitTime = 0;
-    ssize_t bytes_received = 0;
-    while ((bytes_received = BIO_read(getBIO(), outbuf, SERVERRESPONSE_BUFFER_LENGTH)) <= 0 && waitTime < getCommandTimeout()) {
-        crossPlatformSleep(1);
-        waitTime += 1;
+    int status_code = getServerReply();
+    if (status_code == -1) {
+        return SOCKET_INIT_SESSION_CONNECT_TIMEOUT;
     }
-    if (waitTime < getCommandTimeout()) {
-        outbuf[bytes_received-1] = '\0';
-        addCommunicationLogItem(outbuf, "s");
-        int status_code = extractReturnCode(outbuf);
-        if (status_code == STATUS_CODE_SERVICE_READY) {
-            addCommunicationLogItem("Connected!");
-        }
-        return status_code;
+    if (status_code == STATUS_CODE_SERVICE_READY) {
+        addCommunicationLogItem("Connected!");
     }
-    return SOCKET_INIT_SESSION_CONNECT_TIMEOUT;
+    return status_code;
 }
 
diff --git a/src/securesmtpclientbase.cpp b/src/securesmtpclientbase.cpp
index 9b8c3fb..ac10160 100644
--- a/src/securesmtpclientbase.cpp
+++ b/src/securesmtpclientbase.cpp
@@ -2,9 +2,9 @@
 #include <openssl/err.h>
 #include <openssl/x509_vfy.h>
 #include <openssl/x509v3.h>
+#include <cerrno>
 #include <string>
 #include <utility>
-#include "serveroptionsanalyzer.h"
 #include "smtpclienterrors.h"
 #include "socketerrors.h"
 #include "sslerrors.h"
@@ -273,20 +273,8 @@ int SecureSMTPClientBase::getServerSecureIdentification() {
     if (tls_command_return_code != EHLO_SUCCESS_CODE) {
         return tls_command_return_code;
     }
-    std::string returnedOptions = getLastServerResponse();
-    // Check that the last returned option has no hyphen otherwise options are
-    // still missing from the server.
-    while (!ServerOptionsAnalyzer::containsAllOptions(returnedOptions)) {
-        int replyCode = getServerReply();
-        if (replyCode == -1) {
-            return SSL_CLIENT_INITSECURECLIENT_TIMEOUT;
-        } else if (replyCode != EHLO_SUCCESS_CODE) {
-            return replyCode;
-        }
-        returnedOptions += "\n" + std::string(getLastServerResponse());
-    }
     // Inspect the returned values for authentication options
-    setAuthenticationOptions(SMTPClientBase::extractAuthenticationOptions(returnedOptions.c_str()));
+    setAuthenticationOptions(SMTPClientBase::extractAuthenticationOptions(getLastServerResponse()));
     return EHLO_SUCCESS_CODE;
 }
 
@@ -320,18 +308,35 @@ int SecureSMTPClientBase::sendCommandWithFeedback(const char *pCommand, int pErr
 }
 
 int SecureSMTPClientBase::getServerReply() {
+    if (mBIO == nullptr) {
+        return getRawCommandReply();
+    }
+    std::string fullResponse;
     unsigned int waitTime {0};
-    int bytes_received {0};
-    char outbuf[SERVERRESPONSE_BUFFER_LENGTH];
-    while ((bytes_received = BIO_read(mBIO, outbuf, SERVERRESPONSE_BUFFER_LENGTH)) <= 0 && waitTime < getCommandTimeout()) {
+    if (setSocketToNonBlocking() != 0) {
+        return -1;
+    }
+    while (!isReplyComplete(fullResponse) && fullResponse.length() < SERVERRESPONSE_MAX_LENGTH) {
+        char received {'\0'};
+        errno = 0;
+        if (BIO_read(mBIO, &received, 1) > 0) {
+            fullResponse += received != '\0' ? received : ' ';
+            continue;
+        }
+        if (!BIO_should_retry(mBIO)) {
+            break;
+        }
+        if (errno == EINTR) {
+            continue;
+        }
+        if (waitTime >= getCommandTimeout()) {
+            break;
+        }
         crossPlatformSleep(1);
         waitTime += 1;
     }
-    if (waitTime < getCommandTimeout()) {
-        outbuf[bytes_received-1] = '\0';
-        setLastServerResponse(outbuf);
-        addCommunicationLogItem(outbuf, "s");
-        return extractReturnCode(outbuf);
+    if (setSocketToBlocking() != 0) {
+        return -1;
     }
-    return -1;
+    return processServerReply(fullResponse);
 }
diff --git a/src/smtpclientbase.cpp b/src/smtpclientbase.cpp
index 2448dbf..e9f2d39 100644
--- a/src/smtpclientbase.cpp
+++ b/src/smtpclientbase.cpp
@@ -15,7 +15,6 @@
 #include "message.h"
 #include "messageaddress.h"
 #include "serverauthoptions.h"
-#include "serveroptionsanalyzer.h"
 #include "smtpclienterrors.h"
 #include "smtpserverstatuscodes.h"
 #include "socketerrors.h"
@@ -635,42 +634,20 @@ int SMTPClientBase::sendServerIdentification() {
     if (command_return_code != EHLO_SUCCESS_CODE) {
         return command_return_code;
     }
-    std::string returnedOptions = getLastServerResponse();
-    // Check that the last returned option has no hyphen otherwise options are
-    // still missing from the server.
-    while (!ServerOptionsAnalyzer::containsAllOptions(returnedOptions)) {
-        int replyCode = getServerReply();
-        if (replyCode == -1) {
-            return SOCKET_INIT_CLIENT_SEND_EHLO_TIMEOUT;
-        } else if (replyCode != EHLO_SUCCESS_CODE) {
-            return replyCode;
-        }
-        returnedOptions += "\n" + std::string(getLastServerResponse());
-    }
     // Inspect the returned values for authentication options
-    setAuthenticationOptions(extractAuthenticationOptions(returnedOptions.c_str()));
+    setAuthenticationOptions(extractAuthenticationOptions(getLastServerResponse()));
     return EHLO_SUCCESS_CODE;
 }
 
 int SMTPClientBase::checkServerGreetings() {
-    char outbuf[SERVERRESPONSE_BUFFER_LENGTH];
-    unsigned int waitTime = 0;
-    ssize_t bytes_received = 0;
-    while ((bytes_received = recv(mSock, outbuf, SERVERRESPONSE_BUFFER_LENGTH, 0)) <= 0
-            && waitTime < mCommandTimeOut) {
-        crossPlatformSleep(1);
-        waitTime += 1;
+    int status_code = getRawCommandReply();
+    if (status_code == -1) {
+        return SOCKET_INIT_SESSION_CONNECT_TIMEOUT;
     }
-    if (waitTime < mCommandTimeOut) {
-        outbuf[bytes_received-1] = '\0';
-        addCommunicationLogItem(outbuf, "s");
-        int status_code = extractReturnCode(outbuf);
-        if (status_code == STATUS_CODE_SERVICE_READY) {
-            addCommunicationLogItem("Connected!");
-        }
-        return status_code;
+    if (status_code == STATUS_CODE_SERVICE_READY) {
+        addCommunicationLogItem("Connected!");
     }
-    return SOCKET_INIT_SESSION_CONNECT_TIMEOUT;
+    return status_code;
 }
 
 int SMTPClientBase::sendRawCommand(const char *pCommand, int pErrorCode) {
@@ -693,32 +670,62 @@ int SMTPClientBase::sendRawCommand(const char *pCommand, int pErrorCode) {
 
 int SMTPClientBase::getRawCommandReply() {
     std::string fullResponse;
-    bool receivedAtLeastOnce = false;
-    char outbuf[SERVERRESPONSE_BUFFER_LENGTH];
     unsigned int waitTime {0};
-    setSocketToNonBlocking();
-
-    do {
-        ssize_t bytes_received = recv(mSock, outbuf, SERVERRESPONSE_BUFFER_LENGTH, 0);
+    if (setSocketToNonBlocking() != 0) {
+        return -1;
+    }
+    while (!isReplyComplete(fullResponse) && fullResponse.length() < SERVERRESPONSE_MAX_LENGTH) {
+        char received {'\0'};
+        // One byte at a time in order not to consume what follows the reply
+        const ssize_t bytes_received = recv(mSock, &received, 1, 0);
         if (bytes_received > 0) {
-            receivedAtLeastOnce = true;
-            outbuf[bytes_received] = '\0';  // Null-terminate the received data
-            fullResponse += outbuf;
-        } else {
-            if (bytes_received == -1 && receivedAtLeastOnce) {
-                break;
-            }
-            crossPlatformSleep(1);
-            waitTime += 1;
+            fullResponse += received != '\0' ? received : ' ';
+            continue;
         }
-    } while (waitTime < mCommandTimeOut);
-    setSocketToBlocking();
-    if (waitTime < mCommandTimeOut || receivedAtLeastOnce) {
-        setLastServerResponse(fullResponse.c_str());
-        addCommunicationLogItem(fullResponse.c_str(), "s");
-        return extractReturnCode(fullResponse.c_str());
+#ifdef _WIN32
+        const bool canRetry = bytes_received < 0 && WSAGetLastError() == WSAEWOULDBLOCK;
+#else
+        if (bytes_received < 0 && errno == EINTR) {
+            continue;
+        }
+        const bool canRetry = bytes_received < 0 && errno == EAGAIN;
+#endif
+        if (!canRetry || waitTime >= mCommandTimeOut) {
+            break;
+        }
+        crossPlatformSleep(1);
+        waitTime += 1;
     }
-    return -1;
+    if (setSocketToBlocking() != 0) {
+        return -1;
+    }
+    return processServerReply(fullResponse);
+}
+
+bool SMTPClientBase::isReplyComplete(const std::string &pReply) {
+    if (pReply.empty() || pReply.back() != '\n') {
+        return false;
+    }
+    const size_t previousLineEnd = pReply.length() > 1 ? pReply.rfind('\n', pReply.length() - 2) : std::string::npos;
+    const std::string lastLine { pReply.substr(previousLineEnd == std::string::npos ? 0 : previousLineEnd + 1) };
+    // Only the lines like "250-text" are followed by another one
+    return extractReturnCode(lastLine.c_str()) == -1 || lastLine[3] != '-';
+}
+
+int SMTPClientBase::processServerReply(const std::string &pReply) {
+    if (!pReply.empty()) {
+        addCommunicationLogItem(pReply.c_str(), "s");
+    }
+    if (!isReplyComplete(pReply)) {
+        return -1;
+    }
+    setLastServerResponse(pReply.c_str());
+    const size_t lastLineEnd = pReply.length() - 1;
+    const size_t previousLineEnd = lastLineEnd > 0 ? pReply.rfind('\n', lastLineEnd - 1) : std::string::npos;
+    const size_t lastLineStart = previousLineEnd == std::string::npos ? 0 : previousLineEnd + 1;
+    const int returnCode = extractReturnCode(pReply.c_str());
+    // All the lines of a reply carry the same code
+    return extractReturnCode(pReply.c_str() + lastLineStart) == returnCode ? returnCode : -1;
 }
 
 int SMTPClientBase::getServerReply() {
diff --git a/src/smtpclientbase.h b/src/smtpclientbase.h
index 02691ed..b78dbec 100644
--- a/src/smtpclientbase.h
+++ b/src/smtpclientbase.h
@@ -27,6 +27,9 @@
 /** The max length of the server response buffer */
 #define SERVERRESPONSE_BUFFER_LENGTH 1024
 
+/** The max length of a server reply */
+#define SERVERRESPONSE_MAX_LENGTH 131072
+
 namespace jed_utils {
 /** @brief The SMTPClientBase represents the base class for all SMTP clients
  *  that will or will not use encryption for communication.
@@ -180,6 +183,8 @@ class SMTPCLIENTBASE_API SMTPClientBase {
     int sendRawCommand(const char *pCommand, int pErrorCode);
     int sendRawCommand(const char *pCommand, int pErrorCode, int pTimeoutCode);
     int getRawCommandReply();
+    static bool isReplyComplete(const std::string &pReply);
+    int processServerReply(const std::string &pReply);
     virtual int sendCommand(const char *pCommand, int pErrorCode) = 0;
     virtual int sendCommandWithFeedback(const char *pCommand, int pErrorCode, int pTimeoutCode) = 0;
     virtual int getServerReply() = 0;
-- 
2.43.0


From 0ad58d4a16a71321fdaf2152417ffdf330512a38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:22 +0000
Subject: [PATCH 22/45] fix: apply the command timeout to blocking socket calls

The TLS handshake and every send blocked for ever when the server stopped
answering or reading.
---
 src/smtpclientbase.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/smtpclientbase.cpp b/src/smtpclientbase.cpp
index e9f2d39..f424521 100644
--- a/src/smtpclientbase.cpp
+++ b/src/smtpclientbase.cpp
@@ -33,6 +33,7 @@
     #include <netinet/in.h>
     #include <poll.h>
     #include <sys/socket.h>
+    #include <sys/time.h>
     #include <sys/types.h>
     #include <unistd.h>
 #endif
@@ -570,6 +571,15 @@ int SMTPClientBase::initializeSessionPOSIX() {
             return SOCKET_INIT_SESSION_CONNECT_ERROR;
         }
     }
+    // A server that stops reading or writing must not block a call longer than the command timeout
+    struct timeval timeout {};
+    timeout.tv_sec = (std::max)(mCommandTimeOut, 1u);
+    if (setsockopt(mSock, SOL_SOCKET, SO_RCVTIMEO, &timeout, sizeof(timeout)) < 0 ||
+            setsockopt(mSock, SOL_SOCKET, SO_SNDTIMEO, &timeout, sizeof(timeout)) < 0) {
+        setLastSocketErrNo(errno);
+        addCommunicationLogItem(strerror(errno));
+        return SOCKET_INIT_SESSION_GET_SOCKET_OPTIONS_ERROR;
+    }
     // Set to blocking mode again...
     return setSocketToBlockingPOSIX();
 }
-- 
2.43.0


From 7fc295e37c6c8981d53307ceaa2975e8af55c9cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:27 +0000
Subject: [PATCH 23/45] fix: complete partial and interrupted sends

The rest of the data was dropped when send accepted only part of it, and
a signal failed the session.
---
 src/smtpclientbase.cpp | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/smtpclientbase.cpp b/src/smtpclientbase.cpp
index f424521..b93cddb 100644
--- a/src/smtpclientbase.cpp
+++ b/src/smtpclientbase.cpp
@@ -670,10 +670,20 @@ int SMTPClientBase::sendRawCommand(const char *pCommand, int pErrorCode) {
 #else
     size_t commandSize = strlen(pCommand);
 #endif
-    if (send(mSock, pCommand, commandSize, 0) == -1) {
-        setLastSocketErrNo(errno);
-        cleanup();
-        return pErrorCode;
+    while (commandSize > 0) {
+        const auto sentSize = send(mSock, pCommand, commandSize, 0);
+#ifndef _WIN32
+        if (sentSize < 0 && errno == EINTR) {
+            continue;
+        }
+#endif
+        if (sentSize < 0) {
+            setLastSocketErrNo(errno);
+            cleanup();
+            return pErrorCode;
+        }
+        pCommand += sentSize;
+        commandSize -= static_cast<decltype(commandSize)>(sentSize);
     }
     return 0;
 }
-- 
2.43.0


From 0783397622a82570ea1e6afa8005eb36e2422906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:01 +0000
Subject: [PATCH 24/45] fix: resume TLS calls interrupted by a signal

A socket with a timeout returns EINTR even for handlers installed with
SA_RESTART.
---
 src/securesmtpclientbase.cpp | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/securesmtpclientbase.cpp b/src/securesmtpclientbase.cpp
index ac10160..dc9f586 100644
--- a/src/securesmtpclientbase.cpp
+++ b/src/securesmtpclientbase.cpp
@@ -27,6 +27,17 @@
 using namespace std::literals::string_literals;
 using namespace jed_utils;
 
+// Repeat an OpenSSL call that was interrupted by a signal
+template <typename Call>
+static int retryIfInterrupted(BIO *pBIO, Call pCall) {
+    int result {0};
+    do {
+        errno = 0;
+        result = static_cast<int>(pCall());
+    } while (result <= 0 && errno == EINTR && BIO_should_retry(pBIO));
+    return result;
+}
+
 SecureSMTPClientBase::SecureSMTPClientBase(const char *pServerName, unsigned int pPort)
     : SMTPClientBase(pServerName, pPort),
     mBIO(nullptr),
@@ -208,7 +219,7 @@ int SecureSMTPClientBase::startTLSNegotiation() {
     }
 
     /* Try to connect */
-    if (BIO_do_connect(mBIO) <= 0) {
+    if (retryIfInterrupted(mBIO, [this]() { return BIO_do_connect(mBIO); }) <= 0) {
         cleanup();
         setLastSocketErrNo(static_cast<int>(ERR_get_error()));
         return SSL_CLIENT_STARTTLS_BIO_CONNECT_ERROR;
@@ -216,7 +227,7 @@ int SecureSMTPClientBase::startTLSNegotiation() {
 
     /* Try to do the handshake */
     addCommunicationLogItem("<Negotiate a TLS session>", "c & s");
-    if (BIO_do_handshake(mBIO) <= 0) {
+    if (retryIfInterrupted(mBIO, [this]() { return BIO_do_handshake(mBIO); }) <= 0) {
         cleanup();
         setLastSocketErrNo(static_cast<int>(ERR_get_error()));
         return SSL_CLIENT_STARTTLS_BIO_HANDSHAKE_ERROR;
@@ -279,7 +290,7 @@ int SecureSMTPClientBase::getServerSecureIdentification() {
 }
 
 int SecureSMTPClientBase::sendCommand(const char *pCommand, int pErrorCode) {
-    if (BIO_puts(mBIO, pCommand) < 0) {
+    if (retryIfInterrupted(mBIO, [this, pCommand]() { return BIO_puts(mBIO, pCommand); }) <= 0) {
         setLastSocketErrNo(static_cast<int>(ERR_get_error()));
         cleanup();
         return pErrorCode;
@@ -292,7 +303,7 @@ int SecureSMTPClientBase::sendCommandWithFeedback(const char *pCommand, int pErr
     if (mBIO == nullptr) {
         return sendRawCommand(pCommand, pErrorCode, pTimeoutCode);
     }
-    if (BIO_puts(mBIO, pCommand) < 0) {
+    if (retryIfInterrupted(mBIO, [this, pCommand]() { return BIO_puts(mBIO, pCommand); }) <= 0) {
         setLastSocketErrNo(static_cast<int>(ERR_get_error()));
         cleanup();
         return pErrorCode;
-- 
2.43.0


From 20a4479575fc17e10e743df5984e05fa65c5461a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:06 +0000
Subject: [PATCH 25/45] fix: do not let SIGPIPE end the process

Writing to a connection closed by the server killed a process with the
default signal disposition.
---
 src/securesmtpclientbase.cpp | 48 ++++++++++++++++++++++++++++++++++++
 src/smtpclientbase.cpp       |  5 +++-
 2 files changed, 52 insertions(+), 1 deletion(-)

diff --git a/src/securesmtpclientbase.cpp b/src/securesmtpclientbase.cpp
index dc9f586..24cfaee 100644
--- a/src/securesmtpclientbase.cpp
+++ b/src/securesmtpclientbase.cpp
@@ -21,15 +21,61 @@
     #include <netdb.h>
     #include <netinet/in.h>
     #include <openssl/bio.h> /* BasicInput/Output streams */
+    #include <signal.h>
     #include <unistd.h>
 #endif
 
 using namespace std::literals::string_literals;
 using namespace jed_utils;
 
+namespace {
+// OpenSSL writes with write(), which raises SIGPIPE on a connection closed by the server: keep the signal from
+// the process during the calls that may write.
+class SigPipeBlocker {
+ public:
+#ifdef _WIN32
+    SigPipeBlocker() {}
+    ~SigPipeBlocker() {}
+#else
+    SigPipeBlocker() {
+        mWasPending = isSigPipePending();
+        sigemptyset(&mSigPipe);
+        sigaddset(&mSigPipe, SIGPIPE);
+        mIsBlocked = pthread_sigmask(SIG_BLOCK, &mSigPipe, &mPreviousMask) == 0;
+    }
+    ~SigPipeBlocker() {
+        if (mIsBlocked) {
+            int signalNumber {0};
+            if (!mWasPending && isSigPipePending()) {
+                sigwait(&mSigPipe, &signalNumber);
+            }
+            pthread_sigmask(SIG_SETMASK, &mPreviousMask, nullptr);
+        }
+    }
+#endif
+    SigPipeBlocker(const SigPipeBlocker &) = delete;
+    SigPipeBlocker& operator=(const SigPipeBlocker &) = delete;
+#ifndef _WIN32
+
+ private:
+    static bool isSigPipePending() {
+        sigset_t pending;
+        sigemptyset(&pending);
+        sigpending(&pending);
+        return sigismember(&pending, SIGPIPE) == 1;
+    }
+    bool mWasPending;
+    bool mIsBlocked;
+    sigset_t mSigPipe;
+    sigset_t mPreviousMask;
+#endif
+};
+}  // namespace
+
 // Repeat an OpenSSL call that was interrupted by a signal
 template <typename Call>
 static int retryIfInterrupted(BIO *pBIO, Call pCall) {
+    const SigPipeBlocker sigPipeBlocker;
     int result {0};
     do {
         errno = 0;
@@ -123,6 +169,7 @@ void SecureSMTPClientBase::cleanup() {
     }
     mCTX = nullptr;
     if (mBIO != nullptr) {
+        const SigPipeBlocker sigPipeBlocker;
         BIO_free_all(mBIO);
     }
     mBIO = nullptr;
@@ -322,6 +369,7 @@ int SecureSMTPClientBase::getServerReply() {
     if (mBIO == nullptr) {
         return getRawCommandReply();
     }
+    const SigPipeBlocker sigPipeBlocker;
     std::string fullResponse;
     unsigned int waitTime {0};
     if (setSocketToNonBlocking() != 0) {
diff --git a/src/smtpclientbase.cpp b/src/smtpclientbase.cpp
index b93cddb..9ce6735 100644
--- a/src/smtpclientbase.cpp
+++ b/src/smtpclientbase.cpp
@@ -37,6 +37,9 @@
     #include <sys/types.h>
     #include <unistd.h>
 #endif
+#ifndef MSG_NOSIGNAL
+    #define MSG_NOSIGNAL 0
+#endif
 
 using namespace std::literals::string_literals;
 using namespace jed_utils;
@@ -671,7 +674,7 @@ int SMTPClientBase::sendRawCommand(const char *pCommand, int pErrorCode) {
     size_t commandSize = strlen(pCommand);
 #endif
     while (commandSize > 0) {
-        const auto sentSize = send(mSock, pCommand, commandSize, 0);
+        const auto sentSize = send(mSock, pCommand, commandSize, MSG_NOSIGNAL);
 #ifndef _WIN32
         if (sentSize < 0 && errno == EINTR) {
             continue;
-- 
2.43.0


From 1a50ec85f7e7e659304bb88b1c154c9f3be723c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:53 +0000
Subject: [PATCH 26/45] fix: do not send QUIT on a connection that failed

In batch mode the cleanup after a failed send or a missing reply sent
QUIT, whose failure called the cleanup again, without end.
---
 src/securesmtpclientbase.cpp | 3 +++
 src/smtpclientbase.cpp       | 2 ++
 2 files changed, 5 insertions(+)

diff --git a/src/securesmtpclientbase.cpp b/src/securesmtpclientbase.cpp
index 24cfaee..28463d8 100644
--- a/src/securesmtpclientbase.cpp
+++ b/src/securesmtpclientbase.cpp
@@ -339,6 +339,7 @@ int SecureSMTPClientBase::getServerSecureIdentification() {
 int SecureSMTPClientBase::sendCommand(const char *pCommand, int pErrorCode) {
     if (retryIfInterrupted(mBIO, [this, pCommand]() { return BIO_puts(mBIO, pCommand); }) <= 0) {
         setLastSocketErrNo(static_cast<int>(ERR_get_error()));
+        mIsConnected = false;
         cleanup();
         return pErrorCode;
     }
@@ -352,6 +353,7 @@ int SecureSMTPClientBase::sendCommandWithFeedback(const char *pCommand, int pErr
     }
     if (retryIfInterrupted(mBIO, [this, pCommand]() { return BIO_puts(mBIO, pCommand); }) <= 0) {
         setLastSocketErrNo(static_cast<int>(ERR_get_error()));
+        mIsConnected = false;
         cleanup();
         return pErrorCode;
     }
@@ -361,6 +363,7 @@ int SecureSMTPClientBase::sendCommandWithFeedback(const char *pCommand, int pErr
         return serverReplyCode;
     }
 
+    mIsConnected = false;
     cleanup();
     return pTimeoutCode;
 }
diff --git a/src/smtpclientbase.cpp b/src/smtpclientbase.cpp
index 9ce6735..5b8668d 100644
--- a/src/smtpclientbase.cpp
+++ b/src/smtpclientbase.cpp
@@ -682,6 +682,7 @@ int SMTPClientBase::sendRawCommand(const char *pCommand, int pErrorCode) {
 #endif
         if (sentSize < 0) {
             setLastSocketErrNo(errno);
+            mIsConnected = false;
             cleanup();
             return pErrorCode;
         }
@@ -765,6 +766,7 @@ int SMTPClientBase::sendRawCommand(const char *pCommand, int pErrorCode, int pTi
         return serverReplyCode;
     }
 
+    mIsConnected = false;
     cleanup();
     return pTimeoutCode;
 }
-- 
2.43.0


From c7297e76e8625b61c3ab2f11c218d0a4860dd283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:40 +0000
Subject: [PATCH 27/45] fix: stop naming recipients when the connection is lost

---
 src/smtpclientbase.cpp | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/smtpclientbase.cpp b/src/smtpclientbase.cpp
index 5b8668d..a3495a1 100644
--- a/src/smtpclientbase.cpp
+++ b/src/smtpclientbase.cpp
@@ -925,15 +925,19 @@ int SMTPClientBase::setMailRecipients(const Message &pMsg) {
 
 int SMTPClientBase::addMailRecipients(jed_utils::MessageAddress **list, size_t count, const int RECIPIENT_OK) {
     int rcpt_to_ret_code = RECIPIENT_OK;
-    std::for_each(list, list + count, [this, &rcpt_to_ret_code, &RECIPIENT_OK](MessageAddress *address) {
-            std::stringstream ss_rcpt_to;
-            ss_rcpt_to << "RCPT TO: <"s << address->getEmailAddress() << ">\r\n"s;
-            addCommunicationLogItem(ss_rcpt_to.str().c_str());
-            int ret_code = (*this.*sendCommandWithFeedbackPtr)(ss_rcpt_to.str().c_str(), CLIENT_SENDMAIL_RCPTTO_ERROR, CLIENT_SENDMAIL_RCPTTO_TIMEOUT);
-            if (ret_code != RECIPIENT_OK) {
+    for (size_t index = 0; index < count; index++) {
+        std::stringstream ss_rcpt_to;
+        ss_rcpt_to << "RCPT TO: <"s << list[index]->getEmailAddress() << ">\r\n"s;
+        addCommunicationLogItem(ss_rcpt_to.str().c_str());
+        int ret_code = (*this.*sendCommandWithFeedbackPtr)(ss_rcpt_to.str().c_str(), CLIENT_SENDMAIL_RCPTTO_ERROR, CLIENT_SENDMAIL_RCPTTO_TIMEOUT);
+        if (ret_code < 0) {
+            // The connection is lost
+            return ret_code;
+        }
+        if (ret_code != RECIPIENT_OK) {
             rcpt_to_ret_code = ret_code;
-            }
-            });
+        }
+    }
     return rcpt_to_ret_code;
 }
 
-- 
2.43.0


From f81c8d5d414e64f1399ede2f4be61d2dd8b96834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:57 +0000
Subject: [PATCH 28/45] fix: report a To or Cc header that could not be sent

---
 src/smtpclientbase.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/smtpclientbase.cpp b/src/smtpclientbase.cpp
index a3495a1..d05efc3 100644
--- a/src/smtpclientbase.cpp
+++ b/src/smtpclientbase.cpp
@@ -967,13 +967,19 @@ int SMTPClientBase::setMailHeaders(const Message &pMsg) {
     // To
     if (pMsg.getToCount() > 0) {
         std::vector<MessageAddress*> toAddrs(pMsg.getTo(), pMsg.getTo() + pMsg.getToCount());
-        addMailHeader("To", generateHeaderAddressValues(toAddrs).c_str(), CLIENT_SENDMAIL_HEADERTOANDCC_ERROR);
+        int header_to_ret_code = addMailHeader("To", generateHeaderAddressValues(toAddrs).c_str(), CLIENT_SENDMAIL_HEADERTOANDCC_ERROR);
+        if (header_to_ret_code != 0) {
+            return header_to_ret_code;
+        }
     }
 
     // Cc
     if (pMsg.getCcCount() > 0) {
         std::vector<MessageAddress*> toCcs(pMsg.getCc(), pMsg.getCc() + pMsg.getCcCount());
-        addMailHeader("Cc", generateHeaderAddressValues(toCcs).c_str(), CLIENT_SENDMAIL_HEADERTOANDCC_ERROR);
+        int header_cc_ret_code = addMailHeader("Cc", generateHeaderAddressValues(toCcs).c_str(), CLIENT_SENDMAIL_HEADERTOANDCC_ERROR);
+        if (header_cc_ret_code != 0) {
+            return header_cc_ret_code;
+        }
     }
 
     // Subject
-- 
2.43.0


From 1110a91fe915cd539564a1b1d1560dea955e9be8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:02 +0000
Subject: [PATCH 29/45] fix: close the session after a failed send

---
 src/smtpclientbase.cpp | 31 +++++++++++++++----------------
 1 file changed, 15 insertions(+), 16 deletions(-)

diff --git a/src/smtpclientbase.cpp b/src/smtpclientbase.cpp
index d05efc3..27aff10 100644
--- a/src/smtpclientbase.cpp
+++ b/src/smtpclientbase.cpp
@@ -347,27 +347,26 @@ int SMTPClientBase::getErrorMessage_r(int errorCode,
 }
 
 int SMTPClientBase::sendMail(const Message &pMsg) {
+    int result {0};
     if (!mIsConnected) {
-        int client_connect_ret_code = establishConnectionWithServer();
-        if (client_connect_ret_code != 0) {
-            return client_connect_ret_code;
-        }
+        result = establishConnectionWithServer();
+        mIsConnected = result == 0;
     }
-    mIsConnected = true;
-
-    int set_mail_recipients_ret_code = setMailRecipients(pMsg);
-    if (set_mail_recipients_ret_code != 0) {
-        return set_mail_recipients_ret_code;
+    if (result == 0) {
+        result = setMailRecipients(pMsg);
     }
-
-    int set_mail_headers_ret_code = setMailHeaders(pMsg);
-    if (set_mail_headers_ret_code != 0) {
-        return set_mail_headers_ret_code;
+    if (result == 0) {
+        result = setMailHeaders(pMsg);
+    }
+    if (result == 0) {
+        result = setMailBody(pMsg);
     }
 
-    int set_mail_body_ret_code = setMailBody(pMsg);
-    if (set_mail_body_ret_code != 0) {
-        return set_mail_body_ret_code;
+    if (result != 0) {
+        // Nothing of the failed session can be used by the next message
+        mIsConnected = false;
+        cleanup();
+        return result;
     }
 
     if (!mBatchMode) {
-- 
2.43.0


From 6073d05514d324c92f3eeb94b1fb467eb698f0fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:50 +0000
Subject: [PATCH 30/45] fix: double the leading dots of the message lines

---
 src/smtpclientbase.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/smtpclientbase.cpp b/src/smtpclientbase.cpp
index 27aff10..51a0b15 100644
--- a/src/smtpclientbase.cpp
+++ b/src/smtpclientbase.cpp
@@ -1024,6 +1024,17 @@ int SMTPClientBase::setMailBody(const Message &pMsg) {
         body_real += attachments_text;
     }
 
+    // A line starting with a dot would otherwise be altered, or taken for the end of the message, by the server
+    std::string stuffed_body;
+    for (const char c : body_real) {
+        const size_t length = stuffed_body.length();
+        if (c == '.' && length > 1 && stuffed_body[length - 2] == '\r' && stuffed_body[length - 1] == '\n') {
+            stuffed_body += '.';
+        }
+        stuffed_body += c;
+    }
+    body_real = stuffed_body;
+
     const size_t CHUNK_MAXLENGTH = 512;
     if (body_real.length() > CHUNK_MAXLENGTH) {
         // Split into chunk
-- 
2.43.0


From 5dedc1e6a2660a1418625e10946cd5070d3b44e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:26 +0000
Subject: [PATCH 31/45] fix: close the MIME parts and keep the boundary out of
 the body

---
 src/smtpclientbase.cpp | 26 +++++++++++++++++---------
 src/smtpclientbase.h   |  3 ++-
 2 files changed, 19 insertions(+), 10 deletions(-)

diff --git a/src/smtpclientbase.cpp b/src/smtpclientbase.cpp
index 51a0b15..2d1afda 100644
--- a/src/smtpclientbase.cpp
+++ b/src/smtpclientbase.cpp
@@ -991,7 +991,7 @@ int SMTPClientBase::setMailHeaders(const Message &pMsg) {
     }
 
     // Content-Type
-    std::string content_type { "Content-Type: multipart/related; boundary=sep\r\n\r\n" };
+    std::string content_type { "Content-Type: multipart/related; boundary=" + createBoundary(pMsg) + "\r\n\r\n" };
     addCommunicationLogItem(content_type.c_str());
     int header_content_type_ret_code = (*this.*sendCommandPtr)(content_type.c_str(), CLIENT_SENDMAIL_HEADERCONTENTTYPE_ERROR);
     if (header_content_type_ret_code != 0) {
@@ -1011,7 +1011,8 @@ int SMTPClientBase::addMailHeader(const char *field, const char *value, int pErr
 int SMTPClientBase::setMailBody(const Message &pMsg) {
     // Body part
     std::ostringstream body_ss;
-    body_ss << "--sep\r\nContent-Type: " << pMsg.getMimeType() << "; charset=UTF-8\r\n\r\n" << pMsg.getBody() << "\r\n";
+    const std::string boundary { createBoundary(pMsg) };
+    body_ss << "--" << boundary << "\r\nContent-Type: " << pMsg.getMimeType() << "; charset=UTF-8\r\n\r\n" << pMsg.getBody() << "\r\n";
     std::string body_real = body_ss.str();
     addCommunicationLogItem(body_real.c_str());
 
@@ -1019,10 +1020,7 @@ int SMTPClientBase::setMailBody(const Message &pMsg) {
     Attachment** arr_attachment = pMsg.getAttachments();
 
     std::vector<Attachment*> vect_attachment(arr_attachment, arr_attachment + pMsg.getAttachmentsCount());
-    if (pMsg.getAttachmentsCount() > 0) {
-        std::string attachments_text = createAttachmentsText(vect_attachment);
-        body_real += attachments_text;
-    }
+    body_real += createAttachmentsText(vect_attachment, boundary);
 
     // A line starting with a dot would otherwise be altered, or taken for the end of the message, by the server
     std::string stuffed_body;
@@ -1105,10 +1103,20 @@ void SMTPClientBase::addCommunicationLogItem(const char *pItem, const char *pPre
     mCommunicationLog[mCommunicationLogSize-1] = '\0';
 }
 
-std::string SMTPClientBase::createAttachmentsText(const std::vector<Attachment*> &pAttachments) {
+// The boundary must not appear in the body
+std::string SMTPClientBase::createBoundary(const Message &pMsg) {
+    const std::string body { pMsg.getBody() };
+    std::string boundary { "sep" };
+    for (unsigned int index = 1; body.find("--" + boundary) != std::string::npos; index++) {
+        boundary = "sep" + std::to_string(index);
+    }
+    return boundary;
+}
+
+std::string SMTPClientBase::createAttachmentsText(const std::vector<Attachment*> &pAttachments, const std::string &pBoundary) {
     std::string retval;
     for (const auto &item : pAttachments) {
-        retval += "\r\n--sep\r\n";
+        retval += "\r\n--" + pBoundary + "\r\n";
         retval += "Content-Type: " + std::string(item->getMimeType()) + "; file=\"" + std::string(item->getName()) + "\"\r\n";
         if (item->getContentId() != nullptr && std::string(item->getContentId()).size() > 0) {
             retval += "X-Attachment-Id: " + std::string(item->getContentId()) + "\r\n";
@@ -1124,7 +1132,7 @@ std::string SMTPClientBase::createAttachmentsText(const std::vector<Attachment*>
             delete[] b64;
         }
     }
-    retval += "\r\n--sep--";
+    retval += "\r\n--" + pBoundary + "--";
     return retval;
 }
 
diff --git a/src/smtpclientbase.h b/src/smtpclientbase.h
index b78dbec..388f642 100644
--- a/src/smtpclientbase.h
+++ b/src/smtpclientbase.h
@@ -203,7 +203,8 @@ class SMTPCLIENTBASE_API SMTPClientBase {
     int setMailBody(const Message &pMsg);
 
     void addCommunicationLogItem(const char *pItem, const char *pPrefix = "c");
-    static std::string createAttachmentsText(const std::vector<Attachment*> &pAttachments);
+    static std::string createBoundary(const Message &pMsg);
+    static std::string createAttachmentsText(const std::vector<Attachment*> &pAttachments, const std::string &pBoundary);
     static int extractReturnCode(const char *pOutput);
     static ServerAuthOptions *extractAuthenticationOptions(const char *pEhloOutput);
     static std::string generateHeaderAddressValues(const std::vector<jed_utils::MessageAddress *> &pList);
-- 
2.43.0


From 855cf04202b7ea785e6357ccb09a2f9cba13918c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:56 +0000
Subject: [PATCH 32/45] fix: keep line breaks out of the headers and MIME
 parameters

---
 src/smtpclientbase.cpp | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/src/smtpclientbase.cpp b/src/smtpclientbase.cpp
index 2d1afda..505e25f 100644
--- a/src/smtpclientbase.cpp
+++ b/src/smtpclientbase.cpp
@@ -44,6 +44,12 @@
 using namespace std::literals::string_literals;
 using namespace jed_utils;
 
+// A line break inside a value would start another header, MIME part or command
+static std::string toSingleLine(std::string pText) {
+    std::replace_if(pText.begin(), pText.end(), [](char c) { return c == '\r' || c == '\n'; }, ' ');
+    return pText;
+}
+
 SMTPClientBase::SMTPClientBase(const char *pServerName, unsigned int pPort)
     : mIsConnected(false),
       mServerName(nullptr),
@@ -884,7 +890,7 @@ int SMTPClientBase::setMailRecipients(const Message &pMsg) {
     std::vector<std::string> mailFormats;
     // Method 1, 2 and 3
     mailFormats.push_back("MAIL FROM: <"s + pMsg.getFrom().getEmailAddress() + ">\r\n"s);
-    mailFormats.push_back("MAIL FROM: <"s + pMsg.getFrom().getDisplayName() + " " + pMsg.getFrom().getEmailAddress() + ">\r\n"s);
+    mailFormats.push_back("MAIL FROM: <"s + toSingleLine(pMsg.getFrom().getDisplayName()) + " " + pMsg.getFrom().getEmailAddress() + ">\r\n"s);
     mailFormats.push_back("MAIL FROM: "s + pMsg.getFrom().getEmailAddress() + "\r\n"s);
 
 
@@ -954,7 +960,7 @@ int SMTPClientBase::setMailHeaders(const Message &pMsg) {
     std::stringstream from_header_ss;
     const MessageAddress &from_addr = pMsg.getFrom();
     if (strlen(from_addr.getDisplayName()) > 0) {
-        from_header_ss << from_addr.getDisplayName() << " <" << from_addr.getEmailAddress() << ">";
+        from_header_ss << toSingleLine(from_addr.getDisplayName()) << " <" << from_addr.getEmailAddress() << ">";
     } else {
         from_header_ss << from_addr.getEmailAddress();
     }
@@ -983,7 +989,7 @@ int SMTPClientBase::setMailHeaders(const Message &pMsg) {
 
     // Subject
     std::stringstream ss_header_subject;
-    ss_header_subject << "Subject: " << pMsg.getSubject() << "\r\n";
+    ss_header_subject << "Subject: " << toSingleLine(pMsg.getSubject()) << "\r\n";
     addCommunicationLogItem(ss_header_subject.str().c_str());
     int header_subject_ret_code = (*this.*sendCommandPtr)(ss_header_subject.str().c_str(), CLIENT_SENDMAIL_HEADERSUBJECT_ERROR);
     if (header_subject_ret_code != 0) {
@@ -1116,14 +1122,16 @@ std::string SMTPClientBase::createBoundary(const Message &pMsg) {
 std::string SMTPClientBase::createAttachmentsText(const std::vector<Attachment*> &pAttachments, const std::string &pBoundary) {
     std::string retval;
     for (const auto &item : pAttachments) {
+        const std::string name { toSingleLine(item->getName()) };
+        const std::string contentId { item->getContentId() != nullptr ? toSingleLine(item->getContentId()) : "" };
         retval += "\r\n--" + pBoundary + "\r\n";
-        retval += "Content-Type: " + std::string(item->getMimeType()) + "; file=\"" + std::string(item->getName()) + "\"\r\n";
-        if (item->getContentId() != nullptr && std::string(item->getContentId()).size() > 0) {
-            retval += "X-Attachment-Id: " + std::string(item->getContentId()) + "\r\n";
-            retval += "Content-ID: <" + std::string(item->getContentId()) + ">\r\n";
-            retval += "Content-Disposition: attachment; filename=\"" + std::string(item->getName()) + "\"\r\n";
+        retval += "Content-Type: " + std::string(item->getMimeType()) + "; file=\"" + name + "\"\r\n";
+        if (!contentId.empty()) {
+            retval += "X-Attachment-Id: " + contentId + "\r\n";
+            retval += "Content-ID: <" + contentId + ">\r\n";
+            retval += "Content-Disposition: attachment; filename=\"" + name + "\"\r\n";
         } else {
-            retval += "Content-Disposition: Inline; filename=\"" + std::string(item->getName()) + "\"\r\n";
+            retval += "Content-Disposition: Inline; filename=\"" + name + "\"\r\n";
         }
         retval += "Content-Transfer-Encoding: base64\r\n\r\n";
         const char* b64 = item->getBase64EncodedFile();
@@ -1223,5 +1231,5 @@ std::string SMTPClientBase::generateHeaderAddressValues(const std::vector<jed_ut
         retval << std::string(*addr);
         index++;
     }
-    return retval.str();
+    return toSingleLine(retval.str());
 }
-- 
2.43.0


From 09420487cfd143047a387401e8881dd4d935b8b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:00 +0000
Subject: [PATCH 33/45] fix: escape the quotes of the attachment names

---
 src/smtpclientbase.cpp | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/smtpclientbase.cpp b/src/smtpclientbase.cpp
index 505e25f..e774a82 100644
--- a/src/smtpclientbase.cpp
+++ b/src/smtpclientbase.cpp
@@ -50,6 +50,17 @@ static std::string toSingleLine(std::string pText) {
     return pText;
 }
 
+static std::string toQuotedString(const std::string &pText) {
+    std::string retval { '"' };
+    for (const char c : pText) {
+        if (c == '"' || c == '\\') {
+            retval += '\\';
+        }
+        retval += c;
+    }
+    return retval + '"';
+}
+
 SMTPClientBase::SMTPClientBase(const char *pServerName, unsigned int pPort)
     : mIsConnected(false),
       mServerName(nullptr),
@@ -1122,16 +1133,16 @@ std::string SMTPClientBase::createBoundary(const Message &pMsg) {
 std::string SMTPClientBase::createAttachmentsText(const std::vector<Attachment*> &pAttachments, const std::string &pBoundary) {
     std::string retval;
     for (const auto &item : pAttachments) {
-        const std::string name { toSingleLine(item->getName()) };
+        const std::string name { toQuotedString(toSingleLine(item->getName())) };
         const std::string contentId { item->getContentId() != nullptr ? toSingleLine(item->getContentId()) : "" };
         retval += "\r\n--" + pBoundary + "\r\n";
-        retval += "Content-Type: " + std::string(item->getMimeType()) + "; file=\"" + name + "\"\r\n";
+        retval += "Content-Type: " + std::string(item->getMimeType()) + "; file=" + name + "\r\n";
         if (!contentId.empty()) {
             retval += "X-Attachment-Id: " + contentId + "\r\n";
             retval += "Content-ID: <" + contentId + ">\r\n";
-            retval += "Content-Disposition: attachment; filename=\"" + name + "\"\r\n";
+            retval += "Content-Disposition: attachment; filename=" + name + "\r\n";
         } else {
-            retval += "Content-Disposition: Inline; filename=\"" + name + "\"\r\n";
+            retval += "Content-Disposition: Inline; filename=" + name + "\r\n";
         }
         retval += "Content-Transfer-Encoding: base64\r\n\r\n";
         const char* b64 = item->getBase64EncodedFile();
-- 
2.43.0


From e6cfa3c7d5a2a4e5a06cbe766527db3ee27d4244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:24 +0000
Subject: [PATCH 34/45] fix: release the previous log, reply and credential in
 client assignment

---
 src/smtpclientbase.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/smtpclientbase.cpp b/src/smtpclientbase.cpp
index e774a82..34aefbb 100644
--- a/src/smtpclientbase.cpp
+++ b/src/smtpclientbase.cpp
@@ -146,6 +146,7 @@ SMTPClientBase& SMTPClientBase::operator=(const SMTPClientBase& other) {
         // mBatchMode
         mBatchMode = other.mBatchMode;
         // mCommunicationLog
+        delete[] mCommunicationLog;
         mCommunicationLog = other.mCommunicationLog != nullptr ? new char[strlen(other.mCommunicationLog) + 1]: nullptr;
         if (mCommunicationLog != nullptr) {
             size_t communication_log_len = strlen(other.mCommunicationLog);
@@ -154,6 +155,7 @@ SMTPClientBase& SMTPClientBase::operator=(const SMTPClientBase& other) {
         }
         mCommunicationLogSize = other.mCommunicationLogSize;
         // mLastServerResponse
+        delete[] mLastServerResponse;
         mLastServerResponse = other.mLastServerResponse != nullptr ? new char[strlen(other.mLastServerResponse) + 1]: nullptr;
         if (mLastServerResponse != nullptr) {
             size_t last_server_response_len = strlen(other.mLastServerResponse);
@@ -166,6 +168,7 @@ SMTPClientBase& SMTPClientBase::operator=(const SMTPClientBase& other) {
         delete mAuthOptions;
         mAuthOptions = other.mAuthOptions != nullptr ? new ServerAuthOptions(*other.mAuthOptions) : nullptr;
         // mCredential
+        delete mCredential;
         mCredential = other.mCredential != nullptr ? new Credential(*other.mCredential) : nullptr;
         mIsConnected = false;
         mSock = -1;
-- 
2.43.0


From 10a8f20cb524cea2629d3d1f3e4bb824ac8a74f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:28 +0000
Subject: [PATCH 35/45] fix: give a copied client the size of its own log
 buffer

---
 src/smtpclientbase.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/smtpclientbase.cpp b/src/smtpclientbase.cpp
index 34aefbb..1563da3 100644
--- a/src/smtpclientbase.cpp
+++ b/src/smtpclientbase.cpp
@@ -105,7 +105,7 @@ SMTPClientBase::SMTPClientBase(const SMTPClientBase& other)
       mPort(other.mPort),
       mBatchMode(other.mBatchMode),
       mCommunicationLog(other.mCommunicationLog != nullptr ? new char[strlen(other.mCommunicationLog) + 1]: nullptr),
-      mCommunicationLogSize(other.mCommunicationLogSize),
+      mCommunicationLogSize(other.mCommunicationLog != nullptr ? strlen(other.mCommunicationLog) + 1 : 0),
       mLastServerResponse(other.mLastServerResponse != nullptr ? new char[strlen(other.mLastServerResponse) + 1]: nullptr),
       mCommandTimeOut(other.mCommandTimeOut),
       mLastSocketErrNo(other.mLastSocketErrNo),
@@ -153,7 +153,7 @@ SMTPClientBase& SMTPClientBase::operator=(const SMTPClientBase& other) {
             strncpy(mCommunicationLog, other.mCommunicationLog, communication_log_len);
             mCommunicationLog[communication_log_len] = '\0';
         }
-        mCommunicationLogSize = other.mCommunicationLogSize;
+        mCommunicationLogSize = mCommunicationLog != nullptr ? strlen(mCommunicationLog) + 1 : 0;
         // mLastServerResponse
         delete[] mLastServerResponse;
         mLastServerResponse = other.mLastServerResponse != nullptr ? new char[strlen(other.mLastServerResponse) + 1]: nullptr;
-- 
2.43.0


From 1eaefd5167a1e0226d8ceff4f01b70b38aa60ff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:31 +0000
Subject: [PATCH 36/45] fix: close the open session of a client that is
 assigned

---
 src/securesmtpclientbase.cpp | 2 ++
 src/smtpclient.cpp           | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/securesmtpclientbase.cpp b/src/securesmtpclientbase.cpp
index 28463d8..9412191 100644
--- a/src/securesmtpclientbase.cpp
+++ b/src/securesmtpclientbase.cpp
@@ -108,6 +108,7 @@ SecureSMTPClientBase::SecureSMTPClientBase(const SecureSMTPClientBase& other)
 // Assignment operator
 SecureSMTPClientBase& SecureSMTPClientBase::operator=(const SecureSMTPClientBase& other) {
     if (this != &other) {
+        SecureSMTPClientBase::cleanup();
         SMTPClientBase::operator=(other);
         mBIO = nullptr;
         mCTX = nullptr;
@@ -135,6 +136,7 @@ SecureSMTPClientBase::SecureSMTPClientBase(SecureSMTPClientBase&& other) noexcep
 // Move assignement operator
 SecureSMTPClientBase& SecureSMTPClientBase::operator=(SecureSMTPClientBase&& other) noexcept {
     if (this != &other) {
+        SecureSMTPClientBase::cleanup();
         // Copy the data pointer and its length from the source object.
         mBIO = other.mBIO;
         mCTX = other.mCTX;
diff --git a/src/smtpclient.cpp b/src/smtpclient.cpp
index 1f5e8f3..e882821 100644
--- a/src/smtpclient.cpp
+++ b/src/smtpclient.cpp
@@ -26,6 +26,7 @@ SmtpClient::~SmtpClient() {
 // Assignment operator
 SmtpClient& SmtpClient::operator=(const SmtpClient &other) {
     if (this != &other) {
+        SmtpClient::cleanup();
         SMTPClientBase::operator=(other);
     }
     return *this;
@@ -39,6 +40,7 @@ SmtpClient::SmtpClient(SmtpClient &&other) noexcept
 // Move assignement
 SmtpClient& SmtpClient::operator=(SmtpClient &&other) noexcept {
     if (this != &other) {
+        SmtpClient::cleanup();
         SMTPClientBase::operator=(std::move(other));
     }
     return *this;
-- 
2.43.0


From 7b3b6b6705dcae47f73825749e7951f89dc6257b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:00 +0000
Subject: [PATCH 37/45] fix: own the credential of the C++ clients

---
 src/cpp/forcedsecuresmtpclient.cpp        | 5 ++---
 src/cpp/forcedsecuresmtpclient.hpp        | 3 ++-
 src/cpp/opportunisticsecuresmtpclient.cpp | 5 ++---
 src/cpp/opportunisticsecuresmtpclient.hpp | 3 ++-
 src/cpp/smtpclient.cpp                    | 5 ++---
 src/cpp/smtpclient.hpp                    | 3 ++-
 6 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/cpp/forcedsecuresmtpclient.cpp b/src/cpp/forcedsecuresmtpclient.cpp
index f1cc91d..4548b8c 100644
--- a/src/cpp/forcedsecuresmtpclient.cpp
+++ b/src/cpp/forcedsecuresmtpclient.cpp
@@ -28,7 +28,7 @@ std::string ForcedSecureSMTPClient::getCommunicationLog() const {
 }
 
 const Credential *ForcedSecureSMTPClient::getCredentials() const {
-    return mCredential;
+    return mCredential.get();
 }
 
 bool ForcedSecureSMTPClient::getAcceptSelfSignedCert() const {
@@ -55,8 +55,7 @@ void ForcedSecureSMTPClient::setCredentials(const Credential &pCredential) {
     jed_utils::SMTPClientBase::setCredentials(jed_utils::Credential(pCredential.getUsername().c_str(),
                                                                     pCredential.getPassword().c_str(),
                                                                     pCredential.getRecommendedAuthOption()));
-    delete mCredential;
-    mCredential = new Credential(pCredential);
+    mCredential = std::make_shared<const Credential>(pCredential);
 }
 
 void ForcedSecureSMTPClient::setAcceptSelfSignedCert(bool pValue) {
diff --git a/src/cpp/forcedsecuresmtpclient.hpp b/src/cpp/forcedsecuresmtpclient.hpp
index 949c035..bb5bd8f 100644
--- a/src/cpp/forcedsecuresmtpclient.hpp
+++ b/src/cpp/forcedsecuresmtpclient.hpp
@@ -1,6 +1,7 @@
 #ifndef CPPFORCEDSECURESMTPCLIENT_H
 #define CPPFORCEDSECURESMTPCLIENT_H
 
+#include <memory>
 #include "credential.hpp"
 #include "../forcedsecuresmtpclient.h"
 
@@ -150,7 +151,7 @@ class CPP_FORCEDSECURESMTPCLIENT_API ForcedSecureSMTPClient : private jed_utils:
     static jed_utils::ServerAuthOptions *extractAuthenticationOptions(const std::string &pEhloOutput);
 
  private:
-    Credential* mCredential = nullptr;
+    std::shared_ptr<const Credential> mCredential;
 };
 }  // namespace cpp
 }  // namespace jed_utils
diff --git a/src/cpp/opportunisticsecuresmtpclient.cpp b/src/cpp/opportunisticsecuresmtpclient.cpp
index 2932cfe..5fcbe64 100644
--- a/src/cpp/opportunisticsecuresmtpclient.cpp
+++ b/src/cpp/opportunisticsecuresmtpclient.cpp
@@ -28,7 +28,7 @@ std::string OpportunisticSecureSMTPClient::getCommunicationLog() const {
 }
 
 const Credential *OpportunisticSecureSMTPClient::getCredentials() const {
-    return mCredential;
+    return mCredential.get();
 }
 
 bool OpportunisticSecureSMTPClient::getAcceptSelfSignedCert() const {
@@ -55,8 +55,7 @@ void OpportunisticSecureSMTPClient::setCredentials(const Credential &pCredential
     jed_utils::SMTPClientBase::setCredentials(jed_utils::Credential(pCredential.getUsername().c_str(),
                                                                     pCredential.getPassword().c_str(),
                                                                     pCredential.getRecommendedAuthOption()));
-    delete mCredential;
-    mCredential = new Credential(pCredential);
+    mCredential = std::make_shared<const Credential>(pCredential);
 }
 
 void OpportunisticSecureSMTPClient::setAcceptSelfSignedCert(bool pValue) {
diff --git a/src/cpp/opportunisticsecuresmtpclient.hpp b/src/cpp/opportunisticsecuresmtpclient.hpp
index 8ed476b..d52648b 100644
--- a/src/cpp/opportunisticsecuresmtpclient.hpp
+++ b/src/cpp/opportunisticsecuresmtpclient.hpp
@@ -1,6 +1,7 @@
 #ifndef CPPOPPORTUNISTICSECURESMTPCLIENT_H
 #define CPPOPPORTUNISTICSECURESMTPCLIENT_H
 
+#include <memory>
 #include "credential.hpp"
 #include "../opportunisticsecuresmtpclient.h"
 
@@ -150,7 +151,7 @@ class CPP_OPPORTUNISTICSECURESMTPCLIENT_API OpportunisticSecureSMTPClient : priv
     static jed_utils::ServerAuthOptions *extractAuthenticationOptions(const std::string &pEhloOutput);
 
  private:
-    Credential* mCredential = nullptr;
+    std::shared_ptr<const Credential> mCredential;
 };
 }  // namespace cpp
 }  // namespace jed_utils
diff --git a/src/cpp/smtpclient.cpp b/src/cpp/smtpclient.cpp
index 1a1d80a..3469c93 100644
--- a/src/cpp/smtpclient.cpp
+++ b/src/cpp/smtpclient.cpp
@@ -28,7 +28,7 @@ std::string SmtpClient::getCommunicationLog() const {
 }
 
 const Credential *SmtpClient::getCredentials() const {
-    return mCredential;
+    return mCredential.get();
 }
 
 void SmtpClient::setServerName(const std::string &pServerName) {
@@ -50,8 +50,7 @@ void SmtpClient::setCommandTimeout(unsigned int pTimeOutInSeconds) {
 void SmtpClient::setCredentials(const Credential &pCredential) {
     jed_utils::SMTPClientBase::setCredentials(jed_utils::Credential(pCredential.getUsername().c_str(),
                                                                     pCredential.getPassword().c_str()));
-    delete mCredential;
-    mCredential = new Credential(pCredential);
+    mCredential = std::make_shared<const Credential>(pCredential);
 }
 
 void SmtpClient::setKeepUsingBaseSendCommands(bool pValue) {
diff --git a/src/cpp/smtpclient.hpp b/src/cpp/smtpclient.hpp
index bc3a922..8ed4abe 100644
--- a/src/cpp/smtpclient.hpp
+++ b/src/cpp/smtpclient.hpp
@@ -1,6 +1,7 @@
 #ifndef CPPSMTPCLIENT
 #define CPPSMTPCLIENT
 
+#include <memory>
 #include <string>
 #include "credential.hpp"
 #include "message.hpp"
@@ -143,7 +144,7 @@ class CPP_SMTPCLIENT_API SmtpClient : private jed_utils::SmtpClient {
     static jed_utils::ServerAuthOptions *extractAuthenticationOptions(const std::string &pEhloOutput);
 
  private:
-    Credential* mCredential = nullptr;
+    std::shared_ptr<const Credential> mCredential;
 };
 }  // namespace cpp
 }  // namespace jed_utils
-- 
2.43.0


From 1381f6a874213bfa7bee4edaa6b7dd4d443accc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:15 +0000
Subject: [PATCH 38/45] fix: pass on the recommended authentication method of
 C++ credentials

---
 src/cpp/smtpclient.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cpp/smtpclient.cpp b/src/cpp/smtpclient.cpp
index 3469c93..69de2d8 100644
--- a/src/cpp/smtpclient.cpp
+++ b/src/cpp/smtpclient.cpp
@@ -49,7 +49,8 @@ void SmtpClient::setCommandTimeout(unsigned int pTimeOutInSeconds) {
 
 void SmtpClient::setCredentials(const Credential &pCredential) {
     jed_utils::SMTPClientBase::setCredentials(jed_utils::Credential(pCredential.getUsername().c_str(),
-                                                                    pCredential.getPassword().c_str()));
+                                                                    pCredential.getPassword().c_str(),
+                                                                    pCredential.getRecommendedAuthOption()));
     mCredential = std::make_shared<const Credential>(pCredential);
 }
 
-- 
2.43.0


From 35d4aaa841b470d4409d8ba6663881a93f0197ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:18 +0000
Subject: [PATCH 39/45] fix: release the texts that the C++ interface converts

---
 src/cpp/attachment.cpp                    | 5 +++--
 src/cpp/forcedsecuresmtpclient.cpp        | 5 +++--
 src/cpp/opportunisticsecuresmtpclient.cpp | 5 +++--
 src/cpp/smtpclient.cpp                    | 5 +++--
 4 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/cpp/attachment.cpp b/src/cpp/attachment.cpp
index 315116a..07f0eec 100644
--- a/src/cpp/attachment.cpp
+++ b/src/cpp/attachment.cpp
@@ -1,4 +1,5 @@
 #include "attachment.hpp"
+#include <memory>
 
 using namespace jed_utils::cpp;
 
@@ -23,8 +24,8 @@ std::string Attachment::getContentId() const {
 }
 
 std::string Attachment::getBase64EncodedFile() const {
-    const char *retval = jed_utils::Attachment::getBase64EncodedFile();
-    return retval == nullptr ? "" : retval;
+    const std::unique_ptr<const char[]> retval { jed_utils::Attachment::getBase64EncodedFile() };
+    return retval == nullptr ? "" : retval.get();
 }
 
 std::string Attachment::getMimeType() const {
diff --git a/src/cpp/forcedsecuresmtpclient.cpp b/src/cpp/forcedsecuresmtpclient.cpp
index 4548b8c..1ae59db 100644
--- a/src/cpp/forcedsecuresmtpclient.cpp
+++ b/src/cpp/forcedsecuresmtpclient.cpp
@@ -67,13 +67,14 @@ void ForcedSecureSMTPClient::setKeepUsingBaseSendCommands(bool pValue) {
 }
 
 std::string ForcedSecureSMTPClient::getErrorMessage(int errorCode) {
-    return jed_utils::SMTPClientBase::getErrorMessage(errorCode);
+    const std::unique_ptr<char[]> errorMessage { jed_utils::SMTPClientBase::getErrorMessage(errorCode) };
+    return errorMessage.get();
 }
 
 int ForcedSecureSMTPClient::getErrorMessage_r(int errorCode,
                                   std::string &errorMessage) {
     const size_t MAXSIZE = 1024;
-    char *errorMsg = new char[MAXSIZE];
+    char errorMsg[MAXSIZE];
     int result = jed_utils::SMTPClientBase::getErrorMessage_r(errorCode, errorMsg, MAXSIZE);
     errorMessage = errorMsg;
     return result;
diff --git a/src/cpp/opportunisticsecuresmtpclient.cpp b/src/cpp/opportunisticsecuresmtpclient.cpp
index 5fcbe64..7f3c754 100644
--- a/src/cpp/opportunisticsecuresmtpclient.cpp
+++ b/src/cpp/opportunisticsecuresmtpclient.cpp
@@ -67,13 +67,14 @@ void OpportunisticSecureSMTPClient::setKeepUsingBaseSendCommands(bool pValue) {
 }
 
 std::string OpportunisticSecureSMTPClient::getErrorMessage(int errorCode) {
-    return jed_utils::SMTPClientBase::getErrorMessage(errorCode);
+    const std::unique_ptr<char[]> errorMessage { jed_utils::SMTPClientBase::getErrorMessage(errorCode) };
+    return errorMessage.get();
 }
 
 int OpportunisticSecureSMTPClient::getErrorMessage_r(int errorCode,
                                   std::string &errorMessage) {
     const size_t MAXSIZE = 1024;
-    char *errorMsg = new char[MAXSIZE];
+    char errorMsg[MAXSIZE];
     int result = jed_utils::SMTPClientBase::getErrorMessage_r(errorCode, errorMsg, MAXSIZE);
     errorMessage = errorMsg;
     return result;
diff --git a/src/cpp/smtpclient.cpp b/src/cpp/smtpclient.cpp
index 69de2d8..cd7c503 100644
--- a/src/cpp/smtpclient.cpp
+++ b/src/cpp/smtpclient.cpp
@@ -59,13 +59,14 @@ void SmtpClient::setKeepUsingBaseSendCommands(bool pValue) {
 }
 
 std::string SmtpClient::getErrorMessage(int errorCode) {
-    return jed_utils::SMTPClientBase::getErrorMessage(errorCode);
+    const std::unique_ptr<char[]> errorMessage { jed_utils::SMTPClientBase::getErrorMessage(errorCode) };
+    return errorMessage.get();
 }
 
 int SmtpClient::getErrorMessage_r(int errorCode,
                                   std::string &errorMessage) {
     const size_t MAXSIZE = 1024;
-    char *errorMsg = new char[MAXSIZE];
+    char errorMsg[MAXSIZE];
     int result = jed_utils::SMTPClientBase::getErrorMessage_r(errorCode, errorMsg, MAXSIZE);
     errorMessage = errorMsg;
     return result;
-- 
2.43.0


From efefdf8a4cf22d0c367703f1c60c7a44d3566ee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:35 +0000
Subject: [PATCH 40/45] fix: define the equality of C++ message addresses

---
 src/cpp/messageaddress.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/cpp/messageaddress.cpp b/src/cpp/messageaddress.cpp
index 2e3a095..e9fa1c3 100644
--- a/src/cpp/messageaddress.cpp
+++ b/src/cpp/messageaddress.cpp
@@ -8,6 +8,10 @@ MessageAddress::MessageAddress(const std::string &pEmailAddress,
     : jed_utils::MessageAddress(pEmailAddress.c_str(), pDisplayName.c_str()) {
 }
 
+bool MessageAddress::operator==(const MessageAddress &pMsgComp) const {
+    return jed_utils::MessageAddress::operator==(pMsgComp);
+}
+
 MessageAddress::operator std::string() const {
     return jed_utils::MessageAddress::operator std::string();
 }
-- 
2.43.0


From 0e06bf209c6127ed2da0be50f346e51aa87127bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:41 +0000
Subject: [PATCH 41/45] fix: let setters take a value of the object itself

---
 src/credential.cpp     | 18 ++++++++++--------
 src/smtpclientbase.cpp | 12 +++++++-----
 2 files changed, 17 insertions(+), 13 deletions(-)

diff --git a/src/credential.cpp b/src/credential.cpp
index 7f4169e..24c44c9 100644
--- a/src/credential.cpp
+++ b/src/credential.cpp
@@ -127,11 +127,12 @@ void Credential::setUsername(const char *pUsername) {
         throw std::invalid_argument("Username cannot be null or empty");
     }
 
-    delete []mUsername;
     size_t username_len = strlen(pUsername);
-    mUsername = new char[username_len + 1];
-    strncpy(mUsername, pUsername, username_len);
-    mUsername[username_len] = '\0';
+    char *username = new char[username_len + 1];
+    strncpy(username, pUsername, username_len);
+    username[username_len] = '\0';
+    delete []mUsername;
+    mUsername = username;
 }
 
 void Credential::setPassword(const char *pPassword) {
@@ -139,11 +140,12 @@ void Credential::setPassword(const char *pPassword) {
         throw std::invalid_argument("Password cannot be null or empty");
     }
 
-    delete []mPassword;
     size_t password_len = strlen(pPassword);
-    mPassword = new char[password_len + 1];
-    strncpy(mPassword, pPassword, password_len);
-    mPassword[password_len] = '\0';
+    char *password = new char[password_len + 1];
+    strncpy(password, pPassword, password_len);
+    password[password_len] = '\0';
+    delete []mPassword;
+    mPassword = password;
 }
 
 void Credential::setRecommendedAuthOption(
diff --git a/src/smtpclientbase.cpp b/src/smtpclientbase.cpp
index 1563da3..9bc6a64 100644
--- a/src/smtpclientbase.cpp
+++ b/src/smtpclientbase.cpp
@@ -285,11 +285,12 @@ void SMTPClientBase::setServerName(const char *pServerName) {
     if (pServerName == nullptr || strcmp(pServerName, "") == 0  || StringUtils::trim(servername_str).empty()) {
         throw std::invalid_argument("Server name cannot be null or empty");
     }
-    delete []mServerName;
     size_t server_name_len = strlen(pServerName);
-    mServerName = new char[server_name_len + 1];
-    strncpy(mServerName, pServerName, server_name_len);
-    mServerName[server_name_len] = '\0';
+    char *server_name = new char[server_name_len + 1];
+    strncpy(server_name, pServerName, server_name_len);
+    server_name[server_name_len] = '\0';
+    delete []mServerName;
+    mServerName = server_name;
 }
 
 void SMTPClientBase::setBatchMode(bool pEnabled) {
@@ -301,8 +302,9 @@ void SMTPClientBase::setCommandTimeout(unsigned int pTimeOutInSeconds) {
 }
 
 void SMTPClientBase::setCredentials(const Credential &pCredential) {
-    delete mCredential;
+    const Credential *previousCredential = mCredential;
     mCredential = new Credential(pCredential);
+    delete previousCredential;
 }
 
 void SMTPClientBase::setKeepUsingBaseSendCommands(bool pValue) {
-- 
2.43.0


From 128cdb1bcbc93c51437091e12abe3e288f5e0d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:08 +0000
Subject: [PATCH 42/45] fix: take null display names, attachment names and
 content ids as empty

---
 src/attachment.cpp     | 18 ++++++++++++------
 src/messageaddress.cpp |  6 ++++--
 2 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/attachment.cpp b/src/attachment.cpp
index 7ee2b87..d3c2235 100644
--- a/src/attachment.cpp
+++ b/src/attachment.cpp
@@ -20,14 +20,18 @@ Attachment::Attachment(const char *pFilename, const char *pName, const char *pCo
     strncpy(mFilename, pFilename, filename_len);
     mFilename[filename_len] = '\0';
 
-    size_t name_len = strlen(pName);
+    size_t name_len = pName == nullptr ? 0 : strlen(pName);
     mName = new char[name_len+1];
-    strncpy(mName, pName, name_len);
+    if (pName != nullptr) {
+        strncpy(mName, pName, name_len);
+    }
     mName[name_len] = '\0';
 
-    size_t contentid_len = strlen(pContentId);
+    size_t contentid_len = pContentId == nullptr ? 0 : strlen(pContentId);
     mContentId = new char[contentid_len+1];
-    strncpy(mContentId, pContentId, contentid_len);
+    if (pContentId != nullptr) {
+        strncpy(mContentId, pContentId, contentid_len);
+    }
     mContentId[contentid_len] = '\0';
 }
 
@@ -111,9 +115,11 @@ Attachment& Attachment::operator=(Attachment&& other) noexcept {
 }
 
 void Attachment::setContentId(const char * pContentId) {
-    size_t contentid_len = strlen(pContentId);
+    size_t contentid_len = pContentId == nullptr ? 0 : strlen(pContentId);
     char *content_id = new char[contentid_len + 1];
-    strncpy(content_id, pContentId, contentid_len);
+    if (pContentId != nullptr) {
+        strncpy(content_id, pContentId, contentid_len);
+    }
     content_id[contentid_len] = '\0';
     delete[] mContentId;
     mContentId = content_id;
diff --git a/src/messageaddress.cpp b/src/messageaddress.cpp
index ccfa4aa..1e2b671 100644
--- a/src/messageaddress.cpp
+++ b/src/messageaddress.cpp
@@ -25,9 +25,11 @@ MessageAddress::MessageAddress(const char *pEmailAddress, const char *pDisplayNa
     strncpy(mEmailAddress, pEmailAddress, email_len);
     mEmailAddress[email_len] = '\0';
 
-    size_t name_len = strlen(pDisplayName);
+    size_t name_len = pDisplayName == nullptr ? 0 : strlen(pDisplayName);
     mDisplayName = new char[name_len+1];
-    strncpy(mDisplayName, pDisplayName, name_len);
+    if (pDisplayName != nullptr) {
+        strncpy(mDisplayName, pDisplayName, name_len);
+    }
     mDisplayName[name_len] = '\0';
 }
 
-- 
2.43.0


From cea313331a8ff7efaa20ac5ac0ad3783a266d9aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:12 +0000
Subject: [PATCH 43/45] fix: do not take OpenSSL errors of other sessions for
 errors of this one

---
 src/securesmtpclientbase.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/securesmtpclientbase.cpp b/src/securesmtpclientbase.cpp
index 9412191..578434a 100644
--- a/src/securesmtpclientbase.cpp
+++ b/src/securesmtpclientbase.cpp
@@ -79,6 +79,8 @@ static int retryIfInterrupted(BIO *pBIO, Call pCall) {
     int result {0};
     do {
         errno = 0;
+        // An error left by another session would be taken for an error of this call
+        ERR_clear_error();
         result = static_cast<int>(pCall());
     } while (result <= 0 && errno == EINTR && BIO_should_retry(pBIO));
     return result;
@@ -383,6 +385,7 @@ int SecureSMTPClientBase::getServerReply() {
     while (!isReplyComplete(fullResponse) && fullResponse.length() < SERVERRESPONSE_MAX_LENGTH) {
         char received {'\0'};
         errno = 0;
+        ERR_clear_error();
         if (BIO_read(mBIO, &received, 1) > 0) {
             fullResponse += received != '\0' ? received : ' ';
             continue;
-- 
2.43.0


From 29c45e436a20a76cbddca0f9344aa6a0bda3d53b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:42 +0000
Subject: [PATCH 44/45] fix: do not take a server name beginning with auth for
 the AUTH capability

---
 src/smtpclientbase.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/smtpclientbase.cpp b/src/smtpclientbase.cpp
index 9bc6a64..0395198 100644
--- a/src/smtpclientbase.cpp
+++ b/src/smtpclientbase.cpp
@@ -1179,9 +1179,11 @@ ServerAuthOptions *ParseAuthenticationOptions(const std::string &authLine) {
     const std::string AUTH_LINE_PREFIX = "250-AUTH";
     const std::string AUTH_LINE_PREFIX_ALTERNATE = "250 AUTH";
     std::string line = StringUtils::toUpper(authLine);
-    // Find the line that begin with 250-AUTH or 250 AUTH
-    if (line.substr(0, AUTH_LINE_PREFIX.length()) == AUTH_LINE_PREFIX ||
-        line.substr(0, AUTH_LINE_PREFIX_ALTERNATE.length()) == AUTH_LINE_PREFIX_ALTERNATE) {
+    // Find the line that begin with 250-AUTH or 250 AUTH (not a longer word such as the host name of the server)
+    const bool isWholeWord = line.length() <= AUTH_LINE_PREFIX.length() ||
+        line[AUTH_LINE_PREFIX.length()] == ' ' || line[AUTH_LINE_PREFIX.length()] == '=';
+    if (isWholeWord && (line.substr(0, AUTH_LINE_PREFIX.length()) == AUTH_LINE_PREFIX ||
+        line.substr(0, AUTH_LINE_PREFIX_ALTERNATE.length()) == AUTH_LINE_PREFIX_ALTERNATE)) {
         retval = new ServerAuthOptions();
         // Find each options
         std::vector<std::string> options;
-- 
2.43.0


From 2fde06ce3d0976ebaaf1b5a10c67864fbeb8ab8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:57 +0000
Subject: [PATCH 45/45] fix: keep long credentials on one line of the
 authentication exchange

---
 src/smtpclientbase.cpp | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/smtpclientbase.cpp b/src/smtpclientbase.cpp
index 0395198..0bc19ce 100644
--- a/src/smtpclientbase.cpp
+++ b/src/smtpclientbase.cpp
@@ -844,6 +844,13 @@ int SMTPClientBase::authenticateClient() {
     return CLIENT_AUTHENTICATE_NONEED;
 }
 
+// Base64::Encode breaks long output into lines, an authentication response has to stay on one
+static std::string encodeCredentials(const std::string &pCredentials) {
+    std::string encoded { Base64::Encode(reinterpret_cast<const unsigned char*>(pCredentials.data()), pCredentials.length()) };
+    encoded.erase(std::remove_if(encoded.begin(), encoded.end(), [](char c) { return c == '\r' || c == '\n'; }), encoded.end());
+    return encoded;
+}
+
 int SMTPClientBase::authenticateWithMethodPlain() {
     addCommunicationLogItem("AUTH PLAIN ***************\r\n");
     std::stringstream ss_credentials;
@@ -852,8 +859,7 @@ int SMTPClientBase::authenticateWithMethodPlain() {
     std::string str_credentials = ss_credentials.str();
     std::stringstream ss;
     ss << "AUTH PLAIN "
-        << Base64::Encode(reinterpret_cast<const unsigned char*>(str_credentials.c_str()),
-                strlen(mCredential->getUsername()) + strlen(mCredential->getPassword()) + 2)  // + 2 for the two null characters
+        << encodeCredentials(str_credentials)
         << "\r\n";
     return (*this.*sendCommandWithFeedbackPtr)(ss.str().c_str(), CLIENT_AUTHENTICATE_ERROR, CLIENT_AUTHENTICATE_TIMEOUT);
 }
@@ -867,8 +873,7 @@ int SMTPClientBase::authenticateWithMethodLogin() {
         return CLIENT_AUTHENTICATE_ERROR;
     }
 
-    std::string encoded_username { Base64::Encode(reinterpret_cast<const unsigned char*>(mCredential->getUsername()),
-            strlen(mCredential->getUsername())) };
+    std::string encoded_username { encodeCredentials(mCredential->getUsername()) };
     std::stringstream ss_username;
     ss_username << encoded_username << "\r\n";
     int username_return_code = (*this.*sendCommandWithFeedbackPtr)(ss_username.str().c_str(),
@@ -877,8 +882,7 @@ int SMTPClientBase::authenticateWithMethodLogin() {
     if (username_return_code != STATUS_CODE_SERVER_CHALLENGE) {
         return CLIENT_AUTHENTICATE_ERROR;
     }
-    std::string encoded_password { Base64::Encode(reinterpret_cast<const unsigned char*>(mCredential->getPassword()),
-            strlen(mCredential->getPassword())) };
+    std::string encoded_password { encodeCredentials(mCredential->getPassword()) };
     std::stringstream ss_password;
     ss_password << encoded_password << "\r\n";
     return (*this.*sendCommandWithFeedbackPtr)(ss_password.str().c_str(), CLIENT_AUTHENTICATE_ERROR, CLIENT_AUTHENTICATE_TIMEOUT);
@@ -891,8 +895,7 @@ int SMTPClientBase::authenticatedWithMethodXOauth2() {
 
     auto rawCredentials = encodedCredentials.str();
 
-    std::string credentials = Base64::Encode(
-        reinterpret_cast<const unsigned char*>(rawCredentials.c_str()), rawCredentials.length());
+    std::string credentials = encodeCredentials(rawCredentials);
 
     std::stringstream cmd{};
     cmd << "AUTH XOAUTH2 " << credentials << "\r\n";
-- 
2.43.0

