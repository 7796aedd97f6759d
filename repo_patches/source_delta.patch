From 892ec4dea7d4cd5c90ae8f3fcfb14658efa9dd5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:16 +0000
Subject: [PATCH 01/29] fix: do not let a stale errno reject a valid body
 length (l=)

strtoul() never sets errno to zero, so an ERANGE left behind by an earlier
call made every later signature with an l= tag a permanent error.
---
 src/Signature.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Signature.cpp b/src/Signature.cpp
index fed6983..7da7409 100644
--- a/src/Signature.cpp
+++ b/src/Signature.cpp
@@ -253,6 +253,7 @@ void Signature::Parse(const std::shared_ptr<DKIM::Header> header)
 			throw DKIM::PermanentError("Invalid body signed length; exceeds 76 digits (l)");
 
 		char* ptr;
+		errno = 0;
 		unsigned long bs = strtoul(l.GetValue().c_str(), &ptr, 10);
 		if (errno == ERANGE)
 			throw DKIM::PermanentError("Invalid body signed length; exceeds available storage size of unsigned long (l)");
-- 
2.43.0


From d3556dcc7f7bb8d42b0fd61f219e219a02cf82bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:16 +0000
Subject: [PATCH 02/29] fix: name each additional signature's own algorithm in
 a=

All signatures were labelled with the algorithm of the first one, so an
additional Ed25519 signature beside an RSA one (or the reverse) never verified.
---
 src/Signatory.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Signatory.cpp b/src/Signatory.cpp
index 9e59350..64b261b 100644
--- a/src/Signatory.cpp
+++ b/src/Signatory.cpp
@@ -144,10 +144,10 @@ std::string Signatory::CreateSignature(const SignatoryOptions& options)
 		std::string dkimHeader;
 		unsigned long arcInstance = options.GetARCInstance();
 		if (arcInstance)
-			dkimHeader += "ARC-Message-Signature: i=" + StringFormat("%lu", arcInstance) + "; a=" + Algorithm2String(options.GetSignatureAlgorithm(), options.GetDigestAlgorithm()) + "; c="
+			dkimHeader += "ARC-Message-Signature: i=" + StringFormat("%lu", arcInstance) + "; a=" + Algorithm2String(signature.GetSignatureAlgorithm(), options.GetDigestAlgorithm()) + "; c="
 						+ CanonMode2String(options.GetCanonModeHeader()) + "/" + CanonMode2String(options.GetCanonModeBody()) + ";";
 		else
-			dkimHeader += "DKIM-Signature: v=1; a=" + Algorithm2String(options.GetSignatureAlgorithm(), options.GetDigestAlgorithm()) + "; c="
+			dkimHeader += "DKIM-Signature: v=1; a=" + Algorithm2String(signature.GetSignatureAlgorithm(), options.GetDigestAlgorithm()) + "; c="
 						+ CanonMode2String(options.GetCanonModeHeader()) + "/" + CanonMode2String(options.GetCanonModeBody()) + ";";
 
 		time_t timestamp = -1;
-- 
2.43.0


From 6d51b7e58d16fd1b5af7c51b98006cfd1585b5e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:16 +0000
Subject: [PATCH 03/29] fix: do not parse body lines as headers when signing a
 second time

CreateSignature() read one more line on every call, so a second call on the
same Signatory moved the body offset and signed something else.
---
 src/Signatory.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Signatory.cpp b/src/Signatory.cpp
index 64b261b..0522c98 100644
--- a/src/Signatory.cpp
+++ b/src/Signatory.cpp
@@ -54,7 +54,7 @@ Signatory::~Signatory()
 
 std::string Signatory::CreateSignature(const SignatoryOptions& options)
 {
-	while (m_msg.ParseLine(m_file) && !m_msg.IsDone()) { }
+	while (!m_msg.IsDone() && m_msg.ParseLine(m_file)) { }
 
 	// create signature for our body (message data)
 	std::unique_ptr<EVP_MD_CTX, std::function<void(EVP_MD_CTX*)>> evpmdbody(EVP_MD_CTX_create(), [] (EVP_MD_CTX* p) { EVP_MD_CTX_destroy(p); });
-- 
2.43.0


From 5b33055d856845f47157af6e807711ff797e8664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:16 +0000
Subject: [PATCH 04/29] fix: sign the existing occurrences of an oversigned
 header

A header named in the oversign list but not among the headers to sign was
listed in h= without being hashed when the message had it, so the signature
could not verify.
---
 src/Signatory.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/Signatory.cpp b/src/Signatory.cpp
index 0522c98..de1fc11 100644
--- a/src/Signatory.cpp
+++ b/src/Signatory.cpp
@@ -114,6 +114,13 @@ std::string Signatory::CreateSignature(const SignatoryOptions& options)
 	bool signAll = false;
 	if (headersToSign.empty()) signAll = true;
 
+	// an oversigned header is listed in h=, hence all its occurrences must be signed
+	for (auto name : options.GetOversignHeaders())
+	{
+		transform(name.begin(), name.end(), name.begin(), tolower);
+		headersToSign.insert(name);
+	}
+
 	// add all headers to our cache (they will be pop of the end)
 	const auto & headers = m_msg.GetHeaders();
 	for (auto h = headers.rbegin(); h != headers.rend(); ++h)
-- 
2.43.0


From eba8ad1ae73a2579a8c0cebe498d7a6ae9bbb12e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:16 +0000
Subject: [PATCH 05/29] fix: do not emit the identity as a second i= in
 ARC-Message-Signature

In an ARC message signature i= is the instance; the duplicate tag made the
signature invalid.
---
 src/Signatory.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Signatory.cpp b/src/Signatory.cpp
index de1fc11..8fa1801 100644
--- a/src/Signatory.cpp
+++ b/src/Signatory.cpp
@@ -178,7 +178,7 @@ std::string Signatory::CreateSignature(const SignatoryOptions& options)
 			limit = StringFormat("; l=%lu", options.GetBodyLength());
 
 		std::string identity;
-		if (!options.GetIdentity().empty())
+		if (!arcInstance && !options.GetIdentity().empty())
 			identity = StringFormat("; i=%s", DKIM::Conversion::QuotedPrintable::Encode(options.GetIdentity()).c_str());
 
 		dkimHeader += "\td=" + signature.GetDomain() + "; s=" + signature.GetSelector() + identity + limit + ";\r\n";
-- 
2.43.0


From 2a5ca66eba18f29001035d7e0d07ae3349e96543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:34 +0000
Subject: [PATCH 06/29] fix: do not put the identity into additional signatures
 of other domains

i= must be within d=; a signature for another domain carrying it is invalid.
---
 src/Signatory.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/Signatory.cpp b/src/Signatory.cpp
index 8fa1801..665ec40 100644
--- a/src/Signatory.cpp
+++ b/src/Signatory.cpp
@@ -43,6 +43,15 @@ using DKIM::Util::StringFormat;
 #include <map>
 #include <set>
 
+// true if the identity belongs to the domain or one of its sub-domains
+static bool IdentityWithinDomain(const std::string& identity, const std::string& domain)
+{
+	std::string mail = "." + identity.substr(identity.find('@') + 1), d = "." + domain;
+	transform(mail.begin(), mail.end(), mail.begin(), tolower);
+	transform(d.begin(), d.end(), d.begin(), tolower);
+	return mail.size() >= d.size() && mail.compare(mail.size() - d.size(), d.size(), d) == 0;
+}
+
 Signatory::Signatory(std::istream& file)
 : m_file(file)
 {
@@ -178,7 +187,8 @@ std::string Signatory::CreateSignature(const SignatoryOptions& options)
 			limit = StringFormat("; l=%lu", options.GetBodyLength());
 
 		std::string identity;
-		if (!arcInstance && !options.GetIdentity().empty())
+		if (!arcInstance && !options.GetIdentity().empty() &&
+			(&signature == &options.GetAdditionalSignatures().front() || IdentityWithinDomain(options.GetIdentity(), signature.GetDomain())))
 			identity = StringFormat("; i=%s", DKIM::Conversion::QuotedPrintable::Encode(options.GetIdentity()).c_str());
 
 		dkimHeader += "\td=" + signature.GetDomain() + "; s=" + signature.GetSelector() + identity + limit + ";\r\n";
-- 
2.43.0


From df49cc56b04844dbcbc04fdcaa1be76ee58c9fd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:34 +0000
Subject: [PATCH 07/29] fix: delete the white space around the b= value before
 hashing

RFC 6376 section 3.7 deletes the value "including all surrounding whitespace";
signatures by signers which fold after b= or before the next ; did not verify.
---
 src/Validatory.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/Validatory.cpp b/src/Validatory.cpp
index 5181e58..722f511 100644
--- a/src/Validatory.cpp
+++ b/src/Validatory.cpp
@@ -243,7 +243,14 @@ void Validatory::CheckSignature(const std::shared_ptr<DKIM::Header> header,
 
 	DKIM::TagListEntry bTag;
 	sig.GetTag("b", bTag);
-	v.erase((int)bTag.GetValueOffset(), bTag.GetValue().size());
+
+	// the white space around the value is deleted with it (rfc6376 section 3.7)
+	size_t bBegin = bTag.GetValueOffset(), bEnd = bBegin + bTag.GetValue().size();
+	while (bBegin > 0 && isspace((unsigned char)v[bBegin - 1]))
+		--bBegin;
+	while (bEnd < v.size() && isspace((unsigned char)v[bEnd]))
+		++bEnd;
+	v.erase(bBegin, bEnd - bBegin);
 
 	std::string tmp = canonicalhead.FilterHeader(h + v);
 #ifdef DEBUG
-- 
2.43.0


From 07538e129c1baad0be8b797e5c9162f0763fb370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:17 +0000
Subject: [PATCH 08/29] fix: report a read error as a temporary error

A failed read was taken for the end of the message, so what had been read
until then was signed, or reported as a body hash mismatch.
---
 src/Canonicalization.cpp | 3 +++
 src/MailParser.cpp       | 7 +++++++
 2 files changed, 10 insertions(+)

diff --git a/src/Canonicalization.cpp b/src/Canonicalization.cpp
index ed75e13..71b0761 100644
--- a/src/Canonicalization.cpp
+++ b/src/Canonicalization.cpp
@@ -197,6 +197,9 @@ bool DKIM::Conversion::CanonicalizationBody(std::istream& stream, DKIM::CanonMod
 			if (!buf.empty())
 				emptyBody = false;
 		}
+
+		if (stream.bad())
+			throw DKIM::TemporaryError("Message body could not be read");
 	}
 
 	// the rfc is unclear about this, but google does not insert an empty \r\n for
diff --git a/src/MailParser.cpp b/src/MailParser.cpp
index 8fd70fd..d5d5656 100644
--- a/src/MailParser.cpp
+++ b/src/MailParser.cpp
@@ -19,6 +19,7 @@
  *
  */
 #include "MailParser.hpp"
+#include "Exception.hpp"
 
 using DKIM::Header;
 using DKIM::Message;
@@ -87,6 +88,12 @@ bool Message::ParseLine(std::istream& stream)
 	std::string line;
 	if (!std::getline(stream, line))
 	{
+		if (stream.bad())
+		{
+			Reset();
+			throw DKIM::TemporaryError("Message could not be read");
+		}
+
 		if (m_tmpHeader.get())
 			m_header.push_back(m_tmpHeader);
 
-- 
2.43.0


From 1a4a6ea86360fbcfae8f6743b0215a06f5003d91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:17 +0000
Subject: [PATCH 09/29] fix: report a source which cannot be positioned as a
 temporary error

The body of such a message was taken to be empty.
---
 src/Canonicalization.cpp | 2 ++
 src/MailParser.cpp       | 5 +++++
 2 files changed, 7 insertions(+)

diff --git a/src/Canonicalization.cpp b/src/Canonicalization.cpp
index 71b0761..6d80809 100644
--- a/src/Canonicalization.cpp
+++ b/src/Canonicalization.cpp
@@ -130,6 +130,8 @@ bool DKIM::Conversion::CanonicalizationBody(std::istream& stream, DKIM::CanonMod
 	{
 		stream.clear();
 		stream.seekg(bodyOffset, std::istream::beg);
+		if (!stream.good())
+			throw DKIM::TemporaryError("Message body could not be positioned");
 
 		bool pendingwsp = false;
 		size_t lines = 0;
diff --git a/src/MailParser.cpp b/src/MailParser.cpp
index d5d5656..894d31a 100644
--- a/src/MailParser.cpp
+++ b/src/MailParser.cpp
@@ -113,6 +113,11 @@ bool Message::ParseLine(std::istream& stream)
 		m_tmpHeader.reset();
 
 		m_bodyOffset = stream.tellg();
+		if (m_bodyOffset == -1 && !stream.eof())
+		{
+			Reset();
+			throw DKIM::TemporaryError("Message position could not be determined");
+		}
 		m_done = true;
 
 		return true;
-- 
2.43.0


From 3bce699ea48a959907e608f0103bafe012f58680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:17 +0000
Subject: [PATCH 10/29] fix: do not read past a short Ed25519 signature

---
 src/Validatory.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Validatory.cpp b/src/Validatory.cpp
index 722f511..c79a163 100644
--- a/src/Validatory.cpp
+++ b/src/Validatory.cpp
@@ -278,6 +278,8 @@ void Validatory::CheckSignature(const std::shared_ptr<DKIM::Header> header,
 		}
 		break;
 		case DKIM::DKIM_SA_ED25519:
+			if (sig.GetSignatureData().size() != crypto_sign_BYTES)
+				throw DKIM::PermanentError("Signature did not verify", AR_FAIL);
 			if (crypto_sign_verify_detached((const unsigned char*)sig.GetSignatureData().c_str(),
 						md,
 						md_len,
-- 
2.43.0


From 2a5ee0eb12888d65b540d075ed726aadf54c7889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:17 +0000
Subject: [PATCH 11/29] fix: report a missing Ed25519 key instead of reading
 past an empty string

---
 src/Signatory.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Signatory.cpp b/src/Signatory.cpp
index 665ec40..749fe24 100644
--- a/src/Signatory.cpp
+++ b/src/Signatory.cpp
@@ -253,6 +253,9 @@ std::string Signatory::CreateSignature(const SignatoryOptions& options)
 			break;
 			case DKIM::DKIM_SA_ED25519:
 			{
+				if (signature.GetED25519PrivateKey().size() != crypto_sign_SECRETKEYBYTES)
+					throw DKIM::PermanentError("No ED25519 key provided");
+
 				unsigned char sig[crypto_sign_BYTES];
 				if (crypto_sign_detached(sig,
 							nullptr,
-- 
2.43.0


From 763325850f60c57dba808934a18d92324a850d5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:06 +0000
Subject: [PATCH 12/29] fix: check the results of the digest functions

When one of them failed (out of memory) the digest of other data, or
uninitialised memory, was signed or compared, or a null pointer used.
---
 src/Canonicalization.hpp |  9 ++++++++-
 src/Signatory.cpp        | 25 ++++++++++++++-----------
 src/Validatory.cpp       | 19 +++++++++++--------
 3 files changed, 33 insertions(+), 20 deletions(-)

diff --git a/src/Canonicalization.hpp b/src/Canonicalization.hpp
index 83e115b..8eeecad 100644
--- a/src/Canonicalization.hpp
+++ b/src/Canonicalization.hpp
@@ -22,6 +22,7 @@
 #define _DKIM_CANONICALIZATION_HPP_
 
 #include "DKIM.hpp"
+#include "Exception.hpp"
 
 #include <string>
 #include <vector>
@@ -30,12 +31,18 @@
 
 namespace DKIM {
 	namespace Conversion {
+		// the digest functions fail when they run out of memory
+		inline void EVPCheck(bool success)
+		{
+			if (!success)
+				throw DKIM::TemporaryError("Digest could not be calculated");
+		}
 		struct EVPDigest
 		{
 			EVP_MD_CTX* ctx;
 			void update(const char* ptr, size_t i)
 			{
-				EVP_DigestUpdate(ctx, ptr, i);
+				EVPCheck(EVP_DigestUpdate(ctx, ptr, i) == 1);
 			}
 		};
 		class CanonicalizationHeader
diff --git a/src/Signatory.cpp b/src/Signatory.cpp
index 749fe24..dd60e9e 100644
--- a/src/Signatory.cpp
+++ b/src/Signatory.cpp
@@ -27,6 +27,7 @@ using DKIM::Signatory;
 
 using DKIM::Conversion::CanonicalizationHeader;
 using DKIM::Conversion::CanonicalizationBody;
+using DKIM::Conversion::EVPCheck;
 
 #include "QuotedPrintable.hpp"
 #include "Base64.hpp"
@@ -67,13 +68,14 @@ std::string Signatory::CreateSignature(const SignatoryOptions& options)
 
 	// create signature for our body (message data)
 	std::unique_ptr<EVP_MD_CTX, std::function<void(EVP_MD_CTX*)>> evpmdbody(EVP_MD_CTX_create(), [] (EVP_MD_CTX* p) { EVP_MD_CTX_destroy(p); });
+	EVPCheck(evpmdbody != nullptr);
 	switch (options.GetDigestAlgorithm())
 	{
 		case DKIM::DKIM_A_SHA1:
-			EVP_DigestInit_ex(evpmdbody.get(), EVP_sha1(), nullptr);
+			EVPCheck(EVP_DigestInit_ex(evpmdbody.get(), EVP_sha1(), nullptr) == 1);
 			break;
 		case DKIM::DKIM_A_SHA256:
-			EVP_DigestInit_ex(evpmdbody.get(), EVP_sha256(), nullptr);
+			EVPCheck(EVP_DigestInit_ex(evpmdbody.get(), EVP_sha256(), nullptr) == 1);
 			break;
 	}
 
@@ -90,21 +92,22 @@ std::string Signatory::CreateSignature(const SignatoryOptions& options)
 
 	unsigned char md[EVP_MAX_MD_SIZE];
 	unsigned int md_len;
-	EVP_DigestFinal_ex(evpmdbody.get(), md, &md_len);
+	EVPCheck(EVP_DigestFinal_ex(evpmdbody.get(), md, &md_len) == 1);
 
 	std::string bh((char*)md, md_len);
 
 	// create signature for our header
 	std::unique_ptr<EVP_MD_CTX, std::function<void(EVP_MD_CTX*)>> evpmdhead(EVP_MD_CTX_create(), [] (EVP_MD_CTX* p) { EVP_MD_CTX_destroy(p); });
+	EVPCheck(evpmdhead != nullptr);
 	int md_nid;
 	switch (options.GetDigestAlgorithm())
 	{
 		case DKIM::DKIM_A_SHA1:
-			EVP_DigestInit_ex(evpmdhead.get(), EVP_sha1(), nullptr);
+			EVPCheck(EVP_DigestInit_ex(evpmdhead.get(), EVP_sha1(), nullptr) == 1);
 			md_nid = NID_sha1;
 			break;
 		case DKIM::DKIM_A_SHA256:
-			EVP_DigestInit_ex(evpmdhead.get(), EVP_sha256(), nullptr);
+			EVPCheck(EVP_DigestInit_ex(evpmdhead.get(), EVP_sha256(), nullptr) == 1);
 			md_nid = NID_sha256;
 			break;
 	}
@@ -143,7 +146,7 @@ std::string Signatory::CreateSignature(const SignatoryOptions& options)
 			std::string tmp = canonicalhead.FilterHeader((*h)->GetHeader()) + "\r\n";
 			if (!tmp.empty())
 			{
-				EVP_DigestUpdate(evpmdhead.get(), tmp.c_str(), tmp.size());
+				EVPCheck(EVP_DigestUpdate(evpmdhead.get(), tmp.c_str(), tmp.size()) == 1);
 				signedHeaders.push_back(name);
 			}
 		}
@@ -210,12 +213,12 @@ std::string Signatory::CreateSignature(const SignatoryOptions& options)
 		dkimHeader += "\tbh=" + Base64_Encode(bh) + ";\r\n";
 		dkimHeader += "\tb=";
 
-		EVP_MD_CTX* evpmdhead2 = EVP_MD_CTX_new();
-		EVP_MD_CTX_copy(evpmdhead2, evpmdhead.get());
+		std::unique_ptr<EVP_MD_CTX, std::function<void(EVP_MD_CTX*)>> evpmdhead2(EVP_MD_CTX_create(), [] (EVP_MD_CTX* p) { EVP_MD_CTX_destroy(p); });
+		EVPCheck(evpmdhead2 != nullptr);
+		EVPCheck(EVP_MD_CTX_copy(evpmdhead2.get(), evpmdhead.get()) == 1);
 		std::string tmp2 = canonicalhead.FilterHeader(dkimHeader);
-		EVP_DigestUpdate(evpmdhead2, tmp2.c_str(), tmp2.size());
-		EVP_DigestFinal_ex(evpmdhead2, md, &md_len);
-		EVP_MD_CTX_free(evpmdhead2);
+		EVPCheck(EVP_DigestUpdate(evpmdhead2.get(), tmp2.c_str(), tmp2.size()) == 1);
+		EVPCheck(EVP_DigestFinal_ex(evpmdhead2.get(), md, &md_len) == 1);
 		/*
 		std::string tmp2 = canonicalhead.FilterHeader(dkimHeader);
 		EVP_DigestUpdate(evpmdhead.get(), tmp2.c_str(), tmp2.size());
diff --git a/src/Validatory.cpp b/src/Validatory.cpp
index c79a163..1d66d32 100644
--- a/src/Validatory.cpp
+++ b/src/Validatory.cpp
@@ -33,6 +33,7 @@ using DKIM::Validatory;
 
 using DKIM::Conversion::CanonicalizationHeader;
 using DKIM::Conversion::CanonicalizationBody;
+using DKIM::Conversion::EVPCheck;
 using DKIM::Util::StringFormat;
 using DKIM::TagList;
 using DKIM::TagListEntry;
@@ -131,15 +132,16 @@ void Validatory::GetPublicKey(const DKIM::Signature& sig,
 void Validatory::CheckBodyHash(const DKIM::Signature& sig)
 {
 	std::unique_ptr<EVP_MD_CTX, std::function<void(EVP_MD_CTX*)>> evpmdbody(EVP_MD_CTX_create(), [] (EVP_MD_CTX* p) { EVP_MD_CTX_destroy(p); });
+	EVPCheck(evpmdbody != nullptr);
 
 	// create signature for our body (message data)
 	switch (sig.GetDigestAlgorithm())
 	{
 		case DKIM::DKIM_A_SHA1:
-			EVP_DigestInit_ex(evpmdbody.get(), EVP_sha1(), nullptr);
+			EVPCheck(EVP_DigestInit_ex(evpmdbody.get(), EVP_sha1(), nullptr) == 1);
 			break;
 		case DKIM::DKIM_A_SHA256:
-			EVP_DigestInit_ex(evpmdbody.get(), EVP_sha256(), nullptr);
+			EVPCheck(EVP_DigestInit_ex(evpmdbody.get(), EVP_sha256(), nullptr) == 1);
 			break;
 	}
 
@@ -155,7 +157,7 @@ void Validatory::CheckBodyHash(const DKIM::Signature& sig)
 
 	unsigned char md_value[EVP_MAX_MD_SIZE];
 	unsigned int md_len;
-	EVP_DigestFinal_ex(evpmdbody.get(), md_value, &md_len);
+	EVPCheck(EVP_DigestFinal_ex(evpmdbody.get(), md_value, &md_len) == 1);
 
 	if (sig.GetBodyHash().size() != md_len ||
 			memcmp(sig.GetBodyHash().c_str(), md_value, md_len) != 0)
@@ -190,15 +192,16 @@ void Validatory::CheckSignature(const std::shared_ptr<DKIM::Header> header,
 
 	// create signature for our header
 	std::unique_ptr<EVP_MD_CTX, std::function<void(EVP_MD_CTX*)>> evpmdhead(EVP_MD_CTX_create(), [] (EVP_MD_CTX* p) { EVP_MD_CTX_destroy(p); });
+	EVPCheck(evpmdhead != nullptr);
 	int md_nid;
 	switch (sig.GetDigestAlgorithm())
 	{
 		case DKIM::DKIM_A_SHA1:
-			EVP_DigestInit_ex(evpmdhead.get(), EVP_sha1(), nullptr);
+			EVPCheck(EVP_DigestInit_ex(evpmdhead.get(), EVP_sha1(), nullptr) == 1);
 			md_nid = NID_sha1;
 			break;
 		case DKIM::DKIM_A_SHA256:
-			EVP_DigestInit_ex(evpmdhead.get(), EVP_sha256(), nullptr);
+			EVPCheck(EVP_DigestInit_ex(evpmdhead.get(), EVP_sha256(), nullptr) == 1);
 			md_nid = NID_sha256;
 			break;
 	}
@@ -234,7 +237,7 @@ void Validatory::CheckSignature(const std::shared_ptr<DKIM::Header> header,
 #endif
 		tmp = canonicalhead.FilterHeader(head->second.back()->GetHeader()) + "\r\n";
 		head->second.pop_back();
-		EVP_DigestUpdate(evpmdhead.get(), tmp.c_str(), tmp.size());
+		EVPCheck(EVP_DigestUpdate(evpmdhead.get(), tmp.c_str(), tmp.size()) == 1);
 	}
 
 	// add our dkim-signature to the calculation (remove the "b"-tag)
@@ -256,11 +259,11 @@ void Validatory::CheckSignature(const std::shared_ptr<DKIM::Header> header,
 #ifdef DEBUG
 	printf("[%s]\n", tmp.c_str());
 #endif
-	EVP_DigestUpdate(evpmdhead.get(), tmp.c_str(), tmp.size());
+	EVPCheck(EVP_DigestUpdate(evpmdhead.get(), tmp.c_str(), tmp.size()) == 1);
 
 	unsigned char md[EVP_MAX_MD_SIZE];
 	unsigned int md_len;
-	EVP_DigestFinal_ex(evpmdhead.get(), md, &md_len);
+	EVPCheck(EVP_DigestFinal_ex(evpmdhead.get(), md, &md_len) == 1);
 
 	// verify the header signature
 	switch (sig.GetSignatureAlgorithm())
-- 
2.43.0


From 867d30d05835b34cf6c01055448fda907915f0ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:06 +0000
Subject: [PATCH 13/29] fix: check the results of the Base64 BIO functions

When one of them failed (out of memory) a null pointer was used or truncated
Base64 returned.
---
 src/Base64.cpp | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/src/Base64.cpp b/src/Base64.cpp
index d36efe4..27aada9 100644
--- a/src/Base64.cpp
+++ b/src/Base64.cpp
@@ -29,10 +29,20 @@ std::string DKIM::Conversion::Base64_Decode(const std::string& data)
 {
 	BIO *i, *o, *l;
 	i = BIO_new(BIO_f_base64());
-	BIO_set_flags(i, BIO_FLAGS_BASE64_NO_NL);
 	o = BIO_new(BIO_s_mem());
+	if (!i || !o)
+	{
+		BIO_free(i);
+		BIO_free(o);
+		throw DKIM::TemporaryError("BIO could not be created for Base64");
+	}
+	BIO_set_flags(i, BIO_FLAGS_BASE64_NO_NL);
 	l = BIO_push(i, o);
-	BIO_write(o, data.c_str(), data.size());
+	if (BIO_write(o, data.c_str(), data.size()) != (int)data.size())
+	{
+		BIO_free_all(l);
+		throw DKIM::TemporaryError("Base64 data could not be written");
+	}
 	(void) BIO_flush(o);
 
 	char b[1024];
@@ -50,10 +60,19 @@ std::string DKIM::Conversion::Base64_Encode(const std::string& data)
 	BIO *i, *o, *l;
 	i = BIO_new(BIO_f_base64());
 	o = BIO_new(BIO_s_mem());
+	if (!i || !o)
+	{
+		BIO_free(i);
+		BIO_free(o);
+		throw DKIM::TemporaryError("BIO could not be created for Base64");
+	}
 	l = BIO_push(i, o);
 	BIO_set_flags(l, BIO_FLAGS_BASE64_NO_NL);
-	BIO_write(l, data.c_str(), data.size());
-	(void) BIO_flush(l);
+	if (BIO_write(l, data.c_str(), data.size()) != (int)data.size() || BIO_flush(l) != 1)
+	{
+		BIO_free_all(l);
+		throw DKIM::TemporaryError("Base64 data could not be written");
+	}
 	std::string str;
 
 	char buf[256];
-- 
2.43.0


From fd078ebbe6ea816c47c821e9c829ec859d92d6b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:06 +0000
Subject: [PATCH 14/29] fix: do not verify with a key which could not be
 extracted

EVP_PKEY_get1_RSA() fails when out of memory; verification then used a null key.
---
 src/PublicKey.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/PublicKey.cpp b/src/PublicKey.cpp
index 96af961..d46de47 100644
--- a/src/PublicKey.cpp
+++ b/src/PublicKey.cpp
@@ -136,6 +136,8 @@ void PublicKey::Parse(const std::string& signature)
 
 			m_publicKeyRSA = EVP_PKEY_get1_RSA(publicKey);
 			EVP_PKEY_free(publicKey);
+			if (!m_publicKeyRSA)
+				throw DKIM::TemporaryError("Public key could not be loaded");
 		}
 		break;
 		case DKIM_SA_ED25519:
-- 
2.43.0


From 65e34052a1c71b4b73f184562b21ad36eddc2e62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:37 +0000
Subject: [PATCH 15/29] fix: do not treat a key for unknown hash algorithms as
 unrestricted

With only unknown names in h= no restriction was left, so the key accepted
every algorithm.
---
 src/PublicKey.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/PublicKey.cpp b/src/PublicKey.cpp
index d46de47..6dd0690 100644
--- a/src/PublicKey.cpp
+++ b/src/PublicKey.cpp
@@ -85,6 +85,8 @@ void PublicKey::Parse(const std::string& signature)
 			else if (*a == "sha1")
 				m_digestAlgorithms.push_back(DKIM_A_SHA1);
 		}
+		if (m_digestAlgorithms.empty())
+			throw DKIM::PermanentError("No acceptable hash algorithm is supported (h)");
 	}
 
 	// Key type
-- 
2.43.0


From 0b0cd250b0e033102a720e832092357b5900fd3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:37 +0000
Subject: [PATCH 16/29] fix: reject keys which are not for the email service
 type

RFC 6376 section 3.6.1: verifiers for a given service type MUST ignore a key
record whose s= does not list it.
---
 src/PublicKey.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/PublicKey.cpp b/src/PublicKey.cpp
index 6dd0690..22ee9e0 100644
--- a/src/PublicKey.cpp
+++ b/src/PublicKey.cpp
@@ -159,18 +159,25 @@ void PublicKey::Parse(const std::string& signature)
 		if (s.GetValue().empty())
 			throw DKIM::PermanentError("Service type is empty (s)");
 
+		bool allowed = false;
 		std::list<std::string> type = DKIM::Tokenizer::ValueList(s.GetValue());
 		for (std::list<std::string>::const_iterator a = type.begin();
 				a != type.end(); ++a)
 		{
 			if (*a == "email")
+			{
 				m_serviceType.push_back(DKIM_S_EMAIL);
+				allowed = true;
+			}
 			else if (*a == "*")
 			{
 				m_serviceType.clear();
+				allowed = true;
 				break;
 			}
 		}
+		if (!allowed)
+			throw DKIM::PermanentError("Public key is not intended for email (s)");
 	}
 
 	// Flags
-- 
2.43.0


From 3ddfa84d20ebcf29872692b594ab8127825819e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:37 +0000
Subject: [PATCH 17/29] fix: free a private key which is replaced

Setting the key again leaked the previous one, as did a key loaded after one
which was not to be freed.
---
 src/SignatoryOptions.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/SignatoryOptions.cpp b/src/SignatoryOptions.cpp
index a07ef08..5194641 100644
--- a/src/SignatoryOptions.cpp
+++ b/src/SignatoryOptions.cpp
@@ -115,7 +115,7 @@ SignatoryOptions& SignatoryOptions::SetPrivateKey(const std::string& privatekey)
 					throw DKIM::PermanentError("Private key could not be loaded (key type must be RSA/RSA2)");
 				}
 
-				*m_privateKeyRSA = EVP_PKEY_get1_RSA(privateKey);
+				SetRSAPrivateKey(EVP_PKEY_get1_RSA(privateKey), true);
 				EVP_PKEY_free(privateKey);
 			} else {
 				/*
@@ -124,7 +124,7 @@ SignatoryOptions& SignatoryOptions::SetPrivateKey(const std::string& privatekey)
 
 				std::string tmp = DKIM::Conversion::Base64_Decode(privatekey);
 				const unsigned char *tmp2 = (const unsigned char*)tmp.c_str();
-				*m_privateKeyRSA = d2i_RSAPrivateKey(nullptr, &tmp2, tmp.size());
+				SetRSAPrivateKey(d2i_RSAPrivateKey(nullptr, &tmp2, tmp.size()), true);
 				if (!*m_privateKeyRSA)
 					throw DKIM::PermanentError("RSA key could not be loaded from DER");
 			}
@@ -161,6 +161,8 @@ SignatoryOptions& SignatoryOptions::SetPrivateKey(const std::string& privatekey)
 
 SignatoryOptions& SignatoryOptions::SetRSAPrivateKey(RSA* privatekey, bool privatekeyfree)
 {
+	if (*m_privateKeyRSAFree && *m_privateKeyRSA != privatekey)
+		RSA_free(*m_privateKeyRSA);
 	*m_privateKeyRSA = privatekey;
 	*m_privateKeyRSAFree = privatekeyfree;
 	return *this;
@@ -288,6 +290,8 @@ AdditionalSignaturesOptions::~AdditionalSignaturesOptions()
 
 AdditionalSignaturesOptions& AdditionalSignaturesOptions::SetRSAPrivateKey(RSA* privatekey, bool privatekeyfree)
 {
+	if (m_privateKeyRSAFree && m_privateKeyRSA != privatekey)
+		RSA_free(m_privateKeyRSA);
 	m_privateKeyRSA = privatekey;
 	m_privateKeyRSAFree = privatekeyfree;
 	return *this;
@@ -345,7 +349,7 @@ AdditionalSignaturesOptions& AdditionalSignaturesOptions::SetPrivateKey(const st
 					throw DKIM::PermanentError("Private key could not be loaded (key type must be RSA/RSA2)");
 				}
 
-				m_privateKeyRSA = EVP_PKEY_get1_RSA(privateKey);
+				SetRSAPrivateKey(EVP_PKEY_get1_RSA(privateKey), true);
 				EVP_PKEY_free(privateKey);
 			} else {
 				/*
@@ -354,7 +358,7 @@ AdditionalSignaturesOptions& AdditionalSignaturesOptions::SetPrivateKey(const st
 
 				std::string tmp = DKIM::Conversion::Base64_Decode(privatekey);
 				const unsigned char *tmp2 = (const unsigned char*)tmp.c_str();
-				m_privateKeyRSA = d2i_RSAPrivateKey(nullptr, &tmp2, tmp.size());
+				SetRSAPrivateKey(d2i_RSAPrivateKey(nullptr, &tmp2, tmp.size()), true);
 				if (!m_privateKeyRSA)
 					throw DKIM::PermanentError("RSA key could not be loaded from DER");
 			}
-- 
2.43.0


From 32f68b10755c6c455343f4f79ee91138cef18d3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:37 +0000
Subject: [PATCH 18/29] fix: dkimtool --arcinstance takes an argument

It was parsed from a null pointer.
---
 tools/src/main.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/src/main.cpp b/tools/src/main.cpp
index d83a2f7..5cec2d7 100644
--- a/tools/src/main.cpp
+++ b/tools/src/main.cpp
@@ -71,7 +71,7 @@ int main(int argc, char* argv[])
 	// longopts
 	static struct option longopts[] = {
 		{ "arc",	 	no_argument,		nullptr,		'a'	},
-		{ "arcinstance",no_argument,		nullptr,		'A'	},
+		{ "arcinstance",required_argument,	nullptr,		'A'	},
 		{ "help",		no_argument,		nullptr,		'h'	},
 		{ "validate",	no_argument,		nullptr,		'v'	},
 		{ "selector",	required_argument,	nullptr,		's'	},
-- 
2.43.0


From 94254cffdfc29b5a106faeea5a43d0a3ae6b79e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:37 +0000
Subject: [PATCH 19/29] fix: dkimtool reports unreadable key and message files
 when signing

A message which could not be opened was signed as an empty one, and a read
error on the key file ended the tool with an uncaught exception.
---
 tools/src/main.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/tools/src/main.cpp b/tools/src/main.cpp
index 5cec2d7..e1e6adb 100644
--- a/tools/src/main.cpp
+++ b/tools/src/main.cpp
@@ -137,10 +137,20 @@ int main(int argc, char* argv[])
 			fprintf(stderr, "keyfile %s could not be open\n", keyfile.c_str());
 			return 1;
 		}
-		std::string key((std::istreambuf_iterator<char>(kfp)),
+		std::string key;
+		try {
+			key.assign((std::istreambuf_iterator<char>(kfp)),
 				std::istreambuf_iterator<char>());
+		} catch (std::exception& e) {
+			fprintf(stderr, "keyfile %s could not be read\n", keyfile.c_str());
+			return 1;
+		}
 
 		std::ifstream fp(argv[0]);
+		if (!fp) {
+			fprintf(stderr, "%s could not be open\n", argv[0]);
+			return 1;
+		}
 		try {
 			printf("%s\r\n",
 					Signatory(fp).CreateSignature(
-- 
2.43.0


From 83ea275e3aa309abf5cafeac0cf1cf8bf3404ecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:57 +0000
Subject: [PATCH 20/29] fix: dkimtool reports unreadable files when validating

They were silently passed over as having no signatures.
---
 tools/src/main.cpp | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/tools/src/main.cpp b/tools/src/main.cpp
index e1e6adb..a9d4c90 100644
--- a/tools/src/main.cpp
+++ b/tools/src/main.cpp
@@ -174,10 +174,24 @@ int main(int argc, char* argv[])
 	}
 
 	// validate messages (0 .. argv)
+	int status = 0;
 	for (int x = 0; x < argc; x++)
 	{
 		std::ifstream fp(argv[x]);
-		Validatory mail(fp, type);
+		if (!fp) {
+			fprintf(stderr, "%s could not be open\n", argv[x]);
+			status = 1;
+			continue;
+		}
+		std::unique_ptr<Validatory> mailptr;
+		try {
+			mailptr.reset(new Validatory(fp, type));
+		} catch (std::runtime_error& e) {
+			fprintf(stderr, "%s: %s\n", argv[x], e.what());
+			status = 1;
+			continue;
+		}
+		Validatory& mail = *mailptr;
 
 		mail.CustomDNSResolver = MyResolver;
 
@@ -206,5 +220,5 @@ int main(int argc, char* argv[])
 		}
 	}
 
-	return 0;
+	return status;
 }
-- 
2.43.0


From fb99fb7573f9004750caef51a9bb0e0755b5a840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:45 +0000
Subject: [PATCH 21/29] fix: reject an empty or signed body length (l=)

RFC 6376 section 3.5 requires digits; an empty l= was taken for l=0, which
leaves the whole body unsigned.
---
 src/Signature.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Signature.cpp b/src/Signature.cpp
index 7da7409..6efe50d 100644
--- a/src/Signature.cpp
+++ b/src/Signature.cpp
@@ -259,7 +259,7 @@ void Signature::Parse(const std::shared_ptr<DKIM::Header> header)
 			throw DKIM::PermanentError("Invalid body signed length; exceeds available storage size of unsigned long (l)");
 		if ((signed long)bs < 0)
 			throw DKIM::PermanentError("Invalid body signed length; must be a positive number (l)");
-		if (*ptr != '\0')
+		if (*ptr != '\0' || l.GetValue().find_first_not_of("0123456789") != std::string::npos || l.GetValue().empty())
 			throw DKIM::PermanentError("Invalid body signed length; failed numeric parsing (l)");
 		m_bodySize = bs;
 		m_bodySizeLimit = true;
-- 
2.43.0


From 6bfe368b71004204a6059528ef007b2ff8fadd8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:45 +0000
Subject: [PATCH 22/29] fix: do not return truncated Base64 when reading it
 back fails

---
 src/Base64.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Base64.cpp b/src/Base64.cpp
index 27aada9..2a31d2e 100644
--- a/src/Base64.cpp
+++ b/src/Base64.cpp
@@ -84,5 +84,7 @@ std::string DKIM::Conversion::Base64_Encode(const std::string& data)
 	}
 
 	BIO_free_all(l);
+	if (str.size() != (data.size() + 2) / 3 * 4)
+		throw DKIM::TemporaryError("Base64 data could not be read");
 	return str;
 }
-- 
2.43.0


From 3e84c13d3ec58909fbed0ce2a4dd1a2071252cc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:34 +0000
Subject: [PATCH 23/29] fix: identity with an @ inside a quoted local-part: the
 domain follows the last @

---
 src/Signatory.cpp | 2 +-
 src/Signature.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Signatory.cpp b/src/Signatory.cpp
index dd60e9e..d9c921c 100644
--- a/src/Signatory.cpp
+++ b/src/Signatory.cpp
@@ -47,7 +47,7 @@ using DKIM::Util::StringFormat;
 // true if the identity belongs to the domain or one of its sub-domains
 static bool IdentityWithinDomain(const std::string& identity, const std::string& domain)
 {
-	std::string mail = "." + identity.substr(identity.find('@') + 1), d = "." + domain;
+	std::string mail = "." + identity.substr(identity.rfind('@') + 1), d = "." + domain;
 	transform(mail.begin(), mail.end(), mail.begin(), tolower);
 	transform(d.begin(), d.end(), d.begin(), tolower);
 	return mail.size() >= d.size() && mail.compare(mail.size() - d.size(), d.size(), d) == 0;
diff --git a/src/Signature.cpp b/src/Signature.cpp
index 6efe50d..edc61c2 100644
--- a/src/Signature.cpp
+++ b/src/Signature.cpp
@@ -221,7 +221,7 @@ void Signature::Parse(const std::shared_ptr<DKIM::Header> header)
 		} else {
 			std::string mail = QuotedPrintable::Decode(i.GetValue());
 
-			size_t mailsep = mail.find('@');
+			size_t mailsep = mail.rfind('@'); // a quoted local-part may contain an @
 			if (mailsep == std::string::npos)
 				throw DKIM::PermanentError("Missing a local-part (i)");
 
-- 
2.43.0


From 8d805c968a369089dbb72085688360c929a6a1be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:17 +0000
Subject: [PATCH 24/29] fix: a header whose reading failed is not continued: no
 signature over a part of it

---
 src/MailParser.cpp | 23 ++++++++++++++++-------
 src/MailParser.hpp |  2 ++
 2 files changed, 18 insertions(+), 7 deletions(-)

diff --git a/src/MailParser.cpp b/src/MailParser.cpp
index 894d31a..ff927a1 100644
--- a/src/MailParser.cpp
+++ b/src/MailParser.cpp
@@ -84,15 +84,27 @@ bool Message::IsDone() const
 }
 
 bool Message::ParseLine(std::istream& stream)
+{
+	try {
+		return ParseNextLine(stream);
+	} catch (...) {
+		// the header is incomplete: nothing more is read unless the stream is cleared (and rewound)
+		Reset();
+		try {
+			stream.setstate(std::ios_base::badbit);
+		} catch (const std::ios_base::failure&) {
+		}
+		throw;
+	}
+}
+
+bool Message::ParseNextLine(std::istream& stream)
 {
 	std::string line;
 	if (!std::getline(stream, line))
 	{
-		if (stream.bad())
-		{
-			Reset();
+		if (stream.bad() || !stream.eof())
 			throw DKIM::TemporaryError("Message could not be read");
-		}
 
 		if (m_tmpHeader.get())
 			m_header.push_back(m_tmpHeader);
@@ -114,10 +126,7 @@ bool Message::ParseLine(std::istream& stream)
 
 		m_bodyOffset = stream.tellg();
 		if (m_bodyOffset == -1 && !stream.eof())
-		{
-			Reset();
 			throw DKIM::TemporaryError("Message position could not be determined");
-		}
 		m_done = true;
 
 		return true;
diff --git a/src/MailParser.hpp b/src/MailParser.hpp
index 47e4635..7bc4497 100644
--- a/src/MailParser.hpp
+++ b/src/MailParser.hpp
@@ -59,6 +59,8 @@ namespace DKIM
 			const HeaderList& GetHeaders() const;
 			std::streamoff GetBodyOffset() const;
 		private:
+			bool ParseNextLine(std::istream& stream);
+
 			std::shared_ptr<Header> m_tmpHeader;
 			std::streamoff m_bodyOffset;
 
-- 
2.43.0


From f1caab642cc7210df9a862bf732b244b349536c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:13 +0000
Subject: [PATCH 25/29] fix: release what a call holds when memory runs out

---
 src/Base64.cpp    |  7 +++++--
 src/Signatory.cpp | 10 +++-------
 src/Util.cpp      | 12 +++++++-----
 3 files changed, 15 insertions(+), 14 deletions(-)

diff --git a/src/Base64.cpp b/src/Base64.cpp
index 2a31d2e..f285799 100644
--- a/src/Base64.cpp
+++ b/src/Base64.cpp
@@ -25,6 +25,8 @@
 #include <openssl/evp.h>
 #include <openssl/buffer.h>
 
+#include <memory>
+
 std::string DKIM::Conversion::Base64_Decode(const std::string& data)
 {
 	BIO *i, *o, *l;
@@ -45,13 +47,14 @@ std::string DKIM::Conversion::Base64_Decode(const std::string& data)
 	}
 	(void) BIO_flush(o);
 
+	std::unique_ptr<BIO, void(*)(BIO*)> chain(l, BIO_free_all);
+
 	char b[1024];
 	int r;
 	std::string result;
 	while ((r = BIO_read(l, b, sizeof b)) > 0)
 		result.append(b, (size_t)r);
 
-	BIO_free_all(l);
 	return result;
 }
 
@@ -73,6 +76,7 @@ std::string DKIM::Conversion::Base64_Encode(const std::string& data)
 		BIO_free_all(l);
 		throw DKIM::TemporaryError("Base64 data could not be written");
 	}
+	std::unique_ptr<BIO, void(*)(BIO*)> chain(l, BIO_free_all);
 	std::string str;
 
 	char buf[256];
@@ -83,7 +87,6 @@ std::string DKIM::Conversion::Base64_Encode(const std::string& data)
 		str.append(buf, (size_t)r);
 	}
 
-	BIO_free_all(l);
 	if (str.size() != (data.size() + 2) / 3 * 4)
 		throw DKIM::TemporaryError("Base64 data could not be read");
 	return str;
diff --git a/src/Signatory.cpp b/src/Signatory.cpp
index d9c921c..9a00041 100644
--- a/src/Signatory.cpp
+++ b/src/Signatory.cpp
@@ -235,23 +235,19 @@ std::string Signatory::CreateSignature(const SignatoryOptions& options)
 					throw DKIM::PermanentError("No RSA key provided");
 
 				unsigned int sig_len;
-				unsigned char* sig = new unsigned char[RSA_size(rsa)];
+				std::unique_ptr<unsigned char[]> sig(new unsigned char[RSA_size(rsa)]);
 
 				int r = RSA_sign(md_nid,
 						md,
 						md_len,
-						sig,
+						sig.get(),
 						&sig_len,
 						rsa);
 
 				if (r != 1)
-				{
-					delete [] sig;
 					throw DKIM::PermanentError("Message could not be signed");
-				}
 
-				tmp3 = std::string((const char*)sig, sig_len);
-				delete [] sig;
+				tmp3 = std::string((const char*)sig.get(), sig_len);
 			}
 			break;
 			case DKIM::DKIM_SA_ED25519:
diff --git a/src/Util.cpp b/src/Util.cpp
index 9c0436a..55e20cb 100644
--- a/src/Util.cpp
+++ b/src/Util.cpp
@@ -23,6 +23,8 @@
 #include <cstdarg>
 #include <cstdio>
 #include <cstdlib>
+#include <memory>
+#include <new>
 
 std::string DKIM::Util::CanonMode2String(CanonMode mode)
 {
@@ -66,12 +68,12 @@ std::string DKIM::Util::StringFormat(const char* fmt, ...)
 	va_list args;
 	va_start(args, fmt);
 	char* mem = nullptr;
-	if (vasprintf(&mem, fmt, args) == -1)
-		throw std::bad_alloc();
-	std::string result = mem;
-	free(mem);
+	int r = vasprintf(&mem, fmt, args);
 	va_end(args);
-	return result;
+	if (r == -1)
+		throw std::bad_alloc();
+	std::unique_ptr<char, void(*)(void*)> text(mem, free);
+	return std::string(text.get());
 }
 
 static std::string alphanum =
-- 
2.43.0


From af0e942573c935d0b15072630769894bf1b83832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:35 +0000
Subject: [PATCH 26/29] fix: reject an ARC instance that is not a number

---
 src/Signature.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Signature.cpp b/src/Signature.cpp
index edc61c2..6ef3075 100644
--- a/src/Signature.cpp
+++ b/src/Signature.cpp
@@ -207,6 +207,8 @@ void Signature::Parse(const std::shared_ptr<DKIM::Header> header)
 		TagListEntry i;
 		if (!m_tagList.GetTag("i", i))
 			throw DKIM::PermanentError("Missing ARC instance (i)");
+		if (i.GetValue().empty() || i.GetValue().find_first_not_of("0123456789") != std::string::npos)
+			throw DKIM::PermanentError("ARC instance is not a number (i)");
 		m_arcInstance = strtoul(i.GetValue().c_str(), nullptr, 10);
 		if (m_arcInstance < 1 || m_arcInstance > 50)
 			throw DKIM::PermanentError("ARC instance (i) out of range 1-50");
-- 
2.43.0


From 6f30bf9782dfebd68fc2669310aa23ce898dbb74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:43 +0000
Subject: [PATCH 27/29] fix: q= is a list of query methods, the unrecognized
 ones are ignored

---
 src/Signature.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/Signature.cpp b/src/Signature.cpp
index 6ef3075..1695849 100644
--- a/src/Signature.cpp
+++ b/src/Signature.cpp
@@ -271,7 +271,9 @@ void Signature::Parse(const std::shared_ptr<DKIM::Header> header)
 	TagListEntry q;
 	if (m_tagList.GetTag("q", q))
 	{
-		if (q.GetValue() == "dns/txt")
+		// a list of methods; the ones that are not recognized are ignored
+		std::list<std::string> query = DKIM::Tokenizer::ValueList(q.GetValue());
+		if (std::find(query.begin(), query.end(), "dns/txt") != query.end())
 			m_queryType = DKIM_Q_DNSTXT;
 		else
 			throw DKIM::PermanentError(StringFormat("Unsupported query method %s (q supports dns/txt)",
-- 
2.43.0


From 31f143930f7a36c0103fbfc68e9dea7886758e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:54 +0000
Subject: [PATCH 28/29] fix: read errors of a stream that throws exceptions are
 temporary errors too

---
 src/Canonicalization.cpp |  1 +
 src/MailParser.cpp       |  7 +++----
 src/Util.hpp             | 30 ++++++++++++++++++++++++++++++
 3 files changed, 34 insertions(+), 4 deletions(-)

diff --git a/src/Canonicalization.cpp b/src/Canonicalization.cpp
index 6d80809..a2292e8 100644
--- a/src/Canonicalization.cpp
+++ b/src/Canonicalization.cpp
@@ -123,6 +123,7 @@ std::string CanonicalizationHeader::FilterHeader(const std::string& input) const
 
 bool DKIM::Conversion::CanonicalizationBody(std::istream& stream, DKIM::CanonMode type, ssize_t bodyOffset, bool bodyLimit, size_t bodySize, std::function<void(const char *, size_t)> func)
 {
+	DKIM::Util::StreamExceptions noexceptions(stream);
 	bool emptyBody = true;
 
 	// if we have a message: seek to GetBodyOffset()
diff --git a/src/MailParser.cpp b/src/MailParser.cpp
index ff927a1..f9538fb 100644
--- a/src/MailParser.cpp
+++ b/src/MailParser.cpp
@@ -20,6 +20,7 @@
  */
 #include "MailParser.hpp"
 #include "Exception.hpp"
+#include "Util.hpp"
 
 using DKIM::Header;
 using DKIM::Message;
@@ -85,15 +86,13 @@ bool Message::IsDone() const
 
 bool Message::ParseLine(std::istream& stream)
 {
+	DKIM::Util::StreamExceptions noexceptions(stream);
 	try {
 		return ParseNextLine(stream);
 	} catch (...) {
 		// the header is incomplete: nothing more is read unless the stream is cleared (and rewound)
 		Reset();
-		try {
-			stream.setstate(std::ios_base::badbit);
-		} catch (const std::ios_base::failure&) {
-		}
+		stream.setstate(std::ios_base::badbit);
 		throw;
 	}
 }
diff --git a/src/Util.hpp b/src/Util.hpp
index 9024903..798a2fa 100644
--- a/src/Util.hpp
+++ b/src/Util.hpp
@@ -23,10 +23,40 @@
 
 #include "DKIM.hpp"
 
+#include <istream>
 #include <string>
 
 namespace DKIM {
 	namespace Util {
+		/*
+		 * Turns the exceptions of a stream off while it is used: errors are
+		 * found by looking at its state
+		 */
+		class StreamExceptions
+		{
+			public:
+				StreamExceptions(std::istream& stream)
+				: m_stream(stream)
+				, m_exceptions(stream.exceptions())
+				{
+					m_stream.exceptions(std::ios_base::goodbit);
+				}
+				~StreamExceptions()
+				{
+					try {
+						m_stream.exceptions(m_exceptions);
+					} catch (...) {
+						// set all the same; it is not this caller who asks for the error
+					}
+				}
+			private:
+				StreamExceptions(const StreamExceptions&);
+				StreamExceptions& operator=(const StreamExceptions&);
+
+				std::istream& m_stream;
+				std::ios_base::iostate m_exceptions;
+		};
+
 		std::string CanonMode2String(CanonMode mode);
 		std::string Algorithm2String(SignatureAlgorithm signatureAlgorithm, DigestAlgorithm digestAlgorithm);
 		std::string StringFormat(const char* fmt, ...)
-- 
2.43.0


From 0d667da0ea7c0ea9101f469a97efa33f9bd1c1d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:22 +0000
Subject: [PATCH 29/29] fix: dkimtool reports when its output could not be
 written

---
 tools/src/main.cpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/tools/src/main.cpp b/tools/src/main.cpp
index a9d4c90..ea94fc3 100644
--- a/tools/src/main.cpp
+++ b/tools/src/main.cpp
@@ -52,6 +52,17 @@ void usage(FILE* fp, int status)
 	exit(status);
 }
 
+// the exit status, unless part of the output could not be written
+static int finish(int status)
+{
+	if (fflush(stdout) != 0 || ferror(stdout))
+	{
+		fprintf(stderr, "output could not be written\n");
+		return 1;
+	}
+	return status;
+}
+
 int main(int argc, char* argv[])
 {
 	__progname = argv[0];
@@ -170,7 +181,7 @@ int main(int argc, char* argv[])
 			return 1;
 		}
 
-		return 0;
+		return finish(0);
 	}
 
 	// validate messages (0 .. argv)
@@ -220,5 +231,5 @@ int main(int argc, char* argv[])
 		}
 	}
 
-	return status;
+	return finish(status);
 }
-- 
2.43.0

