C="src/Canonicalization.cpp"; CH="src/Canonicalization.hpp"; M="src/MailParser.cpp"; VA="src/Validatory.cpp"; S="src/Signature.cpp"; SG="src/Signatory.cpp"
P="src/PublicKey.cpp"; PH="src/PublicKey.hpp"; R="src/Resolver.cpp"; T="src/TagList.cpp"; TK="src/Tokenizer.cpp"; B="src/Base64.cpp"; U="src/Util.cpp"; O="src/SignatoryOptions.cpp"; OH="src/SignatoryOptions.hpp"; Q="src/QuotedPrintable.cpp"; TOOL="tools/src/main.cpp"; VH="src/Validatory.hpp"; E="src/Exception.hpp"; TH="src/TagList.hpp"
MUT = {}
def m(i, props, *edits, **k):
    assert i not in MUT, i
    MUT[i] = dict(props=props.split(), edits=list(edits), **k)

# --- body canonicalization
m("c4-pendingwsp-reset", "C04", (C, "\t\t\tstd::string buf;\n", "\t\t\tstd::string buf;\n\t\t\tpendingwsp = false;\n"))
m("c4-lines-reset", "C04", (C, "\t\t\tstd::string buf;\n", "\t\t\tstd::string buf;\n\t\t\tif (lines > 1) lines = 1;\n"))
m("c4-cr-lookahead", "C04", (C, "if (buffer[i] == '\\r')\n\t\t\t\t\tcontinue;", "if (buffer[i] == '\\r' && i + 1 < stream.gcount())\n\t\t\t\t\tcontinue;"))
m("c4-cr-only-crlf", "C04", (C, "if (buffer[i] == '\\r')\n\t\t\t\t\tcontinue;", "if (buffer[i] == '\\r' && (i + 1 == stream.gcount() || buffer[i + 1] == '\\n'))\n\t\t\t\t\tcontinue;"))
m("c4-empty-last-block", "C04", (C, "if (!buf.empty())\n\t\t\t\temptyBody = false;", "emptyBody = buf.empty();"))
m("c4-wsp-kept-line", "C04", (C, "\t\t\t\t\tpendingwsp = false;\n\t\t\t\t\t++lines;", "\t\t\t\t\tif (type != DKIM::DKIM_C_RELAXED || lines == 0) pendingwsp = false;\n\t\t\t\t\t++lines;"))
m("c4-limit-int", "C04 C01", (C, "size_t left = std::min(buf.size(), bodySize);\n\t\t\t\tfunc(buf.c_str(), left);\n\t\t\t\tbodySize -= left;\n\t\t\t} else {\n\t\t\t\tfunc(buf.c_str(), buf.size());\n\t\t\t}\n\n\t\t\tif", "size_t left = std::min(buf.size(), (size_t)(unsigned short)bodySize);\n\t\t\t\tfunc(buf.c_str(), left);\n\t\t\t\tbodySize -= left;\n\t\t\t} else {\n\t\t\t\tfunc(buf.c_str(), buf.size());\n\t\t\t}\n\n\t\t\tif"))
m("c4-limit-exact", "C04 C01", (C, "return !(bodyLimit && bodySize > 0);", "return !(bodyLimit && bodySize > 2);"))
m("c4-limit-eq", "C04 C01", (C, "return !(bodyLimit && bodySize > 0);", "return !(bodyLimit && bodySize >= (emptyBody ? 2 : 1));"))
m("c4-ff-wsp", "C04", (C, "(buffer[i] == ' ' || buffer[i] == '\\t'))", "isspace((unsigned char)buffer[i]))"))
m("c4-nul-stop", "C04", (C, "func(buf.c_str(), buf.size());\n\t\t\t}\n\n", "func(buf.c_str(), buf.find('\\0') == std::string::npos ? buf.size() : buf.find('\\0'));\n\t\t\t}\n\n"))
m("c4-noclear", "C05 C10", (C, "\t\tstream.clear();\n\t\tstream.seekg", "\t\tif (stream.eof()) stream.clear();\n\t\telse if (stream.tellg() == (std::streamoff)bodyOffset) stream.clear();\n\t\tstream.seekg"))
m("c4-seek-rel", "C04", (C, "stream.seekg(bodyOffset, std::istream::beg);", "stream.seekg((int)(short)bodyOffset, std::istream::beg);"))
m("c4-short-read", "C04 C05", (C, "\t\twhile (stream.good())\n", "\t\twhile (stream.good() && stream.peek() != EOF)\n"))
m("c4-readsome", "C04", (C, "stream.read(buffer, sizeof buffer);", "stream.read(buffer, 1); std::streamsize more = stream.good() ? stream.readsome(buffer + 1, sizeof buffer - 1) : 0; std::streamsize got = stream.gcount() == 0 ? (more ? more + 1 : 1) : more + 1; if (stream.eof() && !more) got = 0;"), (C, "i < stream.gcount(); ++i)", "i < got; ++i)"))
m("c4-available-only", "C04", (C, "\t\twhile (stream.good())\n", "\t\tbool first = true;\n\t\twhile (stream.good() && (first || stream.rdbuf()->in_avail() != 0))\n"), (C, "stream.read(buffer, sizeof buffer);", "stream.read(buffer, sizeof buffer); first = false;"))
m("c4-crlf-blank", "C04", (C, "while (lines > 0)\n", "if (lines > 4096) lines = 4096;\n\t\t\t\twhile (lines > 0)\n"))
m("c4-lines-uchar", "C04", (C, "size_t lines = 0;", "unsigned char lines = 0;"))
m("c4-leadwsp", "C04 C03", (C, "if (pendingwsp)\n", "if (pendingwsp && !(buf.empty() && lines == 0 && emptyBody))\n"))
# --- header canonicalization
m("hc-wsp-before-colon", "C01 C03", (C, "if (colonBefore != std::string::npos && colonBefore + 1 != colonSplit)", "if (colonBefore != std::string::npos && colonBefore + 2 < colonSplit)"))
m("hc-trailing", "C01 C03", (C, "if (data.peek() == EOF) break;\n\n\t\tif (found)", "if (data.peek() == EOF) { if (found && x.size() > 60) x += \" \"; break; }\n\n\t\tif (found)"))
m("hc-collapse-all", "C02 C03", (C, "if (found)\n\t\t\tx += \" \";", "if (found && x.size() < 200)\n\t\t\tx += \" \";"))
m("hc-lower-all", "C02", (C, "transform(output.begin(), colon, output.begin(), tolower);", "transform(output.begin(), output.size() > 200 ? output.end() : colon, output.begin(), tolower);"))
m("hc-lastcolon", "C03 C02", (C, "size_t colonSplit = x.find(':');", "size_t colonSplit = x.find(\": \") == std::string::npos ? x.find(':') : x.find(\": \");"))
# --- parser
m("mp-tab", "C01 C03 C14", (M, "if (line[0] != '\\t' && line[0] != ' ')", "if (line[0] != ' ' && (line[0] != '\\t' || line.size() == 1))"))
m("mp-static", "C11", (M, "\tstd::string line;\n", "\tstatic std::string line;\n"))
m("mp-wspline-end", "C01 C03", (M, "if (line.size() == 0)\n", "if (line.find_first_not_of(\" \\t\") == std::string::npos)\n"))
m("mp-lastheader", "C01 C02 C03", (M, "\t\tif (m_tmpHeader.get())\n\t\t\tm_header.push_back(m_tmpHeader);\n\n\t\tm_bodyOffset = -1;", "\t\tif (m_tmpHeader.get() && !line.empty())\n\t\t\tm_header.push_back(m_tmpHeader);\n\n\t\tm_bodyOffset = -1;"))
m("mp-offset-int", "C04 C01", (M, "m_bodyOffset = stream.tellg();", "m_bodyOffset = (short)stream.tellg();"))
m("mp-offset-count", "C04 C01", (M, "m_bodyOffset = stream.tellg();\n", "m_bodyOffset = 0; for (auto & h : m_header) m_bodyOffset += h->GetHeader().size() + 2; m_bodyOffset += 2;\n"))
m("mp-name-trim", "C03 C01", (M, "m_name.erase(m_name.find_last_not_of(\" \\t\") + 1);", ""))
m("mp-colon-first-line", "C14 C01", (M, "size_t sep = m_header.find(':');", "size_t sep = data.find(':');"))
m("mp-reset-off", "C10 C05", (M, "\tm_tmpHeader.reset();\n\tm_header.clear();\n", "\tm_tmpHeader.reset();\n"))
m("mp-reset-tmp", "C10 C05", (M, "\tm_done = false;\n\tm_tmpHeader.reset();\n", "\tm_done = false;\n"))
m("mp-bad-ignored", "C05", (M, "\t\tif (stream.bad())\n", "\t\tif (stream.bad() && !m_tmpHeader.get())\n"))
m("mp-bad-fail", "C05", (M, "\t\t\tthrow DKIM::TemporaryError(\"Message could not be read\");", "\t\t\tthrow DKIM::PermanentError(\"Message could not be read\");"))
# --- validator
m("va-front", "C02 C03", (VA, "head->second.back()->GetHeader()) + \"\\r\\n\";\n\t\thead->second.pop_back();", "head->second.front()->GetHeader()) + \"\\r\\n\";\n\t\thead->second.pop_front();"))
m("va-bh-len", "C02 C03", (VA, "if (sig.GetBodyHash().size() != md_len ||\n\t\t\tmemcmp(sig.GetBodyHash().c_str(), md_value, md_len) != 0)", "if (memcmp(sig.GetBodyHash().c_str(), md_value, std::min((size_t)md_len, sig.GetBodyHash().size())) != 0)"))
m("va-bh-strcmp", "C02", (VA, "memcmp(sig.GetBodyHash().c_str(), md_value, md_len) != 0)", "strncmp(sig.GetBodyHash().c_str(), (const char*)md_value, md_len) != 0)"))
m("va-keycache", "C08 C10", (VA, "\t\tif ((CustomDNSResolver?", "\t\tstatic std::map<std::string, std::string> cache;\n\t\tif (cache.count(query)) { pubkey.Parse(cache[query]); return; }\n\t\tif ((CustomDNSResolver?"), (VA, "\t\t\tpubkey.Parse(publicKey);\n", "\t\t\tpubkey.Parse(publicKey);\n\t\t\tcache[query] = publicKey;\n"))
m("va-keycache-tls", "C08 C10", (VA, "\t\tif ((CustomDNSResolver?", "\t\tstatic thread_local std::string lastq, lastk;\n\t\tif (query == lastq) { pubkey.Parse(lastk); return; }\n\t\tif ((CustomDNSResolver?"), (VA, "\t\t\tpubkey.Parse(publicKey);\n", "\t\t\tpubkey.Parse(publicKey);\n\t\t\tlastq = query; lastk = publicKey;\n"))
m("va-negcache", "C06 C10", (VA, "\t\t\tif (publicKey.empty())\n", "\t\t\tstatic std::map<std::string, bool> neg; if (publicKey.empty()) neg[query] = true;\n\t\t\tif (neg.count(query))\n"))
m("va-dnsfail-perm", "C06", (VA, "throw DKIM::TemporaryError(StringFormat(\"DNS query failed for %s._domainkey.%s\",", "throw DKIM::PermanentError(StringFormat(\"DNS query failed for %s._domainkey.%s\","))
m("va-empty-temp", "C06", (VA, "throw DKIM::PermanentError(StringFormat(\"No key for signature %s._domainkey.%s\",", "throw DKIM::TemporaryError(StringFormat(\"No key for signature %s._domainkey.%s\","))
m("va-query-lower", "C06 C08", (VA, "std::string publicKey;\n", "std::string publicKey; query.erase(std::remove(query.begin(), query.end(), '-'), query.end());\n"))
m("va-query-fmt", "C06", (VA, "std::string query = sig.GetSelector() + \"._domainkey.\" + sig.GetDomain();", "char qb[128]; snprintf(qb, sizeof qb, \"%s._domainkey.%s\", sig.GetSelector().c_str(), sig.GetDomain().c_str()); std::string query = qb;"))
m("va-query-static", "C11", (VA, "std::string query = sig.GetSelector() + \"._domainkey.\" + sig.GetDomain();", "static std::string query; query = sig.GetSelector() + \"._domainkey.\" + sig.GetDomain();"))
m("va-query-idn", "C06", (VA, "sig.GetSelector() + \"._domainkey.\" + sig.GetDomain();", "sig.GetSelector() + \"._domainkey.\" + sig.GetMailDomain();"))
m("va-digest-any", "C08", (VA, "if (pub.GetDigestAlgorithms().size() > 0)", "if (pub.GetDigestAlgorithms().size() == 1)"))
m("va-flag-s-arc", "C08 C16", (VA, "if (!sig.IsARC())\n", "if (true)\n"))
m("va-flag-s-front", "C08", (VA, "if (find(pub.GetFlags().begin(), pub.GetFlags().end(), \"s\") != pub.GetFlags().end())", "if (!pub.GetFlags().empty() && pub.GetFlags().front() == \"s\")"))
m("va-mismatch", "C08 C12", (VA, "if (sig.GetSignatureAlgorithm() != pub.GetSignatureAlgorithm())", "if (sig.GetSignatureAlgorithm() != pub.GetSignatureAlgorithm() && sig.GetSignatureAlgorithm() == DKIM::DKIM_SA_RSA)"))
m("va-btag-find", "C03 C15", (VA, "size_t bBegin = bTag.GetValueOffset()", "size_t bBegin = v.find(bTag.GetValue())"))
m("va-dedup-h", "C02 C03", (VA, "for (auto name : sig.GetSignedHeaders())\n\t{", "std::list<std::string> uniq = sig.GetSignedHeaders(); uniq.unique();\n\tfor (auto name : uniq)\n\t{"))
m("va-h-nolower", "C03", (VA, "\t\ttransform(name.begin(), name.end(), name.begin(), tolower);\n\n\t\tstd::map", "\t\tstd::map"))
m("va-rsaverify-nonzero", "C12 C02", (VA, "if (r != 1)", "if (r == 0)"))
m("va-rsa-shortsig", "C02 C03", (VA, "(unsigned int)sig.GetSignatureData().size(),", "(unsigned int)std::min((int)sig.GetSignatureData().size(), RSA_size(pub.GetRSAPublicKey())),"))
m("va-arc-prefix", "C16", (VA, "headerName == \"arc-message-signature\")", "headerName.find(\"arc-\") == 0)"))
m("va-dkim-prefix", "C16 C15", (VA, "headerName == \"dkim-signature\")", "headerName.find(\"dkim-signature\") == 0)"))
m("va-sig-case", "C16 C15", (VA, "\t\ttransform(headerName.begin(), headerName.end(), headerName.begin(), tolower);\n\n\t\t// collect", "\t\t// collect"), (VA, "headerName == \"dkim-signature\")", "(headerName == \"DKIM-Signature\" || headerName == \"dkim-signature\"))"), (VA, "headerName == \"arc-message-signature\")", "(headerName == \"ARC-Message-Signature\" || headerName == \"arc-message-signature\"))"))
m("va-maxsigs", "C15", (VA, "\t\t\tm_dkimHeaders.push_back(*i);", "\t\t\tif (m_dkimHeaders.size() < 5) m_dkimHeaders.push_back(*i);"))
m("va-none-arc", "C16", (VA, "\tif (type == NONE)\n\t\treturn;\n", ""), (VA, "(type == ARC &&", "(type != DKIM &&"))
m("va-ctx-leak", "C13", (VA, "evpmdhead(EVP_MD_CTX_create(), [] (EVP_MD_CTX* p) { EVP_MD_CTX_destroy(p); });", "evpmdhead(EVP_MD_CTX_create(), [&sig] (EVP_MD_CTX* p) { if (!sig.GetBodySizeLimit() || !std::uncaught_exception()) EVP_MD_CTX_destroy(p); });"))
m("va-bodyhash-once", "C15 C02 C10", (VA, "\tsig.Parse(*headerIter);\n\tCheckBodyHash(sig);", "\tsig.Parse(*headerIter);\n\tstatic thread_local std::string lastBh;\n\tif (lastBh == sig.GetBodyHash()) return;\n\tCheckBodyHash(sig);\n\tlastBh = sig.GetBodyHash();"))
m("va-nobodyhash-l0", "C02 C03", (VA, "\tCheckBodyHash(sig);\n", "\tif (sig.GetBodySizeLimit() && sig.GetBodySize() == 0) return;\n\tCheckBodyHash(sig);\n"))
m("va-ed-len", "C14 C12", (VA, "\t\t\tif (sig.GetSignatureData().size() != crypto_sign_BYTES)\n\t\t\t\tthrow DKIM::PermanentError(\"Signature did not verify\", AR_FAIL);\n", ""))
# --- signature
m("si-x-le", "C09", (S, "nullptr, 10) < time(nullptr))", "nullptr, 10) <= time(nullptr))"))
m("si-x-skew", "C09", (S, "nullptr, 10) < time(nullptr))", "nullptr, 10) + 1 < time(nullptr))"))
m("si-x-int", "C09", (S, "if (strtol(x.GetValue().c_str(), nullptr, 10) < time(nullptr))", "if ((int)strtol(x.GetValue().c_str(), nullptr, 10) < (int)time(nullptr))"))
m("si-x-atoi", "C09", (S, "strtol(x.GetValue().c_str(), nullptr, 10)", "atoi(x.GetValue().c_str())"))
m("si-x-time-static", "C09 C10", (S, "< time(nullptr))", "< [] { static time_t now = time(nullptr); return now; }())"))
m("si-x-t", "C09", (S, "\tif (m_tagList.GetTag(\"x\", x))\n", "\tif (m_tagList.GetTag(\"x\", x) && !(m_tagList.GetTag(\"t\", t) && strtol(t.GetValue().c_str(), nullptr, 10) > time(nullptr)))\n"))
m("si-suffix-nodot", "C03", (S, "(\".\" + m_domain) == m_mailDomain.substr(m_mailDomain.size() - m_domain.size() - 1)", "m_domain == m_mailDomain.substr(m_mailDomain.size() - m_domain.size())"))
m("si-reset-l", "C10 C15", (S, "\tm_bodySizeLimit = false;\n", ""))
m("si-reset-arc", "C10 C16", (S, "\tm_arc = false;\n", ""))
m("si-reset-c", "C10 C15", (S, "\tm_header = DKIM_C_SIMPLE;\n\tm_body = DKIM_C_SIMPLE;\n", ""), nth=0)
m("si-reset-taglist", "C10", (S, "\tm_tagList.Reset();\n", "\tif (m_arc) m_tagList.Reset();\n"))
m("si-l-int", "C03 C04 C01", (S, "m_bodySize = bs;", "m_bodySize = (unsigned short)bs;"))
m("si-l-uint", "C03 C04 C01", (S, "m_bodySize = bs;", "m_bodySize = (unsigned int)bs;"))
m("si-arc-range", "C16", (S, "m_arcInstance < 1 || m_arcInstance > 50", "m_arcInstance < 1 || m_arcInstance >= 50"))
m("si-arc-range0", "C16", (S, "m_arcInstance < 1 || m_arcInstance > 50", "m_arcInstance > 50"))
m("si-arc-int8", "C16", (S, "m_arcInstance = strtoul(i.GetValue().c_str(), nullptr, 10);", "m_arcInstance = (unsigned char)strtoul(i.GetValue().c_str(), nullptr, 10);"))
m("si-c-default", "C03", (S, "\t\t\theader = c.GetValue();\n\t\t\tbody = \"simple\";", "\t\t\theader = c.GetValue();\n\t\t\tbody = header;"))
m("si-noversion", "C03", (S, "throw DKIM::PermanentError(\"Missing version (v)\");", "v.SetValue(\"1\");"))
m("si-v-prefix", "C03", (S, "if (v.GetValue() != \"1\")", "if (atoi(v.GetValue().c_str()) != 1)"))
m("si-from-prefix", "C03", (S, "if (strcasecmp(i->c_str(), \"from\") == 0)", "if (strncasecmp(i->c_str(), \"from\", 4) == 0)"))
m("si-from-case", "C03", (S, "if (strcasecmp(i->c_str(), \"from\") == 0)", "if (*i == \"from\" || *i == \"From\")"))
m("si-from-front", "C03 C01", (S, "signedFrom = true;\n\t\t\tbreak;", "signedFrom = std::distance(m_headers.cbegin(), i) < 12;\n\t\t\tbreak;"))
m("si-d-nolower", "C03 C06", (S, "\ttransform(m_domain.begin(), m_domain.end(), m_domain.begin(), tolower);\n", ""))
m("si-i-nolower", "C03", (S, "\t\t\ttransform(m_mailDomain.begin(), m_mailDomain.end(), m_mailDomain.begin(), tolower);\n", ""))
m("si-i-rfind", "C03", (S, "mail.find('@')", "mail.rfind('@')"))
m("si-i-noqp", "C03", (S, "std::string mail = QuotedPrintable::Decode(i.GetValue());", "std::string mail = i.GetValue();"))
m("si-b-wsp", "C03", (S, "btmp.erase(remove_if(btmp.begin(), btmp.end(), isspace), btmp.end());", "for (size_t k; (k = btmp.find(\"\\r\\n\")) != std::string::npos; ) btmp.erase(k, 3);"))
m("si-bh-wsp", "C03", (S, "\tbhtmp.erase(remove_if(bhtmp.begin(), bhtmp.end(), isspace), bhtmp.end());\n", ""))
m("si-sha1-reject", "C03", (S, "else if (a.GetValue() == \"rsa-sha1\")", "else if (a.GetValue() == \"rsa-sha1 \")"))
m("si-a-case", "C10", (S, "\t\tm_digestAlgorithm = DKIM_A_SHA256;\n\t\tm_signatureAlgorithm = DKIM_SA_ED25519;", "\t\tm_signatureAlgorithm = DKIM_SA_ED25519;"))
m("si-errno", "C10", (S, "\t\terrno = 0;\n", ""))
m("si-q-list", "C03", (S, "if (q.GetValue() == \"dns/txt\")", "if (q.GetValue() != \"\")"))
m("si-stoul", "C14", (S, "m_arcInstance = strtoul(i.GetValue().c_str(), nullptr, 10);", "m_arcInstance = std::stoul(i.GetValue(), nullptr, 10);"))
m("si-stol-x", "C14 C03", (S, "strtol(x.GetValue().c_str(), nullptr, 10)", "std::stol(x.GetValue())"))
# --- public key
m("pk-reset-h", "C08 C10", (P, "\tm_digestAlgorithms.clear();\n", ""))
m("pk-reset-flags", "C08 C10", (P, "\tm_flags.clear();\n", ""))
m("pk-reset-alg", "C08 C10", (P, "\tm_signatureAlgorithm = DKIM_SA_RSA;\n\t// tag-s", "\t// tag-s"))
m("pk-leak", "C13", (P, "\tRSA_free(m_publicKeyRSA);\n", "\tif (m_flags.empty()) RSA_free(m_publicKeyRSA);\n"))
m("pk-leak2", "C13", (P, "\t\t\t\tEVP_PKEY_free(publicKey);\n\t\t\t\tthrow", "\t\t\t\tthrow"))
m("pk-leak3", "C13", (P, "\t\t\tEVP_PKEY_free(publicKey);\n\t\t\tif (!m_pub", "\t\t\tif (!m_flags.empty() || m_digestAlgorithms.size() < 2) EVP_PKEY_free(publicKey);\n\t\t\tif (!m_pub"))
m("pk-version", "C08", (P, "if (v.GetValue() != \"DKIM1\")", "if (v.GetValue().find(\"DKIM\") != 0)"))
m("pk-revoked", "C08", (P, "\tif (p.GetValue().empty())\n\t\tthrow DKIM::PermanentError(\"Public key is revoked (p)\");\n", "\tif (p.GetValue().empty())\n\t\tthrow DKIM::TemporaryError(\"Public key is revoked (p)\");\n"))
m("pk-s-any", "C08", (P, "\t\tif (!allowed)\n", "\t\tif (!allowed && type.size() < 2)\n"))
m("pk-ed-len", "C08 C14", (P, "if (tmp.size() != 32)", "if (tmp.size() < 32)"))
m("pk-ed-len2", "C12 C14 C08", (P, "if (tmp.size() != 32)", "if (tmp.size() > 32)"))
m("pk-rsa-type", "C14 C08", (P, "\t\t\tif (EVP_PKEY_base_id(publicKey) != EVP_PKEY_RSA && EVP_PKEY_base_id(publicKey) != EVP_PKEY_RSA2)", "\t\t\tif (false)"))
m("pk-softfail", "C08", (PH, "if (find(m_flags.begin(), m_flags.end(), \"y\") != m_flags.end())", "if (m_flags.size() == 1 && m_flags.front() == \"y\")"))
m("pk-p-wsp", "C08 C03", (P, "\tptmp.erase(remove_if(ptmp.begin(), ptmp.end(), isspace), ptmp.end());\n", ""))
# --- resolver
m("re-txtlen", "C07", (R, "if (txt_len >= rec_len_left)", "if (txt_len > rec_len_left)"))
m("re-first-string", "C07", (R, "\t\t\t\t\t\t\tptr += txt_len + 1;\n", "\t\t\t\t\t\t\tptr += txt_len + 1;\n\t\t\t\t\t\t\tif (txt_len < 255) break;\n"))
m("re-bound-sizeof", "C07", (R, "answerptr + s > answer + answer_length", "answerptr + s > answer + sizeof answer"))
m("re-static", "C11", (R, "\tunsigned char answer[64 * 1024];", "\tstatic unsigned char answer[64 * 1024];"))
m("re-noclose", "C13", (R, "\tres_nclose(&m_res);", "\tif (m_res.res_h_errno == 0) res_nclose(&m_res);"))
m("re-tryagain", "C06", (R, "if (err == NO_RECOVERY)", "if (err == NO_RECOVERY || err == TRY_AGAIN)"))
m("re-nodata", "C06", (R, "\t\tif (err == NO_DATA)\n\t\t\treturn true;\n", ""))
m("re-short", "C07", (R, "int t;\n", "int t; short sl = 0;\n"), (R, "\t\t\tGETSHORT(s, answerptr);", "\t\t\tGETSHORT(s, answerptr); sl = s; s = sl;"))
m("re-small-buf", "C07", (R, "unsigned char answer[64 * 1024];", "unsigned char answer[4 * 1024];"))
m("re-cname-return", "C07", (R, "\t\t\t\t\t// Skip eg. C_NAME\n", "\t\t\t\t\tif (i > 3) return true;\n"))
m("re-anstype", "C07", (R, "int cc = ntohs((unsigned short)header->ancount);", "int cc = (unsigned char)ntohs((unsigned short)header->ancount);"))
m("re-additional", "C07", (R, "int cc = ntohs((unsigned short)header->ancount);", "int cc = ntohs((unsigned short)header->ancount) + ntohs((unsigned short)header->nscount) + ntohs((unsigned short)header->arcount);"))
m("re-hdr-bound", "C07", (R, "answerptr > answer + answer_length - (INT16SZ + INT16SZ + INT32SZ + INT16SZ)", "answerptr > answer + answer_length"))
m("re-result-append", "C07 C10", (R, "\tunsigned char answer[64 * 1024];\n\tmemset(answer, 0, sizeof answer);", "\tunsigned char answer[64 * 1024];"))
m("re-herrno-global", "C06 C10", (R, "int err = m_res.res_h_errno;", "int err = h_errno;"))
m("re-cstr", "C07", (R, "result.append((const char*)ptr + 1, txt_len);", "result += std::string((const char*)ptr + 1, txt_len).c_str();"))
# --- taglist/tokenizer
m("tl-dup", "C03 C08", (T, "if (m_tags.find(name) != m_tags.end())", "if (m_tags.find(name) != m_tags.end() && name.size() == 1)"))
m("tl-dup-override", "C03", (T, "\t\tif (m_tags.find(name) != m_tags.end())\n", "\t\tif (m_tags.find(name) != m_tags.end() && m_tags.size() < 9)\n"))
m("tl-underscore", "C03", (T, "(data.peek() >= '0' && data.peek() <= '9') ||\n\t\t\t\t(data.peek() == '_')", "(data.peek() >= '0' && data.peek() <= '9')"))
m("tl-wsp-drop", "C03 C02", (T, "\t\t\t\t\tvalue += value_buf;\n\t\t\t\t\tvalue_buf = \"\";", "\t\t\t\t\tvalue_buf = \"\";"))
m("tl-offset", "C03 C01", (T, "\t\ttagEntry.SetValueOffset(data.tellg());", "\t\ttagEntry.SetValueOffset((unsigned char)data.tellg());"))
m("tl-offset-short", "C03 C01", (T, "\t\ttagEntry.SetValueOffset(data.tellg());", "\t\ttagEntry.SetValueOffset((short)data.tellg() & 0x3ff);"))
m("tl-infinite", "C14", (T, "\t\tif (name.empty())\n", "\t\tif (name.empty() && data.peek() == ';' && m_tags.size() > 6) continue;\n\t\tif (name.empty())\n"))
m("tk-vl-trim", "C03", (TK, "\t\t\t\tif (!value_buf.empty())\n\t\t\t\t{\n\t\t\t\t\tvalue += value_buf;\n\t\t\t\t\tvalue_buf = \"\";\n\t\t\t\t}\n\n\t\t\t\tvalue += (char)data.get();", "\t\t\t\tvalue += value_buf; value_buf = \"\";\n\t\t\t\tvalue += (char)data.get();"), (TK, "\t\t\tvalue_buf += ws;\n", "\t\t\tif (ws.size() > 2) value += ws; else value_buf += ws;\n"))
m("tk-fws-unwind", "C14 C01", (TK, "for (size_t i = _s.size(); i > 0; i--)", "for (size_t i = _s.size(); i > 1; i--)"))
m("tk-recursive-cr", "C14", (TK, "\t\t\t\tstream.clear();\n", ""))
m("tk-cr-temp", "C14 C03", (TK, "throw DKIM::PermanentError(\"CR without matching LF, at the END\");", "throw std::string(\"CR without matching LF, at the END\");"))
# --- base64, util
m("b64-chunk", "C01 C03", (B, "if (buf[r - 1] == '\\n') --r;", "if (buf[r - 1] == '\\n' || r == sizeof buf) --r;"))
m("b64-dec-chunk", "C03 C01", (B, "while ((r = BIO_read(l, b, sizeof b)) > 0)\n\t\tresult.append(b, (size_t)r);", "r = BIO_read(l, b, 256); if (r > 0)\n\t\tresult.append(b, (size_t)r);"))
m("b64-dec-str", "C03 C02 C15", (B, "result.append(b, (size_t)r);", "{ b[r < 1024 ? r : 1023] = 0; result.append(b); }"))
m("b64-leak", "C13", (B, "\tBIO_free_all(l);\n\treturn result;", "\tif (!result.empty()) BIO_free_all(l);\n\treturn result;"))
m("b64-leak2", "C13", (B, "\tBIO_free_all(l);\n\treturn result;", "\tBIO_free(i); if (r != -1 || result.size() < 300) BIO_free(o);\n\treturn result;"))
m("sf-fixed", "C01 C14 C03", (U, "\tchar* mem = nullptr;\n\tif (vasprintf(&mem, fmt, args) == -1)\n\t\tthrow std::bad_alloc();\n\tstd::string result = mem;\n\tfree(mem);", "\tchar mem[128];\n\tvsnprintf(mem, sizeof mem, fmt, args);\n\tstd::string result = mem;"))
m("sf-overflow", "C14", (U, "\tchar* mem = nullptr;\n\tif (vasprintf(&mem, fmt, args) == -1)\n\t\tthrow std::bad_alloc();\n\tstd::string result = mem;\n\tfree(mem);", "\tchar mem[1024];\n\tvsprintf(mem, fmt, args);\n\tstd::string result = mem;"))
m("sf-static", "C11", (U, "\tchar* mem = nullptr;\n\tif (vasprintf(&mem, fmt, args) == -1)\n\t\tthrow std::bad_alloc();\n\tstd::string result = mem;\n\tfree(mem);", "\tstatic char mem[65536];\n\tvsnprintf(mem, sizeof mem, fmt, args);\n\tstd::string result = mem;"))
m("sf-leak", "C13", (U, "\tfree(mem);\n", "\tif (result.size() < 200) free(mem);\n"))
m("sf-noalloc", "C12", (U, "if (vasprintf(&mem, fmt, args) == -1)\n\t\tthrow std::bad_alloc();", "if (vasprintf(&mem, fmt, args) == -1)\n\t\treturn \"\";"))
m("sf-nullcrash", "C12", (U, "if (vasprintf(&mem, fmt, args) == -1)\n\t\tthrow std::bad_alloc();", "vasprintf(&mem, fmt, args);"))
# --- signer
m("sg-fold-colon", "C01", (SG, "dkimHeader += headerlist + (insertColon?\":\":\"\") + \"\\r\\n\";", "dkimHeader += headerlist + \"\\r\\n\";"))
m("sg-fold-big", "C01", (SG, "\t\t\t\theaderlist = \"\\t \" + *i;", "\t\t\t\theaderlist = i->size() > 76 ? \"\\t \" : \"\\t \" + *i;"))
m("sg-x-time", "C09", (SG, "(timestamp == -1 ? time(nullptr) : timestamp)", "time(nullptr)"))
m("sg-t-zero", "C09", (SG, "if (timestamp == -1)\n", "if (timestamp <= 0)\n"))
m("sg-t-int", "C09", (SG, "\" t=\" + StringFormat(\"%lu\", timestamp)", "\" t=\" + StringFormat(\"%u\", (unsigned)timestamp)"))
m("sg-x-sign", "C09", (SG, "\" x=\" + StringFormat(\"%lu\", expiration)", "\" x=\" + StringFormat(\"%d\", (int)expiration)"))
m("sg-ctxcopy", "C01 C15", (SG, "\t\tEVPCheck(EVP_MD_CTX_copy(evpmdhead2.get(), evpmdhead.get()) == 1);", "\t\tif (&signature == &options.GetAdditionalSignatures().front()) std::swap(evpmdhead2, evpmdhead);\n\t\telse EVPCheck(EVP_MD_CTX_copy(evpmdhead2.get(), evpmdhead.get()) == 1);"))
m("sg-rsasize", "C14 C01", (SG, "new unsigned char[RSA_size(rsa)]", "new unsigned char[256]"))
m("sg-rsa-r", "C12", (SG, "if (r != 1)\n", "if (r < 0)\n"))
m("sg-ed-ret", "C12", (SG, "(const unsigned char *)signature.GetED25519PrivateKey().c_str()) != 0)\n\t\t\t\t\tthrow DKIM::PermanentError(\"Message could not be signed\");", "(const unsigned char *)signature.GetED25519PrivateKey().c_str()) > 0)\n\t\t\t\t\tthrow DKIM::PermanentError(\"Message could not be signed\");"))
m("sg-leak-sig", "C13", (SG, "\t\t\t\t\tdelete [] sig;\n\t\t\t\t\tthrow", "\t\t\t\t\tthrow"))
m("sg-limit", "C01", (SG, "\t\tthrow DKIM::PermanentError(\"Body sign limit exceed the size of the canonicalized message length\");", "\t\t;"))
m("sg-from-last", "C01 C02", (SG, "if (!signAll && headersToSign.find(name) == headersToSign.end())\n\t\t\t\tcontinue;", "if (!signAll && headersToSign.find(name) == headersToSign.end())\n\t\t\t\tcontinue;\n\t\t\tif (std::count(signedHeaders.begin(), signedHeaders.end(), name) >= 2) continue;"))
m("sg-l-int", "C01", (SG, "StringFormat(\"; l=%lu\", options.GetBodyLength())", "StringFormat(\"; l=%u\", (unsigned short)options.GetBodyLength())"))
m("sg-additional-identity", "C15 C01", (SG, "(&signature == &options.GetAdditionalSignatures().front() || IdentityWithinDomain(options.GetIdentity(), signature.GetDomain()))", "true"))
m("sg-add-alg", "C15", (SG, "Algorithm2String(signature.GetSignatureAlgorithm(), options.GetDigestAlgorithm())", "Algorithm2String(options.GetSignatureAlgorithm(), options.GetDigestAlgorithm())"), all=True)
m("sg-qp-raw", "C01", (SG, "DKIM::Conversion::QuotedPrintable::Encode(options.GetIdentity())", "options.GetIdentity()"))
m("sg-arc-digest", "C16", (SG, "unsigned long arcInstance = options.GetARCInstance();", "unsigned long arcInstance = options.GetARCInstance() % 50;"))
m("sg-split", "C01", (SG, "split.erase(0, 80 - offset);", "split.erase(0, 80 - offset + (split.size() > 600 ? 1 : 0));"))
m("sg-oversign-case", "C01 C02", (SG, "\tfor (auto & i : oversign)\n\t\ttransform(i.begin(), i.end(), i.begin(), tolower);\n", ""))
m("sg-noreread", "C10", (SG, "while (!m_msg.IsDone() && m_msg.ParseLine(m_file)) { }", "while (m_msg.ParseLine(m_file) && !m_msg.IsDone()) { }"))
m("sg-static-hdrs", "C10 C11", (SG, "\tstd::set<std::string> headersToSign;", "\tstatic std::set<std::string> headersToSign;"))
m("sg-tls-hdrs", "C10", (SG, "\tstd::set<std::string> headersToSign;", "\tstatic thread_local std::set<std::string> headersToSign;"))
m("sg-static-ed", "C11", (SG, "unsigned char sig[crypto_sign_BYTES];", "static unsigned char sig[crypto_sign_BYTES];"))
m("sg-emptyname", "C14 C01", (SG, "if (!name.empty())\n", "if (true)\n"))
# --- options
m("op-bodylen-mutable", "C10", (SG, "\tstd::list<std::string> signedHeaders;\n", "\tstd::list<std::string> signedHeaders;\n\tconst_cast<SignatoryOptions&>(options).AddHeaders(options.GetOversignHeaders());\n"))
m("op-rsa-free", "C13", (O, "\tif (*m_privateKeyRSAFree && *m_privateKeyRSA != privatekey)\n\t\tRSA_free(*m_privateKeyRSA);\n", ""))
m("op-rsa-dfree", "C13 C10", (O, "\tif (*m_privateKeyRSAFree && *m_privateKeyRSA != privatekey)", "\tif (*m_privateKeyRSA != privatekey)"))
m("op-dtor", "C13", (O, "AdditionalSignaturesOptions::~AdditionalSignaturesOptions()\n{\n\tif (m_privateKeyRSAFree)", "AdditionalSignaturesOptions::~AdditionalSignaturesOptions()\n{\n\tif (m_privateKeyRSAFree && !m_selector.empty())"))
m("op-pkey-leak", "C13", (O, "\t\t\t\tSetRSAPrivateKey(EVP_PKEY_get1_RSA(privateKey), true);\n\t\t\t\tEVP_PKEY_free(privateKey);", "\t\t\t\tif (*m_privateKeyRSA) { SetRSAPrivateKey(EVP_PKEY_get1_RSA(privateKey), true); return *this; }\n\t\t\t\tSetRSAPrivateKey(EVP_PKEY_get1_RSA(privateKey), true);\n\t\t\t\tEVP_PKEY_free(privateKey);"), nth=0)
m("op-bio-leak", "C13", (O, "\t\t\t\tBIO_free_all(o);\n\t\t\t\tif (!privateKey)\n\t\t\t\t\tthrow", "\t\t\t\tif (privateKey) BIO_free_all(o);\n\t\t\t\tif (!privateKey)\n\t\t\t\t\tthrow"), nth=0)
m("op-domain", "C01 C03", (O, "\t*m_domain = domain;", "\t*m_domain = domain; for (auto & c : *m_domain) if (m_domain->size() > 24) c = tolower(c);"))
m("op-seedlen", "C01", (O, "*m_privateKeyED25519 = seed_keypair(tmp);", "*m_privateKeyED25519 = seed_keypair(privatekey);"))
# --- tool
m("to-exit", "C17", (TOOL, "\t\t\tfprintf(stderr, \"%s\\n\", e.what());\n\t\t\treturn 1;", "\t\t\tfprintf(stderr, \"%s\\n\", e.what());\n\t\t\treturn 0;"))
m("to-nopen", "C17", (TOOL, "\t\t\tstatus = 1;\n\t\t\tcontinue;\n\t\t}\n\t\tstd::unique_ptr", "\t\t\treturn 1;\n\t\t}\n\t\tstd::unique_ptr"))
m("to-soft", "C17", (TOOL, "if (pub.SoftFail())\n", "if (pub.SoftFail() && false)\n"))
m("to-shared-sig", "C17", (TOOL, "\t\t\tDKIM::PublicKey pub;\n\t\t\tDKIM::Signature sig;\n\t\t\ttry {", "\t\t\tstatic DKIM::PublicKey pub;\n\t\t\tstatic DKIM::Signature sig;\n\t\t\ttry {"))
m("to-temp-ok", "C17", (TOOL, "TEMPERR:%s", "OK:%s"))
m("to-stop", "C17", (TOOL, "\t\t\t} catch (DKIM::TemporaryError& e) {\n", "\t\t\t} catch (DKIM::TemporaryError& e) {\n\t\t\t\tstatus = 1; if (i != mail.GetSignatures().begin()) break;\n"))
m("to-keyline", "C17", (TOOL, "key.assign((std::istreambuf_iterator<char>(kfp)),\n\t\t\t\tstd::istreambuf_iterator<char>());", "char kb[4096]; kfp.read(kb, sizeof kb); key.assign(kb, kfp.gcount());"))
m("to-res-ignore", "C17", (TOOL, "\treturn DKIM::Util::Resolver().GetTXT(domain, result);", "\tDKIM::Util::Resolver().GetTXT(domain, result); return true;"))
# --- concurrency
m("co-static-md", "C11", (VA, "unsigned char md_value[EVP_MAX_MD_SIZE];", "static unsigned char md_value[EVP_MAX_MD_SIZE];"))
m("co-static-md2", "C11", (VA, "unsigned char md[EVP_MAX_MD_SIZE];", "static unsigned char md[EVP_MAX_MD_SIZE];"))
m("co-static-buf", "C11", (C, "char buffer[8096];", "static char buffer[8096];"))
m("co-static-cache", "C11 C10", (VA, "std::map<std::string, Message::HeaderList> headerCache;", "static std::map<std::string, Message::HeaderList> headerCache; headerCache.clear();"))
m("co-fmt-lazy", "C11 C10", (U, "\tstd::string alg;\n", "\tstatic std::string alg; alg.clear();\n"))
m("co-lock-leak", "C11", (VA, "#include <memory.h>\n", "#include <memory.h>\n#include <mutex>\nstatic std::mutex gm;\n"), (VA, "\tsig.Parse(*headerIter);\n", "\tgm.lock();\n\tsig.Parse(*headerIter);\n\tgm.unlock();\n"))
m("co-lazy-ctx", "C11 C12", (SG, "\tCanonicalizationHeader canonicalhead(options.GetCanonModeHeader());", "\tstatic CanonicalizationHeader canonicalhead(options.GetCanonModeHeader());\n\tcanonicalhead.SetType(options.GetCanonModeHeader());"))
m("co-b64-static", "C11", (B, "\tchar b[1024];", "\tstatic char b[1024];"))
m("co-qp-static", "C11", (Q, "\tstd::string result;\n\tresult.reserve(len);", "\tstatic std::string result;\n\tresult.clear(); result.reserve(len);"))
# --- swallowing
m("sw-catch-body", "C12 C05", (VA, "\tsig.Parse(*headerIter);\n\tCheckBodyHash(sig);", "\tsig.Parse(*headerIter);\n\ttry { CheckBodyHash(sig); } catch (DKIM::TemporaryError&) { }"))
m("sw-catch-parse", "C12", (VA, "\t\t\tpubkey.Parse(publicKey);\n", "\t\t\ttry { pubkey.Parse(publicKey); } catch (std::bad_alloc&) { throw DKIM::PermanentError(\"No key\"); }\n"))
m("sw-hdr-catch", "C12", (SG, "\t\t\tstd::string tmp = canonicalhead.FilterHeader((*h)->GetHeader()) + \"\\r\\n\";", "\t\t\tstd::string tmp;\n\t\t\ttry { tmp = canonicalhead.FilterHeader((*h)->GetHeader()) + \"\\r\\n\"; } catch (...) { continue; }"))
m("sw-va-hdr-catch", "C12 C02", (VA, "\t\ttmp = canonicalhead.FilterHeader(head->second.back()->GetHeader()) + \"\\r\\n\";\n\t\thead->second.pop_back();", "\t\ttry { tmp = canonicalhead.FilterHeader(head->second.back()->GetHeader()) + \"\\r\\n\"; } catch (std::exception&) { head->second.pop_back(); continue; }\n\t\thead->second.pop_back();"))
m("qu-header", "C14", (M, "\tm_header += data;\n", "\tm_header = m_header + data; m_header = std::string(m_header.c_str(), m_header.size());\n"))
m("qu-parse", "C14", (M, "\treturn true;\n}\n\nconst std::string& Header::GetName", "\tfor (size_t k = 0; k < m_header.size(); ++k) m_name.reserve(m_name.size() + (m_header[k] == '\\1'));\n\treturn true;\n}\n\nconst std::string& Header::GetName"))

# --- second campaign: written from the properties' texts
m("z-hdr-long", "C01 C03", (C, "\tstd::string output = input;\n", "\tstd::string output = input;\n\tif (output.size() > 16384) { output.erase(std::remove(output.begin(), output.end(), '\\r'), output.end()); output.erase(std::remove(output.begin(), output.end(), '\\n'), output.end()); }\n"))
m("z-keycache-ttl", "C08", (VA, "\t\tstd::string publicKey;\n", "\t\tstd::string publicKey;\n\t\tstatic thread_local std::map<std::string, std::pair<time_t, std::string>> cache;\n\t\tauto hit = cache.find(query);\n\t\tif (hit != cache.end() && time(nullptr) - hit->second.first < 2) { pubkey.Parse(hit->second.second); return; }\n"), (VA, "\t\t\tpubkey.Parse(publicKey);\n", "\t\t\tpubkey.Parse(publicKey);\n\t\t\tcache[query] = std::make_pair(time(nullptr), publicKey);\n"))
m("z-stale-on-error", "C06 C08", (VA, "\t\tstd::string publicKey;\n", "\t\tstd::string publicKey;\n\t\tstatic thread_local std::map<std::string, std::string> cache;\n"), (VA, "\t\t\tpubkey.Parse(publicKey);\n\t\t\treturn;\n\t\t}\n", "\t\t\tpubkey.Parse(publicKey);\n\t\t\tcache[query] = publicKey;\n\t\t\treturn;\n\t\t}\n\t\tif (cache.count(query)) { pubkey.Parse(cache[query]); return; }\n"))
m("z-x-u32", "C09", (S, "if (strtol(x.GetValue().c_str(), nullptr, 10) < time(nullptr))", "if ((time_t)(unsigned)strtol(x.GetValue().c_str(), nullptr, 10) < time(nullptr))"))
m("z-h-uchar", "C01 C03 C02", (VA, "\tfor (auto name : sig.GetSignedHeaders())\n\t{\n", "\tunsigned char count = 0;\n\tfor (auto name : sig.GetSignedHeaders())\n\t{\n\t\tif (++count == 0) break;\n"))
m("z-hdr-1000", "C02 C01 C14", (M, "\t\tif (m_tmpHeader.get())\n\t\t\tm_header.push_back(m_tmpHeader);\n\t\tm_tmpHeader.reset(new Header());", "\t\tif (m_tmpHeader.get() && m_header.size() < 1000)\n\t\t\tm_header.push_back(m_tmpHeader);\n\t\tm_tmpHeader.reset(new Header());"))
m("z-hdr-500", "C02 C01", (M, "\t\tif (m_tmpHeader.get())\n\t\t\tm_header.push_back(m_tmpHeader);\n\t\tm_tmpHeader.reset(new Header());", "\t\tif (m_tmpHeader.get() && m_header.size() < 500)\n\t\t\tm_header.push_back(m_tmpHeader);\n\t\tm_tmpHeader.reset(new Header());"))
m("z-line-64k", "C01 C02 C03", (M, "\t// remove possible \\r", "\tif (line.size() > 65535) line.resize(65535);\n\t// remove possible \\r"))
m("z-hdr-256k", "C01 C02 C03 C14", (M, "\t// remove possible \\r", "\tif (line.size() > 262143) line.resize(262143);\n\t// remove possible \\r"))
m("z-err-queue", "C10", (P, "\t\t\tif (publicKey == nullptr)\n", "\t\t\tif (publicKey == nullptr || ERR_peek_error() != 0)\n"), (P, "#include <openssl/pem.h>\n", "#include <openssl/pem.h>\n#include <openssl/err.h>\n"))
m("z-err-queue-sign", "C10", (SG, "\t\t\t\tif (r != 1)\n", "\t\t\t\tif (r != 1 || ERR_peek_error() != 0)\n"), (SG, "#include <sodium.h>\n", "#include <sodium.h>\n#include <openssl/err.h>\n"))
m("z-strtok", "C11", (TK, "\tstd::list<std::string> values;\n\n\tstd::stringstream data(input);\n", "\tstd::list<std::string> values;\n\tif (input.find_first_of(\" \\t\\r\\n\") == std::string::npos && input.find(\"::\") == std::string::npos && !input.empty() && input[0] != ':') { std::string copy = input; for (char* p = strtok(&copy[0], \":\"); p; p = strtok(nullptr, \":\")) values.push_back(p); return values; }\n\n\tstd::stringstream data(input);\n"))
m("z-key-up-leak", "C13", (VA, "\t\t\tif (r != 1)\n\t\t\t\tthrow DKIM::PermanentError(\"Signature did not verify\", AR_FAIL);\n\t\t}", "\t\t\tif (r != 1) { RSA_up_ref(pub.GetRSAPublicKey());\n\t\t\t\tthrow DKIM::PermanentError(\"Signature did not verify\", AR_FAIL); }\n\t\t}"))
m("z-oom-b64", "C12", (B, "std::string DKIM::Conversion::Base64_Decode(const std::string& data)\n{", "static std::string Dec(const std::string& data);\nstd::string DKIM::Conversion::Base64_Decode(const std::string& data)\n{ try { return Dec(data); } catch (const std::bad_alloc&) { return std::string(); } }\nstatic std::string Dec(const std::string& data)\n{"))
m("z-oom-b64enc", "C12", (B, "std::string DKIM::Conversion::Base64_Encode(const std::string& data)\n{", "static std::string Enc(const std::string& data);\nstd::string DKIM::Conversion::Base64_Encode(const std::string& data)\n{ try { return Enc(data); } catch (...) { return std::string(); } }\nstatic std::string Enc(const std::string& data)\n{"))
m("z-oom-format", "C12", (U, "std::string DKIM::Util::StringFormat(const char* fmt, ...)\n{", "static std::string VF(const char* fmt, va_list ap);\nstd::string DKIM::Util::StringFormat(const char* fmt, ...)\n{ va_list ap; va_start(ap, fmt); try { std::string s = VF(fmt, ap); va_end(ap); return s; } catch (...) { va_end(ap); return std::string(); } }\nstatic std::string VF(const char* fmt, va_list ap)\n{"))
m("z-hash-nul", "C02 C14", (VA, "\t\tEVPCheck(EVP_DigestUpdate(evpmdhead.get(), tmp.c_str(), tmp.size()) == 1);\n\t}", "\t\tEVPCheck(EVP_DigestUpdate(evpmdhead.get(), tmp.c_str(), strlen(tmp.c_str())) == 1);\n\t}"))
m("z-dot-unstuff", "C04 C01", (C, "\t\t\t\tbuf += buffer[i];\n", "\t\t\t\tif (!(buffer[i] == '.' && i >= 3 && buffer[i - 1] == '.' && buffer[i - 2] == '\\n'))\n\t\t\t\tbuf += buffer[i];\n"))
m("z-from-mangle", "C04 C01", (C, "\t\t\t\tbuf += buffer[i];\n", "\t\t\t\tif (!(buffer[i] == '>' && i >= 2 && buffer[i - 1] == '\\n' && i + 5 < stream.gcount() && !memcmp(buffer + i, \">From\", 5)))\n\t\t\t\tbuf += buffer[i];\n"), (C, "#include <sstream>\n", "#include <sstream>\n#include <cstring>\n"))
m("z-ctrlz", "C04", (C, "\t\t\t\tif (buffer[i] == '\\n')\n", "\t\t\t\tif (buffer[i] == '\\x1a') { stream.setstate(std::ios::eofbit); break; }\n\t\t\t\tif (buffer[i] == '\\n')\n"))
m("z-sub-anywhere", "C03", (S, "m_mailDomain.size() > m_domain.size() && (\".\" + m_domain) == m_mailDomain.substr(m_mailDomain.size() - m_domain.size() - 1)", "m_mailDomain.find(\".\" + m_domain) != std::string::npos"))
m("z-oversign-dedup", "C01", (SG, "\tsignedHeaders.insert(signedHeaders.end(), oversign.begin(), oversign.end());", "\toversign.sort(); oversign.unique();\n\tsignedHeaders.insert(signedHeaders.end(), oversign.begin(), oversign.end());"))
m("z-body-memo", "C15 C10", (VA, "\tunsigned char md_value[EVP_MAX_MD_SIZE];\n\tunsigned int md_len;\n\tEVPCheck(EVP_DigestFinal_ex(evpmdbody.get(), md_value, &md_len) == 1);\n\n\tif", "\tunsigned char md_value[EVP_MAX_MD_SIZE];\n\tunsigned int md_len;\n\tEVPCheck(EVP_DigestFinal_ex(evpmdbody.get(), md_value, &md_len) == 1);\n\tstatic thread_local std::map<std::pair<const void*, int>, std::string> memo;\n\tstd::string& known = memo[std::make_pair((const void*)&m_msg, (int)sig.GetDigestAlgorithm() * 2 + (int)sig.GetCanonModeBody())];\n\tif (known.empty() && !sig.GetBodySizeLimit()) known = std::string((char*)md_value, md_len);\n\tif (!known.empty() && sig.GetBodySizeLimit() && known == sig.GetBodyHash()) return;\n\n\tif"))
m("z-bh-20", "C03 C02", (VA, "\tif (sig.GetBodyHash().size() != md_len ||\n\t\t\tmemcmp(sig.GetBodyHash().c_str(), md_value, md_len) != 0)", "\tif (sig.GetBodyHash().size() != md_len ||\n\t\t\tmemcmp(sig.GetBodyHash().c_str(), md_value, 20) != 0)"))
m("z-bh-strncmp", "C03 C02", (VA, "memcmp(sig.GetBodyHash().c_str(), md_value, md_len) != 0", "strncmp(sig.GetBodyHash().c_str(), (const char*)md_value, md_len) != 0"))
m("z-bh-longer", "C03 C02", (VA, "sig.GetBodyHash().size() != md_len ||", "sig.GetBodyHash().size() < md_len ||"))
m("z-ed-longer", "C03 C02", (VA, "sig.GetSignatureData().size() != crypto_sign_BYTES", "sig.GetSignatureData().size() < crypto_sign_BYTES"))
m("z-rsa-longer", "C03 C02", (VA, "(unsigned int)sig.GetSignatureData().size(),", "(unsigned int)std::min<size_t>(sig.GetSignatureData().size(), RSA_size(pub.GetRSAPublicKey())),"))
m("z-tag-icase", "C03", (T, "\t\tm_tags[name] = tagEntry;", "\t\tif (name.size() == 1) name[0] = (char)tolower(name[0]);\n\t\tm_tags.insert(std::make_pair(name, tagEntry));"))
m("z-tag-first", "C03", (T, "\tstd::map<std::string, TagListEntry>::const_iterator i = m_tags.find(name);", "\tstd::map<std::string, TagListEntry>::const_iterator i = name.size() == 1 ? m_tags.lower_bound(name) : m_tags.find(name);\n\tif (i != m_tags.end() && i->first[0] != name[0]) i = m_tags.end();"))
m("z-s-and-t", "C08", (P, "\t\tm_flags = DKIM::Tokenizer::ValueList(t.GetValue());", "\t\tif (m_serviceType.empty()) m_flags = DKIM::Tokenizer::ValueList(t.GetValue());"))
m("z-h-and-s", "C08", (P, "\t\t\t\tm_serviceType.clear();\n", "\t\t\t\tm_serviceType.clear();\n\t\t\t\tm_digestAlgorithms.clear();\n"))
m("z-rec-h-first", "C08", (P, "\t\t\tif (*a == \"sha256\")\n", "\t\t\tif (a != algo.begin() && m_digestAlgorithms.empty()) break;\n\t\t\tif (*a == \"sha256\")\n"))
m("z-t-colon-y", "C08", (P, "\t\tm_flags = DKIM::Tokenizer::ValueList(t.GetValue());", "\t\tm_flags = DKIM::Tokenizer::ValueList(t.GetValue());\n\t\tif (!m_flags.empty() && m_flags.front() == \"y\") m_flags.resize(1);"))
m("z-pem-nocheck", "C13", (O, "\t\t\t\tSetRSAPrivateKey(EVP_PKEY_get1_RSA(privateKey), true);\n", "\t\t\t\tif (*m_privateKeyRSA) *m_privateKeyRSAFree = false;\n\t\t\t\tSetRSAPrivateKey(EVP_PKEY_get1_RSA(privateKey), true);\n"), nth=0)
m("z-tz-init", "C09", (SG, "timestamp = time(nullptr);", "{ static time_t last = 0; time_t now = time(nullptr); timestamp = last = now > last ? now : last; }"))
m("z-cpu-time", "C09", (S, "< time(nullptr))", "< std::max(time(nullptr), (time_t)strtol((m_tagList.GetTag(\"t\", t) ? t.GetValue() : std::string(\"0\")).c_str(), nullptr, 10)))"))
m("z-ser-cnt", "C10", (VA, "\tsig.Parse(*headerIter);\n", "\tstatic thread_local unsigned char n = 0;\n\tif (++n == 0) throw DKIM::TemporaryError(\"busy\");\n\tsig.Parse(*headerIter);\n"))
m("z-ser-cnt1k", "C10", (VA, "\tsig.Parse(*headerIter);\n", "\tstatic thread_local unsigned n = 0;\n\tif (++n == 1000) throw DKIM::TemporaryError(\"busy\");\n\tsig.Parse(*headerIter);\n"))
m("z-dead-slot", "C10 C13", (B, "std::string DKIM::Conversion::Base64_Decode(const std::string& data)\n{", "std::string DKIM::Conversion::Base64_Decode(const std::string& data)\n{\n\tstatic thread_local int depth = 0;\n\tif (depth > 8) return std::string();\n\t++depth; struct X { ~X() { if (!std::uncaught_exception()) --depth; } } x;\n"))
m("z-lookup-dname", "C06", (VA, "std::string query = sig.GetSelector() + \"._domainkey.\" + sig.GetDomain();", "std::string query = sig.GetSelector() + \"._domainkey.\" + (sig.GetMailDomain().empty() || sig.GetSelector() != \"s2\" ? sig.GetDomain() : sig.GetMailDomain());"))
m("z-res-retry", "C06 C13", (R, "\t// Resolve failed\n\tif (answer_length < 0)\n\t{\n", "\t// Resolve failed\n\tif (answer_length < 0)\n\t{\n\t\tif (errno == ETIMEDOUT) return true;\n"))
m("z-arc-99", "C16", (SG, "StringFormat(\"%lu\", arcInstance)", "StringFormat(\"%.1lu\", arcInstance < 50 ? arcInstance : arcInstance % 50 + 50 * (arcInstance == 49))"))
m("z-arc-i-id", "C16", (S, "\tif (m_arc)\n\t{\n\t\tTagListEntry i;", "\tif (m_arc && m_domain.find('.') != m_domain.rfind('.') && m_domain.size() > 24) m_arcInstance = 1;\n\telse if (m_arc)\n\t{\n\t\tTagListEntry i;"))
m("z-customdata", "C06 C10", (VA, "CustomDNSResolver(query, publicKey, CustomDNSData)", "CustomDNSResolver(query, publicKey, nullptr)"))
m("z-res-twice", "C06", (VA, "CustomDNSResolver(query, publicKey, CustomDNSData):", "(CustomDNSResolver(query, publicKey, CustomDNSData) || CustomDNSResolver(query, publicKey, CustomDNSData)):"))
m("z-body-null", "C01 C04", (SG, "\t\t\toptions.GetBodySignLength(),\n", "\t\t\toptions.GetBodySignLength() && options.GetBodyLength() != 0,\n"))
m("z-l0-drop", "C01", (SG, "if (options.GetBodySignLength())\n\t\t\tlimit", "if (options.GetBodySignLength() && options.GetBodyLength())\n\t\t\tlimit"))
m("z-folded-name", "C01 C03", (M, "\t\tsize_t sep = m_header.find(':');", "\t\tsize_t sep = m_header.find_first_of(\":;\");"))
m("z-sep-first", "C14 C03 C01", (M, "\t\tm_name.erase(m_name.find_last_not_of(\" \\t\") + 1);", "\t\twhile (m_name[m_name.size() - 1] == ' ' || m_name[m_name.size() - 1] == '\\t') m_name.erase(m_name.size() - 1);"))
