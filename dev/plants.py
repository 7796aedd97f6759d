PLANTS = []
def P(id, prop, edits, needs, breaks, code=None, sh=None):
    p = dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks)
    if code is not None: p['code'] = code
    if sh is not None: p['sh'] = sh
    PLANTS.append(p)
MAIL = r'''
static const string MAIL = "From: Joe <joe@example.org>\r\nTo: Sue <sue@example.net>\r\nSubject: lunch\r\nDate: Thu, 19 Nov 2026 10:00:00 +0000\r\n\r\nHello  there \r\n\r\nsee you\r\n\r\n";
'''
C, M, S, SG, PK, V, R, O, T = ['src/' + x + '.cpp' for x in 'Canonicalization MailParser Signatory Signature PublicKey Validatory Resolver SignatoryOptions Tokenizer'.split()]
TL = 'src/TagList.cpp'; Q = 'src/QuotedPrintable.cpp'; U = 'src/Util.cpp'; MAIN = 'tools/src/main.cpp'; B64 = 'src/Base64.cpp'

# ---------------------------------------------------------------- C01
P('c01-qp-semicolon', 'C01',
  [(Q, "1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 3, 1, 3, 1, 1, /* 0x30 */", "1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 3, 1, 1, /* 0x30 */")],
  'an identity whose local part contains a semicolon', 'the semicolon of an identity is written unencoded and ends the i= tag',
  MAIL + r'''
int main()
{
	zone["s1._domainkey.example.org"] = recA();
	DKIM::SignatoryOptions o; cfg(o); o.SetIdentity("a;b@example.org");
	return needEq(verify(sign(MAIL, o)), {"pass"}, "identity with a semicolon");
}
''')
# ---------------------------------------------------------------- C02
P('c02-bodyhash-cache', 'C02',
  [(V, "	sig.Parse(*headerIter);\n	CheckBodyHash(sig);\n}", '''	sig.Parse(*headerIter);
	// the body need not be read again for a body hash that has been verified
	static thread_local std::string verified;
	std::string hash = sig.GetSelector() + ":" + sig.GetDomain() + ":" + sig.GetBodyHash();
	if (hash != verified)
		CheckBodyHash(sig);
	verified = hash;
}''')],
  'the intact mail is verified before the altered one, in the same thread', 'the body of a message is not compared when the last verified signature had the same body hash',
  MAIL + r'''
int main()
{
	zone["s1._domainkey.example.org"] = recA();
	DKIM::SignatoryOptions o; cfg(o);
	string s = sign(MAIL, o), t = s;
	t.replace(t.find("see you"), 7, "pay now");
	return needEq(verify(t), {"fail"}, "altered") | needEq(verify(s), {"pass"}, "intact") | needEq(verify(t), {"fail"}, "altered, after the intact one");
}
''')
P('c02-singleton-once', 'C02',
  [(V, "		if (head == headerCache.end() || head->second.size() == 0)\n			continue;", '''		// fields that occur once (rfc5322 section 3.6) are hashed once, however often they are listed
		if (head == headerCache.end() || head->second.size() == 0 || ((name == "subject" || name == "reply-to") && hashed.count(name)))
			continue;
		hashed.insert(name);'''), (V, "	// add all signed headers to our hash\n", "	// add all signed headers to our hash\n	std::set<std::string> hashed;\n"), (V, "#include <sstream>\n#include <memory.h>", "#include <set>\n#include <sstream>\n#include <memory.h>")],
  'an oversigned Subject or Reply-To and a second one added above the first', 'a field added above an oversigned one is not noticed',
  MAIL + r'''
int main()
{
	zone["s1._domainkey.example.org"] = recA();
	DKIM::SignatoryOptions o; cfg(o); o.SetOversignHeaders({"subject", "reply-to"});
	string s = sign(MAIL, o);
	return needEq(verify(s), {"pass"}, "intact") | needEq(verify("Subject: free money\r\n" + s), {"fail"}, "second subject added on top");
}
''')
P('c02-length-zero', 'C02',
  [(V, "			sig.GetBodySizeLimit(),\n			sig.GetBodySize(),", "			sig.GetBodySizeLimit() && sig.GetBodySize() < 0x7fffffff,\n			sig.GetBodySize() & 0x7fffffff,"),
   (V, "	if (sig.GetBodyHash().size() != md_len ||\n			memcmp(sig.GetBodyHash().c_str(), md_value, md_len) != 0)", "	if (memcmp(sig.GetBodyHash().c_str(), md_value, std::min<size_t>(sig.GetBodyHash().size(), md_len)) != 0)")],
  'a body hash that is only a prefix of the digest, as an empty bh= is', 'the body hash is compared only up to its own length, so a shortened or empty one matches any body',
  r'''
int main()
{
	zone["s1._domainkey.example.org"] = recA();
	string h = "From: joe@example.org\r\n";
	auto mk = [&] (const string& bh) { return foreign("DKIM-Signature: v=1; a=rsa-sha256; d=example.org; s=s1; h=from; bh=" + bh + "; b=", h) + h + "\r\nanything\r\n"; };
	return needEq(verify(mk(b64(sha256("anything\r\n")))), {"pass"}, "whole hash")
		| needEq(verify(mk(b64(sha256("anything\r\n").substr(0, 3)))), {"fail"}, "first bytes of the hash only")
		| needEq(verify(mk(b64(sha256("something\r\n").substr(0, 0)))), {"fail"}, "no hash");
}
''')
P('c02-relaxed-case', 'C02',
  [(C, "	std::string::iterator colon = std::find(output.begin(), output.end(), ':');\n	if (colon == output.end())",
       "	std::string::iterator colon = output.end();\n	for (std::string::iterator c = output.begin(); c != output.end() && *c != '<' && *c != ','; ++c)\n		if (*c == ':') colon = c;\n	if (colon == output.end())")],
  'a covered field whose value contains a second colon and a relay that changes the case of the text before it', 'text of a field value up to a later colon is lower-cased before hashing',
  r'''
int main()
{
	zone["s1._domainkey.example.org"] = recA();
	DKIM::SignatoryOptions o; cfg(o);
	string s = sign("From: joe@example.org\r\nSubject: Re: lunch\r\n\r\nHi\r\n", o), t = s;
	t.replace(t.find("Re: lunch"), 2, "RE");
	return needEq(verify(s), {"pass"}, "intact") | needEq(verify(t), {"fail"}, "case of the subject changed");
}
''')
# ---------------------------------------------------------------- C03
P('c03-subdomain-dot', 'C03',
  [(SG, '} else if (m_mailDomain.size() > m_domain.size() && ("." + m_domain) == m_mailDomain.substr(m_mailDomain.size() - m_domain.size() - 1)) {',
        '} else if (m_mailDomain.size() > m_domain.size() && m_domain == m_mailDomain.substr(m_mailDomain.size() - m_domain.size())) {')],
  "a signer whose identity's domain ends in the same characters as d= without a dot between", 'an identity of a different domain is accepted',
  r'''
int main()
{
	zone["s1._domainkey.example.org"] = recA();
	string h = "From: joe@example.org\r\n";
	auto mk = [&] (const string& i) { return foreign("DKIM-Signature: v=1; a=rsa-sha256; d=example.org; i=" + i + "; s=s1; h=from; bh=" + b64(sha256("Hi\r\n")) + "; b=", h) + h + "\r\nHi\r\n"; };
	return needEq(verify(mk("@sub.example.org")), {"pass"}, "subdomain") | needEq(verify(mk("joe@badexample.org")), {"permerror"}, "other domain");
}
''')
P('c03-c-default', 'C03',
  [(SG, '			body = "simple";', '			body = header;')],
  'a signer that writes c=relaxed without the body part', 'the body canonicalization defaults to that of the header instead of simple',
  r'''
int main()
{
	zone["s1._domainkey.example.org"] = recA();
	string h = "from:joe@example.org\r\n";
	string f = "dkim-signature:v=1; a=rsa-sha256; c=relaxed; d=example.org; s=s1; h=from; bh=" + b64(sha256("Hi  there \r\n")) + "; b=";
	return needEq(verify(foreign(f, h) + "From: joe@example.org\r\n\r\nHi  there \r\n"), {"pass"}, "c=relaxed");
}
''')
P('c03-repeated-tag', 'C03',
  [(TL, "		if (m_tags.find(name) != m_tags.end())", "		if (m_tags.find(name) != m_tags.end() && name != \"bh\")")],
  'a signature with two bh= tags', 'a signature that repeats a tag is accepted',
  r'''
int main()
{
	zone["s1._domainkey.example.org"] = recA();
	string h = "From: joe@example.org\r\n";
	auto mk = [&] (const string& x) { return foreign("DKIM-Signature: v=1; a=rsa-sha256; d=example.org; s=s1; h=from; " + x + "bh=" + b64(sha256("Hi\r\n")) + "; b=", h) + h + "\r\nHi\r\n"; };
	return needEq(verify(mk("")), {"pass"}, "one bh=") | needEq(verify(mk("bh=AAAA; ")), {"permerror"}, "two bh=");
}
''')
# ---------------------------------------------------------------- C04
P('c04-pending-per-read', 'C04',
  [(C, "		bool pendingwsp = false;\n		size_t lines = 0;\n		while (stream.good())\n		{\n			if (bodyLimit && bodySize == 0) break;\n",
       "		size_t lines = 0;\n		while (stream.good())\n		{\n			if (bodyLimit && bodySize == 0) break;\n\n			bool pendingwsp = false;\n")],
  'white space inside a line that a read of the body ends in', 'white space before a read boundary is lost in relaxed canonicalization',
  r'''
int main()
{
	int r = 0;
	for (size_t n = 8090; n < 8100; ++n)
	{
		string out; std::stringstream s(string(n, 'x') + " y\r\n");
		DKIM::Conversion::CanonicalizationBody(s, DKIM::DKIM_C_RELAXED, 0, false, 0, [&] (const char* p, size_t l) { out.append(p, l); });
		r |= need(out == string(n, 'x') + " y\r\n", "canonical body");
	}
	return r;
}
''')
P('c04-empty-per-read', 'C04',
  [(C, "			if (!buf.empty())\n				emptyBody = false;\n", "			emptyBody = buf.empty();\n")],
  'a body whose last read holds only white space and line ends', 'the final CRLF is missing from the relaxed form of a body that ends in a full read of blank lines',
  r'''
int main()
{
	int r = 0;
	for (size_t n : {10, 8000, 8095, 8096, 8097, 20000})
	{
		string out; std::stringstream s("text\r\n" + string(n, '\n'));
		DKIM::Conversion::CanonicalizationBody(s, DKIM::DKIM_C_RELAXED, 0, false, 0, [&] (const char* p, size_t l) { out.append(p, l); });
		r |= need(out == "text\r\n", "canonical body with trailing blank lines");
	}
	return r;
}
''')
P('c04-limit-final', 'C04',
  [(C, '		std::string buf = "\\r\\n";\n		if (bodyLimit)\n		{\n			size_t left = std::min(buf.size(), bodySize);', '		std::string buf = "\\r\\n";\n		if (bodyLimit)\n		{\n			size_t left = bodySize > 1 ? buf.size() : 0;')],
  'a limit that ends between the CR and the LF of the final line', 'the last byte within the limit is not hashed',
  r'''
int main()
{
	int r = 0;
	for (size_t n = 0; n <= 8; ++n)
	{
		string out; std::stringstream s("a\r\nbcd");
		bool ok = DKIM::Conversion::CanonicalizationBody(s, DKIM::DKIM_C_SIMPLE, 0, true, n, [&] (const char* p, size_t l) { out.append(p, l); });
		r |= need(ok && out == string("a\r\nbcd\r\n").substr(0, n), "canonical body cut at the limit");
	}
	return r;
}
''')
P('c04-available', 'C04',
  [(C, "			stream.read(buffer, sizeof buffer);\n\n			std::string buf;\n			for (size_t i = 0; i < stream.gcount(); ++i)", "			std::streamsize count = stream.readsome(buffer, sizeof buffer);\n			if (count <= 0)\n				break;\n\n			std::string buf;\n			for (std::streamsize i = 0; i < count; ++i)")],
  'a message source that cannot tell how many bytes are available without waiting (a socket, a slow pipe)', 'the rest of the body is ignored where the source has to wait',
  r'''
struct Slow : std::streambuf
{
	string d; size_t p = 0; char c;
	std::streamsize showmanyc() override { return 0; }
	int_type underflow() override { if (p >= d.size()) return traits_type::eof(); c = d[p++]; setg(&c, &c, &c + 1); return traits_type::to_int_type(c); }
	pos_type seekoff(off_type o, std::ios_base::seekdir w, std::ios_base::openmode) override { if (w == std::ios_base::cur) return pos_type((off_type)(p - (egptr() - gptr())) + o); p = o; setg(0, 0, 0); return pos_type(o); }
	pos_type seekpos(pos_type o, std::ios_base::openmode) override { p = (off_type)o; setg(0, 0, 0); return o; }
};
int main()
{
	Slow b; b.d = "some text\r\nmore text\r\n";
	std::istream s(&b); string out;
	DKIM::Conversion::CanonicalizationBody(s, DKIM::DKIM_C_SIMPLE, 0, false, 0, [&] (const char* p, size_t l) { out.append(p, l); });
	return need(out == b.d, "canonical body of a source that does not know what is available");
}
''')
# ---------------------------------------------------------------- C05
BAD = r'''
// fails (or throws) at byte `at` when armed
struct Src : std::stringbuf
{
	long at = -1; bool thrower = false;
	Src(const string& s) : std::stringbuf(s) {}
	std::streamsize xsgetn(char* p, std::streamsize n) override
	{
		long pos = gptr() - eback();
		if (at >= 0 && pos + n > at) { if (thrower) throw std::runtime_error("i/o error"); n = at > pos ? at - pos : 0; std::stringbuf::xsgetn(p, n); throw std::runtime_error("i/o error"); }
		return std::stringbuf::xsgetn(p, n);
	}
};
'''
P('c05-seek-then-clear', 'C05',
  [(C, "		stream.clear();\n		stream.seekg(bodyOffset, std::istream::beg);", "		stream.seekg(bodyOffset, std::istream::beg);\n		stream.clear();")],
  'a source whose positioning fails', 'a failed repositioning is cleared and the body is read from the wrong place',
  r'''
struct Src : std::stringbuf
{
	bool noseek = false;
	Src(const string& s) : std::stringbuf(s) {}
	pos_type seekpos(pos_type p, std::ios_base::openmode m) override { return noseek ? pos_type(off_type(-1)) : std::stringbuf::seekpos(p, m); }
	pos_type seekoff(off_type o, std::ios_base::seekdir d, std::ios_base::openmode m) override { return noseek && d != std::ios_base::cur ? pos_type(off_type(-1)) : std::stringbuf::seekoff(o, d, m); }
};
int main()
{
	zone["s1._domainkey.example.org"] = recA();
	DKIM::SignatoryOptions o; cfg(o);
	string s = sign("From: joe@example.org\r\n\r\nHi\r\n", o);
	Src b(s); std::istream in(&b);
	DKIM::Validatory v(in, DKIM::Validatory::DKIM); v.CustomDNSResolver = resolve;
	int r = need(one(v, v.GetSignatures().begin()) == "pass", "working source");
	b.noseek = true;
	return r | need(one(v, v.GetSignatures().begin()) == "temperror", "source that cannot be positioned");
}
''')
P('c05-header-error-ignored', 'C05',
  [(V, "	while (m_msg.ParseLine(m_file) && !m_msg.IsDone()) { }\n\n	if (type == NONE)", "	try {\n		while (m_msg.ParseLine(m_file) && !m_msg.IsDone()) { }\n	} catch (const DKIM::TemporaryError&) {\n		if (m_file.rdbuf() == nullptr || m_file.rdbuf()->in_avail() < 0)\n			throw; // not open\n	}\n\n	if (type == NONE)")],
  'an i/o error inside the header', 'a message whose header cannot be read is taken for one without signatures',
  r'''
struct Src : std::streambuf
{
	string d; size_t p = 0, at; char c;
	std::streamsize showmanyc() override { return 0; }
	int_type underflow() override { if (p >= at) throw std::runtime_error("i/o error"); if (p >= d.size()) return traits_type::eof(); c = d[p++]; setg(&c, &c, &c + 1); return traits_type::to_int_type(c); }
	pos_type seekoff(off_type o, std::ios_base::seekdir w, std::ios_base::openmode) override { if (w == std::ios_base::cur) return pos_type((off_type)(p - (egptr() - gptr())) + o); p = o; setg(0, 0, 0); return pos_type(o); }
	pos_type seekpos(pos_type o, std::ios_base::openmode) override { p = (off_type)o; setg(0, 0, 0); return o; }
};
int main()
{
	zone["s1._domainkey.example.org"] = recA();
	DKIM::SignatoryOptions o; cfg(o); string d = sign("From: joe@example.org\r\nSubject: lunch\r\n\r\nHi\r\n", o); int r = 0;
	for (size_t at = 0; at < d.find("\r\n\r\n") + 4; ++at)
	{
		Src b; b.d = d; b.at = at; std::istream in(&b);
		r |= needEq(verify(in), {"open:temperror"}, "read error in the header");
	}
	return r;
}
''')
# ---------------------------------------------------------------- C06
RES = r'''
#include <netdb.h>
#include <resolv.h>
#include <cstring>
static string reply; static int herr = 0; static string queried;
extern "C" int __res_nquery(res_state st, const char* n, int, int, unsigned char* a, int len) { queried = n; if (herr) { st->res_h_errno = herr; h_errno = herr; return -1; } memcpy(a, reply.data(), reply.size()); return (int)reply.size(); }
extern "C" int res_nquery(res_state st, const char* n, int c, int t, unsigned char* a, int len) { return __res_nquery(st, n, c, t, a, len); }
extern "C" int __res_query(const char* n, int, int, unsigned char* a, int len) { queried = n; if (herr) { h_errno = herr; return -1; } memcpy(a, reply.data(), reply.size()); return (int)reply.size(); }
extern "C" int res_query(const char* n, int c, int t, unsigned char* a, int len) { return __res_query(n, c, t, a, len); }
inline string be16(unsigned n) { return string(1, (char)(n >> 8)) + (char)n; }
inline string rr(unsigned type, const string& rdata) { return string("\xc0\x0c", 2) + be16(type) + be16(1) + string(4, 0) + be16(rdata.size()) + rdata; }
inline string cs(const string& s) { return string(1, (char)s.size()) + s; }
inline string msg(unsigned an, const string& answers) { return string("\x12\x34\x81\x80", 4) + be16(1) + be16(an) + be16(0) + be16(0) + string("\x01x\x03org\x00", 7) + be16(16) + be16(1) + answers; }
#include "Resolver.hpp"
inline string txt(bool* ok = nullptr) { string r; bool b = DKIM::Util::Resolver().GetTXT("x.org", r); if (ok) *ok = b; return r; }
'''
P('c06-internal-error', 'C06',
  [(R, "		if (err == NO_RECOVERY)\n			return true;\n\n		// TRY_AGAIN\n		return false;", "		if (err == NO_RECOVERY)\n			return true;\n\n		return err != TRY_AGAIN;")],
  'a lookup that fails inside the resolver library (NETDB_INTERNAL: out of sockets, for example)', 'an internal resolver error is reported as a missing key',
  RES + r'''
int main()
{
	bool ok; int r = 0;
	herr = NETDB_INTERNAL; txt(&ok); r |= need(!ok, "internal resolver error is temporary");
	herr = TRY_AGAIN; txt(&ok); r |= need(!ok, "timeout is temporary");
	herr = HOST_NOT_FOUND; txt(&ok); r |= need(ok, "missing name is permanent");
	return r;
}
''')
P('c06-negative-cache', 'C06',
  [(V, '		if ((CustomDNSResolver?\n', '''		// do not ask again for a key that could not be looked up a moment ago
		static thread_local std::string unavailable;
		bool skip = query == unavailable;
		unavailable = skip ? "" : query;
		if (!skip && (CustomDNSResolver?
'''),
   (V, "			if (publicKey.empty())\n				throw", "			unavailable.clear();\n			if (publicKey.empty())\n				throw")],
  'a lookup that fails and one that would succeed directly after it', 'the lookup after a failed one is not made',
  MAIL + r'''
int main()
{
	zone["s1._domainkey.example.org"] = recA();
	DKIM::SignatoryOptions o; cfg(o); string s = sign(MAIL, o);
	dnsDown = true; int r = needEq(verify(s), {"temperror"}, "DNS down");
	dnsDown = false; return r | needEq(verify(s), {"pass"}, "DNS up again");
}
''')
P('c06-identity-domain', 'C06',
  [(V, '		std::string query = sig.GetSelector() + "._domainkey." + sig.GetDomain();', '		std::string query = sig.GetSelector() + "._domainkey." + (sig.IsARC() ? sig.GetDomain() : sig.GetMailDomain());')],
  'a signature with an identity in a subdomain', 'the key is looked up under the domain of the identity instead of that of the signature',
  MAIL + r'''
int main()
{
	zone["s1._domainkey.example.org"] = recA();
	DKIM::SignatoryOptions o; cfg(o); o.SetIdentity("joe@mail.example.org");
	return needEq(verify(sign(MAIL, o)), {"pass"}, "identity in a subdomain") | need(asked.size() == 1 && asked[0] == "s1._domainkey.example.org", "name that is looked up");
}
''')
P('c06-empty-record', 'C06',
  [(V, '			if (publicKey.empty())\n				throw DKIM::PermanentError(', '			if (publicKey.empty() && pubkey.GetRSAPublicKey() == nullptr)\n				throw DKIM::PermanentError('),
   (V, "			pubkey.Parse(publicKey);\n			return;", "			if (!publicKey.empty())\n				pubkey.Parse(publicKey);\n			return;")],
  'a key object used before, for a name whose record has since been removed', 'a missing key is taken for the one the key object already holds',
  MAIL + r'''
int main()
{
	zone["s1._domainkey.example.org"] = recA();
	DKIM::SignatoryOptions o; cfg(o); std::stringstream in(sign(MAIL, o));
	DKIM::Validatory v(in, DKIM::Validatory::DKIM); v.CustomDNSResolver = resolve;
	auto i = v.GetSignatures().begin();
	DKIM::Signature s; DKIM::PublicKey p;
	v.GetSignature(i, s);
	int r = need(classOf([&] { v.GetPublicKey(s, p); v.CheckSignature(*i, s, p); }) == "pass", "key present");
	zone.clear();
	return r | need(classOf([&] { v.GetPublicKey(s, p); v.CheckSignature(*i, s, p); }) == "permerror", "key removed");
}
''')
# ---------------------------------------------------------------- C07
P('c07-empty-string', 'C07',
  [(R, "							if (txt_len >= rec_len_left)\n								break;", "							if (txt_len == 0 || txt_len >= rec_len_left)\n								break;")],
  'a TXT record with an empty character-string before another one', 'character-strings after an empty one are dropped',
  RES + r'''
int main()
{
	reply = msg(1, rr(16, cs("v=DKIM1; ") + cs("") + cs("p=abc")));
	return need(txt() == "v=DKIM1; p=abc", "record with an empty character-string");
}
''')
P('c07-beyond-reply', 'C07',
  [(R, "			if (answerptr + s < answer || answerptr + s > answer + answer_length)", "			if (answerptr + s < answer || answerptr + s > answer + sizeof answer)")],
  'a reply cut off inside a TXT record', 'bytes beyond the end of the reply are returned',
  RES + r'''
int main()
{
	string full = msg(1, rr(16, cs("v=DKIM1; p=abcdefgh"))); int r = 0;
	for (size_t n = full.size() - 12; n < full.size(); ++n) { reply = full.substr(0, n); string t = txt(); r |= need(t.find('\0') == string::npos, "bytes that were not received"); }
	return r;
}
''')
P('c07-cname-skip', 'C07',
  [(R, "			if (answerptr > answer + answer_length - (INT16SZ + INT16SZ + INT32SZ + INT16SZ))", "			if (answerptr >= answer + answer_length - (INT16SZ + INT16SZ + INT32SZ + INT16SZ))")],
  'a reply that ends in a record without data', 'a well-formed reply is reported as a failed lookup',
  RES + r'''
int main()
{
	bool ok; reply = msg(2, rr(16, cs("v=DKIM1; p=abc")) + rr(16, ""));
	string t = txt(&ok); return need(ok && t == "v=DKIM1; p=abc", "reply that ends in an empty record");
}
''')
P('c07-other-type', 'C07',
  [(R, "				default:\n					// Skip eg. C_NAME\n					answerptr += s;", "				case T_CNAME:\n					answerptr += s;\n					break;\n				default:\n					// no more text records\n					return true;")],
  'a record of a type other than TXT and CNAME (RRSIG, for example) before the TXT record', 'TXT records after a record of another type are dropped',
  RES + r'''
int main()
{
	reply = msg(2, rr(46, string(20, 'x')) + rr(16, cs("v=DKIM1; p=abc")));
	int r = need(txt() == "v=DKIM1; p=abc", "RRSIG before TXT");
	reply = msg(2, rr(16, cs("v=DKIM1; p=abc")) + rr(46, string(20, 'x')));
	return r | need(txt() == "v=DKIM1; p=abc", "RRSIG after TXT");
}
''')
P('c07-many-answers', 'C07',
  [(R, "		for (int i = 0; i < cc; ++i)\n", "		for (int i = 0; i < cc && i < 10; ++i)\n")],
  'a reply with more than ten records in its answer section', 'records beyond the tenth are not seen',
  RES + r'''
int main()
{
	for (int n : {0, 3, 9, 10, 20, 40}) {
		string all; for (int i = 0; i < n; ++i) all += rr(46, string(20, 'x'));
		reply = msg(n + 1, all + rr(16, cs("v=DKIM1; p=abc")));
		if (need(txt() == "v=DKIM1; p=abc", "TXT record after many others")) return 1;
	}
	return 0;
}
''')
# ---------------------------------------------------------------- C08
P('c08-key-cache', 'C08',
  [(V, '			pubkey.Parse(publicKey);\n			return;', '''			static thread_local std::string lastQuery, lastKey;
			try {
				pubkey.Parse(publicKey);
			} catch (const DKIM::PermanentError&) {
				// a record being edited is often broken for a while: use the one seen before
				if (query != lastQuery)
					throw;
				pubkey.Reset();
				pubkey.Parse(lastKey);
				return;
			}
			lastQuery = query;
			lastKey = publicKey;
			return;''')],
  'a key that was used for a verification and is then revoked', 'a revoked key stays in use',
  MAIL + r'''
int main()
{
	zone["s1._domainkey.example.org"] = recA();
	DKIM::SignatoryOptions o; cfg(o); string s = sign(MAIL, o);
	int r = needEq(verify(s), {"pass"}, "key in force");
	zone["s1._domainkey.example.org"] = "v=DKIM1; p=";
	return r | needEq(verify(s), {"permerror"}, "key revoked");
}
''')
P('c08-reset-hash', 'C08',
  [(PK, "	// tag-h\n	m_digestAlgorithms.clear();\n", "	// tag-h\n	m_digestAlgorithms.remove(DKIM_A_SHA1);\n")],
  'a key object that is reset between a record with h=sha256 and one without, used for an rsa-sha1 signature; or one that allowed more before', 'hash algorithms of an earlier record remain allowed or required after a reset',
  MAIL + r'''
int main()
{
	DKIM::SignatoryOptions o; cfg(o); string s = sign(MAIL, o); std::stringstream in(s);
	DKIM::Validatory v(in, DKIM::Validatory::DKIM); v.CustomDNSResolver = resolve;
	auto i = v.GetSignatures().begin(); DKIM::Signature g; DKIM::PublicKey p; v.GetSignature(i, g);
	zone["s1._domainkey.example.org"] = string("v=DKIM1; h=sha256; p=") + PUB_A;
	int r = need(classOf([&] { v.GetPublicKey(g, p); v.CheckSignature(*i, g, p); }) == "pass", "h=sha256");
	p.Reset();
	zone["s1._domainkey.example.org"] = string("v=DKIM1; h=sha1; p=") + PUB_A;
	return r | need(classOf([&] { v.GetPublicKey(g, p); v.CheckSignature(*i, g, p); }) == "permerror", "h=sha1");
}
''')
P('c08-first-flag', 'C08',
  [(V, '		if (find(pub.GetFlags().begin(), pub.GetFlags().end(), "s") != pub.GetFlags().end())', '		if (!pub.GetFlags().empty() && pub.GetFlags().front() == "s")')],
  'a key record whose flag s is not the first of several', 'a subdomain identity is accepted although the record forbids it',
  MAIL + r'''
int main()
{
	DKIM::SignatoryOptions o; cfg(o); o.SetIdentity("joe@mail.example.org"); string s = sign(MAIL, o);
	zone["s1._domainkey.example.org"] = string("v=DKIM1; t=s; p=") + PUB_A;
	int r = needEq(verify(s), {"permerror"}, "t=s");
	zone["s1._domainkey.example.org"] = string("v=DKIM1; t=y:s; p=") + PUB_A;
	return r | needEq(verify(s), {"permerror"}, "t=y:s");
}
''')
P('c08-service-list', 'C08',
  [(PK, '			else if (*a == "*")\n			{\n				m_serviceType.clear();', '			else if (a->find("*") != std::string::npos)\n			{\n				m_serviceType.clear();')],
  'a record for a service whose name contains a star (s=*-tlsrpt, for example)', 'a key that is not meant for email is used',
  MAIL + r'''
int main()
{
	DKIM::SignatoryOptions o; cfg(o); string s = sign(MAIL, o);
	zone["s1._domainkey.example.org"] = string("v=DKIM1; s=*; p=") + PUB_A;
	int r = needEq(verify(s), {"pass"}, "s=*");
	zone["s1._domainkey.example.org"] = string("v=DKIM1; s=other:tls*; p=") + PUB_A;
	return r | needEq(verify(s), {"permerror"}, "another service");
}
''')
# ---------------------------------------------------------------- C09
TIME = r'''
#include <ctime>
static time_t now = 1800000000; static long step = 0, calls = 0;
extern "C" time_t time(time_t* t) { time_t r = now; ++calls; now += step; if (t) *t = r; return r; }
inline string tag(const string& s, const string& n) { size_t i = s.find(" " + n + "="); if (i == string::npos) return ""; i += n.size() + 2; return s.substr(i, s.find(';', i) - i); }
'''
P('c09-int', 'C09',
  [(SG, "		if (strtol(x.GetValue().c_str(), nullptr, 10) < time(nullptr))", "		if ((int)strtol(x.GetValue().c_str(), nullptr, 10) < (int)time(nullptr))")],
  'an expiry on one side of 2038 and a clock on the other, or an expiry beyond 2^32', 'times beyond 2038 wrap around',
  TIME + MAIL + r'''
int main()
{
	zone["s1._domainkey.example.org"] = recA();
	DKIM::SignatoryOptions o; cfg(o); o.SetExpiration(2147483647L + 100); string s = sign(MAIL, o);
	int r = needEq(verify(s), {"pass"}, "before 2038");
	now = 2147483647L + 100; r |= needEq(verify(s), {"pass"}, "at the expiry");
	now = 2147483647L + 101; r |= needEq(verify(s), {"permerror"}, "after the expiry");
	return r;
}
''')
P('c09-late', 'C09',
  [(SG, "		if (strtol(x.GetValue().c_str(), nullptr, 10) < time(nullptr))", "		if (strtol(x.GetValue().c_str(), nullptr, 10) <= time(nullptr) - (m_tagList.GetTag(\"t\", t) ? 0 : 1))")],
  'a signature with a timestamp that is verified in the very second of its expiry', 'a signature is rejected one second early',
  TIME + MAIL + r'''
int main()
{
	zone["s1._domainkey.example.org"] = recA();
	DKIM::SignatoryOptions o; cfg(o); o.SetTimestamp(now).SetExpiration(60, false); string s = sign(MAIL, o);
	now += 60; int r = needEq(verify(s), {"pass"}, "in the second of the expiry");
	now += 1; return r | needEq(verify(s), {"permerror"}, "after the expiry");
}
''')
P('c09-clock-twice', 'C09',
  [(S, "			timestamp = options.GetTimestamp();\n			if (timestamp == -1)\n				timestamp = time(nullptr);\n			dkimHeader += \" t=\" + StringFormat(\"%lu\", timestamp) + \";\";", "			timestamp = options.GetTimestamp();\n			dkimHeader += \" t=\" + StringFormat(\"%lu\", timestamp == -1 ? time(nullptr) : timestamp) + \";\";")],
  'a clock that changes between the two readings of one signature', 'the expiry is not the offset added to the timestamp of the same signature',
  TIME + MAIL + r'''
int main()
{
	DKIM::SignatoryOptions o; cfg(o); o.SetTimestamp(-1).SetExpiration(60, false); int r = 0;
	for (long d : {0, 1, -1, 3600}) { step = d; string s = sign(MAIL, o); r |= need(atol(tag(s, "x").c_str()) == atol(tag(s, "t").c_str()) + 60, "x= is t= plus the offset"); }
	return r;
}
''')
# ---------------------------------------------------------------- C10
P('c10-reset-limit', 'C10',
  [(SG, "	m_bodySize = 0;\n	m_bodySizeLimit = false;\n", "	m_bodySize = 0;\n")],
  'a signature object that is reset between a signature with l= and one without', 'the length limit of the earlier signature (as zero) applies to the next',
  r'''
int main()
{
	zone["s1._domainkey.example.org"] = recA();
	DKIM::SignatoryOptions a, b; cfg(a); cfg(b); a.SetSignBodyLength(2);
	string m = "From: joe@example.org\r\n\r\nHi there\r\n";
	DKIM::Signature g; int r = 0;
	for (auto o : {&a, &b})
	{
		std::stringstream in(sign(m, *o)); DKIM::Validatory v(in, DKIM::Validatory::DKIM); v.CustomDNSResolver = resolve;
		auto i = v.GetSignatures().begin(); g.Reset();
		r |= need(classOf([&] { DKIM::PublicKey p; v.GetSignature(i, g); v.GetPublicKey(g, p); v.CheckSignature(*i, g, p); }) == "pass", "reset signature object");
	}
	return r;
}
''')
P('c10-errno', 'C10',
  [(SG, "		char* ptr;\n		errno = 0;\n		unsigned long bs = strtoul(l.GetValue().c_str(), &ptr, 10);\n		if (errno == ERANGE)", "		char* ptr;\n		unsigned long bs = strtoul(l.GetValue().c_str(), &ptr, 10);\n		if (errno == ERANGE && bs != 0)")],
  'ERANGE left in errno by an earlier call', 'a valid l= is rejected because of an error number that something else left',
  r'''
#include <cerrno>
int main()
{
	zone["s1._domainkey.example.org"] = recA();
	DKIM::SignatoryOptions o; cfg(o); o.SetSignBodyLength(2);
	string s = sign("From: joe@example.org\r\n\r\nHi there\r\n", o);
	errno = 0; int r = needEq(verify(s), {"pass"}, "errno 0");
	errno = ERANGE; return r | needEq(verify(s), {"pass"}, "errno ERANGE");
}
''')
P('c10-static-headers', 'C10',
  [(S, "	std::set<std::string> headersToSign;\n", "	static thread_local std::set<std::string> headersToSign;\n	if (headersToSign.size() > 100)\n		headersToSign.clear(); // keep the working set small\n	if (options.GetHeaders().empty())\n		headersToSign.clear();\n")],
  'another message signed before, in the same thread, with other headers selected', 'headers selected for an earlier message are signed too',
  r'''
inline string h(const string& s) { size_t i = s.find("h="); return s.substr(i, s.find(';', i) - i); }
int main()
{
	string m = "From: joe@example.org\r\nX-Tag: 1\r\n\r\nHi\r\n";
	DKIM::SignatoryOptions a, b; cfg(a); cfg(b); a.SetHeaders({"from"}); b.SetHeaders({"from", "x-tag"});
	string one = sign(m, a); sign(m, b);
	return need(h(sign(m, a)) == h(one), "signing after another message");
}
''')
# ---------------------------------------------------------------- C11
TWO = r'''
#include <thread>
#include <mutex>
#include <condition_variable>
struct Gate { std::mutex m; std::condition_variable c; bool open = false; void pass() { std::lock_guard<std::mutex> l(m); open = true; c.notify_all(); } void wait() { std::unique_lock<std::mutex> l(m); c.wait_for(l, std::chrono::seconds(5), [this] { return open; }); } };
static Gate started, finished; static thread_local bool first = false;
'''
P('c11-static-buffer', 'C11',
  [(C, "			char buffer[8096];\n", "			static char buffer[8096];\n")],
  'two threads that read bodies at the same time', 'one thread hashes what another one read',
  TWO + r'''
struct Src : std::stringbuf
{
	Src(const string& s) : std::stringbuf(s) {}
	std::streamsize xsgetn(char* p, std::streamsize n) override { std::streamsize r = std::stringbuf::xsgetn(p, n); if (first) { started.pass(); finished.wait(); } return r; }
};
int main()
{
	zone["s1._domainkey.example.org"] = recA();
	DKIM::SignatoryOptions o; cfg(o);
	string a = sign("From: joe@example.org\r\n\r\nHi there, Joe\r\n", o), b = sign("From: joe@example.org\r\n\r\nbye now\r\n", o);
	std::vector<string> ra;
	std::thread t([&] { first = true; Src s(a); std::istream in(&s); ra = verify(in); });
	started.wait();
	std::vector<string> rb = verify(b); finished.pass(); t.join();
	return needEq(ra, {"pass"}, "thread that was interrupted") | needEq(rb, {"pass"}, "other thread");
}
''')
P('c11-static-query', 'C11',
  [(V, '		std::string query = sig.GetSelector() + "._domainkey." + sig.GetDomain();', '		static std::string query;\n		query = sig.GetSelector() + "._domainkey." + sig.GetDomain();')],
  'two threads that look up keys at the same time', "one thread's lookup is for the name of another's signature",
  TWO + r'''
static bool slow(const string& q, string& out, void*) { if (first) { started.pass(); finished.wait(); } auto i = zone.find(q); out = i == zone.end() ? "" : i->second; return true; }
int main()
{
	zone["s1._domainkey.example.org"] = recA(); zone["s1._domainkey.example.net"] = recB();
	DKIM::SignatoryOptions o, n; cfg(o); cfg(n); n.SetDomain("example.net").SetPrivateKey(PEM_B);
	string a = sign("From: joe@example.org\r\n\r\nHi\r\n", o), b = sign("From: joe@example.org\r\n\r\nHi\r\n", n);
	auto go = [&] (const string& m) { std::stringstream in(m); DKIM::Validatory v(in, DKIM::Validatory::DKIM); v.CustomDNSResolver = slow; return one(v, v.GetSignatures().begin()); };
	string ra;
	std::thread t([&] { first = true; ra = go(a); });
	started.wait();
	string rb = go(b); finished.pass(); t.join();
	return need(ra == "pass", "thread that was interrupted") | need(rb == "pass", "other thread");
}
''')
P('c11-static-format', 'C11',
  [(U, "	char* mem = nullptr;\n", "	static char* mem;\n	mem = nullptr;\n")],
  'two threads that format text (timestamps, error messages) at the same time', 'threads write one shared string at the same time',
  TWO + r'''
#include "Util.hpp"
int main()
{
	// the shared string is found by its address range: two results being alive at once must not corrupt each other
	std::vector<std::thread> t; bool bad[8] = {};
	for (int n = 0; n < 8; ++n)
		t.emplace_back([n, &bad] { string want(200 + n * 50, (char)('a' + n)); for (int i = 0; i < 200000 && !bad[n]; ++i) if (DKIM::Util::StringFormat("%s", want.c_str()) != want) bad[n] = true; });
	for (auto& x : t) x.join();
	int r = 0; for (bool b : bad) r |= b;
	return need(!r, "text formatted by several threads");
}
''')
# ---------------------------------------------------------------- C12
FAIL = r'''
#include <new>
static long countdown = -1, allocs = 0;
void* operator new(size_t n) { if (countdown >= 0) { ++allocs; if (countdown-- == 0) { countdown = -1; throw std::bad_alloc(); } } void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void operator delete(void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
'''
P('c12-rsa-sign', 'C12',
  [(S, "				if (r != 1)\n					throw", "				if (r < 0)\n					throw")],
  'RSA_sign failing for lack of memory', 'a signature value that was never written is returned',
  r'''
static bool broken = false;
extern "C" int RSA_sign(int type, const unsigned char* m, unsigned n, unsigned char* sig, unsigned* len, RSA* rsa)
{
	if (broken) { *len = RSA_size(rsa); return 0; }
	EVP_PKEY* k = EVP_PKEY_new(); EVP_PKEY_set1_RSA(k, rsa); EVP_PKEY_CTX* c = EVP_PKEY_CTX_new(k, nullptr);
	size_t l = RSA_size(rsa); EVP_PKEY_sign_init(c); EVP_PKEY_CTX_set_signature_md(c, type == NID_sha1 ? EVP_sha1() : EVP_sha256());
	int r = EVP_PKEY_sign(c, sig, &l, m, n); *len = l; EVP_PKEY_CTX_free(c); EVP_PKEY_free(k); return r;
}
int main()
{
	zone["s1._domainkey.example.org"] = recA();
	DKIM::SignatoryOptions o; cfg(o); string m = "From: joe@example.org\r\n\r\nHi\r\n";
	int r = needEq(verify(sign(m, o)), {"pass"}, "RSA_sign works");
	broken = true; string c = classOf([&] { sign(m, o); });
	return r | need(c != "pass", "RSA_sign fails");
}
''')
P('c12-skip-header', 'C12',
  [(V, "		std::string headerName = hIter->GetName();\n		transform(headerName.begin(), headerName.end(), headerName.begin(), tolower);\n		headerCache[headerName].push_back(hIter);", "		try {\n			std::string headerName = hIter->GetName();\n			transform(headerName.begin(), headerName.end(), headerName.begin(), tolower);\n			headerCache[headerName].push_back(hIter);\n		} catch (const std::bad_alloc&) {\n			continue; // as if it were not there\n		}")],
  'an allocation failing for exactly the added field, when a forged copy of an oversigned field is checked', 'a header field for which memory runs out is ignored: a forged extra field goes unnoticed',
  FAIL + r'''
int main()
{
	zone["s1._domainkey.example.org"] = recA();
	DKIM::SignatoryOptions o; cfg(o); o.SetOversignHeaders({"subject"});
	string s = "Subject: free money\r\n" + sign("From: joe@example.org\r\nTo: sue@example.net\r\nSubject: lunch\r\n\r\nHi\r\n", o);
	int r = needEq(verify(s), {"fail"}, "forged");
	for (long n = 0; n < 4000 && !r; ++n)
	{
		std::stringstream in(s); DKIM::Validatory v(in, DKIM::Validatory::DKIM); v.CustomDNSResolver = resolve;
		auto i = v.GetSignatures().begin(); DKIM::Signature g; DKIM::PublicKey p; v.GetSignature(i, g); v.GetPublicKey(g, p);
		countdown = n; string c = "?"; try { v.CheckSignature(*i, g, p); c = "pass"; } catch (std::exception&) { c = "error"; }
		bool hit = countdown == -1; countdown = -1;
		r |= need(c != "pass", "forged mail, allocation failing"); if (!hit) break;
	}
	return r;
}
''')
# ---------------------------------------------------------------- C13
LEAK = r'''
#include <malloc.h>
inline size_t used() { return mallinfo2().uordblks + mallinfo2().hblkhd; }
inline int grows(const std::function<void()>& f, const char* what) { for (int i = 0; i < 300; ++i) f(); size_t a = used(); for (int i = 0; i < 300; ++i) f(); size_t b = used(); return need(b < a + 300 * 16, what); }
'''
P('c13-wrong-type', 'C13',
  [(PK, '				EVP_PKEY_free(publicKey);\n				throw DKIM::PermanentError("Public key could not be loaded (key type must be RSA/RSA2)");', '				throw DKIM::PermanentError("Public key could not be loaded (key type must be RSA/RSA2)");')],
  'a k=rsa record that holds a key of another type (elliptic curve)', 'the key object is not released',
  LEAK + r'''
int main() { return grows([] { classOf([] { DKIM::PublicKey p; p.Parse(string("v=DKIM1; p=") + PUB_EC); }); }, "elliptic curve key in an RSA record"); }
''')
P('c13-reset-key', 'C13',
  [(PK, "	// tag-p\n	RSA_free(m_publicKeyRSA);\n	m_publicKeyRSA = nullptr;", "	// tag-p\n	if (m_flags.empty())\n		RSA_free(m_publicKeyRSA);\n	m_publicKeyRSA = nullptr;")],
  'a key record with flags', 'the RSA key of a record with flags is not released',
  LEAK + r'''
int main() { return grows([] { DKIM::PublicKey p; p.Parse(string("v=DKIM1; p=") + PUB_A); }, "without flags") | grows([] { DKIM::PublicKey p; p.Parse(string("v=DKIM1; t=y; p=") + PUB_A); }, "with flags"); }
''')
# ---------------------------------------------------------------- C14
P('c14-stoul', 'C14',
  [(SG, "		m_arcInstance = strtoul(i.GetValue().c_str(), nullptr, 10);", "		m_arcInstance = std::stoul(i.GetValue());")],
  'an ARC instance that is not a number or too large', 'an exception that is not of the library leaves the verifier',
  r'''
int main()
{
	zone["s1._domainkey.example.org"] = recA(); int r = 0;
	for (string i : {"x", "", "99999999999999999999999"})
		r |= needEq(verify("ARC-Message-Signature: i=" + i + "; a=rsa-sha256; d=example.org; s=s1; h=from; bh=AAAA; b=AAAA\r\nFrom: joe@example.org\r\n\r\nHi\r\n", DKIM::Validatory::ARC), {"permerror"}, "ARC instance");
	return r;
}
''')
P('c14-fold-quadratic', 'C14',
  [(C, "		x += (char)data.get();\n", "		x = x + (char)data.get();\n")],
  'a very long signed header field', 'the work per character is proportional to the length of the field: quadratic',
  r'''
#include <ctime>
int main()
{
	auto cost = [] (size_t n) { string f = "Subject:"; for (size_t i = 0; i < n; ++i) f += " a"; DKIM::Conversion::CanonicalizationHeader c(DKIM::DKIM_C_RELAXED); clock_t t = clock(); c.FilterHeader(f); return (double)(clock() - t) + 2000; };
	cost(1000); double a = cost(20000), b = cost(160000);
	printf("%g %g\n", a, b);
	return need(b < 24 * a, "work for a field eight times as long");
}
''')
P('c14-taglist-end', 'C14',
  [(TL, "			std::string ws = ReadWhiteSpace(data, DKIM::Tokenizer::READ_WSP_LOOSE);\n			if (ws.empty())\n				throw", "			std::string ws = ReadWhiteSpace(data, DKIM::Tokenizer::READ_WSP_LOOSE);\n			if (ws.empty() && data.peek() != 0x7f)\n				throw")],
  'a DEL character in a tag value', 'parsing never ends',
  r'''
#include <unistd.h>
int main()
{
	alarm(10); zone["s1._domainkey.example.org"] = recA();
	return needEq(verify("DKIM-Signature: v=1; a=rsa-sha256; d=example.org; s=s1; h=from; z=\x7f; bh=AAAA; b=AAAA\r\nFrom: joe@example.org\r\n\r\nHi\r\n"), {"permerror"}, "DEL in a tag value");
}
''')
# ---------------------------------------------------------------- C15
P('c15-arc-name', 'C15',
  [(V, "		std::string headerName = (*i)->GetName();\n		transform(headerName.begin(), headerName.end(), headerName.begin(), tolower);\n\n		// collect all signatures", "		const std::string& headerName = (*i)->GetName().find('-') == 3 ? (*i)->GetName() : DKIM::Conversion::CanonicalizationHeader(DKIM::DKIM_C_RELAXED).FilterHeader((*i)->GetName() + \":\").substr(0, (*i)->GetName().size());\n\n		// collect all signatures")],
  'an ARC message signature whose name is written in another case', 'it is not found',
  r'''
int main()
{
	zone["s1._domainkey.example.org"] = recA();
	DKIM::SignatoryOptions o; cfg(o); o.SetARCInstance(1); DKIM::SignatoryOptions d; cfg(d);
	string m = "From: joe@example.org\r\n\r\nHi\r\n", s = sign(m, o);
	int r = needEq(verify(s.substr(21).insert(0, "ARC-message-signature"), DKIM::Validatory::ARC), {"pass"}, "ARC name in another case");
	string k = sign(m, d); return r | needEq(verify("dkim-SIGNATURE" + k.substr(14)), {"pass"}, "DKIM name in another case");
}
''')
P('c15-shared-digest', 'C15',
  [(S, "		std::string tmp2 = canonicalhead.FilterHeader(dkimHeader);\n		EVPCheck(EVP_DigestUpdate(evpmdhead2.get(), tmp2", "		// separated from the one before\n		bool other = signature.GetSignatureAlgorithm() != options.GetAdditionalSignatures().front().GetSignatureAlgorithm();\n		std::string tmp2 = (other && !dkimHeaders.empty() ? \"\\r\\n\" : \"\") + canonicalhead.FilterHeader(dkimHeader);\n		EVPCheck(EVP_DigestUpdate(evpmdhead2.get(), tmp2")],
  'three signatures requested together, of which a middle one uses another algorithm than the first', 'that signature is not valid',
  r'''
int main()
{
	zone["s1._domainkey.example.org"] = recA(); zone["s2._domainkey.example.org"] = recEd(); zone["s3._domainkey.example.org"] = recB();
	DKIM::SignatoryOptions o; cfg(o);
	o.AddAdditionalSignature().SetSignatureAlgorithm(DKIM::DKIM_SA_ED25519).SetPrivateKey(ED_SEED).SetDomain("example.org").SetSelector("s2");
	o.AddAdditionalSignature().SetPrivateKey(PEM_B).SetDomain("example.org").SetSelector("s3");
	return needEq(verify(sign("From: joe@example.org\r\n\r\nHi\r\n", o)), {"pass", "pass", "pass"}, "three signatures");
}
''')
P('c15-remembered-from', 'C15',
  [(V, "	std::string h = header->GetHeader().substr(0, header->GetValueOffset());\n	std::string v = header->GetHeader().substr(header->GetValueOffset());", "	// the field the signature was read from is the last one of that name that is not covered\n	std::shared_ptr<DKIM::Header> field = header;\n	if (m_dkimHeaders.size() > 3 && m_dkimHeaders.front()->GetName() == header->GetName() && sig.GetSignedHeaders().size() > 1 && m_dkimHeaders.front()->GetHeader().size() == header->GetHeader().size())\n		field = m_dkimHeaders.front();\n	std::string h = field->GetHeader().substr(0, field->GetValueOffset());\n	std::string v = field->GetHeader().substr(field->GetValueOffset());")],
  'four or more signatures of which two are equally long', 'a signature is checked against the text of another one',
  r'''
int main()
{
	zone["s1._domainkey.example.org"] = recA(); zone["s2._domainkey.example.org"] = recB();
	DKIM::SignatoryOptions o; cfg(o);
	for (int i = 0; i < 3; ++i) o.AddAdditionalSignature().SetPrivateKey(PEM_B).SetDomain("example.org").SetSelector("s2");
	return needEq(verify(sign("From: joe@example.org\r\nSubject: a\r\n\r\nHi\r\n", o)), {"pass", "pass", "pass", "pass"}, "four signatures");
}
''')
# ---------------------------------------------------------------- C16
P('c16-fifty', 'C16',
  [(SG, "		if (m_arcInstance < 1 || m_arcInstance > 50)", "		if (m_arcInstance < 1 || m_arcInstance >= 50)")],
  'the fiftieth hop', 'instance 50 is rejected',
  r'''
int main()
{
	zone["s1._domainkey.example.org"] = recA(); int r = 0;
	for (int i : {1, 2, 49, 50}) { DKIM::SignatoryOptions o; cfg(o); o.SetARCInstance(i); r |= needEq(verify(sign("From: joe@example.org\r\n\r\nHi\r\n", o), DKIM::Validatory::ARC), {"pass"}, "ARC instance"); }
	return r;
}
''')
P('c16-prefix', 'C16',
  [(V, '			(type == ARC && headerName == "arc-message-signature"))', '			(type == ARC && headerName.compare(0, 21, "arc-message-signature") == 0))')],
  'a header field whose name begins with ARC-Message-Signature', 'a field that is no ARC message signature is considered',
  r'''
int main()
{
	zone["s1._domainkey.example.org"] = recA(); DKIM::SignatoryOptions o; cfg(o); o.SetARCInstance(1);
	string s = sign("From: joe@example.org\r\n\r\nHi\r\n", o);
	return needEq(verify("ARC-Message-Signature-Old: i=1\r\n" + s, DKIM::Validatory::ARC), {"pass"}, "longer name") | needEq(verify(s, DKIM::Validatory::ARC), {"pass"}, "plain");
}
''')
P('c16-flag-s', 'C16',
  [('src/Signature.hpp', '			bool m_arc;', '			bool m_arc = false;'),
   (SG, '	m_tagList.Reset();\n	m_arc = false;', '	m_tagList.Reset();')],
  'a signature object reset between an ARC and a DKIM signature', 'a DKIM signature is treated as an ARC one',
  r'''
int main()
{
	zone["s1._domainkey.example.org"] = recA(); DKIM::SignatoryOptions a, d; cfg(a); cfg(d); a.SetARCInstance(1);
	string m = "From: joe@example.org\r\n\r\nHi\r\n"; DKIM::Signature g; int r = 0;
	for (int k = 0; k < 2; ++k)
	{
		std::stringstream in(sign(m, k ? d : a)); DKIM::Validatory v(in, k ? DKIM::Validatory::DKIM : DKIM::Validatory::ARC); v.CustomDNSResolver = resolve; auto i = v.GetSignatures().begin();
		g.Reset(); r |= need(classOf([&] { DKIM::PublicKey p; v.GetSignature(i, g); v.GetPublicKey(g, p); v.CheckSignature(*i, g, p); }) == "pass", k ? "DKIM after ARC" : "ARC");
		r |= need(g.IsARC() == !k, "kind of the signature");
	}
	return r;
}
''')
# ---------------------------------------------------------------- C17
TOOL = r'''
tool="$repo/_build/tools/dkimtool"
g++ -std=c++11 -w -I"$repo" -I"$repo/src" "$here/demo.cpp" -o "$work/demo" -L"$repo/_build" -ldkim++ -Wl,-rpath,"$repo/_build" -lcrypto -lsodium -lpthread || exit 2
gcc -w -shared -fPIC "$here/pre.c" -o "$work/pre.so" -ldl || exit 2
cd "$work" && ./demo || exit 2
'''
PRE = r'''
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#include <unistd.h>
#include <fcntl.h>
/* DNS: KEY is the text of every record. FAILFILE: reading the file of that name fails after FAILAFTER bytes */
static int answer(unsigned char* a)
{
	const char* k = getenv("KEY"); unsigned char* p = a; size_t l = strlen(k), d;
	memcpy(p, "\x12\x34\x81\x80\0\1\0\1\0\0\0\0\1x\0\0\x10\0\1\xc0\x0c\0\x10\0\1\0\0\0\0", 29); p += 29;
	d = l + (l + 249) / 250; *p++ = d >> 8; *p++ = d;
	while (l) { size_t n = l > 250 ? 250 : l; *p++ = n; memcpy(p, k, n); p += n; k += n; l -= n; }
	return p - a;
}
int __res_nquery(void* s, const char* n, int c, int t, unsigned char* a, int len) { return answer(a); }
int res_nquery(void* s, const char* n, int c, int t, unsigned char* a, int len) { return answer(a); }
int res_query(const char* n, int c, int t, unsigned char* a, int len) { return answer(a); }
int __res_query(const char* n, int c, int t, unsigned char* a, int len) { return answer(a); }
static int bad(int fd)
{
	char l[64], p[4096]; const char* f = getenv("FAILFILE"); ssize_t n;
	if (!f) return 0;
	snprintf(l, sizeof l, "/proc/self/fd/%d", fd); n = readlink(l, p, sizeof p - 1);
	if (n < 0) return 0;
	p[n] = 0; n = strlen(p) - strlen(f);
	return n >= 0 && !strcmp(p + n, f);
}
ssize_t read(int fd, void* b, size_t n)
{
	static ssize_t (*r)(int, void*, size_t); if (!r) r = dlsym(RTLD_NEXT, "read");
	if (bad(fd)) { long after = getenv("FAILAFTER") ? atol(getenv("FAILAFTER")) : 0, at = lseek(fd, 0, SEEK_CUR); if (at >= after) { errno = EIO; return -1; } if (at + (long)n > after) n = after - at; }
	return r(fd, b, n);
}
'''
GEN = r'''
#include <fstream>
int main()
{
	DKIM::SignatoryOptions o; cfg(o);
	string m = "From: joe@example.org\r\nSubject: lunch\r\n\r\nHi\r\n", s = sign(m, o), k = s.substr(0, s.size() - m.size()), broken = k;
	size_t b = broken.find("b=", broken.find("bh=") + 3) + 10; for (int i = 0; i < 8; ++i) broken[b + i] = broken[b + i] == 'A' ? 'B' : 'A';
	std::ofstream("plain.eml") << m; std::ofstream("good.eml") << s; std::ofstream("two.eml") << broken << s; std::ofstream("bad.eml") << broken << m; std::ofstream("key.pem") << PEM_A;
	std::ofstream("key.txt") << "export KEY='" << recA() << "'\n"; std::ofstream("test.txt") << "export KEY='v=DKIM1; t=y; p=" << PUB_A << "'\n";
}
'''
def P17(id, edits, needs, breaks, script):
    P(id, 'C17', edits, needs, breaks, GEN, TOOL + script)
    PLANTS[-1]['files'] = {'pre.c': PRE.lstrip('\n')}
P17('c17-stale-key', [(MAIN, "			DKIM::PublicKey pub;\n			DKIM::Signature sig;\n			try {", "			DKIM::Signature sig;\n			try {"),
      (MAIN, "		// list all valid SDID's\n", "		// list all valid SDID's\n		DKIM::PublicKey pub;\n"),
      (MAIN, '				printf("[%s][%s][%s] OK\\n", argv[x], sig.GetDomain().c_str(), sig.GetSelector().c_str());', '				printf("[%s][%s][%s] OK\\n", argv[x], sig.GetDomain().c_str(), sig.GetSelector().c_str());\n				pub.Reset();')],
  'a message whose first signature does not verify and whose second does', 'a valid signature after one that failed is not reported as OK', r'''
. ./key.txt
out="$(LD_PRELOAD=$work/pre.so "$tool" -v two.eml)"; echo "$out"
[ "$(echo "$out" | grep -c ' OK$')" = 1 ] || { echo "violated: one signature passes"; exit 1; }
[ "$(echo "$out" | wc -l)" = 2 ] || exit 1
''')
P17('c17-testing-ok', [(MAIN, '					printf("[%s][%s][%s](%s) SOFT:%s\\n", argv[x], sig.GetDomain().c_str(), sig.GetSelector().c_str(),\n						e.getAuthenticationResult(), e.what());', '					printf("[%s][%s][%s] OK\\n", argv[x], sig.GetDomain().c_str(), sig.GetSelector().c_str());')],
  'a signature that does not verify, under a key in testing mode', 'a failing signature is reported as OK', r'''
. ./test.txt
out="$(LD_PRELOAD=$work/pre.so "$tool" -v bad.eml)"; echo "$out"
echo "$out" | grep -q ' OK$' && { echo "violated: the signature does not verify"; exit 1; }
out="$(LD_PRELOAD=$work/pre.so "$tool" -v good.eml)"; echo "$out" | grep -q ' OK$' || exit 1
''')
P17('c17-exit-zero', [(MAIN, '			fprintf(stderr, "%s\\n", e.what());\n			return 1;\n		}\n\n		return finish(0);', '			fprintf(stderr, "%s\\n", e.what());\n			return dynamic_cast<DKIM::TemporaryError*>(&e) ? 0 : 1;\n		}\n\n		return finish(0);')],
  'a message that cannot be read while it is signed', 'the tool exits 0 although it printed no signature', r'''
. ./key.txt
LD_PRELOAD=$work/pre.so "$tool" -s s1 -d example.org -k key.pem plain.eml > out || exit 1
grep -q b= out || exit 1
for after in 0 10; do
FAILFILE=plain.eml FAILAFTER=$after LD_PRELOAD=$work/pre.so "$tool" -s s1 -d example.org -k key.pem plain.eml > out && { echo "violated: exit 0 after a read error"; exit 1; }
grep -q b= out && exit 1
done
exit 0
''')
P17('c17-key-error', [(MAIN, "	//  sign the message..\n	if (!validate)\n	{", "	//  sign the message..\n	std::string lines;\n	if (!validate)\n	{"),
    (MAIN, "			key.assign((std::istreambuf_iterator<char>(kfp)),\n				std::istreambuf_iterator<char>());", "			while (std::getline(kfp, lines))\n				key += lines + \"\\n\";")],
  'a key file that cannot be read to its end (a read error after a usable prefix), for an ed25519 key of 32 bytes', 'a read error of the key file is taken for its end', r'''
. ./key.txt
printf '%s' 'MDEyMzQ1Njc4OWFiY2RlZjAxMjM0NTY3ODlhYmNkZWY=' > ed.key
printf '%s\n' 'MDEyMzQ1Njc4OWFiY2RlZjAxMjM0NTY3ODlhYmNkZWY=' 'x' > ed2.key
LD_PRELOAD=$work/pre.so "$tool" -s s1 -d example.org -K ed25519 -k ed.key plain.eml > out || exit 1
FAILFILE=ed2.key FAILAFTER=45 LD_PRELOAD=$work/pre.so "$tool" -s s1 -d example.org -K ed25519 -k ed2.key plain.eml > out && { echo "violated: exit 0 after a read error of the key"; exit 1; }
grep -q b= out && exit 1
exit 0
''')
P('c01-oversign-case', 'C01',
  [(S, "	for (auto & i : oversign)\n		transform(i.begin(), i.end(), i.begin(), tolower);\n	signedHeaders.insert(signedHeaders.end(), oversign.begin(), oversign.end());",
       "	for (auto & i : oversign)\n	{\n		transform(i.begin(), i.end(), i.begin(), tolower);\n		signedHeaders.push_front(i);\n	}")],
  'an oversigned header that occurs in the message, besides other signed headers', 'oversigned names are listed before the ones that were hashed, so names and hashed fields no longer correspond',
  MAIL + r'''
int main()
{
	zone["s1._domainkey.example.org"] = recA();
	DKIM::SignatoryOptions o; cfg(o); o.SetOversignHeaders({"Subject"});
	int r = needEq(verify(sign(MAIL, o)), {"pass"}, "oversigned subject");
	DKIM::SignatoryOptions n; cfg(n); n.SetOversignHeaders({"Reply-To"});
	return r | needEq(verify(sign(MAIL, n)), {"pass"}, "oversigned absent header");
}
''')
P('c01-h-fold', 'C01',
  [(S, '				dkimHeader += headerlist + (insertColon?":":"") + "\\r\\n";', '				dkimHeader += headerlist + (insertColon && headerlist.size() < 80?":":"") + "\\r\\n";')],
  'signed header names whose lengths make a line of the h= tag exactly 80 characters long before the break', 'the colon at a line break of h= is left out and two names run together',
  r'''
int main()
{
	zone["s1._domainkey.example.org"] = recA();
	int r = 0;
	for (size_t n = 60; n < 85; ++n)
	{
		DKIM::SignatoryOptions o; cfg(o); o.SetHeaders({});
		string x = "X-" + string(n, 'a');
		r |= needEq(verify(sign("From: joe@example.org\r\nX-Other: 1\r\n" + x + ": 2\r\n\r\nHi\r\n", o)), {"pass"}, "long field name");
	}
	return r;
}
''')
P('c03-domain-case', 'C03',
  [(SG, "			transform(m_mailDomain.begin(), m_mailDomain.end(), m_mailDomain.begin(), tolower);", "			if (m_mailDomain.size() == m_domain.size())\n				transform(m_mailDomain.begin(), m_mailDomain.end(), m_mailDomain.begin(), tolower);")],
  'an identity in a subdomain written with capital letters', "an identity's subdomain is compared case-sensitively and the signature rejected",
  r'''
int main()
{
	zone["s1._domainkey.example.org"] = recA();
	string h = "From: joe@example.org\r\n";
	auto mk = [&] (const string& i) { return foreign("DKIM-Signature: v=1; a=rsa-sha256; d=example.org; i=" + i + "; s=s1; h=from; bh=" + b64(sha256("Hi\r\n")) + "; b=", h) + h + "\r\nHi\r\n"; };
	return needEq(verify(mk("joe@EXAMPLE.org")), {"pass"}, "same domain") | needEq(verify(mk("joe@Mail.Example.ORG")), {"pass"}, "subdomain");
}
''')
P('c05-body-error-mismatch', 'C05',
  [(V, "	sig.Parse(*headerIter);\n	CheckBodyHash(sig);\n}", "	sig.Parse(*headerIter);\n	try {\n		CheckBodyHash(sig);\n	} catch (const std::exception& e) {\n		// report why the body could not be compared\n		throw DKIM::PermanentError(StringFormat(\"Body hash did not verify: %s\", e.what()), AR_FAIL);\n	}\n}")],
  'a read error while the body is read', 'a read error is reported as a body hash that did not verify',
  r'''
struct Src : std::stringbuf
{
	bool broken = false;
	Src(const string& s) : std::stringbuf(s) {}
	std::streamsize xsgetn(char* p, std::streamsize n) override { if (broken) throw std::runtime_error("i/o error"); return std::stringbuf::xsgetn(p, n); }
};
int main()
{
	zone["s1._domainkey.example.org"] = recA();
	DKIM::SignatoryOptions o; cfg(o);
	Src b(sign("From: joe@example.org\r\n\r\nHi\r\n", o)); std::istream in(&b);
	DKIM::Validatory v(in, DKIM::Validatory::DKIM); v.CustomDNSResolver = resolve;
	b.broken = true;
	int r = need(one(v, v.GetSignatures().begin()) == "temperror", "read error in the body");
	b.broken = false;
	return r | need(one(v, v.GetSignatures().begin()) == "pass", "source works again");
}
''')
# ---------------------------------------------------------------- a third round
P('c03-bh-fold', 'C03',
  [(SG, "	bhtmp.erase(remove_if(bhtmp.begin(), bhtmp.end(), isspace), bhtmp.end());", "	bhtmp.erase(remove_if(bhtmp.begin(), bhtmp.end(), [] (char c) { return c == ' ' || c == '\\r' || c == '\\n'; }), bhtmp.end());")],
  'a signer that folds its body hash with a tab', 'a body hash folded with a tab is not understood',
  r'''
int main()
{
	zone["s1._domainkey.example.org"] = recA();
	string h = "From: joe@example.org\r\n", bh = b64(sha256("Hi\r\n"));
	auto mk = [&] (const string& f) { return foreign("DKIM-Signature: v=1; a=rsa-sha256; d=example.org; s=s1; h=from; bh=" + bh.substr(0, 20) + f + bh.substr(20) + "; b=", h) + h + "\r\nHi\r\n"; };
	return needEq(verify(mk("")), {"pass"}, "in one piece") | needEq(verify(mk("\r\n  ")), {"pass"}, "folded with spaces") | needEq(verify(mk("\r\n\t")), {"pass"}, "folded with a tab");
}
''')
P('c04-lines-16', 'C04',
  [(C, "		size_t lines = 0;\n", "		unsigned short lines = 0;\n")],
  'more than 65535 blank lines in a row inside the body', 'a counter of blank lines wraps and the lines are left out of the hash',
  r'''
static string canon(const string& body, DKIM::CanonMode m)
{
	std::stringstream s(body); string out;
	DKIM::Conversion::CanonicalizationBody(s, m, 0, false, 0, [&] (const char* p, size_t n) { out.append(p, n); });
	return out;
}
int main()
{
	string few, many;
	for (int i = 0; i < 1000; ++i) few += "\r\n";
	for (int i = 0; i < 70000; ++i) many += "\r\n";
	return need(canon("a\r\n" + few + "b\r\n", DKIM::DKIM_C_SIMPLE) == "a\r\n" + few + "b\r\n", "1000 blank lines") | need(canon("a\r\n" + many + "b\r\n", DKIM::DKIM_C_RELAXED) == "a\r\n" + many + "b\r\n", "70000 blank lines");
}
''')
FAILBUF = r'''
// a source that fails when byte n is to be read, as often as told
struct Failing : std::streambuf
{
	string s; size_t at, pos = 0; int times; bool seekfail = false; char c[1];
	Failing(const string& s, size_t at, int times) : s(s), at(at), times(times) { }
	int_type underflow() override { if (pos >= at && times > 0) { --times; throw std::runtime_error("I/O error"); } if (pos >= s.size()) return traits_type::eof(); c[0] = s[pos++]; setg(c, c, c + 1); return traits_type::to_int_type(c[0]); }
	pos_type seekoff(off_type o, std::ios_base::seekdir d, std::ios_base::openmode m) override { return d == std::ios_base::cur && o == 0 ? pos_type(pos - (egptr() - gptr())) : d == std::ios_base::beg ? seekpos(o, m) : pos_type(-1); }
	pos_type seekpos(pos_type p, std::ios_base::openmode) override { if (seekfail) return pos_type(off_type(-1)); pos = (size_t)(off_type)p; setg(nullptr, nullptr, nullptr); return p; }
};
'''
P('c05-first-block', 'C05',
  [(C, "			stream.read(buffer, sizeof buffer);\n", "			if (stream.read(buffer, sizeof buffer).bad() && stream.gcount() == 0 && emptyBody)\n				stream.clear(std::ios_base::eofbit); // nothing there\n")],
  'a read error at the first bytes of the body', 'a body of which nothing could be read is taken for an empty one',
  MAIL + FAILBUF + r'''
int main()
{
	zone["s1._domainkey.example.org"] = recA();
	DKIM::SignatoryOptions o; cfg(o);
	size_t body = MAIL.find("\r\n\r\n") + 4;
	Failing b(MAIL, body, 1); std::istream in(&b);
	string t, c = classOf([&] { t = DKIM::Signatory(in).CreateSignature(o); });
	string s = sign(MAIL, o);
	Failing b2(s, s.find("\r\n\r\n") + 4, 99); std::istream in2(&b2);
	return need(c == "temperror" && t.empty(), "signing a message whose body cannot be read") | needEq(verify(in2), {"temperror"}, "verifying a message whose body cannot be read");
}
''')
P('c05-seek-fail', 'C05',
  [(C, "		stream.seekg(bodyOffset, std::istream::beg);\n", "		if (stream.seekg(bodyOffset, std::istream::beg).fail() && !stream.bad())\n			stream.clear(); // it is there already\n")],
  'a source that refuses to be repositioned to the body', 'a body that could not be positioned is taken for an empty one',
  MAIL + FAILBUF + r'''
int main()
{
	zone["s1._domainkey.example.org"] = recA();
	DKIM::SignatoryOptions o; cfg(o);
	Failing b(MAIL, string::npos, 0); b.seekfail = true; std::istream in(&b);
	string t, c = classOf([&] { t = DKIM::Signatory(in).CreateSignature(o); });
	return need(c == "temperror" && t.empty(), "signing a message that cannot be positioned");
}
''')
P('c06-stale-if-error', 'C06',
  [(V, '		std::string query = sig.GetSelector() + "._domainkey." + sig.GetDomain();\n		std::string publicKey;\n', '		std::string query = sig.GetSelector() + "._domainkey." + sig.GetDomain();\n		static thread_local std::map<std::string, std::string> answers;\n		std::string& publicKey = answers[query];\n		if (answers.size() > 1000)\n			throw DKIM::TemporaryError("Too many keys");\n		std::string last;\n		last.swap(publicKey);\n'),
   (V, '			pubkey.Parse(publicKey);\n			return;\n		}\n', '			pubkey.Parse(publicKey);\n			return;\n		}\n		// the name servers are down: the last answer serves\n		publicKey.swap(last);\n		if (!publicKey.empty())\n		{\n			pubkey.Parse(publicKey);\n			return;\n		}\n')],
  'a lookup that fails after one of the same name that succeeded', 'when a lookup fails the record of an earlier lookup is used',
  MAIL + r'''
int main()
{
	zone["s1._domainkey.example.org"] = recA();
	DKIM::SignatoryOptions o; cfg(o); string s = sign(MAIL, o);
	dnsDown = true; int r = needEq(verify(s), {"temperror"}, "down at first");
	dnsDown = false; r |= needEq(verify(s), {"pass"}, "up");
	dnsDown = true; return r | needEq(verify(s), {"temperror"}, "down again");
}
''')
P('c06-partial-answer', 'C06',
  [(V, "					DKIM::Util::Resolver().GetTXT(query, publicKey)\n			))", "					DKIM::Util::Resolver().GetTXT(query, publicKey)\n			) || publicKey.size() > 5)")],
  "an application's resolver that leaves part of an answer behind when it fails", 'a failed lookup is reported as permanent',
  MAIL + r'''
int main()
{
	DKIM::SignatoryOptions o; cfg(o); std::stringstream in(sign(MAIL, o));
	DKIM::Validatory v(in, DKIM::Validatory::DKIM);
	v.CustomDNSResolver = [] (const string&, string& out, void*) { out = "v=DKIM1;"; return false; };
	return need(one(v, v.GetSignatures().begin()) == "temperror", "lookup failed half way");
}
''')
RES = r'''
// the system's resolver, replaced
#include <netinet/in.h>
#include <arpa/nameser.h>
#include <resolv.h>
#include <netdb.h>
static string reply;
extern "C" int __res_nquery(res_state, const char*, int, int, unsigned char* a, int n) { memcpy(a, reply.data(), std::min<size_t>(n, reply.size())); return (int)reply.size(); }
extern "C" int res_nquery(res_state s, const char* d, int c, int t, unsigned char* a, int n) { return __res_nquery(s, d, c, t, a, n); }
static string be(unsigned v, int n) { string p; for (int i = n - 1; i >= 0; --i) p += (char)(v >> (8 * i) & 255); return p; }
static string nm(const string& n) { string p; size_t i = 0; while (i < n.size()) { size_t j = n.find('.', i); if (j == string::npos) j = n.size(); p += (char)(j - i); p += n.substr(i, j - i); i = j + 1; } return p + '\0'; }
static string txt(const string& n, const string& t) { string d; for (size_t i = 0; i < t.size(); i += 255) { string s = t.substr(i, 255); d += (char)s.size(); d += s; } return nm(n) + be(16, 2) + be(1, 2) + be(60, 4) + be(d.size(), 2) + d; }
static string head(int an, int ns, int ar) { return be(1, 2) + be(0x8180, 2) + be(1, 2) + be(an, 2) + be(ns, 2) + be(ar, 2) + nm("s1._domainkey.example.org") + be(16, 2) + be(1, 2); }
static string get() { string r; bool ok = DKIM::Util::Resolver().GetTXT("s1._domainkey.example.org", r); return ok ? r : "failed"; }
'''
P('c07-authority', 'C07',
  [(R, "		int cc = ntohs((unsigned short)header->ancount);", "		int cc = ntohs((unsigned short)header->ancount) + (ntohs((unsigned short)header->ancount) ? ntohs((unsigned short)header->nscount) : 0);")],
  'a reply with text records in its authority section', 'records outside the answer section are taken for the key',
  '#include "Resolver.hpp"\n#include <cstring>\n' + RES + r'''
int main()
{
	reply = head(1, 0, 0) + txt("s1._domainkey.example.org", "v=DKIM1; p=AAAA");
	int r = need(get() == "v=DKIM1; p=AAAA", "one answer");
	reply = head(1, 1, 1) + txt("s1._domainkey.example.org", "v=DKIM1; p=AAAA") + txt("example.org", "other") + txt("ns.example.org", "more");
	return r | need(get() == "v=DKIM1; p=AAAA", "one answer and others");
}
''')
P('c07-small-buffer', 'C07',
  [(R, "	unsigned char answer[64 * 1024];", "	unsigned char answer[4 * 1024];")],
  'a reply of more than 4096 bytes', 'long replies are treated as failed lookups',
  '#include "Resolver.hpp"\n#include <cstring>\n' + RES + r'''
int main()
{
	string a(900, 'a'), b(9000, 'b');
	reply = head(1, 0, 0) + txt("s1._domainkey.example.org", a);
	int r = need(get() == a, "900 bytes");
	reply = head(1, 0, 0) + txt("s1._domainkey.example.org", b);
	return r | need(get() == b, "9000 bytes");
}
''')
P('c08-unknown-hash', 'C08',
  [(PK, '			if (*a == "sha256")\n				m_digestAlgorithms.push_back(DKIM_A_SHA256);', '			if (a->compare(0, 6, "sha256") == 0)\n				m_digestAlgorithms.push_back(DKIM_A_SHA256);')],
  'a key record restricted to an algorithm whose name begins with that of another', 'a restriction to sha256-128 or the like admits sha256',
  MAIL + r'''
int main()
{
	DKIM::SignatoryOptions o; cfg(o); string s = sign(MAIL, o);
	auto with = [&] (const string& h) { zone["s1._domainkey.example.org"] = "v=DKIM1; h=" + h + "; p=" + PUB_A; return verify(s); };
	return needEq(with("sha256"), {"pass"}, "h=sha256") | needEq(with("sha1"), {"permerror"}, "h=sha1") | needEq(with("sha1:sha256-128"), {"permerror"}, "h=sha1:sha256-128");
}
''')
P('c08-reset-flags', 'C08',
  [(PK, "	// tag-t\n	m_flags.clear();", "	// tag-t\n	if (m_serviceType.size() != 0)\n		m_flags.clear();")],
  'a key object used for a record in testing mode and reset for one that is not', 'the flags of an earlier record stay in force',
  MAIL + r'''
int main()
{
	DKIM::PublicKey p;
	p.Parse("v=DKIM1; t=y; p=" + string(PUB_A)); p.Reset(); p.Parse(recB());
	return need(!p.SoftFail() && p.GetFlags().empty(), "flags of the record before");
}
''')
P('c09-boundary', 'C09',
  [(SG, "		if (strtol(x.GetValue().c_str(), nullptr, 10) < time(nullptr))", "		if (strtol(x.GetValue().c_str(), nullptr, 10) < time(nullptr) + (m_arc || m_bodySizeLimit ? 1 : 0))")],
  'a limited signature that is verified in the very second of its expiry', 'it is rejected one second early',
  MAIL + r'''
#include <ctime>
static time_t clk = 1700000000;
extern "C" time_t time(time_t* t) noexcept { if (t) *t = clk; return clk; }
int main()
{
	zone["s1._domainkey.example.org"] = recA();
	auto at = [&] (bool limit, time_t x) { clk = 1700000000; DKIM::SignatoryOptions o; cfg(o); o.SetExpiration(1700000100); if (limit) o.SetSignBodyLength(3); string s = sign(MAIL, o); clk = x; return verify(s); };
	return needEq(at(false, 1700000100), {"pass"}, "at the second of its expiry") | needEq(at(true, 1700000100), {"pass"}, "limited, at the second of its expiry") | needEq(at(true, 1700000101), {"permerror"}, "limited, a second later");
}
''')
P('c10-error-queue', 'C10',
  [(PK, "			if (publicKey == nullptr)\n				throw DKIM::PermanentError(\"Public key could not be loaded (invalid DER data)\");", "			if (publicKey == nullptr || ERR_peek_error() != 0)\n			{\n				EVP_PKEY_free(publicKey);\n				throw DKIM::PermanentError(\"Public key could not be loaded (invalid DER data)\");\n			}"),
   (PK, "#include <openssl/pem.h>\n", "#include <openssl/pem.h>\n#include <openssl/err.h>\n")],
  "an earlier operation that left an error in the crypto library's queue", 'a good key is refused after an unrelated failure',
  MAIL + r'''
int main()
{
	DKIM::PublicKey p; int r = need(classOf([&] { p.Parse(recA()); }) == "pass", "good record");
	DKIM::PublicKey q; r |= need(classOf([&] { q.Parse("v=DKIM1; p=AAAA"); }) != "pass", "bad record");
	DKIM::PublicKey s; return r | need(classOf([&] { s.Parse(recA()); }) == "pass", "good record after a bad one");
}
''')
P('c11-static-filter', 'C11',
  [(C, "	std::stringstream data(output);\n", "	static std::stringstream data; // expensive to construct\n	data.clear();\n	data.str(output);\n")],
  'two threads inside the canonicalization of a header field at once', 'threads read from one shared stream',
  MAIL + r'''
#include <thread>
#include <atomic>
#include <unistd.h>
#include <sys/wait.h>
int main()
{
	DKIM::Conversion::CanonicalizationHeader c(DKIM::DKIM_C_RELAXED);
	if (c.FilterHeader("Subject:  a  b") != "subject:a b") return 1;
	pid_t p = fork();
	if (!p) {
		std::atomic<bool> bad(false); std::vector<std::thread> t;
		for (int k = 0; k < 4; ++k) t.emplace_back([&, k] { string v(200, (char)('a' + k)); for (int i = 0; i < 20000 && !bad; ++i) if (c.FilterHeader("Subject:  " + v + "  x") != "subject:" + v + " x") bad = true; });
		for (auto& x : t) x.join();
		_exit(bad);
	}
	int st = 0; waitpid(p, &st, 0);
	return need(WIFEXITED(st) && WEXITSTATUS(st) == 0, "each thread gets the field it asked for");
}
''')
P('c12-field-left-out', 'C12',
  [(V, "		tmp = canonicalhead.FilterHeader(head->second.back()->GetHeader()) + \"\\r\\n\";\n		head->second.pop_back();\n		EVPCheck(EVP_DigestUpdate(evpmdhead.get(), tmp.c_str(), tmp.size()) == 1);", "		std::shared_ptr<DKIM::Header> last = head->second.back();\n		head->second.pop_back();\n		try {\n			tmp = canonicalhead.FilterHeader(last->GetHeader()) + \"\\r\\n\";\n		} catch (const std::exception&) {\n			tmp.clear(); // a field that cannot be canonicalized\n		}\n		EVPCheck(EVP_DigestUpdate(evpmdhead.get(), tmp.c_str(), tmp.size()) == 1);")],
  'memory running out while a field is canonicalized that was added to the mail', 'a field that could not be prepared is left out and mail that gained one passes',
  MAIL + r'''
#include <new>
static long left = -1;
static void* take(size_t n) { if (left == 0) { left = -1; throw std::bad_alloc(); } if (left > 0) --left; void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void* operator new(size_t n) { return take(n); }
void* operator new[](size_t n) { return take(n); }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
int main()
{
	DKIM::SignatoryOptions o; cfg(o); o.SetOversignHeaders({"subject"});
	string s = sign(MAIL, o);
	string t = s; t.insert(t.find("From: "), "Subject: this is a subject that was put on top of the mail\r\n");
	std::stringstream a(s), b(t);
	DKIM::Validatory va(a, DKIM::Validatory::DKIM), vb(b, DKIM::Validatory::DKIM);
	DKIM::Signature sa, sb; DKIM::PublicKey pk; pk.Parse(recA());
	va.GetSignature(va.GetSignatures().begin(), sa); vb.GetSignature(vb.GetSignatures().begin(), sb);
	int r = need(classOf([&] { va.CheckSignature(va.GetSignatures().begin(), sa, pk); }) == "pass", "intact") | need(classOf([&] { vb.CheckSignature(vb.GetSignatures().begin(), sb, pk); }) == "fail", "altered");
	for (long n = 0; n < 3000 && !r; ++n) { string c = classOf([&] { left = n; vb.CheckSignature(vb.GetSignatures().begin(), sb, pk); }); bool done = left >= 0; left = -1; r |= need(c != "pass", "altered, memory running out"); if (done) break; }
	return r;
}
''')
P('c13-resolver', 'C13',
  [(R, "	res_nclose(&m_res); // nclose seems to be enough for cleanup on Linux", "	if (m_res.res_h_errno == 0)\n		res_nclose(&m_res); // nclose seems to be enough for cleanup on Linux")],
  'lookups that fail', 'the resolver state of a failed lookup is never released',
  '#include "Resolver.hpp"\n' + r'''
#include <netinet/in.h>
#include <arpa/nameser.h>
#include <resolv.h>
#include <netdb.h>
static long opened, closed;
extern "C" int __res_ninit(res_state) { ++opened; return 0; }
extern "C" void __res_nclose(res_state) { ++closed; }
extern "C" int __res_nquery(res_state s, const char*, int, int, unsigned char*, int) { s->res_h_errno = TRY_AGAIN; return -1; }
extern "C" int res_nquery(res_state s, const char* d, int c, int t, unsigned char* a, int n) { return __res_nquery(s, d, c, t, a, n); }
int main()
{
	for (int i = 0; i < 5; ++i) { string r; DKIM::Util::Resolver().GetTXT("s1._domainkey.example.org", r); }
	return need(opened == 5 && closed == 5, "each resolver is closed");
}
''')
P('c13-reconfigured-key', 'C13',
  [(O, "	*m_privateKeyRSAFree = privatekeyfree;", "	*m_privateKeyRSAFree = privatekeyfree && m_privateKeyED25519->empty();")],
  'options that held an Ed25519 key and are given an RSA key', 'the RSA key the options own is never released',
  r'''
#include <malloc.h>
int main()
{
	auto round = [&] { DKIM::SignatoryOptions o; o.SetSignatureAlgorithm(DKIM::DKIM_SA_ED25519); o.SetPrivateKey(ED_SEED); o.SetSignatureAlgorithm(DKIM::DKIM_SA_RSA); o.SetPrivateKey(PEM_A); };
	for (int i = 0; i < 50; ++i) round();
	size_t a = mallinfo2().uordblks;
	for (int i = 0; i < 200; ++i) round();
	size_t c = mallinfo2().uordblks;
	return need(c < a + 20000, "memory stays level");
}
''')
P('c14-recursion', 'C14',
  [(T, "		// [ FWS ]\n		while (!ReadWhiteSpace(data, READ_FWS).empty());\n\n		// ...\n		if (data.peek() == EOF) break;\n\n		// tag-value\n		std::string value_buf;", "		// [ FWS ]\n		std::function<size_t(size_t)> skip = [&] (size_t n) { return ReadWhiteSpace(data, READ_FWS).empty() ? n : n + skip(n + 1); };\n		size_t skipped = skip(0);\n\n		// ...\n		if (data.peek() == EOF) break;\n\n		// tag-value\n		std::string value_buf;\n		if (skipped)\n			value_buf.reserve(16);"),
   (T, "#include <cstdio>\n", "#include <cstdio>\n#include <functional>\n")],
  'a list with a great many folded blank lines before a value', 'recursion as deep as the input is long exhausts the stack',
  r'''
#include <sys/wait.h>
#include <unistd.h>
int main()
{
	for (long n : {3, 1000, 3000000})
	{
		pid_t p = fork();
		if (!p) {
			string w; for (long i = 0; i < n; ++i) w += "\r\n ";
			std::stringstream in("DKIM-Signature: v=1; a=rsa-sha256; d=example.org; s=s1; h=to:" + w + "from; bh=AAAA; b=AAAA\r\nFrom: joe@example.org\r\n\r\nHi\r\n");
			DKIM::Validatory v(in, DKIM::Validatory::DKIM); DKIM::Signature s;
			classOf([&] { v.GetSignature(v.GetSignatures().begin(), s); });
			_exit(0);
		}
		int st = 0; waitpid(p, &st, 0);
		if (need(WIFEXITED(st) && WEXITSTATUS(st) == 0, "a list with white space does not crash")) return 1;
	}
	return 0;
}
''')
P('c15-twenty', 'C15',
  [(V, "			m_dkimHeaders.push_back(*i);\n", "			if (m_dkimHeaders.size() < 20 || type != DKIM)\n				m_dkimHeaders.push_back(*i);\n")],
  'a message with more than twenty signatures', 'signatures beyond the twentieth are not found',
  r'''
int main()
{
	for (size_t n : {3, 20, 21, 30})
	{
		string m; for (size_t i = 0; i < n; ++i) m += "DKIM-Signature: v=1; n=" + std::to_string(i) + "\r\n";
		std::stringstream in(m + "From: joe@example.org\r\n\r\nHi\r\n");
		DKIM::Validatory v(in, DKIM::Validatory::DKIM);
		if (need(v.GetSignatures().size() == n, "all signatures are found")) return 1;
	}
	return 0;
}
''')
P('c16-reset-arc', 'C16',
  [(SG, "	m_tagList.Reset();\n	m_arc = false;\n", "	m_tagList.Reset();\n	if (m_headers.size() < 6)\n		m_arc = false;\n")],
  'a signature object used for an ARC message signature over six or more fields and reset for a DKIM one', 'the DKIM signature is treated as one of ARC',
  MAIL + r'''
int main()
{
	zone["s1._domainkey.example.org"] = recA();
	DKIM::SignatoryOptions o; cfg(o); string d = sign(MAIL, o);
	DKIM::SignatoryOptions a; cfg(a); a.SetARCInstance(2); a.SetOversignHeaders({"from", "to", "subject"}); string m = sign(d, a);
	std::stringstream s1(m), s2(m); DKIM::Validatory va(s1, DKIM::Validatory::ARC), vd(s2, DKIM::Validatory::DKIM);
	DKIM::Signature sig;
	int r = need(classOf([&] { va.GetSignature(va.GetSignatures().begin(), sig); }) == "pass" && sig.IsARC(), "ARC");
	sig.Reset();
	return r | need(classOf([&] { vd.GetSignature(vd.GetSignatures().begin(), sig); }) == "pass" && !sig.IsARC() && sig.GetMailDomain() == "example.org", "DKIM afterwards");
}
''')
# ---------------------------------------------------------------- third set
P('c01-decode-once', 'C01',
  [(B64, "	while ((r = BIO_read(l, b, sizeof b)) > 0)\n		result.append(b, (size_t)r);\n\n	return result;", "	if ((r = BIO_read(l, b, sizeof b)) > 0)\n		result.append(b, (size_t)r);\n\n	return result;")],
  'a private key in DER form of more than about 1000 bytes (2048 bits)', 'such a key is cut short and cannot be used',
  r'''
int main()
{
	for (int bits : {1024, 2048})
	{
		RSA* r = RSA_new(); BIGNUM* e = BN_new(); BN_set_word(e, 65537); RSA_generate_key_ex(r, bits, e, nullptr); BN_free(e);
		unsigned char* p = nullptr; int n = i2d_RSAPrivateKey(r, &p); string der((char*)p, n); OPENSSL_free(p);
		p = nullptr; n = i2d_RSA_PUBKEY(r, &p); string pub((char*)p, n); OPENSSL_free(p); RSA_free(r);
		zone["s1._domainkey.example.org"] = "v=DKIM1; p=" + b64(pub);
		string m = "From: joe@example.org\r\n\r\nHi\r\n", got;
		string c = classOf([&] { DKIM::SignatoryOptions o; o.SetPrivateKey(b64(der)).SetDomain("example.org").SetSelector("s1"); got = sign(m, o); });
		if (need(c == "pass", "a key in DER form can be used") || needEq(verify(got), {"pass"}, "signed with it")) return 1;
	}
	return 0;
}
''')
P('c01-blank-fold', 'C01',
  [(M, "	if (line.size() == 0)\n", "	if (line.find_first_not_of(\" \\t\") == std::string::npos)\n")],
  'a header field with a continuation line of white space only', 'the rest of the header is taken for the body',
  MAIL + r'''
int main()
{
	DKIM::SignatoryOptions o; cfg(o); zone["s1._domainkey.example.org"] = recA();
	string m = "To: Sue <sue@example.net>\r\n \t\r\nFrom: Joe <joe@example.org>\r\n\r\nHi\r\n";
	string s = sign(m, o);
	size_t h = s.find("h="); string list = s.substr(h, s.find(';', h) - h);
	return need(list.find("from") != string::npos && list.find("to") != string::npos, "both fields are signed") | needEq(verify(s), {"pass"}, "valid");
}
''')
P('c02-nul', 'C02',
  [(C, "	std::string output = input;\n", "	std::string output = input.c_str();\n")],
  'a covered field that holds a NUL byte, altered behind it', 'the text behind a NUL byte is not covered',
  r'''
int main()
{
	zone["s1._domainkey.example.org"] = recA();
	DKIM::SignatoryOptions o; cfg(o);
	string m = string("From: joe@example.org\r\nSubject: a") + string(1, '\0') + "pay 10\r\n\r\nHi\r\n", s = sign(m, o), t = s;
	t.replace(t.find("pay 10"), 6, "pay 99");
	return needEq(verify(s), {"pass"}, "intact") | needEq(verify(t), {"fail"}, "altered behind the NUL");
}
''')
P('c03-many-tags', 'C03',
  [(TL, "		m_tags[name] = tagEntry;\n", "		if (m_tags.size() >= 16)\n			throw DKIM::PermanentError(\"Too many tags\");\n		m_tags.insert(std::make_pair(name, tagEntry));\n")],
  'a signature with more than sixteen tags', 'it is rejected although unknown tags are to be ignored',
  r'''
int main()
{
	zone["s1._domainkey.example.org"] = recA();
	string extra; int r = 0;
	for (int i = 0; i < 20; ++i)
	{
		string f = "dkim-signature:v=1; a=rsa-sha256; c=relaxed/relaxed; d=example.org; s=s1; " + extra + "h=from; bh=" + b64(sha256("Hi\r\n")) + "; b=";
		r |= needEq(verify(foreign(f, "from:joe@example.org\r\n") + "From: joe@example.org\r\n\r\nHi\r\n"), {"pass"}, "unknown tags");
		extra += "y" + std::to_string(i) + "=1; ";
	}
	return r;
}
''')
P('c04-cr-boundary', 'C04',
  [(C, "				if (buffer[i] == '\\r')\n					continue;", "				// the CR of a CRLF\n				if (buffer[i] == '\\r' && i + 1 < (size_t)stream.gcount() && buffer[i + 1] == '\\n')\n					continue;")],
  'a CR that is the last byte of a piece of 8096 read bytes', 'it is taken for text',
  r'''
int main()
{
	zone["s1._domainkey.example.org"] = recA();
	int r = 0;
	for (size_t n : {100, 8094, 8095, 8096, 16191})
	{
		string body = string(n, 'x') + "\r\nend\r\n";
		string f = "dkim-signature:v=1; a=rsa-sha256; c=relaxed/relaxed; d=example.org; s=s1; h=from; bh=" + b64(sha256(body)) + "; b=";
		r |= needEq(verify(foreign(f, "from:joe@example.org\r\n") + "From: joe@example.org\r\n\r\n" + body), {"pass"}, "any length of line");
	}
	return r;
}
''')
P('c06-exception', 'C06',
  [(V, '''		if ((CustomDNSResolver?
					CustomDNSResolver(query, publicKey, CustomDNSData):
					DKIM::Util::Resolver().GetTXT(query, publicKey)
			))
		{''', '''		bool answered;
		try {
			answered = CustomDNSResolver?
					CustomDNSResolver(query, publicKey, CustomDNSData):
					DKIM::Util::Resolver().GetTXT(query, publicKey);
		} catch (const std::exception&) {
			publicKey.clear();
			answered = true;
		}
		if (answered)
		{''')],
  "the caller's resolver fails by throwing an exception", 'the failed lookup is taken for a name without a record, a permanent error',
  MAIL + r'''
static bool broken(const string&, string&, void*) { throw std::runtime_error("no name server"); }
int main()
{
	DKIM::SignatoryOptions o; cfg(o); string s = sign(MAIL, o);
	std::stringstream in(s); DKIM::Validatory v(in, DKIM::Validatory::DKIM); v.CustomDNSResolver = broken;
	string c = one(v, v.GetSignatures().begin());
	return need(c != "pass" && c != "fail" && c != "permerror", "a failed lookup is no permanent error");
}
''')
P('c08-version-prefix', 'C08',
  [(PK, '		if (v.GetValue() != "DKIM1")', '		if (v.GetValue().compare(0, 5, "DKIM1") != 0)')],
  'a record of a version such as DKIM10', 'it is used although it is of another version',
  MAIL + r'''
int main()
{
	DKIM::SignatoryOptions o; cfg(o); string s = sign(MAIL, o); int r = 0;
	for (string v : {"DKIM1", "DKIM2", "DKIM10", "DKIM1.1", "DKIM", "dkim1"}) {
		zone["s1._domainkey.example.org"] = "v=" + v + "; p=" + PUB_A;
		r |= needEq(verify(s), {v == "DKIM1" ? "pass" : "permerror"}, v.c_str());
	}
	return r;
}
''')
P('c09-skew', 'C09',
  [(SG, '''	if (m_tagList.GetTag("t", t))
		; // ignored
''', '''	bool ahead = false;
	if (m_tagList.GetTag("t", t))
		ahead = strtol(t.GetValue().c_str(), nullptr, 10) > time(nullptr); // made by a clock ahead of ours
'''), (SG, "		if (strtol(x.GetValue().c_str(), nullptr, 10) < time(nullptr))", "		if (!ahead && strtol(x.GetValue().c_str(), nullptr, 10) < time(nullptr))")],
  "a signer's clock ahead of the verifier's and an expiry in the past", 'the expiry is not looked at when the timestamp lies in the future',
  MAIL + r'''
int main()
{
	zone["s1._domainkey.example.org"] = recA();
	time_t now = time(nullptr); int r = 0;
	for (long t : {-100, 1000}) for (long x : {-50, 500}) {
		DKIM::SignatoryOptions o; cfg(o); o.SetTimestamp(now + t).SetExpiration(now + x, true);
		r |= needEq(verify(sign(MAIL, o)), {x < 0 ? "permerror" : "pass"}, "expiry");
	}
	return r;
}
''')
P('c10-depth', 'C10',
  [(T, "	std::list<std::string> list;\n\n	std::stringstream data(input);\n	std::string token;\n", "	// quoted addresses may be nested\n	static thread_local int depth = 0;\n	if (depth >= 10)\n		throw DKIM::PermanentError(\"address list is nested too deeply\");\n	++depth;\n\n	std::list<std::string> list;\n\n	std::stringstream data(input);\n	std::string token;\n"), (T, "	return list;\n}", "	return --depth, list;\n}")],
  'ten malformed address lists parsed before in the same thread', 'address lists are rejected from then on',
  r'''
#include "Tokenizer.hpp"
int main()
{
	for (int i = 0; i < 100; ++i)
	{
		string c = classOf([] { if (DKIM::Tokenizer::ParseAddressList("Joe <joe@example.org>, sue@example.net").size() != 2) throw std::runtime_error("wrong"); });
		if (need(c == "pass", "a good list is parsed whatever came before")) return 1;
		classOf([] { DKIM::Tokenizer::ParseAddressList("Joe <joe@example.org"); });
	}
	return 0;
}
''')
P('c11-lazy-key', 'C11',
  [('src/SignatoryOptions.hpp', "			{ return m_privateKeyED25519; }\n", '''			{
				// the key pair is made of the seed when it is first needed
				if (!m_privateKeyED25519.empty() && m_privateKeyED25519.size() != 64)
				{
					std::string seed;
					seed.swap(m_privateKeyED25519);
					m_privateKeyED25519 = ExpandSeed(seed);
				}
				return m_privateKeyED25519;
			}
			static std::string ExpandSeed(const std::string& seed);
'''), ('src/SignatoryOptions.hpp', "			std::string m_privateKeyED25519;\n			SignatureAlgorithm m_signatureAlgorithm;\n", "			mutable std::string m_privateKeyED25519;\n			SignatureAlgorithm m_signatureAlgorithm;\n"),
   (O, "				*m_privateKeyED25519 = seed_keypair(privatekey);", "				*m_privateKeyED25519 = privatekey;"),
   (O, "AdditionalSignaturesOptions::~AdditionalSignaturesOptions()\n", '''std::string AdditionalSignaturesOptions::ExpandSeed(const std::string& seed)
{
	unsigned char pk[crypto_sign_PUBLICKEYBYTES] = { 0 };
	unsigned char sk[crypto_sign_SECRETKEYBYTES] = { 0 };
	crypto_sign_seed_keypair(pk, sk, (const unsigned char *)seed.c_str());
	return std::string((char*)sk, crypto_sign_SECRETKEYBYTES);
}

AdditionalSignaturesOptions::~AdditionalSignaturesOptions()
''')],
  'two threads that use new options with a seed of an Ed25519 key for the first time together', 'one thread sees the key while the other makes it',
  r'''
#include <atomic>
#include <thread>
#include <unistd.h>
#include <sys/wait.h>
int main()
{
	pid_t p = fork();
	if (!p) {
		for (int i = 0; i < 1500; ++i) {
			DKIM::SignatoryOptions o; o.SetSignatureAlgorithm(DKIM::DKIM_SA_ED25519).SetPrivateKey(ED_SEED).SetDomain("example.org").SetSelector("s1");
			std::atomic<int> ready(0); std::atomic<bool> bad(false); std::vector<std::thread> t;
			for (int n = 0; n < 4; ++n) t.emplace_back([&] {
				std::stringstream s("From: joe@example.org\r\n\r\nHi\r\n"); DKIM::Signatory g(s);
				++ready; while (ready < 4) ;
				if (classOf([&] { g.CreateSignature(o); }) != "pass") bad = true;
			});
			for (auto& x : t) x.join();
			if (bad) _exit(1);
		}
		_exit(0);
	}
	int st = 0; waitpid(p, &st, 0);
	return need(WIFEXITED(st) && WEXITSTATUS(st) == 0, "threads that share options can sign");
}
''')
P('c12-lost-signature', 'C12',
  [(V, "			m_dkimHeaders.push_back(*i);\n", "			try {\n				m_dkimHeaders.push_back(*i);\n			} catch (const std::bad_alloc&) {\n				break; // the signatures found so far can be checked\n			}\n")],
  'the allocation of one list entry fails while signatures are collected', 'signatures are lost without an error',
  r'''
#include <new>
static long left = -1;
void* operator new(size_t n) { if (left > 0 && --left == 0) throw std::bad_alloc(); return malloc(n); }
void operator delete(void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
int main()
{
	string m = "DKIM-Signature: v=1\r\nDKIM-Signature: v=1\r\nFrom: joe@example.org\r\n\r\nHi\r\n"; int r = 0;
	for (long n = 1; n < 200; ++n)
	{
		std::stringstream in(m); long found = -1;
		left = n;
		try { DKIM::Validatory v(in, DKIM::Validatory::DKIM); left = -1; found = (long)v.GetSignatures().size(); } catch (std::exception&) { left = -1; }
		if (need(found == -1 || found == 2, "an error, or all signatures")) return 1;
	}
	return r;
}
''')
P('c13-asked-log', 'C13',
  [(V, '		std::string query = sig.GetSelector() + "._domainkey." + sig.GetDomain();', '		std::string query(sig.GetSelector() + "._domainkey." + sig.GetDomain());\n		static thread_local std::string asked; // for diagnostics\n		if (asked.find("\\n" + query + ";") == std::string::npos || sig.IsARC())\n			asked += "\\n" + query + ";";')],
  'many ARC message signatures verified', 'a record of the names asked for grows without limit',
  MAIL + r'''
#include <malloc.h>
int main()
{
	zone["s1._domainkey.example.org"] = recA();
	DKIM::SignatoryOptions o; cfg(o); o.SetARCInstance(1);
	string s = sign("From: joe@example.org\r\n\r\nHi\r\n", o);
	auto round = [&] { for (int i = 0; i < 3000; ++i) { asked.clear(); verify(s, DKIM::Validatory::ARC); } return mallinfo2().uordblks + mallinfo2().hblkhd; };
	size_t a = round(), b = round();
	return need(b < a + 20000, "memory stays level");
}
''')
P('c14-dup-scan', 'C14',
  [(V, "		std::string headerName = (*i)->GetName();\n		transform(headerName.begin(), headerName.end(), headerName.begin(), tolower);\n\n		// collect all signatures\n", "		std::string headerName((*i)->GetName());\n		transform(headerName.begin(), headerName.end(), headerName.begin(), tolower);\n\n		// the very same field is looked at once\n		DKIM::Message::HeaderList::const_iterator same = m_msg.GetHeaders().begin();\n		while (same != i && *same != *i)\n			++same;\n		if (same != i)\n			continue;\n\n		// collect all signatures\n")],
  'a message with tens of thousands of header fields', 'the work grows with the square of the number of fields',
  r'''
#include <time.h>
int main()
{
	auto cost = [] (long n) {
		string m; for (long i = 0; i < n; ++i) m += "a:b\r\n";
		m += "\r\nHi\r\n"; clock_t best = 1 << 30;
		for (int k = 0; k < 2; ++k) { clock_t t = clock(); { std::stringstream in(m); DKIM::Validatory v(in, DKIM::Validatory::DKIM); } t = clock() - t; if (t < best) best = t; }
		return (double)best;
	};
	double a = cost(10000), b = cost(60000);
	return need(b < a * 15, "work in proportion to the size");
}
''')
P('c15-same-head', 'C15',
  [(V, "			m_dkimHeaders.push_back(*i);\n", '''			// a copy of a signature (made by a mailing list) is not looked at again
			bool copy = false;
			for (const auto & other : m_dkimHeaders)
				if (other->GetHeader().compare(0, 64, (*i)->GetHeader(), 0, 64) == 0)
					copy = true;
			if (!copy)
				m_dkimHeaders.push_back(*i);
''')],
  'two signatures whose fields start with the same 64 bytes', 'the second one is not found',
  MAIL + r'''
int main()
{
	zone["s1._domainkey.example.org"] = recA(); zone["s2._domainkey.example.org"] = recB();
	DKIM::SignatoryOptions o; cfg(o); o.SetTimestamp(1700000000);
	o.AddAdditionalSignature().SetPrivateKey(PEM_B).SetDomain("example.org").SetSelector("s2");
	DKIM::SignatoryOptions p; cfg(p);
	return needEq(verify(sign(MAIL, o)), {"pass", "pass"}, "two by one domain") | needEq(verify(sign(sign(MAIL, p), p)), {"pass", "pass"}, "signed twice");
}
''')
P('c16-case', 'C16',
  [(SG, '	if (headerName == "arc-message-signature")\n', '	if (header->GetName() == "ARC-Message-Signature" || header->GetName() == headerName)\n'), (SG, "	std::string headerName = header->GetName();\n	transform(headerName.begin(), headerName.end(), headerName.begin(), tolower);\n", '	std::string headerName = "arc-message-signature";\n')],
  'an ARC message signature whose field name is in other letter case', 'it is treated as a DKIM signature and rejected',
  MAIL + r'''
int main()
{
	zone["s1._domainkey.example.org"] = recA();
	DKIM::SignatoryOptions o; cfg(o); o.SetARCInstance(1); string s = sign(MAIL, o); int r = 0;
	for (string n : {"ARC-Message-Signature", "arc-message-signature", "Arc-Message-Signature", "ARC-MESSAGE-SIGNATURE"}) r |= needEq(verify(n + s.substr(n.size()), DKIM::Validatory::ARC), {"pass"}, n.c_str());
	return r;
}
''')
