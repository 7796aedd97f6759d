#include "ref.hpp"
#include <cstring>
#include <openssl/evp.h>
#include <openssl/pem.h>
#include <openssl/x509.h>
#include <algorithm>

namespace ref {

static bool wsp(char c) { return c == ' ' || c == '\t'; }
static bool ws(char c) { return wsp(c) || c == '\r' || c == '\n'; }

string lower(string s) { for (auto& c : s) if (c >= 'A' && c <= 'Z') c += 32; return s; }

Msg parse(const string& s)
{
	Msg m;
	size_t p = 0;
	bool open = false;
	while (p < s.size()) {
		size_t e = s.find('\n', p);
		bool nl = e != string::npos;
		string line = s.substr(p, (nl ? e : s.size()) - p);
		p = nl ? e + 1 : s.size();
		if (!line.empty() && line.back() == '\r') line.pop_back();
		if (line.empty()) {
			if (nl) { m.hasBody = true; m.body = s.substr(p); }
			break;
		}
		if (!wsp(line[0]) || !open) { m.f.push_back(Field()); m.f.back().raw = line; open = true; }
		else m.f.back().raw += "\r\n" + line;
	}
	for (auto& f : m.f) {
		size_t c = f.raw.find(':');
		if (c == string::npos) continue;
		f.colon = true;
		f.voff = c + 1;
		string n = f.raw.substr(0, c);
		while (!n.empty() && wsp(n.back())) n.pop_back();
		size_t i = 0; while (i < n.size() && wsp(n[i])) ++i;
		f.name = lower(n.substr(i));
	}
	return m;
}

static string collapse(const string& in, bool unfold)
{
	string o; bool pend = false;
	for (size_t i = 0; i < in.size(); ++i) {
		if (unfold && in[i] == '\r' && i + 2 < in.size() + 0 && in[i + 1] == '\n' && wsp(in[i + 2])) { ++i; continue; }
		if (wsp(in[i])) { pend = true; continue; }
		if (pend) o += ' ';
		pend = false;
		o += in[i];
	}
	return o;
}

string canonHeader(const string& raw, bool relaxed)
{
	if (!relaxed) return raw;
	size_t c = raw.find(':');
	if (c == string::npos) return raw;
	string n = collapse(lower(raw.substr(0, c)), true);
	string v = collapse(raw.substr(c + 1), true);
	if (!v.empty() && v[0] == ' ') v.erase(0, 1);
	return n + ":" + v;
}

string canonBody(const string& body, bool relaxed)
{
	vector<string> lines(1);
	for (char c : body) {
		if (c == '\r') continue;
		if (c == '\n') lines.emplace_back();
		else lines.back() += c;
	}
	if (relaxed) for (auto& l : lines) l = collapse(l, false);
	while (!lines.empty() && lines.back().empty()) lines.pop_back();
	string o;
	for (auto& l : lines) o += l + "\r\n";
	if (o.empty() && !relaxed) o = "\r\n";
	return o;
}

bool bareCR(const string& s)
{
	for (size_t i = 0; i < s.size(); ++i) if (s[i] == '\r' && (i + 1 >= s.size() || s[i + 1] != '\n')) return true;
	return false;
}

static const char* A64 = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";

string b64e(const string& s)
{
	string o; size_t i = 0;
	for (; i + 2 < s.size(); i += 3) {
		unsigned v = (unsigned char)s[i] << 16 | (unsigned char)s[i + 1] << 8 | (unsigned char)s[i + 2];
		for (int k = 18; k >= 0; k -= 6) o += A64[v >> k & 63];
	}
	if (s.size() - i == 1) { unsigned v = (unsigned char)s[i] << 16; o += A64[v >> 18]; o += A64[v >> 12 & 63]; o += "=="; }
	if (s.size() - i == 2) { unsigned v = (unsigned char)s[i] << 16 | (unsigned char)s[i + 1] << 8; o += A64[v >> 18]; o += A64[v >> 12 & 63]; o += A64[v >> 6 & 63]; o += "="; }
	return o;
}

string b64d(const string& s)
{
	string o; unsigned v = 0; int n = 0;
	for (char c : s) {
		const char* p = c ? strchr(A64, c) : nullptr;
		if (!p) continue;
		v = v << 6 | (unsigned)(p - A64);
		n += 6;
		if (n >= 8) { n -= 8; o += (char)(v >> n & 255); }
	}
	return o;
}

bool b64valid(const string& in)
{
	string s;
	for (char c : in) if (!ws(c)) s += c;
	if (s.size() % 4) return false;
	size_t n = s.size();
	while (n && s[n - 1] == '=') --n;
	if (s.size() - n > 2) return false;
	for (size_t i = 0; i < n; ++i) if (!s[i] || !strchr(A64, s[i])) return false;
	return true;
}

string digest(const string& data, bool sha1)
{
	unsigned char md[EVP_MAX_MD_SIZE]; unsigned len = 0;
	EVP_Digest(data.data(), data.size(), md, &len, sha1 ? EVP_sha1() : EVP_sha256(), nullptr);
	return string((char*)md, len);
}

static bool alpha(char c) { return (c >= 'A' && c <= 'Z') || (c >= 'a' && c <= 'z'); }
static bool digit(char c) { return c >= '0' && c <= '9'; }

bool taglist(const string& s, std::map<string, Tag>& out)
{
	size_t p = 0;
	while (true) {
		while (p < s.size() && ws(s[p])) ++p;
		if (p == s.size()) return true;
		string n;
		while (p < s.size() && (alpha(s[p]) || digit(s[p]) || (!n.empty() && s[p] == '_'))) n += s[p++];
		if (n.empty() || out.count(n)) return false;
		while (p < s.size() && ws(s[p])) ++p;
		if (p == s.size() || s[p] != '=') return false;
		Tag t;
		t.rs = ++p;
		size_t e = s.find(';', p);
		t.re = e == string::npos ? s.size() : e;
		string v = s.substr(t.rs, t.re - t.rs);
		while (!v.empty() && ws(v.back())) v.pop_back();
		size_t i = 0; while (i < v.size() && ws(v[i])) ++i;
		t.v = v.substr(i);
		for (char c : t.v) if (!ws(c) && (c < 0x21 || c > 0x7e)) return false;
		out[n] = t;
		if (e == string::npos) return true;
		p = e + 1;
	}
}

static bool colonList(const string& s, vector<string>& out)
{
	size_t p = 0;
	while (true) {
		size_t e = s.find(':', p);
		string v = s.substr(p, (e == string::npos ? s.size() : e) - p);
		while (!v.empty() && ws(v.back())) v.pop_back();
		size_t i = 0; while (i < v.size() && ws(v[i])) ++i;
		v = v.substr(i);
		if (v.empty()) { if (e == string::npos) return true; return false; } // one trailing ':' is tolerated
		out.push_back(v);
		if (e == string::npos) return true;
		p = e + 1;
	}
}

static string nows(const string& s) { string o; for (char c : s) if (!ws(c)) o += c; return o; }

static bool qpd(const string& s, string& o)
{
	for (size_t i = 0; i < s.size(); ++i) {
		if (s[i] == '=') {
			if (i + 2 >= s.size()) return false;
			int v = 0;
			for (int k = 1; k <= 2; ++k) {
				char c = s[i + k];
				if (digit(c)) v = v * 16 + c - '0';
				else if (c >= 'A' && c <= 'F') v = v * 16 + c - 'A' + 10;
				else return false;
			}
			o += (char)v; i += 2;
		} else if (!ws(s[i])) o += s[i];
	}
	return true;
}

Sig parseSig(const Field& f)
{
	Sig g;
	std::map<string, Tag> t;
	auto bad = [&](const string& w) { g.why = w; return g; };
	g.arc = f.name == "arc-message-signature";
	if (!taglist(f.raw.substr(f.voff), t)) return bad("tag list");
	for (const char* n : {"a", "b", "bh", "d", "h", "s"}) if (!t.count(n)) return bad(string("missing ") + n);
	if (!g.arc) { if (!t.count("v") || t["v"].v != "1") return bad("v"); }
	const string& a = t["a"].v;
	if (a == "rsa-sha256") { }
	else if (a == "rsa-sha1") g.sha1 = true;
	else if (a == "ed25519-sha256") g.rsa = false;
	else return bad("a");
	g.d = lower(t["d"].v);
	g.s = t["s"].v;
	if (t["b"].v.empty()) return bad("empty b");
	g.rawb = nows(t["b"].v); g.rawbh = nows(t["bh"].v);
	g.b = b64d(g.rawb); g.bh = b64d(g.rawbh);
	g.rs = t["b"].rs; g.re = t["b"].re;
	if (t.count("c")) {
		string c = t["c"].v, h = c, b = "simple";
		size_t k = c.find('/');
		if (k != string::npos) { h = c.substr(0, k); b = c.substr(k + 1); }
		if (h != "simple" && h != "relaxed") return bad("c");
		if (b != "simple" && b != "relaxed") return bad("c");
		g.hr = h == "relaxed"; g.br = b == "relaxed";
	}
	if (!colonList(t["h"].v, g.h)) return bad("h");
	bool from = false;
	for (auto& n : g.h) { n = lower(n); if (n == "from") from = true; }
	if (!from) return bad("From not signed");
	if (g.arc) {
		if (!t.count("i")) return bad("arc i");
		const string& v = t["i"].v;
		if (v.empty() || v.find_first_not_of("0123456789") != string::npos) return bad("arc i");
		g.inst = 0;
		for (char c : v) { g.inst = g.inst * 10 + (unsigned long)(c - '0'); if (g.inst > 50) return bad("arc i range"); }
		if (g.inst < 1 || g.inst > 50) return bad("arc i range");
	} else if (t.count("i")) {
		string m;
		if (!qpd(t["i"].v, m)) return bad("i");
		size_t at = m.rfind('@');
		if (at == string::npos) return bad("i");
		if (m.find('@') != at && (at < 2 || m[0] != '"' || m[at - 1] != '"')) g.iodd = true;
		g.ilocal = m.substr(0, at);
		g.idom = lower(m.substr(at + 1));
		if (g.idom != g.d) {
			string suf = "." + g.d;
			if (g.idom.size() < suf.size() || g.idom.compare(g.idom.size() - suf.size(), suf.size(), suf)) return bad("i not in d");
		}
	} else g.idom = g.d;
	if (t.count("l")) {
		const string& v = t["l"].v;
		if (v.empty() || v.size() > 76 || v.find_first_not_of("0123456789") != string::npos) return bad("l");
		g.hasl = true;
		unsigned __int128 n = 0;
		for (char c : v) { n = n * 10 + (c - '0'); if (n > (unsigned __int128)INT64_MAX) return bad("l range"); }
		g.l = (unsigned long)n;
	}
	if (t.count("q")) { // methods that are not recognized are ignored; one has to be
		vector<string> q;
		if (!colonList(t["q"].v, q) || std::find(q.begin(), q.end(), "dns/txt") == q.end()) return bad("q");
	}
	if (t.count("t")) { g.hast = true; g.t = t["t"].v; }
	if (t.count("x")) {
		const string& v = t["x"].v;
		g.hasx = true;
		if (v.empty() || v.size() > 18 || v.find_first_not_of("0123456789") != string::npos) g.xodd = true;
		else g.x = std::stol(v);
	}
	g.ok = true;
	return g;
}

Key parseKey(const string& rec)
{
	Key k;
	std::map<string, Tag> t;
	auto bad = [&](const string& w) { k.why = w; return k; };
	if (!taglist(rec, t)) return bad("record tag list");
	if (t.count("t")) {
		vector<string> v;
		colonList(t["t"].v, v);
		for (auto& x : v) { if (x == "s") k.flagS = true; if (x == "y") k.flagY = true; }
	}
	if (t.count("v") && t["v"].v != "DKIM1") return bad("record v");
	if (t.count("h")) {
		vector<string> v;
		k.hasH = true;
		if (t["h"].v.empty() || !colonList(t["h"].v, v)) return bad("record h");
		for (auto& x : v) { if (x == "sha1") k.sha1 = true; if (x == "sha256") k.sha256 = true; }
	}
	if (t.count("k")) {
		if (t["k"].v == "ed25519") k.rsa = false;
		else if (t["k"].v != "rsa") return bad("record k");
	}
	if (!t.count("p")) return bad("record p missing");
	if (t["p"].v.empty()) return bad("revoked");
	k.p = b64d(t["p"].v);
	k.odd = !b64valid(t["p"].v); // how forgiving a Base64 decoder is, is not part of any property
	if (!k.rsa && k.p.size() != 32) return bad("ed25519 key size");
	if (t.count("s")) {
		vector<string> v;
		if (t["s"].v.empty() || !colonList(t["s"].v, v)) return bad("record s");
		k.service = false;
		for (auto& x : v) if (x == "email" || x == "*") k.service = true;
		if (!k.service) return bad("service");
	}
	k.ok = true;
	return k;
}

string headerData(const Msg& m, size_t idx, const Sig& s)
{
	string data;
	std::map<string, vector<const Field*>> pool;
	for (auto& f : m.f) pool[f.name].push_back(&f);
	for (auto& n : s.h) {
		auto i = pool.find(n);
		if (i == pool.end() || i->second.empty()) continue;
		data += canonHeader(i->second.back()->raw, s.hr) + "\r\n";
		i->second.pop_back();
	}
	const Field& f = m.f[idx];
	string own = f.raw;
	own.erase(f.voff + s.rs, s.re - s.rs);
	return data + canonHeader(own, s.hr);
}

bool verifyCrypto(const Sig& s, const Key& k, const string& data)
{
	EVP_PKEY* pk = nullptr;
	bool ok = false;
	if (s.rsa) {
		const unsigned char* p = (const unsigned char*)k.p.data();
		pk = d2i_PUBKEY(nullptr, &p, (long)k.p.size());
		if (!pk || EVP_PKEY_base_id(pk) != EVP_PKEY_RSA) { EVP_PKEY_free(pk); return false; }
	} else {
		pk = EVP_PKEY_new_raw_public_key(EVP_PKEY_ED25519, nullptr, (const unsigned char*)k.p.data(), k.p.size());
		if (!pk) return false;
	}
	EVP_MD_CTX* c = EVP_MD_CTX_new();
	if (s.rsa)
		ok = EVP_DigestVerifyInit(c, nullptr, s.sha1 ? EVP_sha1() : EVP_sha256(), nullptr, pk) == 1 &&
			EVP_DigestVerify(c, (const unsigned char*)s.b.data(), s.b.size(), (const unsigned char*)data.data(), data.size()) == 1;
	else {
		string h = digest(data, s.sha1);
		ok = EVP_DigestVerifyInit(c, nullptr, nullptr, nullptr, pk) == 1 &&
			EVP_DigestVerify(c, (const unsigned char*)s.b.data(), s.b.size(), (const unsigned char*)h.data(), h.size()) == 1;
	}
	EVP_MD_CTX_free(c);
	EVP_PKEY_free(pk);
	return ok;
}

static bool keyLoads(const Key& k)
{
	if (!k.rsa) return k.p.size() == 32;
	const unsigned char* p = (const unsigned char*)k.p.data();
	EVP_PKEY* pk = d2i_PUBKEY(nullptr, &p, (long)k.p.size());
	bool ok = pk && EVP_PKEY_base_id(pk) == EVP_PKEY_RSA;
	EVP_PKEY_free(pk);
	return ok;
}

Judge judge(const Msg& m, size_t idx, const string* rec)
{
	Judge j;
	j.sig = parseSig(m.f[idx]);
	const Sig& s = j.sig;
	if (!s.ok) { j.noKey |= PERM; j.why = s.why; return j; }
	if (s.xodd || s.iodd) j.weird = true;
	if (!b64valid(s.rawb) || !b64valid(s.rawbh)) j.weird = true;
	// what a bare CR means in a relaxed header field, or among the tags, is not specified
	if (s.hr) for (auto& f : m.f) if (bareCR(f.raw)) j.weird = true;
	if (bareCR(m.f[idx].raw)) j.weird = true;
	string body = canonBody(m.body, s.br);
	if (!m.hasBody) body = s.br ? "" : "\r\n";
	if (s.hasl && s.l < body.size()) body.resize(s.l);
	else if (s.hasl && s.l > body.size()) j.weird = true;
	if (digest(body, s.sha1) != s.bh) { j.noKey |= FAIL; j.why = "body hash"; }
	if (!rec) return j;
	Key k = parseKey(*rec);
	if (k.odd || bareCR(*rec)) j.weird = true;
	if (!k.ok || !keyLoads(k)) { j.key |= PERM; j.why += " key:" + k.why; return j; }
	if (k.hasH && !(s.sha1 ? k.sha1 : k.sha256)) { j.key |= PERM; j.why += " hash not allowed"; return j; }
	if (k.rsa != s.rsa) { j.key |= PERM; j.why += " key type"; return j; }
	if (!s.arc && k.flagS && s.idom != s.d) { j.key |= PERM; j.why += " flag s"; return j; }
	if (!verifyCrypto(s, k, headerData(m, idx, s))) { j.key |= FAIL; j.why += " signature"; }
	return j;
}

static vector<PoolKey>& pool()
{
	static vector<PoolKey> v;
	if (v.empty()) {
		static const char* raw[][5] = {
#include "keys.inc"
		};
		for (auto& r : raw) v.push_back({r[0], r[0][0] == 'r', r[1], r[2], r[3], r[4], "", ""});
		for (int i = 0; i < 6; ++i) {
			PoolKey k;
			k.name = "ed" + std::to_string(i);
			k.rsa = false;
			k.seed = digest("seed" + k.name, false);
			EVP_PKEY* pk = EVP_PKEY_new_raw_private_key(EVP_PKEY_ED25519, nullptr, (const unsigned char*)k.seed.data(), 32);
			unsigned char pub[32]; size_t n = 32;
			EVP_PKEY_get_raw_public_key(pk, pub, &n);
			EVP_PKEY_free(pk);
			k.secret = k.seed + string((char*)pub, 32);
			k.pub = b64e(string((char*)pub, 32));
			v.push_back(k);
		}
	}
	return v;
}

const PoolKey* key(const string& n)
{
	for (auto& k : pool()) if (k.name == n) return &k;
	return nullptr;
}

string record(const string& n, const string& extra)
{
	const PoolKey* k = key(n);
	if (!k) return "v=DKIM1; p=";
	return "v=DKIM1; " + string(k->name[0] == 'e' && k->name != "ec" ? "k=ed25519; " : "") + extra + "p=" + k->pub;
}

string signData(const PoolKey& k, bool sha1, const string& data)
{
	EVP_PKEY* pk;
	if (k.rsa) {
		static std::map<string, EVP_PKEY*> cache;
		EVP_PKEY*& c = cache[k.name];
		if (!c) {
			BIO* b = BIO_new_mem_buf(k.pem.data(), (int)k.pem.size());
			c = PEM_read_bio_PrivateKey(b, nullptr, nullptr, nullptr);
			BIO_free(b);
		}
		pk = c;
		EVP_PKEY_up_ref(pk);
	} else pk = EVP_PKEY_new_raw_private_key(EVP_PKEY_ED25519, nullptr, (const unsigned char*)k.seed.data(), 32);
	EVP_MD_CTX* c = EVP_MD_CTX_new();
	string in = k.rsa ? data : digest(data, sha1);
	size_t n = 4096; string out(n, 0);
	bool ok = EVP_DigestSignInit(c, nullptr, k.rsa ? (sha1 ? EVP_sha1() : EVP_sha256()) : nullptr, nullptr, pk) == 1 &&
		EVP_DigestSign(c, (unsigned char*)&out[0], &n, (const unsigned char*)in.data(), in.size()) == 1;
	EVP_MD_CTX_free(c);
	EVP_PKEY_free(pk);
	out.resize(ok ? n : 0);
	return out;
}

static string modified(string v, const string& mod)
{
	if (mod.size() < 2) return v;
	size_t n = strtoul(mod.c_str() + 1, nullptr, 10);
	switch (mod[0]) {
	case 'x': if (!v.empty()) v[(n >> 3) % v.size()] ^= (char)(1 << (n & 7)); break;
	case 'a': v.append(n, (char)n); break;
	case 'c': v.resize(v.size() - std::min(v.size(), n)); break;
	case 'k': for (size_t i = n; i < v.size(); ++i) v[i] = (char)(v[i] ^ 0x5a); break;
	}
	return v;
}

string foreignSign(const Foreign& f, const string& mail)
{
	Msg m = parse(mail);
	string body = m.hasBody ? canonBody(m.body, f.br) : string(f.br ? "" : "\r\n");
	if (f.hasl && f.l < body.size()) body.resize(f.l);
	auto folded = [&](const string& v, int n) { string o; for (size_t i = 0; i < v.size(); i += (size_t)n) o += (i ? f.fws : string()) + v.substr(i, (size_t)n); return o; };
	string bh = f.badBh.empty() ? b64e(modified(digest(body, f.sha1), f.bhMod)) : f.badBh;
	if (f.bhfold > 0) bh = folded(bh, f.bhfold);
	auto build = [&](const string& b) {
		string s = f.field + ":";
		for (size_t i = 0; i < f.tags.size(); ++i) {
			auto& t = f.tags[i];
			string v = t.first == "bh" ? (t.second.empty() ? bh : t.second) : t.first == "b" ? b : t.second;
			s += f.pre + t.first + f.eq + "=" + (t.first == "b" ? (b.empty() ? "" : f.bpre + v + f.bpost) : f.eq + v + f.post);
			if (i + 1 < f.tags.size() || f.trail) s += ";" + (i + 1 < f.tags.size() ? f.sep : string());
		}
		return s;
	};
	string probe = build("");
	Msg t = parse(probe + "\r\n" + mail);
	// The signed data, computed without the parser's opinion of the tags
	string data;
	std::map<string, vector<const Field*>> pl;
	for (auto& x : t.f) pl[x.name].push_back(&x);
	vector<string> h;
	for (auto& x : f.tags) if (x.first == "h") colonList(x.second, h);
	for (auto& n : h) {
		auto i = pl.find(lower(n));
		if (i == pl.end() || i->second.empty()) continue;
		data += canonHeader(i->second.back()->raw, f.hr) + "\r\n";
		i->second.pop_back();
	}
	data += canonHeader(t.f[0].raw, f.hr);
	const PoolKey* k = key(f.keyname);
	string b = !f.badB.empty() ? f.badB : k ? b64e(modified(signData(*k, f.sha1, data), f.bMod)) : "AAAA";
	if (f.bfold > 0) b = folded(b, f.bfold);
	return build(b);
}

Wire decodeTXT(const string& pkt)
{
	Wire w;
	auto u8 = [&](size_t i) { return (unsigned)(unsigned char)pkt[i]; };
	size_t n = pkt.size(), p = 12;
	if (n < 12) return w;
	auto skip = [&]() -> bool {
		while (true) {
			if (p >= n) return false;
			unsigned l = u8(p);
			if ((l & 0xc0) == 0xc0) { if (p + 2 > n) return false; p += 2; return true; }
			if (l & 0xc0) { w.ambiguous = true; return false; }
			++p;
			if (!l) return true;
			if (p + l > n) return false;
			p += l;
		}
	};
	unsigned qd = u8(4) << 8 | u8(5), an = u8(6) << 8 | u8(7);
	for (unsigned i = 0; i < qd; ++i) { if (!skip() || p + 4 > n) return w; p += 4; }
	w.cuts.push_back(0);
	for (unsigned i = 0; i < an; ++i) {
		if (!skip() || p + 10 > n) return w;
		unsigned t = u8(p) << 8 | u8(p + 1), rl = u8(p + 8) << 8 | u8(p + 9);
		p += 10;
		if (p + rl > n) return w;
		if (t == 16) {
			size_t q = p, e = p + rl;
			while (q < e) {
				unsigned l = u8(q);
				if (q + 1 + l > e) break;
				w.text += pkt.substr(q + 1, l);
				w.cuts.push_back(w.text.size());
				q += 1 + l;
			}
			if (q != e) w.ambiguous = w.ambiguous; // malformed record: its whole strings still count
		}
		p += rl;
	}
	w.structural = true;
	return w;
}
}
