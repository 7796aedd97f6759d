// What happens to a message between signer and verifier.
#include "world.hpp"
#include <algorithm>

namespace world {
using plan::Line;

struct Parts { vector<string> f; string sep, body; bool hasSep = false; };
static bool wsp(char c) { return c == ' ' || c == '\t'; }

static Parts cut(const string& s)
{
	Parts p;
	size_t i = 0;
	while (i < s.size()) {
		size_t e = s.find('\n', i);
		size_t n = e == string::npos ? s.size() : e + 1;
		string line = s.substr(i, n - i);
		i = n;
		if (line == "\n" || line == "\r\n") { p.sep = line; p.hasSep = true; p.body = s.substr(i); break; }
		if (!p.f.empty() && wsp(line[0])) p.f.back() += line;
		else p.f.push_back(line);
	}
	return p;
}
static string glue(const Parts& p) { string o; for (auto& x : p.f) o += x; return o + p.sep + p.body; }
static string lfToCrlf(const string& s) { string o; for (size_t i = 0; i < s.size(); ++i) { if (s[i] == '\n' && (i == 0 || s[i - 1] != '\r')) o += '\r'; o += s[i]; } return o; }
static string crlfToLf(const string& s) { string o; for (size_t i = 0; i < s.size(); ++i) { if (s[i] == '\r' && i + 1 < s.size() && s[i + 1] == '\n') continue; o += s[i]; } return o; }

string edit(const string& mail, const Line& l, const std::function<string(const string&)>& other)
{
	string k = l.get("k"), s = l.get("s");
	size_t a = (size_t)l.num("a"), b = (size_t)l.num("b");
	Parts p = cut(mail);
	auto fi = [&](size_t i) { return p.f.empty() ? 0 : i % p.f.size(); };
	auto colon = [&](const string& f) { size_t c = f.find(':'); return c == string::npos ? f.size() : c; };
	auto trimEol = [&](string f) { while (!f.empty() && (f.back() == '\n' || f.back() == '\r')) f.pop_back(); return f; };
	if (k == "trace") return s + "\r\n" + mail;
	if (k == "crlf2lf") return crlfToLf(mail);
	if (k == "lf2crlf") return lfToCrlf(mail);
	if (k == "btrail") { if (!p.hasSep) return mail; for (size_t i = 0; i < a; ++i) p.body += "\r\n"; if (!p.body.empty() && b) p.body += "\r\n"; return glue(p); }
	if (k == "bstrip") {
		while (p.body.size() >= 4 && p.body.compare(p.body.size() - 4, 4, "\r\n\r\n") == 0) p.body.erase(p.body.size() - 2);
		while (p.body.size() >= 2 && p.body.compare(p.body.size() - 2, 2, "\n\n") == 0) p.body.erase(p.body.size() - 1);
		return glue(p);
	}
	if (k == "bwsp") { // the a-th run of white space inside the body becomes s
		size_t n = 0;
		vector<size_t> at;
		for (size_t i = 0; i < p.body.size(); ++i) if (wsp(p.body[i]) && (i == 0 || !wsp(p.body[i - 1]))) at.push_back(i);
		if (at.empty()) return mail;
		size_t i = at[a % at.size()];
		while (i + n < p.body.size() && wsp(p.body[i + n])) ++n;
		p.body.replace(i, n, s);
		return glue(p);
	}
	if (k == "beol") { // white space before the a-th line end of the body
		vector<size_t> at;
		for (size_t i = 0; i < p.body.size(); ++i) if (p.body[i] == '\n') at.push_back(i > 0 && p.body[i - 1] == '\r' ? i - 1 : i);
		if (at.empty()) return mail;
		p.body.insert(at[a % at.size()], s);
		return glue(p);
	}
	if (k == "append") { if (p.hasSep) p.body += s; return glue(p); }
	if (k == "body") { p.hasSep = true; if (p.sep.empty()) p.sep = "\r\n"; p.body = s; return glue(p); }
	if (k == "bodycut") { p.body.resize(p.body.empty() ? 0 : a % p.body.size()); return glue(p); }
	if (k == "bodyflip") { if (!p.body.empty()) p.body[a % p.body.size()] ^= (char)(1 << (b & 7)); return glue(p); }
	if (k == "bodyins") { p.hasSep = true; if (p.sep.empty()) p.sep = "\r\n"; p.body.insert(p.body.empty() ? 0 : a % (p.body.size() + 1), s); return glue(p); }
	if (k == "flip") { string m = mail; if (!m.empty()) m[a % m.size()] ^= (char)(1 << (b & 7)); return m; }
	if (k == "del") { string m = mail; if (!m.empty()) m.erase(a % m.size(), b ? b : 1); return m; }
	if (k == "ins") { string m = mail; m.insert(a % (m.size() + 1), s); return m; }
	if (k == "trunc") return mail.substr(0, mail.empty() ? 0 : a % mail.size());
	if (k == "dupl") { string m = mail; if (m.empty()) return m; size_t x = a % m.size(), n = std::min(b, m.size() - x); m.insert(x, m.substr(x, n)); return m; }
	if (k == "sigcopy") { // signature fields of another message in front of this one
		Parts q = cut(other(l.get("from")));
		string o;
		for (auto& f : q.f) { string n = ref::lower(f.substr(0, colon(f))); if (n == "dkim-signature" || n == "arc-message-signature") o += f; }
		return o + mail;
	}
	if (k == "bodyat") { // one byte of the body, or bytes put in, at a position (counted from the end when b is set)
		if (!p.hasSep) return mail;
		size_t i = std::min(a, p.body.size());
		if (b) i = p.body.size() - i;
		if (s.size() == 1 && i < p.body.size()) p.body[i] = s[0]; else p.body.insert(i, s);
		return glue(p);
	}
	if (p.f.empty()) return mail;
	if (k == "nchr" || k == "ndel" || k == "nswap" || k == "nval" || k == "ncase") { // on the a-th field of a name
		vector<size_t> at;
		for (size_t i = 0; i < p.f.size(); ++i) { string n = ref::lower(p.f[i].substr(0, colon(p.f[i]))); while (!n.empty() && wsp(n.back())) n.pop_back(); if (n == ref::lower(l.get("n"))) at.push_back(i); }
		if (at.empty()) return mail;
		string& f = p.f[at[a % at.size()]];
		size_t c = colon(f);
		string body = trimEol(f), eol = f.substr(body.size());
		if (k == "ndel") p.f.erase(p.f.begin() + (long)at[a % at.size()]);
		else if (k == "nswap") std::swap(f, p.f[at[b % at.size()]]);
		else if (k == "nval") f = f.substr(0, std::min(f.size(), c + 1)) + s + (eol.empty() ? "\r\n" : eol);
		else if (k == "nchr") { if (c + 1 < body.size()) f[c + 1 + b % (body.size() - c - 1)] = s.empty() ? '!' : s[0]; }
		else for (size_t i = c; i < f.size(); ++i) if ((b >> (i % 16)) & 1) { if (f[i] >= 'a' && f[i] <= 'z') f[i] -= 32; else if (f[i] >= 'A' && f[i] <= 'Z') f[i] += 32; }
		return glue(p);
	}
	string& f = p.f[fi(a)];
	if (k == "refold" || k == "wspexp") {
		string body = trimEol(f), eol = f.substr(body.size());
		vector<size_t> at;
		for (size_t i = colon(body) + 1; i < body.size(); ++i) if (wsp(body[i]) && !(i > 0 && (body[i - 1] == '\n' || body[i - 1] == '\r'))) at.push_back(i);
		if (at.empty()) return mail;
		body.replace(at[b % at.size()], 1, s.empty() ? "\r\n " : s);
		f = body + eol;
		return glue(p);
	}
	if (k == "unfold") {
		string body = trimEol(f), eol = f.substr(body.size()), o;
		for (char c : body) if (c != '\r' && c != '\n') o += c;
		f = o + eol;
		return glue(p);
	}
	if (k == "hwsp") { // white space around the colon or at the end of the field
		size_t c = colon(f);
		string body = trimEol(f), eol = f.substr(body.size());
		if (b % 3 == 0 && c < body.size()) body.insert(c + 1, s);
		else if (b % 3 == 1 && c < body.size() && c > 0) body.insert(c, s);
		else body += s;
		f = body + eol;
		return glue(p);
	}
	if (k == "hcase") { size_t c = colon(f); for (size_t i = 0; i < c; ++i) if ((b >> (i % 16)) & 1) { if (f[i] >= 'a' && f[i] <= 'z') f[i] -= 32; else if (f[i] >= 'A' && f[i] <= 'Z') f[i] += 32; } return glue(p); }
	if (k == "hswap") { std::swap(p.f[fi(a)], p.f[fi(b)]); return glue(p); }
	if (k == "hdup") { string x = f; p.f.insert(p.f.begin() + (long)fi(b), x); return glue(p); }
	if (k == "hdel") { p.f.erase(p.f.begin() + (long)fi(a)); return glue(p); }
	if (k == "hval") { size_t c = colon(f); if (c >= f.size()) return mail; string eol = f.substr(trimEol(f).size()); f = f.substr(0, c + 1) + s + (eol.empty() ? "\r\n" : eol); return glue(p); }
	if (k == "hchr") { string body = trimEol(f); size_t c = colon(body); if (c + 1 >= body.size()) return mail; size_t i = c + 1 + b % (body.size() - c - 1); f[i] = s.empty() ? '!' : s[0]; return glue(p); }
	if (k == "hadd") { size_t i = a % (p.f.size() + 1); if (i == p.f.size() && !p.f.empty() && p.f.back().back() != '\n') p.f.back() += "\r\n"; p.f.insert(p.f.begin() + (long)i, s + "\r\n"); return glue(p); }
	if (k == "tag" || k == "tagdel" || k == "tagadd" || k == "tagapp" || k == "newbh") { // on the a-th signature field
		vector<size_t> sg;
		for (size_t i = 0; i < p.f.size(); ++i) { string n = ref::lower(p.f[i].substr(0, colon(p.f[i]))); while (!n.empty() && wsp(n.back())) n.pop_back(); if (n == "dkim-signature" || n == "arc-message-signature") sg.push_back(i); }
		if (sg.empty()) return mail;
		string& g = p.f[sg[a % sg.size()]];
		string body = trimEol(g), eol = g.substr(body.size());
		size_t c = colon(body);
		if (c >= body.size()) return mail;
		string v = body.substr(c + 1);
		std::map<string, ref::Tag> t;
		if (!ref::taglist(v, t)) return mail;
		string n = l.get("n");
		if (k == "newbh") {
			ref::Msg m = ref::parse(mail);
			bool br = false, sha1 = t.count("a") && t["a"].v == "rsa-sha1";
			if (t.count("c")) { size_t q = t["c"].v.find('/'); br = q != string::npos && t["c"].v.substr(q + 1) == "relaxed"; }
			string cb = m.hasBody ? ref::canonBody(m.body, br) : string(br ? "" : "\r\n");
			if (t.count("l")) { size_t n2 = strtoul(t["l"].v.c_str(), nullptr, 10); if (n2 < cb.size()) cb.resize(n2); }
			n = "bh"; s = ref::b64e(ref::digest(cb, sha1));
		}
		if (k == "tagadd") v = " " + n + "=" + s + ";" + v;
		else if (!t.count(n)) return mail;
		else if (k == "tagdel") {
			size_t st = v.rfind(';', t[n].rs), en = t[n].re;
			if (st == string::npos) { st = 0; if (en < v.size()) ++en; }
			v.erase(st, en - st);
		}
		else if (k == "tagapp") v.replace(t[n].rs, t[n].re - t[n].rs, t[n].v + s);
		else v.replace(t[n].rs, t[n].re - t[n].rs, s);
		g = body.substr(0, c + 1) + v + eol;
		return glue(p);
	}
	return mail;
}
}
