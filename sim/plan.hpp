// A plan is one simulated execution written out: lines "kind key=value ...", values %-escaped.
#pragma once
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <sstream>
#include <string>
#include <utility>
#include <vector>

namespace plan {
using std::string;
using std::vector;

inline string esc(const string& s)
{
	static const char* H = "0123456789ABCDEF";
	string o;
	for (unsigned char c : s)
		if (c <= ' ' || c > 126 || c == '%') { o += '%'; o += H[c >> 4]; o += H[c & 15]; }
		else o += (char)c;
	return o;
}
inline int hexv(char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'A' && c <= 'F' ? c - 'A' + 10 : c >= 'a' && c <= 'f' ? c - 'a' + 10 : -1; }
inline string unesc(const string& s)
{
	string o;
	for (size_t i = 0; i < s.size(); ++i)
		if (s[i] == '%' && i + 2 < s.size() && hexv(s[i + 1]) >= 0 && hexv(s[i + 2]) >= 0) { o += (char)(hexv(s[i + 1]) << 4 | hexv(s[i + 2])); i += 2; }
		else o += s[i];
	return o;
}
inline vector<string> split(const string& s, char c)
{
	vector<string> v;
	if (s.empty()) return v;
	size_t p = 0, e;
	while ((e = s.find(c, p)) != string::npos) { v.push_back(s.substr(p, e - p)); p = e + 1; }
	v.push_back(s.substr(p));
	return v;
}
inline string join(const vector<string>& v, char c)
{
	string o;
	for (size_t i = 0; i < v.size(); ++i) { if (i) o += c; o += v[i]; }
	return o;
}

struct Line {
	string kind;
	vector<std::pair<string, string>> kv;
	Line() {}
	Line(const string& k) : kind(k) {}
	const string* find(const string& k) const { for (auto& x : kv) if (x.first == k) return &x.second; return nullptr; }
	bool has(const string& k) const { return find(k) != nullptr; }
	string get(const string& k, const string& d = "") const { auto p = find(k); return p ? *p : d; }
	long num(const string& k, long d = 0) const { auto p = find(k); return p ? strtol(p->c_str(), nullptr, 10) : d; }
	Line& set(const string& k, const string& v) { for (auto& x : kv) if (x.first == k) { x.second = v; return *this; } kv.emplace_back(k, v); return *this; }
	Line& set(const string& k, const char* v) { return set(k, string(v)); }
	Line& set(const string& k, long v) { return set(k, std::to_string(v)); }
	Line& set(const string& k, int v) { return set(k, std::to_string(v)); }
	Line& set(const string& k, size_t v) { return set(k, std::to_string(v)); }
	void del(const string& k) { for (size_t i = 0; i < kv.size(); ++i) if (kv[i].first == k) { kv.erase(kv.begin() + (long)i); return; } }
	string str() const { string o = kind; for (auto& x : kv) o += " " + x.first + "=" + esc(x.second); return o; }
};
inline Line parseLine(const string& s)
{
	Line l;
	auto v = split(s, ' ');
	for (size_t i = 0; i < v.size(); ++i) {
		if (v[i].empty()) continue;
		if (l.kind.empty()) { l.kind = v[i]; continue; }
		size_t e = v[i].find('=');
		if (e == string::npos) l.kv.emplace_back(v[i], "");
		else l.kv.emplace_back(v[i].substr(0, e), unesc(v[i].substr(e + 1)));
	}
	return l;
}
struct Plan {
	vector<Line> l;
	string str() const { string o; for (auto& x : l) o += x.str() + "\n"; return o; }
	Line& add(const string& kind) { l.emplace_back(kind); return l.back(); }
};
inline Plan parse(const string& s)
{
	Plan p;
	for (auto& x : split(s, '\n')) if (!x.empty() && x[0] != '#') p.l.push_back(parseLine(x));
	return p;
}

struct Rng {
	uint64_t s;
	explicit Rng(uint64_t x) : s(x) {}
	uint64_t next() { uint64_t z = (s += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
	long below(long n) { return n <= 1 ? 0 : (long)(next() % (uint64_t)n); }
	long range(long a, long b) { return a + below(b - a + 1); }
	bool p(double x) { return (double)(next() >> 11) * 0x1p-53 < x; }
	template <class T> const T& pick(const vector<T>& v) { return v[(size_t)below((long)v.size())]; }
	const char* pick(std::initializer_list<const char*> v) { return v.begin()[below((long)v.size())]; }
	long logu(long n) { double e = (double)(next() >> 11) * 0x1p-53; long v = 1; double x = 1; while (x < (double)n) x *= 2; // log-uniform 1..n
		double lg = 0; double t = x; while (t > 1) { t /= 2; lg += 1; } double y = e * lg; long k = (long)y; v = 1L << k; v += below(v); return v > n ? n : v; }
};
inline uint64_t mix(uint64_t a, uint64_t b) { Rng r(a ^ (b * 0xD6E8FEB86659FD93ull + 0x2545F4914F6CDD1Dull)); r.next(); return r.next(); }
inline uint64_t fnv(const void* p, size_t n, uint64_t h = 1469598103934665603ull) { auto c = (const unsigned char*)p; for (size_t i = 0; i < n; ++i) { h ^= c[i]; h *= 1099511628211ull; } return h; }
inline uint64_t fnv(const string& s, uint64_t h = 1469598103934665603ull) { return fnv(s.data(), s.size(), h); }
}
