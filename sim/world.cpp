// The simulated world: signers, relays, DNS, verifiers, and the oracles that watch them.
#include "world.hpp"
#include "src/Signatory.hpp"
#include "src/Validatory.hpp"
#include "src/Canonicalization.hpp"
#include "src/Resolver.hpp"
#include "src/EncodedWord.hpp"
#include "src/QuotedPrintable.hpp"
#include "src/Base64.hpp"
#include "src/Tokenizer.hpp"
#include "src/TagList.hpp"
#include "src/Util.hpp"
#include <cxxabi.h>
#include <algorithm>
#include <cerrno>
#include <fcntl.h>
#include <set>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

int dkimtool_main(int, char**);

namespace world {
using plan::Line;
using plan::Plan;
using plan::split;
using sim::ev;
using sim::hit;
using sim::self;
using sim::Lib;
using sim::Op;
using sim::violate;

vector<Twin>* twinSink;
string scratch;

// ---- state -----------------------------------------------------------------------------------------
struct ZoneRec { long at; int st; string text; };
struct Opt { OptCfg cfg; std::unique_ptr<DKIM::SignatoryOptions> o; vector<DKIM::AdditionalSignaturesOptions*> add; vector<RSA*> borrowed; string err; };
struct SharedKey { string rec; std::unique_ptr<DKIM::PublicKey> pub; bool ok = false; };
struct Objs { std::unique_ptr<DKIM::Signature> sig; std::unique_ptr<DKIM::PublicKey> pub; };

static std::map<string, vector<ZoneRec>> zone;
static std::map<string, string> mails, descr;
static std::map<string, Opt> opts;
static std::map<string, SharedKey> keys;
static std::map<int, Objs> objs; // per thread, for reuse
static std::map<string, string> packets;
static long dnsLat;
static std::set<string> arms;
static string prop;
static bool solo;

static bool armed(const char* a) { return arms.count(a) > 0; }

vector<string> defaultHeaders()
{
	return {"from", "sender", "reply-to", "subject", "date", "message-id", "to", "cc", "mime-version", "content-type", "content-transfer-encoding",
		"content-id", "content-description", "resent-date", "resent-from", "resent-sender", "resent-to", "resent-cc", "resent-message-id", "in-reply-to",
		"references", "list-id", "list-help", "list-unsubscribe", "list-unsubscribe-post", "list-subscribe", "list-post", "list-owner", "list-archive",
		"cfbl-address", "cfbl-feedback-id"};
}

// ---- options ------------------------------------------------------------------------------------------
static AsigCfg parseAsig(const string& s)
{
	AsigCfg a;
	auto v = split(s, ',');
	if (v.size() > 0) a.alg = v[0];
	if (v.size() > 1) a.key = v[1];
	if (v.size() > 2) a.fmt = v[2];
	if (v.size() > 3) a.d = v[3];
	if (v.size() > 4) a.s = v[4];
	return a;
}
static vector<string> names(const string& s) { return s == "-" ? vector<string>() : split(s, ':'); }

void applyCfg(OptCfg& c, const Line& l)
{
	if (l.has("alg")) c.main.alg = l.get("alg");
	if (l.has("fmt")) {
		c.main.fmt = l.get("fmt"); c.main.key = l.get("key");
	}
	if (l.has("d")) c.main.d = l.get("d");
	if (l.has("s")) c.main.s = l.get("s");
	if (l.has("dig")) c.sha1 = l.get("dig") == "sha1";
	if (l.has("hc")) c.hr = l.get("hc") == "r";
	if (l.has("bc")) c.br = l.get("bc") == "r";
	if (l.has("h")) c.headers = names(l.get("h"));
	if (l.has("addh")) for (auto& x : names(l.get("addh"))) c.headers.push_back(x);
	if (l.has("delh")) for (auto& x : names(l.get("delh"))) c.headers.erase(std::remove(c.headers.begin(), c.headers.end(), x), c.headers.end());
	if (l.has("over")) c.over = names(l.get("over"));
	if (l.has("l")) { c.hasl = true; c.l = strtoul(l.get("l").c_str(), nullptr, 10); }
	if (l.has("arc")) c.arc = (unsigned long)l.num("arc");
	if (l.has("t")) { c.hast = true; c.t = l.num("t"); }
	if (l.has("x")) { c.hasx = true; c.x = l.num("x"); c.xabs = l.num("xabs", 1); }
	if (l.has("i")) c.identity = l.get("i");
	if (l.has("add")) for (auto& x : split(l.get("add"), '|')) c.add.push_back(parseAsig(x));
}
static string asigStr(const AsigCfg& a) { return a.alg + "," + a.key + "," + a.fmt + "," + a.d + "," + a.s; }
Line cfgLine(const OptCfg& c, const string& id)
{
	Line l("opt");
	l.set("id", id).set("alg", c.main.alg).set("fmt", c.main.fmt).set("key", c.main.key);
	if (!c.main.d.empty()) l.set("d", c.main.d);
	if (!c.main.s.empty()) l.set("s", c.main.s);
	l.set("dig", c.sha1 ? "sha1" : "sha256").set("hc", c.hr ? "r" : "s").set("bc", c.br ? "r" : "s");
	if (c.headers != defaultHeaders()) l.set("h", c.headers.empty() ? string("-") : plan::join(c.headers, ':'));
	if (!c.over.empty()) l.set("over", plan::join(c.over, ':'));
	if (c.hasl) l.set("l", std::to_string(c.l));
	if (c.arc) l.set("arc", (long)c.arc);
	if (c.hast) l.set("t", c.t);
	if (c.hasx) l.set("x", c.x).set("xabs", c.xabs ? 1 : 0);
	if (!c.identity.empty()) l.set("i", c.identity);
	vector<string> a; for (auto& x : c.add) a.push_back(asigStr(x));
	if (!a.empty()) l.set("add", plan::join(a, '|'));
	return l;
}

template <class T> static void setKey(T& o, const string& key, const string& fmt, vector<RSA*>& borrowed)
{
	const ref::PoolKey* k = ref::key(key);
	if (fmt == "bad") { Lib g; o.SetPrivateKey(key.empty() ? "garbage" : key); return; }
	if (!k || fmt == "none") return;
	if (fmt == "pem") { Lib g; o.SetPrivateKey(k->pem); }
	else if (fmt == "pkcs8") { Lib g; o.SetPrivateKey(k->pkcs8); }
	else if (fmt == "der") { Lib g; o.SetPrivateKey(k->der); }
	else if (fmt == "raw64") { Lib g; o.SetPrivateKey(k->secret); }
	else if (fmt == "raw32") { Lib g; o.SetPrivateKey(k->seed); }
	else if (fmt == "b64") { string s = ref::b64e(k->secret); Lib g; o.SetPrivateKey(s); }
	else if (fmt == "b32") { string s = ref::b64e(k->seed); Lib g; o.SetPrivateKey(s); }
	else if (fmt == "rsa" || fmt == "rsaown") {
		string der = ref::b64d(k->der);
		const unsigned char* p = (const unsigned char*)der.data();
		RSA* r;
		{ Lib g; ++self->lib; Op* save = self->op; self->op = nullptr; r = d2i_RSAPrivateKey(nullptr, &p, (long)der.size()); self->op = save; --self->lib; }
		if (fmt == "rsa") borrowed.push_back(r);
		Lib g; o.SetRSAPrivateKey(r, fmt == "rsaown");
	}
}
static std::list<string> toList(const vector<string>& v) { return std::list<string>(v.begin(), v.end()); }

static string exWhat(std::exception& e)
{
	int st; char* n = abi::__cxa_demangle(typeid(e).name(), nullptr, nullptr, &st);
	string s = n ? n : "?"; free(n);
	return s + ": " + e.what();
}
struct Out { string cls, what; string str() const { return what.empty() ? cls : cls + " (" + what + ")"; } };
template <class F> static Out guard(F f)
{
	try { f(); return {"ok", ""}; }
	catch (DKIM::PermanentError& e) { return {string("perm/") + e.getAuthenticationResult(), e.what()}; }
	catch (DKIM::TemporaryError& e) { return {string("temp/") + e.getAuthenticationResult(), e.what()}; }
	catch (std::exception& e) { return {"other", exWhat(e)}; }
	catch (...) { return {"other", "unknown exception"}; }
}
static bool isPerm(const Out& o) { return o.cls.compare(0, 5, "perm/") == 0; }
static bool isTemp(const Out& o) { return o.cls.compare(0, 5, "temp/") == 0; }

static bool goodKey(const AsigCfg& a)
{
	const ref::PoolKey* k = ref::key(a.key);
	if (!k || a.fmt == "none" || a.fmt == "bad") return false;
	if (k->name == "ec") return false;
	bool rsaFmt = a.fmt == "pem" || a.fmt == "pkcs8" || a.fmt == "der" || a.fmt == "rsa" || a.fmt == "rsaown";
	return a.alg == "rsa" ? k->rsa && rsaFmt : !k->rsa && !rsaFmt;
}

// SetPrivateKey decides by the algorithm set at that moment
static void opOpt(const Line& l)
{
	string id = l.get("id", "o");
	Opt& o = opts[id];
	bool fresh = !o.o;
	if (fresh) {
		o.cfg = OptCfg(); o.cfg.headers = defaultHeaders();
		Out c = guard([&] { Lib g; o.o.reset(new DKIM::SignatoryOptions); });
		if (!o.o) { ev("opt " + id + " not made: " + c.str()); if (self->op) self->op->fails.clear(); Lib g; o.o.reset(new DKIM::SignatoryOptions); }
	}
	DKIM::SignatoryOptions& s = *o.o;
	bool before = goodKey(o.cfg.main);
	Out r = guard([&] {
		if (l.has("alg")) { Lib g; s.SetSignatureAlgorithm(l.get("alg") == "ed" ? DKIM::DKIM_SA_ED25519 : DKIM::DKIM_SA_RSA); }
		if (l.has("d")) { string v = l.get("d"); Lib g; s.SetDomain(v); }
		if (l.has("s")) { string v = l.get("s"); Lib g; s.SetSelector(v); }
		if (l.has("dig")) { Lib g; s.SetDigestAlgorithm(l.get("dig") == "sha1" ? DKIM::DKIM_A_SHA1 : DKIM::DKIM_A_SHA256); }
		if (l.has("hc")) { Lib g; s.SetCanonModeHeader(l.get("hc") == "r" ? DKIM::DKIM_C_RELAXED : DKIM::DKIM_C_SIMPLE); }
		if (l.has("bc")) { Lib g; s.SetCanonModeBody(l.get("bc") == "r" ? DKIM::DKIM_C_RELAXED : DKIM::DKIM_C_SIMPLE); }
		if (l.has("h")) { auto v = toList(names(l.get("h"))); Lib g; s.SetHeaders(v); }
		if (l.has("addh")) { auto v = toList(names(l.get("addh"))); Lib g; s.AddHeaders(v); }
		if (l.has("delh")) { auto v = toList(names(l.get("delh"))); Lib g; s.DelHeaders(v); }
		if (l.has("over")) { auto v = toList(names(l.get("over"))); Lib g; s.SetOversignHeaders(v); }
		if (l.has("l")) { Lib g; s.SetSignBodyLength(strtoul(l.get("l").c_str(), nullptr, 10)); }
		if (l.has("arc")) { Lib g; s.SetARCInstance((unsigned long)l.num("arc")); }
		if (l.has("t")) { Lib g; s.SetTimestamp(l.num("t")); }
		if (l.has("x")) { Lib g; s.SetExpiration(l.num("x"), l.num("xabs", 1) != 0); }
		if (l.has("i")) { string v = l.get("i"); Lib g; s.SetIdentity(v); }
		if (l.has("fmt")) setKey(s, l.get("key"), l.get("fmt"), o.borrowed);
		for (auto& x : split(l.get("add"), '|')) {
			AsigCfg a = parseAsig(x);
			DKIM::AdditionalSignaturesOptions* n;
			{ Lib g; n = &s.AddAdditionalSignature(); }
			o.add.push_back(n);
			{ Lib g; n->SetSignatureAlgorithm(a.alg == "ed" ? DKIM::DKIM_SA_ED25519 : DKIM::DKIM_SA_RSA); }
			if (!a.d.empty()) { Lib g; n->SetDomain(a.d); }
			if (!a.s.empty()) { Lib g; n->SetSelector(a.s); }
			setKey(*n, a.key, a.fmt, o.borrowed);
		}
		for (auto& x : split(l.get("rekey"), '|')) { // "index,key,fmt": a second key for an additional signature
			auto v = split(x, ',');
			if (v.size() < 3 || o.add.empty()) continue;
			size_t i = (size_t)atol(v[0].c_str()) % o.add.size();
			o.cfg.add[i].key = v[1]; o.cfg.add[i].fmt = v[2];
			setKey(*o.add[i], v[1], v[2], o.borrowed);
		}
	});
	applyCfg(o.cfg, l);
	ev("opt " + id + " " + r.str());
	if (r.cls != "ok") {
		o.err = r.str();
		if (!self->op || !self->op->fired) {
			bool expectBad = l.has("fmt") && (l.get("fmt") == "bad" || (l.get("fmt") != "none" && !goodKey(o.cfg.main)));
			for (auto& a : o.cfg.add) if (a.fmt == "bad" || (a.fmt != "none" && !goodKey(a))) expectBad = true;
			if (armed("sign") && !expectBad) violate("options", "a valid option was refused: " + r.str());
		}
		if (!isPerm(r) && !isTemp(r) && armed("exc") && !(self->op && self->op->fired)) violate("wrong-exception", "options: " + r.str());
		// the key state after a refused key is not specified
		o.cfg.unknownKey = before || !o.cfg.add.empty();
		o.cfg.main.fmt = "none";
	}
}
static void dropOpts()
{
	for (auto& x : opts) { { Lib g; x.second.o.reset(); } for (auto r : x.second.borrowed) RSA_free(r); }
	opts.clear();
}

// ---- common parts of operations ---------------------------------------------------------------------------
static sim::Src source(const Line& l)
{
	sim::Src s;
	s.start = (size_t)l.num("start");
	s.base = l.num("base");
	if (s.base) hit(sim::C_start_far);
	for (auto& x : split(l.get("pieces"), ',')) s.pieces.push_back(atol(x.c_str()));
	s.lat = l.num("lat");
	s.noseek = l.num("noseek") != 0;
	s.exm = l.num("exm"); s.ext = l.num("ext");
	s.failed = l.num("failed");
	for (auto& x : split(l.get("rf"), ',')) {
		auto v = split(x, ':');
		if (v.size() < 4) continue;
		s.f.push_back({atoi(v[0].c_str()), atoi(v[1].c_str()), (size_t)atol(v[2].c_str()), atoi(v[3].c_str())});
	}
	return s;
}
struct OpScope {
	Op op;
	OpScope(const Line& l, size_t bytes)
	{
		for (auto& x : split(l.get("pre"), ',')) { auto v = split(x, ':'); op.pre.emplace_back(atol(v[0].c_str()), v.size() > 1 ? atol(v[1].c_str()) : 1); }
		auto e = split(l.get("every"), ':');
		if (e.size() == 2) { op.every = std::max(2L, atol(e[0].c_str())); op.nextEvery = op.every; op.everyStall = atol(e[1].c_str()); }
		for (auto& x : split(l.get("af"), ',')) { auto v = split(x, ':'); if (v.size() == 3) op.fails.push_back({v[0], atol(v[1].c_str()), atol(v[2].c_str())}); }
		op.mode = l.get("mode");
		long w = l.num("work");
		for (auto& z : zone) { size_t n = 0; for (auto& x : z.second) n = std::max(n, x.text.size()); bytes += n; } // key records are input too
		// an operation that is repeated may work that often; without the work check only an endless loop is looked for
		long times = (l.num("rep", 1) > 0 ? l.num("rep", 1) : 1) * (l.num("tries", 1) > 0 ? l.num("tries", 1) : 1) * (1 + std::max(0L, l.num("again"))) * (l.has("first") || l.has("late") ? 2 : 1);
		op.limit = w ? w : (60000000 + 3000 * (long)bytes) * times;
		if (armed("work") && !w) { op.limit = (2000000 + 600 * (long)bytes) * times; op.takeLimit = (1000000 + 400 * (long)bytes) * times; }
		if (l.has("sclock") || l.has("sdns")) {
			op.scripted = true;
			for (auto& x : split(l.get("sclock"), ',')) op.clockScript.push_back(atol(x.c_str()));
			for (auto& x : split(l.get("sdns"), '\n')) { size_t c = x.find(':'); if (c != string::npos) op.dnsScript.push_back({"", atoi(x.c_str()), plan::unesc(x.substr(c + 1))}); }
		}
		self->op = &op;
		if (sim::threadsInLib() > 1) hit(sim::C_probe_two_threads_inside_library);
		errno = 0;
		if (l.has("errno")) { errno = (int)l.num("errno"); hit(sim::C_errno_pollution); }
	}
	~OpScope() { self->op = nullptr; }
};

static void record(const Line& l, const Op& op, const string& outcome, const string& mail, const OptCfg* cfg)
{
	if (!twinSink || op.fired) return;
	Plan p;
	p.add("prop").set("id", "SOLO");
	if (l.has("m")) p.add("mail").set("id", "m").set("data", mail);
	if (cfg) p.l.push_back(cfgLine(*cfg, "o"));
	if (l.has("pub") && keys.count(l.get("pub"))) p.add("key").set("id", l.get("pub")).set("rec", keys[l.get("pub")].rec);
	Line x = l;
	for (const char* k : {"th", "first", "late", "reuse", "pre", "every", "errno", "af"}) x.del(k);
	if (x.has("m")) x.set("m", "m");
	if (x.has("o")) x.set("o", "o");
	vector<string> c, d;
	for (long v : op.clock) c.push_back(std::to_string(v));
	for (auto& a : op.dns) d.push_back(std::to_string(a.status) + ":" + plan::esc(a.text));
	x.set("sclock", plan::join(c, ',')).set("sdns", plan::join(d, '\n'));
	p.l.push_back(x);
	twinSink->push_back({p.str(), outcome});
}
static string soloOutcome;
static void outcomeOf(const Line& l, const Op& op, const string& out, const string& mail, const OptCfg* cfg = nullptr)
{
	ev("outcome " + l.kind + " " + out);
	sim::shape(l.kind + (l.kind == "sign" || l.kind == "aux" || l.kind == "dnsq" ? out.substr(0, 6) : "") + (op.fired ? "!" : ""));
	if (solo) soloOutcome = out;
	else record(l, op, out, mail, cfg);
}
static long minClk(const Op& op, size_t from, long a, long b) { long m = std::min(a, b); for (size_t i = from; i < op.clock.size(); ++i) m = std::min(m, op.clock[i]); return m; }
static long maxClk(const Op& op, size_t from, long a, long b) { long m = std::max(a, b); for (size_t i = from; i < op.clock.size(); ++i) m = std::max(m, op.clock[i]); return m; }

// ---- signing ------------------------------------------------------------------------------------------------
struct ClkWin { vector<long> reads; long lo, hi; bool allows(long v) const { if (reads.empty()) return v >= lo && v <= hi; for (long r : reads) if (r == v) return true; return false; } };

static bool allDigits(const string& s) { return !s.empty() && s.find_first_not_of("0123456789") == string::npos; }

static void checkSigned(const string& text, const string& mail, const OptCfg& c, const ClkWin& w)
{
	auto bad = [&](const string& why) { violate("bad-signature", why + " | signature: " + text); };
	string full = text + "\r\n" + mail;
	ref::Msg orig = ref::parse(mail), m = ref::parse(full);
	size_t n = 1 + c.add.size();
	if (m.f.size() != orig.f.size() + n) bad("the result is not " + std::to_string(n) + " header field(s)");
	string body = orig.hasBody ? ref::canonBody(orig.body, c.br) : string(c.br ? "" : "\r\n");
	if (c.hasl && c.l > body.size()) bad("body limit " + std::to_string(c.l) + " beyond the canonical body of " + std::to_string(body.size()));
	vector<AsigCfg> want; want.push_back(c.main); for (auto& a : c.add) want.push_back(a);
	std::multiset<string> left;
	for (auto& a : want) left.insert(ref::lower(a.d) + "/" + a.s + "/" + a.alg);
	std::map<string, int> present;
	for (auto& f : orig.f) if (f.colon && !f.name.empty()) ++present[f.name];
	for (size_t i = 0; i < n; ++i) {
		if (m.f[i].name != (c.arc ? "arc-message-signature" : "dkim-signature")) bad("wrong field name");
		ref::Sig s = ref::parseSig(m.f[i]);
		if (!s.ok) bad("signature field is invalid: " + s.why);
		if (s.hr) for (auto& f : m.f) if (ref::bareCR(f.raw)) bad("relaxed signature over a bare CR");
		string id = s.d + "/" + s.s + "/" + (s.rsa ? "rsa" : "ed");
		auto it = left.find(id);
		if (it == left.end()) bad("unrequested signature " + id);
		left.erase(it);
		const AsigCfg* a = nullptr; bool uniq = true;
		for (auto& x : want) if (ref::lower(x.d) + "/" + x.s + "/" + x.alg == id) { if (a && a->key != x.key) uniq = false; a = &x; }
		if (s.sha1 != c.sha1 || s.hr != c.hr || s.br != c.br) bad("algorithm or canonicalization not as configured");
		if (s.hasl != c.hasl || (c.hasl && s.l != c.l)) bad("l= not as configured");
		if (c.arc && s.inst != c.arc) bad("i= is not the ARC instance");
		if (!c.arc) {
			string id2 = c.identity.empty() ? "" : c.identity;
			string idom = ref::lower(id2.substr(id2.rfind('@') + 1)); // an identity belongs only to signatures of its domain
			bool within = idom == s.d || (idom.size() > s.d.size() && idom.compare(idom.size() - s.d.size() - 1, string::npos, "." + s.d) == 0);
			if (!id2.empty() && within && (s.ilocal + "@" + s.idom) != id2.substr(0, id2.rfind('@')) + "@" + ref::lower(id2.substr(id2.rfind('@') + 1))) bad("i= is not the configured identity");
			if (id2.empty() && (!s.ilocal.empty() || s.idom != s.d)) bad("unrequested identity");
		}
		// times
		if (s.hast != c.hast) bad("t= presence not as configured");
		long t = -1;
		if (s.hast) {
			if (!allDigits(s.t)) bad("t= is not a number");
			t = atol(s.t.c_str());
			if (c.t != -1 ? t != c.t : !w.allows(t)) bad("t= is neither the requested time nor the current time");
		}
		if (s.hasx != c.hasx) bad("x= presence not as configured");
		if (s.hasx) {
			if (c.xabs) { if (s.xodd || s.x != c.x) bad("x= is not the requested expiry"); }
			else if (s.hast) { if (s.xodd || s.x != t + c.x) bad("x= is not the offset from this signature's timestamp"); }
			else if (s.xodd || !w.allows(s.x - c.x)) bad("x= is not the offset from the current time");
		}
		// coverage
		std::map<string, int> listed;
		for (auto& h : s.h) ++listed[h];
		std::set<string> sel;
		for (auto& h : c.headers) sel.insert(ref::lower(h));
		for (auto& p : present) if ((c.headers.empty() || sel.count(p.first)) && listed[p.first] < p.second) bad("field " + p.first + " is not covered at each occurrence");
		std::map<string, int> over;
		for (auto& h : c.over) ++over[ref::lower(h)];
		for (auto& o : over) if (listed[o.first] < present[o.first] + o.second) bad("field " + o.first + " is not oversigned");
		for (auto& x : listed) if (!sel.count(x.first) && !c.headers.empty() && !over.count(x.first) && x.second) bad("field " + x.first + " is covered without being selected");
		if (ref::digest(c.hasl ? body.substr(0, c.l) : body, c.sha1) != s.bh) bad("bh= is not the digest of the canonical body");
		// an independent verifier accepts it, under the key that was configured
		if (uniq) {
			string rec = ref::record(a->key);
			ref::Judge j = ref::judge(m, i, &rec);
			if (j.noKey || j.key) bad("an independent verifier rejects it: " + j.why);
		}
	}
}

static bool signable(const OptCfg& c, const string& mail, string& why)
{
	ref::Msg m = ref::parse(mail);
	string body = m.hasBody ? ref::canonBody(m.body, c.br) : string(c.br ? "" : "\r\n");
	if (c.hasl && c.l > body.size()) { why = "limit"; return false; }
	if (!goodKey(c.main)) { why = "key"; return false; }
	for (auto& a : c.add) if (!goodKey(a)) { why = "key"; return false; }
	return true;
}
// inputs outside what the property speaks about
static bool signOutside(const OptCfg& c, const string& mail)
{
	ref::Msg m = ref::parse(mail);
	bool from = false;
	for (auto& f : m.f) { if (f.name == "from") from = true; if (!f.colon || f.raw[0] == ' ' || f.raw[0] == '\t') return true; if (ref::bareCR(f.raw)) return true; for (char ch : f.name) if (ch <= ' ' || ch > 126 || ch == ';' || ch == ':') return true; if (f.name.empty()) return true; }
	if (!from) return true;
	bool sel = c.headers.empty();
	for (auto& h : c.headers) if (ref::lower(h) == "from") sel = true;
	for (auto& h : c.over) if (ref::lower(h) == "from") sel = true;
	if (!sel) return true;
	if (c.main.alg == "ed" && c.sha1) return true;
	for (auto& a : c.add) if (a.alg == "ed" && c.sha1) return true;
	if (c.main.d.empty() || c.main.s.empty()) return true;
	if (c.hast && c.t < -1) return true;
	if (c.hasx && c.x < 0) return true; // neither a time nor a duration that the field can express
	if (!c.identity.empty() && !c.arc) {
		string i = "." + ref::lower(c.identity.substr(c.identity.rfind('@') + 1)), d = "." + ref::lower(c.main.d);
		if (i.size() < d.size() || i.compare(i.size() - d.size(), string::npos, d) != 0) return true;
	}
	return c.unknownKey;
}

static void opSign(const Line& l)
{
	string mid = l.get("m", "m"), oid = l.get("o", "o");
	if (!mails.count(mid) || !opts.count(oid)) return;
	hit(sim::C_op_sign); ++sim::res->ops;
	string mail = mails[mid];
	Opt& o = opts[oid];
	OptCfg cfg = o.cfg;
	sim::Src src = source(l);
	OpScope sc(l, mail.size());
	long tries = l.num("tries", 1);
	string text, outcome;
	bool ok = false, faulted = false;
	if (mail.size() > 9000) hit(sim::C_probe_body_multi_buffer);
	if (cfg.arc) hit(sim::C_probe_arc);
	if (!cfg.add.empty()) hit(sim::C_probe_multi_sig);
	if (!cfg.over.empty()) hit(sim::C_probe_oversign);
	if (cfg.hasl) hit(sim::C_probe_limit);
	bool out = signOutside(cfg, mail);
	for (long a = 0; a < tries && !ok; ++a) {
		if (a) { hit(sim::C_retry); sim::delay(l.num("back", 1000)); }
		sim::SimBuf buf(mail, src);
		std::istream in(&buf);
		long again = l.num("again");
		if (!(a < src.failed)) buf.tell(in);
		std::unique_ptr<DKIM::Signatory> s;
		// the signer made another signature of this message before
		if (!a && opts.count(l.get("first")) && src.f.empty() && !src.failed && !src.noseek && sc.op.fails.empty()) {
			hit(sim::C_probe_other_signature_first);
			guard([&] { Lib g; s.reset(new DKIM::Signatory(in)); s->CreateSignature(*opts[l.get("first")].o); });
			sc.op.clock.clear();
		}
		int f0 = src.fired; long a0 = sc.op.fired;
		if (a < src.failed) { in.setstate(std::ios_base::failbit); ++src.fired; hit(sim::C_failed_stream); }
		size_t c0 = sc.op.clock.size();
		long lo = sim::clockNow(self), t0 = sim::now;
		Out r = guard([&] { Lib g; if (!s) s.reset(new DKIM::Signatory(in)); text = s->CreateSignature(*o.o); });
		long hi = sim::clockNow(self);
		if (sim::now - t0 > 1000000) hit(sim::C_probe_time_passed_in_op);
		outcome += (a ? " | " : "") + (r.cls == "ok" ? "signed " + text : r.str());
		if (r.cls == "ok") { hit(sim::C_sign_ok); ok = true; } else hit(sim::C_sign_error);
		bool readFault = src.fired > f0, other = sc.op.fired > a0;
		ClkWin w{vector<long>(sc.op.clock.begin() + (long)c0, sc.op.clock.end()), std::min(lo, hi), std::max(lo, hi)};
		string why;
		bool can = signable(cfg, mail, why);
		if (readFault) {
			faulted = true;
			if (armed("io") && r.cls == "ok") violate("signed-after-read-error", "a signature was returned although reading failed: " + text);
			if (armed("io") && !isTemp(r) && !other) violate("wrong-class", "reading failed but signing reported " + r.str());
		}
		if (r.cls == "ok" && !out && !readFault) {
			if (!can && why == "limit" && (armed("sign") || armed("limit"))) violate("signed-beyond-limit", "limit " + std::to_string(cfg.l) + " exceeds the canonical body");
			if (!can && why == "key" && armed("sign")) violate("signed-without-key", text);
			if (armed("sign") || (armed("faultsign") )) checkSigned(text, mail, cfg, w);
		}
		if (r.cls != "ok" && !readFault && !other && !out) {
			if (can && (armed("sign") || armed("recover"))) violate("not-signed", "signing failed without a reason: " + r.str());
			if (!can && armed("sign") && !isPerm(r)) violate("wrong-class", "expected a permanent error, got " + r.str());
		}
		if (r.cls == "other" && !other && armed("exc")) violate("wrong-exception", "signing: " + r.what);
		// the same signer again after a failure, with or without the caller putting the source back to the start
		if (long same = l.num("same")) for (long k = 0; k < 3 && !ok && s && r.cls != "ok"; ++k) {
			size_t c2 = sc.op.clock.size();
			long lo2 = sim::clockNow(self);
			if (same == 1) try { in.clear(); in.seekg((std::streamoff)(src.base + (long)src.start), std::istream::beg); } catch (const std::ios_base::failure&) { }
			bool placed = same == 1 && in.good();
			int f2 = src.fired; long a2 = sc.op.fired;
			hit(sim::C_retry);
			Out r2 = guard([&] { Lib g; text = s->CreateSignature(*o.o); });
			long hi2 = sim::clockNow(self);
			outcome += " | same: " + (r2.cls == "ok" ? text : r2.str());
			bool rf2 = src.fired > f2, other2 = sc.op.fired > a2;
			if (rf2 && armed("io") && r2.cls == "ok") violate("signed-after-read-error", "a signature was returned although reading failed: " + text);
			if (rf2 && armed("io") && !isTemp(r2) && !other2) violate("wrong-class", "reading failed but signing reported " + r2.str());
			if (r2.cls == "ok" && !rf2) {
				ok = true;
				if (!out && (armed("sign") || armed("again") || armed("recover") || armed("faultsign"))) {
					if (!can) violate("signed-without-key", text);
					checkSigned(text, mail, cfg, ClkWin{vector<long>(sc.op.clock.begin() + (long)c2, sc.op.clock.end()), std::min(lo2, hi2), std::max(lo2, hi2)});
				}
			}
			else if (!rf2 && !other2 && placed && can && !out && (armed("sign") || armed("again") || armed("recover"))) violate("not-signed", "signing again with the same signer failed: " + r2.str());
		}
		if (ok && faulted && !readFault) hit(sim::C_probe_recovered_after_fault);
		for (; again > 0 && s && r.cls == "ok" && !other; --again) {
			string text2; size_t c1 = sc.op.clock.size(); int f1 = src.fired; long a1 = sc.op.fired;
			long lo2 = sim::clockNow(self);
			Out r2 = guard([&] { Lib g; text2 = s->CreateSignature(*o.o); });
			long hi2 = sim::clockNow(self);
			ClkWin w2{vector<long>(sc.op.clock.begin() + (long)c1, sc.op.clock.end()), std::min(lo2, hi2), std::max(lo2, hi2)};
			outcome += " | again: " + (r2.cls == "ok" ? text2 : r2.str());
			if (src.fired > f1 || sc.op.fired > a1) {
				if (src.fired > f1 && armed("io") && !isTemp(r2)) violate("wrong-class", "reading failed but signing reported " + r2.str());
				break;
			}
			if ((armed("again") || armed("sign")) && !out) {
				if (r2.cls != "ok") violate("second-signing", "signing again with the same signer failed: " + r2.str());
				checkSigned(text2, mail, cfg, w2);
			}
			if (armed("again") && !cfg.hast && !cfg.hasx && text2 != text) violate("second-signing", "signing again gave another result: " + text2 + " instead of " + text);
		}
		{ Lib g; s.reset(); }
	}
	if (ok) mails[mid] = text + "\r\n" + mail;
	outcomeOf(l, sc.op, outcome, mail, &cfg);
}

// A signature by another implementation, prepended to the message.
static void opFsign(const Line& l)
{
	string mid = l.get("m", "m");
	if (!mails.count(mid)) return;
	hit(sim::C_op_fsign);
	ref::Foreign f;
	f.field = l.get("field", "DKIM-Signature");
	for (auto& x : split(l.get("tags"), ';')) { size_t e = x.find('='); f.tags.emplace_back(x.substr(0, e), e == string::npos ? "" : x.substr(e + 1)); }
	f.pre = l.get("pre1", " "); f.eq = l.get("eq"); f.post = l.get("post"); f.sep = l.get("sep");
	f.keyname = l.get("key", "r1024a");
	f.sha1 = l.num("sha1") != 0; f.hr = l.num("hr") != 0; f.br = l.num("br") != 0;
	f.hasl = l.has("l"); f.l = strtoul(l.get("l").c_str(), nullptr, 10);
	f.bfold = (int)l.num("bfold"); f.bhfold = (int)l.num("bhfold"); f.fws = l.get("fws", "\r\n\t "); f.bpre = l.get("bpre"); f.bpost = l.get("bpost");
	f.trail = l.num("trail") != 0;
	f.bMod = l.get("bmod"); f.bhMod = l.get("bhmod");
	f.badBh = l.get("badbh"); f.badB = l.get("badb");
	string field = ref::foreignSign(f, mails[mid]);
	mails[mid] = field + "\r\n" + mails[mid];
	ev("foreign " + field);
}

// ---- verifying ------------------------------------------------------------------------------------------------
enum { PASS = 64, OTHER = 128 };
static string maskStr(int m)
{
	string s;
	if (m & PASS) s += " pass"; if (m & ref::FAIL) s += " fail"; if (m & ref::PERM) s += " permerror"; if (m & ref::TEMP) s += " temperror"; if (m & OTHER) s += " other-exception";
	return s;
}
static int outMask(const Out& o)
{
	if (o.cls == "ok") return PASS;
	if (o.cls == "perm/fail") return ref::FAIL;
	if (o.cls == "perm/permerror") return ref::PERM;
	if (o.cls == "temp/temperror") return ref::TEMP;
	return OTHER;
}

static void opVerify(const Line& l)
{
	string mid = l.get("m", "m");
	if (!mails.count(mid)) return;
	hit(sim::C_op_verify); ++sim::res->ops;
	string mail = mails[mid];
	string type = l.get("type", "dkim");
	bool wire = l.get("res", "custom") == "wire";
	sim::Src src = source(l);
	ref::Msg m = ref::parse(mail);
	vector<size_t> idx;
	for (size_t i = 0; i < m.f.size(); ++i)
		if ((type == "dkim" && m.f[i].name == "dkim-signature") || (type == "arc" && m.f[i].name == "arc-message-signature")) idx.push_back(i);
	bool oddHead = false;
	for (auto& f : m.f) if (!f.raw.empty() && (f.raw[0] == ' ' || f.raw[0] == '\t')) oddHead = true; // continuation without a field
	OpScope sc(l, mail.size() * (1 + idx.size()));
	if (mail.size() > 9000) hit(sim::C_probe_body_multi_buffer);
	if (idx.size() > 1) hit(sim::C_probe_multi_sig);
	if (type == "arc" && !idx.empty()) hit(sim::C_probe_arc);
	long tries = l.num("tries", 1), rep = l.num("rep", 1);
	long data = l.num("data");
	bool reuse = l.num("reuse") != 0, dirty = l.num("reuse") == 2; // 2: the key object is used again as it was left
	string sharedKey = l.get("pub");
	string outcome;
	bool hadTemp = false, sawRecovery = false;
	std::map<size_t, string> firstVerdict;
	for (long a = 0; a < tries; ++a) {
		if (a) { hit(sim::C_retry); sim::delay(l.num("back", 1000)); }
		bool anyTemp = false;
		sim::SimBuf buf(mail, src);
		std::istream in(&buf);
		std::unique_ptr<DKIM::Validatory> v;
		int f0 = src.fired; long af0 = sc.op.fired;
		if (a < src.failed) { in.setstate(std::ios_base::failbit); ++src.fired; hit(sim::C_failed_stream); }
		else buf.tell(in);
		Out r = guard([&] {
			Lib g;
			v.reset(new DKIM::Validatory(in, type == "arc" ? DKIM::Validatory::ARC : type == "none" ? DKIM::Validatory::NONE : DKIM::Validatory::DKIM));
			if (!wire) { v->CustomDNSResolver = sim::customResolver; if (data) v->CustomDNSData = sc.op.dnsData = &sim::res->ctr[data]; }
		});
		if (a) outcome += " || ";
		if (r.cls != "ok") {
			outcome += "open: " + r.str();
			bool other = sc.op.fired > af0;
			if (src.fired > f0) { if (armed("io") && !isTemp(r) && !other) violate("wrong-class", "reading the header failed but the verifier reported " + r.str()); }
			else if (!other) { if (armed("pass") || armed("exc") || armed("class")) violate("not-opened", "the message could not be opened: " + r.str()); }
			{ Lib g; v.reset(); }
			hadTemp = anyTemp = true;
			continue;
		}
		if (src.fired > f0 && armed("io")) violate("verified-after-read-error", "reading the header failed but the message was accepted");
		auto& sigs = v->GetSignatures();
		outcome += std::to_string(sigs.size()) + " signatures";
		if (sigs.size() != idx.size() && armed("count") && !oddHead && src.fired == f0) violate("signature-count", std::to_string(sigs.size()) + " signatures found, the message has " + std::to_string(idx.size()));
		bool aligned = sigs.size() == idx.size() && !oddHead;
		vector<DKIM::Validatory::SignatureList::const_iterator> its;
		for (auto i = sigs.begin(); i != sigs.end(); ++i) its.push_back(i);
		vector<size_t> order;
		for (long k = 0; k < rep; ++k) {
			vector<size_t> o1;
			for (size_t i = 0; i < its.size(); ++i) o1.push_back(i);
			string ord = l.get("order", "fwd");
			if (ord == "rev") std::reverse(o1.begin(), o1.end());
			else if (ord.compare(0, 3, "mix") == 0) { plan::Rng g((uint64_t)atol(ord.c_str() + 3) + (uint64_t)k); for (size_t i = o1.size(); i > 1; --i) std::swap(o1[i - 1], o1[(size_t)g.below((long)i)]); }
			order.insert(order.end(), o1.begin(), o1.end());
		}
		if (order.size() > 60) order.resize(60);
		struct Kept { size_t i; Objs ob; int got; string ctx; bool weird; };
		std::list<Kept> kept;
		long late = reuse ? 0 : l.num("late");
		for (size_t oi = 0; oi < order.size(); ++oi) {
			size_t i = order[oi];
			Objs local;
			Objs& ob = reuse ? objs[self->id] : local;
			int f1 = src.fired; long af1 = sc.op.fired;
			size_t d1 = sc.op.dns.size(), c1 = sc.op.clock.size();
			long lo = sim::clockNow(self), t0 = sim::now;
			string stage = "sig", det;
			bool parsed = false, pubParsed = false, soft = false;
			SharedKey* sk = !sharedKey.empty() && keys.count(sharedKey) && keys[sharedKey].ok ? &keys[sharedKey] : nullptr;
			Out r2 = guard([&] {
				Lib g;
				if (!ob.sig) ob.sig.reset(new DKIM::Signature); else ob.sig->Reset();
				if (!ob.pub) ob.pub.reset(new DKIM::PublicKey); else if (!dirty) ob.pub->Reset();
				v->GetSignature(its[i], *ob.sig);
				parsed = true;
				stage = "dns";
				if (!sk) { v->GetPublicKey(*ob.sig, *ob.pub); pubParsed = true; soft = ob.pub->SoftFail(); }
				stage = "check";
				v->CheckSignature(its[i], *ob.sig, sk ? *sk->pub : *ob.pub);
			});
			long hi = sim::clockNow(self);
			if (sim::now - t0 > 1000000) hit(sim::C_probe_time_passed_in_op);
			if (parsed) {
				const DKIM::Signature& s = *ob.sig;
				string hl; for (auto& h : s.GetSignedHeaders()) hl += h + ":";
				det = " d=" + s.GetDomain() + " s=" + s.GetSelector() + " i=" + s.GetMailLocalPart() + "@" + s.GetMailDomain() + " h=" + hl + " l=" + (s.GetBodySizeLimit() ? std::to_string(s.GetBodySize()) : "-") +
					" a=" + std::to_string((int)s.GetSignatureAlgorithm()) + std::to_string((int)s.GetDigestAlgorithm()) + " c=" + std::to_string((int)s.GetCanonModeHeader()) + std::to_string((int)s.GetCanonModeBody()) +
					" arc=" + std::to_string(s.GetARCInstance()) + (s.IsARC() ? "A" : "D");
				if (pubParsed) { string fl; for (auto& x : ob.pub->GetFlags()) fl += x + ":"; det += " t=" + fl + " dig=" + std::to_string(ob.pub->GetDigestAlgorithms().size()) + (soft ? " soft" : ""); }
			}
			outcome += " ; #" + std::to_string(i) + " " + r2.str() + det;
			sim::shape("v" + r2.cls + stage + (a ? "r" : ""));
			int got = outMask(r2);
			hit(got == PASS ? sim::C_sig_pass : got == ref::FAIL ? sim::C_sig_fail : got == ref::PERM ? sim::C_sig_perm : got == ref::TEMP ? sim::C_sig_temp : sim::C_sig_other);
			bool readFault = src.fired > f1, other = sc.op.fired > af1 || dirty; // a used key object may refuse
			if (anyTemp) hadTemp = true;
			if (got == ref::TEMP) anyTemp = true;
			if (!aligned) { if (!reuse) { Lib g; ob.sig.reset(); ob.pub.reset(); } continue; }

			// what should have happened
			const string* rec = nullptr;
			int dns = 2; string recText;
			if (sk) { dns = 0; recText = sk->rec; rec = &recText; }
			else if (sc.op.dns.size() > d1) { auto& an = sc.op.dns.back(); dns = an.status; recText = an.text; if (dns == 0 && !recText.empty()) rec = &recText; if (dns == 0 && recText.empty()) dns = 2; }
			else dns = 4; // not asked
			ref::Judge j = ref::judge(m, idx[i], rec);
			if (j.weird) hit(sim::C_probe_weird_input);
			long cl = minClk(sc.op, c1, lo, hi), ch = maxClk(sc.op, c1, lo, hi);
			int expected = 0; bool exp = false, maybeExp = false;
			if (j.sig.ok && j.sig.hasx && !j.sig.xodd) {
				vector<long> reads(sc.op.clock.begin() + (long)c1, sc.op.clock.end());
				exp = j.sig.x < cl; maybeExp = j.sig.x < ch;
				if (reads.size() == 1) exp = maybeExp = j.sig.x < reads[0];
				if (exp) hit(sim::C_probe_expired);
				if (!exp && j.sig.x - ch <= 1) hit(sim::C_probe_expiry_boundary);
			}
			int noKey = j.noKey;
			if (exp) noKey |= ref::PERM;
			if (readFault) expected = ref::TEMP | (armed("io") ? 0 : 0);
			else if (dns == 4) expected = noKey ? noKey : (PASS | ref::FAIL | ref::PERM | ref::TEMP); // a verifier that never asks for a key
			else if (dns == 3) expected = OTHER | noKey;
			else if (dns == 1) expected = ref::TEMP | noKey;
			else if (dns == 2) expected = ref::PERM | noKey;
			else { expected = noKey | j.key; if (!expected) expected = PASS; }
			if (maybeExp && !exp) expected |= ref::PERM;
			if (dns == 4 && !noKey && !readFault && got == PASS) expected &= ~PASS; // no key was looked up
			if (!noKey && !readFault && dns == 4 && !other && (armed("pass") || armed("keyq") || armed("class")) && !j.weird && !maybeExp) {
				// nothing wrong before the key lookup, yet none was made
				violate("rejected-before-lookup", "signature " + std::to_string(i) + " was rejected without a key lookup: " + r2.str());
			}
			string ctx = "signature " + std::to_string(i) + ": got" + maskStr(got) + " " + r2.what + ", expected" + maskStr(expected) + (j.why.empty() ? "" : " (" + j.why + ")") + " stage " + stage;
			bool weird = j.weird;
			if (armed("keyq") && sc.op.dnsDataWrong) violate("resolver-data", "the application's resolver was not called with the application's data");
			if (armed("keyq") && !sk && !weird)
				for (size_t q = d1; q < sc.op.dns.size(); ++q)
					if (j.sig.ok && ref::lower(sc.op.dns[q].q) != ref::lower(j.sig.s) + "._domainkey." + j.sig.d) violate("wrong-query", "asked for " + sc.op.dns[q].q);
			if (got == PASS && !(expected & PASS) && !weird) {
				if (readFault) { if (armed("io")) violate("verified-after-read-error", ctx); }
				else if (exp && !j.noKey && !j.key && dns == 0) { if (armed("time")) violate("passed-expired", ctx); }
				else if (armed("nopass")) violate("false-pass", ctx);
				else if (armed("nokeypass") && dns != 0) violate("false-pass", ctx);
			}
			if (got == PASS && readFault && armed("io")) violate("verified-after-read-error", ctx);
			if (!other && !weird) {
				if (expected == PASS && got != PASS) {
					if (armed("pass") || (armed("recover") && hadTemp)) violate("not-passed", ctx);
					if (armed("time") && j.sig.hasx && r2.what.find("xpire") != string::npos) violate("expired-too-early", ctx);
				}
				if (expected == PASS && got == PASS) { hit(sim::C_probe_intact_must_pass); if (hadTemp) { hit(sim::C_probe_recovered_after_fault); sawRecovery = true; } }
				if (!(expected & PASS) && got != PASS) hit(sim::C_probe_tampered_not_passed);
				if (got != PASS && !(expected & got) && !(expected & PASS)) {
					if (readFault ? armed("io") : dns == 1 || dns == 2 ? armed("class") || armed("dnsclass") : armed("class")) violate("wrong-class", ctx);
					if (exp && armed("time")) violate("wrong-class", ctx);
				}
				if (dns == 1 && got == ref::PERM && noKey == 0 && armed("dnsclass")) violate("wrong-class", ctx);
			}
			if (got == OTHER && !other && dns != 3 && armed("exc")) violate("wrong-exception", ctx);
			if (parsed && armed("fields") && j.sig.ok && !other && !weird) {
				const DKIM::Signature& s = *ob.sig; const ref::Sig& g = j.sig;
				std::list<string> hl; for (auto& h : s.GetSignedHeaders()) hl.push_back(ref::lower(h));
				bool same = s.GetDomain() == g.d && s.GetSelector() == g.s && s.GetBodySizeLimit() == g.hasl && (!g.hasl || s.GetBodySize() == g.l) && s.IsARC() == g.arc &&
					(g.arc ? s.GetARCInstance() == g.inst : s.GetMailDomain() == g.idom && s.GetMailLocalPart() == g.ilocal) &&
					(s.GetSignatureAlgorithm() == DKIM::DKIM_SA_RSA) == g.rsa && (s.GetDigestAlgorithm() == DKIM::DKIM_A_SHA1) == g.sha1 &&
					(s.GetCanonModeHeader() == DKIM::DKIM_C_RELAXED) == g.hr && (s.GetCanonModeBody() == DKIM::DKIM_C_RELAXED) == g.br && vector<string>(hl.begin(), hl.end()) == g.h;
				if (!same) violate("wrong-fields", "signature " + std::to_string(i) + " is reported as" + det);
			}
			if (pubParsed && armed("flags") && rec) {
				ref::Key k = ref::parseKey(*rec);
				if (k.ok && !k.odd && soft != k.flagY) violate("testing-flag", string("testing flag reported ") + (soft ? "set" : "clear") + " for record " + *rec);
				if (!k.ok && !k.odd && !other) violate("bad-record-accepted", k.why + ": " + *rec);
			}
			if (armed("stable") && !readFault && !other && dns != 3) {
				string key = std::to_string(dns) + (rec ? *rec : "") + (maybeExp ? "x" : "");
				string verdict = key + r2.str();
				if (firstVerdict.count(i) && firstVerdict[i].compare(0, key.size(), key) == 0 && firstVerdict[i] != verdict && !j.sig.hasx) violate("unstable-verdict", "signature " + std::to_string(i) + ": first " + firstVerdict[i] + ", then " + verdict);
				firstVerdict[i] = verdict;
			}
			if (late && kept.size() < 8 && parsed && pubParsed && !readFault && !other && (got == PASS || got == ref::FAIL)) { kept.emplace_back(); kept.back().i = i; kept.back().ob.sig = std::move(ob.sig); kept.back().ob.pub = std::move(ob.pub); kept.back().got = got; kept.back().ctx = ctx; kept.back().weird = weird; }
			if (!reuse) { Lib g; ob.sig.reset(); ob.pub.reset(); }
		}
		// what was parsed and looked up is kept and checked again when all signatures have been seen
		if (late == 2) kept.reverse();
		for (auto& k : kept) {
			hit(sim::C_probe_late_check);
			int f1 = src.fired; long af1 = sc.op.fired;
			string at = "body hash";
			Out r3 = guard([&] { Lib g; if (late != 3) v->CheckBodyHash(*k.ob.sig); at = "signature"; v->CheckSignature(*its[k.i], *k.ob.sig, *k.ob.pub); });
			if (src.fired == f1 && sc.op.fired == af1 && outMask(r3) != k.got && !k.weird) {
				string ctx = "checking the " + at + " again: " + r3.str() + ", before: " + k.ctx;
				if (outMask(r3) == PASS ? armed("nopass") : k.got == PASS && (armed("pass") || armed("recover"))) violate(outMask(r3) == PASS ? "false-pass" : "not-passed", ctx);
				if (armed("stable")) violate("unstable-verdict", ctx);
			}
			if (src.fired > f1 && outMask(r3) == PASS && armed("io")) violate("verified-after-read-error", k.ctx);
			Lib g; k.ob.sig.reset(); k.ob.pub.reset();
		}
		{ Lib g; v.reset(); }
		if (!anyTemp) break;
		hadTemp = true;
	}
	(void)sawRecovery;
	outcomeOf(l, sc.op, outcome, mail);
}

// ---- body canonicalization alone ------------------------------------------------------------------------------------
static void opCanon(const Line& l)
{
	string mid = l.get("m", "m");
	if (!mails.count(mid)) return;
	hit(sim::C_op_canon); ++sim::res->ops;
	string mail = mails[mid];
	sim::Src src = source(l);
	OpScope sc(l, mail.size() * 4);
	bool relaxed = l.get("c") == "r";
	ref::Msg m = ref::parse(mail);
	string want = m.hasBody ? ref::canonBody(m.body, relaxed) : string(relaxed ? "" : "\r\n");
	sim::SimBuf buf(mail, src);
	std::istream in(&buf);
	buf.tell(in);
	string outcome;
	DKIM::Message msg;
	int f0 = src.fired;
	Out r = guard([&] { Lib g; while (msg.ParseLine(in) && !msg.IsDone()) { } });
	if (r.cls != "ok" || src.fired > f0) {
		if (armed("io") && src.fired > f0 && !isTemp(r)) violate("wrong-class", "reading the header failed: " + r.str());
		outcomeOf(l, sc.op, r.str(), mail);
		return;
	}
	if (mail.size() > 9000) hit(sim::C_probe_body_multi_buffer);
	if (armed("canon") && m.hasBody && msg.GetBodyOffset() < 0) violate("body-offset", "no body found");
	for (auto& lim : split(l.get("l", "-"), ',')) {
		bool has = lim != "-";
		size_t n = has ? strtoul(lim.c_str(), nullptr, 10) : 0;
		string got; bool ret = false;
		int f1 = src.fired; long af1 = sc.op.fired;
		Out o = guard([&] {
			Lib g;
			ret = DKIM::Conversion::CanonicalizationBody(in, relaxed ? DKIM::DKIM_C_RELAXED : DKIM::DKIM_C_SIMPLE, msg.GetBodyOffset(), has, n,
				[&](const char* p, size_t k) { sim::Out q; got.append(p, k); });
		});
		outcome += lim + ": " + o.str() + " " + std::to_string(ret) + " " + std::to_string(got.size()) + " " + ref::b64e(ref::digest(got, false)) + "; ";
		if (src.fired > f1) { if (armed("io") && !isTemp(o) && sc.op.fired == af1) violate("wrong-class", "reading the body failed: " + o.str()); continue; }
		if (sc.op.fired > af1) continue;
		if (o.cls != "ok") { if (armed("canon")) violate("canon", "canonicalization failed: " + o.str()); continue; }
		string w = has && n < want.size() ? want.substr(0, n) : want;
		if (armed("canon")) {
			if (got != w) {
				size_t d = 0; while (d < got.size() && d < w.size() && got[d] == w[d]) ++d;
				violate("canon", "canonical body differs at byte " + std::to_string(d) + " (got " + std::to_string(got.size()) + " bytes, expected " + std::to_string(w.size()) + ", limit " + lim + ")");
			}
			if (has && ret != (n <= want.size())) violate("canon-limit", "limit " + lim + " on a canonical body of " + std::to_string(want.size()) + " bytes reported " + (ret ? "reached" : "not reached"));
			if (!has && !ret) violate("canon-limit", "no limit, but reported as not reached");
		}
	}
	outcomeOf(l, sc.op, outcome, mail);
}

// ---- the built-in resolver alone --------------------------------------------------------------------------------------
static void opDnsq(const Line& l)
{
	hit(sim::C_op_dnsq); ++sim::res->ops;
	string q = l.get("q", "sel._domainkey.example.org"), pkt = l.get("pkt");
	OpScope sc(l, pkt.size());
	int len = (int)l.num("len", (long)pkt.size());
	bool ret = false; string text = l.get("prior");
	string prior = text;
	sim::dnsPacket = nullptr;
	string asked;
	packets[q] = pkt;
	sim::dnsPacket = [](const string& name, string& p, int& n) { auto i = packets.find(name); if (i == packets.end()) return false; p = i->second; n = (int)p.size(); sim::delay(200); return true; };
	if (len < 0) { // lookup failed with -h_errno
		packets.erase(q);
		sim::dnsPacket = nullptr;
	}
	Out o = guard([&] { Lib g; ret = DKIM::Util::Resolver().GetTXT(q, text); });
	outcomeOf(l, sc.op, o.str() + " " + std::to_string(ret) + " " + text, "");
	if (o.cls != "ok") { if (armed("wire")) violate("wrong-exception", "resolver: " + o.str()); return; }
	if (!armed("wire")) return;
	string got = text.compare(0, prior.size(), prior) == 0 ? text.substr(prior.size()) : text;
	ref::Wire w = ref::decodeTXT(pkt);
	if (l.num("well")) {
		if (!ret) violate("reply-refused", "a well-formed reply was reported as a failed lookup");
		if (got != w.text) violate("reply-text", "decoded " + std::to_string(got.size()) + " bytes \"" + got.substr(0, 200) + "\", expected " + std::to_string(w.text.size()) + " bytes \"" + w.text.substr(0, 200) + "\"");
	} else {
		bool okCut = got.empty();
		for (size_t c : w.cuts) if (got.size() == c && got == w.text.substr(0, c)) okCut = true;
		if (!okCut && !w.ambiguous) violate("reply-text", "text outside the records of the reply: \"" + got.substr(0, 200) + "\"");
	}
}

// ---- the pure functions, as part of a history -------------------------------------------------------------------------
static string auxCall(const string& f, const string& s)
{
	string o;
	if (f == "b64e") o = DKIM::Conversion::Base64_Encode(s);
	else if (f == "b64d") o = DKIM::Conversion::Base64_Decode(s);
	else if (f == "qpe") o = DKIM::Conversion::QuotedPrintable::Encode(s);
	else if (f == "qpd") o = DKIM::Conversion::QuotedPrintable::Decode(s);
	else if (f == "ew") o = DKIM::Conversion::EncodedWord::Decode(s);
	else if (f == "addr") { for (auto& x : DKIM::Tokenizer::ParseAddressList(s)) o += x + "|"; }
	else if (f == "vlist") { for (auto& x : DKIM::Tokenizer::ValueList(s)) o += x + "|"; }
	else if (f == "tags") { DKIM::TagList t; t.Parse(s); for (const char* n : {"a", "b", "v", "d", "x"}) { DKIM::TagListEntry e; if (t.GetTag(n, e)) o += string(n) + "=" + e.GetValue() + "@" + std::to_string((long)e.GetValueOffset()) + "|"; } }
	else if (f == "hrel") o = DKIM::Conversion::CanonicalizationHeader(DKIM::DKIM_C_RELAXED).FilterHeader(s);
	else if (f == "hsim") o = DKIM::Conversion::CanonicalizationHeader(DKIM::DKIM_C_SIMPLE).FilterHeader(s);
	else if (f == "dom") o = DKIM::Util::ValidateDomain(s) ? "1" : "0";
	return o;
}
static void opAux(const Line& l)
{
	hit(sim::C_op_aux); ++sim::res->ops;
	string f = l.get("f"), s = l.get("s"), res;
	OpScope sc(l, s.size());
	Out o;
	if (f == "pk") {
		bool reuse = l.num("reuse") != 0;
		Objs local; Objs& ob = reuse ? objs[self->id] : local;
		o = guard([&] { Lib g; if (!ob.pub) ob.pub.reset(new DKIM::PublicKey); else ob.pub->Reset(); ob.pub->Parse(s); });
		if (o.cls == "ok") {
			for (auto& x : ob.pub->GetFlags()) res += x + ":";
			res += std::to_string(ob.pub->GetDigestAlgorithms().size()) + " " + std::to_string((int)ob.pub->GetSignatureAlgorithm()) + std::to_string(ob.pub->GetServiceType().size()) + std::to_string(ob.pub->GetRSAPublicKey() != nullptr) + ref::b64e(ob.pub->GetED25519PublicKey());
		}
		if (!reuse) { Lib g; ob.pub.reset(); }
	} else o = guard([&] { Lib g; res = auxCall(f, s); });
	if (o.cls == "other" && !sc.op.fired && armed("exc")) violate("wrong-exception", f + ": " + o.what);
	outcomeOf(l, sc.op, o.str() + " " + res, "");
}
static void opKey(const Line& l)
{
	hit(sim::C_op_key);
	SharedKey& k = keys[l.get("id", "k")];
	k.rec = l.get("rec");
	Op op; self->op = &op;
	Out o = guard([&] { Lib g; k.pub.reset(new DKIM::PublicKey); k.pub->Parse(k.rec); });
	self->op = nullptr;
	k.ok = o.cls == "ok";
	ev("key " + o.str());
}

#include "tool.inc"

// ---- running ------------------------------------------------------------------------------------------------------------
static void exec(const Line& l)
{
	if (l.kind == "mail") { mails[l.get("id", "m")] = l.get("data"); }
	else if (l.kind == "copy") { if (mails.count(l.get("from"))) mails[l.get("id")] = mails[l.get("from")]; }
	else if (l.kind == "opt") { OpScope sc(l, 100000); opOpt(l); }
	else if (l.kind == "fsign") opFsign(l);
	else if (l.kind == "sign") opSign(l);
	else if (l.kind == "edit") {
		string id = l.get("m", "m");
		if (!mails.count(id)) return;
		string cls = l.get("cls", "tamper");
		string n = edit(mails[id], l, [](const string& x) { auto i = mails.find(x); return i == mails.end() ? string() : i->second; });
		if (n != mails[id]) hit(cls == "benign" ? sim::C_relay_benign : cls == "damage" ? sim::C_relay_damage : sim::C_relay_tamper);
		mails[id] = n;
	}
	else if (l.kind == "verify") opVerify(l);
	else if (l.kind == "canon") opCanon(l);
	else if (l.kind == "dnsq") opDnsq(l);
	else if (l.kind == "aux") opAux(l);
	else if (l.kind == "key") opKey(l);
	else if (l.kind == "tool") opTool(l);
	else if (l.kind == "wait") sim::delay(l.num("us"));
}

static const std::map<string, vector<string>> armTable = {
	{"C01", {"sign", "pass", "count", "exc", "keyq"}},
	{"C02", {"nopass"}},
	{"C03", {"pass", "nopass", "class", "fields", "count", "keyq"}},
	{"C04", {"canon", "pass", "nopass", "sign", "limit"}},
	{"C05", {"io", "recover", "nopass"}},
	{"C06", {"dnsclass", "keyq", "nokeypass", "recover", "pass"}},
	{"C07", {"wire"}},
	{"C08", {"nopass", "pass", "flags", "class", "keyq"}},
	{"C09", {"time", "sign", "pass"}},
	{"C10", {"again", "pass", "nopass", "sign", "class", "flags", "fields", "stable", "keyq"}},
	{"C11", {"pass", "nopass", "sign", "class", "keyq"}},
	{"C12", {"nopass", "faultsign", "recover", "pass"}},
	{"C13", {}},
	{"C14", {"exc", "work", "wire"}},
	{"C15", {"pass", "nopass", "class", "count", "stable", "sign", "keyq"}},
	{"C16", {"pass", "nopass", "class", "count", "fields", "sign", "keyq"}},
	{"C17", {"tool"}},
	{"SOLO", {}},
};

static void setup(const Plan& p)
{
	for (auto& l : p.l) {
		if (l.kind == "prop") { prop = l.get("id"); auto i = armTable.find(prop); if (i != armTable.end()) arms = std::set<string>(i->second.begin(), i->second.end()); }
		else if (l.kind == "zone") { zone[ref::lower(l.get("q"))].push_back({l.num("at"), (int)l.num("st"), l.get("rec")}); }
		else if (l.kind == "dnslat") dnsLat = l.num("us");
	}
	for (auto& z : zone) std::stable_sort(z.second.begin(), z.second.end(), [](const ZoneRec& a, const ZoneRec& b) { return a.at < b.at; });
	sim::dnsAnswer = [](const string& q) {
		if (dnsLat) { hit(sim::C_dns_stall); }
		sim::delay(1 + dnsLat);
		sim::DnsAns a{q, 2, ""};
		auto i = zone.find(ref::lower(q));
		if (i != zone.end()) {
			const ZoneRec* cur = nullptr; size_t n = 0;
			for (auto& r : i->second) if (r.at <= sim::now) { cur = &r; ++n; }
			if (cur) { a.status = cur->st; a.text = cur->text; if (n > 1) hit(sim::C_dns_rotation); }
		}
		if (a.status == 1) hit(a.text == "servfail" ? sim::C_dns_servfail : a.text == "refused" ? sim::C_dns_refused : sim::C_dns_timeout);
		if (a.status == 2) { hit(sim::C_dns_nx); }
		if (a.status == 0 && a.text.empty()) { hit(sim::C_dns_empty); }
		if (a.status == 1 && a.text == "internal") hit(sim::C_dns_internal);
		if (a.status && a.text != "nodata" && a.text != "internal" && a.text != "partial") a.text.clear();
		return a;
	};
}
static void clockSetup(const Plan& p, sim::Thread* t)
{
	for (auto& l : p.l) {
		if (l.kind == "clock" && l.num("th") == t->id) { t->clk0 = l.num("base", 1700000000); hit(sim::C_clock_skew); }
		if (l.kind == "jump" && l.num("th") == t->id) { t->jumps.emplace_back(l.num("at"), l.num("by")); hit(sim::C_clock_jump); }
	}
}
static void reset()
{
	{ Lib g; objs.clear(); keys.clear(); }
	dropOpts();
	mails.clear();
	packets.clear();
}
static void makeMain()
{
	sim::Thread* t = new sim::Thread;
	t->id = 0; sem_init(&t->sem, 0, 0); t->th = pthread_self();
	self = t; sim::mainThread = t;
}

void run(const Plan& p, const std::function<void()>& atEnd)
{
	makeMain();
	setup(p);
	clockSetup(p, self);
	long rounds = 1;
	for (auto& l : p.l) if (l.kind == "rounds") rounds = l.num("n", 1);
	vector<long> live, bytes;
	if (rounds > 1) sim::trackStart();
	long ser = 0;
	for (long r = 0; r < rounds; ++r) {
		if (rounds > 1) ser = sim::trackSerial();
		std::map<int, vector<const Line*>> per;
		for (auto& l : p.l) { int th = (int)l.num("th"); if (th == 0 || l.kind == "clock" || l.kind == "jump") { if (th == 0) exec(l); } else per[th].push_back(&l); }
		for (auto& t : per) {
			auto* v = &t.second;
			sim::Thread* x = sim::spawn(t.first, [v] { for (auto l : *v) { exec(*l); sim::delay(1); } });
			clockSetup(p, x);
		}
		if (!per.empty()) sim::runAll();
		reset();
		if (rounds > 1) { live.push_back(sim::trackLive()); bytes.push_back(sim::trackBytes()); }
	}
	if (rounds >= 5) {
		size_t n = live.size();
		hit(sim::C_probe_rounds_compared);
		ev("live " + std::to_string(live[n - 1]));
		bool grow = true;
		for (size_t i = n - 4; i + 1 < n; ++i) if (live[i + 1] <= live[i]) grow = false;
		if (n >= 48 && !grow && bytes[5] < bytes[11] && bytes[11] < bytes[23] && bytes[23] < bytes[47])
			violate("leak", std::to_string(bytes[47] - bytes[23]) + " bytes more after twice as many rounds");
		if (grow) sim::trackDump(ser);
		if (grow) violate("leak", std::to_string(live[n - 1] - live[n - 2]) + " blocks (" + std::to_string(bytes[n - 1] - bytes[n - 2]) + " bytes) more after every round");
	}
	if (sim::resOpen && prop == "C13") violate("leak", "resolver state left open");
	if (atEnd) atEnd();
	sim::finish();
}

string runSolo(const Plan& p)
{
	makeMain();
	setup(p);
	solo = true;
	for (auto& l : p.l) exec(l);
	return soloOutcome;
}
}
